---------------------------- MODULE OrigamiReplay ----------------------------
(* Behaviours given as requests: one initial state per requested pattern,    *)
(* then the requested operations in order.  Every step is emitted.           *)
EXTENDS Origami
VARIABLES b, k
Req == JsonDeserialize(IOEnv.REQ)
Init == /\ b \in 1..Len(Req)
        /\ k = 0
        /\ p = Req[b].p
        /\ last = NoOp
        /\ out = Ok("")
Next == /\ k < Len(Req[b].ops)
        /\ k' = k + 1
        /\ b' = b
        /\ Step(Req[b].ops[k + 1])
        /\ PrintT(ToJson([b |-> b, k |-> k', out |-> out']))
Spec == Init /\ [][Next]_<<p, last, out, b, k>>
=============================================================================
