---------------------------- MODULE DictLifeReplay ----------------------------
(* Requested histories, from an empty heap.                                   *)
EXTENDS DictLife
VARIABLES b, k
Req == JsonDeserialize(IOEnv.REQ)
Leaf0(n) == Req[b].leaves[n]
Init == b \in 1..Len(Req) /\ k = 0 /\ h = <<>> /\ last = NoOp /\ out = Ok("")
Next == /\ k < Len(Req[b].ops)
        /\ k' = k + 1
        /\ b' = b
        /\ Step(Req[b].ops[k + 1])
        /\ PrintT(ToJson([b |-> b, k |-> k', out |-> out', h |-> h', n |-> Sizes(h')]))
Spec == Init /\ [][Next]_<<h, last, out, b, k>>
=============================================================================
