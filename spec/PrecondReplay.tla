---------------------------- MODULE PrecondReplay ----------------------------
EXTENDS Precond
VARIABLES b, k
Req == JsonDeserialize(IOEnv.REQ)
Init == /\ b \in 1..Len(Req) /\ k = 0
        /\ f = Req[b].f /\ a = Ident(Len(Req[b].f.l)) /\ ai = a
        /\ last = NoOp /\ out = Ok("")
Next == /\ k < Len(Req[b].ops)
        /\ k' = k + 1
        /\ b' = b
        /\ Step(Req[b].ops[k + 1])
        /\ PrintT(ToJson([b |-> b, k |-> k', out |-> out']))
Spec == Init /\ [][Next]_<<qvars, b, k>>
==============================================================================
