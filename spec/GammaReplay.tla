------------------------------ MODULE GammaReplay ------------------------------
EXTENDS Gamma
VARIABLES b, k
Req == JsonDeserialize(IOEnv.REQ)
Init == b \in 1..Len(Req) /\ k = 0 /\ last = NoOp /\ out = Ok("")
Next == /\ k < Len(Req[b].ops)
        /\ k' = k + 1
        /\ b' = b
        /\ Step(Req[b].ops[k + 1])
        /\ PrintT(ToJson([b |-> b, k |-> k', out |-> out']))
Spec == Init /\ [][Next]_<<gvars, b, k>>
===============================================================================
