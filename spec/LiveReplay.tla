------------------------------ MODULE LiveReplay ------------------------------
EXTENDS Live
VARIABLES b, k
Req == JsonDeserialize(IOEnv.REQ)
Empty == [x \in {} |-> 0]
Init == /\ b \in 1..Len(Req) /\ k = 0 /\ last = NoOp /\ out = Ok("")
        /\ objs = <<>> /\ docs = <<>> /\ files = Empty /\ reg = Empty /\ store = Empty
Next == /\ k < Len(Req[b].ops)
        /\ k' = k + 1
        /\ b' = b
        /\ LStep(Req[b].ops[k + 1])
        /\ PrintT(ToJson([b |-> b, k |-> k', out |-> out']))
Spec == Init /\ [][Next]_<<lvars, fixed, b, k>>
=============================================================================
