---------------------------- MODULE PersistReplay ----------------------------
EXTENDS Persist
VARIABLES b, k
Req == JsonDeserialize(IOEnv.REQ)
Empty == [x \in {} |-> 0]
Init == b \in 1..Len(Req) /\ k = 0 /\ reg = Empty /\ store = Empty /\ last = NoOp /\ out = Ok("")
Next == /\ k < Len(Req[b].ops)
        /\ k' = k + 1
        /\ b' = b
        /\ Step(Req[b].ops[k + 1])
        /\ PrintT(ToJson([b |-> b, k |-> k', out |-> out']))
Spec == Init /\ [][Next]_<<reg, store, last, out, b, k>>
=============================================================================
