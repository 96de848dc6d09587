--------------------------- MODULE ObjectiveReplay ---------------------------
EXTENDS Objective
VARIABLES b, k
Req == JsonDeserialize(IOEnv.REQ)
Init == /\ b \in 1..Len(Req) /\ k = 0
        /\ f = Req[b].f /\ count = 0 /\ log = <<>> /\ hist = <<>>
        /\ pe = Req[b].pe /\ le = Req[b].le /\ buf = Req[b].f.x0
        /\ last = NoOp /\ out = Ok("")
Next == /\ k < Len(Req[b].ops)
        /\ k' = k + 1
        /\ b' = b
        /\ Step(Req[b].ops[k + 1])
        /\ PrintT(ToJson([b |-> b, k |-> k', out |-> out', count |-> count', len |-> Len(log')]))
Spec == Init /\ [][Next]_<<ovars, b, k>>
==============================================================================
