--------------------------- MODULE PipelineReplay ---------------------------
EXTENDS Pipeline
VARIABLES b, k
Req == JsonDeserialize(IOEnv.REQ)
Init == /\ b \in 1..Len(Req) /\ k = 0
        /\ f = Req[b].f /\ a = Ident(Len(Req[b].f.l)) /\ ai = a
        /\ count = 0 /\ log = <<>> /\ hist = <<>> /\ pe = Req[b].pe /\ le = Req[b].le
        /\ last = NoOp /\ out = Ok("")
Next == /\ k < Len(Req[b].ops)
        /\ k' = k + 1
        /\ b' = b
        /\ PStep(Req[b].ops[k + 1])
        /\ PrintT(ToJson([b |-> b, k |-> k', out |-> out']))
Spec == Init /\ [][Next]_<<pvars, b, k>>
==============================================================================
