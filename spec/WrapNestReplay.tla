--------------------------- MODULE WrapNestReplay ---------------------------
(* Requested interleavings of calls; the outcome of each step is emitted.     *)
EXTENDS WrapNest, Json, IOUtils
VARIABLES b, k
Req == JsonDeserialize(IOEnv.REQ)
Init == /\ b \in 1..Len(Req) /\ k = 0
        /\ ws = Req[b].ws
        /\ st = Tab(Req[b].threads, LAMBDA t : <<>>)
        /\ out = Ok(<<>>)
Next == /\ b' = b
        /\ k < Len(Req[b].ops)
        /\ k' = k + 1
        /\ IF Can(Req[b].ops[k + 1]) THEN Do(Req[b].ops[k + 1])
           ELSE UNCHANGED <<ws, st>> /\ out' = [st |-> "skip", x |-> <<>>]
        /\ PrintT(ToJson([b |-> b, k |-> k', out |-> out']))
Spec == Init /\ [][Next]_<<nvars, b, k>>
=============================================================================
