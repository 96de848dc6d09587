--------------------------- MODULE WrapStackReplay ---------------------------
(* Requested stacks of wrappers and calls of them; outcomes are emitted.      *)
EXTENDS WrapStack, Json, IOUtils
VARIABLES b, k
Req == JsonDeserialize(IOEnv.REQ)
NoCall == [args |-> <<>>, rets |-> <<>>, tuple |-> FALSE]
Init == /\ b \in 1..Len(Req) /\ k = 0
        /\ way = "none" /\ ws = <<>> /\ call = NoCall
        /\ lvl = 0 /\ cur = <<>> /\ seen = <<>> /\ out = Ok(<<>>)
Emit == IF Ends
        THEN PrintT(ToJson([b |-> b, k |-> k',
               out |-> [st |-> out'.st, seen |-> seen',
                        x |-> IF out'.st = "ok" THEN out'.x ELSE <<>>]]))
        ELSE TRUE
Next == /\ b' = b
        /\ \/ way = "none" /\ New(Req[b].ws) /\ k' = 1
           \/ way = "idle" /\ k < Len(Req[b].ops) /\ Begin(Req[b].ops[k + 1]) /\ k' = k + 1
           \/ (Down \/ Original \/ Up \/ Back) /\ k' = k
        /\ Emit
Spec == Init /\ [][Next]_<<kvars, b, k>>
==============================================================================
