----------------------------- MODULE WrapReplay -----------------------------
(* Requested wrappers and calls; the outcome of each operation is emitted.  *)
EXTENDS Wrap, Json, IOUtils
VARIABLES b, k
Req == JsonDeserialize(IOEnv.REQ)
Op(i) == Req[b].ops[i]
Init == /\ b \in 1..Len(Req)
        /\ k = 0
        /\ pc = "none" /\ w = <<>> /\ call = NoCall
        /\ acc = <<>> /\ pos = 1 /\ last = 0 /\ seen = <<>> /\ out = Ok(<<>>)
Emit == IF Ends(0) THEN PrintT(ToJson([b |-> b, k |-> k',
                          out |-> [st |-> out'.st, seen |-> seen',
                                   x |-> IF out'.st = "ok" THEN out'.x ELSE <<>>]]))
        ELSE TRUE
Next == /\ b' = b
        /\ \/ pc = "none" /\ New(Req[b].w) /\ k' = 1
           \/ pc = "idle" /\ k < Len(Req[b].ops) /\ Begin(Op(k + 1)) /\ k' = k + 1
           \/ (In \/ Run \/ Out \/ Back) /\ k' = k
        /\ Emit
Spec == Init /\ [][Next]_<<wvars, b, k>>
=============================================================================
