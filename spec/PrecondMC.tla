------------------------------ MODULE PrecondMC ------------------------------
(* Every order of the requested settings and refusals, every query in every   *)
(* state.  The states are the pairs (a, ai) reachable by the settings.        *)
EXTENDS Precond
Req == JsonDeserialize(IOEnv.REQ)
Ops == Req.ops
Init == /\ f = Req.f /\ a = Ident(Len(Req.f.l)) /\ ai = a
        /\ last = NoOp /\ out = Ok("")
Setting(o) == o.op \in {"none", "ident", "matrix", "funs", "hess", "bad"}
Next == /\ Setting(last)
        /\ \E i \in 1..Len(Ops) :
             /\ Step(Ops[i])
             /\ PrintT(ToJson([f |-> <<a, ai>>, i |-> i, out |-> out', t |-> <<a', ai'>>]))
Spec == Init /\ [][Next]_qvars
View == IF Setting(last) THEN <<a, ai, NoOp>> ELSE <<a, ai, last>>
==============================================================================
