------------------------------ MODULE PipelineMC ------------------------------
(* Every history of the requested operations with at most maxc evaluations      *)
(* since the last reset.  The history variable is left out of the view: the log *)
(* depends on it only through LogFaithful.                                      *)
EXTENDS Pipeline
Req == JsonDeserialize(IOEnv.REQ)
Ops == Req.ops
Init == /\ f = Req.f /\ a = Ident(Len(Req.f.l)) /\ ai = a
        /\ count = 0 /\ log = <<>> /\ hist = <<>> /\ pe = Req.pe /\ le = Req.le
        /\ last = NoOp /\ out = Ok("")
St(x, xi, c, l, p, e) == <<x, xi, c, l, p, e>>
Next == \E i \in 1..Len(Ops) :
          /\ PStep(Ops[i])
          /\ PrintT(ToJson([f |-> St(a, ai, count, log, pe, le), i |-> i, out |-> out',
                            t |-> St(a', ai', count', log', pe', le')]))
Spec == Init /\ [][Next]_pvars
View == <<a, ai, count, log, pe, le>>
Bound == count <= Req.maxc
==============================================================================
