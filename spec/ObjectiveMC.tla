----------------------------- MODULE ObjectiveMC -----------------------------
(* Every history of the requested operations with at most maxc evaluations    *)
(* since the count was reset and maxl log entries.  The history variable is   *)
(* left out of the view: the log depends on it only through LogFaithful.      *)
EXTENDS Objective
Req == JsonDeserialize(IOEnv.REQ)
Ops == Req.ops
Init == /\ f = Req.f /\ count = 0 /\ log = <<>> /\ hist = <<>>
        /\ pe = Req.pe /\ le = Req.le /\ buf = Req.f.x0
        /\ last = NoOp /\ out = Ok("")
St(c, l, p, e, x) == <<c, l, p, e, x>>
Next == \E i \in 1..Len(Ops) :
          /\ Step(Ops[i])
          /\ PrintT(ToJson([f |-> St(count, log, pe, le, buf), i |-> i, out |-> out',
                            t |-> St(count', log', pe', le', buf')]))
Spec == Init /\ [][Next]_ovars
View == <<count, log, pe, le, buf>>
Bound == count <= Req.maxc /\ Len(log) <= Req.maxl /\ Len(hist) < 12
==============================================================================
