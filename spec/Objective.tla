------------------------------ MODULE Objective ------------------------------
(* An optimisation objective with iteration count, printing and logging.      *)
(*                                                                            *)
(* State: count; log, a sequence of [n, x, v]; pe, le the intervals; buf, the *)
(* array that the caller passes (and may overwrite at any time).              *)
EXTENDS Cubic, Json, IOUtils
VARIABLES f, count, log, pe, le, buf, hist, last, out
ovars == <<f, count, log, pe, le, buf, hist, last, out>>
\* hist is a history variable: all evaluations since the last log reset, with
\* the settings in force, newest last.  The log must be a function of it.

Ok(x) == [st |-> "ok", x |-> x]
NoOp == [op |-> "none"]
Due(every, n) == every > 0 /\ n % every = 0

Eval(o) ==
  LET v == CF(f, buf)
      e == [n |-> count, x |-> buf, v |-> v]
      d == Due(le, count)
  IN  /\ o.op = "f"
      /\ out' = [st |-> "ok", x |-> v, printed |-> Due(pe, count), logged |-> d, n |-> count]
      /\ log' = IF d THEN Append(log, e) ELSE log
      /\ hist' = Append(hist, [e |-> e, every |-> le])
      /\ count' = count + 1
      /\ UNCHANGED <<f, pe, le, buf>>
Derive(o) ==
  /\ o.op \in {"grad", "hess", "hvp"}
  /\ out' = Ok(CASE o.op = "grad" -> CG(f, buf)
                 [] o.op = "hess" -> CH(f, buf)
                 [] o.op = "hvp" -> MVec(CH(f, buf), o.v))
  /\ UNCHANGED <<f, count, log, pe, le, buf, hist>>
Settings(o) ==
  /\ o.op \in {"setp", "setl"}
  /\ pe' = IF o.op = "setp" THEN o.n ELSE pe
  /\ le' = IF o.op = "setl" THEN o.n ELSE le
  /\ out' = Ok("")
  /\ UNCHANGED <<f, count, log, buf, hist>>
Reset(o) ==
  /\ o.op \in {"reset", "resetc", "resetl"}
  /\ count' = IF o.op = "resetl" THEN count ELSE 0
  /\ log' = IF o.op = "resetc" THEN log ELSE <<>>
  /\ hist' = IF o.op = "resetc" THEN hist ELSE <<>>
  /\ out' = Ok("")
  /\ UNCHANGED <<f, pe, le, buf>>
\* The caller overwrites the array it passed before.
Write(o) ==
  /\ o.op = "write"
  /\ buf' = o.x
  /\ out' = Ok("")
  /\ UNCHANGED <<f, count, log, pe, le, hist>>
Look(o) ==
  /\ o.op = "look"
  /\ out' = Ok([count |-> count, log |-> log])
  /\ UNCHANGED <<f, count, log, pe, le, buf, hist>>

\* The objective raises in the middle of an evaluation (or derivative): the
\* exception reaches the caller and nothing has happened.
Fail(o) ==
  /\ o.op = "fail"
  /\ out' = [st |-> "raised"]
  /\ UNCHANGED <<f, count, log, pe, le, buf, hist>>

Step(o) == /\ last' = o
           /\ Fail(o) \/ Eval(o) \/ Derive(o) \/ Settings(o) \/ Reset(o) \/ Write(o) \/ Look(o)

\* The log is the due evaluations since its last reset, in order.
LogFaithful ==
  log = LET due == SelectSeq(hist, LAMBDA h : Due(h.every, h.e.n))
        IN  Tab(Len(due), LAMBDA i : due[i].e)
LogOrdered == \A i \in 1..Len(log) : log[i].v = CF(f, log[i].x)
CountIs == count >= 0
DerivativesOk == last.op \in {"grad", "hess"} => DerivativesRight(f, buf)
==============================================================================
