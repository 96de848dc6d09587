------------------------------ MODULE Pipeline ------------------------------
(* The whole chain of an optimisation as users build it: a function of a      *)
(* folded parameter, made a function of its free vector (FlattenFunctionInput)*)
(* preconditioned (PreconditionedFunction) and observed                       *)
(* (OptimizationObjective).                                                   *)
(*                                                                            *)
(* The original function reads the free coordinates z of its parameter off    *)
(* the folded value and returns f(z) (Cubic), so everything is rational.      *)
(* State: that of Precond, and the count, log and intervals of the objective. *)
EXTENDS Precond
VARIABLES count, log, pe, le, hist
pvars == <<qvars, count, log, pe, le, hist>>
\* hist is a history variable: the evaluations since the last reset of the log,
\* with the settings and the preconditioner in force.

Due(every, n) == every > 0 /\ n % every = 0

\* Anything that Precond does to the middle of the chain.
Middle(o) ==
  /\ o.op \in {"ident", "matrix", "funs", "hess", "bad", "call", "unpre", "pre", "both", "mats"}
  /\ SetIdentity(o) \/ SetMatrix(o) \/ SetFunctions(o) \/ SetHessian(o) \/ SetBad(o) \/ Query(o)
  /\ UNCHANGED <<count, log, pe, le, hist>>
Eval(o) ==
  /\ o.op = "f"
  /\ LET v == CF(f, MVec(a, o.x))
         d == Due(le, count)
     IN  /\ out' = [st |-> "ok", x |-> v, printed |-> Due(pe, count), logged |-> d, n |-> count]
         /\ log' = IF d THEN Append(log, [n |-> count, x |-> o.x, v |-> v]) ELSE log
         /\ hist' = Append(hist, [n |-> count, x |-> o.x, a |-> a, due |-> d])
  /\ count' = count + 1
  /\ UNCHANGED <<f, a, ai, pe, le>>
\* Derivatives of the end of the chain; they count as no evaluation.
Derive(o) ==
  /\ o.op \in {"grad", "hessian", "hvp"}
  /\ LET g == MVec(Transp(a), CG(f, MVec(a, o.x)))
         h == MMul(Transp(a), MMul(CH(f, MVec(a, o.x)), a))
     IN  out' = Ok(CASE o.op = "grad" -> g [] o.op = "hessian" -> h [] o.op = "hvp" -> MVec(h, o.v))
  /\ UNCHANGED <<f, a, ai, count, log, pe, le, hist>>
\* The folded parameter of a preconditioned point, told by its free coordinates,
\* and the preconditioned point of a folded parameter.
Ends(o) ==
  /\ o.op \in {"solution", "start"}
  /\ out' = Ok(MVec(IF o.op = "solution" THEN a ELSE ai, o.x))
  /\ UNCHANGED <<f, a, ai, count, log, pe, le, hist>>
Settings(o) ==
  /\ o.op \in {"setp", "setl", "reset"}
  /\ pe' = IF o.op = "setp" THEN o.n ELSE pe
  /\ le' = IF o.op = "setl" THEN o.n ELSE le
  /\ count' = IF o.op = "reset" THEN 0 ELSE count
  /\ log' = IF o.op = "reset" THEN <<>> ELSE log
  /\ hist' = IF o.op = "reset" THEN <<>> ELSE hist
  /\ out' = Ok("")
  /\ UNCHANGED <<f, a, ai>>
Look(o) ==
  /\ o.op = "look"
  /\ out' = Ok([count |-> count, log |-> log])
  /\ UNCHANGED <<f, a, ai, count, log, pe, le, hist>>

PStep(o) == /\ last' = o
            /\ Middle(o) \/ Eval(o) \/ Derive(o) \/ Ends(o) \/ Settings(o) \/ Look(o)

----------------------------------------------------------------------------
\* A log entry is the original function at the point which the preconditioner of
\* that moment made of the argument.
LogFaithful ==
  log = LET due == SelectSeq(hist, LAMBDA h : h.due)
        IN  Tab(Len(due), LAMBDA i : [n |-> due[i].n, x |-> due[i].x, v |-> CF(f, MVec(due[i].a, due[i].x))])
\* From start to solution and back, where the inverse is one.
RoundTrip ==
  (last.op = "solution" /\ MMul(a, ai) = Ident(Len(a)) /\ MMul(ai, a) = Ident(Len(a))) => MVec(ai, out.x) = last.x
\* A quadratic function preconditioned with its own unclipped Hessian is solved by
\* one gradient step from anywhere.
NewtonStep ==
  (/\ last.op = "grad" /\ \A i, j \in 1..Len(a) : f.c[i][j] = Zero
   /\ MMul(Transp(a), MMul(f.h, a)) = Ident(Len(a))) =>
    \A i \in 1..Len(a) : CG(f, MVec(a, VSub(last.x, out.x)))[i] = Zero
=============================================================================
