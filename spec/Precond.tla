------------------------------- MODULE Precond -------------------------------
(* Preconditioned functions: f composed with a linear map, and the ways of    *)
(* choosing that map.  Also the spectral helpers.                             *)
(*                                                                            *)
(* State: f (Cubic), the preconditioner a and its inverse ai as matrices.     *)
(* Hessians are given by an orthogonal matrix q (columns are eigenvectors)    *)
(* and the square roots s of the eigenvalues, so everything is rational; a    *)
(* negative s stands for the eigenvalue -s^2 (which must be clipped).         *)
EXTENDS Cubic, Json, IOUtils
VARIABLES f, a, ai, last, out
qvars == <<f, a, ai, last, out>>

Ok(x) == [st |-> "ok", x |-> x]
Err(e) == [st |-> e]
NoOp == [op |-> "none"]

\* limits: <<>> absent, <<1,0>> and <<-1,0>> beyond every number
ClipLo(x, lo) == IF lo = <<>> THEN x
                 ELSE IF lo[2] = 0 THEN (IF lo[1] < 0 THEN x ELSE lo)
                 ELSE IF RLt(x, lo) THEN lo ELSE x
ClipHi(x, hi) == IF hi = <<>> \/ x[2] = 0 THEN x
                 ELSE IF hi[2] = 0 THEN (IF hi[1] > 0 THEN x ELSE hi)
                 ELSE IF RLt(hi, x) THEN hi ELSE x
Clip(x, lo, hi) == ClipHi(ClipLo(x, lo), hi)

\* q diag(d) q'
Spectral(q, d) == MMul(MMul(q, DiagM(d)), Transp(q))
RAbs(x) == IF x[1] < 0 THEN RNeg(x) ELSE x
HessOf(o) == Spectral(o.q, Tab(Len(o.s), LAMBDA i : RMul(o.s[i], RAbs(o.s[i]))))
Clipped(o) == Tab(Len(o.s), LAMBDA i : Clip(o.s[i], o.lo, o.hi))

Set(x, xi) == /\ a' = x /\ ai' = xi /\ out' = Ok("") /\ f' = f
Ask(x) == out' = Ok(x) /\ UNCHANGED <<f, a, ai>>
Refuse(e) == out' = Err(e) /\ UNCHANGED <<f, a, ai>>

SetIdentity(o) == o.op = "ident" /\ Set(Ident(Len(a)), Ident(Len(a)))
SetMatrix(o) ==
  /\ o.op = "matrix"
  /\ Set(o.a, IF o.inv = <<>> THEN MInv(o.a) ELSE o.inv)
SetFunctions(o) == o.op = "funs" /\ Set(o.a, o.inv)
SetHessian(o) ==
  /\ o.op = "hess"
  \* at a point: the Hessian of f there is the matrix described
  /\ o.x # <<>> => Assert(CH(f, o.x) = HessOf(o), "request: wrong Hessian")
  /\ LET c == Clipped(o)
     IN  Set(Spectral(o.q, Tab(Len(c), LAMBDA i : RInv(c[i]))), Spectral(o.q, c))
SetBad(o) ==
  /\ o.op = "bad"
  /\ Refuse(IF o.what = "sparse" THEN "NotImplementedError" ELSE "ValueError")

Norm2(v) == Dot(v, v)
Query(o) ==
  \/ o.op = "call" /\ Ask(CF(f, MVec(a, o.x)))
  \/ o.op = "grad" /\ Ask(MVec(Transp(a), CG(f, MVec(a, o.x))))
  \/ o.op = "hessian" /\ Ask(MMul(Transp(a), MMul(CH(f, MVec(a, o.x)), a)))
  \/ o.op = "unpre" /\ Ask(MVec(a, o.x))
  \/ o.op = "pre" /\ Ask(MVec(ai, o.x))
  \/ o.op = "both" /\ Ask([pu |-> MVec(ai, MVec(a, o.x)), up |-> MVec(a, MVec(ai, o.x))])
  \/ o.op = "mats" /\ Ask([a |-> a, ai |-> ai])
  \/ /\ o.op = "check"
     /\ LET e == Norm2(VSub(o.x, MVec(a, MVec(ai, o.x))))
        IN  IF RLt(RMul(o.tol, o.tol), e)
            THEN out' = [st |-> "ValueError", e |-> e] /\ UNCHANGED <<f, a, ai>>
            ELSE out' = [st |-> "ok", x |-> "", e |-> e] /\ UNCHANGED <<f, a, ai>>

\* ---- spectral helpers; they do not touch the state ----
Fn(name, x) ==
  CASE name = "square" -> RMul(x, x)
    [] name = "inverse" -> RInv(x)
    [] name = "negate" -> RNeg(x)
    [] name = "zero" -> Zero
    [] name = "same" -> x
    [] name = "plus" -> RAdd(x, Two)
\* The first k columns of q are given, with eigenvalues ev.
Eigenspace(q, k, ev, fn, v) ==
  LET d == Tab(Len(q), LAMBDA i : IF i <= k THEN Fn(fn, ev[i]) ELSE One)
  IN  MVec(Spectral(q, d), v)
Helper(o) ==
  \/ o.op = "trunc" /\ Ask(Tab(Len(o.ev), LAMBDA i : Clip(o.ev[i], o.lo, o.hi)))
  \/ /\ o.op = "eig"
     /\ IF o.bad = "" THEN Ask(Eigenspace(o.q, o.k, o.ev, o.fn, o.v)) ELSE Refuse("ValueError")
  \* the matrix h with the lower factor l under the permutation perm
  \/ /\ o.op = "sparse"
     /\ Ask(LET n == Len(o.l)
                m == MMul(o.l, Transp(o.l))
            IN  MTab(n, n, LAMBDA i, j : m[o.perm[i]][o.perm[j]]))

Step(o) == /\ last' = o
           /\ \/ SetIdentity(o) \/ SetMatrix(o) \/ SetFunctions(o) \/ SetHessian(o)
              \/ SetBad(o) \/ Query(o) \/ Helper(o)

----------------------------------------------------------------------------
(* Properties *)
IsInverse(x, y) == MMul(x, y) = Ident(Len(x)) /\ MMul(y, x) = Ident(Len(x))

\* Without an inverse of the caller's own, the two undo each other.
UndoesItself == (\/ last.op \in {"ident", "hess"}
                 \/ last.op = "matrix" /\ last.inv = <<>>) => IsInverse(a, ai)
InverseRoot ==
  last.op = "hess" =>
    LET c == Clipped(last)
        h == Spectral(last.q, VHad(c, c))
    IN  /\ MMul(Transp(last.q), last.q) = Ident(Len(a))
        /\ a = Transp(a)
        /\ MMul(a, MMul(h, a)) = Ident(Len(a))
        /\ (last.lo = <<>> /\ last.hi = <<>>) => MMul(Transp(a), MMul(HessOf(last), a)) = Ident(Len(a))
\* Units do not matter: twice the root of the Hessian and of the limits, half the
\* preconditioner.  (The harness runs histories in other units, too.)
Homogeneous ==
  last.op = "hess" =>
    LET Twice(x) == IF x = <<>> \/ x[2] = 0 THEN x ELSE RMul(Two, x)
        c == Tab(Len(last.s), LAMBDA i : Clip(RMul(Two, last.s[i]), Twice(last.lo), Twice(last.hi)))
        b == Spectral(last.q, Tab(Len(c), LAMBDA i : RInv(c[i])))
    IN  \A i, j \in 1..Len(a) : RMul(Two, b[i][j]) = a[i][j]
\* The chain rule, by differentiating the composition itself.
ChainRule ==
  last.op \in {"grad", "hessian"} =>
    LET n == Len(a)
        g == MVec(Transp(a), CG(f, MVec(a, last.x)))
        h == MMul(Transp(a), MMul(CH(f, MVec(a, last.x)), a))
        J(k, m) ==
          LET x == Tab(n, LAMBDA i : <<last.x[i], IF i = k THEN One ELSE Zero,
                                       IF i = m THEN One ELSE Zero, Zero>>)
          IN  CJ(f, Tab(n, LAMBDA i : JSum(Tab(n, LAMBDA j : JScale(a[i][j], x[j])))))
    IN  \A k \in 1..n : \A m \in 1..k :
          J(k, m) = <<CF(f, MVec(a, last.x)), g[k], g[m], h[k][m]>>
\* Identity on the orthogonal complement, Fn on the eigenvectors.
EigenspaceRight ==
  (last.op = "eig" /\ last.bad = "") =>
    LET n == Len(last.q)
        qt == Transp(last.q)
    IN  \A i \in 1..n :
          Eigenspace(last.q, last.k, last.ev, last.fn, qt[i])
            = VScale(IF i <= last.k THEN Fn(last.fn, last.ev[i]) ELSE One, qt[i])
TruncRight ==
  last.op = "trunc" =>
    \A i \in 1..Len(last.ev) :
      LET x == last.ev[i]
          y == out.x[i]
      IN  \/ y = x \/ y = last.lo \/ y = last.hi
Symmetric == last.op = "sparse" => out.x = Transp(out.x)
==============================================================================
