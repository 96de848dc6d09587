--------------------------------- MODULE Gamma ---------------------------------
(* The gamma function and its relatives at multiples of a quarter, with exact   *)
(* derivatives.                                                                 *)
(*                                                                              *)
(* Numbers are polynomials with rational coefficients in                        *)
(*    sqrt(pi), Euler's gamma, ln 2, zeta(2), .., zeta(7),                      *)
(*    beta(1), .., beta(7) (Dirichlet's), Gamma(1/4), Gamma(3/4)                *)
(* (those of Gamma(1/4), Gamma(1/2), Gamma(3/4) may have negative powers): functions from exponent vectors to      *)
(* non-zero rationals.                                                          *)
EXTENDS Rat, FiniteSets, Json, IOUtils
VARIABLES last, out
gvars == <<last, out>>
Ok(x) == [st |-> "ok", x |-> x]
NoOp == [op |-> "none"]

NS == 18
Mono(k, e) == [i \in 1..NS |-> IF i = k THEN e ELSE 0]
M1 == [i \in 1..NS |-> 0]
Poly(s) == LET t == {m \in DOMAIN s : s[m][1] # 0} IN TLCEval([m \in t |-> s[m]])
PZero == [m \in {} |-> Zero]
PTerm(c, m) == IF c[1] = 0 THEN PZero ELSE [x \in {m} |-> c]
PRat(c) == PTerm(c, M1)
At(p, m) == IF m \in DOMAIN p THEN p[m] ELSE Zero
PAdd(p, q) == Poly([m \in DOMAIN p \cup DOMAIN q |-> RAdd(At(p, m), At(q, m))])
PNeg(p) == [m \in DOMAIN p |-> RNeg(p[m])]
MonoMul(x, y) == [i \in 1..NS |-> x[i] + y[i]]
PMonoMul(p, c, m) == LET s == {MonoMul(x, m) : x \in DOMAIN p}
                     IN  [y \in s |-> RMul(c, p[[i \in 1..NS |-> y[i] - m[i]]])]
RECURSIVE PMulIn(_, _, _)
PMulIn(p, q, todo) ==
  IF todo = {} THEN PZero
  ELSE LET m == CHOOSE x \in todo : TRUE
       IN  PAdd(PMonoMul(p, q[m], m), PMulIn(p, q, todo \ {m}))
PMul(p, q) == PMulIn(p, q, DOMAIN q)
PScale(c, p) == IF c[1] = 0 THEN PZero ELSE [m \in DOMAIN p |-> RMul(c, p[m])]

D == INSTANCE Dual WITH CAdd <- PAdd, CMul <- PMul, CNeg <- PNeg, CZero <- PZero
Q == INSTANCE Dual WITH CAdd <- RAdd, CMul <- RMul, CNeg <- RNeg, CZero <- Zero
RECURSIVE Embed(_, _)
Embed(k, a) == IF k = 0 THEN PRat(a) ELSE <<Embed(k - 1, a[1]), Embed(k - 1, a[2])>>

RECURSIVE RPow(_, _), Fact(_), IPow(_, _)
RPow(x, n) == IF n = 0 THEN One ELSE RMul(x, RPow(x, n - 1))
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Sign(n) == IF n % 2 = 0 THEN One ELSE RInt(-1)

\* x is an integer >= 1, or a multiple of 1/4 which is not an integer
\* the number in (0, 1] which differs from x by an integer
Base(x) == LET r == x[1] % x[2] IN IF r = 0 THEN One ELSE <<r, x[2]>>
IsInt(x) == x[2] = 1
IsHalf(x) == x[2] = 2
\* psi^(n) at 1, 1/2, 1/4 and 3/4:  zeta(s, 1/2) = (2^s - 1) zeta(s), and
\* zeta(s, 1/4), zeta(s, 3/4) = 4^s / 2 ((1 - 2^-s) zeta(s) +- beta(s))
PsiBase(n, x) ==
  IF n = 0
  THEN PAdd(PTerm(RInt(-1), Mono(2, 1)),
            IF IsInt(x) THEN PZero
            ELSE IF IsHalf(x) THEN PTerm(RInt(-2), Mono(3, 1))
            ELSE PAdd(PTerm(RInt(-3), Mono(3, 1)), PTerm(RInt(IF x[1] = 1 THEN -2 ELSE 2), Mono(10, 1))))
  ELSE LET f == RMul(Sign(n + 1), RInt(Fact(n)))
           z == Mono(n + 3, 1)
           p == IPow(2, n + 1)
       IN  IF IsInt(x) THEN PTerm(f, z)
           ELSE IF IsHalf(x) THEN PTerm(RMul(f, RInt(p - 1)), z)
           ELSE PAdd(PTerm(RMul(f, RInt((p \div 2) * (p - 1))), z),
                     PTerm(RMul(f, RInt((IF x[1] = 1 THEN 1 ELSE -1) * (p \div 2) * p)), Mono(n + 10, 1)))
\* psi^(n)(x + 1) = psi^(n)(x) + (-1)^n n! x^(-n-1)
RECURSIVE PsiAt(_, _)
PsiAt(n, x) ==
  LET Jump(y) == PRat(RMul(Sign(n), RMul(RInt(Fact(n)), RPow(RInv(y), n + 1))))
      base == Base(x)
  IN  IF x = base THEN PsiBase(n, x)
      ELSE IF RLt(base, x) THEN LET y == RSub(x, One) IN PAdd(PsiAt(n, y), Jump(y))
      ELSE PAdd(PsiAt(n, RAdd(x, One)), PNeg(Jump(x)))
\* Gamma(x) over Gamma(Base(x))
RECURSIVE GammaRat(_)
GammaRat(x) ==
  IF x = Base(x) THEN One
  ELSE IF RLt(One, x)
       THEN LET y == RSub(x, One) IN RMul(y, GammaRat(y))
  ELSE RDiv(GammaRat(RAdd(x, One)), x)
GammaMono(x, e) == LET y == Base(x)
                   IN  IF y = One THEN M1
                       ELSE Mono(IF y = <<1, 2>> THEN 1 ELSE IF y = <<1, 4>> THEN 17 ELSE 18, e)
GammaAt(x) == PTerm(GammaRat(x), GammaMono(x, 1))
RGammaAt(x) == PTerm(RInv(GammaRat(x)), GammaMono(x, -1))

\* psi, psi', .. (at most n) at x
Psis(x, n) == Tab(n, LAMBDA i : PsiAt(i - 1, x))
\* value and first three derivatives of exp(s ln Gamma), s = 1 or -1
ExpDerivs(g, s, x, k) ==
  LET p == Psis(x, k)
      a == IF k >= 1 THEN PScale(s, p[1]) ELSE PZero
      b == IF k >= 2 THEN PScale(s, p[2]) ELSE PZero
      c == IF k >= 3 THEN PScale(s, p[3]) ELSE PZero
      d1 == a
      d2 == PAdd(PMul(a, a), b)
      d3 == PAdd(PMul(a, d2), PAdd(PScale(Two, PMul(a, b)), c))
      ds == <<PRat(One), d1>> \o (IF k >= 2 THEN <<d2>> ELSE <<>>) \o (IF k >= 3 THEN <<d3>> ELSE <<>>)
  IN  TLCEval(Tab(Len(ds), LAMBDA i : PMul(g, ds[i])))
Derivs(fn, n, x, k) ==
  CASE fn = "gamma" -> ExpDerivs(GammaAt(x), One, x, k)
    [] fn = "rgamma" -> ExpDerivs(RGammaAt(x), RInt(-1), x, k)
       \* the value, ln|Gamma(x)|, is left out here
    [] fn = "gammaln" -> <<PZero>> \o Psis(x, k)
    [] fn \in {"psi", "digamma"} -> Psis(x, k + 1)
    [] fn = "polygamma" -> Tab(k + 1, LAMBDA i : PsiAt(n + i - 1, x))
    [] fn = "gammasgn" -> Tab(k + 1, LAMBDA i : IF i = 1
                            THEN PRat(IF RLt(GammaRat(x), Zero) THEN RInt(-1) ELSE One) ELSE PZero)

\* fn of an affine map of x, times an affine map of x
Affine(k, pt, f) == Q!DAdd(k, Q!DConst(k, f.c), Q!DSum(k, Tab(Len(pt), LAMBDA i : Q!DScale(k, f.l[i], pt[i]))))
Eval(o) ==
  LET k == Len(o.dirs)
      pt == Tab(Len(o.x), LAMBDA i : Q!DVar(k, o.x[i], Tab(k, LAMBDA j : o.dirs[j][i])))
      Entry(j) ==
        LET u == Affine(k, pt, o.arg[j])
            y == D!DLift(k, Derivs(o.fn, o.n, Q!DReal(k, u), k), Embed(k, u))
        IN  D!DMul(k, y, Embed(k, Affine(k, pt, o.mul[j])))
  IN  Tab(Len(o.arg), Entry)
Json1(p) == LET s == SetToSeq(DOMAIN p) IN Tab(Len(s), LAMBDA i : <<s[i], p[s[i]]>>)
\* gamma at the real part of each argument: its logarithm is what gammaln lacks
Bases(o) == Tab(Len(o.arg), LAMBDA j :
  Json1(GammaAt(Q!DReal(0, Affine(0, o.x, o.arg[j])))))
Muls(o) ==
  LET k == Len(o.dirs)
      pt == Tab(Len(o.x), LAMBDA i : Q!DVar(k, o.x[i], Tab(k, LAMBDA j : o.dirs[j][i])))
  IN  Tab(Len(o.mul), LAMBDA j : Q!DFlat(k, Affine(k, pt, o.mul[j])))
Step(o) ==
  /\ last' = o
  /\ LET k == Len(o.dirs)
         e == Eval(o)
     IN  out' = [st |-> "ok", base |-> Bases(o), mul |-> Muls(o),
                 c |-> Tab(Len(e), LAMBDA j : Tab(2 ^ k, LAMBDA s : Json1(D!DFlat(k, e[j])[s])))]

----------------------------------------------------------------------------
(* Properties, at the point of the last request. *)
Pts == IF last = NoOp THEN {} ELSE {Q!DReal(0, Affine(0, last.x, last.arg[j])) : j \in 1..Len(last.arg)}
\* functional equations
Recurrence ==
  \A x \in Pts : x # Zero =>
    /\ PMul(PRat(x), GammaAt(x)) = GammaAt(RAdd(x, One))
    /\ PAdd(PsiAt(0, x), PRat(RInv(x))) = PsiAt(0, RAdd(x, One))
\* gamma rgamma = 1 and gamma' / gamma = psi with all their derivatives
Reciprocal ==
  \A x \in Pts :
    LET u == <<<<PRat(x), PRat(One)>>, <<PRat(One), PZero>>>>
        g == D!DLift(2, Derivs("gamma", 0, x, 2), u)
        h == D!DLift(2, Derivs("rgamma", 0, x, 2), u)
        l == D!DLift(2, Derivs("gammaln", 0, x, 2), u)
    IN  /\ D!DMul(2, g, h) = D!DConst(2, PRat(One))
        /\ D!DMul(1, h[1], g[2]) = l[2]
===============================================================================
