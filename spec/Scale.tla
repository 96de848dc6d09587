-------------------------------- MODULE Scale --------------------------------
(* Patterns over many orders of magnitude.                                    *)
(*                                                                            *)
(* Numbers are quotients <<num, den>> of Laurent polynomials in a symbol B    *)
(* with rational coefficients: sequences of <<coefficient, exponent>> with    *)
(* nonzero coefficients and descending exponents.  The harness reads B as     *)
(* 2^K for various K.  Everything here is a field identity, valid for every   *)
(* positive B.                                                                *)
(*                                                                            *)
(* Free numbers are <<"re", n, d, m>>: (n/d) B^m, and <<"ln", n, d, m>>:      *)
(* ln((n/d) B^m).  Bounds of numbers are multiplied by B^bm (field bm of the  *)
(* pattern), and the diagonal bound of matrices likewise.                     *)
EXTENDS Patterns, Json, IOUtils

VARIABLES p, last, out

\* ---- Laurent polynomials
PMono(r, m) == IF r[1] = 0 THEN <<>> ELSE << <<r, m>> >>
PExps(a) == {a[i][2] : i \in 1..Len(a)}
PCoef(a, m) == IF m \in PExps(a) THEN a[CHOOSE i \in 1..Len(a) : a[i][2] = m][1] ELSE Zero
RECURSIVE Desc(_)
Desc(S) == IF S = {} THEN <<>> ELSE LET t == CHOOSE x \in S : \A y \in S : y <= x
                                    IN  <<t>> \o Desc(S \ {t})
PAdd(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE
  LET ms == Desc(PExps(a) \cup PExps(b))
  IN  SelectSeq(Tab(Len(ms), LAMBDA i : <<RAdd(PCoef(a, ms[i]), PCoef(b, ms[i])), ms[i]>>),
                LAMBDA t : t[1][1] # 0)
PNeg(a) == Tab(Len(a), LAMBDA i : <<RNeg(a[i][1]), a[i][2]>>)
PShift(a, t) == Tab(Len(a), LAMBDA i : <<RMul(a[i][1], t[1]), a[i][2] + t[2]>>)
PMul(a, b) == FoldLeft(LAMBDA acc, t : PAdd(acc, PShift(a, t)), <<>>, b)
POne == PMono(One, 0)

\* ---- quotients
QPoly(a) == <<a, POne>>
QMono(r, m) == QPoly(PMono(r, m))
QZero == QPoly(<<>>)
QOne == QPoly(POne)
QAdd(x, y) == IF x[2] = y[2] THEN <<PAdd(x[1], y[1]), x[2]>>
              ELSE <<PAdd(PMul(x[1], y[2]), PMul(y[1], x[2])), PMul(x[2], y[2])>>
QNeg(x) == <<PNeg(x[1]), x[2]>>
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) == IF x[1] = <<>> \/ y[1] = <<>> THEN QZero
              ELSE <<PMul(x[1], y[1]), PMul(x[2], y[2])>>
QInv(x) == IF x[1] = <<>> THEN Assert(FALSE, "division by zero") ELSE <<x[2], x[1]>>
QDiv(x, y) == QMul(x, QInv(y))
QEq(x, y) == PMul(x[1], y[2]) = PMul(y[1], x[2])
QSum(s) == FoldLeft(QAdd, QZero, s)
\* the sign for every positive B, of quotients whose polynomials have
\* coefficients of one sign
PSign(a) == IF a = <<>> THEN 0
            ELSE IF \A i \in 1..Len(a) : a[i][1][1] > 0 THEN 1
            ELSE IF \A i \in 1..Len(a) : a[i][1][1] < 0 THEN -1 ELSE 2
QPositive(x) == PSign(x[1]) * PSign(x[2]) = 1

\* ---- the transforms
E(x) == QMono(<<x[2], x[3]>>, x[4])
Bd(q, b) == QMono(b, q.bm)            \* a bound

SNum(q, x) ==
  IF q.lo = <<>> /\ q.hi = <<>> THEN E(x)
  ELSE IF q.hi = <<>> THEN QAdd(Bd(q, q.lo), E(x))
  ELSE IF q.lo = <<>> THEN QSub(Bd(q, q.hi), QInv(E(x)))
  \* (lo + hi e) / (1 + e)
  ELSE <<PAdd(Bd(q, q.lo)[1], PMul(Bd(q, q.hi)[1], E(x)[1])), PAdd(POne, E(x)[1])>>

Weights(xs) == <<POne>> \o Tab(Len(xs), LAMBDA i : E(xs[i])[1])
PSum(s) == FoldLeft(PAdd, <<>>, s)
SSim(xs) == LET w == Weights(xs)
                W == PSum(w)
            IN  Tab(Len(w), LAMBDA i : <<w[i], W>>)

Chol(n, xs) == MTab(n, n, LAMBDA i, j : IF j > i THEN QZero ELSE E(xs[TriIx(i, j)]))
SPsd(q, xs) ==
  LET L == Chol(q.n, xs)
  IN  FlatSeq(MTab(q.n, q.n, LAMBDA i, j :
        QAdd(QSum(Tab(q.n, LAMBDA t : QMul(L[i][t], L[j][t]))),
             IF i = j THEN Bd(q, q.lb) ELSE QZero)))

SFold(q, xs) ==
  CASE q.k = "num" -> Tab(Len(xs), LAMBDA i : SNum(q, xs[i]))
    [] q.k = "sim" -> LET cs == EqualChunks(xs, Prod(q.sh), q.n - 1)
                      IN  FlatSeq(Tab(Len(cs), LAMBDA i : SSim(cs[i])))
    [] q.k = "psd" -> SPsd(q, xs)

\* ---- derivative of the non-free in the free coordinates
SSlope(q, x) ==
  LET e == E(x)
  IN  IF q.lo = <<>> /\ q.hi = <<>> THEN QOne
      ELSE IF q.hi = <<>> THEN e
      ELSE IF q.lo = <<>> THEN QInv(e)
      ELSE QDiv(QMul(QSub(Bd(q, q.hi), Bd(q, q.lo)), e),
                QMul(QAdd(QOne, e), QAdd(QOne, e)))

SU(q, xs) ==
  CASE q.k = "num" ->
         [r |-> Len(xs), c |-> Len(xs),
          m |-> MTab(Len(xs), Len(xs), LAMBDA i, j : IF i = j THEN SSlope(q, xs[i]) ELSE QZero)]
    [] q.k = "sim" ->
         LET cs == EqualChunks(xs, Prod(q.sh), q.n - 1)
             n == q.n
             One1(s, i, j) ==
               LET w == Weights(cs[s])
                   W == PSum(w)
                   o == PSum(Tab(n, LAMBDA t : IF t = i THEN <<>> ELSE w[t]))
               IN  IF i = j + 1 THEN <<PMul(w[i], o), PMul(W, W)>>
                   ELSE <<PNeg(PMul(w[i], w[j + 1])), PMul(W, W)>>
         IN  [r |-> Len(cs) * n, c |-> Len(cs) * (n - 1),
              m |-> MTab(Len(cs) * n, Len(cs) * (n - 1), LAMBDA x, y :
                LET s == ((x - 1) \div n) + 1
                IN  IF ((y - 1) \div (n - 1)) + 1 # s THEN QZero
                    ELSE One1(s, ((x - 1) % n) + 1, ((y - 1) % (n - 1)) + 1))]
    [] q.k = "psd" ->
         LET n == q.n
             L == Chol(n, xs)
             pos == FlatSeq(Tab(n, LAMBDA i : Tab(i, LAMBDA j : <<i, j>>)))
         IN  [r |-> n * n, c |-> Tri(n),
              m |-> MTab(n * n, Tri(n), LAMBDA x, y :
                LET i == ((x - 1) \div n) + 1
                    j == ((x - 1) % n) + 1
                    s == pos[y][1]
                    t == pos[y][2]
                    w == IF s = t THEN L[s][t] ELSE QOne
                IN  QMul(w, QAdd(IF i = s THEN L[j][t] ELSE QZero,
                                 IF j = s THEN L[i][t] ELSE QZero)))]

Split(xs) == LET l == Leaves(p)
             IN  Chunks(xs, Tab(Len(l), LAMBDA i : Len2(l[i], TRUE)))
OnLeaves(xs, F(_, _)) ==
  LET l == Leaves(p)
      cs == Split(xs)
  IN  Tab(Len(l), LAMBDA i : F(l[i], cs[i]))

PairOp(o) ==
  /\ o.op = "pair"
  /\ p' = p /\ last' = o
  /\ out' = [v |-> OnLeaves(o.x, SFold),
             u |-> IF o.jac THEN OnLeaves(o.x, SU) ELSE <<>>]
Step(o) == PairOp(o)

----------------------------------------------------------------------------
Did == last.op = "pair"
EachLeaf(F(_, _, _)) ==
  LET l == Leaves(p)
      cs == Split(last.x)
  IN  \A i \in 1..Len(l) : F(l[i], cs[i], out.v[i])

\* C02: strictly inside the constraints, whatever the free vector
Inside(q, xs, v) ==
  CASE q.k = "num" ->
         \A i \in 1..Len(v) :
           \* v - lo and hi - v, over the positive denominator of v
           /\ q.lo # <<>> => QPositive(QSub(v[i], Bd(q, q.lo))) \/ q.hi # <<>>
           /\ q.hi # <<>> => QPositive(QSub(Bd(q, q.hi), v[i])) \/ q.lo # <<>>
           /\ (q.lo # <<>> /\ q.hi # <<>>) =>
                \* v - lo = (hi - lo) e / (1 + e),  hi - v = (hi - lo) / (1 + e)
                LET w == QSub(Bd(q, q.hi), Bd(q, q.lo))
                    e == E(xs[i])
                IN  /\ QPositive(w)
                    /\ QEq(QSub(v[i], Bd(q, q.lo)), QDiv(QMul(w, e), QAdd(QOne, e)))
                    /\ QEq(QSub(Bd(q, q.hi), v[i]), QDiv(w, QAdd(QOne, e)))
    [] q.k = "sim" ->
         LET cs == EqualChunks(v, Prod(q.sh), q.n)
         IN  \A s \in 1..Len(cs) :
               /\ \A i \in 1..q.n : QPositive(cs[s][i])
               /\ QEq(QSum(cs[s]), QOne)
    [] q.k = "psd" ->
         \A i, j \in 1..q.n : QEq(v[(i - 1) * q.n + j], v[(j - 1) * q.n + i])
InsideOk == Did => EachLeaf(Inside)

\* C01: the logarithms of the distances to the bounds give the vector back
Back(q, xs, v) ==
  CASE q.k = "num" ->
         \A i \in 1..Len(v) :
           QEq(E(xs[i]),
               IF q.lo = <<>> /\ q.hi = <<>> THEN v[i]
               ELSE IF q.hi = <<>> THEN QSub(v[i], Bd(q, q.lo))
               ELSE IF q.lo = <<>> THEN QInv(QSub(Bd(q, q.hi), v[i]))
               ELSE QDiv(QSub(v[i], Bd(q, q.lo)), QSub(Bd(q, q.hi), v[i])))
    [] q.k = "sim" ->
         \A s \in 1..Prod(q.sh) : \A i \in 1..(q.n - 1) :
           QEq(E(xs[(s - 1) * (q.n - 1) + i]),
               QDiv(v[(s - 1) * q.n + i + 1], v[(s - 1) * q.n + 1]))
    [] OTHER -> TRUE
BackOk == Did => EachLeaf(Back)

\* C07: the slopes are the inverses of those of the logarithms
Slopes(q, xs, v) ==
  q.k = "num" =>
    \A i \in 1..Len(v) :
      LET f == IF q.lo = <<>> /\ q.hi = <<>> THEN QOne
               ELSE IF q.hi = <<>> THEN QInv(QSub(v[i], Bd(q, q.lo)))
               ELSE IF q.lo = <<>> THEN QInv(QSub(Bd(q, q.hi), v[i]))
               ELSE QAdd(QInv(QSub(v[i], Bd(q, q.lo))), QInv(QSub(Bd(q, q.hi), v[i])))
      IN  QEq(QMul(f, SSlope(q, xs[i])), QOne)
SlopesOk == Did /\ last.jac => EachLeaf(Slopes)
=============================================================================
