-------------------------------- MODULE Rat --------------------------------
(* Exact arithmetic.                                                       *)
(*                                                                         *)
(* Rationals are pairs <<n, d>> in lowest terms with d > 0.  TLC integers  *)
(* are 32 bit and TLC stops with an error on overflow, so a result is      *)
(* either exact or absent, never silently wrong.                           *)
(*                                                                         *)
(* Jets are quadruples <<v, a, b, c>> of rationals standing for            *)
(*      v + a e1 + b e2 + c e1 e2         with e1^2 = e2^2 = 0,            *)
(* so that evaluating a map on jets gives its value, two directional       *)
(* derivatives, and the mixed second derivative.                           *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* A sequence with its elements already computed (TLC's function
\* constructors are lazy).
Tab(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])

Norm(n, d) ==
  LET g == Gcd(Abs(n), Abs(d))
      s == IF d < 0 THEN -1 ELSE 1
  IN  <<s * (n \div g), s * (d \div g)>>

Zero == <<0, 1>>
One  == <<1, 1>>
Two  == <<2, 1>>
RInt(k) == <<k, 1>>

RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a ELSE
  LET g == Gcd(a[2], b[2])
  IN  Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN Zero ELSE
  LET g == Gcd(Abs(a[1]), b[2])
      h == Gcd(Abs(b[1]), a[2])
  IN  <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInv(a) == IF a[1] > 0 THEN <<a[2], a[1]>>
           ELSE IF a[1] < 0 THEN <<-a[2], -a[1]>>
           ELSE Assert(FALSE, "division by zero")
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == RSub(a, b)[1] < 0
RLe(a, b) == RSub(a, b)[1] <= 0
RSum(s) == FoldLeft(LAMBDA acc, x : RAdd(acc, x), Zero, s)

\* Integer square root of a perfect square by bisection; -1 if not a square.
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) ==
  IF lo > hi THEN -1
  ELSE LET m == (lo + hi) \div 2
       IN  IF m * m = n THEN m
           ELSE IF m * m < n THEN ISqrtIn(n, m + 1, hi)
           ELSE ISqrtIn(n, lo, m - 1)
ISqrt(n) == ISqrtIn(n, 0, MinI(n, 46340))
RIsSquare(a) == a[1] >= 0 /\ ISqrt(a[1]) >= 0 /\ ISqrt(a[2]) >= 0
RSqrt(a) == IF RIsSquare(a) THEN <<ISqrt(a[1]), ISqrt(a[2])>>
            ELSE Assert(FALSE, "not a square")

----------------------------------------------------------------------------
(* Vectors and matrices (sequences of rows). *)

VAdd(u, v) == Tab(Len(u), LAMBDA i : RAdd(u[i], v[i]))
VSub(u, v) == Tab(Len(u), LAMBDA i : RSub(u[i], v[i]))
VScale(c, u) == Tab(Len(u), LAMBDA i : RMul(c, u[i]))
VHad(u, v) == Tab(Len(u), LAMBDA i : RMul(u[i], v[i]))
Dot(u, v) == RSum(VHad(u, v))
ZeroVec(n) == Tab(n, LAMBDA i : Zero)
UnitVec(n, k) == Tab(n, LAMBDA i : IF i = k THEN One ELSE Zero)

Rows(m) == Len(m)
Cols(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
MTab(r, c, F(_, _)) == Tab(r, LAMBDA i : Tab(c, LAMBDA j : F(i, j)))
Transp(m) == MTab(Cols(m), Rows(m), LAMBDA i, j : m[j][i])
MVec(m, v) == Tab(Rows(m), LAMBDA i : Dot(m[i], v))
MMul(a, b) == LET bt == Transp(b)
              IN  MTab(Rows(a), Cols(b), LAMBDA i, j : Dot(a[i], bt[j]))
MAdd(a, b) == Tab(Rows(a), LAMBDA i : VAdd(a[i], b[i]))
MSub(a, b) == Tab(Rows(a), LAMBDA i : VSub(a[i], b[i]))
MScale(c, m) == Tab(Rows(m), LAMBDA i : VScale(c, m[i]))
Ident(n) == MTab(n, n, LAMBDA i, j : IF i = j THEN One ELSE Zero)
ZeroMat(r, c) == MTab(r, c, LAMBDA i, j : Zero)
DiagM(v) == MTab(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE Zero)
OuterP(u, v) == MTab(Len(u), Len(v), LAMBDA i, j : RMul(u[i], v[j]))
Trace(m) == RSum(Tab(Rows(m), LAMBDA i : m[i][i]))

Minor(m, r, c) ==
  MTab(Rows(m) - 1, Rows(m) - 1,
       LAMBDA i, j : m[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1])
RECURSIVE Det(_)
Det(m) ==
  IF Rows(m) = 0 THEN One
  ELSE IF Rows(m) = 1 THEN m[1][1]
  ELSE RSum(Tab(Rows(m), LAMBDA j :
         LET t == IF m[1][j][1] = 0 THEN Zero
                  ELSE RMul(m[1][j], Det(Minor(m, 1, j)))
         IN  IF j % 2 = 1 THEN t ELSE RNeg(t)))
\* The inverse, by Cramer's rule or (from 5 x 5) by elimination.
Cramer(m) ==
  LET d == Det(m)
      n == Rows(m)
  IN  MTab(n, n, LAMBDA i, j :
        LET t == RDiv(Det(Minor(m, j, i)), d)
        IN  IF (i + j) % 2 = 0 THEN t ELSE RNeg(t))
Eliminated(m) ==
  LET n == Rows(m)
      Sweep(g, c) ==
        LET p == CHOOSE r \in c..n : g[r][c][1] # 0 /\ \A q \in c..(r - 1) : g[q][c][1] = 0
            row == TLCEval(VScale(RInv(g[p][c]), g[p]))
            h == TLCEval([g EXCEPT ![p] = g[c], ![c] = row])
        IN  TLCEval(Tab(n, LAMBDA r : IF r = c \/ h[r][c][1] = 0 THEN h[r]
                                      ELSE VSub(h[r], VScale(h[r][c], row))))
      whole == FoldLeft(Sweep, TLCEval(Tab(n, LAMBDA i : m[i] \o UnitVec(n, i))), Tab(n, LAMBDA i : i))
  IN  Tab(n, LAMBDA i : SubSeq(whole[i], n + 1, 2 * n))
MInv(m) == IF Rows(m) <= 4 THEN Cramer(m) ELSE Eliminated(m)

\* Block diagonal of a sequence of [r, c, m] records (empty blocks matter).
BlockDiag(blocks) ==
  LET R == FoldLeft(LAMBDA acc, b : acc + b.r, 0, blocks)
      C == FoldLeft(LAMBDA acc, b : acc + b.c, 0, blocks)
      Step(acc, b) ==
        [ro |-> acc.ro + b.r, co |-> acc.co + b.c,
         rows |-> acc.rows \o Tab(b.r, LAMBDA i :
            Tab(C, LAMBDA j : IF j > acc.co /\ j <= acc.co + b.c
                               THEN b.m[i][j - acc.co] ELSE Zero))]
  IN  [r |-> R, c |-> C,
       m |-> FoldLeft(Step, [ro |-> 0, co |-> 0, rows |-> <<>>], blocks).rows]

----------------------------------------------------------------------------
(* Jets *)

JConst(v) == <<v, Zero, Zero, Zero>>
JZero == JConst(Zero)
JOne == JConst(One)
JAdd(x, y) == <<RAdd(x[1], y[1]), RAdd(x[2], y[2]),
                RAdd(x[3], y[3]), RAdd(x[4], y[4])>>
JNeg(x) == <<RNeg(x[1]), RNeg(x[2]), RNeg(x[3]), RNeg(x[4])>>
JSub(x, y) == JAdd(x, JNeg(y))
JMul(x, y) ==
  <<RMul(x[1], y[1]),
    RAdd(RMul(x[1], y[2]), RMul(x[2], y[1])),
    RAdd(RMul(x[1], y[3]), RMul(x[3], y[1])),
    RAdd(RAdd(RMul(x[1], y[4]), RMul(x[4], y[1])),
         RAdd(RMul(x[2], y[3]), RMul(x[3], y[2])))>>
JScale(c, x) == <<RMul(c, x[1]), RMul(c, x[2]), RMul(c, x[3]), RMul(c, x[4])>>
\* f(x) where f0, f1, f2 are the value and first two derivatives at x[1]
\* (f1 and f2 are not evaluated where they are multiplied by zero)
JFn(x, f0, f1, f2) ==
  <<f0, RMul(x[2], f1), RMul(x[3], f1),
    RAdd(RMul(RMul(x[2], x[3]), f2), RMul(x[4], f1))>>
JInv(x) == LET i == RInv(x[1])
               i2 == RMul(i, i)
           IN  JFn(x, i, RNeg(i2), RMul(Two, RMul(i2, i)))
JDiv(x, y) == JMul(x, JInv(y))
JSqrt(x) == LET s == RSqrt(x[1])
            IN  JFn(x, s, RInv(RMul(Two, s)),
                    RNeg(RInv(RMul(RInt(4), RMul(s, x[1])))))
JSum(s) == FoldLeft(LAMBDA acc, x : JAdd(acc, x), JZero, s)
JDot(u, v) == JSum(Tab(Len(u), LAMBDA i : JMul(u[i], v[i])))
JMMul(a, b) ==
  MTab(Len(a), Len(b[1]), LAMBDA i, j :
       JSum(Tab(Len(b), LAMBDA k : JMul(a[i][k], b[k][j]))))
=============================================================================
