--------------------------------- MODULE Diff ---------------------------------
(* Straight-line programs over the operations that paragami adds to autograd,  *)
(* evaluated with exact derivatives (Dual.tla).                                *)
(*                                                                             *)
(* State: env, the operators made so far.  Products and solvers keep a matrix; *)
(* making another one leaves the earlier ones as they are.                     *)
(*                                                                             *)
(* A tensor is [sh, a]: its shape and its entries, elements of level K, in C   *)
(* order.  The nodes of a program see the results of the earlier ones.         *)
EXTENDS Rat, Json, IOUtils
VARIABLES env, last, out
dvars == <<env, last, out>>

D == INSTANCE Dual WITH CAdd <- RAdd, CMul <- RMul, CNeg <- RNeg, CZero <- Zero

Ok(x) == [st |-> "ok", x |-> x]
Err(e) == [st |-> e]
NoOp == [op |-> "none"]

Size(sh) == FoldLeft(LAMBDA acc, d : acc * d, 1, sh)
Ten(sh, a) == [st |-> "ok", sh |-> sh, a |-> a]
Build(sh, F(_)) == Ten(sh, Tab(Size(sh), F))

DInv(k, a) ==
  LET i == RInv(D!DReal(k, a))
      i2 == RMul(i, i)
      i3 == RMul(i2, i)
      \* only the derivatives that the level needs
      ds == <<i, RNeg(i2)>> \o (IF k >= 2 THEN <<RMul(Two, i3)>> ELSE <<>>)
              \o (IF k >= 3 THEN <<RMul(RInt(-6), RMul(i2, i2))>> ELSE <<>>)
  IN  D!DLift(k, ds, a)
DDot(k, u, v) == D!DSum(k, Tab(Len(u), LAMBDA i : D!DMul(k, u[i], v[i])))

\* ---- matrices of duals as sequences of rows ----
RowsOf(t) == LET c == t.sh[2] IN Tab(t.sh[1], LAMBDA i : Tab(c, LAMBDA j : t.a[(i - 1) * c + j]))
RECURSIVE DDet(_, _)
DDet(k, m) ==
  IF Len(m) = 0 THEN D!DConst(k, One)
  ELSE IF Len(m) = 1 THEN m[1][1]
  ELSE D!DSum(k, Tab(Len(m), LAMBDA j :
         LET t == D!DMul(k, m[1][j], DDet(k, Minor(m, 1, j)))
         IN  IF j % 2 = 1 THEN t ELSE D!DNeg(k, t)))
DMInv(k, m) ==
  LET i == DInv(k, DDet(k, m))
  IN  MTab(Len(m), Len(m), LAMBDA r, c :
        LET t == D!DMul(k, DDet(k, Minor(m, c, r)), i)
        IN  IF (r + c) % 2 = 0 THEN t ELSE D!DNeg(k, t))
DMMul(k, a, b) ==
  MTab(Len(a), Len(b[1]), LAMBDA i, j : DDot(k, a[i], Tab(Len(b), LAMBDA l : b[l][j])))
Flat2(m) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, m)

\* ---- the operations ----
\* m is a constant matrix, t a vector or a matrix
MatApply(k, m, t) ==
  LET w == IF Len(t.sh) = 1 THEN 1 ELSE t.sh[2]
  IN  Build(<<Len(m)>> \o Tail(t.sh), LAMBDA p :
        LET i == ((p - 1) \div w) + 1
            j == ((p - 1) % w) + 1
        IN  D!DSum(k, Tab(Len(m[i]), LAMBDA l : D!DScale(k, m[i][l], t.a[(l - 1) * w + j]))))
Operator(k, e, tr, t) ==
  IF e.kind = "product" /\ Len(t.sh) > 2 THEN Err("ValueError")
  ELSE LET m == IF tr THEN Transp(e.z) ELSE e.z
       IN  MatApply(k, IF e.kind = "solver" THEN MInv(m) ELSE m, t)

\* g: the group of each row, from 0; num: the number of groups or -1
GroupedSum(k, t, gsh, g, num) ==
  LET mx == FoldLeft(LAMBDA acc, x : MaxI(acc, x), -1, g)
      n == IF num = -1 THEN mx + 1 ELSE num
      w == Size(Tail(t.sh))
  IN  IF Len(gsh) > 1 \/ Len(g) # t.sh[1] \/ mx >= n THEN Err("ValueError")
      ELSE LET \* the rows of each group
               rows == TLCEval(FoldLeft(LAMBDA acc, r : [acc EXCEPT ![g[r] + 1] = Append(@, r)],
                                        Tab(n, LAMBDA i : <<>>), Tab(Len(g), LAMBDA r : r)))
           IN  Build(<<n>> \o Tail(t.sh), LAMBDA p :
                 LET i == ((p - 1) \div w) + 1
                     j == ((p - 1) % w) + 1
                 IN  D!DSum(k, Tab(Len(rows[i]), LAMBDA r : t.a[(rows[i][r] - 1) * w + j])))
\* inds from 0; -1 is the last entry
Replace(s, t, inds) ==
  LET at == Tab(Len(inds), LAMBDA i : IF inds[i] < 0 THEN inds[i] + Len(t.a) ELSE inds[i])
  IN  Ten(t.sh, Tab(Len(t.a), LAMBDA p :
        IF \E i \in 1..Len(at) : at[i] = p - 1
        THEN s.a[CHOOSE i \in 1..Len(at) : at[i] = p - 1] ELSE t.a[p]))

\* the j-th matrix of a stack with any number of leading dimensions
Lead(sh) == SubSeq(sh, 1, Len(sh) - 2)
Last2(sh) == SubSeq(sh, Len(sh) - 1, Len(sh))
Stack(t) == Size(Lead(t.sh))
Slice(t, j) ==
  LET sh == Last2(t.sh)
      n == Size(sh)
  IN  Ten(sh, Tab(n, LAMBDA p : t.a[(j - 1) * n + p]))
Joined(ts) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ts)
StackInv(k, t) ==
  Ten(t.sh, Joined(Tab(Stack(t), LAMBDA j : Flat2(DMInv(k, RowsOf(Slice(t, j)))))))
Solve(k, t, b) ==
  LET \* one right-hand side as a matrix
      Rhs(j) == IF Len(b.sh) < Len(t.sh)    \* vectors
                THEN LET n == b.sh[Len(b.sh)]
                     IN  Ten(<<n, 1>>, Tab(n, LAMBDA p : b.a[(j - 1) * n + p]))
                ELSE Slice(b, j)
  IN  Ten(b.sh, Joined(Tab(Stack(t), LAMBDA j :
        Flat2(DMMul(k, DMInv(k, RowsOf(Slice(t, j))), RowsOf(Rhs(j)))))))
\* ln |det|: the value is kept as the determinant itself, apart
LogDet(k, t) ==
  IF Len(t.sh) > 2
  THEN IF k > 0 THEN Err("ValueError")      \* no forward mode for stacks
       ELSE [st |-> "ok", sh |-> Lead(t.sh), a |-> Tab(Stack(t), LAMBDA j : Zero),
             det |-> Tab(Stack(t), LAMBDA j : DDet(0, RowsOf(Slice(t, j))))]
  ELSE
  LET d == DDet(k, RowsOf(t))
      i == RInv(D!DReal(k, d))
      ds == <<Zero, i>> \o (IF k >= 2 THEN <<RNeg(RMul(i, i))>> ELSE <<>>)
              \o (IF k >= 3 THEN <<RMul(Two, RMul(i, RMul(i, i)))>> ELSE <<>>)
  IN  [st |-> "ok", sh |-> <<>>, a |-> <<D!DLift(k, ds, d)>>, det |-> <<D!DReal(k, d)>>]
\* its sign is locally constant
DetSign(k, t) ==
  Ten(<<>>, <<D!DConst(k, IF RLt(D!DReal(k, DDet(k, RowsOf(t))), Zero) THEN RInt(-1) ELSE One)>>)

Elementwise(s, t, F(_, _)) == Ten(s.sh, Tab(Len(s.a), LAMBDA i : F(s.a[i], t.a[i])))
Node(k, x, res, n) ==
  LET A == res[n.a]
      B == res[n.b]
  IN CASE n.f = "in" -> Ten(n.sh, Tab(Size(n.sh), LAMBDA i : x[n.off + i]))
       [] n.f = "const" -> Ten(n.sh, Tab(Len(n.v), LAMBDA i : D!DConst(k, n.v[i])))
       [] n.f = "add" -> Elementwise(A, B, LAMBDA u, v : D!DAdd(k, u, v))
       [] n.f = "mul" -> Elementwise(A, B, LAMBDA u, v : D!DMul(k, u, v))
       [] n.f = "op" -> Operator(k, env[n.k], n.tr, A)
       [] n.f = "gs" -> GroupedSum(k, A, n.gsh, n.g, n.num)
       [] n.f = "rep" -> Replace(A, B, n.inds)
       [] n.f = "inv" -> StackInv(k, A)
       [] n.f = "solve" -> Solve(k, A, B)
       [] n.f = "logdet" -> LogDet(k, A)
       [] n.f = "detsign" -> DetSign(k, A)
RECURSIVE Exec(_, _, _, _)
Exec(k, x, res, prog) ==
  IF prog = <<>> THEN res[Len(res)]
  ELSE LET r == TLCEval(Node(k, x, res, Head(prog)))
       IN  IF r.st # "ok" THEN r ELSE Exec(k, x, Append(res, r), Tail(prog))

Point(o) ==
  LET k == Len(o.dirs)
  IN  Tab(Len(o.x), LAMBDA i : D!DVar(k, o.x[i], Tab(k, LAMBDA j : o.dirs[j][i])))
Run(o) ==
  /\ o.op = "run"
  /\ LET k == Len(o.dirs)
         r == TLCEval(Exec(k, Point(o), <<>>, o.prog))
         coefs == Tab(Len(r.a), LAMBDA i : D!DFlat(k, r.a[i]))
     IN  /\ env' = env
         /\ out' = IF r.st # "ok" THEN r
                   ELSE IF "det" \in DOMAIN r
                   THEN [st |-> "ok", sh |-> r.sh, c |-> coefs, det |-> r.det]
                   ELSE [st |-> "ok", sh |-> r.sh, c |-> coefs]
Make(o) ==
  /\ o.op = "make"
  /\ IF Len(o.sh) = 2
     THEN env' = Append(env, [kind |-> o.kind, z |-> o.z]) /\ out' = Ok("")
     ELSE env' = env /\ out' = Err("ValueError")

Step(o) == last' = o /\ (Run(o) \/ Make(o))

----------------------------------------------------------------------------
(* Properties *)
\* Operators do not change once they are made.
Frozen == [][\A i \in 1..Len(env) : i <= Len(env') /\ env'[i] = env[i]]_dvars

\* A linear operation acts on every coefficient in the same way.
LastNode == last.prog[Len(last.prog)]
Before(n) == Exec(Len(last.dirs), Point(last), <<>>, SubSeq(last.prog, 1, n))
Coef(t, s) == Tab(Len(t.a), LAMBDA i : D!DFlat(Len(last.dirs), t.a[i])[s])
Linear ==
  (last.op = "run" /\ out.st = "ok" /\ LastNode.f = "op") =>
    LET t == Before(LastNode.a)
        e == env[LastNode.k]
        m == IF LastNode.tr THEN Transp(e.z) ELSE e.z
    IN  \A s \in 1..Len(out.c[1]) :
          LET u == Coef(t, s)
              v == Tab(Len(out.c), LAMBDA i : out.c[i][s])
              w == IF Len(t.sh) = 1 THEN 1 ELSE t.sh[2]
              Col(q, j) == Tab(Len(q) \div w, LAMBDA i : q[(i - 1) * w + j])
          IN  \A j \in 1..w :
                IF e.kind = "solver" THEN MVec(m, Col(v, j)) = Col(u, j)
                ELSE MVec(m, Col(u, j)) = Col(v, j)
\* Grouping loses nothing: the groups add up to the whole.
Total ==
  (last.op = "run" /\ out.st = "ok" /\ LastNode.f = "gs") =>
    LET t == TLCEval(Before(LastNode.a))
    IN  \A s \in 1..(2 ^ Len(last.dirs)) :
          RSum(Coef(t, s)) = RSum(Tab(Len(out.c), LAMBDA i : out.c[i][s]))
\* Inverses and solutions multiply back, with all their derivatives.
MultiplyBack ==
  (last.op = "run" /\ out.st = "ok" /\ LastNode.f \in {"inv", "solve"}) =>
    LET k == Len(last.dirs)
        t == Before(LastNode.a)
        y == Before(Len(last.prog))
    IN  \A j \in 1..Stack(t) :
          LET m == RowsOf(Slice(t, j))
          IN  IF LastNode.f = "inv"
              THEN DMMul(k, RowsOf(Slice(y, j)), m)
                     = MTab(Len(m), Len(m), LAMBDA p, q : D!DConst(k, IF p = q THEN One ELSE Zero))
              ELSE LET b == Before(LastNode.b)
                       n == Len(b.a) \div Stack(t)
                       w == n \div Len(m)
                       Col(u, c) == Tab(Len(m), LAMBDA i : u.a[(j - 1) * n + (i - 1) * w + c])
                   IN  \A c \in 1..w : \A i \in 1..Len(m) :
                         DDot(k, m[i], Col(y, c)) = Col(b, c)[i]
\* d ln|det A| = tr(A^-1 dA)
LogDetRight ==
  (last.op = "run" /\ out.st = "ok" /\ LastNode.f = "logdet" /\ Len(last.dirs) >= 1) =>
    LET k == Len(last.dirs)
        t == Before(LastNode.a)
        m == RowsOf(t)
        y == Before(Len(last.prog)).a[1]
        \* split off the last generator
        m0 == MTab(Len(m), Len(m), LAMBDA i, j : m[i][j][1])
        m1 == MTab(Len(m), Len(m), LAMBDA i, j : m[i][j][2])
        pr == DMMul(k - 1, DMInv(k - 1, m0), m1)
    IN  y[2] = D!DSum(k - 1, Tab(Len(m), LAMBDA i : pr[i][i]))
===============================================================================
