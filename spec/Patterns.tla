------------------------------ MODULE Patterns ------------------------------
(* The algebra of paragami patterns, over exact numbers.                    *)
(*                                                                          *)
(* Patterns are records:                                                    *)
(*   [k |-> "num", cls, sh, lo, hi, dv, fd]   bounds <<>> or a rational     *)
(*   [k |-> "psd", n, lb, dv, fd]                                           *)
(*   [k |-> "sim", n, sh, dv, fd]                                           *)
(*   [k |-> "dict", keys, subs, fd]                                         *)
(*   [k |-> "parr", sh, base, fd]                                           *)
(* dv is default_validate (BOOLEAN); fd is free_default: "N", "T" or "F".   *)
(*                                                                          *)
(* Folded values are [sh, a] for arrays (a lists the entries row-major) and *)
(* [ks, vs] for dictionaries.  An entry is a rational <<n, d>>, or          *)
(* <<n, d, e>> standing for n/d + e * eps with eps a positive infinitesimal,*)
(* or <<s, 0>> standing for a magnitude beyond every number (s = 1 or -1),  *)
(* or <<0, 0>>, which is not a number.                                      *)
(*                                                                          *)
(* Free numbers are <<"re", n, d>> (the rational n/d) and <<"ln", n, d, m>> *)
(* (ln(n/d) + m * BIG, with BIG beyond every number), so that the free      *)
(* parametrisation of a rational value is exact.                            *)
EXTENDS Rat

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o FlatSeq(Tail(ss))

SumI(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
AndAll(s) == \A i \in 1..Len(s) : s[i]

----------------------------------------------------------------------------
(* Sizes *)

Tri(n) == (n * (n + 1)) \div 2

RECURSIVE Len2(_, _)
\* The announced flat length (free or not).
Len2(p, free) ==
  CASE p.k = "num" -> Prod(p.sh)
    [] p.k = "psd" -> IF free THEN Tri(p.n) ELSE p.n * p.n
    [] p.k = "sim" -> Prod(p.sh) * (IF free THEN p.n - 1 ELSE p.n)
    [] p.k = "dict" -> SumI(Tab(Len(p.subs), LAMBDA i : Len2(p.subs[i], free)))
    [] p.k = "parr" -> Prod(p.sh) * Len2(p.base, free)

RECURSIVE Shape(_)
\* The shape of the folded arrays of a pattern that is not a dictionary.
Shape(p) ==
  CASE p.k = "num" -> p.sh
    [] p.k = "psd" -> <<p.n, p.n>>
    [] p.k = "sim" -> p.sh \o <<p.n>>
    [] p.k = "parr" -> p.sh \o Shape(p.base)

RECURSIVE Leaves(_)
\* The leaf patterns in flat order (array elements repeated).
Leaves(p) ==
  CASE p.k = "dict" -> FlatSeq(Tab(Len(p.subs), LAMBDA i : Leaves(p.subs[i])))
    [] p.k = "parr" -> FlatSeq(Tab(Prod(p.sh), LAMBDA i : Leaves(p.base)))
    [] OTHER -> <<p>>

\* [lo, hi] offsets of consecutive blocks with the given lengths
RECURSIVE Offsets(_, _)
Offsets(lens, o) ==
  IF lens = <<>> THEN <<>> ELSE <<o>> \o Offsets(Tail(lens), o + lens[1])
Chunk(s, o, n) == SubSeq(s, o + 1, o + n)
Chunks(s, lens) ==
  LET os == Offsets(lens, 0)
  IN  Tab(Len(lens), LAMBDA i : Chunk(s, os[i], lens[i]))
EqualChunks(s, cnt, n) == Tab(cnt, LAMBDA i : Chunk(s, (i - 1) * n, n))

KeyIx(ks, key) == CHOOSE i \in 1..Len(ks) : ks[i] = key
HasKey(ks, key) == \E i \in 1..Len(ks) : ks[i] = key
Field(v, key) == v.vs[KeyIx(v.ks, key)]

----------------------------------------------------------------------------
(* Validity of folded values *)

Eps(x) == IF Len(x) = 3 THEN x[3] ELSE 0
Std(x) == <<x[1], x[2]>>
\* x < bound, x > bound for an entry x and a rational bound
Below(x, b) == IF x[2] = 0 THEN x[1] < 0
               ELSE LET d == RSub(Std(x), b)
                    IN  d[1] < 0 \/ (d[1] = 0 /\ Eps(x) < 0)
Above(x, b) == IF x[2] = 0 THEN x[1] > 0
               ELSE LET d == RSub(Std(x), b)
                    IN  d[1] > 0 \/ (d[1] = 0 /\ Eps(x) > 0)

Checking(p, vv) == IF vv = "N" THEN p.dv ELSE vv = "T"

NaN(x) == x[1] = 0 /\ x[2] = 0
SomeNaN(a) == \E i \in 1..Len(a) : NaN(a[i])
\* Whether the value of an array, a matrix or an array of simplexes is acceptable
\* that holds entries that are not numbers is left open ("nan"); the faults of
\* the other members of a container must still be found.
Worst(w) == LET bad == SelectSeq(w, LAMBDA x : x # "")
                sure == SelectSeq(bad, LAMBDA x : x # "nan")
            IN  IF bad = <<>> THEN "" ELSE IF sure = <<>> THEN "nan" ELSE sure[1]

\* numpy.atleast_1d
AtLeast1(sh) == IF sh = <<>> THEN <<1>> ELSE sh

RECURSIVE Why(_, _, _)
\* "" if the folded value v is accepted by p, else what is wrong with it.
\* vv is the validate_value argument: "N" (not given), "T" or "F".
Why(p, v, vv) ==
  CASE p.k = "num" ->
         IF AtLeast1(v.sh) # p.sh THEN "shape"
         ELSE IF ~Checking(p, vv) THEN ""
         ELSE IF SomeNaN(v.a) THEN "nan"
         ELSE IF p.lo # <<>> /\ \E i \in 1..Len(v.a) : Below(v.a[i], p.lo)
              THEN "lower"
         ELSE IF p.hi # <<>> /\ \E i \in 1..Len(v.a) : Above(v.a[i], p.hi)
              THEN "upper"
         ELSE ""
    [] p.k = "psd" ->
         IF v.sh # <<p.n, p.n>> THEN "shape"
         ELSE IF ~Checking(p, vv) THEN ""
         ELSE IF SomeNaN(v.a) THEN "nan"
         ELSE IF \E i \in 0..(p.n - 1) : Below(v.a[i * p.n + i + 1], p.lb)
              THEN "diagonal"
         ELSE IF \E i, j \in 0..(p.n - 1) :
                   LET x == v.a[i * p.n + j + 1]
                       y == v.a[j * p.n + i + 1]
                   IN  Std(x) # Std(y) \/ Eps(x) # Eps(y)
              THEN "symmetry"
         ELSE ""
    [] p.k = "sim" ->
         IF v.sh # Shape(p) THEN "shape"
         ELSE IF ~Checking(p, vv) THEN ""
         ELSE IF SomeNaN(v.a) THEN "nan"
         ELSE IF \E i \in 1..Len(v.a) : Below(v.a[i], Zero) THEN "negative"
         ELSE IF \E s \in 1..Prod(p.sh) :
                   LET c == Chunk(v.a, (s - 1) * p.n, p.n)
                   IN  IF \E i \in 1..p.n : c[i][2] = 0 THEN TRUE
                       ELSE \/ RSum(Tab(p.n, LAMBDA i : Std(c[i]))) # One
                            \/ SumI(Tab(p.n, LAMBDA i : Eps(c[i]))) # 0
              THEN "sum"
         ELSE ""
    [] p.k = "dict" ->
         IF \E i \in 1..Len(p.keys) : ~HasKey(v.ks, p.keys[i]) THEN "key"
         ELSE LET w == Tab(Len(p.keys), LAMBDA i :
                         Why(p.subs[i], Field(v, p.keys[i]), vv))
              IN  Worst(w)
    [] p.k = "parr" ->
         IF v.sh # Shape(p) THEN "shape"
         ELSE LET cs == EqualChunks(v.a, Prod(p.sh), Prod(Shape(p.base)))
                  w == Tab(Len(cs), LAMBDA i :
                         Why(p.base, [sh |-> Shape(p.base), a |-> cs[i]], vv))
              IN  Worst(w)
Valid(p, v, vv) == Why(p, v, vv) = ""

----------------------------------------------------------------------------
(* The transforms of the leaves, over jets; plain values are jets with      *)
(* zero derivatives.                                                        *)

\* Kinds of the free coordinates of a leaf.
FreeKinds(p) ==
  CASE p.k = "num" ->
         Tab(Prod(p.sh), LAMBDA i :
           IF p.lo = <<>> /\ p.hi = <<>> THEN "re" ELSE "ln")
    [] p.k = "sim" -> Tab(Prod(p.sh) * (p.n - 1), LAMBDA i : "ln")
    [] p.k = "psd" -> FlatSeq(Tab(p.n, LAMBDA i :
                        Tab(i, LAMBDA j : IF i = j THEN "ln" ELSE "re")))

RECURSIVE TreeKinds(_)
TreeKinds(p) == LET l == Leaves(p)
                IN  FlatSeq(Tab(Len(l), LAMBDA i : FreeKinds(l[i])))

TriIx(i, j) == ((i - 1) * i) \div 2 + j      \* j <= i, from 1

\* ---- the folding transform with limits (plain numbers) ----
FoldNum1(lo, hi, x) ==
  IF lo = <<>> /\ hi = <<>> THEN <<x[2], x[3]>>
  ELSE LET q == <<x[2], x[3]>>
           m == x[4]
       IN  IF hi = <<>> THEN
             IF m > 0 THEN <<1, 0>> ELSE IF m < 0 THEN lo ELSE RAdd(lo, q)
           ELSE IF lo = <<>> THEN
             IF m > 0 THEN hi ELSE IF m < 0 THEN <<-1, 0>>
             ELSE RSub(hi, RInv(q))
           ELSE
             IF m > 0 THEN hi ELSE IF m < 0 THEN lo
             ELSE RAdd(lo, RDiv(RMul(RSub(hi, lo), q), RAdd(One, q)))

FoldSim1(xs) ==
  LET top == FoldLeft(LAMBDA acc, x : MaxI(acc, x[4]), 0, xs)
      w == <<IF top = 0 THEN One ELSE Zero>> \o
           Tab(Len(xs), LAMBDA i : IF xs[i][4] = top THEN <<xs[i][2], xs[i][3]>>
                                   ELSE Zero)
      s == RSum(w)
  IN  Tab(Len(w), LAMBDA i : RDiv(w[i], s))

FoldPsd(n, lb, xs) ==
  LET L(i, j) == IF j > i THEN Zero
                 ELSE LET x == xs[TriIx(i, j)]
                      IN  IF i = j /\ x[4] < 0 THEN Zero ELSE <<x[2], x[3]>>
      LL == MTab(n, n, L)
  IN  FlatSeq(MTab(n, n, LAMBDA i, j :
        RAdd(Dot(LL[i], LL[j]), IF i = j THEN lb ELSE Zero)))

FoldLeaf(p, xs) ==
  CASE p.k = "num" -> Tab(Len(xs), LAMBDA i : FoldNum1(p.lo, p.hi, xs[i]))
    [] p.k = "sim" -> LET cs == EqualChunks(xs, Prod(p.sh), p.n - 1)
                      IN  FlatSeq(Tab(Len(cs), LAMBDA i : FoldSim1(cs[i])))
    [] p.k = "psd" -> FoldPsd(p.n, p.lb, xs)

\* ---- the folding transform over jets ----
\* x is a free number, a and b its components in two directions.
FreeJet(x, a, b) ==
  IF x[1] = "re" THEN <<<<x[2], x[3]>>, a, b, Zero>>
  ELSE LET q == <<x[2], x[3]>>
       IN  <<q, RMul(q, a), RMul(q, b), RMul(q, RMul(a, b))>>

FoldNumJ(lo, hi, e) ==
  IF lo = <<>> /\ hi = <<>> THEN e
  ELSE IF hi = <<>> THEN JAdd(JConst(lo), e)
  ELSE IF lo = <<>> THEN JSub(JConst(hi), JInv(e))
  ELSE JAdd(JConst(lo), JScale(RSub(hi, lo), JDiv(e, JAdd(JOne, e))))

FoldSimJ(es) ==
  LET w == <<JOne>> \o es
      i == JInv(JSum(w))
  IN  Tab(Len(w), LAMBDA k : JMul(w[k], i))

FoldPsdJ(n, lb, es) ==
  LET LL == MTab(n, n, LAMBDA i, j : IF j > i THEN JZero ELSE es[TriIx(i, j)])
  IN  FlatSeq(MTab(n, n, LAMBDA i, j :
        JAdd(JDot(LL[i], LL[j]), JConst(IF i = j THEN lb ELSE Zero))))

FoldLeafJ(p, es) ==
  CASE p.k = "num" -> Tab(Len(es), LAMBDA i : FoldNumJ(p.lo, p.hi, es[i]))
    [] p.k = "sim" -> LET cs == EqualChunks(es, Prod(p.sh), p.n - 1)
                      IN  FlatSeq(Tab(Len(cs), LAMBDA i : FoldSimJ(cs[i])))
    [] p.k = "psd" -> FoldPsdJ(p.n, p.lb, es)

\* The whole tree: free flat jets to non-free flat jets.
FoldTreeJ(p, xs, da, db) ==
  LET l == Leaves(p)
      es == Tab(Len(xs), LAMBDA i : FreeJet(xs[i], da[i], db[i]))
      cs == Chunks(es, Tab(Len(l), LAMBDA i : Len2(l[i], TRUE)))
  IN  FlatSeq(Tab(Len(l), LAMBDA i : FoldLeafJ(l[i], cs[i])))

\* ---- the flattening transform over jets ----
\* A result is <<tag, v, a, b, c>>: the number is v ("re") or ln v ("ln"),
\* and a, b, c are the derivative components of the number itself.
ReJ(x) == <<"re", x[1], x[2], x[3], x[4]>>
LnJ(x) == LET i == RInv(x[1])
              y == JFn(x, Zero, i, RNeg(RMul(i, i)))
          IN  <<"ln", x[1], y[2], y[3], y[4]>>

FlatNumJ(lo, hi, x) ==
  IF lo = <<>> /\ hi = <<>> THEN ReJ(x)
  ELSE IF hi = <<>> THEN LnJ(JSub(x, JConst(lo)))
  ELSE IF lo = <<>> THEN LnJ(JInv(JSub(JConst(hi), x)))
  ELSE LnJ(JDiv(JSub(x, JConst(lo)), JSub(JConst(hi), x)))

FlatSimJ(xs) ==
  LET i == JInv(xs[1])
  IN  Tab(Len(xs) - 1, LAMBDA k : LnJ(JMul(xs[k + 1], i)))

\* Lower Cholesky factor of (matrix - lb I), rows stacked; exact, so the
\* matrix must have a rational factor.
CholJ(n, lb, xs) ==
  LET M(i, j) == IF i = j THEN JSub(xs[(i - 1) * n + i], JConst(lb))
                 ELSE xs[(i - 1) * n + j]
      pos == FlatSeq(Tab(n, LAMBDA i : Tab(i, LAMBDA j : <<i, j>>)))
      Step(acc, ij) ==
        LET i == ij[1]
            j == ij[2]
            s == JSub(M(i, j), JSum(Tab(j - 1, LAMBDA k :
                   JMul(acc[TriIx(i, k)], acc[TriIx(j, k)]))))
        IN  Append(acc, IF i = j THEN JSqrt(s) ELSE JDiv(s, acc[TriIx(j, j)]))
  IN  FoldLeft(Step, <<>>, pos)

FlatPsdJ(n, lb, xs) ==
  LET L == CholJ(n, lb, xs)
  IN  FlatSeq(Tab(n, LAMBDA i : Tab(i, LAMBDA j :
        IF i = j THEN LnJ(L[TriIx(i, j)]) ELSE ReJ(L[TriIx(i, j)]))))

FlatLeafJ(p, xs) ==
  CASE p.k = "num" -> Tab(Len(xs), LAMBDA i : FlatNumJ(p.lo, p.hi, xs[i]))
    [] p.k = "sim" -> LET cs == EqualChunks(xs, Prod(p.sh), p.n)
                      IN  FlatSeq(Tab(Len(cs), LAMBDA i : FlatSimJ(cs[i])))
    [] p.k = "psd" -> FlatPsdJ(p.n, p.lb, xs)

\* The whole tree: non-free flat jets to free flat jets.
FlatTreeJ(p, vs, da, db) ==
  LET l == Leaves(p)
      js == Tab(Len(vs), LAMBDA i : <<vs[i], da[i], db[i], Zero>>)
      cs == Chunks(js, Tab(Len(l), LAMBDA i : Len2(l[i], FALSE)))
  IN  FlatSeq(Tab(Len(l), LAMBDA i : FlatLeafJ(l[i], cs[i])))

FlatLeaf(p, a) ==
  LET r == FlatLeafJ(p, Tab(Len(a), LAMBDA i : JConst(a[i])))
  IN  Tab(Len(r), LAMBDA i : IF r[i][1] = "re" THEN <<"re", r[i][2][1], r[i][2][2]>>
                             ELSE <<"ln", r[i][2][1], r[i][2][2], 0>>)

----------------------------------------------------------------------------
(* Folding and flattening of whole patterns, defined by structure. *)

RECURSIVE FoldFree(_, _)
FoldFree(p, xs) ==
  CASE p.k = "dict" ->
         LET cs == Chunks(xs, Tab(Len(p.subs), LAMBDA i : Len2(p.subs[i], TRUE)))
         IN  [ks |-> p.keys,
              vs |-> Tab(Len(p.subs), LAMBDA i : FoldFree(p.subs[i], cs[i]))]
    [] p.k = "parr" ->
         LET cs == EqualChunks(xs, Prod(p.sh), Len2(p.base, TRUE))
         IN  [sh |-> Shape(p),
              a |-> FlatSeq(Tab(Len(cs), LAMBDA i : FoldFree(p.base, cs[i]).a))]
    [] OTHER -> [sh |-> Shape(p), a |-> FoldLeaf(p, xs)]

RECURSIVE FoldRaw(_, _)
\* The non-free fold: only the shape changes.
FoldRaw(p, xs) ==
  CASE p.k = "dict" ->
         LET cs == Chunks(xs, Tab(Len(p.subs), LAMBDA i : Len2(p.subs[i], FALSE)))
         IN  [ks |-> p.keys,
              vs |-> Tab(Len(p.subs), LAMBDA i : FoldRaw(p.subs[i], cs[i]))]
    [] OTHER -> [sh |-> Shape(p), a |-> xs]

RECURSIVE FlatFree(_, _)
FlatFree(p, v) ==
  CASE p.k = "dict" -> FlatSeq(Tab(Len(p.subs), LAMBDA i :
                         FlatFree(p.subs[i], Field(v, p.keys[i]))))
    [] p.k = "parr" ->
         LET cs == EqualChunks(v.a, Prod(p.sh), Prod(Shape(p.base)))
         IN  FlatSeq(Tab(Len(cs), LAMBDA i :
               FlatFree(p.base, [sh |-> Shape(p.base), a |-> cs[i]])))
    [] OTHER -> FlatLeaf(p, v.a)

RECURSIVE FlatRaw(_, _)
FlatRaw(p, v) ==
  CASE p.k = "dict" -> FlatSeq(Tab(Len(p.subs), LAMBDA i :
                         FlatRaw(p.subs[i], Field(v, p.keys[i]))))
    [] OTHER -> v.a

Err(e) == [st |-> e]
Ok(x) == [st |-> "ok", x |-> x]
\* x, or a ValueError, whichever validate_folded says
Open(x) == [st |-> "open", x |-> x]

\* free: "N" (not given), "T", "F".  "U" when it cannot be resolved.
Resolve(p, free) == IF free # "N" THEN free ELSE IF p.fd # "N" THEN p.fd ELSE "U"

\* x is [sh, a]: a flat vector as passed in (any shape).
Fold(p, x, free, vv) ==
  LET f == Resolve(p, free)
  IN  IF f = "U" THEN Err("ValueError")
      ELSE IF Len(AtLeast1(x.sh)) # 1 THEN Err("ValueError")
      ELSE IF Len(x.a) # Len2(p, f = "T") THEN Err("ValueError")
      ELSE IF f = "T" THEN Ok(FoldFree(p, x.a))
      ELSE LET v == FoldRaw(p, x.a)
               w == Why(p, v, vv)
           IN  IF w = "" THEN Ok(v) ELSE IF w = "nan" THEN Open(v)
               ELSE Err("ValueError")

Flatten(p, v, free, vv) ==
  LET f == Resolve(p, free)
  IN  IF f = "U" THEN Err("ValueError")
      ELSE LET w == Why(p, v, vv)
           IN  IF w = "nan" THEN Open(IF f = "T" THEN <<>> ELSE FlatRaw(p, v))
               ELSE IF w # "" THEN Err("ValueError")
               ELSE IF f = "T" THEN Ok(FlatFree(p, v)) ELSE Ok(FlatRaw(p, v))

FlatLength(p, free) ==
  LET f == Resolve(p, free)
  IN  IF f = "U" THEN Err("ValueError") ELSE Ok(Len2(p, f = "T"))

----------------------------------------------------------------------------
(* Default and boolean values *)

InBounds(lo, hi) ==
  IF lo # <<>> /\ hi # <<>> THEN RMul(<<1, 2>>, RAdd(lo, hi))
  ELSE IF lo # <<>> THEN RAdd(lo, One)
  ELSE IF hi # <<>> THEN RSub(hi, One)
  ELSE Zero

RECURSIVE EmptyValid(_)
EmptyValid(p) ==
  CASE p.k = "num" -> [sh |-> p.sh, a |-> Tab(Prod(p.sh), LAMBDA i : InBounds(p.lo, p.hi))]
    [] p.k = "psd" -> [sh |-> Shape(p),
                       a |-> FlatSeq(DiagM(Tab(p.n, LAMBDA i : RAdd(p.lb, One))))]
    [] p.k = "sim" -> [sh |-> Shape(p), a |-> Tab(Prod(Shape(p)), LAMBDA i : <<1, p.n>>)]
    [] p.k = "dict" -> [ks |-> p.keys,
                        vs |-> Tab(Len(p.subs), LAMBDA i : EmptyValid(p.subs[i]))]
    [] p.k = "parr" -> [sh |-> Shape(p),
                        a |-> FlatSeq(Tab(Prod(p.sh), LAMBDA i : EmptyValid(p.base).a))]

RECURSIVE Skeleton(_)
\* The shapes of the folded value.
Skeleton(p) ==
  CASE p.k = "dict" -> [ks |-> p.keys,
                        vs |-> Tab(Len(p.subs), LAMBDA i : Skeleton(p.subs[i]))]
    [] OTHER -> [sh |-> Shape(p)]

----------------------------------------------------------------------------
(* Positions (from 0) selected by a boolean mask in folded shape *)

RECURSIVE MaskOk(_, _)
MaskOk(p, m) ==
  CASE p.k = "dict" -> /\ \A i \in 1..Len(p.keys) : HasKey(m.ks, p.keys[i])
                       /\ \A i \in 1..Len(p.keys) :
                            MaskOk(p.subs[i], Field(m, p.keys[i]))
    [] p.k = "num" -> AtLeast1(m.sh) = p.sh
    [] OTHER -> m.sh = Shape(p)

Shift(s, o) == Tab(Len(s), LAMBDA i : s[i] + o)
Where(bs) == SelectSeq(Tab(Len(bs), LAMBDA i : IF bs[i] THEN i - 1 ELSE -1),
                       LAMBDA x : x >= 0)
AnyTrue(bs) == \E i \in 1..Len(bs) : bs[i]

NonfreeIx(p, m) == Where(FlatRaw(p, m))

\* Free positions on which a selected entry of a leaf depends, as booleans.
DepLeaf(p, bs) ==
  CASE p.k = "num" -> bs
    [] p.k = "sim" ->
         LET cs == EqualChunks(bs, Prod(p.sh), p.n)
         IN  FlatSeq(Tab(Len(cs), LAMBDA i : Tab(p.n - 1, LAMBDA j : AnyTrue(cs[i]))))
    [] p.k = "psd" ->
         FlatSeq(Tab(p.n, LAMBDA r : Tab(r, LAMBDA c :
           \* L[r,c] enters entry (i,j) iff r \in {i,j} and c <= min(i,j)
           \E i, j \in 1..p.n : bs[(i - 1) * p.n + j] /\ r \in {i, j}
                                /\ c <= MinI(i, j))))
\* Free positions of the leaves, elements and simplexes with a selection.
BlockLeaf(p, bs) ==
  CASE p.k = "psd" -> Tab(Tri(p.n), LAMBDA i : AnyTrue(bs))
    [] OTHER -> DepLeaf(p, bs)

FreeIx(p, m, F(_, _)) ==
  LET l == Leaves(p)
      cs == Chunks(FlatRaw(p, m), Tab(Len(l), LAMBDA i : Len2(l[i], FALSE)))
  IN  Where(FlatSeq(Tab(Len(l), LAMBDA i : F(l[i], cs[i]))))

FlatIndices(p, m, free) ==
  LET f == Resolve(p, free)
  IN  IF ~MaskOk(p, m) THEN Err("ValueError")
      ELSE IF f = "U" THEN Err("ValueError")
      ELSE IF f = "F" THEN Ok([lo |-> NonfreeIx(p, m), hi |-> NonfreeIx(p, m)])
      ELSE Ok([lo |-> FreeIx(p, m, DepLeaf), hi |-> FreeIx(p, m, BlockLeaf)])

----------------------------------------------------------------------------
(* Jacobians in closed form.                                                *)
(* U: derivative of non-free in free coordinates.  S: a basis of directions *)
(* (in non-free coordinates) that keep the value valid.  FS: derivative of  *)
(* free in non-free coordinates along S.                                    *)

NumSlope(lo, hi, v) ==       \* d value / d free
  IF lo = <<>> /\ hi = <<>> THEN One
  ELSE IF hi = <<>> THEN RSub(v, lo)
  ELSE IF lo = <<>> THEN RSub(hi, v)
  ELSE RDiv(RMul(RSub(v, lo), RSub(hi, v)), RSub(hi, lo))

NumSlopeJ(lo, hi, v) ==
  IF lo = <<>> /\ hi = <<>> THEN JOne
  ELSE IF hi = <<>> THEN JSub(v, JConst(lo))
  ELSE IF lo = <<>> THEN JSub(JConst(hi), v)
  ELSE JScale(RInv(RSub(hi, lo)), JMul(JSub(v, JConst(lo)), JSub(JConst(hi), v)))

PsdFactor(p, a) == LET L == CholJ(p.n, p.lb, Tab(Len(a), LAMBDA i : JConst(a[i])))
                   IN  Tab(Len(L), LAMBDA i : L[i][1])

ULeaf(p, a) ==
  CASE p.k = "num" ->
         [r |-> Len(a), c |-> Len(a),
          m |-> DiagM(Tab(Len(a), LAMBDA i : NumSlope(p.lo, p.hi, a[i])))]
    [] p.k = "sim" ->
         BlockDiag(Tab(Prod(p.sh), LAMBDA s :
           LET x == Chunk(a, (s - 1) * p.n, p.n)
           IN  [r |-> p.n, c |-> p.n - 1,
                m |-> MTab(p.n, p.n - 1, LAMBDA i, j :
                        RMul(x[i], RSub(IF i = j + 1 THEN One ELSE Zero, x[j + 1])))]))
    [] p.k = "psd" ->
         LET f == PsdFactor(p, a)
             n == p.n
             L(i, j) == IF j > i THEN Zero ELSE f[TriIx(i, j)]
             pos == FlatSeq(Tab(n, LAMBDA i : Tab(i, LAMBDA j : <<i, j>>)))
         IN  [r |-> n * n, c |-> Tri(n),
              m |-> MTab(n * n, Tri(n), LAMBDA x, y :
                 LET i == ((x - 1) \div n) + 1
                     j == ((x - 1) % n) + 1
                     s == pos[y][1]
                     t == pos[y][2]
                     w == IF s = t THEN L(s, t) ELSE One
                 IN  RMul(w, RAdd(IF i = s THEN L(j, t) ELSE Zero,
                                  IF j = s THEN L(i, t) ELSE Zero)))]

SLeaf(p) ==
  CASE p.k = "num" -> [r |-> Prod(p.sh), c |-> Prod(p.sh), m |-> Ident(Prod(p.sh))]
    [] p.k = "sim" ->
         BlockDiag(Tab(Prod(p.sh), LAMBDA s :
           [r |-> p.n, c |-> p.n - 1,
            m |-> MTab(p.n, p.n - 1, LAMBDA i, j :
                    IF i = 1 THEN RInt(-1) ELSE IF i = j + 1 THEN One ELSE Zero)]))
    [] p.k = "psd" ->
         LET n == p.n
             pos == FlatSeq(Tab(n, LAMBDA i : Tab(i, LAMBDA j : <<i, j>>)))
         IN  [r |-> n * n, c |-> Tri(n),
              m |-> MTab(n * n, Tri(n), LAMBDA x, y :
                 LET i == ((x - 1) \div n) + 1
                     j == ((x - 1) % n) + 1
                 IN  IF (i = pos[y][1] /\ j = pos[y][2])
                        \/ (j = pos[y][1] /\ i = pos[y][2]) THEN One ELSE Zero)]

\* Columns of the derivative of the flattening transform along S, by jets.
FSLeaf(p, a) ==
  LET s == SLeaf(p)
      st == Transp(s.m)
      col(j) == LET r == FlatLeafJ(p, Tab(Len(a), LAMBDA i : <<a[i], st[j][i], Zero, Zero>>))
                IN  Tab(Len(r), LAMBDA i : r[i][3])
      nf == Len2(p, TRUE)
      cs == Tab(s.c, col)
  IN  [r |-> nf, c |-> s.c, m |-> MTab(nf, s.c, LAMBDA i, j : cs[j][i])]

\* dU along direction: U by jets, to confirm the closed form
UJetLeaf(p, a) ==
  LET xs == FlatLeaf(p, a)
      n == Len(xs)
      col(j) == LET r == FoldLeafJ(p, Tab(n, LAMBDA i :
                          FreeJet(xs[i], IF i = j THEN One ELSE Zero, Zero)))
                IN  Tab(Len(r), LAMBDA i : r[i][2])
      cs == Tab(n, col)
  IN  [r |-> Len(a), c |-> n, m |-> MTab(Len(a), n, LAMBDA i, j : cs[j][i])]

OverLeaves(p, v, F(_, _)) ==
  LET l == Leaves(p)
      cs == Chunks(FlatRaw(p, v), Tab(Len(l), LAMBDA i : Len2(l[i], FALSE)))
  IN  Tab(Len(l), LAMBDA i : F(l[i], cs[i]))

Jacobians(p, v) ==
  LET ub == OverLeaves(p, v, ULeaf)
      fb == OverLeaves(p, v, FSLeaf)
      sb == OverLeaves(p, v, LAMBDA q, a : SLeaf(q))
  IN  [u |-> BlockDiag(ub), fs |-> BlockDiag(fb), s |-> BlockDiag(sb),
       rows |-> Tab(Len(ub), LAMBDA i : ub[i].r),
       cols |-> Tab(Len(ub), LAMBDA i : ub[i].c),
       allnum |-> AndAll(Tab(Len(Leaves(p)), LAMBDA i : Leaves(p)[i].k = "num"))]

----------------------------------------------------------------------------
(* Names *)

RECURSIVE IxName(_, _)
\* Row-major multi-index of position i (from 0) in shape sh, comma separated.
IxName(i, sh) ==
  IF Len(sh) = 0 THEN ""
  ELSE LET rest == Prod(Tail(sh))
           h == ToString(i \div rest)
       IN  IF Len(sh) = 1 THEN h
           ELSE h \o "," \o IxName(i % rest, Tail(sh))

RECURSIVE Names(_, _, _)
Names(p, free, delim) ==
  CASE p.k = "num" -> Tab(Prod(p.sh), LAMBDA i : "[" \o IxName(i - 1, p.sh) \o "]")
    [] p.k = "dict" ->
         FlatSeq(Tab(Len(p.subs), LAMBDA i :
           \* only the outermost call is given a delimiter
           LET ns == Names(p.subs[i], free, "_")
           IN  Tab(Len(ns), LAMBDA j : p.keys[i] \o delim \o ns[j])))
    [] OTHER -> Tab(Len2(p, free), LAMBDA i : ToString(i - 1))

----------------------------------------------------------------------------
(* Equality: same type and same describing settings *)

RECURSIVE SamePat(_, _)
SamePat(p, q) ==
  IF p.k # q.k THEN FALSE ELSE
  CASE p.k = "num" -> p.cls = q.cls /\ p.sh = q.sh /\ p.lo = q.lo /\ p.hi = q.hi
                      /\ p.dv = q.dv /\ p.fd = q.fd
    [] p.k = "psd" -> p.n = q.n /\ p.lb = q.lb /\ p.dv = q.dv /\ p.fd = q.fd
    [] p.k = "sim" -> p.n = q.n /\ p.sh = q.sh /\ p.dv = q.dv /\ p.fd = q.fd
    [] p.k = "dict" -> /\ p.keys = q.keys /\ p.fd = q.fd
                       /\ \A i \in 1..Len(p.subs) : SamePat(p.subs[i], q.subs[i])
    [] p.k = "parr" -> p.sh = q.sh /\ p.fd = q.fd /\ SamePat(p.base, q.base)

=============================================================================
