------------------------------- MODULE Origami -------------------------------
(* A session with one pattern object: its state is the pattern, settings     *)
(* included; the actions are the public operations and the assignments to    *)
(* the public settings free_default and default_validate of any node.        *)
(* `last' is the operation just done and `out' what it must have returned.   *)
(*                                                                           *)
(* Decides C01, C02, C03, C04, C06, C07, C08, C19, C20 together with the     *)
(* harness, which runs the same operations on the real objects.              *)
EXTENDS Patterns, Json, IOUtils

VARIABLES p, last, out
svars == <<p, last, out>>

NoOp == [op |-> "none"]

RECURSIVE At(_, _)
\* The node reached by a path: member numbers of dictionaries, 0 for the base
\* of an array.
At(q, path) ==
  IF path = <<>> THEN q
  ELSE IF q.k = "dict" THEN At(q.subs[path[1]], Tail(path))
  ELSE At(q.base, Tail(path))

RECURSIVE SetAt(_, _, _, _)
SetAt(q, path, field, val) ==
  IF path = <<>> THEN [q EXCEPT ![field] = val]
  ELSE IF q.k = "dict"
       THEN [q EXCEPT !.subs[path[1]] = SetAt(q.subs[path[1]], Tail(path), field, val)]
       ELSE [q EXCEPT !.base = SetAt(q.base, Tail(path), field, val)]

\* ---------------------------------------------------------------- queries
Node(o) == At(p, o.path)
Query(o, name, result) == o.op = name /\ p' = p /\ last' = o /\ out' = result

FlattenOp(o) == o.op = "flatten" /\ Query(o, "flatten", Flatten(Node(o), o.v, o.free, o.vv))
FoldOp(o) == o.op = "fold" /\ Query(o, "fold", Fold(Node(o), o.x, o.free, o.vv))
ValidOp(o) == o.op = "valid" /\ Query(o, "valid", Ok(Why(Node(o), o.v, o.vv)))
LengthOp(o) == o.op = "len" /\ Query(o, "len", FlatLength(Node(o), o.free))
IndicesOp(o) == o.op = "idx" /\ Query(o, "idx", FlatIndices(Node(o), o.m, o.free))
NamesOp(o) == o.op = "names" /\ Query(o, "names", Ok(Names(Node(o), o.free = "T", o.delim)))
EmptyOp(o) == o.op = "empty" /\ Query(o, "empty",
                Ok([v |-> EmptyValid(Node(o)), s |-> Skeleton(Node(o))]))
JacOp(o) == o.op = "jac" /\ Query(o, "jac", Ok(Jacobians(Node(o), o.v)))

\* phi(u) = sum lin_i u_i + sum w u_i u_j over the non-free flat vector u
PhiJ(us, lin, quad) ==
  JAdd(JSum(Tab(Len(us), LAMBDA i : JScale(lin[i], us[i]))),
       JSum(Tab(Len(quad), LAMBDA t :
            JScale(quad[t][3], JMul(us[quad[t][1]], us[quad[t][2]])))))

\* Derivatives of phi(fold(x)) and of fold itself in directions a and b.
DFold(q, o) ==
  LET us == IF o.free = "T" THEN FoldTreeJ(q, o.x, o.a, o.b)
            ELSE Tab(Len(o.x), LAMBDA i : <<o.x[i], o.a[i], o.b[i], Zero>>)
  IN  [phi |-> PhiJ(us, o.lin, o.quad), u |-> us]
DFoldOp(o) == o.op = "dfold" /\ Query(o, "dfold", Ok(DFold(Node(o), o)))

\* Derivatives of the free vector in directions a, b of the folded value, and
\* of its weighted sum.
DFlat(q, o) ==
  LET fs == FlatTreeJ(q, FlatRaw(q, o.v), o.a, o.b)
      s(j) == RSum(Tab(Len(fs), LAMBDA i : RMul(o.lin[i], fs[i][j])))
  IN  [f |-> fs, s |-> <<s(3), s(4), s(5)>>]
DFlatOp(o) == o.op = "dflat" /\ Query(o, "dflat", Ok(DFlat(Node(o), o)))

\* The logarithm of the determinant of the unfreeing Jacobian of numeric
\* patterns: the slopes whose logarithms add up to it, and its derivatives in
\* directions a, b of the free or of the non-free vector.
DLogDet(q, o) ==
  LET us == IF o.free = "T" THEN FoldTreeJ(q, o.x, o.a, o.b)
            ELSE Tab(Len(o.x), LAMBDA i : <<o.x[i], o.a[i], o.b[i], Zero>>)
      l == Leaves(q)
      cs == Chunks(us, Tab(Len(l), LAMBDA i : Len2(l[i], FALSE)))
      ls == FlatSeq(Tab(Len(l), LAMBDA i : Tab(Len(cs[i]), LAMBDA j :
              LnJ(NumSlopeJ(l[i].lo, l[i].hi, cs[i][j])))))
      s(j) == RSum(Tab(Len(ls), LAMBDA i : ls[i][j]))
  IN  [slopes |-> Tab(Len(ls), LAMBDA i : ls[i][2]), s |-> <<s(3), s(4), s(5)>>]
DLogDetOp(o) == o.op = "dlogdet" /\ Query(o, "dlogdet", Ok(DLogDet(Node(o), o)))

\* --------------------------------------------------------------- settings
SetFreeOp(o) ==
  /\ o.op = "setfd"
  /\ p' = SetAt(p, o.path, "fd", o.val)
  /\ last' = o /\ out' = Ok("")
SetCheckOp(o) ==
  /\ o.op = "setdv"
  /\ At(p, o.path).k \notin {"dict", "parr"}
  /\ p' = SetAt(p, o.path, "dv", o.val)
  /\ last' = o /\ out' = Ok("")

Step(o) ==
  \/ FlattenOp(o) \/ FoldOp(o) \/ ValidOp(o) \/ LengthOp(o) \/ IndicesOp(o)
  \/ NamesOp(o) \/ EmptyOp(o) \/ JacOp(o) \/ DFoldOp(o) \/ DFlatOp(o)
  \/ DLogDetOp(o)
  \/ SetFreeOp(o) \/ SetCheckOp(o)

----------------------------------------------------------------------------
(* What the specification itself guarantees; TLC evaluates these in every   *)
(* state it visits.                                                         *)

Did(name) == last.op = name /\ out.st = "ok"
Here == At(p, last.path)
IsFree == Resolve(Here, last.free) = "T"
Infinite(v) == \E i \in 1..Len(v) : v[i][2] = 0
Finitary(xs) == \A i \in 1..Len(xs) : xs[i][1] = "re" \/ xs[i][4] = 0
Plain(a) == \A i \in 1..Len(a) : Len(a[i]) = 2

\* C01: flatten and fold are mutually inverse
RoundTrip ==
  /\ Did("flatten") /\ IsFree =>
       FlatRaw(Here, FoldFree(Here, out.x)) = FlatRaw(Here, last.v)
  /\ Did("flatten") /\ ~IsFree =>
       FlatRaw(Here, FoldRaw(Here, out.x)) = out.x
  /\ Did("fold") /\ IsFree /\ Finitary(last.x.a) /\ Len(last.x.a) > 0 /\ last.interior =>
       FlatFree(Here, out.x) = last.x.a
  /\ Did("fold") /\ ~IsFree => FlatRaw(Here, out.x) = last.x.a

\* C01, C04: announced lengths, one parametrisation throughout
Lengths ==
  /\ Did("flatten") => Len(out.x) = Len2(Here, IsFree)
  /\ Did("flatten") /\ IsFree =>
       Tab(Len(out.x), LAMBDA i : out.x[i][1]) = TreeKinds(Here)
  /\ Did("names") => Len(out.x) = Len2(Here, last.free = "T")

\* C02: every free vector folds to a valid value
FreeFoldsValid ==
  /\ Did("fold") /\ IsFree /\ ~Infinite(FlatRaw(Here, out.x)) =>
       Valid(Here, out.x, "T")
  /\ Did("empty") => Valid(Here, out.x.v, "T")

\* C04: the flat vector is that of the leaves in order
Concatenation ==
  Did("flatten") =>
    LET l == Leaves(Here)
        cs == Chunks(FlatRaw(Here, last.v), Tab(Len(l), LAMBDA i : Len2(l[i], FALSE)))
    IN  out.x = IF IsFree THEN FlatSeq(Tab(Len(l), LAMBDA i : FlatLeaf(l[i], cs[i])))
                ELSE FlatSeq(cs)

\* C06
Selection ==
  Did("idx") =>
    /\ \A i \in 1..Len(out.x.lo) : \E j \in 1..Len(out.x.hi) : out.x.lo[i] = out.x.hi[j]
    /\ \A i \in 1..Len(out.x.hi) : /\ out.x.hi[i] >= 0
                                   /\ out.x.hi[i] < Len2(Here, IsFree)
                                   /\ i > 1 => out.x.hi[i - 1] < out.x.hi[i]
    /\ AnyTrue(FlatRaw(Here, last.m)) <=> out.x.lo # <<>>

\* C07: the closed forms are the jets' derivatives and invert each other
JacobiansRight ==
  Did("jac") =>
    /\ BlockDiag(OverLeaves(Here, last.v, UJetLeaf)).m = out.x.u.m
    \* U moves along valid directions: U = S T, and FS T = identity
    /\ LET pick(l, a) ==  \* the rows of U that determine it along S
             CASE l.k = "num" -> ULeaf(l, a)
               [] l.k = "sim" ->
                    BlockDiag(Tab(Prod(l.sh), LAMBDA s :
                      LET u == ULeaf([l EXCEPT !.sh = <<1>>], Chunk(a, (s - 1) * l.n, l.n))
                      IN  [r |-> l.n - 1, c |-> l.n - 1, m |-> Tail(u.m)]))
               [] l.k = "psd" ->
                    LET u == ULeaf(l, a)
                        pos == FlatSeq(Tab(l.n, LAMBDA i : Tab(i, LAMBDA j : <<i, j>>)))
                    IN  [r |-> Tri(l.n), c |-> Tri(l.n),
                         m |-> Tab(Tri(l.n), LAMBDA t : u.m[(pos[t][1] - 1) * l.n + pos[t][2]])]
           T == BlockDiag(OverLeaves(Here, last.v, pick))
       IN  /\ out.x.u.m # <<>> => MMul(out.x.s.m, T.m) = out.x.u.m
           /\ T.m # <<>> => MMul(out.x.fs.m, T.m) = Ident(Len(T.m))

\* C19: the chain rule: first derivatives by jets are the Jacobian applied
ChainRule ==
  Did("dfold") /\ last.free = "T" =>
    LET v == FoldFree(Here, last.x)
        u == Jacobians(Here, v).u.m
        da == MVec(u, last.a)
    IN  Tab(Len(out.x.u), LAMBDA i : out.x.u[i][2]) = da

\* C07, C19: the slopes are the diagonal of the Jacobian, and where a value is
\* bounded on one side only, the logarithm of its slope is plus or minus the
\* free number
LogDetRight ==
  Did("dlogdet") =>
    LET v == IF last.free = "T" THEN FoldFree(Here, last.x) ELSE FoldRaw(Here, last.x)
        l == Leaves(Here)
    IN  /\ LET u == Jacobians(Here, v).u.m
           IN  Tab(Len(u), LAMBDA i : u[i][i]) = out.x.slopes
        /\ (last.free = "T" /\ \A i \in 1..Len(l) : l[i].lo # <<>> /\ l[i].hi = <<>>) =>
             out.x.s = <<RSum(last.a), RSum(last.b), Zero>>

\* C08: settings are read at the moment of the call, from the node itself
OwnDefault ==
  last.op \in {"fold", "flatten", "len", "idx"} =>
    (last.free = "N" /\ Here.fd = "N" => out.st = "ValueError")

Invariants == /\ RoundTrip /\ Lengths /\ FreeFoldsValid /\ Concatenation
              /\ Selection /\ OwnDefault
=============================================================================
