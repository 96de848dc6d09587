------------------------------- MODULE WrapMC -------------------------------
(* All wrappers within the bounds of the request                            *)
(*   [what, pats, vals, arity, maxn, dirs]                                  *)
(* pats: patterns; vals: a folded value of each; arity: number of arguments *)
(* and of return values; maxn: number of designations.  what: "in", "out"   *)
(* or "both" (designations on one or both sides) or "bad" (all listings of  *)
(* positions, also wrong ones).                                             *)
EXTENDS Wrap, Json, IOUtils
Req == JsonDeserialize(IOEnv.REQ)

Flags == {"T", "F"}
Off == [on |-> FALSE, dir |-> "fold", pats |-> <<>>, pnd |-> 1, given |-> TRUE,
        nums |-> <<>>, nnd |-> 1, free |-> <<"T">>, fk |-> "one"]
\* sequences of length n over S
Seqs(S, n) == [1..n -> S]
Inject(S, n) == {q \in Seqs(S, n) : \A i, j \in 1..n : q[i] = q[j] => i = j}
Side(dir, nums, free, given, n) ==
  [on |-> TRUE, dir |-> dir, pats |-> SubSeq(Req.pats, 1, n), pnd |-> 1, given |-> given,
   nums |-> Tab(Len(nums), LAMBDA i : nums[i]), nnd |-> 1,
   free |-> Tab(Len(free), LAMBDA i : free[i]),
   fk |-> IF Len(free) = 1 THEN "one" ELSE "list"]
Sides(dir, arity, maxn) ==
  UNION {{Side(dir, q, f, TRUE, n) : q \in Inject(0..(arity - 1), n), f \in Seqs(Flags, n)}
           : n \in 1..maxn}
  \cup UNION {{Side(dir, <<>>, f, FALSE, n) : f \in Seqs(Flags, 1)} : n \in 1..maxn}
\* Any listing of positions, also with repetitions and of other lengths.
Bad(dir) ==
  UNION {UNION {{Side(dir, q, <<"T">>, TRUE, n) : q \in Seqs(0..2, m)} : n \in 1..Req.maxn}
           : m \in 1..3}

\* Values for a side: what the conversion expects at designated positions.
Feed(s, n, base) ==
  Tab(n, LAMBDA j :
    IF s.on /\ \E i \in 1..Len(s.pats) : i <= Len(Numbers(s)) /\ Numbers(s)[i] = j - 1
    THEN LET i == CHOOSE i \in 1..Len(s.pats) : i <= Len(Numbers(s)) /\ Numbers(s)[i] = j - 1
         IN  IF s.dir = "flatten" THEN [t |-> "v", v |-> Req.vals[i]]
             ELSE LET x == Flatten(s.pats[i], Req.vals[i], FlagOf(s, i), "N").x
                  IN  [t |-> "x", v |-> [sh |-> <<Len(x)>>, a |-> x]]
    ELSE [t |-> "o", v |-> base + j])
\* The patterns themselves are in the request.
Strip(s) == [on |-> s.on, dir |-> s.dir, n |-> Len(s.pats), given |-> s.given,
             nums |-> s.nums, free |-> s.free, fk |-> s.fk]

Wrappers ==
  CASE Req.what = "in" -> {[ins |-> s, outs |-> Off] : s \in Sides("fold", Req.arity, Req.maxn)
                                                       \cup Sides("flatten", Req.arity, Req.maxn)}
    [] Req.what = "out" -> {[ins |-> Off, outs |-> s] : s \in Sides("fold", Req.arity, Req.maxn)
                                                       \cup Sides("flatten", Req.arity, Req.maxn)}
    [] Req.what = "both" ->
         UNION {{[ins |-> s, outs |-> t] : s \in Sides(d[1], Req.arity, Req.maxn),
                                           t \in Sides(d[2], Req.arity, Req.maxn)}
                  : d \in {Req.dirs[i] : i \in 1..Len(Req.dirs)}}
    [] Req.what = "bad" -> {[ins |-> s, outs |-> Off] : s \in Bad("fold")}
                           \cup {[ins |-> Off, outs |-> s] : s \in Bad("flatten")}

Calls ==
  LET a == Feed(w.ins, Req.arity, 0)
      R(n, tup) == [args |-> a, rets |-> Feed(w.outs, n, 100), tuple |-> tup]
  IN  IF ~w.outs.on THEN {R(1, FALSE), R(2, TRUE)}
      ELSE {R(1, FALSE)} \cup {R(n, TRUE) : n \in 1..Req.arity}

Init == /\ pc = "none" /\ w = <<>> /\ call = NoCall
        /\ acc = <<>> /\ pos = 1 /\ last = 0 /\ seen = <<>> /\ out = Ok(<<>>)
Emit == IF Ends(0)
        THEN PrintT(ToJson([w |-> [ins |-> Strip(w'.ins), outs |-> Strip(w'.outs)], call |-> call',
               out |-> [st |-> out'.st, seen |-> seen',
                        x |-> IF out'.st = "ok" THEN out'.x ELSE <<>>]]))
        ELSE TRUE
Next == /\ \/ pc = "none" /\ \E x \in Wrappers : New(x)
           \/ pc = "idle" /\ call = NoCall /\ \E c \in Calls : Begin(c)
           \/ In \/ Run \/ Out \/ Back
        /\ Emit
Spec == Init /\ [][Next]_wvars
=============================================================================
