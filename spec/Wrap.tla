-------------------------------- MODULE Wrap --------------------------------
(* Function wrappers: a wrapped function converts designated arguments,     *)
(* calls the original once, and converts designated return values.          *)
(*                                                                          *)
(* A wrapper is [ins, outs]; a side is                                      *)
(*   [on, dir, pats, pnd, given, nums, nnd, free, fk]                       *)
(* with dir "fold" or "flatten" (what is applied), pats the patterns listed *)
(* (pnd: number of dimensions of that list), nums the positions listed (if  *)
(* given), free the flags "T", "F", "N" and fk "one", "list" or "grid".     *)
(* Argument and return values are [t, v]: t = "v" folded, "x" flat,         *)
(* "o" anything else (v is its identity).                                   *)
(*                                                                          *)
(* The conversion is specified twice: as one loop over the designations in  *)
(* increasing position (the transitions), and as a map over positions       *)
(* (Mapped); the invariants say that they agree.                            *)
EXTENDS Patterns
VARIABLES w, call, pc, acc, pos, last, seen, out
wvars == <<w, call, pc, acc, pos, last, seen, out>>

Numbers(s) == IF s.given THEN s.nums ELSE Tab(Len(s.pats), LAMBDA i : i - 1)
Distinct(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
FreeOk(s) == \/ s.fk = "one"
             \/ s.fk = "list" /\ Len(s.free) \in {1, Len(s.pats)}
FlagOf(s, i) == IF Len(s.free) = 1 THEN s.free[1] ELSE s.free[i]
SideOk(s) == s.on => /\ s.pnd = 1
                     /\ s.given => s.nnd = 1
                     /\ Len(Numbers(s)) = Len(s.pats)
                     /\ Distinct(Numbers(s))
                     /\ FreeOk(s)

\* The listed designations in increasing position.
Order(s) == LET q == Numbers(s)
            IN  Tab(Len(q), LAMBDA k : CHOOSE i \in 1..Len(q) :
                      Cardinality({j \in 1..Len(q) : q[j] < q[i]}) = k - 1)

Convert(s, i, x) ==
  IF s.dir = "fold"
  THEN LET r == Fold(s.pats[i], x.v, FlagOf(s, i), "N")
       IN  IF r.st = "ok" THEN Ok([t |-> "v", v |-> r.x]) ELSE r
  ELSE LET r == Flatten(s.pats[i], x.v, FlagOf(s, i), "N")
       IN  IF r.st = "ok" THEN Ok([t |-> "x", v |-> [sh |-> <<Len(r.x)>>, a |-> r.x]])
           ELSE r

\* Declarative meaning: every position on its own.
Mapped(s, xs) ==
  Tab(Len(xs), LAMBDA j :
    IF s.on /\ \E i \in 1..Len(s.pats) : Numbers(s)[i] = j - 1
    THEN Convert(s, CHOOSE i \in 1..Len(s.pats) : Numbers(s)[i] = j - 1, xs[j])
    ELSE Ok(xs[j]))
AllOk(rs) == \A i \in 1..Len(rs) : rs[i].st = "ok"
Parts(rs) == Tab(Len(rs), LAMBDA i : rs[i].x)

NoCall == [args |-> <<>>, rets |-> <<>>, tuple |-> FALSE]

New(x) == /\ pc = "none"
          /\ w' = x
          /\ IF SideOk(x.ins) /\ SideOk(x.outs)
             THEN pc' = "idle" /\ out' = Ok(<<>>)
             ELSE pc' = "refused" /\ out' = Err("ValueError")
          /\ UNCHANGED <<call, acc, pos, last, seen>>

Begin(c) == /\ pc = "idle"
            /\ call' = c
            /\ pc' = "in"
            /\ acc' = <<>> /\ pos' = 1 /\ last' = 0 /\ seen' = <<>>
            /\ out' = Ok(<<>>)
            /\ w' = w

\* One turn of the loop over designations; xs are the values it works on.
Turn(s, xs, next) ==
  IF ~s.on \/ pos > Len(s.pats)
  THEN /\ acc' = acc \o Chunk(xs, last, Len(xs) - last)
       /\ pc' = next
       /\ UNCHANGED <<pos, last, out>>
  ELSE LET i == Order(s)[pos]
           n == Numbers(s)[i]
       IN  IF n >= Len(xs)
           THEN /\ pc' = "idle" /\ out' = Err("ValueError")
                /\ UNCHANGED <<acc, pos, last>>
           ELSE LET r == Convert(s, i, xs[n + 1])
                IN  IF r.st # "ok"
                    THEN /\ pc' = "idle" /\ out' = r
                         /\ UNCHANGED <<acc, pos, last>>
                    ELSE /\ acc' = acc \o Chunk(xs, last, n - last) \o <<r.x>>
                         /\ pos' = pos + 1
                         /\ last' = n + 1
                         /\ UNCHANGED <<pc, out>>

In == /\ pc = "in"
      /\ Turn(w.ins, call.args, "run")
      /\ UNCHANGED <<w, call, seen>>

\* The original is called, with acc.
Run == /\ pc = "run"
       /\ seen' = Append(seen, acc)
       /\ acc' = <<>> /\ pos' = 1 /\ last' = 0
       /\ pc' = "out"
       /\ UNCHANGED <<w, call, out>>

Out == /\ pc = "out"
       /\ IF w.outs.on /\ ~call.tuple /\ Numbers(w.outs) # <<0>>
          THEN /\ pc' = "idle" /\ out' = Err("ValueError")
               /\ UNCHANGED <<acc, pos, last>>
          ELSE Turn(w.outs, call.rets, "back")
       /\ UNCHANGED <<w, call, seen>>

Back == /\ pc = "back"
        /\ pc' = "idle"
        /\ out' = Ok(acc)
        /\ UNCHANGED <<w, call, acc, pos, last, seen>>

Ends(o) == pc # "idle" /\ pc' \in {"idle", "refused"}

----------------------------------------------------------------------------
(* Properties *)

Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

\* The partial result of the loop is a prefix of the declarative one.
LoopAgrees ==
  /\ pc \in {"in", "run"} =>
       LET m == Mapped(w.ins, call.args)
       IN  Len(acc) <= Len(m) /\ \A j \in 1..Len(acc) : m[j] = Ok(acc[j])
  /\ pc \in {"out", "back"} =>
       LET m == Mapped(w.outs, call.rets)
       IN  Len(acc) <= Len(m) /\ \A j \in 1..Len(acc) : m[j] = Ok(acc[j])

\* The original runs at most once, on exactly the mapped arguments.
CalledOnce ==
  /\ Len(seen) <= 1
  /\ seen # <<>> => /\ AllOk(Mapped(w.ins, call.args))
                    /\ seen[1] = Parts(Mapped(w.ins, call.args))

\* A finished call: refused exactly when some conversion is impossible.
Finished ==
  pc = "back" =>
    /\ Len(seen) = 1
    /\ AllOk(Mapped(w.outs, call.rets))
    /\ acc = Parts(Mapped(w.outs, call.rets))
RefusedOnlyIfWrong ==
  (pc = "idle" /\ out.st # "ok" /\ call # NoCall) =>
    \/ ~AllOk(Mapped(w.ins, call.args)) /\ seen = <<>>
    \/ /\ seen # <<>>
       /\ w.outs.on
       /\ \/ ~AllOk(Mapped(w.outs, call.rets))
          \/ \E i \in 1..Len(w.outs.pats) : Numbers(w.outs)[i] >= Len(call.rets)
          \/ ~call.tuple /\ Numbers(w.outs) # <<0>>
=============================================================================
