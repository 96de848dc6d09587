-------------------------------- MODULE Build --------------------------------
(* Building patterns, and what they then say about themselves.  Decides C22. *)
(*                                                                           *)
(* s is the sequence of the pattern objects built so far: pattern records of *)
(* `Patterns' in which parts are object numbers (`base' of arrays, `subs' of *)
(* dictionaries), and `lock' of dictionaries.  In requests for numeric       *)
(* patterns a bound may also be <<1, 0>> or <<-1, 0>>, an infinity.          *)
EXTENDS Patterns, Json, IOUtils

VARIABLES s, last, out
bvars == <<s, last, out>>
NoOp == [op |-> "none"]

RECURSIVE Term(_, _)
\* The pattern that object i is at this moment.
Term(t, i) ==
  CASE t[i].k = "parr" -> [k |-> "parr", sh |-> t[i].sh, fd |-> t[i].fd, base |-> Term(t, t[i].base)]
    [] t[i].k = "dict" -> [k |-> "dict", keys |-> t[i].keys, fd |-> t[i].fd,
                           subs |-> Tab(Len(t[i].subs), LAMBDA j : Term(t, t[i].subs[j]))]
    [] OTHER -> t[i]

\* ------------------------------------------------------------ construction
\* Bounds with infinities: <<>> is the infinity on the bound's own side.
LowOf(b) == IF b = <<>> THEN <<-1, 0>> ELSE b
HighOf(b) == IF b = <<>> THEN <<1, 0>> ELSE b
Under(a, b) ==
  IF a[2] = 0 THEN a[1] < 0 /\ b # a
  ELSE IF b[2] = 0 THEN b[1] > 0
  ELSE RSub(a, b)[1] < 0

\* Why the settings are refused, or "".
Refusal(t, q) ==
  CASE q.k = "num" -> IF Under(LowOf(q.lo), HighOf(q.hi)) THEN "" ELSE "ValueError"
    [] q.k = "psd" -> IF q.lb[1] >= 0 THEN "" ELSE "ValueError"
    [] q.k = "sim" -> IF q.n >= 2 THEN "" ELSE "ValueError"
    [] q.k = "parr" -> IF t[q.base].k = "dict" THEN "NotImplementedError" ELSE ""
    [] q.k = "dict" -> ""

\* The object made from settings that are not refused.
Made(q) ==
  CASE q.k = "num" -> [q EXCEPT !.lo = IF q.lo # <<>> /\ q.lo[2] = 0 THEN <<>> ELSE q.lo,
                                !.hi = IF q.hi # <<>> /\ q.hi[2] = 0 THEN <<>> ELSE q.hi]
    [] q.k = "dict" -> [k |-> "dict", keys |-> <<>>, subs |-> <<>>, fd |-> q.fd, lock |-> FALSE]
    [] OTHER -> q

Make(o) ==
  /\ o.op = "make"
  /\ o.q.k = "parr" => o.q.base <= Len(s)
  /\ last' = o
  /\ LET w == Refusal(s, o.q)
     IN  IF w = "" THEN s' = Append(s, Made(o.q)) /\ out' = Ok(Len(s) + 1)
         ELSE s' = s /\ out' = Err(w)

\* ------------------------------------------------------------------- edits
RECURSIVE Parts(_, _)
Parts(t, i) ==
  {i} \cup (CASE t[i].k = "parr" -> Parts(t, t[i].base)
              [] t[i].k = "dict" -> UNION {Parts(t, t[i].subs[j]) : j \in 1..Len(t[i].subs)}
              [] OTHER -> {})

Put(o) ==
  /\ o.op = "put"
  /\ o.i <= Len(s) /\ o.j <= Len(s)
  /\ s[o.i].k = "dict" /\ o.i \notin Parts(s, o.j)
  /\ last' = o
  /\ IF s[o.i].lock THEN s' = s /\ out' = Err("ValueError")
     ELSE /\ out' = Ok("")
          /\ LET d == s[o.i]
                 e == IF HasKey(d.keys, o.key) THEN [d EXCEPT !.subs[KeyIx(d.keys, o.key)] = o.j]
                      ELSE [d EXCEPT !.keys = Append(@, o.key), !.subs = Append(@, o.j)]
                 t == [s EXCEPT ![o.i] = e]
             IN  s' = IF s[o.j].k = "dict" THEN [t EXCEPT ![o.j].lock = TRUE] ELSE t

SetFree(o) ==
  /\ o.op = "setfd" /\ o.i <= Len(s)
  /\ s' = [s EXCEPT ![o.i].fd = o.val]
  /\ last' = o /\ out' = Ok("")

SetCheck(o) ==
  /\ o.op = "setdv" /\ o.i <= Len(s) /\ s[o.i].k \notin {"dict", "parr"}
  /\ s' = [s EXCEPT ![o.i].dv = o.val]
  /\ last' = o /\ out' = Ok("")

\* ----------------------------------------------------------------- queries
RECURSIVE About(_)
\* What a pattern says about itself.
About(q) ==
  LET lens == <<Len2(q, TRUE), Len2(q, FALSE)>>
  IN  CASE q.k = "num" -> [k |-> "num", cls |-> q.cls, lens |-> lens, fd |-> q.fd, dv |-> q.dv,
                           shape |-> Shape(q), lo |-> LowOf(q.lo), hi |-> HighOf(q.hi)]
        [] q.k = "psd" -> [k |-> "psd", lens |-> lens, fd |-> q.fd, dv |-> q.dv,
                           shape |-> Shape(q), n |-> q.n, lb |-> q.lb]
        [] q.k = "sim" -> [k |-> "sim", lens |-> lens, fd |-> q.fd, dv |-> q.dv,
                           shape |-> Shape(q), n |-> q.n, sh |-> q.sh]
        [] q.k = "parr" -> [k |-> "parr", lens |-> lens, fd |-> q.fd,
                            shape |-> Shape(q), sh |-> q.sh, base |-> About(q.base)]
        [] q.k = "dict" -> [k |-> "dict", lens |-> lens, fd |-> q.fd, keys |-> q.keys,
                            subs |-> Tab(Len(q.subs), LAMBDA i : About(q.subs[i]))]

Query(o, name, result) == /\ o.op = name /\ o.i <= Len(s)
                          /\ s' = s /\ last' = o /\ out' = result

\* ask: the object itself; coded: what its JSON form decodes to
Ask(o) == o.op = "ask" /\ Query(o, "ask", Ok(About(Term(s, o.i))))
Coded(o) == o.op = "coded" /\ Query(o, "coded", Ok(About(Term(s, o.i))))
\* use: the object at work
Use(o) == o.op = "use" /\ Query(o, "use",
            LET t == Term(s, o.i)
                v == EmptyValid(t)
            IN  Ok([v |-> v, skel |-> Skeleton(t), free |-> FlatFree(t, v), raw |-> FlatRaw(t, v)]))

Step(o) == Make(o) \/ Put(o) \/ SetFree(o) \/ SetCheck(o) \/ Ask(o) \/ Coded(o) \/ Use(o)

----------------------------------------------------------------------------
\* Every object is legal.
Legal == \A i \in 1..Len(s) :
  CASE s[i].k = "num" -> Under(LowOf(s[i].lo), HighOf(s[i].hi))
    [] s[i].k = "psd" -> s[i].lb[1] >= 0
    [] s[i].k = "sim" -> s[i].n >= 2
    [] s[i].k = "parr" -> s[i].base < i /\ s[s[i].base].k \in {"num", "psd", "sim", "parr"}
    [] s[i].k = "dict" -> Len(s[i].keys) = Len(s[i].subs)

\* The empty valid value is valid, of the announced shape and length.
Coherent == last.op = "use" =>
  LET t == Term(s, last.i)
  IN  /\ Valid(t, out.x.v, "T")
      /\ Len(out.x.free) = Len2(t, TRUE) /\ Len(out.x.raw) = Len2(t, FALSE)
      /\ t.k # "dict" => out.x.v.sh = Shape(t) /\ Prod(Shape(t)) = Len2(t, FALSE)

\* Nothing but the two settings of an object, and the members of a dictionary,
\* ever changes; what was refused was not made.
Kept == [][\A i \in 1..Len(s) :
             CASE s[i].k = "dict" -> /\ s'[i].k = "dict"
                                     /\ s[i].lock => s'[i].keys = s[i].keys /\ s'[i].subs = s[i].subs
               [] s[i].k = "parr" -> [s'[i] EXCEPT !.fd = s[i].fd] = s[i]
               [] OTHER -> [s'[i] EXCEPT !.fd = s[i].fd, !.dv = s[i].dv] = s[i]]_bvars
RefusedUnchanged == [][out'.st # "ok" => s' = s]_bvars
=============================================================================
