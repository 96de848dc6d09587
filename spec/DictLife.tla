------------------------------- MODULE DictLife -------------------------------
(* The life of pattern dictionaries: a heap of dictionary objects that are    *)
(* created, filled, edited, locked, nested and shared.  Decides C05.          *)
(*                                                                            *)
(* h[i] is dictionary number i: its keys in order, what they refer to         *)
(* (<<"l", n>>: leaf pattern number n; <<"d", j>>: dictionary j), whether it  *)
(* is locked, and its free default.                                           *)
EXTENDS Patterns, Json, IOUtils

CONSTANT Leaf(_)          \* leaf pattern number -> pattern term
VARIABLES h, last, out
dvars == <<h, last, out>>

NoOp == [op |-> "none"]
IsDict(ref) == ref[1] = "d"

\* ------------------------------------------------------------ abstraction
RECURSIVE Term(_, _)
\* The pattern that dictionary i is at this moment.
Term(hp, i) ==
  [k |-> "dict", keys |-> hp[i].keys, fd |-> hp[i].fd,
   subs |-> Tab(Len(hp[i].refs), LAMBDA m :
              LET r == hp[i].refs[m]
              IN  IF IsDict(r) THEN Term(hp, r[2]) ELSE Leaf(r[2]))]

RECURSIVE Below2(_, _)
\* Dictionaries reachable from i, itself included.
Below2(hp, i) ==
  {i} \cup UNION {IF IsDict(hp[i].refs[m]) THEN Below2(hp, hp[i].refs[m][2]) ELSE {} :
                  m \in 1..Len(hp[i].refs)}

\* The announced lengths of all dictionaries.
Sizes(hp) == Tab(Len(hp), LAMBDA i : <<Len2(Term(hp, i), TRUE), Len2(Term(hp, i), FALSE)>>)

\* ---------------------------------------------------------------- actions
New(o) ==
  /\ o.op = "new"
  /\ h' = Append(h, [keys |-> <<>>, refs |-> <<>>, locked |-> FALSE, fd |-> o.fd])
  /\ last' = o /\ out' = Ok(Len(h) + 1)

Set(o) ==
  LET d == h[o.i]
      new == IF HasKey(d.keys, o.key)
             THEN [d EXCEPT !.refs[KeyIx(d.keys, o.key)] = o.ref]
             ELSE [d EXCEPT !.keys = Append(@, o.key), !.refs = Append(@, o.ref)]
  IN  /\ o.op = "set"
      /\ IsDict(o.ref) => o.i \notin Below2(h, o.ref[2])   \* no cycles
      /\ last' = o
      /\ IF d.locked
         THEN h' = h /\ out' = Err("ValueError")
         ELSE /\ out' = Ok("")
              /\ h' = IF IsDict(o.ref)
                      THEN [h EXCEPT ![o.i] = new, ![o.ref[2]].locked = TRUE]
                      ELSE [h EXCEPT ![o.i] = new]

Without(s, n) == SubSeq(s, 1, n - 1) \o SubSeq(s, n + 1, Len(s))
Del(o) ==
  LET d == h[o.i]
      n == KeyIx(d.keys, o.key)
  IN  /\ o.op = "del"
      /\ last' = o
      /\ IF d.locked
         THEN h' = h /\ out' = Err(IF HasKey(d.keys, o.key) THEN "ValueError"
                                   ELSE "ValueError or KeyError")
         ELSE IF ~HasKey(d.keys, o.key) THEN h' = h /\ out' = Err("KeyError")
         ELSE /\ h' = [h EXCEPT ![o.i].keys = Without(@, n), ![o.i].refs = Without(@, n)]
              /\ out' = Ok("")

Lock(o) == /\ o.op = "lock"
           /\ h' = [h EXCEPT ![o.i].locked = TRUE]
           /\ last' = o /\ out' = Ok("")

SetDefault(o) == /\ o.op = "setfd"
                 /\ h' = [h EXCEPT ![o.i].fd = o.val]
                 /\ last' = o /\ out' = Ok("")

Get(o) == /\ o.op = "get"
          /\ h' = h /\ last' = o
          /\ out' = IF HasKey(h[o.i].keys, o.key)
                    THEN Ok(h[o.i].refs[KeyIx(h[o.i].keys, o.key)]) ELSE Err("KeyError")

\* Everything the dictionary says about itself: computed from its members.
Look(o) ==
  LET t == Term(h, o.i)
      v == EmptyValid(t)
  IN  /\ o.op = "look"
      /\ h' = h /\ last' = o
      /\ out' = Ok([keys |-> t.keys, len |-> FlatLength(t, "N"),
                    lens |-> <<Len2(t, TRUE), Len2(t, FALSE)>>,
                    names |-> <<Names(t, TRUE, "_"), Names(t, FALSE, "_")>>,
                    v |-> v, free |-> FlatFree(t, v), raw |-> FlatRaw(t, v),
                    u |-> BlockDiag(OverLeaves(t, v, ULeaf)), term |-> t])

Step(o) == New(o) \/ Set(o) \/ Del(o) \/ Lock(o) \/ SetDefault(o) \/ Get(o) \/ Look(o)

----------------------------------------------------------------------------
(* What the design guarantees *)

TypeOK == \A i \in 1..Len(h) :
  /\ Len(h[i].keys) = Len(h[i].refs)
  /\ \A a, b \in 1..Len(h[i].keys) : h[i].keys[a] = h[i].keys[b] => a = b

\* A dictionary inside another one is locked, so sizes cannot become stale.
NestedLocked == \A i \in 1..Len(h) : \A m \in 1..Len(h[i].refs) :
  IsDict(h[i].refs[m]) => h[h[i].refs[m][2]].locked

Acyclic == \A i \in 1..Len(h) : \A m \in 1..Len(h[i].refs) :
  IsDict(h[i].refs[m]) => i \notin Below2(h, h[i].refs[m][2])

\* Lengths are sums over the members.
Sums == \A i \in 1..Len(h) : \A f \in BOOLEAN :
  Len2(Term(h, i), f) = SumI(Tab(Len(h[i].refs), LAMBDA m :
    LET r == h[i].refs[m]
    IN  Len2(IF IsDict(r) THEN Term(h, r[2]) ELSE Leaf(r[2]), f)))

\* What is locked stays as it is, and everything below it too.
Frozen == [][\A i \in 1..Len(h) : h[i].locked =>
               /\ h'[i].keys = h[i].keys /\ h'[i].refs = h[i].refs /\ h'[i].locked
               /\ \A j \in Below2(h, i) : h[j].locked]_dvars
\* Refused operations change nothing.
RefusedUnchanged == [][out'.st # "ok" => h' = h]_dvars
\* A replaced member keeps its position; other members never move past each other.
OrderKept == [][\A i \in 1..Len(h) :
                  \A a, b \in 1..Len(h[i].keys) :
                    LET ks == h'[i].keys
                        x == h[i].keys[a]
                        y == h[i].keys[b]
                    IN  a < b /\ HasKey(ks, x) /\ HasKey(ks, y)
                          => KeyIx(ks, x) < KeyIx(ks, y)]_dvars
=============================================================================
