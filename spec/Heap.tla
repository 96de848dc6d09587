---------------------------------- MODULE Heap ----------------------------------
(* Who owns the storage of which value.                                          *)
(*                                                                               *)
(* State: objs, the arrays and dictionaries that the client holds, each with     *)
(*   t  what it is ("val" folded, "freeT"/"freeF" flat, "mask", "arr" other)     *)
(*   c  its contents, as the term that made them: "own" after a single entry     *)
(*      was overwritten, "any" where they are left open                          *)
(*   al the objects with which it may share storage                              *)
(* A fresh result shares with nothing.  Overwriting an object changes it, leaves *)
(* open what it may share with, and changes nothing else; calls change nothing.  *)
(* Equal terms stand for equal contents, whatever happened in between: neither   *)
(* patterns nor functions remember anything.                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
VARIABLES objs, last, out
hvars == <<objs, last, out>>
NoOp == [op |-> "none"]

Known(i) == i <= Len(objs) /\ objs[i].c \notin {"own", "any"}
Is(i, ts) == Known(i) /\ objs[i].t \in ts
Flat == {"freeT", "freeF"}

\* What a call returns: its kind, its contents, and whether it is fresh.
Res(t, c, fresh) == [t |-> t, c |-> c, fresh |-> fresh]
FreeName(f) == IF f THEN "freeT" ELSE "freeF"
Fits(o) ==
  LET a == o.a
  IN CASE o.f \in {"flatten", "flattenout"} -> Is(a[1], {"val"})
       [] o.f \in {"fold", "foldout", "wrapin"} -> Is(a[1], Flat)
       [] o.f \in {"validate", "jac", "unjac", "logdet", "unlogdet", "save", "load", "foldin"} -> Is(a[1], {"val"})
       [] o.f = "both" -> Is(a[1], {"val"}) /\ Is(a[2], Flat)
       [] o.f = "indices" -> Is(a[1], {"mask"})
       [] o.f \in {"empty", "ebool", "describe"} -> TRUE
       [] o.f \in {"replace", "gsum", "trunc", "eigen", "precond", "product"} ->
            \A i \in 1..Len(a) : Is(a[i], {"arr"})
\* contents of the folded value with the same flat form, and back
Term(o) == o.f \o "(" \o o.k \o FoldLeft(LAMBDA acc, i : acc \o "," \o objs[i].t \o objs[i].c, "", o.a) \o ")"
Result(o) ==
  LET c == IF o.a = <<>> THEN "" ELSE objs[o.a[1]].c
  IN CASE o.f \in {"flatten", "flattenout"} -> Res(FreeName(o.free), c, TRUE)
       [] o.f \in {"fold", "foldout"} -> Res("val", c, objs[o.a[1]].t = "freeT")
       [] o.f = "load" -> Res("val", c, TRUE)
       [] o.f = "empty" -> Res("val", "empty", TRUE)
       [] o.f = "ebool" -> Res("mask", o.k, TRUE)
       [] o.f \in {"replace", "gsum"} -> Res("arr", Term(o), TRUE)
       [] o.f \in {"trunc"} -> Res("arr", Term(o), FALSE)
       [] o.f = "indices" -> Res("ints", Term(o), TRUE)
       [] OTHER -> Res("", Term(o), FALSE)

All(s) == [i \in 1..Len(s) |-> s[i].c]
Sharing(i) == {j \in 1..Len(objs) : j = i \/ i \in objs[j].al \/ j \in objs[i].al}
New(o) ==
  /\ o.op = "new"
  /\ objs' = Append(objs, [t |-> o.t, c |-> o.k, al |-> {}])
  /\ out' = [st |-> "ok", all |-> All(objs'), term |-> ""]
Skip == objs' = objs /\ out' = [st |-> "skip"]
Call(o) ==
  /\ o.op = "call"
  /\ IF ~Fits(o) THEN Skip
     ELSE LET r == Result(o)
              al == IF r.fresh THEN {} ELSE UNION {Sharing(o.a[i]) : i \in 1..Len(o.a)}
          IN  /\ objs' = IF o.keep /\ r.t # ""
                         THEN Append(objs, [t |-> r.t, c |-> r.c, al |-> al]) ELSE objs
              /\ out' = [st |-> "ok", all |-> All(objs'), term |-> r.t \o r.c]
\* overwrite everything by given contents, or one entry by something else
Write(o) ==
  /\ o.op \in {"fill", "entry"}
  /\ IF o.i > Len(objs) \/ (o.op = "fill" /\ objs[o.i].t = "ints") THEN Skip
     ELSE LET sh == Sharing(o.i)
          IN  /\ objs' = [j \in 1..Len(objs) |->
                   IF j = o.i THEN [objs[j] EXCEPT !.c = IF o.op = "fill" THEN o.k ELSE "own"]
                   ELSE IF j \in sh THEN [objs[j] EXCEPT !.c = "any"] ELSE objs[j]]
              /\ out' = [st |-> "ok", all |-> All(objs'), term |-> ""]

Step(o) == last' = o /\ (New(o) \/ Call(o) \/ Write(o))

---------------------------------------------------------------------------------
(* Properties *)
\* Calls change no object that exists.
CallsChangeNothing ==
  [][last'.op = "call" => \A i \in 1..Len(objs) : objs'[i] = objs[i]]_hvars
\* Writing changes what is written to and, at most, what may share with it.
WritesAreLocal ==
  [][last'.op \in {"fill", "entry"} =>
       \A i \in 1..Len(objs) :
         objs'[i] # objs[i] => i \in Sharing(last'.i)]_hvars
\* Flat vectors, free folds, empties and masks are nobody else's.
FreshAlone ==
  (last.op = "call" /\ last.keep /\ out.st = "ok") =>
    LET n == Len(objs)
    IN  (\/ last.f \in {"flatten", "flattenout", "empty", "ebool", "indices", "load", "replace", "gsum"}
         \/ last.f \in {"fold", "foldout"} /\ objs[last.a[1]].t = "freeT")
        => Sharing(n) = {n}
=================================================================================
