-------------------------------- MODULE Live ---------------------------------
(* Pattern objects, JSON documents and files of one program.  Objects are      *)
(* changed through their public settings and by adding and removing members;   *)
(* documents and files keep what was written, and whatever is decoded from     *)
(* them is an object of its own.  Decides part of C09 and C10.                 *)
EXTENDS Persist

VARIABLES objs,     \* object -> its present pattern
          docs,     \* document -> the description written in it
          files     \* name -> [p, n] of the last save
lvars == <<objs, docs, files, last, out>>
fixed == <<reg, store>>

RECURSIVE LAt(_, _), LSet(_, _, _)
LAt(q, path) ==
  IF path = <<>> THEN q
  ELSE IF q.k = "dict" THEN LAt(q.subs[path[1]], Tail(path))
  ELSE LAt(q.base, Tail(path))
LSet(q, path, new) ==
  IF path = <<>> THEN new
  ELSE IF q.k = "dict"
       THEN [q EXCEPT !.subs[path[1]] = LSet(q.subs[path[1]], Tail(path), new)]
       ELSE [q EXCEPT !.base = LSet(q.base, Tail(path), new)]
RECURSIVE HasPath(_, _)
HasPath(q, path) ==
  IF path = <<>> THEN TRUE
  ELSE IF q.k = "dict" THEN IF path[1] \in 1..Len(q.subs) THEN HasPath(q.subs[path[1]], Tail(path)) ELSE FALSE
  ELSE IF q.k = "parr" THEN IF path[1] = 0 THEN HasPath(q.base, Tail(path)) ELSE FALSE
  ELSE FALSE
KeyPos(ks, key) == IF \E i \in 1..Len(ks) : ks[i] = key
                  THEN CHOOSE i \in 1..Len(ks) : ks[i] = key ELSE 0
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Same(os) == Tab(Len(os), LAMBDA i : Tab(Len(os), LAMBDA j : SamePat(os[i], os[j])))
\* The objects afterwards; all of them, and which are equal, are seen
Now(os, x) == /\ objs' = os
              /\ out' = [st |-> "ok", x |-> x, objs |-> os, eq |-> Same(os)]
Changed(i, path, new) == TLCEval([objs EXCEPT ![i] = LSet(objs[i], path, new)])

Make(o) == /\ o.op = "make"
           /\ UNCHANGED <<docs, files>>
           /\ Now(Append(objs, o.p), "")
Text(o) == /\ o.op = "text" /\ o.i <= Len(objs)
           /\ docs' = Append(docs, Encode(objs[o.i])) /\ UNCHANGED files
           /\ Now(objs, "")
Revive(o) == /\ o.op = "revive" /\ o.d <= Len(docs)
             /\ UNCHANGED <<docs, files>>
             /\ Now(Append(objs, Decode(docs[o.d])), "")
Write(o) == /\ o.op = "write" /\ o.i <= Len(objs)
            /\ files' = [f \in DOMAIN files \cup {o.file} |->
                          IF f = o.file THEN [p |-> objs[o.i], n |-> o.n] ELSE files[f]]
            /\ UNCHANGED docs
            /\ Now(objs, "")
Read(o) == /\ o.op = "read" /\ o.file \in DOMAIN files
           /\ UNCHANGED <<docs, files>>
           /\ Now(Append(objs, files[o.file].p), files[o.file].n)
\* An assignment to free_default or default_validate
Set(o) == /\ o.op = "set" /\ o.i <= Len(objs) /\ HasPath(objs[o.i], o.path)
          /\ o.field = "dv" => LAt(objs[o.i], o.path).k \notin {"dict", "parr"}
          /\ UNCHANGED <<docs, files>>
          /\ Now(Changed(o.i, o.path, [LAt(objs[o.i], o.path) EXCEPT ![o.field] = o.val]), "")
\* A member of a dictionary: a new key goes last, a known one keeps its place
IsDict(o) == IF HasPath(objs[o.i], o.path) THEN LAt(objs[o.i], o.path).k = "dict" ELSE FALSE
WithMember(q, key, sub) ==
  LET w == KeyPos(q.keys, key)
  IN  IF w = 0 THEN [q EXCEPT !.keys = Append(@, key), !.subs = Append(@, sub)]
      ELSE [q EXCEPT !.subs[w] = sub]
WithoutMember(q, w) == [q EXCEPT !.keys = Without(@, w), !.subs = Without(@, w)]
\* A dictionary that is a member of another one is locked.
Refuse(st) == objs' = objs /\ out' = [st |-> st, x |-> "", objs |-> objs, eq |-> Same(objs)]
Put(o) == /\ o.op = "put" /\ o.i <= Len(objs) /\ IsDict(o)
          /\ UNCHANGED <<docs, files>>
          /\ IF o.path # <<>> THEN Refuse("ValueError")
             ELSE Now(Changed(o.i, o.path, WithMember(LAt(objs[o.i], o.path), o.key, o.p)), "")
Drop(o) == /\ o.op = "drop" /\ o.i <= Len(objs) /\ IsDict(o)
           /\ UNCHANGED <<docs, files>>
           /\ LET q == LAt(objs[o.i], o.path)
                  w == KeyPos(q.keys, o.key)
              IN  IF o.path # <<>> THEN Refuse("ValueError")
                  ELSE IF w = 0 THEN Refuse("KeyError")
                  ELSE Now(Changed(o.i, o.path, WithoutMember(q, w)), "")
LStep(o) == /\ last' = o /\ UNCHANGED fixed
            /\ (Make(o) \/ Text(o) \/ Revive(o) \/ Write(o) \/ Read(o) \/ Set(o) \/ Put(o) \/ Drop(o))

----------------------------------------------------------------------------
Fresh == [][Len(objs') >= Len(objs) /\ \A j \in 1..Len(objs) :
              objs'[j] # objs[j] => last'.op \in {"set", "put", "drop"} /\ last'.i = j]_lvars
Kept == [][/\ Len(docs') >= Len(docs) /\ \A d \in 1..Len(docs) : docs'[d] = docs[d]
           /\ \A f \in DOMAIN files : f \in DOMAIN files' /\
                (files'[f] # files[f] => last'.op = "write" /\ last'.file = f)]_lvars
\* decoding what was just written gives an equal object
Revived == last.op = "revive" => SamePat(objs[Len(objs)], Decode(docs[last.d]))
Equivalence == \A i, j \in 1..Len(objs) :
                 /\ SamePat(objs[i], objs[i])
                 /\ SamePat(objs[i], objs[j]) = SamePat(objs[j], objs[i])
=============================================================================
