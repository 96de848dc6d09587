------------------------------- MODULE Persist -------------------------------
(* Everything about keeping patterns: their JSON form, equality, the registry *)
(* of types, and files of folded values.  Decides C09 and C10.                *)
EXTENDS Patterns, Json, IOUtils

VARIABLES reg,      \* type name -> number of the class registered last
          store,    \* file -> [p, v, data] of the last save
          last, out
pvars == <<reg, store, last, out>>
NoOp == [op |-> "none"]

\* ------------------------------------------------------------- JSON form
TypeOf(p) == CASE p.k = "num" -> (CASE p.cls = "arr" -> "NumericArrayPattern"
                                    [] p.cls = "vec" -> "NumericVectorPattern"
                                    [] p.cls = "sca" -> "NumericScalarPattern")
               [] p.k = "psd" -> "PSDSymmetricMatrixPattern"
               [] p.k = "sim" -> "SimplexArrayPattern"
               [] p.k = "dict" -> "PatternDict"
               [] p.k = "parr" -> "PatternArray"

RECURSIVE Encode(_), Decode(_)
\* The document: type and describing settings; members are documents.
Encode(p) ==
  CASE p.k = "num" -> [type |-> TypeOf(p), sh |-> p.sh, lo |-> p.lo, hi |-> p.hi,
                       dv |-> p.dv, fd |-> p.fd]
    [] p.k = "psd" -> [type |-> TypeOf(p), n |-> p.n, lb |-> p.lb, dv |-> p.dv, fd |-> p.fd]
    [] p.k = "sim" -> [type |-> TypeOf(p), n |-> p.n, sh |-> p.sh, dv |-> p.dv, fd |-> p.fd]
    [] p.k = "dict" -> [type |-> TypeOf(p), keys |-> p.keys, fd |-> p.fd,
                        contents |-> Tab(Len(p.subs), LAMBDA i : Encode(p.subs[i]))]
    [] p.k = "parr" -> [type |-> TypeOf(p), sh |-> p.sh, fd |-> p.fd, base |-> Encode(p.base)]
Cls(t) == IF t = "NumericArrayPattern" THEN "arr"
          ELSE IF t = "NumericVectorPattern" THEN "vec" ELSE "sca"
Decode(d) ==
  CASE d.type \in {"NumericArrayPattern", "NumericVectorPattern", "NumericScalarPattern"} ->
         [k |-> "num", cls |-> Cls(d.type), sh |-> d.sh, lo |-> d.lo, hi |-> d.hi,
          dv |-> d.dv, fd |-> d.fd]
    [] d.type = "PSDSymmetricMatrixPattern" ->
         [k |-> "psd", n |-> d.n, lb |-> d.lb, dv |-> d.dv, fd |-> d.fd]
    [] d.type = "SimplexArrayPattern" ->
         [k |-> "sim", n |-> d.n, sh |-> d.sh, dv |-> d.dv, fd |-> d.fd]
    [] d.type = "PatternDict" ->
         [k |-> "dict", keys |-> d.keys, fd |-> d.fd,
          subs |-> Tab(Len(d.contents), LAMBDA i : Decode(d.contents[i]))]
    [] d.type = "PatternArray" ->
         [k |-> "parr", sh |-> d.sh, fd |-> d.fd, base |-> Decode(d.base)]

Keep == reg' = reg /\ store' = store

\* p.to_json decoded by its own class or through the registry
RoundJson(o) == /\ o.op = "json" /\ Keep /\ last' = o
                /\ out' = Ok(Decode(Encode(o.p)))
\* cls.from_json(p.to_json())
FromJson(o) == /\ o.op = "fromjson" /\ Keep /\ last' = o
               /\ out' = IF TypeOf(o.p) = o.cls THEN Ok(Decode(Encode(o.p)))
                         ELSE Err("ValueError")
Equal(o) == /\ o.op = "eq" /\ Keep /\ last' = o
            /\ out' = Ok(SamePat(o.p, o.q))

\* ---------------------------------------------------------- type registry
Registered(n) == n \in DOMAIN reg
Register(o) ==
  /\ o.op = "register" /\ store' = store /\ last' = o
  /\ IF Registered(o.name) /\ ~o.overwrite
     THEN reg' = reg /\ out' = Err("ValueError")
     ELSE /\ reg' = [n \in DOMAIN reg \cup {o.name} |-> IF n = o.name THEN o.cls ELSE reg[n]]
          /\ out' = Ok("")
\* Decoding a document of the named type ("" for a document without a type)
DecodeName(o) ==
  /\ o.op = "decode" /\ Keep /\ last' = o
  /\ out' = IF o.name = "" \/ ~Registered(o.name) THEN Err("KeyError") ELSE Ok(reg[o.name])

\* ----------------------------------------------------------------- files
\* A file is <<name, spelling>>: the extension may be written or left out.
FileOf(f) == f[1]
Save(o) ==
  /\ o.op = "save" /\ reg' = reg /\ last' = o
  /\ IF ~Valid(o.p, o.v, "N")
     THEN store' = store /\ out' = Err("ValueError")
     ELSE /\ store' = [f \in DOMAIN store \cup {FileOf(o.file)} |->
                        IF f = FileOf(o.file) THEN [p |-> o.p, v |-> o.v, data |-> o.data, n |-> o.n]
                        ELSE store[f]]
          /\ out' = Ok("")
Load(o) ==
  /\ o.op = "load" /\ Keep /\ last' = o
  /\ out' = IF FileOf(o.file) \in DOMAIN store THEN Ok(store[FileOf(o.file)]) ELSE Err("missing")

Step(o) == RoundJson(o) \/ FromJson(o) \/ Equal(o) \/ Register(o) \/ DecodeName(o)
           \/ Save(o) \/ Load(o)

----------------------------------------------------------------------------
\* C09
JsonFaithful == last.op = "json" => SamePat(out.x, last.p)
EqualReflexive == last.op = "eq" /\ last.p = last.q => out.x
EqualSymmetric == last.op = "eq" => out.x = SamePat(last.q, last.p)
EqualIsEncode == last.op = "eq" => out.x = (Encode(last.p) = Encode(last.q))
\* C10: what is loaded is what was saved last, and was valid
LoadsValid == last.op = "load" /\ out.st = "ok" => Valid(out.x.p, out.x.v, "N")

Refused == [][out'.st # "ok" => reg' = reg /\ store' = store]_pvars
OneFile == [][\A f \in DOMAIN store :
                /\ f \in DOMAIN store'
                /\ store'[f] # store[f] => last'.op = "save" /\ FileOf(last'.file) = f]_pvars
NeverForgotten == [][\A n \in DOMAIN reg :
                /\ n \in DOMAIN reg'
                /\ reg'[n] # reg[n] => last'.op = "register" /\ last'.overwrite]_pvars
=============================================================================
