------------------------------ MODULE OrigamiMC ------------------------------
(* Exhaustive exploration: every order of the requested operations, from     *)
(* every combination of settings they can reach.  After a query the          *)
(* behaviour stops (queries leave the settings alone), after an assignment   *)
(* it goes on, so every query is asked in every state and every outcome is   *)
(* a state that the invariants see.  Every transition is emitted as          *)
(* [f, i, out]: settings before, operation number, outcome.                  *)
EXTENDS Origami
Req == JsonDeserialize(IOEnv.REQ)
Ops == Req.ops

RECURSIVE Sett(_)
\* The settings of all nodes, in preorder.
Sett(q) ==
  CASE q.k = "dict" -> <<<<q.fd>>>> \o FlatSeq(Tab(Len(q.subs), LAMBDA i : Sett(q.subs[i])))
    [] q.k = "parr" -> <<<<q.fd>>>> \o Sett(q.base)
    [] OTHER -> <<<<q.fd, q.dv>>>>

Init == p = Req.p /\ last = NoOp /\ out = Ok("")
Setting(o) == o.op \in {"none", "setfd", "setdv"}
Next == /\ Setting(last)
        /\ \E i \in 1..Len(Ops) :
             /\ Step(Ops[i])
             /\ PrintT(ToJson([f |-> Sett(p), i |-> i, out |-> out']))
Spec == Init /\ [][Next]_svars
View == IF Setting(last) THEN <<p, NoOp>> ELSE <<p, last>>
=============================================================================
