------------------------------ MODULE PersistMC ------------------------------
(* Every history of the requested operations.                                 *)
EXTENDS Persist
Req == JsonDeserialize(IOEnv.REQ)
Ops == Req.ops
Empty == [x \in {} |-> 0]
Init == reg = Empty /\ store = Empty /\ last = NoOp /\ out = Ok("")
St(r, s) == [r |-> r, s |-> [f \in DOMAIN s |-> s[f].n]]
Next == \E i \in 1..Len(Ops) :
          /\ Step(Ops[i])
          /\ PrintT(ToJson([f |-> St(reg, store), i |-> i, out |-> out', t |-> St(reg', store')]))
Spec == Init /\ [][Next]_pvars
View == <<reg, store>>
=============================================================================
