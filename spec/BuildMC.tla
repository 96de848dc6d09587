------------------------------- MODULE BuildMC -------------------------------
(* Every history of the requested operations that builds at most Req.max      *)
(* objects.  Every transition is emitted.                                     *)
EXTENDS Build
Req == JsonDeserialize(IOEnv.REQ)
Ops == Req.ops
Init == s = <<>> /\ last = NoOp /\ out = Ok("")
Next == \E i \in 1..Len(Ops) :
          /\ Ops[i].op = "make" => Len(s) < Req.max
          /\ Step(Ops[i])
          /\ PrintT(ToJson([f |-> s, i |-> i, out |-> out', t |-> s']))
Spec == Init /\ [][Next]_bvars
View == <<s, IF last.op = "use" THEN last ELSE NoOp>>
=============================================================================
