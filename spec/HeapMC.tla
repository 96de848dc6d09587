--------------------------------- MODULE HeapMC ---------------------------------
(* Every history over the requested operations with at most Req.max objects.     *)
EXTENDS Heap
Req == JsonDeserialize(IOEnv.REQ)
Ops == Req.ops
Init == objs = <<>> /\ last = NoOp /\ out = [st |-> "ok"]
Next == \E i \in 1..Len(Ops) :
          /\ Step(Ops[i])
          /\ out'.st = "ok"
          /\ Len(objs') <= Req.max
          /\ PrintT(ToJson([f |-> objs, i |-> i, out |-> out', t |-> objs']))
Spec == Init /\ [][Next]_hvars
View == objs
=================================================================================
