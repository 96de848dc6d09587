-------------------------------- MODULE LiveMC --------------------------------
(* Every history of the requested operations with a bounded number of objects  *)
(* and documents.                                                              *)
EXTENDS Live
Req == JsonDeserialize(IOEnv.REQ)
Ops == Req.ops
Empty == [x \in {} |-> 0]
Init == /\ last = NoOp /\ out = Ok("")
        /\ objs = <<>> /\ docs = <<>> /\ files = Empty /\ reg = Empty /\ store = Empty
Next == \E i \in 1..Len(Ops) :
          /\ LStep(Ops[i])
          /\ Len(objs') <= Req.maxobjs /\ Len(docs') <= Req.maxdocs
          /\ PrintT(ToJson([f |-> <<objs, docs, files>>, i |-> i, out |-> out',
                            t |-> <<objs', docs', files'>>]))
Spec == Init /\ [][Next]_<<lvars, fixed>>
View == <<objs, docs, files>>
=============================================================================
