------------------------------ MODULE DictLifeMC ------------------------------
(* Every history over a fixed number of dictionaries, keys and leaves.        *)
EXTENDS DictLife
Req == JsonDeserialize(IOEnv.REQ)
N == Req.dicts
Keys == {Req.keys[i] : i \in 1..Len(Req.keys)}
NL == Len(Req.leaves)
Leaf0(n) == Req.leaves[n]
Refs == {<<"l", n>> : n \in 1..NL} \cup {<<"d", i>> : i \in 1..N}
Fresh == [keys |-> <<>>, refs |-> <<>>, locked |-> FALSE, fd |-> "N"]
Init == h = [i \in 1..N |-> Fresh] /\ last = NoOp /\ out = Ok("")
Ops == {[op |-> "set", i |-> i, key |-> x, ref |-> r] : i \in 1..N, x \in Keys, r \in Refs}
       \cup {[op |-> o, i |-> i, key |-> x] : o \in {"del", "get"}, i \in 1..N, x \in Keys}
       \cup {[op |-> o, i |-> i] : o \in {"lock", "look"}, i \in 1..N}
Next == \E o \in Ops : /\ Step(o)
                       /\ PrintT(ToJson([f |-> h, o |-> o, out |-> out', t |-> h', n |-> Sizes(h')]))
Spec == Init /\ [][Next]_dvars
View == h
=============================================================================
