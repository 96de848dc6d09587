SPECIFICATION Spec
CONSTANT Leaf <- Leaf0
INVARIANTS TypeOK NestedLocked Acyclic Sums
PROPERTIES Frozen RefusedUnchanged OrderKept
CHECK_DEADLOCK FALSE
