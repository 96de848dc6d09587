SPECIFICATION Spec
INVARIANTS Revived Equivalence
PROPERTIES Fresh Kept
CHECK_DEADLOCK FALSE
