SPECIFICATION Spec
INVARIANTS Revived Equivalence
PROPERTIES Fresh Kept
VIEW View
CHECK_DEADLOCK FALSE
