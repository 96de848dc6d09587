SPECIFICATION Spec
INVARIANTS FreshAlone
PROPERTIES CallsChangeNothing WritesAreLocal
CHECK_DEADLOCK FALSE
