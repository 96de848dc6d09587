SPECIFICATION Spec
INVARIANTS FreshAlone
PROPERTIES CallsChangeNothing WritesAreLocal
VIEW View
CHECK_DEADLOCK FALSE
