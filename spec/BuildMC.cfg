SPECIFICATION Spec
INVARIANTS Legal Coherent
PROPERTIES Kept RefusedUnchanged
VIEW View
CHECK_DEADLOCK FALSE
