SPECIFICATION Spec
INVARIANTS Legal Coherent
PROPERTIES Kept RefusedUnchanged
CHECK_DEADLOCK FALSE
