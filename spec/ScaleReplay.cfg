SPECIFICATION Spec
INVARIANTS InsideOk BackOk SlopesOk
CHECK_DEADLOCK FALSE
