SPECIFICATION Spec
INVARIANTS CountIs DerivativesOk
CHECK_DEADLOCK FALSE
