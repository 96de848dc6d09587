SPECIFICATION Spec
INVARIANTS LogFaithful LogOrdered CountIs DerivativesOk
CHECK_DEADLOCK FALSE
