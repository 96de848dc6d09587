SPECIFICATION Spec
INVARIANTS Alone
PROPERTIES Inner
CHECK_DEADLOCK FALSE
