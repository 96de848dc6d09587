SPECIFICATION Spec
INVARIANTS CalledOnce Result Cancel
CHECK_DEADLOCK FALSE
