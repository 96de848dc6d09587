SPECIFICATION Spec
INVARIANTS Recurrence Reciprocal
CHECK_DEADLOCK FALSE
