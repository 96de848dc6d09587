SPECIFICATION Spec
INVARIANTS Linear Total MultiplyBack LogDetRight
CHECK_DEADLOCK FALSE
