SPECIFICATION Spec
INVARIANTS RoundTrip Lengths FreeFoldsValid Concatenation Selection OwnDefault JacobiansRight ChainRule LogDetRight
CHECK_DEADLOCK FALSE
