SPECIFICATION Spec
INVARIANTS RoundTrip Lengths FreeFoldsValid Concatenation Selection OwnDefault
VIEW View
CHECK_DEADLOCK FALSE
