SPECIFICATION Spec
INVARIANTS JsonFaithful EqualReflexive EqualSymmetric EqualIsEncode LoadsValid
PROPERTIES Refused OneFile NeverForgotten
VIEW View
CHECK_DEADLOCK FALSE
