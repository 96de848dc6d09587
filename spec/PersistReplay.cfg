SPECIFICATION Spec
INVARIANTS JsonFaithful EqualReflexive EqualSymmetric EqualIsEncode LoadsValid
PROPERTIES Refused OneFile NeverForgotten
CHECK_DEADLOCK FALSE
