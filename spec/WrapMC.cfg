SPECIFICATION Spec
INVARIANTS LoopAgrees CalledOnce Finished RefusedOnlyIfWrong
CHECK_DEADLOCK FALSE
