SPECIFICATION Spec
INVARIANTS LogFaithful LogOrdered CountIs
VIEW View
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
