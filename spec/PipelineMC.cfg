SPECIFICATION Spec
INVARIANTS LogFaithful RoundTrip NewtonStep InverseRoot ChainRule
VIEW View
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
