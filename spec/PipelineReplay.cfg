SPECIFICATION Spec
INVARIANTS LogFaithful RoundTrip NewtonStep InverseRoot ChainRule
CHECK_DEADLOCK FALSE
