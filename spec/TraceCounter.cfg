SPECIFICATION Spec
CONSTANT W = 5
INVARIANT Accepted
CHECK_DEADLOCK FALSE
