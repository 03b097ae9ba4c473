SPECIFICATION Spec
CONSTANTS W = 5 TMAX = 27 CMAX = 4
INVARIANTS Stored
CHECK_DEADLOCK FALSE
