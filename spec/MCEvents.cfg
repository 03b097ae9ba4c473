SPECIFICATION Spec
CONSTANTS W = 3 TMAX = 58 CMAX = 5 N = 40
INVARIANTS Conserved InWindow
PROPERTIES Settled FlushedOld Bounded
CHECK_DEADLOCK FALSE
