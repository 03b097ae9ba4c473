SPECIFICATION Spec
CONSTANTS W = 5 SMAX = 40 LMAX = 2 BMAX = 3
INVARIANTS Covers AlignedOK Limited Lossless
CHECK_DEADLOCK FALSE
