SPECIFICATION Spec
CONSTANTS
 NR = 2
 BYTES = 2
 NTHREADS = 2
 LOCK = TRUE
 CATCH = TRUE
 BYNAME = TRUE
 LAST = TRUE
INVARIANTS Once Whole EachKey
PROPERTY Answered
CHECK_DEADLOCK FALSE
