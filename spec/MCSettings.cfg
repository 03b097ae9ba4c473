SPECIFICATION Spec
CONSTANTS
 N = 3
 ATOMIC = TRUE
 CHECK = TRUE
 KEEP = TRUE
 RETRY = TRUE
INVARIANTS Whole OldOrNew ReadBack Kept
CHECK_DEADLOCK FALSE
