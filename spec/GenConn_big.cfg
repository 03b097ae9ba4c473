SPECIFICATION Spec
CONSTANTS
 DEPTH = 26
 PROFILE = "big"
CHECK_DEADLOCK FALSE
