SPECIFICATION Spec
CONSTANTS
 DEPTH = 26
 PROFILE = "faults"
CHECK_DEADLOCK FALSE
