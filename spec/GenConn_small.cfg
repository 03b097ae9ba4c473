SPECIFICATION Spec
CONSTANTS
 DEPTH = 26
 PROFILE = "small"
CHECK_DEADLOCK FALSE
