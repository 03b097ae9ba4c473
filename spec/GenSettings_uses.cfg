SPECIFICATION Spec
CONSTANTS
 DEPTH = 26
 PROFILE = "uses"
CHECK_DEADLOCK FALSE
