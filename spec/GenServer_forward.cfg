SPECIFICATION Spec
CONSTANTS
 DEPTH = 34
 PROFILE = "forward"
CHECK_DEADLOCK FALSE
