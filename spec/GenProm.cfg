SPECIFICATION Spec
CONSTANTS
 DEPTH = 18
CHECK_DEADLOCK FALSE
