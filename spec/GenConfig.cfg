SPECIFICATION Spec
CONSTANTS
 DEPTH = 24
CHECK_DEADLOCK FALSE
