SPECIFICATION Spec
CONSTANTS
 DEPTH = 14
CHECK_DEADLOCK FALSE
