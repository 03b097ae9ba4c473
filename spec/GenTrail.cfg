SPECIFICATION Spec
CONSTANTS
 DEPTH = 30
CHECK_DEADLOCK FALSE
