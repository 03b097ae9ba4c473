SPECIFICATION Spec
CONSTANTS
 DEPTH = 20
CHECK_DEADLOCK FALSE
