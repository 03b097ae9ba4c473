SPECIFICATION Spec
CONSTANTS
 DEPTH = 34
 PROFILE = "agents"
CHECK_DEADLOCK FALSE
