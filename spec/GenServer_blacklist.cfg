SPECIFICATION Spec
CONSTANTS
 DEPTH = 34
 PROFILE = "blacklist"
CHECK_DEADLOCK FALSE
