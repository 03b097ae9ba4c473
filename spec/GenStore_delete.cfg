SPECIFICATION Spec
CONSTANTS
 DEPTH = 45
 MODES = {"rec", "flat"}
 THREADS = TRUE
 PROFILE = "delete"
CHECK_DEADLOCK FALSE
