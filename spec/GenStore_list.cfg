SPECIFICATION Spec
CONSTANTS
 DEPTH = 45
 MODES = {"rec", "flat"}
 THREADS = TRUE
 PROFILE = "list"
CHECK_DEADLOCK FALSE
