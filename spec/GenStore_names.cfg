SPECIFICATION Spec
CONSTANTS
 DEPTH = 45
 MODES = {"rec", "flat"}
 THREADS = TRUE
 PROFILE = "names"
CHECK_DEADLOCK FALSE
