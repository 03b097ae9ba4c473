SPECIFICATION Spec
CONSTANTS
 DEPTH = 45
 MODES = {"rec", "flat"}
 THREADS = TRUE
 PROFILE = "flush"
CHECK_DEADLOCK FALSE
