SPECIFICATION Spec
CONSTANTS SIZES = {512, 1280} DEPTH = 60 CRASHES = TRUE
CHECK_DEADLOCK FALSE
