SPECIFICATION Spec
CONSTANTS SIZES = {512, 1280} DEPTH = 60 CRASHES = FALSE
CHECK_DEADLOCK FALSE
