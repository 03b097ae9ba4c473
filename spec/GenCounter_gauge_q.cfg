SPECIFICATION Spec
CONSTANTS W = 5 DEPTH = 50 KINDS = {"gauge"} QUERIES = TRUE
CHECK_DEADLOCK FALSE
