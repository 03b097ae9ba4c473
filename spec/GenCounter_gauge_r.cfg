SPECIFICATION Spec
CONSTANTS W = 5 DEPTH = 50 KINDS = {"gauge"} QUERIES = FALSE
CHECK_DEADLOCK FALSE
