SPECIFICATION Spec
CONSTANTS W = 5 DEPTH = 50 KINDS = {"event"} QUERIES = FALSE
CHECK_DEADLOCK FALSE
