SPECIFICATION Spec
CONSTANTS W = 5 DEPTH = 50 KINDS = {"event"} QUERIES = TRUE
CHECK_DEADLOCK FALSE
