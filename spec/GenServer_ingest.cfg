SPECIFICATION Spec
CONSTANTS
 DEPTH = 24
 PROFILE = "ingest"
CHECK_DEADLOCK FALSE
