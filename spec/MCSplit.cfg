SPECIFICATION Spec
CONSTANTS
 NT = 2
 K = 2
 FIRST = TRUE
 DRAIN = TRUE
 TELL = TRUE
INVARIANTS ClientsBytes FirstOnly LastBytes
PROPERTIES AllReached Arrives
CHECK_DEADLOCK FALSE
