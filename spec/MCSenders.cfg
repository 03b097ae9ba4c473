SPECIFICATION Spec
CONSTANTS
 CONNS = {1, 2}
 STEPS = 5
 LATEST = TRUE
 OWNLIST = TRUE
INVARIANTS TurnedAway Known
VIEW View
CHECK_DEADLOCK FALSE
