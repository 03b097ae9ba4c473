SPECIFICATION Spec
CONSTANTS
 N = 4
 SEASON = 3
 TMAX = 9
 OPS = 6
 TIMECHECK = TRUE
 GUARD = TRUE
 CLOSE = TRUE
INVARIANTS NothingLost OwnSeason OwnPlace Inside GoneOnlyByGap
CHECK_DEADLOCK FALSE
