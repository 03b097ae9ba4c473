SPECIFICATION Spec
CONSTANTS
 NS = 2
 NC = 2
 NF = 1
 NB = 1
 ATOMIC = TRUE
 EARLIER = TRUE
 IDENT = TRUE
 ONE = TRUE
INVARIANTS AtMostOnce NothingVanishes IdentFirst LostOnlyByBreaks FlushMeansWritten
PROPERTY Answered
CHECK_DEADLOCK FALSE
