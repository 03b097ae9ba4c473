SPECIFICATION Spec
CONSTANTS
 NL = 4
 NB = 2
 LIMIT = 5
 IDENT = TRUE
 LATE = TRUE
 WHOLE = TRUE
 FORGET = TRUE
INVARIANTS IdentFirst WholeLines AtMostOnce InOrder NothingVanishes LostOnlySo Bounded
PROPERTY Delivered
CHECK_DEADLOCK FALSE
