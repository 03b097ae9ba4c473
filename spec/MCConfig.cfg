SPECIFICATION Spec
CONSTANTS
 LENGTH = 6
 NMAX = 100000
 WHOLE = TRUE
INVARIANTS SumOfParts ReadsBack Coarser Long Taken LastWins AsFile
CHECK_DEADLOCK FALSE
