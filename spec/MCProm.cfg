SPECIFICATION Spec
CONSTANTS
 NF = 3
 NADD = 1
 TMAX = 2
 LOCK = TRUE
 KEEP = TRUE
INVARIANTS Sum NeverLess RecentShown EachOnce
CHECK_DEADLOCK FALSE
