SPECIFICATION Spec
CONSTANTS N = 3 IV = 2 CREATE = 4 TMAX = 13 KIND = "agg" FIXED = 7 CMAX = 5
MODES = {"agg","fill"}
VALS = {1}
INVARIANTS RingIsMap NothingOld FirstInWindow Totals ReadAll ReadTooEarly
PROPERTIES Forward Refusal
CHECK_DEADLOCK FALSE
