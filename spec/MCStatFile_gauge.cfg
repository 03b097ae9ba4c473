SPECIFICATION Spec
CONSTANTS N = 3 IV = 2 CREATE = 4 TMAX = 13 KIND = "gauge" FIXED = 0 CMAX = 6
MODES = {"agg"}
VALS = {1}
INVARIANTS RingIsMap NothingOld FirstInWindow Totals ReadAll ReadTooEarly
PROPERTIES Forward Refusal
CHECK_DEADLOCK FALSE
