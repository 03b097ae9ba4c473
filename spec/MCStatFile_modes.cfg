SPECIFICATION Spec
CONSTANTS N = 3 IV = 2 CREATE = 4 TMAX = 11 KIND = "gauge" FIXED = 0 CMAX = 4
MODES = {"agg","overwrite","fill","onlyempty"}
VALS = {1, 2}
INVARIANTS RingIsMap NothingOld FirstInWindow Totals ReadAll ReadTooEarly
PROPERTIES Forward Refusal
CHECK_DEADLOCK FALSE
