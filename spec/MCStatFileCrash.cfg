SPECIFICATION Spec
CONSTANTS N = 2 IV = 2 CREATE = 4 TMAX = 9 KIND = "gauge" CMAX = 7
INVARIANTS Allowed Durable Sane
CHECK_DEADLOCK FALSE
