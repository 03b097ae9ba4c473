SPECIFICATION Spec
CONSTANTS
 ADDERS = {a1, a2}
 SAMPLERS = {s1, s2}
 K = 3
 ROUNDS = 3
 ATOMIC = TRUE
 SEIZE = "swap"
 KEEP = TRUE
INVARIANTS NoneLost NotTwice
CHECK_DEADLOCK FALSE
