SPECIFICATION Spec
CONSTANTS
 ALPHABET = {97, 49, 32, 10, 35, 94}
 LENGTH = 6
 KEEP = TRUE
INVARIANTS SameHoweverCut NamesExpanded
CHECK_DEADLOCK FALSE
