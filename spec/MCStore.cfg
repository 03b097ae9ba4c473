SPECIFICATION Spec
CONSTANTS
 NAMES = {n1, n2}
 ACTORS = {a1, a2}
 GUARD = TRUE
 PURGED = TRUE
 MAXREC = 4
 MAXDEL = 2
 MAXFLUSH = 1
SYMMETRY Sym
INVARIANTS Listed ListedExactly OwnFiles OnlyDeleted AllDeleted Recorded FlushKept NoWait
