import itertools
from store_common import *


def check(c):
    design(c, "Listed ListedExactly", [('GUARD', 'Listed')])
    exe = behaviours(c, "list", c.pick(900, 20000), 4)
    # the pattern language, exhaustively on short strings and patterns
    strs = [""] + ["".join(p) for n in (1, 2, 3, 4) for p in itertools.product("ab.", repeat=n)]
    pats = ["".join(p) for n in range(0, c.pick(4, 5)) for p in itertools.product("ab.*?", repeat=n)]
    h = lambda s: s.encode().hex() or "-"
    ss = " ".join(h(s) for s in strs)
    progs = [["match %s %s" % (h(p), ss) for p in pats[k:k + 4]] for k in range(0, len(pats), 4)]
    progs += [["munge " + "".join("%02x" % b for b in range(k, k + 16)) for k in range(0, 256, 16)]]
    conform(c, "TraceStore", exe, progs, "patterns", deterministic=True)
    c.cov["patterns_exhaustive"] = {"patterns": len(pats), "strings": len(strs)}


main(check, "C17")
