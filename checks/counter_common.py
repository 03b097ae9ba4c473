import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
from vp.trace import *


def lines(prog):
    out = []
    for o in prog:
        k = o["o"]
        if k == "now": out.append("now %d" % o["t"])
        elif k == "new": out.append("new %s %d %s" % (o["kind"], o["zero"], ",".join("%d:%d" % (p["iv"], p["n"]) for p in o["pol"])))
        elif k == "rec":
            d = o["d"]
            out.append("rec %d %d %d %d %d %d" % (d["t"], d["s"], d["q"], d["mn"], d["mx"], d["c"]))
        elif k == "evt": out.append("evt %d %d" % (o["t"], o["v"]))
        elif k == "sel": out.append("sel %d %d %d" % (o["s"], o["e"], o["max"]))
        elif k == "reopenswap": out.append("reopen swap")
        elif k in ("flush", "force", "reopen"): out.append(k)
        elif k == "end": pass
        else: raise CheckError("unknown op %s" % o)
    return out
