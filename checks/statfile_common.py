import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
from vp.trace import *


def lines(prog):
    out = []
    for o in prog:
        k = o["o"]
        if k == "now": out.append("now %d" % o["t"])
        elif k == "open": out.append("open %d %d %d %s %d" % (o["zero"], o["iv"], o["want"], o["kind"], o["fixed"]))
        elif k == "upd":
            d = o["d"]
            out.append("upd %d %d %d %d %d %d %s" % (d["t"], d["s"], d["q"], d["mn"], d["mx"], d["c"], o["mode"]))
        elif k == "read": out.append("read %d %d" % (o["from"], o["cnt"]))
        elif k == "bucket": out.append("bucket %d" % o["i"])
        elif k == "map": out.append("map %d" % o["t"])
        elif k == "reopen": out.append("reopen plain")
        elif k == "reopeninit": out.append("reopen init")
        elif k in ("flush", "crash"): out.append(k)
        elif k == "ro": out.append("ro %d" % o["t"])
        elif k == "damage": out.append("damage " + o["how"])
        elif k == "rcum": out.append("rcum %d" % o["t"])
        elif k == "arm": out.append("arm %d" % o["k"])
        elif k == "trunc": out.append("trunc %d" % o["k"])
        else: raise CheckError("unknown op %s" % o)
    return out
