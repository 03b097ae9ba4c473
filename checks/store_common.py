import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
from vp.trace import *


def hx(n):
    return bytes(n).hex() or "-"


def lines(prog):
    out = []
    for o in prog:
        k = o["o"]
        if k == "new": out.append("new %s %d%s" % (o["mode"], o["agg"], " watched" if o["watched"] else ""))
        elif k == "now": out.append("now %d" % o["t"])
        elif k in ("rec", "use"):
            d = o["d"]
            out.append("%s %s %d %d %d %d %d %d" % (k, hx(o["n"]), o["t"], d["v"], d["q"], d["mn"], d["mx"], d["c"]))
        elif k == "hold": out.append("hold " + hx(o["n"]))
        elif k == "poll": out.append("poll %d" % o["k"])
        elif k == "flush": out.append("flush %d" % o["id"])
        elif k == "del": out.append("del %d %s" % (o["id"], hx(o["n"])))
        elif k == "delpat": out.append("delpat %d %s" % (o["id"], hx(o["p"])))
        elif k == "list": out.append("list " + hx(o["p"]))
        elif k == "race": out.append("race %s %d %d" % (hx(o["n"]), o["t"], o["v"]))
        elif k == "burst":
            def one(x):
                return {"r": "r/%s/%d/%d" % (hx(x["n"]), x["t"], x["v"]), "d": "d/" + hx(x["n"])}.get(x["x"], x["x"])
            out.append("burst %d %s" % (o["servers"], " ".join(",".join(one(x) for x in s) for s in o["scripts"])))
        elif k in ("prune", "settle", "restart", "crash"): out.append(k)
        elif k == "end": pass
        else: raise CheckError("unknown op %s" % o)
    return out


def design(c, invariants, refute):
    """The concurrent design of the store; `refute`: (constant, invariant) that fails without that mechanism."""
    cfg = open(os.path.join(SPEC, "MCStore.cfg")).read()
    cfg = re.sub(r"INVARIANTS .*", "INVARIANTS NoWait " + invariants, cfg)
    if not c.thorough:
        cfg = cfg.replace("MAXREC = 4", "MAXREC = 3")
    c.model_check("MCStore", cfg, name="concurrent store")
    for const, inv in refute:
        c.model_refutes("MCStore", re.sub(r"INVARIANTS .*", "INVARIANTS " + inv, cfg.replace(const + " = TRUE", const + " = FALSE")), inv, const)


def behaviours(c, profile, num, salt):
    exe = daemon_driver("drv_store")
    progs = [lines(p) for p in generate(c, "GenStore", cfg="GenStore_%s.cfg" % profile, num=num, depth=50, shards=8, seed=c.seed * 10 + salt)]
    conform(c, "TraceStore", exe, progs, "store (" + profile + ")", retries=12)
    c.assumptions += ["one retention policy (10s:1h,5m:4h); values are small integers, exact in float",
                      "a crash is a copy of the store's directory between two operations (torn writes are C02's)",
                      "schedules with several threads are those the machine produced, not enumerated"]
    return exe
