import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
from vp.trace import *


def hx(n):
    return bytes(n).hex() or "-"


def lines(prog):
    out = []
    now = 1000000200
    for o in prog:
        k = o["o"]
        if k == "new": out.append("new %d %d %d" % (o["fw"], o["bl"], o["store"]))
        elif k == "now":
            now += o["d"]
            out.append("now %d" % now)
        elif k == "conn": out.append("conn %d" % o["i"])
        elif k in ("send", "sendclose"): out.append("%s %d %s" % (k, o["i"], hx(o["b"])))
        elif k in ("close", "rst"): out.append("%s %d" % (k, o["i"]))
        elif k == "udp": out.append("udp " + " ".join(hx(d) for d in o["ds"]))
        elif k in ("round", "check", "wait"):
            now += 400
            out.append(k)
        elif k == "sync": out.append("sync %d" % o["id"])
        elif k == "purge": out.append("purge %d %d" % (o["max"], o["age"]))
        elif k == "bl": out.append("bl %s %d %d" % (hx(o["d"]), o["sec"], o["ns"]))
        elif k in ("agents", "blrm", "down", "drop", "up"): out.append(k)
        elif k == "burst":
            def pieces(a):
                if a["i"] == 1000 or not o["cut"]:
                    return a["b"]
                # the same bytes in other pieces
                b = [x for s in a["b"] for x in s]
                n = o["cut"] * 7
                return [b[j:j + n] for j in range(0, len(b), n)]
            out.append("burst %d %s" % (o["servers"], " ".join("%d:%s" % (a["i"], ",".join(hx(p) for p in pieces(a))) for a in o["acts"]) +
                                          (" sync:" + ",".join(str(x) for x in o["ids"]) if o["ids"] else "")))
        elif k == "end": pass
        else: raise CheckError("unknown op %s" % o)
    return out


def behaviours(c, profile, num, salt, depth=40):
    exe = daemon_driver("drv_server")
    progs = [lines(p) for p in generate(c, "GenServer", cfg="GenServer_%s.cfg" % profile, num=num, depth=depth, shards=8, seed=c.seed * 10 + salt)]
    conform(c, "TraceServer", exe, progs, "server (" + profile + ")", retries=8)
    return exe


ASSUMED = ["values are multiples of 1/16 below 1e8 (compared exactly); integers beyond +-2e9 are compared only as 'large'",
           "times pass by moving a virtual clock and firing the timers due; simultaneous clients run as the machine schedules them"]


def senders(c):
    cfg = open(os.path.join(SPEC, "MCSenders.cfg")).read()
    if c.thorough:
        cfg = cfg.replace("STEPS = 5", "STEPS = 6")
    c.model_check("MCSenders", cfg, name="two senders and a list that changes")
    for const, inv in (("LATEST", "Known"), ("OWNLIST", "TurnedAway")):
        c.model_refutes("MCSenders", re.sub(r"INVARIANTS .*", "INVARIANTS " + inv, cfg.replace(const + " = TRUE", const + " = FALSE")), inv, const)
