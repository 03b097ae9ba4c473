import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
from vp.trace import *


def lines(prog):
    out = []
    for o in prog:
        k = o["o"]
        if k == "topen": out.append("topen %d %d %d %s %d %d %d" % (o["zero"], o["iv"], o["want"], o["kind"], o["fixed"], o["season"], o["lam"]))
        elif k == "tupd": out.append("tupd %d %d %d %d %d %d" % (o["t"], o["s"], o["q"], o["mn"], o["mx"], o["c"]))
        elif k == "reopen": out.append("reopen plain")
        elif k == "reopeninit": out.append("reopen init")
        elif k == "end": pass
        else: out.append(k)
    return out


def check(c):
    cfg = open(os.path.join(SPEC, "MCTrail.cfg")).read()
    for s in (1, 3, 4):
        c.model_check("MCTrail", cfg.replace("SEASON = 3", "SEASON = %d" % s).replace("OPS = 6", "OPS = %d" % c.pick(5, 7)), name="trailing file, season %d of 4" % s)
    for const, inv in [("TIMECHECK", "OwnSeason"), ("GUARD", "Inside"), ("CLOSE", "NothingLost")]:
        c.model_refutes("MCTrail", re.sub(r"INVARIANTS .*", "INVARIANTS " + inv, cfg.replace(const + " = TRUE", const + " = FALSE")), inv, const)
    exe = lib_driver("drv_statfile")
    progs = [lines(p) for p in generate(c, "GenTrail", num=c.pick(800, 12000), depth=34, shards=8, seed=c.seed * 10 + 6)]
    conform(c, "TraceTrail", exe, progs, "trailing file")
    c.assumptions += ["averages are compared to the precision of a float", "what was not written out when the process died may be lost"]


main(check, "C06")
