import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
from vp.trace import *


def lines(prog):
    out = []
    for o in prog:
        k = o["o"]
        if k == "mk": out.append("mk %d %s %s" % (o["id"], o["k"], o["n"]))
        elif k in ("add", "val"): out.append("%s %d %d" % (k, o["id"], o["v"]))
        elif k in ("copy", "assign"): out.append("%s %d %d" % (k, o["id"], o["to"]))
        elif k in ("del", "agg"): out.append("%s %d" % (k, o["id"]))
        elif k == "tick": out.append("tick %d" % o["by"])
        elif k == "req": out.append("req %d" % o["code"])
        elif k == "held": out.append("held %d" % o["n"])
        elif k == "burst": out.append("burst %d %s" % (o["ns"], " ".join("%d:%d:%d" % tuple(a) for a in o["adds"])))
        elif k == "end": pass
        else: out.append(k)
    return out


def check(c):
    cfg = open(os.path.join(SPEC, "MCLoop.cfg")).read()
    c.model_check("MCLoop", cfg, name="sampling")
    if c.thorough:
        c.model_check("MCLoop", cfg.replace("{a1, a2}", "{a1, a2, a3}").replace("{s1, s2}", "{s1, s2, s3}"), name="sampling, larger")
    for old, new, inv in [("ATOMIC = TRUE", "ATOMIC = FALSE", "NoneLost"), ('SEIZE = "swap"', 'SEIZE = "subtract"', "NotTwice"),
                          ('SEIZE = "swap"', 'SEIZE = "zero"', "NoneLost"), ("KEEP = TRUE", "KEEP = FALSE", "NoneLost")]:
        c.model_refutes("MCLoop", re.sub(r"INVARIANTS .*", "INVARIANTS " + inv, cfg.replace(old, new)), inv, new)
    exe = daemon_driver("drv_loop")
    progs = [lines(p) for p in generate(c, "GenLoop", num=c.pick(480, 10000), depth=34, shards=8, seed=c.seed * 10 + 3)]
    conform(c, "TraceLoop", exe, progs, "statistics about itself", retries=8, certain=("burst",))
    c.assumptions += ["two threads answering requests at the same time may report the number of requests under way in either order",
                      "statistics are never asked for by name before they are made, and are named with the characters of counter names"]


main(check, "C20")
