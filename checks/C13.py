import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
from vp.trace import *


def hx(cs): return bytes(cs).hex()
def val(v): return "*%d" % v[1] if v and v[0] == -1 else "x" + hx(v)
def kvs(kv): return " ".join("%s:%s" % (hx(k), val(v)) for k, v in kv)


def lines(prog):
    out = []
    for o in prog:
        k = o["o"]
        if k == "post": out.append("post x%s %s" % (hx(o["s"]), kvs(o["kv"])))
        elif k == "get": out.append("get x%s %s" % (hx(o["s"]), hx(o["p"]) or "-"))
        elif k in ("flush1", "load", "hold"): out.append("%s x%s" % (k, hx(o["s"])))
        elif k == "hset": out.append("hset " + kvs(o["kv"]))
        elif k == "tick": out.append("tick %d" % o["by"])
        elif k == "crash": out.append("crash %d" % o["k"])
        elif k == "fail": out.append("fail %d %d %s" % (o["k"], o["errno"], o["what"]))
        elif k == "edit": out.append("edit x%s %d %s" % (hx(o["s"]), o["st"], kvs(o["kv"])))
        elif k == "burst": out.append("burst x%s %s" % (hx(o["f"]), " ".join("%s:%s:%d" % (hx(a), hx(b), n) for a, b, n in o["ss"])))
        elif k != "end": out.append(k)
    return out


def check(c):
    cfg = open(os.path.join(SPEC, "MCSettings.cfg")).read()
    c.model_check("MCSettings", cfg.replace("N = 3", "N = %d" % c.pick(3, 6)), name="saving and flushing")
    for const, inv in [("ATOMIC", "Whole"), ("CHECK", "Whole"), ("KEEP", "ReadBack"), ("RETRY", "Kept")]:
        c.model_refutes("MCSettings", re.sub(r"INVARIANTS .*", "INVARIANTS " + inv, cfg.replace(const + " = TRUE", const + " = FALSE")), inv, const)
    exe = daemon_driver("drv_settings")
    for profile, num in (("uses", c.pick(450, 8000)), ("faults", c.pick(350, 6000))):
        progs = [lines(p) for p in generate(c, "GenSettings", cfg="GenSettings_%s.cfg" % profile, num=num, depth=32, shards=8, seed=c.seed * 10 + len(profile))]
        conform(c, "TraceSettings", exe, progs, "settings (%s)" % profile, retries=8)
    c.assumptions += ["a file system on which rename is atomic and what was written before it stays; power failures are not part of this",
                      "a section edited by hand while values set in it have not been saved may be overwritten"]


main(check, "C13")
