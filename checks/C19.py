import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
from vp.trace import *


def text(s):
    return "x" + "".join("%02x" % b for b in s)


def lines(prog):
    out = []
    for o in prog:
        k = o["o"]
        if k in ("time", "ret", "file"): out.append("%s %s" % (k, text(o["s"])))
        elif k == "write": out.append("write %d" % o["n"])
        elif k == "args": out.append("args " + " ".join(text(a) for a in o["a"]))
    return out


def check(c):
    cfg = open(os.path.join(SPEC, "MCConfig.cfg")).read()
    c.model_check("MCConfig", cfg.replace("LENGTH = 6", "LENGTH = %d" % c.pick(6, 7)).replace("NMAX = 100000", "NMAX = %d" % c.pick(20000, 1000000)), name="all short texts")
    c.model_refutes("MCConfig", re.sub(r"INVARIANTS .*", "INVARIANTS ReadsBack", cfg.replace("WHOLE = TRUE", "WHOLE = FALSE")), "ReadsBack", "remainders")
    try:
        exe = build("drv_config", [os.path.join(DRIVERS, "drv_config.cpp"), os.path.join(REPO, "daemon", "Retention.cpp"), os.path.join(REPO, "daemon", "Argument.cpp")] + repo_sources("lib", exclude=("main.cpp",)))
    except CheckError as x:
        if "cannot link" not in str(x):
            raise
        exe = daemon_driver("drv_config")
    progs = [lines(p) for p in generate(c, "GenConfig", num=c.pick(2000, 30000), depth=30, shards=8, seed=c.seed * 10 + 9)]
    conform(c, "TraceConfig", exe, progs, "configuration")
    c.assumptions += ["numbers stay below 2^31; a flag in a file is set by being there, whatever follows it"]


main(check, "C19")
