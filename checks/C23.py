import sys, os, glob, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
from vp.trace import *


def lines(prog):
    out = []
    for o in prog:
        k = o["o"]
        if k == "new": out.append("new %d" % o["nt"])
        elif k == "open": out.append("open %d" % o["id"])
        elif k == "send": out.append("send " + " ".join("%d:%d:%d" % tuple(x) for x in o["x"]))
        elif k in ("stall", "unstall"): out.append("%s %d %d" % (k, o["id"], o["k"]))
        elif k == "close": out.append("close %d %d %d" % (o["id"], o["k"], o["n"]))
        elif k in ("deaf", "hear"): out.append("%s %d" % (k, o["k"]))
    return out


def check(c):
    cfg = open(os.path.join(SPEC, "MCSplit.cfg")).read()
    c.model_check("MCSplit", cfg, name="session")
    if c.thorough:
        c.model_check("MCSplit", cfg.replace("NT = 2", "NT = 3"), name="session, three targets")
        c.model_check("MCSplit", cfg.replace("K = 2", "K = 3"), name="session, three bytes")
    for const, inv in [("FIRST", "FirstOnly"), ("DRAIN", "LastBytes")]:
        c.model_refutes("MCSplit", re.sub(r"INVARIANTS .*\nPROPERTIES .*", "INVARIANTS " + inv, cfg.replace(const + " = TRUE", const + " = FALSE")), inv, const)
    # the driver includes the program, so what it is compiled from has to name the program's text
    text = b"".join(open(f, "rb").read() for f in sorted(glob.glob(os.path.join(REPO, "splitter", "*"))) if os.path.isfile(f))
    exe = build("drv_split", [os.path.join(DRIVERS, "drv_split.cpp")] + repo_sources("splitter", exclude=("main.cpp",)),
                extra=("-DVP_OF_" + hashlib.sha256(text).hexdigest()[:16],))
    progs = [lines(p) for p in generate(c, "GenSplit", num=c.pick(360, 5000), depth=24, shards=8, seed=c.seed * 10 + 3)]
    conform(c, "TraceSplit", exe, progs, "splitter", retries=5)
    c.assumptions += ["targets are reached through the loopback interface; what a target that is not the first one sent when it ends need not have gone anywhere",
                      "an end that stops reading keeps its own session waiting"]


main(check, "C23")
