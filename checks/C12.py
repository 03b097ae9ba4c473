import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
from vp.trace import *


def lines(prog):
    out = []
    for o in prog:
        k = o["o"]
        if k == "new": out.append("new %d %d %d" % (o["max"], o["l"], o["rb"]))
        elif k == "write":
            if o["calls"]: out.append("write " + " ".join(",".join("%d:%d" % (x["id"], x["len"]) for x in c) for c in o["calls"]))
        elif k == "burst": out.append("burst %d %d %s" % (o["nt"], o["drops"], " ".join("%d:%d:%d" % tuple(w) for w in o["ws"])))
        elif k == "end": pass
        else: out.append(k)
    return out


def check(c):
    cfg = open(os.path.join(SPEC, "MCConn.cfg")).read()
    if c.thorough:
        c.model_check("MCConn", cfg.replace("NL = 4", "NL = 5").replace("NB = 2", "NB = 3"), name="connection, larger")
    c.model_check("MCConn", cfg, name="connection")
    for const, inv in [("IDENT", "IdentFirst"), ("LATE", "IdentFirst"), ("WHOLE", "WholeLines"), ("FORGET", "AtMostOnce")]:
        c.model_refutes("MCConn", re.sub(r"INVARIANTS .*\n.*", "INVARIANTS " + inv, cfg.replace(const + " = TRUE", const + " = FALSE")), inv, const)
    exe = daemon_driver("drv_conn")
    for profile, num in (("small", c.pick(600, 8000)), ("big", c.pick(300, 4000))):
        progs = [lines(p) for p in generate(c, "GenConn", cfg="GenConn_%s.cfg" % profile, num=num, depth=32, shards=8, seed=c.seed * 10 + len(profile))]
        conform(c, "TraceConn", exe, progs, "connection (%s)" % profile, retries=8)
    c.assumptions += ["what was handed to the operating system, or is being handed to it, when a connection ends may be lost",
                      "time passes by moving a virtual clock; a host that does not resolve is not part of the histories (one that refuses is)"]


main(check, "C12")
