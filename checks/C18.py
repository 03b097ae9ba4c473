import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp.core import *
from vp.trace import *
from http_common import lines


def check(c):
    cfg = open(os.path.join(SPEC, "MCHttp.cfg")).read()
    if c.thorough:
        c.model_check("MCHttp", cfg.replace("NR = 2", "NR = 3").replace("NTHREADS = 2", "NTHREADS = 3"), name="answers, larger")
    c.model_check("MCHttp", cfg, name="answers")
    for const, what in [("LOCK", "Whole"), ("BYNAME", "EachKey"), ("LAST", "EachKey"), ("CATCH", "Answered")]:
        c.model_refutes("MCHttp", cfg.replace(const + " = TRUE", const + " = FALSE").replace("Once Whole EachKey", "Once Whole EachKey" if what == "Answered" else what), what, const)
    exe = daemon_driver("drv_http")
    progs = [lines(p) for p in generate(c, "GenHttp", num=c.pick(600, 8000), depth=20, shards=8, seed=c.seed)]
    conform(c, "TraceHttp", exe, progs, "query interface", retries=4)


main(check, "C18")
