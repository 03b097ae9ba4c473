import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp.core import *
from vp.trace import *
from http_common import lines


def check(c):
    cfg = open(os.path.join(SPEC, "MCProm.cfg")).read()
    if c.thorough:
        c.model_check("MCProm", cfg.replace("NADD = 1", "NADD = 2"), name="exporter, larger")
    c.model_check("MCProm", cfg, name="exporter")
    for const, what in [("LOCK", "Sum"), ("KEEP", "RecentShown")]:
        c.model_refutes("MCProm", cfg.replace(const + " = TRUE", const + " = FALSE").replace("Sum NeverLess RecentShown EachOnce", what), what, const)
    exe = daemon_driver("drv_http")
    progs = [lines(p) for p in generate(c, "GenProm", num=c.pick(600, 8000), depth=20, shards=8, seed=c.seed)]
    conform(c, "TraceProm", exe, progs, "exporter", retries=4)


main(check, "C14")
