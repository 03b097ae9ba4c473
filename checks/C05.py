from counter_common import *


def check(c):
    cfg = open(os.path.join(SPEC, "MCQuery.cfg")).read()
    cfg = cfg.replace("BMAX = 3", "BMAX = 4") if c.thorough else cfg.replace("BMAX = 3", "BMAX = 2")
    c.model_check("MCQuery", cfg, name="query")
    exe = daemon_driver("drv_counter")
    for kind, n in (("gauge", c.pick(480, 6000)), ("event", c.pick(480, 6000))):
        progs = [lines(p) for p in generate(c, "GenCounter", cfg="GenCounter_%s_q.cfg" % kind, num=n, depth=60, shards=8)]
        conform(c, "TraceCounter", exe, progs, "%s queries" % kind)
    c.assumptions += ["values are small integers, exact in float",
                      "an event counter's buckets are compared when no interval is pending (their sums may lag otherwise)"]


main(check, "C05")
