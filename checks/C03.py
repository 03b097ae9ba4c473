from counter_common import *


def check(c):
    cfg = open(os.path.join(SPEC, "MCGauge.cfg")).read()
    if c.thorough:
        cfg = cfg.replace("CMAX = 4", "CMAX = 5")
    c.model_check("MCGauge", cfg, name="gauge")
    exe = daemon_driver("drv_counter")
    progs = [lines(p) for p in generate(c, "GenCounter", cfg="GenCounter_gauge_r.cfg", num=c.pick(1200, 12000), depth=60, shards=8)]
    conform(c, "TraceCounter", exe, progs, "gauge recording")
    c.assumptions += ["values are small integers, exact in float, or exactly representable large ones"]


main(check, "C03")
