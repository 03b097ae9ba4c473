from counter_common import *


def check(c):
    cfg = open(os.path.join(SPEC, "MCEvents.cfg")).read()
    if c.thorough:
        cfg = cfg.replace("CMAX = 5", "CMAX = 7")
    c.model_check("MCEvents", cfg, name="events")
    exe = daemon_driver("drv_counter")
    progs = [lines(p) for p in generate(c, "GenCounter", cfg="GenCounter_event_r.cfg", num=c.pick(960, 12000), depth=60, shards=8)]
    conform(c, "TraceCounter", exe, progs, "event counting")
    c.assumptions += ["event values are small integers times the interval, exact in float"]


main(check, "C04")
