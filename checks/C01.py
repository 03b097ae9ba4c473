from statfile_common import *


def check(c):
    for name in ("gauge", "modes", "coll", "agg"):
        cfg = open(os.path.join(SPEC, "MCStatFile_%s.cfg" % name)).read()
        if c.thorough:
            cfg = re.sub(r"CMAX = (\d+)", lambda m: "CMAX = %d" % (int(m.group(1)) + 1), cfg)
        c.model_check("MCStatFile", cfg, name=name)
    exe = lib_driver("drv_statfile")
    progs = [lines(p) for p in generate(c, "GenStatFile", num=c.pick(320, 4000), depth=65, shards=8)]
    conform(c, "TraceStatFile", exe, progs, "counter file ring", signature=None)
    c.assumptions += ["values are small integers, exact in float", "raw update modes are given interval-aligned times"]


main(check, "C01")
