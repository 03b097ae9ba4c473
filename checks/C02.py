from statfile_common import *


def check(c):
    cfg = open(os.path.join(SPEC, "MCStatFileCrash.cfg")).read()
    if c.thorough:
        cfg = re.sub(r"CMAX = (\d+)", lambda m: "CMAX = %d" % (int(m.group(1)) + 1), cfg)
    c.model_check("MCStatFileCrash", cfg, name="crash")
    exe = lib_driver("drv_statfile")
    progs = [lines(p) for p in generate(c, "GenStatFile", cfg="GenStatFile_crash.cfg", num=c.pick(240, 3000), depth=65, shards=8)]
    # creation is short: every death in it, for every kind of file
    for k in range(0, 8):
        for kind in ("gauge", "collated", "agg"):
            for zero in (1000000020, 0):
                for more in (["upd 1000000020 2 4 2 2 1 overwrite", "flush", "crash"], ["flush", "reopen plain"]):
                    progs.append(["now 1000000020", "arm %d" % k, "open %d 10 600 %s 6" % (zero, kind)] + more + ["reopen init"])
    # flush and orderly close: every death in them, with several dirty pages
    for k in range(0, 10):
        for how in ("flush", "reopen plain", "reopen init"):
            progs.append(["now 1000020000", "open 1000000020 10 1280 gauge 0", "upd 1000000020 2 4 2 2 1 agg", "flush",
                          "upd 1000002600 3 9 3 3 1 agg", "upd 1000005200 5 25 5 5 1 agg", "upd 1000000021 1 1 1 1 1 agg",
                          "upd 1000007800 5 25 5 5 1 agg", "arm %d" % k, how, "read 0 1280", "upd 1000000031 1 1 1 1 1 agg",
                          "flush", "crash", "read 0 1280"])
    conform(c, "TraceStatFile", exe, progs, "counter file crashes")
    c.assumptions += ["a crash falls between two write-back system calls, each of which is atomic",
                      "values are small integers, exact in float"]


main(check, "C02")
