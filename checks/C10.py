from server_common import *


def check(c):
    cfg = open(os.path.join(SPEC, "MCIngest.cfg")).read()
    if c.thorough:
        cfg = cfg.replace("LENGTH = 6", "LENGTH = 7")
    c.model_check("MCIngest", cfg, name="streams cut in every way")
    c.model_refutes("MCIngest", cfg.replace("KEEP = TRUE", "KEEP = FALSE").replace("LENGTH = 7", "LENGTH = 6"), "SameHoweverCut", "kept incomplete lines")
    exe = behaviours(c, "ingest", c.pick(1000, 16000), 1)
    # very long lines and names, in one piece and many
    long = ["send 0 %s" % b"x ".hex() + "+p%d+" % n + b"1\n".hex() for n in (1000, 65000, 300000, 600000)]
    conform(c, "TraceServer", exe, [["new 0 0 1", "conn 0", "conn 1", l, "send 1 " + b"a 1\nb ".hex(), l, "send 1 " + b"2\n".hex()] for l in long], "server (long lines)")
    c.assumptions += ASSUMED


main(check, "C10")
