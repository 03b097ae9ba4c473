from server_common import *


def check(c):
    cfg = open(os.path.join(SPEC, "MCForward.cfg")).read()
    if c.thorough:
        c.model_check("MCForward", cfg.replace("NS = 2", "NS = 3").replace("NF = 1", "NF = 2").replace("NB = 1", "NB = 2").replace("PROPERTY Answered", ""), name="forwarding, larger")
    c.model_check("MCForward", cfg, name="forwarding")
    for const, inv in [("ATOMIC", "AtMostOnce"), ("EARLIER", "FlushMeansWritten"), ("ONE", "FlushMeansWritten"), ("IDENT", "IdentFirst")]:
        c.model_refutes("MCForward", re.sub(r"INVARIANTS .*\n.*", "INVARIANTS " + inv, (cfg.replace("ONE = TRUE", "ONE = FALSE") if const == "ATOMIC" else cfg).replace(const + " = TRUE", const + " = FALSE")), inv, const)
    behaviours(c, "forward", c.pick(900, 12000), 2)
    c.assumptions += ASSUMED + ["sums, squares and counts small enough to be exact in the float of a bucket (larger squares only as 'large')",
                                "data in flight when a connection breaks may be lost (the break happens after everything written arrived)"]


main(check, "C11")
