from server_common import *


def check(c):
    senders(c)
    behaviours(c, "blacklist", c.pick(1200, 16000), 3)
    c.assumptions += ASSUMED


main(check, "C15")
