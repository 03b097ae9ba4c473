from server_common import *


def check(c):
    senders(c)
    behaviours(c, "agents", c.pick(1000, 16000), 4)
    c.assumptions += ASSUMED


main(check, "C21")
