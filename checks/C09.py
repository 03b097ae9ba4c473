from store_common import *


def check(c):
    design(c, "FlushKept", [])
    exe = behaviours(c, "flush", c.pick(900, 20000), 3)


main(check, "C09")
