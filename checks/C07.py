from store_common import *


def check(c):
    design(c, "Recorded OwnFiles", [('PURGED', 'OwnFiles')])
    exe = behaviours(c, "names", c.pick(900, 20000), 1)


main(check, "C07")
