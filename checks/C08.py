from store_common import *


def check(c):
    design(c, "OwnFiles OnlyDeleted AllDeleted Recorded", [('PURGED', 'OwnFiles')])
    exe = behaviours(c, "delete", c.pick(900, 20000), 2)


main(check, "C08")
