META = ("C07", "the oldest reader of the range unlocks through another descriptor of the file", "the lock of another descriptor is released: unlocking answers 0 and a writer gets the range")
SCRIPT = """
PROG a
CFG robust=0 out=300
ACT 1 1 0
ACT 2 2 0
FD 1 0 fa
FD 1 1 fa
FD 2 0 fa
OP 1 rl 0 0 10
OP 1 u 1 0 10
OP 1 bar 2
OP 1 u 0 0 10
OP 2 bar 1
OP 2 wt 0 0 10
STRAT RANDS n=20 seed=3
END
"""
def check(h):
    if h.result(1, 1) != 22 or h.result(2, 0) != 16 or h.result(1, 2) != 0:
        return "unlocking through another fd: %s, try of a writer: %s, unlocking: %s" % (h.result(1, 1), h.result(2, 0), h.result(1, 2))
