META = ("C14", "all processes exit, and the next one has the same capacities", "the next process does not start from a clean space: the conditions of the past are there")
SCRIPT = """
PROG a
CFG fresh=1 robust=0 caps=2,4,6,3,2,4 q=400 max=4000000 out=50
ACT 1 1 0
ACT 2 2 0
OP 1 init d1 - 2 4 6 3 2 4
OP 1 ml m
OP 1 cT c m 0
OP 1 cs c
OP 1 kill 1 1
OP 2 bar 1
OP 2 init d1 - 2 4 6 3 2 4
OP 2 cs c
OP 2 ml n
OP 2 cT c n 0
STRAT RANDS n=5 seed=3 tickp=100
END
"""
def check(h):
    if h.result(2, 1) != 22:
        return "a signal to a condition which was never used answers %s" % h.result(2, 1)
