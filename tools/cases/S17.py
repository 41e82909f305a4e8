META = ("C17", "the lock space is initialized again without the number of mutexes after it was initialized with it", "the number of mutexes is the one of the past instead of the default")
SCRIPT = """
PROG a
CFG fresh=1 robust=0 caps=0,0,0,0,0,0 q=400 max=4000000 out=50
ACT 1 1 0
OP 1 init d1 - 0 0 0 2 0 0
OP 1 init d2 - 0 0 0 0 0 0
OP 1 bm p 300
STRAT RANDS n=2 seed=3
END
"""
def check(h):
    if h.result(1, 2) != 256:
        return "%s mutexes" % h.result(1, 2)
