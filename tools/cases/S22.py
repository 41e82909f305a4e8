META = ("C02", "the owner locks the mutex again with timedlock", "the mutex is free after one unlock")
SCRIPT = """
PROG a
CFG robust=0 out=100
ACT 1 1 0
ACT 2 2 0
OP 1 ml m
OP 1 mT m 5000
OP 1 mu m
OP 1 bar 2
OP 2 bar 1
OP 2 mt m
STRAT RANDS n=3 seed=3
END
"""
def check(h):
    return "free, but the owner has locked it twice" if h.result(2, 0) == 0 else None
