META = ("C01", "a timed lock of a mutex expires just when the owner releases it and another thread gets it between the check and the store", "two threads own the mutex at once")
SCRIPT = """
PROG a
CFG robust=0 base=1000500000000 out=20000
ACT 1 1 0
ACT 2 2 0
ACT 3 3 0
OP 1 ml m
OP 1 bar 1
OP 1 mu m
OP 2 bar 1
OP 2 mT m 1000
OP 2 mu m
OP 3 bar 1
OP 3 ml m
OP 3 mu m
STRAT RACE n=60000 tick=1 d=5 seed=1
STRAT RACE n=60000 tick=1 d=5 seed=2
END
"""
def check(h):
    return h.owners(("ml", "mT"), ("mu",), lambda o: o[1])
