META = ("C01", "two threads use a name for the first time, at once", "one name gets two mutexes, both are locked")
SCRIPT = """
PROG a
CFG robust=0 out=3000
ACT 1 1 0
ACT 2 2 0
OP 1 ml m
OP 1 mu m
OP 2 ml m
OP 2 mu m
STRAT SYS k=1 max=2000 seed=1
STRAT SYS k=2 max=2500 seed=1
STRAT RANDS n=600 seed=3
END
"""
def check(h):
    b = h.blocked()
    if b:
        return "blocked: %s" % b
    for a in (1, 2):
        if h.result(a, 1) not in (0, None):
            return "the owner can not unlock"
    return h.owners(("ml",), ("mu",), lambda o: o[1])
