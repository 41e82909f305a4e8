META = ("C18", "a thread locks a range by three read objects, and releases the oldest one first, then the middle one and then the newest one", "the range is locked still after the last object has been released")
SCRIPT = """
PROG a
CFG robust=0 caps=8,32,64,8,4,8 out=3000
ACT 1 1 0
ACT 2 2 0
FD 1 0 fa
FD 2 0 fa
OP 1 or 1 0 0 10
OP 1 or 2 0 0 10
OP 1 or 3 0 0 10
OP 1 ou 1
OP 1 ou 2
OP 1 ou 3
OP 1 bar 2
OP 2 bar 1
OP 2 wt 0 0 10
OP 2 u 0 0 10
STRAT RANDS n=3 seed=3
END
"""
def check(h):
    for w, a, o, v in h.steps:
        if w == "ret" and o[0] == "wt" and v:
            return "trywrlock after every object was released: %s" % v
