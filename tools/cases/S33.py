META = ("C12", "a timeout of more than 2147483647 seconds", "the wait reports ETIMEDOUT at once")
SCRIPT = """
PROG a
CFG robust=0 out=50
ACT 1 1 0
ACT 2 2 0
OP 1 ml A
OP 1 cT c A 2147483648000000
OP 1 mu A
OP 2 bar 1
OP 2 ml A
OP 2 cs c
OP 2 mu A
STRAT RANDS n=3 seed=3
END
"""
def check(h):
    for w, a, o, v in h.steps:
        if w == "ret" and o[0] == "cT" and v:
            return "%s: %s" % (" ".join(o), v)
