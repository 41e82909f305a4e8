META = ("C20", "two names of 63 characters which differ only in the last one", "different mutexes are taken for the same one")
A = "x" * 62
SCRIPT = """
PROG a
CFG robust=0 out=50
ACT 1 1 0
ACT 2 2 0
OP 1 ml %sa
OP 1 bar 2
OP 2 bar 1
OP 2 mt %sb
OP 2 mt %sac
STRAT RANDS n=3 seed=3
END
""" % (A, A, A)
def check(h):
    if h.result(2, 0) != 0 or h.result(2, 1) != 16:
        return "%s %s" % (h.result(2, 0), h.result(2, 1))
