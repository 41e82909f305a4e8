META = ("C20", "two condition names of equal hash value", "a condition is taken for another one of the same hash value")
A, B = "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"
SCRIPT = """
PROG a
CFG robust=0 out=50
ACT 1 1 0
ACT 2 2 0
OP 1 ml A
OP 1 cw %s A
OP 1 mu A
OP 2 bar 1
OP 2 cs %s
OP 2 bar 2
OP 2 mt A
OP 2 mu A
OP 2 bar 3
OP 2 cs %s
STRAT RANDS n=5 seed=3
END
""" % (A, B, A)
def check(h):
    # the waiter returns after the signal of its own name
    own = False
    for w, a, o, v in h.steps:
        if w == "call" and o[0] == "cs" and o[1] == A:
            own = True
        if w == "ret" and o[0] == "cw" and not own:
            return "the waiter returns %s before its condition is signalled" % v
