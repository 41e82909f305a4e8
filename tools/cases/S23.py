META = ("C04", "timeouts of some seconds", "timedlock of 4.3 seconds reports the timeout at once")
SCRIPT = """
PROG a
CFG robust=0 out=100
ACT 1 1 0
ACT 2 2 0
OP 1 ml m
OP 2 bar 1
OP 2 mT m 4300000
STRAT RANDS n=3 seed=3
END
"""
def check(h):
    t0 = t = None
    for w, a, o, v in h.steps:
        if w == "tick":
            t = v
        elif w == "call":
            t = v
            if a == 2 and o[0] == "mT":
                t0 = v
        elif w == "ret" and a == 2 and o[0] == "mT" and v == 110 and t - t0 < 4300000:
            return "timed out after %d us" % (t - t0)
