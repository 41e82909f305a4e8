META = ("C16", "the mode is to deny with retrying and the lock space can not be attached", "waiting on and signalling a condition answers success instead of ENOLCK")
SCRIPT = """
PROG a
CFG fresh=1 autoinit=1 robust=0 q=400 max=4000000 out=50
ACT 1 1 0
OP 1 unreach s0
OP 1 nomap 3
OP 1 mt A
OP 1 cw c A
OP 1 cs c
OP 1 nomap 1
OP 1 cs c
STRAT RANDS n=3 seed=3
END
"""
def check(h):
    for w, a, o, v in h.steps:
        if w == "ret" and o[0] in ("mt", "cw", "cs") and v != 37:
            return "%s: %s" % (" ".join(o), v)
