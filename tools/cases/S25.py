META = ("C13", "the process of the waiter is dead, but not yet reaped by its parent when the signal is sent", "the signal goes to the dead waiter, the live one waits for ever")
SCRIPT = """
PROG a
CFG robust=2 chk=50 out=300
ACT 1 1 0
ACT 2 2 0
ACT 3 3 0
OP 1 ml m
OP 1 cw c m
OP 2 bar 1
OP 2 ml m
OP 2 cw c m
OP 3 bar 2
OP 3 kill 1 0
OP 3 bar 3
OP 3 cs c
STRAT RANDS n=20 seed=3
END
"""
def check(h):
    n, a2 = 0, False
    for w, a, o, v in h.steps:
        if w == "dead":
            n += 1
        if w == "ret" and a == 2 and o[0] == "cw":
            a2 = True
    return "blocked: %s" % h.blocked() if h.blocked() and not a2 else None
