META = ("C11", "a broadcast comes while a newer waiter has left by its timeout but is still getting the mutex back", "an older waiter is not woken by the broadcast")
SCRIPT = """
PROG a
CFG robust=0 out=4000
ACT 1 1 0
ACT 2 2 0
ACT 3 3 0
OP 1 ml m
OP 1 cw c m
OP 1 mu m
OP 2 bar 1
OP 2 ml m
OP 2 cT c m 0
OP 2 mu m
OP 3 bar 1
OP 3 ml m
OP 3 cb c
OP 3 mu m
STRAT SYS k=2 max=4000 seed=1
STRAT RANDS n=2500 seed=3
STRAT PCTS n=2500 d=3 seed=3
END
"""
def check(h):
    if h.result(3, 1) == 0 and 1 in h.blocked():
        return "not woken by broadcast"
