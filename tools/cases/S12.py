META = ("C12", "the signaller takes the mutex and signals directly after the waiter has released it", "the signal is lost and the waiter waits for ever")
SCRIPT = """
PROG a
CFG robust=0 out=4000
ACT 1 1 0
ACT 2 2 0
OP 1 ml m
OP 1 cw c m
OP 1 mu m
OP 2 ml m
OP 2 cs c
OP 2 mu m
STRAT SYS k=1 max=4000 seed=1
STRAT SYS k=2 max=4000 seed=1
STRAT RANDS n=600 seed=3
END
"""
def check(h):
    order = [(w, a, o[0]) for w, a, o, v in h.steps if o]
    # the waiter locked the mutex first: it waits before the other one can lock it
    if ("ret", 1, "ml") in order and order.index(("ret", 1, "ml")) < order.index(("call", 2, "ml")) and h.result(2, 1) == 0 and h.blocked():
        return "the signal is lost"
