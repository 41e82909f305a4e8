META = ("C05", "a trylock fails, and another thread comes to the range between looking at it and locking the list for removing it", "the range is removed while it is used, so that conflicting locks are held at once")
SCRIPT = """
PROG a
CFG robust=0 out=3000
ACT 1 1 0
ACT 2 2 0
ACT 3 3 0
FD 1 0 fa
FD 2 0 fa
FD 3 0 fa
OP 1 wl 0 0 10
OP 1 u 0 0 10
OP 2 wt 0 0 10
OP 2 bar 1
OP 2 wt 0 0 10
OP 3 wl 0 0 10
OP 3 bar 2
OP 3 u 0 0 10
STRAT SYS k=2 max=4000 seed=1
STRAT SYS k=3 max=4000 seed=1
STRAT RANDS n=1500 seed=3
STRAT PCTS n=1500 d=3 seed=3
END
"""
def check(h):
    return h.owners(("wl", "wt"), ("u",), lambda o: o[1])
