META = ("C08", "a thread blocks on a range twice and the process of the holder, which was alive at the first time, dies at the second time", "a thread stays blocked on a range whose holder has died")
SCRIPT = """
PROG a
CFG robust=2 chk=50 out=300
ACT 1 1 0
ACT 2 2 0
FD 1 0 fa
FD 2 0 fa
OP 1 wl 0 0 10
OP 1 bar 2
OP 1 u 0 0 10
OP 1 bar 4
OP 1 wl 0 0 10
OP 1 bar 6
OP 1 kill 1 1
OP 2 bar 1
OP 2 wl 0 0 10
OP 2 u 0 0 10
OP 2 bar 5
OP 2 wl 0 0 10
OP 2 u 0 0 10
STRAT RANDS n=20 seed=3
END
"""
def check(h):
    return "blocked: %s" % h.blocked() if h.blocked() else None
