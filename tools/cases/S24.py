META = ("C06", "the robust mode is changed while another thread is blocked on a range", "the blocking lock call fails with ETIMEDOUT")
SCRIPT = """
PROG a
CFG robust=2 chk=50 out=300
ACT 1 1 0
ACT 2 2 0
ACT 3 2 1
FD 1 0 fa
FD 2 0 fa
OP 1 wl 0 0 10
OP 1 bar 3
OP 1 u 0 0 10
OP 2 bar 1
OP 2 wl 0 0 10
OP 2 u 0 0 10
OP 3 bar 2
OP 3 robust 0
STRAT SYS k=1 max=300 seed=1
STRAT RANDS n=200 seed=3
END
"""
def check(h):
    if h.result(2, 1) == 110 or h.result(2, 0) == 110:
        return "ETIMEDOUT without timeout"
