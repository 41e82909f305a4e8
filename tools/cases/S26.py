META = ("C03", "a thread ends while it owns a mutex, and a thread of the same process is blocked on it(no other process attached)", "the mutex is never recovered")
SCRIPT = """
PROG a
CFG robust=2 chk=50 out=300
ACT 1 1 0
ACT 2 1 1
OP 1 ml m
OP 1 bar 2
OP 1 tx
OP 2 bar 1
OP 2 ml m
OP 2 mu m
STRAT RANDS n=20 seed=3
END
"""
def check(h):
    return "blocked: %s" % h.blocked() if h.blocked() else None
