META = ("C15", "the parent process has called the library before forking", "a mutex owned by the living child is taken from it by the recovery of another process")
SCRIPT = """
PROG a
CFG robust=2 chk=50 out=200
ACT 1 1 0
ACTF 2 2
ACT 3 3 0
OP 1 ml m
OP 1 fork 2
OP 1 bar 2
OP 2 ml n
OP 2 bar 2
OP 2 mu n
OP 3 bar 1
OP 3 ml n
OP 3 mu n
STRAT RANDS n=100 seed=3
END
"""
def check(h):
    return h.owners(("ml",), ("mu",), lambda o: o[1])
