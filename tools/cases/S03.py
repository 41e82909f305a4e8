META = ("C03", "the owner dies, two threads notice it at once and one of them acquires the mutex before the other one releases it by force", "the mutex is taken away from its live owner")
SCRIPT = """
PROG a
CFG robust=2 chk=50 out=3000
ACT 1 1 0
ACT 2 2 0
ACT 3 3 0
OP 1 ml nm
OP 1 bar 9
OP 2 bar 1
OP 2 kill 1 1
OP 2 ml nm
OP 2 bar 4
OP 2 mu nm
OP 3 bar 1
OP 3 ml nm
OP 3 bar 5
OP 3 mu nm
STRAT SYS k=1 max=2000 seed=1
STRAT SYS k=2 max=9000 seed=1
STRAT RANDS n=2000 seed=3
STRAT PCTS n=6000 d=3 seed=3
END
"""
def check(h):
    return h.owners(("ml",), ("mu",), lambda o: o[1])
