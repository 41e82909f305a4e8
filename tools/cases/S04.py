META = ("C04", "the owner unlocks while the count is raised by a trylock which fails", "a failed trylock leaves the mutex locked for ever")
SCRIPT = """
PROG a
CFG robust=0 out=3000
ACT 1 1 0
ACT 2 2 0
ACT 3 2 1
OP 1 ml nm
OP 1 mu nm
OP 2 mt nm
OP 2 bar 1
OP 3 bar 2
OP 3 mt nm
OP 2 mu nm
STRAT SYS k=1 max=2000 seed=1
STRAT SYS k=2 max=2500 seed=1
STRAT RANDS n=600 seed=3
END
"""
SCRIPT = SCRIPT.replace("OP 2 mu nm\n", "")
def check(h):
    if h.result(2, 0) != 0 and h.result(3, 0) != 0:
        return "nobody owns the mutex, but trylock fails"
