META = ("C19", "a process forks, its child takes no part until the parent is killed while it owns a mutex, and the child is the only survivor", "the child has no watching thread, and the mutex of the dead parent is never released for its trylock")
SCRIPT = """
PROG a
CFG fresh=1 autoinit=1 rt=1 robust=1 q=400 max=4000000 out=50
ACT 1 1 0
ACTF 2 2
ENV 1 FLCKROBUSTMODE=LOW
OP 1 ml A
OP 1 fork 2
OP 1 bar 9
OP 2 mt B
OP 2 settle 100
OP 2 kill 1 1
OP 2 settle 700
OP 2 mt A
STRAT RANDS n=2 seed=3
END
"""
def check(h):
    for w, a, o, v in h.steps:
        if w == "ret" and o[:2] == ["mt", "A"] and v:
            return "trylock after the death of the owner: %s" % v
