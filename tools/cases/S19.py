META = ("C19", "a process which was alive when the worker looked at first dies", "the mutex of the dead process is never released")
SCRIPT = """
PROG a
CFG fresh=1 autoinit=1 rt=1 robust=1 q=400 max=4000000 out=50
ACT 1 1 0
ACT 2 2 0
ACT 3 3 0
ENV 1 FLCKROBUSTMODE=LOW
ENV 2 FLCKROBUSTMODE=LOW
ENV 3 FLCKROBUSTMODE=LOW
OP 1 ml A
OP 3 bar 1
OP 3 mt C
OP 2 bar 2
OP 2 mt B
OP 2 kill 3 1
OP 2 settle 400
OP 2 kill 1 1
OP 2 settle 600
OP 2 mt A
STRAT RANDS n=2 seed=3
END
"""
def check(h):
    for w, a, o, v in h.steps:
        if w == "ret" and o[:2] == ["mt", "A"] and v:
            return "trylock after the death of the owner: %s" % v
