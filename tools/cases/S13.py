META = ("C03", "a process dies while it locks the list of mutexes, and two live threads take the list over at once", "both of them work on the list at once: one name gets two mutexes")
SCRIPT = """
PROG a
CFG robust=2 chk=50 out=20000
ACT 1 1 0
ACT 2 2 0
ACT 3 3 0
OP 1 ml a
OP 2 bar 1
OP 2 ml m
OP 2 mu m
OP 3 bar 1
OP 3 ml m
OP 3 mu m
STRAT RACE n=6000 d=4 crash=400 actors=1 seed=2
STRAT RACE n=6000 d=4 crash=400 actors=1 seed=3
END
"""
def check(h):
    b = h.blocked()
    if 2 in b or 3 in b:
        return "blocked: %s" % b
    return h.owners(("ml",), ("mu",), lambda o: o[1])
