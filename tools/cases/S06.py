META = ("C06", "a reader unlocks just between the check and the store of another reader which joins, while a third one keeps the range and a writer waits", "the range looks locked by a reader which does not exist: the writer waits for ever")
SCRIPT = """
PROG a
CFG robust=0 out=9000
ACT 1 1 0
ACT 2 2 0
ACT 3 3 0
ACT 4 1 1
FD 1 0 fa
FD 2 0 fa
FD 3 0 fa
ACT 5 2 1
OP 1 rl 0 0 10
OP 1 bar 2
OP 1 u 0 0 10
OP 2 bar 2
OP 2 rl 0 0 10
OP 2 bar 5
OP 2 u 0 0 10
OP 3 bar 1
OP 3 rl 0 0 10
OP 3 bar 4
OP 3 u 0 0 10
OP 5 bar 1
OP 5 rl 0 0 10
OP 5 bar 6
OP 5 u 0 0 10
OP 4 bar 3
OP 4 wl 0 0 10
OP 4 u 0 0 10
STRAT RACE n=6000 d=4 seed=1
STRAT SYS k=2 max=3000 seed=1
END
"""
def check(h):
    return "nobody holds the range, but blocked: %s" % h.blocked() if h.blocked() and len([1 for w, a, o, v in h.steps if w == "ret" and o[0] == "u"]) == 4 else None
