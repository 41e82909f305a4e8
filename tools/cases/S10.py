META = ("C10", "the structure which islocked looks at is given back and used again for another range", "islocked answers false although the range is kept locked by a live thread")
SCRIPT = """
PROG a
CFG robust=0 out=4000
ACT 1 1 0
ACT 2 2 0
FD 1 0 fa
FD 1 1 fb
FD 2 0 fa
FD 2 1 fb
OP 1 wl 0 0 10
OP 1 wl 0 100 10
OP 1 bar 1
OP 1 u 0 100 10
OP 1 wl 1 50 10
OP 2 bar 2
OP 2 il 0 0 10
STRAT SYS k=1 max=3000 seed=1
STRAT SYS k=2 max=4000 seed=1
STRAT RANDS n=600 seed=3
END
"""
SCRIPT = SCRIPT.replace("bar 1", "settle 0").replace("OP 2 bar 2\n", "")
SCRIPT = SCRIPT.replace("OP 1 settle 0\n", "").replace("OP 2 il", "OP 2 il 0 0 10\nOP 2 il")
def check(h):
    held = False
    pend = False
    for w, a, o, v in h.steps:
        if a == 1 and w == "ret" and o[:3] == ["wl", "0", "0"]:
            held = True
        elif a == 2 and w == "call":
            pend = held
        elif a == 2 and w == "ret" and pend and v == 0:
            return "islocked says false for a locked range"
