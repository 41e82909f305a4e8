META = ("C09", "the lock space has more areas for lockers than for ranges, and most of the lockers are used at once while mutexes are used", "the areas of lockers and of mutexes overlap, so that a mutex is lost(or a reader)")
L = lambda a: "\n".join("OP %d rt %d 0 10" % (a, k) for k in range(10))
SCRIPT = """
PROG a
CFG robust=0 caps=4,8,40,4,4,8 out=300
ACT 1 1 0
ACT 2 2 0
%s
OP 1 mt A
OP 1 mt B
OP 1 mt C
OP 1 mt D
%s
OP 1 bar 3
OP 2 bar 1
%s
OP 2 mt A
OP 2 mt B
OP 2 mt C
OP 2 mt D
STRAT RANDS n=2 seed=3
END
""" % ("\n".join("FD %d %d fa" % (a, k) for a in (1, 2) for k in range(10)), L(1), L(2))
def check(h):
    for w, a, o, v in h.steps:
        if w == "ret" and a == 2 and o[0] == "mt" and v == 0:
            return "trylock of a mutex which is owned by another process: 0"
        if w == "ret" and o[0] == "rt" and v != 0:
            return "tryrdlock of a range without a writer: %s" % v
        if w == "bad":
            return "crash"
