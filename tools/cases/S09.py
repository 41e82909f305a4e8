META = ("C09", "a range of a file is kept locked while others of the same file are locked and unlocked one after another", "the ranges which are not used are not given back, and locking fails with ENOLCK")
SCRIPT = """
PROG a
CFG robust=0 caps=4,8,16,8,4,8 out=300
ACT 1 1 0
ACT 2 2 0
FD 1 0 fa
FD 2 0 fa
OP 1 rl 0 0 10
%s
OP 2 bar 1
STRAT RANDS n=3 seed=3
END
""" % "\n".join("OP 1 wl 0 %d 10\nOP 1 u 0 %d 10" % (x, x) for x in range(20, 320, 20))
def check(h):
    for w, a, o, v in h.steps:
        if w == "ret" and v:
            return "%s: %s" % (" ".join(o), v)
