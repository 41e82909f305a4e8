META = ("C16", "a system call(mmap, ftruncate) fails while attaching, in a retry mode", "the file stays open after the failed attempt, and the next call uses a lock space which is not mapped")
SCRIPT = """
PROG a
CFG fresh=1 autoinit=1 robust=0 out=50
ACT 1 1 0
OP 1 fault %s
OP 1 nomap 3
OP 1 mt A
OP 1 mt A
OP 1 mt A
OP 1 mu A
STRAT RANDS n=2 seed=3
END
"""
SCRIPT = "".join(SCRIPT.replace("PROG a", "PROG a%d" % i) % k for i, k in enumerate(("map", "trunc", "write")))
def check(h):
    # the first attempt fails, the first lock call tries again
    r = [h.result(1, n) for n in range(6)]
    if r != [0, 0, 0, 0, 0, 0]:
        return str(r)
