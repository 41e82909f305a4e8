META = ("C17", "FLCKUMASK is 0666 or more, which is a valid one", "it is ignored, and the shared file can be changed by everybody")
SCRIPT = """
PROG a
CFG fresh=1 autoinit=1 robust=0 out=50
ACT 1 1 0
ENV 1 FLCKUMASK=%s
OP 1 mt A
OP 1 perm s0
STRAT RANDS n=2 seed=3
END
"""
SCRIPT = "".join(SCRIPT.replace("PROG a", "PROG a%d" % i) % u for i, u in enumerate(("0700", "077")))
def check(h):
    if h.result(1, 1) not in (0o066, 0o600):
        return "permissions %o" % h.result(1, 1)
