META = ("C18", "a thread takes the write lock of a lock object again by Lock() without parameters, after it has unlocked the object", "the object holds the range as a reader only: other threads can read while it believes to be the writer")
SCRIPT = """
PROG a
CFG robust=0 caps=8,32,64,8,4,8 out=3000
ACT 1 1 0
ACT 2 2 0
FD 1 0 fa
FD 2 0 fa
OP 1 oW 1 0 0 10
OP 1 ou 1
OP 1 oW 1 0 0 10
OP 1 bar 2
OP 1 ou 1
OP 2 bar 1
OP 2 rt 0 0 10
STRAT RANDS n=2 seed=3
END
"""
def check(h):
    for w, a, o, v in h.steps:
        if w == "ret" and o[0] == "rt" and v == 0:
            return "tryrdlock while the object of the other thread is locked for writing: %s" % v
