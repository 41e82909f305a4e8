META = ("C20", "two files of the same inode number on different devices", "they are taken for one file")
import os
P = [p for p in ("/proc", "/dev/shm", "/dev/pts", "/sys", "/dev/mqueue", "/run", "/tmp", "/") if os.path.isdir(p)]
def two():
    for i, p in enumerate(P):
        for q in P[i + 1:]:
            s, t = os.stat(p), os.stat(q)
            if s.st_ino == t.st_ino and s.st_dev != t.st_dev:
                return p, q
    return None
SCRIPT = """
PROG a
CFG robust=0 out=100
ACT 1 1 0
ACT 2 2 0
FD 1 0 %s
FD 2 0 %s
OP 1 wl 0 0 10
OP 1 bar 2
OP 2 bar 1
OP 2 wt 0 0 10
STRAT RANDS n=3 seed=3
END
""" % (two() or ("fa", "fb"))
def check(h):
    return "the second file is locked" if h.result(2, 0) == 16 else None
