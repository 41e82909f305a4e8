META = ("C02", "another thread acquires the mutex between the release of the word and the reset of the count, and locks it recursively", "the count of the new owner is cleared: it does not own the mutex any more after unlocking once although it locked it twice")
SCRIPT = """
PROG a
CFG robust=0 out=3000
ACT 1 1 0
ACT 2 2 0
ACT 3 3 0
OP 1 ml nm
OP 1 mu nm
OP 2 ml nm
OP 2 ml nm
OP 2 mu nm
OP 2 mu nm
OP 3 mt nm
OP 3 mu nm
STRAT SYS k=2 max=6000 seed=1
STRAT SYS k=3 max=3000 seed=1
STRAT RANDS n=1000 seed=3
STRAT PCTS n=1000 d=3 seed=3
END
"""
def check(h):
    # a lock is owned until unlock was called as many times
    return h.owners(("ml", "mt"), ("mu",), lambda o: o[1])
