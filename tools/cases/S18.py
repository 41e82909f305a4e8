META = ("C18", "a thread holds a range by a write object and a read object, unlocks the write object and locks by a write object again while another process waits", "the range is unlocked for a moment and another process gets it, although the thread has kept a write lock object on it")
SCRIPT = """
PROG a
CFG robust=0 caps=8,32,64,8,4,8 out=3000
ACT 1 1 0
ACT 2 2 0
FD 1 0 fa
FD 2 0 fa
OP 1 ow 1 0 0 10
OP 1 or 2 0 0 10
OP 1 ou 1
OP 1 ow 3 0 0 10
OP 1 ou 3
OP 1 ou 2
OP 2 wl 0 0 10
OP 2 u 0 0 10
STRAT SYS k=1 max=3000 seed=1
STRAT SYS k=2 max=1500 seed=1
STRAT RANDS n=600 seed=3
END
"""
def check(h):
    first = [a for w, a, o, v in h.steps if w == "ret" and o[0] in ("ow", "wl")][0]
    if first == 1:
        seen = []
        for w, a, o, v in h.steps:
            if w == "ret" and o[0] in ("wl",):
                # the last object must have been released
                if ("call", "2") not in seen:
                    return "another process got the range"
            if w == "call" and o[0] == "ou":
                seen.append(("call", o[1]))
