"""Programs(what the threads and processes call) of each property.  They are generated from
VERIF_SEED; the explorer runs them in many schedules, with crashes and clock steps, and the
recorded histories are checked against the specification."""
import os
import random
from fl import Prog


class B:
    """builder of a program"""
    def __init__(self, name, procs, cfg="", fds=(), forked=(), links=(), env=()):
        self.name, self.procs, self.cfg = name, procs, cfg
        self.lines = []
        thr = {}
        for a, p in enumerate(procs, 1):
            if a in forked:
                self.lines.append("ACTF %d %d" % (a, p))
            else:
                self.lines.append("ACT %d %d %d" % (a, p, thr.get(p, 0)))
                thr[p] = thr.get(p, 0) + 1
        for p, s, f in fds:
            self.lines.append("FD %d %d %s" % (p, s, f))
        self.lines += list(links)
        self.lines += ["ENV %d %s" % e for e in env]
        self.n = {}

    def op(self, a, *ops):
        for o in ops:
            for x in (o if isinstance(o, (list, tuple)) else [o]):
                self.lines.append("OP %d %s" % (a, x))
                self.n[a] = self.n.get(a, 0) + 1
        return self

    def prog(self, *strat, **kw):
        race = kw.pop("race", 1.0)
        if race and "fresh=1" not in self.cfg and "rt=1" not in self.cfg and len(self.procs) > 1 and len(self.lines) < 200:
            # exchanging of conflicting accesses, besides the given strategies
            ops = [l.split()[2:] for l in self.lines if l.startswith("OP ")]
            tick = any(o[0] in ("mT", "rT", "wT", "cT") and o[-1] != "0" for o in ops)
            add = []
            for s in strat:
                w = s.split()
                m = dict(x.split("=") for x in w[1:] if "=" in x)
                if w[0] == "PCTS" and not any(x.startswith("RACE") for x in add):
                    add.append("RACE n=%d tick=%d d=5 seed=%s" % (int(m["n"]) * 12 * race, tick, m["seed"]))
                elif w[0] == "RCRASH" and int(m.get("two", 0)) == 0:
                    add.append("RACE n=%d tick=%d d=4 crash=%d actors=%s seed=%s" % (int(m["n"]) * 8 * race, tick, int(m["n"]), [dict(x.split("=") for x in y.split()[1:] if "=" in x) for y in strat if y.startswith("CRASHES")][0]["actors"], m["seed"]))
            strat = list(strat) + add
        return Prog(self.name, "CFG %s out=%d\n" % (self.cfg, kw.pop("out", 600)) + "\n".join(self.lines), strat, **kw)


class Gen:
    def __init__(self, seed, tier):
        self.rng = random.Random(seed)
        self.seed = seed
        self.thorough = tier == "thorough"
        self.k = 12 if self.thorough else 1
        self.cnt = 0

    def name(self, s):
        self.cnt += 1
        return "%s%d" % (s, self.cnt)

    def pick(self, l):
        return self.rng.choice(l)

    def bytesname(self):
        """a name of any bytes but NUL"""
        if not hasattr(self, "_bn"):
            self._bn = ["%c3%a9", "%c3%a8", "%c3", "%ff", "%fe", "%80", "%01", "%7f", "%20", "%20%20", "/", "/a", "../a", "%25", "%25s", "%0a", "a%20b", "a%20", "a", "%09a", "*", "%ff" * 63, "%ff" * 64, "%ff" * 62,
                        "%80" * 63 + "a", "%80" * 62 + "%81"]
        return self.rng.choice(self._bn)

    def n(self, x):
        return int(x * self.k)

    def seedstr(self):
        return "seed=%d" % self.rng.randrange(1, 1 << 30)

    # ---------------- strategies
    def sys(self, k1=True, k2=250):
        s = ["SYS k=1 max=%d %s" % (1500 * (3 if self.thorough else 1), self.seedstr())] if k1 else []
        if k2:
            s.append("SYS k=2 max=%d %s" % (self.n(k2), self.seedstr()))
        return s

    def rnd(self, n=200, tickp=0):
        return ["RANDS n=%d tickp=%d %s" % (self.n(n), tickp, self.seedstr()), "PCTS n=%d tickp=%d %s" % (self.n(n // 2), tickp, self.seedstr())]

    def crash(self, mx=400, actors=255, r=100, two=0):
        return ["CRASHES max=%d actors=%d %s" % (mx * (5 if self.thorough else 1), actors, self.seedstr())] + (["RCRASH n=%d two=%d %s" % (self.n(r), two, self.seedstr())] if r else [])

    def base(self):
        """virtual clock at start(us parts around the second boundary too)"""
        return "base=%d" % self.pick([1000999999000, 5000000000, 1000000000000, 1000500000000, 2000999000000, 3000001000000])

    # ---------------- fragments
    def mlock(self, nm, us=(3000,)):
        return self.pick(["ml %s" % nm] * 3 + ["mt %s" % nm, "mT %s %d" % (nm, self.pick(us))])

    def mseq(self, names, n, us=(3000,), stray=0.1):
        """n mutex calls which mostly make sense"""
        out, held = [], []
        while len(out) < n:
            r = self.rng.random()
            if r < stray:
                out.append("mu %s" % self.pick(names))
            elif held and (r < 0.5 or len(out) + len(held) >= n):
                out.append("mu %s" % held.pop(self.rng.randrange(len(held)) if self.rng.random() < 0.3 else -1))
            else:
                m = self.pick(names)
                held.append(m)
                out.append(self.mlock(m, us))
        return out

    def rlock(self, fd, r, us=(3000,), modes="rw"):
        m = self.pick(list(modes))
        return self.pick(["%sl" % m] * 3 + ["%st" % m, "%sT" % m]).strip() and self._rl(m, fd, r, us)

    def _rl(self, m, fd, r, us):
        k = self.pick("lllttT")
        s = "%s%s %d %d %d" % (m, k, fd, r[0], r[1])
        return s + (" %d" % self.pick(us) if k == "T" else "")

    def rseq(self, fds, ranges, n, us=(3000,), stray=0.1, il=0.0, modes="rrw"):
        out, held = [], []
        while len(out) < n:
            r = self.rng.random()
            fd, g = self.pick(fds), self.pick(ranges)
            if r < il:
                out.append("il %d %d %d" % (fd, g[0], g[1]))
            elif r < il + stray:
                out.append("u %d %d %d" % (fd, g[0], g[1]))
            elif held and (r < 0.55 or len(out) + len(held) >= n):
                fd, g = held.pop(self.rng.randrange(len(held)) if self.rng.random() < 0.3 else -1)
                out.append("u %d %d %d" % (fd, g[0], g[1]))
            else:
                # the same thread does not wait for itself through blocking calls too often
                m = self.pick(list(modes))
                if held and self.rng.random() < 0.7:
                    out.append("%st %d %d %d" % (m, fd, g[0], g[1]))
                else:
                    out.append(self._rl(m, fd, g, us))
                held.append((fd, g))
        return out


# ranges which overlap each other(all of them contain 5), and others which are apart from them
CLIQUE = [(0, 10), (5, 10), (4, 2), (0, 100), (5, 1), (3, 7)]
APART = [(100, 10), (110, 10), (200, 1), (201, 5)]
FD2 = [(1, 0, "fa"), (2, 0, "fa"), (3, 0, "fa")]


def some_clique(g, n=2):
    return g.rng.sample(CLIQUE, n)


# ------------------------------------------------------------------ stages: a prepared state, calls at once, a probe
def rwstage(g, name, crash=False, il=0.0, robust=None, caps="4,8,16,8,4,8", free=None, tries=0.4):
    procs = g.pick([[1, 2, 3], [1, 2, 3], [1, 1, 2], [1, 2, 2], [1, 2, 3, 3], [1, 1, 2, 2]])
    fds = FD2 + [(1, 1, "fb"), (2, 1, "fb"), (3, 1, "fb")]
    b = B(g.name(name), procs, "free=%d robust=%d caps=%s %s" % (g.pick([0, 1, 2]) if free is None else free, g.pick([0, 2]) if robust is None else robust, caps, g.base()), fds)
    rs = [(0, 0) + r for r in g.rng.sample(CLIQUE, 2)]
    rs = [(r[0],) + r[2:] for r in rs]
    held = {}
    mode = g.pick("rrw")
    for a in range(1, len(procs) + 1):
        x = g.rng.random()
        if x < 0.5 and (mode == "r" or not held):
            r = g.pick(rs)
            b.op(a, "bar %d" % a, "%sl %d %d %d" % ((mode,) + r))
            held[a] = [r]
        elif x < 0.7:
            r = (g.pick([0, 1]),) + g.pick(APART)
            b.op(a, "bar %d" % a, "%st %d %d %d" % ((g.pick("rw"),) + r))
            held[a] = [r]
    for a in range(1, len(procs) + 1):
        b.op(a, "bar 10")
        for k in range(g.pick([1, 1, 2, 2, 3])):
            x = g.rng.random()
            r = g.pick(rs + rs + [(g.pick([0, 1]),) + g.pick(APART)])
            if x < il:
                b.op(a, "il %d %d %d" % r)
            elif held.get(a) and x < il + 0.5:
                b.op(a, "u %d %d %d" % held[a].pop())
            elif x < il + 0.55:
                b.op(a, "u %d %d %d" % r)
            else:
                m = g.pick("rw")
                if any(h[0] == r[0] for h in held.get(a, [])) or g.rng.random() < tries:
                    b.op(a, g.pick(["%st %d %d %d", "%st %d %d %d", "%sT %d %d %d 2000"]) % ((m,) + r))
                else:
                    b.op(a, "%sl %d %d %d" % ((m,) + r))
                held.setdefault(a, []).append(r)
    for a in range(1, len(procs) + 1):
        if held.get(a):
            b.op(a, "bar %d" % (20 + g.pick([0, 0, a])))
            for r in held[a]:
                b.op(a, "u %d %d %d" % r)
    a = len(procs)
    b.op(a, "bar 30", "il %d %d %d" % rs[0], "wt %d %d %d" % rs[0], "u %d %d %d" % rs[0], "rt %d %d %d" % rs[1], "u %d %d %d" % rs[1])
    if crash:
        return b.prog(*(g.crash(150, actors=g.pick([1, 3, 255]), r=60)), out=350)
    return b.prog(*(g.rnd(100, 30)), race=2.0)


def takeover(g, name, what):
    """a process dies while it works on a list, two others want to work on it at once"""
    procs = ([1, 2, 3] if g.rng.random() < 0.7 else [1, 2, 2]) + ([2] if "c" == what else [])
    b = B(g.name(name), procs, "robust=2 chk=50 free=%d" % g.pick([0, 1, 2]), FD2 + [(1, 1, "fb"), (2, 1, "fb"), (3, 1, "fb")])
    if "m" == what:
        b.op(1, g.pick(["ml a", "mt a", "ml m"]), *g.pick([[], ["mu a"]]))
        for a in (2, 3):
            b.op(a, "bar 1", *g.pick([["ml m", "mu m"], ["ml m", "mu m"], ["mt m", "mu m"], ["ml n", "mu n", "ml m", "mu m"]]))
        b.op(3, "bar 2", "ml m", "mu m")
    elif "r" == what:
        b.op(1, *g.pick([["wl 1 0 10"], ["wl 0 100 10", "u 0 100 10"], ["rl 0 0 10"], ["wt 0 5 10", "u 0 5 10"]]))
        for a in (2, 3):
            b.op(a, "bar 1", *g.pick([["wl 0 0 10", "u 0 0 10"], ["wl 0 5 10", "u 0 5 10"], ["wl 0 0 10", "u 0 0 10", "rl 0 0 10", "u 0 0 10"]]))
        b.op(3, "bar 2", "wl 0 0 10", "u 0 0 10")
    else:
        b.op(1, *g.pick([["ml a", "cT c a 0"], ["ml a", "mu a", "cs c"], ["ml a", "cT c a 2000", "mu a"]]))
        for a, m in ((2, g.pick("amn")), (3, "o")):
            b.op(a, "bar 1", "ml %s" % m, "cw c %s" % m, "mu %s" % m)
        b.op(4, "bar 2", "cs c", "bar 3", "cs c", "bar 4", "cb c")
    k = 10 if g.thorough else 1
    sd = g.seedstr()
    return b.prog("CRASHES max=60 actors=1 %s" % g.seedstr(), "RACE n=%d d=4 crash=%d actors=1 %s" % (5000 * k, 350 * k, sd), "RACE n=%d d=5 crash=%d actors=1 %s9" % (3000 * k, 250 * k, sd), out=300)


def modes(g, name, what, die=False, n=2):
    """a change in each direction, while a lock is waited for in each way"""
    P = [modestage(g, name, what, die, i, t, k) for i, t in ((2, 0), (2, 1), (0, 2)) for k in ((0, 1) if "r" == what and i else (0,))]
    return P + [modestage(g, name, what, die) for i in range(g.n(n))]


def modestage(g, name, what, die=False, ini=None, to=None, kind=None):
    """the modes of a process are changed while one of its threads is in a call"""
    b = B(g.name(name), [1, 2, 2, 3], "robust=%d chk=50 free=%d" % (g.pick([0, 1, 2, 2, 2]) if ini is None else ini, g.pick([0, 1, 2])), FD2)
    if "m" == what:
        lk, ul, tr = g.pick(["ml A", "ml A", "mT A 3000"]) if kind is None else "ml A", "mu A", "mt A"
        b.op(1, "ml A")
    elif "r" == what:
        r, q = g.rng.sample(CLIQUE, 2)
        lk, ul, tr = (g.pick(["wl 0 %d %d", "rl 0 %d %d", "wT 0 %d %d 3000"]) if kind is None else ["wl 0 %d %d", "rl 0 %d %d"][kind]) % q, "u 0 %d %d" % q, "wt 0 %d %d" % q
        b.op(1, "wl 0 %d %d" % r)
    else:
        lk, ul, tr = g.pick(["cw c A", "cT c A 3000"]), "mu A", "mt A"
    if "c" == what:
        b.op(2, "ml A", lk, ul, "bar 9", tr, ul)
    else:
        b.op(2, "bar 1", lk, ul, "bar 9", lk, ul)
    ch = ["%s %d" % (g.pick(["robust", "robust", "robust", "free", "nomap"]), g.pick([0, 1, 2])) for i in range(g.pick([1, 2, 3]))]
    if to is not None:
        ch[0] = "robust %d" % to
    ch = [y for x in ch for y in ([x, "chk 50"] if x == "robust 2" else [x])]
    b.op(3, "bar 2", *ch, "bar 8")
    rel = "kill 1" if die else {"m": "mu A", "r": "u 0 %d %d" % (r if "r" == what else (0, 0)), "c": "cs c"}[what]
    if die:
        b.op(4, "bar 3", rel, "bar 5", *g.pick([["robust 2", "chk 50"], [tr]]))
        b.op(4, lk if "c" != what else tr, ul)
    elif "c" == what:
        b.op(1, "bar 3", rel)
        b.op(4, "bar 5", tr, ul)
    else:
        b.op(1, "bar 3", rel)
        b.op(4, "bar 5", lk, ul)
    return b.prog(*(g.rnd(60, 40 if "T" in lk else 0) + ["SYS k=1 max=200 %s" % g.seedstr()]), out=150, race=0.2)


def othermounts():
    """directories of different devices which have one inode number"""
    out = []
    for p in ("/proc", "/dev/shm", "/dev/pts", "/sys", "/dev/mqueue", "/run", "/run/lock", "/sys/fs/cgroup"):
        try:
            st = os.stat(p)
            os.close(os.open(p, os.O_RDONLY))
        except OSError:
            continue
        if all(st.st_dev != o[1] for o in out):
            out.append((p, st.st_dev, st.st_ino))
    k = {}
    for p, d, i in out:
        k.setdefault(i, []).append(p)
    return max(k.values(), key=len, default=[])


def mstage(g, name, crash=False, robust=None):
    procs = g.pick([[1, 2], [1, 2, 3], [1, 2, 3], [1, 1, 2], [1, 2, 3, 3]])
    b = B(g.name(name), procs, "robust=%d %s" % (g.pick([0, 2]) if robust is None else robust, g.base()))
    nms = g.pick([["A"], ["A"], ["A", "B"]])
    held = {}
    own = g.rng.randrange(1, len(procs) + 1)
    b.op(own, *["ml A"] * g.pick([1, 1, 2]))
    held[own] = ["A"]
    for a in range(1, len(procs) + 1):
        b.op(a, "bar 10")
        for k in range(g.pick([1, 2, 2, 3])):
            x = g.rng.random()
            n = g.pick(nms)
            if held.get(a) and x < 0.5:
                b.op(a, "mu %s" % held[a].pop())
            elif x < 0.55:
                b.op(a, "mu %s" % n)
            else:
                b.op(a, g.pick(["ml %s", "ml %s", "mt %s", "mT %s 1000", "mT %s 1000"]) % n)
                held.setdefault(a, []).append(n)
    for a in range(1, len(procs) + 1):
        b.op(a, "bar %d" % (20 + g.pick([0, 0, a])), *["mu %s" % n for n in held.get(a, [])])
    for a in range(1, len(procs) + 1):
        b.op(a, "bar %d" % (30 + a), "mt A", "mu A")
    if crash:
        return b.prog(*(g.crash(150, actors=g.pick([1, 3, 255]), r=60)), out=350)
    return b.prog(*(g.rnd(100, 60)), race=2.0)


def cstage(g, name, crash=False, robust=None):
    procs = g.pick([[1, 2], [1, 2, 3], [1, 2, 3], [1, 2, 2, 3], [1, 1, 2, 3]])
    b = B(g.name(name), procs, "robust=%d %s" % (g.pick([0, 2]) if robust is None else robust, g.base()))
    cs = g.pick([["c"], ["c"], ["c"], ["c", "d"]])
    ms = g.pick([["A"], ["A"], ["A", "B"]])
    n = len(procs)
    nw = g.rng.randrange(1, n)
    wm = {}
    for a in range(1, nw + 1):
        wm[a] = g.pick(ms)
        b.op(a, "bar %d" % a, "ml %s" % wm[a])
        t = g.pick([None, None, 2000, 0])
        b.op(a, "cw %s %s" % (cs[0], wm[a]) if t is None else "cT %s %s %d" % (cs[0], wm[a], t), "mu %s" % wm[a])
    for a in range(nw + 1, n + 1):
        m = g.pick(ms)
        b.op(a, "bar %d" % g.pick([nw, 10, 10]))
        for k in range(g.pick([1, 2])):
            x = g.rng.random()
            if x < 0.35:
                b.op(a, "ml %s" % m, g.pick(["cs %s", "cb %s"]) % g.pick(cs), "mu %s" % m)
            elif x < 0.65:
                b.op(a, g.pick(["cs %s", "cb %s"]) % g.pick(cs))
            elif x < 0.9:
                b.op(a, "ml %s" % m, g.pick(["cT %s %s 0", "cT %s %s 2000", "cw %s %s"]) % (g.pick(cs), m), "mu %s" % m)
            else:
                b.op(a, "mt %s" % m, "mu %s" % m)
    b.op(n, "bar 20", "cs c", "bar 21", "cb c", "bar 22", "mt A", "mu A")
    if crash:
        return b.prog(*(g.crash(150, actors=g.pick([1, 3, 255]), r=60)), out=350)
    return b.prog(*(g.rnd(100, 60)), race=2.0)


# ------------------------------------------------------------------ mutex
def c01(g):
    P = []
    for procs in ([1, 2], [1, 1], [1, 2, 2], [1, 2, 3]):
        b = B(g.name("m"), procs, "robust=%d" % g.pick([0, 2]))
        for a in range(1, len(procs) + 1):
            b.op(a, "ml A", "mu A", "ml A", "mu A")
        P.append(b.prog(*(g.sys(len(procs) < 3, 300) + g.rnd(200))))
    b = B(g.name("m"), [1, 2, 3], "")
    b.op(1, "ml A", "mu A").op(2, "mt A", "mu A", "mt A", "mu A").op(3, "mT A 4000", "mu A", "ml A")
    P.append(b.prog(*(g.sys(True, 400) + g.rnd(200, 60))))
    # names are made at the same time
    for names in (["A", "B", "C"], ["C", "B", "A"], ["x", "yy", "zzz"]):
        b = B(g.name("mn"), [1, 2, 3], "robust=%d" % g.pick([0, 2]))
        for a in (1, 2, 3):
            ns = list(names)
            g.rng.shuffle(ns)
            b.op(a, *["ml %s" % x for x in sorted(ns)[:2]])
            b.op(a, *["mu %s" % x for x in sorted(ns)[:2]])
            b.op(a, "mt %s" % ns[2], "mu %s" % ns[2])
        P.append(b.prog(*(g.sys(True, 200) + g.rnd(150))))
    for i in range(g.n(14)):
        procs = g.pick([[1, 2], [1, 2, 3], [1, 1, 2], [1, 1, 2, 2]])
        b = B(g.name("mr"), procs, "robust=%d chk=%d %s" % (g.pick([0, 1, 2, 2]), g.pick([50, 200]), g.base()))
        names = g.pick([["A"], ["A"], ["A", "B"], ["A", "B", "C"]])
        for a in range(1, len(procs) + 1):
            b.op(a, *g.mseq(names, g.pick([3, 4, 5, 6]), (1000, 5000), 0.05))
        P.append(b.prog(*(g.sys(False, 150) + g.rnd(120, g.pick([0, 40, 100])))))
    P += [mstage(g, "ms") for i in range(g.n(12))]
    P += modes(g, "mm", "m")
    return P


def c02(g):
    P = []
    b = B(g.name("q"), [1, 2, 2])
    b.op(1, "mu A", "ml A", "ml A", "mt A", "mT A 1000", "mu A", "mu A", "mu A", "mu A", "mu A", "mu Z")
    b.op(2, "mu A", "mt A", "mu A", "mu A").op(3, "ml A", "mu A", "mu A")
    P.append(b.prog(*(g.sys(True, 400) + g.rnd(200, 50))))
    b = B(g.name("q"), [1, 2])
    b.op(1, "ml A", "ml A", "mu A", "mu A", "mu A").op(2, "mu A", "mt A", "mu A", "ml A", "mu A")
    P.append(b.prog(*(g.sys(True, 500) + g.rnd(200))))
    b = B(g.name("q"), [1, 1])
    b.op(1, "ml A", "mT A 0", "mu A", "mt B", "mu A", "mu B").op(2, "mu A", "mu B", "mt A", "mu A", "mt B", "mu B")
    P.append(b.prog(*(g.sys(True, 300) + g.rnd(200))))
    b = B(g.name("q"), [1, 2])
    b.op(1, *(["ml A"] * 7 + ["mu A"] * 6)).op(2, "mt A", "mu A", "mT A 3000", "mu A")
    P.append(b.prog(*(g.sys(True, 100) + g.rnd(100, 50))))
    # ownership through a condition wait is given back and regained one level
    for i in range(g.n(16)):
        procs = g.pick([[1], [1, 2], [1, 2], [1, 1], [1, 2, 3]])
        b = B(g.name("qr"), procs, "robust=%d" % g.pick([0, 2]))
        names = g.pick([["A"], ["A", "B"]])
        for a in range(1, len(procs) + 1):
            b.op(a, *g.mseq(names, g.pick([5, 6, 8]), (0, 2000), 0.3))
        P.append(b.prog(*(g.sys(False, 120) + g.rnd(120, g.pick([0, 60])))))
    b = B(g.name("q"), [1, 2], "robust=%d" % g.pick([0, 2]))
    k = g.pick([20, 21])
    b.op(1, *([g.pick(["ml A", "mt A", "mT A 1000"]) for i in range(k)] + ["mu A"] * (k - 1) + ["bar 2", "mu A", "mu A"])).op(2, "bar 1", "mt A", "mu A", "bar 3", "mt A", "mu A", "mu A")
    P.append(b.prog("RANDS n=4 %s" % g.seedstr(), out=20))
    P += [mstage(g, "ms") for i in range(g.n(6))]
    return P


def c03(g):
    P = []
    for kind in ("ml A", "mt A", "mT A 3000"):
        b = B(g.name("k"), [1, 2, 3])
        b.op(1, kind, "mu A").op(2, "ml A", "mu A", "ml A", "mu A").op(3, "ml A", "mu A", "mt B", "mu B")
        P.append(b.prog(*(g.crash(600, r=150))))
    b = B(g.name("k"), [1, 2])
    b.op(1, "ml A", "ml A", "mu A", "ml B", "mu B", "mu A").op(2, "ml A", "mu A", "mu A", "mt A", "mu A", "ml B", "mu B")
    P.append(b.prog(*(g.crash(700, r=150))))
    P += modes(g, "km", "m", True)
    # a thread of a living process
    b = B(g.name("k"), [1, 1, 2])
    b.op(1, "ml A", "ml A", "tx").op(2, "ml A", "mu A", "mt A", "mu A").op(3, "ml A", "mu A")
    P.append(b.prog(*(g.sys(True, 100) + g.rnd(100))))
    b = B(g.name("k"), [1, 2, 2])
    b.op(1, "ml B", "ml A", "mu B", "mu A").op(2, "ml A", "mu A", "tx").op(3, "ml A", "mu A", "ml B", "mu B")
    P.append(b.prog(*(g.crash(300, r=100) + g.rnd(60))))
    # the living are not robbed
    b = B(g.name("k"), [1, 2, 3])
    b.op(1, "ml A", "bar 1", "mt A", "mu A", "mu A").op(2, "ml A", "mu A").op(3, "kill 2", "ml A", "mu A")
    P.append(b.prog(*(g.rnd(60) + g.sys(True, 60))))
    b = B(g.name("k"), [1, 1, 2])
    b.op(1, "ml A", "bar 1", "mu A").op(2, "ml B", "tx").op(3, "ml B", "ml A", "mu A", "mu B")
    P.append(b.prog(*(g.rnd(80) + g.sys(True, 60))))
    # many names, made around the death
    b = B(g.name("k"), [1, 2, 3])
    b.op(1, "ml A", "ml B", "ml C").op(2, "ml B", "mu B", "ml D", "mu D").op(3, "ml C", "mu C", "ml A", "mu A", "ml E")
    P.append(b.prog(*(g.crash(400, actors=7, r=200))))
    # zombies
    for reap in (0, 1):
        b = B(g.name("k"), [1, 2])
        b.op(1, "ml A", "ml A", "mt B", "bar 2").op(2, "bar 1", "mt A", "kill 1 %d" % reap, "mt A", "mT A 2000", "ml A", "mu A", "mu A", "ml B", "mu B")
        P.append(b.prog(*(g.rnd(20))))
    for i in range(g.n(8)):
        procs = g.pick([[1, 2], [1, 2, 3], [1, 2, 2], [1, 1, 2]])
        b = B(g.name("kr"), procs, "chk=%d" % g.pick([50, 120]))
        names = g.pick([["A"], ["A", "B"]])
        for a in range(1, len(procs) + 1):
            b.op(a, *g.mseq(names, g.pick([3, 4, 5]), (1000, 5000), 0.05))
        P.append(b.prog(*(g.crash(250, r=120, two=g.pick([0, 1])))))
    P += [mstage(g, "ms", True, 2) for i in range(g.n(6))]
    P += [takeover(g, "mv", "m") for i in range(g.n(4))]
    return P


FARUS = [2**63 - 1, 2**62, 4294967296, 4294967296000000, 2147483648000000, 2147483647999999, 9223372036854775, 9223372036854775000, -2, -1000, -1000000, -5000001, -2**63]


def c04(g):
    P = []
    us = [0, 1, 999, 1000, 2000, 999999, 1000000, 1000001, 2500000]
    for i in range(g.n(7)):
        b = B(g.name("t"), [1, 2, 3], g.base() + " robust=%d" % g.pick([0, 2]))
        b.op(1, "ml A", "bar 3", "mu A", "mt A", "mu A")
        b.op(2, "bar 1", "mt A", "mT A %d" % g.pick(us), "mu A").op(3, "bar 2", "mT A %d" % g.pick(us), "mu A")
        P.append(b.prog(*(g.rnd(60, 60) + g.sys(True, 60))))
    for i in range(g.n(10)):
        b = B(g.name("t"), [1, 2, 3], g.base() + " free=%d" % g.pick([0, 1, 2]), FD2)
        r = some_clique(g)
        m = g.pick("rw")
        b.op(1, "%sl 0 %d %d" % ((m,) + r[0]), "bar 3", "u 0 %d %d" % r[0])
        b.op(2, "bar 1", "wt 0 %d %d" % r[1], "wT 0 %d %d %d" % (r[1] + (g.pick(us),)), "u 0 %d %d" % r[1])
        b.op(3, "bar 2", "%sT 0 %d %d %d" % ((g.pick("rw"),) + r[1] + (g.pick(us),)), "u 0 %d %d" % r[1], "rt 0 %d %d" % r[0], "u 0 %d %d" % r[0])
        P.append(b.prog(*(g.rnd(60, 60) + g.sys(True, 80))))
    # timeouts which are too far away, or have passed already
    for i, v in enumerate(FARUS):
        b = B(g.name("tf"), [1, 2, 3], g.base() + " robust=%d free=%d" % (g.pick([0, 2]), g.pick([0, 1, 2])), FD2)
        m = "rw"[i % 2]
        b.op(1, "ml A", "wl 0 0 10", "bar 3", "mu A", "u 0 0 10").op(2, "bar 1", "mT A %d" % v, "mu A").op(3, "bar 2", "%sT 0 0 10 %d" % (m, v), "u 0 0 10", "%sT 0 0 10 %d" % (m, v), "u 0 0 10", "mt A", "mu A")
        P.append(b.prog(*(g.rnd(10, 20)), out=40))
    # tries against lockers which come and go
    for kk in (("wt", "wl"), ("rt", "wl"), ("wt", "rl"), ("rt", "rl"), ("rt", "rt")):
        b = B(g.name("t"), [1, 2, 2], "free=%d" % g.pick([0, 1, 2]), FD2)
        b.op(1, kk[0] + " 0 0 10", "u 0 0 10", kk[0] + " 0 0 10", "u 0 0 10").op(2, kk[1] + " 0 5 10", "u 0 5 10").op(3, kk[1] + " 0 0 10", "u 0 0 10")
        P.append(b.prog(*(g.sys(True, 250) + g.rnd(120))))
    b = B(g.name("t"), [1, 2, 2])
    b.op(1, "mt A", "mu A", "mt A", "mu A").op(2, "ml A", "mu A").op(3, "mt A", "mu A")
    P.append(b.prog(*(g.sys(True, 250) + g.rnd(120))))
    for i in range(g.n(8)):
        b = B(g.name("tr"), g.pick([[1, 2], [1, 2, 3], [1, 1, 2]]), g.base() + " free=%d robust=%d" % (g.pick([0, 1, 2]), g.pick([0, 2])), FD2)
        rs = some_clique(g, 2) + [g.pick(APART)]
        for a in range(1, len(b.procs) + 1):
            if g.rng.random() < 0.4:
                b.op(a, *g.mseq(["A"], 4, g.rng.sample(us, 3)))
            b.op(a, *g.rseq([0], rs, g.pick([3, 4, 5]), g.rng.sample(us, 3)))
        P.append(b.prog(*(g.rnd(150, 60) + g.sys(False, 80))))
    P += [mstage(g, "ms") for i in range(g.n(6))] + [rwstage(g, "rs", tries=0.8) for i in range(g.n(6))]
    return P


# ------------------------------------------------------------------ reader/writer locks
def rw_probe(g, b, a, ranges):
    """a fresh attempt at the end tells what is really held"""
    for r in ranges:
        b.op(a, "wt 0 %d %d" % r, "u 0 %d %d" % r)


def c05(g):
    P = []
    for r1, r2 in (((0, 10), (5, 10)), ((0, 10), (0, 10)), ((0, 100), (4, 2)), ((5, 1), (0, 10)), ((9, 5), (0, 10))):
        for kk in (("wl", "wl"), ("wl", "rl")):
            b = B(g.name("x"), g.pick([[1, 2], [1, 2], [1, 1]]), "free=%d robust=%d" % (g.pick([0, 1, 2]), g.pick([0, 2])), FD2)
            b.op(1, "%s 0 %d %d" % ((kk[0],) + r1), "u 0 %d %d" % r1, "wt 0 %d %d" % r1, "u 0 %d %d" % r1)
            b.op(2, "%s 0 %d %d" % ((kk[1],) + r2), "u 0 %d %d" % r2, "rt 0 %d %d" % r2, "u 0 %d %d" % r2)
            P.append(b.prog(*(g.sys(True, 150) + g.rnd(60)), out=250))
    # several readers and a writer
    b = B(g.name("x"), [1, 2, 3, 3], "", FD2)
    b.op(1, "rl 0 0 10", "u 0 0 10").op(2, "rl 0 5 10", "u 0 5 10", "wt 0 5 10").op(3, "wl 0 4 2", "u 0 4 2").op(4, "wT 0 3 7 3000", "u 0 3 7")
    P.append(b.prog(*(g.sys(False, 400) + g.rnd(300, 40))))
    # same file through several descriptors and paths, huge offsets
    fds = [(1, 0, "fa"), (1, 1, "fa"), (2, 0, "fa"), (2, 1, "fl"), (3, 0, "fa")]
    for rs in ([(0, 10), (5, 10)], [(0x7ffffffffffffff0, 8), (0x7ffffffffffffff4, 8)], [(0x100000000, 0x200000000), (0x180000000, 16)], [(0, 0x7fffffffffffffff), (1 << 40, 10)]):
        b = B(g.name("x"), [1, 1, 2], "free=%d" % g.pick([0, 1, 2]), fds, links=["LINK fa fl"])
        for a, fd in ((1, 0), (2, 1), (3, g.pick([0, 1]))):
            r = rs[a % 2]
            b.op(a, "%s %d %d %d" % ((g.pick(["wl", "wl", "rl"]), fd) + r), "u %d %d %d" % ((fd,) + r), "wt %d %d %d" % ((fd,) + rs[0]))
        P.append(b.prog(*(g.sys(True, 100) + g.rnd(100))))
    for i in range(g.n(12)):
        procs = g.pick([[1, 2], [1, 2, 3], [1, 1, 2], [1, 1, 2, 2]])
        b = B(g.name("xr"), procs, "free=%d robust=%d %s" % (g.pick([0, 1, 2]), g.pick([0, 1, 2]), g.base()), fds, links=["LINK fa fl"])
        rs = some_clique(g, 2) + ([g.pick(APART)] if g.rng.random() < 0.4 else [])
        for a in range(1, len(procs) + 1):
            f = [0] if procs[a - 1] == 3 else g.pick([[0], [1], [0, 1]])
            b.op(a, *g.rseq(f, rs, g.pick([3, 4, 5, 6]), (1000, 4000), 0.08))
        P.append(b.prog(*(g.sys(False, 150) + g.rnd(150, g.pick([0, 40])))))
    P += [rwstage(g, "rs") for i in range(g.n(12))]
    return P


def c06(g):
    P = []
    fds = FD2 + [(1, 1, "fb"), (2, 1, "fb"), (3, 1, "fb")]
    # disjoint and adjacent ranges, other files
    for x, y in (((0, 0, 10), (0, 10, 10)), ((0, 0, 10), (1, 0, 10)), ((0, 100, 10), (0, 0, 10)), ((-1, 0, 10), (0, 0, 10)), ((0, 10, 10), (0, 0, 10)), ((0, 5, 1), (0, 6, 1))):
        b = B(g.name("i"), [1, 2], "free=%d" % g.pick([0, 1, 2]), fds)
        b.op(1, "wl %d %d %d" % x, "bar 2", "u %d %d %d" % x)
        b.op(2, "bar 1", "wt %d %d %d" % y, "rt %d %d %d" % y, "u %d %d %d" % y, "wl %d %d %d" % y, "u %d %d %d" % y)
        P.append(b.prog(*(g.rnd(30) + g.sys(True, 0))))
    # readers share
    b = B(g.name("i"), [1, 2, 3, 3], "", fds)
    for a in (1, 2, 3, 4):
        b.op(a, "rl 0 %d %d" % CLIQUE[a - 1], "bar %d" % a, "u 0 %d %d" % CLIQUE[a - 1])
    P.append(b.prog(*(g.rnd(100) + g.sys(True, 100))))
    # releases in any order, blocked ones get it
    for i in range(g.n(8)):
        b = B(g.name("i"), [1, 2, 3, 3], "free=%d robust=%d" % (g.pick([0, 1, 2]), g.pick([0, 2])), fds)
        r = g.rng.sample(CLIQUE, 4)
        o = [1, 2, 3]
        g.rng.shuffle(o)
        for a in (1, 2):
            b.op(a, "%s 0 %d %d" % (("rl",) + r[a]), "bar %d" % o[a], "u 0 %d %d" % r[a])
        b.op(3, g._rl("w", 0, r[3], (5000,)), "u 0 %d %d" % r[3])
        b.op(4, g._rl(g.pick("rw"), 0, r[0], (5000,)), "bar %d" % o[0], "u 0 %d %d" % r[0])
        P.append(b.prog(*(g.rnd(150, 20) + g.sys(True, 120))))
    # writers queue
    b = B(g.name("i"), [1, 1, 2, 2], "", fds)
    for a in (1, 2, 3, 4):
        b.op(a, "wl 0 %d %d" % CLIQUE[a - 1], "u 0 %d %d" % CLIQUE[a - 1])
    P.append(b.prog(*(g.rnd(200) + g.sys(False, 200))))
    # ranges which come and go while others are in use
    for i in range(g.n(10)):
        procs = g.pick([[1, 2], [1, 2, 3], [1, 1, 2], [1, 1, 2, 2]])
        b = B(g.name("ir"), procs, "free=%d robust=%d caps=8,16,32,8,4,8" % (g.pick([0, 1, 2]), g.pick([0, 2])), fds)
        for a in range(1, len(procs) + 1):
            b.op(a, *g.rseq(g.pick([[0], [0, 1], [0, -1]]), [APART[a - 1], g.pick(APART), g.pick(CLIQUE)], g.pick([4, 5, 6]), (1000, 4000), 0.03))
        P.append(b.prog(*(g.sys(False, 120) + g.rnd(120, g.pick([0, 40])))))
    P += [rwstage(g, "rs", tries=0.2) for i in range(g.n(14))]
    P += modes(g, "rm", "r")
    return P


def c07(g):
    P = []
    fds = [(1, 0, "fa"), (1, 1, "fa"), (2, 0, "fa"), (2, 1, "fb")]
    b = B(g.name("u"), [1, 1, 2], "", fds)
    b.op(1, "u 0 0 10", "rl 0 0 10", "rt 0 0 10", "u 1 0 10", "u 0 0 10", "u 0 0 10", "u 0 0 10")
    b.op(2, "u 0 0 10", "rl 1 0 10", "u 0 0 10", "u 1 0 10").op(3, "u 0 0 10", "rt 0 0 10", "wt 0 0 10", "u 0 0 10", "wt 0 0 10", "u 0 0 10")
    P.append(b.prog(*(g.sys(True, 250) + g.rnd(150))))
    b = B(g.name("u"), [1, 1, 2], "", fds)
    b.op(1, "wl 0 0 10", "bar 3", "u 0 0 10").op(2, "bar 1", "u 0 0 10", "u 1 0 10", "rt 1 0 10").op(3, "bar 2", "u 0 0 10", "wt 0 0 10", "u 1 0 10", "bar 4", "wt 0 0 10", "u 0 0 10")
    P.append(b.prog(*(g.sys(True, 60) + g.rnd(60))))
    # an unlock does not free the locks of others(file and range are in use)
    for free in (0, 1, 2):
        b = B(g.name("u"), [1, 2, 2], "free=%d" % free, fds)
        b.op(1, "rl 0 0 10", "bar 2", "u 0 0 10").op(2, "rl 0 0 10", "wl 0 100 10", "u 0 0 10", "u 0 100 10", "wt 0 0 10", "u 0 0 10").op(3, "bar 1", "wt 0 5 10", "wt 0 100 10", "u 0 5 10", "u 0 100 10", "bar 3", "wt 0 5 10", "u 0 5 10")
        P.append(b.prog(*(g.sys(True, 60) + g.rnd(100))))
    # no descriptor
    b = B(g.name("u"), [1, 2], "", fds)
    b.op(1, "wl -1 0 10", "u -2 0 10", "u 0 0 10", "u -1 0 10", "u -1 0 10").op(2, "u -1 0 10", "rt -2 0 10", "u -1 0 10", "u -2 0 10")
    P.append(b.prog(*(g.sys(True, 60) + g.rnd(60))))
    for i in range(g.n(18)):
        procs = g.pick([[1, 1], [1, 2], [1, 1, 2]])
        b = B(g.name("ur"), procs, "free=%d robust=%d" % (g.pick([0, 1, 2]), g.pick([0, 2])), fds)
        rs = some_clique(g, g.pick([1, 2])) + ([g.pick(APART)] if g.rng.random() < 0.4 else [])
        for a in range(1, len(procs) + 1):
            b.op(a, *g.rseq(g.pick([[0], [0, 1], [0, -1], [1]]), rs, g.pick([4, 6, 7]), (0, 2000), 0.3))
        P.append(b.prog(*(g.sys(False, 100) + g.rnd(100, g.pick([0, 40])))))
    P += [rwstage(g, "rs") for i in range(g.n(8))]
    return P


def c08(g):
    P = []
    for k1, k2 in (("wl", "wl"), ("rl", "wl"), ("wl", "rl"), ("wt", "wl"), ("rT", "wl")):
        b = B(g.name("d"), [1, 2, 3], "free=%d" % g.pick([0, 1, 2]), FD2)
        us = " 3000" if k1[1] == "T" else ""
        b.op(1, "%s 0 0 10%s" % (k1, us), "u 0 0 10").op(2, "%s 0 5 10" % k2, "u 0 5 10").op(3, "%s 0 4 2" % g.pick(["rl", "wl"]), "u 0 4 2", "wl 0 0 10")
        P.append(b.prog(*(g.crash(400, actors=g.pick([1, 7]), r=80)), out=300))
    # thread end, closed descriptor
    b = B(g.name("d"), [1, 1, 2], "", FD2 + [(1, 1, "fa")])
    b.op(1, "wl 0 0 10", "tx").op(2, "wl 0 5 10", "u 0 5 10").op(3, "rl 0 0 10", "u 0 0 10", "wl 0 0 10", "u 0 0 10")
    P.append(b.prog(*(g.sys(True, 60) + g.rnd(80))))
    for k in ("wl", "rl"):
        b = B(g.name("d"), [1, 1, 2], "free=%d" % g.pick([0, 1, 2]), FD2 + [(1, 1, "fa")])
        b.op(1, k + " 0 0 10", "close 0", "bar 2", "wt 1 0 10").op(2, "bar 1", "wl 1 5 10", "u 1 5 10").op(3, "wl 0 0 10", "u 0 0 10")
        P.append(b.prog(*(g.sys(True, 30) + g.rnd(40)), out=200))
    # reopened as another file
    b = B(g.name("d"), [1, 2], "", FD2)
    b.op(1, "wl 0 0 10", "open 0 fb", "bar 2", "wt 0 0 10").op(2, "bar 1", "wl 0 0 10", "u 0 0 10")
    P.append(b.prog(*(g.sys(True, 30) + g.rnd(30)), out=200))
    # the living keep theirs: readers of which only one dies
    b = B(g.name("d"), [1, 2, 3], "", FD2)
    b.op(1, "rl 0 0 10").op(2, "rl 0 0 10", "bar 3", "u 0 0 10").op(3, "bar 1", "kill 1", "wT 0 5 10 9000", "wt 0 0 10", "bar 4", "wl 0 0 10", "u 0 0 10")
    P.append(b.prog(*(g.rnd(40))))
    b = B(g.name("d"), [1, 2, 2, 3], "", FD2)
    b.op(1, "rl 0 0 10").op(2, "rl 0 0 10", "bar 3", "rt 0 0 10", "u 0 0 10", "u 0 0 10").op(3, "bar 1", "wl 0 5 10", "u 0 5 10").op(4, "bar 2", "kill 1 0", "wl 0 5 10", "u 0 5 10")
    P.append(b.prog(*(g.rnd(60))))
    # others are not disturbed
    for i in range(g.n(2)):
        b = B(g.name("d"), [1, 2, 3], "free=%d" % g.pick([0, 1, 2]), FD2 + [(1, 1, "fb"), (2, 1, "fb"), (3, 1, "fb")])
        b.op(1, "wl 0 0 10", "rl 1 0 10", "u 1 0 10", "u 0 0 10").op(2, "wl 0 100 10", "wl 1 0 10", "u 1 0 10", "u 0 100 10").op(3, "rl 1 100 10", "wl 0 100 10", "u 0 100 10", "wl 0 0 10", "u 0 0 10")
        P.append(b.prog(*(g.crash(300, actors=1, r=60)), out=300))
    # no descriptor
    b = B(g.name("d"), [1, 2, 3], "", FD2)
    b.op(1, "wl -1 0 10", "u -1 0 10").op(2, "rl -1 0 10", "u -1 0 10", "wl -2 5 10").op(3, "wl 0 0 10", "u 0 0 10", "rl -1 0 10")
    P.append(b.prog(*(g.crash(200, actors=3, r=60)), out=250))
    for i in range(g.n(6)):
        procs = g.pick([[1, 2], [1, 2, 3], [1, 2, 2]])
        b = B(g.name("dr"), procs, "free=%d chk=%d" % (g.pick([0, 1, 2]), g.pick([50, 120])), FD2)
        rs = some_clique(g, 2) + ([g.pick(APART)] if g.rng.random() < 0.5 else [])
        for a in range(1, len(procs) + 1):
            b.op(a, *g.rseq([0], rs, g.pick([2, 3, 4]), (1000, 4000), 0.03))
        P.append(b.prog(*(g.crash(200, r=100, two=g.pick([0, 1]))), out=300))
    P += [rwstage(g, "rs", True, robust=2) for i in range(g.n(6))]
    P += [takeover(g, "rv", "r") for i in range(g.n(4))]
    P += modes(g, "rm", "r", True)
    return P


def c09(g):
    P = []
    fds = [(1, 0, "fa"), (1, 1, "fb"), (2, 0, "fa"), (2, 1, "fb"), (1, 2, "fc"), (2, 2, "fc"), (1, 3, "fd"), (2, 3, "fd")]
    probes = ["bo 0 1000 12", "bl 0 2000 14", "bf h 5"]

    def probe(b, a, kinds):
        for k in kinds:
            b.op(a, k)
    # small spaces: everything is used up, and given back
    for free in (0, 1, 2):
        b = B(g.name("s"), [1, 2], "free=%d caps=2,4,6,3,2,4" % free, fds)
        b.op(1, "wl 0 0 10", "wl 0 100 10", "wt 1 0 10", "wt 2 0 10", "wt 0 200 10", "wt 0 300 10", "u 0 0 10", "wt 0 300 10", "u 0 100 10", "u 1 0 10", "u 0 200 10", "u 0 300 10")
        b.op(2, "rt 0 0 10", "rt 1 0 10", "rt 2 0 10", "u 2 0 10", "u 1 0 10", "u 0 0 10", "bar 5", "bl 0 500 8")
        P.append(b.prog(*(g.sys(False, 120) + g.rnd(120))))
    for free in (0, 1, 2):
        b = B(g.name("s"), [1, 1], "free=%d caps=3,8,8,3,2,4" % free, fds)
        b.op(1, "rl 0 0 10", "rl 0 0 10", "rt 0 0 10", "wt 0 0 10", "u 0 0 10", "u 0 0 10", "u 0 0 10", "bar 5", "bl 0 0 9", "bo 0 1000 9")
        b.op(2, "wT 0 5 10 2000", "wt 1 5 10", "u 1 5 10", "rt 1 0 10", "u 1 0 10")
        P.append(b.prog(*(g.sys(True, 80) + g.rnd(100, 60))))
    # names of mutexes and conditions
    b = B(g.name("s"), [1, 2], "caps=2,4,6,3,2,4", fds)
    b.op(1, "ml A", "ml B", "ml C", "mt D", "mu B", "mt E", "ml B", "mu B", "cT c A 0", "cT d A 0", "cT e A 0", "cT c A 1000", "mu A")
    b.op(2, "mt D", "mt A", "cs c", "cs e")
    P.append(b.prog(*(g.sys(False, 60) + g.rnd(60, 60))))
    b = B(g.name("s"), [1, 2, 2, 1, 1], "caps=2,4,6,3,2,4", fds)
    for a in (1, 2, 3, 4, 5):
        b.op(a, "ml A", "cT c A 3000", "mu A")
    P.append(b.prog(*(g.rnd(60, 60)), out=120))
    b = B(g.name("s"), [1, 2], "caps=3,8,12,5,4,8", fds)
    b.op(1, "ml z", "bar 2", "bm x 8", "mt w", "bc y q 6", "bc y x1 6").op(2, "mt A", "mt B", "mu A", "mu B", "bar 3", "bm x 5", "bc k x0 3")
    P.append(b.prog(*(g.sys(True, 30) + g.rnd(40))))
    # capacity at the minimum of each kind
    for caps in ("1,4,4,1,1,4", "2,5,7,2,2,5", "4,8,16,8,4,8"):
        b = B(g.name("s"), [1], "caps=%s" % caps, fds)
        c = [int(x) for x in caps.split(",")]
        b.op(1, "bf h %d" % (c[0] + 2), "bo 0 0 %d" % (c[1] + 2), "bl 0 0 %d" % (c[2] + 2), "bm n %d" % (c[3] + 2), "bf h %d" % (c[0] + 2), "bo 0 0 %d" % (c[1] + 2), "bl 0 0 %d" % (c[2] + 2))
        P.append(b.prog("RANDS n=1"))
    # a failed attempt costs nothing; repeated many times
    for free in (0, 1, 2):
        b = B(g.name("s"), [1, 2], "free=%d caps=2,4,4,2,1,4" % free, fds)
        b.op(1, "wl 0 0 10", "bar 2", "u 0 0 10")
        b.op(2, "bar 1", *(["wt 0 5 10", "rt 0 0 10", "rT 0 3 7 500", "wt 1 0 10", "u 1 0 10"] * 3))
        b.op(2, "bar 3", "bl 1 0 6", "bo 1 0 6")
        P.append(b.prog(*(g.rnd(10, 30) + g.sys(True, 20)), out=150))
    for i in range(g.n(8)):
        free = g.pick([0, 1, 2])
        b = B(g.name("sr"), g.pick([[1, 2], [1, 1], [1, 2, 1]]), "free=%d caps=%s" % (free, g.pick(["1,4,4,2,1,4", "2,4,5,3,2,4", "2,6,6,3,2,4"])), fds)
        rs = [(0, 10), (100, 10), (200, 10), (300, 10), (400, 10)]
        for a in range(1, len(b.procs) + 1):
            b.op(a, *g.rseq(g.pick([[0], [0, 1], [0, 1, 2]]), g.rng.sample(rs, 3), g.pick([5, 7]), (0, 1000), 0.05, modes="rw"))
        b.op(1, "bar 9", "bl 0 0 7")
        P.append(b.prog(*(g.sys(False, 100) + g.rnd(100, 20)), out=250))
    # what the dead leave is collected
    for free in (0, 1, 2):
        b = B(g.name("sd"), [1, 2], "free=%d caps=2,6,8,4,2,4" % free, fds)
        b.op(1, "rl 0 0 10", "wl 0 100 10", "ml A", "bar 9").op(2, "bar 1", "kill 1", "wl 0 0 10", "u 0 0 10", "wl 0 100 10", "u 0 100 10", "ml A", "mu A", "bl 0 0 9", "bm n 6", "bo 0 0 7")
        P.append(b.prog(*(g.rnd(10)), gc=True))
    b = B(g.name("sd"), [1, 2, 3], "caps=3,8,12,6,2,4", fds + [(3, 0, "fa")])
    b.op(1, "rl 0 0 10", "u 0 0 10", "wt 0 100 10", "u 0 100 10").op(2, "wl 0 0 10", "u 0 0 10").op(3, "wl 0 0 10", "u 0 0 10", "bar 3", "bl 0 0 13", "bo 0 0 9")
    P.append(b.prog(*(g.crash(250, actors=1, r=60)), gc=True, out=250))
    b = B(g.name("sd"), [1, 2], "caps=3,8,12,6,3,6", fds)
    b.op(1, "ml A", "ml B", "cT c A 1000", "mu A").op(2, "ml A", "mu A", "bar 3", "bm x 7")
    P.append(b.prog(*(g.crash(250, actors=1, r=40)), gc=True, out=200))
    P += [rwstage(g, "rs", caps="2,4,4,3,2,4") for i in range(g.n(6))]
    return P


def c10(g):
    P = []
    fds = FD2 + [(1, 1, "fb"), (2, 1, "fb"), (1, 2, "fl"), (2, 2, "fl"), (3, 1, "fb"), (3, 2, "fl")]
    asks = ["il 0 0 10", "il 0 5 1", "il 0 10 10", "il 0 9 1", "il 1 0 10", "il 2 0 100", "il -1 0 10", "il 0 100 10", "il 0 0 1000"]
    for k in ("rl", "wl"):
        for free in (0, 1, 2):
            b = B(g.name("l"), [1, 2], "free=%d" % free, fds, links=["LINK fa fl"])
            b.op(1, "%s 0 0 10" % k, "bar 2", "u 0 0 10", "bar 4", "wl 0 200 5")
            b.op(2, "il 0 0 10", "bar 1", *asks)
            b.op(2, "bar 3", *asks[:6])
            b.op(2, "bar 5", "il 0 0 10", "il 0 200 1", "il 0 204 1", "il 0 205 1", "il 0 199 1", "il 0 0 1000")
            P.append(b.prog(*(g.rnd(30) + g.sys(True, 30)), out=200))
    # while it is being locked and released
    for free in (0, 1, 2):
        b = B(g.name("l"), [1, 2, 3], "free=%d" % free, fds, links=["LINK fa fl"])
        b.op(1, "wl 0 0 10", "u 0 0 10").op(2, "rl 0 100 10", "il 0 0 10", "u 0 100 10", "il 0 100 10").op(3, "il 0 5 10", "il 0 105 1", "il 0 0 200", "il 0 5 10")
        P.append(b.prog(*(g.sys(True, 300) + g.rnd(150))))
    # refused and failed attempts do not matter
    b = B(g.name("l"), [1, 2, 2], "caps=2,4,5,2,1,4", fds, links=["LINK fa fl"])
    b.op(1, "wl 0 0 10", "bar 2", "u 0 0 10").op(2, "bar 1", "rt 0 5 10", "wt 0 9 1", "rT 0 0 10 1000", "il 0 10 5", "il 0 0 10", "bar 3", "il 0 0 10", "il 0 0 100").op(3, "il 0 5 10", "il 1 0 10", "il 0 10 100")
    P.append(b.prog(*(g.rnd(80, 40) + g.sys(True, 60))))
    # modes without and with a lock space, closed descriptors
    b = B(g.name("l"), [1, 2], "nomap=%d" % g.pick([0, 1]), fds, links=["LINK fa fl"])
    b.op(1, "il 7 0 10", "wl 0 0 10", "il 0 0 10", "bar 2", "u 0 0 10").op(2, "bar 1", "il 0 0 10", "kill 1", "wl 0 0 10", "u 0 0 10", "il 0 0 10", "il 7 0 10")
    P.append(b.prog(*(g.rnd(20))))
    b = B(g.name("l"), [1, 2, 3], "", fds, links=["LINK fa fl"])
    b.op(1, "wl 0 0 10", "u 0 0 10").op(2, "il 0 5 10", "wl 0 5 10", "u 0 5 10", "il 0 5 10").op(3, "il 0 0 10", "wl 0 100 10", "il 0 100 10", "il 0 0 10", "u 0 100 10", "il 0 100 10")
    P.append(b.prog(*(g.crash(250, actors=1, r=40)), out=250))
    # asking about a range which is kept locked (or kept free) while its neighbours are given back and used again
    for i in range(g.n(8)):
        b = B(g.name("lm"), g.pick([[1, 2], [1, 2, 3]]), "free=%d robust=0 caps=%s" % (g.pick([0, 0, 1, 2]), g.pick(["2,4,6,3,2,4", "4,8,16,8,4,8", "8,6,16,8,4,8"])), fds, links=["LINK fa fl"])
        rs = ["0 0 10", "0 20 10", "0 50 5", "1 0 10", "1 30 10"]
        keep = g.pick(rs[:2])
        first = g.pick(rs[:3] + rs[3:4])
        q = ["%s %s" % (g.pick(["wl", "rl", "wl"]), keep)]
        o = [r for r in rs if r != keep]
        got = g.rng.sample(o, g.pick([1, 2]))
        q += ["wl %s" % r for r in got]
        g.rng.shuffle(q)
        b.op(1, *q)
        b.op(1, "bar 1")
        for k in range(g.pick([1, 2])):
            x = g.pick(got)
            got.remove(x)
            b.op(1, "u %s" % x)
            y = g.pick([r for r in o if r not in got])
            got.append(y)
            b.op(1, "wl %s" % y)
        b.op(2, "bar 1", *["il %s" % g.pick([keep, keep, g.pick(o)]) for j in range(g.pick([1, 2]))])
        if len(b.procs) > 2:
            b.op(3, "bar 1", "il %s" % keep, "rt 0 70 5", "u 0 70 5")
        P.append(b.prog(*(g.sys(True, 150) + g.rnd(60)), race=2.0, out=300))
    for i in range(g.n(10)):
        procs = g.pick([[1, 2], [1, 1], [1, 2, 3]])
        b = B(g.name("lr"), procs, "free=%d robust=%d" % (g.pick([0, 1, 2]), g.pick([0, 2])), fds, links=["LINK fa fl"])
        rs = some_clique(g, 2) + [g.pick(APART)]
        for a in range(1, len(procs) + 1):
            b.op(a, *g.rseq(g.pick([[0], [0, 1], [0, 2], [0, -1]]), rs, g.pick([5, 6, 7]), (0, 2000), 0.05, il=0.35))
        P.append(b.prog(*(g.sys(False, 120) + g.rnd(120, g.pick([0, 40])))))
    P += [rwstage(g, "rs", il=0.4, caps=g.pick(["2,4,6,3,2,4", "4,8,16,8,4,8"])) for i in range(g.n(12))]
    return P


# ------------------------------------------------------------------ conditions
def waiter(g, b, a, c, m, us=None, rec=1):
    b.op(a, *["ml %s" % m] * rec)
    b.op(a, "cT %s %s %d" % (c, m, us) if us is not None else "cw %s %s" % (c, m))
    b.op(a, *["mu %s" % m] * rec)


def c11(g):
    P = []
    # order of waiters
    for what in ("cs c", "cb c"):
        for timed in (None, 50000):
            b = B(g.name("w"), [1, 2, 2, 3], "robust=%d" % g.pick([0, 2]))
            for a in (1, 2, 3):
                if a > 1:
                    b.op(a, "bar %d" % (a - 1))
                waiter(g, b, a, "c", "A", timed)
            b.op(4, "bar 5", what, "bar 6", what, "bar 7", "cs c", "bar 8", "cb c")
            P.append(b.prog(*(g.rnd(30) + g.sys(True, 60)), out=300))
    # nobody waits: not remembered
    b = B(g.name("w"), [1, 2])
    b.op(1, "ml A", "cT c A 2000", "mu A", "bar 3").op(1, "ml A", "cT c A 2000", "mu A").op(2, "cs c", "cb c", "bar 2", "cs c", "cb c")
    P.append(b.prog(*(g.rnd(100, 60) + g.sys(True, 100))))
    # signalling with and without the mutex while the waits begin
    for s in (["cs c"], ["ml A", "cs c", "mu A"], ["ml A", "cb c", "mu A"], ["ml A", "mu A", "cs c"]):
        b = B(g.name("w"), [1, 2, 3], "robust=%d" % g.pick([0, 2]))
        waiter(g, b, 1, "c", "A")
        waiter(g, b, 2, "c", "A", g.pick([None, 4000]))
        b.op(3, *(s + s + ["bar 1"] + s))
        P.append(b.prog(*(g.sys(True, 250) + g.rnd(150, 40))))
    # timeouts against signals
    b = B(g.name("w"), [1, 2, 3])
    waiter(g, b, 1, "c", "A", 3000)
    waiter(g, b, 2, "c", "A")
    b.op(3, "ml A", "cs c", "mu A", "bar 1", "ml A", "cs c", "mu A")
    P.append(b.prog(*(g.sys(True, 200) + g.rnd(250, 100))))
    # other conditions on the same mutex, other mutexes on other conditions
    b = B(g.name("w"), [1, 2, 3], "caps=4,8,16,8,4,8")
    waiter(g, b, 1, "c", "A")
    waiter(g, b, 2, "d", "A")
    b.op(3, "ml A", "cs d", "mu A", "bar 1", "cs d", "cb d", "bar 2", "cs c", "cs x")
    P.append(b.prog(*(g.sys(True, 200) + g.rnd(150))))
    # more waiters than signals
    b = B(g.name("w"), [1, 1, 2, 2, 3])
    for a in (1, 2, 3, 4):
        waiter(g, b, a, "c", "A", g.pick([None, None, 6000]))
    b.op(5, "ml A", "cs c", "mu A", "cs c", "bar 1", "cs c", "bar 2", "cb c")
    P.append(b.prog(*(g.rnd(200, 40))))
    for i in range(g.n(9)):
        procs = g.pick([[1, 2], [1, 2, 3], [1, 1, 2], [1, 1, 2, 2]])
        b = B(g.name("wr"), procs, "robust=%d %s" % (g.pick([0, 1, 2]), g.base()))
        cs = g.pick([["c"], ["c"], ["c", "d"]])
        for a in range(1, len(procs)):
            waiter(g, b, a, g.pick(cs), "A", g.pick([None, 2000, 4000]))
            if g.rng.random() < 0.4:
                waiter(g, b, a, g.pick(cs), "A", g.pick([None, 3000]))
        a = len(procs)
        for j in range(g.pick([2, 3, 4])):
            s = ["%s %s" % (g.pick(["cs", "cs", "cb"]), g.pick(cs))]
            if g.rng.random() < 0.5:
                s = ["ml A"] + s + ["mu A"]
            b.op(a, *s)
            if g.rng.random() < 0.4:
                b.op(a, "bar %d" % (j + 1))
        b.op(a, "bar 9", "cb c")
        P.append(b.prog(*(g.sys(False, 150) + g.rnd(150, g.pick([0, 60])))))
    P += [cstage(g, "cs") for i in range(g.n(12))]
    return P


def c12(g):
    P = []
    # the mutex while waiting, and afterwards
    for timed in (None, 3000, 1000000, 0):
        b = B(g.name("v"), [1, 2, 2], "robust=%d %s" % (g.pick([0, 2]), g.base()))
        waiter(g, b, 1, "c", "A", timed)
        b.op(2, "bar 1", "mt A", "mu A", "ml A", "cs c", "bar 2", "mu A").op(3, "bar 3", "mt A", "mu A", "mu A", "ml A", "mu A")
        P.append(b.prog(*(g.sys(True, 80) + g.rnd(80, 60))))
    # held by another for long after the timeout
    b = B(g.name("v"), [1, 2], g.base())
    b.op(1, "ml A", "cT c A 1500000", "mt A", "mu A", "mu A", "mu A").op(2, "bar 1", "ml A", "mT B 3000000", "mt B", "mT A 5000000", "mu A", "bar 2", "mu A", "bar 3", "mt A", "mu A")
    P.append(b.prog(*(g.rnd(60, 60) + g.sys(True, 40))))
    b = B(g.name("v"), [1, 2, 3], g.base())
    b.op(1, "ml A", "cT c A 2000", "mu A", "mu A").op(2, "ml A", "bar 1", "bar 2", "mu A").op(3, "bar 3", "ml A", "mu A")
    P.append(b.prog(*(g.rnd(80, 60) + g.sys(True, 80))))
    for v in FARUS:
        b = B(g.name("vf"), [1, 2], g.base())
        b.op(1, "ml A", "cT c A %d" % v, "mt A", "mu A", "mu A", "mu A").op(2, "bar 1", "mt A", "cs c", "bar 2", "mu A", "mt A", "mu A", "cs c")
        P.append(b.prog(*(g.rnd(10, 20)), out=40))
    # errors change nothing
    b = B(g.name("v"), [1, 2])
    b.op(1, "cw c A", "cT c A 1000", "ml A", "cw c Z", "cT c Z 0", "mu A", "cw c A", "cs c", "mt A", "mu A").op(2, "ml A", "bar 2", "mu A", "cT c A 0", "mu A", "mt A", "mu A")
    P.append(b.prog(*(g.sys(True, 100) + g.rnd(100, 40))))
    # the lost wake-up: signaller takes the mutex
    for n in (2, 3):
        b = B(g.name("v"), [1, 2, 3][:n])
        for a in range(1, n):
            waiter(g, b, a, "c", "A")
        b.op(n, "ml A", "cb c", "mu A", "bar 1", "ml A", "cb c", "mu A")
        P.append(b.prog(*(g.sys(True, 400) + g.rnd(150))))
    # recursion
    b = B(g.name("v"), [1, 2])
    waiter(g, b, 1, "c", "A", 3000, 2)
    b.op(2, "bar 1", "mt A", "mu A", "cs c", "mt A", "mu A")
    P.append(b.prog(*(g.sys(True, 60) + g.rnd(60, 40))))
    # several wake up at once: one after another gets the mutex
    b = B(g.name("v"), [1, 1, 2, 3])
    for a in (1, 2, 3):
        waiter(g, b, a, "c", "A", g.pick([None, 5000]))
    b.op(4, "bar 1", "ml A", "cb c", "mt A", "mu A", "mu A", "mt A", "mu A")
    P.append(b.prog(*(g.sys(True, 100) + g.rnd(150, 30))))
    # different mutexes on the same condition
    b = B(g.name("v"), [1, 2, 3])
    waiter(g, b, 1, "c", "A")
    waiter(g, b, 2, "c", "B", 4000)
    b.op(3, "bar 1", "mt A", "mt B", "cb c", "mu A", "mu B")
    P.append(b.prog(*(g.sys(True, 60) + g.rnd(80, 30))))
    for i in range(g.n(9)):
        procs = g.pick([[1, 2], [1, 2, 3], [1, 1, 2], [1, 1, 2, 2]])
        b = B(g.name("vr"), procs, "robust=%d %s" % (g.pick([0, 1, 2]), g.base()))
        for a in range(1, len(procs) + 1):
            for j in range(g.pick([1, 2])):
                r = g.rng.random()
                if r < 0.55:
                    waiter(g, b, a, "c", "A", g.pick([None, 1000, 2000, 1000000]), g.pick([1, 1, 1, 2]))
                elif r < 0.8:
                    b.op(a, "ml A", g.pick(["cs c", "cb c"]), "mu A")
                else:
                    b.op(a, *g.mseq(["A"], 4, (1000, 3000), 0.15))
        b.op(len(procs), "bar 8", "ml A", "cb c", "mu A", "bar 9", "cb c")
        P.append(b.prog(*(g.sys(False, 150) + g.rnd(150, g.pick([0, 60])))))
    P += [cstage(g, "cs") for i in range(g.n(8))]
    return P


def c13(g):
    P = []
    for s in (["cs c"], ["ml A", "cs c", "mu A"], ["ml A", "cb c", "mu A"]):
        b = B(g.name("y"), [1, 2, 3])
        waiter(g, b, 1, "c", "A")
        waiter(g, b, 2, "c", "A")
        b.op(3, "bar 1", *s)
        b.op(3, "bar 2", *s)
        b.op(3, "bar 3", "ml A", "mu A")
        P.append(b.prog(*(g.crash(300, r=80)), out=350))
    b = B(g.name("y"), [1, 2, 3])
    waiter(g, b, 1, "c", "A", 3000)
    waiter(g, b, 2, "c", "A", 60000)
    b.op(3, "ml A", "cs c", "mu A", "bar 1", "ml A", "mu A", "cs c")
    P.append(b.prog(*(g.crash(300, r=120)), out=350))
    # signaller dies at each point, another one signals afterwards
    b = B(g.name("y"), [1, 2, 3])
    waiter(g, b, 1, "c", "A")
    b.op(2, "bar 1", "ml A", "cs c", "mu A").op(3, "bar 2", "ml A", "cs c", "mu A", "bar 3", "mt A", "mu A")
    P.append(b.prog(*(g.crash(300, actors=2, r=60)), out=300))
    # the oldest waiter is dead
    for reap in (0, 1):
        b = B(g.name("y"), [1, 2, 3, 3])
        waiter(g, b, 1, "c", "A")
        b.op(2, "bar 1")
        waiter(g, b, 2, "c", "A")
        b.op(3, "bar 2")
        waiter(g, b, 3, "c", "A", 90000)
        b.op(4, "bar 3", "kill 1 %d" % reap, "cs c", "bar 4", "cs c", "bar 5", "mt A", "mu A")
        P.append(b.prog(*(g.rnd(30))))
    # a thread can not end in a wait, but its process may have other threads
    b = B(g.name("y"), [1, 1, 2, 3])
    waiter(g, b, 1, "c", "A")
    waiter(g, b, 2, "c", "A")
    b.op(3, "bar 1")
    waiter(g, b, 3, "c", "A")
    b.op(4, "bar 2", "ml A", "kill 1", "cs c", "mu A", "bar 3", "mt A", "mu A", "cb c")
    P.append(b.prog(*(g.rnd(50))))
    for i in range(g.n(7)):
        procs = g.pick([[1, 2], [1, 2, 3], [1, 2, 2, 3]])
        b = B(g.name("yr"), procs, "chk=%d" % g.pick([50, 120]))
        for a in range(1, len(procs) + 1):
            r = g.rng.random()
            if r < 0.6:
                waiter(g, b, a, "c", "A", g.pick([None, 3000, 60000]))
            else:
                b.op(a, "ml A", g.pick(["cs c", "cb c"]), "mu A")
        b.op(len(procs), "bar 8", "ml A", "cs c", "mu A", "bar 9", "cb c")
        P.append(b.prog(*(g.crash(200, r=120, two=g.pick([0, 1]))), out=300))
    P += [cstage(g, "cs", True, 2) for i in range(g.n(8))]
    P += [takeover(g, "cv", "c") for i in range(g.n(4))]
    P += modes(g, "cm", "c", True)
    return P


# ------------------------------------------------------------------ processes
def c14(g):
    P = []
    F = "fresh=1 autoinit=1 sys=1"
    # start-ups at the same time
    b = B(g.name("a"), [1, 2], F)
    b.op(1, "ml A", "mt B").op(2, "mt A", "mt B", "mt C")
    P.append(b.prog(*(g.sys(True, 300) + g.rnd(150))))
    b = B(g.name("a"), [1, 2, 3], F)
    b.op(1, "mt A").op(2, "mt A").op(3, "mt A", "mt B")
    P.append(b.prog(*(g.sys(True, 200) + g.rnd(250))))
    # exits and crashes meanwhile
    b = B(g.name("a"), [1, 2, 3], F)
    b.op(1, "mt A", "exit").op(2, "mt A", "mt B", "exit").op(3, "mt B", "mt A")
    P.append(b.prog(*(g.sys(True, 250) + g.rnd(250))))
    b = B(g.name("a"), [1, 2, 3], F)
    b.op(1, "mt A", "exit").op(2, "mt A", "mt B").op(3, "bar 1", "mt B", "mt A", "mt C")
    P.append(b.prog(*(g.sys(True, 150) + g.rnd(150))))
    b = B(g.name("a"), [1, 2, 3], F)
    b.op(1, "mt A", "mt B").op(2, "mt A").op(3, "mt B", "ml C", "mt A")
    P.append(b.prog(*(g.crash(400, actors=3, r=250, two=1))))
    b = B(g.name("a"), [1, 2, 3], F + " robust=2")
    b.op(1, "mt A", "exit").op(2, "mt A", "mt B").op(3, "bar 1", "mt A", "bar 2", "mt B")
    P.append(b.prog(*(g.crash(300, actors=3, r=200))))
    # the last one leaves, the next starts from a clean space
    b = B(g.name("a"), [1, 2, 3], F)
    b.op(1, "ml A", "ml A", "ml B", "cT c A 0", "exit").op(2, "bar 1", "mt A", "mu B", "cs c", "exit").op(3, "bar 2", "mu A", "mt A", "mt B")
    P.append(b.prog(*(g.rnd(20) + g.sys(True, 60))))
    b = B(g.name("a"), [1, 2, 3], F, [(1, 0, "fa"), (2, 0, "fa"), (3, 0, "fa")])
    b.op(1, "wl 0 0 10", "rl 0 100 10", "exit").op(2, "bar 1", "wt 0 0 10", "wt 0 100 10", "exit").op(3, "bar 2", "wt 0 0 100")
    P.append(b.prog(*(g.rnd(20) + g.sys(True, 60))))
    # who stays keeps it
    b = B(g.name("a"), [1, 2, 3], F)
    b.op(1, "mt A", "bar 2", "mu A", "mt B").op(2, "mt C", "exit").op(3, "bar 1", "mt A", "mt C", "bar 3", "mt A", "mt B")
    P.append(b.prog(*(g.rnd(60) + g.sys(True, 100))))
    for kill in ("kill 1", "kill 1 0"):
        b = B(g.name("a"), [1, 2, 3, 4], F)
        b.op(1, "ml A", "bar 9").op(2, "bar 1", "mt A", "mt B", "bar 8").op(3, "bar 2", kill, "mt B", "mt C").op(4, "bar 3", "mt B", "mt A", "mt C")
        P.append(b.prog(*(g.rnd(30))))
    # what was left in the file
    for kind, size in ((0, 0), (0, 64), (1, 200), (2, 4096), (3, 4096), (1, 100000), (3, 48)):
        b = B(g.name("a"), [1, 2], F)
        b.op(1, "garbage s0 %d %d" % (kind, size), "mt A", "mt B", "mu A").op(2, "bar 1", "mt B", "mt A", "mu A", "mt C")
        P.append(b.prog("RANDS n=4", out=20))
    # the space is used by reconfiguring processes too
    b = B(g.name("a"), [1, 2, 3], F)
    b.op(1, "mt A", "init s0 -", "mt B").op(2, "mt A", "mt B").op(3, "bar 1", "mt A", "mt B", "init s1 -", "mt A", "mt B")
    P.append(b.prog(*(g.sys(True, 120) + g.rnd(120))))
    b = B(g.name("a"), [1, 2], F)
    b.op(1, "init s1 -", "mt A", "init s0 -", "mt A").op(2, "init s1 -", "mt A", "mt B", "init s0 -", "mt A")
    P.append(b.prog(*(g.sys(True, 150) + g.rnd(150))))
    for i in range(g.n(6)):
        n = g.pick([2, 3, 4])
        b = B(g.name("ar"), list(range(1, n + 1)), F)
        for a in range(1, n + 1):
            b.op(a, *["mt %s" % g.pick("AB") for j in range(g.pick([1, 2]))])
            r = g.rng.random()
            if r < 0.4:
                b.op(a, "exit")
            elif r < 0.55:
                b.op(a, "init s0 -", "mt %s" % g.pick("AB"))
        P.append(b.prog(*(g.rnd(200) + g.crash(100, r=150, two=g.pick([0, 1]))), out=300))
    return P


def c15(g):
    P = []
    f = [(1, 0, "fa"), (3, 0, "fa")]
    b = B(g.name("f"), [1, 2, 3], "", f, forked=[2])
    b.op(1, "ml A", "fork 2", "mu A", "mt B", "mu B").op(2, "mu A", "mt A", "mu A", "ml B").op(3, "bar 1", "mt A", "mt B", "mu A")
    P.append(b.prog(*(g.sys(True, 150) + g.rnd(100))))
    b = B(g.name("f"), [1, 2, 3], "", f, forked=[2])
    b.op(1, "ml A", "ml A", "fork 2", "bar 2", "mu A", "mu A").op(2, "mt A", "mu A", "mu A", "wt 0 0 10", "u 0 0 10").op(3, "bar 1", "mt A", "mu A", "bar 3", "mt A")
    P.append(b.prog(*(g.rnd(60))))
    b = B(g.name("f"), [1, 2, 3], "free=%d" % g.pick([0, 1, 2]), f, forked=[2])
    b.op(1, "wl 0 0 10", "fork 2", "rt 0 100 10", "bar 2", "u 0 0 10").op(2, "u 0 0 10", "wt 0 0 10", "wt 0 100 10", "rl 0 50 10", "bar 3", "u 0 50 10").op(3, "bar 1", "wt 0 0 10", "wt 0 50 10", "bar 4", "wl 0 0 10", "u 0 0 10", "wl 0 50 10")
    P.append(b.prog(*(g.rnd(80) + g.sys(True, 80))))
    # each of them dies without freeing the locks of the other
    for who in (1, 2):
        b = B(g.name("f"), [1, 2, 3], "", f, forked=[2])
        b.op(1, "ml A", "rl 0 0 10", "fork 2", "bar 9").op(2, "ml B", "rl 0 0 10", "bar 8").op(3, "bar 1", "kill %d %d" % (who, g.pick([0, 1])), "mt A", "mt B", "wt 0 0 10", "mT A 2000", "mT B 2000", "bar 2", "ml %s" % ("A" if who == 1 else "B"), "mt %s" % ("B" if who == 1 else "A"), "wt 0 0 10")
        P.append(b.prog(*(g.rnd(20)), out=100))
    # crash of parent or child at any point
    b = B(g.name("f"), [1, 2, 3], "", f, forked=[2])
    b.op(1, "ml A", "fork 2", "mu A").op(2, "ml B", "mu A", "ml A", "mu A").op(3, "ml B", "mu B", "ml A", "mu A")
    P.append(b.prog(*(g.crash(300, actors=3, r=120)), out=350))
    b = B(g.name("f"), [1, 2, 3], "", f, forked=[2])
    b.op(1, "rl 0 0 10", "fork 2", "u 0 0 10").op(2, "rl 0 5 10", "u 0 5 10", "u 0 5 10").op(3, "wl 0 5 10", "u 0 5 10", "wl 0 0 10", "u 0 0 10")
    P.append(b.prog(*(g.crash(250, actors=2, r=80)), out=350))
    # grandchild
    b = B(g.name("f"), [1, 2, 3, 4], "", [(1, 0, "fa"), (4, 0, "fa")], forked=[2, 3])
    b.op(1, "ml A", "fork 2", "bar 4", "mu A").op(2, "ml B", "mu A", "fork 3", "bar 5", "mu B").op(3, "mu A", "mu B", "mt A", "mt B", "ml C", "wt 0 0 10", "bar 6").op(4, "bar 2", "mt A", "mt B", "mt C", "wt 0 0 10", "kill 2", "mt A", "mt C")
    P.append(b.prog(*(g.rnd(40)), out=150))
    # fork without the library used before, and in every mode of life of the lock space
    F = "fresh=1 autoinit=1 sys=1"
    b = B(g.name("f"), [1, 2, 3], F, forked=[2])
    b.op(1, "mt A", "fork 2", "exit").op(2, "mt A", "mt B", "bar 3", "mt C").op(3, "bar 1", "mt A", "mt B", "bar 4", "mt C")
    P.append(b.prog(*(g.rnd(80) + g.sys(True, 150))))
    b = B(g.name("f"), [1, 2, 3], F, forked=[2])
    b.op(1, "mt A", "fork 2", "mt B").op(2, "mt B", "exit").op(3, "bar 1", "mt A", "mt B")
    P.append(b.prog(*(g.rnd(60) + g.sys(True, 100))))
    b = B(g.name("f"), [1, 2, 3, 4], F, forked=[2])
    b.op(1, "mt A", "fork 2", "bar 8").op(2, "ml B", "bar 7").op(3, "bar 2", "kill 1", "mt B", "mt C", "exit").op(4, "bar 3", "mt B", "mt C", "mt A")
    P.append(b.prog(*(g.rnd(30)), out=100))
    b = B(g.name("f"), [1, 2, 3, 4], F, forked=[2])
    b.op(1, "mt A", "fork 2", "bar 8").op(2, "ml B", "exit").op(3, "bar 2", "mt A", "mt B", "exit").op(4, "bar 3", "mt A", "mt B")
    P.append(b.prog(*(g.rnd(30)), out=100))
    # the first call of the library is made by the child
    b = B(g.name("f"), [1, 2, 3], F, forked=[2])
    b.op(1, "fork 2", "mt A").op(2, "mt A", "mt B").op(3, "bar 1", "mt A", "mt B")
    P.append(b.prog(*(g.rnd(60) + g.sys(True, 60))))
    # other threads of the parent keep running
    b = B(g.name("f"), [1, 1, 2, 3], "", f[:1] + [(3, 0, "fa")], forked=[3])
    # (process 3 is the child of process 1)
    b = B(g.name("f"), [1, 1, 3, 2], "", [(1, 0, "fa"), (2, 0, "fa")], forked=[3])
    b.op(1, "ml A", "fork 3", "mu A").op(2, "ml B", "wl 0 0 10", "bar 3", "mu B", "u 0 0 10").op(3, "mu B", "mt B", "mu A", "u 0 0 10", "mt A", "wt 0 0 10").op(4, "bar 2", "mt A", "mt B", "wt 0 0 10")
    P.append(b.prog(*(g.rnd(100) + g.sys(True, 100))))
    for i in range(g.n(5)):
        b = B(g.name("fr"), [1, 2, 3], "free=%d robust=%d" % (g.pick([0, 1, 2]), g.pick([0, 2])), f, forked=[2])
        k = g.pick([1, 2, 3])
        s = g.mseq(["A", "B"], 4, (1000,), 0.2) if g.rng.random() < 0.5 else g.rseq([0], some_clique(g), 4, (1000,), 0.2)
        b.op(1, *s[:k])
        b.op(1, "fork 2")
        b.op(1, *s[k:])
        b.op(2, *(g.mseq(["A", "B"], 3, (1000,), 0.4) + g.rseq([0], some_clique(g), 3, (1000,), 0.4)))
        b.op(3, *(g.mseq(["A", "B"], 2, (1000,), 0.1) + g.rseq([0], some_clique(g), 3, (1000,), 0.1)))
        P.append(b.prog(*(g.rnd(150, 30)), out=300))
    # another thread of the parent is in the midst of any call at forking
    for i in range(g.n(4)):
        rb = g.pick([0, 2])
        b = B(g.name("fm"), [1, 1, 2, 3], "free=%d robust=%d" % (g.pick([0, 1, 2]), rb), f[:1] + [(3, 0, "fa")], forked=[3])
        cl = some_clique(g)
        for a in (1, 3, 4):
            b.op(a, *(g.mseq(["A", "B"], 3, (1000,), 0.3) if g.rng.random() < 0.5 else g.rseq([0], cl, 3, (1000,), 0.3)))
        b.op(2, *g.pick([[], ["mt B"], ["rt 0 0 10"]]))
        b.op(2, "fork 3", g.pick(["mt A", "wt 0 0 10", "mu B"]))
        P.append(b.prog(*(g.sys(False, 120) + g.rnd(120)), out=250))
    # waiting for and signalling of a condition in both
    for i in range(g.n(2)):
        b = B(g.name("fc"), [1, 1, 2, 3], "robust=%d" % g.pick([0, 2]), f[:1], forked=[3])
        k = g.pick(["cs c", "cb c"])
        b.op(1, "ml M", g.pick(["cw c M", "cT c M 2000"]), "mu M").op(2, "fork 3", "ml M", k, "mu M")
        b.op(3, "ml M", g.pick(["cw c M", "cT c M 2000", "cs c"]), "mu M").op(4, "bar 1", "ml M", g.pick(["cs c", "cb c"]), "mu M")
        P.append(b.prog(*(g.sys(False, 120) + g.rnd(120)), out=250))
    # forking while another thread attaches
    for m in (2, 3):
        for sy in ("", " sys=1"):
            b = B(g.name("zf"), [1, 1, 2, 3], F + sy, f, forked=[3])
            b.op(1, "unreach s0", "nomap %d" % m, "mt A", "reach s0", "bar 1", "mt A", "mu A").op(2, "bar 1", "fork 3", "mt B").op(3, "mt C", "mt B", "wt 0 0 10").op(4, "bar 2", "mt B", "mt C")
            P.append(b.prog(*(g.rnd(60) + g.sys(True, 80)), out=120))
    return P


NOSHM = ["mt A", "ml A", "mT A 1000", "mu A", "mu Z", "rl 0 0 10", "wt 0 0 10", "wT 0 0 10 1000", "u 0 0 10", "il 0 0 10", "u 0 50 10", "cs c", "cb c", "cw c A", "cT c A 1000", "wl 7 0 10", "il 7 0 10", "or 1 0 0 10", "ow 2 0 0 10", "ou 1", "ou 2"]


def c16(g):
    P = []
    F = "fresh=1 autoinit=1"
    f = [(1, 0, "fa"), (2, 0, "fa")]
    for mode in ("ALLOW_NORETRY", "DENY_NORETRY", "ALLOW_RETRY", "DENY_RETRY", "allow", "DENY", "deny_retry", "xxx"):
        b = B(g.name("z"), [1, 2], F, f, env=[(1, "FLCKNOMAPMODE=" + mode)])
        b.op(1, "unreach s0", *NOSHM[:17])
        b.op(1, "reach s0", "mt A", "wl 0 0 10", "il 0 0 10", "mu A", "u 0 0 10", "ml B", "rl 0 0 10")
        b.op(2, "bar 1", "mt B", "wt 0 5 10", "mt A", "il 0 0 10")
        P.append(b.prog("RANDS n=6", out=20))
    # switched by the setters
    for a, c in ((0, 1), (1, 0), (0, 2), (1, 3), (3, 1), (2, 0), (3, 2)):
        b = B(g.name("z"), [1, 2], F, f)
        b.op(1, "unreach s0", "nomap %d" % a)
        ops = list(NOSHM)
        g.rng.shuffle(ops)
        b.op(1, *ops[:8])
        b.op(1, "nomap %d" % c)
        b.op(1, *ops[8:14])
        b.op(1, "reach s0", "mt A", "il 0 0 10", "wt 0 0 10", "il 0 0 10", "mt A")
        b.op(2, "bar 1", "mt A", "rt 0 0 10")
        P.append(b.prog("RANDS n=4", out=20))
    # every kind of call can be the one which attaches again
    for first in ("ml A", "mt A", "mT A 100", "mu A", "rl 0 0 10", "rt 0 0 10", "rT 0 0 10 100", "wl 0 0 10", "wt 0 0 10", "wT 0 0 10 100", "u 0 0 10", "il 0 0 10", "cw c A", "cT c A 100", "cs c", "cb c"):
        b = B(g.name("z"), [1, 2], F, f)
        b.op(1, "unreach s0", "nomap %d" % g.pick([2, 3]), "mt X", "reach s0", first, "mt X", "wt 0 100 10", "il 0 100 10", "il 0 0 10")
        b.op(2, "bar 1", "mt A", "mt X", "wt 0 100 10", "wt 0 0 10")
        P.append(b.prog("RANDS n=3", out=10))
    # two processes; the one without stays without(no retry) while the other one locks really
    for m in (0, 1, 2, 3):
        b = B(g.name("z"), [1, 2], F, f)
        b.op(1, "unreach s0", "nomap %d" % m, "mt A", "wt 0 0 10", "reach s0", "bar 2", "mt A", "wt 0 0 10", "il 0 0 10", "mu A", "u 0 0 10").op(2, "bar 1", "mt A", "wt 0 0 10", "bar 3", "mu A", "mt A")
        P.append(b.prog("RANDS n=4", out=20))
    # reinitialising leads to nowhere, and back
    for m in (0, 1, 2, 3):
        b = B(g.name("z"), [1, 2], F, f)
        b.op(1, "mt A", "wt 0 0 10", "unreach s1", "nomap %d" % m, "init s1 -", "nomap %d" % m, "mt A", "mu A", "wt 0 0 10", "il 0 0 10", "u 0 0 10", "reach s1", "mt A", "wt 0 0 10", "il 0 0 10", "init s0 -", "mt A", "mu A").op(2, "bar 1", "init s1 -", "mt A", "wt 0 0 10")
        P.append(b.prog("RANDS n=4", out=20))
    # objects
    b = B(g.name("z"), [1], F, f)
    b.op(1, "unreach s0", "nomap 0", "or 1 0 0 10", "ow 1 0 0 10", "ou 1", "nomap 1", "or 1 0 0 10", "ow 2 0 0 10", "ou 1", "od 1", "ou 2")
    P.append(b.prog("RANDS n=1", out=10))
    # threads attach at the same time
    for sy in ("", " sys=1"):
        b = B(g.name("z"), [1, 1, 2], F + sy, f)
        b.op(1, "unreach s0", "nomap 3", "mt A", "reach s0", "bar 1", "mt A", "wt 0 0 10").op(2, "bar 1", "mt B", "mt A", "wt 0 0 10").op(3, "bar 2", "mt A", "mt B", "wt 0 0 10", "mt C")
        P.append(b.prog(*(g.rnd(60) + g.sys(True, 60)), out=120))
    b = B(g.name("z"), [1, 1, 1], F + " sys=1", f)
    b.op(1, "unreach s0", "nomap 2", "mt A", "reach s0", "bar 1", "mt A").op(2, "bar 1", "wt 0 0 10", "il 0 0 10").op(3, "bar 1", "il 0 50 10", "mt B")
    P.append(b.prog(*(g.rnd(60) + g.sys(True, 60)), out=120))
    # a step of attaching fails: nothing is left behind, and the next attempt(of this or another process) succeeds
    for k in ("open", "trunc", "write", "map", "thread"):
        for m in (0, 1, 2, 3):
            b = B(g.name("zx"), [1, 2, 1], F, f)
            b.op(1, "nomap %d" % m, "init s1 -", "mt A", "fault %s" % k, "init s0 -", "nomap %d" % m, "mt A", "wt 0 0 10", "il 0 0 10", "fault %s" % g.pick(["open", "map"]), "init s0 -", "bar 3", "nomap %d" % m, "il 0 0 10", "mt A", "wt 0 0 10")
            b.op(2, "bar 1", "mt A", "wt 0 5 10", "il 0 0 10", "mu A", "bar 4", "mt A", "wt 0 5 10").op(3, "bar 2", "mt A", "wt 0 0 10")
            P.append(b.prog("RANDS n=4", out=20))
        b = B(g.name("zx"), [1, 2, 3], F + " robust=%d" % g.pick([0, 2]), f, env=[(p, "FLCKNOMAPMODE=" + g.pick(["ALLOW_RETRY", "DENY_RETRY", "DENY", "ALLOW"])) for p in (1, 2, 3)])
        b.op(1, "fault %s" % k, "mt A", "wt 0 0 10", "mt A").op(2, "fault %s" % g.pick(["open", "trunc", "write", "map", "thread"]), "mt A", "wt 0 0 10", "mt A").op(3, "mt A", "wt 0 0 10", "bar 1", "mt A", "wt 0 0 10")
        P.append(b.prog(*(g.rnd(60) + g.sys(True, 60)), out=120))
        b = B(g.name("zx"), [1, 2, 3], F + " robust=2", f)
        b.op(1, "mt A", "fault %s" % k, "init s0 -", "nomap 3", "mt A", "mt A").op(2, "bar 1", "mt A", "fault %s" % k, "init s0 -", "nomap 3", "bar 3", "mt B", "mt A", "bar 4", "kill 1", "ml A").op(3, "bar 2", "mt A", "mt B", "mu B", "il 0 0 10", "bar 5", "mt A")
        P.append(b.prog("RANDS n=4", out=20))
        # while another thread or process attaches too
        b = B(g.name("zx"), [1, 1, 2], F + " sys=1", f)
        b.op(1, "nomap 3", "unreach s0", "mt Z", "reach s0", "fault %s" % k, "bar 1", "mt A").op(2, "bar 1", "mt A", "mt A", "il 0 0 10").op(3, "nomap 3", "bar 1", "mt A", "mt A")
        P.append(b.prog(*(g.rnd(40) + g.sys(True, 40)), out=100))
    for k in ("map", "open"):
        b = B(g.name("zx"), [1, 2, 3], F, f, forked=[2])
        b.op(1, "mt A", "fault %s" % k, "fork 2", "bar 2", "exit").op(2, "mt A", "mt B", "bar 3", "mt A", "init s0 -", "mt A", "mt B").op(3, "bar 1", "mt A", "mt B", "bar 4", "mt C", "mt A")
        P.append(b.prog("RANDS n=4", out=20))
    # forking while another thread attaches
    for m in (2, 3):
        for sy in ("", " sys=1"):
            b = B(g.name("zf"), [1, 1, 2, 3], F + sy, f, forked=[3])
            b.op(1, "unreach s0", "nomap %d" % m, "mt A", "reach s0", "bar 1", "mt A", "mu A").op(2, "bar 1", "fork 3", "mt B").op(3, "mt C", "mt B", "wt 0 0 10").op(4, "bar 2", "mt B", "mt C")
            P.append(b.prog(*(g.rnd(60) + g.sys(True, 80)), out=120))
    for i in range(g.n(12)):
        b = B(g.name("zr"), [1, 2], F, f, env=[(1, "FLCKNOMAPMODE=" + g.pick(["ALLOW_RETRY", "DENY_RETRY", "ALLOW_NORETRY", "DENY_NORETRY"]))])
        if g.rng.random() < 0.7:
            b.op(1, "unreach s0")
        up = not b.n
        ops = [o for o in NOSHM if o[:2] not in ("or", "ow", "ou")]
        for j in range(g.pick([8, 12])):
            r = g.rng.random()
            if r < 0.12 and not up:
                b.op(1, "reach s0")
                up = True
            elif r < 0.25:
                b.op(1, "nomap %d" % g.rng.randrange(4))
            else:
                b.op(1, g.pick(ops))
        b.op(2, "bar 1", "mt A", "wt 0 0 10", "il 0 0 10", "il 0 50 1")
        P.append(b.prog("RANDS n=3", out=10))
    return P


def c17(g):
    P = []
    F = "fresh=1 autoinit=1 q=400 max=4000000"
    mins, maxs = [1, 4, 4, 1, 1, 4], [2048, 16384, 16384, 8192, 8192, 16384]
    full = ["bf h %d", "bo 0 1000 %d", "bl 0 9000 %d", "bm n %d", "bc y q %d"]

    def probes(b, a, caps):
        b.op(a, "bo 0 1000 %d" % (caps[1] + 2), "bl 0 9000 %d" % (caps[2] + 2), "bf h %d" % (caps[0] + 2), "bm n %d" % (caps[3] + 2), "bc y q %d" % (caps[4] + 2))
    f = [(1, 0, "fa"), (2, 0, "fa")]
    # environment
    for caps in ([1, 4, 4, 1, 1, 4], [2, 5, 6, 3, 2, 5], [3, 9, 7, 4, 6, 8]):
        names = ["FLCKFILECNT", "FLCKOFFETCNT", "FLCKLOCKERCNT", "FLCKNMTXCNT", "FLCKNCONDCNT", "FLCKWAITERCNT"]
        b = B(g.name("p"), [1, 2], F + " caps=0,0,0,0,0,0", f, env=[(1, "%s=%d" % x) for x in zip(names, caps)])
        probes(b, 1, caps)
        b.op(2, "bar 1")
        probes(b, 2, caps)
        P.append(b.prog("RANDS n=1"))
    for i in range(g.n(4)):
        env = []
        caps = []
        for j, nme in enumerate(["FLCKFILECNT", "FLCKOFFETCNT", "FLCKLOCKERCNT", "FLCKNMTXCNT", "FLCKNCONDCNT", "FLCKWAITERCNT"]):
            v = g.pick(["0", "-1", "abc", "", str(mins[j]), str(mins[j] - 1), str(maxs[j] + 1), "99999999999999", "7", "9x"])
            env.append((1, "%s=%s" % (nme, v)))
        b = B(g.name("p"), [1, 2], F + " caps=0,0,0,0,0,0", f, env=[e for e in env if e[1].split("=")[1] not in ("abc", "", "9x")])
        b.op(1, "bo 0 1000 12", "bl 0 9000 12", "bf h 9", "bm n 10", "bc y q 9")
        b.op(2, "bar 1", "mt A", "mu A")
        P.append(b.prog("RANDS n=1"))
    # fullock_reinitialize_ex: accepted
    for caps in ([1, 4, 4, 1, 1, 4], [2, 6, 5, 2, 3, 5], [4, 10, 12, 6, 2, 7]):
        b = B(g.name("p"), [1, 2], F, f)
        b.op(1, "mt A", "init s1 - %s" % " ".join(map(str, caps)))
        probes(b, 1, caps)
        b.op(1, "init s0 -", "mt A")
        b.op(2, "bar 1", "mt A", "init s1 - 5 9 9 5 5 9")
        probes(b, 2, [5, 9, 9, 5, 5])
        P.append(b.prog("RANDS n=2", out=10))
    # rejected: nothing changes
    for j in range(6):
        for v in (mins[j] - 1, maxs[j] + 1, 1 << 31, 1 << 40):
            if v == 0:
                continue
            c = [0] * 6
            c[j] = v
            b = B(g.name("p"), [1, 2], F, f)
            b.op(1, "mt A", "wt 0 0 10", "init s1 - %s" % " ".join(map(str, c)), "mt A", "mu A", "il 0 0 10", "bo 0 1000 8").op(2, "bar 1", "mt A", "wt 0 5 10", "mt B")
            P.append(b.prog("RANDS n=1", out=10))
    for j in range(6):
        for v in (mins[j], maxs[j]):
            c = [0] * 6
            c[j] = v
            b = B(g.name("p"), [1], F, f)
            b.op(1, "mt A", "init s1 - %s" % " ".join(map(str, c)), "mt A", "il 0 0 10")
            if v == mins[j] and j in (0, 1, 2, 3, 4):
                b.op(1, ["bf h %d", "bo 0 1000 %d", "bl 0 9000 %d", "bm n %d", "bc y q %d"][j] % (v + 2))
            P.append(b.prog("RANDS n=1", out=10))
    # defaults come back
    b = B(g.name("p"), [1], F + " caps=0,0,0,0,0,0", f)
    b.op(1, "init s1 - 2 6 6 2 2 6", "bm n 4", "init s2 - 0 0 0 0 0 0", "bm n 300", "bf h 130", "init s3 - 3 0 0 0 0 0", "bf h 8", "bm n 300", "init s4 -", "bf h 130", "bc y q 300")
    P.append(b.prog("RANDS n=1", out=10))
    b = B(g.name("p"), [1], F + " caps=2,5,6,3,2,5", f)
    b.op(1, "bm n 5", "init s1 - 0 0 0 0 3 0", "bm n 5", "bc y q 5", "bf h 4", "init s2 -", "bc y q 5", "bl 0 0 8", "bo 0 1000 8")
    P.append(b.prog("RANDS n=1", out=10))
    # names and directories
    for nm, d in (("s1", "@shm"), ("s1", "@other"), ("s1", "@shm/../other"), ("s1", "@a/b/c"), ("s1", "@shm/."), ("s1", "@other//x"), ("~", "-"), ("s0", "~"), ('""', "-"), ("s1", "@shm/../shm/sub/..")):
        b = B(g.name("p"), [1, 2], F, f)
        b.op(1, "mt A", "init %s %s" % (nm, d), "mt A", "mt B").op(2, "bar 1", "mt A", "init %s %s" % (nm, d), "mt A", "mt B", "init s1 @other", "mt A", "mt B")
        P.append(b.prog("RANDS n=2", out=10))
    # the directory and the name by the environment, an unusable one is ignored
    for e1, e2 in ((["FLCKFILENAME=s5"], []), (["FLCKFILENAME=s0"], []), (["FLCKFILENAME=~"], ["FLCKFILENAME=fullock.shm"]), (["FLCKFILENAME=a/b"], ["FLCKFILENAME=~"]), (["FLCKFILENAME="], ["FLCKFILENAME=~"]),
                   (["FLCKDIRPATH=@other"], []), (["FLCKDIRPATH=@other"], ["FLCKDIRPATH=@shm/../other/."]), (["FLCKDIRPATH=@a/b/c"], ["FLCKDIRPATH=@a/b//c/"]), (["FLCKDIRPATH=@a/b"], ["FLCKDIRPATH=@a/c"]),
                   (["FLCKDIRPATH=@other", "FLCKFILENAME=~"], ["FLCKDIRPATH=@other", "FLCKFILENAME=../s0"]), (["FLCKDIRPATH=@shm"], [])):
        b = B(g.name("pe"), [1, 2], F, f, env=[(1, x) for x in e1] + [(2, x) for x in e2])
        b.op(1, "mt A", "wt 0 0 10", "bar 3", "init s1 -", "mt A", "bar 5", "init ~ - 2 0 0 2 0 0", "mt A", "bm n 4").op(2, "bar 1", "mt A", "rt 0 0 10", "bar 4", "mt A", "bar 6", "mt A", "init ~ ~", "mt A")
        P.append(b.prog("RANDS n=2", out=10))
    # who makes the file decides its permissions by FLCKUMASK, and the umask of the process stays
    for u1, u2 in (("022", "077"), ("077", "~"), ("~", "077"), ("0", "022"), ("02", "02"), ("18", "0x3f"), ("0776", "0"), ("-1", "022"), ("01000", "07"), ("0x12", "~"), ("9999999", "027"), ("0700", "070"), ("0333", "0444")):
        b = B(g.name("pu"), [1, 2], F, f, env=[(1, "FLCKUMASK=%s" % u1), (2, "FLCKUMASK=%s" % u2)])
        b.op(1, "perm s0", "mt A", "perm s0", "perm -", "init s1 -", "perm s1", "perm s0", "bar 3", "mt A", "perm s2", "init s2 -", "perm s2", "perm -").op(2, "bar 1", "mt A", "perm s0", "init s1 -", "perm s1", "init s2 - 0 0 0 0 0 0", "perm s2", "perm -", "mt A")
        P.append(b.prog("RANDS n=2", out=10))
    b = B(g.name("pu"), [1, 2], F, f, env=[(1, "FLCKUMASK=027"), (2, "FLCKUMASK=~")])
    b.op(1, "mt A", "unreach s1", "nomap 3", "init s1 -", "perm -").op(2, "bar 1", "reach s1", "init s1 -", "perm s1", "bar 2", "perm s1", "perm -").op(1, "bar 3", "mt A", "perm s1")
    P.append(b.prog("RANDS n=2", out=10))
    # how often a dead owner is looked for, an unusable number is ignored
    for v in ("50", "49", "0", "-1", "abc", "", "1000", "51"):
        b = B(g.name("pk"), [1, 2, 3], F, f, env=[(p, "FLCKROBUSTCHKCNT=" + v) for p in (1, 2, 3)])
        b.op(1, "ml A", "wl 0 0 10", "bar 9").op(2, "mt B", "bar 1", "kill 1", "ml A", "wl 0 0 10").op(3, "mt C", "bar 2", "rl -1 0 10", "u -1 0 10")
        P.append(b.prog("RANDS n=2", out=10))
    # invalid names: rejected
    for nm in ("a/b", "/tmp_x", "../s9"):
        b = B(g.name("p"), [1, 2], F, f)
        b.op(1, "mt A", "init %s -" % nm, "mu A", "mt B").op(2, "bar 1", "mt A", "mt B")
        P.append(b.prog("RANDS n=2", out=10))
    # it fails to attach, and can be repeated
    b = B(g.name("p"), [1, 2], F, f)
    b.op(1, "mt A", "unreach s1", "nomap 1", "init s1 -", "nomap 1", "mt A", "reach s1", "init s1 -", "mt A", "mt A").op(2, "bar 1", "mt A", "init s1 -", "mt A")
    P.append(b.prog("RANDS n=2", out=10))
    # modes take effect for subsequent calls
    b = B(g.name("p"), [1, 2], F, f)
    b.op(1, "mt A", "robust 0", "chk 100", "robust 1", "chk 100", "robust 2", "chk 49", "chk 50", "chk 100", "chk 0", "chk -1", "chk 2147483647")
    P.append(b.prog("RANDS n=1", out=10))
    for fm in (0, 1, 2):
        b = B(g.name("p"), [1], F + " caps=2,4,6,3,2,4", f)
        b.op(1, "free %d" % fm, "bo 0 0 6", "bf h 4", "free %d" % ((fm + 1) % 3), "bo 0 100 6", "bf h 4", "free %d" % ((fm + 2) % 3), "bl 0 0 8")
        P.append(b.prog("RANDS n=1", out=10))
    for e in ("NO", "FD", "OFFSET", "ALWAYS", "no", "fd", "xx"):
        b = B(g.name("p"), [1], F + " caps=2,4,6,3,2,4", f, env=[(1, "FLCKFREEUNITMODE=" + e)])
        b.op(1, "bo 0 0 6", "bf h 4", "bo 0 100 6", "bl 0 0 8")
        P.append(b.prog("RANDS n=1", out=10))
    P += [modestage(g, "pm", x, d) for x in "mrc" for d in (False, True)]
    # robust mode by setter decides who recovers
    for m in (0, 2):
        b = B(g.name("p"), [1, 2], F, f)
        b.op(1, "ml A", "bar 9").op(2, "mt B", "robust %d" % m, "bar 1", "kill 1", "ml A")
        P.append(b.prog("RANDS n=3", out=10))
    # modes set before the first use
    b = B(g.name("p"), [1], F, f)
    b.op(1, "unreach s0", "nomap 1", "mt A", "nomap 0", "mt A", "il 0 0 10", "nomap 1", "il 0 0 10")
    P.append(b.prog("RANDS n=1", out=10))
    b = B(g.name("p"), [1], F + " caps=2,4,6,3,2,4", f)
    b.op(1, "free 0", "bo 0 0 6", "bo 0 100 6")
    P.append(b.prog("RANDS n=1", out=10))
    b = B(g.name("p"), [1], F, f)
    b.op(1, "init s1 - 2 5 6 3 2 5", "bm n 5", "bo 0 0 7", "bl 0 100 8")
    P.append(b.prog("RANDS n=1", out=10))
    # not initialised automatically
    b = B(g.name("p"), [1, 2], F, f, env=[(1, "FLCKAUTOINIT=NO"), (2, "FLCKAUTOINIT=no")])
    b.op(1, "mt A", "mt A", "wt 0 0 10", "il 0 0 10", "init s0 -", "mt A").op(2, "bar 1", "mt A", "il 0 0 10", "nomap 1", "mt A", "il 0 0 10", "init s0 -", "mt A")
    P.append(b.prog("RANDS n=2", out=10))
    # names which are not given, or empty
    for pre in ([], ["unreach s0", "nomap 1"], ["unreach s0"]):
        b = B(g.name("p"), [1, 2], F, f)
        b.op(1, *(pre + ["mt ~", "mu ~", "ml ~", "mT ~ 1000", "cs ~", "cb ~", "cw ~ ~", "cw c ~", "cT c ~ 1000", "cT ~ A 1000", "mt A", "cT ~ A 1000", "cT c ~ 0", 'cT c "" 0', "cs c", "mu A", 'mt ""', 'mt ""', 'cT "" "" 0', 'cs ""', 'mu ""', "mt A"]))
        b.op(2, "bar 1", "mt A", 'mt ""', 'mu ""', "mu ~", "cs c", 'cs ""', "cb ~", *([] if pre else ["bm n 9", "bc y q 9"]))
        P.append(b.prog("RANDS n=2", out=10))
    for nm in ("ALLOW_RETRY", "DENY_RETRY", "DENY"):
        b = B(g.name("p"), [1, 2], F, f, env=[(1, "FLCKAUTOINIT=NO"), (1, "FLCKNOMAPMODE=" + nm)])
        b.op(1, "mt A", "wl 0 0 10", "il 0 0 10", "cs c", "init s0 -", "mt A", "il 0 0 10").op(2, "bar 1", "mt A", "il 0 0 10")
        P.append(b.prog("RANDS n=2", out=10))
    for i in range(g.n(8)):
        b = B(g.name("pr"), [1, 2], F, f)
        for a in (1, 2):
            if a == 2:
                b.op(2, "bar 1")
            for j in range(g.pick([3, 4])):
                c = [g.pick([0, 0, mins[x], mins[x] + 1, mins[x] + 3, mins[x] - 1, maxs[x] + 1 if g.rng.random() < 0.3 else 0]) for x in range(6)]
                b.op(a, "init %s - %s" % (g.pick(["s0", "s1"]), " ".join(map(str, c))), "mt A", "bm n 9", "bo 0 1000 9")
        P.append(b.prog("RANDS n=2", out=10))
    return P


def c18(g):
    P = []
    f = [(1, 0, "fa"), (2, 0, "fa"), (1, 1, "fb"), (2, 1, "fb"), (1, 2, "fa"), (3, 0, "fa")]
    cf = "caps=8,32,64,8,4,8"
    R = "0 0 10"
    # nesting in one thread
    import itertools
    for seq in (["or 1 " + R, "or 2 " + R, "ou 1", "ou 2"], ["ow 1 " + R, "or 2 " + R, "ou 1", "ou 2"], ["or 1 " + R, "ow 2 " + R, "ou 2", "ou 1"], ["or 1 " + R, "ow 2 " + R, "ou 1", "ou 2"],
                ["ow 1 " + R, "ow 2 " + R, "od 1", "od 2"], ["or 1 " + R, "ow 1 " + R, "ou 1", "ou 1"], ["ow 1 " + R, "or 1 " + R, "ou 1"], ["or 1 " + R, "or 1 " + R, "or 2 " + R, "od 1", "ou 2"]):
        b = B(g.name("o"), [1, 2], cf + " free=%d" % g.pick([0, 1, 2]), f)
        for j, s in enumerate(seq):
            b.op(1, s, "bar %d" % (2 * j + 2))
        for j in range(len(seq) + 1):
            b.op(2, "bar %d" % (2 * j + 1), "rt 0 0 10", "u 0 0 10", "wt 0 0 10", "u 0 0 10", "il 0 0 10")
        P.append(b.prog(*(g.rnd(10)), out=60))
    # all sequences of two objects in one thread(never blocks on itself), observed by another process
    al = ["or 1 " + R, "ow 1 " + R, "or 2 " + R, "ow 2 " + R, "ou 1", "ou 2"]
    seqs = list(itertools.product(al, repeat=4))
    g.rng.shuffle(seqs)
    for seq in seqs[:g.n(60)]:
        b = B(g.name("o"), [1, 2], cf, f)
        for j, s in enumerate(seq):
            b.op(1, s, "bar %d" % (2 * j + 2))
            b.op(2, "bar %d" % (2 * j + 1), "rt 0 0 10", "u 0 0 10", "wt 0 0 10", "u 0 0 10")
        b.op(1, "od 1", "od 2")
        b.op(2, "bar 20", "wt 0 0 10", "u 0 0 10")
        P.append(b.prog("X NP first=1", out=10))
    # the other ways to lock an object: ReadLock/WriteLock of its own range, and the constructor which locks
    al = [k + " " + n + R for k in ("oR", "oW", "xr", "xw", "or", "ow") for n in ("1 ", "2 ")] + ["oR 1 " + R, "oW 1 " + R, "oR 2 " + R, "oW 2 " + R, "ou 1", "ou 2", "od 1", "ou 1"]
    for i in range(g.n(45)):
        al3 = al + ["oR 3 " + R, "oW 3 " + R, "ou 3"] if i % 3 == 0 else al
        b = B(g.name("om"), [1, 2], cf, f)
        for j in range(5):
            b.op(1, g.pick(al3), "bar %d" % (2 * j + 2))
            b.op(2, "bar %d" % (2 * j + 1), "rt 0 0 10", "u 0 0 10", "wt 0 0 10", "u 0 0 10")
        b.op(1, *["o%s %d" % (g.pick("ud"), n) for n in g.pick([[1, 2, 3], [3, 2, 1], [2, 3, 1]])])
        b.op(2, "bar 20", "wt 0 0 10", "u 0 0 10")
        P.append(b.prog("X NP first=1", out=10))
    # an object is locked again after it was unlocked, by each way after each way
    pairs = [(k1, k2) for k1 in ("oR", "oW", "or", "ow", "xr", "xw") for k2 in ("oR", "oW")] * 2
    g.rng.shuffle(pairs)
    for i in range(0, len(pairs), 2):
        b = B(g.name("ol"), [1, 2], cf, f)
        o = 1 + i // 2 % 2
        for j, k in enumerate(pairs[i] + pairs[i + 1]):
            b.op(1, "%s %d %s" % (k, o, R), "bar %d" % (4 * j + 2), "ou %d" % o, "bar %d" % (4 * j + 4))
            b.op(2, "bar %d" % (4 * j + 1), "rt 0 0 10", "u 0 0 10", "wt 0 0 10", "u 0 0 10", "bar %d" % (4 * j + 3), "wt 0 0 10", "u 0 0 10")
        P.append(b.prog("X NP first=1", out=10))
    for i in range(g.n(4)):
        procs = g.pick([[1, 2], [1, 1], [1, 1, 2]])
        b = B(g.name("on"), procs, cf + " free=%d robust=%d" % (g.pick([0, 1, 2]), g.pick([0, 2])), f)
        for a in range(1, len(procs) + 1):
            objs = [10 * a + 1, 10 * a + 2, 10 * a + 3]
            for j in range(g.pick([4, 5])):
                o = g.pick(objs)
                b.op(a, g.pick(["%s %d %s" % (k, o, R) for k in ("oR", "oR", "oW", "xr", "xw")] + ["ou %d" % o, "od %d" % o, "ou %d" % o]))
            b.op(a, *["ou %d" % o for o in objs])
        P.append(b.prog(*(g.sys(False, 100) + g.rnd(120)), out=300))
    # threads exclude each other
    for n, procs in enumerate(([1, 1], [1, 2], [1, 1, 2])):
        b = B(g.name("o"), procs, cf, f)
        for a in range(1, len(procs) + 1):
            b.op(a, "%s %d %s" % (g.pick(["or", "ow"]), a, R), "ow %d %s" % (a + 10, R) if g.rng.random() < 0.3 and a == 1 else "or %d %s" % (a + 10, R), "ou %d" % a, "ou %d" % (a + 10))
        P.append(b.prog(*(g.sys(True, 150) + g.rnd(120))))
    # other ranges, other files through objects
    b = B(g.name("o"), [1, 1, 2], cf, f)
    b.op(1, "ow 1 0 0 10", "or 2 0 100 10", "ow 3 1 0 10", "ou 2", "ou 1", "ou 3").op(2, "ow 4 0 200 10", "or 5 1 50 10", "ou 4", "ou 5").op(3, "wt 0 0 10", "wt 0 100 10", "wt 1 0 10", "u 0 0 10", "u 0 100 10", "u 1 0 10", "bar 1", "wt 0 0 300", "wt 1 0 100")
    P.append(b.prog(*(g.sys(True, 150) + g.rnd(120))))
    # forking: the child has copies of the objects of its parent, they hold nothing for it, and another thread may be in the midst of locking
    ff = [(1, 0, "fa"), (1, 1, "fb"), (3, 0, "fa")]
    for k in ("or", "ow", "xr", "xw"):
        b = B(g.name("of"), [1, 2, 3], cf + " free=%d robust=%d" % (g.pick([0, 1, 2]), g.pick([0, 2])), ff, forked=[2])
        k2 = g.pick(["or", "ow", "xr", "xw"])
        b.op(1, "%s 1 %s" % (k, R), "or 2 " + R, "fork 2", "bar 3", "od 2", "bar 6", "od 1")
        b.op(2, *g.pick([["od 1", "od 2"], ["od 2", "od 1"], ["od 1"]]))
        b.op(2, "bar 1", "%s 3 %s" % (k2, R), "%s 4 %s" % (g.pick(["or", "ow"]), R), "od 3", "bar 4", "od 4")
        b.op(3, "bar 2", "rt 0 0 10", "u 0 0 10", "wt 0 0 10", "u 0 0 10", "bar 5", "rt 0 0 10", "u 0 0 10", "wt 0 0 10", "u 0 0 10", "bar 8", "wt 0 0 10", "u 0 0 10")
        P.append(b.prog(*(g.sys(False, 60) + g.rnd(60)), out=100))
        b = B(g.name("of"), [1, 2, 3], cf, ff, forked=[2])
        b.op(1, "%s 1 %s" % (k, R), "fork 2", "od 1")
        b.op(2, "od 1", "%s 3 %s" % (k2, R), "%s 4 0 0 10" % g.pick(["or", "ow"]), "od 3", "od 4")
        b.op(3, "wl 0 0 10", "u 0 0 10", "wt 0 0 10", "u 0 0 10")
        P.append(b.prog(*(g.sys(False, 100) + g.rnd(120)), out=200))
    for i in range(g.n(2)):
        b = B(g.name("of"), [1, 1, 2, 3], cf + " free=%d" % g.pick([0, 1, 2]), [(1, 0, "fa"), (1, 1, "fb"), (3, 0, "fa")], forked=[3])
        b.op(1, "%s 1 %s" % (g.pick(["or", "ow"]), R), "%s 2 %s" % (g.pick(["or", "ow"]), R), "ou 1", "ou 2", "xw 1 0 100 10", "od 1")
        b.op(2, "fork 3", "%s 11 %s" % (g.pick(["or", "ow"]), R), "ou 11")
        b.op(3, "%s 21 1 0 10" % g.pick(["or", "ow"]), "%s 22 1 0 10" % g.pick(["or", "ow"]), "ou 22", "ou 21")
        b.op(4, "wt 0 0 10", "u 0 0 10")
        P.append(b.prog(*(g.sys(True, 300) + g.rnd(150)), out=300))
    # plain lockers in other processes wait for the last object
    for k in ("rl", "wl"):
        b = B(g.name("o"), [1, 2], cf, f)
        b.op(1, "or 1 " + R, "or 2 " + R, "ou 1", "ow 1 " + R, "ou 2", "ou 1").op(2, "%s 0 5 10" % k, "u 0 5 10")
        P.append(b.prog(*(g.sys(True, 200) + g.rnd(80))))
    # an object is moved to another range
    b = B(g.name("o"), [1, 2], cf, f)
    b.op(1, "ow 1 0 0 10", "ow 1 0 100 10", "bar 2", "or 1 1 0 10", "bar 4", "od 1", "bar 6").op(2, "bar 1", "wt 0 0 10", "u 0 0 10", "wt 0 100 10", "bar 3", "wt 0 100 10", "u 0 100 10", "wt 1 0 10", "rt 1 0 10", "u 1 0 10", "bar 5", "wt 1 0 10", "u 1 0 10", "wt 0 100 10")
    P.append(b.prog(*(g.rnd(10)), out=60))
    # death of the holder
    b = B(g.name("o"), [1, 2, 3], cf, f)
    b.op(1, "or 1 " + R, "ow 2 " + R, "ou 1", "ou 2").op(2, "wl 0 0 10", "u 0 0 10").op(3, "rl 0 5 10", "u 0 5 10")
    P.append(b.prog(*(g.crash(250, actors=1, r=40)), out=200))
    for i in range(g.n(8)):
        procs = g.pick([[1], [1, 2], [1, 1], [1, 1, 2], [1, 2, 3]])
        b = B(g.name("or"), procs, cf + " free=%d robust=%d" % (g.pick([0, 1, 2]), g.pick([0, 2])), f)
        for a in range(1, len(procs) + 1):
            objs = [10 * a + 1, 10 * a + 2, 10 * a + 3]
            for j in range(g.pick([4, 6])):
                o = g.pick(objs)
                b.op(a, g.pick(["or %d %s" % (o, R), "or %d %s" % (o, R), "ow %d %s" % (o, R), "ou %d" % o, "od %d" % o, "ou %d" % o]))
            b.op(a, *["ou %d" % o for o in objs])
        P.append(b.prog(*(g.sys(False, 100) + g.rnd(120)), out=300))
    return P


def c19(g):
    P = []
    f = [(p, 0, "fa") for p in (1, 2, 3)] + [(p, 1, "fb") for p in (1, 2, 3)]
    for robust in ("LOW", "HIGH"):
        for free in (1, 0, 2):
            for how in ("kill 1", "kill 1 0", None):
                env = [(p, "FLCKROBUSTMODE=" + robust) for p in (1, 2, 3)] + [(p, "FLCKFREEUNITMODE=" + ["NO", "FD", "OFFSET"][free]) for p in (1, 2, 3)]
                if free != 1 and how is None:
                    continue
                b = B(g.name("g"), [1, 2, 3], "fresh=1 autoinit=1 rt=1 free=%d robust=%d" % (free, 1 if robust == "LOW" else 2), f, env=env)
                b.op(1, "ml A", "ml A", "wl 0 0 10", "rl 1 0 10", "bar 2")
                if how is None:
                    b.op(1, "exit")
                b.op(2, "ml B", "wl 0 100 10", "rl 1 0 10", "bar 4", "mu B", "u 0 100 10", "u 1 0 10")
                b.op(3, "bar 1", "mt A", "wt 0 0 10", "bar 3")
                if how:
                    b.op(3, how)
                b.op(3, "settle 250", "mt A", "wt 0 0 10", "wt 1 0 10", "rt 1 0 10", "mt B", "wt 0 100 10", "mT A 1000", "mu A", "mu A", "u 0 0 10", "bar 5", "wT 0 100 10 1000", "mt B")
                P.append(b.prog("RANDS n=%d" % (3 if g.thorough else 1), out=40, gc=True))
    # several owners die, several times
    b = B(g.name("g"), [1, 2, 3, 4], "fresh=1 autoinit=1 rt=1 robust=2", f + [(4, 0, "fa")], env=[(p, "FLCKROBUSTMODE=HIGH") for p in (1, 2, 3, 4)])
    b.op(1, "ml A", "rl 0 0 10").op(2, "ml B", "rl 0 0 10", "wl 0 50 10").op(3, "mt C", "rl 0 0 10", "bar 9", "mu C").op(4, "bar 1", "kill 1", "settle 250", "mt A", "wt 0 0 10", "mt B", "kill 2 0", "settle 250", "mt B", "wt 0 50 10", "wt 0 0 10", "mt C")
    P.append(b.prog("RANDS n=2", out=20, gc=True))
    # only one survivor; it was the last which came
    b = B(g.name("g"), [1, 2], "fresh=1 autoinit=1 rt=1 robust=1", f, env=[(p, "FLCKROBUSTMODE=LOW") for p in (1, 2)])
    b.op(1, "ml A", "wl 0 0 10").op(2, "bar 1", "mt B", "mt A", "kill 1", "settle 250", "mt A", "wt 0 0 10", "mT A 500")
    P.append(b.prog("RANDS n=2", out=20, gc=True))
    # fork: the child is watched too, and the survivor of a family is a watcher
    b = B(g.name("g"), [1, 2, 3], "fresh=1 autoinit=1 rt=1 robust=2", [(1, 0, "fa"), (3, 0, "fa")], forked=[2], env=[(p, "FLCKROBUSTMODE=HIGH") for p in (1, 2, 3)])
    b.op(1, "ml A", "fork 2", "bar 8").op(2, "ml B", "wl 0 0 10", "bar 7").op(3, "bar 2", "mt B", "kill 2", "settle 250", "mt B", "wt 0 0 10", "mt A", "kill 1", "settle 250", "mt A")
    P.append(b.prog("RANDS n=2", out=20, gc=True))
    b = B(g.name("g"), [1, 2, 3], "fresh=1 autoinit=1 rt=1 robust=2", [(1, 0, "fa"), (3, 0, "fa")], forked=[2], env=[(p, "FLCKROBUSTMODE=HIGH") for p in (1, 2, 3)])
    b.op(1, "mt Z", "fork 2", "bar 2", "exit").op(2, "bar 4", "mt A", "mt B", "wt 0 0 10").op(3, "bar 1", "ml A", "wl 0 0 10", "bar 3", "settle 50", "exit")
    P.append(b.prog("RANDS n=1", out=20))
    b = B(g.name("gf"), [1, 2, 3], "fresh=1 autoinit=1 rt=1 robust=2", [(1, 0, "fa"), (3, 0, "fa")], forked=[2], env=[(p, "FLCKROBUSTMODE=HIGH") for p in (1, 2, 3)])
    b.op(1, "mt Z", "fork 2", "bar 2", "exit").op(2, "bar 4", "settle 250", "mt A", "mt B", "wt 0 0 10", "mt Z").op(3, "bar 1", "ml A", "wl 0 0 10", "bar 3", "settle 50", "exit")
    P.append(b.prog("RANDS n=1", out=20, gc=True))
    # the child is the only survivor, of its parent and of its grandparent
    for robust, how in (("LOW", "kill 1"), ("HIGH", "kill 1 0"), ("LOW", None)):
        cfg = "fresh=1 autoinit=1 rt=1 robust=%d free=%d" % (1 if robust == "LOW" else 2, g.pick([0, 1, 2]))
        b = B(g.name("gf"), [1, 2], cfg, [(1, 0, "fa"), (1, 1, "fb")], forked=[2], env=[(1, "FLCKROBUSTMODE=" + robust)])
        b.op(1, "ml A", "wl 0 0 10", "rl 1 0 10", "fork 2", *(["bar 3"] if how else ["bar 2", "exit"]))
        b.op(2, "rl 1 0 10", "bar 1", *([how] if how else []))
        b.op(2, *([] if how else ["bar 3"]))
        b.op(2, "settle 250", "mt A", "wt 0 0 10", "wt 1 0 10", "rt 1 0 10", "mT A 1000")
        P.append(b.prog("RANDS n=1", out=20, gc=True))
        b = B(g.name("gf"), [1, 2, 3], cfg, [(1, 0, "fa"), (1, 1, "fb")], forked=[2, 3], env=[(1, "FLCKROBUSTMODE=" + robust)])
        b.op(1, "ml A", "wl 0 0 10", "fork 2", "bar 9").op(2, "ml B", "wl 1 0 10", "fork 3", "bar 8").op(3, "bar 1", "mt A", "mt B", *g.pick([["kill 1", "settle 250", "mt A", "wt 0 0 10", "mt B", "wt 1 0 10", "kill 2", "settle 250", "mt B", "wt 1 0 10"], ["kill 2", "settle 250", "mt B", "wt 1 0 10", "mt A", "wt 0 0 10", "kill 1", "settle 250", "mt A", "wt 0 0 10"]]))
        P.append(b.prog("RANDS n=1", out=20, gc=True))
    # the survivor came to the lock space later: by reinitialising, or by a retry
    b = B(g.name("gi"), [1, 2], "fresh=1 autoinit=1 rt=1 robust=1", f, env=[(p, "FLCKROBUSTMODE=LOW") for p in (1, 2)])
    b.op(1, "init s1 -", "ml A", "wl 0 0 10", "bar 2").op(2, "mt A", "bar 1", "init s1 -", "mt B", "mt A", "kill 1", "settle 250", "mt A", "wt 0 0 10")
    P.append(b.prog("RANDS n=1", out=20, gc=True))
    b = B(g.name("gi"), [1, 2], "fresh=1 autoinit=1 rt=1 robust=2", f, env=[(p, "FLCKROBUSTMODE=HIGH") for p in (1, 2)])
    b.op(1, "bar 1", "ml A", "rl 0 0 10", "bar 3").op(2, "unreach s0", "nomap 2", "mt X", "reach s0", "mt X", "bar 2", "mt A", "kill 1", "settle 250", "mt A", "wt 0 0 10")
    P.append(b.prog("RANDS n=1", out=20, gc=True))
    # no robust mode: nothing is recovered, nothing of the living is touched
    b = B(g.name("g"), [1, 2, 3], "fresh=1 autoinit=1 rt=1 robust=0", f, env=[(p, "FLCKROBUSTMODE=NO") for p in (1, 2, 3)])
    b.op(1, "ml A", "wl 0 0 10").op(2, "ml B", "rl 1 0 10", "bar 4", "mu B").op(3, "bar 1", "kill 1", "mt A", "mt B", "wt 1 0 10")
    P.append(b.prog("RANDS n=1", out=20))
    # the survivor has no means to watch the shared file
    for i, kind in enumerate(("epoll", "inotify", "watch", "ctl")):
        for robust in ("LOW", "HIGH") if g.thorough else [("LOW", "HIGH")[(i + g.rng.randrange(2)) % 2]]:
            how = g.pick(["kill 1", "kill 1 0", None])
            b = B(g.name("gw"), [1, 2], "fresh=1 autoinit=0 rt=1 robust=%d" % (1 if robust == "LOW" else 2), f, env=[(p, "FLCKROBUSTMODE=" + robust) for p in (1, 2)])
            b.op(1, "init s0 -", "ml A", "ml A", "wl 0 0 10", "rl 1 0 10", *(["bar 2"] if how else ["bar 2", "exit"]))
            b.op(2, "fault " + kind, "bar 1", "init s0 -", "mt B", "mt A", "wt 0 0 10", "bar 3", *([how] if how else []), "settle 400", "mt A", "wt 0 0 10", "wt 1 0 10", "mt B")
            P.append(b.prog("RANDS n=1", out=20, gc=True))
    # exit without locks and with threads which have ended
    b = B(g.name("g"), [1, 2, 2, 3], "fresh=1 autoinit=1 rt=1 robust=1", f, env=[(p, "FLCKROBUSTMODE=LOW") for p in (1, 2, 3)])
    b.op(1, "ml A", "exit").op(2, "ml B", "wl 0 0 10", "bar 4", "mu B").op(3, "bar 1", "ml C", "rl 1 0 10", "bar 5", "mu C").op(4, "bar 2", "settle 250", "mt A", "mt B", "mt C", "wt 0 0 10", "wt 1 0 10")
    P.append(b.prog("RANDS n=1", out=20, gc=True))
    return P


HASHPAIR = ("8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ")


def c20(g):
    P = []
    n63 = "n" * 63
    f = [(1, 0, "fa"), (1, 1, "fb"), (2, 0, "fa"), (2, 1, "fb"), (2, 2, "fl"), (1, 2, "fs"), (2, 3, "../f/./fa"), (1, 3, "./fa")]
    links = ["LINK fa fl", "LINKS fa fs"]
    names = [n63, n63 + "x", n63 + "yy", "n" * 62, "n" * 62 + "x", "N" * 63, "n" * 64, "A", "a", "AA", "B"]
    for i in range(g.n(6)):
        ns = g.rng.sample(names, 4)
        b = B(g.name("e"), [1, 2], "caps=4,8,16,16,8,8")
        b.op(1, *["mt %s" % x for x in ns])
        b.op(2, "bar 1", *["mt %s" % x for x in g.rng.sample(names, 5)])
        b.op(1, "bar 2", *["mu %s" % x for x in g.rng.sample(names, 5)])
        b.op(2, "bar 3", *["mt %s" % x for x in g.rng.sample(names, 3)])
        P.append(b.prog("RANDS n=4", out=20))
    b = B(g.name("e"), [1, 2, 3], "caps=4,8,16,16,8,8")
    b.op(1, "ml %s" % n63, "mu %sz" % n63).op(2, "ml %sx" % n63, "mu %s" % n63).op(3, "mt %sy" % n63, "mt %s" % ("n" * 62), "mu %sa" % n63)
    P.append(b.prog(*(g.sys(True, 100) + g.rnd(80))))
    # many names(the same hash bucket order, similar names)
    for pre in ("k", "kk", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"):
        b = B(g.name("e"), [1, 2], "caps=4,8,16,24,8,8")
        ns = ["%s%d" % (pre, j) for j in range(12)]
        o1, o2 = list(ns), list(ns)
        g.rng.shuffle(o1)
        g.rng.shuffle(o2)
        b.op(1, *["mt %s" % x for x in o1[:8]])
        b.op(2, "bar 1", *["mt %s" % x for x in o2])
        b.op(1, "bar 2", *["mu %s" % x for x in o2[:8]])
        P.append(b.prog("RANDS n=3", out=20))
    # mutexes and conditions do not collide
    b = B(g.name("e"), [1, 2, 3], "caps=4,8,16,8,4,8")
    waiter(g, b, 1, "A", "A", 90000)
    b.op(2, "bar 1")
    waiter(g, b, 2, "B", "A", 90000)
    b.op(3, "bar 2", "cs C", "mt B", "mt C", "cs B", "bar 3", "cs A", "mu B")
    P.append(b.prog(*(g.rnd(40) + g.sys(True, 40)), out=100))
    for c1, c2 in ((n63, n63 + "x"), (n63 + "a", n63 + "b"), ("n" * 62, n63), ("c", "C")):
        b = B(g.name("e"), [1, 2], "caps=4,8,16,8,4,8")
        waiter(g, b, 1, c1, "A", 90000)
        b.op(2, "bar 1", "cs %s" % c2, "bar 2", "mt A", "mu A")
        P.append(b.prog(*(g.rnd(10)), out=40))
    b = B(g.name("e"), [1, 2], "caps=4,8,16,8,4,8")
    b.op(1, "ml %s" % n63, "cT c %sx 2000" % n63, "mu %sy" % n63).op(2, "bar 1", "mt %sq" % n63, "mu %s" % n63, "cs c")
    P.append(b.prog(*(g.rnd(20, 40)), out=40))
    # two names with the same hash value(FNV-1a 64 bits: 4eac0c95540867e4)
    h1, h2 = HASHPAIR
    for x, y in ((h1, h2), (h2, h1)):
        b = B(g.name("hc"), [1, 2, 3], "caps=4,8,16,8,4,8 robust=%d" % g.pick([0, 2]))
        b.op(1, "ml %s" % x, "bar 2", "mu %s" % y, "mt %s" % y, "bar 5", "mu %s" % x)
        b.op(2, "bar 1", "mt %s" % y, "mt %s" % x, "mu %s" % x, "bar 3", "mu %s" % y, "mT %s 500" % y, "bar 6", "mt %s" % x, "mu %s" % x)
        b.op(3, "bar 4", "mt %s" % x, "mt %s" % y, "mt a", "mu a", "bar 7", "mt %s" % y, "mT %s 500" % x)
        P.append(b.prog("RANDS n=4", out=20))
        b = B(g.name("hc"), [1, 2, 3], "caps=4,8,16,8,4,8")
        b.op(1, "ml %s" % x, "mu %s" % x).op(2, "ml %s" % y, "mu %s" % y).op(3, "mt %s" % x, "mt %s" % y, "mu %s" % x, "mu %s" % y)
        P.append(b.prog(*(g.sys(True, 60) + g.rnd(40))))
        # conditions
        b = B(g.name("hc"), [1, 2, 3], "caps=4,8,16,8,4,8")
        waiter(g, b, 1, x, "A", 90000)
        b.op(2, "bar 1")
        waiter(g, b, 2, y, "A", 90000)
        b.op(3, "bar 2", "%s %s" % (g.pick(["cs", "cb"]), y), "bar 3", "mt A", "mu A", "%s %s" % (g.pick(["cs", "cb"]), x))
        P.append(b.prog(*(g.rnd(20, 20)), out=60))
        b = B(g.name("hc"), [1, 2], "caps=4,8,16,8,4,8")
        b.op(1, "ml %s" % x, "cT %s %s 2000" % (x, y), "cT %s %s 2000" % (y, x), "mu %s" % y, "mu %s" % x)
        b.op(2, "bar 1", "cs %s" % y, "mt %s" % y, "cb %s" % x, "cs %s" % y, "mu %s" % y)
        P.append(b.prog(*(g.rnd(10, 20)), out=40))
    # names of any bytes
    for i in range(g.n(3)):
        ns = [g.bytesname() for j in range(5)]
        o1, o2 = list(ns), list(ns)
        g.rng.shuffle(o1)
        g.rng.shuffle(o2)
        b = B(g.name("hb"), [1, 2], "caps=4,8,16,16,8,8")
        b.op(1, *["mt %s" % x for x in o1[:4]])
        b.op(2, "bar 1", *["mt %s" % x for x in o2])
        b.op(1, "bar 2", *["mu %s" % x for x in o2[:3]])
        b.op(2, "bar 3", *["mt %s" % x for x in o1])
        P.append(b.prog("RANDS n=3", out=20))
    # two devices
    om = othermounts()
    for i, x in enumerate(om):
        for y in om[i + 1:][:2]:
            b = B(g.name("e"), [1, 2], "free=%d" % g.pick([0, 1, 2]), [(1, 0, x), (2, 0, y), (2, 1, x), (1, 1, y)])
            b.op(1, "wl 0 0 10", "bar 2", "il 1 0 10", "u 0 0 10", "u 1 0 10").op(2, "bar 1", "il 0 0 10", "wt 0 0 10", "wt 1 0 10", "bar 3", "il 0 0 10", "u 0 0 10", "il 1 0 10", "wt 1 0 10")
            P.append(b.prog(*(g.rnd(8)), out=40))
    # files: paths, hard and symbolic links, dups, reopened descriptors
    for x, y in (((1, 0), (2, 2)), ((1, 2), (2, 0)), ((1, 3), (2, 3)), ((1, 0), (2, 1)), ((1, 1), (2, 2)), ((1, -1), (2, 0)), ((1, -1), (2, -2)), ((1, -3), (2, 1))):
        b = B(g.name("e"), [1, 2], "free=%d" % g.pick([0, 1, 2]), f, links=links)
        b.op(1, "wl %d 0 10" % x[1], "bar 2", "u %d 0 10" % x[1])
        b.op(2, "bar 1", "wt %d 0 10" % y[1], "rt %d 5 10" % y[1], "il %d 0 10" % y[1], "u %d 0 10" % y[1], "bar 3", "wt %d 0 10" % y[1])
        P.append(b.prog(*(g.rnd(8)), out=40))
    b = B(g.name("e"), [1, 2], "", f, links=links)
    b.op(1, "dup 8 0", "wl 8 0 10", "u 0 0 10", "wt 0 0 10", "close 8", "bar 2", "open 8 fb", "wt 8 0 10", "u 8 0 10", "dup 8 1", "wt 8 0 10").op(2, "bar 1", "wt 2 0 10", "wl 0 0 10", "u 0 0 10", "bar 3", "wt 1 0 10", "wt 0 0 10", "dup 9 2", "rt 9 50 10", "wt 0 50 10", "u 9 50 10")
    P.append(b.prog(*(g.rnd(8)), out=40))
    b = B(g.name("e"), [1, 2, 3], "", f + [(3, 0, "fl"), (3, 1, "fb")], links=links)
    b.op(1, "wl 0 0 10", "u 0 0 10", "rl 1 0 10", "u 1 0 10").op(2, "wl 2 5 10", "u 2 5 10", "wl 1 5 10", "u 1 5 10").op(3, "rt 0 0 10", "u 0 0 10", "wt 1 0 10", "u 1 0 10")
    P.append(b.prog(*(g.sys(True, 150) + g.rnd(120))))
    for i in range(g.n(8)):
        b = B(g.name("er"), [1, 2], "free=%d" % g.pick([0, 1, 2]), f, links=links)
        for a in (1, 2):
            b.op(a, *g.rseq(g.pick([[0, 1, 2], [0, 2, 3], [0, -1], [-1, -2, 1], [1, 3, 2]]), some_clique(g), g.pick([5, 7]), (0, 1000), 0.1, il=0.1))
        P.append(b.prog(*(g.rnd(60)), out=200))
    return P


def chains(pid=None):
    """known finding KF-C: exact histories with ranges which overlap through a third one only"""
    P = []
    f = [(1, 0, "fa"), (2, 0, "fa"), (3, 0, "fa")]
    b = B("chain1", [1, 2, 3], "", f)
    b.op(1, "rl 0 0 10").op(2, "bar 1", "rl 0 8 12").op(3, "bar 2", "wt 0 18 10")
    P.append(b.prog("X NP first=1"))
    b = B("chain2", [1, 2, 3], "", f)
    b.op(1, "bar 1", "rl 0 0 10").op(2, "rl 0 8 12", "bar 2", "u 0 8 12").op(3, "bar 3", "wt 0 18 10")
    P.append(b.prog("X NP first=2"))
    b = B("chain3", [1, 2, 3], "", f)
    b.op(1, "rl 0 0 10").op(2, "bar 1", "rl 0 8 12", "bar 3", "u 0 8 12").op(3, "bar 2", "rl 0 18 10")
    P.append(b.prog("X NP first=1"))
    b = B("chain4", [1, 2, 3], "", f)
    b.op(1, "rl 0 18 10").op(2, "bar 1", "rl 0 8 12", "bar 3", "u 0 8 12").op(3, "bar 2", "rl 0 0 10")
    P.append(b.prog("X NP first=1"))
    b = B("chain5", [1, 2], "", f)
    b.op(1, "rl 0 0 10", "rl 0 8 12").op(2, "bar 1", "il 0 15 5")
    P.append(b.prog("X NP first=1"))
    return P


ALL = {"C%02d" % j: globals()["c%02d" % j] for j in range(1, 21)}
