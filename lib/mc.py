"""Model checking of the specification itself(spec/FullockMC.tla) for menus of operations, and tests which are
generated from it(spec/FullockGen.tla)."""
import json, os, random, re
import fl
from fl import Prog

ALLINV = ["NoErr", "MutexExclusion", "MutexKept", "RwExclusion", "RwKept", "Capacity", "NoLeak", "NoFalseWake", "OneSpace", "NobodyForgotten",
          "MutexProgress", "WaitProgress", "RwProgress", "SignalsArrive", "Recovered"]


class Menu:
    """every actor calls up to k operations of its menu"""
    def __init__(self, name, procs, menus, k, cfg="", fds=(), forked=(), links=(), env=(), deaths=0, mortal=(), ending=(), exiting=()):
        self.name, self.procs, self.menus, self.k, self.cfg = name, procs, menus, k, cfg
        self.fds, self.forked, self.links, self.env = fds, forked, links, env
        self.deaths, self.mortal, self.ending, self.exiting = deaths, list(mortal), list(ending), list(exiting)

    def head(self):
        l, thr = [], {}
        for a, p in enumerate(self.procs, 1):
            if a in self.forked:
                l.append("ACTF %d %d" % (a, p))
            else:
                l.append("ACT %d %d %d" % (a, p, thr.get(p, 0)))
                thr[p] = thr.get(p, 0) + 1
        l += ["FD %d %d %s" % x for x in self.fds] + list(self.links) + ["ENV %d %s" % e for e in self.env]
        return l

    def tla(self):
        l = ["CFG " + self.cfg] + self.head()
        for a, m in enumerate(self.menus, 1):
            l += ["OP %d %s" % (a, o) for o in m * self.k[a - 1]]
        d = dict(Prog(self.name, "\n".join(l)).tla)
        d.update(menu=[len(m) for m in self.menus], k=list(self.k), deaths=self.deaths, mortal=self.mortal, ending=self.ending, exiting=self.exiting)
        return d


def run(work, name, menus, invs=ALLINV, timeout=600, workers=4, mem="6g"):
    f = os.path.join(work.dir, "mc_%s.json" % name)
    json.dump({"progs": [m.tla() for m in menus]}, open(f, "w"))
    cfg = os.path.join(work.dir, "mc_%s.cfg" % name)
    open(cfg, "w").write("CONSTANT CfgOf <- MCCfg\nSPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in invs))
    rc, out = fl.tlc("FullockMC.tla", cfg, {"MCFILE": f}, timeout=timeout, workers=workers, mem=mem, work=work)
    st = re.search(r"(\d+) states generated, (\d+) distinct", out.replace(",", "").replace("generated ", "generated, "))
    m = re.findall(r"(\d+) states generated[^.]*?(\d+) distinct states found", out.replace(",", ""))
    done = "Model checking completed. No error has been found." in out
    # too large for the time limit: what was explored holds
    ok = done or (rc == -9 and "Error:" not in out)
    return dict(ok=ok, complete=done, model=name, generated=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0, output="" if ok else out[-6000:])


def transitions(work, name, menus, depth, timeout=300, mem="4g"):
    """[(menu, path, call)]: shortest paths to the states of the sequential menus, and each call there"""
    f = os.path.join(work.dir, "gen_%s.json" % name)
    d = [m.tla() for m in menus]
    for x in d:
        x["depth"] = depth
    json.dump({"progs": d}, open(f, "w"))
    cfg = os.path.join(work.dir, "gen_%s.cfg" % name)
    open(cfg, "w").write("CONSTANT CfgOf <- MCCfg\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nVIEW GView\n")
    rc, out = fl.tlc("FullockGen.tla", cfg, {"MCFILE": f}, timeout=timeout, workers=1, mem=mem, work=work)
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", ""))
    res = []
    for a, b, c in re.findall(r'<<"T", (\d+), <<([\d, ]*)>>, (\d+)>>', out):
        res.append((menus[int(a) - 1], [int(x) for x in b.split(",")] if b.strip() else [], int(c)))
    return res, int(m[-1][1]) if m else 0, out


def program(m, name, steps, strats, out=200, probes=()):
    """steps: lists of calls which are made at once, one list after another. probes: calls which are made then by those who can"""
    l = ["CFG %s out=%d" % (m.cfg, out)] + m.head()
    killer = len(m.procs) + 1
    if m.mortal:
        l.append("ACT %d %d 0" % (killer, max(m.procs) + 1))
    for j, st in enumerate(list(steps) + [[x] for x in probes], 1):
        for x in st:
            if 10000 <= x < 20000:
                l += ["OP %d bar %d" % (killer, j), "OP %d kill %d %d" % (killer, x - 10000, j % 2)]
            elif x >= 20000:
                l += ["OP %d bar %d" % (x - 20000, j), "OP %d exit" % (x - 20000)]
            else:
                a, q = divmod(x, 100)
                l += ["OP %d bar %d" % (a, j), "OP %d %s" % (a, m.menus[a - 1][q - 1] if q else "tx")]
    return Prog(name, "\n".join(l), strats, gc=bool(m.mortal or m.ending))


# ------------------------------------------------------------------ menus
F2 = [(1, 0, "fa"), (2, 0, "fa"), (3, 0, "fa")]
F4 = [(1, 0, "fa"), (1, 1, "fa"), (1, 2, "fb"), (2, 0, "fa"), (2, 1, "fb"), (3, 0, "fa")]
FR = "fresh=1 autoinit=1"
LONG = "n" * 63
H1, H2 = "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"      # the same hash value(FNV-1a 64 bits)


def menus(pid):
    """(menu, depth of the generated tests, largest number of calls of each actor for the thorough model run)"""
    M, D = Menu, {}
    A = ["ml A", "mu A", "mt A"]
    R = ["rl 0 0 10", "wl 0 0 10", "u 0 0 10"]
    D["C01"] = [(M("mx2", [1, 2], [["ml A", "mt A", "mu A", "mT A 1000"]] * 2, [3, 3], "robust=2 caps=4,8,16,2,4,8"), 6, [4, 4]),
                (M("mx3", [1, 1, 2], [A] * 3, [2, 2, 2], "robust=2"), 6, [3, 2, 2]),
                (M("mxn", [1, 2], [["ml A", "ml B", "mu A", "mu B"]] * 2, [3, 3], "robust=0"), 6, [4, 4])]
    D["C02"] = [(M("mr", [1, 2], [A + ["ml B", "mu B"]] * 2, [3, 3], "robust=2"), 6, [4, 4]),
                (M("mrc", [1, 1], [A + ["cT c A 1000", "cs c"]] * 2, [3, 2], "robust=0"), 5, [3, 3])]
    D["C03"] = [(M("mk", [1, 2], [A] * 2, [3, 3], "robust=2", deaths=2, mortal=[1, 2], ending=[1, 2]), 7, [4, 4]),
                (M("mk3", [1, 2, 3], [["ml A", "mu A"]] * 3, [2, 2, 2], "robust=2", deaths=1, mortal=[1, 2]), 7, [3, 2, 2]),
                (M("mkt", [1, 1, 2], [["ml A", "mu A", "ml B"], ["ml A", "mu A"], ["ml B", "ml A", "mT A 1000"]], [2, 1, 2], "robust=2", deaths=1, mortal=[1], ending=[2]), 6, [2, 2, 2])]
    D["C04"] = [(M("tm", [1, 2], [["mt A", "mT A 1000", "mT A 0", "mu A"]] * 2, [3, 3], "robust=%d" % 0), 6, [4, 4]),
                (M("tr", [1, 2], [["rt 0 0 10", "wT 0 0 10 1000", "u 0 0 10", "wt 0 0 10"], ["rT 0 5 10 1000", "wt 0 5 10", "u 0 5 10", "wT 0 5 10 0"]], [2, 2], "robust=2", F2), 6, [3, 3])]
    D["C05"] = [(M("rx", [1, 2], [["rl 0 0 10", "wl 0 5 10", "u 0 0 10", "u 0 5 10", "wt 0 0 10"]] * 2, [3, 3], "robust=2", F2), 6, [4, 3]),
                (M("rx3", [1, 1, 2], [R, ["rt 0 0 10", "wt 0 0 10", "u 0 0 10"], ["rl 0 5 10", "wl 0 5 10", "u 0 5 10"]], [2, 1, 2], "robust=0", F2), 6, [3, 2, 2]),
                (M("rxf", [1, 2], [["wl 0 0 10", "wl 1 0 10", "wl 2 0 10", "u 0 0 10", "u 2 0 10"], ["rl 0 0 10", "rl 1 0 10", "u 0 0 10"]], [3, 3], "robust=2", F4), 5, [4, 3])]
    D["C06"] = [(M("rp", [1, 2, 3], [R, ["wl 0 5 10", "u 0 5 10"], ["rl 0 5 10", "u 0 5 10"]], [2, 2, 2], "robust=2", F2), 7, [3, 2, 2]),
                (M("rpt", [1, 1, 2], [R, ["wT 0 0 10 1000", "u 0 0 10", "wt 0 0 10"], ["rl 0 0 10", "u 0 0 10"]], [2, 2, 1], "robust=2 free=2", F2), 6, [3, 2, 2])]
    D["C07"] = [(M("ru", [1, 1, 2], [["rl 0 0 10", "rl 1 0 10", "u 0 0 10", "u 1 0 10"], ["wt 0 0 10", "u 0 0 10", "u 0 5 10"], ["rt 0 0 10", "u 0 0 10"]], [2, 2, 2], "robust=2", F4), 6, [3, 3, 2]),
                (M("rul", [1, 2], [["rt 0 0 10", "rt 0 5 10", "u 0 0 10", "u 0 5 10", "u 0 0 20"], ["wt 0 0 20", "u 0 0 20", "u 0 0 10"]], [3, 3], "robust=2 free=0", F2), 6, [4, 3])]
    D["C08"] = [(M("rk", [1, 2], [["rl 0 0 10", "wt 0 0 10", "u 0 0 10"], ["wl 0 5 10", "u 0 5 10", "rT 0 5 10 1000"]], [2, 3], "robust=2", F2, deaths=1, mortal=[1]), 7, [3, 3]),
                (M("rkc", [1, 1, 2], [["rl 0 0 10", "u 0 0 10", "close 0"], ["wl 0 0 10", "u 0 0 10"], ["wl 0 5 10", "u 0 5 10"]], [2, 2, 1], "robust=2", F2, deaths=1, mortal=[1], ending=[1, 2]), 6, [3, 2, 2]),
                (M("rk3", [1, 2, 3], [["wl 0 0 10"], ["rl 0 0 10", "u 0 0 10"], ["wl 0 0 10", "u 0 0 10"]], [1, 2, 2], "robust=2", F2, deaths=2, mortal=[1, 2]), 7, [2, 2, 2])]
    D["C09"] = [(M("cp", [1, 2], [["rt 0 0 10", "rt 0 100 10", "rt 2 0 10", "u 0 0 10", "u 0 100 10"], ["rt 0 0 10", "rt 1 0 10", "u 0 0 10"]], [4, 3], "robust=2 caps=1,4,4,1,1,4 free=1", F4), 6, [4, 4]),
                (M("cpo", [1, 2], [["wt 0 0 10", "wt 0 20 10", "wt 0 40 10", "u 0 0 10"], ["wt 0 60 10", "wt 0 80 10", "wt 0 0 10", "u 0 60 10"]], [3, 3], "robust=2 caps=1,4,4,1,1,4 free=2", F4), 6, [4, 3]),
                (M("cpm", [1, 2], [["mt A", "mt B", "mu A", "cT c A 0", "cs c"], ["mt A", "cT d A 0", "cs d", "mu A"]], [3, 3], "robust=2 caps=1,4,4,1,1,4", F4), 5, [4, 4])]
    D["C10"] = [(M("il", [1, 2], [["rl 0 0 10", "wl 0 5 10", "u 0 0 10", "il 0 0 10", "il 0 8 10"], ["il 0 0 10", "wt 0 0 10", "u 0 0 10", "il 0 6 3"]], [3, 3], "robust=2", F2), 6, [4, 3]),
                (M("ilk", [1, 2], [["rl 0 0 10", "wl 0 0 10"], ["il 0 0 10", "wt 0 5 10", "il 0 6 3"]], [2, 3], "robust=2", F2, deaths=1, mortal=[1]), 6, [3, 3])]
    D["C11"] = [(M("cv", [1, 2], [["ml A", "cw c A", "mu A", "cT c A 1000"], ["ml A", "cs c", "mu A", "cb c"]], [3, 3], "robust=2"), 7, [4, 3]),
                (M("cv3", [1, 1, 2], [["ml A", "cw c A", "mu A"], ["ml A", "cw c A", "mu A"], ["cs c", "cb c"]], [2, 2, 2], "robust=0"), 8, [3, 2, 2])]
    D["C12"] = [(M("cx", [1, 2], [["ml A", "cw c A", "mu A", "cT c A 1000"], ["ml A", "ml B", "cT d A 0", "cT c B 1000", "cs c", "cb d"]], [3, 2], "robust=2"), 6, [3, 3]),
                (M("cxr", [1, 1], [["ml A", "cT c A 1000", "mu A"], ["ml A", "mt A", "mu A", "cs c"]], [4, 3], "robust=2"), 7, [4, 4])]
    D["C13"] = [(M("ck", [1, 2, 3], [["ml A", "cw c A"], ["ml A", "cw c A"], ["cs c", "ml A", "mu A"]], [2, 2, 2], "robust=2", deaths=1, mortal=[1]), 8, [2, 2, 3]),
                (M("ckb", [1, 2], [["ml A", "cw c A", "mu A"], ["ml A", "mu A", "cs c", "cb c", "cT c A 1000"]], [3, 3], "robust=2", deaths=1, mortal=[1], ending=[2]), 7, [3, 4])]
    D["C14"] = [(M("at", [1, 2, 3], [["mt A", "mu A"], ["mt A", "init s1 -"], ["mt A", "init s0 -"]], [2, 1, 2], FR + " robust=0", deaths=1, mortal=[1]), 6, [2, 2, 2]),
                (M("atx", [1, 2], [["mt A", "mt B"], ["mt A", "mu B", "init s1 -"]], [2, 3], FR + " robust=0", deaths=2, mortal=[], exiting=[1, 2]), 5, [3, 3])]
    D["C15"] = [(M("fk", [1, 2, 3], [["ml A", "fork 2", "mu A"], ["mt A", "mu A"], ["mt A", "mu A"]], [3, 2, 2], "robust=2", F2, forked=[2]), 7, [3, 2, 2]),
                (M("fkr", [1, 2], [["wl 0 0 10", "fork 2", "u 0 0 10"], ["wt 0 0 10", "rl 0 5 10", "u 0 0 10"]], [3, 3], "robust=2", F2, forked=[2]), 7, [4, 3]),
                (M("fkk", [1, 2, 3], [["ml A", "fork 2", "mu A"], ["ml B", "mu A", "mu B"], ["mt A", "ml B"]], [3, 2, 2], "robust=2", F2, forked=[2], deaths=1, mortal=[1, 2]), 6, [3, 2, 2])]
    D["C16"] = [(M("nm", [1, 2], [["unreach s0", "reach s0", "mt A", "mu A", "il 0 0 10", "wt 0 0 10"], ["mt A", "rt 0 0 10"]], [3, 2], FR, F2, env=[(1, "FLCKNOMAPMODE=ALLOW_NORETRY")]), 5, [4, 2]),
                (M("nmr", [1, 2], [["unreach s0", "reach s0", "mt A", "mu A", "nomap 1", "il 0 0 10"], ["mt A", "rt 0 0 10"]], [3, 2], FR, F2, env=[(1, "FLCKNOMAPMODE=ALLOW_RETRY")]), 5, [4, 2]),
                (M("nmd", [1, 2], [["unreach s0", "reach s0", "cs c", "mt A", "nomap 3", "wt 0 0 10"], ["mt A", "rt 0 0 10"]], [3, 2], FR, F2, env=[(1, "FLCKNOMAPMODE=DENY_NORETRY")]), 5, [4, 2]),
                (M("nmf", [1, 2], [["fault map", "fault trunc", "mt A", "init s0 -", "mu A", "wt 0 0 10"], ["mt A", "fault write", "init s0 -"]], [3, 2], FR, F2, env=[(1, "FLCKNOMAPMODE=DENY_RETRY"), (2, "FLCKNOMAPMODE=ALLOW_RETRY")]), 5, [4, 2])]
    D["C17"] = [(M("in", [1, 2], [["init s1 - 1 4 4 1 1 4", "init s1 - 2 5 4 2 1 4", "bm x 3", "init s0 -", "mt A"], ["init s1 -", "bm y 4", "mt A"]], [3, 2], FR + " robust=0 caps=2,4,4,3,2,4", F2), 5, None),
                (M("inm", [1, 2], [["robust 0", "robust 2", "chk 50", "chk 10", "free 2", "wt 0 0 10", "u 0 0 10"], ["init s0 -", "init s1 - 1 4 4 1 1 3", "wt 0 0 10"]], [3, 2], FR + " robust=0", F2), 4, None),
                (M("inf", [1, 2], [["init s1 -", "fault map", "init s0 -", "mt A", "nomap 1", "perm s1"], ["init s1 -", "mt A", "perm s1", "perm s0"]], [3, 2], FR + " robust=0", F2, env=[(1, "FLCKUMASK=022"), (2, "FLCKUMASK=077")]), 4, None)]
    D["C18"] = [(M("ob", [1, 2], [["or 1 0 0 10", "ow 1 0 0 10", "or 2 0 0 10", "ow 2 0 0 10", "ou 1", "od 2"], ["wl 0 0 10", "u 0 0 10", "wt 0 0 10"]], [3, 2], "robust=2", F2), 6, [4, 3]),
                (M("ob2", [1, 1], [["or 1 0 0 10", "ow 2 0 0 10", "ou 1", "ou 2"], ["or 3 0 0 10", "ow 4 0 0 10", "ou 3", "od 4"]], [3, 3], "robust=0", F2), 6, [4, 4]),
                (M("ob3", [1, 2], [["oR 1 0 0 10", "oW 1 0 0 10", "xr 2 0 0 10", "xw 2 0 0 10", "oR 2 0 0 10", "oW 2 0 0 10", "ou 1", "ou 2", "od 2"], ["wl 0 0 10", "u 0 0 10", "rt 0 0 10"]], [4, 2], "robust=2", F2), 6, [5, 3])]
    D["C19"] = [(M("wk", [1, 2], [["ml A", "wl 0 0 10", "rl 0 0 10", "mu A"], ["mt A", "wt 0 0 10", "mT A 1000", "wT 0 5 10 1000"]], [2, 2], "robust=1", F2, deaths=1, mortal=[1], ending=[2]), 5, [3, 3])]
    D["C20"] = [(M("nx", [1, 2], [["mt A", "mt %sa" % LONG, "mu A", "mu %sb" % LONG], ["mt A", "mt %sb" % LONG, "mu %sa" % LONG, "mt a"]], [3, 3], "robust=2"), 6, [4, 4]),
                (M("nh", [1, 2], [["mt %s" % H1, "mt %s" % H2, "cT %s %s 0" % (H1, H1), "mu %s" % H1, "mu %s" % H2], ["mt %s" % H1, "mt %s" % H2, "cs %s" % H2, "mu %s" % H2]], [3, 3], "robust=2"), 5, [3, 3]),
                (M("nf", [1, 2], [["wt 0 0 10", "wt 1 0 10", "wt 2 0 10", "u 1 0 10", "u 0 0 10", "u 2 0 10"], ["wt 0 0 10", "wt 1 0 10", "u 0 0 10", "u 1 0 10"]], [3, 2], "robust=2",
                   [(1, 0, "fa"), (1, 1, "la"), (1, 2, "fb"), (2, 0, "la"), (2, 1, "fb")], links=["LINK fa la"]), 5, [3, 3])]
    return D[pid]


def check(work, pid, tier):
    """model checking of the menus of a property: all of them with few calls(quick), then larger ones"""
    ms = [(m, list(m.k), k) for m, d, k in menus(pid) if k is not None]
    if not ms:
        return []
    for m, k1, k2 in ms:
        m.k = [min(2, x) for x in k1] if max(m.k) > 2 or len(ms) > 1 else k1
        if len(m.k) == 2 and len(m.menus[0]) + len(m.menus[1]) < 8:
            m.k = k1
    res = [run(work, "+".join(m.name for m, _, _ in ms), [m for m, _, _ in ms], timeout=600, workers=8)]
    if tier == "thorough":
        for m, k1, k2 in ms:
            m.k = k2
            res.append(run(work, m.name, [m], timeout=1200, workers=8, mem="14g"))
    return res


def coverage(work, pid, tier):
    """all transitions of the menus of a property, up to their depth"""
    byd = {}
    for m, depth, k in menus(pid):
        m.k = [8] * len(m.procs)
        byd.setdefault(depth + (1 if tier == "thorough" else 0), []).append(m)
    tr, states = [], 0
    for d, g in sorted(byd.items()):
        t, n, out = transitions(work, "d%d" % d, g, d, timeout=600)
        if not t:
            raise SystemExit("no tests could be generated from the specification: " + out[-2000:])
        states += n
        tr += t
    return tr, states


def generated(tr, pid, tier, seed, nseq, ncon):
    """programs from the transitions: sequential ones, and ones in which several calls are made at once in a reachable state"""
    rng = random.Random(seed * 77 + 5)
    ps = []
    per = {}
    for m, p, c in tr:
        per.setdefault(m.name, []).append((m, p, c))
    info = dict(sequential=0, concurrent=0)
    for nm, t in sorted(per.items()):
        m = t[0][0]
        fresh = "fresh=1" in m.cfg
        bulk = any(o.split()[0] in ("bm", "bo", "bl", "bc", "bf") for x in m.menus for o in x)

        def probe(n):
            out = []
            for _ in range(n):
                a = rng.randrange(len(m.procs))
                j = rng.randrange(len(m.menus[a]))
                if m.menus[a][j].split()[0] in ("fork", "reach", "unreach", "close", "exit"):
                    continue
                out.append(100 * (a + 1) + j + 1)
            return out
        q = rng.sample(t, min(len(t), nseq // len(per)))
        for m, p, c in q:
            ps.append(program(m, "g_%s_%d" % (nm, len(ps)), [[x] for x in p] + [[c]], ["X NP first=1"], out=20, probes=[] if bulk else probe(2)))
        info["sequential"] += len(q)
        if bulk:
            continue
        # calls of different actors in the same state
        at = {}
        for m, p, c in t:
            at.setdefault(tuple(p), []).append(c)

        def who(c):
            return len(m.procs) + 1 if 10000 <= c < 20000 else c - 20000 if c >= 20000 else c // 100
        keys = sorted(at)
        n = 0
        for _ in range(20 * ncon):
            if n >= ncon // len(per):
                break
            p = rng.choice(keys)
            cs = at[p][:]
            rng.shuffle(cs)
            grp = []
            for c in cs:
                if who(c) not in [who(x) for x in grp] and c % 100 != 0 or (10000 <= c < 20000 and pid in KILLS and who(c) not in [who(x) for x in grp]):
                    grp.append(c)
            if len(grp) < 2 or all(c >= 10000 for c in grp):
                continue
            words = [m.menus[c // 100 - 1][c % 100 - 1].split() for c in grp if c < 10000]
            if any(w[0] in ("fork", "close", "reach", "unreach") for w in words):
                continue
            timed = any(w[0] in ("mT", "rT", "wT", "cT") and w[-1] != "0" for w in words)
            sd = rng.randrange(1 << 30)
            st = ["X NP first=1", "SYS k=1 max=%d" % (12 if fresh else 30)] + ([] if fresh else ["RACE n=%d tick=%d d=3 seed=%d" % (60 if tier == "quick" else 200, timed, sd)]) + ["RANDS n=%d seed=%d tickp=%d" % (6 if fresh else 12, sd, 20 if timed else 0)]
            ps.append(program(m, "h_%s_%d" % (nm, len(ps)), [[x] for x in p] + [grp], st, out=60, probes=probe(3)))
            n += 1
        info["concurrent"] += n
    return ps, info


# a process may be killed in the middle of its calls(the known findings of reader/writer locks are listed for them)
KILLS = {"C03", "C08", "C13", "C15", "C19"}
