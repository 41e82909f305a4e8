"""Common machinery: programs, exploration of the real code, trace validation by TLC."""
import json, os, posixpath, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)
EK = {1: "CALL", 2: "RET", 3: "DEAD", 4: "THREAD-END", 5: "QUIESCENT", 6: "TICK", 7: "END", 8: "BAD", 10: "SETTLED"}
ERR = {0: "0", 1: "EPERM/1", 16: "EBUSY", 22: "EINVAL", 37: "ENOLCK", 110: "ETIMEDOUT"}


class Work:
    """scratch directory of one run"""
    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (1 << 30) else tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="flverif.", dir=base)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(work):
    out = os.path.join(work.dir, "build")
    r = subprocess.run(["bash", os.path.join(HERE, "harness", "build.sh"), REPO, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout)
        raise SystemExit("could not build the explorer from %s" % REPO)
    return os.path.join(out, "explore")


# ---------------------------------------------------------------- programs
LOCK_RANGE = {"rl", "rt", "rT", "wl", "wt", "wT", "u", "il"}


def _i(s):
    return int(s, 0)


def _us(s):
    """a timeout: -1 has no end, more than 1000 seconds neither(within an execution), other negative ones have passed already"""
    v = int(s, 0)
    return -1 if v > 10**9 else max(v, -2)


def bname(n):
    """a name in a program: any byte is %xx, which is one character for the specification"""
    return "" if n == '""' else re.sub("%([0-9a-f]{2})", lambda m: chr(0x100 + int(m.group(1), 16)) if not 32 < int(m.group(1), 16) < 127 else chr(int(m.group(1), 16)), n)


class Prog:
    """A program of the explorer script language, and its form for TLA+"""
    def __init__(self, name, body, strat=(), props=(), gc=False):
        self.name = name
        self.body = [l.split() for l in body.strip().splitlines() if l.strip() and not l.strip().startswith("#")]
        self.strat = list(strat)
        self.gc = gc
        self.parse()

    def script(self, strats=None):
        o = ["PROG %s" % self.name] + [" ".join(w) for w in self.body]
        o += ["STRAT " + s for s in (self.strat if strats is None else strats)]
        return "\n".join(o + ["END", ""])

    @staticmethod
    def dirfile(d, n):
        """identity of a shared file: directory and name"""
        if d in ("-", "~", '""'):
            base = "B/shm"
        elif d.startswith("@"):
            base = posixpath.normpath("/B/" + d[1:])[1:]
        else:
            base = posixpath.normpath(d)
        return n if base == "B/shm" else base + "//" + n

    def parse(self):
        cfg = dict(robust="2", nomap="0", free="1", chk="50", fresh="0", autoinit="0", caps="4,8,16,8,4,8")
        acts, forked, po, fds, env, link, ops = {}, {}, {}, [], {}, {}, {}
        for w in self.body:
            if w[0] == "CFG":
                for x in w[1:]:
                    k, v = x.split("=", 1)
                    cfg[k] = v
            elif w[0] in ("ACT", "ACTF"):
                a = int(w[1])
                po[a] = int(w[2])
                forked[a] = w[0] == "ACTF"
                ops.setdefault(a, [])
            elif w[0] == "FD":
                fds.append((int(w[1]), int(w[2]), w[3]))
            elif w[0] in ("LINK", "LINKS"):
                link[w[2]] = link.get(w[1], w[1])
            elif w[0] == "ENV":
                k, v = w[2].split("=", 1)
                env.setdefault(int(w[1]), {})[k] = v
            elif w[0] == "OP":
                ops.setdefault(int(w[1]), []).append(w[2:])
        caps = [int(x) for x in cfg["caps"].split(",")]
        self.cfg, self.caps = cfg, caps
        def ino(p):
            p = p if p.startswith("/") else posixpath.relpath(posixpath.normpath("/B/f/" + p), "/B/f")
            return link.get(p, p)
        def envname(n):
            return "fullock.shm" if n in ("", "~") or "/" in n else n
        big = []
        np_ = max(po.values())
        jacts = []
        for a in range(1, max(po) + 1):
            lst = []
            for w in ops.get(a, []):
                k, x = w[0], w[1:]
                o = {"k": k}
                if k in ("ml", "mt", "mu", "mT"):
                    o["n"] = bname(x[0])
                    if k == "mT":
                        o["us"] = _us(x[1])
                elif k in LOCK_RANGE:
                    o["fd"], o["o"], o["l"] = _i(x[0]), _i(x[1]), _i(x[2])
                    if k in ("rT", "wT"):
                        o["us"] = _us(x[3])
                    big.append(o)
                elif k in ("or", "ow", "oR", "oW", "xr", "xw"):
                    o["obj"], o["fd"], o["o"], o["l"] = _i(x[0]), _i(x[1]), _i(x[2]), _i(x[3])
                    big.append(o)
                elif k in ("ou", "od"):
                    o["obj"] = _i(x[0])
                elif k in ("cw", "cT"):
                    o["c"] = bname(x[0])
                    o["n"] = bname(x[1])
                    if k == "cT":
                        o["us"] = _us(x[2])
                elif k in ("cs", "cb"):
                    o["c"] = bname(x[0])
                elif k == "init":
                    n = x[0]
                    d = x[1] if len(x) > 1 else "-"
                    cp = [_i(v) for v in x[2:8]] if len(x) > 2 else [0] * 6
                    cp += [0] * (6 - len(cp))
                    ok = "/" not in n and "!" not in d
                    cp = [v if -2**31 < v < 2**31 else 2**31 - 1 for v in cp]
                    e = env.get(po[a], {})
                    if n in ("~", '""'):
                        n = envname(e.get("FLCKFILENAME", "s0"))
                    if d in ("~", '""'):
                        d = e["FLCKDIRPATH"] if e.get("FLCKDIRPATH", "").startswith("@") else "-"
                    o["n"] = self.dirfile(d, n)
                    o["ok"], o["caps"] = ok, cp
                elif k in ("robust", "nomap", "free", "chk", "fork"):
                    o["v"] = _i(x[0])
                elif k == "bm":
                    o["v"] = _i(x[1])
                    o["names"] = ["%s%d" % (x[0], j) for j in range(o["v"])]
                elif k == "bc":
                    o["c"], o["v"] = x[1], _i(x[2])
                    o["names"] = ["%s%d" % (x[0], j) for j in range(o["v"])]
                elif k == "bf":
                    o["v"] = _i(x[1])
                    o["names"] = [ino("%s%d" % (x[0], j)) for j in range(o["v"])]
                elif k in ("bo", "bl"):
                    o["fd"], o["o"], o["v"] = _i(x[0]), _i(x[1]), _i(x[2])
                elif k == "open":
                    o["fd"], o["f"] = _i(x[0]), ino(x[1])
                elif k == "close":
                    o["fd"] = _i(x[0])
                elif k == "dup":
                    o["fd"], o["v"] = _i(x[0]), _i(x[1])
                elif k in ("reach", "unreach", "garbage", "perm", "fault"):
                    o["n"] = x[0]
                    o["fd"] = 0
                lst.append(o)
            jacts.append(lst)
        if any(abs(o["o"]) >= 1 << 28 or o["l"] >= 1 << 28 for o in big):
            pts = sorted({o["o"] for o in big} | {min(o["o"] + o["l"], (1 << 63)) for o in big})
            rank = {v: 10 * j for j, v in enumerate(pts)}
            for o in big:
                e = min(o["o"] + o["l"], 1 << 63)
                o["o"], o["l"] = rank[o["o"]], rank[e] - rank[o["o"]]
        envs = []
        fresh = cfg["fresh"] == "1"
        capnames = ["FLCKFILECNT", "FLCKOFFETCNT", "FLCKLOCKERCNT", "FLCKNMTXCNT", "FLCKNCONDCNT", "FLCKWAITERCNT"]
        for p in range(1, np_ + 1):
            e = {"FLCKAUTOINIT": "YES" if cfg["autoinit"] == "1" else "NO", "FLCKROBUSTMODE": "NO", "FLCKFILENAME": "s0"}
            if fresh:
                for n, v in zip(capnames, caps):
                    if v:
                        e[n] = str(v)
            for k, v in env.get(p, {}).items():
                if v == "~":
                    e.pop(k, None)
                else:
                    e[k] = v
            d = "-"
            if e.get("FLCKDIRPATH", "").startswith("@"):
                d = e["FLCKDIRPATH"]

            def capv(n):
                m = re.match(r"\s*([+-]?\d+)", e.get(n, ""))
                v = int(m.group(1)) if m else 0
                return v if -2**31 < v < 2**31 else -1

            def umv(v):
                return int(v, 8) if re.match("0[0-7]*$", v) else int(v, 0)
            envs.append({"auto": e.get("FLCKAUTOINIT", ""), "robust": e.get("FLCKROBUSTMODE", ""), "nomap": e.get("FLCKNOMAPMODE", ""), "free": e.get("FLCKFREEUNITMODE", ""),
                         "file": self.dirfile(d, envname(e.get("FLCKFILENAME", ""))), "caps": [capv(n) for n in capnames], "umask": umv(e.get("FLCKUMASK", "0"))})
        self.tla = {"po": [po[a] for a in range(1, max(po) + 1)], "forked": [forked[a] for a in range(1, max(po) + 1)], "np": np_, "acts": jacts,
                    "fds": [{"p": p, "fd": s, "f": ino(f)} for p, s, f in fds], "caps": caps, "fresh": fresh, "gc": self.gc,
                    "robust": int(cfg["robust"]), "nomap": int(cfg["nomap"]), "free": int(cfg["free"]), "env": envs}
        self.ops = ops
        self.po = po

    def explain(self, ev):
        """readable history"""
        out = []
        for k, a, x, v in ev:
            if k == 1:
                out.append("thread %d(process %d) calls  %s" % (a, self.po[a], " ".join(self.ops[a][x])))
            elif k == 2:
                out.append("thread %d(process %d) returns %s from %s" % (a, self.po[a], ERR.get(v, str(v)), " ".join(self.ops[a][x])))
            elif k == 3:
                out.append("process %d %s" % (a, "exits" if x else "is killed"))
            elif k == 4:
                out.append("thread %d ends" % a)
            elif k == 5:
                out.append("nothing moves any more: every pending call stays blocked(time %dus)" % v)
            elif k == 6:
                out.append("time is %dus" % v)
            elif k == 8:
                out.append({1: "process %d dies unexpectedly(signal/status %d)" % (a, v), 2: "does not terminate: thread %d in operation %d" % (a, v), 3: "thread %d hangs in operation %d" % (a, v)}.get(x, "bad"))
            else:
                out.append(EK.get(k, str(k)))
        return out


# ---------------------------------------------------------------- exploration
def _explore_one(exe, work, n, text, seconds):
    d = os.path.join(work.dir, "x%d" % n)
    os.makedirs(d, exist_ok=True)
    sf = os.path.join(work.dir, "x%d.txt" % n)
    open(sf, "w").write(text)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("FLCK"):
            del env[k]
    env["FLCKAUTOINIT"] = "NO"
    env["FLCKROBUSTMODE"] = "NO"
    of = sf + ".out"
    with open(of, "w") as fo:
        p = subprocess.run([exe, sf, d, str(n % NCPU), str(seconds)], stdout=fo, stderr=subprocess.PIPE, text=True, env=env, timeout=seconds * 3 + 300 if seconds else 1500)
    res = []
    for l in open(of):
        try:
            res.append(json.loads(l))
        except ValueError:
            pass
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, res, p.stderr


def explore(exe, work, progs, seconds, strats=None, tag=0):
    """runs the programs on all processors. returns [(prog, record)...], summaries, errors"""
    groups = [[] for _ in range(min(NCPU, max(1, len(progs))))]
    # heavy ones first
    for j, p in enumerate(progs):
        groups[j % len(groups)].append(p)
    byname = {p.name: p for p in progs}
    jobs = []
    with ThreadPoolExecutor(len(groups)) as ex:
        for n, g in enumerate(groups):
            text = "".join(p.script(None if strats is None else strats[p.name]) for p in g)
            jobs.append(ex.submit(_explore_one, exe, work, tag * 100 + n, text, seconds))
        out, summ, errs = [], [], []
        for j in jobs:
            rc, res, err = j.result()
            if rc != 0:
                errs.append("explorer exit %d: %s" % (rc, err[-2000:]))
            for r in res:
                if "ev" in r:
                    out.append((byname[r["p"]], r))
                elif "execs" in r:
                    summ.append(r)
                elif "skipped" in r:
                    summ.append({"p": r["p"], "execs": 0, "distinct": 0, "skipped": 1})
                else:
                    errs.append(json.dumps(r))
    return out, summ, errs


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, timeout=600, workers=1, dfs=False, mem="3g", extra=(), work=None, specdir=None):
    meta = tempfile.mkdtemp(prefix="tlc.", dir=work.dir if work else None)
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4"]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=specdir or os.path.join(HERE, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return -9, (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def _validate_batch(work, n, items, module, timeout, kf=False):
    """items: [(prog, ev)]. returns {index: longest explained prefix} of the rejected ones, (generated, distinct), output"""
    names, progs, nodes = {}, [], []
    for p, ev in items:
        if id(p) not in names:
            names[id(p)] = len(progs) + 1
            progs.append(p.tla)
            nodes.append({"e": [0, 0, 0, 0], "c": [], "u": 0, "l": 0})
    kids = {}
    ends = []
    for p, ev in items:
        c = names[id(p)]
        for e in ev:
            k = (c,) + tuple(e)
            if k not in kids:
                nodes.append({"e": e, "c": [], "u": c, "l": 0})
                kids[k] = len(nodes)
                nodes[c - 1]["c"].append(len(nodes))
            c = kids[k]
        ends.append(c)
    leaves = 0
    for j in range(len(nodes), 0, -1):
        if not nodes[j - 1]["c"]:
            leaves += 1
            nodes[j - 1]["l"] = 1
        if nodes[j - 1]["u"]:
            nodes[nodes[j - 1]["u"] - 1]["l"] += nodes[j - 1]["l"]
    f = os.path.join(work.dir, "tr%s.json" % n)
    json.dump({"progs": progs, "nodes": nodes, "leaves": leaves, "kf": kf}, open(f, "w"))
    rc, out = tlc(module + ".tla", module + ".cfg", {"TRACEFILE": f}, timeout=timeout, dfs=True, work=work)
    os.unlink(f)
    m = re.search(r'<<"UNREACHED", (\d+), "OF", (\d+)>>', out)
    first = {int(a) for a in re.findall(r'<<"REJECTED", (\d+)>>', out)}
    st = re.search(r"(\d+) states generated.*?(\d+) distinct", out.replace(",", ""))
    states = (int(st.group(1)), int(st.group(2))) if st else (0, 0)
    if not m:
        return None, states, out
    rej = {}
    if first:
        for j, c in enumerate(ends):
            path = []
            while c:
                path.append(c)
                c = nodes[c - 1]["u"]
            path.reverse()
            for q, c in enumerate(path):
                if c in first:
                    rej[j] = q - 1
    if int(m.group(1)) > 0 and not rej:
        return None, states, out
    return rej, states, out


def validate(work, items, module="FullockTrace", timeout=400, chunk=None, kf=False):
    """returns (rejected {i: prefix}, states, transitions, undecided [i])"""
    if not items:
        return {}, 0, 0, []
    nj = NCPU
    chunk = chunk or max(20, min(1500, (len(items) + nj - 1) // nj))
    # similar histories go together, because they share prefixes
    order = sorted(range(len(items)), key=lambda j: (items[j][0].name, items[j][1]))
    nb = max(min(nj, len(items)), (len(items) + chunk - 1) // chunk)
    batches = [b for b in (order[len(order) * j // nb:len(order) * (j + 1) // nb] for j in range(nb)) if b]
    rejected, gen, dist, und = {}, 0, 0, []

    def run(args):
        n, b, lim = args
        r = _validate_batch(work, "%d_%d" % (n, os.getpid()), [items[j] for j in b], module, lim, kf)
        if os.environ.get("VERIF_KEEP") and r[0] is None:
            open("/tmp/tlc_fail_%d.txt" % n, "w").write(r[2])
        return b, r
    todo = [(j, b, timeout) for j, b in enumerate(batches)]
    cnt = len(todo)
    with ThreadPoolExecutor(nj) as ex:
        while todo:
            nxt = []
            for b, (rej, st, out) in ex.map(run, todo):
                gen += st[0]
                dist += st[1]
                if rej is None:
                    if "Parsing or semantic" in out or "Semantic errors" in out:
                        raise SystemExit("specification does not parse:\n" + out[-3000:])
                    if len(b) == 1:
                        und.append((b[0], out[-1500:]))
                    else:
                        h = (len(b) + 3) // 4
                        for k in range(0, len(b), h):
                            nxt.append((cnt, b[k:k + h], timeout))
                            cnt += 1
                else:
                    for j, v in rej.items():
                        rejected[b[j]] = v
            todo = nxt
    return rejected, dist, gen, und
