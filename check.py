#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed n]    decide one property of fullock
   check.py replay <file>                                     run a recorded violation again

Exit 0: everything explored conforms to the specification. Exit 1: VIOLATION line(s)."""
import json, os, re, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import fl, progs, mc

RWACQ = {"rl", "rt", "rT", "wl", "wt", "wT", "or", "ow", "oR", "oW", "xr", "xw"}
RWREL = {"u", "ou", "od"}
# number of crash points in one operation which may show a known finding(on the tree: 1)
KFWINDOW = 3


def known_findings():
    """[(id, property, history)]"""
    out = []
    f = os.path.join(HERE, "KNOWN_FINDINGS")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: (\S+) property=(\S+) (?:history=(\S+) )?", l)
        if m:
            out.append(m.groups())
    return out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.kf = {k for k, p, h in known_findings() if p == pid and not h}
        # exact histories: program -> (index of the event, event)
        self.kfh = {h.split(":")[0]: (k, [int(x) for x in h.split(":")[1].split(",")]) for k, p, h in known_findings() if p == pid and h}
        self.viol = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, programs=0, executions=0, distinct_histories=0, crash_histories=0, undecided=0,
                        unconfirmed=0, known_finding_histories=0, samples=[])
        self.known = {}
        self.notes = []
        self.gentr = None

    def add_violation(self, prog, x, ev, at, why):
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s_%d.json" % (self.pid, len(self.viol)))
        with open(f, "w") as o:
            json.dump({"property": self.pid, "why": why, "replay": "python3 /verif/check.py replay " + f, "program": prog.script(["X " + x] if x else None).splitlines(), "gc": prog.gc, "execution": x,
                       "first_unexplained": at, "history": prog.explain(ev) if ev else [], "events": ev}, o, indent=1)
        self.viol.append(f)
        print("VIOLATION property=%s replay=%s" % (self.pid, f))
        if ev:
            for q, s in enumerate(prog.explain(ev)):
                print("   %s %s" % (">>" if q == at else "  ", s))
        print("   (%s)" % why)
        sys.stdout.flush()

    # ------------------------------------------------------ known findings
    @staticmethod
    def crash_key(p, x):
        """(what the crash cuts) of an execution with a crash point"""
        m = re.search(r" crash=(\S+)", x)
        if not m:
            return None
        keys = []
        for c in m.group(1).split(","):
            a, o, n, r = c.split(":")
            k = p.ops[int(a)][int(o)][0]
            if (k in RWACQ or k in RWREL) and int(n) > 0:
                keys.append((int(a), int(o), k))
        return keys

    def kf_kind(self, p, r):
        ks = self.crash_key(p, r["x"])
        kinds = set()
        if ks is None:
            # killed by another process: what is cut is in the history
            pend = {}
            for k, a, x, v in r["ev"]:
                if k == 1:
                    pend[a] = p.ops[a][x][0]
                elif k == 2:
                    pend.pop(a, None)
                elif k == 3:
                    for b in [b for b in pend if p.po[b] == a]:
                        kinds.add("KF-A" if pend[b] in RWACQ else "KF-B" if pend[b] in RWREL else None)
                        pend.pop(b)
            return kinds - {None}
        return {"KF-A" if k in RWACQ else "KF-B" for a, o, k in ks}

    def split_known(self, work, out, rej):
        """rejected histories which are explained by the listed known findings only -> known"""
        it = sorted(rej)
        if not it or not self.kf:
            return it, []
        r2, _, _, u2 = fl.validate(work, [(out[j][0], out[j][1]["ev"]) for j in it], kf=True)
        left = set(r2) | {j for j, _ in u2}
        bad, cand = [], {}
        for q, j in enumerate(it):
            p, r = out[j]
            kinds = self.kf_kind(p, r)
            if q in left or not kinds or not kinds <= self.kf:
                bad.append(j)
            else:
                base = re.sub(r" crash=\S+", "", r["x"])
                cand.setdefault((p.name, base), []).append(j)
        known = []
        for (nm, base), js in cand.items():
            # crash points per operation
            pts = {}
            for j in js:
                p, r = out[j]
                m = re.search(r" crash=(\S+)", r["x"])
                for c in m.group(1).split(",") if m else []:
                    a, o, n, rp = c.split(":")
                    pts.setdefault((a, o), set()).add(int(n))
            over = {k for k, v in pts.items() if len(v) > KFWINDOW}
            for j in js:
                p, r = out[j]
                m = re.search(r" crash=(\S+)", r["x"])
                ks = {tuple(c.split(":")[:2]) for c in m.group(1).split(",")} if m else set()
                (bad if ks & over else known).append(j)
        return sorted(bad), known

    # ------------------------------------------------------ one round
    def round(self, work, exe, seed, seconds, tag=0):
        g = progs.Gen(seed, self.tier)
        ps = progs.ALL[self.pid](g)
        # tests from the specification
        if self.gentr is None:
            self.gentr, n = mc.coverage(work, self.pid, self.tier)
            self.cov["generated"] = dict(states=n, transitions=len(self.gentr), sequential=0, concurrent=0)
            self.cov["states"] += n
        q = 240 if self.tier == "quick" else 3000
        gp, info = mc.generated(self.gentr, self.pid, self.tier, seed, q, q // 4)
        for k, v in info.items():
            self.cov["generated"][k] += v
        ps = ps + gp
        out, summ, errs = fl.explore(exe, work, ps, seconds, tag=tag)
        self.cov["programs"] += len(ps)
        self.cov["executions"] += sum(s["execs"] for s in summ)
        self.cov["distinct_histories"] += sum(s["distinct"] for s in summ)
        self.cov["crash_histories"] += sum(1 for p, r in out if any(e[0] == 3 and e[2] == 0 for e in r["ev"]))
        self.cov["skipped_programs"] = self.cov.get("skipped_programs", 0) + sum(s.get("skipped", 0) for s in summ)
        byname = {p.name: p for p in ps}
        self.handle_errs(work, exe, byname, errs)
        for p, r in out[::max(1, len(out) // 2)][:2]:
            if len(self.cov["samples"]) < 4:
                self.cov["samples"].append({"program": p.name, "execution": r["x"], "history": p.explain(r["ev"])})
        rej, d, gn, und = fl.validate(work, [(p, r["ev"]) for p, r in out])
        self.cov["states"] += d
        self.cov["transitions"] += gn
        self.cov["traces_validated_against_impl"] += len(out) - len(und)
        self.cov["undecided"] += len(und)
        if und and len(und) > len(out) // 2:
            raise SystemExit("validation did not work: " + und[0][1][-1000:])
        bad, known = self.split_known(work, out, rej)
        self.cov["known_finding_histories"] += len(known)
        for j in known:
            p, r = out[j]
            for k in self.kf_kind(p, r):
                self.known.setdefault(k, (p, r, rej[j]))
        self.confirm(work, exe, out, rej, bad)

    def handle_errs(self, work, exe, byname, errs):
        for e in errs[:8]:
            try:
                j = json.loads(e)
            except ValueError:
                j = None
            if not j or j.get("p") not in byname:
                self.notes.append("explorer: " + e[:500])
                continue
            p = byname[j["p"]]
            # reproducible?
            n = 0
            for k in range(2):
                o, s, e2 = fl.explore(exe, work, [p], 120, strats={p.name: ["X " + j["fail"]]}, tag=900 + k)
                n += 1 if e2 else 0
            if n == 2:
                self.add_violation(p, j["fail"], None, None, "the execution can not be carried out(set up of the lock space fails or the process hangs)")
                return
            self.cov["unconfirmed"] += 1

    def confirm(self, work, exe, out, rej, bad):
        """executes again with much more patience, so that a late thread is not taken for a blocked one"""
        if not bad:
            return
        # different programs first
        seen, order = {}, []
        for j in bad:
            seen.setdefault(out[j][0].name, []).append(j)
        while any(seen.values()):
            for k in list(seen):
                if seen[k]:
                    order.append(seen[k].pop(0))
        for j in order[:24]:
            p, r = out[j]
            rt = p.cfg.get("rt") == "1"
            ok = True
            last = None
            for k in range(3 if rt else 1):
                o, s, e = fl.explore(exe, work, [p], 300, strats={p.name: ["X %s qmul=10" % re.sub(r" qmul=\d+", "", r["x"])]}, tag=800 + k)
                if not o:
                    ok = bool(e)
                    continue
                r2, _, _, u2 = fl.validate(work, [(p, x["ev"]) for p, x in o], chunk=1)
                if u2 or not r2:
                    ok = False
                    break
                last = (o[0][1], r2[0])
            if ok and last:
                self.add_violation(p, last[0]["x"], last[0]["ev"], last[1], "no behaviour of spec/Fullock.tla explains the marked event of this history of the real code")
                if len(self.viol) >= 3:
                    break
            else:
                self.cov["unconfirmed"] += 1
        self.notes.append("%d rejected histories" % len(bad))

    # ------------------------------------------------------ all
    def run(self):
        work = fl.Work()
        try:
            # the specification itself
            for res in mc.check(work, self.pid, self.tier):
                self.cov["states"] += res["distinct"]
                self.cov["transitions"] += res["generated"]
                self.cov.setdefault("model_runs", []).append({k: v for k, v in res.items() if k != "output"})
                if not res["ok"]:
                    raise SystemExit("the specification breaks its own property: %s\n%s" % (res["model"], res.get("output", "")[-3000:]))
            exe = fl.build(work)
            budget = float(os.environ.get("VERIF_BUDGET", "1500")) if self.tier == "thorough" else 0
            n = 0
            while True:
                self.round(work, exe, self.seed + 1000003 * n, 240 if self.tier == "quick" else 900, tag=n % 7)
                n += 1
                if self.viol or time.time() - self.t0 > budget * 0.7:
                    break
            self.cov["rounds"] = n
            if not self.viol and not self.cov["traces_validated_against_impl"]:
                raise SystemExit("nothing could be validated: " + "; ".join(self.notes))
            self.chains(work, exe)
        finally:
            work.close()
        for k, (p, r, at) in sorted(self.known.items()):
            s = "%s %s" % (k, KFTEXT[k.split(":")[0]])
            print("KNOWN-FINDING: property=%s %s (program %s, execution %s)" % (self.pid, s, p.name, r["x"]))
        self.evidence()
        print("%s %s seed %d: %d programs, %d executions, %d histories checked, %d rejected, %.1fs" % (self.pid, self.tier, self.seed, self.cov["programs"], self.cov["executions"],
              self.cov["traces_validated_against_impl"], len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0

    def chains(self, work, exe):
        """the exact histories listed as known findings"""
        for p in progs.chains():
            if p.name not in self.kfh:
                continue
            k, at = self.kfh[p.name]
            out, summ, errs = fl.explore(exe, work, [p], 60, tag=700)
            rej, d, gn, und = fl.validate(work, [(p, r["ev"]) for p, r in out])
            for j in sorted(rej):
                if [rej[j]] + list(out[j][1]["ev"][rej[j]]) == at:
                    self.known.setdefault(k + ":" + p.name, (out[j][0], out[j][1], rej[j]))
                    self.cov["known_finding_histories"] += 1
                else:
                    self.confirm(work, exe, out, rej, [j])

    def evidence(self):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        d = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol),
             "assumptions": ["sequentially consistent interleaving of the shared memory accesses of the real code(one at a time, real processes)",
                             "the schedules and crash points listed under coverage, not all of them", "TLC and the harness(harness/explore.cc) are trusted"] + self.notes}
        f = os.path.join(HERE, "evidence", self.pid + ".json")
        with open(f + ".tmp", "w") as o:
            json.dump(d, o, indent=1)
        os.replace(f + ".tmp", f)


KFTEXT = {
    "KF-A": "a process killed inside a reader/writer acquisition, between changing the lock word and marking its locker object, leaves the lock taken for ever",
    "KF-B": "a process killed inside a reader/writer unlock, between changing the lock word and removing its locker object, is released a second time by the recovery",
    "KF-C": "ranges which overlap only through a third range(chain) are not told apart",
}


def replay(f):
    j = json.load(open(f))
    name = j["program"][0].split()[1]
    body = [l for l in j["program"][1:] if not l.startswith("STRAT") and l != "END"]
    strat = [l[6:] for l in j["program"] if l.startswith("STRAT")]
    p = fl.Prog(name, "\n".join(body), strat, gc=j.get("gc", False))
    work = fl.Work()
    try:
        exe = fl.build(work)
        out, summ, errs = fl.explore(exe, work, [p], 300)
        if errs:
            print("fails:", errs[0][:1000])
            return 1
        rej, _, _, und = fl.validate(work, [(p, r["ev"]) for p, r in out])
        for n, (p, r) in enumerate(out):
            print("history", n, "REJECTED" if n in rej else "conforms")
            for q, s in enumerate(p.explain(r["ev"])):
                print("   %s %s" % (">>" if rej.get(n) == q else "  ", s))
        return 1 if rej else 0
    finally:
        work.close()


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if a == ["setup"]:
        # the checks build what they need themselves: only look whether that works
        work = fl.Work()
        try:
            fl.build(work)
        finally:
            work.close()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a[0]
    for j in range(1, len(a) - 1):
        if a[j] == "--tier":
            tier = a[j + 1]
        elif a[j] == "--seed":
            seed = int(a[j + 1])
    return Check(pid, tier, seed).run()


if __name__ == "__main__":
    sys.exit(main())
