"""Demonstration: runs case.SCRIPT with the library of the current directory(/repo) in controlled schedules,
and lets case.check(history) look at each history.  Needs only what lies beside this file."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class H:
    """one history: steps = [(what, actor, op words, value)]"""
    def __init__(self, ops, po, r):
        self.x, self.po = r["x"], po
        self.steps = []
        for k, a, x, v in r["ev"]:
            if k in (1, 2):
                self.steps.append(("call" if k == 1 else "ret", a, ops[a][x], v))
            else:
                self.steps.append(({3: "dead", 4: "tx", 5: "quiet", 6: "tick", 7: "end", 8: "bad"}.get(k, "?"), a, None, v))

    def result(self, a, n):
        """result of the n-th call(from 0) of actor a, None if it did not return"""
        c = -1
        for w, b, o, v in self.steps:
            if b == a and w == "call":
                c += 1
            elif b == a and w == "ret" and c == n:
                return v
        return None

    def blocked(self):
        """actors which are in a call when nothing moves any more for the last time"""
        pend, last = {}, None
        for w, a, o, v in self.steps:
            if w == "call":
                pend[a] = o
            elif w == "ret":
                pend.pop(a, None)
            elif w == "dead":
                for b in [b for b in pend if self.po[b] == a]:
                    pend.pop(b)
            elif w == "quiet":
                last = dict(pend)
        return last if last is not None and pend else {}

    def owners(self, locks, unlocks, key, kinds=None):
        """checks exclusion: an owner is who got 0 from a lock call and did not call unlock for all of them"""
        own = {}
        for w, a, o, v in self.steps:
            if w == "ret" and o[0] in locks and v == 0:
                d = own.setdefault(key(o), {})
                m = kinds(o) if kinds else "w"
                for b in d:
                    if b != a and ("w" in d[b] or m == "w"):
                        return "actors %d and %d have %s at once" % (a, b, key(o))
                d.setdefault(a, []).append(m)
            elif w == "call" and o[0] in unlocks:
                d = own.get(key(o), {})
                if a in d:
                    d[a].pop()
                    if not d[a]:
                        del d[a]
            elif w == "dead":
                for d in own.values():
                    for b in [b for b in d if self.po[b] == a]:
                        del d[b]
        return None


def main():
    import case
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    tmp = tempfile.mkdtemp(prefix="fldemo.", dir=base)
    bad = 0
    try:
        r = subprocess.run(["bash", os.path.join(HERE, "build.sh"), os.getcwd(), os.path.join(tmp, "b")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout)
            return 2
        ops, po, cur = {}, {}, None
        for l in case.SCRIPT.splitlines():
            w = l.split()
            if not w:
                continue
            if w[0] == "PROG":
                cur = w[1]
                ops[cur], po[cur] = {}, {}
            elif w[0] in ("ACT", "ACTF"):
                po[cur][int(w[1])] = int(w[2])
                ops[cur][int(w[1])] = []
            elif w[0] == "OP":
                ops[cur][int(w[1])].append(w[2:])
        sf = os.path.join(tmp, "s.txt")
        open(sf, "w").write(case.SCRIPT)
        os.mkdir(os.path.join(tmp, "d"))
        env = {k: v for k, v in os.environ.items() if not k.startswith("FLCK")}
        env["FLCKAUTOINIT"] = "NO"
        env["FLCKROBUSTMODE"] = "NO"
        p = subprocess.run([os.path.join(tmp, "b", "explore"), sf, os.path.join(tmp, "d"), "0", "200"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=280)
        n = 0
        for l in p.stdout.splitlines():
            j = json.loads(l)
            if "fail" in j:
                print("can not be executed:", l)
                return 3
            if "ev" not in j:
                continue
            n += 1
            h = H(ops[j["p"]], po[j["p"]], j)
            m = case.check(h) if not hasattr(case, "check_" + j["p"]) else getattr(case, "check_" + j["p"])(h)
            if m:
                bad += 1
                if bad <= 2:
                    print("WRONG(%s, %s): %s" % (j["p"], j["x"], m))
                    for s in h.steps:
                        print("    %s %d %s %s" % (s[0], s[1], " ".join(s[2] or []), s[3] if s[0] in ("ret", "tick") else ""))
        print("%d histories, %d wrong" % (n, bad))
        if n == 0:
            print(p.stderr[-1000:])
            return 4
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
