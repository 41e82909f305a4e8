import os, sys, time
import fl, progs
w = fl.Work()
try:
    exe = fl.build(w)
    for pid in sys.argv[1:]:
        g = progs.Gen(1, "quick")
        ps = [p for p in progs.ALL[pid](g) if not os.environ.get("ONLY") or p.name.startswith(os.environ["ONLY"])]
        t0 = time.time()
        out, summ, errs = fl.explore(exe, w, ps, 300)
        t1 = time.time()
        rej, d, gn, und = fl.validate(w, [(p, r["ev"]) for p, r in out])
        t2 = time.time()
        print(pid, "progs", len(ps), "execs", sum(s["execs"] for s in summ), "distinct", sum(s["distinct"] for s in summ), "hist", len(out), "explore %.1f validate %.1f" % (t1 - t0, t2 - t1), "rejected", len(rej), "und", len(und), "errs", errs[:2])
        if und: print(und[0][1][-500:])
        slow = sorted(summ, key=lambda s: -s.get("wall", 0))[:4]
        print("   slow", [(s["p"], s["wall"], s["execs"], s["distinct"]) for s in slow if "wall" in s])
        if rej:
            it = sorted(rej)
            r2, _, _, u2 = fl.validate(w, [(out[j][0], out[j][1]["ev"]) for j in it], kf=True)
            print("   kf: rejected", len(r2), "und", len(u2))
            seen = {}
            for q, v in sorted(r2.items()):
                p, r = out[it[q]]
                seen.setdefault(p.name, []).append((p, r, v))
            for nme, l in list(seen.items())[:6]:
                p, r, v = l[0]
                print("  ==", nme, len(l), r["x"], [x for x in p.body if x[0]=="CFG"][0][1:])
                for q, s in enumerate(p.explain(r["ev"])):
                    print("    ", ">>" if q == v else "  ", s)
        sys.stdout.flush()
finally:
    w.close()
