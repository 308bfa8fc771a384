"""K04: AtomMC; AtomGen -> recorded operations -> AtomTrace."""
import vf
def K04(c):
    c.check_model("AtomMC", consts={"Items": "{1, 2, 3}", "Mutexes": "2"} if c.thorough else None)
    s = c.generate("AtomGen", num=1600 if c.thorough else 400, depth=4)
    c.sample({k: s[0][k] for k in ("form", "n", "sp", "g", "l", "iters", "code")})
    res = vf.run_scripts("d_atom", s, procs=4, hang=60)
    tr, of, bad = [], [], 0
    for i, r in enumerate(res):
        if r and "skipped" in r: continue
        if r is None or "words" not in r:
            if bad < 3:
                bad += 1; c.violation("the implementation failed: %s" % str(r)[:600], {"module": "d_atom", "script": s[i], "observed": r})
            continue
        for w, t in enumerate(r["words"]): tr.append(t); of.append((i, w))
    rej = c.accept("AtomTrace", tr, timeout=400) if tr else []
    c.validated += len({i for i, w in of}) - len({of[x][0] for x, p in rej})
    c.log("%d words, %d operations" % (len(tr), sum(len(y) for t in tr for y in t["it"])))
    for x, p in rej[:3 - min(bad, 3)]:
        i, w = of[x]; t = tr[x]
        c.violation("word %d of a run with %d threads: the %d operations recorded cannot have been performed one at a time (at most %s of them); initially %s, finally %s; e.g. %s" % (
            w + 1, s[i]["thr"], sum(map(len, t["it"])), p, t["init"], t["fin"], t["it"][0][:2]), {"module": "d_atom", "script": s[i], "word": w, "observed": t})
CHECKS = {"K04": K04}
