"""T01: ConfMC, ConfGen -> launches in random configurations; KernGen's programs with the checking tools on."""
import c_kern
NV = 128
def results(s, r):
    for n, (x, ys) in enumerate(zip(s["runs"], r)):
        for c, y in zip(x["conf"], ys):
            w = "run %d (range %s, groups of %s%s, configuration %s): " % (n + 1, x["R"]["n"], x["R"]["l"], ", quick mode" if x["quick"] else "", c)
            want = x["want"]
            if y["status"] != [0, 0]: return w + "status %s" % y["status"]
            cs = want["c"] + [want["mx"], want["mn"]]
            if y["c"] != cs: return w + "counters: expected %s, observed %s" % (cs, y["c"])
            if not y["in"]: return w + "the input buffer was modified"
            for k in range(3):
                o = [-1] * NV
                for it in want["items"]: o[it["g"]] = it["o"][k]
                o = [v & 0xFFFFFFFF for v in o]
                if y["o"][k] != o:
                    i = min(i for i in range(NV) if o[i] != y["o"][k][i]); return w + "output %d of item %d: expected %d, observed %d" % (k + 1, i, o[i], y["o"][k][i])
            bad = [l for l in y["p"] if not isinstance(l, list)]
            if bad: return w + "printed %r" % bad[0]
            pr = {}
            for g, k, v in y["p"]: pr.setdefault(g, []).append([k, v])
            for it in want["items"]:
                if pr.pop(it["g"], []) != it["p"]: return w + "item %d was to print %s, but printed %s" % (it["g"], it["p"], [p[1:] for p in y["p"] if p[0] == it["g"]])
            if pr: return w + "printed by items that do not run: %s" % list(pr.items())[:3]
    return None
def T01(c):
    c.check_model("ConfMC", consts={"MaxN": "5", "Workers": "{1, 2, 3}"} if c.thorough else None)
    s = c.generate("ConfGen", num=6000 if c.thorough else 600, depth=8)
    c.sample({"program": s[0]["prog"], "first run": s[0]["runs"][0]["conf"]})
    c.replay("d_conf", s, results)
    for i, env in enumerate([{"OCLGRIND_UNINITIALIZED": "1"}, {"OCLGRIND_DATA_RACES": "1", "OCLGRIND_UNINITIALIZED": "1", "OCLGRIND_INST_COUNTS": "1", "OCLGRIND_NUM_THREADS": "3"}]):
        t = []
        for d in (2, 3, 4) if c.thorough else (2 + i,): t += c.generate("KernGen", num=800 if c.thorough else 160, depth=4000, consts={"Depth": str(d)}, seed=1000 * c.seed + 10 * i + d)
        c.replay("d_kern", c_kern.prep(t, 2), c_kern.judge, env=env)
CHECKS = {"T01": T01}
