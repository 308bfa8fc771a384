"""K06: KernMC, KernGen -> kernels at several optimisation levels."""
def hexs(v): return "0x" + "".join("%02x" % x for x in reversed(v))
def vec(c): return "(%s)" % ", ".join(map(hexs, c))
def judge(s, r):
    for opt, out in zip(s["opts"], r):
        for i, (want, got) in enumerate(zip(s["outs"], out)):
            me = "options '%s', work-item %d: " % (opt, i)
            for j, (a, b) in enumerate(zip(want["v"], got["v"])):
                if a != b: return me + "variable v%d: expected %s, observed %s" % (j + 1, vec(a), vec(b))
            for x, (A, B) in enumerate(zip(want["a"], got["a"])):
                for j, (a, b) in enumerate(zip(A, B)):
                    if a != b: return me + "array A%d[%d]: expected %s, observed %s" % (x + 1, j, vec(a), vec(b))
            for x, (A, B) in enumerate(zip(want["s"], got["s"])):
                for j, (a, b) in enumerate(zip(A, B)):
                    if a != b: return me + "struct SA[%d].f%d: expected %s, observed %s" % (x, j + 1, vec(a), vec(b))
            p = want["p"]["o"] + (1 if want["p"]["a"] == 1 else 64)
            if p != got["p"]: return me + "pointer P: expected %s, observed %s" % (p, got["p"])
    return None
OPTS = ["", "-O0", "-O1", "-O2", "-cl-opt-disable", "-O3"]
def prep(recs, per):
    for i, x in enumerate(recs):
        x["opts"] = [OPTS[(i + j) % len(OPTS)] for j in range(per)]; x["noinline"] = i % 3 == 0; x["u"] = i % 2
    return recs
def K06(c):
    c.check_model("KernMC", consts={"Progs": "600"} if c.thorough else None)
    s = []
    for d in (1, 2, 3, 4): s += c.generate("KernGen", num=3000 if c.thorough else 400, depth=4000, consts={"Depth": str(d)}, seed=10 * c.seed + d)
    s = prep(s, 3 if c.thorough else 2)
    c.sample({k: s[0][k] for k in ("outs", "steps")})
    c.replay("d_kern", s, judge)
CHECKS = {"K06": K06}
