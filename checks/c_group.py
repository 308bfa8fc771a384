"""K02 (barriers), K03 (asynchronous copies), K05 (local and private memory): GroupMC, GroupGen -> kernels."""
import json
def show(g): return json.dumps({"n": g["n"], "P": g["P"]})[:900]
def judge(s, r):
    m = judge1(s, r)
    return m and m[0] + ("; work-group %d of %d: %s" % (m[1], len(s["groups"]), show(s["groups"][m[1]])) if len(m) > 1 else "")
def judge1(s, r):
    if r["api"]: return ("errors %s" % r["api"][:2],)
    for i, (g, x) in enumerate(zip(s["groups"], r["groups"])):
        got = set(r["rep"][str(i)]) | (set(r["rep"]["-1"]) & {"event", "unwaited"} & set(g["rep"]))
        want = set(g["rep"])
        if not want and got: return "no report expected, observed %s" % sorted(got), i
        for k in want:
            if k in ("barrier", "copy") and not got & {"barrier", "copy", "unwaited"}: return "divergence expected, reports: %s" % sorted(got), i
            if k in ("event", "unwaited") and k not in got and not g["halt"]: return "report '%s' expected, observed %s" % (k, sorted(got)), i
        if not g["halt"]:
            if got - want: return "unexpected reports %s" % sorted(got - want), i
            if x["obs"] != g["obs"]:
                j = [a == b for a, b in zip(x["obs"], g["obs"])].index(False)
                return "work-item %d: expected to observe %s, observed %s" % (j, g["obs"][j], x["obs"][j]), i
            for a, (e, v) in enumerate(zip(g["mem"]["gs"], x["gs"])):
                if e != -1 and e != v: return "byte %d of the group's global memory: expected %d, observed %d" % (a, e, v), i
    extra = set(r["rep"]["-1"]) - {k for g in s["groups"] for k in g["rep"]}
    return ("reports about no work-group: %s" % sorted(extra),) if extra else None
def launches(recs, seed):
    """groups with equally many items run together"""
    by = {}
    for g in recs: by.setdefault(g["n"], []).append(g)
    out = []
    for n in sorted(by):
        q = by[n]; i = 0
        while i < len(q):
            k = 1 + (len(out) * 7 + seed) % 6
            out.append({"groups": q[i:i + k], "thr": [1, 2, 4, 8][len(out) % 4], "seed": len(out) + seed}); i += k
    return out
def K02(c):
    c.check_model("GroupMC")
    s = c.generate("GroupGen", num=8000 if c.thorough else 1600, depth=80, consts={"Copies": "FALSE"})
    if c.thorough: s += c.generate("GroupGen", num=800, depth=80, consts={"Copies": "FALSE", "MaxPhases": 8}, seed=c.seed + 7)
    c.sample(s[0])
    c.replay("d_group", launches(s, c.seed), judge)
def K03(c):
    c.check_model("GroupMC")
    s = c.generate("GroupGen", num=8000 if c.thorough else 2400, depth=80)
    c.sample(s[0])
    c.replay("d_group", launches(s, c.seed), judge)
CHECKS = {"K02": K02, "K03": K03}
def K05(c):
    c.check_model("LocalsMC")
    s = c.generate("LocalsGen", num=1200 if c.thorough else 160, depth=30)
    c.sample(s[0])
    c.record_and_accept("d_locals", s, "LocalsTrace")
    s = c.generate("GroupGen", num=4000 if c.thorough else 600, depth=80, consts={"Copies": "FALSE"}, seed=c.seed + 100)
    c.replay("d_group", launches(s, c.seed), judge)
CHECKS["K05"] = K05
