"""D03: RaceMC, RaceGen -> kernels under the race detector."""
def entity(s, a):
    g = s["groups"][a["g"] - 1]
    if a["i"] == 0: return ("g",) + tuple(g["id"])
    e = g["ext"]; i = a["i"] - 1; c = [i % e[0], i // e[0] % e[1], i // e[0] // e[1]]
    return ("i",) + tuple(g["id"][d] * s["shape"]["l"][d] + c[d] for d in range(3))
def pair(s, a, b):
    """who races: items (or a copy) of one group, or two groups (whichever of their items)"""
    if a["g"] == b["g"]: return frozenset([entity(s, a), entity(s, b)])
    return frozenset([("G", a["g"]), ("G", b["g"])])
def judge(s, r):
    if r["api"]: return "error reports %s" % r["api"][:2]
    for n, (la, rep) in enumerate(zip(s["launches"], r["launches"])):
        w = "launch %d of %s, uniform-write checking %s: " % (n + 1, s["shape"], "on" if s["u"] else "off")
        at = {}                       # (space, group or None, byte) -> {entities: [must, rw, ww, example]}
        for x in la["races"]:
            a, b = la["A"][x["a"] - 1], la["A"][x["b"] - 1]
            e = pair(s, a, b)
            sp = ("local", a["g"]) if a["sp"] == "l" else ("global", None)
            for y in (x["all"] if s["u"] else x["may"]):
                z = at.setdefault(sp + (y,), {}).setdefault(e, [False, False, False, (a, b)])
                z[0] |= s["u"] == 1 or y in x["must"]; z[1] |= x["rw"]; z[2] |= x["ww"]
        gof = {}          # number of a group
        for i, g in enumerate(s["groups"]): gof[tuple(g["id"])] = i + 1
        seen = set()
        for x in rep:
            if x[0] == "?": return w + "report not understood: %s" % x[1]
            e = frozenset(map(tuple, x[3:5])); g = None
            gs = {gof.get(tuple(v[1:]) if v[0] == "g" else tuple(v[1 + d] // s["shape"]["l"][d] for d in range(3))) for v in e}
            if x[1] == "local":
                if len(gs) != 1: return w + "report of local memory between groups: %s" % x
                g = min(gs)
            elif len(gs) == 2: e = frozenset(("G", v) for v in gs)
            z = at.get((x[1], g, x[2]), {}).get(e)
            if z is None: return w + "reported %s, but these do not race there%s" % (x, "" if la["races"] else "; the run is free of races")
            if not z[1 if x[0] == "Read-write" else 2]: return w + "reported %s, but the accesses are %s" % (x, z[3])
            seen.add((x[1], g, e))
        for k, v in at.items():
            must = {e for e in v if v[e][0]}
            if must and not any(k[:2] + (e,) in seen for e in v):
                e = must.pop()
                return w + "no report for the race at %s between %s (%s); reports: %s" % (k, sorted(e), v[e][3], rep[:4])
    return None
def D03(c):
    c.check_model("RaceMC", consts={"Full": "TRUE"} if c.thorough else None)
    s = c.generate("RaceGen", num=6000 if c.thorough else 2000, depth=8)
    c.sample({"shape": s[0]["shape"], "first launch": s[0]["launches"][0]["A"][:12], "races": s[0]["launches"][0]["races"][:3]})
    for i, x in enumerate(s): x.update(u=i % 3 == 2 and 1 or 0, thr=[1, 2, 4, 8][i % 4], seed=i + c.seed)
    c.replay("d_race", s, judge)
CHECKS = {"D03": D03}
