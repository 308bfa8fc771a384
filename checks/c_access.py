"""D01 (bounds), D02 (permissions, mappings): AccessMC, AccessGen -> kernels."""
import json
def near(st): return json.dumps({k: v for k, v in st.items() if k not in ("b", "loc")})[:900]
SPACE = {8: "local", 9: "local", 10: "private"}
def judge(s, r):
    if r["api"]: return "error reports %s" % r["api"][:2]
    mem = None
    for i, (st, x) in enumerate(zip(s["log"], r["steps"])):
        w = "step %d of %d: " % (i + 1, len(s["log"]))
        if x["other"]: return w + "%s: unexpected report %s" % (st["op"], x["other"][:1])
        if st["op"] != "launch": continue
        by = {}
        for y in x["rep"]: by.setdefault((y[0], y[1]), []).append(y[2:])
        for j, a in enumerate(st["acc"]):
            got = by.pop(("i", j), [])
            if a["k"] == "no":
                if got: return w + "item %d makes no access, reported %s" % (j, got)
                continue
            me = w + "access %s of an object of %s: " % ({k: a[k] for k in ("k", "sp", "off", "n")}, (s["sizes"] + [20, 40, 24, 24, 0, 0])[a["sp"] - 1])
            want = {(k, n) for k, n in a["rep"]}; kinds = {k for k, n in want}
            have = {(y[0], y[1]) for y in got}
            if a["k"] in ("at", "cx") and kinds & {"read", "write"}:
                if not have or not have <= want: return me + "expected reports %s, observed %s" % (sorted(want), sorted(have))
            elif have != want: return me + "expected reports %s, observed %s" % (sorted(want), sorted(map(str, got)))
            sp = {SPACE.get(a["sp"], "global")} | ({"constant"} if a["sp"] in (6, 7) else set())
            for y in got:
                if y[0] in ("read", "write") and y[2] not in sp: return me + "reported in %s memory" % y[2]
            if a["obs"] and a["k"] != "hl" and x["obs"][j][:a["n"]] != a["obs"]: return me + "expected to load %s, loaded %s" % (a["obs"], x["obs"][j][:a["n"]])
            if x["prv"][j] != a["prv"]: return me + "private memory: expected %s, observed %s" % (a["prv"], x["prv"][j])
        for g in range(st["G"]):
            got = by.pop(("g", g), []); c = st["cps"][g] if st["cps"] else {"may": [], "must": []}
            me = w + "group copy %s: " % c
            have = {y[0] for y in got}
            if not set(c["must"]) <= have: return me + "expected reports %s, observed %s" % (c["must"], sorted(have))
            if not have <= set(c["may"]): return me + "unexpected reports %s" % got
            for y in got:
                if y[0] in ("read", "write") and y[2] not in ("global", "local"): return me + "reported in %s memory" % y[2]
            lo = st["loc"][g]; lo = (lo["8"] + lo["9"]) if isinstance(lo, dict) else lo
            if x["loc"][g] != lo: return me + "local memory of group %d: expected %s, observed %s" % (g, lo, x["loc"][g])
        if by: return w + "reports about nobody: %s" % str(by)[:300]
        for k, v in x["b"].items():
            if v != st["b"][int(k) - 1]: return w + "buffer %s: expected %s, observed %s; %s" % (k, st["b"][int(k) - 1], v, near(st))
    return None
def D01(c):
    c.check_model("AccessMC")
    s = c.generate("AccessGen", num=3000 if c.thorough else 500, depth=16, consts={"Perms": "FALSE", "Maps": "FALSE"})
    c.sample(s[0]["log"][0])
    c.replay("d_access", s, judge)
    c.check_model("IndexMC")
    s = c.generate("IndexGen", num=600 if c.thorough else 64, depth=16)
    c.replay("d_index", s, judge_index)
def D02(c):
    c.check_model("AccessMC")
    s = c.generate("AccessGen", num=2000 if c.thorough else 300, depth=16, consts={"Perms": "TRUE", "Maps": "TRUE"})
    s += c.generate("AccessGen", num=1000 if c.thorough else 150, depth=16, consts={"Perms": "FALSE", "Maps": "TRUE", "MaxSteps": 12}, seed=c.seed + 5)
    c.sample(s[0]["log"][0])
    c.replay("d_access", s, judge)
CHECKS = {"D01": D01, "D02": D02}
def judge_index(s, r):
    for k, x in zip(s["ks"], r):
        me = "%s of an array of %s in %s memory at %s%s: " % ("store" if k["st"] else "load", k["d"], k["sp"], k["ix"], " (constant)" if k["cst"] else "")
        want = {tuple(b) for b in k["bad"]}
        if k["out"]: want.add(("write" if k["st"] else "read", 4, {"p": "private", "l": "local", "g": "global"}[k["sp"]]))
        have = {tuple(y) for y in x["rep"]}
        if have != want: return me + "expected reports %s, observed %s" % (sorted(map(str, want)), sorted(map(str, have)))
        w = [i + 1 for i in range(k["words"])]
        if not k["out"] and not k["st"] and x["v"] != w[k["word"]]: return me + "expected to load %d, loaded %d" % (w[k["word"]], x["v"])
        if not k["out"] and k["st"]: w[k["word"]] = -5
        if x["w"] != w: return me + "memory: expected %s, observed %s" % (w, x["w"])
    return None
