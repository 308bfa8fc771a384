"""M03: ImgMC, ImgGen -> runtime."""
import json
def judge(s, r):
    for n, (o, x) in enumerate(zip(s["ops"], r)):
        req = "step %d %s" % (n, json.dumps({k: v for k, v in o.items() if k not in ("d", "hd", "r", "a", "src", "v")}))
        ok = x["r"] == o["r"] or (o["r"] == -59 and o.get("a") and x["r"] == o["a"]) or (o["r"] == -1 and isinstance(x["r"], int) and x["r"] < 0)
        if not ok: return "%s: expected result %s, observed %s" % (req, o["r"], x["r"])
        if x["e"] != (o["r"] != 0): return "%s: error callback %s for result %s" % (req, "invoked" if x["e"] else "not invoked", o["r"])
        if x["bad"]: return "%s: %s" % (req, x["bad"][0])
        if "info" in o and x["x"]:
            if x["x"][0] != o["info"]: return "%s: width, height, depth, layers, pixel size and pitches reported as %s" % (req, x["x"][0])
            if not all(x["x"][1:]): return "%s: format, type, size or buffer queries wrong: %s" % (req, x["x"][1:])
        if o["o"] == "map" and x["x"] and x["x"][0] != [o["row"], o["slice"]]: return "%s: pitches of the mapping %s" % (req, x["x"][0])
        E, X = {d["i"]: d["v"] for d in o["d"]}, {a: b for a, b in x["b"]}
        if E != X:
            for i in sorted(set(E) | set(X)):
                if E.get(i) != X.get(i): return "%s: contents of object %d: expected %s, observed %s" % (req, i, E.get(i, "unchanged"), X.get(i, "unchanged"))
        if o["hd"] != x["h"]: return "%s: host memory: expected %s, observed %s" % (req, o["hd"] or "unchanged", x["h"] or "unchanged")
    return None if len(r) == len(s["ops"]) else "incomplete run"
def M03(c):
    c.check_model("ImgMC")
    s = c.generate("ImgGen", num=4000 if c.thorough else 2400, depth=400, consts={"MaxOps": 40})
    if c.thorough: s += c.generate("ImgGen", num=400, depth=1500, consts={"MaxOps": 200}, seed=c.seed + 500)
    c.sample({"ops": [{k: v for k, v in o.items() if k not in ("d", "hd")} for o in s[0]["ops"][:8]]})
    c.replay("d_img", s, judge)
CHECKS = {"M03": M03}
