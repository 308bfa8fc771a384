"""M01, M02: MemMC, MemGen -> runtime."""
import json
def judge(s, r):
    for n, (o, x) in enumerate(zip(s["ops"], r)):
        req = "step %d %s" % (n, json.dumps({k: v for k, v in o.items() if k not in ("d", "hd", "r", "a")} if o["o"] != "make" else {k: o[k] for k in ("o", "f", "n", "acc")}))
        if x["r"] != o["r"] and not (o["r"] == -59 and o.get("a") and x["r"] == o["a"]): return "%s: expected result %s, observed %s" % (req, o["r"], x["r"])
        if x["e"] != (o["r"] != 0): return "%s: error callback %s for result %s" % (req, "invoked" if x["e"] else "not invoked", o["r"])
        if x["bad"]: return "%s: %s" % (req, x["bad"][0])
        if x["x"] and not all(x["x"]): return "%s: size, host pointer, offset, parent queries wrong: %s" % (req, x["x"])
        e = sorted([d["i"], d["v"]] for d in o["d"])
        if e != x["b"]:
            E, X = dict(map(tuple2, e)), dict(map(tuple2, x["b"]))
            for i in sorted(set(E) | set(X)):
                if E.get(i) != X.get(i): return "%s: contents of buffer %d: expected %s, observed %s" % (req, i, E.get(i, "unchanged"), X.get(i, "unchanged"))
        if o["hd"] != x["h"]: return "%s: host memory: expected %s, observed %s" % (req, o["hd"] or "unchanged", x["h"] or "unchanged")
    return None if len(r) == len(s["ops"]) else "incomplete run"
def tuple2(x): return (x[0], x[1])
def both(c, focus):
    s = c.generate("MemGen", num=4000 if c.thorough else 1600, depth=400, consts={"MaxOps": 40, "Focus": '"%s"' % focus})
    if c.thorough: s += c.generate("MemGen", num=400, depth=1500, consts={"MaxOps": 200, "Focus": '"%s"' % focus}, seed=c.seed + 500)
    c.sample({"ops": s[0]["ops"][:12]})
    c.replay("d_mem", s, judge)
def M01(c):
    c.check_model("MemMC")
    both(c, "transfers")
def M02(c):
    c.check_model("MemMC", "MemMC2")
    both(c, "views")
CHECKS = {"M01": M01, "M02": M02}
