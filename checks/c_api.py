"""A01: ApiMC, ApiGen -> runtime."""
import json
def judge(s, r):
    st = [{n: bytes([10 * c + i] * 64).hex() for i, n in enumerate(("b", "b2", "img", "img2"), 1)} for c in (1, 2)]
    for n, (o, x) in enumerate(zip(s["ops"], r)):
        w = o["x"]; at = "step %d: %s with %s in context %d: " % (n, o["f"], o["ds"] or "no defect", o["c"])
        if x["code"] == "" and "SUCCESS" not in w["codes"]: x["code"] = x["told"][0][2] if x["told"] else w["codes"][0]
        if x["code"] not in w["codes"]: return at + "returned %s, documented: %s" % (x["code"], "/".join(w["codes"]))
        if x["early"]: return at + "the context was told of an error before the call"
        told = len(x["told"])
        if told not in w["told"]: return at + "the context was told %d times, not %s: %s" % (told, "/".join(map(str, w["told"])), x["told"])
        if told and x["told"][0] != [o["c"], o["f"], x["code"]]: return at + "told %s, returned %s" % (x["told"][0], x["code"])
        if x["bad"]: return at + "; ".join(x["bad"])
        for m, v in w["new"]: st[o["c"] - 1][m] = bytes(v).hex()
        if x["code"] == "SUCCESS" and w["out"] and x["out"] != bytes(w["out"]).hex(): return at + "gave %s, not %s" % (x["out"], bytes(w["out"]).hex())
        for m, v in st[o["c"] - 1].items():
            if x["mem"][m] != v: return at + "%s holds %s, not %s" % (m, x["mem"][m], v)
    return None if len(r) == len(s["ops"]) else "incomplete run"
def A01(c):
    for i in range(11 if c.thorough else 3):
        c.check_model("ApiMC", consts={"MaxCalls": 2, "Family": i})
    s = c.generate("ApiGen", num=3000 if c.thorough else 800, depth=200, consts={"MaxOps": 60})
    c.sample(s[0])
    c.replay("d_api", s, judge)
CHECKS = {"A01": A01}
