"""M04: SamplerMC, SamplerGen -> kernels."""
import json
def judge(s, r):
    ims = []
    for n, (o, x) in enumerate(zip(s["ops"], r)):
        if o["o"] == "make": ims.append(o)
        else: im = ims[o["i"] - 1]; what = "step %d: %s of a %s image of %dx%dx%d pixels of format %s/%s" % (n, o["o"], im["ty"], im["w"], im["y"], im["z"], *im["f"])
        if x["e"]: return "step %d %s: errors %s" % (n, o["o"], x["e"][:2])
        if o["o"] == "read":
            if not isinstance(x["v"], list): return "%s: %s" % (what, x["v"])
            tol = 0 if o["fn"] != "f" else 5e-5 if im["f"][1] in ("f32", "f16") else 2e-6
            for p, e, g in zip(o["p"], o["v"], x["v"]):
                for c in range(4):
                    if not abs(e["n"][c] / e["d"] - g[c]) <= tol:
                        return "%s with %s (%s%s) at %s/16: expected %s, observed %s" % (what, json.dumps(o["s"]), o["how"], ", literal" if o["lit"] else "", p, [k / e["d"] for k in e["n"]], g)
        elif o["o"] == "write" and x["v"] is not True: return "%s of %s at %s: contents %s, expected %s" % (what, o["c"], o["p"], *x["v"])
        elif o["o"] == "query" and x["v"] is not True: return "%s: %s" % (what, x["v"])
    return None if len(r) == len(s["ops"]) else "incomplete run"
def M04(c):
    c.check_model("SamplerMC")
    s = c.generate("SamplerGen", num=8000 if c.thorough else 1400, depth=400, consts={"MaxOps": 40})
    if c.thorough: s += c.generate("SamplerGen", num=800, depth=1500, consts={"MaxOps": 200}, seed=c.seed + 500)
    c.sample({"ops": [{k: v for k, v in o.items() if k != "px"} for o in s[0]["ops"][:6]]})
    c.replay("d_sampler", s, judge)
CHECKS = {"M04": M04}
