"""K01: NDRangeMC, NDRangeGen -> kernels -> NDRangeTrace."""
def reqd(s):
    """launches of the kernel that requires groups of 2x2x1, with the size given or left to the runtime"""
    l = [2, 2, 1]
    return {**s, "k": "reqd", "uni": False, "l": l, "dim": max(2, s["dim"]), "passnull": s["seed"] % 2 == 0, "nulll": False}
def K01(c):
    c.check_model("NDRangeMC"); c.check_model("NDRangeMC", "NDRangeMC2")
    s = c.generate("NDRangeGen", num=6000 if c.thorough else 900, depth=120)
    s += c.generate("NDRangeGen", num=400 if c.thorough else 40, depth=120, consts={"MaxItems": 1500}, seed=c.seed + 31)
    c.sample(s[0])
    s += [reqd(x) for x in s[:100 if c.thorough else 30]]
    o = [x for x in s if x["g"][0] * x["g"][1] * x["g"][2] > 3]
    s += [{**x, "with": y} for x, y in zip(o[:300 if c.thorough else 60], o[5:])]
    # a kernel's required size is what it runs with, also when the host gives none
    def project(r): return r
    r = c.record_and_accept("d_ndrange", s, "NDRangeTrace", hang=60)
CHECKS = {"K01": K01}
