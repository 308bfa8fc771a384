"""B01: BuiltinMC, BuiltinGen -> kernels."""
def hexs(v): return "0x" + "".join("%02x" % x for x in reversed(v))
def vec(c): return "(%s)" % ", ".join(map(hexs, c))
def ty(v): return v["t"] + (str(v["w"]) if v["w"] > 1 else "")
def name(d):
    if d["k"] in ("cv", "cs"): return "convert_%s%s" % (ty(d["res"]), "_sat" if d["k"] == "cs" else "")
    if d["k"] == "as": return "as_" + ty(d["res"])
    if d["k"] in ("vl", "vs"): return "v%s%d (%s)" % ("load" if d["k"] == "vl" else "store", d["res"]["w"], d["x"])
    return d["f"]
def judge(s, r):
    for rec, got in zip(s["recs"], r):
        d = rec["d"]
        for c, g in zip(rec["cases"], got):
            if g != c["out"]:
                at = " offset %d + %d * width, memory %s" % (c["base"], c["off"], vec(c["mem"])) if "off" in c else ""
                return "%s(%s)%s of %s: expected %s, observed %s" % (name(d), ", ".join(map(ty, d["args"])), at, ", ".join(map(vec, c["in"])), vec(c["out"]), vec(g))
    return None
def B01(c):
    c.check_model("BuiltinMC")
    if c.thorough: c.check_model("BuiltinMC", consts={"LimbBits": 4})
    def go(recs):
        recs.sort(key=lambda x: str(x["d"]))
        c.sample({"d": recs[0]["d"], "cases": recs[0]["cases"][:2]})
        n = 40; opts = ["", "-cl-opt-disable"]
        c.notes["operand_tuples"] = c.notes.get("operand_tuples", 0) + sum(len(r["cases"]) for r in recs)
        c.replay("d_builtin", [{"recs": recs[i:i + n], "opt": opts[(i // n) % 2]} for i in range(0, len(recs), n)], judge, limit=6)
    go(c.enumerate("BuiltinGen", consts={"NCases": 48, "Seed": c.seed}))
    if c.thorough:
        for k in range(1, 5): go(c.enumerate("BuiltinGen", consts={"NCases": 64, "Seed": c.seed + 1000 * k}))
        go(c.enumerate("BuiltinGen", consts={"Exhaust": "TRUE"}))
CHECKS = {"B01": B01}
