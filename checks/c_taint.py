"""D04: TaintMC; TaintGen's histories with the reports the specification predicts."""
from collections import Counter
import c_conf, c_kern
def judge(s, r):
    st = s[0]
    for n, (h, y) in enumerate(zip(s[1:], r)):
        if h["op"] != "kernel": continue
        w = "operation %d of a history of %d: " % (n + 1, len(s) - 1)
        left = {(i, 16 * k + 4 * e + b - 1) for k, a in enumerate((h["g"], h["h"])) for i, row in enumerate(a) for e, bs in enumerate(row) for b in bs}
        y, seen = y["rep"], y["left"]
        bad = [x for x in y + seen if not isinstance(x, list)]
        if bad: return w + "message %r" % bad[0][:300]
        seen = {(x[1], x[0]) for x in seen}
        if st["opt"] != "-cl-opt-disable": seen, left = [{(i, b - b % 4) for i, b in x} for x in (seen, left)]   # by words: x + x is a shift
        if seen != left:
            d = sorted(seen ^ left)[0]
            return w + "afterwards byte %d of item %d's part of buffer %s is %s" % (d[1] % 16, d[0], "GH"[d[1] // 16], "treated as uninitialised, but depends on initialised values only" if d in seen else "not treated as uninitialised")
        cp = {i + 1 for i, x in enumerate(h["prog"]) if x["k"] in ("cpl", "cpg", "cpls", "cpgs")}
        got = Counter((x[0], x[1], x[2]) for x in y if x[0] not in cp); want = Counter((x[0], x[1], x[2]) for x in h["rep"] if x[0] not in cp)
        if st["opt"] != "-cl-opt-disable":
            # optimised: accesses are moved and merged, which changes lines and numbers; copies of structures, silent otherwise, may be stores
            if {x[2] for x in got} - {x[2] for x in h["rep"]} - ({"val global", "val local"} if any(x[2] == "copy" for x in h["rep"]) or any(x["k"] == "hst" for x in h["prog"]) else set()): return w + "kinds reported: %s, expected: %s" % (sorted({x[2] for x in got}), sorted({x[2] for x in h["rep"]}))
            continue
        for a, t in ((want - got, "was not reported"), (got - want, "was reported")):
            if a:
                k = sorted(a, key=str)[0]; m = h["prog"][k[0] - 1] if k[0] and 0 < k[0] <= len(h["prog"]) else None
                return w + "%r in item %s at statement %s %s %s (%d times expected, %d times observed)" % (k[2], k[1], k[0], m, t, want[k], got[k])
        gc = {(x[0], -1 - x[1] // st["l"]) for x in y if x[0] in cp}; wc = {(x[0], x[1]) for x in h["rep"] if x[0] in cp}
        if gc != wc: return w + "group copies reported %s, expected %s (statement, -1 - group)" % (sorted(gc), sorted(wc))
    return None
def silent(s, r):
    m = c_conf.results(s, r)
    if m: return m
    for n, ys in enumerate(r):
        for y in ys:
            bad = [l for l in y["m"] if "ninitialized" in l]
            if bad: return "run %d: a program that uses initialised values only was reported: %r" % (n + 1, bad[0][:300])
def force(s):
    for x in s["runs"]:
        for c in x["conf"]: c["uninit"] = True
    return s
def D04(c):
    c.check_model("TaintMC", consts={"MaxLen": "4"} if c.thorough else None)
    s = c.generate("TaintGen", num=8000 if c.thorough else 800, depth=9)
    s += c.generate("TaintGen", num=4000 if c.thorough else 400, depth=9, consts={"Opt": "TRUE"}, seed=500 + c.seed)
    c.sample({"history": s[0][:3]})
    c.replay("d_taint", s, judge)
    c.replay("d_conf", [force(x) for x in c.generate("ConfGen", num=2400 if c.thorough else 160, depth=8, seed=7700 + c.seed)], silent)
CHECKS = {"D04": D04}
