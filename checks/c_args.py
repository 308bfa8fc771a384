"""Q04: ArgsMC, ArgsGen -> runtime."""
import json, sys, os
def expect(s):
    rets = []
    REC = 16
    G = [0, 1, 2, 3, 11, 12]
    i32s = lambda x: (x + 2**31) % 2**32 - 2**31
    for o in s["ops"]:
        if o["o"] in ("set", "bad", "launch"): rets.append([o["r"], o["r"] != 0])
        elif o["o"] == "local": rets.append([o["n"] * 4, False])
    def rec(x):
        a, t = x["a"], x["t"]
        if t == "A": r = [1, a[1][0], a[2][0], a[3][0], a[4][0], i32s(a[4][1])] + a[5] + a[6] + [G[a[7][0]], G[a[8][0]]]
        elif t == "B": r = [2, a[1][0], G[a[2][0]]] + a[3] + [a[5][0]]
        else: r = [3, 20 + a[1][0], a[2][0], 20 + a[3][0]]
        return r + [0] * (REC - len(r))
    return {"rets": rets, "out": [[rec(x) for x in o] for o in s["out"]]}
def judge(s, r):
    e = expect(s)
    if e == r: return None
    calls = [o for o in s["ops"] if o["o"] in ("set", "bad", "launch", "local")]
    for o, x, y in zip(calls, e["rets"], r["rets"]):
        if x != y: return "%s: expected result %s, observed %s" % (json.dumps(o), x, y)
    for b in range(3):
        for n, (x, y) in enumerate(zip(e["out"][b], r["out"][b])):
            if x != y: return "launch %d into buffer %d: expected arguments %s, observed %s" % (n, b + 1, x, y)
        if len(e["out"][b]) != len(r["out"][b]): return "buffer %d: expected %d reports, observed %d" % (b + 1, len(e["out"][b]), len(r["out"][b]))
    return "mismatch"
def Q04(c):
    c.check_model("ArgsMC")
    s = c.generate("ArgsGen", num=4000 if c.thorough else 1600, depth=600, consts={"MaxOps": 70})
    if c.thorough: s += c.generate("ArgsGen", num=800, depth=2000, consts={"MaxOps": 140}, seed=c.seed + 500)
    c.sample(s[0])
    c.replay("d_args", s, judge)
CHECKS = {"Q04": Q04}
