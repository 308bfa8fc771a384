"""Q03: LifeMC, LifeGen -> runtime."""
import json
def judge(s, r):
    for i, (o, x) in enumerate(zip(s["ops"], r)):
        if o["x"] != x:
            return "step %d (%s): expected %s, observed %s" % (i, json.dumps({k: v for k, v in o.items() if k != "x"}), json.dumps(o["x"]), json.dumps(x))
    return None if len(r) == len(s["ops"]) else "incomplete run"
def Q03(c):
    c.check_model("LifeMC", consts=None)
    s = c.generate("LifeGen", num=2000 if c.thorough else 1100, depth=700, consts={"MaxOps": 40, "MaxCtx": 2})
    if c.thorough: s += c.generate("LifeGen", num=600, depth=1500, consts={"MaxOps": 100, "MaxCtx": 4}, seed=c.seed + 500)
    c.sample(s[0])
    c.replay("d_life", s, judge)
CHECKS = {"Q03": Q03}
