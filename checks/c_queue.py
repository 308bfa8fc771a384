"""Q01 (ordering) and Q02 (events): QueueMC, QueueGen -> runtime -> QueueTrace."""
import copy

def histories(c, mul):
    n = 8 * mul
    recs = []
    for i, (k, w) in enumerate([
        ({"NQ": 3, "NU": 3, "NC": 12, "MaxOps": 24, "PFail": 25}, 3),
        ({"NQ": 1, "NU": 2, "NC": 8, "MaxOps": 16, "PFail": 40}, 3),
        ({"NQ": 2, "NU": 2, "NC": 16, "MaxOps": 30, "PFail": 30}, 2),
        ({"NQ": 4, "NU": 4, "NC": 24, "MaxOps": 45, "PFail": 15}, 1)]):
        recs += c.generate("QueueGen", num=n * w, depth=500, consts=k, seed=c.seed * 10 + i)
    return recs

def only_order(r):
    keep = {"enq", "x", "setu", "fin", "ended", "buf"}
    ev = []
    for e in r["ev"]:
        if e["t"] in keep: ev.append({k: v for k, v in e.items() if not (k == "r" and e["t"] == "ended")})
        elif e["t"] == "wait": ev.append({"t": "waited", "l": e["l"]})
    return {"ooo": r["ooo"], "ev": ev + [{"t": "end"}]}     # commands without effects may be executed up to here

def Q01(c):
    c.check_model("QueueMC")
    s = histories(c, 60 if c.thorough else 8)
    c.sample(s[0])
    r = c.record_and_accept("d_queue", s, "QueueTrace", project=only_order, hang=20)
    c.sample(r[0])
    c.assumptions += ["commands are observed through their effects (plugin notifications of the library, native kernels, final buffer contents)"]

def Q02(c):
    c.check_model("QueueMC")
    s = histories(c, 60 if c.thorough else 8)
    c.sample(s[0])
    r = c.record_and_accept("d_queue", s, "QueueTrace", hang=20)
    c.sample(r[0])
    # the specification lets the callback run as soon as its command has ended, so the later command can always run
    c.replay("d_cbuser", [{"scenario": "user event completed by a callback"}],
             lambda s, r: None if r["rc"] == 0 else "a user event completed by a callback of an earlier command of the queue: clFinish did not return" if r["rc"] == "hang" else "a user event completed by a callback: status %s" % r["rc"])

CHECKS = {"Q01": Q01, "Q02": Q02}
