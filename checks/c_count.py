"""D05: CountMC, CountGen -> kernels with instruction counting."""
import re
def judge(s, r):
    for n, (x, y) in enumerate(zip(s["runs"], r)):
        w = "run %d (kernel k%d, options '%s', %d items in groups of %d, %d threads%s): " % (n + 1, x["k"], s["opt"], x["n"], x["l"], x["thr"], ", debugger switching to %s" % x["dbg"] if x["dbg"] else "")
        p = y["printed"]
        if len(p) != 1 or p[0].get("kernel") != "k%d" % x["k"]: return w + "printed %s" % str(p)[:300]
        lines = p[0]["lines"]; names = [l[1] for l in lines]
        got = {}
        for c, name in lines:
            m = re.match(r"((?:load|store) \w+) \((.*) bytes\)$", name)
            key, val = (m.group(1), (c, int(re.sub("[^0-9]", "", m.group(2))))) if m else (name, (c, 0))
            if key in got: return w + "'%s' printed twice" % key
            got[key] = val
        want = {k: (c, b) for k, c, b in x["h"] if c}
        for k in sorted(want):
            if got.get(k) != want[k]: return w + "expected '%s': %d (%d bytes), printed %s" % (k, want[k][0], want[k][1], got.get(k))
        for k in got:          # what the kernel does not do at all must not be listed
            if k not in want and (re.match("(load|store) (global|local|constant)$", k) or re.match("call (fn|_Z.*atomic|_Z7barrier)", k)): return w + "printed '%s': %s, which never happened" % (k, got[k])
        ex = {k: (c, b) for c, b, k in y["executed"] if not k.startswith("call llvm.dbg.")}
        if ex != got:
            k = min(k for k in set(ex) | set(got) if ex.get(k) != got.get(k))
            return w + "'%s': %s executed, %s printed" % (k, ex.get(k), got.get(k))
        if lines != sorted(lines, key=lambda l: (-l[0], l[1])): return w + "lines not in order: %s" % lines
    return None
OPTS = ["", "-O0", "-cl-opt-disable", "-O1", "-O2", "-O3"]
def D05(c):
    c.check_model("CountMC", consts={"Groups": "3"} if c.thorough else None)
    s = c.generate("CountGen", num=4000 if c.thorough else 2500, depth=10)
    for i, x in enumerate(s): x["opt"] = OPTS[i % len(OPTS)]
    c.sample({"first run": s[0]["runs"][0]})
    c.replay("d_count", s, judge)
CHECKS = {"D05": D05}
