"""F01: PrintfMC; PrintfGen's kernels with the text every item prints."""
def judge(s, r):
    if not r["ret"]: return "printf returned something other than 0"
    for t, how in zip(r["out"], ("optimised, 1 thread", "not optimised, 8 threads")):
        got = [[] for _ in range(s["n"])]; rest = []
        if t and not t.endswith("\n"): return "output does not end at the end of a line (%s): %r" % (how, t[-200:])
        for l in t.split("\n")[:-1]:
            h, _, x = l.partition(":")
            if h.isdigit() and int(h) < s["n"]: got[int(h)].append(x)
            else: return "unexpected output (%s): %r" % (how, l[:300])
        for i in range(s["n"]):
            want = ["%d|%s" % (c, y["want"]) for c, y in enumerate(s["out"][i]) for _ in range(y["n"])]
            if got[i] != want:
                d = next((n for n in range(min(len(want), len(got[i]))) if want[n] != got[i][n]), min(len(want), len(got[i])))
                c = int(want[d].partition("|")[0]) if d < len(want) else None
                return "item %d, line %d (%s): printed %r, expected %r%s" % (i, d, how, got[i][d] if d < len(got[i]) else None, want[d] if d < len(want) else None,
                        "; pieces %s" % [("%" + "".join(str(y["f"][k]) if k not in ("minus", "plus", "space", "hash", "zero") else k[0] * y["f"][k] for k in ("minus", "plus", "space", "hash", "zero", "width", "prec", "vec", "len", "conv")), s["out"][i][c]["args"][j]) if y["k"] == "cnv" else y.get("t", "%%") for j, y in enumerate(s["calls"][c]["items"])] if c is not None else "")
    return None
def F01(c):
    c.check_model("PrintfMC", consts={"MaxM": "17"} if c.thorough else None)
    s = c.generate("PrintfGen", num=6000 if c.thorough else 700, depth=4)
    c.sample({"calls": s[0]["calls"][:1], "out": s[0]["out"][0][:1]})
    c.replay("d_printf", s, judge)
CHECKS = {"F01": F01}
