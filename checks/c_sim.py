"""S01: SimFileGen's simulation files, well-formed and malformed, and what the kernel runner makes of them."""
import re
def judge(s, r):
    w = s["want"]; shown = [(m.group(1), int(m.group(2)), m.group(3)) for m in re.finditer(r"^\s*(\w+)\[(\d+)\] = (\S*)$", r["out"], re.M)]
    tail = "; the file:\n" + r["sim"][:1200]
    if "bad" in w:
        if r["rc"] < 0: return "a malformed file (%s) ended the runner with signal %d%s" % (w["bad"][0], -r["rc"], tail)
        if r["rc"] == 0: return "a malformed file (%s, argument %d) was accepted%s" % (w["bad"][0], w["bad"][1], tail)
        if not r["err"].strip(): return "a malformed file (%s) was rejected without an error message%s" % (w["bad"][0], tail)
        if r.get("word") and r["word"] not in r["err"]: return "the error message does not name the unknown word %r: %r" % (r["word"], r["err"])
        if shown: return "a malformed file (%s) was run%s" % (w["bad"][0], tail)
        return None
    if r["rc"]: return "a valid file was rejected, status %s: %s%s" % (r["rc"], r["err"], tail)
    if r["err"].strip(): return "unexpected error output %r%s" % (r["err"], tail)
    want = [(d["name"], i, v) for d in w["dumps"] for i, v in enumerate(d["v"])]
    if shown != want:
        n = next((i for i in range(min(len(want), len(shown))) if want[i] != shown[i]), min(len(want), len(shown)))
        return "value %d printed is %s, expected %s%s" % (n, shown[n] if n < len(shown) else None, want[n] if n < len(want) else None, tail)
    return None
def S01(c):
    c.check_model("SimFileMC", consts={"Lo": "30", "Hi": "30", "MaxN": "4"} if c.thorough else None)
    s = c.generate("SimFileGen", num=8000 if c.thorough else 1000, depth=4)
    c.sample({"file": s[0]["file"]["args"][:1], "want": s[0]["want"]})
    c.replay("d_sim", s, judge)
CHECKS = {"S01": S01}
