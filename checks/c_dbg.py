"""D06: DebuggerGen's debugging sessions: what every command prints, where every one of them stops, and the results."""
def render(x, r):
    t = x["t"]; src = r["src"][x["p"] - 1]
    k = t[0]; xyz = lambda q: "(%d,%d,%d)" % tuple(q); name = lambda e: "".join(e)
    if k == "src": return ["%d\t%s" % (t[1], src[t[1] - 1])]
    if k == "txt": return [t[1]]
    if k == "noline": return ["Source line not available.", None]
    if k == "fn": return ["%s%s(%s) at line %d" % (t[1], t[2], "a=0x%x" % r["addr"] if t[2] == "k" else "p=%d" % t[3], t[4])]
    if k == "bp": return ["Breakpoint %d hit at line %d by work-item %s" % (t[1], t[2], xyz(t[3]))]
    if k == "isbp": return ["Breakpoint %d: Line %d" % (t[1], t[2])]
    if k == "val": return ["%s = %s" % (name(t[1]), t[2])]
    if k == "int": return ["%s = %d" % (name(t[1]), t[2])]
    if k == "ptr": return ["%s = 0x%x" % (name(t[1]), r["addr"])]
    if k == "any": return [name(t[1]) + " = *"]
    if k == "arr": return ["%s = {%d,%d}" % (name(t[1]), *t[2])]
    if k == "lmem": return ["%X: %s" % (2**48 + 4 * i, " ".join("%02X" % b for b in v.to_bytes(4, "little"))) for i, v in enumerate(t[1])] if t[1] else [None, None]
    if k == "wi": return ["Switched to work-item: " + xyz(t[1])]
    if k == "ask": return ["Delete all breakpoints? (y/n)"]
    if k == "info": return ["Running kernel 'k'", "-> Global work size:   " + xyz(t[1]), "-> Global work offset: " + xyz(t[2]), "-> Local work size:    " + xyz(t[3]), "Current work-item: " + xyz(t[4])]
    if k == "gmem": return ["%X: %s" % (r["addr"] + 4 * (t[1] + i), " ".join("%02X" % b for b in (v % 2**32).to_bytes(4, "little"))) for i, v in enumerate(t[2])]
    raise KeyError(k)
def norm(x): return " ".join(x.split())
def same(want, got): return want is None or norm(want) == got or (want.endswith(" = *") and got.startswith(norm(want)[:-1].rstrip()))
def judge(s, r):
    if "died" in r: return "the process died (%s) after:\n%s\nprogram:\n%s" % (r["died"], r["out"], r["src"])
    where = "; program:\n%s\nlaunches %s\ncommands: %s" % ("\nprogram:\n".join("\n".join("%d %s" % x for x in enumerate(src, 1)) for src in r["src"]), s["launches"], [c for c in r["cmds"] if c[:1] != "@"])
    for i, l in enumerate(s["log"]):
        want = [y for t in l["out"] for y in render(t, r)]
        if i >= len(r["secs"]): return "the session ended before command %d, %s%s" % (i, l["c"], where)
        got = [norm(x) for x in r["secs"][i].split("\n") if x.strip()]
        if len(want) != len(got) or not all(same(a, b) for a, b in zip(want, got)): return "command %d, %s, printed %s, expected %s%s" % (i, l["c"], got, want, where)
    if len(r["secs"]) > len(s["log"]): return "more stops than expected%s" % where
    if r["mem"] != s["mem"]: return "the kernel computed %s, expected %s%s" % (r["mem"], s["mem"], where)
    return None
def D06(c):
    c.check_model("DebuggerMC", consts={"MaxCmds": "5"} if c.thorough else None)
    s = c.generate("DebuggerGen", num=3000 if c.thorough else 800, depth=4000)
    c.sample({"log": [(l["c"], l["out"]) for l in s[0]["log"][:6]]})
    c.replay("d_dbg", s, judge)
CHECKS = {"D06": D06}
