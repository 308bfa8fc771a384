"""P01: ProgramGen's histories of builds, links, reloads and kernels."""
def judge(s, res):
    if "exception" in res: return "%s\n%s" % (res["exception"], res.get("tb", ""))
    for i, (o, r) in enumerate(zip(s["ops"], res["ops"])):
        t = o["o"]
        def bad(m): return "step %d, %s: %s; history: %s" % (i + 1, {k: v for k, v in o.items() if k != "see"}, m, [{k: v for k, v in x.items() if k not in ("see", "lay")} for x in s["ops"][max(0, i - 12):i]])
        rc = {o["rc"]}
        if o["rc"] in (-11, -15) and o["opt"]["bad"] in ("unknown", "stray", "nofile", "badstd"): rc |= {-43, -66}   # also allowed for invalid options
        if o["rc"] == 1 and r["rc"] < 0: rc = {r["rc"]}
        if r["rc"] not in rc: return bad("returned %s, expected %s" % (r["rc"], o["rc"]))
        if r.get("null") is not None and r["null"] != (o["rc"] != 0): return bad("returned %s object together with code %d" % ("no" if r["null"] else "an", r["rc"]))
        if t in ("reload", "badbin") and r["bs"] != o["rc"]: return bad("binary status %d" % r["bs"])
        if t in ("build", "compile", "link") and r["rc"] not in (-43, -66, -17):
            want = [[True, 4321]] if o["cb"] and o["rc"] in (0, -11, -15) else []
            if r["cb"] != want: return bad("callback calls %s, expected %s" % (r["cb"], want))
        if t == "kernel" and o["rc"] == 0:
            x = o["info"]; r["info"]["at"] = sorted(str(r["info"]["at"]).split())
            w = {"n": o["n"], "nargs": o["info"]["nargs"], "at": sorted(["reqd_work_group_size(%d,1,1)" % x["rq"]] * (x["rq"] > 0) + ["work_group_size_hint(%d,2,1)" % x["hint"]] * (x["hint"] > 0) + ["vec_type_hint(%s)" % x["vec"]] * (x["vec"] != "")), "cws": [o["info"]["rq"], 1, 1] if o["info"]["rq"] else [0, 0, 0], "prog": True}
            if r["info"] != w: return bad("kernel is %s, expected %s" % (r["info"], w))
        if t == "kernels" and o["rc"] == 0:
            if r["n"] != len(o["ns"]) or r["cnt"] != len(o["ns"]) or r["got"] != sorted(o["ns"]): return bad("%d kernels created %s" % (r["n"], r["got"]))
            if "few" in r and o["rc"] == 0 and r["few"] != -30: return bad("too small a list accepted: %s" % r["few"])
        if t == "run":
            if any(r["args"]): return bad("setting arguments returned %s" % r["args"])
            if r["value"] != o["value"]: return bad("computed %d, expected %d" % (r["value"], o["value"]))
        for v, g in zip(o["see"], r["see"]):
            def off(m): return bad("program %d (%s, %s): %s" % (v["p"], v["kind"], v["st"], m))
            st = {"none": -1, "ok": 0, "err": -2, "bin": g["status"]}[v["st"]]
            if g["status"] != st: return off("build status %s, expected %s" % (g["status"], st))
            if g["type"] != v["type"]: return off("binary type %s, expected %s" % (g["type"], v["type"]))
            if g["size"] != v["size"]: return off("size of program scope variables %s, expected %s" % (g["size"], v["size"]))
            if (g["bin"] > 0) != v["bin"]: return off("binary of %s bytes" % g["bin"])
            if not g["src"]: return off("source differs from the text given")
            if v["kind"] != "linked" and not g["opt"]: return off("options differ from those of the last build")
            if v["st"] == "err" and not g["log"].strip(): return off("empty log after a failed build")
            if v["st"] == "ok" and "error" in g["log"]: return off("log of a successful build: %r" % g["log"])
            if v["st"] == "none" and g["log"]: return off("log before any build: %r" % g["log"])
            if v["st"] == "ok":
                names = g["names"].split(";") if isinstance(g["names"], str) and g["names"] else []
                if g["nk"] != len(v["names"]) or sorted(names) != sorted(v["names"]) or g["kp"] != [0, len(v["names"])]: return off("kernels %s (%s, %s), expected %s" % (g["names"], g["nk"], g["kp"], sorted(v["names"])))
            elif v["st"] != "bin" and (g["nk"] != "err-45" or g["names"] != -45 or g["kp"][0] != -45): return off("kernels %s (%s, %s) though there is no successful build" % (g["names"], g["nk"], g["kp"]))
    return None
def P01(c):
    c.check_model("ProgramMC", consts={"MaxProgs": "3", "MaxKerns": "2", "MaxOps": "8"} if c.thorough else None)
    s = c.generate("ProgramGen", num=6000 if c.thorough else 600, depth=140)
    c.sample({"units": s[0]["units"][:1], "ops": s[0]["ops"][:3]})
    c.replay("d_prog", s, judge)
CHECKS = {"P01": P01}
