"""D07: LogMC; LogGen -> logs -> LogTrace."""
def D07(c):
    c.check_model("LogMC", consts={"Per": "3", "MaxMax": "10"} if c.thorough else None)
    s = c.generate("LogGen", num=1500 if c.thorough else 400, depth=8)
    c.sample({"max": s[0]["sc"]["max"], "first run": s[0]["runs"][0]})
    res = c.record_and_accept("d_log", s, "LogTrace", hang=110)
    c.log("%d messages" % sum(len(r["ev"]) for r in res if r and "ev" in r))
CHECKS = {"D07": D07}
