"""Runs LogGen's launches in a process of their own, and returns what was logged as events:
["msg", kernel, [global, local, group], [what, size, space, offset, statement]] | ["notice", n] | ["junk", text]."""
import json, os, re, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VF_BUILD", "/verif/build")
T = {1: "uchar", 2: "ushort", 4: "uint", 8: "ulong"}
def body(s, i):
    if s["k"] == "acc":
        p = "*(volatile %s %s*)(%s + %d + 64 * lin + 8 * i)" % (s["sp"], T[s["w"]], "G" if s["sp"] == "global" else "L", 65536 * i)
        return "x += %s;" % p if s["o"] == "read" else "%s = 1;" % p
    return {"ro": "*RO = %d;" % i, "wo": "x += *WO + %d;" % i, "un": "*(volatile global uint*)(U + 64 * lin + 8 * i) = *(volatile local uint*)L; // %d" % i}[s["k"]]
def source(progs):
    s, lines, n = "", {}, 0
    for k, p in enumerate(progs):
        t = ["kernel void k%d(global uchar* G, local uchar* L, volatile global uint* RO, volatile global uint* WO, global uchar* U) {" % (k + 1),
             "  uint lin = (get_global_id(0) - get_global_offset(0)) + get_global_size(0) * ((get_global_id(1) - get_global_offset(1)) + get_global_size(1) * (get_global_id(2) - get_global_offset(2)));",
             "  ulong x = 0;"]
        for i, st in enumerate(p):
            t += ["  for (uint i = 0; i < %d + lin %% %d; i++) {" % (st["n"], st["m"]), "    " + body(st, i + 1), "  }"]
            lines[n + len(t) - 1] = (k + 1, i + 1, body(st, i + 1))
        t += ["}"]
        s += "\n".join(t) + "\n"; n += len(t)
    return s, lines
def child(s):
    import ocl
    from ocl import cl, ck
    sc = s["sc"]; src, _ = source(sc["progs"]); ocl.mode(0)
    def setup():
        c = ocl.context(); q = ocl.queue(c); p = ocl.program(c, src, sc["opt"]); ks = [ocl.kernel(p, "k%d" % k) for k in (1, 2)]
        bs = [ocl.buffer(c, 1 | 32, 64, b"\1" * 64), ocl.buffer(c, 4 | 32, 4, b"\1" * 4), ocl.buffer(c, 2 | 32, 4, b"\1" * 4), ocl.buffer(c, 1 | 32, 32768, b"\1" * 32768)]
        for k in ks:
            for i, v in enumerate([("m", bs[0]), ("l", 64), ("m", bs[1]), ("m", bs[2]), ("m", bs[3])]): ck(ocl.arg(k, i, v), "argument")
        return c, q, p, ks, bs
    def drop(x):
        c, q, p, ks, bs = x
        for k in ks: cl.clReleaseKernel(k)
        cl.clReleaseProgram(p)
        for b in bs: cl.clReleaseMemObject(b)
        cl.clReleaseCommandQueue(q); cl.clReleaseContext(c)
    cs = [setup() for _ in range({"one": 1, "two": 2, "successive": 0}[sc["ctx"]])]; made = len(cs)
    for r in s["runs"]:
        if sc["ctx"] == "successive": x = setup(); made += 1
        else: x = cs[(r["c"] - 1) % len(cs)]
        ocl.setenv("OCLGRIND_NUM_THREADS", r["thr"]); ocl.vp.vp_seed(r["thr"] + sum(r["L"]["n"])); ocl.mode(ocl.PERTURB if r["perturb"] else 0)
        L = r["L"]; e = ocl.run(x[1], x[3][r["p"] - 1], L["n"], L["l"], L["off"]); ocl.mode(0); ck(e, "run")
        if sc["ctx"] == "successive": drop(x)
    for x in cs: drop(x)
    sys.stdout.write(json.dumps({"contexts": made})); sys.stdout.flush()
    os._exit(0)
MSG = re.compile(r"\n(?:Invalid (read|write) of size (\d+) at (\w+) memory address 0x([0-9a-f]+)|Invalid (write to read-only|read from write-only) buffer|Uninitialized value (written) to (\w+) memory address 0x([0-9a-f]+))\n"
                 r"\tKernel: k(\d)\n\tEntity: Global\((\d+),(\d+),(\d+)\) Local\((\d+),(\d+),(\d+)\) Group\((\d+),(\d+),(\d+)\)\n\t  (\S[^\n]*)\n\tAt line (\d+) \(column \d+\) of input.cl:\n\t  ([^\n]*)\n\t\n")
NOTICE = re.compile(r"\nOclgrind: (\d+) errors generated - suppressing further errors\n\n")
UNABLE = re.compile(r"Oclgrind: Unable to open log file '([^'\n]*)'\n")
def parse(t, lines):
    ev, at, un = [], 0, []
    while at < len(t) and len(ev) < 4000:
        m = MSG.match(t, at)
        if m:
            g = m.groups(); ln = lines.get(int(g[18 + 1])); mask = (1 << 48) - 1
            if g[0]: w = [g[0], int(g[1]), g[2], int(g[3], 16) & mask]
            elif g[4]: w = ["ro" if g[4].startswith("write") else "wo", 0, "", 0]
            else: w = ["un", 0, g[6], int(g[7], 16) & mask]
            n = [int(x) for x in g[9:18]]
            if ln is None or ln[0] != int(g[8]) or ln[2] != g[20]: ev.append(["junk", "wrong source line: " + m.group(0)])
            else: ev.append(["msg", int(g[8]), [n[0:3], n[3:6], n[6:9]], w + [ln[1]]])
            at = m.end(); continue
        m = NOTICE.match(t, at)
        if m: ev.append(["notice", int(m.group(1))]); at = m.end(); continue
        m = UNABLE.match(t, at)
        if m: un.append(m.group(1)); at = m.end(); continue
        ev.append(["junk", t[at:at + 300]]); break
    return ev, un
def run(s):
    sc = s["sc"]; _, lines = source(sc["progs"])
    with tempfile.TemporaryDirectory() as d:
        env = {k: v for k, v in os.environ.items() if not k.startswith("OCLGRIND_") or k == "OCLGRIND_PLUGINS"}
        log = {"file": d + "/log", "bad": d + "/no/such/log", "stderr": None}[sc["dest"]]
        if sc["dest"] == "file" and sc["old"]: open(log, "w").write("old contents\n" * 20)
        cmd = []
        if sc["cli"]:
            env["OCLGRIND_TESTING"] = "1"; cmd = [BUILD + "/ocl/oclgrind"]
            if log: cmd += ["--log", log]
            if sc["max"] >= 0: cmd += ["--max-errors", str(sc["max"])]
            if sc["un"]: cmd += ["--uninitialized"]
        else:
            if log: env["OCLGRIND_LOG"] = log
            if sc["max"] >= 0: env["OCLGRIND_MAX_ERRORS"] = str(sc["max"])
            if sc["un"]: env["OCLGRIND_UNINITIALIZED"] = "1"
        env["VF_BUILD"] = BUILD
        with open(d + "/err", "wb") as er:
            r = subprocess.run(cmd + [sys.executable, os.path.abspath(__file__)], input=json.dumps(s).encode(), stdout=subprocess.PIPE, stderr=er, env=env, timeout=100)
        err = open(d + "/err", "rb").read().decode("latin1")
        text = open(log, "rb").read().decode("latin1") if sc["dest"] == "file" and os.path.exists(log) else ""
        try: made = json.loads(r.stdout)["contexts"]
        except Exception: return {"crash": r.returncode, "stderr": err[-600:]}
        ev, un = parse(err if sc["dest"] != "file" else text, lines)
        if sc["dest"] == "file" and err: ev.append(["junk", "on standard error: " + err[:300]])
        if un != ([log] * made if sc["dest"] == "bad" else []): ev.append(["junk", "complaints about the log file: %s" % un])
        return {"progs": sc["progs"], "max": 1000 if sc["max"] < 0 else sc["max"], "un": sc["un"], "runs": s["runs"], "ev": ev}
if __name__ == "__main__": child(json.loads(sys.stdin.read()))
