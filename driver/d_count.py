"""Runs CountGen's kernels with instruction counting on; returns for every run what was printed
[[count, name], ...] and what the instructions executed were ([[count, bytes, name], ...])."""
import json, os, re, tempfile
import ocl
from ocl import cl, ck
T = {1: "uchar", 2: "ushort", 4: "uint", 8: "ulong", 16: "uint4"}
SP = {"global": "G", "local": "L", "constant": "C"}
def atomic(f):
    n = re.match(r"_Z\d+(atomic_[a-z]+?)PU3AS(\d)V(j+|i+)$", f); name = re.match(r"_Z(\d+)", f).group(1)
    fn = f[2 + len(name):2 + len(name) + int(name)]; rest = f[2 + len(name) + int(name):]
    sp = {"1": "global", "3": "local"}[rest[5]]; ty = "int" if rest.endswith("i") else "uint"
    two = len(rest) > len("PU3AS1Vj")
    return "%s((volatile %s %s*)(%s + 32)%s);" % (fn, sp, ty, "G" if sp == "global" else "L", ", 3" if two else "")
def code(c, ind, loop=0):
    out = ""
    for s in c:
        if s["k"] == "mem":
            t = T[s["w"]]; p = "*(volatile %s %s*)%s" % (s["sp"], t, SP[s["sp"]])
            st = "%s = (%s)x;" % (p, t) if s["o"] == "store" else "x += (%s)%s;" % (p, ".y" if t == "uint4" else "")
        elif s["k"] == "call": st = "x += fn%d(G, L, C, id, grp);" % s["f"]
        elif s["k"] == "bar": st = "barrier(CLK_LOCAL_MEM_FENCE);"
        elif s["k"] == "at": st = atomic(s["f"])
        elif s["k"] == "for":
            v = "i%d" % loop
            st = "for (uint %s = 0; %s < %d + id %% %d; %s++) {\n%s%s}" % (v, v, s["n"], s["m"], v, code(s["b"], ind + "  ", loop + 1), ind)
        else:
            st = "if (%s %% %d == %d) {\n%s%s} else {\n%s%s}" % ("id" if s["by"] == "item" else "grp", s["m"], s["c"], code(s["t"], ind + "  ", loop), ind, code(s["e"], ind + "  ", loop), ind)
        out += ind + st + "\n"
    return out
ARGS = "global uchar* G, local uchar* L, constant uchar* C"
def source(p):
    s = ""
    for f, c in enumerate(p["fns"]):
        s += "__attribute__((noinline)) uint fn%d(%s, uint id, uint grp) {\n  uint x = id;\n%s  return x;\n}\n" % (f + 1, ARGS, code(c, "  "))
    for k, c in enumerate(p["kernels"]):
        s += "kernel void k%d(%s, uint dummy) {\n  uint id = get_global_id(0), grp = get_group_id(0), x = dummy;\n%s}\n" % (k + 1, ARGS, code(c, "  "))
    return s
_g = {}
def parse(t):
    res = []
    for l in t.splitlines():
        m = re.match(r"Instructions executed for kernel '(.*)':$", l)
        if m: res.append({"kernel": m.group(1), "lines": []}); continue
        m = re.match(r" *([0-9,.' ]*[0-9]) - (.*)$", l)
        if m and res: res[-1]["lines"].append([int(re.sub(r"[^0-9]", "", m.group(1))), m.group(2)])
        elif l: res.append({"unexpected": l[:200]})
    return res
def debugged(s, r):
    "the run in a process of its own, under the interactive debugger"
    with tempfile.TemporaryDirectory(prefix="vcnt") as d:
        with open(d + "/in", "w") as f:
            for n, w in enumerate(r["dbg"]): f.write("workitem %d\n%s\n" % (w, "next\nnext" if (w + n) % 2 else "step\nstep\nstep"))
            f.write("continue\n" * 4)
        pid = os.fork()
        if pid == 0:
            try:
                os.environ["OCLGRIND_INTERACTIVE"] = "1"; ocl.setenv("OCLGRIND_INTERACTIVE", "1")
                os.dup2(os.open(d + "/in", os.O_RDONLY), 0)
                ctx = ocl.context(); q = ocl.queue(ctx); p = ocl.program(ctx, source(s["prog"]), s["opt"])
                x = one(ctx, q, [ocl.kernel(p, "k%d" % k) for k in (1, 2)], ocl.buffer(ctx, 1 | 32, 64, b"\x05" * 64), ocl.buffer(ctx, 4 | 32, 64, b"\x09" * 64), dict(r, thr=1))
            except BaseException as e: x = {"exception": repr(e)}
            with open(d + "/res", "w") as f: json.dump(x, f)
            os._exit(0)
        st = os.waitpid(pid, 0)[1]
        if st: raise Exception("the debugged process died: %d" % st)
        x = json.load(open(d + "/res"))
        if "exception" in x: raise Exception(x["exception"])
        return x
def one(ctx, q, ks, G, C, r):
    k = ks[r["k"] - 1]
    for i, v in enumerate([("m", G), ("l", 64), ("m", C), ("b", b"\1\0\0\0")]): ck(ocl.arg(k, i, v), "argument")
    ocl.setenv("OCLGRIND_NUM_THREADS", r["thr"]); ocl.vp.vp_seed(r["n"] + r["thr"]); ocl.fetch(); ocl.mode(ocl.HISTO | (ocl.PERTURB if (r["n"] + r["thr"]) % 3 == 0 else 0))
    with tempfile.TemporaryFile() as f:
        ocl.libc.fflush(None); old = os.dup(1); os.dup2(f.fileno(), 1)
        try: e = ocl.run(q, k, [r["n"]], [r["l"]])
        finally: ocl.libc.fflush(None); os.dup2(old, 1); os.close(old)
        ocl.mode(0); ck(e, "run")
        f.seek(0); t = f.read().decode("latin1")
    if r["dbg"]: t = t[max(t.find("Instructions executed for kernel"), 0):]
    h = [l.split(" ", 3)[1:] for l in ocl.fetch() if l.startswith("hi ")]
    return {"printed": parse(t), "executed": [[int(a), int(b), c] for a, b, c in h]}
def run(s):
    if not _g:
        os.environ["OCLGRIND_INST_COUNTS"] = "1"; ocl.setenv("OCLGRIND_INST_COUNTS", "1"); ocl.mode(0)
        _g["c"] = ocl.context(); _g["q"] = ocl.queue(_g["c"])
    ctx, q = _g["c"], _g["q"]
    p = ocl.program(ctx, source(s["prog"]), s["opt"]); ks = [ocl.kernel(p, "k%d" % k) for k in (1, 2)]
    G, C = ocl.buffer(ctx, 1 | 32, 64, b"\x05" * 64), ocl.buffer(ctx, 4 | 32, 64, b"\x09" * 64)
    out = []
    for r in s["runs"]: out.append(debugged(s, r) if r["dbg"] else one(ctx, q, ks, G, C, r))
    for b in (G, C): cl.clReleaseMemObject(b)
    for k in ks: cl.clReleaseKernel(k)
    cl.clReleaseProgram(p)
    return out
