"""Executes records of BuiltinGen: a script is a list of built-ins with operand tuples, one kernel
each, one work-item per tuple. Returns what the kernels stored."""
import struct
import ocl
from ocl import ck
SIZE = {"char": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8, "float": 4, "double": 8}
def ty(v): return v["t"] + (str(v["w"]) if v["w"] > 1 else "")
def slot(v): return SIZE[v["t"]] * (4 if v["w"] == 3 else v["w"])
def pack(v, comps): return b"".join(bytes(x) for x in comps).ljust(slot(v), b"\xa5")
def call(r):
    d = r["d"]; n = len(d["args"]); a = ", ".join("a%d[i]" % j for j in range(n))
    if d["k"] in ("cv", "cs"): return "convert_%s%s%s(%s)" % (ty(d["res"]), "_sat" if d["k"] == "cs" else "", ["", "_rte", "_rtz", "_rtp", "_rtn"][r["rnd"]], a)
    if d["k"] == "as": return "as_%s(%s)" % (ty(d["res"]), a)
    return "%s(%s)" % (d["f"], a)
def kernel(r, name):
    d = r["d"]; R = ty(d["res"])
    if d["k"] in ("vl", "vs"):
        T, w, sp = d["res"]["t"], d["res"]["w"], d["x"]; m = 3 * w + 2
        pre = post = ""; p = "mem + i * %d" % m
        if sp in ("local", "private"):
            pre = "%s %s buf[%d]; for (int j = 0; j < %d; j++) buf[j] = mem[i * %d + j];" % (sp, T, m, m, m); p = "buf"
            post = "for (int j = 0; j < %d; j++) mem[i * %d + j] = buf[j];" % (m, m)
        op = "o[i] = vload%d(off[i], %s + base[i]);" % (w, p) if d["k"] == "vl" else "vstore%d(v[i], off[i], %s + base[i]);" % (w, p)
        return "kernel void %s(global const ulong* off, global const ulong* base, %s %s* mem, global %s* v, global %s* o) { size_t i = get_global_id(0); %s %s %s }" % (
            name, "constant" if sp == "constant" else "global", T, R, R, pre, op, post)
    args = "".join("global const %s* a%d, " % (ty(a), j) for j, a in enumerate(d["args"]))
    return "kernel void %s(%sglobal %s* o) { size_t i = get_global_id(0); o[i] = %s; }" % (name, args, R, call(r))
_g = {}
def run(s):
    if not _g: _g["ctx"] = ocl.context(); _g["q"] = ocl.queue(_g["ctx"])
    ctx, q = _g["ctx"], _g["q"]
    ocl.mode(0)
    p = ocl.program(ctx, "\n".join(kernel(r, "k%d" % i) for i, r in enumerate(s["recs"])), s["opt"])
    res = []
    for i, r in enumerate(s["recs"]):
        d = r["d"]; k = ocl.kernel(p, "k%d" % i); N = len(r["cases"]); bufs = []
        def put(b): bufs.append(ocl.buffer(ctx, 1 | 32, len(b), b)); ck(ocl.arg(k, len(bufs) - 1, ("m", bufs[-1])))
        if d["k"] in ("vl", "vs"):
            put(b"".join(struct.pack("Q", c["off"]) for c in r["cases"])); put(b"".join(struct.pack("Q", c["base"]) for c in r["cases"]))
            put(b"".join(b"".join(bytes(x) for x in c["mem"]) for c in r["cases"]))
            put(b"".join(pack(d["res"], c["in"][0]) for c in r["cases"]))
        else:
            for j, a in enumerate(d["args"]): put(b"".join(pack(a, c["in"][j]) for c in r["cases"]))
        z = slot(d["res"]); put(b"\xcc" * (z * N))
        ck(ocl.run(q, k, [N], [1]), "run")
        if d["k"] == "vs":
            e = SIZE[d["res"]["t"]]; m = 3 * d["res"]["w"] + 2; b = ocl.read(q, bufs[2], e * m * N)
            res.append([[list(b[(c * m + x) * e:(c * m + x + 1) * e]) for x in range(m)] for c in range(N)])
        else:
            e = SIZE[d["res"]["t"]]; b = ocl.read(q, bufs[-1], z * N)
            res.append([[list(b[c * z + x * e:c * z + (x + 1) * e]) for x in range(d["res"]["w"])] for c in range(N)])
        for x in bufs: ocl.cl.clReleaseMemObject(x)
        ocl.cl.clReleaseKernel(k)
    ocl.cl.clReleaseProgram(p)
    return res
