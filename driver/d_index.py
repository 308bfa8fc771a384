"""Builds and runs kernels of IndexGen: one subscript each; returns reports, value loaded, memory after."""
import struct, re
import ocl
from ocl import cl, ck
def kern(n, k):
    T = "struct { int pre; int a%s; int post[2]; }" % "".join("[%d]" % x for x in k["d"])
    sub = "".join("[%s]" % (x if k["cst"] else "ix[%d]" % j) for j, x in enumerate(k["ix"]))
    sp = {"p": "private", "l": "local", "g": "global"}[k["sp"]]
    decl = {"p": "T%d v; T%d* t = &v;" % (n, n), "l": "local T%d v; local T%d* t = &v;" % (n, n), "g": "global T%d* t = (global T%d*)buf;" % (n, n)}[k["sp"]]
    acc = "v" if k["sp"] != "g" else "(*t)"
    use = "%s.a%s = -5;" % (acc, sub) if k["st"] else "out[0] = %s.a%s;" % (acc, sub)
    return """typedef %s T%d;
kernel void k%d(global int* ix, global int* out, global int* buf) {
  %s
  volatile %s int* w = (volatile %s int*)t;
  for (int i = 0; i < %d; i++) w[i] = i + 1;
  %s
  for (int i = 0; i < %d; i++) out[1 + i] = w[i];
}
""" % (T, n, n, decl, sp, sp, k["words"], use, k["words"])
_g = {}
def run(s):
    if not _g: _g["ctx"] = ocl.context(); _g["q"] = ocl.queue(_g["ctx"])
    ctx, q = _g["ctx"], _g["q"]; ocl.mode(0); res = []
    ps = {}
    for opt in (False, True):
        src = "".join(kern(i, k) for i, k in enumerate(s["ks"]) if k["opt"] == opt)
        if src: ps[opt] = ocl.program(ctx, src, "" if opt else "-O0")
    for i, k in enumerate(s["ks"]):
        ix = (k["ix"] + [0, 0])[:3]; W = k["words"]
        bi = ocl.buffer(ctx, 1 | 32, 12, struct.pack("3i", *ix)); bo = ocl.buffer(ctx, 1, 4 * (W + 1)); bb = ocl.buffer(ctx, 1, 4 * W)
        h = ocl.kernel(ps[k["opt"]], "k%d" % i)
        for j, b in enumerate((bi, bo, bb)): ck(ocl.arg(h, j, ("m", b)))
        ocl.fetch(); ocl.mode(ocl.MESSAGES); ck(ocl.run(q, h, [1])); ocl.mode(0)
        rep = []
        for x in ocl.fetch():
            if not x.startswith("m "): continue
            t = x.split(" ", 2)[2]
            m = re.match(r"Index \((-?\d+)\) exceeds static array size \((\d+)\)", t); n = re.match(r"Invalid (read|write) of size (\d+) at (\w+)", t)
            rep.append([int(m.group(1)), int(m.group(2))] if m else [n.group(1), int(n.group(2)), n.group(3)] if n else [t[:200]])
        o = struct.unpack("%di" % (W + 1), ocl.read(q, bo, 4 * (W + 1)))
        res.append({"rep": rep, "v": o[0], "w": list(o[1:])})
        for b in (bi, bo, bb): cl.clReleaseMemObject(b)
        cl.clReleaseKernel(h)
    for p in ps.values(): cl.clReleaseProgram(p)
    return res
