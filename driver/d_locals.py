"""Builds programs of LocalsGen, runs their kernels; records sizes, addresses and counts of wrong bytes."""
import struct, ctypes as C
import ocl
from ocl import cl, ck
NV = 12
def decl(k, i, v):
    if len(v["ty"]) > 1:
        st = "struct { %s }" % " ".join("%s m%d;" % (t, j) for j, t in enumerate(v["ty"]))
        return "%s v%d%s;" % (st, i, "".join("[%d]" % d for d in v["dims"]))
    return "%s v%d%s;" % (v["ty"][0], i, "".join("[%d]" % d for d in v["dims"]))
def kern(k):
    nv, na = len(k["vars"]), len(k["args"])
    n = nv + na
    d = "\n".join("  local " + decl(k, i, v) for i, v in enumerate(k["vars"]))
    ps = ["(local uchar*)&v%d" % i for i in range(nv)] + ["a%d" % i for i in range(na)]
    zs = ["sizeof(v%d)" % i for i in range(nv)] + [str(s) for s in k["args"]]
    return """
kernel void %(name)s(global ulong* out%(args)s) {
%(d)s
  local uchar* p[%(n1)d] = {%(ps)s};
  uint z[%(n1)d] = {%(zs)s};
  uint g = get_group_id(0), l = get_local_id(0), L = get_local_size(0);
  uchar priv[%(priv)d]; uint bad = 0;
  for (int i = 0; i < %(n)d; i++) for (uint j = l; j < z[i]; j += L) bad += p[i][j] != 0;   // nothing of an earlier group
  barrier(CLK_LOCAL_MEM_FENCE);
  for (int ph = 0; ph < 3; ph++) {
    for (int j = 0; j < %(priv)d; j++) priv[j] = H(g, l, j, ph);
    for (int i = 0; i < %(n)d; i++) for (uint j = (l + ph) %% L; j < z[i]; j += L) p[i][j] = H(g, i, j, ph);
    barrier(CLK_LOCAL_MEM_FENCE);
    for (int i = 0; i < %(n)d; i++) for (uint j = 0; j < z[i]; j++) bad += p[i][j] != H(g, i, j, ph);
    bad += deep(g * 17 + l * 5 + ph, 3);
    barrier(CLK_LOCAL_MEM_FENCE);
    for (int j = 0; j < %(priv)d; j++) bad += priv[j] != H(g, l, j, ph);
  }
  global ulong* o = out + (g * L + l) * %(w)d;
  o[0] = bad;
  for (int i = 0; i < %(n)d; i++) { o[1 + 2 * i] = z[i]; o[2 + 2 * i] = (ulong)p[i]; }
}
""" % dict(name=k["name"], args="".join(", local uchar* a%d" % i for i in range(na)), d=d, n=n, n1=n + 1, ps=", ".join(ps + ["0"]), zs=", ".join(zs + ["0"]), priv=k["priv"], w=2 * NV + 1)
HEAD = """
#define H(g, i, j, ph) ((uchar)(1 + ((g) * 31 + (i) * 57 + (j) * 7 + (ph) * 101) % 255))
uint deep3(uint s) { uchar a[5]; for (int i = 0; i < 5; i++) a[i] = s + i; uint b = 0; for (int i = 0; i < 5; i++) b += a[i] != (uchar)(s + i); return b; }
uint deep2(uint s) { uchar a[3]; int x = s; for (int i = 0; i < 3; i++) a[i] = s * 3 + i; uint b = deep3(s + 1); for (int i = 0; i < 3; i++) b += a[i] != (uchar)(s * 3 + i); return b + (x != s); }
uint deep(uint s, int n) { uchar a[4]; uint b = 0; for (int i = 0; i < 4; i++) a[i] = s + 100 + i; for (int i = 0; i < n; i++) b += deep2(s + i * 9) + deep3(s * i); for (int i = 0; i < 4; i++) b += a[i] != (uchar)(s + 100 + i); return b; }
"""
_g = {}
def run(s):
    if not _g: _g["ctx"] = ocl.context(); _g["q"] = ocl.queue(_g["ctx"])
    ctx, q = _g["ctx"], _g["q"]; ocl.mode(0)
    p = ocl.program(ctx, HEAD + "".join(kern(k) for k in s["ks"]), "-cl-std=CL2.0")
    ev = []
    ks = [ocl.kernel(p, k["name"]) for k in s["ks"]]
    lms = lambda h: (lambda v: (ck(cl.clGetKernelWorkGroupInfo(h, ocl.device, 0x11B2, 8, C.byref(v), None)), v.value)[1])(C.c_uint64())
    for rnd in range(2):                                  # twice: the second time after every kernel has run
        for h, k in zip(ks, s["ks"]):
            n = len(k["vars"]) + len(k["args"]); w = 2 * NV + 1; items = k["groups"] * k["items"]
            out = ocl.buffer(ctx, 1, 8 * w * items)
            l0 = lms(h) - (sum(k["args"]) if rnd else 0)
            ck(ocl.arg(h, 0, ("m", out)))
            for i, a in enumerate(k["pre"]):
                if a and (rnd + i + a) % 3: ck(ocl.arg(h, 1 + i, ("l", a)))
            for i, a in enumerate(k["args"]): ck(ocl.arg(h, 1 + i, ("l", a)))
            ocl.setenv("OCLGRIND_NUM_THREADS", k["thr"])
            ocl.fetch(); ocl.mode(ocl.MESSAGES | ocl.PERTURB)
            ck(ocl.run(q, h, [items], [k["items"]])); ocl.mode(0)
            v = struct.unpack("%dQ" % (w * items), ocl.read(q, out, 8 * w * items))
            groups = []
            for g in range(k["groups"]):
                rows = [v[w * (g * k["items"] + i):][:w] for i in range(k["items"])]
                groups.append({"bad": sum(x[0] for x in rows) + sum(x[1:2 * n + 1] != rows[0][1:2 * n + 1] for x in rows), "sz": list(rows[0][1:2 * n + 1:2]),
                               "addr": [[x >> 32, x & 0x7fffffff] for x in rows[0][2:2 * n + 1:2]]})
            ev.append({"k": {"vars": k["vars"], "args": k["args"]}, "lms0": l0, "lms": lms(h), "msgs": len(ocl.fetch()), "groups": groups})
            cl.clReleaseMemObject(out)
    for h in ks: cl.clReleaseKernel(h)
    cl.clReleaseProgram(p)
    return {"ev": ev}
