"""Executes histories of ArgsGen; returns the reports found in the output buffers."""
import ctypes as C, struct
import ocl
from ocl import cl, ck, vptr, i32, u64, size_t
from d_queue import FMT, DESC
SRC = r"""
struct T { char x; int y; };
#define REC 16
#define NEXT(o) ((o) + 1 + (o)[0] * REC); (o)[0]++
__kernel void A(__global int *o, char c, short s, int i, long l, int3 v, struct T t, __global uchar *g, __constant uchar *k, __local uchar *m)
{
  __global int *r = NEXT(o);
  m[0] = 1;
  r[0] = 1; r[1] = c; r[2] = s; r[3] = i; r[4] = (int)(l >> 32); r[5] = (int)l; r[6] = v.x; r[7] = v.y; r[8] = v.z; r[9] = t.x; r[10] = t.y;
  r[11] = g ? g[0] : 0; r[12] = k ? k[0] : 0;
}
__kernel void B(__global int *o, int i, __global uchar *g, uchar2 u, __local int *m, int j)
{
  __global int *r = NEXT(o);
  r[0] = 2; r[1] = i; r[2] = g ? g[0] : 0; r[3] = u.x; r[4] = u.y; r[5] = j;
}
__kernel void C(__global int *o, __read_only image1d_t p, char c, __read_only image1d_t q)
{
  __global int *r = NEXT(o);
  r[0] = 3; r[1] = read_imageui(p, 0).x; r[2] = c; r[3] = read_imageui(q, 0).x;
}
"""
REC, MAXR = 16, 40
_g = {}
def setup():
    if _g: return
    ocl.mode(0)
    ctx = _g["ctx"] = ocl.context()
    _g["prog"] = ocl.program(ctx, SRC, "-cl-std=CL1.2")
    _g["q"] = ocl.queue(ctx)
    host = [C.create_string_buffer(bytes([n]) + b"\0" * 15 + bytes([n + 10]) + b"\0" * 15, 32) for n in (1, 2, 3)]
    _g["buf"] = [ocl.buffer(ctx, 1 | 32, 32, h) for h in host]
    er = i32()
    for p in (0, 1):
        s = cl.clCreateSubBuffer(_g["buf"][p], 0, 0x1220, ocl.sizes(16, 8), C.byref(er)); ck(er.value); _g["buf"].append(s)
    _g["img"] = []
    for n in (1, 2, 3):
        f = FMT(0x10B0, 0x10DA); d = DESC(0x10F4, 4, 0, 0, 0, 0, 0, 0, 0, None)
        m = C.create_string_buffer(bytes([20 + n]) * 4, 4)
        _g["img"].append(cl.clCreateImage(ctx, 1 | 32, C.byref(f), C.byref(d), m, C.byref(er))); ck(er.value)
G = [0, 1, 2, 3, 11, 12]     # what reading the first byte gives
def i32s(x): return (x + 2**31) % 2**32 - 2**31
def run(s):
    setup()
    ctx, q = _g["ctx"], _g["q"]
    ocl.api_errors()
    outs = [ocl.buffer(ctx, 1, 4 * (1 + REC * MAXR)) for _ in range(3)]
    for b in outs: ocl.write(q, b, b"\0" * 4 * (1 + REC * MAXR))
    er = i32(); K = {}; rets = []; gates = []; pend = []
    gate = None
    def enc(p, v):
        if p == "c": return struct.pack("b", v[0])
        if p == "s": return struct.pack("h", v[0])
        if p == "i": return struct.pack("i", v[0])
        if p == "l": return struct.pack("Ii", v[1] & 0xffffffff, v[0])
        if p == "v": return struct.pack("4i", v[0], v[1], v[2], 77)
        if p == "t": return struct.pack("b3xi", v[0], v[1])
        if p == "u": return struct.pack("BB", *v)
        h = outs[v[0] - 1] if p == "o" else _g["img"][v[0] - 1] if p == "p" else (None if v[0] == 0 else _g["buf"][v[0] - 1])
        return struct.pack("P", h or 0)
    SIZE = {"c": 1, "s": 2, "i": 4, "l": 8, "v": 16, "t": 8, "u": 2, "o": 8, "g": 8, "k": 8, "p": 8}
    for o in s["ops"]:
        t = o["o"]
        if t == "make": K[o["k"]] = ocl.kernel(_g["prog"], o["t"])
        elif t == "clone": K[o["n"]] = cl.clCloneKernel(K[o["k"]], C.byref(er)); ck(er.value, "clone")
        elif t == "release": ck(cl.clReleaseKernel(K.pop(o["k"])))
        elif t == "set":
            p = o["p"]
            if p == "m": r = cl.clSetKernelArg(K[o["k"]], o["i"] - 1, o["v"][0] * 4, None)
            else:
                d = enc(p, o["v"]); b = C.create_string_buffer(d, len(d))
                null = p in "gk" and o["v"][0] == 0 and len(rets) % 2
                r = cl.clSetKernelArg(K[o["k"]], o["i"] - 1, len(d), None if null else b)
                C.memset(b, 0xEE, len(d))
            rets.append([r, len(ocl.api_errors()) > 0])
        elif t == "bad":
            p, b = o["p"], o["b"]
            d = C.create_string_buffer(64)
            n = SIZE.get(p, 8)
            if b == "index": r = cl.clSetKernelArg(K[o["k"]], 10 + o["i"], n, d)
            elif b == "small": r = cl.clSetKernelArg(K[o["k"]], o["i"] - 1, n - 1, d)
            elif b == "big": r = cl.clSetKernelArg(K[o["k"]], o["i"] - 1, n + 1, d)
            elif p == "m": r = cl.clSetKernelArg(K[o["k"]], o["i"] - 1, 0, None)
            else: r = cl.clSetKernelArg(K[o["k"]], o["i"] - 1, n, None)
            rets.append([r, len(ocl.api_errors()) > 0])
        elif t == "launch":
            if gate is None: gate = cl.clCreateUserEvent(ctx, C.byref(er))
            wl = ocl.handles([gate]); pend.append(wl)
            r = cl.clEnqueueNDRangeKernel(q, K[o["k"]], 1, None, ocl.sizes(1), ocl.sizes(1), 1, wl, None)
            rets.append([r, len(ocl.api_errors()) > 0])
        elif t == "drain":
            if gate: ck(cl.clSetUserEventStatus(gate, 0))
            ck(cl.clFinish(q))
            if gate: cl.clReleaseEvent(gate)
            gate = None
        elif t == "local":
            rets.append([ocl.info(lambda h, w, n, v, x: cl.clGetKernelWorkGroupInfo(h, ocl.device, w, n, v, x), K[o["k"]], 0x11B2, u64), False])
    out = []
    for b in outs:
        w = struct.unpack("%di" % (1 + REC * MAXR), ocl.read(q, b, 4 * (1 + REC * MAXR)))
        out.append([list(w[1 + i * REC:1 + (i + 1) * REC]) for i in range(min(max(w[0], 0), MAXR))])
    for k in K.values(): cl.clReleaseKernel(k)
    for b in outs: cl.clReleaseMemObject(b)
    return {"rets": rets, "out": out}
