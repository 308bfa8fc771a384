"""Executes histories of MemGen; after every step returns which memory differs from the step before."""
import ctypes as C
import ocl
from ocl import cl, ck, vptr, i32, u64, size_t
SRC = r"""
__kernel void K(__global uchar *s, uint so, __global uchar *d, uint o, uint n, uint k)
{ for (uint i = 0; i < n; i++) d[o + i] = s[so + i] + k; }
"""
_g = {}
def setup():
    if _g: return
    ocl.mode(0)
    _g["ctx"] = ocl.context(); _g["q"] = ocl.queue(_g["ctx"])
    _g["k"] = ocl.kernel(ocl.program(_g["ctx"], SRC), "K")
    _g["shadow"] = ocl.buffer(_g["ctx"], 1, 256)
ACC = {"rw": 0, "ro": ocl.HOST_RO, "wo": ocl.HOST_WO, "no": ocl.HOST_NO}
RWD = [0, 1, 1, 1]
def u(x): return x % 2**64
def run(s):
    setup()
    ctx, q = _g["ctx"], _g["q"]
    ocl.api_errors()
    HN = len(s["host"])
    PAD = 64
    host = (C.c_ubyte * (HN + 2 * PAD))(*([0xA5] * PAD + s["host"] + [0xA5] * PAD))
    hp = C.addressof(host) + PAD
    obj, maps, keep = {}, {}, []
    er = i32(); n_obj = 0
    seen = {}
    def contents(i):
        o = obj[i]
        n = o["n"]
        if o["acc"] in ("rw", "ro"): return list(ocl.read(q, o["h"], n))
        ck(cl.clEnqueueCopyBuffer(q, o["h"], _g["shadow"], 0, 0, n, 0, None, None), "shadow copy")
        return list(ocl.read(q, _g["shadow"], n))
    last_host = [list(s["host"])]
    res = []
    for o in s["ops"]:
        t = o["o"]; r = None; extra = None
        if t == "make":
            n = o["n"]; v = bytes(o["v"])
            m = C.create_string_buffer(v, n)
            fl = (ACC[o["acc"]] | 1 if n % 2 else ACC[o["acc"]])
            if o["f"] == "plain":
                h = cl.clCreateBuffer(ctx, fl, n, None, C.byref(er)); r = er.value
                if h and r == 0:
                    # not a transfer under test: the initial contents come through a kernel
                    tmp = ocl.buffer(ctx, 1 | 32, n, m)
                    ck(cl.clEnqueueCopyBuffer(q, tmp, h, 0, 0, n, 0, None, None)); ck(cl.clFinish(q)); cl.clReleaseMemObject(tmp)
            elif o["f"] == "copy":
                h = cl.clCreateBuffer(ctx, fl | 32, n, m, C.byref(er)); r = er.value
                C.memset(m, 0xEE, n)
            else:
                h = cl.clCreateBuffer(ctx, fl | 8, n, m, C.byref(er)); r = er.value
            want = fl | {"plain": 0, "copy": 32, "use": 8}[o["f"]]
            n_obj += 1; obj[n_obj] = {"h": h, "n": n, "par": 0, "acc": o["acc"], "m": m, "use": o["f"] == "use", "fl": want}
            hptr = ocl.info(cl.clGetMemObjectInfo, h, 0x1103, u64)
            extra = [ocl.info(cl.clGetMemObjectInfo, h, 0x1102, u64) == n, ocl.info(cl.clGetMemObjectInfo, h, 0x1101, u64) == want, (hptr == C.addressof(m)) if o["f"] == "use" else hptr == 0,
                     ocl.info(cl.clGetMemObjectInfo, h, 0x1108, u64) == 0, ocl.info(cl.clGetMemObjectInfo, h, 0x1107, u64) == 0]
        elif t == "sub":
            p = obj[o["p"]]
            fl = o["ka"] | (0 if o["inh"] else ACC[o["acc"]])
            want = (o["ka"] or p["fl"] & 7) | ACC[o["acc"]] | p["fl"] & 0x38     # what is not given is inherited
            h = cl.clCreateSubBuffer(p["h"], fl, 0x1220, (size_t * 2)(u(o["off"]), o["n"]), C.byref(er)); r = er.value
            if r == 0 and h:
                n_obj += 1
                obj[n_obj] = {"h": h, "n": o["n"], "par": o["p"], "off": o["off"], "acc": o["acc"], "fl": want}
                hptr = ocl.info(cl.clGetMemObjectInfo, h, 0x1103, u64)
                extra = [ocl.info(cl.clGetMemObjectInfo, h, 0x1102, u64) == o["n"], ocl.info(cl.clGetMemObjectInfo, h, 0x1101, u64) == want, hptr == (C.addressof(p["m"]) + o["off"] if p["use"] else 0),
                         ocl.info(cl.clGetMemObjectInfo, h, 0x1108, u64) == o["off"], ocl.info(cl.clGetMemObjectInfo, h, 0x1107, u64) == p["h"]]
        elif t == "free":
            r = cl.clReleaseMemObject(obj[o["i"]]["h"]); keep.append(obj.pop(o["i"]))
        elif t in ("read", "write"):
            f = cl.clEnqueueReadBuffer if t == "read" else cl.clEnqueueWriteBuffer
            r = f(q, obj[o["i"]]["h"], o["b"], u(o["off"]), o["n"], hp + o["ho"], 0, None, None)
        elif t == "copy":
            r = cl.clEnqueueCopyBuffer(q, obj[o["i"]]["h"], obj[o["j"]]["h"], u(o["oa"]), u(o["ob"]), o["n"], 0, None, None)
        elif t == "fill":
            w = len(o["p"]); pat = C.create_string_buffer(bytes(o["p"]), w)
            r = cl.clEnqueueFillBuffer(q, obj[o["i"]]["h"], pat, w, u(o["off"]), o["n"], 0, None, None)
            C.memset(pat, 0x77, w)
        elif t in ("readr", "writer"):
            f = cl.clEnqueueReadBufferRect if t == "readr" else cl.clEnqueueWriteBufferRect
            a, b = o["s"], o["t"]
            r = f(q, obj[o["i"]]["h"], o["b"], ocl.sizes(*a["o"]), ocl.sizes(*b["o"]), ocl.sizes(*a["g"]), a["rp"], a["sp"], b["rp"], b["sp"], hp, 0, None, None)
        elif t == "copyr":
            a, b = o["s"], o["t"]
            r = cl.clEnqueueCopyBufferRect(q, obj[o["i"]]["h"], obj[o["j"]]["h"], ocl.sizes(*a["o"]), ocl.sizes(*b["o"]), ocl.sizes(*a["g"]), a["rp"], a["sp"], b["rp"], b["sp"], 0, None, None)
        elif t == "map":
            p = cl.clEnqueueMapBuffer(q, obj[o["i"]]["h"], o["b"], 2 if o["w"] else 1, u(o["off"]), o["n"], 0, None, None, C.byref(er)); r = er.value
            if r == 0 and p: maps[o["m"]] = (p, o["i"], o["off"], o["n"])
            if (r == 0) != bool(p): r = "pointer %s with code %d" % (p, r)
        elif t == "poke":
            C.memmove(maps[o["m"]][0] + o["off"], bytes(o["v"]), len(o["v"])); r = 0
        elif t == "unmap":
            r = cl.clEnqueueUnmapMemObject(q, obj[o["i"]]["h"], maps.pop(o["m"])[0], 0, None, None)
        elif t == "kernel":
            k = _g["k"]
            for i, v in enumerate([("m", obj[o["i"]]["h"]), ("b", o["oa"].to_bytes(4, "little")), ("m", obj[o["j"]]["h"]), ("b", o["ob"].to_bytes(4, "little")),
                                   ("b", o["n"].to_bytes(4, "little")), ("b", o["k"].to_bytes(4, "little"))]): ck(ocl.arg(k, i, v))
            r = ocl.run(q, k, [1], [1])
        ck(cl.clFinish(q))
        # what is different now, through the objects themselves
        ch = []
        for i in sorted(obj):
            if obj[i]["par"]: continue
            v = contents(i)
            if seen.get(i) != v: ch.append([i, v]); seen[i] = v
        # other views of the same bytes
        bad = []
        for i, b in obj.items():
            if b["par"] and contents(i) != seen[b["par"]][b["off"]:b["off"] + b["n"]]: bad.append("sub-buffer %d shows other bytes than its range" % i)
            if b.get("use") and list(b["m"].raw) != seen[i]: bad.append("host storage of buffer %d differs" % i)
        for m, (p, i, off, n) in maps.items():
            b = obj[i]; base = b.get("off", 0) + off; root = b["par"] or i
            if list(C.string_at(p, n)) != seen[root][base:base + n]: bad.append("mapped pointer %d shows other bytes than its range" % m)
        hv = list(host)
        if any(x != 0xA5 for x in hv[:PAD] + hv[-PAD:]): bad.append("host memory outside the area changed")
        hc = hv[PAD:-PAD]
        res.append({"r": r, "b": ch, "h": [] if hc == last_host[0] else hc, "x": extra, "bad": bad, "e": len(ocl.api_errors()) > 0})
        last_host[0] = hc
    for m, (p, i, off, n) in maps.items(): cl.clEnqueueUnmapMemObject(q, obj[i]["h"], p, 0, None, None)
    cl.clFinish(q)
    for i in sorted(obj, key=lambda i: -obj[i]["par"]): cl.clReleaseMemObject(obj[i]["h"])
    return res
