"""Executes histories of QueueGen against the runtime and records what happened."""
import ctypes as C, threading, time
import ocl
from ocl import cl, vp, ck, vptr, i32, u64, size_t

SZ = 16
UB = 1000
SRC = """
__kernel void put(__global uchar *p) { *(__global uint*)p = 0x22222222; }
"""
_g = {}
def setup():
    if _g: return
    ocl.mode(0)
    _g["ctx"] = ocl.context()
    _g["prog"] = ocl.program(_g["ctx"], SRC)
    _g["setupq"] = ocl.queue(_g["ctx"])
    ocl.mode(ocl.ALLOCS); ocl.fetch()
    _g["src"] = ocl.buffer(_g["ctx"], ocl.MEM_RW | ocl.MEM_COPY, SZ, C.create_string_buffer(b"\x22" * SZ, SZ))
    f = FMT(0x10B5, 0x10DA); d = DESC(0x10F4, SZ // 4, 0, 0, 0, 0, 0, 0, 0, None); er = i32()
    _g["srcimg"] = cl.clCreateImage(_g["ctx"], 1 | 32, C.byref(f), C.byref(d), C.create_string_buffer(b"\x22" * SZ, SZ), C.byref(er)); ck(er.value, "image")
    ocl.mode(0); ocl.fetch()
    _g["natcb"] = ocl.NATIVE(_native)
    _g["evcb"] = ocl.EVCB(_evcb)
def _native(p):
    vp.vp_log(b"X %d" % C.cast(p, C.POINTER(u64))[0])
def _evcb(ev, status, data):
    vp.vp_log(b"CB %d %d" % (data or 0, status))

IMG = ("fillimg", "readimg", "writeimg", "copyimg", "mapimg")
class FMT(C.Structure): _fields_ = [("order", C.c_uint32), ("type", C.c_uint32)]
class DESC(C.Structure):
    _fields_ = [("type", C.c_uint32), ("w", size_t), ("h", size_t), ("d", size_t), ("arr", size_t), ("rp", size_t), ("sp", size_t),
                ("ml", C.c_uint32), ("ns", C.c_uint32), ("mem", vptr)]

def run(s):
    setup()
    ctx = _g["ctx"]
    ops, ooo = s["ops"], s["ooo"]
    ocl.api_errors()
    E = C.byref
    MODE = ocl.HOST_MEM | ocl.WI_MEM | ocl.MAPS
    qs = [ocl.queue(ctx, (1 if o else 0) | 2) for o in ooo]
    nu = max([u for o in ops for u in ([o["u"]] if o["o"] == "setu" else [x[0] for x in o.get("set", [])])] +
             [e - UB for o in ops for e in o.get("w", []) + o.get("l", []) + ([o["e"]] if "e" in o else []) if e > UB] + [1])
    er = i32()
    events = {UB + u: cl.clCreateUserEvent(ctx, E(er)) for u in range(1, nu + 1)}
    kinds, bufs, hosts, keep, kern = {}, {}, {}, [], []
    bufidx = {}
    ev = []
    # objects used by the commands are made first, so that the recording only
    # contains what the commands do
    for o in ops:
        if o["o"] != "enq": continue
        c, k = o["c"], o["k"]
        kinds[c] = k
        if k in ("write", "read", "fill", "copy", "wrect", "rrect", "crect", "kernel", "task", "map", "unmap", "migrate", "fillimg",
                 "readimg", "writeimg", "copyimg", "mapimg"):
            ocl.mode(ocl.ALLOCS); ocl.fetch()
            init = C.create_string_buffer(b"\x11" * SZ, SZ)
            if k in IMG:
                f = FMT(0x10B5, 0x10DA); d = DESC(0x10F4, SZ // 4, 0, 0, 0, 0, 0, 0, 0, None)     # 1D RGBA UNSIGNED_INT8
                bufs[c] = cl.clCreateImage(ctx, 1 | 32, E(f), E(d), init, E(er)); ck(er.value, "image")
            else:
                bufs[c] = ocl.buffer(ctx, ocl.MEM_RW | ocl.MEM_COPY, SZ, init)
            al = [l for l in ocl.fetch() if l.startswith("al ")]
            ocl.mode(0)
            bufidx[int(al[-1].split()[1], 16) >> 48] = c
            if k in ("write", "wrect", "writeimg"): hosts[c] = C.create_string_buffer(b"\x22" * SZ, SZ)
            if k in ("read", "rrect", "readimg"): hosts[c] = C.create_string_buffer(b"\x33" * SZ, SZ)
            if k == "unmap":
                p = cl.clEnqueueMapBuffer(_g["setupq"], bufs[c], 1, ocl.MAP_READ, 0, SZ, 0, None, None, E(er)); ck(er.value, "map")
                hosts[c] = p
            if k in ("kernel", "task"):
                kn = ocl.kernel(_g["prog"], "put"); kern.append(kn); hosts[c] = kn
                ck(ocl.arg(kn, 0, ("m", bufs[c])))
    ocl.fetch()
    ocl.mode(MODE)

    def pull():
        for l in ocl.fetch():
            f = l.split()
            if f[0] == "X": ev.append({"t": "x", "c": int(f[1])})
            elif f[0] == "CB": ev.append({"t": "cb", "id": int(f[1]), "s": int(f[2])})
            elif f[0] == "SU": ev.append({"t": "setu", "u": int(f[1]), "v": int(f[2])})
            elif f[0] in ("hl", "hs", "s", "l", "mm", "mu"):
                a = int(f[1] if f[0] in ("mm", "mu") else f[2] if f[0] in ("hl", "hs") else f[3], 16)
                if f[0] in ("s", "l") and f[1] != "1": continue
                c = bufidx.get(a >> 48)
                if c is None: continue
                want = {"write": "hs", "wrect": "hs", "fill": "hs", "fillimg": "hs", "copy": "hs", "crect": "hs", "read": "hl", "rrect": "hl",
                        "kernel": "s", "task": "s", "map": "mm", "unmap": "mu",
                        "readimg": "hl", "writeimg": "hs", "copyimg": "hs", "mapimg": "mm"}.get(kinds[c])
                if f[0] == want: ev.append({"t": "x", "c": c})
    def setu(u, v):
        vp.vp_log(b"SU %d %d" % (u, v))
        ck(cl.clSetUserEventStatus(events[UB + u], v), "setu")
    Z3 = ocl.sizes(0, 0, 0); R1 = ocl.sizes(SZ, 1, 1); I1 = ocl.sizes(SZ // 4, 1, 1)
    held = {}
    for o in ops:
        t = o["o"]
        if t == "enq":
            c, k, q, w, bl = o["c"], o["k"], qs[o["q"] - 1], o["w"], 1 if o["bl"] else 0
            wl = ocl.handles(events[e] for e in w)
            keep.append(wl)
            h = vptr()
            A = (len(w), wl, E(h) if o["ev"] else None)
            b, m = bufs.get(c), hosts.get(c)
            pull()
            ev.append({"t": "enq", "q": o["q"], "k": k, "w": w})
            if k == "write": r = cl.clEnqueueWriteBuffer(q, b, bl, 0, SZ, m, *A)
            elif k == "read": r = cl.clEnqueueReadBuffer(q, b, bl, 0, SZ, m, *A)
            elif k == "wrect": r = cl.clEnqueueWriteBufferRect(q, b, bl, Z3, Z3, R1, 0, 0, 0, 0, m, *A)
            elif k == "rrect": r = cl.clEnqueueReadBufferRect(q, b, bl, Z3, Z3, R1, 0, 0, 0, 0, m, *A)
            elif k == "copy": r = cl.clEnqueueCopyBuffer(q, _g["src"], b, 0, 0, SZ, *A)
            elif k == "crect": r = cl.clEnqueueCopyBufferRect(q, _g["src"], b, Z3, Z3, R1, 0, 0, 0, 0, *A)
            elif k == "fill":
                pat = C.create_string_buffer(b"\x22" * SZ, SZ)
                r = cl.clEnqueueFillBuffer(q, b, pat, SZ, 0, SZ, *A)
            elif k == "fillimg":
                pat = (C.c_uint32 * 4)(0x22, 0x22, 0x22, 0x22)
                r = cl.clEnqueueFillImage(q, b, pat, Z3, ocl.sizes(1, 1, 1), *A)
            elif k == "kernel": r = cl.clEnqueueNDRangeKernel(q, m, 1, None, ocl.sizes(1), ocl.sizes(1), *A)
            elif k == "task": r = cl.clEnqueueTask(q, m, *A)
            elif k == "map":
                cl.clEnqueueMapBuffer(q, b, bl, ocl.MAP_READ, 0, SZ, *A, E(er)); r = er.value
            elif k == "mapimg":
                p = cl.clEnqueueMapImage(q, b, bl, ocl.MAP_READ, Z3, I1, E(size_t()), None, *A, E(er)); r = er.value
                if (not p) != (r != 0): raise Exception("clEnqueueMapImage: pointer %s with status %d" % (p, r))
            elif k == "readimg": r = cl.clEnqueueReadImage(q, b, bl, Z3, I1, 0, 0, m, *A)
            elif k == "writeimg": r = cl.clEnqueueWriteImage(q, b, bl, Z3, I1, 0, 0, m, *A)
            elif k == "copyimg": r = cl.clEnqueueCopyImage(q, _g["srcimg"], b, Z3, Z3, I1, *A)
            elif k == "unmap": r = cl.clEnqueueUnmapMemObject(q, b, m, *A)
            elif k == "migrate": r = cl.clEnqueueMigrateMemObjects(q, 1, E(vptr(b)), 0, *A)
            elif k == "native":
                a = u64(c)
                r = cl.clEnqueueNativeKernel(q, C.cast(_g["natcb"], vptr), E(a), 8, 0, None, None, *A)
            elif k == "marker": r = cl.clEnqueueMarkerWithWaitList(q, *A)
            elif k == "barrier": r = cl.clEnqueueBarrierWithWaitList(q, *A)
            elif k == "marker10":
                r = cl.clEnqueueMarker(q, A[2])
            elif k == "barrier10": r = cl.clEnqueueBarrier(q)
            elif k == "waitev10": r = cl.clEnqueueWaitForEvents(q, len(w), wl)
            else: raise Exception(k)
            if not (bl and r == -14): ck(r, k)
            pull()
            if bl: ev.append({"t": "ended", "c": c, "r": r})
            if o["ev"]:
                events[c] = h.value; held[c] = h.value
                ev.append({"t": "type", "k": k, "s": ocl.info(cl.clGetEventInfo, h, 0x11D1, i32)})
                if ocl.info(cl.clGetEventInfo, h, 0x11D0, u64) != q: ev.append({"t": "type", "k": k, "s": -1})
        elif t == "setu":
            setu(o["u"], o["v"]); pull()
        elif t in ("finish", "flush", "relq"):
            th = None
            if o["set"]:
                def helper():
                    for u, v in o["set"]:
                        time.sleep(0.0005)
                        setu(u, v)
                th = threading.Thread(target=helper)
                th.start()
            q = qs[o["q"] - 1]
            r = (cl.clFinish if t == "finish" else cl.clFlush if t == "flush" else cl.clReleaseCommandQueue)(q)
            if th: th.join()
            ck(r, t)
            pull()
            if t == "relq": qs[o["q"] - 1] = None
            if t == "finish": ev.append({"t": "fin", "q": o["q"]})
        elif t == "waitev":
            l = ocl.handles(events[e] for e in o["l"])
            r = cl.clWaitForEvents(len(o["l"]), l)
            pull()
            ev.append({"t": "wait", "l": o["l"], "r": r})
        elif t == "query":
            ev.append({"t": "status", "e": o["e"], "s": ocl.status(events[o["e"]])})
        elif t == "addcb":
            ev.append({"t": "addcb", "e": o["e"], "id": o["id"]})
            ck(cl.clSetEventCallback(events[o["e"]], o["t"], _g["evcb"], o["id"]), "callback")
            pull()
        elif t == "relev":
            cl.clReleaseEvent(events[o["e"]]); held.pop(o["e"])
        else: raise Exception(t)
    pull()
    ocl.mode(0)
    for q in [x for x in qs if x]: cl.clReleaseCommandQueue(q)
    for c in sorted(held): ev.append({"t": "status", "e": c, "s": ocl.status(held[c])})
    P = []
    for c, h in held.items():
        if ocl.status(h) == 0:
            P.append([c] + [ocl.info(cl.clGetEventProfilingInfo, h, 0x1280 + j, u64) for j in range(4)])
    times = sorted({x for p in P for x in p[1:]})
    rank = {x: i for i, x in enumerate(times)}
    ev.append({"t": "prof", "p": [[p[0]] + [rank[x] for x in p[1:]] for p in P]})
    for c, b in bufs.items():
        k = kinds[c]
        if k in ("migrate", "map", "unmap", "mapimg"): continue
        if k in ("read", "rrect", "readimg"): d, old, new = hosts[c].raw, b"\x33", b"\x11"
        elif k in IMG:
            m = C.create_string_buffer(SZ)
            ck(cl.clEnqueueReadImage(_g["setupq"], b, 1, Z3, ocl.sizes(SZ // 4, 1, 1), 0, 0, m, 0, None, None), "readimage")
            d, old, new = m.raw[:4] if k == "fillimg" else m.raw, b"\x11", b"\x22"
        else: d, old, new = ocl.read(_g["setupq"], b, SZ), b"\x11", b"\x22"
        if k in ("kernel", "task"): d = d[:4]
        ev.append({"t": "buf", "c": c, "v": 0 if d == old * len(d) else 1 if d == new * len(d) else 2})
    for h in list(held.values()) + [events[e] for e in events if e > UB]: cl.clReleaseEvent(h)
    for k in kern: cl.clReleaseKernel(k)
    for b in bufs.values(): cl.clReleaseMemObject(b)
    ocl.fetch()
    return {"ooo": ooo, "ev": ev}
