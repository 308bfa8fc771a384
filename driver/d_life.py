"""Creates, uses and releases objects as LifeGen says; reports reference counts,
destructor callbacks and freed device memory after every step."""
import ctypes as C
import ocl
from ocl import cl, vp, ck, vptr, i32, u64, size_t
from d_queue import FMT, DESC

SRC = "__kernel void two(__global uchar *a, __global uchar *b) { if (a) *a = 7; if (b) *b = 8; }"
_g = {}
SZ = 64
def setup():
    if _g: return
    ocl.mode(0)
    ctx = ocl.context(); p = ocl.program(ctx, SRC)
    n = size_t()
    ck(cl.clGetProgramInfo(p, 0x1165, 8, C.byref(n), None))
    b = C.create_string_buffer(n.value); pb = C.c_char_p(C.addressof(b))
    arr = (vptr * 1)(C.addressof(b))
    ck(cl.clGetProgramInfo(p, 0x1166, 8, arr, None))
    _g["bin"] = b; _g["n"] = n.value
    cl.clReleaseProgram(p); cl.clReleaseContext(ctx)
    _g["cb"] = ocl.MEMCB(lambda o, d: vp.vp_log(b"CB %d" % (d or 0)))

REF = {"ctx": "Context", "queue": "CommandQueue", "buffer": "MemObject", "sub": "MemObject", "imgbuf": "MemObject", "image": "MemObject", "sampler": "Sampler",
       "program": "Program", "kernel": "Kernel", "uevent": "Event", "event": "Event"}

def run(s):
    setup()
    er = i32(); E = C.byref
    H, K, addr, cbobj, size = {}, {}, {}, {}, {}
    keep, out = [], []
    app = {}
    Z3, R1 = ocl.sizes(0, 0, 0), ocl.sizes(4, 1, 1)
    ocl.mode(ocl.ALLOCS); ocl.fetch()
    for o in s["ops"]:
        t = o["o"]
        new = None
        if t == "create":
            i, k, par = o["id"], o["k"], o["par"]
            p = H[par[0]] if par else None
            if k == "ctx": h = ocl.context()
            elif k == "queue" and i % 2:
                props = (u64 * 3)(0x1093, o["ooo"], 0)
                h = cl.clCreateCommandQueueWithProperties(p, ocl.device, props, E(er)); ck(er.value)
            elif k == "queue": h = cl.clCreateCommandQueue(p, ocl.device, o["ooo"], E(er)); ck(er.value)
            elif k == "buffer":
                m = C.create_string_buffer(SZ); keep.append(m); size[i] = SZ
                h = ocl.buffer(p, ocl.MEM_RW | (8 if o["use"] else 0), SZ, m if o["use"] else None)
            elif k == "sub":
                h = cl.clCreateSubBuffer(p, 0, 0x1220, ocl.sizes(16, 16), E(er)); ck(er.value); size[i] = 16
            elif k in ("imgbuf", "image"):
                f = FMT(0x10B0, 0x10DA); d = DESC(0x10F6 if k == "imgbuf" else 0x10F4, 16, 0, 0, 0, 0, 0, 0, 0, p if k == "imgbuf" else None)
                c = p
                if k == "imgbuf":
                    c = ocl.info(cl.clGetMemObjectInfo, p, 0x1106, u64)
                h = cl.clCreateImage(c, 1, E(f), E(d), None, E(er)); ck(er.value)
            elif k == "sampler" and i % 2: h = cl.clCreateSampler(p, 0, 0x1131, 0x1140, E(er)); ck(er.value)
            elif k == "sampler":
                props = (u64 * 3)(0x1153, 0x1132, 0)
                h = cl.clCreateSamplerWithProperties(p, props, E(er)); ck(er.value)
            elif k == "program":
                ln = size_t(_g["n"]); bp = (vptr * 1)(C.addressof(_g["bin"])); dv = vptr(ocl.device)
                h = cl.clCreateProgramWithBinary(p, 1, E(dv), E(ln), bp, None, E(er)); ck(er.value)
                ck(cl.clBuildProgram(h, 0, None, None, None, None), "build")
            elif k == "kernel" and i % 3 == 1:
                ks = (vptr * 1)(); ck(cl.clCreateKernelsInProgram(p, 1, ks, None)); h = ks[0]
            elif k == "kernel" and i % 3 == 2:
                k0 = ocl.kernel(p, "two"); h = cl.clCloneKernel(k0, E(er)); ck(er.value); ck(cl.clReleaseKernel(k0))
            elif k == "kernel": h = ocl.kernel(p, "two")
            elif k == "uevent": h = cl.clCreateUserEvent(p, E(er)); ck(er.value)
            H[i], K[i], app[i] = h, k, 1
            if k in ("buffer", "image"): new = i
        elif t == "retain":
            ck(getattr(cl, "clRetain" + REF[K[o["id"]]])(H[o["id"]])); app[o["id"]] += 1
        elif t == "release":
            ck(getattr(cl, "clRelease" + REF[K[o["id"]]])(H[o["id"]])); app[o["id"]] -= 1
        elif t == "setcb":
            i = o["id"]; cbobj[o["cb"]] = i
            ck((cl.clSetContextDestructorCallback if K[i] == "ctx" else cl.clSetMemObjectDestructorCallback)(H[i], _g["cb"], o["cb"]), "setcb")
        elif t == "arg":
            ck(ocl.arg(H[o["id"]], o["i"] - 1, ("m", H[o["m"]])) if o["m"] > 0 else cl.clSetKernelArg(H[o["id"]], o["i"] - 1, 8, None if o["i"] == 1 else E(vptr())), "arg")
        elif t == "enq":
            wl = ocl.handles([H[o["u"]]] + [H[e] for e in o["w"]]); keep.append(wl)
            ev = vptr()
            A = (1 + len(o["w"]), wl, E(ev) if o["ev"] else None)
            q, a, b, k = H[o["q"]], H.get(o["a"]), H.get(o["b"]), o["k"]
            m = C.create_string_buffer(SZ); keep.append(m)
            if k == "kernel": r = cl.clEnqueueNDRangeKernel(q, a, 1, None, ocl.sizes(1), ocl.sizes(1), *A)
            elif k == "write": r = cl.clEnqueueWriteBuffer(q, a, 0, 0, 4, m, *A)
            elif k == "read": r = cl.clEnqueueReadBuffer(q, a, 0, 0, 4, m, *A)
            elif k == "wrect": r = cl.clEnqueueWriteBufferRect(q, a, 0, Z3, Z3, R1, 0, 0, 0, 0, m, *A)
            elif k == "fill": r = cl.clEnqueueFillBuffer(q, a, m, 4, 0, 4, *A)
            elif k == "copy": r = cl.clEnqueueCopyBuffer(q, a, b, 0, 0, 4, *A)
            elif k == "map": cl.clEnqueueMapBuffer(q, a, 0, 1, 0, 4, *A, E(er)); r = er.value
            elif k == "marker": r = cl.clEnqueueMarkerWithWaitList(q, *A)
            ck(r, k)
            if o["ev"]: H[o["ev"]], K[o["ev"]], app[o["ev"]] = ev.value, "event", 1
        elif t == "drain":
            for u in o["u"]: ck(cl.clSetUserEventStatus(H[u], -5 if o["fail"] else 0))
            for q in o["q"]: ck(cl.clFinish(H[q]))
        log = ocl.fetch()
        x = {"rc": [], "cb": [], "de": []}
        cbs, de = {}, set()
        for l in log:
            f = l.split()
            if f[0] == "CB": cbs.setdefault(cbobj.get(int(f[1]), -1), []).append(int(f[1]))
            elif f[0] == "al" and new: addr[f[1], f[4]] = new
            elif f[0] == "de": de.add(addr.pop((f[1], f[2]), -1))
        x["cb"] = [[i, cbs[i]] for i in sorted(cbs)]
        x["de"] = sorted(de)
        for i in sorted(app):
            if app[i] > 0 and K[i] != "ctx": x["rc"].append([i, ocl.refcount(REF[K[i]], H[i])])
            elif app[i] > 0: ocl.refcount("Context", H[i])
        out.append(x)
    ocl.mode(0)
    return out
