"""Makes the accepted and rejected calls of an ApiGen history in two contexts.
Reports what each returned, which context was told what, and everything that
can be observed of the objects before and after."""
import ctypes as C, re
import ocl
from ocl import cl, ck, vptr, i32, u32, u64, size_t
from d_queue import FMT, DESC

MAXS = (1 << 64) - 1
SRC = """
__kernel void k(__global uint *o, uint v, __local uint *l) { o[get_global_id(0)] = v; }
__kernel __attribute__((reqd_work_group_size(2,1,1))) void r(__global uint *o) { o[0] = 1; }
__kernel void i(read_only image2d_t a, sampler_t s, __global uint *o) { o[0] = 1; }
"""
BAD = "__kernel void k(__global uint *o) { o[0] = nonsense; }"
ER = {}
for line in """SUCCESS 0 DEVICE_NOT_FOUND -1 MEM_OBJECT_ALLOCATION_FAILURE -4 OUT_OF_RESOURCES -5 OUT_OF_HOST_MEMORY -6 PROFILING_INFO_NOT_AVAILABLE -7
MEM_COPY_OVERLAP -8 IMAGE_FORMAT_MISMATCH -9 IMAGE_FORMAT_NOT_SUPPORTED -10 BUILD_PROGRAM_FAILURE -11 MAP_FAILURE -12 EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST -14
COMPILE_PROGRAM_FAILURE -15 LINK_PROGRAM_FAILURE -17 INVALID_VALUE -30 INVALID_DEVICE -33 INVALID_CONTEXT -34 INVALID_QUEUE_PROPERTIES -35 INVALID_COMMAND_QUEUE -36
INVALID_HOST_PTR -37 INVALID_MEM_OBJECT -38 INVALID_IMAGE_FORMAT_DESCRIPTOR -39 INVALID_SAMPLER -41 INVALID_BINARY -42 INVALID_PROGRAM -44 INVALID_PROGRAM_EXECUTABLE -45
INVALID_KERNEL_NAME -46 INVALID_KERNEL -48 INVALID_ARG_INDEX -49 INVALID_ARG_VALUE -50 INVALID_ARG_SIZE -51 INVALID_KERNEL_ARGS -52 INVALID_WORK_DIMENSION -53
INVALID_WORK_GROUP_SIZE -54 INVALID_WORK_ITEM_SIZE -55 INVALID_EVENT_WAIT_LIST -57 INVALID_EVENT -58 INVALID_OPERATION -59 INVALID_BUFFER_SIZE -61 INVALID_PROPERTY -64
INVALID_IMAGE_DESCRIPTOR -65""".splitlines():
    f = line.split()
    for n, v in zip(f[::2], f[1::2]): ER[int(v)] = n

_told = []
def _cb(msg, p, n, data): _told.append((data, msg.decode("latin1")))
_cb_c = ocl.CTXCB(_cb)
NAT = ocl.NATIVE(lambda p: None)
NOP2 = ocl.MEMCB(lambda a, b: None)
EVNOP = ocl.EVCB(lambda a, b, c: None)
FN = {"nat": C.cast(NAT, vptr).value, "mem": C.cast(NOP2, vptr).value, "ev": C.cast(EVNOP, vptr).value}
E = C.byref
_g = {}

class World: pass
def world(n):
    w = World(); er = i32(); d = vptr(ocl.device)
    w.ctx = cl.clCreateContext(None, 1, E(d), _cb_c, n, E(er)); ck(er.value)
    w.q = ocl.queue(w.ctx, 2); w.q2 = ocl.queue(w.ctx, 1)
    f = lambda v: C.create_string_buffer(bytes([v]) * 64, 64)
    w.b = ocl.buffer(w.ctx, 1 | 32, 64, f(10 * n + 1)); w.b2 = ocl.buffer(w.ctx, 1 | 32, 64, f(10 * n + 2))
    w.no, w.wo, w.ro = (ocl.buffer(w.ctx, 1 | x, 64) for x in (ocl.HOST_NO, ocl.HOST_WO, ocl.HOST_RO))
    w.sub = cl.clCreateSubBuffer(w.b, 0, 0x1220, ocl.sizes(16, 32), E(er)); ck(er.value)
    def img(order, typ, v, flags=33):
        h = cl.clCreateImage(w.ctx, flags, E(FMT(order, typ)), E(DESC(0x10F1, 4, 4, 0, 0, 0, 0, 0, 0, None)), f(v) if flags & 32 else None, E(er)); ck(er.value); return h
    w.img, w.img2 = img(0x10B5, 0x10DA, 10 * n + 3), img(0x10B5, 0x10DA, 10 * n + 4)
    w.imgbgra, w.imgi8 = img(0x10B6, 0x10DA, 0), img(0x10B5, 0x10D7, 0)
    w.imgno, w.imgwo, w.imgro = (img(0x10B5, 0x10DA, 0, 1 | x) for x in (ocl.HOST_NO, ocl.HOST_WO, ocl.HOST_RO))
    w.samp = cl.clCreateSampler(w.ctx, 0, 0x1132, 0x1140, E(er)); ck(er.value)
    w.prog = ocl.program(w.ctx, SRC); w.progu = ocl.program(w.ctx, SRC, build=False); w.progf = ocl.program(w.ctx, BAD, build=False)
    cl.clBuildProgram(w.progf, 0, None, None, None, None)
    w.kern, w.unset, w.reqd, w.kimg, w.big = (ocl.kernel(w.prog, x) for x in ("k", "k", "r", "i", "k"))
    for k in (w.kern, w.big):
        ck(ocl.arg(k, 0, ("m", w.b2))); ck(ocl.arg(k, 1, ("b", bytes([100 + n, 0, 0, 0]))))
    ck(ocl.arg(w.kern, 2, ("l", 16))); ck(ocl.arg(w.big, 2, ("l", 1 << 28)))
    ck(ocl.arg(w.unset, 0, ("m", w.b2))); ck(ocl.arg(w.unset, 1, ("b", b"\1\0\0\0")))
    ck(ocl.arg(w.reqd, 0, ("m", w.b2)))
    ck(ocl.arg(w.kimg, 0, ("m", w.img))); ck(ocl.arg(w.kimg, 1, ("m", w.samp))); ck(ocl.arg(w.kimg, 2, ("m", w.b2)))
    ev = vptr(); ck(cl.clEnqueueMarkerWithWaitList(w.q, 0, None, E(ev))); ck(cl.clFinish(w.q)); w.ev = ev.value
    w.ued, w.uef, w.ue = (cl.clCreateUserEvent(w.ctx, E(er)) for _ in range(3))
    ck(cl.clSetUserEventStatus(w.ued, 0)); ck(cl.clSetUserEventStatus(w.uef, -7))
    w.objs = [("Context", w.ctx), ("CommandQueue", w.q), ("CommandQueue", w.q2)] + [("MemObject", getattr(w, x)) for x in "b b2 no wo ro sub img img2 imgbgra imgi8 imgno imgwo imgro".split()] + \
        [("Sampler", w.samp)] + [("Program", x) for x in (w.prog, w.progu, w.progf)] + [("Kernel", x) for x in (w.kern, w.unset, w.reqd, w.kimg, w.big)] + [("Event", x) for x in (w.ev, w.ued, w.uef, w.ue)]
    return w
def drop(w):
    for k, h in reversed(w.objs): getattr(cl, "clRelease" + k)(h)

def img_bytes(w, i):
    m = C.create_string_buffer(64)
    ck(cl.clEnqueueReadImage(w.q, i, 1, ocl.sizes(0, 0, 0), ocl.sizes(4, 4, 1), 0, 0, m, 0, None, None)); return m.raw
def memory(w):
    return {"b": ocl.read(w.q, w.b, 64).hex(), "b2": ocl.read(w.q, w.b2, 64).hex(), "img": img_bytes(w, w.img).hex(), "img2": img_bytes(w, w.img2).hex()}
def refs(w): return [ocl.refcount(k, h) for k, h in w.objs]
def rest(w):
    """what else can be asked of the objects"""
    r = [ocl.status(e) for e in (w.ev, w.ued, w.uef, w.ue)]
    for p in (w.prog, w.progu, w.progf):
        r += [ocl.info(lambda h, a, b, c, d: cl.clGetProgramBuildInfo(h, ocl.device, a, b, c, d), p, 0x1181, i32), len(ocl.build_log(p))]
    r += [ocl.read(w.q, w.wo if False else w.ro, 64).hex(), img_bytes(w, w.imgro).hex(), img_bytes(w, w.imgbgra).hex(), img_bytes(w, w.imgi8).hex()]
    return r

class Call:
    """arguments of one call by name, in order; post: what to undo if it is accepted"""
    def __init__(self): self.a, self.t, self.post, self.res, self.out, self.keep, self.pre = {}, {}, [], i32, lambda: b"", [], []

P = vptr
def arr(t, *xs): return (t * len(xs))(*xs)
def ptr(x): return vptr(C.addressof(x._obj)) if hasattr(x, "_obj") else C.cast(x, vptr)

def build(f, w, o, a, D):
    """the call f in world w (o the other context's), with defects D"""
    c = Call(); A, T = c.a, c.t
    def put(**kw):
        for n, (t, v) in kw.items(): A[n] = v; T[n] = t
    has = lambda d: d in D
    ev = vptr(0x5A5A5A5A); er = i32(77); c.ev, c.er = ev, er
    hb = C.create_string_buffer(b"\xA5" * 256, 256); c.hb = hb
    def wl(ctx=w, other=o):
        n, l = a["w"], [w.ev, w.ued]
        l = l[:n] if n else []
        num, lst = len(l), (arr(vptr, *l) if l else None)
        if has("w_null"): num, lst = 1 + a["k"] % 2, None
        elif has("w_num0"): num, lst = 0, arr(vptr, w.ev)
        elif has("w_elem0") or has("w_ctx"):
            x = [w.ued, w.ev, w.ev][:1 + a["k"] % 3]
            x[a["k"] // 3 % len(x)] = None if has("w_elem0") else (o.ev if a["k"] // 9 % 2 else o.ued)
            num, lst = len(x), arr(vptr, *x)
        c.keep.append(lst)
        put(wn=(u32, num), wl=(P, ptr(lst) if lst is not None else None), event=(P, ptr(E(ev)) if True else None))
        if not a["ev"] and not D: A["event"] = None
        else: c.post.append(lambda: cl.clReleaseEvent(ev))
        return c
    def errc(kind):
        put(errcode_ret=(P, ptr(E(er)))); c.res = vptr; c.rel = kind
        if a["k"] % 3 == 0: A["errcode_ret"] = None
        if kind: c.post.append(lambda: ck(getattr(cl, "clRelease" + kind)(c.r)))
        return c
    q = None if has("q0") else w.q
    bl = a["bl"]
    def rng(off, n, p="b"):
        k = a["k"]
        if has("past" + p): return (64 - k % 8, k % 8 + 1 + k // 8 % 9) if k % 3 else (65 + k % 7, 1 + k % 4)
        if has("end" + p): return (0, 65 + k % 100) if k % 2 else (64, 1 + k % 5)
        if has("wrap" + p): return [(8, MAXS - 7), (MAXS - 3, 8), (16, MAXS - k % 16), (1 << 63, 1 << 63)][k % 4]
        return off, n
    def buf(h, zero="b0b"):
        if has(zero): return None
        for d, x in (("hostno", w.no), ("hostwo", w.wo), ("hostro", w.ro)):
            if has(d): return x
        return h
    def rect(p, off, host=False):
        """origin and pitches of a rectangle of 4x2x1 bytes, rows 16 bytes apart"""
        orig, rp, sp = [off, 0, 0], 16, 0
        if not host and off >= 16: orig = [off % 16, off // 16, 0]
        if host: orig, rp = [0, 0, 0], 4
        k = a["k"]
        if has("far" + p):
            if host: orig = [MAXS - 1, 0, 0] if k % 2 else [0, MAXS // 4, 1]
            else: orig = [[61, 0, 0], [off % 13, 3, 0], [0, 0, 4], [0, 0, 1 << 40]][k % 4]; sp = 0 if k % 4 != 2 else 32
        if has("row" + p): rp = 1 + k % 3
        if has("slice" + p): sp = 1 + k % (2 * rp - 1)
        return ptr(keep(arr(size_t, *orig))), rp, sp
    def keep(x): c.keep.append(x); return x
    def region(i):
        k = a["k"]; orig = [0, 0, 0]
        if has("ox" + i): orig[0] = 1 + k % 6
        if has("oy" + i): orig[1] = 1 + k % 6
        if has("oz" + i): orig[2] = 1 + k % 2
        if has("wrap" + i): orig[k % 2] = MAXS - k % 3
        g = [4, 4, 1]
        if has("gz" + i): g[2] = 2 + k % 3
        if has("gx" + i): g[0 if k % 2 else 1] = 5 + k % 3
        return orig, g
    def sz(*x): return ptr(keep(arr(size_t, *x)))
    def info(h, good, size, hnull="h0", names=("what", "psize", "pval", "pret")):
        k = a["k"]; need = size_t()
        bad = has("what"); small = has("small")
        put(h=(P, None if has(hnull) else h))
        put(what=(u32, (0x9999, 0, 0xFFFFFFFF, 0x4444)[k % 4] if bad else good), psize=(size_t, (size - 1) * (k % 2) if small else size + (k % 3)), pval=(P, ptr(hb)), pret=(P, ptr(E(keep(need))) if k % 2 else None))
        return c

    if f == "clGetPlatformIDs": put(n=(u32, 1), p=(P, ptr(hb)), r=(P, None))
    elif f == "clGetPlatformInfo": info(ocl.platform, 0x0902, 9)
    elif f == "clGetDeviceIDs": put(p=(P, ocl.platform), type=(u64, 1 << 5 if has("type") else 0xFFFFFFFF), n=(u32, 0 if has("none") else 1), l=(P, ptr(hb)), r=(P, None))
    elif f == "clGetDeviceInfo": info(ocl.device, 0x1002, 4)
    elif f == "clCreateSubDevices": put(d=(P, ocl.device), p=(P, ptr(keep(arr(u64, 0)))), n=(u32, 1), l=(P, ptr(hb)), r=(P, None))
    elif f in ("clCreateContext", "clCreateContextFromType"):
        if f == "clCreateContext":
            n, l = 1, ptr(keep(arr(vptr, ocl.device)))
            if has("num"): n = (0, 2)[a["k"] % 2]
            if has("dev0"): l = None
            if has("badev"): l = ptr(keep(arr(vptr, w.ctx)))
            put(p=(P, None), n=(u32, n), l=(P, l))
        else: put(p=(P, None), type=(u64, 1 << 5 if has("type") else 0xFFFFFFFF))
        put(cb=(P, None), data=(P, 5 if has("data") else None)); errc("Context")
    elif re.match("cl(Retain|Release)", f):
        m = re.match("cl(Retain|Release)(.*)", f)
        h = {"Context": w.ctx, "CommandQueue": w.q, "MemObject": (w.b, w.img, w.sub)[a["k"] % 3], "Sampler": w.samp, "Program": w.prog, "Kernel": w.kern, "Event": (w.ev, w.ue)[a["k"] % 2]}[m[2]]
        put(h=(P, None if has("h0") else h))
        if not D:
            if m[1] == "Retain": c.post.append(lambda: ck(getattr(cl, "clRelease" + m[2])(h)))
            else: ck(getattr(cl, "clRetain" + m[2])(h))
    elif f == "clGetContextInfo": info(w.ctx, (0x1080, 0x1083)[a["k"] % 2], 4)
    elif f == "clSetContextDestructorCallback":
        h = None if has("h0") else w.ctx
        if not D: h = ocl.context(); c.post.append(lambda: cl.clReleaseContext(h))
        put(h=(P, h), fn=(P, None if has("fn0") else FN["mem"]), d=(P, None))
    elif f == "clCreateCommandQueue":
        put(c=(P, None if has("c0") else w.ctx), dev=(P, (None, w.q)[a["k"] % 2] if has("dev") else ocl.device), props=(u64, (4, 8, 7, 1 << 40)[a["k"] % 4] if has("props") else a["k"] % 4)); errc("CommandQueue")
    elif f == "clCreateCommandQueueWithProperties":
        pr = [0x1093, a["k"] % 4, 0]
        if has("ondev"): pr[1] = (4, 5, 8, 12)[a["k"] % 4]
        if has("size"): pr = [0x1094, 64, 0]
        if has("unknown"): pr = [(0x1234, 0x1090)[a["k"] % 2], 1, 0]
        put(c=(P, None if has("c0") else w.ctx), dev=(P, None if has("dev") else ocl.device), props=(P, ptr(keep(arr(u64, *pr))) if pr[1] or D else None)); errc("CommandQueue")
    elif f == "clGetCommandQueueInfo":
        info(w.q, (0x1092, 0x1093)[0], 4)
        if has("ondevsize"): A["what"] = 0x1094
    elif f in ("clCreateBuffer", "clCreateBufferWithProperties"):
        fl, hp = (1, None) if a["k"] % 3 == 0 else (1 | (8 if a["k"] % 3 == 1 else 32), ptr(hb))
        if has("hostextra"): fl, hp = (1, 2, 4, 17)[a["k"] % 4], ptr(hb)
        if has("hostmissing"): fl, hp = 1 | 32, None
        if has("usemissing"): fl, hp = 1 | 8, None
        if has("usecopy"): fl, hp = 1 | 8 | 32, ptr(hb)
        if has("usealloc"): fl, hp = 1 | 8 | 16, ptr(hb)
        put(c=(P, None if has("c0") else w.ctx))
        if "With" in f: put(props=(P, ptr(keep(arr(u64, 0x1234 if has("props") else 0, 1, 0))) if a["k"] % 2 or has("props") else None))
        put(fl=(u64, fl), size=(size_t, 0 if has("size0") else 1 + a["k"] % 100), hp=(P, hp)); errc("MemObject")
    elif f == "clCreateSubBuffer":
        h = None if has("b0") else w.sub if has("sub") else w.b; k = a["k"]
        r = (k % 32, 1 + k % 32)
        if has("past"): r = (64 - k % 8, k % 8 + 1 + k % 3)
        if has("wrap"): r = ((MAXS - 3, 8), (8, MAXS - 7))[k % 2]
        if has("size0"): r = (k % 64, 0)
        put(b=(P, h), fl=(u64, 0), type=(u32, 0x1221 if has("type") else 0x1220), r=(P, None if has("info0") else sz(*r))); errc("MemObject")
    elif f in ("clCreateImage", "clCreateImageWithProperties"):
        k = a["k"]
        d = DESC(0x10F1, 1 + k % 9, 1 + k % 5, 0, 0, 0, 0, 0, 0, None); hp = None; fl = 1
        if has("type"): d.type = (0, 0x10F0, 0x10F7, 0x1234)[k % 4]
        if has("pitch"): fl, hp = 33, ptr(hb); d.w = 4; d.rp = 1 + k % 15
        if has("big"): d = DESC(0x10F6, 17 + k % 9, 0, 0, 0, 0, 0, 0, 0, w.b)
        put(c=(P, None if has("c0") else w.ctx))
        if "With" in f: put(props=(P, ptr(keep(arr(u64, 0x1234 if has("props") else 0, 1, 0))) if a["k"] % 2 or has("props") else None))
        put(fl=(u64, fl), fmt=(P, None if has("fmt0") else ptr(E(keep(FMT(0x10B5, 0x10DA))))), desc=(P, None if has("desc0") else ptr(E(keep(d)))), hp=(P, hp)); errc("MemObject")
    elif f == "clGetSupportedImageFormats": put(c=(P, None if has("c0") else w.ctx), fl=(u64, 1), t=(u32, 0x10F1), n=(u32, 0 if has("none") else 1 + a["k"] % 4), l=(P, ptr(hb)), r=(P, ptr(E(keep(u32())))))
    elif f == "clGetMemObjectInfo": info((w.b, w.img)[a["k"] % 2], *((0x1105, 4), (0x1102, 8))[a["k"] // 2 % 2])
    elif f == "clGetImageInfo": info((w.img, w.imgi8)[a["k"] % 2], *((0x1111, 8), (0x1110, 8))[a["k"] // 2 % 2])
    elif f == "clSetMemObjectDestructorCallback":
        h = None if has("h0") else w.b
        if not D: h = ocl.buffer(w.ctx, 1, 8); c.post.append(lambda: cl.clReleaseMemObject(h))
        put(h=(P, h), fn=(P, None if has("fn0") else FN["mem"]), d=(P, None))
    elif f == "clCreateSampler":
        put(c=(P, None if has("c0") else w.ctx), norm=(u32, a["k"] % 2), addr=(u32, (0, 0x1135, 0x1140)[a["k"] % 3] if has("addr") else 0x1130 + a["k"] % 5), fi=(u32, (0, 0x1142, 0x1131)[a["k"] % 3] if has("filter") else 0x1140 + a["k"] % 2)); errc("Sampler")
    elif f == "clCreateSamplerWithProperties":
        k = a["k"]; pr = [0x1152, k % 2, 0x1153, 0x1130 + k % 5, 0x1154, 0x1140 + k % 2, 0]
        if has("addr"): pr[3] = (0, 0x1135, 0x1140)[k % 3]
        if has("filter"): pr[5] = (0, 0x1142)[k % 2]
        if has("unknown"): pr[k % 3 * 2] = (0x1150, 0x1151, 5)[k // 3 % 3]
        put(c=(P, None if has("c0") else w.ctx), props=(P, ptr(keep(arr(u64, *pr))))); errc("Sampler")
    elif f == "clGetSamplerInfo": info(w.samp, *((0x1150, 4), (0x1153, 4), (0x1154, 4))[a["k"] % 3])
    elif f == "clCreateProgramWithSource":
        s = keep(C.create_string_buffer(SRC.encode()))
        l = ptr(keep(arr(vptr, None if has("elem0") else C.addressof(s))))
        put(c=(P, None if has("c0") else w.ctx), n=(u32, 0 if has("count0") else 1), s=(P, None if has("strings0") else l), len=(P, None)); errc("Program")
    elif f == "clCreateProgramWithBinary":
        if "bin" not in _g:
            n = size_t(); ck(cl.clGetProgramInfo(w.prog, 0x1165, 8, E(n), None)); m = C.create_string_buffer(n.value)
            ck(cl.clGetProgramInfo(w.prog, 0x1166, 8, arr(vptr, C.addressof(m)), None)); _g["bin"], _g["n"] = m, n.value
        bad = keep(C.create_string_buffer(b"BC nonsense" * 4))
        n, l = 1, ptr(keep(arr(vptr, w.q if has("badev") else ocl.device)))
        if has("num"): n = (0, 2)[a["k"] % 2]
        if has("dev0"): l = None
        put(c=(P, None if has("c0") else w.ctx), n=(u32, n), l=(P, l), len=(P, None if has("len0") else sz(40 if has("badbin") else _g["n"])),
            bin=(P, None if has("bin0") else ptr(keep(arr(vptr, C.addressof(bad if has("badbin") else _g["bin"]))))), st=(P, None)); errc("Program")
    elif f == "clCreateProgramWithBuiltInKernels": put(c=(P, None if has("c0") else w.ctx), n=(u32, 1), l=(P, ptr(keep(arr(vptr, ocl.device)))), names=(C.c_char_p, b"k")); errc("Program")
    elif f in ("clBuildProgram", "clCompileProgram"):
        n, l = (0, None) if a["k"] % 2 else (1, ptr(keep(arr(vptr, ocl.device))))
        if has("dev_null"): n, l = 1, None
        if has("dev_num0"): n, l = 0, ptr(keep(arr(vptr, ocl.device)))
        if has("dev_elem0"): n, l = 1, ptr(keep(arr(vptr, None)))
        h = None if has("h0") else w.prog if has("kernels") else w.progf if has("broken") else w.progu
        if not D: h = ocl.program(w.ctx, SRC, build=False); c.post.append(lambda: cl.clReleaseProgram(h))
        put(h=(P, h), n=(u32, n), l=(P, l), o=(C.c_char_p, None))
        if "Compile" in f:
            nh, hh, hn = 0, None, None
            nm = ptr(keep(arr(vptr, C.addressof(keep(C.create_string_buffer(b"x.h"))))))
            if has("hdr_null"): nh, hh, hn = 1, None, nm
            if has("hdr_names"): nh, hh, hn = (0, None, nm) if a["k"] % 2 else (1, ptr(keep(arr(vptr, w.progu))), None)
            if has("hdr_elem0"): nh, hh, hn = 1, ptr(keep(arr(vptr, None))), nm
            put(nh=(u32, nh), hh=(P, hh), hn=(P, hn))
        put(cb=(P, None), data=(P, 5 if has("data") else None))
    elif f == "clLinkProgram":
        n, l = (0, None) if a["k"] % 2 else (1, ptr(keep(arr(vptr, ocl.device))))
        if has("dev_null"): n, l = 1, None
        if has("dev_num0"): n, l = 0, ptr(keep(arr(vptr, ocl.device)))
        if has("dev_elem0"): n, l = 1, ptr(keep(arr(vptr, None)))
        p = None
        if not D:
            p = ocl.program(w.ctx, SRC, build=False); c.post.append(lambda: cl.clReleaseProgram(p))
            ck(cl.clCompileProgram(p, 0, None, None, 0, None, None, None, None))
        m, ins = 1, [p or w.prog]
        if has("elem0"): m, ins = 2, [w.prog, None] if a["k"] % 2 else [None, w.prog]
        if has("unbuilt"): m, ins = (1, [w.progu]) if a["k"] % 2 else (1, [w.progf])
        put(c=(P, None if has("c0") else w.ctx), n=(u32, n), l=(P, l), o=(C.c_char_p, None), m=(u32, 0 if has("none") else m), ins=(P, None if has("in0") else ptr(keep(arr(vptr, *ins)))), cb=(P, None), data=(P, 5 if has("data") else None)); errc("Program")
    elif f == "clGetProgramInfo":
        info(w.progu if has("numk") or has("names") else w.prog, 0x1160, 4)
        if not D and a["k"] % 2: A["what"], A["psize"] = 0x1167, 8
        if has("numk") and not has("what") and not has("small"): A["what"], A["psize"] = 0x1167, 8
        if has("names") and not has("what") and not has("small"): A["what"], A["psize"] = 0x1168, 200
        if has("numk") or has("names"):
            c.unsure = has("what") or has("small")
    elif f == "clGetProgramBuildInfo":
        put(h=(P, None if has("h0") else w.prog), dev=(P, ocl.device)); info(w.prog, 0x1181, 4); A["h"] = None if has("h0") else w.prog
    elif f == "clCreateKernel":
        h = None if has("h0") else w.progu if has("unbuilt") else w.progf if has("failed") else w.prog
        put(h=(P, h), name=(C.c_char_p, None if has("name0") else (b"", b"K", b"kk", b"nonsense")[a["k"] % 4] if has("unknown") else (b"k", b"r", b"i")[a["k"] % 3])); errc("Kernel")
    elif f == "clCreateKernelsInProgram":
        h = None if has("h0") else w.progu if has("unbuilt") else w.prog
        ks = keep((vptr * 3)())
        put(h=(P, h), n=(u32, a["k"] % 3 if has("few") else 3), ks=(P, ptr(ks)), r=(P, None)); c.outs = ks
        c.post.append(lambda: [ck(cl.clReleaseKernel(x)) for x in ks])
    elif f == "clCloneKernel": put(h=(P, None if has("h0") else w.kern)); errc("Kernel")
    elif f == "clSetKernelArg":
        k = a["k"]; v = keep(C.create_string_buffer(bytes([a["v"], 0, 0, 0]) + b"\7" * 60, 64))
        h, i, s, p = w.kern, 1, 4, ptr(v)
        if has("index"): i = (3, 4, 100)[k % 3]
        if has("index2"): h, i = w.reqd, (1, 2, MAXS >> 32)[k % 3]
        if has("vsize"): s = (0, 1, 3)[k % 3]
        if has("vsize2"): s = (5, 8, 64)[k % 3]
        if has("msize"): i, s, p = 0, (4, 0, 16)[k % 3], ptr(keep(arr(vptr, w.b, w.b)))
        if has("vnull"): p = None
        if has("lsize"): i, s, p = 2, 0, None
        if has("lvalue"): i, s, p = 2, 16, ptr(v)
        if has("isize"): h, i, s, p = w.kimg, 0, (4, 16)[k % 2], ptr(keep(arr(vptr, w.img, w.img)))
        if has("snull"): h, i, s, p = w.kimg, 1, 8, None
        if has("szero"): h, i, s, p = w.kimg, 1, 8, ptr(keep(arr(vptr, None)))
        if has("ssize"): h, i, s, p = w.kimg, 1, (4, 16)[k % 2], ptr(keep(arr(vptr, w.samp, w.samp)))
        put(h=(P, None if has("h0") else h), i=(u32, i), s=(size_t, s), p=(P, p))
    elif f == "clGetKernelInfo": info(w.kern, *((0x1191, 4), (0x1192, 4))[a["k"] % 2])
    elif f == "clGetKernelArgInfo":
        put(h=(P, None), i=(u32, (3, 9)[a["k"] % 2] if has("index") else 0)); info(w.kern, *((0x1196, 4), (0x119A, 3))[a["k"] % 2 if not has("small") else 0])
        if not has("small"): A["psize"] = 20
    elif f == "clGetKernelWorkGroupInfo":
        put(h=(P, None), dev=(P, (None, w.q)[a["k"] % 2] if has("dev0") else ocl.device)); info(w.kern, *((0x11B0, 8), (0x11B1, 24))[a["k"] % 2])
        if has("gws"): A["what"] = 0x11B5; A["psize"] = 24
    elif f == "clWaitForEvents":
        l = [w.ev, w.ued][:1 + a["k"] % 2]
        if has("failed"): l = [w.uef] if a["k"] % 2 else [w.ev, w.uef, w.ued]
        put(n=(u32, 0 if has("none") else len(l)), l=(P, None if has("list0") else ptr(keep(arr(vptr, *l)))))
    elif f == "clGetEventInfo": info((w.ev, w.ue)[a["k"] % 2], *((0x11D3, 4), (0x11D2, 4))[a["k"] // 2 % 2])
    elif f == "clCreateUserEvent": put(c=(P, None if has("c0") else w.ctx)); errc("Event")
    elif f == "clSetUserEventStatus":
        h = None if has("h0") else w.ev if has("command") else w.ued if has("again") else w.uef if has("againfailed") else w.ue
        if not D: h = cl.clCreateUserEvent(w.ctx, E(er)); c.post.append(lambda: cl.clReleaseEvent(h)); er.value = 77
        put(h=(P, h), s=(i32, 1 + a["k"] % 4 if has("positive") else -(a["k"] % 3)))
    elif f == "clSetEventCallback":
        h = None if has("h0") else w.ev
        put(h=(P, h), t=(i32, (3, 4, 100)[a["k"] % 3] if has("type") else (-1, -59)[a["k"] % 2] if has("type2") else 0), fn=(P, None if has("fn0") else FN["ev"]), d=(P, None))
    elif f == "clGetEventProfilingInfo": info((w.ue, w.ued)[a["k"] % 2] if has("user") else w.ev, 0x1280 + a["k"] % 4, 8)
    elif f in ("clFlush", "clFinish"): put(h=(P, None if has("h0") else (w.q, w.q2)[a["k"] % 2]))
    elif f in ("clEnqueueReadBuffer", "clEnqueueWriteBuffer"):
        off, n = rng(a["o"], a["n"])
        if "Write" in f: C.memmove(hb, bytes((a["v"] + 1 + i) % 256 for i in range(256)), 256)
        else: c.out = lambda: hb.raw[:a["n"]]
        put(q=(P, q), b=(P, buf(w.b)), bl=(u32, bl), off=(size_t, off), n=(size_t, n), p=(P, None if has("ptr0") else ptr(hb))); wl()
    elif f in ("clEnqueueReadBufferRect", "clEnqueueWriteBufferRect"):
        bo, bp, bs = rect("b", a["ro"]); ho, hp, hs = rect("h", 0, True)
        if "Write" in f: C.memmove(hb, bytes((a["v"] + 1 + i) % 256 for i in range(256)), 256)
        else: c.out = lambda: hb.raw[:8]
        put(q=(P, q), b=(P, buf(w.b)), bl=(u32, bl), bo=(P, bo), ho=(P, ho), g=(P, sz(4, 2, 1)), brp=(size_t, bp), bsp=(size_t, bs), hrp=(size_t, hp), hsp=(size_t, hs), p=(P, None if has("ptr0") else ptr(hb)))
        if has("sliceb") or has("sliceh"): A["g"] = sz(4, 2, 2)
        wl()
    elif f == "clEnqueueCopyBuffer":
        (so, n), (do, n2) = rng(a["o"], a["n"], "a"), rng(a["o2"], a["n"], "b")
        s, d = w.b, w.b2
        if has("pasta") or has("enda") or has("wrapa") or True:
            if n == a["n"]: n = n2
        if has("overlap"): s, d, so, do, n = w.b, w.b, a["k"] % 20, a["k"] % 20 + a["k"] // 20 % 9, 10
        if has("overlap2"): s, d, so, do, n = w.b, w.b, a["k"] % 20 + a["k"] // 20 % 9, a["k"] % 20, 10
        if has("overlapsub"): s, d, so, do, n = (w.b, w.sub, 16 + a["k"] % 6, a["k"] % 6, 6) if a["k"] % 2 else (w.sub, w.b, a["k"] % 6, 16 + a["k"] % 6, 6)
        put(q=(P, q), a=(P, None if has("b0a") else s), b=(P, None if has("b0b") else d), so=(size_t, so), do=(size_t, do), n=(size_t, n)); wl()
    elif f == "clEnqueueCopyBufferRect":
        ao, ap, as_ = rect("a", a["ro"]); bo, bp, bs = rect("b", a["ro2"]); s, d = w.b, w.b2
        if has("overlap"): s = d = w.b; ao, bo, ap, bp, as_, bs = sz(a["k"] % 4, 0, 0), sz(a["k"] % 4 + a["k"] // 4 % 4, 0, 0), 16, 16, 0, 0
        put(q=(P, q), a=(P, None if has("b0a") else s), b=(P, None if has("b0b") else d), ao=(P, ao), bo=(P, bo), g=(P, sz(4, 2, 1)), arp=(size_t, ap), asp=(size_t, as_), brp=(size_t, bp), bsp=(size_t, bs))
        if has("slicea") or has("sliceb"): A["g"] = sz(4, 2, 2)
        wl()
    elif f == "clEnqueueFillBuffer":
        k = a["k"]; off, n = rng(a["o"] - a["o"] % 4, a["n"] - a["n"] % 4)
        if off % 4 and not has("wrapb"): off, n = off + 4 - off % 4, n + 4 - n % 4
        elif n % 4: n += 4 - n % 4
        if has("wrapb"): off, n = [(8, MAXS - 7), (MAXS - 3, 8), (16, MAXS - 15), (1 << 63, 1 << 63)][k % 4]
        if has("offalign"): off, n = 1 + k % 3, 8
        if has("sizealign"): off, n = 8, 5 + k % 3
        pat = keep(C.create_string_buffer(bytes((a["v"] + i) % 256 for i in range(4)), 4))
        put(q=(P, q), b=(P, buf(w.b)), pat=(P, None if has("pat0") else ptr(pat)), ps=(size_t, 0 if has("psize0") else 4), off=(size_t, off), n=(size_t, n)); wl()
    elif f in ("clEnqueueFillImage", "clEnqueueReadImage", "clEnqueueWriteImage"):
        orig, g = region("i")
        put(q=(P, q), i=(P, None if has("b0i") else w.img))
        if "Fill" in f: put(col=(P, None if has("color0") else ptr(keep(arr(u32, *[a["v"]] * 4)))))
        else: put(bl=(u32, bl))
        put(o=(P, sz(*orig)), g=(P, sz(*g)))
        if "Fill" not in f: put(rp=(size_t, 16 if has("slice") else (0, 16)[a["k"] % 2]), sp=(size_t, 1 + a["k"] % 15 if has("slice") else 0), p=(P, ptr(hb)))
        if "Write" in f: C.memmove(hb, bytes((a["v"] + 1 + i) % 256 for i in range(256)), 256)
        if "Read" in f: c.out = lambda: hb.raw[:64]
        wl()
    elif f == "clEnqueueCopyImage":
        (o1, g), (o2, g2) = region("i"), region("j")
        if has("gzj") or has("gxj"): g = g2
        j = None if has("b0j") else w.imgbgra if has("order") else w.imgi8 if has("type") else w.img2
        put(q=(P, q), i=(P, None if has("b0i") else w.img), j=(P, j), o=(P, sz(*o1)), o2=(P, sz(*o2)), g=(P, sz(*g))); wl()
    elif f == "clEnqueueCopyImageToBuffer":
        orig, g = region("i"); put(q=(P, q), i=(P, None if has("b0i") else w.img), b=(P, None if has("b0b") else w.b2), o=(P, sz(*orig)), g=(P, sz(*g)), off=(size_t, 0)); wl()
    elif f == "clEnqueueCopyBufferToImage":
        orig, g = region("i"); put(q=(P, q), b=(P, None if has("b0b") else w.b2), i=(P, None if has("b0i") else w.img), off=(size_t, 0), o=(P, sz(*orig)), g=(P, sz(*g))); wl()
    elif f in ("clEnqueueMapBuffer", "clEnqueueMapImage"):
        fl, isb = 1, "Buffer" in f
        m = w.b if isb else w.img
        if has("nowrite"): fl, m = (2, 3)[a["k"] % 2], w.ro if isb else w.imgro
        if has("nowrite2"): fl, m = 2, w.no
        if has("noread"): fl, m = (1, 3)[a["k"] % 2], w.wo if isb else w.imgwo
        if has("noread2"): fl, m = 1, w.no
        if has("b0b") or has("b0i"): m = None
        put(q=(P, q), m=(P, m), bl=(u32, 1 if not D else bl), fl=(u64, fl))
        if isb:
            off, n = rng(a["o"], a["n"]); put(off=(size_t, off), n=(size_t, n))
        else:
            orig, g = region("i"); rp = keep(size_t()); put(o=(P, sz(*orig)), g=(P, sz(*g)), rp=(P, None if has("pitch0") else ptr(E(rp))), sp=(P, None))
        wl(); c.res = vptr; put(errcode_ret=(P, ptr(E(er)) if a["k"] % 3 else None))
        if not D: c.out = lambda: C.string_at(c.r, a["n"] if isb else 64)
        c.post.append(lambda: (ck(cl.clEnqueueUnmapMemObject(w.q, m, c.r, 0, None, None)), ck(cl.clFinish(w.q))))
    elif f == "clEnqueueUnmapMemObject":
        p = ptr(hb)
        if not D: p = cl.clEnqueueMapBuffer(w.q, w.b, 1, 1, 0, 8, 0, None, None, E(er)); er.value = 77
        put(q=(P, q), m=(P, None if has("b0b") else w.b), p=(P, None if has("ptr0") else p)); wl()
    elif f == "clEnqueueMigrateMemObjects": put(q=(P, q), n=(u32, 1), l=(P, ptr(keep(arr(vptr, w.b)))), fl=(u64, 1)); wl()
    elif f in ("clEnqueueNDRangeKernel", "clEnqueueTask"):
        k = a["k"]; kern = w.kern; dim, g, l = 1, [4, 1, 1, 1], [2, 1, 1, 1] if k % 2 else None
        if has("k0"): kern = None
        if has("unset"): kern = w.unset
        if has("biglocal"): kern = w.big
        if has("reqd") or has("reqd2"): kern = w.reqd; l = [4, 1, 1, 1] if has("reqd") else [1, 1, 1, 1]
        if has("dim0"): dim = 0
        if has("dim4"): dim = (4, 5, 1 << 31)[k % 3]
        if has("local0"): l = [0, 1, 1, 1]
        if has("uneven"): l = [3, 1, 1, 1]
        if has("item"): g, l = [1 << 20] * 4, [1 << 16, 1, 1, 1]
        if has("group"): dim, g, l = (2, [64, 64, 1, 1], [64, 64, 1, 1]) if k % 2 else (3, [32, 16, 8, 1], [32, 16, 8, 1])
        put(q=(P, q), k=(P, kern))
        if "Task" not in f: put(dim=(u32, dim), o=(P, None), g=(P, sz(*g)), l=(P, sz(*l) if l else None))
        wl()
    elif f == "clEnqueueNativeKernel":
        args, n, num, ml, loc = ptr(hb), 16, 1, ptr(keep(arr(vptr, w.b))), ptr(keep(arr(vptr, C.addressof(hb))))
        if not D and a["k"] % 2: num, ml, loc = 0, None, None
        if has("args0") or has("args0size"):
            args = None; num, ml, loc = (num, ml, loc) if has("args0") and a["k"] % 2 else (0, None, None)
            if has("args0") and num: n = 0
        if has("argssize0"): n = 0
        if has("mem0"): ml = None
        if has("loc0"): loc = None
        if has("num0"): num, loc = 0, None
        if has("num0loc"): num, ml = 0, None
        if has("elem0"): ml = ptr(keep(arr(vptr, None)))
        put(q=(P, q), fn=(P, None if has("fn0") else FN["nat"]), args=(P, args), n=(size_t, n), num=(u32, num), ml=(P, ml), loc=(P, loc)); wl()
        c.hb = None
    elif f in ("clEnqueueMarkerWithWaitList", "clEnqueueBarrierWithWaitList"): put(q=(P, q)); wl()
    elif f == "clEnqueueMarker": put(q=(P, q), event=(P, ptr(E(ev)))); c.post.append(lambda: cl.clReleaseEvent(ev))
    elif f == "clEnqueueBarrier": put(q=(P, q))
    elif f == "clEnqueueWaitForEvents": put(q=(P, q), n=(u32, 1), l=(P, ptr(keep(arr(vptr, w.ev)))))
    else: raise Exception("unknown function " + f)
    return c

def run(s):
    ocl.mode(0)
    _told.clear()
    W = [world(1), world(2)]
    out = []
    try:
        _told.clear()
        for op in s["ops"]:
            w, o = W[op["c"] - 1], W[2 - op["c"]]
            D = set(op["ds"])
            before = (refs(w), refs(o)); bmem = memory(o), rest(w), rest(o)
            c = build(op["f"], w, o, op["a"], D)
            fn = getattr(cl, op["f"])
            hb0 = c.hb.raw if c.hb is not None else None
            T = list(_told); _told.clear()
            proto = C.CFUNCTYPE(c.res, *[c.t[n] for n in c.a])
            r = proto(C.cast(fn, vptr).value)(*c.a.values())
            told = list(_told); _told.clear()
            c.r = r
            code = r if c.res is i32 else (c.er.value if c.a.get("errcode_ret") is not None else (0 if r else -999))      # -999: NULL, and the caller did not ask for the code
            res = {"code": ER.get(code, "" if code == -999 else str(code)), "told": [[d, m.group(1), m.group(2)] if (m := re.search(r"Function: (\w+)\n\s*Error:\s+CL_(\w+)\n", x)) else [d, x, ""] for d, x in told], "early": len(T), "bad": []}
            if c.res is vptr and (r is not None) != (code == 0): res["bad"].append("returned %s with code %d" % ("an object" if r else "NULL", code))
            if code == 0:
                if D: out.append(res); break
                ck(cl.clFinish(w.q))
                res["out"] = c.out().hex()
                if c.res is vptr and c.a.get("errcode_ret") is None: pass
                for p in c.post: p()
            else:
                if c.ev.value != 0x5A5A5A5A: res["bad"].append("the event was set")
                if hb0 is not None and c.hb.raw != hb0: res["bad"].append("memory of the application changed")
                if hasattr(c, "outs") and any(c.outs): res["bad"].append("kernels were returned")
                after = (refs(w), refs(o))
                if after != before:
                    res["bad"].append("reference counts changed: " + ", ".join("%s %d: %s -> %s" % (k, j, x, y) for q in (0, 1) for j, ((k, h), x, y) in enumerate(zip(W[q].objs, (before[0] if W[q] is w else before[1]), (after[0] if W[q] is w else after[1]))) if x != y))
                ck(cl.clFinish(w.q)); ck(cl.clFinish(w.q2))
                if hb0 is not None and c.hb.raw != hb0: res["bad"].append("memory of the application changed later")
            fin = (refs(w), refs(o))
            if fin != before: res["bad"].append("reference counts differ afterwards: " + ", ".join("%s %d: %s -> %s" % (k, j, x, y) for q in (0, 1) for j, ((k, h), x, y) in enumerate(zip(W[q].objs, (before[0] if W[q] is w else before[1]), (fin[0] if W[q] is w else fin[1]))) if x != y))
            res["mem"] = memory(w)
            if (memory(o), rest(w), rest(o)) != bmem: res["bad"].append("other objects changed")
            late = list(_told); _told.clear()
            if late: res["bad"].append("told later: " + late[0][1].strip())
            out.append(res)
    finally:
        for w in W: drop(w)
    return out
