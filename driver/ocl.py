"""ctypes bindings to the Oclgrind runtime built from /repo's working tree."""
import ctypes as C, os

BUILD = os.environ.get("VF_BUILD", "/verif/build")
_plug = os.path.join(BUILD, "vplugin.so")
os.environ["OCLGRIND_PLUGINS"] = _plug

cl = C.CDLL(os.path.join(BUILD, "ocl", "liboclgrind-rt.so"), mode=C.RTLD_GLOBAL)
vp = C.CDLL(_plug, mode=C.RTLD_GLOBAL)
vp.vp_size.restype = C.c_size_t
vp.vp_fetch.restype = C.c_size_t
vp.vp_fetch.argtypes = [C.c_char_p, C.c_size_t]
vp.vp_log.argtypes = [C.c_char_p]

HOST_MEM, KERNELS, ALLOCS, MAPS, WI_MEM, GROUPS, ITEMS, MESSAGES, INSTS, ATOMICS, PERTURB, WG_MEM, OPCODES, HISTO = [1 << i for i in range(14)]

def mode(m): vp.vp_mode(m)
def log(s): vp.vp_log(s.encode())
def fetch():
    n = vp.vp_size()
    if not n: return []
    b = C.create_string_buffer(n)
    n = vp.vp_fetch(b, n)
    return b.raw[:n].decode("latin1").splitlines()

libc = C.CDLL(None)
def setenv(k, v):
    if v is None: os.environ.pop(k, None)
    else: os.environ[k] = str(v)

vptr, size_t, i32, u32, u64 = C.c_void_p, C.c_size_t, C.c_int32, C.c_uint32, C.c_uint64
P = C.POINTER

def _f(name, res, *args):
    f = getattr(cl, name)
    f.restype = res
    f.argtypes = list(args)
    return f

EVCB = C.CFUNCTYPE(None, vptr, i32, vptr)
MEMCB = C.CFUNCTYPE(None, vptr, vptr)
NATIVE = C.CFUNCTYPE(None, vptr)
CTXCB = C.CFUNCTYPE(None, C.c_char_p, vptr, size_t, vptr)
PROGCB = C.CFUNCTYPE(None, vptr, vptr)

WL = (u32, vptr, vptr)   # num_events, wait list, event out
_f("clGetPlatformIDs", i32, u32, vptr, vptr)
_f("clGetDeviceIDs", i32, vptr, u64, u32, vptr, vptr)
_f("clCreateContext", vptr, vptr, u32, vptr, CTXCB, vptr, vptr)
for n in "Context CommandQueue MemObject Event Kernel Program Sampler".split():
    _f("clRetain" + n, i32, vptr)
    _f("clRelease" + n, i32, vptr)
_f("clCreateCommandQueue", vptr, vptr, vptr, u64, vptr)
_f("clCreateCommandQueueWithProperties", vptr, vptr, vptr, vptr, vptr)
_f("clCreateBuffer", vptr, vptr, u64, size_t, vptr, vptr)
_f("clCreateBufferWithProperties", vptr, vptr, vptr, u64, size_t, vptr, vptr)
_f("clCreateSubBuffer", vptr, vptr, u64, u32, vptr, vptr)
_f("clCreateImage", vptr, vptr, u64, vptr, vptr, vptr, vptr)
_f("clCreateSampler", vptr, vptr, u32, u32, u32, vptr)
_f("clCreateSamplerWithProperties", vptr, vptr, vptr, vptr)
_f("clCloneKernel", vptr, vptr, vptr)
_f("clSetMemObjectDestructorCallback", i32, vptr, MEMCB, vptr)
_f("clSetContextDestructorCallback", i32, vptr, MEMCB, vptr)
_f("clCreateProgramWithSource", vptr, vptr, u32, vptr, vptr, vptr)
_f("clCreateProgramWithBinary", vptr, vptr, u32, vptr, vptr, vptr, vptr, vptr)
_f("clBuildProgram", i32, vptr, u32, vptr, C.c_char_p, vptr, vptr)
_f("clCompileProgram", i32, vptr, u32, vptr, C.c_char_p, u32, vptr, vptr, vptr, vptr)
_f("clLinkProgram", vptr, vptr, u32, vptr, C.c_char_p, u32, vptr, vptr, vptr, vptr)
_f("clCreateKernel", vptr, vptr, C.c_char_p, vptr)
_f("clCreateKernelsInProgram", i32, vptr, u32, vptr, vptr)
_f("clSetKernelArg", i32, vptr, u32, size_t, vptr)
_f("clGetKernelArgInfo", i32, vptr, u32, u32, size_t, vptr, vptr)
_f("clGetKernelWorkGroupInfo", i32, vptr, vptr, u32, size_t, vptr, vptr)
_f("clGetProgramBuildInfo", i32, vptr, vptr, u32, size_t, vptr, vptr)
for n in "Context CommandQueue MemObject Event Kernel Program Sampler".split():
    _f("clGet" + n + "Info", i32, vptr, u32, size_t, vptr, vptr)
_f("clGetImageInfo", i32, vptr, u32, size_t, vptr, vptr)
_f("clGetEventProfilingInfo", i32, vptr, u32, size_t, vptr, vptr)
_f("clCreateUserEvent", vptr, vptr, vptr)
_f("clSetUserEventStatus", i32, vptr, i32)
_f("clSetEventCallback", i32, vptr, i32, EVCB, vptr)
_f("clWaitForEvents", i32, u32, vptr)
_f("clFlush", i32, vptr)
_f("clFinish", i32, vptr)
_f("clEnqueueReadBuffer", i32, vptr, vptr, u32, size_t, size_t, vptr, *WL)
_f("clEnqueueWriteBuffer", i32, vptr, vptr, u32, size_t, size_t, vptr, *WL)
_f("clEnqueueReadBufferRect", i32, vptr, vptr, u32, vptr, vptr, vptr, size_t, size_t, size_t, size_t, vptr, *WL)
_f("clEnqueueWriteBufferRect", i32, vptr, vptr, u32, vptr, vptr, vptr, size_t, size_t, size_t, size_t, vptr, *WL)
_f("clEnqueueCopyBuffer", i32, vptr, vptr, vptr, size_t, size_t, size_t, *WL)
_f("clEnqueueCopyBufferRect", i32, vptr, vptr, vptr, vptr, vptr, vptr, size_t, size_t, size_t, size_t, *WL)
_f("clEnqueueFillBuffer", i32, vptr, vptr, vptr, size_t, size_t, size_t, *WL)
_f("clEnqueueFillImage", i32, vptr, vptr, vptr, vptr, vptr, *WL)
_f("clEnqueueReadImage", i32, vptr, vptr, u32, vptr, vptr, size_t, size_t, vptr, *WL)
_f("clEnqueueWriteImage", i32, vptr, vptr, u32, vptr, vptr, size_t, size_t, vptr, *WL)
_f("clEnqueueCopyImage", i32, vptr, vptr, vptr, vptr, vptr, vptr, *WL)
_f("clEnqueueCopyImageToBuffer", i32, vptr, vptr, vptr, vptr, vptr, size_t, *WL)
_f("clEnqueueCopyBufferToImage", i32, vptr, vptr, vptr, size_t, vptr, vptr, *WL)
_f("clEnqueueMapBuffer", vptr, vptr, vptr, u32, u64, size_t, size_t, *WL, vptr)
_f("clEnqueueMapImage", vptr, vptr, vptr, u32, u64, vptr, vptr, vptr, vptr, *WL, vptr)
_f("clEnqueueUnmapMemObject", i32, vptr, vptr, vptr, *WL)
_f("clEnqueueMigrateMemObjects", i32, vptr, u32, vptr, u64, *WL)
_f("clEnqueueNDRangeKernel", i32, vptr, vptr, u32, vptr, vptr, vptr, *WL)
_f("clEnqueueTask", i32, vptr, vptr, *WL)
_f("clEnqueueNativeKernel", i32, vptr, vptr, vptr, size_t, u32, vptr, vptr, *WL)
_f("clEnqueueMarkerWithWaitList", i32, vptr, *WL)
_f("clEnqueueBarrierWithWaitList", i32, vptr, *WL)
_f("clEnqueueMarker", i32, vptr, vptr)
_f("clEnqueueBarrier", i32, vptr)
_f("clEnqueueWaitForEvents", i32, vptr, u32, vptr)

# constants
COMPLETE, RUNNING, SUBMITTED, QUEUED = 0, 1, 2, 3
OOO, PROFILING = 1, 2
MEM_RW, MEM_WO, MEM_RO, MEM_USE, MEM_ALLOC, MEM_COPY = 1, 2, 4, 8, 16, 32
HOST_WO, HOST_RO, HOST_NO = 1 << 7, 1 << 8, 1 << 9
MAP_READ, MAP_WRITE, MAP_INV = 1, 2, 4

def arr(t, xs):
    xs = list(xs)
    return (t * max(1, len(xs)))(*xs) if xs else None
def handles(xs):
    xs = list(xs)
    return (vptr * len(xs))(*xs) if xs else None
def sizes(*xs): return (size_t * len(xs))(*xs)

_plat = vptr(); _dev = vptr()
cl.clGetPlatformIDs(1, C.byref(_plat), None)
cl.clGetDeviceIDs(_plat, 0xFFFFFFFF, 1, C.byref(_dev), None)
platform, device = _plat.value, _dev.value

class CLError(Exception):
    pass
def ck(r, what=""):
    if r != 0: raise CLError("%s returned %d" % (what, r))
    return r

_errs = []
def _ctxerr(msg, priv, cb, data):
    _errs.append(msg.decode("latin1"))
_ctxerr_c = CTXCB(_ctxerr)
def api_errors():
    r = list(_errs); _errs.clear(); return r

def context():
    e = i32(); d = vptr(device)
    c = cl.clCreateContext(None, 1, C.byref(d), _ctxerr_c, None, C.byref(e))
    ck(e.value, "clCreateContext")
    return c
def queue(ctx, props=0):
    e = i32()
    q = cl.clCreateCommandQueue(ctx, device, props, C.byref(e)); ck(e.value, "queue"); return q
def buffer(ctx, flags, size, host=None):
    e = i32()
    b = cl.clCreateBuffer(ctx, flags, size, host, C.byref(e)); ck(e.value, "buffer"); return b
def program(ctx, src, opts="", build=True):
    e = i32(); s = C.c_char_p(src.encode())
    p = cl.clCreateProgramWithSource(ctx, 1, C.byref(s), None, C.byref(e)); ck(e.value, "program")
    if build:
        r = cl.clBuildProgram(p, 0, None, opts.encode(), None, None)
        if r: raise CLError("build failed: " + build_log(p))
    return p
def build_log(p):
    n = size_t()
    cl.clGetProgramBuildInfo(p, device, 0x1183, 0, None, C.byref(n))
    b = C.create_string_buffer(max(1, n.value))
    cl.clGetProgramBuildInfo(p, device, 0x1183, n.value, b, None)
    return b.value.decode("latin1")
def kernel(p, name):
    e = i32()
    k = cl.clCreateKernel(p, name.encode(), C.byref(e)); ck(e.value, "kernel " + name); return k
def arg(k, i, v):
    """v: ("m", handle) | ("b", bytes) | ("l", size)"""
    if v[0] == "m":
        h = vptr(v[1]); return cl.clSetKernelArg(k, i, 8, C.byref(h))
    if v[0] == "b":
        return cl.clSetKernelArg(k, i, len(v[1]), C.c_char_p(v[1]))
    return cl.clSetKernelArg(k, i, v[1], None)
def read(q, b, n, off=0):
    m = C.create_string_buffer(n)
    ck(cl.clEnqueueReadBuffer(q, b, 1, off, n, m, 0, None, None), "read")
    return m.raw
def write(q, b, data, off=0):
    m = C.create_string_buffer(data, len(data))
    ck(cl.clEnqueueWriteBuffer(q, b, 1, off, len(data), m, 0, None, None), "write")
def run(q, k, gsz, lsz=None, off=None):
    r = cl.clEnqueueNDRangeKernel(q, k, len(gsz), arr(size_t, off) if off else None, arr(size_t, gsz), arr(size_t, lsz) if lsz else None, 0, None, None)
    if r: return r
    return cl.clFinish(q)
def info(f, h, what, t=u32):
    v = t()
    r = f(h, what, C.sizeof(v), C.byref(v), None)
    return v.value if r == 0 else "err%d" % r
def refcount(kind, h):
    what = {"Context": 0x1080, "CommandQueue": 0x1092, "MemObject": 0x1105, "Event": 0x11D2, "Kernel": 0x1192, "Program": 0x1160, "Sampler": 0x1150}[kind]
    return info(getattr(cl, "clGet%sInfo" % kind), h, what)
def status(ev): return info(cl.clGetEventInfo, ev, 0x11D3, i32)
