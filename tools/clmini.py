"""Minimal ctypes bindings to the OpenCL runtime in ./_build (working directory: the repository)."""
import ctypes as C, os, sys
os.environ.setdefault("OCLGRIND_LOG", "/dev/null")
cl = C.CDLL(os.path.join(os.getcwd(), "_build", "liboclgrind-rt.so"))
vptr, size_t, i32, u32, u64 = C.c_void_p, C.c_size_t, C.c_int32, C.c_uint32, C.c_uint64
PTR = "clCreateContext clCreateCommandQueue clCreateBuffer clCreateSubBuffer clCreateImage clCreateSampler clCreateProgramWithSource clCreateProgramWithBinary clCreateKernel clCloneKernel clCreateUserEvent clEnqueueMapBuffer clEnqueueMapImage clLinkProgram".split()
class Fn:
    def __getattr__(self, n):
        f = getattr(cl, n); f.restype = vptr if n in PTR else i32
        def call(*a):
            b = []
            for x in a:
                if isinstance(x, int): b.append(u64(x % 2**64))
                elif x is None: b.append(vptr())
                else: b.append(x)
            return f(*b)
        return call
c = Fn()
plat, dev = vptr(), vptr()
c.clGetPlatformIDs(1, C.byref(plat), None)
c.clGetDeviceIDs(plat, 0xFFFFFFFF, 1, C.byref(dev), None)
def context():
    return c.clCreateContext(None, 1, C.byref(dev), None, None, None)
def queue(ctx, props=0): return c.clCreateCommandQueue(ctx, dev, props, None)
def buffer(ctx, size, data=None, flags=1):
    if data is not None: flags |= 32
    return c.clCreateBuffer(ctx, flags, size, C.create_string_buffer(data, size) if data is not None else None, None)
def program(ctx, src, opts=b""):
    s = C.c_char_p(src.encode()); p = c.clCreateProgramWithSource(ctx, 1, C.byref(s), None, None)
    assert c.clBuildProgram(p, 0, None, C.c_char_p(opts), None, None) == 0, "program build failed"
    return p
def kernel(p, n): return c.clCreateKernel(p, C.c_char_p(n.encode()), None)
def setm(k, i, m): return c.clSetKernelArg(k, i, 8, C.byref(vptr(m)))
def setb(k, i, b): return c.clSetKernelArg(k, i, len(b), C.c_char_p(b))
def setl(k, i, n): return c.clSetKernelArg(k, i, n, None)
def sizes(*x): return (size_t * len(x))(*[v % 2**64 for v in x])
def handles(*x): return (vptr * len(x))(*x)
def run(q, k, g, l=None, off=None):
    r = c.clEnqueueNDRangeKernel(q, k, len(g), sizes(*off) if off else None, sizes(*g), sizes(*l) if l else None, 0, None, None)
    return r or c.clFinish(q)
def read(q, b, n, off=0):
    m = C.create_string_buffer(n); r = c.clEnqueueReadBuffer(q, b, 1, off, n, m, 0, None, None); assert r == 0, r
    return m.raw
def fail(msg): print("FAIL:", msg); sys.stdout.flush(); os._exit(1)
def done(): print("ok"); sys.stdout.flush(); os._exit(0)
def logto():
    "send the diagnostics of contexts created from now on to a file; returns a function that reads it"
    import tempfile
    f = tempfile.NamedTemporaryFile(suffix=".log"); os.environ["OCLGRIND_LOG"] = f.name
    def text(f=f): return open(f.name, errors="replace").read()
    return text
