"""Runs ConfGen's kernels, each launch in two configurations, and returns the memory and the lines
printed; RUNS: with messages (False: only results)."""
import os, re, tempfile
import ocl
from ocl import cl, ck
def st(s, ind, d=0):
    k = s["k"]; p = "  " * ind
    one = lambda t: p + t + "\n"
    if k == "lin": return one("x = (x * %du + %du) & 0xFFFF;" % (s["c"], s["d"]))
    if k == "in": return one("x = (x + IN[(gid * %d) %% 64]) & 0xFFFF;" % s["a"])
    if k == "con": return one("x = (x + CN[(gid * %d) %% 64]) & 0xFFFF;" % s["a"])
    if k == "ato": return one("atomic_add(&C[%d], x %% 16);" % (s["c"] - 1))
    if k == "amx": return one("atomic_max(&C[2], x);")
    if k == "amn": return one("atomic_min(&C[3], x);")
    if k == "out": return one("O%d[gid] = x;" % s["s"])
    if k == "slot": return one("S[gid] = x; mem_fence(CLK_GLOBAL_MEM_FENCE); x = (S[gid] + %du) & 0xFFFF;" % s["a"])
    if k == "pr": return one('printf("@@%%d %d %%d\\n", (int)gid, (int)x);' % s["s"])
    if k == "arr": return one("{ uint t[4]; for (uint j = 0; j < 4; j++) t[j] = x + j * %du; x = (3 * t[x %% 4] + 1) & 0xFFFF; }" % s["a"])
    if k == "vec": return one("{ uint4 v = (uint4)(x) + (uint4)(0, %d, %d, %d); v.xy = v.yx; x = (x + v.x + v.y + v.z + v.w) & 0xFFFF; }" % (s["a"], 2 * s["a"], s["a"]))
    if k == "call": return one("x = fn(x, %d);" % s["a"])
    if k == "str": return one("{ T s; s.a = x; s.b = 1; s.c[0] = 5; s.c[1] = %d; T s2 = s; x = (s2.a + 2 * s2.c[1]) & 0xFFFF; }" % s["a"])
    if k == "ptr": return one("{ uint t[3] = {1, 2, 3}; private uint *q = t + gid %% 3; *q = x; x = (*q + %d) & 0xFFFF; }" % (s["a"] * 7))
    if k == "if": return one("if (x %% %d == %d) {" % (s["m"], s["c"])) + "".join(st(t, ind + 1, d) for t in s["t"]) + one("} else {") + "".join(st(t, ind + 1, d) for t in s["e"]) + one("}")
    if k == "for": return one("for (uint i%d = 0; i%d < %d + gid %% %d; i%d++) {" % (d, d, s["n"], s["m"], d)) + "".join(st(t, ind + 1, d + 1) for t in s["b"]) + one("}")
    if k == "sh": return one("L[lid] = x;") + one("barrier(CLK_LOCAL_MEM_FENCE);") + one("x = (x + L[(lid + %d) %% lsz]) & 0xFFFF;" % s["r"]) + one("barrier(CLK_LOCAL_MEM_FENCE);")
    if k == "gcp": return one("{ event_t e = async_work_group_copy(L2, IN + %d, 8, 0); wait_group_events(1, &e); x = (x + L2[lid %% 8]) & 0xFFFF; barrier(CLK_LOCAL_MEM_FENCE); }" % s["a"])
    if k == "lead": return one("if (lid == 0) *one = x;") + one("barrier(CLK_LOCAL_MEM_FENCE);") + one("x = (x + *one + %d) & 0xFFFF;" % s["a"]) + one("barrier(CLK_LOCAL_MEM_FENCE);")
    raise KeyError(k)
def source(prog):
    return """typedef struct { uint a; ushort b; uint c[2]; } T;
uint fn(uint x, uint a) { if (x % 2 == 0) return (x / 2 + a) & 0xFFFF; return (x * 3 + 1) & 0xFFFF; }
constant uint K[2] = {1, 2};
kernel void k(global uint* IN, constant uint* CN, volatile global uint* C, global uint* O1, global uint* O2, global uint* O3, global uint* S, local uint* L) {
  local uint L2[8]; local uint one[1];
  uint gid = (get_global_id(0) - get_global_offset(0)) + get_global_size(0) * ((get_global_id(1) - get_global_offset(1)) + get_global_size(1) * (get_global_id(2) - get_global_offset(2)));
  uint lid = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));
  uint lsz = get_local_size(0) * get_local_size(1) * get_local_size(2);
  uint x = gid;
""" + "".join(st(s, 1) for s in prog) + "}\n"
NV = 128
def u32(xs): return b"".join((x & 0xFFFFFFFF).to_bytes(4, "little") for x in xs)
def ints(b): return [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]
FLAGS = {"races": "OCLGRIND_DATA_RACES", "uninit": "OCLGRIND_UNINITIALIZED", "counts": "OCLGRIND_INST_COUNTS", "uniform": "OCLGRIND_UNIFORM_WRITES", "api": "OCLGRIND_CHECK_API"}
def one(s, r, c):
    for k, v in FLAGS.items(): ocl.setenv(v, "1" if c[k] else None)
    opt = c["opt"] + (" -cl-std=CL2.0" if s["std20"] else "")
    ocl.setenv("OCLGRIND_BUILD_OPTIONS", opt if c["extra"] else None)
    ocl.setenv("OCLGRIND_NUM_THREADS", c["thr"]); ocl.setenv("OCLGRIND_QUICK", "1" if r["quick"] else None)
    ocl.mode(0); ocl.fetch(); ocl.mode(ocl.MESSAGES | (ocl.PERTURB if c["perturb"] else 0)); ocl.vp.vp_seed(c["thr"] + sum(r["R"]["n"]))
    ctx = ocl.context(); q = ocl.queue(ctx); p = ocl.program(ctx, source(s["prog"]), "" if c["extra"] else opt); k = ocl.kernel(p, "k")
    IN = ocl.buffer(ctx, 4 | 32, 256, u32((i * 37 + 11) % 256 for i in range(64))); CN = ocl.buffer(ctx, 4 | 32, 256, u32((i * 91 + 5) % 512 for i in range(64)))
    C = ocl.buffer(ctx, 1 | 32, 16, u32([0, 0, 0, 65536])); O = [ocl.buffer(ctx, 1 | 32, 4 * NV, b"\xff" * 4 * NV) for _ in range(3)]; S = ocl.buffer(ctx, 1 | 32, 4 * NV, b"\xff" * 4 * NV)
    l = 4 * r["R"]["l"][0] * r["R"]["l"][1] * r["R"]["l"][2]
    for i, v in enumerate([("m", IN), ("m", CN), ("m", C), ("m", O[0]), ("m", O[1]), ("m", O[2]), ("m", S), ("l", l)]): ck(ocl.arg(k, i, v), "argument")
    d = r["dim"]
    with tempfile.TemporaryFile() as f:
        ocl.libc.fflush(None); old = os.dup(1); os.dup2(f.fileno(), 1)
        try:
            ev = ocl.vptr(); e = cl.clEnqueueNDRangeKernel(q, k, d, None, ocl.arr(ocl.size_t, r["R"]["n"][:d]), ocl.arr(ocl.size_t, r["R"]["l"][:d]), 0, None, ocl.C.byref(ev))
            if not e: e = cl.clFinish(q)
        finally: ocl.libc.fflush(None); os.dup2(old, 1); os.close(old)
        f.seek(0); t = f.read().decode("latin1")
    ocl.mode(0)
    out = {"status": [e, ocl.status(ev.value) if ev.value else None], "c": ints(ocl.read(q, C, 16)), "o": [ints(ocl.read(q, o, 4 * NV)) for o in O],
           "in": ocl.read(q, IN, 256) == u32((i * 37 + 11) % 256 for i in range(64)),
           "p": [[int(x) for x in l[2:].split(" ")] if re.match(r"@@\d+ \d+ \d+$", l) else l for l in t.splitlines() if "@@" in l],
           "m": [l for l in ocl.fetch() if l.startswith("m ")]}
    if ev.value: cl.clReleaseEvent(ev)
    for b in [IN, CN, C, S] + O: cl.clReleaseMemObject(b)
    cl.clReleaseKernel(k); cl.clReleaseProgram(p); cl.clReleaseCommandQueue(q); cl.clReleaseContext(ctx)
    for v in list(FLAGS.values()) + ["OCLGRIND_QUICK", "OCLGRIND_BUILD_OPTIONS"]: ocl.setenv(v, None)
    return out
def run(s): return [[one(s, r, c) for c in r["conf"]] for r in s["runs"]]
