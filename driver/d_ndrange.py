"""Executes launches of NDRangeGen, with worker threads that are delayed at random."""
import ctypes as C, struct
import ocl
from ocl import cl, ck
SRC = """
#define BODY(BAR) \\
  size_t o0 = get_global_offset(0), o1 = get_global_offset(1), o2 = get_global_offset(2); \\
  size_t i = ((get_global_id(2) - o2) * get_global_size(1) + get_global_id(1) - o1) * get_global_size(0) + get_global_id(0) - o0; \\
  if (i > n) i = n; \\
  atomic_inc(cnt + i); BAR; \\
  global ulong* v = out + 35 * i; \\
  for (uint d = 0; d < 4; d++) { \\
    v[d] = get_global_id(d); v[4 + d] = get_local_id(d); v[8 + d] = get_group_id(d); v[12 + d] = get_global_size(d); \\
    v[16 + d] = get_local_size(d); v[20 + d] = get_enqueued_local_size(d); v[24 + d] = get_num_groups(d); v[28 + d] = get_global_offset(d); } \\
  v[32] = get_work_dim(); v[33] = get_global_linear_id(); BAR; v[34] = get_local_linear_id();
kernel void plain(global volatile int* cnt, global ulong* out, ulong n) { BODY(;) }
kernel void bar(global volatile int* cnt, global ulong* out, ulong n) { BODY(barrier(CLK_LOCAL_MEM_FENCE)) }
kernel __attribute__((reqd_work_group_size(2, 2, 1))) void reqd(global volatile int* cnt, global ulong* out, ulong n) { BODY(;) }
"""
_g = {}
def setup():
    if _g: return
    ctx = _g["ctx"] = ocl.context(); _g["q"] = ocl.queue(ctx)
    for u in (False, True):
        p = ocl.program(ctx, SRC, "-cl-std=CL2.0" + (" -cl-uniform-work-group-size" if u else ""))
        for n in ("plain", "bar", "reqd"): _g[u, n] = ocl.kernel(p, n)
    _g["ctx2"] = ocl.context(); _g["q2"] = ocl.queue(_g["ctx2"]); _g["other"] = ocl.kernel(ocl.program(_g["ctx2"], SRC, "-cl-std=CL2.0"), "plain")
def run(s):
    setup(); q = _g["q"]; ocl.mode(0)
    n = s["g"][0] * s["g"][1] * s["g"][2]
    cnt = ocl.buffer(_g["ctx"], 1 | 32, 4 * (n + 1), b"\0" * (4 * (n + 1))); out = ocl.buffer(_g["ctx"], 1, 280 * (n + 1))
    k = _g[s["uni"], s.get("k") or ("bar" if s["bar"] else "plain")]
    for i, a in enumerate([("m", cnt), ("m", out), ("b", struct.pack("Q", n))]): ck(ocl.arg(k, i, a), "argument")
    ocl.setenv("OCLGRIND_NUM_THREADS", s["thr"]); ocl.vp.vp_seed(s["seed"])
    ocl.fetch(); ocl.mode(ocl.GROUPS | ocl.ITEMS | ocl.KERNELS | ocl.MESSAGES | (ocl.PERTURB if s["seed"] % 3 else 0))
    th = None
    if s.get("with"):                       # another host thread runs kernels in a context of its own at the same time
        import threading
        w = s["with"]; m = w["g"][0] * w["g"][1] * w["g"][2]; q2 = _g["q2"]; k2 = _g["other"]; stop = []
        c2 = ocl.buffer(_g["ctx2"], 1 | 32, 4 * (m + 1), b"\0" * (4 * (m + 1))); o2 = ocl.buffer(_g["ctx2"], 1, 280 * (m + 1))
        for i, a in enumerate([("m", c2), ("m", o2), ("b", struct.pack("Q", m))]): ck(ocl.arg(k2, i, a), "argument")
        def other():
            while not stop: ck(ocl.run(q2, k2, w["g"], w["l"], w["o"]), "run of the other kernel")
        th = threading.Thread(target=other); th.start()
    d = s["dim"]; z = lambda v: ocl.sizes(*v[:d])
    r = cl.clEnqueueNDRangeKernel(q, k, d, None if s["nullo"] else z(s["o"]), z(s["g"]), None if s.get("passnull", s["nulll"]) else z(s["l"]), 0, None, None)
    ck(r, "clEnqueueNDRangeKernel"); ck(cl.clFinish(q), "clFinish")
    if th: stop.append(1); th.join(); cl.clReleaseMemObject(c2); cl.clReleaseMemObject(o2)
    ocl.mode(0); ev = []; ll = [1, 1, 1]
    for x in ocl.fetch():
        f = x.split(" ")
        if f[0] in ("gb", "gc", "ib", "ic", "ke", "kb") and f[-1] != "0": continue
        m = [int(y) for y in f[1:] if f[0] in ("gb", "gc", "ib", "ic")]
        if f[0] == "gb": ev.append({"t": "gb", "w": m[:3], "s": m[3:6]}); ll = [max(a, b) for a, b in zip(ll, m[3:6])]
        elif f[0] == "gc": ev.append({"t": "gc", "w": m[:3]})
        elif f[0] == "ib": ev.append({"t": "ib", "i": m[:3], "l": m[3:6], "w": m[6:9]})
        elif f[0] == "ic": ev.append({"t": "ic", "i": m[:3]})
        elif f[0] == "ke": ev.append({"t": "ke"})
        elif f[0] == "m": ev.append({"t": "message", "m": x[:200]})
    c = struct.unpack("%di" % (n + 1), ocl.read(q, cnt, 4 * (n + 1))); v = ocl.read(q, out, 280 * (n + 1))
    for i in range(n + 1):
        if not c[i]: continue
        w = [min(x, 2**31 - 1) for x in struct.unpack_from("35Q", v, 280 * i)]
        ev.append({"t": "v", "i": w[:3], "n": c[i], "v": w})
    cl.clReleaseMemObject(cnt); cl.clReleaseMemObject(out)
    return {**{x: s[x] for x in ("dim", "g", "l", "o", "nulll", "uni")}, "ll": ll, "ev": ev}
