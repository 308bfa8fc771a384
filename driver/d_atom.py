"""Runs AtomGen's kernels; returns the operations performed on every word, with what they returned:
[{init, fin, it: [[op, signed, a, b, returned], ...] per item}, ...]"""
import struct
import ocl
from ocl import cl, ck
NW = 3
def num(b): return int.from_bytes(bytes(b), "little")
def limbs(v, n): return list((v % 256 ** n).to_bytes(n, "little"))
def source(s):
    n = s["n"]; U = {4: "uint", 8: "ulong"}[n]; T = U if not s["s"] else U[1:]
    lit = lambda b: "(%s)%dul" % (U, num(b))
    sp = {"g": "global", "l": "local"}[s["sp"]]
    body = ""; tot = max(len(c) for c in s["code"])
    for c, code in enumerate(s["code"]):
        body += "    %sif (cls == %d) {\n" % ("else " if c else "", c)
        for j, x in enumerate(code):
            val = lambda b: "(%s)(%s%s)" % (T, lit(b), " + (%s)id * %s + (%s)it * %s" % (U, lit(x["mi"]), U, lit(x["mt"])) if x["vary"] else "")
            args = ["W + %d" % (x["w"] - 1)]
            if x["o"] == "cmpxchg": args += ["(%s)prev" % T if x["prev"] else "(%s)%s" % (T, lit(x["a"])), val(x["b"])]
            elif x["o"] not in ("inc", "dec"): args.append(val(x["a"]))
            call = "%s_%s(%s)" % ("atom" if n == 8 or (c + j) % 3 == 0 else "atomic", x["o"], ", ".join(args))
            body += "      %s;\n" % call if x["drop"] else "      prev = %s; R[(id * %d + it) * %d + %d] = prev;\n" % (call, s["iters"], tot, j)
        body += "    }\n"
    return """#pragma OPENCL EXTENSION cl_khr_int64_base_atomics : enable
#pragma OPENCL EXTENSION cl_khr_int64_extended_atomics : enable
kernel void k(global T* G, global T* R, local T* L, global T* F) {
  size_t id = get_global_id(0); int cls = id %% %d; T prev = 0;
  if (get_local_id(0) == 0) for (int w = 0; w < %d; w++) L[w] = G[w];
  barrier(CLK_LOCAL_MEM_FENCE);
  volatile %s T* W = %s + %d;
  for (int it = 0; it < %d; it++) {
%s  }
  barrier(CLK_LOCAL_MEM_FENCE);
  if (get_local_id(0) == 0) for (int w = 0; w < %d; w++) F[get_group_id(0) * %d + w] = L[w];
}
""".replace("T*", T + "*").replace(" T ", " %s " % T) % (len(s["code"]), NW + 2 * s["pad"], sp, "G" if s["sp"] == "g" else "L", s["pad"], s["iters"], body, NW + 2 * s["pad"], NW + 2 * s["pad"])
_g = {}
def run(s):
    if not _g:
        ocl.mode(0); _g["c"] = ocl.context(); _g["q"] = ocl.queue(_g["c"])
    ctx, q = _g["c"], _g["q"]; n = s["n"]
    p = ocl.program(ctx, source(s), s.get("opt", "")); k = ocl.kernel(p, "k")
    ni = s["l"] * s["g"]; tot = max(len(c) for c in s["code"])
    guard = [[(7 * i + 1) % 251] * n for i in range(2 * s["pad"])]
    words = guard[:s["pad"]] + s["init"] + guard[s["pad"]:]; NL = len(words)
    G = ocl.buffer(ctx, 1 | 32, NL * n, b"".join(map(bytes, words)))
    R = ocl.buffer(ctx, 1, ni * s["iters"] * tot * n); F = ocl.buffer(ctx, 1 | 32, s["g"] * NL * n, b"\0" * (s["g"] * NL * n))
    for i, v in enumerate([("m", G), ("m", R), ("l", NL * n), ("m", F)]): ck(ocl.arg(k, i, v), "argument")
    ocl.setenv("OCLGRIND_NUM_THREADS", s["thr"]); ocl.vp.vp_seed(s["pad"]); ocl.fetch(); ocl.mode(ocl.PERTURB if s["pad"] % 4 == 0 and s["form"] != "many" else 0)
    r = ocl.run(q, k, [ni], [s["l"]]); ocl.mode(0); ck(r, "run")
    split = lambda d: [list(d[i:i + n]) for i in range(0, len(d), n)]
    g, f, R_ = split(ocl.read(q, G, NL * n)), split(ocl.read(q, F, s["g"] * NL * n)), split(ocl.read(q, R, ni * s["iters"] * tot * n))
    for b in (G, R, F): cl.clReleaseMemObject(b)
    cl.clReleaseKernel(k); cl.clReleaseProgram(p)
    out = []; M = 256 ** n
    inst = [(None, range(ni))] if s["sp"] == "g" else [(x, range(x * s["l"], (x + 1) * s["l"])) for x in range(s["g"])]
    for grp, items in inst:
        fin = g if grp is None else f[grp * NL:(grp + 1) * NL]
        its = [[[] for _ in items] for _ in range(NW)]
        for j, id in enumerate(items):
            prev = [0] * n
            for it in range(s["iters"]):
                for c, x in enumerate(s["code"][id % len(s["code"])]):
                    val = lambda b: limbs(num(b) + (id * num(x["mi"]) + it * num(x["mt"]) if x["vary"] else 0), n)
                    ret = [] if x["drop"] else R_[(id * s["iters"] + it) * tot + c]
                    a, b = (prev if x["prev"] else x["a"], val(x["b"])) if x["o"] == "cmpxchg" else (val(x["a"]), x["b"])
                    its[x["w"] - 1][j].append([x["o"], s["s"], a, b, ret])
                    if not x["drop"]: prev = ret
        for w in range(NW): out.append({"init": s["init"][w], "fin": fin[s["pad"] + w], "it": [y for y in its[w] if y] or [[]]})
        # the other words are as they were
        if fin[:s["pad"]] + fin[s["pad"] + NW:] != guard: out.append({"init": [0] * n, "fin": [1] * n, "it": [[["neighbouring words changed", False, [], [], []]]]})
    if s["sp"] == "l" and g != words: out.append({"init": [0] * n, "fin": [1] * n, "it": [[["words in global memory changed", False, [], [], []]]]})
    return {"words": out}
