"""Runs TaintGen's histories with uninitialised-value checking; returns the reports of every kernel as
[statement, item, kind] (statement: line of the kernel)."""
import re
import ocl
from ocl import cl, ck
W4 = lambda i, e: "[%s * 4 + %d]" % (i, e - 1)
MATH = ["float p; float f = modf((float)v%(j)d, &p); v%(i)d = as_uint(f) + as_uint(p);", "int p; float f = frexp((float)v%(j)d, &p); v%(i)d = as_uint(f) + (uint)p;", "float p; float f = fract((float)v%(j)d, &p); v%(i)d = as_uint(f) + as_uint(p);",
        "float p; float f = sincos((float)v%(j)d, &p); v%(i)d = as_uint(f) + as_uint(p);", "float2 p; float2 f = modf((float2)(1.5f, (float)v%(j)d), &p); v%(i)d = as_uint(f.y) + as_uint(p.y);",
        "int4 p; float4 f = frexp((float4)(1.5f, 2.0f, (float)v%(j)d, 1.0f), &p); v%(i)d = as_uint(f.z) + (uint)p.z;"]
OPS = ["+", "-", "*", "^", "|", "-"]
F = {
 "con": "v%(i)d = %(o)du;", "mov": "v%(i)d = v%(j)d;", "op": "v%(i)d = v%(j)d OP v%(m)d;", "cmp": "v%(i)d = 0u - (uint)(v%(j)d < v%(m)d);",
 "shr": "v%(i)d = v%(j)d >> %(n8)d;", "shl": "v%(i)d = v%(j)d << %(n8)d;", "byt": "v%(i)d = (uint)(((private uchar*)&v%(j)d)[%(e0)d]);",
 "setb": "((private uchar*)&v%(i)d)[%(e0)d] = (uchar)v%(j)d;", "half": "v%(i)d = (uint)(ushort)v%(j)d;",
 "selc": "v%(i)d = select(v%(j)d, v%(m)d, %(n1)du);", "selt": "v%(i)d = select(v%(j)d, v%(j)d, v%(e)d);",
 "sels": "v%(i)d = ((GI[(it + %(e)d) & 7] * 5u + 3u) & 7u) < 3u ? v%(j)d : v%(m)d;", "vsel": "w = ((vload4(0, GI + ((it + %(e)d) & 3)) * 5u + 3u) & 7u) < (uint4)(3u) ? w : (uint4)(v1, v2, v3, v4);",
 "flt": "v%(i)d = (uint)((float)v%(j)d * 0.5f);", "fn": "v%(i)d = fn(v%(j)d, v%(m)d);", "fst": "v%(i)d = fst(v%(j)d, v%(m)d);", "setp": "setp(&v%(i)d, v%(j)d);",
 "math2": "{ int p; float f = remquo((float)v%(j)d, (float)v%(m)d, &p); v%(i)d = as_uint(f) + (uint)p; }",
 "swap": "{ uint x = v%(i)d; v%(i)d = v%(j)d; v%(j)d = x; }", "loop": "for (uint x = 0; x < %(n)du; x++) v%(i)d += v%(j)d;",
 "ast": "a[%(e0)d] = v%(j)d;", "ald": "v%(i)d = a[%(e0)d];", "adn": "v%(i)d = a[(it + %(e)d) & 3];",
 "sst": "s.%(f)s = v%(j)d;", "sld": "v%(i)d = s.%(f)s;", "tld": "v%(i)d = t.%(f)s;", "scp": "t = s;", "szr": "{ S u = {0}; s = u; }", "hfn": "v%(i)d = hfn(s);",
 "vmk": "w = (uint4)(v1, v2, v3, v4);", "vset": "w.s%(e0)d = v%(j)d;", "vget": "v%(i)d = w.s%(e0)d;", "vrev": "w = w.wzyx;", "vadd": "w = w.wzyx + w;", "vshf": None,
 "lst": "L[lid * 4 + %(e0)d] = v%(j)d;", "lld": "v%(i)d = L[lid * 4 + %(e0)d];", "gst": "G[it * 4 + %(e0)d] = v%(j)d;", "gld": "v%(i)d = G[it * 4 + %(e0)d];",
 "gsb": "((global uchar*)&G[it * 4 + %(e0)d])[%(n)d - 1] = (uchar)v%(j)d;", "hsf": "H[it].%(f)s = v%(j)d;", "hst": "H[it] = s;", "hld": "s = H[it];",
 "vst": "vstore4(w, it, G);", "vld": "w = vload4(it, G);", "aad": "v%(i)d = atomic_add((volatile global uint*)&G[it * 4 + %(e0)d], v%(j)d);", "axc": "v%(i)d = atomic_xchg((volatile global uint*)&G[it * 4 + %(e0)d], v%(j)d);",
 "lad": "v%(i)d = atomic_or((volatile local uint*)&L[lid * 4 + %(e0)d], v%(j)d);",
 "br": "if (v%(j)d > 5u) z = 1; else z = 2;", "sw": "switch (v%(j)d & 3u) { case 0: z = 1; break; case 2: z = 2; break; default: z = 3; }", "brc": "if (v%(j)d == v%(m)d + 7u) z = 1;",
 "arg": "z = GI[v%(j)d & 7u];", "arl": "z = LI[v%(j)d & 7u];", "arp": "z = PI[v%(j)d & 7u];", "awg": "GS[it * 8 + (v%(j)d & 7u)] = 1u;", "awp": "PI[v%(j)d & 7u] = 1u;",
 "sh": "barrier(CLK_LOCAL_MEM_FENCE); v%(i)d = L[((lid + %(n)d) %% lsz) * 4 + %(e0)d]; barrier(CLK_LOCAL_MEM_FENCE);",
 "asr": "v%(i)d = (uint)((int)v%(j)d >> %(n8)d);", "sext": "v%(i)d = (uint)(int)(char)v%(j)d;", "ul64": "v%(i)d = (uint)(((ulong)v%(j)d << 32) >> 32);", "bit": "v%(i)d = as_uint(as_float(v%(j)d));",
 "rev8": "v%(i)d = as_uint(as_uchar4(v%(j)d).wzyx);", "vcal": "w = id4((uint4)(v4, v3, v2, v1));", "vmka": "w = (uint4)(v1, v2, v3, v4) + w;", "vext": "v%(i)d = id4(w).s%(e0)d;", "brf": "if ((float)v%(j)d < 3.0f) z = 1;",
 "cpls": "{ barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE); event_t ev = async_work_group_strided_copy(L, (global uint*)G + (it - lid) * 4, lsz * 2, 2, 0); wait_group_events(1, &ev); barrier(CLK_LOCAL_MEM_FENCE); }",
 "cpgs": "{ barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE); event_t ev = async_work_group_strided_copy(G + (it - lid) * 4, (local uint*)L, lsz * 2, 2, 0); wait_group_events(1, &ev); barrier(CLK_LOCAL_MEM_FENCE); }",
 "cpl": "{ barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE); event_t ev = async_work_group_copy(LC, GC + (it - lid) * 4 / CW, lsz * 4 / CW, 0); wait_group_events(1, &ev); barrier(CLK_LOCAL_MEM_FENCE); }",
 "cpg": "{ barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE); event_t ev = async_work_group_copy(GC + (it - lid) * 4 / CW, LC, lsz * 4 / CW, 0); wait_group_events(1, &ev); barrier(CLK_LOCAL_MEM_FENCE); }",
}
FIELD = ["a", "b", "c[0]", "c[1]"]
CT = [("uint", 1), ("float", 1), ("uint2", 2), ("uchar", 0.25), ("ulong", 2), ("uint4", 4), ("short", 0.5)]
def stmt(s):
    d = dict(s, n8=8 * s["n"], n1=1 if s["n"] == 1 else 0, e0=s["e"] - 1, f=FIELD[s["e"] - 1])
    k = s["k"]
    if k == "math": return "{ " + MATH[s["o"]] % d + " }"
    if k == "vshf": return "w = w.%s;" % "".join("xyzw"[(n + s["e"]) % 4] for n in range(1, 5))
    t = F[k].replace("OP", OPS[s["o"]]) % d
    if k in ("cpl", "cpg"):
        ty, w = CT[s["o"] + (s["e"] == 4)]
        t = t.replace("LC", "(local %s*)L" % ty).replace("GC", "((global %s*)G)" % ty)
        t = t.replace("* 4 / CW", "* %d" % (4 / w))
    return t
FIRST = 10
def source(prog, larg, lsz):
    head = ["typedef struct { uint a, b; uint c[2]; } S;", "uint fn(uint a, uint b) { return a + 3u * b; }", "uint fst(uint a, uint b) { return a; }", "uint4 id4(uint4 x) { return x; } void setp(private uint *p, uint x) { *p = x; }", "uint hfn(S s) { return s.a + s.c[1]; }",
            "kernel void k(global uint* G, global S* H, global const uint* GI, global uint* GS, local uint* L0) { %slocal uint LI[8];" % ("local uint *L = L0; " if larg else "local uint L[%d]; " % (4 * lsz)),
            "  uint it = get_global_id(0), lid = get_local_id(0), lsz = get_local_size(0); uint z = 0; uint PI[8] = {1, 2, 3, 4, 5, 6, 7, 8};",
            "  uint v1, v2, v3, v4; uint a[4]; S s, t; uint4 w;", "  if (lid == 0) for (int i = 0; i < 8; i++) LI[i] = i;  barrier(CLK_LOCAL_MEM_FENCE);"]
    assert len(head) == FIRST - 1
    return "\n".join(head + ["  " + stmt(s) for s in prog] + ["}"]) + "\n"
# line 3 + i branches on byte i of the item's rows of G and H
PROBE = "kernel void probe(global uchar* G, global uchar* H) {\n  uint it = get_global_id(0); uint z = 0;\n" + "".join("  if (%s[16 * it + %d] > 5) z++;\n" % ("GH"[i // 16], i % 16) for i in range(32)) + "}\n"
KIND = [(r"Controlflow depends", lambda m: "cf"), (r"Uninitialized address used to read from (\w+)", lambda m: "rd " + m.group(1)), (r"Uninitialized address used to write to (\w+)", lambda m: "wr " + m.group(1)),
        (r"Uninitialized value written to (\w+)", lambda m: "val " + m.group(1))]
def parse(l):
    t = l.replace("\\n", "\n")
    for p, f in KIND:
        m = re.search(p, t)
        if m:
            g = re.search(r"Global\((\d+),0,0\)", t); n = re.search(r"At line (\d+) ", t)
            return [int(n.group(1)) - FIRST + 1 if n else None, int(g.group(1)) if g else None, f(m)]
    return l
def u32(xs): return b"".join((x & 0xFFFFFFFF).to_bytes(4, "little") for x in xs)
def run(hist):
    st = hist[0]; n, lsz = st["n"], st["l"]; size = 16 * n
    ocl.setenv("OCLGRIND_UNINITIALIZED", "1"); ocl.setenv("OCLGRIND_MAX_ERRORS", "1000000"); ocl.setenv("OCLGRIND_NUM_THREADS", st["thr"])
    ocl.mode(0); ocl.fetch()
    ctx = ocl.context(); q = ocl.queue(ctx); data = bytes(range(1, size + 1))
    new = lambda taint: ocl.buffer(ctx, 1, size, None) if taint else ocl.buffer(ctx, 1 | 32, size, data)
    B = {"g": new(st["g"]), "h": new(st["h"])}
    GI = ocl.buffer(ctx, 4 | 32, 32, u32(range(8))); GS = ocl.buffer(ctx, 1 | 32, 32 * n, bytes(32 * n)); SRC = ocl.buffer(ctx, 1 | 32, size, data)
    out = []; pk = pp = None
    for h in hist[1:]:
        if h["op"] == "kernel":
            src = source(h["prog"], st["arg"], lsz)
            p = ocl.program(ctx, src, st["opt"]); k = ocl.kernel(p, "k")
            for i, v in enumerate([("m", B["g"]), ("m", B["h"]), ("m", GI), ("m", GS), ("l", 16 * lsz)]): ck(ocl.arg(k, i, v), "argument")
            ocl.mode(ocl.MESSAGES); ck(cl.clEnqueueNDRangeKernel(q, k, 1, None, ocl.arr(ocl.size_t, [n]), ocl.arr(ocl.size_t, [lsz]), 0, None, None)); ck(cl.clFinish(q)); ocl.mode(0)
            rep = [parse(l) for l in ocl.fetch() if l.startswith("m ")]
            if not pk: pp = ocl.program(ctx, PROBE, "-cl-opt-disable"); pk = ocl.kernel(pp, "probe")
            for i in (0, 1): ck(ocl.arg(pk, i, ("m", B["gh"[i]])))
            ocl.mode(ocl.MESSAGES); ck(cl.clEnqueueNDRangeKernel(q, pk, 1, None, ocl.arr(ocl.size_t, [n]), ocl.arr(ocl.size_t, [lsz]), 0, None, None)); ck(cl.clFinish(q)); ocl.mode(0)
            left = [parse(l) for l in ocl.fetch() if l.startswith("m ")]
            out.append({"rep": rep, "left": [[x[0] + FIRST - 4, x[1]] if isinstance(x, list) and x[2] == "cf" else x for x in left]}); cl.clReleaseKernel(k); cl.clReleaseProgram(p)
        elif h["op"] == "again":
            cl.clReleaseMemObject(B["g"]); B["g"] = new(h["t"]); out.append(None)
        else:
            b, off, ln, how = B[h["b"]], h["off"], h["len"], h["how"]
            if how == "write": ck(cl.clEnqueueWriteBuffer(q, b, 1, off, ln, data, 0, None, None))
            elif how == "fill": ck(cl.clEnqueueFillBuffer(q, b, u32([7]), 4, off, ln, 0, None, None))
            elif how == "copy": ck(cl.clEnqueueCopyBuffer(q, SRC, b, 0, off, ln, 0, None, None))
            elif how == "rect": ck(cl.clEnqueueWriteBufferRect(q, b, 1, ocl.arr(ocl.size_t, [off, 0, 0]), ocl.arr(ocl.size_t, [0, 0, 0]), ocl.arr(ocl.size_t, [ln, 1, 1]), 0, 0, 0, 0, data, 0, None, None))
            else:
                e = ocl.C.c_int(); fl = {"map": 2, "mapinv": 4, "maprw": 3}[how]; cl.clEnqueueMapBuffer.restype = ocl.C.c_void_p
                a = cl.clEnqueueMapBuffer(q, ocl.C.c_void_p(b) if isinstance(b, int) else b, 1, ocl.C.c_ulong(fl), ocl.size_t(off), ocl.size_t(ln), 0, None, None, ocl.C.byref(e)); ck(e.value)
                ocl.C.memset(a, 3, ln); ck(cl.clEnqueueUnmapMemObject(q, b, ocl.C.c_void_p(a), 0, None, None)); ck(cl.clFinish(q))
            out.append(None)
    if pk: cl.clReleaseKernel(pk); cl.clReleaseProgram(pp)
    for b in [B["g"], B["h"], GI, GS, SRC]: cl.clReleaseMemObject(b)
    cl.clReleaseCommandQueue(q); cl.clReleaseContext(ctx)
    return out
