"""Prints programs of KernGen as OpenCL C, runs them at several optimisation levels, returns the
variables, arrays and structs of every work-item."""
import ocl
from ocl import ck
SIZE = {"char": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8}
UN = {"char": "uchar", "short": "ushort", "int": "uint", "long": "ulong"}
def ty(v): return v["t"] + (str(v["w"]) if v["w"] > 1 else "")
def comp(t, b):
    v = int.from_bytes(bytes(b), "little")
    return "(%s)0x%x%s" % (t, v, "ul" if SIZE[t] == 8 else "u")
def const(v): 
    cs = ["(%s)" % comp(v["t"], b) for b in v["val"]]
    return cs[0] if v["w"] == 1 else "(%s)(%s)" % (ty(v), ", ".join(cs))
HEX = "0123456789abcdef"
def sw(cs, w):
    if cs == [1, 2] and w == 4: return "lo"
    if cs == [3, 4] and w == 4: return "hi"
    if cs == [1, 3] and w == 4: return "even"
    if len(cs) <= 4 and max(cs) <= 4 and sum(cs) % 2 and w <= 4: return "".join("xyzw"[c - 1] for c in cs)
    return "s" + "".join(HEX[c - 1] for c in cs)
class Ctx:
    def __init__(s, ptr, elem): s.ptr, s.elem = ptr, elem
KERNEL = Ctx({1: "A1", 2: "A2", 3: "A3", 4: "A4", 5: "A5", 6: "P"}, lambda i, e: "SA[%s]" % i)
FN = Ctx({1: "p"}, lambda i, e: "s")
def ex(e, c):
    k = e["k"]; T = ty(e)
    if k == "c": return "(%s)" % const(e)
    if k == "v": return "v%d" % e["i"]
    if k == "id": return "(ulong)get_global_id(0)"
    if k == "a": return "%s[(%s) & %d]" % (c.ptr[e["r"]], ex(e["i"], c), e["m"])
    if k == "s": return "%s.f%d" % (c.elem("(%s) & 3" % ex(e["i"], c), e), e["f"])
    if k == "u": 
        x = ex(e["x"], c)
        if e["o"] == "-" and e["w"] > 1 and e["t"] in UN: return "as_%s(-as_%s(%s))" % (T, UN[e["t"]] + str(e["w"]), x)
        return "(%s(%s))" % (e["o"], x)
    if k == "b":
        x, y, o = ex(e["x"], c), ex(e["y"], c), e["o"]
        if e["w"] > 1 and o in "+-*" and e["t"] in UN:
            u = UN[e["t"]]; return "as_%s(as_%s%d(%s) %s as_%s(%s))" % (T, u, e["w"], x, o, ty({"t": u, "w": e["y"]["w"]}), y)
        return "((%s) %s (%s))" % (x, o, y)
    if k == "q": return "((%s) ? (%s) : (%s))" % (ex(e["c"], c), ex(e["x"], c), ex(e["y"], c))
    if k == "cast": return "((%s)(%s))" % (T, ex(e["x"], c)) if e["w"] == 1 else "convert_%s(%s)" % (T, ex(e["x"], c))
    if k == "sw": return "(%s).%s" % (ex(e["x"], c), sw(e["cs"], e["x"]["w"]))
    # (clang crashes on a bare swizzle within a vector literal: parentheses avoid it)
    if k == "lit": return "((%s)(%s))" % (T, ", ".join("(%s)" % ex(x, c) for x in e["xs"]))
    if k == "as": return "as_%s(%s)" % (T, ex(e["x"], c))
    if k == "f": return "%s(%s)" % (e["o"], ", ".join("(%s)(%s)" % (T, ex(x, c)) if e["w"] == 1 else ex(x, c) for x in e["xs"]))
    if k == "pe": return "(%s == %s)" % (c.ptr[e["r"]], c.ptr[e["r2"]])
    raise KeyError(k)
def st(s, c, ind, p, fn):
    k = s["k"]; sp = "  " * ind
    B = lambda b: "".join(st(x, c, ind + 1, p, fn) for x in b)
    if k == "set": return "%sv%d = %s;\n" % (sp, s["i"], ex(s["e"], c))
    if k == "comp": return "%sv%d.%s = %s;\n" % (sp, s["i"], "s" + "".join(HEX[x - 1] for x in s["cs"]), ex(s["e"], c))
    if k == "ast": return "%s%s[(%s) & %d]%s = %s;\n" % (sp, c.ptr[s["r"]], ex(s["i"], c), s["m"], ".s" + "".join(HEX[x - 1] for x in s["cs"]) if s["cs"] else "", ex(s["e"], c))
    if k == "acpy": return "%s%s[(%s) & %d] = %s[(%s) & %d];\n" % (sp, c.ptr[s["r"]], ex(s["i"], c), s["m"], c.ptr[s["r2"]], ex(s["i2"], c), s["m2"])
    if k == "if": return "%sif (%s) {\n%s%s}%s\n" % (sp, ex(s["c"], c), B(s["th"]), sp, " else {\n%s%s}" % (B(s["el"]), sp) if s["el"] else "")
    if k == "for":
        v = "v%d" % s["i"]
        if s["post"]: return "%s%s = 0;\n%sdo {\n%s%s} while ((++%s, %s));\n" % (sp, v, sp, B(s["body"]), sp, v, ex(s["c"], c))
        return "%sfor (%s = 0; %s; %s++) {\n%s%s}\n" % (sp, v, ex(s["c"], c), v, B(s["body"]), sp)
    if k == "brk": return sp + "break;\n"
    if k == "cont": return sp + "continue;\n"
    if k == "switch":
        r = "%sswitch ((%s) & 7) {\n" % (sp, ex(s["e"], c))
        for x in s["cs"]: r += "%s%s:\n%s%s" % (sp, "default" if x["n"] == -1 else "case %d" % x["n"], B(x["body"]), sp + "  break;\n" if x["brk"] else sp + "  ;\n")
        return r + sp + "}\n"
    if k == "pset": return "%sP = A%d + ((%s) & 3);\n" % (sp, s["r"], ex(s["e"], c))
    if k == "sset": return "%s%s.f%d = %s;\n" % (sp, c.elem("(%s) & 3" % ex(s["i"], c), s), s["f"], ex(s["e"], c))
    if k == "scpy": return "%sSA[(%s) & 3] = SA[(%s) & 3];\n" % (sp, ex(s["i"], c), ex(s["i2"], c))
    if k == "call":
        f = p["fns"][s["f"] - 1]; xs = [ex(x, c) for x in s["xs"]]
        if s["s"]: return "%sSA[(%s) & 3] = fn%d(SA[(%s) & 3], %s);\n" % (sp, ex(s["s"][1], c), s["f"], ex(s["s"][0], c), ", ".join(xs))
        return "%sv%d = fn%d(%s);\n" % (sp, s["dst"], s["f"], ", ".join(xs + [c.ptr[r] for r in s["ps"]]))
    if k == "ret": return "%sreturn %s;\n" % (sp, "s" if fn["s"] else ex(s["e"], c))
    raise KeyError(k)
SLOT = 128
def source(p, noinline=False):
    o = ""
    if p["sf"]: o += "typedef struct { %s } S;\n" % " ".join("%s f%d;" % (ty(f), i + 1) for i, f in enumerate(p["sf"]))
    ca = p["arrs"][4]
    o += "constant %s A5[8] = {%s};\n" % (ty(ca), ", ".join(const({**ca, "val": v}) for v in p["const"]))
    for i, f in enumerate(p["fns"]):
        ps = (["S s"] if f["s"] else []) + ["%s v%d" % (ty(v), j + 1) for j, v in enumerate(f["vars"][:f["np"]])] + (["%s* p" % ty(p["arrs"][0])] if f["ptr"] else [])
        o += "%s%s fn%d(%s) {\n" % ("__attribute__((noinline)) " if noinline else "", "S" if f["s"] else ty(f["ret"]), i + 1, ", ".join(ps))
        o += "".join("  %s v%d = 0;\n" % (ty(v), j + 1) for j, v in enumerate(f["vars"]) if j >= f["np"])
        o += "".join(st(x, FN, 1, p, f) for x in f["body"]) + "}\n"
    A = [ty(x) for x in p["arrs"]]
    o += "kernel void k(global const uchar* in, global uchar* out, global uchar* ga) {\n  size_t id = get_global_id(0);\n"
    nv = len(p["vars"]); live = nv - 2; ns = live + 32 + 4 * len(p["sf"])
    o += "  in += id * %d; out += id * %d; ga += id * %d;\n" % (ns * SLOT, (ns + 1) * SLOT, 8 * SLOT)
    o += "  %s A1[8], A2[8]; local %s LA[4][8]; local %s* A3 = LA[get_local_id(0)]; global %s* A4 = (global %s*)ga; %s* P = A1;\n" % (A[0], A[2], A[2], A[3], A[3], A[0])
    if p["sf"]: o += "  S SA[4];\n"
    for j, v in enumerate(p["vars"]):
        o += "  %s v%d = %s;\n" % (ty(v), j + 1, "*(global const %s*)(in + %d)" % (ty(v), j * SLOT) if j < live else "0")
    for r in range(4): o += "  for (int i = 0; i < 8; i++) A%d[i] = *(global const %s*)(in + (%d + i) * %d);\n" % (r + 1, A[r], live + 8 * r, SLOT)
    for f, v in enumerate(p["sf"]): o += "  for (int i = 0; i < 4; i++) SA[i].f%d = *(global const %s*)(in + (%d + i) * %d);\n" % (f + 1, ty(v), live + 32 + 4 * f, SLOT)
    o += "".join(st(x, KERNEL, 1, p, None) for x in p["body"])
    for j, v in enumerate(p["vars"][:live]): o += "  *(global %s*)(out + %d) = v%d;\n" % (ty(v), j * SLOT, j + 1)
    for r in range(4): o += "  for (int i = 0; i < 8; i++) *(global %s*)(out + (%d + i) * %d) = A%d[i];\n" % (A[r], live + 8 * r, SLOT, r + 1)
    for f, v in enumerate(p["sf"]): o += "  for (int i = 0; i < 4; i++) *(global %s*)(out + (%d + i) * %d) = SA[i].f%d;\n" % (ty(v), live + 32 + 4 * f, SLOT, f + 1)
    o += "  out[%d] = P - A1 >= 0 && P - A1 < 8 ? 1 + (P - A1) : 64 + (P - A2);\n" % (ns * SLOT)
    return o.replace("P - A1 >= 0 && P - A1 < 8", "P >= A1 && P < A1 + 8") + "}\n"
_g = {}
OPTS = ["", "-O0", "-O1", "-O2", "-cl-opt-disable", "-O3"]
def run(s):
    if not _g: _g["ctx"] = ocl.context(); _g["q"] = ocl.queue(_g["ctx"])
    ctx, q = _g["ctx"], _g["q"]; ocl.mode(0)
    p = s["p"]; n = len(p["items"]); live = len(p["vars"]) - 2; ns = live + 32 + 4 * len(p["sf"])
    pad = lambda c: b"".join(map(bytes, c)).ljust(SLOT, b"\xee")
    data = b"".join(b"".join(map(pad, it["v"])) + b"".join(pad(x) for a in it["a"] for x in a) + b"".join(pad(it["s"][j][f]) for f in range(len(p["sf"])) for j in range(4)) for it in p["items"])
    res = []; src = source(p, s["noinline"])
    for opt in s["opts"]:
        pr = ocl.program(ctx, src, opt); k = ocl.kernel(pr, "k")
        bi = ocl.buffer(ctx, 1 | 32, len(data), data); bo = ocl.buffer(ctx, 1, n * (ns + 1) * SLOT); bg = ocl.buffer(ctx, 1, n * 8 * SLOT)
        for i, b in enumerate((bi, bo, bg)): ck(ocl.arg(k, i, ("m", b)))
        ck(ocl.run(q, k, [n], [n if s["u"] else 1]), "run")
        out = ocl.read(q, bo, n * (ns + 1) * SLOT); o = []
        def get(i, x, v):
            z = SIZE[v["t"]]; at = (i * (ns + 1) + x) * SLOT
            return [list(out[at + c * z:at + (c + 1) * z]) for c in range(v["w"])]
        for i in range(n):
            o.append({"v": [get(i, j, p["vars"][j]) for j in range(live)], "a": [[get(i, live + 8 * r + j, p["arrs"][r]) for j in range(8)] for r in range(4)],
                      "s": [[get(i, live + 32 + 4 * f + j, p["sf"][f]) for f in range(len(p["sf"]))] for j in range(4)] if p["sf"] else [], "p": out[(i * (ns + 1) + ns) * SLOT]})
        res.append(o)
        for b in (bi, bo, bg): ocl.cl.clReleaseMemObject(b)
        ocl.cl.clReleaseKernel(k); ocl.cl.clReleaseProgram(pr)
    return res
