"""Carries out ProgramGen's histories of programs and kernels and reports every return code, callback, query and result."""
import ctypes as C, os, random
import ocl
from ocl import cl, vptr, i32, u32, u64, size_t
E = C.byref
def unit_text(u, d):
    t = "#ifdef BAD\n#error bad macro\n#endif\n#ifndef M\n#define M 5\n#endif\n"
    if d["hdr"]: t += '#include "dir/h%d.h"\n' % u
    t += "constant int tab%d[3] = {M, 7, %d};\n" % (u, d["ks"][0]["c"] if d["ks"] else 0)
    if d["gv"]: t += "global int gv%d = %d;\n" % (u, 10 * u)
    for f in d["fs"]: t += "int %s(int x) { return x + %d + (M); }\n" % (f["n"], f["c"])
    own = {f["n"] for f in d["fs"]}
    for e in sorted({k["ext"] for k in d["ks"]} - own - {""}): t += "int %s(int x);\n" % e
    for k in d["ks"]:
        ps = "".join(", int a%d" % i for i in range(1, k["extra"] + 1))
        at = "__attribute__((reqd_work_group_size(%d, 1, 1))) " % k["rq"] if k["rq"] else ""
        if k["hint"]: at += "__attribute__((work_group_size_hint(%d, 2, 1))) " % k["hint"]
        if k["vec"]: at += "__attribute__((vec_type_hint(%s))) " % k["vec"]
        t += "%skernel void %s(global int *o%s) {\n  constant int *t = tab%d;\n  int v = %d + 100 * (M) + t[a1 %% 3]%s%s%s;\n" % (
            at, k["n"], ps, u, k["c"], " + HV" if d["hdr"] else "", "".join(" + a%d" % i for i in range(1, k["extra"] + 1)), " + %s(a1)" % k["ext"] if k["ext"] else "")
        if d["gv"]: t += "  if (get_global_id(0) == 0) { gv%d = gv%d + 1; o[0] = v + gv%d; }\n" % (u, u, u)
        else: t += "  o[get_global_id(0)] = v;\n"
        t += "}\n"
    if d["bad"]: t += "kernel void broken(global int *o) { o[0] = ; }\n"
    return t
NOISE = ["-w", "-cl-mad-enable", "-cl-kernel-arg-info", "-cl-fast-relaxed-math", "-cl-no-signed-zeros", "-cl-denorms-are-zero", "-cl-finite-math-only", "-cl-single-precision-constant",
         "-cl-unsafe-math-optimizations", "-O0", "-O2", "-cl-opt-disable", "-I /tmp", "-DOTHER", "-D OTHER2=1", '-DTXT="a b"', "-cl-no-subgroup-ifp"]
def options(o, noise=True):
    rnd = random.Random(o["lay"]); ts = []
    def macro(n, v):
        w = str(v); k = rnd.randrange(7)
        if k == 1: return "-D %s=%s" % (n, w)
        if k == 2: return '-D%s="%s"' % (n, w)
        if k == 3: return '"-D%s=%d + %d"' % (n, v - 1, 1)
        if k == 4: return "-D%s=%d\\ +\\ %d" % (n, v - 2, 2)
        if k == 5: return "-D%s=(%s)" % (n, w)
        return "-D%s=%s" % (n, w)
    def more():
        if rnd.random() < 0.4: ts.append(rnd.choice(NOISE))
    more()
    if o["m"] >= 0:
        if rnd.random() < 0.15: ts.append(macro("M", o["m"] + 1))
        more(); ts.append(macro("M", o["m"]))
    if o["un"]: more(); ts.append(rnd.choice(["-UM", "-U M"]))
    if rnd.random() < 0.3: ts.append("-DMM=77")
    b = {"macro": "-DBAD", "unknown": "-no-such-option", "stray": "stray", "nofile": "-include no/such/file.h", "badstd": ""}.get(o["bad"])
    if b: ts.insert(rnd.randrange(len(ts) + 1), b)
    if rnd.random() < 0.2: ts.append("-cl-std=CL1.2")
    std = "-cl-std=CL9.9" if o["bad"] == "badstd" else "-cl-std=CL2.0" if o["std2"] else rnd.choice(["", "", "-cl-std=CL1.2"])
    if std: ts.append(std)
    elif ts and ts[-1] == "-cl-std=CL1.2": pass
    more()
    s = "".join(t + " " * rnd.choice([1, 1, 1, 2, 3]) for t in ts)
    if rnd.random() < 0.5: s = s.strip()
    if rnd.random() < 0.1: s = "  " + s
    return s
def text(f, h, what):
    n = size_t(77777)
    r = f(h, what, 0, None, E(n))
    if r: return r
    b = C.create_string_buffer(b"\xee" * (n.value + 8), n.value + 8)
    r = f(h, what, n.value, b, None)
    if r: return "second query %d" % r
    if n.value and b.raw[n.value - 1] != 0: return "unterminated"
    if b.raw[n.value:n.value + 8] != b"\xee" * 8: return "overrun"
    return b.raw[:n.value - 1].decode("latin1")
def binfo(p):
    return lambda h, w, s, v, n: cl.clGetProgramBuildInfo(h, ocl.device, w, s, v, n)
def binary(p):
    n = size_t(); ocl.ck(cl.clGetProgramInfo(p, 0x1165, 8, E(n), None))
    if not n.value: return b""
    b = C.create_string_buffer(b"\xee" * (n.value + 8), n.value + 8); a = (vptr * 1)(C.addressof(b))
    ocl.ck(cl.clGetProgramInfo(p, 0x1166, 8, a, None))
    if b.raw[n.value:] != b"\xee" * 8: raise ocl.CLError("binary overruns its size")
    return b.raw[:n.value]
def load(ctx, data):
    d = vptr(ocl.device); ln = size_t(len(data)); b = C.create_string_buffer(data, max(1, len(data))); a = (vptr * 1)(C.addressof(b)); st = i32(555); e = i32(555)
    p = cl.clCreateProgramWithBinary(ctx, 1, E(d), E(ln), a, E(st), E(e))
    return p, e.value, st.value
def run(s):
    ocl.mode(0); e = i32()
    ocl.setenv("OCLGRIND_BUILD_OPTIONS", None)
    ctx = ocl.context(); q = ocl.queue(ctx); out = ocl.buffer(ctx, ocl.MEM_RW, 64)
    P, K, kids, texts, opts = [None], {}, {}, [None], [None]
    units = [unit_text(i + 1, u) for i, u in enumerate(s["units"])]
    fired = []
    cb = ocl.PROGCB(lambda p, d: fired.append((p, d)))
    res = []
    def see(v):
        p = P[v["p"]]; f = binfo(p)
        r = {"status": ocl.info(f, p, 0x1181, i32), "type": ocl.info(f, p, 0x1184, u32), "size": ocl.info(f, p, 0x1185, size_t), "nk": ocl.info(cl.clGetProgramInfo, p, 0x1167, size_t),
             "names": text(cl.clGetProgramInfo, p, 0x1168), "log": text(f, p, 0x1183), "opt": text(f, p, 0x1182) == opts[v["p"]], "src": text(cl.clGetProgramInfo, p, 0x1164) == texts[v["p"]],
             "bin": ocl.info(cl.clGetProgramInfo, p, 0x1165, size_t)}
        n = u32(4444); r["kp"] = [cl.clCreateKernelsInProgram(p, 0, None, E(n)), n.value]
        if isinstance(r["log"], str): r["log"] = r["log"][:300]
        return r
    def kinfo(k):
        b = ocl.sizes(9, 9, 9); cl.clGetKernelWorkGroupInfo(k, ocl.device, 0x11B1, 24, b, None)
        return {"n": text(cl.clGetKernelInfo, k, 0x1190), "nargs": ocl.info(cl.clGetKernelInfo, k, 0x1191), "at": text(cl.clGetKernelInfo, k, 0x1195), "cws": list(b), "prog": ocl.info(cl.clGetKernelInfo, k, 0x1194, u64)}
    for o in s["ops"]:
        t = o["o"]; r = {}; del fired[:]
        if t == "source":
            src = units[o["u"] - 1].encode(); rnd = random.Random(o["lay"]); n = rnd.choice([1, 1, 2, 5])
            cuts = [0] + sorted(rnd.randrange(len(src)) for _ in range(n - 1)) + [len(src)]
            parts = [src[a:b] for a, b in zip(cuts, cuts[1:])]; lens = None
            if rnd.random() < 0.5:
                ls = [len(x) if rnd.random() < 0.6 else 0 for x in parts]; lens = ocl.arr(size_t, ls)
                parts = [x + (b"@junk" if l else b"") for x, l in zip(parts, ls)]
                if any(l == 0 and not x for l, x in zip(ls, parts)): pass
            p = cl.clCreateProgramWithSource(ctx, len(parts), ocl.arr(C.c_char_p, parts), lens, E(e)); r["rc"] = e.value
            P.append(p); texts.append(src.decode()); opts.append("")
        elif t in ("build", "compile"):
            p = P[o["p"]]; op = options(o["opt"]); f = cb if o["cb"] else None; d = 4321 if o["cb"] else None
            ocl.setenv("OCLGRIND_BUILD_OPTIONS", "-DM=%d" % o["opt"]["env"] if o["opt"]["env"] >= 0 else None)
            dv = vptr(ocl.device); nd = o["lay"] % 2
            if t == "build": r["rc"] = cl.clBuildProgram(p, nd, E(dv) if nd else None, op.encode() if op or o["lay"] % 3 else None, f, d)
            else:
                names, heads = [], []
                if o["hv"] >= 0:
                    for i, u in enumerate(s["units"]):
                        body = "#define HV %d\n" % o["hv"]
                        if o["lay"] % 4 == 1: names.append("sub%d.h" % i); heads.append(ocl.program(ctx, body, build=False)); body = '#include "sub%d.h"\n' % i
                        names.append("dir/h%d.h" % (i + 1)); heads.append(ocl.program(ctx, body, build=False))
                r["rc"] = cl.clCompileProgram(p, nd, E(dv) if nd else None, op.encode(), len(names), ocl.handles(heads), ocl.arr(C.c_char_p, [x.encode() for x in names]), f, d)
                for h in heads: cl.clReleaseProgram(h)
            ocl.setenv("OCLGRIND_BUILD_OPTIONS", None)
            r["cb"] = [[a == p, b] for a, b in fired]
            if r["rc"] != -59: opts[o["p"]] = op
        elif t == "link":
            ps = [P[i] for i in o["ps"]]; f = cb if o["cb"] else None
            p = cl.clLinkProgram(ctx, 0, None, b"-create-library" if o["lib"] else b"", len(ps), ocl.handles(ps), f, 4321 if f else None, E(e)); r["rc"] = e.value; r["null"] = not p
            r["cb"] = [[a == p, b] for a, b in fired]
            if p or o["rc"] == 0: P.append(p); texts.append(""); opts.append(None)
        elif t == "reload":
            p, r["rc"], r["bs"] = load(ctx, binary(P[o["p"]])); P.append(p); texts.append(""); opts.append("")
        elif t == "badbin":
            rnd = random.Random(o["lay"]); k = o["lay"] % 4
            good = [binary(P[i]) for i in range(1, len(P)) if P[i]]; good = [g for g in good if g]
            data = good[0][:len(good[0]) // 2 // 4 * 4] if k == 0 and good else b"BC\xc0\xde" + rnd.randbytes(40) if k == 1 else rnd.randbytes(64) if k == 2 else b"kernel void k() {}"
            p, r["rc"], r["bs"] = load(ctx, data); r["null"] = not p
        elif t == "kernel":
            k = cl.clCreateKernel(P[o["p"]], o["n"].encode(), E(e)); r["rc"] = e.value; r["null"] = not k
            if k: r["info"] = kinfo(k); r["info"]["prog"] = r["info"]["prog"] == P[o["p"]]; K[o["id"]] = k
        elif t == "kernels":
            a = (vptr * 16)(); n = u32(4444); m = len(o["ns"])
            if m > 1: r["few"] = cl.clCreateKernelsInProgram(P[o["p"]], m - 1, a, None)
            r["rc"] = cl.clCreateKernelsInProgram(P[o["p"]], 16 if o["p"] % 2 else m, a, E(n)) if m or o["rc"] else 0; r["n"] = n.value if m else 0
            got = {} if r["rc"] else {text(cl.clGetKernelInfo, a[i], 0x1190): a[i] for i in range(16) if a[i]}; r["got"] = sorted(got); r["cnt"] = sum(1 for i in range(16) if a[i])
            if r["rc"] == 0:
                for i, n in zip(o["ids"], o["ns"]): K[i] = got.get(n)
        elif t == "clone":
            K[o["id"]] = cl.clCloneKernel(K[o["k"]], E(e)); r["rc"] = e.value
        elif t == "run":
            k = K[o["k"]]; ocl.write(q, out, bytes(64)); rc = [ocl.arg(k, 0, ("m", out))]
            for i, a in enumerate(o["args"]): rc.append(ocl.arg(k, i + 1, ("b", a.to_bytes(4, "little"))))
            n = o["rq"] or 1; r["args"] = rc; r["rc"] = ocl.run(q, k, [n], [n]); r["value"] = int.from_bytes(ocl.read(q, out, 4), "little", signed=True)
        elif t == "freek": r["rc"] = cl.clReleaseKernel(K.pop(o["k"]))
        elif t == "freep": r["rc"] = cl.clReleaseProgram(P[o["p"]]); P[o["p"]] = None
        r["see"] = [see(v) for v in o["see"]]
        res.append(r)
    return {"ops": res}
