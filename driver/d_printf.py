"""Runs PrintfGen's kernels; returns for every run the lines printed, by item, in order."""
import os, struct, tempfile
import ocl
from ocl import cl, ck
IT = {1: "char", 2: "short", 4: "int", 8: "long"}
def fmt(f):
    return "%" + "".join(c for n, c in (("minus", "-"), ("plus", "+"), ("space", " "), ("hash", "#"), ("zero", "0")) if f[n]) + (str(f["width"]) if f["width"] else "") + ("." + (str(f["prec"]) if f["prec"] or f["width"] % 2 else "") if f["prec"] >= 0 else "") \
        + ("v%d" % f["vec"] if f["vec"] > 1 else "") + f["len"] + f["conv"]
def num(x, w):
    v = {"inf": float("inf"), "nan": float("nan")}.get(x["c"]); v = x["m"] * 2.0 ** x["e"] if v is None else v
    return struct.pack("<d" if w == 8 else "<f", -v if x["neg"] else v)
def ctype(t, vec):
    n = ("float" if t["w"] == 4 else "double") if t["fl"] else ("" if t["s"] else "u") + IT[t["w"]]
    return n + (str(vec) if vec > 1 else "")
def source(s, use):
    out = "__constant char TAB[] = \"tab\";\n"; body = ""
    for c, call in enumerate(s["calls"]):
        f = "%u:" + str(c) + "|"; args = ["(uint)it"]
        for j, y in enumerate(call["items"]):
            if y["k"] == "txt": f += y["t"]
            elif y["k"] == "pct": f += "%%"
            else:
                f += fmt(y["f"])
                if y["t"]["w"] == 0: args.append('"%s"' % s["out"][0][c]["args"][j][0].replace("%", "%"))
                else:
                    t, n = ctype(y["t"], y["f"]["vec"]), y["f"]["vec"]; a = "A + %d + it * %d" % (use[c, j], use["n"])
                    if n == 3: args.append("vload3(0, (global const %s*)(%s))" % (t[:-1], a))
                    else: args.append("*(global const %s*)(%s)" % (t, a))
        p = 'R[it] |= printf("%s\\n", %s);' % (f, ", ".join(args))
        if call["fn"]:
            out += "__attribute__((noinline)) void f%d(size_t it, global const uchar *A, global int *R) { %s }\n" % (c, p); p = "f%d(it, A, R);" % c
        body += "  %sfor (int x = 0; x < %d; x++) { %s }\n" % ({"all": "", "odd": "if (it % 2 == 1) ", "first": "if (get_local_id(0) == 0) "}[call["by"]], call["times"], p)
    return "%skernel void k(global const uchar *A, global int *R) {\n  size_t it = get_global_id(0);\n%s}\n" % (out, body)
def run(s):
    ocl.mode(0); ctx = ocl.context(); q = ocl.queue(ctx)
    use = {}; pos = 0
    for c, call in enumerate(s["calls"]):
        for j, y in enumerate(call["items"]):
            if y["k"] == "cnv": use[c, j] = pos; pos += 128
    use["n"] = pos = max(pos, 128)
    data = bytearray(pos * s["n"])
    for i in range(s["n"]):
        for c, call in enumerate(s["calls"]):
            for j, y in enumerate(call["items"]):
                if y["k"] == "cnv" and y["t"]["w"]:
                    b = b"".join(num(v, y["t"]["w"]) if y["t"]["fl"] else bytes(v) for v in s["out"][i][c]["args"][j])
                    data[i * pos + use[c, j]:i * pos + use[c, j] + len(b)] = b
    src = source(s, use); A = ocl.buffer(ctx, 4 | 32, len(data), bytes(data)); R = ocl.buffer(ctx, 1 | 32, 4 * s["n"], bytes(4 * s["n"])); res = []
    for opt, thr in (("", 1), ("-cl-opt-disable", 8)):
        p = ocl.program(ctx, src, opt + " -Wno-format -Wno-format-invalid-specifier"); k = ocl.kernel(p, "k")
        ck(ocl.arg(k, 0, ("m", A))); ck(ocl.arg(k, 1, ("m", R))); ocl.setenv("OCLGRIND_NUM_THREADS", thr)
        with tempfile.TemporaryFile() as f:
            ocl.libc.fflush(None); old = os.dup(1); os.dup2(f.fileno(), 1)
            try: e = ocl.run(q, k, [s["n"]], [s["l"]])
            finally: ocl.libc.fflush(None); os.dup2(old, 1); os.close(old)
            ck(e, "run"); f.seek(0); t = f.read().decode("latin1")
        res.append(t); cl.clReleaseKernel(k); cl.clReleaseProgram(p)
    r = ocl.read(q, R, 4 * s["n"])
    for b in (A, R): cl.clReleaseMemObject(b)
    cl.clReleaseCommandQueue(q); cl.clReleaseContext(ctx)
    return {"out": res, "ret": r == bytes(4 * s["n"])}
