"""Debugging sessions of DebuggerGen: writes the program and the commands, runs them in a forked process with the
interactive debugger, and returns what was printed for each command and what the kernel computed."""
import os, re, sys, tempfile, traceback
from ocl import *
def val(x): return "%s + %s" % (x["a"], x["b"] or x["c"])
def line(x):
    k = x["k"]
    if k == "cv": return "  %s %s = %s;" % (x["w"], x["v"], x["a"])
    if k == "ts": return "  struct S t; t.a = %s; t.b = %s;" % (x["a"], x["b"])
    if k == "th": return "  private int *h = &%s;" % x["a"]
    if k == "tl": return "  l[0] = %s; l[1] = %s;" % (x["a"], x["b"])
    if k == "ldecl": return "  local int l[2];"
    if k == "sdef": return "struct S { int a; char c; short b; };"
    if k == "fn": return "kernel void k(global int *a)" if x["f"] == "k" else "int %s(int p)" % x["f"]
    return {"open": "{", "close": "  }", "end": "}", "blank": "", "gid": "  int g = get_global_id(0) + 8 * get_global_id(1);", "bar": "  barrier(CLK_LOCAL_MEM_FENCE);"}.get(k) \
        if k in ("open", "close", "end", "blank", "gid", "bar") else \
        "  int %s = %s;" % (x["v"], val(x)) if k == "decl" else "  %s = %s;" % (x["v"], val(x)) if k == "asg" else \
        "  while (%s < %s) {" % (x["a"], x["b"] or x["c"]) if k == "while" else "  if (%s < %s) %s = %s + %s;" % (x["a"], x["b"] or x["c"], x["v"], x["v"], x["w"]) if k == "if" else \
        "  %s = %s(%s);" % (x["v"], x["f"], x["a"]) if k == "call" else "  return %s;" % x["a"] if k == "ret" else \
        "  a[g] = %s + %s;" % (x["a"], x["b"]) if k == "st" else "  %s = a[g];" % x["v"] if k == "ld" else "  a[g + 90000] = %s;" % x["a"]
SHORT = {"step": "s", "next": "n", "continue": "c", "break": "b", "delete": "d", "info": "i", "backtrace": "bt", "print": "p", "workitem": "wi", "quit": "q", "list": "l", "gmem": "gm", "lmem": "lm"}
def command(c, i, addr):
    k, a = c[0], c[1:]
    sh = lambda n: SHORT[n] if (i * 7 + len(a)) % 3 else n
    if k == "delall": return sh("delete") + "\n" + ("y" if a[0] else "n")
    if k == "infobreak": return sh("info") + " break"
    if k == "print": return sh("print") + "".join(" " + v[0] + (v[1] if len(v) == 2 else "") for v in a)
    if k == "listfwd": return sh("list")
    if k == "listback": return sh("list") + " -"
    if k == "gmemall": return sh("gmem")
    if k == "gmem": return sh("gmem") + " %x" % (addr + 4 * a[0]) + (" %d" % (4 * a[1]) if a[1] != 2 or i % 2 else "")
    if k not in SHORT: return k
    return sh(k) + "".join(" %d" % v for v in a)
def child(s, inp, out):
    os.environ["OCLGRIND_INTERACTIVE"] = "1"
    o = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC); os.dup2(o, 1)
    mode(ALLOCS); ctx = context(); q = queue(ctx)
    ks = [kernel(program(ctx, "\n".join(line(x) for x in p) + "\n", "-cl-std=CL2.0"), "k") for p in s["srcs"]]
    fetch(); b = buffer(ctx, 1 | 32, 128, (i32 * 32)(*s["log"][0]["mem"])); al = fetch()
    addr = int([x for x in al if x.startswith("al ")][-1].split()[1], 16)
    with open(inp, "w") as f:
        for i, l in enumerate(s["log"][1:], 1): f.write("@%d\n%s\n" % (i, command(l["c"], i, addr)))
    i0 = os.open(inp, os.O_RDONLY); os.dup2(i0, 0)
    for k in ks: ck(cl.clSetKernelArg(k, 0, 8, C.byref(vptr(b))))
    for L in s["launches"]:
        ck(cl.clEnqueueNDRangeKernel(q, ks[L["p"] - 1], 3, sizes(*L["off"]), sizes(*L["n"]), sizes(*L["l"]), 0, None, None)); ck(cl.clFinish(q))
    res = (i32 * 32).from_buffer_copy(read(q, b, 128))
    libc.fflush(None)
    with open(inp + ".res", "w") as f: f.write("%d %s" % (addr, " ".join(str(x) for x in res)))
def run(s):
    d = tempfile.mkdtemp(prefix="vdbg"); inp, out = d + "/in", d + "/out"
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 0
        try: child(s, inp, out)
        except BaseException: rc = 9; open(inp + ".exc", "w").write(traceback.format_exc())
        os._exit(rc)
    st = os.waitpid(pid, 0)[1]
    try:
        if os.path.exists(inp + ".exc"): return {"exception": open(inp + ".exc").read()[-600:]}
        text = open(out, "rb").read().decode("latin1") if os.path.exists(out) else ""
        if st or not os.path.exists(inp + ".res"): return {"died": st, "out": text[-800:], "src": "\n".join("%d %s" % (i, line(x)) for p in s["srcs"] for i, x in enumerate(p, 1))}
        r = open(inp + ".res").read().split()
        secs = re.split(r"Unrecognized command '@(\d+)'\n", text)
        return {"secs": [secs[0]] + secs[2::2], "nums": [int(x) for x in secs[1::2]], "addr": int(r[0]), "mem": [int(x) for x in r[1:]], "src": [[line(x) for x in p] for p in s["srcs"]], "cmds": open(inp).read().splitlines()}
    finally:
        for f in (inp, out, inp + ".res", inp + ".exc"):
            if os.path.exists(f): os.unlink(f)
        os.rmdir(d)
