"""Executes histories of AccessGen: every item of a launch makes one access, every group may make an
asynchronous copy. Returns per step what items loaded, the memory, and the reports by item and group."""
import struct, re, ctypes as C
import ocl
from ocl import cl, ck
NG, CONST = 5, 6
U = {1: "uchar", 2: "ushort", 4: "uint", 8: "ulong", 16: "uint4", 32: "uint8"}
SPL = {1: "(uchar)(V)", 2: "(ushort)((V) * 0x101)", 4: "((uint)(V) * 0x1010101u)", 8: "((ulong)(V) * 0x101010101010101ul)", 16: "(uint4)((uint)(V) * 0x1010101u)", 32: "(uint8)((uint)(V) * 0x1010101u)"}
# code per (kind, bytes); P pointer, V value, M comparand, O where loaded bytes go
OPS = {}
for n, t in U.items():
    OPS["ld", n] = "*(global %s*)O = *(AS %s*)P;" % (t, t)
    OPS["st", n] = "*(AS %s*)P = %s;" % (t, SPL[n])
OPS["vl", 4] = "vstore4(vload4(0, (AS uchar*)P), 0, O);"
OPS["vl", 12] = "vstore3(vload3(0, (AS uint*)P), 0, (global uint*)O);"
OPS["vl", 16] = "vstore16(vload16(0, (AS uchar*)P), 0, O);"
OPS["vs", 4] = "vstore2((short2)(V * 0x101), 0, (AS short*)P);"
OPS["vs", 12] = "vstore3((uint3)(V * 0x1010101u), 0, (AS uint*)P);"
OPS["vs", 16] = "vstore16((uchar16)V, 0, (AS uchar*)P);"
OPS["hl", 2] = "*(global float*)(O + 32) = vload_half(0, (AS half*)P);"
OPS["hl", 8] = "*(global float4*)(O + 32) = vload_half4(0, (AS half*)P);"
OPS["hs", 8] = "vstore_half4((float4)(vload_half(0, (private half*)hv)), 0, (AS half*)P);"
OPS["sl", 24] = "*(global S*)O = *(AS S*)P;"
OPS["ss", 24] = "for (int i = 0; i < 24; i++) ((volatile global uchar*)O)[i] = V; *(AS S*)P = *(global S*)O;"
ATM = {("at", 4): "*(global uint*)O = atomic_xchg((volatile AS uint*)P, %s);" % SPL[4], ("at", 8): "*(global ulong*)O = atom_xchg((volatile AS ulong*)P, %s);" % SPL[8],
       ("cx", 4): "*(global uint*)O = atomic_cmpxchg((volatile AS uint*)P, (uint)M * 0x1010101u, %s);" % SPL[4],
       ("cx", 8): "*(global ulong*)O = atom_cmpxchg((volatile AS ulong*)P, (ulong)M * 0x101010101010101ul, %s);" % SPL[8]}
CODE = {k: i for i, k in enumerate(list(OPS) + list(ATM))}
RO = [k for k in OPS if k[0] in ("ld", "vl", "sl")]
def sw(space, ops):
    return "switch (op) {\n" + "\n".join("    case %d: %s break;" % (CODE[k], {**OPS, **ATM}[k].replace("AS ", space + " ")) for k in ops) + "\n  }"
def source():
    fns = ""
    for sp, nm, ops in [("global", "gl", list(CODE)), ("local", "lo", list(CODE)), ("private", "pr", list(OPS)), ("constant", "co", RO)]:
        fns += "void %s(int op, %s uchar* P, int V, int M, global uchar* O) {\n  ushort hv[1]; hv[0] = V * 0x101;\n  %s\n}\n" % (nm, sp, sw(sp, ops))
    return """#pragma OPENCL EXTENSION cl_khr_int64_base_atomics : enable
typedef struct { ulong a, b, c; } S;
constant uchar PC[20] __attribute__((aligned(16))) = {%s};
%s
#define CP(T) { if (c[1]) e = async_work_group_strided_copy((local T*)(la + c[6]), (const global T*)(gb + c[5]), c[3], c[4], 0); else e = async_work_group_strided_copy((global T*)(gb + c[5]), (const local T*)(la + c[6]), c[3], c[4], 0); }
kernel void acc(global const long* prog, global const long* cps, global uchar* out, global uchar* locs, global uchar* prvs, global uchar* g1, global uchar* g2, global uchar* g3, global uchar* g4, global uchar* g5,
                constant uchar* cc, local uchar16* larg16) {
  local uchar la[40] __attribute__((aligned(16)));
  local uchar* larg = (local uchar*)larg16;
  uchar pr[24] __attribute__((aligned(16)));
  size_t id = get_global_id(0), g = get_group_id(0), l = get_local_id(0);
  for (int i = 0; i < 24; i++) pr[i] = 9;
  if (l == 0) { for (int i = 0; i < 40; i++) la[i] = 7; for (int i = 0; i < 24; i++) larg[i] = 7; }
  barrier(CLK_LOCAL_MEM_FENCE);
  global const long* c = cps + g * 8;
  event_t e;
  if (c[0]) {
    global uchar* gb = (global uchar*)0;
    switch (c[2]) { case 1: gb = g1; break; case 2: gb = g2; break; case 3: gb = g3; break; case 4: gb = g4; break; case 5: gb = g5; break; default: gb = (global uchar*)c[7]; }
    switch (c[0]) { case 1: CP(uchar) break; case 2: CP(ushort) break; case 4: CP(uint) break; case 8: CP(ulong) break; case 16: CP(uint4) break; }
    wait_group_events(1, &e);
  }
  barrier(CLK_LOCAL_MEM_FENCE);
  global const long* o = prog + id * 6;
  int op = o[0]; long off = o[2]; int V = o[3], M = o[4]; global uchar* O = out + 64 * id;
  if (op >= 0) switch (o[1]) {
    case 1: gl(op, g1 + off, V, M, O); break;
    case 2: gl(op, g2 + off, V, M, O); break;
    case 3: gl(op, g3 + off, V, M, O); break;
    case 4: gl(op, g4 + off, V, M, O); break;
    case 5: gl(op, g5 + off, V, M, O); break;
    case 6: co(op, cc + off, V, M, O); break;
    case 7: co(op, PC + off, V, M, O); break;
    case 8: lo(op, la + off, V, M, O); break;
    case 9: lo(op, larg + off, V, M, O); break;
    case 10: pr_(op, pr + off, V, M, O); break;
    default: gl(op, (global uchar*)(o[5] + off), V, M, O); break;
  }
  barrier(CLK_LOCAL_MEM_FENCE);
  for (int i = 0; i < 24; i++) prvs[24 * id + i] = pr[i];
  if (l == 0) { for (int i = 0; i < 40; i++) locs[64 * g + i] = la[i]; for (int i = 0; i < 24; i++) locs[64 * g + 40 + i] = larg[i]; }
}
kernel void where(global uchar* g, global ulong* o) { *o = (ulong)g; }
""" .replace("pr_(", "pr(").replace("uchar pr[24]", "uchar pv[24]").replace("pr[i]", "pv[i]").replace("pr + off", "pv + off") % (", ".join(str((7 * 41 + j * 7) % 256) for j in range(1, 21)), fns)
_g = {}
def setup():
    if _g: return
    ctx = _g["ctx"] = ocl.context(); _g["q"] = ocl.queue(ctx)
    p = ocl.program(ctx, source())
    _g["k"] = ocl.kernel(p, "acc"); _g["w"] = ocl.kernel(p, "where")
FLAG = {"rw": 1, "wo": 2, "ro": 4}
MAP = {"r": 1, "w": 2, "rw": 3, "inv": 4}
def classify(t):
    m = re.match(r"Invalid (read|write) of size (\d+) at (\w+) memory", t)
    if m: return [m.group(1), int(m.group(2)), m.group(3)]
    for k, s in (("wo", "Invalid read from write-only"), ("ro", "Invalid write to read-only"), ("mapw", "Invalid read from buffer mapped"), ("mapped", "Invalid write to mapped")):
        if t.startswith(s): return [k, 0, ""]
    return ["?", 0, t[:150]]
def run(s):
    setup(); ctx, q = _g["ctx"], _g["q"]; ocl.mode(0); ocl.api_errors()
    ini = lambda i: bytes((i * 41 + j * 7) % 256 for j in range(1, s["sizes"][i - 1] + 1))
    B = {i: ocl.buffer(ctx, FLAG[s["flags"][i - 1]] | 32, s["sizes"][i - 1], ini(i)) for i in range(1, CONST + 1)}
    addr = {11: 0, 12: 0x7777000000000400}
    w = ocl.buffer(ctx, 1, 8)
    T = [ocl.buffer(ctx, 1, z) for z in (8 * 6 * 12, 8 * 8 * 3, 64 * 12, 64 * 3, 24 * 12)]      # (allocated first: a freed buffer's place is not used again)
    for i in B:
        ck(ocl.arg(_g["w"], 0, ("m", B[i]))); ck(ocl.arg(_g["w"], 1, ("m", w))); ck(ocl.run(q, _g["w"], [1]))
        addr[i] = struct.unpack("Q", ocl.read(q, w, 8))[0]
    maps = {}; alive = set(B); res = []; tmp = []
    def sub(i, org):
        if not org: return B[i]
        e = C.c_int32(); r = (C.c_size_t * 2)(org, s["sizes"][i - 1] - org)
        h = cl.clCreateSubBuffer(B[i], 0, 0x1220, r, C.byref(e)); ck(e.value, "sub-buffer"); tmp.append(h); return h
    ocl.fetch()
    for st in s["log"]:
        o = {}; ocl.mode(ocl.MESSAGES | (ocl.PERTURB if st["op"] == "launch" else 0))
        if st["op"] == "map":
            e = C.c_int32(); v = st["via"]
            p = cl.clEnqueueMapBuffer(q, sub(st["o"], v), 1, MAP[st["kind"]], st["off"] - v, st["n"], 0, None, None, C.byref(e)); ck(e.value, "map")
            maps[st["id"]] = (sub(st["o"], v) if v else B[st["o"]], p)
        elif st["op"] == "unmap":
            h, p = maps.pop(st["id"]); ck(cl.clEnqueueUnmapMemObject(q, h, p, 0, None, None), "unmap"); ck(cl.clFinish(q))
        elif st["op"] == "free":
            cl.clReleaseMemObject(B[st["o"]]); alive.discard(st["o"])
        elif st["op"] == "host":
            if st["how"] == 1: ocl.write(q, B[st["o"]], bytes([st["v"]]) * st["n"], st["off"])
            else:
                pat = C.create_string_buffer(bytes([st["v"]]), 1)
                ck(cl.clEnqueueFillBuffer(q, B[st["o"]], pat, 1, st["off"], st["n"], 0, None, None), "fill"); ck(cl.clFinish(q))
        else:
            n = st["G"] * st["L"]; via = {i: st["via"][i - 1] if i in alive else 0 for i in range(1, CONST + 1)}
            prog = []
            for a in st["acc"]:
                if a["k"] == "no": prog += [-1] + [0] * 5; continue
                sp = a["sp"]; raw = sp in addr and sp not in alive
                prog += [CODE[a["k"], a["n"]], 12 if raw else sp, a["off"] - via.get(sp, 0), a["v"], a["cmp"], addr[sp] if raw else 0]
            cps = []
            for c in st["cps"] or [{"dir": "no"}] * st["G"]:
                cps += [0] * 8 if c["dir"] == "no" else [c["sz"], int(c["dir"] == "in"), c["o"] if c["o"] in alive else 12, c["n"], c["st"], c["go"] - via[c["o"]], c["lo"], addr[c["o"]]]
            pk = lambda x: struct.pack("%dQ" % len(x), *[y % 2**64 for y in x])
            ocl.write(q, T[0], pk(prog)); ocl.write(q, T[1], pk(cps))
            for z, x in ((64 * n, T[2]), (64 * st["G"], T[3]), (24 * n, T[4])): ocl.write(q, x, b"\0" * z)
            k = _g["k"]; A = [("m", x) for x in T] + [("m", sub(i, via[i]) if i in alive else w) for i in range(1, CONST + 1)] + [("l", 24)]
            for i, a in enumerate(A): ck(ocl.arg(k, i, a), "argument %d" % i)
            ocl.setenv("OCLGRIND_NUM_THREADS", st["thr"]); ocl.vp.vp_seed(st["thr"] + n)
            ck(ocl.run(q, k, [n], [st["L"]]), "run")
            for i, a in enumerate(A):                    # (sub-buffers of the arguments keep their buffer alive)
                if a[0] == "m": ck(ocl.arg(k, i, ("m", w)))
            if not maps:
                for h in tmp: cl.clReleaseMemObject(h)
                tmp.clear()
            o["rep"] = []
            for x in ocl.fetch():
                m = re.match(r"m (\d+) (.*)", x)
                if not m: continue
                t = m.group(2).replace("\\n", "\n").replace("\\t", "\t")
                e = re.search(r"Entity:\s+Global\((\d+),", t); g = re.search(r"Entity:\s+Group\((\d+),", t)
                o["rep"].append(["i", int(e.group(1))] + classify(t) if e else ["g", int(g.group(1)) if g else -1] + classify(t))
            ocl.mode(0)
            ob = ocl.read(q, T[2], 64 * n); lo = ocl.read(q, T[3], 64 * st["G"]); pv = ocl.read(q, T[4], 24 * n)
            o["obs"] = [list(ob[64 * i:64 * i + 32]) for i in range(n)]
            o["loc"] = [list(lo[64 * i:64 * i + 64]) for i in range(st["G"])]
            o["prv"] = [list(pv[24 * i:24 * i + 24]) for i in range(n)]
        ocl.mode(0)
        o["other"] = [x[:200] for x in ocl.fetch() if x.startswith("m ")]
        o["b"] = {str(i): list(ocl.read(q, B[i], s["sizes"][i - 1])) for i in sorted(alive)}
        res.append(o)
    for h, p in maps.values(): cl.clEnqueueUnmapMemObject(q, h, p, 0, None, None)
    cl.clFinish(q)
    for h in tmp + [B[i] for i in alive] + [w] + T: cl.clReleaseMemObject(h)
    return {"steps": res, "api": ocl.api_errors()}
