"""Runs RaceGen's launches with race detection on; returns the race reports of every launch:
[kind, space, byte, entity, entity], entity: ["i", gx, gy, gz] or ["g", gx, gy, gz]."""
import struct, re, os
import ocl
from ocl import cl, ck
T = {1: "uchar", 2: "ushort", 4: "uint", 8: "ulong", 16: "ulong2"}
V = {1: "(uchar)d[0]", 2: "(ushort)d[0]", 4: "(uint)d[0]", 8: "(ulong)d[0]", 16: "(ulong2)(d[0], d[1])"}
OPS = {}
for n, t in T.items():
    OPS["ld", n] = "*(global %s*)O = *(AS volatile %s*)P;" % (t, t)
    OPS["st", n] = "*(AS %s*)P = %s;" % (t, V[n])
OPS["ld", 12] = "vstore3(vload3(0, (AS uint*)P), 0, (global uint*)O);"
OPS["st", 12] = "vstore3((uint3)((uint)d[0], (uint)(d[0] >> 32), (uint)d[1]), 0, (AS uint*)P);"
OPS["ld", 24] = "*(global S*)O = *(AS S*)P;"
OPS["st", 24] = "*(AS S*)P = *(global S*)d;"
AT = ["add", "sub", "xchg", "min", "max", "and", "or", "xor", "inc", "dec"]
for n in (4, 8):
    f = "atomic_" if n == 4 else "atom_"
    for v, a in enumerate(AT):
        OPS["at%d" % v, n] = "*(global %s*)O = %s%s((volatile AS %s*)P%s);" % (T[n], f, a, T[n], "" if a in ("inc", "dec") else ", 3")
    OPS["cf", n] = "*(global %s*)O = %scmpxchg((volatile AS %s*)P, (%s)0x5ac3f19b7d24e681ul, 1);" % (T[n], f, T[n], T[n])
CODE = {k: i for i, k in enumerate(OPS)}
NP, NA, W = 4, 8, 6
def source(std):
    fns = ""
    ops = dict(OPS)
    if std: ops["ld", 12] = "*(global S3*)O = *(AS S3*)P;"; ops["st", 12] = "*(AS S3*)P = *(global S3*)d;"
    for sp in ("global", "local"):
        fns += "void %s_op(int op, %s uchar* P, global const ulong* d, global uchar* O) { switch (op) {\n%s\n} }\n" % (
            sp, sp, "\n".join("  case %d: %s break;" % (c, ops[k].replace("AS ", sp + " ")) for k, c in CODE.items()))
    cp = "\n".join("  case %d: e = async_work_group_%scopy((local %s*)(L + c[3]), (const global %s*)(A + c[4]), c[2]%s, 0); break;\n  case %d: e = async_work_group_%scopy((global %s*)(A + c[4]), (const local %s*)(L + c[3]), c[2]%s, 0); break;" % (
        4 * sz + 2 * (st > 1), "strided_" if st > 1 else "", t, t, ", 2" if st > 1 else "", 4 * sz + 2 * (st > 1) + 1, "strided_" if st > 1 else "", t, t, ", 2" if st > 1 else "") for sz, t in T.items() for st in (1, 2))
    return """#pragma OPENCL EXTENSION cl_khr_int64_base_atomics : enable
#pragma OPENCL EXTENSION cl_khr_int64_extended_atomics : enable
typedef struct { ulong a, b, c; } S; typedef struct { uint a, b, c; } S3;
%s
kernel void race(global const ulong* prog, global const int* sync, global uchar* out, global ulong* where, global uchar* A, local ulong2* L16, int np) {
  local uchar* L = (local uchar*)L16;
  size_t grp = (get_group_id(2) * get_num_groups(1) + get_group_id(1)) * get_num_groups(0) + get_group_id(0);
  size_t id = ((get_global_id(2) - get_global_offset(2)) * get_global_size(1) + get_global_id(1) - get_global_offset(1)) * get_global_size(0) + get_global_id(0) - get_global_offset(0);
  where[2 * id] = (ulong)A; where[2 * id + 1] = (ulong)L;
  for (int p = 0; p < np; p++) {
    for (int j = 0; j < %d; j++) {
      global const ulong* o = prog + ((id * %d + p) * %d + j) * %d;
      if (o[0] == 0) break;
      if (o[1] == 0) global_op(o[0] - 1, A + o[2], o + 3, out + 32 * id);
      else local_op(o[0] - 1, L + o[2], o + 3, out + 32 * id);
    }
    global const int* c = sync + (grp * %d + p) * 5;
    if (c[0] == 1) barrier(c[1]);
    else if (c[0] == 2) {
      event_t e;
      switch (c[1]) {
%s
      }
      wait_group_events(1, &e);
    }
  }
}
""" % (fns, NA, NP, NA, W, NP, cp)
_g = {}
def setup():
    if _g: return
    os.environ["OCLGRIND_DATA_RACES"] = "1"; ocl.setenv("OCLGRIND_DATA_RACES", "1")
    for u in (0, 1):
        ocl.setenv("OCLGRIND_UNIFORM_WRITES", "1" if u else None)
        ctx = ocl.context()
        _g[u] = (ctx, ocl.queue(ctx), [ocl.kernel(ocl.program(ctx, source(x), "-cl-std=CL2.0" if x else ""), "race") for x in (0, 1)])
    ocl.setenv("OCLGRIND_UNIFORM_WRITES", None)
def run(s):
    setup(); ocl.mode(0)
    ctx, q, k = _g[s["u"]]
    sh, gs = s["shape"], s["groups"]
    off, gsz, lsz = sh["o"], sh["g"], sh["l"]
    k = k[1 if any(gsz[d] % lsz[d] for d in range(3)) or s["seed"] % 4 == 0 else 0]
    def item(g, i):          # number of the item in the whole range
        e = gs[g - 1]["ext"]; i -= 1
        c = [i % e[0], i // e[0] % e[1], i // e[0] // e[1]]
        c = [gs[g - 1]["id"][d] * lsz[d] + c[d] for d in range(3)]
        return (c[2] * gsz[1] + c[1]) * gsz[0] + c[0]
    ni = gsz[0] * gsz[1] * gsz[2]; ng = len(gs)
    B = {"out": ocl.buffer(ctx, 1, 32 * ni), "where": ocl.buffer(ctx, 1, 16 * ni), "A": ocl.buffer(ctx, 1 | 32, s["gsize"], b"\x07" * s["gsize"])}
    res = []
    for x, la in enumerate(s["launches"]):
        L = la["L"]
        ops = [[[] for _ in range(NP)] for _ in range(ni)]
        for a in L["acc"]:
            kind = "at%d" % ((a["off"] + a["g"] + 3 * a["i"]) % len(AT)) if a["k"] == "at" else a["k"]
            d = bytes((a["v"] + a["d"] * j) % 256 for j in range(a["n"])).ljust(24, b"\0")
            ops[item(a["g"], a["i"])][a["p"] - 1].append(struct.pack("<QQQ", CODE[kind, a["n"]] + 1, a["sp"] == "l", a["off"]) + d)
        prog = b""
        for o in ops:
            for ph in o:
                if len(ph) > NA: raise Exception("too many accesses")
                prog += b"".join(ph).ljust(8 * W * NA, b"\0")
        sync = []
        for g in range(ng):
            for p in range(1, NP + 1):
                c = L["copies"][g]; c = c[0] if c and c[0]["p"] == p else None
                if c: sync += [2, 4 * c["sz"] + 2 * (c["st"] > 1) + (c["dir"] == "out"), c["n"], c["lo"], c["go"]]
                elif p < L["np"]: sync += [1, ("l" in L["F"][g][p - 1]) + 2 * ("g" in L["F"][g][p - 1]), 0, 0, 0]
                else: sync += [0] * 5
        b1 = ocl.buffer(ctx, 4 | 32, len(prog), prog); sync = struct.pack("%di" % len(sync), *sync); b2 = ocl.buffer(ctx, 4 | 32, len(sync), sync)
        for i, v in enumerate([("m", b1), ("m", b2), ("m", B["out"]), ("m", B["where"]), ("m", B["A"]), ("l", (s["lsize"] + 15) // 16 * 16), ("b", struct.pack("i", L["np"]))]): ck(ocl.arg(k, i, v), "argument")
        ocl.setenv("OCLGRIND_NUM_THREADS", s["thr"]); ocl.vp.vp_seed(s["seed"] + x)
        ocl.fetch(); ocl.mode(ocl.MESSAGES | (ocl.PERTURB if (s["seed"] + x) % 4 == 0 else 0))
        dims = 3 if gsz[2] > 1 else 2 if gsz[1] > 1 else 1
        r = ocl.run(q, k, gsz[:dims], lsz[:dims], off[:dims]); ocl.mode(0)
        ck(r, "run")
        msgs = ocl.fetch()
        w = struct.unpack("%dQ" % (2 * ni), ocl.read(q, B["where"], 16 * ni))
        rep = []
        for t in msgs:
            if not t.startswith("m "): continue
            m = re.search(r"(Read-write|Write-write) data race at (\w+) memory address 0x([0-9a-f]+)", t)
            e = re.findall(r"(?:First|Second) entity: +(?:Global\((\d+),(\d+),(\d+)\) Local\((\d+),(\d+),(\d+)\) Group\((\d+),(\d+),(\d+)\)|Group\((\d+),(\d+),(\d+)\))", t)
            if not m or len(e) != 2: rep.append(["?", t[:600]]); continue
            ent = []
            for y in e:
                if y[0] == "": ent.append(["g"] + [int(z) for z in y[9:12]]); continue
                gl, lo, gr = [[int(z) for z in y[3 * j:3 * j + 3]] for j in range(3)]
                if any(gr[d] * lsz[d] + lo[d] + off[d] != gl[d] for d in range(3)): rep.append(["?", "inconsistent ids: " + str(y)])
                ent.append(["i"] + [gl[d] - off[d] for d in range(3)])
            base = w[0] if m.group(2) == "global" else w[1]
            rep.append([m.group(1), m.group(2), int(m.group(3), 16) - base] + ent)
        res.append(rep)
        cl.clReleaseMemObject(b1); cl.clReleaseMemObject(b2)
    for b in B.values(): cl.clReleaseMemObject(b)
    return {"launches": res, "api": ocl.api_errors()}
