"""Executes groups of GroupGen (several per launch); returns per group its observations, its part of the
global buffer and the reports made about it."""
import struct, re
import ocl
from ocl import cl, ck
SIZE = {"la": 32, "lb": 16, "l0": 24, "l1": 16, "gs": 64}
SP = ["la", "lb", "l0", "l1", "gs"]
TYPES = {1: ["uchar", "char"], 2: ["ushort", "short", "char2"], 4: ["int", "uint", "float", "uchar4", "short2"],
         8: ["ulong", "long", "int2", "float2", "uchar8", "short3"], 16: ["int4", "float4", "short8", "ulong2", "uint3", "char16"]}
MAXOPS, MAXOBS, OPW = 64, 64, 10
def copies():
    o, n = [], 0
    for sz, ts in sorted(TYPES.items()):
        for v, t in enumerate(ts):
            for site in (1, 2, 3):
                for d in (0, 1):
                    fn = "async_work_group_strided_copy" if site == 2 else "async_work_group_copy"
                    L, G = "(local %s*)(L + o[%d])" % (t, 3 if d == 0 else 4), "(global %s*)(gs + o[%d])" % (t, 4 if d == 0 else 3)
                    a, b = (L, "(const global %s*)(gs + o[4])" % t) if d == 0 else (G, "(const local %s*)(L + o[4])" % t)
                    o.append("      case %d: ev[o[7]] = %s(%s, %s, o[5], %sev[o[8]]); break;" % (((sz * 8 + v) * 4 + site) * 2 + d, fn, a, b, "o[6], " if site == 2 else ""))
    return "\n".join(o)
def source():
    return """
int f3(int v) { int a[3]; a[0] = v; a[1] = 0; a[2] = a[0]; return a[1] + a[2]; }
int f2(int v) { int a[4]; for (int i = 0; i < 4; i++) a[i] = v; int b = f3(v + 1) - 1; return a[3] + b + a[0]; }
int f1(int v) { int a[6]; for (int i = 0; i < 6; i++) a[i] = v; int b = f2(v); return a[0] + a[5] + b + a[2]; }
void sync45(int site, int f) {
  if (site == 4) barrier(f); else barrier(f);
}
kernel void grp(global const int* prog, global int* obs, global uchar* G, local uchar16* l0, local uchar16* l1) {
  local uchar16 la[2];
  local uchar lb[16] __attribute__((aligned(16)));
  size_t lid = get_local_linear_id();
  size_t grp = (get_group_id(2) * get_num_groups(1) + get_group_id(1)) * get_num_groups(0) + get_group_id(0);
  size_t item = grp * get_local_size(0) * get_local_size(1) * get_local_size(2) + lid;
  local uchar* sp[4] = {(local uchar*)la, lb, (local uchar*)l0, (local uchar*)l1};
  global uchar* gs = G + grp * 64;
  uchar priv[6] = {0, 0, 0, 0, 0, 0};
  event_t ev[6]; event_t none = 0; for (int i = 0; i < 6; i++) ev[i] = none;
  if (lid == 0) { for (int i = 0; i < 32; i++) sp[0][i] = 7; for (int i = 0; i < 16; i++) sp[1][i] = 7; for (int i = 0; i < 24; i++) sp[2][i] = 7; for (int i = 0; i < 16; i++) sp[3][i] = 7; }
  barrier(CLK_LOCAL_MEM_FENCE);
  int no = 0;
  global int* out = obs + item * %(maxobs)d;
  for (int pc = 0; pc < %(maxops)d; pc++) {
    global const int* o = prog + (item * %(maxops)d + pc) * %(opw)d;
    if (o[0] == 0) break;
    local uchar* L = sp[o[2] & 3];
    switch (o[0]) {
    case 1: if (o[2] == 4) gs[o[3]] = o[4]; else L[o[3]] = o[4]; break;
    case 2: out[no++] = o[2] == 4 ? gs[o[3]] : L[o[3]]; break;
    case 3: priv[o[3]] = o[4]; break;
    case 4: out[no++] = priv[o[3]]; break;
    case 5: out[no++] = f1(o[4]) & 255; break;
    case 6:
      switch (o[1]) {
      case 1: barrier(o[3]); break;
      case 2: barrier(o[3]); break;
      case 3: work_group_barrier(o[3]); break;
      default: sync45(o[1], o[3]); break;
      }
      break;
    case 7: {
      event_t w[4];
      for (int i = 0; i < o[2]; i++) w[i] = ev[o[3 + i]];
      if (o[1] == 1) wait_group_events(o[2], w);
      else
        wait_group_events(o[2], w);
      break; }
    case 8:
      switch (o[1]) {
%(copies)s
      }
      break;
    }
  }
}
""" % dict(maxops=MAXOPS, maxobs=MAXOBS, opw=OPW, copies=copies())
def enc(o):
    k = o["o"]
    if k == "w": v = [1, 0, SP.index(o["sp"]), o["k"] - 1, o["v"]]
    elif k == "r": v = [2, 0, SP.index(o["sp"]), o["k"] - 1]
    elif k == "pw": v = [3, 0, 0, o["k"] - 1, o["v"]]
    elif k == "pr": v = [4, 0, 0, o["k"] - 1]
    elif k == "call": v = [5, 0, 0, 0, o["v"]]
    elif k == "b": v = [6, o["site"], 0, o["f"]]
    elif k == "wt": v = [7, o["site"], len(o["slots"])] + o["slots"]
    else:
        ts = TYPES[o["sz"]]; t = (o["slot"] * 2 + (o["dir"] == "out")) % len(ts)      # (not of what work-items may disagree on: each type is a call site of its own)
        v = [8, ((o["sz"] * 8 + t) * 4 + o["site"]) * 2 + (o["dir"] == "out"), SP.index(o["sp"]), o["dst"], o["src"], o["n"], o["st"], o["slot"], o["chain"]]
    return v + [0] * (OPW - len(v))
_g = {}
def setup():
    if _g: return
    ctx = _g["ctx"] = ocl.context(); _g["q"] = ocl.queue(ctx)
    _g["k"] = ocl.kernel(ocl.program(ctx, source(), "-cl-std=CL2.0"), "grp")
def run(s):
    setup(); q = _g["q"]; ocl.mode(0); ctx = _g["ctx"]
    gs = s["groups"]; n = gs[0]["n"]; ng = len(gs)
    prog = []
    for g in gs:
        for p in g["P"]:
            if len(p) > MAXOPS - 1: raise Exception("program too long")
            for o in p: prog += enc(o)
            prog += [0] * (OPW * (MAXOPS - len(p)))
    prog = struct.pack("%di" % len(prog), *prog)
    B = {"prog": ocl.buffer(ctx, 4 | 32, len(prog), prog), "obs": ocl.buffer(ctx, 1 | 32, 4 * MAXOBS * n * ng, b"\xff" * (4 * MAXOBS * n * ng)),
         "G": ocl.buffer(ctx, 1 | 32, 64 * ng, bytes((i * 37 + 11) % 256 for i in range(1, 65)) * ng)}
    k = _g["k"]
    for i, a in enumerate([("m", B["prog"]), ("m", B["obs"]), ("m", B["G"]), ("l", 24), ("l", 16)]): ck(ocl.arg(k, i, a), "argument")
    ocl.setenv("OCLGRIND_NUM_THREADS", s["thr"]); ocl.vp.vp_seed(s["seed"])
    two = n % 2 == 0 and s["seed"] % 2 == 0
    gx = 2 if ng % 2 == 0 and s["seed"] % 3 == 0 else ng
    l = [2, n // 2] if two else [n, 1]
    ocl.fetch(); ocl.mode(ocl.MESSAGES | (ocl.PERTURB if s["seed"] % 5 == 0 else 0))
    r = ocl.run(q, k, [l[0] * gx, l[1] * (ng // gx)], l); ocl.mode(0)
    ck(r, "run")
    rep = {str(i): [] for i in range(-1, ng)}
    for x in ocl.fetch():
        m = re.match(r"m (\d+) (.*)", x)
        if not m: continue
        t = m.group(2)
        w = re.search(r"Work-group: \((\d+),(\d+),(\d+)\)", t) or re.search(r"Group\((\d+),(\d+),(\d+)\)", t)
        kind = "copy" if "divergence detected (async copy)" in t else "barrier" if "divergence detected (barrier)" in t else "unwaited" if "without waiting" in t else "event" if "Invalid wait event" in t else t[:200]
        rep[str(int(w.group(2)) * gx + int(w.group(1)) if w else -1)].append(kind)
    ob = struct.unpack("%di" % (MAXOBS * n * ng), ocl.read(q, B["obs"], 4 * MAXOBS * n * ng)); gm = ocl.read(q, B["G"], 64 * ng)
    res = []
    for i, g in enumerate(gs):
        o = [list(ob[MAXOBS * (i * n + j):MAXOBS * (i * n + j + 1)]) for j in range(n)]
        res.append({"obs": [[x for x in y if x != -1] for y in o], "gs": list(gm[64 * i:64 * i + 64])})
    for b in B.values(): cl.clReleaseMemObject(b)
    return {"groups": res, "rep": rep, "api": ocl.api_errors()}
