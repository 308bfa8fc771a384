"""Executes histories of ImgGen; after every step returns which memory differs from the step before."""
import ctypes as C, struct
import ocl
from ocl import cl, ck, vptr, i32, u64, u32, size_t
ORD = dict(R=0x10B0, A=0x10B1, RG=0x10B2, RA=0x10B3, RGB=0x10B4, RGBA=0x10B5, BGRA=0x10B6, ARGB=0x10B7, INTENSITY=0x10B8, LUMINANCE=0x10B9, Rx=0x10BA, RGx=0x10BB)
TYP = dict(sn8=0x10D0, sn16=0x10D1, un8=0x10D2, un16=0x10D3, s8=0x10D7, s16=0x10D8, s32=0x10D9, u8=0x10DA, u16=0x10DB, u32=0x10DC, f16=0x10DD, f32=0x10DE)
KIND = {"2D": 0x10F1, "3D": 0x10F2, "2DA": 0x10F3, "1D": 0x10F4, "1DA": 0x10F5, "1DB": 0x10F6}
ACC = {"rw": 0, "ro": ocl.HOST_RO, "wo": ocl.HOST_WO, "no": ocl.HOST_NO}
class Fmt(C.Structure): _fields_ = [("o", u32), ("t", u32)]
class Desc(C.Structure): _fields_ = [("ty", u32), ("w", size_t), ("h", size_t), ("d", size_t), ("n", size_t), ("rp", size_t), ("sp", size_t), ("m", u32), ("s", u32), ("buf", vptr)]
def u(x): return x % 2**64
def sz(v): return ocl.sizes(*map(u, v))
def desc(ty, w, y, z, rp=0, sp=0, buf=None):
    h = y if ty in ("2D", "2DA", "3D") else 0
    d = z if ty == "3D" else 0
    n = y if ty == "1DA" else z if ty == "2DA" else 0
    return Desc(KIND[ty], w, h, d, n, rp, sp, 0, 0, buf)
def image_info(h, f):
    v = [ocl.info(cl.clGetImageInfo, h, x, size_t) for x in (0x1114, 0x1115, 0x1116, 0x1117, 0x1111, 0x1112, 0x1113)]
    fm = Fmt(); cl.clGetImageInfo(h, 0x1110, 8, C.byref(fm), None)
    return v, (fm.o, fm.t) == (ORD[f[0]], TYP[f[1]])
_g = {}
def setup():
    if _g: return
    ocl.mode(0)
    _g["ctx"] = ocl.context(); _g["q"] = ocl.queue(_g["ctx"])
    _g["shadow"] = ocl.buffer(_g["ctx"], 1, 1024)
def region_rows(p, row, slc, reg, ps, oneda):
    """the bytes of a mapped region, in order"""
    out = b""
    for z in range(reg[2]):
        for y in range(reg[1]): out += C.string_at(p + z * slc + y * (slc if oneda else row), reg[0] * ps)
    return list(out)
def run(s):
    setup()
    ctx, q = _g["ctx"], _g["q"]
    ocl.api_errors()
    HN = len(s["host"]); PAD = 64
    host = (C.c_ubyte * (HN + 2 * PAD))(*([0xA5] * PAD + s["host"] + [0xA5] * PAD))
    hp = C.addressof(host) + PAD
    obj, maps = {}, {}
    er = i32(); n_obj = 0; seen = {}; res = []
    def contents(i):
        o = obj[i]
        if o["ty"] == "buf": return list(ocl.read(q, o["h"], o["n"]))
        ck(cl.clEnqueueCopyImageToBuffer(q, o["h"], _g["shadow"], sz((0, 0, 0)), sz(o["dim"]), 0, 0, None, None), "copy of the whole image")
        return list(ocl.read(q, _g["shadow"], o["n"]))
    last = list(s["host"])
    for o in s["ops"]:
        t = o["o"]; r = None; extra = []
        if t == "buf":
            h = cl.clCreateBuffer(ctx, 1 | 32, o["n"], C.create_string_buffer(bytes(o["v"]), o["n"]), C.byref(er)); r = er.value
            n_obj += 1; obj[n_obj] = {"h": h, "ty": "buf", "n": o["n"], "par": 0}
        elif t == "img":
            f = Fmt(ORD[o["f"][0]], TYP[o["f"][1]]); v = bytes(o["src"]); m = C.create_string_buffer(v, len(v))
            row = o["info"][5]
            d = desc(o["ty"], o["w"], o["y"], o["z"], o["rp"] if o["how"] == "copyp" else 0, o["sp"] if o["how"] == "copyp" and o["z"] > 1 else 0)
            fl = 1 | ACC[o["acc"]] | {"plain": 0, "copy": 32, "copyp": 32, "use": 8}[o["how"]]
            h = cl.clCreateImage(ctx, fl, C.byref(f), C.byref(d), m if o["how"] != "plain" else None, C.byref(er)); r = er.value
            n_obj += 1
            dim = [o["w"], o["y"], o["z"]]
            obj[n_obj] = {"h": h, "ty": o["ty"], "n": o["len"], "par": 0, "dim": dim, "m": m, "use": o["how"] == "use", "acc": o["acc"], "ps": o["info"][4]}
            if o["how"] == "plain":
                tmp = ocl.buffer(ctx, 1 | 32, o["len"], m)
                ck(cl.clEnqueueCopyBufferToImage(q, tmp, h, 0, sz((0, 0, 0)), sz(dim), 0, None, None), "initial contents"); ck(cl.clFinish(q)); cl.clReleaseMemObject(tmp)
            elif o["how"] != "use": C.memset(m, 0xEE, len(v))
            extra = [image_info(h, o["f"])[0], image_info(h, o["f"])[1], ocl.info(cl.clGetMemObjectInfo, h, 0x1100, u32) == KIND[o["ty"]], ocl.info(cl.clGetMemObjectInfo, h, 0x1102, u64) == o["len"]]
        elif t == "over":
            p = obj[o["p"]]; f = Fmt(ORD[o["f"][0]], TYP[o["f"][1]]); d = desc("1DB", o["w"], 1, 1, buf=p["h"])
            h = cl.clCreateImage(ctx, 1, C.byref(f), C.byref(d), None, C.byref(er)); r = er.value
            if r == 0 and h:
                n_obj += 1
                obj[n_obj] = {"h": h, "ty": "1DB", "n": o["w"] * o["info"][4], "par": o["p"], "off": 0, "dim": [o["w"], 1, 1], "acc": "rw", "ps": o["info"][4]}
                extra = [image_info(h, o["f"])[0], image_info(h, o["f"])[1], ocl.info(cl.clGetImageInfo, h, 0x1118, u64) == p["h"]]
        elif t == "free":
            r = cl.clReleaseMemObject(obj.pop(o["i"])["h"])
        elif t in ("read", "write"):
            fn = cl.clEnqueueReadImage if t == "read" else cl.clEnqueueWriteImage
            r = fn(q, obj[o["i"]]["h"], o["b"], sz(o["org"]), sz(o["reg"]), o["rp"], o["sp"], hp + o["ho"], 0, None, None)
        elif t == "copy":
            r = cl.clEnqueueCopyImage(q, obj[o["i"]]["h"], obj[o["j"]]["h"], sz(o["oa"]), sz(o["ob"]), sz(o["reg"]), 0, None, None)
        elif t == "tobuf":
            r = cl.clEnqueueCopyImageToBuffer(q, obj[o["i"]]["h"], obj[o["j"]]["h"], sz(o["org"]), sz(o["reg"]), o["off"], 0, None, None)
        elif t == "tobufrev":
            r = cl.clEnqueueCopyBufferToImage(q, obj[o["j"]]["h"], obj[o["i"]]["h"], o["off"], sz(o["org"]), sz(o["reg"]), 0, None, None)
        elif t == "fill":
            k = o["t"]; c = o["c"]
            col = struct.pack("4f", *[x / 4 for x in c]) if k in ("sn8", "un8", "sn16", "un16", "f16", "f32") else struct.pack("4i", *c)
            col = C.create_string_buffer(col, 16)
            r = cl.clEnqueueFillImage(q, obj[o["i"]]["h"], col, sz(o["org"]), sz(o["reg"]), 0, None, None)
            C.memset(col, 0x55, 16)
        elif t == "map":
            row, slc = size_t(7777), size_t(7777)
            p = cl.clEnqueueMapImage(q, obj[o["i"]]["h"], o["b"], 2 if o["w"] else 1, sz(o["org"]), sz(o["reg"]), C.byref(row), C.byref(slc), 0, None, None, C.byref(er)); r = er.value
            if (r == 0) != bool(p): r = "pointer %s with code %d" % (p, r)
            elif r == 0:
                maps[o["m"]] = (p, o["i"], o["org"], o["reg"], row.value, slc.value)
                extra = [[row.value, slc.value]]
        elif t == "poke":
            p, i, org, reg, row, slc = maps[o["m"]]; ps = obj[i]["ps"]; k = 0; v = bytes(o["v"]); n = reg[0] * ps
            for z in range(reg[2]):
                for y in range(reg[1]): C.memmove(p + z * slc + y * (slc if obj[i]["ty"] == "1DA" else row), v[k:k + n], n); k += n
            r = 0
        elif t == "unmap":
            r = cl.clEnqueueUnmapMemObject(q, obj[o["i"]]["h"], maps.pop(o["m"])[0], 0, None, None)
        ck(cl.clFinish(q))
        ch = []
        for i in sorted(obj):
            if obj[i]["par"]: continue
            v = contents(i)
            if seen.get(i) != v: ch.append([i, v]); seen[i] = v
        bad = []
        for i, b in obj.items():
            if b["par"] and contents(i) != seen[b["par"]][:b["n"]]: bad.append("image %d shows other bytes than its buffer" % i)
            if b.get("use") and list(b["m"].raw) != seen[i]: bad.append("host storage of image %d differs" % i)
            if b["ty"] != "buf" and b["acc"] in ("rw", "ro"):
                m = C.create_string_buffer(b["n"])
                ck(cl.clEnqueueReadImage(q, b["h"], 1, sz((0, 0, 0)), sz(b["dim"]), 0, 0, m, 0, None, None), "read of the whole image")
                if list(m.raw) != contents(i): bad.append("reading image %d gives other bytes than copying it" % i)
        for m, (p, i, org, reg, row, slc) in maps.items():
            b = obj[i]; ps = b["ps"]; w, y, z = b["dim"]; v = seen[b["par"] or i]
            e = []
            for zz in range(reg[2]):
                for yy in range(reg[1]):
                    a = (((org[2] + zz) * y + org[1] + yy) * w + org[0]) * ps; e += v[a:a + reg[0] * ps]
            if region_rows(p, row, slc, reg, ps, b["ty"] == "1DA") != e: bad.append("mapped pointer %d shows other pixels than its region" % m)
        hv = list(host)
        if any(x != 0xA5 for x in hv[:PAD] + hv[-PAD:]): bad.append("host memory outside the area changed")
        hc = hv[PAD:-PAD]
        res.append({"r": r, "b": ch, "h": [] if hc == last else hc, "x": extra, "bad": bad, "e": len(ocl.api_errors()) > 0})
        last = hc
    for m, (p, i, *_) in maps.items(): cl.clEnqueueUnmapMemObject(q, obj[i]["h"], p, 0, None, None)
    cl.clFinish(q)
    for i in sorted(obj, key=lambda i: -obj[i]["par"]): cl.clReleaseMemObject(obj[i]["h"])
    return res
