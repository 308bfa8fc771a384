"""Executes histories of SamplerGen: kernels that read, write and query images."""
import ctypes as C, struct
import ocl
from ocl import cl, ck, vptr, i32, u32, size_t
from d_img import ORD, TYP, Fmt, desc
IMT = {"1D": "image1d_t", "1DB": "image1d_buffer_t", "1DA": "image1d_array_t", "2D": "image2d_t", "2DA": "image2d_array_t", "3D": "image3d_t"}
NC = {"1D": 1, "1DB": 1, "1DA": 2, "2D": 2, "2DA": 4, "3D": 4}
ADDR = {"none": 0x1130, "edge": 0x1131, "clamp": 0x1132, "repeat": 0x1133, "mirror": 0x1134}
CLK = {"none": "NONE", "edge": "CLAMP_TO_EDGE", "clamp": "CLAMP", "repeat": "REPEAT", "mirror": "MIRRORED_REPEAT"}
SW = {1: ".x", 2: ".xy", 4: ""}
VT = {"f": "float4", "i": "int4", "ui": "uint4"}
PACK = dict(sn8="b", un8="B", s8="b", u8="B", sn16="h", un16="H", s16="h", u16="H", s32="i", u32="I", f32="f", f16="e")
def lit(s): return "l_%d_%s_%d" % (s["norm"], s["mode"], s["lin"])
def source():
    o = ["#pragma OPENCL EXTENSION cl_khr_3d_image_writes : enable"]
    for ty, t in IMT.items():
        sw = SW[NC[ty]]
        for fn, v in VT.items():
            for how in ("plain", "int", "float"):
                if ty == "1DB" and how != "plain": continue
                c = "float4" if how == "float" else "int4"
                o.append("kernel void r_%s_%s_%s(read_only %s im, %sglobal %s* p, global %s* v) { size_t i = get_global_id(0); v[i] = read_image%s(im, %sp[i]%s); }" % (
                    ty, fn, how, t, "" if how == "plain" else "sampler_t s, ", c, v, fn, "" if how == "plain" else "s, ", sw))
            o.append("kernel void w_%s_%s(write_only %s im, global int4* p, global %s* v) { write_image%s(im, p[0]%s, v[0]); }" % (ty, fn, t, v, fn, sw))
        q = ["v[0] = get_image_width(im);", "v[4] = get_image_channel_data_type(im);", "v[5] = get_image_channel_order(im);"]
        if ty in ("2D", "2DA", "3D"): q.append("v[1] = get_image_height(im);")
        if ty == "3D": q.append("v[2] = get_image_depth(im); int4 d = get_image_dim(im); v[6] = d.x; v[7] = d.y; v[8] = d.z; v[9] = d.w;")
        elif ty in ("2D", "2DA"): q.append("int2 d = get_image_dim(im); v[6] = d.x; v[7] = d.y;")
        if ty in ("1DA", "2DA"): q.append("v[3] = get_image_array_size(im);")
        o.append("kernel void q_%s(read_only %s im, global int* v) { %s }" % (ty, t, " ".join(q)))
    for norm in (0, 1):
        for m in CLK:
            if not norm and m in ("repeat", "mirror"): continue
            for lin in (0, 1):
                s = {"norm": norm, "mode": m, "lin": lin}
                o.append("kernel void %s(read_only image2d_t im, global float4* p, global float4* v) { const sampler_t s = CLK_NORMALIZED_COORDS_%s | CLK_ADDRESS_%s | CLK_FILTER_%s; size_t i = get_global_id(0); v[i] = read_imagef(im, s, p[i].xy); }" % (
                    lit(s), "TRUE" if norm else "FALSE", CLK[m], "LINEAR" if lin else "NEAREST"))
    return "\n".join(o)
_g = {}; _k = {}; _s = {}
def setup():
    if _g: return
    ocl.mode(0)
    ctx = _g["ctx"] = ocl.context(); _g["q"] = ocl.queue(ctx)
    _g["prog"] = ocl.program(ctx, source())
    _g["p"] = ocl.buffer(ctx, 1, 256); _g["v"] = ocl.buffer(ctx, 1, 256); _g["shadow"] = ocl.buffer(ctx, 1, 8192)
def kern(n):
    if n not in _k: _k[n] = ocl.kernel(_g["prog"], n)
    return _k[n]
def sampler(s):
    k = lit(s)
    if k not in _s:
        e = i32()
        _s[k] = cl.clCreateSampler(_g["ctx"], int(s["norm"]), ADDR[s["mode"]], 0x1141 if s["lin"] else 0x1140, C.byref(e)); ck(e.value, "clCreateSampler")
    return _s[k]
def enc(t, px):
    return b"".join(struct.pack("<" + PACK[t], x / 4 if t in ("f32", "f16") else x) for p in px for x in p)
def run(s):
    setup(); q = _g["q"]; ims = []; res = []; er = i32(); ocl.api_errors()
    def contents(im):
        ck(cl.clEnqueueCopyImageToBuffer(q, im["h"], _g["shadow"], ocl.sizes(0, 0, 0), ocl.sizes(im["w"], im["y"], im["z"]), 0, 0, None, None), "copy out")
        return ocl.read(q, _g["shadow"], im["n"])
    for o in s["ops"]:
        t = o["o"]; r = None
        if t == "make":
            f = Fmt(ORD[o["f"][0]], TYP[o["f"][1]]); v = enc(o["f"][1], o["px"]); buf = None
            if o["ty"] == "1DB": buf = ocl.buffer(_g["ctx"], 1 | 32, len(v), C.create_string_buffer(v, len(v)))
            d = desc(o["ty"], o["w"], o["y"], o["z"], buf=buf)
            h = cl.clCreateImage(_g["ctx"], 1 if buf else 1 | 32, C.byref(f), C.byref(d), None if buf else C.create_string_buffer(v, len(v)), C.byref(er)); ck(er.value, "clCreateImage")
            ims.append(dict(h=h, n=len(v), buf=buf, **{k: o[k] for k in ("ty", "w", "y", "z", "f")})); im = ims[-1]
        else: im = ims[o["i"] - 1]
        if t == "read":
            P = o["p"]; fl = o["how"] == "float"
            ocl.write(q, _g["p"], b"".join(struct.pack("4f" if fl else "4i", *[c / 16 if fl else c // 16 for c in p], 0) for p in P))
            ocl.write(q, _g["v"], b"\x5A" * 256)
            k = kern(lit(o["s"])) if o["lit"] else kern("r_%s_%s_%s" % (im["ty"], o["fn"], o["how"]))
            a = [("m", im["h"])] + ([] if o["lit"] or o["how"] == "plain" else [("m", sampler(o["s"]))]) + [("m", _g["p"]), ("m", _g["v"])]
            for i, x in enumerate(a): ck(ocl.arg(k, i, x), "argument")
            ck(ocl.run(q, k, [len(P)]), "run")
            v = ocl.read(q, _g["v"], 256)
            r = [list(struct.unpack_from({"f": "4f", "i": "4i", "ui": "4I"}[o["fn"]], v, 16 * i)) for i in range(len(P))]
            if v[16 * len(P):] != b"\x5A" * (256 - 16 * len(P)): r = "results written elsewhere"
        elif t == "write":
            f = o["fn"]
            ocl.write(q, _g["p"], struct.pack("4i", *o["p"], 0))
            ocl.write(q, _g["v"], struct.pack({"f": "4f", "i": "4i", "ui": "4I"}[f], *[x / 4 if f == "f" else x for x in o["c"]]))
            k = kern("w_%s_%s" % (im["ty"], f))
            for i, x in enumerate([("m", im["h"]), ("m", _g["p"]), ("m", _g["v"])]): ck(ocl.arg(k, i, x), "argument")
            ck(ocl.run(q, k, [1]), "run")
            got, want = contents(im), enc(im["f"][1], o["px"])
            r = True if got == want else [list(got), list(want)]
        elif t == "query":
            ocl.write(q, _g["v"], b"\0" * 64); k = kern("q_%s" % im["ty"])
            for i, x in enumerate([("m", im["h"]), ("m", _g["v"])]): ck(ocl.arg(k, i, x), "argument")
            ck(ocl.run(q, k, [1]), "run")
            r = list(struct.unpack("10i", ocl.read(q, _g["v"], 40)))
            e = [o["w"], o["y"], o["z"], o["n"], TYP[im["f"][1]], ORD[im["f"][0]]] + ([o["w"], o["y"], o["z"], 0] if im["ty"] == "3D" else [o["w"], o["y"], 0, 0] if im["ty"] in ("2D", "2DA") else [0] * 4)
            if r == e: r = True
        res.append({"v": r, "e": ocl.api_errors()})
    for im in ims:
        e = enc(im["f"][1], im["px"]) if "px" in im else None
        cl.clReleaseMemObject(im["h"])
        if im["buf"]: cl.clReleaseMemObject(im["buf"])
    return res
