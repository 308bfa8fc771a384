"""Writes SimFileGen's simulation files and runs the kernel runner on them; returns exit status, output and whether
anything was said on the error stream."""
import os, random, shutil, subprocess, tempfile
BUILD = os.environ.get("VF_BUILD", "/verif/build")
SIZE = {"char": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8, "float": 4, "double": 8}
def flt(t): return t in ("float", "double")
def number(q): return repr(q / 4) if q % 4 else str(q // 4)
def text(a, v):
    if flt(a["ft"]): return number(v)
    n = int.from_bytes(bytes(v), "little", signed=a["ft"] in ("char", "short", "int", "long"))
    return "%x" % n if a["hex"] else str(n)
def plain(a, n): return number(n) if flt(a["ft"]) else "%x" % n if a["hex"] else str(n)
def source(f):
    def kernel(name, c):
        ps = []
        for a in f["args"]:
            ps.append({"g": "global %s *%s", "c": "constant %s *%s", "l": "local %s *%s", "p": "%s %s"}[a["q"]] % (a["t"] + (str(a["vec"]) if a["vec"] > 1 else ""), a["name"]))
        b = "  size_t id = get_global_id(0) + get_global_size(0) * (get_global_id(1) + get_global_size(1) * get_global_id(2));\n"
        for a in f["args"]:
            if a["q"] == "l": b += "  if (get_local_id(0) + get_local_id(1) + get_local_id(2) == 0) %s[0] = %d;\n" % (a["name"], c + 5)
        b += "  barrier(CLK_LOCAL_MEM_FENCE);\n"
        for u in f["body"]:
            d = f["args"][u["dst"] - 1]; e = "(%s)%d" % (d["t"], c)
            if u["src"]:
                s = f["args"][u["src"] - 1]
                x = {"l": "%s[0]", "p": "%s"}.get(s["q"], "%s[id %% %d]") % ((s["name"],) if s["q"] in "lp" else (s["name"], s["size"] // SIZE[s["t"]]))
                if s["q"] == "p" and s["vec"] > 1: x += ".s%d" % ((u["i"] - 1) % s["vec"])
                e += " + (%s)%s" % (d["t"], x)
            b += "  if (id < %d) %s[id] %s %s;\n" % (d["size"] // SIZE[d["t"]], d["name"], "=" if u["set"] else "+=", e)
        return "kernel void %s(%s) {\n%s}\n" % (name, ", ".join(ps), b)
    return kernel("k1", 1) + kernel("k2", 7)
def simfile(f, bad):
    d, j = bad
    rnd = random.Random(f["lay"]); sep = lambda: rnd.choice([" ", " ", "\n", "  ", "\t", "\n\n", " # a comment 12\n", "\n# <size=4> 3\n"])
    n, l = list(f["n"]), list(f["l"])
    if d == "uneven": n[f["lay"] % 3] = n[f["lay"] % 3] * l[f["lay"] % 3] + 1; l[f["lay"] % 3] += 1
    if d == "uneven" and n[f["lay"] % 3] % l[f["lay"] % 3] == 0: n[f["lay"] % 3] += 1
    if d == "zero": l[f["lay"] % 3] = 0
    toks = ["none.cl" if d == "program" else "prog.cl", "nothere" if d == "kernel" else "k1" if f["c"] == 1 else "k2"] + [str(x) for x in n + l]
    out = toks[0] + "".join(sep() + t for t in toks[1:])
    if d == "empty": return "# nothing\n"
    if d == "noargs": return out + "\n"
    for i, a in enumerate(f["args"], 1):
        here = d if i == j else None
        size = a["size"]
        if here == "sizetype": size += 1
        if here == "psize": size += SIZE[a["ft"]]
        if here == "psmall": size -= SIZE[a["ft"]]
        h = []; k = a["init"]["k"]
        if a["q"] == "l" or k != "null": h.append("size=%d" % size if here != "badsize" else rnd.choice(["size=%dx" % size, "size%d" % size, "size=", "size"]))
        else: h.append("null")
        if here == "nosize": h = []
        if a["expl"]: h.append(a["ft"])
        if k == "fill": h.append("fill=" + (text(a, a["init"]["v"]) if here != "badfill" else rnd.choice(["zz", "1z", "", "--1"])))
        if k == "none": h.append("noinit")
        ne = size // SIZE[a["ft"]] if a["ft"] else 0
        if k == "range":
            s, inc = a["init"]["s"], a["init"]["i"]; e = s + inc * (ne - 1)
            if here == "badrange" and abs(inc) > 1 and rnd.random() < 0.6:     # an end that is not on a step
                h.append("range=" + ":".join(plain(a, x) for x in (s, inc, e + rnd.randrange(1, abs(inc)) * (1 if inc > 0 else -1))))
            elif here == "badrange": h.append("range=" + rnd.choice([":".join(plain(a, x) for x in (s, inc, s + inc * (ne + 1) if s + inc * (ne + 1) < 120 or SIZE[a["ft"]] > 1 else s)), plain(a, s), "1:2", "1:x:5", "1-2-3", "2:0:2"]))
            else: h.append("range=" + ":".join(plain(a, x) for x in (s, inc, e)))
        if a["dump"]: h.append("dump")
        if a["hex"]: h.append("hex")
        if a["ro"]: h.append("ro")
        if a["wo"]: h.append("wo")
        if here == "badtok": f["word"] = rnd.choice(["frob", "int4", "unsigned", "a_long_word_that_means_nothing_here"]); h.append(f["word"])
        if here == "twotypes": h += ["int", "uint"]
        if here == "rowo": h += ["ro", "wo"]
        if here == "roarg": h.append(rnd.choice(["ro", "wo"]))
        if here == "nullsize": h += ["null", "size=%d" % size]
        if here == "noinit": h.append(rnd.choice(["noinit", "null"]))
        if here == "dump": h.append("dump")
        if here == "two": h.append("range=1:1:3")
        rnd.shuffle(h)
        s = rnd.choice([" ", "  ", "\t"])
        head = ("" if here == "nohdr" else "<") + rnd.choice(["", s]) + s.join(h) + rnd.choice(["", s]) + ("" if here == "noend" else ">")
        out += rnd.choice(["\n", "\n", "\n\n", " # next argument\n"] + [" "] * (j == 0)) + head
        if k == "data" and a["q"] != "l":
            vs = [text(a, v) for v in a["init"]["v"]]
            if here == "short": vs = vs[:-1]
            if here == "badval": vs[f["lay"] % len(vs)] = rnd.choice(["xyz", "g", "-", "1.5.2", "12q"])
            if here == "bigchar": vs[f["lay"] % len(vs)] = "12c" if a["hex"] else "300"
            out += "".join(sep() + v for v in vs)
    if d == "more": out += rnd.choice(["\n5", " 5", " extra", "\nextra", "\n<size=4>"])
    return out + rnd.choice(["\n", "\n", "", "\n\n", "\n# the end\n", " # the end"])
def run(s):
    f = s["file"]; bad = s["want"].get("bad", ["", 0]) if isinstance(s["want"], dict) else ["", 0]
    d = tempfile.mkdtemp(prefix="vsim")
    try:
        src = source(f)
        if bad[0] == "source": src = src.replace("size_t id", "size_q id", 1)
        open(d + "/prog.cl", "w").write(src); sim = simfile(f, bad); open(d + "/a.sim", "w").write(sim)
        env = {k: v for k, v in os.environ.items() if k not in ("OCLGRIND_PLUGINS", "OCLGRIND_LOG")}
        p = subprocess.run([BUILD + "/ocl/oclgrind-kernel", "--num-threads", str(f["thr"]), "a.sim"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        return {"rc": p.returncode, "out": p.stdout.decode("latin1"), "err": p.stderr.decode("latin1")[:300], "sim": sim, "word": s["file"].get("word")}
    finally: shutil.rmtree(d)
