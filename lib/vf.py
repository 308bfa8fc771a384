"""Shared machinery of the checks: build, TLC, replay workers, verdicts, evidence."""
import os, sys, json, subprocess, time, hashlib, shutil, fcntl, re, random, signal, tempfile, itertools
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
OCL = os.path.join(BUILD, "ocl")
os.environ["VF_BUILD"] = BUILD
SPEC = os.path.join(VERIF, "spec")
NCPU = max(1, min(8, os.cpu_count() or 1))
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class CheckError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "CMakeLists.txt", "config.h.in"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def build():
    """Builds library, runner and plugin from /repo's working tree in our own folder."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    try:
        h = tree_hash()
        hp = hashlib.sha256(open(os.path.join(VERIF, "driver/vplugin.cpp"), "rb").read()).hexdigest()
        stamp = os.path.join(BUILD, "stamp")
        want = h + hp
        if os.path.exists(stamp) and open(stamp).read() == want:
            return 0.0
        env = dict(os.environ, CC="gcc", CXX="g++", HOME="/root", LC_ALL="C.UTF-8")
        env.pop("OCLGRIND_PLUGINS", None)
        def attempt():
            r = sh(["cmake", "-S", REPO, "-B", OCL, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DLLVM_DIR=/usr/lib/llvm-20/lib/cmake/llvm",
                    "-DCLANG_ROOT=/usr/lib/llvm-20", "-DPYTHON_EXECUTABLE=/usr/bin/python3"], env=env)
            if r.returncode: return r
            return sh(["ninja", "-C", OCL, "liboclgrind-rt.so", "oclgrind", "oclgrind-kernel", "OPENCL_C_HEADERS"], env=env)
        # ninja decides by file times; a tree whose contents changed without newer
        # times is rebuilt from scratch
        old = open(stamp).read()[:64] if os.path.exists(stamp) else None
        if os.path.exists(stamp): os.unlink(stamp)
        lib = os.path.join(OCL, "liboclgrind.so")
        rt = os.path.join(OCL, "liboclgrind-rt.so")
        before = [os.path.getmtime(x) if os.path.exists(x) else 0 for x in (lib, rt)]
        r = attempt()
        if r.returncode:
            shutil.rmtree(OCL, ignore_errors=True)
            r = attempt()
        elif old and old != h and before == [os.path.getmtime(lib), os.path.getmtime(rt)]:
            shutil.rmtree(OCL, ignore_errors=True)
            r = attempt()
        if r.returncode:
            raise CheckError("build of /repo failed:\n" + r.stdout[-4000:])
        r = sh(["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-I" + REPO + "/src", "-I" + OCL, "-I/usr/lib/llvm-20/include",
                "-o", os.path.join(BUILD, "vplugin.so"), os.path.join(VERIF, "driver/vplugin.cpp"), "-L" + OCL, "-loclgrind", "-Wl,-rpath," + OCL], env=env)
        if r.returncode:
            raise CheckError("build of the plugin failed:\n" + r.stdout[-4000:])
        if tree_hash() != h:
            raise CheckError("the tree changed during the build")
        open(stamp, "w").write(want)
        return time.time() - t0
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

_tlc_n = itertools.count()
class TLC:
    def __init__(self, out, secs):
        self.records = []; self._tags = []; text = []
        for l in out.split("\n"):
            if l.startswith('<<"T", "') and l.endswith('">>'): self.records.append(json.loads(json.loads(l[7:-2])))
            elif l.startswith('<<"'): self._tags.append(l)
            else: text.append(l)
        self.out = out = "\n".join(text); self.secs = secs
        self.ok = ("Model checking completed. No error has been found." in out) or (
            "The number of states generated" in out and "Error:" not in out)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        g = re.findall(r"The number of states generated: ([\d,]+)", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else int(g[-1].replace(",", "")) if g else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
    def tagged(self, tag):
        """values printed as <<"tag", v...>> with integer/str v"""
        res = []
        for l in self._tags:
            if l.startswith('<<"%s", ' % tag):
                res.append(json.loads("[" + l[len(tag) + 6:-2] + "]"))
        return res

def tlc(module, cfg=None, simulate=None, depth=None, seed=None, workers=None, timeout=600, env=None, heap="4g", extra=(), consts=None, cfg_text=None):
    """Runs TLC on spec/<module>.tla. simulate=N: N random behaviours."""
    tag = "%s-%d-%d" % (module, os.getpid(), next(_tlc_n))
    work = os.path.join(BUILD, "tlc", tag)
    os.makedirs(work, exist_ok=True)
    try:
        if cfg_text is None:
            cfg_text = open(os.path.join(SPEC, (cfg or module) + ".cfg")).read()
        if consts:
            cfg_text += "\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) + "\n"
        cfgp = os.path.join(work, "run.cfg")
        open(cfgp, "w").write(cfg_text)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if simulate is not None or workers == 1 else "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work, "-cp", JAVA_CP, "tlc2.TLC", "-config", cfgp, "-metadir", work,
               "-noGenerateSpecTE", "-nowarning"]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 200), "-seed", str(seed or 1)]
        cmd += ["-workers", str(workers or (1 if simulate is not None else NCPU))]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ); e.update(env or {})
        t0 = time.time()
        try:
            r = sh(cmd, cwd=work, env=e, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b""
            if isinstance(o, bytes): o = o.decode("latin1")
            raise CheckError("TLC timed out on %s\n%s" % (module, o[-1500:]))
        return TLC(r.stdout, time.time() - t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def generate(module, cfg=None, num=100, depth=200, seed=1, procs=None, timeout=600, consts=None, env=None, heap="3g"):
    """Random behaviours of a generator module, in parallel TLC processes with derived seeds."""
    from concurrent.futures import ThreadPoolExecutor
    procs = procs or NCPU
    per = (num + procs - 1) // procs
    with ThreadPoolExecutor(procs) as ex:
        fs = [ex.submit(tlc, module, cfg, simulate=per, depth=depth, seed=seed * 1000 + 7 * i + 1, workers=1, timeout=timeout, consts=consts, env=env, heap=heap)
              for i in range(procs)]
        rs = [f.result() for f in fs]
    for r in rs:
        if not r.ok:
            raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-3000:]))
    recs = [x for r in rs for x in r.records]
    return recs, rs

def run_scripts(module, scripts, env=None, procs=None, hang=40, stdout=None):
    """Runs every script in worker processes; returns the list of results (same order).
    A worker that dies or hangs yields {"crash": ...} for the script it was running; after
    many of these the remaining scripts are not run ({"skipped": 1})."""
    left = [8, 60]         # hangs, crashes
    procs = procs or NCPU
    work = os.path.join(BUILD, "run", "%s-%d-%d" % (module, os.getpid(), next(_tlc_n)))
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ, OCLGRIND_LOG="/dev/null", PYTHONFAULTHANDLER="0", VF_BUILD=BUILD)
    for k in list(e):
        if k.startswith("OCLGRIND_") and k != "OCLGRIND_LOG": del e[k]
    e["OCLGRIND_PCH_DIR"] = os.path.join(OCL, "include/oclgrind")
    e.update(env or {})
    results = [None] * len(scripts)
    chunks = [list(range(i, len(scripts), procs)) for i in range(procs)]
    chunks = [c for c in chunks if c]
    live = []
    n = 0
    def start(ids):
        nonlocal n
        n += 1
        fi, fo, fe = [os.path.join(work, "%d.%s" % (n, x)) for x in ("in", "out", "err")]
        with open(fi, "w") as f:
            for i in ids: f.write(json.dumps([i, scripts[i]]) + "\n")
        open(fo, "w").close()
        er = open(fe, "wb")
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, "driver/worker.py"), module, fi, fo], stdin=subprocess.DEVNULL, stdout=er, stderr=er, env=e,
                             start_new_session=True)
        er.close()
        live.append({"p": p, "ids": ids, "out": fo, "err": fe, "size": 0, "t": time.time()})
    for c in chunks: start(c)
    try:
        while live:
            time.sleep(0.02)
            for w in list(live):
                rc = w["p"].poll()
                s = os.path.getsize(w["out"])
                if s != w["size"]: w["size"], w["t"] = s, time.time()
                hung = rc is None and time.time() - w["t"] > hang
                if rc is None and not hung: continue
                if hung:
                    try: os.killpg(w["p"].pid, signal.SIGKILL)
                    except OSError: pass
                    w["p"].wait()
                live.remove(w)
                cur, done, end = None, set(), False
                for l in open(w["out"]):
                    if not l.endswith("\n"): break
                    if l.startswith("@end"): end = True
                    elif l.startswith("@"): cur = int(l[1:])
                    else:
                        i, r = json.loads(l); results[i] = r; done.add(i); cur = None
                if end: continue
                err = open(w["err"], "rb").read()[-600:].decode("latin1")
                if cur is None:
                    rest = [i for i in w["ids"] if i not in done]
                    if not done and rest:
                        raise CheckError("worker %s failed to start: %s" % (module, err))
                else:
                    results[cur] = {"crash": "hang" if hung else "exit %s" % rc, "stderr": err}
                    rest = [i for i in w["ids"] if i not in done and i != cur]
                    left[0 if hung else 1] -= 1
                if min(left) <= 0:
                    for i in rest: results[i] = {"skipped": 1}
                elif rest: start(rest)
    finally:
        for w in live:
            try: os.killpg(w["p"].pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(work, ignore_errors=True)
    return results

def mixseed(*xs):
    return int(hashlib.sha256(repr(xs).encode()).hexdigest()[:8], 16)

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"): self.tier = sys.argv[2]
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples = []; self.notes = {}; self.violations = []; self.known = []
        self.assumptions = []
        self.exhaustive = None
        self.known_list = [k for k in load_known() if k["property"] == prop]
    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)
    def build(self):
        s = build()
        self.log("built" if s else "build up to date")
    def check_model(self, module, cfg=None, **kw):
        r = tlc(module, cfg, **kw)
        if not r.ok:
            raise CheckError("specification %s/%s: TLC reports an error:\n%s" % (module, cfg, r.out[-3000:]))
        self.states += r.distinct; self.transitions += r.generated
        self.log("TLC %s: %d states, %d transitions, %.1fs" % (cfg or module, r.distinct, r.generated, r.secs))
        self.notes.setdefault("models", []).append("%s: %d distinct states, %d generated" % (cfg or module, r.distinct, r.generated))
        return r
    def generate(self, module, cfg=None, **kw):
        kw.setdefault("seed", self.seed)
        recs, rs = generate(module, cfg, **kw)
        self.transitions += sum(r.generated for r in rs)
        self.log("TLC generated %d behaviours of %s (%d states)" % (len(recs), cfg or module, sum(r.generated for r in rs)))
        self.notes.setdefault("generated", []).append("%s: %d behaviours, %d states" % (cfg or module, len(recs), sum(r.generated for r in rs)))
        if not recs: raise CheckError("no behaviours generated by " + module)
        return recs
    def enumerate(self, module, cfg=None, **kw):
        r = self.check_model(module, cfg, **kw)
        if not r.records: raise CheckError("no behaviours enumerated by " + module)
        self.log("enumerated %d behaviours of %s" % (len(r.records), cfg or module))
        self.notes.setdefault("enumerated", []).append("%s: %d behaviours (all of them within the bounds)" % (cfg or module, len(r.records)))
        return r.records
    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)
    def is_known(self, text):
        for k in self.known_list:
            if k.get("match") and re.search(k["match"], text): return k
        return None
    def violation(self, what, data):
        """data: JSON-able replay information"""
        k = self.is_known(what)
        if k:
            if k["what"] not in self.known: self.known.append(k["what"])
            return
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f: json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, "data": data}, f, indent=1)
        self.violations.append(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        print("  " + what[:1500], flush=True)
    def replay(self, module, scripts, judge=None, env=None, hang=40, procs=None, limit=3, key="exp"):
        """Runs scripts in the implementation, compares with the prediction of the
        specification (judge(script, result) -> None or text), confirms every mismatch by
        running the script again, alone, in a fresh process."""
        if judge is None:
            judge = lambda s, r: None if r == s[key] else "expected %s, observed %s" % (json.dumps(s[key])[:600], json.dumps(r)[:600])
        t = time.time()
        def jd(s, r):
            if r is None: return "no result"
            if isinstance(r, dict) and "crash" in r: return "the implementation crashed or hung (%s) %s" % (r["crash"], r.get("stderr", "")[-300:])
            if isinstance(r, dict) and "exception" in r: return "unexpected failure: %s" % r["exception"]
            return judge(s, r)
        res = run_scripts(module, scripts, env=env, hang=hang, procs=procs)
        bad = []
        for s, r in zip(scripts, res):
            if isinstance(r, dict) and "skipped" in r: continue
            m = jd(s, r)
            if m is None: self.validated += 1
            else: bad.append((s, r, m))
        self.log("replayed %d behaviours in %s, %d mismatches, %.1fs" % (len(scripts), module, len(bad), time.time() - t))
        seen, once = 0, []
        for s, r, m in bad:
            if seen >= limit: break
            again = None
            for _ in range(3):
                if seen and time.time() - self.t0 > 600: break
                r2 = run_scripts(module, [s], env=env, procs=1, hang=hang)[0]
                again = jd(s, r2)
                if again is not None: break
            if again is None:
                self.log("mismatch not repeated on its own: " + m[:300])
                self.notes.setdefault("unconfirmed", []).append(m[:300])
                # it may depend on what ran before it in the same process: repeat the whole prefix
                idx = [i for i, x in enumerate(scripts) if x is s][0]
                n = procs or NCPU
                pre = scripts[idx % n:idx + 1:n]
                r3 = run_scripts(module, pre, env=env, procs=1, hang=hang)[-1]
                again = jd(s, r3)
                if again is None:
                    # (a wrong result seen once may be due to the schedule; crashes and time limits also to the machine)
                    if r is not None and not (isinstance(r, dict) and ("crash" in r or "exception" in r)): once.append((s, r, m))
                    if len(once) >= 10: break
                    continue
                self.violation(again, {"module": module, "script": s, "prefix": pre[:-1], "observed": r3, "env": env}); seen += 1
                continue
            self.violation(again, {"module": module, "script": s, "observed": r2, "env": env}); seen += 1
        if not seen and len(once) > 1:
            s, r, m = once[0]
            self.violation("(seen in %d runs, depending on the schedule) %s" % (len(once), m), {"module": module, "script": s, "observed": r, "env": env})
        return res
    def accept(self, spec, traces, consts=None, cfg=None, workers=None, timeout=700, heap="8g"):
        """Which of the recorded traces are not behaviours of the specification?
        Returns [(index, position reached)]."""
        work = os.path.join(BUILD, "traces"); os.makedirs(work, exist_ok=True)
        f = os.path.join(work, "%s-%d-%d.ndjson" % (spec, os.getpid(), next(_tlc_n)))
        try:
            with open(f, "w") as o:
                for t in traces: o.write(json.dumps(t) + "\n")
            r = tlc(spec, cfg, env={"TRACES": f}, consts=consts, workers=workers, timeout=timeout, heap=heap)
            if not r.ok: raise CheckError("TLC failed on %s:\n%s" % (spec, r.out[-3000:]))
            acc = {x[0] for x in r.tagged("ACC")}
            pruned = {x[0] for x in r.tagged("PRUNED")} - acc     # no verdict
            rej = [i for i in range(len(traces)) if i + 1 not in acc and i + 1 not in pruned]
            if pruned: self.log("no verdict on %d recorded runs" % len(pruned)); self.notes.setdefault("undecided", []).append("%s: %d of %d" % (spec, len(pruned), len(traces)))
            self.states += r.distinct; self.transitions += r.generated
            self.log("TLC %s: %d of %d recorded runs accepted, %d states, %.1fs" % (spec, len(acc), len(traces), r.distinct, r.secs))
            self.notes.setdefault("acceptors", []).append("%s: %d runs, %d states" % (spec, len(traces), r.distinct))
            res = []
            for i in rej[:8]:
                with open(f, "w") as o: o.write(json.dumps(traces[i]) + "\n")
                r = tlc(spec, cfg, env={"TRACES": f, "PROGRESS": "1"}, consts=consts, workers=1, timeout=timeout)
                pos = [x[1] for x in r.tagged("POS")]
                res.append((i, max(pos) if pos else 0))
            return res + [(i, None) for i in rej[8:]]
        finally:
            if os.path.exists(f): os.unlink(f)
    def record_and_accept(self, module, scripts, spec, project=None, env=None, hang=40, procs=None, consts=None, limit=3, describe=None):
        """Runs the scripts, and checks the recorded runs against the acceptor. A rejected run is
        confirmed by recording it again."""
        t = time.time()
        project = project or (lambda x: x)
        def crashed(r):
            if r is None: return "no result"
            if "crash" in r: return "the implementation crashed or hung (%s) %s" % (r["crash"], r.get("stderr", "")[-300:])
            if "exception" in r: return "unexpected failure: %s" % r["exception"]
        res = run_scripts(module, scripts, env=env, hang=hang, procs=procs)
        self.log("recorded %d runs of %s, %.1fs" % (len(res), module, time.time() - t))
        run = [i for i, r in enumerate(res) if not (r and "skipped" in r)]
        good = [i for i in run if not crashed(res[i])]
        rej = self.accept(spec, [project(res[i]) for i in good], consts) if good else []
        self.validated += len(good) - len(rej)
        bad = [(i, None) for i in run if crashed(res[i])] + [(good[i], p) for i, p in rej]
        n = 0
        for i, p in bad:
            if n >= limit: break
            msg = None
            for attempt in range(3):
                pre = [scripts[i]]
                if attempt == 2: pre = scripts[i % (procs or NCPU):i + 1:(procs or NCPU)]
                r = run_scripts(module, pre, env=env, procs=1, hang=hang)[-1]
                msg = crashed(r)
                if msg is None:
                    tr = project(r)
                    rj = self.accept(spec, [tr], consts)
                    if rj:
                        pos = rj[0][1] or 0
                        msg = "the recorded run is not a behaviour of %s: stuck at observation %d of %d: %s" % (
                            spec, pos, len(tr["ev"]), json.dumps(tr["ev"][pos - 1:pos] if 0 < pos <= len(tr["ev"]) else "end of run: something that must have happened did not"))
                if msg: break
            if msg is None:
                self.log("rejection of run %d not repeated" % i)
                self.notes.setdefault("unconfirmed", []).append("run %d" % i)
                continue
            self.violation(msg, {"module": module, "script": scripts[i], "prefix": pre[:-1], "observed": r, "env": env}); n += 1
        return res
    def finish(self):
        for k in self.known_list:
            if k.get("match"): print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples or ["(none)"]}
        if self.exhaustive is not None: cov["exhaustive"] = self.exhaustive
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        self.log("done: %d states, %d transitions, %d traces validated, %d violations" % (self.states, self.transitions, self.validated, len(self.violations)))
        sys.exit(1 if self.violations else 0)

def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]

def main(checks):
    prop = sys.argv[1]
    c = Check(prop)
    try:
        c.build()
        checks[prop](c)
    except CheckError as e:
        print("ERROR: %s" % e, flush=True)
        sys.exit(2)
    c.finish()
