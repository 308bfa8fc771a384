"""plant.py save ID   : the current diff of /repo becomes seeded/ID/patch.diff; confirms build, tests, demo; then as 'run'
plant.py run ID...    : applies each patch, runs the check of its property (quick), undoes it, reports
plant.py demo ID...   : demo on the unchanged tree and with the patch"""
import sys, os, json, subprocess, shutil
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(): 
    r = sh("bash /opt/vp/build.sh"); return r.returncode == 0, r.stdout[-2000:]
def stable():
    sh("bash /opt/vp/test.sh /tmp/plant-o.json"); b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/plant-o.json"))
    return set(b["stable"]) - set(o["passed"])
def demo(i):
    t = "/tmp/plant-demo"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(V + "/seeded/" + i, t)
    for f in os.listdir(t):
        if f.endswith((".diff", ".json")): os.unlink(t + "/" + f)
    try: r = sh("bash %s/demo.sh" % t, cwd=R, timeout=300); return r.returncode, r.stdout[-600:]
    except subprocess.TimeoutExpired: return "timeout", ""
    finally: shutil.rmtree(t, ignore_errors=True)
def clean(): return sh("git -C /repo status --porcelain").stdout.strip() == ""
def apply(i): 
    assert clean(), "repo dirty"
    r = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i)); assert r.returncode == 0, r.stdout
def undo(): sh("git -C /repo checkout -- .")
def run(i, props=None):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    apply(i)
    try:
        for p in props or [m["property"]]:
            r = sh("VERIF_SEED=1 VERIF_TIER=quick python3 %s/run.py %s quick" % (V, p), timeout=1000)
            caught = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")][:2]
            print("%s: %s exit %s %s" % (i, p, r.returncode, "CAUGHT" if caught else "MISSED"), (v[1][:300] if len(v) > 1 else r.stdout[-400:]), flush=True)
    finally: undo()
if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "save":
        i = ids[0]; d = V + "/seeded/" + i
        diff = sh("git -C /repo diff").stdout
        if diff.strip(): open(d + "/patch.diff", "w").write(diff); undo()
        apply(i)
        try:
            ok, o = build(); print("build", ok); 
            if not ok: print(o); sys.exit(1)
            print("missing tests", stable()); print("demo with patch", demo(i))
        finally: undo()
        print("rebuild", build()[0]); print("demo unchanged", demo(i))
        run(i, ids[1:] or None)
    elif cmd == "run":
        props = None
        for i in ids: run(i)
    elif cmd == "demo":
        for i in ids:
            print(i, "unchanged", demo(i)); apply(i)
            try: build(); print(i, "patched", demo(i))
            finally: undo(); build()
