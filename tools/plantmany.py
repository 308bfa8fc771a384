"""plantmany.py FILE [ID...]: FILE defines BUGS, a list of dicts (id, prop, needs, breaks, edits=[(file, old, new)], demo); creates and
saves each (see plant.py)"""
import sys, os, json, shutil, subprocess
ns = {}; exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    if sys.argv[2:] and b["id"] not in sys.argv[2:]: continue
    d = "/verif/seeded/" + b["id"]; os.makedirs(d, exist_ok=True); shutil.copy("/verif/tools/clmini.py", d)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    bad = None
    for f, o, n in b["edits"]:
        p = "/repo/" + f; s = open(p).read()
        if s.count(o) != 1: bad = "%s: old text occurs %d times" % (f, s.count(o)); break
        open(p, "w").write(s.replace(o, n))
    print("=== " + b["id"], flush=True)
    if bad: print(bad); subprocess.call("git -C /repo checkout -q -- .", shell=True); continue
    subprocess.call([sys.executable, "/verif/tools/plant.py", "save", b["id"]])
