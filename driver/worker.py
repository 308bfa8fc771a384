#!/usr/bin/env python3
"""worker.py MODULE INFILE OUTFILE: runs each script (one JSON per line) with MODULE.run."""
import sys, json, os, importlib, faulthandler
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    mod = importlib.import_module(sys.argv[1])
    out = open(sys.argv[3], "a", buffering=1)
    with open(sys.argv[2]) as f:
        for line in f:
            i, s = json.loads(line)
            out.write("@%d\n" % i)
            try:
                r = mod.run(s)
            except Exception as e:            # an unexpected API failure is an observation
                import traceback
                r = {"exception": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-800:]}
            out.write(json.dumps([i, r]) + "\n")
    out.write("@end\n")
    out.flush()
    os._exit(0)
main()
