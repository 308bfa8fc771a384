#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import os, sys, importlib, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
sys.path.insert(0, os.path.join(vf.VERIF, "checks"))
checks = {}
for f in sorted(glob.glob(os.path.join(vf.VERIF, "checks", "*.py"))):
    checks.update(importlib.import_module(os.path.basename(f)[:-3]).CHECKS)
vf.main(checks)
