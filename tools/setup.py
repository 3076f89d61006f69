#!/usr/bin/env python3
"""Build what the checks need from the current tree (they rebuild by themselves when it changes) and parse every specification."""
import os, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hm
def one(v):
    try:
        hm.build_lib(v)
        if v != "cxx": hm.build_driver(v)
        return None
    except Exception as e: return "%s: %s" % (v, e)
with cf.ThreadPoolExecutor(8) as ex:
    bad = [r for r in ex.map(one, hm.VARIANTS) if r]
for b in bad: print(b)
rc = 0
for f in sorted(os.listdir(hm.SPEC)):
    if f.endswith(".tla"):
        r = hm.sh(["java", "-cp", hm.classpath(), "tla2sany.SANY", f], cwd=hm.SPEC)
        if r.returncode: print(r.stdout[-2000:]); rc = 1
print("setup done")
sys.exit(rc)
