#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the registered checks"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hm, jobs
props = [json.loads(l)["id"] for l in open(os.path.join(hm.VERIF, "properties.jsonl")) if l.strip()]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no hooks: every check builds /repo's unmodified sources into /verif/build and observes them from outside (interposed system calls, mutexes and public calls)", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    if p in jobs.CHECKS:
        c = jobs.CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p, thorough_cmd="python3 tools/check.py %s thorough" % p,
                                evidence_file="evidence/%s.json" % p, technique=c.technique, level=c.level, level_note=c.note))
    else:
        m["not_applicable"].append(dict(property=p, reason=jobs.NA.get(p, "not built yet")))
m["notes"] = "Specification language: TLA+, checked with TLC. See DESIGN.md."
json.dump(m, open(os.path.join(hm.VERIF, "MANIFEST.json"), "w"), indent=1)
