#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hm, engine, scen, jobs

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = jobs.CHECKS[pid]
    c = engine.Ctx(pid, tier, set(spec.judged) | {"DEATH"})
    try:
        hm.prune_builds()
        for part in spec.parts:
            part(c)
            if c.violations: break
        return engine.finish(c, spec.level, spec.rule)
    except hm.Fail as e:
        if c.violations: return engine.finish(c, spec.level, spec.rule)
        print("ERROR property=%s the check could not run: %s" % (pid, e)); return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s the check could not run" % pid); return 2

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
