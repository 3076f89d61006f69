"""Runs jobs (driver scripts on build variants), validates their traces with TLC, collects verdicts and evidence."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
import hm

CORES = os.cpu_count() or 4
BATCH = int(os.environ.get("HM_BATCH", "32"))

class Job:
    """one run of the real allocator: a driver script on a build variant"""
    def __init__(s, name, variant, lines, rnd=0, env=None, module="HeapTrace", driver=("drv.c", "drv", ()), timeout=150, exe=None):
        s.name, s.variant, s.lines, s.rnd, s.env, s.module, s.driver, s.timeout = name, variant, lines, rnd, env, module, driver, timeout
        s.exe = exe; s.trace = None; s.verdict = None

class Ctx:
    def __init__(c, pid, tier, judged):
        c.pid, c.tier, c.judged = pid, tier, judged
        c.t0 = time.time()
        c.thorough = tier == "thorough"
        c.work = os.path.join(hm.BUILD, "work", "%s-%d" % (pid, os.getpid()))
        c.replay = os.path.join(hm.BUILD, "replay", pid)
        shutil.rmtree(c.work, ignore_errors=True); shutil.rmtree(c.replay, ignore_errors=True)
        os.makedirs(c.work)
        c.violations = []      # (what, path)
        c.errors = []
        c.cov = dict(evaluations=0, states=0, transitions=0, traces_validated_against_impl=0, samples=[], parts=[])
        c.kinds = set()
        c.nevents = {}
    def save(c, name, text):
        os.makedirs(c.replay, exist_ok=True)
        p = os.path.join(c.replay, re.sub(r"[^\w.-]", "_", name))
        with open(p, "w") as f: f.write(text)
        return p

# ------------------------------------------------------------------ driving
def drive(c, j, tag=""):
    if j.exe:       # a unit driver: its output is the trace
        try: r = subprocess.run([j.exe] + j.lines, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=j.timeout)
        except subprocess.TimeoutExpired: return [json.dumps(dict(e="cfg")), json.dumps(dict(e="hang"))]
        ev = [l for l in r.stdout.split("\n") if l.startswith("{") and l.endswith("}")]
        if r.returncode or not ev or '"end"' not in ev[-1]: ev.append(json.dumps(dict(e="crash", rc=r.returncode)))
        return [json.dumps(dict(e="cfg"))] + ev
    src, name, extra = j.driver
    exe = hm.build_driver(j.variant, src, name, extra)
    f = hm.facts(j.variant)
    script = "can %d\n" % f["canary"] + "\n".join(j.lines) + "\n"
    w = os.path.join(c.work, re.sub(r"[^\w.-]", "_", "%s-%s%s" % (j.variant, j.name, tag)))
    os.makedirs(w, exist_ok=True)
    for attempt in range(2):
        ev = hm.run_driver(exe, script, w, rnd=j.rnd, env=j.env, timeout=j.timeout)
        last = json.loads(ev[-1])
        if not (last["e"] == "crash" and last.get("sig") in (14, 99)): break   # out of time: once more
    shutil.rmtree(w, ignore_errors=True)
    if last["e"] == "hang":     # an endless stream of system calls: its beginning is enough
        k = len(ev) - 1
        while k and '"e":"sys"' in ev[k - 1]: k -= 1
        ev = ev[:k + 2000][:len(ev) - 1] + ev[-1:]
    return [json.dumps(dict(e="cfg", **f))] + ev

def describe(ev):
    """what makes an observation different from another one"""
    e = ev.get("e")
    if e in ("al", "re"): return (e, ev.get("k"), ev.get("rq") if ev.get("rq", 0) < 1 << 18 else ev.get("usp"), ev.get("al"), ev.get("ok"), ev.get("mv"), ev.get("imp"), ev.get("bal"))
    if e == "fr": return (e, ev.get("k"), ev.get("ax"), ev.get("oz", 0) >= 0)
    if e == "P": return (e, ev.get("k"), ev.get("st"), ev.get("same"), ev.get("out"), ev.get("b"), ev.get("arg"), ev.get("s"))
    if e == "sys": return (e, ev.get("c"), ev.get("err"), ev.get("n"), ev.get("s", -1) >= 0)
    if e == "os": return (e, ev.get("off"), ev.get("v"))
    if e in ("u16", "u64"): return (e, ev.get("bound"))
    if e in ("draw", "bulk"): return (e, len(ev.get("out", ())), len(ev.get("seed", ())), ev.get("gap"))
    if e == "seedfail": return (e, ev.get("mode"), ev.get("how"))
    if e == "sb": return (e, ev.get("s"), ev.get("nm"), ev.get("nd"), ev.get("al"))
    return (e,)

# ------------------------------------------------------------------ validation
def validate(c, traces, module, name, timeout=None):
    """traces: list of event lists; returns (index of the rejected trace or None, tags, line, tlc output)"""
    if timeout is None: timeout = 600 if c.thorough or module != "ConcTrace" else 240
    w = os.path.join(c.work, re.sub(r"[^\w.-]", "_", name)); os.makedirs(w, exist_ok=True)
    tp, jp = os.path.join(w, "t.json"), os.path.join(w, "j.json")
    with open(tp, "w") as f:
        for t in traces: f.write("\n".join(t) + "\n")
    with open(jp, "w") as f: f.write("\n".join(json.dumps(x) for x in sorted(c.judged)) + "\n")
    rc, out = hm.tlc(module + ".tla", module + ".cfg", w, env=dict(TRACE=tp, JUDGED=jp, BATCH=str(BATCH)), timeout=timeout, heap="3g", depth_first=module == "ConcTrace")
    shutil.rmtree(w, ignore_errors=True)
    if rc in (0, -98): return None, set(), 0, out
    if rc == -99 and module == "ConcTrace":      # no order of the steps found in time: nothing is concluded
        c.cov["parts"].append("search for an order of the steps of %s ran out of time: not counted" % name)
        return None, set(), 0, out
    starts = []; n = 0
    for t in traces: starts.append(n); n += len(t)
    found = [(int(m.group(1)), set(re.findall(r'"(\w+)"', m.group(2)))) for m in re.finditer(r'"CONTRADICTED",\s*(\d+),\s*\{([^}]*)\}', out)]
    bad = [(l, t) for l, t in found if t & set(c.judged)]
    if bad:
        l, tags = bad[0]
        i = max(k for k in range(len(starts)) if starts[k] < l)
        return i, tags & set(c.judged), l - starts[i], out
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    if rc in (-99, 150) or "Parsing or semantic analysis failed" in out or "TLC threw" not in out and "Error" not in out and not m:
        raise hm.Fail("TLC gave no answer on %s (rc %s)\n%s" % (name, rc, out[-1500:]))
    # the specification cannot even evaluate the event: it is no behaviour of the specification
    ls = [int(x) for x in re.findall(r"/\\ l = (\d+)", out)]
    l = ls[-1] if ls else (int(m.group(2)) if m else 1)
    i = max(k for k in range(len(starts)) if starts[k] < l)
    return i, {"SPEC"}, l - starts[i], out

def balance(jobs, nb):
    bs = [[] for _ in range(nb)]; size = [0] * nb
    for j in sorted(jobs, key=lambda j: -len(j.trace)):
        k = size.index(min(size)); bs[k].append(j); size[k] += len(j.trace)
    return [b for b in bs if b]

def run_jobs(c, jobs):
    """drive all jobs, validate all traces"""
    jobs = list(jobs)
    for v in sorted({j.variant for j in jobs}): pass
    with cf.ThreadPoolExecutor(CORES) as ex:
        list(ex.map(hm.build_lib, sorted({j.variant for j in jobs if not j.exe})))
        for j, t in zip(jobs, ex.map(lambda j: drive(c, j), jobs)): j.trace = t
    for j in jobs:
        for l in j.trace:
            e = json.loads(l)
            k = e.get("e", "?"); c.nevents[k] = c.nevents.get(k, 0) + 1
            c.kinds.add(describe(e))
    todo = []
    for mod in sorted({j.module for j in jobs}):
        js = [j for j in jobs if j.module == mod]
        total = sum(len(j.trace) for j in js)
        nb = max(1, min(CORES, len(js), total // (200 if mod == "RngTrace" else 1500) + 1))
        todo += [(mod, b) for b in balance(js, nb)]
    def work(arg):
        i, (mod, b) = arg
        b = list(b); res = []
        while b:
            k, tags, line, out = validate(c, [j.trace for j in b], mod, "batch%d" % i)
            g, d = hm.tlc_counts(out)
            if k is None:
                res.append((b, g, d)); break
            res.append((b[:k], g, d))
            res.append(confirm(c, b[k], tags, line, out))
            b = b[k + 1:]
            if c.violations: break
        return res
    with cf.ThreadPoolExecutor(CORES) as ex:
        for res in ex.map(work, enumerate(todo)):
            for r in res:
                if r is None: continue
                good, g, d = r
                c.cov["transitions"] += max(0, g); c.cov["states"] += d
                c.cov["traces_validated_against_impl"] += len(good)
                c.cov["evaluations"] += sum(len(j.trace) for j in good)
                for j in good[:1]:
                    if len(c.cov["samples"]) < 4:
                        c.cov["samples"].append(dict(run=j.name, variant=j.variant, script=j.lines[:6], events=[json.loads(x) for x in j.trace[-4:-1]]))

def confirm(c, j, tags, line, out):
    """a rejection counts if a second run of the same script is rejected, too"""
    for n in range(3):
        t = drive(c, j, "-again%d" % n)
        k, tags2, line2, out2 = validate(c, [t], j.module, "confirm-%s-%d-%d" % (j.name, n, hash(j.variant) % 1000), timeout=600 if c.thorough else 120)
        if k is not None:
            what = "%s on %s contradicts %s at event %d: %s" % (j.name, j.variant, ",".join(sorted(tags2)), line2, t[min(line2, len(t)) - 1])
            p = c.save("%s-%s.txt" % (j.variant, j.name),
                       "# %s\n# configuration %s, driver %s, HM_RND=%d; script first, then the last events before the contradiction\n" % (what, j.variant, j.driver[0], j.rnd)
                       + "\n".join(j.lines) + "\n# events\n" + "\n".join(t[max(0, line2 - 30):line2]) + "\n# TLC\n" + out2[-3000:])
            c.violations.append((what, p)); hm.stop.set()
            return None
    c.cov["parts"].append("rejection of %s on %s (%s) did not repeat" % (j.name, j.variant, ",".join(sorted(tags))))
    return None

# ------------------------------------------------------------------ model checking of closed specifications
def check_model(c, module, cfg, name=None, timeout=500, workers=CORES, heap="6g", expect_states=1, extra=()):
    rc, out = hm.tlc(module + ".tla", cfg, c.work, timeout=timeout, workers=workers, heap=heap, extra=extra)
    g, d = hm.tlc_counts(out)
    if rc != 0 or d < expect_states:
        raise hm.Fail("model %s/%s: rc %s\n%s" % (module, cfg, rc, out[-2500:]))
    c.cov["states"] += d; c.cov["transitions"] += g
    c.cov["parts"].append("TLC: %s (%s) complete, %d distinct states" % (module, cfg, d))
    return out

# ------------------------------------------------------------------ known findings
def known(pid):
    out = []
    try:
        for l in open(os.path.join(hm.VERIF, "known_findings.txt")):
            m = re.match(r"KNOWN-FINDING: property=(\w+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    except OSError: pass
    return out

def finish(c, level, rule):
    cov = c.cov
    cov["distinct_nontrivial"] = len(c.kinds)
    cov["rule"] = rule
    cov["events"] = dict(sorted(c.nevents.items()))
    if not cov["samples"]: cov["samples"] = ["no trace accepted"]
    os.makedirs(os.path.join(hm.VERIF, "evidence"), exist_ok=True)
    ev = dict(property=c.pid, tier=c.tier, seed=hm.SEED, level=level, coverage=cov, wall_s=round(time.time() - c.t0, 2))
    with open(os.path.join(hm.VERIF, "evidence", c.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    shutil.rmtree(c.work, ignore_errors=True)
    ks = known(c.pid)
    left = []
    for what, path in c.violations:
        if any(k in what for k, _ in ks): continue
        left.append((what, path))
    for k, d in ks: print("KNOWN-FINDING: property=%s %s" % (c.pid, d))
    for what, path in left[:5]:
        print("  " + what[:600])
        print("VIOLATION property=%s replay=%s" % (c.pid, path))
    if left: return 1
    print("OK property=%s %s: %d traces, %d events, %d states, %.1f s" % (c.pid, c.tier, cov["traces_validated_against_impl"], cov["evaluations"], cov["states"], time.time() - c.t0))
    return 0
