"""Which runs and which models decide which property."""
import re
import hm, scen
from engine import Job, run_jobs, check_model

RULE = ("one evaluation is one event of a recorded execution of the real allocator (call with result, observation or system call) consumed by the "
        "specification; distinct_nontrivial counts events that differ in kind, call, request, alignment, size class, probe, outcome or system call")

TECH = "TLA+ specification (Heap.tla), TLC trace validation of recorded executions of the real allocator"
NOTE = ("Every event of the recorded executions (calls, results, observations, system calls) is judged by TLC against the TLA+ state machine; "
        "holds for the executions generated from the seed, on the listed build configurations; trusts the interposing recorder and the kernel.")

NA = {}

class Check:
    def __init__(s, judged, parts, level="exploration", rule=RULE, technique=TECH, note=NOTE):
        s.judged, s.parts, s.level, s.rule, s.technique, s.note = judged, parts, level, rule, technique, note

def J(name, fn, v, seed=None, rnd=0, **kw):
    seed = hm.SEED if seed is None else seed
    v2, lines = fn(v, seed, **kw)
    return Job("%s-%s%s" % (name, seed, "".join("-%s%s" % (k, kw[k]) for k in sorted(kw) if k != "thorough" and not isinstance(kw[k], (list, dict)))), v2, lines, rnd=rnd)

def traces(quick, thorough=None):
    """quick / thorough: functions returning lists of jobs"""
    def part(c):
        js = quick(False)
        if c.thorough: js = (thorough or quick)(True)
        run_jobs(c, js)
    return part

ALLV = ["default", "light", "stats", "lstats", "exact", "noq", "noqx", "det", "fifo", "rnd", "nocan", "nozero", "nolarge", "seal", "sealst", "tiny", "table", "bigq", "fsq0", "arena"]
MT = list(hm.MTE)
AN = list(hm.ANDROID)
CANV = [v for v in ALLV if v != "nocan"]

def seeds(th, n=1, m=6): return [hm.SEED + i for i in range(m if th else n)]
def S(fn, quick, thorough=None, name=None, m=4, nq=1, **kw):
    """scenario fn on the quick (thorough) variants with n (m) seeds"""
    def jobs(th):
        return [J(name or fn.__name__, fn, v, seed=s, **(dict(kw, thorough=True) if th and "thorough" in fn.__code__.co_varnames else kw))
                for v in (thorough or ALLV if th else quick) for s in seeds(th, nq, m)]
    return jobs
def T(quick, thorough=None, nq=1, m=3, n=60, **kw):
    """executions of several threads under the control of the scheduler"""
    def jobs(th):
        js = []
        for v in (thorough or ALLV if th else quick):
            for mode in kw.get("modes", ("s", "i")):
                for sd in seeds(th, nq, m):
                    v2, lines = scen.conc(v, sd, mode, n=n * (2 if th else 1), fork=kw.get("fork", 0.0), three=kw.get("three", 0.1))
                    js.append(Job("threads-%s-%s" % (mode, sd), v2, lines, module="ConcTrace"))
        return js
    return jobs
def W(variants, th_variants, n=60):
    """the same executions with every access to the allocator's state recorded, together with the locks held"""
    def jobs(th):
        js = []
        for v in (th_variants if th else variants):
            for sd in seeds(th, 2, 8):
                for name, (v2, lines) in (("watch", scen.conc(v, sd, "s", n=n * (2 if th else 1), three=0.5)), ("watch-large", scen.concl(v, sd))):
                    k = next(i for i, l in enumerate(lines) if l.startswith("thr "))
                    extra = ("st", "t") if hm.facts(v)["stats"] else ("t",)
                    out = lines[:k + 1] + ["watch 1"]; nd = 0
                    for l in lines[k + 1:]:
                        out.append(l)
                        if l == "dr":
                            nd += 1
                            if nd % 12 == 6: out += ["q %d %s" % (x, o) for x in (1, 2) for o in extra] + ["dr"]
                    js.append(Job("%s-%s" % (name, sd), v2, out + ["q %d %s" % (x, o) for x in (1, 2) for o in extra + ("m %d 100" % (60000 + x),)] + ["dr", "watch 0"], module="RaceTrace"))
        return js
    return jobs
def C(fn, quick, thorough=None, module="ConcTrace", **kw):
    f = S(fn, quick, thorough, **kw)
    def jobs(th):
        js = f(th)
        for j in js: j.module = module
        return js
    return jobs
def closed(module, cfg=None, **kw):
    def part(c): check_model(c, module, cfg or module + ".cfg", **kw)
    return part
def deep(*parts):
    """model checks of the thorough tier only"""
    def part(c):
        if c.thorough:
            for p in parts: p(c)
    return part
TOURS = dict(det="TourDet", fsq0="TourFsq0", fifo="TourFifo", rnd="TourRnd")
def tours(quick, k=36):
    """behaviours of the closed model of a size class, drawn by TLC's simulator and replayed on the real allocator"""
    def part(c):
        js = []
        for v in (list(TOURS) if c.thorough else quick):
            num = 24 if c.thorough else 4
            rc, out = hm.tlc("SlabTour.tla", TOURS[v] + ".cfg", c.work, timeout=300, workers=1, heap="2g", extra=("-simulate", "num=%d" % num, "-depth", "260", "-seed", str(1000 + hm.SEED)))
            seen = {}
            for l in re.findall(r'"TOUR (.*)"', out):
                ops = re.findall(r'<<\\?"(\w)\\?", <<([\d, ]*)>>>>', l)
                seen.setdefault(tuple(ops[:-1]), ops)
            if rc != 0 or len(seen) < num // 2: raise hm.Fail("SlabTour %s: rc %s, %d behaviours\n%s" % (v, rc, len(seen), out[-1500:]))
            for i, ops in enumerate(seen.values()): js.append(Job("tour-%d" % i, *scen.tour(v, ops, k)))
            c.cov["parts"].append("%d behaviours of Slab (%s) of %d operations replayed on configuration %s" % (len(seen), TOURS[v], len(ops), v))
        run_jobs(c, js)
    return part
def tabletours(c):
    """behaviours of the closed model of the registry of large blocks, replayed with colliding addresses"""
    num = 12 if c.thorough else 1
    rc, out = hm.tlc("RegionTable.tla", "TourTable.cfg", c.work, timeout=400, workers=1, heap="2g", extra=("-simulate", "num=%d" % num, "-depth", "330", "-seed", str(2000 + hm.SEED)))
    seen = {}
    for l in re.findall(r'"TOUR (.*)"', out):
        ops = re.findall(r'<<\\?"(\w)\\?", (\d+), (\d+)>>', l)
        seen.setdefault(tuple(ops[:-1]), ops)
    if rc != 0 or len(seen) < num: raise hm.Fail("RegionTable tours: rc %s, %d behaviours\n%s" % (rc, len(seen), out[-1500:]))
    c.cov["parts"].append("%d behaviours of RegionTable of %d operations replayed" % (len(seen), len(ops)))
    run_jobs(c, [Job("tabletour-%d" % i, *scen.tabletour(v, ops)) for i, ops in enumerate(seen.values()) for v in (["table", "tiny", "noq"] if c.thorough else ["table"])])
def plus(*fs): return lambda th: [j for f in fs for j in f(th)]
def M(quick, thorough=None, nq=1, m=4, **kw):
    return lambda th: [J("mix", scen.mix, v, seed=s, **dict(kw, n=kw.get("n", 700) * (3 if th else 1))) for v in (thorough or ALLV if th else quick) for s in seeds(th, nq, m)]
def only(variants, f):
    return f
def K(fn, quick, th_variants, ks_q, ks_t=None, **kw):
    """per size class scenario; ks_*: function variant -> class list"""
    def jobs(th):
        return [J(fn.__name__, fn, v, k=k, **kw) for v in (th_variants if th else quick) for k in (ks_t or ks_q)(v) if (th or True)]
    def j2(th):
        if th: return [J(fn.__name__, fn, v, k=k, seed=s, **kw) for v in th_variants for k in (ks_t or ks_q)(v) for s in seeds(True, 1, 2)]
        return [J(fn.__name__, fn, v, k=k, **kw) for v in quick for k in ks_q(v)]
    return j2
def classes_with(lo, hi):
    return lambda v: [k for k in range(1, hm.facts(v)["nclass"]) if lo <= hm.SLOTS_EXT[k] <= hi]
def some(*ks): return lambda v: [k for k in ks if k < hm.facts(v)["nclass"]]
def rand_classes(n):
    import random
    return lambda v: random.Random("rc%s%d" % (v, hm.SEED)).sample(range(1, hm.facts(v)["nclass"]), n)

def cxx(c):
    """every environment of the closed protocol model, run on the real operators"""
    out = check_model(c, "CxxNew", "CxxNew.cfg")
    envs = sorted({(m.group(1) == "TRUE", int(m.group(2)), int(m.group(3)), "".join(re.findall(r'"(\w)"', m.group(4))))
                   for m in re.finditer(r'<<"ENV", (TRUE|FALSE), (\d), (\d), <<(.*?)>>>>', out)})
    if len(envs) < 100: raise hm.Fail("CxxNew printed %d environments" % len(envs))
    c.cov["parts"].append("%d environments of CxxNew (form, handler, handler behaviour, when memory comes back) run on the real operators" % len(envs))
    js = []
    for v in ("cxx", "cxxlight", "cxxseal"):
        for sd in seeds(c.thorough, 1, 6):
            v2, l = scen.cxxnew(v, sd, envs=envs, n=len(envs), full=c.thorough)
            js.append(Job("cxxnew-%d" % sd, v2, l, module="CxxTrace"))
    run_jobs(c, js)

def initjobs(th):
    js = []
    for v in ("noinit", "noinit1", "noinits", "android"):
        for k in list(range(len(scen.FIRST))) + ([12] if v == "android" else []) if th or v in ("noinit", "noinit1") else (0, 5, 8) if v == "noinits" else (0, 12):
            for sd in ([hm.SEED, hm.SEED + 1, hm.SEED + 100] if th else [hm.SEED]): js.append(J("early", scen.early, v, seed=sd, first=k))
        for k in range(0, 24 if th else 0 if v == "android" else 15):
            for sd in seeds(th, 1, 3): js.append(J("initrace-s%d" % k, scen.initrace, v, seed=sd, stops=[k], mode="s"))
        import random
        r = random.Random("ij%s%d" % (v, hm.SEED))
        for k in [] if v == "android" and not th else [r.randrange(0, 200) for _ in range(20 if th else 3)] + [r.randrange(0, 400000) for _ in range(20 if th else 6)]:
            js.append(J("initrace-i%d" % k, scen.initrace, v, stops=[k], mode="i"))
    for j in js:
        if "initrace" in j.name: j.module = "ConcTrace"
    return js

def rngunit(c):
    """random.c by itself: with chacha.c, and with chosen raw values in place of the keystream"""
    js = []; sd = hm.SEED
    key, why = hm.build_unit("rngkey", "rng.c", ["random.c", "chacha.c", "util.c"])
    feed, why2 = hm.build_unit("rngfeed", "rng.c", ["random.c", "util.c"], ["-DFEED"])
    if not key or not feed:
        c.cov["parts"].append("random.c does not build by itself: judged through the library only")
        return
    for i in range(24 if c.thorough else 7): js.append(Job("rng-keystream-%d" % (sd + i), "unit", [str(sd + i), "600" if c.thorough else "250", "4"], module="RngTrace", exe=key, timeout=60))
    if c.thorough:
        step = 64
        for i in range(step): js.append(Job("rng-uniform-%d" % i, "unit", [str(sd + i), str(1 + i), "65535", str(step), "60"], module="RngTrace", exe=feed, timeout=900))
    else:
        for i in range(8): js.append(Job("rng-uniform-%d" % i, "unit", [str(sd + i), str(1 + i), str(300 + 8), "8", "40" if i else "100"], module="RngTrace", exe=feed, timeout=40))
        for i, (a, b, st) in enumerate([(509, 515, 1), (1021, 1027, 1), (4093, 4099, 1), (16381, 16387, 1), (32765, 32771, 1), (65530, 65535, 1), (701 + sd % 97, 65535, 1999)]):
            js.append(Job("rng-uniform-x%d" % i, "unit", [str(sd), str(a), str(b), str(st), "0"], module="RngTrace", exe=feed, timeout=40))
    run_jobs(c, js)

CHECKS = {
 "C01": Check(["C01"], [closed("Slab", "SlabOne.cfg"), traces(plus(M(["default", "light", "noq", "det", "exact", "nolarge", "nozero", "fsq0"], n=900), M(["default", "lstats", "rnd"], pool=1, n=900),
                                    S(scen.recycle, ["noq", "light"], m=2), S(scen.larges, ["exact", "table"], m=2), S(scen.faults, ["exact"], m=1), S(scen.trims, ["default"], ["default", "light", "bigq", "nocan", "seal"], m=2),
                                    K(scen.churn, ["noq", "det"], ALLV, rand_classes(3), rand_classes(12), steps=500)))]),
 "C02": Check(["C02"], [traces(plus(S(scen.sizes, ["default", "light", "nocan", "nolarge"], m=1), S(scen.aligns, ["default", "light", "nocan", "nolarge", "exact"], m=2), M(["default", "nozero"], n=400)))]),
 "C03": Check(["C03", "C01", "C05", "C20", "C21"], [traces(plus(S(scen.impossible, ["default", "light", "nocan", "nolarge", "exact", "seal"], m=1), M(["default", "tiny"], bad=0.2, n=500), S(scen.impossible, ["tiny"], ["tiny"], m=1), K(scen.exhaust, ["tiny"], ["tiny"], some(36), some(36, 35, 33))))]),
 "C04": Check(["C04"], [traces(plus(S(scen.recycle, ["default", "light", "exact", "nozero", "noqx", "det"], m=2), M(["default", "nozero", "noq", "fsq0"], n=700), S(scen.larges, ["exact", "nozero"], m=2), S(scen.reallocs, ["nozero"], m=1)))]),
 "C05": Check(["C05", "C01", "C02", "C06", "C11", "C20"], [traces(plus(S(scen.reallocs, ["default", "light", "nolarge", "nocan", "exact", "nozero"], m=1), M(["default", "det"], n=500), S(scen.faults, ["exact"], ["exact", "default"], m=1)))]),
 "C06": Check(["C06"], [traces(plus(S(scen.badfrees, ["default", "light", "noq", "det", "exact", "nolarge", "tiny"], m=1), M(["default", "arena"], probes=0.5, n=500)))]),
 "C07": Check(["C07", "C06", "C01"], [traces(plus(S(scen.sized, ["default", "light", "nocan", "nolarge", "exact"], m=1), C(scen.cxxnew, ["cxx", "cxxlight"], ["cxx", "cxxlight", "cxxseal"], module="CxxTrace", m=2)))]),
 "C08": Check(["C08"], [traces(plus(S(scen.canaries, ["default", "light", "det", "seal", "exact"], CANV, m=1), M(["default", "noq"], n=700, pool=1)))]),
 "C09": Check(["C09"], [traces(S(scen.waf, ["default", "noq", "det", "fifo", "rnd", "exact"], [v for v in ALLV if hm.facts(v)["waf"]], m=1))]),
 "C10": Check(["C10", "C06", "C01", "C23"], [traces(plus(K(scen.smallq, ["default"], ["default", "light", "nolarge"], lambda v: [1, 9], lambda v: [1, 2, 9]), K(scen.smallq, [], ["default", "light"], lambda v: [8, 12], f_r=4))), closed("Slab", "SlabFifo.cfg"), deep(closed("Slab", "SlabRnd.cfg"), closed("Slab", "SlabBoth.cfg")), tours(["fifo", "rnd"]), traces(plus(K(scen.churn, ["default", "fifo", "rnd", "exact"], ["default", "fifo", "rnd", "exact", "light", "bigq", "stats"], lambda v: [36, 35, 33] if v == "exact" else [36, 34, 31], rand_classes(8), steps=900),
                                    K(scen.fillcycles, ["fifo", "rnd", "exact"], ["default", "fifo", "rnd", "exact", "bigq"], some(36, 33), rand_classes(6)),
                                    M(["light", "bigq"], pool=1, n=500)))]),
 "C11": Check(["C11", "C12"], [closed("Regions", "RegionsFifo.cfg"), deep(closed("Regions", "RegionsRnd.cfg"), closed("Regions", "RegionsBig.cfg")), traces(plus(S(scen.larges, ["exact", "default", "fifo", "rnd", "noq", "nolarge"], m=2), S(scen.reallocs, ["exact", "rnd"], m=1), M(["exact", "light"], n=500, big=True), S(scen.faults, ["default"], ["default", "exact", "noq", "nolarge"], m=1)))]),
 "C12": Check(["C12", "C11"], [traces(plus(S(scen.guards, ["exact", "nolarge", "nocan"], m=1), S(scen.larges, ["default", "table", "light"], m=2), S(scen.aligns, ["exact"], m=1)))]),
 "C13": Check(["C13"], [traces(plus(S(scen.zeros, ["noq"], ["noq", "noqx", "det", "fsq0", "nolarge", "arena", "nozero"], m=1), S(scen.untouchable, ["default", "light", "noq", "exact", "det", "noqx"], m=1), K(scen.manyslabs, ["noq", "noqx", "exact", "default"], ["noq", "noqx", "exact", "default", "light", "tiny", "table"], lambda v: [36, 33, 0][:2], some(36, 34, 30, 24, 20, 0)), M(["noqx"], probes=0.3, n=500)))]),
 "C14": Check(["C14", "C01"], [closed("Slab", "SlabZero.cfg"), deep(closed("Slab", "SlabNoq.cfg")), tours(["det", "fsq0"]), traces(plus(K(scen.fillcycles, ["noq", "noqx", "det", "exact", "fsq0", "lstats"], ["noq", "noqx", "det", "exact", "fsq0", "lstats", "default", "fifo", "rnd"], some(20, 33, 36), rand_classes(6)),
                                    K(scen.churn, ["noq", "fsq0", "det"], ["noq", "noqx", "fsq0", "det", "tiny", "lstats"], some(30, 36), rand_classes(8), steps=700), S(scen.untouchable, ["noq"], m=1), S(scen.faults, ["noq"], ["noq", "tiny"], m=2),
                                    S(scen.recyclefaults, ["noq"], ["noq", "det", "nocan"], m=2), S(scen.trims, ["noq", "default", "exact", "light", "nocan"], m=2), S(scen.trims, ["andnoq"], AN, m=2), S(scen.trims, ["arena"], ["arena", "default", "light", "nocan"], threads=3, m=4)))]),
 "C15": Check(["C15", "C13", "C16"], [traces(plus(S(scen.sizes, ["default", "arena"], m=1), M(["default", "light", "noq", "nolarge", "tiny"], n=600), K(scen.exhaust, ["tiny"], ["tiny"], some(36, 33), some(36, 35, 34, 33, 28, 21)), K(scen.churn, ["tiny", "arena"], ["tiny", "arena", "nocan"], some(36, 30, 12), rand_classes(8), steps=900)))]),
 "C16": Check(["C16", "C15"], [traces(plus(S(scen.manylarge, ["table", "tiny", "default"], ["table", "tiny", "default", "light", "exact", "det"], m=2), M(["default", "light", "exact", "seal"], n=500), S(scen.faults, ["tiny"], ["tiny", "table"], m=1), S(scen.growfaults, ["noq"], ["noq", "tiny", "table"], m=1), S(scen.manylarge, ["exact"], n=950, m=1), S(scen.manylarge, ["default"], ["default", "light"], n=750, nq=1, m=2)))]),
 "C17": Check(["C01", "C02", "C05", "C10", "C11", "C13", "C14", "C15", "C16", "C20", "C21", "C23", "C26", "C27", "DEATH"],
              [closed("Locks", "LocksTwo.cfg"), deep(closed("Locks")), traces(W(["default", "exact", "lstats", "andnoq"], ALLV + AN)), traces(plus(T(["default", "light", "noq", "det", "exact", "arena", "seal"], n=60), T(["noq", "exact"], ["noq", "exact", "default"], n=50, nq=2, three=0.6, modes=("s",)), T(["andnoq"], AN, n=40, modes=("s",)), T(["noq"], fork=0.25, n=30, modes=("s",)),
                           C(scen.concl, ["table", "exact", "default"], ["table", "exact", "default", "tiny", "noq", "lstats", "nolarge"], nq=2, m=8),
                           C(scen.concl, ["table"], ["table", "exact", "noq"], focus=["fl"], m=8, name="concl-fl"), C(scen.concl, ["table"], ["table", "exact", "noq"], focus=["ml"], m=8, name="concl-ml"),
                           C(scen.concl, ["table"], ["table", "exact", "noq"], focus=["rs", "fl"], m=8, name="concl-rs")))]),
 "C18": Check(["C18", "C01", "C11", "C21", "C02", "C03", "C05", "C06", "C10", "C14", "C16", "C20", "C23", "C26"], [closed("Locks", "LocksTwo.cfg"), deep(closed("Locks")), traces(plus(T(["exact", "seal", "default"], ["exact", "seal", "default", "noq", "det", "light"], fork=0.4, n=25, modes=("s",)), T(["exact"], ["exact", "noq", "seal"], fork=0.4, n=15, modes=("i",)), C(scen.forkrace, ["exact", "det", "noq", "table"], ["exact", "det", "noq", "table", "default", "light", "seal", "tiny", "fifo", "rnd"], nq=2, m=8), C(scen.forkrace, ["table"], ["table", "exact", "noq"], large=True, nq=2, m=8), S(scen.forks, ["default", "light", "stats", "det", "exact", "seal"], m=3), S(scen.indep, ["default", "stats", "exact", "arena"], ["default", "stats", "exact", "arena", "bigq", "noq"], m=3), S(scen.indept, ["stats", "arena", "seal"], ["default", "stats", "arena", "seal"], m=3)))]),
 "C19": Check(["C19", "C01", "C11", "C14", "C02", "C03", "C04", "C05", "C06", "C12", "C16", "C20", "C21", "C26", "C28"], [closed("Regions", "RegionsThr.cfg"), traces(plus(S(scen.faults, ["exact", "default", "light", "noq", "nolarge", "tiny", "seal"], m=2), M(["exact", "noq"], faults=0.1, n=600), S(scen.recyclefaults, ["noq", "exact"], ["noq", "fsq0", "exact", "det", "noqx", "arena", "nocan", "light", "default"], m=2), S(scen.growfaults, ["noq", "exact", "table", "tiny"], ["noq", "exact", "table", "tiny", "default", "seal", "det"], m=2)))], level="fault_enumeration"),
 "C20": Check(["C20"], [traces(plus(S(scen.objsizes, ["default", "light", "nocan", "nolarge", "exact"], m=1), M(["default", "noq"], probes=0.5, n=400)))]),
 "C21": Check(["C21"], [traces(plus(M(["stats", "lstats", "exact", "noq", "nolarge"], [v for v in ALLV if hm.facts(v)["stats"]], n=700), M(["android", "andnoq"], AN, n=700), S(scen.trims, ["andseal"], AN, m=2), M(["default"], n=200), K(scen.churn, ["noq", "det"], ["noq", "det", "exact", "tiny"], some(33, 12), rand_classes(6), steps=500),
                                    S(scen.manylarge, ["table"], ["table", "tiny"], m=1), S(scen.reallocs, ["noq", "stats"], ["noq", "stats", "nolarge", "table"], m=1), S(scen.faults, ["exact"], ["exact", "noq"], m=1)))]),
 "C22": Check(["C22"], [closed("Uniform"), deep(closed("Uniform", "UniformT.cfg")), closed("Rng"), rngunit, traces(plus(S(scen.gens, ["default", "stats", "arena", "seal"], [v for v in ALLV if hm.facts(v)["rand"]], m=3), S(scen.burn, ["default", "bigq", "seal"], ["default", "bigq", "seal", "light", "exact"], m=3)))]),
 "C23": Check(["C23", "C01"], [closed("Slab", "SlabLow.cfg"), tours(["det"]), traces(plus(K(scen.holes, ["noq", "noqx", "det", "fsq0"], ["noq", "noqx", "det", "fsq0"], some(1, 3, 8, 9, 12, 21, 33, 36), classes_with(1, 256)),
                                    K(scen.firsts, ["noq"], ["noq", "noqx"], some(21, 25, 33, 35, 20), classes_with(2, 256)), K(scen.churn, ["noq", "det"], ["noq", "det", "noqx", "fsq0"], some(2, 12, 30), rand_classes(10), steps=500)))]),
 "C24": Check(["C24"], [traces(plus(M(["seal", "sealst"], ["seal", "sealst"], n=1000, m=8), M(["andseal"], ["andseal"], n=1000, m=6), S(scen.trims, ["andseal"], ["andseal"], m=2), S(scen.reallocs, ["seal"], ["seal", "sealst"], m=1), S(scen.forks, ["seal"], ["seal", "sealst"], m=2), S(scen.faults, ["seal"], ["seal", "sealst"], m=2), S(scen.impossible, ["seal"], ["seal"], m=1), S(scen.objsizes, ["seal"], ["seal"], m=1)))]),
 "C25": Check(["C25", "C01", "C02", "C06", "C07", "C11", "C24", "C28"], [cxx], technique="TLA+ protocol specification (CxxNew.tla) explored exhaustively by TLC; every environment replayed on the real operators and the traces validated against CxxNew/Heap"),
 "C26": Check(["C16", "C26", "C01", "C20", "C21", "C06", "C03", "C11", "C12"], [closed("RegionTable"), deep(closed("RegionTable", "RegionTableSix.cfg"), closed("RegionTable", "RegionTableVal.cfg")), tabletours, traces(plus(S(scen.manylarge, ["table", "tiny", "default"], ["table", "tiny", "default", "light", "exact", "det"], m=4), S(scen.manylarge, ["table"], ["table", "noq", "default"], n=950, m=2), S(scen.growfaults, ["table"], ["table", "tiny", "exact"], m=2)))]),
 "C27": Check(["C27", "C15", "C16", "C01", "C02", "C11", "C06"], [closed("InitOnce"), traces(initjobs)]),
 "C28": Check(["C28"], [traces(plus(M(["default", "light", "noq", "det", "exact", "seal", "tiny"], n=600), M(["andnoq"], ["andnoq"], n=600), S(scen.trims, ["andnoq"], ["andnoq"], m=2), S(scen.faults, ["exact", "default"], m=2), S(scen.larges, ["rnd", "noq"], m=2)))]),
 "C29": Check(["C29", "C01", "C02", "C04", "C05", "C06", "C07", "C10", "C14", "C15", "C20", "DEATH"],
              [closed("Mte"), traces(plus(M(MT, MT, n=500, m=6), S(scen.reallocs, MT, MT), S(scen.aligns, ["mte", "mteq"], MT), S(scen.sized, MT, MT), S(scen.badfrees, ["mteq"], MT), S(scen.objsizes, ["mteq", "mtenc"], MT),
                                          K(scen.churn, ["mte", "mteq"], MT, some(1, 12, 33), rand_classes(12), steps=400), K(scen.fillcycles, ["mte", "mtenc"], MT, some(1, 20, 36), rand_classes(12)), S(scen.recycle, ["mte"], MT), S(scen.forks, ["mteq"], MT),
                                          T(["mteq"], MT, n=40, modes=("s",))))],
              note=NOTE + "  The memory tagging instructions are replaced by calls into the recorder, which keeps the tags (harness/mte_stub.h)."),
}

