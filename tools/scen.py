"""Directed scenarios, per property: lists of (variant, script lines)."""
import random
import hm, gen
from gen import PAGE, can, classes, maxsmall, slots

def F(v): return hm.facts(v)
def cls_of(f, rq):
    """class index of a malloc request"""
    a = rq + can(f) if rq else 0
    for k, c in enumerate(classes(f)):
        if c >= a: return k
    return None

class S:
    """script with fresh ids"""
    def __init__(s, f): s.f = f; s.o = []; s.n = 0
    def id(s): s.n += 1; return s.n - 1
    def __call__(s, fmt, *a): s.o.append(fmt % a if a else fmt)
    def m(s, size):
        i = s.id(); s.o.append("m %d %d" % (i, size)); return i

def boundary_sizes(f, r=None):
    out = {0, 1, 2, 7, 8, 9, 15, 16, 17}
    for c in classes(f):
        for d in (-17, -16, -15, -9, -8, -7, -1, 0, 1): 
            if c + d >= 0: out.add(c + d)
    return sorted(out)

def large_sizes(f, top=26, nolarge=False):
    m = maxsmall(f); out = set()
    for b in range(12, top):
        for q in (4, 5, 6, 7):
            s = (1 << b) * q // 4
            if s + 4097 > m:
                for d in (-4097, -4096, -1, 0, 1, 4095): 
                    if s + d > m - 8: out.add(s + d)
    return sorted(out)

# ---------------------------------------------------------------- C02 / C15 / C20: sizes and alignments
def sizes(v, seed, thorough=False):
    f = F(v); r = random.Random("sizes%s%d" % (v, seed)); s = S(f)
    bs = boundary_sizes(f)
    for z in bs:
        i = s.m(z); s("u %d" % i)
        if r.random() < 0.6: s("f %d", i)
    for z in large_sizes(f, 28 if thorough else 24):
        i = s.m(z); s("u %d" % i); s("fr %d", i)
    for _ in range(3000 if thorough else 400):
        z = r.randrange(0, maxsmall(f) + 3); i = s.m(z); s("f %d", i)
    for z in ([1 << 32, (1 << 33) + 5, 5 << 30, (1 << 30) + 1] if v in ("default", "light", "lstats") else []):
        i = s.m(z); s("u %d" % i); s("f %d", i)
    s("a")
    return v, s.o

def aligns(v, seed, thorough=False):
    f = F(v); r = random.Random("aligns%s%d" % (v, seed)); s = S(f)
    m = maxsmall(f)
    szs = [0, 1, 8, 16, 24, 56, 57, 100, 120, 121, 248, 500, 1000, 1016, 2040, 2048, 4088, 4089, 4096, 5000, 8184, 8192, 12000, m // 2 - 8, m // 2, m - 8, m - 7, m, m + 1, m * 2, m * 2 + 1, 300000]
    for lg in list(range(0, 23)) + ([24, 27, 30] if thorough else [24]):
        for z in szs:
            if not thorough and r.random() < 0.35: continue
            k = r.choice(["A", "Aa", "Ap"]); i = s.id()
            a = 1 << lg
            if k == "Ap" and a < 8: k = "Aa"
            s("%s %d %d %d", k, i, a, z)
            if r.random() < 0.5: s(r.choice(["f %d", "fr %d"]), i)
    for z in szs:
        for k in ("Av", "AV"):
            i = s.id(); s("%s %d %d", k, i, z)
            if r.random() < 0.5: s("fr %d", i)
    s("a")
    return v, s.o

# ---------------------------------------------------------------- C03
def impossible(v, seed, thorough=False):
    f = F(v); r = random.Random("imp%s%d" % (v, seed)); s = S(f)
    live = [s.m(z) for z in (0, 1, 100, 5000, maxsmall(f) - 8, maxsmall(f) + 1, 300000, 3000000)]
    s("A %d 65536 10", s.id()); live.append(s.n - 1)
    T = 1 << 64
    bad = [T - 1, T - 7, T - 8, T - 9, T - 16, T - 17, T - 4095, T - 4096, T - 4097, T - 8192, T // 2, T // 2 - 1, T // 2 + 1, T - T // 4, T - T // 8, T // 2 + T // 8, T - (1 << 20), T - (1 << 33), 1 << 62, 1 << 57, (1 << 48) + 1, 1 << 50,
           T - T // 8 + 1, T - T // 16 + 1, T - (1 << 61) + 1, T - (1 << 60)]
    als = [16, 32, 4096, 8192, 1 << 16, 1 << 20, 1 << 30, 1 << 40, 1 << 47, 1 << 62, 1 << 63]
    for z in bad:
        i = s.id()
        for c in ("m %d %d" % (i, z), "rn %d %d" % (i, z), "c %d 1 %d" % (i, z), "c %d %d 1" % (i, z), "Av %d %d" % (i, z), "AV %d %d" % (i, z), "r %d %d" % (r.choice(live), z)):
            s(c)
        for k in ("A", "Aa", "Ap"):
            for a in als if thorough else r.sample(als, 4): s("%s %d %d %d", k, i, a, z)
        for l in live: s("r %d %d", l, z)
        if r.random() < 0.3: s("a")
    for z in (0, 1, 100, 5000, 300000, T - 4096, T - (1 << 40), T // 2):
        i = s.id()
        for a in (0, 1, 2, 3, 4, 5, 7, 12, 24, 48, 4095, 4097, 12288, T - 1, T // 2 + 1, (1 << 63), (1 << 62), (1 << 48), (1 << 50)):
            for k in ("A", "Aa", "Ap"):
                if a in (1, 2, 4) and k != "Ap" and z < 1 << 40: continue
                s("%s %d %d %d", k, i, a, z)
    for a, b in ((1 << 32, 1 << 32), (1 << 33, (1 << 31) + 1), (3, T // 3 + 1), (T - 1, 2), (2, T // 2), (T // 2, 2), ((1 << 32) + 1, (1 << 32) - 1), (16, (T >> 4) + 1), (24, T // 24 + 1), (T - 1, T - 1), (1 << 63, 1 << 63), (T // 16, 17)):
        s("c %d %d %d", s.id(), a, b); s("c %d %d %d", s.id(), b, a)
    s("c %d 0 %d", s.id(), T - 1); s("c %d %d 0", s.id(), T - 1)
    s("a"); s("held")
    for l in live: s("r %d %d", l, r.choice([10, 5000, 200000])); 
    for l in live: s("fr %d", l)
    s("a"); s("held")
    return v, s.o

# ---------------------------------------------------------------- C04: every way of recycling memory
def recycle(v, seed, thorough=False):
    f = F(v); r = random.Random("rec%s%d" % (v, seed)); s = S(f)
    ks = range(1, len(classes(f)))
    for k in (ks if thorough else sorted({1, len(classes(f)) - 1, len(classes(f)) - 2} | set(r.sample(list(ks), 10)))):
        z = classes(f)[k] - can(f); n = slots(f, k)
        cnt = n * 2 + 1
        if n * 2 + 1 > 300: cnt = 300
        ids = [s.m(z) for _ in range(cnt)]
        r.shuffle(ids)
        for i in ids: s("f %d", i)
        ids = []
        for _ in range(cnt):
            i = s.id(); ids.append(i)
            s(r.choice(["m %d %d" % (i, z), "c %d 1 %d" % (i, z), "A %d 16 %d" % (i, z)]))
        for i in ids: s("f %d", i)
        for _ in range(3 + 2 * sum(gen.quar(f, k)) if k > 30 else 3): i = s.id(); s("c %d 1 %d", i, r.choice([z, z, z - 1, z - 7])); s("f %d", i)
        if r.random() < 0.5: s("t")
        ids = [s.m(z) for _ in range(min(cnt, 40))]
        for i in ids[:20]: s("c %d 1 %d", s.id(), max(1, z - 5))
    for z in (maxsmall(f) + 1, 200000, 1 << 20, 2 << 20, 5 << 20):
        for _ in range(3):
            i = s.m(z); s("f %d", i); i = s.id(); s("c %d 1 %d", i, z); s("A %d 65536 %d", s.id(), z); s("r %d %d", i, z // 3); s("f %d", i)
    s("a")
    return v, s.o

# ---------------------------------------------------------------- C05: realloc between all kinds
def reallocs(v, seed, thorough=False):
    f = F(v); r = random.Random("re%s%d" % (v, seed)); s = S(f); m = maxsmall(f)
    kinds = ["z", 1, 16, 24, 25, 56, 100, 120, 121, 1000, 4000, 8184, 8185, m // 2, m - 8, m - 7, m, m + 1, m + m // 4, m + m // 4 + 1, 2 * m, 3 * m, 300000, 1 << 20, (1 << 20) + 1]
    kinds += ["a65536,10", "a8192,100", "a65536,%d" % (m - 8), "a65536,%d" % (m + 1), "a131072,300000", "a4096,3000", "a8192,4096", "a8192,5000", "a2097152,4000", "a65536,0", "a16384,%d" % m, "a8192,%d" % (m // 2)]
    def mk(k):
        i = s.id()
        if k == "z": s("m %d 0", i)
        elif isinstance(k, str): 
            a, z = k[1:].split(","); s("A %d %s %s", i, a, z)
        else: s("m %d %d", i, k)
        return i
    tos = [0] + [k for k in kinds if not isinstance(k, str)] + [8192, 4096, 12288]
    for k in kinds:
        for t in tos:
            if not thorough and r.random() < 0.35: continue
            i = mk(k); s("r %d %d", i, t)
            if r.random() < 0.5: s("r %d %d", i, r.choice(tos))
            if r.random() < 0.3: s("P f %d 0", i)
            s(r.choice(["fr %d", "f %d", "u %d", "a1 %d"]), i)
            if r.random() < 0.05: s("held")
            if r.random() < 0.02: s("a")
    # chains of shrinks and growths of large blocks, moves by remapping
    for _ in range(30 if thorough else 8):
        i = s.m(r.randrange(m + 1, 4 << 20))
        for _ in range(r.randrange(1, 9)): s("r %d %d", i, r.randrange(m + 1, 4 << 20)); s("os %d 0", i)
        s("held")
        s("fr %d", i)
    for z, t in ((33 << 20, 50 << 20), (32 << 20, 33 << 20), ((32 << 20) - 1, 40 << 20), (40 << 20, 33 << 20), (34 << 20, 31 << 20), (70 << 20, 20 << 20), (48 << 20, 48 << 20), (20 << 20, 48 << 20)):
        i = s.m(z); s("r %d %d", i, t); s("a1 %d", i); s("held"); s("st") if f["stats"] else None; s("r %d %d", i, t // 3); s("held"); s("r %d 100", i); s("st") if f["stats"] else None; s("fr %d", i)
    for t in tos: i = s.id(); s("rn %d %d", i, t)
    s("a"); s("held")
    return v, s.o

# ---------------------------------------------------------------- C06: invalid frees of every kind
def badfrees(v, seed, thorough=False):
    f = F(v); r = random.Random("bf%s%d" % (v, seed)); s = S(f); m = maxsmall(f)
    nar = f["narena"]; NC = f["nclass"]
    for t in ("!stack", "!data", "!heap", "!code", "!one", "!top", "!low"):
        s("P f %s", t); s("P fs %s 16", t); s("P r %s 100", t); s("P u %s", t)
    for a in range(nar):
        for k in range(NC) if thorough else r.sample(range(NC), 6):
            s("P f @%d %d %d", a * NC + k, r.randrange(0, 2 * f["cregp"]), 16 * r.randrange(256)); s("P f @%d 0 0", a * NC + k)
    ks = range(0, NC) if thorough else sorted(set([0, 1, 2, 12] + r.sample(range(1, NC), 6)))
    for k in ks:
        c = classes(f)[k]; z = max(0, c - can(f)); n = slots(f, k)
        ids = [s.m(z) for _ in range(min(n + 2, 40))]
        i = ids[0]
        for off in sorted({1, 7, 8, 15, 16, 17, 32, c // 2, max(c - 8, 1), max(c - 1, 1), c + 1, -1, -8, -16}):
            s("P f %d %d", i, off); s("P u %d %d", i, off)
            if r.random() < 0.5: s("P r %d %d %d", i, off, c * 3 + 1000); s("P fs %d %d %d", i, off, z)
        for off in (c, -c, 2 * c, c * 7, PAGE, -PAGE, 4 * PAGE, -4 * PAGE): s("P f %d %d", i, off)
        s("P f %d 0", i)
        # slab tail, next slab, guard slab, never used slabs
        sp = (max(c, 16) * n + PAGE - 1) // PAGE
        for d in (0, 1, 2, 3, 5, 9, 50): s("P f %d %d", i, d * sp * PAGE + (max(c, 16) * n if n * max(c, 16) < sp * PAGE else 0)); s("P f %d %d", i, d * sp * PAGE)
        fr = ids[::2]
        for x in fr: s("f %d", x)
        for x in fr[:8]: s("P f %d 0", x); s("P u %d 0", x); s("P fs %d 0 %d", x, z); s("P r %d 0 %d", x, z * 4 + 64)
        for x in ids[1::2]: s("f %d", x)
        for x in ids[:6]: s("P f %d 0", x)
        s("t")
        for x in ids[:6]: s("P f %d 0", x); s("P u %d 0", x)
        keep = [s.m(z) for _ in range(3)]
        for x in ids[:4]: s("P f %d 0", x)
        for x in keep: s("P f %d 0", x)
    # double free after reuse distance, freed then reallocated by someone else is live again
    for z in (m + 1, 200000, 1 << 20, 4 << 20):
        i = s.m(z)
        for off in (1, 8, 16, 64, PAGE, -PAGE, 2 * PAGE, z // 2, z - 1, z, z + PAGE, -16, -1): 
            s("P f %d %d", i, off); s("P u %d %d", i, off); s("P r %d %d 5000", i, off); s("P fs %d %d %d", i, off, z)
        s("P f %d 0", i); s("f %d", i); s("P f %d 0", i); s("P u %d 0", i); s("P r %d 0 100", i); s("P r %d 0 %d", i, z); s("P fs %d 0 %d", i, z)
        i = s.m(z); s("r %d %d", i, m + 1)
        for off in (PAGE * ((m + 1 + PAGE - 1) // PAGE), PAGE * 40, PAGE): s("P f %d %d", i, off)
        s("P f %d 0", i); s("r %d 50", i); s("P f %d 0", i)
    s("a")
    return v, s.o

# ---------------------------------------------------------------- C07
def sized(v, seed, thorough=False):
    f = F(v); r = random.Random("sz%s%d" % (v, seed)); s = S(f); m = maxsmall(f)
    cs = classes(f)
    probes = sorted({0, 1} | {max(0, c - can(f) + d) for c in cs for d in (-1, 0, 1)} | {m + 1, m + 5000, m * 2, m * 2 + 1, 1 << 20, 1 << 30, (1 << 64) - 1, (1 << 64) - 8, (1 << 63), (1 << 64) - 4096, 1 << 48, 1 << 62})
    def mk(z):
        i = s.id(); s(r.choice(["m %d %d" % (i, z), "c %d 1 %d" % (i, z), "rn %d %d" % (i, z)])); return i
    todo = [max(0, c - can(f)) for c in cs] + [max(1, c - can(f) - 3) for c in cs[1:]] + [m - 7, m + 1, m + m // 4, m + m // 4 + 1, 2 * m, 300000, (1 << 20) + 3, 3 << 20]
    for z in todo:
        i = mk(z)
        s("P fs %d 0 %d", i, z)
        k = 60 if thorough else 10
        near = [p for p in (z - 16, z - 8, z - 1, z + 1, z + 8, z + 16, z + 64, z + 4096, z * 2) if p >= 0]
        for p in near + r.sample(probes, min(k, len(probes))): s("P fs %d 0 %d", i, p)
        s(r.choice(["fs %d %d" % (i, z), "fr %d" % i]))
        if r.random() < .5: s("P fs %d 0 %d", i, z)
    for a, z in ((32, 20), (64, 100), (4096, 10), (4096, 4096), (8192, 100), (65536, 10), (65536, m), (16384, m + 1), (1 << 20, 5), (128, 0), (4096, m), (2048, 5000)):
        for k in ("A", "Aa", "Ap"): i = s.id(); s("%s %d %d %d", k, i, a, z); s("fr %d", i)
    for z, t in ((100, 5000), (5000, 100), (m, m * 2), (300000, m + 1), (300000, 200000), (100, 101), (0, 50), (50, 0), (m + 1, 5)):
        i = mk(z); s("r %d %d", i, t); s("P fs %d 0 %d", i, z); s("fr %d", i)
    s("nul 16"); s("a")
    return v, s.o

# ---------------------------------------------------------------- C08
def canaries(v, seed, thorough=False):
    f = F(v); r = random.Random("can%s%d" % (v, seed)); s = S(f)
    ks = range(1, f["nclass"])
    for k in (ks if thorough else sorted(r.sample(list(ks), 9))):
        c = classes(f)[k]; z = c - can(f)
        ids = [s.m(z) for _ in range(3)]
        s("a1 %d", ids[0]); s("P f %d 0", ids[0])
        for j in range(8):
            i = s.m(z if r.random() < 0.6 else max(1, z - 3))
            s("w %d %d 1", i, z + j)
            s("P f %d 0", i)
            s(r.choice(["P fs %d 0 %d" % (i, z), "P u %d 0" % i, "P r %d 0 %d" % (i, c * 2 + 100), "P r %d 0 0" % i]))
            s("P u %d 0", i)
            s("w %d %d 1", i, z + j); s("lit {\"e\":\"clean\",\"id\":%d}" % i)   # overwritten again: the original bytes are back
            s("P f %d 0", i); s("a1 %d", i)
            if r.random() < 0.5: s("f %d", i)
        # a single NUL past the end and completely filled blocks are fine
        i = s.m(z); s("w %d %d 1 1", i, z); s("P f %d 0", i); s("P u %d 0", i); s("a1 %d", i); s("f %d", i)
        i = s.m(z); s("w %d 0 %d", i, z); s("P f %d 0", i); s("w %d 0 %d 1", i, z); s("f %d", i)
        # first byte zero is part of the canary; overwriting two bytes with zero is not
        # many slabs: fresh canaries
        n = min(slots(f, k), 64)
        for _ in range(3):
            ids = [s.m(z) for _ in range(n + 1)]
            for i in ids: s("f %d", i)
            s("t")
    s("a")
    return v, s.o

# ---------------------------------------------------------------- C09
def waf(v, seed, thorough=False):
    f = F(v); r = random.Random("waf%s%d" % (v, seed)); s = S(f)
    ks = range(1, f["nclass"])
    for k in (ks if thorough else sorted(set([1, 5] + r.sample(list(ks), 8)))):
        c = classes(f)[k]; z = c - can(f); n = slots(f, k)
        cnt = n * 3 + 2 * sum(gen.quar(f, k)) + 3
        if cnt > 6000: continue
        sp = (c * n + PAGE - 1) // PAGE
        hold = s.m(z)                       # keeps the slab populated
        for off in sorted({0, 1, 7, 8, 9, z // 2, z - 1, z - 8, z - 9, r.randrange(z), r.randrange(z)}):
            if off < 0: continue
            i = s.m(z); s("f %d", i)
            s("P mw %d %d %d", i, cnt, z)
            s("w %d %d 1", i, off); s("P mw %d %d %d", i, cnt, z)
            s("w %d %d 1", i, off); s("lit {\"e\":\"clean\",\"id\":%d}" % i); s("P mw %d %d %d", i, cnt, z)
        i = s.m(z); s("f %d", i); s("w %d 0 %d 1", i, z); s("lit {\"e\":\"clean\",\"id\":%d}" % i); s("P mw %d %d %d", i, cnt, z)
        # a slab left behind in the cache or purged
        ids = [s.m(z) for _ in range(n + 1)]
        for i in ids: s("f %d", i)
        s("w %d %d 1", ids[3 % len(ids)], r.randrange(z)); s("P mw %d %d %d", ids[3 % len(ids)], cnt, z)
        s("t"); s("P mw %d %d %d", ids[3 % len(ids)], cnt, z)
    return v, s.o

# ---------------------------------------------------------------- C10 / C14 / C23: one class at a time
def churn(v, seed, thorough=False, k=None, steps=600, ids=None):
    f = F(v); r = random.Random("ch%s%d%s" % (v, seed, k)); s = S(f)
    if k is None: k = r.randrange(1, f["nclass"])
    c = classes(f)[k]; z = max(0, c - can(f)) if k else 0; n = slots(f, k)
    live = []
    cap = ids or n * r.randrange(2, 6) + 3
    phase = 1
    for step in range(steps):
        if r.random() < 0.02: phase = r.choice([0.2, 0.5, 0.8, 0.95, 0.05])
        if r.random() < 0.004: s("t")
        if r.random() < 0.01 and f["stats"]: s("st")
        if live and (len(live) >= cap or r.random() > phase):
            j = r.choice([0, len(live) - 1, r.randrange(len(live))]); s("f %d", live.pop(j))
        else: live.append(s.m(z))
        if s.n > 60000: break
    s("a")
    return v, s.o

def fillcycles(v, seed, k, rounds=3, slabs=4):
    """fill slabs, empty them in some order, fill them again; recycling of purged slabs"""
    f = F(v); r = random.Random("fc%s%d%d" % (v, seed, k)); s = S(f)
    c = classes(f)[k]; z = max(0, c - can(f)); n = slots(f, k)
    for _ in range(rounds):
        ids = [s.m(z) for _ in range(n * slabs + r.randrange(n))]
        o = r.choice([0, 1, 2])
        if o == 1: ids.reverse()
        if o == 2: r.shuffle(ids)
        hold = ids[:r.choice([0, 0, 1, 3])]
        for i in ids:
            if i not in hold: s("f %d", i)
        if f["stats"] and r.random() < 0.5: s("st")
        if r.random() < 0.5: s("t"); s("P sto %d 0", ids[-1]); s("P ld %d 0", ids[len(ids) // 2])
        for i in hold: s("f %d", i)
    s("a")
    return v, s.o

def zeros(v, seed, slabs=19):
    """so many zero-size blocks that their slabs are dropped from the cache, and used again"""
    f = F(v); r = random.Random("ze%s%d" % (v, seed)); s = S(f); n = slots(f, 0)
    slabs += f["fsq"] + sum(gen.quar(f, 0)) // n
    ids = [s.m(0) for _ in range(slabs * n)]
    if r.random() < 0.5: ids.reverse()
    for i in ids[7:]: s("f %d", i)
    s("t")
    new = []
    for j in range(slabs * n):
        i = s.m(0); new.append(i)
        if j % (n // 2) == 0: s("P ld %d 0", i); s("P sto %d 0", i); s("u %d", i)
    for i in ids[:7] + new[:n]: s("f %d", i)
    s("a")
    if f["stats"]: s("st")
    return v, s.o

def smallq(v, seed, k, f_r=1.1):
    """fill the long quarantine of a small class and see how much it withholds"""
    f = F(v); r = random.Random("sq%s%d%d" % (v, seed, k)); s = S(f); n = slots(f, k); R, Q = gen.quar(f, k)
    z = max(0, classes(f)[k] - can(f)); live = []
    for j in range(int(f_r * R) + Q + 50):
        live.append(s.m(z))
        if len(live) > n: s("f %d", live.pop(r.randrange(len(live))))
    for j in range(3):
        for _ in range(2 * n): live.append(s.m(z))
        for _ in range(2 * n): s("f %d", live.pop(r.randrange(len(live))))
    s("a")
    return v, s.o

def trims(v, seed, thorough=False, threads=0):
    """caches, quarantined blocks and live neighbours of many classes and arenas, then trim"""
    f = F(v); r = random.Random("tr%s%d%d" % (v, seed, threads)); s = S(f); nc = f["nclass"]
    if threads: s("thr %d" % threads)
    def do(t, fmt, *a):
        c = fmt % a if a else fmt
        if t: s("q %d %s", t, c); s("dr")
        else: s(c)
    for rnd in range(3 if thorough else 2):
        s("t"); s("t")
        ks = sorted(set([1, nc - 1, nc - 2, r.randrange(37, nc) if nc > 37 else 36, r.randrange(37, nc) if nc > 37 else 35] + r.sample(range(0, nc), 6 if thorough else 4)))
        for k in ks:
            c = classes(f)[k]; z = max(0, c - can(f)); n = slots(f, k); live = []
            for t in (range(1, threads + 1) if threads else (0,)):
                ids = []
                for _ in range(r.choice([1, n, 2 * n, 3 * n + 1]) if n > 8 else r.randrange(4, 12)): i = s.id(); ids.append(i); do(t, "m %d %d", i, z)
                q = sum(gen.quar(f, k)) if n < 5 else 0
                for _ in range(min(q, 12)): i = s.id(); do(t, "m %d %d", i, z); ids.append(i)
                mode = r.choice([0, 0, 1, 2, 3]) if t != threads or not threads else 0
                o = list(ids)
                if r.random() < 0.5: r.shuffle(o)
                drop = o if mode == 0 else o[:len(o) // 2] if mode == 1 else ids[::2] if mode == 2 else o[1:]
                for i in drop: do(r.randrange(0, threads + 1), "f %d", i)
                live += [i for i in ids if i not in drop]
            if f["stats"] and r.random() < 0.5: s("st")
            if r.random() < 0.4: s("t"); s("a"); s("st")
            if r.random() < 0.5:
                for i in live: s("f %d", i)
        s("t"); s("a"); s("t"); s("st")
        for k in ks:
            z = max(0, classes(f)[k] - can(f)); n = slots(f, k)
            for _ in range(min(2 * n + 1, 20)):
                i = s.id(); do(r.randrange(0, threads + 1), "%s", r.choice(["m %d %d" % (i, z), "c %d 1 %d" % (i, z)]))
    s("a"); s("free_all"); s("t"); s("t"); s("st"); s("held")
    return v, s.o

def tour(v, ops, k):
    """a behaviour of Slab.tla: operations name blocks by the place the model gave them"""
    f = F(v); s = S(f); z = max(0, classes(f)[k] - can(f)); at = {}
    for o, w in ops:
        if o == "a":
            i = s.m(z)
            if w: at[w] = i
        elif o == "f": s("f %d", at.pop(w))
        elif o == "t": s("t")
    s("a")
    return v, s.o

def holes(v, seed, k, rounds=1):
    """a full slab in which every single slot is freed and must come back"""
    f = F(v); r = random.Random("ho%s%d%d" % (v, seed, k)); s = S(f)
    c = classes(f)[k]; z = max(0, c - can(f)); n = slots(f, k)
    ids = [s.m(z) for _ in range(n)]
    for _ in range(rounds):
        for j in range(n): s("f %d", ids[j]); ids[j] = s.m(z)
        for _ in range(6):
            g = r.sample(range(n), r.randrange(1, n + 1))
            for j in g: s("f %d", ids[j])
            r.shuffle(g)
            for j in g: ids[j] = s.m(z)
    s("a")
    return v, s.o

def firsts(v, seed, k):
    f = F(v); s = S(f)
    c = classes(f)[k]; z = max(0, c - can(f)); n = slots(f, k)
    import math
    for _ in range(int(n * (math.log(n) + 18)) + 5): i = s.n % 50; s.n += 1; s("m %d %d", i, z); s("f %d", i)
    if f["rand"]: s("lit {\"e\":\"cover\",\"k\":\"slot\",\"n\":%d}" % k)
    return v, s.o

def manyslabs(v, seed, k=None, slabs=70):
    """one class with many slabs: its metadata grows several times; guard slabs stay untouched"""
    f = F(v); r = random.Random("ms%s%d%s" % (v, seed, k)); s = S(f)
    c = classes(f)[k]; z = max(0, c - can(f)); n = slots(f, k); sp = (max(16, c) * n + PAGE - 1) // PAGE
    ids = []
    for j in range(slabs):
        ids += [s.m(z) for _ in range(n)]
        for d in (-1, 1, 2): s("P sto %d %d", ids[-1], d * sp * PAGE)
    s("P f %d %d", ids[-1], 4 * sp * PAGE); s("P f %d %d", ids[-1], 30 * sp * PAGE); s("P o %d %d", ids[-1], 50 * sp * PAGE)
    if f["stats"]: s("st")
    for i in ids[::3]: s("f %d", i)
    ids2 = [s.m(z) for _ in range(n * 9)]
    s("a")
    return v, s.o

def exhaust(v, seed, k=None):
    """a class region is used up; the class fails, the others go on, freed memory is usable again"""
    f = F(v); r = random.Random("ex%s%d%s" % (v, seed, k)); s = S(f)
    c = classes(f)[k]; z = max(0, c - can(f)); n = slots(f, k); sp = (max(16, c) * n + PAGE - 1) // PAGE
    slabs = f["cregp"] // sp; usable = slabs - slabs // (f["gint"] + 1)
    ids = [s.m(z) for _ in range((usable + 2) * n)]
    keep = s.m(z)
    for k2 in (k - 1, k + 1, 0, 1):
        if 0 <= k2 < f["nclass"]: s.m(max(0, classes(f)[k2] - can(f)))
    s("c %d 1 %d", s.id(), z); s("A %d 16 %d", s.id(), z); s("Ap %d 16 %d", s.id(), z); s("r %d %d", s.n - 5, z)
    s("P ld %d %d", ids[usable * n - 1], sp * PAGE); s("P ld %d %d", ids[0], f["cregp"] * PAGE)
    if f["stats"]: s("st")
    r.shuffle(ids)
    for i in ids[:len(ids) // 2]: s("f %d", i)
    for i in range(len(ids) // 2): s.m(z)
    s("free_all")
    for i in range((usable + 1) * n): s.m(z)
    s("held")
    return v, s.o

# ---------------------------------------------------------------- C11 / C12: large blocks
def larges(v, seed, thorough=False, n=500, ids=30, top=6 << 20):
    f = F(v); r = random.Random("lg%s%d" % (v, seed)); s = S(f); m = maxsmall(f)
    live = {}
    for _ in range(n):
        x = r.random()
        if live and (len(live) >= ids or x < 0.4):
            i = r.choice(list(live)); z = live[i]
            if r.random() < 0.35:
                t = r.choice([m + 1, z // 2, z * 2, z + 1, 3 * z // 4, r.randrange(m + 1, top)])
                t = max(m + 1, min(t, top)); s("r %d %d", i, t); live[i] = t
            else:
                del live[i]; s(r.choice(["f %d", "fr %d"]), i); s("P ld %d %d", i, r.choice([0, 0, z - 1, z // 2, -PAGE, -1]))
        else:
            i = s.id(); z = r.choice([m + 1, r.randrange(m + 1, 4 * m), r.randrange(m + 1, top), 2 << 20, (2 << 20) - 4096, (2 << 20) + 1])
            if r.random() < 0.3: s("A %d %d %d", i, 1 << r.randrange(13, 22), r.choice([z, 100, 5000]))
            else: s("m %d %d", i, z)
            live[i] = z
        if r.random() < 0.1 and live: i = r.choice(list(live)); s("P sto %d -1", i); s("P ld %d -%d", i, PAGE)
        if r.random() < 0.1: s("held")
        if r.random() < 0.03: s("a")
    s("a"); s("held")
    return v, s.o

def guards(v, seed):
    f = F(v); s = S(f); m = maxsmall(f)
    import math
    for p in sorted({(m // PAGE) + (m // PAGE) // 4 or 5, m // PAGE * 2, 64, 80, 128, 8, 12, 6}):
        if p * PAGE <= m: continue
        b = max(1, p // f["gdiv"])
        for _ in range(int(b * (math.log(b) + 14)) if b <= 24 else b * 4):
            i = s.n % 9; s.n += 1; s("m %d %d", i, p * PAGE); s("f %d", i)
        s("lit {\"e\":\"cover\",\"k\":\"guard\",\"n\":%d}" % p)
    return v, s.o

# ---------------------------------------------------------------- C13
def untouchable(v, seed, thorough=False):
    f = F(v); r = random.Random("unt%s%d" % (v, seed)); s = S(f)
    for k in (range(f["nclass"]) if thorough else sorted(set([0, 1] + r.sample(range(f["nclass"]), 8)))):
        c = classes(f)[k]; z = max(0, c - can(f)); n = slots(f, k); sp = (max(16, c) * n + PAGE - 1) // PAGE
        ids = [s.m(z) for _ in range(n * 3 if n <= 64 else n + 3)]
        for i in ids[:2] + ids[-2:]:
            for d in range(-3, 6): s("P sto %d %d", i, d * sp * PAGE); 
            s("P ld %d %d", i, r.randrange(1, 40) * sp * PAGE + r.randrange(sp * PAGE))
        if k == 0:
            for i in ids[:20]: s("P ld %d 0", i); s("P sto %d 0", i)
        for i in ids: s("f %d", i)
        if k == 0:
            for i in ids[:5]: s("P ld %d 0", i)
        s("t")
        for i in ids[:2] + ids[-2:]: s("P ld %d 0", i)
        ids = [s.m(z) for _ in range(n + 1)]
        for d in range(-3, 6): s("P sto %d %d", ids[-1], d * sp * PAGE)
        for a in range(f["narena"]): s("P ld @%d %d %d", a * f["nclass"] + k, r.randrange(2 * f["cregp"]), r.randrange(PAGE))
    s("a")
    return v, s.o

# ---------------------------------------------------------------- C16 / C26: many large blocks
def manylarge(v, seed, n=400, place=0, table=None):
    f = F(v); r = random.Random("ml%s%d" % (v, seed)); s = S(f); m = maxsmall(f)
    s("pm %d", place)
    z = m + 1
    live = []
    for j in range(n):
        i = s.id(); s("m %d %d", i, z + r.choice([0, 0, 0, 5000])); live.append(i)
        if r.random() < 0.2 and live: s("f %d", live.pop(r.randrange(len(live))))
        if r.random() < 0.03 and live: s("r %d %d", r.choice(live), r.choice([z, z * 2, z * 3]))
        if j % 100 == 99: s("a"); s("P ro !x"); s("held"); s("P f !heap")
    s("a")
    if f["stats"]: s("st")
    r.shuffle(live)
    for i in live[::2]: s("f %d", i)
    s("a")
    for i in live[::2]: s("P f %d 0", i) if r.random() < 0.1 else None
    for _ in range(n // 2): i = s.id(); s("m %d %d", i, z); live.append(i)
    s("a"); s("held")
    for i in live: s("f %d", i)
    s("held")
    return v, s.o

# ---------------------------------------------------------------- C19: every system call of a history fails in turn
def fault_at(v, seed, ops_before, op, ops_after, mask, skip, cnt):
    return ["# fault"] + ops_before + ["fa %d %d %d 12" % (mask, skip, cnt), op, "fa0"] + ops_after

def faults(v, seed, thorough=False):
    f = F(v); r = random.Random("fl%s%d" % (v, seed)); s = S(f); m = maxsmall(f)
    L = m + 1
    masks = [1, 2, 4, 8, 16, 32, 63]
    def block(fmt, i): return fmt % i
    setups = [
        (["m %d 100"], "m %d 24"), (["m %d 100"], "c %d 1 300000"), ([], "A %d 65536 100000"), ([], "A %d 2097152 10"), ([], "Ap %d 1048576 300000"),
    ]
    skips = range(0, 4)
    cnts = (1, -1) if not thorough else (1, 2, 3, -1)
    for mask in masks:
        for skip in skips:
            for cnt in cnts:
                core = skip < 2 and cnt == 1 and mask != 63
                if not core and not thorough and r.random() < 0.6: continue
                for what in ("small", "large", "al1", "al2", "freel", "freebig", "shrink", "grow", "l2s", "s2l", "remap", "purge", "trim", "unaligned"):
                    if not core and not thorough and r.random() < 0.6: continue
                    if what == "remap" and not (core and mask in (1, 4, 16)) and r.random() < 0.8: continue
                    if what in ("purge", "trim") and mask in (4, 16) and r.random() < 0.7: continue
                    i = s.id(); j = s.id(); fa = "fa %d %d %d 12" % (mask, skip, cnt)
                    if what == "small": s(fa); s("m %d %d", i, r.choice([0, 8, 100, 3000, m - 8])); s("fa0")
                    if what == "large": s(fa); s("m %d %d", i, r.choice([L, 1 << 20, 4 << 20])); s("fa0")
                    if what in ("al1", "al2", "unaligned"): s(fa); s("A %d %d %d", i, r.choice([8192, 65536, 1 << 20, 1 << 22]), r.choice([100, L, 1 << 20])); s("fa0")
                    if what == "freel": s("m %d %d", i, L); s(fa); s("f %d", i); s("fa0"); s("P f %d 0", i); s("P u %d 0", i); s("m %d %d", j, L)
                    if what == "freebig": s("m %d %d", i, 40 << 20 if not f["thrp"] or f["thrp"] > 2000 else 3 << 20); s(fa); s("f %d", i); s("fa0"); s("P f %d 0", i)
                    if what == "shrink": s("m %d %d", i, 4 * L); s(fa); s("r %d %d", i, L); s("fa0"); s("a1 %d", i); s("r %d %d", i, 2 * L); s("a1 %d", i)
                    if what == "grow": s("m %d %d", i, L); s(fa); s("r %d %d", i, 4 * L); s("fa0"); s("a1 %d", i); s("r %d %d", i, 2 * L)
                    if what == "l2s": s("m %d %d", i, L); s(fa); s("r %d 100", i); s("fa0"); s("a1 %d", i)
                    if what == "s2l": s("m %d 100", i); s(fa); s("r %d %d", i, L); s("fa0"); s("a1 %d", i)
                    if what == "remap": s("m %d %d", i, 33 << 20); s(fa); s("r %d %d", i, 50 << 20); s("fa0"); s("a1 %d", i); s("f %d", i)
                    if what in ("purge", "trim"):
                        k = r.randrange(20, 37); z = classes(f)[k] - can(f); n = slots(f, k)
                        ids = [s.m(z) for _ in range(n * 5)]
                        s(fa)
                        for x in ids: s("f %d", x)
                        if what == "trim": s("t")
                        s("fa0")
                        for x in ids[:3]: s("P f %d 0", x)
                        ids = [s.m(z) for _ in range(n * 3)]
                        for x in ids: s("f %d", x)
                    if r.random() < 0.1: s("a"); s("held")
                    if r.random() < 0.88: s("fr %d", i)
                    if s.n > 60000: return v, s.o
    s("a"); s("free_all"); s("held")
    return v, s.o

def recyclefaults(v, seed, thorough=False):
    """purged slabs whose population fails: the slab stays available, is neither lost nor handed out twice"""
    f = F(v); r = random.Random("rf%s%d" % (v, seed)); s = S(f); nc = f["nclass"]
    for k in sorted(set(r.sample(range(1, 13), 1) + [r.randrange(13, nc)] + (r.sample(range(1, nc), 6) if thorough else []))):
        c = classes(f)[k]; z = max(0, c - can(f)); n = slots(f, k)
        ns = f["fsq"] + 8; ns = min(ns, max(3, 600 // n)); ids = [s.m(z) for _ in range(ns * n)]
        for rnd in range(3 if thorough else 2):
            keep = ids[:r.choice([0, 0, 1, n])]
            for i in ids:
                if i not in keep: s("f %d", i)
            s("t")
            ids = keep
            for j in range(ns * n):
                if r.random() < (0.9 if j % n == 0 else 0.1):
                    s("fa %d %d %d 12", r.choice([4, 8, 8, 63, 63]), 0 if r.random() < 0.8 else 1, r.choice([1, 1, 2]))
                    i = s.id(); s("%s", r.choice(["m %d %d" % (i, z), "c %d 1 %d" % (i, z)])); s("fa0"); ids.append(i)
                ids.append(s.m(z))
            if f["stats"]: s("st")
        for i in ids: s("f %d", i)
    s("t"); s("st"); s("a")
    return v, s.o

def growfaults(v, seed, thorough=False, n=None):
    """the first attempt to make more state accessible fails, every time: metadata of size classes, the table of large blocks"""
    f = F(v); r = random.Random("gf%s%d" % (v, seed)); s = S(f); m = maxsmall(f); L = m + 1
    ks = [36, 33] if not thorough else sorted(set([f["nclass"] - 1, 36, 35, 33, 30] + r.sample(range(20, f["nclass"]), 2)))
    for k in ks:
        z = max(0, classes(f)[k] - can(f)); sl = slots(f, k)
        for j in range(70 if sl < 9 else 32):
            i = s.id(); s("fa 8 0 1 12"); s(r.choice(["m %d %d" % (i, z), "c %d 1 %d" % (i, z), "A %d 16 %d" % (i, z)])); s("fa0")
            for _ in range(sl): s.m(z)
            if j % 40 == 39: s("a"); s("st")
    live = []
    for j in range(n or (230 if not thorough else 500)):
        i = s.id(); s("fa 8 1 1 12")
        x = r.random()
        if x < 0.6: s("m %d %d", i, L); live.append(i)
        elif x < 0.8: s("A %d %d %d", i, r.choice([8192, 65536]), L); live.append(i)
        elif live: s("r %d %d", r.choice(live), r.choice([2 * L, 3 * L, 200]))
        s("fa0")
        live.append(s.m(L))
        if r.random() < 0.1: s("f %d", live.pop(r.randrange(len(live))))
        if j % 60 == 59: s("held")
    s("a"); s("st")
    for i in live[::2]: s("f %d", i)
    s("a"); s("free_all"); s("held"); s("st")
    return v, s.o

# ---------------------------------------------------------------- C20
def objsizes(v, seed, thorough=False):
    f = F(v); r = random.Random("os%s%d" % (v, seed)); s = S(f); m = maxsmall(f)
    for t in ("!null", "!data", "!stack", "!heap", "!code", "!one", "!top", "!low"): s("ox %s", t); s("P u %s", t); s("P of %s", t)
    for k in range(f["nclass"]):
        c = classes(f)[k]; z = max(0, c - can(f)); 
        prev = max(0, classes(f)[k - 1] - can(f) + 1) if k else 0
        for zz in {z, prev, max(0, z - 1)}:
            i = s.m(zz); s("u %d", i)
            if can(f) and k: s("os %d %d", i, z)
            offs = {0, 1, 7, 8, 15, 16, 17, z - 1, z - 8, z // 2, zz - 1} | {r.randrange(z or 1) for _ in range(6)}
            for o in offs:
                if 0 <= o < max(1, z): s("os %d %d", i, o)
            if r.random() < 0.5: s("P u %d %d", i, r.choice([1, 8, 16, c]))
        j = s.m(z); s("f %d", j)
        for o in (0, 1, z // 2): s("P o %d %d", j, o) if o < max(z, 1) else None
        s("P u %d 0", j); s("P of %d 0", j)
        n = slots(f, k); sp = (max(16, c) * n + PAGE - 1) // PAGE
        for d in (1, 2, 3, 7): s("P o %d %d", i, d * sp * PAGE); s("P of %d %d", i, d * sp * PAGE)
        if n * max(c, 16) < sp * PAGE: s("P o %d %d", i, sp * PAGE - 1)
    for a in range(f["narena"]):
        for k in (range(f["nclass"]) if thorough else r.sample(range(f["nclass"]), 8)):
            s("P o @%d %d %d", a * f["nclass"] + k, r.randrange(2 * f["cregp"]), r.randrange(PAGE)); s("P o @%d 0 0", a * f["nclass"] + k); s("P of @%d 0 0", a * f["nclass"] + k)
    for z in large_sizes(f, 22):
        if r.random() < (1 if thorough else 0.4):
            i = s.m(z); s("u %d", i)
            for o in (0, 1, 16, PAGE, z // 2, z - 1): s("os %d %d", i, o)
            s("P o %d -%d", i, PAGE); s("P o %d %d", i, z + 2 * PAGE)
            if r.random() < 0.4: s("r %d %d", i, max(m + 1, z // 2)); s("u %d", i); s("os %d 0", i)
            s("f %d", i); s("P o %d 0", i); s("P u %d 0", i); s("P of %d 0", i)
    for a, z in ((8192, 10), (65536, 100), (65536, m), (1 << 20, m + 1), (32, 0), (4096, 0), (8192, 0), (64, 40)):
        i = s.id(); s("A %d %d %d", i, a, z); s("u %d", i); s("os %d 0", i)
    s("a")
    return v, s.o

# ---------------------------------------------------------------- C18: fork
def forks(v, seed, n=3):
    f = F(v); r = random.Random("fk%s%d" % (v, seed)); out = gen.mix(r, f, 60, ids=20)
    body = lambda b: ";".join(["a"] + ["m %d %d" % (b + i, r.choice([16, 100, 1000, 5000, maxsmall(f) + 1])) for i in range(8)] + ["f %d" % b, "f %d" % (b + 5), "r %d 300" % (b + 1), "f 1", "f 3", "f 5", "t", "held", "a"] + (["st"] if f["stats"] else []))
    for j in range(n):
        out.append("fk " + body(1000 + 20 * j))
        out += ["a", "held", "free_all"] + gen.mix(r, f, 60, ids=20)
    return v, out

def indep(v, seed, n=3):
    """children and the parent make the same calls after the fork and must not see the same choices"""
    f = F(v); r = random.Random("in%s%d" % (v, seed)); nc = f["nclass"]
    ks = sorted({0, 4, nc - 1} | set(r.sample(range(1, nc), 4)))
    out = ["m %d %d" % (j, max(0, classes(f)[k] - can(f))) for j, k in enumerate(ks)] + ["m %d %d" % (90, maxsmall(f) + 1)]
    order = [(k, i) for k in ks for i in range(13)] + [(-1, i) for i in range(12)]
    r.shuffle(order)
    calls = ["m %%d %d" % (8 << 20 if k < 0 else max(0, classes(f)[k] - can(f))) for k, i in order]
    for j in range(n): out.append("fk " + ";".join(c % (100 + i) for i, c in enumerate(calls)))
    out += ["lit {\"e\":\"mark\"}"] + [c % (400 + i) for i, c in enumerate(calls)]
    out.append("lit {\"e\":\"indep\",\"n\":%d}" % n)
    return v, out

def gens(v, seed):
    """twelve blocks of every class with many slots, from every arena: the choices of all generators differ"""
    f = F(v); r = random.Random("ge%s%d" % (v, seed)); na = f["narena"]
    ks = [k for k in range(1, f["nclass"]) if slots(f, k) >= 32]
    out = ["m 0 16", "f 0", "lit {\"e\":\"mark\",\"all\":1}", "thr %d" % na] if na > 1 else ["lit {\"e\":\"mark\",\"all\":1}"]
    i = 1
    order = [(t, k) for t in range(1, na + 1) for k in ks]
    r.shuffle(order)
    for t, k in order:
        for j in range(12):
            out += ["q %d m %d %d" % (t, i, classes(f)[k] - can(f)), "dr"] if na > 1 else ["m %d %d" % (i, classes(f)[k] - can(f))]
            i += 1
    out.append("lit {\"e\":\"gens\",\"n\":%d}" % (len(ks) * na))
    return v, out

def burn(v, seed):
    """enough draws of one generator to need new seeds, read whole or in pieces and with interruptions"""
    f = F(v); r = random.Random("bu%s%d" % (v, seed))
    k = r.choice([4, 5, 8, 12, 14, 20]); z = classes(f)[k] - can(f)
    return v, ["m 0 %d" % z, "rm %d" % r.randrange(2), "burn %d %d" % (z, 300000)]

def indept(v, seed, n=2, threads=3):
    """as indep, from threads that use different arenas"""
    f = F(v); r = random.Random("it%s%d" % (v, seed)); nc = f["nclass"]
    ks = sorted({4, r.choice([0, nc - 1])} | set(r.sample(range(1, nc), 1)))
    out = ["m 0 100", "thr %d" % threads]; i = 1
    for t in range(1, threads + 1):
        for k in ks: out += ["q %d m %d %d" % (t, i, max(0, classes(f)[k] - can(f))), "dr"]; i += 1
    t = r.randrange(1, threads + 1)
    order = [k for k in ks for j in range(13)]; r.shuffle(order)
    calls = ["m %%d %d" % max(0, classes(f)[k] - can(f)) for k in order]
    for j in range(n): out += ["q %d fk " % t + ";".join(c % (100 + i) for i, c in enumerate(calls)), "dr"]
    out += ["lit {\"e\":\"mark\"}"]
    for i, c in enumerate(calls): out += ["q %d " % t + c % (200 + i), "dr"]
    out.append("lit {\"e\":\"indep\",\"n\":%d}" % n)
    return v, out

def mix(v, seed, n=1200, **kw):
    f = F(v); r = random.Random("mx%s%d%s" % (v, seed, sorted(kw.items())))
    if kw.pop("pool", 0): kw["pool"] = [gen.sz_small(r, f) for _ in range(3)]
    return v, gen.mix(r, f, n, **kw)

# ---------------------------------------------------------------- C17: pairs of calls with one preempted by the other
def conc(v, seed, mode="s", n=260, fork=0.0, three=0.1):
    """thread 1 runs up to a synchronisation point (mode s) or instruction (mode i), others run, everything completes"""
    f = F(v); r = random.Random("cc%s%d%s" % (v, seed, mode)); s = S(f); m = maxsmall(f)
    thr = min(f["thrp"] * PAGE, 3 << 20) or 1 << 20
    k0 = r.choice([36, 35, 33, 30, 24, 20, 12]); z = classes(f)[k0] - can(f); ns = slots(f, k0)
    z2 = classes(f)[r.choice([x for x in range(1, 37) if x != k0])] - can(f)
    s("m %d 5000", s.id()); s("m %d %d", s.id(), m + 1); s("c %d 1 100", s.id()); s("f 0"); s("f 1"); s("f 2")
    s("thr 3")
    for t in (1, 2, 3): i = s.id(); s("q %d m %d 64", t, i); s("dr"); s("f %d", i)
    big = [m + 1, m + 1, m * 2, m * 3, 300000]
    live = []                       # (id, kind)
    def prep(kind):
        """something to work on, made by the main thread"""
        i = s.id()
        if kind == "small": s("m %d %d", i, z)
        elif kind == "small2": s("m %d %d", i, z2)
        elif kind == "large": s("m %d %d", i, r.choice(big))
        elif kind == "huge": s("m %d %d", i, thr + 4096 * r.randrange(1, 5))
        elif kind == "al": s("A %d %d %d", i, 1 << r.randrange(13, 18), r.choice([100, m + 1]))
        return i
    def op(reuse=None):
        x = r.choice(["m", "m", "f", "f", "ml", "ml", "fl", "fl", "fh", "rg", "rs", "rss", "rsl", "rls", "t", "A", "u", "os", "c", "rmv"])
        if reuse is not None and r.random() < 0.0: pass
        if x == "m": i = s.id(); live.append(i); return "m %d %d" % (i, z)
        if x == "c": i = s.id(); live.append(i); return "c %d 1 %d" % (i, r.choice([z, z2]))
        if x == "ml": i = s.id(); live.append(i); return "m %d %d" % (i, r.choice(big))
        if x == "A": i = s.id(); live.append(i); return "A %d %d %d" % (i, 1 << r.randrange(12, 18), r.choice([100, z, m + 1]))
        if x == "t": return "da" if f["android"] and r.random() < 0.5 else "t"
        i = prep({"f": "small", "fl": "large", "fh": "huge", "rg": "large", "rs": "large", "rss": "small", "rsl": "small", "rls": "large", "u": "small", "os": "large", "rmv": "large"}[x])
        if x in ("f", "fl", "fh"): return "f %d" % i
        live.append(i)
        if x == "rg": return "r %d %d" % (i, r.choice([m * 4, m * 5, 400000]))
        if x == "rs": return "r %d %d" % (i, m + 1)
        if x == "rmv": return "r %d %d" % (i, r.choice([m * 6, 1 << 20]))
        if x == "rss": return "r %d %d" % (i, z2 if r.random() < 0.7 else z)
        if x == "rsl": return "r %d %d" % (i, m + 1)
        if x == "rls": return "r %d %d" % (i, r.choice([z, z2, 16]))
        return "%s %d" % (x, i) if x == "u" else "os %d 0" % i
    for rnd in range(n):
        # the class is left in different states: full slab, one slot left, one slot used, empty and purged slabs
        if r.random() < 0.3:
            tmp = [s.m(z) for _ in range(min(2 * ns + 1, 20))]
            if r.random() < 0.5: r.shuffle(tmp)
            for i in tmp[:r.choice([len(tmp), len(tmp), len(tmp) - 1, len(tmp) // 2])]: s("f %d", i)
            live += [i for i in tmp if ("f %d" % i) not in s.o[-len(tmp):]]
        a, b = op(), op()
        if r.random() < fork: b = "fk a;m 60000 %d;m 60001 %d;m 60002 %d;f 60000;r 60001 %d;f 60002;c 60003 1 %d;t;a" % (z, z2, m + 1, m + 1, z)
        s("q 1 %s", a); s("q 2 %s", b)
        if r.random() < three:
            s("q 3 %s", op())
            s("s 1 %d", r.randrange(0, 10)); s("s 2 %d", r.randrange(0, 8)); s("g 3")
            if r.random() < 0.5: s("s 1 %d", r.randrange(0, 4)); s("g 2")
        elif mode == "i": s(*r.choice([("j 1 %d", r.randrange(0, 120)), ("j 1 %d", r.randrange(0, 300)), ("i 1 %d", r.randrange(0, 400)), ("i 1 %d", r.randrange(0, 2500))])); s("g 2")
        else:
            k = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11])
            c = op() if r.random() < 0.15 else ""   # made now: the main thread must not need a lock a stopped thread may hold
            s("s 1 %d", k); s("g 2")
            if c: s("s 1 %d", r.randrange(1, 4)); s("q 3 %s", c); s("g 3")
        s("dr")
        if f["stats"]: s("st")
        if r.random() < 0.3: s("held")
        if r.random() < 0.25: s("a")
        r.shuffle(live)
        while len(live) > 12: 
            i = live.pop()
            if r.random() < 0.1: s("P f %d 0", i)
            s("f %d", i)
        if r.random() < 0.05: s("t")
    s("a"); s("free_all"); s("held"); s("st")
    return v, s.o

def page_hash(pg):
    u = 0x10000001 + pg
    h = u
    for k in (16, 32, 48): h = (h * 127 + (u >> k)) & (1 << 64) - 1
    return h
def spots(r, n, want, mask=127):
    """pages of the window whose hash is one of want"""
    want = set(want); out = []
    while len(out) < n:
        pg = r.randrange(20000, 1 << 22)
        if page_hash(pg) & mask in want and all(abs(pg - q) > 2500 for q in out): out.append(pg)
    return out

def tabletour(v, ops):
    """a behaviour of RegionTable.tla: blocks are placed at addresses that hash to the model's positions"""
    f = F(v); s = S(f); r = random.Random("tt%d" % len(ops)); m = 20480 if maxsmall(f) < 20000 else 163840
    taken = []; at = {}; size = {}
    def spot(h):
        while True:
            pg = r.randrange(20000, 1 << 22)
            if page_hash(pg) & 511 == h and all(abs(pg - q) > 400 for q in taken): taken.append(pg); return pg
    for n, (o, k, h) in enumerate(ops):
        if o == "i":
            s("pl %d %d", spot(int(h)), m * 4); at[k] = s.m(m * 4); size[k] = 4
        elif o == "d": s("f %d", at.pop(k))
        elif o == "r":
            if size[k] > 1: size[k] //= 2; s("r %d %d", at[k], m * size[k])
            else: s("u %d", at[k])
        if n % 40 == 39: s("a"); s("st")
        if n % 10 == 9 and at: s("u %d", r.choice(list(at.values())))
    for k in list(at): s("u %d", at[k])
    s("a"); s("free_all"); s("held"); s("st")
    return v, s.o

def concl(v, seed, n=60, near=(3, 10, 40, 80, 92, 94), coll=True, focus=None):
    """large blocks of two threads while entries of the table of large blocks collide, it is nearly full, grows, and entries move"""
    f = F(v); r = random.Random("cl%s%d" % (v, seed)); s = S(f); m = maxsmall(f)
    s("thr 3")
    for t in (1, 2, 3): i = s.id(); s("q %d m %d 64", t, i); s("dr"); s("f %d", i)
    m = (16384 if m < 20000 else 131072) * 5 // 4 - 1    # m + 1 is a size class
    live = []
    h0 = r.choice([2, 60, 127, 1])
    sp = spots(r, 60, [h0, (h0 + 1) % 128, (h0 + 2) % 128]) if coll else []
    def place(z):
        if sp and r.random() < 0.8: s("pl %d %d", r.choice(sp), z)
    def new(): i = s.id(); z = (m + 1) * r.choice([1, 2, 4]); place(z); s("m %d %d", i, z); live.append(i)
    level = r.choice(near)
    if focus: near = (4, 8, 12)
    level = r.choice(near)
    for rnd in range(n):
        if rnd % 12 == 11: level = r.choice(near)
        while len(live) < level: new()
        while len(live) > level: s("f %d", live.pop(r.randrange(len(live))))
        used = []; wanted = []
        def op():
            x = r.choice(["ml", "ml", "fl", "fl", "rs", "rs", "rg", "rsl", "rls", "os"] if focus is None or r.random() < 0.15 else focus)
            i = s.id()
            if x == "ml": live.append(i); z = (m + 1) * r.choice([1, 2]); wanted.append(z); return "m %d %d" % (i, z)
            if x == "fl":
                c = [j for j in live if j not in used]
                if c: j = r.choice(c); live.remove(j); return "f %d" % j
                return "t"
            z = 100 if x == "rsl" else (m + 1) * (4 if x == "rs" else 2)
            if x != "rsl": place(z)
            s("m %d %d", i, z); live.append(i); used.append(i)
            if x == "rs": return "r %d %d" % (i, (m + 1) * r.choice([1, 2]))
            if x == "rg": wanted.append((m + 1) * 8); return "r %d %d" % (i, (m + 1) * 8)
            if x == "rsl": wanted.append(m + 1); return "r %d %d" % (i, m + 1)
            if x == "rls": return "r %d %d" % (i, 100)
            return "os %d 0" % i
        a, b = op(), op()
        three = r.random() < 0.3
        c = op() if three else ""
        s("q 1 %s", a); s("q 2 %s", b)
        for z in wanted: place(z)
        if r.random() < 0.5: s("s 1 %d", r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8]))
        else: s("j 1 %d", r.choice([r.randrange(0, 120), r.randrange(0, 300)]))
        if three: s("q 3 %s", c); s("s 2 %d", r.choice([0, 1, 2, 3, 4, 5])); s("g 3")
        s("g 2"); s("dr")
        for j in used: s("u %d", j)
        if rnd % 10 == 9 or level < 20: s("a")
        if f["stats"] and r.random() < 0.3: s("st")
    s("a"); s("held"); s("free_all"); s("held")
    return v, s.o

def forkrace(v, seed, n=30, large=False):
    """a thread is stopped while it holds a lock; another one forks; the child uses every part of the allocator"""
    f = F(v); r = random.Random("fx%s%d" % (v, seed)); s = S(f); m = maxsmall(f)
    L = (16384 if m < 20000 else 131072) * 5 // 4
    ks = [36, 33, 20, 12, 3]; z = [classes(f)[k] - can(f) for k in ks]
    s("thr 2")
    for t in (1, 2): i = s.id(); s("q %d m %d 64", t, i); s("dr"); s("f %d", i)
    h0 = r.choice([2, 60, 127, 1])
    sp = spots(r, 20, [h0, (h0 + 1) % 128])
    live = []
    for rnd in range(n):
        while len(live) < 8:
            i = s.id(); big = large or len(live) % 3 == 0
            if big: s("pl %d %d", r.choice(sp), L)
            s("m %d %d", i, L if big else r.choice(z)); live.append(i)
        r.shuffle(live)
        x = r.choice(["m", "f", "f", "ml", "ml", "rs", "t"]) if not large else r.choice(["ml", "fl", "fl", "rs"])
        i = s.id()
        if x == "ml": s("pl %d %d", r.choice(sp), L); s("q 1 m %d %d", i, L); live.append(i)
        elif x == "m": s("q 1 m %d %d", i, r.choice(z)); live.append(i)
        elif x in ("f", "fl"): s("q 1 f %d", live.pop())
        elif x == "rs": s("m %d %d", i, L * 4); s("q 1 r %d %d", i, L); live.append(i)
        else: s("q 1 t")
        zz = r.choice(z)
        s("q 2 fk a;m 60000 %d;m 60001 %d;m 60002 %d;m 60004 %d;f 60000;r 60001 %d;f 60002;f 60004;c 60003 1 %d;t;u 60003%s", zz, r.choice(z), L, L, L, zz, ";st" if f["stats"] and x != "rs" else "")
        if r.random() < 0.85: s("l 1 %d", r.choice([r.randrange(0, 40), r.randrange(0, 120)]))
        else: s("s 1 %d", r.randrange(0, 5))
        s("g 2"); s("dr")
        if rnd % 5 == 4: s("a")
    s("a"); s("free_all"); s("held")
    return v, s.o

def cxxnew(v, seed, envs=(), n=150, full=False):
    """operator new in the environments of CxxNew (handler installed first, what handlers do, when memory comes back), every form of new and delete"""
    f = F(v); r = random.Random("cx%s%d" % (v, seed)); s = S(f); m = maxsmall(f); cl = classes(f)
    envs = list(envs); r.shuffle(envs)
    # successful calls of every form, released by every matching form
    for k in (0, 1, 2, 3, 4, 5, 6, 7):
        for z in (0, 1, 24, 100, 1000, 5000, m, m + 1, 300000):
            al = r.choice([16, 32, 64, 256, 4096, 65536] if k & 4 else [16])
            i = s.id(); s("nw %d %d %d %d %d -1 -", k, i, z, al, r.choice([0, 1]))
            ds = [8, 9, 10] if k & 4 else [0, 1, 2]
            s("dl %d %d", i, r.choice(ds) + (4 if k & 2 else 0)); s("P f %d 0", i)
    for d in (0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14):
        for z in (0, 40, m + 1):
            i = s.id(); al = 64 if d & 8 else 16
            s("nw %d %d %d %d 0 -1 -", (2 if d & 4 else 0) + (4 if d & 8 else 0), i, z, al)
            if r.random() < 0.5: s("a")
            s("dl %d %d", i, d); s("P f %d 0", i); s("P r %d 0 4000", i)
        s("dln %d", d)
    # memory of one kind released by the other
    for z in (50, m + 1):
        i = s.id(); s("nw 0 %d %d 16 0 -1 -", i, z); s("f %d", i)
        i = s.id(); s("m %d %d", i, z); s("dl %d 0", i)
    live = []
    for nothrow, h0, at, script in (envs if full else envs[:n]):
        for form in ([0, 2, 4, 6] if full else [r.choice([0, 2, 4, 6])]):
            i = s.id(); al = r.choice([64, 4096, 1 << 16]) if form & 4 else 16
            never = at == 0 and r.random() < 0.5
            # a request that needs a system call, or one that can never be met
            z = r.choice([(1 << 63) - 1, (1 << 64) - 1, 1 << 62]) if never else r.choice([m + 1, m * 2, 1 << 20, 5 << 20])
            s("nw %d %d %d %d %d %d %s", form | (1 if nothrow else 0), i, z, al, h0, at, script or "-")
            if at and not never: live.append((i, form))
        if len(live) > 6:
            j, fo = live.pop(0)
            s("dl %d %d", j, r.choice([8, 9, 10] if fo & 4 else [0, 1, 2]) + (4 if fo & 2 else 0)); s("P f %d 0", j)
        if r.random() < 0.05: s("a"); s("held")
    s("a"); s("free_all"); s("held")
    return v, s.o

# ---------------------------------------------------------------- C27: before and during initialisation
FIRST = ["m %d 100", "m %d 0", "c %d 3 50", "A %d 64 100", "Aa %d 4096 5000", "Ap %d 32 200", "Av %d 100", "rn %d 300", "m %d 300000", "Ap %d 65536 70000", "m %d 9223372036854775807", "c %d 4294967296 4294967297"]
def early(v, seed, first=0):
    """nothing was allocated yet: queries, releases of strangers, trim, statistics, then the first call of some kind, then ordinary use"""
    f = F(v); r = random.Random("ey%s%d%d" % (v, seed, first)); s = S(f)
    pre = []
    for k in ("f", "u"): pre += ["P %s %s" % (k, t) for t in ("!data", "!stack", "!one", "!top", "!null", "!heap")]
    pre += ["P %s %s %d" % (k, t, z) for k in ("fs", "r") for t in ("!data", "!stack", "!null") for z in (16, 5000, 300000)]
    pre += ["P %s %s" % (k, t) for k in ("o", "of") for t in ("!data", "!stack", "!null", "!one", "!top")]
    pre += ["t", "st", "nul 16", "ox !data", "ox !stack", "ox !null", "ox !top", "mal0"]
    # one failing system call of every kind at every position during initialisation
    for mask in (1, 4, 8, 64, 63): pre += ["P mal !one %d" % (mask + 128 * k) for k in (0, 1, 2, 3, 5, 9, 20)]
    r.shuffle(pre); pre = pre[:30] if seed < 100 else pre
    for c in pre: s(c)
    if r.random() < 0.3: s("rm 1")
    i = s.id()
    if first < len(FIRST): s(FIRST[first] % i)
    else: s("da")           # Android: every lock taken
    s("rm 0")
    if first >= 10: s("m %d 77", s.id())
    s("P ro")
    for c in pre[:6]:
        if c.startswith("P mal"): continue
        s(c)
    s("u %d", i); s("a")
    for _ in range(40):
        j = s.id(); s(r.choice(FIRST[:-2]) % j)
        if r.random() < 0.5: s("f %d", j)
    s("st"); s("t"); s("P ro"); s("a"); s("free_all"); s("held")
    if f["narena"] > 1:
        s("m %d 20", s.id())
        s("thr 7")
        order = list(range(1, 8)); r.shuffle(order)
        for t in order: s("q %d m %d %d", t, s.id(), r.choice([16, 100, 1000])); s("dr")
        s('lit {"e":"arenas","n":8,"order":[%s]}', ",".join(map(str, [0] + order)))
        for _ in range(20): s("q %d m %d %d", r.choice(order), s.id(), r.choice([16, 100, 1000])); s("dr")
        s("thr 11")
        for t in (8, 9, 10, 11): s("q %d m %d 300000", t, s.id()); s("dr")
        for t in (11, 10, 9, 8): s("q %d m %d 30", t, s.id()); s("dr")
        order += [8, 9, 10, 11]
        s('lit {"e":"arenas","n":12,"order":[%s]}', ",".join(map(str, [0] + order)))
        s("a")
    return v, s.o

def initrace(v, seed, stops=(0,), mode="s"):
    """thread 1 stops in its first call, others make their first calls, everything completes; one script per stop"""
    f = F(v); r = random.Random("ir%s%d%s%s" % (v, seed, mode, list(stops)[:1])); s = S(f)
    k = stops[0]
    s("thr %d", 5)
    if r.random() < 0.3: s(r.choice(["t", "st", "nul 3"]))
    first = lambda t: s("q %d " % t + r.choice(FIRST[:10]) % s.id())
    other = lambda t: s("q %d " % t + r.choice(["t", "os 9999 0"])) if r.random() < 0.25 else first(t)
    first(1); s("%s 1 %d", "s" if mode == "s" else "i", k)
    other(2)
    if r.random() < 0.5: s("g 2")
    else: s("s 2 %d", r.randrange(0, 20)); other(3); s("s 3 %d", r.randrange(0, 12)); s("s 1 %d", r.randrange(0, 5)); s("g 2")
    s("dr")
    for t in (1, 2, 3, 4, 5): s("q %d m %d 40", t, s.id()); s("dr")
    s('lit {"e":"arenas","n":5,"order":[]}')
    for t in (5, 4, 3, 2, 1):
        for _ in range(3): s("q %d m %d %d", t, s.id(), r.choice([16, 64, 500])); s("dr")
    s("P ro"); s("a"); s("free_all"); s("held"); s("st")
    return v, s.o
