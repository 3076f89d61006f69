"""Scenario generators: scripts of driver commands (harness/drv.c), from a seeded random generator."""
import random
import hm

def maxsmall(f):
    return 131072 if f["ext"] else 16384

def can(f):
    return 8 if f["canary"] else 0

def classes(f):
    return [c for c in hm.CLASSES_EXT if c <= maxsmall(f)]

def slots(f, k):
    return hm.SLOTS_EXT[k]

def quar(f, k):
    sh = (maxsmall(f)).bit_length() - max(16, hm.CLASSES_EXT[k]).bit_length()
    return f["sqr"] << sh, f["sqq"] << sh

PAGE = 4096
def sz_small(r, f):
    c = r.choice(classes(f))
    return max(0, min(maxsmall(f) - can(f), r.choice([c, c - 1, c + 1, c - 8, c - 7, c - 9, c - 15, c // 2 + 1])))

def sz_large(r, f, big=False):
    m = maxsmall(f)
    return r.choice([m - 7, m + 1, m + r.randrange(1, m), r.randrange(m, 6 * m), m * 2, m * 2 + 1, m * 3 + 17, 4096 * r.randrange(m // 4096 + 1, 400),
                     1 << r.randrange(18, 21), (1 << 20) + 1] + ([2 << 20, (2 << 20) + 5, (4 << 20) - 4096, 5 << 20, 32 << 20, (33 << 20) + 7, 40 << 20, 31 << 20] if big else []))

def sz(r, f, big=False):
    x = r.random()
    if x < 0.06: return 0
    if x < 0.75: return sz_small(r, f)
    return sz_large(r, f, big)

IMPOSSIBLE = [(1 << 64) - 1, (1 << 63), (1 << 63) - 1, (1 << 64) - 4096, (1 << 62) + 3, (1 << 48) + 1, (1 << 64) - 8, (1 << 64) - 9, (1 << 50)]

def mix(r, f, n, ids=40, pool=None, big=False, probes=0.0, fork=0.0, stats=True, align=True, faults=0.0, bad=0.03, writes=0.02, held=True):
    """a random history; pool: restrict small sizes to a few classes"""
    out = []
    ps = pool
    def size():
        if ps and r.random() < 0.8: return r.choice(ps)
        return sz(r, f, big)
    live = set()
    ever = set()
    inject = 0
    for _ in range(n):
        x = r.random()
        if faults and r.random() < faults and not inject:
            out.append("fa %d %d %d 12" % (r.choice([63, 63, 1, 2, 4, 8, 16, 32]), r.randrange(3), r.choice([1, 1, 2, 5, -1])))
            inject = r.randrange(1, 6)
        elif inject:
            inject -= 1
            if not inject: out.append("fa0")
        free = [i for i in range(ids) if i not in live]
        if x < bad:
            i = r.choice(free) if free else None
            if i is None: continue
            big_ = r.choice(IMPOSSIBLE)
            out.append(r.choice(["m %d %d" % (i, big_), "c %d %d %d" % (i, 1 << 33, 1 << 33), "c %d %d %d" % (i, 3, big_), "A %d %d %d" % (i, 1 << 40, (1 << 64) - (1 << 40)),
                                 "A %d 48 100" % i, "Aa %d 0 10" % i, "Ap %d 4 10" % i, "Ap %d 24 10" % i, "Aa %d 4096 %d" % (i, big_), "Ap %d 16 %d" % (i, big_),
                                 "AV %d %d" % (i, (1 << 64) - 5), "Av %d %d" % (i, big_), "A %d %d %d" % (i, 1 << 63, 100), "Ap %d %d %d" % (i, 1 << 62, 1 << 62)]))
            if live and r.random() < 0.6:
                out.append("r %d %d" % (r.choice(sorted(live)), big_))
        elif free and (len(live) < ids // 4 or x < 0.42):
            i = r.choice(free)
            y = r.random()
            if y < 0.6: out.append("m %d %d" % (i, size()))
            elif y < 0.7: 
                c = r.choice([1, 1, 2, 3, 8]); out.append("c %d %d %d" % (i, c, size() // c))
            elif y < 0.74: out.append("rn %d %d" % (i, size()))
            elif align:
                a = 1 << r.choice([0, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 13, 14, 16, 18, 21])
                k = r.choice(["A", "Aa", "Ap", "Av", "AV"])
                s = size()
                if k in ("Av", "AV"): out.append("%s %d %d" % (k, i, s))
                else: out.append("%s %d %d %d" % (k, i, max(a, 8) if k == "Ap" else a, s))
            else: out.append("m %d %d" % (i, size()))
            live.add(i); ever.add(i)
        elif live and x < 0.72:
            i = r.choice(sorted(live)); live.discard(i)
            out.append(r.choice(["f %d", "f %d", "f %d", "fc %d", "fr %d"]) % i)
        elif live and x < 0.86:
            out.append("r %d %d" % (r.choice(sorted(live)), size()))
        elif x < 0.88: out.append("a")
        elif live and x < 0.92:
            i = r.choice(sorted(live))
            out.append(r.choice(["u %d" % i, "os %d 0" % i, "a1 %d" % i, "os %d %d" % (i, r.randrange(1, 60)), "os %d %d" % (i, r.randrange(1, 20000))]))
        elif x < 0.93: out.extend(["t", "da"] if f["android"] and r.random() < 0.5 else ["t"])
        elif x < 0.94: out.append(r.choice(["nul", "ox !data", "ox !null", "ox !stack", "nul 100", "mal0"]))
        elif x < 0.95 and stats: out.append("st")
        elif x < 0.96 and held: out.append("held")
        elif ever and r.random() < probes:
            i = r.choice(sorted(ever))
            off = r.choice([0, 0, 0, 1, 8, 16, -16, 16, 4096, -4096, 8192, 100, 32, 64, -1])
            out.append(r.choice(["P f %d %d" % (i, off), "P f %d 0" % i, "P u %d %d" % (i, off), "P fs %d %d %d" % (i, off, size()), "P r %d 0 %d" % (i, size()), "P ld %d %d" % (i, off),
                                 "P sto %d %d" % (i, off), "P f !data", "P u !heap", "P f !stack", "P fs !one 16", "P f !top", "P r !code 10", "P f !null", "P ro !x", "P f @%d %d %d" %
                                 (r.randrange(f["narena"] * f["nclass"]), r.randrange(f["cregp"] * 2), 16 * r.randrange(256)),
                                 "P sto @%d %d 0" % (r.randrange(f["narena"] * f["nclass"]), r.randrange(f["cregp"] * 2)),
                                 "P o @%d %d 0" % (r.randrange(f["narena"] * f["nclass"]), r.randrange(f["cregp"] * 2))]))
    if inject: out.append("fa0")
    out += ["a", "held"]
    return out
