"""Common machinery: build variants of /repo, run drivers, run TLC, write evidence."""
import hashlib, json, os, shutil, subprocess, sys, threading, time, re, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

CLASSES_EXT = [0, 16, 32, 48, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 640, 768, 896, 1024, 1280, 1536, 1792, 2048,
               2560, 3072, 3584, 4096, 5120, 6144, 7168, 8192, 10240, 12288, 14336, 16384, 20480, 24576, 28672, 32768, 40960, 49152,
               57344, 65536, 81920, 98304, 114688, 131072]
SLOTS_EXT = [256, 256, 128, 85, 64, 51, 42, 36, 64, 51, 64, 54, 64] + [64] * 8 + [16] * 4 + [8] * 8 + [6, 5, 4, 4] + [1] * 12

DEFAULT = dict(CONFIG_NATIVE="false", CONFIG_CXX_ALLOCATOR="false", CONFIG_UBSAN="false", CONFIG_SEAL_METADATA="false",
               CONFIG_ZERO_ON_FREE="true", CONFIG_WRITE_AFTER_FREE_CHECK="true", CONFIG_SLOT_RANDOMIZE="true", CONFIG_SLAB_CANARY="true",
               CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH=1, CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH=1, CONFIG_EXTENDED_SIZE_CLASSES="true",
               CONFIG_LARGE_SIZE_CLASSES="true", CONFIG_GUARD_SLABS_INTERVAL=1, CONFIG_GUARD_SIZE_DIVISOR=2,
               CONFIG_REGION_QUARANTINE_RANDOM_LENGTH=256, CONFIG_REGION_QUARANTINE_QUEUE_LENGTH=1024,
               CONFIG_REGION_QUARANTINE_SKIP_THRESHOLD=33554432, CONFIG_FREE_SLABS_QUARANTINE_RANDOM_LENGTH=32,
               CONFIG_CLASS_REGION_SIZE=34359738368, CONFIG_N_ARENA=4, CONFIG_STATS="false", CONFIG_SELF_INIT="true")

def _v(**kw):
    d = {}
    for k, v in kw.items():
        d["CONFIG_" + k] = ("true" if v else "false") if isinstance(v, bool) else v
    return d

SMALLQ = dict(REGION_QUARANTINE_RANDOM_LENGTH=2, REGION_QUARANTINE_QUEUE_LENGTH=3, REGION_QUARANTINE_SKIP_THRESHOLD=2097152)
VARIANTS = {
    # the two shipped configurations
    "default": ("default", {}),
    "light": ("light", {}),
    # shipped configurations with statistics
    "stats": ("default", _v(STATS=True)),
    "lstats": ("light", _v(STATS=True)),
    # small exact configurations: one arena, short quarantines
    "exact": ("default", _v(N_ARENA=1, EXTENDED_SIZE_CLASSES=False, GUARD_SLABS_INTERVAL=2, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=2,
                            CLASS_REGION_SIZE=67108864, STATS=True, **SMALLQ)),
    # no quarantine, free slab order deterministic
    "noq": ("default", _v(N_ARENA=1, EXTENDED_SIZE_CLASSES=False, GUARD_SLABS_INTERVAL=1, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1,
                          SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, CLASS_REGION_SIZE=67108864, STATS=True,
                          REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_SKIP_THRESHOLD=2097152)),
    "noqx": ("default", _v(N_ARENA=1, EXTENDED_SIZE_CLASSES=True, GUARD_SLABS_INTERVAL=3, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=3,
                           SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, CLASS_REGION_SIZE=268435456, STATS=True,
                           REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_SKIP_THRESHOLD=2097152)),
    # everything deterministic: lowest slot, no quarantine
    "det": ("light", _v(N_ARENA=1, EXTENDED_SIZE_CLASSES=False, GUARD_SLABS_INTERVAL=1, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1,
                        SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, CLASS_REGION_SIZE=67108864, STATS=True,
                        SLOT_RANDOMIZE=False, WRITE_AFTER_FREE_CHECK=True,
                        REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=2, REGION_QUARANTINE_SKIP_THRESHOLD=2097152)),
    # FIFO only quarantines
    "fifo": ("default", _v(N_ARENA=1, EXTENDED_SIZE_CLASSES=False, GUARD_SLABS_INTERVAL=1, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1,
                           SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=2, CLASS_REGION_SIZE=67108864, STATS=True,
                           REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=3, REGION_QUARANTINE_SKIP_THRESHOLD=2097152)),
    # random array only
    "rnd": ("default", _v(N_ARENA=1, EXTENDED_SIZE_CLASSES=False, GUARD_SLABS_INTERVAL=1, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=4,
                          SLAB_QUARANTINE_RANDOM_LENGTH=2, SLAB_QUARANTINE_QUEUE_LENGTH=0, CLASS_REGION_SIZE=67108864, STATS=True,
                          REGION_QUARANTINE_RANDOM_LENGTH=3, REGION_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_SKIP_THRESHOLD=2097152)),
    "nocan": ("default", _v(N_ARENA=2, SLAB_CANARY=False, CLASS_REGION_SIZE=268435456, STATS=True, GUARD_SIZE_DIVISOR=1, GUARD_SLABS_INTERVAL=4, **SMALLQ)),
    "nozero": ("default", _v(N_ARENA=1, ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False, SLAB_QUARANTINE_RANDOM_LENGTH=0,
                             SLAB_QUARANTINE_QUEUE_LENGTH=0, CLASS_REGION_SIZE=268435456, **SMALLQ)),
    "nolarge": ("default", _v(N_ARENA=1, LARGE_SIZE_CLASSES=False, EXTENDED_SIZE_CLASSES=False, CLASS_REGION_SIZE=67108864, STATS=True,
                              GUARD_SIZE_DIVISOR=8, **SMALLQ)),
    "seal": ("default", _v(SEAL_METADATA=True, N_ARENA=2, CLASS_REGION_SIZE=268435456, **SMALLQ)),
    "sealst": ("default", _v(SEAL_METADATA=True, STATS=True, N_ARENA=2, CLASS_REGION_SIZE=268435456, **SMALLQ)),
    # tiny class regions: table and class regions run out
    "tiny": ("default", _v(N_ARENA=1, CLASS_REGION_SIZE=16777216, STATS=True, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1, SLAB_QUARANTINE_RANDOM_LENGTH=0,
                           SLAB_QUARANTINE_QUEUE_LENGTH=0, EXTENDED_SIZE_CLASSES=False, REGION_QUARANTINE_RANDOM_LENGTH=0,
                           REGION_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_SKIP_THRESHOLD=2097152)),
    # registry experiments: no quarantine, table large enough to grow several times
    "table": ("default", _v(N_ARENA=1, CLASS_REGION_SIZE=268435456, STATS=True, EXTENDED_SIZE_CLASSES=False, GUARD_SIZE_DIVISOR=1,
                            REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_SKIP_THRESHOLD=0)),
    "noinit": ("default", _v(SELF_INIT=False, N_ARENA=3, CLASS_REGION_SIZE=268435456, STATS=True, **SMALLQ)),
    "noinit1": ("default", _v(SELF_INIT=False, N_ARENA=1, EXTENDED_SIZE_CLASSES=False, CLASS_REGION_SIZE=67108864, **SMALLQ)),
    "noinits": ("light", _v(SELF_INIT=False, N_ARENA=2, SEAL_METADATA=True, CLASS_REGION_SIZE=67108864, STATS=True, **SMALLQ)),
    "bigq": ("default", _v(N_ARENA=1, SLAB_QUARANTINE_RANDOM_LENGTH=8, SLAB_QUARANTINE_QUEUE_LENGTH=0, CLASS_REGION_SIZE=268435456,
                           FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1, **SMALLQ)),
    "fsq0": ("default", _v(N_ARENA=1, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, EXTENDED_SIZE_CLASSES=False,
                           CLASS_REGION_SIZE=67108864, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0, STATS=True, **SMALLQ)),
    "arena": ("default", _v(N_ARENA=3, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, CLASS_REGION_SIZE=268435456,
                            STATS=True, **SMALLQ)),
    # memory tagging, with the tagging instructions emulated by the driver (harness/mte_stub.h)
    "mte": ("default", _v(N_ARENA=1, EXTENDED_SIZE_CLASSES=False, GUARD_SLABS_INTERVAL=1, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1,
                          SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, CLASS_REGION_SIZE=67108864, STATS=True,
                          REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_SKIP_THRESHOLD=2097152)),
    "mteq": ("default", _v(N_ARENA=2, CLASS_REGION_SIZE=67108864, SEAL_METADATA=True, **SMALLQ)),
    "mtenc": ("light", _v(N_ARENA=1, SLAB_CANARY=False, SLOT_RANDOMIZE=False, CLASS_REGION_SIZE=67108864, STATS=True, CXX_ALLOCATOR=False, **SMALLQ)),
    # the Android build: configuration of Android.bp (short range quarantine), its introspection interface, sealed, and with labelled memory
    "android": ("default", _v(N_ARENA=1, STATS=True, SELF_INIT=False)),
    "andseal": ("default", _v(N_ARENA=2, STATS=True, SEAL_METADATA=True, CLASS_REGION_SIZE=268435456, **SMALLQ)),
    "andnoq": ("default", _v(N_ARENA=3, EXTENDED_SIZE_CLASSES=False, GUARD_SLABS_INTERVAL=1, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1,
                             SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, CLASS_REGION_SIZE=67108864, STATS=True, **SMALLQ)),
    "cxx": ("default", _v(CXX_ALLOCATOR=True, N_ARENA=1, CLASS_REGION_SIZE=268435456, **SMALLQ)),
    "cxxlight": ("light", _v(CXX_ALLOCATOR=True, N_ARENA=2, SLAB_CANARY=False, CLASS_REGION_SIZE=268435456, STATS=True, **SMALLQ)),
    "cxxseal": ("default", _v(CXX_ALLOCATOR=True, N_ARENA=1, SEAL_METADATA=True, CLASS_REGION_SIZE=268435456, **SMALLQ)),
}

MTE = ("mte", "mteq", "mtenc")
ANDROID = ("android", "andseal", "andnoq")
def cppflags(variant):
    return "-DH_MALLOC_PREFIX" + (" -D__ANDROID__ -DM_PURGE=-101 -I" + os.path.join(HARN, "android") if variant in ANDROID else "") + (" -DLABEL_MEMORY" if variant == "andnoq" else "") + (" -DHAS_ARM_MTE -include " + os.path.join(HARN, "mte_stub.h") if variant in MTE else "")

class Fail(Exception):
    """The check itself could not run."""

def shipped(name):
    d = dict(DEFAULT)
    try:
        for l in open(os.path.join(REPO, "config", name + ".mk")):
            m = re.match(r"\s*(CONFIG_\w+)\s*:?=\s*(\S+)", l)
            if m and m.group(1) != "CONFIG_WERROR":
                d[m.group(1)] = m.group(2)
    except OSError:
        pass
    d["CONFIG_NATIVE"] = "false"
    d["CONFIG_CXX_ALLOCATOR"] = "false"
    return d

def config(variant):
    base, over = VARIANTS[variant]
    d = shipped(base)
    d.update(over)
    return {k: str(v) for k, v in d.items()}

def facts(variant):
    c = config(variant)
    ext = c["CONFIG_EXTENDED_SIZE_CLASSES"] == "true"
    n = 49 if ext else 37
    T = lambda k: 1 if c["CONFIG_" + k] == "true" else 0
    I = lambda k: int(c["CONFIG_" + k])
    th = I("REGION_QUARANTINE_SKIP_THRESHOLD")
    return dict(nclass=n, narena=I("N_ARENA"), creg=I("CLASS_REGION_SIZE"), ext=T("EXTENDED_SIZE_CLASSES"), large=T("LARGE_SIZE_CLASSES"),
                canary=T("SLAB_CANARY"), zero=T("ZERO_ON_FREE"), waf=T("WRITE_AFTER_FREE_CHECK"), rand=T("SLOT_RANDOMIZE"),
                sqr=I("SLAB_QUARANTINE_RANDOM_LENGTH"), sqq=I("SLAB_QUARANTINE_QUEUE_LENGTH"), rqr=I("REGION_QUARANTINE_RANDOM_LENGTH"),
                rqq=I("REGION_QUARANTINE_QUEUE_LENGTH"), thrp=th // 4096, fsq=I("FREE_SLABS_QUARANTINE_RANDOM_LENGTH"),
                gint=I("GUARD_SLABS_INTERVAL"), gdiv=I("GUARD_SIZE_DIVISOR"), stats=T("STATS"), seal=T("SEAL_METADATA"),
                cregp=I("CLASS_REGION_SIZE") // 4096, selfinit=T("SELF_INIT"), cxx=T("CXX_ALLOCATOR"), mte=int(variant in MTE), android=int(variant in ANDROID))

_srchash = None
def src_hash():
    global _srchash
    if _srchash is None:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(REPO):
            dirs[:] = sorted(d for d in dirs if d not in (".git", "out", "out-light", "test", "androidtest"))
            for f in sorted(files):
                if f.endswith((".o", ".so")):
                    continue
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fd:
                    h.update(fd.read())
        _srchash = h.hexdigest()[:16]
    return _srchash

def harn_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(HARN)):
        if os.path.isdir(os.path.join(HARN, f)): continue
        with open(os.path.join(HARN, f), "rb") as fd:
            h.update(f.encode() + fd.read())
    return h.hexdigest()[:12]

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)

def locked(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fd = open(path + ".lock", "w")
    fcntl.flock(fd, fcntl.LOCK_EX)
    return fd

def build_lib(variant):
    d = os.path.join(BUILD, src_hash(), variant + "-" + hashlib.md5(json.dumps(config(variant), sort_keys=True).encode()).hexdigest()[:8])
    lk = locked(d)
    try:
        mark = os.path.join(d, "ok")
        if not os.path.exists(mark):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            env = dict(os.environ)
            env["CPPFLAGS"] = cppflags(variant)
            env.pop("CFLAGS", None); env.pop("MAKEFLAGS", None)
            args = ["%s=%s" % kv for kv in config(variant).items()]
            r = sh(["make", "-j4", "-C", REPO, "OUT=" + d, "VARIANT=default", "CC=gcc", "CONFIG_WERROR=false"] + args, env=env)
            so = os.path.join(d, "libhardened_malloc.so")
            if r.returncode or not os.path.exists(so):
                raise Fail("building %s failed:\n%s" % (variant, r.stdout[-3000:]))
            for f in os.listdir(d):
                if f.endswith(".o"):
                    os.unlink(os.path.join(d, f))
            open(mark, "w").close()
    finally:
        lk.close()
    return d

def build_driver(variant, src="drv.c", name="drv", extra=()):
    d = build_lib(variant)
    out = os.path.join(d, name + "-" + harn_hash())
    lk = locked(out)
    try:
        if not os.path.exists(out):
            f = facts(variant)
            cc = "g++" if src.endswith((".cc", ".cpp")) else "gcc"
            cmd = [cc, "-O1", "-g0", "-w", "-D_GNU_SOURCE", "-DNCLASS=%d" % f["nclass"], "-DNARENA=%d" % f["narena"], "-DCLASS_REGION=%dULL" % f["creg"], "-DLARGECLS=%d" % f["large"],
                   "-fno-builtin", "-rdynamic", "-I", HARN] + (["-DMTE"] if f["mte"] else []) + (["-DANDROIDAPI"] if f["android"] else []) + list(extra)
            if cc == "g++":
                rt = out + ".rt.o"
                r = sh(["gcc"] + [c for c in cmd[1:] if not c.startswith("-std=c++")] + ["-c", os.path.join(HARN, "rt.c"), "-o", rt])
                if r.returncode:
                    raise Fail("driver build failed:\n" + r.stdout[-3000:])
                cmd += [os.path.join(HARN, src), rt]
            else:
                cmd += [os.path.join(HARN, src), os.path.join(HARN, "rt.c")]
            if f["cxx"]:
                ob = out + ".cxx.o"
                r = sh(["g++", "-std=c++17", "-faligned-new", "-fsized-deallocation"] + cmd[1:cmd.index(os.path.join(HARN, src))] + ["-c", os.path.join(HARN, "cxx.cc"), "-o", ob])
                if r.returncode:
                    raise Fail("driver build failed:\n" + r.stdout[-3000:])
                cmd += [ob]
            cmd += ["-o", out + ".tmp", "-L" + d, "-lhardened_malloc", "-Wl,-rpath," + d, "-ldl", "-lpthread"] + (["-lstdc++"] if f["cxx"] else [])
            r = sh(cmd)
            if r.returncode:
                raise Fail("driver build failed:\n" + r.stdout[-3000:])
            os.rename(out + ".tmp", out)
    finally:
        lk.close()
    return out

def build_unit(name, src, with_, flags=()):
    """a unit driver linked with some of /repo's sources; None if these do not build this way"""
    out = os.path.join(BUILD, src_hash(), "%s-%s" % (name, harn_hash()))
    lk = locked(out)
    try:
        if not os.path.exists(out):
            r = sh(["gcc", "-std=gnu17", "-O2", "-w", "-D_GNU_SOURCE", "-DCONFIG_SEAL_METADATA=0"] + list(flags) + ["-I", REPO, "-I", os.path.join(REPO, "include"), os.path.join(HARN, src)]
                   + [os.path.join(REPO, w) for w in with_] + ["-o", out + ".tmp", "-lpthread"])
            if r.returncode:
                return None, r.stdout
            os.rename(out + ".tmp", out)
    finally:
        lk.close()
    return out, ""

def prune_builds():
    """keep the build cache of the current sources only"""
    try:
        for e in os.listdir(BUILD):
            if e != src_hash() and re.fullmatch(r"[0-9a-f]{16}", e):
                shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
    except OSError:
        pass

def run_driver(exe, script, work, name="run", env=None, timeout=120, rnd=0):
    out = os.path.join(work, name + ".out")
    if os.path.exists(out):
        os.unlink(out)
    e = dict(os.environ)
    e.update(HM_OUT=out, VERIF_SEED=str(SEED), HM_RND=str(rnd))
    if env:
        e.update(env)
    try:
        p = subprocess.run([exe], input=script, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, errors="replace")
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = -99
    lines = []
    if os.path.exists(out):
        with open(out) as f:
            lines = [l for l in f.read().split("\n") if l]
        os.unlink(out)
    good = []
    for l in lines:
        good.append(l)
    last = json.loads(good[-1])["e"] if good else ""
    if last not in ("end", "fatal", "crash", "die", "hang"):
        good.append(json.dumps({"e": "crash", "t": 0, "sig": -rc if rc < 0 else 0, "s": -9, "pg": rc if rc >= 0 else 0, "b": 0}))
    return good

JAR = "/opt/veriftools/tla/tla2tools.jar"
# set when a violation has been confirmed: searches still running (rc -98) have nothing to add
stop = threading.Event()
def tlc(module, cfg, work, env=None, timeout=600, workers=1, heap="4g", extra=(), depth_first=False):
    md = os.path.join(work, "tlc-" + hashlib.md5((module + cfg + str(time.time())).encode()).hexdigest()[:8])
    os.makedirs(md, exist_ok=True)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cp = classpath()
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-Xss64m", "-XX:TieredStopAtLevel=4", "-Dtlc2.TLC.stopAfter=%d" % timeout, "-Djava.io.tmpdir=" + md]
    if depth_first:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", cp, "tlc2.TLC", "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    p = subprocess.Popen(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, errors="replace")
    end = time.time() + timeout
    while True:
        try:
            out, _ = p.communicate(timeout=1); rc = p.returncode
            break
        except subprocess.TimeoutExpired:
            if time.time() < end and not stop.is_set(): continue
            rc = -98 if stop.is_set() else -99
            p.kill(); out, _ = p.communicate()
            break
    shutil.rmtree(md, ignore_errors=True)
    return rc, out

_cp = None
def classpath():
    global _cp
    if _cp is None:
        d = os.path.dirname(JAR)
        _cp = ":".join([JAR] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and f != os.path.basename(JAR)))
    return _cp

def tlc_counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    g = int(m.group(1)) if m else 0
    d = int(m.group(2)) if m else 0
    return g, d
