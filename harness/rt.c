#define _GNU_SOURCE
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/ucontext.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#define PAGE 4096ULL
#define W_BASE 0x10000001000ULL
#define W_END (W_BASE + ((1ULL << 31) - 64) * PAGE)
#define S_BASE 0x100000003000ULL
#define OUR __attribute__((visibility("default")))

_Thread_local int tid;
_Thread_local int obs;
_Thread_local int rt_forking;   // locks released after a fork are no preemption points
int sched_on, tracing_sys = 1, quiet_log, in_probe;
u64 n_getrandom, n_rndbytes, n_sys;
struct probe_res *pres;
static u64 slab_base;
static int inited;

// ---------------------------------------------------------------- log
#define LOGMAX (768u << 20)
struct shlog { volatile int lock; volatile u64 n; volatile u64 rseed; char b[]; };
static struct shlog *L;
static const char *out_path;
static pid_t main_pid;

static long sys6(long n, long a, long b, long c, long d, long e, long f) {
    return syscall(n, a, b, c, d, e, f);
}

void rt_init(void) {
    if (inited) return;
    inited = 1;
    void *m = (void *)sys6(SYS_mmap, 0, LOGMAX + 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) _exit(97);
    pres = m;
    L = (void *)((char *)m + 4096);
    out_path = getenv("HM_OUT");
    main_pid = getpid();
}

void lg(const char *fmt, ...) {
    rt_init();
    if (quiet_log || in_probe) return;
    int e = errno;
    char tmp[4096];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof tmp - 1) n = sizeof tmp - 1;
    while (__sync_lock_test_and_set(&L->lock, 1)) ;
    // an endless stream of system calls within one call of the allocator
    static u64 run; run = n > 10 && !memcmp(tmp, "{\"e\":\"sys\"", 10) ? run + 1 : 0;
    if (run == 30000) { n = sprintf(tmp, "{\"e\":\"hang\"}\n"); memcpy(L->b + L->n, tmp, n); L->n += n; rt_flush(); _exit(0); }
    if (L->n + n < LOGMAX - 8192) { memcpy(L->b + L->n, tmp, n); L->n += n; }
    __sync_lock_release(&L->lock);
    errno = e;
}

void rt_flush(void) {
    if (!out_path || in_probe || getpid() != main_pid) return;
    int fd = syscall(SYS_open, out_path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    for (u64 o = 0; o < L->n;) {
        long r = syscall(SYS_write, fd, L->b + o, L->n - o);
        if (r <= 0) break;
        o += r;
    }
    syscall(SYS_close, fd);
}

void rt_die(const char *why) {
    if (in_probe) { pres->out = 3; snprintf(pres->msg, sizeof pres->msg, "%s", why); _exit(0); }
    lg("{\"e\":\"die\",\"why\":\"%s\",\"t\":%d}\n", why, tid);
    rt_flush();
    _exit(0);
}

// ---------------------------------------------------------------- shadow
typedef struct { u64 a, b; int prot, mid; } iv; // page numbers
#define SHMAX (1 << 19)
static iv sh[SHMAX];
static int nsh, next_mid = 1;
static volatile int sh_lock;
static void slk(void) { while (__sync_lock_test_and_set(&sh_lock, 1)) ; }
static void sul(void) { __sync_lock_release(&sh_lock); }

static int find(u64 pg) { // first interval with b > pg
    int lo = 0, hi = nsh;
    while (lo < hi) { int m = (lo + hi) / 2; if (sh[m].b > pg) hi = m; else lo = m + 1; }
    return lo;
}
static void insert_at(int i, iv v) {
    if (nsh >= SHMAX) _exit(96);
    memmove(sh + i + 1, sh + i, (nsh - i) * sizeof(iv));
    sh[i] = v; nsh++;
}
static void split(u64 pg) {
    int i = find(pg);
    if (i < nsh && sh[i].a < pg) { iv v = sh[i]; sh[i].b = pg; v.a = pg; insert_at(i + 1, v); }
}
static void merge_around(int i) {
    if (i < 0) i = 0;
    while (i + 1 < nsh && i >= 0) {
        if (sh[i].b == sh[i + 1].a && sh[i].prot == sh[i + 1].prot && sh[i].mid == sh[i + 1].mid) {
            sh[i].b = sh[i + 1].b;
            memmove(sh + i + 1, sh + i + 2, (nsh - i - 2) * sizeof(iv)); nsh--;
        } else return;
    }
}
static void sh_unmap(u64 a, u64 b) {
    split(a); split(b);
    int i = find(a), j = i;
    while (j < nsh && sh[j].b <= b) j++;
    memmove(sh + i, sh + j, (nsh - j) * sizeof(iv)); nsh -= j - i;
}
static void sh_map(u64 a, u64 b, int prot, int mid) {
    sh_unmap(a, b);
    insert_at(find(a), (iv){a, b, prot, mid});
}
static int sh_prot(u64 a, u64 b, int prot, int fill_mid) { // fill_mid>0: also map holes
    split(a); split(b);
    int hole = 0;
    u64 c = a;
    int i = find(a);
    while (c < b) {
        if (i < nsh && sh[i].a <= c) { sh[i].prot = prot; c = sh[i].b; i++; }
        else {
            hole = 1;
            u64 e = i < nsh && sh[i].a < b ? sh[i].a : b;
            if (fill_mid > 0) { insert_at(i, (iv){c, e, prot, fill_mid}); i++; }
            c = e;
        }
    }
    i = find(a);
    for (int k = i - 1; k < nsh && k < i + 1; k++) merge_around(k);
    merge_around(find(b) - 1);
    return hole;
}
static int prot_q(u64 a, u64 b, int max) {
    u64 p = a / PAGE, e = (b + PAGE - 1) / PAGE;
    int r = max ? -1 : 9;
    slk();
    int i = find(p);
    while (p < e) {
        int v = -1;
        if (i < nsh && sh[i].a <= p) { v = sh[i].prot; p = sh[i].b; i++; }
        else p = i < nsh ? sh[i].a : e;
        if (max ? v > r : v < r) r = v;
    }
    sul();
    return r;
}
int range_prot(u64 a, u64 b) { return prot_q(a, b, 0); }
int range_prot_max(u64 a, u64 b) { return prot_q(a, b, 1); }
int run_none(u64 addr, int dir) {
    u64 p = addr / PAGE;
    int n = 0;
    slk();
    if (dir > 0) {
        int i = find(p);
        if (i < nsh && sh[i].a <= p && sh[i].prot == 0) n = sh[i].b - p > 1u << 30 ? 1 << 30 : (int)(sh[i].b - p);
    } else if (p > 0) {
        int i = find(p - 1);
        if (i < nsh && sh[i].a <= p - 1 && sh[i].prot == 0) n = p - sh[i].a > 1u << 30 ? 1 << 30 : (int)(p - sh[i].a);
    }
    sul();
    return n;
}

void coord(const void *ptr, int *s, int *pg, int *b) {
    u64 p = (u64)ptr;
    *b = p % PAGE;
    if (slab_base && p >= slab_base && p < slab_base + SLAB_BYTES) {
        u64 o = p - slab_base, rs = (u64)CLASS_REGION * 2;
        *s = o / rs; *pg = (o % rs) / PAGE;
    } else if (p >= W_BASE && p < W_END) {
        *s = -1; *pg = (p - W_BASE) / PAGE;
    } else { *s = -2; *pg = (p / PAGE) & 0x3fffffff; }
}
void *uncoord(int s, int pg, int b) {
    if (s >= 0) return (void *)(slab_base + (u64)s * CLASS_REGION * 2 + (u64)pg * PAGE + b);
    if (s == -1) return (void *)(W_BASE + (u64)pg * PAGE + b);
    return (void *)((u64)pg * PAGE + b);
}

// ---------------------------------------------------------------- faults and placement
static unsigned f_mask; static int f_skip, f_cnt, f_err, f_hits;
void fault_set(unsigned mask, int skip, int cnt, int err) { f_mask = mask; f_skip = skip; f_cnt = cnt; f_err = err; f_hits = 0; }
int fault_hits(void) { return f_hits; }
static int fault(unsigned c) {
    if (!(f_mask & c)) return 0;
    if (f_skip > 0) { f_skip--; return 0; }
    if (f_cnt == 0) return 0;
    if (f_cnt > 0) f_cnt--;
    f_hits++;
    return f_err;
}
static int pmode; static int pl_pg[4096]; static u64 pl_sz[4096]; static int pl_n, pl_i;
static u64 bump = W_BASE / PAGE + 4096;
void place_mode(int m) { pmode = m; }
void place_at(int pg, u64 usable) { if (pl_n < 4096) { pl_pg[pl_n] = pg; pl_sz[pl_n] = usable; pl_n++; } }
static u64 prng_s = 88172645463325252ULL;
static u64 prng(void) { prng_s ^= prng_s << 13; prng_s ^= prng_s >> 7; prng_s ^= prng_s << 17; return prng_s; }

static u64 choose(u64 pages) { // page number for a new mapping
    u64 lo = W_BASE / PAGE, hi = W_END / PAGE;
    if (pl_i < pl_n) {
        u64 us = (pl_sz[pl_i] + PAGE - 1) / PAGE;
        if (pages > us && (pages - us) % 2 == 0) {
            u64 a = lo + pl_pg[pl_i] - (pages - us) / 2;
            pl_i++;
            if (pl_i == pl_n) pl_i = pl_n = 0;
            int i = find(a);
            if (a >= lo && (i >= nsh || sh[i].a >= a + pages)) return a;
        }
    }
    if (pmode == 1) {
        u64 a = bump;
        int i = find(a);
        while (i < nsh && sh[i].a < a + pages) { a = sh[i].b; i++; }
        bump = a + pages;
        return a;
    }
    if (pmode == 2) {
        for (int t = 0; t < 50; t++) {
            u64 a = lo + prng() % ((1ULL << 29));
            int i = find(a);
            if (i >= nsh || sh[i].a >= a + pages) return a;
        }
    }
    u64 a = lo;
    int i = find(a);
    while (i < nsh && sh[i].a < a + pages) { if (sh[i].b > a) a = sh[i].b; i++; }
    return a + pages <= hi ? a : 0;
}

static int capn(u64 n) { return n > 0x3fffffff ? 0x3fffffff : (int)n; }
static void lsys(const char *c, u64 addr, u64 bytes, int err) {
    if (!tracing_sys) return;
    int s, pg, b;
    coord((void *)addr, &s, &pg, &b);
    lg("{\"e\":\"sys\",\"t\":%d,\"c\":\"%s\",\"s\":%d,\"pg\":%d,\"b\":%d,\"n\":%d,\"err\":%d}\n", tid, c, s, pg, b, capn((bytes + PAGE - 1) / PAGE), err);
}
static void yield_point(void);

// ---------------------------------------------------------------- memory tagging (-DMTE)
__thread int mt_faults;
#ifdef MTE
static unsigned char *mt_tag, *mt_ptr, *mt_page;     // per granule: memory tag, tag last handed out; per page: tagging enabled
static __thread struct { u64 p, n; } mt_log[16];
static __thread int mt_nlog;
static u64 mt_seed = 0x1234567;
static u64 raw(const void *p) { return (u64)p & (~0ULL >> 8); }
static int mt_slab(u64 a) { return slab_base && a >= slab_base && a < slab_base + SLAB_BYTES; }
static unsigned char *mt_area(u64 n) { void *m = (void *)sys6(SYS_mmap, 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) _exit(97); return m; }
static void mt_setup(void) { if (!mt_tag) { mt_tag = mt_area(SLAB_BYTES / 16); mt_ptr = mt_area(SLAB_BYTES / 16); mt_page = mt_area(SLAB_BYTES / PAGE); } }
// a mapping: pages are empty, their tags gone; tagging depends on the protection asked for
static void mt_map(u64 a, u64 n, int prot) {
    if (!mt_slab(a)) return;
    mt_setup();
    memset(mt_page + (a - slab_base) / PAGE, prot & 0x20 ? 1 : 0, (n + PAGE - 1) / PAGE);
    if (n < SLAB_BYTES) memset(mt_tag + (a - slab_base) / 16, 0, n / 16);
}
static void mt_discard(u64 a, u64 n) { if (mt_slab(a)) { mt_setup(); memset(mt_tag + (a - slab_base) / 16, 0, n / 16); } }
static void mt_protect(u64 a, u64 n, int prot) { if (mt_slab(a) && prot & 0x20) { mt_setup(); memset(mt_page + (a - slab_base) / PAGE, 1, (n + PAGE - 1) / PAGE); } }
OUR void *hm_mte_irg(void *p, u64 mask) {
    mt_setup();
    int allowed[16], n = 0;
    for (int t = 0; t < 16; t++) if (!(mask >> t & 1)) allowed[n++] = t;
    mt_seed = mt_seed * 6364136223846793005ULL + 1442695040888963407ULL;
    // half of the time the lowest tag allowed, so that equal tags are common
    int t = n == 0 ? 0 : mt_seed >> 40 & 1 ? allowed[0] : allowed[(mt_seed >> 44) % n];
    return (void *)(((u64)p & ~(0xfULL << 56)) | (u64)t << 56);
}
OUR void hm_mte_stzg(void *p, size_t n) {
    u64 a = raw(p); int t = (u64)p >> 56 & 15;
    if (mt_nlog < 16) { mt_log[mt_nlog].p = (u64)p; mt_log[mt_nlog++].n = n; }
    mt_setup();
    for (u64 i = a & ~15ULL; i < a + n; i += 16) if (mt_slab(i) && mt_page[(i - slab_base) / PAGE]) mt_tag[(i - slab_base) / 16] = t;
    memset((void *)(a & ~15ULL), 0, (n + (a & 15) + 15) & ~15ULL);
}
// the tag of the pointer has to match the tag of the memory
static void mt_check(const void *p, u64 n) {
    u64 a = raw(p); int t = (u64)p >> 56 & 15;
    if (!mt_tag || !n) return;
    for (u64 i = a & ~15ULL; i < a + n; i += 16) if (mt_slab(i) && mt_page[(i - slab_base) / PAGE] && mt_tag[(i - slab_base) / 16] != t) { mt_faults++; return; }
}
OUR void *hm_mte_memcpy(void *d, const void *s, size_t n) { mt_check(d, n); mt_check(s, n); memcpy((void *)raw(d), (void *)raw(s), n); return d; }
OUR void *hm_mte_memset(void *d, int c, size_t n) { mt_check(d, n); memset((void *)raw(d), c, n); return d; }
void *mt_out(void *p) { u64 a = raw(p); if (mt_slab(a)) { mt_setup(); mt_ptr[(a - slab_base) / 16] = (u64)p >> 56; } return (void *)a; }
void *mt_in(const void *p) { // pointers into a block carry the tag of its memory
    u64 a = (u64)p;
    if (!mt_slab(a) || !mt_ptr) return (void *)a;
    int t = a % 16 ? 0 : mt_ptr[(a - slab_base) / 16];
    return (void *)(a | (u64)(t ? t : mt_tag[(a - slab_base) / 16]) << 56);
}
int mt_mem(u64 a, u64 n) {
    if (!mt_slab(a) || !mt_tag) return 0;
    int t = mt_tag[(a - slab_base) / 16];
    for (u64 i = a & ~15ULL; i < a + n; i += 16) if (mt_tag[(i - slab_base) / 16] != t) return -1;
    return t;
}
void mt_begin(void) { mt_nlog = 0; mt_faults = 0; }
const char *mt_ops(void) {
    static __thread char o[1200]; int k = 0;
    o[k++] = '[';
    for (int i = 0; i < mt_nlog; i++) {
        int s, pg, b; coord((void *)raw((void *)mt_log[i].p), &s, &pg, &b);
        k += sprintf(o + k, "%s[%d,%d,%d,%d,%d]", i ? "," : "", s, pg, b, (int)mt_log[i].n, (int)(mt_log[i].p >> 56 & 255));
    }
    o[k++] = ']'; o[k] = 0;
    return o;
}
#else
static void mt_map(u64 a, u64 n, int prot) { (void)a; (void)n; (void)prot; }
static void mt_discard(u64 a, u64 n) { (void)a; (void)n; }
static void mt_protect(u64 a, u64 n, int prot) { (void)a; (void)n; (void)prot; }
int mt_mem(u64 a, u64 n) { (void)a; (void)n; return 0; }
const char *mt_ops(void) { return "[]"; }
void mt_begin(void) { }
#endif

OUR void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    rt_init();
    yield_point();
    n_sys++;
    unsigned c = flags & MAP_FIXED ? C_FIX : C_MAP;
    u64 pages = (len + PAGE - 1) / PAGE;
    int e = fault(c), mprot = prot;
#ifdef MTE
    prot &= ~0x20;
#endif
    if (e) { lsys(c == C_FIX ? "fix" : "map", (u64)addr, len, e); errno = e; return MAP_FAILED; }
    int sprot = prot & PROT_WRITE ? 2 : prot & PROT_READ ? 1 : 0;
    if (c == C_FIX) {
        void *r = (void *)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
        if (r == MAP_FAILED) { e = errno; lsys("fix", (u64)addr, len, e); errno = e; return r; }
        slk();
        int hole = sh_prot((u64)addr / PAGE, (u64)addr / PAGE + pages, sprot, next_mid);
        next_mid++;
        sul();
        mt_map((u64)addr, len, mprot);
        lsys(hole ? "fixhole" : sprot == 0 ? "fix" : "fixrw", (u64)addr, len, 0);
        return r;
    }
    if (len == 0 || pages > (1ULL << 35)) { lsys("map", 0, len, ENOMEM); errno = ENOMEM; return MAP_FAILED; }
    for (int tries = 0; tries < 100; tries++) {
        u64 want;
        slk();
        if (len == SLAB_BYTES && !slab_base) want = S_BASE / PAGE;
        else want = pages < (1ULL << 31) ? choose(pages) : 0;
        sul();
        void *r;
        if (want) r = (void *)syscall(SYS_mmap, want * PAGE, len, prot, flags | MAP_FIXED_NOREPLACE, fd, off);
        else r = (void *)syscall(SYS_mmap, 0, len, prot, flags, fd, off);
        if (r == MAP_FAILED) {
            e = errno;
            if (e == EEXIST && want) { slk(); sh_map(want, want + 1, 1, -7); sul(); continue; }
            lsys("map", 0, len, e); errno = e; return r;
        }
        if (len == SLAB_BYTES && !slab_base) { slab_base = (u64)r; mt_map((u64)r, len, mprot); }
        slk();
        sh_map((u64)r / PAGE, (u64)r / PAGE + pages, sprot, next_mid++);
        sul();
        lsys(sprot == 0 ? "map" : "maprw", (u64)r, len, 0);
        return r;
    }
    errno = ENOMEM;
    return MAP_FAILED;
}
OUR void *mmap64(void *a, size_t l, int p, int f, int fd, off_t o) { return mmap(a, l, p, f, fd, o); }

OUR int munmap(void *addr, size_t len) {
    rt_init();
    yield_point();
    n_sys++;
    int e = fault(C_UNMAP);
    if (e) { lsys("unmap", (u64)addr, len, e); errno = e; return -1; }
    u64 a = (u64)addr / PAGE, b = a + (len + PAGE - 1) / PAGE;
    // log before the range can be handed out again
    slk(); int hole = 0; { u64 c = a; int i = find(a); while (c < b) { if (i < nsh && sh[i].a <= c) { c = sh[i].b; i++; } else { hole = 1; break; } } } sul();
    long r = syscall(SYS_munmap, addr, len);
    if (r) { e = errno; lsys("unmap", (u64)addr, len, e); errno = e; return -1; }
    slk(); sh_unmap(a, b); sul();
    lsys(hole ? "unmaphole" : "unmap", (u64)addr, len, 0);
    return 0;
}

u64 rt_ro_addr;
u64 held_pages(int rw) {
    u64 n = 0;
    slk();
    for (int i = 0; i < nsh; i++) if (sh[i].mid > 0 && sh[i].a >= W_BASE / PAGE && sh[i].b <= W_END / PAGE && (!rw || sh[i].prot > 0)) n += sh[i].b - sh[i].a;
    sul();
    return n;
}
void rt_child(void) { sched_on = 0; }
static int do_protect(void *addr, size_t len, int prot, int pkey, int have_key) {
    rt_init();
    yield_point();
    n_sys++;
    int e = fault(C_PROT);
    const char *c = prot & PROT_WRITE ? "rw" : prot & PROT_READ ? "ro" : "none";
    if (e) { lsys(c, (u64)addr, len, e); errno = e; return -1; }
    mt_protect((u64)addr, len, prot);
#ifdef MTE
    prot &= ~0x20;
#endif
    long r = have_key && pkey >= 0 ? syscall(SYS_pkey_mprotect, addr, len, prot, pkey) : syscall(SYS_mprotect, addr, len, prot);
    if (r) { e = errno; lsys(c, (u64)addr, len, e); errno = e; return -1; }
    slk();
    sh_prot((u64)addr / PAGE, ((u64)addr + len + PAGE - 1) / PAGE, prot & PROT_WRITE ? 2 : prot & PROT_READ ? 1 : 0, (u64)addr < W_BASE || (u64)addr > S_BASE * 8 ? next_mid++ : 0);
    sul();
    lsys(c, (u64)addr, len, 0);
    if (c[1] == 'o' && c[0] == 'r' && !((u64)addr >= W_BASE && (u64)addr < S_BASE * 8)) rt_ro_addr = (u64)addr;
    return 0;
}
OUR int mprotect(void *addr, size_t len, int prot) { return do_protect(addr, len, prot, -1, 0); }

OUR void *mremap(void *old, size_t osz, size_t nsz, int flags, ...) {
    va_list ap; va_start(ap, flags); void *nw = flags & MREMAP_FIXED ? va_arg(ap, void *) : NULL; va_end(ap);
    rt_init();
    yield_point();
    n_sys++;
    int e = fault(C_REMAP);
    if (e) { lsys("remap", (u64)old, osz, e); errno = e; return MAP_FAILED; }
    void *r = (void *)syscall(SYS_mremap, old, osz, nsz, flags, nw);
    if (r == MAP_FAILED) { e = errno; lsys("remap", (u64)old, osz, e); errno = e; return r; }
    u64 oa = (u64)old / PAGE, op = (osz + PAGE - 1) / PAGE, na = (u64)r / PAGE, np = (nsz + PAGE - 1) / PAGE;
    slk();
    int i = find(oa); int prot = i < nsh ? sh[i].prot : 0;
    i = find(na); int mid = i < nsh && sh[i].a <= na ? sh[i].mid : next_mid++;
    sh_unmap(oa, oa + op);
    sh_map(na, na + np, prot, mid);
    sul();
    lsys("rmfrom", (u64)old, osz, 0);
    lsys("rmto", (u64)r, nsz, 0);
    return r;
}

OUR int madvise(void *addr, size_t len, int adv) {
    rt_init();
    yield_point();
    n_sys++;
    int e = fault(C_PURGE);
    if (e) { lsys("purge", (u64)addr, len, e); errno = e; return -1; }
    int r = syscall(SYS_madvise, addr, len, adv);
    if (r) { e = errno; lsys("purge", (u64)addr, len, e); errno = e; return -1; }
    if (adv == MADV_DONTNEED) mt_discard((u64)addr, len);
    lsys(adv == MADV_DONTNEED ? "purge" : "advise", (u64)addr, len, 0);
    return r;
}

static int rmode; // 0 full, 1 short reads and EINTR, 2 fail
void rnd_mode(int m) { rmode = m; }
OUR ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    rt_init();
    int e = fault(C_RND);
    n_getrandom++;
    // the generator state is shared by all processes, so that a forked child never sees the bytes of its parent again
    if (!L->rseed) { const char *q = getenv("VERIF_SEED"); u64 r = (q ? strtoull(q, 0, 10) : 1) * 0x9E3779B97F4A7C15ULL + 77; const char *x = getenv("HM_RND"); if (x) r += strtoull(x, 0, 10) * 0xD1342543DE82EF95ULL; L->rseed = r | 1; }
    if (tracing_sys) lg("{\"e\":\"rnd\",\"t\":%d,\"n\":%d,\"err\":%d}\n", tid, (int)n, e);
    if (e) { errno = e; return -1; }
    if (rmode == 1 && (n_getrandom & 1)) { errno = EINTR; return -1; }
    if (rmode == 1 && n > 7) n = 7;
    n_rndbytes += n;
    u64 rs = __sync_add_and_fetch(&L->rseed, 0x9E3779B97F4A7C15ULL * (n + 1)) - 0x9E3779B97F4A7C15ULL * (n + 1);
    for (size_t i = 0; i < n; i++) {
        rs += 0x9E3779B97F4A7C15ULL;
        u64 z = rs; z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ULL; z = (z ^ z >> 27) * 0x94D049BB133111EBULL;
        ((unsigned char *)buf)[i] = z >> 56;
    }
    return n;
}

// ---------------------------------------------------------------- protection keys
static int pk = -1, pk_emul;
static _Thread_local unsigned pk_rights = 1; // emulation: a new thread has no access to keys other than 0
OUR int pkey_alloc(unsigned fl, unsigned rights) {
    int k = syscall(SYS_pkey_alloc, fl, rights);
    if (k < 0) { k = 1; pk_emul = 1; }
    pk = k; pk_rights = rights;
    return k;
}
static int (*real_pkey_set)(int, unsigned); static int (*real_pkey_get)(int);
OUR int pkey_set(int k, unsigned rights) {
    if (!real_pkey_set) { real_pkey_set = dlsym(RTLD_NEXT, "pkey_set"); }
    pk_rights = rights;
    if (pk_emul) return 0;
    return real_pkey_set(k, rights);
}
OUR int pkey_mprotect(void *addr, size_t len, int prot, int k) { return do_protect(addr, len, prot, pk_emul ? -1 : k, 1); }
int seal_state(void) {
    if (pk < 0) return -1;
    if (pk_emul) return pk_rights & 1;
    if (!real_pkey_get) real_pkey_get = dlsym(RTLD_NEXT, "pkey_get");
    return real_pkey_get(pk) & 1;
}

// ---------------------------------------------------------------- termination
static char wbuf[512]; static int wlen;
OUR ssize_t write(int fd, const void *b, size_t n) {
    if (fd == 2) {
        size_t c = n < sizeof wbuf - 1 - wlen ? n : sizeof wbuf - 1 - wlen;
        memcpy(wbuf + wlen, b, c); wlen += c; wbuf[wlen] = 0;
        return n;
    }
    return syscall(SYS_write, fd, b, n);
}
static void clean(char *d, size_t cap) {
    size_t j = 0;
    for (int i = 0; i < wlen && j + 1 < cap; i++) { char c = wbuf[i]; if (c == '\n') break; d[j++] = c < 32 || c == '"' || c == '\\' || c > 126 ? '_' : c; }
    d[j] = 0;
}
OUR void abort(void) {
    char m[160];
    clean(m, sizeof m);
    if (in_probe) { pres->out = 1; memcpy(pres->msg, m, sizeof pres->msg); pres->msg[sizeof pres->msg - 1] = 0; _exit(0); }
    lg("{\"e\":\"fatal\",\"t\":%d,\"msg\":\"%s\"}\n", tid, m);
    rt_flush();
    _exit(0);
}
static int watch_fault(void *addr, void *uc);
static void on_crash(int sig, siginfo_t *si, void *uc) {
    if (sig == SIGSEGV && watch_fault(si->si_addr, uc)) return;
    if (in_probe) { pres->out = 2; pres->sig = sig; _exit(0); }
    int s, pg, b; coord(si->si_addr, &s, &pg, &b);
    lg("{\"e\":\"crash\",\"t\":%d,\"sig\":%d,\"s\":%d,\"pg\":%d,\"b\":%d}\n", tid, sig, s, pg, b);
    rt_flush();
    _exit(0);
}
static void on_alarm(int sig) { (void)sig; if (in_probe) { pres->out = 4; _exit(0); } lg("{\"e\":\"hang\"}\n"); rt_flush(); _exit(0); }

// ---------------------------------------------------------------- mutexes and scheduler
static int (*r_lock)(pthread_mutex_t *), (*r_trylock)(pthread_mutex_t *), (*r_unlock)(pthread_mutex_t *);
static void resolve(void) {
    if (r_lock) return;
    r_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    r_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    r_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
}
struct thr {
    pthread_t th; sem_t go;
    int state; // 0 idle 1 running 2 paused 3 blocked
    int sync_left, instr_left; // -1: unlimited
    u64 locks[MAXTHR * 8]; int nlocks, in_lk;
    int held, unlocked_only; // locks held; count only instructions outside of them
    u64 instr_seen, sync_seen;
    char *q[16]; int qn;
} ;
static struct thr T[MAXTHR];
static sem_t to_main;
static void (*g_exec)(int, char *);
static int nthr;
static u64 lib_lo, lib_hi;

static void handoff(int st) {
    int e = errno;
    struct thr *t = &T[tid];
    t->state = st;
    sem_post(&to_main);
    while (sem_wait(&t->go)) ;
    t->state = 1;
    errno = e;
}
static void yield_point(void) {
    if (!sched_on || tid == 0 || obs || in_probe) return;
    struct thr *t = &T[tid];
    t->sync_seen++;
    if (t->sync_left < 0) return;
    if (t->sync_left == 0) { handoff(2); return; }
    t->sync_left--;
}
// Watching the allocator's state (the mapping its locks lie in): every access of a worker thread is recorded with the locks it holds.
int watching;
static u64 wa, wb;                 // pages of the state mapping
static u64 wopen[8]; static int nwopen;
static void watch_state(u64 m) {
    if (!watching || wa || m < W_BASE || m >= W_END) return;
    slk();
    int i = find(m / PAGE);
    if (i < nsh && sh[i].a <= m / PAGE) {
        int lo = i, hi = i;
        while (lo > 0 && sh[lo - 1].mid == sh[i].mid && sh[lo - 1].b == sh[lo].a) lo--;
        while (hi + 1 < nsh && sh[hi + 1].mid == sh[i].mid && sh[hi + 1].a == sh[hi].b) hi++;
        wa = sh[lo].a; wb = sh[hi].b;
    }
    sul();
}
static void watch_arm(void) {
    if (!watching || !wa) return;
    slk();
    for (int i = 0; i < nsh; i++) if (sh[i].a >= wa && sh[i].b <= wb && sh[i].prot == 2) syscall(SYS_mprotect, sh[i].a * PAGE, (sh[i].b - sh[i].a) * PAGE, PROT_NONE);
    sul();
}
#define NID (1 << 17)
static u64 idkey[NID]; static int nid;
static int intern(u64 a) { // a stable small number
    u64 x = (a * 0x9E3779B97F4A7C15ULL) >> 47;
    static int idval[NID];
    while (idkey[x & (NID - 1)] && idkey[x & (NID - 1)] != a) x++;
    x &= NID - 1;
    if (!idkey[x]) { if (nid >= NID / 2) return -1; idkey[x] = a; idval[x] = nid++; }
    return idval[x];
}
struct accs { u64 key; int n; }; static struct accs seen[NID]; static int nseen; static signed char lastt[NID];
static void watch_note(u64 a, int w) {
    struct thr *t = &T[tid];
    int id = intern(a);
    if (id < 0) return;
    u64 h = id * 31 + tid; h = h * 2 + w;
    for (int i = 0; i < t->nlocks; i++) h += t->locks[i] * 0x9E3779B97F4A7C15ULL;
    h = h * 0xD1342543DE82EF95ULL | 1;
    u64 x = h >> 40;
    while (seen[x & (NID - 1)].key && seen[x & (NID - 1)].key != h) x++;
    struct accs *s = &seen[x & (NID - 1)];
    if (!s->key) { if (nseen > NID / 2) return; s->key = h; nseen++; }
    else if (s->n >= 3 || lastt[id] == tid) { lastt[id] = tid; return; }
    s->n++; lastt[id] = tid;
    char b[900]; int n = 0;
    for (int i = 0; i < t->nlocks && i < 80; i++) n += snprintf(b + n, sizeof b - n, "%s%d", i ? "," : "", intern(t->locks[i]));
    b[n] = 0;
    obs++; lg("{\"e\":\"acc\",\"t\":%d,\"a\":%d,\"w\":%d,\"l\":[%s]}\n", tid, id, w, b); obs--;
}
static int watch_fault(void *addr, void *ucv) {
    u64 a = (u64)addr, pg = a / PAGE;
    if (!wa || pg < wa || pg >= wb || in_probe) { if (!(wa && in_probe && pg >= wa && pg < wb)) return 0; }
    int i = find(pg);
    if (!(i < nsh && sh[i].a <= pg && sh[i].prot == 2)) return 0;
    ucontext_t *uc = ucv;
    syscall(SYS_mprotect, pg * PAGE, PAGE, PROT_READ | PROT_WRITE);
    if (!watching || in_probe || getpid() != main_pid) return 1;
    unsigned char *ip = (unsigned char *)uc->uc_mcontext.gregs[REG_RIP];
    if (tid && sched_on && !obs && !T[tid].in_lk && *ip != 0xf0) watch_note(a, (uc->uc_mcontext.gregs[REG_ERR] >> 1) & 1);
    if (nwopen < 8) wopen[nwopen++] = pg;
    uc->uc_mcontext.gregs[REG_EFL] |= 0x100L;
    return 1;
}
OUR int pthread_mutex_lock(pthread_mutex_t *m) {
    resolve();
    rt_init();
    yield_point();
    int r;
    if (pk >= 0 && tracing_sys) { u64 a = (u64)m; lg("{\"e\":\"lk\",\"t\":%d,\"in\":%d,\"seal\":%d}\n", tid, a >= W_BASE && a < W_END, seal_state()); }
    if (!sched_on && !in_probe && getpid() == main_pid) return r_lock(m);
    while (T[tid].in_lk = 1, r = r_trylock(m), T[tid].in_lk = 0, r == EBUSY) {
        if (tid == 0 || !sched_on || in_probe || getpid() != main_pid) {
            rt_die("deadlock");
        }
        handoff(3);
    }
    T[tid].held++;
    if (T[tid].nlocks < MAXTHR * 8) T[tid].locks[T[tid].nlocks++] = (u64)m;
    watch_state((u64)m);
    return r;
}
OUR int pthread_mutex_unlock(pthread_mutex_t *m) {
    resolve();
    T[tid].in_lk = 1; int r = r_unlock(m); T[tid].in_lk = 0;
    for (int i = 0; i < T[tid].nlocks; i++) if (T[tid].locks[i] == (u64)m) { T[tid].locks[i] = T[tid].locks[--T[tid].nlocks]; break; }
    if (T[tid].held > 0) T[tid].held--;
    if (!rt_forking) yield_point();
    return r;
}

static void on_trap(int sig, siginfo_t *si, void *ucv) {
    (void)sig; (void)si;
    ucontext_t *uc = ucv;
    u64 rip = uc->uc_mcontext.gregs[REG_RIP];
    if (nwopen) {
        while (nwopen) { nwopen--; if (watching) syscall(SYS_mprotect, wopen[nwopen] * PAGE, PAGE, PROT_NONE); }
        if (tid == 0 || T[tid].instr_left < 0) uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
    }
    if (obs || tid == 0) return;
    if (rip < lib_lo || rip >= lib_hi) return;
    struct thr *t = &T[tid];
    t->instr_seen++;
    if (t->instr_left < 0 || (t->unlocked_only == 1 && t->held) || (t->unlocked_only == 2 && !t->held)) return;
    if (t->instr_left == 0) {
        uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
        t->instr_left = -1;
        handoff(2);
        if (t->instr_left >= 0) uc->uc_mcontext.gregs[REG_EFL] |= 0x100L;
        return;
    }
    t->instr_left--;
}
__attribute__((noinline)) void op_begin_step(void) {
    if (tid && sched_on && T[tid].instr_left >= 0)
        __asm__ volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" ::: "memory", "cc");
}
__attribute__((noinline)) void op_end_step(void) {
    if (tid && sched_on)
        __asm__ volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" ::: "memory", "cc");
}
static int phdr_cb(struct dl_phdr_info *i, size_t sz, void *d) {
    (void)sz; (void)d;
    if (i->dlpi_name && strstr(i->dlpi_name, "libhardened_malloc"))
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_flags & PF_X) {
                lib_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                lib_hi = lib_lo + i->dlpi_phdr[k].p_memsz;
            }
    return 0;
}
__attribute__((constructor)) static void setup(void) {
    rt_init();
    resolve();
    dl_iterate_phdr(phdr_cb, NULL);
    static char alt[1 << 16];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, NULL);
    struct sigaction sa = {.sa_sigaction = on_crash, .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER};
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGFPE, &sa, 0);
    struct sigaction st = {.sa_sigaction = on_trap, .sa_flags = SA_SIGINFO};
    sigaction(SIGTRAP, &st, 0);
    signal(SIGALRM, on_alarm);
}

static void *worker(void *a) {
    tid = (int)(long)a;
    struct thr *t = &T[tid];
    stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
    sigaltstack(&ss, NULL);
    for (;;) {
        while (sem_wait(&t->go)) ;
        while (t->qn) {
            t->state = 1;
            char *c = t->q[0];
            memmove(t->q, t->q + 1, sizeof t->q[0] * 15);
            t->qn--;
            g_exec(tid, c);
            free(c);
        }
        t->state = 0;
        sem_post(&to_main);
    }
    return NULL;
}
void sched_start(int n, void (*exec)(int, char *)) {
    g_exec = exec;
    if (!nthr) sem_init(&to_main, 0, 0);
    for (int i = nthr + 1; i <= n; i++) {
        sem_init(&T[i].go, 0, 0);
        pthread_create(&T[i].th, NULL, worker, (void *)(long)i);
    }
    if (n > nthr) nthr = n;
}
void sched_queue(int t, const char *cmd) { if (T[t].qn < 16) T[t].q[T[t].qn++] = strdup(cmd); }
int sched_busy(int t) { return T[t].state != 0 || T[t].qn; }
u64 sched_steps(int t) { return T[t].instr_seen; }
void sched_outside(int t, int on) { T[t].unlocked_only = on; }
int sched_run(int t, int sync_budget, int instr_budget) {
    if (!sched_busy(t)) return 0;
    sched_on = 1;
    T[t].sync_left = sync_budget; T[t].instr_left = instr_budget; T[t].instr_seen = 0;
    watch_arm();
    sem_post(&T[t].go);
    while (sem_wait(&to_main)) ;
    return T[t].state == 2 ? 1 : T[t].state == 3 ? 2 : 0;
}
void sched_drain(void) {
    for (int round = 0;; round++) {
        int busy = 0, progress = 0;
        for (int t = 1; t <= nthr; t++) if (sched_busy(t)) {
            busy = 1;
            int r = sched_run(t, -1, -1);
            if (r != 2) progress = 1;
        }
        if (!busy) break;
        if (!progress) rt_die("deadlock");
    }
    sched_on = 0;
}
