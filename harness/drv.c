// Script driver: one command per line on stdin, ndJson events through rt.c.
#define _GNU_SOURCE
#include "rt.h"
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

void *h_malloc(size_t); void *h_calloc(size_t, size_t); void *h_realloc(void *, size_t); void *h_aligned_alloc(size_t, size_t);
void *h_memalign(size_t, size_t); int h_posix_memalign(void **, size_t, size_t); void *h_valloc(size_t); void *h_pvalloc(size_t);
void h_free(void *); void h_free_sized(void *, size_t); size_t h_malloc_usable_size(void *); size_t h_malloc_object_size(const void *);
size_t h_malloc_object_size_fast(const void *); int h_malloc_trim(size_t); int h_malloc_info(int, FILE *); struct mallinfo2 h_mallinfo2(void);
void h_cfree(void *) __attribute__((weak)); void h_free_aligned_sized(void *, size_t, size_t) __attribute__((weak)); int h_mallopt(int, int); void h_malloc_stats(void);

void *cxx_new(int, size_t, size_t, int, int, const char *, int, int *) __attribute__((weak)); void cxx_delete(int, void *, size_t, size_t) __attribute__((weak));

#ifdef ANDROIDAPI
size_t h_mallinfo_narenas(void); size_t h_mallinfo_nbins(void); struct mallinfo h_mallinfo_arena_info(size_t); struct mallinfo h_mallinfo_bin_info(size_t, size_t);
void h_malloc_disable(void); void h_malloc_enable(void);
#define h_valloc(n) h_memalign(4096, n)
void *h_pvalloc(size_t n) { size_t m = (n + 4095) & ~4095ULL; if (!m) { errno = ENOMEM; return NULL; } return h_memalign(4096, m); }
#endif

#include "mte.h"
#define MAXID 70000
typedef uint32_t u32_t;
#define PAGE 4096ULL
#define ENO 77
struct blk { char *p; u64 us, serial, rq, al; int st; /* 0 none 1 live 2 freed */ };
static struct blk B[MAXID];
static u64 serial_ctr;
static int has_canary, threaded;
// the usable size a request is entitled to, for calls made while other threads may hold locks
static u64 entitled(u64 rq, u64 al) {
    static const u32_t cls[] = {16, 32, 48, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 640, 768, 896, 1024, 1280, 1536, 1792, 2048, 2560, 3072, 3584, 4096, 5120, 6144, 7168, 8192,
        10240, 12288, 14336, 16384, 20480, 24576, 28672, 32768, 40960, 49152, 57344, 65536, 81920, 98304, 114688, 131072};
    u64 can = has_canary ? 8 : 0, max = cls[NCLASS - 2], sz = rq && rq <= max ? rq + can : rq;
    if (sz <= max && al <= 4096) {
        if (!sz && al <= 16) return 0;
        for (int i = 0; i < NCLASS - 1; i++) if (cls[i] >= sz && (al <= 16 || cls[i] % al == 0)) return cls[i] - can;
    }
    u64 v = sz < 4096 ? 4096 : sz;
#if LARGECLS
    int b = 63 - __builtin_clzll(v - 1); u64 step = 1ULL << (b - 2);
    return (v + step - 1) / step * step;
#endif
    return (v + 4095) / 4096 * 4096;
}
static u64 cap30(u64 v) { return v > 0x3fffffff ? 0x3fffffff : v; }

// ------------------------------------------------------------ patterns
static u64 pw(u64 serial, u64 i) { u64 z = serial * 0x9E3779B97F4A7C15ULL + i * 0xBF58476D1CE4E5B9ULL + 0x1234567; z ^= z >> 29; z *= 0x94D049BB133111EBULL; z ^= z >> 32; return z | 0x0101010101010101ULL; }
static unsigned char pb(u64 serial, u64 off) { return pw(serial, off / 8) >> (8 * (off % 8)); }
#define BIG (1u << 20)
// for big blocks only the first 64 KiB, the last 8 KiB and the first 16 bytes of every page are written
#define STRIDE(us) ((us) > (64u << 20) ? 1u << 20 : PAGE)
static int covered(u64 us, u64 off) { return us <= BIG || off < 65536 || off >= us - 8192 || off % STRIDE(us) < 16; }
static u64 nextcov(u64 us, u64 off) { if (covered(us, off)) return off; u64 n = (off / STRIDE(us) + 1) * STRIDE(us); return n < us - 8192 ? n : us - 8192; }
static void fill(struct blk *b, u64 us) {
    for (u64 o = 0; o < us;) {
        if (!covered(us, o)) { o = nextcov(us, o); continue; }
        if (us - o >= 8 && o % 8 == 0) { u64 v = pw(b->serial, o / 8); memcpy(b->p + o, &v, 8); o += 8; }
        else { b->p[o] = pb(b->serial, o); o++; }
    }
}
// first mismatch below n of memory q holding the pattern of a block of size us; n if none
static u64 match(const char *q, u64 serial, u64 us, u64 n) {
    for (u64 o = 0; o < n;) {
        if (!covered(us, o)) { o = nextcov(us, o); continue; }
        if (n - o >= 8 && o % 8 == 0) {
            u64 v = pw(serial, o / 8), w; memcpy(&w, q + o, 8);
            if (v == w) { o += 8; continue; }
        }
        if ((unsigned char)q[o] != pb(serial, o)) return o;
        o++;
    }
    return n;
}
static long firstnz(const char *q, u64 n) {
    u64 o = 0;
    for (; o + 8 <= n; o += 8) { u64 w; memcpy(&w, q + o, 8); if (w) break; if (n > 64 * BIG && o > BIG && o + 2 * BIG < n && o % PAGE == 8) o += (n > 64 * BIG ? BIG : PAGE) - 16; }
    for (; o < n; o++) if (q[o]) return (long)cap30(o);
    return -1;
}

static int tz(const void *p) { u64 v = (u64)p; return v ? __builtin_ctzll(v) : 64; }
static void canary(const char *p, u64 us, int s, int *c0, int *h1, int *h2) {
    *c0 = -1; *h1 = *h2 = 0;
    if (!has_canary || s < 0 || us == 0) return;
    u64 a = (u64)p + us;
    if (range_prot(a, a + 8) < 1) return;
    u64 v; memcpy(&v, p + us, 8);
    *c0 = v & 0xff; *h1 = (v >> 8) & 0xfffffff; *h2 = v >> 36;
}
static void pos(char *out, const void *p) { int s, pg, b; coord(p, &s, &pg, &b); sprintf(out, "\"s\":%d,\"pg\":%d,\"b\":%d", s, pg, b); }

// ------------------------------------------------------------ operations
static void describe(char *o, char *p, u64 us) { // position, alignment, access, guards, zero, canary
    int s, pg, b, c0, h1, h2; coord(p, &s, &pg, &b);
    canary(p, us, s, &c0, &h1, &h2);
    u64 e = ((u64)p + us + PAGE - 1) / PAGE * PAGE;
    int acc = us ? range_prot((u64)p, (u64)p + us) : range_prot_max((u64)p, (u64)p + 1);
    sprintf(o, "\"s\":%d,\"pg\":%d,\"b\":%d,\"tz\":%d,\"us\":%d,\"usp\":%d,\"acc\":%d,\"gl\":%d,\"gr\":%d,\"c0\":%d,\"h1\":%d,\"h2\":%d", s, pg, b, tz(p), (int)cap30(us), (int)cap30((us + PAGE - 1) / PAGE), acc,
        s < 0 ? run_none((u64)p, -1) : -1, s < 0 ? run_none(e, 1) : -1, c0, h1, h2);
}
#define NOPOS "\"s\":-3,\"pg\":0,\"b\":0,\"tz\":0,\"us\":0,\"usp\":0,\"acc\":0,\"gl\":0,\"gr\":0,\"c0\":-1,\"h1\":0,\"h2\":0"

static void rqs(char *o, u64 rq, u64 al, int imp, int bal) {
    sprintf(o, "\"rq\":%d,\"rqp\":%d,\"al\":%d,\"imp\":%d,\"bal\":%d", (int)cap30(rq), (int)cap30(rq / PAGE + (rq % PAGE != 0)), al ? __builtin_ctzll(al) : 0, imp, bal);
}
static int impossible(u64 rq, u64 al) { u64 t; return rq > (1ULL << 47) || __builtin_add_overflow(rq, al > PAGE ? al : 0, &t) || t > (1ULL << 47); }

#define CANB (has_canary ? 8 : 0)
#ifdef MTE
#define MTF ",\"tg\":%d,\"mt\":%d,\"mo\":%d,\"mf\":%d,\"zt\":%s"
#define MTA(tag, p, us, op, ous) , tag, mt_mem((u64)(p), (us) ? (us) + CANB : 0), mt_mem((u64)(op), (ous) ? (ous) + CANB : 0), mt_faults, mt_ops()
#else
#define MTF
#define MTA(tag, p, us, op, ous)
#endif
static void begin(const char *k, long id) { mt_begin(); if (tid) lg("{\"e\":\"b\",\"t\":%d,\"k\":\"%s\",\"id\":%ld}\n", tid, k, id); }

static void after_alloc(const char *k, long id, char *p, u64 rq, u64 al, int imp, int bal, int er, int ret) {
    char d[400], r[160];
    obs++;
    rqs(r, rq, al, imp || impossible(rq, al), bal);
    long z = -2; u64 us = 0; int tag = mt_lasttag; (void)tag;
    if (p) {
        us = tid ? entitled(rq, al) : h_malloc_usable_size(p);
        describe(d, p, us);
        if (us && range_prot((u64)p, (u64)p + us) == 2) z = firstnz(p, us); else if (!us) z = -1;
    } else strcpy(d, NOPOS);
    lg("{\"e\":\"al\",\"t\":%d,\"k\":\"%s\",\"id\":%ld,%s,\"ok\":%d,\"ret\":%d,\"er\":%d,%s,\"z\":%ld,\"seal\":%d" MTF "}\n", tid, k, id, r, p != NULL, ret, er, d, z, seal_state() MTA(tag, p, us, p, us));
    struct blk *b = &B[id];
    if (p) {
        b->p = p; b->us = us; b->rq = rq; b->al = al; b->st = 1; b->serial = __sync_add_and_fetch(&serial_ctr, 1);
        if (us && range_prot((u64)p, (u64)p + us) == 2) fill(b, us);
    } else { b->p = NULL; b->st = 0; }
    obs--;
}
static int badalign(u64 al, u64 min) { return al < min || (al & (al - 1)); }

static void do_alloc(const char *k, long id, u64 a1, u64 a2) { // a1: alignment or count
    void *p = NULL; u64 rq = a2, al = 0; int imp = 0, bal = 0, ret = 0, er;
    begin(k, id);
    errno = ENO;
    op_begin_step();
    if (!strcmp(k, "malloc")) p = h_malloc(a2);
    else if (!strcmp(k, "calloc")) p = h_calloc(a1, a2);
    else if (!strcmp(k, "memalign")) p = h_memalign(a1, a2);
    else if (!strcmp(k, "aligned_alloc")) p = h_aligned_alloc(a1, a2);
    else if (!strcmp(k, "valloc")) p = h_valloc(a2);
    else if (!strcmp(k, "pvalloc")) p = h_pvalloc(a2);
    else if (!strcmp(k, "realloc")) p = h_realloc(NULL, a2);
    else if (!strcmp(k, "posix_memalign")) {
        void *out = (void *)0x5a5a5a5a5a50; errno = ENO;
        ret = h_posix_memalign(&out, a1, a2);
        if (!ret) p = out; else if (out != (void *)0x5a5a5a5a5a50) ret = 9999;
    }
    er = errno;
    op_end_step();
    if (!strcmp(k, "calloc")) { if (__builtin_mul_overflow(a1, a2, &rq)) { imp = 1; rq = ~0ULL; } }
    else if (!strcmp(k, "memalign") || !strcmp(k, "aligned_alloc")) { bal = badalign(a1, 1); al = a1; }
    else if (!strcmp(k, "posix_memalign")) { bal = badalign(a1, 8); al = a1; }
    else if (!strcmp(k, "valloc")) al = PAGE;
    else if (!strcmp(k, "pvalloc")) { al = PAGE; rq = (a2 + PAGE - 1) & ~(PAGE - 1); if (!rq) { imp = 1; rq = a2 ? ~0ULL : 0; } }
    if (bal) al = 0;
    after_alloc(k, id, p, rq, al, imp, bal, er, ret);
}
static int clamp_prot(const char *p, u64 us) { return us ? range_prot((u64)p, (u64)p + us) : 0; }
static void do_new(int form, long id, u64 size, u64 al, int handler, int at, const char *script) {
    int out = 9, imp = impossible(size, form & 4 ? al : 0);
    errno = ENO;
    char *p = cxx_new(form, size, al, handler, at, script, imp, &out);
    after_alloc("new", id, p, size, form & 4 ? al : 0, imp, 0, ENO, out);
}
static int is_large(const void *p) { int a, b, c; coord(p, &a, &b, &c); return a == -1; }
static void do_free(const char *k, long id, u64 sz) {
    struct blk *b = &B[id], o = *b;
    if (b->st != 1) return;
    begin(k, id);
    b->st = 2;
    errno = ENO;
    op_begin_step();
    if (k[0] == 'd') cxx_delete((int)sz, o.p, o.rq, o.al);
    else if (!strcmp(k, "free")) h_free(o.p);
    else if (!strcmp(k, "cfree")) { if (h_cfree) mt_cfree(o.p); else h_free(o.p); }
    else if (sz == ~0ULL && o.al > 16) { if (h_free_aligned_sized) mt_fas(o.p, o.al, o.rq); else h_free(o.p); }
    else h_free_sized(o.p, sz == ~0ULL ? o.rq : sz);
    int er = errno;
    op_end_step();
    obs++;
    long oz = -2; int ax = -1;
    if (!tid) {
        ax = o.us ? range_prot_max((u64)o.p, (u64)o.p + o.us) : -1;
        if (o.us && clamp_prot(o.p, o.us) == 2) oz = firstnz(o.p, o.us);
    }
    lg("{\"e\":\"fr\",\"t\":%d,\"k\":\"%s\",\"id\":%ld,\"er\":%d,\"ol\":%d,\"ax\":%d,\"oz\":%ld,\"seal\":%d" MTF "}\n", tid, k[0] == 'd' && k[1] == 's' ? "sized" : k, id, er, is_large(o.p), ax, oz, seal_state() MTA(0, o.p, o.us, o.p, o.us));
    obs--;
}
static void do_delete(long id, int form) { do_free(form & 2 ? "dsized" : "delete", id, form); }
static void do_realloc(long id, u64 sz) {
    struct blk *b = &B[id], o = *b;
    if (b->st != 1) return;
    begin("realloc", id);
    b->st = 2;
    errno = ENO;
    op_begin_step();
    char *p = h_realloc(o.p, sz);
    int er = errno;
    op_end_step();
    obs++;
    char d[400], r[160];
    rqs(r, sz, 0, impossible(sz, 0), 0);
    long oz = -2, z2 = -1; int ax = -1; u64 us = 0, want = 0, pre = 0; int tag = mt_lasttag; (void)tag;
    if (p) {
        us = tid ? entitled(sz, 0) : h_malloc_usable_size(p);
        describe(d, p, us);
        want = o.us < sz ? o.us : sz;
        u64 lim = want < us ? want : us;
        pre = clamp_prot(p, lim) >= 1 ? match(p, o.serial, o.us, lim) : 0;
        u64 keep = o.us < us ? o.us : us; if (p != o.p && us > keep && clamp_prot(p, us) >= 1) z2 = firstnz(p + keep, us - keep);
        if (p != o.p && !tid) {
            ax = o.us ? range_prot_max((u64)o.p, (u64)o.p + o.us) : -1;
            if (o.us && clamp_prot(o.p, o.us) == 2) oz = firstnz(o.p, o.us);
        } else if (p == o.p && !tid && us < o.us) {
            char *cut = p + (us + PAGE - 1) / PAGE * PAGE; u64 len = p + (o.us + PAGE - 1) / PAGE * PAGE - cut;
            ax = range_prot_max((u64)cut, (u64)cut + len);
            if (len && clamp_prot(cut, len) == 2) oz = firstnz(cut, len);
        }
    } else strcpy(d, NOPOS);
    lg("{\"e\":\"re\",\"t\":%d,\"k\":\"realloc\",\"id\":%ld,%s,\"ok\":%d,\"er\":%d,%s,\"mv\":%d,\"want\":%d,\"pre\":%d,\"z2\":%ld,\"ol\":%d,\"ax\":%d,\"oz\":%ld,\"seal\":%d" MTF "}\n", tid, id, r, p != NULL, er, d, p != o.p,
        (int)cap30(want), (int)cap30(pre), z2, is_large(o.p), ax, oz, seal_state() MTA(tag, p, us, o.p, o.us));
    b->st = 1;
    if (p) {
        b->p = p; b->us = us; b->rq = sz; b->al = 0; b->serial = __sync_add_and_fetch(&serial_ctr, 1);
        if (us && clamp_prot(p, us) == 2) fill(b, us);
    }
    obs--;
}
static void audit_one(long id) {
    struct blk *b = &B[id];
    if (b->st != 1) return;
    char d[400];
    obs++;
    mt_begin();     u64 m = b->us && clamp_prot(b->p, b->us) >= 1 ? match(b->p, b->serial, b->us, b->us) : b->us ? 0 : b->us;
    u64 us = h_malloc_usable_size(b->p);
    describe(d, b->p, b->us);
    lg("{\"e\":\"au\",\"t\":%d,\"id\":%ld,\"bad\":%ld,\"qus\":%d,%s,\"seal\":%d" MTF "}\n", tid, id, m == b->us ? -1L : (long)cap30(m), (int)cap30(us), d, seal_state() MTA(0, b->p, b->us, b->p, b->us));
    obs--;
}
static int maxid;
static void audit(void) { for (int i = 0; i <= maxid; i++) audit_one(i); }

static long num(const char *x, const char *tag, u64 *v) { const char *q = strstr(x, tag); if (!q) return 0; *v = strtoull(q + strlen(tag), 0, 10); return q - x + strlen(tag); }
#ifdef ANDROIDAPI
static unsigned ntrim;
static int zero_mi(struct mallinfo m) { static struct mallinfo z; return !memcmp(&m, &z, sizeof z); }
static void do_stats(void) {
    errno = ENO;
    size_t na = h_mallinfo_narenas(), nb = h_mallinfo_nbins(); u64 large = 0; int have = 0;
    int z = zero_mi(h_mallinfo_arena_info(na)) && zero_mi(h_mallinfo_arena_info(~0UL)) && zero_mi(h_mallinfo_bin_info(0, nb)) && zero_mi(h_mallinfo_bin_info(na - 1, 0));
    lg("{\"e\":\"st0\",\"t\":%d,\"ret\":%d,\"bad\":-1,\"eb\":22,\"empty\":%d,\"seal\":%d}\n", tid, z && na == NARENA + 1 && nb == NCLASS ? 0 : -1, 0, seal_state());
    for (size_t a = 0; a < na; a++) {
        struct mallinfo m = h_mallinfo_arena_info(a); int seal = seal_state();
        if (a < NARENA) lg("{\"e\":\"sa\",\"t\":%d,\"ar\":%d,\"hp\":%d,\"hb\":%d,\"al\":%d,\"o\":%d,\"seal\":%d}\n", tid, (int)a, (int)((unsigned)m.hblkhd / PAGE), (int)((unsigned)m.hblkhd % PAGE), (int)cap30((unsigned)m.fsmblks), m.arena | m.ordblks | m.smblks | m.hblks | m.usmblks | m.uordblks | m.fordblks | m.keepcost, seal);
        else if (m.hblkhd || m.uordblks || 1) { large = (unsigned)m.uordblks; have = m.hblkhd == m.uordblks ? 1 + (int)a : -1; }
        for (size_t b = 0; a < NARENA && b < nb; b++) {
            m = h_mallinfo_bin_info(a, b); seal = seal_state();
            if (m.uordblks || m.fordblks || m.ordblks || seal == 0)
                lg("{\"e\":\"sb\",\"t\":%d,\"s\":%d,\"size\":-1,\"nm\":%d,\"nd\":%d,\"sap\":-1,\"sab\":%d,\"al\":%d,\"seal\":%d}\n", tid, (int)(a * NCLASS + b), m.uordblks, m.fordblks, m.arena | m.smblks | m.hblks | m.hblkhd | m.usmblks | m.fsmblks | m.keepcost, m.ordblks, seal);
        }
    }
    struct mallinfo2 mi = h_mallinfo2();
    lg("{\"e\":\"st1\",\"t\":%d,\"have\":%d,\"lp\":%d,\"lb\":%d,\"hp\":%d,\"hb\":%d,\"up\":%d,\"ub\":%d,\"fp\":%d,\"fb\":%d,\"mp\":%d,\"mb\":%d,\"ar\":%d}\n", tid, have,
       (int)cap30(large / PAGE), (int)(large % PAGE), (int)cap30(mi.hblkhd / PAGE), (int)(mi.hblkhd % PAGE), (int)cap30(mi.uordblks / PAGE), (int)(mi.uordblks % PAGE),
       (int)cap30(mi.fordblks / PAGE), (int)(mi.fordblks % PAGE), (int)cap30(mi.usmblks / PAGE), (int)(mi.usmblks % PAGE), (int)cap30(mi.arena + mi.ordblks + mi.smblks + mi.hblks + mi.fsmblks + mi.keepcost));
}
#else
static void do_stats(void) {
    static char buf[1 << 16]; char out[3600]; int n = 0;
    memset(buf, 0, sizeof buf);
    FILE *f = fmemopen(buf, sizeof buf - 1, "w");
    errno = ENO;
    int r = h_malloc_info(0, f);
    int r1 = h_malloc_info(1, f); int er1 = errno;
    fclose(f);
    struct mallinfo2 mi = h_mallinfo2();
    // full text goes to the events in chunks: one event per bin
    lg("{\"e\":\"st0\",\"t\":%d,\"ret\":%d,\"bad\":%d,\"eb\":%d,\"empty\":%d,\"seal\":%d}\n", tid, r, r1, er1, !strcmp(buf, "<malloc version=\"hardened_malloc-1\"></malloc>"), seal_state());
    char *x = buf, *h; u64 large = 0; int have = 0; (void)out; (void)n;
    while ((h = strstr(x, "<heap nr=\""))) {
        u64 arena = strtoull(h + 10, 0, 10);
        char *end = strstr(h, "</heap>");
        if (!end) break;
        *end = 0;
        char *q = h;
        while ((q = strstr(q, "<bin nr=\""))) {
            u64 cls = 0, sz = 0, nm = 0, nd = 0, sa = 0, al = 0;
            cls = strtoull(q + 9, 0, 10);
            num(q, "size=\"", &sz); num(q, "<nmalloc>", &nm); num(q, "<ndalloc>", &nd); num(q, "<slab_allocated>", &sa); num(q, "<allocated>", &al);
            lg("{\"e\":\"sb\",\"s\":%d,\"size\":%d,\"nm\":%d,\"nd\":%d,\"sap\":%d,\"sab\":%d,\"al\":%d}\n", (int)(arena * NCLASS + cls), (int)cap30(sz), (int)cap30(nm), (int)cap30(nd), (int)cap30(sa / PAGE), (int)(sa % PAGE), (int)cap30(al));
            q += 9;
        }
        if (num(h, "<allocated_large>", &large)) have = 1 + (int)cap30(arena);
        x = end + 7;
    }
    lg("{\"e\":\"st1\",\"t\":%d,\"have\":%d,\"lp\":%d,\"lb\":%d,\"hp\":%d,\"hb\":%d,\"up\":%d,\"ub\":%d,\"fp\":%d,\"fb\":%d,\"mp\":%d,\"mb\":%d,\"ar\":%d}\n", tid, have,
       (int)cap30(large / PAGE), (int)(large % PAGE), (int)cap30(mi.hblkhd / PAGE), (int)(mi.hblkhd % PAGE), (int)cap30(mi.uordblks / PAGE), (int)(mi.uordblks % PAGE),
       (int)cap30(mi.fordblks / PAGE), (int)(mi.fordblks % PAGE), (int)cap30(mi.usmblks / PAGE), (int)(mi.usmblks % PAGE), (int)cap30(mi.arena + mi.ordblks + mi.smblks + mi.hblks + mi.fsmblks + mi.keepcost));
}
#endif
static long szv(u64 v) { return v == ~0ULL ? -1 : v > 0x3fffffff ? -2 : (long)v; }
static char *target(char *a, long *id) { // "ID OFF" or "@S PG B" or "!kind"
    static int dummy_data[64]; static char *dummy_stack;
    *id = -1;
    while (*a == ' ') a++;
    if (*a == '@') { int s, pg, b; sscanf(a + 1, "%d %d %d", &s, &pg, &b); return uncoord(s, pg, b); }
    if (*a == '!') {
        char local[256]; dummy_stack = local;
        if (!strncmp(a, "!stack", 6)) return (char *)((u64)dummy_stack & ~15ULL);
        if (!strncmp(a, "!data", 5)) return (char *)(((u64)dummy_data + 15) & ~15ULL);
        if (!strncmp(a, "!heap", 5)) return malloc(64);
        if (!strncmp(a, "!code", 5)) return (char *)((u64)(void *)&target & ~15ULL);
        if (!strncmp(a, "!one", 4)) return (char *)1;
        if (!strncmp(a, "!top", 4)) return (char *)~15ULL;
        if (!strncmp(a, "!null", 5)) return NULL;
        return (char *)0x1000;
    }
    long off = 0; sscanf(a, "%ld %ld", id, &off);
    return *id >= 0 && *id < MAXID && B[*id].p ? B[*id].p + off : NULL;
}
static char *skipargs(char *a, int n) { for (; n > 0; n--) { while (*a == ' ') a++; while (*a && *a != ' ') a++; } while (*a == ' ') a++; return a; }

extern u64 rt_ro_addr;
static void probe(char *a) { // kind target [arg]
    char k[8]; int used; long id; sscanf(a, "%7s%n", k, &used); a += used;
    while (*a == ' ') a++;
    char *p = target(a, &id);
    if (!strcmp(k, "ro")) { p = (char *)rt_ro_addr; }
    char *rest = skipargs(a, *a == '@' ? 3 : *a == '!' ? 1 : 2);
    u64 arg = strtoull(rest, 0, 0);
    pres->out = 9; pres->set = 0; pres->msg[0] = 0; pres->val = 0;
    pid_t pid = _Fork();
    if (pid == 0) {
        in_probe = 1; sched_on = 0;
        alarm(10);
        u64 v = 0;
        if (!strcmp(k, "f")) h_free(p);
        else if (!strcmp(k, "fs")) h_free_sized(p, arg);
        else if (!strcmp(k, "r")) v = (u64)h_realloc(p, arg);
        else if (!strcmp(k, "u")) v = h_malloc_usable_size(p);
        else if (!strcmp(k, "mal")) { fault_set(arg & 127, arg >> 7, 1, 12); char *q = h_malloc(100); if (!q) q = h_malloc(100); if (q) { memset(q, 1, 100); char *z = h_malloc(1 << 20); if (z) *z = 1; h_free(q); h_free(z); v = 1; } }
        else if (!strcmp(k, "o")) v = h_malloc_object_size(p);
        else if (!strcmp(k, "of")) v = h_malloc_object_size_fast(p);
        else if (!strcmp(k, "ld")) v = *(volatile char *)p;
        else if (!strcmp(k, "sto") || !strcmp(k, "ro")) *(volatile char *)p = *(volatile char *)p;
        else if (!strcmp(k, "mw")) { // ID COUNT SIZE
            u64 sz = strtoull(skipargs(a, 2), 0, 0);
            arg = strtoull(skipargs(a, 1), 0, 0);
            for (u64 i = 0; i < arg; i++) { char *q = h_malloc(sz); if (q && q == B[id].p) pres->set = 1; }
        }
        pres->out = 0; pres->val = v;
        _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (pres->out == 9) pres->out = WIFSIGNALED(st) ? 2 : 5;
    char d[80]; pos(d, p);
    if (!strcmp(k, "mw")) { arg = strtoull(skipargs(a, 1), 0, 0) * PAGE; }
    int same = id >= 0 && B[id].p == p;
    lg("{\"e\":\"P\",\"k\":\"%s\",\"id\":%ld,\"same\":%d,\"st\":%d,\"arg\":%d,\"argp\":%d,%s,\"out\":%d,\"v\":%ld,\"msg\":\"%s\",\"null\":%d,\"hit\":%d}\n", k, id, same, id >= 0 ? B[id].st : 0, (int)cap30(arg), (int)cap30(arg / PAGE), d, pres->out, szv(pres->val), pres->msg, p == NULL && strcmp(k, "ro"), pres->set);
}

void rt_child(void);
static void run(char *c);
static void do_fork(char *script) { // commands separated by ';' run in a real fork() child
    extern u64 rnd_stamp(void);
    begin("fork", -1);
    errno = ENO;
    extern _Thread_local int rt_forking;
    rt_forking = 1;
    int *pp = (int *)((char *)pres + 1024);
    pp[0] = 0;
    lg("{\"e\":\"fkb\",\"t\":%d}\n", tid);
    pid_t pid = fork();
    if (pid == 0) {
        rt_child();
        rt_forking = 0;
        lg("{\"e\":\"fork\",\"t\":%d}\n", tid);
        alarm(15);
        char *sv; static char buf[16384]; snprintf(buf, sizeof buf, "%s", script);
        for (char *q = strtok_r(buf, ";", &sv); q; q = strtok_r(NULL, ";", &sv)) run(q);
        lg("{\"e\":\"endchild\",\"t\":%d}\n", tid);
        pp[0] = 1;
        _exit(0);
    }
    rt_forking = 0;
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    lg("{\"e\":\"endfork\",\"t\":%d,\"done\":%d,\"sig\":%d}\n", tid, pp[0], WIFSIGNALED(st) ? WTERMSIG(st) : 0);
}

static void exec_thr(int t, char *cmd) { (void)t; run(cmd); lg("{\"e\":\"q\",\"t\":%d}\n", tid); }

static void run(char *c) {
    char k[32] = ""; u64 a = 0, b = 0, d = 0; int used = 0;
    while (*c == ' ') c++;
    if (sscanf(c, "%31s%n", k, &used) < 1 || k[0] == '#') return;
    char *r = c + used;
    char *e1 = r; a = strtoull(r, &e1, 0); char *e2; b = strtoull(e1, &e2, 0); char *e3; d = strtoull(e2, &e3, 0); char *e4; u64 f = strtoull(e3, &e4, 0); (void)e4;
    if (strlen(k) <= 2 && a < MAXID && (int)a > maxid && strchr("mcrAfxu", k[0])) maxid = a;
    if (!strcmp(k, "m")) do_alloc("malloc", a, 0, b);
    else if (!strcmp(k, "rn")) do_alloc("realloc", a, 0, b);
    else if (!strcmp(k, "c")) do_alloc("calloc", a, b, d);
    else if (!strcmp(k, "A")) do_alloc("memalign", a, b, d);
    else if (!strcmp(k, "Aa")) do_alloc("aligned_alloc", a, b, d);
    else if (!strcmp(k, "Ap")) do_alloc("posix_memalign", a, b, d);
    else if (!strcmp(k, "Av")) do_alloc("valloc", a, 0, b);
    else if (!strcmp(k, "AV")) do_alloc("pvalloc", a, 0, b);
    else if (!strcmp(k, "f")) do_free("free", a, 0);
    else if (!strcmp(k, "fc")) do_free("cfree", a, 0);
    else if (!strcmp(k, "fs")) do_free("sized", a, b);
    else if (!strcmp(k, "nw")) { int fo, hd, at; long id; unsigned long long sz, al; char sc[32]; if (sscanf(r, "%d %ld %llu %llu %d %d %31s", &fo, &id, &sz, &al, &hd, &at, sc) == 7) do_new(fo, id, sz, al, hd, at, sc); else rt_die("bad nw"); }
    else if (!strcmp(k, "dl")) { // id form
        const char *nm = b == 2 || b == 6 || b == 10 || b == 14 ? "sized" : "delete"; (void)nm; do_delete(a, (int)b); }
    else if (!strcmp(k, "dln")) { errno = ENO; cxx_delete((int)a, NULL, 64, 64); lg("{\"e\":\"nul\",\"t\":%d,\"k\":\"delete\",\"v\":0,\"er\":77,\"seal\":%d}\n", tid, seal_state()); }
    else if (!strcmp(k, "fr")) do_free("sized", a, ~0ULL); // with its own request
    else if (!strcmp(k, "r")) do_realloc(a, b);
    else if (!strcmp(k, "a")) audit();
    else if (!strcmp(k, "a1")) audit_one(a);
    else if (!strcmp(k, "t")) { begin("trim", -1); op_begin_step();
#ifdef ANDROIDAPI
        int v = (++ntrim & 1) ? 3 - h_mallopt(-101, 0) : h_malloc_trim(0);
#else
        int v = h_malloc_trim(0);
#endif
        op_end_step(); lg("{\"e\":\"tr\",\"t\":%d,\"ret\":%d,\"seal\":%d}\n", tid, v, seal_state()); }
    else if (!strcmp(k, "st")) { begin("st", -1); obs++; do_stats(); obs--; }
    else if (!strcmp(k, "u")) {
        if (B[a].st == 1) { begin("u", a); errno = ENO; op_begin_step(); u64 v = h_malloc_usable_size(B[a].p); op_end_step(); lg("{\"e\":\"us\",\"t\":%d,\"id\":%d,\"v\":%ld,\"seal\":%d}\n", tid, (int)a, szv(v), seal_state()); }
    } else if (!strcmp(k, "os")) { // id off: object sizes
        if (B[a].st == 1 && (b == 0 || b < B[a].us || b == B[a].us && has_canary)) { begin("os", a); op_begin_step(); u64 v = h_malloc_object_size(B[a].p + b); u64 v2 = h_malloc_object_size_fast(B[a].p + b); op_end_step();
            lg("{\"e\":\"os\",\"t\":%d,\"id\":%d,\"off\":%d,\"v\":%ld,\"vf\":%ld,\"seal\":%d}\n", tid, (int)a, (int)cap30(b), szv(v), szv(v2), seal_state()); }
    } else if (!strcmp(k, "ox")) { // unmanaged / arbitrary target
        long id; char *p = target(r, &id); u64 v = h_malloc_object_size(p), v2 = h_malloc_object_size_fast(p); char ps[80]; pos(ps, p);
        lg("{\"e\":\"ox\",\"t\":%d,%s,\"v\":%ld,\"vf\":%ld,\"null\":%d,\"seal\":%d}\n", tid, ps, szv(v), szv(v2), p == NULL, seal_state());
    } else if (!strcmp(k, "nul")) {
        errno = ENO; h_free(NULL); h_free_sized(NULL, a); u64 v = h_malloc_usable_size(NULL) + h_malloc_object_size(NULL) + h_malloc_object_size_fast(NULL); int er = errno;
        lg("{\"e\":\"nul\",\"t\":%d,\"v\":%ld,\"er\":%d,\"seal\":%d}\n", tid, szv(v), er, seal_state());
    } else if (!strcmp(k, "w")) { // id off len val(0: xor 0x5a): overwrite
        struct blk *x = &B[a]; int done = 0;
        if (x->p && range_prot((u64)x->p + b, (u64)x->p + b + d) == 2) { for (u64 i = 0; i < d; i++) { if (f == 1) x->p[b + i] = 0; else x->p[b + i] ^= 0x5a; } done = 1; }
        char ps[80]; pos(ps, x->p + b);
        lg("{\"e\":\"w\",\"t\":%d,\"id\":%d,\"off\":%d,\"n\":%d,\"v\":%d,\"done\":%d,\"st\":%d,%s}\n", tid, (int)a, (int)b, (int)d, (int)f, done, x->st, ps);
    } else if (!strcmp(k, "P")) probe(r);
    else if (!strcmp(k, "fa")) { fault_set(a, b, (int)d, (int)f); lg("{\"e\":\"fa\",\"mask\":%d,\"cnt\":%d,\"err\":%d}\n", (int)a, (int)d, (int)f); }
    else if (!strcmp(k, "fa0")) { int h = fault_hits(); fault_set(0, 0, 0, 0); lg("{\"e\":\"fa\",\"mask\":0,\"cnt\":%d,\"err\":0}\n", h); }
    else if (!strcmp(k, "pl")) place_at((int)a, b);
    else if (!strcmp(k, "pm")) place_mode((int)a);
    else if (!strcmp(k, "rm")) rnd_mode((int)a);
    else if (!strcmp(k, "burn")) { // size n: unrecorded pairs of calls (the last command of a script); bytes read from the kernel meanwhile
        quiet_log++; u64 r0 = n_rndbytes; obs++;
        for (u64 i = 0; i < b; i++) { void *volatile q = h_malloc(a); h_free(q); }
        obs--; quiet_log--;
        lg("{\"e\":\"burn\",\"n\":%d,\"sz\":%d,\"rnd\":%d}\n", (int)b, (int)a, (int)(n_rndbytes - r0));
    }
    else if (!strcmp(k, "lit")) { // literal event from the script
        while (*r == ' ') r++;
        lg("%s\n", r);
    }
    else if (!strcmp(k, "can")) has_canary = (int)a;
    else if (!strcmp(k, "sys")) tracing_sys = (int)a;
    else if (!strcmp(k, "held")) { extern u64 held_pages(int); lg("{\"e\":\"held\",\"n\":%d,\"rw\":%d}\n", (int)cap30(held_pages(0)), (int)cap30(held_pages(1))); }
    else if (!strcmp(k, "watch")) { extern int watching; watching = (int)a; }
    else if (!strcmp(k, "dep")) { errno = (int)a; }
    else if (!strcmp(k, "thr")) { threaded = 1; sched_start((int)a, exec_thr); }
    else if (!strcmp(k, "q")) { while (*e1 == ' ') e1++; sched_queue((int)a, e1); }
    else if (!strcmp(k, "s")) sched_run((int)a, (int)b, -1);
    else if (!strcmp(k, "i")) { sched_outside((int)a, 0); sched_run((int)a, -1, (int)b); }
    else if (!strcmp(k, "j")) { sched_outside((int)a, 1); sched_run((int)a, -1, (int)b); }
    else if (!strcmp(k, "l")) { sched_outside((int)a, 2); sched_run((int)a, -1, (int)b); }
    else if (!strcmp(k, "g")) sched_run((int)a, -1, -1);
    else if (!strcmp(k, "dr")) { sched_drain(); lg("{\"e\":\"dr\"}\n"); }
    else if (!strcmp(k, "fk")) { if (!tid) { while (*r == ' ') r++; } do_fork(r); }
    else if (!strcmp(k, "free_all")) { for (int i = 0; i <= maxid; i++) if (B[i].st == 1) do_free("free", i, 0); }
    else if (!strcmp(k, "mal0")) { // mallopt, stats stubs
        int v = h_mallopt(1, 1); h_malloc_stats(); lg("{\"e\":\"mo\",\"v\":%d,\"seal\":%d}\n", v, seal_state());
    }
#ifdef ANDROIDAPI
    else if (!strcmp(k, "da")) { // every lock taken and released again
        h_malloc_disable(); int s1 = seal_state(); h_malloc_enable();
        lg("{\"e\":\"mo\",\"v\":0,\"seal\":%d}\n", s1 == 0 ? 0 : seal_state());
    }
#endif
    else rt_die("bad command");
}

int main(void) {
    static char line[16384];
    lg("{\"e\":\"start\",\"seal\":%d}\n", seal_state());
    alarm(100);
    setvbuf(stdin, malloc(1 << 16), _IOFBF, 1 << 16);
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        run(line);
    }
    lg("{\"e\":\"end\",\"seal\":%d}\n", seal_state());
    rt_flush();
    _exit(0);
}
