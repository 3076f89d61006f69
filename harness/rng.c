// Unit driver of the random generators: built together with random.c, util.c and either chacha.c (keystream mode) or
// a stand-in that feeds chosen raw values (-DFEED, uniformity mode).  getrandom is interposed.
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include "random.h"

static unsigned char seedbuf[1 << 16];
static size_t nseed;
static volatile int mode;          // 0 whole, 1 short and interrupted, 2 fails, 3 nothing read
static unsigned long ncall;
static unsigned long long x = 88172645463325252ULL;
static unsigned long long rnd(void) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
static unsigned long long y = 0x9e3779b97f4a7c15ULL;   // the "operating system"
static unsigned char osbyte(void) { y ^= y << 13; y ^= y >> 7; y ^= y << 17; return y >> 32; }

ssize_t getrandom(void *p, size_t n, unsigned flags) {
    ncall++;
    if (mode == 2) { errno = EIO; return -1; }
    if (mode == 3) return 0;
    if (mode == 1) {
        if (rnd() % 3 == 0) { errno = EINTR; return -1; }
        if (n > 1) n = 1 + rnd() % (rnd() % 2 ? n : 3 < n ? 3 : n);
    }
    for (size_t i = 0; i < n; i++) {
        unsigned char b = osbyte();
        ((unsigned char *)p)[i] = b;
        if (nseed < sizeof seedbuf) seedbuf[nseed++] = b;
    }
    return n;
}

static void put(const char *name, const unsigned char *b, size_t n) {
    printf("\"%s\":[", name);
    for (size_t i = 0; i < n; i++) printf("%s%u", i ? "," : "", b[i]);
    printf("]");
}

#define NG 6
static struct random_state *g[NG];

#ifndef FEED
static void draw(int i, int kind, size_t n) {
    unsigned char out[4096];
    nseed = 0;
    if (kind == 0) { u16 v = get_random_u16(g[i]); memcpy(out, &v, 2); n = 2; }
    else if (kind == 1) { u64 v = get_random_u64(g[i]); memcpy(out, &v, 8); n = 8; }
    else get_random_bytes(g[i], out, n);
    printf("{\"e\":\"draw\",\"g\":%d,", i);
    put("out", out, n); printf(","); put("seed", seedbuf, nseed); printf("}\n");
}
static void init(int i) {
    nseed = 0;
    memset(g[i], 0xa5, sizeof *g[i]);
    random_state_init(g[i]);
    printf("{\"e\":\"init\",\"g\":%d,", i); put("seed", seedbuf, nseed); printf("}\n");
}
// many draws, until a seed is read: the draw that read it is reported as a whole
static void bulk(int i, int kind, size_t n) {
    unsigned long long out = 0;
    unsigned char buf[256];
    nseed = 0;
    while (!nseed && out < (1u << 21)) {
        int k = kind < 3 ? kind : rnd() % 3; size_t m;
        if (k == 0) { u16 v = get_random_u16(g[i]); memcpy(buf, &v, 2); m = 2; }
        else if (k == 1) { u64 v = get_random_u64(g[i]); memcpy(buf, &v, 8); m = 8; }
        else { m = kind < 3 ? n : 1 + rnd() % n; get_random_bytes(g[i], buf, m); }
        if (!nseed) out += m;
        else {
            printf("{\"e\":\"bulk\",\"g\":%d,\"gap\":%llu}\n{\"e\":\"draw\",\"g\":%d,", i, out, i);
            put("out", buf, m); printf(","); put("seed", seedbuf, nseed); printf("}\n");
            return;
        }
    }
    printf("{\"e\":\"bulk\",\"g\":%d,\"gap\":%llu}\n", i, out);
}
static int cmp(const void *a, const void *b) { u64 p = *(u64 *)a, q = *(u64 *)b; return p < q ? -1 : p > q; }
// words under one seed: how many occur twice
static void words(int i) {
    static u64 w[40000]; size_t n = 0, dup = 0;
    init(i);
    nseed = 0;
    while (n < 32768) { w[n] = get_random_u64(g[i]); if (nseed) break; n++; }
    qsort(w, n, 8, cmp);
    for (size_t k = 1; k < n; k++) dup += w[k] == w[k - 1];
    printf("{\"e\":\"words\",\"g\":%d,\"n\":%zu,\"dup\":%zu}\n", i, n, dup);
}
// draws of 128 bytes that are not reported, within one seed; no byte is skipped
static void skip(int i, size_t n) {
    unsigned char b[128];
    nseed = 0;
    for (size_t k = 0; k < n / 128; k++) get_random_bytes(g[i], b, 128);
    printf("{\"e\":\"skip\",\"g\":%d,\"n\":%zu,", i, n / 128 * 128); put("seed", seedbuf, nseed); printf("}\n");
}
static void from(int i, int s) {
    unsigned char out[16];
    nseed = 0;
    memset(g[i], 0x5a, sizeof *g[i]);
    random_state_init_from_random_state(g[i], g[s]);
    size_t k = nseed;
    get_random_bytes(g[i], out, 16);
    printf("{\"e\":\"from\",\"g\":%d,\"s\":%d,", i, s);
    put("out", out, 16); printf(","); put("seed", seedbuf, nseed); printf("}\n");
}
// a child whose seed cannot be read: out 1 if it died of the allocator's own fatal error
static void seedfail(int i, int m, int how) {
    int pi[2];
    fflush(stdout);
    if (pipe(pi)) exit(3);
    pid_t c = fork();
    if (!c) {
        dup2(pi[1], 2);
        mode = m;
        alarm(20);
        if (how == 0) random_state_init(g[i]);
        else for (int k = 0; k < 300000; k++) get_random_u16(g[i]);
        _exit(0);
    }
    close(pi[1]);
    char b[512]; size_t n = 0; ssize_t r;
    while (n < sizeof b - 1 && (r = read(pi[0], b + n, sizeof b - 1 - n)) > 0) n += r;
    b[n] = 0;
    close(pi[0]);
    int st; waitpid(c, &st, 0);
    printf("{\"e\":\"seedfail\",\"g\":%d,\"mode\":%d,\"how\":%d,\"out\":%d}\n", i, m, how,
           WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && strstr(b, "fatal allocator error") ? 1 : 0);
}
int main(int argc, char **argv) {
    unsigned long long seed = strtoull(argv[1], 0, 10); int n = atoi(argv[2]), big = atoi(argv[3]);
    x ^= seed * 0x2545f4914f6cdd1dULL; y ^= seed * 0xd1342543de82ef95ULL;
    for (int i = 0; i < 20; i++) { rnd(); osbyte(); }
    setvbuf(stdout, 0, _IOLBF, 0);
    for (int i = 0; i < NG; i++) g[i] = malloc(sizeof *g[i]);
    init(0); mode = 1; init(1); mode = 0;
    from(2, 0); from(3, 0);
    for (int k = 0; k < n; k++) {
        int i = rnd() % 4, r = rnd() % 100;
        mode = rnd() % 2;
        if (r < 35) draw(i, 0, 0);
        else if (r < 70) draw(i, 1, 0);
        else if (r < 93) draw(i, 2, rnd() % 3 ? 1 + rnd() % 17 : 1 + rnd() % 128);
        else if (r < 96) draw(i, 2, i < 2 ? 64 * (3 + rnd() % 4) : 129 + rnd() % 250);   // the rest of a block is lost
        else if (r < 97) init(rnd() % 2);
        else if (r < 98) from(2 + rnd() % 2, rnd() % 2);
        else { int c = rnd() % 40; for (int q = 0; q < c; q++) draw(i, rnd() % 2, 0); }
    }
    for (int k = 0; k < big; k++) {
        mode = rnd() % 2;
        bulk(k % 4, k % 4, k < 4 ? 128 : 1 + rnd() % 128);
        for (int q = 0; q < 12; q++) draw(k % 4, rnd() % 3, 1 + rnd() % 60);
        bulk(k % 4, rnd() % 4, 1 + rnd() % 128);
        for (int q = 0; q < 8; q++) draw(k % 4, rnd() % 3, 1 + rnd() % 60);
    }
    for (int k = 0; k < 2; k++) {
        words(5); init(5);
        skip(5, rnd() % 131072); draw(5, 2, 1 + rnd() % 128);
        init(5);
        skip(5, 131072 + rnd() % 130000); draw(5, 0, 0); draw(5, 1, 0); draw(5, 2, 1 + rnd() % 128); draw(5, 2, 128);
    }
    mode = 0; init(4);
    for (int m = 2; m < 4; m++) for (int h = 0; h < 2; h++) seedfail(4, m, h);
    printf("{\"e\":\"end\"}\n");
    return 0;
}
#else
// raw values are fed through a stand-in for the keystream
static unsigned char feed[512];
void chacha_keysetup(chacha_ctx *c, const u8 *k) {}
void chacha_ivsetup(chacha_ctx *c, const u8 *v) {}
void chacha_keystream_bytes(chacha_ctx *c, u8 *o, u32 n) { for (u32 i = 0; i < n; i++) o[i] = feed[i % sizeof feed]; }

static void u16_bound(unsigned b) {
    static unsigned cnt[65536];
    unsigned lo = ~0u, hi = 0, outside = 0, redraw = 0, rej = 0, sent = 0;
    memset(cnt, 0, sizeof cnt);
    u16 *f = (u16 *)feed;
    static struct random_state *s;
    if (!s) s = malloc(sizeof *s);
    // a value the rule accepts
    for (int i = 0; i < 64; i++) {
        sent = i == 0 ? 0xffff : i == 1 ? 0x8000 : i == 2 ? 1 : rnd() & 0xffff;
        f[0] = sent; f[1] = sent ^ 0x1111; f[2] = sent ^ 0x2222; f[3] = sent ^ 0x4444; f[4] = sent ^ 0x8888;
        random_state_init(s);
        get_random_u16_uniform(s, b);
        if (get_random_u16(s) == f[1]) break;
    }
    for (unsigned v = 0; v < 65536; v++) {
        f[0] = f[1] = f[2] = v;
        f[3] = sent; f[4] = 0x1234; f[5] = 0x4321; f[6] = 0xffff; f[7] = 0x7fff;
        random_state_init(s);
        u16 r = get_random_u16_uniform(s, b);
        u16 n1 = get_random_u16(s), n2 = get_random_u16(s);
        if (r >= b) { outside++; continue; }
        // one value taken: the next two are v, v; all of them rejected: four were taken
        if (n1 == 0x1234 && n2 == 0x4321) { if (v == sent) redraw++; else rej++; }
        else if (n1 == v && n2 == v) cnt[r]++;
        else redraw++;
    }
    for (unsigned k = 0; k < b; k++) { if (cnt[k] < lo) lo = cnt[k]; if (cnt[k] > hi) hi = cnt[k]; }
    printf("{\"e\":\"u16\",\"bound\":%u,\"lo\":%u,\"hi\":%u,\"rej\":%u,\"outside\":%u,\"redraw\":%u}\n", b, lo, hi, rej, outside, redraw);
}

static struct random_state *s6;
static u64 sent64;
// outcome of a single raw value: accepted (1), rejected (0), inconsistent (-1)
static int try64(u64 raw, u64 b, u64 *out) {
    u64 *f = (u64 *)feed;
    f[0] = f[1] = f[2] = raw; f[3] = sent64;
    f[4] = 0x0123456789abcdefULL; f[5] = 0xfedcba9876543210ULL;
    random_state_init(s6);
    u64 r = get_random_u64_uniform(s6, b);
    u64 n1 = get_random_u64(s6), n2 = get_random_u64(s6);
    *out = r;
    if (n1 == 0x0123456789abcdefULL && n2 == 0xfedcba9876543210ULL) return raw == sent64 ? -1 : 0;
    if (n1 == raw && n2 == raw) return 1;
    return -1;
}
// first accepted value at or after raw; false if there is none near
static int next_ok(u64 *raw, u64 b, u64 *out, int *bad) {
    for (int i = 0; i < 6; i++) {
        int t = try64(*raw, b, out);
        if (t < 0) { *bad = 1; return 0; }
        if (t == 1) { if (*out >= b) *bad = 2; return 1; }
        if (*raw == ~0ULL) return 0;
        ++*raw;
    }
    return 0;
}
// first value whose result is at least k (results grow with the value); mono = 0 if this does not work out
static u64 first_of(u64 k, u64 b, int *bad, int *mono) {
    u64 lo = 0, hi = ~0ULL, o;
    while (lo < hi) {
        u64 m = lo + (hi - lo) / 2, r = m;
        if (!next_ok(&r, b, &o, bad)) { if (r != ~0ULL) { *mono = 0; return 0; } hi = m; continue; }
        if (o >= k) hi = m; else { lo = r + 1; }
    }
    u64 r = lo;
    if (!next_ok(&r, b, &o, bad)) *mono = 0;
    else if (o != k) *mono = o > k ? 2 : 0;
    return r;
}
static void u64_bound(u64 b) {
    s6 = s6 ? s6 : malloc(sizeof *s6);
    int bad = 0, mono = 1;
    for (int i = 0; i < 64; i++) {     // a value the rule accepts
        u64 *f = (u64 *)feed;
        sent64 = i == 0 ? ~0ULL : i == 1 ? 1ULL << 63 : i == 2 ? 1 : rnd();
        for (int q = 0; q < 8; q++) f[q] = sent64 ^ q * 0x1111111111111111ULL;
        random_state_init(s6);
        get_random_u64_uniform(s6, b);
        if (get_random_u64(s6) == f[1]) break;
    }
    u64 ks[8]; int nk = 0;
    ks[nk++] = 0; if (b > 1) ks[nk++] = b - 1; if (b > 2) ks[nk++] = 1; if (b > 3) ks[nk++] = b / 2; if (b > 9) { ks[nk++] = b - 2; ks[nk++] = 2 + rnd() % (b - 4); ks[nk++] = 2 + rnd() % (b - 4); }
    printf("{\"e\":\"u64\",\"bound\":\"%llu\",\"cnt\":[", (unsigned long long)b);
    u64 c[8];
    int none = 0;
    for (int i = 0; i < nk && !bad && mono; i++) {
        int m1 = 1, m2 = 1;
        u64 f = first_of(ks[i], b, &bad, &m1), e = 0, rejd = 0, o;
        if (m1 == 2) none = 1;     // a result that never occurs
        int last = ks[i] == b - 1;
        if (!last) { e = first_of(ks[i] + 1, b, &bad, &m2); if (m2 == 2) none = 1; }
        if (!m1 || !m2) { mono = 0; break; }
        // rejected values lie at the ends of the run of values for a result
        for (u64 q = last ? 0 : e, j = 0; j < 6; j++) { q--; if (q < f) break; int t = try64(q, b, &o); if (t < 0) bad = 1; if (t == 0) rejd++; }
        if ((last ? 0 - f : e - f) > 16) for (u64 q = f, j = 0; j < 6; j++, q++) { int t = try64(q, b, &o); if (t < 0) bad = 1; if (t == 0) rejd++; }
        // random values in between are accepted, with this result
        for (int j = 0; j < 6 && !bad; j++) {
            u64 w = (last ? 0 : e) - f; if (w <= 16) break;
            u64 q = f + 6 + rnd() % (w - 12); int t = try64(q, b, &o);
            if (t < 0) bad = 1; else if (t == 1 && o != ks[i]) mono = 0; else if (t == 0) mono = 0;
        }
        if (rejd > 3) mono = 0;
        c[i] = (last ? 0 : e) - f - rejd;
    }
    if (mono && !bad) for (int i = 0; i < nk; i++) printf("%s[%llu,%llu,%llu]", i ? "," : "", (unsigned long long)(c[i] >> 44), (unsigned long long)(c[i] >> 22 & 0x3fffff), (unsigned long long)(c[i] & 0x3fffff));
    printf("],\"outside\":%d,\"redraw\":%d,\"mono\":%d,\"none\":%d}\n", bad == 2, bad == 1, mono, none);
}
int main(int argc, char **argv) {
    unsigned long long seed = strtoull(argv[1], 0, 10);
    unsigned lo = atoi(argv[2]), hi = atoi(argv[3]), step = atoi(argv[4]); int n64 = atoi(argv[5]);
    x ^= seed * 0x2545f4914f6cdd1dULL;
    setvbuf(stdout, 0, _IOLBF, 0);
    for (int i = 0; i < 20; i++) rnd();
    for (unsigned b = lo; b <= hi; b += step) u16_bound(b);
    if (n64) {
        for (u64 b = 1; b <= 70; b++) u64_bound(b);
        for (int s = 6; s < 64; s++) for (int d = -1; d <= 1; d++) u64_bound((1ULL << s) + d);
        u64_bound(~0ULL); u64_bound(~0ULL - 1); u64_bound(3ULL << 62); u64_bound(~0ULL / 3); u64_bound(~0ULL / 3 + 1); u64_bound(~0ULL / 3 * 2);
        for (int i = 0; i < n64; i++) u64_bound(1 + (rnd() >> (rnd() % 63)));
    }
    printf("{\"e\":\"end\"}\n");
    return 0;
}
#endif
