H="h_malloc.c"
seed("C23-wrap-mask","C23",[(H,'''        for (;;) {
            if (i == slots / U64_WIDTH) {
                masked |= get_mask(slots - i * U64_WIDTH);
            }

            if (masked != ~0UL) {''','''        if (i == slots / U64_WIDTH) {
            masked |= get_mask(slots - i * U64_WIDTH);
        }
        for (;;) {
            if (masked != ~0UL) {''')],'''
int main(void) {
    enum { N = 85 };
    char *p[N * 4];
    for (int round = 0; round < 40; round++) {
        for (int i = 0; i < N * 4; i++) { p[i] = malloc(40); CHECK(p[i]); }
        for (int i = 0; i < N * 4; i++) { size_t o = (uintptr_t)p[i] % 4096; CHECK(o % 48 == 0 && o / 48 < 85); memset(p[i], 1, 40); }
        for (int i = 0; i < N * 4; i++) free(p[i]);
    }
    return 0;
}''',"a class whose slot count is not a multiple of 64, a slab whose first bitmap word is full from the random start on","slots beyond the end of the slab are handed out")

seed("C02-aligned-32","C02",[(H,"if (size <= max_slab_size_class && alignment > min_align) {","if (size <= max_slab_size_class && alignment > min_align * 2) {")],'''
int main(void) {
    for (int round = 0; round < 50; round++)
        for (size_t n = 1; n < 3000; n += 7) { void *(*volatile f)(size_t, size_t) = aligned_alloc; void *volatile p = f(32, n); CHECK(p && (uintptr_t)p % 32 == 0); if (round & 1) free(p); }
    return 0;
}''',"alignment of exactly 32 and a size whose class is not a multiple of 32","block is not aligned as requested")

seed("C03-realloc-rounding","C03",[(H,'''    if (size > max_slab_size_class) {
        size = get_large_size_class(size);
        if (unlikely(!size)) {
            errno = ENOMEM;
            return NULL;
        }
    }

    void *old_orig = old;''','''    if (size > max_slab_size_class) {
        size = get_large_size_class(size);
    }

    void *old_orig = old;''')],'''
int main(void) {
    char *p = malloc(100); CHECK(p); memset(p, 7, 100);
    errno = 0; volatile size_t n = ((size_t)-1) - 4000;
    char *q = realloc(p, n);
    CHECK(q == NULL && errno == ENOMEM);
    for (int i = 0; i < 100; i++) CHECK(p[i] == 7);
    CHECK(malloc_usable_size(p) >= 100);
    free(p);
    return 0;
}''',"realloc to a size whose rounding overflows","realloc succeeds with a zero size block and releases the old one")

seed("C04-calloc-top-class","C04",[(H,"if (!ZERO_ON_FREE && likely(p != NULL) && total_size && total_size <= max_slab_size_class) {","if (!ZERO_ON_FREE && likely(p != NULL) && total_size && total_size < max_slab_size_class) {")],'''
int main(void) {
    size_t n = 131072 - 8;
    for (int r = 0; r < 40; r++) {
        char *p[8];
        for (int i = 0; i < 8; i++) { p[i] = calloc(1, n); CHECK(p[i]); for (size_t j = 0; j < n; j++) if (p[i][j]) { fprintf(stderr, "dirty calloc\\n"); return 1; } memset(p[i], 0x55, n); }
        for (int i = 0; i < 8; i++) free(p[i]);
    }
    return 0;
}''',"configuration without zero on free, calloc of exactly the largest slab size class, a recycled slot","calloc returns memory that still holds old data",cfg="CONFIG_ZERO_ON_FREE=false CONFIG_WRITE_AFTER_FREE_CHECK=false CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH=0 CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH=0")

seed("C05-copies-canary","C05",[(H,'''    if (old_is_small && old_size > 0) {
        old_size -= canary_size;
    }
    size_t copy_size''','''    size_t copy_size''')],'''
int main(void) {
    for (int i = 0; i < 50; i++) {
        char *p = malloc(8); CHECK(p); memset(p, 1, 8);
        char *q = realloc(p, 200); CHECK(q);
        for (int j = 0; j < 8; j++) CHECK(q[j] == 1);
        for (int j = 8; j < 200; j++) CHECK(q[j] == 0);
        free(q);
    }
    return 0;
}''',"realloc of a small block to a larger class","the canary of the old block is copied into the new one, whose memory beyond the old size is not zero")

seed("C06-zero-size-unaligned","C06",[(H,'''    if (unlikely(slot_pointer(size, slab, slot) != p)) {
        fatal_error("invalid unaligned free");
    }''','''    if (likely(!is_zero_size) && unlikely(slot_pointer(size, slab, slot) != p)) {
        fatal_error("invalid unaligned free");
    }''')],'''
int main(void) {
    char *p = malloc(0); CHECK(p);
    CHECK(OP(free(p)) == 0);
    for (int o = 1; o < 16; o++) CHECK(OP(free(p + o)) != 0);
    free(p);
    return 0;
}''',"free of a pointer inside the slot of a zero size block","an invalid free is accepted")

seed("C07-large-smaller-ok","C07",[(H,"if (expected_size && unlikely(size != get_large_size_class(*expected_size))) {","if (expected_size && unlikely(size < get_large_size_class(*expected_size))) {")],'''
int main(void) {
    char *p = malloc(1 << 20); CHECK(p);
    CHECK(OP(free_sized(p, 1 << 20)) == 0);
    CHECK(OP(free_sized(p, 1 << 21)) != 0);
    CHECK(OP(free_sized(p, 200000)) != 0);
    CHECK(OP(free_sized(p, 10)) != 0);
    return 0;
}''',"sized deallocation of a large block with a smaller size","a mismatching size is accepted")

seed("C08-canary-not-renewed","C08",[(H,'''            struct slab_metadata *metadata = c->free_slabs_head;
            set_slab_canary_value(metadata, &c->rng);
''','''            struct slab_metadata *metadata = c->free_slabs_head;
''')],'''
static char *a[4000]; static unsigned long can[4000];
int main(void) {
    /* one slot per page sized slab: every population of a slab draws a new canary */
    size_t n = 131072 - 8; int hits = 0, seen = 0;
    enum { N = 600 };
    static struct { char *p; unsigned long c; } last[N * 3]; int k = 0;
    for (int r = 0; r < 12; r++) {
        static char *b[N];
        for (int i = 0; i < N; i++) {
            b[i] = malloc(n); CHECK(b[i]);
            unsigned long c; memcpy(&c, b[i] + n, 8);
            int j; for (j = 0; j < k; j++) if (last[j].p == b[i]) break;
            if (j < k) { seen++; if (last[j].c == c) hits++; last[j].c = c; }
            else if (k < N * 3) { last[k].p = b[i]; last[k++].c = c; }
        }
        for (int i = 0; i < N; i++) free(b[i]);
    }
    /* a slab that stayed in the cache of empty slabs keeps its value; purged ones must not */
    fprintf(stderr, "seen again %d, same canary %d\\n", seen, hits);
    CHECK(seen > 100 && hits * 4 < seen);
    return 0;
}''',"a slab that was purged and is populated again","the canary value of a slab survives purging")

seed("C09-empty-slab-unchecked","C09",[(H,'''            void *p = slot_pointer(size, slab, slot);
            if (requested_size) {
                write_after_free_check(p, size - canary_size);
                set_canary(metadata, p, size);''','''            void *p = slot_pointer(size, slab, slot);
            if (requested_size) {
                set_canary(metadata, p, size);''')],'''
int main(void) {
    /* the block is the only one of its slab, so that its slab becomes empty and is cached */
    char *p = malloc(20000); CHECK(p);
    int r = OP({ free(p); ((volatile char *)p)[5] = 1; for (int i = 0; i < 40; i++) { char *q = malloc(20000); if (q == p) _exit(77); } });
    CHECK(r != 0);
    return 0;
}''',"slab became empty and stayed in the cache, then its slot is handed out again","a modified freed slot is handed out undetected",
cfg="CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH=0 CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH=0")

seed("C10-queue-short","C10",[(H,"c->quarantine_queue_index = (c->quarantine_queue_index + 1) % slab_quarantine_queue_length;","c->quarantine_queue_index = (c->quarantine_queue_index + 1) % max(slab_quarantine_queue_length - 1, (size_t)1);")],'''
int main(void) {
    /* no random stage: a freed 4096 byte class block must wait for exactly 4 << (17 - 12) = 128 later frees */
    enum { N = 300 }; size_t z = 4000; static char *p[N];
    for (int i = 0; i < N; i++) { p[i] = malloc(z); CHECK(p[i]); }
    for (int i = 0; i < 128; i++) free(p[i]);
    /* nothing can have left the queue */
    static char *q[64]; int reused = 0;
    for (int i = 0; i < 64; i++) { q[i] = malloc(z); for (int j = 0; j < 128; j++) if (q[i] == p[j]) reused++; }
    CHECK(reused == 0);
    return 0;
}''',"a FIFO quarantine of more than one block","blocks leave the quarantine one free too early",
cfg="CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH=0 CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH=4")

seed("C11-quarantine-extent","C11",[(H,"(struct quarantine_info){(char *)p - guard_size, size + guard_size * 2};","(struct quarantine_info){(char *)p - guard_size, size + guard_size};")],'''
static long vm(void) { FILE *f = fopen("/proc/self/statm", "r"); long v = 0; fscanf(f, "%ld", &v); fclose(f); return v; }
int main(void) {
    for (int i = 0; i < 4000; i++) free(malloc(1 << 20));
    long a = vm();
    for (int i = 0; i < 4000; i++) free(malloc(1 << 20));
    long b = vm();
    fprintf(stderr, "pages %ld %ld\\n", a, b);
    CHECK(b - a < 100000);
    return 0;
}''',"large blocks leave the quarantine","the right guard of every quarantined block is leaked")

seed("C13-guard-slab-boundary","C13",[(H,"    if (c->metadata_count_unguarded >= GUARD_SLABS_INTERVAL) {","    if (c->metadata_count_unguarded >= GUARD_SLABS_INTERVAL && c->metadata_count + 1 < c->metadata_allocated) {")],'''
#include <stdint.h>
static int cmp(const void *a, const void *b) { uintptr_t x = *(uintptr_t *)a, y = *(uintptr_t *)b; return x < y ? -1 : x > y; }
int main(void) {
    /* one slot per slab: no two blocks may be in adjacent slabs */
    enum { N = 400 }; static uintptr_t p[N];
    for (int i = 0; i < N; i++) { p[i] = (uintptr_t)malloc(30000); CHECK(p[i]); }
    qsort(p, N, sizeof p[0], cmp);
    for (int i = 1; i < N; i++) CHECK(p[i] - p[i - 1] >= 2 * 32768);
    return 0;
}''',"slab creation that exactly fills the metadata made accessible so far","a guard slab is omitted and the slab after it is used")

seed("C14-stale-tail","C14",[(H,'''            if (c->free_slabs_head == NULL) {
                c->free_slabs_tail = NULL;
            }
''','')],'''
static uintptr_t seen[3000]; static int n;
int main(void) {
    /* repeated waves of one-slot slabs: address space in use must stay bounded because purged slabs are recycled */
    enum { N = 120 }; static char *p[N];
    uintptr_t lo = ~0UL, hi = 0, hi0 = 0;
    for (int w = 0; w < 60; w++) {
        for (int i = 0; i < N; i++) { p[i] = malloc(120000); CHECK(p[i]); if ((uintptr_t)p[i] > hi) hi = (uintptr_t)p[i]; if ((uintptr_t)p[i] < lo) lo = (uintptr_t)p[i]; }
        for (int i = 0; i < N; i++) free(p[i]);
    }
    fprintf(stderr, "span %lu slabs\\n", (hi - lo) / 131072);
    CHECK((hi - lo) / 131072 < 2 * (N + 32 + 16) + 100);
    return 0;
}''',"the list of recyclable slabs runs empty and further slabs are purged afterwards","purged slabs are lost and never used again")

seed("C15-metadata-max","C15",[(H,"    return CLASS_REGION_SIZE / slab_size;","    return REAL_CLASS_REGION_SIZE / slab_size;")],'''
int main(void) {
    /* class region of 16 MiB: 128 slabs of 128 KiB, every other one a guard */
    int n = 0; while (n < 400 && malloc(120000)) n++;
    fprintf(stderr, "%d blocks\\n", n);
    CHECK(n <= 64);
    return 0;
}''',"a size class that exhausts its region","a class region grows beyond its end into the space of the next one",cfg="CONFIG_CLASS_REGION_SIZE=16777216 CONFIG_N_ARENA=1")

seed("C17-shrink-stale-entry","C17",[(H,'''                mutex_lock(&ra->lock);
                struct region_metadata *region = regions_find(old);
                if (unlikely(region == NULL)) {
                    fatal_error("invalid realloc");
                }
                region->size = size;
                stats_large_deallocate(ra, old_size - size);''','''                mutex_lock(&ra->lock);
                ((struct region_metadata *)region)->size = size;
                stats_large_deallocate(ra, old_size - size);''')],'''
static volatile int stop, bad;
static void *w(void *a) {
    unsigned x = (unsigned)(long)a * 7919 + 1;
    while (!stop) {
        x = x * 1103515245 + 12345;
        size_t n = (1 << 20) + (x >> 8) % (1 << 19), m = (600 << 10) + (x >> 12) % 10000;
        char *p = malloc(n); if (!p) continue;
        char *q = realloc(p, m);
        size_t u = malloc_usable_size(q);
        if (u < m || u > m + m / 4 + 4096) { bad = 1; stop = 1; }
        free(q);
    }
    return 0;
}
int main(void) {
    pthread_t t[8];
    for (long i = 0; i < 8; i++) pthread_create(&t[i], 0, w, (void *)i);
    for (int i = 0; i < 80 && !stop; i++) usleep(100000);
    stop = 1;
    for (int i = 0; i < 8; i++) pthread_join(t[i], 0);
    CHECK(!bad);
    return 0;
}''',"another thread inserts or deletes a large block while a large block is shrunk in place","the size of another block's registry entry is overwritten")

seed("C18-reseed-arena0","C18",[(H,'''            mutex_init(&c->lock);
            random_state_init(&c->rng);
        }
    }
    thread_seal_metadata();''','''            mutex_init(&c->lock);
            if (arena == 0) {
                random_state_init(&c->rng);
            }
        }
    }
    thread_seal_metadata();''')],'''
static int run(int *out) { for (int i = 0; i < 24; i++) { char *p = malloc(1000); out[i] = ((uintptr_t)p >> 4) & 0xfff; } return 0; }
static void *other(void *a) {
    int (*buf)[24] = a;
    malloc(1000);
    for (int c = 0; c < 2; c++) { pid_t p = fork(); if (!p) { run(buf[c]); _exit(0); } int st; waitpid(p, &st, 0); }
    return 0;
}
int main(void) {
    int (*buf)[24] = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    malloc(1000);
    pthread_t t; pthread_create(&t, 0, other, buf); pthread_join(t, 0); /* a second thread uses the second arena */
    CHECK(memcmp(buf[0], buf[1], sizeof buf[0]) != 0);
    return 0;
}''',"a thread of an arena other than the first forks twice","the children make the same random choices")

seed("C19-metadata-growth-fails","C19",[(H,'''        if (unlikely(memory_protect_rw_metadata(c->slab_info, allocate * sizeof(struct slab_metadata)))) {
            return NULL;
        }
        c->metadata_allocated = allocate;''','''        c->metadata_allocated = allocate;
        if (unlikely(memory_protect_rw_metadata(c->slab_info, allocate * sizeof(struct slab_metadata)))) {
            return NULL;
        }''')],'''
#include <sys/syscall.h>
static volatile int failing;
int mprotect(void *a, size_t n, int p) { if (failing) { errno = ENOMEM; return -1; } return syscall(SYS_mprotect, a, n, p); }
int main(void) {
    /* every slab creation fails once before it succeeds */
    for (int i = 0; i < 600; i++) {
        failing = 1; errno = 0; char *p = malloc(60000); failing = 0;
        CHECK(p == NULL && errno == ENOMEM);
        p = malloc(60000); CHECK(p); memset(p, 1, 60000);
    }
    return 0;
}''',"making more slab metadata accessible fails once","the allocator uses metadata that is not accessible and crashes")

seed("C20-offset-mask","C20",[(H,"""        void *start = slot_pointer(size_class, slab, slot);
        size_t offset = (const char *)p - (const char *)start;
""","""        size_t offset = (size_t)((const char *)p - (const char *)slab) % size_class;
        if (unlikely(offset >= size_class - canary_size && slot + 1 < get_slots(class))) {
            offset = 0;
        }
""")],"""
int main(void) {
    for (size_t z = 100; z < 5000; z += 333) {
        char *p = malloc(z); CHECK(p); size_t u = malloc_usable_size(p);
        for (size_t o = 0; o <= u; o++) CHECK(malloc_object_size(p + o) == u - o);
    }
    return 0;
}""","malloc_object_size of a pointer to the very end of the usable bytes","the whole size is reported for a pointer with no bytes left")

seed("C21-remap-accounting","C21",[(H,'''                regions_delete(region);
                stats_large_deallocate(ra, old_size);
                mutex_unlock(&ra->lock);

                if (memory_remap_fixed''','''                regions_delete(region);
                mutex_unlock(&ra->lock);

                if (memory_remap_fixed''')],'''
int main(void) {
    struct mallinfo2 a = mallinfo2();
    char *p = malloc(40 << 20); CHECK(p); p = realloc(p, 64 << 20); CHECK(p); free(p);
    struct mallinfo2 b = mallinfo2();
    CHECK(a.uordblks == b.uordblks);
    return 0;
}''',"realloc of a block of at least 32 MiB to a bigger one","the old block stays in the statistics for ever",cfg="CONFIG_STATS=true")

seed("C24-shrink-failure-unsealed","C24",[(H,'''                if (memory_map_fixed(new_end, old_guard_size)) {
                    thread_seal_metadata();
                    return NULL;''','''                if (memory_map_fixed(new_end, old_guard_size)) {
                    return NULL;''')],'''
#include <sys/syscall.h>
static volatile int failing, key = -1;
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (failing && (f & MAP_FIXED)) { errno = ENOMEM; return MAP_FAILED; } return (void *)syscall(SYS_mmap, a, n, p, f, fd, o); }
static volatile unsigned rights;
int pkey_alloc(unsigned f, unsigned r) { key = 1; rights = r; return 1; }
int pkey_set(int k, unsigned r) { rights = r; return 0; }
int pkey_mprotect(void *a, size_t n, int p, int k) { return syscall(SYS_mprotect, a, n, p); }
int main(void) {
    char *p = malloc(1 << 20); CHECK(p); CHECK(rights == PKEY_DISABLE_ACCESS);
    failing = 1; char *q = realloc(p, 600 << 10); failing = 0;
    CHECK(q == NULL && rights == PKEY_DISABLE_ACCESS);
    free(p); CHECK(rights == PKEY_DISABLE_ACCESS);
    return 0;
}''',"sealed metadata, in-place shrink for which the kernel has no memory","the thread keeps access to the allocator state after the call",cfg="CONFIG_SEAL_METADATA=true")

seed("C25-handler-not-reread","C25",[("new.cc",'''COLD static void *handle_out_of_memory(size_t size, bool nothrow) {
    void *ptr = nullptr;

    do {
        std::new_handler handler = std::get_new_handler();
        if (handler == nullptr) {''','''COLD static void *handle_out_of_memory(size_t size, bool nothrow) {
    void *ptr = nullptr;
    std::new_handler handler = std::get_new_handler();

    do {
        if (handler == nullptr) {''')],'''
#include <new>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
static volatile int a, b;
static void second() { b++; std::set_new_handler(nullptr); }
static void first() { a++; if (a > 5) _exit(1); std::set_new_handler(second); }
int main() {
    std::set_new_handler(first);
    volatile size_t n = (size_t)1 << 60; int caught = 0;
    try { void *p = operator new(n); (void)p; } catch (const std::bad_alloc &) { caught = 1; }
    if (a != 1 || b != 1 || !caught) return 1;
    std::set_new_handler(first); a = b = 0;
    void *p = operator new(n, std::nothrow);
    return p || a != 1 || b != 1;
}''',"a new-handler that installs another one","the handler installed by the first handler is not called",cc="g++")

seed("C26-backshift-wrap","C26",[(H,'''            if ((i <= r && r < j) || (r < j && j < i) || (j < i && i <= r)) {''','''            if ((i <= r && r < j) || (r < j && j < i)) {''')],'''
int main(void) {
    enum { N = 95 };
    static char *p[N]; static size_t z[N];
    unsigned x = 12345;
    for (int round = 0; round < 60000; round++) {
        x = x * 1103515245 + 12345; int i = (x >> 8) % N;
        if (p[i]) { CHECK(malloc_usable_size(p[i]) == z[i]); free(p[i]); p[i] = 0; }
        else { p[i] = malloc(140000 + (x >> 4) % 400000); CHECK(p[i]); z[i] = malloc_usable_size(p[i]); }
    }
    return 0;
}''',"colliding entries whose probe sequence wraps around index 0","an entry that is where it belongs is moved and its block can no longer be found")

seed("C27-arena-rotation","C27",[(H,"    thread_arena = arena = thread_arena_counter++ % N_ARENA;","    thread_arena = arena = thread_arena_counter++ & (N_ARENA - 1);")],'''
static uintptr_t base; static unsigned long arena[9];
static void *t(void *a) { arena[(long)a] = (uintptr_t)malloc(16); return 0; }
int main(void) {
    /* three arenas of 49 classes with 2 * 1 GiB each */
    unsigned long size = 49UL * 2 * (1UL << 30);
    arena[0] = (uintptr_t)malloc(16);
    for (long i = 1; i < 9; i++) { pthread_t h; pthread_create(&h, 0, t, (void *)i); pthread_join(h, 0); }
    /* arenas are used in rotation: every third thread shares one, neighbours never do */
    for (int i = 0; i + 1 < 9; i++) CHECK(labs((long)(arena[i + 1] - arena[i])) > size / 2);
    for (int i = 0; i + 3 < 9; i++) CHECK(labs((long)(arena[i + 3] - arena[i])) < size / 2);
    return 0;
}''',"a number of arenas that is not a power of two","some arenas are never used",cfg="CONFIG_N_ARENA=3 CONFIG_CLASS_REGION_SIZE=1073741824")

seed("C28-errno-of-purge","C28",[(H,"""            int saved_errno = errno;
            if (!slab_map_fixed(slab, slab_size)) {""","""            if (!slab_map_fixed(slab, slab_size)) {"""),(H,"            memory_purge(slab, slab_size);\n            errno = saved_errno;","            int saved_errno = errno;\n            memory_purge(slab, slab_size);\n            errno = saved_errno;")],'''
#include <sys/syscall.h>
static volatile int failing;
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (failing && (f & MAP_FIXED)) { errno = ENOMEM; return MAP_FAILED; } return (void *)syscall(SYS_mmap, a, n, p, f, fd, o); }
int main(void) {
    enum { N = 200 }; static char *p[N];
    for (int i = 0; i < N; i++) { p[i] = malloc(120000); CHECK(p[i]); }
    failing = 1;
    for (int i = 0; i < N; i++) { errno = 1234; free(p[i]); CHECK(errno == 1234); }
    return 0;
}''',"free empties a slab beyond the cache limit and the kernel refuses to remap it","free changes errno")

seed("C01-shrink-quarantine-extent","C01",[(H,"regions_quarantine_deallocate_pages(new_guard_end, old_size - size, 0);","regions_quarantine_deallocate_pages(new_guard_end, old_size - size + old_guard_size, 0);")],'''
int main(void) {
    /* neighbouring large blocks, every other one shrunk */
    enum { N = 60 }; static char *p[N];
    for (int r = 0; r < 20; r++) {
        for (int i = 0; i < N; i++) { p[i] = malloc(2 << 20); CHECK(p[i]); memset(p[i], 0x41, 2 << 20); }
        for (int i = 0; i < N; i += 2) { p[i] = realloc(p[i], 1 << 20); CHECK(p[i]); }
        for (int i = 0; i < N; i++) for (size_t j = 0; j < (i % 2 ? 2 << 20 : 1 << 20); j += 512) CHECK(p[i][j] == 0x41);
        for (int i = 0; i < N; i++) free(p[i]);
    }
    return 0;
}''',"in-place shrink of a large block with another mapping close behind it","pages of a neighbouring block are replaced")

seed("C12-aligned-tail-guard","C12",[("pages.c","        if (unlikely(memory_unmap((char *)base + usable_size + guard_size, trail_size))) {","        if (unlikely(memory_unmap((char *)base + usable_size + (lead_size ? guard_size : 0), trail_size))) {")],"""
static volatile int seen;
int main(void) {
    for (int r = 0; r < 60; r++) {
        size_t a = 16384; void *(*volatile f)(size_t, size_t) = aligned_alloc; char *volatile p = f(a, 300000); CHECK(p);
        size_t n = malloc_usable_size(p); unsigned char v;
        CHECK(mincore(p - 4096, 4096, &v) == 0);
        CHECK(mincore(p + n, 4096, &v) == 0);      /* still mapped: a guard */
    }
    return 0;
}""","an over-aligned large block for which the kernel's range happens to be aligned, so that only its tail is cut off","the pages behind the block are given back and may be mapped by anyone")

seed("C13-zero-size-recycled","C13",[(H,"            if (requested_size && memory_protect_rw(slab, slab_size)) {\n                mutex_unlock(&c->lock);","            if (memory_protect_rw(slab, slab_size)) {\n                mutex_unlock(&c->lock);")],"""
int main(void) {
    enum { N = 256 * 420 }; static char *p[N]; int fd[2]; CHECK(pipe(fd) == 0);
    for (int r = 0; r < 4; r++) {
        for (int i = 0; i < N; i++) { p[i] = malloc(0); CHECK(p[i]); }
        for (int i = 0; i < N; i += 64) CHECK(write(fd[1], p[i], 1) < 0 && errno == EFAULT);
        for (int i = 0; i < N; i++) free(p[i]);
    }
    return 0;
}""","more zero size blocks freed than the cache and the delay array of their slabs hold, and handed out again","memory of zero size blocks becomes accessible")

seed("C14-trim-result","C14",[(H,"    for (unsigned arena = 0; arena < N_ARENA; arena++) {\n        // skip zero byte","    for (unsigned arena = 0; arena < N_ARENA; arena++) {\n        is_trimmed = false;\n        // skip zero byte")],"""
static void *t(void *a) { void *p[8]; for (int i = 0; i < 8; i++) p[i] = malloc(20000); for (int i = 0; i < 8; i++) free(p[i]); return 0; }
int main(void) {
    /* the first thread's arena has cached slabs, the others have none */
    malloc_trim(0); malloc_trim(0);
    static void *p[30000]; for (int i = 0; i < 30000; i++) p[i] = malloc(40); for (int i = 0; i < 30000; i++) free(p[i]);
    CHECK(malloc_trim(0) == 1);
    CHECK(malloc_trim(0) == 0);
    return 0;
}""","several arenas, cached slabs only in an arena before the last","malloc_trim says that it did nothing")

seed("C15-clamp","C15",[(H,"        if (allocate > metadata_max) {\n            allocate = metadata_max;\n        }\n","")],"""
int main(void) {
    void *(*volatile f)(size_t) = malloc; uintptr_t lo = -1, hi = 0; int n = 0;
    for (;; n++) { uintptr_t p = (uintptr_t)f(32760); if (!p) break; if (p < lo) lo = p; if (p > hi) hi = p; }
    CHECK(n > 100 && errno == ENOMEM);
    CHECK(hi + 32768 - lo <= 33554432);      /* the address range of the class */
    return 0;
}""","a class whose region fills up, with a region size for which doubling the metadata overshoots","a class is given memory beyond its address range",cfg="CONFIG_N_ARENA=1 CONFIG_CLASS_REGION_SIZE=33554432")

seed("C18-large-generator","C18",[(H,"    random_state_init(&ro.region_allocator->rng);\n","")],"""
static void seq(int fd) { uintptr_t v[24]; for (int i = 0; i < 24; i++) { void *(*volatile f)(size_t) = malloc; char *volatile p = f(8 << 20); v[i] = (uintptr_t)p; } write(fd, v, sizeof v); }
int main(void) {
    uintptr_t v[3][24]; void *volatile q = malloc(1 << 20); free(q);
    for (int k = 0; k < 3; k++) { int fd[2]; CHECK(pipe(fd) == 0); pid_t c = fork(); if (!c) { seq(fd[1]); _exit(0); } close(fd[1]); CHECK(read(fd[0], v[k], sizeof v[k]) == sizeof v[k]); waitpid(c, 0, 0); }
    /* the guards put between large blocks are chosen anew in every process */
    for (int a = 0; a < 3; a++) for (int b = 0; b < a; b++) { int same = 0; for (int i = 1; i < 24; i++) same += v[a][i] - v[a][i - 1] == v[b][i] - v[b][i - 1]; CHECK(same < 12); }
    return 0;
}""","two children of one parent that make large allocations","siblings choose the same guard sizes for large blocks")

seed("C19-purged-slab-lost","C19",[(H,"""            void *slab = get_slab(c, slab_size, metadata);
            if (requested_size && memory_protect_rw(slab, slab_size)) {
                mutex_unlock(&c->lock);
                return NULL;
            }

            c->free_slabs_head = c->free_slabs_head->next;
            if (c->free_slabs_head == NULL) {
                c->free_slabs_tail = NULL;
            }
""","""            c->free_slabs_head = c->free_slabs_head->next;
            if (c->free_slabs_head == NULL) {
                c->free_slabs_tail = NULL;
            }

            void *slab = get_slab(c, slab_size, metadata);
            if (requested_size && memory_protect_rw(slab, slab_size)) {
                mutex_unlock(&c->lock);
                return NULL;
            }
""")],"""
#include <sys/syscall.h>
static volatile int failing;
int mprotect(void *a, size_t n, int p) { if (failing && n == 131072) { failing = 0; errno = ENOMEM; return -1; } return syscall(SYS_mprotect, a, n, p); }
int main(void) {
    enum { N = 200 }; static char *p[N]; uintptr_t hi = 0, lo = -1;
    void *(*volatile f)(size_t) = malloc;
    for (int i = 0; i < N; i++) { p[i] = f(131064); CHECK(p[i]); if ((uintptr_t)p[i] > hi) hi = (uintptr_t)p[i]; }
    for (int i = 0; i < N; i++) free(p[i]);
    for (int r = 0; r < 150; r++) {
        failing = 1; char *q = f(131064); failing = 0;
        if (!q) q = f(131064);
        CHECK(q); CHECK((uintptr_t)q <= hi);
    }
    return 0;
}""","making a purged slab accessible again fails","the slab is never used again and the class runs out of its region")

seed("C22-u16-retry-once","C22",[("random.c","        while (leftover < threshold) {\n            random = get_random_u16(state);","        if (leftover < threshold) {\n            random = get_random_u16(state);")],"""
#include "chacha.h"
#include "random.h"
#include "util.h"
static unsigned short feed[128];
void chacha_keysetup(chacha_ctx *x, const u8 *k) { }
void chacha_ivsetup(chacha_ctx *x, const u8 *iv) { }
void chacha_keystream_bytes(chacha_ctx *x, u8 *c, u32 bytes) { memset(c, 0, bytes); memcpy(c, feed, bytes < sizeof feed ? bytes : sizeof feed); }
void fatal_error(const char *s) { _exit(3); }
int main(void) {
    /* raw values that have to be rejected for bound 24000: every one whose product leaves too little behind */
    struct random_state st; random_state_init(&st);
    unsigned thr = 65536 % 24000, r[3], n = 0;
    for (unsigned v = 0; v < 65536 && n < 3; v++) if (((v * 24000u) & 0xffff) < thr) r[n++] = v;
    feed[0] = r[0]; feed[1] = r[1]; feed[2] = r[2]; feed[3] = 777;
    CHECK((((unsigned)777 * 24000u) & 0xffff) >= thr);
    CHECK(get_random_u16_uniform(&st, 24000) == 777u * 24000u >> 16);
    return 0;
}""","two raw values in a row that have to be rejected","bounded draws are biased",flags="-I$PWD -I$PWD/include $PWD/random.c")

seed("C11-moved-guard-leak","C11",[(H,"                    memory_unmap((char *)old + page_align(old_size), old_guard_size);","                    memory_unmap((char *)old + page_align(old_size), min(old_guard_size, (size_t)PAGE_SIZE));")],"""
static size_t vm(void) { FILE *volatile f = fopen("/proc/self/statm", "r"); size_t n = 0; CHECK(f && fscanf(f, "%zu", &n) == 1); fclose(f); return n; }
int main(void) {
    free(malloc(300)); vm(); size_t a = vm();
    void *(*volatile re)(void *, size_t) = realloc;
    for (int i = 0; i < 300; i++) { char *volatile p = malloc(33 << 20); CHECK(p); p = re(p, 41 << 20); CHECK(p); free(p); }
    size_t b = vm();
    CHECK(b < a + (256 << 20) / 4096);
    return 0;
}""","realloc of blocks of at least 32 MiB whose guards are bigger than a page","address space of the old guards is never given back")

seed("C03-failed-aligned-output","C03",[(H,"    *memptr = p;\n    return 0;\n}\n\nstatic size_t adjust_size","    return 0;\n}\n\nstatic size_t adjust_size"),(H,"    void *p = allocate_pages_aligned(size, alignment, guard_size, \"malloc large\");\n    if (unlikely(p == NULL)) {","    void *p = *memptr = allocate_pages_aligned(size, alignment, guard_size, \"malloc large\");\n    if (unlikely(p == NULL)) {")],"""
int main(void) {
    void *(*volatile f)(size_t) = malloc;
    void *keep = f(10), *p = keep;
    volatile size_t big = (size_t)1 << 62;
    CHECK(posix_memalign(&p, 1 << 20, big) == ENOMEM); CHECK(p == keep);
    CHECK(posix_memalign(&p, 24, 100) == EINVAL); CHECK(p == keep);
    CHECK(posix_memalign(&p, 1 << 16, 100) == 0); CHECK(p && p != keep);
    return 0;
}""","posix_memalign with a large alignment and an impossible size","the output pointer is overwritten although the call fails")

seed("C07-extended-sized","C07",[(H,"    if (expected_size && unlikely(size != *expected_size)) {","    if (expected_size && unlikely(size != *expected_size) && (size <= 16384 || size < *expected_size)) {")],"""
int main(void) {
    void *(*volatile f)(size_t) = malloc; void (*volatile g)(void *, size_t) = free_sized;
    for (size_t n = 100; n < 130000; n += 991) { g(f(n), n); }
    CHECK(OP(g(f(100), 200)) == SIGABRT);
    CHECK(OP(g(f(100000), 30000)) == SIGABRT);
    CHECK(OP(g(f(30000), 100)) == SIGABRT);
    CHECK(OP(g(f(20000), 17000)) == 0 || 1);
    return 0;
}""","a small block of an extended size class and a size that is too small","sized deallocation with a wrong size is accepted")

seed("C20-quarantined-interior","C20",[(H,"        if (unlikely(is_quarantine_slot(metadata, slot))) {\n            fatal_error(\"invalid malloc_object_size (quarantine)\");\n        }","        if (unlikely(is_quarantine_slot(metadata, slot) && slot_pointer(size_class, slab, slot) == p)) {\n            fatal_error(\"invalid malloc_object_size (quarantine)\");\n        }")],"""
int main(void) {
    void *(*volatile f)(size_t) = malloc; size_t (*volatile o)(const void *) = malloc_object_size;
    char *volatile p = f(1000); CHECK(o(p + 8) >= 992); 
    free((void *)p);
    CHECK(OP(o(p)) != 0);
    CHECK(OP(o(p + 8)) != 0);
    CHECK(OP(o(p + 999)) != 0);
    return 0;
}""","a pointer into the middle of a block that is in the quarantine","malloc_object_size answers for freed memory")

seed("C26-third-growth","C26",[(H,"    struct region_metadata *p = ra->regions == ro.regions[0] ?\n        ro.regions[1] : ro.regions[0];","    struct region_metadata *p = ra->total == INITIAL_REGION_TABLE_SIZE ?\n        ro.regions[1] : ro.regions[0];")],"""
int main(void) {
    enum { N = 1500 }; static char *p[N]; void *(*volatile f)(size_t) = malloc;
    for (int i = 0; i < N; i++) { p[i] = f(140000 + i % 7 * 40000); CHECK(p[i]); }
    for (int i = 0; i < N; i++) CHECK(malloc_usable_size(p[i]) >= 140000);
    for (int i = 0; i < N; i++) free(p[i]);
    return 0;
}""","a table of large blocks that grows three times","the third growth copies the table into itself")

seed("C16-grown-table-open","C16",[(H,"    if (memory_protect_rw_metadata(p, newsize)) {\n        return 1;","    if (memory_protect_rw_metadata(p, newsize > PAGE_SIZE * 4 ? newsize * 2 : newsize)) {\n        return 1;")],"""
static size_t rw(void) {
    static char b[1 << 20]; size_t t = 0; FILE *volatile f; (void)f;
    int fd = open("/proc/self/maps", 0); size_t n = 0; ssize_t r;
    while ((r = read(fd, b + n, sizeof b - 1 - n)) > 0) n += r;
    close(fd); b[n] = 0;
    for (char *l = b; l && *l; l = strchr(l, 10) ? strchr(l, 10) + 1 : 0) {
        unsigned long x, y; char m[5]; if (sscanf(l, "%lx-%lx %4s", &x, &y, m) == 3 && m[0] == 'r' && m[1] == 'w') t += y - x;
    }
    return t;
}
int main(void) {
    enum { N = 1500 }; static char *p[N]; void *(*volatile f)(size_t) = malloc;
    free(f(200000)); size_t a = rw(), u = 0;
    for (int i = 0; i < N; i++) { p[i] = f(200000); CHECK(p[i]); u += malloc_usable_size(p[i]); }
    size_t b = rw();
    fprintf(stderr, "state grew by %zd\\n", (ssize_t)(b - a - u));
    CHECK(b - a - u <= 2048 * 24 + 8192);
    for (int i = 0; i < N; i++) free(p[i]);
    return 0;
}""","a table of large blocks that has grown beyond a few pages","allocator state that is not in use is accessible",flags="-include fcntl.h")

seed("C17-eviction-outside-lock","C17",[(H,"""    struct quarantine_info queue_substitute = ra->quarantine_queue[ra->quarantine_queue_index];
    ra->quarantine_queue[ra->quarantine_queue_index] = target;
    ra->quarantine_queue_index = (ra->quarantine_queue_index + 1) % REGION_QUARANTINE_QUEUE_LENGTH;
    target = queue_substitute;
#endif

    mutex_unlock(&ra->lock);

    if (target.p != NULL) {
        memory_unmap(target.p, target.size);
    }
""","""    size_t slot = ra->quarantine_queue_index;
    struct quarantine_info queue_substitute = ra->quarantine_queue[slot];
    mutex_unlock(&ra->lock);
    // make room in the queue without holding up other threads
    if (queue_substitute.p != NULL) {
        memory_unmap(queue_substitute.p, queue_substitute.size);
    }
    mutex_lock(&ra->lock);
    ra->quarantine_queue[slot] = target;
    ra->quarantine_queue_index = (slot + 1) % REGION_QUARANTINE_QUEUE_LENGTH;
    mutex_unlock(&ra->lock);
#else
    mutex_unlock(&ra->lock);

    if (target.p != NULL) {
        memory_unmap(target.p, target.size);
    }
#endif
""")],"""
#include <semaphore.h>
#include <sys/syscall.h>
static volatile int rec, hold; static void *addr[1000]; static volatile int n; static sem_t at, go; static __thread int first;
int munmap(void *p, size_t z) {
    if (rec) {
        addr[n++] = p;
        if (first) { first = 0; sem_post(&at); sem_wait(&go); }
    }
    return syscall(SYS_munmap, p, z);
}
static void *a(void *x) { first = 1; free(x); sem_post(&at); return 0; }
int main(void) {
    void *(*volatile f)(size_t) = malloc; static void *p[6000];
    sem_init(&at, 0, 0); sem_init(&go, 0, 0);
    for (int i = 0; i < 6000; i++) p[i] = f(200000);
    for (int i = 0; i < 5000; i++) free(p[i]);       /* both parts of the quarantine are full */
    pthread_t t; pthread_create(&t, 0, a, p[5001]);
    rec = 1;
    sem_wait(&at);                                   /* the other thread is about to unmap what it evicted */
    for (int i = 5002; i < 5010; i++) free(p[i]);
    sem_post(&go); pthread_join(t, 0);
    rec = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) CHECK(addr[i] != addr[j]);
    return 0;
}""","a second thread frees a large block while the first one unmaps the block it evicted","the same range is unmapped twice and a quarantined one is forgotten")
