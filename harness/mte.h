// Memory tagging emulation of the drivers (-DMTE): the tags of the slab region's memory, kept per 16 bytes, and the
// tag of the pointer last returned for an address.  The rest of the driver works with untagged pointers.
#ifdef MTE
static __thread void *mt_tmp;
static __thread int mt_lasttag;
void *mt_out(void *p), *mt_in(const void *p);
static void *mt_ret(void *p) { mt_lasttag = ((u64)p >> 56) & 0xff; return mt_out(p); }
static int mt_pm(void **out, size_t a, size_t s) { int r = (h_posix_memalign)(out, a, s); if (!r) *out = mt_ret(*out); return r; }
#define h_malloc(n) mt_ret((h_malloc)(n))
#define h_calloc(m, n) mt_ret((h_calloc)(m, n))
#define h_realloc(p, n) mt_ret((h_realloc)(mt_in(p), n))
#define h_aligned_alloc(a, n) mt_ret((h_aligned_alloc)(a, n))
#define h_memalign(a, n) mt_ret((h_memalign)(a, n))
#define h_valloc(n) mt_ret((h_valloc)(n))
#define h_pvalloc(n) mt_ret((h_pvalloc)(n))
#define h_posix_memalign(o, a, s) mt_pm(o, a, s)
#define h_free(p) (h_free)(mt_in(p))
#define h_free_sized(p, n) (h_free_sized)(mt_in(p), n)
#define h_malloc_usable_size(p) (h_malloc_usable_size)(mt_in(p))
#define h_malloc_object_size(p) (h_malloc_object_size)(mt_in(p))
#define h_malloc_object_size_fast(p) (h_malloc_object_size_fast)(mt_in(p))
#define mt_cfree(p) (h_cfree)(mt_in(p))
#define mt_fas(p, a, n) (h_free_aligned_sized)(mt_in(p), a, n)
#else
#define mt_cfree(p) h_cfree(p)
#define mt_fas(p, a, n) h_free_aligned_sized(p, a, n)
#define mt_lasttag 0
#endif
int mt_mem(u64 a, u64 n);             // the tag all of [a, a+n) carries; -1: several
const char *mt_ops(void);             // tagging operations since the last call, as a list; wrong accesses
void mt_begin(void);
extern __thread int mt_faults;
