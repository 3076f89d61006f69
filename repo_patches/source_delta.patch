From 77eda0689c74a37301575bac345529a309a7290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 01/17] fix: malloc_object_size of zero size allocations

The slab size of the zero size class was calculated as 0, so the slab and slot
of a pointer were wrong beyond the first slab: the bitmap was read out of
bounds and valid pointers were reported as invalid.
---
 h_malloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 15be0a2..c029fa6 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1801,6 +1801,9 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         struct slab_size_class_info size_class_info = slab_size_class(p);
         size_t class = size_class_info.class;
         size_t size_class = size_classes[class];
+        if (unlikely(size_class == 0)) {
+            size_class = 16;
+        }
         struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];
 
         mutex_lock(&c->lock);
-- 
2.43.0


From 5959c9ace9324b0d46936b36ee83ca91d98db3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 02/17] fix: realloc of over-aligned large allocations within
 slab sizes

An allocation with an alignment above the page size is always a large one, but
its size can be at most max_slab_size_class. realloc treated it as a slab
allocation when it had to move it: its last 8 bytes were not copied and it was
passed to deallocate_small, which accessed memory out of bounds.
---
 h_malloc.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index c029fa6..3c82635 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1520,7 +1520,8 @@ EXPORT void *h_realloc(void *old, size_t size) {
     old = untag_pointer(old);
 
     size_t old_size;
-    if (old < get_slab_region_end() && old >= ro.slab_region_start) {
+    bool old_is_small = old < get_slab_region_end() && old >= ro.slab_region_start;
+    if (old_is_small) {
         old_size = slab_usable_size(old);
         if (size <= max_slab_size_class && get_size_info(size).size == old_size) {
             return old_orig;
@@ -1632,12 +1633,15 @@ EXPORT void *h_realloc(void *old, size_t size) {
         thread_seal_metadata();
         return NULL;
     }
-    size_t copy_size = min(size, old_size);
-    if (copy_size > 0 && copy_size <= max_slab_size_class) {
-        copy_size -= canary_size;
+    if (size > 0 && size <= max_slab_size_class) {
+        size -= canary_size;
     }
+    if (old_is_small && old_size > 0) {
+        old_size -= canary_size;
+    }
+    size_t copy_size = min(size, old_size);
     memcpy(new, old_orig, copy_size);
-    if (old_size <= max_slab_size_class) {
+    if (old_is_small) {
         deallocate_small(old, NULL);
     } else {
         deallocate_large(old, NULL);
-- 
2.43.0


From be3ee2b9f5b2d4413cb798ba302db401308cdffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 03/17] fix: count over-aligned large allocations in the
 statistics

Freeing them was counted, so the number of allocated bytes wrapped around.
---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index 3c82635..f514edb 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1438,6 +1438,7 @@ static int allocate_aligned(unsigned arena, void **memptr, size_t alignment, siz
         deallocate_pages(p, size, guard_size);
         return ENOMEM;
     }
+    stats_large_allocate(ra, size);
     mutex_unlock(&ra->lock);
 
     *memptr = p;
-- 
2.43.0


From af0ae3450551771c1cdb1f5b63f568a206d8449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 04/17] fix: support an empty free slabs quarantine

A length of 0 is allowed but wrote the slab beyond the empty array, over the
state of the random number generator.
---
 h_malloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index f514edb..5f13acd 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -277,7 +277,9 @@ struct __attribute__((aligned(CACHELINE_SIZE))) size_class {
     // FIFO singly-linked list
     struct slab_metadata *free_slabs_head;
     struct slab_metadata *free_slabs_tail;
+#if FREE_SLABS_QUARANTINE_RANDOM_LENGTH > 0
     struct slab_metadata *free_slabs_quarantine[FREE_SLABS_QUARANTINE_RANDOM_LENGTH];
+#endif
 
 #if CONFIG_STATS
     u64 nmalloc; // may wrap (per jemalloc API)
@@ -750,6 +752,7 @@ static size_t slab_usable_size(const void *p) {
 static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metadata) {
     metadata->next = NULL;
 
+#if FREE_SLABS_QUARANTINE_RANDOM_LENGTH > 0
     static_assert(FREE_SLABS_QUARANTINE_RANDOM_LENGTH < (u16)-1, "free slabs quarantine too large");
     size_t index = get_random_u16_uniform(&c->rng, FREE_SLABS_QUARANTINE_RANDOM_LENGTH);
     struct slab_metadata *substitute = c->free_slabs_quarantine[index];
@@ -758,6 +761,9 @@ static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metada
     if (substitute == NULL) {
         return;
     }
+#else
+    struct slab_metadata *substitute = metadata;
+#endif
 
     if (c->free_slabs_tail != NULL) {
         c->free_slabs_tail->next = substitute;
-- 
2.43.0


From eff8aefc1734f515c3cfc6c7eb94dd1eb3b70031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 05/17] fix: use the whole slab quarantine random array when it
 is large

With a configured length of 8 or more and extended size classes the array
length of the smallest size class no longer fits in 16 bits, so the bound was
truncated and only a part of the array (for 8, a single slot) was used.
---
 h_malloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 5f13acd..44b7fa6 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -835,7 +835,7 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 #if SLAB_QUARANTINE_RANDOM_LENGTH > 0
     size_t slab_quarantine_random_length = SLAB_QUARANTINE_RANDOM_LENGTH << quarantine_shift;
 
-    size_t random_index = get_random_u16_uniform(&c->rng, slab_quarantine_random_length);
+    size_t random_index = get_random_u64_uniform(&c->rng, slab_quarantine_random_length);
     void *random_substitute = c->quarantine_random[random_index];
     c->quarantine_random[random_index] = p;
 
-- 
2.43.0


From 7aacb3d10a9e3e152422932e07db797ff915a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 06/17] fix: malloc_info with sealed metadata and a stream that
 allocates

Writing to the stream can call the allocator, which seals the metadata when it
returns: malloc_info then accessed it without access rights. The metadata was
also accessible to the functions of custom streams.
---
 h_malloc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 44b7fa6..7ff13d4 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2021,20 +2021,21 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
 
 #if CONFIG_STATS
     if (likely(is_init())) {
-        thread_unseal_metadata();
-
         for (unsigned arena = 0; arena < N_ARENA; arena++) {
             fprintf(fp, "<heap nr=\"%u\">", arena);
 
             for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
                 struct size_class *c = &ro.size_class_metadata[arena][class];
 
+                // sealed again before writing to fp since stdio may call the allocator
+                thread_unseal_metadata();
                 mutex_lock(&c->lock);
                 u64 nmalloc = c->nmalloc;
                 u64 ndalloc = c->ndalloc;
                 size_t slab_allocated = c->slab_allocated;
                 size_t allocated = c->allocated;
                 mutex_unlock(&c->lock);
+                thread_seal_metadata();
 
                 if (nmalloc || ndalloc || slab_allocated || allocated) {
                     fprintf(fp, "<bin nr=\"%u\" size=\"%" PRIu32 "\">"
@@ -2050,16 +2051,16 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
             fputs("</heap>", fp);
         }
 
+        thread_unseal_metadata();
         struct region_allocator *ra = ro.region_allocator;
         mutex_lock(&ra->lock);
         size_t region_allocated = ra->allocated;
         mutex_unlock(&ra->lock);
+        thread_seal_metadata();
 
         fprintf(fp, "<heap nr=\"%u\">"
                 "<allocated_large>%zu</allocated_large>"
                 "</heap>", N_ARENA, region_allocated);
-
-        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0


From 20ecae248272006eb6b34ef7746059f05f5a43b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:04 +0000
Subject: [PATCH 07/17] fix: clear the old region table if replacing its
 mapping fails

Otherwise its entries were still there when the table grew again and it was
reused: freed allocations were found again and entries were duplicated.
---
 h_malloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 7ff13d4..4d920d6 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1053,7 +1053,10 @@ static int regions_grow(void) {
         }
     }
 
-    memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata));
+    if (unlikely(memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata)))) {
+        // it must be empty when it is used again
+        memory_purge(ra->regions, ra->total * sizeof(struct region_metadata));
+    }
     memory_set_name(ra->regions, ra->total * sizeof(struct region_metadata), "malloc allocator_state");
     ra->free = ra->free + ra->total;
     ra->total = newtotal;
-- 
2.43.0


From 0a961791784b10698ecaba1b4a3f0518e188a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 08/17] fix: do not unmap the lead of an aligned allocation
 twice

If unmapping the trail failed, the whole range was unmapped again including
the lead, which is no longer owned by the allocator.
---
 pages.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pages.c b/pages.c
index 27558de..761370b 100644
--- a/pages.c
+++ b/pages.c
@@ -73,7 +73,8 @@ void *allocate_pages_aligned(size_t usable_size, size_t alignment, size_t guard_
 
     if (trail_size) {
         if (unlikely(memory_unmap((char *)base + usable_size + guard_size, trail_size))) {
-            memory_unmap(real, real_alloc_size);
+            // the lead may already be in use by someone else
+            memory_unmap((char *)base - guard_size, usable_size + guard_size * 2 + trail_size);
             return NULL;
         }
     }
-- 
2.43.0


From eb5d7b2aaa76118142c187b0ab5d36d9a31c8a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 09/17] fix: set errno when the region table has reached its
 maximum size

---
 h_malloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 4d920d6..6e62b05 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1024,6 +1024,7 @@ static int regions_grow(void) {
     struct region_allocator *ra = ro.region_allocator;
 
     if (ra->total > SIZE_MAX / sizeof(struct region_metadata) / 2) {
+        errno = ENOMEM;
         return 1;
     }
 
@@ -1032,6 +1033,7 @@ static int regions_grow(void) {
     size_t mask = newtotal - 1;
 
     if (newtotal > MAX_REGION_TABLE_SIZE) {
+        errno = ENOMEM;
         return 1;
     }
 
-- 
2.43.0


From b641a49a8eec1eb3152302a7a222ee5d4534d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 10/17] fix: rejection of biased values in
 get_random_u16_uniform

Due to integer promotion -bound was a negative int, so the threshold was always
0 and no value was ever rejected: the results were not uniform for bounds other
than powers of 2.
---
 random.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/random.c b/random.c
index 8883531..838591b 100644
--- a/random.c
+++ b/random.c
@@ -90,7 +90,8 @@ u16 get_random_u16_uniform(struct random_state *state, u16 bound) {
     u32 multiresult = random * bound;
     u16 leftover = multiresult;
     if (leftover < bound) {
-        u16 threshold = -bound % bound;
+        // the operands are promoted to int so -bound has to be converted back
+        u16 threshold = (u16)-bound % bound;
         while (leftover < threshold) {
             random = get_random_u16(state);
             multiresult = random * bound;
-- 
2.43.0


From a97e99d626b1bfc82d624d9a8fc4a3332502b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 11/17] fix: sized deallocation of over-aligned C++ allocations

The size class of a small allocation depends on its alignment, which was
ignored when checking the size: deleting e.g. a 64 byte object with 64 byte
alignment was reported as a sized deallocation mismatch.
---
 h_malloc.c         | 9 +++++++++
 include/h_malloc.h | 5 +++++
 new.cc             | 8 ++++----
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 6e62b05..0da8b17 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1735,6 +1735,15 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
     thread_seal_metadata();
 }
 
+EXPORT void h_free_aligned_sized(void *p, size_t alignment, size_t expected_size) {
+    size_t size = adjust_size_for_canary(expected_size);
+    if (alignment > min_align && alignment <= PAGE_SIZE && size <= max_slab_size_class) {
+        // use the same size class as an aligned allocation
+        expected_size = get_size_info_align(size, alignment).size - canary_size;
+    }
+    h_free_sized(p, expected_size);
+}
+
 static inline void memory_corruption_check_small(const void *p) {
     struct slab_size_class_info size_class_info = slab_size_class(p);
     size_t class = size_class_info.class;
diff --git a/include/h_malloc.h b/include/h_malloc.h
index 0eee395..08df913 100644
--- a/include/h_malloc.h
+++ b/include/h_malloc.h
@@ -45,6 +45,7 @@ extern "C" {
 #define h_malloc_object_size malloc_object_size
 #define h_malloc_object_size_fast malloc_object_size_fast
 #define h_free_sized free_sized
+#define h_free_aligned_sized free_aligned_sized
 #endif
 
 // C standard
@@ -122,6 +123,10 @@ size_t h_malloc_object_size_fast(const void *ptr);
 // passed size matches the allocated size.
 void h_free_sized(void *ptr, size_t expected_size);
 
+// The same for allocations made with an alignment: the alignment and size passed
+// are those requested at allocation time.
+void h_free_aligned_sized(void *ptr, size_t alignment, size_t expected_size);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/new.cc b/new.cc
index 165e19e..4f80ab7 100644
--- a/new.cc
+++ b/new.cc
@@ -144,10 +144,10 @@ EXPORT void operator delete[](void *ptr, std::align_val_t, const std::nothrow_t
     h_free(ptr);
 }
 
-EXPORT void operator delete(void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete(void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
 
-EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
-- 
2.43.0


From 0344866c76b11151a45b0ea749e2c59f9b029544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 12/17] fix: reject unrepresentable sizes in free_sized of zero
 size allocations

Rounding up to the size class overflowed to 0, which matched.
---
 h_malloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 0da8b17..4d4b5d9 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1724,6 +1724,9 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
 
     if (p < get_slab_region_end() && p >= ro.slab_region_start) {
         thread_unseal_metadata();
+        if (unlikely(expected_size > max_slab_size_class)) {
+            fatal_error("sized deallocation mismatch (small)");
+        }
         expected_size = get_size_info(expected_size).size;
         deallocate_small(p, &expected_size);
         thread_seal_metadata();
-- 
2.43.0


From e3cdbce79b42bce45e9aef5b80029f139860899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 13/17] fix: zero size allocations with large alignments
 without large size classes

Rounding 0 up to the page size gives 0, which was reported as out of memory.
---
 h_malloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 4d4b5d9..f1e14c8 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1345,7 +1345,7 @@ static size_t get_large_size_class(size_t size) {
         // etc.
         return get_size_info(max(size, (size_t)PAGE_SIZE)).size;
     }
-    return page_align(size);
+    return page_align(max(size, (size_t)1));
 }
 
 static size_t get_guard_size(struct random_state *state, size_t size) {
-- 
2.43.0


From a2a9f48081b1b9c1364ced93569ea946ae971db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:36 +0000
Subject: [PATCH 14/17] fix: untag pointers passed to malloc_object_size and
 malloc_object_size_fast

---
 h_malloc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index f1e14c8..51f2d56 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1817,11 +1817,13 @@ EXPORT size_t h_malloc_usable_size(H_MALLOC_USABLE_SIZE_CONST void *arg) {
     return size;
 }
 
-EXPORT size_t h_malloc_object_size(const void *p) {
-    if (p == NULL) {
+EXPORT size_t h_malloc_object_size(const void *arg) {
+    if (arg == NULL) {
         return 0;
     }
 
+    const void *p = untag_const_pointer(arg);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         thread_unseal_metadata();
@@ -1877,11 +1879,13 @@ EXPORT size_t h_malloc_object_size(const void *p) {
     return size;
 }
 
-EXPORT size_t h_malloc_object_size_fast(const void *p) {
-    if (p == NULL) {
+EXPORT size_t h_malloc_object_size_fast(const void *arg) {
+    if (arg == NULL) {
         return 0;
     }
 
+    const void *p = untag_const_pointer(arg);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         size_t size = slab_usable_size(p);
-- 
2.43.0


From ca620306cc7ba1d9a73975b1a1772cbc3f78ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:52 +0000
Subject: [PATCH 15/17] fix: keep PROT_MTE when purging slabs with memory
 tagging

---
 h_malloc.c | 14 ++++++++++++--
 memory.c   | 11 +++++++++++
 memory.h   |  3 +++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 51f2d56..ff4aa8e 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -198,6 +198,16 @@ static const char *const size_class_labels[] = {
 #endif
 };
 
+// replace the pages of a slab with inaccessible fresh ones, which have to stay taggable
+static bool slab_map_fixed(void *slab, size_t slab_size) {
+#ifdef HAS_ARM_MTE
+    if (likely(is_memtag_enabled())) {
+        return memory_map_fixed_mte(slab, slab_size);
+    }
+#endif
+    return memory_map_fixed(slab, slab_size);
+}
+
 static void label_slab(void *slab, size_t slab_size, unsigned class) {
     memory_set_name(slab, slab_size, size_class_labels[class]);
 }
@@ -896,7 +906,7 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 
         if (c->empty_slabs_total + slab_size > max_empty_slabs_total) {
             int saved_errno = errno;
-            if (!memory_map_fixed(slab, slab_size)) {
+            if (!slab_map_fixed(slab, slab_size)) {
                 label_slab(slab, slab_size, class);
                 stats_slab_deallocate(c, slab_size);
                 enqueue_free_slab(c, metadata);
@@ -1930,7 +1940,7 @@ EXPORT int h_malloc_trim(UNUSED size_t pad) {
             struct slab_metadata *iterator = c->empty_slabs;
             while (iterator) {
                 void *slab = get_slab(c, slab_size, iterator);
-                if (memory_map_fixed(slab, slab_size)) {
+                if (slab_map_fixed(slab, slab_size)) {
                     break;
                 }
                 label_slab(slab, slab_size, class);
diff --git a/memory.c b/memory.c
index 5434060..2925e86 100644
--- a/memory.c
+++ b/memory.c
@@ -51,6 +51,17 @@ bool memory_map_fixed(void *ptr, size_t size) {
     return ret;
 }
 
+#ifdef HAS_ARM_MTE
+bool memory_map_fixed_mte(void *ptr, size_t size) {
+    void *p = mmap(ptr, size, PROT_MTE, MAP_ANONYMOUS|MAP_PRIVATE|MAP_FIXED, -1, 0);
+    bool ret = p == MAP_FAILED;
+    if (unlikely(ret) && errno != ENOMEM) {
+        fatal_error("non-ENOMEM MTE MAP_FIXED mmap failure");
+    }
+    return ret;
+}
+#endif
+
 bool memory_unmap(void *ptr, size_t size) {
     bool ret = munmap(ptr, size);
     if (unlikely(ret) && errno != ENOMEM) {
diff --git a/memory.h b/memory.h
index 6e4cd4d..d5e336b 100644
--- a/memory.h
+++ b/memory.h
@@ -15,6 +15,9 @@ void *memory_map(size_t size);
 void *memory_map_mte(size_t size);
 #endif
 bool memory_map_fixed(void *ptr, size_t size);
+#ifdef HAS_ARM_MTE
+bool memory_map_fixed_mte(void *ptr, size_t size);
+#endif
 bool memory_unmap(void *ptr, size_t size);
 bool memory_protect_ro(void *ptr, size_t size);
 bool memory_protect_rw(void *ptr, size_t size);
-- 
2.43.0


From b9f6e390b1eee5f619655525d60e61f485494bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:15 +0000
Subject: [PATCH 16/17] fix: preserve errno when naming memory fails

---
 memory.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memory.c b/memory.c
index 2925e86..d5eac6c 100644
--- a/memory.c
+++ b/memory.c
@@ -124,7 +124,11 @@ bool memory_purge(void *ptr, size_t size) {
 
 bool memory_set_name(UNUSED void *ptr, UNUSED size_t size, UNUSED const char *name) {
 #ifdef LABEL_MEMORY
-    return prctl(PR_SET_VMA, PR_SET_VMA_ANON_NAME, ptr, size, name);
+    // naming is best effort, and not supported by every kernel
+    int saved_errno = errno;
+    bool ret = prctl(PR_SET_VMA, PR_SET_VMA_ANON_NAME, ptr, size, name);
+    errno = saved_errno;
+    return ret;
 #else
     return false;
 #endif
-- 
2.43.0


From 33b7161d607b5eee918b7927d8fd2734bfa3f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:15 +0000
Subject: [PATCH 17/17] fix: unseal rather than seal metadata in
 mallinfo_bin_info

---
 h_malloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index ff4aa8e..b8c4e4e 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2167,7 +2167,7 @@ EXPORT struct mallinfo h_mallinfo_bin_info(UNUSED size_t arena, UNUSED size_t bi
     }
 
     if (arena < N_ARENA && bin < N_SIZE_CLASSES) {
-        thread_seal_metadata();
+        thread_unseal_metadata();
 
         struct size_class *c = &ro.size_class_metadata[arena][bin];
 
@@ -2177,7 +2177,7 @@ EXPORT struct mallinfo h_mallinfo_bin_info(UNUSED size_t arena, UNUSED size_t bi
         info.fordblks = c->ndalloc;
         mutex_unlock(&c->lock);
 
-        thread_unseal_metadata();
+        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0

