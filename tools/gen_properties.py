#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))

H, M, PG, R, N = "h_malloc.c", "memory.c", "pages.c", "random.c", "new.cc"

p("C01", "Live allocations are disjoint and keep their contents",
  "At every moment the usable ranges of all live allocations (small, large, aligned, reallocated) are pairwise disjoint, and the bytes an owner stored in an allocation stay exactly as stored until that owner writes, frees or reallocates it. No call made for other allocations (allocate, free, realloc, trim, introspection) changes them or takes away their read/write access.",
  ["histories", "inputs", "configurations"], "every sequence of allocator calls with every size/alignment, in every build configuration",
  "Tests run a handful of short fixed sequences; slot bitmaps, slab lists, quarantines, guard slabs and region reuse only interact in long mixed histories.",
  [H, PG], [("slot selection and used bitmap", "h_malloc.c get_free_slot/set_used_slot/allocate_small"), ("slab index to address mapping", "h_malloc.c get_slab/alloc_metadata"), ("large regions are fresh mappings", "pages.c allocate_pages")],
  [("bitmap", "slots handed out or in quarantine", "struct slab_metadata"), ("partial/empty/free slab lists", "where the next slot comes from", "struct size_class"), ("regions table", "live large allocations", "struct region_allocator")],
  ["return value of every allocating call", "contents of every live block"])

p("C02", "Returned blocks satisfy the size, alignment and accessibility contract",
  "For every size and every supported alignment, a successful malloc, calloc, realloc, aligned_alloc, memalign, posix_memalign, valloc or pvalloc returns a block that is aligned to at least 16 bytes and to the requested alignment, reports a usable size of at least the request, and is readable and writable over that whole usable size. The usable size is exactly that of the smallest size class that fits the request plus its canary (of the classes that have the alignment), so rounding waste stays within the documented bounds; a zero-size request yields a unique non-null pointer with usable size 0.",
  ["inputs", "configurations"], "all sizes (exhaustive through the slab classes and around every large class boundary) times all power-of-two alignments times entry points",
  "Tests use about ten sizes; class rounding is closed-form bit arithmetic with edge cases at each of the 49 class boundaries and at the slab/large border.",
  [H, PG, "util.h"], [("size to class arithmetic", "h_malloc.c get_size_info/get_size_info_align/get_large_size_class"), ("canary adjustment", "h_malloc.c adjust_size_for_canary"), ("alignment trimming", "pages.c allocate_pages_aligned")],
  (), ["returned address", "malloc_usable_size", "page protections of the block"])

p("C03", "Impossible or malformed requests fail cleanly",
  "A request that cannot be represented (calloc product overflow, size or size plus alignment beyond the address space, size that rounds past the largest class) returns NULL with ENOMEM (posix_memalign returns ENOMEM), and an alignment that is zero, not a power of two or, for posix_memalign, below pointer size is rejected with EINVAL without touching the output pointer. Such a call changes nothing: every live allocation keeps its contents and size, a failed realloc leaves the old block live and intact, and later requests behave as if the failed call had not happened.",
  ["inputs", "histories"], "all invalid (size, count, alignment) combinations, issued at any point of any history",
  "One test asks for one impossible malloc; overflow checks exist separately in every entry point and in each rounding step.",
  [H, PG], [("multiplication overflow check", "h_malloc.c h_calloc"), ("rounding overflow yields 0", "h_malloc.c get_large_size_class"), ("guard/alignment addition overflow", "pages.c add_guards/allocate_pages_aligned"), ("alignment validation", "h_malloc.c allocate_aligned")],
  (), ["return value and errno", "live set before and after"])

p("C04", "Memory handed out is zero filled",
  "With zero-on-free (both shipped configurations) every byte of the usable size of every newly returned block is zero, whatever was stored there by earlier owners and however the memory was recycled (slot reuse, cached empty slab, purged slab, fresh mapping); calloc returns zeroed memory for the requested size in every configuration. Data written by a former owner of a small block is gone from its payload as soon as the free returns.",
  ["histories", "configurations", "inputs"], "all allocate/write/free/trim histories, sizes and zeroing-related configurations",
  "Tests look at one fresh small and one fresh large block and one realloc; the reuse paths through quarantine, empty and purged slabs are never read back.",
  [H], [("zero on free", "h_malloc.c deallocate_small"), ("purge and remap", "h_malloc.c deallocate_small/h_malloc_trim"), ("explicit zeroing without zero-on-free", "h_malloc.c h_calloc")],
  (), ["first non-zero byte of each new block", "bytes of freed blocks while still mapped"])

p("C05", "realloc preserves contents and transfers ownership exactly once",
  "When realloc succeeds the result holds the old contents up to the smaller of the old usable size and the requested new size, has the usable size of a fresh allocation of the new request, and the old block is released exactly once if the block moved (its address is then treated as freed) and not at all if it did not. This holds for every transition between small, large, over-aligned and zero-size blocks, in-place shrink of large blocks, remapping of very large blocks, and a null old pointer.",
  ["inputs", "histories", "configurations"], "all (old block kind and size, new size) pairs at any point of a history",
  "Tests grow one array and check one zero-filled growth; the slab/large border, the in-place shrink and the mremap move have separate code paths with different bookkeeping.",
  [H, M], [("copy size computation and release of the old block", "h_malloc.c h_realloc"), ("in-place shrink", "h_malloc.c h_realloc, regions_quarantine_deallocate_pages"), ("page move", "memory.c memory_remap_fixed")],
  (), ["contents of the result", "usable size", "fate of the old address"])

p("C06", "Every invalid free is detected and stops the process",
  "Freeing (free, sized free or delete, or a realloc that changes the size class) any pointer other than the exact start of a currently live allocation - already freed, whether still in quarantine or past it; inside or between allocations; in a slab that was never used, is a guard slab, or was purged; inside or near a large allocation; foreign memory; or used before initialisation - never returns: the process is terminated with a fatal allocator error (or by a memory access fault). Valid frees never terminate the process.",
  ["histories", "inputs", "configurations"], "every pointer value offered at every point of every history, for small and large allocations",
  "Twelve tests offer one bad pointer each in a nearly empty heap; detection depends on the state of slabs, quarantines and the region table at that moment.",
  [H], [("slot/bitmap/quarantine validation", "h_malloc.c deallocate_small"), ("unused slab check", "h_malloc.c get_metadata"), ("exact address lookup", "h_malloc.c regions_find/deallocate_large")],
  [("bitmap, quarantine_bitmap", "slot is live iff set in the first and clear in the second", "struct slab_metadata")],
  ["whether the call returns", "message on stderr and SIGABRT"])

p("C07", "Sized deallocation accepts matching sizes and rejects all others",
  "Deallocating with an explicit size (free_sized, C++ sized and sized-aligned delete) succeeds whenever the size (and alignment) passed is the one used to allocate the block, and terminates the process with a sized-deallocation-mismatch error whenever the passed size belongs to a different size class than the block, for small and for large blocks. The check never changes which block is freed.",
  ["inputs", "configurations"], "all pairs (allocated size, passed size) across class boundaries, small, large and over-aligned",
  "One test deletes one object through one wrong type.",
  [H, N], [("class comparison", "h_malloc.c h_free_sized/deallocate_small/deallocate_large"), ("C++ entry points", "new.cc operator delete(void*, size_t[, align_val_t])")],
  (), ["whether the call returns"])

p("C08", "Canary corruption after a small allocation is detected on free",
  "With canaries enabled each live small block is directly followed by 8 canary bytes whose first byte is zero and whose other seven are a random value chosen afresh whenever its slab is newly populated and not shared between slabs; changing any of those bytes while the block is live makes freeing it (free, sized free, moving realloc) or querying its usable size terminate the process. A block whose canary is untouched, including blocks completely filled by their owner or overrun by a single NUL byte, is never reported.",
  ["histories", "inputs", "configurations"], "every size class, every overwritten canary byte and value, at any point of a history",
  "Tests overflow one size by 1 and 8 bytes; the canary position depends on class rounding and the value on the slab life cycle.",
  [H], [("per-slab canary value", "h_malloc.c set_slab_canary_value"), ("placement and check", "h_malloc.c set_canary/check_canary")],
  [("canary_value", "value expected after each slot of a slab", "struct slab_metadata")],
  ["8 bytes after the usable size", "outcome of free"])

p("C09", "Writes to freed small memory never reach a later owner undetected",
  "With the write-after-free check enabled, if any payload byte of a freed small block was modified after the free, then handing that slot out again terminates the process, unless the memory was purged in between and is zero again. No allocation is ever refused for memory that nobody modified after its free.",
  ["histories", "inputs"], "every byte position and value written into any freed slot at any time before reuse, every class",
  "Two tests write into one quarantined slot at offset 0 region; they never cover all offsets of a class, or reuse through the partial and the cached-empty slab paths separately.",
  [H], [("zero verification at reuse", "h_malloc.c write_after_free_check called from allocate_small")],
  (), ["outcome of the allocation that reuses the slot"])

p("C10", "Freed small blocks are delayed by the quarantine before reuse",
  "With the slab quarantine enabled, a freed small block stays inaccessible to allocation (still counted as occupied, double free still recognised) until at least queue-length plus one (if the random array is enabled) further blocks of the same size class and arena have been freed, where the lengths scale with the class size as documented; blocks leave the FIFO stage in the order they entered it. The quarantine is bounded: at most random-length plus queue-length blocks of a class are withheld, each released exactly once, and every slot of the random array is usable.",
  ["histories", "configurations"], "all free/allocate orders within a class, all quarantine length configurations",
  "Tests only see that an immediate double free is still recognised; delay, order, scaling per class and bound are never measured.",
  [H], [("random array and FIFO", "h_malloc.c deallocate_small"), ("length scaling", "h_malloc.c quarantine_shift")],
  [("quarantine_random, quarantine_queue", "withheld blocks", "struct size_class")],
  ["address returned by later allocations of the class"])

p("C11", "Freed large blocks are unusable at once and reserved until evicted",
  "When a large block is freed (or shrunk, or moved) its pages stop being readable and writable before the call returns and their contents are gone; below the skip threshold the address range with its guards stays reserved and is not returned again until at least queue-length plus one (if the random array is enabled) further large ranges have been quarantined. Ranges leave the FIFO stage in order, each is unmapped exactly once with exactly its own extent, and the address space held equals the live blocks and their guards plus at most random-length plus queue-length quarantined ranges, so nothing leaks.",
  ["histories", "inputs", "configurations"], "all large allocate/free/shrink/grow histories, sizes on both sides of the skip threshold",
  "Tests touch one freed large block; eviction order, extents and leaks need more than a thousand frees and are never observed.",
  [H, PG, M], [("quarantine", "h_malloc.c regions_quarantine_deallocate_pages"), ("unmapping with guards", "pages.c deallocate_pages")],
  [("quarantine_random, quarantine_queue", "reserved ranges", "struct region_allocator")],
  ["page protections and mappings after each call"])

p("C12", "Large allocations are surrounded by inaccessible guard regions",
  "Every live large allocation, however it was created or resized (malloc, over-aligned, in-place shrink, remap), is directly preceded and followed by inaccessible reserved pages that belong to no other allocation; the guards are at least one page and at most one page plus the size the block was created with divided by the configured divisor, and their size is chosen at random anew for each allocation.",
  ["histories", "inputs", "configurations"], "all sizes, alignments and resize paths; all histories",
  "Two tests overflow one large block by a few bytes on the high side; the low side, aligned, shrunk and remapped blocks are not covered.",
  [PG, H], [("guard reservation", "pages.c allocate_pages/allocate_pages_aligned"), ("guard size choice", "h_malloc.c get_guard_size"), ("guard re-creation on shrink", "h_malloc.c h_realloc")],
  [("guard_size", "size of each guard of a live region", "struct region_metadata")],
  ["page protections around each large block"])

p("C13", "Guard slabs and zero-size blocks are never accessible",
  "Within a size class region a slab position is skipped after every configured interval of slabs and is never made accessible or handed out, pages of the slab region never populated stay inaccessible, and zero-size allocations point into a dedicated region no page of which is ever accessible. This holds throughout every history, including after reuse and trimming.",
  ["histories", "configurations"], "all histories, all guard intervals, all classes",
  "Tests dereference one zero-size pointer; no test looks at page protections between slabs.",
  [H], [("skipping guard slabs", "h_malloc.c alloc_metadata"), ("no unprotect for zero size", "h_malloc.c allocate_small")],
  [("metadata_count, metadata_count_unguarded", "slabs handed out, slabs since the last guard", "struct size_class")],
  ["page protections of the slab region"])

p("C14", "Empty slabs are cached within a limit, then purged, protected and recycled",
  "A slab whose last block leaves is either kept accessible in a cache whose total size per class and arena never exceeds the built-in limit, or its pages are dropped and made inaccessible at once; purged slabs are recycled oldest first after passing a random delay array and are repopulated before any new slab is created only once they left that array. malloc_trim purges every cached empty slab of every class and arena, reports whether it did anything, and never touches a slab with a live or quarantined block.",
  ["histories", "configurations", "fault_sequences"], "all allocate/free/trim histories, all slab size and delay array configurations",
  "No test calls malloc_trim or looks at slab protections; the cache limit and recycling order are invisible to them.",
  [H], [("empty slab cache and purge", "h_malloc.c deallocate_small"), ("recycling queue and delay array", "h_malloc.c enqueue_free_slab/allocate_small"), ("trim", "h_malloc.c h_malloc_trim")],
  [("empty_slabs_total", "bytes of cached empty slabs", "struct size_class"), ("free_slabs_*", "purged slabs", "struct size_class")],
  ["page protections of slabs", "addresses returned", "return value of malloc_trim"])

p("C15", "Arenas, size classes and large memory never share address space",
  "The address of a block determines its arena and size class: each (arena, size class) pair owns one fixed address range, based at a random page offset inside its own larger reserved range, and in the whole life of the process an address range is never used for another class, another arena, a large allocation or allocator state. Large allocations and allocator state never lie in the slab region, and the slab region is reserved inaccessible in one piece before first use.",
  ["histories", "configurations", "schedules"], "all histories over all classes, threads and arenas",
  "Tests never compare addresses across classes, arenas or time.",
  [H], [("region layout", "h_malloc.c init_slow_path"), ("address decoding", "h_malloc.c slab_size_class")],
  [("class_region_start", "random base of each class region", "struct size_class")],
  ["returned addresses", "mappings"])

p("C16", "Allocator state is out of line, isolated and global pointers are read-only",
  "After initialisation the global variables that locate the allocator's state are read-only, its mutable state lives in one reserved mapping with random inaccessible guards on both sides that holds no user allocation and is never unmapped or reused, and only the parts in use are accessible. The state pages gained by growth are accessible before use, the replaced large-allocation table becomes inaccessible and empty again, and no allocator call ever writes bookkeeping into user blocks beyond the canary.",
  ["histories", "fault_sequences"], "all histories that initialise, grow metadata or grow the large-allocation table (including failing system calls)",
  "No test inspects the protection of allocator state or table growth.",
  [H, M], [("read-only globals", "h_malloc.c init_slow_path"), ("table double buffering", "h_malloc.c regions_grow"), ("metadata growth", "h_malloc.c alloc_metadata")],
  [("ro", "read-only after init", "h_malloc.c")],
  ["page protections of allocator mappings"])

p("C17", "The allocator is linearizable under concurrency",
  "For every interleaving of allocator calls by several threads, each call takes effect atomically between its start and return: no block is handed to two owners, no valid free is rejected, no invalid one accepted, no update of the size tables, quarantines or statistics is lost, and pages belonging to another thread's block are never unmapped or protected. Calls never deadlock, and every call terminates when the others are paused outside a lock.",
  ["schedules", "histories"], "all interleavings (at instruction granularity for pairs of calls, at lock/system-call granularity in the model) of allocate, free, realloc, trim and introspection",
  "All tests but two are single threaded and those two never contend.",
  [H, "mutex.h"], [("per class lock", "h_malloc.c allocate_small/deallocate_small"), ("region lock and ordering of table update versus mapping", "h_malloc.c allocate_large/deallocate_large/h_realloc")],
  [("lock", "one per class and one for regions", "struct size_class, struct region_allocator")],
  ["start and return of each call, system calls in between"])

p("C18", "fork leaves parent and child with a consistent, independent allocator",
  "A fork taken at any moment, while other threads are inside any allocator call, leaves in the child an allocator that is not blocked by locks of vanished threads and in which exactly the allocations live at the fork are live with their contents; the parent continues unaffected. The child draws its randomness from freshly seeded generators, so its later choices are independent of the parent's and siblings'.",
  ["schedules", "crash_points", "histories"], "every point at which fork can fall relative to other threads' allocator calls",
  "No test forks.",
  [H, R], [("atfork handlers", "h_malloc.c full_lock/full_unlock/post_fork_child"), ("reseed", "random.c random_state_init")],
  (), ["allocator calls in child and parent after fork"])

p("C19", "System call failures never corrupt the heap",
  "If any memory-management system call issued by the allocator fails with ENOMEM at any point, the affected call either still succeeds or reports failure (NULL or error code with ENOMEM) and leaves the heap as it was: live blocks keep contents, size and protection, an old block passed to a failing realloc stays valid, freed blocks stay freed and are never handed out unzeroed or still recognised as live, no mapping of anyone else is unmapped, and everything keeps working once memory is available again. Free never fails. A failure with any other error terminates the process.",
  ["fault_sequences", "histories"], "every single failing system call and bursts of failures, at every call of a history",
  "Tests never make a system call fail.",
  [H, M, PG], [("ENOMEM versus fatal", "memory.c"), ("rollback", "pages.c allocate_pages/allocate_pages_aligned, h_malloc.c allocate_large/alloc_metadata/regions_grow"), ("purge fallback", "h_malloc.c deallocate_small/regions_quarantine_deallocate_pages, pages.c deallocate_pages")],
  (), ["results, errno and heap state after the failing call"])

p("C20", "Size queries are exact for live blocks and reject dead ones",
  "malloc_usable_size returns for every live block exactly the size its owner may use (0 for null and zero-size) and terminates the process for anything but the start of a live block. malloc_object_size returns for any pointer into a live small block exactly the bytes remaining in it, for the start of a live large block its size, for unmanaged pointers the maximum value, and terminates for pointers into freed or never-used small memory; malloc_object_size_fast never returns less than the true remaining size and, for small memory, never more than the size of the class.",
  ["histories", "inputs", "configurations"], "every pointer (start, interior, freed, foreign) at every point of a history, every class",
  "Six tests query one pointer each in the first slab of a class.",
  [H], [("lookup and validation", "h_malloc.c h_malloc_usable_size/memory_corruption_check_small/h_malloc_object_size/h_malloc_object_size_fast")],
  (), ["return value or termination"])

p("C21", "Statistics equal the history of calls",
  "With statistics enabled malloc_info reports for every arena and size class exactly the number of allocations and deallocations so far, the bytes in live blocks of the class and the bytes of populated slabs, and for large memory exactly the bytes of live large blocks; mallinfo2 totals agree with it. The figures are exact after every history, including aligned allocation, realloc in all its forms, trim, purge, failed calls and concurrent use; without statistics the output is an empty document.",
  ["histories", "schedules", "configurations"], "all call histories with statistics enabled",
  "The statistics tests print values and assert nothing, in a build with statistics disabled.",
  [H], [("counters", "h_malloc.c stats_* helpers and callers"), ("reporting", "h_malloc.c h_malloc_info/h_mallinfo2")],
  (), ["malloc_info document", "mallinfo2 fields"])

p("C22", "The random generator is a fresh, never repeating, regularly reseeded ChaCha8",
  "Each generator's output is the ChaCha8 keystream under a key and nonce obtained from the OS (or from the initial generator) in which no keystream byte is ever used twice and none is skipped into reuse; it takes a new OS seed at least once per 256 KiB of output, tolerating interrupted or short reads and treating failure as fatal. Bounded draws lie in [0, bound) and are exactly uniform for every bound.",
  ["histories", "inputs", "fault_sequences"], "all sequences of draws of all kinds, all bounds, all short/interrupted seed reads",
  "No test looks at random values at all.",
  [R, "chacha.c"], [("cache and reseed", "random.c refill/get_random_*"), ("seed reading", "random.c get_random_seed"), ("unbiased range reduction", "random.c get_random_u16_uniform/get_random_u64_uniform"), ("keystream", "chacha.c")],
  [("index, reseed", "position in cached keystream, bytes since seeding", "struct random_state")],
  ["values drawn", "getrandom calls"])

p("C23", "Slot choice reaches every free slot and only free slots",
  "With slot randomisation each allocation from a partly used slab may return any of its free slots and no other, for every slot count (including those that are not multiples of 64) and every occupancy; without it the lowest free slot is returned. Partly used slabs are always used up before a cached, purged or new slab is opened, so a slab with free slots is never forgotten.",
  ["histories", "inputs", "configurations"], "every slot count and occupancy pattern of a slab, every random start",
  "Tests allocate from nearly empty slabs and never look at which slot they got.",
  [H], [("randomised bitmap search", "h_malloc.c get_free_slot/get_mask"), ("partial list maintenance", "h_malloc.c allocate_small/deallocate_small/has_free_slots")],
  [("bitmap, count", "occupied slots", "struct slab_metadata")],
  ["slot index of every returned small block"])

p("C24", "Sealed metadata is accessible only inside allocator calls",
  "With metadata sealing enabled, when any public allocator call returns or calls back into user code the calling thread has no access to the allocator's writable state, while during its own work every call has access whenever it touches that state. This holds for every entry point, every return path (including failure, in-place realloc and fork handlers) and re-entrant use through stdio while reporting statistics.",
  ["inputs", "histories", "configurations"], "every entry point and every return path, any thread",
  "No test builds or runs with sealing enabled.",
  [H, M], [("unseal/seal pairs", "h_malloc.c thread_unseal_metadata/thread_seal_metadata in every entry point"), ("keyed protection", "memory.c memory_protect_rw_metadata")],
  (), ["protection-key rights at lock operations and at return"])

p("C25", "C++ operator new follows the out-of-memory protocol",
  "On allocation failure each form of operator new calls the current new-handler, re-read before every retry, until an allocation succeeds or no handler is installed or the handler throws bad_alloc; the throwing forms then throw bad_alloc and the nothrow forms return null, never the reverse. Successful forms return blocks with the requested size and alignment, and every form of delete (plain, array, nothrow, sized, aligned) releases exactly that block and accepts null.",
  ["fault_sequences", "inputs"], "all new/delete forms times all handler behaviours times number of failures before success",
  "One C++ test exists and it exercises a size mismatch only.",
  [N], [("retry loop", "new.cc handle_out_of_memory"), ("forms", "new.cc operator new/delete")],
  (), ["handler calls, exceptions and results"])

p("C26", "The large-allocation registry is exact under collisions and growth",
  "Whatever addresses the kernel hands out and however many large blocks exist, every live large block is found with its exact size and guard, no freed one is found, and inserting, deleting, resizing and growing keep all other entries reachable. Freed registry entries are reusable, so a bounded number of live blocks never exhausts the registry over any history; if the registry cannot grow, the allocation fails cleanly.",
  ["histories", "inputs", "configurations"], "every assignment of addresses to hash positions (including wrap-around chains) and every insert/delete order, across growth",
  "Tests hold at most a few large blocks, so probing, deletion back-shifting and growth never happen.",
  [H, "pages.h"], [("open addressing with backward-shift deletion", "h_malloc.c regions_insert/regions_find/regions_delete"), ("growth", "h_malloc.c regions_grow")],
  [("regions, total, free", "hash table and its load", "struct region_allocator")],
  ["size queries and frees of every large block after every step"])

p("C27", "Initialisation happens once, on demand, from any thread",
  "Whichever threads make the first calls, and however their first calls interleave, the allocator is initialised exactly once, every caller sees the completed state, and no call is lost or uses partially initialised state; queries and trim before first use are safe, and freeing, resizing or querying a bogus pointer before first use terminates the process. Threads are assigned arenas in rotation on first use and keep their arena for life.",
  ["schedules", "histories"], "all interleavings of first calls, all entry points as first call, any number of threads",
  "In the tests the library constructor has always initialised the allocator on the main thread before anything runs.",
  [H], [("double-checked init lock", "h_malloc.c init_slow_path/init/is_init"), ("round-robin arena choice", "h_malloc.c init"), ("enforced init", "h_malloc.c enforce_init")],
  [("slab_region_end", "published last with release order", "ro"), ("thread_arena", "arena of the thread", "h_malloc.c")],
  ["system calls and results of first calls"])

p("C28", "free preserves errno and null is accepted everywhere",
  "free leaves errno unchanged for every valid pointer, small or large, including when it purges a slab, evicts from quarantine, unmaps memory or hits a failing system call internally; free, sized free and the size queries accept a null pointer as a no-op or zero. Successful allocating calls are likewise unaffected by the value errno had before.",
  ["histories", "fault_sequences", "inputs"], "every free path (quarantine hit or miss, slab purge, large unmap, threshold skip) with and without internal failures",
  "No test reads errno after a free.",
  [H], [("saved errno", "h_malloc.c h_free/deallocate_small")],
  (), ["errno before and after each call"])

p("C29", "With memory tagging, neighbouring and successive owners get distinct tags",
  "With ARM memory tagging enabled every small allocation carries a non-zero tag different from the previous tag of its slot and from the current or most recent tags of the slots on both sides, the whole slot carries that tag, and freeing sets the whole slot to tag zero and clears it; this holds for slabs whose memory was given back and reused as well. Pointers are recognised with their tag removed, so every allocator operation behaves the same for tagged pointers.",
  ["histories", "configurations"], "all allocate/free histories within a slab, all slot counts, all random tag choices",
  "The host tests never build the tagging code; the Android test needs special hardware and samples tags statistically.",
  [H, "memtag.h", "util.h"], [("tag exclusion", "h_malloc.c tag_and_clear_slab_slot"), ("nibble array", "util.h u4_arr_get/u4_arr_set"), ("untagging", "memtag.h")],
  [("arm_mte_tags", "latest tag of every slot", "struct slab_metadata")],
  ["tag of each returned pointer and memory tagging operations issued"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
