#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Live allocations never share memory",
 "A successful small allocation returns a block that lies wholly inside the slab area reserved for its size class and that no live or quarantined block occupies, and it changes the allocated/free status of no other block. A free changes the status only of the block passed in and of a block that leaves the quarantine because of it. This holds in every state that any sequence of allocator calls can produce.",
 ["histories", "inputs"], "all sequences of allocation and free calls, all sizes, all random outcomes",
 "The tests run a few fixed sequences; block reuse depends on random slot choice, quarantine contents and slab list state that no test enumerates.",
 ["h_malloc.c"],
 [("slot bitmap search and update", "h_malloc.c:get_free_slot, set_used_slot, clear_used_slot"),
  ("allocation and free of slab slots", "h_malloc.c:allocate_small, deallocate_small"),
  ("slab creation and recycling", "h_malloc.c:alloc_metadata, enqueue_free_slab")],
 [("slab_metadata.bitmap", "one bit per slot: allocated or quarantined", "h_malloc.c"),
  ("partial_slabs/empty_slabs/free_slabs_*", "which slabs may serve allocations", "h_malloc.c:struct size_class")],
 ["return value of malloc-family calls"])

prop("C02", "Allocations are at least as large as requested",
 "Whenever malloc, calloc, realloc, aligned_alloc, memalign, posix_memalign, valloc or pvalloc succeeds, the block has at least the requested number of usable bytes, and malloc_usable_size reports exactly its usable bytes. A request whose size computation overflows (including calloc's product and rounding up to a size class or page) fails with ENOMEM instead of returning a smaller block. Small requests get the smallest size class that fits them together with the canary.",
 ["inputs", "configurations"], "all 2^64 sizes, counts and alignments, both shipped configurations",
 "Tests use a handful of sizes; class boundaries and overflow edges are not enumerated.",
 ["h_malloc.c", "pages.h", "util.h"],
 [("size to class mapping", "h_malloc.c:get_size_info, get_size_info_align, get_large_size_class"),
  ("canary room", "h_malloc.c:adjust_size_for_canary"),
  ("class tables", "h_malloc.c:size_classes, size_class_slots")],
 [], ["return value of malloc-family calls", "malloc_usable_size"])

prop("C03", "Returned pointers honour the requested alignment",
 "Every block returned by the allocator is at least 16-byte aligned, and every block from an aligned allocation function is a multiple of the requested alignment, for every power-of-two alignment including those above the page size. An alignment that is not a power of two, or for posix_memalign smaller than a pointer, is rejected with EINVAL and nothing is allocated; valloc and pvalloc give page-aligned blocks.",
 ["inputs"], "all sizes and all 2^64 alignment values, all kernel-chosen mapping addresses",
 "No test exercises aligned allocation at all.",
 ["h_malloc.c", "pages.c", "util.h"],
 [("alignment validation and class choice", "h_malloc.c:allocate_aligned, get_size_info_align"),
  ("over-aligned mappings trimmed to fit", "pages.c:allocate_pages_aligned")],
 [], ["return value of aligned allocation functions"])

prop("C04", "Invalid frees in the slab area always abort, valid ones never",
 "Passing free (or malloc_usable_size) a pointer into the slab area that is not exactly the start of a currently live small allocation - misaligned, never allocated, already freed, still in quarantine, in a guard slab, in an unused part of a class region or in a gap - terminates the process with an error. Passing the start of a live, uncorrupted small allocation never does.",
 ["inputs", "histories"], "every address in the slab region and every reachable allocator state",
 "Tests try about ten fixed bad pointers; the guarantee is for every address and state.",
 ["h_malloc.c", "third_party/libdivide.h"],
 [("address to class, slab and slot", "h_malloc.c:slab_size_class, get_metadata, get_slab, slot_pointer; libdivide_*_do"),
  ("liveness checks", "h_malloc.c:deallocate_small, memory_corruption_check_small")],
 [("bitmap, quarantine_bitmap", "slot liveness", "h_malloc.c:struct slab_metadata")],
 ["process termination with fatal allocator error"])

prop("C05", "Large allocations are tracked exactly",
 "At any time the allocator knows exactly the live large allocations with their sizes and guard sizes: a lookup finds every live large allocation and nothing else, whatever the hash collisions, deletions and table growth before it. Freeing, reallocating or querying the usable size of an address outside the slab area that is not the start of a live large allocation aborts, and doing so for a live one does not.",
 ["histories", "inputs"], "all sequences of large allocations and frees, all addresses and hash collisions, all table sizes",
 "Tests keep one or two large allocations alive, so collisions, backward-shift deletion across the wrap-around and growth are never reached.",
 ["h_malloc.c", "pages.h"],
 [("open-addressing hash table", "h_malloc.c:regions_find, regions_insert, regions_delete, regions_grow; pages.h:hash_page"),
  ("callers", "h_malloc.c:allocate_large, deallocate_large, h_realloc")],
 [("region_allocator.regions/total/free", "table, capacity, free entries", "h_malloc.c")],
 ["fatal error 'invalid free'"])

prop("C06", "Sized deallocation aborts exactly on a size mismatch",
 "free_sized and C++ sized operator delete accept a live allocation when the size given is the size it was requested with, and abort when the given size belongs to a different size class than the allocation has. This holds for small and large blocks and for blocks from over-aligned operator new.",
 ["inputs"], "all request sizes, all claimed sizes and all alignments",
 "One test frees one object with one wrong size; over-aligned types are never deleted in any test.",
 ["h_malloc.c", "new.cc"],
 [("expected size check", "h_malloc.c:deallocate_small, deallocate_large, h_free_sized"),
  ("C++ entry points", "new.cc:operator delete")],
 [], ["process termination or normal return"])

prop("C07", "Slab canaries detect overwritten bytes behind a block",
 "Every non-zero-size small allocation is followed, within its slot, by an 8-byte canary equal to its slab's random value, whose first byte is zero. Freeing it, or asking its usable size, aborts if any of those 8 bytes differ, and never aborts for a canary that is intact; the usable size never includes canary bytes. The value is drawn afresh whenever a slab is put into use from protected memory.",
 ["inputs", "histories"], "all size classes, slots and canary values, all corruptions",
 "Tests corrupt the first 1 or 8 bytes for a single size.",
 ["h_malloc.c"],
 [("canary value, write and check", "h_malloc.c:set_slab_canary_value, set_canary, check_canary")],
 [("slab_metadata.canary_value", "per-slab canary", "h_malloc.c")],
 ["fatal error 'canary corrupted'"])

prop("C08", "Freed small memory is wiped and new memory is zero",
 "When a small block is freed all of its usable bytes are zeroed before it can be reused, and a small allocation whose bytes were modified after that free is refused with a fatal write-after-free error (default configuration), so a block handed out always has all-zero usable bytes. calloc returns zeroed memory for every size, and large allocations are fresh zero pages.",
 ["inputs", "histories"], "all size classes, all byte positions, all histories",
 "Tests check a few bytes for one or two sizes; the check loop and wipe length are per size class.",
 ["h_malloc.c"],
 [("wipe on free", "h_malloc.c:deallocate_small"), ("verify on allocate", "h_malloc.c:write_after_free_check"),
  ("calloc", "h_malloc.c:h_calloc")],
 [], ["contents of new blocks", "fatal error 'detected write after free'"])

prop("C09", "Freed small blocks pass through the quarantine before reuse",
 "With slab quarantines configured, a freed small block first replaces a randomly chosen entry of a fixed-size array and then waits in a FIFO queue, and its slot becomes available again only once it leaves that queue; every freed block is in exactly one of those places until then and none is lost or released twice. The array and queue of a size class have the configured length times the number of blocks of that class's power-of-two size range that fit the largest class.",
 ["histories", "inputs"], "all sequences of frees, all random choices, all size classes",
 "The double-free-delayed tests look at one size class with a short sequence and cannot see where the block went.",
 ["h_malloc.c"],
 [("substitution in array and queue", "h_malloc.c:deallocate_small")],
 [("quarantine_random, quarantine_queue, quarantine_queue_index", "delayed frees", "h_malloc.c:struct size_class")],
 ["reuse of freed addresses"])

prop("C10", "Freed large allocations become inaccessible and stay reserved",
 "When a large allocation is freed its pages are made inaccessible and their contents discarded before free returns (if the kernel refuses that for lack of memory, the contents are at least asked to be discarded). Below the quarantine size threshold its whole address range including guards stays reserved, first in a randomly indexed array and then in a FIFO queue, and is unmapped only when it leaves the queue; from the threshold up it is unmapped at once; no range is lost or unmapped twice.",
 ["histories", "inputs"], "all sequences of large frees, sizes, guard sizes and random choices",
 "Tests read after one free; the quarantine of 1280 entries is never filled.",
 ["h_malloc.c", "pages.c", "memory.c"],
 [("region quarantine", "h_malloc.c:regions_quarantine_deallocate_pages, deallocate_large")],
 [("region_allocator.quarantine_random/queue", "reserved ranges", "h_malloc.c")],
 ["mmap/munmap calls"])

prop("C11", "Large allocations sit between guards and own exactly their range",
 "Every large allocation is preceded and followed by an inaccessible guard region of at least one page and of random size up to 1/divisor of the allocation, and exactly its usable pages are readable and writable. Every mapping operation the allocator makes for a large allocation stays inside the address range reserved for it, and creating, resizing and releasing one neither leaks part of that range nor touches memory outside it.",
 ["inputs", "histories"], "all sizes, alignments, guard sizes, kernel addresses and realloc sequences",
 "Overflow tests touch the first byte after one large block; leaks, leading guards and unmapping of foreign ranges are invisible to them.",
 ["pages.c", "h_malloc.c"],
 [("guarded mappings", "pages.c:allocate_pages, allocate_pages_aligned, deallocate_pages"),
  ("guard size", "h_malloc.c:get_guard_size"), ("shrink/move", "h_malloc.c:h_realloc")],
 [], ["mmap/mprotect/munmap/mremap calls"])

prop("C12", "Slab memory outside slabs in use stays inaccessible",
 "Only whole slabs holding at least one allocated slot, or cached empty ones, are ever readable and writable; after every configured number of slabs one slab position is skipped for ever as an inaccessible guard. Slabs of the zero-size class are never made accessible, and a slab is always made accessible before a slot in it is handed out.",
 ["histories", "inputs"], "all allocation histories and size classes",
 "Tests observe single accesses; the guard layout and zero-size class need the whole region.",
 ["h_malloc.c", "memory.c"],
 [("slab creation and guard skipping", "h_malloc.c:alloc_metadata"), ("unprotect on reuse", "h_malloc.c:allocate_small"),
  ("re-protect on release", "h_malloc.c:deallocate_small, h_malloc_trim")],
 [("metadata_count, metadata_count_unguarded", "slabs created, run length since last guard", "h_malloc.c:struct size_class")],
 ["mprotect/mmap calls"])

prop("C13", "Surplus empty slabs are purged, protected and reused in order",
 "A slab whose last block is released is kept accessible only while the cached empty slabs of its class total at most the configured limit; otherwise it is replaced by fresh inaccessible memory and enters a random delay array and then a FIFO from which it is later reused. malloc_trim does that for every cached empty slab and returns non-zero exactly if it released something. Slabs are never lost or listed twice, and accounting of cached empty bytes is exact.",
 ["histories", "inputs"], "all histories of frees and trims, random choices and mapping failures",
 "No test fills the empty-slab cache or calls malloc_trim.",
 ["h_malloc.c"],
 [("empty slab cache and purge", "h_malloc.c:deallocate_small"), ("free slab delay", "h_malloc.c:enqueue_free_slab"), ("trim", "h_malloc.c:h_malloc_trim")],
 [("empty_slabs, empty_slabs_total", "cached empty slabs and their bytes", "h_malloc.c:struct size_class"), ("free_slabs_head/tail/quarantine", "protected slabs", "h_malloc.c:struct size_class")],
 ["mmap(MAP_FIXED) calls", "malloc_trim result"])

prop("C14", "realloc preserves contents and releases the old block exactly once",
 "On success realloc returns a block of the new size holding the old contents up to the smaller of the two sizes, and the old block is either the same block or has been released exactly once. On failure it returns NULL and the old block is untouched and still live. This holds for every combination of small, large, over-aligned and zero-size old blocks with every new size, including in-place shrink and page-moving growth.",
 ["inputs", "histories", "fault_sequences"], "all old blocks, all new sizes, all allocation and mapping failures",
 "Tests cover one growth per kind; in-place shrink, moves over 32 MiB, over-aligned blocks and failures are not tried.",
 ["h_malloc.c"],
 [("realloc", "h_malloc.c:h_realloc")],
 [], ["return value and contents after realloc"])

prop("C15", "Out-of-memory is reported cleanly and other mapping errors are fatal",
 "When the kernel refuses memory at any point, the allocation call fails with a null result (or ENOMEM result for posix_memalign) with errno set to ENOMEM, leaks no mapping, and leaves the allocator state as before so that later calls work. Frees never fail because of it. Any failure of mmap, munmap, mprotect, mremap or madvise other than ENOMEM terminates the process.",
 ["fault_sequences", "inputs"], "every position at which a system call can fail, with every errno",
 "The only failing request tested is an impossible size; no system call failure is injected.",
 ["memory.c", "pages.c", "h_malloc.c"],
 [("system call wrappers", "memory.c"), ("unwinding on failure", "pages.c, h_malloc.c:allocate_large, allocate_aligned, alloc_metadata")],
 [], ["return values and errno"])

prop("C16", "free preserves errno",
 "free leaves errno exactly as it was, whatever system calls it makes and however they fail.",
 ["inputs", "fault_sequences"], "all blocks, all states, all failing and interrupted system calls",
 "No test looks at errno after free, nor makes a system call fail inside it.",
 ["h_malloc.c", "random.c"],
 [("saved errno", "h_malloc.c:h_free, deallocate_small"), ("seeding", "random.c:get_random_seed")],
 [], ["errno after free"])

prop("C17", "Allocator state is accessed only under its lock and locks are always released",
 "Every access to mutable state of a size class or of the large-allocation table happens while that component's lock is held, and nothing read under a lock is relied on after it was released. No call takes a lock it already holds or holds two locks at once outside the fork and disable handlers, which take them in one fixed order, and every call returns with all locks released.",
 ["schedules"], "all interleavings of any number of threads, every return path of every entry point",
 "Tests are single threaded, so a missing lock or an early return with the lock held in a rare path cannot show.",
 ["h_malloc.c", "mutex.h"],
 [("mutexes", "mutex.h; h_malloc.c: every entry point"), ("fork handlers", "h_malloc.c:full_lock, full_unlock")],
 [("size_class.lock, region_allocator.lock", "component locks", "h_malloc.c")],
 ["pthread_mutex calls"])

prop("C18", "Allocator stays usable and independent after fork",
 "fork takes every allocator lock before and releases every one after in the parent; in the child every lock is reinitialised and every random generator is reseeded from the kernel, so the child can allocate and its random choices are independent of the parent's. The handlers are registered exactly once, at initialisation.",
 ["schedules", "configurations"], "every moment at which fork can happen, all arenas and classes",
 "No test forks.",
 ["h_malloc.c", "random.c"],
 [("atfork handlers", "h_malloc.c:full_lock, full_unlock, post_fork_child, init_slow_path")],
 [], ["pthread_atfork registration; state in the child"])

prop("C19", "Random bytes come from a reseeded ChaCha8 stream and are never reused",
 "Each random generator yields consecutive bytes of the ChaCha8 keystream of a key and nonce it was seeded with; no byte is ever handed out twice, and no byte from outside the current keystream block is handed out. It is reseeded from the kernel after a bounded amount of output, seeding loops until all seed bytes are filled, and failure to obtain kernel randomness is fatal.",
 ["histories", "inputs"], "all keys, nonces, counters and request sizes, all histories, all short or interrupted kernel reads",
 "No test looks at the generator's output.",
 ["chacha.c", "random.c"],
 [("cipher", "chacha.c"), ("buffering and reseeding", "random.c:get_random_bytes, get_random_u16, get_random_u64, refill, random_state_init, get_random_seed")],
 [("random_state.index, reseed, ctx, cache", "buffer position, output since reseed", "random.h")],
 ["random values"])

prop("C20", "Bounded random numbers are in range and unbiased",
 "A bounded random draw always returns a value below its bound, and each value below the bound is produced by exactly the same number of accepted raw draws, a raw draw being rejected and replaced only when that is needed for this.",
 ["inputs"], "all bounds and all raw draws, 16-bit and 64-bit",
 "No test examines random ranges; the bias is far too small for sampling.",
 ["random.c"],
 [("multiply-shift with rejection", "random.c:get_random_u16_uniform, get_random_u64_uniform")],
 [], ["slot and guard size choices"])

prop("C21", "Arenas and size classes live in disjoint, randomly placed regions",
 "After initialisation each arena and size class has its own region, disjoint from all others and from the metadata, starting at a random page offset that leaves at least one inaccessible page on either side, and the address of any small block determines its arena and class. Initialisation happens once even when threads race, global allocator state is read-only afterwards, and nothing is visible as initialised before it is.",
 ["schedules", "inputs", "configurations"], "all random offsets, all kernel addresses, all racing first calls, both configurations",
 "The layout is random and 12 TiB wide; tests see one layout per run and no race.",
 ["h_malloc.c"],
 [("region layout", "h_malloc.c:init_slow_path, slab_size_class"), ("one-time initialisation", "h_malloc.c:init, init_slow_path")],
 [("ro", "read-only globals", "h_malloc.c")],
 ["addresses of blocks", "mprotect of globals"])

prop("C22", "Object size queries are correct upper bounds",
 "For a pointer to or into the usable part of a live small allocation malloc_object_size returns the number of usable bytes from that pointer to the end of the block, and for the start of a live large allocation its size; for pointers the allocator does not own it returns the all-ones sentinel, and for NULL zero. malloc_object_size_fast never returns less than the bytes accessible from the pointer. Querying a slab address that is not in a live block aborts.",
 ["inputs", "histories"], "all pointers, all classes including zero-size, all states",
 "Tests query one size class at two offsets.",
 ["h_malloc.c"],
 [("object size", "h_malloc.c:h_malloc_object_size, h_malloc_object_size_fast, h_malloc_usable_size")],
 [], ["return values"])

prop("C23", "Statistics equal what is really allocated",
 "With statistics enabled, the per-class and large totals reported by mallinfo2 and malloc_info always equal the bytes of live blocks, of slabs in use and of live large allocations, and the allocation and free counters count every allocation and free exactly once, through every path including realloc, aligned allocation and trimming.",
 ["histories", "configurations"], "all histories with CONFIG_STATS enabled",
 "Statistics are disabled in the tested configuration and no test case checks them.",
 ["h_malloc.c"],
 [("counters", "h_malloc.c:stats_small_allocate, stats_slab_allocate, stats_large_allocate and deallocate counterparts; h_mallinfo2, h_malloc_info")],
 [("size_class.allocated, nmalloc, ndalloc, slab_allocated; region_allocator.allocated", "statistics", "h_malloc.c")],
 ["mallinfo2", "malloc_info"])

prop("C24", "Metadata is sealed whenever the allocator is not running",
 "With metadata sealing enabled, every entry point that touches allocator metadata enables access first and every call returns to the program with access disabled again, on every path including failures, and all metadata pages carry the protection key.",
 ["inputs", "fault_sequences", "configurations"], "every return path of every entry point with CONFIG_SEAL_METADATA",
 "The option is off in the tested build and needs special hardware to run.",
 ["h_malloc.c", "memory.c"],
 [("seal and unseal", "h_malloc.c:thread_seal_metadata, thread_unseal_metadata"), ("key on mappings", "memory.c:memory_protect_rw_metadata")],
 [], ["pkey_set calls"])

prop("C25", "C++ operator new and delete follow the language rules",
 "operator new returns a block of at least the requested size and alignment or throws bad_alloc; the nothrow forms return null instead and let no bad_alloc escape; while memory is short the installed new handler is called repeatedly until the allocation succeeds, the handler throws bad_alloc or no handler is installed. Every operator delete form accepts any block from the matching operator new and null.",
 ["inputs", "fault_sequences"], "all forms, sizes, alignments, allocation failures and handler behaviours",
 "Tests use new and delete once, never with failure, nothrow, handlers or over-alignment.",
 ["new.cc"],
 [("operators", "new.cc")],
 [], ["return values and exceptions"])

prop("C26", "Detected corruption always terminates the process with a message",
 "When the allocator detects an error it never continues: it writes its complete message to standard error, retrying interrupted and partial writes, allocates nothing, and aborts even if writing fails.",
 ["fault_sequences", "inputs"], "all messages and all partial, failing and interrupted writes",
 "Tests see complete writes only.",
 ["util.c"],
 [("fatal_error, write_full", "util.c")],
 [], ["standard error and abort"])

prop("C27", "Slots are chosen from a random position and no free slot is unreachable",
 "An allocation from a slab takes the first free slot at or after a uniformly random slot position, wrapping around at the end (with slot randomisation off, the lowest free slot). It therefore succeeds whenever the slab has a free slot, never yields a slot number outside the slab, and every free slot can be chosen.",
 ["inputs", "configurations"], "all bitmaps, slot counts and random values",
 "Which slot is taken is random and unobserved by the tests.",
 ["h_malloc.c", "util.h"],
 [("bitmap search", "h_malloc.c:get_free_slot, get_mask; util.h:ffz64")],
 [], ["addresses of new blocks"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
