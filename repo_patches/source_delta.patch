From f06de1762d6ae1c36a25fdb2c10e295e8f06c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 01/11] fix: realloc of small allocations in the large
 allocation table

Allocations with alignment above the page size are large allocations even when
their size fits a slab size class.
---
 h_malloc.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 15be0a2..671584c 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1520,7 +1520,8 @@ EXPORT void *h_realloc(void *old, size_t size) {
     old = untag_pointer(old);
 
     size_t old_size;
-    if (old < get_slab_region_end() && old >= ro.slab_region_start) {
+    bool old_is_small = old < get_slab_region_end() && old >= ro.slab_region_start;
+    if (old_is_small) {
         old_size = slab_usable_size(old);
         if (size <= max_slab_size_class && get_size_info(size).size == old_size) {
             return old_orig;
@@ -1632,12 +1633,12 @@ EXPORT void *h_realloc(void *old, size_t size) {
         thread_seal_metadata();
         return NULL;
     }
-    size_t copy_size = min(size, old_size);
-    if (copy_size > 0 && copy_size <= max_slab_size_class) {
-        copy_size -= canary_size;
-    }
+    // sizes of small allocations include the canary
+    size_t old_copy_size = old_is_small && old_size ? old_size - canary_size : old_size;
+    size_t new_copy_size = size > 0 && size <= max_slab_size_class ? size - canary_size : size;
+    size_t copy_size = min(new_copy_size, old_copy_size);
     memcpy(new, old_orig, copy_size);
-    if (old_size <= max_slab_size_class) {
+    if (old_is_small) {
         deallocate_small(old, NULL);
     } else {
         deallocate_large(old, NULL);
-- 
2.43.0


From b4d0a34fb0748e5fbcb79de9d51111892587a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 02/11] fix: slab lookup of zero size allocations in
 malloc_object_size

---
 h_malloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 671584c..f07f5ec 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1807,7 +1807,7 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         mutex_lock(&c->lock);
 
         const struct slab_metadata *metadata = get_metadata(c, p);
-        size_t slab_size = get_slab_size(get_slots(class), size_class);
+        size_t slab_size = get_slab_size(get_slots(class), size_class ? size_class : 16);
         void *slab = get_slab(c, slab_size, metadata);
         size_t slot = libdivide_u32_do((const char *)p - (const char *)slab, &c->size_divisor);
 
-- 
2.43.0


From 2b35d038daaaa9e0b48f7db8155c40aba9d57ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 03/11] fix: bias in get_random_u16_uniform

bound is promoted to int before the negation, so the threshold was always 0.
---
 random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random.c b/random.c
index 8883531..0ef15d2 100644
--- a/random.c
+++ b/random.c
@@ -90,7 +90,7 @@ u16 get_random_u16_uniform(struct random_state *state, u16 bound) {
     u32 multiresult = random * bound;
     u16 leftover = multiresult;
     if (leftover < bound) {
-        u16 threshold = -bound % bound;
+        u16 threshold = (u16)-bound % bound;
         while (leftover < threshold) {
             random = get_random_u16(state);
             multiresult = random * bound;
-- 
2.43.0


From 6b3885f2bbd43ec6f8f5482fab810db65819ad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 04/11] fix: count large aligned allocations in the statistics

---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index f07f5ec..bb019c7 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1438,6 +1438,7 @@ static int allocate_aligned(unsigned arena, void **memptr, size_t alignment, siz
         deallocate_pages(p, size, guard_size);
         return ENOMEM;
     }
+    stats_large_allocate(ra, size);
     mutex_unlock(&ra->lock);
 
     *memptr = p;
-- 
2.43.0


From 5c8cc1e061e99412336035a1bb526dbf03dd6ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 05/11] fix: preserve errno when freeing small allocations

Reseeding (interrupted getrandom) and labelling a purged slab can change it.
---
 h_malloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index bb019c7..807c449 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1681,14 +1681,16 @@ EXPORT void h_free(void *p) {
 
     p = untag_pointer(p);
 
+    int saved_errno = errno;
+
     if (p < get_slab_region_end() && p >= ro.slab_region_start) {
         thread_unseal_metadata();
         deallocate_small(p, NULL);
+        errno = saved_errno;
         thread_seal_metadata();
         return;
     }
 
-    int saved_errno = errno;
     deallocate_large(p, NULL);
     errno = saved_errno;
 
-- 
2.43.0


From 7671880d6bec5373648d0ed07209d7933bfc85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 06/11] fix: do not unmap the released leading part again

Another thread can have mapped it in the meantime.
---
 pages.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pages.c b/pages.c
index 27558de..ec6b48c 100644
--- a/pages.c
+++ b/pages.c
@@ -73,7 +73,8 @@ void *allocate_pages_aligned(size_t usable_size, size_t alignment, size_t guard_
 
     if (trail_size) {
         if (unlikely(memory_unmap((char *)base + usable_size + guard_size, trail_size))) {
-            memory_unmap(real, real_alloc_size);
+            // the leading part may already belong to another mapping
+            memory_unmap((char *)real + lead_size, real_alloc_size - lead_size);
             return NULL;
         }
     }
-- 
2.43.0


From 3b12f17a10834f2abe27109b0113da0465ef777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 07/11] fix: set errno when the large allocation table is full

---
 h_malloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 807c449..a120fa4 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1018,6 +1018,7 @@ static int regions_grow(void) {
     struct region_allocator *ra = ro.region_allocator;
 
     if (ra->total > SIZE_MAX / sizeof(struct region_metadata) / 2) {
+        errno = ENOMEM;
         return 1;
     }
 
@@ -1026,6 +1027,7 @@ static int regions_grow(void) {
     size_t mask = newtotal - 1;
 
     if (newtotal > MAX_REGION_TABLE_SIZE) {
+        errno = ENOMEM;
         return 1;
     }
 
-- 
2.43.0


From ea92b363ff3c49a4021546ecba56f92791d47ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 08/11] fix: clear the old large allocation table if it cannot
 be replaced

The next growth reuses it and requires it to be empty.
---
 h_malloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index a120fa4..51f1272 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1049,7 +1049,10 @@ static int regions_grow(void) {
         }
     }
 
-    memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata));
+    if (unlikely(memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata)))) {
+        // it will be reused as an empty table
+        memory_purge(ra->regions, ra->total * sizeof(struct region_metadata));
+    }
     memory_set_name(ra->regions, ra->total * sizeof(struct region_metadata), "malloc allocator_state");
     ra->free = ra->free + ra->total;
     ra->total = newtotal;
-- 
2.43.0


From b72f0913ea577d8d5fbb173937950e5c4c9fecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:14 +0000
Subject: [PATCH 09/11] fix: take the alignment into account in aligned sized
 deallocation

A larger size class can be chosen for the alignment, which was reported as a
mismatch.
---
 h_malloc.c         | 13 +++++++++++++
 include/h_malloc.h |  3 +++
 new.cc             |  8 ++++----
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 51f1272..63c32eb 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1728,6 +1728,19 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
     thread_seal_metadata();
 }
 
+void h_free_aligned_sized(void *p, size_t alignment, size_t expected_size) {
+    size_t size = adjust_size_for_canary(expected_size);
+    const void *addr = untag_const_pointer(p);
+
+    if (alignment > min_align && alignment <= PAGE_SIZE && size <= max_slab_size_class &&
+            addr < get_slab_region_end() && addr >= ro.slab_region_start) {
+        // alignment can select a larger size class than the one for the size alone
+        expected_size = get_size_info_align(size, alignment).size - canary_size;
+    }
+
+    h_free_sized(p, expected_size);
+}
+
 static inline void memory_corruption_check_small(const void *p) {
     struct slab_size_class_info size_class_info = slab_size_class(p);
     size_t class = size_class_info.class;
diff --git a/include/h_malloc.h b/include/h_malloc.h
index 0eee395..9067865 100644
--- a/include/h_malloc.h
+++ b/include/h_malloc.h
@@ -122,6 +122,9 @@ size_t h_malloc_object_size_fast(const void *ptr);
 // passed size matches the allocated size.
 void h_free_sized(void *ptr, size_t expected_size);
 
+// internal variant for memory from h_aligned_alloc, used for C++17 aligned sized deallocation
+void h_free_aligned_sized(void *ptr, size_t alignment, size_t expected_size);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/new.cc b/new.cc
index 165e19e..4f80ab7 100644
--- a/new.cc
+++ b/new.cc
@@ -144,10 +144,10 @@ EXPORT void operator delete[](void *ptr, std::align_val_t, const std::nothrow_t
     h_free(ptr);
 }
 
-EXPORT void operator delete(void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete(void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
 
-EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
-- 
2.43.0


From 61abd55d61d1c3d04c1f74cfdcbc2a2f945c05f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 10/11] fix: reject huge sizes in sized deallocation of small
 allocations

Sizes rounding up past SIZE_MAX were accepted for zero size allocations.
---
 h_malloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 63c32eb..0ee4c38 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1717,6 +1717,10 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
 
     if (p < get_slab_region_end() && p >= ro.slab_region_start) {
         thread_unseal_metadata();
+        if (unlikely(expected_size > max_slab_size_class)) {
+            // rounding up would wrap around to the zero size class for huge values
+            fatal_error("sized deallocation mismatch (small)");
+        }
         expected_size = get_size_info(expected_size).size;
         deallocate_small(p, &expected_size);
         thread_seal_metadata();
-- 
2.43.0


From 2a372f92fcce6597593b5b7f89a8ba75f5ad521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:54 +0000
Subject: [PATCH 11/11] fix: unseal metadata only while malloc_info reads it

stdio may call the allocator, which seals the metadata again when it returns; the next access to the metadata then faulted.
---
 h_malloc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 0ee4c38..bd55052 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2033,20 +2033,20 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
 
 #if CONFIG_STATS
     if (likely(is_init())) {
-        thread_unseal_metadata();
-
         for (unsigned arena = 0; arena < N_ARENA; arena++) {
             fprintf(fp, "<heap nr=\"%u\">", arena);
 
             for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
                 struct size_class *c = &ro.size_class_metadata[arena][class];
 
+                thread_unseal_metadata();
                 mutex_lock(&c->lock);
                 u64 nmalloc = c->nmalloc;
                 u64 ndalloc = c->ndalloc;
                 size_t slab_allocated = c->slab_allocated;
                 size_t allocated = c->allocated;
                 mutex_unlock(&c->lock);
+                thread_seal_metadata();
 
                 if (nmalloc || ndalloc || slab_allocated || allocated) {
                     fprintf(fp, "<bin nr=\"%u\" size=\"%" PRIu32 "\">"
@@ -2063,15 +2063,15 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
         }
 
         struct region_allocator *ra = ro.region_allocator;
+        thread_unseal_metadata();
         mutex_lock(&ra->lock);
         size_t region_allocated = ra->allocated;
         mutex_unlock(&ra->lock);
+        thread_seal_metadata();
 
         fprintf(fp, "<heap nr=\"%u\">"
                 "<allocated_large>%zu</allocated_large>"
                 "</heap>", N_ARENA, region_allocated);
-
-        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0

