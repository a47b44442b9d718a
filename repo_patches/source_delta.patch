From 5fcfe25f523484b3028e088e33bda1b5938c223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:41 +0000
Subject: [PATCH 01/17] fix: strip the memory tag in malloc_object_size queries

---
 h_malloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 15be0a2..e3379b4 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1794,6 +1794,8 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         return 0;
     }
 
+    p = untag_const_pointer(p);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         thread_unseal_metadata();
@@ -1851,6 +1853,8 @@ EXPORT size_t h_malloc_object_size_fast(const void *p) {
         return 0;
     }
 
+    p = untag_const_pointer(p);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         size_t size = slab_usable_size(p);
-- 
2.43.0


From a49bb5cca3c03abb240ef2f9c113f38e177a40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:07 +0000
Subject: [PATCH 02/17] fix: unbiased rejection threshold in
 get_random_u16_uniform

---
 random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random.c b/random.c
index 8883531..0ef15d2 100644
--- a/random.c
+++ b/random.c
@@ -90,7 +90,7 @@ u16 get_random_u16_uniform(struct random_state *state, u16 bound) {
     u32 multiresult = random * bound;
     u16 leftover = multiresult;
     if (leftover < bound) {
-        u16 threshold = -bound % bound;
+        u16 threshold = (u16)-bound % bound;
         while (leftover < threshold) {
             random = get_random_u16(state);
             multiresult = random * bound;
-- 
2.43.0


From 3c66dcf7c10f5e775578f84a0b045bac15e08205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:07 +0000
Subject: [PATCH 03/17] fix: do not truncate the random slab quarantine length

---
 h_malloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index e3379b4..2650708 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -829,7 +829,10 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 #if SLAB_QUARANTINE_RANDOM_LENGTH > 0
     size_t slab_quarantine_random_length = SLAB_QUARANTINE_RANDOM_LENGTH << quarantine_shift;
 
-    size_t random_index = get_random_u16_uniform(&c->rng, slab_quarantine_random_length);
+    // the scaled length can exceed the range of the 16-bit generator for small size classes
+    size_t random_index = slab_quarantine_random_length <= UINT16_MAX ?
+        get_random_u16_uniform(&c->rng, slab_quarantine_random_length) :
+        get_random_u64_uniform(&c->rng, slab_quarantine_random_length);
     void *random_substitute = c->quarantine_random[random_index];
     c->quarantine_random[random_index] = p;
 
-- 
2.43.0


From 2e18d3ab44d622f2c2629378c210ed4ef70b4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:07 +0000
Subject: [PATCH 04/17] fix: count over-aligned large allocations in the
 statistics

---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index 2650708..d71e666 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1441,6 +1441,7 @@ static int allocate_aligned(unsigned arena, void **memptr, size_t alignment, siz
         deallocate_pages(p, size, guard_size);
         return ENOMEM;
     }
+    stats_large_allocate(ra, size);
     mutex_unlock(&ra->lock);
 
     *memptr = p;
-- 
2.43.0


From 5d00115ae5a2b82d18b8407988370189100168ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:07 +0000
Subject: [PATCH 05/17] fix: set errno when the region table is full

---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index d71e666..df96fe0 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1366,6 +1366,7 @@ static void *allocate_large(size_t size) {
     if (unlikely(regions_insert(p, size, guard_size))) {
         mutex_unlock(&ra->lock);
         deallocate_pages(p, size, guard_size);
+        errno = ENOMEM;
         return NULL;
     }
     stats_large_allocate(ra, size);
-- 
2.43.0


From afebe06ea51fae2272e1e2ce4e50c64652096277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:07 +0000
Subject: [PATCH 06/17] fix: drop stale region table entries if the old table
 cannot be replaced

---
 h_malloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index df96fe0..4f43b33 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1050,7 +1050,10 @@ static int regions_grow(void) {
         }
     }
 
-    memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata));
+    if (unlikely(memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata)))) {
+        // the table is expected to be empty when this range is used again
+        memory_purge(ra->regions, ra->total * sizeof(struct region_metadata));
+    }
     memory_set_name(ra->regions, ra->total * sizeof(struct region_metadata), "malloc allocator_state");
     ra->free = ra->free + ra->total;
     ra->total = newtotal;
-- 
2.43.0


From 3ca173619187b500c18163badfa93f6a0401f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:07 +0000
Subject: [PATCH 07/17] fix: malloc_object_size for zero size allocations
 beyond the first slab

---
 h_malloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 4f43b33..941ae60 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1811,6 +1811,9 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         struct slab_size_class_info size_class_info = slab_size_class(p);
         size_t class = size_class_info.class;
         size_t size_class = size_classes[class];
+        if (unlikely(size_class == 0)) {
+            size_class = 16;
+        }
         struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];
 
         mutex_lock(&c->lock);
-- 
2.43.0


From bf5d6a43eba48b09b4886fe4b6f072dd823c2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:07 +0000
Subject: [PATCH 08/17] fix: realloc of small allocations with alignment above
 PAGE_SIZE

---
 h_malloc.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 941ae60..c7b5de4 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1528,7 +1528,8 @@ EXPORT void *h_realloc(void *old, size_t size) {
     old = untag_pointer(old);
 
     size_t old_size;
-    if (old < get_slab_region_end() && old >= ro.slab_region_start) {
+    const bool old_is_slab = old < get_slab_region_end() && old >= ro.slab_region_start;
+    if (old_is_slab) {
         old_size = slab_usable_size(old);
         if (size <= max_slab_size_class && get_size_info(size).size == old_size) {
             return old_orig;
@@ -1640,12 +1641,12 @@ EXPORT void *h_realloc(void *old, size_t size) {
         thread_seal_metadata();
         return NULL;
     }
-    size_t copy_size = min(size, old_size);
-    if (copy_size > 0 && copy_size <= max_slab_size_class) {
-        copy_size -= canary_size;
-    }
+    // large allocations with alignment above PAGE_SIZE can be smaller than max_slab_size_class
+    size_t new_usable = size > 0 && size <= max_slab_size_class ? size - canary_size : size;
+    size_t old_usable = old_is_slab && old_size > 0 ? old_size - canary_size : old_size;
+    size_t copy_size = min(new_usable, old_usable);
     memcpy(new, old_orig, copy_size);
-    if (old_size <= max_slab_size_class) {
+    if (old_is_slab) {
         deallocate_small(old, NULL);
     } else {
         deallocate_large(old, NULL);
-- 
2.43.0


From e9b97583fbeee3fd472c22c0974a56e196bcf607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:47 +0000
Subject: [PATCH 09/17] fix: size class of over-aligned allocations in C++
 sized deallocation

---
 h_malloc.c         | 15 +++++++++++++--
 include/h_malloc.h |  3 +++
 new.cc             |  8 ++++----
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index c7b5de4..9bd9fb5 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1706,7 +1706,7 @@ EXPORT void h_free(void *p) {
 EXPORT void h_cfree(void *ptr) ALIAS(h_free);
 #endif
 
-EXPORT void h_free_sized(void *p, size_t expected_size) {
+static void free_sized_aligned(void *p, size_t expected_size, size_t alignment) {
     if (p == NULL) {
         return;
     }
@@ -1717,7 +1717,9 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
 
     if (p < get_slab_region_end() && p >= ro.slab_region_start) {
         thread_unseal_metadata();
-        expected_size = get_size_info(expected_size).size;
+        // must match the size class selection of allocate_aligned
+        expected_size = alignment > min_align && alignment <= PAGE_SIZE && expected_size <= max_slab_size_class ?
+            get_size_info_align(expected_size, alignment).size : get_size_info(expected_size).size;
         deallocate_small(p, &expected_size);
         thread_seal_metadata();
         return;
@@ -1728,6 +1730,15 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
     thread_seal_metadata();
 }
 
+EXPORT void h_free_sized(void *p, size_t expected_size) {
+    free_sized_aligned(p, expected_size, min_align);
+}
+
+// not exported, used to implement C++17 aligned sized deallocation
+void h_free_aligned_sized(void *p, size_t alignment, size_t expected_size) {
+    free_sized_aligned(p, expected_size, alignment);
+}
+
 static inline void memory_corruption_check_small(const void *p) {
     struct slab_size_class_info size_class_info = slab_size_class(p);
     size_t class = size_class_info.class;
diff --git a/include/h_malloc.h b/include/h_malloc.h
index 0eee395..3649cc5 100644
--- a/include/h_malloc.h
+++ b/include/h_malloc.h
@@ -122,6 +122,9 @@ size_t h_malloc_object_size_fast(const void *ptr);
 // passed size matches the allocated size.
 void h_free_sized(void *ptr, size_t expected_size);
 
+// internal variant of h_free_sized for allocations made with h_aligned_alloc
+void h_free_aligned_sized(void *ptr, size_t alignment, size_t expected_size);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/new.cc b/new.cc
index 165e19e..4f80ab7 100644
--- a/new.cc
+++ b/new.cc
@@ -144,10 +144,10 @@ EXPORT void operator delete[](void *ptr, std::align_val_t, const std::nothrow_t
     h_free(ptr);
 }
 
-EXPORT void operator delete(void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete(void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
 
-EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
-- 
2.43.0


From 3a3fc3dc937ce0b5f611d892df867b17643c27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:47 +0000
Subject: [PATCH 10/17] fix: seal metadata while malloc_info writes to the
 stream

---
 h_malloc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 9bd9fb5..49f07a5 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2034,7 +2034,7 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
 
 #if CONFIG_STATS
     if (likely(is_init())) {
-        thread_unseal_metadata();
+        // metadata is sealed while writing to the stream since stdio may use the allocator
 
         for (unsigned arena = 0; arena < N_ARENA; arena++) {
             fprintf(fp, "<heap nr=\"%u\">", arena);
@@ -2042,12 +2042,14 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
             for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
                 struct size_class *c = &ro.size_class_metadata[arena][class];
 
+                thread_unseal_metadata();
                 mutex_lock(&c->lock);
                 u64 nmalloc = c->nmalloc;
                 u64 ndalloc = c->ndalloc;
                 size_t slab_allocated = c->slab_allocated;
                 size_t allocated = c->allocated;
                 mutex_unlock(&c->lock);
+                thread_seal_metadata();
 
                 if (nmalloc || ndalloc || slab_allocated || allocated) {
                     fprintf(fp, "<bin nr=\"%u\" size=\"%" PRIu32 "\">"
@@ -2064,15 +2066,15 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
         }
 
         struct region_allocator *ra = ro.region_allocator;
+        thread_unseal_metadata();
         mutex_lock(&ra->lock);
         size_t region_allocated = ra->allocated;
         mutex_unlock(&ra->lock);
+        thread_seal_metadata();
 
         fprintf(fp, "<heap nr=\"%u\">"
                 "<allocated_large>%zu</allocated_large>"
                 "</heap>", N_ARENA, region_allocated);
-
-        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0


From 3f390d7affaa2934b3e2339b62d3d8204d6dce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:47 +0000
Subject: [PATCH 11/17] fix: unseal metadata for reading in mallinfo_bin_info

---
 h_malloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 49f07a5..319cab2 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2150,7 +2150,7 @@ EXPORT struct mallinfo h_mallinfo_bin_info(UNUSED size_t arena, UNUSED size_t bi
     }
 
     if (arena < N_ARENA && bin < N_SIZE_CLASSES) {
-        thread_seal_metadata();
+        thread_unseal_metadata();
 
         struct size_class *c = &ro.size_class_metadata[arena][bin];
 
@@ -2160,7 +2160,7 @@ EXPORT struct mallinfo h_mallinfo_bin_info(UNUSED size_t arena, UNUSED size_t bi
         info.fordblks = c->ndalloc;
         mutex_unlock(&c->lock);
 
-        thread_unseal_metadata();
+        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0


From 4cf7093979721cecab43611fe190888a0cc8f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:47 +0000
Subject: [PATCH 12/17] fix: preserve errno in free when labelling slabs

---
 h_malloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 319cab2..15c92a5 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -895,6 +895,8 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
             int saved_errno = errno;
             if (!memory_map_fixed(slab, slab_size)) {
                 label_slab(slab, slab_size, class);
+                // labelling is allowed to fail
+                errno = saved_errno;
                 stats_slab_deallocate(c, slab_size);
                 enqueue_free_slab(c, metadata);
                 mutex_unlock(&c->lock);
-- 
2.43.0


From 6f88c4def143412bd903f64f66e38d158b79a80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:20 +0000
Subject: [PATCH 13/17] fix: serve aligned zero-size requests without large
 size classes

With CONFIG_LARGE_SIZE_CLASSES=false the size of a zero-size request with an
alignment above the page size was rounded to zero, which is the marker for
overflow, so posix_memalign and aligned_alloc failed with ENOMEM.
---
 h_malloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 15c92a5..8a7dcbd 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1342,7 +1342,7 @@ static size_t get_large_size_class(size_t size) {
         // etc.
         return get_size_info(max(size, (size_t)PAGE_SIZE)).size;
     }
-    return page_align(size);
+    return page_align(max(size, (size_t)PAGE_SIZE));
 }
 
 static size_t get_guard_size(struct random_state *state, size_t size) {
-- 
2.43.0


From 4cea9419f37d6cd068dae073df138109b34a85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 14/17] fix: reject huge sizes in sized deallocation of
 zero-size allocations

---
 h_malloc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 8a7dcbd..0593f2b 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1718,9 +1718,13 @@ static void free_sized_aligned(void *p, size_t expected_size, size_t alignment)
     expected_size = adjust_size_for_canary(expected_size);
 
     if (p < get_slab_region_end() && p >= ro.slab_region_start) {
+        // the size class computation wraps around to the zero size class for huge sizes
+        if (unlikely(expected_size > max_slab_size_class)) {
+            fatal_error("sized deallocation mismatch (small)");
+        }
         thread_unseal_metadata();
         // must match the size class selection of allocate_aligned
-        expected_size = alignment > min_align && alignment <= PAGE_SIZE && expected_size <= max_slab_size_class ?
+        expected_size = alignment > min_align && alignment <= PAGE_SIZE ?
             get_size_info_align(expected_size, alignment).size : get_size_info(expected_size).size;
         deallocate_small(p, &expected_size);
         thread_seal_metadata();
-- 
2.43.0


From 9851bc95670990a976be6aa23d90bfd9717bbbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:10 +0000
Subject: [PATCH 15/17] fix: seal metadata once initialisation is complete

---
 h_malloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 0593f2b..6167465 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1300,6 +1300,9 @@ COLD static void init_slow_path(void) {
 
     mutex_unlock(&init_lock);
 
+    // the metadata key was allocated with access enabled for the current thread
+    thread_seal_metadata();
+
     // may allocate, so wait until the allocator is initialized to avoid deadlocking
     if (unlikely(pthread_atfork(full_lock, full_unlock, post_fork_child))) {
         fatal_error("pthread_atfork failed");
-- 
2.43.0


From 83d5d60600bc531d4e58a288b2e1fbaa98f6311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:35 +0000
Subject: [PATCH 16/17] fix: do not unmap the leading range of an aligned
 allocation twice

When unmapping the unused space behind an over-aligned allocation fails,
the whole reservation was unmapped, including the space in front of it
which had already been given back and may be in use by another thread.
---
 pages.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pages.c b/pages.c
index 27558de..e8d19db 100644
--- a/pages.c
+++ b/pages.c
@@ -73,7 +73,8 @@ void *allocate_pages_aligned(size_t usable_size, size_t alignment, size_t guard_
 
     if (trail_size) {
         if (unlikely(memory_unmap((char *)base + usable_size + guard_size, trail_size))) {
-            memory_unmap(real, real_alloc_size);
+            // the leading range may already be in use by another thread
+            memory_unmap((char *)real + lead_size, real_alloc_size - lead_size);
             return NULL;
         }
     }
-- 
2.43.0


From fd67841735cfc795364659efcdfb4a39189a1880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:14 +0000
Subject: [PATCH 17/17] fix: keep replaced slab memory mapped for memory
 tagging

Slabs released by deallocate_small() and malloc_trim() were replaced with a
mapping without PROT_MTE, which can't be added back when the slab is reused,
so reused slabs silently lost memory tagging.
---
 h_malloc.c | 16 ++++++++++++++--
 memory.c   |  9 +++++++++
 memory.h   |  3 +++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 6167465..4241af5 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -747,6 +747,18 @@ static size_t slab_usable_size(const void *p) {
     return size_classes[slab_size_class(p).class];
 }
 
+// replace an unused slab with fresh inaccessible memory
+static bool map_unused_slab(void *slab, size_t slab_size) {
+#ifdef HAS_ARM_MTE
+    // the slab will be reused, and PROT_MTE can't be added back via memory_protect_rw()
+    if (likely(is_memtag_enabled())) {
+        return memory_map_fixed_mte(slab, slab_size);
+    }
+#endif
+
+    return memory_map_fixed(slab, slab_size);
+}
+
 static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metadata) {
     metadata->next = NULL;
 
@@ -893,7 +905,7 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 
         if (c->empty_slabs_total + slab_size > max_empty_slabs_total) {
             int saved_errno = errno;
-            if (!memory_map_fixed(slab, slab_size)) {
+            if (!map_unused_slab(slab, slab_size)) {
                 label_slab(slab, slab_size, class);
                 // labelling is allowed to fail
                 errno = saved_errno;
@@ -1931,7 +1943,7 @@ EXPORT int h_malloc_trim(UNUSED size_t pad) {
             struct slab_metadata *iterator = c->empty_slabs;
             while (iterator) {
                 void *slab = get_slab(c, slab_size, iterator);
-                if (memory_map_fixed(slab, slab_size)) {
+                if (map_unused_slab(slab, slab_size)) {
                     break;
                 }
                 label_slab(slab, slab_size, class);
diff --git a/memory.c b/memory.c
index 5434060..24cf0c2 100644
--- a/memory.c
+++ b/memory.c
@@ -40,6 +40,15 @@ void *memory_map_mte(size_t size) {
     }
     return p;
 }
+
+bool memory_map_fixed_mte(void *ptr, size_t size) {
+    void *p = mmap(ptr, size, PROT_MTE, MAP_ANONYMOUS|MAP_PRIVATE|MAP_FIXED, -1, 0);
+    bool ret = p == MAP_FAILED;
+    if (unlikely(ret) && errno != ENOMEM) {
+        fatal_error("non-ENOMEM MTE MAP_FIXED mmap failure");
+    }
+    return ret;
+}
 #endif
 
 bool memory_map_fixed(void *ptr, size_t size) {
diff --git a/memory.h b/memory.h
index 6e4cd4d..d5e336b 100644
--- a/memory.h
+++ b/memory.h
@@ -15,6 +15,9 @@ void *memory_map(size_t size);
 void *memory_map_mte(size_t size);
 #endif
 bool memory_map_fixed(void *ptr, size_t size);
+#ifdef HAS_ARM_MTE
+bool memory_map_fixed_mte(void *ptr, size_t size);
+#endif
 bool memory_unmap(void *ptr, size_t size);
 bool memory_protect_ro(void *ptr, size_t size);
 bool memory_protect_rw(void *ptr, size_t size);
-- 
2.43.0

