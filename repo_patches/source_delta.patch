From dbd595d022ac78e319817cfd0ad8d2dbb340a904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 01/25] fix: slow bitmap scan skips the free slots of the last
 qword

The tail loop of iso_scan_zone_free_slot_slow() had its test inverted: it
skipped every qword that was not completely used, so free chunks in the
last qword of a zone with an odd number of bitmap qwords were never found
and the zone was marked full.
---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 498f2bd..525aa79 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -772,7 +772,7 @@ INTERNAL_HIDDEN bit_slot_t iso_scan_zone_free_slot_slow(iso_alloc_zone_t *zone)
     for(bitmap_index_t i = max; i < zone->max_bitmap_idx; i++) {
         bit_slot_t bts = bm[i];
 
-        if(bts != USED_BIT_VECTOR) {
+        if(bts == USED_BIT_VECTOR) {
             continue;
         }
 
-- 
2.43.0


From 1f1fb38a6dd48fbdfc6a3f738a8ad9b8186488c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 02/25] fix: a replacement of zone 0 keeps index 0

Replacing zone 0 stored zones_used as its index, so the lookup tables
referred to a zone that does not exist.
---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 525aa79..896d18c 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -492,7 +492,7 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     create_guard_page(user_pages_guard_above);
 
     /* We created a new zone, we did not replace a retired one */
-    if(index > 0) {
+    if(index >= 0) {
         new_zone->index = index;
     } else {
         new_zone->index = _root->zones_used;
-- 
2.43.0


From 7483ee03aeb7606eb31e0b1b5d5146c6fefc4022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 03/25] fix: replacing a zone does not need a free zone slot

With MAX_ZONES zones in use, retiring or destroying a zone aborted even
though its replacement reuses the existing slot.
---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 896d18c..185609b 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -326,7 +326,7 @@ INTERNAL_HIDDEN void create_canary_chunks(iso_alloc_zone_t *zone) {
 
 /* Requires the root is locked */
 INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int32_t index) {
-    if(UNLIKELY(_root->zones_used >= MAX_ZONES) || UNLIKELY(index >= MAX_ZONES)) {
+    if((index < 0 && UNLIKELY(_root->zones_used >= MAX_ZONES)) || UNLIKELY(index >= MAX_ZONES)) {
         LOG_AND_ABORT("Cannot allocate additional zones. I have already allocated %d zones", _root->zones_used);
     }
 
-- 
2.43.0


From 49c974f434893d277135fc3c67c0be2fa33486fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 04/25] fix: hand out only as many bitmap slices as in_use can
 track

A page of 16 byte bitmaps has 256 slices but in_use has 32 bits, shifting
by more than that is undefined and handed the same slice to two zones.
---
 src/iso_alloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 185609b..49568f4 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -388,6 +388,12 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
                 }
 
                 int bits_available = g_page_size / new_zone->bitmap_size;
+                const int in_use_bits = sizeof(_root->bitmaps[i].in_use) * BITS_PER_BYTE;
+
+                /* We can only track as many slices as in_use has bits */
+                if(bits_available > in_use_bits) {
+                    bits_available = in_use_bits;
+                }
 
                 for(int z = 0; z < bits_available; z++) {
                     if((GET_BIT(_root->bitmaps[i].in_use, z)) == 0) {
-- 
2.43.0


From 699e322f3f6d8fbf9bcc314cdae757a2a7d3bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 05/25] fix: free path does not read past the end of the zone
 bitmap

max_bitmap_idx is a count of qwords, and chunk_count may be larger than the
number of chunks the bitmap tracks. Freeing the last tracked chunk looked at
the qword after the bitmap, which may belong to another zone's bitmap, and
could report a corrupted canary in a chunk that has none.
---
 src/iso_alloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 49568f4..1a7a22b 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1429,7 +1429,7 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       chunk_offset, p, zone->index, zone->chunk_size, (chunk_offset & (zone->chunk_size - 1)));
     }
 
-    if(UNLIKELY(dwords_to_bit_slot > zone->max_bitmap_idx)) {
+    if(UNLIKELY(dwords_to_bit_slot >= zone->max_bitmap_idx)) {
         LOG_AND_ABORT("Cannot calculate this chunks location in the bitmap 0x%p", p);
     }
 
@@ -1477,7 +1477,8 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
 
     if((chunk_number + 1) != zone->chunk_count) {
         const bit_slot_t bit_slot_over = ((chunk_number + 1) << BITS_PER_CHUNK_SHIFT);
-        if((GET_BIT(bm[(bit_slot_over >> BITS_PER_QWORD_SHIFT)], (WHICH_BIT(bit_slot_over) + 1))) == 1) {
+        /* The bitmap may be too small to track the last chunks of a zone */
+        if((bit_slot_over >> BITS_PER_QWORD_SHIFT) < zone->max_bitmap_idx && (GET_BIT(bm[(bit_slot_over >> BITS_PER_QWORD_SHIFT)], (WHICH_BIT(bit_slot_over) + 1))) == 1) {
             check_canary(zone, p + zone->chunk_size);
         }
     }
-- 
2.43.0


From ed5a25bf75f62c16672129fa321415b17feaf07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 06/25] fix: looking up a big zone without removing it leaves
 the used list alone

iso_find_big_zone(p, false), used by iso_chunksz() and realloc(), cleared
the next pointer of the zone it found, unlinked the head of the list and
decremented its count.
---
 src/iso_alloc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 1a7a22b..40e783d 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1762,7 +1762,12 @@ INTERNAL_HIDDEN iso_alloc_big_zone_t *iso_find_big_zone(void *p, bool remove) {
         check_big_canary(big_zone);
         /* Only an exact match of the address is valid */
         if(p == big_zone->user_pages_start) {
-            if(remove == true && prev != NULL) {
+            if(remove == false) {
+                UNLOCK_BIG_ZONE_USED();
+                return big_zone;
+            }
+
+            if(prev != NULL) {
                 prev->next = big_zone->next;
             }
 
-- 
2.43.0


From 5beddfbdb9f7867e3f76c00811e6dae41187f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 07/25] fix: chunk lookup table index must be below zones_used

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 40e783d..9a09129 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1233,7 +1233,7 @@ INTERNAL_HIDDEN iso_alloc_zone_t *search_chunk_lookup_table(const void *restrict
      * zone given a pointer to a chunk so we check it first */
     uint16_t zone_index = _root->chunk_lookup_table[ADDR_TO_CHUNK_TABLE(p)];
 
-    if(UNLIKELY(zone_index > _root->zones_used)) {
+    if(UNLIKELY(zone_index >= _root->zones_used)) {
         LOG_AND_ABORT("Pointer to zone lookup table corrupted at position %zu", ADDR_TO_CHUNK_TABLE(p));
     }
 
-- 
2.43.0


From 6cbd149d631ad912fb3842a85aad1a3513951f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 08/25] fix: iso_strdup and iso_strndup terminate the strings
 they return

iso_strdup() neither reserved nor copied the NUL terminator, and a string
whose length is a chunk size had no room for one. iso_strndup() dropped the
last byte when truncating, left the copy unterminated otherwise, and wrote
before the chunk when n was 0.
---
 src/iso_alloc_interfaces.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 7db679e..5fb03d9 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -113,7 +113,8 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strdup_from_zone(iso_al
         return NULL;
     }
 
-    size_t size = strlen(str);
+    /* Include the NUL terminator */
+    size_t size = strlen(str) + 1;
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
@@ -138,25 +139,21 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strndup_from_zone(iso_a
         return NULL;
     }
 
-    size_t s_size = strlen(str);
+    const char *nul = memchr(str, '\0', n);
+    size_t s_size = (nul != NULL) ? (size_t) (nul - str) : n;
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
     }
 
-    char *p = (char *) _iso_alloc(zone, n);
+    char *p = (char *) _iso_alloc(zone, s_size + 1);
 
     if(p == NULL) {
         return NULL;
     }
 
-    if(s_size > n) {
-        _iso_alloc_memcpy(p, str, n);
-        p[n - 1] = '\0';
-    } else {
-        _iso_alloc_memcpy(p, str, s_size);
-    }
-
+    _iso_alloc_memcpy(p, str, s_size);
+    p[s_size] = '\0';
     return p;
 }
 
-- 
2.43.0


From 6e75ab4360340dc48af77d471e5878a207093f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 09/25] fix: sizes near SIZE_MAX do not wrap to a small chunk

Rounding such a size up to the chunk alignment wrapped to 0, so malloc()
returned a chunk of the smallest zone and calloc() the zero page.
---
 src/iso_alloc.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 9a09129..99ffcac 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1038,6 +1038,11 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
     } else if((size % SZ_ALIGNMENT) != 0) {
+        /* Rounding up must not wrap around */
+        if(UNLIKELY(size > (SIZE_MAX - SZ_ALIGNMENT))) {
+            return NULL;
+        }
+
         size = ALIGN_SZ_UP(size);
     }
 
@@ -1072,6 +1077,14 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
     } else if((size % SZ_ALIGNMENT) != 0) {
+        /* Rounding up must not wrap around */
+        if(UNLIKELY(size > (SIZE_MAX - SZ_ALIGNMENT))) {
+#if ABORT_ON_NULL
+            LOG_AND_ABORT("isoalloc configured to abort on NULL");
+#endif
+            return NULL;
+        }
+
         size = ALIGN_SZ_UP(size);
     }
 
-- 
2.43.0


From a5f1409f8dcbd8f4b63dbf3f110124d8d1289acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 10/25] fix: tag lookup accepts exactly the chunks of the zone

The address one past the user pages was accepted, and the alignment test
was only right for chunk sizes that are a power of two.
---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 2bb3713..3501b5a 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -11,7 +11,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
 #if MEMORY_TAGGING
     void *user_pages_start = UNMASK_USER_PTR(zone);
 
-    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) < p) {
+    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) <= p) {
         LOG_AND_ABORT("Cannot get tag for pointer %p with wrong zone %d %p - %p", p, zone->index, user_pages_start, user_pages_start + ZONE_USER_SIZE);
     }
 
@@ -19,7 +19,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
     const uint64_t chunk_offset = (uint64_t) (p - user_pages_start);
 
     /* Ensure the pointer is a multiple of chunk size */
-    if(UNLIKELY((chunk_offset & (zone->chunk_size - 1)) != 0)) {
+    if(UNLIKELY((chunk_offset % zone->chunk_size) != 0)) {
         LOG_AND_ABORT("Chunk offset %d not an alignment of %d", chunk_offset, zone->chunk_size);
     }
 
-- 
2.43.0


From e3c6a66b73bc08a39f44600e97a5f590e23e2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 11/25] fix: verifying a pointer tag compares the tag, not the
 shifted tag

iso_alloc_verify_ptr_tag() aborted for every correctly tagged pointer
except those with tag 0.
---
 src/iso_alloc_mem_tags.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 3501b5a..9670c28 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -40,7 +40,7 @@ INTERNAL_HIDDEN void _iso_alloc_verify_tag(void *p, iso_alloc_zone_t *zone) {
     void *untagged_p = (void *) ((uintptr_t) p & TAGGED_PTR_MASK);
     const uint64_t tag = _iso_alloc_get_mem_tag(untagged_p, zone);
 
-    if(tag != ((uintptr_t) p & IS_TAGGED_PTR_MASK)) {
+    if(tag != (((uintptr_t) p & IS_TAGGED_PTR_MASK) >> UNTAGGED_BITS)) {
         LOG_AND_ABORT("Pointer %p has wrong tag %x, expected %x", p, ((uintptr_t) p & IS_TAGGED_PTR_MASK), tag);
     }
 #endif
-- 
2.43.0


From 90810dbba21f6d01fd0dcb65e14d4383f72e7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 12/25] fix: memory tags are refreshed when a zone reaches a
 quarter of its retirement age

The shift was applied to the result of the comparison, so the refresh never
ran, and it would have used the masked user pages pointer.
---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 9670c28..8d1cf66 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -79,9 +79,9 @@ INTERNAL_HIDDEN bool _refresh_zone_mem_tags(iso_alloc_zone_t *zone) {
     /* This implements a similar policy to zone retirement.
      * The only difference is that we refresh all tags at
      * %25 of the configured zone retirement age */
-    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > (zone->chunk_count << _root->zone_retirement_shf)) >> 2) {
+    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > ((zone->chunk_count << _root->zone_retirement_shf) >> 2))) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
-        uint64_t *_mtp = (zone->user_pages_start - g_page_size - s);
+        uint64_t *_mtp = (UNMASK_USER_PTR(zone) - g_page_size - s);
         size_t tms = s / sizeof(uint64_t);
 
         for(uint64_t o = 0; o < tms; o++) {
-- 
2.43.0


From e1671e2cb387e45fdd661ceb1b6b7d0d7bef6294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 13/25] fix: destroying a tagged zone unmaps the guard page
 below its tags

---
 src/iso_alloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 99ffcac..00baf98 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -224,7 +224,8 @@ INTERNAL_HIDDEN void _iso_alloc_destroy_zone_unlocked(iso_alloc_zone_t *zone, bo
     if(zone->tagged == true) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
         void *_mtp = (zone->user_pages_start - s - g_page_size);
-        munmap(_mtp, g_page_size + s);
+        /* This also unmaps the guard pages around the tags */
+        munmap(_mtp - g_page_size, s + (g_page_size * 2));
         zone->tagged = false;
     }
 #endif
-- 
2.43.0


From 7a1f06d55f3fe3018a7aad78932cba1cb2cd6308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 14/25] fix: unmap the meta data page of a big zone

Big zone meta data lives at a random offset in its page, so munmap() failed
with EINVAL and every retired big zone leaked a page. ROUND_DOWN_PAGE() of an
address that is already page aligned returned the page before it.
---
 include/iso_alloc_internal.h | 2 +-
 src/iso_alloc.c              | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index c8f87cb..2d76888 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -204,7 +204,7 @@ assert(sizeof(size_t) >= 64)
     ((((n + g_page_size) - 1) >> g_page_size_shift) * (g_page_size))
 
 #define ROUND_DOWN_PAGE(n) \
-    (ROUND_UP_PAGE(n) - g_page_size)
+    (((n) >> g_page_size_shift) << g_page_size_shift)
 
 #if MASK_PTRS
 #define MASK_ZONE_PTRS(zone) \
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 00baf98..827994e 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1866,9 +1866,9 @@ INTERNAL_HIDDEN void iso_free_big_zone(iso_alloc_big_zone_t *big_zone, bool perm
 #endif
 
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
     }
 }
@@ -2111,9 +2111,9 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
 #endif
 
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
         big_zone = big;
     }
-- 
2.43.0


From 52a3280bc1380d10ac91dfc5bd699ae3396c0f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 15/25] fix: ALLOC_SANITY samples ordinary allocations, not
 private zone ones

The test was inverted: only allocations from private zones were sampled, and
freeing such a chunk through its zone aborted. The sample cache was also one
entry smaller than the range of its index.
---
 include/iso_alloc_sanity.h | 2 +-
 src/iso_alloc.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index 02f23a6..cda917b 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -16,7 +16,7 @@
 
 #define SANITY_SAMPLE_ODDS 10000
 #define MAX_SANE_SAMPLES 1024
-#define SANE_CACHE_SIZE 65535
+#define SANE_CACHE_SIZE 65536
 #define SANE_CACHE_IDX(p) (((uint64_t) p >> 8) & 0xffff)
 #define SANITY_CANARY_VALIDATE_MASK 0xffffffffffffff00
 #define SANITY_CANARY_SIZE 8
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 827994e..c324252 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1120,7 +1120,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 
 #if ALLOC_SANITY
     /* We don't sample if we are allocating from a private zone */
-    if(zone != NULL) {
+    if(zone == NULL) {
         if(size < g_page_size && _sane_sampled < MAX_SANE_SAMPLES) {
             /* If we chose to sample this allocation then
              * _iso_alloc_sample will call UNLOCK_ROOT() */
-- 
2.43.0


From 0c4a0cf1dda3415b2298e1b0b4b5e2daa9ae06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 16/25] fix: zone verification rejects next_sz_index equal to
 zones_used

---
 src/iso_alloc_sanity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 752d506..edd8863 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -92,7 +92,7 @@ INTERNAL_HIDDEN void _verify_zone(iso_alloc_zone_t *zone) {
     const bitmap_index_t *bm = (bitmap_index_t *) zone->bitmap_start;
     bit_slot_t bit_slot;
 
-    if(zone->next_sz_index > _root->zones_used) {
+    if(zone->next_sz_index >= _root->zones_used) {
         LOG_AND_ABORT("Detected corruption in zone[%d] next_sz_index=%d", zone->index, zone->next_sz_index);
     }
 
-- 
2.43.0


From 09d9aa9906b114ebb1cc7569f2b46bc17746cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 17/25] fix: the profiler copies out as many traces as it
 reports

iso_get_alloc_traces() and iso_get_free_traces() return the number of traces
but copied only the first one.
---
 src/iso_alloc_profiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 9e4078d..5b2cb56 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -244,7 +244,7 @@ INTERNAL_HIDDEN uint64_t __iso_alloc_big_zone_mem_usage(iso_alloc_big_zone_t *he
  * be used to interpret allocation patterns */
 INTERNAL_HIDDEN size_t _iso_get_alloc_traces(iso_alloc_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _alloc_bts, sizeof(iso_alloc_traces_t));
+    __iso_memcpy(traces_out, _alloc_bts, _alloc_bts_count * sizeof(iso_alloc_traces_t));
     size_t sz = _alloc_bts_count;
     UNLOCK_ROOT();
     return sz;
@@ -252,7 +252,7 @@ INTERNAL_HIDDEN size_t _iso_get_alloc_traces(iso_alloc_traces_t *traces_out) {
 
 INTERNAL_HIDDEN size_t _iso_get_free_traces(iso_free_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _free_bts, sizeof(iso_free_traces_t));
+    __iso_memcpy(traces_out, _free_bts, _free_bts_count * sizeof(iso_free_traces_t));
     size_t sz = _free_bts_count;
     UNLOCK_ROOT();
     return sz;
-- 
2.43.0


From 8682368f592ed634594a2ea2df043a1d2f6d522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 18/25] fix: freeing a canary or permanently freed chunk is a
 double free

---
 src/iso_alloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index c324252..ec39ff3 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1456,8 +1456,9 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
      * which could result in a page fault */
     bitmap_index_t b = bm[dwords_to_bit_slot];
 
-    /* Double free detection */
-    if(UNLIKELY((GET_BIT(b, which_bit)) == 0)) {
+    /* Double free detection. Both bits are set for canary chunks
+     * and for chunks that were free'd permanently */
+    if(UNLIKELY((GET_BIT(b, which_bit)) == 0 || (GET_BIT(b, (which_bit + 1))) != 0)) {
         LOG_AND_ABORT("Double free of chunk 0x%p detected from zone[%d] dwords_to_bit_slot=%lu bit_slot=%lu",
                       p, zone->index, dwords_to_bit_slot, bit_slot);
     }
-- 
2.43.0


From f71f869e34175547242b73fbf7d582ced747faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 19/25] fix: iso_alloc_new_zone returned a masked NULL as a
 zone handle

---
 src/iso_alloc_interfaces.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 5fb03d9..453d4ce 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -228,6 +228,12 @@ EXTERNAL_API FLATTEN void iso_alloc_destroy_zone(iso_alloc_zone_handle *zone) {
 
 EXTERNAL_API FLATTEN NO_DISCARD iso_alloc_zone_handle *iso_alloc_new_zone(size_t size) {
     iso_alloc_zone_handle *zone = (iso_alloc_zone_handle *) iso_new_zone(size, false);
+
+    /* Don't hand out a masked NULL as if it were a handle */
+    if(zone == NULL) {
+        return NULL;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     return zone;
 }
-- 
2.43.0


From 500faf57d30620863116107d2cfbca7f66da3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 20/25] fix: calloc wrote to a NULL pointer when the allocation
 failed

---
 src/iso_alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index ec39ff3..af7ffbc 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1056,6 +1056,10 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
     void *p = _iso_alloc(NULL, sz);
 
+    if(UNLIKELY(p == NULL)) {
+        return NULL;
+    }
+
 #if NO_ZERO_ALLOCATIONS
     /* Without this check we would immediately segfault in
      * the call to __iso_memset() to zeroize the chunk */
-- 
2.43.0


From f00a32c722be8d294214e2c8986b523d05ee5354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 21/25] fix: fall back to normal pages when no huge pages are
 reserved

---
 src/iso_alloc_util.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_util.c b/src/iso_alloc_util.c
index 132780e..8adfcdf 100644
--- a/src/iso_alloc_util.c
+++ b/src/iso_alloc_util.c
@@ -151,7 +151,16 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #endif
 #endif
 
-    p = mmap(p, sz, prot, flags, fd, 0);
+    void *addr = p;
+    p = mmap(addr, sz, prot, flags, fd, 0);
+
+#if __linux__ && MAP_HUGETLB && HUGE_PAGES
+    /* Most systems have no huge pages reserved, we
+     * must be able to do without them */
+    if(p == MAP_FAILED && (flags & MAP_HUGETLB) != 0) {
+        p = mmap(addr, sz, prot, (flags & ~MAP_HUGETLB), fd, 0);
+    }
+#endif
 
     if(p == MAP_FAILED) {
         LOG_AND_ABORT("Failed to mmap rw pages");
-- 
2.43.0


From d7f75bcaf2db4fe3141ebfd6c6f69c9de3e1c339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:45 +0000
Subject: [PATCH 22/25] fix: the random seed was updated without the root lock
 by big allocations

---
 src/iso_alloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index af7ffbc..6dec266 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2003,8 +2003,11 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_big_alloc(size_t size) {
 #endif
 
     /* The second page is for meta data and it is placed
-     * at a random offset from the start of the page */
+     * at a random offset from the start of the page. The
+     * seed is shared and protected by the root lock */
+    LOCK_ROOT();
     uint32_t random_offset = ALIGN_SZ_DOWN(us_rand_uint64(&_root->seed));
+    UNLOCK_ROOT();
     size_t s = g_page_size - (sizeof(iso_alloc_big_zone_t) - 1);
     new_big = (iso_alloc_big_zone_t *) ((void *) new_big + ((random_offset * s) >> 32));
     new_big->free = false;
-- 
2.43.0


From 0d2c4201de9a927d0b232a3aa770b90deac814b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 23/25] fix: teardown unlocked the big zone mutexes twice

---
 src/iso_alloc.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 6dec266..e6554c6 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2192,9 +2192,7 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     unmap_guarded_pages(zone_cache, ZONE_CACHE_SZ * sizeof(_tzc));
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
-    UNLOCK_BIG_ZONE_FREE();
     pthread_mutex_destroy(&_root->big_zone_free_mutex);
-    UNLOCK_BIG_ZONE_USED();
     pthread_mutex_destroy(&_root->big_zone_used_mutex);
 #endif
 
-- 
2.43.0


From ff4f0834388f55d1764c944e8dad997d8a5a9d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 24/25] fix: teardown unmapped the thread local zone cache

---
 src/iso_alloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index e6554c6..7582f62 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2189,7 +2189,10 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 #if ISO_DTOR_CLEANUP
     unmap_guarded_pages(_root->chunk_lookup_table, CHUNK_TO_ZONE_TABLE_SZ);
     unmap_guarded_pages(_root->chunk_quarantine, CHUNK_QUARANTINE_SZ * sizeof(uintptr_t));
+#if !THREAD_SUPPORT
+    /* With threads the cache is thread local, not a mapping */
     unmap_guarded_pages(zone_cache, ZONE_CACHE_SZ * sizeof(_tzc));
+#endif
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
     pthread_mutex_destroy(&_root->big_zone_free_mutex);
-- 
2.43.0


From e16dac17488bf53ce348775188e6cea3ac2f8cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 25/25] fix: ISO_DTOR_CLEANUP did not compile without
 ALLOC_SANITY

---
 src/iso_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 7582f62..9d95e2f 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2210,7 +2210,9 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     UNLOCK_ROOT();
 
 #if ISO_DTOR_CLEANUP && THREAD_SUPPORT && !USE_SPINLOCK
+#if ALLOC_SANITY
     pthread_mutex_destroy(&sane_cache_mutex);
+#endif
     pthread_mutex_destroy(&root_busy_mutex);
 #endif
 }
-- 
2.43.0

