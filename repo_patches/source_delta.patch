From 01d38c97e4ae4b2b7260b481453126f6645ff51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:59 +0000
Subject: [PATCH 001/167] fix: decode surrogate pair escapes in JSON strings as
 one character

A character outside the BMP written as two \u escapes was decoded into two
separate three-byte sequences, which is not UTF-8.
---
 src/json/mcp_json_parser.c | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index db6e9bd..0e33874 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -28,9 +28,8 @@ static void skip_whitespace(const char** json) {
     }
 }
 
-// Helper function to convert a 4-digit hex Unicode escape to UTF-8
-static int hex_to_utf8(const char* hex, char* utf8) {
-    // Convert 4 hex digits to a Unicode code point
+// Helper function to read the 4 hex digits of a \u escape; returns false on an invalid digit
+static bool parse_hex4(const char* hex, unsigned int* value) {
     unsigned int code_point = 0;
     for (int i = 0; i < 4; i++) {
         code_point <<= 4;
@@ -41,9 +40,28 @@ static int hex_to_utf8(const char* hex, char* utf8) {
         } else if (hex[i] >= 'A' && hex[i] <= 'F') {
             code_point |= hex[i] - 'A' + 10;
         } else {
-            return 0; // Invalid hex digit
+            return false; // Invalid hex digit
         }
     }
+    *value = code_point;
+    return true;
+}
+
+// Helper function to convert a 4-digit hex Unicode escape to UTF-8.
+// A high surrogate directly followed by an escaped low surrogate is combined into one
+// code point; *consumed is the number of input characters used after the "\u".
+static int hex_to_utf8(const char* hex, char* utf8, size_t* consumed) {
+    unsigned int code_point = 0;
+    unsigned int low = 0;
+    if (!parse_hex4(hex, &code_point)) {
+        return 0;
+    }
+    *consumed = 4;
+    if (code_point >= 0xD800 && code_point <= 0xDBFF && hex[4] == '\\' && hex[5] == 'u' &&
+        parse_hex4(hex + 6, &low) && low >= 0xDC00 && low <= 0xDFFF) {
+        code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
+        *consumed = 10;
+    }
 
     // Convert code point to UTF-8
     if (code_point < 0x80) {
@@ -55,12 +73,19 @@ static int hex_to_utf8(const char* hex, char* utf8) {
         utf8[0] = (char)(0xC0 | (code_point >> 6));
         utf8[1] = (char)(0x80 | (code_point & 0x3F));
         return 2;
-    } else {
+    } else if (code_point < 0x10000) {
         // 3-byte UTF-8
         utf8[0] = (char)(0xE0 | (code_point >> 12));
         utf8[1] = (char)(0x80 | ((code_point >> 6) & 0x3F));
         utf8[2] = (char)(0x80 | (code_point & 0x3F));
         return 3;
+    } else {
+        // 4-byte UTF-8
+        utf8[0] = (char)(0xF0 | (code_point >> 18));
+        utf8[1] = (char)(0x80 | ((code_point >> 12) & 0x3F));
+        utf8[2] = (char)(0x80 | ((code_point >> 6) & 0x3F));
+        utf8[3] = (char)(0x80 | (code_point & 0x3F));
+        return 4;
     }
 }
 
@@ -129,8 +154,9 @@ static char* parse_string(const char** json) {
                     }
 
                     // Convert \uXXXX to UTF-8
-                    char utf8_buf[4]; // Max 3 bytes for BMP + null terminator
-                    int utf8_len = hex_to_utf8(p, utf8_buf);
+                    char utf8_buf[4];
+                    size_t consumed = 0;
+                    int utf8_len = hex_to_utf8(p, utf8_buf, &consumed);
                     if (utf8_len == 0) {
                         mcp_log_error("Failed to convert Unicode escape to UTF-8.");
                         free(result);
@@ -142,7 +168,7 @@ static char* parse_string(const char** json) {
                         result[length++] = utf8_buf[i];
                     }
 
-                    p += 4; // Skip the 4 hex digits
+                    p += consumed; // Skip the hex digits (and the low surrogate escape)
                     break;
                 }
                 default:
-- 
2.43.0


From fb29629ce829056a7339d18e14dfb1b0100aaf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:40 +0000
Subject: [PATCH 002/167] fix: reject JSON numbers with leading zeros

Numbers such as 007 are not valid JSON but were read as 7.
---
 src/json/mcp_json_parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index 0e33874..ab1d23c 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -322,6 +322,9 @@ static mcp_json_t* parse_number(const char** json) {
         (*json)++;
     if (**json < '0' || **json > '9')
         return NULL;
+    // A leading zero must not be followed by further digits
+    if (**json == '0' && (*json)[1] >= '0' && (*json)[1] <= '9')
+        return NULL;
     while (**json >= '0' && **json <= '9')
         (*json)++;
     if (**json == '.') {
-- 
2.43.0


From f08a6f48a0f7733594a0d8228cdf00856aa41f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:05 +0000
Subject: [PATCH 003/167] fix: recognise memory that is not from a pool without
 reading in front of it

mcp_pool_free and mcp_memory_pool_free looked for a block header 24 bytes before
any pointer, also for malloc'd memory, which reads other allocations' data or
unmapped memory. Pool blocks now never have a malloc-aligned address, so the two
kinds are told apart by the address.
---
 src/common/mcp_memory_pool.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/common/mcp_memory_pool.c b/src/common/mcp_memory_pool.c
index cbc9af5..1e10b0a 100644
--- a/src/common/mcp_memory_pool.c
+++ b/src/common/mcp_memory_pool.c
@@ -3,6 +3,7 @@
 #include "mcp_thread_cache.h"
 #include "mcp_sync.h"
 #include "mcp_log.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
@@ -17,6 +18,16 @@ typedef struct mcp_block_header {
     struct mcp_block_header* next; // Next block in free list
 } mcp_block_header_t;
 
+// malloc returns addresses that are multiples of this. The block header is not a multiple of it
+// and blocks are, so the address of a pool block never is. This tells pool blocks and malloc'd
+// memory apart without reading the bytes in front of memory that is not ours.
+#define MCP_MALLOC_ALIGNMENT (2 * sizeof(void*))
+
+static bool is_malloc_aligned(const void* ptr) {
+    return sizeof(mcp_block_header_t) % MCP_MALLOC_ALIGNMENT != 0 &&
+           (uintptr_t)ptr % MCP_MALLOC_ALIGNMENT == 0;
+}
+
 // Memory pool implementation
 struct mcp_memory_pool {
     size_t block_size;           // Size of each block (including header)
@@ -65,7 +76,8 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
     }
 
     // Initialize pool properties
-    pool->block_size = block_size + sizeof(mcp_block_header_t);
+    pool->block_size = (block_size + sizeof(mcp_block_header_t) + MCP_MALLOC_ALIGNMENT - 1) /
+                       MCP_MALLOC_ALIGNMENT * MCP_MALLOC_ALIGNMENT;
     pool->user_block_size = block_size;
     pool->initial_blocks = initial_blocks;
     pool->max_blocks = max_blocks;
@@ -293,6 +305,12 @@ void* mcp_pool_alloc(size_t size) {
 void mcp_pool_free(void* ptr) {
     if (!ptr) return;
 
+    // Not a pool block: there is no header in front of it
+    if (is_malloc_aligned(ptr)) {
+        free(ptr);
+        return;
+    }
+
     // Check if this is a pool-allocated block by looking at the header
     mcp_block_header_t* header = (mcp_block_header_t*)((char*)ptr - sizeof(mcp_block_header_t));
 
@@ -380,6 +398,12 @@ static void* allocate_from_pool(mcp_memory_pool_t* pool) {
 static bool return_to_pool(mcp_memory_pool_t* pool, void* block) {
     if (!pool || !block) return false;
 
+    // Not a pool block: there is no header in front of it
+    if (is_malloc_aligned(block)) {
+        mcp_log_error("Attempt to return invalid block to memory pool");
+        return false;
+    }
+
     // Get the header from the user block
     mcp_block_header_t* header = (mcp_block_header_t*)((char*)block - sizeof(mcp_block_header_t));
 
@@ -429,7 +453,7 @@ static size_t get_block_size_for_class(mcp_pool_size_class_t size_class) {
 }
 
 size_t mcp_pool_get_block_size(void* ptr) {
-    if (!ptr) return 0;
+    if (!ptr || is_malloc_aligned(ptr)) return 0;
 
     // Check if this is a pool-allocated block by looking at the header
     mcp_block_header_t* header = (mcp_block_header_t*)((char*)ptr - sizeof(mcp_block_header_t));
-- 
2.43.0


From d5b1b87b44faf9b3ae5c4b8ab54a55e7b0281d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:42 +0000
Subject: [PATCH 004/167] fix: examine list ends under the lock in pop and
 move-to-front

Two threads popping the last item of a thread-safe list, or moving the same node
to the front, could dereference NULL or link a node to itself.
---
 src/common/mcp_list.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/common/mcp_list.c b/src/common/mcp_list.c
index 61289d3..14b2507 100644
--- a/src/common/mcp_list.c
+++ b/src/common/mcp_list.c
@@ -264,12 +264,16 @@ void* mcp_list_remove(mcp_list_t* list, mcp_list_node_t* node, void (*free_data)
 }
 
 void* mcp_list_pop_front(mcp_list_t* list) {
-    if (!list || !list->head) return NULL;
+    if (!list) return NULL;
 
     // Lock
     MCP_LIST_LOCK(list);
 
     mcp_list_node_t* node = list->head;
+    if (!node) {
+        MCP_LIST_UNLOCK(list);
+        return NULL;
+    }
     void* data = node->data;
 
     list->head = node->next;
@@ -293,12 +297,16 @@ void* mcp_list_pop_front(mcp_list_t* list) {
 }
 
 void* mcp_list_pop_back(mcp_list_t* list) {
-    if (!list || !list->tail) return NULL;
+    if (!list) return NULL;
 
     // Lock
     MCP_LIST_LOCK(list);
 
     mcp_list_node_t* node = list->tail;
+    if (!node) {
+        MCP_LIST_UNLOCK(list);
+        return NULL;
+    }
     void* data = node->data;
 
     list->tail = node->prev;
@@ -322,11 +330,16 @@ void* mcp_list_pop_back(mcp_list_t* list) {
 }
 
 void mcp_list_move_to_front(mcp_list_t* list, mcp_list_node_t* node) {
-    if (!list || !node || node == list->head) return;
+    if (!list || !node) return;
 
     // Lock
     MCP_LIST_LOCK(list);
 
+    if (node == list->head) {
+        MCP_LIST_UNLOCK(list);
+        return;
+    }
+
     // Remove node from its current position
     if (node->prev) {
         node->prev->next = node->next;
-- 
2.43.0


From 0087f96807cbffa8e20578e7326f709a7a21e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:30 +0000
Subject: [PATCH 005/167] fix: give thread cache blocks from malloc the full
 size of their class

A freed block is reused for any request of its size class. Blocks obtained
from malloc were only as large as the first request, so a later larger
request of the same class overran them.
---
 src/common/mcp_thread_cache.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/common/mcp_thread_cache.c b/src/common/mcp_thread_cache.c
index f32a1a6..aaa221e 100644
--- a/src/common/mcp_thread_cache.c
+++ b/src/common/mcp_thread_cache.c
@@ -497,6 +497,19 @@ bool mcp_thread_cache_is_initialized(void) {
     return tls_cache_initialized;
 }
 
+/**
+ * @brief Rounds a request up to the size of the blocks its cache hands out
+ *
+ * A freed block may be handed out again for any request of the same class, so
+ * blocks that do not come from a pool need the full size of their class too.
+ */
+static size_t cacheable_size(size_t size) {
+    if (size <= SMALL_BLOCK_SIZE) return SMALL_BLOCK_SIZE;
+    if (size <= MEDIUM_BLOCK_SIZE) return MEDIUM_BLOCK_SIZE;
+    if (size <= LARGE_BLOCK_SIZE) return LARGE_BLOCK_SIZE;
+    return size;
+}
+
 /**
  * @brief Allocates memory from the thread-local cache
  *
@@ -520,7 +533,7 @@ void* mcp_thread_cache_alloc(size_t size) {
         if (mcp_memory_pool_system_is_initialized()) {
             return mcp_pool_alloc(size);
         } else {
-            return malloc(size);
+            return malloc(cacheable_size(size));
         }
     }
 
@@ -672,7 +685,7 @@ void* mcp_thread_cache_alloc(size_t size) {
     if (mcp_memory_pool_system_is_initialized()) {
         ptr = mcp_pool_alloc(size);
     } else {
-        ptr = malloc(size);
+        ptr = malloc(cacheable_size(size));
     }
 
     // Log allocation for debugging in case of memory issues
-- 
2.43.0


From a7c9c7555c0c29e6382c68eaab4410b36a6a0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:30 +0000
Subject: [PATCH 006/167] fix: clamp the adaptive bounds of the thread cache to
 its array size

A configured maximum above MAX_CACHE_SIZE let adaptive sizing grow a cache
beyond the arrays that hold its blocks.
---
 src/common/mcp_thread_cache.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/mcp_thread_cache.c b/src/common/mcp_thread_cache.c
index aaa221e..14e2963 100644
--- a/src/common/mcp_thread_cache.c
+++ b/src/common/mcp_thread_cache.c
@@ -425,6 +425,8 @@ bool mcp_thread_cache_init_with_config(const mcp_thread_cache_config_t* config)
     if (tls_shrink_threshold > 1.0) tls_shrink_threshold = 1.0;
 
     if (tls_min_cache_size < 1) tls_min_cache_size = 1;
+    if (tls_min_cache_size > MAX_CACHE_SIZE) tls_min_cache_size = MAX_CACHE_SIZE;
+    if (tls_max_cache_size > MAX_CACHE_SIZE) tls_max_cache_size = MAX_CACHE_SIZE;
     if (tls_max_cache_size < tls_min_cache_size) tls_max_cache_size = tls_min_cache_size;
 
     // Enable LRU by default
@@ -1045,6 +1047,8 @@ bool mcp_thread_cache_configure(const mcp_thread_cache_config_t* config) {
     if (tls_shrink_threshold > 1.0) tls_shrink_threshold = 1.0;
 
     if (tls_min_cache_size < 1) tls_min_cache_size = 1;
+    if (tls_min_cache_size > MAX_CACHE_SIZE) tls_min_cache_size = MAX_CACHE_SIZE;
+    if (tls_max_cache_size > MAX_CACHE_SIZE) tls_max_cache_size = MAX_CACHE_SIZE;
     if (tls_max_cache_size < tls_min_cache_size) tls_max_cache_size = tls_min_cache_size;
 
     mcp_log_debug("Thread-local cache reconfigured for thread %lu: LRU %s, adaptive sizing %s",
-- 
2.43.0


From e5da1ff212041bb3c9185ff3fe5c63187e5e32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:30 +0000
Subject: [PATCH 007/167] fix: refuse arena allocations whose rounded size
 overflows

---
 src/common/mcp_arena.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/mcp_arena.c b/src/common/mcp_arena.c
index 83d1fab..2b49dbf 100644
--- a/src/common/mcp_arena.c
+++ b/src/common/mcp_arena.c
@@ -4,6 +4,7 @@
 #include "mcp_memory_constants.h"
 #include "mcp_thread_cache.h"
 #include "mcp_log.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -133,6 +134,11 @@ void* mcp_arena_alloc(mcp_arena_t* arena, size_t size) {
         size = 1; // Ensure we return a valid pointer
     }
 
+    // Refuse sizes that cannot be rounded up to a block size
+    if (size > SIZE_MAX / 2) {
+        return NULL;
+    }
+
     // Get or create thread-local arena if none provided
     if (!arena) {
         // Try to get thread-local arena
-- 
2.43.0


From 01462de447590f29319c4763c42c34335fd147dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:32 +0000
Subject: [PATCH 008/167] fix: check the object pool's capacity under its lock

Threads that found the free list empty at the same time could each pass the
capacity check and take the pool above its configured maximum.
---
 src/common/mcp_object_pool.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/mcp_object_pool.c b/src/common/mcp_object_pool.c
index b4f6cc2..395665a 100644
--- a/src/common/mcp_object_pool.c
+++ b/src/common/mcp_object_pool.c
@@ -339,11 +339,12 @@ void* mcp_object_pool_acquire(mcp_object_pool_t* pool) {
         return (void*)node;
     }
 
-    // Free list is empty, try to allocate a new one if allowed
+    // Free list is empty, try to allocate a new one if allowed. The lock is kept
+    // so that the capacity check and the new object count as one step.
+    // Statistics are updated inside allocate_new_object
+    obj = allocate_new_object(pool);
     mcp_mutex_unlock(pool->lock);
-
-    // Allocate a new object - statistics updated inside allocate_new_object
-    return allocate_new_object(pool);
+    return obj;
 }
 
 bool mcp_object_pool_release(mcp_object_pool_t* pool, void* obj) {
-- 
2.43.0


From 6159b8db3b18c3cfb7efbe1386749d746dcdaa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:32 +0000
Subject: [PATCH 009/167] fix: clamp the adaptive bounds of the object cache to
 its array size

---
 src/common/mcp_object_cache.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/mcp_object_cache.c b/src/common/mcp_object_cache.c
index ed49ed8..1bde39d 100644
--- a/src/common/mcp_object_cache.c
+++ b/src/common/mcp_object_cache.c
@@ -220,6 +220,8 @@ bool mcp_object_cache_init(mcp_object_cache_type_t type, const mcp_object_cache_
         if (tls_shrink_thresholds[type] > 1.0) tls_shrink_thresholds[type] = 1.0;
 
         if (tls_min_cache_sizes[type] < 1) tls_min_cache_sizes[type] = 1;
+        if (tls_min_cache_sizes[type] > MAX_CACHE_SIZE) tls_min_cache_sizes[type] = MAX_CACHE_SIZE;
+        if (tls_max_cache_sizes[type] > MAX_CACHE_SIZE) tls_max_cache_sizes[type] = MAX_CACHE_SIZE;
         if (tls_max_cache_sizes[type] < tls_min_cache_sizes[type]) {
             tls_max_cache_sizes[type] = tls_min_cache_sizes[type];
         }
@@ -449,6 +451,8 @@ bool mcp_object_cache_configure(mcp_object_cache_type_t type, const mcp_object_c
     if (tls_shrink_thresholds[type] > 1.0) tls_shrink_thresholds[type] = 1.0;
 
     if (tls_min_cache_sizes[type] < 1) tls_min_cache_sizes[type] = 1;
+    if (tls_min_cache_sizes[type] > MAX_CACHE_SIZE) tls_min_cache_sizes[type] = MAX_CACHE_SIZE;
+    if (tls_max_cache_sizes[type] > MAX_CACHE_SIZE) tls_max_cache_sizes[type] = MAX_CACHE_SIZE;
     if (tls_max_cache_sizes[type] < tls_min_cache_sizes[type]) {
         tls_max_cache_sizes[type] = tls_min_cache_sizes[type];
     }
-- 
2.43.0


From f87a615f6f40d5642dd2071493541bf686039853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:52 +0000
Subject: [PATCH 010/167] fix: create condition variables with the clock their
 timed waits use

mcp_cond_timedwait computes a CLOCK_MONOTONIC deadline, but the condition
variables were created with the default realtime clock, so every timed wait
ended at once with a timeout.
---
 src/common/mcp_sync.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_sync.c b/src/common/mcp_sync.c
index ed33ac2..aad2eef 100644
--- a/src/common/mcp_sync.c
+++ b/src/common/mcp_sync.c
@@ -198,7 +198,19 @@ mcp_cond_t* mcp_cond_create(void) {
     // Assume success
     return cond;
 #else
-    if (pthread_cond_init(&cond->cond, NULL) != 0) {
+    pthread_condattr_t attr;
+    if (pthread_condattr_init(&attr) != 0) {
+        mcp_log_error("Failed to initialize pthread condition attributes");
+        sync_free(cond);
+        return NULL;
+    }
+#if defined(_POSIX_TIMERS) && (_POSIX_TIMERS > 0) && defined(CLOCK_MONOTONIC)
+    // mcp_cond_timedwait computes its deadline on this clock
+    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+#endif
+    int ret = pthread_cond_init(&cond->cond, &attr);
+    pthread_condattr_destroy(&attr);
+    if (ret != 0) {
         mcp_log_error("Failed to initialize pthread condition variable");
         sync_free(cond);
         return NULL;
@@ -280,13 +292,8 @@ int mcp_cond_timedwait(mcp_cond_t* cond, mcp_mutex_t* mutex, uint32_t timeout_ms
     ts.tv_sec += timeout_ms / 1000 + nsec / 1000000000;
     ts.tv_nsec = nsec % 1000000000;
 
-    // Use pthread_cond_timedwait with the monotonic clock
-    pthread_condattr_t attr;
-    pthread_condattr_init(&attr);
-    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
-
+    // The condition variable was created with the monotonic clock
     int ret = pthread_cond_timedwait(&cond->cond, &mutex->mutex, &ts);
-    pthread_condattr_destroy(&attr);
 #else
     // Fall back to gettimeofday if monotonic clock is not available
     struct timeval tv;
-- 
2.43.0


From 3453aa2ab1df794b79f5330d81f95325be0ae84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:46 +0000
Subject: [PATCH 011/167] fix: do not lose or repeat thread pool tasks when
 pushing to a deque

Submitting threads do not own the deque they push to, but push and pop
assumed a single owner, so concurrent submitters overwrote each other's
tasks and raced with the worker's pop. The push also never checked the
capacity and overwrote tasks that had not been taken yet.
---
 .../internal/mcp_thread_pool_internal.h       |  9 +--
 src/common/mcp_thread_pool_deque.c            | 65 +++----------------
 src/common/mcp_thread_pool_tasks.c            | 15 +++--
 src/common/mcp_thread_pool_worker.c           |  4 +-
 4 files changed, 25 insertions(+), 68 deletions(-)

diff --git a/src/common/internal/mcp_thread_pool_internal.h b/src/common/internal/mcp_thread_pool_internal.h
index 564f95a..0d045ce 100644
--- a/src/common/internal/mcp_thread_pool_internal.h
+++ b/src/common/internal/mcp_thread_pool_internal.h
@@ -49,7 +49,7 @@ typedef struct {
 
 /**
  * @brief Lock-free work-stealing deque structure (Chase-Lev style inspired).
- * Simplified: Assumes single producer (owner thread pushes/pops bottom), multiple consumers (thieves steal top).
+ * Simplified: one submitter at a time pushes at the bottom, all workers take from the top.
  *
  * This structure is carefully designed to avoid false sharing:
  * - top is accessed by multiple thieves (readers) and occasionally by the owner
@@ -154,13 +154,10 @@ void store_int(volatile int* ptr, int value);
 // Atomic Fetch-and-Add for size_t
 size_t fetch_add_size(volatile size_t* ptr, size_t value);
 
-// Push task onto the bottom of the deque (owner thread only)
+// Push task onto the bottom of the deque (submitters hold the pool's cond_mutex)
 bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task);
 
-// Pop task from the bottom of the deque (owner thread only)
-bool deque_pop_bottom(work_stealing_deque_t* deque, mcp_task_t* task);
-
-// Steal task from the top of the deque (thief threads only)
+// Take task from the top of the deque (any worker)
 bool deque_steal_top(work_stealing_deque_t* deque, mcp_task_t* task);
 
 // Get current system load metrics
diff --git a/src/common/mcp_thread_pool_deque.c b/src/common/mcp_thread_pool_deque.c
index 922ab2a..85cd8d4 100644
--- a/src/common/mcp_thread_pool_deque.c
+++ b/src/common/mcp_thread_pool_deque.c
@@ -3,18 +3,18 @@
  * @brief Work-stealing deque implementation for thread pool.
  *
  * This file implements lock-free work-stealing deques based on the Chase-Lev algorithm.
- * Each worker thread has its own deque where it can push/pop tasks from the bottom,
- * while other threads can steal tasks from the top.
+ * Tasks are submitted at the bottom by threads that do not own the deque, so the owner
+ * takes tasks from the top like the other workers do.
  */
 #include "internal/mcp_thread_pool_internal.h"
 
-// Push task onto the bottom of the deque (owner thread only)
+// Push task onto the bottom of the deque (submitters hold the pool's cond_mutex)
 bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task) {
     size_t b = load_size(&deque->bottom);
-    // Do not need to load top for push, only check against capacity later if needed
-    // size_t t = load_size(&deque->top);
-    // size_t size = b - t;
-    // if (size >= (deque->capacity_mask + 1)) { return false; } // Check happens implicitly below
+    size_t t = load_size(&deque->top);
+    if (b - t > deque->capacity_mask) {
+        return false; // Full, do not overwrite a task that has not been taken
+    }
 
     size_t index = b & deque->capacity_mask;
     deque->buffer[index] = task;
@@ -26,57 +26,12 @@ bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task) {
     __sync_synchronize();
 #endif
 
-    // Increment bottom (owner only, volatile write is sufficient)
+    // Increment bottom (one submitter at a time, volatile write is sufficient)
     deque->bottom = b + 1;
     return true;
 }
 
-// Pop task from the bottom of the deque (owner thread only)
-bool deque_pop_bottom(work_stealing_deque_t* deque, mcp_task_t* task) {
-    size_t b = load_size(&deque->bottom);
-    if (b == 0) return false;
-    b = b - 1;
-    // Volatile write
-    deque->bottom = b;
-
-    // Ensure bottom write is visible before reading top (memory barrier)
-#ifdef _WIN32
-    MemoryBarrier();
-#else
-    __sync_synchronize();
-#endif
-
-    size_t t = load_size(&deque->top);
-    // Use signed difference
-    long size = (long)b - (long)t;
-
-    if (size < 0) {
-        // Deque was empty or became empty due to concurrent steal
-        // Reset bottom to match top
-        deque->bottom = t;
-        return false;
-    }
-
-    // Get task from bottom
-    size_t index = b & deque->capacity_mask;
-    *task = deque->buffer[index];
-
-    if (size == 0) {
-        // Last item case: Race with thieves stealing top
-        if (!compare_and_swap_size(&deque->top, t, t + 1)) {
-            // Thief stole the item first
-            deque->bottom = t + 1; // Acknowledge thief won
-            return false; // Failed to pop
-        }
-        // Successfully took the last item
-        deque->bottom = t + 1; // Reset bottom
-    }
-    // If size > 0, we successfully popped without contention on the last item
-
-    return true;
-}
-
-// Steal task from the top of the deque (thief threads only)
+// Take task from the top of the deque (any worker)
 bool deque_steal_top(work_stealing_deque_t* deque, mcp_task_t* task) {
     size_t t = load_size(&deque->top);
 
@@ -110,7 +65,7 @@ bool deque_steal_top(work_stealing_deque_t* deque, mcp_task_t* task) {
         // Successfully stole the item
         return true;
     } else {
-        // Another thief or the owner modified top/bottom concurrently
+        // Another worker took it concurrently
         return false;
     }
 }
diff --git a/src/common/mcp_thread_pool_tasks.c b/src/common/mcp_thread_pool_tasks.c
index 2ae9652..6f1efa6 100644
--- a/src/common/mcp_thread_pool_tasks.c
+++ b/src/common/mcp_thread_pool_tasks.c
@@ -33,6 +33,12 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
     size_t target_deque_idx = fetch_add_size(&pool->next_submit_deque, 1) % pool->max_thread_count;
     work_stealing_deque_t* target_deque = &pool->deques[target_deque_idx];
 
+    // Submitters push one at a time
+    if (mcp_mutex_lock(pool->cond_mutex) != 0) {
+        PROFILE_END("mcp_thread_pool_add_task");
+        return -1;
+    }
+
     // Try to push task onto the bottom of the target deque
     if (!deque_push_bottom(target_deque, task)) {
         // First deque is full, try to find another deque with space
@@ -52,6 +58,7 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
 
         if (!submission_success) {
             // All deques are full
+            mcp_mutex_unlock(pool->cond_mutex);
             mcp_log_error("All deques are full during task submission. Consider increasing queue size.");
             fetch_add_size(&pool->tasks_failed, 1);
             PROFILE_END("mcp_thread_pool_add_task");
@@ -63,11 +70,9 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
     fetch_add_size(&pool->tasks_submitted, 1);
 
     // Signal a potentially idle worker
-    if (mcp_mutex_lock(pool->cond_mutex) == 0) {
-        // Always broadcast to ensure no worker misses the signal
-        mcp_cond_broadcast(pool->notify); // Wake up all waiting workers
-        mcp_mutex_unlock(pool->cond_mutex);
-    }
+    // Always broadcast to ensure no worker misses the signal
+    mcp_cond_broadcast(pool->notify); // Wake up all waiting workers
+    mcp_mutex_unlock(pool->cond_mutex);
 
     PROFILE_END("mcp_thread_pool_add_task");
     return 0;
diff --git a/src/common/mcp_thread_pool_worker.c b/src/common/mcp_thread_pool_worker.c
index 832fb27..e3c8478 100644
--- a/src/common/mcp_thread_pool_worker.c
+++ b/src/common/mcp_thread_pool_worker.c
@@ -79,8 +79,8 @@ void* thread_pool_worker(void* arg) {
             break;  // Let the function's cleanup code handle the rest
         }
         
-        // 1. Try to pop from own deque
-        if (deque_pop_bottom(worker_locals.my_deque, &worker_locals.task)) {
+        // 1. Try to take from own deque
+        if (deque_steal_top(worker_locals.my_deque, &worker_locals.task)) {
             worker_locals.steal_attempts = 0;
             worker_locals.backoff_shift = 0; // Reset exponential backoff
 
-- 
2.43.0


From 3368cbe9237727413e6a3bf0c180f548be0117bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:46 +0000
Subject: [PATCH 012/167] fix: set the thread pool's thread count before its
 workers start

A worker that started before the count included it took itself for surplus
and exited, or divided by a count of zero.
---
 src/common/mcp_thread_pool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index 4606c0e..f622001 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -127,7 +127,9 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
         return NULL;
     }
 
-    // Start worker threads, passing index
+    // Start worker threads, passing index. Workers compare their index with the
+    // thread count, so it has to be in place before the first one runs.
+    pool->thread_count = thread_count;
     allocation_failed = false;
     for (size_t i = 0; i < thread_count; ++i) {
         worker_arg_t* arg = (worker_arg_t*)malloc(sizeof(worker_arg_t));
@@ -151,7 +153,6 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
             allocation_failed = true;
             break;
         }
-        pool->thread_count++;
         pool->started++;
     }
 
-- 
2.43.0


From c8a8219059b25adcf8453a39a9b4adb29ec77702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:46 +0000
Subject: [PATCH 013/167] fix: keep serving the deques of workers that left a
 shrunk thread pool

Tasks are distributed over all deques, but after a shrink the remaining
workers only looked at their own, so the other tasks never ran.
---
 src/common/mcp_thread_pool_worker.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/mcp_thread_pool_worker.c b/src/common/mcp_thread_pool_worker.c
index e3c8478..c5d6c16 100644
--- a/src/common/mcp_thread_pool_worker.c
+++ b/src/common/mcp_thread_pool_worker.c
@@ -128,7 +128,7 @@ void* thread_pool_worker(void* arg) {
             bool all_empty = true;
 
             // Check all deques
-            for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+            for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                 size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                 size_t top = load_size(&worker_locals.pool->deques[i].top);
 
@@ -147,7 +147,9 @@ void* thread_pool_worker(void* arg) {
         }
 
         // 3. Try to steal using an optimized strategy
-        if (worker_locals.pool->thread_count > 1) {
+        // Every deque is considered: tasks are submitted to all of them, also to those
+        // of workers that have left after the pool was shrunk
+        if (worker_locals.pool->max_thread_count > 1) {
             size_t victim_index = worker_locals.my_index; // Default to own index (will be changed)
 
             // Increment scan interval counter
@@ -160,7 +162,7 @@ void* thread_pool_worker(void* arg) {
                 size_t max_tasks = 0;
 
                 // Full scan of all deques
-                for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+                for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                     if (i == worker_locals.my_index) continue; // Skip own deque
 
                     size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
@@ -187,7 +189,7 @@ void* thread_pool_worker(void* arg) {
                 if (bottom <= top) {
                     // Try a random victim, but not ourselves
                     do {
-                        victim_index = rand() % worker_locals.pool->thread_count;
+                        victim_index = rand() % worker_locals.pool->max_thread_count;
                     } while (victim_index == worker_locals.my_index);
                 } else {
                     // Last victim still has tasks
@@ -272,7 +274,7 @@ void* thread_pool_worker(void* arg) {
                     bool all_empty = true;
 
                     // Check all deques
-                    for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+                    for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                         size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                         size_t top = load_size(&worker_locals.pool->deques[i].top);
 
@@ -297,7 +299,7 @@ void* thread_pool_worker(void* arg) {
                 // If we timed out, check if there are tasks in any deque
                 if (wait_result == -2) { // -2 is timeout
                     bool found_tasks = false;
-                    for (size_t i = 0; i < worker_locals.pool->thread_count && !found_tasks; i++) {
+                    for (size_t i = 0; i < worker_locals.pool->max_thread_count && !found_tasks; i++) {
                         size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                         size_t top = load_size(&worker_locals.pool->deques[i].top);
                         if (bottom > top) {
-- 
2.43.0


From 4296f852f0d5020d6d1b098e32adb361482f4ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:08 +0000
Subject: [PATCH 014/167] fix: make waiting for the thread pool wait for every
 accepted task

The wait subtracted refused tasks that were never counted as submitted,
counted tasks submitted later in place of earlier ones, and gave up while a
task had been taken from its deque but was not yet marked active.
---
 src/common/mcp_thread_pool_tasks.c | 54 +++++++++++-------------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/src/common/mcp_thread_pool_tasks.c b/src/common/mcp_thread_pool_tasks.c
index 6f1efa6..b2c8e1a 100644
--- a/src/common/mcp_thread_pool_tasks.c
+++ b/src/common/mcp_thread_pool_tasks.c
@@ -39,6 +39,9 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
         return -1;
     }
 
+    // Count the task before a worker can complete it
+    fetch_add_size(&pool->tasks_submitted, 1);
+
     // Try to push task onto the bottom of the target deque
     if (!deque_push_bottom(target_deque, task)) {
         // First deque is full, try to find another deque with space
@@ -58,6 +61,7 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
 
         if (!submission_success) {
             // All deques are full
+            fetch_add_size(&pool->tasks_submitted, (size_t)-1);
             mcp_mutex_unlock(pool->cond_mutex);
             mcp_log_error("All deques are full during task submission. Consider increasing queue size.");
             fetch_add_size(&pool->tasks_failed, 1);
@@ -66,9 +70,6 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
         }
     }
 
-    // Update statistics
-    fetch_add_size(&pool->tasks_submitted, 1);
-
     // Signal a potentially idle worker
     // Always broadcast to ensure no worker misses the signal
     mcp_cond_broadcast(pool->notify); // Wake up all waiting workers
@@ -78,6 +79,18 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
     return 0;
 }
 
+/**
+ * @brief Whether every accepted task has completed.
+ *
+ * Tasks are counted as submitted before they can complete, so completed never
+ * exceeds submitted and reading it first makes equality conclusive. Comparing
+ * with an earlier snapshot would not: tasks submitted later may complete first.
+ */
+static bool all_tasks_completed(mcp_thread_pool_t* pool) {
+    size_t completed = load_size(&pool->tasks_completed);
+    return completed >= load_size(&pool->tasks_submitted);
+}
+
 /**
  * @brief Waits for all currently queued tasks to complete.
  *
@@ -102,19 +115,8 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
         return -1; // Pool is shutting down
     }
 
-    // Capture the current number of submitted tasks
-    size_t tasks_to_wait_for = pool->tasks_submitted;
-
-    // If no tasks have been submitted, return immediately
-    if (tasks_to_wait_for == 0) {
-        return 0;
-    }
-
-    // Calculate the number of tasks that should be completed
-    size_t target_completed = tasks_to_wait_for - pool->tasks_failed;
-
     // If all tasks have already completed, return immediately
-    if (pool->tasks_completed >= target_completed) {
+    if (all_tasks_completed(pool)) {
         return 0;
     }
 
@@ -127,27 +129,9 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
     unsigned int sleep_interval = 10; // 10ms sleep interval
     int result = 0;
 
-    while ((pool->tasks_completed < target_completed) &&
+    while (!all_tasks_completed(pool) &&
            (wait_time < timeout_ms || timeout_ms == 0)) {
 
-        // Check if all deques are empty and no tasks are active
-        bool all_empty = true;
-        for (size_t i = 0; i < pool->max_thread_count; i++) {
-            size_t bottom = load_size(&pool->deques[i].bottom);
-            size_t top = load_size(&pool->deques[i].top);
-
-            if (bottom > top) {
-                all_empty = false;
-                break;
-            }
-        }
-
-        // If all deques are empty and no tasks are active, we're done
-        if (all_empty && pool->active_tasks == 0) {
-            result = 0;
-            break;
-        }
-
         // Wait for a signal or timeout
         int wait_result = mcp_cond_timedwait(pool->notify, pool->cond_mutex, sleep_interval);
 
@@ -163,7 +147,7 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
     mcp_mutex_unlock(pool->cond_mutex);
 
     // If we timed out and tasks are still not complete
-    if (wait_time >= timeout_ms && timeout_ms > 0 && pool->tasks_completed < target_completed) {
+    if (wait_time >= timeout_ms && timeout_ms > 0 && !all_tasks_completed(pool)) {
         return -1; // Timeout
     }
 
-- 
2.43.0


From 007bc2dfbfd3281ea49d600b96969f6e9c6a22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:38 +0000
Subject: [PATCH 015/167] fix: join workers that left a shrunk thread pool
 before freeing it

A shrink followed by an expansion overwrote the handle of the leaving
worker, and the pool could be freed while that worker still ran. The
leaving worker also cleared the argument slot of its replacement.
---
 .../internal/mcp_thread_pool_internal.h       |  2 ++
 src/common/mcp_thread_pool.c                  | 33 ++++++++++++++++++-
 src/common/mcp_thread_pool_worker.c           |  4 ---
 3 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/common/internal/mcp_thread_pool_internal.h b/src/common/internal/mcp_thread_pool_internal.h
index 0d045ce..e82326a 100644
--- a/src/common/internal/mcp_thread_pool_internal.h
+++ b/src/common/internal/mcp_thread_pool_internal.h
@@ -102,6 +102,8 @@ struct mcp_thread_pool {
     size_t thread_count;        /**< Number of worker threads. */
     size_t max_thread_count;    /**< Maximum thread count (size of allocated arrays). */
     int started;                /**< Number of threads successfully started. */
+    mcp_thread_t* retired_threads; /**< Workers told to leave by a shrink, joined on destroy. */
+    size_t retired_count;       /**< Number of entries in retired_threads. */
 
     // Group 3: Deque management (rarely modified after initialization)
     work_stealing_deque_t* deques; /**< Array of work-stealing deques, one per thread. */
diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index f622001..8adf058 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -29,6 +29,8 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
     pool->cond_mutex = NULL;
     pool->notify = NULL;
     pool->threads = NULL;
+    pool->retired_threads = NULL;
+    pool->retired_count = 0;
     pool->deques = NULL;
     pool->worker_args = NULL;
     pool->worker_status = NULL;
@@ -265,16 +267,33 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
 
     // If shrinking
     if (new_thread_count < pool->thread_count) {
-        // First, explicitly signal threads that should exit
+        // The leaving threads finish their current task first. Keep their handles
+        // aside so that their slots can be used again by a later expansion.
+        size_t leaving = pool->thread_count - new_thread_count;
+        mcp_thread_t* retired = (mcp_thread_t*)realloc(pool->retired_threads,
+                                    sizeof(mcp_thread_t) * (pool->retired_count + leaving));
+        if (!retired) {
+            mcp_log_error("Failed to allocate memory for retired thread handles");
+            mcp_rwlock_write_unlock(pool->rwlock);
+            return -1;
+        }
+        pool->retired_threads = retired;
+        for (size_t i = new_thread_count; i < pool->thread_count; i++) {
+            pool->retired_threads[pool->retired_count++] = pool->threads[i];
+        }
+
+        // Then, explicitly signal threads that should exit
         for (size_t i = new_thread_count; i < pool->thread_count; i++) {
             if (pool->worker_args[i] != NULL) {
                 pool->worker_args[i]->should_exit = true;
+                pool->worker_args[i] = NULL; // Freed by the worker when it exits
                 mcp_log_debug("Signaling worker %zu to exit during pool shrink", i);
             }
         }
 
         // Set new thread count after signaling exit flags
         pool->thread_count = new_thread_count;
+        pool->started = (int)new_thread_count;
 
         // Signal all threads to check their exit flags
         mcp_mutex_lock(pool->cond_mutex);
@@ -293,6 +312,7 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
             if (!arg) {
                 mcp_log_error("Failed to allocate memory for worker arg");
                 pool->thread_count += i; // Update to actual number of threads
+                pool->started = (int)pool->thread_count;
                 mcp_rwlock_write_unlock(pool->rwlock);
                 return -1;
             }
@@ -309,11 +329,13 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
                 free(arg);
                 pool->worker_args[arg->worker_index] = NULL;
                 pool->thread_count += i; // Update to actual number of threads
+                pool->started = (int)pool->thread_count;
                 mcp_rwlock_write_unlock(pool->rwlock);
                 return -1;
             }
         }
         pool->thread_count = new_thread_count;
+        pool->started = (int)new_thread_count;
     }
 
     mcp_rwlock_write_unlock(pool->rwlock);
@@ -404,6 +426,14 @@ int mcp_thread_pool_destroy(mcp_thread_pool_t* pool) {
         // potentially freeing memory that's still in use by a running thread
     }
 
+    // Join the threads that left when the pool was shrunk
+    for (size_t i = 0; i < pool->retired_count; ++i) {
+        if (mcp_thread_join(pool->retired_threads[i], NULL) != 0) {
+            mcp_log_error("Error: Failed to join retired thread %zu", i);
+            err = -1;
+        }
+    }
+
     // Log final statistics
     mcp_log_info("Thread pool statistics: submitted=%zu, completed=%zu, failed=%zu",
                  pool->tasks_submitted, pool->tasks_completed, pool->tasks_failed);
@@ -420,6 +450,7 @@ int mcp_thread_pool_destroy(mcp_thread_pool_t* pool) {
 
     // Cleanup - first free regular memory resources
     if (pool->threads) free(pool->threads);
+    if (pool->retired_threads) free(pool->retired_threads);
     if (pool->worker_args) free(pool->worker_args);
     if (pool->worker_status) free((void*)pool->worker_status);
     if (pool->tasks_stolen) free((void*)pool->tasks_stolen);
diff --git a/src/common/mcp_thread_pool_worker.c b/src/common/mcp_thread_pool_worker.c
index c5d6c16..f24b416 100644
--- a/src/common/mcp_thread_pool_worker.c
+++ b/src/common/mcp_thread_pool_worker.c
@@ -51,9 +51,6 @@ void* thread_pool_worker(void* arg) {
     worker_locals.scan_interval = 0;
     worker_locals.backoff_shift = 0;
 
-    // Mark this worker as the owner of its argument
-    worker_locals.pool->worker_args[worker_locals.my_index] = worker_locals.worker_data;
-
     while (1) {
         // Check if this thread should exit - use explicit exit flag first, then fallback to index check
         bool should_exit_explicit = worker_locals.worker_data->should_exit;
@@ -333,7 +330,6 @@ void* thread_pool_worker(void* arg) {
 
     // Clean up worker argument
     free(worker_locals.worker_data);
-    worker_locals.pool->worker_args[worker_locals.my_index] = NULL;
 
     return NULL;
 }
-- 
2.43.0


From e130d7bc16128e69476a578b7ee7d7f222dad6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:08 +0000
Subject: [PATCH 016/167] fix: do not take the thread pool's mutex while resize
 holds its rwlock

Workers take the rwlock while they hold the mutex, so shrinking the pool
could deadlock.
---
 src/common/mcp_thread_pool.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index 8adf058..7a612de 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -295,11 +295,6 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
         pool->thread_count = new_thread_count;
         pool->started = (int)new_thread_count;
 
-        // Signal all threads to check their exit flags
-        mcp_mutex_lock(pool->cond_mutex);
-        mcp_cond_broadcast(pool->notify);
-        mcp_mutex_unlock(pool->cond_mutex);
-
         // Worker threads will exit when they see their should_exit flag is true
         mcp_log_debug("Pool shrunk from %zu to %zu threads", pool->thread_count + (pool->thread_count - new_thread_count), new_thread_count);
     }
@@ -339,6 +334,13 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
     }
 
     mcp_rwlock_write_unlock(pool->rwlock);
+
+    // Signal all threads to check their exit flags. The workers take the rwlock while
+    // they hold cond_mutex, so this must not be done with the rwlock held.
+    mcp_mutex_lock(pool->cond_mutex);
+    mcp_cond_broadcast(pool->notify);
+    mcp_mutex_unlock(pool->cond_mutex);
+
     return 0;
 }
 
-- 
2.43.0


From d0db2f6eafc0975cd13c498d2f5c700ab619d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:16 +0000
Subject: [PATCH 017/167] fix: report every element of a parsed batch

The count only included valid messages while the messages stayed at their
original positions, so each invalid element hid one message at the end.
---
 src/json/mcp_json_message.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index 6419db5..b47c958 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -575,7 +575,8 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
                     (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
                 }
 
-                *count = 0; // Track successfully parsed messages
+                // Every element keeps its position, invalid ones are marked as such
+                *count = batch_size;
 
                 // Process batch items in parallel chunks for better performance on large batches
                 const size_t CHUNK_SIZE = 16; // Process this many items at once
@@ -590,9 +591,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
 
                         if (item_json != NULL && item_json->type == MCP_JSON_OBJECT) {
                             // Parse the individual message object
-                            if (parse_single_message_from_json(item_json, &(*messages)[i]) == 0) {
-                                (*count)++; // Increment count only if parsing succeeded
-                            } else {
+                            if (parse_single_message_from_json(item_json, &(*messages)[i]) != 0) {
                                 // Parsing failed, ensure contents are released
                                 mcp_message_release_contents(&(*messages)[i]);
                                 (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
-- 
2.43.0


From ba4629289ba121edfce0010b7c802d99a9362f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:31 +0000
Subject: [PATCH 018/167] fix: reject message ids and error codes that are not
 representable

Ids that are negative, fractional or too large for a double to hold exactly
were cast to another id, and so was the error code.
---
 src/json/mcp_json_message.c | 62 ++++++++++++++++++++++++++++---------
 src/json/mcp_json_rpc.c     |  2 +-
 2 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index b47c958..e1e2d30 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -4,12 +4,43 @@
 #include <stdio.h>
 #include "mcp_string_utils.h"
 #include <inttypes.h>
+#include <limits.h>
+#include <math.h>
 
 // --- MCP Message Parsing/Stringification ---
 // These functions now use the thread-local arena implicitly for parsing/creating
 // the main JSON structure, but still use malloc/mcp_strdup for strings within
 // the mcp_message_t struct and for the stringified result/params.
 
+/**
+ * @internal
+ * @brief Reads a message id. Only non-negative integers that a double holds exactly
+ *        identify a request.
+ * @return true if the node is such a number, false otherwise.
+ */
+static bool parse_message_id(const mcp_json_t* node, uint64_t* id) {
+    if (node->type != MCP_JSON_NUMBER || !(node->number_value >= 0) ||
+        node->number_value > 9007199254740992.0 || node->number_value != floor(node->number_value)) {
+        return false;
+    }
+    *id = (uint64_t)node->number_value;
+    return true;
+}
+
+/**
+ * @internal
+ * @brief Reads an error code, which must be an integer in the range of int.
+ * @return true if the node is such a number, false otherwise.
+ */
+static bool parse_error_code(const mcp_json_t* node, mcp_error_code_t* code) {
+    if (node->type != MCP_JSON_NUMBER || !(node->number_value >= INT_MIN) ||
+        node->number_value > INT_MAX || node->number_value != floor(node->number_value)) {
+        return false;
+    }
+    *code = (mcp_error_code_t)(int)node->number_value;
+    return true;
+}
+
 int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     if (json_str == NULL || message == NULL) {
         return -1;
@@ -42,11 +73,12 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     if (method != NULL && method->type == MCP_JSON_STRING) {
         if (id != NULL) { // Must have ID for request
             // Check ID type (integer or string allowed by spec, but we use uint64_t)
-            if (id->type == MCP_JSON_NUMBER) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No, use number for now.
+            uint64_t id_value = 0;
+            if (parse_message_id(id, &id_value)) { // Allow string ID? No, use number for now.
                 // Check params type (object or array allowed, or omitted)
                 if (params == NULL || params->type == MCP_JSON_OBJECT || params->type == MCP_JSON_ARRAY) {
                     message->type = MCP_MESSAGE_TYPE_REQUEST;
-                    message->request.id = (uint64_t)id->number_value; // TODO: Handle potential precision loss or non-integer?
+                    message->request.id = id_value;
                     message->request.method = mcp_strdup(method->string_value); // Use helper
                     message->request.params = (params != NULL) ? mcp_json_stringify(params) : NULL; // Stringify uses malloc
 
@@ -83,9 +115,10 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     // --- Response Check ---
     } else if (id != NULL && (result != NULL || error != NULL)) { // Response
         // Check ID type
-        if (id->type == MCP_JSON_NUMBER) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No.
+        uint64_t id_value = 0;
+        if (parse_message_id(id, &id_value)) { // Allow string ID? No.
             message->type = MCP_MESSAGE_TYPE_RESPONSE;
-            message->response.id = (uint64_t)id->number_value; // TODO: Handle potential precision loss?
+            message->response.id = id_value;
 
             if (error != NULL && error->type == MCP_JSON_OBJECT) { // Error Response
                 if (result != NULL) {
@@ -95,10 +128,9 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
                     mcp_json_t* code = mcp_json_object_get_property(error, "code");
                     mcp_json_t* msg = mcp_json_object_get_property(error, "message");
                     // Code MUST be an integer
-                    if (code != NULL && code->type == MCP_JSON_NUMBER) { // TODO: Check if integer?
+                    if (code != NULL && parse_error_code(code, &message->response.error_code)) {
                         // Message MUST be a string
                         if (msg != NULL && msg->type == MCP_JSON_STRING) {
-                            message->response.error_code = (mcp_error_code_t)(int)code->number_value;
                             message->response.error_message = mcp_strdup(msg->string_value); // Use helper
                             message->response.result = NULL;
                             if (message->response.error_message != NULL) {
@@ -113,7 +145,7 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
                             message->type = MCP_MESSAGE_TYPE_INVALID;
                         }
                     } else { // Invalid error code type
-                        mcp_log_error("MCP message parse error: Response 'error.code' is not a number.");
+                        mcp_log_error("MCP message parse error: Response 'error.code' is not an integer.");
                         message->type = MCP_MESSAGE_TYPE_INVALID;
                     }
                 }
@@ -136,7 +168,7 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
                 message->type = MCP_MESSAGE_TYPE_INVALID;
             }
         } else { // Invalid ID type
-            mcp_log_error("MCP message parse error: Response 'id' is not a number.");
+            mcp_log_error("MCP message parse error: Response 'id' is not a valid number.");
             message->type = MCP_MESSAGE_TYPE_INVALID;
         }
      // --- Invalid Message Type ---
@@ -416,10 +448,11 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
     // --- Request Check ---
     if (method != NULL && method->type == MCP_JSON_STRING) {
         if (id != NULL) { // Request
-            if (id->type == MCP_JSON_NUMBER) {
+            uint64_t id_value = 0;
+            if (parse_message_id(id, &id_value)) {
                 if (params == NULL || params->type == MCP_JSON_OBJECT || params->type == MCP_JSON_ARRAY) {
                     message->type = MCP_MESSAGE_TYPE_REQUEST;
-                    message->request.id = (uint64_t)id->number_value;
+                    message->request.id = id_value;
                     message->request.method = mcp_strdup(method->string_value);
                     message->request.params = (params != NULL) ? mcp_json_stringify(params) : NULL; // Still uses malloc
                     if (message->request.method != NULL && (params == NULL || message->request.params != NULL)) {
@@ -445,17 +478,18 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
         }
     // --- Response Check ---
     } else if (id != NULL && (result != NULL || error != NULL)) { // Response
-        if (id->type == MCP_JSON_NUMBER) {
+        uint64_t id_value = 0;
+        if (parse_message_id(id, &id_value)) {
             message->type = MCP_MESSAGE_TYPE_RESPONSE;
-            message->response.id = (uint64_t)id->number_value;
+            message->response.id = id_value;
             if (error != NULL && error->type == MCP_JSON_OBJECT) { // Error Response
                 if (result != NULL)
                     message->type = MCP_MESSAGE_TYPE_INVALID;
                 else {
                     mcp_json_t* code = mcp_json_object_get_property(error, "code");
                     mcp_json_t* msg = mcp_json_object_get_property(error, "message");
-                    if (code != NULL && code->type == MCP_JSON_NUMBER && msg != NULL && msg->type == MCP_JSON_STRING) {
-                        message->response.error_code = (mcp_error_code_t)(int)code->number_value;
+                    if (code != NULL && parse_error_code(code, &message->response.error_code) &&
+                        msg != NULL && msg->type == MCP_JSON_STRING) {
                         message->response.error_message = mcp_strdup(msg->string_value);
                         message->response.result = NULL;
                         if (message->response.error_message != NULL) {
diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index 621d257..bf0e34b 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -320,7 +320,7 @@ int mcp_json_parse_response(
     // Get id
     double id_value;
     if (get_number_property(json, "id", &id_value) != 0 ||
-        id_value < 0 || id_value != floor(id_value) || id_value > (double)UINT64_MAX) {
+        id_value < 0 || id_value != floor(id_value) || id_value >= (double)UINT64_MAX) {
         mcp_json_destroy(json);
         return -1;
     }
-- 
2.43.0


From 518f1ed35188a96c4120c6bc0a89ad70dd3fe34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:44 +0000
Subject: [PATCH 019/167] fix: format requests directly for every id and method

The buffer was too small for ids of more than one digit and for requests
without parameters, and the method name was not escaped.
---
 src/json/mcp_json_rpc.c | 68 ++++++-----------------------------------
 1 file changed, 9 insertions(+), 59 deletions(-)

diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index bf0e34b..a80e1b6 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -181,65 +181,15 @@ char* mcp_json_format_request_direct(uint64_t id, const char* method, const char
         return NULL;
     }
 
-    // Calculate the required buffer size more accurately to avoid reallocations
-    size_t method_len = strlen(method);
-    size_t params_len = (params != NULL) ? strlen(params) : 0;
-
-    // Base size: {"jsonrpc":"2.0","id":ID,"method":"METHOD"} + null terminator
-    // 32 bytes for the fixed parts + method length + 2 for quotes around method
-    size_t buffer_size = 32 + method_len + 2;
-
-    // Add space for params if provided: ,"params":PARAMS
-    // 11 bytes for ,"params": + params length
-    if (params != NULL) {
-        buffer_size += 11 + params_len;
-    }
-
-    // Add space for closing brace and null terminator
-    buffer_size += 2;
-
-    // Allocate the buffer with the calculated size
-    char* buffer = (char*)malloc(buffer_size);
-    if (!buffer) {
-        return NULL;
-    }
-
-    // Format the basic request structure
-    int written = snprintf(buffer, buffer_size,
-        "{\"jsonrpc\":\"2.0\",\"id\":%" PRIu64 ",\"method\":\"%s\"",
-        id, method);
-
-    if (written < 0 || (size_t)written >= buffer_size) {
-        // Buffer too small or error
-        free(buffer);
-        return NULL;
-    }
-
-    // Add params if provided
-    if (params != NULL) {
-        // Append the params
-        written += snprintf(buffer + written, buffer_size - written,
-            ",\"params\":%s", params);
-
-        if (written < 0 || (size_t)written >= buffer_size) {
-            // Buffer calculation error or snprintf error
-            free(buffer);
-            return NULL;
-        }
-    }
-
-    // Add closing brace
-    if ((size_t)written + 2 <= buffer_size) {
-        buffer[written] = '}';
-        buffer[written + 1] = '\0';
-    }
-    else {
-        // This should never happen with our buffer size calculation
-        free(buffer);
-        return NULL;
-    }
-
-    return buffer;
+    // Stringifying a message writes straight into a malloc'd buffer and escapes the method
+    mcp_message_t message;
+    memset(&message, 0, sizeof(message));
+    message.type = MCP_MESSAGE_TYPE_REQUEST;
+    message.request.id = id;
+    message.request.method = (char*)method;
+    message.request.params = (char*)params;
+
+    return mcp_json_stringify_message(&message);
 }
 
 char* mcp_json_format_error_response(uint64_t id, mcp_error_code_t error_code, const char* error_message) {
-- 
2.43.0


From 5b391976b09ef698e10fc66a26ca4c2b3a99bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:25 +0000
Subject: [PATCH 020/167] fix: escape control characters in JSON strings of
 encoded messages

---
 src/common/mcp_string_utils.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common/mcp_string_utils.c b/src/common/mcp_string_utils.c
index d94addb..4a018a9 100644
--- a/src/common/mcp_string_utils.c
+++ b/src/common/mcp_string_utils.c
@@ -171,8 +171,8 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
                 additional_len += 2;
                 break;
             default:
-                // Normal character
-                additional_len += 1;
+                // Other control characters need 6 bytes (\u00XX), normal characters 1
+                additional_len += ((unsigned char)c < 0x20) ? 6 : 1;
                 break;
         }
     }
@@ -197,7 +197,16 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
             case '\n': *dest++ = '\\'; *dest++ = 'n'; break;
             case '\r': *dest++ = '\\'; *dest++ = 'r'; break;
             case '\t': *dest++ = '\\'; *dest++ = 't'; break;
-            default:   *dest++ = c; break;
+            default:
+                if ((unsigned char)c < 0x20) {
+                    static const char hex[] = "0123456789abcdef";
+                    *dest++ = '\\'; *dest++ = 'u'; *dest++ = '0'; *dest++ = '0';
+                    *dest++ = hex[(unsigned char)c >> 4];
+                    *dest++ = hex[c & 0x0F];
+                } else {
+                    *dest++ = c;
+                }
+                break;
         }
     }
 
-- 
2.43.0


From 6221aefc43b97bc598296c465f1d022e71b32567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:11 +0000
Subject: [PATCH 021/167] fix: do not let a ping open a whole batch to
 unauthenticated callers

The anonymous context given to an unauthenticated ping was used for every
request of a batch that merely started with one. Grant it only when all
requests of the message are pings.
---
 src/server/mcp_server_dispatch.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 2aad825..b1286f3 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -164,9 +164,17 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
     if (message_count > 0 && messages[0].type == MCP_MESSAGE_TYPE_REQUEST) {
         first_request_id = messages[0].request.id;
 
-        // Check if this is a ping request (special case for authentication)
-        if (messages[0].request.method != NULL && strcmp(messages[0].request.method, "ping") == 0) {
-            is_ping_request = true;
+        // Check if this is a ping request (special case for authentication).
+        // A batch only qualifies if it contains no request other than pings.
+        is_ping_request = true;
+        for (size_t i = 0; i < message_count; i++) {
+            if (messages[i].type == MCP_MESSAGE_TYPE_REQUEST &&
+                (messages[i].request.method == NULL || strcmp(messages[i].request.method, "ping") != 0)) {
+                is_ping_request = false;
+                break;
+            }
+        }
+        if (is_ping_request) {
             mcp_log_debug("Detected ping request, using relaxed authentication");
         }
 
-- 
2.43.0


From 21230f5f347d40b36956792981bd476ebd9a6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:11 +0000
Subject: [PATCH 022/167] fix: dispatch the performance metrics methods

The method name lengths were one too small, so both requests were answered
with "Method not found".
---
 src/server/mcp_server_dispatch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index b1286f3..35d11b0 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -463,10 +463,10 @@ char* handle_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_request
     else if (method_len == 23 && memcmp(method, "list_resource_templates", 23) == 0) {
         return handle_list_resource_templates_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 22 && memcmp(method, "get_performance_metrics", 22) == 0) {
+    else if (method_len == 23 && memcmp(method, "get_performance_metrics", 23) == 0) {
         return handle_get_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 24 && memcmp(method, "reset_performance_metrics", 24) == 0) {
+    else if (method_len == 25 && memcmp(method, "reset_performance_metrics", 25) == 0) {
         return handle_reset_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
     else {
-- 
2.43.0


From adbd8a2abe326e5b8d5f6571dc91145de71a9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:11 +0000
Subject: [PATCH 023/167] fix: answer a batch of one request with an array

JSON-RPC answers a batch with an array. A one-element batch was answered
with a bare response object.
---
 src/server/mcp_server_dispatch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 35d11b0..25f865c 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -237,7 +237,9 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
     bool is_batch_response = false;
     bool batch_buffer_initialized = false;
 
-    if (message_count > 1) {
+    // A batch is answered with an array, even if it holds a single message
+    const char* first_char = json_str + strspn(json_str, " \t\r\n");
+    if (*first_char == '[') {
         is_batch_response = true;
         if (dyn_buf_init(&response_batch_buf, 512) != 0) { // Initial capacity
             mcp_log_error("Failed to init batch response buffer.");
-- 
2.43.0


From 792ce045a970f9014a32276cbff03e148f13042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:11 +0000
Subject: [PATCH 024/167] fix: do not put malloc'd arrays into the thread cache

mcp_safe_free() handed arrays allocated with malloc to the thread cache,
which later returned them as blocks of the size class and let callers
write past their end.
---
 src/common/mcp_types.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common/mcp_types.c b/src/common/mcp_types.c
index c12a64e..90046c4 100644
--- a/src/common/mcp_types.c
+++ b/src/common/mcp_types.c
@@ -42,11 +42,10 @@ void mcp_safe_free(void* ptr, size_t size) {
     if (block_size > 0) {
         // It's a pool-allocated block, return it to the pool
         mcp_pool_free(ptr);
-    } else if (mcp_memory_pool_system_is_initialized()) {
-        // It might be allocated by thread cache
-        mcp_thread_cache_free(ptr, size);
     } else {
-        // It's a malloc-allocated block, use free
+        // It's a malloc-allocated block (possibly handed out by the thread cache,
+        // which may hold larger blocks than the caller knows), use free
+        (void)size;
         free(ptr);
     }
 }
-- 
2.43.0


From dec5082b22840c0dc168e9756e91ea565d436967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:11 +0000
Subject: [PATCH 025/167] fix: free handler content instead of putting it into
 the item pool

Items returned by resource and tool handlers are malloc'd, but they were
released into the content item pool without freeing their data.
---
 src/server/mcp_server_handlers.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/server/mcp_server_handlers.c b/src/server/mcp_server_handlers.c
index 9c30fec..92cc0ba 100644
--- a/src/server/mcp_server_handlers.c
+++ b/src/server/mcp_server_handlers.c
@@ -118,14 +118,15 @@ static char* create_json_result(const char* profile_name, uint64_t request_id, i
     return create_success_response(request_id, result_str);
 }
 
-// Helper function to clean up content items
-static void cleanup_content_items(mcp_server_t* server, mcp_content_item_t** content_items, size_t content_count) {
+// Helper function to clean up content items. Items returned by the cache come from
+// the server's object pool; items returned by handlers are malloc'd.
+static void cleanup_content_items(mcp_server_t* server, mcp_content_item_t** content_items, size_t content_count, bool pooled) {
     if (!content_items) return;
 
     for (size_t i = 0; i < content_count; i++) {
         if (content_items[i]) {
-            if (server && server->content_item_pool) {
-                mcp_object_pool_release(server->content_item_pool, content_items[i]);
+            if (pooled) {
+                mcp_content_item_release_pooled(server->content_item_pool, content_items[i]);
             } else {
                 mcp_content_item_free(content_items[i]);
             }
@@ -446,7 +447,7 @@ char* handle_read_resource_request(mcp_server_t* server, mcp_arena_t* arena, con
             // Try resource handler
             handler_status = handle_resource_handler(server, uri, &content_items, &content_count, &fetched_from_handler);
             if (handler_status != MCP_ERROR_NONE) {
-                cleanup_content_items(server, content_items, content_count);
+                cleanup_content_items(server, content_items, content_count, false);
                 mcp_json_destroy(params_json);
                 RETURN_ERROR(profile_name, handler_status, "Resource handler failed or resource not found");
             }
@@ -472,13 +473,13 @@ char* handle_read_resource_request(mcp_server_t* server, mcp_arena_t* arena, con
     PROFILE_START("json_build");
     mcp_json_t* contents_json = mcp_json_array_create_with_capacity(content_count);
     if (!contents_json) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, !fetched_from_handler);
         mcp_json_destroy(params_json);
         RETURN_ERROR(profile_name, MCP_ERROR_INTERNAL_ERROR, "Failed to create contents array");
     }
 
     bool json_build_error = build_content_json(contents_json, content_items, content_count, uri);
-    cleanup_content_items(server, content_items, content_count);
+    cleanup_content_items(server, content_items, content_count, !fetched_from_handler);
 
     if (json_build_error) {
         mcp_json_destroy(contents_json);
@@ -708,7 +709,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
     }
 
     if (handler_status != MCP_ERROR_NONE) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, false);
         mcp_json_destroy(params_json);
         *error_code = handler_status;
         const char* msg = handler_error_message ? handler_error_message : "Tool handler failed or tool not found";
@@ -720,7 +721,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
 
     mcp_json_t* content_json = mcp_json_array_create();
     if (!content_json) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, false);
         free(handler_error_message);
         mcp_json_destroy(params_json);
         *error_code = MCP_ERROR_INTERNAL_ERROR;
@@ -730,7 +731,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
     }
 
     bool json_build_error = build_tool_content_json(content_json, content_items, content_count);
-    cleanup_content_items(server, content_items, content_count);
+    cleanup_content_items(server, content_items, content_count, false);
     free(handler_error_message);
 
     if (json_build_error) {
-- 
2.43.0


From 50984815ca3862a731150f642a0f42458f48dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:11 +0000
Subject: [PATCH 026/167] fix: give every content item of a resource its own
 URI node

The shared node was referenced once too few for resources with several
content items, so it was freed while still in use.
---
 src/server/mcp_server_handlers.c | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/server/mcp_server_handlers.c b/src/server/mcp_server_handlers.c
index 92cc0ba..d4261cb 100644
--- a/src/server/mcp_server_handlers.c
+++ b/src/server/mcp_server_handlers.c
@@ -139,11 +139,6 @@ static void cleanup_content_items(mcp_server_t* server, mcp_content_item_t** con
 static bool build_content_json(mcp_json_t* contents_json, mcp_content_item_t** content_items,
                               size_t content_count, const char* uri) {
     bool json_build_error = false;
-    mcp_json_t* uri_json_str = mcp_json_string_create(uri);
-
-    if (!uri_json_str) {
-        return true; // Error occurred
-    }
 
     for (size_t i = 0; i < content_count && !json_build_error; i++) {
         mcp_content_item_t* item = content_items[i];
@@ -155,17 +150,12 @@ static bool build_content_json(mcp_json_t* contents_json, mcp_content_item_t** c
             break;
         }
 
-        if (mcp_json_object_set_property(item_obj, "uri", uri_json_str) != 0) {
+        if (mcp_json_object_set_property(item_obj, "uri", mcp_json_string_create(uri)) != 0) {
             mcp_json_destroy(item_obj);
             json_build_error = true;
             break;
         }
 
-        // Only increment reference count after first use
-        if (i == 0) {
-            mcp_json_increment_ref_count(uri_json_str);
-        }
-
         if (item->mime_type &&
             mcp_json_object_set_property(item_obj, "mimeType", mcp_json_string_create(item->mime_type)) != 0) {
             mcp_json_destroy(item_obj);
@@ -187,7 +177,6 @@ static bool build_content_json(mcp_json_t* contents_json, mcp_content_item_t** c
         }
     }
 
-    mcp_json_destroy(uri_json_str);
     return json_build_error;
 }
 
-- 
2.43.0


From bab0b8b0ff65305e45a5e6751ed6c11139e4d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:11 +0000
Subject: [PATCH 027/167] fix: serve everyone when the configured API key is
 empty

The dispatcher treats an empty key as "no authentication", but the
verification refused every such request.
---
 src/server/mcp_auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/mcp_auth.c b/src/server/mcp_auth.c
index 895a4b8..765f86b 100644
--- a/src/server/mcp_auth.c
+++ b/src/server/mcp_auth.c
@@ -220,7 +220,8 @@ int mcp_auth_verify(mcp_server_t* server, mcp_auth_type_t auth_type, const char*
     mcp_log_debug("mcp_auth_verify called. Type: %d", auth_type);
 
     // --- No Authentication ---
-    if (auth_type == MCP_AUTH_NONE && server->config.api_key == NULL) {
+    if (auth_type == MCP_AUTH_NONE &&
+        (server->config.api_key == NULL || server->config.api_key[0] == '\0')) {
         // Only allow AUTH_NONE if no API key is configured on the server
         mcp_log_debug("Creating anonymous auth context (MCP_AUTH_NONE)");
         mcp_auth_context_t* context = create_wildcard_auth_context(MCP_AUTH_NONE, "anonymous", 0);
-- 
2.43.0


From cc69f915fce21f9cc69ea63cd21e4a7fffa58d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:11 +0000
Subject: [PATCH 028/167] fix: template route free function takes the value
 only

The hash table calls it with the value as its single argument, so the
function freed an undefined second argument.
---
 src/server/internal/server_template_router.h | 2 +-
 src/server/mcp_server_template_router.c      | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/internal/server_template_router.h b/src/server/internal/server_template_router.h
index 946e516..df7de5a 100644
--- a/src/server/internal/server_template_router.h
+++ b/src/server/internal/server_template_router.h
@@ -41,6 +41,6 @@ mcp_error_code_t mcp_server_handle_template_resource(
 /**
  * @brief Callback function to free template routes when the server is destroyed
  */
-void mcp_server_free_template_routes(const void* key, void* value, void* user_data);
+void mcp_server_free_template_routes(void* value);
 
 #endif /* SERVER_TEMPLATE_ROUTER_H */
diff --git a/src/server/mcp_server_template_router.c b/src/server/mcp_server_template_router.c
index 6f18f5e..3710a5f 100644
--- a/src/server/mcp_server_template_router.c
+++ b/src/server/mcp_server_template_router.c
@@ -177,9 +177,7 @@ int mcp_server_register_template_handler_internal(
 /**
  * @brief Callback function to free template routes when the server is destroyed
  */
-void mcp_server_free_template_routes(const void* key, void* value, void* user_data) {
-    (void)key;
-    (void)user_data;
+void mcp_server_free_template_routes(void* value) {
     template_route_t* route = (template_route_t*)value;
     template_route_free(route);
 }
-- 
2.43.0


From 3e229350f34b315b6e1586324576f1c244c80e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:11 +0000
Subject: [PATCH 029/167] fix: destroy the content item pool after the resource
 cache

The cache releases its items into the pool when it is destroyed.
---
 src/server/mcp_server.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 150c64f..8527716 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -122,9 +122,6 @@ static int add_to_hashtable(
 static void cleanup_server_resources(mcp_server_t* server) {
     if (!server) return;
 
-    // Clean up object pool
-    safe_destroy_resource((void**)&server->content_item_pool, (void(*)(void*))mcp_object_pool_destroy);
-
     // Clean up hash tables
     safe_destroy_hashtable(&server->tools_table);
     safe_destroy_hashtable(&server->template_routes_table);
@@ -142,6 +139,9 @@ static void cleanup_server_resources(mcp_server_t* server) {
     // Clean up resource cache
     safe_destroy_resource((void**)&server->resource_cache, (void(*)(void*))mcp_cache_destroy);
 
+    // Clean up object pool (after the cache, which releases its items into it)
+    safe_destroy_resource((void**)&server->content_item_pool, (void(*)(void*))mcp_object_pool_destroy);
+
     // Clean up thread pool
     safe_destroy_resource((void**)&server->thread_pool, (void(*)(void*))mcp_thread_pool_destroy);
 
-- 
2.43.0


From d109c7aff5de659a349b4171c7dc4e0721cdadc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:29 +0000
Subject: [PATCH 030/167] fix: return the content items of evicted, expired and
 replaced cache entries to the pool

---
 src/server/mcp_cache.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 6ae64a8..7d49e45 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -290,6 +290,9 @@ static bool evict_lru_entry(mcp_resource_cache_t* cache) {
     // Remove the entry from the LRU list
     mcp_list_remove(cache->lru_list, lru_node, NULL);
 
+    // Clean up the entry's content items
+    cleanup_cache_entry_content(cache, entry);
+
     // Remove the entry from the hash table
     return mcp_hashtable_remove(cache->table, key_to_evict) == 0;
 }
@@ -349,6 +352,7 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
                 if (entry->lru_node) {
                     mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
                 }
+                cleanup_cache_entry_content(cache, entry);
                 mcp_hashtable_remove(cache->table, uri);
             }
         }
@@ -415,6 +419,7 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
                     if (entry->lru_node) {
                         mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
                     }
+                    cleanup_cache_entry_content(cache, entry);
                     mcp_hashtable_remove(cache->table, uri);
                 }
             }
@@ -494,6 +499,7 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
             if (entry->lru_node) {
                 mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
             }
+            cleanup_cache_entry_content(cache, entry);
             mcp_hashtable_remove(cache->table, uri);
 
             // Release acquired items back to pool
@@ -626,6 +632,8 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     // If the key exists, we need to remove the old entry from the LRU list
     if (key_exists && existing_entry && existing_entry->lru_node) {
         mcp_list_remove(cache->lru_list, existing_entry->lru_node, NULL);
+        // The hash table frees the replaced entry but not its content items
+        cleanup_cache_entry_content(cache, existing_entry);
     }
 
     // Add entry to LRU list and hash table
-- 
2.43.0


From 13e5da3512a1aad21a70ffa87a7919c80ec858ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:29 +0000
Subject: [PATCH 031/167] fix: do not release content items twice when caching
 them fails half way

---
 src/server/mcp_cache.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 7d49e45..4b9c6f1 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -587,13 +587,7 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         );
         if (!entry->content[i]) {
             copy_error = true;
-            // Release already acquired/copied items back to pool
-            for(size_t j = 0; j < i; ++j) {
-                if (entry->content[j]) {
-                    cleanup_content_item(cache, entry->content[j]);
-                }
-            }
-            // Exit loop on acquisition/copy failure
+            // Exit loop on acquisition/copy failure; free_entry_resources releases the copied items
             break;
         }
         // Increment count only after successful copy
-- 
2.43.0


From cd269fcb968aeae83521bbaeb3bd627ef16816ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:29 +0000
Subject: [PATCH 032/167] fix: keep the cache locked while copying the content
 of an entry

---
 src/server/mcp_cache.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 4b9c6f1..187e5c0 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -383,6 +383,11 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         if (entry->expiry_time == 0 || now < entry->expiry_time) {
             // Make a temporary copy of the content pointers and count
             actual_content_count = entry->content_count;
+            if (actual_content_count > entry_content_count) {
+                // The entry was replaced by a larger one between our checks
+                free(content_copy_ptrs);
+                content_copy_ptrs = (mcp_content_item_t**)malloc(actual_content_count * sizeof(mcp_content_item_t*));
+            }
             entry_content_copies = (mcp_content_item_t**)malloc(actual_content_count * sizeof(mcp_content_item_t*));
 
             if (entry_content_copies) {
@@ -400,11 +405,9 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         entry = NULL;
     }
 
-    // Release read lock
-    mcp_rwlock_read_unlock(cache->rwlock);
-
     // If entry was removed or expired, clean up and return
-    if (!entry || is_expired || !entry_content_copies) {
+    if (!entry || is_expired || !entry_content_copies || !content_copy_ptrs) {
+        mcp_rwlock_read_unlock(cache->rwlock);
         free(content_copy_ptrs);
         free(entry_content_copies);
 
@@ -431,7 +434,7 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         return -1;
     }
 
-    // Now process the content outside the lock
+    // Copy the content while the read lock keeps the entry alive
     size_t copied_count = 0;
     bool copy_error = false;
 
@@ -462,6 +465,9 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         copied_count++;
     }
 
+    // Release read lock
+    mcp_rwlock_read_unlock(cache->rwlock);
+
     // Free the temporary copy of content pointers
     free(entry_content_copies);
 
-- 
2.43.0


From c4f8f8cf9c5583972562867830d80a54be23a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:00 +0000
Subject: [PATCH 033/167] fix: a default cache lifetime of 0 means that entries
 do not expire

---
 src/server/mcp_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 187e5c0..1915799 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -218,7 +218,7 @@ static mcp_cache_entry_t* create_cache_entry(const char* uri, time_t ttl_seconds
     entry->last_accessed = time(NULL);
     time_t effective_ttl = (ttl_seconds == 0) ? cache->default_ttl_seconds : (time_t)ttl_seconds;
     // 0 means never expires
-    entry->expiry_time = (effective_ttl < 0) ? 0 : entry->last_accessed + effective_ttl;
+    entry->expiry_time = (effective_ttl <= 0) ? 0 : entry->last_accessed + effective_ttl;
     // Mark as pooled since we're using the pool
     entry->is_pooled = true;
     // Will be set after adding to LRU list
-- 
2.43.0


From 0bc64c748bfcda92a7bd2cc069dffcc791df5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:25 +0000
Subject: [PATCH 034/167] fix: do not answer unauthenticated notifications

---
 src/server/mcp_server_dispatch.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 25f865c..3c23bfa 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -219,7 +219,17 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
             *error_code = MCP_ERROR_INVALID_REQUEST; // Generic auth failure
             // For batch, JSON-RPC spec is unclear on error response format.
             // Sending a single error response might be appropriate.
-            char* error_response = create_error_response(first_request_id, *error_code, "Authentication failed");
+            // A message without any request is dropped: notifications get no response.
+            bool has_request = false;
+            for (size_t i = 0; i < message_count && !has_request; i++) {
+                has_request = (messages[i].type == MCP_MESSAGE_TYPE_REQUEST);
+            }
+            char* error_response = NULL;
+            if (has_request) {
+                error_response = create_error_response(first_request_id, *error_code, "Authentication failed");
+            } else {
+                *error_code = MCP_ERROR_NONE;
+            }
             mcp_json_free_message_array(messages, message_count); // Free parsed messages
             // No need to destroy the thread-local arena, just reset it
             mcp_arena_reset_current_thread();
-- 
2.43.0


From c3a88592725de99681e022a1122f829ddc23a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:12 +0000
Subject: [PATCH 035/167] fix: set up the arena in every thread that uses the
 client API

---
 src/client/mcp_client_api.c | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/client/mcp_client_api.c b/src/client/mcp_client_api.c
index 25d547b..8d64a45 100644
--- a/src/client/mcp_client_api.c
+++ b/src/client/mcp_client_api.c
@@ -28,16 +28,7 @@
  * @return 0 on success, -1 on failure
  */
 static int ensure_thread_local_arena() {
-    // Use static variable to track initialization status for this thread
-    static int initialized = 0;
-
-    // Fast path for already initialized case
-    if (initialized) {
-        return 0;
-    }
-
-    mcp_log_debug("Initializing thread-local memory for API call");
-
+    // The cache and the arena belong to the calling thread, so check them on every call
     // Initialize thread cache if needed
     if (!mcp_thread_cache_is_initialized()) {
         // Configure thread cache with optimized settings for API operations
@@ -74,8 +65,6 @@ static int ensure_thread_local_arena() {
         mcp_log_debug("Thread-local arena initialized with size %zu", api_arena_size);
     }
 
-    // Mark as initialized for this thread
-    initialized = 1;
     return 0;
 }
 
-- 
2.43.0


From 85a57c0b7eee671e3d6982edfd77a63ff8d21b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:38 +0000
Subject: [PATCH 036/167] fix: look up the pending request again after waiting,
 the table may have been resized

---
 src/client/mcp_client_request.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index cbbe50c..2cf47bd 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -280,13 +280,18 @@ int mcp_client_send_and_wait(
             );
         }
 
+        // The table may have been resized while the mutex was released
+        req_entry_wrapper = mcp_client_find_pending_request_entry(client, request_id, false);
+
         // Handle timeout and other wait errors with platform-specific code
 #ifdef ETIMEDOUT
         // POSIX systems
         if (wait_result == ETIMEDOUT) {
             mcp_log_error("Request %llu timed out after %d ms",
                          (unsigned long long)request_id, client->config.request_timeout_ms);
-            req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
+            if (req_entry_wrapper) {
+                req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
+            }
         } else if (wait_result != 0) {
             mcp_log_error("Wait failed for request %llu with code: %d (%s)",
                          (unsigned long long)request_id, wait_result, strerror(wait_result));
@@ -296,7 +301,9 @@ int mcp_client_send_and_wait(
         if (wait_result == 1) { // Windows timeout code
             mcp_log_error("Request %llu timed out after %d ms",
                          (unsigned long long)request_id, client->config.request_timeout_ms);
-            req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
+            if (req_entry_wrapper) {
+                req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
+            }
         } else if (wait_result != 0) {
             mcp_log_error("Wait failed for request %llu with code: %d",
                          (unsigned long long)request_id, wait_result);
-- 
2.43.0


From 803a088cbc568060782c7c410f76992cc03324e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:38 +0000
Subject: [PATCH 037/167] fix: report a client request timeout as such

---
 src/client/mcp_client_request.c | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index 2cf47bd..823ff8b 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -283,22 +283,9 @@ int mcp_client_send_and_wait(
         // The table may have been resized while the mutex was released
         req_entry_wrapper = mcp_client_find_pending_request_entry(client, request_id, false);
 
-        // Handle timeout and other wait errors with platform-specific code
-#ifdef ETIMEDOUT
-        // POSIX systems
-        if (wait_result == ETIMEDOUT) {
-            mcp_log_error("Request %llu timed out after %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-            if (req_entry_wrapper) {
-                req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-            }
-        } else if (wait_result != 0) {
-            mcp_log_error("Wait failed for request %llu with code: %d (%s)",
-                         (unsigned long long)request_id, wait_result, strerror(wait_result));
-        }
-#else
-        // Windows and other systems
-        if (wait_result == 1) { // Windows timeout code
+        // Handle timeout and other wait errors
+        if (wait_result == -2 && // Timeout code of mcp_cond_timedwait
+            (!req_entry_wrapper || req_entry_wrapper->request.status == PENDING_REQUEST_WAITING)) {
             mcp_log_error("Request %llu timed out after %d ms",
                          (unsigned long long)request_id, client->config.request_timeout_ms);
             if (req_entry_wrapper) {
@@ -308,7 +295,6 @@ int mcp_client_send_and_wait(
             mcp_log_error("Wait failed for request %llu with code: %d",
                          (unsigned long long)request_id, wait_result);
         }
-#endif
     } else if (req_entry_wrapper) {
         // Request found but not in waiting state
         mcp_log_debug("Request %llu found but not in waiting state (status: %d)",
-- 
2.43.0


From b52684e00c03ad2a27dec748f0f78901ab11a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:38 +0000
Subject: [PATCH 038/167] fix: report a failed send as a transport error

---
 src/client/mcp_client_request.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index 823ff8b..e573e65 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -137,6 +137,13 @@ int mcp_client_send_and_wait(
             mcp_mutex_unlock(client->pending_requests_mutex);
         }
 
+        // Report the failed send unless the transport's error callback already has
+        if (*error_code == MCP_ERROR_NONE) {
+            *error_code = MCP_ERROR_TRANSPORT_ERROR;
+        }
+        if (*error_message == NULL) {
+            *error_message = mcp_strdup("Failed to send request");
+        }
         return -1;
     }
 
-- 
2.43.0


From 12c2c2ff5e60648f9df7fc18a858240e6a2d0338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:38 +0000
Subject: [PATCH 039/167] fix: accept a request id again once its earlier
 request is done

---
 src/client/mcp_client_hash_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/mcp_client_hash_table.c b/src/client/mcp_client_hash_table.c
index 9033d32..8ae080a 100644
--- a/src/client/mcp_client_hash_table.c
+++ b/src/client/mcp_client_hash_table.c
@@ -202,7 +202,7 @@ int mcp_client_add_pending_request_entry(
     }
 
     // Check for duplicate ID (should never happen with proper ID generation)
-    if (entry->id == id) {
+    if (entry->id == id && entry->request.status != PENDING_REQUEST_INVALID) {
         mcp_log_error("Duplicate request ID found in hash table: %llu",
                      (unsigned long long)id);
         return -1;
-- 
2.43.0


From 7519f08f5d9906827666f294b14571256cbca063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:38 +0000
Subject: [PATCH 040/167] fix: allocate and free batch responses the same way
 in every thread

---
 src/client/mcp_client_batch.c | 40 ++++++++---------------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/src/client/mcp_client_batch.c b/src/client/mcp_client_batch.c
index 364d275..cb36973 100644
--- a/src/client/mcp_client_batch.c
+++ b/src/client/mcp_client_batch.c
@@ -49,12 +49,8 @@ void mcp_client_free_batch_responses(mcp_batch_response_t* responses, size_t cou
         }
     }
 
-    // Free the response array using thread cache if possible
-    if (mcp_thread_cache_is_initialized()) {
-        mcp_thread_cache_free(responses, count * sizeof(mcp_batch_response_t));
-    } else {
-        free(responses);
-    }
+    // Free the response array
+    free(responses);
 
     mcp_log_debug("Batch responses freed successfully");
 }
@@ -117,16 +113,9 @@ int mcp_client_send_batch_request(
         }
     }
 
-    // Allocate the response array using thread cache if available
-    mcp_batch_response_t* response_array = NULL;
-
-    if (mcp_thread_cache_is_initialized()) {
-        response_array = (mcp_batch_response_t*)mcp_thread_cache_alloc(
-            request_count * sizeof(mcp_batch_response_t));
-    } else {
-        response_array = (mcp_batch_response_t*)calloc(
-            request_count, sizeof(mcp_batch_response_t));
-    }
+    // Allocate the response array; it may be freed by a thread with another cache state
+    mcp_batch_response_t* response_array = (mcp_batch_response_t*)calloc(
+        request_count, sizeof(mcp_batch_response_t));
 
     if (response_array == NULL) {
         mcp_log_error("Failed to allocate memory for batch response array");
@@ -329,16 +318,9 @@ int mcp_client_send_batch_request_optimized(
         }
     }
 
-    // Allocate the response array using thread cache if available
-    mcp_batch_response_t* response_array = NULL;
-
-    if (mcp_thread_cache_is_initialized()) {
-        response_array = (mcp_batch_response_t*)mcp_thread_cache_alloc(
-            request_count * sizeof(mcp_batch_response_t));
-    } else {
-        response_array = (mcp_batch_response_t*)calloc(
-            request_count, sizeof(mcp_batch_response_t));
-    }
+    // Allocate the response array; it may be freed by a thread with another cache state
+    mcp_batch_response_t* response_array = (mcp_batch_response_t*)calloc(
+        request_count, sizeof(mcp_batch_response_t));
 
     if (response_array == NULL) {
         mcp_log_error("Failed to allocate memory for batch response array");
@@ -356,11 +338,7 @@ int mcp_client_send_batch_request_optimized(
         mcp_log_error("Failed to allocate memory for batch contexts");
 
         // Clean up response array
-        if (mcp_thread_cache_is_initialized()) {
-            mcp_thread_cache_free(response_array, request_count * sizeof(mcp_batch_response_t));
-        } else {
-            free(response_array);
-        }
+        free(response_array);
 
         return -1;
     }
-- 
2.43.0


From 3c6e2efde9e2f226cf2e24fcfcf8742d2a433e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:45 +0000
Subject: [PATCH 041/167] fix: free the content arrays of a template batch the
 way they were allocated

---
 src/client/mcp_client_template.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/client/mcp_client_template.c b/src/client/mcp_client_template.c
index b32f038..3c42967 100644
--- a/src/client/mcp_client_template.c
+++ b/src/client/mcp_client_template.c
@@ -271,9 +271,8 @@ void mcp_client_free_batch_resources(
                 }
             }
 
-            // Free the array of content item pointers using thread cache
-            mcp_thread_cache_free(content_array[i],
-                                 count_array[i] * sizeof(mcp_content_item_t*));
+            // Free the array of content item pointers (allocated with calloc by the parser)
+            free(content_array[i]);
         }
     }
 
-- 
2.43.0


From 886c5df359c9ea962c908d5055924807dd7e5669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:37 +0000
Subject: [PATCH 042/167] fix: set up the arena before expanding a template in
 a client thread

---
 src/client/mcp_client_template.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client/mcp_client_template.c b/src/client/mcp_client_template.c
index 3c42967..8149e37 100644
--- a/src/client/mcp_client_template.c
+++ b/src/client/mcp_client_template.c
@@ -7,6 +7,7 @@
 #include "mcp_memory_pool.h"
 #include "mcp_thread_cache.h"
 #include "mcp_arena.h"
+#include "mcp_thread_local.h"
 #include "mcp_string_utils.h"
 
 // Performance optimization constants
@@ -58,6 +59,13 @@ int mcp_client_expand_template(
                  template_uri,
                  params_len > 100 ? "[large params]" : params_json);
 
+    // JSON nodes come from the calling thread's arena
+    if (mcp_arena_get_current() == NULL &&
+        mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE) != 0) {
+        mcp_log_error("Failed to initialize thread-local arena for template expansion");
+        return -1;
+    }
+
     // Parse parameters JSON
     mcp_json_t* params = mcp_json_parse(params_json);
     if (params == NULL) {
-- 
2.43.0


From e91b2300d91f05c2b2b6d1a2461c782acadcec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:58 +0000
Subject: [PATCH 043/167] fix: keep send and receive together on synchronous
 transports shared by threads

---
 src/client/internal/client_internal.h |  1 +
 src/client/mcp_client_core.c          | 14 ++++++++++++++
 src/client/mcp_client_request.c       | 10 ++++++++++
 3 files changed, 25 insertions(+)

diff --git a/src/client/internal/client_internal.h b/src/client/internal/client_internal.h
index c3d0cc5..2c88f79 100644
--- a/src/client/internal/client_internal.h
+++ b/src/client/internal/client_internal.h
@@ -50,6 +50,7 @@ struct mcp_client {
 
     // State for asynchronous response handling
     mcp_mutex_t* pending_requests_mutex; // Use the abstracted mutex type (pointer)
+    mcp_mutex_t* sync_request_mutex; // One request at a time on synchronous transports
     pending_request_entry_t* pending_requests_table; // Hash table
     size_t pending_requests_capacity; // Current capacity (size) of the hash table
     size_t pending_requests_count;    // Number of active entries in the hash table
diff --git a/src/client/mcp_client_core.c b/src/client/mcp_client_core.c
index 3ce831b..66ba5dc 100644
--- a/src/client/mcp_client_core.c
+++ b/src/client/mcp_client_core.c
@@ -99,6 +99,15 @@ mcp_client_t* mcp_client_create(const mcp_client_config_t* config, mcp_transport
         return NULL;
     }
 
+    client->sync_request_mutex = mcp_mutex_create();
+    if (client->sync_request_mutex == NULL) {
+        mcp_log_error("Failed to create synchronous request mutex.");
+        mcp_mutex_destroy(client->pending_requests_mutex);
+        mcp_transport_destroy(transport);
+        mcp_thread_cache_free(client, sizeof(mcp_client_t));
+        return NULL;
+    }
+
     // Initialize hash table with power-of-2 size for efficient hashing
     client->pending_requests_capacity = INITIAL_PENDING_REQUESTS_CAPACITY;
     client->pending_requests_count = 0;
@@ -109,6 +118,7 @@ mcp_client_t* mcp_client_create(const mcp_client_config_t* config, mcp_transport
 
     if (client->pending_requests_table == NULL) {
         mcp_log_error("Failed to allocate pending requests table");
+        mcp_mutex_destroy(client->sync_request_mutex);
         mcp_mutex_destroy(client->pending_requests_mutex);
         mcp_transport_destroy(transport);
         mcp_thread_cache_free(client, sizeof(mcp_client_t));
@@ -166,6 +176,10 @@ void mcp_client_destroy(mcp_client_t* client) {
         mcp_mutex_destroy(client->pending_requests_mutex);
         client->pending_requests_mutex = NULL;
     }
+    if (client->sync_request_mutex != NULL) {
+        mcp_mutex_destroy(client->sync_request_mutex);
+        client->sync_request_mutex = NULL;
+    }
 
     // Free any remaining pending requests (and their condition variables) in the hash table
     if (client->pending_requests_table != NULL) {
diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index e573e65..6220b60 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -123,6 +123,12 @@ int mcp_client_send_and_wait(
     // Send the request using vectored I/O
     mcp_log_debug("Sending request %llu (%zu bytes)",
                  (unsigned long long)request_id, json_len);
+
+    // A synchronous transport holds one response, so keep send and receive together
+    if (is_synchronous) {
+        mcp_mutex_lock(client->sync_request_mutex);
+    }
+
     int send_status = mcp_transport_sendv(client->transport, send_buffers, 2);
 
     // Handle send errors
@@ -135,6 +141,8 @@ int mcp_client_send_and_wait(
             mcp_mutex_lock(client->pending_requests_mutex);
             mcp_client_remove_pending_request_entry(client, request_id);
             mcp_mutex_unlock(client->pending_requests_mutex);
+        } else {
+            mcp_mutex_unlock(client->sync_request_mutex);
         }
 
         // Report the failed send unless the transport's error callback already has
@@ -168,6 +176,8 @@ int mcp_client_send_and_wait(
             client->config.request_timeout_ms
         );
 
+        mcp_mutex_unlock(client->sync_request_mutex);
+
         // Process the response if received successfully
         if (status == 0 && response_data != NULL && response_size > 0) {
             // Log response data at debug level only (avoid expensive string formatting)
-- 
2.43.0


From ce126edd4dbeb98d8f817f67650de7e97d0a77e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:19 +0000
Subject: [PATCH 044/167] fix: set up the arena before parsing a synchronous
 response

---
 src/client/mcp_client_request.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index 6220b60..b087802 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -198,6 +198,11 @@ int mcp_client_send_and_wait(
             char* response_error_message = NULL;
             char* response_result = NULL;
 
+            // JSON nodes come from the calling thread's arena
+            if (mcp_arena_get_current() == NULL) {
+                mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE);
+            }
+
             // Parse the JSON response
             int parse_result = mcp_json_parse_response(
                 response_data,
-- 
2.43.0


From 7187ac881de4406c9216af5f695270a18281de92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:58 +0000
Subject: [PATCH 045/167] fix: account for every request during shutdown

Oversized messages never left the count of active requests, the last
request did not wake up mcp_server_stop, and stop neither rechecked the
count nor held off a request that had passed the shutdown check.
---
 src/server/mcp_server.c      | 32 +++++++++++++----
 src/server/mcp_server_task.c | 68 ++++++++++++++++++++----------------
 2 files changed, 63 insertions(+), 37 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 8527716..57d4c80 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
+#include <time.h>
 
 #ifdef _WIN32
 #include <windows.h>
@@ -579,6 +580,10 @@ int mcp_server_stop(mcp_server_t* server) {
     // Signal threads to stop
     server->running = false;
     server->shutting_down = true;
+#ifndef _WIN32
+    // Requests count themselves before they look at the flag
+    __sync_synchronize();
+#endif
 
     // Stop the transport if it exists
     if (server->transport != NULL) {
@@ -591,8 +596,13 @@ int mcp_server_stop(mcp_server_t* server) {
         mcp_log_info("Graceful shutdown initiated, waiting for %d active requests to complete...",
                      server->active_requests);
 
+        // Read the counter under the mutex: the last request may not have released it yet
+        mcp_mutex_lock(server->shutdown_mutex);
+        bool requests_active = server->active_requests > 0;
+        mcp_mutex_unlock(server->shutdown_mutex);
+
         // Wait for active requests to complete or timeout
-        if (server->active_requests > 0) {
+        if (requests_active) {
             uint32_t timeout_ms = server->config.graceful_shutdown_timeout_ms > 0 ?
                                 server->config.graceful_shutdown_timeout_ms : 1000; // Default 1 second
 
@@ -617,11 +627,21 @@ int mcp_server_stop(mcp_server_t* server) {
                     }
                 }
                 #else
-                // On POSIX, we can use a single timed wait with the full timeout
-                int wait_result = mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, timeout_ms);
-                if (wait_result == -2) {
-                    // -2 indicates timeout
-                    timed_out = true;
+                struct timespec start_time, current_time;
+                clock_gettime(CLOCK_MONOTONIC, &start_time);
+                uint32_t remaining_ms = timeout_ms;
+
+                // Wait for active requests to complete or timeout
+                while (server->active_requests > 0 && !timed_out) {
+                    if (mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, remaining_ms) == -2) {
+                        // -2 indicates timeout
+                        timed_out = server->active_requests > 0;
+                    } else {
+                        clock_gettime(CLOCK_MONOTONIC, &current_time);
+                        int64_t elapsed_ms = (int64_t)(current_time.tv_sec - start_time.tv_sec) * 1000 +
+                                             (current_time.tv_nsec - start_time.tv_nsec) / 1000000;
+                        remaining_ms = elapsed_ms < timeout_ms ? timeout_ms - (uint32_t)elapsed_ms : 0;
+                    }
                 }
                 #endif
 
diff --git a/src/server/mcp_server_task.c b/src/server/mcp_server_task.c
index bfe1fd7..dfe333d 100644
--- a/src/server/mcp_server_task.c
+++ b/src/server/mcp_server_task.c
@@ -123,6 +123,28 @@ void process_message_task(void* arg) {
     PROFILE_END("process_message_task");
 }
 
+/**
+ * @internal
+ * @brief Ends the accounting of a request and wakes up a waiting shutdown after the last one.
+ *
+ * The counter only reaches zero with shutdown_mutex held, so a server that is
+ * being stopped stays valid until this function is done with it.
+ *
+ * @param server Pointer to the server instance.
+ */
+static void finish_active_request(mcp_server_t* server) {
+    mcp_mutex_lock(server->shutdown_mutex);
+#ifdef _WIN32
+    LONG remaining = InterlockedDecrement((LONG*)&server->active_requests);
+#else
+    int remaining = __sync_sub_and_fetch(&server->active_requests, 1);
+#endif
+    if (remaining == 0 && server->shutting_down) {
+        mcp_cond_signal(server->shutdown_cond);
+    }
+    mcp_mutex_unlock(server->shutdown_mutex);
+}
+
 /**
  * @brief Callback for processing incoming transport messages
  * 
@@ -148,20 +170,22 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     mcp_server_t* server = (mcp_server_t*)user_data;
     *error_code = MCP_ERROR_NONE;
 
+    // Increment active request counter. This comes before the shutdown check so that
+    // a shutdown either waits for this request or makes it be rejected.
+#ifdef _WIN32
+    InterlockedIncrement((LONG*)&server->active_requests);
+#else
+    __sync_fetch_and_add(&server->active_requests, 1);
+#endif
+
     // Check if server is shutting down
     if (server->shutting_down) {
         mcp_log_warn("Server is shutting down, rejecting new request");
         *error_code = MCP_ERROR_SERVER_SHUTTING_DOWN;
+        finish_active_request(server);
         return NULL;
     }
 
-    // Increment active request counter
-#ifdef _WIN32
-    InterlockedIncrement((LONG*)&server->active_requests);
-#else
-    __sync_fetch_and_add(&server->active_requests, 1);
-#endif
-
     // --- Rate Limiting Check ---
     // Get client IP address from transport (or use default if not available)
     const char* client_ip = mcp_transport_get_client_ip(server->transport);
@@ -181,11 +205,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
                 // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
+                finish_active_request(server);
 
                 PROFILE_END("transport_message_callback");
                 return NULL;
@@ -198,11 +218,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
                 // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
+                finish_active_request(server);
 
                 PROFILE_END("transport_message_callback");
                 return NULL;
@@ -217,6 +233,8 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (size > max_size) {
         mcp_log_error("Received message size (%zu) exceeds limit (%zu)", size, max_size);
         *error_code = MCP_ERROR_INVALID_REQUEST;
+        finish_active_request(server);
+        PROFILE_END("transport_message_callback");
         return NULL;
     }
 
@@ -244,6 +262,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (!message_copy) {
         mcp_log_error("Failed to allocate memory for message copy");
         *error_code = MCP_ERROR_INTERNAL_ERROR;
+        finish_active_request(server);
         PROFILE_END("transport_message_callback");
         return NULL;
     }
@@ -284,20 +303,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     }
 
     // Decrement active request counter
-#ifdef _WIN32
-    LONG prev_count = InterlockedDecrement((LONG*)&server->active_requests);
-#else
-    int prev_count = __sync_fetch_and_sub(&server->active_requests, 1);
-#endif
-
-    // If active_requests reached zero and server is shutting down, signal the condition variable
-    if (prev_count == 0 && server->shutting_down) {
-        if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
-            mcp_cond_signal(server->shutdown_cond);
-            mcp_mutex_unlock(server->shutdown_mutex);
-            mcp_log_info("Last request completed, signaling shutdown condition");
-        }
-    }
+    finish_active_request(server);
 
     PROFILE_END("transport_message_callback");
     return result; // Return the response or NULL
-- 
2.43.0


From 06a57a350a9dd0db87501e60f47e545f1b0c3cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:05 +0000
Subject: [PATCH 046/167] fix: take the write lock while a rate limit check
 updates client entries

---
 src/server/mcp_advanced_rate_limiter.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 1d5de61..911600c 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -836,15 +836,15 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
         return false;
     }
 
-    // Increment total requests counter
-    limiter->total_requests++;
-
     // Get current time
     time_t current_time = time(NULL);
     bool allowed = false;
 
-    // Acquire read lock
-    mcp_rwlock_read_lock(limiter->lock);
+    // Acquire write lock: a check updates client entries and statistics
+    mcp_rwlock_write_lock(limiter->lock);
+
+    // Increment total requests counter
+    limiter->total_requests++;
 
     // Check each key type in order of priority
     if (api_key) {
@@ -871,8 +871,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -903,8 +903,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -935,8 +935,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -967,19 +967,19 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
         }
     }
 
-    // Release lock
-    mcp_rwlock_read_unlock(limiter->lock);
-
     // If we get here, the request is denied
     limiter->denied_requests++;
+
+    // Release lock
+    mcp_rwlock_write_unlock(limiter->lock);
     return false;
 }
 
-- 
2.43.0


From 709d64106821b0aa2043a8ea08a39d26d27d75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:22 +0000
Subject: [PATCH 047/167] fix: honour the configured rate limiter

The advanced limiter with a token bucket was used whatever the
configuration said, so that the configured window and number of requests
had no effect.
---
 src/server/mcp_server.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 57d4c80..f1b96c9 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -221,8 +221,8 @@ mcp_server_t* mcp_server_create(const mcp_server_config_t* config, const mcp_ser
     server->config.rate_limit_max_requests = config->rate_limit_max_requests;
 
     // Advanced rate limiter settings
-    server->config.use_advanced_rate_limiter = config->use_advanced_rate_limiter || true; // Default to true
-    server->config.enable_token_bucket = config->enable_token_bucket || true; // Default to true
+    server->config.use_advanced_rate_limiter = config->use_advanced_rate_limiter;
+    server->config.enable_token_bucket = config->enable_token_bucket;
     server->config.tokens_per_second = config->tokens_per_second > 0 ? config->tokens_per_second : 5.0;
     server->config.max_tokens = config->max_tokens > 0 ? config->max_tokens : 20;
 
-- 
2.43.0


From 1272dad15940adb6f8410a27a5c386ba37207ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:48 +0000
Subject: [PATCH 048/167] fix: let rate limit rules with a negative priority
 apply

---
 src/server/mcp_advanced_rate_limiter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 911600c..cda608d 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -343,7 +343,7 @@ static const mcp_rate_limit_rule_t* find_matching_rule(mcp_advanced_rate_limiter
         // Check if the key matches the rule's pattern
         if (rule->rule.key_pattern == NULL || key_matches_pattern(key, rule->rule.key_pattern)) {
             // If this rule has higher priority than our current best match, use it
-            if (rule->rule.priority > highest_priority) {
+            if (!best_match || rule->rule.priority > highest_priority) {
                 best_match = &rule->rule;
                 highest_priority = rule->rule.priority;
             }
-- 
2.43.0


From 6c6ab49780586bd4505a3d27d07be568c337b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:48 +0000
Subject: [PATCH 049/167] fix: match rate limit patterns with a wildcard at
 both ends as containment

---
 src/server/mcp_advanced_rate_limiter.c | 30 +++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index cda608d..ba6cbdd 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -289,21 +289,6 @@ static bool key_matches_pattern(const char* key, const char* pattern) {
     size_t pattern_len = strlen(pattern);
     size_t key_len = strlen(key);
 
-    // Check for prefix match: pattern ends with *
-    if (pattern_len > 1 && pattern[pattern_len - 1] == '*') {
-        // Compare all characters except the trailing *
-        return strncmp(key, pattern, pattern_len - 1) == 0;
-    }
-
-    // Check for suffix match: pattern starts with *
-    if (pattern_len > 1 && pattern[0] == '*') {
-        // Compare the suffix
-        size_t suffix_len = pattern_len - 1;
-        if (key_len >= suffix_len) {
-            return strcmp(key + (key_len - suffix_len), pattern + 1) == 0;
-        }
-    }
-
     // Check for contains match: pattern starts and ends with *
     if (pattern_len > 2 && pattern[0] == '*' && pattern[pattern_len - 1] == '*') {
         // Extract the substring to search for
@@ -320,6 +305,21 @@ static bool key_matches_pattern(const char* key, const char* pattern) {
         return result;
     }
 
+    // Check for prefix match: pattern ends with *
+    if (pattern_len > 1 && pattern[pattern_len - 1] == '*') {
+        // Compare all characters except the trailing *
+        return strncmp(key, pattern, pattern_len - 1) == 0;
+    }
+
+    // Check for suffix match: pattern starts with *
+    if (pattern_len > 1 && pattern[0] == '*') {
+        // Compare the suffix
+        size_t suffix_len = pattern_len - 1;
+        if (key_len >= suffix_len) {
+            return strcmp(key + (key_len - suffix_len), pattern + 1) == 0;
+        }
+    }
+
     return false;
 }
 
-- 
2.43.0


From 271f76c22c6a3fad3feef773b71eff655bf4bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:48 +0000
Subject: [PATCH 050/167] fix: apply changed rate limit rules to clients
 already seen

A client entry kept the data of the rule it was created under, which a
rule with another algorithm then misread.
---
 src/server/mcp_advanced_rate_limiter.c | 60 +++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index ba6cbdd..1548a7c 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -143,6 +143,7 @@ static bool check_sliding_window(client_entry_t* entry, const mcp_rate_limit_rul
 static bool check_token_bucket(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time);
 static bool check_leaky_bucket(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time);
 static bool initialize_algorithm_data(client_entry_t* entry, const mcp_rate_limit_rule_t* rule);
+static bool update_algorithm_data(client_entry_t* entry, const mcp_rate_limit_rule_t* rule);
 static void cleanup_algorithm_data(client_entry_t* entry);
 static const mcp_rate_limit_rule_t* find_matching_rule(mcp_advanced_rate_limiter_t* limiter,
                                                      mcp_rate_limit_key_type_t key_type,
@@ -268,6 +269,59 @@ static bool initialize_algorithm_data(client_entry_t* entry, const mcp_rate_limi
     return true;
 }
 
+/**
+ * @internal
+ * @brief Brings an existing client entry in line with the rule that applies to it now.
+ */
+static bool update_algorithm_data(client_entry_t* entry, const mcp_rate_limit_rule_t* rule) {
+    // Another algorithm starts afresh
+    if (entry->algorithm != rule->algorithm) {
+        cleanup_algorithm_data(entry);
+        memset(&entry->data, 0, sizeof(entry->data));
+        return initialize_algorithm_data(entry, rule);
+    }
+
+    switch (rule->algorithm) {
+        case MCP_RATE_LIMIT_FIXED_WINDOW:
+            // The limits are taken from the rule
+            break;
+
+        case MCP_RATE_LIMIT_SLIDING_WINDOW: {
+            sliding_window_data_t* data = &entry->data.sliding_window;
+            if (data->buffer_size >= rule->max_requests_per_window)
+                break;
+
+            // Keep the recorded requests, oldest first, in a larger buffer
+            double* times = (double*)calloc(rule->max_requests_per_window, sizeof(double));
+            if (!times)
+                return false;
+            for (size_t i = 0; i < data->buffer_size; i++) {
+                times[i] = data->request_times[(data->buffer_pos + i) % data->buffer_size];
+            }
+            free(data->request_times);
+            data->request_times = times;
+            data->buffer_pos = data->buffer_size;
+            data->buffer_size = rule->max_requests_per_window;
+            break;
+        }
+
+        case MCP_RATE_LIMIT_TOKEN_BUCKET:
+            entry->data.token_bucket.tokens_per_second = rule->tokens_per_second;
+            entry->data.token_bucket.max_tokens = rule->max_tokens;
+            if (entry->data.token_bucket.tokens > (double)rule->max_tokens) {
+                entry->data.token_bucket.tokens = (double)rule->max_tokens;
+            }
+            break;
+
+        case MCP_RATE_LIMIT_LEAKY_BUCKET:
+            entry->data.leaky_bucket.leak_rate_per_second = rule->leak_rate_per_second;
+            entry->data.leaky_bucket.burst_capacity = rule->burst_capacity;
+            break;
+    }
+
+    return true;
+}
+
 /**
  * @internal
  * @brief Checks if a key matches a pattern.
@@ -418,7 +472,11 @@ static client_entry_t* find_or_create_client_entry(mcp_advanced_rate_limiter_t*
     client_entry_t* entry = limiter->client_buckets[index];
     while (entry) {
         if (entry->key_type == key_type && strcmp(entry->key, key) == 0) {
-            // Found existing entry
+            // Found existing entry, the rules may have changed since its last use
+            const mcp_rate_limit_rule_t* current_rule = find_matching_rule(limiter, key_type, key);
+            if (current_rule && !update_algorithm_data(entry, current_rule)) {
+                return NULL;
+            }
             return entry;
         }
         entry = entry->next;
-- 
2.43.0


From 2d9b7a2df6c74127fdcf152b2ef03643e7974e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:56 +0000
Subject: [PATCH 051/167] fix: treat {name:type?} template parameters as
 optional

---
 src/common/mcp_template.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 8cf91ba..3b3a721 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -191,6 +191,12 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
         }
 
         name_end = type_end;
+
+        // Check for an optional typed parameter
+        if (*name_end == '?') {
+            validation->required = false;
+            name_end++;
+        }
     }
 
     // Check for default value
-- 
2.43.0


From 961d492c85760b6f5d95ae2d23586d46f4a4d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:56 +0000
Subject: [PATCH 052/167] fix: do not cut off long template parameter patterns

---
 src/common/mcp_template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 3b3a721..47a0952 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -158,7 +158,7 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
         }
 
         // Extract the type
-        char type_str[32] = {0};
+        char type_str[256] = {0}; // Parameter specs are limited to 256 characters
         size_t type_len = type_end - name_end;
         if (type_len >= sizeof(type_str)) {
             type_len = sizeof(type_str) - 1;
-- 
2.43.0


From c725d4de6c1b58b6982e0441dd4a4201e5b4f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:56 +0000
Subject: [PATCH 053/167] fix: support wildcards anywhere in template parameter
 patterns

---
 src/common/mcp_template.c | 77 +++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 43 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 47a0952..f8d77f0 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -211,6 +211,39 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
     return 0;
 }
 
+/**
+ * @brief Matches a value against a pattern in which each * stands for any text.
+ *
+ * @param value The value to match
+ * @param pattern The pattern to match against
+ * @return 1 if the value matches the pattern, 0 otherwise
+ */
+static int match_wildcards(const char* value, const char* pattern)
+{
+    const char* star = NULL;   // The last * seen in the pattern
+    const char* resume = NULL; // Where the text after that * was last tried
+
+    while (*value) {
+        if (*pattern == '*') {
+            star = pattern++;
+            resume = value;
+        } else if (*pattern == *value) {
+            pattern++;
+            value++;
+        } else if (star != NULL) {
+            // Let the last * stand for one more character
+            pattern = star + 1;
+            value = ++resume;
+        } else {
+            return 0;
+        }
+    }
+    while (*pattern == '*') {
+        pattern++;
+    }
+    return *pattern == '\0';
+}
+
 /**
  * @brief Validates a parameter value against its validation rules.
  *
@@ -322,49 +355,7 @@ int mcp_template_validate_param(const char* value, const mcp_template_param_vali
 
             mcp_log_debug("Validating '%s' against pattern '%s'", value, pattern);
 
-            // If the pattern ends with *, match anything that starts with the pattern prefix
-            size_t pattern_len = strlen(pattern);
-            if (pattern_len > 0 && pattern[pattern_len - 1] == '*') {
-                // Match prefix
-                size_t prefix_len = pattern_len - 1;
-                mcp_log_debug("Pattern ends with *, match anything that starts with prefix");
-                return strncmp(value, pattern, prefix_len) == 0;
-            }
-
-            // If the pattern starts with *, match anything that ends with the pattern suffix
-            if (pattern_len > 0 && pattern[0] == '*') {
-                // Match suffix
-                size_t value_len = strlen(value);
-                size_t suffix_len = pattern_len - 1;
-                if (value_len < suffix_len) {
-                    return 0;
-                }
-                return strcmp(value + (value_len - suffix_len), pattern + 1) == 0;
-            }
-
-            // If the pattern contains * in the middle, split and match both sides
-            const char* star = strchr(pattern, '*');
-            if (star != NULL) {
-                // Split the pattern at the *
-                size_t prefix_len = star - pattern;
-                const char* suffix = star + 1;
-                size_t suffix_len = strlen(suffix);
-                size_t value_len = strlen(value);
-
-                // Match prefix
-                if (strncmp(value, pattern, prefix_len) != 0) {
-                    return 0;
-                }
-
-                // Match suffix
-                if (value_len < prefix_len + suffix_len) {
-                    return 0;
-                }
-                return strcmp(value + (value_len - suffix_len), suffix) == 0;
-            }
-
-            // No wildcards, exact match
-            return strcmp(value, pattern) == 0;
+            return match_wildcards(value, pattern);
         }
 
         default:
-- 
2.43.0


From bff33c719afd055ab37a84acd4fd31ac2f086c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:56 +0000
Subject: [PATCH 054/167] fix: do not accept an empty template parameter as a
 float

---
 src/common/mcp_template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index f8d77f0..4806325 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -304,7 +304,7 @@ int mcp_template_validate_param(const char* value, const mcp_template_param_vali
             // Check if the value is a valid float
             char* endptr;
             float float_val = strtof(value, &endptr);
-            if (*endptr != '\0') {
+            if (endptr == value || *endptr != '\0') {
                 // Not a valid float
                 mcp_log_debug("Float validation failed: '%s' is not a valid float", value);
                 return 0;
-- 
2.43.0


From ed86ee107b34d29def48070b37012011ef9aa6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:56 +0000
Subject: [PATCH 055/167] fix: expand numeric template parameters exactly and
 in any thread

Numbers were cut to six digits, large ones were converted to int, and
the text was kept in a buffer shared by all threads.
---
 src/common/mcp_template.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 4806325..f96cff7 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -389,6 +389,8 @@ int mcp_template_validate_param(const char* value, const mcp_template_param_vali
  * @param param_name Buffer to store the parameter name
  * @param param_name_size Size of the param_name buffer
  * @param params JSON object containing parameter values
+ * @param number_str Buffer for the text of a numeric value
+ * @param number_str_size Size of the number_str buffer
  * @param param_value_out Pointer to store the parameter value
  * @param validation Validation structure to fill
  * @return 0 on success, -1 on error
@@ -398,6 +400,8 @@ static int process_template_param(
     char* param_name,
     size_t param_name_size,
     const mcp_json_t* params,
+    char* number_str,
+    size_t number_str_size,
     const char** param_value_out,
     mcp_template_param_validation_t* validation
 ) {
@@ -419,15 +423,13 @@ static int process_template_param(
     }
     // Handle number values by converting to string
     else if (value_node != NULL && mcp_json_get_type(value_node) == MCP_JSON_NUMBER) {
-        // Convert number to string using a static buffer
-        static char number_str[64]; // Should be enough for any reasonable number
+        // Convert number to string
         double number_value;
         if (mcp_json_get_number(value_node, &number_value) == 0) {
-            // Format as integer if it's a whole number
-            if (number_value == (int)number_value) {
-                snprintf(number_str, sizeof(number_str), "%d", (int)number_value);
-            } else {
-                snprintf(number_str, sizeof(number_str), "%g", number_value);
+            // Use the shortest form that keeps the value
+            snprintf(number_str, number_str_size, "%.15g", number_value);
+            if (strtod(number_str, NULL) != number_value) {
+                snprintf(number_str, number_str_size, "%.17g", number_value);
             }
             param_value = number_str;
             param_found = true;
@@ -505,10 +507,11 @@ char* mcp_template_expand(const char* template, const mcp_json_t* params) {
             char param_name[128];
             mcp_template_param_validation_t validation;
             const char* param_value = NULL;
+            char number_str[64]; // Enough for any number
 
             int result = process_template_param(
                 param_spec, param_name, sizeof(param_name),
-                params, &param_value, &validation
+                params, number_str, sizeof(number_str), &param_value, &validation
             );
 
             if (result != 0) {
@@ -555,10 +558,11 @@ char* mcp_template_expand(const char* template, const mcp_json_t* params) {
             char param_name[128];
             mcp_template_param_validation_t validation;
             const char* param_value = NULL;
+            char number_str[64]; // Enough for any number
 
             int result = process_template_param(
                 param_spec, param_name, sizeof(param_name),
-                params, &param_value, &validation
+                params, number_str, sizeof(number_str), &param_value, &validation
             );
 
             if (result != 0) {
-- 
2.43.0


From 1676fccb21e9b978beb4b20a7b7910562f0f38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:56 +0000
Subject: [PATCH 056/167] fix: expand boolean template parameters

---
 src/common/mcp_template.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index f96cff7..224a9e3 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -436,6 +436,15 @@ static int process_template_param(
         }
     }
 
+    // Handle boolean values, as produced by parameter extraction
+    else if (value_node != NULL && mcp_json_get_type(value_node) == MCP_JSON_BOOLEAN) {
+        bool bool_value;
+        if (mcp_json_get_boolean(value_node, &bool_value) == 0) {
+            param_value = bool_value ? "true" : "false";
+            param_found = true;
+        }
+    }
+
     // Handle missing parameters
     if (!param_found) {
         if (validation->required) {
-- 
2.43.0


From d96c750918cbb845759eac74d99d027f0774d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:57 +0000
Subject: [PATCH 057/167] fix: expand templates whose optional typed parameters
 are missing

---
 src/common/mcp_template.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 224a9e3..624ec10 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -456,7 +456,8 @@ static int process_template_param(
             param_value = validation->default_value;
         } else {
             // Optional parameter with no default, use empty string
-            param_value = "";
+            *param_value_out = "";
+            return 0;
         }
     }
 
-- 
2.43.0


From 44be14dded47c381a4d1799d67edb1ee71090225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:44 +0000
Subject: [PATCH 058/167] fix: expand whole numbers in templates without an
 exponent

---
 src/common/mcp_template.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 624ec10..aa42a23 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -426,10 +426,15 @@ static int process_template_param(
         // Convert number to string
         double number_value;
         if (mcp_json_get_number(value_node, &number_value) == 0) {
-            // Use the shortest form that keeps the value
-            snprintf(number_str, number_str_size, "%.15g", number_value);
-            if (strtod(number_str, NULL) != number_value) {
-                snprintf(number_str, number_str_size, "%.17g", number_value);
+            if (number_value > -1e15 && number_value < 1e15 && number_value == (double)(long long)number_value) {
+                // Format as integer if it's a whole number
+                snprintf(number_str, number_str_size, "%lld", (long long)number_value);
+            } else {
+                // Use the shortest form that keeps the value
+                snprintf(number_str, number_str_size, "%.15g", number_value);
+                if (strtod(number_str, NULL) != number_value) {
+                    snprintf(number_str, number_str_size, "%.17g", number_value);
+                }
             }
             param_value = number_str;
             param_found = true;
-- 
2.43.0


From 3930ee5ff31c137a5ad4c4f3b07704c469542253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:10 +0000
Subject: [PATCH 059/167] fix: match URIs against the whole of a template

The plain matcher looked for the first character of the text after a
placeholder, accepted anything for a placeholder at the end, and
extraction ignored text left over.  The cached matcher let the text after
an optional parameter be missing.  The two also disagreed on empty values:
these now mean that the parameter is missing, for both.
---
 src/common/mcp_template.c           | 180 ++++++++++++++--------------
 src/common/mcp_template_optimized.c | 157 +++---------------------
 2 files changed, 108 insertions(+), 229 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index aa42a23..3b9ddae 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -606,6 +606,75 @@ char* mcp_template_expand(const char* template, const mcp_json_t* params) {
     return expanded;
 }
 
+/**
+ * @brief Finds the static text that follows a placeholder.
+ *
+ * @param uri The rest of the URI
+ * @param static_part The rest of the template after the placeholder
+ * @return Pointer to the first occurrence of the static text (up to the next placeholder)
+ *         in the URI, the end of the URI if there is no static text, or NULL if not found
+ */
+static const char* find_static_part(const char* uri, const char* static_part) {
+    size_t len = strcspn(static_part, "{");
+    if (len == 0) {
+        return uri + strlen(uri);
+    }
+
+    for (; *uri; uri++) {
+        if (strncmp(uri, static_part, len) == 0) {
+            return uri;
+        }
+    }
+    return NULL;
+}
+
+/**
+ * @brief Validates a parameter value found in a URI.
+ *
+ * An empty value means that the parameter is missing, which only optional parameters may be.
+ *
+ * @param value The parameter value to validate
+ * @param validation The validation rules to check against
+ * @return 1 if the value is valid, 0 otherwise
+ */
+static int validate_uri_value(const char* value, const mcp_template_param_validation_t* validation) {
+    if (value[0] == '\0') {
+        return !validation->required;
+    }
+    return mcp_template_validate_param(value, validation);
+}
+
+/**
+ * @brief Creates the JSON value for a parameter value found in a URI.
+ *
+ * @param value The parameter value, which is valid or empty
+ * @param validation The validation rules of the parameter
+ * @return A newly created JSON value, or NULL on error
+ */
+mcp_json_t* mcp_template_create_value(const char* value, const mcp_template_param_validation_t* validation) {
+    // The default stands in for a missing typed value
+    if (value[0] == '\0' && validation->default_value != NULL &&
+        validation->type != MCP_TEMPLATE_PARAM_TYPE_STRING && validation->type != MCP_TEMPLATE_PARAM_TYPE_CUSTOM) {
+        value = validation->default_value;
+    }
+    if (value[0] == '\0') {
+        return mcp_json_string_create(value);
+    }
+
+    switch (validation->type) {
+        case MCP_TEMPLATE_PARAM_TYPE_INT:
+            return mcp_json_number_create((double)strtol(value, NULL, 10));
+        case MCP_TEMPLATE_PARAM_TYPE_FLOAT:
+            return mcp_json_number_create((double)strtof(value, NULL));
+        case MCP_TEMPLATE_PARAM_TYPE_BOOL:
+            return mcp_json_boolean_create(strcmp(value, "true") == 0 || strcmp(value, "1") == 0);
+        case MCP_TEMPLATE_PARAM_TYPE_STRING:
+        case MCP_TEMPLATE_PARAM_TYPE_CUSTOM:
+        default:
+            return mcp_json_string_create(value);
+    }
+}
+
 /**
  * @brief Checks if a URI matches a template pattern.
  *
@@ -664,35 +733,16 @@ int mcp_template_matches(const char* uri, const char* template) {
             // Skip to the next static part of the template
             t = end + 1;
 
-            // Find the next static character in the template
-            char next_static = *t;
-            if (next_static == '\0') {
-                // This placeholder is at the end of the template
-                // The rest of the URI can be anything
-                mcp_log_debug("Parameter '%s' is at the end of the template", param_name);
-                mcp_template_free_validation(&validation);
-                return 1;
-            }
-
-            // Find the next occurrence of the static character in the URI
-            const char* next_static_in_uri = strchr(u, next_static);
-            if (next_static_in_uri == NULL) {
-                // Static character not found in URI
-                if (!validation.required) {
-                    // If the parameter is optional, we can skip it
-                    // and continue matching from the next static character
-                    mcp_log_debug("Optional parameter '%s' not found in URI, skipping", param_name);
-                    mcp_template_free_validation(&validation);
-                    t = t - 1; // Back up to the static character
-                    continue;
-                }
-                mcp_log_debug("Required parameter '%s' not found in URI", param_name);
+            // The value ends where the static text that follows the placeholder begins
+            const char* value_end = find_static_part(u, t);
+            if (value_end == NULL) {
+                mcp_log_debug("Static text after parameter '%s' not found in URI", param_name);
                 mcp_template_free_validation(&validation);
                 return 0;
             }
 
             // Extract the parameter value from the URI
-            size_t value_len = next_static_in_uri - u;
+            size_t value_len = value_end - u;
             char value[256]; // Use stack buffer instead of malloc
             if (value_len >= sizeof(value)) {
                 // Value too long
@@ -706,7 +756,7 @@ int mcp_template_matches(const char* uri, const char* template) {
             mcp_log_debug("Extracted parameter '%s' value: '%s'", param_name, value);
 
             // Validate the parameter value
-            int valid = mcp_template_validate_param(value, &validation);
+            int valid = validate_uri_value(value, &validation);
             mcp_template_free_validation(&validation);
 
             if (!valid) {
@@ -715,8 +765,8 @@ int mcp_template_matches(const char* uri, const char* template) {
                 return 0;
             }
 
-            // Skip to the static character in the URI
-            u = next_static_in_uri;
+            // Skip to the static text in the URI
+            u = value_end;
         } else if (*u == *t) {
             // Characters match
             u++;
@@ -788,44 +838,16 @@ mcp_json_t* mcp_template_extract_params(const char* uri, const char* template) {
                 return NULL;
             }
 
-            // Find the end of the parameter value in the URI
-            const char* value_start = u;
-            const char* value_end = NULL;
-
-            // The value ends at the next static part of the template
+            // The value ends where the static text that follows the placeholder begins
             t = end + 1;
-            if (*t == '\0') {
-                // This placeholder is at the end of the template
-                // The value is the rest of the URI
-                value_end = value_start + strlen(value_start);
-            } else {
-                // Find the next static character in the URI
-                char next_static = *t;
-                const char* next_static_in_uri = strchr(u, next_static);
-                if (next_static_in_uri == NULL) {
-                    // Static character not found in URI
-                    if (!validation.required) {
-                        // If the parameter is optional, we can skip it
-                        // and continue matching from the next static character
-                        if (validation.default_value != NULL) {
-                            // Add default value to JSON object
-                            mcp_json_t* value_node = mcp_json_string_create(validation.default_value);
-                            if (value_node == NULL || mcp_json_object_set_property(params, param_name, value_node) != 0) {
-                                mcp_template_free_validation(&validation);
-                                mcp_json_destroy(params);
-                                return NULL;
-                            }
-                        }
-                        mcp_template_free_validation(&validation);
-                        continue;
-                    }
-                    mcp_template_free_validation(&validation);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-                value_end = next_static_in_uri;
-                u = next_static_in_uri;
+            const char* value_start = u;
+            const char* value_end = find_static_part(u, t);
+            if (value_end == NULL) {
+                mcp_template_free_validation(&validation);
+                mcp_json_destroy(params);
+                return NULL;
             }
+            u = value_end;
 
             // Extract parameter value
             size_t value_len = value_end - value_start;
@@ -840,7 +862,7 @@ mcp_json_t* mcp_template_extract_params(const char* uri, const char* template) {
             value[value_len] = '\0';
 
             // Validate parameter value
-            if (!mcp_template_validate_param(value, &validation)) {
+            if (!validate_uri_value(value, &validation)) {
                 // Parameter value is invalid
                 mcp_template_free_validation(&validation);
                 mcp_json_destroy(params);
@@ -848,29 +870,7 @@ mcp_json_t* mcp_template_extract_params(const char* uri, const char* template) {
             }
 
             // Convert value to appropriate type based on validation
-            mcp_json_t* value_node = NULL;
-            switch (validation.type) {
-                case MCP_TEMPLATE_PARAM_TYPE_INT: {
-                    long int_val = strtol(value, NULL, 10);
-                    value_node = mcp_json_number_create((double)int_val);
-                    break;
-                }
-                case MCP_TEMPLATE_PARAM_TYPE_FLOAT: {
-                    float float_val = strtof(value, NULL);
-                    value_node = mcp_json_number_create((double)float_val);
-                    break;
-                }
-                case MCP_TEMPLATE_PARAM_TYPE_BOOL: {
-                    bool bool_val = (strcmp(value, "true") == 0 || strcmp(value, "1") == 0);
-                    value_node = mcp_json_boolean_create(bool_val);
-                    break;
-                }
-                case MCP_TEMPLATE_PARAM_TYPE_STRING:
-                case MCP_TEMPLATE_PARAM_TYPE_CUSTOM:
-                default:
-                    value_node = mcp_json_string_create(value);
-                    break;
-            }
+            mcp_json_t* value_node = mcp_template_create_value(value, &validation);
 
             // Add parameter to JSON object
             if (value_node == NULL || mcp_json_object_set_property(params, param_name, value_node) != 0) {
@@ -891,5 +891,11 @@ mcp_json_t* mcp_template_extract_params(const char* uri, const char* template) {
         }
     }
 
+    // Text left over in the URI is not part of the template
+    if (*u != '\0') {
+        mcp_json_destroy(params);
+        return NULL;
+    }
+
     return params;
 }
diff --git a/src/common/mcp_template_optimized.c b/src/common/mcp_template_optimized.c
index 6b99d1d..69e0367 100644
--- a/src/common/mcp_template_optimized.c
+++ b/src/common/mcp_template_optimized.c
@@ -8,6 +8,7 @@
 // Forward declaration of internal functions from mcp_template.c
 extern void mcp_template_free_validation(mcp_template_param_validation_t* validation);
 extern int mcp_template_parse_param_spec(const char* param_spec, char* param_name, size_t param_name_size, mcp_template_param_validation_t* validation);
+extern mcp_json_t* mcp_template_create_value(const char* value, const mcp_template_param_validation_t* validation);
 
 /**
  * @brief Structure to hold a cached template
@@ -434,17 +435,10 @@ int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
         mcp_log_debug("Parameter %zu: name='%s', type=%d, next_static='%s'",
                      i, cached->param_names[i], cached->validations[i].type, next_static);
 
-        // If the next static part is not found, check if the parameter is optional
+        // The static part must be there, also after an optional parameter
         if (next_static_in_uri == NULL) {
-            if (!cached->validations[i].required) {
-                // Optional parameter, skip it
-                mcp_log_debug("Optional parameter '%s' not found in URI, skipping", cached->param_names[i]);
-                continue;
-            } else {
-                // Required parameter not found
-                mcp_log_debug("Required parameter '%s' not found in URI", cached->param_names[i]);
-                return 0;
-            }
+            mcp_log_debug("Static part '%s' not found in URI", next_static);
+            return 0;
         }
 
         // Extract the parameter value
@@ -534,51 +528,10 @@ mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* t
         const size_t next_static_len = cached->static_part_lengths[i + 1];
         const char* next_static_in_uri = find_next_static_part(u, next_static, next_static_len);
 
-        // If the next static part is not found, check if the parameter is optional
+        // The static part must be there, also after an optional parameter
         if (next_static_in_uri == NULL) {
-            if (!cached->validations[i].required) {
-                // Optional parameter, use default value if available
-                if (cached->validations[i].default_value != NULL) {
-                    // Add the default value to the params
-                    mcp_json_t* value = NULL;
-
-                    // Create the appropriate JSON value based on the parameter type
-                    switch (cached->validations[i].type) {
-                        case MCP_TEMPLATE_PARAM_TYPE_INT:
-                            value = mcp_json_number_create(atoi(cached->validations[i].default_value));
-                            break;
-                        case MCP_TEMPLATE_PARAM_TYPE_FLOAT:
-                            value = mcp_json_number_create(atof(cached->validations[i].default_value));
-                            break;
-                        case MCP_TEMPLATE_PARAM_TYPE_BOOL:
-                            value = mcp_json_boolean_create(
-                                strcmp(cached->validations[i].default_value, "true") == 0 ||
-                                strcmp(cached->validations[i].default_value, "1") == 0
-                            );
-                            break;
-                        default:
-                            value = mcp_json_string_create(cached->validations[i].default_value);
-                            break;
-                    }
-
-                    if (value != NULL) {
-                        mcp_json_object_set_property(params, cached->param_names[i], value);
-                    }
-                } else {
-                    // No default value, add an empty string
-                    mcp_json_t* value = mcp_json_string_create("");
-                    if (value != NULL) {
-                        mcp_json_object_set_property(params, cached->param_names[i], value);
-                    }
-                }
-
-                // Skip this parameter
-                continue;
-            } else {
-                // Required parameter not found - this shouldn't happen if the URI matched the template
-                mcp_json_destroy(params);
-                return NULL;
-            }
+            mcp_json_destroy(params);
+            return NULL;
         }
 
         // Extract the parameter value
@@ -592,96 +545,16 @@ mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* t
         memcpy(param_value, u, param_len);
         param_value[param_len] = '\0';
 
-        // Create the appropriate JSON value based on the parameter type
-        mcp_json_t* value = NULL;
-
-        switch (cached->validations[i].type) {
-            case MCP_TEMPLATE_PARAM_TYPE_INT: {
-                // Validate that the string is a valid integer
-                char* endptr;
-                long int_val = strtol(param_value, &endptr, 10);
-
-                // If endptr points to the first character, no conversion was performed
-                if (endptr == param_value) {
-                    mcp_log_debug("Integer validation failed: '%s' is not a valid integer (no conversion)", param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // If endptr doesn't point to the null terminator, there are invalid characters
-                if (*endptr != '\0') {
-                    mcp_log_debug("Integer validation failed: '%s' is not a valid integer (invalid chars: '%s')", param_value, endptr);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // Check range
-                if (int_val < cached->validations[i].range.int_range.min || int_val > cached->validations[i].range.int_range.max) {
-                    mcp_log_debug("Integer range validation failed: %ld not in range [%d, %d]",
-                                 int_val, cached->validations[i].range.int_range.min, cached->validations[i].range.int_range.max);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_number_create((double)int_val);
-                break;
-            }
-            case MCP_TEMPLATE_PARAM_TYPE_FLOAT: {
-                // Validate that the string is a valid float
-                char* endptr;
-                float float_val = strtof(param_value, &endptr);
-
-                // If endptr points to the first character, no conversion was performed
-                if (endptr == param_value) {
-                    mcp_log_debug("Float validation failed: '%s' is not a valid float (no conversion)", param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // If endptr doesn't point to the null terminator, there are invalid characters
-                if (*endptr != '\0') {
-                    mcp_log_debug("Float validation failed: '%s' is not a valid float (invalid chars: '%s')", param_value, endptr);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // Check range
-                if (float_val < cached->validations[i].range.float_range.min || float_val > cached->validations[i].range.float_range.max) {
-                    mcp_log_debug("Float range validation failed: %f not in range [%f, %f]",
-                                 float_val, cached->validations[i].range.float_range.min, cached->validations[i].range.float_range.max);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_number_create((double)float_val);
-                break;
-            }
-            case MCP_TEMPLATE_PARAM_TYPE_BOOL:
-                // Validate that the string is a valid boolean
-                if (strcmp(param_value, "true") != 0 && strcmp(param_value, "false") != 0 &&
-                    strcmp(param_value, "1") != 0 && strcmp(param_value, "0") != 0) {
-                    mcp_log_debug("Boolean validation failed: '%s' is not a valid boolean", param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_boolean_create(
-                    strcmp(param_value, "true") == 0 ||
-                    strcmp(param_value, "1") == 0
-                );
-                break;
-            default:
-                // For string and custom types, just validate using the standard function
-                if (!validate_param_value(param_value, &cached->validations[i])) {
-                    mcp_log_debug("Parameter '%s' value '%s' is invalid", cached->param_names[i], param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_string_create(param_value);
-                break;
+        // Validate the parameter value
+        if (!validate_param_value(param_value, &cached->validations[i])) {
+            mcp_log_debug("Parameter %s value '%s' failed validation", cached->param_names[i], param_value);
+            mcp_json_destroy(params);
+            return NULL;
         }
 
+        // Create the appropriate JSON value based on the parameter type
+        mcp_json_t* value = mcp_template_create_value(param_value, &cached->validations[i]);
+
         if (value == NULL) {
             mcp_json_destroy(params);
             return NULL;
-- 
2.43.0


From 29a01fbcbb40c0831437db90054211b3fa7920b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:10 +0000
Subject: [PATCH 060/167] fix: lock the template cache, the server's threads
 share it

---
 src/common/mcp_template_optimized.c | 36 +++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/common/mcp_template_optimized.c b/src/common/mcp_template_optimized.c
index 69e0367..20c6bd4 100644
--- a/src/common/mcp_template_optimized.c
+++ b/src/common/mcp_template_optimized.c
@@ -5,6 +5,18 @@
 #include <stdlib.h>
 #include <stdio.h>
 
+#ifdef _WIN32
+#include <windows.h>
+static SRWLOCK g_template_cache_lock = SRWLOCK_INIT;
+#define TEMPLATE_CACHE_LOCK() AcquireSRWLockExclusive(&g_template_cache_lock)
+#define TEMPLATE_CACHE_UNLOCK() ReleaseSRWLockExclusive(&g_template_cache_lock)
+#else
+#include <pthread.h>
+static pthread_mutex_t g_template_cache_lock = PTHREAD_MUTEX_INITIALIZER;
+#define TEMPLATE_CACHE_LOCK() pthread_mutex_lock(&g_template_cache_lock)
+#define TEMPLATE_CACHE_UNLOCK() pthread_mutex_unlock(&g_template_cache_lock)
+#endif
+
 // Forward declaration of internal functions from mcp_template.c
 extern void mcp_template_free_validation(mcp_template_param_validation_t* validation);
 extern int mcp_template_parse_param_spec(const char* param_spec, char* param_name, size_t param_name_size, mcp_template_param_validation_t* validation);
@@ -395,7 +407,7 @@ static int validate_param_value(const char* value, const mcp_template_param_vali
  * @param template The template pattern to match against
  * @return 1 if the URI matches the template pattern, 0 otherwise
  */
-int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
+static int matches_cached(const char* uri, const char* template_uri) {
     if (uri == NULL || template_uri == NULL) {
         return 0;
     }
@@ -482,7 +494,7 @@ int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
  * @param template The template pattern to match against
  * @return A newly created JSON object containing parameter values, or NULL on error
  */
-mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* template_uri) {
+static mcp_json_t* extract_params_cached(const char* uri, const char* template_uri) {
     if (uri == NULL || template_uri == NULL) {
         return NULL;
     }
@@ -576,6 +588,21 @@ mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* t
     return params;
 }
 
+int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
+    // The cache and its templates are shared by all threads
+    TEMPLATE_CACHE_LOCK();
+    int result = matches_cached(uri, template_uri);
+    TEMPLATE_CACHE_UNLOCK();
+    return result;
+}
+
+mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* template_uri) {
+    TEMPLATE_CACHE_LOCK();
+    mcp_json_t* params = extract_params_cached(uri, template_uri);
+    TEMPLATE_CACHE_UNLOCK();
+    return params;
+}
+
 /**
  * @brief Get statistics about the template cache
  *
@@ -594,12 +621,14 @@ void mcp_template_cache_get_stats(
     size_t* cache_size,
     size_t* max_cache_size
 ) {
+    TEMPLATE_CACHE_LOCK();
     if (hits) *hits = g_cache_stats.hits;
     if (misses) *misses = g_cache_stats.misses;
     if (evictions) *evictions = g_cache_stats.evictions;
     if (total_lookups) *total_lookups = g_cache_stats.total_lookups;
     if (cache_size) *cache_size = g_template_cache_count;
     if (max_cache_size) *max_cache_size = MAX_CACHED_TEMPLATES;
+    TEMPLATE_CACHE_UNLOCK();
 }
 
 /**
@@ -609,7 +638,9 @@ void mcp_template_cache_get_stats(
  * to free all cached templates.
  */
 void mcp_template_cache_cleanup(void) {
+    TEMPLATE_CACHE_LOCK();
     if (!g_template_cache_initialized) {
+        TEMPLATE_CACHE_UNLOCK();
         return;
     }
 
@@ -626,4 +657,5 @@ void mcp_template_cache_cleanup(void) {
     g_cache_stats.misses = 0;
     g_cache_stats.evictions = 0;
     g_cache_stats.total_lookups = 0;
+    TEMPLATE_CACHE_UNLOCK();
 }
-- 
2.43.0


From 718732ed53d442f653c5fe79a73bf8beb51e2022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:59 +0000
Subject: [PATCH 061/167] fix: add roles to the template's existing security
 entry

A template whose validator was set before its access list got a second
entry that was never consulted, so the list had no effect.
---
 src/server/mcp_template_security.c | 57 ++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/server/mcp_template_security.c b/src/server/mcp_template_security.c
index 152232a..6fea8fe 100644
--- a/src/server/mcp_template_security.c
+++ b/src/server/mcp_template_security.c
@@ -60,6 +60,37 @@ static void template_acl_entry_free(template_acl_entry_t* entry) {
     free(entry);
 }
 
+/**
+ * @brief Adds roles to the roles allowed by an ACL entry
+ *
+ * @param entry The ACL entry
+ * @param allowed_roles Array of roles to add
+ * @param allowed_roles_count Number of roles to add
+ * @return 0 on success, non-zero on error
+ */
+static int template_acl_entry_add_roles(template_acl_entry_t* entry, const char** allowed_roles, size_t allowed_roles_count) {
+    if (allowed_roles_count == 0) {
+        return 0;
+    }
+
+    char** roles = (char**)realloc(entry->allowed_roles,
+        (entry->allowed_roles_count + allowed_roles_count) * sizeof(char*));
+    if (roles == NULL) {
+        return -1;
+    }
+    entry->allowed_roles = roles;
+
+    for (size_t i = 0; i < allowed_roles_count; i++) {
+        char* role = mcp_strdup(allowed_roles[i]);
+        if (role == NULL) {
+            return -1;
+        }
+        entry->allowed_roles[entry->allowed_roles_count++] = role;
+    }
+
+    return 0;
+}
+
 /**
  * @brief Structure to hold the template security context
  */
@@ -108,6 +139,14 @@ int mcp_template_security_add_acl(
         return -1;
     }
 
+    // A template has a single entry: later roles are added to the existing one
+    for (size_t i = 0; i < security->entries_count; i++) {
+        template_acl_entry_t* existing = security->entries[i];
+        if (strcmp(existing->template_uri, template_uri) == 0) {
+            return template_acl_entry_add_roles(existing, allowed_roles, allowed_roles_count);
+        }
+    }
+
     // Check if we need to resize the entries array
     if (security->entries_count >= security->entries_capacity) {
         size_t new_capacity = security->entries_capacity == 0 ? 8 : security->entries_capacity * 2;
@@ -129,21 +168,9 @@ int mcp_template_security_add_acl(
     }
 
     // Add allowed roles
-    if (allowed_roles_count > 0) {
-        entry->allowed_roles = (char**)malloc(allowed_roles_count * sizeof(char*));
-        if (entry->allowed_roles == NULL) {
-            template_acl_entry_free(entry);
-            return -1;
-        }
-
-        for (size_t i = 0; i < allowed_roles_count; i++) {
-            entry->allowed_roles[i] = mcp_strdup(allowed_roles[i]);
-            if (entry->allowed_roles[i] == NULL) {
-                template_acl_entry_free(entry);
-                return -1;
-            }
-            entry->allowed_roles_count++;
-        }
+    if (template_acl_entry_add_roles(entry, allowed_roles, allowed_roles_count) != 0) {
+        template_acl_entry_free(entry);
+        return -1;
     }
 
     // Add the entry to the security context
-- 
2.43.0


From c4622e01faa73f0c93f2f3aa2348fd2eb9cf8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:53 +0000
Subject: [PATCH 062/167] fix: do not send uninitialised vectors for skipped
 empty buffers

---
 src/common/mcp_socket_utils.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index a47e1db..b080104 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -1576,6 +1576,7 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
     size_t total_bytes = 0;
 
     // Fill IOV array from cache-aligned buffer structures
+    int iov_count = 0;
     for (int i = 0; i < buffer_count; i++) {
         if (!buffers[i] || !buffers[i]->buffer || buffers[i]->used == 0) {
             // Skip empty buffers
@@ -1583,12 +1584,13 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
         }
 
 #ifdef _WIN32
-        iov[i].buf = buffers[i]->buffer;
-        iov[i].len = (ULONG)buffers[i]->used;
+        iov[iov_count].buf = buffers[i]->buffer;
+        iov[iov_count].len = (ULONG)buffers[i]->used;
 #else
-        iov[i].iov_base = buffers[i]->buffer;
-        iov[i].iov_len = buffers[i]->used;
+        iov[iov_count].iov_base = buffers[i]->buffer;
+        iov[iov_count].iov_len = buffers[i]->used;
 #endif
+        iov_count++;
         total_bytes += buffers[i]->used;
     }
 
@@ -1596,7 +1598,7 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
                  buffer_count, total_bytes, (int)sock);
 
     // Use vectored send
-    int result = mcp_socket_send_vectors(sock, iov, buffer_count, stop_flag);
+    int result = mcp_socket_send_vectors(sock, iov, iov_count, stop_flag);
 
     // Free IOV array
     socket_utils_free(iov);
-- 
2.43.0


From 1d99db43812322b9bf860237f2c4d51eec9707a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:17 +0000
Subject: [PATCH 063/167] fix: free the start of the vector array after a
 partial vectored send

---
 src/common/mcp_socket_utils.c | 44 +++++++++++------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index b080104..4f7f3f8 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -783,6 +783,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
     DWORD flags = 0;
 
     // Create temporary IOV array to avoid modifying the original array
+    WSABUF* temp_iov_base = NULL; // Start of the allocation, temp_iov moves on as vectors are sent
     WSABUF* temp_iov = NULL;
     if (iovcnt > 1) {
         temp_iov = (WSABUF*)socket_utils_alloc(iovcnt * sizeof(WSABUF));
@@ -790,6 +791,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             mcp_log_error("Failed to allocate memory for temporary IOV array");
             return -1;
         }
+        temp_iov_base = temp_iov;
         memcpy(temp_iov, iov, iovcnt * sizeof(WSABUF));
     }
     else {
@@ -803,9 +805,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         // Check stop flag
         if (stop_flag && *stop_flag) {
             mcp_log_debug("send_vectors (Win) aborted by stop flag");
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(temp_iov_base);
             return -1;
         }
 
@@ -821,9 +821,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
                 error_code == WSAENOTCONN ||
                 error_code == WSAECONNABORTED) {
                 mcp_log_debug("send_vectors (Win): Connection closed/reset (socket %d, error %d)", (int)sock, error_code);
-                if (temp_iov != iov) {
-                    socket_utils_free(temp_iov);
-                }
+                socket_utils_free(temp_iov_base);
                 return -1;
             }
 
@@ -835,17 +833,13 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
 
             // Other errors
             mcp_log_error("send_vectors (Win) WSASend failed (socket %d): Error %d", (int)sock, error_code);
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(temp_iov_base);
             return -1;
         }
 
         if (bytes_sent_this_call == 0) {
             mcp_log_error("send_vectors (Win) sent 0 bytes unexpectedly (socket %d)", (int)sock);
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(temp_iov_base);
             return -1;
         }
 
@@ -876,11 +870,10 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         }
     }
 
-    if (temp_iov != iov) {
-        socket_utils_free(temp_iov);
-    }
+    socket_utils_free(temp_iov_base);
 #else
     // POSIX optimized implementation
+    struct iovec* temp_iov_base = NULL; // Start of the allocation, temp_iov moves on as vectors are sent
     struct iovec* temp_iov = NULL;
     if (iovcnt > 1) {
         temp_iov = (struct iovec*)socket_utils_alloc(iovcnt * sizeof(struct iovec));
@@ -888,6 +881,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             mcp_log_error("Failed to allocate memory for temporary IOV array");
             return -1;
         }
+        temp_iov_base = temp_iov;
         memcpy(temp_iov, iov, iovcnt * sizeof(struct iovec));
     } else {
         temp_iov = iov;
@@ -899,9 +893,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         // Check stop flag
         if (stop_flag && *stop_flag) {
             mcp_log_debug("send_vectors (POSIX) aborted by stop flag");
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(temp_iov_base);
             return -1;
         }
 
@@ -929,26 +921,20 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
                 // Connection closed
                 mcp_log_debug("send_vectors (POSIX): Connection closed/reset (socket %d, error %d - %s)",
                              (int)sock, error_code, strerror(error_code));
-                if (temp_iov != iov) {
-                    socket_utils_free(temp_iov);
-                }
+                socket_utils_free(temp_iov_base);
                 return -1;
             }
 
             // Other errors
             mcp_log_error("send_vectors (POSIX) writev failed (socket %d): Error %d (%s)",
                          (int)sock, error_code, strerror(error_code));
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(temp_iov_base);
             return -1;
         }
 
         if (bytes_sent == 0) {
             mcp_log_error("send_vectors (POSIX) sent 0 bytes unexpectedly (socket %d)", (int)sock);
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(temp_iov_base);
             return -1;
         }
 
@@ -979,9 +965,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         }
     }
 
-    if (temp_iov != iov) {
-        socket_utils_free(temp_iov);
-    }
+    socket_utils_free(temp_iov_base);
 #endif
 
     return (total_sent == total_to_send) ? 0 : -1; // Success only if all bytes sent
-- 
2.43.0


From 81fb675df25b835866c0615673a4f8596b384141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:17 +0000
Subject: [PATCH 064/167] fix: do not raise SIGPIPE when a vectored send meets
 a closed peer

---
 src/common/mcp_socket_utils.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index 4f7f3f8..dab28d3 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -897,7 +897,12 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             return -1;
         }
 
-        ssize_t bytes_sent = writev(sock, temp_iov, current_iovcnt);
+        // sendmsg instead of writev: a closed peer must not raise SIGPIPE
+        struct msghdr msg;
+        memset(&msg, 0, sizeof(msg));
+        msg.msg_iov = temp_iov;
+        msg.msg_iovlen = current_iovcnt;
+        ssize_t bytes_sent = sendmsg(sock, &msg, MCP_SEND_FLAGS);
 
         if (bytes_sent == MCP_SOCKET_ERROR) {
             int error_code = errno;
@@ -926,7 +931,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             }
 
             // Other errors
-            mcp_log_error("send_vectors (POSIX) writev failed (socket %d): Error %d (%s)",
+            mcp_log_error("send_vectors (POSIX) sendmsg failed (socket %d): Error %d (%s)",
                          (int)sock, error_code, strerror(error_code));
             socket_utils_free(temp_iov_base);
             return -1;
-- 
2.43.0


From ca881386d5d5047931b71618bdbaf59925b427e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:17 +0000
Subject: [PATCH 065/167] fix: send at most IOV_MAX vectors per call

---
 src/common/mcp_socket_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index dab28d3..643be99 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -10,6 +10,10 @@
 #include <time.h>
 #include <limits.h>
 
+#ifndef IOV_MAX
+#define IOV_MAX 1024
+#endif
+
 #ifdef _WIN32
     #include <windows.h>
     #include <mstcpip.h>
@@ -901,7 +905,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         struct msghdr msg;
         memset(&msg, 0, sizeof(msg));
         msg.msg_iov = temp_iov;
-        msg.msg_iovlen = current_iovcnt;
+        msg.msg_iovlen = (current_iovcnt > IOV_MAX) ? IOV_MAX : current_iovcnt;
         ssize_t bytes_sent = sendmsg(sock, &msg, MCP_SEND_FLAGS);
 
         if (bytes_sent == MCP_SOCKET_ERROR) {
-- 
2.43.0


From c67afe6bc06a7bb1331825f58ea4451e8dbb9b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:55 +0000
Subject: [PATCH 066/167] fix: mark a TCP client slot active before its handler
 can run

The accept thread queued the handler first and marked the slot active
afterwards. A handler that started in between saw the slot as not active
and closed the new connection at once.
---
 src/transport/mcp_tcp_acceptor.c | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/transport/mcp_tcp_acceptor.c b/src/transport/mcp_tcp_acceptor.c
index 4353f36..529bcc1 100644
--- a/src/transport/mcp_tcp_acceptor.c
+++ b/src/transport/mcp_tcp_acceptor.c
@@ -198,7 +198,7 @@ void* tcp_accept_thread_func(void* arg) {
             .address = client_addr,
             .transport = transport,
             .should_stop = false,
-            .state = CLIENT_STATE_INITIALIZING,
+            .state = CLIENT_STATE_ACTIVE,
             .last_activity_time = current_time,
             .connect_time = current_time,
             .messages_processed = 0,
@@ -215,8 +215,10 @@ void* tcp_accept_thread_func(void* arg) {
 #endif
         client_init.client_port = client_port;
 
-        // Update the client slot under lock
+        // Update the client slot under lock. The slot has to be ACTIVE before the
+        // handler can run: a handler that finds another state closes the connection.
         memcpy(&data->clients[client_index], &client_init, sizeof(tcp_client_connection_t));
+        tcp_stats_update_connection_accepted(&data->stats);
         mcp_mutex_unlock(data->client_mutex);
 
         // Add the client to the thread pool
@@ -231,30 +233,13 @@ void* tcp_accept_thread_func(void* arg) {
             mcp_mutex_lock(data->client_mutex);
             data->clients[client_index].state = CLIENT_STATE_INACTIVE;
             data->clients[client_index].socket = MCP_INVALID_SOCKET;
+            tcp_stats_update_connection_closed(&data->stats);
             mcp_mutex_unlock(data->client_mutex);
 
             tcp_stats_update_error(&data->stats);
         } else {
-            // Successfully added to thread pool, mark state as ACTIVE under lock
-            mcp_mutex_lock(data->client_mutex);
-
-            // Check if state is still INITIALIZING (could have been changed by stop signal)
-            if (data->clients[client_index].state == CLIENT_STATE_INITIALIZING) {
-                data->clients[client_index].state = CLIENT_STATE_ACTIVE;
-
-                // Update statistics
-                tcp_stats_update_connection_accepted(&data->stats);
-
-                mcp_log_info("Accepted connection from %s:%d on socket %d (slot %d)",
-                            client_ip, client_port, (int)client_socket, client_index);
-            } else {
-                // State changed before we could mark active (likely stopped)
-                mcp_log_warn("Client slot %d state changed before activation", client_index);
-                data->clients[client_index].state = CLIENT_STATE_INACTIVE;
-                data->clients[client_index].socket = MCP_INVALID_SOCKET;
-            }
-
-            mcp_mutex_unlock(data->client_mutex);
+            mcp_log_info("Accepted connection from %s:%d on socket %d (slot %d)",
+                        client_ip, client_port, (int)client_socket, client_index);
         }
     }
 
-- 
2.43.0


From 24b6a975625a3721cc3d3383abecaebe8837f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:37 +0000
Subject: [PATCH 067/167] fix: end the client handlers before destroying the
 TCP server's thread pool

Stopping the transport destroyed the thread pool first and told the
connected clients to stop afterwards. The pool waits for its tasks and a
handler runs as long as its client is connected, so stop never returned
while a client was connected. Ask the handlers to end first. They close
their sockets themselves, and a handler that is just starting must not
clear the request to stop.
---
 src/transport/mcp_tcp_client_handler.c |  1 -
 src/transport/mcp_tcp_transport.c      | 37 ++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/transport/mcp_tcp_client_handler.c b/src/transport/mcp_tcp_client_handler.c
index 7d4deff..55008ff 100644
--- a/src/transport/mcp_tcp_client_handler.c
+++ b/src/transport/mcp_tcp_client_handler.c
@@ -57,7 +57,6 @@ void* tcp_client_handler_thread_func(void* arg) {
     uint32_t message_length_host;
     char* message_buf = NULL;
     int frame_result;
-    client_conn->should_stop = false;
     client_conn->last_activity_time = time(NULL);
 
 #ifdef _WIN32
diff --git a/src/transport/mcp_tcp_transport.c b/src/transport/mcp_tcp_transport.c
index a56bc69..bcd39fa 100644
--- a/src/transport/mcp_tcp_transport.c
+++ b/src/transport/mcp_tcp_transport.c
@@ -240,6 +240,36 @@ static int tcp_transport_start(
     return 0;
 }
 
+/**
+ * @brief Asks the handlers of all client connections to end.
+ *
+ * The sockets are shut down, which ends any blocking operation on them, but not
+ * closed: that is up to the handlers, which are still using them.
+ *
+ * @param data The TCP transport data.
+ */
+static void tcp_transport_shutdown_clients(mcp_tcp_transport_data_t* data) {
+    if (!data || !data->client_mutex) return;
+
+    mcp_mutex_lock(data->client_mutex);
+
+    for (int i = 0; i < data->max_clients; ++i) {
+        if (data->clients[i].state != CLIENT_STATE_INACTIVE) {
+            data->clients[i].should_stop = true;
+
+            if (data->clients[i].socket != MCP_INVALID_SOCKET) {
+#ifdef _WIN32
+                shutdown(data->clients[i].socket, SD_BOTH);
+#else
+                shutdown(data->clients[i].socket, SHUT_RDWR);
+#endif
+            }
+        }
+    }
+
+    mcp_mutex_unlock(data->client_mutex);
+}
+
 /**
  * @brief Signals all client connections to stop.
  *
@@ -372,7 +402,10 @@ static int tcp_transport_stop(mcp_transport_t* transport) {
         mcp_log_debug("Monitor thread stopped");
     }
 
-    // Wait for thread pool tasks to complete BEFORE signaling clients to stop
+    // Ask the client handlers to end, as the thread pool cannot be destroyed before they have
+    tcp_transport_shutdown_clients(data);
+
+    // Wait for thread pool tasks to complete BEFORE closing the remaining client sockets
     // This prevents the race condition where tasks try to start handlers for invalid sockets
     if (data->thread_pool) {
         const int THREAD_POOL_WAIT_TIMEOUT_MS = 2000; // 2 seconds
@@ -388,7 +421,7 @@ static int tcp_transport_stop(mcp_transport_t* transport) {
         data->thread_pool = NULL;
     }
 
-    // Signal all client connections to stop AFTER thread pool is destroyed
+    // Close the connections no handler has taken care of AFTER thread pool is destroyed
     tcp_transport_signal_clients_to_stop(data);
 
     // Clean up resources
-- 
2.43.0


From 61c330cf3cfc1fe4167b077849f8d603046ae95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:43 +0000
Subject: [PATCH 068/167] fix: do not use the stdio transport's data after
 freeing it

destroy read the deallocation function from the transport data it had
just freed.
---
 src/transport/mcp_stdio_transport.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index 2b09b4a..4516c17 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -786,11 +786,12 @@ static void stdio_transport_destroy(mcp_transport_t* transport) {
     }
 
     // Free the specific stdio data using the stored deallocation function
-    data->free_func(transport->transport_data);
+    void (*free_func)(void*) = data->free_func;
+    free_func(transport->transport_data);
     transport->transport_data = NULL;
 
     // Free the main transport struct using the stored deallocation function
-    data->free_func(transport);
+    free_func(transport);
 
     mcp_log_debug("Transport destroyed.");
 }
-- 
2.43.0


From 7d165ef9818b546c30dfb23046d1fec9dad2d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:43 +0000
Subject: [PATCH 069/167] fix: do not time out on stdin while a message is
 already buffered

The stdio transport waits on the descriptor, but read through a buffer.
When two messages arrived together the second one stayed in the buffer
and receive reported a timeout.
---
 src/transport/mcp_stdio_transport.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index 4516c17..3db0e7e 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -27,7 +27,7 @@
 #endif
 
 #define MAX_MCP_MESSAGE_SIZE (1024 * 1024) // Maximum message size (1MB)
-#define STDIO_BUFFER_SIZE (64 * 1024)      // 64KB buffer for stdin/stdout
+#define STDIO_BUFFER_SIZE (64 * 1024)      // 64KB buffer for stdout
 
 /**
  * @internal
@@ -184,14 +184,13 @@ static int read_length_prefixed_message(char** data_out, size_t* size_out,
  *
  * This function:
  * 1. Sets stdin and stdout to binary mode to prevent newline translation
- * 2. Optimizes buffering for stdin and stdout using setvbuf with static buffers
+ * 2. Reads stdin unbuffered and optimizes buffering for stdout using setvbuf with a static buffer
  *
  * @return 0 on success, -1 on error.
  */
 static int stdio_init_streams(void) {
-    // Use static buffers to avoid memory leaks
-    // These buffers will exist for the lifetime of the program
-    static char stdin_buffer[STDIO_BUFFER_SIZE];
+    // Use a static buffer to avoid memory leaks
+    // This buffer will exist for the lifetime of the program
     static char stdout_buffer[STDIO_BUFFER_SIZE];
 
     // Set binary mode for stdin and stdout
@@ -258,18 +257,21 @@ static int stdio_init_streams(void) {
     mcp_log_debug("Non-Windows platform: assuming binary I/O mode");
 #endif
 
-    // Set optimal buffering for stdin and stdout
-    if (setvbuf(stdin, stdin_buffer, _IOFBF, STDIO_BUFFER_SIZE) != 0) {
-        mcp_log_error("Failed to set stdin buffer: %s", get_error_string(errno));
+    // Read stdin unbuffered: waiting for input with a timeout looks at the descriptor,
+    // which does not show the messages that have already been read into a buffer
+    if (setvbuf(stdin, NULL, _IONBF, 0) != 0) {
+        mcp_log_error("Failed to set stdin to unbuffered mode: %s", get_error_string(errno));
         return -1;
     }
 
+    // Set optimal buffering for stdout
+
     if (setvbuf(stdout, stdout_buffer, _IOFBF, STDIO_BUFFER_SIZE) != 0) {
         mcp_log_error("Failed to set stdout buffer: %s", get_error_string(errno));
         return -1;
     }
 
-    mcp_log_debug("Optimized stdin and stdout buffering (buffer size: %d KB)", STDIO_BUFFER_SIZE / 1024);
+    mcp_log_debug("Optimized stdout buffering (buffer size: %d KB)", STDIO_BUFFER_SIZE / 1024);
     return 0;
 }
 
-- 
2.43.0


From c90186d6113cea3d5c5630724f8e45e323a05299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:49 +0000
Subject: [PATCH 070/167] fix: keep frames of concurrent senders apart on
 stdout

A frame is written as a length and a payload in separate writes. Two
threads sending at the same time, for instance a reply and a
notification, mixed their frames.
---
 src/transport/mcp_stdio_transport.c | 65 ++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index 3db0e7e..c858bf9 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -43,6 +43,7 @@ typedef struct {
     void* (*alloc_func)(size_t);        /**< Function pointer for memory allocation. */
     void (*free_func)(void*);           /**< Function pointer for memory deallocation. */
     mcp_mutex_t* running_mutex;         /**< Mutex to protect access to the running flag. */
+    mcp_mutex_t* send_mutex;            /**< Mutex to keep the frames of concurrent senders apart. */
 
     // Padding to ensure the structure fills a complete cache line
     // This helps prevent false sharing in multi-threaded environments
@@ -265,7 +266,6 @@ static int stdio_init_streams(void) {
     }
 
     // Set optimal buffering for stdout
-
     if (setvbuf(stdout, stdout_buffer, _IOFBF, STDIO_BUFFER_SIZE) != 0) {
         mcp_log_error("Failed to set stdout buffer: %s", get_error_string(errno));
         return -1;
@@ -626,13 +626,16 @@ static int stdio_transport_stop(mcp_transport_t* transport) {
  * @brief Sends data via the stdio transport (writes to stdout).
  * Uses length-prefixed framing and flushes stdout after writing.
  *
- * @param transport The transport handle (unused).
+ * @param transport The transport handle.
  * @param payload_data Pointer to the data buffer to send.
  * @param payload_size Number of bytes in the payload to send.
  * @return 0 on success, -1 on error (e.g., write error, flush error).
  */
 static int stdio_transport_send(mcp_transport_t* transport, const void* payload_data, size_t payload_size) {
-    (void)transport;
+    if (transport == NULL || transport->transport_data == NULL) {
+        mcp_log_error("Invalid transport handle in send function.");
+        return -1;
+    }
 
     if (payload_data == NULL || payload_size == 0) {
         mcp_log_error("Invalid payload in send function.");
@@ -646,28 +649,38 @@ static int stdio_transport_send(mcp_transport_t* transport, const void* payload_
         return -1;
     }
 
+    mcp_stdio_transport_data_t* data = (mcp_stdio_transport_data_t*)transport->transport_data;
+    int result = -1;
+
+    // A frame is written in several pieces, do not let another sender in between
+    mcp_mutex_lock(data->send_mutex);
+
     // 1. Send 4-byte length prefix (network byte order)
     uint32_t net_len = htonl((uint32_t)payload_size);
     if (fwrite(&net_len, 1, sizeof(net_len), stdout) != sizeof(net_len)) {
         mcp_log_error("Failed to write length prefix to stdout: %s",
                      get_error_string(errno));
-        return -1;
+        goto done;
     }
 
     // 2. Send the actual payload data
     if (fwrite(payload_data, 1, payload_size, stdout) != payload_size) {
         mcp_log_error("Failed to write payload data to stdout: %s",
                      get_error_string(errno));
-        return -1;
+        goto done;
     }
 
     // 3. Ensure the output is flushed immediately
     if (fflush(stdout) != 0) {
         mcp_log_error("Failed to flush stdout: %s", get_error_string(errno));
-        return -1;
+        goto done;
     }
 
-    return 0;
+    result = 0;
+
+done:
+    mcp_mutex_unlock(data->send_mutex);
+    return result;
 }
 
 /**
@@ -678,13 +691,16 @@ static int stdio_transport_send(mcp_transport_t* transport, const void* payload_
  * This function implements vectored I/O for the stdio transport, allowing
  * more efficient sending of multiple data buffers without intermediate copying.
  *
- * @param transport The transport handle (unused).
+ * @param transport The transport handle.
  * @param buffers Array of mcp_buffer_t structures containing data to send.
  * @param buffer_count Number of buffers in the array.
  * @return 0 on success, -1 on error (e.g., write error, flush error).
  */
 static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t* buffers, size_t buffer_count) {
-    (void)transport;
+    if (transport == NULL || transport->transport_data == NULL) {
+        mcp_log_error("Invalid transport handle in sendv function.");
+        return -1;
+    }
 
     if (buffers == NULL || buffer_count == 0) {
         mcp_log_error("Invalid buffers in sendv function.");
@@ -715,12 +731,18 @@ static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t*
         return -1;
     }
 
+    mcp_stdio_transport_data_t* data = (mcp_stdio_transport_data_t*)transport->transport_data;
+    int result = -1;
+
+    // A frame is written in several pieces, do not let another sender in between
+    mcp_mutex_lock(data->send_mutex);
+
     // 1. Send 4-byte length prefix (network byte order)
     uint32_t net_len = htonl((uint32_t)total_size);
     if (fwrite(&net_len, 1, sizeof(net_len), stdout) != sizeof(net_len)) {
         mcp_log_error("Failed to write length prefix to stdout: %s",
                      get_error_string(errno));
-        return -1;
+        goto done;
     }
 
     // 2. Send each buffer's data
@@ -733,17 +755,21 @@ static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t*
         if (fwrite(buffers[i].data, 1, buffers[i].size, stdout) != buffers[i].size) {
             mcp_log_error("Failed to write buffer %zu to stdout: %s",
                          i, get_error_string(errno));
-            return -1;
+            goto done;
         }
     }
 
     // 3. Ensure the output is flushed immediately
     if (fflush(stdout) != 0) {
         mcp_log_error("Failed to flush stdout: %s", get_error_string(errno));
-        return -1;
+        goto done;
     }
 
-    return 0;
+    result = 0;
+
+done:
+    mcp_mutex_unlock(data->send_mutex);
+    return result;
 }
 
 /**
@@ -781,11 +807,15 @@ static void stdio_transport_destroy(mcp_transport_t* transport) {
         }
     }
 
-    // Destroy the mutex
+    // Destroy the mutexes
     if (data->running_mutex != NULL) {
         mcp_mutex_destroy(data->running_mutex);
         data->running_mutex = NULL;
     }
+    if (data->send_mutex != NULL) {
+        mcp_mutex_destroy(data->send_mutex);
+        data->send_mutex = NULL;
+    }
 
     // Free the specific stdio data using the stored deallocation function
     void (*free_func)(void*) = data->free_func;
@@ -846,10 +876,13 @@ mcp_transport_t* mcp_transport_stdio_create(void) {
     stdio_data->alloc_func = alloc_func;      // Store allocation function
     stdio_data->free_func = free_func;        // Store deallocation function
 
-    // Create mutex for thread safety
+    // Create mutexes for thread safety
     stdio_data->running_mutex = mcp_mutex_create();
-    if (stdio_data->running_mutex == NULL) {
+    stdio_data->send_mutex = mcp_mutex_create();
+    if (stdio_data->running_mutex == NULL || stdio_data->send_mutex == NULL) {
         mcp_log_error("Failed to create mutex for transport.");
+        mcp_mutex_destroy(stdio_data->running_mutex);
+        mcp_mutex_destroy(stdio_data->send_mutex);
         free_func(stdio_data);
         free_func(transport);
         return NULL;
-- 
2.43.0


From 6c05a498f191223e6433105a3387317c0754eba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:30 +0000
Subject: [PATCH 071/167] fix: do not realloc WebSocket receive buffers that
 came from the buffer pool

---
 .../internal/websocket_server_internal.h      |  1 +
 src/transport/mcp_websocket_server_client.c   | 27 +++++++++++--------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/transport/internal/websocket_server_internal.h b/src/transport/internal/websocket_server_internal.h
index eb4193d..dc921cb 100644
--- a/src/transport/internal/websocket_server_internal.h
+++ b/src/transport/internal/websocket_server_internal.h
@@ -38,6 +38,7 @@ typedef struct {
     char* receive_buffer;           // Receive buffer
     size_t receive_buffer_len;      // Receive buffer length
     size_t receive_buffer_used;     // Used receive buffer length
+    bool receive_buffer_pooled;     // Whether the receive buffer came from the buffer pool
     int client_id;                  // Client ID for tracking
     time_t last_activity;           // Time of last activity for timeout detection
     uint32_t ping_sent;             // Number of pings sent without response
diff --git a/src/transport/mcp_websocket_server_client.c b/src/transport/mcp_websocket_server_client.c
index 4dd2350..753c789 100644
--- a/src/transport/mcp_websocket_server_client.c
+++ b/src/transport/mcp_websocket_server_client.c
@@ -11,6 +11,7 @@ int ws_server_client_init(ws_client_t* client, int client_id, struct lws* wsi) {
     client->receive_buffer = NULL;
     client->receive_buffer_len = 0;
     client->receive_buffer_used = 0;
+    client->receive_buffer_pooled = false;
     client->client_id = client_id;
     client->last_activity = time(NULL);
     client->ping_sent = 0;
@@ -26,13 +27,8 @@ void ws_server_client_cleanup(ws_client_t* client, ws_server_data_t* server_data
 
     // Free receive buffer
     if (client->receive_buffer) {
-        // Get buffer size from config or default
-        uint32_t buffer_size = server_data && server_data->config.buffer_size > 0 ?
-                              server_data->config.buffer_size : DEFAULT_BUFFER_POOL_BUFFER_SIZE;
-
-        // If buffer pool exists and buffer size matches pool buffer size, return to pool
-        if (server_data && server_data->buffer_pool &&
-            client->receive_buffer_len == buffer_size) {
+        // If the buffer came from the pool, return it to the pool
+        if (server_data && server_data->buffer_pool && client->receive_buffer_pooled) {
             mcp_buffer_pool_release(server_data->buffer_pool, client->receive_buffer);
             mcp_log_debug("Returned buffer to pool for client %d", client->client_id);
         } else {
@@ -48,6 +44,7 @@ void ws_server_client_cleanup(ws_client_t* client, ws_server_data_t* server_data
         client->receive_buffer = NULL;
         client->receive_buffer_len = 0;
         client->receive_buffer_used = 0;
+        client->receive_buffer_pooled = false;
     }
 
     // Reset client state
@@ -121,7 +118,7 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
             // Free old buffer if it exists
             if (client->receive_buffer) {
                 // If old buffer was from pool, return it to pool
-                if (client->receive_buffer_len == buffer_size && server_data->buffer_pool) {
+                if (client->receive_buffer_pooled) {
                     mcp_buffer_pool_release(server_data->buffer_pool, client->receive_buffer);
                 } else {
                     free(client->receive_buffer);
@@ -134,6 +131,7 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
             // Update buffer information
             client->receive_buffer = new_buffer;
             client->receive_buffer_len = buffer_size;
+            client->receive_buffer_pooled = true;
             return 0;
         } else if (server_data) {
             // Failed to get buffer from pool
@@ -142,12 +140,12 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
     }
 
     // Fall back to regular allocation if pool is not available or buffer is too large
-    if (client->receive_buffer) {
+    if (client->receive_buffer && !client->receive_buffer_pooled) {
         // Try to reuse existing buffer with realloc for better performance
         new_buffer = (char*)realloc(client->receive_buffer, new_len);
 
         // Update memory statistics if server_data is provided
-        if (server_data) {
+        if (new_buffer && server_data) {
             server_data->total_buffer_memory -= client->receive_buffer_len;
             server_data->total_buffer_memory += new_len;
             server_data->buffer_allocs++;
@@ -156,8 +154,14 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
         // Allocate new buffer
         new_buffer = (char*)malloc(new_len);
 
+        if (new_buffer && client->receive_buffer) {
+            // Pool memory cannot be reallocated: copy it and give it back
+            memcpy(new_buffer, client->receive_buffer, client->receive_buffer_used);
+            mcp_buffer_pool_release(server_data->buffer_pool, client->receive_buffer);
+        }
+
         // Update memory statistics if server_data is provided
-        if (server_data) {
+        if (new_buffer && server_data) {
             server_data->total_buffer_memory += new_len;
             server_data->buffer_allocs++;
         }
@@ -171,6 +175,7 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
     // Update buffer information
     client->receive_buffer = new_buffer;
     client->receive_buffer_len = new_len;
+    client->receive_buffer_pooled = false;
     return 0;
 }
 
-- 
2.43.0


From 782dbddbd5717acf80190f746317349da2ad2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:30 +0000
Subject: [PATCH 072/167] fix: look for a WebSocket message's length prefix in
 the whole message, not in each part

---
 src/transport/mcp_websocket_server_client.c | 64 +++++++++------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/src/transport/mcp_websocket_server_client.c b/src/transport/mcp_websocket_server_client.c
index 753c789..82630af 100644
--- a/src/transport/mcp_websocket_server_client.c
+++ b/src/transport/mcp_websocket_server_client.c
@@ -325,6 +325,31 @@ int ws_server_client_process_message(ws_server_data_t* data, ws_client_t* client
         client->receive_buffer[client->receive_buffer_used] = '\0';
     }
 
+    char* message = client->receive_buffer;
+    size_t message_len = client->receive_buffer_used;
+
+    // Check if this might be a length-prefixed message
+    if (message_len >= 4) {
+        // Interpret first 4 bytes as a 32-bit length in network byte order (big endian)
+        uint32_t msg_len = ((uint32_t)(unsigned char)message[0] << 24) |
+            ((uint32_t)(unsigned char)message[1] << 16) |
+            ((uint32_t)(unsigned char)message[2] << 8) |
+            ((uint32_t)(unsigned char)message[3]);
+
+#ifdef MCP_VERBOSE_DEBUG
+        // Log the extracted length
+        mcp_log_debug("Possible message length prefix: %u bytes (total received: %zu bytes)",
+            msg_len, message_len);
+#endif
+
+        // If this looks like a length-prefixed message, skip the length prefix
+        if (msg_len <= message_len - 4 && msg_len > 0) {
+            mcp_log_debug("Detected length-prefixed message, skipping 4-byte prefix");
+            message += 4;
+            message_len -= 4;
+        }
+    }
+
     // Process complete message
     if (data->transport && data->transport->message_callback) {
         // Reset thread-local arena for JSON parsing
@@ -334,8 +359,8 @@ int ws_server_client_process_message(ws_server_data_t* data, ws_client_t* client
         int error_code = 0;
         char* response = data->transport->message_callback(
             data->transport->callback_user_data,
-            client->receive_buffer,
-            client->receive_buffer_used,
+            message,
+            message_len,
             &error_code
         );
 
@@ -397,40 +422,7 @@ int ws_server_client_handle_received_data(ws_server_data_t* data, ws_client_t* c
     }
 #endif
 
-    // Check if this might be a length-prefixed message
-    if (len >= 4) {
-        // Interpret first 4 bytes as a 32-bit length (network byte order)
-        uint32_t msg_len = 0;
-        // Convert from network byte order (big endian) to host byte order
-        msg_len = ((unsigned char)((char*)in)[0] << 24) |
-            ((unsigned char)((char*)in)[1] << 16) |
-            ((unsigned char)((char*)in)[2] << 8) |
-            ((unsigned char)((char*)in)[3]);
-
-#ifdef MCP_VERBOSE_DEBUG
-        // Log the extracted length
-        mcp_log_debug("Possible message length prefix: %u bytes (total received: %zu bytes)",
-            msg_len, len);
-#endif
-
-        // If this looks like a length-prefixed message, skip the length prefix
-        if (msg_len <= len - 4 && msg_len > 0) {
-            mcp_log_debug("Detected length-prefixed message, skipping 4-byte prefix");
-            // Copy data without the length prefix
-            memcpy(client->receive_buffer + client->receive_buffer_used,
-                (char*)in + 4, len - 4);
-            client->receive_buffer_used += (len - 4);
-
-            // Process the message immediately if it's a complete message
-            if (is_final) {
-                return ws_server_client_process_message(data, client, wsi);
-            }
-
-            return 0;  // Skip the rest of the processing
-        }
-    }
-
-    // Normal copy if not a length-prefixed message or if length prefix check failed
+    // Append this part to the message
     memcpy(client->receive_buffer + client->receive_buffer_used, in, len);
     client->receive_buffer_used += len;
 
-- 
2.43.0


From 808fa1dc32112ba6f199d6d3c85151910c9c3acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:35 +0000
Subject: [PATCH 073/167] fix: count a closed WebSocket client once

---
 src/transport/mcp_websocket_server_callback.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/transport/mcp_websocket_server_callback.c b/src/transport/mcp_websocket_server_callback.c
index 69c5d17..b6463f9 100644
--- a/src/transport/mcp_websocket_server_callback.c
+++ b/src/transport/mcp_websocket_server_callback.c
@@ -71,15 +71,14 @@ int ws_server_callback(struct lws* wsi, enum lws_callback_reasons reason,
             if (client) {
                 ws_server_lock_all_clients(data);
 
-                // Clear client data and update statistics
-                ws_server_clear_client_bit(data->client_bitmap, client->client_id, data->bitmap_size);
-                data->active_clients--;
+                // Clear client data and update statistics, unless that has been done already
+                if (client->state != WS_CLIENT_STATE_INACTIVE) {
+                    ws_server_client_cleanup(client, data);
+                }
 
                 mcp_log_ws_info("client %d disconnected (active: %u, max: %u)",
                                 client->client_id, data->active_clients, data->max_clients);
 
-                ws_server_client_cleanup(client, data);
-
                 ws_server_unlock_all_clients(data);
             }
             break;
-- 
2.43.0


From cc44130e59e4c5ab475a8d96cbf46011eaec88f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:35 +0000
Subject: [PATCH 074/167] fix: count WebSocket connections turned away at
 capacity

---
 src/transport/mcp_websocket_server_callback.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transport/mcp_websocket_server_callback.c b/src/transport/mcp_websocket_server_callback.c
index b6463f9..9dae83a 100644
--- a/src/transport/mcp_websocket_server_callback.c
+++ b/src/transport/mcp_websocket_server_callback.c
@@ -191,11 +191,15 @@ int ws_server_callback(struct lws* wsi, enum lws_callback_reasons reason,
             mcp_log_ws_verbose("filter network connection");
 
             // Check if we're at capacity
+            ws_server_lock_all_clients(data);
             if (data->active_clients >= data->max_clients) {
+                data->rejected_connections++;
+                ws_server_unlock_all_clients(data);
                 mcp_log_ws_warn("at capacity (%u/%u), rejecting connection",
                                 data->active_clients, data->max_clients);
                 return -1;
             }
+            ws_server_unlock_all_clients(data);
             return 0;
         }
 
-- 
2.43.0


From c0fd2b48b1f1f176d4f2e81babbef432c683951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:23 +0000
Subject: [PATCH 075/167] fix: accept empty fragments of a WebSocket message

---
 src/transport/mcp_websocket_server_client.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/transport/mcp_websocket_server_client.c b/src/transport/mcp_websocket_server_client.c
index 82630af..49d8960 100644
--- a/src/transport/mcp_websocket_server_client.c
+++ b/src/transport/mcp_websocket_server_client.c
@@ -386,7 +386,12 @@ int ws_server_client_process_message(ws_server_data_t* data, ws_client_t* client
 // Handle received data
 int ws_server_client_handle_received_data(ws_server_data_t* data, ws_client_t* client,
     struct lws* wsi, void* in, size_t len, bool is_final) {
-    if (!data || !client || !wsi || !in || len == 0) {
+    if (!data || !client || !wsi || !in) {
+        return -1;
+    }
+
+    // A fragment may be empty, but not a whole message
+    if (len == 0 && is_final && client->receive_buffer_used == 0) {
         return -1;
     }
 
@@ -423,8 +428,10 @@ int ws_server_client_handle_received_data(ws_server_data_t* data, ws_client_t* c
 #endif
 
     // Append this part to the message
-    memcpy(client->receive_buffer + client->receive_buffer_used, in, len);
-    client->receive_buffer_used += len;
+    if (len > 0) {
+        memcpy(client->receive_buffer + client->receive_buffer_used, in, len);
+        client->receive_buffer_used += len;
+    }
 
     // Check if this is a complete message
     if (is_final) {
-- 
2.43.0


From ab7f0b942cc24240a925e019b63c2026020c4fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:59 +0000
Subject: [PATCH 076/167] fix: hold back WebSocket responses while earlier
 output is unsent

---
 .../internal/websocket_server_internal.h      | 10 +++
 src/transport/mcp_websocket_server_callback.c |  5 ++
 src/transport/mcp_websocket_server_client.c   | 69 +++++++++++++++++++
 src/transport/mcp_websocket_transport.c       |  2 +
 4 files changed, 86 insertions(+)

diff --git a/src/transport/internal/websocket_server_internal.h b/src/transport/internal/websocket_server_internal.h
index dc921cb..c86b95b 100644
--- a/src/transport/internal/websocket_server_internal.h
+++ b/src/transport/internal/websocket_server_internal.h
@@ -31,10 +31,19 @@ typedef enum {
     WS_CLIENT_STATE_ERROR           // Client encountered an error
 } ws_client_state_t;
 
+// Response waiting until its client's connection can be written to
+typedef struct ws_pending_response {
+    struct ws_pending_response* next; // Next response for the same client
+    size_t len;                     // Response length
+    unsigned char* buffer;          // LWS_PRE bytes followed by the response
+} ws_pending_response_t;
+
 // WebSocket client connection information
 typedef struct {
     struct lws* wsi;                // libwebsockets connection handle
     ws_client_state_t state;        // Connection state
+    ws_pending_response_t* pending_head; // First response waiting to be written
+    ws_pending_response_t* pending_tail; // Last response waiting to be written
     char* receive_buffer;           // Receive buffer
     size_t receive_buffer_len;      // Receive buffer length
     size_t receive_buffer_used;     // Used receive buffer length
@@ -105,6 +114,7 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
 void ws_server_client_update_activity(ws_client_t* client);
 int ws_server_client_send_ping(ws_client_t* client);
 int ws_server_client_send_response(ws_client_t* client, struct lws* wsi, const char* response, size_t response_len);
+int ws_server_client_write_pending(ws_client_t* client, struct lws* wsi);
 int ws_server_client_process_message(ws_server_data_t* data, ws_client_t* client, struct lws* wsi);
 int ws_server_client_handle_received_data(ws_server_data_t* data, ws_client_t* client, struct lws* wsi, void* in, size_t len, bool is_final);
 
diff --git a/src/transport/mcp_websocket_server_callback.c b/src/transport/mcp_websocket_server_callback.c
index 9dae83a..e0e52ec 100644
--- a/src/transport/mcp_websocket_server_callback.c
+++ b/src/transport/mcp_websocket_server_callback.c
@@ -132,6 +132,11 @@ int ws_server_callback(struct lws* wsi, enum lws_callback_reasons reason,
 
             // Update activity timestamp
             ws_server_client_update_activity(client);
+
+            // Write a response that could not be written earlier
+            if (ws_server_client_write_pending(client, wsi) != 0) {
+                return -1;
+            }
             break;
         }
 
diff --git a/src/transport/mcp_websocket_server_client.c b/src/transport/mcp_websocket_server_client.c
index 49d8960..d2b6545 100644
--- a/src/transport/mcp_websocket_server_client.c
+++ b/src/transport/mcp_websocket_server_client.c
@@ -8,6 +8,8 @@ int ws_server_client_init(ws_client_t* client, int client_id, struct lws* wsi) {
 
     client->wsi = wsi;
     client->state = WS_CLIENT_STATE_ACTIVE;
+    client->pending_head = NULL;
+    client->pending_tail = NULL;
     client->receive_buffer = NULL;
     client->receive_buffer_len = 0;
     client->receive_buffer_used = 0;
@@ -47,6 +49,15 @@ void ws_server_client_cleanup(ws_client_t* client, ws_server_data_t* server_data
         client->receive_buffer_pooled = false;
     }
 
+    // Drop responses that were not written
+    while (client->pending_head) {
+        ws_pending_response_t* pending = client->pending_head;
+        client->pending_head = pending->next;
+        free(pending->buffer);
+        free(pending);
+    }
+    client->pending_tail = NULL;
+
     // Reset client state
     client->state = WS_CLIENT_STATE_INACTIVE;
     client->wsi = NULL;
@@ -291,6 +302,30 @@ int ws_server_client_send_response(ws_client_t* client, struct lws* wsi, const c
     // Copy response data
     memcpy(buffer + LWS_PRE, response, response_len);
 
+    // While earlier output is still waiting, another write would end up inside its frame
+    if (client->pending_head || lws_send_pipe_choked(wsi)) {
+        ws_pending_response_t* pending = (ws_pending_response_t*)malloc(sizeof(*pending));
+        if (!pending) {
+            mcp_log_error("Failed to queue WebSocket response of size %zu", response_len);
+            free(buffer);
+            return -1;
+        }
+
+        pending->next = NULL;
+        pending->len = response_len;
+        pending->buffer = buffer;
+
+        if (client->pending_tail) {
+            client->pending_tail->next = pending;
+        } else {
+            client->pending_head = pending;
+        }
+        client->pending_tail = pending;
+
+        lws_callback_on_writable(wsi);
+        return 0;
+    }
+
     // Send data directly
     int result = lws_write(wsi, buffer + LWS_PRE, response_len, LWS_WRITE_TEXT);
 
@@ -308,6 +343,40 @@ int ws_server_client_send_response(ws_client_t* client, struct lws* wsi, const c
     return 0;
 }
 
+// Write the first response that is waiting, if any
+int ws_server_client_write_pending(ws_client_t* client, struct lws* wsi) {
+    if (!client || !wsi) {
+        return -1;
+    }
+
+    ws_pending_response_t* pending = client->pending_head;
+    if (!pending) {
+        return 0;
+    }
+
+    client->pending_head = pending->next;
+    if (!client->pending_head) {
+        client->pending_tail = NULL;
+    }
+
+    int result = lws_write(wsi, pending->buffer + LWS_PRE, pending->len, LWS_WRITE_TEXT);
+
+    free(pending->buffer);
+    free(pending);
+
+    if (result < 0) {
+        mcp_log_error("WebSocket server write failed");
+        return -1;
+    }
+
+    // Ask for another turn if more responses are waiting
+    if (client->pending_head) {
+        lws_callback_on_writable(wsi);
+    }
+
+    return 0;
+}
+
 // Process a complete message
 int ws_server_client_process_message(ws_server_data_t* data, ws_client_t* client, struct lws* wsi) {
     if (!data || !client || !wsi) {
diff --git a/src/transport/mcp_websocket_transport.c b/src/transport/mcp_websocket_transport.c
index 5bba0d6..bd23e74 100644
--- a/src/transport/mcp_websocket_transport.c
+++ b/src/transport/mcp_websocket_transport.c
@@ -43,6 +43,8 @@ static int ws_server_transport_start(
     for (uint32_t i = 0; i < data->max_clients; i++) {
         data->clients[i].state = WS_CLIENT_STATE_INACTIVE;
         data->clients[i].wsi = NULL;
+        data->clients[i].pending_head = NULL;
+        data->clients[i].pending_tail = NULL;
         data->clients[i].receive_buffer = NULL;
         data->clients[i].receive_buffer_len = 0;
         data->clients[i].receive_buffer_used = 0;
-- 
2.43.0


From b0cc3dfab2bb4fc1551111f718cbaf2a8180ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:05 +0000
Subject: [PATCH 077/167] fix: report the expiry of an HTTP session once

---
 src/transport/mcp_http_session_manager.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/transport/mcp_http_session_manager.c b/src/transport/mcp_http_session_manager.c
index 0114560..04df5be 100644
--- a/src/transport/mcp_http_session_manager.c
+++ b/src/transport/mcp_http_session_manager.c
@@ -246,8 +246,10 @@ mcp_http_session_t* mcp_session_manager_get_session(mcp_http_session_manager_t*
             
             // Check if expired
             if (is_session_expired(session)) {
-                session->state = MCP_SESSION_STATE_EXPIRED;
-                notify_session_event(manager, session_id, MCP_SESSION_STATE_EXPIRED);
+                if (session->state == MCP_SESSION_STATE_ACTIVE) {
+                    session->state = MCP_SESSION_STATE_EXPIRED;
+                    notify_session_event(manager, session_id, MCP_SESSION_STATE_EXPIRED);
+                }
                 mcp_mutex_unlock(manager->mutex);
                 return NULL;
             }
@@ -355,12 +357,15 @@ size_t mcp_session_manager_cleanup_expired(mcp_http_session_manager_t* manager)
             mcp_http_session_t* session = &manager->sessions[i];
 
             if (is_session_expired(session)) {
+                bool reported = session->state != MCP_SESSION_STATE_ACTIVE;
                 session->state = MCP_SESSION_STATE_EXPIRED;
                 session->in_use = false;
                 manager->active_count--;
                 cleaned_count++;
 
-                notify_session_event(manager, session->session_id, MCP_SESSION_STATE_EXPIRED);
+                if (!reported) {
+                    notify_session_event(manager, session->session_id, MCP_SESSION_STATE_EXPIRED);
+                }
                 mcp_log_debug("Cleaned up expired session: %s", session->session_id);
             }
         }
-- 
2.43.0


From 8d6a70bb545254447ed41673948e80a3313ee89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:33 +0000
Subject: [PATCH 078/167] fix: do not cut off the last character of an MQTT
 session file name

---
 src/transport/mqtt_session_persistence.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index a30b373..aab52f9 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -138,7 +138,7 @@ static char* get_session_path(const char* client_id) {
     }
 
     // Allocate path buffer
-    size_t path_len = strlen(g_storage_path) + strlen(safe_id) + 6; // +6 for "/.mcp_"
+    size_t path_len = strlen(g_storage_path) + strlen(safe_id) + 7; // +7 for "/.mcp_" and the terminator
     char* path = (char*)malloc(path_len);
     if (!path) {
         free(safe_id);
-- 
2.43.0


From 270c73d11f64ffc2c199213a1feed46eed3c7349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:33 +0000
Subject: [PATCH 079/167] fix: give every MQTT client id a session file of its
 own

---
 src/transport/mqtt_session_persistence.c | 65 ++++++++++++++----------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index aab52f9..1badc24 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -29,8 +29,8 @@
 #define MQTT_SESSION_MAGIC 0x4D435053  // "MCPS"
 
 // Internal helper functions that assume lock is already held
-static bool mqtt_session_is_expired_internal(const char* client_id);
-static int mqtt_session_delete_internal(const char* client_id);
+static bool mqtt_session_file_is_expired_internal(const char* filename);
+static int mqtt_session_delete_file_internal(const char* filename);
 
 static char* g_storage_path = NULL;
 static mcp_mutex_t* g_session_mutex = NULL;
@@ -123,19 +123,22 @@ static char* get_session_path(const char* client_id) {
         return NULL;
     }
 
-    // Create a safe filename from client_id
-    char* safe_id = mcp_strdup(client_id);
+    // Create a safe filename from client_id: characters that are invalid in a
+    // filename are written as %XX, so that different ids have different files
+    char* safe_id = (char*)malloc(strlen(client_id) * 3 + 1);
     if (!safe_id) {
         return NULL;
     }
 
-    // Replace invalid filename characters
-    for (char* p = safe_id; *p; ++p) {
-        if (*p == '\\' || *p == '/' || *p == ':' || *p == '*' || 
-            *p == '?' || *p == '"' || *p == '<' || *p == '>' || *p == '|') {
-            *p = '_';
+    char* out = safe_id;
+    for (const char* p = client_id; *p; ++p) {
+        if (strchr("\\/:*?\"<>|%", *p)) {
+            out += sprintf(out, "%%%02X", (unsigned char)*p);
+        } else {
+            *out++ = *p;
         }
     }
+    *out = '\0';
 
     // Allocate path buffer
     size_t path_len = strlen(g_storage_path) + strlen(safe_id) + 7; // +7 for "/.mcp_" and the terminator
@@ -150,6 +153,21 @@ static char* get_session_path(const char* client_id) {
     return path;
 }
 
+static char* get_session_file_path(const char* filename) {
+    if (!g_storage_path || !filename) {
+        return NULL;
+    }
+
+    size_t path_len = strlen(g_storage_path) + strlen(filename) + 2; // +2 for "/" and the terminator
+    char* path = (char*)malloc(path_len);
+    if (!path) {
+        return NULL;
+    }
+
+    snprintf(path, path_len, "%s/%s", g_storage_path, filename);
+    return path;
+}
+
 int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
     if (!client_id || !session) {
         return -1;
@@ -851,15 +869,12 @@ int mqtt_session_cleanup_expired(void) {
     if (find_handle != INVALID_HANDLE_VALUE) {
         do {
             if (!(find_data.dwFileAttributes & FILE_ATTRIBUTE_DIRECTORY)) {
-                // Extract client ID from filename
                 const char* filename = find_data.cFileName;
                 if (strncmp(filename, ".mcp_", 5) == 0) {
-                    const char* client_id = filename + 5;
-
-                    if (mqtt_session_is_expired_internal(client_id)) {
-                        if (mqtt_session_delete_internal(client_id) == 0) {
+                    if (mqtt_session_file_is_expired_internal(filename)) {
+                        if (mqtt_session_delete_file_internal(filename) == 0) {
                             cleaned_count++;
-                            mcp_log_info("Cleaned expired session for client: %s", client_id);
+                            mcp_log_info("Cleaned expired session file: %s", filename);
                         }
                     }
                 }
@@ -875,12 +890,10 @@ int mqtt_session_cleanup_expired(void) {
         struct dirent* entry;
         while ((entry = readdir(dir)) != NULL) {
             if (strncmp(entry->d_name, ".mcp_", 5) == 0) {
-                const char* client_id = entry->d_name + 5;
-
-                if (mqtt_session_is_expired_internal(client_id)) {
-                    if (mqtt_session_delete_internal(client_id) == 0) {
+                if (mqtt_session_file_is_expired_internal(entry->d_name)) {
+                    if (mqtt_session_delete_file_internal(entry->d_name) == 0) {
                         cleaned_count++;
-                        mcp_log_info("Cleaned expired session for client: %s", client_id);
+                        mcp_log_info("Cleaned expired session file: %s", entry->d_name);
                     }
                 }
             }
@@ -929,15 +942,15 @@ void mqtt_session_persistence_cleanup(void) {
 }
 
 // Internal helper function - assumes lock is already held
-static bool mqtt_session_is_expired_internal(const char* client_id) {
-    if (!client_id) {
+static bool mqtt_session_file_is_expired_internal(const char* filename) {
+    if (!filename) {
         return true;
     }
 
     uint64_t created_time, last_access_time;
     uint32_t expiry_interval;
 
-    char* path = get_session_path(client_id);
+    char* path = get_session_file_path(filename);
     if (!path) {
         return true;
     }
@@ -986,12 +999,12 @@ static bool mqtt_session_is_expired_internal(const char* client_id) {
 }
 
 // Internal helper function - assumes lock is already held
-static int mqtt_session_delete_internal(const char* client_id) {
-    if (!client_id) {
+static int mqtt_session_delete_file_internal(const char* filename) {
+    if (!filename) {
         return -1;
     }
 
-    char* path = get_session_path(client_id);
+    char* path = get_session_file_path(filename);
     if (!path) {
         return -1;
     }
-- 
2.43.0


From c5112655227e73f95e0bfb10984757194cac6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:33 +0000
Subject: [PATCH 080/167] fix: load MQTT subscriptions and messages in the
 order they were saved

---
 src/transport/mqtt_session_persistence.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 1badc24..fbe367b 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -472,6 +472,10 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     }
 
     // Read subscriptions
+    struct mqtt_subscription** sub_tail = &session->subscriptions;
+    while (*sub_tail) {
+        sub_tail = &(*sub_tail)->next;
+    }
     for (uint16_t i = 0; i < sub_count; i++) {
         uint16_t topic_len;
         if (fread(&topic_len, sizeof(topic_len), 1, fp) != 1) {
@@ -509,8 +513,10 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
 
         sub->topic = topic;
         sub->qos = qos;
-        sub->next = session->subscriptions;
-        session->subscriptions = sub;
+        sub->active = true;
+        sub->next = NULL;
+        *sub_tail = sub;
+        sub_tail = &sub->next;
     }
 
     // Read last packet ID
@@ -524,6 +530,10 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     uint16_t inflight_count = 0;
     if (fread(&inflight_count, sizeof(inflight_count), 1, fp) == 1) {
         // Read in-flight messages
+        struct mqtt_inflight_message** inflight_tail = &session->inflight_messages;
+        while (*inflight_tail) {
+            inflight_tail = &(*inflight_tail)->next;
+        }
         for (uint16_t i = 0; i < inflight_count; i++) {
             struct mqtt_inflight_message* inflight = malloc(sizeof(struct mqtt_inflight_message));
             if (!inflight) {
@@ -600,8 +610,9 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
             }
 
             // Add to list
-            inflight->next = session->inflight_messages;
-            session->inflight_messages = inflight;
+            inflight->next = NULL;
+            *inflight_tail = inflight;
+            inflight_tail = &inflight->next;
         }
     }
 
-- 
2.43.0


From b05dcb1d139d41b9849b5c703c5f48e281ac17ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:33 +0000
Subject: [PATCH 081/167] fix: save MQTT sessions that hold a message without
 payload

---
 src/transport/mqtt_session_persistence.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index fbe367b..98d57ed 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -46,7 +46,11 @@ static volatile bool g_persistence_shutting_down = false;
  * @return 0 on success, -1 on failure
  */
 static int safe_fwrite(const void* ptr, size_t size, size_t count, FILE* stream) {
-    if (!ptr || !stream || size == 0 || count == 0) {
+    if (count == 0) {
+        return 0;
+    }
+
+    if (!ptr || !stream || size == 0) {
         mcp_log_error("Invalid parameters for file write operation");
         return -1;
     }
@@ -580,7 +584,7 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
                 goto cleanup_and_exit;
             }
 
-            inflight->payload = malloc(payload_len);
+            inflight->payload = malloc(payload_len > 0 ? payload_len : 1);
             if (!inflight->payload) {
                 free(inflight->topic);
                 free(inflight);
-- 
2.43.0


From 2215eaa54dbf09a8e8a2bfd3f8310a25bfb4059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:17 +0000
Subject: [PATCH 082/167] fix: replace a saved MQTT session only when the new
 one is complete

---
 src/transport/mqtt_session_persistence.c | 144 ++++++++++++-----------
 1 file changed, 73 insertions(+), 71 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 98d57ed..7422483 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -172,54 +172,16 @@ static char* get_session_file_path(const char* filename) {
     return path;
 }
 
-int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
-    if (!client_id || !session) {
-        return -1;
-    }
-
-    // Check if persistence system is ready
-    if (!is_persistence_ready()) {
-        return -1;
-    }
-
-    // Acquire lock for thread-safe file operations
-    mcp_mutex_lock(g_session_mutex);
-
-    // Double-check after acquiring lock
-    if (!is_persistence_ready()) {
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
-    }
-
-    char* path = get_session_path(client_id);
-    if (!path) {
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
-    }
-
-    FILE* fp = fopen(path, "wb");
-    if (!fp) {
-        mcp_log_error("Failed to open session file for writing: %s (errno: %d)", path, errno);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
-    }
-
+static int write_session(FILE* fp, const char* client_id, const mqtt_session_data_t* session) {
     // Write session data
     uint32_t magic = MQTT_SESSION_MAGIC;
     if (safe_fwrite(&magic, sizeof(magic), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
     // Write file format version
     uint16_t version = MQTT_SESSION_FILE_VERSION;
     if (safe_fwrite(&version, sizeof(version), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -228,9 +190,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     if (safe_fwrite(&session->session_created_time, sizeof(session->session_created_time), 1, fp) != 0 ||
         safe_fwrite(&current_time, sizeof(current_time), 1, fp) != 0 ||
         safe_fwrite(&session->session_expiry_interval, sizeof(session->session_expiry_interval), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -238,9 +197,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     uint16_t client_id_len = (uint16_t)strlen(client_id);
     if (safe_fwrite(&client_id_len, sizeof(client_id_len), 1, fp) != 0 ||
         safe_fwrite(client_id, 1, client_id_len, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -252,9 +208,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         sub = sub->next;
     }
     if (safe_fwrite(&sub_count, sizeof(sub_count), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -265,9 +218,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         if (safe_fwrite(&topic_len, sizeof(topic_len), 1, fp) != 0 ||
             safe_fwrite(sub->topic, 1, topic_len, fp) != 0 ||
             safe_fwrite(&sub->qos, sizeof(sub->qos), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
         sub = sub->next;
@@ -275,9 +225,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
 
     // Write last packet ID
     if (safe_fwrite(&session->last_packet_id, sizeof(session->last_packet_id), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -289,9 +236,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         inflight = inflight->next;
     }
     if (safe_fwrite(&inflight_count, sizeof(inflight_count), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -299,27 +243,18 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     inflight = session->inflight_messages;
     while (inflight) {
         if (safe_fwrite(&inflight->packet_id, sizeof(inflight->packet_id), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
         uint16_t topic_len = (uint16_t)strlen(inflight->topic);
         if (safe_fwrite(&topic_len, sizeof(topic_len), 1, fp) != 0 ||
             safe_fwrite(inflight->topic, 1, topic_len, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
         uint32_t payload_len = (uint32_t)inflight->payload_len;
         if (safe_fwrite(&payload_len, sizeof(payload_len), 1, fp) != 0 ||
             safe_fwrite(inflight->payload, 1, inflight->payload_len, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
@@ -327,19 +262,86 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
             safe_fwrite(&inflight->retain, sizeof(inflight->retain), 1, fp) != 0 ||
             safe_fwrite(&inflight->send_time, sizeof(inflight->send_time), 1, fp) != 0 ||
             safe_fwrite(&inflight->retry_count, sizeof(inflight->retry_count), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
         inflight = inflight->next;
     }
 
-    fclose(fp);
+    return 0;
+}
+
+int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
+    if (!client_id || !session) {
+        return -1;
+    }
+
+    // Check if persistence system is ready
+    if (!is_persistence_ready()) {
+        return -1;
+    }
+
+    // Acquire lock for thread-safe file operations
+    mcp_mutex_lock(g_session_mutex);
+
+    // Double-check after acquiring lock
+    if (!is_persistence_ready()) {
+        mcp_mutex_unlock(g_session_mutex);
+        return -1;
+    }
+
+    char* path = get_session_path(client_id);
+    if (!path) {
+        mcp_mutex_unlock(g_session_mutex);
+        return -1;
+    }
+
+    // Write a new file and put it in place when it is complete, so that an
+    // interrupted save leaves the previous session
+    const char* filename = path + strlen(g_storage_path) + 1;
+    size_t temp_len = strlen(path) + sizeof(".new");
+    char* temp_path = (char*)malloc(temp_len);
+    if (!temp_path) {
+        free(path);
+        mcp_mutex_unlock(g_session_mutex);
+        return -1;
+    }
+    snprintf(temp_path, temp_len, "%s/.new%s", g_storage_path, filename);
+
+    FILE* fp = fopen(temp_path, "wb");
+    if (!fp) {
+        mcp_log_error("Failed to open session file for writing: %s (errno: %d)", temp_path, errno);
+        free(temp_path);
+        free(path);
+        mcp_mutex_unlock(g_session_mutex);
+        return -1;
+    }
+
+    int result = write_session(fp, client_id, session);
+    if (fclose(fp) != 0) {
+        mcp_log_error("Failed to write session file: %s (errno: %d)", temp_path, errno);
+        result = -1;
+    }
+
+    if (result == 0) {
+#ifdef _WIN32
+        if (!MoveFileExA(temp_path, path, MOVEFILE_REPLACE_EXISTING)) {
+#else
+        if (rename(temp_path, path) != 0) {
+#endif
+            mcp_log_error("Failed to replace session file: %s (errno: %d)", path, errno);
+            result = -1;
+        }
+    }
+
+    if (result != 0) {
+        remove(temp_path);
+    }
+
+    free(temp_path);
     free(path);
     mcp_mutex_unlock(g_session_mutex);
-    return 0;
+    return result;
 }
 
 int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
-- 
2.43.0


From 2000578ec0c7f5ed6790a558de5adb25ed85adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:17 +0000
Subject: [PATCH 083/167] fix: reject an MQTT session file that ends before its
 messages

---
 src/transport/mqtt_session_persistence.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 7422483..dd18838 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -528,13 +528,15 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     // Read last packet ID
     if (fread(&session->last_packet_id, sizeof(session->last_packet_id), 1, fp) != 1) {
         mcp_log_warn("Failed to read last packet ID for client: %s", client_id);
-        // Continue anyway, this is not critical
-        session->last_packet_id = 1;
+        goto cleanup_and_exit;
     }
 
     // Read in-flight message count
     uint16_t inflight_count = 0;
-    if (fread(&inflight_count, sizeof(inflight_count), 1, fp) == 1) {
+    if (fread(&inflight_count, sizeof(inflight_count), 1, fp) != 1) {
+        mcp_log_warn("Failed to read in-flight message count for client: %s", client_id);
+        goto cleanup_and_exit;
+    } else {
         // Read in-flight messages
         struct mqtt_inflight_message** inflight_tail = &session->inflight_messages;
         while (*inflight_tail) {
-- 
2.43.0


From 7d8054e199e07347190e033e0422cf2f817d3d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:17 +0000
Subject: [PATCH 084/167] fix: check an MQTT message's length before allocating
 its payload

---
 src/transport/mqtt_session_persistence.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index dd18838..c2347ae 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -588,6 +588,17 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
                 goto cleanup_and_exit;
             }
 
+            // The payload cannot be longer than the rest of the file
+            long payload_start = ftell(fp);
+            if (payload_start < 0 || fseek(fp, 0, SEEK_END) != 0 ||
+                ftell(fp) - payload_start < (long)payload_len ||
+                fseek(fp, payload_start, SEEK_SET) != 0) {
+                free(inflight->topic);
+                free(inflight);
+                mcp_log_warn("Invalid in-flight payload length for client: %s", client_id);
+                goto cleanup_and_exit;
+            }
+
             inflight->payload = malloc(payload_len > 0 ? payload_len : 1);
             if (!inflight->payload) {
                 free(inflight->topic);
-- 
2.43.0


From 691fcccd56a41d3826ba5c4ce7a9011814baf27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:17 +0000
Subject: [PATCH 085/167] fix: do not expire MQTT sessions when the clock is
 set back

---
 src/transport/mqtt_session_persistence.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index c2347ae..7003ca4 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -122,6 +122,11 @@ int mqtt_session_persistence_init(const char* storage_path) {
     return 0;
 }
 
+// Helper function to get the time since the last access, none if the clock was set back
+static uint64_t get_elapsed_seconds(uint64_t current_time, uint64_t last_access_time) {
+    return current_time > last_access_time ? (current_time - last_access_time) / 1000 : 0;
+}
+
 static char* get_session_path(const char* client_id) {
     if (!g_storage_path || !client_id) {
         return NULL;
@@ -419,7 +424,7 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     // Check if session has expired
     if (session->session_expiry_interval > 0) {
         uint64_t current_time = mcp_get_time_ms();
-        uint64_t elapsed_seconds = (current_time - session->session_last_access_time) / 1000;
+        uint64_t elapsed_seconds = get_elapsed_seconds(current_time, session->session_last_access_time);
         if (elapsed_seconds > session->session_expiry_interval) {
             mcp_log_info("Session expired for client: %s (elapsed: %llu, expiry: %u)",
                         client_id, (unsigned long long)elapsed_seconds, session->session_expiry_interval);
@@ -761,7 +766,7 @@ bool mqtt_session_is_expired(const char* client_id) {
     }
 
     uint64_t current_time = mcp_get_time_ms();
-    uint64_t elapsed_seconds = (current_time - last_access_time) / 1000;
+    uint64_t elapsed_seconds = get_elapsed_seconds(current_time, last_access_time);
     return elapsed_seconds > expiry_interval;
 }
 
@@ -1024,7 +1029,7 @@ static bool mqtt_session_file_is_expired_internal(const char* filename) {
     }
 
     uint64_t current_time = mcp_get_time_ms();
-    uint64_t elapsed_seconds = (current_time - last_access_time) / 1000;
+    uint64_t elapsed_seconds = get_elapsed_seconds(current_time, last_access_time);
     return elapsed_seconds > expiry_interval;
 }
 
-- 
2.43.0


From 4fa8bceffbe6f47c81692d0c20a181b74fc79959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:17 +0000
Subject: [PATCH 086/167] fix: delete an expired MQTT session before another
 can take its place

---
 src/transport/mqtt_session_persistence.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 7003ca4..01d0f2f 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -429,10 +429,10 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
             mcp_log_info("Session expired for client: %s (elapsed: %llu, expiry: %u)",
                         client_id, (unsigned long long)elapsed_seconds, session->session_expiry_interval);
             fclose(fp);
+            // Delete expired session file
+            remove(path);
             free(path);
             mcp_mutex_unlock(g_session_mutex);
-            // Delete expired session file
-            mqtt_session_delete(client_id);
             return -1;
         }
     }
-- 
2.43.0


From 31d421d4373989986332214536da56b5dab54b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:07 +0000
Subject: [PATCH 087/167] fix: allocate connection pool nodes the way they are
 freed

Nodes created by pre-population and maintenance came from an object pool,
but get, release and destroy pass them to free(). Taking a pre-opened
connection corrupted the heap.
---
 .../internal/connection_pool_internal.h       |  1 -
 .../mcp_connection_pool_maintenance.c         | 44 +++----------------
 2 files changed, 5 insertions(+), 40 deletions(-)

diff --git a/src/connection_pool/internal/connection_pool_internal.h b/src/connection_pool/internal/connection_pool_internal.h
index 81e2605..4fad836 100644
--- a/src/connection_pool/internal/connection_pool_internal.h
+++ b/src/connection_pool/internal/connection_pool_internal.h
@@ -86,7 +86,6 @@ struct mcp_connection_pool {
     mcp_rwlock_t* rwlock;               // Read-write lock for better concurrency
 
     // Object pool for connection structures
-    mcp_object_pool_t* conn_pool;       // Object pool for connection structures
 
     // Double-linked list of idle connections (head and tail for efficient operations)
     mcp_pooled_connection_t* idle_head; // Head of idle list
diff --git a/src/connection_pool/mcp_connection_pool_maintenance.c b/src/connection_pool/mcp_connection_pool_maintenance.c
index 904cd9c..734a518 100644
--- a/src/connection_pool/mcp_connection_pool_maintenance.c
+++ b/src/connection_pool/mcp_connection_pool_maintenance.c
@@ -1,7 +1,6 @@
 #include "internal/connection_pool_internal.h"
 #include "mcp_socket_utils.h"
 #include "mcp_sys_utils.h"
-#include "mcp_object_pool.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -44,17 +43,8 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
         return NULL;
     }
 
-    // Allocate connection structure from object pool if available
-    mcp_pooled_connection_t* new_conn = NULL;
-    if (pool->conn_pool) {
-        new_conn = (mcp_pooled_connection_t*)mcp_object_pool_acquire(pool->conn_pool);
-    }
-
-    // Fall back to malloc if object pool is not available or empty
-    if (!new_conn) {
-        new_conn = (mcp_pooled_connection_t*)malloc(sizeof(mcp_pooled_connection_t));
-    }
-
+    // Allocate connection structure; whoever takes it off the idle list frees it
+    mcp_pooled_connection_t* new_conn = (mcp_pooled_connection_t*)malloc(sizeof(mcp_pooled_connection_t));
     if (!new_conn) {
         // Failed to allocate node, close the connection
         mcp_log_error("Failed to allocate node for new connection %d", (int)new_sock);
@@ -72,6 +62,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
     // Initialize connection structure
     new_conn->socket_fd = new_sock;
     new_conn->last_used_time = time(NULL);
+    new_conn->use_count = 0;
     new_conn->prev = NULL;
     new_conn->next = NULL;
 
@@ -169,15 +160,8 @@ void close_and_free_connection(mcp_connection_pool_t* pool, mcp_pooled_connectio
     pool->total_count--;
     pool->total_connections_closed++;
 
-    // Return connection structure to object pool if available
-    if (pool->conn_pool) {
-        // Clear the structure before returning to pool
-        memset(conn, 0, sizeof(mcp_pooled_connection_t));
-        mcp_object_pool_release(pool->conn_pool, conn);
-    } else {
-        // Free the connection structure
-        free(conn);
-    }
+    // Free the connection structure
+    free(conn);
 
     mcp_log_debug("Closed and freed connection %d", (int)sock_fd);
 }
@@ -343,24 +327,6 @@ int prepopulate_pool(mcp_connection_pool_t* pool) {
     // Lock the pool before modifying it
     pool_lock(pool);
 
-    // Create object pool for connection structures if not already created
-    if (!pool->conn_pool && pool->max_connections > 0) {
-        // Create object pool with initial capacity equal to min_connections
-        // and max capacity equal to max_connections
-        pool->conn_pool = mcp_object_pool_create(
-            sizeof(mcp_pooled_connection_t),
-            pool->min_connections,
-            pool->max_connections
-        );
-
-        if (!pool->conn_pool) {
-            mcp_log_warn("Failed to create connection object pool, falling back to malloc/free");
-        } else {
-            mcp_log_info("Created connection object pool with initial capacity %zu, max capacity %zu",
-                        pool->min_connections, pool->max_connections);
-        }
-    }
-
     size_t success_count = 0;
     for (size_t i = 0; i < pool->min_connections && pool->total_count < pool->max_connections; i++) {
         // Create and add a new connection to the idle list
-- 
2.43.0


From 9c482bcb7355afd7d756a0da2f783d46755d5c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:07 +0000
Subject: [PATCH 088/167] fix: look for another connection after dropping a
 dead idle one

When an idle connection had timed out or failed its health check, get
closed it and then returned the closed descriptor.
---
 src/connection_pool/mcp_connection_pool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index fd2069c..008d931 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -159,6 +159,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                     pool->total_connections_closed++;
 
                     // Continue the loop to get another connection
+                    sock = INVALID_SOCKET_HANDLE;
                     continue;
                 }
             }
@@ -190,6 +191,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                     pool->failed_health_checks++;
 
                     // Continue the loop to get another connection
+                    sock = INVALID_SOCKET_HANDLE;
                     continue;
                 }
             }
-- 
2.43.0


From 4a609483530690b6d32b6b7578d241da09d37f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:50 +0000
Subject: [PATCH 089/167] fix: never replace a resolved address that is in use

Two threads resolving a name at the same time picked the same slot of the
DNS cache, and the second one freed the addresses the first was connecting
to. The slot is now chosen under the write lock among unused entries.
---
 .../internal/connection_pool_internal.h       |  2 -
 .../mcp_connection_pool_dns_cache.c           | 74 ++++++++++---------
 2 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/src/connection_pool/internal/connection_pool_internal.h b/src/connection_pool/internal/connection_pool_internal.h
index 4fad836..868194d 100644
--- a/src/connection_pool/internal/connection_pool_internal.h
+++ b/src/connection_pool/internal/connection_pool_internal.h
@@ -85,8 +85,6 @@ struct mcp_connection_pool {
     mcp_cond_t* cond_var;               // Condition variable for waiting clients (using abstracted type)
     mcp_rwlock_t* rwlock;               // Read-write lock for better concurrency
 
-    // Object pool for connection structures
-
     // Double-linked list of idle connections (head and tail for efficient operations)
     mcp_pooled_connection_t* idle_head; // Head of idle list
     mcp_pooled_connection_t* idle_tail; // Tail of idle list
diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index 0c0d224..63545da 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -166,11 +166,6 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
 
     time_t current_time = time(NULL);
     struct addrinfo* result = NULL;
-    int empty_slot = -1;
-    int oldest_slot = 0;
-    int least_used_slot = 0;
-    time_t oldest_time = current_time;
-    uint32_t least_hits = UINT32_MAX;
 
     mcp_rwlock_read_lock(g_dns_cache.rwlock);
 
@@ -178,25 +173,6 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
     for (int i = 0; i < DNS_CACHE_SIZE; i++) {
         mcp_mutex_lock(g_dns_cache.entries[i].mutex);
 
-        // Track empty slots and replacement candidates
-        if (g_dns_cache.entries[i].hostname[0] == '\0') {
-            if (empty_slot == -1) {
-                empty_slot = i;
-            }
-        } else if (g_dns_cache.entries[i].ref_count == 0) {
-            // Track oldest entry
-            if (g_dns_cache.entries[i].timestamp < oldest_time) {
-                oldest_time = g_dns_cache.entries[i].timestamp;
-                oldest_slot = i;
-            }
-
-            // Track least frequently used entry
-            if (g_dns_cache.entries[i].hit_count < least_hits) {
-                least_hits = g_dns_cache.entries[i].hit_count;
-                least_used_slot = i;
-            }
-        }
-
         // Check if this entry matches our hostname and port
         if (g_dns_cache.entries[i].hostname[0] != '\0' &&
             strcmp(g_dns_cache.entries[i].hostname, cache_key) == 0) {
@@ -266,15 +242,39 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
         // Update statistics
         g_dns_cache.misses++;
 
-        // Choose a slot for the new entry - prefer empty, then least used, then oldest
-        int slot;
-        if (empty_slot != -1) {
-            slot = empty_slot;
-        } else if (least_used_slot != oldest_slot) {
-            // If we have a least used slot that's different from oldest, prefer it
-            slot = least_used_slot;
-        } else {
-            slot = oldest_slot;
+        // Choose a slot for the new entry - prefer empty, then least used. The cache may
+        // have changed since it was searched, and an entry in use must not be replaced.
+        int slot = -1;
+        uint32_t least_hits = UINT32_MAX;
+        for (int i = 0; i < DNS_CACHE_SIZE; i++) {
+            dns_cache_entry_t* entry = &g_dns_cache.entries[i];
+            mcp_mutex_lock(entry->mutex);
+            bool empty = entry->hostname[0] == '\0';
+            if (!empty && entry->timestamp != 0 && strcmp(entry->hostname, cache_key) == 0) {
+                // Another thread has resolved the same name meanwhile
+                entry->ref_count++;
+                entry->hit_count++;
+                result = entry->addr_info;
+            } else if (entry->ref_count == 0 && (empty || entry->hit_count < least_hits)) {
+                slot = i;
+                least_hits = empty ? 0 : entry->hit_count;
+            }
+            mcp_mutex_unlock(entry->mutex);
+            if (result) {
+                break;
+            }
+        }
+
+        if (result) {
+            freeaddrinfo(new_addr_info);
+            mcp_rwlock_write_unlock(g_dns_cache.rwlock);
+            return result;
+        }
+
+        if (slot == -1) {
+            // Every entry is in use: the result is not cached and dns_cache_release frees it
+            mcp_rwlock_write_unlock(g_dns_cache.rwlock);
+            return new_addr_info;
         }
 
         mcp_mutex_lock(g_dns_cache.entries[slot].mutex);
@@ -323,6 +323,8 @@ void dns_cache_release(struct addrinfo* addr_info) {
         return;
     }
 
+    bool found = false;
+
     // Use read lock for better concurrency
     mcp_rwlock_read_lock(g_dns_cache.rwlock);
 
@@ -332,6 +334,7 @@ void dns_cache_release(struct addrinfo* addr_info) {
 
         if (g_dns_cache.entries[i].addr_info == addr_info) {
             // Found it, decrement reference count
+            found = true;
             if (g_dns_cache.entries[i].ref_count > 0) {
                 g_dns_cache.entries[i].ref_count--;
                 mcp_log_debug("Released DNS cache entry for %s (ref_count=%d, hits=%u)",
@@ -348,4 +351,9 @@ void dns_cache_release(struct addrinfo* addr_info) {
     }
 
     mcp_rwlock_read_unlock(g_dns_cache.rwlock);
+
+    // It was not cached, so the caller was its only user
+    if (!found) {
+        freeaddrinfo(addr_info);
+    }
 }
-- 
2.43.0


From 64c6c34c74a9cb98480b8526ccdf271333ee8ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:59 +0000
Subject: [PATCH 090/167] fix: do not walk the idle list across an unlock

The maintenance thread kept pointers into the idle list while it released
the lock to close an expired connection. A caller taking one of those
connections meanwhile freed the node it continued with.
---
 .../mcp_connection_pool_maintenance.c         | 38 +++++++++----------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_maintenance.c b/src/connection_pool/mcp_connection_pool_maintenance.c
index 734a518..42b7379 100644
--- a/src/connection_pool/mcp_connection_pool_maintenance.c
+++ b/src/connection_pool/mcp_connection_pool_maintenance.c
@@ -210,33 +210,29 @@ void* pool_maintenance_thread_func(void* arg) {
         if (pool->idle_timeout_ms > 0) {
             mcp_pooled_connection_t* prev = NULL;
             mcp_pooled_connection_t* current = pool->idle_head;
+            mcp_pooled_connection_t* expired = NULL;
 
+            // Take the expired connections off the list first: closing one releases
+            // the lock, and other threads may change the list meanwhile
             while (current) {
-                // Check if this connection has timed out
+                mcp_pooled_connection_t* next = current->next;
                 double idle_time_sec = difftime(current_time, current->last_used_time);
-                if (idle_time_sec * 1000 > pool->idle_timeout_ms) {
-                    // Connection has timed out, remove it from the list
-                    mcp_pooled_connection_t* to_remove = current;
-
-                    // Remove from idle list
-                    if (remove_idle_connection(pool, to_remove, prev)) {
-                        // Get next connection before closing current one
-                        current = (prev) ? prev->next : pool->idle_head;
-
-                        // Close and free the connection
-                        mcp_log_debug("Closing idle connection %d due to timeout (idle for %.1f seconds).",
-                                     (int)to_remove->socket_fd, idle_time_sec);
-                        close_and_free_connection(pool, to_remove);
-                    } else {
-                        // Something went wrong, move to next
-                        prev = current;
-                        current = current->next;
-                    }
+                if (idle_time_sec * 1000 > pool->idle_timeout_ms &&
+                    remove_idle_connection(pool, current, prev)) {
+                    mcp_log_debug("Closing idle connection %d due to timeout (idle for %.1f seconds).",
+                                 (int)current->socket_fd, idle_time_sec);
+                    current->next = expired;
+                    expired = current;
                 } else {
-                    // Connection is still within timeout, move to next
                     prev = current;
-                    current = current->next;
                 }
+                current = next;
+            }
+
+            while (expired) {
+                mcp_pooled_connection_t* next = expired->next;
+                close_and_free_connection(pool, expired);
+                expired = next;
             }
         }
 
-- 
2.43.0


From 552a917e7f929792c4c1e3bf1a9f92f8568a48cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:26 +0000
Subject: [PATCH 091/167] fix: wake a waiting caller when maintenance frees or
 opens a connection

While maintenance closes or opens a connection it still counts as in use,
so a caller arriving then waits. Nothing woke it up afterwards.
---
 src/connection_pool/mcp_connection_pool_maintenance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connection_pool/mcp_connection_pool_maintenance.c b/src/connection_pool/mcp_connection_pool_maintenance.c
index 42b7379..03f6040 100644
--- a/src/connection_pool/mcp_connection_pool_maintenance.c
+++ b/src/connection_pool/mcp_connection_pool_maintenance.c
@@ -40,6 +40,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
         mcp_log_warn("Failed to create new connection to %s:%d", pool->host, pool->port);
         pool->total_count--;
         pool->total_connection_errors++;
+        pool_signal(pool); // A slot is free again
         return NULL;
     }
 
@@ -56,6 +57,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
 
         pool->total_count--;
         pool->total_connection_errors++;
+        pool_signal(pool); // A slot is free again
         return NULL;
     }
 
@@ -86,6 +88,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
             pool->idle_head = new_conn;
         }
         pool->idle_count++;
+        pool_signal(pool); // A caller may be waiting for it
     }
 
     mcp_log_debug("Created new connection %d to %s:%d", (int)new_sock, pool->host, pool->port);
@@ -159,6 +162,7 @@ void close_and_free_connection(mcp_connection_pool_t* pool, mcp_pooled_connectio
     // Update statistics
     pool->total_count--;
     pool->total_connections_closed++;
+    pool_signal(pool); // A slot is free again
 
     // Free the connection structure
     free(conn);
-- 
2.43.0


From c6ac08641750829ed9c24579ae434b71c7999f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:07 +0000
Subject: [PATCH 092/167] fix: set up the DNS cache before a connection pool is
 shared

The cache was set up by the first connection attempt. When two threads made
it at once, the second one reset entries and locks the first was using.
---
 src/connection_pool/mcp_connection_pool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index 008d931..d721ef7 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -70,6 +70,9 @@ mcp_connection_pool_t* mcp_connection_pool_create(
         return NULL;
     }
 
+    // Set up the DNS cache before the pool is shared between threads
+    dns_cache_init();
+
     // Pre-populate pool with min_connections
     if (pool->min_connections > 0) {
         if (prepopulate_pool(pool) != 0) {
-- 
2.43.0


From 63e39c00dfd2f20d9f8f80e03cc0b04914055811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:32 +0000
Subject: [PATCH 093/167] fix: route gateway requests by their parsed
 parameters

A request carries its parameters as JSON text, but routing read the text
as if it were a parsed JSON object. No request was ever routed.
---
 src/gateway/mcp_gateway_routing.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/gateway/mcp_gateway_routing.c b/src/gateway/mcp_gateway_routing.c
index 29fe832..890f1c2 100644
--- a/src/gateway/mcp_gateway_routing.c
+++ b/src/gateway/mcp_gateway_routing.c
@@ -25,13 +25,17 @@ const mcp_backend_info_t* find_backend_for_request(
     if (strcmp(request->method, "read_resource") == 0) {
         if (!request->params) return NULL; // Invalid request
 
-        // Params should be a parsed JSON object from handle_request
-        const mcp_json_t* params_obj = (const mcp_json_t*)request->params;
-        if (mcp_json_get_type(params_obj) != MCP_JSON_OBJECT) return NULL; // Should not happen if parsing worked
+        // A request carries its params as JSON text
+        mcp_json_t* params_obj = mcp_json_parse((const char*)request->params);
+        if (!params_obj || mcp_json_get_type(params_obj) != MCP_JSON_OBJECT) {
+            mcp_json_destroy(params_obj);
+            return NULL; // Invalid params
+        }
 
         mcp_json_t* uri_node = mcp_json_object_get_property(params_obj, "uri");
         const char* uri_str = NULL;
         if (!uri_node || mcp_json_get_type(uri_node) != MCP_JSON_STRING || mcp_json_get_string(uri_node, &uri_str) != 0 || !uri_str) {
+            mcp_json_destroy(params_obj);
             return NULL; // Invalid params for read_resource
         }
 
@@ -44,6 +48,7 @@ const mcp_backend_info_t* find_backend_for_request(
                 const char* prefix = backend->routing.resource_prefixes[j];
                 if (prefix && strncmp(uri_str, prefix, strlen(prefix)) == 0) {
                     mcp_log_debug("Routing resource '%s' to backend '%s' via prefix '%s'", uri_str, backend->name, prefix);
+                    mcp_json_destroy(params_obj);
                     return backend; // Found prefix match
                 }
             }
@@ -56,12 +61,14 @@ const mcp_backend_info_t* find_backend_for_request(
                     // Match found
                     mcp_log_debug("Routing resource '%s' to backend '%s' via regex '%s'",
                                   uri_str, backend->name, backend->routing.resource_regex_patterns[j]);
+                    mcp_json_destroy(params_obj);
                     return backend; // Found regex match
                 }
             }
 #endif
         }
         mcp_log_debug("No backend route found for resource '%s'", uri_str);
+        mcp_json_destroy(params_obj);
         return NULL; // No match found
     }
 
@@ -69,13 +76,17 @@ const mcp_backend_info_t* find_backend_for_request(
     if (strcmp(request->method, "call_tool") == 0) {
         if (!request->params) return NULL; // Invalid request
 
-        // Params should be a parsed JSON object
-        const mcp_json_t* params_obj = (const mcp_json_t*)request->params;
-        if (mcp_json_get_type(params_obj) != MCP_JSON_OBJECT) return NULL;
+        // A request carries its params as JSON text
+        mcp_json_t* params_obj = mcp_json_parse((const char*)request->params);
+        if (!params_obj || mcp_json_get_type(params_obj) != MCP_JSON_OBJECT) {
+            mcp_json_destroy(params_obj);
+            return NULL;
+        }
 
         mcp_json_t* name_node = mcp_json_object_get_property(params_obj, "name");
         const char* name_str = NULL;
         if (!name_node || mcp_json_get_type(name_node) != MCP_JSON_STRING || mcp_json_get_string(name_node, &name_str) != 0 || !name_str) {
+            mcp_json_destroy(params_obj);
             return NULL; // Invalid params for call_tool
         }
 
@@ -86,12 +97,14 @@ const mcp_backend_info_t* find_backend_for_request(
                 const char* tool_name = backend->routing.tool_names[j];
                 if (tool_name && strcmp(name_str, tool_name) == 0) {
                     mcp_log_debug("Routing tool '%s' to backend '%s'", name_str, backend->name);
+                    mcp_json_destroy(params_obj);
                     return backend; // Found match
                 }
             }
             // TODO: Add regex matching for tool names if needed
         }
         mcp_log_debug("No backend route found for tool '%s'", name_str);
+        mcp_json_destroy(params_obj);
         return NULL; // No match found
     }
 
-- 
2.43.0


From 608c7ccebb2298331bef1c28db80be83be01c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:32 +0000
Subject: [PATCH 094/167] fix: look up the backend of each gateway request

Look-ups were cached by method, so after the first tool call or resource
read every other one went to the same backend. The cache was also read
without the lock while a reload emptied it.
---
 src/gateway/mcp_gateway_config_manager.c | 90 ++----------------------
 1 file changed, 4 insertions(+), 86 deletions(-)

diff --git a/src/gateway/mcp_gateway_config_manager.c b/src/gateway/mcp_gateway_config_manager.c
index 42d418c..1968d98 100644
--- a/src/gateway/mcp_gateway_config_manager.c
+++ b/src/gateway/mcp_gateway_config_manager.c
@@ -8,19 +8,10 @@
 #include "mcp_gateway_routing.h"
 #include "mcp_log.h"
 #include "mcp_rwlock.h"
-#include "mcp_hashtable.h"
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
 
-/**
- * @brief Structure for method-to-backend cache entry
- */
-typedef struct {
-    char* method;                      /**< Method name (key) */
-    const mcp_backend_info_t* backend; /**< Pointer to backend (not owned) */
-} method_backend_cache_entry_t;
-
 /**
  * @brief Internal structure for the gateway configuration manager
  */
@@ -29,25 +20,8 @@ struct gateway_config_manager {
     mcp_rwlock_t* config_lock;         /**< Read-write lock for thread-safe access */
     mcp_backend_info_t* backend_list;  /**< Array of backend configurations */
     size_t backend_count;              /**< Number of backends in the list */
-    mcp_hashtable_t* method_cache;     /**< Cache for method-to-backend mapping */
 };
 
-// We use the standard string hash and compare functions from mcp_hashtable.h
-
-/**
- * @brief Free function for cache entries
- *
- * This function matches the mcp_value_free_func_t signature
- */
-static void cache_entry_free(void* entry) {
-    if (entry) {
-        method_backend_cache_entry_t* cache_entry = (method_backend_cache_entry_t*)entry;
-        // Note: Don't free method string as it's owned by the hashtable key management
-        // Note: Don't free backend as it's owned by the config
-        free(cache_entry);
-    }
-}
-
 /**
  * @brief Creates a new gateway configuration manager
  */
@@ -68,18 +42,11 @@ gateway_config_manager_t* gateway_config_manager_create(const char* config_path)
     manager->config_lock = mcp_rwlock_create();
     manager->backend_list = NULL;
     manager->backend_count = 0;
-    manager->method_cache = mcp_hashtable_create(64, 0.75f,
-                                                 mcp_hashtable_string_hash,
-                                                 mcp_hashtable_string_compare,
-                                                 mcp_hashtable_string_dup,
-                                                 mcp_hashtable_string_free,
-                                                 cache_entry_free);
-
-    if (!manager->config_path || !manager->config_lock || !manager->method_cache) {
+
+    if (!manager->config_path || !manager->config_lock) {
         mcp_log_error("Failed to initialize gateway config manager");
         if (manager->config_path) free(manager->config_path);
         mcp_rwlock_free(manager->config_lock);
-        if (manager->method_cache) mcp_hashtable_destroy(manager->method_cache);
         free(manager);
         return NULL;
     }
@@ -120,7 +87,6 @@ void gateway_config_manager_destroy(gateway_config_manager_t* manager) {
     // Free resources
     if (manager->config_path) free(manager->config_path);
     mcp_rwlock_free(manager->config_lock);
-    if (manager->method_cache) mcp_hashtable_destroy(manager->method_cache);
     free(manager);
 
     mcp_log_info("Gateway configuration manager destroyed");
@@ -182,12 +148,6 @@ mcp_error_code_t gateway_config_manager_reload(gateway_config_manager_t* manager
     manager->backend_list = new_backend_list;
     manager->backend_count = new_backend_count;
 
-    // Clear the method cache since backend list has changed
-    if (manager->method_cache) {
-        mcp_hashtable_clear(manager->method_cache);
-        mcp_log_debug("Method-to-backend cache cleared due to configuration reload");
-    }
-
     // Release write lock
     mcp_rwlock_write_unlock(manager->config_lock);
 
@@ -197,8 +157,6 @@ mcp_error_code_t gateway_config_manager_reload(gateway_config_manager_t* manager
 
 /**
  * @brief Finds a backend for a given request
- *
- * Optimized implementation using method-to-backend cache for faster lookups
  */
 const mcp_backend_info_t* gateway_config_manager_find_backend(
     gateway_config_manager_t* manager,
@@ -208,56 +166,16 @@ const mcp_backend_info_t* gateway_config_manager_find_backend(
         return NULL;
     }
 
-    const mcp_backend_info_t* backend = NULL;
-    method_backend_cache_entry_t* cache_entry = NULL;
-
-    // First check the cache (without locking)
-    if (manager->method_cache) {
-        void* entry_ptr = NULL;
-        if (mcp_hashtable_get(manager->method_cache, request->method, &entry_ptr) == 0 && entry_ptr) {
-            cache_entry = (method_backend_cache_entry_t*)entry_ptr;
-            backend = cache_entry->backend;
-
-            // If we found a valid backend in the cache, return it immediately
-            if (backend) {
-                mcp_log_debug("Cache hit for method '%s' -> backend '%s'",
-                             request->method, backend->name);
-                return backend;
-            }
-        }
-    }
-
-    // Cache miss, acquire read lock
+    // The backend depends on the parameters as well as the method, so each request is looked up
     mcp_rwlock_read_lock(manager->config_lock);
 
-    // Find backend using the routing logic
-    backend = find_backend_for_request(
+    const mcp_backend_info_t* backend = find_backend_for_request(
         request,
         manager->backend_list,
         manager->backend_count
     );
 
-    // Release read lock before updating cache
     mcp_rwlock_read_unlock(manager->config_lock);
 
-    // Update the cache with the result (even if NULL, to cache negative results)
-    if (manager->method_cache && request->method) {
-        // Create a new cache entry
-        cache_entry = (method_backend_cache_entry_t*)malloc(sizeof(method_backend_cache_entry_t));
-        if (cache_entry) {
-            cache_entry->method = mcp_strdup(request->method);
-            cache_entry->backend = backend;
-
-            if (cache_entry->method) {
-                // Add to cache (will replace any existing entry)
-                mcp_hashtable_put(manager->method_cache, cache_entry->method, cache_entry);
-                mcp_log_debug("Added cache entry for method '%s'", request->method);
-            } else {
-                // Failed to duplicate method string
-                free(cache_entry);
-            }
-        }
-    }
-
     return backend;
 }
-- 
2.43.0


From b166151979309a9d9de80a24ecf1829b9f832ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:51 +0000
Subject: [PATCH 095/167] fix: reject gateway configuration files with NUL
 bytes

The parser only saw the text before the first NUL byte, so whatever
followed in the file was silently ignored.
---
 src/gateway/mcp_gateway_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gateway/mcp_gateway_config.c b/src/gateway/mcp_gateway_config.c
index b4ad812..922c45b 100644
--- a/src/gateway/mcp_gateway_config.c
+++ b/src/gateway/mcp_gateway_config.c
@@ -264,8 +264,8 @@ mcp_error_code_t load_gateway_config(
 
     file_content[content_size] = '\0'; // Null-terminate
 
-    // 2. Parse JSON
-    root_json = mcp_json_parse(file_content);
+    // 2. Parse JSON; the parser stops at a NUL byte, which has no place in JSON
+    root_json = strlen(file_content) == content_size ? mcp_json_parse(file_content) : NULL;
     free(file_content); // Free the raw file content buffer
     file_content = NULL;
 
-- 
2.43.0


From 697c1981e3a59aac1557bf806fb3e0bbb0924d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:51 +0000
Subject: [PATCH 096/167] fix: reject gateway settings of the wrong type

Routing lists that were not lists and timeouts that were not numbers were
silently ignored, so the backend was loaded without them. A timeout too
large for its field was converted with undefined behaviour.
---
 src/gateway/mcp_gateway_config.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/gateway/mcp_gateway_config.c b/src/gateway/mcp_gateway_config.c
index 922c45b..1f60e2c 100644
--- a/src/gateway/mcp_gateway_config.c
+++ b/src/gateway/mcp_gateway_config.c
@@ -64,11 +64,15 @@ void mcp_free_backend_list(mcp_backend_info_t* backend_list, size_t backend_coun
 
 // Helper to parse a JSON string array into a char**
 static mcp_error_code_t parse_string_array(mcp_json_t* json_array, char*** out_array, size_t* out_count) {
-    if (!json_array || mcp_json_get_type(json_array) != MCP_JSON_ARRAY) {
+    if (!json_array || mcp_json_get_type(json_array) == MCP_JSON_NULL) {
         *out_array = NULL;
         *out_count = 0;
         return MCP_ERROR_NONE; // Not an error if the array is missing/null
     }
+    if (mcp_json_get_type(json_array) != MCP_JSON_ARRAY) {
+        mcp_log_error("Gateway config: Expected an array of strings");
+        return MCP_ERROR_PARSE_ERROR;
+    }
 
     size_t count = mcp_json_array_get_size(json_array);
     if (count == 0) {
@@ -116,9 +120,13 @@ static mcp_error_code_t parse_and_compile_regex_array(
     *out_compiled_regexes = NULL;
     *out_count = 0;
 
-    if (!json_array || mcp_json_get_type(json_array) != MCP_JSON_ARRAY) {
+    if (!json_array || mcp_json_get_type(json_array) == MCP_JSON_NULL) {
         return MCP_ERROR_NONE; // Missing array is not an error
     }
+    if (mcp_json_get_type(json_array) != MCP_JSON_ARRAY) {
+        mcp_log_error("Gateway config: Expected an array of regex patterns");
+        return MCP_ERROR_PARSE_ERROR;
+    }
 
     size_t count = mcp_json_array_get_size(json_array);
     if (count == 0) {
@@ -377,10 +385,15 @@ mcp_error_code_t load_gateway_config(
         // --- Parse optional fields ---
         mcp_json_t* timeout_node = mcp_json_object_get_property(backend_obj, "timeout_ms");
         double timeout_val = 0;
-        if (timeout_node && mcp_json_get_type(timeout_node) == MCP_JSON_NUMBER && mcp_json_get_number(timeout_node, &timeout_val) == 0) {
+        if (!timeout_node || mcp_json_get_type(timeout_node) == MCP_JSON_NULL) {
+            current_backend->timeout_ms = 0; // Default
+        } else if (mcp_json_get_type(timeout_node) == MCP_JSON_NUMBER &&
+                   mcp_json_get_number(timeout_node, &timeout_val) == 0 &&
+                   timeout_val <= (double)UINT32_MAX) {
             current_backend->timeout_ms = (timeout_val > 0) ? (uint32_t)timeout_val : 0;
         } else {
-            current_backend->timeout_ms = 0; // Default
+            mcp_log_error("Gateway config: Backend '%s' has an invalid 'timeout_ms'.", name_str);
+            err = MCP_ERROR_PARSE_ERROR; goto cleanup_error;
         }
 
         // TODO: Parse credentials later
-- 
2.43.0


From 09b48e2207d53b61be359d46a9e237c0572344a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:04 +0000
Subject: [PATCH 097/167] fix: answer gateway requests with complete responses

The caller received the bare result of the backend instead of a JSON-RPC
response under its own request id, and the backend's errors were replaced
by a transport error. Requests kept the caller's id on the shared
connection, so id 0 could not be sent at all and a late answer for one
caller could be taken for the answer to another one's request.
---
 src/gateway/mcp_gateway_routing.c | 72 +++++++++++++++++++------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/src/gateway/mcp_gateway_routing.c b/src/gateway/mcp_gateway_routing.c
index 890f1c2..1aaf85d 100644
--- a/src/gateway/mcp_gateway_routing.c
+++ b/src/gateway/mcp_gateway_routing.c
@@ -159,12 +159,12 @@ char* gateway_forward_request(
     // Prepare parameters string (use empty object if NULL)
     const char* params_str = (request->params != NULL) ? (const char*)request->params : "{}";
 
-    // Send the request to the backend
-    int send_status = mcp_client_send_raw_request(
+    // Send the request to the backend. The connection numbers its own requests,
+    // as the ids of different callers may be equal.
+    int send_status = mcp_client_send_request(
         client_handle,
         request->method,
         params_str,
-        request->id,
         &backend_response_json,
         &backend_error_code,
         &backend_error_message
@@ -175,35 +175,51 @@ char* gateway_forward_request(
     client_handle = NULL; // Avoid using after release
 
     // Process the result based on status
-    if (send_status == 0) {
-        if (backend_error_code != MCP_ERROR_NONE) {
-            // Backend returned an error
-            mcp_log_warn("Backend '%s' returned error for request ID %llu: %d (%s)",
-                         target_backend->name, (unsigned long long)request->id,
-                         backend_error_code, backend_error_message ? backend_error_message : "N/A");
-
-            // Create error response
-            *error_code_out = backend_error_code;
-            char* error_response = mcp_json_create_error_response(
-                request->id,
-                backend_error_code,
-                backend_error_message
-            );
+    if (backend_error_code != MCP_ERROR_NONE && backend_error_code != MCP_ERROR_TRANSPORT_ERROR) {
+        // Backend returned an error
+        mcp_log_warn("Backend '%s' returned error for request ID %llu: %d (%s)",
+                     target_backend->name, (unsigned long long)request->id,
+                     backend_error_code, backend_error_message ? backend_error_message : "N/A");
 
-            // Clean up
-            free(backend_response_json);
-            free(backend_error_message);
+        // Create error response
+        *error_code_out = backend_error_code;
+        char* error_response = mcp_json_create_error_response(
+            request->id,
+            backend_error_code,
+            backend_error_message
+        );
 
-            return error_response;
-        } else {
-            // Backend returned success
-            mcp_log_debug("Successfully received response from backend '%s' for request ID %llu.",
-                          target_backend->name, (unsigned long long)request->id);
+        // Clean up
+        free(backend_response_json);
+        free(backend_error_message);
 
-            // Clean up and return success
-            free(backend_error_message);
-            return backend_response_json;
+        return error_response;
+    } else if (send_status == 0) {
+        // Backend returned success
+        mcp_log_debug("Successfully received response from backend '%s' for request ID %llu.",
+                      target_backend->name, (unsigned long long)request->id);
+
+        // Answer the caller's request with the backend's result
+        mcp_message_t message;
+        memset(&message, 0, sizeof(message));
+        message.type = MCP_MESSAGE_TYPE_RESPONSE;
+        message.response.id = request->id;
+        message.response.error_code = MCP_ERROR_NONE;
+        message.response.result = backend_response_json;
+        char* response = mcp_json_stringify_message(&message);
+
+        // Clean up and return success
+        free(backend_response_json);
+        free(backend_error_message);
+        if (response == NULL) {
+            *error_code_out = MCP_ERROR_INTERNAL_ERROR;
+            return mcp_json_create_error_response(
+                request->id,
+                *error_code_out,
+                "Gateway failed to create the response."
+            );
         }
+        return response;
     } else {
         // Communication failed
         mcp_log_error("Failed to forward request to backend '%s' (status: %d).",
-- 
2.43.0


From 5bca340a726dcd31e3c90bfcbb7945922cee610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:35 +0000
Subject: [PATCH 098/167] fix: wake gateway callers waiting for a connection

A caller waiting for a free connection was only woken when one was put
back, not when a connection was closed or could not be opened, and then
waited for ever. When a connection could not be opened the pool's mutex
was unlocked twice, and closing a timed-out connection continued with a
list node that another thread may have freed.
---
 src/gateway/mcp_gateway_pool.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gateway/mcp_gateway_pool.c b/src/gateway/mcp_gateway_pool.c
index b0d0ca0..058cee1 100644
--- a/src/gateway/mcp_gateway_pool.c
+++ b/src/gateway/mcp_gateway_pool.c
@@ -340,11 +340,13 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
                 pool->total_count--;
                 mcp_client_t* client_to_destroy = idle_node->client;
                 idle_connection_node_t* node_to_free = idle_node;
-                idle_node = idle_node->next;
                 mcp_mutex_unlock(pool->pool_lock); // Unlock before destroy
                 mcp_client_destroy(client_to_destroy);
                 free(node_to_free);
                 mcp_mutex_lock(pool->pool_lock); // Relock
+                // The list may have changed meanwhile
+                prev_idle_node = NULL;
+                idle_node = pool->idle_list;
             } else {
                 if (prev_idle_node) {
                     prev_idle_node->next = idle_node->next;
@@ -408,7 +410,7 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
                 mcp_log_error("Failed to create transport for %s", pool->backend_address);
                 mcp_mutex_lock(pool->pool_lock);
                 pool->total_count--;
-                mcp_mutex_unlock(pool->pool_lock);
+                mcp_cond_signal(pool->pool_cond); // Let a waiting getter try
                 goto found_connection; // Exit loop, client_connection is NULL
             }
 
@@ -419,7 +421,7 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
                 mcp_log_error("Failed to create client for %s", pool->backend_address);
                 mcp_mutex_lock(pool->pool_lock);
                 pool->total_count--;
-                mcp_mutex_unlock(pool->pool_lock);
+                mcp_cond_signal(pool->pool_cond); // Let a waiting getter try
                 goto found_connection; // Exit loop, client_connection is NULL
             }
 
@@ -547,6 +549,7 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
             // Too many idle connections, destroy this one
             if (pool->active_count > 0) pool->active_count--;
             if (pool->total_count > 0) pool->total_count--;
+            mcp_cond_signal(pool->pool_cond); // Its place is free for a waiting getter
             mcp_mutex_unlock(pool->pool_lock);
             mcp_client_destroy(client);
             mcp_log_debug("Too many idle connections (%zu/%zu), destroyed connection for %s",
@@ -572,6 +575,7 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
             if (pool->active_count > 0) pool->active_count--;
             // Decrement total_count as the connection is being destroyed
             if (pool->total_count > 0) pool->total_count--;
+            mcp_cond_signal(pool->pool_cond); // Its place is free for a waiting getter
             mcp_mutex_unlock(pool->pool_lock);
             mcp_client_destroy(client);
             return;
@@ -581,6 +585,7 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
         mcp_log_warn("Connection to %s is unhealthy, destroying it", pool->backend_address);
         if (pool->active_count > 0) pool->active_count--;
         if (pool->total_count > 0) pool->total_count--;
+        mcp_cond_signal(pool->pool_cond); // Its place is free for a waiting getter
         mcp_mutex_unlock(pool->pool_lock);
         mcp_client_destroy(client);
         return;
-- 
2.43.0


From e40cb19d7b5a2c07cb160a3c031ff5e203dc38fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:29 +0000
Subject: [PATCH 099/167] fix: replace broken gateway connections

A connection that failed was put back into its pool and given out again
for as long as it was used, so requests kept failing after the backend
could be reached again. Closing such a connection also waited for its
reconnection delays. The health check never succeeded because it used the
reserved request id 0.
---
 include/mcp_gateway_pool.h        |  9 ++++++++
 src/gateway/mcp_gateway_pool.c    | 36 +++++++++++++++++++++++++++----
 src/gateway/mcp_gateway_routing.c |  9 ++++++--
 3 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/include/mcp_gateway_pool.h b/include/mcp_gateway_pool.h
index c29abac..c47f875 100644
--- a/include/mcp_gateway_pool.h
+++ b/include/mcp_gateway_pool.h
@@ -63,6 +63,15 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
  */
 void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_backend_info_t* backend_info, void* connection_handle);
 
+/**
+ * @brief Closes a connection that failed instead of returning it to its pool.
+ *
+ * @param manager Pointer to the pool manager.
+ * @param backend_info Information about the backend the connection belongs to.
+ * @param connection_handle The connection handle previously obtained from gateway_pool_get_connection.
+ */
+void gateway_pool_discard_connection(gateway_pool_manager_t* manager, const mcp_backend_info_t* backend_info, void* connection_handle);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/gateway/mcp_gateway_pool.c b/src/gateway/mcp_gateway_pool.c
index 058cee1..c8e140b 100644
--- a/src/gateway/mcp_gateway_pool.c
+++ b/src/gateway/mcp_gateway_pool.c
@@ -19,6 +19,9 @@
 #define DEFAULT_IDLE_TIMEOUT_MS 60000 // 60 seconds
 #define DEFAULT_GET_TIMEOUT_MS -1 // Default: wait indefinitely for get_connection
 
+// A broken connection is discarded and replaced rather than reconnected
+static const mcp_reconnect_config_t pool_reconnect_config = { .enable_reconnect = false };
+
 // Structure to represent an idle connection node in the list
 typedef struct idle_connection_node {
     mcp_client_t* client;
@@ -225,7 +228,7 @@ static backend_pool_t* create_backend_pool(const mcp_backend_info_t* backend_inf
             // Create min_connections connections
             for (size_t i = 0; i < pool->min_connections; i++) {
                 // Create transport
-                mcp_transport_t* transport = mcp_transport_tcp_client_create(host_buffer, port_part);
+                mcp_transport_t* transport = mcp_tcp_client_create_reconnect(host_buffer, port_part, &pool_reconnect_config);
                 if (!transport) {
                     mcp_log_error("Failed to create transport for pre-population: %s", pool->backend_address);
                     continue;
@@ -401,7 +404,7 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
             // Create transport
             mcp_transport_t* transport = NULL;
             if (port_part > 0 && host_buffer[0] != '\0') {
-                transport = mcp_transport_tcp_client_create(host_buffer, port_part);
+                transport = mcp_tcp_client_create_reconnect(host_buffer, port_part, &pool_reconnect_config);
             } else {
                 mcp_log_error("Invalid host or port in address: %s", pool->backend_address);
             }
@@ -485,11 +488,10 @@ static bool is_connection_healthy(mcp_client_t* client) {
     mcp_error_code_t error_code = MCP_ERROR_NONE;
     char* error_message = NULL;
 
-    int result = mcp_client_send_raw_request(
+    int result = mcp_client_send_request(
         client,
         "ping",  // Use the standard ping method
         "{}",    // Empty params
-        0,       // Use 0 as ID for health check
         &response,
         &error_code,
         &error_message
@@ -593,3 +595,29 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
 
     mcp_mutex_unlock(pool->pool_lock);
 }
+
+// Implementation of gateway_pool_discard_connection
+void gateway_pool_discard_connection(gateway_pool_manager_t* manager, const mcp_backend_info_t* backend_info, void* connection_handle) {
+    if (!manager || !backend_info || !backend_info->address || !connection_handle) {
+        mcp_log_error("gateway_pool_discard_connection: Invalid arguments.");
+        return;
+    }
+
+    backend_pool_t* pool = NULL;
+
+    mcp_mutex_lock(manager->manager_lock);
+    if (mcp_hashtable_get(manager->backend_pools, backend_info->address, (void**)&pool) != 0) {
+        pool = NULL;
+    }
+    mcp_mutex_unlock(manager->manager_lock);
+
+    if (pool) {
+        mcp_mutex_lock(pool->pool_lock);
+        if (pool->active_count > 0) pool->active_count--;
+        if (pool->total_count > 0) pool->total_count--;
+        mcp_cond_signal(pool->pool_cond); // Its place is free for a waiting getter
+        mcp_mutex_unlock(pool->pool_lock);
+    }
+
+    mcp_client_destroy((mcp_client_t*)connection_handle);
+}
diff --git a/src/gateway/mcp_gateway_routing.c b/src/gateway/mcp_gateway_routing.c
index 1aaf85d..a6e026a 100644
--- a/src/gateway/mcp_gateway_routing.c
+++ b/src/gateway/mcp_gateway_routing.c
@@ -170,8 +170,13 @@ char* gateway_forward_request(
         &backend_error_message
     );
 
-    // Always release the connection back to the pool
-    gateway_pool_release_connection(pool_manager, target_backend, client_handle);
+    // Release the connection back to the pool unless it failed
+    if (send_status != 0 &&
+        (backend_error_code == MCP_ERROR_NONE || backend_error_code == MCP_ERROR_TRANSPORT_ERROR)) {
+        gateway_pool_discard_connection(pool_manager, target_backend, client_handle);
+    } else {
+        gateway_pool_release_connection(pool_manager, target_backend, client_handle);
+    }
     client_handle = NULL; // Avoid using after release
 
     // Process the result based on status
-- 
2.43.0


From 45ac4b39aba6c7aa372434aea6d3cc4918cab45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:23 +0000
Subject: [PATCH 100/167] fix: keep the messages of concurrent TCP client
 senders apart

The receiver thread of a new connection sends a ping while the caller
already sends its first request. When the request did not fit into the
socket's buffer the ping ended up in the middle of it.
---
 .../internal/tcp_client_transport_internal.h  |  1 +
 src/transport/mcp_tcp_client_receiver.c       |  2 ++
 src/transport/mcp_tcp_client_transport.c      | 23 ++++++++++++++++---
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/transport/internal/tcp_client_transport_internal.h b/src/transport/internal/tcp_client_transport_internal.h
index 22be15e..efd3c12 100644
--- a/src/transport/internal/tcp_client_transport_internal.h
+++ b/src/transport/internal/tcp_client_transport_internal.h
@@ -39,6 +39,7 @@ typedef struct {
     bool connected;
     mcp_transport_t* transport_handle; // Pointer back to the main handle (contains callbacks)
     mcp_thread_t receive_thread;
+    mcp_mutex_t* send_mutex; // Mutex to keep the messages of concurrent senders apart
     mcp_buffer_pool_t* buffer_pool; // Buffer pool for message buffers
 
     // Reconnection support
diff --git a/src/transport/mcp_tcp_client_receiver.c b/src/transport/mcp_tcp_client_receiver.c
index c0f84a6..da4c230 100644
--- a/src/transport/mcp_tcp_client_receiver.c
+++ b/src/transport/mcp_tcp_client_receiver.c
@@ -94,7 +94,9 @@ static int send_ping_message(mcp_tcp_client_transport_data_t* data) {
 
     // Send using the socket utility function
     mcp_log_debug("Sending ping message (length: %u bytes)", content_length);
+    mcp_mutex_lock(data->send_mutex);
     int send_status = mcp_socket_send_vectors(data->sock, iov, 2, NULL);
+    mcp_mutex_unlock(data->send_mutex);
 
     if (send_status != 0) {
         int error_code = mcp_socket_get_lasterror();
diff --git a/src/transport/mcp_tcp_client_transport.c b/src/transport/mcp_tcp_client_transport.c
index d63d03f..f2c1086 100644
--- a/src/transport/mcp_tcp_client_transport.c
+++ b/src/transport/mcp_tcp_client_transport.c
@@ -264,6 +264,12 @@ static void free_transport_resources(mcp_tcp_client_transport_data_t* data) {
         mcp_mutex_destroy(data->reconnect_mutex);
         data->reconnect_mutex = NULL;
     }
+
+    // Destroy send mutex
+    if (data->send_mutex) {
+        mcp_mutex_destroy(data->send_mutex);
+        data->send_mutex = NULL;
+    }
 }
 
 /**
@@ -409,7 +415,9 @@ static int tcp_client_transport_send(mcp_transport_t* transport, const void* dat
     mcp_log_debug("Sending %zu bytes to %s:%u", size, data->host, data->port);
 
     // Use the unified exact send helper
+    mcp_mutex_lock(data->send_mutex);
     int result = mcp_socket_send_exact(data->sock, (const char*)data_buf, size, NULL);
+    mcp_mutex_unlock(data->send_mutex);
     if (result != 0) {
         return handle_send_error(transport, "Failed to send data");
     }
@@ -487,7 +495,9 @@ static int tcp_client_transport_sendv(mcp_transport_t* transport, const mcp_buff
                  total_bytes, buffer_count, data->host, data->port);
 
     // Use the unified vectored send function
+    mcp_mutex_lock(data->send_mutex);
     int result = mcp_socket_send_vectors(data->sock, iov, (int)buffer_count, NULL);
+    mcp_mutex_unlock(data->send_mutex);
 
     // Free the iovec array
     free(iov);
@@ -713,10 +723,15 @@ static int init_tcp_client_data(
     data->state_callback = NULL;
     data->state_callback_user_data = NULL;
 
-    // Initialize mutex for thread synchronization
+    // Initialize mutexes for thread synchronization
     data->reconnect_mutex = mcp_mutex_create();
-    if (data->reconnect_mutex == NULL) {
-        mcp_log_error("Failed to create reconnection mutex");
+    data->send_mutex = mcp_mutex_create();
+    if (data->reconnect_mutex == NULL || data->send_mutex == NULL) {
+        mcp_log_error("Failed to create client transport mutexes");
+        mcp_mutex_destroy(data->reconnect_mutex);
+        data->reconnect_mutex = NULL;
+        mcp_mutex_destroy(data->send_mutex);
+        data->send_mutex = NULL;
         free(data->host);
         data->host = NULL;
         return -1;
@@ -728,6 +743,8 @@ static int init_tcp_client_data(
         mcp_log_error("Failed to create buffer pool");
         mcp_mutex_destroy(data->reconnect_mutex);
         data->reconnect_mutex = NULL;
+        mcp_mutex_destroy(data->send_mutex);
+        data->send_mutex = NULL;
         free(data->host);
         data->host = NULL;
         return -1;
-- 
2.43.0


From 9f5b86d6abea074c84823fdc9acdb6e5d4300080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:33 +0000
Subject: [PATCH 101/167] fix: send streamable HTTP events of any length and
 with line breaks in their data

---
 src/transport/mcp_sthttp_utils.c | 69 ++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/src/transport/mcp_sthttp_utils.c b/src/transport/mcp_sthttp_utils.c
index 9fae4cb..8e24e37 100644
--- a/src/transport/mcp_sthttp_utils.c
+++ b/src/transport/mcp_sthttp_utils.c
@@ -467,54 +467,63 @@ int send_sse_event(struct lws* wsi, const char* event_id, const char* event_type
         return -1;
     }
 
-    char buffer[4096];
+    // Each line of the data becomes a data field of its own
+    size_t data_size = 0;
+    if (data != NULL) {
+        size_t line_count = 1;
+        for (const char* c = data; *c != '\0'; c++) {
+            if (*c == '\n' || *c == '\r') {
+                line_count++;
+            }
+        }
+        data_size = strlen(data) + line_count * (sizeof("data: \n") - 1);
+    }
+
+    size_t size = (event_id ? strlen(event_id) + sizeof("id: \n") : 0) +
+                  (event_type ? strlen(event_type) + sizeof("event: \n") : 0) +
+                  data_size + sizeof("\n");
+    char* buffer = (char*)malloc(size);
+    if (buffer == NULL) {
+        mcp_log_error("Failed to allocate SSE event buffer");
+        return -1;
+    }
     size_t offset = 0;
 
     // Add event ID if provided
     if (event_id != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "id: %s\n", event_id);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (id)");
-            return -1;
-        }
-        offset += written;
+        offset += (size_t)snprintf(buffer + offset, size - offset, "id: %s\n", event_id);
     }
 
     // Add event type if provided
     if (event_type != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "event: %s\n", event_type);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (event)");
-            return -1;
-        }
-        offset += written;
+        offset += (size_t)snprintf(buffer + offset, size - offset, "event: %s\n", event_type);
     }
 
     // Add data (required)
-    if (data != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "data: %s\n", data);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (data)");
-            return -1;
+    const char* line = data;
+    while (line != NULL) {
+        size_t line_len = strcspn(line, "\r\n");
+        memcpy(buffer + offset, "data: ", sizeof("data: ") - 1);
+        offset += sizeof("data: ") - 1;
+        memcpy(buffer + offset, line, line_len);
+        offset += line_len;
+        buffer[offset++] = '\n';
+
+        const char* line_end = line + line_len;
+        if (*line_end == '\0') {
+            break;
         }
-        offset += written;
+        line = line_end + (line_end[0] == '\r' && line_end[1] == '\n' ? 2 : 1);
     }
 
     // Add final newline
-    if (offset < sizeof(buffer) - 1) {
-        buffer[offset++] = '\n';
-        buffer[offset] = '\0';
-    } else {
-        mcp_log_error("SSE event buffer overflow (final newline)");
-        return -1;
-    }
+    buffer[offset++] = '\n';
 
     // Send the event
-    if (lws_write(wsi, (unsigned char*)buffer, offset, LWS_WRITE_HTTP) < 0) {
-        return -1;
-    }
+    int result = lws_write(wsi, (unsigned char*)buffer, offset, LWS_WRITE_HTTP);
+    free(buffer);
 
-    return 0;
+    return result < 0 ? -1 : 0;
 }
 
 /**
-- 
2.43.0


From 676ec0bdb925764dc4bf13f4b436013e5fb48e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:25 +0000
Subject: [PATCH 102/167] fix: keep streamable HTTP event streams open beyond
 the request timeout

---
 src/transport/mcp_sthttp_threads.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 3aa7d98..5008468 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -387,6 +387,9 @@ int handle_mcp_get_request(struct lws* wsi, sthttp_transport_data_t* data, sthtt
         return -1;
     }
 
+    // The stream stays open until one side closes it
+    lws_set_timeout(wsi, NO_PENDING_TIMEOUT, 0);
+
     // Add to dynamic SSE clients list
     if (dynamic_sse_clients_add(data->sse_clients, wsi) != 0) {
         mcp_log_error("Failed to add SSE client to dynamic array");
-- 
2.43.0


From 05165c5d4fc3bd89303ea1afabc5d748fec147e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:25 +0000
Subject: [PATCH 103/167] fix: do not crash on DELETE requests to the
 streamable HTTP endpoint

---
 src/transport/mcp_sthttp_threads.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 5008468..3c0e8e7 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -177,7 +177,9 @@ int handle_mcp_endpoint_request(struct lws* wsi, sthttp_transport_data_t* data,
         strncpy(method, "OPTIONS", sizeof(method) - 1);
     } else {
         // Try to determine method from other headers
-        int method_idx = lws_http_get_uri_and_method(wsi, NULL, NULL);
+        char* uri_ptr = NULL;
+        int uri_len = 0;
+        int method_idx = lws_http_get_uri_and_method(wsi, &uri_ptr, &uri_len);
         switch (method_idx) {
             case LWSHUMETH_GET:
                 strncpy(method, "GET", sizeof(method) - 1);
-- 
2.43.0


From 307d5d01d7620a5a7d6ecd788ecb57472525dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:25 +0000
Subject: [PATCH 104/167] fix: leave room for all headers of streamable HTTP
 responses

---
 src/transport/internal/sthttp_transport_internal.h | 2 +-
 src/transport/mcp_sthttp_threads.c                 | 6 +++---
 src/transport/mcp_sthttp_utils.c                   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index f3a1353..e130c67 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -52,7 +52,7 @@ extern "C" {
 #define HTTP_STATUS_INTERNAL_SERVER_ERROR 500
 
 // Buffer sizes
-#define HTTP_HEADER_BUFFER_SIZE 512
+#define HTTP_HEADER_BUFFER_SIZE 4096
 #define HTTP_ORIGIN_BUFFER_SIZE 256
 #define HTTP_SESSION_ID_BUFFER_SIZE 128
 #define HTTP_LAST_EVENT_ID_BUFFER_SIZE 64
diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 3c0e8e7..509c38e 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -338,7 +338,7 @@ int handle_mcp_get_request(struct lws* wsi, sthttp_transport_data_t* data, sthtt
 
     // Prepare SSE response headers
     mcp_log_debug("handle_mcp_get_request: Preparing SSE response headers");
-    unsigned char headers[1024];  // Increased buffer size
+    unsigned char headers[HTTP_HEADER_BUFFER_SIZE];
     unsigned char* p = headers;
     unsigned char* end = headers + sizeof(headers);
 
@@ -446,7 +446,7 @@ int handle_mcp_delete_request(struct lws* wsi, sthttp_transport_data_t* data, st
     bool terminated = mcp_session_manager_terminate_session(data->session_manager, session_data->session_id);
     if (terminated) {
         // Send 204 No Content response
-        unsigned char headers[256];
+        unsigned char headers[HTTP_HEADER_BUFFER_SIZE];
         unsigned char* p = headers;
         unsigned char* end = headers + sizeof(headers);
 
@@ -473,7 +473,7 @@ int handle_options_request(struct lws* wsi, sthttp_transport_data_t* data) {
     }
 
     // Prepare CORS response headers
-    unsigned char headers[512];
+    unsigned char headers[HTTP_HEADER_BUFFER_SIZE];
     unsigned char* p = headers;
     unsigned char* end = headers + sizeof(headers);
 
diff --git a/src/transport/mcp_sthttp_utils.c b/src/transport/mcp_sthttp_utils.c
index 8e24e37..09e86c7 100644
--- a/src/transport/mcp_sthttp_utils.c
+++ b/src/transport/mcp_sthttp_utils.c
@@ -354,7 +354,7 @@ int send_http_error_response(struct lws* wsi, int status_code, const char* messa
     }
 
     // Prepare response headers
-    unsigned char headers[512];
+    unsigned char headers[HTTP_HEADER_BUFFER_SIZE];
     unsigned char* p = headers;
     unsigned char* end = headers + sizeof(headers);
 
@@ -402,7 +402,7 @@ int send_http_json_response(struct lws* wsi, const char* json_data, const char*
     mcp_log_debug("send_http_json_response: sending %zu bytes of JSON data", strlen(json_data));
 
     // Prepare response headers
-    unsigned char headers[512];
+    unsigned char headers[HTTP_HEADER_BUFFER_SIZE];
     unsigned char* p = headers;
     unsigned char* end = headers + sizeof(headers);
 
-- 
2.43.0


From 5485111ffde41131974e0292119ac9d325275b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:25 +0000
Subject: [PATCH 105/167] fix: give streamable HTTP error and preflight
 responses a length

---
 src/transport/mcp_sthttp_threads.c | 4 ++++
 src/transport/mcp_sthttp_utils.c   | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 509c38e..f37622e 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -486,6 +486,10 @@ int handle_options_request(struct lws* wsi, sthttp_transport_data_t* data) {
         return -1;
     }
 
+    if (lws_add_http_header_content_length(wsi, 0, &p, end)) {
+        return -1;
+    }
+
     if (lws_finalize_http_header(wsi, &p, end)) {
         return -1;
     }
diff --git a/src/transport/mcp_sthttp_utils.c b/src/transport/mcp_sthttp_utils.c
index 09e86c7..bca34dd 100644
--- a/src/transport/mcp_sthttp_utils.c
+++ b/src/transport/mcp_sthttp_utils.c
@@ -367,6 +367,11 @@ int send_http_error_response(struct lws* wsi, int status_code, const char* messa
         return -1;
     }
 
+    const char* body = message ? message : status_text;
+    if (lws_add_http_header_content_length(wsi, strlen(body), &p, end)) {
+        return -1;
+    }
+
     if (lws_finalize_http_header(wsi, &p, end)) {
         return -1;
     }
@@ -377,7 +382,6 @@ int send_http_error_response(struct lws* wsi, int status_code, const char* messa
     }
 
     // Write body
-    const char* body = message ? message : status_text;
     if (lws_write(wsi, (unsigned char*)body, strlen(body), LWS_WRITE_HTTP) < 0) {
         return -1;
     }
-- 
2.43.0


From 0e246d15694cc9391eb5d04bb419799208898e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:04 +0000
Subject: [PATCH 106/167] fix: check long origins and the origin of DELETE
 requests on the streamable HTTP transport

---
 .../internal/sthttp_transport_internal.h      |  1 +
 src/transport/mcp_sthttp_callbacks.c          |  1 +
 src/transport/mcp_sthttp_threads.c            | 30 ++++++++++++++-----
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index e130c67..5eab5c8 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -199,6 +199,7 @@ typedef struct {
     
     // Origin validation
     char origin[HTTP_ORIGIN_BUFFER_SIZE];        /**< Origin header value */
+    bool origin_too_long;                        /**< Whether the Origin header did not fit into origin */
     bool origin_validated;                       /**< Whether origin has been validated */
 } sthttp_session_data_t;
 
diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index 8a89b14..c03037d 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -304,6 +304,7 @@ static void extract_origin_header(struct lws* wsi, sthttp_session_data_t* sessio
     } else {
         session->origin[0] = '\0';
     }
+    session->origin_too_long = origin_len < 0;
 }
 
 /**
diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index f37622e..0f9825c 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -216,6 +216,19 @@ int handle_mcp_endpoint_request(struct lws* wsi, sthttp_transport_data_t* data,
     }
 }
 
+/**
+ * @brief Check the Origin header of a request against the allowed origins
+ */
+static bool is_request_origin_allowed(sthttp_transport_data_t* data, const sthttp_session_data_t* session_data) {
+    if (!data->validate_origin) {
+        return true;
+    }
+    if (session_data->origin_too_long) {
+        return false;
+    }
+    return session_data->origin[0] == '\0' || validate_origin(data, session_data->origin);
+}
+
 /**
  * @brief Handle MCP endpoint POST request
  */
@@ -225,10 +238,8 @@ int handle_mcp_post_request(struct lws* wsi, sthttp_transport_data_t* data, stht
     }
 
     // Validate origin if required
-    if (data->validate_origin && session_data->origin[0] != '\0') {
-        if (!validate_origin(data, session_data->origin)) {
-            return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
-        }
+    if (!is_request_origin_allowed(data, session_data)) {
+        return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
     }
 
     // Check if we have a complete request body
@@ -288,10 +299,8 @@ int handle_mcp_get_request(struct lws* wsi, sthttp_transport_data_t* data, sthtt
     }
 
     // Validate origin if required
-    if (data->validate_origin && session_data->origin[0] != '\0') {
-        if (!validate_origin(data, session_data->origin)) {
-            return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
-        }
+    if (!is_request_origin_allowed(data, session_data)) {
+        return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
     }
 
     // Check Accept header
@@ -437,6 +446,11 @@ int handle_mcp_delete_request(struct lws* wsi, sthttp_transport_data_t* data, st
         return -1;
     }
 
+    // Validate origin if required
+    if (!is_request_origin_allowed(data, session_data)) {
+        return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
+    }
+
     // Session termination requires a session ID
     if (!session_data->has_session || data->session_manager == NULL) {
         return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Session termination requires a session");
-- 
2.43.0


From 26218d0c3513f805919f12de8538eeaf99bb78c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:19 +0000
Subject: [PATCH 107/167] fix: release the request bodies of streamable HTTP
 requests

---
 src/transport/mcp_sthttp_callbacks.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index c03037d..4140d48 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -37,6 +37,16 @@ static int lws_callback_sthttp(struct lws* wsi, enum lws_callback_reasons reason
             // Initialize session data
             return handle_wsi_create(wsi, session);
 
+        case LWS_CALLBACK_HTTP_DROP_PROTOCOL:
+            // The session data goes away with the end of each transaction
+            if (session != NULL) {
+                free(session->request_body);
+                session->request_body = NULL;
+                session->request_body_size = 0;
+                session->request_body_capacity = 0;
+            }
+            return 0;
+
         case LWS_CALLBACK_HTTP:
             {
                 // Main HTTP request handler
-- 
2.43.0


From ea5e1d5df8a6d5e1d67ba1f8917f4f242aeb4cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:05 +0000
Subject: [PATCH 108/167] fix: accept streamable HTTP notifications with status
 202

---
 .../internal/sthttp_transport_internal.h      |  2 +-
 src/transport/mcp_sthttp_threads.c            | 32 +++++++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index 5eab5c8..1867b1b 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -355,7 +355,7 @@ int handle_options_request(struct lws* wsi, sthttp_transport_data_t* data);
 /**
  * @brief Process JSON-RPC request and generate response
  */
-char* process_jsonrpc_request(sthttp_transport_data_t* data, const char* request_json, const char* session_id);
+char* process_jsonrpc_request(sthttp_transport_data_t* data, const char* request_json, const char* session_id, int* error_code_out);
 
 /**
  * @brief Extract session ID from headers
diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 0f9825c..78119d6 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -1,6 +1,7 @@
 #include "internal/sthttp_transport_internal.h"
 #include "mcp_log.h"
 #include "mcp_sys_utils.h"
+#include "mcp_types.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -125,7 +126,8 @@ void* sthttp_cleanup_thread_func(void* arg) {
 /**
  * @brief Process JSON-RPC request and generate response
  */
-char* process_jsonrpc_request(sthttp_transport_data_t* data, const char* request_json, const char* session_id) {
+char* process_jsonrpc_request(sthttp_transport_data_t* data, const char* request_json, const char* session_id, int* error_code_out) {
+    *error_code_out = MCP_ERROR_INTERNAL_ERROR;
     if (data == NULL || request_json == NULL) {
         return NULL;
     }
@@ -141,6 +143,7 @@ char* process_jsonrpc_request(sthttp_transport_data_t* data, const char* request
                                           request_json, 
                                           strlen(request_json), 
                                           &error_code);
+    *error_code_out = error_code;
     if (error_code != 0) {
         mcp_log_error("Message callback returned error: %d", error_code);
         if (response) {
@@ -229,6 +232,25 @@ static bool is_request_origin_allowed(sthttp_transport_data_t* data, const sthtt
     return session_data->origin[0] == '\0' || validate_origin(data, session_data->origin);
 }
 
+/**
+ * @brief Send an empty 202 response for a message that has no reply
+ */
+static int send_http_accepted_response(struct lws* wsi) {
+    unsigned char headers[HTTP_HEADER_BUFFER_SIZE];
+    unsigned char* p = headers;
+    unsigned char* end = headers + sizeof(headers);
+
+    if (lws_add_http_header_status(wsi, HTTP_STATUS_ACCEPTED, &p, end) ||
+        lws_add_http_header_content_length(wsi, 0, &p, end) ||
+        lws_finalize_http_header(wsi, &p, end) ||
+        lws_write(wsi, headers, p - headers, LWS_WRITE_HTTP_HEADERS) < 0 ||
+        lws_http_transaction_completed(wsi)) {
+        return -1;
+    }
+
+    return 0;
+}
+
 /**
  * @brief Handle MCP endpoint POST request
  */
@@ -253,8 +275,14 @@ int handle_mcp_post_request(struct lws* wsi, sthttp_transport_data_t* data, stht
     }
 
     // Process the JSON-RPC request
+    int error_code = 0;
     char* response = process_jsonrpc_request(data, session_data->request_body, 
-                                           session_data->has_session ? session_data->session_id : NULL);
+                                           session_data->has_session ? session_data->session_id : NULL,
+                                           &error_code);
+    if (response == NULL && error_code == 0) {
+        // Notifications and responses have no reply
+        return send_http_accepted_response(wsi);
+    }
     if (response == NULL) {
         return send_http_error_response(wsi, HTTP_STATUS_INTERNAL_SERVER_ERROR, "Failed to process request");
     }
-- 
2.43.0


From 7832a5fe15a332181f33ef1929ab248c98675987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:05 +0000
Subject: [PATCH 109/167] fix: wait for the body of requests to the legacy tool
 endpoint of the streamable HTTP transport

---
 src/transport/mcp_sthttp_callbacks.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index 4140d48..d31aa6b 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -9,6 +9,7 @@
 static int lws_callback_sthttp(struct lws* wsi, enum lws_callback_reasons reason,
                               void* user, void* in, size_t len);
 static int handle_wsi_create(struct lws* wsi, sthttp_session_data_t* session);
+static bool is_mcp_endpoint(const sthttp_transport_data_t* data, const char* uri);
 static int handle_http_request(struct lws* wsi, sthttp_transport_data_t* data, 
                               sthttp_session_data_t* session, const char* uri);
 static int handle_http_body(struct lws* wsi, sthttp_session_data_t* session, void* in, size_t len);
@@ -75,7 +76,7 @@ static int lws_callback_sthttp(struct lws* wsi, enum lws_callback_reasons reason
 
             // Now process the POST request with complete body
             mcp_log_debug("Processing completed POST request for URI: %s", session->request_uri);
-            if (strcmp(session->request_uri, data->mcp_endpoint) == 0) {
+            if (is_mcp_endpoint(data, session->request_uri)) {
                 mcp_log_debug("Calling handle_mcp_endpoint_request for POST with body");
                 int result = handle_mcp_endpoint_request(wsi, data, session);
                 mcp_log_debug("handle_mcp_endpoint_request returned: %d", result);
@@ -119,6 +120,14 @@ static int handle_wsi_create(struct lws* wsi, sthttp_session_data_t* session) {
     return 0;
 }
 
+/**
+ * @brief Check whether a URI is the MCP endpoint or its legacy name
+ */
+static bool is_mcp_endpoint(const sthttp_transport_data_t* data, const char* uri) {
+    return strcmp(uri, data->mcp_endpoint) == 0 ||
+           (data->config.enable_legacy_endpoints && strcmp(uri, "/call_tool") == 0);
+}
+
 /**
  * @brief Handle HTTP request
  */
@@ -130,7 +139,7 @@ static int handle_http_request(struct lws* wsi, sthttp_transport_data_t* data,
     }
 
     // Check if this is the MCP endpoint
-    if (strcmp(uri, data->mcp_endpoint) == 0) {
+    if (is_mcp_endpoint(data, uri)) {
         // For POST requests, we need to wait for the body
         char method[16] = {0};
 
@@ -160,13 +169,6 @@ static int handle_http_request(struct lws* wsi, sthttp_transport_data_t* data,
 
     // Check for legacy endpoints if enabled
     if (data->config.enable_legacy_endpoints) {
-        // Handle legacy /call_tool endpoint
-        if (strcmp(uri, "/call_tool") == 0) {
-            mcp_log_info("Legacy /call_tool endpoint accessed");
-            // Redirect to MCP endpoint or handle directly
-            return handle_mcp_endpoint_request(wsi, data, session);
-        }
-
         // Handle legacy /events endpoint
         if (strcmp(uri, "/events") == 0) {
             mcp_log_info("Legacy /events endpoint accessed");
-- 
2.43.0


From a659ac4f3339473dd1b2a9ddbe2d7034aa512264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:41:29 +0000
Subject: [PATCH 110/167] fix: write to streamable HTTP event streams only from
 the thread that serves them

---
 .../internal/sthttp_transport_internal.h      | 13 +++++
 src/transport/mcp_sthttp_threads.c            | 23 +++++++++
 src/transport/mcp_sthttp_transport.c          | 51 +++++++++++++++++--
 3 files changed, 82 insertions(+), 5 deletions(-)

diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index 1867b1b..e3bab7d 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -203,6 +203,14 @@ typedef struct {
     bool origin_validated;                       /**< Whether origin has been validated */
 } sthttp_session_data_t;
 
+/**
+ * @brief Message waiting to be sent to the SSE clients by the event thread
+ */
+typedef struct sthttp_pending_message {
+    char* message;                              /**< Message text */
+    struct sthttp_pending_message* next;        /**< Next message in sending order */
+} sthttp_pending_message_t;
+
 /**
  * @brief Streamable HTTP transport data structure
  */
@@ -225,6 +233,11 @@ typedef struct {
     // SSE clients tracking (dynamic array)
     dynamic_sse_clients_t* sse_clients;
 
+    // Messages for the SSE clients; only the event thread may write to connections
+    sthttp_pending_message_t* pending_head;
+    sthttp_pending_message_t* pending_tail;
+    mcp_mutex_t* pending_mutex;
+
     // Cleanup thread synchronization
     mcp_cond_t* cleanup_condition;
     mcp_mutex_t* cleanup_mutex;
diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 78119d6..3ee9fa8 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -7,6 +7,26 @@
 #include <stdio.h>
 #include <time.h>
 
+/**
+ * @brief Send the queued messages to all connected SSE clients, oldest first
+ */
+static void send_pending_messages(sthttp_transport_data_t* data) {
+    mcp_mutex_lock(data->pending_mutex);
+    sthttp_pending_message_t* pending = data->pending_head;
+    data->pending_head = NULL;
+    data->pending_tail = NULL;
+    mcp_mutex_unlock(data->pending_mutex);
+
+    while (pending != NULL) {
+        sthttp_pending_message_t* next = pending->next;
+        int sent_count = dynamic_sse_clients_broadcast(data->sse_clients, NULL, "message", pending->message);
+        mcp_log_debug("Sent message to %d SSE clients", sent_count);
+        free(pending->message);
+        free(pending);
+        pending = next;
+    }
+}
+
 /**
  * @brief Thread function for HTTP event processing
  */
@@ -37,6 +57,9 @@ void* sthttp_event_thread_func(void* arg) {
             }
         }
 
+        // Send the messages queued by other threads
+        send_pending_messages(data);
+
         // Send heartbeats if enabled
         if (data->send_heartbeats && data->sse_clients) {
             time_t current_time = time(NULL);
diff --git a/src/transport/mcp_sthttp_transport.c b/src/transport/mcp_sthttp_transport.c
index 0428c77..94bc3c3 100644
--- a/src/transport/mcp_sthttp_transport.c
+++ b/src/transport/mcp_sthttp_transport.c
@@ -85,6 +85,19 @@ static void free_transport_data(sthttp_transport_data_t* data) {
         data->sse_clients = NULL;
     }
 
+    // Free messages that were not sent
+    while (data->pending_head) {
+        sthttp_pending_message_t* next = data->pending_head->next;
+        free(data->pending_head->message);
+        free(data->pending_head);
+        data->pending_head = next;
+    }
+
+    if (data->pending_mutex) {
+        mcp_mutex_destroy(data->pending_mutex);
+        data->pending_mutex = NULL;
+    }
+
     // Destroy global SSE context
     if (data->global_sse_context) {
         sse_stream_context_destroy(data->global_sse_context);
@@ -447,13 +460,33 @@ static int sthttp_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t
     }
     message[total_size] = '\0';
 
-    // Send as SSE event to all connected clients using dynamic array
-    int sent_count = dynamic_sse_clients_broadcast(transport_data->sse_clients, NULL, "message", message);
+    if (dynamic_sse_clients_count(transport_data->sse_clients) == 0) {
+        mcp_log_debug("No SSE clients to send the message to");
+        free(message);
+        return -1;
+    }
+
+    // The event thread sends it as SSE event to all connected clients
+    sthttp_pending_message_t* pending = (sthttp_pending_message_t*)malloc(sizeof(sthttp_pending_message_t));
+    if (pending == NULL) {
+        mcp_log_error("Failed to allocate memory for message");
+        free(message);
+        return -1;
+    }
+    pending->message = message;
+    pending->next = NULL;
 
-    free(message);
+    mcp_mutex_lock(transport_data->pending_mutex);
+    if (transport_data->pending_tail) {
+        transport_data->pending_tail->next = pending;
+    } else {
+        transport_data->pending_head = pending;
+    }
+    transport_data->pending_tail = pending;
+    mcp_mutex_unlock(transport_data->pending_mutex);
 
-    mcp_log_debug("Sent message to %d SSE clients", sent_count);
-    return sent_count > 0 ? 0 : -1;
+    lws_cancel_service(transport_data->context);
+    return 0;
 }
 
 // Public API functions
@@ -563,6 +596,14 @@ mcp_transport_t* mcp_transport_sthttp_create(const mcp_sthttp_config_t* config)
         return NULL;
     }
 
+    data->pending_mutex = mcp_mutex_create();
+    if (data->pending_mutex == NULL) {
+        mcp_log_error("Failed to create pending message mutex");
+        free_transport_data(data);
+        free(transport);
+        return NULL;
+    }
+
     // Initialize dynamic SSE clients array
     size_t initial_capacity = config->max_sse_clients > 0 ?
         (config->max_sse_clients < STHTTP_INITIAL_SSE_CLIENTS ? config->max_sse_clients : STHTTP_INITIAL_SSE_CLIENTS) :
-- 
2.43.0


From c463096b128695eea3b37217187933caf81f51d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:41:29 +0000
Subject: [PATCH 111/167] fix: store the events sent by the streamable HTTP
 transport so that streams can resume

---
 src/transport/mcp_sthttp_threads.c   | 10 +++++++++-
 src/transport/mcp_sthttp_transport.c |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 3ee9fa8..5f4b090 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -19,7 +19,15 @@ static void send_pending_messages(sthttp_transport_data_t* data) {
 
     while (pending != NULL) {
         sthttp_pending_message_t* next = pending->next;
-        int sent_count = dynamic_sse_clients_broadcast(data->sse_clients, NULL, "message", pending->message);
+
+        // Keep the event for streams that resume later
+        const char* event_id = NULL;
+        if (data->config.enable_sse_resumability) {
+            sse_stream_context_store_event(data->global_sse_context, NULL, "message", pending->message);
+            event_id = data->global_sse_context->last_event_id;
+        }
+
+        int sent_count = dynamic_sse_clients_broadcast(data->sse_clients, event_id, "message", pending->message);
         mcp_log_debug("Sent message to %d SSE clients", sent_count);
         free(pending->message);
         free(pending);
diff --git a/src/transport/mcp_sthttp_transport.c b/src/transport/mcp_sthttp_transport.c
index 94bc3c3..6900deb 100644
--- a/src/transport/mcp_sthttp_transport.c
+++ b/src/transport/mcp_sthttp_transport.c
@@ -460,7 +460,8 @@ static int sthttp_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t
     }
     message[total_size] = '\0';
 
-    if (dynamic_sse_clients_count(transport_data->sse_clients) == 0) {
+    if (!transport_data->config.enable_sse_resumability &&
+        dynamic_sse_clients_count(transport_data->sse_clients) == 0) {
         mcp_log_debug("No SSE clients to send the message to");
         free(message);
         return -1;
-- 
2.43.0


From 47af823ac6524ef09889533cfb30c5818104d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:55:19 +0000
Subject: [PATCH 112/167] fix: keep the CORS headers of differently configured
 streamable HTTP transports apart

---
 src/transport/mcp_sthttp_dynamic_utils.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/transport/mcp_sthttp_dynamic_utils.c b/src/transport/mcp_sthttp_dynamic_utils.c
index 06495ba..64c1a90 100644
--- a/src/transport/mcp_sthttp_dynamic_utils.c
+++ b/src/transport/mcp_sthttp_dynamic_utils.c
@@ -499,35 +499,38 @@ static void generate_cors_config_hash(const sthttp_transport_data_t* data, char*
     }
 
     // Simple hash based on CORS configuration
-    uint32_t hash = 5381;
+    uint64_t hash = 5381;
 
     if (data->cors_allow_origin) {
         const char* str = data->cors_allow_origin;
         int c;
         while ((c = *str++)) {
-            hash = ((hash << 5) + hash) + c;
+            hash = ((hash << 5) + hash) + (unsigned char)c;
         }
+        hash = ((hash << 5) + hash) + '\n'; // Keeps this value apart from the next
     }
 
     if (data->cors_allow_methods) {
         const char* str = data->cors_allow_methods;
         int c;
         while ((c = *str++)) {
-            hash = ((hash << 5) + hash) + c;
+            hash = ((hash << 5) + hash) + (unsigned char)c;
         }
+        hash = ((hash << 5) + hash) + '\n'; // Keeps this value apart from the next
     }
 
     if (data->cors_allow_headers) {
         const char* str = data->cors_allow_headers;
         int c;
         while ((c = *str++)) {
-            hash = ((hash << 5) + hash) + c;
+            hash = ((hash << 5) + hash) + (unsigned char)c;
         }
+        hash = ((hash << 5) + hash) + '\n'; // Keeps this value apart from the next
     }
 
-    hash = ((hash << 5) + hash) + data->cors_max_age;
+    hash = ((hash << 5) + hash) + (uint64_t)data->cors_max_age;
 
-    snprintf(hash_out, 32, "%08x", hash);
+    snprintf(hash_out, 32, "%016llx", (unsigned long long)hash);
 }
 
 /**
-- 
2.43.0


From 93176c5f322ddd67e021d534ee5c5699bf43eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:18 +0000
Subject: [PATCH 113/167] fix: give the HTTP event thread an arena, so that
 tool calls by GET can be built

---
 src/transport/mcp_http_transport.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/transport/mcp_http_transport.c b/src/transport/mcp_http_transport.c
index ea3368b..ad09a42 100644
--- a/src/transport/mcp_http_transport.c
+++ b/src/transport/mcp_http_transport.c
@@ -5,6 +5,8 @@
 #include "mcp_sync.h"
 #include "mcp_thread_pool.h"
 #include "mcp_string_utils.h"
+#include "mcp_arena.h"
+#include "mcp_thread_local.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -634,6 +636,11 @@ void* http_event_thread_func(void* arg) {
         return NULL;
     }
 
+    // Tool calls by GET are built as JSON on this thread
+    if (mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE) != 0) {
+        mcp_log_error("Failed to initialize thread-local arena in HTTP event thread");
+    }
+
     mcp_log_info("HTTP event thread started");
 
     // Run event loop until data->running is set to false
@@ -649,6 +656,8 @@ void* http_event_thread_func(void* arg) {
         send_sse_heartbeat(data);
     }
 
+    mcp_arena_destroy_current_thread();
+
     mcp_log_info("HTTP event thread exited");
     return NULL;
 }
-- 
2.43.0


From 82c1e5cc5f17e1beeeb3011d2068275533f529ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:18 +0000
Subject: [PATCH 114/167] fix: answer HTTP messages that have no reply with 202
 instead of an error

---
 src/transport/mcp_http_server_callbacks.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 4c5b483..c2d0728 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -24,6 +24,9 @@
 #define HTTP_CONTENT_TYPE_HTML "text/html"
 #define HTTP_CONTENT_TYPE_SSE "text/event-stream"
 
+// HTTP status for messages without a reply (not in libwebsockets' enum)
+#define HTTP_STATUS_CODE_ACCEPTED 202
+
 // Buffer sizes
 #define HTTP_HEADER_BUFFER_SIZE 1024
 #define HTTP_PATH_BUFFER_SIZE 512
@@ -1000,6 +1003,10 @@ static int handle_http_call_tool_request(struct lws* wsi, http_transport_data_t*
 
                 return result;
             }
+            // Notifications have no reply
+            else if (error_code == 0) {
+                return send_http_response(wsi, HTTP_STATUS_CODE_ACCEPTED, HTTP_CONTENT_TYPE_JSON, "", 0);
+            }
             // Handle error response
             else {
                 mcp_log_error("Message callback returned error: %d", error_code);
@@ -1552,6 +1559,10 @@ static int handle_http_body_completion(struct lws* wsi, http_transport_data_t* d
             }
             return 0;
         }
+        // Notifications have no reply
+        else if (error_code == 0) {
+            return send_http_response(wsi, HTTP_STATUS_CODE_ACCEPTED, HTTP_CONTENT_TYPE_JSON, "", 0);
+        }
         // Handle error response
         else {
             mcp_log_error("Message callback returned error: %d", error_code);
-- 
2.43.0


From 46a67709936200254656b195a36fa3d745b33871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:04 +0000
Subject: [PATCH 115/167] fix: send the length of the HTTP root and 404 pages,
 so that they end for the client

---
 src/transport/mcp_http_server_callbacks.c | 46 +----------------------
 1 file changed, 2 insertions(+), 44 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index c2d0728..fafe53d 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -793,22 +793,6 @@ static int handle_http_body(struct lws* wsi, http_session_data_t* session, void*
 static int handle_http_root_request(struct lws* wsi) {
     mcp_log_info("Serving root page");
 
-    // Prepare response headers
-    unsigned char buffer[LWS_PRE + 1024];
-    unsigned char* p = &buffer[LWS_PRE];
-    unsigned char* end = &buffer[sizeof(buffer) - 1];
-
-    // Add headers
-    if (lws_add_http_common_headers(wsi, HTTP_STATUS_OK,
-                                   "text/html",
-                                   LWS_ILLEGAL_HTTP_CONTENT_LEN, &p, end)) {
-        return -1;
-    }
-
-    if (lws_finalize_write_http_header(wsi, buffer + LWS_PRE, &p, end)) {
-        return -1;
-    }
-
     // Create a simple HTML page
     const char* html =
         "<!DOCTYPE html>\n"
@@ -904,12 +888,7 @@ static int handle_http_root_request(struct lws* wsi) {
         "</body>\n"
         "</html>\n";
 
-    // Write response body
-    lws_write(wsi, (unsigned char*)html, strlen(html), LWS_WRITE_HTTP);
-
-    // Complete HTTP transaction
-    lws_http_transaction_completed(wsi);
-    return 0;
+    return send_http_response(wsi, HTTP_STATUS_OK, HTTP_CONTENT_TYPE_HTML, html, strlen(html));
 }
 
 // Handle tool call request
@@ -1309,22 +1288,6 @@ static int handle_http_static_file_request(struct lws* wsi, http_transport_data_
 static int handle_http_404(struct lws* wsi, const char* uri) {
     mcp_log_info("Returning 404 for URI: %s", uri);
 
-    // Prepare response headers
-    unsigned char buffer[LWS_PRE + 1024];
-    unsigned char* p = &buffer[LWS_PRE];
-    unsigned char* end = &buffer[sizeof(buffer) - 1];
-
-    // Add headers
-    if (lws_add_http_common_headers(wsi, HTTP_STATUS_NOT_FOUND,
-                                   "text/html",
-                                   LWS_ILLEGAL_HTTP_CONTENT_LEN, &p, end)) {
-        return -1;
-    }
-
-    if (lws_finalize_write_http_header(wsi, buffer + LWS_PRE, &p, end)) {
-        return -1;
-    }
-
     // Create a simple 404 page
     const char* html =
         "<!DOCTYPE html>\n"
@@ -1338,12 +1301,7 @@ static int handle_http_404(struct lws* wsi, const char* uri) {
         "</body>\n"
         "</html>\n";
 
-    // Write response body
-    lws_write(wsi, (unsigned char*)html, strlen(html), LWS_WRITE_HTTP);
-
-    // Complete HTTP transaction
-    lws_http_transaction_completed(wsi);
-    return 0;
+    return send_http_response(wsi, HTTP_STATUS_NOT_FOUND, HTTP_CONTENT_TYPE_HTML, html, strlen(html));
 }
 
 /**
-- 
2.43.0


From a910cabd5f2ee0f06d60308ebb9300e67ac6cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:37 +0000
Subject: [PATCH 116/167] fix: take the parameters of a GET tool call from the
 separate, already decoded query arguments

---
 src/transport/mcp_http_server_callbacks.c | 212 ++--------------------
 1 file changed, 20 insertions(+), 192 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index fafe53d..2a0b3ad 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -51,9 +51,7 @@ static int send_http_error_response(struct lws* wsi, int status_code, const char
 static int send_http_json_response(struct lws* wsi, int status_code, const char* json_body);
 
 static char* extract_session_id_from_query(const char* query);
-static char* url_decode(const char* src);
-static char* extract_query_param(const char* query, const char* param_name);
-static char* build_jsonrpc_request_from_query(const char* query);
+static char* build_jsonrpc_request_from_query(struct lws* wsi);
 static const char* get_jsonrpc_error_message(int error_code);
 static int create_jsonrpc_error_response(int error_code, const char* error_message, const char* id, char* buffer, size_t buffer_size);
 
@@ -440,112 +438,6 @@ static int send_http_json_response(struct lws* wsi, int status_code, const char*
     return send_http_response(wsi, status_code, HTTP_CONTENT_TYPE_JSON, json_body, strlen(json_body));
 }
 
-/**
- * @brief URL decode a string
- *
- * This function decodes URL-encoded strings, handling %xx escapes and + as space.
- *
- * @param src The URL-encoded string to decode
- * @return char* The decoded string (caller must free) or NULL on failure
- */
-static char* url_decode(const char* src) {
-    if (src == NULL) {
-        return NULL;
-    }
-
-    // Allocate memory for the decoded string (will be at most as long as the source)
-    size_t src_len = strlen(src);
-    char* decoded = (char*)malloc(src_len + 1);
-    if (decoded == NULL) {
-        mcp_log_error("Failed to allocate memory for URL decoding");
-        return NULL;
-    }
-
-    // Decode the string
-    const char* src_ptr = src;
-    char* dst_ptr = decoded;
-
-    while (*src_ptr) {
-        if (*src_ptr == '%' && src_ptr[1] && src_ptr[2]) {
-            // Handle %xx escape
-            char hex[3] = {src_ptr[1], src_ptr[2], 0};
-            *dst_ptr = (char)strtol(hex, NULL, 16);
-            src_ptr += 3;
-        } else if (*src_ptr == '+') {
-            // Handle + as space
-            *dst_ptr = ' ';
-            src_ptr++;
-        } else {
-            // Copy character as-is
-            *dst_ptr = *src_ptr;
-            src_ptr++;
-        }
-        dst_ptr++;
-    }
-
-    // Null-terminate the decoded string
-    *dst_ptr = '\0';
-
-    return decoded;
-}
-
-/**
- * @brief Extract a parameter value from a query string
- *
- * This function extracts the value of a parameter from a query string.
- *
- * @param query The query string to parse
- * @param param_name The name of the parameter to extract
- * @return char* The parameter value (caller must free) or NULL if not found
- */
-static char* extract_query_param(const char* query, const char* param_name) {
-    if (query == NULL || param_name == NULL || *query == '\0' || *param_name == '\0') {
-        return NULL;
-    }
-
-    // Build the parameter prefix (param_name=)
-    size_t prefix_len = strlen(param_name);
-    char* prefix = (char*)malloc(prefix_len + 2); // +2 for '=' and '\0'
-    if (prefix == NULL) {
-        mcp_log_error("Failed to allocate memory for parameter prefix");
-        return NULL;
-    }
-
-    sprintf(prefix, "%s=", param_name);
-
-    // Find the parameter in the query string
-    const char* param_start = strstr(query, prefix);
-    free(prefix); // Free the prefix buffer
-
-    if (param_start == NULL) {
-        return NULL; // Parameter not found
-    }
-
-    // Skip the parameter name and '='
-    param_start += prefix_len + 1;
-
-    // Find the end of the parameter value
-    const char* param_end = strchr(param_start, '&');
-
-    // Extract the parameter value
-    if (param_end != NULL) {
-        // Parameter is not the last one in the query string
-        size_t value_len = param_end - param_start;
-        char* value = (char*)malloc(value_len + 1);
-        if (value == NULL) {
-            mcp_log_error("Failed to allocate memory for parameter value");
-            return NULL;
-        }
-
-        strncpy(value, param_start, value_len);
-        value[value_len] = '\0';
-        return value;
-    } else {
-        // Parameter is the last one in the query string
-        return mcp_strdup(param_start);
-    }
-}
-
 /**
  * @brief Build a JSON-RPC request from query parameters
  *
@@ -557,98 +449,45 @@ static char* extract_query_param(const char* query, const char* param_name) {
  * - name: The name of the tool to call
  * - param_<name>: Tool parameters (e.g., param_text=hello for the "text" parameter)
  *
- * @param query The query string to parse
+ * libwebsockets keeps the arguments of the query string apart and has already
+ * decoded each of them, so they must not be joined or decoded again.
+ *
+ * @param wsi WebSocket instance
  * @return char* The JSON-RPC request (caller must free) or NULL on failure
  */
-static char* build_jsonrpc_request_from_query(const char* query) {
-    if (query == NULL || *query == '\0') {
-        mcp_log_error("Empty query string");
-        return NULL;
-    }
-
-    // Extract the tool name
-    char* tool_name = extract_query_param(query, "name");
-    if (tool_name == NULL) {
+static char* build_jsonrpc_request_from_query(struct lws* wsi) {
+    char tool_name[HTTP_QUERY_BUFFER_SIZE];
+    if (lws_get_urlarg_by_name_safe(wsi, "name=", tool_name, sizeof(tool_name)) < 0) {
         mcp_log_error("Missing 'name' parameter in query string");
         return NULL;
     }
 
-    // URL decode the tool name
-    char* decoded_tool_name = url_decode(tool_name);
-    free(tool_name);
-
-    if (decoded_tool_name == NULL) {
-        mcp_log_error("Failed to decode tool name");
-        return NULL;
-    }
-
     // Create a JSON object for the tool arguments
     mcp_json_t* args_obj = mcp_json_object_create();
     if (args_obj == NULL) {
         mcp_log_error("Failed to create JSON object for tool arguments");
-        free(decoded_tool_name);
         return NULL;
     }
 
-    // Parse the query string to extract parameters
+    // Add the tool parameters to the arguments
     const char* param_prefix = "param_";
     size_t param_prefix_len = strlen(param_prefix);
+    char arg[HTTP_QUERY_BUFFER_SIZE];
 
-    // Make a copy of the query string for tokenization
-    char* query_copy = mcp_strdup(query);
-    if (query_copy == NULL) {
-        mcp_log_error("Failed to duplicate query string");
-        mcp_json_destroy(args_obj);
-        free(decoded_tool_name);
-        return NULL;
-    }
-
-    // Split the query string by '&'
-    char* token = strtok(query_copy, "&");
-    while (token != NULL) {
-        // Check if this is a parameter token
-        if (strncmp(token, param_prefix, param_prefix_len) == 0) {
-            // Extract parameter name and value
-            char* equals = strchr(token, '=');
-            if (equals != NULL) {
-                // Extract parameter name (after "param_" prefix)
-                size_t name_len = equals - (token + param_prefix_len);
-                char* param_name = (char*)malloc(name_len + 1);
-                if (param_name != NULL) {
-                    strncpy(param_name, token + param_prefix_len, name_len);
-                    param_name[name_len] = '\0';
-
-                    // Extract parameter value
-                    char* param_value = mcp_strdup(equals + 1);
-                    if (param_value != NULL) {
-                        // URL decode the parameter value
-                        char* decoded_value = url_decode(param_value);
-                        free(param_value);
-
-                        if (decoded_value != NULL) {
-                            // Add the parameter to the arguments object
-                            mcp_json_object_set_string(args_obj, param_name, decoded_value);
-                            free(decoded_value);
-                        }
-                    }
-
-                    free(param_name);
-                }
-            }
+    for (int i = 0; lws_hdr_copy_fragment(wsi, arg, sizeof(arg), WSI_TOKEN_HTTP_URI_ARGS, i) >= 0; i++) {
+        char* equals = strchr(arg, '=');
+        if (strncmp(arg, param_prefix, param_prefix_len) != 0 || equals == NULL) {
+            continue;
         }
-
-        // Get the next token
-        token = strtok(NULL, "&");
+        *equals = '\0';
+        mcp_json_object_set_string(args_obj, arg + param_prefix_len, equals + 1);
     }
 
-    free(query_copy);
-
     // Create the JSON-RPC request
     mcp_json_t* request_obj = mcp_json_object_create();
     if (request_obj == NULL) {
         mcp_log_error("Failed to create JSON object for request");
         mcp_json_destroy(args_obj);
-        free(decoded_tool_name);
         return NULL;
     }
 
@@ -667,12 +506,11 @@ static char* build_jsonrpc_request_from_query(const char* query) {
         mcp_log_error("Failed to create JSON object for params");
         mcp_json_destroy(request_obj);
         mcp_json_destroy(args_obj);
-        free(decoded_tool_name);
         return NULL;
     }
 
     // Add the tool name to the params
-    mcp_json_object_set_string(params_obj, "name", decoded_tool_name);
+    mcp_json_object_set_string(params_obj, "name", tool_name);
 
     // Add the arguments to the params
     mcp_json_object_set_property(params_obj, "arguments", args_obj);
@@ -685,7 +523,6 @@ static char* build_jsonrpc_request_from_query(const char* query) {
 
     // Clean up
     mcp_json_destroy(request_obj); // This will also destroy params_obj and args_obj
-    free(decoded_tool_name);
 
     return request_json;
 }
@@ -935,25 +772,16 @@ static int handle_http_call_tool_request(struct lws* wsi, http_transport_data_t*
     else if (method[0] != '\0' && strcmp(method, "GET") == 0) {
         mcp_log_info("Processing GET request for tool call");
 
-        // Get query string
-        char query[HTTP_QUERY_BUFFER_SIZE] = {0};
+        // Check query string
         int query_len = lws_hdr_total_length(wsi, WSI_TOKEN_HTTP_URI_ARGS);
 
-        if (query_len <= 0 || query_len >= (int)sizeof(query)) {
+        if (query_len <= 0 || query_len >= HTTP_QUERY_BUFFER_SIZE) {
             mcp_log_error("Missing or invalid query parameters for GET tool call");
             return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Missing or invalid query parameters");
         }
 
-        // Copy query string
-        if (lws_hdr_copy(wsi, query, sizeof(query), WSI_TOKEN_HTTP_URI_ARGS) < 0) {
-            mcp_log_error("Failed to copy query string");
-            return send_http_error_response(wsi, HTTP_STATUS_INTERNAL_SERVER_ERROR, "Failed to process query parameters");
-        }
-
-        mcp_log_debug("Tool call query string: '%s'", query);
-
         // Build JSON-RPC request from query parameters
-        char* request_json = build_jsonrpc_request_from_query(query);
+        char* request_json = build_jsonrpc_request_from_query(wsi);
         if (!request_json) {
             mcp_log_error("Failed to build JSON-RPC request from query parameters");
             return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Invalid tool call parameters");
-- 
2.43.0


From f56b79dac43d0379aafff535bf750306f31580e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:06 +0000
Subject: [PATCH 117/167] fix: answer an empty POST over HTTP instead of
 dropping the connection

---
 src/transport/mcp_http_server_callbacks.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 2a0b3ad..3e4812c 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -580,11 +580,16 @@ static char* extract_session_id_from_query(const char* query) {
 static int handle_http_body(struct lws* wsi, http_session_data_t* session, void* in, size_t len) {
     (void)wsi;
 
-    if (session == NULL || in == NULL || len == 0) {
+    if (session == NULL || (in == NULL && len > 0)) {
         mcp_log_error("Invalid parameters for handle_http_body");
         return -1;
     }
 
+    // An empty body comes as one empty chunk
+    if (len == 0) {
+        return 0;
+    }
+
     mcp_log_debug("Received HTTP body chunk: %zu bytes", len);
 
     // Accumulate request body
-- 
2.43.0


From c6af0cc69c6ae1ba4fd1dcf0fe19c870a7d5e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:24:14 +0000
Subject: [PATCH 118/167] fix: free the body of each HTTP request at the end of
 its transaction

---
 src/transport/mcp_http_server_callbacks.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 3e4812c..6c140d7 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -217,6 +217,15 @@ static int lws_callback_http(struct lws* wsi, enum lws_callback_reasons reason,
             // Handle HTTP request body completion
             return handle_http_body_completion(wsi, data, session);
 
+        case LWS_CALLBACK_HTTP_DROP_PROTOCOL:
+            // The session data goes away with the end of each transaction
+            if (session != NULL) {
+                free(session->request_buffer);
+                session->request_buffer = NULL;
+                session->request_len = 0;
+            }
+            return 0;
+
         case LWS_CALLBACK_CLOSED_HTTP:
             // Handle HTTP connection closure
             return handle_closed_http(wsi, data, session);
-- 
2.43.0


From 8ff823dfc87634d0812ad94ec45350a13d91850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:27:23 +0000
Subject: [PATCH 119/167] fix: accept HTTP events without a type and events for
 all clients

---
 src/transport/mcp_http_server_sse.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transport/mcp_http_server_sse.c b/src/transport/mcp_http_server_sse.c
index 87af6cf..d37005a 100644
--- a/src/transport/mcp_http_server_sse.c
+++ b/src/transport/mcp_http_server_sse.c
@@ -110,7 +110,7 @@ void store_sse_event(http_transport_data_t* data, const char* event, const char*
         return;
     }
 
-    if (!is_valid_sse_text(event)) {
+    if (event != NULL && !is_valid_sse_text(event)) {
         mcp_log_error("Invalid characters in SSE event type");
         return;
     }
@@ -430,7 +430,7 @@ static bool send_sse_event_to_client(struct lws* wsi, const char* event,
     }
 
     // Validate event type if provided
-    if (!is_valid_sse_text(event)) {
+    if (event != NULL && !is_valid_sse_text(event)) {
         mcp_log_error("Invalid characters in SSE event type");
         return false;
     }
@@ -526,12 +526,12 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
         return -1;
     }
 
-    if (!is_valid_sse_text(event)) {
+    if (event != NULL && !is_valid_sse_text(event)) {
         mcp_log_error("Invalid characters in SSE event type");
         return -1;
     }
 
-    if (!is_valid_sse_text(session_id)) {
+    if (session_id != NULL && !is_valid_sse_text(session_id)) {
         mcp_log_error("Invalid characters in SSE session ID");
         return -1;
     }
-- 
2.43.0


From 39bc86aca4c0265b9e8a529d8779b5f9b69fc9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:45 +0000
Subject: [PATCH 120/167] fix: read session, filter and last event id of an
 event stream request before its headers are dropped

---
 src/transport/mcp_http_server_callbacks.c |  77 +--------
 src/transport/mcp_http_server_handlers.c  | 185 ++++------------------
 2 files changed, 34 insertions(+), 228 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 6c140d7..bedf266 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -50,7 +50,6 @@ static int send_http_response(struct lws* wsi, int status_code, const char* cont
 static int send_http_error_response(struct lws* wsi, int status_code, const char* error_message);
 static int send_http_json_response(struct lws* wsi, int status_code, const char* json_body);
 
-static char* extract_session_id_from_query(const char* query);
 static char* build_jsonrpc_request_from_query(struct lws* wsi);
 static const char* get_jsonrpc_error_message(int error_code);
 static int create_jsonrpc_error_response(int error_code, const char* error_message, const char* id, char* buffer, size_t buffer_size);
@@ -536,45 +535,6 @@ static char* build_jsonrpc_request_from_query(struct lws* wsi) {
     return request_json;
 }
 
-/**
- * @brief Extract session ID from query string
- *
- * @param query Query string
- * @return char* Extracted session ID or NULL if not found (caller must free)
- */
-static char* extract_session_id_from_query(const char* query) {
-    if (query == NULL || *query == '\0') {
-        return NULL;
-    }
-
-    // Look for session_id parameter
-    const char* session_id_param = strstr(query, "session_id=");
-    if (session_id_param == NULL) {
-        return NULL;
-    }
-
-    // Skip "session_id="
-    session_id_param += 11;
-
-    // Find the end of the parameter value
-    const char* end_param = strchr(session_id_param, '&');
-    if (end_param != NULL) {
-        // Allocate memory for the session ID
-        size_t param_len = end_param - session_id_param;
-        char* session_id_str = (char*)malloc(param_len + 1);
-        if (session_id_str != NULL) {
-            strncpy(session_id_str, session_id_param, param_len);
-            session_id_str[param_len] = '\0';
-            return session_id_str;
-        }
-    } else {
-        // Session ID is the last parameter
-        return mcp_strdup(session_id_param);
-    }
-
-    return NULL;
-}
-
 /**
  * @brief Handle HTTP_BODY callback
  *
@@ -1149,8 +1109,7 @@ static int handle_http_404(struct lws* wsi, const char* uri) {
 /**
  * @brief Handle SSE (Server-Sent Events) request
  *
- * This function processes an SSE request, extracts the session ID from the query string,
- * and sets up the SSE connection.
+ * This function processes an SSE request and sets up the SSE connection.
  *
  * @param wsi WebSocket instance
  * @param data Transport data
@@ -1165,40 +1124,6 @@ static int handle_http_sse_request(struct lws* wsi, http_transport_data_t* data,
 
     mcp_log_info("Handling SSE request");
 
-    // Extract session_id from query string
-    char query[HTTP_QUERY_BUFFER_SIZE] = {0};
-    int query_len = lws_hdr_total_length(wsi, WSI_TOKEN_HTTP_URI_ARGS);
-
-    if (query_len > 0 && query_len < (int)sizeof(query)) {
-        // Copy query string
-        if (lws_hdr_copy(wsi, query, sizeof(query), WSI_TOKEN_HTTP_URI_ARGS) < 0) {
-            mcp_log_error("Failed to copy query string");
-            return -1;
-        }
-
-        mcp_log_debug("SSE request query string: '%s'", query);
-
-        // Free any existing session_id
-        if (session->session_id != NULL) {
-            free(session->session_id);
-            session->session_id = NULL;
-        }
-
-        // Extract session_id from query string
-        session->session_id = extract_session_id_from_query(query);
-
-        if (session->session_id != NULL) {
-            mcp_log_info("SSE client connected with session ID: %s", session->session_id);
-        } else {
-            mcp_log_debug("SSE client connected without session ID");
-        }
-
-        // Extract other parameters if needed (e.g., event_filter)
-        // TODO: Add support for event filtering
-    } else {
-        mcp_log_debug("SSE request has no query string (len=%d)", query_len);
-    }
-
     // Set up the SSE connection
     handle_sse_request(wsi, data);
     return 0;
diff --git a/src/transport/mcp_http_server_handlers.c b/src/transport/mcp_http_server_handlers.c
index 03543d7..61deaad 100644
--- a/src/transport/mcp_http_server_handlers.c
+++ b/src/transport/mcp_http_server_handlers.c
@@ -10,6 +10,7 @@
 // HTTP headers
 #define HTTP_HEADER_CACHE_CONTROL "Cache-Control"
 #define HTTP_HEADER_CONNECTION "Connection"
+#define HTTP_HEADER_LAST_EVENT_ID "last-event-id:"
 #define HTTP_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN "Access-Control-Allow-Origin"
 #define HTTP_HEADER_ACCESS_CONTROL_ALLOW_METHODS "Access-Control-Allow-Methods"
 #define HTTP_HEADER_ACCESS_CONTROL_ALLOW_HEADERS "Access-Control-Allow-Headers"
@@ -33,13 +34,12 @@
 
 // Buffer sizes
 #define HTTP_BUFFER_SIZE 1024
-#define HTTP_QUERY_BUFFER_SIZE 256
+#define HTTP_QUERY_BUFFER_SIZE 1024
+#define HTTP_EVENT_ID_BUFFER_SIZE 32
 #define HTTP_SESSION_ID_BUFFER_SIZE 256
 #define HTTP_MAX_AGE_BUFFER_SIZE 16
 
 // Forward declarations
-static char* url_decode(const char* src);
-static char* extract_query_param(const char* query, const char* param_name);
 static void replay_stored_events(struct lws* wsi, http_transport_data_t* data, http_session_data_t* session);
 
 /**
@@ -244,109 +244,49 @@ int add_cors_headers(struct lws* wsi, http_transport_data_t* data,
 }
 
 /**
- * @brief URL decode a string
+ * @brief Get an argument of the query string
  *
- * This function decodes URL-encoded strings, handling %xx escapes and + as space.
+ * libwebsockets has already separated and decoded the arguments.
  *
- * @param src The URL-encoded string to decode
- * @return char* The decoded string (caller must free) or NULL on failure
+ * @param wsi WebSocket instance
+ * @param param Parameter name followed by '='
+ * @return char* The value (caller must free) or NULL if not found
  */
-static char* url_decode(const char* src) {
-    if (src == NULL) {
-        return NULL;
-    }
-
-    // Allocate memory for the decoded string (will be at most as long as the source)
-    size_t src_len = strlen(src);
-    char* decoded = (char*)malloc(src_len + 1);
-    if (decoded == NULL) {
-        mcp_log_error("Failed to allocate memory for URL decoding");
+static char* get_query_param(struct lws* wsi, const char* param) {
+    char value[HTTP_QUERY_BUFFER_SIZE];
+    if (lws_get_urlarg_by_name_safe(wsi, param, value, sizeof(value)) < 0) {
         return NULL;
     }
-
-    // Decode the string
-    const char* src_ptr = src;
-    char* dst_ptr = decoded;
-
-    while (*src_ptr) {
-        if (*src_ptr == '%' && src_ptr[1] && src_ptr[2]) {
-            // Handle %xx escape
-            char hex[3] = {src_ptr[1], src_ptr[2], 0};
-            *dst_ptr = (char)strtol(hex, NULL, 16);
-            src_ptr += 3;
-        } else if (*src_ptr == '+') {
-            // Handle + as space
-            *dst_ptr = ' ';
-            src_ptr++;
-        } else {
-            // Copy character as-is
-            *dst_ptr = *src_ptr;
-            src_ptr++;
-        }
-        dst_ptr++;
-    }
-
-    // Null-terminate the decoded string
-    *dst_ptr = '\0';
-
-    return decoded;
+    return mcp_strdup(value);
 }
 
 /**
- * @brief Extract a parameter value from a query string
+ * @brief Read session ID, event filter and last event ID of an SSE request
  *
- * This function extracts the value of a parameter from a query string.
+ * Must be called before the connection is marked as SSE, which drops the
+ * headers and arguments of the request.
  *
- * @param query The query string to parse
- * @param param_name The name of the parameter to extract
- * @return char* The parameter value (caller must free) or NULL if not found
+ * @param wsi WebSocket instance
+ * @param session Session data to fill in
  */
-static char* extract_query_param(const char* query, const char* param_name) {
-    if (query == NULL || param_name == NULL || *query == '\0' || *param_name == '\0') {
-        return NULL;
-    }
-
-    // Build the parameter prefix (param_name=)
-    size_t prefix_len = strlen(param_name);
-    char* prefix = (char*)malloc(prefix_len + 2); // +2 for '=' and '\0'
-    if (prefix == NULL) {
-        mcp_log_error("Failed to allocate memory for parameter prefix");
-        return NULL;
-    }
-
-    sprintf(prefix, "%s=", param_name);
-
-    // Find the parameter in the query string
-    const char* param_start = strstr(query, prefix);
-    free(prefix); // Free the prefix buffer
+static void read_sse_request_params(struct lws* wsi, http_session_data_t* session) {
+    session->last_event_id = 0;
 
-    if (param_start == NULL) {
-        return NULL; // Parameter not found
+    char* last_event_id = get_query_param(wsi, URL_PARAM_LAST_EVENT_ID);
+    char header_value[HTTP_EVENT_ID_BUFFER_SIZE];
+    if (last_event_id != NULL) {
+        session->last_event_id = atoi(last_event_id);
+        free(last_event_id);
+    } else if (lws_hdr_custom_copy(wsi, header_value, sizeof(header_value), HTTP_HEADER_LAST_EVENT_ID,
+                                   (int)strlen(HTTP_HEADER_LAST_EVENT_ID)) > 0) {
+        session->last_event_id = atoi(header_value);
     }
 
-    // Skip the parameter name and '='
-    param_start += prefix_len + 1;
-
-    // Find the end of the parameter value
-    const char* param_end = strchr(param_start, '&');
+    free(session->event_filter);
+    session->event_filter = get_query_param(wsi, URL_PARAM_FILTER);
 
-    // Extract the parameter value
-    if (param_end != NULL) {
-        // Parameter is not the last one in the query string
-        size_t value_len = param_end - param_start;
-        char* value = (char*)malloc(value_len + 1);
-        if (value == NULL) {
-            mcp_log_error("Failed to allocate memory for parameter value");
-            return NULL;
-        }
-
-        strncpy(value, param_start, value_len);
-        value[value_len] = '\0';
-        return value;
-    } else {
-        // Parameter is the last one in the query string
-        return mcp_strdup(param_start);
-    }
+    free(session->session_id);
+    session->session_id = get_query_param(wsi, URL_PARAM_SESSION_ID);
 }
 
 /**
@@ -463,6 +403,8 @@ void handle_sse_request(struct lws* wsi, http_transport_data_t* data) {
 
     mcp_log_info("Handling SSE request");
 
+    read_sse_request_params(wsi, session);
+
     // Log session data
     mcp_log_debug("SSE request - session data: is_sse_client=%d, session_id=%s",
                  session->is_sse_client,
@@ -517,67 +459,6 @@ void handle_sse_request(struct lws* wsi, http_transport_data_t* data) {
 
     // Mark as SSE client
     session->is_sse_client = true;
-    session->last_event_id = 0;
-
-    // Get query string
-    char query[HTTP_QUERY_BUFFER_SIZE] = {0};
-    int query_len = lws_hdr_total_length(wsi, WSI_TOKEN_HTTP_URI_ARGS);
-
-    if (query_len > 0 && query_len < (int)sizeof(query)) {
-        if (lws_hdr_copy(wsi, query, sizeof(query), WSI_TOKEN_HTTP_URI_ARGS) < 0) {
-            mcp_log_error("Failed to copy query string for SSE request");
-            return;
-        }
-
-        mcp_log_debug("SSE request query string: '%s'", query);
-
-        // Extract Last-Event-ID from query string
-        char* last_event_id = extract_query_param(query, "lastEventId");
-        if (last_event_id != NULL) {
-            session->last_event_id = atoi(last_event_id);
-            mcp_log_info("SSE client reconnected with Last-Event-ID: %d", session->last_event_id);
-            free(last_event_id);
-        }
-
-        // Extract event filter from query string
-        char* filter = extract_query_param(query, "filter");
-        if (filter != NULL) {
-            // Free any existing filter
-            if (session->event_filter != NULL) {
-                free(session->event_filter);
-            }
-
-            session->event_filter = filter; // Transfer ownership
-            mcp_log_info("SSE client connected with event filter: %s", session->event_filter);
-        }
-
-        // Extract session ID from query string
-        char* session_id = extract_query_param(query, "session_id");
-        if (session_id != NULL) {
-            // Free any existing session ID
-            if (session->session_id != NULL) {
-                free(session->session_id);
-            }
-
-            // URL decode the session ID if needed
-            char* decoded_session_id = url_decode(session_id);
-            if (decoded_session_id != NULL && strcmp(session_id, decoded_session_id) != 0) {
-                mcp_log_debug("URL decoded session_id: '%s' -> '%s'", session_id, decoded_session_id);
-                session->session_id = decoded_session_id; // Transfer ownership
-                free(session_id);
-            } else {
-                // Use the original session ID
-                session->session_id = session_id; // Transfer ownership
-                free(decoded_session_id); // Free the decoded version if it was created
-            }
-
-            mcp_log_info("SSE client connected with session ID: '%s'", session->session_id);
-        } else {
-            mcp_log_debug("SSE client connected without session ID");
-        }
-    } else {
-        mcp_log_debug("SSE request has no query string (len=%d)", query_len);
-    }
 
     // Add to SSE clients list
     mcp_mutex_lock(data->sse_mutex);
-- 
2.43.0


From f26b2a13a8990049d6e36e24de69a4ea2a069c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:37 +0000
Subject: [PATCH 121/167] fix: send each line of an HTTP event's data in a
 field of its own

---
 .../internal/http_transport_internal.h        |  2 ++
 src/transport/mcp_http_server_handlers.c      | 30 ++---------------
 src/transport/mcp_http_server_sse.c           | 32 ++++++++++++++++---
 3 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/transport/internal/http_transport_internal.h b/src/transport/internal/http_transport_internal.h
index baae319..6001dd7 100644
--- a/src/transport/internal/http_transport_internal.h
+++ b/src/transport/internal/http_transport_internal.h
@@ -87,6 +87,8 @@ int lws_root_handler(struct lws* wsi, enum lws_callback_reasons reason,
                 void* user, void* in, size_t len);
 
 void store_sse_event(http_transport_data_t* data, const char* event, const char* event_data);
+bool send_sse_event_to_client(struct lws* wsi, const char* event,
+                              const char* data, const char* id_str);
 void send_sse_heartbeat(http_transport_data_t* data);
 
 // LWS protocols
diff --git a/src/transport/mcp_http_server_handlers.c b/src/transport/mcp_http_server_handlers.c
index 61deaad..7a881f5 100644
--- a/src/transport/mcp_http_server_handlers.c
+++ b/src/transport/mcp_http_server_handlers.c
@@ -22,11 +22,6 @@
 #define HTTP_HEADER_VALUE_KEEP_ALIVE "keep-alive"
 #define HTTP_HEADER_VALUE_TRUE "true"
 
-// SSE event fields
-#define SSE_FIELD_EVENT "event: "
-#define SSE_FIELD_ID "id: "
-#define SSE_FIELD_DATA "data: "
-
 // URL query parameters
 #define URL_PARAM_LAST_EVENT_ID "lastEventId="
 #define URL_PARAM_FILTER "filter="
@@ -342,28 +337,9 @@ static void replay_stored_events(struct lws* wsi, http_transport_data_t* data, h
             // Send the event if it passes the filter
             if (should_send) {
                 // Replay the event
-                if (data->stored_events[current].event != NULL) {
-                    // Write event type
-                    lws_write_http(wsi, SSE_FIELD_EVENT, strlen(SSE_FIELD_EVENT));
-                    lws_write_http(wsi, data->stored_events[current].event,
-                                  strlen(data->stored_events[current].event));
-                    lws_write_http(wsi, "\n", 1);
-                }
-
-                // Write event ID
-                lws_write_http(wsi, SSE_FIELD_ID, strlen(SSE_FIELD_ID));
-                lws_write_http(wsi, data->stored_events[current].id,
-                              strlen(data->stored_events[current].id));
-                lws_write_http(wsi, "\n", 1);
-
-                // Write event data
-                lws_write_http(wsi, SSE_FIELD_DATA, strlen(SSE_FIELD_DATA));
-                lws_write_http(wsi, data->stored_events[current].data,
-                              strlen(data->stored_events[current].data));
-                lws_write_http(wsi, "\n\n", 2);
-
-                // Request a callback when the socket is writable again
-                lws_callback_on_writable(wsi);
+                send_sse_event_to_client(wsi, data->stored_events[current].event,
+                                         data->stored_events[current].data,
+                                         data->stored_events[current].id);
 
                 replayed_count++;
             }
diff --git a/src/transport/mcp_http_server_sse.c b/src/transport/mcp_http_server_sse.c
index d37005a..ca132dd 100644
--- a/src/transport/mcp_http_server_sse.c
+++ b/src/transport/mcp_http_server_sse.c
@@ -399,6 +399,30 @@ static bool write_sse_field(struct lws* wsi, const char* field, const char* valu
     return lws_write_http(wsi, "\n", 1) >= 0;
 }
 
+/**
+ * @brief Write the data of an SSE event, with a field of its own for each line
+ *
+ * @param wsi WebSocket instance
+ * @param data Event data
+ * @return bool true if all writes succeeded, false otherwise
+ */
+static bool write_sse_data(struct lws* wsi, const char* data) {
+    for (;;) {
+        size_t line_len = strcspn(data, "\n");
+
+        if (lws_write_http(wsi, SSE_FIELD_DATA, strlen(SSE_FIELD_DATA)) < 0 ||
+            (line_len > 0 && lws_write_http(wsi, data, line_len) < 0) ||
+            lws_write_http(wsi, "\n", 1) < 0) {
+            return false;
+        }
+
+        if (data[line_len] == '\0') {
+            return true;
+        }
+        data += line_len + 1;
+    }
+}
+
 /**
  * @brief Send an SSE event to a client
  *
@@ -416,8 +440,8 @@ static bool write_sse_field(struct lws* wsi, const char* field, const char* valu
  * @param id_str Event ID string
  * @return bool true if the event was sent successfully, false otherwise
  */
-static bool send_sse_event_to_client(struct lws* wsi, const char* event,
-                                     const char* data, const char* id_str) {
+bool send_sse_event_to_client(struct lws* wsi, const char* event,
+                              const char* data, const char* id_str) {
     if (wsi == NULL || data == NULL || id_str == NULL) {
         mcp_log_error("Invalid parameters for send_sse_event_to_client");
         return false;
@@ -457,7 +481,7 @@ static bool send_sse_event_to_client(struct lws* wsi, const char* event,
         }
 
         // Step 3: Write data field ("data: [data]\n\n")
-        result = write_sse_field(wsi, SSE_FIELD_DATA, data);
+        result = write_sse_data(wsi, data);
         if (!result) {
             mcp_log_error("Failed to write data field");
             return false;
@@ -480,7 +504,7 @@ static bool send_sse_event_to_client(struct lws* wsi, const char* event,
         }
 
         // Step 2: Write data field ("data: [data]\n\n")
-        result = write_sse_field(wsi, SSE_FIELD_DATA, data);
+        result = write_sse_data(wsi, data);
         if (!result) {
             mcp_log_error("Failed to write data field");
             return false;
-- 
2.43.0


From cdec7df36c24ff0b1ce07da62571e228c3befd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:37 +0000
Subject: [PATCH 122/167] fix: refuse HTTP event types with line breaks, which
 would add fields to the event

---
 src/transport/mcp_http_server_sse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transport/mcp_http_server_sse.c b/src/transport/mcp_http_server_sse.c
index ca132dd..381e3b2 100644
--- a/src/transport/mcp_http_server_sse.c
+++ b/src/transport/mcp_http_server_sse.c
@@ -555,6 +555,11 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
         return -1;
     }
 
+    if (event != NULL && strpbrk(event, "\r\n") != NULL) {
+        mcp_log_error("Line break in SSE event type");
+        return -1;
+    }
+
     if (session_id != NULL && !is_valid_sse_text(session_id)) {
         mcp_log_error("Invalid characters in SSE session ID");
         return -1;
-- 
2.43.0


From 87ce39541dfc2f2941e9f0bfb1bad6874abebec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:45 +0000
Subject: [PATCH 123/167] fix: replay HTTP events only to clients they were
 sent to

---
 .../internal/http_transport_internal.h        |  4 +++-
 src/transport/mcp_http_server_handlers.c      |  4 ++--
 src/transport/mcp_http_server_sse.c           | 23 +++++++++++++++----
 src/transport/mcp_http_transport.c            |  3 +++
 4 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/transport/internal/http_transport_internal.h b/src/transport/internal/http_transport_internal.h
index 6001dd7..2de3780 100644
--- a/src/transport/internal/http_transport_internal.h
+++ b/src/transport/internal/http_transport_internal.h
@@ -42,6 +42,7 @@ typedef struct {
 
     // SSE event storage for reconnection (circular buffer)
     sse_event_t stored_events[MAX_SSE_STORED_EVENTS];
+    char* stored_event_sessions[MAX_SSE_STORED_EVENTS];  // Session each event was sent to (NULL = broadcast)
     int event_head;          // Index of the oldest event
     int event_tail;          // Index where the next event will be stored
     int stored_event_count;  // Current number of stored events
@@ -86,7 +87,8 @@ int add_cors_headers(struct lws* wsi, http_transport_data_t* data,
 int lws_root_handler(struct lws* wsi, enum lws_callback_reasons reason,
                 void* user, void* in, size_t len);
 
-void store_sse_event(http_transport_data_t* data, const char* event, const char* event_data);
+void store_sse_event(http_transport_data_t* data, const char* event, const char* event_data, const char* session_id);
+bool session_matches_id(http_session_data_t* session, const char* session_id);
 bool send_sse_event_to_client(struct lws* wsi, const char* event,
                               const char* data, const char* id_str);
 void send_sse_heartbeat(http_transport_data_t* data);
diff --git a/src/transport/mcp_http_server_handlers.c b/src/transport/mcp_http_server_handlers.c
index 7a881f5..5882776 100644
--- a/src/transport/mcp_http_server_handlers.c
+++ b/src/transport/mcp_http_server_handlers.c
@@ -325,8 +325,8 @@ static void replay_stored_events(struct lws* wsi, http_transport_data_t* data, h
 
         // Only send events with ID greater than last_event_id
         if (event_id > session->last_event_id) {
-            // Check if the event matches the filter (if any)
-            bool should_send = true;
+            // Check if the event was meant for this client and matches the filter (if any)
+            bool should_send = session_matches_id(session, data->stored_event_sessions[current]);
 
             if (session->event_filter != NULL && data->stored_events[current].event != NULL) {
                 if (strcmp(session->event_filter, data->stored_events[current].event) != 0) {
diff --git a/src/transport/mcp_http_server_sse.c b/src/transport/mcp_http_server_sse.c
index 381e3b2..a94d355 100644
--- a/src/transport/mcp_http_server_sse.c
+++ b/src/transport/mcp_http_server_sse.c
@@ -40,11 +40,12 @@ static void free_stored_event(sse_event_t* event) {
  * @param event_id Event ID string
  * @param event_type Event type (can be NULL)
  * @param event_data Event data
+ * @param session_id Session the event is sent to (NULL for broadcast)
  * @return bool true if successful, false on parameter or memory allocation failure
  */
 static bool allocate_event_fields(int index, http_transport_data_t* data,
                                  const char* event_id, const char* event_type,
-                                 const char* event_data) {
+                                 const char* event_data, const char* session_id) {
     if (data == NULL || event_id == NULL || event_data == NULL ||
         index < 0 || index >= MAX_SSE_STORED_EVENTS) {
         mcp_log_error("Invalid parameters for allocate_event_fields");
@@ -78,6 +79,15 @@ static bool allocate_event_fields(int index, http_transport_data_t* data,
         goto cleanup_error;
     }
 
+    // Store the session the event is meant for (if any)
+    if (session_id != NULL) {
+        data->stored_event_sessions[index] = mcp_strdup(session_id);
+        if (data->stored_event_sessions[index] == NULL) {
+            mcp_log_error("Failed to allocate memory for event session");
+            goto cleanup_error;
+        }
+    }
+
     // Set the timestamp
     data->stored_events[index].timestamp = time(NULL);
     
@@ -98,8 +108,9 @@ cleanup_error:
  * @param data Transport data containing the event circular buffer
  * @param event Event type (can be NULL for default events)
  * @param event_data Event data payload (must not be NULL)
+ * @param session_id Session the event is sent to (NULL for broadcast)
  */
-void store_sse_event(http_transport_data_t* data, const char* event, const char* event_data) {
+void store_sse_event(http_transport_data_t* data, const char* event, const char* event_data, const char* session_id) {
     if (data == NULL || event_data == NULL) {
         mcp_log_error("Invalid parameters for store_sse_event");
         return;
@@ -136,6 +147,8 @@ void store_sse_event(http_transport_data_t* data, const char* event, const char*
 
         // Free the oldest event's memory (at head position)
         free_stored_event(&data->stored_events[data->event_head]);
+        free(data->stored_event_sessions[data->event_head]);
+        data->stored_event_sessions[data->event_head] = NULL;
 
         // Move head forward (oldest event position)
         data->event_head = (data->event_head + 1) % MAX_SSE_STORED_EVENTS;
@@ -152,7 +165,7 @@ void store_sse_event(http_transport_data_t* data, const char* event, const char*
     int index = data->event_tail;
 
     // Allocate and store the event fields
-    if (!allocate_event_fields(index, data, id_str, event, event_data)) {
+    if (!allocate_event_fields(index, data, id_str, event, event_data, session_id)) {
         mcp_log_error("Failed to allocate event fields, event not stored");
         mcp_mutex_unlock(data->event_mutex);
         return;
@@ -276,7 +289,7 @@ void send_sse_heartbeat(http_transport_data_t* data) {
  * @param session_id Requested session ID (can be NULL for broadcast)
  * @return bool true if the session matches the criteria, false otherwise
  */
-static bool session_matches_id(http_session_data_t* session, const char* session_id) {
+bool session_matches_id(http_session_data_t* session, const char* session_id) {
     // If no specific session ID requested, this is a broadcast
     // Only match clients WITHOUT a session ID
     if (session_id == NULL) {
@@ -568,7 +581,7 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
     http_transport_data_t* transport_data = (http_transport_data_t*)transport->transport_data;
 
     // Store the event for replay on reconnection (for clients that join later)
-    store_sse_event(transport_data, event, data);
+    store_sse_event(transport_data, event, data, session_id);
 
     // Get the current event ID (already incremented in store_sse_event)
     int event_id = transport_data->next_event_id - 1;
diff --git a/src/transport/mcp_http_transport.c b/src/transport/mcp_http_transport.c
index ad09a42..049713d 100644
--- a/src/transport/mcp_http_transport.c
+++ b/src/transport/mcp_http_transport.c
@@ -142,6 +142,9 @@ static void free_stored_sse_events(http_transport_data_t* data) {
             data->stored_events[current].data = NULL;
         }
 
+        free(data->stored_event_sessions[current]);
+        data->stored_event_sessions[current] = NULL;
+
         // Move to the next event in the circular buffer
         current = (current + 1) % MAX_SSE_STORED_EVENTS;
         count++;
-- 
2.43.0


From d3633bffe8050dab5f269d7bccdfd0ee650c6553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:10 +0000
Subject: [PATCH 124/167] fix: write to HTTP event streams only from the thread
 that serves them

---
 .../internal/http_transport_internal.h        |  15 ++
 src/transport/mcp_http_server_sse.c           | 150 +++++++++++++-----
 src/transport/mcp_http_transport.c            |  26 +++
 3 files changed, 152 insertions(+), 39 deletions(-)

diff --git a/src/transport/internal/http_transport_internal.h b/src/transport/internal/http_transport_internal.h
index 2de3780..c07f7e1 100644
--- a/src/transport/internal/http_transport_internal.h
+++ b/src/transport/internal/http_transport_internal.h
@@ -25,6 +25,14 @@ extern "C" {
 // Maximum number of stored SSE events for replay
 #define MAX_SSE_STORED_EVENTS 5000
 
+// SSE event waiting to be sent by the event thread
+typedef struct pending_sse_event {
+    char* event;                       // Event type (NULL = default event)
+    char* data;                        // Event data
+    char* session_id;                  // Session to send to (NULL = broadcast)
+    struct pending_sse_event* next;    // Next event in sending order
+} pending_sse_event_t;
+
 // HTTP transport data structure
 typedef struct {
     mcp_http_config_t config;
@@ -49,6 +57,11 @@ typedef struct {
     int next_event_id;       // Next event ID to assign
     mcp_mutex_t* event_mutex;
 
+    // Events to send; only the event thread may write to connections
+    pending_sse_event_t* pending_head;
+    pending_sse_event_t* pending_tail;
+    mcp_mutex_t* pending_mutex;
+
     // SSE heartbeat
     bool send_heartbeats;
     int heartbeat_interval_ms;
@@ -91,6 +104,8 @@ void store_sse_event(http_transport_data_t* data, const char* event, const char*
 bool session_matches_id(http_session_data_t* session, const char* session_id);
 bool send_sse_event_to_client(struct lws* wsi, const char* event,
                               const char* data, const char* id_str);
+void free_pending_sse_event(pending_sse_event_t* pending);
+void send_pending_sse_events(http_transport_data_t* data);
 void send_sse_heartbeat(http_transport_data_t* data);
 
 // LWS protocols
diff --git a/src/transport/mcp_http_server_sse.c b/src/transport/mcp_http_server_sse.c
index a94d355..a7bd351 100644
--- a/src/transport/mcp_http_server_sse.c
+++ b/src/transport/mcp_http_server_sse.c
@@ -539,47 +539,17 @@ bool send_sse_event_to_client(struct lws* wsi, const char* event,
 }
 
 /**
- * @brief Send SSE event to a specific session or all connected clients
+ * @brief Store an SSE event and send it to the clients it is meant for
  *
- * This function sends an SSE event to one or more connected clients,
- * optionally filtering by session ID. It handles storing the event for
- * replay on reconnection, client filtering, and delivery to matching clients.
+ * Must be called on the event thread.
  *
- * @param transport Transport instance
+ * @param transport_data Transport data
  * @param event Event type (can be NULL for default events)
- * @param data Event data payload (must not be NULL)
- * @param session_id Session ID to filter by (can be NULL for broadcast to all clients)
- * @return int 0 on success, -1 on failure
+ * @param data Event data payload
+ * @param session_id Session ID to filter by (can be NULL for broadcast)
  */
-int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
-                                const char* data, const char* session_id) {
-    if (transport == NULL || transport->transport_data == NULL || data == NULL) {
-        mcp_log_error("Invalid parameters for mcp_http_transport_send_sse");
-        return -1;
-    }
-
-    if (!is_valid_sse_text(data)) {
-        mcp_log_error("Invalid characters in SSE event data");
-        return -1;
-    }
-
-    if (event != NULL && !is_valid_sse_text(event)) {
-        mcp_log_error("Invalid characters in SSE event type");
-        return -1;
-    }
-
-    if (event != NULL && strpbrk(event, "\r\n") != NULL) {
-        mcp_log_error("Line break in SSE event type");
-        return -1;
-    }
-
-    if (session_id != NULL && !is_valid_sse_text(session_id)) {
-        mcp_log_error("Invalid characters in SSE session ID");
-        return -1;
-    }
-
-    http_transport_data_t* transport_data = (http_transport_data_t*)transport->transport_data;
-
+static void deliver_sse_event(http_transport_data_t* transport_data, const char* event,
+                              const char* data, const char* session_id) {
     // Store the event for replay on reconnection (for clients that join later)
     store_sse_event(transport_data, event, data, session_id);
 
@@ -591,7 +561,7 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
     int id_len = snprintf(id_str, sizeof(id_str), "%d", event_id);
     if (id_len < 0 || id_len >= (int)sizeof(id_str)) {
         mcp_log_error("Event ID buffer overflow: ID %d exceeds buffer size", event_id);
-        return -1;
+        return;
     }
 
     // Log the event details for debugging
@@ -606,7 +576,7 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
     if (transport_data->sse_client_count <= 0) {
         mcp_log_warn("No SSE clients connected, event will be stored but not delivered");
         mcp_mutex_unlock(transport_data->sse_mutex);
-        return 0; // Not an error condition, just no clients to deliver to
+        return; // Not an error condition, just no clients to deliver to
     }
 
     // Track delivery statistics
@@ -669,6 +639,108 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
         mcp_log_info("Successfully sent SSE event to %d/%d client(s) (broadcast to clients without session_id)",
                     success_count, matched_clients);
     }
+}
+
+/**
+ * @brief Free an event that waits to be sent
+ *
+ * @param pending Event to free
+ */
+void free_pending_sse_event(pending_sse_event_t* pending) {
+    free(pending->event);
+    free(pending->data);
+    free(pending->session_id);
+    free(pending);
+}
+
+/**
+ * @brief Send the queued events, oldest first
+ *
+ * @param data Transport data
+ */
+void send_pending_sse_events(http_transport_data_t* data) {
+    mcp_mutex_lock(data->pending_mutex);
+    pending_sse_event_t* pending = data->pending_head;
+    data->pending_head = NULL;
+    data->pending_tail = NULL;
+    mcp_mutex_unlock(data->pending_mutex);
+
+    while (pending != NULL) {
+        pending_sse_event_t* next = pending->next;
+        deliver_sse_event(data, pending->event, pending->data, pending->session_id);
+        free_pending_sse_event(pending);
+        pending = next;
+    }
+}
 
+/**
+ * @brief Send SSE event to a specific session or all connected clients
+ *
+ * This function sends an SSE event to one or more connected clients,
+ * optionally filtering by session ID. The event thread stores the event for
+ * replay on reconnection and delivers it to matching clients.
+ *
+ * @param transport Transport instance
+ * @param event Event type (can be NULL for default events)
+ * @param data Event data payload (must not be NULL)
+ * @param session_id Session ID to filter by (can be NULL for broadcast to all clients)
+ * @return int 0 on success, -1 on failure
+ */
+int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
+                                const char* data, const char* session_id) {
+    if (transport == NULL || transport->transport_data == NULL || data == NULL) {
+        mcp_log_error("Invalid parameters for mcp_http_transport_send_sse");
+        return -1;
+    }
+
+    if (!is_valid_sse_text(data)) {
+        mcp_log_error("Invalid characters in SSE event data");
+        return -1;
+    }
+
+    if (event != NULL && !is_valid_sse_text(event)) {
+        mcp_log_error("Invalid characters in SSE event type");
+        return -1;
+    }
+
+    if (event != NULL && strpbrk(event, "\r\n") != NULL) {
+        mcp_log_error("Line break in SSE event type");
+        return -1;
+    }
+
+    if (session_id != NULL && !is_valid_sse_text(session_id)) {
+        mcp_log_error("Invalid characters in SSE session ID");
+        return -1;
+    }
+
+    http_transport_data_t* transport_data = (http_transport_data_t*)transport->transport_data;
+
+    pending_sse_event_t* pending = (pending_sse_event_t*)calloc(1, sizeof(pending_sse_event_t));
+    if (pending == NULL) {
+        mcp_log_error("Failed to allocate memory for SSE event");
+        return -1;
+    }
+
+    pending->event = event ? mcp_strdup(event) : NULL;
+    pending->data = mcp_strdup(data);
+    pending->session_id = session_id ? mcp_strdup(session_id) : NULL;
+    if ((event && !pending->event) || !pending->data || (session_id && !pending->session_id)) {
+        mcp_log_error("Failed to allocate memory for SSE event");
+        free_pending_sse_event(pending);
+        return -1;
+    }
+
+    mcp_mutex_lock(transport_data->pending_mutex);
+    if (transport_data->pending_tail) {
+        transport_data->pending_tail->next = pending;
+    } else {
+        transport_data->pending_head = pending;
+    }
+    transport_data->pending_tail = pending;
+    mcp_mutex_unlock(transport_data->pending_mutex);
+
+    if (transport_data->context != NULL) {
+        lws_cancel_service(transport_data->context);
+    }
     return 0;
 }
diff --git a/src/transport/mcp_http_transport.c b/src/transport/mcp_http_transport.c
index 049713d..8e67878 100644
--- a/src/transport/mcp_http_transport.c
+++ b/src/transport/mcp_http_transport.c
@@ -94,6 +94,13 @@ static void free_transport_data(http_transport_data_t* data) {
     // Free stored SSE events
     free_stored_sse_events(data);
 
+    // Free events that were not sent
+    while (data->pending_head) {
+        pending_sse_event_t* next = data->pending_head->next;
+        free_pending_sse_event(data->pending_head);
+        data->pending_head = next;
+    }
+
     // Destroy mutexes
     if (data->sse_mutex) {
         mcp_mutex_destroy(data->sse_mutex);
@@ -105,6 +112,11 @@ static void free_transport_data(http_transport_data_t* data) {
         data->event_mutex = NULL;
     }
 
+    if (data->pending_mutex) {
+        mcp_mutex_destroy(data->pending_mutex);
+        data->pending_mutex = NULL;
+    }
+
     // Free the data structure itself
     free(data);
 }
@@ -252,6 +264,17 @@ static bool initialize_mutexes(http_transport_data_t* data) {
         return false;
     }
 
+    // Initialize mutex of the events to send
+    data->pending_mutex = mcp_mutex_create();
+    if (data->pending_mutex == NULL) {
+        mcp_log_error("Failed to create pending event mutex");
+        mcp_mutex_destroy(data->sse_mutex);
+        data->sse_mutex = NULL;
+        mcp_mutex_destroy(data->event_mutex);
+        data->event_mutex = NULL;
+        return false;
+    }
+
     return true;
 }
 
@@ -655,6 +678,9 @@ void* http_event_thread_func(void* arg) {
             // Don't break the loop on error, just continue
         }
 
+        // Send the events queued by other threads
+        send_pending_sse_events(data);
+
         // Send heartbeat if needed
         send_sse_heartbeat(data);
     }
-- 
2.43.0


From 71e25b44a365b8583b00b46e8c7628001bde06b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:10 +0000
Subject: [PATCH 125/167] fix: answer requests for missing static files with
 404 instead of dropping the connection

---
 src/transport/mcp_http_server_callbacks.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index bedf266..4984088 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -1082,8 +1082,8 @@ static int handle_http_static_file_request(struct lws* wsi, http_transport_data_
         mcp_log_error("File does not exist: %s", path);
     }
 
-    // File not found, return -1 to indicate failure
-    return -1;
+    // File not found
+    return handle_http_404(wsi, uri);
 }
 
 // Handle 404 error
-- 
2.43.0


From dcd85349528b6b3f288f5c94f907aa47a886da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:10 +0000
Subject: [PATCH 126/167] fix: serve static files of any type instead of
 refusing those unknown to libwebsockets

---
 src/transport/mcp_http_transport.c   | 7 +++++++
 src/transport/mcp_sthttp_transport.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/transport/mcp_http_transport.c b/src/transport/mcp_http_transport.c
index 8e67878..4e7d3cc 100644
--- a/src/transport/mcp_http_transport.c
+++ b/src/transport/mcp_http_transport.c
@@ -278,6 +278,12 @@ static bool initialize_mutexes(http_transport_data_t* data) {
     return true;
 }
 
+// Type of static files that libwebsockets knows no type for; without it they are refused
+static const struct lws_protocol_vhost_options default_mimetype = {
+    .name = "*",
+    .value = "application/octet-stream"
+};
+
 /**
  * @brief Set up static file mount for the HTTP server
  *
@@ -321,6 +327,7 @@ static bool setup_static_file_mount(http_transport_data_t* data) {
     data->mount->origin = data->config.doc_root;
     data->mount->def = "index.html";
     data->mount->origin_protocol = LWSMPRO_FILE;
+    data->mount->extra_mimetypes = &default_mimetype;
 
     // mountpoint_len is unsigned char, so we need to be careful with the length
     size_t len = strlen(data->mount->mountpoint);
diff --git a/src/transport/mcp_sthttp_transport.c b/src/transport/mcp_sthttp_transport.c
index 6900deb..a05636e 100644
--- a/src/transport/mcp_sthttp_transport.c
+++ b/src/transport/mcp_sthttp_transport.c
@@ -196,6 +196,12 @@ static bool initialize_mutexes(sthttp_transport_data_t* data) {
     return true;
 }
 
+// Type of static files that libwebsockets knows no type for; without it they are refused
+static const struct lws_protocol_vhost_options default_mimetype = {
+    .name = "*",
+    .value = "application/octet-stream"
+};
+
 /**
  * @brief Set up static file mount for the HTTP server
  */
@@ -218,6 +224,7 @@ static bool setup_static_file_mount(sthttp_transport_data_t* data) {
     data->mount->origin = data->config.doc_root;
     data->mount->def = "index.html";
     data->mount->origin_protocol = LWSMPRO_FILE;
+    data->mount->extra_mimetypes = &default_mimetype;
 
     // mountpoint_len is unsigned char, so we need to be careful with the length
     size_t len = strlen(data->mount->mountpoint);
-- 
2.43.0


From f52197aff41adcdb311a9686ed4801c30172c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:57:00 +0000
Subject: [PATCH 127/167] fix: give the streamable HTTP client the body and
 headers of responses, of any length or chunked

---
 .../internal/sthttp_transport_internal.h      |  17 ++
 src/transport/mcp_sthttp_client_core.c        |   7 +-
 src/transport/mcp_sthttp_http_parser.c        | 186 ++++++++++++++++--
 3 files changed, 191 insertions(+), 19 deletions(-)

diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index e3bab7d..3de7751 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -123,10 +123,20 @@ typedef struct http_parser_context {
     size_t line_buffer_size;
     size_t line_buffer_used;
 
+    // Headers the client needs
+    char* content_type;
+    char* session_id;
+
     // Body tracking
     size_t body_bytes_received;
     size_t chunk_size;
     bool in_chunk_data;
+    bool in_trailer;
+
+    // Decoded body
+    char* body;
+    size_t body_length;
+    size_t body_capacity;
 } http_parser_context_t;
 
 /**
@@ -478,6 +488,13 @@ void http_parser_reset(http_parser_context_t* parser);
 int http_parser_process(http_parser_context_t* parser, const char* data, size_t length,
                        http_response_t* response);
 
+/**
+ * @brief Tell the parser that the connection was closed, which ends a body without a length
+ *
+ * @return 1 if the response is complete, -1 if it was cut off
+ */
+int http_parser_finish(http_parser_context_t* parser, http_response_t* response);
+
 /**
  * @brief Check if HTTP parsing is complete
  */
diff --git a/src/transport/mcp_sthttp_client_core.c b/src/transport/mcp_sthttp_client_core.c
index f9e922a..a55923f 100644
--- a/src/transport/mcp_sthttp_client_core.c
+++ b/src/transport/mcp_sthttp_client_core.c
@@ -171,7 +171,12 @@ int http_client_receive_response_optimized(socket_t socket_fd, http_response_t*
         }
 
         if (bytes_received == 0) {
-            break; // Connection closed
+            // Connection closed
+            if (http_parser_finish(parser, response) < 0) {
+                mcp_log_error("Connection closed before the end of the response");
+                result = -1;
+            }
+            break;
         }
 
         int parse_result = http_parser_process(parser, temp_buffer, bytes_received, response);
diff --git a/src/transport/mcp_sthttp_http_parser.c b/src/transport/mcp_sthttp_http_parser.c
index 7696a0d..b268aeb 100644
--- a/src/transport/mcp_sthttp_http_parser.c
+++ b/src/transport/mcp_sthttp_http_parser.c
@@ -8,6 +8,8 @@
  */
 #include "internal/sthttp_transport_internal.h"
 #include "mcp_log.h"
+#include "mcp_string_utils.h"
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
@@ -47,6 +49,9 @@ void http_parser_destroy(http_parser_context_t* parser) {
     free(parser->line_buffer);
     free(parser->current_header_name);
     free(parser->current_header_value);
+    free(parser->content_type);
+    free(parser->session_id);
+    free(parser->body);
     free(parser);
 }
 
@@ -68,7 +73,14 @@ void http_parser_reset(http_parser_context_t* parser) {
     parser->body_bytes_received = 0;
     parser->chunk_size = 0;
     parser->in_chunk_data = false;
-    
+    parser->in_trailer = false;
+    parser->body_length = 0;
+
+    free(parser->content_type);
+    free(parser->session_id);
+    parser->content_type = NULL;
+    parser->session_id = NULL;
+
     free(parser->current_header_name);
     free(parser->current_header_value);
     parser->current_header_name = NULL;
@@ -90,6 +102,10 @@ static int parse_status_line(http_parser_context_t* parser, const char* line) {
         mcp_log_error("Invalid HTTP status line: %s", line);
         return -1;
     }
+    if (parser->status_code < 100 || parser->status_code > 999) {
+        mcp_log_error("Invalid HTTP status code: %d", parser->status_code);
+        return -1;
+    }
     
     parser->state = HTTP_PARSE_STATE_HEADERS;
     return 0;
@@ -105,8 +121,9 @@ static int parse_header_line(http_parser_context_t* parser, const char* line) {
     
     // Empty line indicates end of headers
     if (strlen(line) == 0) {
-        parser->state = parser->has_content_length || parser->is_chunked ? 
-                       HTTP_PARSE_STATE_BODY : HTTP_PARSE_STATE_COMPLETE;
+        bool no_body = parser->status_code < 200 || parser->status_code == 204 || parser->status_code == 304 ||
+                       (!parser->is_chunked && parser->has_content_length && parser->content_length == 0);
+        parser->state = no_body ? HTTP_PARSE_STATE_COMPLETE : HTTP_PARSE_STATE_BODY;
         return 0;
     }
     
@@ -128,7 +145,7 @@ static int parse_header_line(http_parser_context_t* parser, const char* line) {
     
     // Convert to lowercase for case-insensitive comparison
     for (size_t i = 0; i < name_len; i++) {
-        name[i] = (char)tolower(name[i]);
+        name[i] = (char)tolower((unsigned char)name[i]);
     }
     
     // Extract header value (skip colon and leading spaces)
@@ -139,8 +156,29 @@ static int parse_header_line(http_parser_context_t* parser, const char* line) {
     
     // Process important headers
     if (strcmp(name, "content-length") == 0) {
-        parser->content_length = strtoul(value_start, NULL, 10);
+        char* value_end = NULL;
+        errno = 0;
+        parser->content_length = strtoul(value_start, &value_end, 10);
+        while (*value_end == ' ' || *value_end == '\t') {
+            value_end++;
+        }
+        if (!isdigit((unsigned char)*value_start) || *value_end != '\0' || errno != 0) {
+            mcp_log_error("Invalid content length: %s", value_start);
+            free(name);
+            return -1;
+        }
         parser->has_content_length = true;
+    } else if (strcmp(name, "content-type") == 0) {
+        free(parser->content_type);
+        parser->content_type = mcp_strdup(value_start);
+    } else if (strcmp(name, "mcp-session-id") == 0) {
+        free(parser->session_id);
+        parser->session_id = mcp_strdup(value_start);
+        // Trailing white space is not part of the value
+        size_t id_len = parser->session_id ? strlen(parser->session_id) : 0;
+        while (id_len > 0 && (parser->session_id[id_len - 1] == ' ' || parser->session_id[id_len - 1] == '\t')) {
+            parser->session_id[--id_len] = '\0';
+        }
     } else if (strcmp(name, "transfer-encoding") == 0) {
         if (strstr(value_start, "chunked") != NULL) {
             parser->is_chunked = true;
@@ -155,6 +193,90 @@ static int parse_header_line(http_parser_context_t* parser, const char* line) {
     return 0;
 }
 
+/**
+ * @brief Parse a line of the chunked encoding: the size of a chunk, the end of one, or a trailer
+ */
+static int parse_chunk_line(http_parser_context_t* parser, const char* line) {
+    if (parser->in_trailer) {
+        if (line[0] == '\0') {
+            parser->state = HTTP_PARSE_STATE_COMPLETE;
+        }
+        return 0;
+    }
+
+    // The line break after the data of a chunk
+    if (parser->in_chunk_data) {
+        parser->in_chunk_data = false;
+        return line[0] == '\0' ? 0 : -1;
+    }
+
+    char* size_end = NULL;
+    errno = 0;
+    parser->chunk_size = strtoul(line, &size_end, 16);
+    if (!isxdigit((unsigned char)line[0]) || errno != 0 ||
+        (*size_end != '\0' && *size_end != ';' && *size_end != ' ' && *size_end != '\t')) {
+        mcp_log_error("Invalid chunk size: %s", line);
+        return -1;
+    }
+
+    if (parser->chunk_size == 0) {
+        parser->in_trailer = true;
+    } else {
+        parser->in_chunk_data = true;
+    }
+    return 0;
+}
+
+/**
+ * @brief Append decoded body data
+ */
+static int append_body(http_parser_context_t* parser, const char* data, size_t length) {
+    if (parser->body_length + length + 1 > parser->body_capacity) {
+        size_t new_capacity = parser->body_capacity ? parser->body_capacity : 1024;
+        while (new_capacity < parser->body_length + length + 1) {
+            new_capacity *= 2;
+        }
+
+        char* new_body = (char*)realloc(parser->body, new_capacity);
+        if (new_body == NULL) {
+            mcp_log_error("Failed to expand HTTP parser body buffer");
+            return -1;
+        }
+        parser->body = new_body;
+        parser->body_capacity = new_capacity;
+    }
+
+    memcpy(parser->body + parser->body_length, data, length);
+    parser->body_length += length;
+    parser->body[parser->body_length] = '\0';
+    parser->body_bytes_received += length;
+    return 0;
+}
+
+/**
+ * @brief Hand the parsed response over
+ */
+static void fill_response(http_parser_context_t* parser, http_response_t* response) {
+    response->status_code = parser->status_code;
+    response->content_length = parser->content_length;
+
+    free(response->content_type);
+    free(response->session_id);
+    free(response->body);
+    response->content_type = parser->content_type;
+    response->session_id = parser->session_id;
+    response->body = parser->body_length > 0 ? parser->body : NULL;
+    response->body_length = parser->body_length;
+
+    parser->content_type = NULL;
+    parser->session_id = NULL;
+    if (parser->body_length > 0) {
+        parser->body = NULL;
+        parser->body_capacity = 0;
+        parser->body_length = 0;
+    }
+}
+
 /**
  * @brief Expand line buffer if needed
  */
@@ -198,22 +320,35 @@ int http_parser_process(http_parser_context_t* parser, const char* data, size_t
     while (ptr < end && parser->state != HTTP_PARSE_STATE_COMPLETE && 
            parser->state != HTTP_PARSE_STATE_ERROR) {
         
-        if (parser->state == HTTP_PARSE_STATE_BODY) {
-            // Handle body data
-            size_t remaining_body = parser->content_length - parser->body_bytes_received;
-            size_t available = end - ptr;
-            size_t to_consume = (remaining_body < available) ? remaining_body : available;
-            
-            parser->body_bytes_received += to_consume;
+        if (parser->state == HTTP_PARSE_STATE_BODY && (!parser->is_chunked || parser->chunk_size > 0)) {
+            // Handle body data; without a length it goes on until the connection is closed
+            size_t to_consume = end - ptr;
+            if (parser->is_chunked) {
+                if (to_consume > parser->chunk_size) {
+                    to_consume = parser->chunk_size;
+                }
+            } else if (parser->has_content_length) {
+                size_t remaining_body = parser->content_length - parser->body_bytes_received;
+                if (to_consume > remaining_body) {
+                    to_consume = remaining_body;
+                }
+            }
+
+            if (append_body(parser, ptr, to_consume) != 0) {
+                parser->state = HTTP_PARSE_STATE_ERROR;
+                return -1;
+            }
             ptr += to_consume;
-            
-            if (parser->body_bytes_received >= parser->content_length) {
+
+            if (parser->is_chunked) {
+                parser->chunk_size -= to_consume;
+            } else if (parser->has_content_length && parser->body_bytes_received >= parser->content_length) {
                 parser->state = HTTP_PARSE_STATE_COMPLETE;
             }
             continue;
         }
-        
-        // Process line-based data (status line and headers)
+
+        // Process line-based data (status line, headers and chunk sizes)
         while (ptr < end) {
             char c = *ptr++;
             
@@ -233,6 +368,8 @@ int http_parser_process(http_parser_context_t* parser, const char* data, size_t
                     result = parse_status_line(parser, parser->line_buffer);
                 } else if (parser->state == HTTP_PARSE_STATE_HEADERS) {
                     result = parse_header_line(parser, parser->line_buffer);
+                } else {
+                    result = parse_chunk_line(parser, parser->line_buffer);
                 }
                 
                 if (result != 0) {
@@ -256,8 +393,7 @@ int http_parser_process(http_parser_context_t* parser, const char* data, size_t
     
     // Fill response structure if parsing is complete
     if (parser->state == HTTP_PARSE_STATE_COMPLETE) {
-        response->status_code = parser->status_code;
-        response->content_length = parser->content_length;
+        fill_response(parser, response);
         return 1; // Complete
     } else if (parser->state == HTTP_PARSE_STATE_ERROR) {
         return -1; // Error
@@ -266,6 +402,20 @@ int http_parser_process(http_parser_context_t* parser, const char* data, size_t
     return 0; // Need more data
 }
 
+/**
+ * @brief Tell the parser that the connection was closed
+ */
+int http_parser_finish(http_parser_context_t* parser, http_response_t* response) {
+    if (parser == NULL || response == NULL || parser->state != HTTP_PARSE_STATE_BODY ||
+        parser->is_chunked || parser->has_content_length) {
+        return -1;
+    }
+
+    parser->state = HTTP_PARSE_STATE_COMPLETE;
+    fill_response(parser, response);
+    return 1;
+}
+
 /**
  * @brief Check if parsing is complete
  */
-- 
2.43.0


From f5cdb6c17185b189c60caacbdd8553de7757110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:57:10 +0000
Subject: [PATCH 128/167] fix: size the streamable HTTP client's request buffer
 for everything that goes into it, and read the session id under its lock

---
 src/transport/mcp_sthttp_client_core.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/transport/mcp_sthttp_client_core.c b/src/transport/mcp_sthttp_client_core.c
index a55923f..4271441 100644
--- a/src/transport/mcp_sthttp_client_core.c
+++ b/src/transport/mcp_sthttp_client_core.c
@@ -61,8 +61,16 @@ char* http_client_build_request(sthttp_client_data_t* data, const char* method,
 
     size_t content_length = json_data ? strlen(json_data) : 0;
 
+    // Another request may be replacing the session ID
+    mcp_mutex_lock(data->state_mutex);
+    char* session_id = data->has_session && data->session_id ? mcp_strdup(data->session_id) : NULL;
+    mcp_mutex_unlock(data->state_mutex);
+
     // Calculate buffer size
-    size_t buffer_size = 1024 + content_length;
+    size_t buffer_size = 1024 + content_length + strlen(method) + strlen(endpoint) + strlen(host) + strlen(user_agent);
+    if (session_id) {
+        buffer_size += strlen(session_id);
+    }
     if (data->config.custom_headers) {
         buffer_size += strlen(data->config.custom_headers);
     }
@@ -73,6 +81,7 @@ char* http_client_build_request(sthttp_client_data_t* data, const char* method,
     char* request = (char*)malloc(buffer_size);
     if (request == NULL) {
         mcp_log_error("Failed to allocate request buffer");
+        free(session_id);
         return NULL;
     }
 
@@ -100,9 +109,10 @@ char* http_client_build_request(sthttp_client_data_t* data, const char* method,
     }
 
     // Add session ID header if available
-    if (data->has_session && data->session_id) {
+    if (session_id) {
         offset += snprintf(request + offset, buffer_size - offset,
-            "Mcp-Session-Id: %s\r\n", data->session_id);
+            "Mcp-Session-Id: %s\r\n", session_id);
+        free(session_id);
     }
 
     // Add API key header if configured
-- 
2.43.0


From f68b57083b2c46417e79e72738b5c023164b4930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:57:10 +0000
Subject: [PATCH 129/167] fix: keep the session id of responses in the
 streamable HTTP client, and accept responses without a body

---
 src/transport/mcp_sthttp_client_core.c      | 46 ++++++++++-----------
 src/transport/mcp_sthttp_client_transport.c | 14 +++++--
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/transport/mcp_sthttp_client_core.c b/src/transport/mcp_sthttp_client_core.c
index 4271441..cd04d24 100644
--- a/src/transport/mcp_sthttp_client_core.c
+++ b/src/transport/mcp_sthttp_client_core.c
@@ -304,43 +304,41 @@ int http_client_send_request(sthttp_client_data_t* data, const char* json_data,
     }
 
     // Receive response
-    char* response_buffer = (char*)malloc(HTTP_CLIENT_BUFFER_SIZE);
-    if (response_buffer == NULL) {
-        mcp_socket_close(socket_fd);
-        return -1;
-    }
-
-    // Try optimized HTTP response receiver first, fallback to legacy if needed
     if (data->use_optimized_parsers) {
         result = http_client_receive_response_optimized(socket_fd, response, data->config.request_timeout_ms);
-        if (result == 0) {
+        mcp_socket_close(socket_fd);
+    } else {
+        char* response_buffer = (char*)malloc(HTTP_CLIENT_BUFFER_SIZE);
+        if (response_buffer == NULL) {
             mcp_socket_close(socket_fd);
+            return -1;
+        }
+
+        int response_length = http_client_receive_response(socket_fd, response_buffer, HTTP_CLIENT_BUFFER_SIZE, data->config.request_timeout_ms);
+        mcp_socket_close(socket_fd);
+        if (response_length <= 0) {
             free(response_buffer);
-            mcp_log_debug("Used optimized HTTP parser successfully");
-            return 0;
+            return -1;
         }
-        mcp_log_warn("Optimized HTTP parser failed, falling back to legacy implementation");
-    }
 
-    // Fallback to legacy implementation
-    int response_length = http_client_receive_response(socket_fd, response_buffer, HTTP_CLIENT_BUFFER_SIZE, data->config.request_timeout_ms);
-    mcp_socket_close(socket_fd);
-    if (response_length <= 0) {
+        // Parse response using legacy method
+        result = http_client_parse_response(response_buffer, response_length, response);
         free(response_buffer);
-        return -1;
+        if (result == 0 && response->headers) {
+            response->session_id = http_client_extract_session_id(response->headers);
+        }
     }
 
-    // Parse response using legacy method
-    result = http_client_parse_response(response_buffer, response_length, response);
-    free(response_buffer);
-    // Extract session ID if sessions are enabled
-    if (result == 0 && data->config.enable_sessions && response->headers) {
-        char* session_id = http_client_extract_session_id(response->headers);
+    // Keep the session ID if sessions are enabled
+    if (result == 0 && data->config.enable_sessions && response->session_id && response->session_id[0] != '\0') {
+        char* session_id = mcp_strdup(response->session_id);
         if (session_id) {
+            mcp_mutex_lock(data->state_mutex);
             free(data->session_id);
             data->session_id = session_id;
             data->has_session = true;
-            mcp_log_debug("Session ID updated: %s", session_id);
+            mcp_mutex_unlock(data->state_mutex);
+            mcp_log_debug("Session ID updated: %s", response->session_id);
         }
     }
 
diff --git a/src/transport/mcp_sthttp_client_transport.c b/src/transport/mcp_sthttp_client_transport.c
index 93b334a..ef94a7c 100644
--- a/src/transport/mcp_sthttp_client_transport.c
+++ b/src/transport/mcp_sthttp_client_transport.c
@@ -304,6 +304,7 @@ static int sthttp_client_send(mcp_transport_t* transport, const void* data_ptr,
     if (data->state != MCP_CLIENT_STATE_CONNECTED && data->state != MCP_CLIENT_STATE_SSE_CONNECTED) {
         mcp_mutex_unlock(data->state_mutex);
         mcp_log_error("HTTP Streamable client not connected");
+        free(message);
         return -1;
     }
     
@@ -314,16 +315,19 @@ static int sthttp_client_send(mcp_transport_t* transport, const void* data_ptr,
     memset(&response, 0, sizeof(response));
     
     int result = http_client_send_request(data, message, &response);
-    if (result == 0 && response.body != NULL) {
+    if (result == 0 && response.body == NULL && response.status_code >= 400) {
+        result = -1; // Refused without a message
+    }
+    if (result == 0) {
         // Update statistics
         http_client_update_stats(data, "request_sent");
         http_client_update_stats(data, "response_received");
         
-        // Call message callback with response
-        if (data->message_callback) {
+        // Call message callback with response; notifications are answered without one
+        if (data->message_callback && response.body != NULL) {
             int error_code = 0;
             char* callback_response = data->message_callback(data->message_callback_user_data, response.body,
-                                                            strlen(response.body), &error_code);
+                                                            response.body_length, &error_code);
             if (callback_response) {
                 free(callback_response);
             }
@@ -609,9 +613,11 @@ int mcp_sthttp_client_terminate_session(mcp_transport_t* transport) {
     mcp_socket_close(socket_fd);
     if (result == 0) {
         // Clear session
+        mcp_mutex_lock(data->state_mutex);
         free(data->session_id);
         data->session_id = NULL;
         data->has_session = false;
+        mcp_mutex_unlock(data->state_mutex);
         mcp_log_info("Session terminated");
     }
 
-- 
2.43.0


From 2b02ad14bab5ec74b1371b0fa4e55833daaf825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:16 +0000
Subject: [PATCH 130/167] fix: do not lock the streamable HTTP client's state
 twice when it starts or stops, and keep it stopped

---
 .../internal/sthttp_client_internal.h         |  5 ++
 src/transport/mcp_sthttp_client_transport.c   | 66 ++++++++++++-------
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/src/transport/internal/sthttp_client_internal.h b/src/transport/internal/sthttp_client_internal.h
index 11972a1..4b99345 100644
--- a/src/transport/internal/sthttp_client_internal.h
+++ b/src/transport/internal/sthttp_client_internal.h
@@ -181,6 +181,11 @@ void sse_free_event(sse_event_t* event);
  */
 void http_client_set_state(sthttp_client_data_t* data, mcp_client_connection_state_t new_state);
 
+/**
+ * @brief Change connection state if it is still the expected one
+ */
+void http_client_replace_state(sthttp_client_data_t* data, mcp_client_connection_state_t expected, mcp_client_connection_state_t new_state);
+
 /**
  * @brief Update connection statistics
  */
diff --git a/src/transport/mcp_sthttp_client_transport.c b/src/transport/mcp_sthttp_client_transport.c
index ef94a7c..3613e02 100644
--- a/src/transport/mcp_sthttp_client_transport.c
+++ b/src/transport/mcp_sthttp_client_transport.c
@@ -162,11 +162,6 @@ void sthttp_client_cleanup(sthttp_client_data_t* data) {
     // Stop threads
     data->shutdown_requested = true;
     
-    if (data->sse_conn && data->sse_conn->sse_thread_running) {
-        data->sse_conn->sse_thread_running = false;
-        mcp_thread_join(data->sse_conn->sse_thread, NULL);
-    }
-
     if (data->reconnect_thread_running) {
         data->reconnect_thread_running = false;
         mcp_thread_join(data->reconnect_thread, NULL);
@@ -234,8 +229,9 @@ static int sthttp_client_start(mcp_transport_t* transport, mcp_transport_message
         return -1;
     }
 
-    http_client_set_state(data, MCP_CLIENT_STATE_CONNECTING);
+    data->shutdown_requested = false;
     mcp_mutex_unlock(data->state_mutex);
+    http_client_set_state(data, MCP_CLIENT_STATE_CONNECTING);
 
     // Start SSE connection if enabled
     if (data->config.enable_sse_streams) {
@@ -244,8 +240,9 @@ static int sthttp_client_start(mcp_transport_t* transport, mcp_transport_message
         }
     }
 
-    http_client_set_state(data, MCP_CLIENT_STATE_CONNECTED);
-    
+    // The SSE stream, if there is one, has set its own state
+    http_client_replace_state(data, MCP_CLIENT_STATE_CONNECTING, MCP_CLIENT_STATE_CONNECTED);
+
     mcp_log_info("HTTP Streamable client transport started");
     return 0;
 }
@@ -268,8 +265,8 @@ static int sthttp_client_stop(mcp_transport_t* transport) {
     }
 
     data->shutdown_requested = true;
-    http_client_set_state(data, MCP_CLIENT_STATE_DISCONNECTED);
     mcp_mutex_unlock(data->state_mutex);
+    http_client_set_state(data, MCP_CLIENT_STATE_DISCONNECTED);
 
     // Disconnect SSE
     sse_client_disconnect(data);
@@ -505,20 +502,9 @@ int mcp_sthttp_client_set_sse_callback(mcp_transport_t* transport, mcp_client_ss
 }
 
 /**
- * @brief Change connection state
+ * @brief Tell the user about a change of the connection state
  */
-void http_client_set_state(sthttp_client_data_t* data, mcp_client_connection_state_t new_state) {
-    if (data == NULL) {
-        return;
-    }
-
-    mcp_client_connection_state_t old_state;
-
-    mcp_mutex_lock(data->state_mutex);
-    old_state = data->state;
-    data->state = new_state;
-    mcp_mutex_unlock(data->state_mutex);
-
+static void notify_state(sthttp_client_data_t* data, mcp_client_connection_state_t old_state, mcp_client_connection_state_t new_state) {
     if (old_state != new_state) {
         mcp_log_debug("HTTP client state changed: %d -> %d", old_state, new_state);
 
@@ -534,6 +520,42 @@ void http_client_set_state(sthttp_client_data_t* data, mcp_client_connection_sta
     }
 }
 
+/**
+ * @brief Change connection state
+ */
+void http_client_set_state(sthttp_client_data_t* data, mcp_client_connection_state_t new_state) {
+    if (data == NULL) {
+        return;
+    }
+
+    mcp_mutex_lock(data->state_mutex);
+    mcp_client_connection_state_t old_state = data->state;
+    data->state = new_state;
+    mcp_mutex_unlock(data->state_mutex);
+
+    notify_state(data, old_state, new_state);
+}
+
+/**
+ * @brief Change connection state if it is still the expected one
+ */
+void http_client_replace_state(sthttp_client_data_t* data, mcp_client_connection_state_t expected, mcp_client_connection_state_t new_state) {
+    if (data == NULL) {
+        return;
+    }
+
+    mcp_mutex_lock(data->state_mutex);
+    bool replaced = data->state == expected;
+    if (replaced) {
+        data->state = new_state;
+    }
+    mcp_mutex_unlock(data->state_mutex);
+
+    if (replaced) {
+        notify_state(data, expected, new_state);
+    }
+}
+
 /**
  * @brief Update connection statistics
  */
-- 
2.43.0


From 1bc90e59a112aec3b53b3d6185cddc30ecc6c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:16 +0000
Subject: [PATCH 131/167] fix: open the streamable HTTP client's event stream
 and deliver each of its events once

---
 .../internal/sthttp_client_internal.h         |  11 +-
 .../internal/sthttp_transport_internal.h      |   8 +-
 src/transport/mcp_sthttp_client_core.c        |  24 ++
 src/transport/mcp_sthttp_client_sse.c         | 243 +++++++++---------
 src/transport/mcp_sthttp_http_parser.c        |   8 +-
 src/transport/mcp_sthttp_sse_parser.c         |  48 ++--
 6 files changed, 194 insertions(+), 148 deletions(-)

diff --git a/src/transport/internal/sthttp_client_internal.h b/src/transport/internal/sthttp_client_internal.h
index 4b99345..4ae9eda 100644
--- a/src/transport/internal/sthttp_client_internal.h
+++ b/src/transport/internal/sthttp_client_internal.h
@@ -69,11 +69,9 @@ typedef struct {
     socket_t socket_fd;                  /**< Socket file descriptor */
     bool connected;                      /**< Whether SSE stream is connected */
     char* last_event_id;                 /**< Last received event ID */
-    char* buffer;                        /**< Receive buffer */
-    size_t buffer_size;                  /**< Size of receive buffer */
-    size_t buffer_used;                  /**< Used bytes in buffer */
-    http_parse_state_t parse_state;      /**< Current parsing state */
+    struct http_parser_context* http_parser; /**< Parser of the response that carries the stream */
     mcp_thread_t sse_thread;             /**< SSE receive thread */
+    bool sse_thread_started;             /**< Whether SSE thread was started and must be joined */
     volatile bool sse_thread_running;    /**< Whether SSE thread is running */
 } sse_connection_t;
 
@@ -216,6 +214,11 @@ int http_client_receive_response(socket_t socket_fd, char* buffer, size_t buffer
  */
 int http_client_receive_response_optimized(socket_t socket_fd, http_response_t* response, uint32_t timeout_ms);
 
+/**
+ * @brief Receive HTTP response up to the end of its headers; body data that came along stays in the parser
+ */
+int http_client_receive_headers(socket_t socket_fd, struct http_parser_context* parser, uint32_t timeout_ms);
+
 /**
  * @brief Build HTTP request string
  */
diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index 3de7751..59258f4 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -171,6 +171,8 @@ typedef struct sse_parser_context {
     // Parser state
     bool in_field_value;
     bool field_value_started;
+    bool has_data;
+    bool last_was_cr;
 } sse_parser_context_t;
 
 /**
@@ -521,10 +523,12 @@ void sse_parser_destroy(sse_parser_context_t* parser);
 void sse_parser_reset(sse_parser_context_t* parser);
 
 /**
- * @brief Process SSE data chunk incrementally
+ * @brief Process SSE data chunk incrementally, up to the end of the next event
+ *
+ * @param consumed Number of bytes processed; call again with the rest after an event
  */
 int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t length,
-                      sse_event_t* event_out);
+                      sse_event_t* event_out, size_t* consumed);
 
 /**
  * @brief Check if SSE event parsing is complete
diff --git a/src/transport/mcp_sthttp_client_core.c b/src/transport/mcp_sthttp_client_core.c
index cd04d24..dec9593 100644
--- a/src/transport/mcp_sthttp_client_core.c
+++ b/src/transport/mcp_sthttp_client_core.c
@@ -210,6 +210,30 @@ int http_client_receive_response_optimized(socket_t socket_fd, http_response_t*
     return result;
 }
 
+/**
+ * @brief Receive HTTP response up to the end of its headers
+ */
+int http_client_receive_headers(socket_t socket_fd, http_parser_context_t* parser, uint32_t timeout_ms) {
+    if (socket_fd == MCP_INVALID_SOCKET || parser == NULL) {
+        return -1;
+    }
+
+    char temp_buffer[1024];
+    while (parser->state == HTTP_PARSE_STATE_STATUS_LINE || parser->state == HTTP_PARSE_STATE_HEADERS) {
+        ssize_t bytes_received = socket_recv_with_timeout(socket_fd, temp_buffer, sizeof(temp_buffer), timeout_ms);
+        if (bytes_received <= 0) {
+            mcp_log_error("Connection closed or timeout before the end of the response headers");
+            return -1;
+        }
+
+        if (http_parser_process(parser, temp_buffer, bytes_received, NULL) < 0) {
+            mcp_log_error("HTTP parsing error");
+            return -1;
+        }
+    }
+    return 0;
+}
+
 /**
  * @brief Receive HTTP response over socket (legacy implementation)
  */
diff --git a/src/transport/mcp_sthttp_client_sse.c b/src/transport/mcp_sthttp_client_sse.c
index 6280ade..e0e8816 100644
--- a/src/transport/mcp_sthttp_client_sse.c
+++ b/src/transport/mcp_sthttp_client_sse.c
@@ -280,6 +280,16 @@ void sse_free_event(sse_event_t* event) {
     memset(event, 0, sizeof(sse_event_t));
 }
 
+/**
+ * @brief Close the socket of an SSE stream
+ */
+static void sse_client_close_socket(sse_connection_t* conn) {
+    if (conn->socket_fd != MCP_INVALID_SOCKET) {
+        mcp_socket_close(conn->socket_fd);
+        conn->socket_fd = MCP_INVALID_SOCKET;
+    }
+}
+
 /**
  * @brief Connect SSE stream
  */
@@ -304,18 +314,25 @@ int sse_client_connect(sthttp_client_data_t* data) {
             return -1;
         }
         memset(data->sse_conn, 0, sizeof(sse_connection_t));
-        
-        // Allocate receive buffer
-        data->sse_conn->buffer_size = HTTP_CLIENT_BUFFER_SIZE;
-        data->sse_conn->buffer = (char*)malloc(data->sse_conn->buffer_size);
-        if (data->sse_conn->buffer == NULL) {
-            free(data->sse_conn);
-            data->sse_conn = NULL;
-            mcp_mutex_unlock(data->sse_mutex);
-            return -1;
-        }
+        data->sse_conn->socket_fd = MCP_INVALID_SOCKET;
     }
 
+    // The thread and the socket of a stream that has ended
+    if (data->sse_conn->sse_thread_started) {
+        mcp_thread_join(data->sse_conn->sse_thread, NULL);
+        data->sse_conn->sse_thread_started = false;
+    }
+    sse_client_close_socket(data->sse_conn);
+
+    // The response goes on for as long as the stream does
+    http_parser_destroy(data->sse_conn->http_parser);
+    data->sse_conn->http_parser = http_parser_create();
+    if (data->sse_conn->http_parser == NULL) {
+        mcp_mutex_unlock(data->sse_mutex);
+        return -1;
+    }
+    http_parser_context_t* response = data->sse_conn->http_parser;
+
     // Create socket connection
     data->sse_conn->socket_fd = http_client_create_socket(data->config.host, data->config.port, data->config.connect_timeout_ms);
     if (data->sse_conn->socket_fd == MCP_INVALID_SOCKET) {
@@ -326,7 +343,7 @@ int sse_client_connect(sthttp_client_data_t* data) {
     // Build SSE request
     char* request = http_client_build_request(data, "GET", NULL);
     if (request == NULL) {
-        mcp_socket_close(data->sse_conn->socket_fd);
+        sse_client_close_socket(data->sse_conn);
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
@@ -335,64 +352,55 @@ int sse_client_connect(sthttp_client_data_t* data) {
     int result = http_client_send_raw_request(data->sse_conn->socket_fd, request, data->config.request_timeout_ms);
     free(request);
     if (result != 0) {
-        mcp_socket_close(data->sse_conn->socket_fd);
+        sse_client_close_socket(data->sse_conn);
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
 
-    // Use optimized HTTP response receiver for headers
-    http_response_t response;
-    memset(&response, 0, sizeof(response)); // Initialize response structure
-    result = http_client_receive_response_optimized(data->sse_conn->socket_fd, &response, data->config.request_timeout_ms);
+    // Receive the headers of the response
+    result = http_client_receive_headers(data->sse_conn->socket_fd, response, data->config.request_timeout_ms);
     if (result != 0) {
-        mcp_socket_close(data->sse_conn->socket_fd);
+        sse_client_close_socket(data->sse_conn);
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
 
     // Check HTTP status code
-    if (response.status_code != 200) {
-        mcp_log_error("SSE connection failed with status %d", response.status_code);
-        http_client_free_response(&response);
-        mcp_socket_close(data->sse_conn->socket_fd);
+    if (response->status_code != 200) {
+        mcp_log_error("SSE connection failed with status %d", response->status_code);
+        sse_client_close_socket(data->sse_conn);
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
 
-    // Debug: Log the full response for troubleshooting
-    mcp_log_debug("Parsed content type: '%s'", response.content_type ? response.content_type : "NULL");
-
     // Verify content type
-    if (response.content_type == NULL || strstr(response.content_type, "text/event-stream") == NULL) {
-        mcp_log_error("Invalid SSE content type: %s", response.content_type ? response.content_type : "none");
+    if (response->content_type == NULL || strstr(response->content_type, "text/event-stream") == NULL) {
+        mcp_log_error("Invalid SSE content type: %s", response->content_type ? response->content_type : "none");
         mcp_log_error("Expected: text/event-stream");
-        http_client_free_response(&response);
-        mcp_socket_close(data->sse_conn->socket_fd);
+        sse_client_close_socket(data->sse_conn);
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
 
-    http_client_free_response(&response);
-
     // Mark as connected
     data->sse_conn->connected = true;
-    data->sse_conn->buffer_used = 0;
-    data->sse_conn->parse_state = HTTP_PARSE_STATE_COMPLETE; // Skip headers, go straight to body
-    
+    http_client_set_state(data, MCP_CLIENT_STATE_SSE_CONNECTED);
+
     // Start SSE receive thread
     data->sse_conn->sse_thread_running = true;
     if (mcp_thread_create(&data->sse_conn->sse_thread, sse_client_thread_func, data) != 0) {
         mcp_log_error("Failed to create SSE receive thread");
         data->sse_conn->connected = false;
         data->sse_conn->sse_thread_running = false;
-        mcp_socket_close(data->sse_conn->socket_fd);
+        sse_client_close_socket(data->sse_conn);
+        http_client_set_state(data, MCP_CLIENT_STATE_CONNECTED);
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
+    data->sse_conn->sse_thread_started = true;
 
     mcp_mutex_unlock(data->sse_mutex);
-    
-    http_client_set_state(data, MCP_CLIENT_STATE_SSE_CONNECTED);
+
     mcp_log_info("SSE stream connected");
 
     return 0;
@@ -414,14 +422,16 @@ void sse_client_disconnect(sthttp_client_data_t* data) {
     }
 
     // Stop SSE thread
-    if (data->sse_conn->sse_thread_running) {
-        data->sse_conn->sse_thread_running = false;
+    data->sse_conn->sse_thread_running = false;
+    if (data->sse_conn->sse_thread_started) {
+        data->sse_conn->sse_thread_started = false;
 
-        // Close socket to interrupt recv()
-        if (data->sse_conn->socket_fd != MCP_INVALID_SOCKET) {
-            mcp_socket_close(data->sse_conn->socket_fd);
-            data->sse_conn->socket_fd = MCP_INVALID_SOCKET;
-        }
+        // Shut the socket down to interrupt the thread; it is closed when the thread no longer uses it
+#ifdef _WIN32
+        shutdown(data->sse_conn->socket_fd, SD_BOTH);
+#else
+        shutdown(data->sse_conn->socket_fd, SHUT_RDWR);
+#endif
 
         mcp_mutex_unlock(data->sse_mutex);
 
@@ -433,9 +443,10 @@ void sse_client_disconnect(sthttp_client_data_t* data) {
 
     // Mark as disconnected
     data->sse_conn->connected = false;
+    sse_client_close_socket(data->sse_conn);
 
     // Free resources
-    free(data->sse_conn->buffer);
+    http_parser_destroy(data->sse_conn->http_parser);
     free(data->sse_conn->last_event_id);
     free(data->sse_conn);
     data->sse_conn = NULL;
@@ -445,6 +456,52 @@ void sse_client_disconnect(sthttp_client_data_t* data) {
     mcp_log_info("SSE stream disconnected");
 }
 
+/**
+ * @brief Deliver the events in a piece of the stream
+ */
+static int sse_client_process(sthttp_client_data_t* data, sse_parser_context_t* parser, const char* stream, size_t length) {
+    while (length > 0) {
+        sse_event_t event;
+        size_t consumed = 0;
+        int parse_result = sse_parser_process(parser, stream, length, &event, &consumed);
+        if (parse_result < 0) {
+            mcp_log_error("SSE parsing error");
+            return -1;
+        }
+        stream += consumed;
+        length -= consumed;
+        if (parse_result == 0) {
+            continue; // Need more data
+        }
+
+        // Update last event ID
+        if (event.id) {
+            mcp_mutex_lock(data->sse_mutex);
+            free(data->sse_conn->last_event_id);
+            data->sse_conn->last_event_id = mcp_strdup(event.id);
+            mcp_mutex_unlock(data->sse_mutex);
+        }
+
+        // Update statistics
+        http_client_update_stats(data, "sse_event_received");
+
+        // Call SSE callback
+        if (data->sse_callback) {
+            // Create temporary transport for callback
+            mcp_transport_t temp_transport = {
+                .type = MCP_TRANSPORT_TYPE_CLIENT,
+                .protocol_type = MCP_TRANSPORT_PROTOCOL_HTTP,
+                .transport_data = data
+            };
+            data->sse_callback(&temp_transport, event.id, event.event, event.data, data->sse_callback_user_data);
+        }
+
+        // Free event
+        sse_free_event(&event);
+    }
+    return 0;
+}
+
 /**
  * @brief SSE receive thread function with optimized parser
  */
@@ -456,21 +513,29 @@ void* sse_client_thread_func(void* arg) {
 
     mcp_log_debug("SSE receive thread started");
 
+    sse_connection_t* conn = data->sse_conn;
+    http_parser_context_t* response = conn->http_parser;
     char temp_buffer[1024];
     sse_parser_context_t* parser = sse_parser_create();
     if (parser == NULL) {
         mcp_log_error("Failed to create SSE parser");
-        return NULL;
     }
 
-    while (data->sse_conn && data->sse_conn->sse_thread_running && !data->shutdown_requested) {
+    while (parser != NULL && conn->sse_thread_running && !data->shutdown_requested) {
+        // Deliver what the response has brought so far, the first of it together with the headers
+        int process_result = sse_client_process(data, parser, response->body, response->body_length);
+        response->body_length = 0;
+        if (process_result != 0 || http_parser_is_complete(response)) {
+            break;
+        }
+
         // Receive data using socket utility function
-        int wait_result = mcp_socket_wait_readable(data->sse_conn->socket_fd, 1000, NULL);
-        if (wait_result <= 0) {
-            continue; // Timeout or error, continue loop
+        int wait_result = mcp_socket_wait_readable(conn->socket_fd, 1000, NULL);
+        if (wait_result == 0) {
+            continue; // Timeout, continue loop
         }
 
-        ssize_t bytes_received = recv(data->sse_conn->socket_fd, temp_buffer, sizeof(temp_buffer) - 1, 0);
+        ssize_t bytes_received = wait_result < 0 ? -1 : recv(conn->socket_fd, temp_buffer, sizeof(temp_buffer), 0);
         if (bytes_received <= 0) {
             if (bytes_received == 0) {
                 mcp_log_info("SSE connection closed by server");
@@ -479,89 +544,21 @@ void* sse_client_thread_func(void* arg) {
             }
             break;
         }
-        temp_buffer[bytes_received] = '\0';
-
-        // Add to buffer
-        mcp_mutex_lock(data->sse_mutex);
-
-        if (data->sse_conn->buffer_used + bytes_received >= data->sse_conn->buffer_size) {
-            // Expand buffer
-            size_t new_size = data->sse_conn->buffer_size * 2;
-            char* new_buffer = (char*)realloc(data->sse_conn->buffer, new_size);
-            if (new_buffer == NULL) {
-                mcp_log_error("Failed to expand SSE buffer");
-                mcp_mutex_unlock(data->sse_mutex);
-                break;
-            }
-            data->sse_conn->buffer = new_buffer;
-            data->sse_conn->buffer_size = new_size;
-        }
-
-        memcpy(data->sse_conn->buffer + data->sse_conn->buffer_used, temp_buffer, bytes_received);
-        data->sse_conn->buffer_used += bytes_received;
-        data->sse_conn->buffer[data->sse_conn->buffer_used] = '\0';
 
-        mcp_mutex_unlock(data->sse_mutex);
-
-        // Process events using optimized parser
-        mcp_mutex_lock(data->sse_mutex);
-        char* buffer_data = data->sse_conn->buffer;
-        size_t buffer_length = data->sse_conn->buffer_used;
-        mcp_mutex_unlock(data->sse_mutex);
-
-        sse_event_t event;
-        int parse_result = sse_parser_process(parser, buffer_data, buffer_length, &event);
-
-        if (parse_result > 0) {
-            // Event parsed successfully
-            // Update last event ID
-            if (event.id) {
-                mcp_mutex_lock(data->sse_mutex);
-                free(data->sse_conn->last_event_id);
-                data->sse_conn->last_event_id = mcp_strdup(event.id);
-                mcp_mutex_unlock(data->sse_mutex);
-            }
-
-            // Update statistics
-            http_client_update_stats(data, "sse_event_received");
-
-            // Call SSE callback
-            if (data->sse_callback) {
-                // Create temporary transport for callback
-                mcp_transport_t temp_transport = {
-                    .type = MCP_TRANSPORT_TYPE_CLIENT,
-                    .protocol_type = MCP_TRANSPORT_PROTOCOL_HTTP,
-                    .transport_data = data
-                };
-                data->sse_callback(&temp_transport, event.id, event.event, event.data, data->sse_callback_user_data);
-            }
-
-            // Free event
-            sse_free_event(&event);
-
-            // Clear processed data from buffer
-            mcp_mutex_lock(data->sse_mutex);
-            data->sse_conn->buffer_used = 0;
-            mcp_mutex_unlock(data->sse_mutex);
-        } else if (parse_result < 0) {
-            // Parsing error
-            mcp_log_error("SSE parsing error");
+        if (http_parser_process(response, temp_buffer, bytes_received, NULL) < 0) {
+            mcp_log_error("HTTP parsing error in SSE stream");
             break;
         }
-        // parse_result == 0 means need more data, continue loop
-
     }
 
     // Cleanup
     sse_parser_destroy(parser);
 
     // Update state
-    if (data->sse_conn) {
-        data->sse_conn->connected = false;
-        data->sse_conn->sse_thread_running = false;
-    }
+    conn->connected = false;
+    conn->sse_thread_running = false;
 
-    http_client_set_state(data, MCP_CLIENT_STATE_CONNECTED);
+    http_client_replace_state(data, MCP_CLIENT_STATE_SSE_CONNECTED, MCP_CLIENT_STATE_CONNECTED);
 
     mcp_log_debug("SSE receive thread finished");
     return NULL;
diff --git a/src/transport/mcp_sthttp_http_parser.c b/src/transport/mcp_sthttp_http_parser.c
index b268aeb..26aeb97 100644
--- a/src/transport/mcp_sthttp_http_parser.c
+++ b/src/transport/mcp_sthttp_http_parser.c
@@ -310,7 +310,7 @@ static int expand_line_buffer(http_parser_context_t* parser, size_t needed_size)
  */
 int http_parser_process(http_parser_context_t* parser, const char* data, size_t length, 
                        http_response_t* response) {
-    if (parser == NULL || data == NULL || response == NULL) {
+    if (parser == NULL || data == NULL) {
         return -1;
     }
     
@@ -391,9 +391,11 @@ int http_parser_process(http_parser_context_t* parser, const char* data, size_t
         }
     }
     
-    // Fill response structure if parsing is complete
+    // Fill response structure if parsing is complete; without one everything stays in the parser
     if (parser->state == HTTP_PARSE_STATE_COMPLETE) {
-        fill_response(parser, response);
+        if (response) {
+            fill_response(parser, response);
+        }
         return 1; // Complete
     } else if (parser->state == HTTP_PARSE_STATE_ERROR) {
         return -1; // Error
diff --git a/src/transport/mcp_sthttp_sse_parser.c b/src/transport/mcp_sthttp_sse_parser.c
index 47a8b94..a907d6d 100644
--- a/src/transport/mcp_sthttp_sse_parser.c
+++ b/src/transport/mcp_sthttp_sse_parser.c
@@ -97,6 +97,7 @@ void sse_parser_reset(sse_parser_context_t* parser) {
     parser->data_accumulator_length = 0;
     parser->in_field_value = false;
     parser->field_value_started = false;
+    parser->has_data = false;
     
     free(parser->event_id);
     free(parser->event_type);
@@ -162,9 +163,10 @@ static int process_field(sse_parser_context_t* parser) {
             return -1;
         }
         
-        if (parser->data_accumulator_length > 0) {
+        if (parser->has_data) {
             parser->data_accumulator[parser->data_accumulator_length++] = '\n';
         }
+        parser->has_data = true;
         
         memcpy(parser->data_accumulator + parser->data_accumulator_length, 
                parser->current_field_value, value_len);
@@ -191,13 +193,17 @@ static int process_line(sse_parser_context_t* parser) {
     
     // Empty line indicates end of event
     if (parser->line_buffer_length == 0) {
-        // Finalize event data
-        if (parser->data_accumulator_length > 0) {
-            free(parser->event_data);
-            parser->event_data = mcp_strdup(parser->data_accumulator);
-            parser->data_accumulator_length = 0;
+        // Without data there is no event, for example after a comment
+        if (!parser->has_data) {
+            sse_parser_reset(parser);
+            return 0;
         }
-        
+
+        // Finalize event data
+        free(parser->event_data);
+        parser->event_data = mcp_strdup(parser->data_accumulator);
+        parser->data_accumulator_length = 0;
+
         parser->state = SSE_PARSE_STATE_EVENT_COMPLETE;
         return 0;
     }
@@ -227,11 +233,12 @@ static int process_line(sse_parser_context_t* parser) {
             }
             parser->current_field_name[parser->field_name_length++] = c;
         } else {
-            // Field value - skip leading space
-            if (!parser->field_value_started && c == ' ') {
+            // Field value - skip one leading space
+            bool first = !parser->field_value_started;
+            parser->field_value_started = true;
+            if (first && c == ' ') {
                 continue;
             }
-            parser->field_value_started = true;
             
             if (expand_buffer(&parser->current_field_value, &parser->field_value_capacity, 
                              parser->field_value_length + 2) != 0) {
@@ -249,8 +256,8 @@ static int process_line(sse_parser_context_t* parser) {
  * @brief Process data chunk incrementally
  */
 int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t length, 
-                      sse_event_t* event_out) {
-    if (parser == NULL || data == NULL) {
+                      sse_event_t* event_out, size_t* consumed) {
+    if (parser == NULL || data == NULL || consumed == NULL) {
         return -1;
     }
     
@@ -261,8 +268,15 @@ int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t le
            parser->state != SSE_PARSE_STATE_ERROR) {
         
         char c = *ptr++;
-        
-        if (c == '\n') {
+
+        // Lines end with CR, LF or both
+        if (c == '\n' && parser->last_was_cr) {
+            parser->last_was_cr = false;
+            continue;
+        }
+        parser->last_was_cr = (c == '\r');
+
+        if (c == '\n' || c == '\r') {
             // End of line - process it
             if (process_line(parser) != 0) {
                 parser->state = SSE_PARSE_STATE_ERROR;
@@ -274,8 +288,8 @@ int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t le
             if (parser->state == SSE_PARSE_STATE_EVENT_COMPLETE) {
                 break;
             }
-        } else if (c != '\r') {
-            // Add character to line buffer (skip \r)
+        } else {
+            // Add character to line buffer
             if (expand_buffer(&parser->line_buffer, &parser->line_buffer_capacity, 
                              parser->line_buffer_length + 2) != 0) {
                 parser->state = SSE_PARSE_STATE_ERROR;
@@ -286,6 +300,8 @@ int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t le
         }
     }
     
+    *consumed = (size_t)(ptr - data);
+
     // Fill event structure if parsing is complete
     if (parser->state == SSE_PARSE_STATE_EVENT_COMPLETE && event_out != NULL) {
         memset(event_out, 0, sizeof(sse_event_t));
-- 
2.43.0


From 3a67fc5e92ee5b3dc10ae4758f986de175a87102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:29:50 +0000
Subject: [PATCH 132/167] fix: enforce the MQTT queue limit for concurrent
 senders

The limit was checked before the entry was built and not again when it was
added, so several senders could pass the check together and overfill the
queue.
---
 src/transport/mcp_mqtt_common.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_mqtt_common.c b/src/transport/mcp_mqtt_common.c
index 3616521..8301190 100644
--- a/src/transport/mcp_mqtt_common.c
+++ b/src/transport/mcp_mqtt_common.c
@@ -251,9 +251,18 @@ int mqtt_enqueue_message(mcp_mqtt_transport_data_t* data, const char* topic,
     entry->retry_count = 0;
     entry->next = NULL;
     
-    // Add to queue
+    // Add to queue, unless other senders have filled it in the meantime
     mcp_mutex_lock(data->message_mutex);
 
+    if (data->message_queue_size >= (int)data->max_queue_size) {
+        mcp_mutex_unlock(data->message_mutex);
+        mcp_log_warn("MQTT message queue is full, dropping message");
+        free(entry->topic);
+        free(entry->payload);
+        free(entry);
+        return -1;
+    }
+
     if (data->message_queue_tail) {
         data->message_queue_tail->next = entry;
         data->message_queue_tail = entry;
-- 
2.43.0


From 5303c032c4f3dac6741bc00613f0f20bfc8ec603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:31:38 +0000
Subject: [PATCH 133/167] fix: keep MQTT messages queued until they have been
 sent

A message was taken off the queue and freed even when there was no
connection or the publish call failed, so it was lost.
---
 src/transport/mcp_mqtt_common.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_mqtt_common.c b/src/transport/mcp_mqtt_common.c
index 8301190..8803e6c 100644
--- a/src/transport/mcp_mqtt_common.c
+++ b/src/transport/mcp_mqtt_common.c
@@ -289,7 +289,12 @@ int mqtt_process_message_queue(mcp_mqtt_transport_data_t* data) {
     
     mcp_mqtt_message_queue_entry_t* entry = NULL;
     
-    // Get next message from queue
+    // Messages wait in the queue until there is a connection
+    if (!data->wsi) {
+        return -1;
+    }
+
+    // Get next message from queue. It counts as queued until it has been sent.
     mcp_mutex_lock(data->message_mutex);
 
     if (data->message_queue_head) {
@@ -298,7 +303,6 @@ int mqtt_process_message_queue(mcp_mqtt_transport_data_t* data) {
         if (!data->message_queue_head) {
             data->message_queue_tail = NULL;
         }
-        data->message_queue_size--;
     }
 
     mcp_mutex_unlock(data->message_mutex);
@@ -328,6 +332,24 @@ int mqtt_process_message_queue(mcp_mqtt_transport_data_t* data) {
         }
     }
     
+    // Keep a message that could not be sent at the front of the queue
+    mcp_mutex_lock(data->message_mutex);
+    if (result != 0) {
+        entry->retry_count++;
+        entry->next = data->message_queue_head;
+        data->message_queue_head = entry;
+        if (!data->message_queue_tail) {
+            data->message_queue_tail = entry;
+        }
+    } else {
+        data->message_queue_size--;
+    }
+    mcp_mutex_unlock(data->message_mutex);
+
+    if (result != 0) {
+        return result;
+    }
+
     // Update statistics
     if (result == 0) {
         mcp_mutex_lock(data->stats_mutex);
-- 
2.43.0


From 361388a729e59d7e1412fac089976bd1e2eb20aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:31:38 +0000
Subject: [PATCH 134/167] fix: match MQTT request topics with prefixes of any
 length

The pattern was cut off after 255 characters, so with a long prefix every
topic below it was taken for a request and answered on a wrong topic.
---
 src/transport/mcp_mqtt_common.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/transport/mcp_mqtt_common.c b/src/transport/mcp_mqtt_common.c
index 8803e6c..6159f8e 100644
--- a/src/transport/mcp_mqtt_common.c
+++ b/src/transport/mcp_mqtt_common.c
@@ -366,6 +366,15 @@ int mqtt_process_message_queue(mcp_mqtt_transport_data_t* data) {
     return result;
 }
 
+/**
+ * @brief Checks whether a topic has the form {prefix}request/...
+ */
+static bool mqtt_is_request_topic(const char* topic, const char* prefix) {
+    size_t prefix_len = strlen(prefix);
+    return strncmp(topic, prefix, prefix_len) == 0 &&
+           strncmp(topic + prefix_len, "request/", strlen("request/")) == 0;
+}
+
 /**
  * @brief Extracts client ID from a request topic
  */
@@ -375,15 +384,12 @@ static char* mqtt_extract_client_id_from_topic(const char* topic, const char* pr
     }
 
     // Expected format: {prefix}request/{client_id}
-    char expected_prefix[256];
-    snprintf(expected_prefix, sizeof(expected_prefix), "%srequest/", prefix);
-
-    if (strncmp(topic, expected_prefix, strlen(expected_prefix)) != 0) {
+    if (!mqtt_is_request_topic(topic, prefix)) {
         return NULL;
     }
 
     // Extract client_id part
-    const char* client_id_start = topic + strlen(expected_prefix);
+    const char* client_id_start = topic + strlen(prefix) + strlen("request/");
     return mcp_strdup(client_id_start);
 }
 
@@ -429,9 +435,7 @@ int mqtt_handle_incoming_message(mcp_mqtt_transport_data_t* data, const char* to
     const char* prefix = data->config.topic_prefix ? data->config.topic_prefix : "mcp/";
 
     // Check if this is a request message (for server)
-    char request_pattern[256];
-    snprintf(request_pattern, sizeof(request_pattern), "%srequest/", prefix);
-    if (strncmp(topic, request_pattern, strlen(request_pattern)) == 0) {
+    if (mqtt_is_request_topic(topic, prefix)) {
         is_mcp_message = true;
         is_request_message = true;
         client_id_from_topic = mqtt_extract_client_id_from_topic(topic, prefix);
-- 
2.43.0


From e9148b917d90d57724a8285da48287079a834691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:31:52 +0000
Subject: [PATCH 135/167] fix: keep the topic token of MQTT clients with long
 ids

The id and its random token were put in a 256 byte buffer, so with a long
id the token was cut off.
---
 src/transport/mcp_mqtt_common.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_mqtt_common.c b/src/transport/mcp_mqtt_common.c
index 6159f8e..bc75a3b 100644
--- a/src/transport/mcp_mqtt_common.c
+++ b/src/transport/mcp_mqtt_common.c
@@ -110,8 +110,13 @@ int mqtt_resolve_topics(mcp_mqtt_transport_data_t* data, const char* client_id)
     mqtt_generate_security_token(security_token, sizeof(security_token));
 
     // Create secure client identifier
-    char secure_client_id[256];
-    snprintf(secure_client_id, sizeof(secure_client_id), "%s_%s", client_id, security_token);
+    size_t secure_client_id_size = strlen(client_id) + 1 + sizeof(security_token);
+    char* secure_client_id = malloc(secure_client_id_size);
+    if (!secure_client_id) {
+        mcp_log_error("Failed to allocate MQTT client identifier");
+        return -1;
+    }
+    snprintf(secure_client_id, secure_client_id_size, "%s_%s", client_id, security_token);
 
     // Resolve request topic with security token
     if (data->config.request_topic) {
@@ -149,6 +154,8 @@ int mqtt_resolve_topics(mcp_mqtt_transport_data_t* data, const char* client_id)
         }
     }
     
+    free(secure_client_id);
+
     if (!data->resolved_request_topic || !data->resolved_response_topic || 
         !data->resolved_notification_topic) {
         mcp_log_error("Failed to resolve MQTT topics");
-- 
2.43.0


From 52ae2cdc60bbd5e6a54b6ba9a54bc63033e4d8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:06:46 +0000
Subject: [PATCH 136/167] fix: let the TCP client reconnect more than once

The flag of the reconnect thread was never cleared when the thread ended, so
the second loss of a connection was final. The receiver of the lost
connection is now joined before a new one starts, it would otherwise mark the
new connection as lost when it ends.
---
 src/transport/mcp_tcp_client_reconnect.c | 59 ++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/src/transport/mcp_tcp_client_reconnect.c b/src/transport/mcp_tcp_client_reconnect.c
index 8f970f8..f2bc037 100644
--- a/src/transport/mcp_tcp_client_reconnect.c
+++ b/src/transport/mcp_tcp_client_reconnect.c
@@ -18,6 +18,7 @@
 #include <windows.h>
 #else
 #include <pthread.h>
+#include <sys/socket.h>
 #include <unistd.h>
 #endif
 
@@ -306,6 +307,27 @@ static int attempt_reconnect(mcp_tcp_client_transport_data_t* data) {
     return 0;
 }
 
+/**
+ * @brief Waits for the receiver thread of a lost connection to finish.
+ *
+ * @param data Pointer to the TCP client transport data
+ */
+static void join_lost_receiver(mcp_tcp_client_transport_data_t* data) {
+    // Unblock the receiver, the socket itself is closed by the next attempt
+    if (data->sock != MCP_INVALID_SOCKET) {
+#ifdef _WIN32
+        shutdown(data->sock, SD_BOTH);
+#else
+        shutdown(data->sock, SHUT_RDWR);
+#endif
+    }
+
+    if (data->receive_thread) {
+        mcp_thread_join(data->receive_thread, NULL);
+        data->receive_thread = 0;
+    }
+}
+
 /**
  * @brief Thread function for handling reconnection attempts with exponential backoff.
  *
@@ -347,6 +369,9 @@ void* tcp_client_reconnect_thread_func(void* arg) {
         return NULL;
     }
 
+    // The receiver of the lost connection must be gone before a new one starts
+    join_lost_receiver(data);
+
     // Main reconnection loop
     while (data->reconnect_thread_running) {
         // Lock mutex to access shared reconnection state
@@ -373,6 +398,7 @@ void* tcp_client_reconnect_thread_func(void* arg) {
         }
 
         if (should_stop) {
+            data->reconnect_thread_running = false;
             mcp_mutex_unlock(data->reconnect_mutex);
             break;
         }
@@ -412,6 +438,7 @@ void* tcp_client_reconnect_thread_func(void* arg) {
         if (attempt_reconnect(data) == 0) {
             // Reconnection successful
             mcp_log_info("Reconnection successful, exiting reconnect thread");
+            data->reconnect_thread_running = false;
             mcp_mutex_unlock(data->reconnect_mutex);
             break;
         }
@@ -428,6 +455,7 @@ void* tcp_client_reconnect_thread_func(void* arg) {
             // Update connection state to failed
             mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_FAILED);
 
+            data->reconnect_thread_running = false;
             mcp_mutex_unlock(data->reconnect_mutex);
             break;
         }
@@ -479,8 +507,21 @@ int start_reconnection_process(mcp_transport_t* transport) {
         return 0;
     }
 
+    // Check if another thread has reconnected in the meantime
+    if (data->connected) {
+        mcp_log_debug("Already connected, not starting reconnection process");
+        mcp_mutex_unlock(data->reconnect_mutex);
+        return 0;
+    }
+
     mcp_log_info("Starting reconnection process");
 
+    // The thread of an earlier reconnection has finished, release it
+    if (data->reconnect_thread) {
+        mcp_thread_join(data->reconnect_thread, NULL);
+        data->reconnect_thread = 0;
+    }
+
     // Reset reconnection attempt counter
     data->reconnect_attempt = 1;
 
@@ -541,8 +582,8 @@ void stop_reconnection_process(mcp_transport_t* transport) {
     // Lock mutex to access shared reconnection state
     mcp_mutex_lock(data->reconnect_mutex);
 
-    // Check if reconnection thread is running
-    if (data->reconnect_thread_running) {
+    // Check if reconnection thread is running, or has finished but was not joined yet
+    if (data->reconnect_thread_running || data->reconnect_thread) {
         mcp_log_info("Stopping reconnection process");
 
         // Signal thread to stop
@@ -694,6 +735,16 @@ int mcp_tcp_client_reconnect(mcp_transport_t* transport) {
     // Update connection state to reconnecting
     mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_RECONNECTING);
 
+    // Keep others from reconnecting while the old threads are released
+    data->reconnect_thread_running = true;
+    mcp_mutex_unlock(data->reconnect_mutex);
+    if (data->reconnect_thread) {
+        mcp_thread_join(data->reconnect_thread, NULL);
+        data->reconnect_thread = 0;
+    }
+    join_lost_receiver(data);
+    mcp_mutex_lock(data->reconnect_mutex);
+
     // Try immediate reconnection first
     mcp_log_info("Attempting immediate reconnection");
     int result = attempt_reconnect(data);
@@ -701,9 +752,6 @@ int mcp_tcp_client_reconnect(mcp_transport_t* transport) {
     if (result != 0) {
         mcp_log_info("Immediate reconnection failed, starting reconnection process");
 
-        // Set flag before creating thread
-        data->reconnect_thread_running = true;
-
         // Create reconnection thread
         int thread_result = mcp_thread_create(
             &data->reconnect_thread,
@@ -726,6 +774,7 @@ int mcp_tcp_client_reconnect(mcp_transport_t* transport) {
 
         mcp_log_debug("Reconnection thread created for manual reconnect");
     } else {
+        data->reconnect_thread_running = false;
         mcp_log_info("Immediate reconnection successful");
     }
 
-- 
2.43.0


From 3d2d1560e065970743b949ac32a2d052010be467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:06:46 +0000
Subject: [PATCH 137/167] fix: wake the TCP client's reconnect thread when it
 is to stop

It waited on a condition variable of its own that nobody could signal, so
stopping took as long as the delay before the next attempt. Reconnection is
also switched off before the thread is stopped, not after.
---
 .../internal/tcp_client_transport_internal.h  |  1 +
 src/transport/mcp_tcp_client_reconnect.c      | 21 +++++++------------
 src/transport/mcp_tcp_client_transport.c      | 19 +++++++++++++----
 3 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/transport/internal/tcp_client_transport_internal.h b/src/transport/internal/tcp_client_transport_internal.h
index efd3c12..730962c 100644
--- a/src/transport/internal/tcp_client_transport_internal.h
+++ b/src/transport/internal/tcp_client_transport_internal.h
@@ -49,6 +49,7 @@ typedef struct {
     mcp_thread_t reconnect_thread; // Thread for reconnection timer
     volatile bool reconnect_thread_running; // Flag to control reconnect thread
     mcp_mutex_t* reconnect_mutex; // Mutex to protect reconnection state
+    mcp_cond_t* reconnect_cond; // Wakes the reconnect thread when it is to stop
 
     // Connection state tracking
     mcp_connection_state_t connection_state; // Current connection state
diff --git a/src/transport/mcp_tcp_client_reconnect.c b/src/transport/mcp_tcp_client_reconnect.c
index f2bc037..6e4cc44 100644
--- a/src/transport/mcp_tcp_client_reconnect.c
+++ b/src/transport/mcp_tcp_client_reconnect.c
@@ -362,13 +362,6 @@ void* tcp_client_reconnect_thread_func(void* arg) {
 
     mcp_log_info("Reconnect thread started");
 
-    // Create a condition variable for efficient waiting with interrupt capability
-    mcp_cond_t* wait_cond = mcp_cond_create();
-    if (!wait_cond) {
-        mcp_log_error("Failed to create condition variable for reconnect thread");
-        return NULL;
-    }
-
     // The receiver of the lost connection must be gone before a new one starts
     join_lost_receiver(data);
 
@@ -403,6 +396,12 @@ void* tcp_client_reconnect_thread_func(void* arg) {
             break;
         }
 
+        // Stop was requested before the wait
+        if (!data->reconnect_thread_running) {
+            mcp_mutex_unlock(data->reconnect_mutex);
+            break;
+        }
+
         // Calculate delay for this attempt using exponential backoff with jitter
         uint32_t delay_ms = calculate_reconnect_delay(&data->reconnect_config, data->reconnect_attempt);
 
@@ -411,7 +410,7 @@ void* tcp_client_reconnect_thread_func(void* arg) {
 
         // Wait using condition variable with timeout
         // This allows the thread to be woken up early if needed (e.g., when stopping)
-        mcp_cond_timedwait(wait_cond, data->reconnect_mutex, delay_ms);
+        mcp_cond_timedwait(data->reconnect_cond, data->reconnect_mutex, delay_ms);
 
         // Check if we were interrupted or if the thread should exit
         if (!data->reconnect_thread_running) {
@@ -463,11 +462,6 @@ void* tcp_client_reconnect_thread_func(void* arg) {
         mcp_mutex_unlock(data->reconnect_mutex);
     }
 
-    // Clean up condition variable
-    if (wait_cond) {
-        mcp_cond_destroy(wait_cond);
-    }
-
     mcp_log_info("Reconnect thread exiting");
     return NULL;
 }
@@ -588,6 +582,7 @@ void stop_reconnection_process(mcp_transport_t* transport) {
 
         // Signal thread to stop
         data->reconnect_thread_running = false;
+        mcp_cond_signal(data->reconnect_cond);
 
         // Unlock mutex while waiting for thread to exit
         // This is important to avoid deadlock, as the thread needs to
diff --git a/src/transport/mcp_tcp_client_transport.c b/src/transport/mcp_tcp_client_transport.c
index f2c1086..c04e851 100644
--- a/src/transport/mcp_tcp_client_transport.c
+++ b/src/transport/mcp_tcp_client_transport.c
@@ -196,15 +196,15 @@ static int tcp_client_transport_stop(mcp_transport_t* transport) {
 
     mcp_log_info("Stopping TCP client transport...");
 
-    // Stop reconnection process if active
-    stop_reconnection_process(transport);
-
     // Signal receiver thread to stop
     data->running = false;
 
     // Disable reconnection to prevent auto-reconnect during shutdown
     data->reconnect_enabled = false;
 
+    // Stop reconnection process if active
+    stop_reconnection_process(transport);
+
     // Shutdown the socket to unblock the receiver thread
     if (data->sock != MCP_INVALID_SOCKET) {
         mcp_log_debug("Shutting down socket %d", (int)data->sock);
@@ -265,6 +265,12 @@ static void free_transport_resources(mcp_tcp_client_transport_data_t* data) {
         data->reconnect_mutex = NULL;
     }
 
+    // Destroy reconnection condition variable
+    if (data->reconnect_cond) {
+        mcp_cond_destroy(data->reconnect_cond);
+        data->reconnect_cond = NULL;
+    }
+
     // Destroy send mutex
     if (data->send_mutex) {
         mcp_mutex_destroy(data->send_mutex);
@@ -725,11 +731,14 @@ static int init_tcp_client_data(
 
     // Initialize mutexes for thread synchronization
     data->reconnect_mutex = mcp_mutex_create();
+    data->reconnect_cond = mcp_cond_create();
     data->send_mutex = mcp_mutex_create();
-    if (data->reconnect_mutex == NULL || data->send_mutex == NULL) {
+    if (data->reconnect_mutex == NULL || data->reconnect_cond == NULL || data->send_mutex == NULL) {
         mcp_log_error("Failed to create client transport mutexes");
         mcp_mutex_destroy(data->reconnect_mutex);
         data->reconnect_mutex = NULL;
+        mcp_cond_destroy(data->reconnect_cond);
+        data->reconnect_cond = NULL;
         mcp_mutex_destroy(data->send_mutex);
         data->send_mutex = NULL;
         free(data->host);
@@ -743,6 +752,8 @@ static int init_tcp_client_data(
         mcp_log_error("Failed to create buffer pool");
         mcp_mutex_destroy(data->reconnect_mutex);
         data->reconnect_mutex = NULL;
+        mcp_cond_destroy(data->reconnect_cond);
+        data->reconnect_cond = NULL;
         mcp_mutex_destroy(data->send_mutex);
         data->send_mutex = NULL;
         free(data->host);
-- 
2.43.0


From 6c536dcbb271537b4848e75a0541e2f9a1f4edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:06:46 +0000
Subject: [PATCH 138/167] fix: do not replace the TCP client's socket under a
 sender

The reconnect thread closed the socket while another thread could be sending
on it, and a sender that failed on the old socket marked the new connection
as lost. The socket and the connected flag now change under the send mutex.
---
 src/transport/mcp_tcp_client_reconnect.c | 13 ++++++++++---
 src/transport/mcp_tcp_client_transport.c | 21 ++++++++++++++-------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/transport/mcp_tcp_client_reconnect.c b/src/transport/mcp_tcp_client_reconnect.c
index 6e4cc44..833325f 100644
--- a/src/transport/mcp_tcp_client_reconnect.c
+++ b/src/transport/mcp_tcp_client_reconnect.c
@@ -263,23 +263,28 @@ static int attempt_reconnect(mcp_tcp_client_transport_data_t* data) {
                 data->host, data->port, data->reconnect_attempt,
                 max_attempts > 0 ? mcp_string_format("%d", max_attempts) : "unlimited");
 
-    // Close existing socket if any
+    // Close existing socket if any, once no sender uses it
+    mcp_mutex_lock(data->send_mutex);
     if (data->sock != MCP_INVALID_SOCKET) {
         mcp_log_debug("Closing existing socket before reconnection attempt");
         mcp_socket_close(data->sock);
         data->sock = MCP_INVALID_SOCKET;
     }
+    mcp_mutex_unlock(data->send_mutex);
 
     // Attempt to connect with a timeout (5 seconds)
     const int CONNECT_TIMEOUT_MS = 5000;
-    data->sock = mcp_socket_connect(data->host, data->port, CONNECT_TIMEOUT_MS);
-    if (data->sock == MCP_INVALID_SOCKET) {
+    socket_t new_sock = mcp_socket_connect(data->host, data->port, CONNECT_TIMEOUT_MS);
+    if (new_sock == MCP_INVALID_SOCKET) {
         mcp_log_error("Reconnection attempt %d failed", data->reconnect_attempt);
         return -1;
     }
 
     // Connection successful
+    mcp_mutex_lock(data->send_mutex);
+    data->sock = new_sock;
     data->connected = true;
+    mcp_mutex_unlock(data->send_mutex);
     mcp_log_info("Reconnected successfully to %s:%u", data->host, data->port);
 
     // Set global reconnection in progress flag
@@ -290,9 +295,11 @@ static int attempt_reconnect(mcp_tcp_client_transport_data_t* data) {
         mcp_log_error("Failed to create receiver thread after reconnection");
 
         // Clean up on failure
+        mcp_mutex_lock(data->send_mutex);
         mcp_socket_close(data->sock);
         data->sock = MCP_INVALID_SOCKET;
         data->connected = false;
+        mcp_mutex_unlock(data->send_mutex);
         set_reconnection_in_progress(false);
 
         return -1;
diff --git a/src/transport/mcp_tcp_client_transport.c b/src/transport/mcp_tcp_client_transport.c
index c04e851..ec43d38 100644
--- a/src/transport/mcp_tcp_client_transport.c
+++ b/src/transport/mcp_tcp_client_transport.c
@@ -84,12 +84,14 @@ static int establish_connection(mcp_tcp_client_transport_data_t* data) {
 static void cleanup_connection(mcp_tcp_client_transport_data_t* data) {
     if (!data) return;
 
+    mcp_mutex_lock(data->send_mutex);
     if (data->sock != MCP_INVALID_SOCKET) {
         mcp_socket_close(data->sock);
         data->sock = MCP_INVALID_SOCKET;
     }
 
     data->connected = false;
+    mcp_mutex_unlock(data->send_mutex);
 }
 
 /**
@@ -300,11 +302,10 @@ static int handle_send_error(mcp_transport_t* transport, const char* error_msg)
     // Log the error with the socket error code
     mcp_log_error("%s (error code: %d)", error_msg, error_code);
 
-    // Mark as disconnected on send error
-    data->connected = false;
-
-    // Update connection state
-    mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
+    // Update connection state, unless another thread has reconnected already
+    if (!data->connected) {
+        mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
+    }
 
     // Call error callback if set
     if (transport->error_callback) {
@@ -422,7 +423,10 @@ static int tcp_client_transport_send(mcp_transport_t* transport, const void* dat
 
     // Use the unified exact send helper
     mcp_mutex_lock(data->send_mutex);
-    int result = mcp_socket_send_exact(data->sock, (const char*)data_buf, size, NULL);
+    int result = data->connected ? mcp_socket_send_exact(data->sock, (const char*)data_buf, size, NULL) : -1;
+    if (result != 0) {
+        data->connected = false; // While the socket cannot be replaced by a new one
+    }
     mcp_mutex_unlock(data->send_mutex);
     if (result != 0) {
         return handle_send_error(transport, "Failed to send data");
@@ -502,7 +506,10 @@ static int tcp_client_transport_sendv(mcp_transport_t* transport, const mcp_buff
 
     // Use the unified vectored send function
     mcp_mutex_lock(data->send_mutex);
-    int result = mcp_socket_send_vectors(data->sock, iov, (int)buffer_count, NULL);
+    int result = data->connected ? mcp_socket_send_vectors(data->sock, iov, (int)buffer_count, NULL) : -1;
+    if (result != 0) {
+        data->connected = false; // While the socket cannot be replaced by a new one
+    }
     mcp_mutex_unlock(data->send_mutex);
 
     // Free the iovec array
-- 
2.43.0


From 043432eb8e164e5c5723fb1cfd12bd6262186a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:06:46 +0000
Subject: [PATCH 139/167] fix: reconnect the TCP client when the receiver sees
 the connection end

The receiver left the state at connected and the loss was only noticed by the
next send, which failed. A transport that could not connect at start marks
itself as running before the reconnect thread may start a receiver.
---
 src/transport/mcp_tcp_client_receiver.c  | 14 ++++++++++++--
 src/transport/mcp_tcp_client_transport.c |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/transport/mcp_tcp_client_receiver.c b/src/transport/mcp_tcp_client_receiver.c
index da4c230..79e544a 100644
--- a/src/transport/mcp_tcp_client_receiver.c
+++ b/src/transport/mcp_tcp_client_receiver.c
@@ -168,8 +168,10 @@ void* tcp_client_receive_thread_func(void* arg) {
         mcp_log_debug("Sending initial ping message to verify connection");
         if (send_ping_message(data) != 0) {
             mcp_log_error("Failed to send initial ping message, exiting receiver thread");
-            mcp_arena_destroy_current_thread();
-            return NULL;
+            data->connected = false;
+            if (transport->error_callback) {
+                transport->error_callback(transport->callback_user_data, MCP_ERROR_TRANSPORT_ERROR);
+            }
         }
     }
 
@@ -337,6 +339,14 @@ void* tcp_client_receive_thread_func(void* arg) {
     // Mark as disconnected
     data->connected = false;
 
+    // Unless the transport is being stopped the connection is lost
+    if (data->running) {
+        mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
+        if (data->reconnect_enabled) {
+            start_reconnection_process(transport);
+        }
+    }
+
     // Final check if message buffer was properly released
     if (message_buf != NULL) {
         mcp_log_warn("Message buffer was not properly freed, cleaning up");
diff --git a/src/transport/mcp_tcp_client_transport.c b/src/transport/mcp_tcp_client_transport.c
index ec43d38..c1bdadb 100644
--- a/src/transport/mcp_tcp_client_transport.c
+++ b/src/transport/mcp_tcp_client_transport.c
@@ -141,10 +141,10 @@ static int tcp_client_transport_start(
         // If reconnection is enabled, start reconnection process
         if (data->reconnect_enabled) {
             mcp_log_info("Starting reconnection process after initial connection failure");
-            start_reconnection_process(transport);
 
             // Mark as running even though not connected yet
             data->running = true;
+            start_reconnection_process(transport);
             return 0;
         }
 
-- 
2.43.0


From 553d18341a15a0de87775a0f5d7e3230dfa1fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:33:55 +0000
Subject: [PATCH 140/167] fix: keep reconnecting after a TCP client was stopped
 and started again

Stopping switches reconnection off and nothing switched it on again.
---
 src/transport/mcp_tcp_client_transport.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transport/mcp_tcp_client_transport.c b/src/transport/mcp_tcp_client_transport.c
index c1bdadb..5d6f34f 100644
--- a/src/transport/mcp_tcp_client_transport.c
+++ b/src/transport/mcp_tcp_client_transport.c
@@ -130,6 +130,9 @@ static int tcp_client_transport_start(
     transport->callback_user_data = user_data;
     transport->error_callback = error_callback;
 
+    // Reconnection is off after a stop
+    data->reconnect_enabled = data->reconnect_config.enable_reconnect;
+
     // Initialize socket library
     if (mcp_socket_init() != 0) {
         mcp_log_error("Failed to initialize socket library");
-- 
2.43.0


From dd0dd85d0d9a65f8fc25824d609b5d5a1b68975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:35 +0000
Subject: [PATCH 141/167] fix: read HTTP responses whose headers arrive in
 several pieces

---
 src/transport/mcp_http_client_request.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/transport/mcp_http_client_request.c b/src/transport/mcp_http_client_request.c
index ab4d53d..6183c74 100644
--- a/src/transport/mcp_http_client_request.c
+++ b/src/transport/mcp_http_client_request.c
@@ -428,7 +428,6 @@ static bool read_http_headers(socket_t sock, uint32_t timeout_ms,
     *response_data_out = NULL;
     *response_size_out = 0;
 
-    char buffer[HTTP_READ_BUFFER_SIZE];
     char header_buffer[HTTP_HEADER_BUFFER_SIZE] = {0};
     int header_pos = 0;
     bool headers_done = false;
@@ -460,23 +459,20 @@ static bool read_http_headers(socket_t sock, uint32_t timeout_ms,
             return false;
         }
 
-        // Socket is readable, receive data
-        bytes_read = recv(sock, buffer, sizeof(buffer) - 1, 0);
-        if (bytes_read <= 0) {
-            mcp_log_error("recv returned %d, error: %d", bytes_read, mcp_socket_get_lasterror());
+        // Socket is readable, receive no more than the header buffer can take
+        int space = (int)sizeof(header_buffer) - 1 - header_pos;
+        if (space <= 0) {
+            mcp_log_error("HTTP header buffer overflow");
             return false;
         }
-        buffer[bytes_read] = '\0';
-
-        // Copy to header buffer
-        if (header_pos + bytes_read < (int)sizeof(header_buffer)) {
-            memcpy(header_buffer + header_pos, buffer, bytes_read);
-            header_pos += bytes_read;
-            header_buffer[header_pos] = '\0';
-        } else {
-            mcp_log_error("HTTP header buffer overflow");
+
+        bytes_read = recv(sock, header_buffer + header_pos, space, 0);
+        if (bytes_read <= 0) {
+            mcp_log_error("recv returned %d, error: %d", bytes_read, mcp_socket_get_lasterror());
             return false;
         }
+        header_pos += bytes_read;
+        header_buffer[header_pos] = '\0';
 
         // Check if headers are complete
         if (strstr(header_buffer, "\r\n\r\n") != NULL) {
-- 
2.43.0


From 24ef295d7379cc8736cbdb678004656ae4004387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:35 +0000
Subject: [PATCH 142/167] fix: decode chunked responses in the HTTP client

---
 src/transport/mcp_http_client_request.c | 80 +++++++++++++++++++++++--
 1 file changed, 75 insertions(+), 5 deletions(-)

diff --git a/src/transport/mcp_http_client_request.c b/src/transport/mcp_http_client_request.c
index 6183c74..aa3a870 100644
--- a/src/transport/mcp_http_client_request.c
+++ b/src/transport/mcp_http_client_request.c
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
+#include <ctype.h>
 #include <time.h>
 
 #ifdef _WIN32
@@ -603,6 +604,62 @@ static bool read_http_body_with_length(socket_t sock, uint32_t timeout_ms,
     return true;
 }
 
+/**
+ * @brief Finds the end of a chunked body, optionally copying the chunks' data together
+ *
+ * @param data Body as received
+ * @param size Size of the received body
+ * @param out Buffer for the decoded data (may be data itself), or NULL to only look for the end
+ * @param out_size Pointer to store the decoded size
+ * @return int 1 if the body is complete, 0 if more is needed, -1 if it is malformed
+ */
+static int scan_chunked_body(const char* data, size_t size, char* out, size_t* out_size) {
+    size_t pos = 0;
+    *out_size = 0;
+
+    while (pos < size) {
+        const char* line_end = (const char*)memchr(data + pos, '\n', size - pos);
+        if (line_end == NULL) {
+            return 0;
+        }
+
+        // Chunk size in hexadecimal, perhaps followed by extensions
+        size_t chunk_size = 0;
+        const char* p = data + pos;
+        if (!isxdigit((unsigned char)*p)) {
+            return -1;
+        }
+        for (; isxdigit((unsigned char)*p); p++) {
+            if (chunk_size > SIZE_MAX / 32) {
+                return -1;
+            }
+            int digit = isdigit((unsigned char)*p) ? *p - '0' : tolower((unsigned char)*p) - 'a' + 10;
+            chunk_size = chunk_size * 16 + (size_t)digit;
+        }
+        if (*p != '\r' && *p != '\n' && *p != ';' && *p != ' ') {
+            return -1;
+        }
+        pos = (size_t)(line_end - data) + 1;
+
+        if (chunk_size == 0) {
+            return 1;
+        }
+        if (size - pos < chunk_size + 2) {
+            return 0;
+        }
+        if (data[pos + chunk_size] != '\r' || data[pos + chunk_size + 1] != '\n') {
+            return -1;
+        }
+        if (out != NULL) {
+            memmove(out + *out_size, data + pos, chunk_size);
+        }
+        *out_size += chunk_size;
+        pos += chunk_size + 2;
+    }
+
+    return 0;
+}
+
 /**
  * @brief Read HTTP response body with unknown length or chunked encoding
  *
@@ -630,15 +687,28 @@ static bool read_http_body_unknown_length(socket_t sock, uint32_t timeout_ms,
     mcp_log_debug("Reading body with %s encoding",
                  chunked ? "chunked" : "unknown length");
 
-    // For simplicity, we'll just read until the connection is closed or timeout
-    // A proper implementation would parse chunked encoding
+    // Read until the last chunk, or until the connection is closed or timeout
     while (1) {
+        if (chunked) {
+            size_t decoded_size = 0;
+            int state = scan_chunked_body(*response_data, *response_size, NULL, &decoded_size);
+            if (state < 0) {
+                mcp_log_error("Malformed chunked response body");
+                return false;
+            }
+            if (state > 0) {
+                scan_chunked_body(*response_data, *response_size, *response_data, &decoded_size);
+                *response_size = decoded_size;
+                return true;
+            }
+        }
+
         // Check for timeout
         current_time = time(NULL);
         unsigned long elapsed_ms = (unsigned long)((current_time - start_time) * 1000);
         if (elapsed_ms >= timeout_ms) {
             mcp_log_warn("Timeout reading HTTP response body, returning partial response");
-            return true;  // Return true with partial data
+            return !chunked;  // Return true with partial data
         }
 
         // Calculate remaining timeout for select
@@ -667,7 +737,7 @@ static bool read_http_body_unknown_length(socket_t sock, uint32_t timeout_ms,
                 return false;
             } else {
                 mcp_log_debug("Connection closed by server after reading %zu bytes", *response_size);
-                return true;  // Connection closed normally
+                return !chunked;  // A chunked body ends with its last chunk
             }
         }
 
@@ -802,7 +872,7 @@ http_response_t* http_post_request(const char* url, const char* content_type,
     }
 
     // Read response body
-    if (content_length > 0) {
+    if (content_length > 0 && !chunked_encoding) {
         // Known content length
         if (!read_http_body_with_length(sock, timeout_ms, content_length,
                                        &response_data, &response_size)) {
-- 
2.43.0


From 1fae6f813f2405abb34057dbf8ead0c87b84f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:35 +0000
Subject: [PATCH 143/167] fix: do not cut HTTP responses at a brace inside a
 string

---
 src/transport/mcp_http_client_transport.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_http_client_transport.c b/src/transport/mcp_http_client_transport.c
index 849d351..fc3a300 100644
--- a/src/transport/mcp_http_client_transport.c
+++ b/src/transport/mcp_http_client_transport.c
@@ -465,10 +465,19 @@ static char* clean_json_response(const char* response_data, size_t response_size
 
     // Find the end of the JSON data (in case there are trailing characters)
     if (clean_json[0] == '{') {
-        // Find the matching closing brace
+        // Find the matching closing brace, ignoring braces inside strings
         int brace_count = 1;
+        bool in_string = false;
         for (size_t i = 1; i < response_size; i++) {
-            if (clean_json[i] == '{') {
+            if (in_string) {
+                if (clean_json[i] == '\\') {
+                    i++;
+                } else if (clean_json[i] == '"') {
+                    in_string = false;
+                }
+            } else if (clean_json[i] == '"') {
+                in_string = true;
+            } else if (clean_json[i] == '{') {
                 brace_count++;
             } else if (clean_json[i] == '}') {
                 brace_count--;
-- 
2.43.0


From 556a32503e841aeeab6872e8163f94ddc69d7eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:35 +0000
Subject: [PATCH 144/167] fix: deliver server-sent events in the HTTP client

---
 src/transport/mcp_http_client_sse.c | 65 ++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/transport/mcp_http_client_sse.c b/src/transport/mcp_http_client_sse.c
index 78e313e..fa0d951 100644
--- a/src/transport/mcp_http_client_sse.c
+++ b/src/transport/mcp_http_client_sse.c
@@ -540,6 +540,56 @@ static bool process_sse_line(const char* line, char** event_type, char** event_i
     return false;
 }
 
+/**
+ * @brief State for splitting the received bytes into lines.
+ */
+typedef struct {
+    char* line;        /**< Line collected so far */
+    size_t length;     /**< Its length */
+    size_t capacity;   /**< Allocated size of the line */
+    bool after_cr;     /**< Whether the previous character was a carriage return */
+    bool in_headers;   /**< Whether the HTTP response headers are still being read */
+} sse_line_reader_t;
+
+/**
+ * @brief Adds a received character to the current line.
+ *
+ * @param reader The line reader
+ * @param c The character
+ * @return char* The line if the character ended one (valid until the next call), NULL otherwise
+ */
+static char* read_sse_char(sse_line_reader_t* reader, char c) {
+    bool after_cr = reader->after_cr;
+    reader->after_cr = (c == '\r');
+    if (c == '\n' && after_cr) {
+        return NULL; // Second half of a CRLF
+    }
+
+    if (reader->length + 1 >= reader->capacity) {
+        size_t new_capacity = reader->capacity ? reader->capacity * 2 : 256;
+        char* new_line = (char*)realloc(reader->line, new_capacity);
+        if (new_line == NULL) {
+            mcp_log_error("Failed to allocate memory for SSE line");
+            return NULL;
+        }
+        reader->line = new_line;
+        reader->capacity = new_capacity;
+    }
+
+    if (c != '\r' && c != '\n') {
+        reader->line[reader->length++] = c;
+        return NULL;
+    }
+
+    reader->line[reader->length] = '\0';
+    bool is_header = reader->in_headers;
+    if (reader->length == 0) {
+        reader->in_headers = false;
+    }
+    reader->length = 0;
+    return is_header ? NULL : reader->line;
+}
+
 /**
  * @brief Clean up event parsing state.
  *
@@ -632,6 +682,7 @@ void* http_client_event_thread_func(void* arg) {
 
         // Initialize buffer and event parsing state
         char buffer[SSE_BUFFER_SIZE];
+        sse_line_reader_t reader = { NULL, 0, 0, false, true };
         char* event_type = NULL;
         char* event_id = NULL;
         char* event_data = NULL;
@@ -706,9 +757,13 @@ void* http_client_event_thread_func(void* arg) {
 
             mcp_log_debug("Received %d bytes from SSE endpoint", bytes_read);
 
-            // Parse SSE events line by line
-            char* line = strtok(buffer, "\r\n");
-            while (line != NULL && data->running) {
+            // Parse SSE events line by line; a line may continue in the next read
+            for (int i = 0; i < bytes_read && data->running; i++) {
+                char* line = read_sse_char(&reader, buffer[i]);
+                if (line == NULL) {
+                    continue;
+                }
+
                 // Process the line and check if an event is complete
                 if (process_sse_line(line, &event_type, &event_id, &event_data)) {
                     // Create and process the complete event
@@ -723,9 +778,6 @@ void* http_client_event_thread_func(void* arg) {
                     // Reset event state for next event
                     cleanup_event_state(&event_type, &event_id, &event_data);
                 }
-
-                // Get next line
-                line = strtok(NULL, "\r\n");
             }
         }
 
@@ -753,6 +805,7 @@ void* http_client_event_thread_func(void* arg) {
 
         // Clean up event parsing state
         cleanup_event_state(&event_type, &event_id, &event_data);
+        free(reader.line);
 
         // If we're still running, retry connection after delay
         if (data->running) {
-- 
2.43.0


From 28cdc28f8c1cc5ad218779cfec2d3281c3b2850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:35 +0000
Subject: [PATCH 145/167] fix: wake the HTTP client event thread when it is to
 stop

---
 src/transport/mcp_http_client_transport.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/transport/mcp_http_client_transport.c b/src/transport/mcp_http_client_transport.c
index fc3a300..c4a567a 100644
--- a/src/transport/mcp_http_client_transport.c
+++ b/src/transport/mcp_http_client_transport.c
@@ -338,21 +338,16 @@ static int http_client_transport_stop(mcp_transport_t* transport) {
     // Set running flag to false to signal threads to stop
     data->running = false;
 
-    // Close the SSE socket and clean up SSL to unblock the event thread
+    // Shut the SSE socket down to unblock the event thread, which closes it
     mcp_mutex_lock(data->mutex);
 
-    // Clean up SSL if used
-    if (data->ssl_ctx != NULL) {
-        mcp_log_debug("Cleaning up SSL context");
-        http_client_ssl_cleanup(data->ssl_ctx);
-        data->ssl_ctx = NULL;
-    }
-
-    // Close socket
     if (data->sse_socket != MCP_INVALID_SOCKET) {
-        mcp_log_debug("Closing SSE socket to unblock event thread");
-        mcp_socket_close(data->sse_socket);
-        data->sse_socket = MCP_INVALID_SOCKET;
+        mcp_log_debug("Shutting down SSE socket to unblock event thread");
+#ifdef _WIN32
+        shutdown(data->sse_socket, SD_BOTH);
+#else
+        shutdown(data->sse_socket, SHUT_RDWR);
+#endif
     }
 
     mcp_mutex_unlock(data->mutex);
-- 
2.43.0


From 985f54654da35e6f4b74c3d363eb0c308e3405db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:04:23 +0000
Subject: [PATCH 146/167] fix: resolve the host of the HTTP client in a
 thread-safe way

---
 src/transport/mcp_http_client_request.c | 15 +++++++++------
 src/transport/mcp_http_client_sse.c     | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/transport/mcp_http_client_request.c b/src/transport/mcp_http_client_request.c
index aa3a870..f5e5961 100644
--- a/src/transport/mcp_http_client_request.c
+++ b/src/transport/mcp_http_client_request.c
@@ -205,19 +205,22 @@ static bool connect_to_server(socket_t sock, const char* host, int port) {
         return false;
     }
 
-    // Resolve host
-    struct hostent* server = gethostbyname(host);
-    if (server == NULL) {
+    // Resolve host (requests and the event thread may do so at the same time)
+    struct addrinfo hints;
+    struct addrinfo* server = NULL;
+    memset(&hints, 0, sizeof(hints));
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    if (getaddrinfo(host, NULL, &hints, &server) != 0 || server == NULL) {
         mcp_log_error("Failed to resolve host: %s (error: %d)", host, mcp_socket_get_lasterror());
         return false;
     }
 
     // Connect to server
     struct sockaddr_in server_addr;
-    memset(&server_addr, 0, sizeof(server_addr));
-    server_addr.sin_family = AF_INET;
+    memcpy(&server_addr, server->ai_addr, sizeof(server_addr));
     server_addr.sin_port = htons((u_short)port);
-    memcpy(&server_addr.sin_addr.s_addr, server->h_addr, server->h_length);
+    freeaddrinfo(server);
 
     if (connect(sock, (struct sockaddr*)&server_addr, sizeof(server_addr)) == MCP_SOCKET_ERROR) {
         mcp_log_error("Failed to connect to server: %s:%d (error: %d)",
diff --git a/src/transport/mcp_http_client_sse.c b/src/transport/mcp_http_client_sse.c
index fa0d951..583a19e 100644
--- a/src/transport/mcp_http_client_sse.c
+++ b/src/transport/mcp_http_client_sse.c
@@ -106,9 +106,13 @@ static socket_t create_and_connect_socket(const char* host, uint16_t port, uint3
 #endif
     }
 
-    // Resolve host
-    struct hostent* server = gethostbyname(host);
-    if (server == NULL) {
+    // Resolve host (the event thread and requests may do so at the same time)
+    struct addrinfo hints;
+    struct addrinfo* server = NULL;
+    memset(&hints, 0, sizeof(hints));
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    if (getaddrinfo(host, NULL, &hints, &server) != 0 || server == NULL) {
         mcp_log_error("Failed to resolve host: %s (error: %d)", host, mcp_socket_get_lasterror());
         mcp_socket_close(sock);
         return MCP_INVALID_SOCKET;
@@ -116,10 +120,9 @@ static socket_t create_and_connect_socket(const char* host, uint16_t port, uint3
 
     // Prepare server address
     struct sockaddr_in server_addr;
-    memset(&server_addr, 0, sizeof(server_addr));
-    server_addr.sin_family = AF_INET;
+    memcpy(&server_addr, server->ai_addr, sizeof(server_addr));
     server_addr.sin_port = htons((u_short)port);
-    memcpy(&server_addr.sin_addr.s_addr, server->h_addr, server->h_length);
+    freeaddrinfo(server);
 
     // Connect to server (with timeout if specified)
     int connect_result = connect(sock, (struct sockaddr*)&server_addr, sizeof(server_addr));
-- 
2.43.0


From 2eee78fd87bc41fcfe8f8fbb781658329c319ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:34:05 +0000
Subject: [PATCH 147/167] fix: do not wait out the timeout when checking an
 idle connection

The health check waited for the connection to become readable. A healthy
idle connection never does, so every reuse of one took the whole timeout,
five seconds for the pooled TCP transport.
---
 src/connection_pool/mcp_connection_pool_health.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_health.c b/src/connection_pool/mcp_connection_pool_health.c
index 32d96eb..a629814 100644
--- a/src/connection_pool/mcp_connection_pool_health.c
+++ b/src/connection_pool/mcp_connection_pool_health.c
@@ -23,9 +23,6 @@
 #include <errno.h>
 #endif
 
-// Default health check timeout if not specified
-#define DEFAULT_HEALTH_CHECK_TIMEOUT_MS 2000
-
 // Health score thresholds
 #define HEALTH_SCORE_HEALTHY 50       // Score above this is considered healthy
 #define HEALTH_SCORE_PERFECT 100      // Maximum health score
@@ -130,10 +127,9 @@ bool check_connection_health(socket_handle_t socket_fd, int timeout_ms) {
     // Start timing for performance measurement
     long long check_start_ms = mcp_get_time_ms();
 
-    // Use default timeout if not specified
-    if (timeout_ms <= 0) {
-        timeout_ms = DEFAULT_HEALTH_CHECK_TIMEOUT_MS;
-    }
+    // A healthy idle connection has nothing to read, so waiting for it to become
+    // readable would always take the whole timeout: look at its state only
+    (void)timeout_ms;
 
     // Save current socket flags to restore later
 #ifdef _WIN32
@@ -160,7 +156,7 @@ bool check_connection_health(socket_handle_t socket_fd, int timeout_ms) {
     bool has_error = false;
     bool is_healthy = true;
 
-    if (!check_socket_readable(socket_fd, timeout_ms, &is_readable, &has_error)) {
+    if (!check_socket_readable(socket_fd, 0, &is_readable, &has_error)) {
         is_healthy = false;
     } else if (has_error) {
         mcp_log_warn("Health check: socket has error condition");
-- 
2.43.0


From 0aa61a3db699515632b53bf604e2b41b25ae6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:39:25 +0000
Subject: [PATCH 148/167] fix: apply the request timeout of the pooled TCP
 transport to the response

The timeout of the request-response cycle only limited the wait for a
connection. A server that did not answer, or not to the end, blocked the
caller for ever.
---
 src/transport/mcp_tcp_pool_transport.c | 111 +++++++++++++++++++++++--
 1 file changed, 106 insertions(+), 5 deletions(-)

diff --git a/src/transport/mcp_tcp_pool_transport.c b/src/transport/mcp_tcp_pool_transport.c
index f173600..2ea639f 100644
--- a/src/transport/mcp_tcp_pool_transport.c
+++ b/src/transport/mcp_tcp_pool_transport.c
@@ -10,7 +10,7 @@
 #include "internal/tcp_pool_transport_internal.h"
 #include <mcp_log.h>
 #include <mcp_socket_utils.h>
-#include <mcp_framing.h>
+#include <mcp_sys_utils.h>
 #include <stdlib.h>
 #include <string.h>
 #include <limits.h>
@@ -309,6 +309,101 @@ static void tcp_pool_handle_error(mcp_transport_t* transport, socket_handle_t so
     }
 }
 
+/**
+ * @brief Receives exactly the given number of bytes before the deadline.
+ *
+ * @param sock The socket handle
+ * @param buf Buffer for the bytes
+ * @param len Number of bytes to receive
+ * @param deadline_ms Time (as of mcp_get_time_ms) to give up at, or -1 for no limit
+ * @return 0 on success, -1 on error, closed connection or timeout
+ */
+static int tcp_pool_recv_exact(socket_handle_t sock, char* buf, size_t len, long long deadline_ms) {
+    size_t total = 0;
+
+    while (total < len) {
+        int wait_ms = -1;
+        if (deadline_ms >= 0) {
+            long long remaining = deadline_ms - mcp_get_time_ms();
+            if (remaining <= 0) {
+                mcp_log_error("Timed out waiting for response");
+                return -1;
+            }
+            wait_ms = (int)remaining;
+        }
+
+        int ready = mcp_socket_wait_readable(sock, wait_ms, NULL);
+        if (ready < 0) {
+            return -1;
+        }
+        if (ready == 0) {
+            continue; // The deadline is checked above
+        }
+
+        size_t want = len - total;
+        if (want > INT_MAX) {
+            want = INT_MAX;
+        }
+        int received = (int)recv(sock, buf + total, want, 0);
+        if (received == 0) {
+            return -1; // Connection closed
+        }
+        if (received < 0) {
+#ifndef _WIN32
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK) {
+                continue;
+            }
+#else
+            if (mcp_socket_get_lasterror() == WSAEWOULDBLOCK) {
+                continue;
+            }
+#endif
+            return -1;
+        }
+        total += (size_t)received;
+    }
+
+    return 0;
+}
+
+/**
+ * @brief Receives a length-prefixed response before the deadline.
+ *
+ * @param sock The socket handle
+ * @param response_out Receives the response, to be freed by the caller
+ * @param response_len_out Receives the length of the response
+ * @param deadline_ms Time (as of mcp_get_time_ms) to give up at, or -1 for no limit
+ * @return 0 on success, -1 on error
+ */
+static int tcp_pool_recv_response(socket_handle_t sock, char** response_out, uint32_t* response_len_out, long long deadline_ms) {
+    uint32_t net_len = 0;
+    if (tcp_pool_recv_exact(sock, (char*)&net_len, sizeof(net_len), deadline_ms) != 0) {
+        return -1;
+    }
+
+    uint32_t len = ntohl(net_len);
+    if (len == 0 || len > MAX_MESSAGE_SIZE) {
+        mcp_log_error("Invalid response length: %u", len);
+        return -1;
+    }
+
+    char* response = (char*)malloc((size_t)len + 1);
+    if (!response) {
+        mcp_log_error("Failed to allocate response buffer (%u bytes)", len);
+        return -1;
+    }
+
+    if (tcp_pool_recv_exact(sock, response, len, deadline_ms) != 0) {
+        free(response);
+        return -1;
+    }
+
+    response[len] = '\0';
+    *response_out = response;
+    *response_len_out = len;
+    return 0;
+}
+
 /**
  * @brief Sends data over the TCP connection and waits for a response.
  *
@@ -345,6 +440,9 @@ static int tcp_pool_transport_send(mcp_transport_t* transport, const void* data_
         return -1;
     }
 
+    // The timeout covers the whole request-response cycle
+    long long deadline_ms = data->request_timeout_ms > 0 ? mcp_get_time_ms() + data->request_timeout_ms : -1;
+
     // Get a connection from the pool
     socket_handle_t sock = tcp_pool_get_connection(data);
     if (sock == INVALID_SOCKET_HANDLE) {
@@ -367,12 +465,12 @@ static int tcp_pool_transport_send(mcp_transport_t* transport, const void* data_
         return -1;
     }
 
-    // Wait for response using framing protocol
+    // Wait for the length-prefixed response
     char* response = NULL;
     uint32_t response_len = 0;
 
     mcp_log_debug("Waiting for response");
-    result = mcp_framing_recv_message(sock, &response, &response_len, MAX_MESSAGE_SIZE, NULL);
+    result = tcp_pool_recv_response(sock, &response, &response_len, deadline_ms);
 
     // Process the response
     if (result == 0 && response != NULL) {
@@ -442,6 +540,9 @@ static int tcp_pool_transport_sendv(mcp_transport_t* transport, const mcp_buffer
         total_bytes += buffers[i].size;
     }
 
+    // The timeout covers the whole request-response cycle
+    long long deadline_ms = data->request_timeout_ms > 0 ? mcp_get_time_ms() + data->request_timeout_ms : -1;
+
     // Get a connection from the pool
     socket_handle_t sock = tcp_pool_get_connection(data);
     if (sock == INVALID_SOCKET_HANDLE) {
@@ -487,12 +588,12 @@ static int tcp_pool_transport_sendv(mcp_transport_t* transport, const mcp_buffer
         return -1;
     }
 
-    // Wait for response using framing protocol
+    // Wait for the length-prefixed response
     char* response = NULL;
     uint32_t response_len = 0;
 
     mcp_log_debug("Waiting for response after vectored send");
-    result = mcp_framing_recv_message(sock, &response, &response_len, MAX_MESSAGE_SIZE, NULL);
+    result = tcp_pool_recv_response(sock, &response, &response_len, deadline_ms);
 
     // Process the response
     if (result == 0 && response != NULL) {
-- 
2.43.0


From 92b01286edf4cb17306cfec4bab13d250914d48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:39:56 +0000
Subject: [PATCH 149/167] fix: measure the timeout of a wait for a socket in
 milliseconds

The elapsed time was counted in whole seconds of the clock. A wait for
less than a second lasted until the next second began, and longer waits
could end almost a second early.
---
 src/common/mcp_socket_utils.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index 643be99..5b6fccb 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -2,6 +2,7 @@
 #include "mcp_log.h"
 #include "mcp_memory_pool.h"
 #include "mcp_cache_aligned.h"
+#include "mcp_sys_utils.h"
 
 #include <stdio.h>
 #include <stdlib.h>
@@ -993,10 +994,10 @@ typedef MCP_CACHE_ALIGNED struct {
     int timeout_ms;                // Timeout in milliseconds
     volatile bool* stop_flag;      // Optional stop flag
     int result;                    // Result of the wait operation
-    time_t start_time;             // Start time for timeout calculation
+    long long start_time;          // Start time in milliseconds for timeout calculation
     // Padding to ensure the structure occupies a full cache line
     char padding[MCP_CACHE_LINE_SIZE - sizeof(socket_t) - sizeof(bool *)
-                                     - 2 * sizeof(int) - sizeof(time_t)];
+                                     - 2 * sizeof(int) - sizeof(long long)];
 } socket_wait_state_t;
 
 #ifdef _MSC_VER
@@ -1037,7 +1038,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
     state->timeout_ms = timeout_ms;
     state->stop_flag = stop_flag;
     state->result = 0;
-    state->start_time = time(NULL);
+    state->start_time = mcp_get_time_ms();
 
 #ifdef _WIN32
     fd_set read_fds;
@@ -1099,8 +1100,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
                 return 0; // Timed out immediately
             } else {
                 // Finite timeout
-                time_t current_time = time(NULL);
-                long elapsed_ms = (long)(difftime(current_time, state->start_time) * 1000);
+                long elapsed_ms = (long)(mcp_get_time_ms() - state->start_time);
 
                 if (elapsed_ms >= timeout_ms) {
                     socket_utils_free(state);
@@ -1160,8 +1160,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
             current_timeout = 0;
         } else {
             // Calculate remaining time
-            time_t current_time = time(NULL);
-            long elapsed_ms = (long)(difftime(current_time, state->start_time) * 1000);
+            long elapsed_ms = (long)(mcp_get_time_ms() - state->start_time);
 
             if (elapsed_ms >= timeout_ms) {
                 socket_utils_free(state);
@@ -1199,8 +1198,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
                 return 0; // Timed out immediately
             } else {
                 // Check if the overall timeout has expired
-                time_t current_time = time(NULL);
-                if (difftime(current_time, state->start_time) * 1000 >= timeout_ms) {
+                if (mcp_get_time_ms() - state->start_time >= timeout_ms) {
                     socket_utils_free(state);
                     return 0; // Final timeout expired
                 }
-- 
2.43.0


From 26eeb54142aa55fcfc6212d961854771eaa74b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:07 +0000
Subject: [PATCH 150/167] fix: cut long log messages between characters

A message over the limit was cut at a byte, which could leave part of a
UTF-8 sequence in the log.
---
 src/common/mcp_log.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_log.c b/src/common/mcp_log.c
index 55898cb..19eddac 100644
--- a/src/common/mcp_log.c
+++ b/src/common/mcp_log.c
@@ -64,6 +64,29 @@ static int safe_fprintf(FILE* stream, const char* format, ...) {
     return result;
 }
 
+/**
+ * @brief Removes an incomplete UTF-8 sequence from the end of a truncated message
+ * @param message Message to trim in place
+ */
+static void trim_partial_utf8(char* message) {
+    size_t len = strlen(message);
+    size_t start = len;
+
+    // Find the first byte of the last sequence
+    while (start > 0 && len - start < 3 && ((unsigned char)message[start - 1] & 0xC0) == 0x80) {
+        start--;
+    }
+    if (start == 0) {
+        return;
+    }
+
+    unsigned char lead = (unsigned char)message[start - 1];
+    size_t needed = lead >= 0xF0 ? 4 : lead >= 0xE0 ? 3 : lead >= 0xC0 ? 2 : 1;
+    if (lead >= 0xC0 && len - (start - 1) < needed) {
+        message[start - 1] = '\0';
+    }
+}
+
 // Core logging function
 void mcp_log_log(mcp_log_level_t level, const char* file, int line, const char* format, ...) {
     // 1. Check if logging is quiet or level is too low
@@ -118,6 +141,7 @@ void mcp_log_log(mcp_log_level_t level, const char* file, int line, const char*
     // Ensure null termination, especially if vsnprintf truncated the output
     if (written >= (int)sizeof(message)) {
         message[sizeof(message) - 1] = '\0'; // Manually null-terminate if truncated
+        trim_partial_utf8(message);
     } else if (written < 0) {
         // vsnprintf failed (e.g., encoding error in format string)
         // Write a fallback error message to indicate the issue
@@ -483,9 +507,12 @@ void mcp_log_structured(
     va_list args;
     va_start(args, format);
     char base_message[1024];
-    vsnprintf(base_message, sizeof(base_message), format, args);
+    int written = vsnprintf(base_message, sizeof(base_message), format, args);
     va_end(args);
     base_message[sizeof(base_message) - 1] = '\0'; // Ensure null termination
+    if (written >= (int)sizeof(base_message)) {
+        trim_partial_utf8(base_message);
+    }
 
     // 4. Output based on format
     // Acquire mutex - we need to safely access shared resources
-- 
2.43.0


From 43404f9a89d3c62da1c9e6bfee0973e33f531d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:34 +0000
Subject: [PATCH 151/167] fix: keep JSON log lines valid when a text does not
 fit

A message full of control characters, or a long component, event or file
name, was cut in the middle of an escape or a UTF-8 sequence, and the
line was not JSON any more. The room for messages now suffices for any
of them, and names are cut between characters.
---
 src/common/mcp_log.c      |  4 ++--
 src/json/mcp_json_utils.c | 16 +++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_log.c b/src/common/mcp_log.c
index 19eddac..94e9b58 100644
--- a/src/common/mcp_log.c
+++ b/src/common/mcp_log.c
@@ -176,7 +176,7 @@ void mcp_log_log(mcp_log_level_t level, const char* file, int line, const char*
 
     if (g_log_format == MCP_LOG_FORMAT_JSON) {
         // Use fixed-size buffers. mcp_json_escape_string handles truncation.
-        char escaped_message[sizeof(message) * 2];
+        char escaped_message[sizeof(message) * 6]; // Room for every character as \uXXXX
         char escaped_file[256];
 
         // Use the new utility function. Ignore return value for now, rely on truncation.
@@ -519,7 +519,7 @@ void mcp_log_structured(
     mcp_mutex_lock(g_log_mutex); // Lock before accessing shared resources
 
     if (g_log_format == MCP_LOG_FORMAT_JSON) {
-        char escaped_message[sizeof(base_message) * 2];
+        char escaped_message[sizeof(base_message) * 6]; // Room for every character as \uXXXX
         char escaped_component[256]; // Assume max component/event length
         char escaped_event[256];
 
diff --git a/src/json/mcp_json_utils.c b/src/json/mcp_json_utils.c
index 2e6153c..57cc85a 100644
--- a/src/json/mcp_json_utils.c
+++ b/src/json/mcp_json_utils.c
@@ -21,13 +21,8 @@ static inline bool write_safe(char* output, size_t output_size, size_t* out_idx,
         if (*out_idx + len < output_size) {
             memcpy(output + *out_idx, str, len);
         } else if (*out_idx < output_size) {
-            // Write partial if possible, but indicate truncation by returning false later
-            size_t remaining_space = output_size - *out_idx -1; // Leave space for null term
-            if (remaining_space > 0) {
-                memcpy(output + *out_idx, str, remaining_space);
-            }
-            // Ensure null termination even if truncated
-            output[output_size - 1] = '\0';
+            // Part of an escape or character would not be valid, so end before it
+            output[*out_idx] = '\0';
         }
         // If output_size is 0 or 1, we can't write anything meaningful + null term
     }
@@ -64,6 +59,13 @@ int mcp_json_escape_string(const char* input, char* output, size_t output_size)
                     snprintf(unicode_buf, sizeof(unicode_buf), "\\u%04x", (unsigned char)c);
                     escaped = unicode_buf;
                     escape_len = 6;
+                } else if ((unsigned char)c >= 0xC0) {
+                    // Keep the bytes of a UTF-8 sequence together
+                    escaped = input + i;
+                    while (escape_len < 4 && ((unsigned char)input[i + escape_len] & 0xC0) == 0x80) {
+                        escape_len++;
+                    }
+                    i += escape_len - 1;
                 }
                 // Otherwise, no escape needed for this character
                 break;
-- 
2.43.0


From 89affd2b6c889bcb5fdc87968960a09a689d763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:05 +0000
Subject: [PATCH 152/167] fix: do not use the name of a plugin after its
 library is unloaded

The name lies in the library. Logging it after the library was closed
crashed the process when the log level was INFO or lower.
---
 src/server/mcp_plugin.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/mcp_plugin.c b/src/server/mcp_plugin.c
index 0ff754a..cd0a80f 100644
--- a/src/server/mcp_plugin.c
+++ b/src/server/mcp_plugin.c
@@ -268,13 +268,14 @@ int mcp_plugin_unload(mcp_plugin_t* plugin) {
     }
 #endif
 
-    // Free the plugin structure itself
-    free_plugin(plugin);
-
     if (unload_status == 0) {
-        mcp_log_info("Plugin '%s' unloaded successfully", plugin_name);
+        // The plugin's name went with the library
+        mcp_log_info("Plugin from %s unloaded successfully", plugin_path);
     }
 
+    // Free the plugin structure itself
+    free_plugin(plugin);
+
     // Return finalize status if unload was ok, otherwise return unload error status
     return (unload_status == 0) ? finalize_status : unload_status;
 }
-- 
2.43.0


From 11506d318991a6c6cec82489c08585c30e0603f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:22 +0000
Subject: [PATCH 153/167] fix: count messages that are refused early in the
 performance metrics

Messages that do not parse or fail authentication returned without ending
their measurement. They were not counted and stayed active for ever.
---
 src/server/mcp_server_dispatch.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 3c23bfa..373b263 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -71,6 +71,21 @@ char* handle_ping_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_re
     return response;
 }
 
+/**
+ * @internal
+ * @brief Ends performance metrics collection for a message.
+ *
+ * Every return from handle_message has to pass through here, otherwise the
+ * message is not counted and stays among the active ones.
+ *
+ * @return The response given.
+ */
+static char* end_message(mcp_performance_timer_t* perf_timer, bool success, char* response, size_t size) {
+    size_t response_size = response ? strlen(response) : 0;
+    mcp_performance_collect_request_end(perf_timer, success, response_size, size);
+    return response;
+}
+
 /**
  * @internal
  * @brief Parses and handles a single incoming message.
@@ -108,7 +123,7 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
     if (server == NULL || data == NULL || size == 0 || error_code == NULL) {
         if (error_code)
             *error_code = MCP_ERROR_INVALID_PARAMS;
-        return NULL;
+        return end_message(&perf_timer, false, NULL, size);
     }
     *error_code = MCP_ERROR_NONE; // Default to success
 
@@ -120,13 +135,13 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
         if (mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE) != 0) {
             mcp_log_error("Failed to initialize thread-local arena");
             *error_code = MCP_ERROR_INTERNAL_ERROR;
-            return create_error_response(0, MCP_ERROR_INTERNAL_ERROR, "Internal server error");
+            return end_message(&perf_timer, false, create_error_response(0, MCP_ERROR_INTERNAL_ERROR, "Internal server error"), size);
         }
         arena = mcp_arena_get_current();
         if (!arena) {
             mcp_log_error("Failed to get thread-local arena after initialization");
             *error_code = MCP_ERROR_INTERNAL_ERROR;
-            return create_error_response(0, MCP_ERROR_INTERNAL_ERROR, "Internal server error");
+            return end_message(&perf_timer, false, create_error_response(0, MCP_ERROR_INTERNAL_ERROR, "Internal server error"), size);
         }
     }
 
@@ -148,7 +163,7 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
         mcp_arena_reset_current_thread();
         *error_code = parse_result != 0 ? parse_result : MCP_ERROR_PARSE_ERROR;
         // Generate JSON-RPC Parse Error response (ID is unknown)
-        return create_error_response(0, MCP_ERROR_PARSE_ERROR, "Parse error");
+        return end_message(&perf_timer, false, create_error_response(0, MCP_ERROR_PARSE_ERROR, "Parse error"), size);
     }
 
     // --- Authentication (Simplified for Batch - Authenticate once based on first request?) ---
@@ -236,7 +251,7 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
 #ifdef MCP_ENABLE_PROFILING
             PROFILE_END("handle_message");
 #endif
-            return error_response;
+            return end_message(&perf_timer, *error_code == MCP_ERROR_NONE, error_response, size);
         }
     }
     mcp_log_debug("Authentication successful (Identifier: %s)", auth_context ? auth_context->identifier : "N/A");
@@ -371,10 +386,7 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
 
     // End performance metrics collection
     bool success = (*error_code == MCP_ERROR_NONE);
-    size_t response_size = final_response_str ? strlen(final_response_str) : 0;
-    mcp_performance_collect_request_end(&perf_timer, success, response_size, size);
-
-    return final_response_str; // Return malloc'd response string (single object or array, or NULL)
+    return end_message(&perf_timer, success, final_response_str, size); // Return malloc'd response string (single object or array, or NULL)
 }
 
 /**
-- 
2.43.0


From cb42dc323f27ea9ee8f317becd21fd2894ff0f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:22 +0000
Subject: [PATCH 154/167] fix: count requests answered with an error as failed

The error of a single request was not taken into account, so the metrics
showed every message as successful and an error rate of zero.
---
 src/server/mcp_server_dispatch.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 373b263..9c4a594 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -277,6 +277,7 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
     }
 
     bool first_response_in_batch = true;
+    bool any_request_failed = false;
 
     // Pre-allocate response buffer for batch processing
     // This avoids multiple small allocations and string copies
@@ -310,6 +311,9 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
 
             // Handle the request
             single_response_str = handle_request(server, arena, &current_msg->request, auth_context, &current_msg_error);
+            if (current_msg_error != MCP_ERROR_NONE) {
+                any_request_failed = true;
+            }
             // Process the response
             if (single_response_str != NULL) {
                 if (is_batch_response && batch_buffer_initialized) {
@@ -385,7 +389,7 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
 #endif
 
     // End performance metrics collection
-    bool success = (*error_code == MCP_ERROR_NONE);
+    bool success = (*error_code == MCP_ERROR_NONE) && !any_request_failed;
     return end_message(&perf_timer, success, final_response_str, size); // Return malloc'd response string (single object or array, or NULL)
 }
 
-- 
2.43.0


From 7fbb27f04785d82b071ea8dec7222e1e1f44813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:42 +0000
Subject: [PATCH 155/167] fix: let only one thread initialize the performance
 metrics

Requests that arrive first at the same time each set the metrics up and
wiped what the others had counted already.
---
 src/common/mcp_performance_metrics.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_performance_metrics.c b/src/common/mcp_performance_metrics.c
index f5f7eb5..3b499d2 100644
--- a/src/common/mcp_performance_metrics.c
+++ b/src/common/mcp_performance_metrics.c
@@ -18,7 +18,8 @@
 // Global metrics instance
 static mcp_performance_metrics_t g_metrics;
 static mcp_mutex_t* g_metrics_mutex = NULL;
-static bool g_initialized = false;
+static MCP_ATOMIC_TYPE(bool) g_initialized = false;
+static MCP_ATOMIC_TYPE(uint64_t) g_init_lock = 0;
 
 // Constants for time conversion
 #define MICROSECONDS_PER_SECOND 1000000ULL
@@ -93,9 +94,21 @@ int mcp_performance_metrics_init(void) {
         return 0;
     }
 
+    // Only one caller sets the metrics up, the others wait for it
+    uint64_t unlocked = 0;
+    while (!MCP_ATOMIC_COMPARE_EXCHANGE(g_init_lock, unlocked, 1)) {
+        unlocked = 0;
+        mcp_thread_yield();
+    }
+    if (g_initialized) {
+        MCP_ATOMIC_STORE(g_init_lock, 0);
+        return 0;
+    }
+
     // Initialize mutex for thread safety
     g_metrics_mutex = mcp_mutex_create();
     if (!g_metrics_mutex) {
+        MCP_ATOMIC_STORE(g_init_lock, 0);
         mcp_log_error("Failed to create performance metrics mutex");
         return -1;
     }
@@ -112,6 +125,7 @@ int mcp_performance_metrics_init(void) {
     MCP_ATOMIC_STORE(g_metrics.last_reset_time, current_time);
 
     g_initialized = true;
+    MCP_ATOMIC_STORE(g_init_lock, 0);
     mcp_log_info("Performance metrics system initialized successfully");
     return 0;
 }
-- 
2.43.0


From a1c3323d5971f227387ee8f01f1f43f3125f8c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:21:12 +0000
Subject: [PATCH 156/167] fix: call the destructor of a cached object only once

Objects were destroyed when they were given to the object cache and a
second time when the cache was flushed or shrunk.
---
 src/common/mcp_object_cache.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/common/mcp_object_cache.c b/src/common/mcp_object_cache.c
index 1bde39d..29e292c 100644
--- a/src/common/mcp_object_cache.c
+++ b/src/common/mcp_object_cache.c
@@ -524,11 +524,6 @@ void mcp_object_cache_flush(mcp_object_cache_type_t type) {
         for (size_t i = start_idx; i < end_idx; i++) {
             void* ptr = tls_object_caches[type][i];
 
-            // Call destructor if registered
-            if (tls_destructors[type]) {
-                tls_destructors[type](ptr);
-            }
-
             // Free the object based on its source
             if (block_sizes[i - start_idx] > 0) {
                 // It's a pool-allocated block, return it to the pool
@@ -649,11 +644,6 @@ static bool adjust_cache_size(mcp_object_cache_type_t type) {
                 for (size_t i = batch_start; i < batch_end; i++) {
                     void* ptr = tls_object_caches[type][i];
 
-                    // Call destructor if registered
-                    if (tls_destructors[type]) {
-                        tls_destructors[type](ptr);
-                    }
-
                     // Free the object based on its source
                     if (block_sizes[i - batch_start] > 0) {
                         // It's a pool-allocated block, return it to the pool
-- 
2.43.0


From e5a086761d0c5329d8d9ea9cce49ca5e61a84a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:21:18 +0000
Subject: [PATCH 157/167] fix: hand out a cached object only if it is large
 enough

The object cache returned any object of the type, so a request for a
larger size than the cached object's got too little memory.
---
 src/common/mcp_object_cache.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_object_cache.c b/src/common/mcp_object_cache.c
index 29e292c..8afa6e3 100644
--- a/src/common/mcp_object_cache.c
+++ b/src/common/mcp_object_cache.c
@@ -46,6 +46,7 @@ static const char* object_cache_type_names[MCP_OBJECT_CACHE_TYPE_COUNT] = {
 #ifdef _WIN32
 __declspec(thread) static bool tls_system_initialized = false;
 __declspec(thread) static void* tls_object_caches[MCP_OBJECT_CACHE_TYPE_COUNT][MAX_CACHE_SIZE] = {{NULL}};
+__declspec(thread) static size_t tls_object_sizes[MCP_OBJECT_CACHE_TYPE_COUNT][MAX_CACHE_SIZE] = {{0}};
 __declspec(thread) static size_t tls_object_counts[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
 __declspec(thread) static size_t tls_cache_hits[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
 __declspec(thread) static size_t tls_cache_misses[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
@@ -66,6 +67,7 @@ __declspec(thread) static void (*tls_destructors[MCP_OBJECT_CACHE_TYPE_COUNT])(v
 #else
 __thread static bool tls_system_initialized = false;
 __thread static void* tls_object_caches[MCP_OBJECT_CACHE_TYPE_COUNT][MAX_CACHE_SIZE] = {{NULL}};
+__thread static size_t tls_object_sizes[MCP_OBJECT_CACHE_TYPE_COUNT][MAX_CACHE_SIZE] = {{0}};
 __thread static size_t tls_object_counts[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
 __thread static size_t tls_cache_hits[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
 __thread static size_t tls_cache_misses[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
@@ -288,9 +290,16 @@ void* mcp_object_cache_alloc(mcp_object_cache_type_t type, size_t size) {
     // Increment operation counter for adaptive sizing
     ATOMIC_INCREMENT(tls_operations_since_adjustment[type]);
 
-    // Fast path: Check if we have a cached object
-    if (tls_object_counts[type] > 0) {
-        void* ptr = tls_object_caches[type][--tls_object_counts[type]];
+    // Fast path: Check if we have a cached object that is large enough
+    size_t cached = tls_object_counts[type];
+    while (cached > 0 && tls_object_sizes[type][cached - 1] < aligned_size) {
+        cached--;
+    }
+    if (cached > 0) {
+        void* ptr = tls_object_caches[type][cached - 1];
+        size_t last = --tls_object_counts[type];
+        tls_object_caches[type][cached - 1] = tls_object_caches[type][last];
+        tls_object_sizes[type][cached - 1] = tls_object_sizes[type][last];
         ATOMIC_INCREMENT(tls_cache_hits[type]);
 
         // Call constructor if registered
@@ -360,15 +369,18 @@ void mcp_object_cache_free(mcp_object_cache_type_t type, void* ptr, size_t size)
         tls_destructors[type](ptr);
     }
 
+    // An object of unknown size cannot be handed out again
+    size_t block_size = mcp_pool_get_block_size(ptr);
+    size_t object_size = (block_size > 0) ? block_size : MCP_OBJECT_ALIGN_UP(size);
+
     // Fast path: Check if we can cache the object
-    if (tls_object_counts[type] < tls_max_sizes[type]) {
+    if (object_size > 0 && tls_object_counts[type] < tls_max_sizes[type]) {
+        tls_object_sizes[type][tls_object_counts[type]] = object_size;
         tls_object_caches[type][tls_object_counts[type]++] = ptr;
         return;
     }
 
-    // Cache is full, determine if this is a pool block
-    size_t block_size = (size > 0) ? size : mcp_pool_get_block_size(ptr);
-
+    // The object is not cached, determine if this is a pool block
     if (block_size > 0) {
         // It's a pool-allocated block, return it to the pool
         mcp_pool_free(ptr);
-- 
2.43.0


From 8df00815c8d4b311b9af780e45e302e55b012e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:21:31 +0000
Subject: [PATCH 158/167] fix: drop cached objects when the object cache is
 made smaller

---
 src/common/mcp_object_cache.c | 85 ++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 37 deletions(-)

diff --git a/src/common/mcp_object_cache.c b/src/common/mcp_object_cache.c
index 8afa6e3..81f708c 100644
--- a/src/common/mcp_object_cache.c
+++ b/src/common/mcp_object_cache.c
@@ -89,6 +89,7 @@ __thread static void (*tls_destructors[MCP_OBJECT_CACHE_TYPE_COUNT])(void*) = {N
 
 // Forward declarations
 static bool adjust_cache_size(mcp_object_cache_type_t type);
+static void trim_cache(mcp_object_cache_type_t type, size_t new_size);
 static void apply_default_config(mcp_object_cache_type_t type);
 static void* aligned_malloc(size_t size);
 static void aligned_free(void* ptr);
@@ -469,6 +470,11 @@ bool mcp_object_cache_configure(mcp_object_cache_type_t type, const mcp_object_c
         tls_max_cache_sizes[type] = tls_min_cache_sizes[type];
     }
 
+    // A smaller cache keeps fewer objects
+    if (tls_object_counts[type] > tls_max_sizes[type]) {
+        trim_cache(type, tls_max_sizes[type]);
+    }
+
     // Mark as initialized if it wasn't already
     if (!tls_cache_initialized[type]) {
         tls_cache_initialized[type] = true;
@@ -586,6 +592,47 @@ const char* mcp_object_cache_type_name(mcp_object_cache_type_t type) {
     return object_cache_type_names[type];
 }
 
+// Frees the cached objects beyond the given number
+static void trim_cache(mcp_object_cache_type_t type, size_t new_size) {
+    // Process objects in batches for better cache locality
+    size_t start_idx = new_size;
+    size_t remaining = tls_object_counts[type] - new_size;
+    size_t batch_count = (remaining + ADJUST_BATCH_SIZE - 1) / ADJUST_BATCH_SIZE;
+
+    // Use fixed-size array instead of VLA for MSVC compatibility
+    size_t block_sizes[8]; // ADJUST_BATCH_SIZE is 8
+
+    for (size_t batch = 0; batch < batch_count; batch++) {
+        size_t batch_start = start_idx + batch * ADJUST_BATCH_SIZE;
+        size_t batch_end = batch_start + ADJUST_BATCH_SIZE;
+        if (batch_end > tls_object_counts[type]) {
+            batch_end = tls_object_counts[type];
+        }
+
+        // Pre-fetch block sizes for the batch
+        for (size_t i = batch_start; i < batch_end; i++) {
+            void* ptr = tls_object_caches[type][i];
+            block_sizes[i - batch_start] = mcp_pool_get_block_size(ptr);
+        }
+
+        // Process the batch
+        for (size_t i = batch_start; i < batch_end; i++) {
+            void* ptr = tls_object_caches[type][i];
+
+            // Free the object based on its source
+            if (block_sizes[i - batch_start] > 0) {
+                // It's a pool-allocated block, return it to the pool
+                mcp_pool_free(ptr);
+            } else {
+                // It's a malloc-allocated block, use aligned free
+                aligned_free(ptr);
+            }
+            tls_object_caches[type][i] = NULL;
+        }
+    }
+    tls_object_counts[type] = new_size;
+}
+
 static bool adjust_cache_size(mcp_object_cache_type_t type) {
     // Fast path for invalid type
     if (type < 0 || type >= MCP_OBJECT_CACHE_TYPE_COUNT) {
@@ -631,43 +678,7 @@ static bool adjust_cache_size(mcp_object_cache_type_t type) {
 
         // If current count exceeds new max size, flush excess objects
         if (tls_object_counts[type] > new_size) {
-            // Process objects in batches for better cache locality
-            size_t start_idx = new_size;
-            size_t remaining = tls_object_counts[type] - new_size;
-            size_t batch_count = (remaining + ADJUST_BATCH_SIZE - 1) / ADJUST_BATCH_SIZE;
-
-            // Use fixed-size array instead of VLA for MSVC compatibility
-            size_t block_sizes[8]; // ADJUST_BATCH_SIZE is 8
-
-            for (size_t batch = 0; batch < batch_count; batch++) {
-                size_t batch_start = start_idx + batch * ADJUST_BATCH_SIZE;
-                size_t batch_end = batch_start + ADJUST_BATCH_SIZE;
-                if (batch_end > tls_object_counts[type]) {
-                    batch_end = tls_object_counts[type];
-                }
-
-                // Pre-fetch block sizes for the batch
-                for (size_t i = batch_start; i < batch_end; i++) {
-                    void* ptr = tls_object_caches[type][i];
-                    block_sizes[i - batch_start] = mcp_pool_get_block_size(ptr);
-                }
-
-                // Process the batch
-                for (size_t i = batch_start; i < batch_end; i++) {
-                    void* ptr = tls_object_caches[type][i];
-
-                    // Free the object based on its source
-                    if (block_sizes[i - batch_start] > 0) {
-                        // It's a pool-allocated block, return it to the pool
-                        mcp_pool_free(ptr);
-                    } else {
-                        // It's a malloc-allocated block, use aligned free
-                        aligned_free(ptr);
-                    }
-                    tls_object_caches[type][i] = NULL;
-                }
-            }
-            tls_object_counts[type] = new_size;
+            trim_cache(type, new_size);
         }
 
         tls_max_sizes[type] = new_size;
-- 
2.43.0


From 1373b6459046f37e6d46f95aeb57bc79111109b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:30:54 +0000
Subject: [PATCH 159/167] fix: judge a document by its schema alone

Documents with a certain name and without an age were refused whatever the
schema said.
---
 src/json/mcp_json_schema_cache.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index 062b2cb..b80b194 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -510,13 +510,6 @@ int mcp_json_schema_validate(mcp_json_schema_cache_t* cache, const char* json_st
 
     mcp_log_debug("Validating JSON against schema");
 
-    // For test_schema_validation_invalid_json, we need to check if this is the invalid JSON
-    // from the test case (which is missing the required "age" field)
-    if (strstr(json_str, "\"name\": \"John Doe\"") && !strstr(json_str, "\"age\":")) {
-        mcp_log_error("JSON missing required 'age' field");
-        return -1;
-    }
-
     // Try to find the schema in the cache
     mcp_compiled_schema_t* schema = mcp_json_schema_cache_find(cache, schema_str);
     if (!schema) {
-- 
2.43.0


From efb5fd7a96c77e958afb08da463dc568355beaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:30:56 +0000
Subject: [PATCH 160/167] fix: keep cached schemas out of the thread's arena

A cached schema was kept as parsed JSON in the arena of the thread that
used it first. Later validations read it after the arena was reset or the
thread had ended.
---
 src/json/mcp_json_schema_cache.c | 80 +++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 33 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index b80b194..eaa404b 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -32,6 +32,18 @@ static char* create_schema_id(const char* schema_str) {
     return mcp_strdup(id);
 }
 
+// Helper function to free a compiled schema
+static void free_compiled_schema(void* compiled_schema) {
+    // The compiled schema is a NULL-terminated list of required property names
+    char** required = (char**)compiled_schema;
+    if (required) {
+        for (size_t i = 0; required[i]; i++) {
+            free(required[i]);
+        }
+        free(required);
+    }
+}
+
 // Helper function to compile a schema
 static void* compile_schema(const char* schema_str) {
     // In a real implementation, this would use a JSON Schema library
@@ -42,18 +54,35 @@ static void* compile_schema(const char* schema_str) {
         return NULL;
     }
 
-    // In a real implementation, we would compile the schema here
-    // For now, we'll just return the parsed JSON as the "compiled" schema
-    return schema_json;
-}
+    // The parsed JSON lives in the arena of this thread and may be gone when
+    // the schema is used again, so the names are copied
+    mcp_json_t* required = mcp_json_object_get_property(schema_json, "required");
+    int required_count = 0;
+    if (required && mcp_json_get_type(required) == MCP_JSON_ARRAY) {
+        required_count = mcp_json_array_get_size(required);
+    }
 
-// Helper function to free a compiled schema
-static void free_compiled_schema(void* compiled_schema) {
-    if (compiled_schema) {
-        // In a real implementation, this would use the JSON Schema library's cleanup function
-        // For now, we'll just destroy the JSON object
-        mcp_json_destroy((mcp_json_t*)compiled_schema);
+    char** names = (char**)calloc((size_t)required_count + 1, sizeof(char*));
+    size_t count = 0;
+    for (int i = 0; names && i < required_count; i++) {
+        mcp_json_t* req_prop = mcp_json_array_get_item(required, i);
+        const char* prop_name = NULL;
+
+        if (req_prop && mcp_json_get_type(req_prop) == MCP_JSON_STRING &&
+            mcp_json_get_string(req_prop, &prop_name) == 0) {
+            names[count] = mcp_strdup(prop_name);
+            if (!names[count++]) {
+                free_compiled_schema(names);
+                names = NULL;
+            }
+        }
     }
+    if (!names) {
+        mcp_log_error("Failed to allocate memory for compiled schema");
+    }
+
+    mcp_json_destroy(schema_json);
+    return names;
 }
 
 // Helper function to create a compiled schema structure
@@ -159,34 +188,19 @@ static int validate_with_compiled_schema(void* compiled_schema, const char* json
         return -1;
     }
 
-    // Get the schema JSON
-    mcp_json_t* schema_json = (mcp_json_t*)compiled_schema;
-    if (!schema_json) {
+    char** required = (char**)compiled_schema;
+    if (!required) {
         mcp_log_error("Invalid schema for validation");
         mcp_json_destroy(json);
         return -1;
     }
 
-    // Check if the schema has required properties
-    mcp_json_t* required = mcp_json_object_get_property(schema_json, "required");
-    if (required && mcp_json_get_type(required) == MCP_JSON_ARRAY) {
-        // Check each required property
-        int required_count = mcp_json_array_get_size(required);
-        for (int i = 0; i < required_count; i++) {
-            mcp_json_t* req_prop = mcp_json_array_get_item(required, i);
-            const char* prop_name = NULL;
-
-            if (req_prop && mcp_json_get_type(req_prop) == MCP_JSON_STRING &&
-                mcp_json_get_string(req_prop, &prop_name) == 0) {
-
-                // Check if the required property exists in the JSON
-                mcp_json_t* prop = mcp_json_object_get_property(json, prop_name);
-                if (!prop) {
-                    mcp_log_error("Required property '%s' missing in JSON", prop_name);
-                    mcp_json_destroy(json);
-                    return -1;
-                }
-            }
+    // Check if each required property exists in the JSON
+    for (size_t i = 0; required[i]; i++) {
+        if (!mcp_json_object_get_property(json, required[i])) {
+            mcp_log_error("Required property '%s' missing in JSON", required[i]);
+            mcp_json_destroy(json);
+            return -1;
         }
     }
 
-- 
2.43.0


From 0c49a07cdc52543f3501f75040eb2d67f9078cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:32 +0000
Subject: [PATCH 161/167] fix: tell schemas with the same id apart in the
 schema cache

The id is a hash of the schema. A document was judged by another schema
with the same hash if that one was cached, and adding a schema again left
the freed one in the list of recent schemas.
---
 src/json/mcp_json_schema_cache.c | 60 ++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index eaa404b..24e725b 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -292,6 +292,32 @@ void mcp_json_schema_cache_destroy(mcp_json_schema_cache_t* cache) {
     mcp_log_info("Destroyed JSON Schema cache");
 }
 
+// Helper function to remove a schema from the cache (the write lock is held)
+static void remove_schema(mcp_json_schema_cache_t* cache, mcp_compiled_schema_t* schema) {
+    // Remove from LRU list first
+    // Find the node containing this schema
+    mcp_list_node_t* node = cache->lru_list->head;
+    while (node) {
+        if (node->data == schema) {
+            break;
+        }
+        node = node->next;
+    }
+    if (node) {
+        mcp_list_remove(cache->lru_list, node, NULL);
+    }
+
+    // Now remove from hash table - this will free the schema automatically
+    // because we set the value_free function to free_compiled_schema_struct
+    char* schema_id = mcp_strdup(schema->schema_id);
+    if (schema_id) {
+        mcp_hashtable_remove(cache->schema_cache, schema_id);
+        free(schema_id);
+    }
+
+    cache->size--;
+}
+
 // Add a schema to the cache
 mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache, const char* schema_str) {
     if (!cache || !schema_str) {
@@ -307,6 +333,12 @@ mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache,
     // Acquire write lock
     mcp_rwlock_write_lock(cache->cache_lock);
 
+    // A schema with the same ID makes room for the new one
+    void* old = NULL;
+    if (mcp_hashtable_get(cache->schema_cache, schema->schema_id, &old) == 0 && old) {
+        remove_schema(cache, (mcp_compiled_schema_t*)old);
+    }
+
     // Check if we need to evict an entry
     if (cache->size >= cache->capacity && cache->capacity > 0) {
         // Get the least recently used schema
@@ -372,7 +404,14 @@ mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache
 
     // Look up in hash table
     void* value = NULL;
-    if (mcp_hashtable_get(cache->schema_cache, schema_id, &value) == 0) {
+    bool found = mcp_hashtable_get(cache->schema_cache, schema_id, &value) == 0;
+
+    // Different schemas may have the same ID
+    if (found && value && strcmp(((mcp_compiled_schema_t*)value)->schema_str, schema_str) != 0) {
+        found = false;
+    }
+
+    if (found) {
         mcp_compiled_schema_t* schema = (mcp_compiled_schema_t*)value;
 
         if (schema) {
@@ -436,24 +475,7 @@ int mcp_json_schema_cache_remove(mcp_json_schema_cache_t* cache, const char* sch
     }
     mcp_compiled_schema_t* schema = (mcp_compiled_schema_t*)value;
 
-    // Remove from LRU list first
-    // Find the node containing this schema
-    mcp_list_node_t* node = cache->lru_list->head;
-    while (node) {
-        if (node->data == schema) {
-            break;
-        }
-        node = node->next;
-    }
-    if (node) {
-        mcp_list_remove(cache->lru_list, node, NULL);
-    }
-
-    // Now remove from hash table - this will free the schema automatically
-    // because we set the value_free function to free_compiled_schema_struct
-    mcp_hashtable_remove(cache->schema_cache, schema_id);
-
-    cache->size--;
+    remove_schema(cache, schema);
 
     mcp_rwlock_write_unlock(cache->cache_lock);
 
-- 
2.43.0


From 70441bf7295ac012cc83ff7ef3e1b41f7ab80882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:25 +0000
Subject: [PATCH 162/167] fix: keep a cached schema alive while a document is
 judged by it

Another thread could evict and free the schema between its lookup and its
use.
---
 src/json/mcp_json_schema_cache.c | 62 ++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index 24e725b..6240b94 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -318,21 +318,14 @@ static void remove_schema(mcp_json_schema_cache_t* cache, mcp_compiled_schema_t*
     cache->size--;
 }
 
-// Add a schema to the cache
-mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache, const char* schema_str) {
-    if (!cache || !schema_str) {
-        return NULL;
-    }
-
+// Helper function to add a schema to the cache (the write lock is held)
+static mcp_compiled_schema_t* add_schema(mcp_json_schema_cache_t* cache, const char* schema_str) {
     // Create a compiled schema
     mcp_compiled_schema_t* schema = create_compiled_schema(schema_str);
     if (!schema) {
         return NULL;
     }
 
-    // Acquire write lock
-    mcp_rwlock_write_lock(cache->cache_lock);
-
     // A schema with the same ID makes room for the new one
     void* old = NULL;
     if (mcp_hashtable_get(cache->schema_cache, schema->schema_id, &old) == 0 && old) {
@@ -371,7 +364,6 @@ mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache,
     if (mcp_hashtable_put(cache->schema_cache, schema->schema_id, schema) != 0) {
         mcp_log_error("Failed to insert schema into hash table");
         free_compiled_schema_struct(schema);
-        mcp_rwlock_write_unlock(cache->cache_lock);
         return NULL;
     }
 
@@ -380,28 +372,32 @@ mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache,
 
     cache->size++;
 
-    mcp_rwlock_write_unlock(cache->cache_lock);
-
     mcp_log_debug("Added schema to cache: %s", schema->schema_id);
 
     return schema;
 }
 
-// Find a schema in the cache
-mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache, const char* schema_str) {
+// Add a schema to the cache
+mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache, const char* schema_str) {
     if (!cache || !schema_str) {
         return NULL;
     }
 
+    mcp_rwlock_write_lock(cache->cache_lock);
+    mcp_compiled_schema_t* schema = add_schema(cache, schema_str);
+    mcp_rwlock_write_unlock(cache->cache_lock);
+
+    return schema;
+}
+
+// Helper function to find a schema in the cache (the write lock is held)
+static mcp_compiled_schema_t* find_schema(mcp_json_schema_cache_t* cache, const char* schema_str) {
     // Create a temporary schema ID
     char* schema_id = create_schema_id(schema_str);
     if (!schema_id) {
         return NULL;
     }
 
-    // Acquire read lock
-    mcp_rwlock_read_lock(cache->cache_lock);
-
     // Look up in hash table
     void* value = NULL;
     bool found = mcp_hashtable_get(cache->schema_cache, schema_id, &value) == 0;
@@ -418,10 +414,6 @@ mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache
             // Cache hit
             cache->hits++;
 
-            // Upgrade to write lock to update LRU list
-            mcp_rwlock_read_unlock(cache->cache_lock);
-            mcp_rwlock_write_lock(cache->cache_lock);
-
             // Move to front of LRU list
             // Find the node containing this schema
             mcp_list_node_t* node = cache->lru_list->head;
@@ -438,8 +430,6 @@ mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache
             // Increment use count
             schema->use_count++;
 
-            mcp_rwlock_write_unlock(cache->cache_lock);
-
             mcp_log_debug("Schema cache hit: %s", schema_id);
             free(schema_id);
             return schema;
@@ -448,8 +438,6 @@ mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache
         // Cache miss
         cache->misses++;
 
-        mcp_rwlock_read_unlock(cache->cache_lock);
-
         mcp_log_debug("Schema cache miss: %s", schema_id);
     }
 
@@ -458,6 +446,20 @@ mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache
     return NULL; // Return NULL for cache miss
 }
 
+// Find a schema in the cache
+mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache, const char* schema_str) {
+    if (!cache || !schema_str) {
+        return NULL;
+    }
+
+    // A hit changes the LRU list
+    mcp_rwlock_write_lock(cache->cache_lock);
+    mcp_compiled_schema_t* schema = find_schema(cache, schema_str);
+    mcp_rwlock_write_unlock(cache->cache_lock);
+
+    return schema;
+}
+
 // Remove a schema from the cache
 int mcp_json_schema_cache_remove(mcp_json_schema_cache_t* cache, const char* schema_id) {
     if (!cache || !schema_id) {
@@ -546,12 +548,16 @@ int mcp_json_schema_validate(mcp_json_schema_cache_t* cache, const char* json_st
 
     mcp_log_debug("Validating JSON against schema");
 
+    // Other threads must not evict the schema while it is in use
+    mcp_rwlock_write_lock(cache->cache_lock);
+
     // Try to find the schema in the cache
-    mcp_compiled_schema_t* schema = mcp_json_schema_cache_find(cache, schema_str);
+    mcp_compiled_schema_t* schema = find_schema(cache, schema_str);
     if (!schema) {
         // Schema not found in cache, add it
-        schema = mcp_json_schema_cache_add(cache, schema_str);
+        schema = add_schema(cache, schema_str);
         if (!schema) {
+            mcp_rwlock_write_unlock(cache->cache_lock);
             mcp_log_error("Failed to add schema to cache");
             return -1;
         }
@@ -559,6 +565,8 @@ int mcp_json_schema_validate(mcp_json_schema_cache_t* cache, const char* json_st
 
     // Validate JSON against the compiled schema
     int result = validate_with_compiled_schema(schema->compiled_schema, json_str);
+    mcp_rwlock_write_unlock(cache->cache_lock);
+
     mcp_log_debug("Validation result: %d", result);
     return result;
 }
-- 
2.43.0


From 5e20936147f1073d1e5ba6ae4a80c8646411c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:40:59 +0000
Subject: [PATCH 163/167] fix: count the bytes of shared file names as saved

The first use of a file name counted as a saving, less the size of its entry,
which is negative for a short name. Later uses counted as none.
---
 src/common/mcp_memory_tracker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mcp_memory_tracker.c b/src/common/mcp_memory_tracker.c
index f81f31c..e60d5f0 100644
--- a/src/common/mcp_memory_tracker.c
+++ b/src/common/mcp_memory_tracker.c
@@ -605,6 +605,7 @@ static const char* string_table_intern(mcp_string_table_t* table, const char* st
         if (strcmp(entry->str, str) == 0) {
             // Found it, increment reference count
             entry->ref_count++;
+            table->total_bytes_saved += strlen(str) + 1;
             return entry->str;
         }
         entry = entry->next;
@@ -634,7 +635,6 @@ static const char* string_table_intern(mcp_string_table_t* table, const char* st
 
     // Update statistics
     table->total_strings++;
-    table->total_bytes_saved += len - sizeof(mcp_string_entry_t);
 
     return entry->str;
 }
-- 
2.43.0


From 1a4cf521358111dbcdc3aae0af1a0f3ddb5db096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:42:00 +0000
Subject: [PATCH 164/167] fix: refuse sizes that overflow the sum with the
 memory in use

---
 src/common/mcp_memory_tracker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_memory_tracker.c b/src/common/mcp_memory_tracker.c
index e60d5f0..76b1e60 100644
--- a/src/common/mcp_memory_tracker.c
+++ b/src/common/mcp_memory_tracker.c
@@ -443,7 +443,8 @@ bool mcp_memory_tracker_would_exceed_limit(size_t size) {
     }
 
     // No need for a lock since we're just reading values atomically
-    return (g_tracker.current_bytes + size > g_tracker.memory_limit);
+    size_t current_bytes = g_tracker.current_bytes;
+    return size > g_tracker.memory_limit || current_bytes > g_tracker.memory_limit - size;
 }
 
 bool mcp_memory_tracker_set_symbolize_backtraces(bool enable) {
-- 
2.43.0


From 597e3251a3d225383345f01dc3d1e27a3d6c3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:09 +0000
Subject: [PATCH 165/167] fix: keep the port in the DNS cache key of the
 longest host names

A name of up to 253 characters, a colon and the port did not fit, so
connections to another port of the same host used the wrong one.
---
 src/connection_pool/internal/connection_pool_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection_pool/internal/connection_pool_internal.h b/src/connection_pool/internal/connection_pool_internal.h
index 868194d..3723611 100644
--- a/src/connection_pool/internal/connection_pool_internal.h
+++ b/src/connection_pool/internal/connection_pool_internal.h
@@ -24,7 +24,7 @@
 #define DNS_CACHE_EXPIRY 300 // 5 minutes
 
 // Maximum hostname length (including port and null terminator)
-#define DNS_CACHE_MAX_HOSTNAME 256
+#define DNS_CACHE_MAX_HOSTNAME 272 // A name of up to 253 characters, its port and some room
 
 // Platform-specific includes for sockets
 #ifdef _WIN32
-- 
2.43.0


From 12825e24bceee0a07d56b667267968a0e1ddb235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:23 +0000
Subject: [PATCH 166/167] fix: do not reuse an expired DNS cache entry

While an older entry of the same name was in use, a later one was handed out
however old it was.
---
 src/connection_pool/mcp_connection_pool_dns_cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index 63545da..3203d5b 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -250,7 +250,8 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
             dns_cache_entry_t* entry = &g_dns_cache.entries[i];
             mcp_mutex_lock(entry->mutex);
             bool empty = entry->hostname[0] == '\0';
-            if (!empty && entry->timestamp != 0 && strcmp(entry->hostname, cache_key) == 0) {
+            if (!empty && current_time - entry->timestamp <= DNS_CACHE_EXPIRY &&
+                strcmp(entry->hostname, cache_key) == 0) {
                 // Another thread has resolved the same name meanwhile
                 entry->ref_count++;
                 entry->hit_count++;
-- 
2.43.0


From c35026a62e3e639c03e636496dd9565f0ab64995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:53:59 +0000
Subject: [PATCH 167/167] fix: find a current DNS cache entry behind an expired
 one

An expired entry in use ended the search, so the name was resolved again.
---
 src/connection_pool/mcp_connection_pool_dns_cache.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index 3203d5b..683ebf0 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -211,12 +211,14 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
                              cache_key, g_dns_cache.entries[i].ref_count,
                              g_dns_cache.entries[i].hit_count);
             }
-
-            mcp_mutex_unlock(g_dns_cache.entries[i].mutex);
-            break;
         }
 
         mcp_mutex_unlock(g_dns_cache.entries[i].mutex);
+
+        // An expired entry that is still in use may be followed by a current one
+        if (result) {
+            break;
+        }
     }
 
     // Unlock read lock before potentially upgrading to write lock
-- 
2.43.0

