From 2cb0361f6b907c6cdc294edf6544d2b1f000bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:45 +0000
Subject: [PATCH 001/126] fix: wait for condition variables on the clock their
 deadline is computed on

mcp_cond_timedwait computes an absolute deadline on CLOCK_MONOTONIC, but the
condition variable was created with the default (realtime) clock. The deadline
therefore lay decades in the past and every timed wait returned at once.
---
 src/common/mcp_sync.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_sync.c b/src/common/mcp_sync.c
index ed33ac2..6eee6ea 100644
--- a/src/common/mcp_sync.c
+++ b/src/common/mcp_sync.c
@@ -198,7 +198,23 @@ mcp_cond_t* mcp_cond_create(void) {
     // Assume success
     return cond;
 #else
-    if (pthread_cond_init(&cond->cond, NULL) != 0) {
+    int init_result;
+#if defined(_POSIX_TIMERS) && (_POSIX_TIMERS > 0) && defined(CLOCK_MONOTONIC)
+    // mcp_cond_timedwait computes its deadline on the monotonic clock, so the
+    // condition variable has to measure time on the same clock
+    pthread_condattr_t attr;
+    if (pthread_condattr_init(&attr) != 0) {
+        mcp_log_error("Failed to initialize condition variable attributes");
+        sync_free(cond);
+        return NULL;
+    }
+    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+    init_result = pthread_cond_init(&cond->cond, &attr);
+    pthread_condattr_destroy(&attr);
+#else
+    init_result = pthread_cond_init(&cond->cond, NULL);
+#endif
+    if (init_result != 0) {
         mcp_log_error("Failed to initialize pthread condition variable");
         sync_free(cond);
         return NULL;
@@ -280,13 +296,8 @@ int mcp_cond_timedwait(mcp_cond_t* cond, mcp_mutex_t* mutex, uint32_t timeout_ms
     ts.tv_sec += timeout_ms / 1000 + nsec / 1000000000;
     ts.tv_nsec = nsec % 1000000000;
 
-    // Use pthread_cond_timedwait with the monotonic clock
-    pthread_condattr_t attr;
-    pthread_condattr_init(&attr);
-    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
-
+    // The condition variable was created on the monotonic clock (see mcp_cond_create)
     int ret = pthread_cond_timedwait(&cond->cond, &mutex->mutex, &ts);
-    pthread_condattr_destroy(&attr);
 #else
     // Fall back to gettimeofday if monotonic clock is not available
     struct timeval tv;
-- 
2.43.0


From d40fb89bf332650fef7a0468d4c4e123ea5b2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:01 +0000
Subject: [PATCH 002/126] fix: restart a client's rate limit data when another
 rule applies to it

The data kept per client is a union laid out for the algorithm of the rule
that applied when the client was first seen. After adding or removing a rule
the check interpreted it with the algorithm and limits of the new rule, which
read the wrong union member or kept enforcing the old limits.
---
 src/server/mcp_advanced_rate_limiter.c | 39 +++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 1d5de61..c8db3eb 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -147,6 +147,7 @@ static void cleanup_algorithm_data(client_entry_t* entry);
 static const mcp_rate_limit_rule_t* find_matching_rule(mcp_advanced_rate_limiter_t* limiter,
                                                      mcp_rate_limit_key_type_t key_type,
                                                      const char* key);
+static bool entry_fits_rule(const client_entry_t* entry, const mcp_rate_limit_rule_t* rule);
 static bool resize_client_table(mcp_advanced_rate_limiter_t* limiter, size_t new_capacity);
 static bool key_matches_pattern(const char* key, const char* pattern);
 
@@ -268,6 +269,35 @@ static bool initialize_algorithm_data(client_entry_t* entry, const mcp_rate_limi
     return true;
 }
 
+/**
+ * @internal
+ * @brief Tells whether the data of a client entry was set up for the given rule.
+ *
+ * The rule that applies to a client changes when rules are added or removed.
+ */
+static bool entry_fits_rule(const client_entry_t* entry, const mcp_rate_limit_rule_t* rule) {
+    if (entry->algorithm != rule->algorithm)
+        return false;
+
+    switch (rule->algorithm) {
+        case MCP_RATE_LIMIT_SLIDING_WINDOW:
+            return entry->data.sliding_window.buffer_size == rule->max_requests_per_window;
+
+        case MCP_RATE_LIMIT_TOKEN_BUCKET:
+            return entry->data.token_bucket.tokens_per_second == rule->tokens_per_second &&
+                   entry->data.token_bucket.max_tokens == rule->max_tokens;
+
+        case MCP_RATE_LIMIT_LEAKY_BUCKET:
+            return entry->data.leaky_bucket.leak_rate_per_second == rule->leak_rate_per_second &&
+                   entry->data.leaky_bucket.burst_capacity == rule->burst_capacity;
+
+        case MCP_RATE_LIMIT_FIXED_WINDOW:
+            break; // The limits are taken from the rule on every check
+    }
+
+    return true;
+}
+
 /**
  * @internal
  * @brief Checks if a key matches a pattern.
@@ -418,7 +448,14 @@ static client_entry_t* find_or_create_client_entry(mcp_advanced_rate_limiter_t*
     client_entry_t* entry = limiter->client_buckets[index];
     while (entry) {
         if (entry->key_type == key_type && strcmp(entry->key, key) == 0) {
-            // Found existing entry
+            // Found existing entry: start over if another rule applies by now
+            const mcp_rate_limit_rule_t* current = find_matching_rule(limiter, key_type, key);
+            if (current && !entry_fits_rule(entry, current)) {
+                cleanup_algorithm_data(entry);
+                memset(&entry->data, 0, sizeof(entry->data));
+                if (!initialize_algorithm_data(entry, current))
+                    return NULL;
+            }
             return entry;
         }
         entry = entry->next;
-- 
2.43.0


From b4e68ba086a6c876c2dbc0ba04db515e5d4ee2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:01 +0000
Subject: [PATCH 003/126] fix: let rules with a negative priority apply when
 nothing else matches

---
 src/server/mcp_advanced_rate_limiter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index c8db3eb..41ec110 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -366,14 +366,14 @@ static const mcp_rate_limit_rule_t* find_matching_rule(mcp_advanced_rate_limiter
     // Get the rule list for this key type
     rule_entry_t* rule = limiter->rules[key_type];
     const mcp_rate_limit_rule_t* best_match = NULL;
-    int highest_priority = -1;
+    int highest_priority = 0;
 
     // Iterate through rules to find the best match
     while (rule) {
         // Check if the key matches the rule's pattern
         if (rule->rule.key_pattern == NULL || key_matches_pattern(key, rule->rule.key_pattern)) {
             // If this rule has higher priority than our current best match, use it
-            if (rule->rule.priority > highest_priority) {
+            if (!best_match || rule->rule.priority > highest_priority) {
                 best_match = &rule->rule;
                 highest_priority = rule->rule.priority;
             }
-- 
2.43.0


From 98f521b5396543918a43eb35d001ea6bd6e11bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:01 +0000
Subject: [PATCH 004/126] fix: match rate limit patterns with a wildcard at
 both ends

The documented contains match ("*admin*") was tried after the prefix match,
which returned for every pattern ending in '*'. A lone "*" matched nothing.
---
 src/server/mcp_advanced_rate_limiter.c | 30 +++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 41ec110..d46c9fe 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -319,21 +319,6 @@ static bool key_matches_pattern(const char* key, const char* pattern) {
     size_t pattern_len = strlen(pattern);
     size_t key_len = strlen(key);
 
-    // Check for prefix match: pattern ends with *
-    if (pattern_len > 1 && pattern[pattern_len - 1] == '*') {
-        // Compare all characters except the trailing *
-        return strncmp(key, pattern, pattern_len - 1) == 0;
-    }
-
-    // Check for suffix match: pattern starts with *
-    if (pattern_len > 1 && pattern[0] == '*') {
-        // Compare the suffix
-        size_t suffix_len = pattern_len - 1;
-        if (key_len >= suffix_len) {
-            return strcmp(key + (key_len - suffix_len), pattern + 1) == 0;
-        }
-    }
-
     // Check for contains match: pattern starts and ends with *
     if (pattern_len > 2 && pattern[0] == '*' && pattern[pattern_len - 1] == '*') {
         // Extract the substring to search for
@@ -350,6 +335,21 @@ static bool key_matches_pattern(const char* key, const char* pattern) {
         return result;
     }
 
+    // Check for prefix match: pattern ends with *
+    if (pattern_len > 0 && pattern[pattern_len - 1] == '*') {
+        // Compare all characters except the trailing *
+        return strncmp(key, pattern, pattern_len - 1) == 0;
+    }
+
+    // Check for suffix match: pattern starts with *
+    if (pattern_len > 1 && pattern[0] == '*') {
+        // Compare the suffix
+        size_t suffix_len = pattern_len - 1;
+        if (key_len >= suffix_len) {
+            return strcmp(key + (key_len - suffix_len), pattern + 1) == 0;
+        }
+    }
+
     return false;
 }
 
-- 
2.43.0


From 878c1a089a5f9a2d2f40174bb9cd22637b1ad182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:01 +0000
Subject: [PATCH 005/126] fix: take the write lock while checking the advanced
 rate limiter

A check inserts client entries, grows the table and updates counters, but held
only the read lock. Concurrent checks could admit more requests than the limit,
lose counts and corrupt the table.
---
 src/server/mcp_advanced_rate_limiter.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index d46c9fe..a9ce651 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -873,15 +873,16 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
         return false;
     }
 
+    bool allowed = false;
+
+    // Acquire write lock: a check creates and updates client entries and counters
+    mcp_rwlock_write_lock(limiter->lock);
+
     // Increment total requests counter
     limiter->total_requests++;
 
     // Get current time
     time_t current_time = time(NULL);
-    bool allowed = false;
-
-    // Acquire read lock
-    mcp_rwlock_read_lock(limiter->lock);
 
     // Check each key type in order of priority
     if (api_key) {
@@ -908,8 +909,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -940,8 +941,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -972,8 +973,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -1004,19 +1005,19 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
         }
     }
 
-    // Release lock
-    mcp_rwlock_read_unlock(limiter->lock);
-
     // If we get here, the request is denied
     limiter->denied_requests++;
+
+    // Release lock
+    mcp_rwlock_write_unlock(limiter->lock);
     return false;
 }
 
-- 
2.43.0


From 5690ea8874e4a20ab475baca1965ebe4fd779936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:01 +0000
Subject: [PATCH 006/126] fix: check the rule limit of the advanced rate
 limiter under its lock

---
 src/server/mcp_advanced_rate_limiter.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index a9ce651..2b9daa5 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -761,15 +761,16 @@ bool mcp_advanced_rate_limiter_add_rule(mcp_advanced_rate_limiter_t* limiter, co
         return false;
     }
 
+    // Acquire write lock
+    mcp_rwlock_write_lock(limiter->lock);
+
     // Check if we've reached the maximum number of rules for this key type
     if (limiter->rule_counts[rule->key_type] >= MAX_RULES_PER_KEY_TYPE) {
+        mcp_rwlock_write_unlock(limiter->lock);
         mcp_log_error("Maximum number of rules reached for key type %d", rule->key_type);
         return false;
     }
 
-    // Acquire write lock
-    mcp_rwlock_write_lock(limiter->lock);
-
     // Create a new rule entry
     rule_entry_t* entry = (rule_entry_t*)malloc(sizeof(rule_entry_t));
     if (!entry) {
-- 
2.43.0


From 90c7bd33b5288d824dc5f84706292251c97094a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:00 +0000
Subject: [PATCH 007/126] fix: free the start of the copied vector after a
 partial vectored send

---
 src/common/mcp_socket_utils.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index a47e1db..9508cf7 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -882,6 +882,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
 #else
     // POSIX optimized implementation
     struct iovec* temp_iov = NULL;
+    struct iovec* allocated_iov = NULL; // Start of the copy, temp_iov moves while sending
     if (iovcnt > 1) {
         temp_iov = (struct iovec*)socket_utils_alloc(iovcnt * sizeof(struct iovec));
         if (!temp_iov) {
@@ -889,6 +890,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             return -1;
         }
         memcpy(temp_iov, iov, iovcnt * sizeof(struct iovec));
+        allocated_iov = temp_iov;
     } else {
         temp_iov = iov;
     }
@@ -899,9 +901,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         // Check stop flag
         if (stop_flag && *stop_flag) {
             mcp_log_debug("send_vectors (POSIX) aborted by stop flag");
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(allocated_iov);
             return -1;
         }
 
@@ -929,26 +929,20 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
                 // Connection closed
                 mcp_log_debug("send_vectors (POSIX): Connection closed/reset (socket %d, error %d - %s)",
                              (int)sock, error_code, strerror(error_code));
-                if (temp_iov != iov) {
-                    socket_utils_free(temp_iov);
-                }
+                socket_utils_free(allocated_iov);
                 return -1;
             }
 
             // Other errors
             mcp_log_error("send_vectors (POSIX) writev failed (socket %d): Error %d (%s)",
                          (int)sock, error_code, strerror(error_code));
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(allocated_iov);
             return -1;
         }
 
         if (bytes_sent == 0) {
             mcp_log_error("send_vectors (POSIX) sent 0 bytes unexpectedly (socket %d)", (int)sock);
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(allocated_iov);
             return -1;
         }
 
@@ -979,9 +973,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         }
     }
 
-    if (temp_iov != iov) {
-        socket_utils_free(temp_iov);
-    }
+    socket_utils_free(allocated_iov);
 #endif
 
     return (total_sent == total_to_send) ? 0 : -1; // Success only if all bytes sent
-- 
2.43.0


From 14c8a034c3b42bc12e7816e97837b552154fda41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:18 +0000
Subject: [PATCH 008/126] fix: do not raise SIGPIPE when sending vectors to a
 closed connection

---
 src/common/mcp_socket_utils.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index 9508cf7..852651b 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -905,7 +905,12 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             return -1;
         }
 
-        ssize_t bytes_sent = writev(sock, temp_iov, current_iovcnt);
+        // sendmsg instead of writev, so that a closed peer does not raise SIGPIPE
+        struct msghdr msg;
+        memset(&msg, 0, sizeof(msg));
+        msg.msg_iov = temp_iov;
+        msg.msg_iovlen = current_iovcnt;
+        ssize_t bytes_sent = sendmsg(sock, &msg, MCP_SEND_FLAGS);
 
         if (bytes_sent == MCP_SOCKET_ERROR) {
             int error_code = errno;
-- 
2.43.0


From 2cc82fc18e9614e2510f0e5f1564c0d92830202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:18 +0000
Subject: [PATCH 009/126] fix: send vectors of more than IOV_MAX parts in
 several calls

---
 src/common/mcp_socket_utils.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index 852651b..e7bb814 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -20,6 +20,12 @@
     #include <fcntl.h>
     #include <netdb.h>
     #include <netinet/tcp.h>
+
+    #ifdef IOV_MAX
+        #define MCP_MAX_IOV_PER_CALL IOV_MAX
+    #else
+        #define MCP_MAX_IOV_PER_CALL 1024
+    #endif
 #endif
 
 /**
@@ -909,7 +915,8 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         struct msghdr msg;
         memset(&msg, 0, sizeof(msg));
         msg.msg_iov = temp_iov;
-        msg.msg_iovlen = current_iovcnt;
+        // The kernel refuses more than IOV_MAX parts per call
+        msg.msg_iovlen = (current_iovcnt > MCP_MAX_IOV_PER_CALL) ? MCP_MAX_IOV_PER_CALL : current_iovcnt;
         ssize_t bytes_sent = sendmsg(sock, &msg, MCP_SEND_FLAGS);
 
         if (bytes_sent == MCP_SOCKET_ERROR) {
-- 
2.43.0


From c2bb3985b176203fc708910fb4a83e9f0709c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:18 +0000
Subject: [PATCH 010/126] fix: leave empty buffers out of a batch send instead
 of sending uninitialized vectors

---
 src/common/mcp_socket_utils.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index e7bb814..9884e93 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -1578,6 +1578,7 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
 
     // Calculate total bytes to send for logging
     size_t total_bytes = 0;
+    int iov_count = 0;
 
     // Fill IOV array from cache-aligned buffer structures
     for (int i = 0; i < buffer_count; i++) {
@@ -1587,12 +1588,13 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
         }
 
 #ifdef _WIN32
-        iov[i].buf = buffers[i]->buffer;
-        iov[i].len = (ULONG)buffers[i]->used;
+        iov[iov_count].buf = buffers[i]->buffer;
+        iov[iov_count].len = (ULONG)buffers[i]->used;
 #else
-        iov[i].iov_base = buffers[i]->buffer;
-        iov[i].iov_len = buffers[i]->used;
+        iov[iov_count].iov_base = buffers[i]->buffer;
+        iov[iov_count].iov_len = buffers[i]->used;
 #endif
+        iov_count++;
         total_bytes += buffers[i]->used;
     }
 
@@ -1600,7 +1602,7 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
                  buffer_count, total_bytes, (int)sock);
 
     // Use vectored send
-    int result = mcp_socket_send_vectors(sock, iov, buffer_count, stop_flag);
+    int result = mcp_socket_send_vectors(sock, iov, iov_count, stop_flag);
 
     // Free IOV array
     socket_utils_free(iov);
-- 
2.43.0


From 9849a724527f4f6a1db93495cd4fe570ee0bb4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:18 +0000
Subject: [PATCH 011/126] fix: report a failed receive in the middle of a batch

---
 include/mcp_framing.h    |  3 +++
 src/common/mcp_framing.c | 12 ++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/mcp_framing.h b/include/mcp_framing.h
index 1b9c82c..160549b 100644
--- a/include/mcp_framing.h
+++ b/include/mcp_framing.h
@@ -67,6 +67,9 @@ int mcp_framing_send_batch(socket_t sock, const char** messages, const uint32_t*
  * The function will stop receiving messages when the socket has no more data available,
  * or when 'max_count' messages have been received.
  *
+ * When it fails after some messages were received, those are still stored in the output
+ * arrays and counted in 'count_out', and belong to the caller.
+ *
  * @param sock The socket descriptor to receive messages from.
  * @param messages_out Array to store received message buffers. Must be pre-allocated with at least max_count entries.
  * @param lengths_out Array to store received message lengths. Must be pre-allocated with at least max_count entries.
diff --git a/src/common/mcp_framing.c b/src/common/mcp_framing.c
index 54f1073..f9d98f4 100644
--- a/src/common/mcp_framing.c
+++ b/src/common/mcp_framing.c
@@ -329,14 +329,10 @@ int mcp_framing_recv_batch(socket_t sock, char** messages_out, uint32_t* lengths
         // Receive the message
         int result = mcp_framing_recv_message(sock, &message, &length, max_message_size, stop_flag);
         if (result != 0) {
-            // If this is the first message, it's an error
-            // If we've already received some messages, it's OK to stop here
-            if (i == 0) {
-                mcp_log_error("mcp_framing_recv_batch: Failed to receive first message");
-                return -1;
-            } else {
-                break;
-            }
+            // Part of the message may have been consumed, so the stream cannot be
+            // continued. The messages received so far are in the output arrays.
+            mcp_log_error("mcp_framing_recv_batch: Failed to receive message %zu", i);
+            return -1;
         }
 
         // Store the message and length
-- 
2.43.0


From e615fcd26f175dd67e0409584be2c987eac7b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:06 +0000
Subject: [PATCH 012/126] fix: free what a rejected JSON text had allocated

---
 src/json/mcp_json_parser.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index db6e9bd..f29a85e 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -204,13 +204,15 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         skip_whitespace(json);
         char* name = parse_string(json);
         if (name == NULL) {
-            // Don't destroy object here, let caller handle cleanup via arena reset/destroy
+            // The nodes are in the arena, but what they own is malloc'd and must be freed
+            mcp_json_destroy(object);
             return NULL;
         }
         skip_whitespace(json);
         if (**json != ':') {
             mcp_log_error("JSON parse error: Expected ':' after object key '%s'.", name);
             free(name);
+            mcp_json_destroy(object);
             return NULL;
         }
         (*json)++; // Skip ':'
@@ -219,6 +221,7 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         if (value == NULL) {
             mcp_log_error("JSON parse error: Failed to parse value for object key '%s'.", name);
             free(name);
+            mcp_json_destroy(object);
             return NULL;
         }
         // Set property using generic hash table
@@ -227,7 +230,8 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         if (mcp_hashtable_put(object->object_table, name, value) != 0) {
             mcp_log_error("JSON parse error: Failed to set property '%s' using mcp_hashtable_put.", name);
             free(name); // Free the parsed name string
-            // Don't destroy value (it's in arena), don't destroy object
+            mcp_json_destroy(value);
+            mcp_json_destroy(object);
             return NULL;
         }
         free(name);
@@ -238,6 +242,7 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         }
         if (**json != ',') {
             mcp_log_error("JSON parse error: Expected ',' or '}' after object property.");
+            mcp_json_destroy(object);
             return NULL;
         }
         (*json)++;
@@ -268,13 +273,14 @@ static mcp_json_t* parse_array(const char** json, int depth) {
         mcp_json_t* value = parse_value(json, depth + 1);
         if (value == NULL) {
             mcp_log_error("JSON parse error: Failed to parse value in array.");
-            // Don't destroy array, let caller handle via arena
+            mcp_json_destroy(array);
             return NULL;
         }
         // Add item uses realloc for backing store, not arena
         if (mcp_json_array_add_item(array, value) != 0) {
             mcp_log_error("JSON parse error: Failed to add item to array.");
-            // Don't destroy value (it's in arena)
+            mcp_json_destroy(value);
+            mcp_json_destroy(array);
             return NULL;
         }
         skip_whitespace(json);
@@ -284,6 +290,7 @@ static mcp_json_t* parse_array(const char** json, int depth) {
         }
         if (**json != ',') {
             mcp_log_error("JSON parse error: Expected ',' or ']' after array element.");
+            mcp_json_destroy(array);
             return NULL;
         }
         (*json)++;
@@ -385,7 +392,8 @@ mcp_json_t* mcp_json_parse(const char* json) {
     if (*current != '\0') {
         mcp_log_error("JSON parse error: Trailing characters found after valid JSON: '%s'", current);
         // Trailing characters after valid JSON
-        // Don't destroy result (it's in thread-local arena), let caller handle arena.
+        // The node is in the thread-local arena, free what it owns
+        mcp_json_destroy(result);
         return NULL;
     }
     return result;
-- 
2.43.0


From 73328b942d9171edcf1fb342bf89996788a71e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:06 +0000
Subject: [PATCH 013/126] fix: reject JSON numbers with leading zeros

---
 src/json/mcp_json_parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index f29a85e..46f3c30 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -303,6 +303,9 @@ static mcp_json_t* parse_number(const char** json) {
         (*json)++;
     if (**json < '0' || **json > '9')
         return NULL;
+    // No digits may follow a leading zero
+    if (**json == '0' && (*json)[1] >= '0' && (*json)[1] <= '9')
+        return NULL;
     while (**json >= '0' && **json <= '9')
         (*json)++;
     if (**json == '.') {
-- 
2.43.0


From d67e5918d98664f34f6ba989f6536ceaf789b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:06 +0000
Subject: [PATCH 014/126] fix: reject an escaped NUL in a JSON string instead
 of cutting the string off

---
 src/json/mcp_json_parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index 46f3c30..a9804ef 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -136,6 +136,12 @@ static char* parse_string(const char** json) {
                         free(result);
                         return NULL;
                     }
+                    if (utf8_len == 1 && utf8_buf[0] == '\0') {
+                        // Would cut the C string off
+                        mcp_log_error("Escaped null character found in JSON string.");
+                        free(result);
+                        return NULL;
+                    }
 
                     // Copy UTF-8 bytes to result
                     for (int i = 0; i < utf8_len; i++) {
-- 
2.43.0


From 67b5d7004c439b3603b1ebfb05ea0a9f6c88abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:06 +0000
Subject: [PATCH 015/126] fix: decode surrogate pairs in JSON strings to one
 character

---
 src/json/mcp_json_parser.c | 55 +++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index a9804ef..67f7719 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -28,20 +28,41 @@ static void skip_whitespace(const char** json) {
     }
 }
 
-// Helper function to convert a 4-digit hex Unicode escape to UTF-8
-static int hex_to_utf8(const char* hex, char* utf8) {
-    // Convert 4 hex digits to a Unicode code point
-    unsigned int code_point = 0;
+// Helper function to convert 4 hex digits to a UTF-16 code unit, returns false for an invalid digit
+static bool hex_to_code_unit(const char* hex, unsigned int* code_unit) {
+    unsigned int value = 0;
     for (int i = 0; i < 4; i++) {
-        code_point <<= 4;
+        value <<= 4;
         if (hex[i] >= '0' && hex[i] <= '9') {
-            code_point |= hex[i] - '0';
+            value |= hex[i] - '0';
         } else if (hex[i] >= 'a' && hex[i] <= 'f') {
-            code_point |= hex[i] - 'a' + 10;
+            value |= hex[i] - 'a' + 10;
         } else if (hex[i] >= 'A' && hex[i] <= 'F') {
-            code_point |= hex[i] - 'A' + 10;
+            value |= hex[i] - 'A' + 10;
         } else {
-            return 0; // Invalid hex digit
+            return false; // Invalid hex digit
+        }
+    }
+    *code_unit = value;
+    return true;
+}
+
+// Helper function to convert a 4-digit hex Unicode escape to UTF-8
+// A surrogate pair (two escapes) is converted to the character it stands for.
+// *consumed receives the number of input characters used.
+static int hex_to_utf8(const char* hex, char* utf8, size_t* consumed) {
+    // Convert 4 hex digits to a Unicode code point
+    unsigned int code_point = 0;
+    if (!hex_to_code_unit(hex, &code_point)) {
+        return 0; // Invalid hex digit
+    }
+    *consumed = 4;
+
+    if (code_point >= 0xD800 && code_point <= 0xDBFF && hex[4] == '\\' && hex[5] == 'u') {
+        unsigned int low = 0;
+        if (hex_to_code_unit(hex + 6, &low) && low >= 0xDC00 && low <= 0xDFFF) {
+            code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
+            *consumed = 10;
         }
     }
 
@@ -55,12 +76,19 @@ static int hex_to_utf8(const char* hex, char* utf8) {
         utf8[0] = (char)(0xC0 | (code_point >> 6));
         utf8[1] = (char)(0x80 | (code_point & 0x3F));
         return 2;
-    } else {
+    } else if (code_point < 0x10000) {
         // 3-byte UTF-8
         utf8[0] = (char)(0xE0 | (code_point >> 12));
         utf8[1] = (char)(0x80 | ((code_point >> 6) & 0x3F));
         utf8[2] = (char)(0x80 | (code_point & 0x3F));
         return 3;
+    } else {
+        // 4-byte UTF-8
+        utf8[0] = (char)(0xF0 | (code_point >> 18));
+        utf8[1] = (char)(0x80 | ((code_point >> 12) & 0x3F));
+        utf8[2] = (char)(0x80 | ((code_point >> 6) & 0x3F));
+        utf8[3] = (char)(0x80 | (code_point & 0x3F));
+        return 4;
     }
 }
 
@@ -129,8 +157,9 @@ static char* parse_string(const char** json) {
                     }
 
                     // Convert \uXXXX to UTF-8
-                    char utf8_buf[4]; // Max 3 bytes for BMP + null terminator
-                    int utf8_len = hex_to_utf8(p, utf8_buf);
+                    char utf8_buf[4]; // Max 4 bytes per character
+                    size_t consumed = 0;
+                    int utf8_len = hex_to_utf8(p, utf8_buf, &consumed);
                     if (utf8_len == 0) {
                         mcp_log_error("Failed to convert Unicode escape to UTF-8.");
                         free(result);
@@ -148,7 +177,7 @@ static char* parse_string(const char** json) {
                         result[length++] = utf8_buf[i];
                     }
 
-                    p += 4; // Skip the 4 hex digits
+                    p += consumed; // Skip the hex digits (and the second half of a surrogate pair)
                     break;
                 }
                 default:
-- 
2.43.0


From e44a32044b832c6f4e5249c1c1a9b8715e14a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:57 +0000
Subject: [PATCH 016/126] fix: release the parsed tree after reading a JSON-RPC
 message

---
 src/json/mcp_json_message.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index 6419db5..6c88570 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -25,6 +25,8 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     if (json->type != MCP_JSON_OBJECT) {
         // Parsed something, but not an object. Arena contains the invalid node.
         mcp_log_error("MCP message parse error: Root element is not a JSON object.");
+        mcp_json_destroy(json);
+        PROFILE_END("mcp_json_parse_message");
         // Let caller handle arena cleanup.
         return -1;
     }
@@ -145,7 +147,10 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
         message->type = MCP_MESSAGE_TYPE_INVALID;
     }
 
-    // Parsed JSON tree ('json') lives in the thread-local arena.
+    // The message holds copies: free the strings and tables of the parsed tree.
+    mcp_json_destroy(json);
+
+    // The nodes of the parsed JSON tree ('json') live in the thread-local arena.
     // The caller is responsible for calling mcp_arena_reset_current_thread()
     // or mcp_arena_destroy_current_thread() eventually.
     PROFILE_END("mcp_json_parse_message");
@@ -612,7 +617,9 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
         result = MCP_ERROR_INVALID_REQUEST;
     }
 
+    // The messages hold copies: free the strings and tables of the parsed tree.
     // Arena cleanup is handled by the caller
+    mcp_json_destroy(root_json);
     PROFILE_END("mcp_json_parse_batch");
     return result;
 }
-- 
2.43.0


From be4280a5e45df2691548aa98786f92769ac86f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:57 +0000
Subject: [PATCH 017/126] fix: release the tree built to write a JSON-RPC
 message

---
 src/json/mcp_json_message.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index 6c88570..dc6a8d7 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -348,14 +348,17 @@ char* mcp_json_create_request(const char* method, const char* params, uint64_t i
         final_json_string = mcp_json_stringify(request); // Uses malloc
     } else {
         mcp_log_error("Failed to create nodes for JSON-RPC request.");
-        // Nodes are in arena, no need to destroy individually here.
-        // Destroy the partially built request object in the arena if creation failed
+        // These were not attached to the request object
         // Note: mcp_json_destroy handles NULL safely
-        mcp_json_destroy(request); // This will free associated arena nodes if needed by impl
+        mcp_json_destroy(jsonrpc);
+        mcp_json_destroy(method_node);
+        mcp_json_destroy(id_node);
+        mcp_json_destroy(params_node);
     }
 
-    // The 'request' object and its direct children (jsonrpc, method_node, id_node, params_node if parsed)
+    // Free the strings and tables of the request object and its children. The nodes themselves
     // were allocated in the thread-local arena. They will be cleaned up later by the arena reset/destroy.
+    mcp_json_destroy(request);
     PROFILE_END("mcp_json_create_request");
     return final_json_string; // Return malloc'd string or NULL
 }
@@ -392,8 +395,12 @@ char* mcp_json_create_response(uint64_t id, const char* result) {
         final_json_string = mcp_json_stringify(response); // Uses malloc
     } else {
         mcp_log_error("Failed to create nodes for JSON-RPC response.");
-        mcp_json_destroy(response); // Clean up arena nodes if creation failed
+        // These were not attached to the response object
+        mcp_json_destroy(jsonrpc);
+        mcp_json_destroy(id_node);
+        mcp_json_destroy(result_node);
     }
+    mcp_json_destroy(response); // Free strings and tables; the nodes stay in the arena
 
     PROFILE_END("mcp_json_create_response");
     return final_json_string;
@@ -663,8 +670,14 @@ char* mcp_json_create_error_response(uint64_t id, int error_code, const char* er
         final_json_string = mcp_json_stringify(response); // Uses malloc
     } else {
         mcp_log_error("Failed to create nodes for JSON-RPC error response.");
-        mcp_json_destroy(response); // Clean up arena nodes if creation failed
+        // These were not attached to the response object
+        mcp_json_destroy(jsonrpc);
+        mcp_json_destroy(id_node);
+        mcp_json_destroy(error_obj);
+        mcp_json_destroy(code_node);
+        mcp_json_destroy(msg_node);
     }
+    mcp_json_destroy(response); // Free strings and tables; the nodes stay in the arena
 
     PROFILE_END("mcp_json_create_error_response");
     return final_json_string;
-- 
2.43.0


From 27a5ee2e149d047abc9e68f4d92ebecd99b3a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:07 +0000
Subject: [PATCH 018/126] fix: reject JSON-RPC identifiers and error codes that
 are not representable integers

---
 src/json/mcp_json_message.c | 32 ++++++++++++++++++++++++--------
 src/json/mcp_json_rpc.c     |  2 +-
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index dc6a8d7..81ddde2 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -2,9 +2,25 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
+#include <limits.h>
+#include <stdbool.h>
 #include "mcp_string_utils.h"
 #include <inttypes.h>
 
+// Identifiers are unsigned integers: anything else cannot be echoed back and is invalid.
+static bool is_valid_message_id(const mcp_json_t* id) {
+    return id->type == MCP_JSON_NUMBER && id->number_value >= 0.0 &&
+           id->number_value < 18446744073709551616.0 &&
+           (double)(uint64_t)id->number_value == id->number_value;
+}
+
+// Error codes are integers.
+static bool is_valid_error_code(const mcp_json_t* code) {
+    return code->type == MCP_JSON_NUMBER && code->number_value >= (double)INT_MIN &&
+           code->number_value <= (double)INT_MAX &&
+           (double)(int)code->number_value == code->number_value;
+}
+
 // --- MCP Message Parsing/Stringification ---
 // These functions now use the thread-local arena implicitly for parsing/creating
 // the main JSON structure, but still use malloc/mcp_strdup for strings within
@@ -44,11 +60,11 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     if (method != NULL && method->type == MCP_JSON_STRING) {
         if (id != NULL) { // Must have ID for request
             // Check ID type (integer or string allowed by spec, but we use uint64_t)
-            if (id->type == MCP_JSON_NUMBER) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No, use number for now.
+            if (is_valid_message_id(id)) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No, use number for now.
                 // Check params type (object or array allowed, or omitted)
                 if (params == NULL || params->type == MCP_JSON_OBJECT || params->type == MCP_JSON_ARRAY) {
                     message->type = MCP_MESSAGE_TYPE_REQUEST;
-                    message->request.id = (uint64_t)id->number_value; // TODO: Handle potential precision loss or non-integer?
+                    message->request.id = (uint64_t)id->number_value;
                     message->request.method = mcp_strdup(method->string_value); // Use helper
                     message->request.params = (params != NULL) ? mcp_json_stringify(params) : NULL; // Stringify uses malloc
 
@@ -85,9 +101,9 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     // --- Response Check ---
     } else if (id != NULL && (result != NULL || error != NULL)) { // Response
         // Check ID type
-        if (id->type == MCP_JSON_NUMBER) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No.
+        if (is_valid_message_id(id)) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No.
             message->type = MCP_MESSAGE_TYPE_RESPONSE;
-            message->response.id = (uint64_t)id->number_value; // TODO: Handle potential precision loss?
+            message->response.id = (uint64_t)id->number_value;
 
             if (error != NULL && error->type == MCP_JSON_OBJECT) { // Error Response
                 if (result != NULL) {
@@ -97,7 +113,7 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
                     mcp_json_t* code = mcp_json_object_get_property(error, "code");
                     mcp_json_t* msg = mcp_json_object_get_property(error, "message");
                     // Code MUST be an integer
-                    if (code != NULL && code->type == MCP_JSON_NUMBER) { // TODO: Check if integer?
+                    if (code != NULL && is_valid_error_code(code)) {
                         // Message MUST be a string
                         if (msg != NULL && msg->type == MCP_JSON_STRING) {
                             message->response.error_code = (mcp_error_code_t)(int)code->number_value;
@@ -428,7 +444,7 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
     // --- Request Check ---
     if (method != NULL && method->type == MCP_JSON_STRING) {
         if (id != NULL) { // Request
-            if (id->type == MCP_JSON_NUMBER) {
+            if (is_valid_message_id(id)) {
                 if (params == NULL || params->type == MCP_JSON_OBJECT || params->type == MCP_JSON_ARRAY) {
                     message->type = MCP_MESSAGE_TYPE_REQUEST;
                     message->request.id = (uint64_t)id->number_value;
@@ -457,7 +473,7 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
         }
     // --- Response Check ---
     } else if (id != NULL && (result != NULL || error != NULL)) { // Response
-        if (id->type == MCP_JSON_NUMBER) {
+        if (is_valid_message_id(id)) {
             message->type = MCP_MESSAGE_TYPE_RESPONSE;
             message->response.id = (uint64_t)id->number_value;
             if (error != NULL && error->type == MCP_JSON_OBJECT) { // Error Response
@@ -466,7 +482,7 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
                 else {
                     mcp_json_t* code = mcp_json_object_get_property(error, "code");
                     mcp_json_t* msg = mcp_json_object_get_property(error, "message");
-                    if (code != NULL && code->type == MCP_JSON_NUMBER && msg != NULL && msg->type == MCP_JSON_STRING) {
+                    if (code != NULL && is_valid_error_code(code) && msg != NULL && msg->type == MCP_JSON_STRING) {
                         message->response.error_code = (mcp_error_code_t)(int)code->number_value;
                         message->response.error_message = mcp_strdup(msg->string_value);
                         message->response.result = NULL;
diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index 621d257..bf0e34b 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -320,7 +320,7 @@ int mcp_json_parse_response(
     // Get id
     double id_value;
     if (get_number_property(json, "id", &id_value) != 0 ||
-        id_value < 0 || id_value != floor(id_value) || id_value > (double)UINT64_MAX) {
+        id_value < 0 || id_value != floor(id_value) || id_value >= (double)UINT64_MAX) {
         mcp_json_destroy(json);
         return -1;
     }
-- 
2.43.0


From f7e71bdc7bb1839bcbca9db7ca0126bded44252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:07 +0000
Subject: [PATCH 019/126] fix: count the invalid elements of a batch so that
 the later ones are seen

---
 src/json/mcp_json_message.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index 81ddde2..cf8a88d 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -603,7 +603,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
                     (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
                 }
 
-                *count = 0; // Track successfully parsed messages
+                *count = batch_size; // One message per element, invalid ones included
 
                 // Process batch items in parallel chunks for better performance on large batches
                 const size_t CHUNK_SIZE = 16; // Process this many items at once
@@ -618,9 +618,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
 
                         if (item_json != NULL && item_json->type == MCP_JSON_OBJECT) {
                             // Parse the individual message object
-                            if (parse_single_message_from_json(item_json, &(*messages)[i]) == 0) {
-                                (*count)++; // Increment count only if parsing succeeded
-                            } else {
+                            if (parse_single_message_from_json(item_json, &(*messages)[i]) != 0) {
                                 // Parsing failed, ensure contents are released
                                 mcp_message_release_contents(&(*messages)[i]);
                                 (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
-- 
2.43.0


From 914f774912c3853c60106824dc16ce68623a55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:22 +0000
Subject: [PATCH 020/126] fix: escape all control characters when appending a
 JSON string

---
 src/common/mcp_string_utils.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/common/mcp_string_utils.c b/src/common/mcp_string_utils.c
index d94addb..8aa94a6 100644
--- a/src/common/mcp_string_utils.c
+++ b/src/common/mcp_string_utils.c
@@ -171,8 +171,8 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
                 additional_len += 2;
                 break;
             default:
-                // Normal character
-                additional_len += 1;
+                // Other control characters need \uXXXX, the rest stay as they are
+                additional_len += ((unsigned char)c < 0x20) ? 6 : 1;
                 break;
         }
     }
@@ -197,7 +197,17 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
             case '\n': *dest++ = '\\'; *dest++ = 'n'; break;
             case '\r': *dest++ = '\\'; *dest++ = 'r'; break;
             case '\t': *dest++ = '\\'; *dest++ = 't'; break;
-            default:   *dest++ = c; break;
+            default:
+                if ((unsigned char)c < 0x20) {
+                    static const char hex[] = "0123456789abcdef";
+                    memcpy(dest, "\\u00", 4);
+                    dest[4] = hex[(unsigned char)c >> 4];
+                    dest[5] = hex[(unsigned char)c & 0x0F];
+                    dest += 6;
+                } else {
+                    *dest++ = c;
+                }
+                break;
         }
     }
 
-- 
2.43.0


From 66a807ab4c0b39d1e71f3a67a2df6ca6626acd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:22 +0000
Subject: [PATCH 021/126] fix: size the buffer for every identifier and escape
 the method in direct request formatting

---
 src/json/mcp_json_rpc.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index bf0e34b..aa1e1ed 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -6,6 +6,7 @@
 #include <inttypes.h>
 #include "mcp_json.h"
 #include "mcp_json_rpc.h"
+#include "mcp_json_utils.h"
 #include "mcp_profiler.h"
 #include "mcp_log.h"
 #include "mcp_types.h"
@@ -182,12 +183,21 @@ char* mcp_json_format_request_direct(uint64_t id, const char* method, const char
     }
 
     // Calculate the required buffer size more accurately to avoid reallocations
-    size_t method_len = strlen(method);
+    int method_size = mcp_json_escape_string(method, NULL, 0); // Includes the null terminator
     size_t params_len = (params != NULL) ? strlen(params) : 0;
+    if (method_size < 0) {
+        return NULL;
+    }
+
+    char* escaped_method = (char*)malloc((size_t)method_size);
+    if (!escaped_method) {
+        return NULL;
+    }
+    mcp_json_escape_string(method, escaped_method, (size_t)method_size);
 
     // Base size: {"jsonrpc":"2.0","id":ID,"method":"METHOD"} + null terminator
-    // 32 bytes for the fixed parts + method length + 2 for quotes around method
-    size_t buffer_size = 32 + method_len + 2;
+    // 64 bytes for the fixed parts and the digits of the id + escaped method length
+    size_t buffer_size = 64 + (size_t)method_size;
 
     // Add space for params if provided: ,"params":PARAMS
     // 11 bytes for ,"params": + params length
@@ -201,13 +211,15 @@ char* mcp_json_format_request_direct(uint64_t id, const char* method, const char
     // Allocate the buffer with the calculated size
     char* buffer = (char*)malloc(buffer_size);
     if (!buffer) {
+        free(escaped_method);
         return NULL;
     }
 
     // Format the basic request structure
     int written = snprintf(buffer, buffer_size,
         "{\"jsonrpc\":\"2.0\",\"id\":%" PRIu64 ",\"method\":\"%s\"",
-        id, method);
+        id, escaped_method);
+    free(escaped_method);
 
     if (written < 0 || (size_t)written >= buffer_size) {
         // Buffer too small or error
-- 
2.43.0


From 71814118ac4f143c5223107ee396dba94a166bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:58 +0000
Subject: [PATCH 022/126] fix: write numbers that JSON cannot express as null

---
 src/json/mcp_json_stringifier.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/json/mcp_json_stringifier.c b/src/json/mcp_json_stringifier.c
index 2e1ad03..102f918 100644
--- a/src/json/mcp_json_stringifier.c
+++ b/src/json/mcp_json_stringifier.c
@@ -5,6 +5,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdbool.h>
+#include <math.h>
 
 // Stringification uses malloc/realloc for the output buffer, not arena.
 // Forward declaration for estimating JSON size
@@ -182,6 +183,8 @@ int stringify_value(const mcp_json_t* json, char** output, size_t* output_size,
         case MCP_JSON_BOOLEAN: return append_string(output, output_size, output_capacity, json->boolean_value ? "true" : "false");
         case MCP_JSON_NUMBER: {
             char buffer[32];
+            // JSON has no notation for NaN and infinities
+            if (!isfinite(json->number_value)) return append_string(output, output_size, output_capacity, "null");
             // Use snprintf for robust number formatting, ensuring locale independence if possible
             // %.17g is generally good for preserving double precision
             int len = snprintf(buffer, sizeof(buffer), "%.17g", json->number_value);
-- 
2.43.0


From f749bf2ca6c09a29225105c10e733c63e74395d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:44 +0000
Subject: [PATCH 023/126] fix: do not keep pool objects in thread-local caches
 that outlive the pool

---
 src/common/mcp_object_pool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_object_pool.c b/src/common/mcp_object_pool.c
index b4f6cc2..b7b4ced 100644
--- a/src/common/mcp_object_pool.c
+++ b/src/common/mcp_object_pool.c
@@ -22,7 +22,9 @@
 
 // Thread-local cache configuration
 #define TLS_CACHE_SIZE 8  // Number of objects to cache per thread
-#define TLS_CACHE_ENABLED 1  // Set to 0 to disable thread-local caching
+// Disabled: a thread's cache outlives pools destroyed by other threads, and hides
+// free objects from other threads when the pool has a maximum capacity
+#define TLS_CACHE_ENABLED 0  // Set to 1 to enable thread-local caching
 
 // Internal structure for a node in the free list - cache aligned
 typedef MCP_CACHE_ALIGNED struct mcp_pool_node_s {
-- 
2.43.0


From 5b2eb6c7d00dfee74104d3a43d9f92e372b5c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:44 +0000
Subject: [PATCH 024/126] fix: check the maximum capacity of an object pool
 under its lock

---
 src/common/mcp_object_pool.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/mcp_object_pool.c b/src/common/mcp_object_pool.c
index b7b4ced..97fce20 100644
--- a/src/common/mcp_object_pool.c
+++ b/src/common/mcp_object_pool.c
@@ -342,10 +342,11 @@ void* mcp_object_pool_acquire(mcp_object_pool_t* pool) {
     }
 
     // Free list is empty, try to allocate a new one if allowed
-    mcp_mutex_unlock(pool->lock);
-
     // Allocate a new object - statistics updated inside allocate_new_object
-    return allocate_new_object(pool);
+    // (still locked, so that concurrent callers cannot exceed the max capacity)
+    obj = allocate_new_object(pool);
+    mcp_mutex_unlock(pool->lock);
+    return obj;
 }
 
 bool mcp_object_pool_release(mcp_object_pool_t* pool, void* obj) {
-- 
2.43.0


From 6952bb49dc258a696a903182a75029243c19d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:32 +0000
Subject: [PATCH 025/126] fix: free individually allocated objects when an
 object pool with an initial block is destroyed

---
 src/common/mcp_object_pool.c | 55 +++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/common/mcp_object_pool.c b/src/common/mcp_object_pool.c
index 97fce20..851f43a 100644
--- a/src/common/mcp_object_pool.c
+++ b/src/common/mcp_object_pool.c
@@ -56,6 +56,7 @@ typedef struct mcp_object_pool_s {
     mcp_pool_node_t* free_list_head;   // Head of the linked list of free objects
     mcp_mutex_t* lock;                 // Mutex for thread safety
     void* memory_block;                // Pointer to the initially allocated contiguous block (if any)
+    size_t block_objects;              // Number of objects in the contiguous block
 
     // Statistics - updated atomically when possible
     size_t peak_usage;                 // Peak number of objects in use
@@ -63,7 +64,7 @@ typedef struct mcp_object_pool_s {
 
     // Padding to ensure the structure occupies a full cache line
     char padding[MCP_CACHE_LINE_SIZE -
-                ((2 * sizeof(size_t) + 6 * sizeof(size_t) +
+                ((2 * sizeof(size_t) + 7 * sizeof(size_t) +
                   sizeof(mcp_pool_node_t*) + sizeof(mcp_mutex_t*) +
                   sizeof(void*)) % MCP_CACHE_LINE_SIZE)];
 } MCP_CACHE_ALIGNED mcp_object_pool_t;
@@ -164,6 +165,7 @@ mcp_object_pool_t* mcp_object_pool_create(size_t object_size, size_t initial_cap
         // Use aligned allocation for better memory access
         pool->memory_block = aligned_malloc(initial_capacity * pool->aligned_size);
         if (pool->memory_block) {
+            pool->block_objects = initial_capacity;
             pool->total_objects = initial_capacity;
             pool->free_objects = initial_capacity;
             char* current_obj_ptr = (char*)pool->memory_block;
@@ -250,34 +252,35 @@ void mcp_object_pool_destroy(mcp_object_pool_t* pool) {
 
     mcp_mutex_lock(pool->lock);
 
-    // If objects were allocated in a single block, just free the block
+    // Free the objects that were allocated individually (only those currently in the free list)
+    // Note: This assumes acquired objects are managed/freed elsewhere or released before destroy.
+    // A more robust implementation might track all allocated objects.
+    char* block_start = (char*)pool->memory_block;
+    char* block_end = block_start ? block_start + pool->block_objects * pool->aligned_size : NULL;
+    mcp_pool_node_t* current = pool->free_list_head;
+    mcp_pool_node_t* next;
+    size_t freed_count = 0;
+
+    while (current) {
+        next = current->next;
+        if (!block_start || (char*)current < block_start || (char*)current >= block_end) {
+            aligned_free(current);
+        }
+        freed_count++;
+        current = next;
+    }
+
+    if (freed_count != pool->free_objects && pool->free_objects > 0) {
+        mcp_log_warn("Mismatch freeing objects: freed %zu, expected %zu (acquired objects not freed)",
+                    freed_count, pool->free_objects);
+    }
+    // Ideally, we should also free objects that were acquired but not released.
+    // This simple version doesn't track acquired objects separately from the initial block.
+
+    // The objects allocated in a single block are freed with the block
     if (pool->memory_block) {
         aligned_free(pool->memory_block);
         pool->memory_block = NULL;
-    } else {
-        // Otherwise, need to free individually (only those currently in the free list)
-        // Note: This assumes acquired objects are managed/freed elsewhere or released before destroy.
-        // A more robust implementation might track all allocated objects.
-        mcp_pool_node_t* current = pool->free_list_head;
-        mcp_pool_node_t* next;
-        size_t freed_count = 0;
-
-        while (current) {
-            next = current->next;
-            // Add NULL check before freeing
-            if (current != NULL) {
-                aligned_free(current);
-                freed_count++;
-            }
-            current = next;
-        }
-
-        if (freed_count != pool->free_objects && pool->free_objects > 0) {
-            mcp_log_warn("Mismatch freeing objects: freed %zu, expected %zu (acquired objects not freed)",
-                        freed_count, pool->free_objects);
-        }
-        // Ideally, we should also free objects that were acquired but not released.
-        // This simple version doesn't track acquired objects separately from the initial block.
     }
 
     pool->free_list_head = NULL;
-- 
2.43.0


From e3a5ca750d243ba7500086d3719fd9c539dae8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:01 +0000
Subject: [PATCH 026/126] fix: release the content of cache entries that are
 evicted, expired or replaced

---
 src/server/mcp_cache.c | 44 +++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 6ae64a8..4bf037b 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -153,6 +153,20 @@ static void cleanup_cache_entry_content(mcp_resource_cache_t* cache, mcp_cache_e
     }
 }
 
+// Helper function to remove an entry from the LRU list and the hash table together with its content
+static int remove_entry_from_cache(mcp_resource_cache_t* cache, const char* uri, mcp_cache_entry_t* entry) {
+    // Remove from LRU list first
+    if (entry->lru_node) {
+        mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
+    }
+
+    // Clean up the entry's content items
+    cleanup_cache_entry_content(cache, entry);
+
+    // mcp_hashtable_remove calls the value free function (free_cache_entry)
+    return mcp_hashtable_remove(cache->table, uri);
+}
+
 // Helper function to clean up all entries in the cache
 static void cleanup_all_cache_entries(mcp_resource_cache_t* cache) {
     if (!cache || !cache->table)
@@ -287,11 +301,8 @@ static bool evict_lru_entry(mcp_resource_cache_t* cache) {
 
     mcp_log_debug("Evicting LRU cache entry with key '%s'", key_to_evict);
 
-    // Remove the entry from the LRU list
-    mcp_list_remove(cache->lru_list, lru_node, NULL);
-
-    // Remove the entry from the hash table
-    return mcp_hashtable_remove(cache->table, key_to_evict) == 0;
+    // Remove the entry and its content
+    return remove_entry_from_cache(cache, key_to_evict, entry) == 0;
 }
 
 int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_t* pool, mcp_content_item_t*** content, size_t* content_count) {
@@ -345,11 +356,7 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         // Double-check that the entry is still in the cache and still expired
         if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
             if (entry->expiry_time != 0 && now >= entry->expiry_time) {
-                // Remove from LRU list first
-                if (entry->lru_node) {
-                    mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
-                }
-                mcp_hashtable_remove(cache->table, uri);
+                remove_entry_from_cache(cache, uri, entry);
             }
         }
 
@@ -411,11 +418,7 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
             // Double-check again that the entry is still in the cache and still expired
             if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
                 if (entry->expiry_time != 0 && now >= entry->expiry_time) {
-                    // Remove from LRU list first
-                    if (entry->lru_node) {
-                        mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
-                    }
-                    mcp_hashtable_remove(cache->table, uri);
+                    remove_entry_from_cache(cache, uri, entry);
                 }
             }
 
@@ -491,10 +494,7 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
             result = 0;
         } else {
             // Entry expired between our checks, remove it
-            if (entry->lru_node) {
-                mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
-            }
-            mcp_hashtable_remove(cache->table, uri);
+            remove_entry_from_cache(cache, uri, entry);
 
             // Release acquired items back to pool
             for (size_t i = 0; i < copied_count; ++i) {
@@ -623,9 +623,9 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     }
     // --- End LRU Eviction Logic ---
 
-    // If the key exists, we need to remove the old entry from the LRU list
-    if (key_exists && existing_entry && existing_entry->lru_node) {
-        mcp_list_remove(cache->lru_list, existing_entry->lru_node, NULL);
+    // If the key exists, we need to remove the old entry and its content
+    if (key_exists) {
+        remove_entry_from_cache(cache, uri, existing_entry);
     }
 
     // Add entry to LRU list and hash table
-- 
2.43.0


From bc2f2fb571cff606b09df6de45f648a8609c2328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:01 +0000
Subject: [PATCH 027/126] fix: release the items of a failed cache store once

---
 src/server/mcp_cache.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 4bf037b..045c781 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -581,13 +581,7 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         );
         if (!entry->content[i]) {
             copy_error = true;
-            // Release already acquired/copied items back to pool
-            for(size_t j = 0; j < i; ++j) {
-                if (entry->content[j]) {
-                    cleanup_content_item(cache, entry->content[j]);
-                }
-            }
-            // Exit loop on acquisition/copy failure
+            // Exit loop on acquisition/copy failure, the items copied so far are released below
             break;
         }
         // Increment count only after successful copy
-- 
2.43.0


From 5bebe31740fd4f61b2839fa92f10321150cfb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:01 +0000
Subject: [PATCH 028/126] fix: take an entry that could not be stored off the
 recency list

---
 src/server/mcp_cache.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 045c781..023afa4 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -277,7 +277,13 @@ static int add_entry_to_cache(mcp_resource_cache_t* cache, const char* uri, mcp_
 
     // Add entry to hash table (this will replace any existing entry with the same key)
     // mcp_hashtable_put takes ownership of the 'entry' pointer if successful
-    return mcp_hashtable_put(cache->table, uri, entry);
+    int result = mcp_hashtable_put(cache->table, uri, entry);
+    if (result != 0) {
+        // The entry is about to be freed by the caller
+        mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
+        entry->lru_node = NULL;
+    }
+    return result;
 }
 
 // Helper function to evict the least recently used entry
-- 
2.43.0


From a7f526131e5f00b487cdeb0d5912aa4ef580bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:01 +0000
Subject: [PATCH 029/126] fix: use the reallocated arrays when pruning the
 cache runs out of memory

---
 src/server/mcp_cache.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 023afa4..a4fb126 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -807,16 +807,15 @@ size_t mcp_cache_prune_expired(mcp_resource_cache_t* cache) {
     // Iterate through all entries to find expired ones
     mcp_hashtable_foreach(cache->table, collect_expired_keys, &callback_data);
 
-    // If memory allocation failed during callback, clean up and return
-    if (error) {
-        mcp_log_error("Memory allocation failed during cache pruning");
-        goto cleanup;
-    }
-
     // Update keys_to_remove pointer in case realloc changed it
     keys_to_remove = callback_data.keys_to_remove;
     entries_to_cleanup = callback_data.entries_to_cleanup;
 
+    // If memory allocation failed during callback, remove the entries collected so far
+    if (error) {
+        mcp_log_error("Memory allocation failed during cache pruning");
+    }
+
     // Clean up and remove all collected expired entries
     for (size_t i = 0; i < keys_count; i++) {
         if (keys_to_remove[i] && entries_to_cleanup[i]) {
-- 
2.43.0


From c1ee49eb6fd984af9f7a56b8af490ad9c0453e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:01 +0000
Subject: [PATCH 030/126] fix: copy cached content while the cache is locked

---
 src/server/mcp_cache.c | 139 +++++++++++------------------------------
 1 file changed, 37 insertions(+), 102 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index a4fb126..af09da1 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -323,9 +323,10 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     int result = -1; // Default to not found/expired
     PROFILE_START("mcp_cache_get");
 
-    // Local variables to store entry information outside the lock
     mcp_content_item_t** content_copy_ptrs = NULL;
-    size_t entry_content_count = 0;
+    size_t actual_content_count = 0;
+    size_t copied_count = 0;
+    bool copy_error = false;
     bool is_expired = false;
     mcp_cache_entry_t* entry = NULL;
     time_t now = time(NULL);
@@ -337,8 +338,40 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
         // Check expiration (0 means never expires)
         if (entry->expiry_time == 0 || now < entry->expiry_time) {
-            // Cache hit and valid! Store information for later use
-            entry_content_count = entry->content_count;
+            // Cache hit and valid! Copy the content while the lock keeps the entry alive
+            actual_content_count = entry->content_count;
+            content_copy_ptrs = (mcp_content_item_t**)malloc(actual_content_count * sizeof(mcp_content_item_t*));
+            if (!content_copy_ptrs) {
+                // Memory allocation failed
+                copy_error = true;
+            }
+
+            // Copy content items
+            for (size_t i = 0; !copy_error && i < actual_content_count; ++i) {
+                // Validate content item before copying
+                if (!entry->content[i]) {
+                    mcp_log_error("NULL content item at index %zu in cache entry", i);
+                    copy_error = true;
+                    break;
+                }
+
+                // Validate mime_type before passing to acquire_pooled
+                const char* mime_type = entry->content[i]->mime_type ? entry->content[i]->mime_type : "";
+
+                // Acquire a pooled item and copy data into it
+                content_copy_ptrs[i] = mcp_content_item_acquire_pooled(
+                    pool,
+                    entry->content[i]->type,
+                    mime_type,
+                    entry->content[i]->data,
+                    entry->content[i]->data_size
+                );
+                if (!content_copy_ptrs[i]) {
+                    copy_error = true;
+                    break; // Exit loop on acquisition/copy failure
+                }
+                copied_count++;
+            }
         } else {
             // Entry is expired
             is_expired = true;
@@ -371,104 +404,6 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         return -1;
     }
 
-    // Entry is valid, allocate memory for content copies
-    content_copy_ptrs = (mcp_content_item_t**)malloc(entry_content_count * sizeof(mcp_content_item_t*));
-    if (!content_copy_ptrs) {
-        // Memory allocation failed
-        PROFILE_END("mcp_cache_get");
-        return -1;
-    }
-
-    // We need to make a copy of the entry's content for processing outside the lock
-    mcp_content_item_t** entry_content_copies = NULL;
-    size_t actual_content_count = 0;
-
-    // Acquire read lock to copy entry content information
-    mcp_rwlock_read_lock(cache->rwlock);
-
-    // Double-check that the entry is still in the cache and still valid
-    if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-        // Check expiration again (0 means never expires)
-        if (entry->expiry_time == 0 || now < entry->expiry_time) {
-            // Make a temporary copy of the content pointers and count
-            actual_content_count = entry->content_count;
-            entry_content_copies = (mcp_content_item_t**)malloc(actual_content_count * sizeof(mcp_content_item_t*));
-
-            if (entry_content_copies) {
-                // Copy the content pointers
-                for (size_t i = 0; i < actual_content_count; ++i) {
-                    entry_content_copies[i] = entry->content[i];
-                }
-            }
-        } else {
-            // Entry expired between our checks
-            is_expired = true;
-        }
-    } else {
-        // Entry was removed between our checks
-        entry = NULL;
-    }
-
-    // Release read lock
-    mcp_rwlock_read_unlock(cache->rwlock);
-
-    // If entry was removed or expired, clean up and return
-    if (!entry || is_expired || !entry_content_copies) {
-        free(content_copy_ptrs);
-        free(entry_content_copies);
-
-        // If entry expired, remove it
-        if (entry && is_expired) {
-            mcp_rwlock_write_lock(cache->rwlock);
-
-            // Double-check again that the entry is still in the cache and still expired
-            if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-                if (entry->expiry_time != 0 && now >= entry->expiry_time) {
-                    remove_entry_from_cache(cache, uri, entry);
-                }
-            }
-
-            mcp_rwlock_write_unlock(cache->rwlock);
-        }
-
-        PROFILE_END("mcp_cache_get");
-        return -1;
-    }
-
-    // Now process the content outside the lock
-    size_t copied_count = 0;
-    bool copy_error = false;
-
-    // Copy content items
-    for (size_t i = 0; i < actual_content_count; ++i) {
-        // Validate content item before copying
-        if (!entry_content_copies[i]) {
-            mcp_log_error("NULL content item at index %zu in cache entry", i);
-            copy_error = true;
-            break;
-        }
-
-        // Validate mime_type before passing to acquire_pooled
-        const char* mime_type = entry_content_copies[i]->mime_type ? entry_content_copies[i]->mime_type : "";
-
-        // Acquire a pooled item and copy data into it
-        content_copy_ptrs[i] = mcp_content_item_acquire_pooled(
-            pool,
-            entry_content_copies[i]->type,
-            mime_type,
-            entry_content_copies[i]->data,
-            entry_content_copies[i]->data_size
-        );
-        if (!content_copy_ptrs[i]) {
-            copy_error = true;
-            break; // Exit loop on acquisition/copy failure
-        }
-        copied_count++;
-    }
-
-    // Free the temporary copy of content pointers
-    free(entry_content_copies);
-
     if (copy_error) {
         // Release partially acquired/copied items back to pool on error
         for (size_t i = 0; i < copied_count; ++i) {
-- 
2.43.0


From d0805530ee13422283f83349bc529c388746f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:45 +0000
Subject: [PATCH 031/126] fix: keep cache entries without expiry when the
 default time to live is 0

---
 src/server/mcp_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index af09da1..8a63bc5 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -232,7 +232,7 @@ static mcp_cache_entry_t* create_cache_entry(const char* uri, time_t ttl_seconds
     entry->last_accessed = time(NULL);
     time_t effective_ttl = (ttl_seconds == 0) ? cache->default_ttl_seconds : (time_t)ttl_seconds;
     // 0 means never expires
-    entry->expiry_time = (effective_ttl < 0) ? 0 : entry->last_accessed + effective_ttl;
+    entry->expiry_time = (effective_ttl <= 0) ? 0 : entry->last_accessed + effective_ttl;
     // Mark as pooled since we're using the pool
     entry->is_pooled = true;
     // Will be set after adding to LRU list
-- 
2.43.0


From bf98890238e14575d15d5d8e3191737db9d17d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:29 +0000
Subject: [PATCH 032/126] fix: free grown blocks when a memory pool is
 destroyed

A pool that had preallocated blocks released only that allocation. Blocks
added later were leaked.
---
 src/common/mcp_memory_pool.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_memory_pool.c b/src/common/mcp_memory_pool.c
index cbc9af5..39ec2a4 100644
--- a/src/common/mcp_memory_pool.c
+++ b/src/common/mcp_memory_pool.c
@@ -149,18 +149,19 @@ void mcp_memory_pool_destroy(mcp_memory_pool_t* pool) {
 
     mcp_mutex_lock(pool->lock);
 
-    // If we allocated a contiguous memory block, free it
-    if (pool->memory_block) {
-        free(pool->memory_block);
-    } else {
-        // Otherwise, free each block individually
-        mcp_block_header_t* current = pool->free_list;
-        while (current) {
-            mcp_block_header_t* next = current->next;
+    // The initial blocks live in one contiguous allocation that is freed
+    // together; blocks added since were allocated individually
+    char* first = (char*)pool->memory_block;
+    char* last = first ? first + pool->initial_blocks * pool->block_size : NULL;
+    mcp_block_header_t* current = pool->free_list;
+    while (current) {
+        mcp_block_header_t* next = current->next;
+        if ((char*)current < first || (char*)current >= last) {
             free(current);
-            current = next;
         }
+        current = next;
     }
+    free(pool->memory_block);
 
     mcp_mutex_unlock(pool->lock);
     mcp_mutex_destroy(pool->lock);
-- 
2.43.0


From 7e77a6d14895c0ea19fd57e3c76a7c72daea1be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:29 +0000
Subject: [PATCH 033/126] fix: keep memory pool blocks aligned for odd block
 sizes

The preallocated blocks follow each other directly. With a block size that
is not a multiple of the pointer size every block but the first was
misaligned.
---
 src/common/mcp_memory_pool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_memory_pool.c b/src/common/mcp_memory_pool.c
index 39ec2a4..b059232 100644
--- a/src/common/mcp_memory_pool.c
+++ b/src/common/mcp_memory_pool.c
@@ -65,7 +65,8 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
     }
 
     // Initialize pool properties
-    pool->block_size = block_size + sizeof(mcp_block_header_t);
+    // Round up so that every block of the contiguous allocation stays aligned
+    pool->block_size = (block_size + sizeof(mcp_block_header_t) + sizeof(void*) - 1) & ~(sizeof(void*) - 1);
     pool->user_block_size = block_size;
     pool->initial_blocks = initial_blocks;
     pool->max_blocks = max_blocks;
-- 
2.43.0


From ebe60d50b97d14f52d5a9733e157255c8ce8ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:12 +0000
Subject: [PATCH 034/126] fix: let mcp_pool_free recognise blocks it handed out
 itself

Requests larger than the largest pool were served by plain malloc. Releasing
them read memory in front of the block to look for a header. When the
preceding bytes happened to hold the magic value, the block was pushed onto a
bogus pool. These blocks now carry a header of their own.
---
 include/mcp_memory_pool.h    | 11 +++++++++++
 src/common/mcp_memory_pool.c | 34 ++++++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/include/mcp_memory_pool.h b/include/mcp_memory_pool.h
index 3351cef..bf817b8 100644
--- a/include/mcp_memory_pool.h
+++ b/include/mcp_memory_pool.h
@@ -116,6 +116,17 @@ bool mcp_memory_pool_system_is_initialized(void);
  */
 void* mcp_pool_alloc(size_t size);
 
+/**
+ * @brief Allocates memory outside the pools that may be released with mcp_pool_free
+ *
+ * The block carries the same header as pooled blocks, so mcp_pool_free and
+ * mcp_pool_get_block_size can tell where it came from.
+ *
+ * @param size Size of memory to allocate (in bytes)
+ * @return Pointer to the allocated memory, or NULL if allocation failed
+ */
+void* mcp_pool_alloc_unpooled(size_t size);
+
 /**
  * @brief Frees memory allocated from a global pool
  *
diff --git a/src/common/mcp_memory_pool.c b/src/common/mcp_memory_pool.c
index b059232..dab81fe 100644
--- a/src/common/mcp_memory_pool.c
+++ b/src/common/mcp_memory_pool.c
@@ -13,8 +13,11 @@
 // Structure to track memory block metadata
 typedef struct mcp_block_header {
     uint32_t magic;              // Magic value to identify pool blocks
-    mcp_memory_pool_t* pool;     // Pointer back to the owning pool
-    struct mcp_block_header* next; // Next block in free list
+    mcp_memory_pool_t* pool;     // Pointer back to the owning pool (NULL if not from a pool)
+    union {
+        struct mcp_block_header* next; // Next block in free list
+        size_t unpooled_size;          // User size of a block that is not from a pool
+    };
 } mcp_block_header_t;
 
 // Memory pool implementation
@@ -266,7 +269,7 @@ void* mcp_pool_alloc(size_t size) {
     if (!g_pools_initialized) {
         if (!mcp_memory_pool_system_init(64, 32, 16)) {
             // Fall back to malloc if initialization fails
-            return malloc(size);
+            return mcp_pool_alloc_unpooled(size);
         }
     }
 
@@ -279,19 +282,31 @@ void* mcp_pool_alloc(size_t size) {
 
     // If the size is too large for our pools, fall back to malloc
     if (size_class == MCP_POOL_SIZE_COUNT) {
-        return malloc(size);
+        return mcp_pool_alloc_unpooled(size);
     }
 
     // Allocate from the appropriate pool
     void* block = mcp_memory_pool_alloc(g_pools[size_class]);
     if (!block) {
         // Fall back to malloc if pool allocation fails
-        return malloc(size);
+        return mcp_pool_alloc_unpooled(size);
     }
 
     return block;
 }
 
+void* mcp_pool_alloc_unpooled(size_t size) {
+    if (size == 0 || size > SIZE_MAX - sizeof(mcp_block_header_t)) return NULL;
+
+    mcp_block_header_t* header = (mcp_block_header_t*)malloc(sizeof(mcp_block_header_t) + size);
+    if (!header) return NULL;
+
+    header->magic = MCP_POOL_MAGIC;
+    header->pool = NULL;
+    header->unpooled_size = size;
+    return (char*)header + sizeof(mcp_block_header_t);
+}
+
 void mcp_pool_free(void* ptr) {
     if (!ptr) return;
 
@@ -307,6 +322,13 @@ void mcp_pool_free(void* ptr) {
     // Get the pool from the header
     mcp_memory_pool_t* pool = header->pool;
 
+    // A block that did not come from a pool is released with its header
+    if (!pool) {
+        header->magic = 0;
+        free(header);
+        return;
+    }
+
     // Return directly to the pool - no thread cache dependency
     return_to_pool(pool, ptr);
 }
@@ -445,5 +467,5 @@ size_t mcp_pool_get_block_size(void* ptr) {
     mcp_memory_pool_t* pool = header->pool;
 
     // Return the user block size
-    return pool->user_block_size;
+    return pool ? pool->user_block_size : header->unpooled_size;
 }
-- 
2.43.0


From 7d1ba9b27000e59bd338c9f7ae55e197dfcc19f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:07 +0000
Subject: [PATCH 035/126] fix: guard the shared list node pool with a lock

---
 src/common/mcp_list.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_list.c b/src/common/mcp_list.c
index 61289d3..b99b101 100644
--- a/src/common/mcp_list.c
+++ b/src/common/mcp_list.c
@@ -9,6 +9,11 @@
 #include "mcp_log.h"
 #include "mcp_buffer_pool.h"
 #include "mcp_sync.h"
+#ifdef _WIN32
+#include <windows.h>
+#else
+#include <pthread.h>
+#endif
 
 // Memory pool size definition
 #define MCP_LIST_NODE_POOL_SIZE 64
@@ -37,12 +42,25 @@ typedef struct {
 // Global memory pool
 static mcp_list_pool_t* g_list_pool = NULL;
 
+// Guards creation, reference counting and destruction of the global memory pool
+#ifdef _WIN32
+static SRWLOCK g_list_pool_lock = SRWLOCK_INIT;
+#define MCP_LIST_POOL_LOCK() AcquireSRWLockExclusive(&g_list_pool_lock)
+#define MCP_LIST_POOL_UNLOCK() ReleaseSRWLockExclusive(&g_list_pool_lock)
+#else
+static pthread_mutex_t g_list_pool_lock = PTHREAD_MUTEX_INITIALIZER;
+#define MCP_LIST_POOL_LOCK() pthread_mutex_lock(&g_list_pool_lock)
+#define MCP_LIST_POOL_UNLOCK() pthread_mutex_unlock(&g_list_pool_lock)
+#endif
+
 // Initialize global memory pool
 static mcp_list_pool_t* mcp_list_pool_get(void) {
+    MCP_LIST_POOL_LOCK();
     if (!g_list_pool) {
         g_list_pool = (mcp_list_pool_t*)malloc(sizeof(mcp_list_pool_t));
         if (!g_list_pool) {
             mcp_log_error("Failed to allocate list pool structure");
+            MCP_LIST_POOL_UNLOCK();
             return NULL;
         }
 
@@ -51,6 +69,7 @@ static mcp_list_pool_t* mcp_list_pool_get(void) {
             mcp_log_error("Failed to create list node pool");
             free(g_list_pool);
             g_list_pool = NULL;
+            MCP_LIST_POOL_UNLOCK();
             return NULL;
         }
 
@@ -58,11 +77,14 @@ static mcp_list_pool_t* mcp_list_pool_get(void) {
     }
 
     g_list_pool->pool_refs++;
-    return g_list_pool;
+    mcp_list_pool_t* pool = g_list_pool;
+    MCP_LIST_POOL_UNLOCK();
+    return pool;
 }
 
 // Release reference to global memory pool
 static void mcp_list_pool_release(void) {
+    MCP_LIST_POOL_LOCK();
     if (g_list_pool && g_list_pool->pool_refs > 0) {
         g_list_pool->pool_refs--;
 
@@ -72,6 +94,7 @@ static void mcp_list_pool_release(void) {
             g_list_pool = NULL;
         }
     }
+    MCP_LIST_POOL_UNLOCK();
 }
 
 // Allocate node from memory pool
-- 
2.43.0


From f6570bb1eafa72638ae4274c8ef5850332066f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:07 +0000
Subject: [PATCH 036/126] fix: arena falls back to a recognisable block when
 the pools are not set up

---
 src/common/mcp_arena.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_arena.c b/src/common/mcp_arena.c
index 83d1fab..a0b0329 100644
--- a/src/common/mcp_arena.c
+++ b/src/common/mcp_arena.c
@@ -4,6 +4,7 @@
 #include "mcp_memory_constants.h"
 #include "mcp_thread_cache.h"
 #include "mcp_log.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -18,7 +19,7 @@ static mcp_arena_block_t* create_block(size_t size) {
     mcp_arena_block_t* block = (mcp_arena_block_t*)mcp_thread_cache_alloc(sizeof(mcp_arena_block_t));
     if (!block) {
         // Fall back to malloc if thread cache allocation fails
-        block = (mcp_arena_block_t*)malloc(sizeof(mcp_arena_block_t));
+        block = (mcp_arena_block_t*)mcp_pool_alloc_unpooled(sizeof(mcp_arena_block_t));
         if (!block) {
             return NULL;
         }
@@ -149,6 +150,11 @@ void* mcp_arena_alloc(mcp_arena_t* arena, size_t size) {
         }
     }
 
+    // Refuse sizes that cannot be rounded up
+    if (size > SIZE_MAX / 2) {
+        return NULL;
+    }
+
     // Align size to 8 bytes for better performance
     size_t aligned_size = MCP_ARENA_ALIGN_UP(size);
 
-- 
2.43.0


From 20ce1d10caa831dba0db124a26e5eabb620a6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:07 +0000
Subject: [PATCH 037/126] fix: thread cache files blocks under their real size

---
 src/common/mcp_thread_cache.c | 57 +++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/common/mcp_thread_cache.c b/src/common/mcp_thread_cache.c
index f32a1a6..1e16e09 100644
--- a/src/common/mcp_thread_cache.c
+++ b/src/common/mcp_thread_cache.c
@@ -425,6 +425,8 @@ bool mcp_thread_cache_init_with_config(const mcp_thread_cache_config_t* config)
     if (tls_shrink_threshold > 1.0) tls_shrink_threshold = 1.0;
 
     if (tls_min_cache_size < 1) tls_min_cache_size = 1;
+    if (tls_min_cache_size > MAX_CACHE_SIZE) tls_min_cache_size = MAX_CACHE_SIZE;
+    if (tls_max_cache_size > MAX_CACHE_SIZE) tls_max_cache_size = MAX_CACHE_SIZE;
     if (tls_max_cache_size < tls_min_cache_size) tls_max_cache_size = tls_min_cache_size;
 
     // Enable LRU by default
@@ -497,6 +499,27 @@ bool mcp_thread_cache_is_initialized(void) {
     return tls_cache_initialized;
 }
 
+/**
+ * @brief Allocates a block when the cache cannot serve a request
+ *
+ * Without the memory pool system the size is rounded up to that of the size
+ * class, so that the block can serve any request of its class once cached.
+ */
+static void* allocate_uncached(size_t size) {
+    if (mcp_memory_pool_system_is_initialized()) {
+        return mcp_pool_alloc(size);
+    }
+
+    if (size <= SMALL_BLOCK_SIZE) {
+        size = SMALL_BLOCK_SIZE;
+    } else if (size <= MEDIUM_BLOCK_SIZE) {
+        size = MEDIUM_BLOCK_SIZE;
+    } else if (size <= LARGE_BLOCK_SIZE) {
+        size = LARGE_BLOCK_SIZE;
+    }
+    return mcp_pool_alloc_unpooled(size);
+}
+
 /**
  * @brief Allocates memory from the thread-local cache
  *
@@ -517,11 +540,7 @@ void* mcp_thread_cache_alloc(size_t size) {
     // Fast path for uninitialized cache
     if (!tls_cache_initialized) {
         // Fall back to direct allocation
-        if (mcp_memory_pool_system_is_initialized()) {
-            return mcp_pool_alloc(size);
-        } else {
-            return malloc(size);
-        }
+        return allocate_uncached(size);
     }
 
     // Increment operation counter for adaptive sizing
@@ -668,12 +687,7 @@ void* mcp_thread_cache_alloc(size_t size) {
     }
 
     // Cache miss, allocate from the pool if initialized, otherwise use malloc
-    void* ptr;
-    if (mcp_memory_pool_system_is_initialized()) {
-        ptr = mcp_pool_alloc(size);
-    } else {
-        ptr = malloc(size);
-    }
+    void* ptr = allocate_uncached(size);
 
     // Log allocation for debugging in case of memory issues
     if (ptr == NULL) {
@@ -716,14 +730,13 @@ void mcp_thread_cache_free(void* ptr, size_t size) {
     // Increment operation counter for adaptive sizing
     tls_operations_since_adjustment++;
 
-    // If size is 0, try to determine it from the block
-    if (size == 0) {
-        size = mcp_pool_get_block_size(ptr);
-        // If we still don't know the size, we can't cache it
-        if (size == 0) {
-            free(ptr);
-            return;
-        }
+    // The real size of the block decides, not what the caller asked for: a block
+    // that is smaller than its size class must not serve later requests
+    (void)size;
+    size = mcp_pool_get_block_size(ptr);
+    if (size != SMALL_BLOCK_SIZE && size != MEDIUM_BLOCK_SIZE && size != LARGE_BLOCK_SIZE) {
+        mcp_pool_free(ptr);
+        return;
     }
 
     // Fast path for small blocks (most common case)
@@ -1013,6 +1026,10 @@ bool mcp_thread_cache_configure(const mcp_thread_cache_config_t* config) {
 
     // Configure LRU if specified
     if (config->lru_enabled >= 0) {
+        // The two replacement orders keep different records of the cached blocks
+        if (tls_lru_enabled != (config->lru_enabled != 0)) {
+            mcp_thread_cache_flush();
+        }
         tls_lru_enabled = config->lru_enabled;
     }
 
@@ -1032,6 +1049,8 @@ bool mcp_thread_cache_configure(const mcp_thread_cache_config_t* config) {
     if (tls_shrink_threshold > 1.0) tls_shrink_threshold = 1.0;
 
     if (tls_min_cache_size < 1) tls_min_cache_size = 1;
+    if (tls_min_cache_size > MAX_CACHE_SIZE) tls_min_cache_size = MAX_CACHE_SIZE;
+    if (tls_max_cache_size > MAX_CACHE_SIZE) tls_max_cache_size = MAX_CACHE_SIZE;
     if (tls_max_cache_size < tls_min_cache_size) tls_max_cache_size = tls_min_cache_size;
 
     mcp_log_debug("Thread-local cache reconfigured for thread %lu: LRU %s, adaptive sizing %s",
-- 
2.43.0


From 107c2756f33a505998c891c9d5dd7653944a2a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:29 +0000
Subject: [PATCH 038/126] fix: thread pool queues overwrote waiting tasks when
 full

---
 src/common/mcp_thread_pool_deque.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/mcp_thread_pool_deque.c b/src/common/mcp_thread_pool_deque.c
index 922ab2a..4a8ed9c 100644
--- a/src/common/mcp_thread_pool_deque.c
+++ b/src/common/mcp_thread_pool_deque.c
@@ -11,10 +11,10 @@
 // Push task onto the bottom of the deque (owner thread only)
 bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task) {
     size_t b = load_size(&deque->bottom);
-    // Do not need to load top for push, only check against capacity later if needed
-    // size_t t = load_size(&deque->top);
-    // size_t size = b - t;
-    // if (size >= (deque->capacity_mask + 1)) { return false; } // Check happens implicitly below
+    size_t t = load_size(&deque->top);
+    if (b - t >= deque->capacity_mask + 1) {
+        return false; // Full: the slot still holds a task that was not taken
+    }
 
     size_t index = b & deque->capacity_mask;
     deque->buffer[index] = task;
-- 
2.43.0


From 64eab1d7640ffb81e95cdd1c5f30fb311520f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:29 +0000
Subject: [PATCH 039/126] fix: thread pool lost or repeated tasks when
 submitters and workers met

---
 src/common/mcp_thread_pool.c        | 18 ++++++++++--------
 src/common/mcp_thread_pool_deque.c  |  2 +-
 src/common/mcp_thread_pool_tasks.c  | 23 ++++++++++++-----------
 src/common/mcp_thread_pool_worker.c |  4 ++--
 4 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index 4606c0e..bf358a9 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -347,12 +347,19 @@ int mcp_thread_pool_destroy(mcp_thread_pool_t* pool) {
         return -1; // Already shutting down
     }
 
+    // Submissions check the shutdown state under this mutex
+    if (mcp_mutex_lock(pool->cond_mutex) != 0) {
+        mcp_log_error("Error: Failed to lock mutex for shutdown broadcast.");
+        return -1;
+    }
+
     // Use write lock to set shutdown state - ensures exclusive access
     mcp_rwlock_write_lock(pool->rwlock);
 
     // Double-check shutdown state after acquiring lock
     if (pool->shutdown_flag != 0) {
         mcp_rwlock_write_unlock(pool->rwlock);
+        mcp_mutex_unlock(pool->cond_mutex);
         return -1; // Another thread initiated shutdown
     }
 
@@ -361,16 +368,11 @@ int mcp_thread_pool_destroy(mcp_thread_pool_t* pool) {
     mcp_rwlock_write_unlock(pool->rwlock);
 
     // Wake up worker threads
-    if (mcp_mutex_lock(pool->cond_mutex) == 0) {
-        if (mcp_cond_broadcast(pool->notify) != 0) {
-            err = -1;
-            mcp_log_warn("Warning: Failed to broadcast shutdown signal");
-        }
-        mcp_mutex_unlock(pool->cond_mutex);
-    } else {
+    if (mcp_cond_broadcast(pool->notify) != 0) {
         err = -1;
-        mcp_log_error("Error: Failed to lock mutex for shutdown broadcast.");
+        mcp_log_warn("Warning: Failed to broadcast shutdown signal");
     }
+    mcp_mutex_unlock(pool->cond_mutex);
 
     // Join threads with timeout and retry mechanism
     for (size_t i = 0; i < pool->started; ++i) {
diff --git a/src/common/mcp_thread_pool_deque.c b/src/common/mcp_thread_pool_deque.c
index 4a8ed9c..5c75887 100644
--- a/src/common/mcp_thread_pool_deque.c
+++ b/src/common/mcp_thread_pool_deque.c
@@ -8,7 +8,7 @@
  */
 #include "internal/mcp_thread_pool_internal.h"
 
-// Push task onto the bottom of the deque (owner thread only)
+// Push task onto the bottom of the deque (callers are serialized by the pool's cond_mutex)
 bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task) {
     size_t b = load_size(&deque->bottom);
     size_t t = load_size(&deque->top);
diff --git a/src/common/mcp_thread_pool_tasks.c b/src/common/mcp_thread_pool_tasks.c
index 2ae9652..66fccea 100644
--- a/src/common/mcp_thread_pool_tasks.c
+++ b/src/common/mcp_thread_pool_tasks.c
@@ -16,12 +16,15 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
     }
     PROFILE_START("mcp_thread_pool_add_task");
 
-    // Use read lock to check shutdown state - allows multiple threads to check concurrently
-    mcp_rwlock_read_lock(pool->rwlock);
-    int shutdown_state = pool->shutdown_flag;
-    mcp_rwlock_read_unlock(pool->rwlock);
+    // Submissions are serialized with each other and with the start of the shutdown,
+    // so that a task is either rejected or seen by the workers
+    if (mcp_mutex_lock(pool->cond_mutex) != 0) {
+        PROFILE_END("mcp_thread_pool_add_task");
+        return -1;
+    }
 
-    if (shutdown_state != 0) {
+    if (load_int(&pool->shutdown_flag) != 0) {
+        mcp_mutex_unlock(pool->cond_mutex);
         PROFILE_END("mcp_thread_pool_add_task");
         return -1;
     }
@@ -54,6 +57,7 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
             // All deques are full
             mcp_log_error("All deques are full during task submission. Consider increasing queue size.");
             fetch_add_size(&pool->tasks_failed, 1);
+            mcp_mutex_unlock(pool->cond_mutex);
             PROFILE_END("mcp_thread_pool_add_task");
             return -1; // Indicate queue full
         }
@@ -62,12 +66,9 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
     // Update statistics
     fetch_add_size(&pool->tasks_submitted, 1);
 
-    // Signal a potentially idle worker
-    if (mcp_mutex_lock(pool->cond_mutex) == 0) {
-        // Always broadcast to ensure no worker misses the signal
-        mcp_cond_broadcast(pool->notify); // Wake up all waiting workers
-        mcp_mutex_unlock(pool->cond_mutex);
-    }
+    // Always broadcast to ensure no worker misses the signal
+    mcp_cond_broadcast(pool->notify); // Wake up all waiting workers
+    mcp_mutex_unlock(pool->cond_mutex);
 
     PROFILE_END("mcp_thread_pool_add_task");
     return 0;
diff --git a/src/common/mcp_thread_pool_worker.c b/src/common/mcp_thread_pool_worker.c
index 832fb27..df8d0a3 100644
--- a/src/common/mcp_thread_pool_worker.c
+++ b/src/common/mcp_thread_pool_worker.c
@@ -79,8 +79,8 @@ void* thread_pool_worker(void* arg) {
             break;  // Let the function's cleanup code handle the rest
         }
         
-        // 1. Try to pop from own deque
-        if (deque_pop_bottom(worker_locals.my_deque, &worker_locals.task)) {
+        // 1. Try to take from own deque; the bottom end belongs to the submitters
+        if (deque_steal_top(worker_locals.my_deque, &worker_locals.task)) {
             worker_locals.steal_attempts = 0;
             worker_locals.backoff_shift = 0; // Reset exponential backoff
 
-- 
2.43.0


From 45cb724a3955a215264e2b51d1fd0045cc9a19ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:29 +0000
Subject: [PATCH 040/126] fix: thread pool workers serve the queues of workers
 that are not running

---
 src/common/mcp_thread_pool.c        |  4 ++--
 src/common/mcp_thread_pool_worker.c | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index bf358a9..7b3b2ed 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -127,8 +127,9 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
         return NULL;
     }
 
-    // Start worker threads, passing index
+    // Start worker threads, passing index; they look at the count as soon as they run
     allocation_failed = false;
+    pool->thread_count = thread_count;
     for (size_t i = 0; i < thread_count; ++i) {
         worker_arg_t* arg = (worker_arg_t*)malloc(sizeof(worker_arg_t));
         if (!arg) {
@@ -151,7 +152,6 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
             allocation_failed = true;
             break;
         }
-        pool->thread_count++;
         pool->started++;
     }
 
diff --git a/src/common/mcp_thread_pool_worker.c b/src/common/mcp_thread_pool_worker.c
index df8d0a3..2678f3e 100644
--- a/src/common/mcp_thread_pool_worker.c
+++ b/src/common/mcp_thread_pool_worker.c
@@ -47,7 +47,7 @@ void* thread_pool_worker(void* arg) {
     worker_locals.my_index = worker_locals.worker_data->worker_index;
     worker_locals.my_deque = &worker_locals.pool->deques[worker_locals.my_index];
     worker_locals.steal_attempts = 0;
-    worker_locals.last_victim_index = (worker_locals.my_index + 1) % worker_locals.pool->thread_count;
+    worker_locals.last_victim_index = (worker_locals.my_index + 1) % worker_locals.pool->max_thread_count;
     worker_locals.scan_interval = 0;
     worker_locals.backoff_shift = 0;
 
@@ -128,7 +128,7 @@ void* thread_pool_worker(void* arg) {
             bool all_empty = true;
 
             // Check all deques
-            for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+            for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                 size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                 size_t top = load_size(&worker_locals.pool->deques[i].top);
 
@@ -147,7 +147,7 @@ void* thread_pool_worker(void* arg) {
         }
 
         // 3. Try to steal using an optimized strategy
-        if (worker_locals.pool->thread_count > 1) {
+        if (worker_locals.pool->max_thread_count > 1) {
             size_t victim_index = worker_locals.my_index; // Default to own index (will be changed)
 
             // Increment scan interval counter
@@ -160,7 +160,7 @@ void* thread_pool_worker(void* arg) {
                 size_t max_tasks = 0;
 
                 // Full scan of all deques
-                for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+                for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                     if (i == worker_locals.my_index) continue; // Skip own deque
 
                     size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
@@ -187,7 +187,7 @@ void* thread_pool_worker(void* arg) {
                 if (bottom <= top) {
                     // Try a random victim, but not ourselves
                     do {
-                        victim_index = rand() % worker_locals.pool->thread_count;
+                        victim_index = rand() % worker_locals.pool->max_thread_count;
                     } while (victim_index == worker_locals.my_index);
                 } else {
                     // Last victim still has tasks
@@ -272,7 +272,7 @@ void* thread_pool_worker(void* arg) {
                     bool all_empty = true;
 
                     // Check all deques
-                    for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+                    for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                         size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                         size_t top = load_size(&worker_locals.pool->deques[i].top);
 
@@ -297,7 +297,7 @@ void* thread_pool_worker(void* arg) {
                 // If we timed out, check if there are tasks in any deque
                 if (wait_result == -2) { // -2 is timeout
                     bool found_tasks = false;
-                    for (size_t i = 0; i < worker_locals.pool->thread_count && !found_tasks; i++) {
+                    for (size_t i = 0; i < worker_locals.pool->max_thread_count && !found_tasks; i++) {
                         size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                         size_t top = load_size(&worker_locals.pool->deques[i].top);
                         if (bottom > top) {
-- 
2.43.0


From e7ae4387cff564bb38d3ab7c875f34dbe9882ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:29 +0000
Subject: [PATCH 041/126] fix: waiting on the thread pool returned before
 earlier tasks were done

---
 src/common/mcp_thread_pool_tasks.c | 52 +++++-------------------------
 1 file changed, 8 insertions(+), 44 deletions(-)

diff --git a/src/common/mcp_thread_pool_tasks.c b/src/common/mcp_thread_pool_tasks.c
index 66fccea..e43f159 100644
--- a/src/common/mcp_thread_pool_tasks.c
+++ b/src/common/mcp_thread_pool_tasks.c
@@ -77,8 +77,8 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
 /**
  * @brief Waits for all currently queued tasks to complete.
  *
- * This function blocks until all tasks in the queue at the time of the call
- * have been processed, or until the specified timeout is reached.
+ * This function blocks until all tasks in the queue at the time of the call, and those
+ * submitted meanwhile, have been processed, or until the specified timeout is reached.
  *
  * @param pool The thread pool instance.
  * @param timeout_ms Maximum time to wait in milliseconds. Use 0 for no timeout.
@@ -98,49 +98,20 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
         return -1; // Pool is shutting down
     }
 
-    // Capture the current number of submitted tasks
-    size_t tasks_to_wait_for = pool->tasks_submitted;
-
-    // If no tasks have been submitted, return immediately
-    if (tasks_to_wait_for == 0) {
-        return 0;
-    }
-
-    // Calculate the number of tasks that should be completed
-    size_t target_completed = tasks_to_wait_for - pool->tasks_failed;
-
-    // If all tasks have already completed, return immediately
-    if (pool->tasks_completed >= target_completed) {
-        return 0;
-    }
-
     // Wait for tasks to complete using condition variable
     if (mcp_mutex_lock(pool->cond_mutex) != 0) {
         return -1; // Failed to lock mutex
     }
 
-    unsigned int wait_time = 0;
+    uint64_t start_time = mcp_get_time_ms();
     unsigned int sleep_interval = 10; // 10ms sleep interval
     int result = 0;
 
-    while ((pool->tasks_completed < target_completed) &&
-           (wait_time < timeout_ms || timeout_ms == 0)) {
-
-        // Check if all deques are empty and no tasks are active
-        bool all_empty = true;
-        for (size_t i = 0; i < pool->max_thread_count; i++) {
-            size_t bottom = load_size(&pool->deques[i].bottom);
-            size_t top = load_size(&pool->deques[i].top);
-
-            if (bottom > top) {
-                all_empty = false;
-                break;
-            }
-        }
-
-        // If all deques are empty and no tasks are active, we're done
-        if (all_empty && pool->active_tasks == 0) {
-            result = 0;
+    // Tasks may complete in any order, so only an idle pool shows that all earlier ones
+    // did. Submissions are counted under the mutex (rejected ones are not counted).
+    while (load_size(&pool->tasks_completed) < load_size(&pool->tasks_submitted)) {
+        if (timeout_ms > 0 && mcp_get_time_ms() - start_time >= timeout_ms) {
+            result = -1; // Timeout
             break;
         }
 
@@ -152,16 +123,9 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
             result = -1;
             break;
         }
-
-        wait_time += sleep_interval;
     }
 
     mcp_mutex_unlock(pool->cond_mutex);
 
-    // If we timed out and tasks are still not complete
-    if (wait_time >= timeout_ms && timeout_ms > 0 && pool->tasks_completed < target_completed) {
-        return -1; // Timeout
-    }
-
     return result;
 }
-- 
2.43.0


From 0edb6bb84ba1be24e883945d2df73a5ab32452f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:29 +0000
Subject: [PATCH 042/126] fix: resizing the thread pool could deadlock, lose
 threads or use freed worker data

---
 .../internal/mcp_thread_pool_internal.h       |  1 +
 src/common/mcp_thread_pool.c                  | 38 +++++++++++++------
 src/common/mcp_thread_pool_worker.c           | 20 +++++-----
 3 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/common/internal/mcp_thread_pool_internal.h b/src/common/internal/mcp_thread_pool_internal.h
index 564f95a..e5105b5 100644
--- a/src/common/internal/mcp_thread_pool_internal.h
+++ b/src/common/internal/mcp_thread_pool_internal.h
@@ -45,6 +45,7 @@ typedef struct {
     size_t worker_index;
     volatile bool should_exit;  // Explicit exit flag for this worker
     volatile bool is_active;    // Whether this worker is currently active
+    bool exited;                // Worker left after a shrink (guarded by the pool's rwlock)
 } worker_arg_t;
 
 /**
diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index 7b3b2ed..de4b696 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -141,6 +141,7 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
         arg->worker_index = i;
         arg->should_exit = false;  // Initialize exit flag
         arg->is_active = false;    // Initialize active flag
+        arg->exited = false;
 
         // Store the worker argument for later cleanup
         pool->worker_args[i] = arg;
@@ -195,14 +196,7 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
                  // Continue with cleanup anyway
              }
 
-             // Worker threads free their own arguments when they exit normally
-         }
-
-         // Free any worker arguments that weren't passed to threads
-         for (size_t i = pool->started; i < thread_count; ++i) {
-             if (pool->worker_args[i]) {
-                 free(pool->worker_args[i]);
-             }
+             free(pool->worker_args[i]);
          }
 
          // Full cleanup - first free regular memory resources
@@ -273,22 +267,36 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
         }
 
         // Set new thread count after signaling exit flags
+        mcp_log_debug("Pool shrunk from %zu to %zu threads", pool->thread_count, new_thread_count);
         pool->thread_count = new_thread_count;
+        mcp_rwlock_write_unlock(pool->rwlock);
 
-        // Signal all threads to check their exit flags
+        // Signal all threads to check their exit flags (workers take the rwlock while
+        // holding this mutex, so it must not be taken with the rwlock held)
         mcp_mutex_lock(pool->cond_mutex);
         mcp_cond_broadcast(pool->notify);
         mcp_mutex_unlock(pool->cond_mutex);
 
         // Worker threads will exit when they see their should_exit flag is true
-        mcp_log_debug("Pool shrunk from %zu to %zu threads", pool->thread_count + (pool->thread_count - new_thread_count), new_thread_count);
+        return 0;
     }
     // If expanding
     else {
         // Create new worker threads
         size_t threads_to_add = new_thread_count - pool->thread_count;
         for (size_t i = 0; i < threads_to_add; i++) {
-            worker_arg_t* arg = (worker_arg_t*)malloc(sizeof(worker_arg_t));
+            worker_arg_t* arg = pool->worker_args[pool->thread_count + i];
+            if (arg && !arg->exited) {
+                // Told to exit by an earlier shrink but still running: keep it
+                arg->should_exit = false;
+                continue;
+            }
+            if (arg) {
+                // Left after an earlier shrink: its slot is used again
+                mcp_thread_join(pool->threads[arg->worker_index], NULL);
+            } else {
+                arg = (worker_arg_t*)malloc(sizeof(worker_arg_t));
+            }
             if (!arg) {
                 mcp_log_error("Failed to allocate memory for worker arg");
                 pool->thread_count += i; // Update to actual number of threads
@@ -299,6 +307,7 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
             arg->worker_index = pool->thread_count + i;
             arg->should_exit = false;  // Initialize exit flag
             arg->is_active = false;    // Initialize active flag
+            arg->exited = false;
 
             // Store the worker argument for cleanup
             pool->worker_args[arg->worker_index] = arg;
@@ -376,6 +385,9 @@ int mcp_thread_pool_destroy(mcp_thread_pool_t* pool) {
 
     // Join threads with timeout and retry mechanism
     for (size_t i = 0; i < pool->started; ++i) {
+        if (!pool->worker_args[i]) {
+            continue; // No thread in this slot
+        }
         int join_attempts = 0;
         const int max_join_attempts = 3;
         bool join_success = false;
@@ -400,9 +412,11 @@ int mcp_thread_pool_destroy(mcp_thread_pool_t* pool) {
             // The thread might still be running, but we need to clean up resources
         }
 
-        // Note: Worker threads free their own arguments when they exit normally
         // If join failed, we might leak the worker_arg, but that's better than
         // potentially freeing memory that's still in use by a running thread
+        if (join_success) {
+            free(pool->worker_args[i]);
+        }
     }
 
     // Log final statistics
diff --git a/src/common/mcp_thread_pool_worker.c b/src/common/mcp_thread_pool_worker.c
index 2678f3e..8e9c6d0 100644
--- a/src/common/mcp_thread_pool_worker.c
+++ b/src/common/mcp_thread_pool_worker.c
@@ -51,9 +51,6 @@ void* thread_pool_worker(void* arg) {
     worker_locals.scan_interval = 0;
     worker_locals.backoff_shift = 0;
 
-    // Mark this worker as the owner of its argument
-    worker_locals.pool->worker_args[worker_locals.my_index] = worker_locals.worker_data;
-
     while (1) {
         // Check if this thread should exit - use explicit exit flag first, then fallback to index check
         bool should_exit_explicit = worker_locals.worker_data->should_exit;
@@ -67,9 +64,15 @@ void* thread_pool_worker(void* arg) {
         }
 
         if (should_exit_explicit || should_exit_index) {
-            // Mark worker as inactive before exiting
-            worker_locals.pool->worker_status[worker_locals.my_index] = 0;
-            worker_locals.worker_data->is_active = false;
+            // The pool may have grown again meanwhile
+            mcp_rwlock_write_lock(worker_locals.pool->rwlock);
+            bool must_exit = (worker_locals.my_index >= worker_locals.pool->thread_count);
+            worker_locals.worker_data->should_exit = must_exit;
+            worker_locals.worker_data->exited = must_exit;
+            mcp_rwlock_write_unlock(worker_locals.pool->rwlock);
+            if (!must_exit) {
+                continue;
+            }
 
             if (should_exit_explicit) {
                 mcp_log_debug("Worker %zu exiting due to explicit exit signal", worker_locals.my_index);
@@ -329,9 +332,6 @@ void* thread_pool_worker(void* arg) {
         }
     } // End while(1)
 
-    // Clean up worker argument
-    free(worker_locals.worker_data);
-    worker_locals.pool->worker_args[worker_locals.my_index] = NULL;
-
+    // The worker argument belongs to the pool
     return NULL;
 }
-- 
2.43.0


From 8c297a21cd7939b12a8b5ddb9efdf5b8a1995dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:29 +0000
Subject: [PATCH 043/126] fix: failing to create a thread pool freed queue
 buffers twice

---
 src/common/mcp_thread_pool.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index de4b696..c8a0e9c 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -52,7 +52,7 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
 
     // Allocate memory for threads, deques array, and sync primitives
     pool->threads = (mcp_thread_t*)malloc(sizeof(mcp_thread_t) * thread_count);
-    pool->deques = (work_stealing_deque_t*)malloc(sizeof(work_stealing_deque_t) * thread_count);
+    pool->deques = (work_stealing_deque_t*)calloc(thread_count, sizeof(work_stealing_deque_t));
     pool->worker_args = (worker_arg_t**)malloc(sizeof(worker_arg_t*) * thread_count);
     pool->worker_status = (volatile int*)calloc(thread_count, sizeof(int));
     pool->tasks_stolen = (volatile size_t*)calloc(thread_count, sizeof(size_t));
@@ -76,14 +76,7 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
             pool->deques[i].buffer = (mcp_task_t*)malloc(sizeof(mcp_task_t) * pool->deque_capacity);
 #endif
             if (pool->deques[i].buffer == NULL) {
-                allocation_failed = true;
-                for (size_t j = 0; j < i; ++j) { // Free previously allocated buffers
-                    #ifdef _WIN32
-                        _aligned_free(pool->deques[j].buffer);
-                    #else
-                        free(pool->deques[j].buffer);
-                    #endif
-                }
+                allocation_failed = true; // The buffers allocated so far are freed below
                 break;
             }
             // Initialize deque state
-- 
2.43.0


From 53711a8694cdf49a53937cea1bf138345c847195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:59 +0000
Subject: [PATCH 044/126] fix: requests with an over-long Origin header skipped
 origin validation

---
 src/transport/mcp_sthttp_callbacks.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index 8a89b14..b6fb269 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -16,7 +16,7 @@ static int handle_http_body_completion(struct lws* wsi, sthttp_transport_data_t*
                                       sthttp_session_data_t* session);
 static int handle_closed_http(struct lws* wsi, sthttp_transport_data_t* data, 
                              sthttp_session_data_t* session);
-static void extract_origin_header(struct lws* wsi, sthttp_session_data_t* session);
+static bool extract_origin_header(struct lws* wsi, sthttp_session_data_t* session);
 static void extract_session_header(struct lws* wsi, sthttp_session_data_t* session);
 
 /**
@@ -49,7 +49,10 @@ static int lws_callback_sthttp(struct lws* wsi, enum lws_callback_reasons reason
                 mcp_log_info("HTTP streamable request: %s", uri);
 
                 // Extract headers
-                extract_origin_header(wsi, session);
+                if (!extract_origin_header(wsi, session) && data->validate_origin) {
+                    mcp_log_warn("Origin header too long to be validated");
+                    return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
+                }
                 extract_session_header(wsi, session);
 
                 return handle_http_request(wsi, data, session, uri);
@@ -292,10 +295,12 @@ static int handle_closed_http(struct lws* wsi, sthttp_transport_data_t* data,
 
 /**
  * @brief Extract Origin header
+ *
+ * @return bool false if the header does not fit into the session's buffer
  */
-static void extract_origin_header(struct lws* wsi, sthttp_session_data_t* session) {
+static bool extract_origin_header(struct lws* wsi, sthttp_session_data_t* session) {
     if (wsi == NULL || session == NULL) {
-        return;
+        return true;
     }
 
     int origin_len = lws_hdr_copy(wsi, session->origin, sizeof(session->origin), WSI_TOKEN_ORIGIN);
@@ -304,6 +309,8 @@ static void extract_origin_header(struct lws* wsi, sthttp_session_data_t* sessio
     } else {
         session->origin[0] = '\0';
     }
+
+    return origin_len >= 0;
 }
 
 /**
-- 
2.43.0


From 3c409f7c3cb77b6849d181354231cf83208f1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:59 +0000
Subject: [PATCH 045/126] fix: sessions could be terminated from origins that
 are not allowed

---
 src/transport/mcp_sthttp_threads.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 3aa7d98..70692ec 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -432,6 +432,13 @@ int handle_mcp_delete_request(struct lws* wsi, sthttp_transport_data_t* data, st
         return -1;
     }
 
+    // Validate origin if required
+    if (data->validate_origin && session_data->origin[0] != '\0') {
+        if (!validate_origin(data, session_data->origin)) {
+            return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
+        }
+    }
+
     // Session termination requires a session ID
     if (!session_data->has_session || data->session_manager == NULL) {
         return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Session termination requires a session");
-- 
2.43.0


From d29e449376cd99292b6220c5f3f7df1935d7478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:37 +0000
Subject: [PATCH 046/126] fix: events with line breaks or over 4 KB were
 altered or not sent at all

---
 src/transport/mcp_sthttp_utils.c | 67 +++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/transport/mcp_sthttp_utils.c b/src/transport/mcp_sthttp_utils.c
index 9fae4cb..f1d7ec3 100644
--- a/src/transport/mcp_sthttp_utils.c
+++ b/src/transport/mcp_sthttp_utils.c
@@ -467,50 +467,61 @@ int send_sse_event(struct lws* wsi, const char* event_id, const char* event_type
         return -1;
     }
 
-    char buffer[4096];
+    // Every line of the data needs a field of its own
+    size_t size = 2;
+    if (event_id != NULL) {
+        size += strlen(event_id) + sizeof("id: \n");
+    }
+    if (event_type != NULL) {
+        size += strlen(event_type) + sizeof("event: \n");
+    }
+    if (data != NULL) {
+        size += strlen(data) + sizeof("data: \n");
+        for (const char* p = data; *p != '\0'; p++) {
+            if (*p == '\n') {
+                size += sizeof("data: \n");
+            }
+        }
+    }
+
+    // Leave room in front as libwebsockets may use it
+    unsigned char* memory = (unsigned char*)malloc(LWS_PRE + size);
+    if (memory == NULL) {
+        mcp_log_error("Failed to allocate SSE event buffer");
+        return -1;
+    }
+    char* buffer = (char*)memory + LWS_PRE;
     size_t offset = 0;
 
     // Add event ID if provided
     if (event_id != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "id: %s\n", event_id);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (id)");
-            return -1;
-        }
-        offset += written;
+        offset += (size_t)snprintf(buffer + offset, size - offset, "id: %s\n", event_id);
     }
 
     // Add event type if provided
     if (event_type != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "event: %s\n", event_type);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (event)");
-            return -1;
-        }
-        offset += written;
+        offset += (size_t)snprintf(buffer + offset, size - offset, "event: %s\n", event_type);
     }
 
     // Add data (required)
-    if (data != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "data: %s\n", data);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (data)");
-            return -1;
-        }
-        offset += written;
+    const char* line = data;
+    while (line != NULL) {
+        const char* end = strchr(line, '\n');
+        size_t length = end != NULL ? (size_t)(end - line) : strlen(line);
+        memcpy(buffer + offset, "data: ", 6);
+        memcpy(buffer + offset + 6, line, length);
+        offset += 6 + length;
+        buffer[offset++] = '\n';
+        line = end != NULL ? end + 1 : NULL;
     }
 
     // Add final newline
-    if (offset < sizeof(buffer) - 1) {
-        buffer[offset++] = '\n';
-        buffer[offset] = '\0';
-    } else {
-        mcp_log_error("SSE event buffer overflow (final newline)");
-        return -1;
-    }
+    buffer[offset++] = '\n';
 
     // Send the event
-    if (lws_write(wsi, (unsigned char*)buffer, offset, LWS_WRITE_HTTP) < 0) {
+    int written = lws_write(wsi, (unsigned char*)buffer, offset, LWS_WRITE_HTTP);
+    free(memory);
+    if (written < 0) {
         return -1;
     }
 
-- 
2.43.0


From 8381fccf64aba5e5a1cd1988396d57732f7bf9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:48 +0000
Subject: [PATCH 047/126] fix: touching an expired HTTP session made it valid
 again

---
 src/transport/mcp_http_session_manager.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_http_session_manager.c b/src/transport/mcp_http_session_manager.c
index 0114560..63b4473 100644
--- a/src/transport/mcp_http_session_manager.c
+++ b/src/transport/mcp_http_session_manager.c
@@ -293,7 +293,8 @@ bool mcp_session_manager_terminate_session(mcp_http_session_manager_t* manager,
 }
 
 void mcp_session_touch(mcp_http_session_t* session) {
-    if (session != NULL && session->in_use) {
+    // A session that has expired stays expired
+    if (!is_session_expired(session)) {
         session->last_access_time = time(NULL);
     }
 }
-- 
2.43.0


From f22e7fb1943d19b359ff708e5357a8b0c2dd815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:43 +0000
Subject: [PATCH 048/126] fix: a batch starting with a ping was served without
 the API key

A failed authentication gave every batch whose first element was a ping an
anonymous context with access to everything. Serve only the pings of such a
batch and answer its other requests with an authentication error.
---
 src/server/mcp_server_dispatch.c | 41 ++++++++++----------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 2aad825..a2fceb5 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -182,35 +182,13 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
         }
     }
 
-    // For ping requests, we'll create a special anonymous auth context if authentication fails
+    // Without authentication only pings are served
     if (mcp_auth_verify(server, required_auth_type, credentials, &auth_context) != 0) {
-        if (is_ping_request) {
-            // For ping requests, create a special anonymous auth context
-            mcp_log_debug("Creating anonymous auth context for ping request");
-            auth_context = (mcp_auth_context_t*)calloc(1, sizeof(mcp_auth_context_t));
-            if (auth_context) {
-                auth_context->type = MCP_AUTH_NONE;
-                auth_context->identifier = mcp_strdup("ping_anonymous");
-
-                // Add minimal permissions for ping
-                auth_context->allowed_resources = (char**)malloc(sizeof(char*));
-                if (auth_context->allowed_resources) {
-                    auth_context->allowed_resources_count = 1;
-                    auth_context->allowed_resources[0] = mcp_strdup("*");
-                }
-
-                auth_context->allowed_tools = (char**)malloc(sizeof(char*));
-                if (auth_context->allowed_tools) {
-                    auth_context->allowed_tools_count = 1;
-                    auth_context->allowed_tools[0] = mcp_strdup("*");
-                }
-            }
-        } else {
+        auth_context = NULL;
+        if (message_count == 1 && !is_ping_request) {
             // For non-ping requests, fail with authentication error
-            mcp_log_warn("Authentication failed for incoming message/batch.");
+            mcp_log_warn("Authentication failed for incoming message.");
             *error_code = MCP_ERROR_INVALID_REQUEST; // Generic auth failure
-            // For batch, JSON-RPC spec is unclear on error response format.
-            // Sending a single error response might be appropriate.
             char* error_response = create_error_response(first_request_id, *error_code, "Authentication failed");
             mcp_json_free_message_array(messages, message_count); // Free parsed messages
             // No need to destroy the thread-local arena, just reset it
@@ -220,8 +198,10 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
 #endif
             return error_response;
         }
+        mcp_log_warn("Authentication failed, only pings in this message are served.");
+    } else {
+        mcp_log_debug("Authentication successful (Identifier: %s)", auth_context ? auth_context->identifier : "N/A");
     }
-    mcp_log_debug("Authentication successful (Identifier: %s)", auth_context ? auth_context->identifier : "N/A");
     // --- End Authentication Check ---
 
     char* final_response_str = NULL;
@@ -274,7 +254,12 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
             }
 
             // Handle the request
-            single_response_str = handle_request(server, arena, &current_msg->request, auth_context, &current_msg_error);
+            if (auth_context == NULL && strcmp(current_msg->request.method, "ping") != 0) {
+                current_msg_error = MCP_ERROR_INVALID_REQUEST;
+                single_response_str = create_error_response(current_msg->request.id, current_msg_error, "Authentication failed");
+            } else {
+                single_response_str = handle_request(server, arena, &current_msg->request, auth_context, &current_msg_error);
+            }
             // Process the response
             if (single_response_str != NULL) {
                 if (is_batch_response && batch_buffer_initialized) {
-- 
2.43.0


From 9471c24869a00b85fa044a46fe3d8509608fecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:43 +0000
Subject: [PATCH 049/126] fix: every authenticated message leaked the
 parameters it was authenticated with

---
 src/server/mcp_server_dispatch.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index a2fceb5..63225ab 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -158,6 +158,7 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
                                            ? MCP_AUTH_API_KEY
                                            : MCP_AUTH_NONE;
     const char* credentials = NULL;
+    mcp_json_t* credentials_json = NULL; // Owns the credentials string
     uint64_t first_request_id = 0; // For potential batch auth error response
     bool is_ping_request = false;
 
@@ -171,19 +172,20 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
         }
 
         if (required_auth_type == MCP_AUTH_API_KEY) {
-            mcp_json_t* params_json = mcp_json_parse(messages[0].request.params);
-            if (params_json && mcp_json_get_type(params_json) == MCP_JSON_OBJECT) {
-                mcp_json_t* key_node = mcp_json_object_get_property(params_json, "apiKey");
+            credentials_json = mcp_json_parse(messages[0].request.params);
+            if (credentials_json && mcp_json_get_type(credentials_json) == MCP_JSON_OBJECT) {
+                mcp_json_t* key_node = mcp_json_object_get_property(credentials_json, "apiKey");
                 if (key_node && mcp_json_get_type(key_node) == MCP_JSON_STRING) {
                     mcp_json_get_string(key_node, &credentials);
                 }
             }
-            // Arena handles params_json cleanup
         }
     }
 
     // Without authentication only pings are served
-    if (mcp_auth_verify(server, required_auth_type, credentials, &auth_context) != 0) {
+    int auth_result = mcp_auth_verify(server, required_auth_type, credentials, &auth_context);
+    mcp_json_destroy(credentials_json); // Frees its strings; the nodes belong to the arena
+    if (auth_result != 0) {
         auth_context = NULL;
         if (message_count == 1 && !is_ping_request) {
             // For non-ping requests, fail with authentication error
-- 
2.43.0


From d0b09b53c6442d9cee3365ddafb6117994f483d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:43 +0000
Subject: [PATCH 050/126] fix: malformed elements of a batch were not answered

An element that is no message gets an error response instead of being skipped,
and a batch of one element is answered with an array like any other batch.
---
 src/server/mcp_server_dispatch.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 63225ab..be87af7 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -151,6 +151,9 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
         return create_error_response(0, MCP_ERROR_PARSE_ERROR, "Parse error");
     }
 
+    // An array is a batch, also with a single element
+    bool is_batch_response = (json_str[strspn(json_str, " \t\r\n")] == '[');
+
     // --- Authentication (Simplified for Batch - Authenticate once based on first request?) ---
     // TODO: Implement more granular auth per request in batch if needed.
     mcp_auth_context_t* auth_context = NULL;
@@ -187,7 +190,7 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
     mcp_json_destroy(credentials_json); // Frees its strings; the nodes belong to the arena
     if (auth_result != 0) {
         auth_context = NULL;
-        if (message_count == 1 && !is_ping_request) {
+        if (!is_batch_response && !is_ping_request) {
             // For non-ping requests, fail with authentication error
             mcp_log_warn("Authentication failed for incoming message.");
             *error_code = MCP_ERROR_INVALID_REQUEST; // Generic auth failure
@@ -208,11 +211,9 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
 
     char* final_response_str = NULL;
     dyn_buf_t response_batch_buf; // Use dynamic buffer for batch response array
-    bool is_batch_response = false;
     bool batch_buffer_initialized = false;
 
-    if (message_count > 1) {
-        is_batch_response = true;
+    if (is_batch_response) {
         if (dyn_buf_init(&response_batch_buf, 512) != 0) { // Initial capacity
             mcp_log_error("Failed to init batch response buffer.");
             *error_code = MCP_ERROR_INTERNAL_ERROR;
@@ -298,8 +299,17 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
             // No response generated for notifications.
         } else if (current_msg->type == MCP_MESSAGE_TYPE_RESPONSE) {
             // Server received a response - typically ignore.
-        } else {
-            // Invalid message type - skip
+        } else if (is_batch_response && batch_buffer_initialized) {
+            // Not a message: answer it with an error (its ID is unknown)
+            char* error_response = create_error_response(0, MCP_ERROR_INVALID_REQUEST, "Invalid request");
+            if (error_response) {
+                if (!first_response_in_batch) {
+                    dyn_buf_append(&response_batch_buf, ",");
+                }
+                dyn_buf_append(&response_batch_buf, error_response);
+                first_response_in_batch = false;
+                free(error_response);
+            }
         }
 
         // Reset arena for the next message in the batch (if any)
-- 
2.43.0


From bde9b902258eb35a99a5d3dde416fa7807dda113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:43 +0000
Subject: [PATCH 051/126] fix: the performance metrics methods were never
 recognised

---
 src/server/mcp_server_dispatch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index be87af7..f9f6f1e 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -452,10 +452,10 @@ char* handle_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_request
     else if (method_len == 23 && memcmp(method, "list_resource_templates", 23) == 0) {
         return handle_list_resource_templates_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 22 && memcmp(method, "get_performance_metrics", 22) == 0) {
+    else if (method_len == 23 && memcmp(method, "get_performance_metrics", 23) == 0) {
         return handle_get_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 24 && memcmp(method, "reset_performance_metrics", 24) == 0) {
+    else if (method_len == 25 && memcmp(method, "reset_performance_metrics", 25) == 0) {
         return handle_reset_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
     else {
-- 
2.43.0


From 92f9ddb3af55988fb33500ef197103dca3da5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:33 +0000
Subject: [PATCH 052/126] fix: contents of tools and resources were never
 released

Items returned by a handler are on the heap, but were handed to the content
pool, which does not take them; items from the cache went back to the pool
without their data being freed.
---
 src/server/mcp_server_handlers.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/server/mcp_server_handlers.c b/src/server/mcp_server_handlers.c
index 9c30fec..462dcb0 100644
--- a/src/server/mcp_server_handlers.c
+++ b/src/server/mcp_server_handlers.c
@@ -118,20 +118,21 @@ static char* create_json_result(const char* profile_name, uint64_t request_id, i
     return create_success_response(request_id, result_str);
 }
 
-// Helper function to clean up content items
-static void cleanup_content_items(mcp_server_t* server, mcp_content_item_t** content_items, size_t content_count) {
+// Helper function to clean up content items: those of the cache come from the pool, those of a handler from the heap
+static void cleanup_content_items(mcp_server_t* server, mcp_content_item_t** content_items, size_t content_count,
+                                  bool from_handler) {
     if (!content_items) return;
 
     for (size_t i = 0; i < content_count; i++) {
         if (content_items[i]) {
-            if (server && server->content_item_pool) {
-                mcp_object_pool_release(server->content_item_pool, content_items[i]);
+            if (!from_handler && server && server->content_item_pool) {
+                mcp_content_item_release_pooled(server->content_item_pool, content_items[i]);
             } else {
                 mcp_content_item_free(content_items[i]);
             }
         }
     }
-    mcp_safe_free(content_items, content_count * sizeof(mcp_content_item_t*));
+    free(content_items);
 }
 
 // Helper function to build content JSON from content items
@@ -439,6 +440,7 @@ char* handle_read_resource_request(mcp_server_t* server, mcp_arena_t* arena, con
         handler_status = handle_template_resource(server, uri, &content_items, &content_count, &fetched_from_handler);
         if (handler_status != MCP_ERROR_RESOURCE_NOT_FOUND) {
             if (handler_status != MCP_ERROR_NONE) {
+                cleanup_content_items(server, content_items, content_count, true);
                 mcp_json_destroy(params_json);
                 RETURN_ERROR(profile_name, handler_status, "Error processing template resource");
             }
@@ -446,7 +448,7 @@ char* handle_read_resource_request(mcp_server_t* server, mcp_arena_t* arena, con
             // Try resource handler
             handler_status = handle_resource_handler(server, uri, &content_items, &content_count, &fetched_from_handler);
             if (handler_status != MCP_ERROR_NONE) {
-                cleanup_content_items(server, content_items, content_count);
+                cleanup_content_items(server, content_items, content_count, true);
                 mcp_json_destroy(params_json);
                 RETURN_ERROR(profile_name, handler_status, "Resource handler failed or resource not found");
             }
@@ -472,13 +474,13 @@ char* handle_read_resource_request(mcp_server_t* server, mcp_arena_t* arena, con
     PROFILE_START("json_build");
     mcp_json_t* contents_json = mcp_json_array_create_with_capacity(content_count);
     if (!contents_json) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, fetched_from_handler);
         mcp_json_destroy(params_json);
         RETURN_ERROR(profile_name, MCP_ERROR_INTERNAL_ERROR, "Failed to create contents array");
     }
 
     bool json_build_error = build_content_json(contents_json, content_items, content_count, uri);
-    cleanup_content_items(server, content_items, content_count);
+    cleanup_content_items(server, content_items, content_count, fetched_from_handler);
 
     if (json_build_error) {
         mcp_json_destroy(contents_json);
@@ -708,7 +710,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
     }
 
     if (handler_status != MCP_ERROR_NONE) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, true);
         mcp_json_destroy(params_json);
         *error_code = handler_status;
         const char* msg = handler_error_message ? handler_error_message : "Tool handler failed or tool not found";
@@ -720,7 +722,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
 
     mcp_json_t* content_json = mcp_json_array_create();
     if (!content_json) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, true);
         free(handler_error_message);
         mcp_json_destroy(params_json);
         *error_code = MCP_ERROR_INTERNAL_ERROR;
@@ -730,7 +732,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
     }
 
     bool json_build_error = build_tool_content_json(content_json, content_items, content_count);
-    cleanup_content_items(server, content_items, content_count);
+    cleanup_content_items(server, content_items, content_count, true);
     free(handler_error_message);
 
     if (json_build_error) {
-- 
2.43.0


From 9bb925b557f48094003165863af2bbb588509256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:33 +0000
Subject: [PATCH 053/126] fix: reading a resource with several items freed its
 address twice

The items shared one JSON string for the address, whose reference was counted
only for the first of them. Give each item a string of its own.
---
 src/server/mcp_server_handlers.c | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/server/mcp_server_handlers.c b/src/server/mcp_server_handlers.c
index 462dcb0..c0bd264 100644
--- a/src/server/mcp_server_handlers.c
+++ b/src/server/mcp_server_handlers.c
@@ -139,11 +139,6 @@ static void cleanup_content_items(mcp_server_t* server, mcp_content_item_t** con
 static bool build_content_json(mcp_json_t* contents_json, mcp_content_item_t** content_items,
                               size_t content_count, const char* uri) {
     bool json_build_error = false;
-    mcp_json_t* uri_json_str = mcp_json_string_create(uri);
-
-    if (!uri_json_str) {
-        return true; // Error occurred
-    }
 
     for (size_t i = 0; i < content_count && !json_build_error; i++) {
         mcp_content_item_t* item = content_items[i];
@@ -155,17 +150,12 @@ static bool build_content_json(mcp_json_t* contents_json, mcp_content_item_t** c
             break;
         }
 
-        if (mcp_json_object_set_property(item_obj, "uri", uri_json_str) != 0) {
+        if (mcp_json_object_set_property(item_obj, "uri", mcp_json_string_create(uri)) != 0) {
             mcp_json_destroy(item_obj);
             json_build_error = true;
             break;
         }
 
-        // Only increment reference count after first use
-        if (i == 0) {
-            mcp_json_increment_ref_count(uri_json_str);
-        }
-
         if (item->mime_type &&
             mcp_json_object_set_property(item_obj, "mimeType", mcp_json_string_create(item->mime_type)) != 0) {
             mcp_json_destroy(item_obj);
@@ -187,7 +177,6 @@ static bool build_content_json(mcp_json_t* contents_json, mcp_content_item_t** c
         }
     }
 
-    mcp_json_destroy(uri_json_str);
     return json_build_error;
 }
 
-- 
2.43.0


From 4117d6b560ff337f1bb8363e4d32ab0958558e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:33 +0000
Subject: [PATCH 054/126] fix: a tool result with an empty slot crashed the
 server

---
 src/server/mcp_server_handlers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/mcp_server_handlers.c b/src/server/mcp_server_handlers.c
index c0bd264..fcc5897 100644
--- a/src/server/mcp_server_handlers.c
+++ b/src/server/mcp_server_handlers.c
@@ -602,6 +602,8 @@ static bool build_tool_content_json(mcp_json_t* content_json, mcp_content_item_t
 
     for (size_t i = 0; i < content_count; i++) {
         mcp_content_item_t* item = content_items[i];
+        if (!item) continue;
+
         mcp_json_t* item_obj = mcp_json_object_create();
         const char* type_str;
 
-- 
2.43.0


From 81da915caaa117a3be2a3ba990690f321ac81fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:33 +0000
Subject: [PATCH 055/126] fix: template routes were freed through a function of
 another type

---
 src/server/mcp_server.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 150c64f..c25c93e 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -51,6 +51,15 @@ static mcp_hashtable_t* create_string_hashtable(mcp_value_free_func_t value_free
     );
 }
 
+/**
+ * @brief Frees a template route stored in the template routes table
+ *
+ * @param route The route to free
+ */
+static void free_template_route(void* route) {
+    mcp_server_free_template_routes(NULL, route, NULL);
+}
+
 /**
  * @brief Safely destroys a hash table and sets the pointer to NULL
  *
@@ -421,7 +430,7 @@ mcp_server_t* mcp_server_create(const mcp_server_config_t* config, const mcp_ser
     }
 
     // Template Routes Table (Key: URI Template string, Value: template_route_t*)
-    server->template_routes_table = create_string_hashtable((mcp_value_free_func_t)mcp_server_free_template_routes);
+    server->template_routes_table = create_string_hashtable(free_template_route);
     if (server->template_routes_table == NULL) {
         mcp_log_error("Failed to create template routes hash table");
         goto create_error_cleanup;
@@ -710,9 +719,7 @@ int mcp_server_register_template_handler(mcp_server_t* server, const char* templ
 
     // Create the template routes table if it doesn't exist
     if (server->template_routes_table == NULL) {
-        server->template_routes_table = create_string_hashtable(
-            (mcp_value_free_func_t)mcp_server_free_template_routes
-        );
+        server->template_routes_table = create_string_hashtable(free_template_route);
 
         if (server->template_routes_table == NULL) {
             return -1;
-- 
2.43.0


From d6837f6d6e09f3c4a79f4900a8107f4b6ecd3ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:33 +0000
Subject: [PATCH 056/126] fix: destroying a server freed cached items into a
 pool already destroyed

---
 src/server/mcp_server.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index c25c93e..06026c4 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -131,9 +131,6 @@ static int add_to_hashtable(
 static void cleanup_server_resources(mcp_server_t* server) {
     if (!server) return;
 
-    // Clean up object pool
-    safe_destroy_resource((void**)&server->content_item_pool, (void(*)(void*))mcp_object_pool_destroy);
-
     // Clean up hash tables
     safe_destroy_hashtable(&server->tools_table);
     safe_destroy_hashtable(&server->template_routes_table);
@@ -148,8 +145,9 @@ static void cleanup_server_resources(mcp_server_t* server) {
     safe_destroy_resource((void**)&server->advanced_rate_limiter, (void(*)(void*))mcp_advanced_rate_limiter_destroy);
     safe_destroy_resource((void**)&server->rate_limiter, (void(*)(void*))mcp_rate_limiter_destroy);
 
-    // Clean up resource cache
+    // Clean up resource cache, then the object pool its items come from
     safe_destroy_resource((void**)&server->resource_cache, (void(*)(void*))mcp_cache_destroy);
+    safe_destroy_resource((void**)&server->content_item_pool, (void(*)(void*))mcp_object_pool_destroy);
 
     // Clean up thread pool
     safe_destroy_resource((void**)&server->thread_pool, (void(*)(void*))mcp_thread_pool_destroy);
-- 
2.43.0


From 39e927bb8f81fdfa1304f3a8654f34e9ee6b5cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:17 +0000
Subject: [PATCH 057/126] fix: cached content without a MIME type came back
 with an empty one

---
 src/server/mcp_cache.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 8a63bc5..79335ef 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -355,14 +355,11 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
                     break;
                 }
 
-                // Validate mime_type before passing to acquire_pooled
-                const char* mime_type = entry->content[i]->mime_type ? entry->content[i]->mime_type : "";
-
                 // Acquire a pooled item and copy data into it
                 content_copy_ptrs[i] = mcp_content_item_acquire_pooled(
                     pool,
                     entry->content[i]->type,
-                    mime_type,
+                    entry->content[i]->mime_type,
                     entry->content[i]->data,
                     entry->content[i]->data_size
                 );
@@ -509,14 +506,11 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     // Acquire pooled items and copy content into them
     bool copy_error = false;
     for (size_t i = 0; i < content_count; ++i) {
-        // Validate mime_type before passing to acquire_pooled
-        const char* mime_type = content[i]->mime_type ? content[i]->mime_type : "";
-
         // Acquire a pooled item and copy data into it
         entry->content[i] = mcp_content_item_acquire_pooled(
             pool,
             content[i]->type,
-            mime_type,
+            content[i]->mime_type,
             content[i]->data,
             content[i]->data_size
         );
-- 
2.43.0


From f6f3e274045847a113b3a818262367463d44f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:24 +0000
Subject: [PATCH 058/126] fix: content of a failed pre-warming was never
 released

A handler may return content together with an error; the pre-warming loop
released it only after success.
---
 src/server/mcp_server.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 06026c4..3aadf9d 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -536,18 +536,19 @@ int mcp_server_start(mcp_server_t* server, mcp_transport_t* transport) {
                     mcp_log_debug("Successfully pre-warmed and cached resource: %s", uri);
                 }
 
-                // Free the content returned by the handler (cache made copies)
-                if (content) {
-                    for (size_t j = 0; j < content_count; ++j) {
-                        mcp_content_item_free(content[j]);
-                    }
-                    free(content);
-                }
             } else {
                 mcp_log_warn("Failed to pre-warm resource '%s': Handler error %d (%s)",
                              uri, handler_err, error_message ? error_message : "N/A");
             }
 
+            // Free the content returned by the handler (cache made copies)
+            if (content) {
+                for (size_t j = 0; j < content_count; ++j) {
+                    mcp_content_item_free(content[j]);
+                }
+                free(content);
+            }
+
             free(error_message);
             mcp_arena_reset(&prewarm_arena);
         }
-- 
2.43.0


From 184e9f58e3ab3debf7eed3e2f77eaebd42f8a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:01 +0000
Subject: [PATCH 059/126] fix: pre-warming ignored template handlers

A pre-warmed address that a template matches was cached with the content of
the general resource handler, and reading it never reached the template's.
---
 src/server/mcp_server.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 3aadf9d..64703e7 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -509,15 +509,20 @@ int mcp_server_start(mcp_server_t* server, mcp_transport_t* transport) {
             char* error_message = NULL;
             mcp_error_code_t handler_err = MCP_ERROR_INTERNAL_ERROR; // Default error
 
-            // Call the resource handler
-            handler_err = server->resource_handler(
-                server,
-                uri,
-                server->resource_handler_user_data,
-                &content,
-                &content_count,
-                &error_message
-            );
+            // Call the handler a read request would be given to: a matching template's first
+            handler_err = mcp_server_handle_template_resource(server, uri, &content, &content_count, &error_message);
+            if (handler_err == MCP_ERROR_RESOURCE_NOT_FOUND && content == NULL) {
+                free(error_message);
+                error_message = NULL;
+                handler_err = server->resource_handler(
+                    server,
+                    uri,
+                    server->resource_handler_user_data,
+                    &content,
+                    &content_count,
+                    &error_message
+                );
+            }
 
             if (handler_err == MCP_ERROR_NONE) {
                 // Put the fetched content into the cache with infinite TTL (-1)
-- 
2.43.0


From e82535e5bfd333d8e4e8a7436d0ddfe82cbc1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:31 +0000
Subject: [PATCH 060/126] fix: the gateway read request parameters as the wrong
 type

Routing expects parsed parameters, but was given their JSON text and used it
as a parsed value, so requests were never routed. Parse them for routing.
---
 src/server/mcp_server_dispatch.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index f9f6f1e..e66b4f1 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -398,7 +398,12 @@ char* handle_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_request
     // Only attempt routing if gateway mode is enabled and backends are configured
     if (server->is_gateway_mode && server->backends != NULL && server->backend_count > 0) {
         // Check if this request should be routed to a backend
-        const mcp_backend_info_t* target_backend = find_backend_for_request(request, server->backends, server->backend_count);
+        // The routing rules look into the parsed parameters; the request carries them as text
+        mcp_request_t routed_request = *request;
+        mcp_json_t* routed_params = request->params ? mcp_json_parse((const char*)request->params) : NULL;
+        routed_request.params = routed_params;
+        const mcp_backend_info_t* target_backend = find_backend_for_request(&routed_request, server->backends, server->backend_count);
+        mcp_json_destroy(routed_params);
 
         if (target_backend) {
             // Found a backend to route to. Call the forwarding function.
-- 
2.43.0


From 88a8d357ff34470c54ed1355f7ebdc44dc24e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:31 +0000
Subject: [PATCH 061/126] fix: the gateway answered with a bare result

A forwarded request was answered with the backend's result alone, without
the request's identifier or any of the envelope of a response.
---
 src/gateway/mcp_gateway_routing.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gateway/mcp_gateway_routing.c b/src/gateway/mcp_gateway_routing.c
index 29fe832..37b6e47 100644
--- a/src/gateway/mcp_gateway_routing.c
+++ b/src/gateway/mcp_gateway_routing.c
@@ -187,9 +187,13 @@ char* gateway_forward_request(
             mcp_log_debug("Successfully received response from backend '%s' for request ID %llu.",
                           target_backend->name, (unsigned long long)request->id);
 
+            // The client hands over only the result, answer the request with it
+            char* response = mcp_json_create_response(request->id, backend_response_json);
+
             // Clean up and return success
+            free(backend_response_json);
             free(backend_error_message);
-            return backend_response_json;
+            return response;
         }
     } else {
         // Communication failed
-- 
2.43.0


From b24707e3168529fe1d0133385bb632d064479e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:31 +0000
Subject: [PATCH 062/126] fix: loading a gateway configuration leaked it

The parsed configuration was never destroyed, and an error in a backend left
what had been read of that backend behind.
---
 src/gateway/mcp_gateway_config.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/gateway/mcp_gateway_config.c b/src/gateway/mcp_gateway_config.c
index b4ad812..993fe07 100644
--- a/src/gateway/mcp_gateway_config.c
+++ b/src/gateway/mcp_gateway_config.c
@@ -276,7 +276,7 @@ mcp_error_code_t load_gateway_config(
 
     if (mcp_json_get_type(root_json) != MCP_JSON_ARRAY) {
         mcp_log_error("Gateway config: Root element must be an array: %s", config_path);
-        // mcp_json_destroy(root_json); // Assuming arena cleanup handles this
+        mcp_json_destroy(root_json);
         return MCP_ERROR_PARSE_ERROR;
     }
 
@@ -284,7 +284,7 @@ mcp_error_code_t load_gateway_config(
     size_t num_backends_in_json = mcp_json_array_get_size(root_json);
     if (num_backends_in_json == 0) {
         mcp_log_info("Gateway config file contains an empty array. No backends loaded.");
-        // mcp_json_destroy(root_json);
+        mcp_json_destroy(root_json);
         return MCP_ERROR_NONE; // Valid empty config
     }
 
@@ -293,7 +293,7 @@ mcp_error_code_t load_gateway_config(
     temp_list = (mcp_backend_info_t*)malloc(backend_capacity * sizeof(mcp_backend_info_t));
     if (!temp_list) {
         mcp_log_error("Gateway config: Failed to allocate temporary backend list.");
-        // mcp_json_destroy(root_json);
+        mcp_json_destroy(root_json);
         return MCP_ERROR_INTERNAL_ERROR;
     }
     memset(temp_list, 0, backend_capacity * sizeof(mcp_backend_info_t)); // Zero initialize
@@ -393,12 +393,15 @@ mcp_error_code_t load_gateway_config(
     // 4. Success - Assign results
     *out_backend_list = temp_list;
     *out_backend_count = backend_count;
-    // mcp_json_destroy(root_json); // Assuming arena cleanup
+    mcp_json_destroy(root_json);
     return MCP_ERROR_NONE;
 
 cleanup_error:
     // Free partially populated temp list
+    if (backend_count < backend_capacity) {
+        mcp_backend_info_free(&temp_list[backend_count]); // The backend being parsed
+    }
     mcp_free_backend_list(temp_list, backend_count); // Frees structs up to backend_count
-    // mcp_json_destroy(root_json); // Assuming arena cleanup
+    mcp_json_destroy(root_json);
     return err;
 }
-- 
2.43.0


From 38e86482ae90371b8e89711a8701763fe94cf98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:42 +0000
Subject: [PATCH 063/126] fix: a role list added to a template that had an
 entry was ignored

Lookups stop at the first entry of a template, so a list added after a
validator, or after another list, never took effect. Replace the entry.
---
 src/server/mcp_template_security.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/server/mcp_template_security.c b/src/server/mcp_template_security.c
index 152232a..ac00083 100644
--- a/src/server/mcp_template_security.c
+++ b/src/server/mcp_template_security.c
@@ -146,6 +146,18 @@ int mcp_template_security_add_acl(
         }
     }
 
+    // Replace the entry of the same template, keeping its validator
+    for (size_t i = 0; i < security->entries_count; i++) {
+        template_acl_entry_t* existing = security->entries[i];
+        if (strcmp(existing->template_uri, template_uri) == 0) {
+            entry->validator = existing->validator;
+            entry->validator_data = existing->validator_data;
+            security->entries[i] = entry;
+            template_acl_entry_free(existing);
+            return 0;
+        }
+    }
+
     // Add the entry to the security context
     security->entries[security->entries_count++] = entry;
 
-- 
2.43.0


From e4cb4d3a18c73844f9578488629a65d0e3baea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:38 +0000
Subject: [PATCH 064/126] fix: a thread-safe list looked at its ends before
 taking its lock

---
 src/common/mcp_list.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/common/mcp_list.c b/src/common/mcp_list.c
index b99b101..42bea4b 100644
--- a/src/common/mcp_list.c
+++ b/src/common/mcp_list.c
@@ -287,12 +287,16 @@ void* mcp_list_remove(mcp_list_t* list, mcp_list_node_t* node, void (*free_data)
 }
 
 void* mcp_list_pop_front(mcp_list_t* list) {
-    if (!list || !list->head) return NULL;
+    if (!list) return NULL;
 
     // Lock
     MCP_LIST_LOCK(list);
 
     mcp_list_node_t* node = list->head;
+    if (!node) {
+        MCP_LIST_UNLOCK(list);
+        return NULL;
+    }
     void* data = node->data;
 
     list->head = node->next;
@@ -316,12 +320,16 @@ void* mcp_list_pop_front(mcp_list_t* list) {
 }
 
 void* mcp_list_pop_back(mcp_list_t* list) {
-    if (!list || !list->tail) return NULL;
+    if (!list) return NULL;
 
     // Lock
     MCP_LIST_LOCK(list);
 
     mcp_list_node_t* node = list->tail;
+    if (!node) {
+        MCP_LIST_UNLOCK(list);
+        return NULL;
+    }
     void* data = node->data;
 
     list->tail = node->prev;
@@ -345,11 +353,17 @@ void* mcp_list_pop_back(mcp_list_t* list) {
 }
 
 void mcp_list_move_to_front(mcp_list_t* list, mcp_list_node_t* node) {
-    if (!list || !node || node == list->head) return;
+    if (!list || !node) return;
 
     // Lock
     MCP_LIST_LOCK(list);
 
+    // Nothing to do if the node is already at the front
+    if (node == list->head) {
+        MCP_LIST_UNLOCK(list);
+        return;
+    }
+
     // Remove node from its current position
     if (node->prev) {
         node->prev->next = node->next;
-- 
2.43.0


From fef9fa05edcbcc4f301364f100178502b553fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:38 +0000
Subject: [PATCH 065/126] fix: insertion after the tail of a thread-safe list
 could end up elsewhere

---
 src/common/mcp_list.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_list.c b/src/common/mcp_list.c
index 42bea4b..fa40453 100644
--- a/src/common/mcp_list.c
+++ b/src/common/mcp_list.c
@@ -508,13 +508,6 @@ mcp_list_node_t* mcp_list_insert_after(mcp_list_t* list, mcp_list_node_t* pos, v
     // Lock
     MCP_LIST_LOCK(list);
 
-    // If position is the tail node, insert at the back
-    if (pos == list->tail) {
-        // Unlock
-        MCP_LIST_UNLOCK(list);
-        return mcp_list_push_back(list, data);
-    }
-
     // Allocate new node
     mcp_list_node_t* node = mcp_list_node_alloc();
     if (!node) {
@@ -532,6 +525,9 @@ mcp_list_node_t* mcp_list_insert_after(mcp_list_t* list, mcp_list_node_t* pos, v
     // Update adjacent nodes
     if (pos->next) {
         pos->next->prev = node;
+    } else {
+        // Position was the tail
+        list->tail = node;
     }
     pos->next = node;
 
-- 
2.43.0


From 64a4db4b5dd5ef6f598a44c6dd1d38adf6497b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:55 +0000
Subject: [PATCH 066/126] fix: client responses were dropped on threads without
 an arena

---
 src/client/mcp_client_core.c    | 7 +++++++
 src/client/mcp_client_request.c | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/client/mcp_client_core.c b/src/client/mcp_client_core.c
index 3ce831b..dffd92e 100644
--- a/src/client/mcp_client_core.c
+++ b/src/client/mcp_client_core.c
@@ -300,6 +300,13 @@ char* mcp_client_receive_callback(void* user_data, const void* data, size_t size
         mcp_log_debug("Parsing response JSON: %s", response_json);
     }
 
+    // Parsing needs a thread-local arena, which not every transport sets up for its receive thread
+    if (mcp_arena_get_current() == NULL && mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE) != 0) {
+        mcp_log_error("Failed to initialize thread-local arena");
+        *error_code = MCP_ERROR_INTERNAL_ERROR;
+        return NULL;
+    }
+
     // Parse the response
     int parse_result = mcp_json_parse_response(response_json, &id, &resp_error_code,
                                               &resp_error_message, &resp_result);
diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index cbbe50c..ab3bf42 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -181,6 +181,11 @@ int mcp_client_send_and_wait(
             char* response_error_message = NULL;
             char* response_result = NULL;
 
+            // Parsing needs a thread-local arena, which the calling thread may not have yet
+            if (mcp_arena_get_current() == NULL) {
+                mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE);
+            }
+
             // Parse the JSON response
             int parse_result = mcp_json_parse_response(
                 response_data,
-- 
2.43.0


From 1384bf828dbad6d708e7ba686642bcb297f9fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:14 +0000
Subject: [PATCH 067/126] fix: client calls that timed out were reported as
 internal errors

---
 src/client/mcp_client_request.c | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index ab3bf42..7ab90e6 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -285,28 +285,15 @@ int mcp_client_send_and_wait(
             );
         }
 
-        // Handle timeout and other wait errors with platform-specific code
-#ifdef ETIMEDOUT
-        // POSIX systems
-        if (wait_result == ETIMEDOUT) {
+        // A response may have arrived between the timeout and this thread getting the lock back
+        if (wait_result == -2 && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
             mcp_log_error("Request %llu timed out after %d ms",
                          (unsigned long long)request_id, client->config.request_timeout_ms);
             req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-        } else if (wait_result != 0) {
-            mcp_log_error("Wait failed for request %llu with code: %d (%s)",
-                         (unsigned long long)request_id, wait_result, strerror(wait_result));
-        }
-#else
-        // Windows and other systems
-        if (wait_result == 1) { // Windows timeout code
-            mcp_log_error("Request %llu timed out after %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-            req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-        } else if (wait_result != 0) {
+        } else if (wait_result != 0 && wait_result != -2) {
             mcp_log_error("Wait failed for request %llu with code: %d",
                          (unsigned long long)request_id, wait_result);
         }
-#endif
     } else if (req_entry_wrapper) {
         // Request found but not in waiting state
         mcp_log_debug("Request %llu found but not in waiting state (status: %d)",
-- 
2.43.0


From fa5c9c0aedb93e16f7ebe78cdfc3705033941c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:14 +0000
Subject: [PATCH 068/126] fix: a waiting client call kept using its entry after
 the table was resized

---
 src/client/mcp_client_request.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index 7ab90e6..c8ce003 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -263,6 +263,8 @@ int mcp_client_send_and_wait(
 
     // Process the request if found and still waiting
     if (req_entry_wrapper && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
+        mcp_cond_t* cv = req_entry_wrapper->request.cv;
+
         // Wait for the response with appropriate timeout handling
         if (client->config.request_timeout_ms > 0) {
             // Use timed wait with the configured timeout
@@ -270,7 +272,7 @@ int mcp_client_send_and_wait(
                          (unsigned long long)request_id, client->config.request_timeout_ms);
 
             wait_result = mcp_cond_timedwait(
-                req_entry_wrapper->request.cv,
+                cv,
                 client->pending_requests_mutex,
                 client->config.request_timeout_ms
             );
@@ -280,13 +282,16 @@ int mcp_client_send_and_wait(
                          (unsigned long long)request_id);
 
             wait_result = mcp_cond_wait(
-                req_entry_wrapper->request.cv,
+                cv,
                 client->pending_requests_mutex
             );
         }
 
+        // The table may have been resized during the wait, so look the entry up again
+        req_entry_wrapper = mcp_client_find_pending_request_entry(client, request_id, false);
+
         // A response may have arrived between the timeout and this thread getting the lock back
-        if (wait_result == -2 && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
+        if (wait_result == -2 && req_entry_wrapper && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
             mcp_log_error("Request %llu timed out after %d ms",
                          (unsigned long long)request_id, client->config.request_timeout_ms);
             req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-- 
2.43.0


From af1c14bda8017f19fed91478c9fc56373269d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:30 +0000
Subject: [PATCH 069/126] fix: a spurious wake-up ended a client call before
 its response

---
 src/client/mcp_client_request.c | 49 +++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index c8ce003..6ae6939 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -3,6 +3,7 @@
 #include <mcp_json_rpc.h>
 #include <mcp_string_utils.h>
 #include "mcp_socket_utils.h"
+#include <mcp_sys_utils.h>
 #include <mcp_memory_pool.h>
 #include <mcp_thread_cache.h>
 #include <mcp_arena.h>
@@ -266,29 +267,37 @@ int mcp_client_send_and_wait(
         mcp_cond_t* cv = req_entry_wrapper->request.cv;
 
         // Wait for the response with appropriate timeout handling
-        if (client->config.request_timeout_ms > 0) {
-            // Use timed wait with the configured timeout
-            mcp_log_debug("Waiting for response to request %llu with timeout %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
+        const long long wait_start = mcp_get_time_ms();
+        do {
+            if (client->config.request_timeout_ms > 0) {
+                // Use timed wait with what is left of the configured timeout
+                mcp_log_debug("Waiting for response to request %llu with timeout %d ms",
+                             (unsigned long long)request_id, client->config.request_timeout_ms);
+
+                const long long elapsed = mcp_time_elapsed_ms(wait_start, mcp_get_time_ms());
+                wait_result = mcp_cond_timedwait(
+                    cv,
+                    client->pending_requests_mutex,
+                    elapsed < (long long)client->config.request_timeout_ms ?
+                        client->config.request_timeout_ms - (uint32_t)elapsed : 0
+                );
+            } else {
+                // Wait indefinitely
+                mcp_log_debug("Waiting indefinitely for response to request %llu",
+                             (unsigned long long)request_id);
 
-            wait_result = mcp_cond_timedwait(
-                cv,
-                client->pending_requests_mutex,
-                client->config.request_timeout_ms
-            );
-        } else {
-            // Wait indefinitely
-            mcp_log_debug("Waiting indefinitely for response to request %llu",
-                         (unsigned long long)request_id);
+                wait_result = mcp_cond_wait(
+                    cv,
+                    client->pending_requests_mutex
+                );
+            }
 
-            wait_result = mcp_cond_wait(
-                cv,
-                client->pending_requests_mutex
-            );
-        }
+            // The table may have been resized during the wait, so look the entry up again
+            req_entry_wrapper = mcp_client_find_pending_request_entry(client, request_id, false);
 
-        // The table may have been resized during the wait, so look the entry up again
-        req_entry_wrapper = mcp_client_find_pending_request_entry(client, request_id, false);
+            // Go on waiting after a spurious wake-up
+        } while (wait_result == 0 && req_entry_wrapper &&
+                 req_entry_wrapper->request.status == PENDING_REQUEST_WAITING);
 
         // A response may have arrived between the timeout and this thread getting the lock back
         if (wait_result == -2 && req_entry_wrapper && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
-- 
2.43.0


From 05d815e5804bbb1c2cba5c40c02274eb479fbc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:13 +0000
Subject: [PATCH 070/126] fix: the identifier of a finished client request
 could not be used again

---
 src/client/mcp_client_hash_table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/mcp_client_hash_table.c b/src/client/mcp_client_hash_table.c
index 9033d32..98134df 100644
--- a/src/client/mcp_client_hash_table.c
+++ b/src/client/mcp_client_hash_table.c
@@ -202,7 +202,8 @@ int mcp_client_add_pending_request_entry(
     }
 
     // Check for duplicate ID (should never happen with proper ID generation)
-    if (entry->id == id) {
+    // The slot of an earlier request with this ID can be used again
+    if (entry->id == id && entry->request.status != PENDING_REQUEST_INVALID) {
         mcp_log_error("Duplicate request ID found in hash table: %llu",
                      (unsigned long long)id);
         return -1;
-- 
2.43.0


From 32bca82ab00822ac2326e4d38884a20f8d6e44be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:06 +0000
Subject: [PATCH 071/126] fix: count every request exactly once while the
 server shuts down

The shutting-down flag was checked before the request was counted, so a
request could start after mcp_server_stop() had seen no active ones. The
last request never signalled the waiting server on POSIX, because the
previous value of the counter was compared with zero, and messages refused
for their size stayed counted for ever.
---
 src/server/mcp_server.c      |  2 +
 src/server/mcp_server_task.c | 74 +++++++++++++++++++-----------------
 2 files changed, 42 insertions(+), 34 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 64703e7..34abcd3 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -591,7 +591,9 @@ int mcp_server_stop(mcp_server_t* server) {
 
     // Signal threads to stop
     server->running = false;
+    mcp_mutex_lock(server->shutdown_mutex);
     server->shutting_down = true;
+    mcp_mutex_unlock(server->shutdown_mutex);
 
     // Stop the transport if it exists
     if (server->transport != NULL) {
diff --git a/src/server/mcp_server_task.c b/src/server/mcp_server_task.c
index bfe1fd7..a802e4e 100644
--- a/src/server/mcp_server_task.c
+++ b/src/server/mcp_server_task.c
@@ -123,6 +123,36 @@ void process_message_task(void* arg) {
     PROFILE_END("process_message_task");
 }
 
+/**
+ * @brief Counts a new request as active, unless the server is shutting down
+ *
+ * @return true if the request may be processed, false if it must be rejected
+ */
+static bool begin_request(mcp_server_t* server) {
+    bool accepted = false;
+
+    if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
+        if (!server->shutting_down) {
+            server->active_requests++;
+            accepted = true;
+        }
+        mcp_mutex_unlock(server->shutdown_mutex);
+    }
+
+    return accepted;
+}
+
+/**
+ * @brief Ends a request counted by begin_request and wakes up a server waiting for the last one
+ */
+static void end_request(mcp_server_t* server) {
+    mcp_mutex_lock(server->shutdown_mutex);
+    if (--server->active_requests == 0 && server->shutting_down) {
+        mcp_cond_signal(server->shutdown_cond);
+    }
+    mcp_mutex_unlock(server->shutdown_mutex);
+}
+
 /**
  * @brief Callback for processing incoming transport messages
  * 
@@ -148,20 +178,14 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     mcp_server_t* server = (mcp_server_t*)user_data;
     *error_code = MCP_ERROR_NONE;
 
-    // Check if server is shutting down
-    if (server->shutting_down) {
+    // Count this request as active unless the server is shutting down
+    if (!begin_request(server)) {
         mcp_log_warn("Server is shutting down, rejecting new request");
         *error_code = MCP_ERROR_SERVER_SHUTTING_DOWN;
+        PROFILE_END("transport_message_callback");
         return NULL;
     }
 
-    // Increment active request counter
-#ifdef _WIN32
-    InterlockedIncrement((LONG*)&server->active_requests);
-#else
-    __sync_fetch_and_add(&server->active_requests, 1);
-#endif
-
     // --- Rate Limiting Check ---
     // Get client IP address from transport (or use default if not available)
     const char* client_ip = mcp_transport_get_client_ip(server->transport);
@@ -181,11 +205,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
                 // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
+                end_request(server);
 
                 PROFILE_END("transport_message_callback");
                 return NULL;
@@ -198,11 +218,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
                 // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
+                end_request(server);
 
                 PROFILE_END("transport_message_callback");
                 return NULL;
@@ -217,6 +233,8 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (size > max_size) {
         mcp_log_error("Received message size (%zu) exceeds limit (%zu)", size, max_size);
         *error_code = MCP_ERROR_INVALID_REQUEST;
+        end_request(server);
+        PROFILE_END("transport_message_callback");
         return NULL;
     }
 
@@ -244,6 +262,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (!message_copy) {
         mcp_log_error("Failed to allocate memory for message copy");
         *error_code = MCP_ERROR_INTERNAL_ERROR;
+        end_request(server);
         PROFILE_END("transport_message_callback");
         return NULL;
     }
@@ -283,21 +302,8 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
         mcp_log_error("Failed to process message (error code: %d), no response generated", handler_error_code);
     }
 
-    // Decrement active request counter
-#ifdef _WIN32
-    LONG prev_count = InterlockedDecrement((LONG*)&server->active_requests);
-#else
-    int prev_count = __sync_fetch_and_sub(&server->active_requests, 1);
-#endif
-
-    // If active_requests reached zero and server is shutting down, signal the condition variable
-    if (prev_count == 0 && server->shutting_down) {
-        if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
-            mcp_cond_signal(server->shutdown_cond);
-            mcp_mutex_unlock(server->shutdown_mutex);
-            mcp_log_info("Last request completed, signaling shutdown condition");
-        }
-    }
+    // Decrement active request counter; the server may be gone after this
+    end_request(server);
 
     PROFILE_END("transport_message_callback");
     return result; // Return the response or NULL
-- 
2.43.0


From a0feb91be0757049b3d031f4a5960e7205da5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:07 +0000
Subject: [PATCH 072/126] fix: wait for the last request when the server stops

A single timed wait, entered after an unlocked look at the counter, could
miss the signal or end early on a spurious wake-up.
---
 src/server/mcp_server.c | 65 ++++++++++++++---------------------------
 1 file changed, 22 insertions(+), 43 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 34abcd3..dded956 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -17,6 +17,7 @@
 #include "mcp_object_pool.h"
 #include "mcp_memory_pool.h"
 #include "mcp_thread_cache.h"
+#include "mcp_sys_utils.h"
 
 /**
  * @brief Default size for the content item object pool
@@ -606,52 +607,30 @@ int mcp_server_stop(mcp_server_t* server) {
         mcp_log_info("Graceful shutdown initiated, waiting for %d active requests to complete...",
                      server->active_requests);
 
-        // Wait for active requests to complete or timeout
-        if (server->active_requests > 0) {
-            uint32_t timeout_ms = server->config.graceful_shutdown_timeout_ms > 0 ?
-                                server->config.graceful_shutdown_timeout_ms : 1000; // Default 1 second
-
-            // Lock mutex and wait on condition variable
-            if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
-                bool timed_out = false;
-
-                #ifdef _WIN32
-                // Calculate absolute timeout time for Windows
-                DWORD start_time = GetTickCount();
-                DWORD end_time = start_time + timeout_ms;
-
-                // Wait for active requests to complete or timeout
-                while (server->active_requests > 0 && !timed_out) {
-                    // Wait in small increments to check for timeout
-                    int wait_result = mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, 100);
-                    if (wait_result == -2) { // -2 indicates timeout of the wait call
-                        DWORD current_time = GetTickCount();
-                        if (current_time >= end_time) {
-                            timed_out = true;
-                        }
-                    }
-                }
-                #else
-                // On POSIX, we can use a single timed wait with the full timeout
-                int wait_result = mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, timeout_ms);
-                if (wait_result == -2) {
-                    // -2 indicates timeout
-                    timed_out = true;
-                }
-                #endif
+        uint32_t timeout_ms = server->config.graceful_shutdown_timeout_ms > 0 ?
+                            server->config.graceful_shutdown_timeout_ms : 1000; // Default 1 second
 
-                mcp_mutex_unlock(server->shutdown_mutex);
+        // The last request signals while holding the mutex, so the count is only trusted under it
+        if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
+            long long deadline = mcp_get_time_ms() + timeout_ms;
+            long long remaining = timeout_ms;
 
-                // Log the shutdown result
-                if (timed_out) {
-                    mcp_log_warn("Graceful shutdown timed out after %u ms with %d requests still active",
-                                 timeout_ms, server->active_requests);
-                } else {
-                    mcp_log_info("All requests completed, proceeding with shutdown");
-                }
+            // Wait for active requests to complete or timeout
+            while (server->active_requests > 0 && remaining > 0) {
+                mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, (uint32_t)remaining);
+                remaining = deadline - mcp_get_time_ms();
+            }
+            int still_active = server->active_requests;
+
+            mcp_mutex_unlock(server->shutdown_mutex);
+
+            // Log the shutdown result
+            if (still_active > 0) {
+                mcp_log_warn("Graceful shutdown timed out after %u ms with %d requests still active",
+                             timeout_ms, still_active);
+            } else {
+                mcp_log_info("All requests completed, proceeding with shutdown");
             }
-        } else {
-            mcp_log_info("No active requests, proceeding with shutdown");
         }
     }
 
-- 
2.43.0


From 8402e28698bd1c6c3f4dc9242d42edf0c2ffbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:56 +0000
Subject: [PATCH 073/126] fix: release string keys of hash tables the way they
 were allocated

mcp_pool_free() looks at the bytes before the block, which lie outside a
key copied with malloc().
---
 src/common/mcp_hashtable.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_hashtable.c b/src/common/mcp_hashtable.c
index 7b07b4f..25a7664 100644
--- a/src/common/mcp_hashtable.c
+++ b/src/common/mcp_hashtable.c
@@ -515,13 +515,8 @@ void* mcp_hashtable_string_dup(const void* key) {
 
 // String free function
 void mcp_hashtable_string_free(void* key) {
-    if (!key) return;
-
-    if (mcp_memory_pool_system_is_initialized()) {
-        mcp_pool_free(key);
-    } else {
-        free(key);
-    }
+    // mcp_hashtable_string_dup allocates with malloc, never from the pools
+    free(key);
 }
 
 // Integer hash function
-- 
2.43.0


From 2da1e1980d4f4079972e2205370dca1a26d7a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:10 +0000
Subject: [PATCH 074/126] fix: give every MQTT client a session file of its own

The buffer for the path was one byte too short, so the last character of
the client identifier was cut off, and characters that are not valid in a
file name were all replaced by the same one. Different clients overwrote
and deleted each other's sessions.
---
 src/transport/mqtt_session_persistence.c | 89 ++++++++++--------------
 1 file changed, 37 insertions(+), 52 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index a30b373..8fb5bc3 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -29,8 +29,8 @@
 #define MQTT_SESSION_MAGIC 0x4D435053  // "MCPS"
 
 // Internal helper functions that assume lock is already held
-static bool mqtt_session_is_expired_internal(const char* client_id);
-static int mqtt_session_delete_internal(const char* client_id);
+static bool mqtt_session_is_expired_internal(const char* path);
+static int mqtt_session_delete_internal(const char* path);
 
 static char* g_storage_path = NULL;
 static mcp_mutex_t* g_session_mutex = NULL;
@@ -118,38 +118,37 @@ int mqtt_session_persistence_init(const char* storage_path) {
     return 0;
 }
 
-static char* get_session_path(const char* client_id) {
+static char* get_session_file(const char* prefix, const char* client_id) {
     if (!g_storage_path || !client_id) {
         return NULL;
     }
 
-    // Create a safe filename from client_id
-    char* safe_id = mcp_strdup(client_id);
-    if (!safe_id) {
-        return NULL;
-    }
-
-    // Replace invalid filename characters
-    for (char* p = safe_id; *p; ++p) {
-        if (*p == '\\' || *p == '/' || *p == ':' || *p == '*' || 
-            *p == '?' || *p == '"' || *p == '<' || *p == '>' || *p == '|') {
-            *p = '_';
-        }
-    }
-
-    // Allocate path buffer
-    size_t path_len = strlen(g_storage_path) + strlen(safe_id) + 6; // +6 for "/.mcp_"
+    // Characters that are not valid in file names are written as %XX, which takes three characters
+    size_t path_len = strlen(g_storage_path) + 1 + strlen(prefix) + 3 * strlen(client_id) + 1;
     char* path = (char*)malloc(path_len);
     if (!path) {
-        free(safe_id);
         return NULL;
     }
 
-    snprintf(path, path_len, "%s/.mcp_%s", g_storage_path, safe_id);
-    free(safe_id);
+    int used = snprintf(path, path_len, "%s/%s", g_storage_path, prefix);
+    char* out = path + used;
+
+    // Two different client IDs never give the same name, so '%' itself is escaped as well
+    for (const char* p = client_id; *p; ++p) {
+        if (strchr("\\/:*?\"<>|%", *p)) {
+            out += snprintf(out, 4, "%%%02X", (unsigned char)*p);
+        } else {
+            *out++ = *p;
+        }
+    }
+    *out = '\0';
     return path;
 }
 
+static char* get_session_path(const char* client_id) {
+    return get_session_file(".mcp_", client_id);
+}
+
 int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
     if (!client_id || !session) {
         return -1;
@@ -855,9 +854,11 @@ int mqtt_session_cleanup_expired(void) {
                 const char* filename = find_data.cFileName;
                 if (strncmp(filename, ".mcp_", 5) == 0) {
                     const char* client_id = filename + 5;
+                    char path[512];
+                    snprintf(path, sizeof(path), "%s/%s", g_storage_path, filename);
 
-                    if (mqtt_session_is_expired_internal(client_id)) {
-                        if (mqtt_session_delete_internal(client_id) == 0) {
+                    if (mqtt_session_is_expired_internal(path)) {
+                        if (mqtt_session_delete_internal(path) == 0) {
                             cleaned_count++;
                             mcp_log_info("Cleaned expired session for client: %s", client_id);
                         }
@@ -877,12 +878,20 @@ int mqtt_session_cleanup_expired(void) {
             if (strncmp(entry->d_name, ".mcp_", 5) == 0) {
                 const char* client_id = entry->d_name + 5;
 
-                if (mqtt_session_is_expired_internal(client_id)) {
-                    if (mqtt_session_delete_internal(client_id) == 0) {
+                size_t path_len = strlen(g_storage_path) + 1 + strlen(entry->d_name) + 1;
+                char* path = (char*)malloc(path_len);
+                if (!path) {
+                    break;
+                }
+                snprintf(path, path_len, "%s/%s", g_storage_path, entry->d_name);
+
+                if (mqtt_session_is_expired_internal(path)) {
+                    if (mqtt_session_delete_internal(path) == 0) {
                         cleaned_count++;
                         mcp_log_info("Cleaned expired session for client: %s", client_id);
                     }
                 }
+                free(path);
             }
         }
         closedir(dir);
@@ -929,22 +938,12 @@ void mqtt_session_persistence_cleanup(void) {
 }
 
 // Internal helper function - assumes lock is already held
-static bool mqtt_session_is_expired_internal(const char* client_id) {
-    if (!client_id) {
-        return true;
-    }
-
+static bool mqtt_session_is_expired_internal(const char* path) {
     uint64_t created_time, last_access_time;
     uint32_t expiry_interval;
 
-    char* path = get_session_path(client_id);
-    if (!path) {
-        return true;
-    }
-
     FILE* fp = fopen(path, "rb");
     if (!fp) {
-        free(path);
         return true;
     }
 
@@ -952,7 +951,6 @@ static bool mqtt_session_is_expired_internal(const char* client_id) {
     uint32_t magic;
     if (fread(&magic, sizeof(magic), 1, fp) != 1 || magic != MQTT_SESSION_MAGIC) {
         fclose(fp);
-        free(path);
         return true;
     }
 
@@ -960,7 +958,6 @@ static bool mqtt_session_is_expired_internal(const char* client_id) {
     uint16_t version;
     if (fread(&version, sizeof(version), 1, fp) != 1) {
         fclose(fp);
-        free(path);
         return true;
     }
 
@@ -969,12 +966,10 @@ static bool mqtt_session_is_expired_internal(const char* client_id) {
         fread(&last_access_time, sizeof(last_access_time), 1, fp) != 1 ||
         fread(&expiry_interval, sizeof(expiry_interval), 1, fp) != 1) {
         fclose(fp);
-        free(path);
         return true;
     }
 
     fclose(fp);
-    free(path);
 
     if (expiry_interval == 0) {
         return false; // No expiry
@@ -986,16 +981,7 @@ static bool mqtt_session_is_expired_internal(const char* client_id) {
 }
 
 // Internal helper function - assumes lock is already held
-static int mqtt_session_delete_internal(const char* client_id) {
-    if (!client_id) {
-        return -1;
-    }
-
-    char* path = get_session_path(client_id);
-    if (!path) {
-        return -1;
-    }
-
+static int mqtt_session_delete_internal(const char* path) {
     int result = 0;
 #ifdef _WIN32
     if (_unlink(path) != 0) {
@@ -1007,6 +993,5 @@ static int mqtt_session_delete_internal(const char* client_id) {
     }
 #endif
 
-    free(path);
     return result;
 }
-- 
2.43.0


From 569244fcea415a94d25383cfaafa3bedbd1c0268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:40 +0000
Subject: [PATCH 075/126] fix: keep the stored MQTT session until the new one
 is complete

Saving truncated the session file and wrote it in place, so a crash or a
full disk left part of a session or none. The outcome of closing the file
was ignored as well.
---
 src/transport/mqtt_session_persistence.c | 134 ++++++++++++++---------
 1 file changed, 83 insertions(+), 51 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 8fb5bc3..fc26286 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -20,6 +20,7 @@
 #else
 #include <unistd.h>
 #include <dirent.h>
+#include <fcntl.h>
 #endif
 
 // File format version for compatibility
@@ -149,6 +150,43 @@ static char* get_session_path(const char* client_id) {
     return get_session_file(".mcp_", client_id);
 }
 
+/**
+ * @brief Writes everything buffered for a file to the storage device
+ * @return 0 on success, -1 on failure
+ */
+static int sync_file(FILE* fp) {
+    if (fflush(fp) != 0) {
+        return -1;
+    }
+#ifdef _WIN32
+    return _commit(_fileno(fp)) == 0 ? 0 : -1;
+#else
+    return fsync(fileno(fp)) == 0 ? 0 : -1;
+#endif
+}
+
+/**
+ * @brief Puts a complete file in the place of another one, durably
+ * @return 0 on success, -1 on failure
+ */
+static int replace_file(const char* from, const char* to) {
+#ifdef _WIN32
+    return MoveFileExA(from, to, MOVEFILE_REPLACE_EXISTING | MOVEFILE_WRITE_THROUGH) ? 0 : -1;
+#else
+    if (rename(from, to) != 0) {
+        return -1;
+    }
+
+    int dir_fd = open(g_storage_path, O_RDONLY);
+    if (dir_fd < 0) {
+        return -1;
+    }
+    int result = fsync(dir_fd);
+    close(dir_fd);
+    return result == 0 ? 0 : -1;
+#endif
+}
+
 int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
     if (!client_id || !session) {
         return -1;
@@ -174,9 +212,18 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         return -1;
     }
 
-    FILE* fp = fopen(path, "wb");
+    // The session is written to a file of its own and takes the place of the old one when it is complete
+    char* temp_path = get_session_file(".mcptmp_", client_id);
+    if (!temp_path) {
+        free(path);
+        mcp_mutex_unlock(g_session_mutex);
+        return -1;
+    }
+
+    FILE* fp = fopen(temp_path, "wb");
     if (!fp) {
-        mcp_log_error("Failed to open session file for writing: %s (errno: %d)", path, errno);
+        mcp_log_error("Failed to open session file for writing: %s (errno: %d)", temp_path, errno);
+        free(temp_path);
         free(path);
         mcp_mutex_unlock(g_session_mutex);
         return -1;
@@ -185,19 +232,13 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     // Write session data
     uint32_t magic = MQTT_SESSION_MAGIC;
     if (safe_fwrite(&magic, sizeof(magic), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
+        goto save_failed;
     }
 
     // Write file format version
     uint16_t version = MQTT_SESSION_FILE_VERSION;
     if (safe_fwrite(&version, sizeof(version), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
+        goto save_failed;
     }
 
     // Write session metadata
@@ -205,20 +246,14 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     if (safe_fwrite(&session->session_created_time, sizeof(session->session_created_time), 1, fp) != 0 ||
         safe_fwrite(&current_time, sizeof(current_time), 1, fp) != 0 ||
         safe_fwrite(&session->session_expiry_interval, sizeof(session->session_expiry_interval), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
+        goto save_failed;
     }
 
     // Write client ID length and data
     uint16_t client_id_len = (uint16_t)strlen(client_id);
     if (safe_fwrite(&client_id_len, sizeof(client_id_len), 1, fp) != 0 ||
         safe_fwrite(client_id, 1, client_id_len, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
+        goto save_failed;
     }
 
     // Write subscription count
@@ -229,10 +264,7 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         sub = sub->next;
     }
     if (safe_fwrite(&sub_count, sizeof(sub_count), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
+        goto save_failed;
     }
 
     // Write subscriptions
@@ -242,20 +274,14 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         if (safe_fwrite(&topic_len, sizeof(topic_len), 1, fp) != 0 ||
             safe_fwrite(sub->topic, 1, topic_len, fp) != 0 ||
             safe_fwrite(&sub->qos, sizeof(sub->qos), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
-            return -1;
+            goto save_failed;
         }
         sub = sub->next;
     }
 
     // Write last packet ID
     if (safe_fwrite(&session->last_packet_id, sizeof(session->last_packet_id), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
+        goto save_failed;
     }
 
     // Write in-flight message count
@@ -266,57 +292,63 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         inflight = inflight->next;
     }
     if (safe_fwrite(&inflight_count, sizeof(inflight_count), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
+        goto save_failed;
     }
 
     // Write in-flight messages
     inflight = session->inflight_messages;
     while (inflight) {
         if (safe_fwrite(&inflight->packet_id, sizeof(inflight->packet_id), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
-            return -1;
+            goto save_failed;
         }
 
         uint16_t topic_len = (uint16_t)strlen(inflight->topic);
         if (safe_fwrite(&topic_len, sizeof(topic_len), 1, fp) != 0 ||
             safe_fwrite(inflight->topic, 1, topic_len, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
-            return -1;
+            goto save_failed;
         }
 
         uint32_t payload_len = (uint32_t)inflight->payload_len;
         if (safe_fwrite(&payload_len, sizeof(payload_len), 1, fp) != 0 ||
             safe_fwrite(inflight->payload, 1, inflight->payload_len, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
-            return -1;
+            goto save_failed;
         }
 
         if (safe_fwrite(&inflight->qos, sizeof(inflight->qos), 1, fp) != 0 ||
             safe_fwrite(&inflight->retain, sizeof(inflight->retain), 1, fp) != 0 ||
             safe_fwrite(&inflight->send_time, sizeof(inflight->send_time), 1, fp) != 0 ||
             safe_fwrite(&inflight->retry_count, sizeof(inflight->retry_count), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
-            return -1;
+            goto save_failed;
         }
 
         inflight = inflight->next;
     }
 
-    fclose(fp);
+    if (sync_file(fp) != 0) {
+        goto save_failed;
+    }
+
+    int close_result = fclose(fp);
+    fp = NULL;
+    if (close_result != 0 || replace_file(temp_path, path) != 0) {
+        goto save_failed;
+    }
+
+    free(temp_path);
     free(path);
     mcp_mutex_unlock(g_session_mutex);
     return 0;
+
+save_failed:
+    mcp_log_error("Failed to save session file: %s (errno: %d)", path, errno);
+    if (fp) {
+        fclose(fp);
+    }
+    remove(temp_path);
+    free(temp_path);
+    free(path);
+    mcp_mutex_unlock(g_session_mutex);
+    return -1;
 }
 
 int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
-- 
2.43.0


From 6d406867da2c87681693de7e681acbff233b7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:40 +0000
Subject: [PATCH 076/126] fix: save MQTT sessions that hold messages without
 payload

One in-flight message with an empty payload made every save fail.
---
 src/transport/mqtt_session_persistence.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index fc26286..7f1cd08 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -47,7 +47,12 @@ static volatile bool g_persistence_shutting_down = false;
  * @return 0 on success, -1 on failure
  */
 static int safe_fwrite(const void* ptr, size_t size, size_t count, FILE* stream) {
-    if (!ptr || !stream || size == 0 || count == 0) {
+    // Nothing to write, e.g. the payload of a message without one
+    if (stream && size > 0 && count == 0) {
+        return 0;
+    }
+
+    if (!ptr || !stream || size == 0) {
         mcp_log_error("Invalid parameters for file write operation");
         return -1;
     }
@@ -583,7 +588,7 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
                 goto cleanup_and_exit;
             }
 
-            inflight->payload = malloc(payload_len);
+            inflight->payload = malloc(payload_len > 0 ? payload_len : 1);
             if (!inflight->payload) {
                 free(inflight->topic);
                 free(inflight);
-- 
2.43.0


From 07a008923e2f662221136bf6aebefb1995fdf50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:40 +0000
Subject: [PATCH 077/126] fix: refuse to save MQTT sessions that do not fit the
 file format

Counts and lengths were cut to 16 bits, so the saved session was another
one or could not be read back.
---
 src/transport/mqtt_session_persistence.c | 26 ++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 7f1cd08..3490fe0 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -192,6 +192,26 @@ static int replace_file(const char* from, const char* to) {
 #endif
 }
 
+/**
+ * @brief Checks that all counts and lengths of a session fit their fields in the file
+ */
+static bool session_fits_format(const char* client_id, const mqtt_session_data_t* session) {
+    size_t sub_count = 0;
+    size_t inflight_count = 0;
+
+    for (const struct mqtt_subscription* sub = session->subscriptions; sub; sub = sub->next) {
+        if (++sub_count > UINT16_MAX || strlen(sub->topic) > UINT16_MAX) {
+            return false;
+        }
+    }
+    for (const struct mqtt_inflight_message* msg = session->inflight_messages; msg; msg = msg->next) {
+        if (++inflight_count > UINT16_MAX || strlen(msg->topic) > UINT16_MAX || msg->payload_len > UINT32_MAX) {
+            return false;
+        }
+    }
+    return strlen(client_id) <= UINT16_MAX;
+}
+
 int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
     if (!client_id || !session) {
         return -1;
@@ -211,6 +231,12 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         return -1;
     }
 
+    if (!session_fits_format(client_id, session)) {
+        mcp_log_error("Session of client %s has too many or too long entries to be saved", client_id);
+        mcp_mutex_unlock(g_session_mutex);
+        return -1;
+    }
+
     char* path = get_session_path(client_id);
     if (!path) {
         mcp_mutex_unlock(g_session_mutex);
-- 
2.43.0


From a29f573411e08bdfa0fc7cd511e1cc6e62ab20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:40 +0000
Subject: [PATCH 078/126] fix: do not restore part of an MQTT session

A session file that ends early was loaded as a session without in-flight
messages and with a packet counter of its own.
---
 src/transport/mqtt_session_persistence.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 3490fe0..4ed2005 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -560,13 +560,15 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     // Read last packet ID
     if (fread(&session->last_packet_id, sizeof(session->last_packet_id), 1, fp) != 1) {
         mcp_log_warn("Failed to read last packet ID for client: %s", client_id);
-        // Continue anyway, this is not critical
-        session->last_packet_id = 1;
+        goto cleanup_and_exit;
     }
 
     // Read in-flight message count
     uint16_t inflight_count = 0;
-    if (fread(&inflight_count, sizeof(inflight_count), 1, fp) == 1) {
+    if (fread(&inflight_count, sizeof(inflight_count), 1, fp) != 1) {
+        mcp_log_warn("Failed to read in-flight message count for client: %s", client_id);
+        goto cleanup_and_exit;
+    } else {
         // Read in-flight messages
         for (uint16_t i = 0; i < inflight_count; i++) {
             struct mqtt_inflight_message* inflight = malloc(sizeof(struct mqtt_inflight_message));
-- 
2.43.0


From 15b55abce5d7efe3bca5d101ac71567fd33273b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:40 +0000
Subject: [PATCH 079/126] fix: restore MQTT subscriptions and messages in the
 order they were saved

Loading reversed both lists, so messages were sent again in the wrong
order, and the active flag of subscriptions was left uninitialised.
---
 src/transport/mqtt_session_persistence.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 4ed2005..6c60dd0 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -515,6 +515,16 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         return -1;
     }
 
+    // Entries are appended behind those the session has, in the order in which they were saved
+    struct mqtt_subscription** sub_tail = &session->subscriptions;
+    while (*sub_tail) {
+        sub_tail = &(*sub_tail)->next;
+    }
+    struct mqtt_inflight_message** inflight_tail = &session->inflight_messages;
+    while (*inflight_tail) {
+        inflight_tail = &(*inflight_tail)->next;
+    }
+
     // Read subscriptions
     for (uint16_t i = 0; i < sub_count; i++) {
         uint16_t topic_len;
@@ -553,8 +563,10 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
 
         sub->topic = topic;
         sub->qos = qos;
-        sub->next = session->subscriptions;
-        session->subscriptions = sub;
+        sub->active = true;
+        sub->next = NULL;
+        *sub_tail = sub;
+        sub_tail = &sub->next;
     }
 
     // Read last packet ID
@@ -646,8 +658,9 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
             }
 
             // Add to list
-            inflight->next = session->inflight_messages;
-            session->inflight_messages = inflight;
+            inflight->next = NULL;
+            *inflight_tail = inflight;
+            inflight_tail = &inflight->next;
         }
     }
 
-- 
2.43.0


From 0a801372404ebdc64334f137f2c4cdd02ad18cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:40 +0000
Subject: [PATCH 080/126] fix: delete an expired MQTT session while holding the
 lock

A session saved between the check and the deletion was deleted.
---
 src/transport/mqtt_session_persistence.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 6c60dd0..c6bf2b5 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -462,10 +462,10 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
             mcp_log_info("Session expired for client: %s (elapsed: %llu, expiry: %u)",
                         client_id, (unsigned long long)elapsed_seconds, session->session_expiry_interval);
             fclose(fp);
+            // Delete expired session file before somebody can save a new one
+            mqtt_session_delete_internal(path);
             free(path);
             mcp_mutex_unlock(g_session_mutex);
-            // Delete expired session file
-            mqtt_session_delete(client_id);
             return -1;
         }
     }
-- 
2.43.0


From a4be3591f682fd4c9bb03ce1db6b2484db64018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:40 +0000
Subject: [PATCH 081/126] fix: keep MQTT sessions when the clock is set back

The time since the last access became negative, which counted as expired.
---
 src/transport/mqtt_session_persistence.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index c6bf2b5..8e3938b 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -73,6 +73,11 @@ static bool is_persistence_ready(void) {
     return g_persistence_initialized && !g_persistence_shutting_down && g_session_mutex != NULL;
 }
 
+// The clock may have been set back since the session was saved
+static uint64_t seconds_since(uint64_t earlier_ms, uint64_t now_ms) {
+    return now_ms > earlier_ms ? (now_ms - earlier_ms) / 1000 : 0;
+}
+
 int mqtt_session_persistence_init(const char* storage_path) {
     if (!storage_path) {
         return -1;
@@ -457,7 +462,7 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     // Check if session has expired
     if (session->session_expiry_interval > 0) {
         uint64_t current_time = mcp_get_time_ms();
-        uint64_t elapsed_seconds = (current_time - session->session_last_access_time) / 1000;
+        uint64_t elapsed_seconds = seconds_since(session->session_last_access_time, current_time);
         if (elapsed_seconds > session->session_expiry_interval) {
             mcp_log_info("Session expired for client: %s (elapsed: %llu, expiry: %u)",
                         client_id, (unsigned long long)elapsed_seconds, session->session_expiry_interval);
@@ -790,7 +795,7 @@ bool mqtt_session_is_expired(const char* client_id) {
     }
 
     uint64_t current_time = mcp_get_time_ms();
-    uint64_t elapsed_seconds = (current_time - last_access_time) / 1000;
+    uint64_t elapsed_seconds = seconds_since(last_access_time, current_time);
     return elapsed_seconds > expiry_interval;
 }
 
@@ -1054,7 +1059,7 @@ static bool mqtt_session_is_expired_internal(const char* path) {
     }
 
     uint64_t current_time = mcp_get_time_ms();
-    uint64_t elapsed_seconds = (current_time - last_access_time) / 1000;
+    uint64_t elapsed_seconds = seconds_since(last_access_time, current_time);
     return elapsed_seconds > expiry_interval;
 }
 
-- 
2.43.0


From 204a739104ce1b92beef77e73dc227cd136603f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:52 +0000
Subject: [PATCH 082/126] fix: renew an MQTT session under one lock

The session was loaded and saved again under two separate locks, so a
session saved or deleted in between was overwritten by the old one.
---
 src/transport/mqtt_session_persistence.c | 94 +++++++++++++-----------
 1 file changed, 52 insertions(+), 42 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 8e3938b..8d17a9c 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -217,34 +217,15 @@ static bool session_fits_format(const char* client_id, const mqtt_session_data_t
     return strlen(client_id) <= UINT16_MAX;
 }
 
-int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
-    if (!client_id || !session) {
-        return -1;
-    }
-
-    // Check if persistence system is ready
-    if (!is_persistence_ready()) {
-        return -1;
-    }
-
-    // Acquire lock for thread-safe file operations
-    mcp_mutex_lock(g_session_mutex);
-
-    // Double-check after acquiring lock
-    if (!is_persistence_ready()) {
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
-    }
-
+// Internal helper function - assumes lock is already held
+static int mqtt_session_save_internal(const char* client_id, const mqtt_session_data_t* session) {
     if (!session_fits_format(client_id, session)) {
         mcp_log_error("Session of client %s has too many or too long entries to be saved", client_id);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
     char* path = get_session_path(client_id);
     if (!path) {
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -252,7 +233,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     char* temp_path = get_session_file(".mcptmp_", client_id);
     if (!temp_path) {
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -261,7 +241,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         mcp_log_error("Failed to open session file for writing: %s (errno: %d)", temp_path, errno);
         free(temp_path);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -372,7 +351,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
 
     free(temp_path);
     free(path);
-    mcp_mutex_unlock(g_session_mutex);
     return 0;
 
 save_failed:
@@ -383,11 +361,10 @@ save_failed:
     remove(temp_path);
     free(temp_path);
     free(path);
-    mcp_mutex_unlock(g_session_mutex);
     return -1;
 }
 
-int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
+int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
     if (!client_id || !session) {
         return -1;
     }
@@ -406,9 +383,15 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         return -1;
     }
 
+    int result = mqtt_session_save_internal(client_id, session);
+    mcp_mutex_unlock(g_session_mutex);
+    return result;
+}
+
+// Internal helper function - assumes lock is already held
+static int mqtt_session_load_internal(const char* client_id, mqtt_session_data_t* session) {
     char* path = get_session_path(client_id);
     if (!path) {
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -416,7 +399,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (!fp) {
         mcp_log_warn("Failed to open session file for reading: %s (errno: %d)", path, errno);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -426,7 +408,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Invalid session file magic number for client: %s", client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -436,7 +417,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Failed to read session file version for client: %s", client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -444,7 +424,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Unsupported session file version %u for client: %s", version, client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -455,7 +434,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Failed to read session metadata for client: %s", client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -470,7 +448,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
             // Delete expired session file before somebody can save a new one
             mqtt_session_delete_internal(path);
             free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
     }
@@ -480,7 +457,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (fread(&client_id_len, sizeof(client_id_len), 1, fp) != 1) {
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -488,7 +464,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (!loaded_client_id) {
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -496,7 +471,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         free(loaded_client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
     loaded_client_id[client_id_len] = '\0';
@@ -506,7 +480,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         free(loaded_client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
     free(loaded_client_id);
@@ -516,7 +489,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (fread(&sub_count, sizeof(sub_count), 1, fp) != 1) {
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -674,7 +646,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
 
     fclose(fp);
     free(path);
-    mcp_mutex_unlock(g_session_mutex);
     return 0;
 
 cleanup_and_exit:
@@ -700,10 +671,33 @@ cleanup_and_exit:
 
     fclose(fp);
     free(path);
-    mcp_mutex_unlock(g_session_mutex);
     return -1;
 }
 
+int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
+    if (!client_id || !session) {
+        return -1;
+    }
+
+    // Check if persistence system is ready
+    if (!is_persistence_ready()) {
+        return -1;
+    }
+
+    // Acquire lock for thread-safe file operations
+    mcp_mutex_lock(g_session_mutex);
+
+    // Double-check after acquiring lock
+    if (!is_persistence_ready()) {
+        mcp_mutex_unlock(g_session_mutex);
+        return -1;
+    }
+
+    int result = mqtt_session_load_internal(client_id, session);
+    mcp_mutex_unlock(g_session_mutex);
+    return result;
+}
+
 int mqtt_session_delete(const char* client_id) {
     if (!client_id) {
         return -1;
@@ -872,9 +866,24 @@ int mqtt_session_update_access_time(const char* client_id) {
         return -1;
     }
 
+    // Check if persistence system is ready
+    if (!is_persistence_ready()) {
+        return -1;
+    }
+
+    // Keep the lock until the session is saved again, so that it cannot be replaced or deleted in between
+    mcp_mutex_lock(g_session_mutex);
+
+    // Double-check after acquiring lock
+    if (!is_persistence_ready()) {
+        mcp_mutex_unlock(g_session_mutex);
+        return -1;
+    }
+
     // Load session data
     mqtt_session_data_t session_data = {0};
-    if (mqtt_session_load(client_id, &session_data) != 0) {
+    if (mqtt_session_load_internal(client_id, &session_data) != 0) {
+        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -882,7 +891,8 @@ int mqtt_session_update_access_time(const char* client_id) {
     session_data.session_last_access_time = mcp_get_time_ms();
 
     // Save session data
-    int result = mqtt_session_save(client_id, &session_data);
+    int result = mqtt_session_save_internal(client_id, &session_data);
+    mcp_mutex_unlock(g_session_mutex);
 
     // Cleanup loaded data
     struct mqtt_subscription* sub = session_data.subscriptions;
-- 
2.43.0


From 3da74d24b5ca3b2addb3920a6d0578c726d71875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:20 +0000
Subject: [PATCH 083/126] fix: do not lend a pooled connection that was just
 closed

After closing a timed-out or unhealthy idle connection the loop went on
with its handle still set and returned it to the caller.
---
 src/connection_pool/mcp_connection_pool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index fd2069c..008d931 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -159,6 +159,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                     pool->total_connections_closed++;
 
                     // Continue the loop to get another connection
+                    sock = INVALID_SOCKET_HANDLE;
                     continue;
                 }
             }
@@ -190,6 +191,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                     pool->failed_health_checks++;
 
                     // Continue the loop to get another connection
+                    sock = INVALID_SOCKET_HANDLE;
                     continue;
                 }
             }
-- 
2.43.0


From 68b1a166b5fe5dda3b34c36e60151ac3d816bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:52 +0000
Subject: [PATCH 084/126] fix: free pooled connection structures where they
 came from

Structures of the object pool were passed to free() when a connection was
lent or the pool destroyed, and malloc'ed ones were put into the object
pool. The object pool itself was never destroyed.
---
 .../internal/connection_pool_internal.h       |  5 +-
 src/connection_pool/mcp_connection_pool.c     | 11 ++--
 .../mcp_connection_pool_maintenance.c         | 61 +++++++++++++------
 3 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/src/connection_pool/internal/connection_pool_internal.h b/src/connection_pool/internal/connection_pool_internal.h
index 81e2605..be98196 100644
--- a/src/connection_pool/internal/connection_pool_internal.h
+++ b/src/connection_pool/internal/connection_pool_internal.h
@@ -57,6 +57,7 @@ typedef struct mcp_pooled_connection {
     time_t last_health_check;           // Timestamp of the last health check
     int health_score;                   // Health score (0-100, 100 is perfectly healthy)
     bool is_being_checked;              // Flag to indicate if connection is currently being checked
+    bool from_object_pool;              // Whether the structure belongs to the object pool
     int use_count;                      // Number of times this connection has been used
     struct mcp_pooled_connection* next; // Link for idle list
     struct mcp_pooled_connection* prev; // Link for idle list (double-linked)
@@ -64,7 +65,7 @@ typedef struct mcp_pooled_connection {
     // Padding to ensure cache line alignment and prevent false sharing
     char padding[MCP_CACHE_LINE_SIZE -
                 (sizeof(socket_handle_t) + 2 * sizeof(time_t) + sizeof(int) +
-                 sizeof(bool) + sizeof(int) + 2 * sizeof(void*)) % MCP_CACHE_LINE_SIZE];
+                 2 * sizeof(bool) + sizeof(int) + 2 * sizeof(void*)) % MCP_CACHE_LINE_SIZE];
 } MCP_CACHE_ALIGNED mcp_pooled_connection_t;
 
 /**
@@ -142,6 +143,8 @@ int prepopulate_pool(mcp_connection_pool_t* pool);
 int start_maintenance_thread(mcp_connection_pool_t* pool);
 void stop_maintenance_thread(mcp_connection_pool_t* pool);
 void* pool_maintenance_thread_func(void* arg);
+mcp_pooled_connection_t* alloc_connection_node(mcp_connection_pool_t* pool);
+void free_connection_node(mcp_connection_pool_t* pool, mcp_pooled_connection_t* conn);
 mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool, bool add_to_idle_list);
 bool remove_idle_connection(mcp_connection_pool_t* pool, mcp_pooled_connection_t* conn, mcp_pooled_connection_t* prev);
 void close_and_free_connection(mcp_connection_pool_t* pool, mcp_pooled_connection_t* conn);
diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index 008d931..58cdc65 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -150,7 +150,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                     mcp_log_debug("Idle connection %d timed out (idle for %.1f seconds), closing.",
                                  (int)sock, idle_time_sec);
                     mcp_socket_close(sock);
-                    free(pooled_conn);
+                    free_connection_node(pool, pooled_conn);
 
                     // Update counts but keep total the same
                     pool->active_count--;
@@ -182,7 +182,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                     // Connection is unhealthy, close it and try to get another one
                     mcp_log_warn("Connection %d failed health check, closing.", (int)sock);
                     mcp_socket_close(sock);
-                    free(pooled_conn);
+                    free_connection_node(pool, pooled_conn);
 
                     // Update counts and statistics
                     pool->active_count--;
@@ -196,7 +196,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                 }
             }
 
-            free(pooled_conn); // Free the list node structure
+            free_connection_node(pool, pooled_conn); // Free the list node structure
             mcp_log_debug("Reusing idle connection %d.", (int)sock);
             pool_unlock(pool);
             return sock;
@@ -299,7 +299,7 @@ int mcp_connection_pool_release(mcp_connection_pool_t* pool, socket_handle_t con
         pool_signal(pool);
     } else {
         // Add valid connection back to idle list
-        mcp_pooled_connection_t* pooled_conn = (mcp_pooled_connection_t*)malloc(sizeof(mcp_pooled_connection_t));
+        mcp_pooled_connection_t* pooled_conn = alloc_connection_node(pool);
         if (pooled_conn) {
             // Initialize connection node
             pooled_conn->socket_fd = connection;
@@ -372,7 +372,7 @@ void mcp_connection_pool_destroy(mcp_connection_pool_t* pool) {
         mcp_pooled_connection_t* next = current->next;
         mcp_socket_close(current->socket_fd);
         pool->total_connections_closed++;
-        free(current);
+        free_connection_node(pool, current);
         current = next;
     }
     pool->idle_head = NULL;
@@ -388,6 +388,7 @@ void mcp_connection_pool_destroy(mcp_connection_pool_t* pool) {
 
     // 4. Destroy sync primitives and free memory
     destroy_sync_primitives(pool);
+    mcp_object_pool_destroy(pool->conn_pool);
     free(pool->host);
     free(pool);
 
diff --git a/src/connection_pool/mcp_connection_pool_maintenance.c b/src/connection_pool/mcp_connection_pool_maintenance.c
index 904cd9c..a767eb1 100644
--- a/src/connection_pool/mcp_connection_pool_maintenance.c
+++ b/src/connection_pool/mcp_connection_pool_maintenance.c
@@ -8,6 +8,47 @@
 #include <stdbool.h>
 #include <time.h>
 
+/**
+ * @brief Allocates a connection structure, from the object pool if possible.
+ *
+ * @param pool The connection pool.
+ * @return The cleared structure, or NULL if there is no memory.
+ */
+mcp_pooled_connection_t* alloc_connection_node(mcp_connection_pool_t* pool) {
+    mcp_pooled_connection_t* conn = NULL;
+    bool from_object_pool = false;
+
+    if (pool->conn_pool) {
+        conn = (mcp_pooled_connection_t*)mcp_object_pool_acquire(pool->conn_pool);
+        from_object_pool = conn != NULL;
+    }
+
+    // Fall back to malloc if object pool is not available or empty
+    if (!conn) {
+        conn = (mcp_pooled_connection_t*)malloc(sizeof(mcp_pooled_connection_t));
+    }
+
+    if (conn) {
+        memset(conn, 0, sizeof(mcp_pooled_connection_t));
+        conn->from_object_pool = from_object_pool;
+    }
+    return conn;
+}
+
+/**
+ * @brief Returns a connection structure to where it came from.
+ *
+ * @param pool The connection pool.
+ * @param conn The structure to free.
+ */
+void free_connection_node(mcp_connection_pool_t* pool, mcp_pooled_connection_t* conn) {
+    if (conn->from_object_pool) {
+        mcp_object_pool_release(pool->conn_pool, conn);
+    } else {
+        free(conn);
+    }
+}
+
 /**
  * @brief Creates a new connection and optionally adds it to the idle list.
  *
@@ -45,16 +86,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
     }
 
     // Allocate connection structure from object pool if available
-    mcp_pooled_connection_t* new_conn = NULL;
-    if (pool->conn_pool) {
-        new_conn = (mcp_pooled_connection_t*)mcp_object_pool_acquire(pool->conn_pool);
-    }
-
-    // Fall back to malloc if object pool is not available or empty
-    if (!new_conn) {
-        new_conn = (mcp_pooled_connection_t*)malloc(sizeof(mcp_pooled_connection_t));
-    }
-
+    mcp_pooled_connection_t* new_conn = alloc_connection_node(pool);
     if (!new_conn) {
         // Failed to allocate node, close the connection
         mcp_log_error("Failed to allocate node for new connection %d", (int)new_sock);
@@ -170,14 +202,7 @@ void close_and_free_connection(mcp_connection_pool_t* pool, mcp_pooled_connectio
     pool->total_connections_closed++;
 
     // Return connection structure to object pool if available
-    if (pool->conn_pool) {
-        // Clear the structure before returning to pool
-        memset(conn, 0, sizeof(mcp_pooled_connection_t));
-        mcp_object_pool_release(pool->conn_pool, conn);
-    } else {
-        // Free the connection structure
-        free(conn);
-    }
+    free_connection_node(pool, conn);
 
     mcp_log_debug("Closed and freed connection %d", (int)sock_fd);
 }
-- 
2.43.0


From 7932072154c1bf5a2c8afc6c9b256a1bf8c43e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:52 +0000
Subject: [PATCH 085/126] fix: restart the scan for idle connections after
 closing one

The pool is unlocked while a connection is closed, so the neighbours
remembered before may have been lent and freed.
---
 src/connection_pool/mcp_connection_pool_maintenance.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_maintenance.c b/src/connection_pool/mcp_connection_pool_maintenance.c
index a767eb1..7a19794 100644
--- a/src/connection_pool/mcp_connection_pool_maintenance.c
+++ b/src/connection_pool/mcp_connection_pool_maintenance.c
@@ -261,13 +261,14 @@ void* pool_maintenance_thread_func(void* arg) {
 
                     // Remove from idle list
                     if (remove_idle_connection(pool, to_remove, prev)) {
-                        // Get next connection before closing current one
-                        current = (prev) ? prev->next : pool->idle_head;
-
                         // Close and free the connection
                         mcp_log_debug("Closing idle connection %d due to timeout (idle for %.1f seconds).",
                                      (int)to_remove->socket_fd, idle_time_sec);
                         close_and_free_connection(pool, to_remove);
+
+                        // The list may have changed while the pool was unlocked, start again
+                        prev = NULL;
+                        current = pool->idle_head;
                     } else {
                         // Something went wrong, move to next
                         prev = current;
-- 
2.43.0


From 4cb341d66e97ba242cf809a8b7d701675bda56a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:52 +0000
Subject: [PATCH 086/126] fix: wake a waiting getter when pool maintenance
 makes room

A getter that found the pool full while maintenance was opening or
closing a connection was not woken when that was done.
---
 src/connection_pool/mcp_connection_pool_maintenance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connection_pool/mcp_connection_pool_maintenance.c b/src/connection_pool/mcp_connection_pool_maintenance.c
index 7a19794..742570f 100644
--- a/src/connection_pool/mcp_connection_pool_maintenance.c
+++ b/src/connection_pool/mcp_connection_pool_maintenance.c
@@ -82,6 +82,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
         mcp_log_warn("Failed to create new connection to %s:%d", pool->host, pool->port);
         pool->total_count--;
         pool->total_connection_errors++;
+        pool_signal(pool); // There is room for a waiting getter again
         return NULL;
     }
 
@@ -98,6 +99,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
 
         pool->total_count--;
         pool->total_connection_errors++;
+        pool_signal(pool); // There is room for a waiting getter again
         return NULL;
     }
 
@@ -127,6 +129,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
             pool->idle_head = new_conn;
         }
         pool->idle_count++;
+        pool_signal(pool);
     }
 
     mcp_log_debug("Created new connection %d to %s:%d", (int)new_sock, pool->host, pool->port);
@@ -200,6 +203,7 @@ void close_and_free_connection(mcp_connection_pool_t* pool, mcp_pooled_connectio
     // Update statistics
     pool->total_count--;
     pool->total_connections_closed++;
+    pool_signal(pool); // There is room for a waiting getter again
 
     // Return connection structure to object pool if available
     free_connection_node(pool, conn);
-- 
2.43.0


From 01f912943f79a6aeb0deff2dc90af83d0b5c362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:49 +0000
Subject: [PATCH 087/126] fix: hand on the room in the pool when a connection
 cannot be created

Getters waiting for room were not woken when the getter that had taken it
failed to connect, and that getter itself waited for a signal nobody was
going to send. It now tries again from time to time, and wakes another
one when it gives up. Timeouts of the wait are recognised as such.
---
 src/connection_pool/mcp_connection_pool.c     | 22 ++++++++++++++++++-
 .../mcp_connection_pool_sync.c                |  2 +-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index 58cdc65..8c5c549 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -7,6 +7,9 @@
 #include <stdbool.h>
 #include <time.h>
 
+// How long a getter waits before it tries again to create a connection
+#define POOL_CREATE_RETRY_MS 100
+
 mcp_connection_pool_t* mcp_connection_pool_create(
     const char* host,
     int port,
@@ -99,6 +102,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
     }
 
     socket_handle_t sock = INVALID_SOCKET_HANDLE;
+    bool create_failed = false;  // Whether the last attempt to create a connection failed
     long long start_time_ms = 0; // For tracking overall timeout
     if (timeout_ms > 0) {
         start_time_ms = mcp_get_time_ms();
@@ -219,8 +223,10 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
             } else {
                 pool->total_count--; // Creation failed, decrement total count
                 mcp_log_warn("Failed to create new connection.");
+                create_failed = true;
                 // If creation fails, we might need to wait if timeout allows
                 if (timeout_ms == 0) {
+                    pool_signal(pool); // There is room for another getter again
                     pool_unlock(pool);
                     return INVALID_SOCKET_HANDLE;
                 }
@@ -242,15 +248,29 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                  wait_timeout = timeout_ms - (int)elapsed_ms;
                  if (wait_timeout <= 0) {
                      mcp_log_warn("mcp_connection_pool_get: Timed out waiting for connection.");
+                     if (create_failed) {
+                         pool_signal(pool); // There may be room for another getter
+                     }
                      pool_unlock(pool);
                      return INVALID_SOCKET_HANDLE; // Overall timeout expired
                  }
              }
 
+             // Nobody signals that the server can be reached again: try once more after a while
+             bool retry = create_failed && (wait_timeout < 0 || wait_timeout > POOL_CREATE_RETRY_MS);
+             if (retry) {
+                 wait_timeout = POOL_CREATE_RETRY_MS;
+             }
+
              mcp_log_debug("Waiting for connection (timeout: %d ms)...", wait_timeout);
              int wait_result = pool_wait(pool, wait_timeout);
-             if (wait_result == 1) {
+             if (wait_result == 1 && retry) {
+                 continue;
+             } else if (wait_result == 1) {
                  mcp_log_warn("mcp_connection_pool_get: Timed out waiting for condition.");
+                 if (create_failed) {
+                     pool_signal(pool); // There may be room for another getter
+                 }
                  pool_unlock(pool);
                  return INVALID_SOCKET_HANDLE;
              } else if (wait_result == -1) {
diff --git a/src/connection_pool/mcp_connection_pool_sync.c b/src/connection_pool/mcp_connection_pool_sync.c
index a6e7e7a..6d95db9 100644
--- a/src/connection_pool/mcp_connection_pool_sync.c
+++ b/src/connection_pool/mcp_connection_pool_sync.c
@@ -63,7 +63,7 @@ int pool_wait(mcp_connection_pool_t* pool, int timeout_ms) {
 
     if (result == 0) {
         return 0; // Signaled
-    } else if (result == ETIMEDOUT) {
+    } else if (result == -2) { // Timeout, see mcp_cond_timedwait
         return 1; // Timeout
     } else {
         mcp_log_error("mcp_cond_wait/timedwait failed with code: %d", result);
-- 
2.43.0


From aadb773a2c359eacddc28fecc2f8460b92a755eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:45 +0000
Subject: [PATCH 088/126] fix: let getters leave a connection pool before it is
 freed

Getters woken by the destruction of the pool, or still connecting, went on
using its lock after it had been freed.
---
 .../internal/connection_pool_internal.h       |  1 +
 src/connection_pool/mcp_connection_pool.c     | 50 +++++++++++++------
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/connection_pool/internal/connection_pool_internal.h b/src/connection_pool/internal/connection_pool_internal.h
index be98196..de4b4ba 100644
--- a/src/connection_pool/internal/connection_pool_internal.h
+++ b/src/connection_pool/internal/connection_pool_internal.h
@@ -116,6 +116,7 @@ struct mcp_connection_pool {
     size_t failed_health_checks;        // Number of failed health checks
     time_t last_health_check_time;      // Timestamp of last health check
 
+    size_t getters;                     // Number of threads inside mcp_connection_pool_get
     bool shutting_down;                 // Flag indicating pool destruction is in progress
 
     // Thread for managing idle timeouts/min connections and health checks
diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index 8c5c549..87273af 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -95,12 +95,11 @@ mcp_connection_pool_t* mcp_connection_pool_create(
     return pool;
 }
 
-socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout_ms) {
-    if (!pool) {
-        mcp_log_error("mcp_connection_pool_get: Pool is NULL.");
-        return INVALID_SOCKET_HANDLE;
-    }
-
+/**
+ * @brief Gets a connection from the pool. The pool must be locked before calling this
+ * function, and is locked again when it returns.
+ */
+static socket_handle_t get_connection(mcp_connection_pool_t* pool, int timeout_ms) {
     socket_handle_t sock = INVALID_SOCKET_HANDLE;
     bool create_failed = false;  // Whether the last attempt to create a connection failed
     long long start_time_ms = 0; // For tracking overall timeout
@@ -108,12 +107,9 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
         start_time_ms = mcp_get_time_ms();
     }
 
-    pool_lock(pool);
-
     while (sock == INVALID_SOCKET_HANDLE) {
         if (pool->shutting_down) {
             mcp_log_warn("mcp_connection_pool_get: Pool is shutting down.");
-            pool_unlock(pool);
             return INVALID_SOCKET_HANDLE;
         }
 
@@ -202,7 +198,6 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
 
             free_connection_node(pool, pooled_conn); // Free the list node structure
             mcp_log_debug("Reusing idle connection %d.", (int)sock);
-            pool_unlock(pool);
             return sock;
         }
 
@@ -227,7 +222,6 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                 // If creation fails, we might need to wait if timeout allows
                 if (timeout_ms == 0) {
                     pool_signal(pool); // There is room for another getter again
-                    pool_unlock(pool);
                     return INVALID_SOCKET_HANDLE;
                 }
                 // Fall through to wait below
@@ -238,7 +232,6 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
         if (sock == INVALID_SOCKET_HANDLE) {
              if (timeout_ms == 0) {
                  mcp_log_warn("mcp_connection_pool_get: Pool full and timeout is 0.");
-                 pool_unlock(pool);
                  return INVALID_SOCKET_HANDLE;
              }
 
@@ -251,7 +244,6 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                      if (create_failed) {
                          pool_signal(pool); // There may be room for another getter
                      }
-                     pool_unlock(pool);
                      return INVALID_SOCKET_HANDLE; // Overall timeout expired
                  }
              }
@@ -271,11 +263,9 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                  if (create_failed) {
                      pool_signal(pool); // There may be room for another getter
                  }
-                 pool_unlock(pool);
                  return INVALID_SOCKET_HANDLE;
              } else if (wait_result == -1) {
                  mcp_log_error("mcp_connection_pool_get: Error waiting for condition.");
-                 pool_unlock(pool);
                  return INVALID_SOCKET_HANDLE;
              }
              // If wait_result is 0, we were signaled or had a spurious wakeup, loop continues
@@ -283,6 +273,30 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
         }
     } // End while loop
 
+    return sock;
+}
+
+socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout_ms) {
+    if (!pool) {
+        mcp_log_error("mcp_connection_pool_get: Pool is NULL.");
+        return INVALID_SOCKET_HANDLE;
+    }
+
+    pool_lock(pool);
+    pool->getters++;
+
+    socket_handle_t sock = get_connection(pool, timeout_ms);
+
+    // The pool may have been shut down while it was unlocked; nobody could return the connection then
+    if (pool->shutting_down) {
+        if (sock != INVALID_SOCKET_HANDLE) {
+            mcp_socket_close(sock);
+            sock = INVALID_SOCKET_HANDLE;
+        }
+        pool_broadcast(pool);
+    }
+
+    pool->getters--;
     pool_unlock(pool);
     return sock;
 }
@@ -386,6 +400,12 @@ void mcp_connection_pool_destroy(mcp_connection_pool_t* pool) {
 
     // 3. Close idle connections and free resources
     pool_lock(pool);
+
+    // Getters that were waiting or connecting still use the pool
+    while (pool->getters > 0) {
+        pool_wait(pool, -1);
+    }
+
     mcp_log_info("Closing %zu idle connections.", pool->idle_count);
     mcp_pooled_connection_t* current = pool->idle_head;
     while(current) {
-- 
2.43.0


From 06c708900a7953011ed46b1f53687ee36b287b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:48 +0000
Subject: [PATCH 089/126] fix: do not lend a connection while maintenance
 checks its health

Maintenance examined idle connections, and changed their blocking mode,
with the pool unlocked while they could be lent to somebody.
---
 src/connection_pool/mcp_connection_pool.c     | 25 ++++++-------------
 .../mcp_connection_pool_health.c              |  3 +++
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index 87273af..03ae8b9 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -113,24 +113,15 @@ static socket_handle_t get_connection(mcp_connection_pool_t* pool, int timeout_m
             return INVALID_SOCKET_HANDLE;
         }
 
-        // 1. Try to get an idle connection
-        if (pool->idle_head) {
-            // Get connection from head of idle list (most recently used)
-            mcp_pooled_connection_t* pooled_conn = pool->idle_head;
-
-            // Update head pointer
-            pool->idle_head = pooled_conn->next;
-
-            // Update tail pointer if this was the last connection
-            if (pool->idle_head == NULL) {
-                pool->idle_tail = NULL;
-            } else {
-                // Update prev pointer of new head
-                pool->idle_head->prev = NULL;
-            }
+        // 1. Try to get an idle connection (most recently used first) that maintenance is not checking
+        mcp_pooled_connection_t* pooled_conn = pool->idle_head;
+        while (pooled_conn && pooled_conn->is_being_checked) {
+            pooled_conn = pooled_conn->next;
+        }
 
-            // Update counts
-            pool->idle_count--;
+        if (pooled_conn) {
+            // Remove it from the idle list and update counts
+            remove_idle_connection(pool, pooled_conn, pooled_conn->prev);
             pool->active_count++;
             pool->total_connection_gets++;
 
diff --git a/src/connection_pool/mcp_connection_pool_health.c b/src/connection_pool/mcp_connection_pool_health.c
index 32d96eb..788b54e 100644
--- a/src/connection_pool/mcp_connection_pool_health.c
+++ b/src/connection_pool/mcp_connection_pool_health.c
@@ -370,6 +370,9 @@ int perform_health_checks(mcp_connection_pool_t* pool) {
         }
     }
 
+    // The connections that were being checked can be lent again
+    pool_broadcast(pool);
+
     // Calculate and log the time taken for health checks
     long long health_check_end_ms = mcp_get_time_ms();
     long long health_check_time_ms = health_check_end_ms - health_check_start_ms;
-- 
2.43.0


From 0a67d43d8715f87e056bb4cc95b356aad360f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:20 +0000
Subject: [PATCH 090/126] fix: never release DNS results that are in use

The slot for a new result was chosen before the lookup and reused after it
without another look, so a result cached meanwhile by another thread, or
slot 0 when every entry was in use, was freed while a connection attempt
still used it. The slot is now chosen under the write lock, entries in use
stay, and a result that finds no room is freed on release.
---
 .../mcp_connection_pool_dns_cache.c           | 85 +++++++++++--------
 1 file changed, 49 insertions(+), 36 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index 0c0d224..ded46c7 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -166,11 +166,6 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
 
     time_t current_time = time(NULL);
     struct addrinfo* result = NULL;
-    int empty_slot = -1;
-    int oldest_slot = 0;
-    int least_used_slot = 0;
-    time_t oldest_time = current_time;
-    uint32_t least_hits = UINT32_MAX;
 
     mcp_rwlock_read_lock(g_dns_cache.rwlock);
 
@@ -178,25 +173,6 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
     for (int i = 0; i < DNS_CACHE_SIZE; i++) {
         mcp_mutex_lock(g_dns_cache.entries[i].mutex);
 
-        // Track empty slots and replacement candidates
-        if (g_dns_cache.entries[i].hostname[0] == '\0') {
-            if (empty_slot == -1) {
-                empty_slot = i;
-            }
-        } else if (g_dns_cache.entries[i].ref_count == 0) {
-            // Track oldest entry
-            if (g_dns_cache.entries[i].timestamp < oldest_time) {
-                oldest_time = g_dns_cache.entries[i].timestamp;
-                oldest_slot = i;
-            }
-
-            // Track least frequently used entry
-            if (g_dns_cache.entries[i].hit_count < least_hits) {
-                least_hits = g_dns_cache.entries[i].hit_count;
-                least_used_slot = i;
-            }
-        }
-
         // Check if this entry matches our hostname and port
         if (g_dns_cache.entries[i].hostname[0] != '\0' &&
             strcmp(g_dns_cache.entries[i].hostname, cache_key) == 0) {
@@ -235,12 +211,13 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
                              cache_key, g_dns_cache.entries[i].ref_count,
                              g_dns_cache.entries[i].hit_count);
             }
-
-            mcp_mutex_unlock(g_dns_cache.entries[i].mutex);
-            break;
         }
 
         mcp_mutex_unlock(g_dns_cache.entries[i].mutex);
+
+        if (result) {
+            break;
+        }
     }
 
     // Unlock read lock before potentially upgrading to write lock
@@ -266,15 +243,43 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
         // Update statistics
         g_dns_cache.misses++;
 
-        // Choose a slot for the new entry - prefer empty, then least used, then oldest
-        int slot;
-        if (empty_slot != -1) {
-            slot = empty_slot;
-        } else if (least_used_slot != oldest_slot) {
-            // If we have a least used slot that's different from oldest, prefer it
-            slot = least_used_slot;
-        } else {
-            slot = oldest_slot;
+        // Choose a slot for the new entry - prefer empty, then least used, then oldest.
+        // Entries in use are never replaced.
+        int slot = -1;
+        for (int i = 0; i < DNS_CACHE_SIZE; i++) {
+            dns_cache_entry_t* entry = &g_dns_cache.entries[i];
+
+            // Another thread may have cached this hostname during our lookup
+            if (entry->hostname[0] != '\0' && strcmp(entry->hostname, cache_key) == 0 &&
+                current_time - entry->timestamp <= DNS_CACHE_EXPIRY) {
+                entry->ref_count++;
+                entry->hit_count++;
+                result = entry->addr_info;
+                break;
+            }
+
+            if (entry->ref_count > 0) {
+                continue;
+            }
+
+            dns_cache_entry_t* best = slot >= 0 ? &g_dns_cache.entries[slot] : NULL;
+            if (!best) {
+                slot = i;
+            } else if (best->hostname[0] != '\0' &&
+                       (entry->hostname[0] == '\0' || entry->hit_count < best->hit_count ||
+                        (entry->hit_count == best->hit_count && entry->timestamp < best->timestamp))) {
+                slot = i;
+            }
+        }
+
+        if (result || slot < 0) {
+            mcp_rwlock_write_unlock(g_dns_cache.rwlock);
+            if (result) {
+                freeaddrinfo(new_addr_info);
+                return result;
+            }
+            // No entry can be replaced: dns_cache_release will free this result
+            return new_addr_info;
         }
 
         mcp_mutex_lock(g_dns_cache.entries[slot].mutex);
@@ -323,6 +328,8 @@ void dns_cache_release(struct addrinfo* addr_info) {
         return;
     }
 
+    bool cached = false;
+
     // Use read lock for better concurrency
     mcp_rwlock_read_lock(g_dns_cache.rwlock);
 
@@ -331,6 +338,7 @@ void dns_cache_release(struct addrinfo* addr_info) {
         mcp_mutex_lock(g_dns_cache.entries[i].mutex);
 
         if (g_dns_cache.entries[i].addr_info == addr_info) {
+            cached = true;
             // Found it, decrement reference count
             if (g_dns_cache.entries[i].ref_count > 0) {
                 g_dns_cache.entries[i].ref_count--;
@@ -348,4 +356,9 @@ void dns_cache_release(struct addrinfo* addr_info) {
     }
 
     mcp_rwlock_read_unlock(g_dns_cache.rwlock);
+
+    // A result that found no room in the cache belongs to the caller alone
+    if (!cached) {
+        freeaddrinfo(addr_info);
+    }
 }
-- 
2.43.0


From 65d4f31ec44774fc26b961eb30ed36f8c79e9be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:20 +0000
Subject: [PATCH 091/126] fix: initialise the DNS cache once

Two first connections could both find the cache uninitialised and create
its locks and clear its entries under each other.
---
 .../mcp_connection_pool_dns_cache.c           | 19 +++++++++++++++++++
 .../mcp_connection_pool_socket.c              |  4 +---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index ded46c7..aa057fa 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -8,6 +8,19 @@
 // Global DNS cache instance
 MCP_CACHE_ALIGNED dns_cache_t g_dns_cache = {0};
 
+// Serializes initialization, which the first connections may attempt at the same time
+#ifdef _WIN32
+static SRWLOCK g_dns_cache_init_lock = SRWLOCK_INIT;
+#define DNS_CACHE_INIT_LOCK() AcquireSRWLockExclusive(&g_dns_cache_init_lock)
+#define DNS_CACHE_INIT_UNLOCK() ReleaseSRWLockExclusive(&g_dns_cache_init_lock)
+#else
+static pthread_mutex_t g_dns_cache_init_lock = PTHREAD_MUTEX_INITIALIZER;
+#define DNS_CACHE_INIT_LOCK() pthread_mutex_lock(&g_dns_cache_init_lock)
+#define DNS_CACHE_INIT_UNLOCK() pthread_mutex_unlock(&g_dns_cache_init_lock)
+#endif
+
+static void dns_cache_init_locked(void);
+
 /**
  * @brief Initializes the DNS cache.
  *
@@ -15,6 +28,12 @@ MCP_CACHE_ALIGNED dns_cache_t g_dns_cache = {0};
  * initializing all cache entries.
  */
 void dns_cache_init() {
+    DNS_CACHE_INIT_LOCK();
+    dns_cache_init_locked();
+    DNS_CACHE_INIT_UNLOCK();
+}
+
+static void dns_cache_init_locked(void) {
     // Check if already initialized
     if (g_dns_cache.initialized) {
         return;
diff --git a/src/connection_pool/mcp_connection_pool_socket.c b/src/connection_pool/mcp_connection_pool_socket.c
index d46e60a..97edf6c 100644
--- a/src/connection_pool/mcp_connection_pool_socket.c
+++ b/src/connection_pool/mcp_connection_pool_socket.c
@@ -163,9 +163,7 @@ socket_handle_t create_new_connection(const char* host, int port, int connect_ti
     // It's generally not safe to call WSAStartup/WSACleanup per connection.
 
     // Initialize DNS cache if not already initialized
-    if (!g_dns_cache.initialized) {
-        dns_cache_init();
-    }
+    dns_cache_init();
 
     // Set up hints for the type of socket we want
     memset(&hints, 0, sizeof hints);
-- 
2.43.0


From 57b6686aed246a1979bc954047271c5c0278a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:05 +0000
Subject: [PATCH 092/126] fix: room for the port in DNS cache keys of long host
 names

Keys of hosts with names of 250 bytes and more lost digits of the port, so
one port's addresses were used for another.
---
 src/connection_pool/internal/connection_pool_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection_pool/internal/connection_pool_internal.h b/src/connection_pool/internal/connection_pool_internal.h
index de4b4ba..e604a73 100644
--- a/src/connection_pool/internal/connection_pool_internal.h
+++ b/src/connection_pool/internal/connection_pool_internal.h
@@ -24,7 +24,7 @@
 #define DNS_CACHE_EXPIRY 300 // 5 minutes
 
 // Maximum hostname length (including port and null terminator)
-#define DNS_CACHE_MAX_HOSTNAME 256
+#define DNS_CACHE_MAX_HOSTNAME 272
 
 // Platform-specific includes for sockets
 #ifdef _WIN32
-- 
2.43.0


From e6b481ef31e2dfb2e722cbe927a6b81dc7c61675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:00:48 +0000
Subject: [PATCH 093/126] fix: compare the whole address with a template

mcp_template_matches accepted anything for a parameter at the end, and
mcp_template_extract_params ignored what followed the template. Both looked
only for the first character after a parameter, and went on without the
literal text after an optional one. They now answer like the cached
versions: a value ends at the text after it and is always validated.
---
 src/common/mcp_template.c | 121 ++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 64 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 8cf91ba..6c9a8fc 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -590,6 +590,40 @@ char* mcp_template_expand(const char* template, const mcp_json_t* params) {
     return expanded;
 }
 
+/**
+ * @brief Finds the end of a parameter value in a URI.
+ *
+ * A value ends where the literal text after its placeholder first occurs.
+ *
+ * @param value_start The start of the value in the URI
+ * @param rest The template text after the placeholder
+ * @return Pointer to the end of the value, or NULL if the literal text does not occur
+ */
+static const char* find_value_end(const char* value_start, const char* rest) {
+    size_t static_len = strcspn(rest, "{");
+    if (static_len == 0) {
+        // Nothing delimits the value, it takes the rest of the URI
+        return value_start + strlen(value_start);
+    }
+
+    for (const char* u = value_start; *u; u++) {
+        if (strncmp(u, rest, static_len) == 0) {
+            return u;
+        }
+    }
+    return NULL;
+}
+
+/**
+ * @brief Checks a value taken from a URI: an empty one is only valid for optional parameters.
+ */
+static int validate_uri_value(const char* value, const mcp_template_param_validation_t* validation) {
+    if (value[0] == '\0') {
+        return !validation->required;
+    }
+    return mcp_template_validate_param(value, validation);
+}
+
 /**
  * @brief Checks if a URI matches a template pattern.
  *
@@ -648,35 +682,16 @@ int mcp_template_matches(const char* uri, const char* template) {
             // Skip to the next static part of the template
             t = end + 1;
 
-            // Find the next static character in the template
-            char next_static = *t;
-            if (next_static == '\0') {
-                // This placeholder is at the end of the template
-                // The rest of the URI can be anything
-                mcp_log_debug("Parameter '%s' is at the end of the template", param_name);
-                mcp_template_free_validation(&validation);
-                return 1;
-            }
-
-            // Find the next occurrence of the static character in the URI
-            const char* next_static_in_uri = strchr(u, next_static);
-            if (next_static_in_uri == NULL) {
-                // Static character not found in URI
-                if (!validation.required) {
-                    // If the parameter is optional, we can skip it
-                    // and continue matching from the next static character
-                    mcp_log_debug("Optional parameter '%s' not found in URI, skipping", param_name);
-                    mcp_template_free_validation(&validation);
-                    t = t - 1; // Back up to the static character
-                    continue;
-                }
-                mcp_log_debug("Required parameter '%s' not found in URI", param_name);
+            // The value ends at the literal text after the placeholder
+            const char* value_end = find_value_end(u, t);
+            if (value_end == NULL) {
+                mcp_log_debug("Text after parameter '%s' not found in URI", param_name);
                 mcp_template_free_validation(&validation);
                 return 0;
             }
 
             // Extract the parameter value from the URI
-            size_t value_len = next_static_in_uri - u;
+            size_t value_len = value_end - u;
             char value[256]; // Use stack buffer instead of malloc
             if (value_len >= sizeof(value)) {
                 // Value too long
@@ -690,7 +705,7 @@ int mcp_template_matches(const char* uri, const char* template) {
             mcp_log_debug("Extracted parameter '%s' value: '%s'", param_name, value);
 
             // Validate the parameter value
-            int valid = mcp_template_validate_param(value, &validation);
+            int valid = validate_uri_value(value, &validation);
             mcp_template_free_validation(&validation);
 
             if (!valid) {
@@ -699,8 +714,8 @@ int mcp_template_matches(const char* uri, const char* template) {
                 return 0;
             }
 
-            // Skip to the static character in the URI
-            u = next_static_in_uri;
+            // Skip past the value in the URI
+            u = value_end;
         } else if (*u == *t) {
             // Characters match
             u++;
@@ -772,44 +787,16 @@ mcp_json_t* mcp_template_extract_params(const char* uri, const char* template) {
                 return NULL;
             }
 
-            // Find the end of the parameter value in the URI
-            const char* value_start = u;
-            const char* value_end = NULL;
-
-            // The value ends at the next static part of the template
+            // The value ends at the literal text after the placeholder
             t = end + 1;
-            if (*t == '\0') {
-                // This placeholder is at the end of the template
-                // The value is the rest of the URI
-                value_end = value_start + strlen(value_start);
-            } else {
-                // Find the next static character in the URI
-                char next_static = *t;
-                const char* next_static_in_uri = strchr(u, next_static);
-                if (next_static_in_uri == NULL) {
-                    // Static character not found in URI
-                    if (!validation.required) {
-                        // If the parameter is optional, we can skip it
-                        // and continue matching from the next static character
-                        if (validation.default_value != NULL) {
-                            // Add default value to JSON object
-                            mcp_json_t* value_node = mcp_json_string_create(validation.default_value);
-                            if (value_node == NULL || mcp_json_object_set_property(params, param_name, value_node) != 0) {
-                                mcp_template_free_validation(&validation);
-                                mcp_json_destroy(params);
-                                return NULL;
-                            }
-                        }
-                        mcp_template_free_validation(&validation);
-                        continue;
-                    }
-                    mcp_template_free_validation(&validation);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-                value_end = next_static_in_uri;
-                u = next_static_in_uri;
+            const char* value_start = u;
+            const char* value_end = find_value_end(u, t);
+            if (value_end == NULL) {
+                mcp_template_free_validation(&validation);
+                mcp_json_destroy(params);
+                return NULL;
             }
+            u = value_end;
 
             // Extract parameter value
             size_t value_len = value_end - value_start;
@@ -824,7 +811,7 @@ mcp_json_t* mcp_template_extract_params(const char* uri, const char* template) {
             value[value_len] = '\0';
 
             // Validate parameter value
-            if (!mcp_template_validate_param(value, &validation)) {
+            if (!validate_uri_value(value, &validation)) {
                 // Parameter value is invalid
                 mcp_template_free_validation(&validation);
                 mcp_json_destroy(params);
@@ -875,5 +862,11 @@ mcp_json_t* mcp_template_extract_params(const char* uri, const char* template) {
         }
     }
 
+    // The URI must be consumed entirely
+    if (*u != '\0') {
+        mcp_json_destroy(params);
+        return NULL;
+    }
+
     return params;
 }
-- 
2.43.0


From fea1ddcbd47db73a1c0bb04f48d19e1d7d931f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:00:48 +0000
Subject: [PATCH 094/126] fix: omitted optional parameters in addresses

The cached matcher accepted addresses without the literal text after an
optional parameter, and refused to extract an omitted number or boolean
from addresses that it matched. An omitted value now gives the default.
---
 src/common/mcp_template.c           |  55 ++++++----
 src/common/mcp_template_optimized.c | 156 +++-------------------------
 2 files changed, 46 insertions(+), 165 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 6c9a8fc..2f39c9c 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -732,6 +732,37 @@ int mcp_template_matches(const char* uri, const char* template) {
     return (*u == '\0');
 }
 
+/**
+ * @brief Creates the JSON value of a parameter from its validated text.
+ *
+ * The default value, if any, stands for an omitted (empty) value that is not a string.
+ *
+ * @param value The text of the value
+ * @param validation The validation rules of the parameter
+ * @return A newly created JSON value, or NULL on error
+ */
+mcp_json_t* mcp_template_create_param_value(const char* value, const mcp_template_param_validation_t* validation) {
+    mcp_template_param_type_t type = validation->type;
+    if (value[0] == '\0') {
+        if (validation->default_value == NULL) {
+            type = MCP_TEMPLATE_PARAM_TYPE_STRING;
+        } else if (type != MCP_TEMPLATE_PARAM_TYPE_STRING) {
+            value = validation->default_value;
+        }
+    }
+
+    switch (type) {
+        case MCP_TEMPLATE_PARAM_TYPE_INT:
+            return mcp_json_number_create((double)strtol(value, NULL, 10));
+        case MCP_TEMPLATE_PARAM_TYPE_FLOAT:
+            return mcp_json_number_create((double)strtof(value, NULL));
+        case MCP_TEMPLATE_PARAM_TYPE_BOOL:
+            return mcp_json_boolean_create(strcmp(value, "true") == 0 || strcmp(value, "1") == 0);
+        default:
+            return mcp_json_string_create(value);
+    }
+}
+
 /**
  * @brief Extracts parameter values from a URI based on a template pattern.
  *
@@ -819,29 +850,7 @@ mcp_json_t* mcp_template_extract_params(const char* uri, const char* template) {
             }
 
             // Convert value to appropriate type based on validation
-            mcp_json_t* value_node = NULL;
-            switch (validation.type) {
-                case MCP_TEMPLATE_PARAM_TYPE_INT: {
-                    long int_val = strtol(value, NULL, 10);
-                    value_node = mcp_json_number_create((double)int_val);
-                    break;
-                }
-                case MCP_TEMPLATE_PARAM_TYPE_FLOAT: {
-                    float float_val = strtof(value, NULL);
-                    value_node = mcp_json_number_create((double)float_val);
-                    break;
-                }
-                case MCP_TEMPLATE_PARAM_TYPE_BOOL: {
-                    bool bool_val = (strcmp(value, "true") == 0 || strcmp(value, "1") == 0);
-                    value_node = mcp_json_boolean_create(bool_val);
-                    break;
-                }
-                case MCP_TEMPLATE_PARAM_TYPE_STRING:
-                case MCP_TEMPLATE_PARAM_TYPE_CUSTOM:
-                default:
-                    value_node = mcp_json_string_create(value);
-                    break;
-            }
+            mcp_json_t* value_node = mcp_template_create_param_value(value, &validation);
 
             // Add parameter to JSON object
             if (value_node == NULL || mcp_json_object_set_property(params, param_name, value_node) != 0) {
diff --git a/src/common/mcp_template_optimized.c b/src/common/mcp_template_optimized.c
index 6b99d1d..499eda2 100644
--- a/src/common/mcp_template_optimized.c
+++ b/src/common/mcp_template_optimized.c
@@ -7,6 +7,7 @@
 
 // Forward declaration of internal functions from mcp_template.c
 extern void mcp_template_free_validation(mcp_template_param_validation_t* validation);
+extern mcp_json_t* mcp_template_create_param_value(const char* value, const mcp_template_param_validation_t* validation);
 extern int mcp_template_parse_param_spec(const char* param_spec, char* param_name, size_t param_name_size, mcp_template_param_validation_t* validation);
 
 /**
@@ -434,17 +435,10 @@ int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
         mcp_log_debug("Parameter %zu: name='%s', type=%d, next_static='%s'",
                      i, cached->param_names[i], cached->validations[i].type, next_static);
 
-        // If the next static part is not found, check if the parameter is optional
+        // Without the literal text after the parameter the URI does not match
         if (next_static_in_uri == NULL) {
-            if (!cached->validations[i].required) {
-                // Optional parameter, skip it
-                mcp_log_debug("Optional parameter '%s' not found in URI, skipping", cached->param_names[i]);
-                continue;
-            } else {
-                // Required parameter not found
-                mcp_log_debug("Required parameter '%s' not found in URI", cached->param_names[i]);
-                return 0;
-            }
+            mcp_log_debug("Text after parameter '%s' not found in URI", cached->param_names[i]);
+            return 0;
         }
 
         // Extract the parameter value
@@ -534,51 +528,10 @@ mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* t
         const size_t next_static_len = cached->static_part_lengths[i + 1];
         const char* next_static_in_uri = find_next_static_part(u, next_static, next_static_len);
 
-        // If the next static part is not found, check if the parameter is optional
+        // Without the literal text after the parameter the URI does not match
         if (next_static_in_uri == NULL) {
-            if (!cached->validations[i].required) {
-                // Optional parameter, use default value if available
-                if (cached->validations[i].default_value != NULL) {
-                    // Add the default value to the params
-                    mcp_json_t* value = NULL;
-
-                    // Create the appropriate JSON value based on the parameter type
-                    switch (cached->validations[i].type) {
-                        case MCP_TEMPLATE_PARAM_TYPE_INT:
-                            value = mcp_json_number_create(atoi(cached->validations[i].default_value));
-                            break;
-                        case MCP_TEMPLATE_PARAM_TYPE_FLOAT:
-                            value = mcp_json_number_create(atof(cached->validations[i].default_value));
-                            break;
-                        case MCP_TEMPLATE_PARAM_TYPE_BOOL:
-                            value = mcp_json_boolean_create(
-                                strcmp(cached->validations[i].default_value, "true") == 0 ||
-                                strcmp(cached->validations[i].default_value, "1") == 0
-                            );
-                            break;
-                        default:
-                            value = mcp_json_string_create(cached->validations[i].default_value);
-                            break;
-                    }
-
-                    if (value != NULL) {
-                        mcp_json_object_set_property(params, cached->param_names[i], value);
-                    }
-                } else {
-                    // No default value, add an empty string
-                    mcp_json_t* value = mcp_json_string_create("");
-                    if (value != NULL) {
-                        mcp_json_object_set_property(params, cached->param_names[i], value);
-                    }
-                }
-
-                // Skip this parameter
-                continue;
-            } else {
-                // Required parameter not found - this shouldn't happen if the URI matched the template
-                mcp_json_destroy(params);
-                return NULL;
-            }
+            mcp_json_destroy(params);
+            return NULL;
         }
 
         // Extract the parameter value
@@ -592,96 +545,15 @@ mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* t
         memcpy(param_value, u, param_len);
         param_value[param_len] = '\0';
 
-        // Create the appropriate JSON value based on the parameter type
-        mcp_json_t* value = NULL;
-
-        switch (cached->validations[i].type) {
-            case MCP_TEMPLATE_PARAM_TYPE_INT: {
-                // Validate that the string is a valid integer
-                char* endptr;
-                long int_val = strtol(param_value, &endptr, 10);
-
-                // If endptr points to the first character, no conversion was performed
-                if (endptr == param_value) {
-                    mcp_log_debug("Integer validation failed: '%s' is not a valid integer (no conversion)", param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // If endptr doesn't point to the null terminator, there are invalid characters
-                if (*endptr != '\0') {
-                    mcp_log_debug("Integer validation failed: '%s' is not a valid integer (invalid chars: '%s')", param_value, endptr);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // Check range
-                if (int_val < cached->validations[i].range.int_range.min || int_val > cached->validations[i].range.int_range.max) {
-                    mcp_log_debug("Integer range validation failed: %ld not in range [%d, %d]",
-                                 int_val, cached->validations[i].range.int_range.min, cached->validations[i].range.int_range.max);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_number_create((double)int_val);
-                break;
-            }
-            case MCP_TEMPLATE_PARAM_TYPE_FLOAT: {
-                // Validate that the string is a valid float
-                char* endptr;
-                float float_val = strtof(param_value, &endptr);
-
-                // If endptr points to the first character, no conversion was performed
-                if (endptr == param_value) {
-                    mcp_log_debug("Float validation failed: '%s' is not a valid float (no conversion)", param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // If endptr doesn't point to the null terminator, there are invalid characters
-                if (*endptr != '\0') {
-                    mcp_log_debug("Float validation failed: '%s' is not a valid float (invalid chars: '%s')", param_value, endptr);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // Check range
-                if (float_val < cached->validations[i].range.float_range.min || float_val > cached->validations[i].range.float_range.max) {
-                    mcp_log_debug("Float range validation failed: %f not in range [%f, %f]",
-                                 float_val, cached->validations[i].range.float_range.min, cached->validations[i].range.float_range.max);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_number_create((double)float_val);
-                break;
-            }
-            case MCP_TEMPLATE_PARAM_TYPE_BOOL:
-                // Validate that the string is a valid boolean
-                if (strcmp(param_value, "true") != 0 && strcmp(param_value, "false") != 0 &&
-                    strcmp(param_value, "1") != 0 && strcmp(param_value, "0") != 0) {
-                    mcp_log_debug("Boolean validation failed: '%s' is not a valid boolean", param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_boolean_create(
-                    strcmp(param_value, "true") == 0 ||
-                    strcmp(param_value, "1") == 0
-                );
-                break;
-            default:
-                // For string and custom types, just validate using the standard function
-                if (!validate_param_value(param_value, &cached->validations[i])) {
-                    mcp_log_debug("Parameter '%s' value '%s' is invalid", cached->param_names[i], param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_string_create(param_value);
-                break;
+        // Validate the parameter value
+        if (!validate_param_value(param_value, &cached->validations[i])) {
+            mcp_log_debug("Parameter '%s' value '%s' is invalid", cached->param_names[i], param_value);
+            mcp_json_destroy(params);
+            return NULL;
         }
 
+        // Create the appropriate JSON value based on the parameter type
+        mcp_json_t* value = mcp_template_create_param_value(param_value, &cached->validations[i]);
         if (value == NULL) {
             mcp_json_destroy(params);
             return NULL;
-- 
2.43.0


From 841748a692c824a84729528adcffff22c3191921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:13 +0000
Subject: [PATCH 095/126] fix: make {name:type?} an optional parameter

The documented question mark after a type was ignored, and with it the
default value that may follow.
---
 src/common/mcp_template.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 2f39c9c..b851a66 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -191,6 +191,12 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
         }
 
         name_end = type_end;
+
+        // Check for optional parameter
+        if (*name_end == '?') {
+            validation->required = false;
+            name_end++;
+        }
     }
 
     // Check for default value
-- 
2.43.0


From c09643e9238a79ef494a001cbda97cef269af2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:13 +0000
Subject: [PATCH 096/126] fix: keep patterns longer than 23 characters

The type of a parameter was cut to 31 characters including "pattern:", so
that longer patterns compared with something else.
---
 src/common/mcp_template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index b851a66..fefd58b 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -158,7 +158,7 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
         }
 
         // Extract the type
-        char type_str[32] = {0};
+        char type_str[256] = {0}; // Large enough for any parameter spec
         size_t type_len = type_end - name_end;
         if (type_len >= sizeof(type_str)) {
             type_len = sizeof(type_str) - 1;
-- 
2.43.0


From ffd5070146a9f5e55175d6a7487159a249332dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:13 +0000
Subject: [PATCH 097/126] fix: expand templates with omitted optional numbers
 and booleans

The empty text of an omitted parameter was checked as a number or boolean
and the expansion refused.
---
 src/common/mcp_template.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index fefd58b..c80907c 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -458,8 +458,9 @@ static int process_template_param(
         }
     }
 
-    // Validate parameter value
-    if (param_value != NULL && !mcp_template_validate_param(param_value, validation)) {
+    // Validate parameter value (an optional parameter may be left empty)
+    bool omitted = !validation->required && param_value[0] == '\0';
+    if (!omitted && !mcp_template_validate_param(param_value, validation)) {
         // Parameter value is invalid
         mcp_log_warn("Template parameter '%s' value '%s' is invalid", param_name, param_value);
         return -1;
-- 
2.43.0


From c8688f99fda4697411ecdd123f427b79e281b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:13 +0000
Subject: [PATCH 098/126] fix: expand templates with the numbers given

Whole numbers beyond the range of int became 3e+09 and fractions lost all
digits after the sixth. The text was also kept in a static buffer that
threads expanding templates at the same time shared.
---
 src/common/mcp_template.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index c80907c..3ad2cf8 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -398,6 +398,8 @@ int mcp_template_validate_param(const char* value, const mcp_template_param_vali
  * @param param_name Buffer to store the parameter name
  * @param param_name_size Size of the param_name buffer
  * @param params JSON object containing parameter values
+ * @param number_str Buffer for the text of a number
+ * @param number_str_size Size of the number_str buffer
  * @param param_value_out Pointer to store the parameter value
  * @param validation Validation structure to fill
  * @return 0 on success, -1 on error
@@ -407,6 +409,8 @@ static int process_template_param(
     char* param_name,
     size_t param_name_size,
     const mcp_json_t* params,
+    char* number_str,
+    size_t number_str_size,
     const char** param_value_out,
     mcp_template_param_validation_t* validation
 ) {
@@ -428,15 +432,12 @@ static int process_template_param(
     }
     // Handle number values by converting to string
     else if (value_node != NULL && mcp_json_get_type(value_node) == MCP_JSON_NUMBER) {
-        // Convert number to string using a static buffer
-        static char number_str[64]; // Should be enough for any reasonable number
         double number_value;
         if (mcp_json_get_number(value_node, &number_value) == 0) {
-            // Format as integer if it's a whole number
-            if (number_value == (int)number_value) {
-                snprintf(number_str, sizeof(number_str), "%d", (int)number_value);
-            } else {
-                snprintf(number_str, sizeof(number_str), "%g", number_value);
+            // Use as few digits as give the number again, and no exponent for a whole number
+            snprintf(number_str, number_str_size, "%.15g", number_value);
+            if (strtod(number_str, NULL) != number_value) {
+                snprintf(number_str, number_str_size, "%.17g", number_value);
             }
             param_value = number_str;
             param_found = true;
@@ -515,10 +516,11 @@ char* mcp_template_expand(const char* template, const mcp_json_t* params) {
             char param_name[128];
             mcp_template_param_validation_t validation;
             const char* param_value = NULL;
+            char number_str[64]; // Should be enough for any reasonable number
 
             int result = process_template_param(
                 param_spec, param_name, sizeof(param_name),
-                params, &param_value, &validation
+                params, number_str, sizeof(number_str), &param_value, &validation
             );
 
             if (result != 0) {
@@ -565,10 +567,11 @@ char* mcp_template_expand(const char* template, const mcp_json_t* params) {
             char param_name[128];
             mcp_template_param_validation_t validation;
             const char* param_value = NULL;
+            char number_str[64]; // Should be enough for any reasonable number
 
             int result = process_template_param(
                 param_spec, param_name, sizeof(param_name),
-                params, &param_value, &validation
+                params, number_str, sizeof(number_str), &param_value, &validation
             );
 
             if (result != 0) {
-- 
2.43.0


From ab8dd1d08d7bca3a195afcceba1ca678d58e8668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:13 +0000
Subject: [PATCH 099/126] fix: expand templates with boolean values

Extracting a bool parameter gives a boolean, but expanding a template with
a boolean treated the parameter as missing.
---
 src/common/mcp_template.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 3ad2cf8..2bc80a3 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -444,6 +444,15 @@ static int process_template_param(
         }
     }
 
+    // Handle boolean values
+    else if (value_node != NULL && mcp_json_get_type(value_node) == MCP_JSON_BOOLEAN) {
+        bool bool_value = false;
+        if (mcp_json_get_boolean(value_node, &bool_value) == 0) {
+            param_value = bool_value ? "true" : "false";
+            param_found = true;
+        }
+    }
+
     // Handle missing parameters
     if (!param_found) {
         if (validation->required) {
-- 
2.43.0


From 3950e2fdd115d25383173ce9368797bf72f5a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:13 +0000
Subject: [PATCH 100/126] fix: refuse nan and nothing as float parameters

Comparing nan with the range is always false, so it passed the check and
became a number that JSON cannot hold.
---
 src/common/mcp_template.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 2bc80a3..cceadec 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -271,14 +271,14 @@ int mcp_template_validate_param(const char* value, const mcp_template_param_vali
             // Check if the value is a valid float
             char* endptr;
             float float_val = strtof(value, &endptr);
-            if (*endptr != '\0') {
+            if (endptr == value || *endptr != '\0') {
                 // Not a valid float
                 mcp_log_debug("Float validation failed: '%s' is not a valid float", value);
                 return 0;
             }
 
             // Check range
-            if (float_val < validation->range.float_range.min || float_val > validation->range.float_range.max) {
+            if (!(float_val >= validation->range.float_range.min && float_val <= validation->range.float_range.max)) {
                 mcp_log_debug("Float range validation failed: %f not in range [%f, %f]",
                              float_val, validation->range.float_range.min, validation->range.float_range.max);
                 return 0;
-- 
2.43.0


From 8eb20d62a828f7cdd6ea27b99e9ce2a7c5868a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:13 +0000
Subject: [PATCH 101/126] fix: count the placeholders of a cached template as
 they are parsed

A template such as {a{b} counted two placeholders and parsed one, leaving a
parameter without a name.
---
 src/common/mcp_template_optimized.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_template_optimized.c b/src/common/mcp_template_optimized.c
index 499eda2..527a517 100644
--- a/src/common/mcp_template_optimized.c
+++ b/src/common/mcp_template_optimized.c
@@ -169,7 +169,9 @@ static mcp_cached_template_t* mcp_template_cache_add(const char* template_uri) {
     size_t param_count = 0;
     while ((p = strchr(p, '{')) != NULL) {
         param_count++;
-        p++;
+        // Braces inside a placeholder do not start another one
+        const char* placeholder_end = strchr(p, '}');
+        p = placeholder_end ? placeholder_end : p + 1;
     }
 
     cached->param_count = param_count;
-- 
2.43.0


From 201d1f2d37f7a69c1fe5b79ea52f160e377f9a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:03:07 +0000
Subject: [PATCH 102/126] fix: survive running out of memory while parsing
 templates

Freeing a half-built template read its missing arrays, a pattern that could
not be copied left the parameter without one, and values that could not be
added to the result were leaked.
---
 src/common/mcp_template.c           | 10 ++++++++++
 src/common/mcp_template_optimized.c | 10 +++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index cceadec..38a435e 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -184,6 +184,10 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
         } else if (strncmp(type_str, "pattern:", 8) == 0) {
             validation->type = MCP_TEMPLATE_PARAM_TYPE_CUSTOM;
             validation->pattern = mcp_strdup(type_str + 8);
+            if (validation->pattern == NULL) {
+                free(spec_copy);
+                return -1;
+            }
         } else {
             // Default to string
             validation->type = MCP_TEMPLATE_PARAM_TYPE_STRING;
@@ -205,6 +209,11 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
         // The rest of the string is the default value
         validation->default_value = mcp_strdup(name_end);
         validation->required = false; // If there's a default, it's not required
+        if (validation->default_value == NULL) {
+            mcp_template_free_validation(validation);
+            free(spec_copy);
+            return -1;
+        }
     }
 
     free(spec_copy);
@@ -874,6 +883,7 @@ mcp_json_t* mcp_template_extract_params(const char* uri, const char* template) {
             // Add parameter to JSON object
             if (value_node == NULL || mcp_json_object_set_property(params, param_name, value_node) != 0) {
                 mcp_template_free_validation(&validation);
+                mcp_json_destroy(value_node);
                 mcp_json_destroy(params);
                 return NULL;
             }
diff --git a/src/common/mcp_template_optimized.c b/src/common/mcp_template_optimized.c
index 527a517..95a43e6 100644
--- a/src/common/mcp_template_optimized.c
+++ b/src/common/mcp_template_optimized.c
@@ -70,13 +70,13 @@ static void mcp_cached_template_free(mcp_cached_template_t* cached) {
 
     free(cached->template_uri);
 
-    for (size_t i = 0; i < cached->static_count; i++) {
+    for (size_t i = 0; cached->static_parts && i < cached->static_count; i++) {
         free(cached->static_parts[i]);
     }
     free(cached->static_parts);
     free(cached->static_part_lengths);
 
-    for (size_t i = 0; i < cached->param_count; i++) {
+    for (size_t i = 0; cached->param_names && cached->validations && i < cached->param_count; i++) {
         free(cached->param_names[i]);
         mcp_template_free_validation(&cached->validations[i]);
     }
@@ -562,7 +562,11 @@ mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* t
         }
 
         // Add the parameter to the JSON object
-        mcp_json_object_set_property(params, cached->param_names[i], value);
+        if (mcp_json_object_set_property(params, cached->param_names[i], value) != 0) {
+            mcp_json_destroy(value);
+            mcp_json_destroy(params);
+            return NULL;
+        }
 
         // Move past this parameter and static part
         u = next_static_in_uri + next_static_len;
-- 
2.43.0


From 5150478675596cf322f2ae8b094fc4469c4030b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:25 +0000
Subject: [PATCH 103/126] fix: lock the cache of parsed templates

Requests are handled by several threads, and two of them matching templates
at the same time moved and freed entries of the cache under each other.
---
 src/common/mcp_template_optimized.c | 40 +++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/common/mcp_template_optimized.c b/src/common/mcp_template_optimized.c
index 95a43e6..62d270c 100644
--- a/src/common/mcp_template_optimized.c
+++ b/src/common/mcp_template_optimized.c
@@ -4,6 +4,11 @@
 #include <string.h>
 #include <stdlib.h>
 #include <stdio.h>
+#ifdef _WIN32
+#include <windows.h>
+#else
+#include <pthread.h>
+#endif
 
 // Forward declaration of internal functions from mcp_template.c
 extern void mcp_template_free_validation(mcp_template_param_validation_t* validation);
@@ -31,6 +36,18 @@ static mcp_cached_template_t* g_template_cache[MAX_CACHED_TEMPLATES] = {NULL};
 static size_t g_template_cache_count = 0;
 static int g_template_cache_initialized = 0;
 
+// Protects the cache and the templates in it: they are used with the lock held,
+// because another thread may remove them from the cache
+#ifdef _WIN32
+static SRWLOCK g_template_cache_lock = SRWLOCK_INIT;
+#define TEMPLATE_CACHE_LOCK() AcquireSRWLockExclusive(&g_template_cache_lock)
+#define TEMPLATE_CACHE_UNLOCK() ReleaseSRWLockExclusive(&g_template_cache_lock)
+#else
+static pthread_mutex_t g_template_cache_lock = PTHREAD_MUTEX_INITIALIZER;
+#define TEMPLATE_CACHE_LOCK() pthread_mutex_lock(&g_template_cache_lock)
+#define TEMPLATE_CACHE_UNLOCK() pthread_mutex_unlock(&g_template_cache_lock)
+#endif
+
 /**
  * @brief Cache statistics for monitoring and optimization
  */
@@ -397,11 +414,20 @@ static int validate_param_value(const char* value, const mcp_template_param_vali
  * @param template The template pattern to match against
  * @return 1 if the URI matches the template pattern, 0 otherwise
  */
+static int matches_cached(const char* uri, const char* template_uri);
+
 int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
     if (uri == NULL || template_uri == NULL) {
         return 0;
     }
 
+    TEMPLATE_CACHE_LOCK();
+    int result = matches_cached(uri, template_uri);
+    TEMPLATE_CACHE_UNLOCK();
+    return result;
+}
+
+static int matches_cached(const char* uri, const char* template_uri) {
     mcp_log_debug("Matching URI '%s' against template '%s'", uri, template_uri);
 
     // Get or create cached template
@@ -484,11 +510,20 @@ int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
  * @param template The template pattern to match against
  * @return A newly created JSON object containing parameter values, or NULL on error
  */
+static mcp_json_t* extract_params_cached(const char* uri, const char* template_uri);
+
 mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* template_uri) {
     if (uri == NULL || template_uri == NULL) {
         return NULL;
     }
 
+    TEMPLATE_CACHE_LOCK();
+    mcp_json_t* params = extract_params_cached(uri, template_uri);
+    TEMPLATE_CACHE_UNLOCK();
+    return params;
+}
+
+static mcp_json_t* extract_params_cached(const char* uri, const char* template_uri) {
     // Get or create cached template
     mcp_cached_template_t* cached = mcp_template_cache_find(template_uri);
     if (cached == NULL) {
@@ -599,12 +634,14 @@ void mcp_template_cache_get_stats(
     size_t* cache_size,
     size_t* max_cache_size
 ) {
+    TEMPLATE_CACHE_LOCK();
     if (hits) *hits = g_cache_stats.hits;
     if (misses) *misses = g_cache_stats.misses;
     if (evictions) *evictions = g_cache_stats.evictions;
     if (total_lookups) *total_lookups = g_cache_stats.total_lookups;
     if (cache_size) *cache_size = g_template_cache_count;
     if (max_cache_size) *max_cache_size = MAX_CACHED_TEMPLATES;
+    TEMPLATE_CACHE_UNLOCK();
 }
 
 /**
@@ -614,7 +651,9 @@ void mcp_template_cache_get_stats(
  * to free all cached templates.
  */
 void mcp_template_cache_cleanup(void) {
+    TEMPLATE_CACHE_LOCK();
     if (!g_template_cache_initialized) {
+        TEMPLATE_CACHE_UNLOCK();
         return;
     }
 
@@ -631,4 +670,5 @@ void mcp_template_cache_cleanup(void) {
     g_cache_stats.misses = 0;
     g_cache_stats.evictions = 0;
     g_cache_stats.total_lookups = 0;
+    TEMPLATE_CACHE_UNLOCK();
 }
-- 
2.43.0


From c21f93c8524ec8fd068b1b7d9174463c2d7c9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:38:40 +0000
Subject: [PATCH 104/126] fix: parse server-sent events as the format defines
 them

One leading space of a value is dropped, not all. Lines may end with CR.
An event needs data, and its data may be empty or start with an empty line.
The parser tells how much of a chunk it used, so that what follows an event
is not lost.
---
 .../internal/sthttp_transport_internal.h      |  3 ++
 src/transport/mcp_sthttp_sse_parser.c         | 49 ++++++++++++++-----
 2 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index f3a1353..43564f7 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -161,6 +161,9 @@ typedef struct sse_parser_context {
     // Parser state
     bool in_field_value;
     bool field_value_started;
+    bool has_data;              // The event has a data field, possibly an empty one
+    bool last_was_cr;           // The previous byte was a carriage return ending a line
+    size_t consumed;            // Bytes of the last chunk that were processed
 } sse_parser_context_t;
 
 /**
diff --git a/src/transport/mcp_sthttp_sse_parser.c b/src/transport/mcp_sthttp_sse_parser.c
index 47a8b94..a2069cb 100644
--- a/src/transport/mcp_sthttp_sse_parser.c
+++ b/src/transport/mcp_sthttp_sse_parser.c
@@ -97,6 +97,7 @@ void sse_parser_reset(sse_parser_context_t* parser) {
     parser->data_accumulator_length = 0;
     parser->in_field_value = false;
     parser->field_value_started = false;
+    parser->has_data = false;
     
     free(parser->event_id);
     free(parser->event_type);
@@ -162,9 +163,10 @@ static int process_field(sse_parser_context_t* parser) {
             return -1;
         }
         
-        if (parser->data_accumulator_length > 0) {
+        if (parser->has_data) {
             parser->data_accumulator[parser->data_accumulator_length++] = '\n';
         }
+        parser->has_data = true;
         
         memcpy(parser->data_accumulator + parser->data_accumulator_length, 
                parser->current_field_value, value_len);
@@ -191,12 +193,19 @@ static int process_line(sse_parser_context_t* parser) {
     
     // Empty line indicates end of event
     if (parser->line_buffer_length == 0) {
+        // Nothing is dispatched without data
+        if (!parser->has_data) {
+            sse_parser_reset(parser);
+            return 0;
+        }
+
         // Finalize event data
-        if (parser->data_accumulator_length > 0) {
-            free(parser->event_data);
-            parser->event_data = mcp_strdup(parser->data_accumulator);
-            parser->data_accumulator_length = 0;
+        free(parser->event_data);
+        parser->event_data = mcp_strdup(parser->data_accumulator);
+        if (parser->event_data == NULL) {
+            return -1;
         }
+        parser->data_accumulator_length = 0;
         
         parser->state = SSE_PARSE_STATE_EVENT_COMPLETE;
         return 0;
@@ -227,11 +236,13 @@ static int process_line(sse_parser_context_t* parser) {
             }
             parser->current_field_name[parser->field_name_length++] = c;
         } else {
-            // Field value - skip leading space
-            if (!parser->field_value_started && c == ' ') {
-                continue;
+            // Field value - skip one leading space
+            if (!parser->field_value_started) {
+                parser->field_value_started = true;
+                if (c == ' ') {
+                    continue;
+                }
             }
-            parser->field_value_started = true;
             
             if (expand_buffer(&parser->current_field_value, &parser->field_value_capacity, 
                              parser->field_value_length + 2) != 0) {
@@ -247,6 +258,9 @@ static int process_line(sse_parser_context_t* parser) {
 
 /**
  * @brief Process data chunk incrementally
+ *
+ * Stops after an event; parser->consumed tells how much of the chunk was
+ * processed, the rest has to be passed again.
  */
 int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t length, 
                       sse_event_t* event_out) {
@@ -261,8 +275,15 @@ int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t le
            parser->state != SSE_PARSE_STATE_ERROR) {
         
         char c = *ptr++;
-        
-        if (c == '\n') {
+
+        // A line ends with \n, \r or both
+        bool after_cr = parser->last_was_cr;
+        parser->last_was_cr = (c == '\r');
+        if (after_cr && c == '\n') {
+            continue;
+        }
+
+        if (c == '\n' || c == '\r') {
             // End of line - process it
             if (process_line(parser) != 0) {
                 parser->state = SSE_PARSE_STATE_ERROR;
@@ -274,8 +295,8 @@ int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t le
             if (parser->state == SSE_PARSE_STATE_EVENT_COMPLETE) {
                 break;
             }
-        } else if (c != '\r') {
-            // Add character to line buffer (skip \r)
+        } else {
+            // Add character to line buffer
             if (expand_buffer(&parser->line_buffer, &parser->line_buffer_capacity, 
                              parser->line_buffer_length + 2) != 0) {
                 parser->state = SSE_PARSE_STATE_ERROR;
@@ -286,6 +307,8 @@ int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t le
         }
     }
     
+    parser->consumed = ptr - data;
+
     // Fill event structure if parsing is complete
     if (parser->state == SSE_PARSE_STATE_EVENT_COMPLETE && event_out != NULL) {
         memset(event_out, 0, sizeof(sse_event_t));
-- 
2.43.0


From 7ae4bcb868f1436dc5ad26111fb9a8d3a9a8c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:38:40 +0000
Subject: [PATCH 105/126] fix: deliver each event of a stream once

The receive thread passed everything received since the last event to the
incremental parser again with each piece, and dropped what followed an
event in the same piece.
---
 src/transport/mcp_sthttp_client_sse.c | 115 +++++++++++---------------
 1 file changed, 48 insertions(+), 67 deletions(-)

diff --git a/src/transport/mcp_sthttp_client_sse.c b/src/transport/mcp_sthttp_client_sse.c
index 6280ade..0041a19 100644
--- a/src/transport/mcp_sthttp_client_sse.c
+++ b/src/transport/mcp_sthttp_client_sse.c
@@ -445,6 +445,52 @@ void sse_client_disconnect(sthttp_client_data_t* data) {
     mcp_log_info("SSE stream disconnected");
 }
 
+/**
+ * @brief Parse received bytes and deliver the events they complete
+ */
+static int sse_client_deliver_events(sthttp_client_data_t* data, sse_parser_context_t* parser,
+                                     const char* bytes, size_t length) {
+    while (length > 0) {
+        sse_event_t event;
+        int parse_result = sse_parser_process(parser, bytes, length, &event);
+        if (parse_result < 0) {
+            return -1;
+        }
+        bytes += parser->consumed;
+        length -= parser->consumed;
+        if (parse_result == 0) {
+            break; // Need more data
+        }
+
+        // Update last event ID
+        if (event.id) {
+            mcp_mutex_lock(data->sse_mutex);
+            free(data->sse_conn->last_event_id);
+            data->sse_conn->last_event_id = mcp_strdup(event.id);
+            mcp_mutex_unlock(data->sse_mutex);
+        }
+
+        // Update statistics
+        http_client_update_stats(data, "sse_event_received");
+
+        // Call SSE callback
+        if (data->sse_callback) {
+            // Create temporary transport for callback
+            mcp_transport_t temp_transport = {
+                .type = MCP_TRANSPORT_TYPE_CLIENT,
+                .protocol_type = MCP_TRANSPORT_PROTOCOL_HTTP,
+                .transport_data = data
+            };
+            data->sse_callback(&temp_transport, event.id, event.event, event.data, data->sse_callback_user_data);
+        }
+
+        // Free event
+        sse_free_event(&event);
+    }
+
+    return 0;
+}
+
 /**
  * @brief SSE receive thread function with optimized parser
  */
@@ -470,7 +516,7 @@ void* sse_client_thread_func(void* arg) {
             continue; // Timeout or error, continue loop
         }
 
-        ssize_t bytes_received = recv(data->sse_conn->socket_fd, temp_buffer, sizeof(temp_buffer) - 1, 0);
+        ssize_t bytes_received = recv(data->sse_conn->socket_fd, temp_buffer, sizeof(temp_buffer), 0);
         if (bytes_received <= 0) {
             if (bytes_received == 0) {
                 mcp_log_info("SSE connection closed by server");
@@ -479,77 +525,12 @@ void* sse_client_thread_func(void* arg) {
             }
             break;
         }
-        temp_buffer[bytes_received] = '\0';
-
-        // Add to buffer
-        mcp_mutex_lock(data->sse_mutex);
-
-        if (data->sse_conn->buffer_used + bytes_received >= data->sse_conn->buffer_size) {
-            // Expand buffer
-            size_t new_size = data->sse_conn->buffer_size * 2;
-            char* new_buffer = (char*)realloc(data->sse_conn->buffer, new_size);
-            if (new_buffer == NULL) {
-                mcp_log_error("Failed to expand SSE buffer");
-                mcp_mutex_unlock(data->sse_mutex);
-                break;
-            }
-            data->sse_conn->buffer = new_buffer;
-            data->sse_conn->buffer_size = new_size;
-        }
-
-        memcpy(data->sse_conn->buffer + data->sse_conn->buffer_used, temp_buffer, bytes_received);
-        data->sse_conn->buffer_used += bytes_received;
-        data->sse_conn->buffer[data->sse_conn->buffer_used] = '\0';
-
-        mcp_mutex_unlock(data->sse_mutex);
-
-        // Process events using optimized parser
-        mcp_mutex_lock(data->sse_mutex);
-        char* buffer_data = data->sse_conn->buffer;
-        size_t buffer_length = data->sse_conn->buffer_used;
-        mcp_mutex_unlock(data->sse_mutex);
 
-        sse_event_t event;
-        int parse_result = sse_parser_process(parser, buffer_data, buffer_length, &event);
-
-        if (parse_result > 0) {
-            // Event parsed successfully
-            // Update last event ID
-            if (event.id) {
-                mcp_mutex_lock(data->sse_mutex);
-                free(data->sse_conn->last_event_id);
-                data->sse_conn->last_event_id = mcp_strdup(event.id);
-                mcp_mutex_unlock(data->sse_mutex);
-            }
-
-            // Update statistics
-            http_client_update_stats(data, "sse_event_received");
-
-            // Call SSE callback
-            if (data->sse_callback) {
-                // Create temporary transport for callback
-                mcp_transport_t temp_transport = {
-                    .type = MCP_TRANSPORT_TYPE_CLIENT,
-                    .protocol_type = MCP_TRANSPORT_PROTOCOL_HTTP,
-                    .transport_data = data
-                };
-                data->sse_callback(&temp_transport, event.id, event.event, event.data, data->sse_callback_user_data);
-            }
-
-            // Free event
-            sse_free_event(&event);
-
-            // Clear processed data from buffer
-            mcp_mutex_lock(data->sse_mutex);
-            data->sse_conn->buffer_used = 0;
-            mcp_mutex_unlock(data->sse_mutex);
-        } else if (parse_result < 0) {
+        if (sse_client_deliver_events(data, parser, temp_buffer, (size_t)bytes_received) != 0) {
             // Parsing error
             mcp_log_error("SSE parsing error");
             break;
         }
-        // parse_result == 0 means need more data, continue loop
-
     }
 
     // Cleanup
-- 
2.43.0


From ec8bcf87ec7a7318318112db707b67ef5d66e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:00 +0000
Subject: [PATCH 106/126] fix: keep the headers and body of responses to the
 streamable HTTP client

The incremental parser counted the body but threw it away, so that no answer
reached the caller, no session was kept and no event stream was accepted.
It also took chunked and zero-length bodies, bodies that end with the
connection, interim responses, and responses cut short for something else.
What followed the headers of an event stream in the same piece was lost.
---
 .../internal/sthttp_client_internal.h         |   6 +
 .../internal/sthttp_transport_internal.h      |  18 ++
 src/transport/mcp_sthttp_client_core.c        |  81 +++++---
 src/transport/mcp_sthttp_client_sse.c         |   9 +-
 src/transport/mcp_sthttp_http_parser.c        | 186 ++++++++++++++++--
 5 files changed, 258 insertions(+), 42 deletions(-)

diff --git a/src/transport/internal/sthttp_client_internal.h b/src/transport/internal/sthttp_client_internal.h
index 11972a1..cf6cc5f 100644
--- a/src/transport/internal/sthttp_client_internal.h
+++ b/src/transport/internal/sthttp_client_internal.h
@@ -211,6 +211,12 @@ int http_client_receive_response(socket_t socket_fd, char* buffer, size_t buffer
  */
 int http_client_receive_response_optimized(socket_t socket_fd, http_response_t* response, uint32_t timeout_ms);
 
+/**
+ * @brief Receive the headers of an HTTP response; bytes of the body that came with them go to rest
+ */
+int http_client_receive_headers(socket_t socket_fd, http_response_t* response, uint32_t timeout_ms,
+                                char* rest, size_t rest_size, size_t* rest_length);
+
 /**
  * @brief Build HTTP request string
  */
diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index 43564f7..7068cb1 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -127,6 +127,19 @@ typedef struct http_parser_context {
     size_t body_bytes_received;
     size_t chunk_size;
     bool in_chunk_data;
+    bool chunk_end;             // The line break after the data of a chunk follows
+    bool in_trailers;           // The last chunk was read, trailers follow
+
+    // Collected parts of the response
+    char* headers;
+    size_t headers_size;
+    size_t headers_used;
+    char* content_type;
+    char* body;
+    size_t body_size;
+
+    bool headers_only;          // Complete with the end of the headers, the body is left alone
+    size_t consumed;            // Bytes of the last chunk that were processed
 } http_parser_context_t;
 
 /**
@@ -467,6 +480,11 @@ void http_parser_reset(http_parser_context_t* parser);
 int http_parser_process(http_parser_context_t* parser, const char* data, size_t length,
                        http_response_t* response);
 
+/**
+ * @brief Tell the HTTP parser that the connection was closed
+ */
+int http_parser_finish(http_parser_context_t* parser, http_response_t* response);
+
 /**
  * @brief Check if HTTP parsing is complete
  */
diff --git a/src/transport/mcp_sthttp_client_core.c b/src/transport/mcp_sthttp_client_core.c
index f9e922a..6b20b55 100644
--- a/src/transport/mcp_sthttp_client_core.c
+++ b/src/transport/mcp_sthttp_client_core.c
@@ -147,17 +147,15 @@ int http_client_send_raw_request(socket_t socket_fd, const char* request, uint32
 }
 
 /**
- * @brief Receive HTTP response over socket using optimized parser
+ * @brief Receive HTTP response, or only its headers if there is a place for the rest
  */
-int http_client_receive_response_optimized(socket_t socket_fd, http_response_t* response, uint32_t timeout_ms) {
-    if (socket_fd == MCP_INVALID_SOCKET || response == NULL) {
-        return -1;
-    }
-
+static int receive_response(socket_t socket_fd, http_response_t* response, uint32_t timeout_ms,
+                            char* rest, size_t rest_size, size_t* rest_length) {
     http_parser_context_t* parser = http_parser_create();
     if (parser == NULL) {
         return -1;
     }
+    parser->headers_only = rest != NULL;
 
     char temp_buffer[1024];
     int result = 0;
@@ -171,7 +169,11 @@ int http_client_receive_response_optimized(socket_t socket_fd, http_response_t*
         }
 
         if (bytes_received == 0) {
-            break; // Connection closed
+            // Connection closed
+            if (http_parser_finish(parser, response) < 0) {
+                mcp_log_error("Connection closed before the response was complete");
+            }
+            break;
         }
 
         int parse_result = http_parser_process(parser, temp_buffer, bytes_received, response);
@@ -182,6 +184,13 @@ int http_client_receive_response_optimized(socket_t socket_fd, http_response_t*
         } else if (parse_result > 0) {
             // Parsing complete
             result = 0;
+            if (rest != NULL) {
+                *rest_length = (size_t)bytes_received - parser->consumed;
+                if (*rest_length > rest_size) {
+                    *rest_length = rest_size;
+                }
+                memcpy(rest, temp_buffer + parser->consumed, *rest_length);
+            }
             break;
         }
         // parse_result == 0 means need more data, continue loop
@@ -195,6 +204,30 @@ int http_client_receive_response_optimized(socket_t socket_fd, http_response_t*
     return result;
 }
 
+/**
+ * @brief Receive HTTP response over socket using optimized parser
+ */
+int http_client_receive_response_optimized(socket_t socket_fd, http_response_t* response, uint32_t timeout_ms) {
+    if (socket_fd == MCP_INVALID_SOCKET || response == NULL) {
+        return -1;
+    }
+
+    return receive_response(socket_fd, response, timeout_ms, NULL, 0, NULL);
+}
+
+/**
+ * @brief Receive the headers of an HTTP response
+ */
+int http_client_receive_headers(socket_t socket_fd, http_response_t* response, uint32_t timeout_ms,
+                                char* rest, size_t rest_size, size_t* rest_length) {
+    if (socket_fd == MCP_INVALID_SOCKET || response == NULL || rest == NULL || rest_length == NULL) {
+        return -1;
+    }
+
+    *rest_length = 0;
+    return receive_response(socket_fd, response, timeout_ms, rest, rest_size, rest_length);
+}
+
 /**
  * @brief Receive HTTP response over socket (legacy implementation)
  */
@@ -289,35 +322,29 @@ int http_client_send_request(sthttp_client_data_t* data, const char* json_data,
     }
 
     // Receive response
-    char* response_buffer = (char*)malloc(HTTP_CLIENT_BUFFER_SIZE);
-    if (response_buffer == NULL) {
-        mcp_socket_close(socket_fd);
-        return -1;
-    }
-
-    // Try optimized HTTP response receiver first, fallback to legacy if needed
     if (data->use_optimized_parsers) {
         result = http_client_receive_response_optimized(socket_fd, response, data->config.request_timeout_ms);
-        if (result == 0) {
+        mcp_socket_close(socket_fd);
+    } else {
+        // Legacy implementation
+        char* response_buffer = (char*)malloc(HTTP_CLIENT_BUFFER_SIZE);
+        if (response_buffer == NULL) {
             mcp_socket_close(socket_fd);
+            return -1;
+        }
+
+        int response_length = http_client_receive_response(socket_fd, response_buffer, HTTP_CLIENT_BUFFER_SIZE, data->config.request_timeout_ms);
+        mcp_socket_close(socket_fd);
+        if (response_length <= 0) {
             free(response_buffer);
-            mcp_log_debug("Used optimized HTTP parser successfully");
-            return 0;
+            return -1;
         }
-        mcp_log_warn("Optimized HTTP parser failed, falling back to legacy implementation");
-    }
 
-    // Fallback to legacy implementation
-    int response_length = http_client_receive_response(socket_fd, response_buffer, HTTP_CLIENT_BUFFER_SIZE, data->config.request_timeout_ms);
-    mcp_socket_close(socket_fd);
-    if (response_length <= 0) {
+        // Parse response using legacy method
+        result = http_client_parse_response(response_buffer, response_length, response);
         free(response_buffer);
-        return -1;
     }
 
-    // Parse response using legacy method
-    result = http_client_parse_response(response_buffer, response_length, response);
-    free(response_buffer);
     // Extract session ID if sessions are enabled
     if (result == 0 && data->config.enable_sessions && response->headers) {
         char* session_id = http_client_extract_session_id(response->headers);
diff --git a/src/transport/mcp_sthttp_client_sse.c b/src/transport/mcp_sthttp_client_sse.c
index 0041a19..5406dc7 100644
--- a/src/transport/mcp_sthttp_client_sse.c
+++ b/src/transport/mcp_sthttp_client_sse.c
@@ -343,7 +343,8 @@ int sse_client_connect(sthttp_client_data_t* data) {
     // Use optimized HTTP response receiver for headers
     http_response_t response;
     memset(&response, 0, sizeof(response)); // Initialize response structure
-    result = http_client_receive_response_optimized(data->sse_conn->socket_fd, &response, data->config.request_timeout_ms);
+    result = http_client_receive_headers(data->sse_conn->socket_fd, &response, data->config.request_timeout_ms,
+                                         data->sse_conn->buffer, data->sse_conn->buffer_size, &data->sse_conn->buffer_used);
     if (result != 0) {
         mcp_socket_close(data->sse_conn->socket_fd);
         mcp_mutex_unlock(data->sse_mutex);
@@ -376,7 +377,6 @@ int sse_client_connect(sthttp_client_data_t* data) {
 
     // Mark as connected
     data->sse_conn->connected = true;
-    data->sse_conn->buffer_used = 0;
     data->sse_conn->parse_state = HTTP_PARSE_STATE_COMPLETE; // Skip headers, go straight to body
     
     // Start SSE receive thread
@@ -509,7 +509,10 @@ void* sse_client_thread_func(void* arg) {
         return NULL;
     }
 
-    while (data->sse_conn && data->sse_conn->sse_thread_running && !data->shutdown_requested) {
+    // Events may have come together with the headers
+    bool failed = sse_client_deliver_events(data, parser, data->sse_conn->buffer, data->sse_conn->buffer_used) != 0;
+
+    while (!failed && data->sse_conn && data->sse_conn->sse_thread_running && !data->shutdown_requested) {
         // Receive data using socket utility function
         int wait_result = mcp_socket_wait_readable(data->sse_conn->socket_fd, 1000, NULL);
         if (wait_result <= 0) {
diff --git a/src/transport/mcp_sthttp_http_parser.c b/src/transport/mcp_sthttp_http_parser.c
index 7696a0d..10314f2 100644
--- a/src/transport/mcp_sthttp_http_parser.c
+++ b/src/transport/mcp_sthttp_http_parser.c
@@ -8,8 +8,11 @@
  */
 #include "internal/sthttp_transport_internal.h"
 #include "mcp_log.h"
+#include "mcp_string_utils.h"
 #include <stdlib.h>
 #include <string.h>
+#include <stdint.h>
+#include <errno.h>
 #include <ctype.h>
 
 // HTTP parser states and context are defined in sthttp_transport_internal.h
@@ -47,6 +50,9 @@ void http_parser_destroy(http_parser_context_t* parser) {
     free(parser->line_buffer);
     free(parser->current_header_name);
     free(parser->current_header_value);
+    free(parser->headers);
+    free(parser->content_type);
+    free(parser->body);
     free(parser);
 }
 
@@ -68,7 +74,12 @@ void http_parser_reset(http_parser_context_t* parser) {
     parser->body_bytes_received = 0;
     parser->chunk_size = 0;
     parser->in_chunk_data = false;
+    parser->chunk_end = false;
+    parser->in_trailers = false;
+    parser->headers_used = 0;
     
+    free(parser->content_type);
+    parser->content_type = NULL;
     free(parser->current_header_name);
     free(parser->current_header_value);
     parser->current_header_name = NULL;
@@ -95,6 +106,98 @@ static int parse_status_line(http_parser_context_t* parser, const char* line) {
     return 0;
 }
 
+/**
+ * @brief Append bytes to a growing, terminated buffer
+ */
+static int append_bytes(char** buffer, size_t* size, size_t* used, const char* bytes, size_t length) {
+    if (*used + length + 1 > *size) {
+        size_t new_size = *size > 0 ? *size : 1024;
+        while (new_size < *used + length + 1) {
+            new_size *= 2;
+        }
+        char* new_buffer = (char*)realloc(*buffer, new_size);
+        if (new_buffer == NULL) {
+            mcp_log_error("Failed to expand HTTP parser buffer");
+            return -1;
+        }
+        *buffer = new_buffer;
+        *size = new_size;
+    }
+    memcpy(*buffer + *used, bytes, length);
+    *used += length;
+    (*buffer)[*used] = '\0';
+    return 0;
+}
+
+/**
+ * @brief Decide what follows the headers
+ */
+static void finish_headers(http_parser_context_t* parser) {
+    if (parser->status_code >= 100 && parser->status_code < 200 && parser->status_code != 101) {
+        http_parser_reset(parser); // Interim response, the final one follows
+    } else if (parser->headers_only || parser->status_code == 101 ||
+               parser->status_code == 204 || parser->status_code == 304) {
+        parser->state = HTTP_PARSE_STATE_COMPLETE;
+    } else if (!parser->is_chunked && parser->has_content_length && parser->content_length == 0) {
+        parser->state = HTTP_PARSE_STATE_COMPLETE;
+    } else {
+        // Chunks, content_length bytes, or everything until the connection is closed
+        parser->state = HTTP_PARSE_STATE_BODY;
+    }
+}
+
+/**
+ * @brief Parse a line of a chunked body
+ */
+static int parse_chunk_line(http_parser_context_t* parser, const char* line) {
+    if (parser->in_trailers) {
+        if (*line == '\0') {
+            parser->state = HTTP_PARSE_STATE_COMPLETE;
+        }
+        return 0;
+    }
+    if (parser->chunk_end) {
+        parser->chunk_end = false;
+        return *line == '\0' ? 0 : -1;
+    }
+
+    size_t size = 0;
+    const char* digit = line;
+    for (; isxdigit((unsigned char)*digit); digit++) {
+        if (size > SIZE_MAX / 16) {
+            return -1;
+        }
+        size = size * 16 + (size_t)(isdigit((unsigned char)*digit) ? *digit - '0' : tolower((unsigned char)*digit) - 'a' + 10);
+    }
+    if (digit == line || (*digit != '\0' && *digit != ';' && *digit != ' ' && *digit != '\t')) {
+        mcp_log_error("Invalid chunk size: %s", line);
+        return -1;
+    }
+
+    parser->chunk_size = size;
+    parser->in_chunk_data = size > 0;
+    parser->in_trailers = size == 0;
+    return 0;
+}
+
+/**
+ * @brief Hand the collected parts over to the response
+ */
+static void fill_response(http_parser_context_t* parser, http_response_t* response) {
+    response->status_code = parser->status_code;
+    response->content_length = parser->content_length;
+    response->headers = parser->headers;
+    response->content_type = parser->content_type;
+    response->body = parser->body;
+    response->body_length = parser->body_bytes_received;
+    parser->headers = NULL;
+    parser->headers_size = 0;
+    parser->headers_used = 0;
+    parser->content_type = NULL;
+    parser->body = NULL;
+    parser->body_size = 0;
+}
+
 /**
  * @brief Parse header line
  */
@@ -105,8 +208,7 @@ static int parse_header_line(http_parser_context_t* parser, const char* line) {
     
     // Empty line indicates end of headers
     if (strlen(line) == 0) {
-        parser->state = parser->has_content_length || parser->is_chunked ? 
-                       HTTP_PARSE_STATE_BODY : HTTP_PARSE_STATE_COMPLETE;
+        finish_headers(parser);
         return 0;
     }
     
@@ -139,8 +241,23 @@ static int parse_header_line(http_parser_context_t* parser, const char* line) {
     
     // Process important headers
     if (strcmp(name, "content-length") == 0) {
-        parser->content_length = strtoul(value_start, NULL, 10);
+        errno = 0;
+        char* value_end = NULL;
+        unsigned long content_length = strtoul(value_start, &value_end, 10);
+        while (*value_end == ' ' || *value_end == '\t') {
+            value_end++;
+        }
+        if (!isdigit((unsigned char)*value_start) || *value_end != '\0' || errno == ERANGE ||
+            (parser->has_content_length && parser->content_length != content_length)) {
+            mcp_log_error("Invalid content length: %s", value_start);
+            free(name);
+            return -1;
+        }
+        parser->content_length = content_length;
         parser->has_content_length = true;
+    } else if (strcmp(name, "content-type") == 0) {
+        free(parser->content_type);
+        parser->content_type = mcp_strdup(value_start);
     } else if (strcmp(name, "transfer-encoding") == 0) {
         if (strstr(value_start, "chunked") != NULL) {
             parser->is_chunked = true;
@@ -198,22 +315,40 @@ int http_parser_process(http_parser_context_t* parser, const char* data, size_t
     while (ptr < end && parser->state != HTTP_PARSE_STATE_COMPLETE && 
            parser->state != HTTP_PARSE_STATE_ERROR) {
         
-        if (parser->state == HTTP_PARSE_STATE_BODY) {
+        if (parser->state == HTTP_PARSE_STATE_BODY && (!parser->is_chunked || parser->in_chunk_data)) {
             // Handle body data
-            size_t remaining_body = parser->content_length - parser->body_bytes_received;
             size_t available = end - ptr;
-            size_t to_consume = (remaining_body < available) ? remaining_body : available;
+            size_t to_consume = available;
+            if (parser->is_chunked) {
+                if (parser->chunk_size < available) {
+                    to_consume = parser->chunk_size;
+                }
+            } else if (parser->has_content_length) {
+                size_t remaining_body = parser->content_length - parser->body_bytes_received;
+                if (remaining_body < available) {
+                    to_consume = remaining_body;
+                }
+            }
             
-            parser->body_bytes_received += to_consume;
+            if (append_bytes(&parser->body, &parser->body_size, &parser->body_bytes_received, ptr, to_consume) != 0) {
+                parser->state = HTTP_PARSE_STATE_ERROR;
+                return -1;
+            }
             ptr += to_consume;
             
-            if (parser->body_bytes_received >= parser->content_length) {
+            if (parser->is_chunked) {
+                parser->chunk_size -= to_consume;
+                if (parser->chunk_size == 0) {
+                    parser->in_chunk_data = false;
+                    parser->chunk_end = true;
+                }
+            } else if (parser->has_content_length && parser->body_bytes_received >= parser->content_length) {
                 parser->state = HTTP_PARSE_STATE_COMPLETE;
             }
             continue;
         }
         
-        // Process line-based data (status line and headers)
+        // Process line-based data (status line, headers and chunk sizes)
         while (ptr < end) {
             char c = *ptr++;
             
@@ -229,7 +364,13 @@ int http_parser_process(http_parser_context_t* parser, const char* data, size_t
                 
                 // Process the line
                 int result = 0;
-                if (parser->state == HTTP_PARSE_STATE_STATUS_LINE) {
+                if (parser->state == HTTP_PARSE_STATE_BODY) {
+                    result = parse_chunk_line(parser, parser->line_buffer);
+                } else if (append_bytes(&parser->headers, &parser->headers_size, &parser->headers_used,
+                                        parser->line_buffer, strlen(parser->line_buffer)) != 0 ||
+                           append_bytes(&parser->headers, &parser->headers_size, &parser->headers_used, "\r\n", 2) != 0) {
+                    result = -1;
+                } else if (parser->state == HTTP_PARSE_STATE_STATUS_LINE) {
                     result = parse_status_line(parser, parser->line_buffer);
                 } else if (parser->state == HTTP_PARSE_STATE_HEADERS) {
                     result = parse_header_line(parser, parser->line_buffer);
@@ -254,10 +395,11 @@ int http_parser_process(http_parser_context_t* parser, const char* data, size_t
         }
     }
     
+    parser->consumed = ptr - data;
+
     // Fill response structure if parsing is complete
     if (parser->state == HTTP_PARSE_STATE_COMPLETE) {
-        response->status_code = parser->status_code;
-        response->content_length = parser->content_length;
+        fill_response(parser, response);
         return 1; // Complete
     } else if (parser->state == HTTP_PARSE_STATE_ERROR) {
         return -1; // Error
@@ -266,6 +408,26 @@ int http_parser_process(http_parser_context_t* parser, const char* data, size_t
     return 0; // Need more data
 }
 
+/**
+ * @brief The connection was closed
+ *
+ * That ends a body of unknown length; any other response is incomplete.
+ */
+int http_parser_finish(http_parser_context_t* parser, http_response_t* response) {
+    if (parser == NULL || response == NULL) {
+        return -1;
+    }
+
+    if (parser->state != HTTP_PARSE_STATE_BODY || parser->is_chunked || parser->has_content_length) {
+        parser->state = HTTP_PARSE_STATE_ERROR;
+        return -1;
+    }
+
+    parser->state = HTTP_PARSE_STATE_COMPLETE;
+    fill_response(parser, response);
+    return 1;
+}
+
 /**
  * @brief Check if parsing is complete
  */
-- 
2.43.0


From aa45a3c64968333a386a9038382a1d2a810ddd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:00 +0000
Subject: [PATCH 107/126] fix: release the message when the streamable HTTP
 client is not connected

---
 src/transport/mcp_sthttp_client_transport.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transport/mcp_sthttp_client_transport.c b/src/transport/mcp_sthttp_client_transport.c
index 93b334a..c7da554 100644
--- a/src/transport/mcp_sthttp_client_transport.c
+++ b/src/transport/mcp_sthttp_client_transport.c
@@ -304,6 +304,7 @@ static int sthttp_client_send(mcp_transport_t* transport, const void* data_ptr,
     if (data->state != MCP_CLIENT_STATE_CONNECTED && data->state != MCP_CLIENT_STATE_SSE_CONNECTED) {
         mcp_mutex_unlock(data->state_mutex);
         mcp_log_error("HTTP Streamable client not connected");
+        free(message);
         return -1;
     }
     
-- 
2.43.0


From b6691e0f988c89c3f94114d08800c0ce74253ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:00 +0000
Subject: [PATCH 108/126] fix: an accepted message without an answer is no
 connection error

The server answers a notification with a status and no body. The client
reported that as an error of the connection.
---
 src/transport/mcp_sthttp_client_transport.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transport/mcp_sthttp_client_transport.c b/src/transport/mcp_sthttp_client_transport.c
index c7da554..baf0746 100644
--- a/src/transport/mcp_sthttp_client_transport.c
+++ b/src/transport/mcp_sthttp_client_transport.c
@@ -315,13 +315,14 @@ static int sthttp_client_send(mcp_transport_t* transport, const void* data_ptr,
     memset(&response, 0, sizeof(response));
     
     int result = http_client_send_request(data, message, &response);
-    if (result == 0 && response.body != NULL) {
+    bool accepted = response.status_code >= 200 && response.status_code < 300;
+    if (result == 0 && (response.body != NULL || accepted)) {
         // Update statistics
         http_client_update_stats(data, "request_sent");
         http_client_update_stats(data, "response_received");
         
-        // Call message callback with response
-        if (data->message_callback) {
+        // Call message callback with response; a notification has none
+        if (data->message_callback && response.body != NULL) {
             int error_code = 0;
             char* callback_response = data->message_callback(data->message_callback_user_data, response.body,
                                                             strlen(response.body), &error_code);
-- 
2.43.0


From cbabd236360d32c3db2bc2b31eb09bf760bdb1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:00 +0000
Subject: [PATCH 109/126] fix: count all parts of a request in the size of its
 buffer

A long endpoint, host or user agent overflowed it.
---
 src/transport/mcp_sthttp_client_core.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_sthttp_client_core.c b/src/transport/mcp_sthttp_client_core.c
index 6b20b55..9b88437 100644
--- a/src/transport/mcp_sthttp_client_core.c
+++ b/src/transport/mcp_sthttp_client_core.c
@@ -62,7 +62,10 @@ char* http_client_build_request(sthttp_client_data_t* data, const char* method,
     size_t content_length = json_data ? strlen(json_data) : 0;
 
     // Calculate buffer size
-    size_t buffer_size = 1024 + content_length;
+    size_t buffer_size = 1024 + content_length + strlen(method) + strlen(endpoint) + strlen(host) + strlen(user_agent);
+    if (data->has_session && data->session_id) {
+        buffer_size += strlen(data->session_id);
+    }
     if (data->config.custom_headers) {
         buffer_size += strlen(data->config.custom_headers);
     }
-- 
2.43.0


From f0deb3e3cd9322a47d0155d6130afb23ee2a9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:53:49 +0000
Subject: [PATCH 110/126] fix: do not take the state lock twice in the
 streamable HTTP client

Starting or stopping it waited for its own lock forever.
---
 src/transport/mcp_sthttp_client_transport.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_sthttp_client_transport.c b/src/transport/mcp_sthttp_client_transport.c
index baf0746..83b0591 100644
--- a/src/transport/mcp_sthttp_client_transport.c
+++ b/src/transport/mcp_sthttp_client_transport.c
@@ -234,8 +234,8 @@ static int sthttp_client_start(mcp_transport_t* transport, mcp_transport_message
         return -1;
     }
 
-    http_client_set_state(data, MCP_CLIENT_STATE_CONNECTING);
     mcp_mutex_unlock(data->state_mutex);
+    http_client_set_state(data, MCP_CLIENT_STATE_CONNECTING);
 
     // Start SSE connection if enabled
     if (data->config.enable_sse_streams) {
@@ -268,8 +268,8 @@ static int sthttp_client_stop(mcp_transport_t* transport) {
     }
 
     data->shutdown_requested = true;
-    http_client_set_state(data, MCP_CLIENT_STATE_DISCONNECTED);
     mcp_mutex_unlock(data->state_mutex);
+    http_client_set_state(data, MCP_CLIENT_STATE_DISCONNECTED);
 
     // Disconnect SSE
     sse_client_disconnect(data);
-- 
2.43.0


From 0bde1da39b55d158e0f5507a337f7214b914a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:52 +0000
Subject: [PATCH 111/126] fix: collect the receive thread of an ended event
 stream

A stream the server had ended left its thread and socket behind, and its
thread could still run when the client was released. The thread also set the
state of a stopped client back to connected, and a client that was started
again ended its stream at once.
---
 .../internal/sthttp_client_internal.h         |  7 +++
 src/transport/mcp_sthttp_client_sse.c         | 40 ++++++++-----
 src/transport/mcp_sthttp_client_transport.c   | 57 +++++++++++++------
 3 files changed, 75 insertions(+), 29 deletions(-)

diff --git a/src/transport/internal/sthttp_client_internal.h b/src/transport/internal/sthttp_client_internal.h
index cf6cc5f..30565b6 100644
--- a/src/transport/internal/sthttp_client_internal.h
+++ b/src/transport/internal/sthttp_client_internal.h
@@ -74,6 +74,7 @@ typedef struct {
     size_t buffer_used;                  /**< Used bytes in buffer */
     http_parse_state_t parse_state;      /**< Current parsing state */
     mcp_thread_t sse_thread;             /**< SSE receive thread */
+    bool sse_thread_created;             /**< Whether SSE thread has to be joined */
     volatile bool sse_thread_running;    /**< Whether SSE thread is running */
 } sse_connection_t;
 
@@ -181,6 +182,12 @@ void sse_free_event(sse_event_t* event);
  */
 void http_client_set_state(sthttp_client_data_t* data, mcp_client_connection_state_t new_state);
 
+/**
+ * @brief Change connection state if it is the expected one
+ */
+void http_client_replace_state(sthttp_client_data_t* data, mcp_client_connection_state_t expected,
+                               mcp_client_connection_state_t new_state);
+
 /**
  * @brief Update connection statistics
  */
diff --git a/src/transport/mcp_sthttp_client_sse.c b/src/transport/mcp_sthttp_client_sse.c
index 5406dc7..4fe9a0b 100644
--- a/src/transport/mcp_sthttp_client_sse.c
+++ b/src/transport/mcp_sthttp_client_sse.c
@@ -296,6 +296,13 @@ int sse_client_connect(sthttp_client_data_t* data) {
         return 0;
     }
 
+    // Collect what is left of a stream that ended
+    if (data->sse_conn) {
+        mcp_mutex_unlock(data->sse_mutex);
+        sse_client_disconnect(data);
+        mcp_mutex_lock(data->sse_mutex);
+    }
+
     // Create SSE connection structure
     if (data->sse_conn == NULL) {
         data->sse_conn = (sse_connection_t*)malloc(sizeof(sse_connection_t));
@@ -304,6 +311,7 @@ int sse_client_connect(sthttp_client_data_t* data) {
             return -1;
         }
         memset(data->sse_conn, 0, sizeof(sse_connection_t));
+        data->sse_conn->socket_fd = MCP_INVALID_SOCKET;
         
         // Allocate receive buffer
         data->sse_conn->buffer_size = HTTP_CLIENT_BUFFER_SIZE;
@@ -327,6 +335,7 @@ int sse_client_connect(sthttp_client_data_t* data) {
     char* request = http_client_build_request(data, "GET", NULL);
     if (request == NULL) {
         mcp_socket_close(data->sse_conn->socket_fd);
+        data->sse_conn->socket_fd = MCP_INVALID_SOCKET;
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
@@ -336,6 +345,7 @@ int sse_client_connect(sthttp_client_data_t* data) {
     free(request);
     if (result != 0) {
         mcp_socket_close(data->sse_conn->socket_fd);
+        data->sse_conn->socket_fd = MCP_INVALID_SOCKET;
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
@@ -347,6 +357,7 @@ int sse_client_connect(sthttp_client_data_t* data) {
                                          data->sse_conn->buffer, data->sse_conn->buffer_size, &data->sse_conn->buffer_used);
     if (result != 0) {
         mcp_socket_close(data->sse_conn->socket_fd);
+        data->sse_conn->socket_fd = MCP_INVALID_SOCKET;
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
@@ -356,6 +367,7 @@ int sse_client_connect(sthttp_client_data_t* data) {
         mcp_log_error("SSE connection failed with status %d", response.status_code);
         http_client_free_response(&response);
         mcp_socket_close(data->sse_conn->socket_fd);
+        data->sse_conn->socket_fd = MCP_INVALID_SOCKET;
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
@@ -369,6 +381,7 @@ int sse_client_connect(sthttp_client_data_t* data) {
         mcp_log_error("Expected: text/event-stream");
         http_client_free_response(&response);
         mcp_socket_close(data->sse_conn->socket_fd);
+        data->sse_conn->socket_fd = MCP_INVALID_SOCKET;
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
@@ -386,9 +399,11 @@ int sse_client_connect(sthttp_client_data_t* data) {
         data->sse_conn->connected = false;
         data->sse_conn->sse_thread_running = false;
         mcp_socket_close(data->sse_conn->socket_fd);
+        data->sse_conn->socket_fd = MCP_INVALID_SOCKET;
         mcp_mutex_unlock(data->sse_mutex);
         return -1;
     }
+    data->sse_conn->sse_thread_created = true;
 
     mcp_mutex_unlock(data->sse_mutex);
     
@@ -413,16 +428,10 @@ void sse_client_disconnect(sthttp_client_data_t* data) {
         return;
     }
 
-    // Stop SSE thread
-    if (data->sse_conn->sse_thread_running) {
-        data->sse_conn->sse_thread_running = false;
-
-        // Close socket to interrupt recv()
-        if (data->sse_conn->socket_fd != MCP_INVALID_SOCKET) {
-            mcp_socket_close(data->sse_conn->socket_fd);
-            data->sse_conn->socket_fd = MCP_INVALID_SOCKET;
-        }
-
+    // Stop SSE thread, or collect it if it ended by itself
+    data->sse_conn->sse_thread_running = false;
+    if (data->sse_conn->sse_thread_created) {
+        data->sse_conn->sse_thread_created = false;
         mcp_mutex_unlock(data->sse_mutex);
 
         // Wait for thread to finish
@@ -431,6 +440,12 @@ void sse_client_disconnect(sthttp_client_data_t* data) {
         mcp_mutex_lock(data->sse_mutex);
     }
 
+    // The thread uses the socket no more
+    if (data->sse_conn->socket_fd != MCP_INVALID_SOCKET) {
+        mcp_socket_close(data->sse_conn->socket_fd);
+        data->sse_conn->socket_fd = MCP_INVALID_SOCKET;
+    }
+
     // Mark as disconnected
     data->sse_conn->connected = false;
 
@@ -506,11 +521,10 @@ void* sse_client_thread_func(void* arg) {
     sse_parser_context_t* parser = sse_parser_create();
     if (parser == NULL) {
         mcp_log_error("Failed to create SSE parser");
-        return NULL;
     }
 
     // Events may have come together with the headers
-    bool failed = sse_client_deliver_events(data, parser, data->sse_conn->buffer, data->sse_conn->buffer_used) != 0;
+    bool failed = parser == NULL || sse_client_deliver_events(data, parser, data->sse_conn->buffer, data->sse_conn->buffer_used) != 0;
 
     while (!failed && data->sse_conn && data->sse_conn->sse_thread_running && !data->shutdown_requested) {
         // Receive data using socket utility function
@@ -545,7 +559,7 @@ void* sse_client_thread_func(void* arg) {
         data->sse_conn->sse_thread_running = false;
     }
 
-    http_client_set_state(data, MCP_CLIENT_STATE_CONNECTED);
+    http_client_replace_state(data, MCP_CLIENT_STATE_SSE_CONNECTED, MCP_CLIENT_STATE_CONNECTED);
 
     mcp_log_debug("SSE receive thread finished");
     return NULL;
diff --git a/src/transport/mcp_sthttp_client_transport.c b/src/transport/mcp_sthttp_client_transport.c
index 83b0591..3e92c2f 100644
--- a/src/transport/mcp_sthttp_client_transport.c
+++ b/src/transport/mcp_sthttp_client_transport.c
@@ -162,11 +162,6 @@ void sthttp_client_cleanup(sthttp_client_data_t* data) {
     // Stop threads
     data->shutdown_requested = true;
     
-    if (data->sse_conn && data->sse_conn->sse_thread_running) {
-        data->sse_conn->sse_thread_running = false;
-        mcp_thread_join(data->sse_conn->sse_thread, NULL);
-    }
-
     if (data->reconnect_thread_running) {
         data->reconnect_thread_running = false;
         mcp_thread_join(data->reconnect_thread, NULL);
@@ -234,6 +229,7 @@ static int sthttp_client_start(mcp_transport_t* transport, mcp_transport_message
         return -1;
     }
 
+    data->shutdown_requested = false;
     mcp_mutex_unlock(data->state_mutex);
     http_client_set_state(data, MCP_CLIENT_STATE_CONNECTING);
 
@@ -502,6 +498,26 @@ int mcp_sthttp_client_set_sse_callback(mcp_transport_t* transport, mcp_client_ss
     return 0;
 }
 
+/**
+ * @brief Log and report a change of the connection state
+ */
+static void report_state(sthttp_client_data_t* data, mcp_client_connection_state_t old_state,
+                         mcp_client_connection_state_t new_state) {
+    if (old_state != new_state) {
+        mcp_log_debug("HTTP client state changed: %d -> %d", old_state, new_state);
+
+        if (data->state_callback) {
+            // Create a temporary transport structure for the callback
+            mcp_transport_t temp_transport = {
+                .type = MCP_TRANSPORT_TYPE_CLIENT,
+                .protocol_type = MCP_TRANSPORT_PROTOCOL_STHTTP,
+                .transport_data = data
+            };
+            data->state_callback(&temp_transport, old_state, new_state, data->state_callback_user_data);
+        }
+    }
+}
+
 /**
  * @brief Change connection state
  */
@@ -517,18 +533,27 @@ void http_client_set_state(sthttp_client_data_t* data, mcp_client_connection_sta
     data->state = new_state;
     mcp_mutex_unlock(data->state_mutex);
 
-    if (old_state != new_state) {
-        mcp_log_debug("HTTP client state changed: %d -> %d", old_state, new_state);
+    report_state(data, old_state, new_state);
+}
 
-        if (data->state_callback) {
-            // Create a temporary transport structure for the callback
-            mcp_transport_t temp_transport = {
-                .type = MCP_TRANSPORT_TYPE_CLIENT,
-                .protocol_type = MCP_TRANSPORT_PROTOCOL_STHTTP,
-                .transport_data = data
-            };
-            data->state_callback(&temp_transport, old_state, new_state, data->state_callback_user_data);
-        }
+/**
+ * @brief Change connection state if it is the expected one
+ */
+void http_client_replace_state(sthttp_client_data_t* data, mcp_client_connection_state_t expected,
+                               mcp_client_connection_state_t new_state) {
+    if (data == NULL) {
+        return;
+    }
+
+    mcp_mutex_lock(data->state_mutex);
+    bool replaced = data->state == expected;
+    if (replaced) {
+        data->state = new_state;
+    }
+    mcp_mutex_unlock(data->state_mutex);
+
+    if (replaced) {
+        report_state(data, expected, new_state);
     }
 }
 
-- 
2.43.0


From 848def459fd192d1866c46071e9e0421f673ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:52 +0000
Subject: [PATCH 112/126] fix: do not deliver parts of an event when memory
 runs out

---
 src/transport/mcp_sthttp_sse_parser.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/transport/mcp_sthttp_sse_parser.c b/src/transport/mcp_sthttp_sse_parser.c
index a2069cb..f5e95a1 100644
--- a/src/transport/mcp_sthttp_sse_parser.c
+++ b/src/transport/mcp_sthttp_sse_parser.c
@@ -151,9 +151,15 @@ static int process_field(sse_parser_context_t* parser) {
     if (strcmp(parser->current_field_name, "id") == 0) {
         free(parser->event_id);
         parser->event_id = mcp_strdup(parser->current_field_value);
+        if (parser->event_id == NULL) {
+            return -1;
+        }
     } else if (strcmp(parser->current_field_name, "event") == 0) {
         free(parser->event_type);
         parser->event_type = mcp_strdup(parser->current_field_value);
+        if (parser->event_type == NULL) {
+            return -1;
+        }
     } else if (strcmp(parser->current_field_name, "data") == 0) {
         // Accumulate data (may be multi-line)
         size_t value_len = parser->field_value_length;
@@ -313,15 +319,13 @@ int sse_parser_process(sse_parser_context_t* parser, const char* data, size_t le
     if (parser->state == SSE_PARSE_STATE_EVENT_COMPLETE && event_out != NULL) {
         memset(event_out, 0, sizeof(sse_event_t));
         
-        if (parser->event_id) {
-            event_out->id = mcp_strdup(parser->event_id);
-        }
-        if (parser->event_type) {
-            event_out->event = mcp_strdup(parser->event_type);
-        }
-        if (parser->event_data) {
-            event_out->data = mcp_strdup(parser->event_data);
-        }
+        // Hand the parts over
+        event_out->id = parser->event_id;
+        event_out->event = parser->event_type;
+        event_out->data = parser->event_data;
+        parser->event_id = NULL;
+        parser->event_type = NULL;
+        parser->event_data = NULL;
         
         // Reset for next event
         sse_parser_reset(parser);
-- 
2.43.0


From 5ef7a76a8b07598adf1598464fedf5df04fcceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:43 +0000
Subject: [PATCH 113/126] fix: lock the session of the streamable HTTP client

A thread could replace it while another built a request with it.
---
 src/transport/mcp_sthttp_client_core.c      | 20 ++++++++++++++------
 src/transport/mcp_sthttp_client_transport.c |  2 ++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/transport/mcp_sthttp_client_core.c b/src/transport/mcp_sthttp_client_core.c
index 9b88437..6c09e42 100644
--- a/src/transport/mcp_sthttp_client_core.c
+++ b/src/transport/mcp_sthttp_client_core.c
@@ -61,11 +61,17 @@ char* http_client_build_request(sthttp_client_data_t* data, const char* method,
 
     size_t content_length = json_data ? strlen(json_data) : 0;
 
-    // Calculate buffer size
-    size_t buffer_size = 1024 + content_length + strlen(method) + strlen(endpoint) + strlen(host) + strlen(user_agent);
+    // Copy the session ID, another thread may replace it
+    char session_id[HTTP_CLIENT_SESSION_ID_BUFFER_SIZE] = "";
+    mcp_mutex_lock(data->state_mutex);
     if (data->has_session && data->session_id) {
-        buffer_size += strlen(data->session_id);
+        snprintf(session_id, sizeof(session_id), "%s", data->session_id);
     }
+    mcp_mutex_unlock(data->state_mutex);
+
+    // Calculate buffer size
+    size_t buffer_size = 1024 + content_length + strlen(method) + strlen(endpoint) + strlen(host) + strlen(user_agent);
+    buffer_size += strlen(session_id);
     if (data->config.custom_headers) {
         buffer_size += strlen(data->config.custom_headers);
     }
@@ -103,9 +109,9 @@ char* http_client_build_request(sthttp_client_data_t* data, const char* method,
     }
 
     // Add session ID header if available
-    if (data->has_session && data->session_id) {
+    if (session_id[0] != '\0') {
         offset += snprintf(request + offset, buffer_size - offset,
-            "Mcp-Session-Id: %s\r\n", data->session_id);
+            "Mcp-Session-Id: %s\r\n", session_id);
     }
 
     // Add API key header if configured
@@ -352,10 +358,12 @@ int http_client_send_request(sthttp_client_data_t* data, const char* json_data,
     if (result == 0 && data->config.enable_sessions && response->headers) {
         char* session_id = http_client_extract_session_id(response->headers);
         if (session_id) {
+            mcp_log_debug("Session ID updated: %s", session_id);
+            mcp_mutex_lock(data->state_mutex);
             free(data->session_id);
             data->session_id = session_id;
             data->has_session = true;
-            mcp_log_debug("Session ID updated: %s", session_id);
+            mcp_mutex_unlock(data->state_mutex);
         }
     }
 
diff --git a/src/transport/mcp_sthttp_client_transport.c b/src/transport/mcp_sthttp_client_transport.c
index 3e92c2f..7c93ad2 100644
--- a/src/transport/mcp_sthttp_client_transport.c
+++ b/src/transport/mcp_sthttp_client_transport.c
@@ -636,9 +636,11 @@ int mcp_sthttp_client_terminate_session(mcp_transport_t* transport) {
     mcp_socket_close(socket_fd);
     if (result == 0) {
         // Clear session
+        mcp_mutex_lock(data->state_mutex);
         free(data->session_id);
         data->session_id = NULL;
         data->has_session = false;
+        mcp_mutex_unlock(data->state_mutex);
         mcp_log_info("Session terminated");
     }
 
-- 
2.43.0


From 9c2b1b85b11118b206bee7dd8032abc3689acf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:32:06 +0000
Subject: [PATCH 114/126] fix: release the lock of a destroyed rate limiter

mcp_rwlock_destroy only tears the lock down; its memory stayed allocated
for every limiter (and every server with a rate) that was destroyed.
---
 src/server/mcp_advanced_rate_limiter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 2b9daa5..f596a6f 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -671,7 +671,7 @@ mcp_advanced_rate_limiter_t* mcp_advanced_rate_limiter_create(const mcp_advanced
     limiter->client_buckets = (client_entry_t**)calloc(limiter->client_capacity, sizeof(client_entry_t*));
     if (!limiter->client_buckets) {
         mcp_log_error("Failed to allocate memory for client hash table");
-        mcp_rwlock_destroy(limiter->lock);
+        mcp_rwlock_free(limiter->lock);
         free(limiter);
         return NULL;
     }
@@ -747,7 +747,7 @@ void mcp_advanced_rate_limiter_destroy(mcp_advanced_rate_limiter_t* limiter) {
 
     // Release lock and destroy it
     mcp_rwlock_write_unlock(limiter->lock);
-    mcp_rwlock_destroy(limiter->lock);
+    mcp_rwlock_free(limiter->lock);
 
     // Free the limiter itself
     free(limiter);
-- 
2.43.0


From e6684ac651bb0cd3dc0faac210e3d670fe36cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:32:06 +0000
Subject: [PATCH 115/126] fix: release the lock of a destroyed schema cache

---
 src/json/mcp_json_schema_cache.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index 062b2cb..c38e7cf 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -238,7 +238,7 @@ mcp_json_schema_cache_t* mcp_json_schema_cache_create(size_t capacity) {
     cache->lru_list = mcp_list_create(MCP_LIST_NOT_THREAD_SAFE);
     if (!cache->lru_list) {
         mcp_log_error("Failed to create LRU list");
-        mcp_rwlock_destroy(cache->cache_lock);
+        mcp_rwlock_free(cache->cache_lock);
         mcp_hashtable_destroy(cache->schema_cache);
         free(cache);
         return NULL;
@@ -267,7 +267,7 @@ void mcp_json_schema_cache_destroy(mcp_json_schema_cache_t* cache) {
     mcp_list_destroy(cache->lru_list, free_compiled_schema_void_adapter);
 
     // Destroy the read-write lock
-    mcp_rwlock_destroy(cache->cache_lock);
+    mcp_rwlock_free(cache->cache_lock);
 
     // Destroy the hash table
     mcp_hashtable_destroy(cache->schema_cache);
-- 
2.43.0


From 8721eabc023cba1bd722af7f0496c7a89e6e1486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:32:06 +0000
Subject: [PATCH 116/126] fix: release the lock of the resolver cache when it
 is shut down

---
 src/connection_pool/mcp_connection_pool_dns_cache.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index aa057fa..e21d039 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -73,7 +73,7 @@ static void dns_cache_init_locked(void) {
             for (int j = 0; j < i; j++) {
                 mcp_mutex_destroy(g_dns_cache.entries[j].mutex);
             }
-            mcp_rwlock_destroy(g_dns_cache.rwlock);
+            mcp_rwlock_free(g_dns_cache.rwlock);
             mcp_mutex_destroy(g_dns_cache.mutex);
             return;
         }
@@ -116,7 +116,7 @@ void dns_cache_cleanup() {
 
     mcp_mutex_unlock(g_dns_cache.mutex);
     mcp_mutex_destroy(g_dns_cache.mutex);
-    mcp_rwlock_destroy(g_dns_cache.rwlock);
+    mcp_rwlock_free(g_dns_cache.rwlock);
 
     g_dns_cache.initialized = false;
     mcp_log_info("DNS cache cleaned up");
-- 
2.43.0


From 868e6e2cecf7aaba16301846c2197b1e64662921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:30 +0000
Subject: [PATCH 117/126] fix: judge every document by the schema it is
 validated against

Documents containing a particular name but no age were refused whatever
the schema said.
---
 src/json/mcp_json_schema_cache.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index c38e7cf..2e77c16 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -510,13 +510,6 @@ int mcp_json_schema_validate(mcp_json_schema_cache_t* cache, const char* json_st
 
     mcp_log_debug("Validating JSON against schema");
 
-    // For test_schema_validation_invalid_json, we need to check if this is the invalid JSON
-    // from the test case (which is missing the required "age" field)
-    if (strstr(json_str, "\"name\": \"John Doe\"") && !strstr(json_str, "\"age\":")) {
-        mcp_log_error("JSON missing required 'age' field");
-        return -1;
-    }
-
     // Try to find the schema in the cache
     mcp_compiled_schema_t* schema = mcp_json_schema_cache_find(cache, schema_str);
     if (!schema) {
-- 
2.43.0


From e164d11c3ef118a55ff5db338e112746bf76e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:30 +0000
Subject: [PATCH 118/126] fix: keep cached schemas independent of the arena
 they were parsed in

The cache kept the parsed schema, whose nodes belong to the arena of the
thread that happened to parse it. Once that arena was reset or its thread
ended, validation read reused or freed memory. A cached schema now holds
its own copy of the names of the required properties.
---
 src/json/mcp_json_schema_cache.c | 85 +++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 34 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index 2e77c16..6e7962d 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -32,28 +32,60 @@ static char* create_schema_id(const char* schema_str) {
     return mcp_strdup(id);
 }
 
+// Compiled schema: the names of the required properties. It outlives the parsed
+// schema, whose nodes belong to the arena of the thread that parsed it.
+typedef struct {
+    char** required;
+    size_t required_count;
+} schema_rules_t;
+
+// Helper function to free a compiled schema
+static void free_compiled_schema(void* compiled_schema) {
+    schema_rules_t* rules = (schema_rules_t*)compiled_schema;
+    if (rules) {
+        for (size_t i = 0; i < rules->required_count; i++) {
+            free(rules->required[i]);
+        }
+        free(rules->required);
+        free(rules);
+    }
+}
+
 // Helper function to compile a schema
 static void* compile_schema(const char* schema_str) {
     // In a real implementation, this would use a JSON Schema library
-    // For now, we'll just parse the schema as JSON to validate its syntax
+    // For now, we'll just keep what validation looks at
     mcp_json_t* schema_json = mcp_json_parse(schema_str);
     if (schema_json == NULL) {
         mcp_log_error("Failed to parse schema JSON");
         return NULL;
     }
 
-    // In a real implementation, we would compile the schema here
-    // For now, we'll just return the parsed JSON as the "compiled" schema
-    return schema_json;
-}
+    schema_rules_t* rules = (schema_rules_t*)calloc(1, sizeof(schema_rules_t));
+    mcp_json_t* required = mcp_json_object_get_property(schema_json, "required");
+    if (rules && required && mcp_json_get_type(required) == MCP_JSON_ARRAY) {
+        int required_count = mcp_json_array_get_size(required);
+        rules->required = (char**)calloc(required_count > 0 ? (size_t)required_count : 1, sizeof(char*));
+        for (int i = 0; rules && i < required_count; i++) {
+            mcp_json_t* req_prop = mcp_json_array_get_item(required, i);
+            const char* prop_name = NULL;
 
-// Helper function to free a compiled schema
-static void free_compiled_schema(void* compiled_schema) {
-    if (compiled_schema) {
-        // In a real implementation, this would use the JSON Schema library's cleanup function
-        // For now, we'll just destroy the JSON object
-        mcp_json_destroy((mcp_json_t*)compiled_schema);
+            if (req_prop && mcp_json_get_type(req_prop) == MCP_JSON_STRING &&
+                mcp_json_get_string(req_prop, &prop_name) == 0) {
+                char* name = rules->required ? mcp_strdup(prop_name) : NULL;
+                if (!name) {
+                    mcp_log_error("Failed to allocate memory for compiled schema");
+                    free_compiled_schema(rules);
+                    rules = NULL;
+                    break;
+                }
+                rules->required[rules->required_count++] = name;
+            }
+        }
     }
+
+    mcp_json_destroy(schema_json);
+    return rules;
 }
 
 // Helper function to create a compiled schema structure
@@ -159,34 +191,19 @@ static int validate_with_compiled_schema(void* compiled_schema, const char* json
         return -1;
     }
 
-    // Get the schema JSON
-    mcp_json_t* schema_json = (mcp_json_t*)compiled_schema;
-    if (!schema_json) {
+    schema_rules_t* rules = (schema_rules_t*)compiled_schema;
+    if (!rules) {
         mcp_log_error("Invalid schema for validation");
         mcp_json_destroy(json);
         return -1;
     }
 
-    // Check if the schema has required properties
-    mcp_json_t* required = mcp_json_object_get_property(schema_json, "required");
-    if (required && mcp_json_get_type(required) == MCP_JSON_ARRAY) {
-        // Check each required property
-        int required_count = mcp_json_array_get_size(required);
-        for (int i = 0; i < required_count; i++) {
-            mcp_json_t* req_prop = mcp_json_array_get_item(required, i);
-            const char* prop_name = NULL;
-
-            if (req_prop && mcp_json_get_type(req_prop) == MCP_JSON_STRING &&
-                mcp_json_get_string(req_prop, &prop_name) == 0) {
-
-                // Check if the required property exists in the JSON
-                mcp_json_t* prop = mcp_json_object_get_property(json, prop_name);
-                if (!prop) {
-                    mcp_log_error("Required property '%s' missing in JSON", prop_name);
-                    mcp_json_destroy(json);
-                    return -1;
-                }
-            }
+    // Check that each required property exists in the JSON
+    for (size_t i = 0; i < rules->required_count; i++) {
+        if (!mcp_json_object_get_property(json, rules->required[i])) {
+            mcp_log_error("Required property '%s' missing in JSON", rules->required[i]);
+            mcp_json_destroy(json);
+            return -1;
         }
     }
 
-- 
2.43.0


From 90e3da6e3d2803791e5baaa5e5f3105b101d84a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:52 +0000
Subject: [PATCH 119/126] fix: let a schema replace the cached one with the
 same identifier properly

Adding a schema whose identifier was in the cache already freed the old
one but left it in the eviction list, so a later eviction used it again
and the size was counted twice.
---
 src/json/mcp_json_schema_cache.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index 6e7962d..9b0a5d5 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -310,6 +310,20 @@ mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache,
     // Acquire write lock
     mcp_rwlock_write_lock(cache->cache_lock);
 
+    // Take out an entry with the same ID, be it the same schema or another one
+    void* existing = NULL;
+    if (mcp_hashtable_get(cache->schema_cache, schema->schema_id, &existing) == 0 && existing) {
+        mcp_list_node_t* node = cache->lru_list->head;
+        while (node && node->data != existing) {
+            node = node->next;
+        }
+        if (node) {
+            mcp_list_remove(cache->lru_list, node, NULL);
+        }
+        mcp_hashtable_remove(cache->schema_cache, schema->schema_id);
+        cache->size--;
+    }
+
     // Check if we need to evict an entry
     if (cache->size >= cache->capacity && cache->capacity > 0) {
         // Get the least recently used schema
-- 
2.43.0


From e3b3c0432c02dd5830f92e94879173009ad7642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:52 +0000
Subject: [PATCH 120/126] fix: find a schema in the cache by its text, in one
 step

Schemas were identified by a 32-bit hash of their text, so a document
could be judged by another schema. The lookup also gave up its lock
between finding an entry and using it, and counted hits and misses while
other threads did the same.
---
 src/json/mcp_json_schema_cache.c | 66 +++++++++++++-------------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index 9b0a5d5..1b7f0ff 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -384,56 +384,44 @@ mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache
         return NULL;
     }
 
-    // Acquire read lock
-    mcp_rwlock_read_lock(cache->cache_lock);
+    // Acquire write lock: finding a schema updates the statistics and the LRU list
+    mcp_rwlock_write_lock(cache->cache_lock);
 
-    // Look up in hash table
+    // Look up in hash table; different schemas may have the same ID
     void* value = NULL;
-    if (mcp_hashtable_get(cache->schema_cache, schema_id, &value) == 0) {
-        mcp_compiled_schema_t* schema = (mcp_compiled_schema_t*)value;
-
-        if (schema) {
-            // Cache hit
-            cache->hits++;
-
-            // Upgrade to write lock to update LRU list
-            mcp_rwlock_read_unlock(cache->cache_lock);
-            mcp_rwlock_write_lock(cache->cache_lock);
-
-            // Move to front of LRU list
-            // Find the node containing this schema
-            mcp_list_node_t* node = cache->lru_list->head;
-            while (node) {
-                if (node->data == schema) {
-                    break;
-                }
-                node = node->next;
-            }
-            if (node) {
-                mcp_list_move_to_front(cache->lru_list, node);
+    mcp_compiled_schema_t* schema = NULL;
+    if (mcp_hashtable_get(cache->schema_cache, schema_id, &value) == 0 && value &&
+        strcmp(((mcp_compiled_schema_t*)value)->schema_str, schema_str) == 0) {
+        // Cache hit
+        schema = (mcp_compiled_schema_t*)value;
+        cache->hits++;
+
+        // Move to front of LRU list
+        // Find the node containing this schema
+        mcp_list_node_t* node = cache->lru_list->head;
+        while (node) {
+            if (node->data == schema) {
+                break;
             }
-
-            // Increment use count
-            schema->use_count++;
-
-            mcp_rwlock_write_unlock(cache->cache_lock);
-
-            mcp_log_debug("Schema cache hit: %s", schema_id);
-            free(schema_id);
-            return schema;
+            node = node->next;
         }
+        if (node) {
+            mcp_list_move_to_front(cache->lru_list, node);
+        }
+
+        // Increment use count
+        schema->use_count++;
     } else {
         // Cache miss
         cache->misses++;
-
-        mcp_rwlock_read_unlock(cache->cache_lock);
-
-        mcp_log_debug("Schema cache miss: %s", schema_id);
     }
 
+    mcp_rwlock_write_unlock(cache->cache_lock);
+
+    mcp_log_debug("Schema cache %s: %s", schema ? "hit" : "miss", schema_id);
     free(schema_id);
 
-    return NULL; // Return NULL for cache miss
+    return schema; // NULL for cache miss
 }
 
 // Remove a schema from the cache
-- 
2.43.0


From 4c7e947299ac113d3d0a59ad0733808e65f0c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:36:28 +0000
Subject: [PATCH 121/126] fix: keep a cached schema while a document is
 validated against it

Another thread could evict or clear the schema between looking it up and
using it.
---
 src/json/mcp_json_schema_cache.c | 84 ++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 37 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index 1b7f0ff..d456252 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -180,21 +180,12 @@ static void free_schema_callback(const void* key, void* value, void* user_data)
 }
 
 // Helper function to validate JSON against a compiled schema
-static int validate_with_compiled_schema(void* compiled_schema, const char* json_str) {
+static int validate_with_compiled_schema(void* compiled_schema, mcp_json_t* json) {
     // In a real implementation, this would use the JSON Schema library's validation function
     // For now, we'll implement a basic validation based on the test requirements
-
-    // First, check if the JSON is valid
-    mcp_json_t* json = mcp_json_parse(json_str);
-    if (json == NULL) {
-        mcp_log_error("Failed to parse JSON for validation");
-        return -1;
-    }
-
     schema_rules_t* rules = (schema_rules_t*)compiled_schema;
     if (!rules) {
         mcp_log_error("Invalid schema for validation");
-        mcp_json_destroy(json);
         return -1;
     }
 
@@ -202,14 +193,10 @@ static int validate_with_compiled_schema(void* compiled_schema, const char* json
     for (size_t i = 0; i < rules->required_count; i++) {
         if (!mcp_json_object_get_property(json, rules->required[i])) {
             mcp_log_error("Required property '%s' missing in JSON", rules->required[i]);
-            mcp_json_destroy(json);
             return -1;
         }
     }
 
-    // Clean up
-    mcp_json_destroy(json);
-
     return 0; // Success
 }
 
@@ -295,21 +282,14 @@ void mcp_json_schema_cache_destroy(mcp_json_schema_cache_t* cache) {
     mcp_log_info("Destroyed JSON Schema cache");
 }
 
-// Add a schema to the cache
-mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache, const char* schema_str) {
-    if (!cache || !schema_str) {
-        return NULL;
-    }
-
+// Helper function to add a schema to the cache; the caller holds the write lock
+static mcp_compiled_schema_t* add_schema_locked(mcp_json_schema_cache_t* cache, const char* schema_str) {
     // Create a compiled schema
     mcp_compiled_schema_t* schema = create_compiled_schema(schema_str);
     if (!schema) {
         return NULL;
     }
 
-    // Acquire write lock
-    mcp_rwlock_write_lock(cache->cache_lock);
-
     // Take out an entry with the same ID, be it the same schema or another one
     void* existing = NULL;
     if (mcp_hashtable_get(cache->schema_cache, schema->schema_id, &existing) == 0 && existing) {
@@ -356,7 +336,6 @@ mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache,
     if (mcp_hashtable_put(cache->schema_cache, schema->schema_id, schema) != 0) {
         mcp_log_error("Failed to insert schema into hash table");
         free_compiled_schema_struct(schema);
-        mcp_rwlock_write_unlock(cache->cache_lock);
         return NULL;
     }
 
@@ -365,28 +344,33 @@ mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache,
 
     cache->size++;
 
-    mcp_rwlock_write_unlock(cache->cache_lock);
-
     mcp_log_debug("Added schema to cache: %s", schema->schema_id);
 
     return schema;
 }
 
-// Find a schema in the cache
-mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache, const char* schema_str) {
+// Add a schema to the cache
+mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache, const char* schema_str) {
     if (!cache || !schema_str) {
         return NULL;
     }
 
+    mcp_rwlock_write_lock(cache->cache_lock);
+    mcp_compiled_schema_t* schema = add_schema_locked(cache, schema_str);
+    mcp_rwlock_write_unlock(cache->cache_lock);
+
+    return schema;
+}
+
+// Helper function to find a schema in the cache; the caller holds the write lock,
+// as finding a schema updates the statistics and the LRU list
+static mcp_compiled_schema_t* find_schema_locked(mcp_json_schema_cache_t* cache, const char* schema_str) {
     // Create a temporary schema ID
     char* schema_id = create_schema_id(schema_str);
     if (!schema_id) {
         return NULL;
     }
 
-    // Acquire write lock: finding a schema updates the statistics and the LRU list
-    mcp_rwlock_write_lock(cache->cache_lock);
-
     // Look up in hash table; different schemas may have the same ID
     void* value = NULL;
     mcp_compiled_schema_t* schema = NULL;
@@ -416,14 +400,25 @@ mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache
         cache->misses++;
     }
 
-    mcp_rwlock_write_unlock(cache->cache_lock);
-
     mcp_log_debug("Schema cache %s: %s", schema ? "hit" : "miss", schema_id);
     free(schema_id);
 
     return schema; // NULL for cache miss
 }
 
+// Find a schema in the cache
+mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache, const char* schema_str) {
+    if (!cache || !schema_str) {
+        return NULL;
+    }
+
+    mcp_rwlock_write_lock(cache->cache_lock);
+    mcp_compiled_schema_t* schema = find_schema_locked(cache, schema_str);
+    mcp_rwlock_write_unlock(cache->cache_lock);
+
+    return schema;
+}
+
 // Remove a schema from the cache
 int mcp_json_schema_cache_remove(mcp_json_schema_cache_t* cache, const char* schema_id) {
     if (!cache || !schema_id) {
@@ -529,19 +524,34 @@ int mcp_json_schema_validate(mcp_json_schema_cache_t* cache, const char* json_st
 
     mcp_log_debug("Validating JSON against schema");
 
+    // Parse the JSON before taking the lock
+    mcp_json_t* json = mcp_json_parse(json_str);
+    if (json == NULL) {
+        mcp_log_error("Failed to parse JSON for validation");
+    }
+
+    // The schema stays in the cache while the lock is held
+    mcp_rwlock_write_lock(cache->cache_lock);
+
     // Try to find the schema in the cache
-    mcp_compiled_schema_t* schema = mcp_json_schema_cache_find(cache, schema_str);
+    mcp_compiled_schema_t* schema = find_schema_locked(cache, schema_str);
     if (!schema) {
         // Schema not found in cache, add it
-        schema = mcp_json_schema_cache_add(cache, schema_str);
+        schema = add_schema_locked(cache, schema_str);
         if (!schema) {
             mcp_log_error("Failed to add schema to cache");
-            return -1;
         }
     }
 
     // Validate JSON against the compiled schema
-    int result = validate_with_compiled_schema(schema->compiled_schema, json_str);
+    int result = -1;
+    if (schema && json) {
+        result = validate_with_compiled_schema(schema->compiled_schema, json);
+    }
+
+    mcp_rwlock_write_unlock(cache->cache_lock);
+
+    mcp_json_destroy(json);
     mcp_log_debug("Validation result: %d", result);
     return result;
 }
-- 
2.43.0


From e4b2b833d63479e91e272bd8aa55fa0f9e4fd155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:46:46 +0000
Subject: [PATCH 122/126] fix: accept header values of HTTP responses in any
 case

---
 src/transport/mcp_sthttp_http_parser.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_sthttp_http_parser.c b/src/transport/mcp_sthttp_http_parser.c
index 10314f2..a2c6d42 100644
--- a/src/transport/mcp_sthttp_http_parser.c
+++ b/src/transport/mcp_sthttp_http_parser.c
@@ -198,6 +198,22 @@ static void fill_response(http_parser_context_t* parser, http_response_t* respon
     parser->body_size = 0;
 }
 
+/**
+ * @brief Find a lowercase word in a header value, in any case
+ */
+static bool value_contains(const char* value, const char* word) {
+    for (; *value != '\0'; value++) {
+        size_t i = 0;
+        while (word[i] != '\0' && tolower((unsigned char)value[i]) == word[i]) {
+            i++;
+        }
+        if (word[i] == '\0') {
+            return true;
+        }
+    }
+    return false;
+}
+
 /**
  * @brief Parse header line
  */
@@ -259,11 +275,11 @@ static int parse_header_line(http_parser_context_t* parser, const char* line) {
         free(parser->content_type);
         parser->content_type = mcp_strdup(value_start);
     } else if (strcmp(name, "transfer-encoding") == 0) {
-        if (strstr(value_start, "chunked") != NULL) {
+        if (value_contains(value_start, "chunked")) {
             parser->is_chunked = true;
         }
     } else if (strcmp(name, "connection") == 0) {
-        if (strstr(value_start, "close") != NULL) {
+        if (value_contains(value_start, "close")) {
             parser->connection_close = true;
         }
     }
-- 
2.43.0


From 8297ca9ddb124431c15d323965303c0525e044d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:59 +0000
Subject: [PATCH 123/126] fix: reset the arena of the TCP receive thread after
 every message

---
 src/transport/mcp_tcp_client_receiver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transport/mcp_tcp_client_receiver.c b/src/transport/mcp_tcp_client_receiver.c
index c0f84a6..bcfbf56 100644
--- a/src/transport/mcp_tcp_client_receiver.c
+++ b/src/transport/mcp_tcp_client_receiver.c
@@ -325,6 +325,9 @@ void* tcp_client_receive_thread_func(void* arg) {
         free(message_buf);
         message_buf = NULL;
 
+        // Everything parsed from this message has been handed over
+        mcp_arena_reset_current_thread();
+
         // Reset error_signaled flag for next iteration
         error_signaled = false;
     }
-- 
2.43.0


From 80e6566d43fc16923d0180f8aaff2e9da2cfe773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:28:13 +0000
Subject: [PATCH 124/126] fix: activate a TCP connection before its handler can
 run

The accept thread queued the handler while the connection slot was still
initializing and marked it active afterwards. A worker that picked the
task up first found the slot not active and closed the new connection.
The slot is now active and counted before the task is queued.
---
 src/transport/mcp_tcp_acceptor.c | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/transport/mcp_tcp_acceptor.c b/src/transport/mcp_tcp_acceptor.c
index 4353f36..5ffe944 100644
--- a/src/transport/mcp_tcp_acceptor.c
+++ b/src/transport/mcp_tcp_acceptor.c
@@ -198,7 +198,7 @@ void* tcp_accept_thread_func(void* arg) {
             .address = client_addr,
             .transport = transport,
             .should_stop = false,
-            .state = CLIENT_STATE_INITIALIZING,
+            .state = CLIENT_STATE_ACTIVE, // The handler may run as soon as it is queued
             .last_activity_time = current_time,
             .connect_time = current_time,
             .messages_processed = 0,
@@ -217,8 +217,12 @@ void* tcp_accept_thread_func(void* arg) {
 
         // Update the client slot under lock
         memcpy(&data->clients[client_index], &client_init, sizeof(tcp_client_connection_t));
+        tcp_stats_update_connection_accepted(&data->stats);
         mcp_mutex_unlock(data->client_mutex);
 
+        mcp_log_info("Accepted connection from %s:%d on socket %d (slot %d)",
+                    client_ip, client_port, (int)client_socket, client_index);
+
         // Add the client to the thread pool
         if (mcp_thread_pool_add_task(data->thread_pool, tcp_client_handler_wrapper, &data->clients[client_index]) != 0) {
             mcp_log_error("Failed to add client handler task to thread pool for %s:%d (slot %d)",
@@ -231,30 +235,10 @@ void* tcp_accept_thread_func(void* arg) {
             mcp_mutex_lock(data->client_mutex);
             data->clients[client_index].state = CLIENT_STATE_INACTIVE;
             data->clients[client_index].socket = MCP_INVALID_SOCKET;
+            tcp_stats_update_connection_closed(&data->stats);
             mcp_mutex_unlock(data->client_mutex);
 
             tcp_stats_update_error(&data->stats);
-        } else {
-            // Successfully added to thread pool, mark state as ACTIVE under lock
-            mcp_mutex_lock(data->client_mutex);
-
-            // Check if state is still INITIALIZING (could have been changed by stop signal)
-            if (data->clients[client_index].state == CLIENT_STATE_INITIALIZING) {
-                data->clients[client_index].state = CLIENT_STATE_ACTIVE;
-
-                // Update statistics
-                tcp_stats_update_connection_accepted(&data->stats);
-
-                mcp_log_info("Accepted connection from %s:%d on socket %d (slot %d)",
-                            client_ip, client_port, (int)client_socket, client_index);
-            } else {
-                // State changed before we could mark active (likely stopped)
-                mcp_log_warn("Client slot %d state changed before activation", client_index);
-                data->clients[client_index].state = CLIENT_STATE_INACTIVE;
-                data->clients[client_index].socket = MCP_INVALID_SOCKET;
-            }
-
-            mcp_mutex_unlock(data->client_mutex);
         }
     }
 
-- 
2.43.0


From 3b6be83a463bd26a323d155a6249ca9e3cc41e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:28:13 +0000
Subject: [PATCH 125/126] fix: stop the TCP server while connections are open

Stopping waited for the handlers and joined the worker threads before
telling the handlers to finish, so it never returned while a client was
connected. The handlers are now asked to stop first.
---
 src/transport/mcp_tcp_transport.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_tcp_transport.c b/src/transport/mcp_tcp_transport.c
index a56bc69..0f243d6 100644
--- a/src/transport/mcp_tcp_transport.c
+++ b/src/transport/mcp_tcp_transport.c
@@ -372,7 +372,24 @@ static int tcp_transport_stop(mcp_transport_t* transport) {
         mcp_log_debug("Monitor thread stopped");
     }
 
-    // Wait for thread pool tasks to complete BEFORE signaling clients to stop
+    // Ask the client handlers to finish. Their sockets are only shut down here:
+    // they stay valid until the handlers are done with them.
+    if (data->client_mutex) {
+        mcp_mutex_lock(data->client_mutex);
+        for (int i = 0; i < data->max_clients; ++i) {
+            if (data->clients[i].state != CLIENT_STATE_INACTIVE) {
+                data->clients[i].should_stop = true;
+#ifdef _WIN32
+                shutdown(data->clients[i].socket, SD_BOTH);
+#else
+                shutdown(data->clients[i].socket, SHUT_RDWR);
+#endif
+            }
+        }
+        mcp_mutex_unlock(data->client_mutex);
+    }
+
+    // Wait for thread pool tasks to complete BEFORE closing client connections
     // This prevents the race condition where tasks try to start handlers for invalid sockets
     if (data->thread_pool) {
         const int THREAD_POOL_WAIT_TIMEOUT_MS = 2000; // 2 seconds
-- 
2.43.0


From 4944635cc5fbc3078ef3aad78435346fc5de1999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:45:41 +0000
Subject: [PATCH 126/126] fix: close a TCP connection that was told to stop
 before its handler ran

The idle cleanup can mark a connection for closing while its handler is
still queued. The handler was then skipped, and nothing closed the socket
or released the slot until the server stopped.
---
 src/transport/mcp_tcp_server_utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/transport/mcp_tcp_server_utils.c b/src/transport/mcp_tcp_server_utils.c
index 70427c8..ba963bd 100644
--- a/src/transport/mcp_tcp_server_utils.c
+++ b/src/transport/mcp_tcp_server_utils.c
@@ -50,6 +50,12 @@ void tcp_client_handler_wrapper(void* arg) {
         mcp_log_debug("Skipping client handler for invalid/stopped connection (index: %d, socket: %d, should_stop: %s, state: %d)",
                      client->client_index, (int)client->socket,
                      client->should_stop ? "true" : "false", (int)client->state);
+
+        // No handler will run for this connection, so nobody else closes it
+        if (client->transport && client->transport->transport_data) {
+            tcp_close_client_connection((mcp_tcp_transport_data_t*)client->transport->transport_data,
+                                        client->client_index);
+        }
         return;
     }
 
-- 
2.43.0

