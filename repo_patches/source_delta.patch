From ac72a4582c6bdf7601b4ebcbe563887077c2fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:48 +0000
Subject: [PATCH 01/44] fix: hash table insertion terminates when keys share a
 hash value

---
 src/napr_hash.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/napr_hash.c b/src/napr_hash.c
index 4bbb70e..2f1bdd7 100644
--- a/src/napr_hash.c
+++ b/src/napr_hash.c
@@ -28,7 +28,9 @@
 
 enum
 {
-    XXH32_SEED = 0
+    XXH32_SEED = 0,
+    /* Beyond this number of buckets per element, growing the table further will not separate colliding keys */
+    MAX_BUCKETS_PER_ELEMENT = 16
 };
 
 #define hashsize(n) ((apr_size_t)1<<(n))
@@ -311,7 +313,19 @@ extern apr_status_t napr_hash_set(napr_hash_t *hash, void *data, apr_uint32_t ha
     hash->filling_table[bucket]++;
     hash->nel++;
 
-    if (hash->ffactor <= hash->filling_table[bucket]) {
+    if (hash->ffactor <= hash->filling_table[bucket] && hash->size > hash->nel * MAX_BUCKETS_PER_ELEMENT) {
+        /*
+         * The keys of this bucket have the same hash value, doubling the table again and again would not separate them:
+         * make room in the bucket itself, each time it reaches a multiple of its original capacity.
+         */
+        nel = hash->filling_table[bucket];
+        if (0 == nel % hash->ffactor) {
+            void **larger = (void **) apr_pcalloc(hash->own_pool, (nel + hash->ffactor) * sizeof(void *));
+            memcpy((void *) larger, (const void *) hash->table[bucket], nel * sizeof(void *));
+            hash->table[bucket] = larger;
+        }
+    }
+    else if (hash->ffactor <= hash->filling_table[bucket]) {
         // int i;
         // DEBUG_DBG( "rebuilding hash table, because there's %u element in bucket %u ffactor is %u (total element = %u)", 
         //      hash->filling_table[bucket], bucket, hash->ffactor, hash->nel);
-- 
2.43.0


From e76b9f2c1a0d5c07e4770e802ef9ce2585d5eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:06 +0000
Subject: [PATCH 02/44] fix: parse_human_size refuses trailing text,
 non-decimal and out-of-range numbers and accepts the documented B suffix

---
 src/human_size.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/human_size.c b/src/human_size.c
index 896ce35..8326dad 100644
--- a/src/human_size.c
+++ b/src/human_size.c
@@ -11,6 +11,8 @@
 #include <apr_strings.h>
 
 static const double BYTES_IN_KIBIBYTE = 1024.0;
+/* First value that an apr_off_t cannot hold: 2^63 */
+static const long double MAX_SIZE = 9223372036854775808.0L;
 static const apr_off_t KIBIBYTE = 1024LL;
 static const apr_off_t MEBIBYTE = 1024LL * 1024LL;
 static const apr_off_t GIBIBYTE = 1024LL * 1024LL * 1024LL;
@@ -36,14 +38,26 @@ const char *format_human_size(apr_off_t size, apr_pool_t *pool)
 
 apr_off_t parse_human_size(const char *size_str)
 {
+    const char *digits = size_str;
     char *endptr = NULL;
-    double size = strtod(size_str, &endptr);
+    long double size = strtold(size_str, &endptr);
     apr_off_t multiplier = 1;
 
     if (endptr == size_str) {
         return -1;              // Not a valid number
     }
 
+    /* Only plain decimal notation is a size, strtold() also takes negative and hexadecimal numbers, exponents, inf and nan */
+    while (isspace((unsigned char) *digits)) {
+        digits++;
+    }
+    if (*digits == '+') {
+        digits++;
+    }
+    if (digits + strspn(digits, "0123456789.") != endptr) {
+        return -1;
+    }
+
     while (*endptr && isspace((unsigned char) *endptr)) {
         endptr++;
     }
@@ -62,10 +76,20 @@ apr_off_t parse_human_size(const char *size_str)
         case 'K':
             multiplier = KIBIBYTE;
             break;
+        case 'B':
+            break;
         default:
             return -1;          // Invalid suffix
         }
+        if (endptr[1] != '\0') {
+            return -1;          // Something follows the suffix
+        }
+    }
+
+    size *= (long double) multiplier;
+    if (size >= MAX_SIZE) {
+        return -1;              // Does not fit in a file size
     }
 
-    return (apr_off_t) (size * (double) multiplier);
+    return (apr_off_t) size;
 }
-- 
2.43.0


From a4caf33c5ee48b147ab55213a7dae7309053f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:13 +0000
Subject: [PATCH 03/44] fix: comparison of large files no longer takes short,
 failing or early-ending reads for equality

---
 src/ft_file.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 9cd27c6..9d144c4 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -251,20 +251,17 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
     }
 
     do {
-        rbytes1 = HUGE_LEN;
-        status1 = apr_file_read(fd1, data_chunk1, &rbytes1);
-        rbytes2 = rbytes1;
-        status2 = apr_file_read(fd2, data_chunk2, &rbytes2);
-        if ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (rbytes2 == rbytes1)) {
-            *result_out = memcmp(data_chunk1, data_chunk2, rbytes1);
+        status1 = apr_file_read_full(fd1, data_chunk1, HUGE_LEN, &rbytes1);
+        status2 = apr_file_read_full(fd2, data_chunk2, HUGE_LEN, &rbytes2);
+        if (((APR_SUCCESS != status1) && (APR_EOF != status1)) || ((APR_SUCCESS != status2) && (APR_EOF != status2))) {
+            DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
+            DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
+            (void) apr_file_close(fd2);
+            (void) apr_file_close(fd1);
+            return ((APR_SUCCESS != status1) && (APR_EOF != status1)) ? status1 : status2;
         }
-    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out) && (rbytes2 == rbytes1));
-
-    if ((APR_EOF != status1) && (APR_EOF != status2) && (0 == *result_out)) {
-        DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
-        DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
-        return status1;
-    }
+        *result_out = (rbytes1 == rbytes2) ? memcmp(data_chunk1, data_chunk2, rbytes1) : 1;
+    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out));
 
     status1 = apr_file_close(fd2);
     if (APR_SUCCESS != status1) {
-- 
2.43.0


From 936dd312fed1311c84cfb30e45dfb1df518e128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:26 +0000
Subject: [PATCH 04/44] fix: keys longer than 65535 bytes are no longer
 compared by a truncated length

---
 src/napr_db_tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 89865aa..cfd8578 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -22,7 +22,7 @@
  * @param key2_size Size of second key
  * @return <0 if key1 < key2, 0 if equal, >0 if key1 > key2
  */
-static int db_key_compare(const uint8_t *key1_data, uint16_t key1_size, const uint8_t *key2_data, uint16_t key2_size)
+static int db_key_compare(const uint8_t *key1_data, apr_size_t key1_size, const uint8_t *key2_data, apr_size_t key2_size)
 {
     /* Compare the common length */
     size_t min_size = (key1_size < key2_size) ? key1_size : key2_size;
@@ -91,13 +91,13 @@ apr_status_t db_page_search(DB_PageHeader *page, const napr_db_val_t *key, uint1
             /* Branch page */
             DB_BranchNode *node = db_page_branch_node(page, mid);
             uint8_t *node_key = db_branch_node_key(node);
-            cmp = db_key_compare(key->data, (uint16_t) key->size, node_key, node->key_size);
+            cmp = db_key_compare(key->data, key->size, node_key, node->key_size);
         }
         else if (page->flags & P_LEAF) {
             /* Leaf page */
             DB_LeafNode *node = db_page_leaf_node(page, mid);
             uint8_t *node_key = db_leaf_node_key(node);
-            cmp = db_key_compare(key->data, (uint16_t) key->size, node_key, node->key_size);
+            cmp = db_key_compare(key->data, key->size, node_key, node->key_size);
         }
         else {
             /* Invalid page type */
-- 
2.43.0


From ecd9ab9421b629a89b9cd7026a690300fd0895e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 05/44] fix: cursors skip leaves emptied by deletions and range
 positioning continues on the next leaf

---
 src/napr_db_cursor.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/napr_db_cursor.c b/src/napr_db_cursor.c
index 1c31956..ee522a3 100644
--- a/src/napr_db_cursor.c
+++ b/src/napr_db_cursor.c
@@ -172,8 +172,9 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
         status = db_page_search(page, key, &index);
         /* If exact match or insertion point is found, it's valid */
         if (index >= page->num_keys) {
-            /* TODO: Handle NEXT logic to find next page */
-            return APR_NOTFOUND;
+            /* Every key on this leaf is smaller: the answer is the first key of the following leaves */
+            cursor->stack[cursor->top - 1].index = index;
+            return db_cursor_next(cursor);
         }
         break;
     case NAPR_DB_NEXT:
@@ -183,12 +184,13 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
         return APR_EINVAL;
     }
 
+    cursor->stack[cursor->top - 1].index = index;
+
+    /* Deletions can leave empty leaves behind: skip them */
     if (page->num_keys == 0) {
-        cursor->eof = 1;
-        return APR_NOTFOUND;
+        return (operation == NAPR_DB_LAST) ? db_cursor_prev(cursor) : db_cursor_next(cursor);
     }
 
-    cursor->stack[cursor->top - 1].index = index;
     return APR_SUCCESS;
 }
 
@@ -264,12 +266,12 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
                 }
 
                 if (page->flags & P_LEAF) {
-                    /* Reached leaf - push it with index 0 */
-                    cursor_push(cursor, page, 0);
                     if (page->num_keys == 0) {
-                        cursor->eof = 1;
-                        return APR_NOTFOUND;
+                        /* Emptied by deletions - go on with the next sibling */
+                        break;
                     }
+                    /* Reached leaf - push it with index 0 */
+                    cursor_push(cursor, page, 0);
                     return APR_SUCCESS;
                 }
 
@@ -277,6 +279,7 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
                 cursor_push(cursor, page, 0);
                 child_pgno = db_page_branch_node(page, 0)->pgno;
             }
+            continue;
         }
 
         /* This parent also exhausted - ascend further */
@@ -305,6 +308,8 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
  */
 /**
  * @brief Descend to the rightmost leaf of a subtree.
+ *
+ * @return APR_SUCCESS, or APR_INCOMPLETE if that leaf is empty (its parent is then on top of the stack)
  */
 static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
 {
@@ -319,16 +324,14 @@ static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
 
         if (page->flags & P_LEAF) {
             if (page->num_keys == 0) {
-                cursor->eof = 1;
-                return APR_NOTFOUND;
+                return APR_INCOMPLETE;
             }
             cursor_push(cursor, page, page->num_keys - 1);
             return APR_SUCCESS;
         }
 
         if (page->num_keys == 0) {
-            cursor->eof = 1;
-            return APR_NOTFOUND;
+            return APR_INCOMPLETE;
         }
         cursor_push(cursor, page, page->num_keys - 1);
         pgno = db_page_branch_node(page, page->num_keys - 1)->pgno;
@@ -339,6 +342,7 @@ static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
 {
     DB_PageHeader *page = NULL;
     uint16_t index = 0;
+    apr_status_t status = APR_SUCCESS;
 
     if (!cursor || cursor->top == 0 || cursor->eof) {
         return APR_NOTFOUND;
@@ -366,7 +370,11 @@ static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
         if (index > 0) {
             index--;
             cursor->stack[cursor->top - 1].index = index;
-            return descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+            status = descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+            if (status != APR_INCOMPLETE) {
+                return status;
+            }
+            continue;
         }
 
         cursor->top--;
-- 
2.43.0


From 2f15984ae73f10c3f4c02f370d1e8c5a5a1eb366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:18 +0000
Subject: [PATCH 06/44] fix: put splits pages without losing pairs and updates
 any key not yet put in the transaction

A split used to place the new right sibling in front of its left one when smaller keys had been
inserted below the recorded minimum, to lose the pair or leave a half-linked page when the pair
or divider did not fit after the split, and to accept keys and values whose length overflowed the
16-bit node size. Splitting is now done one page at a time before the pair is inserted, and pairs
that cannot fit are refused. Updating a key stored by an earlier transaction no longer fails with
APR_EEXIST because a neighbouring key was touched before.
---
 src/napr_db.c          | 425 ++++++++++++++++++++++-------------------
 src/napr_db_internal.h |   8 +
 2 files changed, 240 insertions(+), 193 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 59b99cd..c358513 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -15,6 +15,7 @@
 #include <apr_thread_mutex.h>
 #include <apr_proc_mutex.h>
 #include <apr_global_mutex.h>
+#include <apr_strings.h>
 #include <apr_portable.h>
 #include <string.h>
 #include <unistd.h>
@@ -774,6 +775,8 @@ static apr_status_t write_dirty_pages_to_disk(napr_db_txn_t *txn)
 }
 
 /* Forward declarations for Free DB helper functions */
+static apr_status_t put_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data);
+static apr_status_t del_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key);
 static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, DB_SplitPgnos pgnos);
 static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key, pgno_t *new_root_out);
 
@@ -1051,7 +1054,7 @@ static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const n
     size_t num_pages = data->size / sizeof(pgno_t);
 
     if (num_pages == 1) {
-        return napr_db_del(txn, key, NULL);
+        return del_in_tree(txn, key);
     }
 
     pgno_t *freed_pages = (pgno_t *) data->data;
@@ -1063,12 +1066,12 @@ static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const n
 
     napr_db_val_t new_data = {.data = remaining_pages,.size = (num_pages - 1) * sizeof(pgno_t) };
 
-    status = napr_db_del(txn, key, NULL);
+    status = del_in_tree(txn, key);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    return napr_db_put(txn, key, &new_data);
+    return put_in_tree(txn, key, &new_data);
 }
 
 /**
@@ -1429,11 +1432,9 @@ static apr_status_t handle_empty_tree_put(napr_db_txn_t *txn, const napr_db_val_
     return APR_SUCCESS;
 }
 
-static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, pgno_t *right_child_pgno);
-static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key);
-static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data);
+static apr_status_t make_room(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, const napr_db_val_t *key);
 
-apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
+static apr_status_t put_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data)
 {
     pgno_t path[MAX_TREE_DEPTH] = { 0 };
     uint16_t path_len = 0;
@@ -1443,255 +1444,282 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
     apr_status_t status = APR_SUCCESS;
     int idx = 0;
 
-    napr_db_val_t current_key;
-    napr_db_val_t current_data;
-    pgno_t right_child_pgno = 0;
-
-    /* Validate inputs */
-    if (!txn || !key || !data) {
-        return APR_EINVAL;
-    }
-
-    /* Key/data to insert at each level (may be updated during split propagation) */
-    current_key = *key;
-    current_data = *data;
-
-    /* Ensure this is a write transaction */
-    if (txn->flags & NAPR_DB_RDONLY) {
-        return APR_EACCES;
+    /* A pair has to fit on a page, and a key has to leave room for two others on a branch page */
+    if (key->size > DB_MAX_KEY_SIZE || data->size > DB_MAX_NODE_SIZE - sizeof(DB_LeafNode) - key->size) {
+        return APR_ENOSPC;
     }
 
     /* Special case: Empty tree (no root yet) */
     if (txn->root_pgno == 0) {
-        return handle_empty_tree_put(txn, &current_key, &current_data);
-    }
-
-    /* Normal case: Tree exists, find the leaf page and record path */
-    status = db_find_leaf_page_with_path(txn, &current_key, path, &path_len, &leaf_page);
-    if (status != APR_SUCCESS) {
-        return status;
+        return handle_empty_tree_put(txn, key, data);
     }
 
-    /* Search within the leaf page to find insertion point */
-    apr_status_t search_status = db_page_search(leaf_page, &current_key, &index);
+    while (1) {
+        apr_size_t needed = sizeof(DB_LeafNode) + key->size + data->size + sizeof(uint16_t);
+        apr_size_t available = 0;
 
-    /* If key exists, check if this is a same-transaction duplicate or an MVCC update.
-     * Same-transaction duplicate: Leaf page is already dirty -> reject with APR_EEXIST
-     * MVCC update: Leaf page is NOT dirty -> allow via CoW */
-    if (search_status == APR_SUCCESS) {
-        pgno_t leaf_pgno = path[path_len - 1];
-        DB_PageHeader *check_dirty = apr_hash_get(txn->dirty_pages, &leaf_pgno, sizeof(pgno_t));
-        if (check_dirty) {
-            /* Same transaction - key already inserted, can't insert again */
-            return APR_EEXIST;
+        /* Normal case: Tree exists, find the leaf page and record path */
+        status = db_find_leaf_page_with_path(txn, key, path, &path_len, &leaf_page);
+        if (status != APR_SUCCESS) {
+            return status;
         }
-        /* Different transaction - will CoW and update below */
-    }
 
-    /* CoW path propagation: Copy all pages from leaf to root */
-    for (idx = (int) path_len - 1; idx >= 0; idx--) {
-        pgno_t current_pgno = path[idx];
-        DB_PageHeader *page_to_cow = NULL;
+        /* Search within the leaf page to find insertion point */
+        apr_status_t search_status = db_page_search(leaf_page, key, &index);
 
-        /* Check if page is already dirty */
-        page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
+        /* CoW path propagation: Copy all pages from leaf to root */
+        for (idx = (int) path_len - 1; idx >= 0; idx--) {
+            pgno_t current_pgno = path[idx];
+            DB_PageHeader *page_to_cow = NULL;
 
-        if (page_to_cow) {
-            dirty_page = page_to_cow;
-        }
-        else {
-            /* Page is in mmap - CoW it */
-            DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
+            /* Check if page is already dirty */
+            page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
 
-            status = db_page_get_writable(txn, original_page, &dirty_page);
-            if (status != APR_SUCCESS) {
-                return status;
+            if (page_to_cow) {
+                dirty_page = page_to_cow;
+            }
+            else {
+                /* Page is in mmap - CoW it */
+                DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
+
+                status = db_page_get_writable(txn, original_page, &dirty_page);
+                if (status != APR_SUCCESS) {
+                    return status;
+                }
+            }
+
+            /* Update leaf_page pointer if this is the leaf */
+            if (idx == (int) path_len - 1) {
+                leaf_page = dirty_page;
             }
         }
 
-        /* Update leaf_page pointer if this is the leaf */
-        if (idx == (int) path_len - 1) {
-            leaf_page = dirty_page;
+        /* The old entry of an updated key makes room for the new one */
+        available = (apr_size_t) (leaf_page->upper - leaf_page->lower);
+        if (search_status == APR_SUCCESS) {
+            DB_LeafNode *old_node = db_page_leaf_node(leaf_page, index);
+            available += sizeof(DB_LeafNode) + old_node->key_size + old_node->data_size + sizeof(uint16_t);
         }
-    }
 
-    /* If key exists (MVCC update), delete the old entry before inserting new one */
-    if (search_status == APR_SUCCESS) {
-        status = db_page_delete(leaf_page, index);
+        if (needed <= available) {
+            /* If key exists (MVCC update), delete the old entry before inserting new one */
+            if (search_status == APR_SUCCESS) {
+                status = db_page_delete(leaf_page, index);
+                if (status != APR_SUCCESS) {
+                    return status;
+                }
+            }
+            return db_page_insert(leaf_page, index, key, data, 0);
+        }
+
+        /* Split one page on the path (the contents do not change) and try again */
+        status = make_room(txn, path, path_len, key);
         if (status != APR_SUCCESS) {
             return status;
         }
     }
+}
 
-    /* Try to insert into the dirty leaf page */
-    status = db_page_insert(leaf_page, index, &current_key, &current_data, right_child_pgno);
+apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
+{
+    apr_status_t status = APR_SUCCESS;
 
-    /* If insertion succeeded, we're done */
-    if (status == APR_SUCCESS) {
-        return APR_SUCCESS;
+    /* Validate inputs */
+    if (!txn || !key || !data) {
+        return APR_EINVAL;
     }
 
-    /* If insertion failed due to insufficient space, handle split */
-    if (status != APR_ENOSPC) {
-        return status;          /* Other error */
+    /* Ensure this is a write transaction */
+    if (txn->flags & NAPR_DB_RDONLY) {
+        return APR_EACCES;
     }
 
-    return handle_page_split(txn, leaf_page, path, path_len, &current_key, &current_data);
+    /* A key that this transaction has already put is rejected, one stored by an earlier transaction is updated */
+    if (!txn->put_keys) {
+        txn->put_keys = apr_hash_make(txn->pool);
+    }
+    if (apr_hash_get(txn->put_keys, key->data, (apr_ssize_t) key->size)) {
+        return APR_EEXIST;
+    }
+
+    status = put_in_tree(txn, key, data);
+    if (status == APR_SUCCESS) {
+        apr_hash_set(txn->put_keys, apr_pmemdup(txn->pool, key->data, key->size), (apr_ssize_t) key->size, txn);
+    }
+    return status;
 }
 
-static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data)
+/**
+ * @brief Create an empty page private to the transaction.
+ */
+static apr_status_t new_dirty_page(napr_db_txn_t *txn, uint16_t flags, DB_PageHeader **page_out)
 {
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *left_page = leaf_page;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    uint16_t index = 0;
+    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
+    DB_PageHeader *page = apr_pcalloc(txn->pool, PAGE_SIZE);
+    apr_status_t status = APR_SUCCESS;
 
-    status = db_split_leaf(txn, left_page, &right_page, &divider_key);
+    if (!pgno_key || !page) {
+        return APR_ENOMEM;
+    }
+
+    status = db_page_alloc(txn, 1, pgno_key);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    apr_status_t search_status = db_page_search(left_page, current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, current_key, &index);
-        status = db_page_insert(right_page, index, current_key, current_data, 0);
+    page->pgno = *pgno_key;
+    page->flags = flags;
+    page->lower = sizeof(DB_PageHeader);
+    page->upper = PAGE_SIZE;
+    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), page);
+
+    *page_out = page;
+    return APR_SUCCESS;
+}
+
+/**
+ * @brief Get the key at a given index of a page of either kind.
+ */
+static napr_db_val_t page_key(DB_PageHeader *page, uint16_t index)
+{
+    napr_db_val_t key = { 0 };
+
+    if (page->flags & P_BRANCH) {
+        DB_BranchNode *node = db_page_branch_node(page, index);
+        key.data = db_branch_node_key(node);
+        key.size = node->key_size;
     }
     else {
-        status = db_page_insert(left_page, index, current_key, current_data, 0);
+        DB_LeafNode *node = db_page_leaf_node(page, index);
+        key.data = db_leaf_node_key(node);
+        key.size = node->key_size;
+    }
+
+    return key;
+}
+
+/**
+ * @brief Put a new root above the current one (increases tree height).
+ */
+static apr_status_t push_down_root(napr_db_txn_t *txn)
+{
+    DB_PageHeader *new_root = NULL;
+    DB_PageHeader *old_root = apr_hash_get(txn->dirty_pages, &txn->root_pgno, sizeof(pgno_t));
+    napr_db_val_t left_min_key = { 0 };
+    apr_status_t status = APR_SUCCESS;
+
+    if (!old_root || old_root->num_keys == 0) {
+        return APR_EGENERAL;
     }
+
+    status = new_dirty_page(txn, P_BRANCH, &new_root);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    pgno_t right_child_pgno = right_page->pgno;
-    *current_key = divider_key;
-
-    status = propagate_split_up_tree(txn, path, path_len, current_key, &right_child_pgno);
-    if (status == APR_INCOMPLETE) {
-        return APR_SUCCESS;
-    }
+    left_min_key = page_key(old_root, 0);
+    status = db_page_insert(new_root, 0, &left_min_key, NULL, txn->root_pgno);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    return handle_root_split(txn, path[0], right_child_pgno, current_key);
+    txn->root_pgno = new_root->pgno;
+    return APR_SUCCESS;
 }
 
-static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, pgno_t *right_child_pgno)
+/**
+ * @brief Enter the right half of a split page into its parent.
+ */
+static apr_status_t insert_divider(DB_PageHeader *parent_page, const napr_db_val_t *divider_key, pgno_t right_pgno)
 {
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
     uint16_t index = 0;
-    int idx = 0;
-
-    for (idx = (int) path_len - 2; idx >= 0; idx--) {
-        pgno_t parent_pgno = path[idx];
-        DB_PageHeader *parent_page = apr_hash_get(txn->dirty_pages, &parent_pgno, sizeof(pgno_t));
-        if (!parent_page) {
-            return APR_EGENERAL;
-        }
 
-        (void) db_page_search(parent_page, current_key, &index);
+    (void) db_page_search(parent_page, divider_key, &index);
 
-        status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
+    if (index == 0) {
+        /* Keys below the recorded minimum of the leftmost child were inserted since: the divider still belongs behind
+         * that child, whose lower bound becomes the empty key. */
+        napr_db_val_t lowest_key = {.size = 0,.data = "" };
+        pgno_t left_pgno = db_page_branch_node(parent_page, 0)->pgno;
+        apr_status_t status = db_page_delete(parent_page, 0);
         if (status == APR_SUCCESS) {
-            /* Successfully inserted into this parent - split absorbed, no root split needed */
-            return APR_INCOMPLETE;
-        }
-        if (status != APR_ENOSPC) {
-            return status;
-        }
-
-        status = db_split_branch(txn, parent_page, &right_page, &divider_key);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *right_child_pgno);
-        }
-        else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
+            status = db_page_insert(parent_page, 0, &lowest_key, NULL, left_pgno);
         }
-
         if (status != APR_SUCCESS) {
             return status;
         }
-
-        *right_child_pgno = right_page->pgno;
-        *current_key = divider_key;
+        index = 1;
     }
 
-    /* Exited loop - split propagated all the way to root, need new root */
-    return APR_SUCCESS;
+    return db_page_insert(parent_page, index, divider_key, NULL, right_pgno);
 }
 
-static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key)
+/**
+ * @brief Split the lowest page on a path whose parent can take another entry.
+ *
+ * Called when a leaf has no room. Each call splits one page, or adds a level above a full root, and needs one new page;
+ * the pairs stored in the tree stay the same, so that a failure leaves the transaction intact.
+ *
+ * @param txn Transaction handle
+ * @param path Page numbers from root to leaf, all of them dirty
+ * @param path_len Length of the path
+ * @param key Key to be inserted into the leaf
+ * @return APR_SUCCESS on success, error code on failure
+ */
+static apr_status_t make_room(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, const napr_db_val_t *key)
 {
-    pgno_t new_root_pgno = 0;
-    DB_PageHeader *new_root = NULL;
-    DB_PageHeader *old_root_page = NULL;
-    napr_db_val_t left_min_key = { 0 };
-    apr_status_t status = APR_SUCCESS;
+    int level = (int) path_len - 1;
 
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
+    while (1) {
+        DB_PageHeader *page = apr_hash_get(txn->dirty_pages, &path[level], sizeof(pgno_t));
+        DB_PageHeader *parent_page = NULL;
+        DB_PageHeader *right_page = NULL;
+        napr_db_val_t divider_key = { 0 };
+        apr_status_t status = APR_SUCCESS;
+        int append = 0;
 
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_BRANCH;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
+        if (!page || page->num_keys == 0) {
+            return APR_EGENERAL;
+        }
+        if (level == 0) {
+            return push_down_root(txn);
+        }
 
-    old_root_page = apr_hash_get(txn->dirty_pages, &old_root_pgno, sizeof(pgno_t));
-    if (!old_root_page) {
-        return APR_EGENERAL;
-    }
+        parent_page = apr_hash_get(txn->dirty_pages, &path[level - 1], sizeof(pgno_t));
+        if (!parent_page) {
+            return APR_EGENERAL;
+        }
 
-    if (old_root_page->flags & P_BRANCH) {
-        DB_BranchNode *left_first_node = db_page_branch_node(old_root_page, 0);
-        left_min_key.data = db_branch_node_key(left_first_node);
-        left_min_key.size = left_first_node->key_size;
-    }
-    else {
-        DB_LeafNode *left_first_leaf = db_page_leaf_node(old_root_page, 0);
-        left_min_key.data = db_leaf_node_key(left_first_leaf);
-        left_min_key.size = left_first_leaf->key_size;
-    }
+        /* A leaf with a single pair is kept whole: the new key gets a leaf of its own on its right or, if it is the
+         * smaller one, takes the place of the old pair, which moves right. */
+        if (page->num_keys == 1) {
+            uint16_t index = 0;
+            (void) db_page_search(page, key, &index);
+            append = (index > 0);
+        }
 
-    status = db_page_insert(new_root, 0, &left_min_key, NULL, old_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
+        divider_key = append ? *key : page_key(page, page->num_keys / 2);
+        if ((apr_size_t) (parent_page->upper - parent_page->lower) < sizeof(DB_BranchNode) + divider_key.size + sizeof(uint16_t)) {
+            /* No room in the parent: split that one first */
+            level--;
+            continue;
+        }
 
-    status = db_page_insert(new_root, 1, divider_key, NULL, right_child_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
+        if (append) {
+            status = new_dirty_page(txn, P_LEAF, &right_page);
+        }
+        else if (page->flags & P_BRANCH) {
+            status = db_split_branch(txn, page, &right_page, &divider_key);
+        }
+        else {
+            status = db_split_leaf(txn, page, &right_page, &divider_key);
+        }
+        if (status != APR_SUCCESS) {
+            return status;
+        }
 
-    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
+        return insert_divider(parent_page, &divider_key, right_page->pgno);
     }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-
-    txn->root_pgno = new_root_pgno;
-
-    return APR_SUCCESS;
 }
 
 /**
@@ -1853,7 +1881,7 @@ static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_roo
  * @param data Currently unused (reserved for conditional delete)
  * @return APR_SUCCESS on success, APR_NOTFOUND if key doesn't exist, error otherwise
  */
-apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
+static apr_status_t del_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key)
 {
     pgno_t path[MAX_TREE_DEPTH] = { 0 };
     uint16_t path_len = 0;
@@ -1861,12 +1889,6 @@ apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
     uint16_t index = 0;
     apr_status_t status = APR_SUCCESS;
 
-    (void) data;                /* Reserved for future use (conditional delete) */
-
-    if (!txn || !key || (txn->flags & NAPR_DB_RDONLY)) {
-        return APR_EINVAL;
-    }
-
     /* Empty tree - nothing to delete */
     if (txn->root_pgno == 0) {
         return APR_NOTFOUND;
@@ -1919,3 +1941,20 @@ apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
 
     return APR_SUCCESS;
 }
+
+apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
+{
+    apr_status_t status = APR_SUCCESS;
+
+    (void) data;                /* Reserved for future use (conditional delete) */
+
+    if (!txn || !key || (txn->flags & NAPR_DB_RDONLY)) {
+        return APR_EINVAL;
+    }
+
+    status = del_in_tree(txn, key);
+    if (status == APR_SUCCESS && txn->put_keys) {
+        apr_hash_set(txn->put_keys, key->data, (apr_ssize_t) key->size, NULL);
+    }
+    return status;
+}
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 2693387..7717418 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -117,6 +117,12 @@ typedef struct DB_ReaderSlot
 #define DB_LEAFNODE_DATA_SIZE_OFFSET 2
 #define DB_LEAFNODE_KV_DATA_OFFSET 4
 
+/** Largest node (without its slot) that fits on an empty page */
+#define DB_MAX_NODE_SIZE (PAGE_SIZE - DB_PAGEHEADER_SIZE - 2)
+
+/** Largest key: a branch page has to hold at least three entries */
+#define DB_MAX_KEY_SIZE (((PAGE_SIZE - DB_PAGEHEADER_SIZE) / 3) - DB_BRANCHNODE_BASE_SIZE - 2)
+
 /* Freed Pages default array size  */
 #define DB_FREED_PAGES_DFLT_SIZE 16
 
@@ -332,6 +338,8 @@ typedef struct __attribute__((packed))
          /* Free space tracking for write transactions */
          apr_array_header_t *freed_pages;
                                       /**< Array of pgno_t freed during this transaction */
+
+         apr_hash_t *put_keys;  /**< Keys put by this transaction (to reject putting one twice) */
      };
 
 /**
-- 
2.43.0


From 6b45803906b0e47af946e01198b1b26ab7a2f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:19 +0000
Subject: [PATCH 07/44] fix: napr_db_del honours the documented value condition
 and aborting NULL is refused

---
 src/napr_db.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index c358513..ce99014 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1277,12 +1277,14 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 apr_status_t napr_db_txn_abort(napr_db_txn_t *txn)
 {
     apr_status_t status = APR_SUCCESS;
-    int is_write = !(txn->flags & NAPR_DB_RDONLY);
+    int is_write = 0;
 
     if (!txn) {
         return APR_EINVAL;
     }
 
+    is_write = !(txn->flags & NAPR_DB_RDONLY);
+
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
         apr_os_proc_t pid = getpid();
@@ -1878,7 +1880,7 @@ static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_roo
  *
  * @param txn Write transaction handle
  * @param key Key to delete
- * @param data Currently unused (reserved for conditional delete)
+ * @param data Optional: if non-NULL, only delete if the stored value matches
  * @return APR_SUCCESS on success, APR_NOTFOUND if key doesn't exist, error otherwise
  */
 static apr_status_t del_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key)
@@ -1946,12 +1948,23 @@ apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
 {
     apr_status_t status = APR_SUCCESS;
 
-    (void) data;                /* Reserved for future use (conditional delete) */
-
     if (!txn || !key || (txn->flags & NAPR_DB_RDONLY)) {
         return APR_EINVAL;
     }
 
+    /* Conditional delete: the stored value has to match */
+    if (data) {
+        napr_db_val_t stored = { 0 };
+
+        status = napr_db_get(txn, key, &stored);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        if (stored.size != data->size || (data->size > 0 && memcmp(stored.data, data->data, data->size) != 0)) {
+            return APR_NOTFOUND;
+        }
+    }
+
     status = del_in_tree(txn, key);
     if (status == APR_SUCCESS && txn->put_keys) {
         apr_hash_set(txn->put_keys, key->data, (apr_ssize_t) key->size, NULL);
-- 
2.43.0


From 0b8bb27969e291912fa66214b25ef042b6e07507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:49 +0000
Subject: [PATCH 08/44] fix: commits write modified pages to new places instead
 of over the committed state

Modified pages used to be written over the pages of the committed state while the same page
numbers were recorded as free, so that readers saw later commits, a crash during a commit mixed
two states, and pages still in use were handed out again. Modified pages are now moved when the
transaction commits, lists of freed pages of any length are recorded, the Free DB uses the same
insertion code as the main tree, and pages beyond the map are refused.
---
 src/napr_db.c          | 498 ++++++++++++-----------------------------
 src/napr_db_internal.h |  18 +-
 src/napr_db_tree.c     |  12 +-
 3 files changed, 163 insertions(+), 365 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index ce99014..45f701a 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -777,179 +777,108 @@ static apr_status_t write_dirty_pages_to_disk(napr_db_txn_t *txn)
 /* Forward declarations for Free DB helper functions */
 static apr_status_t put_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data);
 static apr_status_t del_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key);
-static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, DB_SplitPgnos pgnos);
-static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key, pgno_t *new_root_out);
+static apr_status_t cow_path(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, DB_PageHeader **leaf_page_out);
 
 /**
- * @brief Populate the Free DB with freed pages from this transaction.
+ * @brief Give every modified page of the committed state a new place in the file.
  *
- * This function inserts an entry into the Free DB mapping:
- * Key = current TXNID, Value = array of freed pgno_t values.
- *
- * The Free DB is a separate B+ tree that tracks which pages were freed
- * by which transaction. This enables safe page reclamation based on
- * the oldest active reader.
+ * The pages of the committed state must stay as they are: readers may be using them, and they are what is left after a
+ * crash. Moving a page can take pages from the Free DB, which modifies pages of the Free DB in turn, so the list of
+ * freed pages may grow while it is being worked on.
  *
  * @param txn The write transaction
- * @param new_free_db_root_out Output: the new Free DB root page number
  * @return APR_SUCCESS or an error code
  */
-static apr_status_t initialize_empty_free_db(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t *new_root_pgno_out)
+static apr_status_t relocate_dirty_pages(napr_db_txn_t *txn)
 {
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    pgno_t new_root_pgno;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    DB_PageHeader *new_root;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    pgno_t *pgno_key;
-
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_LEAF;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    status = db_page_insert(new_root, 0, key, data, 0);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-    *new_root_pgno_out = new_root_pgno;
-
-    return APR_SUCCESS;
-}
-
-static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t *new_free_db_root_out)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    pgno_t path[MAX_TREE_DEPTH] = { 0 };
-    uint16_t path_len = 0;
-    DB_PageHeader *leaf_page = NULL;
-    uint16_t index = 0;
-    napr_db_val_t current_key = *key;
-    napr_db_val_t current_data = *data;
-    pgno_t right_child_pgno = 0;
-
-    status = db_find_leaf_page_with_path_in_tree(txn, txn->free_db_root_pgno, &current_key, path, &path_len, &leaf_page);
-    if (status != APR_SUCCESS) {
-        return initialize_empty_free_db(txn, key, data, new_free_db_root_out);
-    }
+    apr_status_t status = APR_SUCCESS;
+    int idx = 0;
 
-    status = db_page_search(leaf_page, &current_key, &index);
-    if (status == APR_SUCCESS) {
-        return APR_EEXIST;
-    }
+    /* The entry for this transaction will be added to the Free DB: modify that part of it now */
+    if (txn->free_db_root_pgno != 0 && txn->freed_pages->nelts > 0) {
+        pgno_t path[MAX_TREE_DEPTH] = { 0 };
+        uint16_t path_len = 0;
+        DB_PageHeader *leaf_page = NULL;
+        napr_db_val_t key = {.size = sizeof(txnid_t),.data = &txn->txnid };
 
-    for (int i = (int)path_len - 1; i >= 0; i--) {
-        pgno_t current_pgno = path[i];
-        DB_PageHeader *dirty_page = NULL;
-        DB_PageHeader *page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
-        if (page_to_cow) {
-            dirty_page = page_to_cow;
-        }
-        else {
-            DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
-            status = db_page_get_writable(txn, original_page, &dirty_page);
-            if (status != APR_SUCCESS) {
-                return status;
-            }
+        status = db_find_leaf_page_with_path_in_tree(txn, txn->free_db_root_pgno, &key, path, &path_len, &leaf_page);
+        if (status == APR_SUCCESS) {
+            status = cow_path(txn, path, path_len, &leaf_page);
         }
-        if (i == (int) path_len - 1) {
-            leaf_page = dirty_page;
+        if (status != APR_SUCCESS) {
+            return status;
         }
     }
 
-    status = db_page_insert(leaf_page, index, &current_key, &current_data, right_child_pgno);
-    if (status == APR_SUCCESS) {
-        *new_free_db_root_out = path[0];
-        return APR_SUCCESS;
-    }
-    if (status != APR_ENOSPC) {
-        return status;
-    }
-
-    DB_PageHeader *left_page = leaf_page;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    status = db_split_leaf(txn, left_page, &right_page, &divider_key);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    apr_status_t search_status = db_page_search(left_page, &current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, &current_key, &index);
-        status = db_page_insert(right_page, index, &current_key, &current_data, 0);
-    }
-    else {
-        status = db_page_insert(left_page, index, &current_key, &current_data, 0);
-    }
-    if (status != APR_SUCCESS) {
-        return status;
-    }
+    for (idx = 0; idx < txn->freed_pages->nelts; idx++) {
+        pgno_t old_pgno = APR_ARRAY_IDX(txn->freed_pages, idx, pgno_t);
+        DB_PageHeader *dirty_page = apr_hash_get(txn->dirty_pages, &old_pgno, sizeof(pgno_t));
+        pgno_t new_pgno = 0;
 
-    right_child_pgno = right_page->pgno;
-    current_key = divider_key;
-    status = propagate_split_up_tree_in_tree(txn, path, path_len, &current_key, (DB_SplitPgnos) {
-                                             .right_child_pgno = &right_child_pgno,.new_root_out = new_free_db_root_out}
-    );
-    if (status == APR_INCOMPLETE) {
-        *new_free_db_root_out = path[0];
-        return APR_SUCCESS;
-    }
-    if (status != APR_SUCCESS) {
-        return status;
+        if (!dirty_page || dirty_page->pgno != old_pgno) {
+            continue;
+        }
+        status = db_page_alloc(txn, 1, &new_pgno);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        dirty_page->pgno = new_pgno;
     }
 
-    return handle_root_split_in_tree(txn, path[0], right_child_pgno, &current_key, new_free_db_root_out);
+    return APR_SUCCESS;
 }
 
-static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_root_out)
+/**
+ * @brief Populate the Free DB with freed pages from this transaction.
+ *
+ * This function inserts entries into the Free DB mapping:
+ * Key = current TXNID, Value = array of freed pgno_t values.
+ * Lists too long for one entry continue under the TXNID followed by a number.
+ *
+ * The Free DB is a separate B+ tree that tracks which pages were freed
+ * by which transaction. This enables safe page reclamation based on
+ * the oldest active reader.
+ *
+ * @param txn The write transaction
+ * @return APR_SUCCESS or an error code
+ */
+static apr_status_t populate_free_db(napr_db_txn_t *txn)
 {
-    napr_db_val_t key = { 0 };
-    napr_db_val_t data = { 0 };
-    txnid_t txnid_key = 0;
-
-    if (!txn || !new_free_db_root_out) {
-        return APR_EINVAL;
-    }
+    apr_status_t status = APR_SUCCESS;
+    pgno_t saved_root = txn->root_pgno;
+    uint32_t part = 0;
+    int first = 0;
+    struct __attribute__((packed))
+    {
+        txnid_t txnid;
+        uint32_t part;
+    } entry_key = {.txnid = txn->txnid };
+
+    /* From here on new pages come from the end of the file: the list of freed pages is complete */
+    txn->no_reclaim = 1;
+    txn->root_pgno = txn->free_db_root_pgno;
 
-    *new_free_db_root_out = txn->free_db_root_pgno;
-    if (!txn->freed_pages || txn->freed_pages->nelts == 0) {
-        return APR_SUCCESS;
-    }
+    for (first = 0; status == APR_SUCCESS && first < txn->freed_pages->nelts; first += DB_FREE_ENTRY_PAGES, part++) {
+        int count = txn->freed_pages->nelts - first;
+        napr_db_val_t key = { 0 };
+        napr_db_val_t data = { 0 };
 
-    txnid_key = txn->txnid;
-    key.data = &txnid_key;
-    key.size = sizeof(txnid_t);
-    data.data = txn->freed_pages->elts;
-    data.size = (apr_size_t) txn->freed_pages->nelts * txn->freed_pages->elt_size;
+        if (count > DB_FREE_ENTRY_PAGES) {
+            count = DB_FREE_ENTRY_PAGES;
+        }
+        entry_key.part = part;
+        key.data = &entry_key;
+        key.size = (part == 0) ? sizeof(txnid_t) : sizeof(entry_key);
+        data.data = &APR_ARRAY_IDX(txn->freed_pages, first, pgno_t);
+        data.size = (apr_size_t) count *sizeof(pgno_t);
 
-    pgno_t max_valid_pgno = (txn->flags & NAPR_DB_RDONLY) ? txn->env->live_meta->last_pgno : txn->new_last_pgno;
-    if (txn->free_db_root_pgno == 0 || txn->free_db_root_pgno > max_valid_pgno) {
-        return initialize_empty_free_db(txn, &key, &data, new_free_db_root_out);
+        status = put_in_tree(txn, &key, &data);
     }
 
-    return insert_into_free_db(txn, &key, &data, new_free_db_root_out);
+    txn->free_db_root_pgno = txn->root_pgno;
+    txn->root_pgno = saved_root;
+    txn->no_reclaim = 0;
+    return status;
 }
 
 /**
@@ -1019,7 +948,7 @@ apr_status_t read_from_free_db(napr_db_txn_t *txn, txnid_t txnid, pgno_t **freed
     return APR_SUCCESS;
 }
 
-static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_reader_txnid, napr_db_cursor_t *cursor, napr_db_val_t *key, napr_db_val_t *data)
+static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_reader_txnid, int any_entry, napr_db_cursor_t *cursor, napr_db_val_t *key, napr_db_val_t *data)
 {
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
     apr_status_t status;
@@ -1027,7 +956,7 @@ static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_re
 
     status = napr_db_cursor_get(cursor, key, data, NAPR_DB_FIRST);
     while (status == APR_SUCCESS) {
-        if (key->size != sizeof(txnid_t)) {
+        if (key->size < sizeof(txnid_t)) {
             status = napr_db_cursor_get(cursor, key, data, NAPR_DB_NEXT);
             continue;
         }
@@ -1035,7 +964,11 @@ static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_re
         memcpy(&entry_txnid, key->data, sizeof(txnid_t));
 
         if (entry_txnid < oldest_reader_txnid) {
-            if (data->size % sizeof(pgno_t) == 0 && data->size > 0) {
+            /* A short list is left alone for some transactions: fetching a page from it costs as much as it gains */
+            int worthwhile = any_entry || data->size >= DB_FREE_ENTRY_MIN_PAGES * sizeof(pgno_t) || entry_txnid + DB_FREE_ENTRY_MIN_AGE <= txn->txnid
+                || entry_txnid == txn->reclaimed_from;
+            if (worthwhile && data->size % sizeof(pgno_t) == 0 && data->size > 0) {
+                txn->reclaimed_from = entry_txnid;
                 return APR_SUCCESS;
             }
         }
@@ -1057,12 +990,11 @@ static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const n
         return del_in_tree(txn, key);
     }
 
-    pgno_t *freed_pages = (pgno_t *) data->data;
     pgno_t *remaining_pages = apr_palloc(txn->pool, (num_pages - 1) * sizeof(pgno_t));
     if (!remaining_pages) {
         return APR_ENOMEM;
     }
-    memcpy(remaining_pages, &freed_pages[1], (num_pages - 1) * sizeof(pgno_t));
+    memcpy(remaining_pages, (const char *) data->data + sizeof(pgno_t), (num_pages - 1) * sizeof(pgno_t));
 
     napr_db_val_t new_data = {.data = remaining_pages,.size = (num_pages - 1) * sizeof(pgno_t) };
 
@@ -1081,10 +1013,11 @@ static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const n
  * oldest active reader. If found, it reclaims one page from that entry.
  *
  * @param txn The write transaction requesting a page allocation.
+ * @param any_entry Non-zero to take pages even from short and recent entries.
  * @param reclaimed_pgno_out Output parameter for the reclaimed page number.
  * @return APR_SUCCESS if a page was reclaimed, APR_NOTFOUND if no safe pages available.
  */
-apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, pgno_t *reclaimed_pgno_out)
+apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, int any_entry, pgno_t *reclaimed_pgno_out)
 {
     if (!txn || !reclaimed_pgno_out) {
         return APR_EINVAL;
@@ -1114,14 +1047,15 @@ apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, pgno_t *reclaimed_
 
     napr_db_val_t key = { 0 };
     napr_db_val_t data = { 0 };
-    status = find_reclaimable_entry(txn, oldest_reader_txnid, cursor, &key, &data);
+    status = find_reclaimable_entry(txn, oldest_reader_txnid, any_entry, cursor, &key, &data);
 
     napr_db_cursor_close(cursor);
 
     if (status == APR_SUCCESS) {
-        pgno_t *freed_pages = (pgno_t *) data.data;
-        *reclaimed_pgno_out = freed_pages[0];
+        memcpy(reclaimed_pgno_out, data.data, sizeof(pgno_t));
 
+        /* The key lies on the page that is about to be modified */
+        key.data = apr_pmemdup(txn->pool, key.data, key.size);
         status = update_or_delete_reclaimed_entry(txn, &key, &data);
     }
 
@@ -1226,10 +1160,14 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
         return APR_SUCCESS;
     }
 
-    /* Populate the Free DB with freed pages from this transaction FIRST
+    /* Move the modified pages away from the committed state and record the pages this frees, FIRST
      * so that Free DB pages are added to dirty_pages before we update pointers */
-    pgno_t new_free_db_root = 0;
-    status = populate_free_db(txn, &new_free_db_root);
+    status = relocate_dirty_pages(txn);
+    if (status != APR_SUCCESS) {
+        goto cleanup;
+    }
+
+    status = populate_free_db(txn);
     if (status != APR_SUCCESS) {
         goto cleanup;
     }
@@ -1241,6 +1179,12 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 
     update_dirty_page_pointers(txn, pgno_map, &new_root_pgno);
 
+    pgno_t new_free_db_root = txn->free_db_root_pgno;
+    pgno_t *mapped_free_db_root = apr_hash_get(pgno_map, &txn->free_db_root_pgno, sizeof(pgno_t));
+    if (mapped_free_db_root) {
+        new_free_db_root = *mapped_free_db_root;
+    }
+
     status = extend_database_file(txn);
     if (status != APR_SUCCESS) {
         goto cleanup;
@@ -1436,15 +1380,48 @@ static apr_status_t handle_empty_tree_put(napr_db_txn_t *txn, const napr_db_val_
 
 static apr_status_t make_room(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, const napr_db_val_t *key);
 
+/**
+ * @brief Copy-on-Write all pages from leaf to root.
+ *
+ * @param txn Transaction handle
+ * @param path Page numbers from root to leaf
+ * @param path_len Length of the path
+ * @param leaf_page_out Output: the writable copy of the leaf
+ * @return APR_SUCCESS on success, error code on failure
+ */
+static apr_status_t cow_path(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, DB_PageHeader **leaf_page_out)
+{
+    for (int idx = (int) path_len - 1; idx >= 0; idx--) {
+        pgno_t current_pgno = path[idx];
+
+        /* Check if page is already dirty */
+        DB_PageHeader *dirty_page = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
+
+        if (!dirty_page) {
+            /* Page is in mmap - CoW it */
+            DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
+
+            apr_status_t status = db_page_get_writable(txn, original_page, &dirty_page);
+            if (status != APR_SUCCESS) {
+                return status;
+            }
+        }
+
+        if (idx == (int) path_len - 1) {
+            *leaf_page_out = dirty_page;
+        }
+    }
+
+    return APR_SUCCESS;
+}
+
 static apr_status_t put_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data)
 {
     pgno_t path[MAX_TREE_DEPTH] = { 0 };
     uint16_t path_len = 0;
     DB_PageHeader *leaf_page = NULL;
-    DB_PageHeader *dirty_page = NULL;
     uint16_t index = 0;
     apr_status_t status = APR_SUCCESS;
-    int idx = 0;
 
     /* A pair has to fit on a page, and a key has to leave room for two others on a branch page */
     if (key->size > DB_MAX_KEY_SIZE || data->size > DB_MAX_NODE_SIZE - sizeof(DB_LeafNode) - key->size) {
@@ -1469,31 +1446,9 @@ static apr_status_t put_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key, co
         /* Search within the leaf page to find insertion point */
         apr_status_t search_status = db_page_search(leaf_page, key, &index);
 
-        /* CoW path propagation: Copy all pages from leaf to root */
-        for (idx = (int) path_len - 1; idx >= 0; idx--) {
-            pgno_t current_pgno = path[idx];
-            DB_PageHeader *page_to_cow = NULL;
-
-            /* Check if page is already dirty */
-            page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
-
-            if (page_to_cow) {
-                dirty_page = page_to_cow;
-            }
-            else {
-                /* Page is in mmap - CoW it */
-                DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
-
-                status = db_page_get_writable(txn, original_page, &dirty_page);
-                if (status != APR_SUCCESS) {
-                    return status;
-                }
-            }
-
-            /* Update leaf_page pointer if this is the leaf */
-            if (idx == (int) path_len - 1) {
-                leaf_page = dirty_page;
-            }
+        status = cow_path(txn, path, path_len, &leaf_page);
+        if (status != APR_SUCCESS) {
+            return status;
         }
 
         /* The old entry of an updated key makes room for the new one */
@@ -1724,148 +1679,6 @@ static apr_status_t make_room(napr_db_txn_t *txn, const pgno_t *path, uint16_t p
     }
 }
 
-/**
- * @brief Propagate a split up the tree, updating an arbitrary tree root.
- *
- * This is similar to propagate_split_up_tree() but accepts a root output parameter
- * instead of modifying txn->root_pgno. Used for Free DB operations.
- *
- * @param txn Transaction handle
- * @param path Array of page numbers from root to leaf
- * @param path_len Length of the path
- * @param current_key Key to insert at parent level (may be updated during splits)
- * @param pgnos The page numbers to update.
- * @return APR_SUCCESS if split propagated to root, APR_INCOMPLETE if absorbed, error otherwise
- */
-static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, DB_SplitPgnos pgnos)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    uint16_t index = 0;
-    int idx = 0;
-
-    for (idx = (int) path_len - 2; idx >= 0; idx--) {
-        pgno_t parent_pgno = path[idx];
-        DB_PageHeader *parent_page = apr_hash_get(txn->dirty_pages, &parent_pgno, sizeof(pgno_t));
-        if (!parent_page) {
-            return APR_EGENERAL;
-        }
-
-        (void) db_page_search(parent_page, current_key, &index);
-
-        status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        if (status == APR_SUCCESS) {
-            /* Successfully inserted into this parent - split absorbed, no root split needed */
-            return APR_INCOMPLETE;
-        }
-        if (status != APR_ENOSPC) {
-            return status;
-        }
-
-        status = db_split_branch(txn, parent_page, &right_page, &divider_key);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        }
-        else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        }
-
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        *pgnos.right_child_pgno = right_page->pgno;
-        *current_key = divider_key;
-    }
-
-    /* Exited loop - split propagated all the way to root, need new root */
-    return APR_SUCCESS;
-}
-
-/**
- * @brief Handle root split for an arbitrary tree.
- *
- * This is similar to handle_root_split() but accepts a root output parameter
- * instead of modifying txn->root_pgno. Used for Free DB operations.
- *
- * @param txn Transaction handle
- * @param old_root_pgno Old root page number
- * @param right_child_pgno Right child page number from split
- * @param divider_key Key separating left and right children
- * @param new_root_out Output: New root page number
- * @return APR_SUCCESS on success, error code on failure
- */
-static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key, pgno_t *new_root_out)
-{
-    pgno_t new_root_pgno = 0;
-    DB_PageHeader *new_root = NULL;
-    DB_PageHeader *old_root_page = NULL;
-    napr_db_val_t left_min_key = { 0 };
-    apr_status_t status = APR_SUCCESS;
-
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_BRANCH;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    old_root_page = apr_hash_get(txn->dirty_pages, &old_root_pgno, sizeof(pgno_t));
-    if (!old_root_page) {
-        return APR_EGENERAL;
-    }
-
-    if (old_root_page->flags & P_BRANCH) {
-        DB_BranchNode *left_first_node = db_page_branch_node(old_root_page, 0);
-        left_min_key.data = db_branch_node_key(left_first_node);
-        left_min_key.size = left_first_node->key_size;
-    }
-    else {
-        DB_LeafNode *left_first_leaf = db_page_leaf_node(old_root_page, 0);
-        left_min_key.data = db_leaf_node_key(left_first_leaf);
-        left_min_key.size = left_first_leaf->key_size;
-    }
-
-    status = db_page_insert(new_root, 0, &left_min_key, NULL, old_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    status = db_page_insert(new_root, 1, divider_key, NULL, right_child_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-
-    /* Update output parameter instead of txn->root_pgno */
-    *new_root_out = new_root_pgno;
-
-    return APR_SUCCESS;
-}
-
 /**
  * @brief Delete a key-value pair from the database.
  *
@@ -1909,30 +1722,9 @@ static apr_status_t del_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key)
     }
 
     /* CoW: Make dirty copies of all pages in the path */
-    for (int idx = (int)path_len - 1; idx >= 0; idx--) {
-        pgno_t current_pgno = path[idx];
-        DB_PageHeader *page_to_cow = NULL;
-        DB_PageHeader *dirty_page = NULL;
-
-        /* Check if page is already dirty */
-        page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
-
-        if (!page_to_cow) {
-            /* Page is in mmap - CoW it */
-            DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
-
-            status = db_page_get_writable(txn, original_page, &dirty_page);
-            if (status != APR_SUCCESS) {
-                return status;
-            }
-        }
-    }
-
-    /* Get the dirty copy of the leaf page */
-    pgno_t leaf_pgno = path[path_len - 1];
-    leaf_page = apr_hash_get(txn->dirty_pages, &leaf_pgno, sizeof(pgno_t));
-    if (!leaf_page) {
-        return APR_EGENERAL;
+    status = cow_path(txn, path, path_len, &leaf_page);
+    if (status != APR_SUCCESS) {
+        return status;
     }
 
     /* Delete the entry from the dirty leaf page */
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 7717418..b96a016 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -42,13 +42,6 @@ typedef struct DB_CommitPgnos
     pgno_t new_free_db_root_pgno;   /**< New root page number for Free DB */
 } DB_CommitPgnos;
 
-/** @brief Structure for passing page numbers to propagate_split_up_tree_in_tree */
-typedef struct DB_SplitPgnos
-{
-    pgno_t *right_child_pgno;   /**< Right child page number */
-    pgno_t *new_root_out;       /**< New root page number */
-} DB_SplitPgnos;
-
 /*
  * MVCC Reader Tracking
  */
@@ -126,6 +119,11 @@ typedef struct DB_ReaderSlot
 /* Freed Pages default array size  */
 #define DB_FREED_PAGES_DFLT_SIZE 16
 
+/* Free DB entries: most pages listed in one, and when it is worth taking pages from one */
+#define DB_FREE_ENTRY_PAGES 128
+#define DB_FREE_ENTRY_MIN_PAGES 3
+#define DB_FREE_ENTRY_MIN_AGE 8
+
 /*
  * Constants
  */
@@ -339,6 +337,9 @@ typedef struct __attribute__((packed))
          apr_array_header_t *freed_pages;
                                       /**< Array of pgno_t freed during this transaction */
 
+         int no_reclaim;        /**< Set while no page may be taken from the Free DB */
+         txnid_t reclaimed_from;/**< Free DB entry pages were last taken from */
+
          apr_hash_t *put_keys;  /**< Keys put by this transaction (to reject putting one twice) */
      };
 
@@ -613,9 +614,10 @@ apr_status_t db_get_oldest_reader_txnid(napr_db_env_t *env, txnid_t *oldest_txni
 /**
  * @brief Try to reclaim a page from the Free DB based on MVCC safety rules.
  * @param txn The write transaction requesting allocation.
+ * @param any_entry Non-zero to take pages even from short and recent entries.
  * @param reclaimed_pgno_out Output parameter for the reclaimed page number.
  * @return APR_SUCCESS if reclaimed, APR_NOTFOUND if no safe pages available.
  */
-apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, pgno_t *reclaimed_pgno_out);
+apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, int any_entry, pgno_t *reclaimed_pgno_out);
 
 #endif /* NAPR_DB_INTERNAL_H */
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index cfd8578..10b35da 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -283,8 +283,9 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
     }
 
     /* For single-page allocations, try to reclaim from Free DB first */
-    if (count == 1) {
-        apr_status_t status = db_reclaim_page_from_free_db(txn, &first_pgno);
+    if (count == 1 && !txn->no_reclaim) {
+        int map_full = txn->new_last_pgno + 1 >= txn->env->mapsize / PAGE_SIZE;
+        apr_status_t status = db_reclaim_page_from_free_db(txn, map_full, &first_pgno);
         if (status == APR_SUCCESS) {
             /* Successfully reclaimed a page from Free DB */
             *pgno_out = first_pgno;
@@ -293,8 +294,11 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
         /* If reclamation failed (APR_NOTFOUND or error), fall through to file extension */
     }
 
-    /* Fall back to extending the file (original behavior) */
+    /* Fall back to extending the file (original behavior), as far as the map goes */
     first_pgno = txn->new_last_pgno + 1;
+    if (first_pgno + count > txn->env->mapsize / PAGE_SIZE) {
+        return APR_ENOSPC;
+    }
     txn->new_last_pgno += count;
 
     *pgno_out = first_pgno;
@@ -310,7 +314,7 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
  *
  * The dirty copy is stored in the transaction's dirty_pages hash table,
  * keyed by the original page number. On commit, dirty pages are written
- * to their original locations in the file.
+ * to new locations in the file.
  *
  * @param txn Write transaction handle
  * @param original_page Pointer to the original page in the memory map
-- 
2.43.0


From b0b45aec4a18889fd645c76943209bde8195ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:18 +0000
Subject: [PATCH 09/44] fix: readers capture and register their snapshot
 atomically and release their own slot

A reader preempted between copying the meta page and registering could mix two commits or have its
pages reused, and a read transaction ended by another thread stayed registered forever.
---
 src/napr_db.c          | 58 +++++++++++++++++++-----------------------
 src/napr_db_internal.h |  1 +
 2 files changed, 27 insertions(+), 32 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 45f701a..78cbeb9 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -533,6 +533,15 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
     txn_handle->pool = txn_pool;
     txn_handle->flags = flags;
 
+    /* A reader captures its snapshot and registers it in one step, so that no commit gets in between */
+    if (!is_write) {
+        status = apr_thread_mutex_lock(env->reader_table_mutex);
+        if (status != APR_SUCCESS) {
+            apr_pool_destroy(txn_pool);
+            return status;
+        }
+    }
+
     /* Capture snapshot from current live meta page */
     txn_handle->txnid = env->live_meta->txnid;
     txn_handle->root_pgno = env->live_meta->root;
@@ -570,18 +579,13 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
         int slot_idx = 0;
         int found_slot = 0;
 
-        status = apr_thread_mutex_lock(env->reader_table_mutex);
-        if (status != APR_SUCCESS) {
-            apr_pool_destroy(txn_pool);
-            return status;
-        }
-
         /* Find an empty slot (txnid == 0) */
         for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
             if (env->reader_table[slot_idx].txnid == 0) {
                 env->reader_table[slot_idx].pid = pid;
                 env->reader_table[slot_idx].tid = tid;
                 env->reader_table[slot_idx].txnid = txn_handle->txnid;
+                txn_handle->reader_slot = slot_idx;
                 found_slot = 1;
                 break;
             }
@@ -1112,8 +1116,14 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
         return status;
     }
 
+    /* Publish: readers capture their snapshot under the same lock */
+    status = apr_thread_mutex_lock(txn->env->reader_table_mutex);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
     memcpy(stale_meta, &updated_meta, sizeof(DB_MetaPage));
     txn->env->live_meta = stale_meta;
+    apr_thread_mutex_unlock(txn->env->reader_table_mutex);
 
     return APR_SUCCESS;
 }
@@ -1133,22 +1143,14 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
+        DB_ReaderSlot *slot = &txn->env->reader_table[txn->reader_slot];
 
         apr_thread_mutex_lock(txn->env->reader_table_mutex);
-
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
+        if (slot->txnid == txn->txnid) {
+            slot->txnid = 0;
+            slot->pid = 0;
+            slot->tid = 0;
         }
-
         apr_thread_mutex_unlock(txn->env->reader_table_mutex);
     }
 
@@ -1231,22 +1233,14 @@ apr_status_t napr_db_txn_abort(napr_db_txn_t *txn)
 
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
+        DB_ReaderSlot *slot = &txn->env->reader_table[txn->reader_slot];
 
         apr_thread_mutex_lock(txn->env->reader_table_mutex);
-
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
+        if (slot->txnid == txn->txnid) {
+            slot->txnid = 0;
+            slot->pid = 0;
+            slot->tid = 0;
         }
-
         apr_thread_mutex_unlock(txn->env->reader_table_mutex);
     }
 
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index b96a016..4fc949e 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -327,6 +327,7 @@ typedef struct __attribute__((packed))
          pgno_t free_db_root_pgno;
                                 /**< Root page number for Free DB snapshot */
          unsigned int flags;    /**< Transaction flags (RDONLY, etc.) */
+         int reader_slot;       /**< Slot of a read transaction in the reader table */
 
          /* Copy-on-Write tracking for write transactions */
          apr_hash_t *dirty_pages;
-- 
2.43.0


From 4405344582637b9d2769a37cbb6a5376db69d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:51 +0000
Subject: [PATCH 10/44] fix: a commit whose meta page write or sync fails is
 undone in the file

The half-committed meta page stayed in the file, so that the failed transaction appeared on
reopening and its pages were overwritten by the next one.
---
 src/napr_db.c          | 26 ++++++++++++++++++--------
 src/napr_db_internal.h |  1 +
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 78cbeb9..4fb8ae7 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1077,6 +1077,7 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
 {
     apr_status_t status = APR_SUCCESS;
     DB_MetaPage updated_meta;
+    DB_MetaPage previous_meta;
     DB_MetaPage *stale_meta = NULL;
     pgno_t meta_pgno = 0;
     apr_off_t meta_offset = 0;
@@ -1091,6 +1092,8 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
         meta_pgno = 0;
     }
 
+    memcpy(&previous_meta, stale_meta, sizeof(DB_MetaPage));
+
     memset(&updated_meta, 0, sizeof(DB_MetaPage));
     updated_meta.magic = DB_MAGIC;
     updated_meta.version = DB_VERSION;
@@ -1107,20 +1110,19 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
     }
 
     status = apr_file_write_full(txn->env->file, &updated_meta, meta_bytes, NULL);
-    if (status != APR_SUCCESS) {
-        return status;
+    if (status == APR_SUCCESS) {
+        status = apr_file_sync(txn->env->file);
     }
-
-    status = apr_file_sync(txn->env->file);
     if (status != APR_SUCCESS) {
+        /* The commit failed, but part of its record may have been written: put the previous one back, and have it on disk
+         * before any page that the failed record refers to is used again. */
+        memcpy(stale_meta, &previous_meta, sizeof(DB_MetaPage));
+        txn->env->sync_pending = (apr_file_sync(txn->env->file) != APR_SUCCESS);
         return status;
     }
 
     /* Publish: readers capture their snapshot under the same lock */
-    status = apr_thread_mutex_lock(txn->env->reader_table_mutex);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
+    apr_thread_mutex_lock(txn->env->reader_table_mutex);
     memcpy(stale_meta, &updated_meta, sizeof(DB_MetaPage));
     txn->env->live_meta = stale_meta;
     apr_thread_mutex_unlock(txn->env->reader_table_mutex);
@@ -1162,6 +1164,14 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
         return APR_SUCCESS;
     }
 
+    if (txn->env->sync_pending) {
+        status = apr_file_sync(txn->env->file);
+        if (status != APR_SUCCESS) {
+            goto cleanup;
+        }
+        txn->env->sync_pending = 0;
+    }
+
     /* Move the modified pages away from the committed state and record the pages this frees, FIRST
      * so that Free DB pages are added to dirty_pages before we update pointers */
     status = relocate_dirty_pages(txn);
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 4fc949e..4434c29 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -294,6 +294,7 @@ typedef struct __attribute__((packed))
          DB_MetaPage *meta0;    /**< Pointer to Meta Page 0 in mmap */
          DB_MetaPage *meta1;    /**< Pointer to Meta Page 1 in mmap */
          DB_MetaPage *live_meta;/**< Pointer to current active meta page */
+         int sync_pending;      /**< A failed commit was undone in the file, but not yet synced */
 
          /* Synchronization - SWMR model */
          apr_thread_mutex_t *writer_thread_mutex;
-- 
2.43.0


From 6997749f869e819084c8c9c6eaf167dddab1e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:01 +0000
Subject: [PATCH 11/44] fix: interrupted creation, truncated files and too
 small maps no longer break opening a database

An empty or all-zero file left by an interrupted creation crashed (SIGBUS) or was refused for ever,
the meta pages were initialised field by field in the map, where a crash could leave a valid looking
page without its allocation mark, and a map smaller than the database made reads run past its end.
---
 src/napr_db.c | 87 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 69 insertions(+), 18 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 4fb8ae7..d3a6c87 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -162,6 +162,29 @@ static apr_status_t select_live_meta(napr_db_env_t *env)
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Tell whether a file holds nothing yet: at most the room for the two meta pages, all zero.
+ */
+static int db_file_is_blank(apr_file_t *file, apr_off_t size)
+{
+    char buffer[2 * PAGE_SIZE];
+    apr_size_t length = (apr_size_t) size;
+    apr_size_t idx = 0;
+
+    if (size > (apr_off_t) sizeof(buffer)) {
+        return 0;
+    }
+    if (length > 0 && apr_file_read_full(file, buffer, length, NULL) != APR_SUCCESS) {
+        return 0;
+    }
+    for (idx = 0; idx < length; idx++) {
+        if (buffer[idx] != 0) {
+            return 0;
+        }
+    }
+    return 1;
+}
+
 /**
  * @brief Open or create the database file.
  *
@@ -191,23 +214,36 @@ static apr_status_t db_file_open(napr_db_env_t *env, const char *path, int *is_n
 
     if (status == APR_SUCCESS) {
         *is_new_file = 0;
-        return apr_file_open(&env->file, path, file_flags, APR_OS_DEFAULT, env->pool);
+        status = apr_file_open(&env->file, path, file_flags, APR_OS_DEFAULT, env->pool);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        if ((env->flags & NAPR_DB_CREATE) && !(env->flags & NAPR_DB_RDONLY) && db_file_is_blank(env->file, finfo.size)) {
+            /* The creation of the database was interrupted */
+            *is_new_file = 1;
+        }
+        else if (finfo.size < (apr_off_t) 2 * PAGE_SIZE) {
+            status = APR_EINVAL;
+        }
     }
+    else {
+        /* File doesn't exist */
+        if (!(env->flags & NAPR_DB_CREATE)) {
+            return APR_ENOENT;
+        }
 
-    /* File doesn't exist */
-    if (!(env->flags & NAPR_DB_CREATE)) {
-        return APR_ENOENT;
+        *is_new_file = 1;
+        file_flags |= APR_CREATE | APR_TRUNCATE;
+        status = apr_file_open(&env->file, path, file_flags, APR_FPROT_UREAD | APR_FPROT_UWRITE, env->pool);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
     }
 
-    *is_new_file = 1;
-    file_flags |= APR_CREATE | APR_TRUNCATE;
-    status = apr_file_open(&env->file, path, file_flags, APR_FPROT_UREAD | APR_FPROT_UWRITE, env->pool);
-    if (status != APR_SUCCESS) {
-        return status;
+    if (status == APR_SUCCESS && *is_new_file) {
+        apr_off_t min_size = (apr_off_t) 2 * PAGE_SIZE;
+        status = apr_file_trunc(env->file, min_size);
     }
-
-    apr_off_t min_size = (apr_off_t) 2 * PAGE_SIZE;
-    status = apr_file_trunc(env->file, min_size);
     if (status != APR_SUCCESS) {
         apr_file_close(env->file);
         env->file = NULL;
@@ -252,10 +288,20 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
     env->meta1 = (DB_MetaPage *) ((char *) env->map_addr + PAGE_SIZE);
 
     if (is_new_file) {
-        init_meta_page(env->meta0, 0);
-        init_meta_page(env->meta1, 1);
+        /* Written in one piece: a half-initialized meta page must never be taken for a valid one */
+        DB_MetaPage meta[2];
+        apr_off_t offset = 0;
 
-        apr_status_t status = apr_file_sync(env->file);
+        init_meta_page(&meta[0], 0);
+        init_meta_page(&meta[1], 1);
+
+        apr_status_t status = apr_file_seek(env->file, APR_SET, &offset);
+        if (status == APR_SUCCESS) {
+            status = apr_file_write_full(env->file, meta, sizeof(meta), NULL);
+        }
+        if (status == APR_SUCCESS) {
+            status = apr_file_sync(env->file);
+        }
         if (status != APR_SUCCESS) {
             return status;
         }
@@ -263,7 +309,12 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
         return APR_SUCCESS;
     }
 
-    return select_live_meta(env);
+    apr_status_t status = select_live_meta(env);
+    if (status == APR_SUCCESS && env->live_meta->last_pgno >= env->mapsize / PAGE_SIZE) {
+        /* The map does not reach the end of the database */
+        status = APR_EINVAL;
+    }
+    return status;
 }
 
 /**
@@ -303,8 +354,8 @@ apr_status_t napr_db_env_open(napr_db_env_t *env, const char *path, unsigned int
         return APR_EINVAL;
     }
 
-    if (env->mapsize == 0) {
-        return APR_EINVAL;      /* Must call set_mapsize first */
+    if (env->mapsize < (apr_size_t) 2 * PAGE_SIZE) {
+        return APR_EINVAL;      /* Must call set_mapsize first, with room for the meta pages */
     }
 
     env->flags = flags;
-- 
2.43.0


From 09f3d64594214edda1ff4dc6d9e7fdc9e70e485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:27 +0000
Subject: [PATCH 12/44] fix: storing a cache entry twice in one transaction
 updates it as documented

---
 src/napr_cache.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/napr_cache.c b/src/napr_cache.c
index 0ad38c8..c58a5e6 100644
--- a/src/napr_cache.c
+++ b/src/napr_cache.c
@@ -332,6 +332,7 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
 {
     napr_db_val_t key;
     napr_db_val_t value;
+    apr_status_t status = APR_SUCCESS;
 
     if (!cache || !path || !entry) {
         return APR_EINVAL;
@@ -350,7 +351,15 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
     value.size = sizeof(napr_cache_entry_t);
 
     /* Insert or update in database */
-    return napr_db_put(cache->active_txn, &key, &value);
+    status = napr_db_put(cache->active_txn, &key, &value);
+    if (status == APR_EEXIST) {
+        /* Already stored by this transaction: replace it */
+        status = napr_db_del(cache->active_txn, &key, NULL);
+        if (status == APR_SUCCESS) {
+            status = napr_db_put(cache->active_txn, &key, &value);
+        }
+    }
+    return status;
 }
 
 /* ========================================================================
-- 
2.43.0


From f2de24917a5cfa0471f955149c84abdfabd3ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:09 +0000
Subject: [PATCH 13/44] fix: splitting a page gives back all the space of the
 entries that moved

Only the space below the lowest remaining entry was given back, so that a half filled page could look full.  Updating the
only pair left on such a page then split it into an empty page and a duplicate of the pair.
---
 src/napr_db_tree.c | 58 ++++++++--------------------------------------
 1 file changed, 10 insertions(+), 48 deletions(-)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 10b35da..fa37f6b 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -629,25 +629,12 @@ apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Page
         right_page->upper = new_offset;
     }
 
-    /* Update left page header to reflect the reduced number of keys */
-    left_page->num_keys = split_point;
-    left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
-
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
+    /* Remove the moved entries from the left page, reclaiming all of their space wherever it lies in the data area */
+    while (left_page->num_keys > split_point) {
+        status = db_page_delete(left_page, left_page->num_keys - 1);
+        if (status != APR_SUCCESS) {
+            return status;
         }
-        left_page->upper = min_offset;
     }
 
     /* Store the right page in dirty pages hash */
@@ -764,37 +751,12 @@ apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Pa
         right_page->upper = new_offset;
     }
 
-    /* Update left page header to reflect the reduced number of keys
-     * CRITICAL: For B+tree branches with "minimum key" semantics:
-     * - Left page gets entries [0..split_point-1]
-     * - Right page gets entries [split_point+1..end]
-     * - Entry at split_point is NOT in either page - its key becomes the divider,
-     *   and its child pointer is LOST (which is the bug!)
-     *
-     * TODO: Fix this properly by including split_point in one of the pages
-     */
-    left_page->num_keys = split_point;
-    left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
-
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    if (split_point > 0) {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
+    /* Remove the moved entries from the left page, reclaiming all of their space wherever it lies in the data area */
+    while (left_page->num_keys > split_point) {
+        status = db_page_delete(left_page, left_page->num_keys - 1);
+        if (status != APR_SUCCESS) {
+            return status;
         }
-        left_page->upper = min_offset;
-    }
-    else {
-        /* Edge case: all entries moved to right */
-        left_page->upper = PAGE_SIZE;
     }
 
     /* Set divider key = minimum key of right page (right[0].key)
-- 
2.43.0


From 5354112fcd5f4f7075801b585b8862e0fb80190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:07 +0000
Subject: [PATCH 14/44] fix: limit keys to a quarter of a page so that the tree
 depth stays logarithmic

With three entries per branch page, the left half of a split page had a single child: storing long keys in ascending order
made the tree one level deeper every two keys, until no more could be stored.
---
 src/napr_db.c          | 2 +-
 src/napr_db.h          | 3 ++-
 src/napr_db_internal.h | 4 ++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index d3a6c87..2420a28 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1478,7 +1478,7 @@ static apr_status_t put_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key, co
     uint16_t index = 0;
     apr_status_t status = APR_SUCCESS;
 
-    /* A pair has to fit on a page, and a key has to leave room for two others on a branch page */
+    /* A pair has to fit on a page, and a key has to leave room for three others on a branch page */
     if (key->size > DB_MAX_KEY_SIZE || data->size > DB_MAX_NODE_SIZE - sizeof(DB_LeafNode) - key->size) {
         return APR_ENOSPC;
     }
diff --git a/src/napr_db.h b/src/napr_db.h
index 2882c9e..5b607e6 100644
--- a/src/napr_db.h
+++ b/src/napr_db.h
@@ -217,7 +217,8 @@ extern "C"
  * @param txn Transaction handle (must be write transaction)
  * @param key Key to store
  * @param data Value to store
- * @return APR_SUCCESS or error code
+ * @return APR_SUCCESS, APR_ENOSPC if the key exceeds a quarter of a page, the pair exceeds a page or the map is full,
+ *         APR_EEXIST if the key was already stored in this transaction, or error code
  */
     apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data);
 
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 4434c29..1df1a40 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -113,8 +113,8 @@ typedef struct DB_ReaderSlot
 /** Largest node (without its slot) that fits on an empty page */
 #define DB_MAX_NODE_SIZE (PAGE_SIZE - DB_PAGEHEADER_SIZE - 2)
 
-/** Largest key: a branch page has to hold at least three entries */
-#define DB_MAX_KEY_SIZE (((PAGE_SIZE - DB_PAGEHEADER_SIZE) / 3) - DB_BRANCHNODE_BASE_SIZE - 2)
+/** Largest key: a branch page has to hold at least four entries, so that both halves of a split page have two */
+#define DB_MAX_KEY_SIZE (((PAGE_SIZE - DB_PAGEHEADER_SIZE) / 4) - DB_BRANCHNODE_BASE_SIZE - 2)
 
 /* Freed Pages default array size  */
 #define DB_FREED_PAGES_DFLT_SIZE 16
-- 
2.43.0


From 1c1a5898a2cb84f6adc9a78d0dd88c846f10b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:59 +0000
Subject: [PATCH 15/44] fix: waiting on the thread pool returns only when all
 tasks are done, and never misses the wake-up

---
 src/napr_threadpool.c | 65 +++++++++++--------------------------------
 1 file changed, 17 insertions(+), 48 deletions(-)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index f464623..d8d615b 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -162,39 +162,16 @@ struct napr_threadpool_t
     void *ctx;
     /* This mutex protects everything below in writing and reading */
     apr_thread_mutex_t *threadpool_mutex;
+    /* signaled when data is added, awaited by the threads of the pool */
     apr_thread_cond_t *threadpool_update;
+    /* signaled when all threads of the pool are waiting for data, awaited by napr_threadpool_wait */
+    apr_thread_cond_t *threadpool_idle;
     unsigned long nb_thread;
     unsigned long nb_waiting;
     napr_list_t *list;
     threadpool_process_data_callback_fn_t *process_data;
     apr_pool_t *pool;
 
-    /*
-     * run == 0x1 means we are currently processing data
-     * run == 0x0 means we are creating the pool, OR (exclusive) we were
-     *        processing data and encountered a end of list and all thread are
-     *        waiting (no more data).
-     * Algorithm : 
-     * run &= 0x0;
-     *     create the thread pool loops :
-     *         code in the loop say :
-     *         run at 0x0, we can be nb_thread == nb_waiting in a "wait" mode.
-     *         This doesn't matter.
-     *
-     * external caller function add all data to process, then call the napr_threadpool_wait:
-     *     napr_threadpool_add_data:
-     *         fill list.
-     *     napr_threadpool_wait:
-     *         run |= 0x1;
-     *
-     *         code in the loop say :
-     *         run at 0x1, if we are at nb_thread == nb_waiting I'd better warn
-     *         the caller of the napr_threadpool_wait function that the processing
-     *         is ended.
-     */
-
-    unsigned int run:1;
-    unsigned int ended:1;
     unsigned int shutdown:1;
 };
 
@@ -221,14 +198,17 @@ extern apr_status_t napr_threadpool_init(napr_threadpool_t **threadpool, void *c
         DEBUG_ERR("error calling apr_thread_cond_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
+    status = apr_thread_cond_create(&((*threadpool)->threadpool_idle), (*threadpool)->pool);
+    if (APR_SUCCESS != status) {
+        DEBUG_ERR("error calling apr_thread_cond_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+        return status;
+    }
     (*threadpool)->thread = (apr_thread_t **) apr_palloc((*threadpool)->pool, nb_thread * sizeof(apr_thread_t *));
     (*threadpool)->ctx = ctx;
     (*threadpool)->nb_thread = nb_thread;
     (*threadpool)->nb_waiting = 0UL;
     (*threadpool)->list = napr_list_make((*threadpool)->pool);
     (*threadpool)->process_data = process_data;
-    (*threadpool)->run &= 0x0;
-    (*threadpool)->ended &= 0x0;
     (*threadpool)->shutdown &= 0x0;
 
     for (idx = 0; idx < nb_thread; idx++) {
@@ -252,7 +232,6 @@ extern apr_status_t napr_threadpool_add(napr_threadpool_t *threadpool, void *dat
         DEBUG_ERR("error calling apr_thread_mutex_lock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
-    threadpool->ended &= 0x0;
     napr_list_enqueue(threadpool->list, data);
     status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);
     if (APR_SUCCESS != status) {
@@ -272,7 +251,6 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
 {
     char errbuf[ERR_BUF_SIZE] = { 0 };
     apr_status_t status = APR_SUCCESS;
-    int list_size = 0;
 
     /* DEBUG_DBG("Called"); */
     status = apr_thread_mutex_lock(threadpool->threadpool_mutex);
@@ -280,24 +258,16 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
         DEBUG_ERR("error calling apr_thread_mutex_lock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
-    list_size = (int) napr_list_size(threadpool->list);
-    if ((0 != list_size) || (threadpool->nb_waiting != threadpool->nb_thread)) {
-        /* DEBUG_DBG("After lock before wait"); */
-        /*
-         * Because the caller of this function has added all data we are now
-         * running, the line after, (cond_wait), make us wait to the end of
-         * processing.
-         */
-        threadpool->run |= 0x1;
-
-        status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);
+    /*
+     * All data have been processed when none is left in the list and all threads are waiting for more. Being awoken is
+     * not enough, as it can happen spuriously.
+     */
+    while ((0 != napr_list_size(threadpool->list)) || (threadpool->nb_waiting != threadpool->nb_thread)) {
+        status = apr_thread_cond_wait(threadpool->threadpool_idle, threadpool->threadpool_mutex);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_cond_wait: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
             return status;
         }
-        /* DEBUG_DBG("Awake"); */
-        /* Because all data have been processed, we are no more running  */
-        threadpool->run &= 0x0;
     }
     /*
      * garbage collecting under lock protection to avoid list manipulation
@@ -353,9 +323,8 @@ static apr_status_t wait_for_task(napr_threadpool_t *threadpool)
 
     threadpool->nb_waiting++;
 
-    if (!(threadpool->ended & 0x1) && (threadpool->run & 0x1) && (threadpool->nb_waiting == threadpool->nb_thread)) {
-        threadpool->ended |= 0x1;
-        status = apr_thread_cond_broadcast(threadpool->threadpool_update);
+    if (threadpool->nb_waiting == threadpool->nb_thread) {
+        status = apr_thread_cond_broadcast(threadpool->threadpool_idle);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_cond_broadcast: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
             return status;
@@ -385,7 +354,7 @@ static void *APR_THREAD_FUNC napr_threadpool_loop(apr_thread_t *thd, void *rec)
     }
 
     while (!(threadpool->shutdown & 0x1)) {
-        if ((0 < napr_list_size(threadpool->list)) && !(threadpool->ended & 0x1)) {
+        if (0 < napr_list_size(threadpool->list)) {
             status = process_task(threadpool);
         }
         else {
-- 
2.43.0


From 29c00cf88448b00a82f13868b39f1b2a129eaed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:57 +0000
Subject: [PATCH 16/44] fix: do not compare a file already reported as a twin

When files of one size share a checksum but not their contents, the report
compared a later file with an entry already removed as a twin and
dereferenced NULL.
---
 src/ft_report.c      | 3 +++
 src/ft_report_json.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ft_report.c b/src/ft_report.c
index a4099e4..e81a6b9 100644
--- a/src/ft_report.c
+++ b/src/ft_report.c
@@ -81,6 +81,9 @@ static apr_status_t process_and_report_duplicates_for_file(ft_conf_t *conf, ft_f
     }
 
     for (j_index = index + 1; j_index < fsize->nb_files; j_index++) {
+        if (NULL == fsize->chksum_array[j_index].file) {
+            continue;           /* Already reported as the twin of an earlier file */
+        }
         /* If hashes match, perform a full comparison */
         if (0 == memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
             if (compare_and_report_pair(conf, fsize, index, j_index, &already_printed, colors) != APR_SUCCESS) {
diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index b58eb61..28ee4f1 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -144,6 +144,9 @@ static apr_status_t find_and_report_duplicates(ft_conf_t *conf, ft_fsize_t *fsiz
         json_t *duplicates_array = NULL;
 
         for (size_t j = i + 1; j < fsize->nb_files; j++) {
+            if (fsize->chksum_array[j].file == NULL) {
+                continue;       /* Already reported as the twin of an earlier file */
+            }
             if (memcmp(&fsize->chksum_array[i].hash_value, &fsize->chksum_array[j].hash_value, sizeof(ft_hash_t)) == 0) {
                 status = perform_file_comparison(conf, &fsize->chksum_array[i], &fsize->chksum_array[j], fsize->val, &result);
                 if (status != APR_SUCCESS) {
-- 
2.43.0


From 2be80a36eabf7cab7ac7060867c1c596606db9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:17 +0000
Subject: [PATCH 17/44] fix: leave files that could not be hashed out of the
 report

Their checksum was uninitialised memory, so the order of the array and
which files were compared depended on it.
---
 src/ft_process.c | 4 ++++
 src/ft_report.c  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/ft_process.c b/src/ft_process.c
index b53cfe6..aecad68 100644
--- a/src/ft_process.c
+++ b/src/ft_process.c
@@ -32,6 +32,7 @@ static apr_status_t hashing_worker_callback(void *hashing_ctx, void *task_data)
     status = apr_pool_create(&subpool, h_ctx->pool);
     if (APR_SUCCESS != status) {
         DEBUG_ERR("error calling apr_pool_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+        fsize->chksum_array[task->index].file = NULL;
         return status;
     }
 
@@ -39,6 +40,7 @@ static apr_status_t hashing_worker_callback(void *hashing_ctx, void *task_data)
         filepath = ft_archive_untar_file(file, subpool);
         if (NULL == filepath) {
             DEBUG_ERR("error calling ft_archive_untar_file");
+            fsize->chksum_array[task->index].file = NULL;
             apr_pool_destroy(subpool);
             return APR_EGENERAL;
         }
@@ -69,6 +71,8 @@ static apr_status_t hashing_worker_callback(void *hashing_ctx, void *task_data)
         }
     }
     else {
+        /* Without a checksum the file cannot take part in the report */
+        fsize->chksum_array[task->index].file = NULL;
         if (is_option_set(h_ctx->conf->mask, OPTION_VERBO)) {
             (void) fprintf(stderr, "\nskipping %s because: %s\n", file->path, apr_strerror(status, errbuf, ERR_BUF_SIZE));
         }
diff --git a/src/ft_report.c b/src/ft_report.c
index e81a6b9..ce5bc70 100644
--- a/src/ft_report.c
+++ b/src/ft_report.c
@@ -44,6 +44,11 @@ int ft_chksum_cmp(const void *chksum1, const void *chksum2)
     const ft_chksum_t *chk2 = chksum2;
     int result = 0;
 
+    /* Files that could not be hashed come last */
+    if (NULL == chk1->file || NULL == chk2->file) {
+        return (NULL == chk1->file) - (NULL == chk2->file);
+    }
+
     result = memcmp(&chk1->hash_value, &chk2->hash_value, sizeof(ft_hash_t));
 
     if (0 == result) {
-- 
2.43.0


From 195995a997d66f92b43d502230d0fbef572b17e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:17 +0000
Subject: [PATCH 18/44] fix: initialise the archive member name of scanned
 files

With --tar-cmp the uninitialised pointer was taken for the name of an
archive member.
---
 src/ft_traverse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 129dfc4..b6dfabf 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -66,6 +66,7 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
     if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {
         ft_file_t *file = apr_palloc(conf->pool, sizeof(struct ft_file_t));
         file->path = apr_pstrdup(conf->pool, filename);
+        file->subpath = NULL;
         file->size = finfo->size;
         file->mtime = finfo->mtime;
         file->prioritized = ((conf->p_path) && (strlen(filename) >= conf->p_path_len) &&
-- 
2.43.0


From 007bfd8c9f56fbeb58fcf568b71f997a74f087c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:41 +0000
Subject: [PATCH 19/44] fix: apply the whitelist regex to files, not to
 directories

A directory whose own path did not match was not entered, so
"ftwin -w '.*\.txt$' dir" found nothing below the first level.
---
 src/ft_traverse.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index b6dfabf..d469982 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -93,8 +93,7 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
 static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
     int ovector[MATCH_VECTOR_SIZE];
-    if ((conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) ||
-        (conf->wl_regex && pcre_exec(conf->wl_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0)) {
+    if (conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) {
         return APR_SUCCESS;
     }
 
@@ -169,6 +168,13 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     if (finfo.filetype == APR_DIR) {
         return process_directory(filename, conf, gc_pool, stats, parent_ctx);
     }
+    if (stats && conf->wl_regex) {
+        int ovector[MATCH_VECTOR_SIZE];
+
+        if (pcre_exec(conf->wl_regex, NULL, filename, (int) strlen(filename), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0) {
+            return APR_SUCCESS;
+        }
+    }
     if (finfo.filetype == APR_REG || (finfo.filetype == APR_LNK && is_option_set(conf->mask, OPTION_FSYML))) {
         return process_file(filename, &finfo, conf);
     }
-- 
2.43.0


From 6aa1a1918e2cb65953eec6b25b6a2369b548c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:41 +0000
Subject: [PATCH 20/44] fix: --no-recurse also applies to links to directories

With --follow-symlink a link to a directory was entered.
---
 src/ft_traverse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index d469982..ccd2dbb 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -166,6 +166,9 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     }
 
     if (finfo.filetype == APR_DIR) {
+        if (stats && !is_option_set(conf->mask, OPTION_RECSD)) {
+            return APR_SUCCESS;
+        }
         return process_directory(filename, conf, gc_pool, stats, parent_ctx);
     }
     if (stats && conf->wl_regex) {
-- 
2.43.0


From 2e350478dec66a906b7acad4d738e342312d8ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:06 +0000
Subject: [PATCH 21/44] fix: an entry that cannot be examined no longer ends
 the whole scan

A file or directory that vanished during the scan, an unreadable
directory or, with --follow-symlink, a broken link (recognised through
uninitialised memory) aborted the run without any report.
---
 src/ft_traverse.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index ccd2dbb..00774f1 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -25,12 +25,6 @@ static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_c
     apr_status_t status = apr_stat(finfo, filename, statmask, pool);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
-        if (is_option_set(conf->mask, OPTION_FSYML) && (finfo->filetype & APR_LNK)) {
-            if (is_option_set(conf->mask, OPTION_VERBO)) {
-                (void) fprintf(stderr, "Skipping : [%s] (broken link)\n", filename);
-            }
-            return APR_SUCCESS;
-        }
         DEBUG_ERR("error calling apr_stat on filename %s : %s", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
     }
     return status;
@@ -117,7 +111,7 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
         DEBUG_ERR("error calling apr_dir_open(%s): %s", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
-        return status;
+        return stats ? APR_SUCCESS : status;
     }
 
     ft_ignore_context_t *current_ctx = parent_ctx;
@@ -156,6 +150,13 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     apr_status_t status = get_file_info(filename, &finfo, conf, gc_pool);
 
     if (status != APR_SUCCESS) {
+        /* An entry that vanished or a broken link is skipped; an argument must exist */
+        if (stats) {
+            if (is_option_set(conf->mask, OPTION_VERBO)) {
+                (void) fprintf(stderr, "Skipping : [%s] (cannot be examined)\n", filename);
+            }
+            return APR_SUCCESS;
+        }
         return status;
     }
     if (conf->respect_gitignore && parent_ctx && ft_ignore_match(parent_ctx, filename, finfo.filetype == APR_DIR) == FT_IGNORE_MATCH_IGNORED) {
-- 
2.43.0


From 076a92916f92b1f49043f4e99dac13d80eed7345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:29 +0000
Subject: [PATCH 22/44] fix: do not follow links back into a directory being
 traversed

With --follow-symlink such a link was followed until the system refused
the path, listing every file of the loop many times.
---
 src/ft_traverse.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 00774f1..1faf107 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -17,7 +17,7 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
 
 static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *pool)
 {
-    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT;
+    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT | APR_FINFO_IDENT;
     if (!is_option_set(conf->mask, OPTION_FSYML)) {
         statmask |= APR_FINFO_LINK;
     }
@@ -84,18 +84,14 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
     return APR_SUCCESS;
 }
 
-static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
+static apr_status_t process_directory_entry(const char *fullname, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
     int ovector[MATCH_VECTOR_SIZE];
     if (conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) {
         return APR_SUCCESS;
     }
 
-    struct stats child;
-    child.parent = stats;
-    child.stat = *finfo;
-
-    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, &child, current_ctx);
+    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, stats, current_ctx);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
         DEBUG_ERR("error recursively calling traverse_recursive: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
@@ -111,7 +107,7 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
         DEBUG_ERR("error calling apr_dir_open(%s): %s", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
-        return stats ? APR_SUCCESS : status;
+        return stats->parent ? APR_SUCCESS : status;
     }
 
     ft_ignore_context_t *current_ctx = parent_ctx;
@@ -134,7 +130,7 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
         }
 
         char *fullname = apr_pstrcat(gc_pool, filename, (filename[strlen(filename) - 1] == '/') ? "" : "/", finfo.name, NULL);
-        status = process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);
+        status = process_directory_entry(fullname, conf, gc_pool, stats, current_ctx);
         if (status != APR_SUCCESS) {
             break;
         }
@@ -170,7 +166,14 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
         if (stats && !is_option_set(conf->mask, OPTION_RECSD)) {
             return APR_SUCCESS;
         }
-        return process_directory(filename, conf, gc_pool, stats, parent_ctx);
+        /* A link back to a directory being traversed would never end */
+        for (const struct stats * ancestor = stats; ancestor != NULL; ancestor = ancestor->parent) {
+            if (ancestor->stat.inode == finfo.inode && ancestor->stat.device == finfo.device) {
+                return APR_SUCCESS;
+            }
+        }
+        struct stats self = {.parent = stats,.stat = finfo };
+        return process_directory(filename, conf, gc_pool, &self, parent_ctx);
     }
     if (stats && conf->wl_regex) {
         int ovector[MATCH_VECTOR_SIZE];
-- 
2.43.0


From 4c07068a158ade9dec382fcd0dca8c0ce80acfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:38 +0000
Subject: [PATCH 23/44] fix: a file reached through several arguments is listed
 once

---
 src/ft_config.c   | 1 +
 src/ft_config.h   | 1 +
 src/ft_traverse.c | 8 ++++++++
 3 files changed, 10 insertions(+)

diff --git a/src/ft_config.c b/src/ft_config.c
index 3c0e8ee..be17c37 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -228,6 +228,7 @@ ft_conf_t *ft_config_create(apr_pool_t *pool)
     conf->pool = pool;
     conf->heap = napr_heap_make(pool, ft_file_cmp);
     conf->ig_files = napr_hash_str_make(pool, HASH_STR_BUCKET_SIZE, HASH_STR_MAX_ENTRIES);
+    conf->paths = napr_hash_str_make(pool, HASH_SIZE_BUCKET_SIZE, HASH_SIZE_MAX_ENTRIES);
 
     napr_hash_create_args_t hash_args = {
         .pool = pool,
diff --git a/src/ft_config.h b/src/ft_config.h
index 8eec0b0..16610cc 100644
--- a/src/ft_config.h
+++ b/src/ft_config.h
@@ -100,6 +100,7 @@ typedef struct ft_conf_t
     napr_hash_t *sizes;
     napr_hash_t *gids;
     napr_hash_t *ig_files;
+    napr_hash_t *paths;
     pcre *ig_regex;
     pcre *wl_regex;
     pcre *ar_regex;
diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 1faf107..d0cd731 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -58,8 +58,16 @@ static apr_status_t check_permissions(const apr_finfo_t *finfo, ft_conf_t *conf)
 static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo, ft_conf_t *conf)
 {
     if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {
+        apr_uint32_t path_hash = 0;
+
+        /* Reached again through another argument: a file is not its own twin */
+        if (napr_hash_search(conf->paths, filename, strlen(filename), &path_hash) != NULL) {
+            return APR_SUCCESS;
+        }
+
         ft_file_t *file = apr_palloc(conf->pool, sizeof(struct ft_file_t));
         file->path = apr_pstrdup(conf->pool, filename);
+        napr_hash_set(conf->paths, file->path, path_hash);
         file->subpath = NULL;
         file->size = finfo->size;
         file->mtime = finfo->mtime;
-- 
2.43.0


From 551db5a7ed3ba11fe30bc7d388e724e45f669944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:31 +0000
Subject: [PATCH 24/44] fix: do not map a file with the size it had at scan
 time when it has changed since

---
 src/ft_file.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 9d144c4..311b0ba 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -43,6 +43,14 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
  */
 static const size_t HUGE_LEN = 64L * 1024L;
 
+/* A file that no longer has the size seen by the scan must not be mapped with it */
+static int has_size(apr_file_t *file_descriptor, apr_off_t size)
+{
+    apr_finfo_t finfo;
+
+    return (APR_SUCCESS == apr_file_info_get(&finfo, APR_FINFO_SIZE, file_descriptor)) && (finfo.size == size);
+}
+
 static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft_hash_t *hash_out, apr_pool_t *gc_pool)
 {
     char errbuf[CHAR_MAX_VAL];
@@ -56,8 +64,8 @@ static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft
         return status;
     }
 
-    status = apr_mmap_create(&memory_map, file_descriptor, 0, (apr_size_t) size, APR_MMAP_READ, gc_pool);
-    if (APR_SUCCESS != status) {
+    if (!has_size(file_descriptor, size)
+        || APR_SUCCESS != apr_mmap_create(&memory_map, file_descriptor, 0, (apr_size_t) size, APR_MMAP_READ, gc_pool)) {
         (void) apr_file_close(file_descriptor);
         return checksum_big_file(filename, size, hash_out, gc_pool);
     }
@@ -163,8 +171,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
         return status;
     }
 
-    status = apr_mmap_create(&mm1, fd1, 0, (apr_size_t) size, APR_MMAP_READ, pool);
-    if (APR_SUCCESS != status) {
+    if (!has_size(fd1, size) || APR_SUCCESS != apr_mmap_create(&mm1, fd1, 0, (apr_size_t) size, APR_MMAP_READ, pool)) {
         (void) apr_file_close(fd1);
         return big_filecmp(pool, fname1, fname2, size, result_out);
     }
@@ -176,8 +183,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
         return status;
     }
 
-    status = apr_mmap_create(&mm2, fd2, 0, size, APR_MMAP_READ, pool);
-    if (APR_SUCCESS != status) {
+    if (!has_size(fd2, size) || APR_SUCCESS != apr_mmap_create(&mm2, fd2, 0, size, APR_MMAP_READ, pool)) {
         (void) apr_file_close(fd2);
         (void) apr_file_close(fd2);
         (void) apr_file_close(fd1);
-- 
2.43.0


From 3898d5dda4ac5014f7270949401e2e5e3f61f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 25/44] fix: release the first mapping when the second file
 cannot be mapped

---
 src/ft_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 311b0ba..eaff717 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -185,7 +185,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
 
     if (!has_size(fd2, size) || APR_SUCCESS != apr_mmap_create(&mm2, fd2, 0, size, APR_MMAP_READ, pool)) {
         (void) apr_file_close(fd2);
-        (void) apr_file_close(fd2);
+        (void) apr_mmap_delete(mm1);
         (void) apr_file_close(fd1);
         return big_filecmp(pool, fname1, fname2, size, result_out);
     }
-- 
2.43.0


From 5eed5e872f474fe6cda55017836daa726542950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:00 +0000
Subject: [PATCH 26/44] fix: patterns of a directory do not apply to siblings
 that share its name as a prefix

---
 src/ft_ignore.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 823cb51..35d172b 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -385,6 +385,21 @@ apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Tells whether a path lies in the directory of a context.
+ *
+ * "/r" contains "/r/a" but not "/ra".
+ */
+static int is_below(const char *fullpath, const ft_ignore_context_t *ctx)
+{
+    apr_size_t len = ctx->base_dir_len;
+
+    if (strncmp(fullpath, ctx->base_dir, len) != 0) {
+        return 0;
+    }
+    return len == 0 || ctx->base_dir[len - 1] == '/' || fullpath[len] == '/' || fullpath[len] == '\0';
+}
+
 ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *fullpath, int is_dir)
 {
     ft_ignore_context_t *current_ctx = NULL;
@@ -400,17 +415,15 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
         int index = 0;
 
         /* Calculate relative path from this context's base_dir */
-        if (strncmp(fullpath, current_ctx->base_dir, current_ctx->base_dir_len) == 0) {
-            relative_path = fullpath + current_ctx->base_dir_len;
-            /* Skip leading slash */
-            while (*relative_path == '/') {
-                relative_path++;
-            }
-        }
-        else {
+        if (!is_below(fullpath, current_ctx)) {
             /* Path not under this context's base, try parent */
             continue;
         }
+        relative_path = fullpath + current_ctx->base_dir_len;
+        /* Skip leading slash */
+        while (*relative_path == '/') {
+            relative_path++;
+        }
 
         /* Check patterns in order (last match wins) */
         for (index = 0; index < current_ctx->patterns->nelts; index++) {
-- 
2.43.0


From fb818b06a744993dd90b82387e10182d679113cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:01 +0000
Subject: [PATCH 27/44] fix: patterns of a deeper .gitignore override those of
 its parents

---
 src/ft_ignore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 35d172b..da061c1 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -410,8 +410,8 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
         return FT_IGNORE_MATCH_NONE;
     }
 
-    /* Walk up the context hierarchy */
-    for (current_ctx = ctx; current_ctx != NULL; current_ctx = current_ctx->parent) {
+    /* Walk up the context hierarchy, the innermost context with a match decides */
+    for (current_ctx = ctx; current_ctx != NULL && result == FT_IGNORE_MATCH_NONE; current_ctx = current_ctx->parent) {
         int index = 0;
 
         /* Calculate relative path from this context's base_dir */
-- 
2.43.0


From 9defa7180423ce32cdb6ad7cf6d85d24f97045c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:20 +0000
Subject: [PATCH 28/44] fix: an ignore pattern with a slash in the middle is
 relative to its directory

---
 src/ft_ignore.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index da061c1..5dbf9e8 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -49,7 +49,7 @@ static const size_t MAX_PATTERN_LEN = 4096;
  * This function processes the beginning of a glob pattern to identify
  * important structural markers:
  * - `!`: Negates the pattern.
- * - `/`: Anchors the pattern to the beginning of the path.
+ * - `/` at the beginning or in the middle: Anchors the pattern to the beginning of the path.
  * - Trailing `/`: Marks the pattern as matching directories only.
  *
  * It updates the provided flags and returns a pointer to the start of the
@@ -57,7 +57,7 @@ static const size_t MAX_PATTERN_LEN = 4096;
  *
  * @param pattern The raw glob pattern string.
  * @param flags A pointer to an unsigned int where flags (FT_IGNORE_NEGATE, FT_IGNORE_DIR_ONLY) are stored.
- * @param starts_with_slash A pointer to an int that is set to 1 if the pattern is anchored to the root.
+ * @param starts_with_slash A pointer to an int that is set to 1 if the pattern is anchored to the directory of the context.
  * @return A pointer to the beginning of the pattern after processing prefixes.
  */
 static const char *handle_negation_and_slashes(const char *pattern, unsigned int *flags, int *starts_with_slash)
@@ -77,12 +77,6 @@ static const char *handle_negation_and_slashes(const char *pattern, unsigned int
         }
     }
 
-    /* Handle root anchor: Check for a leading '/' */
-    if (*pattern_cursor == '/') {
-        *starts_with_slash = 1;
-        pattern_cursor++;
-    }
-
     /* Handle directory-only: Check for a trailing '/' */
     const char *end = pattern_cursor + strlen(pattern_cursor) - 1;
     while (end > pattern_cursor && isspace((unsigned char) *end)) {
@@ -92,6 +86,16 @@ static const char *handle_negation_and_slashes(const char *pattern, unsigned int
         *flags |= FT_IGNORE_DIR_ONLY;
     }
 
+    /* Handle root anchor: a '/' at the beginning or in the middle, the trailing one does not count */
+    const char *slash = strchr(pattern_cursor, '/');
+    if (slash && slash < end) {
+        *starts_with_slash = 1;
+    }
+    if (*pattern_cursor == '/') {
+        *starts_with_slash = 1;
+        pattern_cursor++;
+    }
+
     return pattern_cursor;
 }
 
-- 
2.43.0


From 17220ed7ce553c8088f1a3badc75d9506926bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:21 +0000
Subject: [PATCH 29/44] fix: a directory pattern does not match directories
 that merely lie below a match

---
 src/ft_ignore.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 5dbf9e8..7f247a6 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -290,15 +290,8 @@ static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int
     /* Convert the main body of the glob pattern */
     convert_glob_body_to_pcre(&pattern_cursor, &result_cursor, *flags);
 
-    /* Set end anchor */
-    if (*flags & FT_IGNORE_DIR_ONLY) {
-        /* Match a directory with an optional trailing slash */
-        append_pcre_sequence(&result_cursor, "(/|$)");
-    }
-    else {
-        /* Match the end of the string */
-        append_pcre_sequence(&result_cursor, "$");
-    }
+    /* Match the end of the string */
+    append_pcre_sequence(&result_cursor, "$");
 
     *result_cursor = '\0';
     return result;
-- 
2.43.0


From bfa9b434bba85eab547bd82daf6c5a301c00bd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:21 +0000
Subject: [PATCH 30/44] fix: trailing spaces are not part of an ignore pattern

---
 src/ft_ignore.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 7f247a6..6510c53 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -78,11 +78,8 @@ static const char *handle_negation_and_slashes(const char *pattern, unsigned int
     }
 
     /* Handle directory-only: Check for a trailing '/' */
-    const char *end = pattern_cursor + strlen(pattern_cursor) - 1;
-    while (end > pattern_cursor && isspace((unsigned char) *end)) {
-        end--;
-    }
-    if (*end == '/') {
+    const char *end = pattern_cursor + strlen(pattern_cursor);
+    if (end > pattern_cursor && *--end == '/') {
         *flags |= FT_IGNORE_DIR_ONLY;
     }
 
@@ -297,6 +294,28 @@ static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int
     return result;
 }
 
+/**
+ * @brief Copies a pattern without its trailing spaces; a space quoted with a backslash is kept.
+ */
+static char *trim_trailing_spaces(const char *pattern, apr_pool_t *pool)
+{
+    char *copy = apr_pstrdup(pool, pattern);
+    char *kept = copy;
+
+    for (char *cursor = copy; *cursor; cursor++) {
+        if (*cursor == ' ') {
+            continue;
+        }
+        if (*cursor == '\\' && cursor[1]) {
+            cursor++;
+        }
+        kept = cursor + 1;
+    }
+    *kept = '\0';
+
+    return copy;
+}
+
 ft_ignore_context_t *ft_ignore_context_create(apr_pool_t *pool, ft_ignore_context_t *parent, const char *base_dir)
 {
     ft_ignore_context_t *ctx = apr_pcalloc(pool, sizeof(ft_ignore_context_t));
@@ -312,7 +331,7 @@ ft_ignore_context_t *ft_ignore_context_create(apr_pool_t *pool, ft_ignore_contex
 
 apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pattern_str)
 {
-    const char *trimmed = NULL;
+    char *trimmed = NULL;
     unsigned int flags = 0;
     char *regex_str = NULL;
     pcre *regex = NULL;
@@ -321,8 +340,8 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
     ft_ignore_pattern_t *pattern = NULL;
 
     /* Trim whitespace */
-    trimmed = pattern_str;
-    while (isspace(*trimmed)) {
+    trimmed = trim_trailing_spaces(pattern_str, ctx->pool);
+    while (isspace((unsigned char) *trimmed)) {
         trimmed++;
     }
 
-- 
2.43.0


From 2332419c18c4b945ccaf516da9aad808c43a737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:49 +0000
Subject: [PATCH 31/44] fix: an escaped letter or digit in an ignore pattern
 stands for itself

---
 src/ft_ignore.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 6510c53..417ac9c 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -188,6 +188,28 @@ static void handle_question_mark(const char **pattern_cursor, char **result_curs
     *pattern_cursor += 1;
 }
 
+/**
+ * @brief Converts an escaped character into its PCRE equivalent.
+ *
+ * The character stands for itself; a backslash at the end of the pattern
+ * makes it match nothing.
+ *
+ * @param pattern_cursor A pointer to the current position in the glob pattern.
+ * @param result_cursor A pointer to the current position in the result buffer.
+ */
+static void handle_escape(const char **pattern_cursor, char **result_cursor)
+{
+    (*pattern_cursor)++;        // Move past the backslash
+    if (**pattern_cursor == '\0') {
+        append_pcre_sequence(result_cursor, "(?!)");
+        return;
+    }
+    if (!isalnum((unsigned char) **pattern_cursor)) {
+        *(*result_cursor)++ = '\\';
+    }
+    *(*result_cursor)++ = *(*pattern_cursor)++;
+}
+
 /**
  * @brief Converts a glob character class (`[abc]`) into its PCRE equivalent.
  *
@@ -240,13 +262,8 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
             break;
         }
 
-        if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
-            /* Handle escaped characters */
-            char *cursor = *result_cursor;
-            *cursor++ = '\\';
-            *cursor++ = *(*pattern_cursor + 1);
-            *result_cursor = cursor;
-            *pattern_cursor += 2;
+        if (**pattern_cursor == '\\') {
+            handle_escape(pattern_cursor, result_cursor);
         }
         else if (**pattern_cursor == '*') {
             handle_star(pattern_cursor, result_cursor);
-- 
2.43.0


From b87d8988151de3b8d2c126f96041e8623d7d1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:25 +0000
Subject: [PATCH 32/44] fix: in ignore patterns ** is special only as a whole
 path component

---
 src/ft_ignore.c | 52 ++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 417ac9c..22639c5 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -151,29 +151,32 @@ static void set_pcre_anchors(char **result_cursor, const struct pcre_anchor_para
  * @brief Handles the conversion of a glob star (`*`) or double-star (`**`)
  * into its PCRE equivalent.
  *
+ * Two or more stars are special when they make up a whole path component.
+ *
+ * @param pattern The beginning of the glob pattern.
  * @param pattern_cursor A pointer to the current position in the glob pattern.
  * @param result_cursor A pointer to the current position in the result buffer.
  */
-static void handle_star(const char **pattern_cursor, char **result_cursor)
+static void handle_star(const char *pattern, const char **pattern_cursor, char **result_cursor)
 {
-    if (*(*pattern_cursor + 1) == '*') {
-        /* Double star: ** */
-        if (*(*pattern_cursor + 2) == '/') {
-            /* * *//* pattern: matches zero or more directory levels */
-            append_pcre_sequence(result_cursor, "(.*/)?");
-            *pattern_cursor += 3;
-        }
-        else {
-            /* ** at the end: matches everything */
-            append_pcre_sequence(result_cursor, ".*");
-            *pattern_cursor += 2;
-        }
+    const char *first = *pattern_cursor;
+    const char *after = first + strspn(first, "*");
+    int starts_component = (first == pattern || first[-1] == '/');
+
+    if (after - first > 1 && starts_component && *after == '/') {
+        /* * *//* pattern: matches zero or more directory levels */
+        append_pcre_sequence(result_cursor, "(.*/)?");
+        after++;
+    }
+    else if (after - first > 1 && starts_component && (*after == '\0' || (*after == '\\' && after[1] == '/'))) {
+        /* ** at the end: matches everything */
+        append_pcre_sequence(result_cursor, ".*");
     }
     else {
-        /* Single star *: matches anything except a slash */
+        /* Any other star matches anything except a slash */
         append_pcre_sequence(result_cursor, "[^/]*");
-        *pattern_cursor += 1;
     }
+    *pattern_cursor = after;
 }
 
 /**
@@ -252,21 +255,17 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
  *
  * @param pattern_cursor The glob pattern string (with prefixes like `!` already handled).
  * @param result_cursor A pointer to the current position in the result buffer.
- * @param flags Flags that may include FT_IGNORE_DIR_ONLY.
  */
-static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result_cursor, unsigned int flags)
+static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result_cursor)
 {
-    while (**pattern_cursor) {
-        /* Stop if we hit a trailing slash for a directory-only pattern */
-        if (**pattern_cursor == '/' && (flags & FT_IGNORE_DIR_ONLY) && *(*pattern_cursor + 1) == '\0') {
-            break;
-        }
+    const char *pattern = *pattern_cursor;
 
+    while (**pattern_cursor) {
         if (**pattern_cursor == '\\') {
             handle_escape(pattern_cursor, result_cursor);
         }
         else if (**pattern_cursor == '*') {
-            handle_star(pattern_cursor, result_cursor);
+            handle_star(pattern, pattern_cursor, result_cursor);
         }
         else if (**pattern_cursor == '?') {
             handle_question_mark(pattern_cursor, result_cursor);
@@ -298,11 +297,16 @@ static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int
 
     anchor_params.flags = *flags;
 
+    /* The trailing slash of a directory-only pattern is not matched */
+    if ((*flags & FT_IGNORE_DIR_ONLY) && *pattern_cursor) {
+        pattern_cursor = apr_pstrmemdup(pool, pattern_cursor, strlen(pattern_cursor) - 1);
+    }
+
     /* Set start anchor based on whether the pattern had a leading slash */
     set_pcre_anchors(&result_cursor, &anchor_params);
 
     /* Convert the main body of the glob pattern */
-    convert_glob_body_to_pcre(&pattern_cursor, &result_cursor, *flags);
+    convert_glob_body_to_pcre(&pattern_cursor, &result_cursor);
 
     /* Match the end of the string */
     append_pcre_sequence(&result_cursor, "$");
-- 
2.43.0


From 10d5f316c737c091f5675ce5df5b18abc964824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:45 +0000
Subject: [PATCH 33/44] fix: character classes in ignore patterns follow the
 gitignore rules

---
 src/ft_ignore.c | 119 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 101 insertions(+), 18 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 22639c5..cfba293 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -25,10 +25,13 @@
 #include <apr_strings.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
+#include <stdio.h>
 
 enum
 {
-    INITIAL_PATTERNS_CAPACITY = 16
+    INITIAL_PATTERNS_CAPACITY = 16,
+    ASCII_CHARS = 128
 };
 
 /**
@@ -213,37 +216,117 @@ static void handle_escape(const char **pattern_cursor, char **result_cursor)
     *(*result_cursor)++ = *(*pattern_cursor)++;
 }
 
+/**
+ * @brief Adds the members of a named class such as "alpha" to a set of characters.
+ *
+ * @return 0 if there is no such class.
+ */
+static int add_named_class(unsigned char *set, const char *name, size_t len)
+{
+    static const struct
+    {
+        const char *name;
+        int (*is_member) (int);
+    } classes[] = {
+        {"alnum", isalnum}, {"alpha", isalpha}, {"blank", isblank}, {"cntrl", iscntrl}, {"digit", isdigit}, {"graph", isgraph},
+        {"lower", islower}, {"print", isprint}, {"punct", ispunct}, {"space", isspace}, {"upper", isupper}, {"xdigit", isxdigit}
+    };
+
+    for (size_t idx = 0; idx < sizeof(classes) / sizeof(classes[0]); idx++) {
+        if (strlen(classes[idx].name) == len && strncmp(classes[idx].name, name, len) == 0) {
+            for (int chr = 0; chr < ASCII_CHARS; chr++) {
+                set[chr] |= classes[idx].is_member(chr) != 0;
+            }
+            return 1;
+        }
+    }
+    return 0;
+}
+
+/**
+ * @brief Reads the members of a glob character class into a set of characters.
+ *
+ * @param cursor The class, after its opening bracket and negation.
+ * @param set The set to fill, one flag per character.
+ * @return The position after the closing bracket, NULL if the class is malformed.
+ */
+static const char *parse_char_class(const char *cursor, unsigned char *set)
+{
+    const char *start = cursor;
+    int previous = 0;           /* The character a range may start from */
+
+    /* A closing bracket in first position is a member */
+    while (*cursor != ']' || cursor == start) {
+        const char *close = NULL;
+
+        if (*cursor == '-' && previous && cursor[1] && cursor[1] != ']') {
+            cursor += (cursor[1] == '\\') ? 2 : 1;
+            for (int chr = previous; chr <= (unsigned char) *cursor; chr++) {
+                set[chr] = 1;
+            }
+            previous = 0;
+        }
+        else if (*cursor == '[' && cursor[1] == ':' && (close = strchr(cursor + 2, ']')) != NULL && close > cursor + 2 && close[-1] == ':') {
+            if (!add_named_class(set, cursor + 2, (size_t) (close - 1 - (cursor + 2)))) {
+                return NULL;
+            }
+            cursor = close;
+            previous = 0;
+        }
+        else {
+            cursor += (*cursor == '\\') ? 1 : 0;
+            previous = (unsigned char) *cursor;
+            set[previous] = 1;
+        }
+        if (*cursor == '\0') {
+            return NULL;
+        }
+        cursor++;
+    }
+    return cursor + 1;
+}
+
 /**
  * @brief Converts a glob character class (`[abc]`) into its PCRE equivalent.
  *
+ * A malformed class makes the pattern match nothing; no class matches a slash.
+ *
  * @param pattern_cursor A pointer to the current position in the glob pattern.
  * @param result_cursor A pointer to the current position in the result buffer.
  */
 static void handle_char_class(const char **pattern_cursor, char **result_cursor)
 {
-    char *cursor = *result_cursor;
-    *cursor++ = '[';
-    (*pattern_cursor)++;        // Move past opening `[`
+    unsigned char set[UCHAR_MAX + 1] = { 0 };
+    const char *cursor = *pattern_cursor + 1;   // Move past opening `[`
+    unsigned char negated = (*cursor == '!' || *cursor == '^');
+    const char *end = parse_char_class(cursor + negated, set);
 
-    if (**pattern_cursor == '!' || **pattern_cursor == '^') {
-        *cursor++ = '^';
-        (*pattern_cursor)++;
+    if (end == NULL) {
+        append_pcre_sequence(result_cursor, "(?!)");
+        *pattern_cursor += strlen(*pattern_cursor);
+        return;
     }
+    *pattern_cursor = end;
 
-    while (**pattern_cursor && **pattern_cursor != ']') {
-        if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
-            *cursor++ = '\\';
-            (*pattern_cursor)++;
-        }
-        *cursor++ = *(*pattern_cursor)++;
+    set['/'] = negated;
+    if (memchr(set, 1, sizeof(set)) == NULL) {
+        append_pcre_sequence(result_cursor, "(?!)");
+        return;
     }
+    append_pcre_sequence(result_cursor, negated ? "[^" : "[");
+    for (int first = 1; first <= UCHAR_MAX; first++) {
+        int last = first;
 
-    if (**pattern_cursor == ']') {
-        *cursor++ = ']';
-        (*pattern_cursor)++;
+        if (!set[first]) {
+            continue;
+        }
+        while (last < UCHAR_MAX && set[last + 1]) {
+            last++;
+        }
+        *result_cursor += sprintf(*result_cursor, "\\x%02x-\\x%02x", (unsigned) first, (unsigned) last);
+        first = last;
     }
-
-    *result_cursor = cursor;
+    append_pcre_sequence(result_cursor, "]");
 }
 
 /**
-- 
2.43.0


From 9a59decf8b2a9974dfd98632184222b17cd80cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:07 +0000
Subject: [PATCH 34/44] fix: ignore patterns of any length

---
 src/ft_ignore.c | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index cfba293..8e0e6ae 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -31,16 +31,14 @@
 enum
 {
     INITIAL_PATTERNS_CAPACITY = 16,
-    ASCII_CHARS = 128
+    ASCII_CHARS = 128,
+    MAX_PCRE_EXPANSION = 16     /* No pattern character takes more in the regex, anchors included */
 };
 
 /**
- * @brief The maximum length of a pattern string.
- *
- * This constant defines the maximum buffer size for reading and processing
- * a single pattern from a .gitignore file.
+ * @brief The initial size of the buffer for a line of a .gitignore file.
  */
-static const size_t MAX_PATTERN_LEN = 4096;
+static const size_t LINE_BUFFER_SIZE = 4096;
 
 /**
  * Convert Git glob pattern to PCRE regex
@@ -373,7 +371,7 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
 
 static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int *flags)
 {
-    char *result = apr_pcalloc(pool, MAX_PATTERN_LEN);
+    char *result = apr_pcalloc(pool, (strlen(pattern) + 1) * MAX_PCRE_EXPANSION);
     char *result_cursor = result;
     struct pcre_anchor_params_t anchor_params = { 0 };
     const char *pattern_cursor = handle_negation_and_slashes(pattern, flags, &anchor_params.starts_with_slash);
@@ -476,18 +474,48 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Reads a line of any length.
+ *
+ * @param[in] file The file to read from.
+ * @param[in,out] line The buffer for the line, replaced by a larger one as needed.
+ * @param[in,out] size The size of that buffer.
+ * @param[in] pool The pool for larger buffers.
+ * @return APR_SUCCESS, or an error code if there is no further line.
+ */
+static apr_status_t read_line(apr_file_t *file, char **line, apr_size_t *size, apr_pool_t *pool)
+{
+    apr_status_t status = apr_file_gets(*line, (int) *size, file);
+    apr_size_t len = strlen(*line);
+
+    while (status == APR_SUCCESS && len + 1 == *size && (*line)[len - 1] != '\n') {
+        char *larger = apr_palloc(pool, *size * 2);
+
+        memcpy(larger, *line, len + 1);
+        *line = larger;
+        *size *= 2;
+        if (apr_file_gets(*line + len, (int) (*size - len), file) != APR_SUCCESS) {
+            break;
+        }
+        len += strlen(*line + len);
+    }
+
+    return status;
+}
+
 apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
 {
     apr_file_t *file = NULL;
     apr_status_t status = APR_SUCCESS;
-    char line[MAX_PATTERN_LEN];
+    apr_size_t size = LINE_BUFFER_SIZE;
+    char *line = apr_pcalloc(ctx->pool, size);
 
     status = apr_file_open(&file, filepath, APR_READ, APR_OS_DEFAULT, ctx->pool);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    while (apr_file_gets(line, (int) sizeof(line), file) == APR_SUCCESS) {
+    while (read_line(file, &line, &size, ctx->pool) == APR_SUCCESS) {
         /* Remove newline */
         apr_size_t len = strlen(line);
         if (len > 0 && line[len - 1] == '\n') {
-- 
2.43.0


From 3e8a092317efb55ff9820a6b7181b430bb0ee4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:07 +0000
Subject: [PATCH 35/44] fix: ignore patterns match names that contain a newline
 like any other

---
 src/ft_ignore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 8e0e6ae..cc99307 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -456,7 +456,7 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
     regex_str = ft_glob_to_pcre(trimmed, ctx->pool, &flags);
 
     /* Compile regex */
-    regex = pcre_compile(regex_str, 0, &error, &erroffset, NULL);
+    regex = pcre_compile(regex_str, PCRE_DOTALL | PCRE_DOLLAR_ENDONLY, &error, &erroffset, NULL);
     if (!regex) {
         DEBUG_ERR("Failed to compile pattern '%s': %s", trimmed, error);
         return APR_EGENERAL;
-- 
2.43.0


From 616f646a5327a9def4303dcf7aaf7ebe15278a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:07 +0000
Subject: [PATCH 36/44] fix: the default ignore patterns apply below relative
 arguments as well

---
 src/ft_config.c   | 2 +-
 src/ft_traverse.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index be17c37..6fdf63e 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -264,7 +264,7 @@ ft_conf_t *ft_config_create(apr_pool_t *pool)
     conf->excess_size = (apr_off_t) EXCESS_SIZE_DEFAULT;
     conf->num_threads = ft_get_cpu_cores();     /* Default to number of CPU cores */
     conf->respect_gitignore = 1;        /* Respect .gitignore by default */
-    conf->global_ignores = ft_ignore_context_create(pool, NULL, "/");   /* Initialize global ignores */
+    conf->global_ignores = ft_ignore_context_create(pool, NULL, "");    /* Initialize global ignores, they apply to relative paths too */
     ft_load_defaults(conf);     /* Load default ignore patterns */
     conf->mask = OPTION_RECSD;
     conf->threshold = PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD;
diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index d0cd731..f5cdcaf 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -163,7 +163,7 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
         }
         return status;
     }
-    if (conf->respect_gitignore && parent_ctx && ft_ignore_match(parent_ctx, filename, finfo.filetype == APR_DIR) == FT_IGNORE_MATCH_IGNORED) {
+    if (stats && conf->respect_gitignore && parent_ctx && ft_ignore_match(parent_ctx, filename, finfo.filetype == APR_DIR) == FT_IGNORE_MATCH_IGNORED) {
         return APR_SUCCESS;
     }
     if (check_permissions(&finfo, conf) != APR_SUCCESS) {
-- 
2.43.0


From f82e48ece4d1668a37d5675e31b6c14165f8f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:30 +0000
Subject: [PATCH 37/44] fix: release the archive and restore the umask when
 extraction fails

---
 src/ft_archive.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index bf5d8ea..41239e1 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -70,6 +70,7 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
     struct archive *ext = NULL;
     struct archive_entry *entry = NULL;
     char *tmpfile = NULL;
+    char *extracted = NULL;
     int result_value = 0;
 
     archive_handle = archive_read_new();
@@ -80,34 +81,34 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
     result_value = archive_read_support_filter_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_filter_all(): %s", archive_error_string(archive_handle));
-        return NULL;
+        goto cleanup;
     }
     result_value = archive_read_support_format_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_format_all(): %s", archive_error_string(archive_handle));
-        return NULL;
+        goto cleanup;
     }
     result_value = archive_read_open_filename(archive_handle, file->path, ARCHIVE_BLOCK_SIZE);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_open_filename(%s): %s", file->path, archive_error_string(archive_handle));
-        return NULL;
+        goto cleanup;
     }
 
     ext = archive_write_disk_new();
     if (NULL == ext) {
         DEBUG_ERR("error calling archive_write_disk_new()");
-        return NULL;
+        goto cleanup;
     }
 
     for (;;) {
         result_value = archive_read_next_header(archive_handle, &entry);
         if (result_value == ARCHIVE_EOF) {
             DEBUG_ERR("subpath [%s] not found in archive [%s]", file->subpath, file->path);
-            return NULL;
+            goto cleanup;
         }
         if (result_value != ARCHIVE_OK) {
             DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
-            return NULL;
+            goto cleanup;
         }
 
         if (!strcmp(file->subpath, archive_entry_pathname(entry))) {
@@ -120,11 +121,11 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
              */
             tmpfile = apr_pstrdup(pool, "/tmp/ftwinXXXXXX");
             result_value = mkstemp(tmpfile);
+            umask(current_mode);
             if (result_value < 0) {
                 DEBUG_ERR("error creating tmpfile %s", tmpfile);
-                return NULL;
+                goto cleanup;
             }
-            umask(current_mode);
             close(result_value);
 
             archive_entry_copy_pathname(entry, tmpfile);
@@ -135,21 +136,25 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
                 if (result_value != ARCHIVE_OK) {
                     DEBUG_ERR("error while copying data from archive (%s)", file->path);
                     (void) apr_file_remove(tmpfile, pool);
-                    return NULL;
+                    goto cleanup;
                 }
             }
             else {
                 DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
                 (void) apr_file_remove(tmpfile, pool);
-                return NULL;
+                goto cleanup;
             }
 
+            extracted = tmpfile;
             break;
         }
     }
 
-    archive_write_free(ext);
+  cleanup:
+    if (ext) {
+        archive_write_free(ext);
+    }
     archive_read_free(archive_handle);
 
-    return tmpfile;
+    return extracted;
 }
-- 
2.43.0


From 9af7797287d991ab28b1d1524e7779aaf8c07e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:30 +0000
Subject: [PATCH 38/44] fix: an archive member that could not be written
 completely is not used

---
 src/ft_archive.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index 41239e1..fe008d4 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -151,8 +151,11 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
     }
 
   cleanup:
-    if (ext) {
-        archive_write_free(ext);
+    /* The last write errors show up when the file is completed */
+    if (ext && archive_write_free(ext) != ARCHIVE_OK && extracted) {
+        DEBUG_ERR("error completing %s from archive (%s)", extracted, file->path);
+        (void) apr_file_remove(extracted, pool);
+        extracted = NULL;
     }
     archive_read_free(archive_handle);
 
-- 
2.43.0


From 271737845f7ef4a8f4e454d4f675336e1564deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:41 +0000
Subject: [PATCH 39/44] fix: only regular members are extracted from archives

---
 src/ft_archive.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index fe008d4..709f6a1 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -111,7 +111,14 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
             goto cleanup;
         }
 
-        if (!strcmp(file->subpath, archive_entry_pathname(entry))) {
+        const char *pathname = archive_entry_pathname(entry);
+        if (pathname && !strcmp(file->subpath, pathname)) {
+            /* Links would lead to other files, and nothing else has contents */
+            if (archive_entry_filetype(entry) != AE_IFREG || archive_entry_hardlink(entry)) {
+                DEBUG_ERR("subpath [%s] in archive [%s] is not a regular file", file->subpath, file->path);
+                goto cleanup;
+            }
+
             mode_t current_mode = umask(S_IRWXG | S_IRWXO);
 
             /*
-- 
2.43.0


From cd4d941b064cf3056c6dc01d6d4cb1bd5bdfd52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:41 +0000
Subject: [PATCH 40/44] fix: extracted archive members are readable by the user
 and nobody else

---
 src/ft_archive.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index 709f6a1..4f2f313 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -136,6 +136,7 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
             close(result_value);
 
             archive_entry_copy_pathname(entry, tmpfile);
+            archive_entry_set_perm(entry, S_IRUSR | S_IWUSR);
 
             result_value = archive_write_header(ext, entry);
             if (result_value == ARCHIVE_OK) {
-- 
2.43.0


From 90c1ed48f24aceba220e43be0389b2acf37aaeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:24 +0000
Subject: [PATCH 41/44] fix: refuse an unknown option or a missing option value
 instead of ignoring it

---
 src/ft_config.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ft_config.c b/src/ft_config.c
index 6fdf63e..28d2549 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -620,6 +620,12 @@ apr_status_t ft_config_parse_args(ft_conf_t *conf, int argc, const char **argv,
         }
     }
 
+    if (APR_EOF != status) {
+        /* Unknown option or missing value, apr_getopt_long() has told which */
+        print_usage_and_exit(argv[0], opt_option, NULL, NULL);
+        return APR_EGENERAL;
+    }
+
     if (argc - opt_state->ind < 1) {
         print_usage_and_exit(argv[0], opt_option, "Please submit at least one file or directory to process.", "");
         return APR_EGENERAL;
-- 
2.43.0


From 075b66aec156f1e612ac7dc5076545f7c312cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:24 +0000
Subject: [PATCH 42/44] fix: accept only a single digit as image threshold

---
 src/ft_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 28d2549..9cc06fe 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -497,7 +497,7 @@ static apr_status_t handle_image_options(int option, const char *optarg, ft_conf
         *wregex = apr_pstrdup(conf->pool, ".*\\.(gif|png|jpe?g)$");
         break;
     case 'T':
-        switch (*optarg) {
+        switch (strlen(optarg) == 1 ? *optarg : '\0') {
         case '1':
             conf->threshold = PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD;
             break;
-- 
2.43.0


From 7142789a3208aef932562097e6b393bfc3bff1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:24 +0000
Subject: [PATCH 43/44] fix: let napr_db_put and napr_db_del take keys and
 values that a lookup of the same transaction returned

They point into pages of the transaction, which inserting and deleting rearranges: the stored key or value was corrupted.
---
 src/napr_db.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 2420a28..9bfbe45 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1483,6 +1483,20 @@ static apr_status_t put_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key, co
         return APR_ENOSPC;
     }
 
+    /* What a lookup returned lies on a page that may be about to change */
+    uint8_t pair[PAGE_SIZE];
+    napr_db_val_t key_copy = {.size = key->size,.data = pair };
+    napr_db_val_t data_copy = {.size = data->size,.data = pair + key->size };
+
+    if (key->size > 0) {
+        memcpy(key_copy.data, key->data, key->size);
+    }
+    if (data->size > 0) {
+        memcpy(data_copy.data, data->data, data->size);
+    }
+    key = &key_copy;
+    data = &data_copy;
+
     /* Special case: Empty tree (no root yet) */
     if (txn->root_pgno == 0) {
         return handle_empty_tree_put(txn, key, data);
@@ -1535,6 +1549,7 @@ static apr_status_t put_in_tree(napr_db_txn_t *txn, const napr_db_val_t *key, co
 apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
 {
     apr_status_t status = APR_SUCCESS;
+    const void *put_key = NULL;
 
     /* Validate inputs */
     if (!txn || !key || !data) {
@@ -1554,9 +1569,10 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return APR_EEXIST;
     }
 
+    put_key = apr_pmemdup(txn->pool, key->data, key->size);
     status = put_in_tree(txn, key, data);
     if (status == APR_SUCCESS) {
-        apr_hash_set(txn->put_keys, apr_pmemdup(txn->pool, key->data, key->size), (apr_ssize_t) key->size, txn);
+        apr_hash_set(txn->put_keys, put_key, (apr_ssize_t) key->size, txn);
     }
     return status;
 }
@@ -1812,9 +1828,12 @@ apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         }
     }
 
+    /* The key may lie on the page that it is deleted from */
+    const void *put_key = txn->put_keys ? apr_pmemdup(txn->pool, key->data, key->size) : NULL;
+
     status = del_in_tree(txn, key);
     if (status == APR_SUCCESS && txn->put_keys) {
-        apr_hash_set(txn->put_keys, key->data, (apr_ssize_t) key->size, NULL);
+        apr_hash_set(txn->put_keys, put_key, (apr_ssize_t) key->size, NULL);
     }
     return status;
 }
-- 
2.43.0


From 21684bc6806b318d4970a5acf215d8a926f8662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:26 +0000
Subject: [PATCH 44/44] fix: let napr_cache_upsert_in_txn store an entry that a
 lookup of the same transaction returned

Replacing an entry stored by the same transaction deletes the old one first, which moved the entry about to be stored.
---
 src/napr_cache.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/napr_cache.c b/src/napr_cache.c
index c58a5e6..efe9c9c 100644
--- a/src/napr_cache.c
+++ b/src/napr_cache.c
@@ -332,6 +332,7 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
 {
     napr_db_val_t key;
     napr_db_val_t value;
+    napr_cache_entry_t entry_copy;
     apr_status_t status = APR_SUCCESS;
 
     if (!cache || !path || !entry) {
@@ -346,8 +347,9 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
     key.data = (void *) path;
     key.size = strlen(path);
 
-    /* Prepare value (cache entry) */
-    value.data = (void *) entry;
+    /* Prepare value (cache entry); an entry that a lookup returned lies on a page that may be about to change */
+    memcpy(&entry_copy, entry, sizeof(napr_cache_entry_t));
+    value.data = &entry_copy;
     value.size = sizeof(napr_cache_entry_t);
 
     /* Insert or update in database */
-- 
2.43.0

