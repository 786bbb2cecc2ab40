From 95ccee65f56e8a62df4c617cf7cd84cbbe2958b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 001/105] fix: htab_remove_elt must do nothing for an absent
 element

htab_find_slot returns NULL in that case, which was dereferenced.
---
 src/commons/profiling/pdc_hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/profiling/pdc_hashtab.c b/src/commons/profiling/pdc_hashtab.c
index e59b7e3..e4bf401 100644
--- a/src/commons/profiling/pdc_hashtab.c
+++ b/src/commons/profiling/pdc_hashtab.c
@@ -429,7 +429,7 @@ PTR  element;
     PTR *slot;
 
     slot = htab_find_slot(htab, element, NO_INSERT);
-    if (*slot == EMPTY_ENTRY)
+    if (slot == NULL || *slot == EMPTY_ENTRY)
         return;
 
     if (htab->del_f)
-- 
2.43.0


From b6640a95d36293135ce241e31011691eb4a3e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 002/105] fix: reset the element counters when a profiling hash
 table is emptied

---
 src/commons/profiling/pdc_hashtab.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/commons/profiling/pdc_hashtab.c b/src/commons/profiling/pdc_hashtab.c
index e4bf401..c0926c3 100644
--- a/src/commons/profiling/pdc_hashtab.c
+++ b/src/commons/profiling/pdc_hashtab.c
@@ -218,6 +218,8 @@ void htab_empty(htab) htab_t htab;
                 (*htab->del_f)(htab->entries[i]);
 
     memset(htab->entries, 0, htab->size * sizeof(PTR));
+    htab->n_elements = 0;
+    htab->n_deleted  = 0;
 }
 
 /* Similar to htab_find_slot, but without several unwanted side effects:
-- 
2.43.0


From 23facc7e712735181a71cf5d288b9792690b8252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 003/105] fix: keep the elements when a full deque grows, and
 never shrink it to nothing

---
 src/commons/collections/pdc_deque.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/commons/collections/pdc_deque.c b/src/commons/collections/pdc_deque.c
index 5d2280c..222a344 100644
--- a/src/commons/collections/pdc_deque.c
+++ b/src/commons/collections/pdc_deque.c
@@ -22,17 +22,17 @@ resize_deque(PDC_deque_t *deque, size_t new_capacity)
         exit(1);
     }
 
+    // head == tail both when the deque is empty and when it is full, so count elements
     size_t i = 0;
-    while (deque->head != deque->tail) {
-        new_data[i++] = deque->data[deque->head];
-        deque->head   = (deque->head + 1) % deque->capacity;
+    for (i = 0; i < deque->size; i++) {
+        new_data[i] = deque->data[(deque->head + i) % deque->capacity];
     }
 
     free(deque->data);
     deque->data     = new_data;
     deque->capacity = new_capacity;
     deque->head     = 0;
-    deque->tail     = i;
+    deque->tail     = i % new_capacity;
 }
 
 void
@@ -66,7 +66,7 @@ PDC_deque_pop_front(PDC_deque_t *deque)
     void *value = deque->data[deque->head];
     deque->head = (deque->head + 1) % deque->capacity;
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
@@ -81,7 +81,7 @@ PDC_deque_pop_back(PDC_deque_t *deque)
     deque->tail = (deque->tail - 1 + deque->capacity) % deque->capacity;
     void *value = deque->data[deque->tail];
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
-- 
2.43.0


From f3d6156accff18000ddeac5eb2e9d1c7fed5e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 004/105] fix: always make room when a vector with a small
 capacity or factor grows

---
 src/commons/collections/pdc_vector.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/commons/collections/pdc_vector.c b/src/commons/collections/pdc_vector.c
index ac28c64..47ded4b 100644
--- a/src/commons/collections/pdc_vector.c
+++ b/src/commons/collections/pdc_vector.c
@@ -56,7 +56,9 @@ pdc_vector_add(PDC_VECTOR *vector, void *item)
 
     // Expand the array of items if necessary.
     if (vector->item_count >= vector->capacity) {
-        vector->capacity *= vector->expansion_factor;
+        size_t new_capacity = vector->capacity * vector->expansion_factor;
+        // small capacities and factors must still make room for one more item
+        vector->capacity = new_capacity > vector->capacity ? new_capacity : vector->capacity + 1;
         vector->items = (void **)realloc(vector->items, vector->capacity * sizeof(void *));
         if (vector->items == NULL) {
             return;
-- 
2.43.0


From 355c40820d4db2ffee949f9ecab62a198eb7d17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 005/105] fix: keep the children of a 16-way radix tree node in
 unsigned byte order

---
 src/commons/collections/art.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 6d15e1d..a67d291 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -493,7 +493,9 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
         __m128i cmp;
 
         // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // (flip the sign bit: SSE2 only compares signed bytes)
+        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c ^ 0x80), _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys),
+                                                                   _mm_set1_epi8((char)0x80)));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
@@ -502,7 +504,9 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
         __m128i cmp;
 
         // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // (flip the sign bit: SSE2 only compares signed bytes)
+        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c ^ 0x80), _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys),
+                                                                   _mm_set1_epi8((char)0x80)));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
-- 
2.43.0


From 81fc66fa48ee6330ff9f3f9da9ffa670f53bbb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 006/105] fix: stop a prefix iteration when the compressed path
 does not match

It descended anyway and read past the end of the prefix.
---
 src/commons/collections/art.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index a67d291..d95aaa9 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -1077,15 +1077,14 @@ art_iter_prefix(art_tree *t, const unsigned char *key, int key_len, art_callback
                 prefix_len = n->partial_len;
             }
 
-            // If there is no match, search is terminated
-            if (!prefix_len) {
-                return 0;
-
-                // If we've matched the prefix, iterate on this node
-            }
-            else if (depth + prefix_len == key_len) {
+            // If we've matched the prefix, iterate on this node
+            if (depth + prefix_len == key_len) {
                 return recursive_iter(n, cb, data);
             }
+            // If the compressed path does not match, search is terminated
+            else if ((uint32_t)prefix_len < n->partial_len) {
+                return 0;
+            }
 
             // if there is a full match, go deeper
             depth = depth + n->partial_len;
-- 
2.43.0


From 88f2fa3566f1d693830c7612d3443706456366b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 007/105] fix: let a radix tree key be a prefix of another key

The metadata index stores keys without their terminator, so the tree read
past the end of the shorter key and filed it under a random byte.
---
 src/commons/collections/art.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index d95aaa9..066cd59 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -170,6 +170,17 @@ art_tree_destroy(art_tree *t)
 extern inline uint64_t art_size(art_tree *t);
 #endif
 
+/**
+ * Byte of a key at a position. Keys need not be terminated: the position right
+ * after the last byte counts as a zero byte, so that a key can be a prefix of
+ * another one.
+ */
+static inline unsigned char
+key_at(const unsigned char *key, int key_len, int pos)
+{
+    return pos < key_len ? key[pos] : 0;
+}
+
 static art_node **
 find_child(art_node *n, unsigned char c)
 {
@@ -330,7 +341,7 @@ art_search(const art_tree *t, const unsigned char *key, int key_len)
         }
 
         // Recursively search
-        child = find_child(n, key[depth]);
+        child = find_child(n, key_at(key, key_len, depth));
         n     = (child) ? *child : NULL;
         depth++;
     }
@@ -663,8 +674,8 @@ recursive_insert(art_node *n, art_node **ref, const unsigned char *key, int key_
         memcpy(new_node->n.partial, key + depth, min(MAX_PREFIX_LEN, longest_prefix));
         // Add the leafs to the new node4
         *ref = (art_node *)new_node;
-        add_child4(new_node, ref, l->key[depth + longest_prefix], SET_LEAF(l));
-        add_child4(new_node, ref, l2->key[depth + longest_prefix], SET_LEAF(l2));
+        add_child4(new_node, ref, key_at(l->key, l->key_len, depth + longest_prefix), SET_LEAF(l));
+        add_child4(new_node, ref, key_at(l2->key, l2->key_len, depth + longest_prefix), SET_LEAF(l2));
         return NULL;
     }
 
@@ -698,21 +709,21 @@ recursive_insert(art_node *n, art_node **ref, const unsigned char *key, int key_
 
         // Insert the new leaf
         art_leaf *l = make_leaf(key, key_len, value);
-        add_child4(new_node, ref, key[depth + prefix_diff], SET_LEAF(l));
+        add_child4(new_node, ref, key_at(key, key_len, depth + prefix_diff), SET_LEAF(l));
         return NULL;
     }
 
 RECURSE_SEARCH:;
 
     // Find a child to recurse to
-    art_node **child = find_child(n, key[depth]);
+    art_node **child = find_child(n, key_at(key, key_len, depth));
     if (child) {
         return recursive_insert(*child, child, key, key_len, value, depth + 1, old, replace);
     }
 
     // No child, node goes within us
     art_leaf *l = make_leaf(key, key_len, value);
-    add_child(n, ref, key[depth], SET_LEAF(l));
+    add_child(n, ref, key_at(key, key_len, depth), SET_LEAF(l));
     return NULL;
 }
 
@@ -900,7 +911,7 @@ recursive_delete(art_node *n, art_node **ref, const unsigned char *key, int key_
     }
 
     // Find child node
-    art_node **child = find_child(n, key[depth]);
+    art_node **child = find_child(n, key_at(key, key_len, depth));
     if (!child)
         return NULL;
 
@@ -908,7 +919,7 @@ recursive_delete(art_node *n, art_node **ref, const unsigned char *key, int key_
     if (IS_LEAF(*child)) {
         art_leaf *l = LEAF_RAW(*child);
         if (!leaf_matches(l, key, key_len, depth)) {
-            remove_child(n, ref, key[depth], child);
+            remove_child(n, ref, key_at(key, key_len, depth), child);
             return l;
         }
         return NULL;
@@ -1091,7 +1102,7 @@ art_iter_prefix(art_tree *t, const unsigned char *key, int key_len, art_callback
         }
 
         // Recursively search
-        child = find_child(n, key[depth]);
+        child = find_child(n, key_at(key, key_len, depth));
         n     = (child) ? *child : NULL;
         depth++;
     }
-- 
2.43.0


From cfe687401c3b7f1f677cd9f392a7790fe51bacbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 008/105] fix: send short prefix and infix queries to every
 server that may hold a match

---
 src/commons/index/dart/dart_core.c | 118 ++++++++++++++++++++---------
 1 file changed, 82 insertions(+), 36 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 43410f4..7019933 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -56,6 +56,15 @@ get_server_id_by_vnode_id(DART *dart, uint64_t vnode_id)
     return (vnode_id / num_vnode_per_server) % dart->num_server;
 }
 
+/**
+ * The index of a character in the DART alphabet. It never is negative, whatever the signedness of char.
+ */
+static int
+get_char_index(DART *dart, char c)
+{
+    return (int)((unsigned char)c) % dart->alphabet_size;
+}
+
 /**
  * This function make the client request counter increment by 1.
  *
@@ -79,15 +88,15 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
 {
     int      n = 0;
     uint64_t c;
-    uint64_t rst = 0;
-    uint64_t i_t_n;
+    uint64_t rst     = 0;
+    uint64_t i_t_n   = 0;
     int      met_end = 0;
     for (n = 1; n <= dart->dart_tree_height; n++) {
-        if (str[n - 1] == '\0') { // test if the string ends.
+        if (met_end == 0 && str[n - 1] == '\0') { // test if the string ends.
             met_end = 1;
         }
-        if (str[n - 1] != '\0' && met_end == 0) { // if not, we calculate the character index.
-            i_t_n = ((uint64_t)str[n - 1]) % dart->alphabet_size;
+        if (met_end == 0) { // if not, we calculate the character index.
+            i_t_n = get_char_index(dart, str[n - 1]);
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
         rst += c;
@@ -261,7 +270,7 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
     // we first let reconciled virtual node to be the base virtual node.
     uint64_t reconciled_vnode_idx = base_vnode_idx;
 
-    if (dart->dart_tree_height <= 1) {
+    if (dart->dart_tree_height <= 1 || strlen(word) == 0) {
         return reconciled_vnode_idx;
     }
 
@@ -288,13 +297,13 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         else {
             // otherwise, pre_leaf_index should be the index of proceeding character of the
             // leaf-level character in the alphabet.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = get_char_index(dart, word[last_c_index - 1]);
         }
     }
     else {
         // if the length of the word exceeds the height of the DART partition tree,
         // definitely, post-leaf character exists.
-        post_leaf_index = (int)word[last_c_index + 1] % dart->alphabet_size;
+        post_leaf_index = get_char_index(dart, word[last_c_index + 1]);
         // but, there is a case where DART partition tree is of height 1.
         // in this case, there will be no pre-leaf character.
         if (tree_height <= 1) {
@@ -302,10 +311,10 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         }
         else {
             // otherwise, there will be a pre-leaf character.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = get_char_index(dart, word[last_c_index - 1]);
         }
     }
-    int leaf_index = (int)word[last_c_index] % dart->alphabet_size;
+    int leaf_index = get_char_index(dart, word[last_c_index]);
 
     int leaf_post_sum  = leaf_index + pre_leaf_index + post_leaf_index;
     int leaf_post_diff = abs(post_leaf_index - leaf_index - pre_leaf_index);
@@ -331,7 +340,7 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
     int ir_idx = (int)ceil((double)(dart->alphabet_size / 2));
 
     // We also calculate the region start position.
-    uint64_t region_start = ((((int)word[0] + ir_idx) % dart->alphabet_size)) *
+    uint64_t region_start = ((get_char_index(dart, word[0]) + ir_idx) % dart->alphabet_size) *
                             region_size; // ((reconciled_vnode_idx)/region_size) * (region_size);
     // Finally, the reconciled vnode index is calculated.
     // reconciled_vnode_idx = (0 + region_start + region_offset) % dart->num_vnode;
@@ -389,6 +398,59 @@ get_replica_node_ids(DART *dart, uint64_t master_node_id, int is_physical, uint6
     return dart->replication_factor;
 }
 
+/**
+ * Mark the servers that own the virtual nodes of one region.
+ */
+static void
+mark_servers_of_region(DART *dart, uint64_t region_idx, char *marks)
+{
+    uint64_t region_size          = dart->num_vnode / dart->alphabet_size;
+    uint64_t num_vnode_per_server = dart->num_vnode / dart->num_server;
+    uint64_t vnode                = (region_idx % dart->alphabet_size) * region_size;
+    uint64_t region_end           = vnode + region_size;
+    while (vnode < region_end) {
+        marks[get_server_id_by_vnode_id(dart, vnode)] = 1;
+        vnode = (vnode / num_vnode_per_server + 1) * num_vnode_per_server;
+    }
+}
+
+/**
+ * Get the IDs of all servers which may hold a keyword that starts with the given token. A keyword is either
+ * on its base virtual node, which is in the region of its first character, or on its alternative virtual
+ * node, which is in one of two regions determined by the first character.
+ *
+ * return The length of the ID array.
+ */
+static int
+get_server_ids_for_short_token(DART *dart, char *token, uint64_t **out)
+{
+    char *   marks  = (char *)calloc(dart->num_server, sizeof(char));
+    int      ir_idx = (int)ceil((double)(dart->alphabet_size / 2));
+    int      num    = 0;
+    uint32_t i;
+
+    if (token[0] == '\0') { // every keyword starts with the empty token
+        memset(marks, 1, dart->num_server);
+    }
+    else {
+        uint64_t c     = get_char_index(dart, token[0]);
+        uint64_t alter = c + (c + ir_idx) % dart->alphabet_size;
+        mark_servers_of_region(dart, c, marks);
+        if (dart->dart_tree_height > 1) {
+            mark_servers_of_region(dart, alter, marks);
+            mark_servers_of_region(dart, alter + 1, marks);
+        }
+    }
+
+    out[0] = (uint64_t *)calloc(dart->num_server, sizeof(uint64_t));
+    for (i = 0; i < dart->num_server; i++) {
+        if (marks[i])
+            out[0][num++] = i;
+    }
+    free(marks);
+    return num;
+}
+
 /**
  * This function takes a keyword, creates an index record in DART and returns all server ids
  * including replica servers. The caller of this function should perform index create PRC call
@@ -471,7 +533,9 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
 
     // for prefix/suffix query, we seek for proper parent region and only perform query broadcast for that
     // region. when suffix tree mode is ON: suffix query == exact query, infix query == prefix query.
-    if (strlen(token) < dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
+    // A token as long as the tree height does not determine the alternative virtual node, which also depends
+    // on the character after the leaf character.
+    if (strlen(token) <= dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
 #ifdef PDC_DART_SFX_TREE
                                                      || op_type == OP_INFIX_QUERY
 #else
@@ -479,24 +543,10 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
 #endif
                                                      )) {
 
-        // TODO: currently broadcast request to all virtual nodes in one region.
+        // TODO: currently broadcast request to all virtual nodes of the candidate regions.
         // TODO: we have to consider if we can reduce the number of nodes we need to
         // access as the prefix length grows.
-        int region_size  = dart_g->num_vnode / dart_g->alphabet_size;
-        int region_start = ((((int)token[0] % dart_g->alphabet_size) + 0) * region_size);
-
-        uint64_t server_start = get_server_id_by_vnode_id(dart_g, region_start);
-        uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + region_size - 1);
-
-        int num_srvs    = server_end - server_start + 1;
-        out[0]          = (uint64_t *)calloc(num_srvs, sizeof(uint64_t));
-        int num_srv_ids = 0;
-
-        uint64_t srvId = server_start;
-        for (; srvId <= server_end; srvId++) {
-            out[0][num_srv_ids++] = srvId;
-        }
-        return num_srvs;
+        return get_server_ids_for_short_token(dart_g, token, out);
     }
     else {
         // this branch handles the following cases:
@@ -659,15 +709,11 @@ DHT_hash(DART *dart_g, size_t len, char *key, dart_op_type_t op_type, index_hash
     else if (op_type == OP_EXACT_QUERY) {
         is_full_scan = 0;
     }
-    else if (op_type == OP_PREFIX_QUERY || op_type == OP_SUFFIX_QUERY) {
-        if (len > 1) {
-            is_full_scan = 1;
-        }
-        else {
-            is_full_scan = 0;
-        }
+    else if (op_type == OP_PREFIX_QUERY) {
+        // Only the hash of the initial, which all the keywords with this prefix share, leads to one server.
+        is_full_scan = (len != 1 || strlen(key) <= 1);
     }
-    else if (op_type == OP_INFIX_QUERY) {
+    else if (op_type == OP_SUFFIX_QUERY || op_type == OP_INFIX_QUERY) {
         is_full_scan = 1;
     }
 
-- 
2.43.0


From 09f47cf25fd7fc37b58fa92f4f74d8f86f4dfe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 009/105] fix: keep the contents of a bloom filter that grows
 and start new counters at zero

---
 src/server/dablooms/pdc_dablooms.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server/dablooms/pdc_dablooms.c b/src/server/dablooms/pdc_dablooms.c
index 2be56c8..a602933 100644
--- a/src/server/dablooms/pdc_dablooms.c
+++ b/src/server/dablooms/pdc_dablooms.c
@@ -38,7 +38,17 @@ free_bitmap(bitmap_t *bitmap)
 bitmap_t *
 bitmap_resize(bitmap_t *bitmap, size_t new_size)
 {
-    bitmap->array = PDC_malloc(new_size);
+    size_t old_size = bitmap->array == NULL ? 0 : bitmap->bytes;
+    char * array    = PDC_realloc(bitmap->array, new_size);
+
+    if (array == NULL)
+        return NULL;
+
+    /* keep the counters and headers there are, the new ones start at zero */
+    if (new_size > old_size)
+        memset(array + old_size, 0, new_size - old_size);
+
+    bitmap->array = array;
     bitmap->bytes = new_size;
     return bitmap;
 }
-- 
2.43.0


From 6ba9d4076d9c367f975eab700b066039824d2637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 010/105] fix: account for all the elements that PDC_calloc
 allocates

---
 src/commons/utils/pdc_malloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commons/utils/pdc_malloc.c b/src/commons/utils/pdc_malloc.c
index c7ca6aa..bab7c4a 100644
--- a/src/commons/utils/pdc_malloc.c
+++ b/src/commons/utils/pdc_malloc.c
@@ -80,7 +80,7 @@ PDC_calloc(size_t count, size_t size)
         ret_value = NULL;
 
     if (ret_value)
-        PDC_mem_usage_g += size;
+        PDC_mem_usage_g += count * size;
 
     FUNC_LEAVE(ret_value);
 }
@@ -90,7 +90,7 @@ PDC_calloc_addsize(size_t count, size_t size, size_t *mem_usage_ptr)
 {
     void *ret_value = PDC_calloc(count, size);
     if (ret_value && mem_usage_ptr)
-        *mem_usage_ptr += size;
+        *mem_usage_ptr += count * size;
     return ret_value;
 }
 
-- 
2.43.0


From e8fb8b4ccb7ca8567250ab173f723d584e6e2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 011/105] fix: substring must not copy from beyond the end of
 the string

---
 src/commons/utils/string_utils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index 546d567..280af67 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -121,6 +121,11 @@ substring(const char *str, int start, int end)
         end = str_len;
     }
 
+    // Nothing starts beyond the end of the string
+    if (start > end) {
+        return NULL;
+    }
+
     // Calculate the length of the substring
     int substr_len = end - start;
 
-- 
2.43.0


From a588459f939f3dc105961110435e2e936e170f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 012/105] fix: a tag that is not there is in no value range

---
 src/commons/utils/query_utils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/commons/utils/query_utils.c b/src/commons/utils/query_utils.c
index c0ea640..818d72c 100644
--- a/src/commons/utils/query_utils.c
+++ b/src/commons/utils/query_utils.c
@@ -340,7 +340,11 @@ int
 is_value_in_range(const char *tagslist, const char *tagname, int from, int to)
 {
     const char *matched_kv = k_v_matches_p(tagslist, tagname, NULL);
-    char *      value      = get_value(matched_kv, '=');
-    int         v          = atoi(value);
+    if (matched_kv == NULL) {
+        return 0;
+    }
+    char *value = get_value(matched_kv, '=');
+    int   v     = atoi(value);
+    free(value);
     return (v >= from && v <= to);
 }
-- 
2.43.0


From 6fa8623e059292ff293b8136a1f9cd3ca7247eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 013/105] fix: destroying one thread pool must not stop the
 threads of the others

---
 src/commons/utils/thpool.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 2e3fec4..ebdd62b 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -41,7 +41,6 @@
 #define err(str)
 #endif
 
-static volatile int threads_keepalive;
 static volatile int threads_on_hold;
 
 /* ========================== STRUCTURES ============================ */
@@ -81,6 +80,7 @@ typedef struct thpool_ {
     thread **       threads;             /* pointer to threads        */
     volatile int    num_threads_alive;   /* threads currently alive   */
     volatile int    num_threads_working; /* threads currently working */
+    volatile int    keepalive;           /* threads keep serving      */
     pthread_mutex_t thcount_lock;        /* used for thread count etc */
     pthread_cond_t  threads_all_idle;    /* signal to thpool_wait     */
     jobqueue        jobqueue;            /* job queue                 */
@@ -112,8 +112,7 @@ struct thpool_ *
 thpool_init(int num_threads)
 {
 
-    threads_on_hold   = 0;
-    threads_keepalive = 1;
+    threads_on_hold = 0;
 
     if (num_threads < 0) {
         num_threads = 0;
@@ -128,6 +127,7 @@ thpool_init(int num_threads)
     }
     thpool_p->num_threads_alive   = 0;
     thpool_p->num_threads_working = 0;
+    thpool_p->keepalive           = 1;
 
     /* Initialise the job queue */
     if (jobqueue_init(&thpool_p->jobqueue) == -1) {
@@ -208,7 +208,7 @@ thpool_destroy(thpool_ *thpool_p)
     volatile int threads_total = thpool_p->num_threads_alive;
 
     /* End each thread 's infinite loop */
-    threads_keepalive = 0;
+    thpool_p->keepalive = 0;
 
     /* Give one second to kill idle threads */
     double TIMEOUT = 1.0;
@@ -345,11 +345,11 @@ thread_do(struct thread *thread_p)
     thpool_p->num_threads_alive += 1;
     pthread_mutex_unlock(&thpool_p->thcount_lock);
 
-    while (threads_keepalive) {
+    while (thpool_p->keepalive) {
 
         bsem_wait(thpool_p->jobqueue.has_jobs);
 
-        if (threads_keepalive) {
+        if (thpool_p->keepalive) {
 
             pthread_mutex_lock(&thpool_p->thcount_lock);
             thpool_p->num_threads_working++;
-- 
2.43.0


From 9abb73a9c53845c395cec2aff08f391b1c4a0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 014/105] fix: free a thread pool only after its last thread
 has let go of it

---
 src/commons/utils/thpool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index ebdd62b..a1a7b38 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -227,6 +227,10 @@ thpool_destroy(thpool_ *thpool_p)
         sleep(1);
     }
 
+    /* The last thread may still be about to release this lock */
+    pthread_mutex_lock(&thpool_p->thcount_lock);
+    pthread_mutex_unlock(&thpool_p->thcount_lock);
+
     /* Job queue cleanup */
     jobqueue_destroy(&thpool_p->jobqueue);
     /* Deallocs */
-- 
2.43.0


From 3507a8097c72fc5a8d796edf7ecc90f4ee1f2fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 015/105] fix: do not read past the end of JSON text that ends
 after a comma

---
 src/tools/cjson/cJSON.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/cjson/cJSON.c b/src/tools/cjson/cJSON.c
index 41fccd5..02b77b7 100644
--- a/src/tools/cjson/cJSON.c
+++ b/src/tools/cjson/cJSON.c
@@ -1518,6 +1518,9 @@ parse_object(cJSON *const item, parse_buffer *const input_buffer)
         /* parse the name of the child */
         input_buffer->offset++;
         buffer_skip_whitespace(input_buffer);
+        if (cannot_access_at_index(input_buffer, 0)) {
+            goto fail; /* nothing comes after the comma */
+        }
         if (!parse_string(current_item, input_buffer)) {
             goto fail; /* failed to parse name */
         }
-- 
2.43.0


From a2de2da6a48c75fe006b7611c859fdff27bccae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 016/105] fix: see an escaped backslash when minifying JSON
 strings

---
 src/tools/cjson/cJSON.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/cjson/cJSON.c b/src/tools/cjson/cJSON.c
index 02b77b7..ebe3628 100644
--- a/src/tools/cjson/cJSON.c
+++ b/src/tools/cjson/cJSON.c
@@ -2587,7 +2587,7 @@ minify_string(char **input, char **output)
             *output += static_strlen("\"");
             return;
         }
-        else if (((*input)[0] == '\\') && ((*input)[1] == '\"')) {
+        else if (((*input)[0] == '\\') && (((*input)[1] == '\"') || ((*input)[1] == '\\'))) {
             (*output)[1] = (*input)[1];
             *input += static_strlen("\"");
             *output += static_strlen("\"");
-- 
2.43.0


From 344f969d6098768160d477e27b0cb57c823da74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 017/105] fix: initialise the user id of a new object property

---
 src/api/pdc_obj/pdc_prop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 65f1985..2dfc6e1 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -98,6 +98,7 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         q->obj_prop_pub->consistency      = PDC_CONSISTENCY_EVENTUAL;
         q->data_loc                       = NULL;
         q->app_name                       = NULL;
+        q->user_id                        = 0;
         q->time_step                      = 0;
         q->tags                           = NULL;
         q->buf                            = NULL;
-- 
2.43.0


From b2794943d9e40fcf7074569c53e905b543191b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 018/105] fix: PDCprop_obj_dup copies all entries of the
 property

---
 src/api/pdc_obj/pdc_prop.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 2dfc6e1..bbd568a 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -147,11 +147,13 @@ PDCprop_obj_dup(pdcid_t prop_id)
         PGOTO_ERROR(0, "PDC object property memory allocation failed");
     if (info->app_name)
         q->app_name = strdup(info->app_name);
+    q->user_id   = info->user_id;
     q->time_step = info->time_step;
     if (info->tags)
         q->tags = strdup(info->tags);
-    q->data_loc = NULL;
-    q->buf      = NULL;
+    if (info->data_loc)
+        q->data_loc = strdup(info->data_loc);
+    q->buf = NULL;
 
     /* struct obj_prop_pub field */
     q->obj_prop_pub = (struct pdc_obj_prop *)PDC_malloc(sizeof(struct pdc_obj_prop));
@@ -161,8 +163,9 @@ PDCprop_obj_dup(pdcid_t prop_id)
     q->obj_prop_pub->obj_prop_id      = new_id;
     q->obj_prop_pub->ndim             = info->obj_prop_pub->ndim;
     q->obj_prop_pub->dims             = (uint64_t *)malloc(info->obj_prop_pub->ndim * sizeof(uint64_t));
-    q->obj_prop_pub->type             = PDC_UNKNOWN;
+    q->obj_prop_pub->type             = info->obj_prop_pub->type;
     q->obj_prop_pub->region_partition = info->obj_prop_pub->region_partition;
+    q->obj_prop_pub->consistency      = info->obj_prop_pub->consistency;
     for (i = 0; i < info->obj_prop_pub->ndim; i++)
         (q->obj_prop_pub->dims)[i] = (info->obj_prop_pub->dims)[i];
 
-- 
2.43.0


From 686ba900c59f793d2efe1496e20e2924f4f0f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 019/105] fix: set the strings of a partial metadata query that
 carry no condition

---
 src/api/pdc_client_connect.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index b890062..2a33f95 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1688,6 +1688,9 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
     in.time_step_to   = -1;
     in.ndim           = -1;
     in.tags           = " ";
+    in.k_query        = " ";
+    in.vfrom_query    = " ";
+    in.vto_query      = " ";
 
     if (is_list_all != 1) {
         in.user_id        = user_id;
-- 
2.43.0


From dbb9bf2cc7a067653e448be0ff409fc9ccac572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 020/105] fix: opening an object that does not exist fails
 instead of crashing

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 9b307e5..0f01513 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -574,7 +574,7 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
     else
         ret = PDC_Client_query_metadata_name_timestep_agg(obj_name, 0, &out, &metadata_server_id);
 
-    if (ret == FAIL)
+    if (ret == FAIL || out == NULL)
         PGOTO_ERROR(0, "query object failed");
 
     obj_prop = PDCprop_create(PDC_OBJ_CREATE, pdc);
-- 
2.43.0


From dec9995d5ba0fa07232264cd9658d6e302734d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 021/105] fix: PDCobj_iter_next skips objects of other
 containers

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 0f01513..e68005b 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -715,7 +715,7 @@ PDCobj_iter_next(obj_handle *ohandle, pdcid_t cont_id)
 
     while (next != NULL &&
            ((struct _pdc_obj_info *)(next->obj_ptr))->cont->cont_info_pub->local_id != cont_id) {
-        next = PDC_LIST_NEXT(ohandle, entry);
+        next = PDC_LIST_NEXT(next, entry);
     }
 
     ret_value = next;
-- 
2.43.0


From a6f5b0194f8748584d17dc06043ebe8d137170bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 022/105] fix: setting fewer dimensions on an object property
 takes effect

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index e68005b..b50c6c0 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -870,7 +870,7 @@ PDCprop_set_obj_dims(pdcid_t obj_prop, PDC_int_t ndim, uint64_t *dims)
     if (info == NULL)
         PGOTO_ERROR(FAIL, "cannot locate object property ID");
     prop = (struct _pdc_obj_prop *)(info->obj_ptr);
-    if (ndim > (PDC_int_t)prop->obj_prop_pub->ndim) {
+    if (ndim != (PDC_int_t)prop->obj_prop_pub->ndim) {
         if (prop->obj_prop_pub->ndim > 0) {
             free(prop->obj_prop_pub->dims);
         }
-- 
2.43.0


From d89f2b42ba168b28849e7ee12264287ea21d955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 023/105] fix: send the consistency semantics of a new object
 to the server

---
 src/api/pdc_client_connect.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 2a33f95..3574604 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2654,6 +2654,7 @@ PDC_Client_send_name_recv_id(const char *obj_name, uint64_t cont_id, pdcid_t obj
     in.data_type             = create_prop->obj_prop_pub->type;
     in.data.data_server_id   = PDC_CLIENT_DATA_SERVER();
     in.data.region_partition = create_prop->obj_prop_pub->region_partition;
+    in.data.consistency      = create_prop->obj_prop_pub->consistency;
     // printf("prepare for sending region partition %d with obj name %s\n", (int)in.data.region_partition,
     // obj_name);
     *data_server_id = in.data.data_server_id;
-- 
2.43.0


From 53d2a0e5c58a95db8c610e71356ee5b786e1b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 024/105] fix: release the local handle of an object the server
 refuses to create

---
 src/api/pdc_obj/pdc_obj.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index b50c6c0..cba789e 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -332,6 +332,17 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     p->obj_info_pub = (struct pdc_obj_info *)PDC_malloc(sizeof(struct pdc_obj_info));
     if (!p->obj_info_pub)
         PGOTO_ERROR(0, "PDC pub object memory allocation failed");
+    p->obj_info_pub->obj_pt = (struct pdc_obj_prop *)PDC_calloc(1, sizeof(struct pdc_obj_prop));
+    if (!p->obj_info_pub->obj_pt)
+        PGOTO_ERROR(0, "PDC object prop memory allocation failed");
+    memcpy(p->obj_info_pub->obj_pt, p->obj_pt->obj_prop_pub, sizeof(struct pdc_obj_prop));
+    p->obj_info_pub->obj_pt->ndim = obj_prop->obj_prop_pub->ndim;
+    p->obj_info_pub->obj_pt->dims = malloc(obj_prop->obj_prop_pub->ndim * sizeof(uint64_t));
+    if (!p->obj_info_pub->obj_pt->dims)
+        PGOTO_ERROR(0, "failed to allocate obj pub property memory");
+    for (i = 0; i < obj_prop->obj_prop_pub->ndim; i++)
+        p->obj_info_pub->obj_pt->dims[i] = obj_prop->obj_prop_pub->dims[i];
+
     p->obj_info_pub->name      = strdup(obj_name);
     p->obj_info_pub->local_id  = PDC_id_register(PDC_OBJ, p);
     p->obj_info_pub->meta_id   = 0;
@@ -339,8 +350,10 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     if (location == PDC_OBJ_GLOBAL) {
         ret = PDC_Client_send_name_recv_id(obj_name, p->cont->cont_info_pub->meta_id, obj_prop_id,
                                            &(p->obj_info_pub->meta_id), &data_server_id, &metadata_server_id);
-        if (ret == FAIL)
+        if (ret == FAIL) {
+            PDC_dec_ref(p->obj_info_pub->local_id);
             PGOTO_ERROR(0, "Unable to create object on server!");
+        }
     }
 
     p->obj_info_pub->metadata_server_id = (pdcid_t)metadata_server_id;
@@ -349,17 +362,6 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
                                             p->obj_pt->obj_prop_pub->region_partition,
                                             p->obj_pt->obj_prop_pub->consistency, p);
 
-    p->obj_info_pub->obj_pt = (struct pdc_obj_prop *)PDC_calloc(1, sizeof(struct pdc_obj_prop));
-    if (!p->obj_info_pub->obj_pt)
-        PGOTO_ERROR(0, "PDC object prop memory allocation failed");
-    memcpy(p->obj_info_pub->obj_pt, p->obj_pt->obj_prop_pub, sizeof(struct pdc_obj_prop));
-    p->obj_info_pub->obj_pt->ndim = obj_prop->obj_prop_pub->ndim;
-    p->obj_info_pub->obj_pt->dims = malloc(obj_prop->obj_prop_pub->ndim * sizeof(uint64_t));
-    if (!p->obj_info_pub->obj_pt->dims)
-        PGOTO_ERROR(0, "failed to allocate obj pub property memory");
-    for (i = 0; i < obj_prop->obj_prop_pub->ndim; i++)
-        p->obj_info_pub->obj_pt->dims[i] = obj_prop->obj_prop_pub->dims[i];
-
     ret_value = p->obj_info_pub->local_id;
 
 done:
-- 
2.43.0


From 3e7ed7f5aedeef8a37e92f71d19051e04b22f85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 025/105] fix: a client rank beyond the number of servers
 queries none of them

---
 src/api/pdc_client_connect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 3574604..e0dbfae 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1720,7 +1720,7 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
         my_server_start = pdc_client_mpi_rank_g;
         my_server_end   = my_server_start + 1;
         if (pdc_client_mpi_rank_g >= pdc_server_num_g) {
-            my_server_end = -1;
+            my_server_end = my_server_start;
         }
     }
 
-- 
2.43.0


From e557dad7e8413d1d21608593903bddffac77325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 026/105] fix: a tag read back has the type it was stored with

---
 src/server/pdc_server_metadata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 02380fc..f70b673 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2984,6 +2984,7 @@ PDC_get_kvtag_value_from_list(pdc_kvtag_list_t **list_head, char *key, metadata_
         if (strcmp(elt->kvtag->name, key) == 0) {
             out->kvtag.name  = elt->kvtag->name;
             out->kvtag.size  = elt->kvtag->size;
+            out->kvtag.type  = elt->kvtag->type;
             out->kvtag.value = elt->kvtag->value;
             break;
         }
-- 
2.43.0


From dc271d1ebf3a02807db329bbeadeb7f3dc4bf2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 027/105] fix: putting a tag again replaces its value

---
 src/server/pdc_server_metadata.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index f70b673..2bbf68b 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2766,10 +2766,21 @@ PDC_add_kvtag_to_list(pdc_kvtag_list_t **list_head, pdc_kvtag_t *tag)
     FUNC_ENTER(NULL);
 
     PDC_kvtag_dup(tag, &newtag);
+    DL_FOREACH(*list_head, new_list_item)
+    {
+        if (strcmp(new_list_item->kvtag->name, tag->name) == 0) {
+            free(new_list_item->kvtag->name);
+            free(new_list_item->kvtag->value);
+            free(new_list_item->kvtag);
+            new_list_item->kvtag = newtag;
+            PGOTO_DONE(SUCCEED);
+        }
+    }
     new_list_item        = (pdc_kvtag_list_t *)PDC_calloc(1, sizeof(pdc_kvtag_list_t));
     new_list_item->kvtag = newtag;
     DL_APPEND(*list_head, new_list_item);
 
+done:
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
-- 
2.43.0


From fe412386afd50a823708d836fdd3c84c801e8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 028/105] fix: stop walking a metadata list that was just
 freed, count only deleted objects

---
 src/server/pdc_server_metadata.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 2bbf68b..5a3177d 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -933,6 +933,7 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
     HashTablePair     pair;
     uint64_t          target_obj_id;
     int               n_entry;
+    int               n_deleted = 0;
 
     FUNC_ENTER(NULL);
 
@@ -1012,6 +1013,8 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
                     }
                     out->ret  = 1;
                     ret_value = SUCCEED;
+                    n_deleted = 1;
+                    goto done;
                 }
             } // DL_FOREACH
         }     // while
@@ -1052,7 +1055,7 @@ done:
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&n_metadata_mutex_g);
 #endif
-    n_metadata_g--;
+    n_metadata_g -= n_deleted;
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&n_metadata_mutex_g);
 #endif
-- 
2.43.0


From 463644c9ec9e9e78d84435396b52838e06d18ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 029/105] fix: find the tags of a container that has the name
 of an object

---
 src/server/pdc_server_metadata.c | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 5a3177d..5229a94 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2880,16 +2880,11 @@ PDC_Server_add_kvtag_someta(metadata_add_kvtag_in_t *in, metadata_add_tag_out_t
         if (target != NULL) {
             PDC_add_kvtag_to_list(&target->kvtag_list_head, &in->kvtag);
             out->ret = 1;
-        } // if (lookup_value != NULL)
-        else {
-            // Object not found
-            ret_value = FAIL;
-            out->ret  = -1;
         }
-    }      // if lookup_value != NULL
-    else { // look for containers
+    }                    // if lookup_value != NULL
+    if (out->ret != 1) { // look for containers, one may have the name of an object
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == in->obj_id) {
             PDC_add_kvtag_to_list(&cont_lookup_value->kvtag_list_head, &in->kvtag);
             out->ret = 1;
         }
@@ -3137,15 +3132,11 @@ PDC_Server_get_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_get_kvtag_out_
             PDC_get_kvtag_value_from_list(&target->kvtag_list_head, in->key, out);
             out->ret = 1;
         }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
     }
-    else {
+    if (out->ret != 1) { // look for containers, one may have the name of an object
 
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == obj_id) {
             PDC_get_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key, out);
             out->ret = 1;
         }
@@ -3336,16 +3327,10 @@ PDC_Server_del_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_add_tag_out_t
             ret_value = PDC_del_kvtag_value_from_list(&target->kvtag_list_head, in->key);
             out->ret  = 1;
         }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-            printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g,
-                   __func__, in->key);
-        }
     }
-    else {
+    if (out->ret != 1) { // look for containers, one may have the name of an object
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == obj_id) {
             PDC_del_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key);
             out->ret = 1;
         }
-- 
2.43.0


From d32edfbd2241fb474c0235073e218a4630dbce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 030/105] fix: compare the value of a tag query only within
 both sizes, return an object once

---
 src/server/pdc_server_metadata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 5229a94..92579eb 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1619,7 +1619,7 @@ _is_matching_kvtag(pdc_kvtag_t *in, pdc_kvtag_t *kvtag)
     }
     else { // FIXME: for all numeric types, we use memcmp to compare, for exact value query, but we also
            // have to support range query.
-        if (memcmp(in->value, kvtag->value, in->size) != 0)
+        if (in->size != kvtag->size || memcmp(in->value, kvtag->value, in->size) != 0)
             return FALSE;
     }
 
@@ -1848,7 +1848,7 @@ PDC_Server_query_kvtag_someta(pdc_kvtag_t *in, uint32_t *n_meta, uint64_t **obj_
                             *obj_ids = (void *)realloc(*obj_ids, alloc_size * sizeof(uint64_t));
                         }
                         (*obj_ids)[iter++] = elt->obj_id;
-                        // break; // FIXME: shall we break here? or continue to check other kvtags?
+                        break; // one matching tag is enough, report the object once
                     }
                     else {
 #ifdef PDC_DEBUG_OUTPUT
-- 
2.43.0


From 9be57bb379ed6ed1af56396d610196501e63c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 031/105] fix: send the default tag query value with its
 terminator

---
 src/api/pdc_client_connect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index e0dbfae..3af0cf3 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7378,7 +7378,7 @@ PDC_Client_query_kvtag_server(uint32_t server_id, const pdc_kvtag_t *kvtag, int
     if (kvtag->value == NULL) {
         in.value = " ";
         in.type  = PDC_STRING;
-        in.size  = 1;
+        in.size  = 2;
     }
     else {
         in.value = kvtag->value;
-- 
2.43.0


From ab48a25152b556faafb9eb4bf4dca39a7245c333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 032/105] fix: report tag operations the server could not carry
 out

---
 src/api/pdc_client_connect.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 3af0cf3..655b7fb 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7115,7 +7115,7 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1)
-        printf("PDC_CLIENT: add kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: add kvtag NOT successful ... ret_value = %d", lookup_args.ret);
 
 done:
     fflush(stdout);
@@ -7215,7 +7215,7 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1)
-        printf("PDC_CLIENT: get kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: get kvtag NOT successful ... ret_value = %d", lookup_args.ret);
 
 done:
     fflush(stdout);
@@ -7519,7 +7519,7 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1)
-        printf("PDC_CLIENT: del kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: del kvtag NOT successful ... ret_value = %d", lookup_args.ret);
 
 done:
     fflush(stdout);
-- 
2.43.0


From d2bbaba8bbeb3790806f6d7e05560fd9d7b8aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 033/105] fix: collective open of a container that does not
 exist fails

---
 src/api/pdc_obj/pdc_cont.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index 4366c41..a91885b 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -299,6 +299,8 @@ PDCcont_open_col(const char *cont_name, pdcid_t pdc)
     ret = PDC_Client_query_container_name_col(cont_name, &cont_meta_id);
     if (ret == FAIL)
         PGOTO_ERROR(0, "query container name failed");
+    if (cont_meta_id == 0)
+        PGOTO_ERROR(0, "query container not found");
     cont_id   = PDC_cont_create_local(pdc, cont_name, cont_meta_id);
     ret_value = cont_id;
 
-- 
2.43.0


From 47555ecc35149568f300625220c64297e3e70de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 034/105] fix: allocate enough room when the first objects are
 added to a container

---
 src/server/pdc_server_metadata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 92579eb..38b66e0 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2444,8 +2444,8 @@ PDC_Server_container_add_objs(int n_obj, uint64_t *obj_ids, uint64_t cont_id)
     if (cont_entry != NULL) {
         // Check if need to allocate space
         if (cont_entry->n_allocated == 0) {
-            cont_entry->n_allocated = PDC_ALLOC_BASE_NUM;
-            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), PDC_ALLOC_BASE_NUM);
+            cont_entry->n_allocated = n_obj > PDC_ALLOC_BASE_NUM ? n_obj : PDC_ALLOC_BASE_NUM;
+            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), cont_entry->n_allocated);
             total_mem_usage_g += sizeof(uint64_t) * cont_entry->n_allocated;
         }
         else if (cont_entry->n_allocated < cont_entry->n_obj + n_obj) {
-- 
2.43.0


From f725a04d6c8b976069c52980838e63cf9604f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 035/105] fix: a partial query without a dimension condition
 matches any number of dimensions

---
 src/server/pdc_server_metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 38b66e0..016c52c 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1526,7 +1526,7 @@ is_metadata_satisfy_constraint(pdc_metadata_t *metadata, metadata_query_transfer
         ret_value = -1;
         goto done;
     }
-    if (constraints->ndim > 0 && metadata->ndim != constraints->ndim) {
+    if ((int64_t)constraints->ndim > 0 && metadata->ndim != constraints->ndim) {
         ret_value = -1;
         goto done;
     }
-- 
2.43.0


From 85b714b59958426f892c54bda7596ba493f55b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 036/105] fix: collective open of an object that does not exist
 fails on every rank

---
 src/api/pdc_client_connect.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 655b7fb..6c8b984 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2442,6 +2442,8 @@ PDC_Client_query_metadata_name_timestep_agg(const char *obj_name, int time_step,
 #ifdef ENABLE_MPI
     if (pdc_client_mpi_rank_g == 0)
         ret_value = PDC_Client_query_metadata_name_timestep(obj_name, time_step, out, metadata_server_id);
+    if (pdc_client_mpi_rank_g == 0 && ret_value == SUCCEED && *out == NULL)
+        ret_value = FAIL;
 
     MPI_Bcast(&ret_value, 1, MPI_INT, 0, PDC_CLIENT_COMM_WORLD_g);
     if (ret_value != SUCCEED)
-- 
2.43.0


From 66a11adfabfd0107d18e742dca6f6984cf57b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 037/105] fix: free the reply of a tag query once

The reply's bulk handle is released by HG_Free_output; freeing it again in
the bulk callback, and freeing the output twice when nothing matched, used
freed memory.
---
 src/api/pdc_client_connect.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 6c8b984..1eac67d 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7231,8 +7231,7 @@ kvtag_query_bulk_cb(const struct hg_cb_info *hg_cb_info)
 {
     hg_return_t         ret_value = HG_SUCCESS;
     struct bulk_args_t *bulk_args;
-    hg_bulk_t           origin_bulk_handle = hg_cb_info->info.bulk.origin_handle;
-    hg_bulk_t           local_bulk_handle  = hg_cb_info->info.bulk.local_handle;
+    hg_bulk_t           local_bulk_handle = hg_cb_info->info.bulk.local_handle;
     uint32_t            n_meta, actual_cnt;
     void *              buf = NULL;
     uint64_t            buf_sizes[1];
@@ -7275,10 +7274,6 @@ kvtag_query_bulk_cb(const struct hg_cb_info *hg_cb_info)
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(ret_value, "Could not free HG bulk handle");
 
-    ret_value = HG_Bulk_free(origin_bulk_handle);
-    if (ret_value != HG_SUCCESS)
-        PGOTO_ERROR(ret_value, "Could not free HG bulk handle");
-
 done:
     hg_atomic_decr32(&bulk_todo_g);
     hg_atomic_cas32(&bulk_transfer_done_g, 0, 1);
@@ -7319,8 +7314,6 @@ kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
         // hg_atomic_decr32(&atomic_work_todo_g);
         bulk_arg->n_meta  = 0;
         bulk_arg->obj_ids = NULL;
-        HG_Free_output(handle, &output);
-        HG_Destroy(handle);
         PGOTO_DONE(ret_value);
     }
 
@@ -7350,6 +7343,9 @@ done:
     fflush(stdout);
     hg_atomic_decr32(&atomic_work_todo_g);
     HG_Free_output(handle, &output);
+    // With matches the handle is destroyed once their ids have been pulled
+    if (bulk_arg->n_meta == 0)
+        HG_Destroy(handle);
 
     FUNC_LEAVE(ret_value);
 }
-- 
2.43.0


From bae2328fc24abc663ca2e6085d3f992e5842469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 038/105] fix: resizing an object changes that object and all
 its dimensions

The request named the object by name and time step only, so with several
objects of that name another one could be resized; the third dimension was
set only for exactly three dimensions and the fourth never. A refused resize
or one with the wrong number of dimensions no longer changes the client's
copy (nor writes past it).
---
 src/api/include/pdc_client_connect.h          |  3 ++-
 src/api/pdc_client_connect.c                  | 17 +++++++----------
 src/api/pdc_obj/pdc_obj.c                     | 15 +++++++++++----
 src/server/include/pdc_client_server_common.h | 12 ++++++++++++
 src/server/pdc_client_server_common.c         |  7 +++++--
 5 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/api/include/pdc_client_connect.h b/src/api/include/pdc_client_connect.h
index acf8fa7..0abe453 100644
--- a/src/api/include/pdc_client_connect.h
+++ b/src/api/include/pdc_client_connect.h
@@ -883,7 +883,8 @@ perr_t PDC_Client_flush_obj_all();
  *
  * \return Non-negative on success/Negative on failure
  */
-perr_t PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_t *dims, int *reset);
+perr_t PDC_Client_obj_reset_dims(const char *obj_name, int time_step, uint64_t obj_id, int ndim,
+                                 uint64_t *dims, int *reset);
 
 /**
 
diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 1eac67d..ed232da 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2556,7 +2556,8 @@ PDC_Client_create_cont_id_mpi(const char *cont_name, pdcid_t cont_create_prop, p
 }
 
 perr_t
-PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_t *dims, int *reset)
+PDC_Client_obj_reset_dims(const char *obj_name, int time_step, uint64_t obj_id, int ndim, uint64_t *dims,
+                          int *reset)
 {
     perr_t                          ret_value = SUCCEED;
     hg_return_t                     hg_ret    = 0;
@@ -2586,16 +2587,12 @@ PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_
     in.obj_name   = obj_name;
     in.hash_value = PDC_get_hash_by_name(obj_name);
     in.time_step  = time_step;
+    in.obj_id     = obj_id;
     in.ndim       = ndim;
-    if (in.ndim >= 1) {
-        in.dims0 = dims[0];
-    }
-    if (in.ndim >= 2) {
-        in.dims1 = dims[1];
-    }
-    if (in.ndim >= 3) {
-        in.dims2 = dims[2];
-    }
+    in.dims0      = in.ndim >= 1 ? dims[0] : 0;
+    in.dims1      = in.ndim >= 2 ? dims[1] : 0;
+    in.dims2      = in.ndim >= 3 ? dims[2] : 0;
+    in.dims3      = in.ndim >= 4 ? dims[3] : 0;
 
     hg_ret = HG_Forward(obj_reset_dims_handle, obj_reset_dims_rpc_cb, &lookup_args, &in);
     if (hg_ret != HG_SUCCESS)
diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index cba789e..f94f4cb 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -972,12 +972,14 @@ PDCobj_set_dims(pdcid_t obj_id, int ndim, uint64_t *dims)
     perr_t                ret_value = SUCCEED;
     struct _pdc_id_info * info;
     struct _pdc_obj_info *object;
-    int                   reset;
+    int                   reset = 0;
 
     FUNC_ENTER(NULL);
     info = PDC_find_id(obj_id);
     if (info == NULL) {
         fprintf(stderr, "PDCobj_set_dims: cannnot find obj id @ line %d\n", __LINE__);
+        ret_value = FAIL;
+        goto done;
     }
     object = (struct _pdc_obj_info *)(info->obj_ptr);
     if (object->local_transfer_request_size) {
@@ -989,16 +991,21 @@ PDCobj_set_dims(pdcid_t obj_id, int ndim, uint64_t *dims)
     if (ndim != (int)((pdc_metadata_t *)(object->metadata))->ndim) {
         fprintf(stderr, "PDCobj_set_dims: input dimension size is wrong %d != %d @ line %d\n", ndim,
                 (int)object->obj_pt->obj_prop_pub->ndim, __LINE__);
+        ret_value = FAIL;
+        goto done;
     }
-    memcpy(object->obj_pt->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
-    memcpy(((pdc_metadata_t *)(object->metadata))->dims, dims, ndim * sizeof(uint64_t));
 
-    PDC_Client_obj_reset_dims(object->obj_info_pub->name, object->obj_pt->time_step, ndim, dims, &reset);
+    PDC_Client_obj_reset_dims(object->obj_info_pub->name, object->obj_pt->time_step,
+                              object->obj_info_pub->meta_id, ndim, dims, &reset);
 
     if (!reset) {
         // Server rejects reset object dims for some reasons, so we close this operation.
         ret_value = FAIL;
+        goto done;
     }
+    memcpy(object->obj_pt->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
+    memcpy(object->obj_info_pub->obj_pt->dims, dims, ndim * sizeof(uint64_t));
+    memcpy(((pdc_metadata_t *)(object->metadata))->dims, dims, ndim * sizeof(uint64_t));
 
 done:
     FUNC_LEAVE(ret_value);
diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index 98edcac..baf18b3 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -703,9 +703,11 @@ typedef struct {
     hg_const_string_t obj_name;
     uint32_t          hash_value;
     int32_t           time_step;
+    uint64_t          obj_id;
     uint64_t          dims0;
     uint64_t          dims1;
     uint64_t          dims2;
+    uint64_t          dims3;
     int32_t           ndim;
 } obj_reset_dims_in_t;
 
@@ -2320,6 +2322,16 @@ hg_proc_obj_reset_dims_in_t(hg_proc_t proc, void *data)
     hg_return_t          ret;
     obj_reset_dims_in_t *struct_data = (obj_reset_dims_in_t *)data;
 
+    ret = hg_proc_uint64_t(proc, &struct_data->obj_id);
+    if (ret != HG_SUCCESS) {
+        // HG_LOG_ERROR("Proc error");
+        return ret;
+    }
+    ret = hg_proc_uint64_t(proc, &struct_data->dims3);
+    if (ret != HG_SUCCESS) {
+        // HG_LOG_ERROR("Proc error");
+        return ret;
+    }
     ret = hg_proc_hg_const_string_t(proc, &struct_data->obj_name);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index d90f83b..68d8ed1 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -1774,7 +1774,7 @@ HG_TEST_RPC_CB(obj_reset_dims, handle)
     }
 
     // Get the metdata_t struct.
-    PDC_Server_search_with_name_timestep(in.obj_name, in.hash_value, in.time_step, &query_result);
+    query_result = PDC_Server_get_obj_metadata(in.obj_id);
 
     // Convert for transfer
     if (query_result != NULL) {
@@ -1785,9 +1785,12 @@ HG_TEST_RPC_CB(obj_reset_dims, handle)
         if (in.ndim >= 2) {
             query_result->dims[1] = in.dims1;
         }
-        if (in.ndim == 3) {
+        if (in.ndim >= 3) {
             query_result->dims[2] = in.dims2;
         }
+        if (in.ndim >= 4) {
+            query_result->dims[3] = in.dims3;
+        }
     }
     else {
         out.ret = 1;
-- 
2.43.0


From f5d95c2a6c673e7f0cc4d2c7118cc057050dba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 039/105] fix: a refused collective object creation fails on
 every rank

The creating rank dereferenced a NULL handle when the name was taken, and the
other ranks would have kept an object without an id.
---
 src/api/pdc_obj/pdc_mpi.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_mpi.c b/src/api/pdc_obj/pdc_mpi.c
index 4db4d04..607dd76 100644
--- a/src/api/pdc_obj/pdc_mpi.c
+++ b/src/api/pdc_obj/pdc_mpi.c
@@ -35,7 +35,7 @@ PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, in
     pdcid_t               ret_value = SUCCEED;
     struct _pdc_obj_info *p         = NULL;
     struct _pdc_id_info * id_info   = NULL;
-    int                   rank;
+    int                   rank, created;
 
     FUNC_ENTER(NULL);
 
@@ -46,6 +46,15 @@ PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, in
     else
         ret_value = PDC_obj_create(cont_id, obj_name, obj_prop_id, PDC_OBJ_LOCAL);
 
+    // The object exists on all ranks or on none
+    created = ret_value != 0;
+    MPI_Bcast(&created, 1, MPI_INT, rank_id, comm);
+    if (!created) {
+        if (ret_value != 0)
+            PDCobj_close(ret_value);
+        return 0;
+    }
+
     id_info = PDC_find_id(ret_value);
     p       = (struct _pdc_obj_info *)(id_info->obj_ptr);
 
-- 
2.43.0


From 201e97b80d44e26297c7c5fb4d9cb57b99908963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 040/105] fix: keep the addresses of all clients connected to a
 server

Every client announces itself to its server with is_init set, and each
announcement threw away the addresses of the clients that had connected
before; servers contacted later kept the table of the previous application
run and wrote past it when the new one had more ranks.
---
 src/server/pdc_server.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index d73fd9b..8ad25e7 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -277,7 +277,8 @@ PDC_Server_get_client_addr(const struct hg_cb_info *callback_info)
     hg_thread_mutex_lock(&pdc_client_addr_mutex_g);
 #endif
 
-    if (pdc_client_info_g && in->is_init == 1) {
+    // A different number of clients means that another application run has started
+    if (pdc_client_info_g && in->nclient != pdc_client_num_g) {
         if (is_debug_g && pdc_server_rank_g == 0) {
             printf("==PDC_SERVER[%d]: new application run detected, create new client info\n",
                    pdc_server_rank_g);
@@ -304,9 +305,23 @@ PDC_Server_get_client_addr(const struct hg_cb_info *callback_info)
             PDC_client_info_init(&pdc_client_info_g[i]);
     }
 
+    if (in->client_id < 0 || in->client_id >= pdc_client_num_g) {
+        printf("==PDC_SERVER: PDC_Server_get_client_addr - invalid client id %d\n", in->client_id);
+        ret_value = FAIL;
+        goto unlock;
+    }
+
+    // The client in this place may belong to an earlier run, forget how to reach it
+    if (pdc_client_info_g[in->client_id].addr_valid == 1 &&
+        strcmp(pdc_client_info_g[in->client_id].addr_string, in->client_addr) != 0) {
+        HG_Addr_free(hg_class_g, pdc_client_info_g[in->client_id].addr);
+        pdc_client_info_g[in->client_id].addr_valid = 0;
+    }
+
     // Copy the client's address
     memcpy(pdc_client_info_g[in->client_id].addr_string, in->client_addr, sizeof(char) * ADDR_MAX);
 
+unlock:
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&pdc_client_info_mutex_g);
 #endif
-- 
2.43.0


From aaacb7d55bd8a6de5a725fefa3f507eb2ead8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 041/105] fix: a 2D or 3D write reads the user buffer with the
 object's row length

The local region is a subarray of a buffer that aligns to the object's
dimensions, as the read path has it.
---
 src/api/pdc_region/pdc_region_transfer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index ee4e48c..7cf044d 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -537,7 +537,7 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
         if (access_type == PDC_WRITE) {
             ptr = *new_buf;
             for (i = 0; i < local_size[0]; ++i) {
-                memcpy(ptr, buf + ((local_offset[0] + i) * local_size[1] + local_offset[1]) * unit,
+                memcpy(ptr, buf + ((local_offset[0] + i) * obj_dims[1] + local_offset[1]) * unit,
                        local_size[1] * unit);
                 ptr += local_size[1] * unit;
             }
@@ -550,8 +550,8 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
             for (i = 0; i < local_size[0]; ++i) {
                 for (j = 0; j < local_size[1]; ++j) {
                     memcpy(ptr,
-                           buf + ((local_offset[0] + i) * local_size[1] * local_size[2] +
-                                  (local_offset[1] + j) * local_size[2] + local_offset[2]) *
+                           buf + ((local_offset[0] + i) * obj_dims[1] * obj_dims[2] +
+                                  (local_offset[1] + j) * obj_dims[2] + local_offset[2]) *
                                      unit,
                            local_size[2] * unit);
                     ptr += local_size[2] * unit;
-- 
2.43.0


From b2061289a1f7b24b78d0bedf75d25d80b105edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 042/105] fix: removing the newest transfer request of an
 object updates the list's end

---
 src/api/pdc_region/pdc_region_transfer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 7cf044d..3d83271 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -366,6 +366,8 @@ remove_local_transfer_request(struct _pdc_obj_info *p, pdcid_t transfer_request_
             else {
                 // Not the first element, just take the current element away.
                 previous->next = temp->next;
+                if (p->local_transfer_request_end == temp)
+                    p->local_transfer_request_end = previous;
                 free(temp);
             }
             p->local_transfer_request_size--;
-- 
2.43.0


From 2b0c4d300447bbc4acda565c0871fab69df271cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 043/105] fix: closing an object waits for its transfer
 requests without using freed list nodes

---
 src/api/pdc_obj/pdc_obj.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index f94f4cb..1fec56a 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -394,7 +394,7 @@ PDC_obj_close(struct _pdc_obj_info *op)
 {
     perr_t                      ret_value = SUCCEED;
     pdcid_t *                   transfer_request_id;
-    pdc_local_transfer_request *temp, *previous;
+    pdc_local_transfer_request *temp;
     int                         i;
 
     FUNC_ENTER(NULL);
@@ -405,15 +405,11 @@ PDC_obj_close(struct _pdc_obj_info *op)
         i                   = 0;
         while (temp != NULL) {
             transfer_request_id[i] = temp->local_id;
-            previous               = temp;
             temp                   = temp->next;
-            free(previous);
             ++i;
         }
-        PDCregion_transfer_wait_all(transfer_request_id, op->local_transfer_request_size);
-        for (i = 0; i < op->local_transfer_request_size; ++i) {
-            PDCregion_transfer_close(transfer_request_id[i]);
-        }
+        // The wait detaches the requests from this object (and frees the list nodes).
+        PDCregion_transfer_wait_all(transfer_request_id, i);
         free(transfer_request_id);
     }
 
-- 
2.43.0


From 6311bd0c5088e33ce7b4f168e1f084984d0996b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 044/105] fix: closing a transfer request waits for it and
 releases it

---
 src/api/pdc_region/pdc_region_transfer.c | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 3d83271..8785534 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -287,20 +287,11 @@ PDCregion_transfer_close(pdcid_t transfer_request_id)
         goto done;
     }
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
-    if (transfer_request->metadata_id == NULL) {
-        goto done;
+    // A request that has been started and not waited for is waited for here.
+    if (transfer_request->metadata_id != NULL) {
+        ret_value = PDCregion_transfer_wait(transfer_request_id);
     }
-
-    // Check for consistency
-    /*
-        pdc_consistency_t consistency = transfer_request->consistency;
-        if (consistency == PDC_CONSISTENCY_POSIX || consistency == PDC_CONSISTENCY_COMMIT ||
-            consistency == PDC_CONSISTENCY_SESSION) {
-            PDCregion_transfer_wait(transfer_request_id);
-        }
-    */
     free(transfer_request->local_region_offset);
-    free(transfer_request->metadata_id);
     free(transfer_request);
 
     /* When the reference count reaches zero the resources are freed */
-- 
2.43.0


From f1a9e0b5302f3eb55f2be776bd696d2de622c669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 045/105] fix: a completed transfer request can be started
 again

Stale buffers of the previous run were released a second time.
---
 src/api/pdc_region/pdc_region_transfer.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 8785534..33d508b 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1670,7 +1670,12 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
                 transfer_request->bulk_buf, transfer_request->bulk_buf_ref, transfer_request->read_bulk_buf);
         }
         free(transfer_request->metadata_id);
-        transfer_request->metadata_id = NULL;
+        transfer_request->metadata_id   = NULL;
+        transfer_request->new_buf       = NULL;
+        transfer_request->read_bulk_buf = NULL;
+        transfer_request->bulk_buf      = NULL;
+        transfer_request->bulk_buf_ref  = NULL;
+        transfer_request->output_buf    = NULL;
         remove_local_transfer_request(transfer_request->obj_pointer, transfer_request_id);
     }
     else {
@@ -1873,7 +1878,12 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
             free(transfer_request->obj_servers);
         }
         free(transfer_request->metadata_id);
-        transfer_request->metadata_id = NULL;
+        transfer_request->metadata_id   = NULL;
+        transfer_request->new_buf       = NULL;
+        transfer_request->read_bulk_buf = NULL;
+        transfer_request->bulk_buf      = NULL;
+        transfer_request->bulk_buf_ref  = NULL;
+        transfer_request->output_buf    = NULL;
         remove_local_transfer_request(transfer_request->obj_pointer, transfer_request_id[i]);
     }
 
@@ -1982,7 +1992,12 @@ PDCregion_transfer_wait(pdcid_t transfer_request_id)
                 transfer_request->bulk_buf, transfer_request->bulk_buf_ref, transfer_request->read_bulk_buf);
         }
         free(transfer_request->metadata_id);
-        transfer_request->metadata_id = NULL;
+        transfer_request->metadata_id   = NULL;
+        transfer_request->new_buf       = NULL;
+        transfer_request->read_bulk_buf = NULL;
+        transfer_request->bulk_buf      = NULL;
+        transfer_request->bulk_buf_ref  = NULL;
+        transfer_request->output_buf    = NULL;
         remove_local_transfer_request(transfer_request->obj_pointer, transfer_request_id);
     }
     else {
-- 
2.43.0


From c26c155ab49af588c7af19bcde5d4720f753de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 046/105] fix: the status of a transfer request that spans
 several servers reaches COMPLETE

A server forgets a request when it reports it complete, so that a second
poll of that server gives NOT_FOUND while another one is still pending.
---
 src/api/pdc_region/pdc_region_transfer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 33d508b..c25a2e7 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1601,11 +1601,13 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
                                                                transfer_request->obj_servers[i], completed);
-                if (*completed != PDC_TRANSFER_STATUS_COMPLETE) {
+                // A server that reported its part complete earlier does not know the request any more.
+                if (ret_value != SUCCEED || *completed == PDC_TRANSFER_STATUS_PENDING) {
                     goto done;
                 }
             }
             // If we reach here, then all transfers are finished.
+            *completed = PDC_TRANSFER_STATUS_COMPLETE;
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 // printf("finished waiting for data from server %d, output_offsets = %lu, output_size = %lu,
                 // metadata_id = %lu\n", transfer_request->obj_servers[i],
-- 
2.43.0


From a86102c02b6d96191751f9a7b61946002e863fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 047/105] fix: waiting for a batch answers when a request of it
 was already reported complete

---
 .../pdc_server_region/pdc_server_region_request_handler.h       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_request_handler.h b/src/server/pdc_server_region/pdc_server_region_request_handler.h
index 04ab484..ce59214 100644
--- a/src/server/pdc_server_region/pdc_server_region_request_handler.h
+++ b/src/server/pdc_server_region/pdc_server_region_request_handler.h
@@ -277,7 +277,7 @@ transfer_request_wait_all_bulk_transfer_cb(const struct hg_cb_info *info)
         if (status == PDC_TRANSFER_STATUS_PENDING) {
             PDC_try_finish_request(transfer_request_id, local_bulk_args->handle, handle_ref, 1);
         }
-        if (status != PDC_TRANSFER_STATUS_COMPLETE) {
+        if (status == PDC_TRANSFER_STATUS_PENDING) {
             fast_return = 0;
         }
     }
-- 
2.43.0


From 75e35ab8c05edaa8dc719981706b6d356942baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 048/105] fix: a batch of transfer requests is checked before
 any of it is started

A batch that was refused left its earlier requests half started.
---
 src/api/pdc_region/pdc_region_transfer.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index c25a2e7..9c74e85 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -920,8 +920,14 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
     posix_size_ptr[0]              = 0;
     *posix_transfer_request_id_ptr = (pdcid_t *)malloc(sizeof(pdcid_t) * size);
 
+    // Nothing is started unless all requests can be started.
     for (i = 0; i < size; ++i) {
-        transferinfo     = PDC_find_id(transfer_request_id[i]);
+        transferinfo = PDC_find_id(transfer_request_id[i]);
+        if (transferinfo == NULL) {
+            printf("PDC Client PDCregion_transfer_start_all cannot locate transfer request @ line %d\n",
+                   __LINE__);
+            return FAIL;
+        }
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         if (transfer_request->metadata_id != NULL) {
             printf("PDC Client PDCregion_transfer_start_all attempt to start existing transfer request @ "
@@ -929,6 +935,11 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
                    __LINE__);
             return FAIL;
         }
+    }
+
+    for (i = 0; i < size; ++i) {
+        transferinfo     = PDC_find_id(transfer_request_id[i]);
+        transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         if (transfer_request->consistency == PDC_CONSISTENCY_POSIX) {
             posix_transfer_request_id_ptr[0][posix_size_ptr[0]] = transfer_request_id[i];
             posix_size_ptr[0]++;
@@ -1322,6 +1333,10 @@ PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
     ret_value = prepare_start_all_requests(transfer_request_id, size, &write_transfer_requests,
                                            &read_transfer_requests, &write_size, &read_size,
                                            &posix_transfer_request_id, &posix_size);
+    if (ret_value != SUCCEED) {
+        free(posix_transfer_request_id);
+        goto done;
+    }
     /*
         printf("PDCregion_transfer_start_all: checkpoint %d, write_size = %d, read_size = %d\n", __LINE__,
                write_size, read_size);
@@ -1350,6 +1365,7 @@ PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
     finish_start_all_requests(write_transfer_requests, read_transfer_requests, write_size, read_size);
     // fprintf(stderr, "PDCregion_transfer_start_all: checkpoint %d\n", __LINE__);
     // MPI_Barrier(MPI_COMM_WORLD);
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -1436,7 +1452,7 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
     // Aggregated method will take care of this type of operation.
     if (transfer_request->region_partition == PDC_REGION_DYNAMIC ||
         transfer_request->region_partition == PDC_REGION_LOCAL) {
-        PDCregion_transfer_start_all(&transfer_request_id, 1);
+        ret_value = PDCregion_transfer_start_all(&transfer_request_id, 1);
         goto done;
     }
 
-- 
2.43.0


From 135592fa3b9fc4c068511e5a7d45e260ab060b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 049/105] fix: reading where nothing was written works with
 dynamic and local region partition

The reply of the metadata server has no entry for such a request (and was
written past its end when the object is not known there); the request stayed
without the memory that the completion releases.
---
 src/api/pdc_region/pdc_region_transfer.c      | 77 +++++++++++--------
 ...dc_server_region_transfer_metadata_query.c |  6 +-
 2 files changed, 49 insertions(+), 34 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 9c74e85..009f3a2 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -624,8 +624,23 @@ pack_region_metadata_query(pdc_transfer_request_start_all_pkg **transfer_request
     FUNC_LEAVE(ret_value);
 }
 
+/*
+ * Allocate what describes the parts of a request that go to different data servers.
+ */
+static void
+set_obj_server_entries(pdc_transfer_request *local_request, int n_obj_servers)
+{
+    local_request->n_obj_servers  = n_obj_servers;
+    local_request->output_offsets = (uint64_t **)malloc(sizeof(uint64_t *) * n_obj_servers);
+    local_request->output_sizes   = (uint64_t **)malloc(sizeof(uint64_t *) * n_obj_servers);
+    local_request->sub_offsets    = (uint64_t **)malloc(sizeof(uint64_t *) * n_obj_servers);
+    local_request->obj_servers    = (uint32_t *)malloc(sizeof(uint32_t) * n_obj_servers);
+    set_obj_server_bufs(local_request);
+}
+
 static perr_t
-unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **transfer_request_input,
+unpack_region_metadata_query(char *buf, int n_objs,
+                             pdc_transfer_request_start_all_pkg **transfer_request_input,
                              pdc_transfer_request_start_all_pkg **transfer_request_head_ptr,
                              pdc_transfer_request_start_all_pkg **transfer_request_end_ptr, int *size_ptr)
 {
@@ -648,7 +663,7 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
     ptr += sizeof(int);
     // printf("unpack_region_metadata_query: received %d obj partitions\n", size);
     counter = 0;
-    index   = 0;
+    index   = -1;
     for (i = 0; i < size; ++i) {
         if (transfer_request_head) {
             transfer_request_end->next =
@@ -661,21 +676,13 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
             transfer_request_end = transfer_request_head;
         }
         // Obj ID + Obj dim + region offset + region size
-        if (!counter) {
+        // A request that does not touch any registered region has no entry.
+        while (!counter) {
             counter = *(int *)ptr;
             ptr += sizeof(int);
+            index++;
             local_request                = transfer_request_input[index]->transfer_request;
-            local_request->n_obj_servers = counter;
-            local_request->output_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->output_sizes =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->sub_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->obj_servers = (uint32_t *)malloc(sizeof(uint32_t) * local_request->n_obj_servers);
-            // printf("unpack_region_metadata_query: checkpoint %d, local_request = %llu, index = %d\n",
-            // __LINE__, (long long unsigned) local_request, index);
-            set_obj_server_bufs(local_request);
+            set_obj_server_entries(local_request, counter);
         }
         transfer_request_end->next             = NULL;
         transfer_request_end->transfer_request = local_request;
@@ -727,12 +734,14 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
                              transfer_request_end->remote_size);
         }
         counter--;
-        if (!counter) {
-            index++;
-        }
         // printf("unpack_region_metadata_query: @ line %d\n", __LINE__);
     }
 
+    // Requests after the last entry do not touch any registered region either.
+    for (index = index + 1; index < n_objs; ++index) {
+        set_obj_server_entries(transfer_request_input[index]->transfer_request, 0);
+    }
+
     *transfer_request_head_ptr = transfer_request_head;
     *transfer_request_end_ptr  = transfer_request_end;
     *size_ptr += size;
@@ -801,17 +810,19 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                     output_buf, output_buf_size, query_id,
                     transfer_requests[index]->transfer_request->metadata_server_id);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-                unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
+                unpack_region_metadata_query(output_buf, n_objs, transfer_requests + index, &transfer_request_head,
                                              &transfer_request_end, &output_size);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
                 free(output_buf);
-                if (transfer_request_front_head) {
-                    previous->next = transfer_request_head;
-                }
-                else {
-                    transfer_request_front_head = transfer_request_head;
+                if (transfer_request_head) {
+                    if (transfer_request_front_head) {
+                        previous->next = transfer_request_head;
+                    }
+                    else {
+                        transfer_request_front_head = transfer_request_head;
+                    }
+                    previous = transfer_request_end;
                 }
-                previous = transfer_request_end;
             }
             index = i;
         }
@@ -840,21 +851,23 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                 output_buf, output_buf_size, query_id,
                 transfer_requests[index]->transfer_request->metadata_server_id);
             // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-            unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
+            unpack_region_metadata_query(output_buf, n_objs, transfer_requests + index, &transfer_request_head,
                                          &transfer_request_end, &output_size);
             // fprintf(stderr, "register_metadata: output_size = %d, checkpoint %d\n", output_size, __LINE__);
             free(output_buf);
-            if (transfer_request_front_head) {
-                previous->next = transfer_request_head;
-            }
-            else {
-                transfer_request_front_head = transfer_request_head;
+            if (transfer_request_head) {
+                if (transfer_request_front_head) {
+                    previous->next = transfer_request_head;
+                }
+                else {
+                    transfer_request_front_head = transfer_request_head;
+                }
+                previous = transfer_request_end;
             }
-            previous = transfer_request_end;
         }
     }
 
-    if (output_size) {
+    if (size) {
         transfer_request_output = (pdc_transfer_request_start_all_pkg **)malloc(
             sizeof(pdc_transfer_request_start_all_pkg *) * (output_size + remain_size));
         transfer_request_head = transfer_request_front_head;
diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 4e41132..3b1cc15 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -283,13 +283,15 @@ metadata_query_buf_create(pdc_obj_region_metadata *regions, int size, uint64_t *
                 region_metadata = region_metadata->next;
             }
             transfer_request_counter_total += transfer_request_counters[i];
-            total_data_size += sizeof(int) + transfer_request_counters[i] *
-                                                 (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
+            total_data_size +=
+                transfer_request_counters[i] * (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
         }
         else {
             printf("metadata_query_buf_create: Unable to find the object with ID %lu\n",
                    (long int)regions[i].obj_id);
         }
+        // The number of overlaps is written for each of the requests.
+        total_data_size += sizeof(int);
     }
     if (!total_data_size) {
         query_id = 0;
-- 
2.43.0


From 160fa1f1ca8e800bf2a80af60c246e8346ede6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:14 +0000
Subject: [PATCH 050/105] fix: a write updates every cached region it overlaps

The search stopped at the first region that contains the write; regions
after it kept the old data, and were later read or flushed.
---
 .../pdc_server_region/pdc_server_region_cache.c   | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 40564e7..8c56503 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -518,7 +518,7 @@ PDC_transfer_request_data_write_out(uint64_t obj_id, int obj_ndim, const uint64_
                                     struct pdc_region_info *region_info, void *buf, size_t unit)
 {
     // flag indicates whether the input region is fully contained in another cached region.
-    int               flag;
+    int               flag = 0;
     pdc_obj_cache *   obj_cache, *obj_cache_iter;
     pdc_region_cache *region_cache_iter;
     uint64_t *        overlap_offset, *overlap_size;
@@ -554,29 +554,26 @@ PDC_transfer_request_data_write_out(uint64_t obj_id, int obj_ndim, const uint64_
         }
         obj_cache_iter = obj_cache_iter->next;
     }
-    flag = 0;
     if (obj_cache != NULL) {
         // If we have region that is contained inside a cached region, we can directly modify the cache region
         // data.
         region_cache_iter = obj_cache->region_cache;
         while (region_cache_iter != NULL) {
-            flag = 0;
             PDC_region_overlap_detect(region_info->ndim, region_info->offset, region_info->size,
                                       region_cache_iter->region_cache_info->offset,
                                       region_cache_iter->region_cache_info->size, &overlap_offset,
                                       &overlap_size);
             if (overlap_offset) {
-                flag = detect_region_contained(region_info->offset, region_info->size,
-                                               region_cache_iter->region_cache_info->offset,
-                                               region_cache_iter->region_cache_info->size, region_info->ndim);
+                if (detect_region_contained(region_info->offset, region_info->size,
+                                            region_cache_iter->region_cache_info->offset,
+                                            region_cache_iter->region_cache_info->size, region_info->ndim)) {
+                    flag = 1;
+                }
                 memcpy_overlap_subregion(
                     region_info->ndim, unit, buf, region_info->offset, region_info->size,
                     region_cache_iter->region_cache_info->buf, region_cache_iter->region_cache_info->offset,
                     region_cache_iter->region_cache_info->size, overlap_offset, overlap_size);
                 free(overlap_offset);
-                if (flag) {
-                    break;
-                }
             }
             /*
              else {
-- 
2.43.0


From 93018bc07dad2e58f8aef8d6b1510b259c7dfa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:14 +0000
Subject: [PATCH 051/105] fix: a cached object is not used after a full cache
 was flushed

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 8c56503..aa10d7f 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -471,6 +471,7 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     memcpy(region_cache_info->size, size, sizeof(uint64_t) * ndim);
     memcpy(region_cache_info->buf, buf, sizeof(char) * buf_size);
     total_cache_size += buf_size;
+    gettimeofday(&(obj_cache->timestamp), NULL);
 
     pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
 
@@ -487,8 +488,6 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     // printf("created cache region at offset %llu, buf size %llu, unit = %ld, ndim = %ld, obj_id = %llu\n",
     //       offset[0], buf_size, unit, ndim, (long long unsigned)obj_cache->obj_id);
 
-    gettimeofday(&(obj_cache->timestamp), NULL);
-
     return 0;
 }
 
-- 
2.43.0


From 90fb36b217a849df136bf27fbed7ab7c5410f966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:14 +0000
Subject: [PATCH 052/105] fix: merging cached 1D regions takes the tail of a
 region at its byte offset

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index aa10d7f..17c5c01 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -650,7 +650,8 @@ merge_requests(uint64_t *start, uint64_t *end, int request_size, char **buf, uin
         }
         else {
             if (end[i] > new_end[0][index]) {
-                memcpy(ptr, buf[i] + new_end[0][index] - start[i], (end[i] - new_end[0][index]) * unit);
+                memcpy(ptr, buf[i] + (new_end[0][index] - start[i]) * unit,
+                       (end[i] - new_end[0][index]) * unit);
                 ptr += (end[i] - new_end[0][index]) * unit;
                 new_end[0][index] = end[i];
             }
-- 
2.43.0


From a444f9b20130a2d74cc07dfd40aab3fbfc9b5276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:14 +0000
Subject: [PATCH 053/105] fix: a 1D write into the later part of a larger
 stored region is not refused

---
 src/server/pdc_server_region/pdc_server_data.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 9b3ae5b..643517f 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -4789,13 +4789,6 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
             if (region_info->ndim == 1) {
                 // 1D can overwrite data in region directly
                 pos = (overlap_offset[0] - overlap_region->start[0]) * unit;
-                if (pos > write_size) {
-                    printf("==PDC_SERVER[%d]: Error with buf pos calculation %llu / %llu! @ line %d\n",
-                           pdc_server_rank_g, pos, write_size, __LINE__);
-                    ret_value = -1;
-                    goto done;
-                }
-
                 lseek(region->fd, overlap_region->offset + pos, SEEK_SET);
 #ifdef PDC_TIMING
                 start_posix = MPI_Wtime();
-- 
2.43.0


From e8a63104f367bcd2f36abcdce1252581736208d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 054/105] fix: waiting for a batch skips requests that have
 already completed

As the wait for a single request does. A batch with a request of an object
with POSIX consistency, whose start includes the wait, was refused and its
other requests were not waited for.
---
 src/api/pdc_region/pdc_region_transfer.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 009f3a2..eff70d9 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1742,14 +1742,9 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
     for (i = 0; i < size; ++i) {
         transferinfo     = PDC_find_id(transfer_request_id[i]);
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
-        if (!transfer_request->metadata_id) {
-            fprintf(stderr,
-                    "PDCregion_transfer_wait_all [rank %d] @ line %d: Attempt to wait for a transfer request "
-                    "that has not been started.\n",
-                    pdc_client_mpi_rank_g, __LINE__);
-            ret_value = FAIL;
-            goto done;
-        }
+        // metadata is freed with previous wait (e.g. with posix consistency)
+        if (!transfer_request->metadata_id)
+            continue;
         total_requests += transfer_request->n_obj_servers;
         for (j = 0; j < transfer_request->n_obj_servers; ++j) {
             if (transfer_request_head) {
@@ -1884,6 +1879,8 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
         transferinfo     = PDC_find_id(transfer_request_id[i]);
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         unit             = transfer_request->unit;
+        if (!transfer_request->metadata_id)
+            continue;
 
         if (transfer_request->region_partition == PDC_OBJ_STATIC &&
             transfer_request->access_type == PDC_READ) {
-- 
2.43.0


From b10f4272b061b452b764c832513d457407336c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 055/105] fix: static region partition sends nothing to a
 server that has no part of the object

With more servers than elements along the split dimension an empty region was
sent, whose data the server tried to look up.
---
 src/api/pdc_region/pdc_region_transfer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index eff70d9..842509d 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -434,6 +434,9 @@ static_region_partition(char *buf, int ndim, uint64_t unit, pdc_access_t access_
             static_offset = x * s + (i - x) * (s + 1);
             static_size   = s + 1;
         }
+        // No part of the object belongs to this server.
+        if (static_size == 0)
+            continue;
         // printf("static offset = %lu, static_size = %lu, offset = %lu, size = %lu\n", (long
         // unsigned)static_offset, (long unsigned)static_size, (long unsigned)offset[split_dim], (long
         // unsigned)size[split_dim]);
-- 
2.43.0


From 4dec7dc4b868e95754867a8beae09d4eefba38a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 056/105] fix: the checkpoint of region placements stores the
 offsets, and restores every region

---
 .../pdc_server_region_transfer_metadata_query.c          | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 3b1cc15..963df47 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -79,14 +79,15 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
         for (i = 0; i < n_objs; ++i) {
             if (metadata_server_objs) {
                 metadata_server_objs_end->next =
-                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs_end->next;
             }
             else {
-                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs;
             }
 
+            metadata_server_objs_end->next   = NULL;
             metadata_server_objs_end->obj_id = *(uint64_t *)ptr;
             ptr += sizeof(uint64_t);
             metadata_server_objs_end->ndim = *(int *)ptr;
@@ -110,7 +111,7 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
             ptr += sizeof(uint64_t) * metadata_server_objs_end->ndim * 2;
 
             for (j = 1; j < reg_count; ++j) {
-                metadata_server_objs_end->regions->next =
+                metadata_server_objs_end->regions_end->next =
                     (pdc_region_metadata_pkg *)malloc(sizeof(pdc_region_metadata_pkg));
                 metadata_server_objs_end->regions_end = metadata_server_objs_end->regions_end->next;
 
@@ -226,7 +227,7 @@ transfer_request_metadata_query_checkpoint(char **checkpoint, uint64_t *checkpoi
         while (region_temp) {
             memcpy(ptr, &(region_temp->data_server_id), sizeof(uint32_t));
             ptr += sizeof(uint32_t);
-            memcpy(ptr, &(region_temp->reg_offset), sizeof(uint64_t) * obj_temp->ndim * 2);
+            memcpy(ptr, region_temp->reg_offset, sizeof(uint64_t) * obj_temp->ndim * 2);
             ptr += sizeof(uint64_t) * obj_temp->ndim * 2;
             region_temp = region_temp->next;
         }
-- 
2.43.0


From 0483a1439449b51f004c4d6ebc912d0fcff27b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 057/105] fix: objects restored from a checkpoint are counted,
 and owned one by one

The object count was reset to 0 after restoring, so listing all metadata
wrote past its result array; and the objects sharing a name hash were parts
of one allocation.
---
 src/server/pdc_server.c          | 55 +++++++++++++++-----------------
 src/server/pdc_server_metadata.c |  8 ++---
 2 files changed, 28 insertions(+), 35 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 8ad25e7..6e001de 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1010,7 +1010,6 @@ drc_access_again:
     // Initalize atomic variable to finalize server
     hg_atomic_set32(&close_server_g, 0);
 
-    n_metadata_g = 0;
 
     // Initialize DART
     PDC_Server_dart_init();
@@ -1478,7 +1477,7 @@ PDC_Server_restart(char *filename)
     int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0,
                               n_kvtag, key_len;
     int                          n_cont, all_cont;
-    pdc_metadata_t *             metadata, *elt;
+    pdc_metadata_t *             metadata;
     region_list_t *              region_list;
     pdc_hash_table_entry_head *  entry;
     pdc_cont_hash_table_entry_t *cont_entry;
@@ -1567,21 +1566,21 @@ PDC_Server_restart(char *filename)
         // Init hash table metadata (w/ bloom) with first obj
         PDC_Server_hash_table_list_init(entry, hash_key);
 
-        metadata = (pdc_metadata_t *)calloc(sizeof(pdc_metadata_t), count);
         for (i = 0; i < count; i++) {
-            if (fread(metadata + i, sizeof(pdc_metadata_t), 1, file) != 1) {
+            metadata = (pdc_metadata_t *)calloc(1, sizeof(pdc_metadata_t));
+            if (fread(metadata, sizeof(pdc_metadata_t), 1, file) != 1) {
                 printf("Read failed for metadata\n");
             }
 
-            (metadata + i)->storage_region_list_head       = NULL;
-            (metadata + i)->region_lock_head               = NULL;
-            (metadata + i)->region_map_head                = NULL;
-            (metadata + i)->region_buf_map_head            = NULL;
-            (metadata + i)->bloom                          = NULL;
-            (metadata + i)->prev                           = NULL;
-            (metadata + i)->next                           = NULL;
-            (metadata + i)->kvtag_list_head                = NULL;
-            (metadata + i)->all_storage_region_distributed = 0;
+            metadata->storage_region_list_head       = NULL;
+            metadata->region_lock_head               = NULL;
+            metadata->region_map_head                = NULL;
+            metadata->region_buf_map_head            = NULL;
+            metadata->bloom                          = NULL;
+            metadata->prev                           = NULL;
+            metadata->next                           = NULL;
+            metadata->kvtag_list_head                = NULL;
+            metadata->all_storage_region_distributed = 0;
 
             // Read kv tags
             if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
@@ -1607,7 +1606,7 @@ PDC_Server_restart(char *filename)
                 if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
                     printf("Read failed for kvtag_list->kvtag->value\n");
                 }
-                DL_APPEND((metadata + i)->kvtag_list_head, kvtag_list);
+                DL_APPEND(metadata->kvtag_list_head, kvtag_list);
             }
 
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
@@ -1672,7 +1671,7 @@ PDC_Server_restart(char *filename)
                     region_list->data_size *= region_list->count[idx];
                 region_list->is_data_ready            = 0;
                 region_list->shm_fd                   = 0;
-                region_list->meta                     = (metadata + i);
+                region_list->meta                     = metadata;
                 region_list->prev                     = NULL;
                 region_list->next                     = NULL;
                 region_list->overlap_storage_regions  = NULL;
@@ -1683,7 +1682,7 @@ PDC_Server_restart(char *filename)
                 region_list->bulk_handle        = NULL;
                 region_list->lock_handle        = NULL;
                 region_list->addr               = NULL;
-                region_list->obj_id             = (metadata + i)->obj_id;
+                region_list->obj_id             = metadata->obj_id;
                 region_list->reg_id             = 0;
                 region_list->from_obj_id        = 0;
                 region_list->client_id          = 0;
@@ -1700,29 +1699,25 @@ PDC_Server_restart(char *filename)
                     region_list->data_loc_type = PDC_LUSTRE;
                 }
 
-                DL_APPEND((metadata + i)->storage_region_list_head, region_list);
+                DL_APPEND(metadata->storage_region_list_head, region_list);
             } // For j
             total_region += n_region;
 
-            DL_SORT((metadata + i)->storage_region_list_head, region_cmp);
+            DL_SORT(metadata->storage_region_list_head, region_cmp);
+
+            // Insert the metadata to the linked list (hash table entry) and bloom filter
+            ret_value = PDC_Server_hash_table_list_insert(entry, metadata);
+            if (ret_value != SUCCEED) {
+                printf("==PDC_SERVER: error with hash table recovering from checkpoint file\n");
+                goto done;
+            }
         } // For i
 
         nobj += count;
+        n_metadata_g += count;
         total_mem_usage_g += sizeof(pdc_hash_table_entry_head);
         total_mem_usage_g += (sizeof(pdc_metadata_t) * count);
 
-        entry->metadata = NULL;
-
-        // Insert the previously read metadata to the linked list (hash table entry)
-        for (i = 0; i < count; i++) {
-            elt = metadata + i;
-            // Add to hash list and bloom filter
-            ret_value = PDC_Server_hash_table_list_insert(entry, elt);
-            if (ret_value != SUCCEED) {
-                printf("==PDC_SERVER: error with hash table recovering from checkpoint file\n");
-                goto done;
-            }
-        }
         n_entry--;
     }
 
diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 016c52c..bca2b73 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -168,11 +168,9 @@ PDC_Server_metadata_hash_value_free(void *value)
     }
 
     // Free metadata list
-    if (is_restart_g == 0) {
-        DL_FOREACH_SAFE(head->metadata, elt, tmp)
-        {
-            free(elt);
-        }
+    DL_FOREACH_SAFE(head->metadata, elt, tmp)
+    {
+        free(elt);
     }
 }
 
-- 
2.43.0


From b8c12021894f83dcbe5c692419996e178c2383d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 058/105] fix: a checkpoint keeps the tags and object lists of
 containers

Only the container table entry itself was stored; after a restart its tag
list and object list pointers pointed into the old process.
---
 src/server/pdc_server.c | 123 +++++++++++++++++++++++++++-------------
 1 file changed, 83 insertions(+), 40 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 6e001de..d1b8d75 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1222,6 +1222,71 @@ PDC_Server_checkpoint_cb()
     return HG_SUCCESS;
 }
 
+/*
+ * Write a list of key-value tags to the checkpoint file
+ *
+ * \param  head[IN]         List head
+ * \param  file[IN]         Checkpoint file
+ */
+static void
+PDC_Server_checkpoint_kvtags(pdc_kvtag_list_t *head, FILE *file)
+{
+    pdc_kvtag_list_t *elt;
+    int               n_kvtag, key_len;
+
+    DL_COUNT(head, elt, n_kvtag);
+    fwrite(&n_kvtag, sizeof(int), 1, file);
+    DL_FOREACH(head, elt)
+    {
+        key_len = strlen(elt->kvtag->name) + 1;
+        fwrite(&key_len, sizeof(int), 1, file);
+        fwrite(elt->kvtag->name, key_len, 1, file);
+        fwrite(&elt->kvtag->size, sizeof(uint32_t), 1, file);
+        fwrite(&elt->kvtag->type, sizeof(int8_t), 1, file);
+        fwrite(elt->kvtag->value, elt->kvtag->size, 1, file);
+    }
+}
+
+/*
+ * Read back a list of key-value tags from the checkpoint file
+ *
+ * \param  head[OUT]        List head
+ * \param  file[IN]         Checkpoint file
+ */
+static void
+PDC_Server_restart_kvtags(pdc_kvtag_list_t **head, FILE *file)
+{
+    pdc_kvtag_list_t *kvtag_list;
+    int               i, n_kvtag, key_len;
+
+    if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
+        printf("Read failed for n_kvtag\n");
+        return;
+    }
+    for (i = 0; i < n_kvtag; i++) {
+        kvtag_list        = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
+        kvtag_list->kvtag = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
+        if (fread(&key_len, sizeof(int), 1, file) != 1) {
+            printf("Read failed for key_len\n");
+        }
+        kvtag_list->kvtag->name = malloc(key_len);
+        if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->name\n");
+        }
+        if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->size\n");
+        }
+        if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->type\n");
+        }
+        kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
+        if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->value\n");
+        }
+        DL_APPEND(*head, kvtag_list);
+    }
+}
+
 /*
  * Checkpoint in-memory metadata to persistant storage, each server writes to one file
  *
@@ -1235,10 +1300,9 @@ PDC_Server_checkpoint()
     perr_t                       ret_value = SUCCEED;
     pdc_metadata_t *             elt;
     region_list_t *              region_elt;
-    pdc_kvtag_list_t *           kvlist_elt;
     pdc_hash_table_entry_head *  head;
     pdc_cont_hash_table_entry_t *cont_head;
-    int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0, n_kvtag, key_len;
+    int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0;
     uint32_t          hash_key;
     HashTablePair     pair;
     char              checkpoint_file[ADDR_MAX], checkpoint_file_local[ADDR_MAX], cmd[4096];
@@ -1302,6 +1366,9 @@ PDC_Server_checkpoint()
         hash_key = PDC_get_hash_by_name(cont_head->cont_name);
         fwrite(&hash_key, sizeof(uint32_t), 1, file);
         fwrite(cont_head, sizeof(pdc_cont_hash_table_entry_t), 1, file);
+        if (cont_head->n_obj > 0)
+            fwrite(cont_head->obj_ids, sizeof(uint64_t), cont_head->n_obj, file);
+        PDC_Server_checkpoint_kvtags(cont_head->kvtag_list_head, file);
     }
 
     // DHT
@@ -1325,17 +1392,7 @@ PDC_Server_checkpoint()
             fwrite(elt, sizeof(pdc_metadata_t), 1, file);
 
             // Write kv tags
-            DL_COUNT(elt->kvtag_list_head, kvlist_elt, n_kvtag);
-            fwrite(&n_kvtag, sizeof(int), 1, file);
-            DL_FOREACH(elt->kvtag_list_head, kvlist_elt)
-            {
-                key_len = strlen(kvlist_elt->kvtag->name) + 1;
-                fwrite(&key_len, sizeof(int), 1, file);
-                fwrite(kvlist_elt->kvtag->name, key_len, 1, file);
-                fwrite(&kvlist_elt->kvtag->size, sizeof(uint32_t), 1, file);
-                fwrite(&kvlist_elt->kvtag->type, sizeof(int8_t), 1, file);
-                fwrite(kvlist_elt->kvtag->value, kvlist_elt->kvtag->size, 1, file);
-            }
+            PDC_Server_checkpoint_kvtags(elt->kvtag_list_head, file);
 
             // Write region info
             n_region = 0;
@@ -1474,8 +1531,7 @@ perr_t
 PDC_Server_restart(char *filename)
 {
     perr_t ret_value = SUCCEED;
-    int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0,
-                              n_kvtag, key_len;
+    int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0;
     int                          n_cont, all_cont;
     pdc_metadata_t *             metadata;
     region_list_t *              region_list;
@@ -1529,6 +1585,17 @@ PDC_Server_restart(char *filename)
         if (fread(cont_entry, sizeof(pdc_cont_hash_table_entry_t), 1, file) != 1) {
             printf("Read failed for cont_entry\n");
         }
+        cont_entry->obj_ids         = NULL;
+        cont_entry->n_allocated     = cont_entry->n_obj;
+        cont_entry->kvtag_list_head = NULL;
+        if (cont_entry->n_obj > 0) {
+            cont_entry->obj_ids = (uint64_t *)malloc(sizeof(uint64_t) * cont_entry->n_obj);
+            if (fread(cont_entry->obj_ids, sizeof(uint64_t), cont_entry->n_obj, file) !=
+                (size_t)cont_entry->n_obj) {
+                printf("Read failed for cont_entry->obj_ids\n");
+            }
+        }
+        PDC_Server_restart_kvtags(&cont_entry->kvtag_list_head, file);
 
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&pdc_container_hash_table_mutex_g);
@@ -1583,31 +1650,7 @@ PDC_Server_restart(char *filename)
             metadata->all_storage_region_distributed = 0;
 
             // Read kv tags
-            if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
-                printf("Read failed for n_kvtag\n");
-            }
-            for (j = 0; j < n_kvtag; j++) {
-                pdc_kvtag_list_t *kvtag_list = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
-                kvtag_list->kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
-                if (fread(&key_len, sizeof(int), 1, file) != 1) {
-                    printf("Read failed for key_len\n");
-                }
-                kvtag_list->kvtag->name = malloc(key_len);
-                if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->name\n");
-                }
-                if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->size\n");
-                }
-                if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->type\n");
-                }
-                kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
-                if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->value\n");
-                }
-                DL_APPEND(metadata->kvtag_list_head, kvtag_list);
-            }
+            PDC_Server_restart_kvtags(&metadata->kvtag_list_head, file);
 
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
                 printf("Read failed for n_region\n");
-- 
2.43.0


From f2d9ceb529341f08f51bf0340e7d67afbc350ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 059/105] fix: object ids are not handed out again after a
 restart

The id counter started over, so new objects got the ids of restored ones.
---
 src/server/pdc_server.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index d1b8d75..a8ab9da 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1463,6 +1463,9 @@ PDC_Server_checkpoint()
     fwrite(&checkpoint_size, sizeof(uint64_t), 1, file);
     fwrite(checkpoint, checkpoint_size, 1, file);
 
+    // Next object/container id, so that ids are not reused after a restart
+    fwrite(&pdc_id_seq_g, sizeof(uint64_t), 1, file);
+
     fclose(file);
 
     if (use_tmpfs) {
@@ -1800,6 +1803,10 @@ PDC_Server_restart(char *filename)
     transfer_request_metadata_query_init(pdc_server_size_g, checkpoint_buf);
     free(checkpoint_buf);
 
+    if (fread(&pdc_id_seq_g, sizeof(uint64_t), 1, file) != 1) {
+        printf("Read failed for object id sequence\n");
+    }
+
     fclose(file);
     file = NULL;
 
-- 
2.43.0


From 8be430e2ec31bd8f34f68c3b3bbb9ab3340596c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 060/105] fix: restored storage regions do not keep a histogram
 pointer of the previous process

---
 src/server/pdc_server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index a8ab9da..22b4be5 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1680,6 +1680,7 @@ PDC_Server_restart(char *filename)
                 if (fread(&has_hist, sizeof(int), 1, file) != 1) {
                     printf("Read failed for has_list\n");
                 }
+                region_list->region_hist = NULL;
                 if (has_hist == 1) {
                     region_list->region_hist = (pdc_histogram_t *)malloc(sizeof(pdc_histogram_t));
                     if (fread(&region_list->region_hist->dtype, sizeof(int), 1, file) != 1) {
-- 
2.43.0


From e91c41714d80ca26c01ac4bb6993933dd7727ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 061/105] fix: a checkpoint replaces the previous one only once
 it is complete

The checkpoint file was truncated and rewritten in place, so a crash while
writing it lost the earlier checkpoint as well.
---
 src/server/pdc_server.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 22b4be5..88b505b 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1306,6 +1306,7 @@ PDC_Server_checkpoint()
     uint32_t          hash_key;
     HashTablePair     pair;
     char              checkpoint_file[ADDR_MAX], checkpoint_file_local[ADDR_MAX], cmd[4096];
+    char              checkpoint_file_tmp[ADDR_MAX + 5];
     HashTableIterator hash_table_iter;
     char *            checkpoint;
     char *            env_char;
@@ -1337,6 +1338,7 @@ PDC_Server_checkpoint()
 #endif
     snprintf(checkpoint_file, ADDR_MAX, "%s/%d/metadata_checkpoint.%d", pdc_server_tmp_dir_g,
              pdc_server_rank_g, pdc_server_rank_g);
+    snprintf(checkpoint_file_tmp, sizeof(checkpoint_file_tmp), "%s.tmp", checkpoint_file);
     snprintf(checkpoint_file_local, ADDR_MAX, "/tmp/metadata_checkpoint.%d", pdc_server_rank_g);
     if (pdc_server_rank_g == 0) {
         printf("==PDC_SERVER[%4d]: Checkpoint file [%s]\n", pdc_server_rank_g, checkpoint_file);
@@ -1346,7 +1348,7 @@ PDC_Server_checkpoint()
     if (use_tmpfs)
         file = fopen(checkpoint_file_local, "w+");
     else
-        file = fopen(checkpoint_file, "w+");
+        file = fopen(checkpoint_file_tmp, "w+");
 
     if (file == NULL) {
         printf("==PDC_SERVER[%d]: %s - Checkpoint file open error", pdc_server_rank_g, __func__);
@@ -1466,9 +1468,17 @@ PDC_Server_checkpoint()
     // Next object/container id, so that ids are not reused after a restart
     fwrite(&pdc_id_seq_g, sizeof(uint64_t), 1, file);
 
-    fclose(file);
+    if (ferror(file))
+        ret_value = FAIL;
+    if (fclose(file) != 0)
+        ret_value = FAIL;
+    // Only a complete checkpoint takes the place of the previous one
+    if (ret_value == SUCCEED && !use_tmpfs && rename(checkpoint_file_tmp, checkpoint_file) != 0)
+        ret_value = FAIL;
+    if (ret_value != SUCCEED)
+        printf("==PDC_SERVER[%d]: %s - Checkpoint file write error\n", pdc_server_rank_g, __func__);
 
-    if (use_tmpfs) {
+    if (use_tmpfs && ret_value == SUCCEED) {
 #ifdef PDC_TIMING
         gettimeofday(&pdc_timer_end_rank, 0);
         checkpoint_time = PDC_get_elapsed_time_double(&pdc_timer_start, &pdc_timer_end_rank);
-- 
2.43.0


From 732a79f852e4fafa881c390a810aea64a18f756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 062/105] fix: a metadata query hands the client a snapshot,
 not the live records

query_partial exposed the records in the metadata hash table themselves for
the client to pull after the reply. A deletion by another client in between
freed them while they were being read. Copy the records in every case, as was
done already for results of more than 80 records.
---
 src/server/pdc_client_server_common.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 68d8ed1..04f18a2 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -4588,18 +4588,18 @@ HG_TEST_RPC_CB(query_partial, handle)
     /*     n_buf++; */
     /* } */
 
-    // Fix when Mercury output in HG_Respond gets too large and cannot be transfered
+    // Copy the results: the client pulls them after the reply, when the records may already have been
+    // changed or freed on behalf of another client. One segment also avoids that Mercury output in
+    // HG_Respond gets too large and cannot be transfered
     // hg_set_output(): Output size exceeds NA expected message size
-    pdc_metadata_t *large_serial_meta_buf;
-    if (*n_meta_ptr > 80) {
-        large_serial_meta_buf = (pdc_metadata_t *)malloc(sizeof(pdc_metadata_t) * (*n_meta_ptr));
-        for (i = 0; i < *n_meta_ptr; i++) {
-            memcpy(&large_serial_meta_buf[i], buf_ptrs[i], sizeof(pdc_metadata_t));
-        }
-        buf_ptrs[0]  = large_serial_meta_buf;
-        buf_sizes[0] = sizeof(pdc_metadata_t) * (*n_meta_ptr);
-        n_buf        = 1;
+    pdc_metadata_t *serial_meta_buf;
+    serial_meta_buf = (pdc_metadata_t *)malloc(sizeof(pdc_metadata_t) * (*n_meta_ptr));
+    for (i = 0; i < *n_meta_ptr; i++) {
+        memcpy(&serial_meta_buf[i], buf_ptrs[i], sizeof(pdc_metadata_t));
     }
+    buf_ptrs[0]  = serial_meta_buf;
+    buf_sizes[0] = sizeof(pdc_metadata_t) * (*n_meta_ptr);
+    n_buf        = 1;
 
     // Create bulk handle
     hg_ret =
-- 
2.43.0


From 36fbf399fc26a1778992bc6ad64f78b4d9e51eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 063/105] fix: release the request handle when a server has no
 match for a metadata query

PDC_partial_query and the collective variant skipped HG_Destroy() for every
server that returned no record.
---
 src/api/pdc_client_connect.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index ed232da..7d8c402 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1744,8 +1744,10 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
         hg_atomic_set32(&atomic_work_todo_g, 1);
         PDC_Client_check_response(&send_context_g);
 
-        if (lookup_args.n_meta == 0)
+        if (lookup_args.n_meta == 0) {
+            HG_Destroy(query_partial_handle);
             continue;
+        }
 
         // We do not have the results ready yet, need to wait.
         while (1) {
@@ -1828,8 +1830,10 @@ PDC_Client_query_tag(const char *tags, int *n_res, pdc_metadata_t ***out)
         hg_atomic_set32(&atomic_work_todo_g, 1);
         PDC_Client_check_response(&send_context_g);
 
-        if ((lookup_args.n_meta) == 0)
+        if ((lookup_args.n_meta) == 0) {
+            HG_Destroy(query_partial_handle);
             continue;
+        }
 
         // We do not have the results ready yet, need to wait.
         while (1) {
-- 
2.43.0


From db1211c1b44ae6431769a096ca9336f55e28cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:26 +0000
Subject: [PATCH 064/105] fix: a metadata query does not read an uninitialised
 flag

hg_test_bulk_transfer_cb() decides by bulk_args->is_id whether ids or records
arrived, and metadata_query_bulk_cb() passed it fresh malloc() memory.
---
 src/api/pdc_client_connect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 7d8c402..900b238 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1617,7 +1617,7 @@ metadata_query_bulk_cb(const struct hg_cb_info *callback_info)
     origin_bulk_handle = output.bulk_handle;
     hg_info            = HG_Get_info(handle);
 
-    bulk_args = (struct bulk_args_t *)malloc(sizeof(struct bulk_args_t));
+    bulk_args = (struct bulk_args_t *)calloc(1, sizeof(struct bulk_args_t));
 
     bulk_args->handle = handle;
     bulk_args->nbytes = HG_Bulk_get_size(origin_bulk_handle);
-- 
2.43.0


From cf6974d477188ced4f2a053830d251acf78a5269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 065/105] fix: the cache flusher starts only once the cache is
 initialised

PDC_region_server_cache_init() created the flusher thread before it set the
list heads and sizes that thread reads.
---
 src/server/pdc_server_region/pdc_server_region_cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 17c5c01..2cb9d38 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -47,7 +47,6 @@ PDC_region_server_cache_init()
     pdc_recycle_close_flag = 0;
     pthread_mutex_init(&pdc_obj_cache_list_mutex, NULL);
     pthread_mutex_init(&pdc_cache_mutex, NULL);
-    pthread_create(&pdc_recycle_thread, NULL, &PDC_region_cache_clock_cycle, NULL);
     total_cache_size = 0;
 
     p = getenv("PDC_SERVER_CACHE_MAX_SIZE");
@@ -60,6 +59,8 @@ PDC_region_server_cache_init()
 
     obj_cache_list     = NULL;
     obj_cache_list_end = NULL;
+    // The thread uses everything above
+    pthread_create(&pdc_recycle_thread, NULL, &PDC_region_cache_clock_cycle, NULL);
     return 0;
 }
 
-- 
2.43.0


From f379aa79408c55ac5da4b0c332baaff93bed2324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 066/105] fix: read the cache size under the lock that guards
 it

PDC_region_cache_register() compared total_cache_size with the limit after
it had released the lock, while the flusher thread updates it.
---
 src/server/pdc_server_region/pdc_server_region_cache.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 2cb9d38..57e97fc 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -401,6 +401,7 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
 {
     pdc_obj_cache *         obj_cache_iter, *obj_cache = NULL;
     struct pdc_region_info *region_cache_info;
+    size_t                  cached_size;
     if (obj_ndim != ndim && obj_ndim > 0) {
         printf("PDC_region_cache_register reports obj_ndim != ndim, %d != %d\n", obj_ndim, ndim);
         return FAIL;
@@ -472,17 +473,18 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     memcpy(region_cache_info->size, size, sizeof(uint64_t) * ndim);
     memcpy(region_cache_info->buf, buf, sizeof(char) * buf_size);
     total_cache_size += buf_size;
+    cached_size = total_cache_size;
     gettimeofday(&(obj_cache->timestamp), NULL);
 
     pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
 
-    if (total_cache_size > maximum_cache_size) {
+    if (cached_size > maximum_cache_size) {
         int server_rank = 0;
 #ifdef ENABLE_MPI
         MPI_Comm_rank(MPI_COMM_WORLD, &server_rank);
 #endif
         printf("==PDC_SERVER[%d]: server cache full %.1f / %.1f MB, will flush to storage\n", server_rank,
-               total_cache_size / 1048576.0, maximum_cache_size / 1048576.0);
+               cached_size / 1048576.0, maximum_cache_size / 1048576.0);
         PDC_region_cache_flush_all();
     }
 
-- 
2.43.0


From 91bbd9085628fd125547070dde032373ff0ea0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 067/105] fix: the data types of a buffer mapping request are
 decoded in full

local_type and remote_type are enumerations; decoding one byte left the
other bytes as they were on the handler's stack.
---
 src/server/include/pdc_client_server_common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index baf18b3..6933b90 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -2581,12 +2581,12 @@ hg_proc_buf_map_in_t(hg_proc_t proc, void *data)
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_uint8_t(proc, &struct_data->local_type);
+    ret = hg_proc_int32_t(proc, &struct_data->local_type);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_uint8_t(proc, &struct_data->remote_type);
+    ret = hg_proc_int32_t(proc, &struct_data->remote_type);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
-- 
2.43.0


From 246dfd0489f86f4266b35abe916bc710008cc264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 068/105] fix: building a histogram terminates and its bins
 cover what they count

Constant data made the bin width zero and the loops placing the outermost
bins endless, as did ranges small next to their values or beyond the
range of a double.  The bins between the two outermost ones did not
always end where the last one starts, so elements were counted in a bin
whose range did not contain them.  The outermost bins are now placed on
the grid of bin widths and the number of bins follows from them; an
unsupported type no longer builds bins from uninitialised bounds.
---
 src/api/pdc_analysis/pdc_hist_pkg.c | 48 +++++++++++++++++++----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/api/pdc_analysis/pdc_hist_pkg.c b/src/api/pdc_analysis/pdc_hist_pkg.c
index 75343a1..a713e45 100644
--- a/src/api/pdc_analysis/pdc_hist_pkg.c
+++ b/src/api/pdc_analysis/pdc_hist_pkg.c
@@ -1,6 +1,7 @@
 #include "pdc_hist_pkg.h"
 #include <stdio.h>
 #include <stdlib.h>
+#include <float.h>
 
 #define MACRO_SAMPLE_MIN_MAX(TYPE, n, data, sample_pct, min, max)                                            \
     ({                                                                                                       \
@@ -112,15 +113,34 @@ PDC_create_hist(pdc_var_type_t dtype, int nbin, double min, double max)
     pdc_histogram_t *ret_value = NULL;
     pdc_histogram_t *hist;
     int              i;
-    double           min_bin, max_bin, bin_incr;
+    double           min_bin, max_bin, bin_incr, width, max_abs;
 
     FUNC_ENTER(NULL);
 
     if (nbin < 4 || min > max)
         PGOTO_DONE(NULL);
 
-    bin_incr = floor_power_of_2((max - min) / (nbin - 2)); // Excluding first and last bin (open ended)
-    nbin     = ceil((max - min) / bin_incr);
+    // Bounds that are not numbers, or too large to compute with (the outermost bins take the rest)
+    if (isnan(min) || isnan(max))
+        min = max = 0;
+    min = fmin(fmax(min, -DBL_MAX / 4), DBL_MAX / 4);
+    max = fmin(fmax(max, -DBL_MAX / 4), DBL_MAX / 4);
+
+    // Excluding first and last bin (open ended)
+    width    = max / (nbin - 2) - min / (nbin - 2);
+    bin_incr = width > 0 ? floor_power_of_2(width) : 0;
+
+    // The bounds of the bins must be distinct doubles
+    max_abs = fmax(fabs(min), fabs(max));
+    if (max_abs == 0)
+        bin_incr = 1;
+    else
+        bin_incr = fmax(bin_incr, fmax(floor_power_of_2(max_abs) * DBL_EPSILON, DBL_MIN));
+
+    // First bin ends above min, last bin starts below max, both at multiples of bin_incr
+    min_bin = (floor(min / bin_incr) + 1) * bin_incr;
+    max_bin = fmax((ceil(max / bin_incr) - 1) * bin_incr, min_bin);
+    nbin    = (int)(max_bin / bin_incr - min_bin / bin_incr) + 2;
 
     hist        = (pdc_histogram_t *)malloc(sizeof(pdc_histogram_t));
     hist->incr  = bin_incr;
@@ -129,16 +149,6 @@ PDC_create_hist(pdc_var_type_t dtype, int nbin, double min, double max)
     hist->bin   = (uint64_t *)calloc(sizeof(uint64_t), nbin);
     hist->nbin  = nbin;
 
-    min_bin = floor(min);
-    while (min_bin <= min) {
-        min_bin += bin_incr;
-    }
-
-    max_bin = ceil(max);
-    while (max_bin >= max) {
-        max_bin -= bin_incr;
-    }
-
     hist->range[0] = min_bin;
     hist->range[1] = min_bin;
 
@@ -160,7 +170,7 @@ done:
 #define MACRO_HIST_INCR_ALL(TYPE, hist, n, _data)                                                            \
     ({                                                                                                       \
         uint64_t i;                                                                                          \
-        int      lo, mid = 0, hi;                                                                            \
+        int      lo, mid = 0, hi, idx;                                                                       \
         TYPE *   ldata = (TYPE *)(_data);                                                                    \
         if ((hist)->incr > 0) {                                                                              \
             for (i = 0; i < (n); i++) {                                                                      \
@@ -174,8 +184,11 @@ done:
                     if (ldata[i] > (hist)->range[((hist)->nbin * 2) - 1])                                    \
                         (hist)->range[((hist)->nbin * 2) - 1] = ldata[i];                                    \
                 }                                                                                            \
-                else {                                                                                       \
-                    (hist)->bin[(int)((ldata[i] - (hist)->range[1]) / (hist)->incr + 1)]++;                  \
+                else if (ldata[i] >= (hist)->range[1]) {                                                     \
+                    idx = (int)(ldata[i] / (hist)->incr - (hist)->range[1] / (hist)->incr) + 1;              \
+                    if (ldata[i] < (hist)->range[idx * 2]) /* the difference was rounded up */               \
+                        idx--;                                                                               \
+                    (hist)->bin[idx]++;                                                                      \
                 }                                                                                            \
             }                                                                                                \
         }                                                                                                    \
@@ -261,7 +274,8 @@ PDC_gen_hist(pdc_var_type_t dtype, uint64_t n, void *data)
     gettimeofday(&pdc_timer_start, 0);
 #endif
 
-    PDC_sample_min_max(dtype, n, data, 0.1, &min, &max);
+    if (PDC_sample_min_max(dtype, n, data, 0.1, &min, &max) != SUCCEED)
+        PGOTO_DONE(NULL);
 
     hist = PDC_create_hist(dtype, 50, min, max);
     if (NULL == hist)
-- 
2.43.0


From ab332e0b521df5aa2ba5e1b294643dcac06d1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 069/105] fix: a merged histogram starts and ends where its
 parts do

The extent of the first part was taken from the inner bounds of its
outermost bins, so the merged range could exclude elements it counts.
---
 src/api/pdc_analysis/pdc_hist_pkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_analysis/pdc_hist_pkg.c b/src/api/pdc_analysis/pdc_hist_pkg.c
index a713e45..fa0a0e0 100644
--- a/src/api/pdc_analysis/pdc_hist_pkg.c
+++ b/src/api/pdc_analysis/pdc_hist_pkg.c
@@ -379,8 +379,8 @@ PDC_merge_hist(int n, pdc_histogram_t **hists)
     if (n == 0 || NULL == hists)
         PGOTO_DONE(NULL);
 
-    tot_min  = hists[0]->range[1];
-    tot_max  = hists[0]->range[2 * hists[0]->nbin - 2];
+    tot_min  = hists[0]->range[0];
+    tot_max  = hists[0]->range[2 * hists[0]->nbin - 1];
     incr_max = hists[0]->incr;
 
     for (i = 1; i < n; i++) {
-- 
2.43.0


From 1e12ed9fc68fd277c484ae5e2c6e34b3aac58170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 070/105] fix: a tag query leaves the count of outstanding
 calls alone

Its callback lowered atomic_work_todo_g, which the query never raised; the next index
operation then returned before its response and the response ran in a later call.
---
 src/api/pdc_client_connect.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 900b238..cc6a7fa 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7312,7 +7312,6 @@ kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
 
     if (output.bulk_handle == HG_BULK_NULL || output.ret == 0) {
         hg_atomic_decr32(&bulk_todo_g);
-        // hg_atomic_decr32(&atomic_work_todo_g);
         bulk_arg->n_meta  = 0;
         bulk_arg->obj_ids = NULL;
         PGOTO_DONE(ret_value);
@@ -7342,7 +7341,6 @@ kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
 
 done:
     fflush(stdout);
-    hg_atomic_decr32(&atomic_work_todo_g);
     HG_Free_output(handle, &output);
     // With matches the handle is destroyed once their ids have been pulled
     if (bulk_arg->n_meta == 0)
-- 
2.43.0


From a68a2a6ad9a85e802783b69dfcd3194d35f968f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 071/105] fix: the handle of an index server load request is
 destroyed once

---
 src/api/pdc_client_connect.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index cc6a7fa..e8e8ad7 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -8404,7 +8404,7 @@ client_dart_get_server_info_cb(const struct hg_cb_info *callback_info)
     client_lookup_args->int64_value2 = output.request_count;
 
     hg_atomic_decr32(&atomic_work_todo_g);
-    HG_Destroy(handle);
+    HG_Free_output(handle, &output);
 
     FUNC_LEAVE(ret_value);
 }
@@ -8412,12 +8412,12 @@ client_dart_get_server_info_cb(const struct hg_cb_info *callback_info)
 dart_server
 dart_retrieve_server_info_cb(uint32_t serverId)
 {
-    dart_server ret;
+    dart_server ret = {0};
 
     perr_t srv_lookup_rst = PDC_Client_try_lookup_server(serverId, 0);
     if (srv_lookup_rst == FAIL) {
         println("the server %d cannot be connected. ", serverId);
-        goto done;
+        return ret;
     }
 
     // Mercury comm here.
@@ -8444,7 +8444,6 @@ dart_retrieve_server_info_cb(uint32_t serverId)
     ret.id                 = serverId;
     ret.indexed_word_count = lookup_args.int64_value1;
     ret.request_count      = lookup_args.int64_value2;
-done:
     HG_Destroy(dart_get_server_info_handle);
 
     return ret;
-- 
2.43.0


From 1051538b5a66a94469a6e0ab23da3c09fe36d40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:06 +0000
Subject: [PATCH 072/105] fix: no server is told to close while another rank
 still connects

A server told to close waits for the other servers to be told too and answers nobody
meanwhile; a rank of the same job that was still connecting to it in PDCinit then
never got to closing its own server.
---
 src/api/pdc_client_connect.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index e8e8ad7..0b10689 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2760,6 +2760,11 @@ PDC_Client_close_all_server()
 
     FUNC_ENTER(NULL);
 
+#ifdef ENABLE_MPI
+    // A closing server answers nobody, so all ranks must be done with connecting to it
+    MPI_Barrier(MPI_COMM_WORLD);
+#endif
+
     if (pdc_client_mpi_size_g < pdc_server_num_g) {
         if (pdc_client_mpi_rank_g == 0)
             printf("==CLIENT[%d]: run close_server with equal ranks of servers (%d) for faster checkpoint!\n",
-- 
2.43.0


From 80b31ef11e88d5c149775ae2948178b483568db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 073/105] fix: every set of the metadata index owns the
 references it holds

One allocation was entered into the set of every suffix of the key and of the
value, and each of these sets frees what is removed from it: the deletion of
an indexed reference freed the same memory several times. Each set now gets a
copy of its own, and the caller's is freed.
---
 src/server/pdc_server_metadata_index.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 1e91c42..31d0a39 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -225,10 +225,12 @@ create_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void
         art_insert(art_value_prefix_tree, attr_value, len, (void *)obj_id_set);
     }
 
-    int indexed = set_insert(obj_id_set, data);
+    // The set frees the references it holds, and the same one is indexed at several places
+    uint64_t *obj_id = (uint64_t *)calloc(1, sizeof(uint64_t));
+    *obj_id          = *((uint64_t *)data);
 
-    if (indexed == -1) {
-        return FAIL;
+    if (set_insert(obj_id_set, obj_id) == 0) {
+        free(obj_id); // it is in the set already
     }
 
     return ret;
@@ -314,6 +316,7 @@ metadata_index_create(char *attr_key, char *attr_value, uint64_t obj_locator, in
     // else if (index_type == DART_HASH) {
     create_index_for_attr_name(attr_key, attr_value, (void *)data);
     // }
+    free(data);
     timer_pause(&timer);
     // if (DART_SERVER_DEBUG) {
     //     printf("[Server_Side_Insert_%d] Timer to insert a keyword %s : %s into index = %.4f
@@ -428,6 +431,7 @@ metadata_index_delete(char *attr_key, char *attr_value, uint64_t obj_locator, in
     // else if (index_type == DART_HASH) {
     delete_index_for_attr_name(attr_key, attr_value, (void *)data);
     // }
+    free(data);
 
     timer_pause(&timer);
     // if (DART_SERVER_DEBUG) {
-- 
2.43.0


From 51bb010571a347ca69858ea54d560f3975caa991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 074/105] fix: a deleted index reference is gone from every
 suffix of its key

With DART the client sends every suffix of a key, to the servers it belongs
on, with the other algorithms it sends the key alone. The server entered all
suffixes of whatever it received when it inserted and removed only the one it
received when it deleted, so that deleted references were still found.
---
 src/server/pdc_server_metadata_index.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 31d0a39..2391d44 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -237,7 +237,7 @@ create_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void
 }
 
 art_tree *
-create_index_for_attr_name(char *attr_name, char *attr_value, void *data)
+create_index_for_attr_name(char *attr_name, char *attr_value, void *data, int8_t index_type)
 {
 
     int                     len          = strlen(attr_name);
@@ -251,7 +251,8 @@ create_index_for_attr_name(char *attr_name, char *attr_value, void *data)
         nm_key  = (rr == 1) ? (unsigned char *)reverse_str(attr_name) : (unsigned char *)attr_name;
         nm_trie = (rr == 1) ? art_key_suffix_tree_g : art_key_prefix_tree_g;
 #else
-    int sub_loop_count = len; // should be 'len', but we already iterate all suffixes at client side
+    // With DART, we already iterate all suffixes at client side
+    int sub_loop_count = (index_type == DART_HASH) ? 1 : len;
     nm_trie            = art_key_prefix_tree_g;
     for (int j = 0; j < sub_loop_count; j++) {
         nm_key         = (unsigned char *)substring(attr_name, j, len);
@@ -314,7 +315,7 @@ metadata_index_create(char *attr_key, char *attr_value, uint64_t obj_locator, in
     //     create_hash_table_for_keyword(attr_key, attr_value, 1, (void *)data);
     // }
     // else if (index_type == DART_HASH) {
-    create_index_for_attr_name(attr_key, attr_value, (void *)data);
+    create_index_for_attr_name(attr_key, attr_value, (void *)data, index_type);
     // }
     free(data);
     timer_pause(&timer);
@@ -365,7 +366,7 @@ delete_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void
 }
 
 void
-delete_index_for_attr_name(char *attr_name, char *attr_value, void *data)
+delete_index_for_attr_name(char *attr_name, char *attr_value, void *data, int8_t index_type)
 {
     int                     len          = strlen(attr_name);
     key_index_leaf_content *leaf_content = NULL;
@@ -378,7 +379,8 @@ delete_index_for_attr_name(char *attr_name, char *attr_value, void *data)
         nm_key  = rr == 1 ? (unsigned char *)reverse_str(attr_name) : (unsigned char *)attr_name;
         nm_trie = rr == 1 ? art_key_suffix_tree_g : art_key_prefix_tree_g;
 #else
-    int sub_loop_count = 1; // should be 'len', but we already iterate all suffixes at client side;
+    // With DART, we already iterate all suffixes at client side
+    int sub_loop_count = (index_type == DART_HASH) ? 1 : len;
     nm_trie            = art_key_prefix_tree_g;
     for (int j = 0; j < sub_loop_count; j++) {
         nm_key = (unsigned char *)substring(attr_name, j, len);
@@ -429,7 +431,7 @@ metadata_index_delete(char *attr_key, char *attr_value, uint64_t obj_locator, in
     //     delete_hash_table_for_keyword(attr_key, 1, (void *)obj_locator);
     // }
     // else if (index_type == DART_HASH) {
-    delete_index_for_attr_name(attr_key, attr_value, (void *)data);
+    delete_index_for_attr_name(attr_key, attr_value, (void *)data, index_type);
     // }
     free(data);
 
-- 
2.43.0


From 315b7c3b25d8458daa3124b9575aea86ccb1e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 075/105] fix: the binary file helpers open their files with a
 valid mode

A mode string must start with r, w or a: "br", "bw" and "brw" made fopen()
fail and open_file() end the process, so no binary file could be read, written
or updated.
---
 src/commons/file/common_io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commons/file/common_io.c b/src/commons/file/common_io.c
index ae7af7f..c52a0e2 100644
--- a/src/commons/file/common_io.c
+++ b/src/commons/file/common_io.c
@@ -141,7 +141,7 @@ write_text_file(char *filename, char **lines, size_t num_lines)
 int
 read_binary_file(char *filename, void *buffer, size_t size)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_READ);
+    FILE *fp = open_file(filename, IO_MODE_READ IO_MODE_BINARY);
     if (fread(buffer, 1, size, fp) != size) {
         fprintf(stderr, "Error reading file\n");
         close_file(fp);
@@ -154,7 +154,7 @@ read_binary_file(char *filename, void *buffer, size_t size)
 int
 write_binary_file(char *filename, void *buffer, size_t size)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_WRITE);
+    FILE *fp = open_file(filename, IO_MODE_WRITE IO_MODE_BINARY);
     if (fwrite(buffer, 1, size, fp) != size) {
         fprintf(stderr, "Error writing file\n");
         close_file(fp);
@@ -167,7 +167,7 @@ write_binary_file(char *filename, void *buffer, size_t size)
 int
 update_binary_file(char *filename, void *buffer, size_t size, unsigned long start_pos, size_t length)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_READ IO_MODE_WRITE);
+    FILE *fp = open_file(filename, IO_MODE_READ "+" IO_MODE_BINARY);
     if (fseek(fp, start_pos, SEEK_SET) != 0) {
         fprintf(stderr, "Error seeking to starting position\n");
         close_file(fp);
-- 
2.43.0


From 0716888387b657194a2d2b927de8112181f6abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 076/105] fix: the call profile carries whole seconds

A second has 10^9 nanoseconds. The sum of two times carried one second for
every 10^10 of them, so nine seconds were lost each time.
---
 src/commons/profiling/include/pdc_stack_ops.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commons/profiling/include/pdc_stack_ops.h b/src/commons/profiling/include/pdc_stack_ops.h
index 110d039..1d61779 100644
--- a/src/commons/profiling/include/pdc_stack_ops.h
+++ b/src/commons/profiling/include/pdc_stack_ops.h
@@ -55,9 +55,9 @@ extern pbool_t enableProfiling;
 #define TIMER_ADD(t0, t1)                                                                                    \
     {                                                                                                        \
         (t0).tv_sec += (t1).tv_sec;                                                                          \
-        if (((t0).tv_nsec += (t1).tv_nsec) > 10000000000) {                                                  \
+        if (((t0).tv_nsec += (t1).tv_nsec) >= 1000000000) {                                                  \
             (t0).tv_sec += 1;                                                                                \
-            (t0).tv_nsec -= 10000000000;                                                                     \
+            (t0).tv_nsec -= 1000000000;                                                                      \
         }                                                                                                    \
     }
 #endif
-- 
2.43.0


From a560fec6c02f6b33972ae9e465988c2ba07ff281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 077/105] fix: releasing a region lock grants it to one waiting
 request

A request waiting for a lock was answered only after the release of a mapped
region of one-byte elements, all waiting requests were answered at once and none
of them was recorded as the holder. Now every release hands the lock to the
oldest waiting request for the same region, which then holds it.
---
 src/server/pdc_client_server_common.c         |  41 -------
 .../include/pdc_server_data.h                 |  10 --
 .../pdc_server_region/pdc_server_data.c       | 103 ++++++++----------
 3 files changed, 47 insertions(+), 107 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 04f18a2..88486df 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -1206,12 +1206,6 @@ PDC_Server_update_local_region_storage_loc(region_list_t *region ATTRIBUTE(unuse
     return SUCCEED;
 }
 perr_t
-PDC_Server_release_lock_request(uint64_t obj_id                ATTRIBUTE(unused),
-                                struct pdc_region_info *region ATTRIBUTE(unused))
-{
-    return SUCCEED;
-}
-perr_t
 PDC_Server_data_write_out(uint64_t obj_id                     ATTRIBUTE(unused),
                           struct pdc_region_info *region_info ATTRIBUTE(unused), void *buf ATTRIBUTE(unused),
                           size_t unit ATTRIBUTE(unused))
@@ -2153,8 +2147,6 @@ pdc_region_write_out_progress(void *arg)
     // Perform lock release function
     PDC_Data_Server_region_release(&(bulk_args->in), &out);
 
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, remote_reg_info);
-
     free(remote_reg_info->offset);
     free(remote_reg_info->size);
     free(remote_reg_info);
@@ -2200,8 +2192,6 @@ obj_map_region_release_bulk_transfer_thread_cb(const struct hg_cb_info *hg_cb_in
     // release the lock
     PDC_Data_Server_region_release(&(bulk_args->in), &out);
 
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, bulk_args->remote_reg_info);
-
 done:
     fflush(stdout);
     free(bulk_args->remote_reg_info->offset);
@@ -2441,8 +2431,6 @@ transform_and_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_inf
 
     PDC_Server_data_write_out(bulk_args->remote_obj_id, remote_reg_info, bulk_args->data_buf, unit);
     PDC_Data_Server_region_release((region_lock_in_t *)&bulk_args->in, &out);
-
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, remote_reg_info);
 #endif
 
 done:
@@ -2475,7 +2463,6 @@ analysis_and_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info
     uint64_t                                       type_extent;
     uint64_t *                                     dims            = NULL;
     struct pdc_region_info *                       remote_reg_info = NULL;
-    struct pdc_region_info *                       local_reg_info  = NULL;
     double                                         start_t, end_t, analysis_t, io_t;
     double                                         averages[4];
 
@@ -2578,29 +2565,6 @@ analysis_and_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info
     io_t  = end_t - start_t;
 #endif
     PDC_Data_Server_region_release((region_lock_in_t *)&bulk_args->in, &out);
-    local_reg_info = (struct pdc_region_info *)malloc(sizeof(struct pdc_region_info));
-    if (local_reg_info == NULL)
-        PGOTO_ERROR(HG_OTHER_ERROR, "local_reg_info memory allocation failed");
-
-    local_reg_info->ndim        = bulk_args->in.region.ndim;
-    local_reg_info->offset      = (uint64_t *)calloc(local_reg_info->ndim, sizeof(uint64_t));
-    local_reg_info->size        = (uint64_t *)calloc(local_reg_info->ndim, sizeof(uint64_t));
-    (local_reg_info->offset)[0] = bulk_args->in.region.start_0;
-    (local_reg_info->size)[0]   = bulk_args->in.region.count_0;
-    if (local_reg_info->ndim > 1) {
-        (local_reg_info->offset)[1] = bulk_args->in.region.start_1;
-        (local_reg_info->size)[1]   = bulk_args->in.region.count_1;
-    }
-    if (local_reg_info->ndim > 2) {
-        (local_reg_info->offset)[2] = bulk_args->in.region.start_2;
-        (local_reg_info->size)[2]   = bulk_args->in.region.count_2;
-    }
-    if (local_reg_info->ndim > 3) {
-        (local_reg_info->offset)[3] = bulk_args->in.region.start_3;
-        (local_reg_info->size)[3]   = bulk_args->in.region.count_3;
-    }
-    PDC_Server_release_lock_request(bulk_args->in.obj_id, local_reg_info);
-
     averages[0] = analysis_t;
     averages[1] = io_t;
 #ifdef ENABLE_MPI
@@ -2623,9 +2587,6 @@ done:
     free(remote_reg_info->size);
     free(remote_reg_info);
 
-    free(local_reg_info->offset);
-    free(local_reg_info->size);
-    free(local_reg_info);
 
     HG_Bulk_free(bulk_args->remote_bulk_handle);
     HG_Free_input(bulk_args->handle, &(bulk_args->in));
@@ -2739,8 +2700,6 @@ buf_map_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info)
 
     // Perform lock release function
     PDC_Data_Server_region_release(&(bulk_args->in), &out);
-
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, remote_reg_info);
 #endif
 
 #ifdef PDC_TIMING
diff --git a/src/server/pdc_server_region/include/pdc_server_data.h b/src/server/pdc_server_region/include/pdc_server_data.h
index a204aa4..8bb7a6c 100644
--- a/src/server/pdc_server_region/include/pdc_server_data.h
+++ b/src/server/pdc_server_region/include/pdc_server_data.h
@@ -719,16 +719,6 @@ hg_return_t PDC_Server_bulk_cleanup_cb(const struct hg_cb_info *callback_info);
 perr_t PDC_Server_notify_client_multi_io_complete(uint32_t client_id, int client_seq_id, int n_completed,
                                                   region_list_t *completed_rg_list);
 
-/**
- * Data server processes lock release request
- *
- * \param obj_id [IN]           Object ID
- * \param region [IN]           Region
- *
- * \return Non-negative on success/Negative on failure
- */
-perr_t PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region);
-
 /**
  * ********
  *
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 643517f..104a64d 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -407,6 +407,29 @@ PDC_Server_unregister_obj_region(pdcid_t obj_id)
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_unregister_obj_region
 
+// check if the lock region is used in buf map function
+static void
+PDC_Server_mark_mapped_lock(data_server_region_t *obj_reg, region_list_t *lock)
+{
+    region_list_t *   tmp;
+    region_buf_map_t *elt;
+
+    FUNC_ENTER(NULL);
+
+    tmp = (region_list_t *)malloc(sizeof(region_list_t));
+    DL_FOREACH(obj_reg->region_buf_map_head, elt)
+    {
+        PDC_region_transfer_t_to_list_t(&(elt->remote_region_unit), tmp);
+        if (PDC_is_same_region_list(tmp, lock) == 1) {
+            lock->reg_dirty_from_buf = 1;
+            hg_atomic_incr32(&(lock->buf_map_refcount));
+        }
+    }
+    free(tmp);
+
+    FUNC_LEAVE_VOID;
+}
+
 perr_t
 PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_handle_t *handle)
 {
@@ -414,8 +437,7 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
     int                   ndim;
     region_list_t *       request_region;
     data_server_region_t *new_obj_reg;
-    region_list_t *       elt1, *tmp;
-    region_buf_map_t *    eltt;
+    region_list_t *       elt1;
     int                   error      = 0;
     int                   found_lock = 0;
     // time_t                t;
@@ -499,18 +521,7 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
 #endif
 
     if (found_lock == 0) {
-        // check if the lock region is used in buf map function
-        tmp = (region_list_t *)malloc(sizeof(region_list_t));
-        DL_FOREACH(new_obj_reg->region_buf_map_head, eltt)
-        {
-            PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
-            if (PDC_is_same_region_list(tmp, request_region) == 1) {
-                request_region->reg_dirty_from_buf = 1;
-                hg_atomic_incr32(&(request_region->buf_map_refcount));
-                /* printf("%s: set reg_dirty_from_buf and buf_map_refcount\n", __func__); */
-            }
-        }
-        free(tmp);
+        PDC_Server_mark_mapped_lock(new_obj_reg, request_region);
 
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
@@ -536,48 +547,6 @@ done:
     FUNC_LEAVE(ret_value);
 }
 
-perr_t
-PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region)
-{
-    perr_t                ret_value = SUCCEED;
-    region_list_t *       request_region;
-    region_list_t *       elt, *tmp;
-    data_server_region_t *new_obj_reg;
-    region_lock_out_t     out;
-
-    FUNC_ENTER(NULL);
-
-    request_region = (region_list_t *)malloc(sizeof(region_list_t));
-    PDC_init_region_list(request_region);
-    PDC_region_info_to_list_t(region, request_region);
-
-    new_obj_reg = PDC_Server_get_obj_region(obj_id);
-    if (new_obj_reg == NULL) {
-        PGOTO_ERROR(FAIL, "===PDC Server: cannot locate data_server_region_t strcut for object ID");
-    }
-#ifdef ENABLE_MULTITHREAD
-    hg_thread_mutex_lock(&lock_request_mutex_g);
-#endif
-    DL_FOREACH_SAFE(new_obj_reg->region_lock_request_head, elt, tmp)
-    {
-        if (is_region_identical(request_region, elt) == 1) {
-            out.ret = 1;
-            HG_Respond(elt->lock_handle, NULL, NULL, &out);
-            HG_Destroy(elt->lock_handle);
-            DL_DELETE(new_obj_reg->region_lock_request_head, elt);
-            free(elt);
-        }
-    }
-#ifdef ENABLE_MULTITHREAD
-    hg_thread_mutex_unlock(&lock_request_mutex_g);
-#endif
-    free(request_region);
-
-done:
-    fflush(stdout);
-    FUNC_LEAVE(ret_value);
-}
-
 perr_t
 PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
 {
@@ -586,6 +555,9 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
     region_list_t *       tmp1, *tmp2;
     region_list_t         request_region;
     int                   found   = 0;
+    int                   granted = 0;
+    hg_handle_t           lock_handle;
+    region_lock_out_t     lock_out;
     data_server_region_t *obj_reg = NULL;
 
     FUNC_ENTER(NULL);
@@ -645,9 +617,28 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
             break;
         }
     }
+    // Hand the lock over to the request that has waited for it longest
+    if (found == 1) {
+        DL_FOREACH_SAFE(obj_reg->region_lock_request_head, tmp1, tmp2)
+        {
+            if (is_region_identical(&request_region, tmp1) == 1) {
+                DL_DELETE(obj_reg->region_lock_request_head, tmp1);
+                PDC_Server_mark_mapped_lock(obj_reg, tmp1);
+                DL_APPEND(obj_reg->region_lock_head, tmp1);
+                lock_handle = tmp1->lock_handle;
+                granted     = 1;
+                break;
+            }
+        }
+    }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&lock_list_mutex_g);
 #endif
+    if (granted == 1) {
+        lock_out.ret = 1;
+        HG_Respond(lock_handle, NULL, NULL, &lock_out);
+        HG_Destroy(lock_handle);
+    }
     // Request release lock region not found
     if (found == 0) {
         ret_value = FAIL;
-- 
2.43.0


From c75c3917c18da38433c4ec9f382443702feeb2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 078/105] fix: releasing a region lock nobody holds is refused

The reply was sent uninitialised when the lock was not found, and the server
crashed when no region of the object had ever been locked or mapped.
---
 src/server/pdc_client_server_common.c          | 5 +++++
 src/server/pdc_server_region/pdc_server_data.c | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 88486df..00b5493 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -2855,6 +2855,11 @@ HG_TEST_RPC_CB(region_release, handle)
     /* tm = *localtime(&t); */
     /* printf("start region_release: %02d:%02d:%02d\n", tm.tm_hour, tm.tm_min, tm.tm_sec); */
 
+    if (PDC_Server_get_obj_region(in.obj_id) == NULL) {
+        error = 1;
+        PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: requested release object does not exist");
+    }
+
     if (in.access_type == PDC_READ) {
         // check region is dirty or not, if dirty transfer data
         request_region = (region_list_t *)malloc(sizeof(region_list_t));
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 104a64d..6d327d1 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -562,6 +562,8 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
 
     FUNC_ENTER(NULL);
 
+    out->ret = 0;
+
     /* time_t t; */
     /* struct tm tm; */
     /* t = time(NULL); */
-- 
2.43.0


From 1ce74f6c0fcac99e0aaffb1ec61bb58fcba28393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 079/105] fix: objects known by a lock or a mapping can be
 written

The record a server keeps of an object was left without descriptor and path
when a lock request made it, so that what was written to the object later went
to whatever descriptor or path was found there. Mapping a buffer opened the
file twice and left the close flag unset.
---
 src/server/pdc_server_region/pdc_server_data.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 6d327d1..aa9eafd 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -493,6 +493,10 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
         new_obj_reg->region_buf_map_head      = NULL;
         new_obj_reg->region_lock_request_head = NULL;
         new_obj_reg->region_storage_head      = NULL;
+        new_obj_reg->close_flag               = 0;
+        // opened with the first data transfer
+        new_obj_reg->fd               = -1;
+        new_obj_reg->storage_location = (char *)malloc(sizeof(char) * ADDR_MAX);
         DL_APPEND(dataserver_region_g, new_obj_reg);
     }
 #ifdef ENABLE_MULTITHREAD
@@ -1222,8 +1226,8 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
         new_obj_reg->region_buf_map_head      = NULL;
         new_obj_reg->region_lock_request_head = NULL;
         new_obj_reg->region_storage_head      = NULL;
+        new_obj_reg->close_flag               = 0;
 
-        new_obj_reg->fd = server_open_storage(storage_location, in->remote_obj_id);
         // Generate a location for data storage for data server to write
         user_specified_data_path = getenv("PDC_DATA_LOC");
 
-- 
2.43.0


From 8d6bc00b03710d38d4734366aaaaea41bcbe79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 080/105] fix: cached regions of mapped buffers are accounted
 for and freed

Their object is cached without dimensions, which the flush took for the number
of dimensions of the regions: the cache stayed full for good, the data was not
freed and an unset pointer was passed on.
---
 src/server/pdc_server_region/pdc_server_region_cache.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 57e97fc..6d7c1b1 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -440,6 +440,7 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
             obj_cache_list_end->next              = NULL;
         }
         obj_cache_list_end->ndim = obj_ndim;
+        obj_cache_list_end->dims = NULL;
         if (obj_ndim) {
             obj_cache_list_end->dims = (uint64_t *)malloc(sizeof(uint64_t) * obj_ndim);
             memcpy(obj_cache_list_end->dims, obj_dims, sizeof(uint64_t) * obj_ndim);
@@ -770,11 +771,11 @@ PDC_region_cache_flush_by_pointer(uint64_t obj_id, pdc_obj_cache *obj_cache)
         region_cache_info = region_cache_iter->region_cache_info;
         PDC_Server_transfer_request_io(obj_id, obj_cache->ndim, obj_cache->dims, region_cache_info,
                                        region_cache_info->buf, region_cache_info->unit, 1);
-        if (obj_cache->ndim >= 1)
+        if (region_cache_info->ndim >= 1)
             write_size = region_cache_info->unit * region_cache_info->size[0];
-        if (obj_cache->ndim >= 2)
+        if (region_cache_info->ndim >= 2)
             write_size *= region_cache_info->size[1];
-        if (obj_cache->ndim >= 3)
+        if (region_cache_info->ndim >= 3)
             write_size *= region_cache_info->size[2];
 
         printf("==PDC_SERVER[%d]: server flushed %.1f / %.1f MB to storage\n", server_rank,
@@ -782,7 +783,7 @@ PDC_region_cache_flush_by_pointer(uint64_t obj_id, pdc_obj_cache *obj_cache)
 
         total_cache_size -= write_size;
         free(region_cache_info->offset);
-        if (obj_cache->ndim > 1) {
+        if (obj_cache->ndim != 1) {
             free(region_cache_info->buf);
         }
         free(region_cache_info);
-- 
2.43.0


From 28c5209f31167fc8050fe8711f997e0023067667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:58 +0000
Subject: [PATCH 081/105] fix: a server keeps one record of an object

The cache flush thread registers objects in the list of known objects while
requests for locks and mappings look them up and add them there. Both could add
a record for the same object, the second of which does not know what the first
one stored. The list is now guarded by a mutex.
---
 .../pdc_server_region/pdc_server_data.c       | 60 ++++++++++++-------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index aa9eafd..8eb5a5b 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -35,6 +35,7 @@
 #include <limits.h>
 #include <float.h>
 #include <math.h>
+#include <pthread.h>
 #include <sys/shm.h>
 #include <sys/mman.h>
 
@@ -58,6 +59,8 @@
 
 // Global object region info list in local data server
 data_server_region_t *      dataserver_region_g     = NULL;
+// Requests and the cache flush thread both look up and add objects
+static pthread_mutex_t      dataserver_region_mutex_g = PTHREAD_MUTEX_INITIALIZER;
 data_server_region_unmap_t *dataserver_region_unmap = NULL;
 
 int pdc_buffered_bulk_update_total_g = 0;
@@ -279,8 +282,9 @@ PDC_Server_region_lock_status(PDC_mapping_info_t *mapped_region, int *lock_statu
     FUNC_LEAVE(ret_value);
 }
 
-data_server_region_t *
-PDC_Server_get_obj_region(pdcid_t obj_id)
+// Caller must hold dataserver_region_mutex_g
+static data_server_region_t *
+PDC_Server_find_obj_region(pdcid_t obj_id)
 {
     data_server_region_t *ret_value = NULL;
     data_server_region_t *elt       = NULL;
@@ -298,6 +302,20 @@ PDC_Server_get_obj_region(pdcid_t obj_id)
     FUNC_LEAVE(ret_value);
 }
 
+data_server_region_t *
+PDC_Server_get_obj_region(pdcid_t obj_id)
+{
+    data_server_region_t *ret_value = NULL;
+
+    FUNC_ENTER(NULL);
+
+    pthread_mutex_lock(&dataserver_region_mutex_g);
+    ret_value = PDC_Server_find_obj_region(obj_id);
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
+
+    FUNC_LEAVE(ret_value);
+}
+
 perr_t
 PDC_Server_clear_obj_region()
 {
@@ -330,6 +348,9 @@ PDC_Server_register_obj_region_by_pointer(data_server_region_t **new_obj_reg_ptr
 
     FUNC_ENTER(NULL);
 
+    pthread_mutex_lock(&dataserver_region_mutex_g);
+    if (new_obj_reg == NULL)
+        new_obj_reg = PDC_Server_find_obj_region(obj_id);
     if (new_obj_reg == NULL) {
         new_obj_reg = (data_server_region_t *)malloc(sizeof(struct data_server_region_t));
         if (new_obj_reg == NULL) {
@@ -364,6 +385,7 @@ PDC_Server_register_obj_region_by_pointer(data_server_region_t **new_obj_reg_ptr
     *new_obj_reg_ptr = new_obj_reg;
 
 done:
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_register_obj_region
 
@@ -481,10 +503,12 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&region_struct_mutex_g);
 #endif
-    new_obj_reg = PDC_Server_get_obj_region(in->obj_id);
+    pthread_mutex_lock(&dataserver_region_mutex_g);
+    new_obj_reg = PDC_Server_find_obj_region(in->obj_id);
     if (new_obj_reg == NULL) {
         new_obj_reg = (data_server_region_t *)malloc(sizeof(struct data_server_region_t));
         if (new_obj_reg == NULL) {
+            pthread_mutex_unlock(&dataserver_region_mutex_g);
             error = 1;
             PGOTO_ERROR(FAIL, "PDC_SERVER: PDC_Server_region_lock() allocates new object failed");
         }
@@ -499,6 +523,7 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
         new_obj_reg->storage_location = (char *)malloc(sizeof(char) * ADDR_MAX);
         DL_APPEND(dataserver_region_g, new_obj_reg);
     }
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&region_struct_mutex_g);
 #endif
@@ -1216,11 +1241,14 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&region_struct_mutex_g);
 #endif
-    new_obj_reg = PDC_Server_get_obj_region(in->remote_obj_id);
+    pthread_mutex_lock(&dataserver_region_mutex_g);
+    new_obj_reg = PDC_Server_find_obj_region(in->remote_obj_id);
     if (new_obj_reg == NULL) {
         new_obj_reg = (data_server_region_t *)malloc(sizeof(struct data_server_region_t));
-        if (new_obj_reg == NULL)
+        if (new_obj_reg == NULL) {
+            pthread_mutex_unlock(&dataserver_region_mutex_g);
             PGOTO_ERROR(NULL, "PDC_SERVER: PDC_Server_insert_buf_map_region() allocates new object failed");
+        }
         new_obj_reg->obj_id                   = in->remote_obj_id;
         new_obj_reg->region_lock_head         = NULL;
         new_obj_reg->region_buf_map_head      = NULL;
@@ -1257,12 +1285,14 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
 #endif
         new_obj_reg->fd = open(storage_location, O_RDWR | O_CREAT, 0666);
         if (new_obj_reg->fd == -1) {
+            pthread_mutex_unlock(&dataserver_region_mutex_g);
             printf("==PDC_SERVER[%d]: open %s failed\n", pdc_server_rank_g, storage_location);
             goto done;
         }
         new_obj_reg->storage_location = strdup(storage_location);
         DL_APPEND(dataserver_region_g, new_obj_reg);
     }
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&region_struct_mutex_g);
 #endif
@@ -1392,18 +1422,12 @@ void *
 PDC_Server_maybe_allocate_region_buf_ptr(pdcid_t obj_id, region_info_transfer_t region, size_t type_size)
 {
     void *                ret_value  = NULL;
-    data_server_region_t *target_obj = NULL, *elt = NULL;
+    data_server_region_t *target_obj = NULL;
     region_buf_map_t *    tmp;
 
     FUNC_ENTER(NULL);
 
-    if (dataserver_region_g == NULL)
-        PGOTO_ERROR(NULL, "===PDC SERVER: PDC_Server_get_region_buf_ptr() - object list is NULL");
-    DL_FOREACH(dataserver_region_g, elt)
-    {
-        if (obj_id == elt->obj_id)
-            target_obj = elt;
-    }
+    target_obj = PDC_Server_get_obj_region(obj_id);
     if (target_obj == NULL)
         PGOTO_ERROR(NULL, "===PDC SERVER: PDC_Server_get_region_buf_ptr() - cannot locate object");
 
@@ -1453,18 +1477,12 @@ void *
 PDC_Server_get_region_buf_ptr(pdcid_t obj_id, region_info_transfer_t region)
 {
     void *                ret_value  = NULL;
-    data_server_region_t *target_obj = NULL, *elt = NULL;
+    data_server_region_t *target_obj = NULL;
     region_buf_map_t *    tmp;
 
     FUNC_ENTER(NULL);
 
-    if (dataserver_region_g == NULL)
-        PGOTO_ERROR(NULL, "===PDC SERVER: PDC_Server_get_region_buf_ptr() - object list is NULL");
-    DL_FOREACH(dataserver_region_g, elt)
-    {
-        if (obj_id == elt->obj_id)
-            target_obj = elt;
-    }
+    target_obj = PDC_Server_get_obj_region(obj_id);
     if (target_obj == NULL)
         PGOTO_ERROR(NULL, "===PDC SERVER: PDC_Server_get_region_buf_ptr() - cannot locate object");
 
-- 
2.43.0


From 713e4b6255334b4908c472ce3116fa77e1403405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 082/105] fix: unmapping a buffer does not close the file of a
 running transfer

Removing the last mapping of an object closed its descriptor while the cache
flush thread could be writing to it, so that the data was lost, or written to
whatever had been opened under the same number since. Transfers open and close
the file themselves; a mapping only makes sure that it exists.
---
 src/server/pdc_server_region/pdc_server_data.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 8eb5a5b..4debd20 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -838,10 +838,6 @@ PDC_Data_Server_buf_unmap(const struct hg_info *info, buf_unmap_in_t *in)
         }
     }
 
-    if (target_obj->region_buf_map_head == NULL && pdc_server_rank_g == 0) {
-        close(target_obj->fd);
-        target_obj->fd = -1;
-    }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&data_buf_map_mutex_g);
 #endif
@@ -904,10 +900,6 @@ PDC_Data_Server_check_unmap()
                 }
             }
         }
-        if (target_obj->region_buf_map_head == NULL && pdc_server_rank_g == 0) {
-            close(target_obj->fd);
-            target_obj->fd = -1;
-        }
         hg_thread_mutex_unlock(&data_buf_map_mutex_g);
         if (completed == 1) {
             DL_DELETE(dataserver_region_unmap, elt1);
@@ -1289,6 +1281,9 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
             printf("==PDC_SERVER[%d]: open %s failed\n", pdc_server_rank_g, storage_location);
             goto done;
         }
+        // opened again with each data transfer
+        close(new_obj_reg->fd);
+        new_obj_reg->fd               = -2;
         new_obj_reg->storage_location = strdup(storage_location);
         DL_APPEND(dataserver_region_g, new_obj_reg);
     }
-- 
2.43.0


From 6cc65737ca5b670e28a22045a60766ee826cb3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:39 +0000
Subject: [PATCH 083/105] fix: md5_hash has room for the digest

md5 writes 16 bytes, of which all but the first went over the stack. The copy
of the prefix was never freed.
---
 src/commons/index/dart/dart_algo.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/commons/index/dart/dart_algo.c b/src/commons/index/dart/dart_algo.c
index 6546d0c..e72e28b 100644
--- a/src/commons/index/dart/dart_algo.c
+++ b/src/commons/index/dart/dart_algo.c
@@ -205,8 +205,9 @@ md5_hash(int prefix_len, char *word)
 
     char *prefix = (char *)calloc(prefix_len + 1, sizeof(char));
     strncpy(prefix, word, prefix_len);
-    uint8_t digest;
-    md5((uint8_t *)prefix, strlen(prefix), &digest);
-    uint32_t inthash = to_int32(&digest);
+    uint8_t digest[16];
+    md5((uint8_t *)prefix, strlen(prefix), digest);
+    uint32_t inthash = to_int32(digest);
+    free(prefix);
     return inthash;
 }
-- 
2.43.0


From 84cfcdee285b13ccb826c4832a860b0f2b47f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:39 +0000
Subject: [PATCH 084/105] fix: case-insensitive comparison does not pass
 negative values to tolower

The result is undefined for them, and the order was not the one of
string_compare.
---
 src/commons/collections/pdc_compare.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/commons/collections/pdc_compare.c b/src/commons/collections/pdc_compare.c
index f217674..9f107c5 100644
--- a/src/commons/collections/pdc_compare.c
+++ b/src/commons/collections/pdc_compare.c
@@ -134,14 +134,14 @@ string_nocase_equal(void *string1, void *string2)
 int
 string_nocase_compare(void *string1, void *string2)
 {
-    char *p1;
-    char *p2;
-    int   c1, c2;
+    unsigned char *p1;
+    unsigned char *p2;
+    int            c1, c2;
 
     /* Iterate over each character in the strings */
 
-    p1 = (char *)string1;
-    p2 = (char *)string2;
+    p1 = (unsigned char *)string1;
+    p2 = (unsigned char *)string2;
 
     for (;;) {
 
-- 
2.43.0


From ebc14a9d8eb2e9c105bf27cf80c7507455fdceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 085/105] fix: a reference that cannot be added to an object is
 released

---
 src/tools/cjson/cJSON.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tools/cjson/cJSON.c b/src/tools/cjson/cJSON.c
index ebe3628..74df7a4 100644
--- a/src/tools/cjson/cJSON.c
+++ b/src/tools/cjson/cJSON.c
@@ -1898,11 +1898,19 @@ CJSON_PUBLIC(cJSON_bool) cJSON_AddItemReferenceToArray(cJSON *array, cJSON *item
 
 CJSON_PUBLIC(cJSON_bool) cJSON_AddItemReferenceToObject(cJSON *object, const char *string, cJSON *item)
 {
+    cJSON *reference = NULL;
+
     if ((object == NULL) || (string == NULL)) {
         return false;
     }
 
-    return add_item_to_object(object, string, create_reference(item, &global_hooks), &global_hooks, false);
+    reference = create_reference(item, &global_hooks);
+    if (!add_item_to_object(object, string, reference, &global_hooks, false)) {
+        cJSON_Delete(reference);
+        return false;
+    }
+
+    return true;
 }
 
 CJSON_PUBLIC(cJSON *) cJSON_AddNullToObject(cJSON *const object, const char *const name)
-- 
2.43.0


From 122da07e8d5c369c838e51f530de567c8712a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 086/105] fix: double keys of a hash table that are equal have
 equal hashes

---
 src/commons/collections/include/pdc_hash_table.h | 4 ++--
 src/commons/collections/pdc_hash_table.c         | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/commons/collections/include/pdc_hash_table.h b/src/commons/collections/include/pdc_hash_table.h
index e5c586f..4afc6b2 100644
--- a/src/commons/collections/include/pdc_hash_table.h
+++ b/src/commons/collections/include/pdc_hash_table.h
@@ -152,8 +152,8 @@ extern HashTableEqualFunc pdc_default_long_equal_func_ptr;
 extern HashTableHashFunc  pdc_default_uint64_hash_func_ptr;
 extern HashTableEqualFunc pdc_default_uint64_equal_func_ptr;
 
-extern HashTableHashFunc  pdc_default_double_hash;
-extern HashTableEqualFunc pdc_default_double_equal;
+extern HashTableHashFunc  pdc_default_double_hash_func_ptr;
+extern HashTableEqualFunc pdc_default_double_equal_func_ptr;
 
 /**
  * Create a new hash table.
diff --git a/src/commons/collections/pdc_hash_table.c b/src/commons/collections/pdc_hash_table.c
index c75bac5..fa6e723 100644
--- a/src/commons/collections/pdc_hash_table.c
+++ b/src/commons/collections/pdc_hash_table.c
@@ -131,7 +131,7 @@ pdc_default_double_hash_func(HashTableKey value)
     else {
         int    exp;
         double frexp_d = frexp(abs_d, &exp);
-        return (unsigned int)((frexp_d * (1 << 31)) + exp);
+        return (unsigned int)((frexp_d * (1U << 31)) + exp);
     }
 }
 
@@ -141,7 +141,8 @@ pdc_default_double_equal_func(HashTableKey value1, HashTableKey value2)
     double d1 = *(const double *)value1;
     double d2 = *(const double *)value2;
 
-    return fabs(d1 - d2) < 1e-9; // use a small epsilon for comparing floats
+    // no tolerance: keys that are equal must have the same hash
+    return d1 == d2;
 }
 
 /************ Default function pointer **************/
-- 
2.43.0


From fe580d69e112e5c326c15136cae398d375633b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 087/105] fix: looking up a closed or unknown handle does not
 crash

---
 src/commons/utils/include/pdc_linkedlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/utils/include/pdc_linkedlist.h b/src/commons/utils/include/pdc_linkedlist.h
index a9de691..1c04fdd 100644
--- a/src/commons/utils/include/pdc_linkedlist.h
+++ b/src/commons/utils/include/pdc_linkedlist.h
@@ -109,7 +109,7 @@
     for ((var) = ((head_ptr)->head); (var); (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH(var, head_ptr, entry_field_name, item, value)                                        \
-    for ((var) = ((head_ptr)->head); (((var)->item != value) && (var));                                      \
+    for ((var) = ((head_ptr)->head); ((var) && ((var)->item != value));                                      \
          (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH_CONT_NAME(var, head_ptr, entry_field_name, member, n, name)                          \
-- 
2.43.0


From e84f9e074cca2924a3e2ed0a08e588133823c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:35 +0000
Subject: [PATCH 088/105] fix: calls with closed or unknown handles fail
 instead of crashing the client

---
 src/api/pdc_client_connect.c             | 71 +++++++++++++++++-------
 src/api/pdc_obj/pdc_obj.c                | 11 +++-
 src/api/pdc_region/pdc_region.c          | 14 ++++-
 src/api/pdc_region/pdc_region_transfer.c | 18 +++++-
 4 files changed, 87 insertions(+), 27 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 0b10689..166cc54 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -5505,15 +5505,21 @@ PDC_Client_add_objects_to_container(int nobj, pdcid_t *local_obj_ids, pdcid_t lo
 
     obj_ids = (uint64_t *)malloc(sizeof(uint64_t) * nobj);
     for (i = 0; i < nobj; i++) {
-        id_info    = PDC_find_id(local_obj_ids[i]);
+        id_info = PDC_find_id(local_obj_ids[i]);
+        if (id_info == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object", pdc_client_mpi_rank_g);
         obj_ids[i] = ((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id;
     }
 
-    id_info      = PDC_find_id(local_cont_id);
+    id_info = PDC_find_id(local_cont_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container", pdc_client_mpi_rank_g);
     cont_meta_id = ((struct _pdc_cont_info *)(id_info->obj_ptr))->cont_info_pub->meta_id;
 
     ret_value = PDC_Client_add_del_objects_to_container(nobj, obj_ids, cont_meta_id, ADD_OBJ);
 
+done:
+    free(obj_ids);
     FUNC_LEAVE(ret_value);
 }
 
@@ -5531,15 +5537,21 @@ PDC_Client_del_objects_to_container(int nobj, pdcid_t *local_obj_ids, pdcid_t lo
 
     obj_ids = (uint64_t *)malloc(sizeof(uint64_t) * nobj);
     for (i = 0; i < nobj; i++) {
-        id_info    = PDC_find_id(local_obj_ids[i]);
+        id_info = PDC_find_id(local_obj_ids[i]);
+        if (id_info == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object", pdc_client_mpi_rank_g);
         obj_ids[i] = ((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id;
     }
 
-    id_info      = PDC_find_id(local_cont_id);
+    id_info = PDC_find_id(local_cont_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container", pdc_client_mpi_rank_g);
     cont_meta_id = ((struct _pdc_cont_info *)(id_info->obj_ptr))->cont_info_pub->meta_id;
 
     ret_value = PDC_Client_add_del_objects_to_container(nobj, obj_ids, cont_meta_id, DEL_OBJ);
 
+done:
+    free(obj_ids);
     FUNC_LEAVE(ret_value);
 }
 
@@ -7068,7 +7080,7 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     hg_return_t                    hg_ret    = 0;
     uint64_t                       meta_id;
     uint32_t                       server_id;
-    hg_handle_t                    metadata_add_kvtag_handle;
+    hg_handle_t                    metadata_add_kvtag_handle = HG_HANDLE_NULL;
     metadata_add_kvtag_in_t        in;
     struct _pdc_obj_info *         obj_prop;
     struct _pdc_cont_info *        cont_prop;
@@ -7077,13 +7089,17 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     FUNC_ENTER(NULL);
 
     if (is_cont == 0) {
-        obj_prop      = PDC_obj_get_info(obj_id);
+        obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object", pdc_client_mpi_rank_g);
         meta_id       = obj_prop->obj_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(obj_prop->obj_info_pub->name);
     }
     else {
-        cont_prop     = PDC_cont_get_info(obj_id);
+        cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container", pdc_client_mpi_rank_g);
         meta_id       = cont_prop->cont_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(cont_prop->cont_info_pub->name);
@@ -7127,7 +7143,8 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
 
 done:
     fflush(stdout);
-    HG_Destroy(metadata_add_kvtag_handle);
+    if (metadata_add_kvtag_handle != HG_HANDLE_NULL)
+        HG_Destroy(metadata_add_kvtag_handle);
 
     FUNC_LEAVE(ret_value);
 }
@@ -7176,7 +7193,7 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     hg_return_t                hg_ret    = 0;
     uint64_t                   meta_id;
     uint32_t                   server_id;
-    hg_handle_t                metadata_get_kvtag_handle;
+    hg_handle_t                metadata_get_kvtag_handle = HG_HANDLE_NULL;
     metadata_get_kvtag_in_t    in;
     struct _pdc_get_kvtag_args lookup_args;
     struct _pdc_obj_info *     obj_prop;
@@ -7185,13 +7202,17 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     FUNC_ENTER(NULL);
 
     if (is_cont == 0) {
-        obj_prop      = PDC_obj_get_info(obj_id);
+        obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object", pdc_client_mpi_rank_g);
         meta_id       = obj_prop->obj_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(obj_prop->obj_info_pub->name);
     }
     else {
-        cont_prop     = PDC_cont_get_info(obj_id);
+        cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container", pdc_client_mpi_rank_g);
         meta_id       = cont_prop->cont_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(cont_prop->cont_info_pub->name);
@@ -7227,7 +7248,8 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
 
 done:
     fflush(stdout);
-    HG_Destroy(metadata_get_kvtag_handle);
+    if (metadata_get_kvtag_handle != HG_HANDLE_NULL)
+        HG_Destroy(metadata_get_kvtag_handle);
 
     FUNC_LEAVE(ret_value);
 }
@@ -7475,7 +7497,7 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
     hg_return_t                    hg_ret    = 0;
     uint64_t                       meta_id;
     uint32_t                       server_id;
-    hg_handle_t                    metadata_del_kvtag_handle;
+    hg_handle_t                    metadata_del_kvtag_handle = HG_HANDLE_NULL;
     metadata_get_kvtag_in_t        in;
     struct _pdc_obj_info *         obj_prop;
     struct _pdc_cont_info *        cont_prop;
@@ -7485,11 +7507,15 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
 
     if (is_cont) {
         cont_prop = PDC_cont_get_info(obj_id);
-        meta_id   = cont_prop->cont_info_pub->meta_id;
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container", pdc_client_mpi_rank_g);
+        meta_id = cont_prop->cont_info_pub->meta_id;
     }
     else {
         obj_prop = PDC_obj_get_info(obj_id);
-        meta_id  = obj_prop->obj_info_pub->meta_id;
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object", pdc_client_mpi_rank_g);
+        meta_id = obj_prop->obj_info_pub->meta_id;
     }
 
     server_id = PDC_get_server_by_obj_id(meta_id, pdc_server_num_g);
@@ -7525,7 +7551,8 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
 
 done:
     fflush(stdout);
-    HG_Destroy(metadata_del_kvtag_handle);
+    if (metadata_del_kvtag_handle != HG_HANDLE_NULL)
+        HG_Destroy(metadata_del_kvtag_handle);
 
     FUNC_LEAVE(ret_value);
 }
@@ -7731,7 +7758,9 @@ PDCobj_put_data(const char *obj_name, void *data, uint64_t size, pdcid_t cont_id
     FUNC_ENTER(NULL);
 
     id_info = PDC_find_id(cont_id);
-    info    = (struct _pdc_cont_info *)(id_info->obj_ptr);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "==PDC_CLIENT[%d]: cannot locate container", pdc_client_mpi_rank_g);
+    info = (struct _pdc_cont_info *)(id_info->obj_ptr);
 
     obj_prop = PDCprop_create(PDC_OBJ_CREATE, info->cont_pt->pdc->local_id);
     PDCprop_set_obj_type(obj_prop, PDC_CHAR);
@@ -7838,11 +7867,15 @@ PDC_Client_del_metadata(pdcid_t obj_id, int is_cont)
 
     if (is_cont) {
         cont_prop = PDC_cont_get_info(obj_id);
-        meta_id   = cont_prop->cont_info_pub->meta_id;
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container", pdc_client_mpi_rank_g);
+        meta_id = cont_prop->cont_info_pub->meta_id;
     }
     else {
         obj_prop = PDC_obj_get_info(obj_id);
-        meta_id  = obj_prop->obj_info_pub->meta_id;
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object", pdc_client_mpi_rank_g);
+        meta_id = obj_prop->obj_info_pub->meta_id;
     }
 
     ret_value = PDC_Client_delete_metadata_by_id(meta_id);
diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 1fec56a..7c5699f 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -239,6 +239,11 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
 
     FUNC_ENTER(NULL);
 
+    if (PDC_find_id(cont_id) == NULL)
+        PGOTO_ERROR(0, "cannot locate container ID");
+    if (PDC_find_id(obj_prop_id) == NULL)
+        PGOTO_ERROR(0, "cannot locate object property ID");
+
     p = (struct _pdc_obj_info *)PDC_malloc(sizeof(struct _pdc_obj_info));
     if (!p)
         PGOTO_ERROR(0, "PDC object memory allocation failed");
@@ -1016,14 +1021,14 @@ PDCobj_get_dims(pdcid_t obj_id, int *ndim, uint64_t **dims)
     FUNC_ENTER(NULL);
 
     info = PDC_find_id(obj_id);
-    if (info == NULL) {
-        fprintf(stderr, "PDCobj_set_dims: cannnot find obj id @ line %d\n", __LINE__);
-    }
+    if (info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object ID");
     object = (struct _pdc_obj_info *)(info->obj_ptr);
     *ndim  = object->obj_pt->obj_prop_pub->ndim;
     *dims  = (uint64_t *)malloc(sizeof(uint64_t) * ndim[0]);
     memcpy(*dims, object->obj_pt->obj_prop_pub->dims, sizeof(uint64_t) * ndim[0]);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
diff --git a/src/api/pdc_region/pdc_region.c b/src/api/pdc_region/pdc_region.c
index 5b5aa1f..8d52f2f 100644
--- a/src/api/pdc_region/pdc_region.c
+++ b/src/api/pdc_region/pdc_region.c
@@ -223,7 +223,9 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     FUNC_ENTER(NULL);
 
     reginfo1 = PDC_find_id(local_reg);
-    reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
+    if (reginfo1 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate local region ID");
+    reg1 = (struct pdc_region_info *)(reginfo1->obj_ptr);
 
     objinfo2 = PDC_find_id(remote_obj);
     if (objinfo2 == NULL)
@@ -234,7 +236,9 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     remote_type    = obj2->obj_pt->obj_prop_pub->type;
 
     reginfo2 = PDC_find_id(remote_reg);
-    reg2     = (struct pdc_region_info *)(reginfo2->obj_ptr);
+    if (reginfo2 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate remote region ID");
+    reg2 = (struct pdc_region_info *)(reginfo2->obj_ptr);
     if (obj2->obj_pt->obj_prop_pub->ndim != reg2->ndim)
         PGOTO_ERROR(FAIL, "remote object dimension and region dimension does not match");
     for (i = 0; i < reg2->ndim; i++)
@@ -335,7 +339,9 @@ PDCreg_obtain_lock(pdcid_t obj_id, pdcid_t reg_id, pdc_access_t access_type, pdc
     // object_info = PDC_obj_get_info(obj_id);
     data_type   = object_info->obj_pt->obj_prop_pub->type;
     region_info = PDCregion_get_info(reg_id);
-    ret_value   = PDC_Client_region_lock(object_info->obj_info_pub->meta_id, object_info, region_info,
+    if (region_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate region ID");
+    ret_value = PDC_Client_region_lock(object_info->obj_info_pub->meta_id, object_info, region_info,
                                        access_type, lock_mode, data_type, &obtained);
 
     // PDC_free_obj_info(object_info);
@@ -362,6 +368,8 @@ PDCreg_release_lock(pdcid_t obj_id, pdcid_t reg_id, pdc_access_t access_type)
     // object_info = PDC_obj_get_info(obj_id);
     data_type   = object_info->obj_pt->obj_prop_pub->type;
     region_info = PDCregion_get_info(reg_id);
+    if (region_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate region ID");
 
     ret_value = PDC_Client_region_release(object_info->obj_info_pub->meta_id, object_info, region_info,
                                           access_type, data_type, &released);
diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 842509d..ae022df 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -199,8 +199,12 @@ PDCregion_transfer_create(void *buf, pdc_access_t access_type, pdcid_t obj_id, p
 
     FUNC_ENTER(NULL);
     reginfo1 = PDC_find_id(local_reg);
+    if (reginfo1 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate local region ID");
     reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
     reginfo2 = PDC_find_id(remote_reg);
+    if (reginfo2 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate remote region ID");
     reg2     = (struct pdc_region_info *)(reginfo2->obj_ptr);
     objinfo2 = PDC_find_id(obj_id);
     if (objinfo2 == NULL)
@@ -1454,6 +1458,8 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
     FUNC_ENTER(NULL);
 
     transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request");
 
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
 
@@ -1622,7 +1628,9 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
 
     FUNC_ENTER(NULL);
 
-    transferinfo     = PDC_find_id(transfer_request_id);
+    transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
     if (transfer_request->metadata_id != NULL) {
         unit = transfer_request->unit;
@@ -1740,6 +1748,10 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
     }
 
     // printf("entered PDCregion_transfer_wait_all @ line %d\n", __LINE__);
+    for (i = 0; i < size; ++i) {
+        if (PDC_find_id(transfer_request_id[i]) == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate transfer request");
+    }
     total_requests        = 0;
     transfer_request_head = NULL;
     for (i = 0; i < size; ++i) {
@@ -1944,7 +1956,9 @@ PDCregion_transfer_wait(pdcid_t transfer_request_id)
 
     FUNC_ENTER(NULL);
 
-    transferinfo     = PDC_find_id(transfer_request_id);
+    transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
     if (transfer_request->metadata_id != NULL) {
         // For region dynamic case, it is implemented in the aggregated version for portability.
-- 
2.43.0


From 85da78e2c81507a47c5adeb8dab551db6d314687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 089/105] fix: elements of every fixed-size data type have
 their size

---
 src/server/pdc_client_server_common.c | 28 +++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 00b5493..cac6ed1 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -287,6 +287,34 @@ PDC_get_var_type_size(pdc_var_type_t dtype)
             ret_value = sizeof(uint);
             goto done;
             break;
+        case PDC_SHORT:
+            ret_value = sizeof(short);
+            goto done;
+            break;
+        case PDC_BOOLEAN:
+            ret_value = sizeof(bool);
+            goto done;
+            break;
+        case PDC_INT32:
+            ret_value = sizeof(int32_t);
+            goto done;
+            break;
+        case PDC_UINT32:
+            ret_value = sizeof(uint32_t);
+            goto done;
+            break;
+        case PDC_LONG:
+            ret_value = sizeof(long);
+            goto done;
+            break;
+        case PDC_VOID_PTR:
+            ret_value = sizeof(void *);
+            goto done;
+            break;
+        case PDC_SIZE_T:
+            ret_value = sizeof(size_t);
+            goto done;
+            break;
         case PDC_UNKNOWN:
         default:
             PGOTO_ERROR(
-- 
2.43.0


From 8ba747b93bdc61021fa299bf94da6acdea881366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 090/105] fix: a vector that cannot grow keeps its items

---
 src/commons/collections/pdc_vector.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/commons/collections/pdc_vector.c b/src/commons/collections/pdc_vector.c
index 47ded4b..699c2f7 100644
--- a/src/commons/collections/pdc_vector.c
+++ b/src/commons/collections/pdc_vector.c
@@ -58,11 +58,14 @@ pdc_vector_add(PDC_VECTOR *vector, void *item)
     if (vector->item_count >= vector->capacity) {
         size_t new_capacity = vector->capacity * vector->expansion_factor;
         // small capacities and factors must still make room for one more item
-        vector->capacity = new_capacity > vector->capacity ? new_capacity : vector->capacity + 1;
-        vector->items = (void **)realloc(vector->items, vector->capacity * sizeof(void *));
-        if (vector->items == NULL) {
+        if (new_capacity <= vector->capacity)
+            new_capacity = vector->capacity + 1;
+        void **new_items = (void **)realloc(vector->items, new_capacity * sizeof(void *));
+        if (new_items == NULL) {
             return;
         }
+        vector->items    = new_items;
+        vector->capacity = new_capacity;
     }
 
     // Add the new item to the end of the array.
-- 
2.43.0


From 883722fa4499d94f41765c31bdb84b95164104a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 091/105] fix: a hash table that cannot grow keeps its size

---
 src/commons/profiling/pdc_hashtab.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/commons/profiling/pdc_hashtab.c b/src/commons/profiling/pdc_hashtab.c
index c0926c3..e2c4581 100644
--- a/src/commons/profiling/pdc_hashtab.c
+++ b/src/commons/profiling/pdc_hashtab.c
@@ -277,8 +277,10 @@ static int htab_expand(htab) htab_t htab;
     htab->size = higher_prime_number(htab->size * 2);
 
     nentries = (PTR *)(*htab->alloc_f)(htab->size, sizeof(PTR *));
-    if (nentries == NULL)
+    if (nentries == NULL) {
+        htab->size = olimit - oentries;
         return 0;
+    }
     htab->entries = nentries;
     htab->n_elements -= htab->n_deleted;
     htab->n_deleted = 0;
-- 
2.43.0


From bec7e6daf289128a255fde18c6b3a69532902a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:50 +0000
Subject: [PATCH 092/105] fix: a file write that does not reach the file is not
 reported as done

---
 src/commons/file/common_io.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/commons/file/common_io.c b/src/commons/file/common_io.c
index c52a0e2..07e7318 100644
--- a/src/commons/file/common_io.c
+++ b/src/commons/file/common_io.c
@@ -134,8 +134,7 @@ write_text_file(char *filename, char **lines, size_t num_lines)
             return 1;
         }
     }
-    close_file(fp);
-    return 0;
+    return close_file(fp);
 }
 
 int
@@ -160,8 +159,7 @@ write_binary_file(char *filename, void *buffer, size_t size)
         close_file(fp);
         return 1;
     }
-    close_file(fp);
-    return 0;
+    return close_file(fp);
 }
 
 int
@@ -183,6 +181,5 @@ update_binary_file(char *filename, void *buffer, size_t size, unsigned long star
         close_file(fp);
         return 1;
     }
-    close_file(fp);
-    return 0;
+    return close_file(fp);
 }
\ No newline at end of file
-- 
2.43.0


From 455f0b247c3443499157ef55dbec2f2c402d260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:09 +0000
Subject: [PATCH 093/105] fix: exponential random numbers have the mean asked
 for

---
 src/commons/index/dart/dart_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/index/dart/dart_utils.c b/src/commons/index/dart/dart_utils.c
index 2024b9b..5f821da 100644
--- a/src/commons/index/dart/dart_utils.c
+++ b/src/commons/index/dart/dart_utils.c
@@ -51,7 +51,7 @@ double
 random_exponential(double mean)
 {
     // returns numbers based on exp distr given mean
-    double x = 1.0 / mean; // inverse lambda
+    double x = mean; // inverse lambda
 
     double u; // this will be my uniform random variable
     double exp_value;
-- 
2.43.0


From 52bb7beedbc4d5714931cdf092de53af4a15665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:07 +0000
Subject: [PATCH 094/105] fix: the profile report shows the mean time of a call

---
 src/commons/profiling/pdc_stack_ops.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/commons/profiling/pdc_stack_ops.c b/src/commons/profiling/pdc_stack_ops.c
index fab9f27..c4daf66 100644
--- a/src/commons/profiling/pdc_stack_ops.c
+++ b/src/commons/profiling/pdc_stack_ops.c
@@ -195,9 +195,10 @@ show_profile_info(void **ht_live_entry, void *extraInfo ATTRIBUTE(unused))
         int64_t         totalCalls = thisEntry->count;
         if (count == 0)
             puts(header);
-        totalTime = thisEntry->totalTime;
+        totalTime         = thisEntry->totalTime;
+        int64_t timePerCall = (totalTime.tv_sec * (int64_t)1000000000 + totalTime.tv_nsec) / totalCalls;
         printf("%s\n %d\t%-6" PRId64 " %6" PRId64 ",%6" PRId64 "\t\t %s\n", LineBreak, ++count, totalCalls,
-               totalTime.tv_sec / totalCalls, totalTime.tv_nsec / totalCalls, thisEntry->ftnkey);
+               timePerCall / 1000000000, timePerCall % 1000000000, thisEntry->ftnkey);
     }
 
     return TRUE;
-- 
2.43.0


From 08fe4d4ed90540c69ef19aaeca4d40b49ed72bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 095/105] fix: a text file that cannot be read to its end is
 closed

---
 src/commons/file/common_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/commons/file/common_io.c b/src/commons/file/common_io.c
index 07e7318..aebe34e 100644
--- a/src/commons/file/common_io.c
+++ b/src/commons/file/common_io.c
@@ -116,6 +116,8 @@ read_text_file(char *filename, void (*callback)(char *line))
     }
     if (ferror(fp)) {
         fprintf(stderr, "Error reading file\n");
+        free(line);
+        close_file(fp);
         return 1;
     }
     free(line);
-- 
2.43.0


From dffa9d060604af113ac0c132cd80f1c74fd63d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:45 +0000
Subject: [PATCH 096/105] fix: a full bloom filter counter is not decremented,
 it may stand for more elements than it can count

---
 src/server/dablooms/pdc_dablooms.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/dablooms/pdc_dablooms.c b/src/server/dablooms/pdc_dablooms.c
index a602933..d4f55cc 100644
--- a/src/server/dablooms/pdc_dablooms.c
+++ b/src/server/dablooms/pdc_dablooms.c
@@ -121,6 +121,10 @@ bitmap_decrement(bitmap_t *bitmap, unsigned int index, long offset)
         return -1;
     }
 
+    /* a full counter has refused increments, how many is not known: it stays */
+    if (temp == 0x0f)
+        return 0;
+
     bitmap->array[access] = n;
     return 0;
 }
-- 
2.43.0


From 374798c5d96d3e86e583de6d872952e873a00998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:16 +0000
Subject: [PATCH 097/105] fix: pdc_ls finds the checkpoints of a directory,
 complete ones only, however its name is written

---
 src/tools/pdc_ls.c | 125 +++++++++++++++------------------------------
 1 file changed, 40 insertions(+), 85 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index c480029..41f1d05 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -114,12 +114,31 @@ int    pdc_server_rank_g = 0;
 int    pdc_server_size_g = 1;
 double total_mem_usage_g = 0.0;
 
-int
-isDir(const char *fileName)
+// A complete checkpoint of one server: not the one still being written
+static int
+is_checkpoint(const char *fileName)
+{
+    const char *prefix = "metadata_checkpoint.";
+    size_t      len    = strlen(prefix);
+
+    return strncmp(fileName, prefix, len) == 0 && fileName[len] != '\0' &&
+           strspn(fileName + len, "0123456789") == strlen(fileName + len);
+}
+
+static void
+add_file(FileNameNode **head, FileNameNode **tail, const char *dir_name, const char *file_name)
 {
-    struct stat path;
-    stat(fileName, &path);
-    return S_ISREG(path.st_mode);
+    FileNameNode *new_node = (FileNameNode *)malloc(sizeof(FileNameNode));
+
+    new_node->file_name = (char *)malloc(strlen(dir_name) + strlen(file_name) + 2);
+    new_node->next      = NULL;
+    sprintf(new_node->file_name, "%s%s%s", dir_name, dir_name[strlen(dir_name) - 1] == '/' ? "" : "/",
+            file_name);
+    if (*head == NULL)
+        *head = new_node;
+    else
+        (*tail)->next = new_node;
+    *tail = new_node;
 }
 
 static void pdc_ls(FileNameNode *file_name_node, int argc, char *argv[]);
@@ -135,7 +154,7 @@ main(int argc, char *argv[])
     else {
         FileNameNode * head     = NULL;
         FileNameNode * cur_node = NULL;
-        DIR *          d;
+        DIR *          d, *d1;
         struct dirent *dir;
         struct dirent *direc;
         d = opendir(argv[1]);
@@ -143,88 +162,24 @@ main(int argc, char *argv[])
 
         if (d) {
             while ((dir = readdir(d)) != NULL) {
-                // if it's directory
-                if (!isDir(dir->d_name)) {
-                    if (strstr(dir->d_name, ".")) {
-                        // ignore parent and current directories
-                        continue;
-                    }
-                    // appends path together
-                    char tmp[1024];
-                    sprintf(tmp, "%s/%s", argv[1], dir->d_name);
-                    DIR *d1 = opendir(tmp);
-                    /* printf("%s\n", tmp); */
-
-                    while ((direc = readdir(d1)) != NULL) { // go into it and go for checkpoint files again
-                        if (strstr(direc->d_name, "metadata_checkpoint.")) {
-                            // printf("getting checkpoints\n");
-                            char last = argv[1][strlen(argv[1]) - 1];
-                            if (last == '/') {
-                                full_path = (char *)malloc(sizeof(char) *
-                                                           (strlen(argv[1]) + strlen(direc->d_name) + 1));
-                                strcpy(full_path, argv[1]);
-                                strcat(full_path, direc->d_name);
-                                strcat(full_path, "/");
-                                strcat(full_path, direc->d_name);
-                            }
-                            else {
-                                full_path = (char *)malloc(sizeof(char) *
-                                                           (strlen(argv[1]) + strlen(direc->d_name) + 2));
-                                strcpy(full_path, argv[1]);
-                                strcat(full_path, "/");
-                                strcat(full_path, dir->d_name);
-                                strcat(full_path, "/");
-                                strcat(full_path, direc->d_name);
-                            }
-                            if (head == NULL) {
-                                FileNameNode *new_node = (FileNameNode *)malloc(sizeof(FileNameNode));
-                                new_node->file_name    = full_path;
-                                new_node->next         = NULL;
-                                head                   = new_node;
-                                cur_node               = new_node;
-                            }
-                            else {
-                                FileNameNode *new_node = (FileNameNode *)malloc(sizeof(FileNameNode));
-                                new_node->file_name    = full_path;
-                                new_node->next         = NULL;
-                                cur_node->next         = new_node;
-                                cur_node               = new_node;
-                            }
-                        }
-                    }
-                    closedir(d1);
+                if (strcmp(dir->d_name, ".") == 0 || strcmp(dir->d_name, "..") == 0) {
+                    // ignore parent and current directories
+                    continue;
                 }
-                if (strstr(dir->d_name, "metadata_checkpoint.")) {
-                    printf("%s\n", dir->d_name);
-                    char last = argv[1][strlen(argv[1]) - 1];
-                    if (last == '/') {
-                        full_path =
-                            (char *)malloc(sizeof(char) * (strlen(argv[1]) + strlen(dir->d_name) + 1));
-                        strcpy(full_path, argv[1]);
-                        strcat(full_path, dir->d_name);
-                    }
-                    else {
-                        full_path =
-                            (char *)malloc(sizeof(char) * (strlen(argv[1]) + strlen(dir->d_name) + 2));
-                        strcpy(full_path, argv[1]);
-                        strcat(full_path, "/");
-                        strcat(full_path, dir->d_name);
-                    }
-                    if (head == NULL) {
-                        FileNameNode *new_node = (FileNameNode *)malloc(sizeof(FileNameNode));
-                        new_node->file_name    = full_path;
-                        new_node->next         = NULL;
-                        head                   = new_node;
-                        cur_node               = new_node;
-                    }
-                    else {
-                        FileNameNode *new_node = (FileNameNode *)malloc(sizeof(FileNameNode));
-                        new_node->file_name    = full_path;
-                        new_node->next         = NULL;
-                        cur_node->next         = new_node;
-                        cur_node               = new_node;
+                // appends path together
+                full_path = (char *)malloc(strlen(argv[1]) + strlen(dir->d_name) + 2);
+                sprintf(full_path, "%s/%s", argv[1], dir->d_name);
+                d1 = opendir(full_path);
+                if (d1) { // go into it and go for checkpoint files again
+                    while ((direc = readdir(d1)) != NULL) {
+                        if (is_checkpoint(direc->d_name))
+                            add_file(&head, &cur_node, full_path, direc->d_name);
                     }
+                    closedir(d1);
                 }
+                else if (is_checkpoint(dir->d_name))
+                    add_file(&head, &cur_node, argv[1], dir->d_name);
+                free(full_path);
             } // End if dir = readdir
             closedir(d);
         } // Ene if d
-- 
2.43.0


From 0fbb3c8d00107092436e43f704868c296ffa545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:16 +0000
Subject: [PATCH 098/105] fix: pdc_ls and pdc_export read the object lists and
 tags that checkpoints hold for containers

---
 src/tools/pdc_export.c | 16 ++++++++++++++++
 src/tools/pdc_ls.c     | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/tools/pdc_export.c b/src/tools/pdc_export.c
index 3614fa9..d01184e 100644
--- a/src/tools/pdc_export.c
+++ b/src/tools/pdc_export.c
@@ -381,6 +381,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         perr_t ret_value = SUCCEED;
         int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0,
                                   n_kvtag, key_len;
+        uint32_t kvtag_size;
         int                          n_cont, all_cont;
         pdc_metadata_t *             metadata, *elt;
         region_list_t *              region_list;
@@ -412,6 +413,21 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
             if (fread(cont_entry, sizeof(pdc_cont_hash_table_entry_t), 1, file) != 1) {
                 printf("Read failed for cont_entry\n");
             }
+            // Skip the ids of the container's objects and its kv tags
+            if (cont_entry->n_obj > 0)
+                fseek(file, sizeof(uint64_t) * cont_entry->n_obj, SEEK_CUR);
+            if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
+                printf("Read failed for n_kvtag\n");
+                return;
+            }
+            for (j = 0; j < n_kvtag; j++) {
+                if (fread(&key_len, sizeof(int), 1, file) != 1 || fseek(file, key_len, SEEK_CUR) != 0 ||
+                    fread(&kvtag_size, sizeof(uint32_t), 1, file) != 1 ||
+                    fseek(file, sizeof(int8_t) + kvtag_size, SEEK_CUR) != 0) {
+                    printf("Read failed for container kvtag\n");
+                    return;
+                }
+            }
 
             n_cont--;
         } // End while
diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 41f1d05..7ec32d4 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -393,6 +393,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         perr_t ret_value = SUCCEED;
         int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0,
                                   n_kvtag, key_len;
+        uint32_t kvtag_size;
         int                          n_cont, all_cont;
         pdc_metadata_t *             metadata, *elt;
         region_list_t *              region_list;
@@ -426,6 +427,21 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 printf("Read failed for cont_entry\n");
                 return;
             }
+            // Skip the ids of the container's objects and its kv tags
+            if (cont_entry->n_obj > 0)
+                fseek(file, sizeof(uint64_t) * cont_entry->n_obj, SEEK_CUR);
+            if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
+                printf("Read failed for n_kvtag\n");
+                return;
+            }
+            for (j = 0; j < n_kvtag; j++) {
+                if (fread(&key_len, sizeof(int), 1, file) != 1 || fseek(file, key_len, SEEK_CUR) != 0 ||
+                    fread(&kvtag_size, sizeof(uint32_t), 1, file) != 1 ||
+                    fseek(file, sizeof(int8_t) + kvtag_size, SEEK_CUR) != 0) {
+                    printf("Read failed for container kvtag\n");
+                    return;
+                }
+            }
 
             n_cont--;
         } // End while
-- 
2.43.0


From 40b5a9a62c5cacd3295b85ca84fdd9cc1d22bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:12 +0000
Subject: [PATCH 099/105] fix: pdc_ls makes room for a whole object's region
 placements and keeps all of them

---
 src/tools/pdc_ls.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 7ec32d4..5c203a7 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -270,14 +270,15 @@ do_transfer_request_metadata(int pdc_server_size_input, char *checkpoint)
         for (i = 0; i < n_objs; ++i) {
             if (metadata_server_objs) {
                 metadata_server_objs_end->next =
-                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs_end->next;
             }
             else {
-                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs;
             }
 
+            metadata_server_objs_end->next   = NULL;
             metadata_server_objs_end->obj_id = *(uint64_t *)ptr;
             ptr += sizeof(uint64_t);
             metadata_server_objs_end->ndim = *(int *)ptr;
@@ -301,7 +302,7 @@ do_transfer_request_metadata(int pdc_server_size_input, char *checkpoint)
             ptr += sizeof(uint64_t) * metadata_server_objs_end->ndim * 2;
 
             for (j = 1; j < reg_count; ++j) {
-                metadata_server_objs_end->regions->next =
+                metadata_server_objs_end->regions_end->next =
                     (pdc_region_metadata_pkg *)malloc(sizeof(pdc_region_metadata_pkg));
                 metadata_server_objs_end->regions_end = metadata_server_objs_end->regions_end->next;
 
-- 
2.43.0


From e937d2f54f4411e1393be8e72dadcdfeb09ce0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:12 +0000
Subject: [PATCH 100/105] fix: pdc_ls lists the regions of objects whose
 metadata is in another server's checkpoint

---
 src/tools/pdc_ls.c | 49 +++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 5c203a7..d2e3977 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -375,6 +375,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
 
     char *        filename;
     MetadataNode *metadata_head   = NULL;
+    RegionNode *  region_head     = NULL;
     RegionNode *  cur_region_node = NULL;
     FileNameNode *cur_file_node   = file_name_node;
 
@@ -588,7 +589,6 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                     }
 
                 } // For j
-                total_region += n_region;
             } // For i
 
             nobj += count;
@@ -612,30 +612,20 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
                 printf("Read failed for n_region\n");
             }
-            MetadataNode *wanted_node = metadata_head;
-            while (wanted_node != NULL) {
-                if (wanted_node->metadata_ptr->obj_id == new_obj_reg->obj_id) {
-                    break;
-                }
-                wanted_node = wanted_node->next;
-            }
-            RegionNode *cur_region = wanted_node->region_list_head;
             for (j = 0; j < n_region; j++) {
                 region_list_t *new_region_list = (region_list_t *)malloc(sizeof(region_list_t));
                 if (fread(new_region_list, sizeof(region_list_t), 1, file) != 1) {
                     printf("Read failed for new_region_list\n");
                 }
-                RegionNode *new_node  = (RegionNode *)malloc(sizeof(RegionNode));
-                new_node->region_list = new_region_list;
-                new_node->next        = NULL;
-                if (cur_region == NULL) {
-                    wanted_node->region_list_head = new_node;
-                    cur_region                    = new_node;
-                }
-                else {
-                    cur_region->next = new_node;
-                    cur_region       = new_node;
-                }
+                new_region_list->obj_id = new_obj_reg->obj_id;
+                RegionNode *new_node    = (RegionNode *)malloc(sizeof(RegionNode));
+                new_node->region_list   = new_region_list;
+                new_node->next          = NULL;
+                if (region_head == NULL)
+                    region_head = new_node;
+                else
+                    cur_region_node->next = new_node;
+                cur_region_node = new_node;
             }
         }
 
@@ -683,6 +673,25 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         cur_file_node = cur_file_node->next;
     }
 
+    // Assign the regions of all data servers to their objects
+    while (region_head != NULL) {
+        cur_region_node           = region_head;
+        region_head               = region_head->next;
+        cur_region_node->next     = NULL;
+        MetadataNode *wanted_node = metadata_head;
+        while (wanted_node != NULL &&
+               wanted_node->metadata_ptr->obj_id != cur_region_node->region_list->obj_id)
+            wanted_node = wanted_node->next;
+        // Nothing to list for an object that has been deleted
+        if (wanted_node == NULL)
+            continue;
+        RegionNode **end = &wanted_node->region_list_head;
+        while (*end != NULL)
+            end = &(*end)->next;
+        *end = cur_region_node;
+        all_n_region_total++;
+    }
+
     // Create JSON
     MetadataNode *  cur_m_node = metadata_head;
     RegionNode *    cur_r_node;
-- 
2.43.0


From 4cb4a2973fd4363142d47b284f8c23ddf9a8a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:12 +0000
Subject: [PATCH 101/105] fix: pdc_ls writes its listing before it closes the
 file, and as it is

---
 src/tools/pdc_ls.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index d2e3977..bcf8941 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -847,6 +847,10 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
     FILE *fp;
     if (output_file_name) {
         fp = fopen(output_file_name, "w");
+        if (fp == NULL) {
+            printf("Unable to open output file [%s].\n", output_file_name);
+            return;
+        }
         printf("Output to [%s]\n", output_file_name);
     }
     else {
@@ -869,11 +873,8 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 all_n_region_total);
         cJSON_AddStringToObject(output, "summary", buf);
     }
-    if (output_file_name) {
-        fclose(fp);
-    }
     char *json_string = cJSON_Print(output);
-    fprintf(fp, json_string);
+    fputs(json_string, fp);
     fprintf(fp, "\n");
     if (output_file_name)
         fclose(fp);
-- 
2.43.0


From a5f500913005e7ec2f38648e0d97993092531d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:12 +0000
Subject: [PATCH 102/105] fix: pdc_ls lists the objects of a container together

---
 src/tools/pdc_ls.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index bcf8941..798ac36 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -4,6 +4,7 @@
 #include <dirent.h>
 #include <regex.h>
 #include <time.h>
+#include <inttypes.h>
 #include <sys/stat.h>
 #include <sys/types.h>
 
@@ -708,13 +709,13 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
     cJSON *         count_arr_json   = NULL;
     cJSON *         start_arr_json   = NULL;
     cJSON *         output           = cJSON_CreateObject();
-    int             prev_cont_id     = -1;
     char            buf[1024];
     while (cur_m_node != NULL) {
         cur_metadata = cur_m_node->metadata_ptr;
-        if (prev_cont_id != cur_metadata->cont_id) {
+        sprintf(buf, "cont_id: %" PRIu64, cur_metadata->cont_id);
+        cont_id_json = cJSON_GetObjectItem(output, buf);
+        if (cont_id_json == NULL) {
             cont_id_json = cJSON_CreateArray();
-            sprintf(buf, "cont_id: %d", cur_metadata->cont_id);
             cJSON_AddItemToObject(output, buf, cont_id_json);
         }
         add_obj = 1;
@@ -840,8 +841,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
             cJSON_AddItemToArray(cont_id_json, cur_obj_json);
         }
 
-        prev_cont_id = cur_metadata->cont_id;
-        cur_m_node   = cur_m_node->next;
+        cur_m_node = cur_m_node->next;
     }
 
     FILE *fp;
-- 
2.43.0


From b17d9cf0e145b3d98f984a482a0c0d26111c6ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:12 +0000
Subject: [PATCH 103/105] fix: pdc_ls lists ids, dimensions and offsets beyond
 31 bits

---
 src/tools/pdc_ls.c | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 798ac36..6f5ea63 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -216,6 +216,16 @@ region_cmp(region_list_t *a, region_list_t *b)
     return memcmp(a->start, b->start, unit_size);
 }
 
+static cJSON *
+number_array(const uint64_t *values, int count)
+{
+    cJSON *array = cJSON_CreateArray();
+
+    for (int i = 0; i < count; i++)
+        cJSON_AddItemToArray(array, cJSON_CreateNumber(values[i]));
+    return array;
+}
+
 char *
 get_data_type(int data_type)
 {
@@ -792,7 +802,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 add(obj_names, cur_metadata->obj_name);
             }
             if (list_ids) {
-                sprintf(buf, "%d", cur_metadata->obj_id);
+                sprintf(buf, "%" PRIu64, cur_metadata->obj_id);
                 add(obj_ids, buf);
             }
             cur_obj_json = cJSON_CreateObject();
@@ -804,11 +814,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
             data_type = get_data_type(cur_metadata->data_type);
             cJSON_AddStringToObject(cur_obj_json, "data_type", data_type);
             cJSON_AddNumberToObject(cur_obj_json, "num_dims", cur_metadata->ndim);
-            int dims[cur_metadata->ndim];
-            for (int i = 0; i < (cur_metadata->ndim); i++) {
-                dims[i] = (cur_metadata->dims)[i];
-            }
-            dim_arr_json = cJSON_CreateIntArray(dims, cur_metadata->ndim);
+            dim_arr_json = number_array(cur_metadata->dims, cur_metadata->ndim);
             cJSON_AddItemToObject(cur_obj_json, "dims", dim_arr_json);
             cJSON_AddNumberToObject(cur_obj_json, "time_step", cur_metadata->time_step);
 
@@ -820,15 +826,9 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 cJSON_AddStringToObject(region_info_json, "storage_loc", cur_region->storage_location);
                 cJSON_AddNumberToObject(region_info_json, "offset", cur_region->offset);
                 cJSON_AddNumberToObject(region_info_json, "num_dims", cur_region->ndim);
-                for (int i = 0; i < (cur_metadata->ndim); i++) {
-                    dims[i] = (cur_region->start)[i];
-                }
-                start_arr_json = cJSON_CreateIntArray(dims, cur_region->ndim);
+                start_arr_json = number_array(cur_region->start, cur_region->ndim);
                 cJSON_AddItemToObject(region_info_json, "start", start_arr_json);
-                for (int i = 0; i < (cur_metadata->ndim); i++) {
-                    dims[i] = (cur_region->count)[i];
-                }
-                count_arr_json = cJSON_CreateIntArray(dims, cur_region->ndim);
+                count_arr_json = number_array(cur_region->count, cur_region->ndim);
                 cJSON_AddItemToObject(region_info_json, "count", count_arr_json);
                 cJSON_AddNumberToObject(region_info_json, "unit_size", cur_region->unit_size);
                 data_type = get_data_loc_type(cur_region->data_loc_type);
@@ -861,11 +861,10 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         cJSON_AddItemToObject(output, "all_obj_names", all_names_json);
     }
     if (list_ids) {
-        int id_arr[obj_ids->length];
+        cJSON *all_ids_json = cJSON_CreateArray();
         for (int i = 0; i < obj_ids->length; i++) {
-            id_arr[i] = atoi(obj_ids->items[i]);
+            cJSON_AddItemToArray(all_ids_json, cJSON_CreateNumber(strtoull(obj_ids->items[i], NULL, 10)));
         }
-        cJSON *all_ids_json = cJSON_CreateIntArray(id_arr, obj_ids->length);
         cJSON_AddItemToObject(output, "all_obj_ids", all_ids_json);
     }
     if (summary) {
-- 
2.43.0


From af53cc3598fa990f2cd374e69386fdd38689e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:12 +0000
Subject: [PATCH 104/105] fix: pdc_ls takes the object id asked for as a
 regular expression

---
 src/tools/pdc_ls.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 6f5ea63..518f80e 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -337,7 +337,7 @@ void
 pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
 {
     char *wanted_name      = NULL;
-    int   wanted_id        = 0;
+    char *wanted_id        = NULL;
     char *output_file_name = NULL;
     int   list_names       = 0;
     int   list_ids         = 0;
@@ -356,7 +356,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         }
         else if (strcmp(argv[arg_index], "-i") == 0) {
             arg_index++;
-            wanted_id = atoi(argv[arg_index]);
+            wanted_id = argv[arg_index];
         }
         else if (strcmp(argv[arg_index], "-json") == 0) {
             arg_index++;
@@ -745,15 +745,14 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 }
             }
 
-            sprintf(buf, "%d", wanted_id);
-            reti = regcomp(&regex, buf, 0);
+            reti = regcomp(&regex, wanted_id, 0);
+            sprintf(buf, "%" PRIu64, cur_metadata->obj_id);
             if (reti) {
-                if (wanted_id == cur_metadata->obj_id) {
+                if (strcmp(wanted_id, buf) == 0) {
                     matched_id = 1;
                 }
             }
             else {
-                sprintf(buf, "%d", cur_metadata->obj_id);
                 reti = regexec(&regex, buf, 0, NULL, 0);
                 if (!reti) {
                     matched_id = 1;
@@ -781,15 +780,14 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         }
         else if (wanted_id) {
             int matched_id = 0;
-            sprintf(buf, "%d", wanted_id);
-            reti = regcomp(&regex, buf, 0);
+            reti = regcomp(&regex, wanted_id, 0);
+            sprintf(buf, "%" PRIu64, cur_metadata->obj_id);
             if (reti) {
-                if (wanted_id == cur_metadata->obj_id) {
+                if (strcmp(wanted_id, buf) == 0) {
                     matched_id = 1;
                 }
             }
             else {
-                sprintf(buf, "%d", cur_metadata->obj_id);
                 reti = regexec(&regex, buf, 0, NULL, 0);
                 if (!reti) {
                     matched_id = 1;
-- 
2.43.0


From 3ac0e32c760307a4c9f8a9a6923779c35c869979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:12 +0000
Subject: [PATCH 105/105] fix: pdc_ls goes on after a checkpoint it cannot open

---
 src/tools/pdc_ls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 518f80e..60b44ba 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -419,7 +419,8 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         if (file == NULL) {
             printf("==PDC_SERVER[%d]: %s -  Checkpoint file open FAILED [%s]!", pdc_server_rank_g, __func__,
                    filename);
-            ret_value = FAIL;
+            ret_value     = FAIL;
+            cur_file_node = cur_file_node->next;
             continue;
         }
 
-- 
2.43.0

