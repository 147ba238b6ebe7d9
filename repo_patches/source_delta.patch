From bede51f129c2040ee88cda7026aacf5c9fc858db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 01/99] fix: compare string contents, not just hashes, in
 handlebars_string_eq

---
 src/handlebars_string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 690bd62..6a64c85 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -334,7 +334,8 @@ bool handlebars_string_eq(
     if( string1->len != string2->len ) {
         return false;
     } else {
-        return hbs_str_hash(string1) == hbs_str_hash(string2);
+        return hbs_str_hash(string1) == hbs_str_hash(string2)
+            && 0 == memcmp(string1->val, string2->val, string1->len);
     }
 }
 
-- 
2.43.0


From 8986658a1f5f911c40bb033574c328afebeda9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 02/99] fix: compare all bytes in hbs_str_eq_strl when the
 strings contain NUL

---
 src/handlebars_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 6a64c85..dc45b7d 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -371,7 +371,7 @@ bool hbs_str_eq_strl(
     if (hbs_str_len(string1) != len2) {
         return false;
     }
-    return 0 == strncmp(hbs_str_val(string1), str2, len2);
+    return 0 == memcmp(hbs_str_val(string1), str2, len2);
 }
 
 const char * handlebars_strnstr(const char * haystack, size_t haystack_len, const char * needle, size_t needle_len)
-- 
2.43.0


From 3bab852184562bc595a9223d2fad782d4bb783bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 03/99] fix: bound and NUL handling in handlebars_strnstr

---
 src/handlebars_string.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index dc45b7d..041f7ea 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -376,14 +376,16 @@ bool hbs_str_eq_strl(
 
 const char * handlebars_strnstr(const char * haystack, size_t haystack_len, const char * needle, size_t needle_len)
 {
-    const char * end = haystack + haystack_len - needle_len;
+    const char * end;
 
-    if( !needle_len || !haystack_len ) {
+    if( !needle_len || needle_len > haystack_len ) {
         return NULL;
     }
 
+    end = haystack + haystack_len - needle_len;
+
     for( ; haystack <= end; haystack++ ) {
-        if( haystack[0] == needle[0] && strncmp(haystack, needle, needle_len) == 0 ) {
+        if( haystack[0] == needle[0] && memcmp(haystack, needle, needle_len) == 0 ) {
             return haystack;
         }
     }
-- 
2.43.0


From eb54a36328a56cb20dcf99fe27f1f8805dc30064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 04/99] fix: do not underflow when truncating past the end of a
 string

---
 src/handlebars_string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 041f7ea..f07d90e 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -352,7 +352,9 @@ struct handlebars_string * handlebars_string_truncate(
     }
 
     // Truncate left
-    if (start > 0) {
+    if (start >= string->len) {
+        string->len = 0;
+    } else if (start > 0) {
         memmove(string->val, string->val + start, string->len - start);
         string->len -= start;
     }
-- 
2.43.0


From 490162a5f14905afa10b3ae2f73d295cfe2994d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 05/99] fix: handlebars_str_reduce on a shared string

---
 src/handlebars_string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index f07d90e..051e76e 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -400,13 +400,14 @@ struct handlebars_string * handlebars_str_reduce(
     const char * search, size_t search_len,
     const char * replacement, size_t replacement_len
 ) {
-    char * tok = string->val;
+    char * tok;
 
     if( replacement_len > search_len || search_len <= 0 || string->len <= 0 ) {
         return string;
     }
 
     string = separate_string(string);
+    tok = string->val;
 
     while( NULL != (tok = (char *) handlebars_strnstr(tok, string->len - (tok - string->val), search, search_len)) ) {
         memmove(tok, replacement, replacement_len);
-- 
2.43.0


From d42059dbacfdaabc14c1cab6fcd4cc5b94736507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 06/99] fix: handlebars_string_stripcslashes on a shared string

---
 src/handlebars_string.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 051e76e..5c2aee2 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -516,14 +516,17 @@ struct handlebars_string * handlebars_string_addcslashes(struct handlebars_conte
 
 struct handlebars_string * handlebars_string_stripcslashes(struct handlebars_string * string)
 {
-    char * source = string->val;
-    char * target = string->val;
-    char * end = string->val + string->len;
+    char * source;
+    char * target;
+    char * end;
     size_t nlen = string->len;
     size_t i;
     char numtmp[4];
 
     string = separate_string(string);
+    source = string->val;
+    target = string->val;
+    end = string->val + string->len;
 
     for( ; source < end; source++ ) {
         if( *source == '\\' && source + 1 < end ) {
-- 
2.43.0


From a7b9ef23d2648e171f9c4eec0d730db40714572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 07/99] fix: reset the cached hash when trimming a string

---
 src/handlebars_string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 5c2aee2..84621d7 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -836,6 +836,7 @@ struct handlebars_string * handlebars_string_ltrim(struct handlebars_string * st
 
     if( ptr > string->val ) {
         memmove(string->val, ptr, string->len + 1);
+        string->hash = 0;
     }
 
     return string;
@@ -866,6 +867,7 @@ struct handlebars_string * handlebars_string_rtrim(struct handlebars_string * st
         --string->len;
         *original = '\0';
     }
+    string->hash = 0;
 
     return string;
 }
-- 
2.43.0


From 2caec02f937bc8392e8f69a96afdf6dfb407e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 08/99] fix: keep every remaining entry when compacting a
 sparse map

---
 src/handlebars_map.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index cfaeed1..7bbe47e 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -551,8 +551,7 @@ void handlebars_map_sparse_array_compact(struct handlebars_map * map)
     // Scan until the first tombstone
     for (; i < map->vec_offset; i++) {
         if (0 == memcmp(&vec[i], &HANDLEBARS_MAP_TOMBSTONE_V, sizeof(HANDLEBARS_MAP_TOMBSTONE_V))) {
-            i++;
-            vec_offset++;
+            vec_offset = i++;
             break;
         }
     }
-- 
2.43.0


From 90080bfa170596b52454a105d2e92f148b52c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 09/99] fix: reuse removed slots of the map's hash table

---
 src/handlebars_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 7bbe47e..7572dfd 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -194,7 +194,7 @@ static inline struct ht_find_result map_find_entry(
         } else if (table[pos] == HANDLEBARS_MAP_TOMBSTONE) {
             ret.tombstones++;
             if (!ret.empty_found) {
-                ret.empty_offset = true;
+                ret.empty_found = true;
                 ret.empty_offset = pos;
             }
         } else if( handlebars_string_eq(table[pos]->key, key) ) {
-- 
2.43.0


From 0e92337480c71d6922d81293a829299614317e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 10/99] fix: report an error instead of writing past a full map
 that cannot be rehashed

---
 src/handlebars_map.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 7572dfd..a9f30b9 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -404,7 +404,7 @@ struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct h
 
     // Add
     struct ht_find_result o = map_find_entry(map, key);
-    if (o.entry_found || !o.empty_found) {
+    if (o.entry_found || !o.empty_found || map->vec_offset >= map->vec_capacity) {
         // this should never happen - unless rehash locked due to iteration
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
@@ -465,7 +465,7 @@ struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struc
         return map;
     }
 
-    if (!o.empty_found) {
+    if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
         // This should never happen
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to update to hash table");
     }
-- 
2.43.0


From 913652f6d705220619df9389d90c49d5920b9289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 11/99] fix: allow iterating over a map that is already being
 iterated over

---
 src/handlebars_value.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 117e959..29bb802 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -840,7 +840,7 @@ static bool handlebars_value_iterator_next_stack(struct handlebars_value_iterato
     return true;
 }
 
-static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
+static bool handlebars_value_iterator_next_map_nested(struct handlebars_value_iterator * it)
 {
     struct handlebars_value * tmp;
 
@@ -850,7 +850,6 @@ static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator
 
     if( it->index >= handlebars_map_count(it->value->v.map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(it->value->v.map, false);
         return false;
     }
 
@@ -860,6 +859,17 @@ static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator
     return true;
 }
 
+static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
+{
+    if (!handlebars_value_iterator_next_map_nested(it)) {
+        // Only the outermost iterator releases the map
+        handlebars_map_set_is_in_iteration(it->value->v.map, false);
+        return false;
+    }
+
+    return true;
+}
+
 bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struct handlebars_value * value)
 {
     struct handlebars_value * tmp;
@@ -884,16 +894,17 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
                 it->next = &handlebars_value_iterator_next_void;
                 return false;
             }
-            handlebars_map_sparse_array_compact(value->v.map); // meh
+            if (handlebars_map_set_is_in_iteration(value->v.map, true)) {
+                // An outer iterator has already compacted and locked the map
+                it->next = &handlebars_value_iterator_next_map_nested;
+            } else {
+                handlebars_map_sparse_array_compact(value->v.map); // meh
+                it->next = &handlebars_value_iterator_next_map;
+            }
             it->value = value;
             it->index = 0;
             handlebars_map_get_kv_at_index(value->v.map, it->index, &it->key, &tmp);
             handlebars_value_value(it->cur, tmp);
-            it->next = &handlebars_value_iterator_next_map;
-            if (handlebars_map_set_is_in_iteration(value->v.map, true)) {
-                fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-                abort();
-            }
             return true;
 
         case HANDLEBARS_VALUE_TYPE_USER:
-- 
2.43.0


From 0f39cebab72cb0dd13b28657cf23c64d402f66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 12/99] fix: keep the source alive when assigning a value to
 itself or to its own container

---
 src/handlebars_value.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 29bb802..a1ea1dc 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -517,31 +517,33 @@ void handlebars_value_closure(struct handlebars_value * value, struct handlebars
 
 void handlebars_value_value(struct handlebars_value * dest, struct handlebars_value * src)
 {
-    handlebars_value_null(dest);
-    *dest = *src;
-    switch( dest->type ) {
+    // dest may hold the last reference to src (or be src), so copy before releasing
+    struct handlebars_value tmp = *src;
+    switch( tmp.type ) {
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            handlebars_stack_addref(dest->v.stack);
+            handlebars_stack_addref(tmp.v.stack);
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
-            handlebars_map_addref(dest->v.map);
+            handlebars_map_addref(tmp.v.map);
             break;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            handlebars_string_addref(dest->v.string);
+            handlebars_string_addref(tmp.v.string);
             break;
         case HANDLEBARS_VALUE_TYPE_USER:
-            handlebars_user_addref(dest->v.user);
+            handlebars_user_addref(tmp.v.user);
             break;
         case HANDLEBARS_VALUE_TYPE_PTR:
-            handlebars_ptr_addref(dest->v.ptr);
+            handlebars_ptr_addref(tmp.v.ptr);
             break;
         case HANDLEBARS_VALUE_TYPE_CLOSURE:
-            handlebars_closure_addref(dest->v.closure);
+            handlebars_closure_addref(tmp.v.closure);
             break;
         default:
             // do nothing
             break;
     }
+    handlebars_value_null(dest);
+    *dest = tmp;
 }
 
 void handlebars_value_set_flag(
-- 
2.43.0


From 03a8f6b9168df4e3413bdebde1ec581946acd41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 13/99] fix: clear value flags when a value is reset, so a
 reused value is escaped again

---
 src/handlebars_value.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index a1ea1dc..b367b3b 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -99,6 +99,7 @@ void handlebars_value_dtor(struct handlebars_value * value)
 
     // Initialize to null
     value->type = HANDLEBARS_VALUE_TYPE_NULL;
+    value->flags = 0;
     memset(&value->v, 0, sizeof(value->v));
 
 #ifdef HANDLEBARS_HAVE_VALGRIND
-- 
2.43.0


From 1ec307db953dc7176afe09a8be52adc7a464051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 14/99] fix: pushing an element of a list onto the same list

---
 src/handlebars_stack.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 5d062e2..2f16c8c 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -184,6 +184,8 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
     assert(stack != NULL);
     assert(value != NULL);
 
+    struct handlebars_stack * prev_stack = NULL;
+
     if( stack->capacity > stack->i ) {
         // Separate if refcount > 1
         stack = stack_separate(stack);
@@ -196,9 +198,8 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
         }
 
         size_t capacity = (stack->capacity | 3) * 3 / 2;
-        struct handlebars_stack * prev_stack = stack;
+        prev_stack = stack;
         stack = handlebars_stack_copy_ctor(prev_stack, capacity);
-        handlebars_stack_delref(prev_stack);
         handlebars_stack_addref(stack);
     }
 
@@ -206,6 +207,11 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
     handlebars_value_value(&stack->v[stack->i], value);
     stack->i++;
 
+    // The value may be an element of the previous stack, so release it last
+    if (prev_stack) {
+        handlebars_stack_delref(prev_stack);
+    }
+
     return stack;
 }
 
-- 
2.43.0


From 3d86e4591c9c08c507259a2ed9c369132f23c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 15/99] fix: refuse to pop the topmost protected stack element

---
 src/handlebars_stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 2f16c8c..813a391 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -228,7 +228,7 @@ struct handlebars_value * handlebars_stack_pop(struct handlebars_stack * stack,
     }
 #endif
 
-    if (stack->i < stack->protect) {
+    if (stack->i <= stack->protect) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Attempting to pop protected stack segment i=%zu protect=%zu", stack->i, stack->protect);
     }
 
-- 
2.43.0


From b61c7439f134d9db2bd0b34b2fff38267c63d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 16/99] fix: keep the protected segment when a stack is resized
 or separated

---
 src/handlebars_stack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 813a391..c1fb29e 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -98,6 +98,7 @@ static inline struct handlebars_stack * stack_separate(struct handlebars_stack *
         }
         struct handlebars_stack * prev_stack = stack;
         stack = handlebars_stack_copy_ctor(stack, prev_stack->capacity);
+        stack->protect = prev_stack->protect;
         handlebars_stack_delref(prev_stack);
         handlebars_stack_addref(stack);
     }
@@ -200,6 +201,7 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
         size_t capacity = (stack->capacity | 3) * 3 / 2;
         prev_stack = stack;
         stack = handlebars_stack_copy_ctor(prev_stack, capacity);
+        stack->protect = prev_stack->protect;
         handlebars_stack_addref(stack);
     }
 
-- 
2.43.0


From 9374e3cfe1de59b65618ecfd2a5a4d86af748f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 17/99] fix: a string starting with "0" and a NUL byte is not
 zero

---
 src/handlebars_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index b367b3b..9d122e0 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -247,7 +247,7 @@ bool handlebars_value_get_boolval(struct handlebars_value * value)
         case HANDLEBARS_VALUE_TYPE_INTEGER:
             return value->v.lval != 0;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            return hbs_str_len(value->v.string) != 0 && strcmp(hbs_str_val(value->v.string), "0") != 0;
+            return hbs_str_len(value->v.string) != 0 && !hbs_str_eq_strl(value->v.string, HBS_STRL("0"));
         case HANDLEBARS_VALUE_TYPE_ARRAY:
             return handlebars_stack_count(value->v.stack) != 0;
         case HANDLEBARS_VALUE_TYPE_MAP:
-- 
2.43.0


From d5698965a9214e4cc6748f9f31d4c3351fdd39a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:51 +0000
Subject: [PATCH 18/99] fix: storing an element of a map into the same map

---
 src/handlebars_map.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index a9f30b9..cd196eb 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -399,6 +399,11 @@ void handlebars_map_dtor(struct handlebars_map * map)
 
 struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
+    // The value may be an element of this map, keep it alive while rehashing
+    struct handlebars_value tmp;
+    handlebars_value_init(&tmp);
+    handlebars_value_value(&tmp, value);
+
     // Rehash
     map = handlebars_map_rehash(map, false);
 
@@ -406,10 +411,12 @@ struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct h
     struct ht_find_result o = map_find_entry(map, key);
     if (o.entry_found || !o.empty_found || map->vec_offset >= map->vec_capacity) {
         // this should never happen - unless rehash locked due to iteration
+        handlebars_value_dtor(&tmp);
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
 
-    map_add_at_table_offset(map, key, value, o.empty_offset);
+    map_add_at_table_offset(map, key, &tmp, o.empty_offset);
+    handlebars_value_dtor(&tmp);
 
     return map;
 }
@@ -454,6 +461,11 @@ struct handlebars_value * handlebars_map_find(struct handlebars_map * map, struc
 
 struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
+    // The value may be an element of this map, keep it alive while rehashing
+    struct handlebars_value tmp;
+    handlebars_value_init(&tmp);
+    handlebars_value_value(&tmp, value);
+
     // Rehash
     map = handlebars_map_rehash(map, false);
 
@@ -461,16 +473,19 @@ struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struc
     struct ht_find_result o = map_find_entry(map, key);
     struct handlebars_map_entry * entry = o.entry;
     if (entry) {
-        handlebars_value_value(&entry->value, value);
+        handlebars_value_value(&entry->value, &tmp);
+        handlebars_value_dtor(&tmp);
         return map;
     }
 
     if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
         // This should never happen
+        handlebars_value_dtor(&tmp);
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to update to hash table");
     }
 
-    map_add_at_table_offset(map, key, value, o.empty_offset);
+    map_add_at_table_offset(map, key, &tmp, o.empty_offset);
+    handlebars_value_dtor(&tmp);
 
     return map;
 }
-- 
2.43.0


From 14622d69484a15deb2144349b2696a1d35cc1aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 19/99] fix: do not release a shared list when an invalid set
 is refused

---
 src/handlebars_stack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index c1fb29e..426d399 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -268,9 +268,6 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         return handlebars_stack_push(stack, value);
     }
 
-    // Separate if refcount > 1
-    stack = stack_separate(stack);
-
     // Out-of-bounds
     if( offset >= stack->i ) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Out-of-bounds %zu/%zu", offset, stack->i);
@@ -286,6 +283,9 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         return stack;
     }
 
+    // Separate if refcount > 1
+    stack = stack_separate(stack);
+
     handlebars_value_value(&stack->v[offset], value);
 
     return stack;
-- 
2.43.0


From 6431de62deb02a6340c7add008c03432026cbcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:37 +0000
Subject: [PATCH 20/99] fix: restore the interpreter when an error leaves
 handlebars_vm_execute

With an error handler installed by the caller, an error jumped straight past
handlebars_vm_execute_ex, so the vm kept pointers to stacks of a dead frame,
the loop data and the module of the failed run, and the next execution used
them.
---
 src/handlebars_vm.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 114b227..ba88efd 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1392,14 +1392,18 @@ struct handlebars_string * handlebars_vm_execute_ex(
     struct handlebars_string * prev_delim_close = vm->delim_close;
 
     struct handlebars_string * buffer = NULL;
+    struct handlebars_string * prev_buffer = vm->buffer;
     bool volatile setup_stacks = false;
+    bool volatile failed = false;
     jmp_buf buf;
 
+    HANDLEBARS_VALUE_DECL(prev_data);
+    handlebars_value_value(prev_data, &vm->data);
+
     // Save jump buffer
-    if( !prev ) {
-        if( handlebars_setjmp_ex(vm, &buf) ) {
-            goto done;
-        }
+    if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
+        goto done;
     }
 
     // Setup stacks
@@ -1441,6 +1445,17 @@ done:
     vm->last_context = prev_last_context;
     vm->module = prev_module;
     vm->flags = prev_flags;
+    vm->buffer = prev_buffer;
+    handlebars_value_value(&vm->data, prev_data);
+    HANDLEBARS_VALUE_UNDECL(prev_data);
+
+    if (failed) {
+        // Pass the error on to the handler of the caller, if there is one
+        if (prev) {
+            longjmp(*prev, HBSCTX(vm)->e->num);
+        }
+        return NULL;
+    }
 
     return buffer;
 }
-- 
2.43.0


From 0521d501195acb738a3a25899ec26e07a4a0fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:57 +0000
Subject: [PATCH 21/99] fix: report errors inside partials instead of
 continuing in their frame

An error while parsing or rendering a partial was caught in execute_template,
which went on with an empty result while the vm still pointed at the buffer,
module and stacks of the failed partial, and left the message in freed memory.
---
 src/handlebars_vm.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index ba88efd..41aef52 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -330,7 +330,9 @@ static struct handlebars_string * execute_template(
     bool use_delimiters
 ) {
     struct handlebars_context * context = handlebars_context_ctor_ex(vm);
+    struct handlebars_error * e = HBSCTX(vm)->e;
     struct handlebars_string * volatile retval = NULL;
+    bool volatile failed = false;
     struct handlebars_module * volatile module = vm->cache ? handlebars_cache_find(vm->cache, tmpl) : NULL;
     bool const from_cache = module != NULL;
     long prev_depth = vm->depth;
@@ -346,6 +348,7 @@ static struct handlebars_string * execute_template(
 
     // Save jmp buf
     if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
         goto done;
     }
 
@@ -398,8 +401,17 @@ done:
     if( from_cache ) {
         handlebars_cache_release(vm->cache, tmpl, module);
     }
+    if( failed ) {
+        // The message may have been allocated in the context that is about to be destroyed
+        char * msg = handlebars_talloc_strdup(vm, e->msg);
+        e->num = msg ? e->num : HANDLEBARS_NOMEM;
+        e->msg = msg ? msg : HANDLEBARS_MEMCHECK_MSG;
+    }
     handlebars_string_delref(tmpl);
     handlebars_context_dtor(context);
+    if( failed ) {
+        longjmp(*prev_jmp, e->num);
+    }
     if (retval) {
         return retval;
     } else {
-- 
2.43.0


From 863092db4672be8502356deffac9290f815233a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:03 +0000
Subject: [PATCH 22/99] fix: key cached partials by the text that is compiled

In compat mode the lookup used the raw partial, but the entry was stored under
the preprocessed and indented text, whose key was released with the temporary
context.
---
 src/handlebars_cache_simple.c |  2 ++
 src/handlebars_vm.c           | 34 +++++++++++++++++++++-------------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 838d1c9..7bb9bb4 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -160,6 +160,8 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
     struct handlebars_ptr * uptr = handlebars_ptr_ctor(HBSCTX(cache), struct handlebars_module, module, false);
     handlebars_value_ptr(value, uptr);
 
+    // Need to duplicate the key because it may be owned by a shorter-lived context
+    tmpl = handlebars_string_copy_ctor(HBSCTX(cache), tmpl);
     intern->map = handlebars_map_add(intern->map, tmpl, value);
 
     // Update master
diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 41aef52..9888d8a 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -333,8 +333,8 @@ static struct handlebars_string * execute_template(
     struct handlebars_error * e = HBSCTX(vm)->e;
     struct handlebars_string * volatile retval = NULL;
     bool volatile failed = false;
-    struct handlebars_module * volatile module = vm->cache ? handlebars_cache_find(vm->cache, tmpl) : NULL;
-    bool const from_cache = module != NULL;
+    struct handlebars_module * volatile module = NULL;
+    bool volatile from_cache = false;
     long prev_depth = vm->depth;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     jmp_buf buf;
@@ -352,21 +352,29 @@ static struct handlebars_string * execute_template(
         goto done;
     }
 
+    // Preprocess, which consumes our reference to the template
+    if (vm->flags & handlebars_compiler_flag_compat) {
+        tmpl = handlebars_preprocess_delimiters(
+            CONTEXT,
+            tmpl,
+            use_delimiters ? vm->delim_open : NULL,
+            use_delimiters ? vm->delim_close : NULL
+        );
+        if (indent) {
+            tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
+        }
+        handlebars_string_addref(tmpl);
+    }
+
     // Check for cached template, if available
+    if( vm->cache ) {
+        module = handlebars_cache_find(vm->cache, tmpl);
+        from_cache = module != NULL;
+    }
+
     if( !from_cache ) {
         // Parse
         struct handlebars_parser * parser = handlebars_parser_ctor(context);
-        if (vm->flags & handlebars_compiler_flag_compat) {
-            tmpl = handlebars_preprocess_delimiters(
-                HBSCTX(context),
-                tmpl,
-                use_delimiters ? vm->delim_open : NULL,
-                use_delimiters ? vm->delim_close : NULL
-            );
-            if (indent) {
-                tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
-            }
-        }
         struct handlebars_ast_node * ast = handlebars_parse_ex(parser, tmpl, vm->flags);
 
         // Compile
-- 
2.43.0


From 45b90f16e633961be72da2a710cee70a74848813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:03 +0000
Subject: [PATCH 23/99] fix: number block parameters the same way when
 compiling and running

The compiler counts every enclosing program, but the vm only had an entry for
programs given block parameters, so {{#each l as |v|}}{{#if v}}{{v}} rendered
nothing. Every program now gets an entry, and the body of a partial block sees
the entries that were visible where it was written.
---
 src/handlebars_vm.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 9888d8a..300acdc 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -430,7 +430,7 @@ done:
 HANDLEBARS_CLOSURE_ATTRS
 static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE_ARGS)
 {
-    assert(localc >= 3);
+    assert(localc >= 4);
     assert(HANDLEBARS_LOCAL_AT(0)->type == HANDLEBARS_VALUE_TYPE_PTR);
     assert(HANDLEBARS_LOCAL_AT(1)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(2)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
@@ -438,6 +438,7 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
     struct handlebars_module * module = handlebars_value_get_ptr(HANDLEBARS_LOCAL_AT(0), struct handlebars_module);
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
     long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
+    long block_param_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
     bool pushed_partial_block = false;
 
     // Push partial block
@@ -446,13 +447,25 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
         PUSH(vm->partialBlockStack, handlebars_stack_get(vm->partialBlockStack, partial_block_depth - 1));
     }
 
+    // Block params are numbered by lexical nesting, so show the block those of the place it was written at
+    struct handlebars_stack * prev_block_params = vm->blockParamStack;
+    vm->blockParamStack = handlebars_stack_ctor(CONTEXT, block_param_depth + 1);
+    handlebars_stack_addref(vm->blockParamStack);
+    for (long i = 0; i < block_param_depth; i++) {
+        PUSH(vm->blockParamStack, handlebars_stack_get(prev_block_params, i));
+    }
+
     struct handlebars_value * input = argc > 0 ? &argv[0] : TOP(vm->contextStack);
     struct handlebars_string * buffer;
     if (vm->module == module) {
-        buffer = handlebars_vm_execute_program_ex(vm, program, input, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_program(vm, program, input);
     } else {
-        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, NULL);
     }
+
+    handlebars_stack_delref(vm->blockParamStack);
+    vm->blockParamStack = prev_block_params;
+
     if (buffer) {
         handlebars_value_str(rv, buffer);
     }
@@ -833,11 +846,12 @@ ACCEPT_FUNCTION(invoke_partial)
 
     // Push partial block
     if (options.program > 0) {
-        const int closure_localc = 3;
+        const int closure_localc = 4;
         HANDLEBARS_VALUE_ARRAY_DECL(closure_localv, closure_localc);
         handlebars_value_ptr(&closure_localv[0], handlebars_ptr_ctor(CONTEXT, struct handlebars_module, vm->module, true));
         handlebars_value_integer(&closure_localv[1], options.program);
         handlebars_value_integer(&closure_localv[2], LEN(vm->partialBlockStack));
+        handlebars_value_integer(&closure_localv[3], LEN(vm->blockParamStack));
         handlebars_value_closure(partial_block, handlebars_closure_ctor(vm, invoke_partial_block_closure, closure_localc, closure_localv));
         pushed_partial_block = true;
         PUSH(vm->partialBlockStack, partial_block);
@@ -1358,10 +1372,10 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
         handlebars_value_value(&vm->data, data);
     }
 
-    // Set block params
-    if( block_params ) {
-        PUSH(vm->blockParamStack, block_params);
-    }
+    // Set block params - the compiler numbers them by program, so every program needs an entry
+    HANDLEBARS_VALUE_DECL(no_block_params);
+    PUSH(vm->blockParamStack, block_params ? block_params : no_block_params);
+    HANDLEBARS_VALUE_UNDECL(no_block_params);
 
     // Execute the program
 	handlebars_vm_accept(vm, entry);
-- 
2.43.0


From e589b7e08c06d7670fd055dbaa5e8a8126753de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 24/99] fix: stop runaway partial recursion with an error

A partial including itself recursed until the C stack was exhausted. Count the
programs being executed and throw a stack overflow error at a fixed limit. The
block parameter stack grows as needed, so that this is the limit that applies.
---
 src/handlebars_vm.c | 19 ++++++++++++++-----
 src/handlebars_vm.h |  4 ++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 300acdc..6536225 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -335,7 +335,6 @@ static struct handlebars_string * execute_template(
     bool volatile failed = false;
     struct handlebars_module * volatile module = NULL;
     bool volatile from_cache = false;
-    long prev_depth = vm->depth;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     jmp_buf buf;
 
@@ -394,8 +393,6 @@ static struct handlebars_string * execute_template(
         handlebars_parser_dtor(parser);
     }
 
-    vm->depth++;
-
     retval = handlebars_vm_execute(vm, module, input);
     assert(retval != NULL);
 
@@ -405,7 +402,6 @@ static struct handlebars_string * execute_template(
 
 done:
     HBSCTX(vm)->e->jmp = prev_jmp;
-    vm->depth = prev_depth;
     if( from_cache ) {
         handlebars_cache_release(vm->cache, tmpl, module);
     }
@@ -1338,6 +1334,12 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Invalid program: %ld", program_num);
     }
 
+    // Programs can recurse through partials
+    if( vm->depth >= HANDLEBARS_VM_MAX_DEPTH ) {
+        handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Stack overflow");
+    }
+    vm->depth++;
+
     // Get program
 	struct handlebars_module_table_entry * entry = &vm->module->programs[program_num];
 
@@ -1401,6 +1403,7 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
     // Restore buffer
     struct handlebars_string * buffer = vm->buffer;
     vm->buffer = prev_buffer;
+    vm->depth--;
 
     return buffer;
 }
@@ -1427,6 +1430,7 @@ struct handlebars_string * handlebars_vm_execute_ex(
 
     struct handlebars_string * buffer = NULL;
     struct handlebars_string * prev_buffer = vm->buffer;
+    long prev_depth = vm->depth;
     bool volatile setup_stacks = false;
     bool volatile failed = false;
     jmp_buf buf;
@@ -1445,7 +1449,8 @@ struct handlebars_string * handlebars_vm_execute_ex(
         vm->stack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->contextStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->hashStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
-        vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
+        vm->blockParamStack = handlebars_stack_ctor(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
+        handlebars_stack_addref(vm->blockParamStack);
         vm->partialBlockStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         setup_stacks = true;
     }
@@ -1466,6 +1471,9 @@ done:
 
     // Reset stacks
     if (setup_stacks) {
+        if (!failed) {
+            handlebars_stack_delref(vm->blockParamStack);
+        }
         vm->stack = NULL;
         vm->contextStack = NULL;
         vm->hashStack = NULL;
@@ -1480,6 +1488,7 @@ done:
     vm->module = prev_module;
     vm->flags = prev_flags;
     vm->buffer = prev_buffer;
+    vm->depth = prev_depth;
     handlebars_value_value(&vm->data, prev_data);
     HANDLEBARS_VALUE_UNDECL(prev_data);
 
diff --git a/src/handlebars_vm.h b/src/handlebars_vm.h
index 45deb93..bf1dc55 100644
--- a/src/handlebars_vm.h
+++ b/src/handlebars_vm.h
@@ -34,6 +34,10 @@ struct handlebars_vm;
 #define HANDLEBARS_VM_STACK_SIZE 96
 #endif
 
+#ifndef HANDLEBARS_VM_MAX_DEPTH
+#define HANDLEBARS_VM_MAX_DEPTH 512
+#endif
+
 #ifndef HANDLEBARS_VM_BUFFER_INIT_SIZE
 #define HANDLEBARS_VM_BUFFER_INIT_SIZE 128
 #endif
-- 
2.43.0


From ccbbeb8b88e2e288e6fb4ec9f162cb533dd5b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 25/99] fix: @root is the outermost context

It was the current one.
---
 src/handlebars_vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 6536225..deec9d3 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1021,8 +1021,8 @@ ACCEPT_FUNCTION(lookup_data)
     if( data && (tmp = handlebars_value_map_find(data, first->string, rv)) ) {
         handlebars_value_value(val, tmp);
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("root"))) {
-        handlebars_value_value(val, TOP(vm->contextStack));
-    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block"))) {
+        handlebars_value_value(val, handlebars_stack_get(vm->contextStack, 0));
+    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block")) && LEN(vm->partialBlockStack) > 0) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
     } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
         goto done_and_err;
-- 
2.43.0


From 1dad1ca0048dc690d287d2b6dd55d98033733e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 26/99] fix: a missing step in a data or block parameter path
 gives nothing

The value of the last step found was used instead. List indexes are resolved
there as well, and must be numbers as a whole.
---
 src/handlebars_vm.c | 60 +++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index deec9d3..cd16046 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -21,6 +21,7 @@
 
 #include <assert.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
@@ -929,11 +930,31 @@ done:
     HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
+// Resolve one segment of a path. Returns NULL if there is no such entry.
+HBS_ATTR_NONNULL_ALL
+static inline struct handlebars_value * lookup_segment(struct handlebars_value * value, struct handlebars_string * key, struct handlebars_value * rv)
+{
+    if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP ) {
+        return handlebars_value_map_find(value, key, rv);
+    } else if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
+        const char * str = hbs_str_val(key);
+        char * end;
+        if( *str >= '0' && *str <= '9' ) {
+            size_t index = strtoul(str, &end, 10);
+            if( end == str + hbs_str_len(key) ) {
+                return handlebars_value_array_find(value, index, rv);
+            }
+        }
+    }
+    return NULL;
+}
+
 ACCEPT_FUNCTION(lookup_block_param)
 {
     long blockParam1 = -1;
     long blockParam2 = -1;
     struct handlebars_value * v1 = NULL;
+    struct handlebars_value * tmp;
     size_t arr_len;
     struct handlebars_operand_string * arr;
     size_t i;
@@ -960,22 +981,14 @@ ACCEPT_FUNCTION(lookup_block_param)
     arr_len = opcode->op2.data.array.count;
     arr = opcode->op2.data.array.array;
 
-    if( arr_len > 1 ) {
-        struct handlebars_value * tmp = v2;
-        struct handlebars_value * tmp2;
-        for( i = 1; i < arr_len; i++ ) {
-            tmp2 = handlebars_value_map_find(tmp, arr[i].string, rv);
-            if( tmp2 ) {
-                tmp = tmp2;
-            } else {
-                break;
-            }
-        }
-        if (tmp) {
-            handlebars_value_value(value, tmp);
+    handlebars_value_value(value, v2);
+    for( i = 1; i < arr_len; i++ ) {
+        tmp = lookup_segment(value, arr[i].string, rv);
+        if( !tmp ) {
+            handlebars_value_null(value);
+            break;
         }
-    } else {
-        handlebars_value_value(value, v2);
+        handlebars_value_value(value, tmp);
     }
 
 done:
@@ -1032,11 +1045,13 @@ ACCEPT_FUNCTION(lookup_data)
 
     for( i = 1 ; i < arr_len; i++ ) {
         struct handlebars_operand_string * part = arr + i;
-        if( handlebars_value_get_type(val) == HANDLEBARS_VALUE_TYPE_MAP &&
-                NULL != (tmp = handlebars_value_map_find(val, part->string, rv)) ) {
+        if( NULL != (tmp = lookup_segment(val, part->string, rv)) ) {
             handlebars_value_value(val, tmp);
         } else if( is_strict || require_terminal ) {
             goto done_and_err;
+        } else {
+            handlebars_value_null(val);
+            break;
         }
     }
 
@@ -1076,7 +1091,6 @@ ACCEPT_FUNCTION(lookup_on_context)
     size_t arr_len = opcode->op1.data.array.count;
     struct handlebars_operand_string * arr = opcode->op1.data.array.array;
     struct handlebars_operand_string * arr_end = arr + arr_len;
-    long index = -1;
     bool is_strict = (vm->flags & handlebars_compiler_flag_strict) || (vm->flags & handlebars_compiler_flag_assume_objects);
     bool require_terminal = (vm->flags & handlebars_compiler_flag_strict) && opcode->op3.data.boolval;
 
@@ -1090,14 +1104,8 @@ ACCEPT_FUNCTION(lookup_on_context)
 
     do {
         bool is_last = arr == arr_end - 1;
-        if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            value = handlebars_value_map_find(value, arr->string, rv2);
-        } else if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
-            if (sscanf(hbs_str_val(arr->string), "%ld", &index)) {
-                value = handlebars_value_array_find(value, index, rv2);
-            } else {
-                value = NULL;
-            }
+        if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP || handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
+            value = lookup_segment(value, arr->string, rv2);
         } else if( vm->flags & handlebars_compiler_flag_assume_objects && is_last ) {
             goto done_and_err;
         } else {
-- 
2.43.0


From 7b555a8df9a93946cb2142eedb8a09624b131b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 27/99] fix: give each loop iteration access to the data of the
 enclosing loop

@../index and the like rely on the _parent entry of the data, which each never
set.
---
 src/handlebars_helpers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 0168746..5d5d44f 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -102,10 +102,11 @@ struct handlebars_value * handlebars_builtin_each(HANDLEBARS_HELPER_ARGS)
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
 
         if( handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 4);
+            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 5);
             HANDLEBARS_VALUE_FOREACH_KV(options->data, options_key, child) {
                 data_map = handlebars_map_update(data_map, options_key, child);
             } HANDLEBARS_VALUE_FOREACH_END();
+            data_map = handlebars_map_str_update(data_map, HBS_STRL("_parent"), options->data);
         } else {
             data_map = handlebars_map_ctor(CONTEXT, 4);
         }
-- 
2.43.0


From c06808d53eb14b1e6396f681af698f5607901bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 28/99] fix: includeZero counts zero as true only when it is
 set, also for unless

unless dropped it by converting its argument first, and a falsy includeZero
had the same effect as a true one.
---
 src/handlebars_helpers.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 5d5d44f..901e538 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -278,6 +278,7 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
     struct handlebars_value * conditional = &argv[0];
     long program;
     struct handlebars_string * result_str = NULL;
+    struct handlebars_value * include_zero;
     HANDLEBARS_VALUE_DECL(rv2);
 
     if (argc != 1) {
@@ -296,7 +297,8 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
         program = options->program;
     } else if( handlebars_value_get_type(conditional) == HANDLEBARS_VALUE_TYPE_INTEGER &&
             handlebars_value_get_intval(conditional) == 0 &&
-            NULL != handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2) ) {
+            NULL != (include_zero = handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2)) &&
+            !handlebars_value_is_empty(include_zero) ) {
         program = options->program;
     } else {
         program = options->inverse;
@@ -312,16 +314,14 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
 
 struct handlebars_value * handlebars_builtin_unless(HANDLEBARS_HELPER_ARGS)
 {
-    struct handlebars_value * conditional;
+    long program = options->program;
 
     if (argc != 1) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "#unless requires exactly one argument");
     }
 
-    conditional = &argv[0];
-    assert(conditional != NULL);
-
-    handlebars_value_boolean(conditional, handlebars_value_is_empty(conditional));
+    options->program = options->inverse;
+    options->inverse = program;
 
     return handlebars_vm_call_helper_str(HBS_STRL("if"), HANDLEBARS_HELPER_ARGS_PASSTHRU);
 }
-- 
2.43.0


From 3f991c7f5818ec08d6e7b69d2e7535fd3300211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 29/99] fix: lookup of an index past the end of a list gives
 nothing

It returned NULL, which the vm then pushed.
---
 src/handlebars_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 901e538..513be93 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -266,7 +266,7 @@ struct handlebars_value * handlebars_builtin_lookup(HANDLEBARS_HELPER_ARGS)
     } else if( type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
         // @todo sscanf?
         if( handlebars_value_get_type(field) == HANDLEBARS_VALUE_TYPE_INTEGER ) {
-            rv = handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
+            (void) handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
         }
     }
 
-- 
2.43.0


From 8b92362d1908d0b6b0f3453ec8e312bc45aeff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 30/99] fix: add partial hash arguments to an empty context too

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index cd16046..5b9bd29 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -305,7 +305,7 @@ static inline void depthed_lookup(struct handlebars_vm * vm, struct handlebars_s
 HBS_ATTR_NONNULL(1, 2)
 static inline struct handlebars_value * merge_hash(struct handlebars_context * context, struct handlebars_value * input, struct handlebars_value * hash)
 {
-    if( handlebars_value_get_type(input) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(input) > 0 &&
+    if( handlebars_value_get_type(input) == HANDLEBARS_VALUE_TYPE_MAP &&
             hash && handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(hash) > 0 ) {
         struct handlebars_map * new_map = handlebars_map_ctor(context, handlebars_value_count(input) + handlebars_value_count(hash));
         HANDLEBARS_VALUE_FOREACH_KV(input, key, child) {
-- 
2.43.0


From 525e8ecae8b172255f7d9210e667850f0d8845c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 31/99] fix: report a failed allocation of a closure

---
 src/handlebars_closure.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_closure.c b/src/handlebars_closure.c
index 404ea63..a0eebd6 100644
--- a/src/handlebars_closure.c
+++ b/src/handlebars_closure.c
@@ -83,6 +83,7 @@ struct handlebars_closure * handlebars_closure_ctor(
     struct handlebars_value * localv
 ) {
     struct handlebars_closure * closure = handlebars_talloc_zero_size(vm, sizeof(struct handlebars_closure) + (sizeof(struct handlebars_value) * localc));
+    HANDLEBARS_MEMCHECK(closure, HBSCTX(vm));
     talloc_set_type(closure, struct handlebars_closure);
 #ifndef HANDLEBARS_NO_REFCOUNT
     handlebars_rc_init(&closure->rc);
-- 
2.43.0


From 716ae36af58bea5238700f527da4cb62e959d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 32/99] fix: off by one in the compiler stack limits

---
 src/handlebars_compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 933770e..d83abad 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -691,7 +691,7 @@ static inline void handlebars_compiler_accept_program(
 
     assert(compiler != NULL);
 
-    if( compiler->bps->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->bps->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Block param stack blown");
     }
     compiler->bps->s[compiler->bps->i].block_param1 = block_param1;
@@ -1367,7 +1367,7 @@ static void handlebars_compiler_accept(
     }
 
     // Add node to source node stack
-    if( compiler->sns->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->sns->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Source node stack blown");
     }
     compiler->sns->s[compiler->sns->i] = node;
-- 
2.43.0


From f71629de8388b317702df88895f0555b086c67ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:04 +0000
Subject: [PATCH 33/99] fix: a data path above the outermost loop gives nothing

Without a _parent entry the current data was used, so @../index in an outermost
loop was its own index.
---
 src/handlebars_vm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 5b9bd29..e8c737e 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1027,6 +1027,8 @@ ACCEPT_FUNCTION(lookup_data)
             tmp = handlebars_value_map_str_find(data, HBS_STRL("_parent"), rv);
             if (tmp != NULL) {
                 handlebars_value_value(data, tmp);
+            } else {
+                handlebars_value_null(data);
             }
         }
     }
-- 
2.43.0


From 239b7a515222e624581fa040ccceac67b6e9be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 34/99] fix: indenting an empty string adds nothing

Also avoids looking at the byte before an empty string.
---
 src/handlebars_string.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 84621d7..196fd72 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -779,10 +779,15 @@ struct handlebars_string * handlebars_string_indent_append(
 ) {
     const char * str = input_string->val;
     size_t str_len = input_string->len;
-    bool endsInLine = (str[str_len - 1] == '\n');
+    bool endsInLine = (str_len > 0 && str[str_len - 1] == '\n');
     size_t i;
     char tmp[2] = "\0";
 
+    if( str_len == 0 ) {
+        handlebars_string_delref(input_string);
+        return append_to_string;
+    }
+
     if( endsInLine ) {
         str_len--;
     }
-- 
2.43.0


From fb066d8d65331b0744fad093011220b5f8bc8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:18 +0000
Subject: [PATCH 35/99] fix: report parse and compile errors in partials

---
 src/handlebars_vm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index e8c737e..739c618 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -352,6 +352,11 @@ static struct handlebars_string * execute_template(
         goto done;
     }
 
+    // Share our error context, so that errors while parsing and compiling end up here
+    HANDLEBARS_MEMCHECK(context, CONTEXT);
+    handlebars_talloc_free(context->e);
+    context->e = e;
+
     // Preprocess, which consumes our reference to the template
     if (vm->flags & handlebars_compiler_flag_compat) {
         tmpl = handlebars_preprocess_delimiters(
-- 
2.43.0


From 008f512e7f02a452421a02bfe0bc9e5c53b58955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:12 +0000
Subject: [PATCH 36/99] fix: number literals that are not integers arrive as
 numbers

---
 src/handlebars_vm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 739c618..0396a61 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1201,7 +1201,8 @@ ACCEPT_FUNCTION(push_literal)
             } else if (hbs_str_eq_strl(opcode->op1.data.string.string, HBS_STRL("null"))) {
                 break;
             }
-            handlebars_value_str(value, opcode->op1.data.string.string);
+            // Any other literal is a number the compiler could not represent as an integer
+            handlebars_value_float(value, strtod(hbs_str_val(opcode->op1.data.string.string), NULL));
             break;
         case handlebars_operand_type_boolean:
             handlebars_value_boolean(value, opcode->op1.data.boolval);
-- 
2.43.0


From ca6061c6439a4c4b504ee05445f6463a73be6762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:48 +0000
Subject: [PATCH 37/99] fix: floats print all the digits they need

They were cut to six significant digits, so 123456789.25 came out as
1.23457e+08 and a literal like 1.23456789 lost its last digits.
---
 src/handlebars_value.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 9d122e0..f22fe25 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -281,10 +281,24 @@ double handlebars_value_get_floatval(struct handlebars_value * value)
 
 // {{{ Conversion
 
+//! Print a number with no more digits than it takes to read it back
+static const char * format_float(char buf[32], double dval)
+{
+    for (int prec = 15; prec <= 17; prec++) {
+        snprintf(buf, 32, "%.*g", prec, dval);
+        if (strtod(buf, NULL) == dval) {
+            break;
+        }
+    }
+    return buf;
+}
+
 struct handlebars_string * handlebars_value_to_string(
     struct handlebars_value * value,
     struct handlebars_context * context
 ) {
+    char buf[32];
+
     switch( value->type ) {
         case HANDLEBARS_VALUE_TYPE_STRING:
             handlebars_string_addref(value->v.string);
@@ -292,7 +306,7 @@ struct handlebars_string * handlebars_value_to_string(
         case HANDLEBARS_VALUE_TYPE_INTEGER:
             return handlebars_string_asprintf(context, "%ld", value->v.lval);
         case HANDLEBARS_VALUE_TYPE_FLOAT:
-            return handlebars_string_asprintf(context, "%g", value->v.dval);
+            return handlebars_string_asprintf(context, "%s", format_float(buf, value->v.dval));
         case HANDLEBARS_VALUE_TYPE_TRUE:
             return handlebars_string_ctor(context, HBS_STRL("true"));
         case HANDLEBARS_VALUE_TYPE_FALSE:
@@ -380,6 +394,7 @@ struct handlebars_string * handlebars_value_expression_append(
     bool escape
 ) {
     bool first;
+    char buf[32];
 
     switch( value->type ) {
         case HANDLEBARS_VALUE_TYPE_TRUE:
@@ -391,7 +406,7 @@ struct handlebars_string * handlebars_value_expression_append(
             break;
 
         case HANDLEBARS_VALUE_TYPE_FLOAT:
-            string = handlebars_string_asprintf_append(context, string, "%g", value->v.dval);
+            string = handlebars_string_asprintf_append(context, string, "%s", format_float(buf, value->v.dval));
             break;
 
         case HANDLEBARS_VALUE_TYPE_INTEGER:
-- 
2.43.0


From 8521a9f0e11066a4ffa4b2d805227c39ea2af980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:04 +0000
Subject: [PATCH 38/99] fix: string literals keep their backslashes

Only an escaped quote is special in a string literal, but C escapes were
decoded as well, so "a\b" arrived with a backspace in it.
---
 src/handlebars.l     | 4 ++--
 src/handlebars.lex.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index b23c252..89bb08f 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -391,7 +391,7 @@ BLOCKPARAM [\x7C]
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\\""), HBS_STRL("\""));
                                    		return STRING;
                                  	}
 
@@ -400,7 +400,7 @@ BLOCKPARAM [\x7C]
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\'"), HBS_STRL("'"));
 										return SINGLE_STRING;
                                 	}
 
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index e18ac8c..57d2fdd 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -5837,7 +5837,7 @@ YY_RULE_SETUP
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\\""), HBS_STRL("\""));
                                    		return STRING;
                                  	}
 	YY_BREAK
@@ -5850,7 +5850,7 @@ YY_RULE_SETUP
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\'"), HBS_STRL("'"));
 										return SINGLE_STRING;
                                 	}
 	YY_BREAK
-- 
2.43.0


From b5599815597d01bec2d81da27e53176653bfcb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 39/99] fix: a plain mustache calls helperMissing only when
 there is nothing to print

An overriding helperMissing was called for every field that is not a
function, and a helper returning nothing let a field of its name show.
---
 src/handlebars_vm.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 0396a61..c1cbede 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -713,20 +713,14 @@ ACCEPT_FUNCTION(invoke_ambiguous)
         handlebars_string_addref(last_helper);
     } else if (value && is_callable) {
         fn = value;
-    } else {
+    } else if (handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_NULL) {
         struct handlebars_string * tmp_str = handlebars_string_ctor(CONTEXT, HBS_STRL("helperMissing"));
         fn = lookup_helper(vm, tmp_str, fnv);
         handlebars_string_delref(tmp_str);
     }
 
-    result = handlebars_value_call(fn, argc, argv, &options, vm, rv);
-
-    // Before, the null case was only done for helperMissing
-    if (result->type != HANDLEBARS_VALUE_TYPE_NULL) {
-        PUSH(vm->stack, result);
-    } else {
-        PUSH(vm->stack, value);
-    }
+    result = fn ? handlebars_value_call(fn, argc, argv, &options, vm, rv) : value;
+    PUSH(vm->stack, result);
 
     vm->last_helper = last_helper;
 
-- 
2.43.0


From e942c6875811aa9f9ad1fdfc1ab83817d1925098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:12 +0000
Subject: [PATCH 40/99] fix: a comment may contain dashes

A block comment containing two dashes that do not close it (or opening and
closing with shared dashes) was not recognised, and the rest of the template
disappeared with it. It ends at the first "--}}" or "--~}}".
---
 src/handlebars.l     |    6 +-
 src/handlebars.lex.c | 8244 +++++++++++++++++++++++-------------------
 2 files changed, 4487 insertions(+), 3763 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 89bb08f..7924f12 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -129,6 +129,10 @@ CONTENT [^\x00\{\\\r\n]*[\r\n]*
 
 WHITESPACE [ \r\n\t]
 
+COMDASH ([^-]|-[^-])*--
+COMBACK [^-~}]|~[^-}]|~?\}[^-}]
+COMAGAIN ~-|~?\}-
+
 IDC	  [^ \r\n\t!\"#%-,\.\/;->@\[-\^`\{-~]
 ID    {IDC}+/{LOOKAHEAD}
 BLOCKPARAM [\x7C]
@@ -219,7 +223,7 @@ BLOCKPARAM [\x7C]
 										return CONTENT;
 									}
 
-<com>"{{"{LEFT_STRIP}?"!--"([-]?[^-])*"--"{RIGHT_STRIP}?"}}" {
+<com>{COMDASH}(-|({COMBACK}){COMDASH}|({COMAGAIN})([^-]{COMDASH}|-))*{RIGHT_STRIP}?"}}" {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
   										//yytext[yyleng -= 4] = 0;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 57d2fdd..7d4abce 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -1,4 +1,4 @@
-#line 1 "handlebars.lex.c"
+#line 0 "handlebars.lex.c"
 
 #line 3 "handlebars.lex.c"
 
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[20137] =
+static const struct yy_trans_info yy_transition[23409] =
     {
- {   0,   0 }, {   0,19881 }, {   0,   2 }, {   0,19879 }, {   1,3096 },
+ {   0,   0 }, {   0,23153 }, {   0,   2 }, {   0,23151 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,19621 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,22893 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19363 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,22635 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,19105 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,22377 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,18847 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,22119 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18589 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,21861 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,1337 +942,1679 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,18331 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
- {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
- {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
- {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
- {  19,1811 }, {  20,1811 }, {  21,1811 }, {  22,1811 }, {  23,1811 },
- {  24,1811 }, {  25,1811 }, {  26,1811 }, {  27,1811 }, {  28,1811 },
- {  29,1811 }, {  30,1811 }, {  31,1811 }, {  32,1811 }, {  33,1811 },
- {  34,1811 }, {  35,1811 }, {  36,1811 }, {  37,1811 }, {  38,1811 },
- {  39,1811 }, {  40,1811 }, {  41,1811 }, {  42,1811 }, {  43,1811 },
- {  44,1811 }, {  45,1811 }, {  46,1811 }, {  47,1811 }, {  48,1811 },
-
- {  49,1811 }, {  50,1811 }, {  51,1811 }, {  52,1811 }, {  53,1811 },
- {  54,1811 }, {  55,1811 }, {  56,1811 }, {  57,1811 }, {  58,1811 },
- {  59,1811 }, {  60,1811 }, {  61,1811 }, {  62,1811 }, {  63,1811 },
- {  64,1811 }, {  65,1811 }, {  66,1811 }, {  67,1811 }, {  68,1811 },
- {  69,1811 }, {  70,1811 }, {  71,1811 }, {  72,1811 }, {  73,1811 },
- {  74,1811 }, {  75,1811 }, {  76,1811 }, {  77,1811 }, {  78,1811 },
- {  79,1811 }, {  80,1811 }, {  81,1811 }, {  82,1811 }, {  83,1811 },
- {  84,1811 }, {  85,1811 }, {  86,1811 }, {  87,1811 }, {  88,1811 },
- {  89,1811 }, {  90,1811 }, {  91,1811 }, {  92,1811 }, {  93,1811 },
- {  94,1811 }, {  95,1811 }, {  96,1811 }, {  97,1811 }, {  98,1811 },
-
- {  99,1811 }, { 100,1811 }, { 101,1811 }, { 102,1811 }, { 103,1811 },
- { 104,1811 }, { 105,1811 }, { 106,1811 }, { 107,1811 }, { 108,1811 },
- { 109,1811 }, { 110,1811 }, { 111,1811 }, { 112,1811 }, { 113,1811 },
- { 114,1811 }, { 115,1811 }, { 116,1811 }, { 117,1811 }, { 118,1811 },
- { 119,1811 }, { 120,1811 }, { 121,1811 }, { 122,1811 }, { 123,3278 },
- { 124,1811 }, { 125,1811 }, { 126,1811 }, { 127,1811 }, { 128,1811 },
- { 129,1811 }, { 130,1811 }, { 131,1811 }, { 132,1811 }, { 133,1811 },
- { 134,1811 }, { 135,1811 }, { 136,1811 }, { 137,1811 }, { 138,1811 },
- { 139,1811 }, { 140,1811 }, { 141,1811 }, { 142,1811 }, { 143,1811 },
- { 144,1811 }, { 145,1811 }, { 146,1811 }, { 147,1811 }, { 148,1811 },
-
- { 149,1811 }, { 150,1811 }, { 151,1811 }, { 152,1811 }, { 153,1811 },
- { 154,1811 }, { 155,1811 }, { 156,1811 }, { 157,1811 }, { 158,1811 },
- { 159,1811 }, { 160,1811 }, { 161,1811 }, { 162,1811 }, { 163,1811 },
- { 164,1811 }, { 165,1811 }, { 166,1811 }, { 167,1811 }, { 168,1811 },
- { 169,1811 }, { 170,1811 }, { 171,1811 }, { 172,1811 }, { 173,1811 },
- { 174,1811 }, { 175,1811 }, { 176,1811 }, { 177,1811 }, { 178,1811 },
- { 179,1811 }, { 180,1811 }, { 181,1811 }, { 182,1811 }, { 183,1811 },
- { 184,1811 }, { 185,1811 }, { 186,1811 }, { 187,1811 }, { 188,1811 },
- { 189,1811 }, { 190,1811 }, { 191,1811 }, { 192,1811 }, { 193,1811 },
- { 194,1811 }, { 195,1811 }, { 196,1811 }, { 197,1811 }, { 198,1811 },
-
- { 199,1811 }, { 200,1811 }, { 201,1811 }, { 202,1811 }, { 203,1811 },
- { 204,1811 }, { 205,1811 }, { 206,1811 }, { 207,1811 }, { 208,1811 },
- { 209,1811 }, { 210,1811 }, { 211,1811 }, { 212,1811 }, { 213,1811 },
- { 214,1811 }, { 215,1811 }, { 216,1811 }, { 217,1811 }, { 218,1811 },
- { 219,1811 }, { 220,1811 }, { 221,1811 }, { 222,1811 }, { 223,1811 },
- { 224,1811 }, { 225,1811 }, { 226,1811 }, { 227,1811 }, { 228,1811 },
- { 229,1811 }, { 230,1811 }, { 231,1811 }, { 232,1811 }, { 233,1811 },
- { 234,1811 }, { 235,1811 }, { 236,1811 }, { 237,1811 }, { 238,1811 },
- { 239,1811 }, { 240,1811 }, { 241,1811 }, { 242,1811 }, { 243,1811 },
- { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
-
- { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,18073 },
- {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
- {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
- {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
- {  16,1553 }, {  17,1553 }, {  18,1553 }, {  19,1553 }, {  20,1553 },
- {  21,1553 }, {  22,1553 }, {  23,1553 }, {  24,1553 }, {  25,1553 },
- {  26,1553 }, {  27,1553 }, {  28,1553 }, {  29,1553 }, {  30,1553 },
- {  31,1553 }, {  32,1553 }, {  33,1553 }, {  34,1553 }, {  35,1553 },
- {  36,1553 }, {  37,1553 }, {  38,1553 }, {  39,1553 }, {  40,1553 },
-
- {  41,1553 }, {  42,1553 }, {  43,1553 }, {  44,1553 }, {  45,1553 },
- {  46,1553 }, {  47,1553 }, {  48,1553 }, {  49,1553 }, {  50,1553 },
- {  51,1553 }, {  52,1553 }, {  53,1553 }, {  54,1553 }, {  55,1553 },
- {  56,1553 }, {  57,1553 }, {  58,1553 }, {  59,1553 }, {  60,1553 },
- {  61,1553 }, {  62,1553 }, {  63,1553 }, {  64,1553 }, {  65,1553 },
- {  66,1553 }, {  67,1553 }, {  68,1553 }, {  69,1553 }, {  70,1553 },
- {  71,1553 }, {  72,1553 }, {  73,1553 }, {  74,1553 }, {  75,1553 },
- {  76,1553 }, {  77,1553 }, {  78,1553 }, {  79,1553 }, {  80,1553 },
- {  81,1553 }, {  82,1553 }, {  83,1553 }, {  84,1553 }, {  85,1553 },
- {  86,1553 }, {  87,1553 }, {  88,1553 }, {  89,1553 }, {  90,1553 },
-
- {  91,1553 }, {  92,1553 }, {  93,1553 }, {  94,1553 }, {  95,1553 },
- {  96,1553 }, {  97,1553 }, {  98,1553 }, {  99,1553 }, { 100,1553 },
- { 101,1553 }, { 102,1553 }, { 103,1553 }, { 104,1553 }, { 105,1553 },
- { 106,1553 }, { 107,1553 }, { 108,1553 }, { 109,1553 }, { 110,1553 },
- { 111,1553 }, { 112,1553 }, { 113,1553 }, { 114,1553 }, { 115,1553 },
- { 116,1553 }, { 117,1553 }, { 118,1553 }, { 119,1553 }, { 120,1553 },
- { 121,1553 }, { 122,1553 }, { 123,3020 }, { 124,1553 }, { 125,1553 },
- { 126,1553 }, { 127,1553 }, { 128,1553 }, { 129,1553 }, { 130,1553 },
- { 131,1553 }, { 132,1553 }, { 133,1553 }, { 134,1553 }, { 135,1553 },
- { 136,1553 }, { 137,1553 }, { 138,1553 }, { 139,1553 }, { 140,1553 },
-
- { 141,1553 }, { 142,1553 }, { 143,1553 }, { 144,1553 }, { 145,1553 },
- { 146,1553 }, { 147,1553 }, { 148,1553 }, { 149,1553 }, { 150,1553 },
- { 151,1553 }, { 152,1553 }, { 153,1553 }, { 154,1553 }, { 155,1553 },
- { 156,1553 }, { 157,1553 }, { 158,1553 }, { 159,1553 }, { 160,1553 },
- { 161,1553 }, { 162,1553 }, { 163,1553 }, { 164,1553 }, { 165,1553 },
- { 166,1553 }, { 167,1553 }, { 168,1553 }, { 169,1553 }, { 170,1553 },
- { 171,1553 }, { 172,1553 }, { 173,1553 }, { 174,1553 }, { 175,1553 },
- { 176,1553 }, { 177,1553 }, { 178,1553 }, { 179,1553 }, { 180,1553 },
- { 181,1553 }, { 182,1553 }, { 183,1553 }, { 184,1553 }, { 185,1553 },
- { 186,1553 }, { 187,1553 }, { 188,1553 }, { 189,1553 }, { 190,1553 },
-
- { 191,1553 }, { 192,1553 }, { 193,1553 }, { 194,1553 }, { 195,1553 },
- { 196,1553 }, { 197,1553 }, { 198,1553 }, { 199,1553 }, { 200,1553 },
- { 201,1553 }, { 202,1553 }, { 203,1553 }, { 204,1553 }, { 205,1553 },
- { 206,1553 }, { 207,1553 }, { 208,1553 }, { 209,1553 }, { 210,1553 },
- { 211,1553 }, { 212,1553 }, { 213,1553 }, { 214,1553 }, { 215,1553 },
- { 216,1553 }, { 217,1553 }, { 218,1553 }, { 219,1553 }, { 220,1553 },
- { 221,1553 }, { 222,1553 }, { 223,1553 }, { 224,1553 }, { 225,1553 },
- { 226,1553 }, { 227,1553 }, { 228,1553 }, { 229,1553 }, { 230,1553 },
- { 231,1553 }, { 232,1553 }, { 233,1553 }, { 234,1553 }, { 235,1553 },
- { 236,1553 }, { 237,1553 }, { 238,1553 }, { 239,1553 }, { 240,1553 },
-
- { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
- { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
- { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,17815 }, {   1,4595 }, {   2,4595 },
- {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
- {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
- {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
- {  18,4595 }, {  19,4595 }, {  20,4595 }, {  21,4595 }, {  22,4595 },
- {  23,4595 }, {  24,4595 }, {  25,4595 }, {  26,4595 }, {  27,4595 },
- {  28,4595 }, {  29,4595 }, {  30,4595 }, {  31,4595 }, {  32,4595 },
-
- {  33,4595 }, {  34,4595 }, {  35,4595 }, {  36,4595 }, {  37,4595 },
- {  38,4595 }, {  39,4595 }, {  40,4595 }, {  41,4595 }, {  42,4595 },
- {  43,4595 }, {  44,4595 }, {  45,4595 }, {  46,4595 }, {  47,4595 },
- {  48,4595 }, {  49,4595 }, {  50,4595 }, {  51,4595 }, {  52,4595 },
- {  53,4595 }, {  54,4595 }, {  55,4595 }, {  56,4595 }, {  57,4595 },
- {  58,4595 }, {  59,4595 }, {  60,4595 }, {  61,4595 }, {  62,4595 },
- {  63,4595 }, {  64,4595 }, {  65,4595 }, {  66,4595 }, {  67,4595 },
- {  68,4595 }, {  69,4595 }, {  70,4595 }, {  71,4595 }, {  72,4595 },
- {  73,4595 }, {  74,4595 }, {  75,4595 }, {  76,4595 }, {  77,4595 },
- {  78,4595 }, {  79,4595 }, {  80,4595 }, {  81,4595 }, {  82,4595 },
-
- {  83,4595 }, {  84,4595 }, {  85,4595 }, {  86,4595 }, {  87,4595 },
- {  88,4595 }, {  89,4595 }, {  90,4595 }, {  91,4595 }, {  92,4595 },
- {  93,4595 }, {  94,4595 }, {  95,4595 }, {  96,4595 }, {  97,4595 },
- {  98,4595 }, {  99,4595 }, { 100,4595 }, { 101,4595 }, { 102,4595 },
- { 103,4595 }, { 104,4595 }, { 105,4595 }, { 106,4595 }, { 107,4595 },
- { 108,4595 }, { 109,4595 }, { 110,4595 }, { 111,4595 }, { 112,4595 },
- { 113,4595 }, { 114,4595 }, { 115,4595 }, { 116,4595 }, { 117,4595 },
- { 118,4595 }, { 119,4595 }, { 120,4595 }, { 121,4595 }, { 122,4595 },
- { 123,4595 }, { 124,4595 }, { 125,4853 }, { 126,4595 }, { 127,4595 },
- { 128,4595 }, { 129,4595 }, { 130,4595 }, { 131,4595 }, { 132,4595 },
-
- { 133,4595 }, { 134,4595 }, { 135,4595 }, { 136,4595 }, { 137,4595 },
- { 138,4595 }, { 139,4595 }, { 140,4595 }, { 141,4595 }, { 142,4595 },
- { 143,4595 }, { 144,4595 }, { 145,4595 }, { 146,4595 }, { 147,4595 },
- { 148,4595 }, { 149,4595 }, { 150,4595 }, { 151,4595 }, { 152,4595 },
- { 153,4595 }, { 154,4595 }, { 155,4595 }, { 156,4595 }, { 157,4595 },
- { 158,4595 }, { 159,4595 }, { 160,4595 }, { 161,4595 }, { 162,4595 },
- { 163,4595 }, { 164,4595 }, { 165,4595 }, { 166,4595 }, { 167,4595 },
- { 168,4595 }, { 169,4595 }, { 170,4595 }, { 171,4595 }, { 172,4595 },
- { 173,4595 }, { 174,4595 }, { 175,4595 }, { 176,4595 }, { 177,4595 },
- { 178,4595 }, { 179,4595 }, { 180,4595 }, { 181,4595 }, { 182,4595 },
-
- { 183,4595 }, { 184,4595 }, { 185,4595 }, { 186,4595 }, { 187,4595 },
- { 188,4595 }, { 189,4595 }, { 190,4595 }, { 191,4595 }, { 192,4595 },
- { 193,4595 }, { 194,4595 }, { 195,4595 }, { 196,4595 }, { 197,4595 },
- { 198,4595 }, { 199,4595 }, { 200,4595 }, { 201,4595 }, { 202,4595 },
- { 203,4595 }, { 204,4595 }, { 205,4595 }, { 206,4595 }, { 207,4595 },
- { 208,4595 }, { 209,4595 }, { 210,4595 }, { 211,4595 }, { 212,4595 },
- { 213,4595 }, { 214,4595 }, { 215,4595 }, { 216,4595 }, { 217,4595 },
- { 218,4595 }, { 219,4595 }, { 220,4595 }, { 221,4595 }, { 222,4595 },
- { 223,4595 }, { 224,4595 }, { 225,4595 }, { 226,4595 }, { 227,4595 },
- { 228,4595 }, { 229,4595 }, { 230,4595 }, { 231,4595 }, { 232,4595 },
-
- { 233,4595 }, { 234,4595 }, { 235,4595 }, { 236,4595 }, { 237,4595 },
- { 238,4595 }, { 239,4595 }, { 240,4595 }, { 241,4595 }, { 242,4595 },
- { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
- { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
- { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,17557 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
- {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
- {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
- {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
- {  20,4337 }, {  21,4337 }, {  22,4337 }, {  23,4337 }, {  24,4337 },
-
- {  25,4337 }, {  26,4337 }, {  27,4337 }, {  28,4337 }, {  29,4337 },
- {  30,4337 }, {  31,4337 }, {  32,4337 }, {  33,4337 }, {  34,4337 },
- {  35,4337 }, {  36,4337 }, {  37,4337 }, {  38,4337 }, {  39,4337 },
- {  40,4337 }, {  41,4337 }, {  42,4337 }, {  43,4337 }, {  44,4337 },
- {  45,4337 }, {  46,4337 }, {  47,4337 }, {  48,4337 }, {  49,4337 },
- {  50,4337 }, {  51,4337 }, {  52,4337 }, {  53,4337 }, {  54,4337 },
- {  55,4337 }, {  56,4337 }, {  57,4337 }, {  58,4337 }, {  59,4337 },
- {  60,4337 }, {  61,4337 }, {  62,4337 }, {  63,4337 }, {  64,4337 },
- {  65,4337 }, {  66,4337 }, {  67,4337 }, {  68,4337 }, {  69,4337 },
- {  70,4337 }, {  71,4337 }, {  72,4337 }, {  73,4337 }, {  74,4337 },
-
- {  75,4337 }, {  76,4337 }, {  77,4337 }, {  78,4337 }, {  79,4337 },
- {  80,4337 }, {  81,4337 }, {  82,4337 }, {  83,4337 }, {  84,4337 },
- {  85,4337 }, {  86,4337 }, {  87,4337 }, {  88,4337 }, {  89,4337 },
- {  90,4337 }, {  91,4337 }, {  92,4337 }, {  93,4337 }, {  94,4337 },
- {  95,4337 }, {  96,4337 }, {  97,4337 }, {  98,4337 }, {  99,4337 },
- { 100,4337 }, { 101,4337 }, { 102,4337 }, { 103,4337 }, { 104,4337 },
- { 105,4337 }, { 106,4337 }, { 107,4337 }, { 108,4337 }, { 109,4337 },
- { 110,4337 }, { 111,4337 }, { 112,4337 }, { 113,4337 }, { 114,4337 },
- { 115,4337 }, { 116,4337 }, { 117,4337 }, { 118,4337 }, { 119,4337 },
- { 120,4337 }, { 121,4337 }, { 122,4337 }, { 123,4337 }, { 124,4337 },
-
- { 125,4595 }, { 126,4337 }, { 127,4337 }, { 128,4337 }, { 129,4337 },
- { 130,4337 }, { 131,4337 }, { 132,4337 }, { 133,4337 }, { 134,4337 },
- { 135,4337 }, { 136,4337 }, { 137,4337 }, { 138,4337 }, { 139,4337 },
- { 140,4337 }, { 141,4337 }, { 142,4337 }, { 143,4337 }, { 144,4337 },
- { 145,4337 }, { 146,4337 }, { 147,4337 }, { 148,4337 }, { 149,4337 },
- { 150,4337 }, { 151,4337 }, { 152,4337 }, { 153,4337 }, { 154,4337 },
- { 155,4337 }, { 156,4337 }, { 157,4337 }, { 158,4337 }, { 159,4337 },
- { 160,4337 }, { 161,4337 }, { 162,4337 }, { 163,4337 }, { 164,4337 },
- { 165,4337 }, { 166,4337 }, { 167,4337 }, { 168,4337 }, { 169,4337 },
- { 170,4337 }, { 171,4337 }, { 172,4337 }, { 173,4337 }, { 174,4337 },
-
- { 175,4337 }, { 176,4337 }, { 177,4337 }, { 178,4337 }, { 179,4337 },
- { 180,4337 }, { 181,4337 }, { 182,4337 }, { 183,4337 }, { 184,4337 },
- { 185,4337 }, { 186,4337 }, { 187,4337 }, { 188,4337 }, { 189,4337 },
- { 190,4337 }, { 191,4337 }, { 192,4337 }, { 193,4337 }, { 194,4337 },
- { 195,4337 }, { 196,4337 }, { 197,4337 }, { 198,4337 }, { 199,4337 },
- { 200,4337 }, { 201,4337 }, { 202,4337 }, { 203,4337 }, { 204,4337 },
- { 205,4337 }, { 206,4337 }, { 207,4337 }, { 208,4337 }, { 209,4337 },
- { 210,4337 }, { 211,4337 }, { 212,4337 }, { 213,4337 }, { 214,4337 },
- { 215,4337 }, { 216,4337 }, { 217,4337 }, { 218,4337 }, { 219,4337 },
- { 220,4337 }, { 221,4337 }, { 222,4337 }, { 223,4337 }, { 224,4337 },
-
- { 225,4337 }, { 226,4337 }, { 227,4337 }, { 228,4337 }, { 229,4337 },
- { 230,4337 }, { 231,4337 }, { 232,4337 }, { 233,4337 }, { 234,4337 },
- { 235,4337 }, { 236,4337 }, { 237,4337 }, { 238,4337 }, { 239,4337 },
- { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
- { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
- { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17299 }, {   1,4595 },
- {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
- {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
- {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
-
- {  17,4595 }, {  18,4595 }, {  19,4595 }, {  20,4595 }, {  21,4595 },
- {  22,4595 }, {  23,4595 }, {  24,4595 }, {  25,4595 }, {  26,4595 },
- {  27,4595 }, {  28,4595 }, {  29,4595 }, {  30,4595 }, {  31,4595 },
- {  32,4595 }, {  33,4595 }, {  34,4595 }, {  35,4595 }, {  36,4595 },
- {  37,4595 }, {  38,4595 }, {  39,4595 }, {  40,4595 }, {  41,4595 },
- {  42,4595 }, {  43,4595 }, {  44,4595 }, {  45,4595 }, {  46,4595 },
- {  47,4595 }, {  48,4595 }, {  49,4595 }, {  50,4595 }, {  51,4595 },
- {  52,4595 }, {  53,4595 }, {  54,4595 }, {  55,4595 }, {  56,4595 },
- {  57,4595 }, {  58,4595 }, {  59,4595 }, {  60,4595 }, {  61,4595 },
- {  62,4595 }, {  63,4595 }, {  64,4595 }, {  65,4595 }, {  66,4595 },
-
- {  67,4595 }, {  68,4595 }, {  69,4595 }, {  70,4595 }, {  71,4595 },
- {  72,4595 }, {  73,4595 }, {  74,4595 }, {  75,4595 }, {  76,4595 },
- {  77,4595 }, {  78,4595 }, {  79,4595 }, {  80,4595 }, {  81,4595 },
- {  82,4595 }, {  83,4595 }, {  84,4595 }, {  85,4595 }, {  86,4595 },
- {  87,4595 }, {  88,4595 }, {  89,4595 }, {  90,4595 }, {  91,4595 },
- {  92,4595 }, {  93,4595 }, {  94,4595 }, {  95,4595 }, {  96,4595 },
- {  97,4595 }, {  98,4595 }, {  99,4595 }, { 100,4595 }, { 101,4595 },
- { 102,4595 }, { 103,4595 }, { 104,4595 }, { 105,4595 }, { 106,4595 },
- { 107,4595 }, { 108,4595 }, { 109,4595 }, { 110,4595 }, { 111,4595 },
- { 112,4595 }, { 113,4595 }, { 114,4595 }, { 115,4595 }, { 116,4595 },
-
- { 117,4595 }, { 118,4595 }, { 119,4595 }, { 120,4595 }, { 121,4595 },
- { 122,4595 }, { 123,4852 }, { 124,4595 }, { 125,4595 }, { 126,4595 },
- { 127,4595 }, { 128,4595 }, { 129,4595 }, { 130,4595 }, { 131,4595 },
- { 132,4595 }, { 133,4595 }, { 134,4595 }, { 135,4595 }, { 136,4595 },
- { 137,4595 }, { 138,4595 }, { 139,4595 }, { 140,4595 }, { 141,4595 },
- { 142,4595 }, { 143,4595 }, { 144,4595 }, { 145,4595 }, { 146,4595 },
- { 147,4595 }, { 148,4595 }, { 149,4595 }, { 150,4595 }, { 151,4595 },
- { 152,4595 }, { 153,4595 }, { 154,4595 }, { 155,4595 }, { 156,4595 },
- { 157,4595 }, { 158,4595 }, { 159,4595 }, { 160,4595 }, { 161,4595 },
- { 162,4595 }, { 163,4595 }, { 164,4595 }, { 165,4595 }, { 166,4595 },
-
- { 167,4595 }, { 168,4595 }, { 169,4595 }, { 170,4595 }, { 171,4595 },
- { 172,4595 }, { 173,4595 }, { 174,4595 }, { 175,4595 }, { 176,4595 },
- { 177,4595 }, { 178,4595 }, { 179,4595 }, { 180,4595 }, { 181,4595 },
- { 182,4595 }, { 183,4595 }, { 184,4595 }, { 185,4595 }, { 186,4595 },
- { 187,4595 }, { 188,4595 }, { 189,4595 }, { 190,4595 }, { 191,4595 },
- { 192,4595 }, { 193,4595 }, { 194,4595 }, { 195,4595 }, { 196,4595 },
- { 197,4595 }, { 198,4595 }, { 199,4595 }, { 200,4595 }, { 201,4595 },
- { 202,4595 }, { 203,4595 }, { 204,4595 }, { 205,4595 }, { 206,4595 },
- { 207,4595 }, { 208,4595 }, { 209,4595 }, { 210,4595 }, { 211,4595 },
- { 212,4595 }, { 213,4595 }, { 214,4595 }, { 215,4595 }, { 216,4595 },
-
- { 217,4595 }, { 218,4595 }, { 219,4595 }, { 220,4595 }, { 221,4595 },
- { 222,4595 }, { 223,4595 }, { 224,4595 }, { 225,4595 }, { 226,4595 },
- { 227,4595 }, { 228,4595 }, { 229,4595 }, { 230,4595 }, { 231,4595 },
- { 232,4595 }, { 233,4595 }, { 234,4595 }, { 235,4595 }, { 236,4595 },
- { 237,4595 }, { 238,4595 }, { 239,4595 }, { 240,4595 }, { 241,4595 },
- { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
- { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
- { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,17041 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
- {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
-
- {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
- {  14,4337 }, {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 },
- {  19,4337 }, {  20,4337 }, {  21,4337 }, {  22,4337 }, {  23,4337 },
- {  24,4337 }, {  25,4337 }, {  26,4337 }, {  27,4337 }, {  28,4337 },
- {  29,4337 }, {  30,4337 }, {  31,4337 }, {  32,4337 }, {  33,4337 },
- {  34,4337 }, {  35,4337 }, {  36,4337 }, {  37,4337 }, {  38,4337 },
- {  39,4337 }, {  40,4337 }, {  41,4337 }, {  42,4337 }, {  43,4337 },
- {  44,4337 }, {  45,4337 }, {  46,4337 }, {  47,4337 }, {  48,4337 },
- {  49,4337 }, {  50,4337 }, {  51,4337 }, {  52,4337 }, {  53,4337 },
- {  54,4337 }, {  55,4337 }, {  56,4337 }, {  57,4337 }, {  58,4337 },
-
- {  59,4337 }, {  60,4337 }, {  61,4337 }, {  62,4337 }, {  63,4337 },
- {  64,4337 }, {  65,4337 }, {  66,4337 }, {  67,4337 }, {  68,4337 },
- {  69,4337 }, {  70,4337 }, {  71,4337 }, {  72,4337 }, {  73,4337 },
- {  74,4337 }, {  75,4337 }, {  76,4337 }, {  77,4337 }, {  78,4337 },
- {  79,4337 }, {  80,4337 }, {  81,4337 }, {  82,4337 }, {  83,4337 },
- {  84,4337 }, {  85,4337 }, {  86,4337 }, {  87,4337 }, {  88,4337 },
- {  89,4337 }, {  90,4337 }, {  91,4337 }, {  92,4337 }, {  93,4337 },
- {  94,4337 }, {  95,4337 }, {  96,4337 }, {  97,4337 }, {  98,4337 },
- {  99,4337 }, { 100,4337 }, { 101,4337 }, { 102,4337 }, { 103,4337 },
- { 104,4337 }, { 105,4337 }, { 106,4337 }, { 107,4337 }, { 108,4337 },
-
- { 109,4337 }, { 110,4337 }, { 111,4337 }, { 112,4337 }, { 113,4337 },
- { 114,4337 }, { 115,4337 }, { 116,4337 }, { 117,4337 }, { 118,4337 },
- { 119,4337 }, { 120,4337 }, { 121,4337 }, { 122,4337 }, { 123,4594 },
- { 124,4337 }, { 125,4337 }, { 126,4337 }, { 127,4337 }, { 128,4337 },
- { 129,4337 }, { 130,4337 }, { 131,4337 }, { 132,4337 }, { 133,4337 },
- { 134,4337 }, { 135,4337 }, { 136,4337 }, { 137,4337 }, { 138,4337 },
- { 139,4337 }, { 140,4337 }, { 141,4337 }, { 142,4337 }, { 143,4337 },
- { 144,4337 }, { 145,4337 }, { 146,4337 }, { 147,4337 }, { 148,4337 },
- { 149,4337 }, { 150,4337 }, { 151,4337 }, { 152,4337 }, { 153,4337 },
- { 154,4337 }, { 155,4337 }, { 156,4337 }, { 157,4337 }, { 158,4337 },
-
- { 159,4337 }, { 160,4337 }, { 161,4337 }, { 162,4337 }, { 163,4337 },
- { 164,4337 }, { 165,4337 }, { 166,4337 }, { 167,4337 }, { 168,4337 },
- { 169,4337 }, { 170,4337 }, { 171,4337 }, { 172,4337 }, { 173,4337 },
- { 174,4337 }, { 175,4337 }, { 176,4337 }, { 177,4337 }, { 178,4337 },
- { 179,4337 }, { 180,4337 }, { 181,4337 }, { 182,4337 }, { 183,4337 },
- { 184,4337 }, { 185,4337 }, { 186,4337 }, { 187,4337 }, { 188,4337 },
- { 189,4337 }, { 190,4337 }, { 191,4337 }, { 192,4337 }, { 193,4337 },
- { 194,4337 }, { 195,4337 }, { 196,4337 }, { 197,4337 }, { 198,4337 },
- { 199,4337 }, { 200,4337 }, { 201,4337 }, { 202,4337 }, { 203,4337 },
- { 204,4337 }, { 205,4337 }, { 206,4337 }, { 207,4337 }, { 208,4337 },
-
- { 209,4337 }, { 210,4337 }, { 211,4337 }, { 212,4337 }, { 213,4337 },
- { 214,4337 }, { 215,4337 }, { 216,4337 }, { 217,4337 }, { 218,4337 },
- { 219,4337 }, { 220,4337 }, { 221,4337 }, { 222,4337 }, { 223,4337 },
- { 224,4337 }, { 225,4337 }, { 226,4337 }, { 227,4337 }, { 228,4337 },
- { 229,4337 }, { 230,4337 }, { 231,4337 }, { 232,4337 }, { 233,4337 },
- { 234,4337 }, { 235,4337 }, { 236,4337 }, { 237,4337 }, { 238,4337 },
- { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
- { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
- { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16783 },
-
- {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
- {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
- {  11,4461 }, {  12,4461 }, {  13,4338 }, {  14,4461 }, {  15,4461 },
- {  16,4461 }, {  17,4461 }, {  18,4461 }, {  19,4461 }, {  20,4461 },
- {  21,4461 }, {  22,4461 }, {  23,4461 }, {  24,4461 }, {  25,4461 },
- {  26,4461 }, {  27,4461 }, {  28,4461 }, {  29,4461 }, {  30,4461 },
- {  31,4461 }, {  32,4461 }, {  33,4461 }, {  34,4461 }, {  35,4461 },
- {  36,4461 }, {  37,4461 }, {  38,4461 }, {  39,4461 }, {  40,4461 },
- {  41,4461 }, {  42,4461 }, {  43,4461 }, {  44,4461 }, {  45,4461 },
- {  46,4461 }, {  47,4461 }, {  48,4461 }, {  49,4461 }, {  50,4461 },
-
- {  51,4461 }, {  52,4461 }, {  53,4461 }, {  54,4461 }, {  55,4461 },
- {  56,4461 }, {  57,4461 }, {  58,4461 }, {  59,4461 }, {  60,4461 },
- {  61,4461 }, {  62,4461 }, {  63,4461 }, {  64,4461 }, {  65,4461 },
- {  66,4461 }, {  67,4461 }, {  68,4461 }, {  69,4461 }, {  70,4461 },
- {  71,4461 }, {  72,4461 }, {  73,4461 }, {  74,4461 }, {  75,4461 },
- {  76,4461 }, {  77,4461 }, {  78,4461 }, {  79,4461 }, {  80,4461 },
- {  81,4461 }, {  82,4461 }, {  83,4461 }, {  84,4461 }, {  85,4461 },
- {  86,4461 }, {  87,4461 }, {  88,4461 }, {  89,4461 }, {  90,4461 },
- {  91,4461 }, {  92,4340 }, {  93,4461 }, {  94,4461 }, {  95,4461 },
- {  96,4461 }, {  97,4461 }, {  98,4461 }, {  99,4461 }, { 100,4461 },
-
- { 101,4461 }, { 102,4461 }, { 103,4461 }, { 104,4461 }, { 105,4461 },
- { 106,4461 }, { 107,4461 }, { 108,4461 }, { 109,4461 }, { 110,4461 },
- { 111,4461 }, { 112,4461 }, { 113,4461 }, { 114,4461 }, { 115,4461 },
- { 116,4461 }, { 117,4461 }, { 118,4461 }, { 119,4461 }, { 120,4461 },
- { 121,4461 }, { 122,4461 }, {   0,   0 }, { 124,4461 }, { 125,4461 },
- { 126,4461 }, { 127,4461 }, { 128,4461 }, { 129,4461 }, { 130,4461 },
- { 131,4461 }, { 132,4461 }, { 133,4461 }, { 134,4461 }, { 135,4461 },
- { 136,4461 }, { 137,4461 }, { 138,4461 }, { 139,4461 }, { 140,4461 },
- { 141,4461 }, { 142,4461 }, { 143,4461 }, { 144,4461 }, { 145,4461 },
- { 146,4461 }, { 147,4461 }, { 148,4461 }, { 149,4461 }, { 150,4461 },
-
- { 151,4461 }, { 152,4461 }, { 153,4461 }, { 154,4461 }, { 155,4461 },
- { 156,4461 }, { 157,4461 }, { 158,4461 }, { 159,4461 }, { 160,4461 },
- { 161,4461 }, { 162,4461 }, { 163,4461 }, { 164,4461 }, { 165,4461 },
- { 166,4461 }, { 167,4461 }, { 168,4461 }, { 169,4461 }, { 170,4461 },
- { 171,4461 }, { 172,4461 }, { 173,4461 }, { 174,4461 }, { 175,4461 },
- { 176,4461 }, { 177,4461 }, { 178,4461 }, { 179,4461 }, { 180,4461 },
- { 181,4461 }, { 182,4461 }, { 183,4461 }, { 184,4461 }, { 185,4461 },
- { 186,4461 }, { 187,4461 }, { 188,4461 }, { 189,4461 }, { 190,4461 },
- { 191,4461 }, { 192,4461 }, { 193,4461 }, { 194,4461 }, { 195,4461 },
- { 196,4461 }, { 197,4461 }, { 198,4461 }, { 199,4461 }, { 200,4461 },
-
- { 201,4461 }, { 202,4461 }, { 203,4461 }, { 204,4461 }, { 205,4461 },
- { 206,4461 }, { 207,4461 }, { 208,4461 }, { 209,4461 }, { 210,4461 },
- { 211,4461 }, { 212,4461 }, { 213,4461 }, { 214,4461 }, { 215,4461 },
- { 216,4461 }, { 217,4461 }, { 218,4461 }, { 219,4461 }, { 220,4461 },
- { 221,4461 }, { 222,4461 }, { 223,4461 }, { 224,4461 }, { 225,4461 },
- { 226,4461 }, { 227,4461 }, { 228,4461 }, { 229,4461 }, { 230,4461 },
- { 231,4461 }, { 232,4461 }, { 233,4461 }, { 234,4461 }, { 235,4461 },
- { 236,4461 }, { 237,4461 }, { 238,4461 }, { 239,4461 }, { 240,4461 },
- { 241,4461 }, { 242,4461 }, { 243,4461 }, { 244,4461 }, { 245,4461 },
- { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
-
- { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,16526 }, {   0,   6 }, {   0,16524 }, {   0,   6 },
- {   0,16522 }, {   0,  51 }, {   0,16520 }, {   0,  35 }, {   0,16518 },
- {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,16511 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,16506 }, {  13,4742 }, {   0,  14 }, {   0,16503 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16499 }, {  13,4735 },
- {   0,  34 }, {   0,16496 }, {   0,  31 }, {   0,16494 }, {   0,  40 },
- {   0,16492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4083 }, {   0,   0 },
-
- {  92,4459 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,16397 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
- {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
- {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
-
- {  15,4075 }, {  16,4075 }, {  17,4075 }, {  18,4075 }, {  19,4075 },
- {  20,4075 }, {  21,4075 }, {  22,4075 }, {  23,4075 }, {  24,4075 },
- {  25,4075 }, {  26,4075 }, {  27,4075 }, {  28,4075 }, {  29,4075 },
- {  30,4075 }, {  31,4075 }, {  32,4075 }, {  33,4075 }, {  34,4075 },
- {  35,4075 }, {  36,4075 }, {  37,4075 }, {  38,4075 }, {  39,4075 },
- {  40,4075 }, {  41,4075 }, {  42,4075 }, {  43,4075 }, {  44,4075 },
- {  45,4075 }, {  46,4075 }, {  47,4075 }, {  48,4075 }, {  49,4075 },
- {  50,4075 }, {  51,4075 }, {  52,4075 }, {  53,4075 }, {  54,4075 },
- {  55,4075 }, {  56,4075 }, {  57,4075 }, {  58,4075 }, {  59,4075 },
- {  60,4075 }, {  61,4075 }, {  62,4075 }, {  63,4075 }, {  64,4075 },
-
- {  65,4075 }, {  66,4075 }, {  67,4075 }, {  68,4075 }, {  69,4075 },
- {  70,4075 }, {  71,4075 }, {  72,4075 }, {  73,4075 }, {  74,4075 },
- {  75,4075 }, {  76,4075 }, {  77,4075 }, {  78,4075 }, {  79,4075 },
- {  80,4075 }, {  81,4075 }, {  82,4075 }, {  83,4075 }, {  84,4075 },
- {  85,4075 }, {  86,4075 }, {  87,4075 }, {  88,4075 }, {  89,4075 },
- {  90,4075 }, {  91,4075 }, {  92,3954 }, {  93,4075 }, {  94,4075 },
- {  95,4075 }, {  96,4075 }, {  97,4075 }, {  98,4075 }, {  99,4075 },
- { 100,4075 }, { 101,4075 }, { 102,4075 }, { 103,4075 }, { 104,4075 },
- { 105,4075 }, { 106,4075 }, { 107,4075 }, { 108,4075 }, { 109,4075 },
- { 110,4075 }, { 111,4075 }, { 112,4075 }, { 113,4075 }, { 114,4075 },
-
- { 115,4075 }, { 116,4075 }, { 117,4075 }, { 118,4075 }, { 119,4075 },
- { 120,4075 }, { 121,4075 }, { 122,4075 }, {   0,   0 }, { 124,4075 },
- { 125,4075 }, { 126,4075 }, { 127,4075 }, { 128,4075 }, { 129,4075 },
- { 130,4075 }, { 131,4075 }, { 132,4075 }, { 133,4075 }, { 134,4075 },
- { 135,4075 }, { 136,4075 }, { 137,4075 }, { 138,4075 }, { 139,4075 },
- { 140,4075 }, { 141,4075 }, { 142,4075 }, { 143,4075 }, { 144,4075 },
- { 145,4075 }, { 146,4075 }, { 147,4075 }, { 148,4075 }, { 149,4075 },
- { 150,4075 }, { 151,4075 }, { 152,4075 }, { 153,4075 }, { 154,4075 },
- { 155,4075 }, { 156,4075 }, { 157,4075 }, { 158,4075 }, { 159,4075 },
- { 160,4075 }, { 161,4075 }, { 162,4075 }, { 163,4075 }, { 164,4075 },
-
- { 165,4075 }, { 166,4075 }, { 167,4075 }, { 168,4075 }, { 169,4075 },
- { 170,4075 }, { 171,4075 }, { 172,4075 }, { 173,4075 }, { 174,4075 },
- { 175,4075 }, { 176,4075 }, { 177,4075 }, { 178,4075 }, { 179,4075 },
- { 180,4075 }, { 181,4075 }, { 182,4075 }, { 183,4075 }, { 184,4075 },
- { 185,4075 }, { 186,4075 }, { 187,4075 }, { 188,4075 }, { 189,4075 },
- { 190,4075 }, { 191,4075 }, { 192,4075 }, { 193,4075 }, { 194,4075 },
- { 195,4075 }, { 196,4075 }, { 197,4075 }, { 198,4075 }, { 199,4075 },
- { 200,4075 }, { 201,4075 }, { 202,4075 }, { 203,4075 }, { 204,4075 },
- { 205,4075 }, { 206,4075 }, { 207,4075 }, { 208,4075 }, { 209,4075 },
- { 210,4075 }, { 211,4075 }, { 212,4075 }, { 213,4075 }, { 214,4075 },
-
- { 215,4075 }, { 216,4075 }, { 217,4075 }, { 218,4075 }, { 219,4075 },
- { 220,4075 }, { 221,4075 }, { 222,4075 }, { 223,4075 }, { 224,4075 },
- { 225,4075 }, { 226,4075 }, { 227,4075 }, { 228,4075 }, { 229,4075 },
- { 230,4075 }, { 231,4075 }, { 232,4075 }, { 233,4075 }, { 234,4075 },
- { 235,4075 }, { 236,4075 }, { 237,4075 }, { 238,4075 }, { 239,4075 },
- { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
- { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
- { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,16140 }, {   1,4106 }, {   2,4106 },
- {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
-
- {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
- {  13,4081 }, {  14,4106 }, {  15,4106 }, {  16,4106 }, {  17,4106 },
- {  18,4106 }, {  19,4106 }, {  20,4106 }, {  21,4106 }, {  22,4106 },
- {  23,4106 }, {  24,4106 }, {  25,4106 }, {  26,4106 }, {  27,4106 },
- {  28,4106 }, {  29,4106 }, {  30,4106 }, {  31,4106 }, {  32,4081 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4106 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4081 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,4106 }, {  46,4081 }, {  47,4081 },
- {  48,4106 }, {  49,4106 }, {  50,4106 }, {  51,4106 }, {  52,4106 },
- {  53,4106 }, {  54,4106 }, {  55,4106 }, {  56,4106 }, {  57,4106 },
-
- {  58,4106 }, {   0,   0 }, {   0,   0 }, {  61,4081 }, {   0,   0 },
- {  63,4106 }, {   0,   0 }, {  65,4106 }, {  66,4106 }, {  67,4106 },
- {  68,4106 }, {  69,4106 }, {  70,4106 }, {  71,4106 }, {  72,4106 },
- {  73,4106 }, {  74,4106 }, {  75,4106 }, {  76,4106 }, {  77,4106 },
- {  78,4106 }, {  79,4106 }, {  80,4106 }, {  81,4106 }, {  82,4106 },
- {  83,4106 }, {  84,4106 }, {  85,4106 }, {  86,4106 }, {  87,4106 },
- {  88,4106 }, {  89,4106 }, {  90,4106 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,4106 }, {   0,   0 }, {  97,4106 },
- {  98,4106 }, {  99,4106 }, { 100,4106 }, { 101,4106 }, { 102,4106 },
- { 103,4106 }, { 104,4106 }, { 105,4106 }, { 106,4106 }, { 107,4106 },
-
- { 108,4106 }, { 109,4106 }, { 110,4106 }, { 111,4106 }, { 112,4106 },
- { 113,4106 }, { 114,4106 }, { 115,4106 }, { 116,4106 }, { 117,4106 },
- { 118,4106 }, { 119,4106 }, { 120,4106 }, { 121,4106 }, { 122,4106 },
- {   0,   0 }, { 124,4081 }, { 125,4081 }, { 126,4081 }, { 127,4106 },
- { 128,4106 }, { 129,4106 }, { 130,4106 }, { 131,4106 }, { 132,4106 },
- { 133,4106 }, { 134,4106 }, { 135,4106 }, { 136,4106 }, { 137,4106 },
- { 138,4106 }, { 139,4106 }, { 140,4106 }, { 141,4106 }, { 142,4106 },
- { 143,4106 }, { 144,4106 }, { 145,4106 }, { 146,4106 }, { 147,4106 },
- { 148,4106 }, { 149,4106 }, { 150,4106 }, { 151,4106 }, { 152,4106 },
- { 153,4106 }, { 154,4106 }, { 155,4106 }, { 156,4106 }, { 157,4106 },
-
- { 158,4106 }, { 159,4106 }, { 160,4106 }, { 161,4106 }, { 162,4106 },
- { 163,4106 }, { 164,4106 }, { 165,4106 }, { 166,4106 }, { 167,4106 },
- { 168,4106 }, { 169,4106 }, { 170,4106 }, { 171,4106 }, { 172,4106 },
- { 173,4106 }, { 174,4106 }, { 175,4106 }, { 176,4106 }, { 177,4106 },
- { 178,4106 }, { 179,4106 }, { 180,4106 }, { 181,4106 }, { 182,4106 },
- { 183,4106 }, { 184,4106 }, { 185,4106 }, { 186,4106 }, { 187,4106 },
- { 188,4106 }, { 189,4106 }, { 190,4106 }, { 191,4106 }, { 192,4106 },
- { 193,4106 }, { 194,4106 }, { 195,4106 }, { 196,4106 }, { 197,4106 },
- { 198,4106 }, { 199,4106 }, { 200,4106 }, { 201,4106 }, { 202,4106 },
- { 203,4106 }, { 204,4106 }, { 205,4106 }, { 206,4106 }, { 207,4106 },
-
- { 208,4106 }, { 209,4106 }, { 210,4106 }, { 211,4106 }, { 212,4106 },
- { 213,4106 }, { 214,4106 }, { 215,4106 }, { 216,4106 }, { 217,4106 },
- { 218,4106 }, { 219,4106 }, { 220,4106 }, { 221,4106 }, { 222,4106 },
- { 223,4106 }, { 224,4106 }, { 225,4106 }, { 226,4106 }, { 227,4106 },
- { 228,4106 }, { 229,4106 }, { 230,4106 }, { 231,4106 }, { 232,4106 },
- { 233,4106 }, { 234,4106 }, { 235,4106 }, { 236,4106 }, { 237,4106 },
- { 238,4106 }, { 239,4106 }, { 240,4106 }, { 241,4106 }, { 242,4106 },
- { 243,4106 }, { 244,4106 }, { 245,4106 }, { 246,4106 }, { 247,4106 },
- { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
- { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
-
- {   0,15882 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
- {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
- {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
- {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
- {  20,4140 }, {  21,4140 }, {  22,4140 }, {  23,4140 }, {  24,4140 },
- {  25,4140 }, {  26,4140 }, {  27,4140 }, {  28,4140 }, {  29,4140 },
- {  30,4140 }, {  31,4140 }, {  32,4140 }, {  33,4140 }, {  34,4108 },
- {  35,4140 }, {  36,4140 }, {  37,4140 }, {  38,4140 }, {  39,4140 },
- {  40,4140 }, {  41,4140 }, {  42,4140 }, {  43,4140 }, {  44,4140 },
- {  45,4140 }, {  46,4140 }, {  47,4140 }, {  48,4140 }, {  49,4140 },
-
- {  50,4140 }, {  51,4140 }, {  52,4140 }, {  53,4140 }, {  54,4140 },
- {  55,4140 }, {  56,4140 }, {  57,4140 }, {  58,4140 }, {  59,4140 },
- {  60,4140 }, {  61,4140 }, {  62,4140 }, {  63,4140 }, {  64,4140 },
- {  65,4140 }, {  66,4140 }, {  67,4140 }, {  68,4140 }, {  69,4140 },
- {  70,4140 }, {  71,4140 }, {  72,4140 }, {  73,4140 }, {  74,4140 },
- {  75,4140 }, {  76,4140 }, {  77,4140 }, {  78,4140 }, {  79,4140 },
- {  80,4140 }, {  81,4140 }, {  82,4140 }, {  83,4140 }, {  84,4140 },
- {  85,4140 }, {  86,4140 }, {  87,4140 }, {  88,4140 }, {  89,4140 },
- {  90,4140 }, {  91,4140 }, {  92,4398 }, {  93,4140 }, {  94,4140 },
- {  95,4140 }, {  96,4140 }, {  97,4140 }, {  98,4140 }, {  99,4140 },
-
- { 100,4140 }, { 101,4140 }, { 102,4140 }, { 103,4140 }, { 104,4140 },
- { 105,4140 }, { 106,4140 }, { 107,4140 }, { 108,4140 }, { 109,4140 },
- { 110,4140 }, { 111,4140 }, { 112,4140 }, { 113,4140 }, { 114,4140 },
- { 115,4140 }, { 116,4140 }, { 117,4140 }, { 118,4140 }, { 119,4140 },
- { 120,4140 }, { 121,4140 }, { 122,4140 }, { 123,4140 }, { 124,4140 },
- { 125,4140 }, { 126,4140 }, { 127,4140 }, { 128,4140 }, { 129,4140 },
- { 130,4140 }, { 131,4140 }, { 132,4140 }, { 133,4140 }, { 134,4140 },
- { 135,4140 }, { 136,4140 }, { 137,4140 }, { 138,4140 }, { 139,4140 },
- { 140,4140 }, { 141,4140 }, { 142,4140 }, { 143,4140 }, { 144,4140 },
- { 145,4140 }, { 146,4140 }, { 147,4140 }, { 148,4140 }, { 149,4140 },
-
- { 150,4140 }, { 151,4140 }, { 152,4140 }, { 153,4140 }, { 154,4140 },
- { 155,4140 }, { 156,4140 }, { 157,4140 }, { 158,4140 }, { 159,4140 },
- { 160,4140 }, { 161,4140 }, { 162,4140 }, { 163,4140 }, { 164,4140 },
- { 165,4140 }, { 166,4140 }, { 167,4140 }, { 168,4140 }, { 169,4140 },
- { 170,4140 }, { 171,4140 }, { 172,4140 }, { 173,4140 }, { 174,4140 },
- { 175,4140 }, { 176,4140 }, { 177,4140 }, { 178,4140 }, { 179,4140 },
- { 180,4140 }, { 181,4140 }, { 182,4140 }, { 183,4140 }, { 184,4140 },
- { 185,4140 }, { 186,4140 }, { 187,4140 }, { 188,4140 }, { 189,4140 },
- { 190,4140 }, { 191,4140 }, { 192,4140 }, { 193,4140 }, { 194,4140 },
- { 195,4140 }, { 196,4140 }, { 197,4140 }, { 198,4140 }, { 199,4140 },
-
- { 200,4140 }, { 201,4140 }, { 202,4140 }, { 203,4140 }, { 204,4140 },
- { 205,4140 }, { 206,4140 }, { 207,4140 }, { 208,4140 }, { 209,4140 },
- { 210,4140 }, { 211,4140 }, { 212,4140 }, { 213,4140 }, { 214,4140 },
- { 215,4140 }, { 216,4140 }, { 217,4140 }, { 218,4140 }, { 219,4140 },
- { 220,4140 }, { 221,4140 }, { 222,4140 }, { 223,4140 }, { 224,4140 },
- { 225,4140 }, { 226,4140 }, { 227,4140 }, { 228,4140 }, { 229,4140 },
- { 230,4140 }, { 231,4140 }, { 232,4140 }, { 233,4140 }, { 234,4140 },
- { 235,4140 }, { 236,4140 }, { 237,4140 }, { 238,4140 }, { 239,4140 },
- { 240,4140 }, { 241,4140 }, { 242,4140 }, { 243,4140 }, { 244,4140 },
- { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
-
- { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15624 }, {   1,4398 },
- {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
- {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
- {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
- {  17,4398 }, {  18,4398 }, {  19,4398 }, {  20,4398 }, {  21,4398 },
- {  22,4398 }, {  23,4398 }, {  24,4398 }, {  25,4398 }, {  26,4398 },
- {  27,4398 }, {  28,4398 }, {  29,4398 }, {  30,4398 }, {  31,4398 },
- {  32,4398 }, {  33,4398 }, {  34,4398 }, {  35,4398 }, {  36,4398 },
- {  37,4398 }, {  38,4398 }, {  39,3852 }, {  40,4398 }, {  41,4398 },
-
- {  42,4398 }, {  43,4398 }, {  44,4398 }, {  45,4398 }, {  46,4398 },
- {  47,4398 }, {  48,4398 }, {  49,4398 }, {  50,4398 }, {  51,4398 },
- {  52,4398 }, {  53,4398 }, {  54,4398 }, {  55,4398 }, {  56,4398 },
- {  57,4398 }, {  58,4398 }, {  59,4398 }, {  60,4398 }, {  61,4398 },
- {  62,4398 }, {  63,4398 }, {  64,4398 }, {  65,4398 }, {  66,4398 },
- {  67,4398 }, {  68,4398 }, {  69,4398 }, {  70,4398 }, {  71,4398 },
- {  72,4398 }, {  73,4398 }, {  74,4398 }, {  75,4398 }, {  76,4398 },
- {  77,4398 }, {  78,4398 }, {  79,4398 }, {  80,4398 }, {  81,4398 },
- {  82,4398 }, {  83,4398 }, {  84,4398 }, {  85,4398 }, {  86,4398 },
- {  87,4398 }, {  88,4398 }, {  89,4398 }, {  90,4398 }, {  91,4398 },
-
- {  92,4656 }, {  93,4398 }, {  94,4398 }, {  95,4398 }, {  96,4398 },
- {  97,4398 }, {  98,4398 }, {  99,4398 }, { 100,4398 }, { 101,4398 },
- { 102,4398 }, { 103,4398 }, { 104,4398 }, { 105,4398 }, { 106,4398 },
- { 107,4398 }, { 108,4398 }, { 109,4398 }, { 110,4398 }, { 111,4398 },
- { 112,4398 }, { 113,4398 }, { 114,4398 }, { 115,4398 }, { 116,4398 },
- { 117,4398 }, { 118,4398 }, { 119,4398 }, { 120,4398 }, { 121,4398 },
- { 122,4398 }, { 123,4398 }, { 124,4398 }, { 125,4398 }, { 126,4398 },
- { 127,4398 }, { 128,4398 }, { 129,4398 }, { 130,4398 }, { 131,4398 },
- { 132,4398 }, { 133,4398 }, { 134,4398 }, { 135,4398 }, { 136,4398 },
- { 137,4398 }, { 138,4398 }, { 139,4398 }, { 140,4398 }, { 141,4398 },
-
- { 142,4398 }, { 143,4398 }, { 144,4398 }, { 145,4398 }, { 146,4398 },
- { 147,4398 }, { 148,4398 }, { 149,4398 }, { 150,4398 }, { 151,4398 },
- { 152,4398 }, { 153,4398 }, { 154,4398 }, { 155,4398 }, { 156,4398 },
- { 157,4398 }, { 158,4398 }, { 159,4398 }, { 160,4398 }, { 161,4398 },
- { 162,4398 }, { 163,4398 }, { 164,4398 }, { 165,4398 }, { 166,4398 },
- { 167,4398 }, { 168,4398 }, { 169,4398 }, { 170,4398 }, { 171,4398 },
- { 172,4398 }, { 173,4398 }, { 174,4398 }, { 175,4398 }, { 176,4398 },
- { 177,4398 }, { 178,4398 }, { 179,4398 }, { 180,4398 }, { 181,4398 },
- { 182,4398 }, { 183,4398 }, { 184,4398 }, { 185,4398 }, { 186,4398 },
- { 187,4398 }, { 188,4398 }, { 189,4398 }, { 190,4398 }, { 191,4398 },
-
- { 192,4398 }, { 193,4398 }, { 194,4398 }, { 195,4398 }, { 196,4398 },
- { 197,4398 }, { 198,4398 }, { 199,4398 }, { 200,4398 }, { 201,4398 },
- { 202,4398 }, { 203,4398 }, { 204,4398 }, { 205,4398 }, { 206,4398 },
- { 207,4398 }, { 208,4398 }, { 209,4398 }, { 210,4398 }, { 211,4398 },
- { 212,4398 }, { 213,4398 }, { 214,4398 }, { 215,4398 }, { 216,4398 },
- { 217,4398 }, { 218,4398 }, { 219,4398 }, { 220,4398 }, { 221,4398 },
- { 222,4398 }, { 223,4398 }, { 224,4398 }, { 225,4398 }, { 226,4398 },
- { 227,4398 }, { 228,4398 }, { 229,4398 }, { 230,4398 }, { 231,4398 },
- { 232,4398 }, { 233,4398 }, { 234,4398 }, { 235,4398 }, { 236,4398 },
- { 237,4398 }, { 238,4398 }, { 239,4398 }, { 240,4398 }, { 241,4398 },
-
- { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
- { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
- { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,15366 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
- {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
- {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
- {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
- {  19,3332 }, {  20,3332 }, {  21,3332 }, {  22,3332 }, {  23,3332 },
- {  24,3332 }, {  25,3332 }, {  26,3332 }, {  27,3332 }, {  28,3332 },
- {  29,3332 }, {  30,3332 }, {  31,3332 }, {  32,3307 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,3332 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3307 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,3332 }, {  46,3307 }, {  47,3307 }, {  48,4656 },
- {  49,4656 }, {  50,4656 }, {  51,4656 }, {  52,4656 }, {  53,4656 },
- {  54,4656 }, {  55,4656 }, {  56,4656 }, {  57,4656 }, {  58,3332 },
- {   0,   0 }, {   0,   0 }, {  61,3307 }, {   0,   0 }, {  63,3332 },
- {   0,   0 }, {  65,3332 }, {  66,3332 }, {  67,3332 }, {  68,3332 },
- {  69,3332 }, {  70,3332 }, {  71,3332 }, {  72,3332 }, {  73,3332 },
- {  74,3332 }, {  75,3332 }, {  76,3332 }, {  77,3332 }, {  78,3332 },
- {  79,3332 }, {  80,3332 }, {  81,3332 }, {  82,3332 }, {  83,3332 },
-
- {  84,3332 }, {  85,3332 }, {  86,3332 }, {  87,3332 }, {  88,3332 },
- {  89,3332 }, {  90,3332 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,3332 }, {   0,   0 }, {  97,3332 }, {  98,3332 },
- {  99,3332 }, { 100,3332 }, { 101,3332 }, { 102,3332 }, { 103,3332 },
- { 104,3332 }, { 105,3332 }, { 106,3332 }, { 107,3332 }, { 108,3332 },
- { 109,3332 }, { 110,3332 }, { 111,3332 }, { 112,3332 }, { 113,3332 },
- { 114,3332 }, { 115,3332 }, { 116,3332 }, { 117,3332 }, { 118,3332 },
- { 119,3332 }, { 120,3332 }, { 121,3332 }, { 122,3332 }, {   0,   0 },
- { 124,3307 }, { 125,3307 }, { 126,3307 }, { 127,3332 }, { 128,3332 },
- { 129,3332 }, { 130,3332 }, { 131,3332 }, { 132,3332 }, { 133,3332 },
-
- { 134,3332 }, { 135,3332 }, { 136,3332 }, { 137,3332 }, { 138,3332 },
- { 139,3332 }, { 140,3332 }, { 141,3332 }, { 142,3332 }, { 143,3332 },
- { 144,3332 }, { 145,3332 }, { 146,3332 }, { 147,3332 }, { 148,3332 },
- { 149,3332 }, { 150,3332 }, { 151,3332 }, { 152,3332 }, { 153,3332 },
- { 154,3332 }, { 155,3332 }, { 156,3332 }, { 157,3332 }, { 158,3332 },
- { 159,3332 }, { 160,3332 }, { 161,3332 }, { 162,3332 }, { 163,3332 },
- { 164,3332 }, { 165,3332 }, { 166,3332 }, { 167,3332 }, { 168,3332 },
- { 169,3332 }, { 170,3332 }, { 171,3332 }, { 172,3332 }, { 173,3332 },
- { 174,3332 }, { 175,3332 }, { 176,3332 }, { 177,3332 }, { 178,3332 },
- { 179,3332 }, { 180,3332 }, { 181,3332 }, { 182,3332 }, { 183,3332 },
-
- { 184,3332 }, { 185,3332 }, { 186,3332 }, { 187,3332 }, { 188,3332 },
- { 189,3332 }, { 190,3332 }, { 191,3332 }, { 192,3332 }, { 193,3332 },
- { 194,3332 }, { 195,3332 }, { 196,3332 }, { 197,3332 }, { 198,3332 },
- { 199,3332 }, { 200,3332 }, { 201,3332 }, { 202,3332 }, { 203,3332 },
- { 204,3332 }, { 205,3332 }, { 206,3332 }, { 207,3332 }, { 208,3332 },
- { 209,3332 }, { 210,3332 }, { 211,3332 }, { 212,3332 }, { 213,3332 },
- { 214,3332 }, { 215,3332 }, { 216,3332 }, { 217,3332 }, { 218,3332 },
- { 219,3332 }, { 220,3332 }, { 221,3332 }, { 222,3332 }, { 223,3332 },
- { 224,3332 }, { 225,3332 }, { 226,3332 }, { 227,3332 }, { 228,3332 },
- { 229,3332 }, { 230,3332 }, { 231,3332 }, { 232,3332 }, { 233,3332 },
-
- { 234,3332 }, { 235,3332 }, { 236,3332 }, { 237,3332 }, { 238,3332 },
- { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
- { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
- { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15108 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
- {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,15090 }, {   0,  42 }, {   0,15088 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,15059 }, {   0,  50 },
- {   0,15057 }, {   0,   7 }, {   0,15055 }, {   0,  51 }, {   0,15053 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,15026 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
- {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
- {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
- {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
- {  19,2992 }, {  20,2992 }, {  21,2992 }, {  22,2992 }, {  23,2992 },
- {  24,2992 }, {  25,2992 }, {  26,2992 }, {  27,2992 }, {  28,2992 },
- {  29,2992 }, {  30,2992 }, {  31,2992 }, {  32,3262 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,2992 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3262 }, { 124,3338 }, { 125,3338 },
-
- { 126,3338 }, {  45,2992 }, {  46,4574 }, {  47,2967 }, {  48,4316 },
- {  49,4316 }, {  50,4316 }, {  51,4316 }, {  52,4316 }, {  53,4316 },
- {  54,4316 }, {  55,4316 }, {  56,4316 }, {  57,4316 }, {  58,2992 },
- { 123,6503 }, {   0,   0 }, {  61,2967 }, {   0,   0 }, {  63,2992 },
- {   0,   0 }, {  65,2992 }, {  66,2992 }, {  67,2992 }, {  68,2992 },
- {  69,2992 }, {  70,2992 }, {  71,2992 }, {  72,2992 }, {  73,2992 },
- {  74,2992 }, {  75,2992 }, {  76,2992 }, {  77,2992 }, {  78,2992 },
- {  79,2992 }, {  80,2992 }, {  81,2992 }, {  82,2992 }, {  83,2992 },
- {  84,2992 }, {  85,2992 }, {  86,2992 }, {  87,2992 }, {  88,2992 },
- {  89,2992 }, {  90,2992 }, {   0,   0 }, { 125,6474 }, { 126,6476 },
-
- { 125,6476 }, {  95,2992 }, { 123,6474 }, {  97,2992 }, {  98,2992 },
- {  99,2992 }, { 100,2992 }, { 101,2992 }, { 102,2992 }, { 103,2992 },
- { 104,2992 }, { 105,2992 }, { 106,2992 }, { 107,2992 }, { 108,2992 },
- { 109,2992 }, { 110,2992 }, { 111,2992 }, { 112,2992 }, { 113,2992 },
- { 114,2992 }, { 115,2992 }, { 116,2992 }, { 117,2992 }, { 118,2992 },
- { 119,2992 }, { 120,2992 }, { 121,2992 }, { 122,2992 }, {   0,   0 },
- { 124,2967 }, { 125,3262 }, { 126,3262 }, { 127,2992 }, { 128,2992 },
- { 129,2992 }, { 130,2992 }, { 131,2992 }, { 132,2992 }, { 133,2992 },
- { 134,2992 }, { 135,2992 }, { 136,2992 }, { 137,2992 }, { 138,2992 },
- { 139,2992 }, { 140,2992 }, { 141,2992 }, { 142,2992 }, { 143,2992 },
-
- { 144,2992 }, { 145,2992 }, { 146,2992 }, { 147,2992 }, { 148,2992 },
- { 149,2992 }, { 150,2992 }, { 151,2992 }, { 152,2992 }, { 153,2992 },
- { 154,2992 }, { 155,2992 }, { 156,2992 }, { 157,2992 }, { 158,2992 },
- { 159,2992 }, { 160,2992 }, { 161,2992 }, { 162,2992 }, { 163,2992 },
- { 164,2992 }, { 165,2992 }, { 166,2992 }, { 167,2992 }, { 168,2992 },
- { 169,2992 }, { 170,2992 }, { 171,2992 }, { 172,2992 }, { 173,2992 },
- { 174,2992 }, { 175,2992 }, { 176,2992 }, { 177,2992 }, { 178,2992 },
- { 179,2992 }, { 180,2992 }, { 181,2992 }, { 182,2992 }, { 183,2992 },
- { 184,2992 }, { 185,2992 }, { 186,2992 }, { 187,2992 }, { 188,2992 },
- { 189,2992 }, { 190,2992 }, { 191,2992 }, { 192,2992 }, { 193,2992 },
-
- { 194,2992 }, { 195,2992 }, { 196,2992 }, { 197,2992 }, { 198,2992 },
- { 199,2992 }, { 200,2992 }, { 201,2992 }, { 202,2992 }, { 203,2992 },
- { 204,2992 }, { 205,2992 }, { 206,2992 }, { 207,2992 }, { 208,2992 },
- { 209,2992 }, { 210,2992 }, { 211,2992 }, { 212,2992 }, { 213,2992 },
- { 214,2992 }, { 215,2992 }, { 216,2992 }, { 217,2992 }, { 218,2992 },
- { 219,2992 }, { 220,2992 }, { 221,2992 }, { 222,2992 }, { 223,2992 },
- { 224,2992 }, { 225,2992 }, { 226,2992 }, { 227,2992 }, { 228,2992 },
- { 229,2992 }, { 230,2992 }, { 231,2992 }, { 232,2992 }, { 233,2992 },
- { 234,2992 }, { 235,2992 }, { 236,2992 }, { 237,2992 }, { 238,2992 },
- { 239,2992 }, { 240,2992 }, { 241,2992 }, { 242,2992 }, { 243,2992 },
-
- { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
- { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14768 },
- {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
- {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
- {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
- {  16,4375 }, {  17,4375 }, {  18,4375 }, {  19,4375 }, {  20,4375 },
- {  21,4375 }, {  22,4375 }, {  23,4375 }, {  24,4375 }, {  25,4375 },
- {  26,4375 }, {  27,4375 }, {  28,4375 }, {  29,4375 }, {  30,4375 },
- {  31,4375 }, {  32,4375 }, {  33,4375 }, {  34,4375 }, {  35,4375 },
-
- {  36,4375 }, {  37,4375 }, {  38,4375 }, {  39,4375 }, {  40,4375 },
- {  41,4375 }, {  42,4375 }, {  43,4375 }, {  44,4375 }, {  45,4375 },
- {  46,4375 }, {  47,4375 }, {  48,4375 }, {  49,4375 }, {  50,4375 },
- {  51,4375 }, {  52,4375 }, {  53,4375 }, {  54,4375 }, {  55,4375 },
- {  56,4375 }, {  57,4375 }, {  58,4375 }, {  59,4375 }, {  60,4375 },
- {  61,4375 }, {  62,4375 }, {  63,4375 }, {  64,4375 }, {  65,4375 },
- {  66,4375 }, {  67,4375 }, {  68,4375 }, {  69,4375 }, {  70,4375 },
- {  71,4375 }, {  72,4375 }, {  73,4375 }, {  74,4375 }, {  75,4375 },
- {  76,4375 }, {  77,4375 }, {  78,4375 }, {  79,4375 }, {  80,4375 },
- {  81,4375 }, {  82,4375 }, {  83,4375 }, {  84,4375 }, {  85,4375 },
-
- {  86,4375 }, {  87,4375 }, {  88,4375 }, {  89,4375 }, {  90,4375 },
- {  91,4375 }, {  92,4633 }, {  93,3007 }, {  94,4375 }, {  95,4375 },
- {  96,4375 }, {  97,4375 }, {  98,4375 }, {  99,4375 }, { 100,4375 },
- { 101,4375 }, { 102,4375 }, { 103,4375 }, { 104,4375 }, { 105,4375 },
- { 106,4375 }, { 107,4375 }, { 108,4375 }, { 109,4375 }, { 110,4375 },
- { 111,4375 }, { 112,4375 }, { 113,4375 }, { 114,4375 }, { 115,4375 },
- { 116,4375 }, { 117,4375 }, { 118,4375 }, { 119,4375 }, { 120,4375 },
- { 121,4375 }, { 122,4375 }, { 123,4375 }, { 124,4375 }, { 125,4375 },
- { 126,4375 }, { 127,4375 }, { 128,4375 }, { 129,4375 }, { 130,4375 },
- { 131,4375 }, { 132,4375 }, { 133,4375 }, { 134,4375 }, { 135,4375 },
-
- { 136,4375 }, { 137,4375 }, { 138,4375 }, { 139,4375 }, { 140,4375 },
- { 141,4375 }, { 142,4375 }, { 143,4375 }, { 144,4375 }, { 145,4375 },
- { 146,4375 }, { 147,4375 }, { 148,4375 }, { 149,4375 }, { 150,4375 },
- { 151,4375 }, { 152,4375 }, { 153,4375 }, { 154,4375 }, { 155,4375 },
- { 156,4375 }, { 157,4375 }, { 158,4375 }, { 159,4375 }, { 160,4375 },
- { 161,4375 }, { 162,4375 }, { 163,4375 }, { 164,4375 }, { 165,4375 },
- { 166,4375 }, { 167,4375 }, { 168,4375 }, { 169,4375 }, { 170,4375 },
- { 171,4375 }, { 172,4375 }, { 173,4375 }, { 174,4375 }, { 175,4375 },
- { 176,4375 }, { 177,4375 }, { 178,4375 }, { 179,4375 }, { 180,4375 },
- { 181,4375 }, { 182,4375 }, { 183,4375 }, { 184,4375 }, { 185,4375 },
-
- { 186,4375 }, { 187,4375 }, { 188,4375 }, { 189,4375 }, { 190,4375 },
- { 191,4375 }, { 192,4375 }, { 193,4375 }, { 194,4375 }, { 195,4375 },
- { 196,4375 }, { 197,4375 }, { 198,4375 }, { 199,4375 }, { 200,4375 },
- { 201,4375 }, { 202,4375 }, { 203,4375 }, { 204,4375 }, { 205,4375 },
- { 206,4375 }, { 207,4375 }, { 208,4375 }, { 209,4375 }, { 210,4375 },
- { 211,4375 }, { 212,4375 }, { 213,4375 }, { 214,4375 }, { 215,4375 },
- { 216,4375 }, { 217,4375 }, { 218,4375 }, { 219,4375 }, { 220,4375 },
- { 221,4375 }, { 222,4375 }, { 223,4375 }, { 224,4375 }, { 225,4375 },
- { 226,4375 }, { 227,4375 }, { 228,4375 }, { 229,4375 }, { 230,4375 },
- { 231,4375 }, { 232,4375 }, { 233,4375 }, { 234,4375 }, { 235,4375 },
-
- { 236,4375 }, { 237,4375 }, { 238,4375 }, { 239,4375 }, { 240,4375 },
- { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
- { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
- { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,14510 }, {   1,2476 }, {   2,2476 },
- {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
- {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
- {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
- {  18,2476 }, {  19,2476 }, {  20,2476 }, {  21,2476 }, {  22,2476 },
- {  23,2476 }, {  24,2476 }, {  25,2476 }, {  26,2476 }, {  27,2476 },
-
- {  28,2476 }, {  29,2476 }, {  30,2476 }, {  31,2476 }, {  32,2451 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2476 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2451 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,2476 }, {  46,2451 }, {  47,2451 },
- {  48,2476 }, {  49,2476 }, {  50,2476 }, {  51,2476 }, {  52,2476 },
- {  53,2476 }, {  54,2476 }, {  55,2476 }, {  56,2476 }, {  57,2476 },
- {  58,2476 }, {   0,   0 }, {   0,   0 }, {  61,2451 }, {   0,   0 },
- {  63,2476 }, {   0,   0 }, {  65,2476 }, {  66,2476 }, {  67,2476 },
- {  68,2476 }, {  69,2476 }, {  70,2476 }, {  71,2476 }, {  72,2476 },
- {  73,2476 }, {  74,2476 }, {  75,2476 }, {  76,2476 }, {  77,2476 },
-
- {  78,2476 }, {  79,2476 }, {  80,2476 }, {  81,2476 }, {  82,2476 },
- {  83,2476 }, {  84,2476 }, {  85,2476 }, {  86,2476 }, {  87,2476 },
- {  88,2476 }, {  89,2476 }, {  90,2476 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,2476 }, {   0,   0 }, {  97,2476 },
- {  98,2476 }, {  99,2476 }, { 100,2476 }, { 101,2476 }, { 102,2476 },
- { 103,2476 }, { 104,2476 }, { 105,2476 }, { 106,2476 }, { 107,2476 },
- { 108,2476 }, { 109,2476 }, { 110,2476 }, { 111,2476 }, { 112,2476 },
- { 113,2476 }, { 114,2476 }, { 115,4633 }, { 116,2476 }, { 117,2476 },
- { 118,2476 }, { 119,2476 }, { 120,2476 }, { 121,2476 }, { 122,2476 },
- {   0,   0 }, { 124,2451 }, { 125,2451 }, { 126,2451 }, { 127,2476 },
-
- { 128,2476 }, { 129,2476 }, { 130,2476 }, { 131,2476 }, { 132,2476 },
- { 133,2476 }, { 134,2476 }, { 135,2476 }, { 136,2476 }, { 137,2476 },
- { 138,2476 }, { 139,2476 }, { 140,2476 }, { 141,2476 }, { 142,2476 },
- { 143,2476 }, { 144,2476 }, { 145,2476 }, { 146,2476 }, { 147,2476 },
- { 148,2476 }, { 149,2476 }, { 150,2476 }, { 151,2476 }, { 152,2476 },
- { 153,2476 }, { 154,2476 }, { 155,2476 }, { 156,2476 }, { 157,2476 },
- { 158,2476 }, { 159,2476 }, { 160,2476 }, { 161,2476 }, { 162,2476 },
- { 163,2476 }, { 164,2476 }, { 165,2476 }, { 166,2476 }, { 167,2476 },
- { 168,2476 }, { 169,2476 }, { 170,2476 }, { 171,2476 }, { 172,2476 },
- { 173,2476 }, { 174,2476 }, { 175,2476 }, { 176,2476 }, { 177,2476 },
-
- { 178,2476 }, { 179,2476 }, { 180,2476 }, { 181,2476 }, { 182,2476 },
- { 183,2476 }, { 184,2476 }, { 185,2476 }, { 186,2476 }, { 187,2476 },
- { 188,2476 }, { 189,2476 }, { 190,2476 }, { 191,2476 }, { 192,2476 },
- { 193,2476 }, { 194,2476 }, { 195,2476 }, { 196,2476 }, { 197,2476 },
- { 198,2476 }, { 199,2476 }, { 200,2476 }, { 201,2476 }, { 202,2476 },
- { 203,2476 }, { 204,2476 }, { 205,2476 }, { 206,2476 }, { 207,2476 },
- { 208,2476 }, { 209,2476 }, { 210,2476 }, { 211,2476 }, { 212,2476 },
- { 213,2476 }, { 214,2476 }, { 215,2476 }, { 216,2476 }, { 217,2476 },
- { 218,2476 }, { 219,2476 }, { 220,2476 }, { 221,2476 }, { 222,2476 },
- { 223,2476 }, { 224,2476 }, { 225,2476 }, { 226,2476 }, { 227,2476 },
-
- { 228,2476 }, { 229,2476 }, { 230,2476 }, { 231,2476 }, { 232,2476 },
- { 233,2476 }, { 234,2476 }, { 235,2476 }, { 236,2476 }, { 237,2476 },
- { 238,2476 }, { 239,2476 }, { 240,2476 }, { 241,2476 }, { 242,2476 },
- { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
- { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
- { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,14252 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
- {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
- {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
- {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
-
- {  20,2218 }, {  21,2218 }, {  22,2218 }, {  23,2218 }, {  24,2218 },
- {  25,2218 }, {  26,2218 }, {  27,2218 }, {  28,2218 }, {  29,2218 },
- {  30,2218 }, {  31,2218 }, {  32,2193 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,2218 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,2193 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,2218 }, {  46,2193 }, {  47,2193 }, {  48,2218 }, {  49,2218 },
- {  50,2218 }, {  51,2218 }, {  52,2218 }, {  53,2218 }, {  54,2218 },
- {  55,2218 }, {  56,2218 }, {  57,2218 }, {  58,2218 }, {   0,   0 },
- {   0,   0 }, {  61,2193 }, {   0,   0 }, {  63,2218 }, {   0,   0 },
- {  65,2218 }, {  66,2218 }, {  67,2218 }, {  68,2218 }, {  69,2218 },
-
- {  70,2218 }, {  71,2218 }, {  72,2218 }, {  73,2218 }, {  74,2218 },
- {  75,2218 }, {  76,2218 }, {  77,2218 }, {  78,2218 }, {  79,2218 },
- {  80,2218 }, {  81,2218 }, {  82,2218 }, {  83,2218 }, {  84,2218 },
- {  85,2218 }, {  86,2218 }, {  87,2218 }, {  88,2218 }, {  89,2218 },
- {  90,2218 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,2218 }, {   0,   0 }, {  97,4633 }, {  98,2218 }, {  99,2218 },
- { 100,2218 }, { 101,2218 }, { 102,2218 }, { 103,2218 }, { 104,2218 },
- { 105,2218 }, { 106,2218 }, { 107,2218 }, { 108,2218 }, { 109,2218 },
- { 110,2218 }, { 111,2218 }, { 112,2218 }, { 113,2218 }, { 114,2218 },
- { 115,2218 }, { 116,2218 }, { 117,2218 }, { 118,2218 }, { 119,2218 },
-
- { 120,2218 }, { 121,2218 }, { 122,2218 }, {   0,   0 }, { 124,2193 },
- { 125,2193 }, { 126,2193 }, { 127,2218 }, { 128,2218 }, { 129,2218 },
- { 130,2218 }, { 131,2218 }, { 132,2218 }, { 133,2218 }, { 134,2218 },
- { 135,2218 }, { 136,2218 }, { 137,2218 }, { 138,2218 }, { 139,2218 },
- { 140,2218 }, { 141,2218 }, { 142,2218 }, { 143,2218 }, { 144,2218 },
- { 145,2218 }, { 146,2218 }, { 147,2218 }, { 148,2218 }, { 149,2218 },
- { 150,2218 }, { 151,2218 }, { 152,2218 }, { 153,2218 }, { 154,2218 },
- { 155,2218 }, { 156,2218 }, { 157,2218 }, { 158,2218 }, { 159,2218 },
- { 160,2218 }, { 161,2218 }, { 162,2218 }, { 163,2218 }, { 164,2218 },
- { 165,2218 }, { 166,2218 }, { 167,2218 }, { 168,2218 }, { 169,2218 },
-
- { 170,2218 }, { 171,2218 }, { 172,2218 }, { 173,2218 }, { 174,2218 },
- { 175,2218 }, { 176,2218 }, { 177,2218 }, { 178,2218 }, { 179,2218 },
- { 180,2218 }, { 181,2218 }, { 182,2218 }, { 183,2218 }, { 184,2218 },
- { 185,2218 }, { 186,2218 }, { 187,2218 }, { 188,2218 }, { 189,2218 },
- { 190,2218 }, { 191,2218 }, { 192,2218 }, { 193,2218 }, { 194,2218 },
- { 195,2218 }, { 196,2218 }, { 197,2218 }, { 198,2218 }, { 199,2218 },
- { 200,2218 }, { 201,2218 }, { 202,2218 }, { 203,2218 }, { 204,2218 },
- { 205,2218 }, { 206,2218 }, { 207,2218 }, { 208,2218 }, { 209,2218 },
- { 210,2218 }, { 211,2218 }, { 212,2218 }, { 213,2218 }, { 214,2218 },
- { 215,2218 }, { 216,2218 }, { 217,2218 }, { 218,2218 }, { 219,2218 },
-
- { 220,2218 }, { 221,2218 }, { 222,2218 }, { 223,2218 }, { 224,2218 },
- { 225,2218 }, { 226,2218 }, { 227,2218 }, { 228,2218 }, { 229,2218 },
- { 230,2218 }, { 231,2218 }, { 232,2218 }, { 233,2218 }, { 234,2218 },
- { 235,2218 }, { 236,2218 }, { 237,2218 }, { 238,2218 }, { 239,2218 },
- { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
- { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
- { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13994 }, {   1,1960 },
- {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
- {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
-
- {  12,1960 }, {  13,1935 }, {  14,1960 }, {  15,1960 }, {  16,1960 },
- {  17,1960 }, {  18,1960 }, {  19,1960 }, {  20,1960 }, {  21,1960 },
- {  22,1960 }, {  23,1960 }, {  24,1960 }, {  25,1960 }, {  26,1960 },
- {  27,1960 }, {  28,1960 }, {  29,1960 }, {  30,1960 }, {  31,1960 },
- {  32,1935 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1960 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1935 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1960 }, {  46,1935 },
- {  47,1935 }, {  48,1960 }, {  49,1960 }, {  50,1960 }, {  51,1960 },
- {  52,1960 }, {  53,1960 }, {  54,1960 }, {  55,1960 }, {  56,1960 },
- {  57,1960 }, {  58,1960 }, {   0,   0 }, {   0,   0 }, {  61,1935 },
-
- {   0,   0 }, {  63,1960 }, {   0,   0 }, {  65,1960 }, {  66,1960 },
- {  67,1960 }, {  68,1960 }, {  69,1960 }, {  70,1960 }, {  71,1960 },
- {  72,1960 }, {  73,1960 }, {  74,1960 }, {  75,1960 }, {  76,1960 },
- {  77,1960 }, {  78,1960 }, {  79,1960 }, {  80,1960 }, {  81,1960 },
- {  82,1960 }, {  83,1960 }, {  84,1960 }, {  85,1960 }, {  86,1960 },
- {  87,1960 }, {  88,1960 }, {  89,1960 }, {  90,1960 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1960 }, {   0,   0 },
- {  97,1960 }, {  98,1960 }, {  99,1960 }, { 100,1960 }, { 101,1960 },
- { 102,1960 }, { 103,1960 }, { 104,1960 }, { 105,1960 }, { 106,1960 },
- { 107,1960 }, { 108,1960 }, { 109,1960 }, { 110,1960 }, { 111,1960 },
-
- { 112,1960 }, { 113,1960 }, { 114,1960 }, { 115,1960 }, { 116,1960 },
- { 117,4633 }, { 118,1960 }, { 119,1960 }, { 120,1960 }, { 121,1960 },
- { 122,1960 }, {   0,   0 }, { 124,1935 }, { 125,1935 }, { 126,1935 },
- { 127,1960 }, { 128,1960 }, { 129,1960 }, { 130,1960 }, { 131,1960 },
- { 132,1960 }, { 133,1960 }, { 134,1960 }, { 135,1960 }, { 136,1960 },
- { 137,1960 }, { 138,1960 }, { 139,1960 }, { 140,1960 }, { 141,1960 },
- { 142,1960 }, { 143,1960 }, { 144,1960 }, { 145,1960 }, { 146,1960 },
- { 147,1960 }, { 148,1960 }, { 149,1960 }, { 150,1960 }, { 151,1960 },
- { 152,1960 }, { 153,1960 }, { 154,1960 }, { 155,1960 }, { 156,1960 },
- { 157,1960 }, { 158,1960 }, { 159,1960 }, { 160,1960 }, { 161,1960 },
-
- { 162,1960 }, { 163,1960 }, { 164,1960 }, { 165,1960 }, { 166,1960 },
- { 167,1960 }, { 168,1960 }, { 169,1960 }, { 170,1960 }, { 171,1960 },
- { 172,1960 }, { 173,1960 }, { 174,1960 }, { 175,1960 }, { 176,1960 },
- { 177,1960 }, { 178,1960 }, { 179,1960 }, { 180,1960 }, { 181,1960 },
- { 182,1960 }, { 183,1960 }, { 184,1960 }, { 185,1960 }, { 186,1960 },
- { 187,1960 }, { 188,1960 }, { 189,1960 }, { 190,1960 }, { 191,1960 },
- { 192,1960 }, { 193,1960 }, { 194,1960 }, { 195,1960 }, { 196,1960 },
- { 197,1960 }, { 198,1960 }, { 199,1960 }, { 200,1960 }, { 201,1960 },
- { 202,1960 }, { 203,1960 }, { 204,1960 }, { 205,1960 }, { 206,1960 },
- { 207,1960 }, { 208,1960 }, { 209,1960 }, { 210,1960 }, { 211,1960 },
-
- { 212,1960 }, { 213,1960 }, { 214,1960 }, { 215,1960 }, { 216,1960 },
- { 217,1960 }, { 218,1960 }, { 219,1960 }, { 220,1960 }, { 221,1960 },
- { 222,1960 }, { 223,1960 }, { 224,1960 }, { 225,1960 }, { 226,1960 },
- { 227,1960 }, { 228,1960 }, { 229,1960 }, { 230,1960 }, { 231,1960 },
- { 232,1960 }, { 233,1960 }, { 234,1960 }, { 235,1960 }, { 236,1960 },
- { 237,1960 }, { 238,1960 }, { 239,1960 }, { 240,1960 }, { 241,1960 },
- { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
- { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
- { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,13736 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
-
- {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
- {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
- {  14,1702 }, {  15,1702 }, {  16,1702 }, {  17,1702 }, {  18,1702 },
- {  19,1702 }, {  20,1702 }, {  21,1702 }, {  22,1702 }, {  23,1702 },
- {  24,1702 }, {  25,1702 }, {  26,1702 }, {  27,1702 }, {  28,1702 },
- {  29,1702 }, {  30,1702 }, {  31,1702 }, {  32,1677 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1702 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1677 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1702 }, {  46,1677 }, {  47,1677 }, {  48,1702 },
- {  49,1702 }, {  50,1702 }, {  51,1702 }, {  52,1702 }, {  53,1702 },
-
- {  54,1702 }, {  55,1702 }, {  56,1702 }, {  57,1702 }, {  58,1702 },
- {   0,   0 }, {   0,   0 }, {  61,1677 }, {   0,   0 }, {  63,1702 },
- {   0,   0 }, {  65,1702 }, {  66,1702 }, {  67,1702 }, {  68,1702 },
- {  69,1702 }, {  70,1702 }, {  71,1702 }, {  72,1702 }, {  73,1702 },
- {  74,1702 }, {  75,1702 }, {  76,1702 }, {  77,1702 }, {  78,1702 },
- {  79,1702 }, {  80,1702 }, {  81,1702 }, {  82,1702 }, {  83,1702 },
- {  84,1702 }, {  85,1702 }, {  86,1702 }, {  87,1702 }, {  88,1702 },
- {  89,1702 }, {  90,1702 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1702 }, {   0,   0 }, {  97,1702 }, {  98,1702 },
- {  99,1702 }, { 100,1702 }, { 101,1702 }, { 102,1702 }, { 103,1702 },
-
- { 104,1702 }, { 105,1702 }, { 106,1702 }, { 107,1702 }, { 108,1702 },
- { 109,1702 }, { 110,1702 }, { 111,1702 }, { 112,1702 }, { 113,1702 },
- { 114,4633 }, { 115,1702 }, { 116,1702 }, { 117,1702 }, { 118,1702 },
- { 119,1702 }, { 120,1702 }, { 121,1702 }, { 122,1702 }, {   0,   0 },
- { 124,1677 }, { 125,1677 }, { 126,1677 }, { 127,1702 }, { 128,1702 },
- { 129,1702 }, { 130,1702 }, { 131,1702 }, { 132,1702 }, { 133,1702 },
- { 134,1702 }, { 135,1702 }, { 136,1702 }, { 137,1702 }, { 138,1702 },
- { 139,1702 }, { 140,1702 }, { 141,1702 }, { 142,1702 }, { 143,1702 },
- { 144,1702 }, { 145,1702 }, { 146,1702 }, { 147,1702 }, { 148,1702 },
- { 149,1702 }, { 150,1702 }, { 151,1702 }, { 152,1702 }, { 153,1702 },
-
- { 154,1702 }, { 155,1702 }, { 156,1702 }, { 157,1702 }, { 158,1702 },
- { 159,1702 }, { 160,1702 }, { 161,1702 }, { 162,1702 }, { 163,1702 },
- { 164,1702 }, { 165,1702 }, { 166,1702 }, { 167,1702 }, { 168,1702 },
- { 169,1702 }, { 170,1702 }, { 171,1702 }, { 172,1702 }, { 173,1702 },
- { 174,1702 }, { 175,1702 }, { 176,1702 }, { 177,1702 }, { 178,1702 },
- { 179,1702 }, { 180,1702 }, { 181,1702 }, { 182,1702 }, { 183,1702 },
- { 184,1702 }, { 185,1702 }, { 186,1702 }, { 187,1702 }, { 188,1702 },
- { 189,1702 }, { 190,1702 }, { 191,1702 }, { 192,1702 }, { 193,1702 },
- { 194,1702 }, { 195,1702 }, { 196,1702 }, { 197,1702 }, { 198,1702 },
- { 199,1702 }, { 200,1702 }, { 201,1702 }, { 202,1702 }, { 203,1702 },
-
- { 204,1702 }, { 205,1702 }, { 206,1702 }, { 207,1702 }, { 208,1702 },
- { 209,1702 }, { 210,1702 }, { 211,1702 }, { 212,1702 }, { 213,1702 },
- { 214,1702 }, { 215,1702 }, { 216,1702 }, { 217,1702 }, { 218,1702 },
- { 219,1702 }, { 220,1702 }, { 221,1702 }, { 222,1702 }, { 223,1702 },
- { 224,1702 }, { 225,1702 }, { 226,1702 }, { 227,1702 }, { 228,1702 },
- { 229,1702 }, { 230,1702 }, { 231,1702 }, { 232,1702 }, { 233,1702 },
- { 234,1702 }, { 235,1702 }, { 236,1702 }, { 237,1702 }, { 238,1702 },
- { 239,1702 }, { 240,1702 }, { 241,1702 }, { 242,1702 }, { 243,1702 },
- { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
- { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
-
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13478 },
- {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
- {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
- {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
- {  16,1444 }, {  17,1444 }, {  18,1444 }, {  19,1444 }, {  20,1444 },
- {  21,1444 }, {  22,1444 }, {  23,1444 }, {  24,1444 }, {  25,1444 },
- {  26,1444 }, {  27,1444 }, {  28,1444 }, {  29,1444 }, {  30,1444 },
- {  31,1444 }, {  32,1419 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1444 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,1419 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1444 },
-
- {  46,1419 }, {  47,1419 }, {  48,1444 }, {  49,1444 }, {  50,1444 },
- {  51,1444 }, {  52,1444 }, {  53,1444 }, {  54,1444 }, {  55,1444 },
- {  56,1444 }, {  57,1444 }, {  58,1444 }, {   0,   0 }, {   0,   0 },
- {  61,1419 }, {   0,   0 }, {  63,1444 }, {   0,   0 }, {  65,1444 },
- {  66,1444 }, {  67,1444 }, {  68,1444 }, {  69,1444 }, {  70,1444 },
- {  71,1444 }, {  72,1444 }, {  73,1444 }, {  74,1444 }, {  75,1444 },
- {  76,1444 }, {  77,1444 }, {  78,1444 }, {  79,1444 }, {  80,1444 },
- {  81,1444 }, {  82,1444 }, {  83,1444 }, {  84,1444 }, {  85,1444 },
- {  86,1444 }, {  87,1444 }, {  88,1444 }, {  89,1444 }, {  90,1444 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1444 },
-
- {   0,   0 }, {  97,1444 }, {  98,1444 }, {  99,1444 }, { 100,1444 },
- { 101,1444 }, { 102,1444 }, { 103,1444 }, { 104,1444 }, { 105,1444 },
- { 106,1444 }, { 107,1444 }, { 108,1444 }, { 109,1444 }, { 110,4633 },
- { 111,1444 }, { 112,1444 }, { 113,1444 }, { 114,1444 }, { 115,1444 },
- { 116,1444 }, { 117,1444 }, { 118,1444 }, { 119,1444 }, { 120,1444 },
- { 121,1444 }, { 122,1444 }, {   0,   0 }, { 124,1419 }, { 125,1419 },
- { 126,1419 }, { 127,1444 }, { 128,1444 }, { 129,1444 }, { 130,1444 },
- { 131,1444 }, { 132,1444 }, { 133,1444 }, { 134,1444 }, { 135,1444 },
- { 136,1444 }, { 137,1444 }, { 138,1444 }, { 139,1444 }, { 140,1444 },
- { 141,1444 }, { 142,1444 }, { 143,1444 }, { 144,1444 }, { 145,1444 },
-
- { 146,1444 }, { 147,1444 }, { 148,1444 }, { 149,1444 }, { 150,1444 },
- { 151,1444 }, { 152,1444 }, { 153,1444 }, { 154,1444 }, { 155,1444 },
- { 156,1444 }, { 157,1444 }, { 158,1444 }, { 159,1444 }, { 160,1444 },
- { 161,1444 }, { 162,1444 }, { 163,1444 }, { 164,1444 }, { 165,1444 },
- { 166,1444 }, { 167,1444 }, { 168,1444 }, { 169,1444 }, { 170,1444 },
- { 171,1444 }, { 172,1444 }, { 173,1444 }, { 174,1444 }, { 175,1444 },
- { 176,1444 }, { 177,1444 }, { 178,1444 }, { 179,1444 }, { 180,1444 },
- { 181,1444 }, { 182,1444 }, { 183,1444 }, { 184,1444 }, { 185,1444 },
- { 186,1444 }, { 187,1444 }, { 188,1444 }, { 189,1444 }, { 190,1444 },
- { 191,1444 }, { 192,1444 }, { 193,1444 }, { 194,1444 }, { 195,1444 },
-
- { 196,1444 }, { 197,1444 }, { 198,1444 }, { 199,1444 }, { 200,1444 },
- { 201,1444 }, { 202,1444 }, { 203,1444 }, { 204,1444 }, { 205,1444 },
- { 206,1444 }, { 207,1444 }, { 208,1444 }, { 209,1444 }, { 210,1444 },
- { 211,1444 }, { 212,1444 }, { 213,1444 }, { 214,1444 }, { 215,1444 },
- { 216,1444 }, { 217,1444 }, { 218,1444 }, { 219,1444 }, { 220,1444 },
- { 221,1444 }, { 222,1444 }, { 223,1444 }, { 224,1444 }, { 225,1444 },
- { 226,1444 }, { 227,1444 }, { 228,1444 }, { 229,1444 }, { 230,1444 },
- { 231,1444 }, { 232,1444 }, { 233,1444 }, { 234,1444 }, { 235,1444 },
- { 236,1444 }, { 237,1444 }, { 238,1444 }, { 239,1444 }, { 240,1444 },
- { 241,1444 }, { 242,1444 }, { 243,1444 }, { 244,1444 }, { 245,1444 },
-
- { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
- { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,13220 }, {   1,4769 }, {   2,4769 },
- {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
- {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
- {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
- {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 }, {  22,4769 },
- {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 }, {  27,4769 },
- {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 }, {  32,4769 },
- {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 }, {  37,4769 },
-
- {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 }, {  42,4769 },
- {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 }, {  47,4769 },
- {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 }, {  52,4769 },
- {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 }, {  57,4769 },
- {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 }, {  62,4769 },
- {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 }, {  67,4769 },
- {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 }, {  72,4769 },
- {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 }, {  77,4769 },
- {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 }, {  82,4769 },
- {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 }, {  87,4769 },
-
- {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 }, {  92,4769 },
- {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 }, {  97,4769 },
- {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 }, { 102,4769 },
- { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 }, { 107,4769 },
- { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 }, { 112,4769 },
- { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 }, { 117,4769 },
- { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 }, { 122,4769 },
- { 123,4769 }, { 124,4769 }, { 125,5027 }, { 126,4769 }, { 127,4769 },
- { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 }, { 132,4769 },
- { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 }, { 137,4769 },
-
- { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 }, { 142,4769 },
- { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 }, { 147,4769 },
- { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 }, { 152,4769 },
- { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 }, { 157,4769 },
- { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 }, { 162,4769 },
- { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 }, { 167,4769 },
- { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 }, { 172,4769 },
- { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 }, { 177,4769 },
- { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 }, { 182,4769 },
- { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 }, { 187,4769 },
-
- { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 }, { 192,4769 },
- { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 }, { 197,4769 },
- { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 }, { 202,4769 },
- { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 }, { 207,4769 },
- { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 }, { 212,4769 },
- { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 }, { 217,4769 },
- { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 }, { 222,4769 },
- { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 }, { 227,4769 },
- { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 }, { 232,4769 },
- { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 }, { 237,4769 },
-
- { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 }, { 242,4769 },
- { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
- { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
- { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,12962 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
- {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
- {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
- {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
- {  20,4511 }, {  21,4511 }, {  22,4511 }, {  23,4511 }, {  24,4511 },
- {  25,4511 }, {  26,4511 }, {  27,4511 }, {  28,4511 }, {  29,4511 },
-
- {  30,4511 }, {  31,4511 }, {  32,4511 }, {  33,4511 }, {  34,4511 },
- {  35,4511 }, {  36,4511 }, {  37,4511 }, {  38,4511 }, {  39,4511 },
- {  40,4511 }, {  41,4511 }, {  42,4511 }, {  43,4511 }, {  44,4511 },
- {  45,4511 }, {  46,4511 }, {  47,4511 }, {  48,4511 }, {  49,4511 },
- {  50,4511 }, {  51,4511 }, {  52,4511 }, {  53,4511 }, {  54,4511 },
- {  55,4511 }, {  56,4511 }, {  57,4511 }, {  58,4511 }, {  59,4511 },
- {  60,4511 }, {  61,4511 }, {  62,4511 }, {  63,4511 }, {  64,4511 },
- {  65,4511 }, {  66,4511 }, {  67,4511 }, {  68,4511 }, {  69,4511 },
- {  70,4511 }, {  71,4511 }, {  72,4511 }, {  73,4511 }, {  74,4511 },
- {  75,4511 }, {  76,4511 }, {  77,4511 }, {  78,4511 }, {  79,4511 },
-
- {  80,4511 }, {  81,4511 }, {  82,4511 }, {  83,4511 }, {  84,4511 },
- {  85,4511 }, {  86,4511 }, {  87,4511 }, {  88,4511 }, {  89,4511 },
- {  90,4511 }, {  91,4511 }, {  92,4511 }, {  93,4511 }, {  94,4511 },
- {  95,4511 }, {  96,4511 }, {  97,4511 }, {  98,4511 }, {  99,4511 },
- { 100,4511 }, { 101,4511 }, { 102,4511 }, { 103,4511 }, { 104,4511 },
- { 105,4511 }, { 106,4511 }, { 107,4511 }, { 108,4511 }, { 109,4511 },
- { 110,4511 }, { 111,4511 }, { 112,4511 }, { 113,4511 }, { 114,4511 },
- { 115,4511 }, { 116,4511 }, { 117,4511 }, { 118,4511 }, { 119,4511 },
- { 120,4511 }, { 121,4511 }, { 122,4511 }, { 123,4511 }, { 124,4511 },
- { 125,4387 }, { 126,4511 }, { 127,4511 }, { 128,4511 }, { 129,4511 },
-
- { 130,4511 }, { 131,4511 }, { 132,4511 }, { 133,4511 }, { 134,4511 },
- { 135,4511 }, { 136,4511 }, { 137,4511 }, { 138,4511 }, { 139,4511 },
- { 140,4511 }, { 141,4511 }, { 142,4511 }, { 143,4511 }, { 144,4511 },
- { 145,4511 }, { 146,4511 }, { 147,4511 }, { 148,4511 }, { 149,4511 },
- { 150,4511 }, { 151,4511 }, { 152,4511 }, { 153,4511 }, { 154,4511 },
- { 155,4511 }, { 156,4511 }, { 157,4511 }, { 158,4511 }, { 159,4511 },
- { 160,4511 }, { 161,4511 }, { 162,4511 }, { 163,4511 }, { 164,4511 },
- { 165,4511 }, { 166,4511 }, { 167,4511 }, { 168,4511 }, { 169,4511 },
- { 170,4511 }, { 171,4511 }, { 172,4511 }, { 173,4511 }, { 174,4511 },
- { 175,4511 }, { 176,4511 }, { 177,4511 }, { 178,4511 }, { 179,4511 },
-
- { 180,4511 }, { 181,4511 }, { 182,4511 }, { 183,4511 }, { 184,4511 },
- { 185,4511 }, { 186,4511 }, { 187,4511 }, { 188,4511 }, { 189,4511 },
- { 190,4511 }, { 191,4511 }, { 192,4511 }, { 193,4511 }, { 194,4511 },
- { 195,4511 }, { 196,4511 }, { 197,4511 }, { 198,4511 }, { 199,4511 },
- { 200,4511 }, { 201,4511 }, { 202,4511 }, { 203,4511 }, { 204,4511 },
- { 205,4511 }, { 206,4511 }, { 207,4511 }, { 208,4511 }, { 209,4511 },
- { 210,4511 }, { 211,4511 }, { 212,4511 }, { 213,4511 }, { 214,4511 },
- { 215,4511 }, { 216,4511 }, { 217,4511 }, { 218,4511 }, { 219,4511 },
- { 220,4511 }, { 221,4511 }, { 222,4511 }, { 223,4511 }, { 224,4511 },
- { 225,4511 }, { 226,4511 }, { 227,4511 }, { 228,4511 }, { 229,4511 },
-
- { 230,4511 }, { 231,4511 }, { 232,4511 }, { 233,4511 }, { 234,4511 },
- { 235,4511 }, { 236,4511 }, { 237,4511 }, { 238,4511 }, { 239,4511 },
- { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
- { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
- { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12704 }, {   1,4769 },
- {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
- {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
- {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
- {  17,4769 }, {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 },
-
- {  22,4769 }, {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 },
- {  27,4769 }, {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 },
- {  32,4769 }, {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 },
- {  37,4769 }, {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 },
- {  42,4769 }, {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 },
- {  47,4769 }, {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 },
- {  52,4769 }, {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 },
- {  57,4769 }, {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 },
- {  62,4769 }, {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 },
- {  67,4769 }, {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 },
-
- {  72,4769 }, {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 },
- {  77,4769 }, {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 },
- {  82,4769 }, {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 },
- {  87,4769 }, {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 },
- {  92,4769 }, {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 },
- {  97,4769 }, {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 },
- { 102,4769 }, { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 },
- { 107,4769 }, { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 },
- { 112,4769 }, { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 },
- { 117,4769 }, { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 },
-
- { 122,4769 }, {   0,   0 }, { 124,4769 }, { 125,4769 }, { 126,4769 },
- { 127,4769 }, { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 },
- { 132,4769 }, { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 },
- { 137,4769 }, { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 },
- { 142,4769 }, { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 },
- { 147,4769 }, { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 },
- { 152,4769 }, { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 },
- { 157,4769 }, { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 },
- { 162,4769 }, { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 },
- { 167,4769 }, { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 },
-
- { 172,4769 }, { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 },
- { 177,4769 }, { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 },
- { 182,4769 }, { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 },
- { 187,4769 }, { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 },
- { 192,4769 }, { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 },
- { 197,4769 }, { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 },
- { 202,4769 }, { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 },
- { 207,4769 }, { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 },
- { 212,4769 }, { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 },
- { 217,4769 }, { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 },
-
- { 222,4769 }, { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 },
- { 227,4769 }, { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 },
- { 232,4769 }, { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 },
- { 237,4769 }, { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 },
- { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
- { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
- { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,12447 }, {   0,   2 }, {   0,12445 }, {   0,   0 }, {   0,12443 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,21603 }, {   1,5111 }, {   2,5111 }, {   3,5111 },
+ {   4,5111 }, {   5,5111 }, {   6,5111 }, {   7,5111 }, {   8,5111 },
+ {   9,5111 }, {  10,5111 }, {  11,5111 }, {  12,5111 }, {  13,5111 },
+ {  14,5111 }, {  15,5111 }, {  16,5111 }, {  17,5111 }, {  18,5111 },
+ {  19,5111 }, {  20,5111 }, {  21,5111 }, {  22,5111 }, {  23,5111 },
+ {  24,5111 }, {  25,5111 }, {  26,5111 }, {  27,5111 }, {  28,5111 },
+ {  29,5111 }, {  30,5111 }, {  31,5111 }, {  32,5111 }, {  33,5111 },
+ {  34,5111 }, {  35,5111 }, {  36,5111 }, {  37,5111 }, {  38,5111 },
+ {  39,5111 }, {  40,5111 }, {  41,5111 }, {  42,5111 }, {  43,5111 },
+ {  44,5111 }, {  45,5369 }, {  46,5111 }, {  47,5111 }, {  48,5111 },
+
+ {  49,5111 }, {  50,5111 }, {  51,5111 }, {  52,5111 }, {  53,5111 },
+ {  54,5111 }, {  55,5111 }, {  56,5111 }, {  57,5111 }, {  58,5111 },
+ {  59,5111 }, {  60,5111 }, {  61,5111 }, {  62,5111 }, {  63,5111 },
+ {  64,5111 }, {  65,5111 }, {  66,5111 }, {  67,5111 }, {  68,5111 },
+ {  69,5111 }, {  70,5111 }, {  71,5111 }, {  72,5111 }, {  73,5111 },
+ {  74,5111 }, {  75,5111 }, {  76,5111 }, {  77,5111 }, {  78,5111 },
+ {  79,5111 }, {  80,5111 }, {  81,5111 }, {  82,5111 }, {  83,5111 },
+ {  84,5111 }, {  85,5111 }, {  86,5111 }, {  87,5111 }, {  88,5111 },
+ {  89,5111 }, {  90,5111 }, {  91,5111 }, {  92,5111 }, {  93,5111 },
+ {  94,5111 }, {  95,5111 }, {  96,5111 }, {  97,5111 }, {  98,5111 },
+
+ {  99,5111 }, { 100,5111 }, { 101,5111 }, { 102,5111 }, { 103,5111 },
+ { 104,5111 }, { 105,5111 }, { 106,5111 }, { 107,5111 }, { 108,5111 },
+ { 109,5111 }, { 110,5111 }, { 111,5111 }, { 112,5111 }, { 113,5111 },
+ { 114,5111 }, { 115,5111 }, { 116,5111 }, { 117,5111 }, { 118,5111 },
+ { 119,5111 }, { 120,5111 }, { 121,5111 }, { 122,5111 }, { 123,5111 },
+ { 124,5111 }, { 125,5111 }, { 126,5111 }, { 127,5111 }, { 128,5111 },
+ { 129,5111 }, { 130,5111 }, { 131,5111 }, { 132,5111 }, { 133,5111 },
+ { 134,5111 }, { 135,5111 }, { 136,5111 }, { 137,5111 }, { 138,5111 },
+ { 139,5111 }, { 140,5111 }, { 141,5111 }, { 142,5111 }, { 143,5111 },
+ { 144,5111 }, { 145,5111 }, { 146,5111 }, { 147,5111 }, { 148,5111 },
+
+ { 149,5111 }, { 150,5111 }, { 151,5111 }, { 152,5111 }, { 153,5111 },
+ { 154,5111 }, { 155,5111 }, { 156,5111 }, { 157,5111 }, { 158,5111 },
+ { 159,5111 }, { 160,5111 }, { 161,5111 }, { 162,5111 }, { 163,5111 },
+ { 164,5111 }, { 165,5111 }, { 166,5111 }, { 167,5111 }, { 168,5111 },
+ { 169,5111 }, { 170,5111 }, { 171,5111 }, { 172,5111 }, { 173,5111 },
+ { 174,5111 }, { 175,5111 }, { 176,5111 }, { 177,5111 }, { 178,5111 },
+ { 179,5111 }, { 180,5111 }, { 181,5111 }, { 182,5111 }, { 183,5111 },
+ { 184,5111 }, { 185,5111 }, { 186,5111 }, { 187,5111 }, { 188,5111 },
+ { 189,5111 }, { 190,5111 }, { 191,5111 }, { 192,5111 }, { 193,5111 },
+ { 194,5111 }, { 195,5111 }, { 196,5111 }, { 197,5111 }, { 198,5111 },
+
+ { 199,5111 }, { 200,5111 }, { 201,5111 }, { 202,5111 }, { 203,5111 },
+ { 204,5111 }, { 205,5111 }, { 206,5111 }, { 207,5111 }, { 208,5111 },
+ { 209,5111 }, { 210,5111 }, { 211,5111 }, { 212,5111 }, { 213,5111 },
+ { 214,5111 }, { 215,5111 }, { 216,5111 }, { 217,5111 }, { 218,5111 },
+ { 219,5111 }, { 220,5111 }, { 221,5111 }, { 222,5111 }, { 223,5111 },
+ { 224,5111 }, { 225,5111 }, { 226,5111 }, { 227,5111 }, { 228,5111 },
+ { 229,5111 }, { 230,5111 }, { 231,5111 }, { 232,5111 }, { 233,5111 },
+ { 234,5111 }, { 235,5111 }, { 236,5111 }, { 237,5111 }, { 238,5111 },
+ { 239,5111 }, { 240,5111 }, { 241,5111 }, { 242,5111 }, { 243,5111 },
+ { 244,5111 }, { 245,5111 }, { 246,5111 }, { 247,5111 }, { 248,5111 },
+
+ { 249,5111 }, { 250,5111 }, { 251,5111 }, { 252,5111 }, { 253,5111 },
+ { 254,5111 }, { 255,5111 }, { 256,5111 }, {   0,   0 }, {   0,21345 },
+ {   1,4853 }, {   2,4853 }, {   3,4853 }, {   4,4853 }, {   5,4853 },
+ {   6,4853 }, {   7,4853 }, {   8,4853 }, {   9,4853 }, {  10,4853 },
+ {  11,4853 }, {  12,4853 }, {  13,4853 }, {  14,4853 }, {  15,4853 },
+ {  16,4853 }, {  17,4853 }, {  18,4853 }, {  19,4853 }, {  20,4853 },
+ {  21,4853 }, {  22,4853 }, {  23,4853 }, {  24,4853 }, {  25,4853 },
+ {  26,4853 }, {  27,4853 }, {  28,4853 }, {  29,4853 }, {  30,4853 },
+ {  31,4853 }, {  32,4853 }, {  33,4853 }, {  34,4853 }, {  35,4853 },
+ {  36,4853 }, {  37,4853 }, {  38,4853 }, {  39,4853 }, {  40,4853 },
+
+ {  41,4853 }, {  42,4853 }, {  43,4853 }, {  44,4853 }, {  45,5111 },
+ {  46,4853 }, {  47,4853 }, {  48,4853 }, {  49,4853 }, {  50,4853 },
+ {  51,4853 }, {  52,4853 }, {  53,4853 }, {  54,4853 }, {  55,4853 },
+ {  56,4853 }, {  57,4853 }, {  58,4853 }, {  59,4853 }, {  60,4853 },
+ {  61,4853 }, {  62,4853 }, {  63,4853 }, {  64,4853 }, {  65,4853 },
+ {  66,4853 }, {  67,4853 }, {  68,4853 }, {  69,4853 }, {  70,4853 },
+ {  71,4853 }, {  72,4853 }, {  73,4853 }, {  74,4853 }, {  75,4853 },
+ {  76,4853 }, {  77,4853 }, {  78,4853 }, {  79,4853 }, {  80,4853 },
+ {  81,4853 }, {  82,4853 }, {  83,4853 }, {  84,4853 }, {  85,4853 },
+ {  86,4853 }, {  87,4853 }, {  88,4853 }, {  89,4853 }, {  90,4853 },
+
+ {  91,4853 }, {  92,4853 }, {  93,4853 }, {  94,4853 }, {  95,4853 },
+ {  96,4853 }, {  97,4853 }, {  98,4853 }, {  99,4853 }, { 100,4853 },
+ { 101,4853 }, { 102,4853 }, { 103,4853 }, { 104,4853 }, { 105,4853 },
+ { 106,4853 }, { 107,4853 }, { 108,4853 }, { 109,4853 }, { 110,4853 },
+ { 111,4853 }, { 112,4853 }, { 113,4853 }, { 114,4853 }, { 115,4853 },
+ { 116,4853 }, { 117,4853 }, { 118,4853 }, { 119,4853 }, { 120,4853 },
+ { 121,4853 }, { 122,4853 }, { 123,4853 }, { 124,4853 }, { 125,4853 },
+ { 126,4853 }, { 127,4853 }, { 128,4853 }, { 129,4853 }, { 130,4853 },
+ { 131,4853 }, { 132,4853 }, { 133,4853 }, { 134,4853 }, { 135,4853 },
+ { 136,4853 }, { 137,4853 }, { 138,4853 }, { 139,4853 }, { 140,4853 },
+
+ { 141,4853 }, { 142,4853 }, { 143,4853 }, { 144,4853 }, { 145,4853 },
+ { 146,4853 }, { 147,4853 }, { 148,4853 }, { 149,4853 }, { 150,4853 },
+ { 151,4853 }, { 152,4853 }, { 153,4853 }, { 154,4853 }, { 155,4853 },
+ { 156,4853 }, { 157,4853 }, { 158,4853 }, { 159,4853 }, { 160,4853 },
+ { 161,4853 }, { 162,4853 }, { 163,4853 }, { 164,4853 }, { 165,4853 },
+ { 166,4853 }, { 167,4853 }, { 168,4853 }, { 169,4853 }, { 170,4853 },
+ { 171,4853 }, { 172,4853 }, { 173,4853 }, { 174,4853 }, { 175,4853 },
+ { 176,4853 }, { 177,4853 }, { 178,4853 }, { 179,4853 }, { 180,4853 },
+ { 181,4853 }, { 182,4853 }, { 183,4853 }, { 184,4853 }, { 185,4853 },
+ { 186,4853 }, { 187,4853 }, { 188,4853 }, { 189,4853 }, { 190,4853 },
+
+ { 191,4853 }, { 192,4853 }, { 193,4853 }, { 194,4853 }, { 195,4853 },
+ { 196,4853 }, { 197,4853 }, { 198,4853 }, { 199,4853 }, { 200,4853 },
+ { 201,4853 }, { 202,4853 }, { 203,4853 }, { 204,4853 }, { 205,4853 },
+ { 206,4853 }, { 207,4853 }, { 208,4853 }, { 209,4853 }, { 210,4853 },
+ { 211,4853 }, { 212,4853 }, { 213,4853 }, { 214,4853 }, { 215,4853 },
+ { 216,4853 }, { 217,4853 }, { 218,4853 }, { 219,4853 }, { 220,4853 },
+ { 221,4853 }, { 222,4853 }, { 223,4853 }, { 224,4853 }, { 225,4853 },
+ { 226,4853 }, { 227,4853 }, { 228,4853 }, { 229,4853 }, { 230,4853 },
+ { 231,4853 }, { 232,4853 }, { 233,4853 }, { 234,4853 }, { 235,4853 },
+ { 236,4853 }, { 237,4853 }, { 238,4853 }, { 239,4853 }, { 240,4853 },
+
+ { 241,4853 }, { 242,4853 }, { 243,4853 }, { 244,4853 }, { 245,4853 },
+ { 246,4853 }, { 247,4853 }, { 248,4853 }, { 249,4853 }, { 250,4853 },
+ { 251,4853 }, { 252,4853 }, { 253,4853 }, { 254,4853 }, { 255,4853 },
+ { 256,4853 }, {   0,   0 }, {   0,21087 }, {   1,5111 }, {   2,5111 },
+ {   3,5111 }, {   4,5111 }, {   5,5111 }, {   6,5111 }, {   7,5111 },
+ {   8,5111 }, {   9,5111 }, {  10,5111 }, {  11,5111 }, {  12,5111 },
+ {  13,5111 }, {  14,5111 }, {  15,5111 }, {  16,5111 }, {  17,5111 },
+ {  18,5111 }, {  19,5111 }, {  20,5111 }, {  21,5111 }, {  22,5111 },
+ {  23,5111 }, {  24,5111 }, {  25,5111 }, {  26,5111 }, {  27,5111 },
+ {  28,5111 }, {  29,5111 }, {  30,5111 }, {  31,5111 }, {  32,5111 },
+
+ {  33,5111 }, {  34,5111 }, {  35,5111 }, {  36,5111 }, {  37,5111 },
+ {  38,5111 }, {  39,5111 }, {  40,5111 }, {  41,5111 }, {  42,5111 },
+ {  43,5111 }, {  44,5111 }, {  45,5111 }, {  46,5111 }, {  47,5111 },
+ {  48,5111 }, {  49,5111 }, {  50,5111 }, {  51,5111 }, {  52,5111 },
+ {  53,5111 }, {  54,5111 }, {  55,5111 }, {  56,5111 }, {  57,5111 },
+ {  58,5111 }, {  59,5111 }, {  60,5111 }, {  61,5111 }, {  62,5111 },
+ {  63,5111 }, {  64,5111 }, {  65,5111 }, {  66,5111 }, {  67,5111 },
+ {  68,5111 }, {  69,5111 }, {  70,5111 }, {  71,5111 }, {  72,5111 },
+ {  73,5111 }, {  74,5111 }, {  75,5111 }, {  76,5111 }, {  77,5111 },
+ {  78,5111 }, {  79,5111 }, {  80,5111 }, {  81,5111 }, {  82,5111 },
+
+ {  83,5111 }, {  84,5111 }, {  85,5111 }, {  86,5111 }, {  87,5111 },
+ {  88,5111 }, {  89,5111 }, {  90,5111 }, {  91,5111 }, {  92,5111 },
+ {  93,5111 }, {  94,5111 }, {  95,5111 }, {  96,5111 }, {  97,5111 },
+ {  98,5111 }, {  99,5111 }, { 100,5111 }, { 101,5111 }, { 102,5111 },
+ { 103,5111 }, { 104,5111 }, { 105,5111 }, { 106,5111 }, { 107,5111 },
+ { 108,5111 }, { 109,5111 }, { 110,5111 }, { 111,5111 }, { 112,5111 },
+ { 113,5111 }, { 114,5111 }, { 115,5111 }, { 116,5111 }, { 117,5111 },
+ { 118,5111 }, { 119,5111 }, { 120,5111 }, { 121,5111 }, { 122,5111 },
+ { 123,5111 }, { 124,5111 }, { 125,5369 }, { 126,5111 }, { 127,5111 },
+ { 128,5111 }, { 129,5111 }, { 130,5111 }, { 131,5111 }, { 132,5111 },
+
+ { 133,5111 }, { 134,5111 }, { 135,5111 }, { 136,5111 }, { 137,5111 },
+ { 138,5111 }, { 139,5111 }, { 140,5111 }, { 141,5111 }, { 142,5111 },
+ { 143,5111 }, { 144,5111 }, { 145,5111 }, { 146,5111 }, { 147,5111 },
+ { 148,5111 }, { 149,5111 }, { 150,5111 }, { 151,5111 }, { 152,5111 },
+ { 153,5111 }, { 154,5111 }, { 155,5111 }, { 156,5111 }, { 157,5111 },
+ { 158,5111 }, { 159,5111 }, { 160,5111 }, { 161,5111 }, { 162,5111 },
+ { 163,5111 }, { 164,5111 }, { 165,5111 }, { 166,5111 }, { 167,5111 },
+ { 168,5111 }, { 169,5111 }, { 170,5111 }, { 171,5111 }, { 172,5111 },
+ { 173,5111 }, { 174,5111 }, { 175,5111 }, { 176,5111 }, { 177,5111 },
+ { 178,5111 }, { 179,5111 }, { 180,5111 }, { 181,5111 }, { 182,5111 },
+
+ { 183,5111 }, { 184,5111 }, { 185,5111 }, { 186,5111 }, { 187,5111 },
+ { 188,5111 }, { 189,5111 }, { 190,5111 }, { 191,5111 }, { 192,5111 },
+ { 193,5111 }, { 194,5111 }, { 195,5111 }, { 196,5111 }, { 197,5111 },
+ { 198,5111 }, { 199,5111 }, { 200,5111 }, { 201,5111 }, { 202,5111 },
+ { 203,5111 }, { 204,5111 }, { 205,5111 }, { 206,5111 }, { 207,5111 },
+ { 208,5111 }, { 209,5111 }, { 210,5111 }, { 211,5111 }, { 212,5111 },
+ { 213,5111 }, { 214,5111 }, { 215,5111 }, { 216,5111 }, { 217,5111 },
+ { 218,5111 }, { 219,5111 }, { 220,5111 }, { 221,5111 }, { 222,5111 },
+ { 223,5111 }, { 224,5111 }, { 225,5111 }, { 226,5111 }, { 227,5111 },
+ { 228,5111 }, { 229,5111 }, { 230,5111 }, { 231,5111 }, { 232,5111 },
+
+ { 233,5111 }, { 234,5111 }, { 235,5111 }, { 236,5111 }, { 237,5111 },
+ { 238,5111 }, { 239,5111 }, { 240,5111 }, { 241,5111 }, { 242,5111 },
+ { 243,5111 }, { 244,5111 }, { 245,5111 }, { 246,5111 }, { 247,5111 },
+ { 248,5111 }, { 249,5111 }, { 250,5111 }, { 251,5111 }, { 252,5111 },
+ { 253,5111 }, { 254,5111 }, { 255,5111 }, { 256,5111 }, {   0,   0 },
+ {   0,20829 }, {   1,4853 }, {   2,4853 }, {   3,4853 }, {   4,4853 },
+ {   5,4853 }, {   6,4853 }, {   7,4853 }, {   8,4853 }, {   9,4853 },
+ {  10,4853 }, {  11,4853 }, {  12,4853 }, {  13,4853 }, {  14,4853 },
+ {  15,4853 }, {  16,4853 }, {  17,4853 }, {  18,4853 }, {  19,4853 },
+ {  20,4853 }, {  21,4853 }, {  22,4853 }, {  23,4853 }, {  24,4853 },
+
+ {  25,4853 }, {  26,4853 }, {  27,4853 }, {  28,4853 }, {  29,4853 },
+ {  30,4853 }, {  31,4853 }, {  32,4853 }, {  33,4853 }, {  34,4853 },
+ {  35,4853 }, {  36,4853 }, {  37,4853 }, {  38,4853 }, {  39,4853 },
+ {  40,4853 }, {  41,4853 }, {  42,4853 }, {  43,4853 }, {  44,4853 },
+ {  45,4853 }, {  46,4853 }, {  47,4853 }, {  48,4853 }, {  49,4853 },
+ {  50,4853 }, {  51,4853 }, {  52,4853 }, {  53,4853 }, {  54,4853 },
+ {  55,4853 }, {  56,4853 }, {  57,4853 }, {  58,4853 }, {  59,4853 },
+ {  60,4853 }, {  61,4853 }, {  62,4853 }, {  63,4853 }, {  64,4853 },
+ {  65,4853 }, {  66,4853 }, {  67,4853 }, {  68,4853 }, {  69,4853 },
+ {  70,4853 }, {  71,4853 }, {  72,4853 }, {  73,4853 }, {  74,4853 },
+
+ {  75,4853 }, {  76,4853 }, {  77,4853 }, {  78,4853 }, {  79,4853 },
+ {  80,4853 }, {  81,4853 }, {  82,4853 }, {  83,4853 }, {  84,4853 },
+ {  85,4853 }, {  86,4853 }, {  87,4853 }, {  88,4853 }, {  89,4853 },
+ {  90,4853 }, {  91,4853 }, {  92,4853 }, {  93,4853 }, {  94,4853 },
+ {  95,4853 }, {  96,4853 }, {  97,4853 }, {  98,4853 }, {  99,4853 },
+ { 100,4853 }, { 101,4853 }, { 102,4853 }, { 103,4853 }, { 104,4853 },
+ { 105,4853 }, { 106,4853 }, { 107,4853 }, { 108,4853 }, { 109,4853 },
+ { 110,4853 }, { 111,4853 }, { 112,4853 }, { 113,4853 }, { 114,4853 },
+ { 115,4853 }, { 116,4853 }, { 117,4853 }, { 118,4853 }, { 119,4853 },
+ { 120,4853 }, { 121,4853 }, { 122,4853 }, { 123,4853 }, { 124,4853 },
+
+ { 125,5111 }, { 126,4853 }, { 127,4853 }, { 128,4853 }, { 129,4853 },
+ { 130,4853 }, { 131,4853 }, { 132,4853 }, { 133,4853 }, { 134,4853 },
+ { 135,4853 }, { 136,4853 }, { 137,4853 }, { 138,4853 }, { 139,4853 },
+ { 140,4853 }, { 141,4853 }, { 142,4853 }, { 143,4853 }, { 144,4853 },
+ { 145,4853 }, { 146,4853 }, { 147,4853 }, { 148,4853 }, { 149,4853 },
+ { 150,4853 }, { 151,4853 }, { 152,4853 }, { 153,4853 }, { 154,4853 },
+ { 155,4853 }, { 156,4853 }, { 157,4853 }, { 158,4853 }, { 159,4853 },
+ { 160,4853 }, { 161,4853 }, { 162,4853 }, { 163,4853 }, { 164,4853 },
+ { 165,4853 }, { 166,4853 }, { 167,4853 }, { 168,4853 }, { 169,4853 },
+ { 170,4853 }, { 171,4853 }, { 172,4853 }, { 173,4853 }, { 174,4853 },
+
+ { 175,4853 }, { 176,4853 }, { 177,4853 }, { 178,4853 }, { 179,4853 },
+ { 180,4853 }, { 181,4853 }, { 182,4853 }, { 183,4853 }, { 184,4853 },
+ { 185,4853 }, { 186,4853 }, { 187,4853 }, { 188,4853 }, { 189,4853 },
+ { 190,4853 }, { 191,4853 }, { 192,4853 }, { 193,4853 }, { 194,4853 },
+ { 195,4853 }, { 196,4853 }, { 197,4853 }, { 198,4853 }, { 199,4853 },
+ { 200,4853 }, { 201,4853 }, { 202,4853 }, { 203,4853 }, { 204,4853 },
+ { 205,4853 }, { 206,4853 }, { 207,4853 }, { 208,4853 }, { 209,4853 },
+ { 210,4853 }, { 211,4853 }, { 212,4853 }, { 213,4853 }, { 214,4853 },
+ { 215,4853 }, { 216,4853 }, { 217,4853 }, { 218,4853 }, { 219,4853 },
+ { 220,4853 }, { 221,4853 }, { 222,4853 }, { 223,4853 }, { 224,4853 },
+
+ { 225,4853 }, { 226,4853 }, { 227,4853 }, { 228,4853 }, { 229,4853 },
+ { 230,4853 }, { 231,4853 }, { 232,4853 }, { 233,4853 }, { 234,4853 },
+ { 235,4853 }, { 236,4853 }, { 237,4853 }, { 238,4853 }, { 239,4853 },
+ { 240,4853 }, { 241,4853 }, { 242,4853 }, { 243,4853 }, { 244,4853 },
+ { 245,4853 }, { 246,4853 }, { 247,4853 }, { 248,4853 }, { 249,4853 },
+ { 250,4853 }, { 251,4853 }, { 252,4853 }, { 253,4853 }, { 254,4853 },
+ { 255,4853 }, { 256,4853 }, {   0,   0 }, {   0,20571 }, {   1,5111 },
+ {   2,5111 }, {   3,5111 }, {   4,5111 }, {   5,5111 }, {   6,5111 },
+ {   7,5111 }, {   8,5111 }, {   9,5111 }, {  10,5111 }, {  11,5111 },
+ {  12,5111 }, {  13,5111 }, {  14,5111 }, {  15,5111 }, {  16,5111 },
+
+ {  17,5111 }, {  18,5111 }, {  19,5111 }, {  20,5111 }, {  21,5111 },
+ {  22,5111 }, {  23,5111 }, {  24,5111 }, {  25,5111 }, {  26,5111 },
+ {  27,5111 }, {  28,5111 }, {  29,5111 }, {  30,5111 }, {  31,5111 },
+ {  32,5111 }, {  33,5111 }, {  34,5111 }, {  35,5111 }, {  36,5111 },
+ {  37,5111 }, {  38,5111 }, {  39,5111 }, {  40,5111 }, {  41,5111 },
+ {  42,5111 }, {  43,5111 }, {  44,5111 }, {  45,5111 }, {  46,5111 },
+ {  47,5111 }, {  48,5111 }, {  49,5111 }, {  50,5111 }, {  51,5111 },
+ {  52,5111 }, {  53,5111 }, {  54,5111 }, {  55,5111 }, {  56,5111 },
+ {  57,5111 }, {  58,5111 }, {  59,5111 }, {  60,5111 }, {  61,5111 },
+ {  62,5111 }, {  63,5111 }, {  64,5111 }, {  65,5111 }, {  66,5111 },
+
+ {  67,5111 }, {  68,5111 }, {  69,5111 }, {  70,5111 }, {  71,5111 },
+ {  72,5111 }, {  73,5111 }, {  74,5111 }, {  75,5111 }, {  76,5111 },
+ {  77,5111 }, {  78,5111 }, {  79,5111 }, {  80,5111 }, {  81,5111 },
+ {  82,5111 }, {  83,5111 }, {  84,5111 }, {  85,5111 }, {  86,5111 },
+ {  87,5111 }, {  88,5111 }, {  89,5111 }, {  90,5111 }, {  91,5111 },
+ {  92,5111 }, {  93,5111 }, {  94,5111 }, {  95,5111 }, {  96,5111 },
+ {  97,5111 }, {  98,5111 }, {  99,5111 }, { 100,5111 }, { 101,5111 },
+ { 102,5111 }, { 103,5111 }, { 104,5111 }, { 105,5111 }, { 106,5111 },
+ { 107,5111 }, { 108,5111 }, { 109,5111 }, { 110,5111 }, { 111,5111 },
+ { 112,5111 }, { 113,5111 }, { 114,5111 }, { 115,5111 }, { 116,5111 },
+
+ { 117,5111 }, { 118,5111 }, { 119,5111 }, { 120,5111 }, { 121,5111 },
+ { 122,5111 }, { 123,2246 }, { 124,5111 }, { 125,5111 }, { 126,5111 },
+ { 127,5111 }, { 128,5111 }, { 129,5111 }, { 130,5111 }, { 131,5111 },
+ { 132,5111 }, { 133,5111 }, { 134,5111 }, { 135,5111 }, { 136,5111 },
+ { 137,5111 }, { 138,5111 }, { 139,5111 }, { 140,5111 }, { 141,5111 },
+ { 142,5111 }, { 143,5111 }, { 144,5111 }, { 145,5111 }, { 146,5111 },
+ { 147,5111 }, { 148,5111 }, { 149,5111 }, { 150,5111 }, { 151,5111 },
+ { 152,5111 }, { 153,5111 }, { 154,5111 }, { 155,5111 }, { 156,5111 },
+ { 157,5111 }, { 158,5111 }, { 159,5111 }, { 160,5111 }, { 161,5111 },
+ { 162,5111 }, { 163,5111 }, { 164,5111 }, { 165,5111 }, { 166,5111 },
+
+ { 167,5111 }, { 168,5111 }, { 169,5111 }, { 170,5111 }, { 171,5111 },
+ { 172,5111 }, { 173,5111 }, { 174,5111 }, { 175,5111 }, { 176,5111 },
+ { 177,5111 }, { 178,5111 }, { 179,5111 }, { 180,5111 }, { 181,5111 },
+ { 182,5111 }, { 183,5111 }, { 184,5111 }, { 185,5111 }, { 186,5111 },
+ { 187,5111 }, { 188,5111 }, { 189,5111 }, { 190,5111 }, { 191,5111 },
+ { 192,5111 }, { 193,5111 }, { 194,5111 }, { 195,5111 }, { 196,5111 },
+ { 197,5111 }, { 198,5111 }, { 199,5111 }, { 200,5111 }, { 201,5111 },
+ { 202,5111 }, { 203,5111 }, { 204,5111 }, { 205,5111 }, { 206,5111 },
+ { 207,5111 }, { 208,5111 }, { 209,5111 }, { 210,5111 }, { 211,5111 },
+ { 212,5111 }, { 213,5111 }, { 214,5111 }, { 215,5111 }, { 216,5111 },
+
+ { 217,5111 }, { 218,5111 }, { 219,5111 }, { 220,5111 }, { 221,5111 },
+ { 222,5111 }, { 223,5111 }, { 224,5111 }, { 225,5111 }, { 226,5111 },
+ { 227,5111 }, { 228,5111 }, { 229,5111 }, { 230,5111 }, { 231,5111 },
+ { 232,5111 }, { 233,5111 }, { 234,5111 }, { 235,5111 }, { 236,5111 },
+ { 237,5111 }, { 238,5111 }, { 239,5111 }, { 240,5111 }, { 241,5111 },
+ { 242,5111 }, { 243,5111 }, { 244,5111 }, { 245,5111 }, { 246,5111 },
+ { 247,5111 }, { 248,5111 }, { 249,5111 }, { 250,5111 }, { 251,5111 },
+ { 252,5111 }, { 253,5111 }, { 254,5111 }, { 255,5111 }, { 256, 779 },
+ {   0,   0 }, {   0,20313 }, {   1,4853 }, {   2,4853 }, {   3,4853 },
+ {   4,4853 }, {   5,4853 }, {   6,4853 }, {   7,4853 }, {   8,4853 },
+
+ {   9,4853 }, {  10,4853 }, {  11,4853 }, {  12,4853 }, {  13,4853 },
+ {  14,4853 }, {  15,4853 }, {  16,4853 }, {  17,4853 }, {  18,4853 },
+ {  19,4853 }, {  20,4853 }, {  21,4853 }, {  22,4853 }, {  23,4853 },
+ {  24,4853 }, {  25,4853 }, {  26,4853 }, {  27,4853 }, {  28,4853 },
+ {  29,4853 }, {  30,4853 }, {  31,4853 }, {  32,4853 }, {  33,4853 },
+ {  34,4853 }, {  35,4853 }, {  36,4853 }, {  37,4853 }, {  38,4853 },
+ {  39,4853 }, {  40,4853 }, {  41,4853 }, {  42,4853 }, {  43,4853 },
+ {  44,4853 }, {  45,4853 }, {  46,4853 }, {  47,4853 }, {  48,4853 },
+ {  49,4853 }, {  50,4853 }, {  51,4853 }, {  52,4853 }, {  53,4853 },
+ {  54,4853 }, {  55,4853 }, {  56,4853 }, {  57,4853 }, {  58,4853 },
+
+ {  59,4853 }, {  60,4853 }, {  61,4853 }, {  62,4853 }, {  63,4853 },
+ {  64,4853 }, {  65,4853 }, {  66,4853 }, {  67,4853 }, {  68,4853 },
+ {  69,4853 }, {  70,4853 }, {  71,4853 }, {  72,4853 }, {  73,4853 },
+ {  74,4853 }, {  75,4853 }, {  76,4853 }, {  77,4853 }, {  78,4853 },
+ {  79,4853 }, {  80,4853 }, {  81,4853 }, {  82,4853 }, {  83,4853 },
+ {  84,4853 }, {  85,4853 }, {  86,4853 }, {  87,4853 }, {  88,4853 },
+ {  89,4853 }, {  90,4853 }, {  91,4853 }, {  92,4853 }, {  93,4853 },
+ {  94,4853 }, {  95,4853 }, {  96,4853 }, {  97,4853 }, {  98,4853 },
+ {  99,4853 }, { 100,4853 }, { 101,4853 }, { 102,4853 }, { 103,4853 },
+ { 104,4853 }, { 105,4853 }, { 106,4853 }, { 107,4853 }, { 108,4853 },
+
+ { 109,4853 }, { 110,4853 }, { 111,4853 }, { 112,4853 }, { 113,4853 },
+ { 114,4853 }, { 115,4853 }, { 116,4853 }, { 117,4853 }, { 118,4853 },
+ { 119,4853 }, { 120,4853 }, { 121,4853 }, { 122,4853 }, { 123,1988 },
+ { 124,4853 }, { 125,4853 }, { 126,4853 }, { 127,4853 }, { 128,4853 },
+ { 129,4853 }, { 130,4853 }, { 131,4853 }, { 132,4853 }, { 133,4853 },
+ { 134,4853 }, { 135,4853 }, { 136,4853 }, { 137,4853 }, { 138,4853 },
+ { 139,4853 }, { 140,4853 }, { 141,4853 }, { 142,4853 }, { 143,4853 },
+ { 144,4853 }, { 145,4853 }, { 146,4853 }, { 147,4853 }, { 148,4853 },
+ { 149,4853 }, { 150,4853 }, { 151,4853 }, { 152,4853 }, { 153,4853 },
+ { 154,4853 }, { 155,4853 }, { 156,4853 }, { 157,4853 }, { 158,4853 },
+
+ { 159,4853 }, { 160,4853 }, { 161,4853 }, { 162,4853 }, { 163,4853 },
+ { 164,4853 }, { 165,4853 }, { 166,4853 }, { 167,4853 }, { 168,4853 },
+ { 169,4853 }, { 170,4853 }, { 171,4853 }, { 172,4853 }, { 173,4853 },
+ { 174,4853 }, { 175,4853 }, { 176,4853 }, { 177,4853 }, { 178,4853 },
+ { 179,4853 }, { 180,4853 }, { 181,4853 }, { 182,4853 }, { 183,4853 },
+ { 184,4853 }, { 185,4853 }, { 186,4853 }, { 187,4853 }, { 188,4853 },
+ { 189,4853 }, { 190,4853 }, { 191,4853 }, { 192,4853 }, { 193,4853 },
+ { 194,4853 }, { 195,4853 }, { 196,4853 }, { 197,4853 }, { 198,4853 },
+ { 199,4853 }, { 200,4853 }, { 201,4853 }, { 202,4853 }, { 203,4853 },
+ { 204,4853 }, { 205,4853 }, { 206,4853 }, { 207,4853 }, { 208,4853 },
+
+ { 209,4853 }, { 210,4853 }, { 211,4853 }, { 212,4853 }, { 213,4853 },
+ { 214,4853 }, { 215,4853 }, { 216,4853 }, { 217,4853 }, { 218,4853 },
+ { 219,4853 }, { 220,4853 }, { 221,4853 }, { 222,4853 }, { 223,4853 },
+ { 224,4853 }, { 225,4853 }, { 226,4853 }, { 227,4853 }, { 228,4853 },
+ { 229,4853 }, { 230,4853 }, { 231,4853 }, { 232,4853 }, { 233,4853 },
+ { 234,4853 }, { 235,4853 }, { 236,4853 }, { 237,4853 }, { 238,4853 },
+ { 239,4853 }, { 240,4853 }, { 241,4853 }, { 242,4853 }, { 243,4853 },
+ { 244,4853 }, { 245,4853 }, { 246,4853 }, { 247,4853 }, { 248,4853 },
+ { 249,4853 }, { 250,4853 }, { 251,4853 }, { 252,4853 }, { 253,4853 },
+ { 254,4853 }, { 255,4853 }, { 256, 521 }, {   0,   2 }, {   0,20055 },
+
+ {   1,4852 }, {   2,4852 }, {   3,4852 }, {   4,4852 }, {   5,4852 },
+ {   6,4852 }, {   7,4852 }, {   8,4852 }, {   9,4852 }, {  10,5109 },
+ {  11,4852 }, {  12,4852 }, {  13,5109 }, {  14,4852 }, {  15,4852 },
+ {  16,4852 }, {  17,4852 }, {  18,4852 }, {  19,4852 }, {  20,4852 },
+ {  21,4852 }, {  22,4852 }, {  23,4852 }, {  24,4852 }, {  25,4852 },
+ {  26,4852 }, {  27,4852 }, {  28,4852 }, {  29,4852 }, {  30,4852 },
+ {  31,4852 }, {  32,4852 }, {  33,4852 }, {  34,4852 }, {  35,4852 },
+ {  36,4852 }, {  37,4852 }, {  38,4852 }, {  39,4852 }, {  40,4852 },
+ {  41,4852 }, {  42,4852 }, {  43,4852 }, {  44,4852 }, {  45,4852 },
+ {  46,4852 }, {  47,4852 }, {  48,4852 }, {  49,4852 }, {  50,4852 },
+
+ {  51,4852 }, {  52,4852 }, {  53,4852 }, {  54,4852 }, {  55,4852 },
+ {  56,4852 }, {  57,4852 }, {  58,4852 }, {  59,4852 }, {  60,4852 },
+ {  61,4852 }, {  62,4852 }, {  63,4852 }, {  64,4852 }, {  65,4852 },
+ {  66,4852 }, {  67,4852 }, {  68,4852 }, {  69,4852 }, {  70,4852 },
+ {  71,4852 }, {  72,4852 }, {  73,4852 }, {  74,4852 }, {  75,4852 },
+ {  76,4852 }, {  77,4852 }, {  78,4852 }, {  79,4852 }, {  80,4852 },
+ {  81,4852 }, {  82,4852 }, {  83,4852 }, {  84,4852 }, {  85,4852 },
+ {  86,4852 }, {  87,4852 }, {  88,4852 }, {  89,4852 }, {  90,4852 },
+ {  91,4852 }, {  92,5111 }, {  93,4852 }, {  94,4852 }, {  95,4852 },
+ {  96,4852 }, {  97,4852 }, {  98,4852 }, {  99,4852 }, { 100,4852 },
+
+ { 101,4852 }, { 102,4852 }, { 103,4852 }, { 104,4852 }, { 105,4852 },
+ { 106,4852 }, { 107,4852 }, { 108,4852 }, { 109,4852 }, { 110,4852 },
+ { 111,4852 }, { 112,4852 }, { 113,4852 }, { 114,4852 }, { 115,4852 },
+ { 116,4852 }, { 117,4852 }, { 118,4852 }, { 119,4852 }, { 120,4852 },
+ { 121,4852 }, { 122,4852 }, {   0,   0 }, { 124,4852 }, { 125,4852 },
+ { 126,4852 }, { 127,4852 }, { 128,4852 }, { 129,4852 }, { 130,4852 },
+ { 131,4852 }, { 132,4852 }, { 133,4852 }, { 134,4852 }, { 135,4852 },
+ { 136,4852 }, { 137,4852 }, { 138,4852 }, { 139,4852 }, { 140,4852 },
+ { 141,4852 }, { 142,4852 }, { 143,4852 }, { 144,4852 }, { 145,4852 },
+ { 146,4852 }, { 147,4852 }, { 148,4852 }, { 149,4852 }, { 150,4852 },
+
+ { 151,4852 }, { 152,4852 }, { 153,4852 }, { 154,4852 }, { 155,4852 },
+ { 156,4852 }, { 157,4852 }, { 158,4852 }, { 159,4852 }, { 160,4852 },
+ { 161,4852 }, { 162,4852 }, { 163,4852 }, { 164,4852 }, { 165,4852 },
+ { 166,4852 }, { 167,4852 }, { 168,4852 }, { 169,4852 }, { 170,4852 },
+ { 171,4852 }, { 172,4852 }, { 173,4852 }, { 174,4852 }, { 175,4852 },
+ { 176,4852 }, { 177,4852 }, { 178,4852 }, { 179,4852 }, { 180,4852 },
+ { 181,4852 }, { 182,4852 }, { 183,4852 }, { 184,4852 }, { 185,4852 },
+ { 186,4852 }, { 187,4852 }, { 188,4852 }, { 189,4852 }, { 190,4852 },
+ { 191,4852 }, { 192,4852 }, { 193,4852 }, { 194,4852 }, { 195,4852 },
+ { 196,4852 }, { 197,4852 }, { 198,4852 }, { 199,4852 }, { 200,4852 },
+
+ { 201,4852 }, { 202,4852 }, { 203,4852 }, { 204,4852 }, { 205,4852 },
+ { 206,4852 }, { 207,4852 }, { 208,4852 }, { 209,4852 }, { 210,4852 },
+ { 211,4852 }, { 212,4852 }, { 213,4852 }, { 214,4852 }, { 215,4852 },
+ { 216,4852 }, { 217,4852 }, { 218,4852 }, { 219,4852 }, { 220,4852 },
+ { 221,4852 }, { 222,4852 }, { 223,4852 }, { 224,4852 }, { 225,4852 },
+ { 226,4852 }, { 227,4852 }, { 228,4852 }, { 229,4852 }, { 230,4852 },
+ { 231,4852 }, { 232,4852 }, { 233,4852 }, { 234,4852 }, { 235,4852 },
+ { 236,4852 }, { 237,4852 }, { 238,4852 }, { 239,4852 }, { 240,4852 },
+ { 241,4852 }, { 242,4852 }, { 243,4852 }, { 244,4852 }, { 245,4852 },
+ { 246,4852 }, { 247,4852 }, { 248,4852 }, { 249,4852 }, { 250,4852 },
+
+ { 251,4852 }, { 252,4852 }, { 253,4852 }, { 254,4852 }, { 255,4852 },
+ {   0,   2 }, {   0,19798 }, {   0,   6 }, {   0,19796 }, {   0,   6 },
+ {   0,19794 }, {   0,  51 }, {   0,19792 }, {   0,  35 }, {   0,19790 },
+ {   0,   0 }, {  10,4852 }, {   0,   0 }, {   0,   0 }, {  13,4852 },
+ {   0,  35 }, {   0,19783 }, {   0,   0 }, {   9,4859 }, {  10,4859 },
+ {   0,  50 }, {   0,19778 }, {  13,4859 }, {   0,  14 }, {   0,19775 },
+ {   9,4852 }, {  10,4852 }, {   0,  15 }, {   0,19771 }, {  13,4852 },
+ {   0,  34 }, {   0,19768 }, {   0,  31 }, {   0,19766 }, {   0,  40 },
+ {   0,19764 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,4859 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4852 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4854 }, {   0,   0 },
+
+ {  92,4854 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 123,4856 }, {   0,   0 }, { 123,4856 }, {   0,   2 },
+ {   0,19669 }, {   1,4466 }, {   2,4466 }, {   3,4466 }, {   4,4466 },
+ {   5,4466 }, {   6,4466 }, {   7,4466 }, {   8,4466 }, {   9,4466 },
+ {  10,4723 }, {  11,4466 }, {  12,4466 }, {  13,4723 }, {  14,4466 },
+
+ {  15,4466 }, {  16,4466 }, {  17,4466 }, {  18,4466 }, {  19,4466 },
+ {  20,4466 }, {  21,4466 }, {  22,4466 }, {  23,4466 }, {  24,4466 },
+ {  25,4466 }, {  26,4466 }, {  27,4466 }, {  28,4466 }, {  29,4466 },
+ {  30,4466 }, {  31,4466 }, {  32,4466 }, {  33,4466 }, {  34,4466 },
+ {  35,4466 }, {  36,4466 }, {  37,4466 }, {  38,4466 }, {  39,4466 },
+ {  40,4466 }, {  41,4466 }, {  42,4466 }, {  43,4466 }, {  44,4466 },
+ {  45,4466 }, {  46,4466 }, {  47,4466 }, {  48,4466 }, {  49,4466 },
+ {  50,4466 }, {  51,4466 }, {  52,4466 }, {  53,4466 }, {  54,4466 },
+ {  55,4466 }, {  56,4466 }, {  57,4466 }, {  58,4466 }, {  59,4466 },
+ {  60,4466 }, {  61,4466 }, {  62,4466 }, {  63,4466 }, {  64,4466 },
+
+ {  65,4466 }, {  66,4466 }, {  67,4466 }, {  68,4466 }, {  69,4466 },
+ {  70,4466 }, {  71,4466 }, {  72,4466 }, {  73,4466 }, {  74,4466 },
+ {  75,4466 }, {  76,4466 }, {  77,4466 }, {  78,4466 }, {  79,4466 },
+ {  80,4466 }, {  81,4466 }, {  82,4466 }, {  83,4466 }, {  84,4466 },
+ {  85,4466 }, {  86,4466 }, {  87,4466 }, {  88,4466 }, {  89,4466 },
+ {  90,4466 }, {  91,4466 }, {  92,4725 }, {  93,4466 }, {  94,4466 },
+ {  95,4466 }, {  96,4466 }, {  97,4466 }, {  98,4466 }, {  99,4466 },
+ { 100,4466 }, { 101,4466 }, { 102,4466 }, { 103,4466 }, { 104,4466 },
+ { 105,4466 }, { 106,4466 }, { 107,4466 }, { 108,4466 }, { 109,4466 },
+ { 110,4466 }, { 111,4466 }, { 112,4466 }, { 113,4466 }, { 114,4466 },
+
+ { 115,4466 }, { 116,4466 }, { 117,4466 }, { 118,4466 }, { 119,4466 },
+ { 120,4466 }, { 121,4466 }, { 122,4466 }, {   0,   0 }, { 124,4466 },
+ { 125,4466 }, { 126,4466 }, { 127,4466 }, { 128,4466 }, { 129,4466 },
+ { 130,4466 }, { 131,4466 }, { 132,4466 }, { 133,4466 }, { 134,4466 },
+ { 135,4466 }, { 136,4466 }, { 137,4466 }, { 138,4466 }, { 139,4466 },
+ { 140,4466 }, { 141,4466 }, { 142,4466 }, { 143,4466 }, { 144,4466 },
+ { 145,4466 }, { 146,4466 }, { 147,4466 }, { 148,4466 }, { 149,4466 },
+ { 150,4466 }, { 151,4466 }, { 152,4466 }, { 153,4466 }, { 154,4466 },
+ { 155,4466 }, { 156,4466 }, { 157,4466 }, { 158,4466 }, { 159,4466 },
+ { 160,4466 }, { 161,4466 }, { 162,4466 }, { 163,4466 }, { 164,4466 },
+
+ { 165,4466 }, { 166,4466 }, { 167,4466 }, { 168,4466 }, { 169,4466 },
+ { 170,4466 }, { 171,4466 }, { 172,4466 }, { 173,4466 }, { 174,4466 },
+ { 175,4466 }, { 176,4466 }, { 177,4466 }, { 178,4466 }, { 179,4466 },
+ { 180,4466 }, { 181,4466 }, { 182,4466 }, { 183,4466 }, { 184,4466 },
+ { 185,4466 }, { 186,4466 }, { 187,4466 }, { 188,4466 }, { 189,4466 },
+ { 190,4466 }, { 191,4466 }, { 192,4466 }, { 193,4466 }, { 194,4466 },
+ { 195,4466 }, { 196,4466 }, { 197,4466 }, { 198,4466 }, { 199,4466 },
+ { 200,4466 }, { 201,4466 }, { 202,4466 }, { 203,4466 }, { 204,4466 },
+ { 205,4466 }, { 206,4466 }, { 207,4466 }, { 208,4466 }, { 209,4466 },
+ { 210,4466 }, { 211,4466 }, { 212,4466 }, { 213,4466 }, { 214,4466 },
+
+ { 215,4466 }, { 216,4466 }, { 217,4466 }, { 218,4466 }, { 219,4466 },
+ { 220,4466 }, { 221,4466 }, { 222,4466 }, { 223,4466 }, { 224,4466 },
+ { 225,4466 }, { 226,4466 }, { 227,4466 }, { 228,4466 }, { 229,4466 },
+ { 230,4466 }, { 231,4466 }, { 232,4466 }, { 233,4466 }, { 234,4466 },
+ { 235,4466 }, { 236,4466 }, { 237,4466 }, { 238,4466 }, { 239,4466 },
+ { 240,4466 }, { 241,4466 }, { 242,4466 }, { 243,4466 }, { 244,4466 },
+ { 245,4466 }, { 246,4466 }, { 247,4466 }, { 248,4466 }, { 249,4466 },
+ { 250,4466 }, { 251,4466 }, { 252,4466 }, { 253,4466 }, { 254,4466 },
+ { 255,4466 }, {   0,  50 }, {   0,19412 }, {   1,4599 }, {   2,4599 },
+ {   3,4599 }, {   4,4599 }, {   5,4599 }, {   6,4599 }, {   7,4599 },
+
+ {   8,4599 }, {   9,4478 }, {  10,4478 }, {  11,4599 }, {  12,4599 },
+ {  13,4478 }, {  14,4599 }, {  15,4599 }, {  16,4599 }, {  17,4599 },
+ {  18,4599 }, {  19,4599 }, {  20,4599 }, {  21,4599 }, {  22,4599 },
+ {  23,4599 }, {  24,4599 }, {  25,4599 }, {  26,4599 }, {  27,4599 },
+ {  28,4599 }, {  29,4599 }, {  30,4599 }, {  31,4599 }, {  32,4478 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4599 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4478 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,4599 }, {  46,4478 }, {  47,4478 },
+ {  48,4599 }, {  49,4599 }, {  50,4599 }, {  51,4599 }, {  52,4599 },
+ {  53,4599 }, {  54,4599 }, {  55,4599 }, {  56,4599 }, {  57,4599 },
+
+ {  58,4599 }, {   0,   0 }, {   0,   0 }, {  61,4478 }, {   0,   0 },
+ {  63,4599 }, {   0,   0 }, {  65,4599 }, {  66,4599 }, {  67,4599 },
+ {  68,4599 }, {  69,4599 }, {  70,4599 }, {  71,4599 }, {  72,4599 },
+ {  73,4599 }, {  74,4599 }, {  75,4599 }, {  76,4599 }, {  77,4599 },
+ {  78,4599 }, {  79,4599 }, {  80,4599 }, {  81,4599 }, {  82,4599 },
+ {  83,4599 }, {  84,4599 }, {  85,4599 }, {  86,4599 }, {  87,4599 },
+ {  88,4599 }, {  89,4599 }, {  90,4599 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,4599 }, {   0,   0 }, {  97,4599 },
+ {  98,4599 }, {  99,4599 }, { 100,4599 }, { 101,4599 }, { 102,4599 },
+ { 103,4599 }, { 104,4599 }, { 105,4599 }, { 106,4599 }, { 107,4599 },
+
+ { 108,4599 }, { 109,4599 }, { 110,4599 }, { 111,4599 }, { 112,4599 },
+ { 113,4599 }, { 114,4599 }, { 115,4599 }, { 116,4599 }, { 117,4599 },
+ { 118,4599 }, { 119,4599 }, { 120,4599 }, { 121,4599 }, { 122,4599 },
+ {   0,   0 }, { 124,4478 }, { 125,4478 }, { 126,4478 }, { 127,4599 },
+ { 128,4599 }, { 129,4599 }, { 130,4599 }, { 131,4599 }, { 132,4599 },
+ { 133,4599 }, { 134,4599 }, { 135,4599 }, { 136,4599 }, { 137,4599 },
+ { 138,4599 }, { 139,4599 }, { 140,4599 }, { 141,4599 }, { 142,4599 },
+ { 143,4599 }, { 144,4599 }, { 145,4599 }, { 146,4599 }, { 147,4599 },
+ { 148,4599 }, { 149,4599 }, { 150,4599 }, { 151,4599 }, { 152,4599 },
+ { 153,4599 }, { 154,4599 }, { 155,4599 }, { 156,4599 }, { 157,4599 },
+
+ { 158,4599 }, { 159,4599 }, { 160,4599 }, { 161,4599 }, { 162,4599 },
+ { 163,4599 }, { 164,4599 }, { 165,4599 }, { 166,4599 }, { 167,4599 },
+ { 168,4599 }, { 169,4599 }, { 170,4599 }, { 171,4599 }, { 172,4599 },
+ { 173,4599 }, { 174,4599 }, { 175,4599 }, { 176,4599 }, { 177,4599 },
+ { 178,4599 }, { 179,4599 }, { 180,4599 }, { 181,4599 }, { 182,4599 },
+ { 183,4599 }, { 184,4599 }, { 185,4599 }, { 186,4599 }, { 187,4599 },
+ { 188,4599 }, { 189,4599 }, { 190,4599 }, { 191,4599 }, { 192,4599 },
+ { 193,4599 }, { 194,4599 }, { 195,4599 }, { 196,4599 }, { 197,4599 },
+ { 198,4599 }, { 199,4599 }, { 200,4599 }, { 201,4599 }, { 202,4599 },
+ { 203,4599 }, { 204,4599 }, { 205,4599 }, { 206,4599 }, { 207,4599 },
+
+ { 208,4599 }, { 209,4599 }, { 210,4599 }, { 211,4599 }, { 212,4599 },
+ { 213,4599 }, { 214,4599 }, { 215,4599 }, { 216,4599 }, { 217,4599 },
+ { 218,4599 }, { 219,4599 }, { 220,4599 }, { 221,4599 }, { 222,4599 },
+ { 223,4599 }, { 224,4599 }, { 225,4599 }, { 226,4599 }, { 227,4599 },
+ { 228,4599 }, { 229,4599 }, { 230,4599 }, { 231,4599 }, { 232,4599 },
+ { 233,4599 }, { 234,4599 }, { 235,4599 }, { 236,4599 }, { 237,4599 },
+ { 238,4599 }, { 239,4599 }, { 240,4599 }, { 241,4599 }, { 242,4599 },
+ { 243,4599 }, { 244,4599 }, { 245,4599 }, { 246,4599 }, { 247,4599 },
+ { 248,4599 }, { 249,4599 }, { 250,4599 }, { 251,4599 }, { 252,4599 },
+ { 253,4599 }, { 254,4599 }, { 255,4599 }, { 256,4599 }, {   0,  50 },
+
+ {   0,19154 }, {   1,4599 }, {   2,4599 }, {   3,4599 }, {   4,4599 },
+ {   5,4599 }, {   6,4599 }, {   7,4599 }, {   8,4599 }, {   9,4599 },
+ {  10,4599 }, {  11,4599 }, {  12,4599 }, {  13,4599 }, {  14,4599 },
+ {  15,4599 }, {  16,4599 }, {  17,4599 }, {  18,4599 }, {  19,4599 },
+ {  20,4599 }, {  21,4599 }, {  22,4599 }, {  23,4599 }, {  24,4599 },
+ {  25,4599 }, {  26,4599 }, {  27,4599 }, {  28,4599 }, {  29,4599 },
+ {  30,4599 }, {  31,4599 }, {  32,4599 }, {  33,4599 }, {  34,4225 },
+ {  35,4599 }, {  36,4599 }, {  37,4599 }, {  38,4599 }, {  39,4599 },
+ {  40,4599 }, {  41,4599 }, {  42,4599 }, {  43,4599 }, {  44,4599 },
+ {  45,4599 }, {  46,4599 }, {  47,4599 }, {  48,4599 }, {  49,4599 },
+
+ {  50,4599 }, {  51,4599 }, {  52,4599 }, {  53,4599 }, {  54,4599 },
+ {  55,4599 }, {  56,4599 }, {  57,4599 }, {  58,4599 }, {  59,4599 },
+ {  60,4599 }, {  61,4599 }, {  62,4599 }, {  63,4599 }, {  64,4599 },
+ {  65,4599 }, {  66,4599 }, {  67,4599 }, {  68,4599 }, {  69,4599 },
+ {  70,4599 }, {  71,4599 }, {  72,4599 }, {  73,4599 }, {  74,4599 },
+ {  75,4599 }, {  76,4599 }, {  77,4599 }, {  78,4599 }, {  79,4599 },
+ {  80,4599 }, {  81,4599 }, {  82,4599 }, {  83,4599 }, {  84,4599 },
+ {  85,4599 }, {  86,4599 }, {  87,4599 }, {  88,4599 }, {  89,4599 },
+ {  90,4599 }, {  91,4599 }, {  92,4857 }, {  93,4599 }, {  94,4599 },
+ {  95,4599 }, {  96,4599 }, {  97,4599 }, {  98,4599 }, {  99,4599 },
+
+ { 100,4599 }, { 101,4599 }, { 102,4599 }, { 103,4599 }, { 104,4599 },
+ { 105,4599 }, { 106,4599 }, { 107,4599 }, { 108,4599 }, { 109,4599 },
+ { 110,4599 }, { 111,4599 }, { 112,4599 }, { 113,4599 }, { 114,4599 },
+ { 115,4599 }, { 116,4599 }, { 117,4599 }, { 118,4599 }, { 119,4599 },
+ { 120,4599 }, { 121,4599 }, { 122,4599 }, { 123,4599 }, { 124,4599 },
+ { 125,4599 }, { 126,4599 }, { 127,4599 }, { 128,4599 }, { 129,4599 },
+ { 130,4599 }, { 131,4599 }, { 132,4599 }, { 133,4599 }, { 134,4599 },
+ { 135,4599 }, { 136,4599 }, { 137,4599 }, { 138,4599 }, { 139,4599 },
+ { 140,4599 }, { 141,4599 }, { 142,4599 }, { 143,4599 }, { 144,4599 },
+ { 145,4599 }, { 146,4599 }, { 147,4599 }, { 148,4599 }, { 149,4599 },
+
+ { 150,4599 }, { 151,4599 }, { 152,4599 }, { 153,4599 }, { 154,4599 },
+ { 155,4599 }, { 156,4599 }, { 157,4599 }, { 158,4599 }, { 159,4599 },
+ { 160,4599 }, { 161,4599 }, { 162,4599 }, { 163,4599 }, { 164,4599 },
+ { 165,4599 }, { 166,4599 }, { 167,4599 }, { 168,4599 }, { 169,4599 },
+ { 170,4599 }, { 171,4599 }, { 172,4599 }, { 173,4599 }, { 174,4599 },
+ { 175,4599 }, { 176,4599 }, { 177,4599 }, { 178,4599 }, { 179,4599 },
+ { 180,4599 }, { 181,4599 }, { 182,4599 }, { 183,4599 }, { 184,4599 },
+ { 185,4599 }, { 186,4599 }, { 187,4599 }, { 188,4599 }, { 189,4599 },
+ { 190,4599 }, { 191,4599 }, { 192,4599 }, { 193,4599 }, { 194,4599 },
+ { 195,4599 }, { 196,4599 }, { 197,4599 }, { 198,4599 }, { 199,4599 },
+
+ { 200,4599 }, { 201,4599 }, { 202,4599 }, { 203,4599 }, { 204,4599 },
+ { 205,4599 }, { 206,4599 }, { 207,4599 }, { 208,4599 }, { 209,4599 },
+ { 210,4599 }, { 211,4599 }, { 212,4599 }, { 213,4599 }, { 214,4599 },
+ { 215,4599 }, { 216,4599 }, { 217,4599 }, { 218,4599 }, { 219,4599 },
+ { 220,4599 }, { 221,4599 }, { 222,4599 }, { 223,4599 }, { 224,4599 },
+ { 225,4599 }, { 226,4599 }, { 227,4599 }, { 228,4599 }, { 229,4599 },
+ { 230,4599 }, { 231,4599 }, { 232,4599 }, { 233,4599 }, { 234,4599 },
+ { 235,4599 }, { 236,4599 }, { 237,4599 }, { 238,4599 }, { 239,4599 },
+ { 240,4599 }, { 241,4599 }, { 242,4599 }, { 243,4599 }, { 244,4599 },
+ { 245,4599 }, { 246,4599 }, { 247,4599 }, { 248,4599 }, { 249,4599 },
+
+ { 250,4599 }, { 251,4599 }, { 252,4599 }, { 253,4599 }, { 254,4599 },
+ { 255,4599 }, { 256,4599 }, {   0,  50 }, {   0,18896 }, {   1,4857 },
+ {   2,4857 }, {   3,4857 }, {   4,4857 }, {   5,4857 }, {   6,4857 },
+ {   7,4857 }, {   8,4857 }, {   9,4857 }, {  10,4857 }, {  11,4857 },
+ {  12,4857 }, {  13,4857 }, {  14,4857 }, {  15,4857 }, {  16,4857 },
+ {  17,4857 }, {  18,4857 }, {  19,4857 }, {  20,4857 }, {  21,4857 },
+ {  22,4857 }, {  23,4857 }, {  24,4857 }, {  25,4857 }, {  26,4857 },
+ {  27,4857 }, {  28,4857 }, {  29,4857 }, {  30,4857 }, {  31,4857 },
+ {  32,4857 }, {  33,4857 }, {  34,4857 }, {  35,4857 }, {  36,4857 },
+ {  37,4857 }, {  38,4857 }, {  39,3969 }, {  40,4857 }, {  41,4857 },
+
+ {  42,4857 }, {  43,4857 }, {  44,4857 }, {  45,4857 }, {  46,4857 },
+ {  47,4857 }, {  48,4857 }, {  49,4857 }, {  50,4857 }, {  51,4857 },
+ {  52,4857 }, {  53,4857 }, {  54,4857 }, {  55,4857 }, {  56,4857 },
+ {  57,4857 }, {  58,4857 }, {  59,4857 }, {  60,4857 }, {  61,4857 },
+ {  62,4857 }, {  63,4857 }, {  64,4857 }, {  65,4857 }, {  66,4857 },
+ {  67,4857 }, {  68,4857 }, {  69,4857 }, {  70,4857 }, {  71,4857 },
+ {  72,4857 }, {  73,4857 }, {  74,4857 }, {  75,4857 }, {  76,4857 },
+ {  77,4857 }, {  78,4857 }, {  79,4857 }, {  80,4857 }, {  81,4857 },
+ {  82,4857 }, {  83,4857 }, {  84,4857 }, {  85,4857 }, {  86,4857 },
+ {  87,4857 }, {  88,4857 }, {  89,4857 }, {  90,4857 }, {  91,4857 },
+
+ {  92,5115 }, {  93,4857 }, {  94,4857 }, {  95,4857 }, {  96,4857 },
+ {  97,4857 }, {  98,4857 }, {  99,4857 }, { 100,4857 }, { 101,4857 },
+ { 102,4857 }, { 103,4857 }, { 104,4857 }, { 105,4857 }, { 106,4857 },
+ { 107,4857 }, { 108,4857 }, { 109,4857 }, { 110,4857 }, { 111,4857 },
+ { 112,4857 }, { 113,4857 }, { 114,4857 }, { 115,4857 }, { 116,4857 },
+ { 117,4857 }, { 118,4857 }, { 119,4857 }, { 120,4857 }, { 121,4857 },
+ { 122,4857 }, { 123,4857 }, { 124,4857 }, { 125,4857 }, { 126,4857 },
+ { 127,4857 }, { 128,4857 }, { 129,4857 }, { 130,4857 }, { 131,4857 },
+ { 132,4857 }, { 133,4857 }, { 134,4857 }, { 135,4857 }, { 136,4857 },
+ { 137,4857 }, { 138,4857 }, { 139,4857 }, { 140,4857 }, { 141,4857 },
+
+ { 142,4857 }, { 143,4857 }, { 144,4857 }, { 145,4857 }, { 146,4857 },
+ { 147,4857 }, { 148,4857 }, { 149,4857 }, { 150,4857 }, { 151,4857 },
+ { 152,4857 }, { 153,4857 }, { 154,4857 }, { 155,4857 }, { 156,4857 },
+ { 157,4857 }, { 158,4857 }, { 159,4857 }, { 160,4857 }, { 161,4857 },
+ { 162,4857 }, { 163,4857 }, { 164,4857 }, { 165,4857 }, { 166,4857 },
+ { 167,4857 }, { 168,4857 }, { 169,4857 }, { 170,4857 }, { 171,4857 },
+ { 172,4857 }, { 173,4857 }, { 174,4857 }, { 175,4857 }, { 176,4857 },
+ { 177,4857 }, { 178,4857 }, { 179,4857 }, { 180,4857 }, { 181,4857 },
+ { 182,4857 }, { 183,4857 }, { 184,4857 }, { 185,4857 }, { 186,4857 },
+ { 187,4857 }, { 188,4857 }, { 189,4857 }, { 190,4857 }, { 191,4857 },
+
+ { 192,4857 }, { 193,4857 }, { 194,4857 }, { 195,4857 }, { 196,4857 },
+ { 197,4857 }, { 198,4857 }, { 199,4857 }, { 200,4857 }, { 201,4857 },
+ { 202,4857 }, { 203,4857 }, { 204,4857 }, { 205,4857 }, { 206,4857 },
+ { 207,4857 }, { 208,4857 }, { 209,4857 }, { 210,4857 }, { 211,4857 },
+ { 212,4857 }, { 213,4857 }, { 214,4857 }, { 215,4857 }, { 216,4857 },
+ { 217,4857 }, { 218,4857 }, { 219,4857 }, { 220,4857 }, { 221,4857 },
+ { 222,4857 }, { 223,4857 }, { 224,4857 }, { 225,4857 }, { 226,4857 },
+ { 227,4857 }, { 228,4857 }, { 229,4857 }, { 230,4857 }, { 231,4857 },
+ { 232,4857 }, { 233,4857 }, { 234,4857 }, { 235,4857 }, { 236,4857 },
+ { 237,4857 }, { 238,4857 }, { 239,4857 }, { 240,4857 }, { 241,4857 },
+
+ { 242,4857 }, { 243,4857 }, { 244,4857 }, { 245,4857 }, { 246,4857 },
+ { 247,4857 }, { 248,4857 }, { 249,4857 }, { 250,4857 }, { 251,4857 },
+ { 252,4857 }, { 253,4857 }, { 254,4857 }, { 255,4857 }, { 256,4857 },
+ {   0,  50 }, {   0,18638 }, {   1,3825 }, {   2,3825 }, {   3,3825 },
+ {   4,3825 }, {   5,3825 }, {   6,3825 }, {   7,3825 }, {   8,3825 },
+ {   9,3704 }, {  10,3704 }, {  11,3825 }, {  12,3825 }, {  13,3704 },
+ {  14,3825 }, {  15,3825 }, {  16,3825 }, {  17,3825 }, {  18,3825 },
+ {  19,3825 }, {  20,3825 }, {  21,3825 }, {  22,3825 }, {  23,3825 },
+ {  24,3825 }, {  25,3825 }, {  26,3825 }, {  27,3825 }, {  28,3825 },
+ {  29,3825 }, {  30,3825 }, {  31,3825 }, {  32,3704 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  36,3825 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,3704 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,3825 }, {  46,3704 }, {  47,3704 }, {  48,5115 },
+ {  49,5115 }, {  50,5115 }, {  51,5115 }, {  52,5115 }, {  53,5115 },
+ {  54,5115 }, {  55,5115 }, {  56,5115 }, {  57,5115 }, {  58,3825 },
+ {   0,   0 }, {   0,   0 }, {  61,3704 }, {   0,   0 }, {  63,3825 },
+ {   0,   0 }, {  65,3825 }, {  66,3825 }, {  67,3825 }, {  68,3825 },
+ {  69,3825 }, {  70,3825 }, {  71,3825 }, {  72,3825 }, {  73,3825 },
+ {  74,3825 }, {  75,3825 }, {  76,3825 }, {  77,3825 }, {  78,3825 },
+ {  79,3825 }, {  80,3825 }, {  81,3825 }, {  82,3825 }, {  83,3825 },
+
+ {  84,3825 }, {  85,3825 }, {  86,3825 }, {  87,3825 }, {  88,3825 },
+ {  89,3825 }, {  90,3825 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,3825 }, {   0,   0 }, {  97,3825 }, {  98,3825 },
+ {  99,3825 }, { 100,3825 }, { 101,3825 }, { 102,3825 }, { 103,3825 },
+ { 104,3825 }, { 105,3825 }, { 106,3825 }, { 107,3825 }, { 108,3825 },
+ { 109,3825 }, { 110,3825 }, { 111,3825 }, { 112,3825 }, { 113,3825 },
+ { 114,3825 }, { 115,3825 }, { 116,3825 }, { 117,3825 }, { 118,3825 },
+ { 119,3825 }, { 120,3825 }, { 121,3825 }, { 122,3825 }, {   0,   0 },
+ { 124,3704 }, { 125,3704 }, { 126,3704 }, { 127,3825 }, { 128,3825 },
+ { 129,3825 }, { 130,3825 }, { 131,3825 }, { 132,3825 }, { 133,3825 },
+
+ { 134,3825 }, { 135,3825 }, { 136,3825 }, { 137,3825 }, { 138,3825 },
+ { 139,3825 }, { 140,3825 }, { 141,3825 }, { 142,3825 }, { 143,3825 },
+ { 144,3825 }, { 145,3825 }, { 146,3825 }, { 147,3825 }, { 148,3825 },
+ { 149,3825 }, { 150,3825 }, { 151,3825 }, { 152,3825 }, { 153,3825 },
+ { 154,3825 }, { 155,3825 }, { 156,3825 }, { 157,3825 }, { 158,3825 },
+ { 159,3825 }, { 160,3825 }, { 161,3825 }, { 162,3825 }, { 163,3825 },
+ { 164,3825 }, { 165,3825 }, { 166,3825 }, { 167,3825 }, { 168,3825 },
+ { 169,3825 }, { 170,3825 }, { 171,3825 }, { 172,3825 }, { 173,3825 },
+ { 174,3825 }, { 175,3825 }, { 176,3825 }, { 177,3825 }, { 178,3825 },
+ { 179,3825 }, { 180,3825 }, { 181,3825 }, { 182,3825 }, { 183,3825 },
+
+ { 184,3825 }, { 185,3825 }, { 186,3825 }, { 187,3825 }, { 188,3825 },
+ { 189,3825 }, { 190,3825 }, { 191,3825 }, { 192,3825 }, { 193,3825 },
+ { 194,3825 }, { 195,3825 }, { 196,3825 }, { 197,3825 }, { 198,3825 },
+ { 199,3825 }, { 200,3825 }, { 201,3825 }, { 202,3825 }, { 203,3825 },
+ { 204,3825 }, { 205,3825 }, { 206,3825 }, { 207,3825 }, { 208,3825 },
+ { 209,3825 }, { 210,3825 }, { 211,3825 }, { 212,3825 }, { 213,3825 },
+ { 214,3825 }, { 215,3825 }, { 216,3825 }, { 217,3825 }, { 218,3825 },
+ { 219,3825 }, { 220,3825 }, { 221,3825 }, { 222,3825 }, { 223,3825 },
+ { 224,3825 }, { 225,3825 }, { 226,3825 }, { 227,3825 }, { 228,3825 },
+ { 229,3825 }, { 230,3825 }, { 231,3825 }, { 232,3825 }, { 233,3825 },
+
+ { 234,3825 }, { 235,3825 }, { 236,3825 }, { 237,3825 }, { 238,3825 },
+ { 239,3825 }, { 240,3825 }, { 241,3825 }, { 242,3825 }, { 243,3825 },
+ { 244,3825 }, { 245,3825 }, { 246,3825 }, { 247,3825 }, { 248,3825 },
+ { 249,3825 }, { 250,3825 }, { 251,3825 }, { 252,3825 }, { 253,3825 },
+ { 254,3825 }, { 255,3825 }, { 256,3825 }, {   0,  34 }, {   0,18380 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3455 }, {  10,3455 },
+ {   0,   0 }, {   0,   0 }, {  13,3455 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,  50 }, {   0,18362 }, {   0,  42 }, {   0,18360 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,3455 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,3455 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  46,3457 }, {  47,3455 }, {   0,  50 }, {   0,18331 }, {   0,  50 },
+ {   0,18329 }, {   0,   7 }, {   0,18327 }, {   0,  11 }, {   0,18325 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  61,3455 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  50 }, {   0,18298 }, {   1,3485 }, {   2,3485 }, {   3,3485 },
+ {   4,3485 }, {   5,3485 }, {   6,3485 }, {   7,3485 }, {   8,3485 },
+ {   9,3379 }, {  10,3379 }, {  11,3485 }, {  12,3485 }, {  13,3379 },
+ {  14,3485 }, {  15,3485 }, {  16,3485 }, {  17,3485 }, {  18,3485 },
+ {  19,3485 }, {  20,3485 }, {  21,3485 }, {  22,3485 }, {  23,3485 },
+ {  24,3485 }, {  25,3485 }, {  26,3485 }, {  27,3485 }, {  28,3485 },
+ {  29,3485 }, {  30,3485 }, {  31,3485 }, {  32,3379 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,3485 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,3379 }, { 124,3455 }, { 125,3455 },
+
+ { 126,3455 }, {  45,3485 }, {  46,5033 }, {  47,3364 }, {  48,4775 },
+ {  49,4775 }, {  50,4775 }, {  51,4775 }, {  52,4775 }, {  53,4775 },
+ {  54,4775 }, {  55,4775 }, {  56,4775 }, {  57,4775 }, {  58,3485 },
+ { 123,6962 }, {   0,   0 }, {  61,3364 }, {   0,   0 }, {  63,3485 },
+ {   0,   0 }, {  65,3485 }, {  66,3485 }, {  67,3485 }, {  68,3485 },
+ {  69,3485 }, {  70,3485 }, {  71,3485 }, {  72,3485 }, {  73,3485 },
+ {  74,3485 }, {  75,3485 }, {  76,3485 }, {  77,3485 }, {  78,3485 },
+ {  79,3485 }, {  80,3485 }, {  81,3485 }, {  82,3485 }, {  83,3485 },
+ {  84,3485 }, {  85,3485 }, {  86,3485 }, {  87,3485 }, {  88,3485 },
+ {  89,3485 }, {  90,3485 }, {   0,   0 }, { 125,3426 }, { 126,3428 },
+
+ { 125,3428 }, {  95,3485 }, { 123,3431 }, {  97,3485 }, {  98,3485 },
+ {  99,3485 }, { 100,3485 }, { 101,3485 }, { 102,3485 }, { 103,3485 },
+ { 104,3485 }, { 105,3485 }, { 106,3485 }, { 107,3485 }, { 108,3485 },
+ { 109,3485 }, { 110,3485 }, { 111,3485 }, { 112,3485 }, { 113,3485 },
+ { 114,3485 }, { 115,3485 }, { 116,3485 }, { 117,3485 }, { 118,3485 },
+ { 119,3485 }, { 120,3485 }, { 121,3485 }, { 122,3485 }, {   0,   0 },
+ { 124,3364 }, { 125,3379 }, { 126,3379 }, { 127,3485 }, { 128,3485 },
+ { 129,3485 }, { 130,3485 }, { 131,3485 }, { 132,3485 }, { 133,3485 },
+ { 134,3485 }, { 135,3485 }, { 136,3485 }, { 137,3485 }, { 138,3485 },
+ { 139,3485 }, { 140,3485 }, { 141,3485 }, { 142,3485 }, { 143,3485 },
+
+ { 144,3485 }, { 145,3485 }, { 146,3485 }, { 147,3485 }, { 148,3485 },
+ { 149,3485 }, { 150,3485 }, { 151,3485 }, { 152,3485 }, { 153,3485 },
+ { 154,3485 }, { 155,3485 }, { 156,3485 }, { 157,3485 }, { 158,3485 },
+ { 159,3485 }, { 160,3485 }, { 161,3485 }, { 162,3485 }, { 163,3485 },
+ { 164,3485 }, { 165,3485 }, { 166,3485 }, { 167,3485 }, { 168,3485 },
+ { 169,3485 }, { 170,3485 }, { 171,3485 }, { 172,3485 }, { 173,3485 },
+ { 174,3485 }, { 175,3485 }, { 176,3485 }, { 177,3485 }, { 178,3485 },
+ { 179,3485 }, { 180,3485 }, { 181,3485 }, { 182,3485 }, { 183,3485 },
+ { 184,3485 }, { 185,3485 }, { 186,3485 }, { 187,3485 }, { 188,3485 },
+ { 189,3485 }, { 190,3485 }, { 191,3485 }, { 192,3485 }, { 193,3485 },
+
+ { 194,3485 }, { 195,3485 }, { 196,3485 }, { 197,3485 }, { 198,3485 },
+ { 199,3485 }, { 200,3485 }, { 201,3485 }, { 202,3485 }, { 203,3485 },
+ { 204,3485 }, { 205,3485 }, { 206,3485 }, { 207,3485 }, { 208,3485 },
+ { 209,3485 }, { 210,3485 }, { 211,3485 }, { 212,3485 }, { 213,3485 },
+ { 214,3485 }, { 215,3485 }, { 216,3485 }, { 217,3485 }, { 218,3485 },
+ { 219,3485 }, { 220,3485 }, { 221,3485 }, { 222,3485 }, { 223,3485 },
+ { 224,3485 }, { 225,3485 }, { 226,3485 }, { 227,3485 }, { 228,3485 },
+ { 229,3485 }, { 230,3485 }, { 231,3485 }, { 232,3485 }, { 233,3485 },
+ { 234,3485 }, { 235,3485 }, { 236,3485 }, { 237,3485 }, { 238,3485 },
+ { 239,3485 }, { 240,3485 }, { 241,3485 }, { 242,3485 }, { 243,3485 },
+
+ { 244,3485 }, { 245,3485 }, { 246,3485 }, { 247,3485 }, { 248,3485 },
+ { 249,3485 }, { 250,3485 }, { 251,3485 }, { 252,3485 }, { 253,3485 },
+ { 254,3485 }, { 255,3485 }, { 256,3485 }, {   0,  50 }, {   0,18040 },
+ {   1,4834 }, {   2,4834 }, {   3,4834 }, {   4,4834 }, {   5,4834 },
+ {   6,4834 }, {   7,4834 }, {   8,4834 }, {   9,4834 }, {  10,4834 },
+ {  11,4834 }, {  12,4834 }, {  13,4834 }, {  14,4834 }, {  15,4834 },
+ {  16,4834 }, {  17,4834 }, {  18,4834 }, {  19,4834 }, {  20,4834 },
+ {  21,4834 }, {  22,4834 }, {  23,4834 }, {  24,4834 }, {  25,4834 },
+ {  26,4834 }, {  27,4834 }, {  28,4834 }, {  29,4834 }, {  30,4834 },
+ {  31,4834 }, {  32,4834 }, {  33,4834 }, {  34,4834 }, {  35,4834 },
+
+ {  36,4834 }, {  37,4834 }, {  38,4834 }, {  39,4834 }, {  40,4834 },
+ {  41,4834 }, {  42,4834 }, {  43,4834 }, {  44,4834 }, {  45,4834 },
+ {  46,4834 }, {  47,4834 }, {  48,4834 }, {  49,4834 }, {  50,4834 },
+ {  51,4834 }, {  52,4834 }, {  53,4834 }, {  54,4834 }, {  55,4834 },
+ {  56,4834 }, {  57,4834 }, {  58,4834 }, {  59,4834 }, {  60,4834 },
+ {  61,4834 }, {  62,4834 }, {  63,4834 }, {  64,4834 }, {  65,4834 },
+ {  66,4834 }, {  67,4834 }, {  68,4834 }, {  69,4834 }, {  70,4834 },
+ {  71,4834 }, {  72,4834 }, {  73,4834 }, {  74,4834 }, {  75,4834 },
+ {  76,4834 }, {  77,4834 }, {  78,4834 }, {  79,4834 }, {  80,4834 },
+ {  81,4834 }, {  82,4834 }, {  83,4834 }, {  84,4834 }, {  85,4834 },
+
+ {  86,4834 }, {  87,4834 }, {  88,4834 }, {  89,4834 }, {  90,4834 },
+ {  91,4834 }, {  92,5092 }, {  93,3124 }, {  94,4834 }, {  95,4834 },
+ {  96,4834 }, {  97,4834 }, {  98,4834 }, {  99,4834 }, { 100,4834 },
+ { 101,4834 }, { 102,4834 }, { 103,4834 }, { 104,4834 }, { 105,4834 },
+ { 106,4834 }, { 107,4834 }, { 108,4834 }, { 109,4834 }, { 110,4834 },
+ { 111,4834 }, { 112,4834 }, { 113,4834 }, { 114,4834 }, { 115,4834 },
+ { 116,4834 }, { 117,4834 }, { 118,4834 }, { 119,4834 }, { 120,4834 },
+ { 121,4834 }, { 122,4834 }, { 123,4834 }, { 124,4834 }, { 125,4834 },
+ { 126,4834 }, { 127,4834 }, { 128,4834 }, { 129,4834 }, { 130,4834 },
+ { 131,4834 }, { 132,4834 }, { 133,4834 }, { 134,4834 }, { 135,4834 },
+
+ { 136,4834 }, { 137,4834 }, { 138,4834 }, { 139,4834 }, { 140,4834 },
+ { 141,4834 }, { 142,4834 }, { 143,4834 }, { 144,4834 }, { 145,4834 },
+ { 146,4834 }, { 147,4834 }, { 148,4834 }, { 149,4834 }, { 150,4834 },
+ { 151,4834 }, { 152,4834 }, { 153,4834 }, { 154,4834 }, { 155,4834 },
+ { 156,4834 }, { 157,4834 }, { 158,4834 }, { 159,4834 }, { 160,4834 },
+ { 161,4834 }, { 162,4834 }, { 163,4834 }, { 164,4834 }, { 165,4834 },
+ { 166,4834 }, { 167,4834 }, { 168,4834 }, { 169,4834 }, { 170,4834 },
+ { 171,4834 }, { 172,4834 }, { 173,4834 }, { 174,4834 }, { 175,4834 },
+ { 176,4834 }, { 177,4834 }, { 178,4834 }, { 179,4834 }, { 180,4834 },
+ { 181,4834 }, { 182,4834 }, { 183,4834 }, { 184,4834 }, { 185,4834 },
+
+ { 186,4834 }, { 187,4834 }, { 188,4834 }, { 189,4834 }, { 190,4834 },
+ { 191,4834 }, { 192,4834 }, { 193,4834 }, { 194,4834 }, { 195,4834 },
+ { 196,4834 }, { 197,4834 }, { 198,4834 }, { 199,4834 }, { 200,4834 },
+ { 201,4834 }, { 202,4834 }, { 203,4834 }, { 204,4834 }, { 205,4834 },
+ { 206,4834 }, { 207,4834 }, { 208,4834 }, { 209,4834 }, { 210,4834 },
+ { 211,4834 }, { 212,4834 }, { 213,4834 }, { 214,4834 }, { 215,4834 },
+ { 216,4834 }, { 217,4834 }, { 218,4834 }, { 219,4834 }, { 220,4834 },
+ { 221,4834 }, { 222,4834 }, { 223,4834 }, { 224,4834 }, { 225,4834 },
+ { 226,4834 }, { 227,4834 }, { 228,4834 }, { 229,4834 }, { 230,4834 },
+ { 231,4834 }, { 232,4834 }, { 233,4834 }, { 234,4834 }, { 235,4834 },
+
+ { 236,4834 }, { 237,4834 }, { 238,4834 }, { 239,4834 }, { 240,4834 },
+ { 241,4834 }, { 242,4834 }, { 243,4834 }, { 244,4834 }, { 245,4834 },
+ { 246,4834 }, { 247,4834 }, { 248,4834 }, { 249,4834 }, { 250,4834 },
+ { 251,4834 }, { 252,4834 }, { 253,4834 }, { 254,4834 }, { 255,4834 },
+ { 256,4834 }, {   0,  50 }, {   0,17782 }, {   1,2969 }, {   2,2969 },
+ {   3,2969 }, {   4,2969 }, {   5,2969 }, {   6,2969 }, {   7,2969 },
+ {   8,2969 }, {   9,2848 }, {  10,2848 }, {  11,2969 }, {  12,2969 },
+ {  13,2848 }, {  14,2969 }, {  15,2969 }, {  16,2969 }, {  17,2969 },
+ {  18,2969 }, {  19,2969 }, {  20,2969 }, {  21,2969 }, {  22,2969 },
+ {  23,2969 }, {  24,2969 }, {  25,2969 }, {  26,2969 }, {  27,2969 },
+
+ {  28,2969 }, {  29,2969 }, {  30,2969 }, {  31,2969 }, {  32,2848 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2969 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2848 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,2969 }, {  46,2848 }, {  47,2848 },
+ {  48,2969 }, {  49,2969 }, {  50,2969 }, {  51,2969 }, {  52,2969 },
+ {  53,2969 }, {  54,2969 }, {  55,2969 }, {  56,2969 }, {  57,2969 },
+ {  58,2969 }, {   0,   0 }, {   0,   0 }, {  61,2848 }, {   0,   0 },
+ {  63,2969 }, {   0,   0 }, {  65,2969 }, {  66,2969 }, {  67,2969 },
+ {  68,2969 }, {  69,2969 }, {  70,2969 }, {  71,2969 }, {  72,2969 },
+ {  73,2969 }, {  74,2969 }, {  75,2969 }, {  76,2969 }, {  77,2969 },
+
+ {  78,2969 }, {  79,2969 }, {  80,2969 }, {  81,2969 }, {  82,2969 },
+ {  83,2969 }, {  84,2969 }, {  85,2969 }, {  86,2969 }, {  87,2969 },
+ {  88,2969 }, {  89,2969 }, {  90,2969 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,2969 }, {   0,   0 }, {  97,2969 },
+ {  98,2969 }, {  99,2969 }, { 100,2969 }, { 101,2969 }, { 102,2969 },
+ { 103,2969 }, { 104,2969 }, { 105,2969 }, { 106,2969 }, { 107,2969 },
+ { 108,2969 }, { 109,2969 }, { 110,2969 }, { 111,2969 }, { 112,2969 },
+ { 113,2969 }, { 114,2969 }, { 115,5092 }, { 116,2969 }, { 117,2969 },
+ { 118,2969 }, { 119,2969 }, { 120,2969 }, { 121,2969 }, { 122,2969 },
+ {   0,   0 }, { 124,2848 }, { 125,2848 }, { 126,2848 }, { 127,2969 },
+
+ { 128,2969 }, { 129,2969 }, { 130,2969 }, { 131,2969 }, { 132,2969 },
+ { 133,2969 }, { 134,2969 }, { 135,2969 }, { 136,2969 }, { 137,2969 },
+ { 138,2969 }, { 139,2969 }, { 140,2969 }, { 141,2969 }, { 142,2969 },
+ { 143,2969 }, { 144,2969 }, { 145,2969 }, { 146,2969 }, { 147,2969 },
+ { 148,2969 }, { 149,2969 }, { 150,2969 }, { 151,2969 }, { 152,2969 },
+ { 153,2969 }, { 154,2969 }, { 155,2969 }, { 156,2969 }, { 157,2969 },
+ { 158,2969 }, { 159,2969 }, { 160,2969 }, { 161,2969 }, { 162,2969 },
+ { 163,2969 }, { 164,2969 }, { 165,2969 }, { 166,2969 }, { 167,2969 },
+ { 168,2969 }, { 169,2969 }, { 170,2969 }, { 171,2969 }, { 172,2969 },
+ { 173,2969 }, { 174,2969 }, { 175,2969 }, { 176,2969 }, { 177,2969 },
+
+ { 178,2969 }, { 179,2969 }, { 180,2969 }, { 181,2969 }, { 182,2969 },
+ { 183,2969 }, { 184,2969 }, { 185,2969 }, { 186,2969 }, { 187,2969 },
+ { 188,2969 }, { 189,2969 }, { 190,2969 }, { 191,2969 }, { 192,2969 },
+ { 193,2969 }, { 194,2969 }, { 195,2969 }, { 196,2969 }, { 197,2969 },
+ { 198,2969 }, { 199,2969 }, { 200,2969 }, { 201,2969 }, { 202,2969 },
+ { 203,2969 }, { 204,2969 }, { 205,2969 }, { 206,2969 }, { 207,2969 },
+ { 208,2969 }, { 209,2969 }, { 210,2969 }, { 211,2969 }, { 212,2969 },
+ { 213,2969 }, { 214,2969 }, { 215,2969 }, { 216,2969 }, { 217,2969 },
+ { 218,2969 }, { 219,2969 }, { 220,2969 }, { 221,2969 }, { 222,2969 },
+ { 223,2969 }, { 224,2969 }, { 225,2969 }, { 226,2969 }, { 227,2969 },
+
+ { 228,2969 }, { 229,2969 }, { 230,2969 }, { 231,2969 }, { 232,2969 },
+ { 233,2969 }, { 234,2969 }, { 235,2969 }, { 236,2969 }, { 237,2969 },
+ { 238,2969 }, { 239,2969 }, { 240,2969 }, { 241,2969 }, { 242,2969 },
+ { 243,2969 }, { 244,2969 }, { 245,2969 }, { 246,2969 }, { 247,2969 },
+ { 248,2969 }, { 249,2969 }, { 250,2969 }, { 251,2969 }, { 252,2969 },
+ { 253,2969 }, { 254,2969 }, { 255,2969 }, { 256,2969 }, {   0,  50 },
+ {   0,17524 }, {   1,2711 }, {   2,2711 }, {   3,2711 }, {   4,2711 },
+ {   5,2711 }, {   6,2711 }, {   7,2711 }, {   8,2711 }, {   9,2590 },
+ {  10,2590 }, {  11,2711 }, {  12,2711 }, {  13,2590 }, {  14,2711 },
+ {  15,2711 }, {  16,2711 }, {  17,2711 }, {  18,2711 }, {  19,2711 },
+
+ {  20,2711 }, {  21,2711 }, {  22,2711 }, {  23,2711 }, {  24,2711 },
+ {  25,2711 }, {  26,2711 }, {  27,2711 }, {  28,2711 }, {  29,2711 },
+ {  30,2711 }, {  31,2711 }, {  32,2590 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,2711 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,2590 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,2711 }, {  46,2590 }, {  47,2590 }, {  48,2711 }, {  49,2711 },
+ {  50,2711 }, {  51,2711 }, {  52,2711 }, {  53,2711 }, {  54,2711 },
+ {  55,2711 }, {  56,2711 }, {  57,2711 }, {  58,2711 }, {   0,   0 },
+ {   0,   0 }, {  61,2590 }, {   0,   0 }, {  63,2711 }, {   0,   0 },
+ {  65,2711 }, {  66,2711 }, {  67,2711 }, {  68,2711 }, {  69,2711 },
+
+ {  70,2711 }, {  71,2711 }, {  72,2711 }, {  73,2711 }, {  74,2711 },
+ {  75,2711 }, {  76,2711 }, {  77,2711 }, {  78,2711 }, {  79,2711 },
+ {  80,2711 }, {  81,2711 }, {  82,2711 }, {  83,2711 }, {  84,2711 },
+ {  85,2711 }, {  86,2711 }, {  87,2711 }, {  88,2711 }, {  89,2711 },
+ {  90,2711 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,2711 }, {   0,   0 }, {  97,5092 }, {  98,2711 }, {  99,2711 },
+ { 100,2711 }, { 101,2711 }, { 102,2711 }, { 103,2711 }, { 104,2711 },
+ { 105,2711 }, { 106,2711 }, { 107,2711 }, { 108,2711 }, { 109,2711 },
+ { 110,2711 }, { 111,2711 }, { 112,2711 }, { 113,2711 }, { 114,2711 },
+ { 115,2711 }, { 116,2711 }, { 117,2711 }, { 118,2711 }, { 119,2711 },
+
+ { 120,2711 }, { 121,2711 }, { 122,2711 }, {   0,   0 }, { 124,2590 },
+ { 125,2590 }, { 126,2590 }, { 127,2711 }, { 128,2711 }, { 129,2711 },
+ { 130,2711 }, { 131,2711 }, { 132,2711 }, { 133,2711 }, { 134,2711 },
+ { 135,2711 }, { 136,2711 }, { 137,2711 }, { 138,2711 }, { 139,2711 },
+ { 140,2711 }, { 141,2711 }, { 142,2711 }, { 143,2711 }, { 144,2711 },
+ { 145,2711 }, { 146,2711 }, { 147,2711 }, { 148,2711 }, { 149,2711 },
+ { 150,2711 }, { 151,2711 }, { 152,2711 }, { 153,2711 }, { 154,2711 },
+ { 155,2711 }, { 156,2711 }, { 157,2711 }, { 158,2711 }, { 159,2711 },
+ { 160,2711 }, { 161,2711 }, { 162,2711 }, { 163,2711 }, { 164,2711 },
+ { 165,2711 }, { 166,2711 }, { 167,2711 }, { 168,2711 }, { 169,2711 },
+
+ { 170,2711 }, { 171,2711 }, { 172,2711 }, { 173,2711 }, { 174,2711 },
+ { 175,2711 }, { 176,2711 }, { 177,2711 }, { 178,2711 }, { 179,2711 },
+ { 180,2711 }, { 181,2711 }, { 182,2711 }, { 183,2711 }, { 184,2711 },
+ { 185,2711 }, { 186,2711 }, { 187,2711 }, { 188,2711 }, { 189,2711 },
+ { 190,2711 }, { 191,2711 }, { 192,2711 }, { 193,2711 }, { 194,2711 },
+ { 195,2711 }, { 196,2711 }, { 197,2711 }, { 198,2711 }, { 199,2711 },
+ { 200,2711 }, { 201,2711 }, { 202,2711 }, { 203,2711 }, { 204,2711 },
+ { 205,2711 }, { 206,2711 }, { 207,2711 }, { 208,2711 }, { 209,2711 },
+ { 210,2711 }, { 211,2711 }, { 212,2711 }, { 213,2711 }, { 214,2711 },
+ { 215,2711 }, { 216,2711 }, { 217,2711 }, { 218,2711 }, { 219,2711 },
+
+ { 220,2711 }, { 221,2711 }, { 222,2711 }, { 223,2711 }, { 224,2711 },
+ { 225,2711 }, { 226,2711 }, { 227,2711 }, { 228,2711 }, { 229,2711 },
+ { 230,2711 }, { 231,2711 }, { 232,2711 }, { 233,2711 }, { 234,2711 },
+ { 235,2711 }, { 236,2711 }, { 237,2711 }, { 238,2711 }, { 239,2711 },
+ { 240,2711 }, { 241,2711 }, { 242,2711 }, { 243,2711 }, { 244,2711 },
+ { 245,2711 }, { 246,2711 }, { 247,2711 }, { 248,2711 }, { 249,2711 },
+ { 250,2711 }, { 251,2711 }, { 252,2711 }, { 253,2711 }, { 254,2711 },
+ { 255,2711 }, { 256,2711 }, {   0,  50 }, {   0,17266 }, {   1,2453 },
+ {   2,2453 }, {   3,2453 }, {   4,2453 }, {   5,2453 }, {   6,2453 },
+ {   7,2453 }, {   8,2453 }, {   9,2332 }, {  10,2332 }, {  11,2453 },
+
+ {  12,2453 }, {  13,2332 }, {  14,2453 }, {  15,2453 }, {  16,2453 },
+ {  17,2453 }, {  18,2453 }, {  19,2453 }, {  20,2453 }, {  21,2453 },
+ {  22,2453 }, {  23,2453 }, {  24,2453 }, {  25,2453 }, {  26,2453 },
+ {  27,2453 }, {  28,2453 }, {  29,2453 }, {  30,2453 }, {  31,2453 },
+ {  32,2332 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2453 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2332 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2453 }, {  46,2332 },
+ {  47,2332 }, {  48,2453 }, {  49,2453 }, {  50,2453 }, {  51,2453 },
+ {  52,2453 }, {  53,2453 }, {  54,2453 }, {  55,2453 }, {  56,2453 },
+ {  57,2453 }, {  58,2453 }, {   0,   0 }, {   0,   0 }, {  61,2332 },
+
+ {   0,   0 }, {  63,2453 }, {   0,   0 }, {  65,2453 }, {  66,2453 },
+ {  67,2453 }, {  68,2453 }, {  69,2453 }, {  70,2453 }, {  71,2453 },
+ {  72,2453 }, {  73,2453 }, {  74,2453 }, {  75,2453 }, {  76,2453 },
+ {  77,2453 }, {  78,2453 }, {  79,2453 }, {  80,2453 }, {  81,2453 },
+ {  82,2453 }, {  83,2453 }, {  84,2453 }, {  85,2453 }, {  86,2453 },
+ {  87,2453 }, {  88,2453 }, {  89,2453 }, {  90,2453 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2453 }, {   0,   0 },
+ {  97,2453 }, {  98,2453 }, {  99,2453 }, { 100,2453 }, { 101,2453 },
+ { 102,2453 }, { 103,2453 }, { 104,2453 }, { 105,2453 }, { 106,2453 },
+ { 107,2453 }, { 108,2453 }, { 109,2453 }, { 110,2453 }, { 111,2453 },
+
+ { 112,2453 }, { 113,2453 }, { 114,2453 }, { 115,2453 }, { 116,2453 },
+ { 117,5092 }, { 118,2453 }, { 119,2453 }, { 120,2453 }, { 121,2453 },
+ { 122,2453 }, {   0,   0 }, { 124,2332 }, { 125,2332 }, { 126,2332 },
+ { 127,2453 }, { 128,2453 }, { 129,2453 }, { 130,2453 }, { 131,2453 },
+ { 132,2453 }, { 133,2453 }, { 134,2453 }, { 135,2453 }, { 136,2453 },
+ { 137,2453 }, { 138,2453 }, { 139,2453 }, { 140,2453 }, { 141,2453 },
+ { 142,2453 }, { 143,2453 }, { 144,2453 }, { 145,2453 }, { 146,2453 },
+ { 147,2453 }, { 148,2453 }, { 149,2453 }, { 150,2453 }, { 151,2453 },
+ { 152,2453 }, { 153,2453 }, { 154,2453 }, { 155,2453 }, { 156,2453 },
+ { 157,2453 }, { 158,2453 }, { 159,2453 }, { 160,2453 }, { 161,2453 },
+
+ { 162,2453 }, { 163,2453 }, { 164,2453 }, { 165,2453 }, { 166,2453 },
+ { 167,2453 }, { 168,2453 }, { 169,2453 }, { 170,2453 }, { 171,2453 },
+ { 172,2453 }, { 173,2453 }, { 174,2453 }, { 175,2453 }, { 176,2453 },
+ { 177,2453 }, { 178,2453 }, { 179,2453 }, { 180,2453 }, { 181,2453 },
+ { 182,2453 }, { 183,2453 }, { 184,2453 }, { 185,2453 }, { 186,2453 },
+ { 187,2453 }, { 188,2453 }, { 189,2453 }, { 190,2453 }, { 191,2453 },
+ { 192,2453 }, { 193,2453 }, { 194,2453 }, { 195,2453 }, { 196,2453 },
+ { 197,2453 }, { 198,2453 }, { 199,2453 }, { 200,2453 }, { 201,2453 },
+ { 202,2453 }, { 203,2453 }, { 204,2453 }, { 205,2453 }, { 206,2453 },
+ { 207,2453 }, { 208,2453 }, { 209,2453 }, { 210,2453 }, { 211,2453 },
+
+ { 212,2453 }, { 213,2453 }, { 214,2453 }, { 215,2453 }, { 216,2453 },
+ { 217,2453 }, { 218,2453 }, { 219,2453 }, { 220,2453 }, { 221,2453 },
+ { 222,2453 }, { 223,2453 }, { 224,2453 }, { 225,2453 }, { 226,2453 },
+ { 227,2453 }, { 228,2453 }, { 229,2453 }, { 230,2453 }, { 231,2453 },
+ { 232,2453 }, { 233,2453 }, { 234,2453 }, { 235,2453 }, { 236,2453 },
+ { 237,2453 }, { 238,2453 }, { 239,2453 }, { 240,2453 }, { 241,2453 },
+ { 242,2453 }, { 243,2453 }, { 244,2453 }, { 245,2453 }, { 246,2453 },
+ { 247,2453 }, { 248,2453 }, { 249,2453 }, { 250,2453 }, { 251,2453 },
+ { 252,2453 }, { 253,2453 }, { 254,2453 }, { 255,2453 }, { 256,2453 },
+ {   0,  50 }, {   0,17008 }, {   1,2195 }, {   2,2195 }, {   3,2195 },
+
+ {   4,2195 }, {   5,2195 }, {   6,2195 }, {   7,2195 }, {   8,2195 },
+ {   9,2074 }, {  10,2074 }, {  11,2195 }, {  12,2195 }, {  13,2074 },
+ {  14,2195 }, {  15,2195 }, {  16,2195 }, {  17,2195 }, {  18,2195 },
+ {  19,2195 }, {  20,2195 }, {  21,2195 }, {  22,2195 }, {  23,2195 },
+ {  24,2195 }, {  25,2195 }, {  26,2195 }, {  27,2195 }, {  28,2195 },
+ {  29,2195 }, {  30,2195 }, {  31,2195 }, {  32,2074 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,2195 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,2074 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,2195 }, {  46,2074 }, {  47,2074 }, {  48,2195 },
+ {  49,2195 }, {  50,2195 }, {  51,2195 }, {  52,2195 }, {  53,2195 },
+
+ {  54,2195 }, {  55,2195 }, {  56,2195 }, {  57,2195 }, {  58,2195 },
+ {   0,   0 }, {   0,   0 }, {  61,2074 }, {   0,   0 }, {  63,2195 },
+ {   0,   0 }, {  65,2195 }, {  66,2195 }, {  67,2195 }, {  68,2195 },
+ {  69,2195 }, {  70,2195 }, {  71,2195 }, {  72,2195 }, {  73,2195 },
+ {  74,2195 }, {  75,2195 }, {  76,2195 }, {  77,2195 }, {  78,2195 },
+ {  79,2195 }, {  80,2195 }, {  81,2195 }, {  82,2195 }, {  83,2195 },
+ {  84,2195 }, {  85,2195 }, {  86,2195 }, {  87,2195 }, {  88,2195 },
+ {  89,2195 }, {  90,2195 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,2195 }, {   0,   0 }, {  97,2195 }, {  98,2195 },
+ {  99,2195 }, { 100,2195 }, { 101,2195 }, { 102,2195 }, { 103,2195 },
+
+ { 104,2195 }, { 105,2195 }, { 106,2195 }, { 107,2195 }, { 108,2195 },
+ { 109,2195 }, { 110,2195 }, { 111,2195 }, { 112,2195 }, { 113,2195 },
+ { 114,5092 }, { 115,2195 }, { 116,2195 }, { 117,2195 }, { 118,2195 },
+ { 119,2195 }, { 120,2195 }, { 121,2195 }, { 122,2195 }, {   0,   0 },
+ { 124,2074 }, { 125,2074 }, { 126,2074 }, { 127,2195 }, { 128,2195 },
+ { 129,2195 }, { 130,2195 }, { 131,2195 }, { 132,2195 }, { 133,2195 },
+ { 134,2195 }, { 135,2195 }, { 136,2195 }, { 137,2195 }, { 138,2195 },
+ { 139,2195 }, { 140,2195 }, { 141,2195 }, { 142,2195 }, { 143,2195 },
+ { 144,2195 }, { 145,2195 }, { 146,2195 }, { 147,2195 }, { 148,2195 },
+ { 149,2195 }, { 150,2195 }, { 151,2195 }, { 152,2195 }, { 153,2195 },
+
+ { 154,2195 }, { 155,2195 }, { 156,2195 }, { 157,2195 }, { 158,2195 },
+ { 159,2195 }, { 160,2195 }, { 161,2195 }, { 162,2195 }, { 163,2195 },
+ { 164,2195 }, { 165,2195 }, { 166,2195 }, { 167,2195 }, { 168,2195 },
+ { 169,2195 }, { 170,2195 }, { 171,2195 }, { 172,2195 }, { 173,2195 },
+ { 174,2195 }, { 175,2195 }, { 176,2195 }, { 177,2195 }, { 178,2195 },
+ { 179,2195 }, { 180,2195 }, { 181,2195 }, { 182,2195 }, { 183,2195 },
+ { 184,2195 }, { 185,2195 }, { 186,2195 }, { 187,2195 }, { 188,2195 },
+ { 189,2195 }, { 190,2195 }, { 191,2195 }, { 192,2195 }, { 193,2195 },
+ { 194,2195 }, { 195,2195 }, { 196,2195 }, { 197,2195 }, { 198,2195 },
+ { 199,2195 }, { 200,2195 }, { 201,2195 }, { 202,2195 }, { 203,2195 },
+
+ { 204,2195 }, { 205,2195 }, { 206,2195 }, { 207,2195 }, { 208,2195 },
+ { 209,2195 }, { 210,2195 }, { 211,2195 }, { 212,2195 }, { 213,2195 },
+ { 214,2195 }, { 215,2195 }, { 216,2195 }, { 217,2195 }, { 218,2195 },
+ { 219,2195 }, { 220,2195 }, { 221,2195 }, { 222,2195 }, { 223,2195 },
+ { 224,2195 }, { 225,2195 }, { 226,2195 }, { 227,2195 }, { 228,2195 },
+ { 229,2195 }, { 230,2195 }, { 231,2195 }, { 232,2195 }, { 233,2195 },
+ { 234,2195 }, { 235,2195 }, { 236,2195 }, { 237,2195 }, { 238,2195 },
+ { 239,2195 }, { 240,2195 }, { 241,2195 }, { 242,2195 }, { 243,2195 },
+ { 244,2195 }, { 245,2195 }, { 246,2195 }, { 247,2195 }, { 248,2195 },
+ { 249,2195 }, { 250,2195 }, { 251,2195 }, { 252,2195 }, { 253,2195 },
+
+ { 254,2195 }, { 255,2195 }, { 256,2195 }, {   0,  50 }, {   0,16750 },
+ {   1,1937 }, {   2,1937 }, {   3,1937 }, {   4,1937 }, {   5,1937 },
+ {   6,1937 }, {   7,1937 }, {   8,1937 }, {   9,1816 }, {  10,1816 },
+ {  11,1937 }, {  12,1937 }, {  13,1816 }, {  14,1937 }, {  15,1937 },
+ {  16,1937 }, {  17,1937 }, {  18,1937 }, {  19,1937 }, {  20,1937 },
+ {  21,1937 }, {  22,1937 }, {  23,1937 }, {  24,1937 }, {  25,1937 },
+ {  26,1937 }, {  27,1937 }, {  28,1937 }, {  29,1937 }, {  30,1937 },
+ {  31,1937 }, {  32,1816 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,1937 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,1816 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1937 },
+
+ {  46,1816 }, {  47,1816 }, {  48,1937 }, {  49,1937 }, {  50,1937 },
+ {  51,1937 }, {  52,1937 }, {  53,1937 }, {  54,1937 }, {  55,1937 },
+ {  56,1937 }, {  57,1937 }, {  58,1937 }, {   0,   0 }, {   0,   0 },
+ {  61,1816 }, {   0,   0 }, {  63,1937 }, {   0,   0 }, {  65,1937 },
+ {  66,1937 }, {  67,1937 }, {  68,1937 }, {  69,1937 }, {  70,1937 },
+ {  71,1937 }, {  72,1937 }, {  73,1937 }, {  74,1937 }, {  75,1937 },
+ {  76,1937 }, {  77,1937 }, {  78,1937 }, {  79,1937 }, {  80,1937 },
+ {  81,1937 }, {  82,1937 }, {  83,1937 }, {  84,1937 }, {  85,1937 },
+ {  86,1937 }, {  87,1937 }, {  88,1937 }, {  89,1937 }, {  90,1937 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1937 },
+
+ {   0,   0 }, {  97,1937 }, {  98,1937 }, {  99,1937 }, { 100,1937 },
+ { 101,1937 }, { 102,1937 }, { 103,1937 }, { 104,1937 }, { 105,1937 },
+ { 106,1937 }, { 107,1937 }, { 108,1937 }, { 109,1937 }, { 110,5092 },
+ { 111,1937 }, { 112,1937 }, { 113,1937 }, { 114,1937 }, { 115,1937 },
+ { 116,1937 }, { 117,1937 }, { 118,1937 }, { 119,1937 }, { 120,1937 },
+ { 121,1937 }, { 122,1937 }, {   0,   0 }, { 124,1816 }, { 125,1816 },
+ { 126,1816 }, { 127,1937 }, { 128,1937 }, { 129,1937 }, { 130,1937 },
+ { 131,1937 }, { 132,1937 }, { 133,1937 }, { 134,1937 }, { 135,1937 },
+ { 136,1937 }, { 137,1937 }, { 138,1937 }, { 139,1937 }, { 140,1937 },
+ { 141,1937 }, { 142,1937 }, { 143,1937 }, { 144,1937 }, { 145,1937 },
+
+ { 146,1937 }, { 147,1937 }, { 148,1937 }, { 149,1937 }, { 150,1937 },
+ { 151,1937 }, { 152,1937 }, { 153,1937 }, { 154,1937 }, { 155,1937 },
+ { 156,1937 }, { 157,1937 }, { 158,1937 }, { 159,1937 }, { 160,1937 },
+ { 161,1937 }, { 162,1937 }, { 163,1937 }, { 164,1937 }, { 165,1937 },
+ { 166,1937 }, { 167,1937 }, { 168,1937 }, { 169,1937 }, { 170,1937 },
+ { 171,1937 }, { 172,1937 }, { 173,1937 }, { 174,1937 }, { 175,1937 },
+ { 176,1937 }, { 177,1937 }, { 178,1937 }, { 179,1937 }, { 180,1937 },
+ { 181,1937 }, { 182,1937 }, { 183,1937 }, { 184,1937 }, { 185,1937 },
+ { 186,1937 }, { 187,1937 }, { 188,1937 }, { 189,1937 }, { 190,1937 },
+ { 191,1937 }, { 192,1937 }, { 193,1937 }, { 194,1937 }, { 195,1937 },
+
+ { 196,1937 }, { 197,1937 }, { 198,1937 }, { 199,1937 }, { 200,1937 },
+ { 201,1937 }, { 202,1937 }, { 203,1937 }, { 204,1937 }, { 205,1937 },
+ { 206,1937 }, { 207,1937 }, { 208,1937 }, { 209,1937 }, { 210,1937 },
+ { 211,1937 }, { 212,1937 }, { 213,1937 }, { 214,1937 }, { 215,1937 },
+ { 216,1937 }, { 217,1937 }, { 218,1937 }, { 219,1937 }, { 220,1937 },
+ { 221,1937 }, { 222,1937 }, { 223,1937 }, { 224,1937 }, { 225,1937 },
+ { 226,1937 }, { 227,1937 }, { 228,1937 }, { 229,1937 }, { 230,1937 },
+ { 231,1937 }, { 232,1937 }, { 233,1937 }, { 234,1937 }, { 235,1937 },
+ { 236,1937 }, { 237,1937 }, { 238,1937 }, { 239,1937 }, { 240,1937 },
+ { 241,1937 }, { 242,1937 }, { 243,1937 }, { 244,1937 }, { 245,1937 },
+
+ { 246,1937 }, { 247,1937 }, { 248,1937 }, { 249,1937 }, { 250,1937 },
+ { 251,1937 }, { 252,1937 }, { 253,1937 }, { 254,1937 }, { 255,1937 },
+ { 256,1937 }, {   0,  51 }, {   0,16492 }, {   1,5220 }, {   2,5220 },
+ {   3,5220 }, {   4,5220 }, {   5,5220 }, {   6,5220 }, {   7,5220 },
+ {   8,5220 }, {   9,5220 }, {  10,5220 }, {  11,5220 }, {  12,5220 },
+ {  13,5220 }, {  14,5220 }, {  15,5220 }, {  16,5220 }, {  17,5220 },
+ {  18,5220 }, {  19,5220 }, {  20,5220 }, {  21,5220 }, {  22,5220 },
+ {  23,5220 }, {  24,5220 }, {  25,5220 }, {  26,5220 }, {  27,5220 },
+ {  28,5220 }, {  29,5220 }, {  30,5220 }, {  31,5220 }, {  32,5220 },
+ {  33,5220 }, {  34,5220 }, {  35,5220 }, {  36,5220 }, {  37,5220 },
+
+ {  38,5220 }, {  39,5220 }, {  40,5220 }, {  41,5220 }, {  42,5220 },
+ {  43,5220 }, {  44,5220 }, {  45,5478 }, {  46,5220 }, {  47,5220 },
+ {  48,5220 }, {  49,5220 }, {  50,5220 }, {  51,5220 }, {  52,5220 },
+ {  53,5220 }, {  54,5220 }, {  55,5220 }, {  56,5220 }, {  57,5220 },
+ {  58,5220 }, {  59,5220 }, {  60,5220 }, {  61,5220 }, {  62,5220 },
+ {  63,5220 }, {  64,5220 }, {  65,5220 }, {  66,5220 }, {  67,5220 },
+ {  68,5220 }, {  69,5220 }, {  70,5220 }, {  71,5220 }, {  72,5220 },
+ {  73,5220 }, {  74,5220 }, {  75,5220 }, {  76,5220 }, {  77,5220 },
+ {  78,5220 }, {  79,5220 }, {  80,5220 }, {  81,5220 }, {  82,5220 },
+ {  83,5220 }, {  84,5220 }, {  85,5220 }, {  86,5220 }, {  87,5220 },
+
+ {  88,5220 }, {  89,5220 }, {  90,5220 }, {  91,5220 }, {  92,5220 },
+ {  93,5220 }, {  94,5220 }, {  95,5220 }, {  96,5220 }, {  97,5220 },
+ {  98,5220 }, {  99,5220 }, { 100,5220 }, { 101,5220 }, { 102,5220 },
+ { 103,5220 }, { 104,5220 }, { 105,5220 }, { 106,5220 }, { 107,5220 },
+ { 108,5220 }, { 109,5220 }, { 110,5220 }, { 111,5220 }, { 112,5220 },
+ { 113,5220 }, { 114,5220 }, { 115,5220 }, { 116,5220 }, { 117,5220 },
+ { 118,5220 }, { 119,5220 }, { 120,5220 }, { 121,5220 }, { 122,5220 },
+ { 123,5220 }, { 124,5220 }, { 125,5220 }, { 126,5220 }, { 127,5220 },
+ { 128,5220 }, { 129,5220 }, { 130,5220 }, { 131,5220 }, { 132,5220 },
+ { 133,5220 }, { 134,5220 }, { 135,5220 }, { 136,5220 }, { 137,5220 },
+
+ { 138,5220 }, { 139,5220 }, { 140,5220 }, { 141,5220 }, { 142,5220 },
+ { 143,5220 }, { 144,5220 }, { 145,5220 }, { 146,5220 }, { 147,5220 },
+ { 148,5220 }, { 149,5220 }, { 150,5220 }, { 151,5220 }, { 152,5220 },
+ { 153,5220 }, { 154,5220 }, { 155,5220 }, { 156,5220 }, { 157,5220 },
+ { 158,5220 }, { 159,5220 }, { 160,5220 }, { 161,5220 }, { 162,5220 },
+ { 163,5220 }, { 164,5220 }, { 165,5220 }, { 166,5220 }, { 167,5220 },
+ { 168,5220 }, { 169,5220 }, { 170,5220 }, { 171,5220 }, { 172,5220 },
+ { 173,5220 }, { 174,5220 }, { 175,5220 }, { 176,5220 }, { 177,5220 },
+ { 178,5220 }, { 179,5220 }, { 180,5220 }, { 181,5220 }, { 182,5220 },
+ { 183,5220 }, { 184,5220 }, { 185,5220 }, { 186,5220 }, { 187,5220 },
+
+ { 188,5220 }, { 189,5220 }, { 190,5220 }, { 191,5220 }, { 192,5220 },
+ { 193,5220 }, { 194,5220 }, { 195,5220 }, { 196,5220 }, { 197,5220 },
+ { 198,5220 }, { 199,5220 }, { 200,5220 }, { 201,5220 }, { 202,5220 },
+ { 203,5220 }, { 204,5220 }, { 205,5220 }, { 206,5220 }, { 207,5220 },
+ { 208,5220 }, { 209,5220 }, { 210,5220 }, { 211,5220 }, { 212,5220 },
+ { 213,5220 }, { 214,5220 }, { 215,5220 }, { 216,5220 }, { 217,5220 },
+ { 218,5220 }, { 219,5220 }, { 220,5220 }, { 221,5220 }, { 222,5220 },
+ { 223,5220 }, { 224,5220 }, { 225,5220 }, { 226,5220 }, { 227,5220 },
+ { 228,5220 }, { 229,5220 }, { 230,5220 }, { 231,5220 }, { 232,5220 },
+ { 233,5220 }, { 234,5220 }, { 235,5220 }, { 236,5220 }, { 237,5220 },
+
+ { 238,5220 }, { 239,5220 }, { 240,5220 }, { 241,5220 }, { 242,5220 },
+ { 243,5220 }, { 244,5220 }, { 245,5220 }, { 246,5220 }, { 247,5220 },
+ { 248,5220 }, { 249,5220 }, { 250,5220 }, { 251,5220 }, { 252,5220 },
+ { 253,5220 }, { 254,5220 }, { 255,5220 }, { 256,5220 }, {   0,  51 },
+ {   0,16234 }, {   1,4962 }, {   2,4962 }, {   3,4962 }, {   4,4962 },
+ {   5,4962 }, {   6,4962 }, {   7,4962 }, {   8,4962 }, {   9,4962 },
+ {  10,4962 }, {  11,4962 }, {  12,4962 }, {  13,4962 }, {  14,4962 },
+ {  15,4962 }, {  16,4962 }, {  17,4962 }, {  18,4962 }, {  19,4962 },
+ {  20,4962 }, {  21,4962 }, {  22,4962 }, {  23,4962 }, {  24,4962 },
+ {  25,4962 }, {  26,4962 }, {  27,4962 }, {  28,4962 }, {  29,4962 },
+
+ {  30,4962 }, {  31,4962 }, {  32,4962 }, {  33,4962 }, {  34,4962 },
+ {  35,4962 }, {  36,4962 }, {  37,4962 }, {  38,4962 }, {  39,4962 },
+ {  40,4962 }, {  41,4962 }, {  42,4962 }, {  43,4962 }, {  44,4962 },
+ {  45,5478 }, {  46,4962 }, {  47,4962 }, {  48,4962 }, {  49,4962 },
+ {  50,4962 }, {  51,4962 }, {  52,4962 }, {  53,4962 }, {  54,4962 },
+ {  55,4962 }, {  56,4962 }, {  57,4962 }, {  58,4962 }, {  59,4962 },
+ {  60,4962 }, {  61,4962 }, {  62,4962 }, {  63,4962 }, {  64,4962 },
+ {  65,4962 }, {  66,4962 }, {  67,4962 }, {  68,4962 }, {  69,4962 },
+ {  70,4962 }, {  71,4962 }, {  72,4962 }, {  73,4962 }, {  74,4962 },
+ {  75,4962 }, {  76,4962 }, {  77,4962 }, {  78,4962 }, {  79,4962 },
+
+ {  80,4962 }, {  81,4962 }, {  82,4962 }, {  83,4962 }, {  84,4962 },
+ {  85,4962 }, {  86,4962 }, {  87,4962 }, {  88,4962 }, {  89,4962 },
+ {  90,4962 }, {  91,4962 }, {  92,4962 }, {  93,4962 }, {  94,4962 },
+ {  95,4962 }, {  96,4962 }, {  97,4962 }, {  98,4962 }, {  99,4962 },
+ { 100,4962 }, { 101,4962 }, { 102,4962 }, { 103,4962 }, { 104,4962 },
+ { 105,4962 }, { 106,4962 }, { 107,4962 }, { 108,4962 }, { 109,4962 },
+ { 110,4962 }, { 111,4962 }, { 112,4962 }, { 113,4962 }, { 114,4962 },
+ { 115,4962 }, { 116,4962 }, { 117,4962 }, { 118,4962 }, { 119,4962 },
+ { 120,4962 }, { 121,4962 }, { 122,4962 }, { 123,4962 }, { 124,4962 },
+ { 125,4962 }, { 126,4962 }, { 127,4962 }, { 128,4962 }, { 129,4962 },
+
+ { 130,4962 }, { 131,4962 }, { 132,4962 }, { 133,4962 }, { 134,4962 },
+ { 135,4962 }, { 136,4962 }, { 137,4962 }, { 138,4962 }, { 139,4962 },
+ { 140,4962 }, { 141,4962 }, { 142,4962 }, { 143,4962 }, { 144,4962 },
+ { 145,4962 }, { 146,4962 }, { 147,4962 }, { 148,4962 }, { 149,4962 },
+ { 150,4962 }, { 151,4962 }, { 152,4962 }, { 153,4962 }, { 154,4962 },
+ { 155,4962 }, { 156,4962 }, { 157,4962 }, { 158,4962 }, { 159,4962 },
+ { 160,4962 }, { 161,4962 }, { 162,4962 }, { 163,4962 }, { 164,4962 },
+ { 165,4962 }, { 166,4962 }, { 167,4962 }, { 168,4962 }, { 169,4962 },
+ { 170,4962 }, { 171,4962 }, { 172,4962 }, { 173,4962 }, { 174,4962 },
+ { 175,4962 }, { 176,4962 }, { 177,4962 }, { 178,4962 }, { 179,4962 },
+
+ { 180,4962 }, { 181,4962 }, { 182,4962 }, { 183,4962 }, { 184,4962 },
+ { 185,4962 }, { 186,4962 }, { 187,4962 }, { 188,4962 }, { 189,4962 },
+ { 190,4962 }, { 191,4962 }, { 192,4962 }, { 193,4962 }, { 194,4962 },
+ { 195,4962 }, { 196,4962 }, { 197,4962 }, { 198,4962 }, { 199,4962 },
+ { 200,4962 }, { 201,4962 }, { 202,4962 }, { 203,4962 }, { 204,4962 },
+ { 205,4962 }, { 206,4962 }, { 207,4962 }, { 208,4962 }, { 209,4962 },
+ { 210,4962 }, { 211,4962 }, { 212,4962 }, { 213,4962 }, { 214,4962 },
+ { 215,4962 }, { 216,4962 }, { 217,4962 }, { 218,4962 }, { 219,4962 },
+ { 220,4962 }, { 221,4962 }, { 222,4962 }, { 223,4962 }, { 224,4962 },
+ { 225,4962 }, { 226,4962 }, { 227,4962 }, { 228,4962 }, { 229,4962 },
+
+ { 230,4962 }, { 231,4962 }, { 232,4962 }, { 233,4962 }, { 234,4962 },
+ { 235,4962 }, { 236,4962 }, { 237,4962 }, { 238,4962 }, { 239,4962 },
+ { 240,4962 }, { 241,4962 }, { 242,4962 }, { 243,4962 }, { 244,4962 },
+ { 245,4962 }, { 246,4962 }, { 247,4962 }, { 248,4962 }, { 249,4962 },
+ { 250,4962 }, { 251,4962 }, { 252,4962 }, { 253,4962 }, { 254,4962 },
+ { 255,4962 }, { 256,4962 }, {   0,  51 }, {   0,15976 }, {   1,5478 },
+ {   2,5478 }, {   3,5478 }, {   4,5478 }, {   5,5478 }, {   6,5478 },
+ {   7,5478 }, {   8,5478 }, {   9,5478 }, {  10,5478 }, {  11,5478 },
+ {  12,5478 }, {  13,5478 }, {  14,5478 }, {  15,5478 }, {  16,5478 },
+ {  17,5478 }, {  18,5478 }, {  19,5478 }, {  20,5478 }, {  21,5478 },
+
+ {  22,5478 }, {  23,5478 }, {  24,5478 }, {  25,5478 }, {  26,5478 },
+ {  27,5478 }, {  28,5478 }, {  29,5478 }, {  30,5478 }, {  31,5478 },
+ {  32,5478 }, {  33,5478 }, {  34,5478 }, {  35,5478 }, {  36,5478 },
+ {  37,5478 }, {  38,5478 }, {  39,5478 }, {  40,5478 }, {  41,5478 },
+ {  42,5478 }, {  43,5478 }, {  44,5478 }, {  45,5478 }, {  46,5478 },
+ {  47,5478 }, {  48,5478 }, {  49,5478 }, {  50,5478 }, {  51,5478 },
+ {  52,5478 }, {  53,5478 }, {  54,5478 }, {  55,5478 }, {  56,5478 },
+ {  57,5478 }, {  58,5478 }, {  59,5478 }, {  60,5478 }, {  61,5478 },
+ {  62,5478 }, {  63,5478 }, {  64,5478 }, {  65,5478 }, {  66,5478 },
+ {  67,5478 }, {  68,5478 }, {  69,5478 }, {  70,5478 }, {  71,5478 },
+
+ {  72,5478 }, {  73,5478 }, {  74,5478 }, {  75,5478 }, {  76,5478 },
+ {  77,5478 }, {  78,5478 }, {  79,5478 }, {  80,5478 }, {  81,5478 },
+ {  82,5478 }, {  83,5478 }, {  84,5478 }, {  85,5478 }, {  86,5478 },
+ {  87,5478 }, {  88,5478 }, {  89,5478 }, {  90,5478 }, {  91,5478 },
+ {  92,5478 }, {  93,5478 }, {  94,5478 }, {  95,5478 }, {  96,5478 },
+ {  97,5478 }, {  98,5478 }, {  99,5478 }, { 100,5478 }, { 101,5478 },
+ { 102,5478 }, { 103,5478 }, { 104,5478 }, { 105,5478 }, { 106,5478 },
+ { 107,5478 }, { 108,5478 }, { 109,5478 }, { 110,5478 }, { 111,5478 },
+ { 112,5478 }, { 113,5478 }, { 114,5478 }, { 115,5478 }, { 116,5478 },
+ { 117,5478 }, { 118,5478 }, { 119,5478 }, { 120,5478 }, { 121,5478 },
+
+ { 122,5478 }, { 123,5478 }, { 124,5478 }, { 125,5736 }, { 126,5478 },
+ { 127,5478 }, { 128,5478 }, { 129,5478 }, { 130,5478 }, { 131,5478 },
+ { 132,5478 }, { 133,5478 }, { 134,5478 }, { 135,5478 }, { 136,5478 },
+ { 137,5478 }, { 138,5478 }, { 139,5478 }, { 140,5478 }, { 141,5478 },
+ { 142,5478 }, { 143,5478 }, { 144,5478 }, { 145,5478 }, { 146,5478 },
+ { 147,5478 }, { 148,5478 }, { 149,5478 }, { 150,5478 }, { 151,5478 },
+ { 152,5478 }, { 153,5478 }, { 154,5478 }, { 155,5478 }, { 156,5478 },
+ { 157,5478 }, { 158,5478 }, { 159,5478 }, { 160,5478 }, { 161,5478 },
+ { 162,5478 }, { 163,5478 }, { 164,5478 }, { 165,5478 }, { 166,5478 },
+ { 167,5478 }, { 168,5478 }, { 169,5478 }, { 170,5478 }, { 171,5478 },
+
+ { 172,5478 }, { 173,5478 }, { 174,5478 }, { 175,5478 }, { 176,5478 },
+ { 177,5478 }, { 178,5478 }, { 179,5478 }, { 180,5478 }, { 181,5478 },
+ { 182,5478 }, { 183,5478 }, { 184,5478 }, { 185,5478 }, { 186,5478 },
+ { 187,5478 }, { 188,5478 }, { 189,5478 }, { 190,5478 }, { 191,5478 },
+ { 192,5478 }, { 193,5478 }, { 194,5478 }, { 195,5478 }, { 196,5478 },
+ { 197,5478 }, { 198,5478 }, { 199,5478 }, { 200,5478 }, { 201,5478 },
+ { 202,5478 }, { 203,5478 }, { 204,5478 }, { 205,5478 }, { 206,5478 },
+ { 207,5478 }, { 208,5478 }, { 209,5478 }, { 210,5478 }, { 211,5478 },
+ { 212,5478 }, { 213,5478 }, { 214,5478 }, { 215,5478 }, { 216,5478 },
+ { 217,5478 }, { 218,5478 }, { 219,5478 }, { 220,5478 }, { 221,5478 },
+
+ { 222,5478 }, { 223,5478 }, { 224,5478 }, { 225,5478 }, { 226,5478 },
+ { 227,5478 }, { 228,5478 }, { 229,5478 }, { 230,5478 }, { 231,5478 },
+ { 232,5478 }, { 233,5478 }, { 234,5478 }, { 235,5478 }, { 236,5478 },
+ { 237,5478 }, { 238,5478 }, { 239,5478 }, { 240,5478 }, { 241,5478 },
+ { 242,5478 }, { 243,5478 }, { 244,5478 }, { 245,5478 }, { 246,5478 },
+ { 247,5478 }, { 248,5478 }, { 249,5478 }, { 250,5478 }, { 251,5478 },
+ { 252,5478 }, { 253,5478 }, { 254,5478 }, { 255,5478 }, { 256,5478 },
+ {   0,  51 }, {   0,15718 }, {   1,5220 }, {   2,5220 }, {   3,5220 },
+ {   4,5220 }, {   5,5220 }, {   6,5220 }, {   7,5220 }, {   8,5220 },
+ {   9,5220 }, {  10,5220 }, {  11,5220 }, {  12,5220 }, {  13,5220 },
+
+ {  14,5220 }, {  15,5220 }, {  16,5220 }, {  17,5220 }, {  18,5220 },
+ {  19,5220 }, {  20,5220 }, {  21,5220 }, {  22,5220 }, {  23,5220 },
+ {  24,5220 }, {  25,5220 }, {  26,5220 }, {  27,5220 }, {  28,5220 },
+ {  29,5220 }, {  30,5220 }, {  31,5220 }, {  32,5220 }, {  33,5220 },
+ {  34,5220 }, {  35,5220 }, {  36,5220 }, {  37,5220 }, {  38,5220 },
+ {  39,5220 }, {  40,5220 }, {  41,5220 }, {  42,5220 }, {  43,5220 },
+ {  44,5220 }, {  45,5220 }, {  46,5220 }, {  47,5220 }, {  48,5220 },
+ {  49,5220 }, {  50,5220 }, {  51,5220 }, {  52,5220 }, {  53,5220 },
+ {  54,5220 }, {  55,5220 }, {  56,5220 }, {  57,5220 }, {  58,5220 },
+ {  59,5220 }, {  60,5220 }, {  61,5220 }, {  62,5220 }, {  63,5220 },
+
+ {  64,5220 }, {  65,5220 }, {  66,5220 }, {  67,5220 }, {  68,5220 },
+ {  69,5220 }, {  70,5220 }, {  71,5220 }, {  72,5220 }, {  73,5220 },
+ {  74,5220 }, {  75,5220 }, {  76,5220 }, {  77,5220 }, {  78,5220 },
+ {  79,5220 }, {  80,5220 }, {  81,5220 }, {  82,5220 }, {  83,5220 },
+ {  84,5220 }, {  85,5220 }, {  86,5220 }, {  87,5220 }, {  88,5220 },
+ {  89,5220 }, {  90,5220 }, {  91,5220 }, {  92,5220 }, {  93,5220 },
+ {  94,5220 }, {  95,5220 }, {  96,5220 }, {  97,5220 }, {  98,5220 },
+ {  99,5220 }, { 100,5220 }, { 101,5220 }, { 102,5220 }, { 103,5220 },
+ { 104,5220 }, { 105,5220 }, { 106,5220 }, { 107,5220 }, { 108,5220 },
+ { 109,5220 }, { 110,5220 }, { 111,5220 }, { 112,5220 }, { 113,5220 },
+
+ { 114,5220 }, { 115,5220 }, { 116,5220 }, { 117,5220 }, { 118,5220 },
+ { 119,5220 }, { 120,5220 }, { 121,5220 }, { 122,5220 }, { 123,5220 },
+ { 124,5220 }, { 125, 821 }, { 126,5220 }, { 127,5220 }, { 128,5220 },
+ { 129,5220 }, { 130,5220 }, { 131,5220 }, { 132,5220 }, { 133,5220 },
+ { 134,5220 }, { 135,5220 }, { 136,5220 }, { 137,5220 }, { 138,5220 },
+ { 139,5220 }, { 140,5220 }, { 141,5220 }, { 142,5220 }, { 143,5220 },
+ { 144,5220 }, { 145,5220 }, { 146,5220 }, { 147,5220 }, { 148,5220 },
+ { 149,5220 }, { 150,5220 }, { 151,5220 }, { 152,5220 }, { 153,5220 },
+ { 154,5220 }, { 155,5220 }, { 156,5220 }, { 157,5220 }, { 158,5220 },
+ { 159,5220 }, { 160,5220 }, { 161,5220 }, { 162,5220 }, { 163,5220 },
+
+ { 164,5220 }, { 165,5220 }, { 166,5220 }, { 167,5220 }, { 168,5220 },
+ { 169,5220 }, { 170,5220 }, { 171,5220 }, { 172,5220 }, { 173,5220 },
+ { 174,5220 }, { 175,5220 }, { 176,5220 }, { 177,5220 }, { 178,5220 },
+ { 179,5220 }, { 180,5220 }, { 181,5220 }, { 182,5220 }, { 183,5220 },
+ { 184,5220 }, { 185,5220 }, { 186,5220 }, { 187,5220 }, { 188,5220 },
+ { 189,5220 }, { 190,5220 }, { 191,5220 }, { 192,5220 }, { 193,5220 },
+ { 194,5220 }, { 195,5220 }, { 196,5220 }, { 197,5220 }, { 198,5220 },
+ { 199,5220 }, { 200,5220 }, { 201,5220 }, { 202,5220 }, { 203,5220 },
+ { 204,5220 }, { 205,5220 }, { 206,5220 }, { 207,5220 }, { 208,5220 },
+ { 209,5220 }, { 210,5220 }, { 211,5220 }, { 212,5220 }, { 213,5220 },
+
+ { 214,5220 }, { 215,5220 }, { 216,5220 }, { 217,5220 }, { 218,5220 },
+ { 219,5220 }, { 220,5220 }, { 221,5220 }, { 222,5220 }, { 223,5220 },
+ { 224,5220 }, { 225,5220 }, { 226,5220 }, { 227,5220 }, { 228,5220 },
+ { 229,5220 }, { 230,5220 }, { 231,5220 }, { 232,5220 }, { 233,5220 },
+ { 234,5220 }, { 235,5220 }, { 236,5220 }, { 237,5220 }, { 238,5220 },
+ { 239,5220 }, { 240,5220 }, { 241,5220 }, { 242,5220 }, { 243,5220 },
+ { 244,5220 }, { 245,5220 }, { 246,5220 }, { 247,5220 }, { 248,5220 },
+ { 249,5220 }, { 250,5220 }, { 251,5220 }, { 252,5220 }, { 253,5220 },
+ { 254,5220 }, { 255,5220 }, { 256,5220 }, {   0,  10 }, {   0,15460 },
+ {   1,5478 }, {   2,5478 }, {   3,5478 }, {   4,5478 }, {   5,5478 },
+
+ {   6,5478 }, {   7,5478 }, {   8,5478 }, {   9,5478 }, {  10,5478 },
+ {  11,5478 }, {  12,5478 }, {  13,5478 }, {  14,5478 }, {  15,5478 },
+ {  16,5478 }, {  17,5478 }, {  18,5478 }, {  19,5478 }, {  20,5478 },
+ {  21,5478 }, {  22,5478 }, {  23,5478 }, {  24,5478 }, {  25,5478 },
+ {  26,5478 }, {  27,5478 }, {  28,5478 }, {  29,5478 }, {  30,5478 },
+ {  31,5478 }, {  32,5478 }, {  33,5478 }, {  34,5478 }, {  35,5478 },
+ {  36,5478 }, {  37,5478 }, {  38,5478 }, {  39,5478 }, {  40,5478 },
+ {  41,5478 }, {  42,5478 }, {  43,5478 }, {  44,5478 }, {  45,5478 },
+ {  46,5478 }, {  47,5478 }, {  48,5478 }, {  49,5478 }, {  50,5478 },
+ {  51,5478 }, {  52,5478 }, {  53,5478 }, {  54,5478 }, {  55,5478 },
+
+ {  56,5478 }, {  57,5478 }, {  58,5478 }, {  59,5478 }, {  60,5478 },
+ {  61,5478 }, {  62,5478 }, {  63,5478 }, {  64,5478 }, {  65,5478 },
+ {  66,5478 }, {  67,5478 }, {  68,5478 }, {  69,5478 }, {  70,5478 },
+ {  71,5478 }, {  72,5478 }, {  73,5478 }, {  74,5478 }, {  75,5478 },
+ {  76,5478 }, {  77,5478 }, {  78,5478 }, {  79,5478 }, {  80,5478 },
+ {  81,5478 }, {  82,5478 }, {  83,5478 }, {  84,5478 }, {  85,5478 },
+ {  86,5478 }, {  87,5478 }, {  88,5478 }, {  89,5478 }, {  90,5478 },
+ {  91,5478 }, {  92,5478 }, {  93,5478 }, {  94,5478 }, {  95,5478 },
+ {  96,5478 }, {  97,5478 }, {  98,5478 }, {  99,5478 }, { 100,5478 },
+ { 101,5478 }, { 102,5478 }, { 103,5478 }, { 104,5478 }, { 105,5478 },
+
+ { 106,5478 }, { 107,5478 }, { 108,5478 }, { 109,5478 }, { 110,5478 },
+ { 111,5478 }, { 112,5478 }, { 113,5478 }, { 114,5478 }, { 115,5478 },
+ { 116,5478 }, { 117,5478 }, { 118,5478 }, { 119,5478 }, { 120,5478 },
+ { 121,5478 }, { 122,5478 }, {   0,   0 }, { 124,5478 }, { 125,5478 },
+ { 126,5478 }, { 127,5478 }, { 128,5478 }, { 129,5478 }, { 130,5478 },
+ { 131,5478 }, { 132,5478 }, { 133,5478 }, { 134,5478 }, { 135,5478 },
+ { 136,5478 }, { 137,5478 }, { 138,5478 }, { 139,5478 }, { 140,5478 },
+ { 141,5478 }, { 142,5478 }, { 143,5478 }, { 144,5478 }, { 145,5478 },
+ { 146,5478 }, { 147,5478 }, { 148,5478 }, { 149,5478 }, { 150,5478 },
+ { 151,5478 }, { 152,5478 }, { 153,5478 }, { 154,5478 }, { 155,5478 },
+
+ { 156,5478 }, { 157,5478 }, { 158,5478 }, { 159,5478 }, { 160,5478 },
+ { 161,5478 }, { 162,5478 }, { 163,5478 }, { 164,5478 }, { 165,5478 },
+ { 166,5478 }, { 167,5478 }, { 168,5478 }, { 169,5478 }, { 170,5478 },
+ { 171,5478 }, { 172,5478 }, { 173,5478 }, { 174,5478 }, { 175,5478 },
+ { 176,5478 }, { 177,5478 }, { 178,5478 }, { 179,5478 }, { 180,5478 },
+ { 181,5478 }, { 182,5478 }, { 183,5478 }, { 184,5478 }, { 185,5478 },
+ { 186,5478 }, { 187,5478 }, { 188,5478 }, { 189,5478 }, { 190,5478 },
+ { 191,5478 }, { 192,5478 }, { 193,5478 }, { 194,5478 }, { 195,5478 },
+ { 196,5478 }, { 197,5478 }, { 198,5478 }, { 199,5478 }, { 200,5478 },
+ { 201,5478 }, { 202,5478 }, { 203,5478 }, { 204,5478 }, { 205,5478 },
+
+ { 206,5478 }, { 207,5478 }, { 208,5478 }, { 209,5478 }, { 210,5478 },
+ { 211,5478 }, { 212,5478 }, { 213,5478 }, { 214,5478 }, { 215,5478 },
+ { 216,5478 }, { 217,5478 }, { 218,5478 }, { 219,5478 }, { 220,5478 },
+ { 221,5478 }, { 222,5478 }, { 223,5478 }, { 224,5478 }, { 225,5478 },
+ { 226,5478 }, { 227,5478 }, { 228,5478 }, { 229,5478 }, { 230,5478 },
+ { 231,5478 }, { 232,5478 }, { 233,5478 }, { 234,5478 }, { 235,5478 },
+ { 236,5478 }, { 237,5478 }, { 238,5478 }, { 239,5478 }, { 240,5478 },
+ { 241,5478 }, { 242,5478 }, { 243,5478 }, { 244,5478 }, { 245,5478 },
+ { 246,5478 }, { 247,5478 }, { 248,5478 }, { 249,5478 }, { 250,5478 },
+ { 251,5478 }, { 252,5478 }, { 253,5478 }, { 254,5478 }, { 255,5478 },
+
+ {   0,   2 }, {   0,15203 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+ {   9,   0 }, {  10, 257 }, {  11,   0 }, {  12,   0 }, {  13, 257 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
+ {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+ {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+ {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
 
- {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+ {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+ {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+ {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92, 259 }, {  93,   0 },
+ {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
+ { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, {   0,   2 }, {   0,14946 }, {   0,   0 },
+ {   0,14944 }, {   0,   0 }, {   0,14942 }, {   0,   0 }, {   0,14940 },
+ {   0,   5 }, {   0,14938 }, {   0,   0 }, {  10,   0 }, {   0,  48 },
+ {   0,14934 }, {  13,   0 }, {   0,  35 }, {   0,14931 }, {   0,  38 },
+ {   0,14929 }, {   0,  39 }, {   0,14927 }, {   0,  33 }, {   0,14925 },
+ {   0,  32 }, {   0,14923 }, {   9,   0 }, {  10,   0 }, {   0,  47 },
+ {   0,14919 }, {  13,   0 }, {   0,  49 }, {   0,14916 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  37 }, {   0,14905 },
+
+ {   0,   0 }, {   0,14903 }, {   0,   0 }, {   0,14901 }, {   0,   0 },
+ {  32,   0 }, {   0,  13 }, {   0,14897 }, {   0,   0 }, {   0,   0 },
+ {   0,14894 }, {   0,   0 }, {   0,14892 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,14877 }, {   0,   5 }, {   0,14875 },
+ {   0,  48 }, {   0,14873 }, {   0,  29 }, {   0,14871 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
+ {  92,   2 }, {   0,   0 }, {  92,  52 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,8527 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,   2 },
- {   0,   0 }, {  92,4767 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 123,  65 }, {   0,   0 }, { 123,5215 }, {   0,   0 }, { 123,  63 },
+ {   0,   0 }, {   0,14813 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,12322 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   9,-121 }, {  10,-121 }, {  11,   0 }, {  12,   0 }, {  13,-121 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,-121 }, { 125,7383 },
+ {   0,   0 }, { 125,7386 }, {  36,   0 }, { 125,7386 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-121 }, { 123,8536 }, {   0,   0 },
+ { 123,8536 }, {  45,   0 }, {  46,-121 }, {  47,-121 }, {  48,   0 },
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+
+ { 123,8523 }, {   0,   0 }, {  61,-121 }, {   0,   0 }, {  63,   0 },
+ { 124,8525 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+ {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 },
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
+ { 124,-121 }, { 125,-121 }, { 126,-121 }, { 127,   0 }, { 128,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14555 },
+
+ {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
+ {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
+ {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
+ {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
+ {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
+ {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
+ {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,-374 }, {  35,   0 },
+ {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
+ {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
+ {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
+
+ {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
+ {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
+ {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
+ {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
+ {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
+ {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
+ {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
+ {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
+ {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
+ {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
+
+ { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
+ { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
+ { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
+ { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
+ { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 },
+ { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
+ { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
+ { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
+ { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
+ { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
+
+ { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
+ { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
+ { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
+ { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
+ { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
+ { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
+ { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
+ { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
+ { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
+ { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
+
+ { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
+ { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
+ { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
+ { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
+ { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
+ { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
+ { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
+ { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
+ { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
+ { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
+
+ { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
+ { 256,   0 }, {   0,   0 }, {   0,14297 }, {   1,-258 }, {   2,-258 },
+ {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
+ {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
+ {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
+ {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
+ {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
+ {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
+ {  33,-258 }, {  34,4829 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
+ {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
+
+ {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
+ {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
+ {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
+ {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
+ {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
+ {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
+ {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
+ {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
+ {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
+ {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 },
+
+ {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
+ {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
+ { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
+ { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
+ { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
+ { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
+ { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
+ { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
+ { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
+ { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
+
+ { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
+ { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
+ { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
+ { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
+ { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
+ { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
+ { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
+ { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
+ { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
+ { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
+
+ { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
+ { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
+ { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
+ { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
+ { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
+ { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
+ { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
+ { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
+ { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
+ { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
+
+ { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
+ { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
+ { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
+ {   0,14039 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
+ {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
  {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
  {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
  {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
 
+ {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,-888 },
  {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
  {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
  {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
@@ -2282,19 +2624,19 @@ static const struct yy_trans_info yy_transition[20137] =
  {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
  {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
  {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
 
- {  90,   0 }, {  91,   0 }, {  92,-121 }, {  93,   0 }, {  94,   0 },
+ {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
+ {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 },
  {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
  { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
  { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
  { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
  { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
+ { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
  { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
  { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
 
+ { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
  { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
  { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
  { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
@@ -2304,8 +2646,8 @@ static const struct yy_trans_info yy_transition[20137] =
  { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
  { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
  { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
 
+ { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
  { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
  { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
  { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
@@ -2315,921 +2657,2043 @@ static const struct yy_trans_info yy_transition[20137] =
  { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
  { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
  { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
 
+ { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,12065 }, {   0,   0 }, {   0,12063 },
- {   0,   5 }, {   0,12061 }, {   0,  48 }, {   0,12059 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,12034 }, {   1,   0 },
-
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
- {  12,   0 }, {  13, -25 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32, -25 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, -25 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {  46, -25 },
- {  47, -25 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,13781 }, {   1,-258 },
+ {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
+ {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
+ {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
+ {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
+ {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
 
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {  61, -25 },
- {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
- { 123,4391 }, {   0,   0 }, { 123,4514 }, {  95,   0 }, { 123,4389 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
+ {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
+ {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 },
+ {  37,-258 }, {  38,-258 }, {  39,4571 }, {  40,-258 }, {  41,-258 },
+ {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 },
+ {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
+ {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
+ {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
+ {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
+ {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
+ {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
 
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, { 124, -25 }, { 125, -25 }, { 126, -25 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
-
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
-
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
-
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,11776 }, {   0,  38 }, {   0,11774 }, {   0,  39 },
- {   0,11772 }, {   0,  33 }, {   0,11770 }, {   0,  32 }, {   0,11768 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11764 }, {  13,   0 },
- {   0,  49 }, {   0,11761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,11742 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
-
- {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34, -32 },
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
- {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
- {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
-
- {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
- {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 },
- {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
-
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
- { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
-
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
-
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11484 }, {   1,-258 },
-
- {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
- {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
- {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
- {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
- {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
- {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
- {  32,-258 }, {  33,-258 }, {  34,4192 }, {  35,-258 }, {  36,-258 },
- {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
- {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 },
- {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
-
- {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
- {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
- {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
- {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
- {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
  {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
  {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
  {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
  {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
  {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
-
  { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
  { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
  { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
  { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
  { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
+
  { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
  { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
  { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
  { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
  { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
-
  { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
  { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
  { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
  { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
  { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
+
  { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
  { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
  { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
  { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
  { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
-
  { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
  { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
  { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
  { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
  { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
+
  { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
  { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
  { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
  { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
-
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,11226 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,-546 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
-
- {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+ {   0,   0 }, {   0,13523 }, {   1,-1290 }, {   2,-1290 }, {   3,-1290 },
+ {   4,-1290 }, {   5,-1290 }, {   6,-1290 }, {   7,-1290 }, {   8,-1290 },
+ {   9,-1396 }, {  10,-1396 }, {  11,-1290 }, {  12,-1290 }, {  13,-1396 },
+ {  14,-1290 }, {  15,-1290 }, {  16,-1290 }, {  17,-1290 }, {  18,-1290 },
+
+ {  19,-1290 }, {  20,-1290 }, {  21,-1290 }, {  22,-1290 }, {  23,-1290 },
+ {  24,-1290 }, {  25,-1290 }, {  26,-1290 }, {  27,-1290 }, {  28,-1290 },
+ {  29,-1290 }, {  30,-1290 }, {  31,-1290 }, {  32,-1396 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-1290 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-1396 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-1290 }, {  46, 258 }, {  47,-1411 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,-1290 },
+ {   0,   0 }, {   0,   0 }, {  61,-1411 }, {   0,   0 }, {  63,-1290 },
+ {   0,   0 }, {  65,-1290 }, {  66,-1290 }, {  67,-1290 }, {  68,-1290 },
 
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ {  69,-1290 }, {  70,-1290 }, {  71,-1290 }, {  72,-1290 }, {  73,-1290 },
+ {  74,-1290 }, {  75,-1290 }, {  76,-1290 }, {  77,-1290 }, {  78,-1290 },
+ {  79,-1290 }, {  80,-1290 }, {  81,-1290 }, {  82,-1290 }, {  83,-1290 },
+ {  84,-1290 }, {  85,-1290 }, {  86,-1290 }, {  87,-1290 }, {  88,-1290 },
+ {  89,-1290 }, {  90,-1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-1290 }, {   0,   0 }, {  97,-1290 }, {  98,-1290 },
+ {  99,-1290 }, { 100,-1290 }, { 101,-1290 }, { 102,-1290 }, { 103,-1290 },
+ { 104,-1290 }, { 105,-1290 }, { 106,-1290 }, { 107,-1290 }, { 108,-1290 },
+ { 109,-1290 }, { 110,-1290 }, { 111,-1290 }, { 112,-1290 }, { 113,-1290 },
+ { 114,-1290 }, { 115,-1290 }, { 116,-1290 }, { 117,-1290 }, { 118,-1290 },
 
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 119,-1290 }, { 120,-1290 }, { 121,-1290 }, { 122,-1290 }, {   0,   0 },
+ { 124,-1411 }, { 125,-1396 }, { 126,-1396 }, { 127,-1290 }, { 128,-1290 },
+ { 129,-1290 }, { 130,-1290 }, { 131,-1290 }, { 132,-1290 }, { 133,-1290 },
+ { 134,-1290 }, { 135,-1290 }, { 136,-1290 }, { 137,-1290 }, { 138,-1290 },
+ { 139,-1290 }, { 140,-1290 }, { 141,-1290 }, { 142,-1290 }, { 143,-1290 },
+ { 144,-1290 }, { 145,-1290 }, { 146,-1290 }, { 147,-1290 }, { 148,-1290 },
+ { 149,-1290 }, { 150,-1290 }, { 151,-1290 }, { 152,-1290 }, { 153,-1290 },
+ { 154,-1290 }, { 155,-1290 }, { 156,-1290 }, { 157,-1290 }, { 158,-1290 },
+ { 159,-1290 }, { 160,-1290 }, { 161,-1290 }, { 162,-1290 }, { 163,-1290 },
+ { 164,-1290 }, { 165,-1290 }, { 166,-1290 }, { 167,-1290 }, { 168,-1290 },
 
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 169,-1290 }, { 170,-1290 }, { 171,-1290 }, { 172,-1290 }, { 173,-1290 },
+ { 174,-1290 }, { 175,-1290 }, { 176,-1290 }, { 177,-1290 }, { 178,-1290 },
+ { 179,-1290 }, { 180,-1290 }, { 181,-1290 }, { 182,-1290 }, { 183,-1290 },
+ { 184,-1290 }, { 185,-1290 }, { 186,-1290 }, { 187,-1290 }, { 188,-1290 },
+ { 189,-1290 }, { 190,-1290 }, { 191,-1290 }, { 192,-1290 }, { 193,-1290 },
+ { 194,-1290 }, { 195,-1290 }, { 196,-1290 }, { 197,-1290 }, { 198,-1290 },
+ { 199,-1290 }, { 200,-1290 }, { 201,-1290 }, { 202,-1290 }, { 203,-1290 },
+ { 204,-1290 }, { 205,-1290 }, { 206,-1290 }, { 207,-1290 }, { 208,-1290 },
+ { 209,-1290 }, { 210,-1290 }, { 211,-1290 }, { 212,-1290 }, { 213,-1290 },
+ { 214,-1290 }, { 215,-1290 }, { 216,-1290 }, { 217,-1290 }, { 218,-1290 },
 
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10968 },
- {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
- {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
- {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
- {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
- {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
- {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+ { 219,-1290 }, { 220,-1290 }, { 221,-1290 }, { 222,-1290 }, { 223,-1290 },
+ { 224,-1290 }, { 225,-1290 }, { 226,-1290 }, { 227,-1290 }, { 228,-1290 },
+ { 229,-1290 }, { 230,-1290 }, { 231,-1290 }, { 232,-1290 }, { 233,-1290 },
+ { 234,-1290 }, { 235,-1290 }, { 236,-1290 }, { 237,-1290 }, { 238,-1290 },
+ { 239,-1290 }, { 240,-1290 }, { 241,-1290 }, { 242,-1290 }, { 243,-1290 },
+ { 244,-1290 }, { 245,-1290 }, { 246,-1290 }, { 247,-1290 }, { 248,-1290 },
+ { 249,-1290 }, { 250,-1290 }, { 251,-1290 }, { 252,-1290 }, { 253,-1290 },
+ { 254,-1290 }, { 255,-1290 }, { 256,-1290 }, {   0,  48 }, {   0,13265 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,3934 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
- {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
- {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
- {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
- {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
- {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
- {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
- {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  48,4313 }, {  49,4313 }, {  50,4313 },
+ {  51,4313 }, {  52,4313 }, {  53,4313 }, {  54,4313 }, {  55,4313 },
+ {  56,4313 }, {  57,4313 }, {   0,   0 }, {   0,13206 }, {   1,   0 },
 
- {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
- {  91,-258 }, {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
- {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
- { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
- { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
- { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
- { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
- { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+ {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
+ {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
+ {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
+ {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
+ {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
+ {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
+ {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
+ {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
+ {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 },
+ {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
 
- { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
- { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
- { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
- { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
- { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
- { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
- { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
- { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
- { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+ {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
+ {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
+ {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
+ {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
+ {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
+ {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
+ {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
+ {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
+ {  92, 258 }, {  93,-1710 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
+ {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
 
- { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
- { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
- { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
- { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
- { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
- { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
- { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
- { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
- { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+ { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
+ { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
+ { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
+ { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
+ { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
+ { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
+ { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
+ { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
+ { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
+ { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
 
- { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
- { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
- { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
- { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,10710 }, {   1,-1324 }, {   2,-1324 },
- {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
- {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
- {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
- {  18,-1324 }, {  19,-1324 }, {  20,-1324 }, {  21,-1324 }, {  22,-1324 },
- {  23,-1324 }, {  24,-1324 }, {  25,-1324 }, {  26,-1324 }, {  27,-1324 },
-
- {  28,-1324 }, {  29,-1324 }, {  30,-1324 }, {  31,-1324 }, {  32,-1054 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-1324 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-1054 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-1324 }, {  46, 258 }, {  47,-1349 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,-1324 }, {   0,   0 }, {   0,   0 }, {  61,-1349 }, {   0,   0 },
- {  63,-1324 }, {   0,   0 }, {  65,-1324 }, {  66,-1324 }, {  67,-1324 },
- {  68,-1324 }, {  69,-1324 }, {  70,-1324 }, {  71,-1324 }, {  72,-1324 },
- {  73,-1324 }, {  74,-1324 }, {  75,-1324 }, {  76,-1324 }, {  77,-1324 },
-
- {  78,-1324 }, {  79,-1324 }, {  80,-1324 }, {  81,-1324 }, {  82,-1324 },
- {  83,-1324 }, {  84,-1324 }, {  85,-1324 }, {  86,-1324 }, {  87,-1324 },
- {  88,-1324 }, {  89,-1324 }, {  90,-1324 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-1324 }, {   0,   0 }, {  97,-1324 },
- {  98,-1324 }, {  99,-1324 }, { 100,-1324 }, { 101,-1324 }, { 102,-1324 },
- { 103,-1324 }, { 104,-1324 }, { 105,-1324 }, { 106,-1324 }, { 107,-1324 },
- { 108,-1324 }, { 109,-1324 }, { 110,-1324 }, { 111,-1324 }, { 112,-1324 },
- { 113,-1324 }, { 114,-1324 }, { 115,-1324 }, { 116,-1324 }, { 117,-1324 },
- { 118,-1324 }, { 119,-1324 }, { 120,-1324 }, { 121,-1324 }, { 122,-1324 },
- {   0,   0 }, { 124,-1349 }, { 125,-1054 }, { 126,-1054 }, { 127,-1324 },
-
- { 128,-1324 }, { 129,-1324 }, { 130,-1324 }, { 131,-1324 }, { 132,-1324 },
- { 133,-1324 }, { 134,-1324 }, { 135,-1324 }, { 136,-1324 }, { 137,-1324 },
- { 138,-1324 }, { 139,-1324 }, { 140,-1324 }, { 141,-1324 }, { 142,-1324 },
- { 143,-1324 }, { 144,-1324 }, { 145,-1324 }, { 146,-1324 }, { 147,-1324 },
- { 148,-1324 }, { 149,-1324 }, { 150,-1324 }, { 151,-1324 }, { 152,-1324 },
- { 153,-1324 }, { 154,-1324 }, { 155,-1324 }, { 156,-1324 }, { 157,-1324 },
- { 158,-1324 }, { 159,-1324 }, { 160,-1324 }, { 161,-1324 }, { 162,-1324 },
- { 163,-1324 }, { 164,-1324 }, { 165,-1324 }, { 166,-1324 }, { 167,-1324 },
- { 168,-1324 }, { 169,-1324 }, { 170,-1324 }, { 171,-1324 }, { 172,-1324 },
- { 173,-1324 }, { 174,-1324 }, { 175,-1324 }, { 176,-1324 }, { 177,-1324 },
-
- { 178,-1324 }, { 179,-1324 }, { 180,-1324 }, { 181,-1324 }, { 182,-1324 },
- { 183,-1324 }, { 184,-1324 }, { 185,-1324 }, { 186,-1324 }, { 187,-1324 },
- { 188,-1324 }, { 189,-1324 }, { 190,-1324 }, { 191,-1324 }, { 192,-1324 },
- { 193,-1324 }, { 194,-1324 }, { 195,-1324 }, { 196,-1324 }, { 197,-1324 },
- { 198,-1324 }, { 199,-1324 }, { 200,-1324 }, { 201,-1324 }, { 202,-1324 },
- { 203,-1324 }, { 204,-1324 }, { 205,-1324 }, { 206,-1324 }, { 207,-1324 },
- { 208,-1324 }, { 209,-1324 }, { 210,-1324 }, { 211,-1324 }, { 212,-1324 },
- { 213,-1324 }, { 214,-1324 }, { 215,-1324 }, { 216,-1324 }, { 217,-1324 },
- { 218,-1324 }, { 219,-1324 }, { 220,-1324 }, { 221,-1324 }, { 222,-1324 },
- { 223,-1324 }, { 224,-1324 }, { 225,-1324 }, { 226,-1324 }, { 227,-1324 },
-
- { 228,-1324 }, { 229,-1324 }, { 230,-1324 }, { 231,-1324 }, { 232,-1324 },
- { 233,-1324 }, { 234,-1324 }, { 235,-1324 }, { 236,-1324 }, { 237,-1324 },
- { 238,-1324 }, { 239,-1324 }, { 240,-1324 }, { 241,-1324 }, { 242,-1324 },
- { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
- { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
- { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,10452 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
- {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10393 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
+ { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
+ { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
+ { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+ { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
+ { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
+ { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
+ { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
+ { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
+ { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
+ { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
 
- {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
- {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
- {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
- {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
+ { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
+ { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
+ { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+ { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
+ { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
+ { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
+ { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
+ { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
+ { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
+ { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
- {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {  91,   0 }, {  92, 258 }, {  93,-1368 }, {  94,   0 }, {  95,   0 },
- {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
+ { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
+ {   0,   0 }, {   0,12948 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
+ {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 },
+ {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 },
+ {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 },
+ {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 },
+ {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 },
+ {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 },
+ {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 },
+ {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 },
 
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 },
- { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
+ {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 }, {  48,-258 },
+ {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 },
+ {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 },
+ {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 },
+ {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 },
+ {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 },
+ {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 },
+ {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 },
+ {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 },
+ {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 }, {  93,4124 },
 
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
+ {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 },
+ {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 },
+ { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 },
+ { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 },
+ { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 },
+ { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 },
+ { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 },
+ { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 },
+ { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 },
+ { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 },
 
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,10135 }, {   1,-258 }, {   2,-258 },
+ { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 },
+ { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 },
+ { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 },
+ { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 },
+ { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 },
+ { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 },
+ { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 },
+ { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 },
+ { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 },
+ { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 },
 
- {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
- {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
- {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
- {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
- {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
- {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
- {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
- {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
- {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
- {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
+ { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 },
+ { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 },
+ { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 },
+ { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 },
+ { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 },
+ { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 },
+ { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 },
+ { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 },
+ { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 },
+ { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 },
 
- {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
- {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
- {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
- {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
- {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
- {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
- {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
- {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 },
- {  93,3487 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
- {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
+ { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 },
+ { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 },
+ { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,12690 },
+ {   1,-2123 }, {   2,-2123 }, {   3,-2123 }, {   4,-2123 }, {   5,-2123 },
+ {   6,-2123 }, {   7,-2123 }, {   8,-2123 }, {   9,-2183 }, {  10,-2183 },
+ {  11,-2123 }, {  12,-2123 }, {  13,-2183 }, {  14,-2123 }, {  15,-2123 },
+ {  16,-2123 }, {  17,-2123 }, {  18,-2123 }, {  19,-2123 }, {  20,-2123 },
+ {  21,-2123 }, {  22,-2123 }, {  23,-2123 }, {  24,-2123 }, {  25,-2123 },
+ {  26,-2123 }, {  27,-2123 }, {  28,-2123 }, {  29,-2123 }, {  30,-2123 },
+ {  31,-2123 }, {  32,-2183 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  36,-2123 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-2244 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2123 },
+ {  46,-2244 }, {  47,-2244 }, {  48,-2123 }, {  49,-2123 }, {  50,-2123 },
+ {  51,-2123 }, {  52,-2123 }, {  53,-2123 }, {  54,-2123 }, {  55,-2123 },
+ {  56,-2123 }, {  57,-2123 }, {  58,-2123 }, {   0,   0 }, {   0,   0 },
+ {  61,-2244 }, {   0,   0 }, {  63,-2123 }, {   0,   0 }, {  65,-2123 },
+ {  66,-2123 }, {  67,-2123 }, {  68,-2123 }, {  69,-2123 }, {  70,-2123 },
+ {  71,-2123 }, {  72,-2123 }, {  73,-2123 }, {  74,-2123 }, {  75,-2123 },
+ {  76,-2123 }, {  77,-2123 }, {  78,-2123 }, {  79,-2123 }, {  80,-2123 },
+ {  81,-2123 }, {  82,-2123 }, {  83,-2123 }, {  84,-2123 }, {  85,-2123 },
+
+ {  86,-2123 }, {  87,-2123 }, {  88,-2123 }, {  89,-2123 }, {  90,-2123 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2123 },
+ {   0,   0 }, {  97,-2123 }, {  98,-2123 }, {  99,-2123 }, { 100,-2123 },
+ { 101,-2123 }, { 102,-2123 }, { 103,-2123 }, { 104,-2123 }, { 105,-2123 },
+ { 106,-2123 }, { 107,-2123 }, { 108,-2123 }, { 109,-2123 }, { 110,-2123 },
+ { 111,-2123 }, { 112,-2123 }, { 113,-2123 }, { 114,-2123 }, { 115,-2123 },
+ { 116,-2123 }, { 117,-2123 }, { 118,-2123 }, { 119,-2123 }, { 120,-2123 },
+ { 121,-2123 }, { 122,-2123 }, {   0,   0 }, { 124,-2244 }, { 125,-2244 },
+ { 126,-2244 }, { 127,-2123 }, { 128,-2123 }, { 129,-2123 }, { 130,-2123 },
+ { 131,-2123 }, { 132,-2123 }, { 133,-2123 }, { 134,-2123 }, { 135,-2123 },
+
+ { 136,-2123 }, { 137,-2123 }, { 138,-2123 }, { 139,-2123 }, { 140,-2123 },
+ { 141,-2123 }, { 142,-2123 }, { 143,-2123 }, { 144,-2123 }, { 145,-2123 },
+ { 146,-2123 }, { 147,-2123 }, { 148,-2123 }, { 149,-2123 }, { 150,-2123 },
+ { 151,-2123 }, { 152,-2123 }, { 153,-2123 }, { 154,-2123 }, { 155,-2123 },
+ { 156,-2123 }, { 157,-2123 }, { 158,-2123 }, { 159,-2123 }, { 160,-2123 },
+ { 161,-2123 }, { 162,-2123 }, { 163,-2123 }, { 164,-2123 }, { 165,-2123 },
+ { 166,-2123 }, { 167,-2123 }, { 168,-2123 }, { 169,-2123 }, { 170,-2123 },
+ { 171,-2123 }, { 172,-2123 }, { 173,-2123 }, { 174,-2123 }, { 175,-2123 },
+ { 176,-2123 }, { 177,-2123 }, { 178,-2123 }, { 179,-2123 }, { 180,-2123 },
+ { 181,-2123 }, { 182,-2123 }, { 183,-2123 }, { 184,-2123 }, { 185,-2123 },
+
+ { 186,-2123 }, { 187,-2123 }, { 188,-2123 }, { 189,-2123 }, { 190,-2123 },
+ { 191,-2123 }, { 192,-2123 }, { 193,-2123 }, { 194,-2123 }, { 195,-2123 },
+ { 196,-2123 }, { 197,-2123 }, { 198,-2123 }, { 199,-2123 }, { 200,-2123 },
+ { 201,-2123 }, { 202,-2123 }, { 203,-2123 }, { 204,-2123 }, { 205,-2123 },
+ { 206,-2123 }, { 207,-2123 }, { 208,-2123 }, { 209,-2123 }, { 210,-2123 },
+ { 211,-2123 }, { 212,-2123 }, { 213,-2123 }, { 214,-2123 }, { 215,-2123 },
+ { 216,-2123 }, { 217,-2123 }, { 218,-2123 }, { 219,-2123 }, { 220,-2123 },
+ { 221,-2123 }, { 222,-2123 }, { 223,-2123 }, { 224,-2123 }, { 225,-2123 },
+ { 226,-2123 }, { 227,-2123 }, { 228,-2123 }, { 229,-2123 }, { 230,-2123 },
+ { 231,-2123 }, { 232,-2123 }, { 233,-2123 }, { 234,-2123 }, { 235,-2123 },
+
+ { 236,-2123 }, { 237,-2123 }, { 238,-2123 }, { 239,-2123 }, { 240,-2123 },
+ { 241,-2123 }, { 242,-2123 }, { 243,-2123 }, { 244,-2123 }, { 245,-2123 },
+ { 246,-2123 }, { 247,-2123 }, { 248,-2123 }, { 249,-2123 }, { 250,-2123 },
+ { 251,-2123 }, { 252,-2123 }, { 253,-2123 }, { 254,-2123 }, { 255,-2123 },
+ { 256,-2123 }, {   0,   0 }, {   0,12432 }, {   1,-2381 }, {   2,-2381 },
+ {   3,-2381 }, {   4,-2381 }, {   5,-2381 }, {   6,-2381 }, {   7,-2381 },
+ {   8,-2381 }, {   9,-2502 }, {  10,-2502 }, {  11,-2381 }, {  12,-2381 },
+ {  13,-2502 }, {  14,-2381 }, {  15,-2381 }, {  16,-2381 }, {  17,-2381 },
+ {  18,-2381 }, {  19,-2381 }, {  20,-2381 }, {  21,-2381 }, {  22,-2381 },
+ {  23,-2381 }, {  24,-2381 }, {  25,-2381 }, {  26,-2381 }, {  27,-2381 },
+
+ {  28,-2381 }, {  29,-2381 }, {  30,-2381 }, {  31,-2381 }, {  32,-2502 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2381 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-2502 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-2381 }, {  46,-2502 }, {  47,-2502 },
+ {  48,-2381 }, {  49,-2381 }, {  50,-2381 }, {  51,-2381 }, {  52,-2381 },
+ {  53,-2381 }, {  54,-2381 }, {  55,-2381 }, {  56,-2381 }, {  57,-2381 },
+ {  58,-2381 }, {   0,   0 }, {   0,   0 }, {  61,-2502 }, {   0,   0 },
+ {  63,-2381 }, {   0,   0 }, {  65,-2381 }, {  66,-2381 }, {  67,-2381 },
+ {  68,-2381 }, {  69,-2381 }, {  70,-2381 }, {  71,-2381 }, {  72,-2381 },
+ {  73,-2381 }, {  74,-2381 }, {  75,-2381 }, {  76,-2381 }, {  77,-2381 },
+
+ {  78,-2381 }, {  79,-2381 }, {  80,-2381 }, {  81,-2381 }, {  82,-2381 },
+ {  83,-2381 }, {  84,-2381 }, {  85,-2381 }, {  86,-2381 }, {  87,-2381 },
+ {  88,-2381 }, {  89,-2381 }, {  90,-2381 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-2381 }, {   0,   0 }, {  97,-2381 },
+ {  98,-2381 }, {  99,-2381 }, { 100,-2381 }, { 101,-2381 }, { 102,-2381 },
+ { 103,-2381 }, { 104,-2381 }, { 105,-2381 }, { 106,-2381 }, { 107,-2381 },
+ { 108,3866 }, { 109,-2381 }, { 110,-2381 }, { 111,-2381 }, { 112,-2381 },
+ { 113,-2381 }, { 114,-2381 }, { 115,-2381 }, { 116,-2381 }, { 117,-2381 },
+ { 118,-2381 }, { 119,-2381 }, { 120,-2381 }, { 121,-2381 }, { 122,-2381 },
+ {   0,   0 }, { 124,-2502 }, { 125,-2502 }, { 126,-2502 }, { 127,-2381 },
+
+ { 128,-2381 }, { 129,-2381 }, { 130,-2381 }, { 131,-2381 }, { 132,-2381 },
+ { 133,-2381 }, { 134,-2381 }, { 135,-2381 }, { 136,-2381 }, { 137,-2381 },
+ { 138,-2381 }, { 139,-2381 }, { 140,-2381 }, { 141,-2381 }, { 142,-2381 },
+ { 143,-2381 }, { 144,-2381 }, { 145,-2381 }, { 146,-2381 }, { 147,-2381 },
+ { 148,-2381 }, { 149,-2381 }, { 150,-2381 }, { 151,-2381 }, { 152,-2381 },
+ { 153,-2381 }, { 154,-2381 }, { 155,-2381 }, { 156,-2381 }, { 157,-2381 },
+ { 158,-2381 }, { 159,-2381 }, { 160,-2381 }, { 161,-2381 }, { 162,-2381 },
+ { 163,-2381 }, { 164,-2381 }, { 165,-2381 }, { 166,-2381 }, { 167,-2381 },
+ { 168,-2381 }, { 169,-2381 }, { 170,-2381 }, { 171,-2381 }, { 172,-2381 },
+ { 173,-2381 }, { 174,-2381 }, { 175,-2381 }, { 176,-2381 }, { 177,-2381 },
+
+ { 178,-2381 }, { 179,-2381 }, { 180,-2381 }, { 181,-2381 }, { 182,-2381 },
+ { 183,-2381 }, { 184,-2381 }, { 185,-2381 }, { 186,-2381 }, { 187,-2381 },
+ { 188,-2381 }, { 189,-2381 }, { 190,-2381 }, { 191,-2381 }, { 192,-2381 },
+ { 193,-2381 }, { 194,-2381 }, { 195,-2381 }, { 196,-2381 }, { 197,-2381 },
+ { 198,-2381 }, { 199,-2381 }, { 200,-2381 }, { 201,-2381 }, { 202,-2381 },
+ { 203,-2381 }, { 204,-2381 }, { 205,-2381 }, { 206,-2381 }, { 207,-2381 },
+ { 208,-2381 }, { 209,-2381 }, { 210,-2381 }, { 211,-2381 }, { 212,-2381 },
+ { 213,-2381 }, { 214,-2381 }, { 215,-2381 }, { 216,-2381 }, { 217,-2381 },
+ { 218,-2381 }, { 219,-2381 }, { 220,-2381 }, { 221,-2381 }, { 222,-2381 },
+ { 223,-2381 }, { 224,-2381 }, { 225,-2381 }, { 226,-2381 }, { 227,-2381 },
+
+ { 228,-2381 }, { 229,-2381 }, { 230,-2381 }, { 231,-2381 }, { 232,-2381 },
+ { 233,-2381 }, { 234,-2381 }, { 235,-2381 }, { 236,-2381 }, { 237,-2381 },
+ { 238,-2381 }, { 239,-2381 }, { 240,-2381 }, { 241,-2381 }, { 242,-2381 },
+ { 243,-2381 }, { 244,-2381 }, { 245,-2381 }, { 246,-2381 }, { 247,-2381 },
+ { 248,-2381 }, { 249,-2381 }, { 250,-2381 }, { 251,-2381 }, { 252,-2381 },
+ { 253,-2381 }, { 254,-2381 }, { 255,-2381 }, { 256,-2381 }, {   0,   0 },
+ {   0,12174 }, {   1,-2639 }, {   2,-2639 }, {   3,-2639 }, {   4,-2639 },
+ {   5,-2639 }, {   6,-2639 }, {   7,-2639 }, {   8,-2639 }, {   9,-2760 },
+ {  10,-2760 }, {  11,-2639 }, {  12,-2639 }, {  13,-2760 }, {  14,-2639 },
+ {  15,-2639 }, {  16,-2639 }, {  17,-2639 }, {  18,-2639 }, {  19,-2639 },
+
+ {  20,-2639 }, {  21,-2639 }, {  22,-2639 }, {  23,-2639 }, {  24,-2639 },
+ {  25,-2639 }, {  26,-2639 }, {  27,-2639 }, {  28,-2639 }, {  29,-2639 },
+ {  30,-2639 }, {  31,-2639 }, {  32,-2760 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-2639 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-2760 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-2639 }, {  46,-2760 }, {  47,-2760 }, {  48,-2639 }, {  49,-2639 },
+ {  50,-2639 }, {  51,-2639 }, {  52,-2639 }, {  53,-2639 }, {  54,-2639 },
+ {  55,-2639 }, {  56,-2639 }, {  57,-2639 }, {  58,-2639 }, {   0,   0 },
+ {   0,   0 }, {  61,-2760 }, {   0,   0 }, {  63,-2639 }, {   0,   0 },
+ {  65,-2639 }, {  66,-2639 }, {  67,-2639 }, {  68,-2639 }, {  69,-2639 },
+
+ {  70,-2639 }, {  71,-2639 }, {  72,-2639 }, {  73,-2639 }, {  74,-2639 },
+ {  75,-2639 }, {  76,-2639 }, {  77,-2639 }, {  78,-2639 }, {  79,-2639 },
+ {  80,-2639 }, {  81,-2639 }, {  82,-2639 }, {  83,-2639 }, {  84,-2639 },
+ {  85,-2639 }, {  86,-2639 }, {  87,-2639 }, {  88,-2639 }, {  89,-2639 },
+ {  90,-2639 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-2639 }, {   0,   0 }, {  97,-2639 }, {  98,-2639 }, {  99,-2639 },
+ { 100,-2639 }, { 101,-2639 }, { 102,-2639 }, { 103,-2639 }, { 104,-2639 },
+ { 105,-2639 }, { 106,-2639 }, { 107,-2639 }, { 108,3866 }, { 109,-2639 },
+ { 110,-2639 }, { 111,-2639 }, { 112,-2639 }, { 113,-2639 }, { 114,-2639 },
+ { 115,-2639 }, { 116,-2639 }, { 117,-2639 }, { 118,-2639 }, { 119,-2639 },
+
+ { 120,-2639 }, { 121,-2639 }, { 122,-2639 }, {   0,   0 }, { 124,-2760 },
+ { 125,-2760 }, { 126,-2760 }, { 127,-2639 }, { 128,-2639 }, { 129,-2639 },
+ { 130,-2639 }, { 131,-2639 }, { 132,-2639 }, { 133,-2639 }, { 134,-2639 },
+ { 135,-2639 }, { 136,-2639 }, { 137,-2639 }, { 138,-2639 }, { 139,-2639 },
+ { 140,-2639 }, { 141,-2639 }, { 142,-2639 }, { 143,-2639 }, { 144,-2639 },
+ { 145,-2639 }, { 146,-2639 }, { 147,-2639 }, { 148,-2639 }, { 149,-2639 },
+ { 150,-2639 }, { 151,-2639 }, { 152,-2639 }, { 153,-2639 }, { 154,-2639 },
+ { 155,-2639 }, { 156,-2639 }, { 157,-2639 }, { 158,-2639 }, { 159,-2639 },
+ { 160,-2639 }, { 161,-2639 }, { 162,-2639 }, { 163,-2639 }, { 164,-2639 },
+ { 165,-2639 }, { 166,-2639 }, { 167,-2639 }, { 168,-2639 }, { 169,-2639 },
+
+ { 170,-2639 }, { 171,-2639 }, { 172,-2639 }, { 173,-2639 }, { 174,-2639 },
+ { 175,-2639 }, { 176,-2639 }, { 177,-2639 }, { 178,-2639 }, { 179,-2639 },
+ { 180,-2639 }, { 181,-2639 }, { 182,-2639 }, { 183,-2639 }, { 184,-2639 },
+ { 185,-2639 }, { 186,-2639 }, { 187,-2639 }, { 188,-2639 }, { 189,-2639 },
+ { 190,-2639 }, { 191,-2639 }, { 192,-2639 }, { 193,-2639 }, { 194,-2639 },
+ { 195,-2639 }, { 196,-2639 }, { 197,-2639 }, { 198,-2639 }, { 199,-2639 },
+ { 200,-2639 }, { 201,-2639 }, { 202,-2639 }, { 203,-2639 }, { 204,-2639 },
+ { 205,-2639 }, { 206,-2639 }, { 207,-2639 }, { 208,-2639 }, { 209,-2639 },
+ { 210,-2639 }, { 211,-2639 }, { 212,-2639 }, { 213,-2639 }, { 214,-2639 },
+ { 215,-2639 }, { 216,-2639 }, { 217,-2639 }, { 218,-2639 }, { 219,-2639 },
+
+ { 220,-2639 }, { 221,-2639 }, { 222,-2639 }, { 223,-2639 }, { 224,-2639 },
+ { 225,-2639 }, { 226,-2639 }, { 227,-2639 }, { 228,-2639 }, { 229,-2639 },
+ { 230,-2639 }, { 231,-2639 }, { 232,-2639 }, { 233,-2639 }, { 234,-2639 },
+ { 235,-2639 }, { 236,-2639 }, { 237,-2639 }, { 238,-2639 }, { 239,-2639 },
+ { 240,-2639 }, { 241,-2639 }, { 242,-2639 }, { 243,-2639 }, { 244,-2639 },
+ { 245,-2639 }, { 246,-2639 }, { 247,-2639 }, { 248,-2639 }, { 249,-2639 },
+ { 250,-2639 }, { 251,-2639 }, { 252,-2639 }, { 253,-2639 }, { 254,-2639 },
+ { 255,-2639 }, { 256,-2639 }, {   0,   0 }, {   0,11916 }, {   1,-2897 },
+ {   2,-2897 }, {   3,-2897 }, {   4,-2897 }, {   5,-2897 }, {   6,-2897 },
+ {   7,-2897 }, {   8,-2897 }, {   9,-3018 }, {  10,-3018 }, {  11,-2897 },
+
+ {  12,-2897 }, {  13,-3018 }, {  14,-2897 }, {  15,-2897 }, {  16,-2897 },
+ {  17,-2897 }, {  18,-2897 }, {  19,-2897 }, {  20,-2897 }, {  21,-2897 },
+ {  22,-2897 }, {  23,-2897 }, {  24,-2897 }, {  25,-2897 }, {  26,-2897 },
+ {  27,-2897 }, {  28,-2897 }, {  29,-2897 }, {  30,-2897 }, {  31,-2897 },
+ {  32,-3018 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2897 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-3018 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2897 }, {  46,-3018 },
+ {  47,-3018 }, {  48,-2897 }, {  49,-2897 }, {  50,-2897 }, {  51,-2897 },
+ {  52,-2897 }, {  53,-2897 }, {  54,-2897 }, {  55,-2897 }, {  56,-2897 },
+ {  57,-2897 }, {  58,-2897 }, {   0,   0 }, {   0,   0 }, {  61,-3018 },
+
+ {   0,   0 }, {  63,-2897 }, {   0,   0 }, {  65,-2897 }, {  66,-2897 },
+ {  67,-2897 }, {  68,-2897 }, {  69,-2897 }, {  70,-2897 }, {  71,-2897 },
+ {  72,-2897 }, {  73,-2897 }, {  74,-2897 }, {  75,-2897 }, {  76,-2897 },
+ {  77,-2897 }, {  78,-2897 }, {  79,-2897 }, {  80,-2897 }, {  81,-2897 },
+ {  82,-2897 }, {  83,-2897 }, {  84,-2897 }, {  85,-2897 }, {  86,-2897 },
+ {  87,-2897 }, {  88,-2897 }, {  89,-2897 }, {  90,-2897 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2897 }, {   0,   0 },
+ {  97,-2897 }, {  98,-2897 }, {  99,-2897 }, { 100,-2897 }, { 101,-2897 },
+ { 102,-2897 }, { 103,-2897 }, { 104,-2897 }, { 105,-2897 }, { 106,-2897 },
+ { 107,-2897 }, { 108,-2897 }, { 109,-2897 }, { 110,-2897 }, { 111,-2897 },
+
+ { 112,-2897 }, { 113,-2897 }, { 114,-2897 }, { 115,-2897 }, { 116,-2897 },
+ { 117,3866 }, { 118,-2897 }, { 119,-2897 }, { 120,-2897 }, { 121,-2897 },
+ { 122,-2897 }, {   0,   0 }, { 124,-3018 }, { 125,-3018 }, { 126,-3018 },
+ { 127,-2897 }, { 128,-2897 }, { 129,-2897 }, { 130,-2897 }, { 131,-2897 },
+ { 132,-2897 }, { 133,-2897 }, { 134,-2897 }, { 135,-2897 }, { 136,-2897 },
+ { 137,-2897 }, { 138,-2897 }, { 139,-2897 }, { 140,-2897 }, { 141,-2897 },
+ { 142,-2897 }, { 143,-2897 }, { 144,-2897 }, { 145,-2897 }, { 146,-2897 },
+ { 147,-2897 }, { 148,-2897 }, { 149,-2897 }, { 150,-2897 }, { 151,-2897 },
+ { 152,-2897 }, { 153,-2897 }, { 154,-2897 }, { 155,-2897 }, { 156,-2897 },
+ { 157,-2897 }, { 158,-2897 }, { 159,-2897 }, { 160,-2897 }, { 161,-2897 },
+
+ { 162,-2897 }, { 163,-2897 }, { 164,-2897 }, { 165,-2897 }, { 166,-2897 },
+ { 167,-2897 }, { 168,-2897 }, { 169,-2897 }, { 170,-2897 }, { 171,-2897 },
+ { 172,-2897 }, { 173,-2897 }, { 174,-2897 }, { 175,-2897 }, { 176,-2897 },
+ { 177,-2897 }, { 178,-2897 }, { 179,-2897 }, { 180,-2897 }, { 181,-2897 },
+ { 182,-2897 }, { 183,-2897 }, { 184,-2897 }, { 185,-2897 }, { 186,-2897 },
+ { 187,-2897 }, { 188,-2897 }, { 189,-2897 }, { 190,-2897 }, { 191,-2897 },
+ { 192,-2897 }, { 193,-2897 }, { 194,-2897 }, { 195,-2897 }, { 196,-2897 },
+ { 197,-2897 }, { 198,-2897 }, { 199,-2897 }, { 200,-2897 }, { 201,-2897 },
+ { 202,-2897 }, { 203,-2897 }, { 204,-2897 }, { 205,-2897 }, { 206,-2897 },
+ { 207,-2897 }, { 208,-2897 }, { 209,-2897 }, { 210,-2897 }, { 211,-2897 },
+
+ { 212,-2897 }, { 213,-2897 }, { 214,-2897 }, { 215,-2897 }, { 216,-2897 },
+ { 217,-2897 }, { 218,-2897 }, { 219,-2897 }, { 220,-2897 }, { 221,-2897 },
+ { 222,-2897 }, { 223,-2897 }, { 224,-2897 }, { 225,-2897 }, { 226,-2897 },
+ { 227,-2897 }, { 228,-2897 }, { 229,-2897 }, { 230,-2897 }, { 231,-2897 },
+ { 232,-2897 }, { 233,-2897 }, { 234,-2897 }, { 235,-2897 }, { 236,-2897 },
+ { 237,-2897 }, { 238,-2897 }, { 239,-2897 }, { 240,-2897 }, { 241,-2897 },
+ { 242,-2897 }, { 243,-2897 }, { 244,-2897 }, { 245,-2897 }, { 246,-2897 },
+ { 247,-2897 }, { 248,-2897 }, { 249,-2897 }, { 250,-2897 }, { 251,-2897 },
+ { 252,-2897 }, { 253,-2897 }, { 254,-2897 }, { 255,-2897 }, { 256,-2897 },
+ {   0,   0 }, {   0,11658 }, {   1,-3155 }, {   2,-3155 }, {   3,-3155 },
+
+ {   4,-3155 }, {   5,-3155 }, {   6,-3155 }, {   7,-3155 }, {   8,-3155 },
+ {   9,-3276 }, {  10,-3276 }, {  11,-3155 }, {  12,-3155 }, {  13,-3276 },
+ {  14,-3155 }, {  15,-3155 }, {  16,-3155 }, {  17,-3155 }, {  18,-3155 },
+ {  19,-3155 }, {  20,-3155 }, {  21,-3155 }, {  22,-3155 }, {  23,-3155 },
+ {  24,-3155 }, {  25,-3155 }, {  26,-3155 }, {  27,-3155 }, {  28,-3155 },
+ {  29,-3155 }, {  30,-3155 }, {  31,-3155 }, {  32,-3276 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-3155 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-3276 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-3155 }, {  46,-3276 }, {  47,-3276 }, {  48,-3155 },
+ {  49,-3155 }, {  50,-3155 }, {  51,-3155 }, {  52,-3155 }, {  53,-3155 },
+
+ {  54,-3155 }, {  55,-3155 }, {  56,-3155 }, {  57,-3155 }, {  58,-3155 },
+ {   0,   0 }, {   0,   0 }, {  61,-3276 }, {   0,   0 }, {  63,-3155 },
+ {   0,   0 }, {  65,-3155 }, {  66,-3155 }, {  67,-3155 }, {  68,-3155 },
+ {  69,-3155 }, {  70,-3155 }, {  71,-3155 }, {  72,-3155 }, {  73,-3155 },
+ {  74,-3155 }, {  75,-3155 }, {  76,-3155 }, {  77,-3155 }, {  78,-3155 },
+ {  79,-3155 }, {  80,-3155 }, {  81,-3155 }, {  82,-3155 }, {  83,-3155 },
+ {  84,-3155 }, {  85,-3155 }, {  86,-3155 }, {  87,-3155 }, {  88,-3155 },
+ {  89,-3155 }, {  90,-3155 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-3155 }, {   0,   0 }, {  97,-3155 }, {  98,-3155 },
+ {  99,-3155 }, { 100,3866 }, { 101,-3155 }, { 102,-3155 }, { 103,-3155 },
+
+ { 104,-3155 }, { 105,-3155 }, { 106,-3155 }, { 107,-3155 }, { 108,-3155 },
+ { 109,-3155 }, { 110,-3155 }, { 111,-3155 }, { 112,-3155 }, { 113,-3155 },
+ { 114,-3155 }, { 115,-3155 }, { 116,-3155 }, { 117,-3155 }, { 118,-3155 },
+ { 119,-3155 }, { 120,-3155 }, { 121,-3155 }, { 122,-3155 }, {   0,   0 },
+ { 124,-3276 }, { 125,-3276 }, { 126,-3276 }, { 127,-3155 }, { 128,-3155 },
+ { 129,-3155 }, { 130,-3155 }, { 131,-3155 }, { 132,-3155 }, { 133,-3155 },
+ { 134,-3155 }, { 135,-3155 }, { 136,-3155 }, { 137,-3155 }, { 138,-3155 },
+ { 139,-3155 }, { 140,-3155 }, { 141,-3155 }, { 142,-3155 }, { 143,-3155 },
+ { 144,-3155 }, { 145,-3155 }, { 146,-3155 }, { 147,-3155 }, { 148,-3155 },
+ { 149,-3155 }, { 150,-3155 }, { 151,-3155 }, { 152,-3155 }, { 153,-3155 },
+
+ { 154,-3155 }, { 155,-3155 }, { 156,-3155 }, { 157,-3155 }, { 158,-3155 },
+ { 159,-3155 }, { 160,-3155 }, { 161,-3155 }, { 162,-3155 }, { 163,-3155 },
+ { 164,-3155 }, { 165,-3155 }, { 166,-3155 }, { 167,-3155 }, { 168,-3155 },
+ { 169,-3155 }, { 170,-3155 }, { 171,-3155 }, { 172,-3155 }, { 173,-3155 },
+ { 174,-3155 }, { 175,-3155 }, { 176,-3155 }, { 177,-3155 }, { 178,-3155 },
+ { 179,-3155 }, { 180,-3155 }, { 181,-3155 }, { 182,-3155 }, { 183,-3155 },
+ { 184,-3155 }, { 185,-3155 }, { 186,-3155 }, { 187,-3155 }, { 188,-3155 },
+ { 189,-3155 }, { 190,-3155 }, { 191,-3155 }, { 192,-3155 }, { 193,-3155 },
+ { 194,-3155 }, { 195,-3155 }, { 196,-3155 }, { 197,-3155 }, { 198,-3155 },
+ { 199,-3155 }, { 200,-3155 }, { 201,-3155 }, { 202,-3155 }, { 203,-3155 },
+
+ { 204,-3155 }, { 205,-3155 }, { 206,-3155 }, { 207,-3155 }, { 208,-3155 },
+ { 209,-3155 }, { 210,-3155 }, { 211,-3155 }, { 212,-3155 }, { 213,-3155 },
+ { 214,-3155 }, { 215,-3155 }, { 216,-3155 }, { 217,-3155 }, { 218,-3155 },
+ { 219,-3155 }, { 220,-3155 }, { 221,-3155 }, { 222,-3155 }, { 223,-3155 },
+ { 224,-3155 }, { 225,-3155 }, { 226,-3155 }, { 227,-3155 }, { 228,-3155 },
+ { 229,-3155 }, { 230,-3155 }, { 231,-3155 }, { 232,-3155 }, { 233,-3155 },
+ { 234,-3155 }, { 235,-3155 }, { 236,-3155 }, { 237,-3155 }, { 238,-3155 },
+ { 239,-3155 }, { 240,-3155 }, { 241,-3155 }, { 242,-3155 }, { 243,-3155 },
+ { 244,-3155 }, { 245,-3155 }, { 246,-3155 }, { 247,-3155 }, { 248,-3155 },
+ { 249,-3155 }, { 250,-3155 }, { 251,-3155 }, { 252,-3155 }, { 253,-3155 },
+
+ { 254,-3155 }, { 255,-3155 }, { 256,-3155 }, {   0,  30 }, {   0,11400 },
+ {   0,  20 }, {   0,11398 }, {   0,  27 }, {   0,11396 }, {   0,  30 },
+ {   0,11394 }, {   0,  21 }, {   0,11392 }, {   9,3866 }, {  10,3866 },
+ {   0,  18 }, {   0,11388 }, {  13,3866 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,3866 }, {  33,-3471 }, {   0,   0 }, {  35,   2 },
+ {   0,   0 }, {   0,   0 }, {  38,   4 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  42,   6 }, {   0,   0 }, {  42,5058 }, {   0,   0 },
+
+ {   0,   0 }, {  47,   8 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  62,  12 }, {   0,   0 }, {  62,5061 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3868 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 101,3870 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,3872 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 123,3874 }, {   0,   0 }, {   0,   0 },
+ { 126,3881 }, {   0,   0 }, {   0,11272 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
+ {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
 
- { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
- { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
- { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
- { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
- { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
- { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
- { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
- { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
- { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
- { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
+ {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
 
- { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
- { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
- { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
- { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
- { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
- { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
- { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
- { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
- { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
- { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
 
- { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
- { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
- { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
- { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
- { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
- { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
- { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
- { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
- { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
- { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+ { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
 
- { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,9877 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
- {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
- {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
- {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
- {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
- {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
- {  30,-2157 }, {  31,-2157 }, {  32,2296 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  45,-2157 }, {  46,-2182 }, {  47,-2182 }, {  48,-2157 }, {  49,-2157 },
- {  50,-2157 }, {  51,-2157 }, {  52,-2157 }, {  53,-2157 }, {  54,-2157 },
- {  55,-2157 }, {  56,-2157 }, {  57,-2157 }, {  58,-2157 }, {   0,   0 },
- {   0,   0 }, {  61,-2182 }, {   0,   0 }, {  63,-2157 }, {   0,   0 },
- {  65,-2157 }, {  66,-2157 }, {  67,-2157 }, {  68,-2157 }, {  69,-2157 },
- {  70,-2157 }, {  71,-2157 }, {  72,-2157 }, {  73,-2157 }, {  74,-2157 },
- {  75,-2157 }, {  76,-2157 }, {  77,-2157 }, {  78,-2157 }, {  79,-2157 },
- {  80,-2157 }, {  81,-2157 }, {  82,-2157 }, {  83,-2157 }, {  84,-2157 },
- {  85,-2157 }, {  86,-2157 }, {  87,-2157 }, {  88,-2157 }, {  89,-2157 },
- {  90,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  95,-2157 }, {   0,   0 }, {  97,-2157 }, {  98,-2157 }, {  99,-2157 },
- { 100,-2157 }, { 101,-2157 }, { 102,-2157 }, { 103,-2157 }, { 104,-2157 },
- { 105,-2157 }, { 106,-2157 }, { 107,-2157 }, { 108,-2157 }, { 109,-2157 },
- { 110,-2157 }, { 111,-2157 }, { 112,-2157 }, { 113,-2157 }, { 114,-2157 },
- { 115,-2157 }, { 116,-2157 }, { 117,-2157 }, { 118,-2157 }, { 119,-2157 },
- { 120,-2157 }, { 121,-2157 }, { 122,-2157 }, {   0,   0 }, { 124,-2182 },
- { 125,-2182 }, { 126,-2182 }, { 127,-2157 }, { 128,-2157 }, { 129,-2157 },
- { 130,-2157 }, { 131,-2157 }, { 132,-2157 }, { 133,-2157 }, { 134,-2157 },
- { 135,-2157 }, { 136,-2157 }, { 137,-2157 }, { 138,-2157 }, { 139,-2157 },
- { 140,-2157 }, { 141,-2157 }, { 142,-2157 }, { 143,-2157 }, { 144,-2157 },
-
- { 145,-2157 }, { 146,-2157 }, { 147,-2157 }, { 148,-2157 }, { 149,-2157 },
- { 150,-2157 }, { 151,-2157 }, { 152,-2157 }, { 153,-2157 }, { 154,-2157 },
- { 155,-2157 }, { 156,-2157 }, { 157,-2157 }, { 158,-2157 }, { 159,-2157 },
- { 160,-2157 }, { 161,-2157 }, { 162,-2157 }, { 163,-2157 }, { 164,-2157 },
- { 165,-2157 }, { 166,-2157 }, { 167,-2157 }, { 168,-2157 }, { 169,-2157 },
- { 170,-2157 }, { 171,-2157 }, { 172,-2157 }, { 173,-2157 }, { 174,-2157 },
- { 175,-2157 }, { 176,-2157 }, { 177,-2157 }, { 178,-2157 }, { 179,-2157 },
- { 180,-2157 }, { 181,-2157 }, { 182,-2157 }, { 183,-2157 }, { 184,-2157 },
- { 185,-2157 }, { 186,-2157 }, { 187,-2157 }, { 188,-2157 }, { 189,-2157 },
- { 190,-2157 }, { 191,-2157 }, { 192,-2157 }, { 193,-2157 }, { 194,-2157 },
-
- { 195,-2157 }, { 196,-2157 }, { 197,-2157 }, { 198,-2157 }, { 199,-2157 },
- { 200,-2157 }, { 201,-2157 }, { 202,-2157 }, { 203,-2157 }, { 204,-2157 },
- { 205,-2157 }, { 206,-2157 }, { 207,-2157 }, { 208,-2157 }, { 209,-2157 },
- { 210,-2157 }, { 211,-2157 }, { 212,-2157 }, { 213,-2157 }, { 214,-2157 },
- { 215,-2157 }, { 216,-2157 }, { 217,-2157 }, { 218,-2157 }, { 219,-2157 },
- { 220,-2157 }, { 221,-2157 }, { 222,-2157 }, { 223,-2157 }, { 224,-2157 },
- { 225,-2157 }, { 226,-2157 }, { 227,-2157 }, { 228,-2157 }, { 229,-2157 },
- { 230,-2157 }, { 231,-2157 }, { 232,-2157 }, { 233,-2157 }, { 234,-2157 },
- { 235,-2157 }, { 236,-2157 }, { 237,-2157 }, { 238,-2157 }, { 239,-2157 },
- { 240,-2157 }, { 241,-2157 }, { 242,-2157 }, { 243,-2157 }, { 244,-2157 },
-
- { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
- { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9619 }, {   1,-2415 },
- {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
- {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
- {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
- {  17,-2415 }, {  18,-2415 }, {  19,-2415 }, {  20,-2415 }, {  21,-2415 },
- {  22,-2415 }, {  23,-2415 }, {  24,-2415 }, {  25,-2415 }, {  26,-2415 },
- {  27,-2415 }, {  28,-2415 }, {  29,-2415 }, {  30,-2415 }, {  31,-2415 },
- {  32,-2440 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2415 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-2440 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2415 }, {  46,-2440 },
- {  47,-2440 }, {  48,-2415 }, {  49,-2415 }, {  50,-2415 }, {  51,-2415 },
- {  52,-2415 }, {  53,-2415 }, {  54,-2415 }, {  55,-2415 }, {  56,-2415 },
- {  57,-2415 }, {  58,-2415 }, {   0,   0 }, {   0,   0 }, {  61,-2440 },
- {   0,   0 }, {  63,-2415 }, {   0,   0 }, {  65,-2415 }, {  66,-2415 },
- {  67,-2415 }, {  68,-2415 }, {  69,-2415 }, {  70,-2415 }, {  71,-2415 },
- {  72,-2415 }, {  73,-2415 }, {  74,-2415 }, {  75,-2415 }, {  76,-2415 },
- {  77,-2415 }, {  78,-2415 }, {  79,-2415 }, {  80,-2415 }, {  81,-2415 },
- {  82,-2415 }, {  83,-2415 }, {  84,-2415 }, {  85,-2415 }, {  86,-2415 },
-
- {  87,-2415 }, {  88,-2415 }, {  89,-2415 }, {  90,-2415 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
- {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
- { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
- { 107,-2415 }, { 108,3229 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
- { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
- { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
- { 122,-2415 }, {   0,   0 }, { 124,-2440 }, { 125,-2440 }, { 126,-2440 },
- { 127,-2415 }, { 128,-2415 }, { 129,-2415 }, { 130,-2415 }, { 131,-2415 },
- { 132,-2415 }, { 133,-2415 }, { 134,-2415 }, { 135,-2415 }, { 136,-2415 },
-
- { 137,-2415 }, { 138,-2415 }, { 139,-2415 }, { 140,-2415 }, { 141,-2415 },
- { 142,-2415 }, { 143,-2415 }, { 144,-2415 }, { 145,-2415 }, { 146,-2415 },
- { 147,-2415 }, { 148,-2415 }, { 149,-2415 }, { 150,-2415 }, { 151,-2415 },
- { 152,-2415 }, { 153,-2415 }, { 154,-2415 }, { 155,-2415 }, { 156,-2415 },
- { 157,-2415 }, { 158,-2415 }, { 159,-2415 }, { 160,-2415 }, { 161,-2415 },
- { 162,-2415 }, { 163,-2415 }, { 164,-2415 }, { 165,-2415 }, { 166,-2415 },
- { 167,-2415 }, { 168,-2415 }, { 169,-2415 }, { 170,-2415 }, { 171,-2415 },
- { 172,-2415 }, { 173,-2415 }, { 174,-2415 }, { 175,-2415 }, { 176,-2415 },
- { 177,-2415 }, { 178,-2415 }, { 179,-2415 }, { 180,-2415 }, { 181,-2415 },
- { 182,-2415 }, { 183,-2415 }, { 184,-2415 }, { 185,-2415 }, { 186,-2415 },
-
- { 187,-2415 }, { 188,-2415 }, { 189,-2415 }, { 190,-2415 }, { 191,-2415 },
- { 192,-2415 }, { 193,-2415 }, { 194,-2415 }, { 195,-2415 }, { 196,-2415 },
- { 197,-2415 }, { 198,-2415 }, { 199,-2415 }, { 200,-2415 }, { 201,-2415 },
- { 202,-2415 }, { 203,-2415 }, { 204,-2415 }, { 205,-2415 }, { 206,-2415 },
- { 207,-2415 }, { 208,-2415 }, { 209,-2415 }, { 210,-2415 }, { 211,-2415 },
- { 212,-2415 }, { 213,-2415 }, { 214,-2415 }, { 215,-2415 }, { 216,-2415 },
- { 217,-2415 }, { 218,-2415 }, { 219,-2415 }, { 220,-2415 }, { 221,-2415 },
- { 222,-2415 }, { 223,-2415 }, { 224,-2415 }, { 225,-2415 }, { 226,-2415 },
- { 227,-2415 }, { 228,-2415 }, { 229,-2415 }, { 230,-2415 }, { 231,-2415 },
- { 232,-2415 }, { 233,-2415 }, { 234,-2415 }, { 235,-2415 }, { 236,-2415 },
-
- { 237,-2415 }, { 238,-2415 }, { 239,-2415 }, { 240,-2415 }, { 241,-2415 },
- { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
- { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
- { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,9361 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
- {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
- {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
- {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
- {  19,-2673 }, {  20,-2673 }, {  21,-2673 }, {  22,-2673 }, {  23,-2673 },
- {  24,-2673 }, {  25,-2673 }, {  26,-2673 }, {  27,-2673 }, {  28,-2673 },
-
- {  29,-2673 }, {  30,-2673 }, {  31,-2673 }, {  32,-2698 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-2673 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-2698 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-2673 }, {  46,-2698 }, {  47,-2698 }, {  48,-2673 },
- {  49,-2673 }, {  50,-2673 }, {  51,-2673 }, {  52,-2673 }, {  53,-2673 },
- {  54,-2673 }, {  55,-2673 }, {  56,-2673 }, {  57,-2673 }, {  58,-2673 },
- {   0,   0 }, {   0,   0 }, {  61,-2698 }, {   0,   0 }, {  63,-2673 },
- {   0,   0 }, {  65,-2673 }, {  66,-2673 }, {  67,-2673 }, {  68,-2673 },
- {  69,-2673 }, {  70,-2673 }, {  71,-2673 }, {  72,-2673 }, {  73,-2673 },
- {  74,-2673 }, {  75,-2673 }, {  76,-2673 }, {  77,-2673 }, {  78,-2673 },
-
- {  79,-2673 }, {  80,-2673 }, {  81,-2673 }, {  82,-2673 }, {  83,-2673 },
- {  84,-2673 }, {  85,-2673 }, {  86,-2673 }, {  87,-2673 }, {  88,-2673 },
- {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
- {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
- { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3229 },
- { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
- { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
- { 119,-2673 }, { 120,-2673 }, { 121,-2673 }, { 122,-2673 }, {   0,   0 },
- { 124,-2698 }, { 125,-2698 }, { 126,-2698 }, { 127,-2673 }, { 128,-2673 },
-
- { 129,-2673 }, { 130,-2673 }, { 131,-2673 }, { 132,-2673 }, { 133,-2673 },
- { 134,-2673 }, { 135,-2673 }, { 136,-2673 }, { 137,-2673 }, { 138,-2673 },
- { 139,-2673 }, { 140,-2673 }, { 141,-2673 }, { 142,-2673 }, { 143,-2673 },
- { 144,-2673 }, { 145,-2673 }, { 146,-2673 }, { 147,-2673 }, { 148,-2673 },
- { 149,-2673 }, { 150,-2673 }, { 151,-2673 }, { 152,-2673 }, { 153,-2673 },
- { 154,-2673 }, { 155,-2673 }, { 156,-2673 }, { 157,-2673 }, { 158,-2673 },
- { 159,-2673 }, { 160,-2673 }, { 161,-2673 }, { 162,-2673 }, { 163,-2673 },
- { 164,-2673 }, { 165,-2673 }, { 166,-2673 }, { 167,-2673 }, { 168,-2673 },
- { 169,-2673 }, { 170,-2673 }, { 171,-2673 }, { 172,-2673 }, { 173,-2673 },
- { 174,-2673 }, { 175,-2673 }, { 176,-2673 }, { 177,-2673 }, { 178,-2673 },
-
- { 179,-2673 }, { 180,-2673 }, { 181,-2673 }, { 182,-2673 }, { 183,-2673 },
- { 184,-2673 }, { 185,-2673 }, { 186,-2673 }, { 187,-2673 }, { 188,-2673 },
- { 189,-2673 }, { 190,-2673 }, { 191,-2673 }, { 192,-2673 }, { 193,-2673 },
- { 194,-2673 }, { 195,-2673 }, { 196,-2673 }, { 197,-2673 }, { 198,-2673 },
- { 199,-2673 }, { 200,-2673 }, { 201,-2673 }, { 202,-2673 }, { 203,-2673 },
- { 204,-2673 }, { 205,-2673 }, { 206,-2673 }, { 207,-2673 }, { 208,-2673 },
- { 209,-2673 }, { 210,-2673 }, { 211,-2673 }, { 212,-2673 }, { 213,-2673 },
- { 214,-2673 }, { 215,-2673 }, { 216,-2673 }, { 217,-2673 }, { 218,-2673 },
- { 219,-2673 }, { 220,-2673 }, { 221,-2673 }, { 222,-2673 }, { 223,-2673 },
- { 224,-2673 }, { 225,-2673 }, { 226,-2673 }, { 227,-2673 }, { 228,-2673 },
-
- { 229,-2673 }, { 230,-2673 }, { 231,-2673 }, { 232,-2673 }, { 233,-2673 },
- { 234,-2673 }, { 235,-2673 }, { 236,-2673 }, { 237,-2673 }, { 238,-2673 },
- { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
- { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
- { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9103 },
- {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
- {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
- {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
- {  16,-2931 }, {  17,-2931 }, {  18,-2931 }, {  19,-2931 }, {  20,-2931 },
-
- {  21,-2931 }, {  22,-2931 }, {  23,-2931 }, {  24,-2931 }, {  25,-2931 },
- {  26,-2931 }, {  27,-2931 }, {  28,-2931 }, {  29,-2931 }, {  30,-2931 },
- {  31,-2931 }, {  32,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-2931 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2931 },
- {  46,-2956 }, {  47,-2956 }, {  48,-2931 }, {  49,-2931 }, {  50,-2931 },
- {  51,-2931 }, {  52,-2931 }, {  53,-2931 }, {  54,-2931 }, {  55,-2931 },
- {  56,-2931 }, {  57,-2931 }, {  58,-2931 }, {   0,   0 }, {   0,   0 },
- {  61,-2956 }, {   0,   0 }, {  63,-2931 }, {   0,   0 }, {  65,-2931 },
- {  66,-2931 }, {  67,-2931 }, {  68,-2931 }, {  69,-2931 }, {  70,-2931 },
-
- {  71,-2931 }, {  72,-2931 }, {  73,-2931 }, {  74,-2931 }, {  75,-2931 },
- {  76,-2931 }, {  77,-2931 }, {  78,-2931 }, {  79,-2931 }, {  80,-2931 },
- {  81,-2931 }, {  82,-2931 }, {  83,-2931 }, {  84,-2931 }, {  85,-2931 },
- {  86,-2931 }, {  87,-2931 }, {  88,-2931 }, {  89,-2931 }, {  90,-2931 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2931 },
- {   0,   0 }, {  97,-2931 }, {  98,-2931 }, {  99,-2931 }, { 100,-2931 },
- { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
- { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
- { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
- { 116,-2931 }, { 117,3229 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
-
- { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
- { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
- { 131,-2931 }, { 132,-2931 }, { 133,-2931 }, { 134,-2931 }, { 135,-2931 },
- { 136,-2931 }, { 137,-2931 }, { 138,-2931 }, { 139,-2931 }, { 140,-2931 },
- { 141,-2931 }, { 142,-2931 }, { 143,-2931 }, { 144,-2931 }, { 145,-2931 },
- { 146,-2931 }, { 147,-2931 }, { 148,-2931 }, { 149,-2931 }, { 150,-2931 },
- { 151,-2931 }, { 152,-2931 }, { 153,-2931 }, { 154,-2931 }, { 155,-2931 },
- { 156,-2931 }, { 157,-2931 }, { 158,-2931 }, { 159,-2931 }, { 160,-2931 },
- { 161,-2931 }, { 162,-2931 }, { 163,-2931 }, { 164,-2931 }, { 165,-2931 },
- { 166,-2931 }, { 167,-2931 }, { 168,-2931 }, { 169,-2931 }, { 170,-2931 },
-
- { 171,-2931 }, { 172,-2931 }, { 173,-2931 }, { 174,-2931 }, { 175,-2931 },
- { 176,-2931 }, { 177,-2931 }, { 178,-2931 }, { 179,-2931 }, { 180,-2931 },
- { 181,-2931 }, { 182,-2931 }, { 183,-2931 }, { 184,-2931 }, { 185,-2931 },
- { 186,-2931 }, { 187,-2931 }, { 188,-2931 }, { 189,-2931 }, { 190,-2931 },
- { 191,-2931 }, { 192,-2931 }, { 193,-2931 }, { 194,-2931 }, { 195,-2931 },
- { 196,-2931 }, { 197,-2931 }, { 198,-2931 }, { 199,-2931 }, { 200,-2931 },
- { 201,-2931 }, { 202,-2931 }, { 203,-2931 }, { 204,-2931 }, { 205,-2931 },
- { 206,-2931 }, { 207,-2931 }, { 208,-2931 }, { 209,-2931 }, { 210,-2931 },
- { 211,-2931 }, { 212,-2931 }, { 213,-2931 }, { 214,-2931 }, { 215,-2931 },
- { 216,-2931 }, { 217,-2931 }, { 218,-2931 }, { 219,-2931 }, { 220,-2931 },
-
- { 221,-2931 }, { 222,-2931 }, { 223,-2931 }, { 224,-2931 }, { 225,-2931 },
- { 226,-2931 }, { 227,-2931 }, { 228,-2931 }, { 229,-2931 }, { 230,-2931 },
- { 231,-2931 }, { 232,-2931 }, { 233,-2931 }, { 234,-2931 }, { 235,-2931 },
- { 236,-2931 }, { 237,-2931 }, { 238,-2931 }, { 239,-2931 }, { 240,-2931 },
- { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
- { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
- { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,8845 }, {   1,-3189 }, {   2,-3189 },
- {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
- {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
-
- {  13,-3214 }, {  14,-3189 }, {  15,-3189 }, {  16,-3189 }, {  17,-3189 },
- {  18,-3189 }, {  19,-3189 }, {  20,-3189 }, {  21,-3189 }, {  22,-3189 },
- {  23,-3189 }, {  24,-3189 }, {  25,-3189 }, {  26,-3189 }, {  27,-3189 },
- {  28,-3189 }, {  29,-3189 }, {  30,-3189 }, {  31,-3189 }, {  32,-3214 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-3189 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-3214 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-3189 }, {  46,-3214 }, {  47,-3214 },
- {  48,-3189 }, {  49,-3189 }, {  50,-3189 }, {  51,-3189 }, {  52,-3189 },
- {  53,-3189 }, {  54,-3189 }, {  55,-3189 }, {  56,-3189 }, {  57,-3189 },
- {  58,-3189 }, {   0,   0 }, {   0,   0 }, {  61,-3214 }, {   0,   0 },
-
- {  63,-3189 }, {   0,   0 }, {  65,-3189 }, {  66,-3189 }, {  67,-3189 },
- {  68,-3189 }, {  69,-3189 }, {  70,-3189 }, {  71,-3189 }, {  72,-3189 },
- {  73,-3189 }, {  74,-3189 }, {  75,-3189 }, {  76,-3189 }, {  77,-3189 },
- {  78,-3189 }, {  79,-3189 }, {  80,-3189 }, {  81,-3189 }, {  82,-3189 },
- {  83,-3189 }, {  84,-3189 }, {  85,-3189 }, {  86,-3189 }, {  87,-3189 },
- {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
- {  98,-3189 }, {  99,-3189 }, { 100,3229 }, { 101,-3189 }, { 102,-3189 },
- { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
- { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
-
- { 113,-3189 }, { 114,-3189 }, { 115,-3189 }, { 116,-3189 }, { 117,-3189 },
- { 118,-3189 }, { 119,-3189 }, { 120,-3189 }, { 121,-3189 }, { 122,-3189 },
- {   0,   0 }, { 124,-3214 }, { 125,-3214 }, { 126,-3214 }, { 127,-3189 },
- { 128,-3189 }, { 129,-3189 }, { 130,-3189 }, { 131,-3189 }, { 132,-3189 },
- { 133,-3189 }, { 134,-3189 }, { 135,-3189 }, { 136,-3189 }, { 137,-3189 },
- { 138,-3189 }, { 139,-3189 }, { 140,-3189 }, { 141,-3189 }, { 142,-3189 },
- { 143,-3189 }, { 144,-3189 }, { 145,-3189 }, { 146,-3189 }, { 147,-3189 },
- { 148,-3189 }, { 149,-3189 }, { 150,-3189 }, { 151,-3189 }, { 152,-3189 },
- { 153,-3189 }, { 154,-3189 }, { 155,-3189 }, { 156,-3189 }, { 157,-3189 },
- { 158,-3189 }, { 159,-3189 }, { 160,-3189 }, { 161,-3189 }, { 162,-3189 },
-
- { 163,-3189 }, { 164,-3189 }, { 165,-3189 }, { 166,-3189 }, { 167,-3189 },
- { 168,-3189 }, { 169,-3189 }, { 170,-3189 }, { 171,-3189 }, { 172,-3189 },
- { 173,-3189 }, { 174,-3189 }, { 175,-3189 }, { 176,-3189 }, { 177,-3189 },
- { 178,-3189 }, { 179,-3189 }, { 180,-3189 }, { 181,-3189 }, { 182,-3189 },
- { 183,-3189 }, { 184,-3189 }, { 185,-3189 }, { 186,-3189 }, { 187,-3189 },
- { 188,-3189 }, { 189,-3189 }, { 190,-3189 }, { 191,-3189 }, { 192,-3189 },
- { 193,-3189 }, { 194,-3189 }, { 195,-3189 }, { 196,-3189 }, { 197,-3189 },
- { 198,-3189 }, { 199,-3189 }, { 200,-3189 }, { 201,-3189 }, { 202,-3189 },
- { 203,-3189 }, { 204,-3189 }, { 205,-3189 }, { 206,-3189 }, { 207,-3189 },
- { 208,-3189 }, { 209,-3189 }, { 210,-3189 }, { 211,-3189 }, { 212,-3189 },
-
- { 213,-3189 }, { 214,-3189 }, { 215,-3189 }, { 216,-3189 }, { 217,-3189 },
- { 218,-3189 }, { 219,-3189 }, { 220,-3189 }, { 221,-3189 }, { 222,-3189 },
- { 223,-3189 }, { 224,-3189 }, { 225,-3189 }, { 226,-3189 }, { 227,-3189 },
- { 228,-3189 }, { 229,-3189 }, { 230,-3189 }, { 231,-3189 }, { 232,-3189 },
- { 233,-3189 }, { 234,-3189 }, { 235,-3189 }, { 236,-3189 }, { 237,-3189 },
- { 238,-3189 }, { 239,-3189 }, { 240,-3189 }, { 241,-3189 }, { 242,-3189 },
- { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
- { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
- { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,8587 }, {   0,  37 }, {   0,8585 }, {   0,   0 }, {   0,8583 },
-
- {   0,   0 }, {   0,8581 }, {   0,   0 }, {   0,8579 }, {   9,3229 },
- {  10,3229 }, {   0,  13 }, {   0,8575 }, {  13,3229 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,3229 }, {  33,1813 }, {   0,   0 },
- {  35,1815 }, {   0,   0 }, {   0,   0 }, {  38,1817 }, {   0,   0 },
- {   0,   0 }, {  33,3242 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  47,1823 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1826 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3231 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,3233 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,3235 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3237 }, {   0,   0 },
- {   0,   0 }, { 126,3244 }, { 125,3239 }, {   0,   0 }, { 125,3242 },
- {   0,   0 }, { 125,3242 }, {   0,   0 }, {   0,   0 }, { 126,3244 },
- {   0,   0 }, {   0,8451 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
+ {   0,11014 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
+
+ {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
+ {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
+ {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
+ {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
+ {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
+ {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
+ {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
+ {  45, 258 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
+ {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
+ {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
+
+ {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
+ {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
+ {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
+ {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
+ {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
+ {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
+ {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
+ {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
+ { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
+ { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
+
+ { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
+ { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
+ { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
+ { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
+ { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
+ { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
+ { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
+ { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
+ { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
+ { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
+
+ { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
+ { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
+ { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
+ { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
+ { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
+ { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
+ { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
+ { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
+ { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
+ { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
+
+ { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
+ { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
+ { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
+ { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
+ { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
+ { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
+ { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
+ { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
+ { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
+ { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,10756 }, {   1,3366 },
+
+ {   2,3366 }, {   3,3366 }, {   4,3366 }, {   5,3366 }, {   6,3366 },
+ {   7,3366 }, {   8,3366 }, {   9,3366 }, {  10,3366 }, {  11,3366 },
+ {  12,3366 }, {  13,3366 }, {  14,3366 }, {  15,3366 }, {  16,3366 },
+ {  17,3366 }, {  18,3366 }, {  19,3366 }, {  20,3366 }, {  21,3366 },
+ {  22,3366 }, {  23,3366 }, {  24,3366 }, {  25,3366 }, {  26,3366 },
+ {  27,3366 }, {  28,3366 }, {  29,3366 }, {  30,3366 }, {  31,3366 },
+ {  32,3366 }, {  33,3366 }, {  34,3366 }, {  35,3366 }, {  36,3366 },
+ {  37,3366 }, {  38,3366 }, {  39,3366 }, {  40,3366 }, {  41,3366 },
+ {  42,3366 }, {  43,3366 }, {  44,3366 }, {  45,3624 }, {  46,3366 },
+ {  47,3366 }, {  48,3366 }, {  49,3366 }, {  50,3366 }, {  51,3366 },
+
+ {  52,3366 }, {  53,3366 }, {  54,3366 }, {  55,3366 }, {  56,3366 },
+ {  57,3366 }, {  58,3366 }, {  59,3366 }, {  60,3366 }, {  61,3366 },
+ {  62,3366 }, {  63,3366 }, {  64,3366 }, {  65,3366 }, {  66,3366 },
+ {  67,3366 }, {  68,3366 }, {  69,3366 }, {  70,3366 }, {  71,3366 },
+ {  72,3366 }, {  73,3366 }, {  74,3366 }, {  75,3366 }, {  76,3366 },
+ {  77,3366 }, {  78,3366 }, {  79,3366 }, {  80,3366 }, {  81,3366 },
+ {  82,3366 }, {  83,3366 }, {  84,3366 }, {  85,3366 }, {  86,3366 },
+ {  87,3366 }, {  88,3366 }, {  89,3366 }, {  90,3366 }, {  91,3366 },
+ {  92,3366 }, {  93,3366 }, {  94,3366 }, {  95,3366 }, {  96,3366 },
+ {  97,3366 }, {  98,3366 }, {  99,3366 }, { 100,3366 }, { 101,3366 },
+
+ { 102,3366 }, { 103,3366 }, { 104,3366 }, { 105,3366 }, { 106,3366 },
+ { 107,3366 }, { 108,3366 }, { 109,3366 }, { 110,3366 }, { 111,3366 },
+ { 112,3366 }, { 113,3366 }, { 114,3366 }, { 115,3366 }, { 116,3366 },
+ { 117,3366 }, { 118,3366 }, { 119,3366 }, { 120,3366 }, { 121,3366 },
+ { 122,3366 }, { 123,3366 }, { 124,3366 }, { 125,3882 }, { 126,4140 },
+ { 127,3366 }, { 128,3366 }, { 129,3366 }, { 130,3366 }, { 131,3366 },
+ { 132,3366 }, { 133,3366 }, { 134,3366 }, { 135,3366 }, { 136,3366 },
+ { 137,3366 }, { 138,3366 }, { 139,3366 }, { 140,3366 }, { 141,3366 },
+ { 142,3366 }, { 143,3366 }, { 144,3366 }, { 145,3366 }, { 146,3366 },
+ { 147,3366 }, { 148,3366 }, { 149,3366 }, { 150,3366 }, { 151,3366 },
+
+ { 152,3366 }, { 153,3366 }, { 154,3366 }, { 155,3366 }, { 156,3366 },
+ { 157,3366 }, { 158,3366 }, { 159,3366 }, { 160,3366 }, { 161,3366 },
+ { 162,3366 }, { 163,3366 }, { 164,3366 }, { 165,3366 }, { 166,3366 },
+ { 167,3366 }, { 168,3366 }, { 169,3366 }, { 170,3366 }, { 171,3366 },
+ { 172,3366 }, { 173,3366 }, { 174,3366 }, { 175,3366 }, { 176,3366 },
+ { 177,3366 }, { 178,3366 }, { 179,3366 }, { 180,3366 }, { 181,3366 },
+ { 182,3366 }, { 183,3366 }, { 184,3366 }, { 185,3366 }, { 186,3366 },
+ { 187,3366 }, { 188,3366 }, { 189,3366 }, { 190,3366 }, { 191,3366 },
+ { 192,3366 }, { 193,3366 }, { 194,3366 }, { 195,3366 }, { 196,3366 },
+ { 197,3366 }, { 198,3366 }, { 199,3366 }, { 200,3366 }, { 201,3366 },
+
+ { 202,3366 }, { 203,3366 }, { 204,3366 }, { 205,3366 }, { 206,3366 },
+ { 207,3366 }, { 208,3366 }, { 209,3366 }, { 210,3366 }, { 211,3366 },
+ { 212,3366 }, { 213,3366 }, { 214,3366 }, { 215,3366 }, { 216,3366 },
+ { 217,3366 }, { 218,3366 }, { 219,3366 }, { 220,3366 }, { 221,3366 },
+ { 222,3366 }, { 223,3366 }, { 224,3366 }, { 225,3366 }, { 226,3366 },
+ { 227,3366 }, { 228,3366 }, { 229,3366 }, { 230,3366 }, { 231,3366 },
+ { 232,3366 }, { 233,3366 }, { 234,3366 }, { 235,3366 }, { 236,3366 },
+ { 237,3366 }, { 238,3366 }, { 239,3366 }, { 240,3366 }, { 241,3366 },
+ { 242,3366 }, { 243,3366 }, { 244,3366 }, { 245,3366 }, { 246,3366 },
+ { 247,3366 }, { 248,3366 }, { 249,3366 }, { 250,3366 }, { 251,3366 },
+
+ { 252,3366 }, { 253,3366 }, { 254,3366 }, { 255,3366 }, { 256,3366 },
+ {   0,   0 }, {   0,10498 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
-
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
  {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+
  {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
-
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+
  {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
-
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
  { 124,   0 }, { 125, 258 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
-
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
-
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8193 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10240 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
-
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
  {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
-
  {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
  {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+
  {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
  {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
  { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
-
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-382 },
+ { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-4657 },
  { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
  { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+
  { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
  { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
  { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
-
  { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
  { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+
  { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
  { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
  { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
-
  { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
  { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+
  { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,7935 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,9982 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
+ {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
+ {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+ {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,9725 },
+ {   1,3496 }, {   2,3496 }, {   3,3496 }, {   4,3496 }, {   5,3496 },
+ {   6,3496 }, {   7,3496 }, {   8,3496 }, {   9,3496 }, {  10,3373 },
+ {  11,3496 }, {  12,3496 }, {  13,3373 }, {  14,3496 }, {  15,3496 },
+ {  16,3496 }, {  17,3496 }, {  18,3496 }, {  19,3496 }, {  20,3496 },
+
+ {  21,3496 }, {  22,3496 }, {  23,3496 }, {  24,3496 }, {  25,3496 },
+ {  26,3496 }, {  27,3496 }, {  28,3496 }, {  29,3496 }, {  30,3496 },
+ {  31,3496 }, {  32,3496 }, {  33,3496 }, {  34,3496 }, {  35,3496 },
+ {  36,3496 }, {  37,3496 }, {  38,3496 }, {  39,3496 }, {  40,3496 },
+ {  41,3496 }, {  42,3496 }, {  43,3496 }, {  44,3496 }, {  45,3496 },
+ {  46,3496 }, {  47,3496 }, {  48,3496 }, {  49,3496 }, {  50,3496 },
+ {  51,3496 }, {  52,3496 }, {  53,3496 }, {  54,3496 }, {  55,3496 },
+ {  56,3496 }, {  57,3496 }, {  58,3496 }, {  59,3496 }, {  60,3496 },
+ {  61,3496 }, {  62,3496 }, {  63,3496 }, {  64,3496 }, {  65,3496 },
+ {  66,3496 }, {  67,3496 }, {  68,3496 }, {  69,3496 }, {  70,3496 },
+
+ {  71,3496 }, {  72,3496 }, {  73,3496 }, {  74,3496 }, {  75,3496 },
+ {  76,3496 }, {  77,3496 }, {  78,3496 }, {  79,3496 }, {  80,3496 },
+ {  81,3496 }, {  82,3496 }, {  83,3496 }, {  84,3496 }, {  85,3496 },
+ {  86,3496 }, {  87,3496 }, {  88,3496 }, {  89,3496 }, {  90,3496 },
+ {  91,3496 }, {   0,   0 }, {  93,3496 }, {  94,3496 }, {  95,3496 },
+ {  96,3496 }, {  97,3496 }, {  98,3496 }, {  99,3496 }, { 100,3496 },
+ { 101,3496 }, { 102,3496 }, { 103,3496 }, { 104,3496 }, { 105,3496 },
+ { 106,3496 }, { 107,3496 }, { 108,3496 }, { 109,3496 }, { 110,3496 },
+ { 111,3496 }, { 112,3496 }, { 113,3496 }, { 114,3496 }, { 115,3496 },
+ { 116,3496 }, { 117,3496 }, { 118,3496 }, { 119,3496 }, { 120,3496 },
+
+ { 121,3496 }, { 122,3496 }, { 123,3753 }, { 124,3496 }, { 125,3496 },
+ { 126,3496 }, { 127,3496 }, { 128,3496 }, { 129,3496 }, { 130,3496 },
+ { 131,3496 }, { 132,3496 }, { 133,3496 }, { 134,3496 }, { 135,3496 },
+ { 136,3496 }, { 137,3496 }, { 138,3496 }, { 139,3496 }, { 140,3496 },
+ { 141,3496 }, { 142,3496 }, { 143,3496 }, { 144,3496 }, { 145,3496 },
+ { 146,3496 }, { 147,3496 }, { 148,3496 }, { 149,3496 }, { 150,3496 },
+ { 151,3496 }, { 152,3496 }, { 153,3496 }, { 154,3496 }, { 155,3496 },
+ { 156,3496 }, { 157,3496 }, { 158,3496 }, { 159,3496 }, { 160,3496 },
+ { 161,3496 }, { 162,3496 }, { 163,3496 }, { 164,3496 }, { 165,3496 },
+ { 166,3496 }, { 167,3496 }, { 168,3496 }, { 169,3496 }, { 170,3496 },
+
+ { 171,3496 }, { 172,3496 }, { 173,3496 }, { 174,3496 }, { 175,3496 },
+ { 176,3496 }, { 177,3496 }, { 178,3496 }, { 179,3496 }, { 180,3496 },
+ { 181,3496 }, { 182,3496 }, { 183,3496 }, { 184,3496 }, { 185,3496 },
+ { 186,3496 }, { 187,3496 }, { 188,3496 }, { 189,3496 }, { 190,3496 },
+ { 191,3496 }, { 192,3496 }, { 193,3496 }, { 194,3496 }, { 195,3496 },
+ { 196,3496 }, { 197,3496 }, { 198,3496 }, { 199,3496 }, { 200,3496 },
+ { 201,3496 }, { 202,3496 }, { 203,3496 }, { 204,3496 }, { 205,3496 },
+ { 206,3496 }, { 207,3496 }, { 208,3496 }, { 209,3496 }, { 210,3496 },
+ { 211,3496 }, { 212,3496 }, { 213,3496 }, { 214,3496 }, { 215,3496 },
+ { 216,3496 }, { 217,3496 }, { 218,3496 }, { 219,3496 }, { 220,3496 },
+
+ { 221,3496 }, { 222,3496 }, { 223,3496 }, { 224,3496 }, { 225,3496 },
+ { 226,3496 }, { 227,3496 }, { 228,3496 }, { 229,3496 }, { 230,3496 },
+ { 231,3496 }, { 232,3496 }, { 233,3496 }, { 234,3496 }, { 235,3496 },
+ { 236,3496 }, { 237,3496 }, { 238,3496 }, { 239,3496 }, { 240,3496 },
+ { 241,3496 }, { 242,3496 }, { 243,3496 }, { 244,3496 }, { 245,3496 },
+ { 246,3496 }, { 247,3496 }, { 248,3496 }, { 249,3496 }, { 250,3496 },
+ { 251,3496 }, { 252,3496 }, { 253,3496 }, { 254,3496 }, { 255,3496 },
+ {   0,  38 }, {   0,9468 }, {   1,-5087 }, {   2,-5087 }, {   3,-5087 },
+ {   4,-5087 }, {   5,-5087 }, {   6,-5087 }, {   7,-5087 }, {   8,-5087 },
+ {   9,-5087 }, {  10,-5087 }, {  11,-5087 }, {  12,-5087 }, {  13,-5087 },
+
+ {  14,-5087 }, {  15,-5087 }, {  16,-5087 }, {  17,-5087 }, {  18,-5087 },
+ {  19,-5087 }, {  20,-5087 }, {  21,-5087 }, {  22,-5087 }, {  23,-5087 },
+ {  24,-5087 }, {  25,-5087 }, {  26,-5087 }, {  27,-5087 }, {  28,-5087 },
+ {  29,-5087 }, {  30,-5087 }, {  31,-5087 }, {  32,-5087 }, {  33,-5087 },
+ {  34,-5461 }, {  35,-5087 }, {  36,-5087 }, {  37,-5087 }, {  38,-5087 },
+ {  39,-5087 }, {  40,-5087 }, {  41,-5087 }, {  42,-5087 }, {  43,-5087 },
+ {  44,-5087 }, {  45,-5087 }, {  46,-5087 }, {  47,-5087 }, {  48,-5087 },
+ {  49,-5087 }, {  50,-5087 }, {  51,-5087 }, {  52,-5087 }, {  53,-5087 },
+ {  54,-5087 }, {  55,-5087 }, {  56,-5087 }, {  57,-5087 }, {  58,-5087 },
+ {  59,-5087 }, {  60,-5087 }, {  61,-5087 }, {  62,-5087 }, {  63,-5087 },
+
+ {  64,-5087 }, {  65,-5087 }, {  66,-5087 }, {  67,-5087 }, {  68,-5087 },
+ {  69,-5087 }, {  70,-5087 }, {  71,-5087 }, {  72,-5087 }, {  73,-5087 },
+ {  74,-5087 }, {  75,-5087 }, {  76,-5087 }, {  77,-5087 }, {  78,-5087 },
+ {  79,-5087 }, {  80,-5087 }, {  81,-5087 }, {  82,-5087 }, {  83,-5087 },
+ {  84,-5087 }, {  85,-5087 }, {  86,-5087 }, {  87,-5087 }, {  88,-5087 },
+ {  89,-5087 }, {  90,-5087 }, {  91,-5087 }, {  92,-4829 }, {  93,-5087 },
+ {  94,-5087 }, {  95,-5087 }, {  96,-5087 }, {  97,-5087 }, {  98,-5087 },
+ {  99,-5087 }, { 100,-5087 }, { 101,-5087 }, { 102,-5087 }, { 103,-5087 },
+ { 104,-5087 }, { 105,-5087 }, { 106,-5087 }, { 107,-5087 }, { 108,-5087 },
+ { 109,-5087 }, { 110,-5087 }, { 111,-5087 }, { 112,-5087 }, { 113,-5087 },
+
+ { 114,-5087 }, { 115,-5087 }, { 116,-5087 }, { 117,-5087 }, { 118,-5087 },
+ { 119,-5087 }, { 120,-5087 }, { 121,-5087 }, { 122,-5087 }, { 123,-5087 },
+ { 124,-5087 }, { 125,-5087 }, { 126,-5087 }, { 127,-5087 }, { 128,-5087 },
+ { 129,-5087 }, { 130,-5087 }, { 131,-5087 }, { 132,-5087 }, { 133,-5087 },
+ { 134,-5087 }, { 135,-5087 }, { 136,-5087 }, { 137,-5087 }, { 138,-5087 },
+ { 139,-5087 }, { 140,-5087 }, { 141,-5087 }, { 142,-5087 }, { 143,-5087 },
+ { 144,-5087 }, { 145,-5087 }, { 146,-5087 }, { 147,-5087 }, { 148,-5087 },
+ { 149,-5087 }, { 150,-5087 }, { 151,-5087 }, { 152,-5087 }, { 153,-5087 },
+ { 154,-5087 }, { 155,-5087 }, { 156,-5087 }, { 157,-5087 }, { 158,-5087 },
+ { 159,-5087 }, { 160,-5087 }, { 161,-5087 }, { 162,-5087 }, { 163,-5087 },
+
+ { 164,-5087 }, { 165,-5087 }, { 166,-5087 }, { 167,-5087 }, { 168,-5087 },
+ { 169,-5087 }, { 170,-5087 }, { 171,-5087 }, { 172,-5087 }, { 173,-5087 },
+ { 174,-5087 }, { 175,-5087 }, { 176,-5087 }, { 177,-5087 }, { 178,-5087 },
+ { 179,-5087 }, { 180,-5087 }, { 181,-5087 }, { 182,-5087 }, { 183,-5087 },
+ { 184,-5087 }, { 185,-5087 }, { 186,-5087 }, { 187,-5087 }, { 188,-5087 },
+ { 189,-5087 }, { 190,-5087 }, { 191,-5087 }, { 192,-5087 }, { 193,-5087 },
+ { 194,-5087 }, { 195,-5087 }, { 196,-5087 }, { 197,-5087 }, { 198,-5087 },
+ { 199,-5087 }, { 200,-5087 }, { 201,-5087 }, { 202,-5087 }, { 203,-5087 },
+ { 204,-5087 }, { 205,-5087 }, { 206,-5087 }, { 207,-5087 }, { 208,-5087 },
+ { 209,-5087 }, { 210,-5087 }, { 211,-5087 }, { 212,-5087 }, { 213,-5087 },
+
+ { 214,-5087 }, { 215,-5087 }, { 216,-5087 }, { 217,-5087 }, { 218,-5087 },
+ { 219,-5087 }, { 220,-5087 }, { 221,-5087 }, { 222,-5087 }, { 223,-5087 },
+ { 224,-5087 }, { 225,-5087 }, { 226,-5087 }, { 227,-5087 }, { 228,-5087 },
+ { 229,-5087 }, { 230,-5087 }, { 231,-5087 }, { 232,-5087 }, { 233,-5087 },
+ { 234,-5087 }, { 235,-5087 }, { 236,-5087 }, { 237,-5087 }, { 238,-5087 },
+ { 239,-5087 }, { 240,-5087 }, { 241,-5087 }, { 242,-5087 }, { 243,-5087 },
+ { 244,-5087 }, { 245,-5087 }, { 246,-5087 }, { 247,-5087 }, { 248,-5087 },
+ { 249,-5087 }, { 250,-5087 }, { 251,-5087 }, { 252,-5087 }, { 253,-5087 },
+ { 254,-5087 }, { 255,-5087 }, { 256,-5087 }, {   0,  39 }, {   0,9210 },
+ {   1,-4829 }, {   2,-4829 }, {   3,-4829 }, {   4,-4829 }, {   5,-4829 },
+
+ {   6,-4829 }, {   7,-4829 }, {   8,-4829 }, {   9,-4829 }, {  10,-4829 },
+ {  11,-4829 }, {  12,-4829 }, {  13,-4829 }, {  14,-4829 }, {  15,-4829 },
+ {  16,-4829 }, {  17,-4829 }, {  18,-4829 }, {  19,-4829 }, {  20,-4829 },
+ {  21,-4829 }, {  22,-4829 }, {  23,-4829 }, {  24,-4829 }, {  25,-4829 },
+ {  26,-4829 }, {  27,-4829 }, {  28,-4829 }, {  29,-4829 }, {  30,-4829 },
+ {  31,-4829 }, {  32,-4829 }, {  33,-4829 }, {  34,-4829 }, {  35,-4829 },
+ {  36,-4829 }, {  37,-4829 }, {  38,-4829 }, {  39,-5717 }, {  40,-4829 },
+ {  41,-4829 }, {  42,-4829 }, {  43,-4829 }, {  44,-4829 }, {  45,-4829 },
+ {  46,-4829 }, {  47,-4829 }, {  48,-4829 }, {  49,-4829 }, {  50,-4829 },
+ {  51,-4829 }, {  52,-4829 }, {  53,-4829 }, {  54,-4829 }, {  55,-4829 },
+
+ {  56,-4829 }, {  57,-4829 }, {  58,-4829 }, {  59,-4829 }, {  60,-4829 },
+ {  61,-4829 }, {  62,-4829 }, {  63,-4829 }, {  64,-4829 }, {  65,-4829 },
+ {  66,-4829 }, {  67,-4829 }, {  68,-4829 }, {  69,-4829 }, {  70,-4829 },
+ {  71,-4829 }, {  72,-4829 }, {  73,-4829 }, {  74,-4829 }, {  75,-4829 },
+ {  76,-4829 }, {  77,-4829 }, {  78,-4829 }, {  79,-4829 }, {  80,-4829 },
+ {  81,-4829 }, {  82,-4829 }, {  83,-4829 }, {  84,-4829 }, {  85,-4829 },
+ {  86,-4829 }, {  87,-4829 }, {  88,-4829 }, {  89,-4829 }, {  90,-4829 },
+ {  91,-4829 }, {  92,-4571 }, {  93,-4829 }, {  94,-4829 }, {  95,-4829 },
+ {  96,-4829 }, {  97,-4829 }, {  98,-4829 }, {  99,-4829 }, { 100,-4829 },
+ { 101,-4829 }, { 102,-4829 }, { 103,-4829 }, { 104,-4829 }, { 105,-4829 },
+
+ { 106,-4829 }, { 107,-4829 }, { 108,-4829 }, { 109,-4829 }, { 110,-4829 },
+ { 111,-4829 }, { 112,-4829 }, { 113,-4829 }, { 114,-4829 }, { 115,-4829 },
+ { 116,-4829 }, { 117,-4829 }, { 118,-4829 }, { 119,-4829 }, { 120,-4829 },
+ { 121,-4829 }, { 122,-4829 }, { 123,-4829 }, { 124,-4829 }, { 125,-4829 },
+ { 126,-4829 }, { 127,-4829 }, { 128,-4829 }, { 129,-4829 }, { 130,-4829 },
+ { 131,-4829 }, { 132,-4829 }, { 133,-4829 }, { 134,-4829 }, { 135,-4829 },
+ { 136,-4829 }, { 137,-4829 }, { 138,-4829 }, { 139,-4829 }, { 140,-4829 },
+ { 141,-4829 }, { 142,-4829 }, { 143,-4829 }, { 144,-4829 }, { 145,-4829 },
+ { 146,-4829 }, { 147,-4829 }, { 148,-4829 }, { 149,-4829 }, { 150,-4829 },
+ { 151,-4829 }, { 152,-4829 }, { 153,-4829 }, { 154,-4829 }, { 155,-4829 },
+
+ { 156,-4829 }, { 157,-4829 }, { 158,-4829 }, { 159,-4829 }, { 160,-4829 },
+ { 161,-4829 }, { 162,-4829 }, { 163,-4829 }, { 164,-4829 }, { 165,-4829 },
+ { 166,-4829 }, { 167,-4829 }, { 168,-4829 }, { 169,-4829 }, { 170,-4829 },
+ { 171,-4829 }, { 172,-4829 }, { 173,-4829 }, { 174,-4829 }, { 175,-4829 },
+ { 176,-4829 }, { 177,-4829 }, { 178,-4829 }, { 179,-4829 }, { 180,-4829 },
+ { 181,-4829 }, { 182,-4829 }, { 183,-4829 }, { 184,-4829 }, { 185,-4829 },
+ { 186,-4829 }, { 187,-4829 }, { 188,-4829 }, { 189,-4829 }, { 190,-4829 },
+ { 191,-4829 }, { 192,-4829 }, { 193,-4829 }, { 194,-4829 }, { 195,-4829 },
+ { 196,-4829 }, { 197,-4829 }, { 198,-4829 }, { 199,-4829 }, { 200,-4829 },
+ { 201,-4829 }, { 202,-4829 }, { 203,-4829 }, { 204,-4829 }, { 205,-4829 },
+
+ { 206,-4829 }, { 207,-4829 }, { 208,-4829 }, { 209,-4829 }, { 210,-4829 },
+ { 211,-4829 }, { 212,-4829 }, { 213,-4829 }, { 214,-4829 }, { 215,-4829 },
+ { 216,-4829 }, { 217,-4829 }, { 218,-4829 }, { 219,-4829 }, { 220,-4829 },
+ { 221,-4829 }, { 222,-4829 }, { 223,-4829 }, { 224,-4829 }, { 225,-4829 },
+ { 226,-4829 }, { 227,-4829 }, { 228,-4829 }, { 229,-4829 }, { 230,-4829 },
+ { 231,-4829 }, { 232,-4829 }, { 233,-4829 }, { 234,-4829 }, { 235,-4829 },
+ { 236,-4829 }, { 237,-4829 }, { 238,-4829 }, { 239,-4829 }, { 240,-4829 },
+ { 241,-4829 }, { 242,-4829 }, { 243,-4829 }, { 244,-4829 }, { 245,-4829 },
+ { 246,-4829 }, { 247,-4829 }, { 248,-4829 }, { 249,-4829 }, { 250,-4829 },
+ { 251,-4829 }, { 252,-4829 }, { 253,-4829 }, { 254,-4829 }, { 255,-4829 },
+
+ { 256,-4829 }, {   0,   0 }, {   0,8952 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   9,2602 }, {  10,2602 }, {   0,   0 }, {   0,   0 },
+ {  13,2602 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,2602 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2602 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 125,2602 }, { 126,2602 }, {   0,  49 },
+ {   0,8824 }, {   1,-4382 }, {   2,-4382 }, {   3,-4382 }, {   4,-4382 },
+ {   5,-4382 }, {   6,-4382 }, {   7,-4382 }, {   8,-4382 }, {   9,-4382 },
+ {  10,-4382 }, {  11,-4382 }, {  12,-4382 }, {  13,-4382 }, {  14,-4382 },
+ {  15,-4382 }, {  16,-4382 }, {  17,-4382 }, {  18,-4382 }, {  19,-4382 },
+
+ {  20,-4382 }, {  21,-4382 }, {  22,-4382 }, {  23,-4382 }, {  24,-4382 },
+ {  25,-4382 }, {  26,-4382 }, {  27,-4382 }, {  28,-4382 }, {  29,-4382 },
+ {  30,-4382 }, {  31,-4382 }, {  32,-4382 }, {  33,-4382 }, {  34,-4382 },
+ {  35,-4382 }, {  36,-4382 }, {  37,-4382 }, {  38,-4382 }, {  39,-4382 },
+ {  40,-4382 }, {  41,-4382 }, {  42,-4382 }, {  43,-4382 }, {  44,-4382 },
+ {  45,-4382 }, {  46,-4382 }, {  47,-4382 }, {  48,-4382 }, {  49,-4382 },
+ {  50,-4382 }, {  51,-4382 }, {  52,-4382 }, {  53,-4382 }, {  54,-4382 },
+ {  55,-4382 }, {  56,-4382 }, {  57,-4382 }, {  58,-4382 }, {  59,-4382 },
+ {  60,-4382 }, {  61,-4382 }, {  62,-4382 }, {  63,-4382 }, {  64,-4382 },
+ {  65,-4382 }, {  66,-4382 }, {  67,-4382 }, {  68,-4382 }, {  69,-4382 },
+
+ {  70,-4382 }, {  71,-4382 }, {  72,-4382 }, {  73,-4382 }, {  74,-4382 },
+ {  75,-4382 }, {  76,-4382 }, {  77,-4382 }, {  78,-4382 }, {  79,-4382 },
+ {  80,-4382 }, {  81,-4382 }, {  82,-4382 }, {  83,-4382 }, {  84,-4382 },
+ {  85,-4382 }, {  86,-4382 }, {  87,-4382 }, {  88,-4382 }, {  89,-4382 },
+ {  90,-4382 }, {  91,-4382 }, {  92,-4124 }, {  93,-6092 }, {  94,-4382 },
+ {  95,-4382 }, {  96,-4382 }, {  97,-4382 }, {  98,-4382 }, {  99,-4382 },
+ { 100,-4382 }, { 101,-4382 }, { 102,-4382 }, { 103,-4382 }, { 104,-4382 },
+ { 105,-4382 }, { 106,-4382 }, { 107,-4382 }, { 108,-4382 }, { 109,-4382 },
+ { 110,-4382 }, { 111,-4382 }, { 112,-4382 }, { 113,-4382 }, { 114,-4382 },
+ { 115,-4382 }, { 116,-4382 }, { 117,-4382 }, { 118,-4382 }, { 119,-4382 },
+
+ { 120,-4382 }, { 121,-4382 }, { 122,-4382 }, { 123,-4382 }, { 124,-4382 },
+ { 125,-4382 }, { 126,-4382 }, { 127,-4382 }, { 128,-4382 }, { 129,-4382 },
+ { 130,-4382 }, { 131,-4382 }, { 132,-4382 }, { 133,-4382 }, { 134,-4382 },
+ { 135,-4382 }, { 136,-4382 }, { 137,-4382 }, { 138,-4382 }, { 139,-4382 },
+ { 140,-4382 }, { 141,-4382 }, { 142,-4382 }, { 143,-4382 }, { 144,-4382 },
+ { 145,-4382 }, { 146,-4382 }, { 147,-4382 }, { 148,-4382 }, { 149,-4382 },
+ { 150,-4382 }, { 151,-4382 }, { 152,-4382 }, { 153,-4382 }, { 154,-4382 },
+ { 155,-4382 }, { 156,-4382 }, { 157,-4382 }, { 158,-4382 }, { 159,-4382 },
+ { 160,-4382 }, { 161,-4382 }, { 162,-4382 }, { 163,-4382 }, { 164,-4382 },
+ { 165,-4382 }, { 166,-4382 }, { 167,-4382 }, { 168,-4382 }, { 169,-4382 },
+
+ { 170,-4382 }, { 171,-4382 }, { 172,-4382 }, { 173,-4382 }, { 174,-4382 },
+ { 175,-4382 }, { 176,-4382 }, { 177,-4382 }, { 178,-4382 }, { 179,-4382 },
+ { 180,-4382 }, { 181,-4382 }, { 182,-4382 }, { 183,-4382 }, { 184,-4382 },
+ { 185,-4382 }, { 186,-4382 }, { 187,-4382 }, { 188,-4382 }, { 189,-4382 },
+ { 190,-4382 }, { 191,-4382 }, { 192,-4382 }, { 193,-4382 }, { 194,-4382 },
+ { 195,-4382 }, { 196,-4382 }, { 197,-4382 }, { 198,-4382 }, { 199,-4382 },
+ { 200,-4382 }, { 201,-4382 }, { 202,-4382 }, { 203,-4382 }, { 204,-4382 },
+ { 205,-4382 }, { 206,-4382 }, { 207,-4382 }, { 208,-4382 }, { 209,-4382 },
+ { 210,-4382 }, { 211,-4382 }, { 212,-4382 }, { 213,-4382 }, { 214,-4382 },
+ { 215,-4382 }, { 216,-4382 }, { 217,-4382 }, { 218,-4382 }, { 219,-4382 },
+
+ { 220,-4382 }, { 221,-4382 }, { 222,-4382 }, { 223,-4382 }, { 224,-4382 },
+ { 225,-4382 }, { 226,-4382 }, { 227,-4382 }, { 228,-4382 }, { 229,-4382 },
+ { 230,-4382 }, { 231,-4382 }, { 232,-4382 }, { 233,-4382 }, { 234,-4382 },
+ { 235,-4382 }, { 236,-4382 }, { 237,-4382 }, { 238,-4382 }, { 239,-4382 },
+ { 240,-4382 }, { 241,-4382 }, { 242,-4382 }, { 243,-4382 }, { 244,-4382 },
+ { 245,-4382 }, { 246,-4382 }, { 247,-4382 }, { 248,-4382 }, { 249,-4382 },
+ { 250,-4382 }, { 251,-4382 }, { 252,-4382 }, { 253,-4382 }, { 254,-4382 },
+ { 255,-4382 }, { 256,-4382 }, {   0,   0 }, {   0,8566 }, {   1,-6247 },
+ {   2,-6247 }, {   3,-6247 }, {   4,-6247 }, {   5,-6247 }, {   6,-6247 },
+ {   7,-6247 }, {   8,-6247 }, {   9,-6368 }, {  10,-6368 }, {  11,-6247 },
+
+ {  12,-6247 }, {  13,-6368 }, {  14,-6247 }, {  15,-6247 }, {  16,-6247 },
+ {  17,-6247 }, {  18,-6247 }, {  19,-6247 }, {  20,-6247 }, {  21,-6247 },
+ {  22,-6247 }, {  23,-6247 }, {  24,-6247 }, {  25,-6247 }, {  26,-6247 },
+ {  27,-6247 }, {  28,-6247 }, {  29,-6247 }, {  30,-6247 }, {  31,-6247 },
+ {  32,-6368 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6247 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6368 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6247 }, {  46,-6368 },
+ {  47,-6368 }, {  48,-6247 }, {  49,-6247 }, {  50,-6247 }, {  51,-6247 },
+ {  52,-6247 }, {  53,-6247 }, {  54,-6247 }, {  55,-6247 }, {  56,-6247 },
+ {  57,-6247 }, {  58,-6247 }, {   0,   0 }, {   0,   0 }, {  61,-6368 },
+
+ {   0,   0 }, {  63,-6247 }, {   0,   0 }, {  65,-6247 }, {  66,-6247 },
+ {  67,-6247 }, {  68,-6247 }, {  69,-6247 }, {  70,-6247 }, {  71,-6247 },
+ {  72,-6247 }, {  73,-6247 }, {  74,-6247 }, {  75,-6247 }, {  76,-6247 },
+ {  77,-6247 }, {  78,-6247 }, {  79,-6247 }, {  80,-6247 }, {  81,-6247 },
+ {  82,-6247 }, {  83,-6247 }, {  84,-6247 }, {  85,-6247 }, {  86,-6247 },
+ {  87,-6247 }, {  88,-6247 }, {  89,-6247 }, {  90,-6247 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6247 }, {   0,   0 },
+ {  97,-6247 }, {  98,-6247 }, {  99,-6247 }, { 100,-6247 }, { 101,-6247 },
+ { 102,-6247 }, { 103,-6247 }, { 104,-6247 }, { 105,-6247 }, { 106,-6247 },
+ { 107,-6247 }, { 108,-6247 }, { 109,-6247 }, { 110,-6247 }, { 111,-6247 },
+
+ { 112,-6247 }, { 113,-6247 }, { 114,-6247 }, { 115,2851 }, { 116,-6247 },
+ { 117,-6247 }, { 118,-6247 }, { 119,-6247 }, { 120,-6247 }, { 121,-6247 },
+ { 122,-6247 }, {   0,   0 }, { 124,-6368 }, { 125,-6368 }, { 126,-6368 },
+ { 127,-6247 }, { 128,-6247 }, { 129,-6247 }, { 130,-6247 }, { 131,-6247 },
+ { 132,-6247 }, { 133,-6247 }, { 134,-6247 }, { 135,-6247 }, { 136,-6247 },
+ { 137,-6247 }, { 138,-6247 }, { 139,-6247 }, { 140,-6247 }, { 141,-6247 },
+ { 142,-6247 }, { 143,-6247 }, { 144,-6247 }, { 145,-6247 }, { 146,-6247 },
+ { 147,-6247 }, { 148,-6247 }, { 149,-6247 }, { 150,-6247 }, { 151,-6247 },
+ { 152,-6247 }, { 153,-6247 }, { 154,-6247 }, { 155,-6247 }, { 156,-6247 },
+ { 157,-6247 }, { 158,-6247 }, { 159,-6247 }, { 160,-6247 }, { 161,-6247 },
+
+ { 162,-6247 }, { 163,-6247 }, { 164,-6247 }, { 165,-6247 }, { 166,-6247 },
+ { 167,-6247 }, { 168,-6247 }, { 169,-6247 }, { 170,-6247 }, { 171,-6247 },
+ { 172,-6247 }, { 173,-6247 }, { 174,-6247 }, { 175,-6247 }, { 176,-6247 },
+ { 177,-6247 }, { 178,-6247 }, { 179,-6247 }, { 180,-6247 }, { 181,-6247 },
+ { 182,-6247 }, { 183,-6247 }, { 184,-6247 }, { 185,-6247 }, { 186,-6247 },
+ { 187,-6247 }, { 188,-6247 }, { 189,-6247 }, { 190,-6247 }, { 191,-6247 },
+ { 192,-6247 }, { 193,-6247 }, { 194,-6247 }, { 195,-6247 }, { 196,-6247 },
+ { 197,-6247 }, { 198,-6247 }, { 199,-6247 }, { 200,-6247 }, { 201,-6247 },
+ { 202,-6247 }, { 203,-6247 }, { 204,-6247 }, { 205,-6247 }, { 206,-6247 },
+ { 207,-6247 }, { 208,-6247 }, { 209,-6247 }, { 210,-6247 }, { 211,-6247 },
+
+ { 212,-6247 }, { 213,-6247 }, { 214,-6247 }, { 215,-6247 }, { 216,-6247 },
+ { 217,-6247 }, { 218,-6247 }, { 219,-6247 }, { 220,-6247 }, { 221,-6247 },
+ { 222,-6247 }, { 223,-6247 }, { 224,-6247 }, { 225,-6247 }, { 226,-6247 },
+ { 227,-6247 }, { 228,-6247 }, { 229,-6247 }, { 230,-6247 }, { 231,-6247 },
+ { 232,-6247 }, { 233,-6247 }, { 234,-6247 }, { 235,-6247 }, { 236,-6247 },
+ { 237,-6247 }, { 238,-6247 }, { 239,-6247 }, { 240,-6247 }, { 241,-6247 },
+ { 242,-6247 }, { 243,-6247 }, { 244,-6247 }, { 245,-6247 }, { 246,-6247 },
+ { 247,-6247 }, { 248,-6247 }, { 249,-6247 }, { 250,-6247 }, { 251,-6247 },
+ { 252,-6247 }, { 253,-6247 }, { 254,-6247 }, { 255,-6247 }, { 256,-6247 },
+ {   0,   0 }, {   0,8308 }, {   1,-6505 }, {   2,-6505 }, {   3,-6505 },
+
+ {   4,-6505 }, {   5,-6505 }, {   6,-6505 }, {   7,-6505 }, {   8,-6505 },
+ {   9,-6626 }, {  10,-6626 }, {  11,-6505 }, {  12,-6505 }, {  13,-6626 },
+ {  14,-6505 }, {  15,-6505 }, {  16,-6505 }, {  17,-6505 }, {  18,-6505 },
+ {  19,-6505 }, {  20,-6505 }, {  21,-6505 }, {  22,-6505 }, {  23,-6505 },
+ {  24,-6505 }, {  25,-6505 }, {  26,-6505 }, {  27,-6505 }, {  28,-6505 },
+ {  29,-6505 }, {  30,-6505 }, {  31,-6505 }, {  32,-6626 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-6505 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-6626 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-6505 }, {  46,-6626 }, {  47,-6626 }, {  48,-6505 },
+ {  49,-6505 }, {  50,-6505 }, {  51,-6505 }, {  52,-6505 }, {  53,-6505 },
+
+ {  54,-6505 }, {  55,-6505 }, {  56,-6505 }, {  57,-6505 }, {  58,-6505 },
+ {   0,   0 }, {   0,   0 }, {  61,-6626 }, {   0,   0 }, {  63,-6505 },
+ {   0,   0 }, {  65,-6505 }, {  66,-6505 }, {  67,-6505 }, {  68,-6505 },
+ {  69,-6505 }, {  70,-6505 }, {  71,-6505 }, {  72,-6505 }, {  73,-6505 },
+ {  74,-6505 }, {  75,-6505 }, {  76,-6505 }, {  77,-6505 }, {  78,-6505 },
+ {  79,-6505 }, {  80,-6505 }, {  81,-6505 }, {  82,-6505 }, {  83,-6505 },
+ {  84,-6505 }, {  85,-6505 }, {  86,-6505 }, {  87,-6505 }, {  88,-6505 },
+ {  89,-6505 }, {  90,-6505 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-6505 }, {   0,   0 }, {  97,-6505 }, {  98,-6505 },
+ {  99,-6505 }, { 100,-6505 }, { 101,-6505 }, { 102,-6505 }, { 103,-6505 },
+
+ { 104,-6505 }, { 105,-6505 }, { 106,-6505 }, { 107,-6505 }, { 108,2851 },
+ { 109,-6505 }, { 110,-6505 }, { 111,-6505 }, { 112,-6505 }, { 113,-6505 },
+ { 114,-6505 }, { 115,-6505 }, { 116,-6505 }, { 117,-6505 }, { 118,-6505 },
+ { 119,-6505 }, { 120,-6505 }, { 121,-6505 }, { 122,-6505 }, {   0,   0 },
+ { 124,-6626 }, { 125,-6626 }, { 126,-6626 }, { 127,-6505 }, { 128,-6505 },
+ { 129,-6505 }, { 130,-6505 }, { 131,-6505 }, { 132,-6505 }, { 133,-6505 },
+ { 134,-6505 }, { 135,-6505 }, { 136,-6505 }, { 137,-6505 }, { 138,-6505 },
+ { 139,-6505 }, { 140,-6505 }, { 141,-6505 }, { 142,-6505 }, { 143,-6505 },
+ { 144,-6505 }, { 145,-6505 }, { 146,-6505 }, { 147,-6505 }, { 148,-6505 },
+ { 149,-6505 }, { 150,-6505 }, { 151,-6505 }, { 152,-6505 }, { 153,-6505 },
+
+ { 154,-6505 }, { 155,-6505 }, { 156,-6505 }, { 157,-6505 }, { 158,-6505 },
+ { 159,-6505 }, { 160,-6505 }, { 161,-6505 }, { 162,-6505 }, { 163,-6505 },
+ { 164,-6505 }, { 165,-6505 }, { 166,-6505 }, { 167,-6505 }, { 168,-6505 },
+ { 169,-6505 }, { 170,-6505 }, { 171,-6505 }, { 172,-6505 }, { 173,-6505 },
+ { 174,-6505 }, { 175,-6505 }, { 176,-6505 }, { 177,-6505 }, { 178,-6505 },
+ { 179,-6505 }, { 180,-6505 }, { 181,-6505 }, { 182,-6505 }, { 183,-6505 },
+ { 184,-6505 }, { 185,-6505 }, { 186,-6505 }, { 187,-6505 }, { 188,-6505 },
+ { 189,-6505 }, { 190,-6505 }, { 191,-6505 }, { 192,-6505 }, { 193,-6505 },
+ { 194,-6505 }, { 195,-6505 }, { 196,-6505 }, { 197,-6505 }, { 198,-6505 },
+ { 199,-6505 }, { 200,-6505 }, { 201,-6505 }, { 202,-6505 }, { 203,-6505 },
+
+ { 204,-6505 }, { 205,-6505 }, { 206,-6505 }, { 207,-6505 }, { 208,-6505 },
+ { 209,-6505 }, { 210,-6505 }, { 211,-6505 }, { 212,-6505 }, { 213,-6505 },
+ { 214,-6505 }, { 215,-6505 }, { 216,-6505 }, { 217,-6505 }, { 218,-6505 },
+ { 219,-6505 }, { 220,-6505 }, { 221,-6505 }, { 222,-6505 }, { 223,-6505 },
+ { 224,-6505 }, { 225,-6505 }, { 226,-6505 }, { 227,-6505 }, { 228,-6505 },
+ { 229,-6505 }, { 230,-6505 }, { 231,-6505 }, { 232,-6505 }, { 233,-6505 },
+ { 234,-6505 }, { 235,-6505 }, { 236,-6505 }, { 237,-6505 }, { 238,-6505 },
+ { 239,-6505 }, { 240,-6505 }, { 241,-6505 }, { 242,-6505 }, { 243,-6505 },
+ { 244,-6505 }, { 245,-6505 }, { 246,-6505 }, { 247,-6505 }, { 248,-6505 },
+ { 249,-6505 }, { 250,-6505 }, { 251,-6505 }, { 252,-6505 }, { 253,-6505 },
+
+ { 254,-6505 }, { 255,-6505 }, { 256,-6505 }, {   0,   0 }, {   0,8050 },
+ {   1,-6763 }, {   2,-6763 }, {   3,-6763 }, {   4,-6763 }, {   5,-6763 },
+ {   6,-6763 }, {   7,-6763 }, {   8,-6763 }, {   9,-6884 }, {  10,-6884 },
+ {  11,-6763 }, {  12,-6763 }, {  13,-6884 }, {  14,-6763 }, {  15,-6763 },
+ {  16,-6763 }, {  17,-6763 }, {  18,-6763 }, {  19,-6763 }, {  20,-6763 },
+ {  21,-6763 }, {  22,-6763 }, {  23,-6763 }, {  24,-6763 }, {  25,-6763 },
+ {  26,-6763 }, {  27,-6763 }, {  28,-6763 }, {  29,-6763 }, {  30,-6763 },
+ {  31,-6763 }, {  32,-6884 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-6763 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-6884 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6763 },
+
+ {  46,-6884 }, {  47,-6884 }, {  48,-6763 }, {  49,-6763 }, {  50,-6763 },
+ {  51,-6763 }, {  52,-6763 }, {  53,-6763 }, {  54,-6763 }, {  55,-6763 },
+ {  56,-6763 }, {  57,-6763 }, {  58,-6763 }, {   0,   0 }, {   0,   0 },
+ {  61,-6884 }, {   0,   0 }, {  63,-6763 }, {   0,   0 }, {  65,-6763 },
+ {  66,-6763 }, {  67,-6763 }, {  68,-6763 }, {  69,-6763 }, {  70,-6763 },
+ {  71,-6763 }, {  72,-6763 }, {  73,-6763 }, {  74,-6763 }, {  75,-6763 },
+ {  76,-6763 }, {  77,-6763 }, {  78,-6763 }, {  79,-6763 }, {  80,-6763 },
+ {  81,-6763 }, {  82,-6763 }, {  83,-6763 }, {  84,-6763 }, {  85,-6763 },
+ {  86,-6763 }, {  87,-6763 }, {  88,-6763 }, {  89,-6763 }, {  90,-6763 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6763 },
+
+ {   0,   0 }, {  97,-6763 }, {  98,-6763 }, {  99,-6763 }, { 100,-6763 },
+ { 101,2851 }, { 102,-6763 }, { 103,-6763 }, { 104,-6763 }, { 105,-6763 },
+ { 106,-6763 }, { 107,-6763 }, { 108,-6763 }, { 109,-6763 }, { 110,-6763 },
+ { 111,-6763 }, { 112,-6763 }, { 113,-6763 }, { 114,-6763 }, { 115,-6763 },
+ { 116,-6763 }, { 117,-6763 }, { 118,-6763 }, { 119,-6763 }, { 120,-6763 },
+ { 121,-6763 }, { 122,-6763 }, {   0,   0 }, { 124,-6884 }, { 125,-6884 },
+ { 126,-6884 }, { 127,-6763 }, { 128,-6763 }, { 129,-6763 }, { 130,-6763 },
+ { 131,-6763 }, { 132,-6763 }, { 133,-6763 }, { 134,-6763 }, { 135,-6763 },
+ { 136,-6763 }, { 137,-6763 }, { 138,-6763 }, { 139,-6763 }, { 140,-6763 },
+ { 141,-6763 }, { 142,-6763 }, { 143,-6763 }, { 144,-6763 }, { 145,-6763 },
+
+ { 146,-6763 }, { 147,-6763 }, { 148,-6763 }, { 149,-6763 }, { 150,-6763 },
+ { 151,-6763 }, { 152,-6763 }, { 153,-6763 }, { 154,-6763 }, { 155,-6763 },
+ { 156,-6763 }, { 157,-6763 }, { 158,-6763 }, { 159,-6763 }, { 160,-6763 },
+ { 161,-6763 }, { 162,-6763 }, { 163,-6763 }, { 164,-6763 }, { 165,-6763 },
+ { 166,-6763 }, { 167,-6763 }, { 168,-6763 }, { 169,-6763 }, { 170,-6763 },
+ { 171,-6763 }, { 172,-6763 }, { 173,-6763 }, { 174,-6763 }, { 175,-6763 },
+ { 176,-6763 }, { 177,-6763 }, { 178,-6763 }, { 179,-6763 }, { 180,-6763 },
+ { 181,-6763 }, { 182,-6763 }, { 183,-6763 }, { 184,-6763 }, { 185,-6763 },
+ { 186,-6763 }, { 187,-6763 }, { 188,-6763 }, { 189,-6763 }, { 190,-6763 },
+ { 191,-6763 }, { 192,-6763 }, { 193,-6763 }, { 194,-6763 }, { 195,-6763 },
+
+ { 196,-6763 }, { 197,-6763 }, { 198,-6763 }, { 199,-6763 }, { 200,-6763 },
+ { 201,-6763 }, { 202,-6763 }, { 203,-6763 }, { 204,-6763 }, { 205,-6763 },
+ { 206,-6763 }, { 207,-6763 }, { 208,-6763 }, { 209,-6763 }, { 210,-6763 },
+ { 211,-6763 }, { 212,-6763 }, { 213,-6763 }, { 214,-6763 }, { 215,-6763 },
+ { 216,-6763 }, { 217,-6763 }, { 218,-6763 }, { 219,-6763 }, { 220,-6763 },
+ { 221,-6763 }, { 222,-6763 }, { 223,-6763 }, { 224,-6763 }, { 225,-6763 },
+ { 226,-6763 }, { 227,-6763 }, { 228,-6763 }, { 229,-6763 }, { 230,-6763 },
+ { 231,-6763 }, { 232,-6763 }, { 233,-6763 }, { 234,-6763 }, { 235,-6763 },
+ { 236,-6763 }, { 237,-6763 }, { 238,-6763 }, { 239,-6763 }, { 240,-6763 },
+ { 241,-6763 }, { 242,-6763 }, { 243,-6763 }, { 244,-6763 }, { 245,-6763 },
+
+ { 246,-6763 }, { 247,-6763 }, { 248,-6763 }, { 249,-6763 }, { 250,-6763 },
+ { 251,-6763 }, { 252,-6763 }, { 253,-6763 }, { 254,-6763 }, { 255,-6763 },
+ { 256,-6763 }, {   0,   0 }, {   0,7792 }, {   1,-7021 }, {   2,-7021 },
+ {   3,-7021 }, {   4,-7021 }, {   5,-7021 }, {   6,-7021 }, {   7,-7021 },
+ {   8,-7021 }, {   9,-7142 }, {  10,-7142 }, {  11,-7021 }, {  12,-7021 },
+ {  13,-7142 }, {  14,-7021 }, {  15,-7021 }, {  16,-7021 }, {  17,-7021 },
+ {  18,-7021 }, {  19,-7021 }, {  20,-7021 }, {  21,-7021 }, {  22,-7021 },
+ {  23,-7021 }, {  24,-7021 }, {  25,-7021 }, {  26,-7021 }, {  27,-7021 },
+ {  28,-7021 }, {  29,-7021 }, {  30,-7021 }, {  31,-7021 }, {  32,-7142 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7021 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7142 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-7021 }, {  46,-7142 }, {  47,-7142 },
+ {  48,-7021 }, {  49,-7021 }, {  50,-7021 }, {  51,-7021 }, {  52,-7021 },
+ {  53,-7021 }, {  54,-7021 }, {  55,-7021 }, {  56,-7021 }, {  57,-7021 },
+ {  58,-7021 }, {   0,   0 }, {   0,   0 }, {  61,-7142 }, {   0,   0 },
+ {  63,-7021 }, {   0,   0 }, {  65,-7021 }, {  66,-7021 }, {  67,-7021 },
+ {  68,-7021 }, {  69,-7021 }, {  70,-7021 }, {  71,-7021 }, {  72,-7021 },
+ {  73,-7021 }, {  74,-7021 }, {  75,-7021 }, {  76,-7021 }, {  77,-7021 },
+ {  78,-7021 }, {  79,-7021 }, {  80,-7021 }, {  81,-7021 }, {  82,-7021 },
+ {  83,-7021 }, {  84,-7021 }, {  85,-7021 }, {  86,-7021 }, {  87,-7021 },
+
+ {  88,-7021 }, {  89,-7021 }, {  90,-7021 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-7021 }, {   0,   0 }, {  97,-7021 },
+ {  98,-7021 }, {  99,-7021 }, { 100,-7021 }, { 101,2851 }, { 102,-7021 },
+ { 103,-7021 }, { 104,-7021 }, { 105,-7021 }, { 106,-7021 }, { 107,-7021 },
+ { 108,-7021 }, { 109,-7021 }, { 110,-7021 }, { 111,-7021 }, { 112,-7021 },
+ { 113,-7021 }, { 114,-7021 }, { 115,-7021 }, { 116,-7021 }, { 117,-7021 },
+ { 118,-7021 }, { 119,-7021 }, { 120,-7021 }, { 121,-7021 }, { 122,-7021 },
+ {   0,   0 }, { 124,-7142 }, { 125,-7142 }, { 126,-7142 }, { 127,-7021 },
+ { 128,-7021 }, { 129,-7021 }, { 130,-7021 }, { 131,-7021 }, { 132,-7021 },
+ { 133,-7021 }, { 134,-7021 }, { 135,-7021 }, { 136,-7021 }, { 137,-7021 },
+
+ { 138,-7021 }, { 139,-7021 }, { 140,-7021 }, { 141,-7021 }, { 142,-7021 },
+ { 143,-7021 }, { 144,-7021 }, { 145,-7021 }, { 146,-7021 }, { 147,-7021 },
+ { 148,-7021 }, { 149,-7021 }, { 150,-7021 }, { 151,-7021 }, { 152,-7021 },
+ { 153,-7021 }, { 154,-7021 }, { 155,-7021 }, { 156,-7021 }, { 157,-7021 },
+ { 158,-7021 }, { 159,-7021 }, { 160,-7021 }, { 161,-7021 }, { 162,-7021 },
+ { 163,-7021 }, { 164,-7021 }, { 165,-7021 }, { 166,-7021 }, { 167,-7021 },
+ { 168,-7021 }, { 169,-7021 }, { 170,-7021 }, { 171,-7021 }, { 172,-7021 },
+ { 173,-7021 }, { 174,-7021 }, { 175,-7021 }, { 176,-7021 }, { 177,-7021 },
+ { 178,-7021 }, { 179,-7021 }, { 180,-7021 }, { 181,-7021 }, { 182,-7021 },
+ { 183,-7021 }, { 184,-7021 }, { 185,-7021 }, { 186,-7021 }, { 187,-7021 },
+
+ { 188,-7021 }, { 189,-7021 }, { 190,-7021 }, { 191,-7021 }, { 192,-7021 },
+ { 193,-7021 }, { 194,-7021 }, { 195,-7021 }, { 196,-7021 }, { 197,-7021 },
+ { 198,-7021 }, { 199,-7021 }, { 200,-7021 }, { 201,-7021 }, { 202,-7021 },
+ { 203,-7021 }, { 204,-7021 }, { 205,-7021 }, { 206,-7021 }, { 207,-7021 },
+ { 208,-7021 }, { 209,-7021 }, { 210,-7021 }, { 211,-7021 }, { 212,-7021 },
+ { 213,-7021 }, { 214,-7021 }, { 215,-7021 }, { 216,-7021 }, { 217,-7021 },
+ { 218,-7021 }, { 219,-7021 }, { 220,-7021 }, { 221,-7021 }, { 222,-7021 },
+ { 223,-7021 }, { 224,-7021 }, { 225,-7021 }, { 226,-7021 }, { 227,-7021 },
+ { 228,-7021 }, { 229,-7021 }, { 230,-7021 }, { 231,-7021 }, { 232,-7021 },
+ { 233,-7021 }, { 234,-7021 }, { 235,-7021 }, { 236,-7021 }, { 237,-7021 },
+
+ { 238,-7021 }, { 239,-7021 }, { 240,-7021 }, { 241,-7021 }, { 242,-7021 },
+ { 243,-7021 }, { 244,-7021 }, { 245,-7021 }, { 246,-7021 }, { 247,-7021 },
+ { 248,-7021 }, { 249,-7021 }, { 250,-7021 }, { 251,-7021 }, { 252,-7021 },
+ { 253,-7021 }, { 254,-7021 }, { 255,-7021 }, { 256,-7021 }, {   0,   0 },
+ {   0,7534 }, {   0,  24 }, {   0,7532 }, {   0,   0 }, {   0,7530 },
+ {   0,   0 }, {   0,7528 }, {   0,  26 }, {   0,7526 }, {   9,   0 },
+ {  10,   0 }, {   0,  36 }, {   0,7522 }, {  13,   0 }, {   0,  30 },
+ {   0,7519 }, {   0,   0 }, {   0,7517 }, {   0,  37 }, {   0,7515 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9, -15 },
+ {  10, -15 }, {   0,   0 }, {   0,   0 }, {  13, -15 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32, -15 }, {  33,-7352 }, {   0,   0 },
+ {  35,-3879 }, {   0,   0 }, {   0,   0 }, {  38,-3877 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  42,-3875 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  47,-3873 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62,-3869 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101,1188 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 101,2853 }, {   0,   0 }, {  94, -13 },
+ {   0,   0 }, {   0,   0 }, { 108,2853 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101, -11 }, { 115,2849 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 115,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 125,2851 }, { 126,2853 }, {   0,   0 },
+
+ { 115,  -9 }, { 123,2853 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 125,2853 }, { 123,2848 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 125,2850 }, {   0,   0 }, {   0,7390 },
+ {   1,2838 }, {   2,2838 }, {   3,2838 }, {   4,2838 }, {   5,2838 },
+ {   6,2838 }, {   7,2838 }, {   8,2838 }, {   9,2838 }, {  10,2838 },
+ {  11,2838 }, {  12,2838 }, {  13,2838 }, {  14,2838 }, {  15,2838 },
+ {  16,2838 }, {  17,2838 }, {  18,2838 }, {  19,2838 }, {  20,2838 },
+ {  21,2838 }, {  22,2838 }, {  23,2838 }, {  24,2838 }, {  25,2838 },
+ {  26,2838 }, {  27,2838 }, {  28,2838 }, {  29,2838 }, {  30,2838 },
+ {  31,2838 }, {  32,2838 }, {  33,2838 }, {  34,2838 }, {  35,2838 },
+
+ {  36,2838 }, {  37,2838 }, {  38,2838 }, {  39,2838 }, {  40,2838 },
+ {  41,2838 }, {  42,2838 }, {  43,2838 }, {  44,2838 }, {  45,3096 },
+ {  46,2838 }, {  47,2838 }, {  48,2838 }, {  49,2838 }, {  50,2838 },
+ {  51,2838 }, {  52,2838 }, {  53,2838 }, {  54,2838 }, {  55,2838 },
+ {  56,2838 }, {  57,2838 }, {  58,2838 }, {  59,2838 }, {  60,2838 },
+ {  61,2838 }, {  62,2838 }, {  63,2838 }, {  64,2838 }, {  65,2838 },
+ {  66,2838 }, {  67,2838 }, {  68,2838 }, {  69,2838 }, {  70,2838 },
+ {  71,2838 }, {  72,2838 }, {  73,2838 }, {  74,2838 }, {  75,2838 },
+ {  76,2838 }, {  77,2838 }, {  78,2838 }, {  79,2838 }, {  80,2838 },
+ {  81,2838 }, {  82,2838 }, {  83,2838 }, {  84,2838 }, {  85,2838 },
+
+ {  86,2838 }, {  87,2838 }, {  88,2838 }, {  89,2838 }, {  90,2838 },
+ {  91,2838 }, {  92,2838 }, {  93,2838 }, {  94,2838 }, {  95,2838 },
+ {  96,2838 }, {  97,2838 }, {  98,2838 }, {  99,2838 }, { 100,2838 },
+ { 101,2838 }, { 102,2838 }, { 103,2838 }, { 104,2838 }, { 105,2838 },
+ { 106,2838 }, { 107,2838 }, { 108,2838 }, { 109,2838 }, { 110,2838 },
+ { 111,2838 }, { 112,2838 }, { 113,2838 }, { 114,2838 }, { 115,2838 },
+ { 116,2838 }, { 117,2838 }, { 118,2838 }, { 119,2838 }, { 120,2838 },
+ { 121,2838 }, { 122,2838 }, { 123,2838 }, { 124,2838 }, { 125,2838 },
+ { 126,2838 }, { 127,2838 }, { 128,2838 }, { 129,2838 }, { 130,2838 },
+ { 131,2838 }, { 132,2838 }, { 133,2838 }, { 134,2838 }, { 135,2838 },
+
+ { 136,2838 }, { 137,2838 }, { 138,2838 }, { 139,2838 }, { 140,2838 },
+ { 141,2838 }, { 142,2838 }, { 143,2838 }, { 144,2838 }, { 145,2838 },
+ { 146,2838 }, { 147,2838 }, { 148,2838 }, { 149,2838 }, { 150,2838 },
+ { 151,2838 }, { 152,2838 }, { 153,2838 }, { 154,2838 }, { 155,2838 },
+ { 156,2838 }, { 157,2838 }, { 158,2838 }, { 159,2838 }, { 160,2838 },
+ { 161,2838 }, { 162,2838 }, { 163,2838 }, { 164,2838 }, { 165,2838 },
+ { 166,2838 }, { 167,2838 }, { 168,2838 }, { 169,2838 }, { 170,2838 },
+ { 171,2838 }, { 172,2838 }, { 173,2838 }, { 174,2838 }, { 175,2838 },
+ { 176,2838 }, { 177,2838 }, { 178,2838 }, { 179,2838 }, { 180,2838 },
+ { 181,2838 }, { 182,2838 }, { 183,2838 }, { 184,2838 }, { 185,2838 },
+
+ { 186,2838 }, { 187,2838 }, { 188,2838 }, { 189,2838 }, { 190,2838 },
+ { 191,2838 }, { 192,2838 }, { 193,2838 }, { 194,2838 }, { 195,2838 },
+ { 196,2838 }, { 197,2838 }, { 198,2838 }, { 199,2838 }, { 200,2838 },
+ { 201,2838 }, { 202,2838 }, { 203,2838 }, { 204,2838 }, { 205,2838 },
+ { 206,2838 }, { 207,2838 }, { 208,2838 }, { 209,2838 }, { 210,2838 },
+ { 211,2838 }, { 212,2838 }, { 213,2838 }, { 214,2838 }, { 215,2838 },
+ { 216,2838 }, { 217,2838 }, { 218,2838 }, { 219,2838 }, { 220,2838 },
+ { 221,2838 }, { 222,2838 }, { 223,2838 }, { 224,2838 }, { 225,2838 },
+ { 226,2838 }, { 227,2838 }, { 228,2838 }, { 229,2838 }, { 230,2838 },
+ { 231,2838 }, { 232,2838 }, { 233,2838 }, { 234,2838 }, { 235,2838 },
+
+ { 236,2838 }, { 237,2838 }, { 238,2838 }, { 239,2838 }, { 240,2838 },
+ { 241,2838 }, { 242,2838 }, { 243,2838 }, { 244,2838 }, { 245,2838 },
+ { 246,2838 }, { 247,2838 }, { 248,2838 }, { 249,2838 }, { 250,2838 },
+ { 251,2838 }, { 252,2838 }, { 253,2838 }, { 254,2838 }, { 255,2838 },
+ { 256,2838 }, {   0,   0 }, {   0,7132 }, {   1,-258 }, {   2,-258 },
+ {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
+ {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
+ {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
+ {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
+ {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
+
+ {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
+ {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
+ {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
+ {  43,-258 }, {  44,-258 }, {  45,   0 }, {  46,-258 }, {  47,-258 },
+ {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
+ {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
+ {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
+ {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
+ {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
+ {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
+
+ {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
+ {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
+ {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,-258 },
+ {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
+ {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
+ { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
+ { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
+ { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
+ { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
+ { 123,-258 }, { 124,-258 }, { 125, 258 }, { 126, 516 }, { 127,-258 },
+
+ { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
+ { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
+ { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
+ { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
+ { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
+ { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
+ { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
+ { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
+ { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
+ { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
+
+ { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
+ { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
+ { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
+ { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
+ { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
+ { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
+ { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
+ { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
+ { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
+ { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
+
+ { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
+ { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
+ { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
+ { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
+ { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
+ { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
+ {   0,6874 }, {   1,-516 }, {   2,-516 }, {   3,-516 }, {   4,-516 },
+ {   5,-516 }, {   6,-516 }, {   7,-516 }, {   8,-516 }, {   9,-516 },
+ {  10,-516 }, {  11,-516 }, {  12,-516 }, {  13,-516 }, {  14,-516 },
+ {  15,-516 }, {  16,-516 }, {  17,-516 }, {  18,-516 }, {  19,-516 },
+
+ {  20,-516 }, {  21,-516 }, {  22,-516 }, {  23,-516 }, {  24,-516 },
+ {  25,-516 }, {  26,-516 }, {  27,-516 }, {  28,-516 }, {  29,-516 },
+ {  30,-516 }, {  31,-516 }, {  32,-516 }, {  33,-516 }, {  34,-516 },
+ {  35,-516 }, {  36,-516 }, {  37,-516 }, {  38,-516 }, {  39,-516 },
+ {  40,-516 }, {  41,-516 }, {  42,-516 }, {  43,-516 }, {  44,-516 },
+ {  45,2838 }, {  46,-516 }, {  47,-516 }, {  48,-516 }, {  49,-516 },
+ {  50,-516 }, {  51,-516 }, {  52,-516 }, {  53,-516 }, {  54,-516 },
+ {  55,-516 }, {  56,-516 }, {  57,-516 }, {  58,-516 }, {  59,-516 },
+ {  60,-516 }, {  61,-516 }, {  62,-516 }, {  63,-516 }, {  64,-516 },
+ {  65,-516 }, {  66,-516 }, {  67,-516 }, {  68,-516 }, {  69,-516 },
+
+ {  70,-516 }, {  71,-516 }, {  72,-516 }, {  73,-516 }, {  74,-516 },
+ {  75,-516 }, {  76,-516 }, {  77,-516 }, {  78,-516 }, {  79,-516 },
+ {  80,-516 }, {  81,-516 }, {  82,-516 }, {  83,-516 }, {  84,-516 },
+ {  85,-516 }, {  86,-516 }, {  87,-516 }, {  88,-516 }, {  89,-516 },
+ {  90,-516 }, {  91,-516 }, {  92,-516 }, {  93,-516 }, {  94,-516 },
+ {  95,-516 }, {  96,-516 }, {  97,-516 }, {  98,-516 }, {  99,-516 },
+ { 100,-516 }, { 101,-516 }, { 102,-516 }, { 103,-516 }, { 104,-516 },
+ { 105,-516 }, { 106,-516 }, { 107,-516 }, { 108,-516 }, { 109,-516 },
+ { 110,-516 }, { 111,-516 }, { 112,-516 }, { 113,-516 }, { 114,-516 },
+ { 115,-516 }, { 116,-516 }, { 117,-516 }, { 118,-516 }, { 119,-516 },
+
+ { 120,-516 }, { 121,-516 }, { 122,-516 }, { 123,-516 }, { 124,-516 },
+ { 125,2209 }, { 126,-516 }, { 127,-516 }, { 128,-516 }, { 129,-516 },
+ { 130,-516 }, { 131,-516 }, { 132,-516 }, { 133,-516 }, { 134,-516 },
+ { 135,-516 }, { 136,-516 }, { 137,-516 }, { 138,-516 }, { 139,-516 },
+ { 140,-516 }, { 141,-516 }, { 142,-516 }, { 143,-516 }, { 144,-516 },
+ { 145,-516 }, { 146,-516 }, { 147,-516 }, { 148,-516 }, { 149,-516 },
+ { 150,-516 }, { 151,-516 }, { 152,-516 }, { 153,-516 }, { 154,-516 },
+ { 155,-516 }, { 156,-516 }, { 157,-516 }, { 158,-516 }, { 159,-516 },
+ { 160,-516 }, { 161,-516 }, { 162,-516 }, { 163,-516 }, { 164,-516 },
+ { 165,-516 }, { 166,-516 }, { 167,-516 }, { 168,-516 }, { 169,-516 },
+
+ { 170,-516 }, { 171,-516 }, { 172,-516 }, { 173,-516 }, { 174,-516 },
+ { 175,-516 }, { 176,-516 }, { 177,-516 }, { 178,-516 }, { 179,-516 },
+ { 180,-516 }, { 181,-516 }, { 182,-516 }, { 183,-516 }, { 184,-516 },
+ { 185,-516 }, { 186,-516 }, { 187,-516 }, { 188,-516 }, { 189,-516 },
+ { 190,-516 }, { 191,-516 }, { 192,-516 }, { 193,-516 }, { 194,-516 },
+ { 195,-516 }, { 196,-516 }, { 197,-516 }, { 198,-516 }, { 199,-516 },
+ { 200,-516 }, { 201,-516 }, { 202,-516 }, { 203,-516 }, { 204,-516 },
+ { 205,-516 }, { 206,-516 }, { 207,-516 }, { 208,-516 }, { 209,-516 },
+ { 210,-516 }, { 211,-516 }, { 212,-516 }, { 213,-516 }, { 214,-516 },
+ { 215,-516 }, { 216,-516 }, { 217,-516 }, { 218,-516 }, { 219,-516 },
+
+ { 220,-516 }, { 221,-516 }, { 222,-516 }, { 223,-516 }, { 224,-516 },
+ { 225,-516 }, { 226,-516 }, { 227,-516 }, { 228,-516 }, { 229,-516 },
+ { 230,-516 }, { 231,-516 }, { 232,-516 }, { 233,-516 }, { 234,-516 },
+ { 235,-516 }, { 236,-516 }, { 237,-516 }, { 238,-516 }, { 239,-516 },
+ { 240,-516 }, { 241,-516 }, { 242,-516 }, { 243,-516 }, { 244,-516 },
+ { 245,-516 }, { 246,-516 }, { 247,-516 }, { 248,-516 }, { 249,-516 },
+ { 250,-516 }, { 251,-516 }, { 252,-516 }, { 253,-516 }, { 254,-516 },
+ { 255,-516 }, { 256,-516 }, {   0,   0 }, {   0,6616 }, {   1,-774 },
+ {   2,-774 }, {   3,-774 }, {   4,-774 }, {   5,-774 }, {   6,-774 },
+ {   7,-774 }, {   8,-774 }, {   9,-774 }, {  10,-774 }, {  11,-774 },
+
+ {  12,-774 }, {  13,-774 }, {  14,-774 }, {  15,-774 }, {  16,-774 },
+ {  17,-774 }, {  18,-774 }, {  19,-774 }, {  20,-774 }, {  21,-774 },
+ {  22,-774 }, {  23,-774 }, {  24,-774 }, {  25,-774 }, {  26,-774 },
+ {  27,-774 }, {  28,-774 }, {  29,-774 }, {  30,-774 }, {  31,-774 },
+ {  32,-774 }, {  33,-774 }, {  34,-774 }, {  35,-774 }, {  36,-774 },
+ {  37,-774 }, {  38,-774 }, {  39,-774 }, {  40,-774 }, {  41,-774 },
+ {  42,-774 }, {  43,-774 }, {  44,-774 }, {  45,2580 }, {  46,-774 },
+ {  47,-774 }, {  48,-774 }, {  49,-774 }, {  50,-774 }, {  51,-774 },
+ {  52,-774 }, {  53,-774 }, {  54,-774 }, {  55,-774 }, {  56,-774 },
+ {  57,-774 }, {  58,-774 }, {  59,-774 }, {  60,-774 }, {  61,-774 },
+
+ {  62,-774 }, {  63,-774 }, {  64,-774 }, {  65,-774 }, {  66,-774 },
+ {  67,-774 }, {  68,-774 }, {  69,-774 }, {  70,-774 }, {  71,-774 },
+ {  72,-774 }, {  73,-774 }, {  74,-774 }, {  75,-774 }, {  76,-774 },
+ {  77,-774 }, {  78,-774 }, {  79,-774 }, {  80,-774 }, {  81,-774 },
+ {  82,-774 }, {  83,-774 }, {  84,-774 }, {  85,-774 }, {  86,-774 },
+ {  87,-774 }, {  88,-774 }, {  89,-774 }, {  90,-774 }, {  91,-774 },
+ {  92,-774 }, {  93,-774 }, {  94,-774 }, {  95,-774 }, {  96,-774 },
+ {  97,-774 }, {  98,-774 }, {  99,-774 }, { 100,-774 }, { 101,-774 },
+ { 102,-774 }, { 103,-774 }, { 104,-774 }, { 105,-774 }, { 106,-774 },
+ { 107,-774 }, { 108,-774 }, { 109,-774 }, { 110,-774 }, { 111,-774 },
+
+ { 112,-774 }, { 113,-774 }, { 114,-774 }, { 115,-774 }, { 116,-774 },
+ { 117,-774 }, { 118,-774 }, { 119,-774 }, { 120,-774 }, { 121,-774 },
+ { 122,-774 }, { 123,-774 }, { 124,-774 }, { 125,-258 }, { 126,-774 },
+ { 127,-774 }, { 128,-774 }, { 129,-774 }, { 130,-774 }, { 131,-774 },
+ { 132,-774 }, { 133,-774 }, { 134,-774 }, { 135,-774 }, { 136,-774 },
+ { 137,-774 }, { 138,-774 }, { 139,-774 }, { 140,-774 }, { 141,-774 },
+ { 142,-774 }, { 143,-774 }, { 144,-774 }, { 145,-774 }, { 146,-774 },
+ { 147,-774 }, { 148,-774 }, { 149,-774 }, { 150,-774 }, { 151,-774 },
+ { 152,-774 }, { 153,-774 }, { 154,-774 }, { 155,-774 }, { 156,-774 },
+ { 157,-774 }, { 158,-774 }, { 159,-774 }, { 160,-774 }, { 161,-774 },
+
+ { 162,-774 }, { 163,-774 }, { 164,-774 }, { 165,-774 }, { 166,-774 },
+ { 167,-774 }, { 168,-774 }, { 169,-774 }, { 170,-774 }, { 171,-774 },
+ { 172,-774 }, { 173,-774 }, { 174,-774 }, { 175,-774 }, { 176,-774 },
+ { 177,-774 }, { 178,-774 }, { 179,-774 }, { 180,-774 }, { 181,-774 },
+ { 182,-774 }, { 183,-774 }, { 184,-774 }, { 185,-774 }, { 186,-774 },
+ { 187,-774 }, { 188,-774 }, { 189,-774 }, { 190,-774 }, { 191,-774 },
+ { 192,-774 }, { 193,-774 }, { 194,-774 }, { 195,-774 }, { 196,-774 },
+ { 197,-774 }, { 198,-774 }, { 199,-774 }, { 200,-774 }, { 201,-774 },
+ { 202,-774 }, { 203,-774 }, { 204,-774 }, { 205,-774 }, { 206,-774 },
+ { 207,-774 }, { 208,-774 }, { 209,-774 }, { 210,-774 }, { 211,-774 },
+
+ { 212,-774 }, { 213,-774 }, { 214,-774 }, { 215,-774 }, { 216,-774 },
+ { 217,-774 }, { 218,-774 }, { 219,-774 }, { 220,-774 }, { 221,-774 },
+ { 222,-774 }, { 223,-774 }, { 224,-774 }, { 225,-774 }, { 226,-774 },
+ { 227,-774 }, { 228,-774 }, { 229,-774 }, { 230,-774 }, { 231,-774 },
+ { 232,-774 }, { 233,-774 }, { 234,-774 }, { 235,-774 }, { 236,-774 },
+ { 237,-774 }, { 238,-774 }, { 239,-774 }, { 240,-774 }, { 241,-774 },
+ { 242,-774 }, { 243,-774 }, { 244,-774 }, { 245,-774 }, { 246,-774 },
+ { 247,-774 }, { 248,-774 }, { 249,-774 }, { 250,-774 }, { 251,-774 },
+ { 252,-774 }, { 253,-774 }, { 254,-774 }, { 255,-774 }, { 256,-774 },
+ {   0,   0 }, {   0,6358 }, {   0,   0 }, {   0,6356 }, {   0,   1 },
+
+ {   0,6354 }, {   0,   4 }, {   0,6352 }, {   0,  47 }, {   0,6350 },
+ {   0,  41 }, {   0,6348 }, {   0,   0 }, {   0,6346 }, {   0,   0 },
+ {   0,6344 }, {   0,   0 }, {  10,   0 }, {   0,  20 }, {   0,6340 },
+ {  13,   0 }, {   0,  19 }, {   0,6337 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,3369 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 108,3369 }, {   0,   0 }, {   0,   0 }, { 123,2580 },
+ {   0,   0 }, { 123,2836 }, {   0,   0 }, { 123,2836 }, {   0,   4 },
+ {   0,6229 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
+ {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
+ {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
+ {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
+
+ {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
+ {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
+ {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
+ {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
+ {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
+ {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
+ {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
+ {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
+ {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
+ {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
+
+ {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
+ {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+ {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
+ {  90,   0 }, {  91,   0 }, {   0,   0 }, {  93,   0 }, {  94,   0 },
+ {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
+ { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
+ { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
+ { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+ { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
+ { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
+
+ { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
+ { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+ { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
+ { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
+ { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
+ { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
+ { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
+ { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+ { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
+ { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
+
+ { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
+ { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+ { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
+ { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
+ { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
+ { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
+ { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
+ { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+ { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
+ { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
+
+ { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
+ { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+ { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
+ { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
+ { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
+ { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
+ { 255,   0 }, {   0,   4 }, {   0,5972 }, {   1,-257 }, {   2,-257 },
+ {   3,-257 }, {   4,-257 }, {   5,-257 }, {   6,-257 }, {   7,-257 },
+ {   8,-257 }, {   9,-257 }, {  10,-380 }, {  11,-257 }, {  12,-257 },
+ {  13,-380 }, {  14,-257 }, {  15,-257 }, {  16,-257 }, {  17,-257 },
+
+ {  18,-257 }, {  19,-257 }, {  20,-257 }, {  21,-257 }, {  22,-257 },
+ {  23,-257 }, {  24,-257 }, {  25,-257 }, {  26,-257 }, {  27,-257 },
+ {  28,-257 }, {  29,-257 }, {  30,-257 }, {  31,-257 }, {  32,-257 },
+ {  33,-257 }, {  34,-257 }, {  35,-257 }, {  36,-257 }, {  37,-257 },
+ {  38,-257 }, {  39,-257 }, {  40,-257 }, {  41,-257 }, {  42,-257 },
+ {  43,-257 }, {  44,-257 }, {  45,-257 }, {  46,-257 }, {  47,-257 },
+ {  48,-257 }, {  49,-257 }, {  50,-257 }, {  51,-257 }, {  52,-257 },
+ {  53,-257 }, {  54,-257 }, {  55,-257 }, {  56,-257 }, {  57,-257 },
+ {  58,-257 }, {  59,-257 }, {  60,-257 }, {  61,-257 }, {  62,-257 },
+ {  63,-257 }, {  64,-257 }, {  65,-257 }, {  66,-257 }, {  67,-257 },
+
+ {  68,-257 }, {  69,-257 }, {  70,-257 }, {  71,-257 }, {  72,-257 },
+ {  73,-257 }, {  74,-257 }, {  75,-257 }, {  76,-257 }, {  77,-257 },
+ {  78,-257 }, {  79,-257 }, {  80,-257 }, {  81,-257 }, {  82,-257 },
+ {  83,-257 }, {  84,-257 }, {  85,-257 }, {  86,-257 }, {  87,-257 },
+ {  88,-257 }, {  89,-257 }, {  90,-257 }, {  91,-257 }, {   0,   0 },
+ {  93,-257 }, {  94,-257 }, {  95,-257 }, {  96,-257 }, {  97,-257 },
+ {  98,-257 }, {  99,-257 }, { 100,-257 }, { 101,-257 }, { 102,-257 },
+ { 103,-257 }, { 104,-257 }, { 105,-257 }, { 106,-257 }, { 107,-257 },
+ { 108,-257 }, { 109,-257 }, { 110,-257 }, { 111,-257 }, { 112,-257 },
+ { 113,-257 }, { 114,-257 }, { 115,-257 }, { 116,-257 }, { 117,-257 },
+
+ { 118,-257 }, { 119,-257 }, { 120,-257 }, { 121,-257 }, { 122,-257 },
+ {   0,   0 }, { 124,-257 }, { 125,-257 }, { 126,-257 }, { 127,-257 },
+ { 128,-257 }, { 129,-257 }, { 130,-257 }, { 131,-257 }, { 132,-257 },
+ { 133,-257 }, { 134,-257 }, { 135,-257 }, { 136,-257 }, { 137,-257 },
+ { 138,-257 }, { 139,-257 }, { 140,-257 }, { 141,-257 }, { 142,-257 },
+ { 143,-257 }, { 144,-257 }, { 145,-257 }, { 146,-257 }, { 147,-257 },
+ { 148,-257 }, { 149,-257 }, { 150,-257 }, { 151,-257 }, { 152,-257 },
+ { 153,-257 }, { 154,-257 }, { 155,-257 }, { 156,-257 }, { 157,-257 },
+ { 158,-257 }, { 159,-257 }, { 160,-257 }, { 161,-257 }, { 162,-257 },
+ { 163,-257 }, { 164,-257 }, { 165,-257 }, { 166,-257 }, { 167,-257 },
+
+ { 168,-257 }, { 169,-257 }, { 170,-257 }, { 171,-257 }, { 172,-257 },
+ { 173,-257 }, { 174,-257 }, { 175,-257 }, { 176,-257 }, { 177,-257 },
+ { 178,-257 }, { 179,-257 }, { 180,-257 }, { 181,-257 }, { 182,-257 },
+ { 183,-257 }, { 184,-257 }, { 185,-257 }, { 186,-257 }, { 187,-257 },
+ { 188,-257 }, { 189,-257 }, { 190,-257 }, { 191,-257 }, { 192,-257 },
+ { 193,-257 }, { 194,-257 }, { 195,-257 }, { 196,-257 }, { 197,-257 },
+ { 198,-257 }, { 199,-257 }, { 200,-257 }, { 201,-257 }, { 202,-257 },
+ { 203,-257 }, { 204,-257 }, { 205,-257 }, { 206,-257 }, { 207,-257 },
+ { 208,-257 }, { 209,-257 }, { 210,-257 }, { 211,-257 }, { 212,-257 },
+ { 213,-257 }, { 214,-257 }, { 215,-257 }, { 216,-257 }, { 217,-257 },
+
+ { 218,-257 }, { 219,-257 }, { 220,-257 }, { 221,-257 }, { 222,-257 },
+ { 223,-257 }, { 224,-257 }, { 225,-257 }, { 226,-257 }, { 227,-257 },
+ { 228,-257 }, { 229,-257 }, { 230,-257 }, { 231,-257 }, { 232,-257 },
+ { 233,-257 }, { 234,-257 }, { 235,-257 }, { 236,-257 }, { 237,-257 },
+ { 238,-257 }, { 239,-257 }, { 240,-257 }, { 241,-257 }, { 242,-257 },
+ { 243,-257 }, { 244,-257 }, { 245,-257 }, { 246,-257 }, { 247,-257 },
+ { 248,-257 }, { 249,-257 }, { 250,-257 }, { 251,-257 }, { 252,-257 },
+ { 253,-257 }, { 254,-257 }, { 255,-257 }, {   0,   0 }, {   0,5715 },
+ {   1,-9098 }, {   2,-9098 }, {   3,-9098 }, {   4,-9098 }, {   5,-9098 },
+ {   6,-9098 }, {   7,-9098 }, {   8,-9098 }, {   9,-9219 }, {  10,-9219 },
+
+ {  11,-9098 }, {  12,-9098 }, {  13,-9219 }, {  14,-9098 }, {  15,-9098 },
+ {  16,-9098 }, {  17,-9098 }, {  18,-9098 }, {  19,-9098 }, {  20,-9098 },
+ {  21,-9098 }, {  22,-9098 }, {  23,-9098 }, {  24,-9098 }, {  25,-9098 },
+ {  26,-9098 }, {  27,-9098 }, {  28,-9098 }, {  29,-9098 }, {  30,-9098 },
+ {  31,-9098 }, {  32,-9219 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-9098 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-9219 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9098 },
+ {  46,-9219 }, {  47,-9219 }, {  48,-9098 }, {  49,-9098 }, {  50,-9098 },
+ {  51,-9098 }, {  52,-9098 }, {  53,-9098 }, {  54,-9098 }, {  55,-9098 },
+ {  56,-9098 }, {  57,-9098 }, {  58,-9098 }, {   0,   0 }, {   0,   0 },
+
+ {  61,-9219 }, {   0,   0 }, {  63,-9098 }, {   0,   0 }, {  65,-9098 },
+ {  66,-9098 }, {  67,-9098 }, {  68,-9098 }, {  69,-9098 }, {  70,-9098 },
+ {  71,-9098 }, {  72,-9098 }, {  73,-9098 }, {  74,-9098 }, {  75,-9098 },
+ {  76,-9098 }, {  77,-9098 }, {  78,-9098 }, {  79,-9098 }, {  80,-9098 },
+ {  81,-9098 }, {  82,-9098 }, {  83,-9098 }, {  84,-9098 }, {  85,-9098 },
+ {  86,-9098 }, {  87,-9098 }, {  88,-9098 }, {  89,-9098 }, {  90,-9098 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9098 },
+ {   0,   0 }, {  97,-9098 }, {  98,-9098 }, {  99,-9098 }, { 100,-9098 },
+ { 101,2222 }, { 102,-9098 }, { 103,-9098 }, { 104,-9098 }, { 105,-9098 },
+ { 106,-9098 }, { 107,-9098 }, { 108,-9098 }, { 109,-9098 }, { 110,-9098 },
+
+ { 111,-9098 }, { 112,-9098 }, { 113,-9098 }, { 114,-9098 }, { 115,-9098 },
+ { 116,-9098 }, { 117,-9098 }, { 118,-9098 }, { 119,-9098 }, { 120,-9098 },
+ { 121,-9098 }, { 122,-9098 }, {   0,   0 }, { 124,-9219 }, { 125,-9219 },
+ { 126,-9219 }, { 127,-9098 }, { 128,-9098 }, { 129,-9098 }, { 130,-9098 },
+ { 131,-9098 }, { 132,-9098 }, { 133,-9098 }, { 134,-9098 }, { 135,-9098 },
+ { 136,-9098 }, { 137,-9098 }, { 138,-9098 }, { 139,-9098 }, { 140,-9098 },
+ { 141,-9098 }, { 142,-9098 }, { 143,-9098 }, { 144,-9098 }, { 145,-9098 },
+ { 146,-9098 }, { 147,-9098 }, { 148,-9098 }, { 149,-9098 }, { 150,-9098 },
+ { 151,-9098 }, { 152,-9098 }, { 153,-9098 }, { 154,-9098 }, { 155,-9098 },
+ { 156,-9098 }, { 157,-9098 }, { 158,-9098 }, { 159,-9098 }, { 160,-9098 },
+
+ { 161,-9098 }, { 162,-9098 }, { 163,-9098 }, { 164,-9098 }, { 165,-9098 },
+ { 166,-9098 }, { 167,-9098 }, { 168,-9098 }, { 169,-9098 }, { 170,-9098 },
+ { 171,-9098 }, { 172,-9098 }, { 173,-9098 }, { 174,-9098 }, { 175,-9098 },
+ { 176,-9098 }, { 177,-9098 }, { 178,-9098 }, { 179,-9098 }, { 180,-9098 },
+ { 181,-9098 }, { 182,-9098 }, { 183,-9098 }, { 184,-9098 }, { 185,-9098 },
+ { 186,-9098 }, { 187,-9098 }, { 188,-9098 }, { 189,-9098 }, { 190,-9098 },
+ { 191,-9098 }, { 192,-9098 }, { 193,-9098 }, { 194,-9098 }, { 195,-9098 },
+ { 196,-9098 }, { 197,-9098 }, { 198,-9098 }, { 199,-9098 }, { 200,-9098 },
+ { 201,-9098 }, { 202,-9098 }, { 203,-9098 }, { 204,-9098 }, { 205,-9098 },
+ { 206,-9098 }, { 207,-9098 }, { 208,-9098 }, { 209,-9098 }, { 210,-9098 },
+
+ { 211,-9098 }, { 212,-9098 }, { 213,-9098 }, { 214,-9098 }, { 215,-9098 },
+ { 216,-9098 }, { 217,-9098 }, { 218,-9098 }, { 219,-9098 }, { 220,-9098 },
+ { 221,-9098 }, { 222,-9098 }, { 223,-9098 }, { 224,-9098 }, { 225,-9098 },
+ { 226,-9098 }, { 227,-9098 }, { 228,-9098 }, { 229,-9098 }, { 230,-9098 },
+ { 231,-9098 }, { 232,-9098 }, { 233,-9098 }, { 234,-9098 }, { 235,-9098 },
+ { 236,-9098 }, { 237,-9098 }, { 238,-9098 }, { 239,-9098 }, { 240,-9098 },
+ { 241,-9098 }, { 242,-9098 }, { 243,-9098 }, { 244,-9098 }, { 245,-9098 },
+ { 246,-9098 }, { 247,-9098 }, { 248,-9098 }, { 249,-9098 }, { 250,-9098 },
+ { 251,-9098 }, { 252,-9098 }, { 253,-9098 }, { 254,-9098 }, { 255,-9098 },
+ { 256,-9098 }, {   0,   0 }, {   0,5457 }, {   1,-9356 }, {   2,-9356 },
+
+ {   3,-9356 }, {   4,-9356 }, {   5,-9356 }, {   6,-9356 }, {   7,-9356 },
+ {   8,-9356 }, {   9,1941 }, {  10,1941 }, {  11,-9356 }, {  12,-9356 },
+ {  13,1941 }, {  14,-9356 }, {  15,-9356 }, {  16,-9356 }, {  17,-9356 },
+ {  18,-9356 }, {  19,-9356 }, {  20,-9356 }, {  21,-9356 }, {  22,-9356 },
+ {  23,-9356 }, {  24,-9356 }, {  25,-9356 }, {  26,-9356 }, {  27,-9356 },
+ {  28,-9356 }, {  29,-9356 }, {  30,-9356 }, {  31,-9356 }, {  32,1941 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9356 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1941 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-9356 }, {  46,-9477 }, {  47,-9477 },
+ {  48,-9356 }, {  49,-9356 }, {  50,-9356 }, {  51,-9356 }, {  52,-9356 },
+
+ {  53,-9356 }, {  54,-9356 }, {  55,-9356 }, {  56,-9356 }, {  57,-9356 },
+ {  58,-9356 }, {   0,   0 }, {   0,   0 }, {  61,-9477 }, {   0,   0 },
+ {  63,-9356 }, {   0,   0 }, {  65,-9356 }, {  66,-9356 }, {  67,-9356 },
+ {  68,-9356 }, {  69,-9356 }, {  70,-9356 }, {  71,-9356 }, {  72,-9356 },
+ {  73,-9356 }, {  74,-9356 }, {  75,-9356 }, {  76,-9356 }, {  77,-9356 },
+ {  78,-9356 }, {  79,-9356 }, {  80,-9356 }, {  81,-9356 }, {  82,-9356 },
+ {  83,-9356 }, {  84,-9356 }, {  85,-9356 }, {  86,-9356 }, {  87,-9356 },
+ {  88,-9356 }, {  89,-9356 }, {  90,-9356 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-9356 }, {   0,   0 }, {  97,-9356 },
+ {  98,-9356 }, {  99,-9356 }, { 100,-9356 }, { 101,-9356 }, { 102,-9356 },
+
+ { 103,-9356 }, { 104,-9356 }, { 105,-9356 }, { 106,-9356 }, { 107,-9356 },
+ { 108,-9356 }, { 109,-9356 }, { 110,-9356 }, { 111,-9356 }, { 112,-9356 },
+ { 113,-9356 }, { 114,-9356 }, { 115,-9356 }, { 116,-9356 }, { 117,-9356 },
+ { 118,-9356 }, { 119,-9356 }, { 120,-9356 }, { 121,-9356 }, { 122,-9356 },
+ {   0,   0 }, { 124,-9477 }, { 125,1941 }, { 126,1941 }, { 127,-9356 },
+ { 128,-9356 }, { 129,-9356 }, { 130,-9356 }, { 131,-9356 }, { 132,-9356 },
+ { 133,-9356 }, { 134,-9356 }, { 135,-9356 }, { 136,-9356 }, { 137,-9356 },
+ { 138,-9356 }, { 139,-9356 }, { 140,-9356 }, { 141,-9356 }, { 142,-9356 },
+ { 143,-9356 }, { 144,-9356 }, { 145,-9356 }, { 146,-9356 }, { 147,-9356 },
+ { 148,-9356 }, { 149,-9356 }, { 150,-9356 }, { 151,-9356 }, { 152,-9356 },
+
+ { 153,-9356 }, { 154,-9356 }, { 155,-9356 }, { 156,-9356 }, { 157,-9356 },
+ { 158,-9356 }, { 159,-9356 }, { 160,-9356 }, { 161,-9356 }, { 162,-9356 },
+ { 163,-9356 }, { 164,-9356 }, { 165,-9356 }, { 166,-9356 }, { 167,-9356 },
+ { 168,-9356 }, { 169,-9356 }, { 170,-9356 }, { 171,-9356 }, { 172,-9356 },
+ { 173,-9356 }, { 174,-9356 }, { 175,-9356 }, { 176,-9356 }, { 177,-9356 },
+ { 178,-9356 }, { 179,-9356 }, { 180,-9356 }, { 181,-9356 }, { 182,-9356 },
+ { 183,-9356 }, { 184,-9356 }, { 185,-9356 }, { 186,-9356 }, { 187,-9356 },
+ { 188,-9356 }, { 189,-9356 }, { 190,-9356 }, { 191,-9356 }, { 192,-9356 },
+ { 193,-9356 }, { 194,-9356 }, { 195,-9356 }, { 196,-9356 }, { 197,-9356 },
+ { 198,-9356 }, { 199,-9356 }, { 200,-9356 }, { 201,-9356 }, { 202,-9356 },
+
+ { 203,-9356 }, { 204,-9356 }, { 205,-9356 }, { 206,-9356 }, { 207,-9356 },
+ { 208,-9356 }, { 209,-9356 }, { 210,-9356 }, { 211,-9356 }, { 212,-9356 },
+ { 213,-9356 }, { 214,-9356 }, { 215,-9356 }, { 216,-9356 }, { 217,-9356 },
+ { 218,-9356 }, { 219,-9356 }, { 220,-9356 }, { 221,-9356 }, { 222,-9356 },
+ { 223,-9356 }, { 224,-9356 }, { 225,-9356 }, { 226,-9356 }, { 227,-9356 },
+ { 228,-9356 }, { 229,-9356 }, { 230,-9356 }, { 231,-9356 }, { 232,-9356 },
+ { 233,-9356 }, { 234,-9356 }, { 235,-9356 }, { 236,-9356 }, { 237,-9356 },
+ { 238,-9356 }, { 239,-9356 }, { 240,-9356 }, { 241,-9356 }, { 242,-9356 },
+ { 243,-9356 }, { 244,-9356 }, { 245,-9356 }, { 246,-9356 }, { 247,-9356 },
+ { 248,-9356 }, { 249,-9356 }, { 250,-9356 }, { 251,-9356 }, { 252,-9356 },
+
+ { 253,-9356 }, { 254,-9356 }, { 255,-9356 }, { 256,-9356 }, {   0,   0 },
+ {   0,5199 }, {   1,-9614 }, {   2,-9614 }, {   3,-9614 }, {   4,-9614 },
+ {   5,-9614 }, {   6,-9614 }, {   7,-9614 }, {   8,-9614 }, {   9,1685 },
+ {  10,1685 }, {  11,-9614 }, {  12,-9614 }, {  13,1685 }, {  14,-9614 },
+ {  15,-9614 }, {  16,-9614 }, {  17,-9614 }, {  18,-9614 }, {  19,-9614 },
+ {  20,-9614 }, {  21,-9614 }, {  22,-9614 }, {  23,-9614 }, {  24,-9614 },
+ {  25,-9614 }, {  26,-9614 }, {  27,-9614 }, {  28,-9614 }, {  29,-9614 },
+ {  30,-9614 }, {  31,-9614 }, {  32,1685 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-9614 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,1685 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  45,-9614 }, {  46,-9735 }, {  47,-9735 }, {  48,-9614 }, {  49,-9614 },
+ {  50,-9614 }, {  51,-9614 }, {  52,-9614 }, {  53,-9614 }, {  54,-9614 },
+ {  55,-9614 }, {  56,-9614 }, {  57,-9614 }, {  58,-9614 }, {   0,   0 },
+ {   0,   0 }, {  61,-9735 }, {   0,   0 }, {  63,-9614 }, {   0,   0 },
+ {  65,-9614 }, {  66,-9614 }, {  67,-9614 }, {  68,-9614 }, {  69,-9614 },
+ {  70,-9614 }, {  71,-9614 }, {  72,-9614 }, {  73,-9614 }, {  74,-9614 },
+ {  75,-9614 }, {  76,-9614 }, {  77,-9614 }, {  78,-9614 }, {  79,-9614 },
+ {  80,-9614 }, {  81,-9614 }, {  82,-9614 }, {  83,-9614 }, {  84,-9614 },
+ {  85,-9614 }, {  86,-9614 }, {  87,-9614 }, {  88,-9614 }, {  89,-9614 },
+ {  90,-9614 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  95,-9614 }, {   0,   0 }, {  97,-9614 }, {  98,-9614 }, {  99,-9614 },
+ { 100,-9614 }, { 101,-9614 }, { 102,-9614 }, { 103,-9614 }, { 104,-9614 },
+ { 105,-9614 }, { 106,-9614 }, { 107,-9614 }, { 108,-9614 }, { 109,-9614 },
+ { 110,-9614 }, { 111,-9614 }, { 112,-9614 }, { 113,-9614 }, { 114,-9614 },
+ { 115,-9614 }, { 116,-9614 }, { 117,-9614 }, { 118,-9614 }, { 119,-9614 },
+ { 120,-9614 }, { 121,-9614 }, { 122,-9614 }, {   0,   0 }, { 124,-9735 },
+ { 125,1685 }, { 126,1685 }, { 127,-9614 }, { 128,-9614 }, { 129,-9614 },
+ { 130,-9614 }, { 131,-9614 }, { 132,-9614 }, { 133,-9614 }, { 134,-9614 },
+ { 135,-9614 }, { 136,-9614 }, { 137,-9614 }, { 138,-9614 }, { 139,-9614 },
+ { 140,-9614 }, { 141,-9614 }, { 142,-9614 }, { 143,-9614 }, { 144,-9614 },
+
+ { 145,-9614 }, { 146,-9614 }, { 147,-9614 }, { 148,-9614 }, { 149,-9614 },
+ { 150,-9614 }, { 151,-9614 }, { 152,-9614 }, { 153,-9614 }, { 154,-9614 },
+ { 155,-9614 }, { 156,-9614 }, { 157,-9614 }, { 158,-9614 }, { 159,-9614 },
+ { 160,-9614 }, { 161,-9614 }, { 162,-9614 }, { 163,-9614 }, { 164,-9614 },
+ { 165,-9614 }, { 166,-9614 }, { 167,-9614 }, { 168,-9614 }, { 169,-9614 },
+ { 170,-9614 }, { 171,-9614 }, { 172,-9614 }, { 173,-9614 }, { 174,-9614 },
+ { 175,-9614 }, { 176,-9614 }, { 177,-9614 }, { 178,-9614 }, { 179,-9614 },
+ { 180,-9614 }, { 181,-9614 }, { 182,-9614 }, { 183,-9614 }, { 184,-9614 },
+ { 185,-9614 }, { 186,-9614 }, { 187,-9614 }, { 188,-9614 }, { 189,-9614 },
+ { 190,-9614 }, { 191,-9614 }, { 192,-9614 }, { 193,-9614 }, { 194,-9614 },
+
+ { 195,-9614 }, { 196,-9614 }, { 197,-9614 }, { 198,-9614 }, { 199,-9614 },
+ { 200,-9614 }, { 201,-9614 }, { 202,-9614 }, { 203,-9614 }, { 204,-9614 },
+ { 205,-9614 }, { 206,-9614 }, { 207,-9614 }, { 208,-9614 }, { 209,-9614 },
+ { 210,-9614 }, { 211,-9614 }, { 212,-9614 }, { 213,-9614 }, { 214,-9614 },
+ { 215,-9614 }, { 216,-9614 }, { 217,-9614 }, { 218,-9614 }, { 219,-9614 },
+ { 220,-9614 }, { 221,-9614 }, { 222,-9614 }, { 223,-9614 }, { 224,-9614 },
+ { 225,-9614 }, { 226,-9614 }, { 227,-9614 }, { 228,-9614 }, { 229,-9614 },
+ { 230,-9614 }, { 231,-9614 }, { 232,-9614 }, { 233,-9614 }, { 234,-9614 },
+ { 235,-9614 }, { 236,-9614 }, { 237,-9614 }, { 238,-9614 }, { 239,-9614 },
+ { 240,-9614 }, { 241,-9614 }, { 242,-9614 }, { 243,-9614 }, { 244,-9614 },
+
+ { 245,-9614 }, { 246,-9614 }, { 247,-9614 }, { 248,-9614 }, { 249,-9614 },
+ { 250,-9614 }, { 251,-9614 }, { 252,-9614 }, { 253,-9614 }, { 254,-9614 },
+ { 255,-9614 }, { 256,-9614 }, {   0,   0 }, {   0,4941 }, {   1,-9872 },
+ {   2,-9872 }, {   3,-9872 }, {   4,-9872 }, {   5,-9872 }, {   6,-9872 },
+ {   7,-9872 }, {   8,-9872 }, {   9,-9993 }, {  10,-9993 }, {  11,-9872 },
+ {  12,-9872 }, {  13,-9993 }, {  14,-9872 }, {  15,-9872 }, {  16,-9872 },
+ {  17,-9872 }, {  18,-9872 }, {  19,-9872 }, {  20,-9872 }, {  21,-9872 },
+ {  22,-9872 }, {  23,-9872 }, {  24,-9872 }, {  25,-9872 }, {  26,-9872 },
+ {  27,-9872 }, {  28,-9872 }, {  29,-9872 }, {  30,-9872 }, {  31,-9872 },
+ {  32,-9993 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9872 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9993 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9872 }, {  46,-9993 },
+ {  47,-9993 }, {  48,-9872 }, {  49,-9872 }, {  50,-9872 }, {  51,-9872 },
+ {  52,-9872 }, {  53,-9872 }, {  54,-9872 }, {  55,-9872 }, {  56,-9872 },
+ {  57,-9872 }, {  58,-9872 }, {   0,   0 }, {   0,   0 }, {  61,-9993 },
+ {   0,   0 }, {  63,-9872 }, {   0,   0 }, {  65,-9872 }, {  66,-9872 },
+ {  67,-9872 }, {  68,-9872 }, {  69,-9872 }, {  70,-9872 }, {  71,-9872 },
+ {  72,-9872 }, {  73,-9872 }, {  74,-9872 }, {  75,-9872 }, {  76,-9872 },
+ {  77,-9872 }, {  78,-9872 }, {  79,-9872 }, {  80,-9872 }, {  81,-9872 },
+ {  82,-9872 }, {  83,-9872 }, {  84,-9872 }, {  85,-9872 }, {  86,-9872 },
+
+ {  87,-9872 }, {  88,-9872 }, {  89,-9872 }, {  90,-9872 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9872 }, {   0,   0 },
+ {  97,-9872 }, {  98,-9872 }, {  99,-9872 }, { 100,-9872 }, { 101,-9872 },
+ { 102,1706 }, { 103,-9872 }, { 104,-9872 }, { 105,-9872 }, { 106,-9872 },
+ { 107,-9872 }, { 108,-9872 }, { 109,-9872 }, { 110,-9872 }, { 111,-9872 },
+ { 112,-9872 }, { 113,-9872 }, { 114,-9872 }, { 115,-9872 }, { 116,-9872 },
+ { 117,-9872 }, { 118,-9872 }, { 119,-9872 }, { 120,-9872 }, { 121,-9872 },
+ { 122,-9872 }, {   0,   0 }, { 124,-9993 }, { 125,-9993 }, { 126,-9993 },
+ { 127,-9872 }, { 128,-9872 }, { 129,-9872 }, { 130,-9872 }, { 131,-9872 },
+ { 132,-9872 }, { 133,-9872 }, { 134,-9872 }, { 135,-9872 }, { 136,-9872 },
+
+ { 137,-9872 }, { 138,-9872 }, { 139,-9872 }, { 140,-9872 }, { 141,-9872 },
+ { 142,-9872 }, { 143,-9872 }, { 144,-9872 }, { 145,-9872 }, { 146,-9872 },
+ { 147,-9872 }, { 148,-9872 }, { 149,-9872 }, { 150,-9872 }, { 151,-9872 },
+ { 152,-9872 }, { 153,-9872 }, { 154,-9872 }, { 155,-9872 }, { 156,-9872 },
+ { 157,-9872 }, { 158,-9872 }, { 159,-9872 }, { 160,-9872 }, { 161,-9872 },
+ { 162,-9872 }, { 163,-9872 }, { 164,-9872 }, { 165,-9872 }, { 166,-9872 },
+ { 167,-9872 }, { 168,-9872 }, { 169,-9872 }, { 170,-9872 }, { 171,-9872 },
+ { 172,-9872 }, { 173,-9872 }, { 174,-9872 }, { 175,-9872 }, { 176,-9872 },
+ { 177,-9872 }, { 178,-9872 }, { 179,-9872 }, { 180,-9872 }, { 181,-9872 },
+ { 182,-9872 }, { 183,-9872 }, { 184,-9872 }, { 185,-9872 }, { 186,-9872 },
+
+ { 187,-9872 }, { 188,-9872 }, { 189,-9872 }, { 190,-9872 }, { 191,-9872 },
+ { 192,-9872 }, { 193,-9872 }, { 194,-9872 }, { 195,-9872 }, { 196,-9872 },
+ { 197,-9872 }, { 198,-9872 }, { 199,-9872 }, { 200,-9872 }, { 201,-9872 },
+ { 202,-9872 }, { 203,-9872 }, { 204,-9872 }, { 205,-9872 }, { 206,-9872 },
+ { 207,-9872 }, { 208,-9872 }, { 209,-9872 }, { 210,-9872 }, { 211,-9872 },
+ { 212,-9872 }, { 213,-9872 }, { 214,-9872 }, { 215,-9872 }, { 216,-9872 },
+ { 217,-9872 }, { 218,-9872 }, { 219,-9872 }, { 220,-9872 }, { 221,-9872 },
+ { 222,-9872 }, { 223,-9872 }, { 224,-9872 }, { 225,-9872 }, { 226,-9872 },
+ { 227,-9872 }, { 228,-9872 }, { 229,-9872 }, { 230,-9872 }, { 231,-9872 },
+ { 232,-9872 }, { 233,-9872 }, { 234,-9872 }, { 235,-9872 }, { 236,-9872 },
+
+ { 237,-9872 }, { 238,-9872 }, { 239,-9872 }, { 240,-9872 }, { 241,-9872 },
+ { 242,-9872 }, { 243,-9872 }, { 244,-9872 }, { 245,-9872 }, { 246,-9872 },
+ { 247,-9872 }, { 248,-9872 }, { 249,-9872 }, { 250,-9872 }, { 251,-9872 },
+ { 252,-9872 }, { 253,-9872 }, { 254,-9872 }, { 255,-9872 }, { 256,-9872 },
+ {   0,   0 }, {   0,4683 }, {   0,   0 }, {   0,4681 }, {   0,   0 },
+ {   0,4679 }, {   0,   0 }, {   0,4677 }, {   0,   0 }, {   0,4675 },
+ {   0,  16 }, {   0,4673 }, {   0,  26 }, {   0,4671 }, {   0,  17 },
+ {   0,4669 }, {   0,  36 }, {   0,4667 }, {   0,  12 }, {   0,4665 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 115,   0 }, { 108,1706 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 115,1706 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,   2 }, { 126,   4 }, { 125,1708 }, {   0,   0 },
 
+ { 125,  -2 }, {   0,   0 }, {   0,4552 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
  {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
@@ -3238,9 +4702,9 @@ static const struct yy_trans_info yy_transition[20137] =
  {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
  {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
  {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
 
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
  {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
@@ -3250,19 +4714,19 @@ static const struct yy_trans_info yy_transition[20137] =
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
  {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
  {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
 
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
  { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
 
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
  { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
@@ -3272,8 +4736,8 @@ static const struct yy_trans_info yy_transition[20137] =
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
  { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
 
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
  { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
@@ -3283,1353 +4747,723 @@ static const struct yy_trans_info yy_transition[20137] =
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
+ {   0,4294 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
+ {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
+ {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
+ {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
+ {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
+ {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
+ {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
+
+ {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
+ {  45,-2838 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
+ {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
+ {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
+ {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
+ {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
+ {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
+ {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
+ {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
+ {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
+
+ {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
+ {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
+ { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
+ { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
+ { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
+ { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
+ { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
+ { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
+ { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
+ { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
+
+ { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
+ { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
+ { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
+ { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
+ { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
+ { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
+ { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
+ { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
+ { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
+ { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
+
+ { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
+ { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
+ { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
+ { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
+ { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
+ { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
+ { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
+ { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
+ { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
+ { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
+
+ { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
+ { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
+ { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
+ { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,4036 }, {   1,1184 },
+ {   2,1184 }, {   3,1184 }, {   4,1184 }, {   5,1184 }, {   6,1184 },
+ {   7,1184 }, {   8,1184 }, {   9,1184 }, {  10,1184 }, {  11,1184 },
+ {  12,1184 }, {  13,1184 }, {  14,1184 }, {  15,1184 }, {  16,1184 },
+ {  17,1184 }, {  18,1184 }, {  19,1184 }, {  20,1184 }, {  21,1184 },
+ {  22,1184 }, {  23,1184 }, {  24,1184 }, {  25,1184 }, {  26,1184 },
+ {  27,1184 }, {  28,1184 }, {  29,1184 }, {  30,1184 }, {  31,1184 },
+
+ {  32,1184 }, {  33,1184 }, {  34,1184 }, {  35,1184 }, {  36,1184 },
+ {  37,1184 }, {  38,1184 }, {  39,1184 }, {  40,1184 }, {  41,1184 },
+ {  42,1184 }, {  43,1184 }, {  44,1184 }, {  45,1442 }, {  46,1184 },
+ {  47,1184 }, {  48,1184 }, {  49,1184 }, {  50,1184 }, {  51,1184 },
+ {  52,1184 }, {  53,1184 }, {  54,1184 }, {  55,1184 }, {  56,1184 },
+ {  57,1184 }, {  58,1184 }, {  59,1184 }, {  60,1184 }, {  61,1184 },
+ {  62,1184 }, {  63,1184 }, {  64,1184 }, {  65,1184 }, {  66,1184 },
+ {  67,1184 }, {  68,1184 }, {  69,1184 }, {  70,1184 }, {  71,1184 },
+ {  72,1184 }, {  73,1184 }, {  74,1184 }, {  75,1184 }, {  76,1184 },
+ {  77,1184 }, {  78,1184 }, {  79,1184 }, {  80,1184 }, {  81,1184 },
+
+ {  82,1184 }, {  83,1184 }, {  84,1184 }, {  85,1184 }, {  86,1184 },
+ {  87,1184 }, {  88,1184 }, {  89,1184 }, {  90,1184 }, {  91,1184 },
+ {  92,1184 }, {  93,1184 }, {  94,1184 }, {  95,1184 }, {  96,1184 },
+ {  97,1184 }, {  98,1184 }, {  99,1184 }, { 100,1184 }, { 101,1184 },
+ { 102,1184 }, { 103,1184 }, { 104,1184 }, { 105,1184 }, { 106,1184 },
+ { 107,1184 }, { 108,1184 }, { 109,1184 }, { 110,1184 }, { 111,1184 },
+ { 112,1184 }, { 113,1184 }, { 114,1184 }, { 115,1184 }, { 116,1184 },
+ { 117,1184 }, { 118,1184 }, { 119,1184 }, { 120,1184 }, { 121,1184 },
+ { 122,1184 }, { 123,1184 }, { 124,1184 }, { 125,1184 }, { 126,1184 },
+ { 127,1184 }, { 128,1184 }, { 129,1184 }, { 130,1184 }, { 131,1184 },
+
+ { 132,1184 }, { 133,1184 }, { 134,1184 }, { 135,1184 }, { 136,1184 },
+ { 137,1184 }, { 138,1184 }, { 139,1184 }, { 140,1184 }, { 141,1184 },
+ { 142,1184 }, { 143,1184 }, { 144,1184 }, { 145,1184 }, { 146,1184 },
+ { 147,1184 }, { 148,1184 }, { 149,1184 }, { 150,1184 }, { 151,1184 },
+ { 152,1184 }, { 153,1184 }, { 154,1184 }, { 155,1184 }, { 156,1184 },
+ { 157,1184 }, { 158,1184 }, { 159,1184 }, { 160,1184 }, { 161,1184 },
+ { 162,1184 }, { 163,1184 }, { 164,1184 }, { 165,1184 }, { 166,1184 },
+ { 167,1184 }, { 168,1184 }, { 169,1184 }, { 170,1184 }, { 171,1184 },
+ { 172,1184 }, { 173,1184 }, { 174,1184 }, { 175,1184 }, { 176,1184 },
+ { 177,1184 }, { 178,1184 }, { 179,1184 }, { 180,1184 }, { 181,1184 },
+
+ { 182,1184 }, { 183,1184 }, { 184,1184 }, { 185,1184 }, { 186,1184 },
+ { 187,1184 }, { 188,1184 }, { 189,1184 }, { 190,1184 }, { 191,1184 },
+ { 192,1184 }, { 193,1184 }, { 194,1184 }, { 195,1184 }, { 196,1184 },
+ { 197,1184 }, { 198,1184 }, { 199,1184 }, { 200,1184 }, { 201,1184 },
+ { 202,1184 }, { 203,1184 }, { 204,1184 }, { 205,1184 }, { 206,1184 },
+ { 207,1184 }, { 208,1184 }, { 209,1184 }, { 210,1184 }, { 211,1184 },
+ { 212,1184 }, { 213,1184 }, { 214,1184 }, { 215,1184 }, { 216,1184 },
+ { 217,1184 }, { 218,1184 }, { 219,1184 }, { 220,1184 }, { 221,1184 },
+ { 222,1184 }, { 223,1184 }, { 224,1184 }, { 225,1184 }, { 226,1184 },
+ { 227,1184 }, { 228,1184 }, { 229,1184 }, { 230,1184 }, { 231,1184 },
+
+ { 232,1184 }, { 233,1184 }, { 234,1184 }, { 235,1184 }, { 236,1184 },
+ { 237,1184 }, { 238,1184 }, { 239,1184 }, { 240,1184 }, { 241,1184 },
+ { 242,1184 }, { 243,1184 }, { 244,1184 }, { 245,1184 }, { 246,1184 },
+ { 247,1184 }, { 248,1184 }, { 249,1184 }, { 250,1184 }, { 251,1184 },
+ { 252,1184 }, { 253,1184 }, { 254,1184 }, { 255,1184 }, { 256,1184 },
+ {   0,   0 }, {   0,3778 }, {   1, 811 }, {   2, 811 }, {   3, 811 },
+ {   4, 811 }, {   5, 811 }, {   6, 811 }, {   7, 811 }, {   8, 811 },
+ {   9, 811 }, {  10, 811 }, {  11, 811 }, {  12, 811 }, {  13, 811 },
+ {  14, 811 }, {  15, 811 }, {  16, 811 }, {  17, 811 }, {  18, 811 },
+ {  19, 811 }, {  20, 811 }, {  21, 811 }, {  22, 811 }, {  23, 811 },
+
+ {  24, 811 }, {  25, 811 }, {  26, 811 }, {  27, 811 }, {  28, 811 },
+ {  29, 811 }, {  30, 811 }, {  31, 811 }, {  32, 811 }, {  33, 811 },
+ {  34, 811 }, {  35, 811 }, {  36, 811 }, {  37, 811 }, {  38, 811 },
+ {  39, 811 }, {  40, 811 }, {  41, 811 }, {  42, 811 }, {  43, 811 },
+ {  44, 811 }, {  45, 811 }, {  46, 811 }, {  47,1442 }, {  48, 811 },
+ {  49, 811 }, {  50, 811 }, {  51, 811 }, {  52, 811 }, {  53, 811 },
+ {  54, 811 }, {  55, 811 }, {  56, 811 }, {  57, 811 }, {  58, 811 },
+ {  59, 811 }, {  60, 811 }, {  61, 811 }, {  62, 811 }, {  63, 811 },
+ {  64, 811 }, {  65, 811 }, {  66, 811 }, {  67, 811 }, {  68, 811 },
+ {  69, 811 }, {  70, 811 }, {  71, 811 }, {  72, 811 }, {  73, 811 },
+
+ {  74, 811 }, {  75, 811 }, {  76, 811 }, {  77, 811 }, {  78, 811 },
+ {  79, 811 }, {  80, 811 }, {  81, 811 }, {  82, 811 }, {  83, 811 },
+ {  84, 811 }, {  85, 811 }, {  86, 811 }, {  87, 811 }, {  88, 811 },
+ {  89, 811 }, {  90, 811 }, {  91, 811 }, {  92, 811 }, {  93, 811 },
+ {  94, 811 }, {  95, 811 }, {  96, 811 }, {  97, 811 }, {  98, 811 },
+ {  99, 811 }, { 100, 811 }, { 101, 811 }, { 102, 811 }, { 103, 811 },
+ { 104, 811 }, { 105, 811 }, { 106, 811 }, { 107, 811 }, { 108, 811 },
+ { 109, 811 }, { 110, 811 }, { 111, 811 }, { 112, 811 }, { 113, 811 },
+ { 114, 811 }, { 115, 811 }, { 116, 811 }, { 117, 811 }, { 118, 811 },
+ { 119, 811 }, { 120, 811 }, { 121, 811 }, { 122, 811 }, { 123, 811 },
+
+ { 124, 811 }, { 125, 811 }, { 126, 811 }, { 127, 811 }, { 128, 811 },
+ { 129, 811 }, { 130, 811 }, { 131, 811 }, { 132, 811 }, { 133, 811 },
+ { 134, 811 }, { 135, 811 }, { 136, 811 }, { 137, 811 }, { 138, 811 },
+ { 139, 811 }, { 140, 811 }, { 141, 811 }, { 142, 811 }, { 143, 811 },
+ { 144, 811 }, { 145, 811 }, { 146, 811 }, { 147, 811 }, { 148, 811 },
+ { 149, 811 }, { 150, 811 }, { 151, 811 }, { 152, 811 }, { 153, 811 },
+ { 154, 811 }, { 155, 811 }, { 156, 811 }, { 157, 811 }, { 158, 811 },
+ { 159, 811 }, { 160, 811 }, { 161, 811 }, { 162, 811 }, { 163, 811 },
+ { 164, 811 }, { 165, 811 }, { 166, 811 }, { 167, 811 }, { 168, 811 },
+ { 169, 811 }, { 170, 811 }, { 171, 811 }, { 172, 811 }, { 173, 811 },
+
+ { 174, 811 }, { 175, 811 }, { 176, 811 }, { 177, 811 }, { 178, 811 },
+ { 179, 811 }, { 180, 811 }, { 181, 811 }, { 182, 811 }, { 183, 811 },
+ { 184, 811 }, { 185, 811 }, { 186, 811 }, { 187, 811 }, { 188, 811 },
+ { 189, 811 }, { 190, 811 }, { 191, 811 }, { 192, 811 }, { 193, 811 },
+ { 194, 811 }, { 195, 811 }, { 196, 811 }, { 197, 811 }, { 198, 811 },
+ { 199, 811 }, { 200, 811 }, { 201, 811 }, { 202, 811 }, { 203, 811 },
+ { 204, 811 }, { 205, 811 }, { 206, 811 }, { 207, 811 }, { 208, 811 },
+ { 209, 811 }, { 210, 811 }, { 211, 811 }, { 212, 811 }, { 213, 811 },
+ { 214, 811 }, { 215, 811 }, { 216, 811 }, { 217, 811 }, { 218, 811 },
+ { 219, 811 }, { 220, 811 }, { 221, 811 }, { 222, 811 }, { 223, 811 },
+
+ { 224, 811 }, { 225, 811 }, { 226, 811 }, { 227, 811 }, { 228, 811 },
+ { 229, 811 }, { 230, 811 }, { 231, 811 }, { 232, 811 }, { 233, 811 },
+ { 234, 811 }, { 235, 811 }, { 236, 811 }, { 237, 811 }, { 238, 811 },
+ { 239, 811 }, { 240, 811 }, { 241, 811 }, { 242, 811 }, { 243, 811 },
+ { 244, 811 }, { 245, 811 }, { 246, 811 }, { 247, 811 }, { 248, 811 },
+ { 249, 811 }, { 250, 811 }, { 251, 811 }, { 252, 811 }, { 253, 811 },
+ { 254, 811 }, { 255, 811 }, { 256, 811 }, {   0,   1 }, {   0,3520 },
+ {   0,   1 }, {   0,3518 }, {   0,  46 }, {   0,3516 }, {   0,  43 },
+ {   0,3514 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,3493 }, {   1,-11320 }, {   2,-11320 }, {   3,-11320 },
+ {   4,-11320 }, {   5,-11320 }, {   6,-11320 }, {   7,-11320 }, {   8,-11320 },
+ {   9, 530 }, {  10, 530 }, {  11,-11320 }, {  12,-11320 }, {  13, 530 },
+ {  14,-11320 }, {  15,-11320 }, {  16,-11320 }, {  17,-11320 }, {  18,-11320 },
+ {  19,-11320 }, {  20,-11320 }, {  21,-11320 }, {  22,-11320 }, {  23,-11320 },
+ {  24,-11320 }, {  25,-11320 }, {  26,-11320 }, {  27,-11320 }, {  28,-11320 },
+ {  29,-11320 }, {  30,-11320 }, {  31,-11320 }, {  32, 530 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-11320 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  41, 530 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-11320 }, {  46,-11441 }, {  47,-11441 }, {  48,-11320 },
+ {  49,-11320 }, {  50,-11320 }, {  51,-11320 }, {  52,-11320 }, {  53,-11320 },
+ {  54,-11320 }, {  55,-11320 }, {  56,-11320 }, {  57,-11320 }, {  58,-11320 },
+ {   0,   0 }, {   0,   0 }, {  61,-11441 }, {   0,   0 }, {  63,-11320 },
+ {   0,   0 }, {  65,-11320 }, {  66,-11320 }, {  67,-11320 }, {  68,-11320 },
+ {  69,-11320 }, {  70,-11320 }, {  71,-11320 }, {  72,-11320 }, {  73,-11320 },
+ {  74,-11320 }, {  75,-11320 }, {  76,-11320 }, {  77,-11320 }, {  78,-11320 },
+ {  79,-11320 }, {  80,-11320 }, {  81,-11320 }, {  82,-11320 }, {  83,-11320 },
+ {  84,-11320 }, {  85,-11320 }, {  86,-11320 }, {  87,-11320 }, {  88,-11320 },
+
+ {  89,-11320 }, {  90,-11320 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-11320 }, { 123, 555 }, {  97,-11320 }, {  98,-11320 },
+ {  99,-11320 }, { 100,-11320 }, { 101,-11320 }, { 102,-11320 }, { 103,-11320 },
+ { 104,-11320 }, { 105,-11320 }, { 106,-11320 }, { 107,-11320 }, { 108,-11320 },
+ { 109,-11320 }, { 110,-11320 }, { 111,-11320 }, { 112,-11320 }, { 113,-11320 },
+ { 114,-11320 }, { 115,-11320 }, { 116,-11320 }, { 117,-11320 }, { 118,-11320 },
+ { 119,-11320 }, { 120,-11320 }, { 121,-11320 }, { 122,-11320 }, {   0,   0 },
+ { 124,-11441 }, { 125, 530 }, { 126, 530 }, { 127,-11320 }, { 128,-11320 },
+ { 129,-11320 }, { 130,-11320 }, { 131,-11320 }, { 132,-11320 }, { 133,-11320 },
+ { 134,-11320 }, { 135,-11320 }, { 136,-11320 }, { 137,-11320 }, { 138,-11320 },
+
+ { 139,-11320 }, { 140,-11320 }, { 141,-11320 }, { 142,-11320 }, { 143,-11320 },
+ { 144,-11320 }, { 145,-11320 }, { 146,-11320 }, { 147,-11320 }, { 148,-11320 },
+ { 149,-11320 }, { 150,-11320 }, { 151,-11320 }, { 152,-11320 }, { 153,-11320 },
+ { 154,-11320 }, { 155,-11320 }, { 156,-11320 }, { 157,-11320 }, { 158,-11320 },
+ { 159,-11320 }, { 160,-11320 }, { 161,-11320 }, { 162,-11320 }, { 163,-11320 },
+ { 164,-11320 }, { 165,-11320 }, { 166,-11320 }, { 167,-11320 }, { 168,-11320 },
+ { 169,-11320 }, { 170,-11320 }, { 171,-11320 }, { 172,-11320 }, { 173,-11320 },
+ { 174,-11320 }, { 175,-11320 }, { 176,-11320 }, { 177,-11320 }, { 178,-11320 },
+ { 179,-11320 }, { 180,-11320 }, { 181,-11320 }, { 182,-11320 }, { 183,-11320 },
+ { 184,-11320 }, { 185,-11320 }, { 186,-11320 }, { 187,-11320 }, { 188,-11320 },
+
+ { 189,-11320 }, { 190,-11320 }, { 191,-11320 }, { 192,-11320 }, { 193,-11320 },
+ { 194,-11320 }, { 195,-11320 }, { 196,-11320 }, { 197,-11320 }, { 198,-11320 },
+ { 199,-11320 }, { 200,-11320 }, { 201,-11320 }, { 202,-11320 }, { 203,-11320 },
+ { 204,-11320 }, { 205,-11320 }, { 206,-11320 }, { 207,-11320 }, { 208,-11320 },
+ { 209,-11320 }, { 210,-11320 }, { 211,-11320 }, { 212,-11320 }, { 213,-11320 },
+ { 214,-11320 }, { 215,-11320 }, { 216,-11320 }, { 217,-11320 }, { 218,-11320 },
+ { 219,-11320 }, { 220,-11320 }, { 221,-11320 }, { 222,-11320 }, { 223,-11320 },
+ { 224,-11320 }, { 225,-11320 }, { 226,-11320 }, { 227,-11320 }, { 228,-11320 },
+ { 229,-11320 }, { 230,-11320 }, { 231,-11320 }, { 232,-11320 }, { 233,-11320 },
+ { 234,-11320 }, { 235,-11320 }, { 236,-11320 }, { 237,-11320 }, { 238,-11320 },
+
+ { 239,-11320 }, { 240,-11320 }, { 241,-11320 }, { 242,-11320 }, { 243,-11320 },
+ { 244,-11320 }, { 245,-11320 }, { 246,-11320 }, { 247,-11320 }, { 248,-11320 },
+ { 249,-11320 }, { 250,-11320 }, { 251,-11320 }, { 252,-11320 }, { 253,-11320 },
+ { 254,-11320 }, { 255,-11320 }, { 256,-11320 }, {   0,   0 }, {   0,3235 },
+ {   1,-11578 }, {   2,-11578 }, {   3,-11578 }, {   4,-11578 }, {   5,-11578 },
+ {   6,-11578 }, {   7,-11578 }, {   8,-11578 }, {   9,-11699 }, {  10,-11699 },
+ {  11,-11578 }, {  12,-11578 }, {  13,-11699 }, {  14,-11578 }, {  15,-11578 },
+ {  16,-11578 }, {  17,-11578 }, {  18,-11578 }, {  19,-11578 }, {  20,-11578 },
+ {  21,-11578 }, {  22,-11578 }, {  23,-11578 }, {  24,-11578 }, {  25,-11578 },
+ {  26,-11578 }, {  27,-11578 }, {  28,-11578 }, {  29,-11578 }, {  30,-11578 },
+
+ {  31,-11578 }, {  32,-11699 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-11578 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-11699 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11578 },
+ {  46,-11699 }, {  47,-11699 }, {  48,-11578 }, {  49,-11578 }, {  50,-11578 },
+ {  51,-11578 }, {  52,-11578 }, {  53,-11578 }, {  54,-11578 }, {  55,-11578 },
+ {  56,-11578 }, {  57,-11578 }, {  58,-11578 }, {   0,   0 }, {   0,   0 },
+ {  61,-11699 }, {   0,   0 }, {  63,-11578 }, {   0,   0 }, {  65,-11578 },
+ {  66,-11578 }, {  67,-11578 }, {  68,-11578 }, {  69,-11578 }, {  70,-11578 },
+ {  71,-11578 }, {  72,-11578 }, {  73,-11578 }, {  74,-11578 }, {  75,-11578 },
+ {  76,-11578 }, {  77,-11578 }, {  78,-11578 }, {  79,-11578 }, {  80,-11578 },
+
+ {  81,-11578 }, {  82,-11578 }, {  83,-11578 }, {  84,-11578 }, {  85,-11578 },
+ {  86,-11578 }, {  87,-11578 }, {  88,-11578 }, {  89,-11578 }, {  90,-11578 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11578 },
+ {   0,   0 }, {  97,-11578 }, {  98,-11578 }, {  99,-11578 }, { 100,-11578 },
+ { 101,-11578 }, { 102,-11578 }, { 103,-11578 }, { 104,-11578 }, { 105,1157 },
+ { 106,-11578 }, { 107,-11578 }, { 108,-11578 }, { 109,-11578 }, { 110,-11578 },
+ { 111,-11578 }, { 112,-11578 }, { 113,-11578 }, { 114,-11578 }, { 115,-11578 },
+ { 116,-11578 }, { 117,-11578 }, { 118,-11578 }, { 119,-11578 }, { 120,-11578 },
+ { 121,-11578 }, { 122,-11578 }, {   0,   0 }, { 124,-11699 }, { 125,-11699 },
+ { 126,-11699 }, { 127,-11578 }, { 128,-11578 }, { 129,-11578 }, { 130,-11578 },
+
+ { 131,-11578 }, { 132,-11578 }, { 133,-11578 }, { 134,-11578 }, { 135,-11578 },
+ { 136,-11578 }, { 137,-11578 }, { 138,-11578 }, { 139,-11578 }, { 140,-11578 },
+ { 141,-11578 }, { 142,-11578 }, { 143,-11578 }, { 144,-11578 }, { 145,-11578 },
+ { 146,-11578 }, { 147,-11578 }, { 148,-11578 }, { 149,-11578 }, { 150,-11578 },
+ { 151,-11578 }, { 152,-11578 }, { 153,-11578 }, { 154,-11578 }, { 155,-11578 },
+ { 156,-11578 }, { 157,-11578 }, { 158,-11578 }, { 159,-11578 }, { 160,-11578 },
+ { 161,-11578 }, { 162,-11578 }, { 163,-11578 }, { 164,-11578 }, { 165,-11578 },
+ { 166,-11578 }, { 167,-11578 }, { 168,-11578 }, { 169,-11578 }, { 170,-11578 },
+ { 171,-11578 }, { 172,-11578 }, { 173,-11578 }, { 174,-11578 }, { 175,-11578 },
+ { 176,-11578 }, { 177,-11578 }, { 178,-11578 }, { 179,-11578 }, { 180,-11578 },
+
+ { 181,-11578 }, { 182,-11578 }, { 183,-11578 }, { 184,-11578 }, { 185,-11578 },
+ { 186,-11578 }, { 187,-11578 }, { 188,-11578 }, { 189,-11578 }, { 190,-11578 },
+ { 191,-11578 }, { 192,-11578 }, { 193,-11578 }, { 194,-11578 }, { 195,-11578 },
+ { 196,-11578 }, { 197,-11578 }, { 198,-11578 }, { 199,-11578 }, { 200,-11578 },
+ { 201,-11578 }, { 202,-11578 }, { 203,-11578 }, { 204,-11578 }, { 205,-11578 },
+ { 206,-11578 }, { 207,-11578 }, { 208,-11578 }, { 209,-11578 }, { 210,-11578 },
+ { 211,-11578 }, { 212,-11578 }, { 213,-11578 }, { 214,-11578 }, { 215,-11578 },
+ { 216,-11578 }, { 217,-11578 }, { 218,-11578 }, { 219,-11578 }, { 220,-11578 },
+ { 221,-11578 }, { 222,-11578 }, { 223,-11578 }, { 224,-11578 }, { 225,-11578 },
+ { 226,-11578 }, { 227,-11578 }, { 228,-11578 }, { 229,-11578 }, { 230,-11578 },
+
+ { 231,-11578 }, { 232,-11578 }, { 233,-11578 }, { 234,-11578 }, { 235,-11578 },
+ { 236,-11578 }, { 237,-11578 }, { 238,-11578 }, { 239,-11578 }, { 240,-11578 },
+ { 241,-11578 }, { 242,-11578 }, { 243,-11578 }, { 244,-11578 }, { 245,-11578 },
+ { 246,-11578 }, { 247,-11578 }, { 248,-11578 }, { 249,-11578 }, { 250,-11578 },
+ { 251,-11578 }, { 252,-11578 }, { 253,-11578 }, { 254,-11578 }, { 255,-11578 },
+ { 256,-11578 }, {   0,   0 }, {   0,2977 }, {   0,  28 }, {   0,2975 },
+ {   0,  22 }, {   0,2973 }, {   0,   0 }, {   0,2971 }, {   0,   0 },
+ {   0,2969 }, {   0,   8 }, {   0,2967 }, {   0,   1 }, {   0,2965 },
+ {   0,  44 }, {   0,2963 }, {   0,   0 }, {   0,2961 }, {   0,   0 },
+ {   0,2959 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,1151 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 115,  16 }, {   0,   0 }, { 101,2301 },
+ {   0,   0 }, { 101,2307 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ { 115,  10 }, {   0,   0 }, {   0,2852 }, {   1,1160 }, {   2,1160 },
+ {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 },
+ {   8,1160 }, {   9,1160 }, {  10,1160 }, {  11,1160 }, {  12,1160 },
+ {  13,1160 }, {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 },
+ {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 },
+ {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 },
+ {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 }, {  32,1160 },
+ {  33,1160 }, {  34,1160 }, {  35,1160 }, {  36,1160 }, {  37,1160 },
+ {  38,1160 }, {  39,1160 }, {  40,1160 }, {  41,1160 }, {  42,1160 },
+ {  43,1160 }, {  44,1160 }, {  45,1418 }, {  46,1160 }, {  47,1160 },
+
+ {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 },
+ {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 },
+ {  58,1160 }, {  59,1160 }, {  60,1160 }, {  61,1160 }, {  62,1160 },
+ {  63,1160 }, {  64,1160 }, {  65,1160 }, {  66,1160 }, {  67,1160 },
+ {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 },
+ {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 },
+ {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 },
+ {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 },
+ {  88,1160 }, {  89,1160 }, {  90,1160 }, {  91,1160 }, {  92,1160 },
+ {  93,1160 }, {  94,1160 }, {  95,1160 }, {  96,1160 }, {  97,1160 },
+
+ {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 },
+ { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 },
+ { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 },
+ { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 },
+ { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 },
+ { 123,1160 }, { 124,1160 }, { 125,1160 }, { 126,1160 }, { 127,1160 },
+ { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 },
+ { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 },
+ { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 },
+ { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 },
+
+ { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 },
+ { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 },
+ { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 },
+ { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 },
+ { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 },
+ { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 },
+ { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 },
+ { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 },
+ { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 },
+ { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 },
+
+ { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 },
+ { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 },
+ { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 },
+ { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 },
+ { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 },
+ { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 },
+ { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 },
+ { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 },
+ { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 },
+ { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 },
+
+ { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 },
+ { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 },
+ {   0,2594 }, {   1,-4796 }, {   2,-4796 }, {   3,-4796 }, {   4,-4796 },
+ {   5,-4796 }, {   6,-4796 }, {   7,-4796 }, {   8,-4796 }, {   9,-4796 },
+ {  10,-4796 }, {  11,-4796 }, {  12,-4796 }, {  13,-4796 }, {  14,-4796 },
+ {  15,-4796 }, {  16,-4796 }, {  17,-4796 }, {  18,-4796 }, {  19,-4796 },
+ {  20,-4796 }, {  21,-4796 }, {  22,-4796 }, {  23,-4796 }, {  24,-4796 },
+ {  25,-4796 }, {  26,-4796 }, {  27,-4796 }, {  28,-4796 }, {  29,-4796 },
+ {  30,-4796 }, {  31,-4796 }, {  32,-4796 }, {  33,-4796 }, {  34,-4796 },
+ {  35,-4796 }, {  36,-4796 }, {  37,-4796 }, {  38,-4796 }, {  39,-4796 },
+
+ {  40,-4796 }, {  41,-4796 }, {  42,-4796 }, {  43,-4796 }, {  44,-4796 },
+ {  45,-4538 }, {  46,-4796 }, {  47,-4796 }, {  48,-4796 }, {  49,-4796 },
+ {  50,-4796 }, {  51,-4796 }, {  52,-4796 }, {  53,-4796 }, {  54,-4796 },
+ {  55,-4796 }, {  56,-4796 }, {  57,-4796 }, {  58,-4796 }, {  59,-4796 },
+ {  60,-4796 }, {  61,-4796 }, {  62,-4796 }, {  63,-4796 }, {  64,-4796 },
+ {  65,-4796 }, {  66,-4796 }, {  67,-4796 }, {  68,-4796 }, {  69,-4796 },
+ {  70,-4796 }, {  71,-4796 }, {  72,-4796 }, {  73,-4796 }, {  74,-4796 },
+ {  75,-4796 }, {  76,-4796 }, {  77,-4796 }, {  78,-4796 }, {  79,-4796 },
+ {  80,-4796 }, {  81,-4796 }, {  82,-4796 }, {  83,-4796 }, {  84,-4796 },
+ {  85,-4796 }, {  86,-4796 }, {  87,-4796 }, {  88,-4796 }, {  89,-4796 },
+
+ {  90,-4796 }, {  91,-4796 }, {  92,-4796 }, {  93,-4796 }, {  94,-4796 },
+ {  95,-4796 }, {  96,-4796 }, {  97,-4796 }, {  98,-4796 }, {  99,-4796 },
+ { 100,-4796 }, { 101,-4796 }, { 102,-4796 }, { 103,-4796 }, { 104,-4796 },
+ { 105,-4796 }, { 106,-4796 }, { 107,-4796 }, { 108,-4796 }, { 109,-4796 },
+ { 110,-4796 }, { 111,-4796 }, { 112,-4796 }, { 113,-4796 }, { 114,-4796 },
+ { 115,-4796 }, { 116,-4796 }, { 117,-4796 }, { 118,-4796 }, { 119,-4796 },
+ { 120,-4796 }, { 121,-4796 }, { 122,-4796 }, { 123,-4796 }, { 124,-4796 },
+ { 125,-4280 }, { 126,-4022 }, { 127,-4796 }, { 128,-4796 }, { 129,-4796 },
+ { 130,-4796 }, { 131,-4796 }, { 132,-4796 }, { 133,-4796 }, { 134,-4796 },
+ { 135,-4796 }, { 136,-4796 }, { 137,-4796 }, { 138,-4796 }, { 139,-4796 },
+
+ { 140,-4796 }, { 141,-4796 }, { 142,-4796 }, { 143,-4796 }, { 144,-4796 },
+ { 145,-4796 }, { 146,-4796 }, { 147,-4796 }, { 148,-4796 }, { 149,-4796 },
+ { 150,-4796 }, { 151,-4796 }, { 152,-4796 }, { 153,-4796 }, { 154,-4796 },
+ { 155,-4796 }, { 156,-4796 }, { 157,-4796 }, { 158,-4796 }, { 159,-4796 },
+ { 160,-4796 }, { 161,-4796 }, { 162,-4796 }, { 163,-4796 }, { 164,-4796 },
+ { 165,-4796 }, { 166,-4796 }, { 167,-4796 }, { 168,-4796 }, { 169,-4796 },
+ { 170,-4796 }, { 171,-4796 }, { 172,-4796 }, { 173,-4796 }, { 174,-4796 },
+ { 175,-4796 }, { 176,-4796 }, { 177,-4796 }, { 178,-4796 }, { 179,-4796 },
+ { 180,-4796 }, { 181,-4796 }, { 182,-4796 }, { 183,-4796 }, { 184,-4796 },
+ { 185,-4796 }, { 186,-4796 }, { 187,-4796 }, { 188,-4796 }, { 189,-4796 },
+
+ { 190,-4796 }, { 191,-4796 }, { 192,-4796 }, { 193,-4796 }, { 194,-4796 },
+ { 195,-4796 }, { 196,-4796 }, { 197,-4796 }, { 198,-4796 }, { 199,-4796 },
+ { 200,-4796 }, { 201,-4796 }, { 202,-4796 }, { 203,-4796 }, { 204,-4796 },
+ { 205,-4796 }, { 206,-4796 }, { 207,-4796 }, { 208,-4796 }, { 209,-4796 },
+ { 210,-4796 }, { 211,-4796 }, { 212,-4796 }, { 213,-4796 }, { 214,-4796 },
+ { 215,-4796 }, { 216,-4796 }, { 217,-4796 }, { 218,-4796 }, { 219,-4796 },
+ { 220,-4796 }, { 221,-4796 }, { 222,-4796 }, { 223,-4796 }, { 224,-4796 },
+ { 225,-4796 }, { 226,-4796 }, { 227,-4796 }, { 228,-4796 }, { 229,-4796 },
+ { 230,-4796 }, { 231,-4796 }, { 232,-4796 }, { 233,-4796 }, { 234,-4796 },
+ { 235,-4796 }, { 236,-4796 }, { 237,-4796 }, { 238,-4796 }, { 239,-4796 },
+
+ { 240,-4796 }, { 241,-4796 }, { 242,-4796 }, { 243,-4796 }, { 244,-4796 },
+ { 245,-4796 }, { 246,-4796 }, { 247,-4796 }, { 248,-4796 }, { 249,-4796 },
+ { 250,-4796 }, { 251,-4796 }, { 252,-4796 }, { 253,-4796 }, { 254,-4796 },
+ { 255,-4796 }, { 256,-4796 }, {   0,   0 }, {   0,2336 }, {   1,1160 },
+ {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 },
+ {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 },
+ {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 },
+ {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 },
+ {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 },
+ {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 },
+ {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 },
+ {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 },
+ {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 },
+ {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 },
+ {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 },
+ {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 },
+
+ {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 },
+ {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 },
+ {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 },
+ { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 },
+ { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 },
+ { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 },
+ { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 },
+ { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 },
+
+ { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 },
+ { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 },
+ { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 },
+ { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 },
+ { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 },
+ { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 },
+ { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 },
+ { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 },
+ { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 },
+ { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 },
+
+ { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 },
+ { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 },
+ { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 },
+ { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 },
+ { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 },
+ { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 },
+ { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 },
+ { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 },
+ { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 },
+ { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 },
+
+ { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 },
+ { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 },
+ { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 },
+ { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 },
+ { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 },
+ {   0,   0 }, {   0,2078 }, {   1,-12735 }, {   2,-12735 }, {   3,-12735 },
+ {   4,-12735 }, {   5,-12735 }, {   6,-12735 }, {   7,-12735 }, {   8,-12735 },
+ {   9,-12856 }, {  10,-12856 }, {  11,-12735 }, {  12,-12735 }, {  13,-12856 },
+ {  14,-12735 }, {  15,-12735 }, {  16,-12735 }, {  17,-12735 }, {  18,-12735 },
+ {  19,-12735 }, {  20,-12735 }, {  21,-12735 }, {  22,-12735 }, {  23,-12735 },
+
+ {  24,-12735 }, {  25,-12735 }, {  26,-12735 }, {  27,-12735 }, {  28,-12735 },
+ {  29,-12735 }, {  30,-12735 }, {  31,-12735 }, {  32,-12856 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-12735 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-12856 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-12735 }, {  46,-12856 }, {  47,-12856 }, {  48,-12735 },
+ {  49,-12735 }, {  50,-12735 }, {  51,-12735 }, {  52,-12735 }, {  53,-12735 },
+ {  54,-12735 }, {  55,-12735 }, {  56,-12735 }, {  57,-12735 }, {  58,-12735 },
+ {   0,   0 }, {   0,   0 }, {  61,-12856 }, {   0,   0 }, {  63,-12735 },
+ {   0,   0 }, {  65,-12735 }, {  66,-12735 }, {  67,-12735 }, {  68,-12735 },
+ {  69,-12735 }, {  70,-12735 }, {  71,-12735 }, {  72,-12735 }, {  73,-12735 },
+
+ {  74,-12735 }, {  75,-12735 }, {  76,-12735 }, {  77,-12735 }, {  78,-12735 },
+ {  79,-12735 }, {  80,-12735 }, {  81,-12735 }, {  82,-12735 }, {  83,-12735 },
+ {  84,-12735 }, {  85,-12735 }, {  86,-12735 }, {  87,-12735 }, {  88,-12735 },
+ {  89,-12735 }, {  90,-12735 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-12735 }, {   0,   0 }, {  97,-12735 }, {  98,-12735 },
+ {  99,-12735 }, { 100,-12735 }, { 101,-12735 }, { 102,-12735 }, { 103,-12735 },
+ { 104,-12735 }, { 105,-12735 }, { 106,-12735 }, { 107,-12735 }, { 108,-12735 },
+ { 109,-12735 }, { 110,1160 }, { 111,-12735 }, { 112,-12735 }, { 113,-12735 },
+ { 114,-12735 }, { 115,-12735 }, { 116,-12735 }, { 117,-12735 }, { 118,-12735 },
+ { 119,-12735 }, { 120,-12735 }, { 121,-12735 }, { 122,-12735 }, {   0,   0 },
+
+ { 124,-12856 }, { 125,-12856 }, { 126,-12856 }, { 127,-12735 }, { 128,-12735 },
+ { 129,-12735 }, { 130,-12735 }, { 131,-12735 }, { 132,-12735 }, { 133,-12735 },
+ { 134,-12735 }, { 135,-12735 }, { 136,-12735 }, { 137,-12735 }, { 138,-12735 },
+ { 139,-12735 }, { 140,-12735 }, { 141,-12735 }, { 142,-12735 }, { 143,-12735 },
+ { 144,-12735 }, { 145,-12735 }, { 146,-12735 }, { 147,-12735 }, { 148,-12735 },
+ { 149,-12735 }, { 150,-12735 }, { 151,-12735 }, { 152,-12735 }, { 153,-12735 },
+ { 154,-12735 }, { 155,-12735 }, { 156,-12735 }, { 157,-12735 }, { 158,-12735 },
+ { 159,-12735 }, { 160,-12735 }, { 161,-12735 }, { 162,-12735 }, { 163,-12735 },
+ { 164,-12735 }, { 165,-12735 }, { 166,-12735 }, { 167,-12735 }, { 168,-12735 },
+ { 169,-12735 }, { 170,-12735 }, { 171,-12735 }, { 172,-12735 }, { 173,-12735 },
+
+ { 174,-12735 }, { 175,-12735 }, { 176,-12735 }, { 177,-12735 }, { 178,-12735 },
+ { 179,-12735 }, { 180,-12735 }, { 181,-12735 }, { 182,-12735 }, { 183,-12735 },
+ { 184,-12735 }, { 185,-12735 }, { 186,-12735 }, { 187,-12735 }, { 188,-12735 },
+ { 189,-12735 }, { 190,-12735 }, { 191,-12735 }, { 192,-12735 }, { 193,-12735 },
+ { 194,-12735 }, { 195,-12735 }, { 196,-12735 }, { 197,-12735 }, { 198,-12735 },
+ { 199,-12735 }, { 200,-12735 }, { 201,-12735 }, { 202,-12735 }, { 203,-12735 },
+ { 204,-12735 }, { 205,-12735 }, { 206,-12735 }, { 207,-12735 }, { 208,-12735 },
+ { 209,-12735 }, { 210,-12735 }, { 211,-12735 }, { 212,-12735 }, { 213,-12735 },
+ { 214,-12735 }, { 215,-12735 }, { 216,-12735 }, { 217,-12735 }, { 218,-12735 },
+ { 219,-12735 }, { 220,-12735 }, { 221,-12735 }, { 222,-12735 }, { 223,-12735 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7678 },
- {   0,   0 }, {   0,7676 }, {   0,   0 }, {   0,7674 }, {   0,   5 },
- {   0,7672 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 224,-12735 }, { 225,-12735 }, { 226,-12735 }, { 227,-12735 }, { 228,-12735 },
+ { 229,-12735 }, { 230,-12735 }, { 231,-12735 }, { 232,-12735 }, { 233,-12735 },
+ { 234,-12735 }, { 235,-12735 }, { 236,-12735 }, { 237,-12735 }, { 238,-12735 },
+ { 239,-12735 }, { 240,-12735 }, { 241,-12735 }, { 242,-12735 }, { 243,-12735 },
+ { 244,-12735 }, { 245,-12735 }, { 246,-12735 }, { 247,-12735 }, { 248,-12735 },
+ { 249,-12735 }, { 250,-12735 }, { 251,-12735 }, { 252,-12735 }, { 253,-12735 },
+ { 254,-12735 }, { 255,-12735 }, { 256,-12735 }, {   0,  25 }, {   0,1820 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1162 }, {  10,1162 },
+ {   0,   0 }, {   0,   0 }, {  13,1162 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,1162 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,  48 }, {   0,7581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,2347 }, {   0,   0 }, { 123,2348 },
- {   0,   0 }, { 123,2350 }, {   0,   4 }, {   0,7549 }, {   1,2350 },
- {   2,2350 }, {   3,2350 }, {   4,2350 }, {   5,2350 }, {   6,2350 },
- {   7,2350 }, {   8,2350 }, {   9,2350 }, {  10,2227 }, {  11,2350 },
- {  12,2350 }, {  13,2227 }, {  14,2350 }, {  15,2350 }, {  16,2350 },
-
- {  17,2350 }, {  18,2350 }, {  19,2350 }, {  20,2350 }, {  21,2350 },
- {  22,2350 }, {  23,2350 }, {  24,2350 }, {  25,2350 }, {  26,2350 },
- {  27,2350 }, {  28,2350 }, {  29,2350 }, {  30,2350 }, {  31,2350 },
- {  32,2350 }, {  33,2350 }, {  34,2350 }, {  35,2350 }, {  36,2350 },
- {  37,2350 }, {  38,2350 }, {  39,2350 }, {  40,2350 }, {  41,2350 },
- {  42,2350 }, {  43,2350 }, {  44,2350 }, {  45,2350 }, {  46,2350 },
- {  47,2350 }, {  48,2350 }, {  49,2350 }, {  50,2350 }, {  51,2350 },
- {  52,2350 }, {  53,2350 }, {  54,2350 }, {  55,2350 }, {  56,2350 },
- {  57,2350 }, {  58,2350 }, {  59,2350 }, {  60,2350 }, {  61,2350 },
- {  62,2350 }, {  63,2350 }, {  64,2350 }, {  65,2350 }, {  66,2350 },
-
- {  67,2350 }, {  68,2350 }, {  69,2350 }, {  70,2350 }, {  71,2350 },
- {  72,2350 }, {  73,2350 }, {  74,2350 }, {  75,2350 }, {  76,2350 },
- {  77,2350 }, {  78,2350 }, {  79,2350 }, {  80,2350 }, {  81,2350 },
- {  82,2350 }, {  83,2350 }, {  84,2350 }, {  85,2350 }, {  86,2350 },
- {  87,2350 }, {  88,2350 }, {  89,2350 }, {  90,2350 }, {  91,2350 },
- { 124,2263 }, {  93,2350 }, {  94,2350 }, {  95,2350 }, {  96,2350 },
- {  97,2350 }, {  98,2350 }, {  99,2350 }, { 100,2350 }, { 101,2350 },
- { 102,2350 }, { 103,2350 }, { 104,2350 }, { 105,2350 }, { 106,2350 },
- { 107,2350 }, { 108,2350 }, { 109,2350 }, { 110,2350 }, { 111,2350 },
- { 112,2350 }, { 113,2350 }, { 114,2350 }, { 115,2350 }, { 116,2350 },
-
- { 117,2350 }, { 118,2350 }, { 119,2350 }, { 120,2350 }, { 121,2350 },
- { 122,2350 }, { 123,2607 }, { 124,2350 }, { 125,2350 }, { 126,2350 },
- { 127,2350 }, { 128,2350 }, { 129,2350 }, { 130,2350 }, { 131,2350 },
- { 132,2350 }, { 133,2350 }, { 134,2350 }, { 135,2350 }, { 136,2350 },
- { 137,2350 }, { 138,2350 }, { 139,2350 }, { 140,2350 }, { 141,2350 },
- { 142,2350 }, { 143,2350 }, { 144,2350 }, { 145,2350 }, { 146,2350 },
- { 147,2350 }, { 148,2350 }, { 149,2350 }, { 150,2350 }, { 151,2350 },
- { 152,2350 }, { 153,2350 }, { 154,2350 }, { 155,2350 }, { 156,2350 },
- { 157,2350 }, { 158,2350 }, { 159,2350 }, { 160,2350 }, { 161,2350 },
- { 162,2350 }, { 163,2350 }, { 164,2350 }, { 165,2350 }, { 166,2350 },
-
- { 167,2350 }, { 168,2350 }, { 169,2350 }, { 170,2350 }, { 171,2350 },
- { 172,2350 }, { 173,2350 }, { 174,2350 }, { 175,2350 }, { 176,2350 },
- { 177,2350 }, { 178,2350 }, { 179,2350 }, { 180,2350 }, { 181,2350 },
- { 182,2350 }, { 183,2350 }, { 184,2350 }, { 185,2350 }, { 186,2350 },
- { 187,2350 }, { 188,2350 }, { 189,2350 }, { 190,2350 }, { 191,2350 },
- { 192,2350 }, { 193,2350 }, { 194,2350 }, { 195,2350 }, { 196,2350 },
- { 197,2350 }, { 198,2350 }, { 199,2350 }, { 200,2350 }, { 201,2350 },
- { 202,2350 }, { 203,2350 }, { 204,2350 }, { 205,2350 }, { 206,2350 },
- { 207,2350 }, { 208,2350 }, { 209,2350 }, { 210,2350 }, { 211,2350 },
- { 212,2350 }, { 213,2350 }, { 214,2350 }, { 215,2350 }, { 216,2350 },
-
- { 217,2350 }, { 218,2350 }, { 219,2350 }, { 220,2350 }, { 221,2350 },
- { 222,2350 }, { 223,2350 }, { 224,2350 }, { 225,2350 }, { 226,2350 },
- { 227,2350 }, { 228,2350 }, { 229,2350 }, { 230,2350 }, { 231,2350 },
- { 232,2350 }, { 233,2350 }, { 234,2350 }, { 235,2350 }, { 236,2350 },
- { 237,2350 }, { 238,2350 }, { 239,2350 }, { 240,2350 }, { 241,2350 },
- { 242,2350 }, { 243,2350 }, { 244,2350 }, { 245,2350 }, { 246,2350 },
- { 247,2350 }, { 248,2350 }, { 249,2350 }, { 250,2350 }, { 251,2350 },
- { 252,2350 }, { 253,2350 }, { 254,2350 }, { 255,2350 }, {   0,  38 },
- {   0,7292 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
- {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
-
- {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
- {  15,-4450 }, {  16,-4450 }, {  17,-4450 }, {  18,-4450 }, {  19,-4450 },
- {  20,-4450 }, {  21,-4450 }, {  22,-4450 }, {  23,-4450 }, {  24,-4450 },
- {  25,-4450 }, {  26,-4450 }, {  27,-4450 }, {  28,-4450 }, {  29,-4450 },
- {  30,-4450 }, {  31,-4450 }, {  32,-4450 }, {  33,-4450 }, {  34,-4482 },
- {  35,-4450 }, {  36,-4450 }, {  37,-4450 }, {  38,-4450 }, {  39,-4450 },
- {  40,-4450 }, {  41,-4450 }, {  42,-4450 }, {  43,-4450 }, {  44,-4450 },
- {  45,-4450 }, {  46,-4450 }, {  47,-4450 }, {  48,-4450 }, {  49,-4450 },
- {  50,-4450 }, {  51,-4450 }, {  52,-4450 }, {  53,-4450 }, {  54,-4450 },
- {  55,-4450 }, {  56,-4450 }, {  57,-4450 }, {  58,-4450 }, {  59,-4450 },
-
- {  60,-4450 }, {  61,-4450 }, {  62,-4450 }, {  63,-4450 }, {  64,-4450 },
- {  65,-4450 }, {  66,-4450 }, {  67,-4450 }, {  68,-4450 }, {  69,-4450 },
- {  70,-4450 }, {  71,-4450 }, {  72,-4450 }, {  73,-4450 }, {  74,-4450 },
- {  75,-4450 }, {  76,-4450 }, {  77,-4450 }, {  78,-4450 }, {  79,-4450 },
- {  80,-4450 }, {  81,-4450 }, {  82,-4450 }, {  83,-4450 }, {  84,-4450 },
- {  85,-4450 }, {  86,-4450 }, {  87,-4450 }, {  88,-4450 }, {  89,-4450 },
- {  90,-4450 }, {  91,-4450 }, {  92,-4192 }, {  93,-4450 }, {  94,-4450 },
- {  95,-4450 }, {  96,-4450 }, {  97,-4450 }, {  98,-4450 }, {  99,-4450 },
- { 100,-4450 }, { 101,-4450 }, { 102,-4450 }, { 103,-4450 }, { 104,-4450 },
- { 105,-4450 }, { 106,-4450 }, { 107,-4450 }, { 108,-4450 }, { 109,-4450 },
-
- { 110,-4450 }, { 111,-4450 }, { 112,-4450 }, { 113,-4450 }, { 114,-4450 },
- { 115,-4450 }, { 116,-4450 }, { 117,-4450 }, { 118,-4450 }, { 119,-4450 },
- { 120,-4450 }, { 121,-4450 }, { 122,-4450 }, { 123,-4450 }, { 124,-4450 },
- { 125,-4450 }, { 126,-4450 }, { 127,-4450 }, { 128,-4450 }, { 129,-4450 },
- { 130,-4450 }, { 131,-4450 }, { 132,-4450 }, { 133,-4450 }, { 134,-4450 },
- { 135,-4450 }, { 136,-4450 }, { 137,-4450 }, { 138,-4450 }, { 139,-4450 },
- { 140,-4450 }, { 141,-4450 }, { 142,-4450 }, { 143,-4450 }, { 144,-4450 },
- { 145,-4450 }, { 146,-4450 }, { 147,-4450 }, { 148,-4450 }, { 149,-4450 },
- { 150,-4450 }, { 151,-4450 }, { 152,-4450 }, { 153,-4450 }, { 154,-4450 },
- { 155,-4450 }, { 156,-4450 }, { 157,-4450 }, { 158,-4450 }, { 159,-4450 },
-
- { 160,-4450 }, { 161,-4450 }, { 162,-4450 }, { 163,-4450 }, { 164,-4450 },
- { 165,-4450 }, { 166,-4450 }, { 167,-4450 }, { 168,-4450 }, { 169,-4450 },
- { 170,-4450 }, { 171,-4450 }, { 172,-4450 }, { 173,-4450 }, { 174,-4450 },
- { 175,-4450 }, { 176,-4450 }, { 177,-4450 }, { 178,-4450 }, { 179,-4450 },
- { 180,-4450 }, { 181,-4450 }, { 182,-4450 }, { 183,-4450 }, { 184,-4450 },
- { 185,-4450 }, { 186,-4450 }, { 187,-4450 }, { 188,-4450 }, { 189,-4450 },
- { 190,-4450 }, { 191,-4450 }, { 192,-4450 }, { 193,-4450 }, { 194,-4450 },
- { 195,-4450 }, { 196,-4450 }, { 197,-4450 }, { 198,-4450 }, { 199,-4450 },
- { 200,-4450 }, { 201,-4450 }, { 202,-4450 }, { 203,-4450 }, { 204,-4450 },
- { 205,-4450 }, { 206,-4450 }, { 207,-4450 }, { 208,-4450 }, { 209,-4450 },
-
- { 210,-4450 }, { 211,-4450 }, { 212,-4450 }, { 213,-4450 }, { 214,-4450 },
- { 215,-4450 }, { 216,-4450 }, { 217,-4450 }, { 218,-4450 }, { 219,-4450 },
- { 220,-4450 }, { 221,-4450 }, { 222,-4450 }, { 223,-4450 }, { 224,-4450 },
- { 225,-4450 }, { 226,-4450 }, { 227,-4450 }, { 228,-4450 }, { 229,-4450 },
- { 230,-4450 }, { 231,-4450 }, { 232,-4450 }, { 233,-4450 }, { 234,-4450 },
- { 235,-4450 }, { 236,-4450 }, { 237,-4450 }, { 238,-4450 }, { 239,-4450 },
- { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
- { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
- { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,7034 }, {   1,-4192 },
-
- {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
- {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
- {  12,-4192 }, {  13,-4192 }, {  14,-4192 }, {  15,-4192 }, {  16,-4192 },
- {  17,-4192 }, {  18,-4192 }, {  19,-4192 }, {  20,-4192 }, {  21,-4192 },
- {  22,-4192 }, {  23,-4192 }, {  24,-4192 }, {  25,-4192 }, {  26,-4192 },
- {  27,-4192 }, {  28,-4192 }, {  29,-4192 }, {  30,-4192 }, {  31,-4192 },
- {  32,-4192 }, {  33,-4192 }, {  34,-4192 }, {  35,-4192 }, {  36,-4192 },
- {  37,-4192 }, {  38,-4192 }, {  39,-4738 }, {  40,-4192 }, {  41,-4192 },
- {  42,-4192 }, {  43,-4192 }, {  44,-4192 }, {  45,-4192 }, {  46,-4192 },
- {  47,-4192 }, {  48,-4192 }, {  49,-4192 }, {  50,-4192 }, {  51,-4192 },
-
- {  52,-4192 }, {  53,-4192 }, {  54,-4192 }, {  55,-4192 }, {  56,-4192 },
- {  57,-4192 }, {  58,-4192 }, {  59,-4192 }, {  60,-4192 }, {  61,-4192 },
- {  62,-4192 }, {  63,-4192 }, {  64,-4192 }, {  65,-4192 }, {  66,-4192 },
- {  67,-4192 }, {  68,-4192 }, {  69,-4192 }, {  70,-4192 }, {  71,-4192 },
- {  72,-4192 }, {  73,-4192 }, {  74,-4192 }, {  75,-4192 }, {  76,-4192 },
- {  77,-4192 }, {  78,-4192 }, {  79,-4192 }, {  80,-4192 }, {  81,-4192 },
- {  82,-4192 }, {  83,-4192 }, {  84,-4192 }, {  85,-4192 }, {  86,-4192 },
- {  87,-4192 }, {  88,-4192 }, {  89,-4192 }, {  90,-4192 }, {  91,-4192 },
- {  92,-3934 }, {  93,-4192 }, {  94,-4192 }, {  95,-4192 }, {  96,-4192 },
- {  97,-4192 }, {  98,-4192 }, {  99,-4192 }, { 100,-4192 }, { 101,-4192 },
-
- { 102,-4192 }, { 103,-4192 }, { 104,-4192 }, { 105,-4192 }, { 106,-4192 },
- { 107,-4192 }, { 108,-4192 }, { 109,-4192 }, { 110,-4192 }, { 111,-4192 },
- { 112,-4192 }, { 113,-4192 }, { 114,-4192 }, { 115,-4192 }, { 116,-4192 },
- { 117,-4192 }, { 118,-4192 }, { 119,-4192 }, { 120,-4192 }, { 121,-4192 },
- { 122,-4192 }, { 123,-4192 }, { 124,-4192 }, { 125,-4192 }, { 126,-4192 },
- { 127,-4192 }, { 128,-4192 }, { 129,-4192 }, { 130,-4192 }, { 131,-4192 },
- { 132,-4192 }, { 133,-4192 }, { 134,-4192 }, { 135,-4192 }, { 136,-4192 },
- { 137,-4192 }, { 138,-4192 }, { 139,-4192 }, { 140,-4192 }, { 141,-4192 },
- { 142,-4192 }, { 143,-4192 }, { 144,-4192 }, { 145,-4192 }, { 146,-4192 },
- { 147,-4192 }, { 148,-4192 }, { 149,-4192 }, { 150,-4192 }, { 151,-4192 },
-
- { 152,-4192 }, { 153,-4192 }, { 154,-4192 }, { 155,-4192 }, { 156,-4192 },
- { 157,-4192 }, { 158,-4192 }, { 159,-4192 }, { 160,-4192 }, { 161,-4192 },
- { 162,-4192 }, { 163,-4192 }, { 164,-4192 }, { 165,-4192 }, { 166,-4192 },
- { 167,-4192 }, { 168,-4192 }, { 169,-4192 }, { 170,-4192 }, { 171,-4192 },
- { 172,-4192 }, { 173,-4192 }, { 174,-4192 }, { 175,-4192 }, { 176,-4192 },
- { 177,-4192 }, { 178,-4192 }, { 179,-4192 }, { 180,-4192 }, { 181,-4192 },
- { 182,-4192 }, { 183,-4192 }, { 184,-4192 }, { 185,-4192 }, { 186,-4192 },
- { 187,-4192 }, { 188,-4192 }, { 189,-4192 }, { 190,-4192 }, { 191,-4192 },
- { 192,-4192 }, { 193,-4192 }, { 194,-4192 }, { 195,-4192 }, { 196,-4192 },
- { 197,-4192 }, { 198,-4192 }, { 199,-4192 }, { 200,-4192 }, { 201,-4192 },
-
- { 202,-4192 }, { 203,-4192 }, { 204,-4192 }, { 205,-4192 }, { 206,-4192 },
- { 207,-4192 }, { 208,-4192 }, { 209,-4192 }, { 210,-4192 }, { 211,-4192 },
- { 212,-4192 }, { 213,-4192 }, { 214,-4192 }, { 215,-4192 }, { 216,-4192 },
- { 217,-4192 }, { 218,-4192 }, { 219,-4192 }, { 220,-4192 }, { 221,-4192 },
- { 222,-4192 }, { 223,-4192 }, { 224,-4192 }, { 225,-4192 }, { 226,-4192 },
- { 227,-4192 }, { 228,-4192 }, { 229,-4192 }, { 230,-4192 }, { 231,-4192 },
- { 232,-4192 }, { 233,-4192 }, { 234,-4192 }, { 235,-4192 }, { 236,-4192 },
- { 237,-4192 }, { 238,-4192 }, { 239,-4192 }, { 240,-4192 }, { 241,-4192 },
- { 242,-4192 }, { 243,-4192 }, { 244,-4192 }, { 245,-4192 }, { 246,-4192 },
- { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
-
- { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,6776 }, {   0,  29 }, {   0,6774 }, {   0,  20 },
- {   0,6772 }, {   0,  27 }, {   0,6770 }, {   0,  30 }, {   0,6768 },
- {   9,1456 }, {  10,1456 }, {   0,  21 }, {   0,6764 }, {  13,1456 },
- {   0,  18 }, {   0,6761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1456 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1456 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  42,1466 }, {  45,1461 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1469 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1456 }, { 126,1456 }, {   0,  49 }, {   0,6648 },
- {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
- {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
- {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
-
- {  16,-3745 }, {  17,-3745 }, {  18,-3745 }, {  19,-3745 }, {  20,-3745 },
- {  21,-3745 }, {  22,-3745 }, {  23,-3745 }, {  24,-3745 }, {  25,-3745 },
- {  26,-3745 }, {  27,-3745 }, {  28,-3745 }, {  29,-3745 }, {  30,-3745 },
- {  31,-3745 }, {  32,-3745 }, {  33,-3745 }, {  34,-3745 }, {  35,-3745 },
- {  36,-3745 }, {  37,-3745 }, {  38,-3745 }, {  39,-3745 }, {  40,-3745 },
- {  41,-3745 }, {  42,-3745 }, {  43,-3745 }, {  44,-3745 }, {  45,-3745 },
- {  46,-3745 }, {  47,-3745 }, {  48,-3745 }, {  49,-3745 }, {  50,-3745 },
- {  51,-3745 }, {  52,-3745 }, {  53,-3745 }, {  54,-3745 }, {  55,-3745 },
- {  56,-3745 }, {  57,-3745 }, {  58,-3745 }, {  59,-3745 }, {  60,-3745 },
- {  61,-3745 }, {  62,-3745 }, {  63,-3745 }, {  64,-3745 }, {  65,-3745 },
-
- {  66,-3745 }, {  67,-3745 }, {  68,-3745 }, {  69,-3745 }, {  70,-3745 },
- {  71,-3745 }, {  72,-3745 }, {  73,-3745 }, {  74,-3745 }, {  75,-3745 },
- {  76,-3745 }, {  77,-3745 }, {  78,-3745 }, {  79,-3745 }, {  80,-3745 },
- {  81,-3745 }, {  82,-3745 }, {  83,-3745 }, {  84,-3745 }, {  85,-3745 },
- {  86,-3745 }, {  87,-3745 }, {  88,-3745 }, {  89,-3745 }, {  90,-3745 },
- {  91,-3745 }, {  92,-3487 }, {  93,-5113 }, {  94,-3745 }, {  95,-3745 },
- {  96,-3745 }, {  97,-3745 }, {  98,-3745 }, {  99,-3745 }, { 100,-3745 },
- { 101,-3745 }, { 102,-3745 }, { 103,-3745 }, { 104,-3745 }, { 105,-3745 },
- { 106,-3745 }, { 107,-3745 }, { 108,-3745 }, { 109,-3745 }, { 110,-3745 },
- { 111,-3745 }, { 112,-3745 }, { 113,-3745 }, { 114,-3745 }, { 115,-3745 },
-
- { 116,-3745 }, { 117,-3745 }, { 118,-3745 }, { 119,-3745 }, { 120,-3745 },
- { 121,-3745 }, { 122,-3745 }, { 123,-3745 }, { 124,-3745 }, { 125,-3745 },
- { 126,-3745 }, { 127,-3745 }, { 128,-3745 }, { 129,-3745 }, { 130,-3745 },
- { 131,-3745 }, { 132,-3745 }, { 133,-3745 }, { 134,-3745 }, { 135,-3745 },
- { 136,-3745 }, { 137,-3745 }, { 138,-3745 }, { 139,-3745 }, { 140,-3745 },
- { 141,-3745 }, { 142,-3745 }, { 143,-3745 }, { 144,-3745 }, { 145,-3745 },
- { 146,-3745 }, { 147,-3745 }, { 148,-3745 }, { 149,-3745 }, { 150,-3745 },
- { 151,-3745 }, { 152,-3745 }, { 153,-3745 }, { 154,-3745 }, { 155,-3745 },
- { 156,-3745 }, { 157,-3745 }, { 158,-3745 }, { 159,-3745 }, { 160,-3745 },
- { 161,-3745 }, { 162,-3745 }, { 163,-3745 }, { 164,-3745 }, { 165,-3745 },
-
- { 166,-3745 }, { 167,-3745 }, { 168,-3745 }, { 169,-3745 }, { 170,-3745 },
- { 171,-3745 }, { 172,-3745 }, { 173,-3745 }, { 174,-3745 }, { 175,-3745 },
- { 176,-3745 }, { 177,-3745 }, { 178,-3745 }, { 179,-3745 }, { 180,-3745 },
- { 181,-3745 }, { 182,-3745 }, { 183,-3745 }, { 184,-3745 }, { 185,-3745 },
- { 186,-3745 }, { 187,-3745 }, { 188,-3745 }, { 189,-3745 }, { 190,-3745 },
- { 191,-3745 }, { 192,-3745 }, { 193,-3745 }, { 194,-3745 }, { 195,-3745 },
- { 196,-3745 }, { 197,-3745 }, { 198,-3745 }, { 199,-3745 }, { 200,-3745 },
- { 201,-3745 }, { 202,-3745 }, { 203,-3745 }, { 204,-3745 }, { 205,-3745 },
- { 206,-3745 }, { 207,-3745 }, { 208,-3745 }, { 209,-3745 }, { 210,-3745 },
- { 211,-3745 }, { 212,-3745 }, { 213,-3745 }, { 214,-3745 }, { 215,-3745 },
-
- { 216,-3745 }, { 217,-3745 }, { 218,-3745 }, { 219,-3745 }, { 220,-3745 },
- { 221,-3745 }, { 222,-3745 }, { 223,-3745 }, { 224,-3745 }, { 225,-3745 },
- { 226,-3745 }, { 227,-3745 }, { 228,-3745 }, { 229,-3745 }, { 230,-3745 },
- { 231,-3745 }, { 232,-3745 }, { 233,-3745 }, { 234,-3745 }, { 235,-3745 },
- { 236,-3745 }, { 237,-3745 }, { 238,-3745 }, { 239,-3745 }, { 240,-3745 },
- { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
- { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
- { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,   0 }, {   0,6390 }, {   1,-5644 }, {   2,-5644 },
- {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
-
- {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
- {  13,-5669 }, {  14,-5644 }, {  15,-5644 }, {  16,-5644 }, {  17,-5644 },
- {  18,-5644 }, {  19,-5644 }, {  20,-5644 }, {  21,-5644 }, {  22,-5644 },
- {  23,-5644 }, {  24,-5644 }, {  25,-5644 }, {  26,-5644 }, {  27,-5644 },
- {  28,-5644 }, {  29,-5644 }, {  30,-5644 }, {  31,-5644 }, {  32,-5669 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-5644 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5669 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-5644 }, {  46,-5669 }, {  47,-5669 },
- {  48,-5644 }, {  49,-5644 }, {  50,-5644 }, {  51,-5644 }, {  52,-5644 },
- {  53,-5644 }, {  54,-5644 }, {  55,-5644 }, {  56,-5644 }, {  57,-5644 },
-
- {  58,-5644 }, {   0,   0 }, {   0,   0 }, {  61,-5669 }, {   0,   0 },
- {  63,-5644 }, {   0,   0 }, {  65,-5644 }, {  66,-5644 }, {  67,-5644 },
- {  68,-5644 }, {  69,-5644 }, {  70,-5644 }, {  71,-5644 }, {  72,-5644 },
- {  73,-5644 }, {  74,-5644 }, {  75,-5644 }, {  76,-5644 }, {  77,-5644 },
- {  78,-5644 }, {  79,-5644 }, {  80,-5644 }, {  81,-5644 }, {  82,-5644 },
- {  83,-5644 }, {  84,-5644 }, {  85,-5644 }, {  86,-5644 }, {  87,-5644 },
- {  88,-5644 }, {  89,-5644 }, {  90,-5644 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-5644 }, {   0,   0 }, {  97,-5644 },
- {  98,-5644 }, {  99,-5644 }, { 100,-5644 }, { 101,-5644 }, { 102,-5644 },
- { 103,-5644 }, { 104,-5644 }, { 105,-5644 }, { 106,-5644 }, { 107,-5644 },
-
- { 108,-5644 }, { 109,-5644 }, { 110,-5644 }, { 111,-5644 }, { 112,-5644 },
- { 113,-5644 }, { 114,-5644 }, { 115,1705 }, { 116,-5644 }, { 117,-5644 },
- { 118,-5644 }, { 119,-5644 }, { 120,-5644 }, { 121,-5644 }, { 122,-5644 },
- {   0,   0 }, { 124,-5669 }, { 125,-5669 }, { 126,-5669 }, { 127,-5644 },
- { 128,-5644 }, { 129,-5644 }, { 130,-5644 }, { 131,-5644 }, { 132,-5644 },
- { 133,-5644 }, { 134,-5644 }, { 135,-5644 }, { 136,-5644 }, { 137,-5644 },
- { 138,-5644 }, { 139,-5644 }, { 140,-5644 }, { 141,-5644 }, { 142,-5644 },
- { 143,-5644 }, { 144,-5644 }, { 145,-5644 }, { 146,-5644 }, { 147,-5644 },
- { 148,-5644 }, { 149,-5644 }, { 150,-5644 }, { 151,-5644 }, { 152,-5644 },
- { 153,-5644 }, { 154,-5644 }, { 155,-5644 }, { 156,-5644 }, { 157,-5644 },
-
- { 158,-5644 }, { 159,-5644 }, { 160,-5644 }, { 161,-5644 }, { 162,-5644 },
- { 163,-5644 }, { 164,-5644 }, { 165,-5644 }, { 166,-5644 }, { 167,-5644 },
- { 168,-5644 }, { 169,-5644 }, { 170,-5644 }, { 171,-5644 }, { 172,-5644 },
- { 173,-5644 }, { 174,-5644 }, { 175,-5644 }, { 176,-5644 }, { 177,-5644 },
- { 178,-5644 }, { 179,-5644 }, { 180,-5644 }, { 181,-5644 }, { 182,-5644 },
- { 183,-5644 }, { 184,-5644 }, { 185,-5644 }, { 186,-5644 }, { 187,-5644 },
- { 188,-5644 }, { 189,-5644 }, { 190,-5644 }, { 191,-5644 }, { 192,-5644 },
- { 193,-5644 }, { 194,-5644 }, { 195,-5644 }, { 196,-5644 }, { 197,-5644 },
- { 198,-5644 }, { 199,-5644 }, { 200,-5644 }, { 201,-5644 }, { 202,-5644 },
- { 203,-5644 }, { 204,-5644 }, { 205,-5644 }, { 206,-5644 }, { 207,-5644 },
-
- { 208,-5644 }, { 209,-5644 }, { 210,-5644 }, { 211,-5644 }, { 212,-5644 },
- { 213,-5644 }, { 214,-5644 }, { 215,-5644 }, { 216,-5644 }, { 217,-5644 },
- { 218,-5644 }, { 219,-5644 }, { 220,-5644 }, { 221,-5644 }, { 222,-5644 },
- { 223,-5644 }, { 224,-5644 }, { 225,-5644 }, { 226,-5644 }, { 227,-5644 },
- { 228,-5644 }, { 229,-5644 }, { 230,-5644 }, { 231,-5644 }, { 232,-5644 },
- { 233,-5644 }, { 234,-5644 }, { 235,-5644 }, { 236,-5644 }, { 237,-5644 },
- { 238,-5644 }, { 239,-5644 }, { 240,-5644 }, { 241,-5644 }, { 242,-5644 },
- { 243,-5644 }, { 244,-5644 }, { 245,-5644 }, { 246,-5644 }, { 247,-5644 },
- { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
- { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
-
- {   0,6132 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
- {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
- {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
- {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
- {  20,-5902 }, {  21,-5902 }, {  22,-5902 }, {  23,-5902 }, {  24,-5902 },
- {  25,-5902 }, {  26,-5902 }, {  27,-5902 }, {  28,-5902 }, {  29,-5902 },
- {  30,-5902 }, {  31,-5902 }, {  32,-5927 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-5927 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-5902 }, {  46,-5927 }, {  47,-5927 }, {  48,-5902 }, {  49,-5902 },
-
- {  50,-5902 }, {  51,-5902 }, {  52,-5902 }, {  53,-5902 }, {  54,-5902 },
- {  55,-5902 }, {  56,-5902 }, {  57,-5902 }, {  58,-5902 }, {   0,   0 },
- {   0,   0 }, {  61,-5927 }, {   0,   0 }, {  63,-5902 }, {   0,   0 },
- {  65,-5902 }, {  66,-5902 }, {  67,-5902 }, {  68,-5902 }, {  69,-5902 },
- {  70,-5902 }, {  71,-5902 }, {  72,-5902 }, {  73,-5902 }, {  74,-5902 },
- {  75,-5902 }, {  76,-5902 }, {  77,-5902 }, {  78,-5902 }, {  79,-5902 },
- {  80,-5902 }, {  81,-5902 }, {  82,-5902 }, {  83,-5902 }, {  84,-5902 },
- {  85,-5902 }, {  86,-5902 }, {  87,-5902 }, {  88,-5902 }, {  89,-5902 },
- {  90,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-5902 }, {   0,   0 }, {  97,-5902 }, {  98,-5902 }, {  99,-5902 },
-
- { 100,-5902 }, { 101,-5902 }, { 102,-5902 }, { 103,-5902 }, { 104,-5902 },
- { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,1705 }, { 109,-5902 },
- { 110,-5902 }, { 111,-5902 }, { 112,-5902 }, { 113,-5902 }, { 114,-5902 },
- { 115,-5902 }, { 116,-5902 }, { 117,-5902 }, { 118,-5902 }, { 119,-5902 },
- { 120,-5902 }, { 121,-5902 }, { 122,-5902 }, {   0,   0 }, { 124,-5927 },
- { 125,-5927 }, { 126,-5927 }, { 127,-5902 }, { 128,-5902 }, { 129,-5902 },
- { 130,-5902 }, { 131,-5902 }, { 132,-5902 }, { 133,-5902 }, { 134,-5902 },
- { 135,-5902 }, { 136,-5902 }, { 137,-5902 }, { 138,-5902 }, { 139,-5902 },
- { 140,-5902 }, { 141,-5902 }, { 142,-5902 }, { 143,-5902 }, { 144,-5902 },
- { 145,-5902 }, { 146,-5902 }, { 147,-5902 }, { 148,-5902 }, { 149,-5902 },
-
- { 150,-5902 }, { 151,-5902 }, { 152,-5902 }, { 153,-5902 }, { 154,-5902 },
- { 155,-5902 }, { 156,-5902 }, { 157,-5902 }, { 158,-5902 }, { 159,-5902 },
- { 160,-5902 }, { 161,-5902 }, { 162,-5902 }, { 163,-5902 }, { 164,-5902 },
- { 165,-5902 }, { 166,-5902 }, { 167,-5902 }, { 168,-5902 }, { 169,-5902 },
- { 170,-5902 }, { 171,-5902 }, { 172,-5902 }, { 173,-5902 }, { 174,-5902 },
- { 175,-5902 }, { 176,-5902 }, { 177,-5902 }, { 178,-5902 }, { 179,-5902 },
- { 180,-5902 }, { 181,-5902 }, { 182,-5902 }, { 183,-5902 }, { 184,-5902 },
- { 185,-5902 }, { 186,-5902 }, { 187,-5902 }, { 188,-5902 }, { 189,-5902 },
- { 190,-5902 }, { 191,-5902 }, { 192,-5902 }, { 193,-5902 }, { 194,-5902 },
- { 195,-5902 }, { 196,-5902 }, { 197,-5902 }, { 198,-5902 }, { 199,-5902 },
-
- { 200,-5902 }, { 201,-5902 }, { 202,-5902 }, { 203,-5902 }, { 204,-5902 },
- { 205,-5902 }, { 206,-5902 }, { 207,-5902 }, { 208,-5902 }, { 209,-5902 },
- { 210,-5902 }, { 211,-5902 }, { 212,-5902 }, { 213,-5902 }, { 214,-5902 },
- { 215,-5902 }, { 216,-5902 }, { 217,-5902 }, { 218,-5902 }, { 219,-5902 },
- { 220,-5902 }, { 221,-5902 }, { 222,-5902 }, { 223,-5902 }, { 224,-5902 },
- { 225,-5902 }, { 226,-5902 }, { 227,-5902 }, { 228,-5902 }, { 229,-5902 },
- { 230,-5902 }, { 231,-5902 }, { 232,-5902 }, { 233,-5902 }, { 234,-5902 },
- { 235,-5902 }, { 236,-5902 }, { 237,-5902 }, { 238,-5902 }, { 239,-5902 },
- { 240,-5902 }, { 241,-5902 }, { 242,-5902 }, { 243,-5902 }, { 244,-5902 },
- { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
-
- { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
- { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5874 }, {   1,-6160 },
- {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
- {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
- {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
- {  17,-6160 }, {  18,-6160 }, {  19,-6160 }, {  20,-6160 }, {  21,-6160 },
- {  22,-6160 }, {  23,-6160 }, {  24,-6160 }, {  25,-6160 }, {  26,-6160 },
- {  27,-6160 }, {  28,-6160 }, {  29,-6160 }, {  30,-6160 }, {  31,-6160 },
- {  32,-6185 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6185 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6160 }, {  46,-6185 },
- {  47,-6185 }, {  48,-6160 }, {  49,-6160 }, {  50,-6160 }, {  51,-6160 },
- {  52,-6160 }, {  53,-6160 }, {  54,-6160 }, {  55,-6160 }, {  56,-6160 },
- {  57,-6160 }, {  58,-6160 }, {   0,   0 }, {   0,   0 }, {  61,-6185 },
- {   0,   0 }, {  63,-6160 }, {   0,   0 }, {  65,-6160 }, {  66,-6160 },
- {  67,-6160 }, {  68,-6160 }, {  69,-6160 }, {  70,-6160 }, {  71,-6160 },
- {  72,-6160 }, {  73,-6160 }, {  74,-6160 }, {  75,-6160 }, {  76,-6160 },
- {  77,-6160 }, {  78,-6160 }, {  79,-6160 }, {  80,-6160 }, {  81,-6160 },
- {  82,-6160 }, {  83,-6160 }, {  84,-6160 }, {  85,-6160 }, {  86,-6160 },
- {  87,-6160 }, {  88,-6160 }, {  89,-6160 }, {  90,-6160 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6160 }, {   0,   0 },
- {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,1705 },
- { 102,-6160 }, { 103,-6160 }, { 104,-6160 }, { 105,-6160 }, { 106,-6160 },
- { 107,-6160 }, { 108,-6160 }, { 109,-6160 }, { 110,-6160 }, { 111,-6160 },
- { 112,-6160 }, { 113,-6160 }, { 114,-6160 }, { 115,-6160 }, { 116,-6160 },
- { 117,-6160 }, { 118,-6160 }, { 119,-6160 }, { 120,-6160 }, { 121,-6160 },
- { 122,-6160 }, {   0,   0 }, { 124,-6185 }, { 125,-6185 }, { 126,-6185 },
- { 127,-6160 }, { 128,-6160 }, { 129,-6160 }, { 130,-6160 }, { 131,-6160 },
- { 132,-6160 }, { 133,-6160 }, { 134,-6160 }, { 135,-6160 }, { 136,-6160 },
- { 137,-6160 }, { 138,-6160 }, { 139,-6160 }, { 140,-6160 }, { 141,-6160 },
-
- { 142,-6160 }, { 143,-6160 }, { 144,-6160 }, { 145,-6160 }, { 146,-6160 },
- { 147,-6160 }, { 148,-6160 }, { 149,-6160 }, { 150,-6160 }, { 151,-6160 },
- { 152,-6160 }, { 153,-6160 }, { 154,-6160 }, { 155,-6160 }, { 156,-6160 },
- { 157,-6160 }, { 158,-6160 }, { 159,-6160 }, { 160,-6160 }, { 161,-6160 },
- { 162,-6160 }, { 163,-6160 }, { 164,-6160 }, { 165,-6160 }, { 166,-6160 },
- { 167,-6160 }, { 168,-6160 }, { 169,-6160 }, { 170,-6160 }, { 171,-6160 },
- { 172,-6160 }, { 173,-6160 }, { 174,-6160 }, { 175,-6160 }, { 176,-6160 },
- { 177,-6160 }, { 178,-6160 }, { 179,-6160 }, { 180,-6160 }, { 181,-6160 },
- { 182,-6160 }, { 183,-6160 }, { 184,-6160 }, { 185,-6160 }, { 186,-6160 },
- { 187,-6160 }, { 188,-6160 }, { 189,-6160 }, { 190,-6160 }, { 191,-6160 },
-
- { 192,-6160 }, { 193,-6160 }, { 194,-6160 }, { 195,-6160 }, { 196,-6160 },
- { 197,-6160 }, { 198,-6160 }, { 199,-6160 }, { 200,-6160 }, { 201,-6160 },
- { 202,-6160 }, { 203,-6160 }, { 204,-6160 }, { 205,-6160 }, { 206,-6160 },
- { 207,-6160 }, { 208,-6160 }, { 209,-6160 }, { 210,-6160 }, { 211,-6160 },
- { 212,-6160 }, { 213,-6160 }, { 214,-6160 }, { 215,-6160 }, { 216,-6160 },
- { 217,-6160 }, { 218,-6160 }, { 219,-6160 }, { 220,-6160 }, { 221,-6160 },
- { 222,-6160 }, { 223,-6160 }, { 224,-6160 }, { 225,-6160 }, { 226,-6160 },
- { 227,-6160 }, { 228,-6160 }, { 229,-6160 }, { 230,-6160 }, { 231,-6160 },
- { 232,-6160 }, { 233,-6160 }, { 234,-6160 }, { 235,-6160 }, { 236,-6160 },
- { 237,-6160 }, { 238,-6160 }, { 239,-6160 }, { 240,-6160 }, { 241,-6160 },
-
- { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
- { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
- { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
- {   0,   0 }, {   0,5616 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
- {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
- {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
- {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
- {  19,-6418 }, {  20,-6418 }, {  21,-6418 }, {  22,-6418 }, {  23,-6418 },
- {  24,-6418 }, {  25,-6418 }, {  26,-6418 }, {  27,-6418 }, {  28,-6418 },
- {  29,-6418 }, {  30,-6418 }, {  31,-6418 }, {  32,-6443 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,-6418 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-6443 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-6418 }, {  46,-6443 }, {  47,-6443 }, {  48,-6418 },
- {  49,-6418 }, {  50,-6418 }, {  51,-6418 }, {  52,-6418 }, {  53,-6418 },
- {  54,-6418 }, {  55,-6418 }, {  56,-6418 }, {  57,-6418 }, {  58,-6418 },
- {   0,   0 }, {   0,   0 }, {  61,-6443 }, {   0,   0 }, {  63,-6418 },
- {   0,   0 }, {  65,-6418 }, {  66,-6418 }, {  67,-6418 }, {  68,-6418 },
- {  69,-6418 }, {  70,-6418 }, {  71,-6418 }, {  72,-6418 }, {  73,-6418 },
- {  74,-6418 }, {  75,-6418 }, {  76,-6418 }, {  77,-6418 }, {  78,-6418 },
- {  79,-6418 }, {  80,-6418 }, {  81,-6418 }, {  82,-6418 }, {  83,-6418 },
-
- {  84,-6418 }, {  85,-6418 }, {  86,-6418 }, {  87,-6418 }, {  88,-6418 },
- {  89,-6418 }, {  90,-6418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-6418 }, {   0,   0 }, {  97,-6418 }, {  98,-6418 },
- {  99,-6418 }, { 100,-6418 }, { 101,1705 }, { 102,-6418 }, { 103,-6418 },
- { 104,-6418 }, { 105,-6418 }, { 106,-6418 }, { 107,-6418 }, { 108,-6418 },
- { 109,-6418 }, { 110,-6418 }, { 111,-6418 }, { 112,-6418 }, { 113,-6418 },
- { 114,-6418 }, { 115,-6418 }, { 116,-6418 }, { 117,-6418 }, { 118,-6418 },
- { 119,-6418 }, { 120,-6418 }, { 121,-6418 }, { 122,-6418 }, {   0,   0 },
- { 124,-6443 }, { 125,-6443 }, { 126,-6443 }, { 127,-6418 }, { 128,-6418 },
- { 129,-6418 }, { 130,-6418 }, { 131,-6418 }, { 132,-6418 }, { 133,-6418 },
-
- { 134,-6418 }, { 135,-6418 }, { 136,-6418 }, { 137,-6418 }, { 138,-6418 },
- { 139,-6418 }, { 140,-6418 }, { 141,-6418 }, { 142,-6418 }, { 143,-6418 },
- { 144,-6418 }, { 145,-6418 }, { 146,-6418 }, { 147,-6418 }, { 148,-6418 },
- { 149,-6418 }, { 150,-6418 }, { 151,-6418 }, { 152,-6418 }, { 153,-6418 },
- { 154,-6418 }, { 155,-6418 }, { 156,-6418 }, { 157,-6418 }, { 158,-6418 },
- { 159,-6418 }, { 160,-6418 }, { 161,-6418 }, { 162,-6418 }, { 163,-6418 },
- { 164,-6418 }, { 165,-6418 }, { 166,-6418 }, { 167,-6418 }, { 168,-6418 },
- { 169,-6418 }, { 170,-6418 }, { 171,-6418 }, { 172,-6418 }, { 173,-6418 },
- { 174,-6418 }, { 175,-6418 }, { 176,-6418 }, { 177,-6418 }, { 178,-6418 },
- { 179,-6418 }, { 180,-6418 }, { 181,-6418 }, { 182,-6418 }, { 183,-6418 },
-
- { 184,-6418 }, { 185,-6418 }, { 186,-6418 }, { 187,-6418 }, { 188,-6418 },
- { 189,-6418 }, { 190,-6418 }, { 191,-6418 }, { 192,-6418 }, { 193,-6418 },
- { 194,-6418 }, { 195,-6418 }, { 196,-6418 }, { 197,-6418 }, { 198,-6418 },
- { 199,-6418 }, { 200,-6418 }, { 201,-6418 }, { 202,-6418 }, { 203,-6418 },
- { 204,-6418 }, { 205,-6418 }, { 206,-6418 }, { 207,-6418 }, { 208,-6418 },
- { 209,-6418 }, { 210,-6418 }, { 211,-6418 }, { 212,-6418 }, { 213,-6418 },
- { 214,-6418 }, { 215,-6418 }, { 216,-6418 }, { 217,-6418 }, { 218,-6418 },
- { 219,-6418 }, { 220,-6418 }, { 221,-6418 }, { 222,-6418 }, { 223,-6418 },
- { 224,-6418 }, { 225,-6418 }, { 226,-6418 }, { 227,-6418 }, { 228,-6418 },
- { 229,-6418 }, { 230,-6418 }, { 231,-6418 }, { 232,-6418 }, { 233,-6418 },
-
- { 234,-6418 }, { 235,-6418 }, { 236,-6418 }, { 237,-6418 }, { 238,-6418 },
- { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
- { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
- { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
- { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5358 },
- {   0,  24 }, {   0,5356 }, {   0,   0 }, {   0,5354 }, {   0,   0 },
- {   0,5352 }, {   0,  26 }, {   0,5350 }, {   9,   0 }, {  10,   0 },
- {   0,  36 }, {   0,5346 }, {  13,   0 }, {   0,  30 }, {   0,5343 },
- {   0,   0 }, {   0,5341 }, {   0,  37 }, {   0,5339 }, {   0,   0 },
- {   0,5337 }, {   0,   0 }, {   0,5335 }, {   9, -15 }, {  10, -15 },
-
- {   0,   0 }, {   0,5331 }, {  13, -15 }, {   0,   0 }, {   0,5328 },
- {   0,   0 }, {  32,   0 }, {   0,   1 }, {   0,5324 }, {   0,   4 },
- {   0,5322 }, {   0,  47 }, {   0,5320 }, {   0,  41 }, {   0,5318 },
- {   0,   0 }, {   0,   0 }, {   0,5315 }, {   0,   0 }, {   0,5313 },
- {  10,   0 }, {  32, -15 }, {  33,-1431 }, {  13,   0 }, {  35,-1429 },
- {   0,  20 }, {   0,5306 }, {  38,-1427 }, {   0,  19 }, {   0,5303 },
- {  33,  -2 }, {  42,-1425 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  47,-1421 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,1702 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  62,-1418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2594 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,  43 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,1707 }, {   0,   0 }, {  94, -13 }, {   0,   0 },
- {   0,   0 }, { 108,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101, -11 }, { 115,1703 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, { 125,1705 }, { 126,1707 }, {   0,   0 }, { 115,  -9 },
- { 123,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1707 }, { 123,1702 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1704 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,1809 },
- { 108,2594 }, {   0,   0 }, { 123,2064 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,2062 }, {   0,   4 }, {   0,5199 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 },
- {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
-
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
-
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {   0,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
 
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1164 },
+ { 126,1166 }, {   0,   0 }, {   0,1692 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
+ {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
 
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
+ {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
 
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 },
- {   0,4942 }, {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 },
- {   5,-257 }, {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 },
-
- {  10,-380 }, {  11,-257 }, {  12,-257 }, {  13,-380 }, {  14,-257 },
- {  15,-257 }, {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 },
- {  20,-257 }, {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 },
- {  25,-257 }, {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 },
- {  30,-257 }, {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 },
- {  35,-257 }, {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 },
- {  40,-257 }, {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 },
- {  45,-257 }, {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 },
- {  50,-257 }, {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 },
- {  55,-257 }, {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 },
-
- {  60,-257 }, {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 },
- {  65,-257 }, {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 },
- {  70,-257 }, {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 },
- {  75,-257 }, {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 },
- {  80,-257 }, {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 },
- {  85,-257 }, {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 },
- {  90,-257 }, {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 },
- {  95,-257 }, {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 },
- { 100,-257 }, { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 },
- { 105,-257 }, { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 },
-
- { 110,-257 }, { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 },
- { 115,-257 }, { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 },
- { 120,-257 }, { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 },
- { 125,-257 }, { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 },
- { 130,-257 }, { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 },
- { 135,-257 }, { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 },
- { 140,-257 }, { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 },
- { 145,-257 }, { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 },
- { 150,-257 }, { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 },
- { 155,-257 }, { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 },
-
- { 160,-257 }, { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 },
- { 165,-257 }, { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 },
- { 170,-257 }, { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 },
- { 175,-257 }, { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 },
- { 180,-257 }, { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 },
- { 185,-257 }, { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 },
- { 190,-257 }, { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 },
- { 195,-257 }, { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 },
- { 200,-257 }, { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 },
- { 205,-257 }, { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 },
-
- { 210,-257 }, { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 },
- { 215,-257 }, { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 },
- { 220,-257 }, { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 },
- { 225,-257 }, { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 },
- { 230,-257 }, { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 },
- { 235,-257 }, { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 },
- { 240,-257 }, { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 },
- { 245,-257 }, { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 },
- { 250,-257 }, { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 },
- { 255,-257 }, {   0,   0 }, {   0,4685 }, {   1,-7349 }, {   2,-7349 },
-
- {   3,-7349 }, {   4,-7349 }, {   5,-7349 }, {   6,-7349 }, {   7,-7349 },
- {   8,-7349 }, {   9,-7374 }, {  10,-7374 }, {  11,-7349 }, {  12,-7349 },
- {  13,-7374 }, {  14,-7349 }, {  15,-7349 }, {  16,-7349 }, {  17,-7349 },
- {  18,-7349 }, {  19,-7349 }, {  20,-7349 }, {  21,-7349 }, {  22,-7349 },
- {  23,-7349 }, {  24,-7349 }, {  25,-7349 }, {  26,-7349 }, {  27,-7349 },
- {  28,-7349 }, {  29,-7349 }, {  30,-7349 }, {  31,-7349 }, {  32,-7374 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7349 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7374 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-7349 }, {  46,-7374 }, {  47,-7374 },
- {  48,-7349 }, {  49,-7349 }, {  50,-7349 }, {  51,-7349 }, {  52,-7349 },
-
- {  53,-7349 }, {  54,-7349 }, {  55,-7349 }, {  56,-7349 }, {  57,-7349 },
- {  58,-7349 }, {   0,   0 }, {   0,   0 }, {  61,-7374 }, {   0,   0 },
- {  63,-7349 }, {   0,   0 }, {  65,-7349 }, {  66,-7349 }, {  67,-7349 },
- {  68,-7349 }, {  69,-7349 }, {  70,-7349 }, {  71,-7349 }, {  72,-7349 },
- {  73,-7349 }, {  74,-7349 }, {  75,-7349 }, {  76,-7349 }, {  77,-7349 },
- {  78,-7349 }, {  79,-7349 }, {  80,-7349 }, {  81,-7349 }, {  82,-7349 },
- {  83,-7349 }, {  84,-7349 }, {  85,-7349 }, {  86,-7349 }, {  87,-7349 },
- {  88,-7349 }, {  89,-7349 }, {  90,-7349 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-7349 }, {   0,   0 }, {  97,-7349 },
- {  98,-7349 }, {  99,-7349 }, { 100,-7349 }, { 101,1448 }, { 102,-7349 },
-
- { 103,-7349 }, { 104,-7349 }, { 105,-7349 }, { 106,-7349 }, { 107,-7349 },
- { 108,-7349 }, { 109,-7349 }, { 110,-7349 }, { 111,-7349 }, { 112,-7349 },
- { 113,-7349 }, { 114,-7349 }, { 115,-7349 }, { 116,-7349 }, { 117,-7349 },
- { 118,-7349 }, { 119,-7349 }, { 120,-7349 }, { 121,-7349 }, { 122,-7349 },
- {   0,   0 }, { 124,-7374 }, { 125,-7374 }, { 126,-7374 }, { 127,-7349 },
- { 128,-7349 }, { 129,-7349 }, { 130,-7349 }, { 131,-7349 }, { 132,-7349 },
- { 133,-7349 }, { 134,-7349 }, { 135,-7349 }, { 136,-7349 }, { 137,-7349 },
- { 138,-7349 }, { 139,-7349 }, { 140,-7349 }, { 141,-7349 }, { 142,-7349 },
- { 143,-7349 }, { 144,-7349 }, { 145,-7349 }, { 146,-7349 }, { 147,-7349 },
- { 148,-7349 }, { 149,-7349 }, { 150,-7349 }, { 151,-7349 }, { 152,-7349 },
-
- { 153,-7349 }, { 154,-7349 }, { 155,-7349 }, { 156,-7349 }, { 157,-7349 },
- { 158,-7349 }, { 159,-7349 }, { 160,-7349 }, { 161,-7349 }, { 162,-7349 },
- { 163,-7349 }, { 164,-7349 }, { 165,-7349 }, { 166,-7349 }, { 167,-7349 },
- { 168,-7349 }, { 169,-7349 }, { 170,-7349 }, { 171,-7349 }, { 172,-7349 },
- { 173,-7349 }, { 174,-7349 }, { 175,-7349 }, { 176,-7349 }, { 177,-7349 },
- { 178,-7349 }, { 179,-7349 }, { 180,-7349 }, { 181,-7349 }, { 182,-7349 },
- { 183,-7349 }, { 184,-7349 }, { 185,-7349 }, { 186,-7349 }, { 187,-7349 },
- { 188,-7349 }, { 189,-7349 }, { 190,-7349 }, { 191,-7349 }, { 192,-7349 },
- { 193,-7349 }, { 194,-7349 }, { 195,-7349 }, { 196,-7349 }, { 197,-7349 },
- { 198,-7349 }, { 199,-7349 }, { 200,-7349 }, { 201,-7349 }, { 202,-7349 },
-
- { 203,-7349 }, { 204,-7349 }, { 205,-7349 }, { 206,-7349 }, { 207,-7349 },
- { 208,-7349 }, { 209,-7349 }, { 210,-7349 }, { 211,-7349 }, { 212,-7349 },
- { 213,-7349 }, { 214,-7349 }, { 215,-7349 }, { 216,-7349 }, { 217,-7349 },
- { 218,-7349 }, { 219,-7349 }, { 220,-7349 }, { 221,-7349 }, { 222,-7349 },
- { 223,-7349 }, { 224,-7349 }, { 225,-7349 }, { 226,-7349 }, { 227,-7349 },
- { 228,-7349 }, { 229,-7349 }, { 230,-7349 }, { 231,-7349 }, { 232,-7349 },
- { 233,-7349 }, { 234,-7349 }, { 235,-7349 }, { 236,-7349 }, { 237,-7349 },
- { 238,-7349 }, { 239,-7349 }, { 240,-7349 }, { 241,-7349 }, { 242,-7349 },
- { 243,-7349 }, { 244,-7349 }, { 245,-7349 }, { 246,-7349 }, { 247,-7349 },
- { 248,-7349 }, { 249,-7349 }, { 250,-7349 }, { 251,-7349 }, { 252,-7349 },
-
- { 253,-7349 }, { 254,-7349 }, { 255,-7349 }, { 256,-7349 }, {   0,   0 },
- {   0,4427 }, {   1,-7607 }, {   2,-7607 }, {   3,-7607 }, {   4,-7607 },
- {   5,-7607 }, {   6,-7607 }, {   7,-7607 }, {   8,-7607 }, {   9,1167 },
- {  10,1167 }, {  11,-7607 }, {  12,-7607 }, {  13,1167 }, {  14,-7607 },
- {  15,-7607 }, {  16,-7607 }, {  17,-7607 }, {  18,-7607 }, {  19,-7607 },
- {  20,-7607 }, {  21,-7607 }, {  22,-7607 }, {  23,-7607 }, {  24,-7607 },
- {  25,-7607 }, {  26,-7607 }, {  27,-7607 }, {  28,-7607 }, {  29,-7607 },
- {  30,-7607 }, {  31,-7607 }, {  32,1167 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  45,-7607 }, {  46,-7632 }, {  47,-7632 }, {  48,-7607 }, {  49,-7607 },
- {  50,-7607 }, {  51,-7607 }, {  52,-7607 }, {  53,-7607 }, {  54,-7607 },
- {  55,-7607 }, {  56,-7607 }, {  57,-7607 }, {  58,-7607 }, {   0,   0 },
- {   0,   0 }, {  61,-7632 }, {   0,   0 }, {  63,-7607 }, {   0,   0 },
- {  65,-7607 }, {  66,-7607 }, {  67,-7607 }, {  68,-7607 }, {  69,-7607 },
- {  70,-7607 }, {  71,-7607 }, {  72,-7607 }, {  73,-7607 }, {  74,-7607 },
- {  75,-7607 }, {  76,-7607 }, {  77,-7607 }, {  78,-7607 }, {  79,-7607 },
- {  80,-7607 }, {  81,-7607 }, {  82,-7607 }, {  83,-7607 }, {  84,-7607 },
- {  85,-7607 }, {  86,-7607 }, {  87,-7607 }, {  88,-7607 }, {  89,-7607 },
- {  90,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  95,-7607 }, {   0,   0 }, {  97,-7607 }, {  98,-7607 }, {  99,-7607 },
- { 100,-7607 }, { 101,-7607 }, { 102,-7607 }, { 103,-7607 }, { 104,-7607 },
- { 105,-7607 }, { 106,-7607 }, { 107,-7607 }, { 108,-7607 }, { 109,-7607 },
- { 110,-7607 }, { 111,-7607 }, { 112,-7607 }, { 113,-7607 }, { 114,-7607 },
- { 115,-7607 }, { 116,-7607 }, { 117,-7607 }, { 118,-7607 }, { 119,-7607 },
- { 120,-7607 }, { 121,-7607 }, { 122,-7607 }, {   0,   0 }, { 124,-7632 },
- { 125,1167 }, { 126,1167 }, { 127,-7607 }, { 128,-7607 }, { 129,-7607 },
- { 130,-7607 }, { 131,-7607 }, { 132,-7607 }, { 133,-7607 }, { 134,-7607 },
- { 135,-7607 }, { 136,-7607 }, { 137,-7607 }, { 138,-7607 }, { 139,-7607 },
- { 140,-7607 }, { 141,-7607 }, { 142,-7607 }, { 143,-7607 }, { 144,-7607 },
-
- { 145,-7607 }, { 146,-7607 }, { 147,-7607 }, { 148,-7607 }, { 149,-7607 },
- { 150,-7607 }, { 151,-7607 }, { 152,-7607 }, { 153,-7607 }, { 154,-7607 },
- { 155,-7607 }, { 156,-7607 }, { 157,-7607 }, { 158,-7607 }, { 159,-7607 },
- { 160,-7607 }, { 161,-7607 }, { 162,-7607 }, { 163,-7607 }, { 164,-7607 },
- { 165,-7607 }, { 166,-7607 }, { 167,-7607 }, { 168,-7607 }, { 169,-7607 },
- { 170,-7607 }, { 171,-7607 }, { 172,-7607 }, { 173,-7607 }, { 174,-7607 },
- { 175,-7607 }, { 176,-7607 }, { 177,-7607 }, { 178,-7607 }, { 179,-7607 },
- { 180,-7607 }, { 181,-7607 }, { 182,-7607 }, { 183,-7607 }, { 184,-7607 },
- { 185,-7607 }, { 186,-7607 }, { 187,-7607 }, { 188,-7607 }, { 189,-7607 },
- { 190,-7607 }, { 191,-7607 }, { 192,-7607 }, { 193,-7607 }, { 194,-7607 },
-
- { 195,-7607 }, { 196,-7607 }, { 197,-7607 }, { 198,-7607 }, { 199,-7607 },
- { 200,-7607 }, { 201,-7607 }, { 202,-7607 }, { 203,-7607 }, { 204,-7607 },
- { 205,-7607 }, { 206,-7607 }, { 207,-7607 }, { 208,-7607 }, { 209,-7607 },
- { 210,-7607 }, { 211,-7607 }, { 212,-7607 }, { 213,-7607 }, { 214,-7607 },
- { 215,-7607 }, { 216,-7607 }, { 217,-7607 }, { 218,-7607 }, { 219,-7607 },
- { 220,-7607 }, { 221,-7607 }, { 222,-7607 }, { 223,-7607 }, { 224,-7607 },
- { 225,-7607 }, { 226,-7607 }, { 227,-7607 }, { 228,-7607 }, { 229,-7607 },
- { 230,-7607 }, { 231,-7607 }, { 232,-7607 }, { 233,-7607 }, { 234,-7607 },
- { 235,-7607 }, { 236,-7607 }, { 237,-7607 }, { 238,-7607 }, { 239,-7607 },
- { 240,-7607 }, { 241,-7607 }, { 242,-7607 }, { 243,-7607 }, { 244,-7607 },
-
- { 245,-7607 }, { 246,-7607 }, { 247,-7607 }, { 248,-7607 }, { 249,-7607 },
- { 250,-7607 }, { 251,-7607 }, { 252,-7607 }, { 253,-7607 }, { 254,-7607 },
- { 255,-7607 }, { 256,-7607 }, {   0,   0 }, {   0,4169 }, {   1,-7865 },
- {   2,-7865 }, {   3,-7865 }, {   4,-7865 }, {   5,-7865 }, {   6,-7865 },
- {   7,-7865 }, {   8,-7865 }, {   9, 911 }, {  10, 911 }, {  11,-7865 },
- {  12,-7865 }, {  13, 911 }, {  14,-7865 }, {  15,-7865 }, {  16,-7865 },
- {  17,-7865 }, {  18,-7865 }, {  19,-7865 }, {  20,-7865 }, {  21,-7865 },
- {  22,-7865 }, {  23,-7865 }, {  24,-7865 }, {  25,-7865 }, {  26,-7865 },
- {  27,-7865 }, {  28,-7865 }, {  29,-7865 }, {  30,-7865 }, {  31,-7865 },
- {  32, 911 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7865 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 911 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7865 }, {  46,-7890 },
- {  47,-7890 }, {  48,-7865 }, {  49,-7865 }, {  50,-7865 }, {  51,-7865 },
- {  52,-7865 }, {  53,-7865 }, {  54,-7865 }, {  55,-7865 }, {  56,-7865 },
- {  57,-7865 }, {  58,-7865 }, {   0,   0 }, {   0,   0 }, {  61,-7890 },
- {   0,   0 }, {  63,-7865 }, {   0,   0 }, {  65,-7865 }, {  66,-7865 },
- {  67,-7865 }, {  68,-7865 }, {  69,-7865 }, {  70,-7865 }, {  71,-7865 },
- {  72,-7865 }, {  73,-7865 }, {  74,-7865 }, {  75,-7865 }, {  76,-7865 },
- {  77,-7865 }, {  78,-7865 }, {  79,-7865 }, {  80,-7865 }, {  81,-7865 },
- {  82,-7865 }, {  83,-7865 }, {  84,-7865 }, {  85,-7865 }, {  86,-7865 },
-
- {  87,-7865 }, {  88,-7865 }, {  89,-7865 }, {  90,-7865 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7865 }, {   0,   0 },
- {  97,-7865 }, {  98,-7865 }, {  99,-7865 }, { 100,-7865 }, { 101,-7865 },
- { 102,-7865 }, { 103,-7865 }, { 104,-7865 }, { 105,-7865 }, { 106,-7865 },
- { 107,-7865 }, { 108,-7865 }, { 109,-7865 }, { 110,-7865 }, { 111,-7865 },
- { 112,-7865 }, { 113,-7865 }, { 114,-7865 }, { 115,-7865 }, { 116,-7865 },
- { 117,-7865 }, { 118,-7865 }, { 119,-7865 }, { 120,-7865 }, { 121,-7865 },
- { 122,-7865 }, {   0,   0 }, { 124,-7890 }, { 125, 911 }, { 126, 911 },
- { 127,-7865 }, { 128,-7865 }, { 129,-7865 }, { 130,-7865 }, { 131,-7865 },
- { 132,-7865 }, { 133,-7865 }, { 134,-7865 }, { 135,-7865 }, { 136,-7865 },
-
- { 137,-7865 }, { 138,-7865 }, { 139,-7865 }, { 140,-7865 }, { 141,-7865 },
- { 142,-7865 }, { 143,-7865 }, { 144,-7865 }, { 145,-7865 }, { 146,-7865 },
- { 147,-7865 }, { 148,-7865 }, { 149,-7865 }, { 150,-7865 }, { 151,-7865 },
- { 152,-7865 }, { 153,-7865 }, { 154,-7865 }, { 155,-7865 }, { 156,-7865 },
- { 157,-7865 }, { 158,-7865 }, { 159,-7865 }, { 160,-7865 }, { 161,-7865 },
- { 162,-7865 }, { 163,-7865 }, { 164,-7865 }, { 165,-7865 }, { 166,-7865 },
- { 167,-7865 }, { 168,-7865 }, { 169,-7865 }, { 170,-7865 }, { 171,-7865 },
- { 172,-7865 }, { 173,-7865 }, { 174,-7865 }, { 175,-7865 }, { 176,-7865 },
- { 177,-7865 }, { 178,-7865 }, { 179,-7865 }, { 180,-7865 }, { 181,-7865 },
- { 182,-7865 }, { 183,-7865 }, { 184,-7865 }, { 185,-7865 }, { 186,-7865 },
-
- { 187,-7865 }, { 188,-7865 }, { 189,-7865 }, { 190,-7865 }, { 191,-7865 },
- { 192,-7865 }, { 193,-7865 }, { 194,-7865 }, { 195,-7865 }, { 196,-7865 },
- { 197,-7865 }, { 198,-7865 }, { 199,-7865 }, { 200,-7865 }, { 201,-7865 },
- { 202,-7865 }, { 203,-7865 }, { 204,-7865 }, { 205,-7865 }, { 206,-7865 },
- { 207,-7865 }, { 208,-7865 }, { 209,-7865 }, { 210,-7865 }, { 211,-7865 },
- { 212,-7865 }, { 213,-7865 }, { 214,-7865 }, { 215,-7865 }, { 216,-7865 },
- { 217,-7865 }, { 218,-7865 }, { 219,-7865 }, { 220,-7865 }, { 221,-7865 },
- { 222,-7865 }, { 223,-7865 }, { 224,-7865 }, { 225,-7865 }, { 226,-7865 },
- { 227,-7865 }, { 228,-7865 }, { 229,-7865 }, { 230,-7865 }, { 231,-7865 },
- { 232,-7865 }, { 233,-7865 }, { 234,-7865 }, { 235,-7865 }, { 236,-7865 },
-
- { 237,-7865 }, { 238,-7865 }, { 239,-7865 }, { 240,-7865 }, { 241,-7865 },
- { 242,-7865 }, { 243,-7865 }, { 244,-7865 }, { 245,-7865 }, { 246,-7865 },
- { 247,-7865 }, { 248,-7865 }, { 249,-7865 }, { 250,-7865 }, { 251,-7865 },
- { 252,-7865 }, { 253,-7865 }, { 254,-7865 }, { 255,-7865 }, { 256,-7865 },
- {   0,   0 }, {   0,3911 }, {   1,-8123 }, {   2,-8123 }, {   3,-8123 },
- {   4,-8123 }, {   5,-8123 }, {   6,-8123 }, {   7,-8123 }, {   8,-8123 },
- {   9,-8148 }, {  10,-8148 }, {  11,-8123 }, {  12,-8123 }, {  13,-8148 },
- {  14,-8123 }, {  15,-8123 }, {  16,-8123 }, {  17,-8123 }, {  18,-8123 },
- {  19,-8123 }, {  20,-8123 }, {  21,-8123 }, {  22,-8123 }, {  23,-8123 },
- {  24,-8123 }, {  25,-8123 }, {  26,-8123 }, {  27,-8123 }, {  28,-8123 },
-
- {  29,-8123 }, {  30,-8123 }, {  31,-8123 }, {  32,-8148 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-8123 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-8148 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-8123 }, {  46,-8148 }, {  47,-8148 }, {  48,-8123 },
- {  49,-8123 }, {  50,-8123 }, {  51,-8123 }, {  52,-8123 }, {  53,-8123 },
- {  54,-8123 }, {  55,-8123 }, {  56,-8123 }, {  57,-8123 }, {  58,-8123 },
- {   0,   0 }, {   0,   0 }, {  61,-8148 }, {   0,   0 }, {  63,-8123 },
- {   0,   0 }, {  65,-8123 }, {  66,-8123 }, {  67,-8123 }, {  68,-8123 },
- {  69,-8123 }, {  70,-8123 }, {  71,-8123 }, {  72,-8123 }, {  73,-8123 },
- {  74,-8123 }, {  75,-8123 }, {  76,-8123 }, {  77,-8123 }, {  78,-8123 },
-
- {  79,-8123 }, {  80,-8123 }, {  81,-8123 }, {  82,-8123 }, {  83,-8123 },
- {  84,-8123 }, {  85,-8123 }, {  86,-8123 }, {  87,-8123 }, {  88,-8123 },
- {  89,-8123 }, {  90,-8123 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-8123 }, {   0,   0 }, {  97,-8123 }, {  98,-8123 },
- {  99,-8123 }, { 100,-8123 }, { 101,-8123 }, { 102, 932 }, { 103,-8123 },
- { 104,-8123 }, { 105,-8123 }, { 106,-8123 }, { 107,-8123 }, { 108,-8123 },
- { 109,-8123 }, { 110,-8123 }, { 111,-8123 }, { 112,-8123 }, { 113,-8123 },
- { 114,-8123 }, { 115,-8123 }, { 116,-8123 }, { 117,-8123 }, { 118,-8123 },
- { 119,-8123 }, { 120,-8123 }, { 121,-8123 }, { 122,-8123 }, {   0,   0 },
- { 124,-8148 }, { 125,-8148 }, { 126,-8148 }, { 127,-8123 }, { 128,-8123 },
-
- { 129,-8123 }, { 130,-8123 }, { 131,-8123 }, { 132,-8123 }, { 133,-8123 },
- { 134,-8123 }, { 135,-8123 }, { 136,-8123 }, { 137,-8123 }, { 138,-8123 },
- { 139,-8123 }, { 140,-8123 }, { 141,-8123 }, { 142,-8123 }, { 143,-8123 },
- { 144,-8123 }, { 145,-8123 }, { 146,-8123 }, { 147,-8123 }, { 148,-8123 },
- { 149,-8123 }, { 150,-8123 }, { 151,-8123 }, { 152,-8123 }, { 153,-8123 },
- { 154,-8123 }, { 155,-8123 }, { 156,-8123 }, { 157,-8123 }, { 158,-8123 },
- { 159,-8123 }, { 160,-8123 }, { 161,-8123 }, { 162,-8123 }, { 163,-8123 },
- { 164,-8123 }, { 165,-8123 }, { 166,-8123 }, { 167,-8123 }, { 168,-8123 },
- { 169,-8123 }, { 170,-8123 }, { 171,-8123 }, { 172,-8123 }, { 173,-8123 },
- { 174,-8123 }, { 175,-8123 }, { 176,-8123 }, { 177,-8123 }, { 178,-8123 },
-
- { 179,-8123 }, { 180,-8123 }, { 181,-8123 }, { 182,-8123 }, { 183,-8123 },
- { 184,-8123 }, { 185,-8123 }, { 186,-8123 }, { 187,-8123 }, { 188,-8123 },
- { 189,-8123 }, { 190,-8123 }, { 191,-8123 }, { 192,-8123 }, { 193,-8123 },
- { 194,-8123 }, { 195,-8123 }, { 196,-8123 }, { 197,-8123 }, { 198,-8123 },
- { 199,-8123 }, { 200,-8123 }, { 201,-8123 }, { 202,-8123 }, { 203,-8123 },
- { 204,-8123 }, { 205,-8123 }, { 206,-8123 }, { 207,-8123 }, { 208,-8123 },
- { 209,-8123 }, { 210,-8123 }, { 211,-8123 }, { 212,-8123 }, { 213,-8123 },
- { 214,-8123 }, { 215,-8123 }, { 216,-8123 }, { 217,-8123 }, { 218,-8123 },
- { 219,-8123 }, { 220,-8123 }, { 221,-8123 }, { 222,-8123 }, { 223,-8123 },
- { 224,-8123 }, { 225,-8123 }, { 226,-8123 }, { 227,-8123 }, { 228,-8123 },
-
- { 229,-8123 }, { 230,-8123 }, { 231,-8123 }, { 232,-8123 }, { 233,-8123 },
- { 234,-8123 }, { 235,-8123 }, { 236,-8123 }, { 237,-8123 }, { 238,-8123 },
- { 239,-8123 }, { 240,-8123 }, { 241,-8123 }, { 242,-8123 }, { 243,-8123 },
- { 244,-8123 }, { 245,-8123 }, { 246,-8123 }, { 247,-8123 }, { 248,-8123 },
- { 249,-8123 }, { 250,-8123 }, { 251,-8123 }, { 252,-8123 }, { 253,-8123 },
- { 254,-8123 }, { 255,-8123 }, { 256,-8123 }, {   0,   0 }, {   0,3653 },
- {   0,   0 }, {   0,3651 }, {   0,   0 }, {   0,3649 }, {   0,   0 },
- {   0,3647 }, {   0,   0 }, {   0,3645 }, {   0,  16 }, {   0,3643 },
- {   0,  26 }, {   0,3641 }, {   0,  17 }, {   0,3639 }, {   0,  36 },
- {   0,3637 }, {   0,   0 }, {   0,3635 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,1039 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,   0 },
- { 108, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- { 115, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 },
- { 126,   4 }, { 125, 934 }, {   0,   0 }, { 125,  -2 }, {   0,   0 },
- {   0,3522 }, {   1, 811 }, {   2, 811 }, {   3, 811 }, {   4, 811 },
- {   5, 811 }, {   6, 811 }, {   7, 811 }, {   8, 811 }, {   9, 811 },
- {  10, 811 }, {  11, 811 }, {  12, 811 }, {  13, 811 }, {  14, 811 },
- {  15, 811 }, {  16, 811 }, {  17, 811 }, {  18, 811 }, {  19, 811 },
- {  20, 811 }, {  21, 811 }, {  22, 811 }, {  23, 811 }, {  24, 811 },
- {  25, 811 }, {  26, 811 }, {  27, 811 }, {  28, 811 }, {  29, 811 },
- {  30, 811 }, {  31, 811 }, {  32, 811 }, {  33, 811 }, {  34, 811 },
- {  35, 811 }, {  36, 811 }, {  37, 811 }, {  38, 811 }, {  39, 811 },
-
- {  40, 811 }, {  41, 811 }, {  42, 811 }, {  43, 811 }, {  44, 811 },
- {  45, 811 }, {  46, 811 }, {  47,1184 }, {  48, 811 }, {  49, 811 },
- {  50, 811 }, {  51, 811 }, {  52, 811 }, {  53, 811 }, {  54, 811 },
- {  55, 811 }, {  56, 811 }, {  57, 811 }, {  58, 811 }, {  59, 811 },
- {  60, 811 }, {  61, 811 }, {  62, 811 }, {  63, 811 }, {  64, 811 },
- {  65, 811 }, {  66, 811 }, {  67, 811 }, {  68, 811 }, {  69, 811 },
- {  70, 811 }, {  71, 811 }, {  72, 811 }, {  73, 811 }, {  74, 811 },
- {  75, 811 }, {  76, 811 }, {  77, 811 }, {  78, 811 }, {  79, 811 },
- {  80, 811 }, {  81, 811 }, {  82, 811 }, {  83, 811 }, {  84, 811 },
- {  85, 811 }, {  86, 811 }, {  87, 811 }, {  88, 811 }, {  89, 811 },
-
- {  90, 811 }, {  91, 811 }, {  92, 811 }, {  93, 811 }, {  94, 811 },
- {  95, 811 }, {  96, 811 }, {  97, 811 }, {  98, 811 }, {  99, 811 },
- { 100, 811 }, { 101, 811 }, { 102, 811 }, { 103, 811 }, { 104, 811 },
- { 105, 811 }, { 106, 811 }, { 107, 811 }, { 108, 811 }, { 109, 811 },
- { 110, 811 }, { 111, 811 }, { 112, 811 }, { 113, 811 }, { 114, 811 },
- { 115, 811 }, { 116, 811 }, { 117, 811 }, { 118, 811 }, { 119, 811 },
- { 120, 811 }, { 121, 811 }, { 122, 811 }, { 123, 811 }, { 124, 811 },
- { 125, 811 }, { 126, 811 }, { 127, 811 }, { 128, 811 }, { 129, 811 },
- { 130, 811 }, { 131, 811 }, { 132, 811 }, { 133, 811 }, { 134, 811 },
- { 135, 811 }, { 136, 811 }, { 137, 811 }, { 138, 811 }, { 139, 811 },
-
- { 140, 811 }, { 141, 811 }, { 142, 811 }, { 143, 811 }, { 144, 811 },
- { 145, 811 }, { 146, 811 }, { 147, 811 }, { 148, 811 }, { 149, 811 },
- { 150, 811 }, { 151, 811 }, { 152, 811 }, { 153, 811 }, { 154, 811 },
- { 155, 811 }, { 156, 811 }, { 157, 811 }, { 158, 811 }, { 159, 811 },
- { 160, 811 }, { 161, 811 }, { 162, 811 }, { 163, 811 }, { 164, 811 },
- { 165, 811 }, { 166, 811 }, { 167, 811 }, { 168, 811 }, { 169, 811 },
- { 170, 811 }, { 171, 811 }, { 172, 811 }, { 173, 811 }, { 174, 811 },
- { 175, 811 }, { 176, 811 }, { 177, 811 }, { 178, 811 }, { 179, 811 },
- { 180, 811 }, { 181, 811 }, { 182, 811 }, { 183, 811 }, { 184, 811 },
- { 185, 811 }, { 186, 811 }, { 187, 811 }, { 188, 811 }, { 189, 811 },
-
- { 190, 811 }, { 191, 811 }, { 192, 811 }, { 193, 811 }, { 194, 811 },
- { 195, 811 }, { 196, 811 }, { 197, 811 }, { 198, 811 }, { 199, 811 },
- { 200, 811 }, { 201, 811 }, { 202, 811 }, { 203, 811 }, { 204, 811 },
- { 205, 811 }, { 206, 811 }, { 207, 811 }, { 208, 811 }, { 209, 811 },
- { 210, 811 }, { 211, 811 }, { 212, 811 }, { 213, 811 }, { 214, 811 },
- { 215, 811 }, { 216, 811 }, { 217, 811 }, { 218, 811 }, { 219, 811 },
- { 220, 811 }, { 221, 811 }, { 222, 811 }, { 223, 811 }, { 224, 811 },
- { 225, 811 }, { 226, 811 }, { 227, 811 }, { 228, 811 }, { 229, 811 },
- { 230, 811 }, { 231, 811 }, { 232, 811 }, { 233, 811 }, { 234, 811 },
- { 235, 811 }, { 236, 811 }, { 237, 811 }, { 238, 811 }, { 239, 811 },
-
- { 240, 811 }, { 241, 811 }, { 242, 811 }, { 243, 811 }, { 244, 811 },
- { 245, 811 }, { 246, 811 }, { 247, 811 }, { 248, 811 }, { 249, 811 },
- { 250, 811 }, { 251, 811 }, { 252, 811 }, { 253, 811 }, { 254, 811 },
- { 255, 811 }, { 256, 811 }, {   0,   1 }, {   0,3264 }, {   0,   1 },
- {   0,3262 }, {   0,  46 }, {   0,3260 }, {   0,  43 }, {   0,3258 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,3237 }, {   1,-8797 }, {   2,-8797 }, {   3,-8797 }, {   4,-8797 },
-
- {   5,-8797 }, {   6,-8797 }, {   7,-8797 }, {   8,-8797 }, {   9, 530 },
- {  10, 530 }, {  11,-8797 }, {  12,-8797 }, {  13, 530 }, {  14,-8797 },
- {  15,-8797 }, {  16,-8797 }, {  17,-8797 }, {  18,-8797 }, {  19,-8797 },
- {  20,-8797 }, {  21,-8797 }, {  22,-8797 }, {  23,-8797 }, {  24,-8797 },
- {  25,-8797 }, {  26,-8797 }, {  27,-8797 }, {  28,-8797 }, {  29,-8797 },
- {  30,-8797 }, {  31,-8797 }, {  32, 530 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41, 530 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-8797 }, {  46,-8822 }, {  47,-8822 }, {  48,-8797 }, {  49,-8797 },
- {  50,-8797 }, {  51,-8797 }, {  52,-8797 }, {  53,-8797 }, {  54,-8797 },
-
- {  55,-8797 }, {  56,-8797 }, {  57,-8797 }, {  58,-8797 }, {   0,   0 },
- {   0,   0 }, {  61,-8822 }, {   0,   0 }, {  63,-8797 }, {   0,   0 },
- {  65,-8797 }, {  66,-8797 }, {  67,-8797 }, {  68,-8797 }, {  69,-8797 },
- {  70,-8797 }, {  71,-8797 }, {  72,-8797 }, {  73,-8797 }, {  74,-8797 },
- {  75,-8797 }, {  76,-8797 }, {  77,-8797 }, {  78,-8797 }, {  79,-8797 },
- {  80,-8797 }, {  81,-8797 }, {  82,-8797 }, {  83,-8797 }, {  84,-8797 },
- {  85,-8797 }, {  86,-8797 }, {  87,-8797 }, {  88,-8797 }, {  89,-8797 },
- {  90,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-8797 }, { 123, 555 }, {  97,-8797 }, {  98,-8797 }, {  99,-8797 },
- { 100,-8797 }, { 101,-8797 }, { 102,-8797 }, { 103,-8797 }, { 104,-8797 },
-
- { 105,-8797 }, { 106,-8797 }, { 107,-8797 }, { 108,-8797 }, { 109,-8797 },
- { 110,-8797 }, { 111,-8797 }, { 112,-8797 }, { 113,-8797 }, { 114,-8797 },
- { 115,-8797 }, { 116,-8797 }, { 117,-8797 }, { 118,-8797 }, { 119,-8797 },
- { 120,-8797 }, { 121,-8797 }, { 122,-8797 }, {   0,   0 }, { 124,-8822 },
- { 125, 530 }, { 126, 530 }, { 127,-8797 }, { 128,-8797 }, { 129,-8797 },
- { 130,-8797 }, { 131,-8797 }, { 132,-8797 }, { 133,-8797 }, { 134,-8797 },
- { 135,-8797 }, { 136,-8797 }, { 137,-8797 }, { 138,-8797 }, { 139,-8797 },
- { 140,-8797 }, { 141,-8797 }, { 142,-8797 }, { 143,-8797 }, { 144,-8797 },
- { 145,-8797 }, { 146,-8797 }, { 147,-8797 }, { 148,-8797 }, { 149,-8797 },
- { 150,-8797 }, { 151,-8797 }, { 152,-8797 }, { 153,-8797 }, { 154,-8797 },
-
- { 155,-8797 }, { 156,-8797 }, { 157,-8797 }, { 158,-8797 }, { 159,-8797 },
- { 160,-8797 }, { 161,-8797 }, { 162,-8797 }, { 163,-8797 }, { 164,-8797 },
- { 165,-8797 }, { 166,-8797 }, { 167,-8797 }, { 168,-8797 }, { 169,-8797 },
- { 170,-8797 }, { 171,-8797 }, { 172,-8797 }, { 173,-8797 }, { 174,-8797 },
- { 175,-8797 }, { 176,-8797 }, { 177,-8797 }, { 178,-8797 }, { 179,-8797 },
- { 180,-8797 }, { 181,-8797 }, { 182,-8797 }, { 183,-8797 }, { 184,-8797 },
- { 185,-8797 }, { 186,-8797 }, { 187,-8797 }, { 188,-8797 }, { 189,-8797 },
- { 190,-8797 }, { 191,-8797 }, { 192,-8797 }, { 193,-8797 }, { 194,-8797 },
- { 195,-8797 }, { 196,-8797 }, { 197,-8797 }, { 198,-8797 }, { 199,-8797 },
- { 200,-8797 }, { 201,-8797 }, { 202,-8797 }, { 203,-8797 }, { 204,-8797 },
-
- { 205,-8797 }, { 206,-8797 }, { 207,-8797 }, { 208,-8797 }, { 209,-8797 },
- { 210,-8797 }, { 211,-8797 }, { 212,-8797 }, { 213,-8797 }, { 214,-8797 },
- { 215,-8797 }, { 216,-8797 }, { 217,-8797 }, { 218,-8797 }, { 219,-8797 },
- { 220,-8797 }, { 221,-8797 }, { 222,-8797 }, { 223,-8797 }, { 224,-8797 },
- { 225,-8797 }, { 226,-8797 }, { 227,-8797 }, { 228,-8797 }, { 229,-8797 },
- { 230,-8797 }, { 231,-8797 }, { 232,-8797 }, { 233,-8797 }, { 234,-8797 },
- { 235,-8797 }, { 236,-8797 }, { 237,-8797 }, { 238,-8797 }, { 239,-8797 },
- { 240,-8797 }, { 241,-8797 }, { 242,-8797 }, { 243,-8797 }, { 244,-8797 },
- { 245,-8797 }, { 246,-8797 }, { 247,-8797 }, { 248,-8797 }, { 249,-8797 },
- { 250,-8797 }, { 251,-8797 }, { 252,-8797 }, { 253,-8797 }, { 254,-8797 },
-
- { 255,-8797 }, { 256,-8797 }, {   0,   0 }, {   0,2979 }, {   1,-9055 },
- {   2,-9055 }, {   3,-9055 }, {   4,-9055 }, {   5,-9055 }, {   6,-9055 },
- {   7,-9055 }, {   8,-9055 }, {   9,-9080 }, {  10,-9080 }, {  11,-9055 },
- {  12,-9055 }, {  13,-9080 }, {  14,-9055 }, {  15,-9055 }, {  16,-9055 },
- {  17,-9055 }, {  18,-9055 }, {  19,-9055 }, {  20,-9055 }, {  21,-9055 },
- {  22,-9055 }, {  23,-9055 }, {  24,-9055 }, {  25,-9055 }, {  26,-9055 },
- {  27,-9055 }, {  28,-9055 }, {  29,-9055 }, {  30,-9055 }, {  31,-9055 },
- {  32,-9080 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9055 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9080 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9055 }, {  46,-9080 },
-
- {  47,-9080 }, {  48,-9055 }, {  49,-9055 }, {  50,-9055 }, {  51,-9055 },
- {  52,-9055 }, {  53,-9055 }, {  54,-9055 }, {  55,-9055 }, {  56,-9055 },
- {  57,-9055 }, {  58,-9055 }, {   0,   0 }, {   0,   0 }, {  61,-9080 },
- {   0,   0 }, {  63,-9055 }, {   0,   0 }, {  65,-9055 }, {  66,-9055 },
- {  67,-9055 }, {  68,-9055 }, {  69,-9055 }, {  70,-9055 }, {  71,-9055 },
- {  72,-9055 }, {  73,-9055 }, {  74,-9055 }, {  75,-9055 }, {  76,-9055 },
- {  77,-9055 }, {  78,-9055 }, {  79,-9055 }, {  80,-9055 }, {  81,-9055 },
- {  82,-9055 }, {  83,-9055 }, {  84,-9055 }, {  85,-9055 }, {  86,-9055 },
- {  87,-9055 }, {  88,-9055 }, {  89,-9055 }, {  90,-9055 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9055 }, {   0,   0 },
-
- {  97,-9055 }, {  98,-9055 }, {  99,-9055 }, { 100,-9055 }, { 101,-9055 },
- { 102,-9055 }, { 103,-9055 }, { 104,-9055 }, { 105, 899 }, { 106,-9055 },
- { 107,-9055 }, { 108,-9055 }, { 109,-9055 }, { 110,-9055 }, { 111,-9055 },
- { 112,-9055 }, { 113,-9055 }, { 114,-9055 }, { 115,-9055 }, { 116,-9055 },
- { 117,-9055 }, { 118,-9055 }, { 119,-9055 }, { 120,-9055 }, { 121,-9055 },
- { 122,-9055 }, {   0,   0 }, { 124,-9080 }, { 125,-9080 }, { 126,-9080 },
- { 127,-9055 }, { 128,-9055 }, { 129,-9055 }, { 130,-9055 }, { 131,-9055 },
- { 132,-9055 }, { 133,-9055 }, { 134,-9055 }, { 135,-9055 }, { 136,-9055 },
- { 137,-9055 }, { 138,-9055 }, { 139,-9055 }, { 140,-9055 }, { 141,-9055 },
- { 142,-9055 }, { 143,-9055 }, { 144,-9055 }, { 145,-9055 }, { 146,-9055 },
-
- { 147,-9055 }, { 148,-9055 }, { 149,-9055 }, { 150,-9055 }, { 151,-9055 },
- { 152,-9055 }, { 153,-9055 }, { 154,-9055 }, { 155,-9055 }, { 156,-9055 },
- { 157,-9055 }, { 158,-9055 }, { 159,-9055 }, { 160,-9055 }, { 161,-9055 },
- { 162,-9055 }, { 163,-9055 }, { 164,-9055 }, { 165,-9055 }, { 166,-9055 },
- { 167,-9055 }, { 168,-9055 }, { 169,-9055 }, { 170,-9055 }, { 171,-9055 },
- { 172,-9055 }, { 173,-9055 }, { 174,-9055 }, { 175,-9055 }, { 176,-9055 },
- { 177,-9055 }, { 178,-9055 }, { 179,-9055 }, { 180,-9055 }, { 181,-9055 },
- { 182,-9055 }, { 183,-9055 }, { 184,-9055 }, { 185,-9055 }, { 186,-9055 },
- { 187,-9055 }, { 188,-9055 }, { 189,-9055 }, { 190,-9055 }, { 191,-9055 },
- { 192,-9055 }, { 193,-9055 }, { 194,-9055 }, { 195,-9055 }, { 196,-9055 },
-
- { 197,-9055 }, { 198,-9055 }, { 199,-9055 }, { 200,-9055 }, { 201,-9055 },
- { 202,-9055 }, { 203,-9055 }, { 204,-9055 }, { 205,-9055 }, { 206,-9055 },
- { 207,-9055 }, { 208,-9055 }, { 209,-9055 }, { 210,-9055 }, { 211,-9055 },
- { 212,-9055 }, { 213,-9055 }, { 214,-9055 }, { 215,-9055 }, { 216,-9055 },
- { 217,-9055 }, { 218,-9055 }, { 219,-9055 }, { 220,-9055 }, { 221,-9055 },
- { 222,-9055 }, { 223,-9055 }, { 224,-9055 }, { 225,-9055 }, { 226,-9055 },
- { 227,-9055 }, { 228,-9055 }, { 229,-9055 }, { 230,-9055 }, { 231,-9055 },
- { 232,-9055 }, { 233,-9055 }, { 234,-9055 }, { 235,-9055 }, { 236,-9055 },
- { 237,-9055 }, { 238,-9055 }, { 239,-9055 }, { 240,-9055 }, { 241,-9055 },
- { 242,-9055 }, { 243,-9055 }, { 244,-9055 }, { 245,-9055 }, { 246,-9055 },
-
- { 247,-9055 }, { 248,-9055 }, { 249,-9055 }, { 250,-9055 }, { 251,-9055 },
- { 252,-9055 }, { 253,-9055 }, { 254,-9055 }, { 255,-9055 }, { 256,-9055 },
- {   0,   0 }, {   0,2721 }, {   0,  28 }, {   0,2719 }, {   0,  22 },
- {   0,2717 }, {   0,   0 }, {   0,2715 }, {   0,   0 }, {   0,2713 },
- {   0,   8 }, {   0,2711 }, {   0,   1 }, {   0,2709 }, {   0,  44 },
- {   0,2707 }, {   0,   0 }, {   0,2705 }, {   0,   0 }, {   0,2703 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101, 893 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 115,  16 }, {   0,   0 }, { 101,2043 }, {   0,   0 },
- { 101,2049 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,  10 },
- {   0,   0 }, {   0,2596 }, {   1, 902 }, {   2, 902 }, {   3, 902 },
- {   4, 902 }, {   5, 902 }, {   6, 902 }, {   7, 902 }, {   8, 902 },
- {   9, 902 }, {  10, 902 }, {  11, 902 }, {  12, 902 }, {  13, 902 },
-
- {  14, 902 }, {  15, 902 }, {  16, 902 }, {  17, 902 }, {  18, 902 },
- {  19, 902 }, {  20, 902 }, {  21, 902 }, {  22, 902 }, {  23, 902 },
- {  24, 902 }, {  25, 902 }, {  26, 902 }, {  27, 902 }, {  28, 902 },
- {  29, 902 }, {  30, 902 }, {  31, 902 }, {  32, 902 }, {  33, 902 },
- {  34, 902 }, {  35, 902 }, {  36, 902 }, {  37, 902 }, {  38, 902 },
- {  39, 902 }, {  40, 902 }, {  41, 902 }, {  42, 902 }, {  43, 902 },
- {  44, 902 }, {  45,1160 }, {  46, 902 }, {  47, 902 }, {  48, 902 },
- {  49, 902 }, {  50, 902 }, {  51, 902 }, {  52, 902 }, {  53, 902 },
- {  54, 902 }, {  55, 902 }, {  56, 902 }, {  57, 902 }, {  58, 902 },
- {  59, 902 }, {  60, 902 }, {  61, 902 }, {  62, 902 }, {  63, 902 },
-
- {  64, 902 }, {  65, 902 }, {  66, 902 }, {  67, 902 }, {  68, 902 },
- {  69, 902 }, {  70, 902 }, {  71, 902 }, {  72, 902 }, {  73, 902 },
- {  74, 902 }, {  75, 902 }, {  76, 902 }, {  77, 902 }, {  78, 902 },
- {  79, 902 }, {  80, 902 }, {  81, 902 }, {  82, 902 }, {  83, 902 },
- {  84, 902 }, {  85, 902 }, {  86, 902 }, {  87, 902 }, {  88, 902 },
- {  89, 902 }, {  90, 902 }, {  91, 902 }, {  92, 902 }, {  93, 902 },
- {  94, 902 }, {  95, 902 }, {  96, 902 }, {  97, 902 }, {  98, 902 },
- {  99, 902 }, { 100, 902 }, { 101, 902 }, { 102, 902 }, { 103, 902 },
- { 104, 902 }, { 105, 902 }, { 106, 902 }, { 107, 902 }, { 108, 902 },
- { 109, 902 }, { 110, 902 }, { 111, 902 }, { 112, 902 }, { 113, 902 },
-
- { 114, 902 }, { 115, 902 }, { 116, 902 }, { 117, 902 }, { 118, 902 },
- { 119, 902 }, { 120, 902 }, { 121, 902 }, { 122, 902 }, { 123, 902 },
- { 124, 902 }, { 125, 902 }, { 126, 902 }, { 127, 902 }, { 128, 902 },
- { 129, 902 }, { 130, 902 }, { 131, 902 }, { 132, 902 }, { 133, 902 },
- { 134, 902 }, { 135, 902 }, { 136, 902 }, { 137, 902 }, { 138, 902 },
- { 139, 902 }, { 140, 902 }, { 141, 902 }, { 142, 902 }, { 143, 902 },
- { 144, 902 }, { 145, 902 }, { 146, 902 }, { 147, 902 }, { 148, 902 },
- { 149, 902 }, { 150, 902 }, { 151, 902 }, { 152, 902 }, { 153, 902 },
- { 154, 902 }, { 155, 902 }, { 156, 902 }, { 157, 902 }, { 158, 902 },
- { 159, 902 }, { 160, 902 }, { 161, 902 }, { 162, 902 }, { 163, 902 },
-
- { 164, 902 }, { 165, 902 }, { 166, 902 }, { 167, 902 }, { 168, 902 },
- { 169, 902 }, { 170, 902 }, { 171, 902 }, { 172, 902 }, { 173, 902 },
- { 174, 902 }, { 175, 902 }, { 176, 902 }, { 177, 902 }, { 178, 902 },
- { 179, 902 }, { 180, 902 }, { 181, 902 }, { 182, 902 }, { 183, 902 },
- { 184, 902 }, { 185, 902 }, { 186, 902 }, { 187, 902 }, { 188, 902 },
- { 189, 902 }, { 190, 902 }, { 191, 902 }, { 192, 902 }, { 193, 902 },
- { 194, 902 }, { 195, 902 }, { 196, 902 }, { 197, 902 }, { 198, 902 },
- { 199, 902 }, { 200, 902 }, { 201, 902 }, { 202, 902 }, { 203, 902 },
- { 204, 902 }, { 205, 902 }, { 206, 902 }, { 207, 902 }, { 208, 902 },
- { 209, 902 }, { 210, 902 }, { 211, 902 }, { 212, 902 }, { 213, 902 },
-
- { 214, 902 }, { 215, 902 }, { 216, 902 }, { 217, 902 }, { 218, 902 },
- { 219, 902 }, { 220, 902 }, { 221, 902 }, { 222, 902 }, { 223, 902 },
- { 224, 902 }, { 225, 902 }, { 226, 902 }, { 227, 902 }, { 228, 902 },
- { 229, 902 }, { 230, 902 }, { 231, 902 }, { 232, 902 }, { 233, 902 },
- { 234, 902 }, { 235, 902 }, { 236, 902 }, { 237, 902 }, { 238, 902 },
- { 239, 902 }, { 240, 902 }, { 241, 902 }, { 242, 902 }, { 243, 902 },
- { 244, 902 }, { 245, 902 }, { 246, 902 }, { 247, 902 }, { 248, 902 },
- { 249, 902 }, { 250, 902 }, { 251, 902 }, { 252, 902 }, { 253, 902 },
- { 254, 902 }, { 255, 902 }, { 256, 902 }, {   0,   0 }, {   0,2338 },
- {   1,1160 }, {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 },
-
- {   6,1160 }, {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 },
- {  11,1160 }, {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 },
- {  16,1160 }, {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 },
- {  21,1160 }, {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 },
- {  26,1160 }, {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 },
- {  31,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 },
- {   0,   0 }, {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 },
- {  51,1160 }, {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 },
-
- {  56,1160 }, {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 },
- {  66,1160 }, {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 },
- {  71,1160 }, {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 },
- {  76,1160 }, {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 },
- {  81,1160 }, {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 },
- {  86,1160 }, {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 },
- {   0,   0 }, {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 },
- { 101,1160 }, { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 },
-
- { 106,1160 }, { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 },
- { 111,1160 }, { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 },
- { 116,1160 }, { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 },
- { 121,1160 }, { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 },
- { 131,1160 }, { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 },
- { 136,1160 }, { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 },
- { 141,1160 }, { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 },
- { 146,1160 }, { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 },
- { 151,1160 }, { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 },
-
- { 156,1160 }, { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 },
- { 161,1160 }, { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 },
- { 166,1160 }, { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 },
- { 171,1160 }, { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 },
- { 176,1160 }, { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 },
- { 181,1160 }, { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 },
- { 186,1160 }, { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 },
- { 191,1160 }, { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 },
- { 196,1160 }, { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 },
- { 201,1160 }, { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 },
-
- { 206,1160 }, { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 },
- { 211,1160 }, { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 },
- { 216,1160 }, { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 },
- { 221,1160 }, { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 },
- { 226,1160 }, { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 },
- { 231,1160 }, { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 },
- { 236,1160 }, { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 },
- { 241,1160 }, { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 },
- { 246,1160 }, { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 },
- { 251,1160 }, { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 },
-
- { 256,1160 }, {   0,   0 }, {   0,2080 }, {   1,-9954 }, {   2,-9954 },
- {   3,-9954 }, {   4,-9954 }, {   5,-9954 }, {   6,-9954 }, {   7,-9954 },
- {   8,-9954 }, {   9,-9979 }, {  10,-9979 }, {  11,-9954 }, {  12,-9954 },
- {  13,-9979 }, {  14,-9954 }, {  15,-9954 }, {  16,-9954 }, {  17,-9954 },
- {  18,-9954 }, {  19,-9954 }, {  20,-9954 }, {  21,-9954 }, {  22,-9954 },
- {  23,-9954 }, {  24,-9954 }, {  25,-9954 }, {  26,-9954 }, {  27,-9954 },
- {  28,-9954 }, {  29,-9954 }, {  30,-9954 }, {  31,-9954 }, {  32,-9979 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9954 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9979 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-9954 }, {  46,-9979 }, {  47,-9979 },
-
- {  48,-9954 }, {  49,-9954 }, {  50,-9954 }, {  51,-9954 }, {  52,-9954 },
- {  53,-9954 }, {  54,-9954 }, {  55,-9954 }, {  56,-9954 }, {  57,-9954 },
- {  58,-9954 }, {   0,   0 }, {   0,   0 }, {  61,-9979 }, {   0,   0 },
- {  63,-9954 }, {   0,   0 }, {  65,-9954 }, {  66,-9954 }, {  67,-9954 },
- {  68,-9954 }, {  69,-9954 }, {  70,-9954 }, {  71,-9954 }, {  72,-9954 },
- {  73,-9954 }, {  74,-9954 }, {  75,-9954 }, {  76,-9954 }, {  77,-9954 },
- {  78,-9954 }, {  79,-9954 }, {  80,-9954 }, {  81,-9954 }, {  82,-9954 },
- {  83,-9954 }, {  84,-9954 }, {  85,-9954 }, {  86,-9954 }, {  87,-9954 },
- {  88,-9954 }, {  89,-9954 }, {  90,-9954 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-9954 }, {   0,   0 }, {  97,-9954 },
-
- {  98,-9954 }, {  99,-9954 }, { 100,-9954 }, { 101,-9954 }, { 102,-9954 },
- { 103,-9954 }, { 104,-9954 }, { 105,-9954 }, { 106,-9954 }, { 107,-9954 },
- { 108,-9954 }, { 109,-9954 }, { 110,1160 }, { 111,-9954 }, { 112,-9954 },
- { 113,-9954 }, { 114,-9954 }, { 115,-9954 }, { 116,-9954 }, { 117,-9954 },
- { 118,-9954 }, { 119,-9954 }, { 120,-9954 }, { 121,-9954 }, { 122,-9954 },
- {   0,   0 }, { 124,-9979 }, { 125,-9979 }, { 126,-9979 }, { 127,-9954 },
- { 128,-9954 }, { 129,-9954 }, { 130,-9954 }, { 131,-9954 }, { 132,-9954 },
- { 133,-9954 }, { 134,-9954 }, { 135,-9954 }, { 136,-9954 }, { 137,-9954 },
- { 138,-9954 }, { 139,-9954 }, { 140,-9954 }, { 141,-9954 }, { 142,-9954 },
- { 143,-9954 }, { 144,-9954 }, { 145,-9954 }, { 146,-9954 }, { 147,-9954 },
-
- { 148,-9954 }, { 149,-9954 }, { 150,-9954 }, { 151,-9954 }, { 152,-9954 },
- { 153,-9954 }, { 154,-9954 }, { 155,-9954 }, { 156,-9954 }, { 157,-9954 },
- { 158,-9954 }, { 159,-9954 }, { 160,-9954 }, { 161,-9954 }, { 162,-9954 },
- { 163,-9954 }, { 164,-9954 }, { 165,-9954 }, { 166,-9954 }, { 167,-9954 },
- { 168,-9954 }, { 169,-9954 }, { 170,-9954 }, { 171,-9954 }, { 172,-9954 },
- { 173,-9954 }, { 174,-9954 }, { 175,-9954 }, { 176,-9954 }, { 177,-9954 },
- { 178,-9954 }, { 179,-9954 }, { 180,-9954 }, { 181,-9954 }, { 182,-9954 },
- { 183,-9954 }, { 184,-9954 }, { 185,-9954 }, { 186,-9954 }, { 187,-9954 },
- { 188,-9954 }, { 189,-9954 }, { 190,-9954 }, { 191,-9954 }, { 192,-9954 },
- { 193,-9954 }, { 194,-9954 }, { 195,-9954 }, { 196,-9954 }, { 197,-9954 },
-
- { 198,-9954 }, { 199,-9954 }, { 200,-9954 }, { 201,-9954 }, { 202,-9954 },
- { 203,-9954 }, { 204,-9954 }, { 205,-9954 }, { 206,-9954 }, { 207,-9954 },
- { 208,-9954 }, { 209,-9954 }, { 210,-9954 }, { 211,-9954 }, { 212,-9954 },
- { 213,-9954 }, { 214,-9954 }, { 215,-9954 }, { 216,-9954 }, { 217,-9954 },
- { 218,-9954 }, { 219,-9954 }, { 220,-9954 }, { 221,-9954 }, { 222,-9954 },
- { 223,-9954 }, { 224,-9954 }, { 225,-9954 }, { 226,-9954 }, { 227,-9954 },
- { 228,-9954 }, { 229,-9954 }, { 230,-9954 }, { 231,-9954 }, { 232,-9954 },
- { 233,-9954 }, { 234,-9954 }, { 235,-9954 }, { 236,-9954 }, { 237,-9954 },
- { 238,-9954 }, { 239,-9954 }, { 240,-9954 }, { 241,-9954 }, { 242,-9954 },
- { 243,-9954 }, { 244,-9954 }, { 245,-9954 }, { 246,-9954 }, { 247,-9954 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+ { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
 
- { 248,-9954 }, { 249,-9954 }, { 250,-9954 }, { 251,-9954 }, { 252,-9954 },
- { 253,-9954 }, { 254,-9954 }, { 255,-9954 }, { 256,-9954 }, {   0,  25 },
- {   0,1822 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1162 },
- {  10,1162 }, {   0,   0 }, {   0,   0 }, {  13,1162 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,1162 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,1164 }, { 126,1166 }, {   0,   0 }, {   0,1694 }, {   1,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
+ {   0,1434 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
+ {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
+ {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
+ {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
+ {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
+
+ {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
+ {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
+ {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
+ {  45,-1160 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
+ {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
+ {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
+ {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
+ {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
+ {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
+ {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
+
+ {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
+ {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
+ {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
+ {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
+ { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
+ { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
+ { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
+ { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
+ { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
+ { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
+
+ { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
+ { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
+ { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
+ { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
+ { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
+ { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
+ { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
+ { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
+ { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
+ { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
+
+ { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
+ { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
+ { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
+ { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
+ { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
+ { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
+ { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
+ { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
+ { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
+ { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
+
+ { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
+ { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
+ { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
+ { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
+ { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
+ { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1176 }, {   1,   0 },
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
-
- {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
+ {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 },
+ {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
  {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
+
  {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
  {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 },
+ {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
  {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
-
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
+ {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
  {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
+
  {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
  {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
  {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
+ {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 },
  {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
  { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
  { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
-
  { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
  { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
+
+ { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 533 }, {   0,   0 },
  { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
  { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
  { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
@@ -4637,9 +5471,9 @@ static const struct yy_trans_info yy_transition[20137] =
  { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
  { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
  { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
-
  { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
  { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
+
  { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
  { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
  { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
@@ -4648,9 +5482,9 @@ static const struct yy_trans_info yy_transition[20137] =
  { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
  { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
  { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
-
  { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
  { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
+
  { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
  { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
  { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
@@ -4658,323 +5492,210 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,1436 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
-
- {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 },
- {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 },
- {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 },
- {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 },
- {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 },
- {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 },
- {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 },
- {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 },
- {  44,-258 }, {  45, 791 }, {  46,-258 }, {  47,-258 }, {  48,-258 },
- {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 },
-
- {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 },
- {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 },
- {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 },
- {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 },
- {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 },
- {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 },
- {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 },
- {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 },
- {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 },
- {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 },
-
- { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 },
- { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 },
- { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 },
- { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 },
- { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 },
- { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 },
- { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 },
- { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 },
- { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 },
- { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 },
-
- { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 },
- { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 },
- { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 },
- { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 },
- { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 },
- { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 },
- { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 },
- { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 },
- { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 },
- { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 },
-
- { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 },
- { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 },
- { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 },
- { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 },
- { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 },
- { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 },
- { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 },
- { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 },
- { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 },
- { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 },
-
- { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1178 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 },
- {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 },
-
- {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 },
+ {   0,   0 }, {   0, 918 }, {   1,-13895 }, {   2,-13895 }, {   3,-13895 },
+ {   4,-13895 }, {   5,-13895 }, {   6,-13895 }, {   7,-13895 }, {   8,-13895 },
+ {   9,-14016 }, {  10,-14016 }, {  11,-13895 }, {  12,-13895 }, {  13,-14016 },
 
- {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 535 },
- {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
-
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
-
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
+ {  14,-13895 }, {  15,-13895 }, {  16,-13895 }, {  17,-13895 }, {  18,-13895 },
+ {  19,-13895 }, {  20,-13895 }, {  21,-13895 }, {  22,-13895 }, {  23,-13895 },
+ {  24,-13895 }, {  25,-13895 }, {  26,-13895 }, {  27,-13895 }, {  28,-13895 },
+ {  29,-13895 }, {  30,-13895 }, {  31,-13895 }, {  32,-14016 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-13895 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-14016 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-13895 }, {  46,-14016 }, {  47,-14016 }, {  48,-13895 },
+ {  49,-13895 }, {  50,-13895 }, {  51,-13895 }, {  52,-13895 }, {  53,-13895 },
+ {  54,-13895 }, {  55,-13895 }, {  56,-13895 }, {  57,-13895 }, {  58,-13895 },
+ {   0,   0 }, {   0,   0 }, {  61,-14016 }, {   0,   0 }, {  63,-13895 },
 
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0, 920 }, {   1,-11114 }, {   2,-11114 },
- {   3,-11114 }, {   4,-11114 }, {   5,-11114 }, {   6,-11114 }, {   7,-11114 },
- {   8,-11114 }, {   9,-11139 }, {  10,-11139 }, {  11,-11114 }, {  12,-11114 },
- {  13,-11139 }, {  14,-11114 }, {  15,-11114 }, {  16,-11114 }, {  17,-11114 },
- {  18,-11114 }, {  19,-11114 }, {  20,-11114 }, {  21,-11114 }, {  22,-11114 },
- {  23,-11114 }, {  24,-11114 }, {  25,-11114 }, {  26,-11114 }, {  27,-11114 },
- {  28,-11114 }, {  29,-11114 }, {  30,-11114 }, {  31,-11114 }, {  32,-11139 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11114 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11139 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-11114 }, {  46,-11139 }, {  47,-11139 },
- {  48,-11114 }, {  49,-11114 }, {  50,-11114 }, {  51,-11114 }, {  52,-11114 },
- {  53,-11114 }, {  54,-11114 }, {  55,-11114 }, {  56,-11114 }, {  57,-11114 },
- {  58,-11114 }, {   0,   0 }, {   0,   0 }, {  61,-11139 }, {   0,   0 },
- {  63,-11114 }, {   0,   0 }, {  65,-11114 }, {  66,-11114 }, {  67,-11114 },
- {  68,-11114 }, {  69,-11114 }, {  70,-11114 }, {  71,-11114 }, {  72,-11114 },
- {  73,-11114 }, {  74,-11114 }, {  75,-11114 }, {  76,-11114 }, {  77,-11114 },
- {  78,-11114 }, {  79,-11114 }, {  80,-11114 }, {  81,-11114 }, {  82,-11114 },
- {  83,-11114 }, {  84,-11114 }, {  85,-11114 }, {  86,-11114 }, {  87,-11114 },
-
- {  88,-11114 }, {  89,-11114 }, {  90,-11114 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-11114 }, {   0,   0 }, {  97,-11114 },
- {  98,-11114 }, {  99,-11114 }, { 100,-11114 }, { 101, 404 }, { 102,-11114 },
- { 103,-11114 }, { 104,-11114 }, { 105,-11114 }, { 106,-11114 }, { 107,-11114 },
- { 108,-11114 }, { 109,-11114 }, { 110,-11114 }, { 111,-11114 }, { 112,-11114 },
- { 113,-11114 }, { 114,-11114 }, { 115,-11114 }, { 116,-11114 }, { 117,-11114 },
- { 118,-11114 }, { 119,-11114 }, { 120,-11114 }, { 121,-11114 }, { 122,-11114 },
- {   0,   0 }, { 124,-11139 }, { 125,-11139 }, { 126,-11139 }, { 127,-11114 },
- { 128,-11114 }, { 129,-11114 }, { 130,-11114 }, { 131,-11114 }, { 132,-11114 },
- { 133,-11114 }, { 134,-11114 }, { 135,-11114 }, { 136,-11114 }, { 137,-11114 },
-
- { 138,-11114 }, { 139,-11114 }, { 140,-11114 }, { 141,-11114 }, { 142,-11114 },
- { 143,-11114 }, { 144,-11114 }, { 145,-11114 }, { 146,-11114 }, { 147,-11114 },
- { 148,-11114 }, { 149,-11114 }, { 150,-11114 }, { 151,-11114 }, { 152,-11114 },
- { 153,-11114 }, { 154,-11114 }, { 155,-11114 }, { 156,-11114 }, { 157,-11114 },
- { 158,-11114 }, { 159,-11114 }, { 160,-11114 }, { 161,-11114 }, { 162,-11114 },
- { 163,-11114 }, { 164,-11114 }, { 165,-11114 }, { 166,-11114 }, { 167,-11114 },
- { 168,-11114 }, { 169,-11114 }, { 170,-11114 }, { 171,-11114 }, { 172,-11114 },
- { 173,-11114 }, { 174,-11114 }, { 175,-11114 }, { 176,-11114 }, { 177,-11114 },
- { 178,-11114 }, { 179,-11114 }, { 180,-11114 }, { 181,-11114 }, { 182,-11114 },
- { 183,-11114 }, { 184,-11114 }, { 185,-11114 }, { 186,-11114 }, { 187,-11114 },
-
- { 188,-11114 }, { 189,-11114 }, { 190,-11114 }, { 191,-11114 }, { 192,-11114 },
- { 193,-11114 }, { 194,-11114 }, { 195,-11114 }, { 196,-11114 }, { 197,-11114 },
- { 198,-11114 }, { 199,-11114 }, { 200,-11114 }, { 201,-11114 }, { 202,-11114 },
- { 203,-11114 }, { 204,-11114 }, { 205,-11114 }, { 206,-11114 }, { 207,-11114 },
- { 208,-11114 }, { 209,-11114 }, { 210,-11114 }, { 211,-11114 }, { 212,-11114 },
- { 213,-11114 }, { 214,-11114 }, { 215,-11114 }, { 216,-11114 }, { 217,-11114 },
- { 218,-11114 }, { 219,-11114 }, { 220,-11114 }, { 221,-11114 }, { 222,-11114 },
- { 223,-11114 }, { 224,-11114 }, { 225,-11114 }, { 226,-11114 }, { 227,-11114 },
- { 228,-11114 }, { 229,-11114 }, { 230,-11114 }, { 231,-11114 }, { 232,-11114 },
- { 233,-11114 }, { 234,-11114 }, { 235,-11114 }, { 236,-11114 }, { 237,-11114 },
-
- { 238,-11114 }, { 239,-11114 }, { 240,-11114 }, { 241,-11114 }, { 242,-11114 },
- { 243,-11114 }, { 244,-11114 }, { 245,-11114 }, { 246,-11114 }, { 247,-11114 },
- { 248,-11114 }, { 249,-11114 }, { 250,-11114 }, { 251,-11114 }, { 252,-11114 },
- { 253,-11114 }, { 254,-11114 }, { 255,-11114 }, { 256,-11114 }, {   0,   0 },
- {   0, 662 }, {   0,   0 }, {   0, 660 }, {   0,   0 }, {   0, 658 },
- {   0,   0 }, {   0, 656 }, {   0,  25 }, {   0, 654 }, {   9,   2 },
- {  10,   2 }, {   9,   0 }, {  10,   0 }, {  13,   2 }, {   0,   0 },
- {  13,   0 }, {   0,   0 }, {   0, 645 }, {   0,   0 }, {   0, 643 },
- {   0,  23 }, {   0, 641 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  32,   2 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 608 },
- {   0,   0 }, {   0, 606 }, {   0,   0 }, {   0, 604 }, {   0,  12 },
- {   0, 602 }, {   0,   0 }, {   0,   0 }, {   0, 599 }, {   0,  45 },
- {   0, 597 }, {   0,   9 }, {   0, 595 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,   4 }, { 126,   6 }, { 125,   2 }, { 126,   4 }, { 125,  17 },
-
- {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,  37 }, { 126,  39 }, { 125,  39 },
- {   0,   0 }, {   0, 516 }, {   1,-11518 }, {   2,-11518 }, {   3,-11518 },
- {   4,-11518 }, {   5,-11518 }, {   6,-11518 }, {   7,-11518 }, {   8,-11518 },
- {   9,-11543 }, {  10,-11543 }, {  11,-11518 }, {  12,-11518 }, {  13,-11543 },
- {  14,-11518 }, {  15,-11518 }, {  16,-11518 }, {  17,-11518 }, {  18,-11518 },
- {  19,-11518 }, {  20,-11518 }, {  21,-11518 }, {  22,-11518 }, {  23,-11518 },
- {  24,-11518 }, {  25,-11518 }, {  26,-11518 }, {  27,-11518 }, {  28,-11518 },
- {  29,-11518 }, {  30,-11518 }, {  31,-11518 }, {  32,-11543 }, { 125,   6 },
-
- {   0,   0 }, { 125,  -2 }, {  36,-11518 }, { 125,   5 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-11543 }, { 125,   4 }, {   0,   0 },
- {   0,   0 }, {  45,-11518 }, {  46,-11543 }, {  47,-11543 }, {  48,-11518 },
- {  49,-11518 }, {  50,-11518 }, {  51,-11518 }, {  52,-11518 }, {  53,-11518 },
- {  54,-11518 }, {  55,-11518 }, {  56,-11518 }, {  57,-11518 }, {  58,-11518 },
- {   0,   0 }, {   0,   0 }, {  61,-11543 }, {   0,   0 }, {  63,-11518 },
- {   0,   0 }, {  65,-11518 }, {  66,-11518 }, {  67,-11518 }, {  68,-11518 },
- {  69,-11518 }, {  70,-11518 }, {  71,-11518 }, {  72,-11518 }, {  73,-11518 },
- {  74,-11518 }, {  75,-11518 }, {  76,-11518 }, {  77,-11518 }, {  78,-11518 },
- {  79,-11518 }, {  80,-11518 }, {  81,-11518 }, {  82,-11518 }, {  83,-11518 },
-
- {  84,-11518 }, {  85,-11518 }, {  86,-11518 }, {  87,-11518 }, {  88,-11518 },
- {  89,-11518 }, {  90,-11518 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-11518 }, {   0,   0 }, {  97,-11518 }, {  98,-11518 },
- {  99,-11518 }, { 100, 258 }, { 101,-11518 }, { 102,-11518 }, { 103,-11518 },
- { 104,-11518 }, { 105,-11518 }, { 106,-11518 }, { 107,-11518 }, { 108,-11518 },
- { 109,-11518 }, { 110,-11518 }, { 111,-11518 }, { 112,-11518 }, { 113,-11518 },
- { 114,-11518 }, { 115,-11518 }, { 116,-11518 }, { 117,-11518 }, { 118,-11518 },
- { 119,-11518 }, { 120,-11518 }, { 121,-11518 }, { 122,-11518 }, {   0,   0 },
- { 124,-11543 }, { 125,-11543 }, { 126,-11543 }, { 127,-11518 }, { 128,-11518 },
- { 129,-11518 }, { 130,-11518 }, { 131,-11518 }, { 132,-11518 }, { 133,-11518 },
-
- { 134,-11518 }, { 135,-11518 }, { 136,-11518 }, { 137,-11518 }, { 138,-11518 },
- { 139,-11518 }, { 140,-11518 }, { 141,-11518 }, { 142,-11518 }, { 143,-11518 },
- { 144,-11518 }, { 145,-11518 }, { 146,-11518 }, { 147,-11518 }, { 148,-11518 },
- { 149,-11518 }, { 150,-11518 }, { 151,-11518 }, { 152,-11518 }, { 153,-11518 },
- { 154,-11518 }, { 155,-11518 }, { 156,-11518 }, { 157,-11518 }, { 158,-11518 },
- { 159,-11518 }, { 160,-11518 }, { 161,-11518 }, { 162,-11518 }, { 163,-11518 },
- { 164,-11518 }, { 165,-11518 }, { 166,-11518 }, { 167,-11518 }, { 168,-11518 },
- { 169,-11518 }, { 170,-11518 }, { 171,-11518 }, { 172,-11518 }, { 173,-11518 },
- { 174,-11518 }, { 175,-11518 }, { 176,-11518 }, { 177,-11518 }, { 178,-11518 },
- { 179,-11518 }, { 180,-11518 }, { 181,-11518 }, { 182,-11518 }, { 183,-11518 },
-
- { 184,-11518 }, { 185,-11518 }, { 186,-11518 }, { 187,-11518 }, { 188,-11518 },
- { 189,-11518 }, { 190,-11518 }, { 191,-11518 }, { 192,-11518 }, { 193,-11518 },
- { 194,-11518 }, { 195,-11518 }, { 196,-11518 }, { 197,-11518 }, { 198,-11518 },
- { 199,-11518 }, { 200,-11518 }, { 201,-11518 }, { 202,-11518 }, { 203,-11518 },
- { 204,-11518 }, { 205,-11518 }, { 206,-11518 }, { 207,-11518 }, { 208,-11518 },
- { 209,-11518 }, { 210,-11518 }, { 211,-11518 }, { 212,-11518 }, { 213,-11518 },
- { 214,-11518 }, { 215,-11518 }, { 216,-11518 }, { 217,-11518 }, { 218,-11518 },
- { 219,-11518 }, { 220,-11518 }, { 221,-11518 }, { 222,-11518 }, { 223,-11518 },
- { 224,-11518 }, { 225,-11518 }, { 226,-11518 }, { 227,-11518 }, { 228,-11518 },
- { 229,-11518 }, { 230,-11518 }, { 231,-11518 }, { 232,-11518 }, { 233,-11518 },
-
- { 234,-11518 }, { 235,-11518 }, { 236,-11518 }, { 237,-11518 }, { 238,-11518 },
- { 239,-11518 }, { 240,-11518 }, { 241,-11518 }, { 242,-11518 }, { 243,-11518 },
- { 244,-11518 }, { 245,-11518 }, { 246,-11518 }, { 247,-11518 }, { 248,-11518 },
- { 249,-11518 }, { 250,-11518 }, { 251,-11518 }, { 252,-11518 }, { 253,-11518 },
- { 254,-11518 }, { 255,-11518 }, { 256,-11518 }, {   0,   0 }, {   0, 258 },
- {   1,-11776 }, {   2,-11776 }, {   3,-11776 }, {   4,-11776 }, {   5,-11776 },
- {   6,-11776 }, {   7,-11776 }, {   8,-11776 }, {   9,-339 }, {  10,-339 },
- {  11,-11776 }, {  12,-11776 }, {  13,-339 }, {  14,-11776 }, {  15,-11776 },
- {  16,-11776 }, {  17,-11776 }, {  18,-11776 }, {  19,-11776 }, {  20,-11776 },
- {  21,-11776 }, {  22,-11776 }, {  23,-11776 }, {  24,-11776 }, {  25,-11776 },
-
- {  26,-11776 }, {  27,-11776 }, {  28,-11776 }, {  29,-11776 }, {  30,-11776 },
- {  31,-11776 }, {  32,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-11776 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11776 },
- {  46,-11801 }, {  47,-11801 }, {  48,-11776 }, {  49,-11776 }, {  50,-11776 },
- {  51,-11776 }, {  52,-11776 }, {  53,-11776 }, {  54,-11776 }, {  55,-11776 },
- {  56,-11776 }, {  57,-11776 }, {  58,-11776 }, {   0,   0 }, {   0,   0 },
- {  61,-11801 }, {   0,   0 }, {  63,-11776 }, {   0,   0 }, {  65,-11776 },
- {  66,-11776 }, {  67,-11776 }, {  68,-11776 }, {  69,-11776 }, {  70,-11776 },
- {  71,-11776 }, {  72,-11776 }, {  73,-11776 }, {  74,-11776 }, {  75,-11776 },
-
- {  76,-11776 }, {  77,-11776 }, {  78,-11776 }, {  79,-11776 }, {  80,-11776 },
- {  81,-11776 }, {  82,-11776 }, {  83,-11776 }, {  84,-11776 }, {  85,-11776 },
- {  86,-11776 }, {  87,-11776 }, {  88,-11776 }, {  89,-11776 }, {  90,-11776 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11776 },
- {   0,   0 }, {  97,-11776 }, {  98,-11776 }, {  99,-11776 }, { 100,-11776 },
- { 101,-11776 }, { 102,-11776 }, { 103,-11776 }, { 104,-11776 }, { 105,-11776 },
- { 106,-11776 }, { 107,-11776 }, { 108,-11776 }, { 109,-11776 }, { 110,-11776 },
- { 111,-11776 }, { 112,-11776 }, { 113,-11776 }, { 114,-11776 }, { 115,-11776 },
- { 116,-11776 }, { 117,-11776 }, { 118,-11776 }, { 119,-11776 }, { 120,-11776 },
- { 121,-11776 }, { 122,-11776 }, {   0,   0 }, { 124,-11801 }, { 125,-339 },
-
- { 126,-339 }, { 127,-11776 }, { 128,-11776 }, { 129,-11776 }, { 130,-11776 },
- { 131,-11776 }, { 132,-11776 }, { 133,-11776 }, { 134,-11776 }, { 135,-11776 },
- { 136,-11776 }, { 137,-11776 }, { 138,-11776 }, { 139,-11776 }, { 140,-11776 },
- { 141,-11776 }, { 142,-11776 }, { 143,-11776 }, { 144,-11776 }, { 145,-11776 },
- { 146,-11776 }, { 147,-11776 }, { 148,-11776 }, { 149,-11776 }, { 150,-11776 },
- { 151,-11776 }, { 152,-11776 }, { 153,-11776 }, { 154,-11776 }, { 155,-11776 },
- { 156,-11776 }, { 157,-11776 }, { 158,-11776 }, { 159,-11776 }, { 160,-11776 },
- { 161,-11776 }, { 162,-11776 }, { 163,-11776 }, { 164,-11776 }, { 165,-11776 },
- { 166,-11776 }, { 167,-11776 }, { 168,-11776 }, { 169,-11776 }, { 170,-11776 },
- { 171,-11776 }, { 172,-11776 }, { 173,-11776 }, { 174,-11776 }, { 175,-11776 },
-
- { 176,-11776 }, { 177,-11776 }, { 178,-11776 }, { 179,-11776 }, { 180,-11776 },
- { 181,-11776 }, { 182,-11776 }, { 183,-11776 }, { 184,-11776 }, { 185,-11776 },
- { 186,-11776 }, { 187,-11776 }, { 188,-11776 }, { 189,-11776 }, { 190,-11776 },
- { 191,-11776 }, { 192,-11776 }, { 193,-11776 }, { 194,-11776 }, { 195,-11776 },
- { 196,-11776 }, { 197,-11776 }, { 198,-11776 }, { 199,-11776 }, { 200,-11776 },
- { 201,-11776 }, { 202,-11776 }, { 203,-11776 }, { 204,-11776 }, { 205,-11776 },
- { 206,-11776 }, { 207,-11776 }, { 208,-11776 }, { 209,-11776 }, { 210,-11776 },
- { 211,-11776 }, { 212,-11776 }, { 213,-11776 }, { 214,-11776 }, { 215,-11776 },
- { 216,-11776 }, { 217,-11776 }, { 218,-11776 }, { 219,-11776 }, { 220,-11776 },
- { 221,-11776 }, { 222,-11776 }, { 223,-11776 }, { 224,-11776 }, { 225,-11776 },
-
- { 226,-11776 }, { 227,-11776 }, { 228,-11776 }, { 229,-11776 }, { 230,-11776 },
- { 231,-11776 }, { 232,-11776 }, { 233,-11776 }, { 234,-11776 }, { 235,-11776 },
- { 236,-11776 }, { 237,-11776 }, { 238,-11776 }, { 239,-11776 }, { 240,-11776 },
- { 241,-11776 }, { 242,-11776 }, { 243,-11776 }, { 244,-11776 }, { 245,-11776 },
- { 246,-11776 }, { 247,-11776 }, { 248,-11776 }, { 249,-11776 }, { 250,-11776 },
- { 251,-11776 }, { 252,-11776 }, { 253,-11776 }, { 254,-11776 }, { 255,-11776 },
- { 256,-11776 }, { 257,  52 }, {   1,   0 },    };
+ {   0,   0 }, {  65,-13895 }, {  66,-13895 }, {  67,-13895 }, {  68,-13895 },
+ {  69,-13895 }, {  70,-13895 }, {  71,-13895 }, {  72,-13895 }, {  73,-13895 },
+ {  74,-13895 }, {  75,-13895 }, {  76,-13895 }, {  77,-13895 }, {  78,-13895 },
+ {  79,-13895 }, {  80,-13895 }, {  81,-13895 }, {  82,-13895 }, {  83,-13895 },
+ {  84,-13895 }, {  85,-13895 }, {  86,-13895 }, {  87,-13895 }, {  88,-13895 },
+ {  89,-13895 }, {  90,-13895 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-13895 }, {   0,   0 }, {  97,-13895 }, {  98,-13895 },
+ {  99,-13895 }, { 100,-13895 }, { 101, 402 }, { 102,-13895 }, { 103,-13895 },
+ { 104,-13895 }, { 105,-13895 }, { 106,-13895 }, { 107,-13895 }, { 108,-13895 },
+ { 109,-13895 }, { 110,-13895 }, { 111,-13895 }, { 112,-13895 }, { 113,-13895 },
+
+ { 114,-13895 }, { 115,-13895 }, { 116,-13895 }, { 117,-13895 }, { 118,-13895 },
+ { 119,-13895 }, { 120,-13895 }, { 121,-13895 }, { 122,-13895 }, {   0,   0 },
+ { 124,-14016 }, { 125,-14016 }, { 126,-14016 }, { 127,-13895 }, { 128,-13895 },
+ { 129,-13895 }, { 130,-13895 }, { 131,-13895 }, { 132,-13895 }, { 133,-13895 },
+ { 134,-13895 }, { 135,-13895 }, { 136,-13895 }, { 137,-13895 }, { 138,-13895 },
+ { 139,-13895 }, { 140,-13895 }, { 141,-13895 }, { 142,-13895 }, { 143,-13895 },
+ { 144,-13895 }, { 145,-13895 }, { 146,-13895 }, { 147,-13895 }, { 148,-13895 },
+ { 149,-13895 }, { 150,-13895 }, { 151,-13895 }, { 152,-13895 }, { 153,-13895 },
+ { 154,-13895 }, { 155,-13895 }, { 156,-13895 }, { 157,-13895 }, { 158,-13895 },
+ { 159,-13895 }, { 160,-13895 }, { 161,-13895 }, { 162,-13895 }, { 163,-13895 },
+
+ { 164,-13895 }, { 165,-13895 }, { 166,-13895 }, { 167,-13895 }, { 168,-13895 },
+ { 169,-13895 }, { 170,-13895 }, { 171,-13895 }, { 172,-13895 }, { 173,-13895 },
+ { 174,-13895 }, { 175,-13895 }, { 176,-13895 }, { 177,-13895 }, { 178,-13895 },
+ { 179,-13895 }, { 180,-13895 }, { 181,-13895 }, { 182,-13895 }, { 183,-13895 },
+ { 184,-13895 }, { 185,-13895 }, { 186,-13895 }, { 187,-13895 }, { 188,-13895 },
+ { 189,-13895 }, { 190,-13895 }, { 191,-13895 }, { 192,-13895 }, { 193,-13895 },
+ { 194,-13895 }, { 195,-13895 }, { 196,-13895 }, { 197,-13895 }, { 198,-13895 },
+ { 199,-13895 }, { 200,-13895 }, { 201,-13895 }, { 202,-13895 }, { 203,-13895 },
+ { 204,-13895 }, { 205,-13895 }, { 206,-13895 }, { 207,-13895 }, { 208,-13895 },
+ { 209,-13895 }, { 210,-13895 }, { 211,-13895 }, { 212,-13895 }, { 213,-13895 },
+
+ { 214,-13895 }, { 215,-13895 }, { 216,-13895 }, { 217,-13895 }, { 218,-13895 },
+ { 219,-13895 }, { 220,-13895 }, { 221,-13895 }, { 222,-13895 }, { 223,-13895 },
+ { 224,-13895 }, { 225,-13895 }, { 226,-13895 }, { 227,-13895 }, { 228,-13895 },
+ { 229,-13895 }, { 230,-13895 }, { 231,-13895 }, { 232,-13895 }, { 233,-13895 },
+ { 234,-13895 }, { 235,-13895 }, { 236,-13895 }, { 237,-13895 }, { 238,-13895 },
+ { 239,-13895 }, { 240,-13895 }, { 241,-13895 }, { 242,-13895 }, { 243,-13895 },
+ { 244,-13895 }, { 245,-13895 }, { 246,-13895 }, { 247,-13895 }, { 248,-13895 },
+ { 249,-13895 }, { 250,-13895 }, { 251,-13895 }, { 252,-13895 }, { 253,-13895 },
+ { 254,-13895 }, { 255,-13895 }, { 256,-13895 }, {   0,   0 }, {   0, 660 },
+ {   0,   0 }, {   0, 658 }, {   0,   0 }, {   0, 656 }, {   0,   0 },
+
+ {   0, 654 }, {   0,  25 }, {   0, 652 }, {   9,   2 }, {  10,   2 },
+ {   9,   0 }, {  10,   0 }, {  13,   2 }, {   0,   0 }, {  13,   0 },
+ {   0,   0 }, {   0, 643 }, {   0,  23 }, {   0, 641 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,   2 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0, 608 }, {   0,   0 }, {   0, 606 }, {   0,  45 },
+
+ {   0, 604 }, {   0,   9 }, {   0, 602 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 },
+ { 126,   6 }, { 125,   2 }, { 126,   4 }, { 125,  15 }, {   0,   0 },
+ { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,  35 }, {   0,   0 }, {   0, 516 }, {   1,-14297 },
+ {   2,-14297 }, {   3,-14297 }, {   4,-14297 }, {   5,-14297 }, {   6,-14297 },
+ {   7,-14297 }, {   8,-14297 }, {   9,-14418 }, {  10,-14418 }, {  11,-14297 },
+
+ {  12,-14297 }, {  13,-14418 }, {  14,-14297 }, {  15,-14297 }, {  16,-14297 },
+ {  17,-14297 }, {  18,-14297 }, {  19,-14297 }, {  20,-14297 }, {  21,-14297 },
+ {  22,-14297 }, {  23,-14297 }, {  24,-14297 }, {  25,-14297 }, {  26,-14297 },
+ {  27,-14297 }, {  28,-14297 }, {  29,-14297 }, {  30,-14297 }, {  31,-14297 },
+ {  32,-14418 }, { 125,   2 }, {   0,   0 }, { 125,   4 }, {  36,-14297 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-14418 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-14297 }, {  46,-14418 },
+ {  47,-14418 }, {  48,-14297 }, {  49,-14297 }, {  50,-14297 }, {  51,-14297 },
+ {  52,-14297 }, {  53,-14297 }, {  54,-14297 }, {  55,-14297 }, {  56,-14297 },
+ {  57,-14297 }, {  58,-14297 }, {   0,   0 }, {   0,   0 }, {  61,-14418 },
+
+ {   0,   0 }, {  63,-14297 }, {   0,   0 }, {  65,-14297 }, {  66,-14297 },
+ {  67,-14297 }, {  68,-14297 }, {  69,-14297 }, {  70,-14297 }, {  71,-14297 },
+ {  72,-14297 }, {  73,-14297 }, {  74,-14297 }, {  75,-14297 }, {  76,-14297 },
+ {  77,-14297 }, {  78,-14297 }, {  79,-14297 }, {  80,-14297 }, {  81,-14297 },
+ {  82,-14297 }, {  83,-14297 }, {  84,-14297 }, {  85,-14297 }, {  86,-14297 },
+ {  87,-14297 }, {  88,-14297 }, {  89,-14297 }, {  90,-14297 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-14297 }, {   0,   0 },
+ {  97,-14297 }, {  98,-14297 }, {  99,-14297 }, { 100, 258 }, { 101,-14297 },
+ { 102,-14297 }, { 103,-14297 }, { 104,-14297 }, { 105,-14297 }, { 106,-14297 },
+ { 107,-14297 }, { 108,-14297 }, { 109,-14297 }, { 110,-14297 }, { 111,-14297 },
+
+ { 112,-14297 }, { 113,-14297 }, { 114,-14297 }, { 115,-14297 }, { 116,-14297 },
+ { 117,-14297 }, { 118,-14297 }, { 119,-14297 }, { 120,-14297 }, { 121,-14297 },
+ { 122,-14297 }, {   0,   0 }, { 124,-14418 }, { 125,-14418 }, { 126,-14418 },
+ { 127,-14297 }, { 128,-14297 }, { 129,-14297 }, { 130,-14297 }, { 131,-14297 },
+ { 132,-14297 }, { 133,-14297 }, { 134,-14297 }, { 135,-14297 }, { 136,-14297 },
+ { 137,-14297 }, { 138,-14297 }, { 139,-14297 }, { 140,-14297 }, { 141,-14297 },
+ { 142,-14297 }, { 143,-14297 }, { 144,-14297 }, { 145,-14297 }, { 146,-14297 },
+ { 147,-14297 }, { 148,-14297 }, { 149,-14297 }, { 150,-14297 }, { 151,-14297 },
+ { 152,-14297 }, { 153,-14297 }, { 154,-14297 }, { 155,-14297 }, { 156,-14297 },
+ { 157,-14297 }, { 158,-14297 }, { 159,-14297 }, { 160,-14297 }, { 161,-14297 },
+
+ { 162,-14297 }, { 163,-14297 }, { 164,-14297 }, { 165,-14297 }, { 166,-14297 },
+ { 167,-14297 }, { 168,-14297 }, { 169,-14297 }, { 170,-14297 }, { 171,-14297 },
+ { 172,-14297 }, { 173,-14297 }, { 174,-14297 }, { 175,-14297 }, { 176,-14297 },
+ { 177,-14297 }, { 178,-14297 }, { 179,-14297 }, { 180,-14297 }, { 181,-14297 },
+ { 182,-14297 }, { 183,-14297 }, { 184,-14297 }, { 185,-14297 }, { 186,-14297 },
+ { 187,-14297 }, { 188,-14297 }, { 189,-14297 }, { 190,-14297 }, { 191,-14297 },
+ { 192,-14297 }, { 193,-14297 }, { 194,-14297 }, { 195,-14297 }, { 196,-14297 },
+ { 197,-14297 }, { 198,-14297 }, { 199,-14297 }, { 200,-14297 }, { 201,-14297 },
+ { 202,-14297 }, { 203,-14297 }, { 204,-14297 }, { 205,-14297 }, { 206,-14297 },
+ { 207,-14297 }, { 208,-14297 }, { 209,-14297 }, { 210,-14297 }, { 211,-14297 },
+
+ { 212,-14297 }, { 213,-14297 }, { 214,-14297 }, { 215,-14297 }, { 216,-14297 },
+ { 217,-14297 }, { 218,-14297 }, { 219,-14297 }, { 220,-14297 }, { 221,-14297 },
+ { 222,-14297 }, { 223,-14297 }, { 224,-14297 }, { 225,-14297 }, { 226,-14297 },
+ { 227,-14297 }, { 228,-14297 }, { 229,-14297 }, { 230,-14297 }, { 231,-14297 },
+ { 232,-14297 }, { 233,-14297 }, { 234,-14297 }, { 235,-14297 }, { 236,-14297 },
+ { 237,-14297 }, { 238,-14297 }, { 239,-14297 }, { 240,-14297 }, { 241,-14297 },
+ { 242,-14297 }, { 243,-14297 }, { 244,-14297 }, { 245,-14297 }, { 246,-14297 },
+ { 247,-14297 }, { 248,-14297 }, { 249,-14297 }, { 250,-14297 }, { 251,-14297 },
+ { 252,-14297 }, { 253,-14297 }, { 254,-14297 }, { 255,-14297 }, { 256,-14297 },
+ {   0,   0 }, {   0, 258 }, {   1,-14555 }, {   2,-14555 }, {   3,-14555 },
+
+ {   4,-14555 }, {   5,-14555 }, {   6,-14555 }, {   7,-14555 }, {   8,-14555 },
+ {   9,-346 }, {  10,-346 }, {  11,-14555 }, {  12,-14555 }, {  13,-346 },
+ {  14,-14555 }, {  15,-14555 }, {  16,-14555 }, {  17,-14555 }, {  18,-14555 },
+ {  19,-14555 }, {  20,-14555 }, {  21,-14555 }, {  22,-14555 }, {  23,-14555 },
+ {  24,-14555 }, {  25,-14555 }, {  26,-14555 }, {  27,-14555 }, {  28,-14555 },
+ {  29,-14555 }, {  30,-14555 }, {  31,-14555 }, {  32,-346 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-14555 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-346 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-14555 }, {  46,-14676 }, {  47,-14676 }, {  48,-14555 },
+ {  49,-14555 }, {  50,-14555 }, {  51,-14555 }, {  52,-14555 }, {  53,-14555 },
+
+ {  54,-14555 }, {  55,-14555 }, {  56,-14555 }, {  57,-14555 }, {  58,-14555 },
+ {   0,   0 }, {   0,   0 }, {  61,-14676 }, {   0,   0 }, {  63,-14555 },
+ {   0,   0 }, {  65,-14555 }, {  66,-14555 }, {  67,-14555 }, {  68,-14555 },
+ {  69,-14555 }, {  70,-14555 }, {  71,-14555 }, {  72,-14555 }, {  73,-14555 },
+ {  74,-14555 }, {  75,-14555 }, {  76,-14555 }, {  77,-14555 }, {  78,-14555 },
+ {  79,-14555 }, {  80,-14555 }, {  81,-14555 }, {  82,-14555 }, {  83,-14555 },
+ {  84,-14555 }, {  85,-14555 }, {  86,-14555 }, {  87,-14555 }, {  88,-14555 },
+ {  89,-14555 }, {  90,-14555 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-14555 }, {   0,   0 }, {  97,-14555 }, {  98,-14555 },
+ {  99,-14555 }, { 100,-14555 }, { 101,-14555 }, { 102,-14555 }, { 103,-14555 },
+
+ { 104,-14555 }, { 105,-14555 }, { 106,-14555 }, { 107,-14555 }, { 108,-14555 },
+ { 109,-14555 }, { 110,-14555 }, { 111,-14555 }, { 112,-14555 }, { 113,-14555 },
+ { 114,-14555 }, { 115,-14555 }, { 116,-14555 }, { 117,-14555 }, { 118,-14555 },
+ { 119,-14555 }, { 120,-14555 }, { 121,-14555 }, { 122,-14555 }, {   0,   0 },
+ { 124,-14676 }, { 125,-346 }, { 126,-346 }, { 127,-14555 }, { 128,-14555 },
+ { 129,-14555 }, { 130,-14555 }, { 131,-14555 }, { 132,-14555 }, { 133,-14555 },
+ { 134,-14555 }, { 135,-14555 }, { 136,-14555 }, { 137,-14555 }, { 138,-14555 },
+ { 139,-14555 }, { 140,-14555 }, { 141,-14555 }, { 142,-14555 }, { 143,-14555 },
+ { 144,-14555 }, { 145,-14555 }, { 146,-14555 }, { 147,-14555 }, { 148,-14555 },
+ { 149,-14555 }, { 150,-14555 }, { 151,-14555 }, { 152,-14555 }, { 153,-14555 },
+
+ { 154,-14555 }, { 155,-14555 }, { 156,-14555 }, { 157,-14555 }, { 158,-14555 },
+ { 159,-14555 }, { 160,-14555 }, { 161,-14555 }, { 162,-14555 }, { 163,-14555 },
+ { 164,-14555 }, { 165,-14555 }, { 166,-14555 }, { 167,-14555 }, { 168,-14555 },
+ { 169,-14555 }, { 170,-14555 }, { 171,-14555 }, { 172,-14555 }, { 173,-14555 },
+ { 174,-14555 }, { 175,-14555 }, { 176,-14555 }, { 177,-14555 }, { 178,-14555 },
+ { 179,-14555 }, { 180,-14555 }, { 181,-14555 }, { 182,-14555 }, { 183,-14555 },
+ { 184,-14555 }, { 185,-14555 }, { 186,-14555 }, { 187,-14555 }, { 188,-14555 },
+ { 189,-14555 }, { 190,-14555 }, { 191,-14555 }, { 192,-14555 }, { 193,-14555 },
+ { 194,-14555 }, { 195,-14555 }, { 196,-14555 }, { 197,-14555 }, { 198,-14555 },
+ { 199,-14555 }, { 200,-14555 }, { 201,-14555 }, { 202,-14555 }, { 203,-14555 },
+
+ { 204,-14555 }, { 205,-14555 }, { 206,-14555 }, { 207,-14555 }, { 208,-14555 },
+ { 209,-14555 }, { 210,-14555 }, { 211,-14555 }, { 212,-14555 }, { 213,-14555 },
+ { 214,-14555 }, { 215,-14555 }, { 216,-14555 }, { 217,-14555 }, { 218,-14555 },
+ { 219,-14555 }, { 220,-14555 }, { 221,-14555 }, { 222,-14555 }, { 223,-14555 },
+ { 224,-14555 }, { 225,-14555 }, { 226,-14555 }, { 227,-14555 }, { 228,-14555 },
+ { 229,-14555 }, { 230,-14555 }, { 231,-14555 }, { 232,-14555 }, { 233,-14555 },
+ { 234,-14555 }, { 235,-14555 }, { 236,-14555 }, { 237,-14555 }, { 238,-14555 },
+ { 239,-14555 }, { 240,-14555 }, { 241,-14555 }, { 242,-14555 }, { 243,-14555 },
+ { 244,-14555 }, { 245,-14555 }, { 246,-14555 }, { 247,-14555 }, { 248,-14555 },
+ { 249,-14555 }, { 250,-14555 }, { 251,-14555 }, { 252,-14555 }, { 253,-14555 },
+
+ { 254,-14555 }, { 255,-14555 }, { 256,-14555 }, { 257,  52 }, {   1,   0 },
+    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -4991,7 +5712,6 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     &yy_transition[2325],
     &yy_transition[2583],
     &yy_transition[2841],
-
     } ;
 
 /* Table of booleans, true if rule could match eol. */
@@ -5101,9 +5821,9 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5104 "handlebars.lex.c"
+#line 5824 "handlebars.lex.c"
 
-#line 5106 "handlebars.lex.c"
+#line 5826 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5382,11 +6102,11 @@ YY_DECL
 		}
 
 	{
-#line 137 "handlebars.l"
+#line 141 "handlebars.l"
 
 
 
-#line 5389 "handlebars.lex.c"
+#line 6109 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5453,7 +6173,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 140 "handlebars.l"
+#line 144 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -5466,7 +6186,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 149 "handlebars.l"
+#line 153 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -5475,7 +6195,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 155 "handlebars.l"
+#line 159 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -5490,7 +6210,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 166 "handlebars.l"
+#line 170 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -5501,7 +6221,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 174 "handlebars.l"
+#line 178 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -5510,7 +6230,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 180 "handlebars.l"
+#line 184 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5518,7 +6238,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 185 "handlebars.l"
+#line 189 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -5532,7 +6252,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 191 "handlebars.l"
+#line 195 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -5541,7 +6261,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 197 "handlebars.l"
+#line 201 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5559,7 +6279,7 @@ YY_RULE_SETUP
 case 10:
 /* rule 10 can match eol */
 YY_RULE_SETUP
-#line 211 "handlebars.l"
+#line 215 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -5568,7 +6288,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 217 "handlebars.l"
+#line 221 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5577,7 +6297,7 @@ YY_RULE_SETUP
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 222 "handlebars.l"
+#line 226 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5590,7 +6310,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 231 "handlebars.l"
+#line 235 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5600,7 +6320,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 238 "handlebars.l"
+#line 242 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
@@ -5609,7 +6329,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 244 "handlebars.l"
+#line 248 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
@@ -5618,7 +6338,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 250 "handlebars.l"
+#line 254 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
@@ -5627,7 +6347,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 256 "handlebars.l"
+#line 260 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5638,7 +6358,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 264 "handlebars.l"
+#line 268 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
@@ -5647,7 +6367,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 270 "handlebars.l"
+#line 274 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5656,7 +6376,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 276 "handlebars.l"
+#line 280 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
@@ -5665,7 +6385,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 282 "handlebars.l"
+#line 286 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
@@ -5674,7 +6394,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 288 "handlebars.l"
+#line 292 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5685,7 +6405,7 @@ YY_RULE_SETUP
 case 23:
 /* rule 23 can match eol */
 YY_RULE_SETUP
-#line 295 "handlebars.l"
+#line 299 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -5695,7 +6415,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 302 "handlebars.l"
+#line 306 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
@@ -5704,7 +6424,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 308 "handlebars.l"
+#line 312 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
@@ -5713,7 +6433,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 314 "handlebars.l"
+#line 318 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
@@ -5722,7 +6442,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 320 "handlebars.l"
+#line 324 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
@@ -5731,7 +6451,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 326 "handlebars.l"
+#line 330 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -5741,7 +6461,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 333 "handlebars.l"
+#line 337 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -5751,7 +6471,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 340 "handlebars.l"
+#line 344 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
@@ -5760,7 +6480,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 346 "handlebars.l"
+#line 350 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5769,7 +6489,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 352 "handlebars.l"
+#line 356 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
@@ -5783,7 +6503,7 @@ YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 358 "handlebars.l"
+#line 362 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
@@ -5792,7 +6512,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 364 "handlebars.l"
+#line 368 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
@@ -5802,7 +6522,7 @@ YY_RULE_SETUP
 case 35:
 /* rule 35 can match eol */
 YY_RULE_SETUP
-#line 370 "handlebars.l"
+#line 374 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
@@ -5810,7 +6530,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 375 "handlebars.l"
+#line 379 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -5820,7 +6540,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 382 "handlebars.l"
+#line 386 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -5831,7 +6551,7 @@ YY_RULE_SETUP
 case 38:
 /* rule 38 can match eol */
 YY_RULE_SETUP
-#line 389 "handlebars.l"
+#line 393 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -5844,7 +6564,7 @@ YY_RULE_SETUP
 case 39:
 /* rule 39 can match eol */
 YY_RULE_SETUP
-#line 398 "handlebars.l"
+#line 402 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -5856,7 +6576,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 407 "handlebars.l"
+#line 411 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
@@ -5866,7 +6586,7 @@ YY_RULE_SETUP
 case 41:
 /* rule 41 can match eol */
 YY_RULE_SETUP
-#line 413 "handlebars.l"
+#line 417 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
@@ -5875,7 +6595,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 419 "handlebars.l"
+#line 423 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
@@ -5889,7 +6609,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 425 "handlebars.l"
+#line 429 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
@@ -5903,7 +6623,7 @@ YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 431 "handlebars.l"
+#line 435 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
@@ -5917,7 +6637,7 @@ YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 437 "handlebars.l"
+#line 441 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
@@ -5931,7 +6651,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 443 "handlebars.l"
+#line 447 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
@@ -5945,7 +6665,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 449 "handlebars.l"
+#line 453 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
@@ -5959,7 +6679,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 456 "handlebars.l"
+#line 460 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
@@ -5969,7 +6689,7 @@ YY_RULE_SETUP
 case 49:
 /* rule 49 can match eol */
 YY_RULE_SETUP
-#line 462 "handlebars.l"
+#line 466 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -5982,7 +6702,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 472 "handlebars.l"
+#line 476 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -5995,7 +6715,7 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 478 "handlebars.l"
+#line 482 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
@@ -6003,10 +6723,10 @@ case YY_STATE_EOF(raw):
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 483 "handlebars.l"
+#line 487 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6009 "handlebars.lex.c"
+#line 6729 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7214,6 +7934,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 483 "handlebars.l"
+#line 487 "handlebars.l"
 
 
-- 
2.43.0


From fcc4adad12bd698fb42833360c4b46308cca3c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:35 +0000
Subject: [PATCH 41/99] fix: an unclosed comment is an error

The rest of the template was dropped silently.
---
 src/handlebars.l     |   4 +
 src/handlebars.lex.c | 314 ++++++++++++++++++++++---------------------
 2 files changed, 165 insertions(+), 153 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 7924f12..d7adf49 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -239,6 +239,10 @@ BLOCKPARAM [\x7C]
   										return COMMENT;
 									}
 
+<com,com1>.|\n                       {
+										return INVALID;
+									}
+
 <mu>"("                          	{
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 7d4abce..4249e4a 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -592,8 +592,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 struct yy_trans_info
 	{
 	flex_int32_t yy_verify;
@@ -1340,12 +1340,12 @@ static const struct yy_trans_info yy_transition[23409] =
 
  { 251,4852 }, { 252,4852 }, { 253,4852 }, { 254,4852 }, { 255,4852 },
  {   0,   2 }, {   0,19798 }, {   0,   6 }, {   0,19796 }, {   0,   6 },
- {   0,19794 }, {   0,  51 }, {   0,19792 }, {   0,  35 }, {   0,19790 },
+ {   0,19794 }, {   0,  52 }, {   0,19792 }, {   0,  36 }, {   0,19790 },
  {   0,   0 }, {  10,4852 }, {   0,   0 }, {   0,   0 }, {  13,4852 },
- {   0,  35 }, {   0,19783 }, {   0,   0 }, {   9,4859 }, {  10,4859 },
- {   0,  50 }, {   0,19778 }, {  13,4859 }, {   0,  14 }, {   0,19775 },
- {   9,4852 }, {  10,4852 }, {   0,  15 }, {   0,19771 }, {  13,4852 },
- {   0,  34 }, {   0,19768 }, {   0,  31 }, {   0,19766 }, {   0,  40 },
+ {   0,  36 }, {   0,19783 }, {   0,   0 }, {   9,4859 }, {  10,4859 },
+ {   0,  51 }, {   0,19778 }, {  13,4859 }, {   0,  15 }, {   0,19775 },
+ {   9,4852 }, {  10,4852 }, {   0,  16 }, {   0,19771 }, {  13,4852 },
+ {   0,  35 }, {   0,19768 }, {   0,  32 }, {   0,19766 }, {   0,  41 },
  {   0,19764 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4859 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 240,4466 }, { 241,4466 }, { 242,4466 }, { 243,4466 }, { 244,4466 },
  { 245,4466 }, { 246,4466 }, { 247,4466 }, { 248,4466 }, { 249,4466 },
  { 250,4466 }, { 251,4466 }, { 252,4466 }, { 253,4466 }, { 254,4466 },
- { 255,4466 }, {   0,  50 }, {   0,19412 }, {   1,4599 }, {   2,4599 },
+ { 255,4466 }, {   0,  51 }, {   0,19412 }, {   1,4599 }, {   2,4599 },
  {   3,4599 }, {   4,4599 }, {   5,4599 }, {   6,4599 }, {   7,4599 },
 
  {   8,4599 }, {   9,4478 }, {  10,4478 }, {  11,4599 }, {  12,4599 },
@@ -1479,7 +1479,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 238,4599 }, { 239,4599 }, { 240,4599 }, { 241,4599 }, { 242,4599 },
  { 243,4599 }, { 244,4599 }, { 245,4599 }, { 246,4599 }, { 247,4599 },
  { 248,4599 }, { 249,4599 }, { 250,4599 }, { 251,4599 }, { 252,4599 },
- { 253,4599 }, { 254,4599 }, { 255,4599 }, { 256,4599 }, {   0,  50 },
+ { 253,4599 }, { 254,4599 }, { 255,4599 }, { 256,4599 }, {   0,  51 },
 
  {   0,19154 }, {   1,4599 }, {   2,4599 }, {   3,4599 }, {   4,4599 },
  {   5,4599 }, {   6,4599 }, {   7,4599 }, {   8,4599 }, {   9,4599 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 245,4599 }, { 246,4599 }, { 247,4599 }, { 248,4599 }, { 249,4599 },
 
  { 250,4599 }, { 251,4599 }, { 252,4599 }, { 253,4599 }, { 254,4599 },
- { 255,4599 }, { 256,4599 }, {   0,  50 }, {   0,18896 }, {   1,4857 },
+ { 255,4599 }, { 256,4599 }, {   0,  51 }, {   0,18896 }, {   1,4857 },
  {   2,4857 }, {   3,4857 }, {   4,4857 }, {   5,4857 }, {   6,4857 },
  {   7,4857 }, {   8,4857 }, {   9,4857 }, {  10,4857 }, {  11,4857 },
  {  12,4857 }, {  13,4857 }, {  14,4857 }, {  15,4857 }, {  16,4857 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 242,4857 }, { 243,4857 }, { 244,4857 }, { 245,4857 }, { 246,4857 },
  { 247,4857 }, { 248,4857 }, { 249,4857 }, { 250,4857 }, { 251,4857 },
  { 252,4857 }, { 253,4857 }, { 254,4857 }, { 255,4857 }, { 256,4857 },
- {   0,  50 }, {   0,18638 }, {   1,3825 }, {   2,3825 }, {   3,3825 },
+ {   0,  51 }, {   0,18638 }, {   1,3825 }, {   2,3825 }, {   3,3825 },
  {   4,3825 }, {   5,3825 }, {   6,3825 }, {   7,3825 }, {   8,3825 },
  {   9,3704 }, {  10,3704 }, {  11,3825 }, {  12,3825 }, {  13,3704 },
  {  14,3825 }, {  15,3825 }, {  16,3825 }, {  17,3825 }, {  18,3825 },
@@ -1650,18 +1650,18 @@ static const struct yy_trans_info yy_transition[23409] =
  { 239,3825 }, { 240,3825 }, { 241,3825 }, { 242,3825 }, { 243,3825 },
  { 244,3825 }, { 245,3825 }, { 246,3825 }, { 247,3825 }, { 248,3825 },
  { 249,3825 }, { 250,3825 }, { 251,3825 }, { 252,3825 }, { 253,3825 },
- { 254,3825 }, { 255,3825 }, { 256,3825 }, {   0,  34 }, {   0,18380 },
+ { 254,3825 }, { 255,3825 }, { 256,3825 }, {   0,  35 }, {   0,18380 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3455 }, {  10,3455 },
  {   0,   0 }, {   0,   0 }, {  13,3455 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,18362 }, {   0,  42 }, {   0,18360 },
+ {   0,   0 }, {   0,  51 }, {   0,18362 }, {   0,  43 }, {   0,18360 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3455 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3455 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3457 }, {  47,3455 }, {   0,  50 }, {   0,18331 }, {   0,  50 },
+ {  46,3457 }, {  47,3455 }, {   0,  51 }, {   0,18331 }, {   0,  51 },
  {   0,18329 }, {   0,   7 }, {   0,18327 }, {   0,  11 }, {   0,18325 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3455 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -1669,7 +1669,7 @@ static const struct yy_trans_info yy_transition[23409] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,18298 }, {   1,3485 }, {   2,3485 }, {   3,3485 },
+ {   0,  51 }, {   0,18298 }, {   1,3485 }, {   2,3485 }, {   3,3485 },
  {   4,3485 }, {   5,3485 }, {   6,3485 }, {   7,3485 }, {   8,3485 },
  {   9,3379 }, {  10,3379 }, {  11,3485 }, {  12,3485 }, {  13,3379 },
  {  14,3485 }, {  15,3485 }, {  16,3485 }, {  17,3485 }, {  18,3485 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[23409] =
 
  { 244,3485 }, { 245,3485 }, { 246,3485 }, { 247,3485 }, { 248,3485 },
  { 249,3485 }, { 250,3485 }, { 251,3485 }, { 252,3485 }, { 253,3485 },
- { 254,3485 }, { 255,3485 }, { 256,3485 }, {   0,  50 }, {   0,18040 },
+ { 254,3485 }, { 255,3485 }, { 256,3485 }, {   0,  51 }, {   0,18040 },
  {   1,4834 }, {   2,4834 }, {   3,4834 }, {   4,4834 }, {   5,4834 },
  {   6,4834 }, {   7,4834 }, {   8,4834 }, {   9,4834 }, {  10,4834 },
  {  11,4834 }, {  12,4834 }, {  13,4834 }, {  14,4834 }, {  15,4834 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 241,4834 }, { 242,4834 }, { 243,4834 }, { 244,4834 }, { 245,4834 },
  { 246,4834 }, { 247,4834 }, { 248,4834 }, { 249,4834 }, { 250,4834 },
  { 251,4834 }, { 252,4834 }, { 253,4834 }, { 254,4834 }, { 255,4834 },
- { 256,4834 }, {   0,  50 }, {   0,17782 }, {   1,2969 }, {   2,2969 },
+ { 256,4834 }, {   0,  51 }, {   0,17782 }, {   1,2969 }, {   2,2969 },
  {   3,2969 }, {   4,2969 }, {   5,2969 }, {   6,2969 }, {   7,2969 },
  {   8,2969 }, {   9,2848 }, {  10,2848 }, {  11,2969 }, {  12,2969 },
  {  13,2848 }, {  14,2969 }, {  15,2969 }, {  16,2969 }, {  17,2969 },
@@ -1838,7 +1838,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 238,2969 }, { 239,2969 }, { 240,2969 }, { 241,2969 }, { 242,2969 },
  { 243,2969 }, { 244,2969 }, { 245,2969 }, { 246,2969 }, { 247,2969 },
  { 248,2969 }, { 249,2969 }, { 250,2969 }, { 251,2969 }, { 252,2969 },
- { 253,2969 }, { 254,2969 }, { 255,2969 }, { 256,2969 }, {   0,  50 },
+ { 253,2969 }, { 254,2969 }, { 255,2969 }, { 256,2969 }, {   0,  51 },
  {   0,17524 }, {   1,2711 }, {   2,2711 }, {   3,2711 }, {   4,2711 },
  {   5,2711 }, {   6,2711 }, {   7,2711 }, {   8,2711 }, {   9,2590 },
  {  10,2590 }, {  11,2711 }, {  12,2711 }, {  13,2590 }, {  14,2711 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 240,2711 }, { 241,2711 }, { 242,2711 }, { 243,2711 }, { 244,2711 },
  { 245,2711 }, { 246,2711 }, { 247,2711 }, { 248,2711 }, { 249,2711 },
  { 250,2711 }, { 251,2711 }, { 252,2711 }, { 253,2711 }, { 254,2711 },
- { 255,2711 }, { 256,2711 }, {   0,  50 }, {   0,17266 }, {   1,2453 },
+ { 255,2711 }, { 256,2711 }, {   0,  51 }, {   0,17266 }, {   1,2453 },
  {   2,2453 }, {   3,2453 }, {   4,2453 }, {   5,2453 }, {   6,2453 },
  {   7,2453 }, {   8,2453 }, {   9,2332 }, {  10,2332 }, {  11,2453 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 242,2453 }, { 243,2453 }, { 244,2453 }, { 245,2453 }, { 246,2453 },
  { 247,2453 }, { 248,2453 }, { 249,2453 }, { 250,2453 }, { 251,2453 },
  { 252,2453 }, { 253,2453 }, { 254,2453 }, { 255,2453 }, { 256,2453 },
- {   0,  50 }, {   0,17008 }, {   1,2195 }, {   2,2195 }, {   3,2195 },
+ {   0,  51 }, {   0,17008 }, {   1,2195 }, {   2,2195 }, {   3,2195 },
 
  {   4,2195 }, {   5,2195 }, {   6,2195 }, {   7,2195 }, {   8,2195 },
  {   9,2074 }, {  10,2074 }, {  11,2195 }, {  12,2195 }, {  13,2074 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 244,2195 }, { 245,2195 }, { 246,2195 }, { 247,2195 }, { 248,2195 },
  { 249,2195 }, { 250,2195 }, { 251,2195 }, { 252,2195 }, { 253,2195 },
 
- { 254,2195 }, { 255,2195 }, { 256,2195 }, {   0,  50 }, {   0,16750 },
+ { 254,2195 }, { 255,2195 }, { 256,2195 }, {   0,  51 }, {   0,16750 },
  {   1,1937 }, {   2,1937 }, {   3,1937 }, {   4,1937 }, {   5,1937 },
  {   6,1937 }, {   7,1937 }, {   8,1937 }, {   9,1816 }, {  10,1816 },
  {  11,1937 }, {  12,1937 }, {  13,1816 }, {  14,1937 }, {  15,1937 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[23409] =
 
  { 246,1937 }, { 247,1937 }, { 248,1937 }, { 249,1937 }, { 250,1937 },
  { 251,1937 }, { 252,1937 }, { 253,1937 }, { 254,1937 }, { 255,1937 },
- { 256,1937 }, {   0,  51 }, {   0,16492 }, {   1,5220 }, {   2,5220 },
+ { 256,1937 }, {   0,  14 }, {   0,16492 }, {   1,5220 }, {   2,5220 },
  {   3,5220 }, {   4,5220 }, {   5,5220 }, {   6,5220 }, {   7,5220 },
  {   8,5220 }, {   9,5220 }, {  10,5220 }, {  11,5220 }, {  12,5220 },
  {  13,5220 }, {  14,5220 }, {  15,5220 }, {  16,5220 }, {  17,5220 },
@@ -2122,7 +2122,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 238,5220 }, { 239,5220 }, { 240,5220 }, { 241,5220 }, { 242,5220 },
  { 243,5220 }, { 244,5220 }, { 245,5220 }, { 246,5220 }, { 247,5220 },
  { 248,5220 }, { 249,5220 }, { 250,5220 }, { 251,5220 }, { 252,5220 },
- { 253,5220 }, { 254,5220 }, { 255,5220 }, { 256,5220 }, {   0,  51 },
+ { 253,5220 }, { 254,5220 }, { 255,5220 }, { 256,5220 }, {   0,  14 },
  {   0,16234 }, {   1,4962 }, {   2,4962 }, {   3,4962 }, {   4,4962 },
  {   5,4962 }, {   6,4962 }, {   7,4962 }, {   8,4962 }, {   9,4962 },
  {  10,4962 }, {  11,4962 }, {  12,4962 }, {  13,4962 }, {  14,4962 },
@@ -2179,7 +2179,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 240,4962 }, { 241,4962 }, { 242,4962 }, { 243,4962 }, { 244,4962 },
  { 245,4962 }, { 246,4962 }, { 247,4962 }, { 248,4962 }, { 249,4962 },
  { 250,4962 }, { 251,4962 }, { 252,4962 }, { 253,4962 }, { 254,4962 },
- { 255,4962 }, { 256,4962 }, {   0,  51 }, {   0,15976 }, {   1,5478 },
+ { 255,4962 }, { 256,4962 }, {   0,  14 }, {   0,15976 }, {   1,5478 },
  {   2,5478 }, {   3,5478 }, {   4,5478 }, {   5,5478 }, {   6,5478 },
  {   7,5478 }, {   8,5478 }, {   9,5478 }, {  10,5478 }, {  11,5478 },
  {  12,5478 }, {  13,5478 }, {  14,5478 }, {  15,5478 }, {  16,5478 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 242,5478 }, { 243,5478 }, { 244,5478 }, { 245,5478 }, { 246,5478 },
  { 247,5478 }, { 248,5478 }, { 249,5478 }, { 250,5478 }, { 251,5478 },
  { 252,5478 }, { 253,5478 }, { 254,5478 }, { 255,5478 }, { 256,5478 },
- {   0,  51 }, {   0,15718 }, {   1,5220 }, {   2,5220 }, {   3,5220 },
+ {   0,  14 }, {   0,15718 }, {   1,5220 }, {   2,5220 }, {   3,5220 },
  {   4,5220 }, {   5,5220 }, {   6,5220 }, {   7,5220 }, {   8,5220 },
  {   9,5220 }, {  10,5220 }, {  11,5220 }, {  12,5220 }, {  13,5220 },
 
@@ -2408,13 +2408,13 @@ static const struct yy_trans_info yy_transition[23409] =
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
  { 254,   0 }, { 255,   0 }, {   0,   2 }, {   0,14946 }, {   0,   0 },
  {   0,14944 }, {   0,   0 }, {   0,14942 }, {   0,   0 }, {   0,14940 },
- {   0,   5 }, {   0,14938 }, {   0,   0 }, {  10,   0 }, {   0,  48 },
- {   0,14934 }, {  13,   0 }, {   0,  35 }, {   0,14931 }, {   0,  38 },
- {   0,14929 }, {   0,  39 }, {   0,14927 }, {   0,  33 }, {   0,14925 },
- {   0,  32 }, {   0,14923 }, {   9,   0 }, {  10,   0 }, {   0,  47 },
- {   0,14919 }, {  13,   0 }, {   0,  49 }, {   0,14916 }, {   0,   0 },
+ {   0,   5 }, {   0,14938 }, {   0,   0 }, {  10,   0 }, {   0,  49 },
+ {   0,14934 }, {  13,   0 }, {   0,  36 }, {   0,14931 }, {   0,  39 },
+ {   0,14929 }, {   0,  40 }, {   0,14927 }, {   0,  34 }, {   0,14925 },
+ {   0,  33 }, {   0,14923 }, {   9,   0 }, {  10,   0 }, {   0,  48 },
+ {   0,14919 }, {  13,   0 }, {   0,  50 }, {   0,14916 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  37 }, {   0,14905 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  38 }, {   0,14905 },
 
  {   0,   0 }, {   0,14903 }, {   0,   0 }, {   0,14901 }, {   0,   0 },
  {  32,   0 }, {   0,  13 }, {   0,14897 }, {   0,   0 }, {   0,   0 },
@@ -2422,7 +2422,7 @@ static const struct yy_trans_info yy_transition[23409] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,14877 }, {   0,   5 }, {   0,14875 },
- {   0,  48 }, {   0,14873 }, {   0,  29 }, {   0,14871 }, {   0,   0 },
+ {   0,  49 }, {   0,14873 }, {   0,  30 }, {   0,14871 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2775,7 +2775,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 239,-1290 }, { 240,-1290 }, { 241,-1290 }, { 242,-1290 }, { 243,-1290 },
  { 244,-1290 }, { 245,-1290 }, { 246,-1290 }, { 247,-1290 }, { 248,-1290 },
  { 249,-1290 }, { 250,-1290 }, { 251,-1290 }, { 252,-1290 }, { 253,-1290 },
- { 254,-1290 }, { 255,-1290 }, { 256,-1290 }, {   0,  48 }, {   0,13265 },
+ { 254,-1290 }, { 255,-1290 }, { 256,-1290 }, {   0,  49 }, {   0,13265 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -3186,10 +3186,10 @@ static const struct yy_trans_info yy_transition[23409] =
  { 244,-3155 }, { 245,-3155 }, { 246,-3155 }, { 247,-3155 }, { 248,-3155 },
  { 249,-3155 }, { 250,-3155 }, { 251,-3155 }, { 252,-3155 }, { 253,-3155 },
 
- { 254,-3155 }, { 255,-3155 }, { 256,-3155 }, {   0,  30 }, {   0,11400 },
- {   0,  20 }, {   0,11398 }, {   0,  27 }, {   0,11396 }, {   0,  30 },
- {   0,11394 }, {   0,  21 }, {   0,11392 }, {   9,3866 }, {  10,3866 },
- {   0,  18 }, {   0,11388 }, {  13,3866 }, {   0,   0 }, {   0,   0 },
+ { 254,-3155 }, { 255,-3155 }, { 256,-3155 }, {   0,  31 }, {   0,11400 },
+ {   0,  21 }, {   0,11398 }, {   0,  28 }, {   0,11396 }, {   0,  31 },
+ {   0,11394 }, {   0,  22 }, {   0,11392 }, {   9,3866 }, {  10,3866 },
+ {   0,  19 }, {   0,11388 }, {  13,3866 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3611,7 +3611,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 241,3496 }, { 242,3496 }, { 243,3496 }, { 244,3496 }, { 245,3496 },
  { 246,3496 }, { 247,3496 }, { 248,3496 }, { 249,3496 }, { 250,3496 },
  { 251,3496 }, { 252,3496 }, { 253,3496 }, { 254,3496 }, { 255,3496 },
- {   0,  38 }, {   0,9468 }, {   1,-5087 }, {   2,-5087 }, {   3,-5087 },
+ {   0,  39 }, {   0,9468 }, {   1,-5087 }, {   2,-5087 }, {   3,-5087 },
  {   4,-5087 }, {   5,-5087 }, {   6,-5087 }, {   7,-5087 }, {   8,-5087 },
  {   9,-5087 }, {  10,-5087 }, {  11,-5087 }, {  12,-5087 }, {  13,-5087 },
 
@@ -3667,7 +3667,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 239,-5087 }, { 240,-5087 }, { 241,-5087 }, { 242,-5087 }, { 243,-5087 },
  { 244,-5087 }, { 245,-5087 }, { 246,-5087 }, { 247,-5087 }, { 248,-5087 },
  { 249,-5087 }, { 250,-5087 }, { 251,-5087 }, { 252,-5087 }, { 253,-5087 },
- { 254,-5087 }, { 255,-5087 }, { 256,-5087 }, {   0,  39 }, {   0,9210 },
+ { 254,-5087 }, { 255,-5087 }, { 256,-5087 }, {   0,  40 }, {   0,9210 },
  {   1,-4829 }, {   2,-4829 }, {   3,-4829 }, {   4,-4829 }, {   5,-4829 },
 
  {   6,-4829 }, {   7,-4829 }, {   8,-4829 }, {   9,-4829 }, {  10,-4829 },
@@ -3752,7 +3752,7 @@ static const struct yy_trans_info yy_transition[23409] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,2602 }, { 126,2602 }, {   0,  49 },
+ {   0,   0 }, {   0,   0 }, { 125,2602 }, { 126,2602 }, {   0,  50 },
  {   0,8824 }, {   1,-4382 }, {   2,-4382 }, {   3,-4382 }, {   4,-4382 },
  {   5,-4382 }, {   6,-4382 }, {   7,-4382 }, {   8,-4382 }, {   9,-4382 },
  {  10,-4382 }, {  11,-4382 }, {  12,-4382 }, {  13,-4382 }, {  14,-4382 },
@@ -4037,10 +4037,10 @@ static const struct yy_trans_info yy_transition[23409] =
  { 243,-7021 }, { 244,-7021 }, { 245,-7021 }, { 246,-7021 }, { 247,-7021 },
  { 248,-7021 }, { 249,-7021 }, { 250,-7021 }, { 251,-7021 }, { 252,-7021 },
  { 253,-7021 }, { 254,-7021 }, { 255,-7021 }, { 256,-7021 }, {   0,   0 },
- {   0,7534 }, {   0,  24 }, {   0,7532 }, {   0,   0 }, {   0,7530 },
- {   0,   0 }, {   0,7528 }, {   0,  26 }, {   0,7526 }, {   9,   0 },
- {  10,   0 }, {   0,  36 }, {   0,7522 }, {  13,   0 }, {   0,  30 },
- {   0,7519 }, {   0,   0 }, {   0,7517 }, {   0,  37 }, {   0,7515 },
+ {   0,7534 }, {   0,  25 }, {   0,7532 }, {   0,   0 }, {   0,7530 },
+ {   0,   0 }, {   0,7528 }, {   0,  27 }, {   0,7526 }, {   9,   0 },
+ {  10,   0 }, {   0,  37 }, {   0,7522 }, {  13,   0 }, {   0,  31 },
+ {   0,7519 }, {   0,   0 }, {   0,7517 }, {   0,  38 }, {   0,7515 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9, -15 },
  {  10, -15 }, {   0,   0 }, {   0,   0 }, {  13, -15 }, {   0,   0 },
 
@@ -4297,10 +4297,10 @@ static const struct yy_trans_info yy_transition[23409] =
  { 252,-774 }, { 253,-774 }, { 254,-774 }, { 255,-774 }, { 256,-774 },
  {   0,   0 }, {   0,6358 }, {   0,   0 }, {   0,6356 }, {   0,   1 },
 
- {   0,6354 }, {   0,   4 }, {   0,6352 }, {   0,  47 }, {   0,6350 },
- {   0,  41 }, {   0,6348 }, {   0,   0 }, {   0,6346 }, {   0,   0 },
- {   0,6344 }, {   0,   0 }, {  10,   0 }, {   0,  20 }, {   0,6340 },
- {  13,   0 }, {   0,  19 }, {   0,6337 }, {   0,   0 }, {   0,   0 },
+ {   0,6354 }, {   0,   4 }, {   0,6352 }, {   0,  48 }, {   0,6350 },
+ {   0,  42 }, {   0,6348 }, {   0,   0 }, {   0,6346 }, {   0,   0 },
+ {   0,6344 }, {   0,   0 }, {  10,   0 }, {   0,  21 }, {   0,6340 },
+ {  13,   0 }, {   0,  20 }, {   0,6337 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4666,8 +4666,8 @@ static const struct yy_trans_info yy_transition[23409] =
  { 252,-9872 }, { 253,-9872 }, { 254,-9872 }, { 255,-9872 }, { 256,-9872 },
  {   0,   0 }, {   0,4683 }, {   0,   0 }, {   0,4681 }, {   0,   0 },
  {   0,4679 }, {   0,   0 }, {   0,4677 }, {   0,   0 }, {   0,4675 },
- {   0,  16 }, {   0,4673 }, {   0,  26 }, {   0,4671 }, {   0,  17 },
- {   0,4669 }, {   0,  36 }, {   0,4667 }, {   0,  12 }, {   0,4665 },
+ {   0,  17 }, {   0,4673 }, {   0,  27 }, {   0,4671 }, {   0,  18 },
+ {   0,4669 }, {   0,  37 }, {   0,4667 }, {   0,  12 }, {   0,4665 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -4920,7 +4920,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 244, 811 }, { 245, 811 }, { 246, 811 }, { 247, 811 }, { 248, 811 },
  { 249, 811 }, { 250, 811 }, { 251, 811 }, { 252, 811 }, { 253, 811 },
  { 254, 811 }, { 255, 811 }, { 256, 811 }, {   0,   1 }, {   0,3520 },
- {   0,   1 }, {   0,3518 }, {   0,  46 }, {   0,3516 }, {   0,  43 },
+ {   0,   1 }, {   0,3518 }, {   0,  47 }, {   0,3516 }, {   0,  44 },
  {   0,3514 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -5039,10 +5039,10 @@ static const struct yy_trans_info yy_transition[23409] =
  { 241,-11578 }, { 242,-11578 }, { 243,-11578 }, { 244,-11578 }, { 245,-11578 },
  { 246,-11578 }, { 247,-11578 }, { 248,-11578 }, { 249,-11578 }, { 250,-11578 },
  { 251,-11578 }, { 252,-11578 }, { 253,-11578 }, { 254,-11578 }, { 255,-11578 },
- { 256,-11578 }, {   0,   0 }, {   0,2977 }, {   0,  28 }, {   0,2975 },
- {   0,  22 }, {   0,2973 }, {   0,   0 }, {   0,2971 }, {   0,   0 },
+ { 256,-11578 }, {   0,   0 }, {   0,2977 }, {   0,  29 }, {   0,2975 },
+ {   0,  23 }, {   0,2973 }, {   0,   0 }, {   0,2971 }, {   0,   0 },
  {   0,2969 }, {   0,   8 }, {   0,2967 }, {   0,   1 }, {   0,2965 },
- {   0,  44 }, {   0,2963 }, {   0,   0 }, {   0,2961 }, {   0,   0 },
+ {   0,  45 }, {   0,2963 }, {   0,   0 }, {   0,2961 }, {   0,   0 },
  {   0,2959 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -5293,7 +5293,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 239,-12735 }, { 240,-12735 }, { 241,-12735 }, { 242,-12735 }, { 243,-12735 },
  { 244,-12735 }, { 245,-12735 }, { 246,-12735 }, { 247,-12735 }, { 248,-12735 },
  { 249,-12735 }, { 250,-12735 }, { 251,-12735 }, { 252,-12735 }, { 253,-12735 },
- { 254,-12735 }, { 255,-12735 }, { 256,-12735 }, {   0,  25 }, {   0,1820 },
+ { 254,-12735 }, { 255,-12735 }, { 256,-12735 }, {   0,  26 }, {   0,1820 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1162 }, {  10,1162 },
  {   0,   0 }, {   0,   0 }, {  13,1162 }, {   0,   0 }, {   0,   0 },
@@ -5551,16 +5551,16 @@ static const struct yy_trans_info yy_transition[23409] =
  { 254,-13895 }, { 255,-13895 }, { 256,-13895 }, {   0,   0 }, {   0, 660 },
  {   0,   0 }, {   0, 658 }, {   0,   0 }, {   0, 656 }, {   0,   0 },
 
- {   0, 654 }, {   0,  25 }, {   0, 652 }, {   9,   2 }, {  10,   2 },
+ {   0, 654 }, {   0,  26 }, {   0, 652 }, {   9,   2 }, {  10,   2 },
  {   9,   0 }, {  10,   0 }, {  13,   2 }, {   0,   0 }, {  13,   0 },
- {   0,   0 }, {   0, 643 }, {   0,  23 }, {   0, 641 }, {   0,   0 },
+ {   0,   0 }, {   0, 643 }, {   0,  24 }, {   0, 641 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,   2 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0, 608 }, {   0,   0 }, {   0, 606 }, {   0,  45 },
+ {   0,   0 }, {   0, 608 }, {   0,   0 }, {   0, 606 }, {   0,  46 },
 
  {   0, 604 }, {   0,   9 }, {   0, 602 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -5694,7 +5694,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 244,-14555 }, { 245,-14555 }, { 246,-14555 }, { 247,-14555 }, { 248,-14555 },
  { 249,-14555 }, { 250,-14555 }, { 251,-14555 }, { 252,-14555 }, { 253,-14555 },
 
- { 254,-14555 }, { 255,-14555 }, { 256,-14555 }, { 257,  52 }, {   1,   0 },
+ { 254,-14555 }, { 255,-14555 }, { 256,-14555 }, { 257,  53 }, {   1,   0 },
     };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
@@ -5715,11 +5715,11 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
-1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 
-    0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
+1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 
+    0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 
+    1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -6319,35 +6319,43 @@ YY_RULE_SETUP
 									}
 	YY_BREAK
 case 14:
+/* rule 14 can match eol */
 YY_RULE_SETUP
 #line 242 "handlebars.l"
+{
+										return INVALID;
+									}
+	YY_BREAK
+case 15:
+YY_RULE_SETUP
+#line 246 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
 										return OPEN_SEXPR;
 									}
 	YY_BREAK
-case 15:
+case 16:
 YY_RULE_SETUP
-#line 248 "handlebars.l"
+#line 252 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
 										return CLOSE_SEXPR;
 									}
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
-#line 254 "handlebars.l"
+#line 258 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
 										return OPEN_RAW_BLOCK;
 									}
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
-#line 260 "handlebars.l"
+#line 264 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -6356,45 +6364,45 @@ YY_RULE_SETUP
                                   		return CLOSE_RAW_BLOCK;
                              		}
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
-#line 268 "handlebars.l"
+#line 272 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL;
                              		}
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
-#line 274 "handlebars.l"
+#line 278 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL_BLOCK;
                              		}
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
-#line 280 "handlebars.l"
+#line 284 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK;
                              		}
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
-#line 286 "handlebars.l"
+#line 290 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
 										return OPEN_ENDBLOCK;
                              		}
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
-#line 292 "handlebars.l"
+#line 296 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -6402,10 +6410,10 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 23:
-/* rule 23 can match eol */
+case 24:
+/* rule 24 can match eol */
 YY_RULE_SETUP
-#line 299 "handlebars.l"
+#line 303 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -6413,45 +6421,45 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
-#line 306 "handlebars.l"
+#line 310 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE;
                              		}
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
-#line 312 "handlebars.l"
+#line 316 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
                              		}
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
-#line 318 "handlebars.l"
+#line 322 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
 										return OPEN_UNESCAPED;
                              		}
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
-#line 324 "handlebars.l"
+#line 328 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
 										return OPEN;
                              		}
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
-#line 330 "handlebars.l"
+#line 334 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -6459,9 +6467,9 @@ YY_RULE_SETUP
   										yy_push_state(com, yyscanner);
 									}
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
-#line 337 "handlebars.l"
+#line 341 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -6469,68 +6477,68 @@ YY_RULE_SETUP
   										yy_push_state(com1, yyscanner);
 									}
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
-#line 344 "handlebars.l"
+#line 348 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
 										return OPEN;
 									}
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
-#line 350 "handlebars.l"
+#line 354 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return EQUALS;
 									}
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
-#line 356 "handlebars.l"
+#line 360 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 33:
-/* rule 33 can match eol */
+case 34:
+/* rule 34 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 362 "handlebars.l"
+#line 366 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
-#line 368 "handlebars.l"
+#line 372 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
 										return SEP;
 									}
 	YY_BREAK
-case 35:
-/* rule 35 can match eol */
+case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
-#line 374 "handlebars.l"
+#line 378 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
                                  	}
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
-#line 379 "handlebars.l"
+#line 383 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -6538,9 +6546,9 @@ YY_RULE_SETUP
 										return CLOSE_UNESCAPED;
 									}
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
-#line 386 "handlebars.l"
+#line 390 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -6548,10 +6556,10 @@ YY_RULE_SETUP
 										return CLOSE;
 									}
 	YY_BREAK
-case 38:
-/* rule 38 can match eol */
+case 39:
+/* rule 39 can match eol */
 YY_RULE_SETUP
-#line 393 "handlebars.l"
+#line 397 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -6561,10 +6569,10 @@ YY_RULE_SETUP
                                    		return STRING;
                                  	}
 	YY_BREAK
-case 39:
-/* rule 39 can match eol */
+case 40:
+/* rule 40 can match eol */
 YY_RULE_SETUP
-#line 402 "handlebars.l"
+#line 406 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -6574,122 +6582,122 @@ YY_RULE_SETUP
 										return SINGLE_STRING;
                                 	}
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
-#line 411 "handlebars.l"
+#line 415 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
 										return DATA;
 									}
 	YY_BREAK
-case 41:
-/* rule 41 can match eol */
+case 42:
+/* rule 42 can match eol */
 YY_RULE_SETUP
-#line 417 "handlebars.l"
+#line 421 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 42:
+case 43:
 YY_RULE_SETUP
-#line 423 "handlebars.l"
+#line 427 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
 										return CLOSE_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 43:
-/* rule 43 can match eol */
+case 44:
+/* rule 44 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 429 "handlebars.l"
+#line 433 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 44:
-/* rule 44 can match eol */
+case 45:
+/* rule 45 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 435 "handlebars.l"
+#line 439 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 45:
-/* rule 45 can match eol */
+case 46:
+/* rule 46 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 441 "handlebars.l"
+#line 445 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
 										return UNDEFINED;
 									}
 	YY_BREAK
-case 46:
-/* rule 46 can match eol */
+case 47:
+/* rule 47 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 447 "handlebars.l"
+#line 451 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
 										return NUL;
 									}
 	YY_BREAK
-case 47:
-/* rule 47 can match eol */
+case 48:
+/* rule 48 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 453 "handlebars.l"
+#line 457 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
 										return NUMBER;
 									}
 	YY_BREAK
-case 48:
-/* rule 48 can match eol */
+case 49:
+/* rule 49 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 460 "handlebars.l"
+#line 464 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
-#line 466 "handlebars.l"
+#line 470 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -6700,9 +6708,9 @@ YY_RULE_SETUP
 										return ID;
 									}
 	YY_BREAK
-case 50:
+case 51:
 YY_RULE_SETUP
-#line 476 "handlebars.l"
+#line 480 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6715,18 +6723,18 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 482 "handlebars.l"
+#line 486 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
 									}
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
-#line 487 "handlebars.l"
+#line 491 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6729 "handlebars.lex.c"
+#line 6737 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7934,6 +7942,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 487 "handlebars.l"
+#line 491 "handlebars.l"
 
 
-- 
2.43.0


From 674917675896a68c6fdcbfa9aacaa65bd8098349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:35 +0000
Subject: [PATCH 42/99] fix: keep NUL bytes in the text of a template

They matched no rule and were dropped.
---
 src/handlebars.l     |    6 +-
 src/handlebars.lex.c | 8734 +++++++++++++++++++++---------------------
 2 files changed, 4392 insertions(+), 4348 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index d7adf49..b84daaf 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -75,7 +75,7 @@
 #define handlebars_yy_unput_n(n) \
 	do { \
 		int i; \
- 		char * yycopy = MC(handlebars_talloc_strndup(yyextra, yytext, yyleng)); \
+ 		char * yycopy = MC(talloc_memdup(yyextra, yytext, yyleng)); \
 		for ( i = yyleng - 1; i >= yyleng - n && i >= 0; --i ) { \
 			unput( yycopy[i] ); \
 		} \
@@ -125,7 +125,7 @@ MU \{\{\{?
 CMU \}\}\}?
 EMU \\\{\{\{?
 EEMU \\\\\{\{\{?
-CONTENT [^\x00\{\\\r\n]*[\r\n]*
+CONTENT [^\{\\\r\n]*[\r\n]*
 
 WHITESPACE [ \r\n\t]
 
@@ -212,7 +212,7 @@ BLOCKPARAM [\x7C]
 										}
                                  	}
 
-<raw>[^\x00{]+         	            {
+<raw>[^{]+         	            {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
 										return CONTENT;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 4249e4a..8055ae3 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -599,12 +599,12 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[23409] =
+static const struct yy_trans_info yy_transition[23608] =
     {
- {   0,   0 }, {   0,23153 }, {   0,   2 }, {   0,23151 }, {   1,3096 },
+ {   0,   0 }, {   0,23352 }, {   0,   2 }, {   0,23350 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
- {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
- {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
+ {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3354 }, {  11,3096 },
+ {  12,3096 }, {  13,3354 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
  {  17,3096 }, {  18,3096 }, {  19,3096 }, {  20,3096 }, {  21,3096 },
  {  22,3096 }, {  23,3096 }, {  24,3096 }, {  25,3096 }, {  26,3096 },
  {  27,3096 }, {  28,3096 }, {  29,3096 }, {  30,3096 }, {  31,3096 },
@@ -621,14 +621,14 @@ static const struct yy_trans_info yy_transition[23409] =
  {  77,3096 }, {  78,3096 }, {  79,3096 }, {  80,3096 }, {  81,3096 },
  {  82,3096 }, {  83,3096 }, {  84,3096 }, {  85,3096 }, {  86,3096 },
  {  87,3096 }, {  88,3096 }, {  89,3096 }, {  90,3096 }, {  91,3096 },
- {  92,3355 }, {  93,3096 }, {  94,3096 }, {  95,3096 }, {  96,3096 },
+ {  92,3356 }, {  93,3096 }, {  94,3096 }, {  95,3096 }, {  96,3096 },
 
  {  97,3096 }, {  98,3096 }, {  99,3096 }, { 100,3096 }, { 101,3096 },
  { 102,3096 }, { 103,3096 }, { 104,3096 }, { 105,3096 }, { 106,3096 },
  { 107,3096 }, { 108,3096 }, { 109,3096 }, { 110,3096 }, { 111,3096 },
  { 112,3096 }, { 113,3096 }, { 114,3096 }, { 115,3096 }, { 116,3096 },
  { 117,3096 }, { 118,3096 }, { 119,3096 }, { 120,3096 }, { 121,3096 },
- { 122,3096 }, { 123,3357 }, { 124,3096 }, { 125,3482 }, { 126,3096 },
+ { 122,3096 }, { 123,3358 }, { 124,3096 }, { 125,3483 }, { 126,3096 },
  { 127,3096 }, { 128,3096 }, { 129,3096 }, { 130,3096 }, { 131,3096 },
  { 132,3096 }, { 133,3096 }, { 134,3096 }, { 135,3096 }, { 136,3096 },
  { 137,3096 }, { 138,3096 }, { 139,3096 }, { 140,3096 }, { 141,3096 },
@@ -657,10 +657,10 @@ static const struct yy_trans_info yy_transition[23409] =
  { 242,3096 }, { 243,3096 }, { 244,3096 }, { 245,3096 }, { 246,3096 },
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
- { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,22893 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3096 },
+ {   0,   2 }, {   0,23092 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
- {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
+ {   9,2838 }, {  10,3096 }, {  11,2838 }, {  12,2838 }, {  13,3096 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
  {  19,2838 }, {  20,2838 }, {  21,2838 }, {  22,2838 }, {  23,2838 },
  {  24,2838 }, {  25,2838 }, {  26,2838 }, {  27,2838 }, {  28,2838 },
@@ -678,14 +678,14 @@ static const struct yy_trans_info yy_transition[23409] =
  {  79,2838 }, {  80,2838 }, {  81,2838 }, {  82,2838 }, {  83,2838 },
  {  84,2838 }, {  85,2838 }, {  86,2838 }, {  87,2838 }, {  88,2838 },
 
- {  89,2838 }, {  90,2838 }, {  91,2838 }, {  92,3097 }, {  93,2838 },
+ {  89,2838 }, {  90,2838 }, {  91,2838 }, {  92,3098 }, {  93,2838 },
  {  94,2838 }, {  95,2838 }, {  96,2838 }, {  97,2838 }, {  98,2838 },
  {  99,2838 }, { 100,2838 }, { 101,2838 }, { 102,2838 }, { 103,2838 },
  { 104,2838 }, { 105,2838 }, { 106,2838 }, { 107,2838 }, { 108,2838 },
  { 109,2838 }, { 110,2838 }, { 111,2838 }, { 112,2838 }, { 113,2838 },
  { 114,2838 }, { 115,2838 }, { 116,2838 }, { 117,2838 }, { 118,2838 },
- { 119,2838 }, { 120,2838 }, { 121,2838 }, { 122,2838 }, { 123,3099 },
- { 124,2838 }, { 125,3224 }, { 126,2838 }, { 127,2838 }, { 128,2838 },
+ { 119,2838 }, { 120,2838 }, { 121,2838 }, { 122,2838 }, { 123,3100 },
+ { 124,2838 }, { 125,3225 }, { 126,2838 }, { 127,2838 }, { 128,2838 },
  { 129,2838 }, { 130,2838 }, { 131,2838 }, { 132,2838 }, { 133,2838 },
  { 134,2838 }, { 135,2838 }, { 136,2838 }, { 137,2838 }, { 138,2838 },
 
@@ -714,1907 +714,1807 @@ static const struct yy_trans_info yy_transition[23409] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,22635 },
- {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
- {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
- {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
- {  16,3223 }, {  17,3223 }, {  18,3223 }, {  19,3223 }, {  20,3223 },
- {  21,3223 }, {  22,3223 }, {  23,3223 }, {  24,3223 }, {  25,3223 },
- {  26,3223 }, {  27,3223 }, {  28,3223 }, {  29,3223 }, {  30,3223 },
-
- {  31,3223 }, {  32,2845 }, {  33,2857 }, {  34,3481 }, {  35,2857 },
- {  36,3223 }, {  37,2857 }, {  38,2857 }, {  39,3739 }, {  40,2860 },
- {  41,2864 }, {  42,2857 }, {  43,2857 }, {  44,2857 }, {  45,3997 },
- {  46,4255 }, {  47,2867 }, {  48,4337 }, {  49,4337 }, {  50,4337 },
- {  51,4337 }, {  52,4337 }, {  53,4337 }, {  54,4337 }, {  55,4337 },
- {  56,4337 }, {  57,4337 }, {  58,3223 }, {  59,2857 }, {  60,2857 },
- {  61,2869 }, {  62,2857 }, {  63,3223 }, {  64,2871 }, {  65,3223 },
- {  66,3223 }, {  67,3223 }, {  68,3223 }, {  69,3223 }, {  70,3223 },
- {  71,3223 }, {  72,3223 }, {  73,3223 }, {  74,3223 }, {  75,3223 },
- {  76,3223 }, {  77,3223 }, {  78,3223 }, {  79,3223 }, {  80,3223 },
-
- {  81,3223 }, {  82,3223 }, {  83,3223 }, {  84,3223 }, {  85,3223 },
- {  86,3223 }, {  87,3223 }, {  88,3223 }, {  89,3223 }, {  90,3223 },
- {  91,4595 }, {  92,2857 }, {  93,2857 }, {  94,2857 }, {  95,3223 },
- {  96,2857 }, {  97,4853 }, {  98,3223 }, {  99,3223 }, { 100,3223 },
- { 101,3223 }, { 102,5111 }, { 103,3223 }, { 104,3223 }, { 105,3223 },
- { 106,3223 }, { 107,3223 }, { 108,3223 }, { 109,3223 }, { 110,5369 },
- { 111,3223 }, { 112,3223 }, { 113,3223 }, { 114,3223 }, { 115,3223 },
- { 116,5627 }, { 117,5885 }, { 118,3223 }, { 119,3223 }, { 120,3223 },
- { 121,3223 }, { 122,3223 }, { 123,4273 }, { 124,4275 }, { 125,4304 },
- { 126,4306 }, { 127,3223 }, { 128,3223 }, { 129,3223 }, { 130,3223 },
-
- { 131,3223 }, { 132,3223 }, { 133,3223 }, { 134,3223 }, { 135,3223 },
- { 136,3223 }, { 137,3223 }, { 138,3223 }, { 139,3223 }, { 140,3223 },
- { 141,3223 }, { 142,3223 }, { 143,3223 }, { 144,3223 }, { 145,3223 },
- { 146,3223 }, { 147,3223 }, { 148,3223 }, { 149,3223 }, { 150,3223 },
- { 151,3223 }, { 152,3223 }, { 153,3223 }, { 154,3223 }, { 155,3223 },
- { 156,3223 }, { 157,3223 }, { 158,3223 }, { 159,3223 }, { 160,3223 },
- { 161,3223 }, { 162,3223 }, { 163,3223 }, { 164,3223 }, { 165,3223 },
- { 166,3223 }, { 167,3223 }, { 168,3223 }, { 169,3223 }, { 170,3223 },
- { 171,3223 }, { 172,3223 }, { 173,3223 }, { 174,3223 }, { 175,3223 },
- { 176,3223 }, { 177,3223 }, { 178,3223 }, { 179,3223 }, { 180,3223 },
-
- { 181,3223 }, { 182,3223 }, { 183,3223 }, { 184,3223 }, { 185,3223 },
- { 186,3223 }, { 187,3223 }, { 188,3223 }, { 189,3223 }, { 190,3223 },
- { 191,3223 }, { 192,3223 }, { 193,3223 }, { 194,3223 }, { 195,3223 },
- { 196,3223 }, { 197,3223 }, { 198,3223 }, { 199,3223 }, { 200,3223 },
- { 201,3223 }, { 202,3223 }, { 203,3223 }, { 204,3223 }, { 205,3223 },
- { 206,3223 }, { 207,3223 }, { 208,3223 }, { 209,3223 }, { 210,3223 },
- { 211,3223 }, { 212,3223 }, { 213,3223 }, { 214,3223 }, { 215,3223 },
- { 216,3223 }, { 217,3223 }, { 218,3223 }, { 219,3223 }, { 220,3223 },
- { 221,3223 }, { 222,3223 }, { 223,3223 }, { 224,3223 }, { 225,3223 },
- { 226,3223 }, { 227,3223 }, { 228,3223 }, { 229,3223 }, { 230,3223 },
-
- { 231,3223 }, { 232,3223 }, { 233,3223 }, { 234,3223 }, { 235,3223 },
- { 236,3223 }, { 237,3223 }, { 238,3223 }, { 239,3223 }, { 240,3223 },
- { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
- { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
- { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,22377 }, {   1,2965 }, {   2,2965 },
- {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
- {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
- {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
- {  18,2965 }, {  19,2965 }, {  20,2965 }, {  21,2965 }, {  22,2965 },
-
- {  23,2965 }, {  24,2965 }, {  25,2965 }, {  26,2965 }, {  27,2965 },
- {  28,2965 }, {  29,2965 }, {  30,2965 }, {  31,2965 }, {  32,2587 },
- {  33,2599 }, {  34,3223 }, {  35,2599 }, {  36,2965 }, {  37,2599 },
- {  38,2599 }, {  39,3481 }, {  40,2602 }, {  41,2606 }, {  42,2599 },
- {  43,2599 }, {  44,2599 }, {  45,3739 }, {  46,3997 }, {  47,2609 },
- {  48,4079 }, {  49,4079 }, {  50,4079 }, {  51,4079 }, {  52,4079 },
- {  53,4079 }, {  54,4079 }, {  55,4079 }, {  56,4079 }, {  57,4079 },
- {  58,2965 }, {  59,2599 }, {  60,2599 }, {  61,2611 }, {  62,2599 },
- {  63,2965 }, {  64,2613 }, {  65,2965 }, {  66,2965 }, {  67,2965 },
- {  68,2965 }, {  69,2965 }, {  70,2965 }, {  71,2965 }, {  72,2965 },
-
- {  73,2965 }, {  74,2965 }, {  75,2965 }, {  76,2965 }, {  77,2965 },
- {  78,2965 }, {  79,2965 }, {  80,2965 }, {  81,2965 }, {  82,2965 },
- {  83,2965 }, {  84,2965 }, {  85,2965 }, {  86,2965 }, {  87,2965 },
- {  88,2965 }, {  89,2965 }, {  90,2965 }, {  91,4337 }, {  92,2599 },
- {  93,2599 }, {  94,2599 }, {  95,2965 }, {  96,2599 }, {  97,4595 },
- {  98,2965 }, {  99,2965 }, { 100,2965 }, { 101,2965 }, { 102,4853 },
- { 103,2965 }, { 104,2965 }, { 105,2965 }, { 106,2965 }, { 107,2965 },
- { 108,2965 }, { 109,2965 }, { 110,5111 }, { 111,2965 }, { 112,2965 },
- { 113,2965 }, { 114,2965 }, { 115,2965 }, { 116,5369 }, { 117,5627 },
- { 118,2965 }, { 119,2965 }, { 120,2965 }, { 121,2965 }, { 122,2965 },
-
- { 123,4015 }, { 124,4017 }, { 125,4046 }, { 126,4048 }, { 127,2965 },
- { 128,2965 }, { 129,2965 }, { 130,2965 }, { 131,2965 }, { 132,2965 },
- { 133,2965 }, { 134,2965 }, { 135,2965 }, { 136,2965 }, { 137,2965 },
- { 138,2965 }, { 139,2965 }, { 140,2965 }, { 141,2965 }, { 142,2965 },
- { 143,2965 }, { 144,2965 }, { 145,2965 }, { 146,2965 }, { 147,2965 },
- { 148,2965 }, { 149,2965 }, { 150,2965 }, { 151,2965 }, { 152,2965 },
- { 153,2965 }, { 154,2965 }, { 155,2965 }, { 156,2965 }, { 157,2965 },
- { 158,2965 }, { 159,2965 }, { 160,2965 }, { 161,2965 }, { 162,2965 },
- { 163,2965 }, { 164,2965 }, { 165,2965 }, { 166,2965 }, { 167,2965 },
- { 168,2965 }, { 169,2965 }, { 170,2965 }, { 171,2965 }, { 172,2965 },
-
- { 173,2965 }, { 174,2965 }, { 175,2965 }, { 176,2965 }, { 177,2965 },
- { 178,2965 }, { 179,2965 }, { 180,2965 }, { 181,2965 }, { 182,2965 },
- { 183,2965 }, { 184,2965 }, { 185,2965 }, { 186,2965 }, { 187,2965 },
- { 188,2965 }, { 189,2965 }, { 190,2965 }, { 191,2965 }, { 192,2965 },
- { 193,2965 }, { 194,2965 }, { 195,2965 }, { 196,2965 }, { 197,2965 },
- { 198,2965 }, { 199,2965 }, { 200,2965 }, { 201,2965 }, { 202,2965 },
- { 203,2965 }, { 204,2965 }, { 205,2965 }, { 206,2965 }, { 207,2965 },
- { 208,2965 }, { 209,2965 }, { 210,2965 }, { 211,2965 }, { 212,2965 },
- { 213,2965 }, { 214,2965 }, { 215,2965 }, { 216,2965 }, { 217,2965 },
- { 218,2965 }, { 219,2965 }, { 220,2965 }, { 221,2965 }, { 222,2965 },
-
- { 223,2965 }, { 224,2965 }, { 225,2965 }, { 226,2965 }, { 227,2965 },
- { 228,2965 }, { 229,2965 }, { 230,2965 }, { 231,2965 }, { 232,2965 },
- { 233,2965 }, { 234,2965 }, { 235,2965 }, { 236,2965 }, { 237,2965 },
- { 238,2965 }, { 239,2965 }, { 240,2965 }, { 241,2965 }, { 242,2965 },
- { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
- { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
- { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,22119 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
- {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
- {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
-
- {  15,3792 }, {  16,3792 }, {  17,3792 }, {  18,3792 }, {  19,3792 },
- {  20,3792 }, {  21,3792 }, {  22,3792 }, {  23,3792 }, {  24,3792 },
- {  25,3792 }, {  26,3792 }, {  27,3792 }, {  28,3792 }, {  29,3792 },
- {  30,3792 }, {  31,3792 }, {  32,3792 }, {  33,3792 }, {  34,3792 },
- {  35,3792 }, {  36,3792 }, {  37,3792 }, {  38,3792 }, {  39,3792 },
- {  40,3792 }, {  41,3792 }, {  42,3792 }, {  43,3792 }, {  44,3792 },
- {  45,3792 }, {  46,3792 }, {  47,3792 }, {  48,3792 }, {  49,3792 },
- {  50,3792 }, {  51,3792 }, {  52,3792 }, {  53,3792 }, {  54,3792 },
- {  55,3792 }, {  56,3792 }, {  57,3792 }, {  58,3792 }, {  59,3792 },
- {  60,3792 }, {  61,3792 }, {  62,3792 }, {  63,3792 }, {  64,3792 },
-
- {  65,3792 }, {  66,3792 }, {  67,3792 }, {  68,3792 }, {  69,3792 },
- {  70,3792 }, {  71,3792 }, {  72,3792 }, {  73,3792 }, {  74,3792 },
- {  75,3792 }, {  76,3792 }, {  77,3792 }, {  78,3792 }, {  79,3792 },
- {  80,3792 }, {  81,3792 }, {  82,3792 }, {  83,3792 }, {  84,3792 },
- {  85,3792 }, {  86,3792 }, {  87,3792 }, {  88,3792 }, {  89,3792 },
- {  90,3792 }, {  91,3792 }, {  92,3792 }, {  93,3792 }, {  94,3792 },
- {  95,3792 }, {  96,3792 }, {  97,3792 }, {  98,3792 }, {  99,3792 },
- { 100,3792 }, { 101,3792 }, { 102,3792 }, { 103,3792 }, { 104,3792 },
- { 105,3792 }, { 106,3792 }, { 107,3792 }, { 108,3792 }, { 109,3792 },
- { 110,3792 }, { 111,3792 }, { 112,3792 }, { 113,3792 }, { 114,3792 },
-
- { 115,3792 }, { 116,3792 }, { 117,3792 }, { 118,3792 }, { 119,3792 },
- { 120,3792 }, { 121,3792 }, { 122,3792 }, { 123,3792 }, { 124,3792 },
- { 125,3792 }, { 126,3792 }, { 127,3792 }, { 128,3792 }, { 129,3792 },
- { 130,3792 }, { 131,3792 }, { 132,3792 }, { 133,3792 }, { 134,3792 },
- { 135,3792 }, { 136,3792 }, { 137,3792 }, { 138,3792 }, { 139,3792 },
- { 140,3792 }, { 141,3792 }, { 142,3792 }, { 143,3792 }, { 144,3792 },
- { 145,3792 }, { 146,3792 }, { 147,3792 }, { 148,3792 }, { 149,3792 },
- { 150,3792 }, { 151,3792 }, { 152,3792 }, { 153,3792 }, { 154,3792 },
- { 155,3792 }, { 156,3792 }, { 157,3792 }, { 158,3792 }, { 159,3792 },
- { 160,3792 }, { 161,3792 }, { 162,3792 }, { 163,3792 }, { 164,3792 },
-
- { 165,3792 }, { 166,3792 }, { 167,3792 }, { 168,3792 }, { 169,3792 },
- { 170,3792 }, { 171,3792 }, { 172,3792 }, { 173,3792 }, { 174,3792 },
- { 175,3792 }, { 176,3792 }, { 177,3792 }, { 178,3792 }, { 179,3792 },
- { 180,3792 }, { 181,3792 }, { 182,3792 }, { 183,3792 }, { 184,3792 },
- { 185,3792 }, { 186,3792 }, { 187,3792 }, { 188,3792 }, { 189,3792 },
- { 190,3792 }, { 191,3792 }, { 192,3792 }, { 193,3792 }, { 194,3792 },
- { 195,3792 }, { 196,3792 }, { 197,3792 }, { 198,3792 }, { 199,3792 },
- { 200,3792 }, { 201,3792 }, { 202,3792 }, { 203,3792 }, { 204,3792 },
- { 205,3792 }, { 206,3792 }, { 207,3792 }, { 208,3792 }, { 209,3792 },
- { 210,3792 }, { 211,3792 }, { 212,3792 }, { 213,3792 }, { 214,3792 },
-
- { 215,3792 }, { 216,3792 }, { 217,3792 }, { 218,3792 }, { 219,3792 },
- { 220,3792 }, { 221,3792 }, { 222,3792 }, { 223,3792 }, { 224,3792 },
- { 225,3792 }, { 226,3792 }, { 227,3792 }, { 228,3792 }, { 229,3792 },
- { 230,3792 }, { 231,3792 }, { 232,3792 }, { 233,3792 }, { 234,3792 },
- { 235,3792 }, { 236,3792 }, { 237,3792 }, { 238,3792 }, { 239,3792 },
- { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
- { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
- { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,21861 }, {   1,3534 },
- {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
-
- {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
- {  12,3534 }, {  13,3534 }, {  14,3534 }, {  15,3534 }, {  16,3534 },
- {  17,3534 }, {  18,3534 }, {  19,3534 }, {  20,3534 }, {  21,3534 },
- {  22,3534 }, {  23,3534 }, {  24,3534 }, {  25,3534 }, {  26,3534 },
- {  27,3534 }, {  28,3534 }, {  29,3534 }, {  30,3534 }, {  31,3534 },
- {  32,3534 }, {  33,3534 }, {  34,3534 }, {  35,3534 }, {  36,3534 },
- {  37,3534 }, {  38,3534 }, {  39,3534 }, {  40,3534 }, {  41,3534 },
- {  42,3534 }, {  43,3534 }, {  44,3534 }, {  45,3534 }, {  46,3534 },
- {  47,3534 }, {  48,3534 }, {  49,3534 }, {  50,3534 }, {  51,3534 },
- {  52,3534 }, {  53,3534 }, {  54,3534 }, {  55,3534 }, {  56,3534 },
-
- {  57,3534 }, {  58,3534 }, {  59,3534 }, {  60,3534 }, {  61,3534 },
- {  62,3534 }, {  63,3534 }, {  64,3534 }, {  65,3534 }, {  66,3534 },
- {  67,3534 }, {  68,3534 }, {  69,3534 }, {  70,3534 }, {  71,3534 },
- {  72,3534 }, {  73,3534 }, {  74,3534 }, {  75,3534 }, {  76,3534 },
- {  77,3534 }, {  78,3534 }, {  79,3534 }, {  80,3534 }, {  81,3534 },
- {  82,3534 }, {  83,3534 }, {  84,3534 }, {  85,3534 }, {  86,3534 },
- {  87,3534 }, {  88,3534 }, {  89,3534 }, {  90,3534 }, {  91,3534 },
- {  92,3534 }, {  93,3534 }, {  94,3534 }, {  95,3534 }, {  96,3534 },
- {  97,3534 }, {  98,3534 }, {  99,3534 }, { 100,3534 }, { 101,3534 },
- { 102,3534 }, { 103,3534 }, { 104,3534 }, { 105,3534 }, { 106,3534 },
-
- { 107,3534 }, { 108,3534 }, { 109,3534 }, { 110,3534 }, { 111,3534 },
- { 112,3534 }, { 113,3534 }, { 114,3534 }, { 115,3534 }, { 116,3534 },
- { 117,3534 }, { 118,3534 }, { 119,3534 }, { 120,3534 }, { 121,3534 },
- { 122,3534 }, { 123,3534 }, { 124,3534 }, { 125,3534 }, { 126,3534 },
- { 127,3534 }, { 128,3534 }, { 129,3534 }, { 130,3534 }, { 131,3534 },
- { 132,3534 }, { 133,3534 }, { 134,3534 }, { 135,3534 }, { 136,3534 },
- { 137,3534 }, { 138,3534 }, { 139,3534 }, { 140,3534 }, { 141,3534 },
- { 142,3534 }, { 143,3534 }, { 144,3534 }, { 145,3534 }, { 146,3534 },
- { 147,3534 }, { 148,3534 }, { 149,3534 }, { 150,3534 }, { 151,3534 },
- { 152,3534 }, { 153,3534 }, { 154,3534 }, { 155,3534 }, { 156,3534 },
-
- { 157,3534 }, { 158,3534 }, { 159,3534 }, { 160,3534 }, { 161,3534 },
- { 162,3534 }, { 163,3534 }, { 164,3534 }, { 165,3534 }, { 166,3534 },
- { 167,3534 }, { 168,3534 }, { 169,3534 }, { 170,3534 }, { 171,3534 },
- { 172,3534 }, { 173,3534 }, { 174,3534 }, { 175,3534 }, { 176,3534 },
- { 177,3534 }, { 178,3534 }, { 179,3534 }, { 180,3534 }, { 181,3534 },
- { 182,3534 }, { 183,3534 }, { 184,3534 }, { 185,3534 }, { 186,3534 },
- { 187,3534 }, { 188,3534 }, { 189,3534 }, { 190,3534 }, { 191,3534 },
- { 192,3534 }, { 193,3534 }, { 194,3534 }, { 195,3534 }, { 196,3534 },
- { 197,3534 }, { 198,3534 }, { 199,3534 }, { 200,3534 }, { 201,3534 },
- { 202,3534 }, { 203,3534 }, { 204,3534 }, { 205,3534 }, { 206,3534 },
-
- { 207,3534 }, { 208,3534 }, { 209,3534 }, { 210,3534 }, { 211,3534 },
- { 212,3534 }, { 213,3534 }, { 214,3534 }, { 215,3534 }, { 216,3534 },
- { 217,3534 }, { 218,3534 }, { 219,3534 }, { 220,3534 }, { 221,3534 },
- { 222,3534 }, { 223,3534 }, { 224,3534 }, { 225,3534 }, { 226,3534 },
- { 227,3534 }, { 228,3534 }, { 229,3534 }, { 230,3534 }, { 231,3534 },
- { 232,3534 }, { 233,3534 }, { 234,3534 }, { 235,3534 }, { 236,3534 },
- { 237,3534 }, { 238,3534 }, { 239,3534 }, { 240,3534 }, { 241,3534 },
- { 242,3534 }, { 243,3534 }, { 244,3534 }, { 245,3534 }, { 246,3534 },
- { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
- { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
-
- {   0,   0 }, {   0,21603 }, {   1,5111 }, {   2,5111 }, {   3,5111 },
- {   4,5111 }, {   5,5111 }, {   6,5111 }, {   7,5111 }, {   8,5111 },
- {   9,5111 }, {  10,5111 }, {  11,5111 }, {  12,5111 }, {  13,5111 },
- {  14,5111 }, {  15,5111 }, {  16,5111 }, {  17,5111 }, {  18,5111 },
- {  19,5111 }, {  20,5111 }, {  21,5111 }, {  22,5111 }, {  23,5111 },
- {  24,5111 }, {  25,5111 }, {  26,5111 }, {  27,5111 }, {  28,5111 },
- {  29,5111 }, {  30,5111 }, {  31,5111 }, {  32,5111 }, {  33,5111 },
- {  34,5111 }, {  35,5111 }, {  36,5111 }, {  37,5111 }, {  38,5111 },
- {  39,5111 }, {  40,5111 }, {  41,5111 }, {  42,5111 }, {  43,5111 },
- {  44,5111 }, {  45,5369 }, {  46,5111 }, {  47,5111 }, {  48,5111 },
-
- {  49,5111 }, {  50,5111 }, {  51,5111 }, {  52,5111 }, {  53,5111 },
- {  54,5111 }, {  55,5111 }, {  56,5111 }, {  57,5111 }, {  58,5111 },
- {  59,5111 }, {  60,5111 }, {  61,5111 }, {  62,5111 }, {  63,5111 },
- {  64,5111 }, {  65,5111 }, {  66,5111 }, {  67,5111 }, {  68,5111 },
- {  69,5111 }, {  70,5111 }, {  71,5111 }, {  72,5111 }, {  73,5111 },
- {  74,5111 }, {  75,5111 }, {  76,5111 }, {  77,5111 }, {  78,5111 },
- {  79,5111 }, {  80,5111 }, {  81,5111 }, {  82,5111 }, {  83,5111 },
- {  84,5111 }, {  85,5111 }, {  86,5111 }, {  87,5111 }, {  88,5111 },
- {  89,5111 }, {  90,5111 }, {  91,5111 }, {  92,5111 }, {  93,5111 },
- {  94,5111 }, {  95,5111 }, {  96,5111 }, {  97,5111 }, {  98,5111 },
-
- {  99,5111 }, { 100,5111 }, { 101,5111 }, { 102,5111 }, { 103,5111 },
- { 104,5111 }, { 105,5111 }, { 106,5111 }, { 107,5111 }, { 108,5111 },
- { 109,5111 }, { 110,5111 }, { 111,5111 }, { 112,5111 }, { 113,5111 },
- { 114,5111 }, { 115,5111 }, { 116,5111 }, { 117,5111 }, { 118,5111 },
- { 119,5111 }, { 120,5111 }, { 121,5111 }, { 122,5111 }, { 123,5111 },
- { 124,5111 }, { 125,5111 }, { 126,5111 }, { 127,5111 }, { 128,5111 },
- { 129,5111 }, { 130,5111 }, { 131,5111 }, { 132,5111 }, { 133,5111 },
- { 134,5111 }, { 135,5111 }, { 136,5111 }, { 137,5111 }, { 138,5111 },
- { 139,5111 }, { 140,5111 }, { 141,5111 }, { 142,5111 }, { 143,5111 },
- { 144,5111 }, { 145,5111 }, { 146,5111 }, { 147,5111 }, { 148,5111 },
-
- { 149,5111 }, { 150,5111 }, { 151,5111 }, { 152,5111 }, { 153,5111 },
- { 154,5111 }, { 155,5111 }, { 156,5111 }, { 157,5111 }, { 158,5111 },
- { 159,5111 }, { 160,5111 }, { 161,5111 }, { 162,5111 }, { 163,5111 },
- { 164,5111 }, { 165,5111 }, { 166,5111 }, { 167,5111 }, { 168,5111 },
- { 169,5111 }, { 170,5111 }, { 171,5111 }, { 172,5111 }, { 173,5111 },
- { 174,5111 }, { 175,5111 }, { 176,5111 }, { 177,5111 }, { 178,5111 },
- { 179,5111 }, { 180,5111 }, { 181,5111 }, { 182,5111 }, { 183,5111 },
- { 184,5111 }, { 185,5111 }, { 186,5111 }, { 187,5111 }, { 188,5111 },
- { 189,5111 }, { 190,5111 }, { 191,5111 }, { 192,5111 }, { 193,5111 },
- { 194,5111 }, { 195,5111 }, { 196,5111 }, { 197,5111 }, { 198,5111 },
-
- { 199,5111 }, { 200,5111 }, { 201,5111 }, { 202,5111 }, { 203,5111 },
- { 204,5111 }, { 205,5111 }, { 206,5111 }, { 207,5111 }, { 208,5111 },
- { 209,5111 }, { 210,5111 }, { 211,5111 }, { 212,5111 }, { 213,5111 },
- { 214,5111 }, { 215,5111 }, { 216,5111 }, { 217,5111 }, { 218,5111 },
- { 219,5111 }, { 220,5111 }, { 221,5111 }, { 222,5111 }, { 223,5111 },
- { 224,5111 }, { 225,5111 }, { 226,5111 }, { 227,5111 }, { 228,5111 },
- { 229,5111 }, { 230,5111 }, { 231,5111 }, { 232,5111 }, { 233,5111 },
- { 234,5111 }, { 235,5111 }, { 236,5111 }, { 237,5111 }, { 238,5111 },
- { 239,5111 }, { 240,5111 }, { 241,5111 }, { 242,5111 }, { 243,5111 },
- { 244,5111 }, { 245,5111 }, { 246,5111 }, { 247,5111 }, { 248,5111 },
-
- { 249,5111 }, { 250,5111 }, { 251,5111 }, { 252,5111 }, { 253,5111 },
- { 254,5111 }, { 255,5111 }, { 256,5111 }, {   0,   0 }, {   0,21345 },
- {   1,4853 }, {   2,4853 }, {   3,4853 }, {   4,4853 }, {   5,4853 },
- {   6,4853 }, {   7,4853 }, {   8,4853 }, {   9,4853 }, {  10,4853 },
- {  11,4853 }, {  12,4853 }, {  13,4853 }, {  14,4853 }, {  15,4853 },
- {  16,4853 }, {  17,4853 }, {  18,4853 }, {  19,4853 }, {  20,4853 },
- {  21,4853 }, {  22,4853 }, {  23,4853 }, {  24,4853 }, {  25,4853 },
- {  26,4853 }, {  27,4853 }, {  28,4853 }, {  29,4853 }, {  30,4853 },
- {  31,4853 }, {  32,4853 }, {  33,4853 }, {  34,4853 }, {  35,4853 },
- {  36,4853 }, {  37,4853 }, {  38,4853 }, {  39,4853 }, {  40,4853 },
-
- {  41,4853 }, {  42,4853 }, {  43,4853 }, {  44,4853 }, {  45,5111 },
- {  46,4853 }, {  47,4853 }, {  48,4853 }, {  49,4853 }, {  50,4853 },
- {  51,4853 }, {  52,4853 }, {  53,4853 }, {  54,4853 }, {  55,4853 },
- {  56,4853 }, {  57,4853 }, {  58,4853 }, {  59,4853 }, {  60,4853 },
- {  61,4853 }, {  62,4853 }, {  63,4853 }, {  64,4853 }, {  65,4853 },
- {  66,4853 }, {  67,4853 }, {  68,4853 }, {  69,4853 }, {  70,4853 },
- {  71,4853 }, {  72,4853 }, {  73,4853 }, {  74,4853 }, {  75,4853 },
- {  76,4853 }, {  77,4853 }, {  78,4853 }, {  79,4853 }, {  80,4853 },
- {  81,4853 }, {  82,4853 }, {  83,4853 }, {  84,4853 }, {  85,4853 },
- {  86,4853 }, {  87,4853 }, {  88,4853 }, {  89,4853 }, {  90,4853 },
-
- {  91,4853 }, {  92,4853 }, {  93,4853 }, {  94,4853 }, {  95,4853 },
- {  96,4853 }, {  97,4853 }, {  98,4853 }, {  99,4853 }, { 100,4853 },
- { 101,4853 }, { 102,4853 }, { 103,4853 }, { 104,4853 }, { 105,4853 },
- { 106,4853 }, { 107,4853 }, { 108,4853 }, { 109,4853 }, { 110,4853 },
- { 111,4853 }, { 112,4853 }, { 113,4853 }, { 114,4853 }, { 115,4853 },
- { 116,4853 }, { 117,4853 }, { 118,4853 }, { 119,4853 }, { 120,4853 },
- { 121,4853 }, { 122,4853 }, { 123,4853 }, { 124,4853 }, { 125,4853 },
- { 126,4853 }, { 127,4853 }, { 128,4853 }, { 129,4853 }, { 130,4853 },
- { 131,4853 }, { 132,4853 }, { 133,4853 }, { 134,4853 }, { 135,4853 },
- { 136,4853 }, { 137,4853 }, { 138,4853 }, { 139,4853 }, { 140,4853 },
-
- { 141,4853 }, { 142,4853 }, { 143,4853 }, { 144,4853 }, { 145,4853 },
- { 146,4853 }, { 147,4853 }, { 148,4853 }, { 149,4853 }, { 150,4853 },
- { 151,4853 }, { 152,4853 }, { 153,4853 }, { 154,4853 }, { 155,4853 },
- { 156,4853 }, { 157,4853 }, { 158,4853 }, { 159,4853 }, { 160,4853 },
- { 161,4853 }, { 162,4853 }, { 163,4853 }, { 164,4853 }, { 165,4853 },
- { 166,4853 }, { 167,4853 }, { 168,4853 }, { 169,4853 }, { 170,4853 },
- { 171,4853 }, { 172,4853 }, { 173,4853 }, { 174,4853 }, { 175,4853 },
- { 176,4853 }, { 177,4853 }, { 178,4853 }, { 179,4853 }, { 180,4853 },
- { 181,4853 }, { 182,4853 }, { 183,4853 }, { 184,4853 }, { 185,4853 },
- { 186,4853 }, { 187,4853 }, { 188,4853 }, { 189,4853 }, { 190,4853 },
-
- { 191,4853 }, { 192,4853 }, { 193,4853 }, { 194,4853 }, { 195,4853 },
- { 196,4853 }, { 197,4853 }, { 198,4853 }, { 199,4853 }, { 200,4853 },
- { 201,4853 }, { 202,4853 }, { 203,4853 }, { 204,4853 }, { 205,4853 },
- { 206,4853 }, { 207,4853 }, { 208,4853 }, { 209,4853 }, { 210,4853 },
- { 211,4853 }, { 212,4853 }, { 213,4853 }, { 214,4853 }, { 215,4853 },
- { 216,4853 }, { 217,4853 }, { 218,4853 }, { 219,4853 }, { 220,4853 },
- { 221,4853 }, { 222,4853 }, { 223,4853 }, { 224,4853 }, { 225,4853 },
- { 226,4853 }, { 227,4853 }, { 228,4853 }, { 229,4853 }, { 230,4853 },
- { 231,4853 }, { 232,4853 }, { 233,4853 }, { 234,4853 }, { 235,4853 },
- { 236,4853 }, { 237,4853 }, { 238,4853 }, { 239,4853 }, { 240,4853 },
-
- { 241,4853 }, { 242,4853 }, { 243,4853 }, { 244,4853 }, { 245,4853 },
- { 246,4853 }, { 247,4853 }, { 248,4853 }, { 249,4853 }, { 250,4853 },
- { 251,4853 }, { 252,4853 }, { 253,4853 }, { 254,4853 }, { 255,4853 },
- { 256,4853 }, {   0,   0 }, {   0,21087 }, {   1,5111 }, {   2,5111 },
- {   3,5111 }, {   4,5111 }, {   5,5111 }, {   6,5111 }, {   7,5111 },
- {   8,5111 }, {   9,5111 }, {  10,5111 }, {  11,5111 }, {  12,5111 },
- {  13,5111 }, {  14,5111 }, {  15,5111 }, {  16,5111 }, {  17,5111 },
- {  18,5111 }, {  19,5111 }, {  20,5111 }, {  21,5111 }, {  22,5111 },
- {  23,5111 }, {  24,5111 }, {  25,5111 }, {  26,5111 }, {  27,5111 },
- {  28,5111 }, {  29,5111 }, {  30,5111 }, {  31,5111 }, {  32,5111 },
-
- {  33,5111 }, {  34,5111 }, {  35,5111 }, {  36,5111 }, {  37,5111 },
- {  38,5111 }, {  39,5111 }, {  40,5111 }, {  41,5111 }, {  42,5111 },
- {  43,5111 }, {  44,5111 }, {  45,5111 }, {  46,5111 }, {  47,5111 },
- {  48,5111 }, {  49,5111 }, {  50,5111 }, {  51,5111 }, {  52,5111 },
- {  53,5111 }, {  54,5111 }, {  55,5111 }, {  56,5111 }, {  57,5111 },
- {  58,5111 }, {  59,5111 }, {  60,5111 }, {  61,5111 }, {  62,5111 },
- {  63,5111 }, {  64,5111 }, {  65,5111 }, {  66,5111 }, {  67,5111 },
- {  68,5111 }, {  69,5111 }, {  70,5111 }, {  71,5111 }, {  72,5111 },
- {  73,5111 }, {  74,5111 }, {  75,5111 }, {  76,5111 }, {  77,5111 },
- {  78,5111 }, {  79,5111 }, {  80,5111 }, {  81,5111 }, {  82,5111 },
-
- {  83,5111 }, {  84,5111 }, {  85,5111 }, {  86,5111 }, {  87,5111 },
- {  88,5111 }, {  89,5111 }, {  90,5111 }, {  91,5111 }, {  92,5111 },
- {  93,5111 }, {  94,5111 }, {  95,5111 }, {  96,5111 }, {  97,5111 },
- {  98,5111 }, {  99,5111 }, { 100,5111 }, { 101,5111 }, { 102,5111 },
- { 103,5111 }, { 104,5111 }, { 105,5111 }, { 106,5111 }, { 107,5111 },
- { 108,5111 }, { 109,5111 }, { 110,5111 }, { 111,5111 }, { 112,5111 },
- { 113,5111 }, { 114,5111 }, { 115,5111 }, { 116,5111 }, { 117,5111 },
- { 118,5111 }, { 119,5111 }, { 120,5111 }, { 121,5111 }, { 122,5111 },
- { 123,5111 }, { 124,5111 }, { 125,5369 }, { 126,5111 }, { 127,5111 },
- { 128,5111 }, { 129,5111 }, { 130,5111 }, { 131,5111 }, { 132,5111 },
-
- { 133,5111 }, { 134,5111 }, { 135,5111 }, { 136,5111 }, { 137,5111 },
- { 138,5111 }, { 139,5111 }, { 140,5111 }, { 141,5111 }, { 142,5111 },
- { 143,5111 }, { 144,5111 }, { 145,5111 }, { 146,5111 }, { 147,5111 },
- { 148,5111 }, { 149,5111 }, { 150,5111 }, { 151,5111 }, { 152,5111 },
- { 153,5111 }, { 154,5111 }, { 155,5111 }, { 156,5111 }, { 157,5111 },
- { 158,5111 }, { 159,5111 }, { 160,5111 }, { 161,5111 }, { 162,5111 },
- { 163,5111 }, { 164,5111 }, { 165,5111 }, { 166,5111 }, { 167,5111 },
- { 168,5111 }, { 169,5111 }, { 170,5111 }, { 171,5111 }, { 172,5111 },
- { 173,5111 }, { 174,5111 }, { 175,5111 }, { 176,5111 }, { 177,5111 },
- { 178,5111 }, { 179,5111 }, { 180,5111 }, { 181,5111 }, { 182,5111 },
-
- { 183,5111 }, { 184,5111 }, { 185,5111 }, { 186,5111 }, { 187,5111 },
- { 188,5111 }, { 189,5111 }, { 190,5111 }, { 191,5111 }, { 192,5111 },
- { 193,5111 }, { 194,5111 }, { 195,5111 }, { 196,5111 }, { 197,5111 },
- { 198,5111 }, { 199,5111 }, { 200,5111 }, { 201,5111 }, { 202,5111 },
- { 203,5111 }, { 204,5111 }, { 205,5111 }, { 206,5111 }, { 207,5111 },
- { 208,5111 }, { 209,5111 }, { 210,5111 }, { 211,5111 }, { 212,5111 },
- { 213,5111 }, { 214,5111 }, { 215,5111 }, { 216,5111 }, { 217,5111 },
- { 218,5111 }, { 219,5111 }, { 220,5111 }, { 221,5111 }, { 222,5111 },
- { 223,5111 }, { 224,5111 }, { 225,5111 }, { 226,5111 }, { 227,5111 },
- { 228,5111 }, { 229,5111 }, { 230,5111 }, { 231,5111 }, { 232,5111 },
-
- { 233,5111 }, { 234,5111 }, { 235,5111 }, { 236,5111 }, { 237,5111 },
- { 238,5111 }, { 239,5111 }, { 240,5111 }, { 241,5111 }, { 242,5111 },
- { 243,5111 }, { 244,5111 }, { 245,5111 }, { 246,5111 }, { 247,5111 },
- { 248,5111 }, { 249,5111 }, { 250,5111 }, { 251,5111 }, { 252,5111 },
- { 253,5111 }, { 254,5111 }, { 255,5111 }, { 256,5111 }, {   0,   0 },
- {   0,20829 }, {   1,4853 }, {   2,4853 }, {   3,4853 }, {   4,4853 },
- {   5,4853 }, {   6,4853 }, {   7,4853 }, {   8,4853 }, {   9,4853 },
- {  10,4853 }, {  11,4853 }, {  12,4853 }, {  13,4853 }, {  14,4853 },
- {  15,4853 }, {  16,4853 }, {  17,4853 }, {  18,4853 }, {  19,4853 },
- {  20,4853 }, {  21,4853 }, {  22,4853 }, {  23,4853 }, {  24,4853 },
-
- {  25,4853 }, {  26,4853 }, {  27,4853 }, {  28,4853 }, {  29,4853 },
- {  30,4853 }, {  31,4853 }, {  32,4853 }, {  33,4853 }, {  34,4853 },
- {  35,4853 }, {  36,4853 }, {  37,4853 }, {  38,4853 }, {  39,4853 },
- {  40,4853 }, {  41,4853 }, {  42,4853 }, {  43,4853 }, {  44,4853 },
- {  45,4853 }, {  46,4853 }, {  47,4853 }, {  48,4853 }, {  49,4853 },
- {  50,4853 }, {  51,4853 }, {  52,4853 }, {  53,4853 }, {  54,4853 },
- {  55,4853 }, {  56,4853 }, {  57,4853 }, {  58,4853 }, {  59,4853 },
- {  60,4853 }, {  61,4853 }, {  62,4853 }, {  63,4853 }, {  64,4853 },
- {  65,4853 }, {  66,4853 }, {  67,4853 }, {  68,4853 }, {  69,4853 },
- {  70,4853 }, {  71,4853 }, {  72,4853 }, {  73,4853 }, {  74,4853 },
-
- {  75,4853 }, {  76,4853 }, {  77,4853 }, {  78,4853 }, {  79,4853 },
- {  80,4853 }, {  81,4853 }, {  82,4853 }, {  83,4853 }, {  84,4853 },
- {  85,4853 }, {  86,4853 }, {  87,4853 }, {  88,4853 }, {  89,4853 },
- {  90,4853 }, {  91,4853 }, {  92,4853 }, {  93,4853 }, {  94,4853 },
- {  95,4853 }, {  96,4853 }, {  97,4853 }, {  98,4853 }, {  99,4853 },
- { 100,4853 }, { 101,4853 }, { 102,4853 }, { 103,4853 }, { 104,4853 },
- { 105,4853 }, { 106,4853 }, { 107,4853 }, { 108,4853 }, { 109,4853 },
- { 110,4853 }, { 111,4853 }, { 112,4853 }, { 113,4853 }, { 114,4853 },
- { 115,4853 }, { 116,4853 }, { 117,4853 }, { 118,4853 }, { 119,4853 },
- { 120,4853 }, { 121,4853 }, { 122,4853 }, { 123,4853 }, { 124,4853 },
-
- { 125,5111 }, { 126,4853 }, { 127,4853 }, { 128,4853 }, { 129,4853 },
- { 130,4853 }, { 131,4853 }, { 132,4853 }, { 133,4853 }, { 134,4853 },
- { 135,4853 }, { 136,4853 }, { 137,4853 }, { 138,4853 }, { 139,4853 },
- { 140,4853 }, { 141,4853 }, { 142,4853 }, { 143,4853 }, { 144,4853 },
- { 145,4853 }, { 146,4853 }, { 147,4853 }, { 148,4853 }, { 149,4853 },
- { 150,4853 }, { 151,4853 }, { 152,4853 }, { 153,4853 }, { 154,4853 },
- { 155,4853 }, { 156,4853 }, { 157,4853 }, { 158,4853 }, { 159,4853 },
- { 160,4853 }, { 161,4853 }, { 162,4853 }, { 163,4853 }, { 164,4853 },
- { 165,4853 }, { 166,4853 }, { 167,4853 }, { 168,4853 }, { 169,4853 },
- { 170,4853 }, { 171,4853 }, { 172,4853 }, { 173,4853 }, { 174,4853 },
-
- { 175,4853 }, { 176,4853 }, { 177,4853 }, { 178,4853 }, { 179,4853 },
- { 180,4853 }, { 181,4853 }, { 182,4853 }, { 183,4853 }, { 184,4853 },
- { 185,4853 }, { 186,4853 }, { 187,4853 }, { 188,4853 }, { 189,4853 },
- { 190,4853 }, { 191,4853 }, { 192,4853 }, { 193,4853 }, { 194,4853 },
- { 195,4853 }, { 196,4853 }, { 197,4853 }, { 198,4853 }, { 199,4853 },
- { 200,4853 }, { 201,4853 }, { 202,4853 }, { 203,4853 }, { 204,4853 },
- { 205,4853 }, { 206,4853 }, { 207,4853 }, { 208,4853 }, { 209,4853 },
- { 210,4853 }, { 211,4853 }, { 212,4853 }, { 213,4853 }, { 214,4853 },
- { 215,4853 }, { 216,4853 }, { 217,4853 }, { 218,4853 }, { 219,4853 },
- { 220,4853 }, { 221,4853 }, { 222,4853 }, { 223,4853 }, { 224,4853 },
-
- { 225,4853 }, { 226,4853 }, { 227,4853 }, { 228,4853 }, { 229,4853 },
- { 230,4853 }, { 231,4853 }, { 232,4853 }, { 233,4853 }, { 234,4853 },
- { 235,4853 }, { 236,4853 }, { 237,4853 }, { 238,4853 }, { 239,4853 },
- { 240,4853 }, { 241,4853 }, { 242,4853 }, { 243,4853 }, { 244,4853 },
- { 245,4853 }, { 246,4853 }, { 247,4853 }, { 248,4853 }, { 249,4853 },
- { 250,4853 }, { 251,4853 }, { 252,4853 }, { 253,4853 }, { 254,4853 },
- { 255,4853 }, { 256,4853 }, {   0,   0 }, {   0,20571 }, {   1,5111 },
- {   2,5111 }, {   3,5111 }, {   4,5111 }, {   5,5111 }, {   6,5111 },
- {   7,5111 }, {   8,5111 }, {   9,5111 }, {  10,5111 }, {  11,5111 },
- {  12,5111 }, {  13,5111 }, {  14,5111 }, {  15,5111 }, {  16,5111 },
-
- {  17,5111 }, {  18,5111 }, {  19,5111 }, {  20,5111 }, {  21,5111 },
- {  22,5111 }, {  23,5111 }, {  24,5111 }, {  25,5111 }, {  26,5111 },
- {  27,5111 }, {  28,5111 }, {  29,5111 }, {  30,5111 }, {  31,5111 },
- {  32,5111 }, {  33,5111 }, {  34,5111 }, {  35,5111 }, {  36,5111 },
- {  37,5111 }, {  38,5111 }, {  39,5111 }, {  40,5111 }, {  41,5111 },
- {  42,5111 }, {  43,5111 }, {  44,5111 }, {  45,5111 }, {  46,5111 },
- {  47,5111 }, {  48,5111 }, {  49,5111 }, {  50,5111 }, {  51,5111 },
- {  52,5111 }, {  53,5111 }, {  54,5111 }, {  55,5111 }, {  56,5111 },
- {  57,5111 }, {  58,5111 }, {  59,5111 }, {  60,5111 }, {  61,5111 },
- {  62,5111 }, {  63,5111 }, {  64,5111 }, {  65,5111 }, {  66,5111 },
-
- {  67,5111 }, {  68,5111 }, {  69,5111 }, {  70,5111 }, {  71,5111 },
- {  72,5111 }, {  73,5111 }, {  74,5111 }, {  75,5111 }, {  76,5111 },
- {  77,5111 }, {  78,5111 }, {  79,5111 }, {  80,5111 }, {  81,5111 },
- {  82,5111 }, {  83,5111 }, {  84,5111 }, {  85,5111 }, {  86,5111 },
- {  87,5111 }, {  88,5111 }, {  89,5111 }, {  90,5111 }, {  91,5111 },
- {  92,5111 }, {  93,5111 }, {  94,5111 }, {  95,5111 }, {  96,5111 },
- {  97,5111 }, {  98,5111 }, {  99,5111 }, { 100,5111 }, { 101,5111 },
- { 102,5111 }, { 103,5111 }, { 104,5111 }, { 105,5111 }, { 106,5111 },
- { 107,5111 }, { 108,5111 }, { 109,5111 }, { 110,5111 }, { 111,5111 },
- { 112,5111 }, { 113,5111 }, { 114,5111 }, { 115,5111 }, { 116,5111 },
-
- { 117,5111 }, { 118,5111 }, { 119,5111 }, { 120,5111 }, { 121,5111 },
- { 122,5111 }, { 123,2246 }, { 124,5111 }, { 125,5111 }, { 126,5111 },
- { 127,5111 }, { 128,5111 }, { 129,5111 }, { 130,5111 }, { 131,5111 },
- { 132,5111 }, { 133,5111 }, { 134,5111 }, { 135,5111 }, { 136,5111 },
- { 137,5111 }, { 138,5111 }, { 139,5111 }, { 140,5111 }, { 141,5111 },
- { 142,5111 }, { 143,5111 }, { 144,5111 }, { 145,5111 }, { 146,5111 },
- { 147,5111 }, { 148,5111 }, { 149,5111 }, { 150,5111 }, { 151,5111 },
- { 152,5111 }, { 153,5111 }, { 154,5111 }, { 155,5111 }, { 156,5111 },
- { 157,5111 }, { 158,5111 }, { 159,5111 }, { 160,5111 }, { 161,5111 },
- { 162,5111 }, { 163,5111 }, { 164,5111 }, { 165,5111 }, { 166,5111 },
-
- { 167,5111 }, { 168,5111 }, { 169,5111 }, { 170,5111 }, { 171,5111 },
- { 172,5111 }, { 173,5111 }, { 174,5111 }, { 175,5111 }, { 176,5111 },
- { 177,5111 }, { 178,5111 }, { 179,5111 }, { 180,5111 }, { 181,5111 },
- { 182,5111 }, { 183,5111 }, { 184,5111 }, { 185,5111 }, { 186,5111 },
- { 187,5111 }, { 188,5111 }, { 189,5111 }, { 190,5111 }, { 191,5111 },
- { 192,5111 }, { 193,5111 }, { 194,5111 }, { 195,5111 }, { 196,5111 },
- { 197,5111 }, { 198,5111 }, { 199,5111 }, { 200,5111 }, { 201,5111 },
- { 202,5111 }, { 203,5111 }, { 204,5111 }, { 205,5111 }, { 206,5111 },
- { 207,5111 }, { 208,5111 }, { 209,5111 }, { 210,5111 }, { 211,5111 },
- { 212,5111 }, { 213,5111 }, { 214,5111 }, { 215,5111 }, { 216,5111 },
-
- { 217,5111 }, { 218,5111 }, { 219,5111 }, { 220,5111 }, { 221,5111 },
- { 222,5111 }, { 223,5111 }, { 224,5111 }, { 225,5111 }, { 226,5111 },
- { 227,5111 }, { 228,5111 }, { 229,5111 }, { 230,5111 }, { 231,5111 },
- { 232,5111 }, { 233,5111 }, { 234,5111 }, { 235,5111 }, { 236,5111 },
- { 237,5111 }, { 238,5111 }, { 239,5111 }, { 240,5111 }, { 241,5111 },
- { 242,5111 }, { 243,5111 }, { 244,5111 }, { 245,5111 }, { 246,5111 },
- { 247,5111 }, { 248,5111 }, { 249,5111 }, { 250,5111 }, { 251,5111 },
- { 252,5111 }, { 253,5111 }, { 254,5111 }, { 255,5111 }, { 256, 779 },
- {   0,   0 }, {   0,20313 }, {   1,4853 }, {   2,4853 }, {   3,4853 },
- {   4,4853 }, {   5,4853 }, {   6,4853 }, {   7,4853 }, {   8,4853 },
-
- {   9,4853 }, {  10,4853 }, {  11,4853 }, {  12,4853 }, {  13,4853 },
- {  14,4853 }, {  15,4853 }, {  16,4853 }, {  17,4853 }, {  18,4853 },
- {  19,4853 }, {  20,4853 }, {  21,4853 }, {  22,4853 }, {  23,4853 },
- {  24,4853 }, {  25,4853 }, {  26,4853 }, {  27,4853 }, {  28,4853 },
- {  29,4853 }, {  30,4853 }, {  31,4853 }, {  32,4853 }, {  33,4853 },
- {  34,4853 }, {  35,4853 }, {  36,4853 }, {  37,4853 }, {  38,4853 },
- {  39,4853 }, {  40,4853 }, {  41,4853 }, {  42,4853 }, {  43,4853 },
- {  44,4853 }, {  45,4853 }, {  46,4853 }, {  47,4853 }, {  48,4853 },
- {  49,4853 }, {  50,4853 }, {  51,4853 }, {  52,4853 }, {  53,4853 },
- {  54,4853 }, {  55,4853 }, {  56,4853 }, {  57,4853 }, {  58,4853 },
-
- {  59,4853 }, {  60,4853 }, {  61,4853 }, {  62,4853 }, {  63,4853 },
- {  64,4853 }, {  65,4853 }, {  66,4853 }, {  67,4853 }, {  68,4853 },
- {  69,4853 }, {  70,4853 }, {  71,4853 }, {  72,4853 }, {  73,4853 },
- {  74,4853 }, {  75,4853 }, {  76,4853 }, {  77,4853 }, {  78,4853 },
- {  79,4853 }, {  80,4853 }, {  81,4853 }, {  82,4853 }, {  83,4853 },
- {  84,4853 }, {  85,4853 }, {  86,4853 }, {  87,4853 }, {  88,4853 },
- {  89,4853 }, {  90,4853 }, {  91,4853 }, {  92,4853 }, {  93,4853 },
- {  94,4853 }, {  95,4853 }, {  96,4853 }, {  97,4853 }, {  98,4853 },
- {  99,4853 }, { 100,4853 }, { 101,4853 }, { 102,4853 }, { 103,4853 },
- { 104,4853 }, { 105,4853 }, { 106,4853 }, { 107,4853 }, { 108,4853 },
-
- { 109,4853 }, { 110,4853 }, { 111,4853 }, { 112,4853 }, { 113,4853 },
- { 114,4853 }, { 115,4853 }, { 116,4853 }, { 117,4853 }, { 118,4853 },
- { 119,4853 }, { 120,4853 }, { 121,4853 }, { 122,4853 }, { 123,1988 },
- { 124,4853 }, { 125,4853 }, { 126,4853 }, { 127,4853 }, { 128,4853 },
- { 129,4853 }, { 130,4853 }, { 131,4853 }, { 132,4853 }, { 133,4853 },
- { 134,4853 }, { 135,4853 }, { 136,4853 }, { 137,4853 }, { 138,4853 },
- { 139,4853 }, { 140,4853 }, { 141,4853 }, { 142,4853 }, { 143,4853 },
- { 144,4853 }, { 145,4853 }, { 146,4853 }, { 147,4853 }, { 148,4853 },
- { 149,4853 }, { 150,4853 }, { 151,4853 }, { 152,4853 }, { 153,4853 },
- { 154,4853 }, { 155,4853 }, { 156,4853 }, { 157,4853 }, { 158,4853 },
-
- { 159,4853 }, { 160,4853 }, { 161,4853 }, { 162,4853 }, { 163,4853 },
- { 164,4853 }, { 165,4853 }, { 166,4853 }, { 167,4853 }, { 168,4853 },
- { 169,4853 }, { 170,4853 }, { 171,4853 }, { 172,4853 }, { 173,4853 },
- { 174,4853 }, { 175,4853 }, { 176,4853 }, { 177,4853 }, { 178,4853 },
- { 179,4853 }, { 180,4853 }, { 181,4853 }, { 182,4853 }, { 183,4853 },
- { 184,4853 }, { 185,4853 }, { 186,4853 }, { 187,4853 }, { 188,4853 },
- { 189,4853 }, { 190,4853 }, { 191,4853 }, { 192,4853 }, { 193,4853 },
- { 194,4853 }, { 195,4853 }, { 196,4853 }, { 197,4853 }, { 198,4853 },
- { 199,4853 }, { 200,4853 }, { 201,4853 }, { 202,4853 }, { 203,4853 },
- { 204,4853 }, { 205,4853 }, { 206,4853 }, { 207,4853 }, { 208,4853 },
-
- { 209,4853 }, { 210,4853 }, { 211,4853 }, { 212,4853 }, { 213,4853 },
- { 214,4853 }, { 215,4853 }, { 216,4853 }, { 217,4853 }, { 218,4853 },
- { 219,4853 }, { 220,4853 }, { 221,4853 }, { 222,4853 }, { 223,4853 },
- { 224,4853 }, { 225,4853 }, { 226,4853 }, { 227,4853 }, { 228,4853 },
- { 229,4853 }, { 230,4853 }, { 231,4853 }, { 232,4853 }, { 233,4853 },
- { 234,4853 }, { 235,4853 }, { 236,4853 }, { 237,4853 }, { 238,4853 },
- { 239,4853 }, { 240,4853 }, { 241,4853 }, { 242,4853 }, { 243,4853 },
- { 244,4853 }, { 245,4853 }, { 246,4853 }, { 247,4853 }, { 248,4853 },
- { 249,4853 }, { 250,4853 }, { 251,4853 }, { 252,4853 }, { 253,4853 },
- { 254,4853 }, { 255,4853 }, { 256, 521 }, {   0,   2 }, {   0,20055 },
-
- {   1,4852 }, {   2,4852 }, {   3,4852 }, {   4,4852 }, {   5,4852 },
- {   6,4852 }, {   7,4852 }, {   8,4852 }, {   9,4852 }, {  10,5109 },
- {  11,4852 }, {  12,4852 }, {  13,5109 }, {  14,4852 }, {  15,4852 },
- {  16,4852 }, {  17,4852 }, {  18,4852 }, {  19,4852 }, {  20,4852 },
- {  21,4852 }, {  22,4852 }, {  23,4852 }, {  24,4852 }, {  25,4852 },
- {  26,4852 }, {  27,4852 }, {  28,4852 }, {  29,4852 }, {  30,4852 },
- {  31,4852 }, {  32,4852 }, {  33,4852 }, {  34,4852 }, {  35,4852 },
- {  36,4852 }, {  37,4852 }, {  38,4852 }, {  39,4852 }, {  40,4852 },
- {  41,4852 }, {  42,4852 }, {  43,4852 }, {  44,4852 }, {  45,4852 },
- {  46,4852 }, {  47,4852 }, {  48,4852 }, {  49,4852 }, {  50,4852 },
-
- {  51,4852 }, {  52,4852 }, {  53,4852 }, {  54,4852 }, {  55,4852 },
- {  56,4852 }, {  57,4852 }, {  58,4852 }, {  59,4852 }, {  60,4852 },
- {  61,4852 }, {  62,4852 }, {  63,4852 }, {  64,4852 }, {  65,4852 },
- {  66,4852 }, {  67,4852 }, {  68,4852 }, {  69,4852 }, {  70,4852 },
- {  71,4852 }, {  72,4852 }, {  73,4852 }, {  74,4852 }, {  75,4852 },
- {  76,4852 }, {  77,4852 }, {  78,4852 }, {  79,4852 }, {  80,4852 },
- {  81,4852 }, {  82,4852 }, {  83,4852 }, {  84,4852 }, {  85,4852 },
- {  86,4852 }, {  87,4852 }, {  88,4852 }, {  89,4852 }, {  90,4852 },
- {  91,4852 }, {  92,5111 }, {  93,4852 }, {  94,4852 }, {  95,4852 },
- {  96,4852 }, {  97,4852 }, {  98,4852 }, {  99,4852 }, { 100,4852 },
-
- { 101,4852 }, { 102,4852 }, { 103,4852 }, { 104,4852 }, { 105,4852 },
- { 106,4852 }, { 107,4852 }, { 108,4852 }, { 109,4852 }, { 110,4852 },
- { 111,4852 }, { 112,4852 }, { 113,4852 }, { 114,4852 }, { 115,4852 },
- { 116,4852 }, { 117,4852 }, { 118,4852 }, { 119,4852 }, { 120,4852 },
- { 121,4852 }, { 122,4852 }, {   0,   0 }, { 124,4852 }, { 125,4852 },
- { 126,4852 }, { 127,4852 }, { 128,4852 }, { 129,4852 }, { 130,4852 },
- { 131,4852 }, { 132,4852 }, { 133,4852 }, { 134,4852 }, { 135,4852 },
- { 136,4852 }, { 137,4852 }, { 138,4852 }, { 139,4852 }, { 140,4852 },
- { 141,4852 }, { 142,4852 }, { 143,4852 }, { 144,4852 }, { 145,4852 },
- { 146,4852 }, { 147,4852 }, { 148,4852 }, { 149,4852 }, { 150,4852 },
-
- { 151,4852 }, { 152,4852 }, { 153,4852 }, { 154,4852 }, { 155,4852 },
- { 156,4852 }, { 157,4852 }, { 158,4852 }, { 159,4852 }, { 160,4852 },
- { 161,4852 }, { 162,4852 }, { 163,4852 }, { 164,4852 }, { 165,4852 },
- { 166,4852 }, { 167,4852 }, { 168,4852 }, { 169,4852 }, { 170,4852 },
- { 171,4852 }, { 172,4852 }, { 173,4852 }, { 174,4852 }, { 175,4852 },
- { 176,4852 }, { 177,4852 }, { 178,4852 }, { 179,4852 }, { 180,4852 },
- { 181,4852 }, { 182,4852 }, { 183,4852 }, { 184,4852 }, { 185,4852 },
- { 186,4852 }, { 187,4852 }, { 188,4852 }, { 189,4852 }, { 190,4852 },
- { 191,4852 }, { 192,4852 }, { 193,4852 }, { 194,4852 }, { 195,4852 },
- { 196,4852 }, { 197,4852 }, { 198,4852 }, { 199,4852 }, { 200,4852 },
-
- { 201,4852 }, { 202,4852 }, { 203,4852 }, { 204,4852 }, { 205,4852 },
- { 206,4852 }, { 207,4852 }, { 208,4852 }, { 209,4852 }, { 210,4852 },
- { 211,4852 }, { 212,4852 }, { 213,4852 }, { 214,4852 }, { 215,4852 },
- { 216,4852 }, { 217,4852 }, { 218,4852 }, { 219,4852 }, { 220,4852 },
- { 221,4852 }, { 222,4852 }, { 223,4852 }, { 224,4852 }, { 225,4852 },
- { 226,4852 }, { 227,4852 }, { 228,4852 }, { 229,4852 }, { 230,4852 },
- { 231,4852 }, { 232,4852 }, { 233,4852 }, { 234,4852 }, { 235,4852 },
- { 236,4852 }, { 237,4852 }, { 238,4852 }, { 239,4852 }, { 240,4852 },
- { 241,4852 }, { 242,4852 }, { 243,4852 }, { 244,4852 }, { 245,4852 },
- { 246,4852 }, { 247,4852 }, { 248,4852 }, { 249,4852 }, { 250,4852 },
-
- { 251,4852 }, { 252,4852 }, { 253,4852 }, { 254,4852 }, { 255,4852 },
- {   0,   2 }, {   0,19798 }, {   0,   6 }, {   0,19796 }, {   0,   6 },
- {   0,19794 }, {   0,  52 }, {   0,19792 }, {   0,  36 }, {   0,19790 },
- {   0,   0 }, {  10,4852 }, {   0,   0 }, {   0,   0 }, {  13,4852 },
- {   0,  36 }, {   0,19783 }, {   0,   0 }, {   9,4859 }, {  10,4859 },
- {   0,  51 }, {   0,19778 }, {  13,4859 }, {   0,  15 }, {   0,19775 },
- {   9,4852 }, {  10,4852 }, {   0,  16 }, {   0,19771 }, {  13,4852 },
- {   0,  35 }, {   0,19768 }, {   0,  32 }, {   0,19766 }, {   0,  41 },
- {   0,19764 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,4859 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4852 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4854 }, {   0,   0 },
-
- {  92,4854 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,4856 }, {   0,   0 }, { 123,4856 }, {   0,   2 },
- {   0,19669 }, {   1,4466 }, {   2,4466 }, {   3,4466 }, {   4,4466 },
- {   5,4466 }, {   6,4466 }, {   7,4466 }, {   8,4466 }, {   9,4466 },
- {  10,4723 }, {  11,4466 }, {  12,4466 }, {  13,4723 }, {  14,4466 },
-
- {  15,4466 }, {  16,4466 }, {  17,4466 }, {  18,4466 }, {  19,4466 },
- {  20,4466 }, {  21,4466 }, {  22,4466 }, {  23,4466 }, {  24,4466 },
- {  25,4466 }, {  26,4466 }, {  27,4466 }, {  28,4466 }, {  29,4466 },
- {  30,4466 }, {  31,4466 }, {  32,4466 }, {  33,4466 }, {  34,4466 },
- {  35,4466 }, {  36,4466 }, {  37,4466 }, {  38,4466 }, {  39,4466 },
- {  40,4466 }, {  41,4466 }, {  42,4466 }, {  43,4466 }, {  44,4466 },
- {  45,4466 }, {  46,4466 }, {  47,4466 }, {  48,4466 }, {  49,4466 },
- {  50,4466 }, {  51,4466 }, {  52,4466 }, {  53,4466 }, {  54,4466 },
- {  55,4466 }, {  56,4466 }, {  57,4466 }, {  58,4466 }, {  59,4466 },
- {  60,4466 }, {  61,4466 }, {  62,4466 }, {  63,4466 }, {  64,4466 },
-
- {  65,4466 }, {  66,4466 }, {  67,4466 }, {  68,4466 }, {  69,4466 },
- {  70,4466 }, {  71,4466 }, {  72,4466 }, {  73,4466 }, {  74,4466 },
- {  75,4466 }, {  76,4466 }, {  77,4466 }, {  78,4466 }, {  79,4466 },
- {  80,4466 }, {  81,4466 }, {  82,4466 }, {  83,4466 }, {  84,4466 },
- {  85,4466 }, {  86,4466 }, {  87,4466 }, {  88,4466 }, {  89,4466 },
- {  90,4466 }, {  91,4466 }, {  92,4725 }, {  93,4466 }, {  94,4466 },
- {  95,4466 }, {  96,4466 }, {  97,4466 }, {  98,4466 }, {  99,4466 },
- { 100,4466 }, { 101,4466 }, { 102,4466 }, { 103,4466 }, { 104,4466 },
- { 105,4466 }, { 106,4466 }, { 107,4466 }, { 108,4466 }, { 109,4466 },
- { 110,4466 }, { 111,4466 }, { 112,4466 }, { 113,4466 }, { 114,4466 },
-
- { 115,4466 }, { 116,4466 }, { 117,4466 }, { 118,4466 }, { 119,4466 },
- { 120,4466 }, { 121,4466 }, { 122,4466 }, {   0,   0 }, { 124,4466 },
- { 125,4466 }, { 126,4466 }, { 127,4466 }, { 128,4466 }, { 129,4466 },
- { 130,4466 }, { 131,4466 }, { 132,4466 }, { 133,4466 }, { 134,4466 },
- { 135,4466 }, { 136,4466 }, { 137,4466 }, { 138,4466 }, { 139,4466 },
- { 140,4466 }, { 141,4466 }, { 142,4466 }, { 143,4466 }, { 144,4466 },
- { 145,4466 }, { 146,4466 }, { 147,4466 }, { 148,4466 }, { 149,4466 },
- { 150,4466 }, { 151,4466 }, { 152,4466 }, { 153,4466 }, { 154,4466 },
- { 155,4466 }, { 156,4466 }, { 157,4466 }, { 158,4466 }, { 159,4466 },
- { 160,4466 }, { 161,4466 }, { 162,4466 }, { 163,4466 }, { 164,4466 },
-
- { 165,4466 }, { 166,4466 }, { 167,4466 }, { 168,4466 }, { 169,4466 },
- { 170,4466 }, { 171,4466 }, { 172,4466 }, { 173,4466 }, { 174,4466 },
- { 175,4466 }, { 176,4466 }, { 177,4466 }, { 178,4466 }, { 179,4466 },
- { 180,4466 }, { 181,4466 }, { 182,4466 }, { 183,4466 }, { 184,4466 },
- { 185,4466 }, { 186,4466 }, { 187,4466 }, { 188,4466 }, { 189,4466 },
- { 190,4466 }, { 191,4466 }, { 192,4466 }, { 193,4466 }, { 194,4466 },
- { 195,4466 }, { 196,4466 }, { 197,4466 }, { 198,4466 }, { 199,4466 },
- { 200,4466 }, { 201,4466 }, { 202,4466 }, { 203,4466 }, { 204,4466 },
- { 205,4466 }, { 206,4466 }, { 207,4466 }, { 208,4466 }, { 209,4466 },
- { 210,4466 }, { 211,4466 }, { 212,4466 }, { 213,4466 }, { 214,4466 },
-
- { 215,4466 }, { 216,4466 }, { 217,4466 }, { 218,4466 }, { 219,4466 },
- { 220,4466 }, { 221,4466 }, { 222,4466 }, { 223,4466 }, { 224,4466 },
- { 225,4466 }, { 226,4466 }, { 227,4466 }, { 228,4466 }, { 229,4466 },
- { 230,4466 }, { 231,4466 }, { 232,4466 }, { 233,4466 }, { 234,4466 },
- { 235,4466 }, { 236,4466 }, { 237,4466 }, { 238,4466 }, { 239,4466 },
- { 240,4466 }, { 241,4466 }, { 242,4466 }, { 243,4466 }, { 244,4466 },
- { 245,4466 }, { 246,4466 }, { 247,4466 }, { 248,4466 }, { 249,4466 },
- { 250,4466 }, { 251,4466 }, { 252,4466 }, { 253,4466 }, { 254,4466 },
- { 255,4466 }, {   0,  51 }, {   0,19412 }, {   1,4599 }, {   2,4599 },
- {   3,4599 }, {   4,4599 }, {   5,4599 }, {   6,4599 }, {   7,4599 },
-
- {   8,4599 }, {   9,4478 }, {  10,4478 }, {  11,4599 }, {  12,4599 },
- {  13,4478 }, {  14,4599 }, {  15,4599 }, {  16,4599 }, {  17,4599 },
- {  18,4599 }, {  19,4599 }, {  20,4599 }, {  21,4599 }, {  22,4599 },
- {  23,4599 }, {  24,4599 }, {  25,4599 }, {  26,4599 }, {  27,4599 },
- {  28,4599 }, {  29,4599 }, {  30,4599 }, {  31,4599 }, {  32,4478 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4599 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4478 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,4599 }, {  46,4478 }, {  47,4478 },
- {  48,4599 }, {  49,4599 }, {  50,4599 }, {  51,4599 }, {  52,4599 },
- {  53,4599 }, {  54,4599 }, {  55,4599 }, {  56,4599 }, {  57,4599 },
-
- {  58,4599 }, {   0,   0 }, {   0,   0 }, {  61,4478 }, {   0,   0 },
- {  63,4599 }, {   0,   0 }, {  65,4599 }, {  66,4599 }, {  67,4599 },
- {  68,4599 }, {  69,4599 }, {  70,4599 }, {  71,4599 }, {  72,4599 },
- {  73,4599 }, {  74,4599 }, {  75,4599 }, {  76,4599 }, {  77,4599 },
- {  78,4599 }, {  79,4599 }, {  80,4599 }, {  81,4599 }, {  82,4599 },
- {  83,4599 }, {  84,4599 }, {  85,4599 }, {  86,4599 }, {  87,4599 },
- {  88,4599 }, {  89,4599 }, {  90,4599 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,4599 }, {   0,   0 }, {  97,4599 },
- {  98,4599 }, {  99,4599 }, { 100,4599 }, { 101,4599 }, { 102,4599 },
- { 103,4599 }, { 104,4599 }, { 105,4599 }, { 106,4599 }, { 107,4599 },
-
- { 108,4599 }, { 109,4599 }, { 110,4599 }, { 111,4599 }, { 112,4599 },
- { 113,4599 }, { 114,4599 }, { 115,4599 }, { 116,4599 }, { 117,4599 },
- { 118,4599 }, { 119,4599 }, { 120,4599 }, { 121,4599 }, { 122,4599 },
- {   0,   0 }, { 124,4478 }, { 125,4478 }, { 126,4478 }, { 127,4599 },
- { 128,4599 }, { 129,4599 }, { 130,4599 }, { 131,4599 }, { 132,4599 },
- { 133,4599 }, { 134,4599 }, { 135,4599 }, { 136,4599 }, { 137,4599 },
- { 138,4599 }, { 139,4599 }, { 140,4599 }, { 141,4599 }, { 142,4599 },
- { 143,4599 }, { 144,4599 }, { 145,4599 }, { 146,4599 }, { 147,4599 },
- { 148,4599 }, { 149,4599 }, { 150,4599 }, { 151,4599 }, { 152,4599 },
- { 153,4599 }, { 154,4599 }, { 155,4599 }, { 156,4599 }, { 157,4599 },
-
- { 158,4599 }, { 159,4599 }, { 160,4599 }, { 161,4599 }, { 162,4599 },
- { 163,4599 }, { 164,4599 }, { 165,4599 }, { 166,4599 }, { 167,4599 },
- { 168,4599 }, { 169,4599 }, { 170,4599 }, { 171,4599 }, { 172,4599 },
- { 173,4599 }, { 174,4599 }, { 175,4599 }, { 176,4599 }, { 177,4599 },
- { 178,4599 }, { 179,4599 }, { 180,4599 }, { 181,4599 }, { 182,4599 },
- { 183,4599 }, { 184,4599 }, { 185,4599 }, { 186,4599 }, { 187,4599 },
- { 188,4599 }, { 189,4599 }, { 190,4599 }, { 191,4599 }, { 192,4599 },
- { 193,4599 }, { 194,4599 }, { 195,4599 }, { 196,4599 }, { 197,4599 },
- { 198,4599 }, { 199,4599 }, { 200,4599 }, { 201,4599 }, { 202,4599 },
- { 203,4599 }, { 204,4599 }, { 205,4599 }, { 206,4599 }, { 207,4599 },
-
- { 208,4599 }, { 209,4599 }, { 210,4599 }, { 211,4599 }, { 212,4599 },
- { 213,4599 }, { 214,4599 }, { 215,4599 }, { 216,4599 }, { 217,4599 },
- { 218,4599 }, { 219,4599 }, { 220,4599 }, { 221,4599 }, { 222,4599 },
- { 223,4599 }, { 224,4599 }, { 225,4599 }, { 226,4599 }, { 227,4599 },
- { 228,4599 }, { 229,4599 }, { 230,4599 }, { 231,4599 }, { 232,4599 },
- { 233,4599 }, { 234,4599 }, { 235,4599 }, { 236,4599 }, { 237,4599 },
- { 238,4599 }, { 239,4599 }, { 240,4599 }, { 241,4599 }, { 242,4599 },
- { 243,4599 }, { 244,4599 }, { 245,4599 }, { 246,4599 }, { 247,4599 },
- { 248,4599 }, { 249,4599 }, { 250,4599 }, { 251,4599 }, { 252,4599 },
- { 253,4599 }, { 254,4599 }, { 255,4599 }, { 256,4599 }, {   0,  51 },
-
- {   0,19154 }, {   1,4599 }, {   2,4599 }, {   3,4599 }, {   4,4599 },
- {   5,4599 }, {   6,4599 }, {   7,4599 }, {   8,4599 }, {   9,4599 },
- {  10,4599 }, {  11,4599 }, {  12,4599 }, {  13,4599 }, {  14,4599 },
- {  15,4599 }, {  16,4599 }, {  17,4599 }, {  18,4599 }, {  19,4599 },
- {  20,4599 }, {  21,4599 }, {  22,4599 }, {  23,4599 }, {  24,4599 },
- {  25,4599 }, {  26,4599 }, {  27,4599 }, {  28,4599 }, {  29,4599 },
- {  30,4599 }, {  31,4599 }, {  32,4599 }, {  33,4599 }, {  34,4225 },
- {  35,4599 }, {  36,4599 }, {  37,4599 }, {  38,4599 }, {  39,4599 },
- {  40,4599 }, {  41,4599 }, {  42,4599 }, {  43,4599 }, {  44,4599 },
- {  45,4599 }, {  46,4599 }, {  47,4599 }, {  48,4599 }, {  49,4599 },
-
- {  50,4599 }, {  51,4599 }, {  52,4599 }, {  53,4599 }, {  54,4599 },
- {  55,4599 }, {  56,4599 }, {  57,4599 }, {  58,4599 }, {  59,4599 },
- {  60,4599 }, {  61,4599 }, {  62,4599 }, {  63,4599 }, {  64,4599 },
- {  65,4599 }, {  66,4599 }, {  67,4599 }, {  68,4599 }, {  69,4599 },
- {  70,4599 }, {  71,4599 }, {  72,4599 }, {  73,4599 }, {  74,4599 },
- {  75,4599 }, {  76,4599 }, {  77,4599 }, {  78,4599 }, {  79,4599 },
- {  80,4599 }, {  81,4599 }, {  82,4599 }, {  83,4599 }, {  84,4599 },
- {  85,4599 }, {  86,4599 }, {  87,4599 }, {  88,4599 }, {  89,4599 },
- {  90,4599 }, {  91,4599 }, {  92,4857 }, {  93,4599 }, {  94,4599 },
- {  95,4599 }, {  96,4599 }, {  97,4599 }, {  98,4599 }, {  99,4599 },
-
- { 100,4599 }, { 101,4599 }, { 102,4599 }, { 103,4599 }, { 104,4599 },
- { 105,4599 }, { 106,4599 }, { 107,4599 }, { 108,4599 }, { 109,4599 },
- { 110,4599 }, { 111,4599 }, { 112,4599 }, { 113,4599 }, { 114,4599 },
- { 115,4599 }, { 116,4599 }, { 117,4599 }, { 118,4599 }, { 119,4599 },
- { 120,4599 }, { 121,4599 }, { 122,4599 }, { 123,4599 }, { 124,4599 },
- { 125,4599 }, { 126,4599 }, { 127,4599 }, { 128,4599 }, { 129,4599 },
- { 130,4599 }, { 131,4599 }, { 132,4599 }, { 133,4599 }, { 134,4599 },
- { 135,4599 }, { 136,4599 }, { 137,4599 }, { 138,4599 }, { 139,4599 },
- { 140,4599 }, { 141,4599 }, { 142,4599 }, { 143,4599 }, { 144,4599 },
- { 145,4599 }, { 146,4599 }, { 147,4599 }, { 148,4599 }, { 149,4599 },
-
- { 150,4599 }, { 151,4599 }, { 152,4599 }, { 153,4599 }, { 154,4599 },
- { 155,4599 }, { 156,4599 }, { 157,4599 }, { 158,4599 }, { 159,4599 },
- { 160,4599 }, { 161,4599 }, { 162,4599 }, { 163,4599 }, { 164,4599 },
- { 165,4599 }, { 166,4599 }, { 167,4599 }, { 168,4599 }, { 169,4599 },
- { 170,4599 }, { 171,4599 }, { 172,4599 }, { 173,4599 }, { 174,4599 },
- { 175,4599 }, { 176,4599 }, { 177,4599 }, { 178,4599 }, { 179,4599 },
- { 180,4599 }, { 181,4599 }, { 182,4599 }, { 183,4599 }, { 184,4599 },
- { 185,4599 }, { 186,4599 }, { 187,4599 }, { 188,4599 }, { 189,4599 },
- { 190,4599 }, { 191,4599 }, { 192,4599 }, { 193,4599 }, { 194,4599 },
- { 195,4599 }, { 196,4599 }, { 197,4599 }, { 198,4599 }, { 199,4599 },
-
- { 200,4599 }, { 201,4599 }, { 202,4599 }, { 203,4599 }, { 204,4599 },
- { 205,4599 }, { 206,4599 }, { 207,4599 }, { 208,4599 }, { 209,4599 },
- { 210,4599 }, { 211,4599 }, { 212,4599 }, { 213,4599 }, { 214,4599 },
- { 215,4599 }, { 216,4599 }, { 217,4599 }, { 218,4599 }, { 219,4599 },
- { 220,4599 }, { 221,4599 }, { 222,4599 }, { 223,4599 }, { 224,4599 },
- { 225,4599 }, { 226,4599 }, { 227,4599 }, { 228,4599 }, { 229,4599 },
- { 230,4599 }, { 231,4599 }, { 232,4599 }, { 233,4599 }, { 234,4599 },
- { 235,4599 }, { 236,4599 }, { 237,4599 }, { 238,4599 }, { 239,4599 },
- { 240,4599 }, { 241,4599 }, { 242,4599 }, { 243,4599 }, { 244,4599 },
- { 245,4599 }, { 246,4599 }, { 247,4599 }, { 248,4599 }, { 249,4599 },
-
- { 250,4599 }, { 251,4599 }, { 252,4599 }, { 253,4599 }, { 254,4599 },
- { 255,4599 }, { 256,4599 }, {   0,  51 }, {   0,18896 }, {   1,4857 },
- {   2,4857 }, {   3,4857 }, {   4,4857 }, {   5,4857 }, {   6,4857 },
- {   7,4857 }, {   8,4857 }, {   9,4857 }, {  10,4857 }, {  11,4857 },
- {  12,4857 }, {  13,4857 }, {  14,4857 }, {  15,4857 }, {  16,4857 },
- {  17,4857 }, {  18,4857 }, {  19,4857 }, {  20,4857 }, {  21,4857 },
- {  22,4857 }, {  23,4857 }, {  24,4857 }, {  25,4857 }, {  26,4857 },
- {  27,4857 }, {  28,4857 }, {  29,4857 }, {  30,4857 }, {  31,4857 },
- {  32,4857 }, {  33,4857 }, {  34,4857 }, {  35,4857 }, {  36,4857 },
- {  37,4857 }, {  38,4857 }, {  39,3969 }, {  40,4857 }, {  41,4857 },
-
- {  42,4857 }, {  43,4857 }, {  44,4857 }, {  45,4857 }, {  46,4857 },
- {  47,4857 }, {  48,4857 }, {  49,4857 }, {  50,4857 }, {  51,4857 },
- {  52,4857 }, {  53,4857 }, {  54,4857 }, {  55,4857 }, {  56,4857 },
- {  57,4857 }, {  58,4857 }, {  59,4857 }, {  60,4857 }, {  61,4857 },
- {  62,4857 }, {  63,4857 }, {  64,4857 }, {  65,4857 }, {  66,4857 },
- {  67,4857 }, {  68,4857 }, {  69,4857 }, {  70,4857 }, {  71,4857 },
- {  72,4857 }, {  73,4857 }, {  74,4857 }, {  75,4857 }, {  76,4857 },
- {  77,4857 }, {  78,4857 }, {  79,4857 }, {  80,4857 }, {  81,4857 },
- {  82,4857 }, {  83,4857 }, {  84,4857 }, {  85,4857 }, {  86,4857 },
- {  87,4857 }, {  88,4857 }, {  89,4857 }, {  90,4857 }, {  91,4857 },
-
- {  92,5115 }, {  93,4857 }, {  94,4857 }, {  95,4857 }, {  96,4857 },
- {  97,4857 }, {  98,4857 }, {  99,4857 }, { 100,4857 }, { 101,4857 },
- { 102,4857 }, { 103,4857 }, { 104,4857 }, { 105,4857 }, { 106,4857 },
- { 107,4857 }, { 108,4857 }, { 109,4857 }, { 110,4857 }, { 111,4857 },
- { 112,4857 }, { 113,4857 }, { 114,4857 }, { 115,4857 }, { 116,4857 },
- { 117,4857 }, { 118,4857 }, { 119,4857 }, { 120,4857 }, { 121,4857 },
- { 122,4857 }, { 123,4857 }, { 124,4857 }, { 125,4857 }, { 126,4857 },
- { 127,4857 }, { 128,4857 }, { 129,4857 }, { 130,4857 }, { 131,4857 },
- { 132,4857 }, { 133,4857 }, { 134,4857 }, { 135,4857 }, { 136,4857 },
- { 137,4857 }, { 138,4857 }, { 139,4857 }, { 140,4857 }, { 141,4857 },
-
- { 142,4857 }, { 143,4857 }, { 144,4857 }, { 145,4857 }, { 146,4857 },
- { 147,4857 }, { 148,4857 }, { 149,4857 }, { 150,4857 }, { 151,4857 },
- { 152,4857 }, { 153,4857 }, { 154,4857 }, { 155,4857 }, { 156,4857 },
- { 157,4857 }, { 158,4857 }, { 159,4857 }, { 160,4857 }, { 161,4857 },
- { 162,4857 }, { 163,4857 }, { 164,4857 }, { 165,4857 }, { 166,4857 },
- { 167,4857 }, { 168,4857 }, { 169,4857 }, { 170,4857 }, { 171,4857 },
- { 172,4857 }, { 173,4857 }, { 174,4857 }, { 175,4857 }, { 176,4857 },
- { 177,4857 }, { 178,4857 }, { 179,4857 }, { 180,4857 }, { 181,4857 },
- { 182,4857 }, { 183,4857 }, { 184,4857 }, { 185,4857 }, { 186,4857 },
- { 187,4857 }, { 188,4857 }, { 189,4857 }, { 190,4857 }, { 191,4857 },
-
- { 192,4857 }, { 193,4857 }, { 194,4857 }, { 195,4857 }, { 196,4857 },
- { 197,4857 }, { 198,4857 }, { 199,4857 }, { 200,4857 }, { 201,4857 },
- { 202,4857 }, { 203,4857 }, { 204,4857 }, { 205,4857 }, { 206,4857 },
- { 207,4857 }, { 208,4857 }, { 209,4857 }, { 210,4857 }, { 211,4857 },
- { 212,4857 }, { 213,4857 }, { 214,4857 }, { 215,4857 }, { 216,4857 },
- { 217,4857 }, { 218,4857 }, { 219,4857 }, { 220,4857 }, { 221,4857 },
- { 222,4857 }, { 223,4857 }, { 224,4857 }, { 225,4857 }, { 226,4857 },
- { 227,4857 }, { 228,4857 }, { 229,4857 }, { 230,4857 }, { 231,4857 },
- { 232,4857 }, { 233,4857 }, { 234,4857 }, { 235,4857 }, { 236,4857 },
- { 237,4857 }, { 238,4857 }, { 239,4857 }, { 240,4857 }, { 241,4857 },
-
- { 242,4857 }, { 243,4857 }, { 244,4857 }, { 245,4857 }, { 246,4857 },
- { 247,4857 }, { 248,4857 }, { 249,4857 }, { 250,4857 }, { 251,4857 },
- { 252,4857 }, { 253,4857 }, { 254,4857 }, { 255,4857 }, { 256,4857 },
- {   0,  51 }, {   0,18638 }, {   1,3825 }, {   2,3825 }, {   3,3825 },
- {   4,3825 }, {   5,3825 }, {   6,3825 }, {   7,3825 }, {   8,3825 },
- {   9,3704 }, {  10,3704 }, {  11,3825 }, {  12,3825 }, {  13,3704 },
- {  14,3825 }, {  15,3825 }, {  16,3825 }, {  17,3825 }, {  18,3825 },
- {  19,3825 }, {  20,3825 }, {  21,3825 }, {  22,3825 }, {  23,3825 },
- {  24,3825 }, {  25,3825 }, {  26,3825 }, {  27,3825 }, {  28,3825 },
- {  29,3825 }, {  30,3825 }, {  31,3825 }, {  32,3704 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,3825 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3704 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,3825 }, {  46,3704 }, {  47,3704 }, {  48,5115 },
- {  49,5115 }, {  50,5115 }, {  51,5115 }, {  52,5115 }, {  53,5115 },
- {  54,5115 }, {  55,5115 }, {  56,5115 }, {  57,5115 }, {  58,3825 },
- {   0,   0 }, {   0,   0 }, {  61,3704 }, {   0,   0 }, {  63,3825 },
- {   0,   0 }, {  65,3825 }, {  66,3825 }, {  67,3825 }, {  68,3825 },
- {  69,3825 }, {  70,3825 }, {  71,3825 }, {  72,3825 }, {  73,3825 },
- {  74,3825 }, {  75,3825 }, {  76,3825 }, {  77,3825 }, {  78,3825 },
- {  79,3825 }, {  80,3825 }, {  81,3825 }, {  82,3825 }, {  83,3825 },
-
- {  84,3825 }, {  85,3825 }, {  86,3825 }, {  87,3825 }, {  88,3825 },
- {  89,3825 }, {  90,3825 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,3825 }, {   0,   0 }, {  97,3825 }, {  98,3825 },
- {  99,3825 }, { 100,3825 }, { 101,3825 }, { 102,3825 }, { 103,3825 },
- { 104,3825 }, { 105,3825 }, { 106,3825 }, { 107,3825 }, { 108,3825 },
- { 109,3825 }, { 110,3825 }, { 111,3825 }, { 112,3825 }, { 113,3825 },
- { 114,3825 }, { 115,3825 }, { 116,3825 }, { 117,3825 }, { 118,3825 },
- { 119,3825 }, { 120,3825 }, { 121,3825 }, { 122,3825 }, {   0,   0 },
- { 124,3704 }, { 125,3704 }, { 126,3704 }, { 127,3825 }, { 128,3825 },
- { 129,3825 }, { 130,3825 }, { 131,3825 }, { 132,3825 }, { 133,3825 },
-
- { 134,3825 }, { 135,3825 }, { 136,3825 }, { 137,3825 }, { 138,3825 },
- { 139,3825 }, { 140,3825 }, { 141,3825 }, { 142,3825 }, { 143,3825 },
- { 144,3825 }, { 145,3825 }, { 146,3825 }, { 147,3825 }, { 148,3825 },
- { 149,3825 }, { 150,3825 }, { 151,3825 }, { 152,3825 }, { 153,3825 },
- { 154,3825 }, { 155,3825 }, { 156,3825 }, { 157,3825 }, { 158,3825 },
- { 159,3825 }, { 160,3825 }, { 161,3825 }, { 162,3825 }, { 163,3825 },
- { 164,3825 }, { 165,3825 }, { 166,3825 }, { 167,3825 }, { 168,3825 },
- { 169,3825 }, { 170,3825 }, { 171,3825 }, { 172,3825 }, { 173,3825 },
- { 174,3825 }, { 175,3825 }, { 176,3825 }, { 177,3825 }, { 178,3825 },
- { 179,3825 }, { 180,3825 }, { 181,3825 }, { 182,3825 }, { 183,3825 },
-
- { 184,3825 }, { 185,3825 }, { 186,3825 }, { 187,3825 }, { 188,3825 },
- { 189,3825 }, { 190,3825 }, { 191,3825 }, { 192,3825 }, { 193,3825 },
- { 194,3825 }, { 195,3825 }, { 196,3825 }, { 197,3825 }, { 198,3825 },
- { 199,3825 }, { 200,3825 }, { 201,3825 }, { 202,3825 }, { 203,3825 },
- { 204,3825 }, { 205,3825 }, { 206,3825 }, { 207,3825 }, { 208,3825 },
- { 209,3825 }, { 210,3825 }, { 211,3825 }, { 212,3825 }, { 213,3825 },
- { 214,3825 }, { 215,3825 }, { 216,3825 }, { 217,3825 }, { 218,3825 },
- { 219,3825 }, { 220,3825 }, { 221,3825 }, { 222,3825 }, { 223,3825 },
- { 224,3825 }, { 225,3825 }, { 226,3825 }, { 227,3825 }, { 228,3825 },
- { 229,3825 }, { 230,3825 }, { 231,3825 }, { 232,3825 }, { 233,3825 },
-
- { 234,3825 }, { 235,3825 }, { 236,3825 }, { 237,3825 }, { 238,3825 },
- { 239,3825 }, { 240,3825 }, { 241,3825 }, { 242,3825 }, { 243,3825 },
- { 244,3825 }, { 245,3825 }, { 246,3825 }, { 247,3825 }, { 248,3825 },
- { 249,3825 }, { 250,3825 }, { 251,3825 }, { 252,3825 }, { 253,3825 },
- { 254,3825 }, { 255,3825 }, { 256,3825 }, {   0,  35 }, {   0,18380 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3455 }, {  10,3455 },
- {   0,   0 }, {   0,   0 }, {  13,3455 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  51 }, {   0,18362 }, {   0,  43 }, {   0,18360 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,3455 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,3455 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3457 }, {  47,3455 }, {   0,  51 }, {   0,18331 }, {   0,  51 },
- {   0,18329 }, {   0,   7 }, {   0,18327 }, {   0,  11 }, {   0,18325 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  61,3455 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  51 }, {   0,18298 }, {   1,3485 }, {   2,3485 }, {   3,3485 },
- {   4,3485 }, {   5,3485 }, {   6,3485 }, {   7,3485 }, {   8,3485 },
- {   9,3379 }, {  10,3379 }, {  11,3485 }, {  12,3485 }, {  13,3379 },
- {  14,3485 }, {  15,3485 }, {  16,3485 }, {  17,3485 }, {  18,3485 },
- {  19,3485 }, {  20,3485 }, {  21,3485 }, {  22,3485 }, {  23,3485 },
- {  24,3485 }, {  25,3485 }, {  26,3485 }, {  27,3485 }, {  28,3485 },
- {  29,3485 }, {  30,3485 }, {  31,3485 }, {  32,3379 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,3485 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3379 }, { 124,3455 }, { 125,3455 },
-
- { 126,3455 }, {  45,3485 }, {  46,5033 }, {  47,3364 }, {  48,4775 },
- {  49,4775 }, {  50,4775 }, {  51,4775 }, {  52,4775 }, {  53,4775 },
- {  54,4775 }, {  55,4775 }, {  56,4775 }, {  57,4775 }, {  58,3485 },
- { 123,6962 }, {   0,   0 }, {  61,3364 }, {   0,   0 }, {  63,3485 },
- {   0,   0 }, {  65,3485 }, {  66,3485 }, {  67,3485 }, {  68,3485 },
- {  69,3485 }, {  70,3485 }, {  71,3485 }, {  72,3485 }, {  73,3485 },
- {  74,3485 }, {  75,3485 }, {  76,3485 }, {  77,3485 }, {  78,3485 },
- {  79,3485 }, {  80,3485 }, {  81,3485 }, {  82,3485 }, {  83,3485 },
- {  84,3485 }, {  85,3485 }, {  86,3485 }, {  87,3485 }, {  88,3485 },
- {  89,3485 }, {  90,3485 }, {   0,   0 }, { 125,3426 }, { 126,3428 },
-
- { 125,3428 }, {  95,3485 }, { 123,3431 }, {  97,3485 }, {  98,3485 },
- {  99,3485 }, { 100,3485 }, { 101,3485 }, { 102,3485 }, { 103,3485 },
- { 104,3485 }, { 105,3485 }, { 106,3485 }, { 107,3485 }, { 108,3485 },
- { 109,3485 }, { 110,3485 }, { 111,3485 }, { 112,3485 }, { 113,3485 },
- { 114,3485 }, { 115,3485 }, { 116,3485 }, { 117,3485 }, { 118,3485 },
- { 119,3485 }, { 120,3485 }, { 121,3485 }, { 122,3485 }, {   0,   0 },
- { 124,3364 }, { 125,3379 }, { 126,3379 }, { 127,3485 }, { 128,3485 },
- { 129,3485 }, { 130,3485 }, { 131,3485 }, { 132,3485 }, { 133,3485 },
- { 134,3485 }, { 135,3485 }, { 136,3485 }, { 137,3485 }, { 138,3485 },
- { 139,3485 }, { 140,3485 }, { 141,3485 }, { 142,3485 }, { 143,3485 },
-
- { 144,3485 }, { 145,3485 }, { 146,3485 }, { 147,3485 }, { 148,3485 },
- { 149,3485 }, { 150,3485 }, { 151,3485 }, { 152,3485 }, { 153,3485 },
- { 154,3485 }, { 155,3485 }, { 156,3485 }, { 157,3485 }, { 158,3485 },
- { 159,3485 }, { 160,3485 }, { 161,3485 }, { 162,3485 }, { 163,3485 },
- { 164,3485 }, { 165,3485 }, { 166,3485 }, { 167,3485 }, { 168,3485 },
- { 169,3485 }, { 170,3485 }, { 171,3485 }, { 172,3485 }, { 173,3485 },
- { 174,3485 }, { 175,3485 }, { 176,3485 }, { 177,3485 }, { 178,3485 },
- { 179,3485 }, { 180,3485 }, { 181,3485 }, { 182,3485 }, { 183,3485 },
- { 184,3485 }, { 185,3485 }, { 186,3485 }, { 187,3485 }, { 188,3485 },
- { 189,3485 }, { 190,3485 }, { 191,3485 }, { 192,3485 }, { 193,3485 },
-
- { 194,3485 }, { 195,3485 }, { 196,3485 }, { 197,3485 }, { 198,3485 },
- { 199,3485 }, { 200,3485 }, { 201,3485 }, { 202,3485 }, { 203,3485 },
- { 204,3485 }, { 205,3485 }, { 206,3485 }, { 207,3485 }, { 208,3485 },
- { 209,3485 }, { 210,3485 }, { 211,3485 }, { 212,3485 }, { 213,3485 },
- { 214,3485 }, { 215,3485 }, { 216,3485 }, { 217,3485 }, { 218,3485 },
- { 219,3485 }, { 220,3485 }, { 221,3485 }, { 222,3485 }, { 223,3485 },
- { 224,3485 }, { 225,3485 }, { 226,3485 }, { 227,3485 }, { 228,3485 },
- { 229,3485 }, { 230,3485 }, { 231,3485 }, { 232,3485 }, { 233,3485 },
- { 234,3485 }, { 235,3485 }, { 236,3485 }, { 237,3485 }, { 238,3485 },
- { 239,3485 }, { 240,3485 }, { 241,3485 }, { 242,3485 }, { 243,3485 },
-
- { 244,3485 }, { 245,3485 }, { 246,3485 }, { 247,3485 }, { 248,3485 },
- { 249,3485 }, { 250,3485 }, { 251,3485 }, { 252,3485 }, { 253,3485 },
- { 254,3485 }, { 255,3485 }, { 256,3485 }, {   0,  51 }, {   0,18040 },
- {   1,4834 }, {   2,4834 }, {   3,4834 }, {   4,4834 }, {   5,4834 },
- {   6,4834 }, {   7,4834 }, {   8,4834 }, {   9,4834 }, {  10,4834 },
- {  11,4834 }, {  12,4834 }, {  13,4834 }, {  14,4834 }, {  15,4834 },
- {  16,4834 }, {  17,4834 }, {  18,4834 }, {  19,4834 }, {  20,4834 },
- {  21,4834 }, {  22,4834 }, {  23,4834 }, {  24,4834 }, {  25,4834 },
- {  26,4834 }, {  27,4834 }, {  28,4834 }, {  29,4834 }, {  30,4834 },
- {  31,4834 }, {  32,4834 }, {  33,4834 }, {  34,4834 }, {  35,4834 },
-
- {  36,4834 }, {  37,4834 }, {  38,4834 }, {  39,4834 }, {  40,4834 },
- {  41,4834 }, {  42,4834 }, {  43,4834 }, {  44,4834 }, {  45,4834 },
- {  46,4834 }, {  47,4834 }, {  48,4834 }, {  49,4834 }, {  50,4834 },
- {  51,4834 }, {  52,4834 }, {  53,4834 }, {  54,4834 }, {  55,4834 },
- {  56,4834 }, {  57,4834 }, {  58,4834 }, {  59,4834 }, {  60,4834 },
- {  61,4834 }, {  62,4834 }, {  63,4834 }, {  64,4834 }, {  65,4834 },
- {  66,4834 }, {  67,4834 }, {  68,4834 }, {  69,4834 }, {  70,4834 },
- {  71,4834 }, {  72,4834 }, {  73,4834 }, {  74,4834 }, {  75,4834 },
- {  76,4834 }, {  77,4834 }, {  78,4834 }, {  79,4834 }, {  80,4834 },
- {  81,4834 }, {  82,4834 }, {  83,4834 }, {  84,4834 }, {  85,4834 },
-
- {  86,4834 }, {  87,4834 }, {  88,4834 }, {  89,4834 }, {  90,4834 },
- {  91,4834 }, {  92,5092 }, {  93,3124 }, {  94,4834 }, {  95,4834 },
- {  96,4834 }, {  97,4834 }, {  98,4834 }, {  99,4834 }, { 100,4834 },
- { 101,4834 }, { 102,4834 }, { 103,4834 }, { 104,4834 }, { 105,4834 },
- { 106,4834 }, { 107,4834 }, { 108,4834 }, { 109,4834 }, { 110,4834 },
- { 111,4834 }, { 112,4834 }, { 113,4834 }, { 114,4834 }, { 115,4834 },
- { 116,4834 }, { 117,4834 }, { 118,4834 }, { 119,4834 }, { 120,4834 },
- { 121,4834 }, { 122,4834 }, { 123,4834 }, { 124,4834 }, { 125,4834 },
- { 126,4834 }, { 127,4834 }, { 128,4834 }, { 129,4834 }, { 130,4834 },
- { 131,4834 }, { 132,4834 }, { 133,4834 }, { 134,4834 }, { 135,4834 },
-
- { 136,4834 }, { 137,4834 }, { 138,4834 }, { 139,4834 }, { 140,4834 },
- { 141,4834 }, { 142,4834 }, { 143,4834 }, { 144,4834 }, { 145,4834 },
- { 146,4834 }, { 147,4834 }, { 148,4834 }, { 149,4834 }, { 150,4834 },
- { 151,4834 }, { 152,4834 }, { 153,4834 }, { 154,4834 }, { 155,4834 },
- { 156,4834 }, { 157,4834 }, { 158,4834 }, { 159,4834 }, { 160,4834 },
- { 161,4834 }, { 162,4834 }, { 163,4834 }, { 164,4834 }, { 165,4834 },
- { 166,4834 }, { 167,4834 }, { 168,4834 }, { 169,4834 }, { 170,4834 },
- { 171,4834 }, { 172,4834 }, { 173,4834 }, { 174,4834 }, { 175,4834 },
- { 176,4834 }, { 177,4834 }, { 178,4834 }, { 179,4834 }, { 180,4834 },
- { 181,4834 }, { 182,4834 }, { 183,4834 }, { 184,4834 }, { 185,4834 },
-
- { 186,4834 }, { 187,4834 }, { 188,4834 }, { 189,4834 }, { 190,4834 },
- { 191,4834 }, { 192,4834 }, { 193,4834 }, { 194,4834 }, { 195,4834 },
- { 196,4834 }, { 197,4834 }, { 198,4834 }, { 199,4834 }, { 200,4834 },
- { 201,4834 }, { 202,4834 }, { 203,4834 }, { 204,4834 }, { 205,4834 },
- { 206,4834 }, { 207,4834 }, { 208,4834 }, { 209,4834 }, { 210,4834 },
- { 211,4834 }, { 212,4834 }, { 213,4834 }, { 214,4834 }, { 215,4834 },
- { 216,4834 }, { 217,4834 }, { 218,4834 }, { 219,4834 }, { 220,4834 },
- { 221,4834 }, { 222,4834 }, { 223,4834 }, { 224,4834 }, { 225,4834 },
- { 226,4834 }, { 227,4834 }, { 228,4834 }, { 229,4834 }, { 230,4834 },
- { 231,4834 }, { 232,4834 }, { 233,4834 }, { 234,4834 }, { 235,4834 },
-
- { 236,4834 }, { 237,4834 }, { 238,4834 }, { 239,4834 }, { 240,4834 },
- { 241,4834 }, { 242,4834 }, { 243,4834 }, { 244,4834 }, { 245,4834 },
- { 246,4834 }, { 247,4834 }, { 248,4834 }, { 249,4834 }, { 250,4834 },
- { 251,4834 }, { 252,4834 }, { 253,4834 }, { 254,4834 }, { 255,4834 },
- { 256,4834 }, {   0,  51 }, {   0,17782 }, {   1,2969 }, {   2,2969 },
- {   3,2969 }, {   4,2969 }, {   5,2969 }, {   6,2969 }, {   7,2969 },
- {   8,2969 }, {   9,2848 }, {  10,2848 }, {  11,2969 }, {  12,2969 },
- {  13,2848 }, {  14,2969 }, {  15,2969 }, {  16,2969 }, {  17,2969 },
- {  18,2969 }, {  19,2969 }, {  20,2969 }, {  21,2969 }, {  22,2969 },
- {  23,2969 }, {  24,2969 }, {  25,2969 }, {  26,2969 }, {  27,2969 },
-
- {  28,2969 }, {  29,2969 }, {  30,2969 }, {  31,2969 }, {  32,2848 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2969 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2848 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,2969 }, {  46,2848 }, {  47,2848 },
- {  48,2969 }, {  49,2969 }, {  50,2969 }, {  51,2969 }, {  52,2969 },
- {  53,2969 }, {  54,2969 }, {  55,2969 }, {  56,2969 }, {  57,2969 },
- {  58,2969 }, {   0,   0 }, {   0,   0 }, {  61,2848 }, {   0,   0 },
- {  63,2969 }, {   0,   0 }, {  65,2969 }, {  66,2969 }, {  67,2969 },
- {  68,2969 }, {  69,2969 }, {  70,2969 }, {  71,2969 }, {  72,2969 },
- {  73,2969 }, {  74,2969 }, {  75,2969 }, {  76,2969 }, {  77,2969 },
-
- {  78,2969 }, {  79,2969 }, {  80,2969 }, {  81,2969 }, {  82,2969 },
- {  83,2969 }, {  84,2969 }, {  85,2969 }, {  86,2969 }, {  87,2969 },
- {  88,2969 }, {  89,2969 }, {  90,2969 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,2969 }, {   0,   0 }, {  97,2969 },
- {  98,2969 }, {  99,2969 }, { 100,2969 }, { 101,2969 }, { 102,2969 },
- { 103,2969 }, { 104,2969 }, { 105,2969 }, { 106,2969 }, { 107,2969 },
- { 108,2969 }, { 109,2969 }, { 110,2969 }, { 111,2969 }, { 112,2969 },
- { 113,2969 }, { 114,2969 }, { 115,5092 }, { 116,2969 }, { 117,2969 },
- { 118,2969 }, { 119,2969 }, { 120,2969 }, { 121,2969 }, { 122,2969 },
- {   0,   0 }, { 124,2848 }, { 125,2848 }, { 126,2848 }, { 127,2969 },
-
- { 128,2969 }, { 129,2969 }, { 130,2969 }, { 131,2969 }, { 132,2969 },
- { 133,2969 }, { 134,2969 }, { 135,2969 }, { 136,2969 }, { 137,2969 },
- { 138,2969 }, { 139,2969 }, { 140,2969 }, { 141,2969 }, { 142,2969 },
- { 143,2969 }, { 144,2969 }, { 145,2969 }, { 146,2969 }, { 147,2969 },
- { 148,2969 }, { 149,2969 }, { 150,2969 }, { 151,2969 }, { 152,2969 },
- { 153,2969 }, { 154,2969 }, { 155,2969 }, { 156,2969 }, { 157,2969 },
- { 158,2969 }, { 159,2969 }, { 160,2969 }, { 161,2969 }, { 162,2969 },
- { 163,2969 }, { 164,2969 }, { 165,2969 }, { 166,2969 }, { 167,2969 },
- { 168,2969 }, { 169,2969 }, { 170,2969 }, { 171,2969 }, { 172,2969 },
- { 173,2969 }, { 174,2969 }, { 175,2969 }, { 176,2969 }, { 177,2969 },
-
- { 178,2969 }, { 179,2969 }, { 180,2969 }, { 181,2969 }, { 182,2969 },
- { 183,2969 }, { 184,2969 }, { 185,2969 }, { 186,2969 }, { 187,2969 },
- { 188,2969 }, { 189,2969 }, { 190,2969 }, { 191,2969 }, { 192,2969 },
- { 193,2969 }, { 194,2969 }, { 195,2969 }, { 196,2969 }, { 197,2969 },
- { 198,2969 }, { 199,2969 }, { 200,2969 }, { 201,2969 }, { 202,2969 },
- { 203,2969 }, { 204,2969 }, { 205,2969 }, { 206,2969 }, { 207,2969 },
- { 208,2969 }, { 209,2969 }, { 210,2969 }, { 211,2969 }, { 212,2969 },
- { 213,2969 }, { 214,2969 }, { 215,2969 }, { 216,2969 }, { 217,2969 },
- { 218,2969 }, { 219,2969 }, { 220,2969 }, { 221,2969 }, { 222,2969 },
- { 223,2969 }, { 224,2969 }, { 225,2969 }, { 226,2969 }, { 227,2969 },
-
- { 228,2969 }, { 229,2969 }, { 230,2969 }, { 231,2969 }, { 232,2969 },
- { 233,2969 }, { 234,2969 }, { 235,2969 }, { 236,2969 }, { 237,2969 },
- { 238,2969 }, { 239,2969 }, { 240,2969 }, { 241,2969 }, { 242,2969 },
- { 243,2969 }, { 244,2969 }, { 245,2969 }, { 246,2969 }, { 247,2969 },
- { 248,2969 }, { 249,2969 }, { 250,2969 }, { 251,2969 }, { 252,2969 },
- { 253,2969 }, { 254,2969 }, { 255,2969 }, { 256,2969 }, {   0,  51 },
- {   0,17524 }, {   1,2711 }, {   2,2711 }, {   3,2711 }, {   4,2711 },
- {   5,2711 }, {   6,2711 }, {   7,2711 }, {   8,2711 }, {   9,2590 },
- {  10,2590 }, {  11,2711 }, {  12,2711 }, {  13,2590 }, {  14,2711 },
- {  15,2711 }, {  16,2711 }, {  17,2711 }, {  18,2711 }, {  19,2711 },
-
- {  20,2711 }, {  21,2711 }, {  22,2711 }, {  23,2711 }, {  24,2711 },
- {  25,2711 }, {  26,2711 }, {  27,2711 }, {  28,2711 }, {  29,2711 },
- {  30,2711 }, {  31,2711 }, {  32,2590 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,2711 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,2590 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,2711 }, {  46,2590 }, {  47,2590 }, {  48,2711 }, {  49,2711 },
- {  50,2711 }, {  51,2711 }, {  52,2711 }, {  53,2711 }, {  54,2711 },
- {  55,2711 }, {  56,2711 }, {  57,2711 }, {  58,2711 }, {   0,   0 },
- {   0,   0 }, {  61,2590 }, {   0,   0 }, {  63,2711 }, {   0,   0 },
- {  65,2711 }, {  66,2711 }, {  67,2711 }, {  68,2711 }, {  69,2711 },
-
- {  70,2711 }, {  71,2711 }, {  72,2711 }, {  73,2711 }, {  74,2711 },
- {  75,2711 }, {  76,2711 }, {  77,2711 }, {  78,2711 }, {  79,2711 },
- {  80,2711 }, {  81,2711 }, {  82,2711 }, {  83,2711 }, {  84,2711 },
- {  85,2711 }, {  86,2711 }, {  87,2711 }, {  88,2711 }, {  89,2711 },
- {  90,2711 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,2711 }, {   0,   0 }, {  97,5092 }, {  98,2711 }, {  99,2711 },
- { 100,2711 }, { 101,2711 }, { 102,2711 }, { 103,2711 }, { 104,2711 },
- { 105,2711 }, { 106,2711 }, { 107,2711 }, { 108,2711 }, { 109,2711 },
- { 110,2711 }, { 111,2711 }, { 112,2711 }, { 113,2711 }, { 114,2711 },
- { 115,2711 }, { 116,2711 }, { 117,2711 }, { 118,2711 }, { 119,2711 },
-
- { 120,2711 }, { 121,2711 }, { 122,2711 }, {   0,   0 }, { 124,2590 },
- { 125,2590 }, { 126,2590 }, { 127,2711 }, { 128,2711 }, { 129,2711 },
- { 130,2711 }, { 131,2711 }, { 132,2711 }, { 133,2711 }, { 134,2711 },
- { 135,2711 }, { 136,2711 }, { 137,2711 }, { 138,2711 }, { 139,2711 },
- { 140,2711 }, { 141,2711 }, { 142,2711 }, { 143,2711 }, { 144,2711 },
- { 145,2711 }, { 146,2711 }, { 147,2711 }, { 148,2711 }, { 149,2711 },
- { 150,2711 }, { 151,2711 }, { 152,2711 }, { 153,2711 }, { 154,2711 },
- { 155,2711 }, { 156,2711 }, { 157,2711 }, { 158,2711 }, { 159,2711 },
- { 160,2711 }, { 161,2711 }, { 162,2711 }, { 163,2711 }, { 164,2711 },
- { 165,2711 }, { 166,2711 }, { 167,2711 }, { 168,2711 }, { 169,2711 },
-
- { 170,2711 }, { 171,2711 }, { 172,2711 }, { 173,2711 }, { 174,2711 },
- { 175,2711 }, { 176,2711 }, { 177,2711 }, { 178,2711 }, { 179,2711 },
- { 180,2711 }, { 181,2711 }, { 182,2711 }, { 183,2711 }, { 184,2711 },
- { 185,2711 }, { 186,2711 }, { 187,2711 }, { 188,2711 }, { 189,2711 },
- { 190,2711 }, { 191,2711 }, { 192,2711 }, { 193,2711 }, { 194,2711 },
- { 195,2711 }, { 196,2711 }, { 197,2711 }, { 198,2711 }, { 199,2711 },
- { 200,2711 }, { 201,2711 }, { 202,2711 }, { 203,2711 }, { 204,2711 },
- { 205,2711 }, { 206,2711 }, { 207,2711 }, { 208,2711 }, { 209,2711 },
- { 210,2711 }, { 211,2711 }, { 212,2711 }, { 213,2711 }, { 214,2711 },
- { 215,2711 }, { 216,2711 }, { 217,2711 }, { 218,2711 }, { 219,2711 },
-
- { 220,2711 }, { 221,2711 }, { 222,2711 }, { 223,2711 }, { 224,2711 },
- { 225,2711 }, { 226,2711 }, { 227,2711 }, { 228,2711 }, { 229,2711 },
- { 230,2711 }, { 231,2711 }, { 232,2711 }, { 233,2711 }, { 234,2711 },
- { 235,2711 }, { 236,2711 }, { 237,2711 }, { 238,2711 }, { 239,2711 },
- { 240,2711 }, { 241,2711 }, { 242,2711 }, { 243,2711 }, { 244,2711 },
- { 245,2711 }, { 246,2711 }, { 247,2711 }, { 248,2711 }, { 249,2711 },
- { 250,2711 }, { 251,2711 }, { 252,2711 }, { 253,2711 }, { 254,2711 },
- { 255,2711 }, { 256,2711 }, {   0,  51 }, {   0,17266 }, {   1,2453 },
- {   2,2453 }, {   3,2453 }, {   4,2453 }, {   5,2453 }, {   6,2453 },
- {   7,2453 }, {   8,2453 }, {   9,2332 }, {  10,2332 }, {  11,2453 },
-
- {  12,2453 }, {  13,2332 }, {  14,2453 }, {  15,2453 }, {  16,2453 },
- {  17,2453 }, {  18,2453 }, {  19,2453 }, {  20,2453 }, {  21,2453 },
- {  22,2453 }, {  23,2453 }, {  24,2453 }, {  25,2453 }, {  26,2453 },
- {  27,2453 }, {  28,2453 }, {  29,2453 }, {  30,2453 }, {  31,2453 },
- {  32,2332 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2453 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2332 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2453 }, {  46,2332 },
- {  47,2332 }, {  48,2453 }, {  49,2453 }, {  50,2453 }, {  51,2453 },
- {  52,2453 }, {  53,2453 }, {  54,2453 }, {  55,2453 }, {  56,2453 },
- {  57,2453 }, {  58,2453 }, {   0,   0 }, {   0,   0 }, {  61,2332 },
-
- {   0,   0 }, {  63,2453 }, {   0,   0 }, {  65,2453 }, {  66,2453 },
- {  67,2453 }, {  68,2453 }, {  69,2453 }, {  70,2453 }, {  71,2453 },
- {  72,2453 }, {  73,2453 }, {  74,2453 }, {  75,2453 }, {  76,2453 },
- {  77,2453 }, {  78,2453 }, {  79,2453 }, {  80,2453 }, {  81,2453 },
- {  82,2453 }, {  83,2453 }, {  84,2453 }, {  85,2453 }, {  86,2453 },
- {  87,2453 }, {  88,2453 }, {  89,2453 }, {  90,2453 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2453 }, {   0,   0 },
- {  97,2453 }, {  98,2453 }, {  99,2453 }, { 100,2453 }, { 101,2453 },
- { 102,2453 }, { 103,2453 }, { 104,2453 }, { 105,2453 }, { 106,2453 },
- { 107,2453 }, { 108,2453 }, { 109,2453 }, { 110,2453 }, { 111,2453 },
-
- { 112,2453 }, { 113,2453 }, { 114,2453 }, { 115,2453 }, { 116,2453 },
- { 117,5092 }, { 118,2453 }, { 119,2453 }, { 120,2453 }, { 121,2453 },
- { 122,2453 }, {   0,   0 }, { 124,2332 }, { 125,2332 }, { 126,2332 },
- { 127,2453 }, { 128,2453 }, { 129,2453 }, { 130,2453 }, { 131,2453 },
- { 132,2453 }, { 133,2453 }, { 134,2453 }, { 135,2453 }, { 136,2453 },
- { 137,2453 }, { 138,2453 }, { 139,2453 }, { 140,2453 }, { 141,2453 },
- { 142,2453 }, { 143,2453 }, { 144,2453 }, { 145,2453 }, { 146,2453 },
- { 147,2453 }, { 148,2453 }, { 149,2453 }, { 150,2453 }, { 151,2453 },
- { 152,2453 }, { 153,2453 }, { 154,2453 }, { 155,2453 }, { 156,2453 },
- { 157,2453 }, { 158,2453 }, { 159,2453 }, { 160,2453 }, { 161,2453 },
-
- { 162,2453 }, { 163,2453 }, { 164,2453 }, { 165,2453 }, { 166,2453 },
- { 167,2453 }, { 168,2453 }, { 169,2453 }, { 170,2453 }, { 171,2453 },
- { 172,2453 }, { 173,2453 }, { 174,2453 }, { 175,2453 }, { 176,2453 },
- { 177,2453 }, { 178,2453 }, { 179,2453 }, { 180,2453 }, { 181,2453 },
- { 182,2453 }, { 183,2453 }, { 184,2453 }, { 185,2453 }, { 186,2453 },
- { 187,2453 }, { 188,2453 }, { 189,2453 }, { 190,2453 }, { 191,2453 },
- { 192,2453 }, { 193,2453 }, { 194,2453 }, { 195,2453 }, { 196,2453 },
- { 197,2453 }, { 198,2453 }, { 199,2453 }, { 200,2453 }, { 201,2453 },
- { 202,2453 }, { 203,2453 }, { 204,2453 }, { 205,2453 }, { 206,2453 },
- { 207,2453 }, { 208,2453 }, { 209,2453 }, { 210,2453 }, { 211,2453 },
-
- { 212,2453 }, { 213,2453 }, { 214,2453 }, { 215,2453 }, { 216,2453 },
- { 217,2453 }, { 218,2453 }, { 219,2453 }, { 220,2453 }, { 221,2453 },
- { 222,2453 }, { 223,2453 }, { 224,2453 }, { 225,2453 }, { 226,2453 },
- { 227,2453 }, { 228,2453 }, { 229,2453 }, { 230,2453 }, { 231,2453 },
- { 232,2453 }, { 233,2453 }, { 234,2453 }, { 235,2453 }, { 236,2453 },
- { 237,2453 }, { 238,2453 }, { 239,2453 }, { 240,2453 }, { 241,2453 },
- { 242,2453 }, { 243,2453 }, { 244,2453 }, { 245,2453 }, { 246,2453 },
- { 247,2453 }, { 248,2453 }, { 249,2453 }, { 250,2453 }, { 251,2453 },
- { 252,2453 }, { 253,2453 }, { 254,2453 }, { 255,2453 }, { 256,2453 },
- {   0,  51 }, {   0,17008 }, {   1,2195 }, {   2,2195 }, {   3,2195 },
-
- {   4,2195 }, {   5,2195 }, {   6,2195 }, {   7,2195 }, {   8,2195 },
- {   9,2074 }, {  10,2074 }, {  11,2195 }, {  12,2195 }, {  13,2074 },
- {  14,2195 }, {  15,2195 }, {  16,2195 }, {  17,2195 }, {  18,2195 },
- {  19,2195 }, {  20,2195 }, {  21,2195 }, {  22,2195 }, {  23,2195 },
- {  24,2195 }, {  25,2195 }, {  26,2195 }, {  27,2195 }, {  28,2195 },
- {  29,2195 }, {  30,2195 }, {  31,2195 }, {  32,2074 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,2195 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,2074 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,2195 }, {  46,2074 }, {  47,2074 }, {  48,2195 },
- {  49,2195 }, {  50,2195 }, {  51,2195 }, {  52,2195 }, {  53,2195 },
-
- {  54,2195 }, {  55,2195 }, {  56,2195 }, {  57,2195 }, {  58,2195 },
- {   0,   0 }, {   0,   0 }, {  61,2074 }, {   0,   0 }, {  63,2195 },
- {   0,   0 }, {  65,2195 }, {  66,2195 }, {  67,2195 }, {  68,2195 },
- {  69,2195 }, {  70,2195 }, {  71,2195 }, {  72,2195 }, {  73,2195 },
- {  74,2195 }, {  75,2195 }, {  76,2195 }, {  77,2195 }, {  78,2195 },
- {  79,2195 }, {  80,2195 }, {  81,2195 }, {  82,2195 }, {  83,2195 },
- {  84,2195 }, {  85,2195 }, {  86,2195 }, {  87,2195 }, {  88,2195 },
- {  89,2195 }, {  90,2195 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,2195 }, {   0,   0 }, {  97,2195 }, {  98,2195 },
- {  99,2195 }, { 100,2195 }, { 101,2195 }, { 102,2195 }, { 103,2195 },
-
- { 104,2195 }, { 105,2195 }, { 106,2195 }, { 107,2195 }, { 108,2195 },
- { 109,2195 }, { 110,2195 }, { 111,2195 }, { 112,2195 }, { 113,2195 },
- { 114,5092 }, { 115,2195 }, { 116,2195 }, { 117,2195 }, { 118,2195 },
- { 119,2195 }, { 120,2195 }, { 121,2195 }, { 122,2195 }, {   0,   0 },
- { 124,2074 }, { 125,2074 }, { 126,2074 }, { 127,2195 }, { 128,2195 },
- { 129,2195 }, { 130,2195 }, { 131,2195 }, { 132,2195 }, { 133,2195 },
- { 134,2195 }, { 135,2195 }, { 136,2195 }, { 137,2195 }, { 138,2195 },
- { 139,2195 }, { 140,2195 }, { 141,2195 }, { 142,2195 }, { 143,2195 },
- { 144,2195 }, { 145,2195 }, { 146,2195 }, { 147,2195 }, { 148,2195 },
- { 149,2195 }, { 150,2195 }, { 151,2195 }, { 152,2195 }, { 153,2195 },
-
- { 154,2195 }, { 155,2195 }, { 156,2195 }, { 157,2195 }, { 158,2195 },
- { 159,2195 }, { 160,2195 }, { 161,2195 }, { 162,2195 }, { 163,2195 },
- { 164,2195 }, { 165,2195 }, { 166,2195 }, { 167,2195 }, { 168,2195 },
- { 169,2195 }, { 170,2195 }, { 171,2195 }, { 172,2195 }, { 173,2195 },
- { 174,2195 }, { 175,2195 }, { 176,2195 }, { 177,2195 }, { 178,2195 },
- { 179,2195 }, { 180,2195 }, { 181,2195 }, { 182,2195 }, { 183,2195 },
- { 184,2195 }, { 185,2195 }, { 186,2195 }, { 187,2195 }, { 188,2195 },
- { 189,2195 }, { 190,2195 }, { 191,2195 }, { 192,2195 }, { 193,2195 },
- { 194,2195 }, { 195,2195 }, { 196,2195 }, { 197,2195 }, { 198,2195 },
- { 199,2195 }, { 200,2195 }, { 201,2195 }, { 202,2195 }, { 203,2195 },
-
- { 204,2195 }, { 205,2195 }, { 206,2195 }, { 207,2195 }, { 208,2195 },
- { 209,2195 }, { 210,2195 }, { 211,2195 }, { 212,2195 }, { 213,2195 },
- { 214,2195 }, { 215,2195 }, { 216,2195 }, { 217,2195 }, { 218,2195 },
- { 219,2195 }, { 220,2195 }, { 221,2195 }, { 222,2195 }, { 223,2195 },
- { 224,2195 }, { 225,2195 }, { 226,2195 }, { 227,2195 }, { 228,2195 },
- { 229,2195 }, { 230,2195 }, { 231,2195 }, { 232,2195 }, { 233,2195 },
- { 234,2195 }, { 235,2195 }, { 236,2195 }, { 237,2195 }, { 238,2195 },
- { 239,2195 }, { 240,2195 }, { 241,2195 }, { 242,2195 }, { 243,2195 },
- { 244,2195 }, { 245,2195 }, { 246,2195 }, { 247,2195 }, { 248,2195 },
- { 249,2195 }, { 250,2195 }, { 251,2195 }, { 252,2195 }, { 253,2195 },
-
- { 254,2195 }, { 255,2195 }, { 256,2195 }, {   0,  51 }, {   0,16750 },
- {   1,1937 }, {   2,1937 }, {   3,1937 }, {   4,1937 }, {   5,1937 },
- {   6,1937 }, {   7,1937 }, {   8,1937 }, {   9,1816 }, {  10,1816 },
- {  11,1937 }, {  12,1937 }, {  13,1816 }, {  14,1937 }, {  15,1937 },
- {  16,1937 }, {  17,1937 }, {  18,1937 }, {  19,1937 }, {  20,1937 },
- {  21,1937 }, {  22,1937 }, {  23,1937 }, {  24,1937 }, {  25,1937 },
- {  26,1937 }, {  27,1937 }, {  28,1937 }, {  29,1937 }, {  30,1937 },
- {  31,1937 }, {  32,1816 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1937 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,1816 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1937 },
-
- {  46,1816 }, {  47,1816 }, {  48,1937 }, {  49,1937 }, {  50,1937 },
- {  51,1937 }, {  52,1937 }, {  53,1937 }, {  54,1937 }, {  55,1937 },
- {  56,1937 }, {  57,1937 }, {  58,1937 }, {   0,   0 }, {   0,   0 },
- {  61,1816 }, {   0,   0 }, {  63,1937 }, {   0,   0 }, {  65,1937 },
- {  66,1937 }, {  67,1937 }, {  68,1937 }, {  69,1937 }, {  70,1937 },
- {  71,1937 }, {  72,1937 }, {  73,1937 }, {  74,1937 }, {  75,1937 },
- {  76,1937 }, {  77,1937 }, {  78,1937 }, {  79,1937 }, {  80,1937 },
- {  81,1937 }, {  82,1937 }, {  83,1937 }, {  84,1937 }, {  85,1937 },
- {  86,1937 }, {  87,1937 }, {  88,1937 }, {  89,1937 }, {  90,1937 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1937 },
-
- {   0,   0 }, {  97,1937 }, {  98,1937 }, {  99,1937 }, { 100,1937 },
- { 101,1937 }, { 102,1937 }, { 103,1937 }, { 104,1937 }, { 105,1937 },
- { 106,1937 }, { 107,1937 }, { 108,1937 }, { 109,1937 }, { 110,5092 },
- { 111,1937 }, { 112,1937 }, { 113,1937 }, { 114,1937 }, { 115,1937 },
- { 116,1937 }, { 117,1937 }, { 118,1937 }, { 119,1937 }, { 120,1937 },
- { 121,1937 }, { 122,1937 }, {   0,   0 }, { 124,1816 }, { 125,1816 },
- { 126,1816 }, { 127,1937 }, { 128,1937 }, { 129,1937 }, { 130,1937 },
- { 131,1937 }, { 132,1937 }, { 133,1937 }, { 134,1937 }, { 135,1937 },
- { 136,1937 }, { 137,1937 }, { 138,1937 }, { 139,1937 }, { 140,1937 },
- { 141,1937 }, { 142,1937 }, { 143,1937 }, { 144,1937 }, { 145,1937 },
-
- { 146,1937 }, { 147,1937 }, { 148,1937 }, { 149,1937 }, { 150,1937 },
- { 151,1937 }, { 152,1937 }, { 153,1937 }, { 154,1937 }, { 155,1937 },
- { 156,1937 }, { 157,1937 }, { 158,1937 }, { 159,1937 }, { 160,1937 },
- { 161,1937 }, { 162,1937 }, { 163,1937 }, { 164,1937 }, { 165,1937 },
- { 166,1937 }, { 167,1937 }, { 168,1937 }, { 169,1937 }, { 170,1937 },
- { 171,1937 }, { 172,1937 }, { 173,1937 }, { 174,1937 }, { 175,1937 },
- { 176,1937 }, { 177,1937 }, { 178,1937 }, { 179,1937 }, { 180,1937 },
- { 181,1937 }, { 182,1937 }, { 183,1937 }, { 184,1937 }, { 185,1937 },
- { 186,1937 }, { 187,1937 }, { 188,1937 }, { 189,1937 }, { 190,1937 },
- { 191,1937 }, { 192,1937 }, { 193,1937 }, { 194,1937 }, { 195,1937 },
-
- { 196,1937 }, { 197,1937 }, { 198,1937 }, { 199,1937 }, { 200,1937 },
- { 201,1937 }, { 202,1937 }, { 203,1937 }, { 204,1937 }, { 205,1937 },
- { 206,1937 }, { 207,1937 }, { 208,1937 }, { 209,1937 }, { 210,1937 },
- { 211,1937 }, { 212,1937 }, { 213,1937 }, { 214,1937 }, { 215,1937 },
- { 216,1937 }, { 217,1937 }, { 218,1937 }, { 219,1937 }, { 220,1937 },
- { 221,1937 }, { 222,1937 }, { 223,1937 }, { 224,1937 }, { 225,1937 },
- { 226,1937 }, { 227,1937 }, { 228,1937 }, { 229,1937 }, { 230,1937 },
- { 231,1937 }, { 232,1937 }, { 233,1937 }, { 234,1937 }, { 235,1937 },
- { 236,1937 }, { 237,1937 }, { 238,1937 }, { 239,1937 }, { 240,1937 },
- { 241,1937 }, { 242,1937 }, { 243,1937 }, { 244,1937 }, { 245,1937 },
-
- { 246,1937 }, { 247,1937 }, { 248,1937 }, { 249,1937 }, { 250,1937 },
- { 251,1937 }, { 252,1937 }, { 253,1937 }, { 254,1937 }, { 255,1937 },
- { 256,1937 }, {   0,  14 }, {   0,16492 }, {   1,5220 }, {   2,5220 },
- {   3,5220 }, {   4,5220 }, {   5,5220 }, {   6,5220 }, {   7,5220 },
- {   8,5220 }, {   9,5220 }, {  10,5220 }, {  11,5220 }, {  12,5220 },
- {  13,5220 }, {  14,5220 }, {  15,5220 }, {  16,5220 }, {  17,5220 },
- {  18,5220 }, {  19,5220 }, {  20,5220 }, {  21,5220 }, {  22,5220 },
- {  23,5220 }, {  24,5220 }, {  25,5220 }, {  26,5220 }, {  27,5220 },
- {  28,5220 }, {  29,5220 }, {  30,5220 }, {  31,5220 }, {  32,5220 },
- {  33,5220 }, {  34,5220 }, {  35,5220 }, {  36,5220 }, {  37,5220 },
-
- {  38,5220 }, {  39,5220 }, {  40,5220 }, {  41,5220 }, {  42,5220 },
- {  43,5220 }, {  44,5220 }, {  45,5478 }, {  46,5220 }, {  47,5220 },
- {  48,5220 }, {  49,5220 }, {  50,5220 }, {  51,5220 }, {  52,5220 },
- {  53,5220 }, {  54,5220 }, {  55,5220 }, {  56,5220 }, {  57,5220 },
- {  58,5220 }, {  59,5220 }, {  60,5220 }, {  61,5220 }, {  62,5220 },
- {  63,5220 }, {  64,5220 }, {  65,5220 }, {  66,5220 }, {  67,5220 },
- {  68,5220 }, {  69,5220 }, {  70,5220 }, {  71,5220 }, {  72,5220 },
- {  73,5220 }, {  74,5220 }, {  75,5220 }, {  76,5220 }, {  77,5220 },
- {  78,5220 }, {  79,5220 }, {  80,5220 }, {  81,5220 }, {  82,5220 },
- {  83,5220 }, {  84,5220 }, {  85,5220 }, {  86,5220 }, {  87,5220 },
-
- {  88,5220 }, {  89,5220 }, {  90,5220 }, {  91,5220 }, {  92,5220 },
- {  93,5220 }, {  94,5220 }, {  95,5220 }, {  96,5220 }, {  97,5220 },
- {  98,5220 }, {  99,5220 }, { 100,5220 }, { 101,5220 }, { 102,5220 },
- { 103,5220 }, { 104,5220 }, { 105,5220 }, { 106,5220 }, { 107,5220 },
- { 108,5220 }, { 109,5220 }, { 110,5220 }, { 111,5220 }, { 112,5220 },
- { 113,5220 }, { 114,5220 }, { 115,5220 }, { 116,5220 }, { 117,5220 },
- { 118,5220 }, { 119,5220 }, { 120,5220 }, { 121,5220 }, { 122,5220 },
- { 123,5220 }, { 124,5220 }, { 125,5220 }, { 126,5220 }, { 127,5220 },
- { 128,5220 }, { 129,5220 }, { 130,5220 }, { 131,5220 }, { 132,5220 },
- { 133,5220 }, { 134,5220 }, { 135,5220 }, { 136,5220 }, { 137,5220 },
-
- { 138,5220 }, { 139,5220 }, { 140,5220 }, { 141,5220 }, { 142,5220 },
- { 143,5220 }, { 144,5220 }, { 145,5220 }, { 146,5220 }, { 147,5220 },
- { 148,5220 }, { 149,5220 }, { 150,5220 }, { 151,5220 }, { 152,5220 },
- { 153,5220 }, { 154,5220 }, { 155,5220 }, { 156,5220 }, { 157,5220 },
- { 158,5220 }, { 159,5220 }, { 160,5220 }, { 161,5220 }, { 162,5220 },
- { 163,5220 }, { 164,5220 }, { 165,5220 }, { 166,5220 }, { 167,5220 },
- { 168,5220 }, { 169,5220 }, { 170,5220 }, { 171,5220 }, { 172,5220 },
- { 173,5220 }, { 174,5220 }, { 175,5220 }, { 176,5220 }, { 177,5220 },
- { 178,5220 }, { 179,5220 }, { 180,5220 }, { 181,5220 }, { 182,5220 },
- { 183,5220 }, { 184,5220 }, { 185,5220 }, { 186,5220 }, { 187,5220 },
-
- { 188,5220 }, { 189,5220 }, { 190,5220 }, { 191,5220 }, { 192,5220 },
- { 193,5220 }, { 194,5220 }, { 195,5220 }, { 196,5220 }, { 197,5220 },
- { 198,5220 }, { 199,5220 }, { 200,5220 }, { 201,5220 }, { 202,5220 },
- { 203,5220 }, { 204,5220 }, { 205,5220 }, { 206,5220 }, { 207,5220 },
- { 208,5220 }, { 209,5220 }, { 210,5220 }, { 211,5220 }, { 212,5220 },
- { 213,5220 }, { 214,5220 }, { 215,5220 }, { 216,5220 }, { 217,5220 },
- { 218,5220 }, { 219,5220 }, { 220,5220 }, { 221,5220 }, { 222,5220 },
- { 223,5220 }, { 224,5220 }, { 225,5220 }, { 226,5220 }, { 227,5220 },
- { 228,5220 }, { 229,5220 }, { 230,5220 }, { 231,5220 }, { 232,5220 },
- { 233,5220 }, { 234,5220 }, { 235,5220 }, { 236,5220 }, { 237,5220 },
-
- { 238,5220 }, { 239,5220 }, { 240,5220 }, { 241,5220 }, { 242,5220 },
- { 243,5220 }, { 244,5220 }, { 245,5220 }, { 246,5220 }, { 247,5220 },
- { 248,5220 }, { 249,5220 }, { 250,5220 }, { 251,5220 }, { 252,5220 },
- { 253,5220 }, { 254,5220 }, { 255,5220 }, { 256,5220 }, {   0,  14 },
- {   0,16234 }, {   1,4962 }, {   2,4962 }, {   3,4962 }, {   4,4962 },
- {   5,4962 }, {   6,4962 }, {   7,4962 }, {   8,4962 }, {   9,4962 },
- {  10,4962 }, {  11,4962 }, {  12,4962 }, {  13,4962 }, {  14,4962 },
- {  15,4962 }, {  16,4962 }, {  17,4962 }, {  18,4962 }, {  19,4962 },
- {  20,4962 }, {  21,4962 }, {  22,4962 }, {  23,4962 }, {  24,4962 },
- {  25,4962 }, {  26,4962 }, {  27,4962 }, {  28,4962 }, {  29,4962 },
-
- {  30,4962 }, {  31,4962 }, {  32,4962 }, {  33,4962 }, {  34,4962 },
- {  35,4962 }, {  36,4962 }, {  37,4962 }, {  38,4962 }, {  39,4962 },
- {  40,4962 }, {  41,4962 }, {  42,4962 }, {  43,4962 }, {  44,4962 },
- {  45,5478 }, {  46,4962 }, {  47,4962 }, {  48,4962 }, {  49,4962 },
- {  50,4962 }, {  51,4962 }, {  52,4962 }, {  53,4962 }, {  54,4962 },
- {  55,4962 }, {  56,4962 }, {  57,4962 }, {  58,4962 }, {  59,4962 },
- {  60,4962 }, {  61,4962 }, {  62,4962 }, {  63,4962 }, {  64,4962 },
- {  65,4962 }, {  66,4962 }, {  67,4962 }, {  68,4962 }, {  69,4962 },
- {  70,4962 }, {  71,4962 }, {  72,4962 }, {  73,4962 }, {  74,4962 },
- {  75,4962 }, {  76,4962 }, {  77,4962 }, {  78,4962 }, {  79,4962 },
-
- {  80,4962 }, {  81,4962 }, {  82,4962 }, {  83,4962 }, {  84,4962 },
- {  85,4962 }, {  86,4962 }, {  87,4962 }, {  88,4962 }, {  89,4962 },
- {  90,4962 }, {  91,4962 }, {  92,4962 }, {  93,4962 }, {  94,4962 },
- {  95,4962 }, {  96,4962 }, {  97,4962 }, {  98,4962 }, {  99,4962 },
- { 100,4962 }, { 101,4962 }, { 102,4962 }, { 103,4962 }, { 104,4962 },
- { 105,4962 }, { 106,4962 }, { 107,4962 }, { 108,4962 }, { 109,4962 },
- { 110,4962 }, { 111,4962 }, { 112,4962 }, { 113,4962 }, { 114,4962 },
- { 115,4962 }, { 116,4962 }, { 117,4962 }, { 118,4962 }, { 119,4962 },
- { 120,4962 }, { 121,4962 }, { 122,4962 }, { 123,4962 }, { 124,4962 },
- { 125,4962 }, { 126,4962 }, { 127,4962 }, { 128,4962 }, { 129,4962 },
-
- { 130,4962 }, { 131,4962 }, { 132,4962 }, { 133,4962 }, { 134,4962 },
- { 135,4962 }, { 136,4962 }, { 137,4962 }, { 138,4962 }, { 139,4962 },
- { 140,4962 }, { 141,4962 }, { 142,4962 }, { 143,4962 }, { 144,4962 },
- { 145,4962 }, { 146,4962 }, { 147,4962 }, { 148,4962 }, { 149,4962 },
- { 150,4962 }, { 151,4962 }, { 152,4962 }, { 153,4962 }, { 154,4962 },
- { 155,4962 }, { 156,4962 }, { 157,4962 }, { 158,4962 }, { 159,4962 },
- { 160,4962 }, { 161,4962 }, { 162,4962 }, { 163,4962 }, { 164,4962 },
- { 165,4962 }, { 166,4962 }, { 167,4962 }, { 168,4962 }, { 169,4962 },
- { 170,4962 }, { 171,4962 }, { 172,4962 }, { 173,4962 }, { 174,4962 },
- { 175,4962 }, { 176,4962 }, { 177,4962 }, { 178,4962 }, { 179,4962 },
-
- { 180,4962 }, { 181,4962 }, { 182,4962 }, { 183,4962 }, { 184,4962 },
- { 185,4962 }, { 186,4962 }, { 187,4962 }, { 188,4962 }, { 189,4962 },
- { 190,4962 }, { 191,4962 }, { 192,4962 }, { 193,4962 }, { 194,4962 },
- { 195,4962 }, { 196,4962 }, { 197,4962 }, { 198,4962 }, { 199,4962 },
- { 200,4962 }, { 201,4962 }, { 202,4962 }, { 203,4962 }, { 204,4962 },
- { 205,4962 }, { 206,4962 }, { 207,4962 }, { 208,4962 }, { 209,4962 },
- { 210,4962 }, { 211,4962 }, { 212,4962 }, { 213,4962 }, { 214,4962 },
- { 215,4962 }, { 216,4962 }, { 217,4962 }, { 218,4962 }, { 219,4962 },
- { 220,4962 }, { 221,4962 }, { 222,4962 }, { 223,4962 }, { 224,4962 },
- { 225,4962 }, { 226,4962 }, { 227,4962 }, { 228,4962 }, { 229,4962 },
-
- { 230,4962 }, { 231,4962 }, { 232,4962 }, { 233,4962 }, { 234,4962 },
- { 235,4962 }, { 236,4962 }, { 237,4962 }, { 238,4962 }, { 239,4962 },
- { 240,4962 }, { 241,4962 }, { 242,4962 }, { 243,4962 }, { 244,4962 },
- { 245,4962 }, { 246,4962 }, { 247,4962 }, { 248,4962 }, { 249,4962 },
- { 250,4962 }, { 251,4962 }, { 252,4962 }, { 253,4962 }, { 254,4962 },
- { 255,4962 }, { 256,4962 }, {   0,  14 }, {   0,15976 }, {   1,5478 },
- {   2,5478 }, {   3,5478 }, {   4,5478 }, {   5,5478 }, {   6,5478 },
- {   7,5478 }, {   8,5478 }, {   9,5478 }, {  10,5478 }, {  11,5478 },
- {  12,5478 }, {  13,5478 }, {  14,5478 }, {  15,5478 }, {  16,5478 },
- {  17,5478 }, {  18,5478 }, {  19,5478 }, {  20,5478 }, {  21,5478 },
-
- {  22,5478 }, {  23,5478 }, {  24,5478 }, {  25,5478 }, {  26,5478 },
- {  27,5478 }, {  28,5478 }, {  29,5478 }, {  30,5478 }, {  31,5478 },
- {  32,5478 }, {  33,5478 }, {  34,5478 }, {  35,5478 }, {  36,5478 },
- {  37,5478 }, {  38,5478 }, {  39,5478 }, {  40,5478 }, {  41,5478 },
- {  42,5478 }, {  43,5478 }, {  44,5478 }, {  45,5478 }, {  46,5478 },
- {  47,5478 }, {  48,5478 }, {  49,5478 }, {  50,5478 }, {  51,5478 },
- {  52,5478 }, {  53,5478 }, {  54,5478 }, {  55,5478 }, {  56,5478 },
- {  57,5478 }, {  58,5478 }, {  59,5478 }, {  60,5478 }, {  61,5478 },
- {  62,5478 }, {  63,5478 }, {  64,5478 }, {  65,5478 }, {  66,5478 },
- {  67,5478 }, {  68,5478 }, {  69,5478 }, {  70,5478 }, {  71,5478 },
-
- {  72,5478 }, {  73,5478 }, {  74,5478 }, {  75,5478 }, {  76,5478 },
- {  77,5478 }, {  78,5478 }, {  79,5478 }, {  80,5478 }, {  81,5478 },
- {  82,5478 }, {  83,5478 }, {  84,5478 }, {  85,5478 }, {  86,5478 },
- {  87,5478 }, {  88,5478 }, {  89,5478 }, {  90,5478 }, {  91,5478 },
- {  92,5478 }, {  93,5478 }, {  94,5478 }, {  95,5478 }, {  96,5478 },
- {  97,5478 }, {  98,5478 }, {  99,5478 }, { 100,5478 }, { 101,5478 },
- { 102,5478 }, { 103,5478 }, { 104,5478 }, { 105,5478 }, { 106,5478 },
- { 107,5478 }, { 108,5478 }, { 109,5478 }, { 110,5478 }, { 111,5478 },
- { 112,5478 }, { 113,5478 }, { 114,5478 }, { 115,5478 }, { 116,5478 },
- { 117,5478 }, { 118,5478 }, { 119,5478 }, { 120,5478 }, { 121,5478 },
-
- { 122,5478 }, { 123,5478 }, { 124,5478 }, { 125,5736 }, { 126,5478 },
- { 127,5478 }, { 128,5478 }, { 129,5478 }, { 130,5478 }, { 131,5478 },
- { 132,5478 }, { 133,5478 }, { 134,5478 }, { 135,5478 }, { 136,5478 },
- { 137,5478 }, { 138,5478 }, { 139,5478 }, { 140,5478 }, { 141,5478 },
- { 142,5478 }, { 143,5478 }, { 144,5478 }, { 145,5478 }, { 146,5478 },
- { 147,5478 }, { 148,5478 }, { 149,5478 }, { 150,5478 }, { 151,5478 },
- { 152,5478 }, { 153,5478 }, { 154,5478 }, { 155,5478 }, { 156,5478 },
- { 157,5478 }, { 158,5478 }, { 159,5478 }, { 160,5478 }, { 161,5478 },
- { 162,5478 }, { 163,5478 }, { 164,5478 }, { 165,5478 }, { 166,5478 },
- { 167,5478 }, { 168,5478 }, { 169,5478 }, { 170,5478 }, { 171,5478 },
-
- { 172,5478 }, { 173,5478 }, { 174,5478 }, { 175,5478 }, { 176,5478 },
- { 177,5478 }, { 178,5478 }, { 179,5478 }, { 180,5478 }, { 181,5478 },
- { 182,5478 }, { 183,5478 }, { 184,5478 }, { 185,5478 }, { 186,5478 },
- { 187,5478 }, { 188,5478 }, { 189,5478 }, { 190,5478 }, { 191,5478 },
- { 192,5478 }, { 193,5478 }, { 194,5478 }, { 195,5478 }, { 196,5478 },
- { 197,5478 }, { 198,5478 }, { 199,5478 }, { 200,5478 }, { 201,5478 },
- { 202,5478 }, { 203,5478 }, { 204,5478 }, { 205,5478 }, { 206,5478 },
- { 207,5478 }, { 208,5478 }, { 209,5478 }, { 210,5478 }, { 211,5478 },
- { 212,5478 }, { 213,5478 }, { 214,5478 }, { 215,5478 }, { 216,5478 },
- { 217,5478 }, { 218,5478 }, { 219,5478 }, { 220,5478 }, { 221,5478 },
-
- { 222,5478 }, { 223,5478 }, { 224,5478 }, { 225,5478 }, { 226,5478 },
- { 227,5478 }, { 228,5478 }, { 229,5478 }, { 230,5478 }, { 231,5478 },
- { 232,5478 }, { 233,5478 }, { 234,5478 }, { 235,5478 }, { 236,5478 },
- { 237,5478 }, { 238,5478 }, { 239,5478 }, { 240,5478 }, { 241,5478 },
- { 242,5478 }, { 243,5478 }, { 244,5478 }, { 245,5478 }, { 246,5478 },
- { 247,5478 }, { 248,5478 }, { 249,5478 }, { 250,5478 }, { 251,5478 },
- { 252,5478 }, { 253,5478 }, { 254,5478 }, { 255,5478 }, { 256,5478 },
- {   0,  14 }, {   0,15718 }, {   1,5220 }, {   2,5220 }, {   3,5220 },
- {   4,5220 }, {   5,5220 }, {   6,5220 }, {   7,5220 }, {   8,5220 },
- {   9,5220 }, {  10,5220 }, {  11,5220 }, {  12,5220 }, {  13,5220 },
-
- {  14,5220 }, {  15,5220 }, {  16,5220 }, {  17,5220 }, {  18,5220 },
- {  19,5220 }, {  20,5220 }, {  21,5220 }, {  22,5220 }, {  23,5220 },
- {  24,5220 }, {  25,5220 }, {  26,5220 }, {  27,5220 }, {  28,5220 },
- {  29,5220 }, {  30,5220 }, {  31,5220 }, {  32,5220 }, {  33,5220 },
- {  34,5220 }, {  35,5220 }, {  36,5220 }, {  37,5220 }, {  38,5220 },
- {  39,5220 }, {  40,5220 }, {  41,5220 }, {  42,5220 }, {  43,5220 },
- {  44,5220 }, {  45,5220 }, {  46,5220 }, {  47,5220 }, {  48,5220 },
- {  49,5220 }, {  50,5220 }, {  51,5220 }, {  52,5220 }, {  53,5220 },
- {  54,5220 }, {  55,5220 }, {  56,5220 }, {  57,5220 }, {  58,5220 },
- {  59,5220 }, {  60,5220 }, {  61,5220 }, {  62,5220 }, {  63,5220 },
-
- {  64,5220 }, {  65,5220 }, {  66,5220 }, {  67,5220 }, {  68,5220 },
- {  69,5220 }, {  70,5220 }, {  71,5220 }, {  72,5220 }, {  73,5220 },
- {  74,5220 }, {  75,5220 }, {  76,5220 }, {  77,5220 }, {  78,5220 },
- {  79,5220 }, {  80,5220 }, {  81,5220 }, {  82,5220 }, {  83,5220 },
- {  84,5220 }, {  85,5220 }, {  86,5220 }, {  87,5220 }, {  88,5220 },
- {  89,5220 }, {  90,5220 }, {  91,5220 }, {  92,5220 }, {  93,5220 },
- {  94,5220 }, {  95,5220 }, {  96,5220 }, {  97,5220 }, {  98,5220 },
- {  99,5220 }, { 100,5220 }, { 101,5220 }, { 102,5220 }, { 103,5220 },
- { 104,5220 }, { 105,5220 }, { 106,5220 }, { 107,5220 }, { 108,5220 },
- { 109,5220 }, { 110,5220 }, { 111,5220 }, { 112,5220 }, { 113,5220 },
-
- { 114,5220 }, { 115,5220 }, { 116,5220 }, { 117,5220 }, { 118,5220 },
- { 119,5220 }, { 120,5220 }, { 121,5220 }, { 122,5220 }, { 123,5220 },
- { 124,5220 }, { 125, 821 }, { 126,5220 }, { 127,5220 }, { 128,5220 },
- { 129,5220 }, { 130,5220 }, { 131,5220 }, { 132,5220 }, { 133,5220 },
- { 134,5220 }, { 135,5220 }, { 136,5220 }, { 137,5220 }, { 138,5220 },
- { 139,5220 }, { 140,5220 }, { 141,5220 }, { 142,5220 }, { 143,5220 },
- { 144,5220 }, { 145,5220 }, { 146,5220 }, { 147,5220 }, { 148,5220 },
- { 149,5220 }, { 150,5220 }, { 151,5220 }, { 152,5220 }, { 153,5220 },
- { 154,5220 }, { 155,5220 }, { 156,5220 }, { 157,5220 }, { 158,5220 },
- { 159,5220 }, { 160,5220 }, { 161,5220 }, { 162,5220 }, { 163,5220 },
-
- { 164,5220 }, { 165,5220 }, { 166,5220 }, { 167,5220 }, { 168,5220 },
- { 169,5220 }, { 170,5220 }, { 171,5220 }, { 172,5220 }, { 173,5220 },
- { 174,5220 }, { 175,5220 }, { 176,5220 }, { 177,5220 }, { 178,5220 },
- { 179,5220 }, { 180,5220 }, { 181,5220 }, { 182,5220 }, { 183,5220 },
- { 184,5220 }, { 185,5220 }, { 186,5220 }, { 187,5220 }, { 188,5220 },
- { 189,5220 }, { 190,5220 }, { 191,5220 }, { 192,5220 }, { 193,5220 },
- { 194,5220 }, { 195,5220 }, { 196,5220 }, { 197,5220 }, { 198,5220 },
- { 199,5220 }, { 200,5220 }, { 201,5220 }, { 202,5220 }, { 203,5220 },
- { 204,5220 }, { 205,5220 }, { 206,5220 }, { 207,5220 }, { 208,5220 },
- { 209,5220 }, { 210,5220 }, { 211,5220 }, { 212,5220 }, { 213,5220 },
-
- { 214,5220 }, { 215,5220 }, { 216,5220 }, { 217,5220 }, { 218,5220 },
- { 219,5220 }, { 220,5220 }, { 221,5220 }, { 222,5220 }, { 223,5220 },
- { 224,5220 }, { 225,5220 }, { 226,5220 }, { 227,5220 }, { 228,5220 },
- { 229,5220 }, { 230,5220 }, { 231,5220 }, { 232,5220 }, { 233,5220 },
- { 234,5220 }, { 235,5220 }, { 236,5220 }, { 237,5220 }, { 238,5220 },
- { 239,5220 }, { 240,5220 }, { 241,5220 }, { 242,5220 }, { 243,5220 },
- { 244,5220 }, { 245,5220 }, { 246,5220 }, { 247,5220 }, { 248,5220 },
- { 249,5220 }, { 250,5220 }, { 251,5220 }, { 252,5220 }, { 253,5220 },
- { 254,5220 }, { 255,5220 }, { 256,5220 }, {   0,  10 }, {   0,15460 },
- {   1,5478 }, {   2,5478 }, {   3,5478 }, {   4,5478 }, {   5,5478 },
-
- {   6,5478 }, {   7,5478 }, {   8,5478 }, {   9,5478 }, {  10,5478 },
- {  11,5478 }, {  12,5478 }, {  13,5478 }, {  14,5478 }, {  15,5478 },
- {  16,5478 }, {  17,5478 }, {  18,5478 }, {  19,5478 }, {  20,5478 },
- {  21,5478 }, {  22,5478 }, {  23,5478 }, {  24,5478 }, {  25,5478 },
- {  26,5478 }, {  27,5478 }, {  28,5478 }, {  29,5478 }, {  30,5478 },
- {  31,5478 }, {  32,5478 }, {  33,5478 }, {  34,5478 }, {  35,5478 },
- {  36,5478 }, {  37,5478 }, {  38,5478 }, {  39,5478 }, {  40,5478 },
- {  41,5478 }, {  42,5478 }, {  43,5478 }, {  44,5478 }, {  45,5478 },
- {  46,5478 }, {  47,5478 }, {  48,5478 }, {  49,5478 }, {  50,5478 },
- {  51,5478 }, {  52,5478 }, {  53,5478 }, {  54,5478 }, {  55,5478 },
-
- {  56,5478 }, {  57,5478 }, {  58,5478 }, {  59,5478 }, {  60,5478 },
- {  61,5478 }, {  62,5478 }, {  63,5478 }, {  64,5478 }, {  65,5478 },
- {  66,5478 }, {  67,5478 }, {  68,5478 }, {  69,5478 }, {  70,5478 },
- {  71,5478 }, {  72,5478 }, {  73,5478 }, {  74,5478 }, {  75,5478 },
- {  76,5478 }, {  77,5478 }, {  78,5478 }, {  79,5478 }, {  80,5478 },
- {  81,5478 }, {  82,5478 }, {  83,5478 }, {  84,5478 }, {  85,5478 },
- {  86,5478 }, {  87,5478 }, {  88,5478 }, {  89,5478 }, {  90,5478 },
- {  91,5478 }, {  92,5478 }, {  93,5478 }, {  94,5478 }, {  95,5478 },
- {  96,5478 }, {  97,5478 }, {  98,5478 }, {  99,5478 }, { 100,5478 },
- { 101,5478 }, { 102,5478 }, { 103,5478 }, { 104,5478 }, { 105,5478 },
-
- { 106,5478 }, { 107,5478 }, { 108,5478 }, { 109,5478 }, { 110,5478 },
- { 111,5478 }, { 112,5478 }, { 113,5478 }, { 114,5478 }, { 115,5478 },
- { 116,5478 }, { 117,5478 }, { 118,5478 }, { 119,5478 }, { 120,5478 },
- { 121,5478 }, { 122,5478 }, {   0,   0 }, { 124,5478 }, { 125,5478 },
- { 126,5478 }, { 127,5478 }, { 128,5478 }, { 129,5478 }, { 130,5478 },
- { 131,5478 }, { 132,5478 }, { 133,5478 }, { 134,5478 }, { 135,5478 },
- { 136,5478 }, { 137,5478 }, { 138,5478 }, { 139,5478 }, { 140,5478 },
- { 141,5478 }, { 142,5478 }, { 143,5478 }, { 144,5478 }, { 145,5478 },
- { 146,5478 }, { 147,5478 }, { 148,5478 }, { 149,5478 }, { 150,5478 },
- { 151,5478 }, { 152,5478 }, { 153,5478 }, { 154,5478 }, { 155,5478 },
-
- { 156,5478 }, { 157,5478 }, { 158,5478 }, { 159,5478 }, { 160,5478 },
- { 161,5478 }, { 162,5478 }, { 163,5478 }, { 164,5478 }, { 165,5478 },
- { 166,5478 }, { 167,5478 }, { 168,5478 }, { 169,5478 }, { 170,5478 },
- { 171,5478 }, { 172,5478 }, { 173,5478 }, { 174,5478 }, { 175,5478 },
- { 176,5478 }, { 177,5478 }, { 178,5478 }, { 179,5478 }, { 180,5478 },
- { 181,5478 }, { 182,5478 }, { 183,5478 }, { 184,5478 }, { 185,5478 },
- { 186,5478 }, { 187,5478 }, { 188,5478 }, { 189,5478 }, { 190,5478 },
- { 191,5478 }, { 192,5478 }, { 193,5478 }, { 194,5478 }, { 195,5478 },
- { 196,5478 }, { 197,5478 }, { 198,5478 }, { 199,5478 }, { 200,5478 },
- { 201,5478 }, { 202,5478 }, { 203,5478 }, { 204,5478 }, { 205,5478 },
-
- { 206,5478 }, { 207,5478 }, { 208,5478 }, { 209,5478 }, { 210,5478 },
- { 211,5478 }, { 212,5478 }, { 213,5478 }, { 214,5478 }, { 215,5478 },
- { 216,5478 }, { 217,5478 }, { 218,5478 }, { 219,5478 }, { 220,5478 },
- { 221,5478 }, { 222,5478 }, { 223,5478 }, { 224,5478 }, { 225,5478 },
- { 226,5478 }, { 227,5478 }, { 228,5478 }, { 229,5478 }, { 230,5478 },
- { 231,5478 }, { 232,5478 }, { 233,5478 }, { 234,5478 }, { 235,5478 },
- { 236,5478 }, { 237,5478 }, { 238,5478 }, { 239,5478 }, { 240,5478 },
- { 241,5478 }, { 242,5478 }, { 243,5478 }, { 244,5478 }, { 245,5478 },
- { 246,5478 }, { 247,5478 }, { 248,5478 }, { 249,5478 }, { 250,5478 },
- { 251,5478 }, { 252,5478 }, { 253,5478 }, { 254,5478 }, { 255,5478 },
-
- {   0,   2 }, {   0,15203 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10, 257 }, {  11,   0 }, {  12,   0 }, {  13, 257 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
- {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
-
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92, 259 }, {  93,   0 },
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
-
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
-
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
-
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 254,2838 }, { 255,2838 }, { 256,2838 }, {   0,   0 }, {   0,22834 },
+ {   1,3225 }, {   2,3225 }, {   3,3225 }, {   4,3225 }, {   5,3225 },
+ {   6,3225 }, {   7,3225 }, {   8,3225 }, {   9,2844 }, {  10,2846 },
+ {  11,3225 }, {  12,3225 }, {  13,2844 }, {  14,3225 }, {  15,3225 },
+ {  16,3225 }, {  17,3225 }, {  18,3225 }, {  19,3225 }, {  20,3225 },
+ {  21,3225 }, {  22,3225 }, {  23,3225 }, {  24,3225 }, {  25,3225 },
+ {  26,3225 }, {  27,3225 }, {  28,3225 }, {  29,3225 }, {  30,3225 },
+
+ {  31,3225 }, {  32,2844 }, {  33,2850 }, {  34,3483 }, {  35,2850 },
+ {  36,3225 }, {  37,2850 }, {  38,2850 }, {  39,3741 }, {  40,2861 },
+ {  41,2863 }, {  42,2850 }, {  43,2850 }, {  44,2850 }, {  45,3999 },
+ {  46,4257 }, {  47,2865 }, {  48,4339 }, {  49,4339 }, {  50,4339 },
+ {  51,4339 }, {  52,4339 }, {  53,4339 }, {  54,4339 }, {  55,4339 },
+ {  56,4339 }, {  57,4339 }, {  58,3225 }, {  59,2850 }, {  60,2850 },
+ {  61,2867 }, {  62,2850 }, {  63,3225 }, {  64,2869 }, {  65,3225 },
+ {  66,3225 }, {  67,3225 }, {  68,3225 }, {  69,3225 }, {  70,3225 },
+ {  71,3225 }, {  72,3225 }, {  73,3225 }, {  74,3225 }, {  75,3225 },
+ {  76,3225 }, {  77,3225 }, {  78,3225 }, {  79,3225 }, {  80,3225 },
+
+ {  81,3225 }, {  82,3225 }, {  83,3225 }, {  84,3225 }, {  85,3225 },
+ {  86,3225 }, {  87,3225 }, {  88,3225 }, {  89,3225 }, {  90,3225 },
+ {  91,4597 }, {  92,2850 }, {  93,2850 }, {  94,2850 }, {  95,3225 },
+ {  96,2850 }, {  97,4855 }, {  98,3225 }, {  99,3225 }, { 100,3225 },
+ { 101,3225 }, { 102,5113 }, { 103,3225 }, { 104,3225 }, { 105,3225 },
+ { 106,3225 }, { 107,3225 }, { 108,3225 }, { 109,3225 }, { 110,5371 },
+ { 111,3225 }, { 112,3225 }, { 113,3225 }, { 114,3225 }, { 115,3225 },
+ { 116,5629 }, { 117,5887 }, { 118,3225 }, { 119,3225 }, { 120,3225 },
+ { 121,3225 }, { 122,3225 }, { 123,4275 }, { 124,4277 }, { 125,4306 },
+ { 126,4308 }, { 127,3225 }, { 128,3225 }, { 129,3225 }, { 130,3225 },
+
+ { 131,3225 }, { 132,3225 }, { 133,3225 }, { 134,3225 }, { 135,3225 },
+ { 136,3225 }, { 137,3225 }, { 138,3225 }, { 139,3225 }, { 140,3225 },
+ { 141,3225 }, { 142,3225 }, { 143,3225 }, { 144,3225 }, { 145,3225 },
+ { 146,3225 }, { 147,3225 }, { 148,3225 }, { 149,3225 }, { 150,3225 },
+ { 151,3225 }, { 152,3225 }, { 153,3225 }, { 154,3225 }, { 155,3225 },
+ { 156,3225 }, { 157,3225 }, { 158,3225 }, { 159,3225 }, { 160,3225 },
+ { 161,3225 }, { 162,3225 }, { 163,3225 }, { 164,3225 }, { 165,3225 },
+ { 166,3225 }, { 167,3225 }, { 168,3225 }, { 169,3225 }, { 170,3225 },
+ { 171,3225 }, { 172,3225 }, { 173,3225 }, { 174,3225 }, { 175,3225 },
+ { 176,3225 }, { 177,3225 }, { 178,3225 }, { 179,3225 }, { 180,3225 },
+
+ { 181,3225 }, { 182,3225 }, { 183,3225 }, { 184,3225 }, { 185,3225 },
+ { 186,3225 }, { 187,3225 }, { 188,3225 }, { 189,3225 }, { 190,3225 },
+ { 191,3225 }, { 192,3225 }, { 193,3225 }, { 194,3225 }, { 195,3225 },
+ { 196,3225 }, { 197,3225 }, { 198,3225 }, { 199,3225 }, { 200,3225 },
+ { 201,3225 }, { 202,3225 }, { 203,3225 }, { 204,3225 }, { 205,3225 },
+ { 206,3225 }, { 207,3225 }, { 208,3225 }, { 209,3225 }, { 210,3225 },
+ { 211,3225 }, { 212,3225 }, { 213,3225 }, { 214,3225 }, { 215,3225 },
+ { 216,3225 }, { 217,3225 }, { 218,3225 }, { 219,3225 }, { 220,3225 },
+ { 221,3225 }, { 222,3225 }, { 223,3225 }, { 224,3225 }, { 225,3225 },
+ { 226,3225 }, { 227,3225 }, { 228,3225 }, { 229,3225 }, { 230,3225 },
+
+ { 231,3225 }, { 232,3225 }, { 233,3225 }, { 234,3225 }, { 235,3225 },
+ { 236,3225 }, { 237,3225 }, { 238,3225 }, { 239,3225 }, { 240,3225 },
+ { 241,3225 }, { 242,3225 }, { 243,3225 }, { 244,3225 }, { 245,3225 },
+ { 246,3225 }, { 247,3225 }, { 248,3225 }, { 249,3225 }, { 250,3225 },
+ { 251,3225 }, { 252,3225 }, { 253,3225 }, { 254,3225 }, { 255,3225 },
+ { 256,3225 }, {   0,   0 }, {   0,22576 }, {   1,2967 }, {   2,2967 },
+ {   3,2967 }, {   4,2967 }, {   5,2967 }, {   6,2967 }, {   7,2967 },
+ {   8,2967 }, {   9,2586 }, {  10,2588 }, {  11,2967 }, {  12,2967 },
+ {  13,2586 }, {  14,2967 }, {  15,2967 }, {  16,2967 }, {  17,2967 },
+ {  18,2967 }, {  19,2967 }, {  20,2967 }, {  21,2967 }, {  22,2967 },
+
+ {  23,2967 }, {  24,2967 }, {  25,2967 }, {  26,2967 }, {  27,2967 },
+ {  28,2967 }, {  29,2967 }, {  30,2967 }, {  31,2967 }, {  32,2586 },
+ {  33,2592 }, {  34,3225 }, {  35,2592 }, {  36,2967 }, {  37,2592 },
+ {  38,2592 }, {  39,3483 }, {  40,2603 }, {  41,2605 }, {  42,2592 },
+ {  43,2592 }, {  44,2592 }, {  45,3741 }, {  46,3999 }, {  47,2607 },
+ {  48,4081 }, {  49,4081 }, {  50,4081 }, {  51,4081 }, {  52,4081 },
+ {  53,4081 }, {  54,4081 }, {  55,4081 }, {  56,4081 }, {  57,4081 },
+ {  58,2967 }, {  59,2592 }, {  60,2592 }, {  61,2609 }, {  62,2592 },
+ {  63,2967 }, {  64,2611 }, {  65,2967 }, {  66,2967 }, {  67,2967 },
+ {  68,2967 }, {  69,2967 }, {  70,2967 }, {  71,2967 }, {  72,2967 },
+
+ {  73,2967 }, {  74,2967 }, {  75,2967 }, {  76,2967 }, {  77,2967 },
+ {  78,2967 }, {  79,2967 }, {  80,2967 }, {  81,2967 }, {  82,2967 },
+ {  83,2967 }, {  84,2967 }, {  85,2967 }, {  86,2967 }, {  87,2967 },
+ {  88,2967 }, {  89,2967 }, {  90,2967 }, {  91,4339 }, {  92,2592 },
+ {  93,2592 }, {  94,2592 }, {  95,2967 }, {  96,2592 }, {  97,4597 },
+ {  98,2967 }, {  99,2967 }, { 100,2967 }, { 101,2967 }, { 102,4855 },
+ { 103,2967 }, { 104,2967 }, { 105,2967 }, { 106,2967 }, { 107,2967 },
+ { 108,2967 }, { 109,2967 }, { 110,5113 }, { 111,2967 }, { 112,2967 },
+ { 113,2967 }, { 114,2967 }, { 115,2967 }, { 116,5371 }, { 117,5629 },
+ { 118,2967 }, { 119,2967 }, { 120,2967 }, { 121,2967 }, { 122,2967 },
+
+ { 123,4017 }, { 124,4019 }, { 125,4048 }, { 126,4050 }, { 127,2967 },
+ { 128,2967 }, { 129,2967 }, { 130,2967 }, { 131,2967 }, { 132,2967 },
+ { 133,2967 }, { 134,2967 }, { 135,2967 }, { 136,2967 }, { 137,2967 },
+ { 138,2967 }, { 139,2967 }, { 140,2967 }, { 141,2967 }, { 142,2967 },
+ { 143,2967 }, { 144,2967 }, { 145,2967 }, { 146,2967 }, { 147,2967 },
+ { 148,2967 }, { 149,2967 }, { 150,2967 }, { 151,2967 }, { 152,2967 },
+ { 153,2967 }, { 154,2967 }, { 155,2967 }, { 156,2967 }, { 157,2967 },
+ { 158,2967 }, { 159,2967 }, { 160,2967 }, { 161,2967 }, { 162,2967 },
+ { 163,2967 }, { 164,2967 }, { 165,2967 }, { 166,2967 }, { 167,2967 },
+ { 168,2967 }, { 169,2967 }, { 170,2967 }, { 171,2967 }, { 172,2967 },
+
+ { 173,2967 }, { 174,2967 }, { 175,2967 }, { 176,2967 }, { 177,2967 },
+ { 178,2967 }, { 179,2967 }, { 180,2967 }, { 181,2967 }, { 182,2967 },
+ { 183,2967 }, { 184,2967 }, { 185,2967 }, { 186,2967 }, { 187,2967 },
+ { 188,2967 }, { 189,2967 }, { 190,2967 }, { 191,2967 }, { 192,2967 },
+ { 193,2967 }, { 194,2967 }, { 195,2967 }, { 196,2967 }, { 197,2967 },
+ { 198,2967 }, { 199,2967 }, { 200,2967 }, { 201,2967 }, { 202,2967 },
+ { 203,2967 }, { 204,2967 }, { 205,2967 }, { 206,2967 }, { 207,2967 },
+ { 208,2967 }, { 209,2967 }, { 210,2967 }, { 211,2967 }, { 212,2967 },
+ { 213,2967 }, { 214,2967 }, { 215,2967 }, { 216,2967 }, { 217,2967 },
+ { 218,2967 }, { 219,2967 }, { 220,2967 }, { 221,2967 }, { 222,2967 },
+
+ { 223,2967 }, { 224,2967 }, { 225,2967 }, { 226,2967 }, { 227,2967 },
+ { 228,2967 }, { 229,2967 }, { 230,2967 }, { 231,2967 }, { 232,2967 },
+ { 233,2967 }, { 234,2967 }, { 235,2967 }, { 236,2967 }, { 237,2967 },
+ { 238,2967 }, { 239,2967 }, { 240,2967 }, { 241,2967 }, { 242,2967 },
+ { 243,2967 }, { 244,2967 }, { 245,2967 }, { 246,2967 }, { 247,2967 },
+ { 248,2967 }, { 249,2967 }, { 250,2967 }, { 251,2967 }, { 252,2967 },
+ { 253,2967 }, { 254,2967 }, { 255,2967 }, { 256,2967 }, {   0,   0 },
+ {   0,22318 }, {   1,3794 }, {   2,3794 }, {   3,3794 }, {   4,3794 },
+ {   5,3794 }, {   6,3794 }, {   7,3794 }, {   8,3794 }, {   9,3794 },
+ {  10,3796 }, {  11,3794 }, {  12,3794 }, {  13,3794 }, {  14,3794 },
+
+ {  15,3794 }, {  16,3794 }, {  17,3794 }, {  18,3794 }, {  19,3794 },
+ {  20,3794 }, {  21,3794 }, {  22,3794 }, {  23,3794 }, {  24,3794 },
+ {  25,3794 }, {  26,3794 }, {  27,3794 }, {  28,3794 }, {  29,3794 },
+ {  30,3794 }, {  31,3794 }, {  32,3794 }, {  33,3794 }, {  34,3794 },
+ {  35,3794 }, {  36,3794 }, {  37,3794 }, {  38,3794 }, {  39,3794 },
+ {  40,3794 }, {  41,3794 }, {  42,3794 }, {  43,3794 }, {  44,3794 },
+ {  45,3794 }, {  46,3794 }, {  47,3794 }, {  48,3794 }, {  49,3794 },
+ {  50,3794 }, {  51,3794 }, {  52,3794 }, {  53,3794 }, {  54,3794 },
+ {  55,3794 }, {  56,3794 }, {  57,3794 }, {  58,3794 }, {  59,3794 },
+ {  60,3794 }, {  61,3794 }, {  62,3794 }, {  63,3794 }, {  64,3794 },
+
+ {  65,3794 }, {  66,3794 }, {  67,3794 }, {  68,3794 }, {  69,3794 },
+ {  70,3794 }, {  71,3794 }, {  72,3794 }, {  73,3794 }, {  74,3794 },
+ {  75,3794 }, {  76,3794 }, {  77,3794 }, {  78,3794 }, {  79,3794 },
+ {  80,3794 }, {  81,3794 }, {  82,3794 }, {  83,3794 }, {  84,3794 },
+ {  85,3794 }, {  86,3794 }, {  87,3794 }, {  88,3794 }, {  89,3794 },
+ {  90,3794 }, {  91,3794 }, {  92,3794 }, {  93,3794 }, {  94,3794 },
+ {  95,3794 }, {  96,3794 }, {  97,3794 }, {  98,3794 }, {  99,3794 },
+ { 100,3794 }, { 101,3794 }, { 102,3794 }, { 103,3794 }, { 104,3794 },
+ { 105,3794 }, { 106,3794 }, { 107,3794 }, { 108,3794 }, { 109,3794 },
+ { 110,3794 }, { 111,3794 }, { 112,3794 }, { 113,3794 }, { 114,3794 },
+
+ { 115,3794 }, { 116,3794 }, { 117,3794 }, { 118,3794 }, { 119,3794 },
+ { 120,3794 }, { 121,3794 }, { 122,3794 }, { 123,3794 }, { 124,3794 },
+ { 125,3794 }, { 126,3794 }, { 127,3794 }, { 128,3794 }, { 129,3794 },
+ { 130,3794 }, { 131,3794 }, { 132,3794 }, { 133,3794 }, { 134,3794 },
+ { 135,3794 }, { 136,3794 }, { 137,3794 }, { 138,3794 }, { 139,3794 },
+ { 140,3794 }, { 141,3794 }, { 142,3794 }, { 143,3794 }, { 144,3794 },
+ { 145,3794 }, { 146,3794 }, { 147,3794 }, { 148,3794 }, { 149,3794 },
+ { 150,3794 }, { 151,3794 }, { 152,3794 }, { 153,3794 }, { 154,3794 },
+ { 155,3794 }, { 156,3794 }, { 157,3794 }, { 158,3794 }, { 159,3794 },
+ { 160,3794 }, { 161,3794 }, { 162,3794 }, { 163,3794 }, { 164,3794 },
+
+ { 165,3794 }, { 166,3794 }, { 167,3794 }, { 168,3794 }, { 169,3794 },
+ { 170,3794 }, { 171,3794 }, { 172,3794 }, { 173,3794 }, { 174,3794 },
+ { 175,3794 }, { 176,3794 }, { 177,3794 }, { 178,3794 }, { 179,3794 },
+ { 180,3794 }, { 181,3794 }, { 182,3794 }, { 183,3794 }, { 184,3794 },
+ { 185,3794 }, { 186,3794 }, { 187,3794 }, { 188,3794 }, { 189,3794 },
+ { 190,3794 }, { 191,3794 }, { 192,3794 }, { 193,3794 }, { 194,3794 },
+ { 195,3794 }, { 196,3794 }, { 197,3794 }, { 198,3794 }, { 199,3794 },
+ { 200,3794 }, { 201,3794 }, { 202,3794 }, { 203,3794 }, { 204,3794 },
+ { 205,3794 }, { 206,3794 }, { 207,3794 }, { 208,3794 }, { 209,3794 },
+ { 210,3794 }, { 211,3794 }, { 212,3794 }, { 213,3794 }, { 214,3794 },
+
+ { 215,3794 }, { 216,3794 }, { 217,3794 }, { 218,3794 }, { 219,3794 },
+ { 220,3794 }, { 221,3794 }, { 222,3794 }, { 223,3794 }, { 224,3794 },
+ { 225,3794 }, { 226,3794 }, { 227,3794 }, { 228,3794 }, { 229,3794 },
+ { 230,3794 }, { 231,3794 }, { 232,3794 }, { 233,3794 }, { 234,3794 },
+ { 235,3794 }, { 236,3794 }, { 237,3794 }, { 238,3794 }, { 239,3794 },
+ { 240,3794 }, { 241,3794 }, { 242,3794 }, { 243,3794 }, { 244,3794 },
+ { 245,3794 }, { 246,3794 }, { 247,3794 }, { 248,3794 }, { 249,3794 },
+ { 250,3794 }, { 251,3794 }, { 252,3794 }, { 253,3794 }, { 254,3794 },
+ { 255,3794 }, { 256,3794 }, {   0,   0 }, {   0,22060 }, {   1,3536 },
+ {   2,3536 }, {   3,3536 }, {   4,3536 }, {   5,3536 }, {   6,3536 },
+
+ {   7,3536 }, {   8,3536 }, {   9,3536 }, {  10,3538 }, {  11,3536 },
+ {  12,3536 }, {  13,3536 }, {  14,3536 }, {  15,3536 }, {  16,3536 },
+ {  17,3536 }, {  18,3536 }, {  19,3536 }, {  20,3536 }, {  21,3536 },
+ {  22,3536 }, {  23,3536 }, {  24,3536 }, {  25,3536 }, {  26,3536 },
+ {  27,3536 }, {  28,3536 }, {  29,3536 }, {  30,3536 }, {  31,3536 },
+ {  32,3536 }, {  33,3536 }, {  34,3536 }, {  35,3536 }, {  36,3536 },
+ {  37,3536 }, {  38,3536 }, {  39,3536 }, {  40,3536 }, {  41,3536 },
+ {  42,3536 }, {  43,3536 }, {  44,3536 }, {  45,3536 }, {  46,3536 },
+ {  47,3536 }, {  48,3536 }, {  49,3536 }, {  50,3536 }, {  51,3536 },
+ {  52,3536 }, {  53,3536 }, {  54,3536 }, {  55,3536 }, {  56,3536 },
+
+ {  57,3536 }, {  58,3536 }, {  59,3536 }, {  60,3536 }, {  61,3536 },
+ {  62,3536 }, {  63,3536 }, {  64,3536 }, {  65,3536 }, {  66,3536 },
+ {  67,3536 }, {  68,3536 }, {  69,3536 }, {  70,3536 }, {  71,3536 },
+ {  72,3536 }, {  73,3536 }, {  74,3536 }, {  75,3536 }, {  76,3536 },
+ {  77,3536 }, {  78,3536 }, {  79,3536 }, {  80,3536 }, {  81,3536 },
+ {  82,3536 }, {  83,3536 }, {  84,3536 }, {  85,3536 }, {  86,3536 },
+ {  87,3536 }, {  88,3536 }, {  89,3536 }, {  90,3536 }, {  91,3536 },
+ {  92,3536 }, {  93,3536 }, {  94,3536 }, {  95,3536 }, {  96,3536 },
+ {  97,3536 }, {  98,3536 }, {  99,3536 }, { 100,3536 }, { 101,3536 },
+ { 102,3536 }, { 103,3536 }, { 104,3536 }, { 105,3536 }, { 106,3536 },
+
+ { 107,3536 }, { 108,3536 }, { 109,3536 }, { 110,3536 }, { 111,3536 },
+ { 112,3536 }, { 113,3536 }, { 114,3536 }, { 115,3536 }, { 116,3536 },
+ { 117,3536 }, { 118,3536 }, { 119,3536 }, { 120,3536 }, { 121,3536 },
+ { 122,3536 }, { 123,3536 }, { 124,3536 }, { 125,3536 }, { 126,3536 },
+ { 127,3536 }, { 128,3536 }, { 129,3536 }, { 130,3536 }, { 131,3536 },
+ { 132,3536 }, { 133,3536 }, { 134,3536 }, { 135,3536 }, { 136,3536 },
+ { 137,3536 }, { 138,3536 }, { 139,3536 }, { 140,3536 }, { 141,3536 },
+ { 142,3536 }, { 143,3536 }, { 144,3536 }, { 145,3536 }, { 146,3536 },
+ { 147,3536 }, { 148,3536 }, { 149,3536 }, { 150,3536 }, { 151,3536 },
+ { 152,3536 }, { 153,3536 }, { 154,3536 }, { 155,3536 }, { 156,3536 },
+
+ { 157,3536 }, { 158,3536 }, { 159,3536 }, { 160,3536 }, { 161,3536 },
+ { 162,3536 }, { 163,3536 }, { 164,3536 }, { 165,3536 }, { 166,3536 },
+ { 167,3536 }, { 168,3536 }, { 169,3536 }, { 170,3536 }, { 171,3536 },
+ { 172,3536 }, { 173,3536 }, { 174,3536 }, { 175,3536 }, { 176,3536 },
+ { 177,3536 }, { 178,3536 }, { 179,3536 }, { 180,3536 }, { 181,3536 },
+ { 182,3536 }, { 183,3536 }, { 184,3536 }, { 185,3536 }, { 186,3536 },
+ { 187,3536 }, { 188,3536 }, { 189,3536 }, { 190,3536 }, { 191,3536 },
+ { 192,3536 }, { 193,3536 }, { 194,3536 }, { 195,3536 }, { 196,3536 },
+ { 197,3536 }, { 198,3536 }, { 199,3536 }, { 200,3536 }, { 201,3536 },
+ { 202,3536 }, { 203,3536 }, { 204,3536 }, { 205,3536 }, { 206,3536 },
+
+ { 207,3536 }, { 208,3536 }, { 209,3536 }, { 210,3536 }, { 211,3536 },
+ { 212,3536 }, { 213,3536 }, { 214,3536 }, { 215,3536 }, { 216,3536 },
+ { 217,3536 }, { 218,3536 }, { 219,3536 }, { 220,3536 }, { 221,3536 },
+ { 222,3536 }, { 223,3536 }, { 224,3536 }, { 225,3536 }, { 226,3536 },
+ { 227,3536 }, { 228,3536 }, { 229,3536 }, { 230,3536 }, { 231,3536 },
+ { 232,3536 }, { 233,3536 }, { 234,3536 }, { 235,3536 }, { 236,3536 },
+ { 237,3536 }, { 238,3536 }, { 239,3536 }, { 240,3536 }, { 241,3536 },
+ { 242,3536 }, { 243,3536 }, { 244,3536 }, { 245,3536 }, { 246,3536 },
+ { 247,3536 }, { 248,3536 }, { 249,3536 }, { 250,3536 }, { 251,3536 },
+ { 252,3536 }, { 253,3536 }, { 254,3536 }, { 255,3536 }, { 256,3536 },
+
+ {   0,   0 }, {   0,21802 }, {   1,5113 }, {   2,5113 }, {   3,5113 },
+ {   4,5113 }, {   5,5113 }, {   6,5113 }, {   7,5113 }, {   8,5113 },
+ {   9,5113 }, {  10,5113 }, {  11,5113 }, {  12,5113 }, {  13,5113 },
+ {  14,5113 }, {  15,5113 }, {  16,5113 }, {  17,5113 }, {  18,5113 },
+ {  19,5113 }, {  20,5113 }, {  21,5113 }, {  22,5113 }, {  23,5113 },
+ {  24,5113 }, {  25,5113 }, {  26,5113 }, {  27,5113 }, {  28,5113 },
+ {  29,5113 }, {  30,5113 }, {  31,5113 }, {  32,5113 }, {  33,5113 },
+ {  34,5113 }, {  35,5113 }, {  36,5113 }, {  37,5113 }, {  38,5113 },
+ {  39,5113 }, {  40,5113 }, {  41,5113 }, {  42,5113 }, {  43,5113 },
+ {  44,5113 }, {  45,5371 }, {  46,5113 }, {  47,5113 }, {  48,5113 },
+
+ {  49,5113 }, {  50,5113 }, {  51,5113 }, {  52,5113 }, {  53,5113 },
+ {  54,5113 }, {  55,5113 }, {  56,5113 }, {  57,5113 }, {  58,5113 },
+ {  59,5113 }, {  60,5113 }, {  61,5113 }, {  62,5113 }, {  63,5113 },
+ {  64,5113 }, {  65,5113 }, {  66,5113 }, {  67,5113 }, {  68,5113 },
+ {  69,5113 }, {  70,5113 }, {  71,5113 }, {  72,5113 }, {  73,5113 },
+ {  74,5113 }, {  75,5113 }, {  76,5113 }, {  77,5113 }, {  78,5113 },
+ {  79,5113 }, {  80,5113 }, {  81,5113 }, {  82,5113 }, {  83,5113 },
+ {  84,5113 }, {  85,5113 }, {  86,5113 }, {  87,5113 }, {  88,5113 },
+ {  89,5113 }, {  90,5113 }, {  91,5113 }, {  92,5113 }, {  93,5113 },
+ {  94,5113 }, {  95,5113 }, {  96,5113 }, {  97,5113 }, {  98,5113 },
+
+ {  99,5113 }, { 100,5113 }, { 101,5113 }, { 102,5113 }, { 103,5113 },
+ { 104,5113 }, { 105,5113 }, { 106,5113 }, { 107,5113 }, { 108,5113 },
+ { 109,5113 }, { 110,5113 }, { 111,5113 }, { 112,5113 }, { 113,5113 },
+ { 114,5113 }, { 115,5113 }, { 116,5113 }, { 117,5113 }, { 118,5113 },
+ { 119,5113 }, { 120,5113 }, { 121,5113 }, { 122,5113 }, { 123,5113 },
+ { 124,5113 }, { 125,5113 }, { 126,5113 }, { 127,5113 }, { 128,5113 },
+ { 129,5113 }, { 130,5113 }, { 131,5113 }, { 132,5113 }, { 133,5113 },
+ { 134,5113 }, { 135,5113 }, { 136,5113 }, { 137,5113 }, { 138,5113 },
+ { 139,5113 }, { 140,5113 }, { 141,5113 }, { 142,5113 }, { 143,5113 },
+ { 144,5113 }, { 145,5113 }, { 146,5113 }, { 147,5113 }, { 148,5113 },
+
+ { 149,5113 }, { 150,5113 }, { 151,5113 }, { 152,5113 }, { 153,5113 },
+ { 154,5113 }, { 155,5113 }, { 156,5113 }, { 157,5113 }, { 158,5113 },
+ { 159,5113 }, { 160,5113 }, { 161,5113 }, { 162,5113 }, { 163,5113 },
+ { 164,5113 }, { 165,5113 }, { 166,5113 }, { 167,5113 }, { 168,5113 },
+ { 169,5113 }, { 170,5113 }, { 171,5113 }, { 172,5113 }, { 173,5113 },
+ { 174,5113 }, { 175,5113 }, { 176,5113 }, { 177,5113 }, { 178,5113 },
+ { 179,5113 }, { 180,5113 }, { 181,5113 }, { 182,5113 }, { 183,5113 },
+ { 184,5113 }, { 185,5113 }, { 186,5113 }, { 187,5113 }, { 188,5113 },
+ { 189,5113 }, { 190,5113 }, { 191,5113 }, { 192,5113 }, { 193,5113 },
+ { 194,5113 }, { 195,5113 }, { 196,5113 }, { 197,5113 }, { 198,5113 },
+
+ { 199,5113 }, { 200,5113 }, { 201,5113 }, { 202,5113 }, { 203,5113 },
+ { 204,5113 }, { 205,5113 }, { 206,5113 }, { 207,5113 }, { 208,5113 },
+ { 209,5113 }, { 210,5113 }, { 211,5113 }, { 212,5113 }, { 213,5113 },
+ { 214,5113 }, { 215,5113 }, { 216,5113 }, { 217,5113 }, { 218,5113 },
+ { 219,5113 }, { 220,5113 }, { 221,5113 }, { 222,5113 }, { 223,5113 },
+ { 224,5113 }, { 225,5113 }, { 226,5113 }, { 227,5113 }, { 228,5113 },
+ { 229,5113 }, { 230,5113 }, { 231,5113 }, { 232,5113 }, { 233,5113 },
+ { 234,5113 }, { 235,5113 }, { 236,5113 }, { 237,5113 }, { 238,5113 },
+ { 239,5113 }, { 240,5113 }, { 241,5113 }, { 242,5113 }, { 243,5113 },
+ { 244,5113 }, { 245,5113 }, { 246,5113 }, { 247,5113 }, { 248,5113 },
+
+ { 249,5113 }, { 250,5113 }, { 251,5113 }, { 252,5113 }, { 253,5113 },
+ { 254,5113 }, { 255,5113 }, { 256,5113 }, {   0,   0 }, {   0,21544 },
+ {   1,4855 }, {   2,4855 }, {   3,4855 }, {   4,4855 }, {   5,4855 },
+ {   6,4855 }, {   7,4855 }, {   8,4855 }, {   9,4855 }, {  10,4855 },
+ {  11,4855 }, {  12,4855 }, {  13,4855 }, {  14,4855 }, {  15,4855 },
+ {  16,4855 }, {  17,4855 }, {  18,4855 }, {  19,4855 }, {  20,4855 },
+ {  21,4855 }, {  22,4855 }, {  23,4855 }, {  24,4855 }, {  25,4855 },
+ {  26,4855 }, {  27,4855 }, {  28,4855 }, {  29,4855 }, {  30,4855 },
+ {  31,4855 }, {  32,4855 }, {  33,4855 }, {  34,4855 }, {  35,4855 },
+ {  36,4855 }, {  37,4855 }, {  38,4855 }, {  39,4855 }, {  40,4855 },
+
+ {  41,4855 }, {  42,4855 }, {  43,4855 }, {  44,4855 }, {  45,5113 },
+ {  46,4855 }, {  47,4855 }, {  48,4855 }, {  49,4855 }, {  50,4855 },
+ {  51,4855 }, {  52,4855 }, {  53,4855 }, {  54,4855 }, {  55,4855 },
+ {  56,4855 }, {  57,4855 }, {  58,4855 }, {  59,4855 }, {  60,4855 },
+ {  61,4855 }, {  62,4855 }, {  63,4855 }, {  64,4855 }, {  65,4855 },
+ {  66,4855 }, {  67,4855 }, {  68,4855 }, {  69,4855 }, {  70,4855 },
+ {  71,4855 }, {  72,4855 }, {  73,4855 }, {  74,4855 }, {  75,4855 },
+ {  76,4855 }, {  77,4855 }, {  78,4855 }, {  79,4855 }, {  80,4855 },
+ {  81,4855 }, {  82,4855 }, {  83,4855 }, {  84,4855 }, {  85,4855 },
+ {  86,4855 }, {  87,4855 }, {  88,4855 }, {  89,4855 }, {  90,4855 },
+
+ {  91,4855 }, {  92,4855 }, {  93,4855 }, {  94,4855 }, {  95,4855 },
+ {  96,4855 }, {  97,4855 }, {  98,4855 }, {  99,4855 }, { 100,4855 },
+ { 101,4855 }, { 102,4855 }, { 103,4855 }, { 104,4855 }, { 105,4855 },
+ { 106,4855 }, { 107,4855 }, { 108,4855 }, { 109,4855 }, { 110,4855 },
+ { 111,4855 }, { 112,4855 }, { 113,4855 }, { 114,4855 }, { 115,4855 },
+ { 116,4855 }, { 117,4855 }, { 118,4855 }, { 119,4855 }, { 120,4855 },
+ { 121,4855 }, { 122,4855 }, { 123,4855 }, { 124,4855 }, { 125,4855 },
+ { 126,4855 }, { 127,4855 }, { 128,4855 }, { 129,4855 }, { 130,4855 },
+ { 131,4855 }, { 132,4855 }, { 133,4855 }, { 134,4855 }, { 135,4855 },
+ { 136,4855 }, { 137,4855 }, { 138,4855 }, { 139,4855 }, { 140,4855 },
+
+ { 141,4855 }, { 142,4855 }, { 143,4855 }, { 144,4855 }, { 145,4855 },
+ { 146,4855 }, { 147,4855 }, { 148,4855 }, { 149,4855 }, { 150,4855 },
+ { 151,4855 }, { 152,4855 }, { 153,4855 }, { 154,4855 }, { 155,4855 },
+ { 156,4855 }, { 157,4855 }, { 158,4855 }, { 159,4855 }, { 160,4855 },
+ { 161,4855 }, { 162,4855 }, { 163,4855 }, { 164,4855 }, { 165,4855 },
+ { 166,4855 }, { 167,4855 }, { 168,4855 }, { 169,4855 }, { 170,4855 },
+ { 171,4855 }, { 172,4855 }, { 173,4855 }, { 174,4855 }, { 175,4855 },
+ { 176,4855 }, { 177,4855 }, { 178,4855 }, { 179,4855 }, { 180,4855 },
+ { 181,4855 }, { 182,4855 }, { 183,4855 }, { 184,4855 }, { 185,4855 },
+ { 186,4855 }, { 187,4855 }, { 188,4855 }, { 189,4855 }, { 190,4855 },
+
+ { 191,4855 }, { 192,4855 }, { 193,4855 }, { 194,4855 }, { 195,4855 },
+ { 196,4855 }, { 197,4855 }, { 198,4855 }, { 199,4855 }, { 200,4855 },
+ { 201,4855 }, { 202,4855 }, { 203,4855 }, { 204,4855 }, { 205,4855 },
+ { 206,4855 }, { 207,4855 }, { 208,4855 }, { 209,4855 }, { 210,4855 },
+ { 211,4855 }, { 212,4855 }, { 213,4855 }, { 214,4855 }, { 215,4855 },
+ { 216,4855 }, { 217,4855 }, { 218,4855 }, { 219,4855 }, { 220,4855 },
+ { 221,4855 }, { 222,4855 }, { 223,4855 }, { 224,4855 }, { 225,4855 },
+ { 226,4855 }, { 227,4855 }, { 228,4855 }, { 229,4855 }, { 230,4855 },
+ { 231,4855 }, { 232,4855 }, { 233,4855 }, { 234,4855 }, { 235,4855 },
+ { 236,4855 }, { 237,4855 }, { 238,4855 }, { 239,4855 }, { 240,4855 },
+
+ { 241,4855 }, { 242,4855 }, { 243,4855 }, { 244,4855 }, { 245,4855 },
+ { 246,4855 }, { 247,4855 }, { 248,4855 }, { 249,4855 }, { 250,4855 },
+ { 251,4855 }, { 252,4855 }, { 253,4855 }, { 254,4855 }, { 255,4855 },
+ { 256,4855 }, {   0,   0 }, {   0,21286 }, {   1,5113 }, {   2,5113 },
+ {   3,5113 }, {   4,5113 }, {   5,5113 }, {   6,5113 }, {   7,5113 },
+ {   8,5113 }, {   9,5113 }, {  10,5113 }, {  11,5113 }, {  12,5113 },
+ {  13,5113 }, {  14,5113 }, {  15,5113 }, {  16,5113 }, {  17,5113 },
+ {  18,5113 }, {  19,5113 }, {  20,5113 }, {  21,5113 }, {  22,5113 },
+ {  23,5113 }, {  24,5113 }, {  25,5113 }, {  26,5113 }, {  27,5113 },
+ {  28,5113 }, {  29,5113 }, {  30,5113 }, {  31,5113 }, {  32,5113 },
+
+ {  33,5113 }, {  34,5113 }, {  35,5113 }, {  36,5113 }, {  37,5113 },
+ {  38,5113 }, {  39,5113 }, {  40,5113 }, {  41,5113 }, {  42,5113 },
+ {  43,5113 }, {  44,5113 }, {  45,5113 }, {  46,5113 }, {  47,5113 },
+ {  48,5113 }, {  49,5113 }, {  50,5113 }, {  51,5113 }, {  52,5113 },
+ {  53,5113 }, {  54,5113 }, {  55,5113 }, {  56,5113 }, {  57,5113 },
+ {  58,5113 }, {  59,5113 }, {  60,5113 }, {  61,5113 }, {  62,5113 },
+ {  63,5113 }, {  64,5113 }, {  65,5113 }, {  66,5113 }, {  67,5113 },
+ {  68,5113 }, {  69,5113 }, {  70,5113 }, {  71,5113 }, {  72,5113 },
+ {  73,5113 }, {  74,5113 }, {  75,5113 }, {  76,5113 }, {  77,5113 },
+ {  78,5113 }, {  79,5113 }, {  80,5113 }, {  81,5113 }, {  82,5113 },
+
+ {  83,5113 }, {  84,5113 }, {  85,5113 }, {  86,5113 }, {  87,5113 },
+ {  88,5113 }, {  89,5113 }, {  90,5113 }, {  91,5113 }, {  92,5113 },
+ {  93,5113 }, {  94,5113 }, {  95,5113 }, {  96,5113 }, {  97,5113 },
+ {  98,5113 }, {  99,5113 }, { 100,5113 }, { 101,5113 }, { 102,5113 },
+ { 103,5113 }, { 104,5113 }, { 105,5113 }, { 106,5113 }, { 107,5113 },
+ { 108,5113 }, { 109,5113 }, { 110,5113 }, { 111,5113 }, { 112,5113 },
+ { 113,5113 }, { 114,5113 }, { 115,5113 }, { 116,5113 }, { 117,5113 },
+ { 118,5113 }, { 119,5113 }, { 120,5113 }, { 121,5113 }, { 122,5113 },
+ { 123,5113 }, { 124,5113 }, { 125,5371 }, { 126,5113 }, { 127,5113 },
+ { 128,5113 }, { 129,5113 }, { 130,5113 }, { 131,5113 }, { 132,5113 },
+
+ { 133,5113 }, { 134,5113 }, { 135,5113 }, { 136,5113 }, { 137,5113 },
+ { 138,5113 }, { 139,5113 }, { 140,5113 }, { 141,5113 }, { 142,5113 },
+ { 143,5113 }, { 144,5113 }, { 145,5113 }, { 146,5113 }, { 147,5113 },
+ { 148,5113 }, { 149,5113 }, { 150,5113 }, { 151,5113 }, { 152,5113 },
+ { 153,5113 }, { 154,5113 }, { 155,5113 }, { 156,5113 }, { 157,5113 },
+ { 158,5113 }, { 159,5113 }, { 160,5113 }, { 161,5113 }, { 162,5113 },
+ { 163,5113 }, { 164,5113 }, { 165,5113 }, { 166,5113 }, { 167,5113 },
+ { 168,5113 }, { 169,5113 }, { 170,5113 }, { 171,5113 }, { 172,5113 },
+ { 173,5113 }, { 174,5113 }, { 175,5113 }, { 176,5113 }, { 177,5113 },
+ { 178,5113 }, { 179,5113 }, { 180,5113 }, { 181,5113 }, { 182,5113 },
+
+ { 183,5113 }, { 184,5113 }, { 185,5113 }, { 186,5113 }, { 187,5113 },
+ { 188,5113 }, { 189,5113 }, { 190,5113 }, { 191,5113 }, { 192,5113 },
+ { 193,5113 }, { 194,5113 }, { 195,5113 }, { 196,5113 }, { 197,5113 },
+ { 198,5113 }, { 199,5113 }, { 200,5113 }, { 201,5113 }, { 202,5113 },
+ { 203,5113 }, { 204,5113 }, { 205,5113 }, { 206,5113 }, { 207,5113 },
+ { 208,5113 }, { 209,5113 }, { 210,5113 }, { 211,5113 }, { 212,5113 },
+ { 213,5113 }, { 214,5113 }, { 215,5113 }, { 216,5113 }, { 217,5113 },
+ { 218,5113 }, { 219,5113 }, { 220,5113 }, { 221,5113 }, { 222,5113 },
+ { 223,5113 }, { 224,5113 }, { 225,5113 }, { 226,5113 }, { 227,5113 },
+ { 228,5113 }, { 229,5113 }, { 230,5113 }, { 231,5113 }, { 232,5113 },
+
+ { 233,5113 }, { 234,5113 }, { 235,5113 }, { 236,5113 }, { 237,5113 },
+ { 238,5113 }, { 239,5113 }, { 240,5113 }, { 241,5113 }, { 242,5113 },
+ { 243,5113 }, { 244,5113 }, { 245,5113 }, { 246,5113 }, { 247,5113 },
+ { 248,5113 }, { 249,5113 }, { 250,5113 }, { 251,5113 }, { 252,5113 },
+ { 253,5113 }, { 254,5113 }, { 255,5113 }, { 256,5113 }, {   0,   0 },
+ {   0,21028 }, {   1,4855 }, {   2,4855 }, {   3,4855 }, {   4,4855 },
+ {   5,4855 }, {   6,4855 }, {   7,4855 }, {   8,4855 }, {   9,4855 },
+ {  10,4855 }, {  11,4855 }, {  12,4855 }, {  13,4855 }, {  14,4855 },
+ {  15,4855 }, {  16,4855 }, {  17,4855 }, {  18,4855 }, {  19,4855 },
+ {  20,4855 }, {  21,4855 }, {  22,4855 }, {  23,4855 }, {  24,4855 },
+
+ {  25,4855 }, {  26,4855 }, {  27,4855 }, {  28,4855 }, {  29,4855 },
+ {  30,4855 }, {  31,4855 }, {  32,4855 }, {  33,4855 }, {  34,4855 },
+ {  35,4855 }, {  36,4855 }, {  37,4855 }, {  38,4855 }, {  39,4855 },
+ {  40,4855 }, {  41,4855 }, {  42,4855 }, {  43,4855 }, {  44,4855 },
+ {  45,4855 }, {  46,4855 }, {  47,4855 }, {  48,4855 }, {  49,4855 },
+ {  50,4855 }, {  51,4855 }, {  52,4855 }, {  53,4855 }, {  54,4855 },
+ {  55,4855 }, {  56,4855 }, {  57,4855 }, {  58,4855 }, {  59,4855 },
+ {  60,4855 }, {  61,4855 }, {  62,4855 }, {  63,4855 }, {  64,4855 },
+ {  65,4855 }, {  66,4855 }, {  67,4855 }, {  68,4855 }, {  69,4855 },
+ {  70,4855 }, {  71,4855 }, {  72,4855 }, {  73,4855 }, {  74,4855 },
+
+ {  75,4855 }, {  76,4855 }, {  77,4855 }, {  78,4855 }, {  79,4855 },
+ {  80,4855 }, {  81,4855 }, {  82,4855 }, {  83,4855 }, {  84,4855 },
+ {  85,4855 }, {  86,4855 }, {  87,4855 }, {  88,4855 }, {  89,4855 },
+ {  90,4855 }, {  91,4855 }, {  92,4855 }, {  93,4855 }, {  94,4855 },
+ {  95,4855 }, {  96,4855 }, {  97,4855 }, {  98,4855 }, {  99,4855 },
+ { 100,4855 }, { 101,4855 }, { 102,4855 }, { 103,4855 }, { 104,4855 },
+ { 105,4855 }, { 106,4855 }, { 107,4855 }, { 108,4855 }, { 109,4855 },
+ { 110,4855 }, { 111,4855 }, { 112,4855 }, { 113,4855 }, { 114,4855 },
+ { 115,4855 }, { 116,4855 }, { 117,4855 }, { 118,4855 }, { 119,4855 },
+ { 120,4855 }, { 121,4855 }, { 122,4855 }, { 123,4855 }, { 124,4855 },
+
+ { 125,5113 }, { 126,4855 }, { 127,4855 }, { 128,4855 }, { 129,4855 },
+ { 130,4855 }, { 131,4855 }, { 132,4855 }, { 133,4855 }, { 134,4855 },
+ { 135,4855 }, { 136,4855 }, { 137,4855 }, { 138,4855 }, { 139,4855 },
+ { 140,4855 }, { 141,4855 }, { 142,4855 }, { 143,4855 }, { 144,4855 },
+ { 145,4855 }, { 146,4855 }, { 147,4855 }, { 148,4855 }, { 149,4855 },
+ { 150,4855 }, { 151,4855 }, { 152,4855 }, { 153,4855 }, { 154,4855 },
+ { 155,4855 }, { 156,4855 }, { 157,4855 }, { 158,4855 }, { 159,4855 },
+ { 160,4855 }, { 161,4855 }, { 162,4855 }, { 163,4855 }, { 164,4855 },
+ { 165,4855 }, { 166,4855 }, { 167,4855 }, { 168,4855 }, { 169,4855 },
+ { 170,4855 }, { 171,4855 }, { 172,4855 }, { 173,4855 }, { 174,4855 },
+
+ { 175,4855 }, { 176,4855 }, { 177,4855 }, { 178,4855 }, { 179,4855 },
+ { 180,4855 }, { 181,4855 }, { 182,4855 }, { 183,4855 }, { 184,4855 },
+ { 185,4855 }, { 186,4855 }, { 187,4855 }, { 188,4855 }, { 189,4855 },
+ { 190,4855 }, { 191,4855 }, { 192,4855 }, { 193,4855 }, { 194,4855 },
+ { 195,4855 }, { 196,4855 }, { 197,4855 }, { 198,4855 }, { 199,4855 },
+ { 200,4855 }, { 201,4855 }, { 202,4855 }, { 203,4855 }, { 204,4855 },
+ { 205,4855 }, { 206,4855 }, { 207,4855 }, { 208,4855 }, { 209,4855 },
+ { 210,4855 }, { 211,4855 }, { 212,4855 }, { 213,4855 }, { 214,4855 },
+ { 215,4855 }, { 216,4855 }, { 217,4855 }, { 218,4855 }, { 219,4855 },
+ { 220,4855 }, { 221,4855 }, { 222,4855 }, { 223,4855 }, { 224,4855 },
+
+ { 225,4855 }, { 226,4855 }, { 227,4855 }, { 228,4855 }, { 229,4855 },
+ { 230,4855 }, { 231,4855 }, { 232,4855 }, { 233,4855 }, { 234,4855 },
+ { 235,4855 }, { 236,4855 }, { 237,4855 }, { 238,4855 }, { 239,4855 },
+ { 240,4855 }, { 241,4855 }, { 242,4855 }, { 243,4855 }, { 244,4855 },
+ { 245,4855 }, { 246,4855 }, { 247,4855 }, { 248,4855 }, { 249,4855 },
+ { 250,4855 }, { 251,4855 }, { 252,4855 }, { 253,4855 }, { 254,4855 },
+ { 255,4855 }, { 256,4855 }, {   0,   0 }, {   0,20770 }, {   1,5113 },
+ {   2,5113 }, {   3,5113 }, {   4,5113 }, {   5,5113 }, {   6,5113 },
+ {   7,5113 }, {   8,5113 }, {   9,5113 }, {  10,5113 }, {  11,5113 },
+ {  12,5113 }, {  13,5113 }, {  14,5113 }, {  15,5113 }, {  16,5113 },
+
+ {  17,5113 }, {  18,5113 }, {  19,5113 }, {  20,5113 }, {  21,5113 },
+ {  22,5113 }, {  23,5113 }, {  24,5113 }, {  25,5113 }, {  26,5113 },
+ {  27,5113 }, {  28,5113 }, {  29,5113 }, {  30,5113 }, {  31,5113 },
+ {  32,5113 }, {  33,5113 }, {  34,5113 }, {  35,5113 }, {  36,5113 },
+ {  37,5113 }, {  38,5113 }, {  39,5113 }, {  40,5113 }, {  41,5113 },
+ {  42,5113 }, {  43,5113 }, {  44,5113 }, {  45,5113 }, {  46,5113 },
+ {  47,5113 }, {  48,5113 }, {  49,5113 }, {  50,5113 }, {  51,5113 },
+ {  52,5113 }, {  53,5113 }, {  54,5113 }, {  55,5113 }, {  56,5113 },
+ {  57,5113 }, {  58,5113 }, {  59,5113 }, {  60,5113 }, {  61,5113 },
+ {  62,5113 }, {  63,5113 }, {  64,5113 }, {  65,5113 }, {  66,5113 },
+
+ {  67,5113 }, {  68,5113 }, {  69,5113 }, {  70,5113 }, {  71,5113 },
+ {  72,5113 }, {  73,5113 }, {  74,5113 }, {  75,5113 }, {  76,5113 },
+ {  77,5113 }, {  78,5113 }, {  79,5113 }, {  80,5113 }, {  81,5113 },
+ {  82,5113 }, {  83,5113 }, {  84,5113 }, {  85,5113 }, {  86,5113 },
+ {  87,5113 }, {  88,5113 }, {  89,5113 }, {  90,5113 }, {  91,5113 },
+ {  92,5113 }, {  93,5113 }, {  94,5113 }, {  95,5113 }, {  96,5113 },
+ {  97,5113 }, {  98,5113 }, {  99,5113 }, { 100,5113 }, { 101,5113 },
+ { 102,5113 }, { 103,5113 }, { 104,5113 }, { 105,5113 }, { 106,5113 },
+ { 107,5113 }, { 108,5113 }, { 109,5113 }, { 110,5113 }, { 111,5113 },
+ { 112,5113 }, { 113,5113 }, { 114,5113 }, { 115,5113 }, { 116,5113 },
+
+ { 117,5113 }, { 118,5113 }, { 119,5113 }, { 120,5113 }, { 121,5113 },
+ { 122,5113 }, { 123,5371 }, { 124,5113 }, { 125,5113 }, { 126,5113 },
+ { 127,5113 }, { 128,5113 }, { 129,5113 }, { 130,5113 }, { 131,5113 },
+ { 132,5113 }, { 133,5113 }, { 134,5113 }, { 135,5113 }, { 136,5113 },
+ { 137,5113 }, { 138,5113 }, { 139,5113 }, { 140,5113 }, { 141,5113 },
+ { 142,5113 }, { 143,5113 }, { 144,5113 }, { 145,5113 }, { 146,5113 },
+ { 147,5113 }, { 148,5113 }, { 149,5113 }, { 150,5113 }, { 151,5113 },
+ { 152,5113 }, { 153,5113 }, { 154,5113 }, { 155,5113 }, { 156,5113 },
+ { 157,5113 }, { 158,5113 }, { 159,5113 }, { 160,5113 }, { 161,5113 },
+ { 162,5113 }, { 163,5113 }, { 164,5113 }, { 165,5113 }, { 166,5113 },
+
+ { 167,5113 }, { 168,5113 }, { 169,5113 }, { 170,5113 }, { 171,5113 },
+ { 172,5113 }, { 173,5113 }, { 174,5113 }, { 175,5113 }, { 176,5113 },
+ { 177,5113 }, { 178,5113 }, { 179,5113 }, { 180,5113 }, { 181,5113 },
+ { 182,5113 }, { 183,5113 }, { 184,5113 }, { 185,5113 }, { 186,5113 },
+ { 187,5113 }, { 188,5113 }, { 189,5113 }, { 190,5113 }, { 191,5113 },
+ { 192,5113 }, { 193,5113 }, { 194,5113 }, { 195,5113 }, { 196,5113 },
+ { 197,5113 }, { 198,5113 }, { 199,5113 }, { 200,5113 }, { 201,5113 },
+ { 202,5113 }, { 203,5113 }, { 204,5113 }, { 205,5113 }, { 206,5113 },
+ { 207,5113 }, { 208,5113 }, { 209,5113 }, { 210,5113 }, { 211,5113 },
+ { 212,5113 }, { 213,5113 }, { 214,5113 }, { 215,5113 }, { 216,5113 },
+
+ { 217,5113 }, { 218,5113 }, { 219,5113 }, { 220,5113 }, { 221,5113 },
+ { 222,5113 }, { 223,5113 }, { 224,5113 }, { 225,5113 }, { 226,5113 },
+ { 227,5113 }, { 228,5113 }, { 229,5113 }, { 230,5113 }, { 231,5113 },
+ { 232,5113 }, { 233,5113 }, { 234,5113 }, { 235,5113 }, { 236,5113 },
+ { 237,5113 }, { 238,5113 }, { 239,5113 }, { 240,5113 }, { 241,5113 },
+ { 242,5113 }, { 243,5113 }, { 244,5113 }, { 245,5113 }, { 246,5113 },
+ { 247,5113 }, { 248,5113 }, { 249,5113 }, { 250,5113 }, { 251,5113 },
+ { 252,5113 }, { 253,5113 }, { 254,5113 }, { 255,5113 }, { 256,5113 },
+ {   0,   0 }, {   0,20512 }, {   1,4855 }, {   2,4855 }, {   3,4855 },
+ {   4,4855 }, {   5,4855 }, {   6,4855 }, {   7,4855 }, {   8,4855 },
+
+ {   9,4855 }, {  10,4855 }, {  11,4855 }, {  12,4855 }, {  13,4855 },
+ {  14,4855 }, {  15,4855 }, {  16,4855 }, {  17,4855 }, {  18,4855 },
+ {  19,4855 }, {  20,4855 }, {  21,4855 }, {  22,4855 }, {  23,4855 },
+ {  24,4855 }, {  25,4855 }, {  26,4855 }, {  27,4855 }, {  28,4855 },
+ {  29,4855 }, {  30,4855 }, {  31,4855 }, {  32,4855 }, {  33,4855 },
+ {  34,4855 }, {  35,4855 }, {  36,4855 }, {  37,4855 }, {  38,4855 },
+ {  39,4855 }, {  40,4855 }, {  41,4855 }, {  42,4855 }, {  43,4855 },
+ {  44,4855 }, {  45,4855 }, {  46,4855 }, {  47,4855 }, {  48,4855 },
+ {  49,4855 }, {  50,4855 }, {  51,4855 }, {  52,4855 }, {  53,4855 },
+ {  54,4855 }, {  55,4855 }, {  56,4855 }, {  57,4855 }, {  58,4855 },
+
+ {  59,4855 }, {  60,4855 }, {  61,4855 }, {  62,4855 }, {  63,4855 },
+ {  64,4855 }, {  65,4855 }, {  66,4855 }, {  67,4855 }, {  68,4855 },
+ {  69,4855 }, {  70,4855 }, {  71,4855 }, {  72,4855 }, {  73,4855 },
+ {  74,4855 }, {  75,4855 }, {  76,4855 }, {  77,4855 }, {  78,4855 },
+ {  79,4855 }, {  80,4855 }, {  81,4855 }, {  82,4855 }, {  83,4855 },
+ {  84,4855 }, {  85,4855 }, {  86,4855 }, {  87,4855 }, {  88,4855 },
+ {  89,4855 }, {  90,4855 }, {  91,4855 }, {  92,4855 }, {  93,4855 },
+ {  94,4855 }, {  95,4855 }, {  96,4855 }, {  97,4855 }, {  98,4855 },
+ {  99,4855 }, { 100,4855 }, { 101,4855 }, { 102,4855 }, { 103,4855 },
+ { 104,4855 }, { 105,4855 }, { 106,4855 }, { 107,4855 }, { 108,4855 },
+
+ { 109,4855 }, { 110,4855 }, { 111,4855 }, { 112,4855 }, { 113,4855 },
+ { 114,4855 }, { 115,4855 }, { 116,4855 }, { 117,4855 }, { 118,4855 },
+ { 119,4855 }, { 120,4855 }, { 121,4855 }, { 122,4855 }, { 123,5113 },
+ { 124,4855 }, { 125,4855 }, { 126,4855 }, { 127,4855 }, { 128,4855 },
+ { 129,4855 }, { 130,4855 }, { 131,4855 }, { 132,4855 }, { 133,4855 },
+ { 134,4855 }, { 135,4855 }, { 136,4855 }, { 137,4855 }, { 138,4855 },
+ { 139,4855 }, { 140,4855 }, { 141,4855 }, { 142,4855 }, { 143,4855 },
+ { 144,4855 }, { 145,4855 }, { 146,4855 }, { 147,4855 }, { 148,4855 },
+ { 149,4855 }, { 150,4855 }, { 151,4855 }, { 152,4855 }, { 153,4855 },
+ { 154,4855 }, { 155,4855 }, { 156,4855 }, { 157,4855 }, { 158,4855 },
+
+ { 159,4855 }, { 160,4855 }, { 161,4855 }, { 162,4855 }, { 163,4855 },
+ { 164,4855 }, { 165,4855 }, { 166,4855 }, { 167,4855 }, { 168,4855 },
+ { 169,4855 }, { 170,4855 }, { 171,4855 }, { 172,4855 }, { 173,4855 },
+ { 174,4855 }, { 175,4855 }, { 176,4855 }, { 177,4855 }, { 178,4855 },
+ { 179,4855 }, { 180,4855 }, { 181,4855 }, { 182,4855 }, { 183,4855 },
+ { 184,4855 }, { 185,4855 }, { 186,4855 }, { 187,4855 }, { 188,4855 },
+ { 189,4855 }, { 190,4855 }, { 191,4855 }, { 192,4855 }, { 193,4855 },
+ { 194,4855 }, { 195,4855 }, { 196,4855 }, { 197,4855 }, { 198,4855 },
+ { 199,4855 }, { 200,4855 }, { 201,4855 }, { 202,4855 }, { 203,4855 },
+ { 204,4855 }, { 205,4855 }, { 206,4855 }, { 207,4855 }, { 208,4855 },
+
+ { 209,4855 }, { 210,4855 }, { 211,4855 }, { 212,4855 }, { 213,4855 },
+ { 214,4855 }, { 215,4855 }, { 216,4855 }, { 217,4855 }, { 218,4855 },
+ { 219,4855 }, { 220,4855 }, { 221,4855 }, { 222,4855 }, { 223,4855 },
+ { 224,4855 }, { 225,4855 }, { 226,4855 }, { 227,4855 }, { 228,4855 },
+ { 229,4855 }, { 230,4855 }, { 231,4855 }, { 232,4855 }, { 233,4855 },
+ { 234,4855 }, { 235,4855 }, { 236,4855 }, { 237,4855 }, { 238,4855 },
+ { 239,4855 }, { 240,4855 }, { 241,4855 }, { 242,4855 }, { 243,4855 },
+ { 244,4855 }, { 245,4855 }, { 246,4855 }, { 247,4855 }, { 248,4855 },
+ { 249,4855 }, { 250,4855 }, { 251,4855 }, { 252,4855 }, { 253,4855 },
+ { 254,4855 }, { 255,4855 }, { 256,4855 }, {   0,   2 }, {   0,20254 },
+
+ {   1,4980 }, {   2,4980 }, {   3,4980 }, {   4,4980 }, {   5,4980 },
+ {   6,4980 }, {   7,4980 }, {   8,4980 }, {   9,4980 }, {  10,4857 },
+ {  11,4980 }, {  12,4980 }, {  13,4857 }, {  14,4980 }, {  15,4980 },
+ {  16,4980 }, {  17,4980 }, {  18,4980 }, {  19,4980 }, {  20,4980 },
+ {  21,4980 }, {  22,4980 }, {  23,4980 }, {  24,4980 }, {  25,4980 },
+ {  26,4980 }, {  27,4980 }, {  28,4980 }, {  29,4980 }, {  30,4980 },
+ {  31,4980 }, {  32,4980 }, {  33,4980 }, {  34,4980 }, {  35,4980 },
+ {  36,4980 }, {  37,4980 }, {  38,4980 }, {  39,4980 }, {  40,4980 },
+ {  41,4980 }, {  42,4980 }, {  43,4980 }, {  44,4980 }, {  45,4980 },
+ {  46,4980 }, {  47,4980 }, {  48,4980 }, {  49,4980 }, {  50,4980 },
+
+ {  51,4980 }, {  52,4980 }, {  53,4980 }, {  54,4980 }, {  55,4980 },
+ {  56,4980 }, {  57,4980 }, {  58,4980 }, {  59,4980 }, {  60,4980 },
+ {  61,4980 }, {  62,4980 }, {  63,4980 }, {  64,4980 }, {  65,4980 },
+ {  66,4980 }, {  67,4980 }, {  68,4980 }, {  69,4980 }, {  70,4980 },
+ {  71,4980 }, {  72,4980 }, {  73,4980 }, {  74,4980 }, {  75,4980 },
+ {  76,4980 }, {  77,4980 }, {  78,4980 }, {  79,4980 }, {  80,4980 },
+ {  81,4980 }, {  82,4980 }, {  83,4980 }, {  84,4980 }, {  85,4980 },
+ {  86,4980 }, {  87,4980 }, {  88,4980 }, {  89,4980 }, {  90,4980 },
+ {  91,4980 }, {  92,4859 }, {  93,4980 }, {  94,4980 }, {  95,4980 },
+ {  96,4980 }, {  97,4980 }, {  98,4980 }, {  99,4980 }, { 100,4980 },
+
+ { 101,4980 }, { 102,4980 }, { 103,4980 }, { 104,4980 }, { 105,4980 },
+ { 106,4980 }, { 107,4980 }, { 108,4980 }, { 109,4980 }, { 110,4980 },
+ { 111,4980 }, { 112,4980 }, { 113,4980 }, { 114,4980 }, { 115,4980 },
+ { 116,4980 }, { 117,4980 }, { 118,4980 }, { 119,4980 }, { 120,4980 },
+ { 121,4980 }, { 122,4980 }, {   0,   0 }, { 124,4980 }, { 125,4980 },
+ { 126,4980 }, { 127,4980 }, { 128,4980 }, { 129,4980 }, { 130,4980 },
+ { 131,4980 }, { 132,4980 }, { 133,4980 }, { 134,4980 }, { 135,4980 },
+ { 136,4980 }, { 137,4980 }, { 138,4980 }, { 139,4980 }, { 140,4980 },
+ { 141,4980 }, { 142,4980 }, { 143,4980 }, { 144,4980 }, { 145,4980 },
+ { 146,4980 }, { 147,4980 }, { 148,4980 }, { 149,4980 }, { 150,4980 },
+
+ { 151,4980 }, { 152,4980 }, { 153,4980 }, { 154,4980 }, { 155,4980 },
+ { 156,4980 }, { 157,4980 }, { 158,4980 }, { 159,4980 }, { 160,4980 },
+ { 161,4980 }, { 162,4980 }, { 163,4980 }, { 164,4980 }, { 165,4980 },
+ { 166,4980 }, { 167,4980 }, { 168,4980 }, { 169,4980 }, { 170,4980 },
+ { 171,4980 }, { 172,4980 }, { 173,4980 }, { 174,4980 }, { 175,4980 },
+ { 176,4980 }, { 177,4980 }, { 178,4980 }, { 179,4980 }, { 180,4980 },
+ { 181,4980 }, { 182,4980 }, { 183,4980 }, { 184,4980 }, { 185,4980 },
+ { 186,4980 }, { 187,4980 }, { 188,4980 }, { 189,4980 }, { 190,4980 },
+ { 191,4980 }, { 192,4980 }, { 193,4980 }, { 194,4980 }, { 195,4980 },
+ { 196,4980 }, { 197,4980 }, { 198,4980 }, { 199,4980 }, { 200,4980 },
+
+ { 201,4980 }, { 202,4980 }, { 203,4980 }, { 204,4980 }, { 205,4980 },
+ { 206,4980 }, { 207,4980 }, { 208,4980 }, { 209,4980 }, { 210,4980 },
+ { 211,4980 }, { 212,4980 }, { 213,4980 }, { 214,4980 }, { 215,4980 },
+ { 216,4980 }, { 217,4980 }, { 218,4980 }, { 219,4980 }, { 220,4980 },
+ { 221,4980 }, { 222,4980 }, { 223,4980 }, { 224,4980 }, { 225,4980 },
+ { 226,4980 }, { 227,4980 }, { 228,4980 }, { 229,4980 }, { 230,4980 },
+ { 231,4980 }, { 232,4980 }, { 233,4980 }, { 234,4980 }, { 235,4980 },
+ { 236,4980 }, { 237,4980 }, { 238,4980 }, { 239,4980 }, { 240,4980 },
+ { 241,4980 }, { 242,4980 }, { 243,4980 }, { 244,4980 }, { 245,4980 },
+ { 246,4980 }, { 247,4980 }, { 248,4980 }, { 249,4980 }, { 250,4980 },
+
+ { 251,4980 }, { 252,4980 }, { 253,4980 }, { 254,4980 }, { 255,4980 },
+ { 256,4980 }, {   0,   2 }, {   0,19996 }, {   0,   6 }, {   0,19994 },
+ {   0,   6 }, {   0,19992 }, {   0,  36 }, {   0,19990 }, {   0,  36 },
+ {   0,19988 }, {   0,   0 }, {  10,4599 }, {   0,  51 }, {   0,19984 },
+ {  13,4599 }, {   0,   0 }, {   9,5263 }, {  10,5263 }, {   9,5261 },
+ {  10,5261 }, {  13,5263 }, {   0,   0 }, {  13,5261 }, {   0,  15 },
+ {   0,19973 }, {   0,  16 }, {   0,19971 }, {   0,  35 }, {   0,19969 },
+ {   0,  32 }, {   0,19967 }, {   0,  41 }, {   0,19965 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,5263 }, {   0,   0 }, {  32,5261 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4601 },
+
+ {   0,   0 }, {  92,4978 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 123,4980 }, {   0,   0 }, { 123,4980 },
+ {   0,   2 }, {   0,19867 }, {   1,4593 }, {   2,4593 }, {   3,4593 },
+ {   4,4593 }, {   5,4593 }, {   6,4593 }, {   7,4593 }, {   8,4593 },
+ {   9,4593 }, {  10,4470 }, {  11,4593 }, {  12,4593 }, {  13,4470 },
+
+ {  14,4593 }, {  15,4593 }, {  16,4593 }, {  17,4593 }, {  18,4593 },
+ {  19,4593 }, {  20,4593 }, {  21,4593 }, {  22,4593 }, {  23,4593 },
+ {  24,4593 }, {  25,4593 }, {  26,4593 }, {  27,4593 }, {  28,4593 },
+ {  29,4593 }, {  30,4593 }, {  31,4593 }, {  32,4593 }, {  33,4593 },
+ {  34,4593 }, {  35,4593 }, {  36,4593 }, {  37,4593 }, {  38,4593 },
+ {  39,4593 }, {  40,4593 }, {  41,4593 }, {  42,4593 }, {  43,4593 },
+ {  44,4593 }, {  45,4593 }, {  46,4593 }, {  47,4593 }, {  48,4593 },
+ {  49,4593 }, {  50,4593 }, {  51,4593 }, {  52,4593 }, {  53,4593 },
+ {  54,4593 }, {  55,4593 }, {  56,4593 }, {  57,4593 }, {  58,4593 },
+ {  59,4593 }, {  60,4593 }, {  61,4593 }, {  62,4593 }, {  63,4593 },
+
+ {  64,4593 }, {  65,4593 }, {  66,4593 }, {  67,4593 }, {  68,4593 },
+ {  69,4593 }, {  70,4593 }, {  71,4593 }, {  72,4593 }, {  73,4593 },
+ {  74,4593 }, {  75,4593 }, {  76,4593 }, {  77,4593 }, {  78,4593 },
+ {  79,4593 }, {  80,4593 }, {  81,4593 }, {  82,4593 }, {  83,4593 },
+ {  84,4593 }, {  85,4593 }, {  86,4593 }, {  87,4593 }, {  88,4593 },
+ {  89,4593 }, {  90,4593 }, {  91,4593 }, {  92,4472 }, {  93,4593 },
+ {  94,4593 }, {  95,4593 }, {  96,4593 }, {  97,4593 }, {  98,4593 },
+ {  99,4593 }, { 100,4593 }, { 101,4593 }, { 102,4593 }, { 103,4593 },
+ { 104,4593 }, { 105,4593 }, { 106,4593 }, { 107,4593 }, { 108,4593 },
+ { 109,4593 }, { 110,4593 }, { 111,4593 }, { 112,4593 }, { 113,4593 },
+
+ { 114,4593 }, { 115,4593 }, { 116,4593 }, { 117,4593 }, { 118,4593 },
+ { 119,4593 }, { 120,4593 }, { 121,4593 }, { 122,4593 }, {   0,   0 },
+ { 124,4593 }, { 125,4593 }, { 126,4593 }, { 127,4593 }, { 128,4593 },
+ { 129,4593 }, { 130,4593 }, { 131,4593 }, { 132,4593 }, { 133,4593 },
+ { 134,4593 }, { 135,4593 }, { 136,4593 }, { 137,4593 }, { 138,4593 },
+ { 139,4593 }, { 140,4593 }, { 141,4593 }, { 142,4593 }, { 143,4593 },
+ { 144,4593 }, { 145,4593 }, { 146,4593 }, { 147,4593 }, { 148,4593 },
+ { 149,4593 }, { 150,4593 }, { 151,4593 }, { 152,4593 }, { 153,4593 },
+ { 154,4593 }, { 155,4593 }, { 156,4593 }, { 157,4593 }, { 158,4593 },
+ { 159,4593 }, { 160,4593 }, { 161,4593 }, { 162,4593 }, { 163,4593 },
+
+ { 164,4593 }, { 165,4593 }, { 166,4593 }, { 167,4593 }, { 168,4593 },
+ { 169,4593 }, { 170,4593 }, { 171,4593 }, { 172,4593 }, { 173,4593 },
+ { 174,4593 }, { 175,4593 }, { 176,4593 }, { 177,4593 }, { 178,4593 },
+ { 179,4593 }, { 180,4593 }, { 181,4593 }, { 182,4593 }, { 183,4593 },
+ { 184,4593 }, { 185,4593 }, { 186,4593 }, { 187,4593 }, { 188,4593 },
+ { 189,4593 }, { 190,4593 }, { 191,4593 }, { 192,4593 }, { 193,4593 },
+ { 194,4593 }, { 195,4593 }, { 196,4593 }, { 197,4593 }, { 198,4593 },
+ { 199,4593 }, { 200,4593 }, { 201,4593 }, { 202,4593 }, { 203,4593 },
+ { 204,4593 }, { 205,4593 }, { 206,4593 }, { 207,4593 }, { 208,4593 },
+ { 209,4593 }, { 210,4593 }, { 211,4593 }, { 212,4593 }, { 213,4593 },
+
+ { 214,4593 }, { 215,4593 }, { 216,4593 }, { 217,4593 }, { 218,4593 },
+ { 219,4593 }, { 220,4593 }, { 221,4593 }, { 222,4593 }, { 223,4593 },
+ { 224,4593 }, { 225,4593 }, { 226,4593 }, { 227,4593 }, { 228,4593 },
+ { 229,4593 }, { 230,4593 }, { 231,4593 }, { 232,4593 }, { 233,4593 },
+ { 234,4593 }, { 235,4593 }, { 236,4593 }, { 237,4593 }, { 238,4593 },
+ { 239,4593 }, { 240,4593 }, { 241,4593 }, { 242,4593 }, { 243,4593 },
+ { 244,4593 }, { 245,4593 }, { 246,4593 }, { 247,4593 }, { 248,4593 },
+ { 249,4593 }, { 250,4593 }, { 251,4593 }, { 252,4593 }, { 253,4593 },
+ { 254,4593 }, { 255,4593 }, { 256,4593 }, {   0,  51 }, {   0,19609 },
+ {   1,4624 }, {   2,4624 }, {   3,4624 }, {   4,4624 }, {   5,4624 },
+
+ {   6,4624 }, {   7,4624 }, {   8,4624 }, {   9,4599 }, {  10,4599 },
+ {  11,4624 }, {  12,4624 }, {  13,4599 }, {  14,4624 }, {  15,4624 },
+ {  16,4624 }, {  17,4624 }, {  18,4624 }, {  19,4624 }, {  20,4624 },
+ {  21,4624 }, {  22,4624 }, {  23,4624 }, {  24,4624 }, {  25,4624 },
+ {  26,4624 }, {  27,4624 }, {  28,4624 }, {  29,4624 }, {  30,4624 },
+ {  31,4624 }, {  32,4599 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,4624 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,4599 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,4624 },
+ {  46,4599 }, {  47,4599 }, {  48,4624 }, {  49,4624 }, {  50,4624 },
+ {  51,4624 }, {  52,4624 }, {  53,4624 }, {  54,4624 }, {  55,4624 },
+
+ {  56,4624 }, {  57,4624 }, {  58,4624 }, {   0,   0 }, {   0,   0 },
+ {  61,4599 }, {   0,   0 }, {  63,4624 }, {   0,   0 }, {  65,4624 },
+ {  66,4624 }, {  67,4624 }, {  68,4624 }, {  69,4624 }, {  70,4624 },
+ {  71,4624 }, {  72,4624 }, {  73,4624 }, {  74,4624 }, {  75,4624 },
+ {  76,4624 }, {  77,4624 }, {  78,4624 }, {  79,4624 }, {  80,4624 },
+ {  81,4624 }, {  82,4624 }, {  83,4624 }, {  84,4624 }, {  85,4624 },
+ {  86,4624 }, {  87,4624 }, {  88,4624 }, {  89,4624 }, {  90,4624 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,4624 },
+ {   0,   0 }, {  97,4624 }, {  98,4624 }, {  99,4624 }, { 100,4624 },
+ { 101,4624 }, { 102,4624 }, { 103,4624 }, { 104,4624 }, { 105,4624 },
+
+ { 106,4624 }, { 107,4624 }, { 108,4624 }, { 109,4624 }, { 110,4624 },
+ { 111,4624 }, { 112,4624 }, { 113,4624 }, { 114,4624 }, { 115,4624 },
+ { 116,4624 }, { 117,4624 }, { 118,4624 }, { 119,4624 }, { 120,4624 },
+ { 121,4624 }, { 122,4624 }, {   0,   0 }, { 124,4599 }, { 125,4599 },
+ { 126,4599 }, { 127,4624 }, { 128,4624 }, { 129,4624 }, { 130,4624 },
+ { 131,4624 }, { 132,4624 }, { 133,4624 }, { 134,4624 }, { 135,4624 },
+ { 136,4624 }, { 137,4624 }, { 138,4624 }, { 139,4624 }, { 140,4624 },
+ { 141,4624 }, { 142,4624 }, { 143,4624 }, { 144,4624 }, { 145,4624 },
+ { 146,4624 }, { 147,4624 }, { 148,4624 }, { 149,4624 }, { 150,4624 },
+ { 151,4624 }, { 152,4624 }, { 153,4624 }, { 154,4624 }, { 155,4624 },
+
+ { 156,4624 }, { 157,4624 }, { 158,4624 }, { 159,4624 }, { 160,4624 },
+ { 161,4624 }, { 162,4624 }, { 163,4624 }, { 164,4624 }, { 165,4624 },
+ { 166,4624 }, { 167,4624 }, { 168,4624 }, { 169,4624 }, { 170,4624 },
+ { 171,4624 }, { 172,4624 }, { 173,4624 }, { 174,4624 }, { 175,4624 },
+ { 176,4624 }, { 177,4624 }, { 178,4624 }, { 179,4624 }, { 180,4624 },
+ { 181,4624 }, { 182,4624 }, { 183,4624 }, { 184,4624 }, { 185,4624 },
+ { 186,4624 }, { 187,4624 }, { 188,4624 }, { 189,4624 }, { 190,4624 },
+ { 191,4624 }, { 192,4624 }, { 193,4624 }, { 194,4624 }, { 195,4624 },
+ { 196,4624 }, { 197,4624 }, { 198,4624 }, { 199,4624 }, { 200,4624 },
+ { 201,4624 }, { 202,4624 }, { 203,4624 }, { 204,4624 }, { 205,4624 },
+
+ { 206,4624 }, { 207,4624 }, { 208,4624 }, { 209,4624 }, { 210,4624 },
+ { 211,4624 }, { 212,4624 }, { 213,4624 }, { 214,4624 }, { 215,4624 },
+ { 216,4624 }, { 217,4624 }, { 218,4624 }, { 219,4624 }, { 220,4624 },
+ { 221,4624 }, { 222,4624 }, { 223,4624 }, { 224,4624 }, { 225,4624 },
+ { 226,4624 }, { 227,4624 }, { 228,4624 }, { 229,4624 }, { 230,4624 },
+ { 231,4624 }, { 232,4624 }, { 233,4624 }, { 234,4624 }, { 235,4624 },
+ { 236,4624 }, { 237,4624 }, { 238,4624 }, { 239,4624 }, { 240,4624 },
+ { 241,4624 }, { 242,4624 }, { 243,4624 }, { 244,4624 }, { 245,4624 },
+ { 246,4624 }, { 247,4624 }, { 248,4624 }, { 249,4624 }, { 250,4624 },
+ { 251,4624 }, { 252,4624 }, { 253,4624 }, { 254,4624 }, { 255,4624 },
+
+ { 256,4624 }, {   0,  51 }, {   0,19351 }, {   1,4658 }, {   2,4658 },
+ {   3,4658 }, {   4,4658 }, {   5,4658 }, {   6,4658 }, {   7,4658 },
+ {   8,4658 }, {   9,4658 }, {  10,4658 }, {  11,4658 }, {  12,4658 },
+ {  13,4658 }, {  14,4658 }, {  15,4658 }, {  16,4658 }, {  17,4658 },
+ {  18,4658 }, {  19,4658 }, {  20,4658 }, {  21,4658 }, {  22,4658 },
+ {  23,4658 }, {  24,4658 }, {  25,4658 }, {  26,4658 }, {  27,4658 },
+ {  28,4658 }, {  29,4658 }, {  30,4658 }, {  31,4658 }, {  32,4658 },
+ {  33,4658 }, {  34,4626 }, {  35,4658 }, {  36,4658 }, {  37,4658 },
+ {  38,4658 }, {  39,4658 }, {  40,4658 }, {  41,4658 }, {  42,4658 },
+ {  43,4658 }, {  44,4658 }, {  45,4658 }, {  46,4658 }, {  47,4658 },
+
+ {  48,4658 }, {  49,4658 }, {  50,4658 }, {  51,4658 }, {  52,4658 },
+ {  53,4658 }, {  54,4658 }, {  55,4658 }, {  56,4658 }, {  57,4658 },
+ {  58,4658 }, {  59,4658 }, {  60,4658 }, {  61,4658 }, {  62,4658 },
+ {  63,4658 }, {  64,4658 }, {  65,4658 }, {  66,4658 }, {  67,4658 },
+ {  68,4658 }, {  69,4658 }, {  70,4658 }, {  71,4658 }, {  72,4658 },
+ {  73,4658 }, {  74,4658 }, {  75,4658 }, {  76,4658 }, {  77,4658 },
+ {  78,4658 }, {  79,4658 }, {  80,4658 }, {  81,4658 }, {  82,4658 },
+ {  83,4658 }, {  84,4658 }, {  85,4658 }, {  86,4658 }, {  87,4658 },
+ {  88,4658 }, {  89,4658 }, {  90,4658 }, {  91,4658 }, {  92,4916 },
+ {  93,4658 }, {  94,4658 }, {  95,4658 }, {  96,4658 }, {  97,4658 },
+
+ {  98,4658 }, {  99,4658 }, { 100,4658 }, { 101,4658 }, { 102,4658 },
+ { 103,4658 }, { 104,4658 }, { 105,4658 }, { 106,4658 }, { 107,4658 },
+ { 108,4658 }, { 109,4658 }, { 110,4658 }, { 111,4658 }, { 112,4658 },
+ { 113,4658 }, { 114,4658 }, { 115,4658 }, { 116,4658 }, { 117,4658 },
+ { 118,4658 }, { 119,4658 }, { 120,4658 }, { 121,4658 }, { 122,4658 },
+ { 123,4658 }, { 124,4658 }, { 125,4658 }, { 126,4658 }, { 127,4658 },
+ { 128,4658 }, { 129,4658 }, { 130,4658 }, { 131,4658 }, { 132,4658 },
+ { 133,4658 }, { 134,4658 }, { 135,4658 }, { 136,4658 }, { 137,4658 },
+ { 138,4658 }, { 139,4658 }, { 140,4658 }, { 141,4658 }, { 142,4658 },
+ { 143,4658 }, { 144,4658 }, { 145,4658 }, { 146,4658 }, { 147,4658 },
+
+ { 148,4658 }, { 149,4658 }, { 150,4658 }, { 151,4658 }, { 152,4658 },
+ { 153,4658 }, { 154,4658 }, { 155,4658 }, { 156,4658 }, { 157,4658 },
+ { 158,4658 }, { 159,4658 }, { 160,4658 }, { 161,4658 }, { 162,4658 },
+ { 163,4658 }, { 164,4658 }, { 165,4658 }, { 166,4658 }, { 167,4658 },
+ { 168,4658 }, { 169,4658 }, { 170,4658 }, { 171,4658 }, { 172,4658 },
+ { 173,4658 }, { 174,4658 }, { 175,4658 }, { 176,4658 }, { 177,4658 },
+ { 178,4658 }, { 179,4658 }, { 180,4658 }, { 181,4658 }, { 182,4658 },
+ { 183,4658 }, { 184,4658 }, { 185,4658 }, { 186,4658 }, { 187,4658 },
+ { 188,4658 }, { 189,4658 }, { 190,4658 }, { 191,4658 }, { 192,4658 },
+ { 193,4658 }, { 194,4658 }, { 195,4658 }, { 196,4658 }, { 197,4658 },
+
+ { 198,4658 }, { 199,4658 }, { 200,4658 }, { 201,4658 }, { 202,4658 },
+ { 203,4658 }, { 204,4658 }, { 205,4658 }, { 206,4658 }, { 207,4658 },
+ { 208,4658 }, { 209,4658 }, { 210,4658 }, { 211,4658 }, { 212,4658 },
+ { 213,4658 }, { 214,4658 }, { 215,4658 }, { 216,4658 }, { 217,4658 },
+ { 218,4658 }, { 219,4658 }, { 220,4658 }, { 221,4658 }, { 222,4658 },
+ { 223,4658 }, { 224,4658 }, { 225,4658 }, { 226,4658 }, { 227,4658 },
+ { 228,4658 }, { 229,4658 }, { 230,4658 }, { 231,4658 }, { 232,4658 },
+ { 233,4658 }, { 234,4658 }, { 235,4658 }, { 236,4658 }, { 237,4658 },
+ { 238,4658 }, { 239,4658 }, { 240,4658 }, { 241,4658 }, { 242,4658 },
+ { 243,4658 }, { 244,4658 }, { 245,4658 }, { 246,4658 }, { 247,4658 },
+
+ { 248,4658 }, { 249,4658 }, { 250,4658 }, { 251,4658 }, { 252,4658 },
+ { 253,4658 }, { 254,4658 }, { 255,4658 }, { 256,4658 }, {   0,  51 },
+ {   0,19093 }, {   1,4916 }, {   2,4916 }, {   3,4916 }, {   4,4916 },
+ {   5,4916 }, {   6,4916 }, {   7,4916 }, {   8,4916 }, {   9,4916 },
+ {  10,4916 }, {  11,4916 }, {  12,4916 }, {  13,4916 }, {  14,4916 },
+ {  15,4916 }, {  16,4916 }, {  17,4916 }, {  18,4916 }, {  19,4916 },
+ {  20,4916 }, {  21,4916 }, {  22,4916 }, {  23,4916 }, {  24,4916 },
+ {  25,4916 }, {  26,4916 }, {  27,4916 }, {  28,4916 }, {  29,4916 },
+ {  30,4916 }, {  31,4916 }, {  32,4916 }, {  33,4916 }, {  34,4916 },
+ {  35,4916 }, {  36,4916 }, {  37,4916 }, {  38,4916 }, {  39,4370 },
+
+ {  40,4916 }, {  41,4916 }, {  42,4916 }, {  43,4916 }, {  44,4916 },
+ {  45,4916 }, {  46,4916 }, {  47,4916 }, {  48,4916 }, {  49,4916 },
+ {  50,4916 }, {  51,4916 }, {  52,4916 }, {  53,4916 }, {  54,4916 },
+ {  55,4916 }, {  56,4916 }, {  57,4916 }, {  58,4916 }, {  59,4916 },
+ {  60,4916 }, {  61,4916 }, {  62,4916 }, {  63,4916 }, {  64,4916 },
+ {  65,4916 }, {  66,4916 }, {  67,4916 }, {  68,4916 }, {  69,4916 },
+ {  70,4916 }, {  71,4916 }, {  72,4916 }, {  73,4916 }, {  74,4916 },
+ {  75,4916 }, {  76,4916 }, {  77,4916 }, {  78,4916 }, {  79,4916 },
+ {  80,4916 }, {  81,4916 }, {  82,4916 }, {  83,4916 }, {  84,4916 },
+ {  85,4916 }, {  86,4916 }, {  87,4916 }, {  88,4916 }, {  89,4916 },
+
+ {  90,4916 }, {  91,4916 }, {  92,5174 }, {  93,4916 }, {  94,4916 },
+ {  95,4916 }, {  96,4916 }, {  97,4916 }, {  98,4916 }, {  99,4916 },
+ { 100,4916 }, { 101,4916 }, { 102,4916 }, { 103,4916 }, { 104,4916 },
+ { 105,4916 }, { 106,4916 }, { 107,4916 }, { 108,4916 }, { 109,4916 },
+ { 110,4916 }, { 111,4916 }, { 112,4916 }, { 113,4916 }, { 114,4916 },
+ { 115,4916 }, { 116,4916 }, { 117,4916 }, { 118,4916 }, { 119,4916 },
+ { 120,4916 }, { 121,4916 }, { 122,4916 }, { 123,4916 }, { 124,4916 },
+ { 125,4916 }, { 126,4916 }, { 127,4916 }, { 128,4916 }, { 129,4916 },
+ { 130,4916 }, { 131,4916 }, { 132,4916 }, { 133,4916 }, { 134,4916 },
+ { 135,4916 }, { 136,4916 }, { 137,4916 }, { 138,4916 }, { 139,4916 },
+
+ { 140,4916 }, { 141,4916 }, { 142,4916 }, { 143,4916 }, { 144,4916 },
+ { 145,4916 }, { 146,4916 }, { 147,4916 }, { 148,4916 }, { 149,4916 },
+ { 150,4916 }, { 151,4916 }, { 152,4916 }, { 153,4916 }, { 154,4916 },
+ { 155,4916 }, { 156,4916 }, { 157,4916 }, { 158,4916 }, { 159,4916 },
+ { 160,4916 }, { 161,4916 }, { 162,4916 }, { 163,4916 }, { 164,4916 },
+ { 165,4916 }, { 166,4916 }, { 167,4916 }, { 168,4916 }, { 169,4916 },
+ { 170,4916 }, { 171,4916 }, { 172,4916 }, { 173,4916 }, { 174,4916 },
+ { 175,4916 }, { 176,4916 }, { 177,4916 }, { 178,4916 }, { 179,4916 },
+ { 180,4916 }, { 181,4916 }, { 182,4916 }, { 183,4916 }, { 184,4916 },
+ { 185,4916 }, { 186,4916 }, { 187,4916 }, { 188,4916 }, { 189,4916 },
+
+ { 190,4916 }, { 191,4916 }, { 192,4916 }, { 193,4916 }, { 194,4916 },
+ { 195,4916 }, { 196,4916 }, { 197,4916 }, { 198,4916 }, { 199,4916 },
+ { 200,4916 }, { 201,4916 }, { 202,4916 }, { 203,4916 }, { 204,4916 },
+ { 205,4916 }, { 206,4916 }, { 207,4916 }, { 208,4916 }, { 209,4916 },
+ { 210,4916 }, { 211,4916 }, { 212,4916 }, { 213,4916 }, { 214,4916 },
+ { 215,4916 }, { 216,4916 }, { 217,4916 }, { 218,4916 }, { 219,4916 },
+ { 220,4916 }, { 221,4916 }, { 222,4916 }, { 223,4916 }, { 224,4916 },
+ { 225,4916 }, { 226,4916 }, { 227,4916 }, { 228,4916 }, { 229,4916 },
+ { 230,4916 }, { 231,4916 }, { 232,4916 }, { 233,4916 }, { 234,4916 },
+ { 235,4916 }, { 236,4916 }, { 237,4916 }, { 238,4916 }, { 239,4916 },
+
+ { 240,4916 }, { 241,4916 }, { 242,4916 }, { 243,4916 }, { 244,4916 },
+ { 245,4916 }, { 246,4916 }, { 247,4916 }, { 248,4916 }, { 249,4916 },
+ { 250,4916 }, { 251,4916 }, { 252,4916 }, { 253,4916 }, { 254,4916 },
+ { 255,4916 }, { 256,4916 }, {   0,  51 }, {   0,18835 }, {   1,3850 },
+ {   2,3850 }, {   3,3850 }, {   4,3850 }, {   5,3850 }, {   6,3850 },
+ {   7,3850 }, {   8,3850 }, {   9,3825 }, {  10,3825 }, {  11,3850 },
+ {  12,3850 }, {  13,3825 }, {  14,3850 }, {  15,3850 }, {  16,3850 },
+ {  17,3850 }, {  18,3850 }, {  19,3850 }, {  20,3850 }, {  21,3850 },
+ {  22,3850 }, {  23,3850 }, {  24,3850 }, {  25,3850 }, {  26,3850 },
+ {  27,3850 }, {  28,3850 }, {  29,3850 }, {  30,3850 }, {  31,3850 },
+
+ {  32,3825 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,3850 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,3825 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,3850 }, {  46,3825 },
+ {  47,3825 }, {  48,5174 }, {  49,5174 }, {  50,5174 }, {  51,5174 },
+ {  52,5174 }, {  53,5174 }, {  54,5174 }, {  55,5174 }, {  56,5174 },
+ {  57,5174 }, {  58,3850 }, {   0,   0 }, {   0,   0 }, {  61,3825 },
+ {   0,   0 }, {  63,3850 }, {   0,   0 }, {  65,3850 }, {  66,3850 },
+ {  67,3850 }, {  68,3850 }, {  69,3850 }, {  70,3850 }, {  71,3850 },
+ {  72,3850 }, {  73,3850 }, {  74,3850 }, {  75,3850 }, {  76,3850 },
+ {  77,3850 }, {  78,3850 }, {  79,3850 }, {  80,3850 }, {  81,3850 },
+
+ {  82,3850 }, {  83,3850 }, {  84,3850 }, {  85,3850 }, {  86,3850 },
+ {  87,3850 }, {  88,3850 }, {  89,3850 }, {  90,3850 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,3850 }, {   0,   0 },
+ {  97,3850 }, {  98,3850 }, {  99,3850 }, { 100,3850 }, { 101,3850 },
+ { 102,3850 }, { 103,3850 }, { 104,3850 }, { 105,3850 }, { 106,3850 },
+ { 107,3850 }, { 108,3850 }, { 109,3850 }, { 110,3850 }, { 111,3850 },
+ { 112,3850 }, { 113,3850 }, { 114,3850 }, { 115,3850 }, { 116,3850 },
+ { 117,3850 }, { 118,3850 }, { 119,3850 }, { 120,3850 }, { 121,3850 },
+ { 122,3850 }, {   0,   0 }, { 124,3825 }, { 125,3825 }, { 126,3825 },
+ { 127,3850 }, { 128,3850 }, { 129,3850 }, { 130,3850 }, { 131,3850 },
+
+ { 132,3850 }, { 133,3850 }, { 134,3850 }, { 135,3850 }, { 136,3850 },
+ { 137,3850 }, { 138,3850 }, { 139,3850 }, { 140,3850 }, { 141,3850 },
+ { 142,3850 }, { 143,3850 }, { 144,3850 }, { 145,3850 }, { 146,3850 },
+ { 147,3850 }, { 148,3850 }, { 149,3850 }, { 150,3850 }, { 151,3850 },
+ { 152,3850 }, { 153,3850 }, { 154,3850 }, { 155,3850 }, { 156,3850 },
+ { 157,3850 }, { 158,3850 }, { 159,3850 }, { 160,3850 }, { 161,3850 },
+ { 162,3850 }, { 163,3850 }, { 164,3850 }, { 165,3850 }, { 166,3850 },
+ { 167,3850 }, { 168,3850 }, { 169,3850 }, { 170,3850 }, { 171,3850 },
+ { 172,3850 }, { 173,3850 }, { 174,3850 }, { 175,3850 }, { 176,3850 },
+ { 177,3850 }, { 178,3850 }, { 179,3850 }, { 180,3850 }, { 181,3850 },
+
+ { 182,3850 }, { 183,3850 }, { 184,3850 }, { 185,3850 }, { 186,3850 },
+ { 187,3850 }, { 188,3850 }, { 189,3850 }, { 190,3850 }, { 191,3850 },
+ { 192,3850 }, { 193,3850 }, { 194,3850 }, { 195,3850 }, { 196,3850 },
+ { 197,3850 }, { 198,3850 }, { 199,3850 }, { 200,3850 }, { 201,3850 },
+ { 202,3850 }, { 203,3850 }, { 204,3850 }, { 205,3850 }, { 206,3850 },
+ { 207,3850 }, { 208,3850 }, { 209,3850 }, { 210,3850 }, { 211,3850 },
+ { 212,3850 }, { 213,3850 }, { 214,3850 }, { 215,3850 }, { 216,3850 },
+ { 217,3850 }, { 218,3850 }, { 219,3850 }, { 220,3850 }, { 221,3850 },
+ { 222,3850 }, { 223,3850 }, { 224,3850 }, { 225,3850 }, { 226,3850 },
+ { 227,3850 }, { 228,3850 }, { 229,3850 }, { 230,3850 }, { 231,3850 },
+
+ { 232,3850 }, { 233,3850 }, { 234,3850 }, { 235,3850 }, { 236,3850 },
+ { 237,3850 }, { 238,3850 }, { 239,3850 }, { 240,3850 }, { 241,3850 },
+ { 242,3850 }, { 243,3850 }, { 244,3850 }, { 245,3850 }, { 246,3850 },
+ { 247,3850 }, { 248,3850 }, { 249,3850 }, { 250,3850 }, { 251,3850 },
+ { 252,3850 }, { 253,3850 }, { 254,3850 }, { 255,3850 }, { 256,3850 },
+ {   0,  35 }, {   0,18577 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   9,3856 }, {  10,3856 }, {   0,   0 }, {   0,   0 }, {  13,3856 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18559 },
+ {   0,  43 }, {   0,18557 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,3856 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,3856 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  46,3858 }, {  47,3856 }, {   0,  51 },
+ {   0,18528 }, {   0,  51 }, {   0,18526 }, {   0,   7 }, {   0,18524 },
+ {   0,  52 }, {   0,18522 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  61,3856 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18495 }, {   1,3510 },
+ {   2,3510 }, {   3,3510 }, {   4,3510 }, {   5,3510 }, {   6,3510 },
+ {   7,3510 }, {   8,3510 }, {   9,3780 }, {  10,3780 }, {  11,3510 },
+ {  12,3510 }, {  13,3780 }, {  14,3510 }, {  15,3510 }, {  16,3510 },
+ {  17,3510 }, {  18,3510 }, {  19,3510 }, {  20,3510 }, {  21,3510 },
+ {  22,3510 }, {  23,3510 }, {  24,3510 }, {  25,3510 }, {  26,3510 },
+ {  27,3510 }, {  28,3510 }, {  29,3510 }, {  30,3510 }, {  31,3510 },
+ {  32,3780 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,3510 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,3780 },
+
+ { 124,3856 }, { 125,3856 }, { 126,3856 }, {  45,3510 }, {  46,5092 },
+ {  47,3485 }, {  48,4834 }, {  49,4834 }, {  50,4834 }, {  51,4834 },
+ {  52,4834 }, {  53,4834 }, {  54,4834 }, {  55,4834 }, {  56,4834 },
+ {  57,4834 }, {  58,3510 }, { 123,7021 }, {   0,   0 }, {  61,3485 },
+ {   0,   0 }, {  63,3510 }, {   0,   0 }, {  65,3510 }, {  66,3510 },
+ {  67,3510 }, {  68,3510 }, {  69,3510 }, {  70,3510 }, {  71,3510 },
+ {  72,3510 }, {  73,3510 }, {  74,3510 }, {  75,3510 }, {  76,3510 },
+ {  77,3510 }, {  78,3510 }, {  79,3510 }, {  80,3510 }, {  81,3510 },
+ {  82,3510 }, {  83,3510 }, {  84,3510 }, {  85,3510 }, {  86,3510 },
+ {  87,3510 }, {  88,3510 }, {  89,3510 }, {  90,3510 }, {   0,   0 },
+
+ { 125,6992 }, { 126,6994 }, { 125,6994 }, {  95,3510 }, {   0,   0 },
+ {  97,3510 }, {  98,3510 }, {  99,3510 }, { 100,3510 }, { 101,3510 },
+ { 102,3510 }, { 103,3510 }, { 104,3510 }, { 105,3510 }, { 106,3510 },
+ { 107,3510 }, { 108,3510 }, { 109,3510 }, { 110,3510 }, { 111,3510 },
+ { 112,3510 }, { 113,3510 }, { 114,3510 }, { 115,3510 }, { 116,3510 },
+ { 117,3510 }, { 118,3510 }, { 119,3510 }, { 120,3510 }, { 121,3510 },
+ { 122,3510 }, {   0,   0 }, { 124,3485 }, { 125,3780 }, { 126,3780 },
+ { 127,3510 }, { 128,3510 }, { 129,3510 }, { 130,3510 }, { 131,3510 },
+ { 132,3510 }, { 133,3510 }, { 134,3510 }, { 135,3510 }, { 136,3510 },
+ { 137,3510 }, { 138,3510 }, { 139,3510 }, { 140,3510 }, { 141,3510 },
+
+ { 142,3510 }, { 143,3510 }, { 144,3510 }, { 145,3510 }, { 146,3510 },
+ { 147,3510 }, { 148,3510 }, { 149,3510 }, { 150,3510 }, { 151,3510 },
+ { 152,3510 }, { 153,3510 }, { 154,3510 }, { 155,3510 }, { 156,3510 },
+ { 157,3510 }, { 158,3510 }, { 159,3510 }, { 160,3510 }, { 161,3510 },
+ { 162,3510 }, { 163,3510 }, { 164,3510 }, { 165,3510 }, { 166,3510 },
+ { 167,3510 }, { 168,3510 }, { 169,3510 }, { 170,3510 }, { 171,3510 },
+ { 172,3510 }, { 173,3510 }, { 174,3510 }, { 175,3510 }, { 176,3510 },
+ { 177,3510 }, { 178,3510 }, { 179,3510 }, { 180,3510 }, { 181,3510 },
+ { 182,3510 }, { 183,3510 }, { 184,3510 }, { 185,3510 }, { 186,3510 },
+ { 187,3510 }, { 188,3510 }, { 189,3510 }, { 190,3510 }, { 191,3510 },
+
+ { 192,3510 }, { 193,3510 }, { 194,3510 }, { 195,3510 }, { 196,3510 },
+ { 197,3510 }, { 198,3510 }, { 199,3510 }, { 200,3510 }, { 201,3510 },
+ { 202,3510 }, { 203,3510 }, { 204,3510 }, { 205,3510 }, { 206,3510 },
+ { 207,3510 }, { 208,3510 }, { 209,3510 }, { 210,3510 }, { 211,3510 },
+ { 212,3510 }, { 213,3510 }, { 214,3510 }, { 215,3510 }, { 216,3510 },
+ { 217,3510 }, { 218,3510 }, { 219,3510 }, { 220,3510 }, { 221,3510 },
+ { 222,3510 }, { 223,3510 }, { 224,3510 }, { 225,3510 }, { 226,3510 },
+ { 227,3510 }, { 228,3510 }, { 229,3510 }, { 230,3510 }, { 231,3510 },
+ { 232,3510 }, { 233,3510 }, { 234,3510 }, { 235,3510 }, { 236,3510 },
+ { 237,3510 }, { 238,3510 }, { 239,3510 }, { 240,3510 }, { 241,3510 },
+
+ { 242,3510 }, { 243,3510 }, { 244,3510 }, { 245,3510 }, { 246,3510 },
+ { 247,3510 }, { 248,3510 }, { 249,3510 }, { 250,3510 }, { 251,3510 },
+ { 252,3510 }, { 253,3510 }, { 254,3510 }, { 255,3510 }, { 256,3510 },
+ {   0,  51 }, {   0,18237 }, {   1,4893 }, {   2,4893 }, {   3,4893 },
+ {   4,4893 }, {   5,4893 }, {   6,4893 }, {   7,4893 }, {   8,4893 },
+ {   9,4893 }, {  10,4893 }, {  11,4893 }, {  12,4893 }, {  13,4893 },
+ {  14,4893 }, {  15,4893 }, {  16,4893 }, {  17,4893 }, {  18,4893 },
+ {  19,4893 }, {  20,4893 }, {  21,4893 }, {  22,4893 }, {  23,4893 },
+ {  24,4893 }, {  25,4893 }, {  26,4893 }, {  27,4893 }, {  28,4893 },
+ {  29,4893 }, {  30,4893 }, {  31,4893 }, {  32,4893 }, {  33,4893 },
+
+ {  34,4893 }, {  35,4893 }, {  36,4893 }, {  37,4893 }, {  38,4893 },
+ {  39,4893 }, {  40,4893 }, {  41,4893 }, {  42,4893 }, {  43,4893 },
+ {  44,4893 }, {  45,4893 }, {  46,4893 }, {  47,4893 }, {  48,4893 },
+ {  49,4893 }, {  50,4893 }, {  51,4893 }, {  52,4893 }, {  53,4893 },
+ {  54,4893 }, {  55,4893 }, {  56,4893 }, {  57,4893 }, {  58,4893 },
+ {  59,4893 }, {  60,4893 }, {  61,4893 }, {  62,4893 }, {  63,4893 },
+ {  64,4893 }, {  65,4893 }, {  66,4893 }, {  67,4893 }, {  68,4893 },
+ {  69,4893 }, {  70,4893 }, {  71,4893 }, {  72,4893 }, {  73,4893 },
+ {  74,4893 }, {  75,4893 }, {  76,4893 }, {  77,4893 }, {  78,4893 },
+ {  79,4893 }, {  80,4893 }, {  81,4893 }, {  82,4893 }, {  83,4893 },
+
+ {  84,4893 }, {  85,4893 }, {  86,4893 }, {  87,4893 }, {  88,4893 },
+ {  89,4893 }, {  90,4893 }, {  91,4893 }, {  92,5151 }, {  93,3525 },
+ {  94,4893 }, {  95,4893 }, {  96,4893 }, {  97,4893 }, {  98,4893 },
+ {  99,4893 }, { 100,4893 }, { 101,4893 }, { 102,4893 }, { 103,4893 },
+ { 104,4893 }, { 105,4893 }, { 106,4893 }, { 107,4893 }, { 108,4893 },
+ { 109,4893 }, { 110,4893 }, { 111,4893 }, { 112,4893 }, { 113,4893 },
+ { 114,4893 }, { 115,4893 }, { 116,4893 }, { 117,4893 }, { 118,4893 },
+ { 119,4893 }, { 120,4893 }, { 121,4893 }, { 122,4893 }, { 123,4893 },
+ { 124,4893 }, { 125,4893 }, { 126,4893 }, { 127,4893 }, { 128,4893 },
+ { 129,4893 }, { 130,4893 }, { 131,4893 }, { 132,4893 }, { 133,4893 },
+
+ { 134,4893 }, { 135,4893 }, { 136,4893 }, { 137,4893 }, { 138,4893 },
+ { 139,4893 }, { 140,4893 }, { 141,4893 }, { 142,4893 }, { 143,4893 },
+ { 144,4893 }, { 145,4893 }, { 146,4893 }, { 147,4893 }, { 148,4893 },
+ { 149,4893 }, { 150,4893 }, { 151,4893 }, { 152,4893 }, { 153,4893 },
+ { 154,4893 }, { 155,4893 }, { 156,4893 }, { 157,4893 }, { 158,4893 },
+ { 159,4893 }, { 160,4893 }, { 161,4893 }, { 162,4893 }, { 163,4893 },
+ { 164,4893 }, { 165,4893 }, { 166,4893 }, { 167,4893 }, { 168,4893 },
+ { 169,4893 }, { 170,4893 }, { 171,4893 }, { 172,4893 }, { 173,4893 },
+ { 174,4893 }, { 175,4893 }, { 176,4893 }, { 177,4893 }, { 178,4893 },
+ { 179,4893 }, { 180,4893 }, { 181,4893 }, { 182,4893 }, { 183,4893 },
+
+ { 184,4893 }, { 185,4893 }, { 186,4893 }, { 187,4893 }, { 188,4893 },
+ { 189,4893 }, { 190,4893 }, { 191,4893 }, { 192,4893 }, { 193,4893 },
+ { 194,4893 }, { 195,4893 }, { 196,4893 }, { 197,4893 }, { 198,4893 },
+ { 199,4893 }, { 200,4893 }, { 201,4893 }, { 202,4893 }, { 203,4893 },
+ { 204,4893 }, { 205,4893 }, { 206,4893 }, { 207,4893 }, { 208,4893 },
+ { 209,4893 }, { 210,4893 }, { 211,4893 }, { 212,4893 }, { 213,4893 },
+ { 214,4893 }, { 215,4893 }, { 216,4893 }, { 217,4893 }, { 218,4893 },
+ { 219,4893 }, { 220,4893 }, { 221,4893 }, { 222,4893 }, { 223,4893 },
+ { 224,4893 }, { 225,4893 }, { 226,4893 }, { 227,4893 }, { 228,4893 },
+ { 229,4893 }, { 230,4893 }, { 231,4893 }, { 232,4893 }, { 233,4893 },
+
+ { 234,4893 }, { 235,4893 }, { 236,4893 }, { 237,4893 }, { 238,4893 },
+ { 239,4893 }, { 240,4893 }, { 241,4893 }, { 242,4893 }, { 243,4893 },
+ { 244,4893 }, { 245,4893 }, { 246,4893 }, { 247,4893 }, { 248,4893 },
+ { 249,4893 }, { 250,4893 }, { 251,4893 }, { 252,4893 }, { 253,4893 },
+ { 254,4893 }, { 255,4893 }, { 256,4893 }, {   0,  51 }, {   0,17979 },
+ {   1,2994 }, {   2,2994 }, {   3,2994 }, {   4,2994 }, {   5,2994 },
+ {   6,2994 }, {   7,2994 }, {   8,2994 }, {   9,2969 }, {  10,2969 },
+ {  11,2994 }, {  12,2994 }, {  13,2969 }, {  14,2994 }, {  15,2994 },
+ {  16,2994 }, {  17,2994 }, {  18,2994 }, {  19,2994 }, {  20,2994 },
+ {  21,2994 }, {  22,2994 }, {  23,2994 }, {  24,2994 }, {  25,2994 },
+
+ {  26,2994 }, {  27,2994 }, {  28,2994 }, {  29,2994 }, {  30,2994 },
+ {  31,2994 }, {  32,2969 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,2994 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,2969 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2994 },
+ {  46,2969 }, {  47,2969 }, {  48,2994 }, {  49,2994 }, {  50,2994 },
+ {  51,2994 }, {  52,2994 }, {  53,2994 }, {  54,2994 }, {  55,2994 },
+ {  56,2994 }, {  57,2994 }, {  58,2994 }, {   0,   0 }, {   0,   0 },
+ {  61,2969 }, {   0,   0 }, {  63,2994 }, {   0,   0 }, {  65,2994 },
+ {  66,2994 }, {  67,2994 }, {  68,2994 }, {  69,2994 }, {  70,2994 },
+ {  71,2994 }, {  72,2994 }, {  73,2994 }, {  74,2994 }, {  75,2994 },
+
+ {  76,2994 }, {  77,2994 }, {  78,2994 }, {  79,2994 }, {  80,2994 },
+ {  81,2994 }, {  82,2994 }, {  83,2994 }, {  84,2994 }, {  85,2994 },
+ {  86,2994 }, {  87,2994 }, {  88,2994 }, {  89,2994 }, {  90,2994 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2994 },
+ {   0,   0 }, {  97,2994 }, {  98,2994 }, {  99,2994 }, { 100,2994 },
+ { 101,2994 }, { 102,2994 }, { 103,2994 }, { 104,2994 }, { 105,2994 },
+ { 106,2994 }, { 107,2994 }, { 108,2994 }, { 109,2994 }, { 110,2994 },
+ { 111,2994 }, { 112,2994 }, { 113,2994 }, { 114,2994 }, { 115,5151 },
+ { 116,2994 }, { 117,2994 }, { 118,2994 }, { 119,2994 }, { 120,2994 },
+ { 121,2994 }, { 122,2994 }, {   0,   0 }, { 124,2969 }, { 125,2969 },
+
+ { 126,2969 }, { 127,2994 }, { 128,2994 }, { 129,2994 }, { 130,2994 },
+ { 131,2994 }, { 132,2994 }, { 133,2994 }, { 134,2994 }, { 135,2994 },
+ { 136,2994 }, { 137,2994 }, { 138,2994 }, { 139,2994 }, { 140,2994 },
+ { 141,2994 }, { 142,2994 }, { 143,2994 }, { 144,2994 }, { 145,2994 },
+ { 146,2994 }, { 147,2994 }, { 148,2994 }, { 149,2994 }, { 150,2994 },
+ { 151,2994 }, { 152,2994 }, { 153,2994 }, { 154,2994 }, { 155,2994 },
+ { 156,2994 }, { 157,2994 }, { 158,2994 }, { 159,2994 }, { 160,2994 },
+ { 161,2994 }, { 162,2994 }, { 163,2994 }, { 164,2994 }, { 165,2994 },
+ { 166,2994 }, { 167,2994 }, { 168,2994 }, { 169,2994 }, { 170,2994 },
+ { 171,2994 }, { 172,2994 }, { 173,2994 }, { 174,2994 }, { 175,2994 },
+
+ { 176,2994 }, { 177,2994 }, { 178,2994 }, { 179,2994 }, { 180,2994 },
+ { 181,2994 }, { 182,2994 }, { 183,2994 }, { 184,2994 }, { 185,2994 },
+ { 186,2994 }, { 187,2994 }, { 188,2994 }, { 189,2994 }, { 190,2994 },
+ { 191,2994 }, { 192,2994 }, { 193,2994 }, { 194,2994 }, { 195,2994 },
+ { 196,2994 }, { 197,2994 }, { 198,2994 }, { 199,2994 }, { 200,2994 },
+ { 201,2994 }, { 202,2994 }, { 203,2994 }, { 204,2994 }, { 205,2994 },
+ { 206,2994 }, { 207,2994 }, { 208,2994 }, { 209,2994 }, { 210,2994 },
+ { 211,2994 }, { 212,2994 }, { 213,2994 }, { 214,2994 }, { 215,2994 },
+ { 216,2994 }, { 217,2994 }, { 218,2994 }, { 219,2994 }, { 220,2994 },
+ { 221,2994 }, { 222,2994 }, { 223,2994 }, { 224,2994 }, { 225,2994 },
+
+ { 226,2994 }, { 227,2994 }, { 228,2994 }, { 229,2994 }, { 230,2994 },
+ { 231,2994 }, { 232,2994 }, { 233,2994 }, { 234,2994 }, { 235,2994 },
+ { 236,2994 }, { 237,2994 }, { 238,2994 }, { 239,2994 }, { 240,2994 },
+ { 241,2994 }, { 242,2994 }, { 243,2994 }, { 244,2994 }, { 245,2994 },
+ { 246,2994 }, { 247,2994 }, { 248,2994 }, { 249,2994 }, { 250,2994 },
+ { 251,2994 }, { 252,2994 }, { 253,2994 }, { 254,2994 }, { 255,2994 },
+ { 256,2994 }, {   0,  51 }, {   0,17721 }, {   1,2736 }, {   2,2736 },
+ {   3,2736 }, {   4,2736 }, {   5,2736 }, {   6,2736 }, {   7,2736 },
+ {   8,2736 }, {   9,2711 }, {  10,2711 }, {  11,2736 }, {  12,2736 },
+ {  13,2711 }, {  14,2736 }, {  15,2736 }, {  16,2736 }, {  17,2736 },
+
+ {  18,2736 }, {  19,2736 }, {  20,2736 }, {  21,2736 }, {  22,2736 },
+ {  23,2736 }, {  24,2736 }, {  25,2736 }, {  26,2736 }, {  27,2736 },
+ {  28,2736 }, {  29,2736 }, {  30,2736 }, {  31,2736 }, {  32,2711 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2736 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2711 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,2736 }, {  46,2711 }, {  47,2711 },
+ {  48,2736 }, {  49,2736 }, {  50,2736 }, {  51,2736 }, {  52,2736 },
+ {  53,2736 }, {  54,2736 }, {  55,2736 }, {  56,2736 }, {  57,2736 },
+ {  58,2736 }, {   0,   0 }, {   0,   0 }, {  61,2711 }, {   0,   0 },
+ {  63,2736 }, {   0,   0 }, {  65,2736 }, {  66,2736 }, {  67,2736 },
+
+ {  68,2736 }, {  69,2736 }, {  70,2736 }, {  71,2736 }, {  72,2736 },
+ {  73,2736 }, {  74,2736 }, {  75,2736 }, {  76,2736 }, {  77,2736 },
+ {  78,2736 }, {  79,2736 }, {  80,2736 }, {  81,2736 }, {  82,2736 },
+ {  83,2736 }, {  84,2736 }, {  85,2736 }, {  86,2736 }, {  87,2736 },
+ {  88,2736 }, {  89,2736 }, {  90,2736 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,2736 }, {   0,   0 }, {  97,5151 },
+ {  98,2736 }, {  99,2736 }, { 100,2736 }, { 101,2736 }, { 102,2736 },
+ { 103,2736 }, { 104,2736 }, { 105,2736 }, { 106,2736 }, { 107,2736 },
+ { 108,2736 }, { 109,2736 }, { 110,2736 }, { 111,2736 }, { 112,2736 },
+ { 113,2736 }, { 114,2736 }, { 115,2736 }, { 116,2736 }, { 117,2736 },
+
+ { 118,2736 }, { 119,2736 }, { 120,2736 }, { 121,2736 }, { 122,2736 },
+ {   0,   0 }, { 124,2711 }, { 125,2711 }, { 126,2711 }, { 127,2736 },
+ { 128,2736 }, { 129,2736 }, { 130,2736 }, { 131,2736 }, { 132,2736 },
+ { 133,2736 }, { 134,2736 }, { 135,2736 }, { 136,2736 }, { 137,2736 },
+ { 138,2736 }, { 139,2736 }, { 140,2736 }, { 141,2736 }, { 142,2736 },
+ { 143,2736 }, { 144,2736 }, { 145,2736 }, { 146,2736 }, { 147,2736 },
+ { 148,2736 }, { 149,2736 }, { 150,2736 }, { 151,2736 }, { 152,2736 },
+ { 153,2736 }, { 154,2736 }, { 155,2736 }, { 156,2736 }, { 157,2736 },
+ { 158,2736 }, { 159,2736 }, { 160,2736 }, { 161,2736 }, { 162,2736 },
+ { 163,2736 }, { 164,2736 }, { 165,2736 }, { 166,2736 }, { 167,2736 },
+
+ { 168,2736 }, { 169,2736 }, { 170,2736 }, { 171,2736 }, { 172,2736 },
+ { 173,2736 }, { 174,2736 }, { 175,2736 }, { 176,2736 }, { 177,2736 },
+ { 178,2736 }, { 179,2736 }, { 180,2736 }, { 181,2736 }, { 182,2736 },
+ { 183,2736 }, { 184,2736 }, { 185,2736 }, { 186,2736 }, { 187,2736 },
+ { 188,2736 }, { 189,2736 }, { 190,2736 }, { 191,2736 }, { 192,2736 },
+ { 193,2736 }, { 194,2736 }, { 195,2736 }, { 196,2736 }, { 197,2736 },
+ { 198,2736 }, { 199,2736 }, { 200,2736 }, { 201,2736 }, { 202,2736 },
+ { 203,2736 }, { 204,2736 }, { 205,2736 }, { 206,2736 }, { 207,2736 },
+ { 208,2736 }, { 209,2736 }, { 210,2736 }, { 211,2736 }, { 212,2736 },
+ { 213,2736 }, { 214,2736 }, { 215,2736 }, { 216,2736 }, { 217,2736 },
+
+ { 218,2736 }, { 219,2736 }, { 220,2736 }, { 221,2736 }, { 222,2736 },
+ { 223,2736 }, { 224,2736 }, { 225,2736 }, { 226,2736 }, { 227,2736 },
+ { 228,2736 }, { 229,2736 }, { 230,2736 }, { 231,2736 }, { 232,2736 },
+ { 233,2736 }, { 234,2736 }, { 235,2736 }, { 236,2736 }, { 237,2736 },
+ { 238,2736 }, { 239,2736 }, { 240,2736 }, { 241,2736 }, { 242,2736 },
+ { 243,2736 }, { 244,2736 }, { 245,2736 }, { 246,2736 }, { 247,2736 },
+ { 248,2736 }, { 249,2736 }, { 250,2736 }, { 251,2736 }, { 252,2736 },
+ { 253,2736 }, { 254,2736 }, { 255,2736 }, { 256,2736 }, {   0,  51 },
+ {   0,17463 }, {   1,2478 }, {   2,2478 }, {   3,2478 }, {   4,2478 },
+ {   5,2478 }, {   6,2478 }, {   7,2478 }, {   8,2478 }, {   9,2453 },
+
+ {  10,2453 }, {  11,2478 }, {  12,2478 }, {  13,2453 }, {  14,2478 },
+ {  15,2478 }, {  16,2478 }, {  17,2478 }, {  18,2478 }, {  19,2478 },
+ {  20,2478 }, {  21,2478 }, {  22,2478 }, {  23,2478 }, {  24,2478 },
+ {  25,2478 }, {  26,2478 }, {  27,2478 }, {  28,2478 }, {  29,2478 },
+ {  30,2478 }, {  31,2478 }, {  32,2453 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,2478 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,2453 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,2478 }, {  46,2453 }, {  47,2453 }, {  48,2478 }, {  49,2478 },
+ {  50,2478 }, {  51,2478 }, {  52,2478 }, {  53,2478 }, {  54,2478 },
+ {  55,2478 }, {  56,2478 }, {  57,2478 }, {  58,2478 }, {   0,   0 },
+
+ {   0,   0 }, {  61,2453 }, {   0,   0 }, {  63,2478 }, {   0,   0 },
+ {  65,2478 }, {  66,2478 }, {  67,2478 }, {  68,2478 }, {  69,2478 },
+ {  70,2478 }, {  71,2478 }, {  72,2478 }, {  73,2478 }, {  74,2478 },
+ {  75,2478 }, {  76,2478 }, {  77,2478 }, {  78,2478 }, {  79,2478 },
+ {  80,2478 }, {  81,2478 }, {  82,2478 }, {  83,2478 }, {  84,2478 },
+ {  85,2478 }, {  86,2478 }, {  87,2478 }, {  88,2478 }, {  89,2478 },
+ {  90,2478 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,2478 }, {   0,   0 }, {  97,2478 }, {  98,2478 }, {  99,2478 },
+ { 100,2478 }, { 101,2478 }, { 102,2478 }, { 103,2478 }, { 104,2478 },
+ { 105,2478 }, { 106,2478 }, { 107,2478 }, { 108,2478 }, { 109,2478 },
+
+ { 110,2478 }, { 111,2478 }, { 112,2478 }, { 113,2478 }, { 114,2478 },
+ { 115,2478 }, { 116,2478 }, { 117,5151 }, { 118,2478 }, { 119,2478 },
+ { 120,2478 }, { 121,2478 }, { 122,2478 }, {   0,   0 }, { 124,2453 },
+ { 125,2453 }, { 126,2453 }, { 127,2478 }, { 128,2478 }, { 129,2478 },
+ { 130,2478 }, { 131,2478 }, { 132,2478 }, { 133,2478 }, { 134,2478 },
+ { 135,2478 }, { 136,2478 }, { 137,2478 }, { 138,2478 }, { 139,2478 },
+ { 140,2478 }, { 141,2478 }, { 142,2478 }, { 143,2478 }, { 144,2478 },
+ { 145,2478 }, { 146,2478 }, { 147,2478 }, { 148,2478 }, { 149,2478 },
+ { 150,2478 }, { 151,2478 }, { 152,2478 }, { 153,2478 }, { 154,2478 },
+ { 155,2478 }, { 156,2478 }, { 157,2478 }, { 158,2478 }, { 159,2478 },
+
+ { 160,2478 }, { 161,2478 }, { 162,2478 }, { 163,2478 }, { 164,2478 },
+ { 165,2478 }, { 166,2478 }, { 167,2478 }, { 168,2478 }, { 169,2478 },
+ { 170,2478 }, { 171,2478 }, { 172,2478 }, { 173,2478 }, { 174,2478 },
+ { 175,2478 }, { 176,2478 }, { 177,2478 }, { 178,2478 }, { 179,2478 },
+ { 180,2478 }, { 181,2478 }, { 182,2478 }, { 183,2478 }, { 184,2478 },
+ { 185,2478 }, { 186,2478 }, { 187,2478 }, { 188,2478 }, { 189,2478 },
+ { 190,2478 }, { 191,2478 }, { 192,2478 }, { 193,2478 }, { 194,2478 },
+ { 195,2478 }, { 196,2478 }, { 197,2478 }, { 198,2478 }, { 199,2478 },
+ { 200,2478 }, { 201,2478 }, { 202,2478 }, { 203,2478 }, { 204,2478 },
+ { 205,2478 }, { 206,2478 }, { 207,2478 }, { 208,2478 }, { 209,2478 },
+
+ { 210,2478 }, { 211,2478 }, { 212,2478 }, { 213,2478 }, { 214,2478 },
+ { 215,2478 }, { 216,2478 }, { 217,2478 }, { 218,2478 }, { 219,2478 },
+ { 220,2478 }, { 221,2478 }, { 222,2478 }, { 223,2478 }, { 224,2478 },
+ { 225,2478 }, { 226,2478 }, { 227,2478 }, { 228,2478 }, { 229,2478 },
+ { 230,2478 }, { 231,2478 }, { 232,2478 }, { 233,2478 }, { 234,2478 },
+ { 235,2478 }, { 236,2478 }, { 237,2478 }, { 238,2478 }, { 239,2478 },
+ { 240,2478 }, { 241,2478 }, { 242,2478 }, { 243,2478 }, { 244,2478 },
+ { 245,2478 }, { 246,2478 }, { 247,2478 }, { 248,2478 }, { 249,2478 },
+ { 250,2478 }, { 251,2478 }, { 252,2478 }, { 253,2478 }, { 254,2478 },
+ { 255,2478 }, { 256,2478 }, {   0,  51 }, {   0,17205 }, {   1,2220 },
+
+ {   2,2220 }, {   3,2220 }, {   4,2220 }, {   5,2220 }, {   6,2220 },
+ {   7,2220 }, {   8,2220 }, {   9,2195 }, {  10,2195 }, {  11,2220 },
+ {  12,2220 }, {  13,2195 }, {  14,2220 }, {  15,2220 }, {  16,2220 },
+ {  17,2220 }, {  18,2220 }, {  19,2220 }, {  20,2220 }, {  21,2220 },
+ {  22,2220 }, {  23,2220 }, {  24,2220 }, {  25,2220 }, {  26,2220 },
+ {  27,2220 }, {  28,2220 }, {  29,2220 }, {  30,2220 }, {  31,2220 },
+ {  32,2195 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2220 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2195 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2220 }, {  46,2195 },
+ {  47,2195 }, {  48,2220 }, {  49,2220 }, {  50,2220 }, {  51,2220 },
+
+ {  52,2220 }, {  53,2220 }, {  54,2220 }, {  55,2220 }, {  56,2220 },
+ {  57,2220 }, {  58,2220 }, {   0,   0 }, {   0,   0 }, {  61,2195 },
+ {   0,   0 }, {  63,2220 }, {   0,   0 }, {  65,2220 }, {  66,2220 },
+ {  67,2220 }, {  68,2220 }, {  69,2220 }, {  70,2220 }, {  71,2220 },
+ {  72,2220 }, {  73,2220 }, {  74,2220 }, {  75,2220 }, {  76,2220 },
+ {  77,2220 }, {  78,2220 }, {  79,2220 }, {  80,2220 }, {  81,2220 },
+ {  82,2220 }, {  83,2220 }, {  84,2220 }, {  85,2220 }, {  86,2220 },
+ {  87,2220 }, {  88,2220 }, {  89,2220 }, {  90,2220 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2220 }, {   0,   0 },
+ {  97,2220 }, {  98,2220 }, {  99,2220 }, { 100,2220 }, { 101,2220 },
+
+ { 102,2220 }, { 103,2220 }, { 104,2220 }, { 105,2220 }, { 106,2220 },
+ { 107,2220 }, { 108,2220 }, { 109,2220 }, { 110,2220 }, { 111,2220 },
+ { 112,2220 }, { 113,2220 }, { 114,5151 }, { 115,2220 }, { 116,2220 },
+ { 117,2220 }, { 118,2220 }, { 119,2220 }, { 120,2220 }, { 121,2220 },
+ { 122,2220 }, {   0,   0 }, { 124,2195 }, { 125,2195 }, { 126,2195 },
+ { 127,2220 }, { 128,2220 }, { 129,2220 }, { 130,2220 }, { 131,2220 },
+ { 132,2220 }, { 133,2220 }, { 134,2220 }, { 135,2220 }, { 136,2220 },
+ { 137,2220 }, { 138,2220 }, { 139,2220 }, { 140,2220 }, { 141,2220 },
+ { 142,2220 }, { 143,2220 }, { 144,2220 }, { 145,2220 }, { 146,2220 },
+ { 147,2220 }, { 148,2220 }, { 149,2220 }, { 150,2220 }, { 151,2220 },
+
+ { 152,2220 }, { 153,2220 }, { 154,2220 }, { 155,2220 }, { 156,2220 },
+ { 157,2220 }, { 158,2220 }, { 159,2220 }, { 160,2220 }, { 161,2220 },
+ { 162,2220 }, { 163,2220 }, { 164,2220 }, { 165,2220 }, { 166,2220 },
+ { 167,2220 }, { 168,2220 }, { 169,2220 }, { 170,2220 }, { 171,2220 },
+ { 172,2220 }, { 173,2220 }, { 174,2220 }, { 175,2220 }, { 176,2220 },
+ { 177,2220 }, { 178,2220 }, { 179,2220 }, { 180,2220 }, { 181,2220 },
+ { 182,2220 }, { 183,2220 }, { 184,2220 }, { 185,2220 }, { 186,2220 },
+ { 187,2220 }, { 188,2220 }, { 189,2220 }, { 190,2220 }, { 191,2220 },
+ { 192,2220 }, { 193,2220 }, { 194,2220 }, { 195,2220 }, { 196,2220 },
+ { 197,2220 }, { 198,2220 }, { 199,2220 }, { 200,2220 }, { 201,2220 },
+
+ { 202,2220 }, { 203,2220 }, { 204,2220 }, { 205,2220 }, { 206,2220 },
+ { 207,2220 }, { 208,2220 }, { 209,2220 }, { 210,2220 }, { 211,2220 },
+ { 212,2220 }, { 213,2220 }, { 214,2220 }, { 215,2220 }, { 216,2220 },
+ { 217,2220 }, { 218,2220 }, { 219,2220 }, { 220,2220 }, { 221,2220 },
+ { 222,2220 }, { 223,2220 }, { 224,2220 }, { 225,2220 }, { 226,2220 },
+ { 227,2220 }, { 228,2220 }, { 229,2220 }, { 230,2220 }, { 231,2220 },
+ { 232,2220 }, { 233,2220 }, { 234,2220 }, { 235,2220 }, { 236,2220 },
+ { 237,2220 }, { 238,2220 }, { 239,2220 }, { 240,2220 }, { 241,2220 },
+ { 242,2220 }, { 243,2220 }, { 244,2220 }, { 245,2220 }, { 246,2220 },
+ { 247,2220 }, { 248,2220 }, { 249,2220 }, { 250,2220 }, { 251,2220 },
+
+ { 252,2220 }, { 253,2220 }, { 254,2220 }, { 255,2220 }, { 256,2220 },
+ {   0,  51 }, {   0,16947 }, {   1,1962 }, {   2,1962 }, {   3,1962 },
+ {   4,1962 }, {   5,1962 }, {   6,1962 }, {   7,1962 }, {   8,1962 },
+ {   9,1937 }, {  10,1937 }, {  11,1962 }, {  12,1962 }, {  13,1937 },
+ {  14,1962 }, {  15,1962 }, {  16,1962 }, {  17,1962 }, {  18,1962 },
+ {  19,1962 }, {  20,1962 }, {  21,1962 }, {  22,1962 }, {  23,1962 },
+ {  24,1962 }, {  25,1962 }, {  26,1962 }, {  27,1962 }, {  28,1962 },
+ {  29,1962 }, {  30,1962 }, {  31,1962 }, {  32,1937 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,1962 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1937 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  45,1962 }, {  46,1937 }, {  47,1937 }, {  48,1962 },
+ {  49,1962 }, {  50,1962 }, {  51,1962 }, {  52,1962 }, {  53,1962 },
+ {  54,1962 }, {  55,1962 }, {  56,1962 }, {  57,1962 }, {  58,1962 },
+ {   0,   0 }, {   0,   0 }, {  61,1937 }, {   0,   0 }, {  63,1962 },
+ {   0,   0 }, {  65,1962 }, {  66,1962 }, {  67,1962 }, {  68,1962 },
+ {  69,1962 }, {  70,1962 }, {  71,1962 }, {  72,1962 }, {  73,1962 },
+ {  74,1962 }, {  75,1962 }, {  76,1962 }, {  77,1962 }, {  78,1962 },
+ {  79,1962 }, {  80,1962 }, {  81,1962 }, {  82,1962 }, {  83,1962 },
+ {  84,1962 }, {  85,1962 }, {  86,1962 }, {  87,1962 }, {  88,1962 },
+ {  89,1962 }, {  90,1962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  95,1962 }, {   0,   0 }, {  97,1962 }, {  98,1962 },
+ {  99,1962 }, { 100,1962 }, { 101,1962 }, { 102,1962 }, { 103,1962 },
+ { 104,1962 }, { 105,1962 }, { 106,1962 }, { 107,1962 }, { 108,1962 },
+ { 109,1962 }, { 110,5151 }, { 111,1962 }, { 112,1962 }, { 113,1962 },
+ { 114,1962 }, { 115,1962 }, { 116,1962 }, { 117,1962 }, { 118,1962 },
+ { 119,1962 }, { 120,1962 }, { 121,1962 }, { 122,1962 }, {   0,   0 },
+ { 124,1937 }, { 125,1937 }, { 126,1937 }, { 127,1962 }, { 128,1962 },
+ { 129,1962 }, { 130,1962 }, { 131,1962 }, { 132,1962 }, { 133,1962 },
+ { 134,1962 }, { 135,1962 }, { 136,1962 }, { 137,1962 }, { 138,1962 },
+ { 139,1962 }, { 140,1962 }, { 141,1962 }, { 142,1962 }, { 143,1962 },
+
+ { 144,1962 }, { 145,1962 }, { 146,1962 }, { 147,1962 }, { 148,1962 },
+ { 149,1962 }, { 150,1962 }, { 151,1962 }, { 152,1962 }, { 153,1962 },
+ { 154,1962 }, { 155,1962 }, { 156,1962 }, { 157,1962 }, { 158,1962 },
+ { 159,1962 }, { 160,1962 }, { 161,1962 }, { 162,1962 }, { 163,1962 },
+ { 164,1962 }, { 165,1962 }, { 166,1962 }, { 167,1962 }, { 168,1962 },
+ { 169,1962 }, { 170,1962 }, { 171,1962 }, { 172,1962 }, { 173,1962 },
+ { 174,1962 }, { 175,1962 }, { 176,1962 }, { 177,1962 }, { 178,1962 },
+ { 179,1962 }, { 180,1962 }, { 181,1962 }, { 182,1962 }, { 183,1962 },
+ { 184,1962 }, { 185,1962 }, { 186,1962 }, { 187,1962 }, { 188,1962 },
+ { 189,1962 }, { 190,1962 }, { 191,1962 }, { 192,1962 }, { 193,1962 },
+
+ { 194,1962 }, { 195,1962 }, { 196,1962 }, { 197,1962 }, { 198,1962 },
+ { 199,1962 }, { 200,1962 }, { 201,1962 }, { 202,1962 }, { 203,1962 },
+ { 204,1962 }, { 205,1962 }, { 206,1962 }, { 207,1962 }, { 208,1962 },
+ { 209,1962 }, { 210,1962 }, { 211,1962 }, { 212,1962 }, { 213,1962 },
+ { 214,1962 }, { 215,1962 }, { 216,1962 }, { 217,1962 }, { 218,1962 },
+ { 219,1962 }, { 220,1962 }, { 221,1962 }, { 222,1962 }, { 223,1962 },
+ { 224,1962 }, { 225,1962 }, { 226,1962 }, { 227,1962 }, { 228,1962 },
+ { 229,1962 }, { 230,1962 }, { 231,1962 }, { 232,1962 }, { 233,1962 },
+ { 234,1962 }, { 235,1962 }, { 236,1962 }, { 237,1962 }, { 238,1962 },
+ { 239,1962 }, { 240,1962 }, { 241,1962 }, { 242,1962 }, { 243,1962 },
+
+ { 244,1962 }, { 245,1962 }, { 246,1962 }, { 247,1962 }, { 248,1962 },
+ { 249,1962 }, { 250,1962 }, { 251,1962 }, { 252,1962 }, { 253,1962 },
+ { 254,1962 }, { 255,1962 }, { 256,1962 }, {   0,  14 }, {   0,16689 },
+ {   1,5284 }, {   2,5284 }, {   3,5284 }, {   4,5284 }, {   5,5284 },
+ {   6,5284 }, {   7,5284 }, {   8,5284 }, {   9,5284 }, {  10,5284 },
+ {  11,5284 }, {  12,5284 }, {  13,5284 }, {  14,5284 }, {  15,5284 },
+ {  16,5284 }, {  17,5284 }, {  18,5284 }, {  19,5284 }, {  20,5284 },
+ {  21,5284 }, {  22,5284 }, {  23,5284 }, {  24,5284 }, {  25,5284 },
+ {  26,5284 }, {  27,5284 }, {  28,5284 }, {  29,5284 }, {  30,5284 },
+ {  31,5284 }, {  32,5284 }, {  33,5284 }, {  34,5284 }, {  35,5284 },
+
+ {  36,5284 }, {  37,5284 }, {  38,5284 }, {  39,5284 }, {  40,5284 },
+ {  41,5284 }, {  42,5284 }, {  43,5284 }, {  44,5284 }, {  45,5542 },
+ {  46,5284 }, {  47,5284 }, {  48,5284 }, {  49,5284 }, {  50,5284 },
+ {  51,5284 }, {  52,5284 }, {  53,5284 }, {  54,5284 }, {  55,5284 },
+ {  56,5284 }, {  57,5284 }, {  58,5284 }, {  59,5284 }, {  60,5284 },
+ {  61,5284 }, {  62,5284 }, {  63,5284 }, {  64,5284 }, {  65,5284 },
+ {  66,5284 }, {  67,5284 }, {  68,5284 }, {  69,5284 }, {  70,5284 },
+ {  71,5284 }, {  72,5284 }, {  73,5284 }, {  74,5284 }, {  75,5284 },
+ {  76,5284 }, {  77,5284 }, {  78,5284 }, {  79,5284 }, {  80,5284 },
+ {  81,5284 }, {  82,5284 }, {  83,5284 }, {  84,5284 }, {  85,5284 },
+
+ {  86,5284 }, {  87,5284 }, {  88,5284 }, {  89,5284 }, {  90,5284 },
+ {  91,5284 }, {  92,5284 }, {  93,5284 }, {  94,5284 }, {  95,5284 },
+ {  96,5284 }, {  97,5284 }, {  98,5284 }, {  99,5284 }, { 100,5284 },
+ { 101,5284 }, { 102,5284 }, { 103,5284 }, { 104,5284 }, { 105,5284 },
+ { 106,5284 }, { 107,5284 }, { 108,5284 }, { 109,5284 }, { 110,5284 },
+ { 111,5284 }, { 112,5284 }, { 113,5284 }, { 114,5284 }, { 115,5284 },
+ { 116,5284 }, { 117,5284 }, { 118,5284 }, { 119,5284 }, { 120,5284 },
+ { 121,5284 }, { 122,5284 }, { 123,5284 }, { 124,5284 }, { 125,5284 },
+ { 126,5284 }, { 127,5284 }, { 128,5284 }, { 129,5284 }, { 130,5284 },
+ { 131,5284 }, { 132,5284 }, { 133,5284 }, { 134,5284 }, { 135,5284 },
+
+ { 136,5284 }, { 137,5284 }, { 138,5284 }, { 139,5284 }, { 140,5284 },
+ { 141,5284 }, { 142,5284 }, { 143,5284 }, { 144,5284 }, { 145,5284 },
+ { 146,5284 }, { 147,5284 }, { 148,5284 }, { 149,5284 }, { 150,5284 },
+ { 151,5284 }, { 152,5284 }, { 153,5284 }, { 154,5284 }, { 155,5284 },
+ { 156,5284 }, { 157,5284 }, { 158,5284 }, { 159,5284 }, { 160,5284 },
+ { 161,5284 }, { 162,5284 }, { 163,5284 }, { 164,5284 }, { 165,5284 },
+ { 166,5284 }, { 167,5284 }, { 168,5284 }, { 169,5284 }, { 170,5284 },
+ { 171,5284 }, { 172,5284 }, { 173,5284 }, { 174,5284 }, { 175,5284 },
+ { 176,5284 }, { 177,5284 }, { 178,5284 }, { 179,5284 }, { 180,5284 },
+ { 181,5284 }, { 182,5284 }, { 183,5284 }, { 184,5284 }, { 185,5284 },
+
+ { 186,5284 }, { 187,5284 }, { 188,5284 }, { 189,5284 }, { 190,5284 },
+ { 191,5284 }, { 192,5284 }, { 193,5284 }, { 194,5284 }, { 195,5284 },
+ { 196,5284 }, { 197,5284 }, { 198,5284 }, { 199,5284 }, { 200,5284 },
+ { 201,5284 }, { 202,5284 }, { 203,5284 }, { 204,5284 }, { 205,5284 },
+ { 206,5284 }, { 207,5284 }, { 208,5284 }, { 209,5284 }, { 210,5284 },
+ { 211,5284 }, { 212,5284 }, { 213,5284 }, { 214,5284 }, { 215,5284 },
+ { 216,5284 }, { 217,5284 }, { 218,5284 }, { 219,5284 }, { 220,5284 },
+ { 221,5284 }, { 222,5284 }, { 223,5284 }, { 224,5284 }, { 225,5284 },
+ { 226,5284 }, { 227,5284 }, { 228,5284 }, { 229,5284 }, { 230,5284 },
+ { 231,5284 }, { 232,5284 }, { 233,5284 }, { 234,5284 }, { 235,5284 },
+
+ { 236,5284 }, { 237,5284 }, { 238,5284 }, { 239,5284 }, { 240,5284 },
+ { 241,5284 }, { 242,5284 }, { 243,5284 }, { 244,5284 }, { 245,5284 },
+ { 246,5284 }, { 247,5284 }, { 248,5284 }, { 249,5284 }, { 250,5284 },
+ { 251,5284 }, { 252,5284 }, { 253,5284 }, { 254,5284 }, { 255,5284 },
+ { 256,5284 }, {   0,  14 }, {   0,16431 }, {   1,5026 }, {   2,5026 },
+ {   3,5026 }, {   4,5026 }, {   5,5026 }, {   6,5026 }, {   7,5026 },
+ {   8,5026 }, {   9,5026 }, {  10,5026 }, {  11,5026 }, {  12,5026 },
+ {  13,5026 }, {  14,5026 }, {  15,5026 }, {  16,5026 }, {  17,5026 },
+ {  18,5026 }, {  19,5026 }, {  20,5026 }, {  21,5026 }, {  22,5026 },
+ {  23,5026 }, {  24,5026 }, {  25,5026 }, {  26,5026 }, {  27,5026 },
+
+ {  28,5026 }, {  29,5026 }, {  30,5026 }, {  31,5026 }, {  32,5026 },
+ {  33,5026 }, {  34,5026 }, {  35,5026 }, {  36,5026 }, {  37,5026 },
+ {  38,5026 }, {  39,5026 }, {  40,5026 }, {  41,5026 }, {  42,5026 },
+ {  43,5026 }, {  44,5026 }, {  45,5542 }, {  46,5026 }, {  47,5026 },
+ {  48,5026 }, {  49,5026 }, {  50,5026 }, {  51,5026 }, {  52,5026 },
+ {  53,5026 }, {  54,5026 }, {  55,5026 }, {  56,5026 }, {  57,5026 },
+ {  58,5026 }, {  59,5026 }, {  60,5026 }, {  61,5026 }, {  62,5026 },
+ {  63,5026 }, {  64,5026 }, {  65,5026 }, {  66,5026 }, {  67,5026 },
+ {  68,5026 }, {  69,5026 }, {  70,5026 }, {  71,5026 }, {  72,5026 },
+ {  73,5026 }, {  74,5026 }, {  75,5026 }, {  76,5026 }, {  77,5026 },
+
+ {  78,5026 }, {  79,5026 }, {  80,5026 }, {  81,5026 }, {  82,5026 },
+ {  83,5026 }, {  84,5026 }, {  85,5026 }, {  86,5026 }, {  87,5026 },
+ {  88,5026 }, {  89,5026 }, {  90,5026 }, {  91,5026 }, {  92,5026 },
+ {  93,5026 }, {  94,5026 }, {  95,5026 }, {  96,5026 }, {  97,5026 },
+ {  98,5026 }, {  99,5026 }, { 100,5026 }, { 101,5026 }, { 102,5026 },
+ { 103,5026 }, { 104,5026 }, { 105,5026 }, { 106,5026 }, { 107,5026 },
+ { 108,5026 }, { 109,5026 }, { 110,5026 }, { 111,5026 }, { 112,5026 },
+ { 113,5026 }, { 114,5026 }, { 115,5026 }, { 116,5026 }, { 117,5026 },
+ { 118,5026 }, { 119,5026 }, { 120,5026 }, { 121,5026 }, { 122,5026 },
+ { 123,5026 }, { 124,5026 }, { 125,5026 }, { 126,5026 }, { 127,5026 },
+
+ { 128,5026 }, { 129,5026 }, { 130,5026 }, { 131,5026 }, { 132,5026 },
+ { 133,5026 }, { 134,5026 }, { 135,5026 }, { 136,5026 }, { 137,5026 },
+ { 138,5026 }, { 139,5026 }, { 140,5026 }, { 141,5026 }, { 142,5026 },
+ { 143,5026 }, { 144,5026 }, { 145,5026 }, { 146,5026 }, { 147,5026 },
+ { 148,5026 }, { 149,5026 }, { 150,5026 }, { 151,5026 }, { 152,5026 },
+ { 153,5026 }, { 154,5026 }, { 155,5026 }, { 156,5026 }, { 157,5026 },
+ { 158,5026 }, { 159,5026 }, { 160,5026 }, { 161,5026 }, { 162,5026 },
+ { 163,5026 }, { 164,5026 }, { 165,5026 }, { 166,5026 }, { 167,5026 },
+ { 168,5026 }, { 169,5026 }, { 170,5026 }, { 171,5026 }, { 172,5026 },
+ { 173,5026 }, { 174,5026 }, { 175,5026 }, { 176,5026 }, { 177,5026 },
+
+ { 178,5026 }, { 179,5026 }, { 180,5026 }, { 181,5026 }, { 182,5026 },
+ { 183,5026 }, { 184,5026 }, { 185,5026 }, { 186,5026 }, { 187,5026 },
+ { 188,5026 }, { 189,5026 }, { 190,5026 }, { 191,5026 }, { 192,5026 },
+ { 193,5026 }, { 194,5026 }, { 195,5026 }, { 196,5026 }, { 197,5026 },
+ { 198,5026 }, { 199,5026 }, { 200,5026 }, { 201,5026 }, { 202,5026 },
+ { 203,5026 }, { 204,5026 }, { 205,5026 }, { 206,5026 }, { 207,5026 },
+ { 208,5026 }, { 209,5026 }, { 210,5026 }, { 211,5026 }, { 212,5026 },
+ { 213,5026 }, { 214,5026 }, { 215,5026 }, { 216,5026 }, { 217,5026 },
+ { 218,5026 }, { 219,5026 }, { 220,5026 }, { 221,5026 }, { 222,5026 },
+ { 223,5026 }, { 224,5026 }, { 225,5026 }, { 226,5026 }, { 227,5026 },
+
+ { 228,5026 }, { 229,5026 }, { 230,5026 }, { 231,5026 }, { 232,5026 },
+ { 233,5026 }, { 234,5026 }, { 235,5026 }, { 236,5026 }, { 237,5026 },
+ { 238,5026 }, { 239,5026 }, { 240,5026 }, { 241,5026 }, { 242,5026 },
+ { 243,5026 }, { 244,5026 }, { 245,5026 }, { 246,5026 }, { 247,5026 },
+ { 248,5026 }, { 249,5026 }, { 250,5026 }, { 251,5026 }, { 252,5026 },
+ { 253,5026 }, { 254,5026 }, { 255,5026 }, { 256,5026 }, {   0,  14 },
+ {   0,16173 }, {   1,5542 }, {   2,5542 }, {   3,5542 }, {   4,5542 },
+ {   5,5542 }, {   6,5542 }, {   7,5542 }, {   8,5542 }, {   9,5542 },
+ {  10,5542 }, {  11,5542 }, {  12,5542 }, {  13,5542 }, {  14,5542 },
+ {  15,5542 }, {  16,5542 }, {  17,5542 }, {  18,5542 }, {  19,5542 },
+
+ {  20,5542 }, {  21,5542 }, {  22,5542 }, {  23,5542 }, {  24,5542 },
+ {  25,5542 }, {  26,5542 }, {  27,5542 }, {  28,5542 }, {  29,5542 },
+ {  30,5542 }, {  31,5542 }, {  32,5542 }, {  33,5542 }, {  34,5542 },
+ {  35,5542 }, {  36,5542 }, {  37,5542 }, {  38,5542 }, {  39,5542 },
+ {  40,5542 }, {  41,5542 }, {  42,5542 }, {  43,5542 }, {  44,5542 },
+ {  45,5542 }, {  46,5542 }, {  47,5542 }, {  48,5542 }, {  49,5542 },
+ {  50,5542 }, {  51,5542 }, {  52,5542 }, {  53,5542 }, {  54,5542 },
+ {  55,5542 }, {  56,5542 }, {  57,5542 }, {  58,5542 }, {  59,5542 },
+ {  60,5542 }, {  61,5542 }, {  62,5542 }, {  63,5542 }, {  64,5542 },
+ {  65,5542 }, {  66,5542 }, {  67,5542 }, {  68,5542 }, {  69,5542 },
+
+ {  70,5542 }, {  71,5542 }, {  72,5542 }, {  73,5542 }, {  74,5542 },
+ {  75,5542 }, {  76,5542 }, {  77,5542 }, {  78,5542 }, {  79,5542 },
+ {  80,5542 }, {  81,5542 }, {  82,5542 }, {  83,5542 }, {  84,5542 },
+ {  85,5542 }, {  86,5542 }, {  87,5542 }, {  88,5542 }, {  89,5542 },
+ {  90,5542 }, {  91,5542 }, {  92,5542 }, {  93,5542 }, {  94,5542 },
+ {  95,5542 }, {  96,5542 }, {  97,5542 }, {  98,5542 }, {  99,5542 },
+ { 100,5542 }, { 101,5542 }, { 102,5542 }, { 103,5542 }, { 104,5542 },
+ { 105,5542 }, { 106,5542 }, { 107,5542 }, { 108,5542 }, { 109,5542 },
+ { 110,5542 }, { 111,5542 }, { 112,5542 }, { 113,5542 }, { 114,5542 },
+ { 115,5542 }, { 116,5542 }, { 117,5542 }, { 118,5542 }, { 119,5542 },
+
+ { 120,5542 }, { 121,5542 }, { 122,5542 }, { 123,5542 }, { 124,5542 },
+ { 125,5800 }, { 126,5542 }, { 127,5542 }, { 128,5542 }, { 129,5542 },
+ { 130,5542 }, { 131,5542 }, { 132,5542 }, { 133,5542 }, { 134,5542 },
+ { 135,5542 }, { 136,5542 }, { 137,5542 }, { 138,5542 }, { 139,5542 },
+ { 140,5542 }, { 141,5542 }, { 142,5542 }, { 143,5542 }, { 144,5542 },
+ { 145,5542 }, { 146,5542 }, { 147,5542 }, { 148,5542 }, { 149,5542 },
+ { 150,5542 }, { 151,5542 }, { 152,5542 }, { 153,5542 }, { 154,5542 },
+ { 155,5542 }, { 156,5542 }, { 157,5542 }, { 158,5542 }, { 159,5542 },
+ { 160,5542 }, { 161,5542 }, { 162,5542 }, { 163,5542 }, { 164,5542 },
+ { 165,5542 }, { 166,5542 }, { 167,5542 }, { 168,5542 }, { 169,5542 },
+
+ { 170,5542 }, { 171,5542 }, { 172,5542 }, { 173,5542 }, { 174,5542 },
+ { 175,5542 }, { 176,5542 }, { 177,5542 }, { 178,5542 }, { 179,5542 },
+ { 180,5542 }, { 181,5542 }, { 182,5542 }, { 183,5542 }, { 184,5542 },
+ { 185,5542 }, { 186,5542 }, { 187,5542 }, { 188,5542 }, { 189,5542 },
+ { 190,5542 }, { 191,5542 }, { 192,5542 }, { 193,5542 }, { 194,5542 },
+ { 195,5542 }, { 196,5542 }, { 197,5542 }, { 198,5542 }, { 199,5542 },
+ { 200,5542 }, { 201,5542 }, { 202,5542 }, { 203,5542 }, { 204,5542 },
+ { 205,5542 }, { 206,5542 }, { 207,5542 }, { 208,5542 }, { 209,5542 },
+ { 210,5542 }, { 211,5542 }, { 212,5542 }, { 213,5542 }, { 214,5542 },
+ { 215,5542 }, { 216,5542 }, { 217,5542 }, { 218,5542 }, { 219,5542 },
+
+ { 220,5542 }, { 221,5542 }, { 222,5542 }, { 223,5542 }, { 224,5542 },
+ { 225,5542 }, { 226,5542 }, { 227,5542 }, { 228,5542 }, { 229,5542 },
+ { 230,5542 }, { 231,5542 }, { 232,5542 }, { 233,5542 }, { 234,5542 },
+ { 235,5542 }, { 236,5542 }, { 237,5542 }, { 238,5542 }, { 239,5542 },
+ { 240,5542 }, { 241,5542 }, { 242,5542 }, { 243,5542 }, { 244,5542 },
+ { 245,5542 }, { 246,5542 }, { 247,5542 }, { 248,5542 }, { 249,5542 },
+ { 250,5542 }, { 251,5542 }, { 252,5542 }, { 253,5542 }, { 254,5542 },
+ { 255,5542 }, { 256,5542 }, {   0,  14 }, {   0,15915 }, {   1,5284 },
+ {   2,5284 }, {   3,5284 }, {   4,5284 }, {   5,5284 }, {   6,5284 },
+ {   7,5284 }, {   8,5284 }, {   9,5284 }, {  10,5284 }, {  11,5284 },
+
+ {  12,5284 }, {  13,5284 }, {  14,5284 }, {  15,5284 }, {  16,5284 },
+ {  17,5284 }, {  18,5284 }, {  19,5284 }, {  20,5284 }, {  21,5284 },
+ {  22,5284 }, {  23,5284 }, {  24,5284 }, {  25,5284 }, {  26,5284 },
+ {  27,5284 }, {  28,5284 }, {  29,5284 }, {  30,5284 }, {  31,5284 },
+ {  32,5284 }, {  33,5284 }, {  34,5284 }, {  35,5284 }, {  36,5284 },
+ {  37,5284 }, {  38,5284 }, {  39,5284 }, {  40,5284 }, {  41,5284 },
+ {  42,5284 }, {  43,5284 }, {  44,5284 }, {  45,5284 }, {  46,5284 },
+ {  47,5284 }, {  48,5284 }, {  49,5284 }, {  50,5284 }, {  51,5284 },
+ {  52,5284 }, {  53,5284 }, {  54,5284 }, {  55,5284 }, {  56,5284 },
+ {  57,5284 }, {  58,5284 }, {  59,5284 }, {  60,5284 }, {  61,5284 },
+
+ {  62,5284 }, {  63,5284 }, {  64,5284 }, {  65,5284 }, {  66,5284 },
+ {  67,5284 }, {  68,5284 }, {  69,5284 }, {  70,5284 }, {  71,5284 },
+ {  72,5284 }, {  73,5284 }, {  74,5284 }, {  75,5284 }, {  76,5284 },
+ {  77,5284 }, {  78,5284 }, {  79,5284 }, {  80,5284 }, {  81,5284 },
+ {  82,5284 }, {  83,5284 }, {  84,5284 }, {  85,5284 }, {  86,5284 },
+ {  87,5284 }, {  88,5284 }, {  89,5284 }, {  90,5284 }, {  91,5284 },
+ {  92,5284 }, {  93,5284 }, {  94,5284 }, {  95,5284 }, {  96,5284 },
+ {  97,5284 }, {  98,5284 }, {  99,5284 }, { 100,5284 }, { 101,5284 },
+ { 102,5284 }, { 103,5284 }, { 104,5284 }, { 105,5284 }, { 106,5284 },
+ { 107,5284 }, { 108,5284 }, { 109,5284 }, { 110,5284 }, { 111,5284 },
+
+ { 112,5284 }, { 113,5284 }, { 114,5284 }, { 115,5284 }, { 116,5284 },
+ { 117,5284 }, { 118,5284 }, { 119,5284 }, { 120,5284 }, { 121,5284 },
+ { 122,5284 }, { 123,5284 }, { 124,5284 }, { 125,4385 }, { 126,5284 },
+ { 127,5284 }, { 128,5284 }, { 129,5284 }, { 130,5284 }, { 131,5284 },
+ { 132,5284 }, { 133,5284 }, { 134,5284 }, { 135,5284 }, { 136,5284 },
+ { 137,5284 }, { 138,5284 }, { 139,5284 }, { 140,5284 }, { 141,5284 },
+ { 142,5284 }, { 143,5284 }, { 144,5284 }, { 145,5284 }, { 146,5284 },
+ { 147,5284 }, { 148,5284 }, { 149,5284 }, { 150,5284 }, { 151,5284 },
+ { 152,5284 }, { 153,5284 }, { 154,5284 }, { 155,5284 }, { 156,5284 },
+ { 157,5284 }, { 158,5284 }, { 159,5284 }, { 160,5284 }, { 161,5284 },
+
+ { 162,5284 }, { 163,5284 }, { 164,5284 }, { 165,5284 }, { 166,5284 },
+ { 167,5284 }, { 168,5284 }, { 169,5284 }, { 170,5284 }, { 171,5284 },
+ { 172,5284 }, { 173,5284 }, { 174,5284 }, { 175,5284 }, { 176,5284 },
+ { 177,5284 }, { 178,5284 }, { 179,5284 }, { 180,5284 }, { 181,5284 },
+ { 182,5284 }, { 183,5284 }, { 184,5284 }, { 185,5284 }, { 186,5284 },
+ { 187,5284 }, { 188,5284 }, { 189,5284 }, { 190,5284 }, { 191,5284 },
+ { 192,5284 }, { 193,5284 }, { 194,5284 }, { 195,5284 }, { 196,5284 },
+ { 197,5284 }, { 198,5284 }, { 199,5284 }, { 200,5284 }, { 201,5284 },
+ { 202,5284 }, { 203,5284 }, { 204,5284 }, { 205,5284 }, { 206,5284 },
+ { 207,5284 }, { 208,5284 }, { 209,5284 }, { 210,5284 }, { 211,5284 },
+
+ { 212,5284 }, { 213,5284 }, { 214,5284 }, { 215,5284 }, { 216,5284 },
+ { 217,5284 }, { 218,5284 }, { 219,5284 }, { 220,5284 }, { 221,5284 },
+ { 222,5284 }, { 223,5284 }, { 224,5284 }, { 225,5284 }, { 226,5284 },
+ { 227,5284 }, { 228,5284 }, { 229,5284 }, { 230,5284 }, { 231,5284 },
+ { 232,5284 }, { 233,5284 }, { 234,5284 }, { 235,5284 }, { 236,5284 },
+ { 237,5284 }, { 238,5284 }, { 239,5284 }, { 240,5284 }, { 241,5284 },
+ { 242,5284 }, { 243,5284 }, { 244,5284 }, { 245,5284 }, { 246,5284 },
+ { 247,5284 }, { 248,5284 }, { 249,5284 }, { 250,5284 }, { 251,5284 },
+ { 252,5284 }, { 253,5284 }, { 254,5284 }, { 255,5284 }, { 256,5284 },
+ {   0,  10 }, {   0,15657 }, {   1,5542 }, {   2,5542 }, {   3,5542 },
+
+ {   4,5542 }, {   5,5542 }, {   6,5542 }, {   7,5542 }, {   8,5542 },
+ {   9,5542 }, {  10,5542 }, {  11,5542 }, {  12,5542 }, {  13,5542 },
+ {  14,5542 }, {  15,5542 }, {  16,5542 }, {  17,5542 }, {  18,5542 },
+ {  19,5542 }, {  20,5542 }, {  21,5542 }, {  22,5542 }, {  23,5542 },
+ {  24,5542 }, {  25,5542 }, {  26,5542 }, {  27,5542 }, {  28,5542 },
+ {  29,5542 }, {  30,5542 }, {  31,5542 }, {  32,5542 }, {  33,5542 },
+ {  34,5542 }, {  35,5542 }, {  36,5542 }, {  37,5542 }, {  38,5542 },
+ {  39,5542 }, {  40,5542 }, {  41,5542 }, {  42,5542 }, {  43,5542 },
+ {  44,5542 }, {  45,5542 }, {  46,5542 }, {  47,5542 }, {  48,5542 },
+ {  49,5542 }, {  50,5542 }, {  51,5542 }, {  52,5542 }, {  53,5542 },
+
+ {  54,5542 }, {  55,5542 }, {  56,5542 }, {  57,5542 }, {  58,5542 },
+ {  59,5542 }, {  60,5542 }, {  61,5542 }, {  62,5542 }, {  63,5542 },
+ {  64,5542 }, {  65,5542 }, {  66,5542 }, {  67,5542 }, {  68,5542 },
+ {  69,5542 }, {  70,5542 }, {  71,5542 }, {  72,5542 }, {  73,5542 },
+ {  74,5542 }, {  75,5542 }, {  76,5542 }, {  77,5542 }, {  78,5542 },
+ {  79,5542 }, {  80,5542 }, {  81,5542 }, {  82,5542 }, {  83,5542 },
+ {  84,5542 }, {  85,5542 }, {  86,5542 }, {  87,5542 }, {  88,5542 },
+ {  89,5542 }, {  90,5542 }, {  91,5542 }, {  92,5542 }, {  93,5542 },
+ {  94,5542 }, {  95,5542 }, {  96,5542 }, {  97,5542 }, {  98,5542 },
+ {  99,5542 }, { 100,5542 }, { 101,5542 }, { 102,5542 }, { 103,5542 },
+
+ { 104,5542 }, { 105,5542 }, { 106,5542 }, { 107,5542 }, { 108,5542 },
+ { 109,5542 }, { 110,5542 }, { 111,5542 }, { 112,5542 }, { 113,5542 },
+ { 114,5542 }, { 115,5542 }, { 116,5542 }, { 117,5542 }, { 118,5542 },
+ { 119,5542 }, { 120,5542 }, { 121,5542 }, { 122,5542 }, {   0,   0 },
+ { 124,5542 }, { 125,5542 }, { 126,5542 }, { 127,5542 }, { 128,5542 },
+ { 129,5542 }, { 130,5542 }, { 131,5542 }, { 132,5542 }, { 133,5542 },
+ { 134,5542 }, { 135,5542 }, { 136,5542 }, { 137,5542 }, { 138,5542 },
+ { 139,5542 }, { 140,5542 }, { 141,5542 }, { 142,5542 }, { 143,5542 },
+ { 144,5542 }, { 145,5542 }, { 146,5542 }, { 147,5542 }, { 148,5542 },
+ { 149,5542 }, { 150,5542 }, { 151,5542 }, { 152,5542 }, { 153,5542 },
+
+ { 154,5542 }, { 155,5542 }, { 156,5542 }, { 157,5542 }, { 158,5542 },
+ { 159,5542 }, { 160,5542 }, { 161,5542 }, { 162,5542 }, { 163,5542 },
+ { 164,5542 }, { 165,5542 }, { 166,5542 }, { 167,5542 }, { 168,5542 },
+ { 169,5542 }, { 170,5542 }, { 171,5542 }, { 172,5542 }, { 173,5542 },
+ { 174,5542 }, { 175,5542 }, { 176,5542 }, { 177,5542 }, { 178,5542 },
+ { 179,5542 }, { 180,5542 }, { 181,5542 }, { 182,5542 }, { 183,5542 },
+ { 184,5542 }, { 185,5542 }, { 186,5542 }, { 187,5542 }, { 188,5542 },
+ { 189,5542 }, { 190,5542 }, { 191,5542 }, { 192,5542 }, { 193,5542 },
+ { 194,5542 }, { 195,5542 }, { 196,5542 }, { 197,5542 }, { 198,5542 },
+ { 199,5542 }, { 200,5542 }, { 201,5542 }, { 202,5542 }, { 203,5542 },
+
+ { 204,5542 }, { 205,5542 }, { 206,5542 }, { 207,5542 }, { 208,5542 },
+ { 209,5542 }, { 210,5542 }, { 211,5542 }, { 212,5542 }, { 213,5542 },
+ { 214,5542 }, { 215,5542 }, { 216,5542 }, { 217,5542 }, { 218,5542 },
+ { 219,5542 }, { 220,5542 }, { 221,5542 }, { 222,5542 }, { 223,5542 },
+ { 224,5542 }, { 225,5542 }, { 226,5542 }, { 227,5542 }, { 228,5542 },
+ { 229,5542 }, { 230,5542 }, { 231,5542 }, { 232,5542 }, { 233,5542 },
+ { 234,5542 }, { 235,5542 }, { 236,5542 }, { 237,5542 }, { 238,5542 },
+ { 239,5542 }, { 240,5542 }, { 241,5542 }, { 242,5542 }, { 243,5542 },
+ { 244,5542 }, { 245,5542 }, { 246,5542 }, { 247,5542 }, { 248,5542 },
+ { 249,5542 }, { 250,5542 }, { 251,5542 }, { 252,5542 }, { 253,5542 },
 
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, {   0,   2 }, {   0,14946 }, {   0,   0 },
- {   0,14944 }, {   0,   0 }, {   0,14942 }, {   0,   0 }, {   0,14940 },
- {   0,   5 }, {   0,14938 }, {   0,   0 }, {  10,   0 }, {   0,  49 },
- {   0,14934 }, {  13,   0 }, {   0,  36 }, {   0,14931 }, {   0,  39 },
- {   0,14929 }, {   0,  40 }, {   0,14927 }, {   0,  34 }, {   0,14925 },
- {   0,  33 }, {   0,14923 }, {   9,   0 }, {  10,   0 }, {   0,  48 },
- {   0,14919 }, {  13,   0 }, {   0,  50 }, {   0,14916 }, {   0,   0 },
+ { 254,5542 }, { 255,5542 }, { 256,5542 }, {   0,  11 }, {   0,15399 },
+ {   0,   2 }, {   0,15397 }, {   0,   0 }, {   0,15395 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  38 }, {   0,14905 },
-
- {   0,   0 }, {   0,14903 }, {   0,   0 }, {   0,14901 }, {   0,   0 },
- {  32,   0 }, {   0,  13 }, {   0,14897 }, {   0,   0 }, {   0,   0 },
- {   0,14894 }, {   0,   0 }, {   0,14892 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,14877 }, {   0,   5 }, {   0,14875 },
- {   0,  49 }, {   0,14873 }, {   0,  30 }, {   0,14871 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {  92,   2 }, {   0,   0 }, {  92,  52 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,8527 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 123,  65 }, {   0,   0 }, { 123,5215 }, {   0,   0 }, { 123,  63 },
- {   0,   0 }, {   0,14813 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
-
- {   9,-121 }, {  10,-121 }, {  11,   0 }, {  12,   0 }, {  13,-121 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,-121 }, { 125,7383 },
- {   0,   0 }, { 125,7386 }, {  36,   0 }, { 125,7386 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-121 }, { 123,8536 }, {   0,   0 },
- { 123,8536 }, {  45,   0 }, {  46,-121 }, {  47,-121 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
-
- { 123,8523 }, {   0,   0 }, {  61,-121 }, {   0,   0 }, {  63,   0 },
- { 124,8525 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
-
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
- { 124,-121 }, { 125,-121 }, { 126,-121 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
-
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
-
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14555 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,   2 }, {   0,   0 },
 
+ {  92,5540 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 123,5542 }, {   0,   2 }, {   0,15274 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
- {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
+ {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 },
+ {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 },
  {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
+
  {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
  {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,-374 }, {  35,   0 },
+ {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
  {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
  {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
  {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
-
  {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
  {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
  {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
  {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
+
  {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
  {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
  {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
  {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
+ {  91,   0 }, {  92,-121 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
  {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
-
  { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
  { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
  { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
  { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 },
+
+ { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 },
  { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
  { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
  { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
  { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
  { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
-
  { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
  { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
  { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
  { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
+
  { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
  { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
  { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
  { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
  { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
  { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
-
  { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
  { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
  { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
  { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
+
  { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
  { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
  { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
  { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
-
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,14297 }, {   1,-258 }, {   2,-258 },
- {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
- {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
- {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
- {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
- {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
- {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
- {  33,-258 }, {  34,4829 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
- {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,15016 }, {   0,   0 }, {   0,15014 },
+ {   0,   5 }, {   0,15012 }, {   0,  49 }, {   0,15010 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
- {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
- {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
- {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
- {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
- {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
- {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
- {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
- {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
- {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,14985 }, {   1,   0 },
+ {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
+ {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
+ {  12,   0 }, {  13, -25 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
+ {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
+ {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
+ {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
 
- {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
- {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
- { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
- { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
- { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
- { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
- { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
- { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
- { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
- { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
+ {  32, -25 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, -25 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {  46, -25 },
+ {  47, -25 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
+ {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
+ {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {  61, -25 },
+ {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
+ {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
+ {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
+ {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
 
- { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
- { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
- { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
- { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
- { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
- { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
- { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
- { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
- { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
- { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
+ {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
+ {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
+ { 123,5163 }, {   0,   0 }, { 123,5286 }, {  95,   0 }, { 123,5161 },
+ {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
+ { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
+ { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
+ { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
+ { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
+ { 122,   0 }, {   0,   0 }, { 124, -25 }, { 125, -25 }, { 126, -25 },
+ { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
 
- { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
- { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
- { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
- { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
- { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
- { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
- { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
- { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
- { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
- { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
+ { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
+ { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
+ { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
+ { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
+ { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
+ { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
+ { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+ { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
+ { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
+ { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
 
- { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
- { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
- { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,14039 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
+ { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
+ { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
+ { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
+ { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
+ { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
+ { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+ { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
+ { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
+ { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
+
+ { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
+ { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
+ { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
+ { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
+ { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
+ {   0,  36 }, {   0,14727 }, {   0,  39 }, {   0,14725 }, {   0,  40 },
+ {   0,14723 }, {   0,  34 }, {   0,14721 }, {   0,  33 }, {   0,14719 },
+ {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,14715 }, {  13,   0 },
+ {   0,  50 }, {   0,14712 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
+ {   0,14693 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
  {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
  {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
+ {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34, -32 },
+ {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
 
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,-888 },
  {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
  {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
  {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
@@ -2624,8 +2524,8 @@ static const struct yy_trans_info yy_transition[23409] =
  {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
  {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
  {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
-
  {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
+
  {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 },
  {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
  { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
@@ -2635,8 +2535,8 @@ static const struct yy_trans_info yy_transition[23409] =
  { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
  { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
  { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
-
  { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
+
  { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
  { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
  { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
@@ -2646,8 +2546,8 @@ static const struct yy_trans_info yy_transition[23409] =
  { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
  { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
  { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
-
  { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
+
  { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
  { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
  { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
@@ -2657,21 +2557,21 @@ static const struct yy_trans_info yy_transition[23409] =
  { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
  { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
  { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
-
  { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
+
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,13781 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14435 }, {   1,-258 },
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
  {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
  {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
  {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
-
  {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
- {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 },
- {  37,-258 }, {  38,-258 }, {  39,4571 }, {  40,-258 }, {  41,-258 },
+
+ {  32,-258 }, {  33,-258 }, {  34,4965 }, {  35,-258 }, {  36,-258 },
+ {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
  {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 },
  {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
  {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
@@ -2679,8 +2579,8 @@ static const struct yy_trans_info yy_transition[23409] =
  {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
  {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
  {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
-
  {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
+
  {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
  {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
  {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
@@ -2690,8 +2590,8 @@ static const struct yy_trans_info yy_transition[23409] =
  { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
  { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
  { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
-
  { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
+
  { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
  { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
  { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
@@ -2701,8 +2601,8 @@ static const struct yy_trans_info yy_transition[23409] =
  { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
  { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
  { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
-
  { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
+
  { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
  { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
  { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
@@ -2712,83 +2612,623 @@ static const struct yy_trans_info yy_transition[23409] =
  { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
  { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
  { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
-
  { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
+
  { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
  { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
  { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,13523 }, {   1,-1290 }, {   2,-1290 }, {   3,-1290 },
- {   4,-1290 }, {   5,-1290 }, {   6,-1290 }, {   7,-1290 }, {   8,-1290 },
- {   9,-1396 }, {  10,-1396 }, {  11,-1290 }, {  12,-1290 }, {  13,-1396 },
- {  14,-1290 }, {  15,-1290 }, {  16,-1290 }, {  17,-1290 }, {  18,-1290 },
-
- {  19,-1290 }, {  20,-1290 }, {  21,-1290 }, {  22,-1290 }, {  23,-1290 },
- {  24,-1290 }, {  25,-1290 }, {  26,-1290 }, {  27,-1290 }, {  28,-1290 },
- {  29,-1290 }, {  30,-1290 }, {  31,-1290 }, {  32,-1396 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-1290 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-1396 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-1290 }, {  46, 258 }, {  47,-1411 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,-1290 },
- {   0,   0 }, {   0,   0 }, {  61,-1411 }, {   0,   0 }, {  63,-1290 },
- {   0,   0 }, {  65,-1290 }, {  66,-1290 }, {  67,-1290 }, {  68,-1290 },
-
- {  69,-1290 }, {  70,-1290 }, {  71,-1290 }, {  72,-1290 }, {  73,-1290 },
- {  74,-1290 }, {  75,-1290 }, {  76,-1290 }, {  77,-1290 }, {  78,-1290 },
- {  79,-1290 }, {  80,-1290 }, {  81,-1290 }, {  82,-1290 }, {  83,-1290 },
- {  84,-1290 }, {  85,-1290 }, {  86,-1290 }, {  87,-1290 }, {  88,-1290 },
- {  89,-1290 }, {  90,-1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-1290 }, {   0,   0 }, {  97,-1290 }, {  98,-1290 },
- {  99,-1290 }, { 100,-1290 }, { 101,-1290 }, { 102,-1290 }, { 103,-1290 },
- { 104,-1290 }, { 105,-1290 }, { 106,-1290 }, { 107,-1290 }, { 108,-1290 },
- { 109,-1290 }, { 110,-1290 }, { 111,-1290 }, { 112,-1290 }, { 113,-1290 },
- { 114,-1290 }, { 115,-1290 }, { 116,-1290 }, { 117,-1290 }, { 118,-1290 },
-
- { 119,-1290 }, { 120,-1290 }, { 121,-1290 }, { 122,-1290 }, {   0,   0 },
- { 124,-1411 }, { 125,-1396 }, { 126,-1396 }, { 127,-1290 }, { 128,-1290 },
- { 129,-1290 }, { 130,-1290 }, { 131,-1290 }, { 132,-1290 }, { 133,-1290 },
- { 134,-1290 }, { 135,-1290 }, { 136,-1290 }, { 137,-1290 }, { 138,-1290 },
- { 139,-1290 }, { 140,-1290 }, { 141,-1290 }, { 142,-1290 }, { 143,-1290 },
- { 144,-1290 }, { 145,-1290 }, { 146,-1290 }, { 147,-1290 }, { 148,-1290 },
- { 149,-1290 }, { 150,-1290 }, { 151,-1290 }, { 152,-1290 }, { 153,-1290 },
- { 154,-1290 }, { 155,-1290 }, { 156,-1290 }, { 157,-1290 }, { 158,-1290 },
- { 159,-1290 }, { 160,-1290 }, { 161,-1290 }, { 162,-1290 }, { 163,-1290 },
- { 164,-1290 }, { 165,-1290 }, { 166,-1290 }, { 167,-1290 }, { 168,-1290 },
-
- { 169,-1290 }, { 170,-1290 }, { 171,-1290 }, { 172,-1290 }, { 173,-1290 },
- { 174,-1290 }, { 175,-1290 }, { 176,-1290 }, { 177,-1290 }, { 178,-1290 },
- { 179,-1290 }, { 180,-1290 }, { 181,-1290 }, { 182,-1290 }, { 183,-1290 },
- { 184,-1290 }, { 185,-1290 }, { 186,-1290 }, { 187,-1290 }, { 188,-1290 },
- { 189,-1290 }, { 190,-1290 }, { 191,-1290 }, { 192,-1290 }, { 193,-1290 },
- { 194,-1290 }, { 195,-1290 }, { 196,-1290 }, { 197,-1290 }, { 198,-1290 },
- { 199,-1290 }, { 200,-1290 }, { 201,-1290 }, { 202,-1290 }, { 203,-1290 },
- { 204,-1290 }, { 205,-1290 }, { 206,-1290 }, { 207,-1290 }, { 208,-1290 },
- { 209,-1290 }, { 210,-1290 }, { 211,-1290 }, { 212,-1290 }, { 213,-1290 },
- { 214,-1290 }, { 215,-1290 }, { 216,-1290 }, { 217,-1290 }, { 218,-1290 },
+ {   0,   0 }, {   0,14177 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+ {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
 
- { 219,-1290 }, { 220,-1290 }, { 221,-1290 }, { 222,-1290 }, { 223,-1290 },
- { 224,-1290 }, { 225,-1290 }, { 226,-1290 }, { 227,-1290 }, { 228,-1290 },
- { 229,-1290 }, { 230,-1290 }, { 231,-1290 }, { 232,-1290 }, { 233,-1290 },
- { 234,-1290 }, { 235,-1290 }, { 236,-1290 }, { 237,-1290 }, { 238,-1290 },
- { 239,-1290 }, { 240,-1290 }, { 241,-1290 }, { 242,-1290 }, { 243,-1290 },
- { 244,-1290 }, { 245,-1290 }, { 246,-1290 }, { 247,-1290 }, { 248,-1290 },
- { 249,-1290 }, { 250,-1290 }, { 251,-1290 }, { 252,-1290 }, { 253,-1290 },
- { 254,-1290 }, { 255,-1290 }, { 256,-1290 }, {   0,  49 }, {   0,13265 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
+ {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+ {  39,-546 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+ {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+ {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+ {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
 
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+ {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 },
+ {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
+
+ { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,13919 },
+ {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
+ {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
+ {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
+
+ {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
+ {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
+ {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
+ {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+ {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,4707 }, {  40,-258 },
+ {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
+ {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
+ {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
+ {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
+ {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
+
+ {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
+ {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
+ {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
+ {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+ {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
+ {  91,-258 }, {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
+ {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
+ { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
+ { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
+ { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
+
+ { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
+ { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
+ { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
+ { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+ { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
+ { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
+ { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
+ { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
+ { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
+ { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
+
+ { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
+ { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
+ { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
+ { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+ { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
+ { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
+ { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
+ { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
+ { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
+ { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
+
+ { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
+ { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
+ { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
+ { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+ { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
+ { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
+ { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
+ { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
+ { 256,-258 }, {   0,   0 }, {   0,13661 }, {   1,-1324 }, {   2,-1324 },
+ {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
+
+ {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
+ {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
+ {  18,-1324 }, {  19,-1324 }, {  20,-1324 }, {  21,-1324 }, {  22,-1324 },
+ {  23,-1324 }, {  24,-1324 }, {  25,-1324 }, {  26,-1324 }, {  27,-1324 },
+ {  28,-1324 }, {  29,-1324 }, {  30,-1324 }, {  31,-1324 }, {  32,-1054 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-1324 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-1054 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-1324 }, {  46, 258 }, {  47,-1349 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+
+ {  58,-1324 }, {   0,   0 }, {   0,   0 }, {  61,-1349 }, {   0,   0 },
+ {  63,-1324 }, {   0,   0 }, {  65,-1324 }, {  66,-1324 }, {  67,-1324 },
+ {  68,-1324 }, {  69,-1324 }, {  70,-1324 }, {  71,-1324 }, {  72,-1324 },
+ {  73,-1324 }, {  74,-1324 }, {  75,-1324 }, {  76,-1324 }, {  77,-1324 },
+ {  78,-1324 }, {  79,-1324 }, {  80,-1324 }, {  81,-1324 }, {  82,-1324 },
+ {  83,-1324 }, {  84,-1324 }, {  85,-1324 }, {  86,-1324 }, {  87,-1324 },
+ {  88,-1324 }, {  89,-1324 }, {  90,-1324 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-1324 }, {   0,   0 }, {  97,-1324 },
+ {  98,-1324 }, {  99,-1324 }, { 100,-1324 }, { 101,-1324 }, { 102,-1324 },
+ { 103,-1324 }, { 104,-1324 }, { 105,-1324 }, { 106,-1324 }, { 107,-1324 },
+
+ { 108,-1324 }, { 109,-1324 }, { 110,-1324 }, { 111,-1324 }, { 112,-1324 },
+ { 113,-1324 }, { 114,-1324 }, { 115,-1324 }, { 116,-1324 }, { 117,-1324 },
+ { 118,-1324 }, { 119,-1324 }, { 120,-1324 }, { 121,-1324 }, { 122,-1324 },
+ {   0,   0 }, { 124,-1349 }, { 125,-1054 }, { 126,-1054 }, { 127,-1324 },
+ { 128,-1324 }, { 129,-1324 }, { 130,-1324 }, { 131,-1324 }, { 132,-1324 },
+ { 133,-1324 }, { 134,-1324 }, { 135,-1324 }, { 136,-1324 }, { 137,-1324 },
+ { 138,-1324 }, { 139,-1324 }, { 140,-1324 }, { 141,-1324 }, { 142,-1324 },
+ { 143,-1324 }, { 144,-1324 }, { 145,-1324 }, { 146,-1324 }, { 147,-1324 },
+ { 148,-1324 }, { 149,-1324 }, { 150,-1324 }, { 151,-1324 }, { 152,-1324 },
+ { 153,-1324 }, { 154,-1324 }, { 155,-1324 }, { 156,-1324 }, { 157,-1324 },
+
+ { 158,-1324 }, { 159,-1324 }, { 160,-1324 }, { 161,-1324 }, { 162,-1324 },
+ { 163,-1324 }, { 164,-1324 }, { 165,-1324 }, { 166,-1324 }, { 167,-1324 },
+ { 168,-1324 }, { 169,-1324 }, { 170,-1324 }, { 171,-1324 }, { 172,-1324 },
+ { 173,-1324 }, { 174,-1324 }, { 175,-1324 }, { 176,-1324 }, { 177,-1324 },
+ { 178,-1324 }, { 179,-1324 }, { 180,-1324 }, { 181,-1324 }, { 182,-1324 },
+ { 183,-1324 }, { 184,-1324 }, { 185,-1324 }, { 186,-1324 }, { 187,-1324 },
+ { 188,-1324 }, { 189,-1324 }, { 190,-1324 }, { 191,-1324 }, { 192,-1324 },
+ { 193,-1324 }, { 194,-1324 }, { 195,-1324 }, { 196,-1324 }, { 197,-1324 },
+ { 198,-1324 }, { 199,-1324 }, { 200,-1324 }, { 201,-1324 }, { 202,-1324 },
+ { 203,-1324 }, { 204,-1324 }, { 205,-1324 }, { 206,-1324 }, { 207,-1324 },
+
+ { 208,-1324 }, { 209,-1324 }, { 210,-1324 }, { 211,-1324 }, { 212,-1324 },
+ { 213,-1324 }, { 214,-1324 }, { 215,-1324 }, { 216,-1324 }, { 217,-1324 },
+ { 218,-1324 }, { 219,-1324 }, { 220,-1324 }, { 221,-1324 }, { 222,-1324 },
+ { 223,-1324 }, { 224,-1324 }, { 225,-1324 }, { 226,-1324 }, { 227,-1324 },
+ { 228,-1324 }, { 229,-1324 }, { 230,-1324 }, { 231,-1324 }, { 232,-1324 },
+ { 233,-1324 }, { 234,-1324 }, { 235,-1324 }, { 236,-1324 }, { 237,-1324 },
+ { 238,-1324 }, { 239,-1324 }, { 240,-1324 }, { 241,-1324 }, { 242,-1324 },
+ { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
+ { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
+ { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
+
+ {   0,13403 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  48,4313 }, {  49,4313 }, {  50,4313 },
- {  51,4313 }, {  52,4313 }, {  53,4313 }, {  54,4313 }, {  55,4313 },
- {  56,4313 }, {  57,4313 }, {   0,   0 }, {   0,13206 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,4449 }, {  49,4449 },
+
+ {  50,4449 }, {  51,4449 }, {  52,4449 }, {  53,4449 }, {  54,4449 },
+ {  55,4449 }, {  56,4449 }, {  57,4449 }, {   0,   0 }, {   0,13344 },
+ {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
+ {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
+ {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
+ {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
+ {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
+ {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
+ {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
+ {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
+
+ {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
+ {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
+ {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
+ {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
+ {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
+ {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
+ {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
+ {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
+ {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
+ {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
+
+ {  91,   0 }, {  92, 258 }, {  93,-1368 }, {  94,   0 }, {  95,   0 },
+ {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
+ { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
+ { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
+ { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
+ { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
+ { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 },
+ { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
+ { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
+ { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
+
+ { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
+ { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
+ { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
+ { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
+ { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
+ { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
+ { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
+ { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
+ { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
+ { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
+
+ { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
+ { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
+ { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
+ { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
+ { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
+ { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
+ { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
+ { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
+ { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
+ { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
+
+ { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
+ { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
+ { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
+ { 256,   0 }, {   0,   0 }, {   0,13086 }, {   1,-258 }, {   2,-258 },
+ {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
+ {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
+ {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
+ {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
+ {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
+ {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
+
+ {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
+ {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
+ {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
+ {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
+ {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
+ {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
+ {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
+ {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
+ {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
+ {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
+
+ {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
+ {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 },
+ {  93,4260 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
+ {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
+ { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
+ { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
+ { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
+ { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
+ { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
+ { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
+
+ { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
+ { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
+ { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
+ { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
+ { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
+ { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
+ { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
+ { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
+ { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
+ { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
+
+ { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
+ { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
+ { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
+ { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
+ { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
+ { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
+ { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
+ { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
+ { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
+ { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
+
+ { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
+ { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
+ { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
+ { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
+ { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
+ {   0,12828 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,3068 },
+ {  10,3068 }, {  11,-2157 }, {  12,-2157 }, {  13,3068 }, {  14,-2157 },
+ {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
+ {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
+
+ {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
+ {  30,-2157 }, {  31,-2157 }, {  32,3068 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-2157 }, {  46,-2182 }, {  47,-2182 }, {  48,-2157 }, {  49,-2157 },
+ {  50,-2157 }, {  51,-2157 }, {  52,-2157 }, {  53,-2157 }, {  54,-2157 },
+ {  55,-2157 }, {  56,-2157 }, {  57,-2157 }, {  58,-2157 }, {   0,   0 },
+ {   0,   0 }, {  61,-2182 }, {   0,   0 }, {  63,-2157 }, {   0,   0 },
+ {  65,-2157 }, {  66,-2157 }, {  67,-2157 }, {  68,-2157 }, {  69,-2157 },
+ {  70,-2157 }, {  71,-2157 }, {  72,-2157 }, {  73,-2157 }, {  74,-2157 },
+
+ {  75,-2157 }, {  76,-2157 }, {  77,-2157 }, {  78,-2157 }, {  79,-2157 },
+ {  80,-2157 }, {  81,-2157 }, {  82,-2157 }, {  83,-2157 }, {  84,-2157 },
+ {  85,-2157 }, {  86,-2157 }, {  87,-2157 }, {  88,-2157 }, {  89,-2157 },
+ {  90,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-2157 }, {   0,   0 }, {  97,-2157 }, {  98,-2157 }, {  99,-2157 },
+ { 100,-2157 }, { 101,-2157 }, { 102,-2157 }, { 103,-2157 }, { 104,-2157 },
+ { 105,-2157 }, { 106,-2157 }, { 107,-2157 }, { 108,-2157 }, { 109,-2157 },
+ { 110,-2157 }, { 111,-2157 }, { 112,-2157 }, { 113,-2157 }, { 114,-2157 },
+ { 115,-2157 }, { 116,-2157 }, { 117,-2157 }, { 118,-2157 }, { 119,-2157 },
+ { 120,-2157 }, { 121,-2157 }, { 122,-2157 }, {   0,   0 }, { 124,-2182 },
+
+ { 125,-2182 }, { 126,-2182 }, { 127,-2157 }, { 128,-2157 }, { 129,-2157 },
+ { 130,-2157 }, { 131,-2157 }, { 132,-2157 }, { 133,-2157 }, { 134,-2157 },
+ { 135,-2157 }, { 136,-2157 }, { 137,-2157 }, { 138,-2157 }, { 139,-2157 },
+ { 140,-2157 }, { 141,-2157 }, { 142,-2157 }, { 143,-2157 }, { 144,-2157 },
+ { 145,-2157 }, { 146,-2157 }, { 147,-2157 }, { 148,-2157 }, { 149,-2157 },
+ { 150,-2157 }, { 151,-2157 }, { 152,-2157 }, { 153,-2157 }, { 154,-2157 },
+ { 155,-2157 }, { 156,-2157 }, { 157,-2157 }, { 158,-2157 }, { 159,-2157 },
+ { 160,-2157 }, { 161,-2157 }, { 162,-2157 }, { 163,-2157 }, { 164,-2157 },
+ { 165,-2157 }, { 166,-2157 }, { 167,-2157 }, { 168,-2157 }, { 169,-2157 },
+ { 170,-2157 }, { 171,-2157 }, { 172,-2157 }, { 173,-2157 }, { 174,-2157 },
+
+ { 175,-2157 }, { 176,-2157 }, { 177,-2157 }, { 178,-2157 }, { 179,-2157 },
+ { 180,-2157 }, { 181,-2157 }, { 182,-2157 }, { 183,-2157 }, { 184,-2157 },
+ { 185,-2157 }, { 186,-2157 }, { 187,-2157 }, { 188,-2157 }, { 189,-2157 },
+ { 190,-2157 }, { 191,-2157 }, { 192,-2157 }, { 193,-2157 }, { 194,-2157 },
+ { 195,-2157 }, { 196,-2157 }, { 197,-2157 }, { 198,-2157 }, { 199,-2157 },
+ { 200,-2157 }, { 201,-2157 }, { 202,-2157 }, { 203,-2157 }, { 204,-2157 },
+ { 205,-2157 }, { 206,-2157 }, { 207,-2157 }, { 208,-2157 }, { 209,-2157 },
+ { 210,-2157 }, { 211,-2157 }, { 212,-2157 }, { 213,-2157 }, { 214,-2157 },
+ { 215,-2157 }, { 216,-2157 }, { 217,-2157 }, { 218,-2157 }, { 219,-2157 },
+ { 220,-2157 }, { 221,-2157 }, { 222,-2157 }, { 223,-2157 }, { 224,-2157 },
+
+ { 225,-2157 }, { 226,-2157 }, { 227,-2157 }, { 228,-2157 }, { 229,-2157 },
+ { 230,-2157 }, { 231,-2157 }, { 232,-2157 }, { 233,-2157 }, { 234,-2157 },
+ { 235,-2157 }, { 236,-2157 }, { 237,-2157 }, { 238,-2157 }, { 239,-2157 },
+ { 240,-2157 }, { 241,-2157 }, { 242,-2157 }, { 243,-2157 }, { 244,-2157 },
+ { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
+ { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,12570 }, {   1,-2415 },
+ {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
+ {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
+ {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
+
+ {  17,-2415 }, {  18,-2415 }, {  19,-2415 }, {  20,-2415 }, {  21,-2415 },
+ {  22,-2415 }, {  23,-2415 }, {  24,-2415 }, {  25,-2415 }, {  26,-2415 },
+ {  27,-2415 }, {  28,-2415 }, {  29,-2415 }, {  30,-2415 }, {  31,-2415 },
+ {  32,-2440 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2415 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-2440 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2415 }, {  46,-2440 },
+ {  47,-2440 }, {  48,-2415 }, {  49,-2415 }, {  50,-2415 }, {  51,-2415 },
+ {  52,-2415 }, {  53,-2415 }, {  54,-2415 }, {  55,-2415 }, {  56,-2415 },
+ {  57,-2415 }, {  58,-2415 }, {   0,   0 }, {   0,   0 }, {  61,-2440 },
+ {   0,   0 }, {  63,-2415 }, {   0,   0 }, {  65,-2415 }, {  66,-2415 },
+
+ {  67,-2415 }, {  68,-2415 }, {  69,-2415 }, {  70,-2415 }, {  71,-2415 },
+ {  72,-2415 }, {  73,-2415 }, {  74,-2415 }, {  75,-2415 }, {  76,-2415 },
+ {  77,-2415 }, {  78,-2415 }, {  79,-2415 }, {  80,-2415 }, {  81,-2415 },
+ {  82,-2415 }, {  83,-2415 }, {  84,-2415 }, {  85,-2415 }, {  86,-2415 },
+ {  87,-2415 }, {  88,-2415 }, {  89,-2415 }, {  90,-2415 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
+ {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
+ { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
+ { 107,-2415 }, { 108,4002 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
+ { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
+
+ { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
+ { 122,-2415 }, {   0,   0 }, { 124,-2440 }, { 125,-2440 }, { 126,-2440 },
+ { 127,-2415 }, { 128,-2415 }, { 129,-2415 }, { 130,-2415 }, { 131,-2415 },
+ { 132,-2415 }, { 133,-2415 }, { 134,-2415 }, { 135,-2415 }, { 136,-2415 },
+ { 137,-2415 }, { 138,-2415 }, { 139,-2415 }, { 140,-2415 }, { 141,-2415 },
+ { 142,-2415 }, { 143,-2415 }, { 144,-2415 }, { 145,-2415 }, { 146,-2415 },
+ { 147,-2415 }, { 148,-2415 }, { 149,-2415 }, { 150,-2415 }, { 151,-2415 },
+ { 152,-2415 }, { 153,-2415 }, { 154,-2415 }, { 155,-2415 }, { 156,-2415 },
+ { 157,-2415 }, { 158,-2415 }, { 159,-2415 }, { 160,-2415 }, { 161,-2415 },
+ { 162,-2415 }, { 163,-2415 }, { 164,-2415 }, { 165,-2415 }, { 166,-2415 },
+
+ { 167,-2415 }, { 168,-2415 }, { 169,-2415 }, { 170,-2415 }, { 171,-2415 },
+ { 172,-2415 }, { 173,-2415 }, { 174,-2415 }, { 175,-2415 }, { 176,-2415 },
+ { 177,-2415 }, { 178,-2415 }, { 179,-2415 }, { 180,-2415 }, { 181,-2415 },
+ { 182,-2415 }, { 183,-2415 }, { 184,-2415 }, { 185,-2415 }, { 186,-2415 },
+ { 187,-2415 }, { 188,-2415 }, { 189,-2415 }, { 190,-2415 }, { 191,-2415 },
+ { 192,-2415 }, { 193,-2415 }, { 194,-2415 }, { 195,-2415 }, { 196,-2415 },
+ { 197,-2415 }, { 198,-2415 }, { 199,-2415 }, { 200,-2415 }, { 201,-2415 },
+ { 202,-2415 }, { 203,-2415 }, { 204,-2415 }, { 205,-2415 }, { 206,-2415 },
+ { 207,-2415 }, { 208,-2415 }, { 209,-2415 }, { 210,-2415 }, { 211,-2415 },
+ { 212,-2415 }, { 213,-2415 }, { 214,-2415 }, { 215,-2415 }, { 216,-2415 },
+
+ { 217,-2415 }, { 218,-2415 }, { 219,-2415 }, { 220,-2415 }, { 221,-2415 },
+ { 222,-2415 }, { 223,-2415 }, { 224,-2415 }, { 225,-2415 }, { 226,-2415 },
+ { 227,-2415 }, { 228,-2415 }, { 229,-2415 }, { 230,-2415 }, { 231,-2415 },
+ { 232,-2415 }, { 233,-2415 }, { 234,-2415 }, { 235,-2415 }, { 236,-2415 },
+ { 237,-2415 }, { 238,-2415 }, { 239,-2415 }, { 240,-2415 }, { 241,-2415 },
+ { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
+ { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
+ { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
+ {   0,   0 }, {   0,12312 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
+
+ {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
+ {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
+ {  19,-2673 }, {  20,-2673 }, {  21,-2673 }, {  22,-2673 }, {  23,-2673 },
+ {  24,-2673 }, {  25,-2673 }, {  26,-2673 }, {  27,-2673 }, {  28,-2673 },
+ {  29,-2673 }, {  30,-2673 }, {  31,-2673 }, {  32,-2698 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-2673 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-2698 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-2673 }, {  46,-2698 }, {  47,-2698 }, {  48,-2673 },
+ {  49,-2673 }, {  50,-2673 }, {  51,-2673 }, {  52,-2673 }, {  53,-2673 },
+ {  54,-2673 }, {  55,-2673 }, {  56,-2673 }, {  57,-2673 }, {  58,-2673 },
+
+ {   0,   0 }, {   0,   0 }, {  61,-2698 }, {   0,   0 }, {  63,-2673 },
+ {   0,   0 }, {  65,-2673 }, {  66,-2673 }, {  67,-2673 }, {  68,-2673 },
+ {  69,-2673 }, {  70,-2673 }, {  71,-2673 }, {  72,-2673 }, {  73,-2673 },
+ {  74,-2673 }, {  75,-2673 }, {  76,-2673 }, {  77,-2673 }, {  78,-2673 },
+ {  79,-2673 }, {  80,-2673 }, {  81,-2673 }, {  82,-2673 }, {  83,-2673 },
+ {  84,-2673 }, {  85,-2673 }, {  86,-2673 }, {  87,-2673 }, {  88,-2673 },
+ {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
+ {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
+ { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,4002 },
+
+ { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
+ { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
+ { 119,-2673 }, { 120,-2673 }, { 121,-2673 }, { 122,-2673 }, {   0,   0 },
+ { 124,-2698 }, { 125,-2698 }, { 126,-2698 }, { 127,-2673 }, { 128,-2673 },
+ { 129,-2673 }, { 130,-2673 }, { 131,-2673 }, { 132,-2673 }, { 133,-2673 },
+ { 134,-2673 }, { 135,-2673 }, { 136,-2673 }, { 137,-2673 }, { 138,-2673 },
+ { 139,-2673 }, { 140,-2673 }, { 141,-2673 }, { 142,-2673 }, { 143,-2673 },
+ { 144,-2673 }, { 145,-2673 }, { 146,-2673 }, { 147,-2673 }, { 148,-2673 },
+ { 149,-2673 }, { 150,-2673 }, { 151,-2673 }, { 152,-2673 }, { 153,-2673 },
+ { 154,-2673 }, { 155,-2673 }, { 156,-2673 }, { 157,-2673 }, { 158,-2673 },
+
+ { 159,-2673 }, { 160,-2673 }, { 161,-2673 }, { 162,-2673 }, { 163,-2673 },
+ { 164,-2673 }, { 165,-2673 }, { 166,-2673 }, { 167,-2673 }, { 168,-2673 },
+ { 169,-2673 }, { 170,-2673 }, { 171,-2673 }, { 172,-2673 }, { 173,-2673 },
+ { 174,-2673 }, { 175,-2673 }, { 176,-2673 }, { 177,-2673 }, { 178,-2673 },
+ { 179,-2673 }, { 180,-2673 }, { 181,-2673 }, { 182,-2673 }, { 183,-2673 },
+ { 184,-2673 }, { 185,-2673 }, { 186,-2673 }, { 187,-2673 }, { 188,-2673 },
+ { 189,-2673 }, { 190,-2673 }, { 191,-2673 }, { 192,-2673 }, { 193,-2673 },
+ { 194,-2673 }, { 195,-2673 }, { 196,-2673 }, { 197,-2673 }, { 198,-2673 },
+ { 199,-2673 }, { 200,-2673 }, { 201,-2673 }, { 202,-2673 }, { 203,-2673 },
+ { 204,-2673 }, { 205,-2673 }, { 206,-2673 }, { 207,-2673 }, { 208,-2673 },
+
+ { 209,-2673 }, { 210,-2673 }, { 211,-2673 }, { 212,-2673 }, { 213,-2673 },
+ { 214,-2673 }, { 215,-2673 }, { 216,-2673 }, { 217,-2673 }, { 218,-2673 },
+ { 219,-2673 }, { 220,-2673 }, { 221,-2673 }, { 222,-2673 }, { 223,-2673 },
+ { 224,-2673 }, { 225,-2673 }, { 226,-2673 }, { 227,-2673 }, { 228,-2673 },
+ { 229,-2673 }, { 230,-2673 }, { 231,-2673 }, { 232,-2673 }, { 233,-2673 },
+ { 234,-2673 }, { 235,-2673 }, { 236,-2673 }, { 237,-2673 }, { 238,-2673 },
+ { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
+ { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
+ { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,12054 },
+
+ {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
+ {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
+ {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
+ {  16,-2931 }, {  17,-2931 }, {  18,-2931 }, {  19,-2931 }, {  20,-2931 },
+ {  21,-2931 }, {  22,-2931 }, {  23,-2931 }, {  24,-2931 }, {  25,-2931 },
+ {  26,-2931 }, {  27,-2931 }, {  28,-2931 }, {  29,-2931 }, {  30,-2931 },
+ {  31,-2931 }, {  32,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-2931 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2931 },
+ {  46,-2956 }, {  47,-2956 }, {  48,-2931 }, {  49,-2931 }, {  50,-2931 },
+
+ {  51,-2931 }, {  52,-2931 }, {  53,-2931 }, {  54,-2931 }, {  55,-2931 },
+ {  56,-2931 }, {  57,-2931 }, {  58,-2931 }, {   0,   0 }, {   0,   0 },
+ {  61,-2956 }, {   0,   0 }, {  63,-2931 }, {   0,   0 }, {  65,-2931 },
+ {  66,-2931 }, {  67,-2931 }, {  68,-2931 }, {  69,-2931 }, {  70,-2931 },
+ {  71,-2931 }, {  72,-2931 }, {  73,-2931 }, {  74,-2931 }, {  75,-2931 },
+ {  76,-2931 }, {  77,-2931 }, {  78,-2931 }, {  79,-2931 }, {  80,-2931 },
+ {  81,-2931 }, {  82,-2931 }, {  83,-2931 }, {  84,-2931 }, {  85,-2931 },
+ {  86,-2931 }, {  87,-2931 }, {  88,-2931 }, {  89,-2931 }, {  90,-2931 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2931 },
+ {   0,   0 }, {  97,-2931 }, {  98,-2931 }, {  99,-2931 }, { 100,-2931 },
+
+ { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
+ { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
+ { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
+ { 116,-2931 }, { 117,4002 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
+ { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
+ { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
+ { 131,-2931 }, { 132,-2931 }, { 133,-2931 }, { 134,-2931 }, { 135,-2931 },
+ { 136,-2931 }, { 137,-2931 }, { 138,-2931 }, { 139,-2931 }, { 140,-2931 },
+ { 141,-2931 }, { 142,-2931 }, { 143,-2931 }, { 144,-2931 }, { 145,-2931 },
+ { 146,-2931 }, { 147,-2931 }, { 148,-2931 }, { 149,-2931 }, { 150,-2931 },
+
+ { 151,-2931 }, { 152,-2931 }, { 153,-2931 }, { 154,-2931 }, { 155,-2931 },
+ { 156,-2931 }, { 157,-2931 }, { 158,-2931 }, { 159,-2931 }, { 160,-2931 },
+ { 161,-2931 }, { 162,-2931 }, { 163,-2931 }, { 164,-2931 }, { 165,-2931 },
+ { 166,-2931 }, { 167,-2931 }, { 168,-2931 }, { 169,-2931 }, { 170,-2931 },
+ { 171,-2931 }, { 172,-2931 }, { 173,-2931 }, { 174,-2931 }, { 175,-2931 },
+ { 176,-2931 }, { 177,-2931 }, { 178,-2931 }, { 179,-2931 }, { 180,-2931 },
+ { 181,-2931 }, { 182,-2931 }, { 183,-2931 }, { 184,-2931 }, { 185,-2931 },
+ { 186,-2931 }, { 187,-2931 }, { 188,-2931 }, { 189,-2931 }, { 190,-2931 },
+ { 191,-2931 }, { 192,-2931 }, { 193,-2931 }, { 194,-2931 }, { 195,-2931 },
+ { 196,-2931 }, { 197,-2931 }, { 198,-2931 }, { 199,-2931 }, { 200,-2931 },
+
+ { 201,-2931 }, { 202,-2931 }, { 203,-2931 }, { 204,-2931 }, { 205,-2931 },
+ { 206,-2931 }, { 207,-2931 }, { 208,-2931 }, { 209,-2931 }, { 210,-2931 },
+ { 211,-2931 }, { 212,-2931 }, { 213,-2931 }, { 214,-2931 }, { 215,-2931 },
+ { 216,-2931 }, { 217,-2931 }, { 218,-2931 }, { 219,-2931 }, { 220,-2931 },
+ { 221,-2931 }, { 222,-2931 }, { 223,-2931 }, { 224,-2931 }, { 225,-2931 },
+ { 226,-2931 }, { 227,-2931 }, { 228,-2931 }, { 229,-2931 }, { 230,-2931 },
+ { 231,-2931 }, { 232,-2931 }, { 233,-2931 }, { 234,-2931 }, { 235,-2931 },
+ { 236,-2931 }, { 237,-2931 }, { 238,-2931 }, { 239,-2931 }, { 240,-2931 },
+ { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
+ { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
+
+ { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
+ { 256,-2931 }, {   0,   0 }, {   0,11796 }, {   1,-3189 }, {   2,-3189 },
+ {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
+ {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
+ {  13,-3214 }, {  14,-3189 }, {  15,-3189 }, {  16,-3189 }, {  17,-3189 },
+ {  18,-3189 }, {  19,-3189 }, {  20,-3189 }, {  21,-3189 }, {  22,-3189 },
+ {  23,-3189 }, {  24,-3189 }, {  25,-3189 }, {  26,-3189 }, {  27,-3189 },
+ {  28,-3189 }, {  29,-3189 }, {  30,-3189 }, {  31,-3189 }, {  32,-3214 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-3189 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-3214 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  45,-3189 }, {  46,-3214 }, {  47,-3214 },
+ {  48,-3189 }, {  49,-3189 }, {  50,-3189 }, {  51,-3189 }, {  52,-3189 },
+ {  53,-3189 }, {  54,-3189 }, {  55,-3189 }, {  56,-3189 }, {  57,-3189 },
+ {  58,-3189 }, {   0,   0 }, {   0,   0 }, {  61,-3214 }, {   0,   0 },
+ {  63,-3189 }, {   0,   0 }, {  65,-3189 }, {  66,-3189 }, {  67,-3189 },
+ {  68,-3189 }, {  69,-3189 }, {  70,-3189 }, {  71,-3189 }, {  72,-3189 },
+ {  73,-3189 }, {  74,-3189 }, {  75,-3189 }, {  76,-3189 }, {  77,-3189 },
+ {  78,-3189 }, {  79,-3189 }, {  80,-3189 }, {  81,-3189 }, {  82,-3189 },
+ {  83,-3189 }, {  84,-3189 }, {  85,-3189 }, {  86,-3189 }, {  87,-3189 },
+ {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
+ {  98,-3189 }, {  99,-3189 }, { 100,4002 }, { 101,-3189 }, { 102,-3189 },
+ { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
+ { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
+ { 113,-3189 }, { 114,-3189 }, { 115,-3189 }, { 116,-3189 }, { 117,-3189 },
+ { 118,-3189 }, { 119,-3189 }, { 120,-3189 }, { 121,-3189 }, { 122,-3189 },
+ {   0,   0 }, { 124,-3214 }, { 125,-3214 }, { 126,-3214 }, { 127,-3189 },
+ { 128,-3189 }, { 129,-3189 }, { 130,-3189 }, { 131,-3189 }, { 132,-3189 },
+ { 133,-3189 }, { 134,-3189 }, { 135,-3189 }, { 136,-3189 }, { 137,-3189 },
+ { 138,-3189 }, { 139,-3189 }, { 140,-3189 }, { 141,-3189 }, { 142,-3189 },
+
+ { 143,-3189 }, { 144,-3189 }, { 145,-3189 }, { 146,-3189 }, { 147,-3189 },
+ { 148,-3189 }, { 149,-3189 }, { 150,-3189 }, { 151,-3189 }, { 152,-3189 },
+ { 153,-3189 }, { 154,-3189 }, { 155,-3189 }, { 156,-3189 }, { 157,-3189 },
+ { 158,-3189 }, { 159,-3189 }, { 160,-3189 }, { 161,-3189 }, { 162,-3189 },
+ { 163,-3189 }, { 164,-3189 }, { 165,-3189 }, { 166,-3189 }, { 167,-3189 },
+ { 168,-3189 }, { 169,-3189 }, { 170,-3189 }, { 171,-3189 }, { 172,-3189 },
+ { 173,-3189 }, { 174,-3189 }, { 175,-3189 }, { 176,-3189 }, { 177,-3189 },
+ { 178,-3189 }, { 179,-3189 }, { 180,-3189 }, { 181,-3189 }, { 182,-3189 },
+ { 183,-3189 }, { 184,-3189 }, { 185,-3189 }, { 186,-3189 }, { 187,-3189 },
+ { 188,-3189 }, { 189,-3189 }, { 190,-3189 }, { 191,-3189 }, { 192,-3189 },
+
+ { 193,-3189 }, { 194,-3189 }, { 195,-3189 }, { 196,-3189 }, { 197,-3189 },
+ { 198,-3189 }, { 199,-3189 }, { 200,-3189 }, { 201,-3189 }, { 202,-3189 },
+ { 203,-3189 }, { 204,-3189 }, { 205,-3189 }, { 206,-3189 }, { 207,-3189 },
+ { 208,-3189 }, { 209,-3189 }, { 210,-3189 }, { 211,-3189 }, { 212,-3189 },
+ { 213,-3189 }, { 214,-3189 }, { 215,-3189 }, { 216,-3189 }, { 217,-3189 },
+ { 218,-3189 }, { 219,-3189 }, { 220,-3189 }, { 221,-3189 }, { 222,-3189 },
+ { 223,-3189 }, { 224,-3189 }, { 225,-3189 }, { 226,-3189 }, { 227,-3189 },
+ { 228,-3189 }, { 229,-3189 }, { 230,-3189 }, { 231,-3189 }, { 232,-3189 },
+ { 233,-3189 }, { 234,-3189 }, { 235,-3189 }, { 236,-3189 }, { 237,-3189 },
+ { 238,-3189 }, { 239,-3189 }, { 240,-3189 }, { 241,-3189 }, { 242,-3189 },
+
+ { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
+ { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
+ { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
+ {   0,11538 }, {   0,  38 }, {   0,11536 }, {   0,   0 }, {   0,11534 },
+ {   0,   0 }, {   0,11532 }, {   0,  13 }, {   0,11530 }, {   9,4002 },
+ {  10,4002 }, {   0,   0 }, {   0,   0 }, {  13,4002 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32,4002 }, {  33,2586 }, {   0,   0 },
+
+ {  35,2588 }, {   0,   0 }, {   0,   0 }, {  38,2590 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  42,2592 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  47,2596 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62,2599 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,4004 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101,4006 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 115,4008 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4010 }, {   0,   0 },
+ {   0,   0 }, { 126,4017 }, { 125,4012 }, {   0,   0 }, { 125,4015 },
+ {   0,   0 }, { 125,4015 }, {   0,   0 }, {   0,11405 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
@@ -2798,7 +3238,7 @@ static const struct yy_trans_info yy_transition[23409] =
  {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
  {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
  {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 },
+ {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 },
  {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
 
  {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
@@ -2809,7 +3249,7 @@ static const struct yy_trans_info yy_transition[23409] =
  {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
  {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
  {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {  92, 258 }, {  93,-1710 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
+ {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
  {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
 
  { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
@@ -2846,7 +3286,7 @@ static const struct yy_trans_info yy_transition[23409] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,12948 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
+ {   0,   0 }, {   0,11147 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
  {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 },
  {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 },
  {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 },
@@ -2856,7 +3296,7 @@ static const struct yy_trans_info yy_transition[23409] =
  {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 },
  {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 },
 
- {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 }, {  48,-258 },
+ {  44,-258 }, {  45, 258 }, {  46,-258 }, {  47,-258 }, {  48,-258 },
  {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 },
  {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 },
  {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 },
@@ -2865,7 +3305,7 @@ static const struct yy_trans_info yy_transition[23409] =
  {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 },
  {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 },
  {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 },
- {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 }, {  93,4124 },
+ {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 },
 
  {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 },
  {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 },
@@ -2902,336 +3342,81 @@ static const struct yy_trans_info yy_transition[23409] =
 
  { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 },
  { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 },
- { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,12690 },
- {   1,-2123 }, {   2,-2123 }, {   3,-2123 }, {   4,-2123 }, {   5,-2123 },
- {   6,-2123 }, {   7,-2123 }, {   8,-2123 }, {   9,-2183 }, {  10,-2183 },
- {  11,-2123 }, {  12,-2123 }, {  13,-2183 }, {  14,-2123 }, {  15,-2123 },
- {  16,-2123 }, {  17,-2123 }, {  18,-2123 }, {  19,-2123 }, {  20,-2123 },
- {  21,-2123 }, {  22,-2123 }, {  23,-2123 }, {  24,-2123 }, {  25,-2123 },
- {  26,-2123 }, {  27,-2123 }, {  28,-2123 }, {  29,-2123 }, {  30,-2123 },
- {  31,-2123 }, {  32,-2183 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  36,-2123 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-2244 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2123 },
- {  46,-2244 }, {  47,-2244 }, {  48,-2123 }, {  49,-2123 }, {  50,-2123 },
- {  51,-2123 }, {  52,-2123 }, {  53,-2123 }, {  54,-2123 }, {  55,-2123 },
- {  56,-2123 }, {  57,-2123 }, {  58,-2123 }, {   0,   0 }, {   0,   0 },
- {  61,-2244 }, {   0,   0 }, {  63,-2123 }, {   0,   0 }, {  65,-2123 },
- {  66,-2123 }, {  67,-2123 }, {  68,-2123 }, {  69,-2123 }, {  70,-2123 },
- {  71,-2123 }, {  72,-2123 }, {  73,-2123 }, {  74,-2123 }, {  75,-2123 },
- {  76,-2123 }, {  77,-2123 }, {  78,-2123 }, {  79,-2123 }, {  80,-2123 },
- {  81,-2123 }, {  82,-2123 }, {  83,-2123 }, {  84,-2123 }, {  85,-2123 },
-
- {  86,-2123 }, {  87,-2123 }, {  88,-2123 }, {  89,-2123 }, {  90,-2123 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2123 },
- {   0,   0 }, {  97,-2123 }, {  98,-2123 }, {  99,-2123 }, { 100,-2123 },
- { 101,-2123 }, { 102,-2123 }, { 103,-2123 }, { 104,-2123 }, { 105,-2123 },
- { 106,-2123 }, { 107,-2123 }, { 108,-2123 }, { 109,-2123 }, { 110,-2123 },
- { 111,-2123 }, { 112,-2123 }, { 113,-2123 }, { 114,-2123 }, { 115,-2123 },
- { 116,-2123 }, { 117,-2123 }, { 118,-2123 }, { 119,-2123 }, { 120,-2123 },
- { 121,-2123 }, { 122,-2123 }, {   0,   0 }, { 124,-2244 }, { 125,-2244 },
- { 126,-2244 }, { 127,-2123 }, { 128,-2123 }, { 129,-2123 }, { 130,-2123 },
- { 131,-2123 }, { 132,-2123 }, { 133,-2123 }, { 134,-2123 }, { 135,-2123 },
-
- { 136,-2123 }, { 137,-2123 }, { 138,-2123 }, { 139,-2123 }, { 140,-2123 },
- { 141,-2123 }, { 142,-2123 }, { 143,-2123 }, { 144,-2123 }, { 145,-2123 },
- { 146,-2123 }, { 147,-2123 }, { 148,-2123 }, { 149,-2123 }, { 150,-2123 },
- { 151,-2123 }, { 152,-2123 }, { 153,-2123 }, { 154,-2123 }, { 155,-2123 },
- { 156,-2123 }, { 157,-2123 }, { 158,-2123 }, { 159,-2123 }, { 160,-2123 },
- { 161,-2123 }, { 162,-2123 }, { 163,-2123 }, { 164,-2123 }, { 165,-2123 },
- { 166,-2123 }, { 167,-2123 }, { 168,-2123 }, { 169,-2123 }, { 170,-2123 },
- { 171,-2123 }, { 172,-2123 }, { 173,-2123 }, { 174,-2123 }, { 175,-2123 },
- { 176,-2123 }, { 177,-2123 }, { 178,-2123 }, { 179,-2123 }, { 180,-2123 },
- { 181,-2123 }, { 182,-2123 }, { 183,-2123 }, { 184,-2123 }, { 185,-2123 },
-
- { 186,-2123 }, { 187,-2123 }, { 188,-2123 }, { 189,-2123 }, { 190,-2123 },
- { 191,-2123 }, { 192,-2123 }, { 193,-2123 }, { 194,-2123 }, { 195,-2123 },
- { 196,-2123 }, { 197,-2123 }, { 198,-2123 }, { 199,-2123 }, { 200,-2123 },
- { 201,-2123 }, { 202,-2123 }, { 203,-2123 }, { 204,-2123 }, { 205,-2123 },
- { 206,-2123 }, { 207,-2123 }, { 208,-2123 }, { 209,-2123 }, { 210,-2123 },
- { 211,-2123 }, { 212,-2123 }, { 213,-2123 }, { 214,-2123 }, { 215,-2123 },
- { 216,-2123 }, { 217,-2123 }, { 218,-2123 }, { 219,-2123 }, { 220,-2123 },
- { 221,-2123 }, { 222,-2123 }, { 223,-2123 }, { 224,-2123 }, { 225,-2123 },
- { 226,-2123 }, { 227,-2123 }, { 228,-2123 }, { 229,-2123 }, { 230,-2123 },
- { 231,-2123 }, { 232,-2123 }, { 233,-2123 }, { 234,-2123 }, { 235,-2123 },
-
- { 236,-2123 }, { 237,-2123 }, { 238,-2123 }, { 239,-2123 }, { 240,-2123 },
- { 241,-2123 }, { 242,-2123 }, { 243,-2123 }, { 244,-2123 }, { 245,-2123 },
- { 246,-2123 }, { 247,-2123 }, { 248,-2123 }, { 249,-2123 }, { 250,-2123 },
- { 251,-2123 }, { 252,-2123 }, { 253,-2123 }, { 254,-2123 }, { 255,-2123 },
- { 256,-2123 }, {   0,   0 }, {   0,12432 }, {   1,-2381 }, {   2,-2381 },
- {   3,-2381 }, {   4,-2381 }, {   5,-2381 }, {   6,-2381 }, {   7,-2381 },
- {   8,-2381 }, {   9,-2502 }, {  10,-2502 }, {  11,-2381 }, {  12,-2381 },
- {  13,-2502 }, {  14,-2381 }, {  15,-2381 }, {  16,-2381 }, {  17,-2381 },
- {  18,-2381 }, {  19,-2381 }, {  20,-2381 }, {  21,-2381 }, {  22,-2381 },
- {  23,-2381 }, {  24,-2381 }, {  25,-2381 }, {  26,-2381 }, {  27,-2381 },
-
- {  28,-2381 }, {  29,-2381 }, {  30,-2381 }, {  31,-2381 }, {  32,-2502 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2381 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-2502 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-2381 }, {  46,-2502 }, {  47,-2502 },
- {  48,-2381 }, {  49,-2381 }, {  50,-2381 }, {  51,-2381 }, {  52,-2381 },
- {  53,-2381 }, {  54,-2381 }, {  55,-2381 }, {  56,-2381 }, {  57,-2381 },
- {  58,-2381 }, {   0,   0 }, {   0,   0 }, {  61,-2502 }, {   0,   0 },
- {  63,-2381 }, {   0,   0 }, {  65,-2381 }, {  66,-2381 }, {  67,-2381 },
- {  68,-2381 }, {  69,-2381 }, {  70,-2381 }, {  71,-2381 }, {  72,-2381 },
- {  73,-2381 }, {  74,-2381 }, {  75,-2381 }, {  76,-2381 }, {  77,-2381 },
-
- {  78,-2381 }, {  79,-2381 }, {  80,-2381 }, {  81,-2381 }, {  82,-2381 },
- {  83,-2381 }, {  84,-2381 }, {  85,-2381 }, {  86,-2381 }, {  87,-2381 },
- {  88,-2381 }, {  89,-2381 }, {  90,-2381 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-2381 }, {   0,   0 }, {  97,-2381 },
- {  98,-2381 }, {  99,-2381 }, { 100,-2381 }, { 101,-2381 }, { 102,-2381 },
- { 103,-2381 }, { 104,-2381 }, { 105,-2381 }, { 106,-2381 }, { 107,-2381 },
- { 108,3866 }, { 109,-2381 }, { 110,-2381 }, { 111,-2381 }, { 112,-2381 },
- { 113,-2381 }, { 114,-2381 }, { 115,-2381 }, { 116,-2381 }, { 117,-2381 },
- { 118,-2381 }, { 119,-2381 }, { 120,-2381 }, { 121,-2381 }, { 122,-2381 },
- {   0,   0 }, { 124,-2502 }, { 125,-2502 }, { 126,-2502 }, { 127,-2381 },
-
- { 128,-2381 }, { 129,-2381 }, { 130,-2381 }, { 131,-2381 }, { 132,-2381 },
- { 133,-2381 }, { 134,-2381 }, { 135,-2381 }, { 136,-2381 }, { 137,-2381 },
- { 138,-2381 }, { 139,-2381 }, { 140,-2381 }, { 141,-2381 }, { 142,-2381 },
- { 143,-2381 }, { 144,-2381 }, { 145,-2381 }, { 146,-2381 }, { 147,-2381 },
- { 148,-2381 }, { 149,-2381 }, { 150,-2381 }, { 151,-2381 }, { 152,-2381 },
- { 153,-2381 }, { 154,-2381 }, { 155,-2381 }, { 156,-2381 }, { 157,-2381 },
- { 158,-2381 }, { 159,-2381 }, { 160,-2381 }, { 161,-2381 }, { 162,-2381 },
- { 163,-2381 }, { 164,-2381 }, { 165,-2381 }, { 166,-2381 }, { 167,-2381 },
- { 168,-2381 }, { 169,-2381 }, { 170,-2381 }, { 171,-2381 }, { 172,-2381 },
- { 173,-2381 }, { 174,-2381 }, { 175,-2381 }, { 176,-2381 }, { 177,-2381 },
-
- { 178,-2381 }, { 179,-2381 }, { 180,-2381 }, { 181,-2381 }, { 182,-2381 },
- { 183,-2381 }, { 184,-2381 }, { 185,-2381 }, { 186,-2381 }, { 187,-2381 },
- { 188,-2381 }, { 189,-2381 }, { 190,-2381 }, { 191,-2381 }, { 192,-2381 },
- { 193,-2381 }, { 194,-2381 }, { 195,-2381 }, { 196,-2381 }, { 197,-2381 },
- { 198,-2381 }, { 199,-2381 }, { 200,-2381 }, { 201,-2381 }, { 202,-2381 },
- { 203,-2381 }, { 204,-2381 }, { 205,-2381 }, { 206,-2381 }, { 207,-2381 },
- { 208,-2381 }, { 209,-2381 }, { 210,-2381 }, { 211,-2381 }, { 212,-2381 },
- { 213,-2381 }, { 214,-2381 }, { 215,-2381 }, { 216,-2381 }, { 217,-2381 },
- { 218,-2381 }, { 219,-2381 }, { 220,-2381 }, { 221,-2381 }, { 222,-2381 },
- { 223,-2381 }, { 224,-2381 }, { 225,-2381 }, { 226,-2381 }, { 227,-2381 },
-
- { 228,-2381 }, { 229,-2381 }, { 230,-2381 }, { 231,-2381 }, { 232,-2381 },
- { 233,-2381 }, { 234,-2381 }, { 235,-2381 }, { 236,-2381 }, { 237,-2381 },
- { 238,-2381 }, { 239,-2381 }, { 240,-2381 }, { 241,-2381 }, { 242,-2381 },
- { 243,-2381 }, { 244,-2381 }, { 245,-2381 }, { 246,-2381 }, { 247,-2381 },
- { 248,-2381 }, { 249,-2381 }, { 250,-2381 }, { 251,-2381 }, { 252,-2381 },
- { 253,-2381 }, { 254,-2381 }, { 255,-2381 }, { 256,-2381 }, {   0,   0 },
- {   0,12174 }, {   1,-2639 }, {   2,-2639 }, {   3,-2639 }, {   4,-2639 },
- {   5,-2639 }, {   6,-2639 }, {   7,-2639 }, {   8,-2639 }, {   9,-2760 },
- {  10,-2760 }, {  11,-2639 }, {  12,-2639 }, {  13,-2760 }, {  14,-2639 },
- {  15,-2639 }, {  16,-2639 }, {  17,-2639 }, {  18,-2639 }, {  19,-2639 },
-
- {  20,-2639 }, {  21,-2639 }, {  22,-2639 }, {  23,-2639 }, {  24,-2639 },
- {  25,-2639 }, {  26,-2639 }, {  27,-2639 }, {  28,-2639 }, {  29,-2639 },
- {  30,-2639 }, {  31,-2639 }, {  32,-2760 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-2639 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-2760 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-2639 }, {  46,-2760 }, {  47,-2760 }, {  48,-2639 }, {  49,-2639 },
- {  50,-2639 }, {  51,-2639 }, {  52,-2639 }, {  53,-2639 }, {  54,-2639 },
- {  55,-2639 }, {  56,-2639 }, {  57,-2639 }, {  58,-2639 }, {   0,   0 },
- {   0,   0 }, {  61,-2760 }, {   0,   0 }, {  63,-2639 }, {   0,   0 },
- {  65,-2639 }, {  66,-2639 }, {  67,-2639 }, {  68,-2639 }, {  69,-2639 },
-
- {  70,-2639 }, {  71,-2639 }, {  72,-2639 }, {  73,-2639 }, {  74,-2639 },
- {  75,-2639 }, {  76,-2639 }, {  77,-2639 }, {  78,-2639 }, {  79,-2639 },
- {  80,-2639 }, {  81,-2639 }, {  82,-2639 }, {  83,-2639 }, {  84,-2639 },
- {  85,-2639 }, {  86,-2639 }, {  87,-2639 }, {  88,-2639 }, {  89,-2639 },
- {  90,-2639 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-2639 }, {   0,   0 }, {  97,-2639 }, {  98,-2639 }, {  99,-2639 },
- { 100,-2639 }, { 101,-2639 }, { 102,-2639 }, { 103,-2639 }, { 104,-2639 },
- { 105,-2639 }, { 106,-2639 }, { 107,-2639 }, { 108,3866 }, { 109,-2639 },
- { 110,-2639 }, { 111,-2639 }, { 112,-2639 }, { 113,-2639 }, { 114,-2639 },
- { 115,-2639 }, { 116,-2639 }, { 117,-2639 }, { 118,-2639 }, { 119,-2639 },
-
- { 120,-2639 }, { 121,-2639 }, { 122,-2639 }, {   0,   0 }, { 124,-2760 },
- { 125,-2760 }, { 126,-2760 }, { 127,-2639 }, { 128,-2639 }, { 129,-2639 },
- { 130,-2639 }, { 131,-2639 }, { 132,-2639 }, { 133,-2639 }, { 134,-2639 },
- { 135,-2639 }, { 136,-2639 }, { 137,-2639 }, { 138,-2639 }, { 139,-2639 },
- { 140,-2639 }, { 141,-2639 }, { 142,-2639 }, { 143,-2639 }, { 144,-2639 },
- { 145,-2639 }, { 146,-2639 }, { 147,-2639 }, { 148,-2639 }, { 149,-2639 },
- { 150,-2639 }, { 151,-2639 }, { 152,-2639 }, { 153,-2639 }, { 154,-2639 },
- { 155,-2639 }, { 156,-2639 }, { 157,-2639 }, { 158,-2639 }, { 159,-2639 },
- { 160,-2639 }, { 161,-2639 }, { 162,-2639 }, { 163,-2639 }, { 164,-2639 },
- { 165,-2639 }, { 166,-2639 }, { 167,-2639 }, { 168,-2639 }, { 169,-2639 },
-
- { 170,-2639 }, { 171,-2639 }, { 172,-2639 }, { 173,-2639 }, { 174,-2639 },
- { 175,-2639 }, { 176,-2639 }, { 177,-2639 }, { 178,-2639 }, { 179,-2639 },
- { 180,-2639 }, { 181,-2639 }, { 182,-2639 }, { 183,-2639 }, { 184,-2639 },
- { 185,-2639 }, { 186,-2639 }, { 187,-2639 }, { 188,-2639 }, { 189,-2639 },
- { 190,-2639 }, { 191,-2639 }, { 192,-2639 }, { 193,-2639 }, { 194,-2639 },
- { 195,-2639 }, { 196,-2639 }, { 197,-2639 }, { 198,-2639 }, { 199,-2639 },
- { 200,-2639 }, { 201,-2639 }, { 202,-2639 }, { 203,-2639 }, { 204,-2639 },
- { 205,-2639 }, { 206,-2639 }, { 207,-2639 }, { 208,-2639 }, { 209,-2639 },
- { 210,-2639 }, { 211,-2639 }, { 212,-2639 }, { 213,-2639 }, { 214,-2639 },
- { 215,-2639 }, { 216,-2639 }, { 217,-2639 }, { 218,-2639 }, { 219,-2639 },
-
- { 220,-2639 }, { 221,-2639 }, { 222,-2639 }, { 223,-2639 }, { 224,-2639 },
- { 225,-2639 }, { 226,-2639 }, { 227,-2639 }, { 228,-2639 }, { 229,-2639 },
- { 230,-2639 }, { 231,-2639 }, { 232,-2639 }, { 233,-2639 }, { 234,-2639 },
- { 235,-2639 }, { 236,-2639 }, { 237,-2639 }, { 238,-2639 }, { 239,-2639 },
- { 240,-2639 }, { 241,-2639 }, { 242,-2639 }, { 243,-2639 }, { 244,-2639 },
- { 245,-2639 }, { 246,-2639 }, { 247,-2639 }, { 248,-2639 }, { 249,-2639 },
- { 250,-2639 }, { 251,-2639 }, { 252,-2639 }, { 253,-2639 }, { 254,-2639 },
- { 255,-2639 }, { 256,-2639 }, {   0,   0 }, {   0,11916 }, {   1,-2897 },
- {   2,-2897 }, {   3,-2897 }, {   4,-2897 }, {   5,-2897 }, {   6,-2897 },
- {   7,-2897 }, {   8,-2897 }, {   9,-3018 }, {  10,-3018 }, {  11,-2897 },
-
- {  12,-2897 }, {  13,-3018 }, {  14,-2897 }, {  15,-2897 }, {  16,-2897 },
- {  17,-2897 }, {  18,-2897 }, {  19,-2897 }, {  20,-2897 }, {  21,-2897 },
- {  22,-2897 }, {  23,-2897 }, {  24,-2897 }, {  25,-2897 }, {  26,-2897 },
- {  27,-2897 }, {  28,-2897 }, {  29,-2897 }, {  30,-2897 }, {  31,-2897 },
- {  32,-3018 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2897 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-3018 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2897 }, {  46,-3018 },
- {  47,-3018 }, {  48,-2897 }, {  49,-2897 }, {  50,-2897 }, {  51,-2897 },
- {  52,-2897 }, {  53,-2897 }, {  54,-2897 }, {  55,-2897 }, {  56,-2897 },
- {  57,-2897 }, {  58,-2897 }, {   0,   0 }, {   0,   0 }, {  61,-3018 },
-
- {   0,   0 }, {  63,-2897 }, {   0,   0 }, {  65,-2897 }, {  66,-2897 },
- {  67,-2897 }, {  68,-2897 }, {  69,-2897 }, {  70,-2897 }, {  71,-2897 },
- {  72,-2897 }, {  73,-2897 }, {  74,-2897 }, {  75,-2897 }, {  76,-2897 },
- {  77,-2897 }, {  78,-2897 }, {  79,-2897 }, {  80,-2897 }, {  81,-2897 },
- {  82,-2897 }, {  83,-2897 }, {  84,-2897 }, {  85,-2897 }, {  86,-2897 },
- {  87,-2897 }, {  88,-2897 }, {  89,-2897 }, {  90,-2897 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2897 }, {   0,   0 },
- {  97,-2897 }, {  98,-2897 }, {  99,-2897 }, { 100,-2897 }, { 101,-2897 },
- { 102,-2897 }, { 103,-2897 }, { 104,-2897 }, { 105,-2897 }, { 106,-2897 },
- { 107,-2897 }, { 108,-2897 }, { 109,-2897 }, { 110,-2897 }, { 111,-2897 },
-
- { 112,-2897 }, { 113,-2897 }, { 114,-2897 }, { 115,-2897 }, { 116,-2897 },
- { 117,3866 }, { 118,-2897 }, { 119,-2897 }, { 120,-2897 }, { 121,-2897 },
- { 122,-2897 }, {   0,   0 }, { 124,-3018 }, { 125,-3018 }, { 126,-3018 },
- { 127,-2897 }, { 128,-2897 }, { 129,-2897 }, { 130,-2897 }, { 131,-2897 },
- { 132,-2897 }, { 133,-2897 }, { 134,-2897 }, { 135,-2897 }, { 136,-2897 },
- { 137,-2897 }, { 138,-2897 }, { 139,-2897 }, { 140,-2897 }, { 141,-2897 },
- { 142,-2897 }, { 143,-2897 }, { 144,-2897 }, { 145,-2897 }, { 146,-2897 },
- { 147,-2897 }, { 148,-2897 }, { 149,-2897 }, { 150,-2897 }, { 151,-2897 },
- { 152,-2897 }, { 153,-2897 }, { 154,-2897 }, { 155,-2897 }, { 156,-2897 },
- { 157,-2897 }, { 158,-2897 }, { 159,-2897 }, { 160,-2897 }, { 161,-2897 },
-
- { 162,-2897 }, { 163,-2897 }, { 164,-2897 }, { 165,-2897 }, { 166,-2897 },
- { 167,-2897 }, { 168,-2897 }, { 169,-2897 }, { 170,-2897 }, { 171,-2897 },
- { 172,-2897 }, { 173,-2897 }, { 174,-2897 }, { 175,-2897 }, { 176,-2897 },
- { 177,-2897 }, { 178,-2897 }, { 179,-2897 }, { 180,-2897 }, { 181,-2897 },
- { 182,-2897 }, { 183,-2897 }, { 184,-2897 }, { 185,-2897 }, { 186,-2897 },
- { 187,-2897 }, { 188,-2897 }, { 189,-2897 }, { 190,-2897 }, { 191,-2897 },
- { 192,-2897 }, { 193,-2897 }, { 194,-2897 }, { 195,-2897 }, { 196,-2897 },
- { 197,-2897 }, { 198,-2897 }, { 199,-2897 }, { 200,-2897 }, { 201,-2897 },
- { 202,-2897 }, { 203,-2897 }, { 204,-2897 }, { 205,-2897 }, { 206,-2897 },
- { 207,-2897 }, { 208,-2897 }, { 209,-2897 }, { 210,-2897 }, { 211,-2897 },
-
- { 212,-2897 }, { 213,-2897 }, { 214,-2897 }, { 215,-2897 }, { 216,-2897 },
- { 217,-2897 }, { 218,-2897 }, { 219,-2897 }, { 220,-2897 }, { 221,-2897 },
- { 222,-2897 }, { 223,-2897 }, { 224,-2897 }, { 225,-2897 }, { 226,-2897 },
- { 227,-2897 }, { 228,-2897 }, { 229,-2897 }, { 230,-2897 }, { 231,-2897 },
- { 232,-2897 }, { 233,-2897 }, { 234,-2897 }, { 235,-2897 }, { 236,-2897 },
- { 237,-2897 }, { 238,-2897 }, { 239,-2897 }, { 240,-2897 }, { 241,-2897 },
- { 242,-2897 }, { 243,-2897 }, { 244,-2897 }, { 245,-2897 }, { 246,-2897 },
- { 247,-2897 }, { 248,-2897 }, { 249,-2897 }, { 250,-2897 }, { 251,-2897 },
- { 252,-2897 }, { 253,-2897 }, { 254,-2897 }, { 255,-2897 }, { 256,-2897 },
- {   0,   0 }, {   0,11658 }, {   1,-3155 }, {   2,-3155 }, {   3,-3155 },
-
- {   4,-3155 }, {   5,-3155 }, {   6,-3155 }, {   7,-3155 }, {   8,-3155 },
- {   9,-3276 }, {  10,-3276 }, {  11,-3155 }, {  12,-3155 }, {  13,-3276 },
- {  14,-3155 }, {  15,-3155 }, {  16,-3155 }, {  17,-3155 }, {  18,-3155 },
- {  19,-3155 }, {  20,-3155 }, {  21,-3155 }, {  22,-3155 }, {  23,-3155 },
- {  24,-3155 }, {  25,-3155 }, {  26,-3155 }, {  27,-3155 }, {  28,-3155 },
- {  29,-3155 }, {  30,-3155 }, {  31,-3155 }, {  32,-3276 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-3155 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-3276 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-3155 }, {  46,-3276 }, {  47,-3276 }, {  48,-3155 },
- {  49,-3155 }, {  50,-3155 }, {  51,-3155 }, {  52,-3155 }, {  53,-3155 },
-
- {  54,-3155 }, {  55,-3155 }, {  56,-3155 }, {  57,-3155 }, {  58,-3155 },
- {   0,   0 }, {   0,   0 }, {  61,-3276 }, {   0,   0 }, {  63,-3155 },
- {   0,   0 }, {  65,-3155 }, {  66,-3155 }, {  67,-3155 }, {  68,-3155 },
- {  69,-3155 }, {  70,-3155 }, {  71,-3155 }, {  72,-3155 }, {  73,-3155 },
- {  74,-3155 }, {  75,-3155 }, {  76,-3155 }, {  77,-3155 }, {  78,-3155 },
- {  79,-3155 }, {  80,-3155 }, {  81,-3155 }, {  82,-3155 }, {  83,-3155 },
- {  84,-3155 }, {  85,-3155 }, {  86,-3155 }, {  87,-3155 }, {  88,-3155 },
- {  89,-3155 }, {  90,-3155 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-3155 }, {   0,   0 }, {  97,-3155 }, {  98,-3155 },
- {  99,-3155 }, { 100,3866 }, { 101,-3155 }, { 102,-3155 }, { 103,-3155 },
-
- { 104,-3155 }, { 105,-3155 }, { 106,-3155 }, { 107,-3155 }, { 108,-3155 },
- { 109,-3155 }, { 110,-3155 }, { 111,-3155 }, { 112,-3155 }, { 113,-3155 },
- { 114,-3155 }, { 115,-3155 }, { 116,-3155 }, { 117,-3155 }, { 118,-3155 },
- { 119,-3155 }, { 120,-3155 }, { 121,-3155 }, { 122,-3155 }, {   0,   0 },
- { 124,-3276 }, { 125,-3276 }, { 126,-3276 }, { 127,-3155 }, { 128,-3155 },
- { 129,-3155 }, { 130,-3155 }, { 131,-3155 }, { 132,-3155 }, { 133,-3155 },
- { 134,-3155 }, { 135,-3155 }, { 136,-3155 }, { 137,-3155 }, { 138,-3155 },
- { 139,-3155 }, { 140,-3155 }, { 141,-3155 }, { 142,-3155 }, { 143,-3155 },
- { 144,-3155 }, { 145,-3155 }, { 146,-3155 }, { 147,-3155 }, { 148,-3155 },
- { 149,-3155 }, { 150,-3155 }, { 151,-3155 }, { 152,-3155 }, { 153,-3155 },
-
- { 154,-3155 }, { 155,-3155 }, { 156,-3155 }, { 157,-3155 }, { 158,-3155 },
- { 159,-3155 }, { 160,-3155 }, { 161,-3155 }, { 162,-3155 }, { 163,-3155 },
- { 164,-3155 }, { 165,-3155 }, { 166,-3155 }, { 167,-3155 }, { 168,-3155 },
- { 169,-3155 }, { 170,-3155 }, { 171,-3155 }, { 172,-3155 }, { 173,-3155 },
- { 174,-3155 }, { 175,-3155 }, { 176,-3155 }, { 177,-3155 }, { 178,-3155 },
- { 179,-3155 }, { 180,-3155 }, { 181,-3155 }, { 182,-3155 }, { 183,-3155 },
- { 184,-3155 }, { 185,-3155 }, { 186,-3155 }, { 187,-3155 }, { 188,-3155 },
- { 189,-3155 }, { 190,-3155 }, { 191,-3155 }, { 192,-3155 }, { 193,-3155 },
- { 194,-3155 }, { 195,-3155 }, { 196,-3155 }, { 197,-3155 }, { 198,-3155 },
- { 199,-3155 }, { 200,-3155 }, { 201,-3155 }, { 202,-3155 }, { 203,-3155 },
-
- { 204,-3155 }, { 205,-3155 }, { 206,-3155 }, { 207,-3155 }, { 208,-3155 },
- { 209,-3155 }, { 210,-3155 }, { 211,-3155 }, { 212,-3155 }, { 213,-3155 },
- { 214,-3155 }, { 215,-3155 }, { 216,-3155 }, { 217,-3155 }, { 218,-3155 },
- { 219,-3155 }, { 220,-3155 }, { 221,-3155 }, { 222,-3155 }, { 223,-3155 },
- { 224,-3155 }, { 225,-3155 }, { 226,-3155 }, { 227,-3155 }, { 228,-3155 },
- { 229,-3155 }, { 230,-3155 }, { 231,-3155 }, { 232,-3155 }, { 233,-3155 },
- { 234,-3155 }, { 235,-3155 }, { 236,-3155 }, { 237,-3155 }, { 238,-3155 },
- { 239,-3155 }, { 240,-3155 }, { 241,-3155 }, { 242,-3155 }, { 243,-3155 },
- { 244,-3155 }, { 245,-3155 }, { 246,-3155 }, { 247,-3155 }, { 248,-3155 },
- { 249,-3155 }, { 250,-3155 }, { 251,-3155 }, { 252,-3155 }, { 253,-3155 },
-
- { 254,-3155 }, { 255,-3155 }, { 256,-3155 }, {   0,  31 }, {   0,11400 },
- {   0,  21 }, {   0,11398 }, {   0,  28 }, {   0,11396 }, {   0,  31 },
- {   0,11394 }, {   0,  22 }, {   0,11392 }, {   9,3866 }, {  10,3866 },
- {   0,  19 }, {   0,11388 }, {  13,3866 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,3866 }, {  33,-3471 }, {   0,   0 }, {  35,   2 },
- {   0,   0 }, {   0,   0 }, {  38,   4 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  42,   6 }, {   0,   0 }, {  42,5058 }, {   0,   0 },
-
- {   0,   0 }, {  47,   8 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  62,  12 }, {   0,   0 }, {  62,5061 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3868 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,3870 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,3872 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,3874 }, {   0,   0 }, {   0,   0 },
- { 126,3881 }, {   0,   0 }, {   0,11272 }, {   1,   0 }, {   2,   0 },
+ { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,10889 },
+ {   1,3497 }, {   2,3497 }, {   3,3497 }, {   4,3497 }, {   5,3497 },
+ {   6,3497 }, {   7,3497 }, {   8,3497 }, {   9,3497 }, {  10,3497 },
+ {  11,3497 }, {  12,3497 }, {  13,3497 }, {  14,3497 }, {  15,3497 },
+ {  16,3497 }, {  17,3497 }, {  18,3497 }, {  19,3497 }, {  20,3497 },
+ {  21,3497 }, {  22,3497 }, {  23,3497 }, {  24,3497 }, {  25,3497 },
+ {  26,3497 }, {  27,3497 }, {  28,3497 }, {  29,3497 }, {  30,3497 },
+ {  31,3497 }, {  32,3497 }, {  33,3497 }, {  34,3497 }, {  35,3497 },
+
+ {  36,3497 }, {  37,3497 }, {  38,3497 }, {  39,3497 }, {  40,3497 },
+ {  41,3497 }, {  42,3497 }, {  43,3497 }, {  44,3497 }, {  45,3755 },
+ {  46,3497 }, {  47,3497 }, {  48,3497 }, {  49,3497 }, {  50,3497 },
+ {  51,3497 }, {  52,3497 }, {  53,3497 }, {  54,3497 }, {  55,3497 },
+ {  56,3497 }, {  57,3497 }, {  58,3497 }, {  59,3497 }, {  60,3497 },
+ {  61,3497 }, {  62,3497 }, {  63,3497 }, {  64,3497 }, {  65,3497 },
+ {  66,3497 }, {  67,3497 }, {  68,3497 }, {  69,3497 }, {  70,3497 },
+ {  71,3497 }, {  72,3497 }, {  73,3497 }, {  74,3497 }, {  75,3497 },
+ {  76,3497 }, {  77,3497 }, {  78,3497 }, {  79,3497 }, {  80,3497 },
+ {  81,3497 }, {  82,3497 }, {  83,3497 }, {  84,3497 }, {  85,3497 },
+
+ {  86,3497 }, {  87,3497 }, {  88,3497 }, {  89,3497 }, {  90,3497 },
+ {  91,3497 }, {  92,3497 }, {  93,3497 }, {  94,3497 }, {  95,3497 },
+ {  96,3497 }, {  97,3497 }, {  98,3497 }, {  99,3497 }, { 100,3497 },
+ { 101,3497 }, { 102,3497 }, { 103,3497 }, { 104,3497 }, { 105,3497 },
+ { 106,3497 }, { 107,3497 }, { 108,3497 }, { 109,3497 }, { 110,3497 },
+ { 111,3497 }, { 112,3497 }, { 113,3497 }, { 114,3497 }, { 115,3497 },
+ { 116,3497 }, { 117,3497 }, { 118,3497 }, { 119,3497 }, { 120,3497 },
+ { 121,3497 }, { 122,3497 }, { 123,3497 }, { 124,3497 }, { 125,4013 },
+ { 126,4271 }, { 127,3497 }, { 128,3497 }, { 129,3497 }, { 130,3497 },
+ { 131,3497 }, { 132,3497 }, { 133,3497 }, { 134,3497 }, { 135,3497 },
+
+ { 136,3497 }, { 137,3497 }, { 138,3497 }, { 139,3497 }, { 140,3497 },
+ { 141,3497 }, { 142,3497 }, { 143,3497 }, { 144,3497 }, { 145,3497 },
+ { 146,3497 }, { 147,3497 }, { 148,3497 }, { 149,3497 }, { 150,3497 },
+ { 151,3497 }, { 152,3497 }, { 153,3497 }, { 154,3497 }, { 155,3497 },
+ { 156,3497 }, { 157,3497 }, { 158,3497 }, { 159,3497 }, { 160,3497 },
+ { 161,3497 }, { 162,3497 }, { 163,3497 }, { 164,3497 }, { 165,3497 },
+ { 166,3497 }, { 167,3497 }, { 168,3497 }, { 169,3497 }, { 170,3497 },
+ { 171,3497 }, { 172,3497 }, { 173,3497 }, { 174,3497 }, { 175,3497 },
+ { 176,3497 }, { 177,3497 }, { 178,3497 }, { 179,3497 }, { 180,3497 },
+ { 181,3497 }, { 182,3497 }, { 183,3497 }, { 184,3497 }, { 185,3497 },
+
+ { 186,3497 }, { 187,3497 }, { 188,3497 }, { 189,3497 }, { 190,3497 },
+ { 191,3497 }, { 192,3497 }, { 193,3497 }, { 194,3497 }, { 195,3497 },
+ { 196,3497 }, { 197,3497 }, { 198,3497 }, { 199,3497 }, { 200,3497 },
+ { 201,3497 }, { 202,3497 }, { 203,3497 }, { 204,3497 }, { 205,3497 },
+ { 206,3497 }, { 207,3497 }, { 208,3497 }, { 209,3497 }, { 210,3497 },
+ { 211,3497 }, { 212,3497 }, { 213,3497 }, { 214,3497 }, { 215,3497 },
+ { 216,3497 }, { 217,3497 }, { 218,3497 }, { 219,3497 }, { 220,3497 },
+ { 221,3497 }, { 222,3497 }, { 223,3497 }, { 224,3497 }, { 225,3497 },
+ { 226,3497 }, { 227,3497 }, { 228,3497 }, { 229,3497 }, { 230,3497 },
+ { 231,3497 }, { 232,3497 }, { 233,3497 }, { 234,3497 }, { 235,3497 },
+
+ { 236,3497 }, { 237,3497 }, { 238,3497 }, { 239,3497 }, { 240,3497 },
+ { 241,3497 }, { 242,3497 }, { 243,3497 }, { 244,3497 }, { 245,3497 },
+ { 246,3497 }, { 247,3497 }, { 248,3497 }, { 249,3497 }, { 250,3497 },
+ { 251,3497 }, { 252,3497 }, { 253,3497 }, { 254,3497 }, { 255,3497 },
+ { 256,3497 }, {   0,   0 }, {   0,10631 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
  {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
-
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
  {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+
  {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
  {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
  {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
+ {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
  {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
-
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
  {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
@@ -3240,9 +3425,9 @@ static const struct yy_trans_info yy_transition[23409] =
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
-
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 123,   0 }, { 124,   0 }, { 125, 258 }, { 126,   0 }, { 127,   0 },
+
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
@@ -3251,9 +3436,9 @@ static const struct yy_trans_info yy_transition[23409] =
  { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
-
  { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
  { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+
  { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
@@ -3262,31 +3447,31 @@ static const struct yy_trans_info yy_transition[23409] =
  { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
-
  { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
  { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+
  { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
  { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0,11014 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   0,10373 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
  {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
-
  {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
  {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
+
  {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
  {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
  {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
  {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
  {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
- {  45, 258 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
+ {  45,-258 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
  {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
  {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
-
  {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
  {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
+
  {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
  {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
  {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
@@ -3295,20 +3480,20 @@ static const struct yy_trans_info yy_transition[23409] =
  {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
  { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
  { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
-
  { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
  { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
+
  { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
- { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
+ { 125,-1157 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
  { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
  { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
  { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
  { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
  { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
  { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
-
  { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
  { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
+
  { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
  { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
  { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
@@ -3317,9 +3502,9 @@ static const struct yy_trans_info yy_transition[23409] =
  { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
  { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
  { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
-
  { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
  { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
+
  { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
  { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
  { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
@@ -3327,131 +3512,673 @@ static const struct yy_trans_info yy_transition[23409] =
  { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
  { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
  { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
- { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,10756 }, {   1,3366 },
-
- {   2,3366 }, {   3,3366 }, {   4,3366 }, {   5,3366 }, {   6,3366 },
- {   7,3366 }, {   8,3366 }, {   9,3366 }, {  10,3366 }, {  11,3366 },
- {  12,3366 }, {  13,3366 }, {  14,3366 }, {  15,3366 }, {  16,3366 },
- {  17,3366 }, {  18,3366 }, {  19,3366 }, {  20,3366 }, {  21,3366 },
- {  22,3366 }, {  23,3366 }, {  24,3366 }, {  25,3366 }, {  26,3366 },
- {  27,3366 }, {  28,3366 }, {  29,3366 }, {  30,3366 }, {  31,3366 },
- {  32,3366 }, {  33,3366 }, {  34,3366 }, {  35,3366 }, {  36,3366 },
- {  37,3366 }, {  38,3366 }, {  39,3366 }, {  40,3366 }, {  41,3366 },
- {  42,3366 }, {  43,3366 }, {  44,3366 }, {  45,3624 }, {  46,3366 },
- {  47,3366 }, {  48,3366 }, {  49,3366 }, {  50,3366 }, {  51,3366 },
-
- {  52,3366 }, {  53,3366 }, {  54,3366 }, {  55,3366 }, {  56,3366 },
- {  57,3366 }, {  58,3366 }, {  59,3366 }, {  60,3366 }, {  61,3366 },
- {  62,3366 }, {  63,3366 }, {  64,3366 }, {  65,3366 }, {  66,3366 },
- {  67,3366 }, {  68,3366 }, {  69,3366 }, {  70,3366 }, {  71,3366 },
- {  72,3366 }, {  73,3366 }, {  74,3366 }, {  75,3366 }, {  76,3366 },
- {  77,3366 }, {  78,3366 }, {  79,3366 }, {  80,3366 }, {  81,3366 },
- {  82,3366 }, {  83,3366 }, {  84,3366 }, {  85,3366 }, {  86,3366 },
- {  87,3366 }, {  88,3366 }, {  89,3366 }, {  90,3366 }, {  91,3366 },
- {  92,3366 }, {  93,3366 }, {  94,3366 }, {  95,3366 }, {  96,3366 },
- {  97,3366 }, {  98,3366 }, {  99,3366 }, { 100,3366 }, { 101,3366 },
-
- { 102,3366 }, { 103,3366 }, { 104,3366 }, { 105,3366 }, { 106,3366 },
- { 107,3366 }, { 108,3366 }, { 109,3366 }, { 110,3366 }, { 111,3366 },
- { 112,3366 }, { 113,3366 }, { 114,3366 }, { 115,3366 }, { 116,3366 },
- { 117,3366 }, { 118,3366 }, { 119,3366 }, { 120,3366 }, { 121,3366 },
- { 122,3366 }, { 123,3366 }, { 124,3366 }, { 125,3882 }, { 126,4140 },
- { 127,3366 }, { 128,3366 }, { 129,3366 }, { 130,3366 }, { 131,3366 },
- { 132,3366 }, { 133,3366 }, { 134,3366 }, { 135,3366 }, { 136,3366 },
- { 137,3366 }, { 138,3366 }, { 139,3366 }, { 140,3366 }, { 141,3366 },
- { 142,3366 }, { 143,3366 }, { 144,3366 }, { 145,3366 }, { 146,3366 },
- { 147,3366 }, { 148,3366 }, { 149,3366 }, { 150,3366 }, { 151,3366 },
-
- { 152,3366 }, { 153,3366 }, { 154,3366 }, { 155,3366 }, { 156,3366 },
- { 157,3366 }, { 158,3366 }, { 159,3366 }, { 160,3366 }, { 161,3366 },
- { 162,3366 }, { 163,3366 }, { 164,3366 }, { 165,3366 }, { 166,3366 },
- { 167,3366 }, { 168,3366 }, { 169,3366 }, { 170,3366 }, { 171,3366 },
- { 172,3366 }, { 173,3366 }, { 174,3366 }, { 175,3366 }, { 176,3366 },
- { 177,3366 }, { 178,3366 }, { 179,3366 }, { 180,3366 }, { 181,3366 },
- { 182,3366 }, { 183,3366 }, { 184,3366 }, { 185,3366 }, { 186,3366 },
- { 187,3366 }, { 188,3366 }, { 189,3366 }, { 190,3366 }, { 191,3366 },
- { 192,3366 }, { 193,3366 }, { 194,3366 }, { 195,3366 }, { 196,3366 },
- { 197,3366 }, { 198,3366 }, { 199,3366 }, { 200,3366 }, { 201,3366 },
-
- { 202,3366 }, { 203,3366 }, { 204,3366 }, { 205,3366 }, { 206,3366 },
- { 207,3366 }, { 208,3366 }, { 209,3366 }, { 210,3366 }, { 211,3366 },
- { 212,3366 }, { 213,3366 }, { 214,3366 }, { 215,3366 }, { 216,3366 },
- { 217,3366 }, { 218,3366 }, { 219,3366 }, { 220,3366 }, { 221,3366 },
- { 222,3366 }, { 223,3366 }, { 224,3366 }, { 225,3366 }, { 226,3366 },
- { 227,3366 }, { 228,3366 }, { 229,3366 }, { 230,3366 }, { 231,3366 },
- { 232,3366 }, { 233,3366 }, { 234,3366 }, { 235,3366 }, { 236,3366 },
- { 237,3366 }, { 238,3366 }, { 239,3366 }, { 240,3366 }, { 241,3366 },
- { 242,3366 }, { 243,3366 }, { 244,3366 }, { 245,3366 }, { 246,3366 },
- { 247,3366 }, { 248,3366 }, { 249,3366 }, { 250,3366 }, { 251,3366 },
-
- { 252,3366 }, { 253,3366 }, { 254,3366 }, { 255,3366 }, { 256,3366 },
- {   0,   0 }, {   0,10498 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
-
- {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+ { 255,-258 }, { 256,-258 }, {   0,  10 }, {   0,10115 }, {   1,   0 },
+ {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
+ {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
 
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125, 258 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
+ {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
+ {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
+ {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
+ {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
+ {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
+ {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 },
+ {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
+ {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
+ {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
 
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
+ {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
+ {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
+ {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
+ {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
+ {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
+ {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
+ {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
+ { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
+ { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
 
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
+ { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
+ { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
+ { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
+ { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
+ { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
+ { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
+ { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
+ { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
+ { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
 
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10240 },
+ { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+ { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
+ { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
+ { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
+ { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
+ { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
+ { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
+ { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
+ { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
+ { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
+
+ { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+ { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
+ { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
+ { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
+ { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
+ { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
+ { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
+ { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
+ { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
+ {   0,   0 }, {   0,9857 }, {   0,   0 }, {   0,9855 }, {   0,   0 },
+
+ {   0,9853 }, {   0,   5 }, {   0,9851 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,  49 }, {   0,9760 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3497 },
+ {   0,   0 }, { 123,3497 }, {   0,   0 }, { 123,3497 }, {   0,   4 },
+ {   0,9728 }, {   1,3497 }, {   2,3497 }, {   3,3497 }, {   4,3497 },
+ {   5,3497 }, {   6,3497 }, {   7,3497 }, {   8,3497 }, {   9,3497 },
+ {  10,3374 }, {  11,3497 }, {  12,3497 }, {  13,3374 }, {  14,3497 },
+ {  15,3497 }, {  16,3497 }, {  17,3497 }, {  18,3497 }, {  19,3497 },
+ {  20,3497 }, {  21,3497 }, {  22,3497 }, {  23,3497 }, {  24,3497 },
+
+ {  25,3497 }, {  26,3497 }, {  27,3497 }, {  28,3497 }, {  29,3497 },
+ {  30,3497 }, {  31,3497 }, {  32,3497 }, {  33,3497 }, {  34,3497 },
+ {  35,3497 }, {  36,3497 }, {  37,3497 }, {  38,3497 }, {  39,3497 },
+ {  40,3497 }, {  41,3497 }, {  42,3497 }, {  43,3497 }, {  44,3497 },
+ {  45,3497 }, {  46,3497 }, {  47,3497 }, {  48,3497 }, {  49,3497 },
+ {  50,3497 }, {  51,3497 }, {  52,3497 }, {  53,3497 }, {  54,3497 },
+ {  55,3497 }, {  56,3497 }, {  57,3497 }, {  58,3497 }, {  59,3497 },
+ {  60,3497 }, {  61,3497 }, {  62,3497 }, {  63,3497 }, {  64,3497 },
+ {  65,3497 }, {  66,3497 }, {  67,3497 }, {  68,3497 }, {  69,3497 },
+ {  70,3497 }, {  71,3497 }, {  72,3497 }, {  73,3497 }, {  74,3497 },
+
+ {  75,3497 }, {  76,3497 }, {  77,3497 }, {  78,3497 }, {  79,3497 },
+ {  80,3497 }, {  81,3497 }, {  82,3497 }, {  83,3497 }, {  84,3497 },
+ {  85,3497 }, {  86,3497 }, {  87,3497 }, {  88,3497 }, {  89,3497 },
+ {  90,3497 }, {  91,3497 }, { 124,3410 }, {  93,3497 }, {  94,3497 },
+ {  95,3497 }, {  96,3497 }, {  97,3497 }, {  98,3497 }, {  99,3497 },
+ { 100,3497 }, { 101,3497 }, { 102,3497 }, { 103,3497 }, { 104,3497 },
+ { 105,3497 }, { 106,3497 }, { 107,3497 }, { 108,3497 }, { 109,3497 },
+ { 110,3497 }, { 111,3497 }, { 112,3497 }, { 113,3497 }, { 114,3497 },
+ { 115,3497 }, { 116,3497 }, { 117,3497 }, { 118,3497 }, { 119,3497 },
+ { 120,3497 }, { 121,3497 }, { 122,3497 }, { 123,3755 }, { 124,3497 },
+
+ { 125,3497 }, { 126,3497 }, { 127,3497 }, { 128,3497 }, { 129,3497 },
+ { 130,3497 }, { 131,3497 }, { 132,3497 }, { 133,3497 }, { 134,3497 },
+ { 135,3497 }, { 136,3497 }, { 137,3497 }, { 138,3497 }, { 139,3497 },
+ { 140,3497 }, { 141,3497 }, { 142,3497 }, { 143,3497 }, { 144,3497 },
+ { 145,3497 }, { 146,3497 }, { 147,3497 }, { 148,3497 }, { 149,3497 },
+ { 150,3497 }, { 151,3497 }, { 152,3497 }, { 153,3497 }, { 154,3497 },
+ { 155,3497 }, { 156,3497 }, { 157,3497 }, { 158,3497 }, { 159,3497 },
+ { 160,3497 }, { 161,3497 }, { 162,3497 }, { 163,3497 }, { 164,3497 },
+ { 165,3497 }, { 166,3497 }, { 167,3497 }, { 168,3497 }, { 169,3497 },
+ { 170,3497 }, { 171,3497 }, { 172,3497 }, { 173,3497 }, { 174,3497 },
+
+ { 175,3497 }, { 176,3497 }, { 177,3497 }, { 178,3497 }, { 179,3497 },
+ { 180,3497 }, { 181,3497 }, { 182,3497 }, { 183,3497 }, { 184,3497 },
+ { 185,3497 }, { 186,3497 }, { 187,3497 }, { 188,3497 }, { 189,3497 },
+ { 190,3497 }, { 191,3497 }, { 192,3497 }, { 193,3497 }, { 194,3497 },
+ { 195,3497 }, { 196,3497 }, { 197,3497 }, { 198,3497 }, { 199,3497 },
+ { 200,3497 }, { 201,3497 }, { 202,3497 }, { 203,3497 }, { 204,3497 },
+ { 205,3497 }, { 206,3497 }, { 207,3497 }, { 208,3497 }, { 209,3497 },
+ { 210,3497 }, { 211,3497 }, { 212,3497 }, { 213,3497 }, { 214,3497 },
+ { 215,3497 }, { 216,3497 }, { 217,3497 }, { 218,3497 }, { 219,3497 },
+ { 220,3497 }, { 221,3497 }, { 222,3497 }, { 223,3497 }, { 224,3497 },
+
+ { 225,3497 }, { 226,3497 }, { 227,3497 }, { 228,3497 }, { 229,3497 },
+ { 230,3497 }, { 231,3497 }, { 232,3497 }, { 233,3497 }, { 234,3497 },
+ { 235,3497 }, { 236,3497 }, { 237,3497 }, { 238,3497 }, { 239,3497 },
+ { 240,3497 }, { 241,3497 }, { 242,3497 }, { 243,3497 }, { 244,3497 },
+ { 245,3497 }, { 246,3497 }, { 247,3497 }, { 248,3497 }, { 249,3497 },
+ { 250,3497 }, { 251,3497 }, { 252,3497 }, { 253,3497 }, { 254,3497 },
+ { 255,3497 }, { 256,3497 }, {   0,  39 }, {   0,9470 }, {   1,-5223 },
+ {   2,-5223 }, {   3,-5223 }, {   4,-5223 }, {   5,-5223 }, {   6,-5223 },
+ {   7,-5223 }, {   8,-5223 }, {   9,-5223 }, {  10,-5223 }, {  11,-5223 },
+ {  12,-5223 }, {  13,-5223 }, {  14,-5223 }, {  15,-5223 }, {  16,-5223 },
+
+ {  17,-5223 }, {  18,-5223 }, {  19,-5223 }, {  20,-5223 }, {  21,-5223 },
+ {  22,-5223 }, {  23,-5223 }, {  24,-5223 }, {  25,-5223 }, {  26,-5223 },
+ {  27,-5223 }, {  28,-5223 }, {  29,-5223 }, {  30,-5223 }, {  31,-5223 },
+ {  32,-5223 }, {  33,-5223 }, {  34,-5255 }, {  35,-5223 }, {  36,-5223 },
+ {  37,-5223 }, {  38,-5223 }, {  39,-5223 }, {  40,-5223 }, {  41,-5223 },
+ {  42,-5223 }, {  43,-5223 }, {  44,-5223 }, {  45,-5223 }, {  46,-5223 },
+ {  47,-5223 }, {  48,-5223 }, {  49,-5223 }, {  50,-5223 }, {  51,-5223 },
+ {  52,-5223 }, {  53,-5223 }, {  54,-5223 }, {  55,-5223 }, {  56,-5223 },
+ {  57,-5223 }, {  58,-5223 }, {  59,-5223 }, {  60,-5223 }, {  61,-5223 },
+ {  62,-5223 }, {  63,-5223 }, {  64,-5223 }, {  65,-5223 }, {  66,-5223 },
+
+ {  67,-5223 }, {  68,-5223 }, {  69,-5223 }, {  70,-5223 }, {  71,-5223 },
+ {  72,-5223 }, {  73,-5223 }, {  74,-5223 }, {  75,-5223 }, {  76,-5223 },
+ {  77,-5223 }, {  78,-5223 }, {  79,-5223 }, {  80,-5223 }, {  81,-5223 },
+ {  82,-5223 }, {  83,-5223 }, {  84,-5223 }, {  85,-5223 }, {  86,-5223 },
+ {  87,-5223 }, {  88,-5223 }, {  89,-5223 }, {  90,-5223 }, {  91,-5223 },
+ {  92,-4965 }, {  93,-5223 }, {  94,-5223 }, {  95,-5223 }, {  96,-5223 },
+ {  97,-5223 }, {  98,-5223 }, {  99,-5223 }, { 100,-5223 }, { 101,-5223 },
+ { 102,-5223 }, { 103,-5223 }, { 104,-5223 }, { 105,-5223 }, { 106,-5223 },
+ { 107,-5223 }, { 108,-5223 }, { 109,-5223 }, { 110,-5223 }, { 111,-5223 },
+ { 112,-5223 }, { 113,-5223 }, { 114,-5223 }, { 115,-5223 }, { 116,-5223 },
+
+ { 117,-5223 }, { 118,-5223 }, { 119,-5223 }, { 120,-5223 }, { 121,-5223 },
+ { 122,-5223 }, { 123,-5223 }, { 124,-5223 }, { 125,-5223 }, { 126,-5223 },
+ { 127,-5223 }, { 128,-5223 }, { 129,-5223 }, { 130,-5223 }, { 131,-5223 },
+ { 132,-5223 }, { 133,-5223 }, { 134,-5223 }, { 135,-5223 }, { 136,-5223 },
+ { 137,-5223 }, { 138,-5223 }, { 139,-5223 }, { 140,-5223 }, { 141,-5223 },
+ { 142,-5223 }, { 143,-5223 }, { 144,-5223 }, { 145,-5223 }, { 146,-5223 },
+ { 147,-5223 }, { 148,-5223 }, { 149,-5223 }, { 150,-5223 }, { 151,-5223 },
+ { 152,-5223 }, { 153,-5223 }, { 154,-5223 }, { 155,-5223 }, { 156,-5223 },
+ { 157,-5223 }, { 158,-5223 }, { 159,-5223 }, { 160,-5223 }, { 161,-5223 },
+ { 162,-5223 }, { 163,-5223 }, { 164,-5223 }, { 165,-5223 }, { 166,-5223 },
+
+ { 167,-5223 }, { 168,-5223 }, { 169,-5223 }, { 170,-5223 }, { 171,-5223 },
+ { 172,-5223 }, { 173,-5223 }, { 174,-5223 }, { 175,-5223 }, { 176,-5223 },
+ { 177,-5223 }, { 178,-5223 }, { 179,-5223 }, { 180,-5223 }, { 181,-5223 },
+ { 182,-5223 }, { 183,-5223 }, { 184,-5223 }, { 185,-5223 }, { 186,-5223 },
+ { 187,-5223 }, { 188,-5223 }, { 189,-5223 }, { 190,-5223 }, { 191,-5223 },
+ { 192,-5223 }, { 193,-5223 }, { 194,-5223 }, { 195,-5223 }, { 196,-5223 },
+ { 197,-5223 }, { 198,-5223 }, { 199,-5223 }, { 200,-5223 }, { 201,-5223 },
+ { 202,-5223 }, { 203,-5223 }, { 204,-5223 }, { 205,-5223 }, { 206,-5223 },
+ { 207,-5223 }, { 208,-5223 }, { 209,-5223 }, { 210,-5223 }, { 211,-5223 },
+ { 212,-5223 }, { 213,-5223 }, { 214,-5223 }, { 215,-5223 }, { 216,-5223 },
+
+ { 217,-5223 }, { 218,-5223 }, { 219,-5223 }, { 220,-5223 }, { 221,-5223 },
+ { 222,-5223 }, { 223,-5223 }, { 224,-5223 }, { 225,-5223 }, { 226,-5223 },
+ { 227,-5223 }, { 228,-5223 }, { 229,-5223 }, { 230,-5223 }, { 231,-5223 },
+ { 232,-5223 }, { 233,-5223 }, { 234,-5223 }, { 235,-5223 }, { 236,-5223 },
+ { 237,-5223 }, { 238,-5223 }, { 239,-5223 }, { 240,-5223 }, { 241,-5223 },
+ { 242,-5223 }, { 243,-5223 }, { 244,-5223 }, { 245,-5223 }, { 246,-5223 },
+ { 247,-5223 }, { 248,-5223 }, { 249,-5223 }, { 250,-5223 }, { 251,-5223 },
+ { 252,-5223 }, { 253,-5223 }, { 254,-5223 }, { 255,-5223 }, { 256,-5223 },
+ {   0,  40 }, {   0,9212 }, {   1,-4965 }, {   2,-4965 }, {   3,-4965 },
+ {   4,-4965 }, {   5,-4965 }, {   6,-4965 }, {   7,-4965 }, {   8,-4965 },
+
+ {   9,-4965 }, {  10,-4965 }, {  11,-4965 }, {  12,-4965 }, {  13,-4965 },
+ {  14,-4965 }, {  15,-4965 }, {  16,-4965 }, {  17,-4965 }, {  18,-4965 },
+ {  19,-4965 }, {  20,-4965 }, {  21,-4965 }, {  22,-4965 }, {  23,-4965 },
+ {  24,-4965 }, {  25,-4965 }, {  26,-4965 }, {  27,-4965 }, {  28,-4965 },
+ {  29,-4965 }, {  30,-4965 }, {  31,-4965 }, {  32,-4965 }, {  33,-4965 },
+ {  34,-4965 }, {  35,-4965 }, {  36,-4965 }, {  37,-4965 }, {  38,-4965 },
+ {  39,-5511 }, {  40,-4965 }, {  41,-4965 }, {  42,-4965 }, {  43,-4965 },
+ {  44,-4965 }, {  45,-4965 }, {  46,-4965 }, {  47,-4965 }, {  48,-4965 },
+ {  49,-4965 }, {  50,-4965 }, {  51,-4965 }, {  52,-4965 }, {  53,-4965 },
+ {  54,-4965 }, {  55,-4965 }, {  56,-4965 }, {  57,-4965 }, {  58,-4965 },
+
+ {  59,-4965 }, {  60,-4965 }, {  61,-4965 }, {  62,-4965 }, {  63,-4965 },
+ {  64,-4965 }, {  65,-4965 }, {  66,-4965 }, {  67,-4965 }, {  68,-4965 },
+ {  69,-4965 }, {  70,-4965 }, {  71,-4965 }, {  72,-4965 }, {  73,-4965 },
+ {  74,-4965 }, {  75,-4965 }, {  76,-4965 }, {  77,-4965 }, {  78,-4965 },
+ {  79,-4965 }, {  80,-4965 }, {  81,-4965 }, {  82,-4965 }, {  83,-4965 },
+ {  84,-4965 }, {  85,-4965 }, {  86,-4965 }, {  87,-4965 }, {  88,-4965 },
+ {  89,-4965 }, {  90,-4965 }, {  91,-4965 }, {  92,-4707 }, {  93,-4965 },
+ {  94,-4965 }, {  95,-4965 }, {  96,-4965 }, {  97,-4965 }, {  98,-4965 },
+ {  99,-4965 }, { 100,-4965 }, { 101,-4965 }, { 102,-4965 }, { 103,-4965 },
+ { 104,-4965 }, { 105,-4965 }, { 106,-4965 }, { 107,-4965 }, { 108,-4965 },
+
+ { 109,-4965 }, { 110,-4965 }, { 111,-4965 }, { 112,-4965 }, { 113,-4965 },
+ { 114,-4965 }, { 115,-4965 }, { 116,-4965 }, { 117,-4965 }, { 118,-4965 },
+ { 119,-4965 }, { 120,-4965 }, { 121,-4965 }, { 122,-4965 }, { 123,-4965 },
+ { 124,-4965 }, { 125,-4965 }, { 126,-4965 }, { 127,-4965 }, { 128,-4965 },
+ { 129,-4965 }, { 130,-4965 }, { 131,-4965 }, { 132,-4965 }, { 133,-4965 },
+ { 134,-4965 }, { 135,-4965 }, { 136,-4965 }, { 137,-4965 }, { 138,-4965 },
+ { 139,-4965 }, { 140,-4965 }, { 141,-4965 }, { 142,-4965 }, { 143,-4965 },
+ { 144,-4965 }, { 145,-4965 }, { 146,-4965 }, { 147,-4965 }, { 148,-4965 },
+ { 149,-4965 }, { 150,-4965 }, { 151,-4965 }, { 152,-4965 }, { 153,-4965 },
+ { 154,-4965 }, { 155,-4965 }, { 156,-4965 }, { 157,-4965 }, { 158,-4965 },
+
+ { 159,-4965 }, { 160,-4965 }, { 161,-4965 }, { 162,-4965 }, { 163,-4965 },
+ { 164,-4965 }, { 165,-4965 }, { 166,-4965 }, { 167,-4965 }, { 168,-4965 },
+ { 169,-4965 }, { 170,-4965 }, { 171,-4965 }, { 172,-4965 }, { 173,-4965 },
+ { 174,-4965 }, { 175,-4965 }, { 176,-4965 }, { 177,-4965 }, { 178,-4965 },
+ { 179,-4965 }, { 180,-4965 }, { 181,-4965 }, { 182,-4965 }, { 183,-4965 },
+ { 184,-4965 }, { 185,-4965 }, { 186,-4965 }, { 187,-4965 }, { 188,-4965 },
+ { 189,-4965 }, { 190,-4965 }, { 191,-4965 }, { 192,-4965 }, { 193,-4965 },
+ { 194,-4965 }, { 195,-4965 }, { 196,-4965 }, { 197,-4965 }, { 198,-4965 },
+ { 199,-4965 }, { 200,-4965 }, { 201,-4965 }, { 202,-4965 }, { 203,-4965 },
+ { 204,-4965 }, { 205,-4965 }, { 206,-4965 }, { 207,-4965 }, { 208,-4965 },
+
+ { 209,-4965 }, { 210,-4965 }, { 211,-4965 }, { 212,-4965 }, { 213,-4965 },
+ { 214,-4965 }, { 215,-4965 }, { 216,-4965 }, { 217,-4965 }, { 218,-4965 },
+ { 219,-4965 }, { 220,-4965 }, { 221,-4965 }, { 222,-4965 }, { 223,-4965 },
+ { 224,-4965 }, { 225,-4965 }, { 226,-4965 }, { 227,-4965 }, { 228,-4965 },
+ { 229,-4965 }, { 230,-4965 }, { 231,-4965 }, { 232,-4965 }, { 233,-4965 },
+ { 234,-4965 }, { 235,-4965 }, { 236,-4965 }, { 237,-4965 }, { 238,-4965 },
+ { 239,-4965 }, { 240,-4965 }, { 241,-4965 }, { 242,-4965 }, { 243,-4965 },
+ { 244,-4965 }, { 245,-4965 }, { 246,-4965 }, { 247,-4965 }, { 248,-4965 },
+ { 249,-4965 }, { 250,-4965 }, { 251,-4965 }, { 252,-4965 }, { 253,-4965 },
+ { 254,-4965 }, { 255,-4965 }, { 256,-4965 }, {   0,   0 }, {   0,8954 },
+
+ {   0,  30 }, {   0,8952 }, {   0,  21 }, {   0,8950 }, {   0,  28 },
+ {   0,8948 }, {   0,  31 }, {   0,8946 }, {   9,2602 }, {  10,2602 },
+ {   0,  22 }, {   0,8942 }, {  13,2602 }, {   0,  19 }, {   0,8939 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,2602 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,2602 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  42,2608 }, {  45,2606 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
+
+ {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
+ {  56,   0 }, {  57,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  62,2611 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2602 },
+ { 126,2602 }, {   0,  50 }, {   0,8826 }, {   1,-4518 }, {   2,-4518 },
+ {   3,-4518 }, {   4,-4518 }, {   5,-4518 }, {   6,-4518 }, {   7,-4518 },
+ {   8,-4518 }, {   9,-4518 }, {  10,-4518 }, {  11,-4518 }, {  12,-4518 },
+ {  13,-4518 }, {  14,-4518 }, {  15,-4518 }, {  16,-4518 }, {  17,-4518 },
+ {  18,-4518 }, {  19,-4518 }, {  20,-4518 }, {  21,-4518 }, {  22,-4518 },
+
+ {  23,-4518 }, {  24,-4518 }, {  25,-4518 }, {  26,-4518 }, {  27,-4518 },
+ {  28,-4518 }, {  29,-4518 }, {  30,-4518 }, {  31,-4518 }, {  32,-4518 },
+ {  33,-4518 }, {  34,-4518 }, {  35,-4518 }, {  36,-4518 }, {  37,-4518 },
+ {  38,-4518 }, {  39,-4518 }, {  40,-4518 }, {  41,-4518 }, {  42,-4518 },
+ {  43,-4518 }, {  44,-4518 }, {  45,-4518 }, {  46,-4518 }, {  47,-4518 },
+ {  48,-4518 }, {  49,-4518 }, {  50,-4518 }, {  51,-4518 }, {  52,-4518 },
+ {  53,-4518 }, {  54,-4518 }, {  55,-4518 }, {  56,-4518 }, {  57,-4518 },
+ {  58,-4518 }, {  59,-4518 }, {  60,-4518 }, {  61,-4518 }, {  62,-4518 },
+ {  63,-4518 }, {  64,-4518 }, {  65,-4518 }, {  66,-4518 }, {  67,-4518 },
+ {  68,-4518 }, {  69,-4518 }, {  70,-4518 }, {  71,-4518 }, {  72,-4518 },
+
+ {  73,-4518 }, {  74,-4518 }, {  75,-4518 }, {  76,-4518 }, {  77,-4518 },
+ {  78,-4518 }, {  79,-4518 }, {  80,-4518 }, {  81,-4518 }, {  82,-4518 },
+ {  83,-4518 }, {  84,-4518 }, {  85,-4518 }, {  86,-4518 }, {  87,-4518 },
+ {  88,-4518 }, {  89,-4518 }, {  90,-4518 }, {  91,-4518 }, {  92,-4260 },
+ {  93,-5886 }, {  94,-4518 }, {  95,-4518 }, {  96,-4518 }, {  97,-4518 },
+ {  98,-4518 }, {  99,-4518 }, { 100,-4518 }, { 101,-4518 }, { 102,-4518 },
+ { 103,-4518 }, { 104,-4518 }, { 105,-4518 }, { 106,-4518 }, { 107,-4518 },
+ { 108,-4518 }, { 109,-4518 }, { 110,-4518 }, { 111,-4518 }, { 112,-4518 },
+ { 113,-4518 }, { 114,-4518 }, { 115,-4518 }, { 116,-4518 }, { 117,-4518 },
+ { 118,-4518 }, { 119,-4518 }, { 120,-4518 }, { 121,-4518 }, { 122,-4518 },
+
+ { 123,-4518 }, { 124,-4518 }, { 125,-4518 }, { 126,-4518 }, { 127,-4518 },
+ { 128,-4518 }, { 129,-4518 }, { 130,-4518 }, { 131,-4518 }, { 132,-4518 },
+ { 133,-4518 }, { 134,-4518 }, { 135,-4518 }, { 136,-4518 }, { 137,-4518 },
+ { 138,-4518 }, { 139,-4518 }, { 140,-4518 }, { 141,-4518 }, { 142,-4518 },
+ { 143,-4518 }, { 144,-4518 }, { 145,-4518 }, { 146,-4518 }, { 147,-4518 },
+ { 148,-4518 }, { 149,-4518 }, { 150,-4518 }, { 151,-4518 }, { 152,-4518 },
+ { 153,-4518 }, { 154,-4518 }, { 155,-4518 }, { 156,-4518 }, { 157,-4518 },
+ { 158,-4518 }, { 159,-4518 }, { 160,-4518 }, { 161,-4518 }, { 162,-4518 },
+ { 163,-4518 }, { 164,-4518 }, { 165,-4518 }, { 166,-4518 }, { 167,-4518 },
+ { 168,-4518 }, { 169,-4518 }, { 170,-4518 }, { 171,-4518 }, { 172,-4518 },
+
+ { 173,-4518 }, { 174,-4518 }, { 175,-4518 }, { 176,-4518 }, { 177,-4518 },
+ { 178,-4518 }, { 179,-4518 }, { 180,-4518 }, { 181,-4518 }, { 182,-4518 },
+ { 183,-4518 }, { 184,-4518 }, { 185,-4518 }, { 186,-4518 }, { 187,-4518 },
+ { 188,-4518 }, { 189,-4518 }, { 190,-4518 }, { 191,-4518 }, { 192,-4518 },
+ { 193,-4518 }, { 194,-4518 }, { 195,-4518 }, { 196,-4518 }, { 197,-4518 },
+ { 198,-4518 }, { 199,-4518 }, { 200,-4518 }, { 201,-4518 }, { 202,-4518 },
+ { 203,-4518 }, { 204,-4518 }, { 205,-4518 }, { 206,-4518 }, { 207,-4518 },
+ { 208,-4518 }, { 209,-4518 }, { 210,-4518 }, { 211,-4518 }, { 212,-4518 },
+ { 213,-4518 }, { 214,-4518 }, { 215,-4518 }, { 216,-4518 }, { 217,-4518 },
+ { 218,-4518 }, { 219,-4518 }, { 220,-4518 }, { 221,-4518 }, { 222,-4518 },
+
+ { 223,-4518 }, { 224,-4518 }, { 225,-4518 }, { 226,-4518 }, { 227,-4518 },
+ { 228,-4518 }, { 229,-4518 }, { 230,-4518 }, { 231,-4518 }, { 232,-4518 },
+ { 233,-4518 }, { 234,-4518 }, { 235,-4518 }, { 236,-4518 }, { 237,-4518 },
+ { 238,-4518 }, { 239,-4518 }, { 240,-4518 }, { 241,-4518 }, { 242,-4518 },
+ { 243,-4518 }, { 244,-4518 }, { 245,-4518 }, { 246,-4518 }, { 247,-4518 },
+ { 248,-4518 }, { 249,-4518 }, { 250,-4518 }, { 251,-4518 }, { 252,-4518 },
+ { 253,-4518 }, { 254,-4518 }, { 255,-4518 }, { 256,-4518 }, {   0,   0 },
+ {   0,8568 }, {   1,-6417 }, {   2,-6417 }, {   3,-6417 }, {   4,-6417 },
+ {   5,-6417 }, {   6,-6417 }, {   7,-6417 }, {   8,-6417 }, {   9,-6442 },
+ {  10,-6442 }, {  11,-6417 }, {  12,-6417 }, {  13,-6442 }, {  14,-6417 },
+
+ {  15,-6417 }, {  16,-6417 }, {  17,-6417 }, {  18,-6417 }, {  19,-6417 },
+ {  20,-6417 }, {  21,-6417 }, {  22,-6417 }, {  23,-6417 }, {  24,-6417 },
+ {  25,-6417 }, {  26,-6417 }, {  27,-6417 }, {  28,-6417 }, {  29,-6417 },
+ {  30,-6417 }, {  31,-6417 }, {  32,-6442 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-6417 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-6442 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-6417 }, {  46,-6442 }, {  47,-6442 }, {  48,-6417 }, {  49,-6417 },
+ {  50,-6417 }, {  51,-6417 }, {  52,-6417 }, {  53,-6417 }, {  54,-6417 },
+ {  55,-6417 }, {  56,-6417 }, {  57,-6417 }, {  58,-6417 }, {   0,   0 },
+ {   0,   0 }, {  61,-6442 }, {   0,   0 }, {  63,-6417 }, {   0,   0 },
+
+ {  65,-6417 }, {  66,-6417 }, {  67,-6417 }, {  68,-6417 }, {  69,-6417 },
+ {  70,-6417 }, {  71,-6417 }, {  72,-6417 }, {  73,-6417 }, {  74,-6417 },
+ {  75,-6417 }, {  76,-6417 }, {  77,-6417 }, {  78,-6417 }, {  79,-6417 },
+ {  80,-6417 }, {  81,-6417 }, {  82,-6417 }, {  83,-6417 }, {  84,-6417 },
+ {  85,-6417 }, {  86,-6417 }, {  87,-6417 }, {  88,-6417 }, {  89,-6417 },
+ {  90,-6417 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-6417 }, {   0,   0 }, {  97,-6417 }, {  98,-6417 }, {  99,-6417 },
+ { 100,-6417 }, { 101,-6417 }, { 102,-6417 }, { 103,-6417 }, { 104,-6417 },
+ { 105,-6417 }, { 106,-6417 }, { 107,-6417 }, { 108,-6417 }, { 109,-6417 },
+ { 110,-6417 }, { 111,-6417 }, { 112,-6417 }, { 113,-6417 }, { 114,-6417 },
+
+ { 115,2853 }, { 116,-6417 }, { 117,-6417 }, { 118,-6417 }, { 119,-6417 },
+ { 120,-6417 }, { 121,-6417 }, { 122,-6417 }, {   0,   0 }, { 124,-6442 },
+ { 125,-6442 }, { 126,-6442 }, { 127,-6417 }, { 128,-6417 }, { 129,-6417 },
+ { 130,-6417 }, { 131,-6417 }, { 132,-6417 }, { 133,-6417 }, { 134,-6417 },
+ { 135,-6417 }, { 136,-6417 }, { 137,-6417 }, { 138,-6417 }, { 139,-6417 },
+ { 140,-6417 }, { 141,-6417 }, { 142,-6417 }, { 143,-6417 }, { 144,-6417 },
+ { 145,-6417 }, { 146,-6417 }, { 147,-6417 }, { 148,-6417 }, { 149,-6417 },
+ { 150,-6417 }, { 151,-6417 }, { 152,-6417 }, { 153,-6417 }, { 154,-6417 },
+ { 155,-6417 }, { 156,-6417 }, { 157,-6417 }, { 158,-6417 }, { 159,-6417 },
+ { 160,-6417 }, { 161,-6417 }, { 162,-6417 }, { 163,-6417 }, { 164,-6417 },
+
+ { 165,-6417 }, { 166,-6417 }, { 167,-6417 }, { 168,-6417 }, { 169,-6417 },
+ { 170,-6417 }, { 171,-6417 }, { 172,-6417 }, { 173,-6417 }, { 174,-6417 },
+ { 175,-6417 }, { 176,-6417 }, { 177,-6417 }, { 178,-6417 }, { 179,-6417 },
+ { 180,-6417 }, { 181,-6417 }, { 182,-6417 }, { 183,-6417 }, { 184,-6417 },
+ { 185,-6417 }, { 186,-6417 }, { 187,-6417 }, { 188,-6417 }, { 189,-6417 },
+ { 190,-6417 }, { 191,-6417 }, { 192,-6417 }, { 193,-6417 }, { 194,-6417 },
+ { 195,-6417 }, { 196,-6417 }, { 197,-6417 }, { 198,-6417 }, { 199,-6417 },
+ { 200,-6417 }, { 201,-6417 }, { 202,-6417 }, { 203,-6417 }, { 204,-6417 },
+ { 205,-6417 }, { 206,-6417 }, { 207,-6417 }, { 208,-6417 }, { 209,-6417 },
+ { 210,-6417 }, { 211,-6417 }, { 212,-6417 }, { 213,-6417 }, { 214,-6417 },
+
+ { 215,-6417 }, { 216,-6417 }, { 217,-6417 }, { 218,-6417 }, { 219,-6417 },
+ { 220,-6417 }, { 221,-6417 }, { 222,-6417 }, { 223,-6417 }, { 224,-6417 },
+ { 225,-6417 }, { 226,-6417 }, { 227,-6417 }, { 228,-6417 }, { 229,-6417 },
+ { 230,-6417 }, { 231,-6417 }, { 232,-6417 }, { 233,-6417 }, { 234,-6417 },
+ { 235,-6417 }, { 236,-6417 }, { 237,-6417 }, { 238,-6417 }, { 239,-6417 },
+ { 240,-6417 }, { 241,-6417 }, { 242,-6417 }, { 243,-6417 }, { 244,-6417 },
+ { 245,-6417 }, { 246,-6417 }, { 247,-6417 }, { 248,-6417 }, { 249,-6417 },
+ { 250,-6417 }, { 251,-6417 }, { 252,-6417 }, { 253,-6417 }, { 254,-6417 },
+ { 255,-6417 }, { 256,-6417 }, {   0,   0 }, {   0,8310 }, {   1,-6675 },
+ {   2,-6675 }, {   3,-6675 }, {   4,-6675 }, {   5,-6675 }, {   6,-6675 },
+
+ {   7,-6675 }, {   8,-6675 }, {   9,-6700 }, {  10,-6700 }, {  11,-6675 },
+ {  12,-6675 }, {  13,-6700 }, {  14,-6675 }, {  15,-6675 }, {  16,-6675 },
+ {  17,-6675 }, {  18,-6675 }, {  19,-6675 }, {  20,-6675 }, {  21,-6675 },
+ {  22,-6675 }, {  23,-6675 }, {  24,-6675 }, {  25,-6675 }, {  26,-6675 },
+ {  27,-6675 }, {  28,-6675 }, {  29,-6675 }, {  30,-6675 }, {  31,-6675 },
+ {  32,-6700 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6675 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6700 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6675 }, {  46,-6700 },
+ {  47,-6700 }, {  48,-6675 }, {  49,-6675 }, {  50,-6675 }, {  51,-6675 },
+ {  52,-6675 }, {  53,-6675 }, {  54,-6675 }, {  55,-6675 }, {  56,-6675 },
+
+ {  57,-6675 }, {  58,-6675 }, {   0,   0 }, {   0,   0 }, {  61,-6700 },
+ {   0,   0 }, {  63,-6675 }, {   0,   0 }, {  65,-6675 }, {  66,-6675 },
+ {  67,-6675 }, {  68,-6675 }, {  69,-6675 }, {  70,-6675 }, {  71,-6675 },
+ {  72,-6675 }, {  73,-6675 }, {  74,-6675 }, {  75,-6675 }, {  76,-6675 },
+ {  77,-6675 }, {  78,-6675 }, {  79,-6675 }, {  80,-6675 }, {  81,-6675 },
+ {  82,-6675 }, {  83,-6675 }, {  84,-6675 }, {  85,-6675 }, {  86,-6675 },
+ {  87,-6675 }, {  88,-6675 }, {  89,-6675 }, {  90,-6675 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6675 }, {   0,   0 },
+ {  97,-6675 }, {  98,-6675 }, {  99,-6675 }, { 100,-6675 }, { 101,-6675 },
+ { 102,-6675 }, { 103,-6675 }, { 104,-6675 }, { 105,-6675 }, { 106,-6675 },
+
+ { 107,-6675 }, { 108,2853 }, { 109,-6675 }, { 110,-6675 }, { 111,-6675 },
+ { 112,-6675 }, { 113,-6675 }, { 114,-6675 }, { 115,-6675 }, { 116,-6675 },
+ { 117,-6675 }, { 118,-6675 }, { 119,-6675 }, { 120,-6675 }, { 121,-6675 },
+ { 122,-6675 }, {   0,   0 }, { 124,-6700 }, { 125,-6700 }, { 126,-6700 },
+ { 127,-6675 }, { 128,-6675 }, { 129,-6675 }, { 130,-6675 }, { 131,-6675 },
+ { 132,-6675 }, { 133,-6675 }, { 134,-6675 }, { 135,-6675 }, { 136,-6675 },
+ { 137,-6675 }, { 138,-6675 }, { 139,-6675 }, { 140,-6675 }, { 141,-6675 },
+ { 142,-6675 }, { 143,-6675 }, { 144,-6675 }, { 145,-6675 }, { 146,-6675 },
+ { 147,-6675 }, { 148,-6675 }, { 149,-6675 }, { 150,-6675 }, { 151,-6675 },
+ { 152,-6675 }, { 153,-6675 }, { 154,-6675 }, { 155,-6675 }, { 156,-6675 },
+
+ { 157,-6675 }, { 158,-6675 }, { 159,-6675 }, { 160,-6675 }, { 161,-6675 },
+ { 162,-6675 }, { 163,-6675 }, { 164,-6675 }, { 165,-6675 }, { 166,-6675 },
+ { 167,-6675 }, { 168,-6675 }, { 169,-6675 }, { 170,-6675 }, { 171,-6675 },
+ { 172,-6675 }, { 173,-6675 }, { 174,-6675 }, { 175,-6675 }, { 176,-6675 },
+ { 177,-6675 }, { 178,-6675 }, { 179,-6675 }, { 180,-6675 }, { 181,-6675 },
+ { 182,-6675 }, { 183,-6675 }, { 184,-6675 }, { 185,-6675 }, { 186,-6675 },
+ { 187,-6675 }, { 188,-6675 }, { 189,-6675 }, { 190,-6675 }, { 191,-6675 },
+ { 192,-6675 }, { 193,-6675 }, { 194,-6675 }, { 195,-6675 }, { 196,-6675 },
+ { 197,-6675 }, { 198,-6675 }, { 199,-6675 }, { 200,-6675 }, { 201,-6675 },
+ { 202,-6675 }, { 203,-6675 }, { 204,-6675 }, { 205,-6675 }, { 206,-6675 },
+
+ { 207,-6675 }, { 208,-6675 }, { 209,-6675 }, { 210,-6675 }, { 211,-6675 },
+ { 212,-6675 }, { 213,-6675 }, { 214,-6675 }, { 215,-6675 }, { 216,-6675 },
+ { 217,-6675 }, { 218,-6675 }, { 219,-6675 }, { 220,-6675 }, { 221,-6675 },
+ { 222,-6675 }, { 223,-6675 }, { 224,-6675 }, { 225,-6675 }, { 226,-6675 },
+ { 227,-6675 }, { 228,-6675 }, { 229,-6675 }, { 230,-6675 }, { 231,-6675 },
+ { 232,-6675 }, { 233,-6675 }, { 234,-6675 }, { 235,-6675 }, { 236,-6675 },
+ { 237,-6675 }, { 238,-6675 }, { 239,-6675 }, { 240,-6675 }, { 241,-6675 },
+ { 242,-6675 }, { 243,-6675 }, { 244,-6675 }, { 245,-6675 }, { 246,-6675 },
+ { 247,-6675 }, { 248,-6675 }, { 249,-6675 }, { 250,-6675 }, { 251,-6675 },
+ { 252,-6675 }, { 253,-6675 }, { 254,-6675 }, { 255,-6675 }, { 256,-6675 },
+
+ {   0,   0 }, {   0,8052 }, {   1,-6933 }, {   2,-6933 }, {   3,-6933 },
+ {   4,-6933 }, {   5,-6933 }, {   6,-6933 }, {   7,-6933 }, {   8,-6933 },
+ {   9,-6958 }, {  10,-6958 }, {  11,-6933 }, {  12,-6933 }, {  13,-6958 },
+ {  14,-6933 }, {  15,-6933 }, {  16,-6933 }, {  17,-6933 }, {  18,-6933 },
+ {  19,-6933 }, {  20,-6933 }, {  21,-6933 }, {  22,-6933 }, {  23,-6933 },
+ {  24,-6933 }, {  25,-6933 }, {  26,-6933 }, {  27,-6933 }, {  28,-6933 },
+ {  29,-6933 }, {  30,-6933 }, {  31,-6933 }, {  32,-6958 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-6933 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-6958 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-6933 }, {  46,-6958 }, {  47,-6958 }, {  48,-6933 },
+
+ {  49,-6933 }, {  50,-6933 }, {  51,-6933 }, {  52,-6933 }, {  53,-6933 },
+ {  54,-6933 }, {  55,-6933 }, {  56,-6933 }, {  57,-6933 }, {  58,-6933 },
+ {   0,   0 }, {   0,   0 }, {  61,-6958 }, {   0,   0 }, {  63,-6933 },
+ {   0,   0 }, {  65,-6933 }, {  66,-6933 }, {  67,-6933 }, {  68,-6933 },
+ {  69,-6933 }, {  70,-6933 }, {  71,-6933 }, {  72,-6933 }, {  73,-6933 },
+ {  74,-6933 }, {  75,-6933 }, {  76,-6933 }, {  77,-6933 }, {  78,-6933 },
+ {  79,-6933 }, {  80,-6933 }, {  81,-6933 }, {  82,-6933 }, {  83,-6933 },
+ {  84,-6933 }, {  85,-6933 }, {  86,-6933 }, {  87,-6933 }, {  88,-6933 },
+ {  89,-6933 }, {  90,-6933 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-6933 }, {   0,   0 }, {  97,-6933 }, {  98,-6933 },
+
+ {  99,-6933 }, { 100,-6933 }, { 101,2853 }, { 102,-6933 }, { 103,-6933 },
+ { 104,-6933 }, { 105,-6933 }, { 106,-6933 }, { 107,-6933 }, { 108,-6933 },
+ { 109,-6933 }, { 110,-6933 }, { 111,-6933 }, { 112,-6933 }, { 113,-6933 },
+ { 114,-6933 }, { 115,-6933 }, { 116,-6933 }, { 117,-6933 }, { 118,-6933 },
+ { 119,-6933 }, { 120,-6933 }, { 121,-6933 }, { 122,-6933 }, {   0,   0 },
+ { 124,-6958 }, { 125,-6958 }, { 126,-6958 }, { 127,-6933 }, { 128,-6933 },
+ { 129,-6933 }, { 130,-6933 }, { 131,-6933 }, { 132,-6933 }, { 133,-6933 },
+ { 134,-6933 }, { 135,-6933 }, { 136,-6933 }, { 137,-6933 }, { 138,-6933 },
+ { 139,-6933 }, { 140,-6933 }, { 141,-6933 }, { 142,-6933 }, { 143,-6933 },
+ { 144,-6933 }, { 145,-6933 }, { 146,-6933 }, { 147,-6933 }, { 148,-6933 },
+
+ { 149,-6933 }, { 150,-6933 }, { 151,-6933 }, { 152,-6933 }, { 153,-6933 },
+ { 154,-6933 }, { 155,-6933 }, { 156,-6933 }, { 157,-6933 }, { 158,-6933 },
+ { 159,-6933 }, { 160,-6933 }, { 161,-6933 }, { 162,-6933 }, { 163,-6933 },
+ { 164,-6933 }, { 165,-6933 }, { 166,-6933 }, { 167,-6933 }, { 168,-6933 },
+ { 169,-6933 }, { 170,-6933 }, { 171,-6933 }, { 172,-6933 }, { 173,-6933 },
+ { 174,-6933 }, { 175,-6933 }, { 176,-6933 }, { 177,-6933 }, { 178,-6933 },
+ { 179,-6933 }, { 180,-6933 }, { 181,-6933 }, { 182,-6933 }, { 183,-6933 },
+ { 184,-6933 }, { 185,-6933 }, { 186,-6933 }, { 187,-6933 }, { 188,-6933 },
+ { 189,-6933 }, { 190,-6933 }, { 191,-6933 }, { 192,-6933 }, { 193,-6933 },
+ { 194,-6933 }, { 195,-6933 }, { 196,-6933 }, { 197,-6933 }, { 198,-6933 },
+
+ { 199,-6933 }, { 200,-6933 }, { 201,-6933 }, { 202,-6933 }, { 203,-6933 },
+ { 204,-6933 }, { 205,-6933 }, { 206,-6933 }, { 207,-6933 }, { 208,-6933 },
+ { 209,-6933 }, { 210,-6933 }, { 211,-6933 }, { 212,-6933 }, { 213,-6933 },
+ { 214,-6933 }, { 215,-6933 }, { 216,-6933 }, { 217,-6933 }, { 218,-6933 },
+ { 219,-6933 }, { 220,-6933 }, { 221,-6933 }, { 222,-6933 }, { 223,-6933 },
+ { 224,-6933 }, { 225,-6933 }, { 226,-6933 }, { 227,-6933 }, { 228,-6933 },
+ { 229,-6933 }, { 230,-6933 }, { 231,-6933 }, { 232,-6933 }, { 233,-6933 },
+ { 234,-6933 }, { 235,-6933 }, { 236,-6933 }, { 237,-6933 }, { 238,-6933 },
+ { 239,-6933 }, { 240,-6933 }, { 241,-6933 }, { 242,-6933 }, { 243,-6933 },
+ { 244,-6933 }, { 245,-6933 }, { 246,-6933 }, { 247,-6933 }, { 248,-6933 },
+
+ { 249,-6933 }, { 250,-6933 }, { 251,-6933 }, { 252,-6933 }, { 253,-6933 },
+ { 254,-6933 }, { 255,-6933 }, { 256,-6933 }, {   0,   0 }, {   0,7794 },
+ {   1,-7191 }, {   2,-7191 }, {   3,-7191 }, {   4,-7191 }, {   5,-7191 },
+ {   6,-7191 }, {   7,-7191 }, {   8,-7191 }, {   9,-7216 }, {  10,-7216 },
+ {  11,-7191 }, {  12,-7191 }, {  13,-7216 }, {  14,-7191 }, {  15,-7191 },
+ {  16,-7191 }, {  17,-7191 }, {  18,-7191 }, {  19,-7191 }, {  20,-7191 },
+ {  21,-7191 }, {  22,-7191 }, {  23,-7191 }, {  24,-7191 }, {  25,-7191 },
+ {  26,-7191 }, {  27,-7191 }, {  28,-7191 }, {  29,-7191 }, {  30,-7191 },
+ {  31,-7191 }, {  32,-7216 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-7191 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  41,-7216 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7191 },
+ {  46,-7216 }, {  47,-7216 }, {  48,-7191 }, {  49,-7191 }, {  50,-7191 },
+ {  51,-7191 }, {  52,-7191 }, {  53,-7191 }, {  54,-7191 }, {  55,-7191 },
+ {  56,-7191 }, {  57,-7191 }, {  58,-7191 }, {   0,   0 }, {   0,   0 },
+ {  61,-7216 }, {   0,   0 }, {  63,-7191 }, {   0,   0 }, {  65,-7191 },
+ {  66,-7191 }, {  67,-7191 }, {  68,-7191 }, {  69,-7191 }, {  70,-7191 },
+ {  71,-7191 }, {  72,-7191 }, {  73,-7191 }, {  74,-7191 }, {  75,-7191 },
+ {  76,-7191 }, {  77,-7191 }, {  78,-7191 }, {  79,-7191 }, {  80,-7191 },
+ {  81,-7191 }, {  82,-7191 }, {  83,-7191 }, {  84,-7191 }, {  85,-7191 },
+ {  86,-7191 }, {  87,-7191 }, {  88,-7191 }, {  89,-7191 }, {  90,-7191 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7191 },
+ {   0,   0 }, {  97,-7191 }, {  98,-7191 }, {  99,-7191 }, { 100,-7191 },
+ { 101,2853 }, { 102,-7191 }, { 103,-7191 }, { 104,-7191 }, { 105,-7191 },
+ { 106,-7191 }, { 107,-7191 }, { 108,-7191 }, { 109,-7191 }, { 110,-7191 },
+ { 111,-7191 }, { 112,-7191 }, { 113,-7191 }, { 114,-7191 }, { 115,-7191 },
+ { 116,-7191 }, { 117,-7191 }, { 118,-7191 }, { 119,-7191 }, { 120,-7191 },
+ { 121,-7191 }, { 122,-7191 }, {   0,   0 }, { 124,-7216 }, { 125,-7216 },
+ { 126,-7216 }, { 127,-7191 }, { 128,-7191 }, { 129,-7191 }, { 130,-7191 },
+ { 131,-7191 }, { 132,-7191 }, { 133,-7191 }, { 134,-7191 }, { 135,-7191 },
+ { 136,-7191 }, { 137,-7191 }, { 138,-7191 }, { 139,-7191 }, { 140,-7191 },
+
+ { 141,-7191 }, { 142,-7191 }, { 143,-7191 }, { 144,-7191 }, { 145,-7191 },
+ { 146,-7191 }, { 147,-7191 }, { 148,-7191 }, { 149,-7191 }, { 150,-7191 },
+ { 151,-7191 }, { 152,-7191 }, { 153,-7191 }, { 154,-7191 }, { 155,-7191 },
+ { 156,-7191 }, { 157,-7191 }, { 158,-7191 }, { 159,-7191 }, { 160,-7191 },
+ { 161,-7191 }, { 162,-7191 }, { 163,-7191 }, { 164,-7191 }, { 165,-7191 },
+ { 166,-7191 }, { 167,-7191 }, { 168,-7191 }, { 169,-7191 }, { 170,-7191 },
+ { 171,-7191 }, { 172,-7191 }, { 173,-7191 }, { 174,-7191 }, { 175,-7191 },
+ { 176,-7191 }, { 177,-7191 }, { 178,-7191 }, { 179,-7191 }, { 180,-7191 },
+ { 181,-7191 }, { 182,-7191 }, { 183,-7191 }, { 184,-7191 }, { 185,-7191 },
+ { 186,-7191 }, { 187,-7191 }, { 188,-7191 }, { 189,-7191 }, { 190,-7191 },
+
+ { 191,-7191 }, { 192,-7191 }, { 193,-7191 }, { 194,-7191 }, { 195,-7191 },
+ { 196,-7191 }, { 197,-7191 }, { 198,-7191 }, { 199,-7191 }, { 200,-7191 },
+ { 201,-7191 }, { 202,-7191 }, { 203,-7191 }, { 204,-7191 }, { 205,-7191 },
+ { 206,-7191 }, { 207,-7191 }, { 208,-7191 }, { 209,-7191 }, { 210,-7191 },
+ { 211,-7191 }, { 212,-7191 }, { 213,-7191 }, { 214,-7191 }, { 215,-7191 },
+ { 216,-7191 }, { 217,-7191 }, { 218,-7191 }, { 219,-7191 }, { 220,-7191 },
+ { 221,-7191 }, { 222,-7191 }, { 223,-7191 }, { 224,-7191 }, { 225,-7191 },
+ { 226,-7191 }, { 227,-7191 }, { 228,-7191 }, { 229,-7191 }, { 230,-7191 },
+ { 231,-7191 }, { 232,-7191 }, { 233,-7191 }, { 234,-7191 }, { 235,-7191 },
+ { 236,-7191 }, { 237,-7191 }, { 238,-7191 }, { 239,-7191 }, { 240,-7191 },
+
+ { 241,-7191 }, { 242,-7191 }, { 243,-7191 }, { 244,-7191 }, { 245,-7191 },
+ { 246,-7191 }, { 247,-7191 }, { 248,-7191 }, { 249,-7191 }, { 250,-7191 },
+ { 251,-7191 }, { 252,-7191 }, { 253,-7191 }, { 254,-7191 }, { 255,-7191 },
+ { 256,-7191 }, {   0,   0 }, {   0,7536 }, {   0,  25 }, {   0,7534 },
+ {   0,   0 }, {   0,7532 }, {   0,   0 }, {   0,7530 }, {   0,  27 },
+ {   0,7528 }, {   9,   0 }, {  10,   0 }, {   0,  37 }, {   0,7524 },
+ {  13,   0 }, {   0,  31 }, {   0,7521 }, {   0,   0 }, {   0,7519 },
+ {   0,  38 }, {   0,7517 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   9, -15 }, {  10, -15 }, {   0,   0 }, {   0,   0 },
+ {  13, -15 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32, -15 },
+ {  33,-1431 }, {   0,   0 }, {  35,-1429 }, {   0,   0 }, {   0,   0 },
+ {  38,-1427 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  42,-1425 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  47,-1421 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-1418 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,1188 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,2855 },
+ {   0,   0 }, {  94, -13 }, {   0,   0 }, {   0,   0 }, { 108,2855 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101, -11 }, { 115,2851 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2853 },
+ { 126,2855 }, {   0,   0 }, { 115,  -9 }, { 123,2855 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2855 },
+ { 123,2850 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2852 },
+ {   0,   0 }, {   0,7392 }, {   1,2840 }, {   2,2840 }, {   3,2840 },
+ {   4,2840 }, {   5,2840 }, {   6,2840 }, {   7,2840 }, {   8,2840 },
+ {   9,2840 }, {  10,2840 }, {  11,2840 }, {  12,2840 }, {  13,2840 },
+ {  14,2840 }, {  15,2840 }, {  16,2840 }, {  17,2840 }, {  18,2840 },
+ {  19,2840 }, {  20,2840 }, {  21,2840 }, {  22,2840 }, {  23,2840 },
+ {  24,2840 }, {  25,2840 }, {  26,2840 }, {  27,2840 }, {  28,2840 },
+ {  29,2840 }, {  30,2840 }, {  31,2840 }, {  32,2840 }, {  33,2840 },
+ {  34,2840 }, {  35,2840 }, {  36,2840 }, {  37,2840 }, {  38,2840 },
+
+ {  39,2840 }, {  40,2840 }, {  41,2840 }, {  42,2840 }, {  43,2840 },
+ {  44,2840 }, {  45,3098 }, {  46,2840 }, {  47,2840 }, {  48,2840 },
+ {  49,2840 }, {  50,2840 }, {  51,2840 }, {  52,2840 }, {  53,2840 },
+ {  54,2840 }, {  55,2840 }, {  56,2840 }, {  57,2840 }, {  58,2840 },
+ {  59,2840 }, {  60,2840 }, {  61,2840 }, {  62,2840 }, {  63,2840 },
+ {  64,2840 }, {  65,2840 }, {  66,2840 }, {  67,2840 }, {  68,2840 },
+ {  69,2840 }, {  70,2840 }, {  71,2840 }, {  72,2840 }, {  73,2840 },
+ {  74,2840 }, {  75,2840 }, {  76,2840 }, {  77,2840 }, {  78,2840 },
+ {  79,2840 }, {  80,2840 }, {  81,2840 }, {  82,2840 }, {  83,2840 },
+ {  84,2840 }, {  85,2840 }, {  86,2840 }, {  87,2840 }, {  88,2840 },
+
+ {  89,2840 }, {  90,2840 }, {  91,2840 }, {  92,2840 }, {  93,2840 },
+ {  94,2840 }, {  95,2840 }, {  96,2840 }, {  97,2840 }, {  98,2840 },
+ {  99,2840 }, { 100,2840 }, { 101,2840 }, { 102,2840 }, { 103,2840 },
+ { 104,2840 }, { 105,2840 }, { 106,2840 }, { 107,2840 }, { 108,2840 },
+ { 109,2840 }, { 110,2840 }, { 111,2840 }, { 112,2840 }, { 113,2840 },
+ { 114,2840 }, { 115,2840 }, { 116,2840 }, { 117,2840 }, { 118,2840 },
+ { 119,2840 }, { 120,2840 }, { 121,2840 }, { 122,2840 }, { 123,2840 },
+ { 124,2840 }, { 125,2840 }, { 126,2840 }, { 127,2840 }, { 128,2840 },
+ { 129,2840 }, { 130,2840 }, { 131,2840 }, { 132,2840 }, { 133,2840 },
+ { 134,2840 }, { 135,2840 }, { 136,2840 }, { 137,2840 }, { 138,2840 },
+
+ { 139,2840 }, { 140,2840 }, { 141,2840 }, { 142,2840 }, { 143,2840 },
+ { 144,2840 }, { 145,2840 }, { 146,2840 }, { 147,2840 }, { 148,2840 },
+ { 149,2840 }, { 150,2840 }, { 151,2840 }, { 152,2840 }, { 153,2840 },
+ { 154,2840 }, { 155,2840 }, { 156,2840 }, { 157,2840 }, { 158,2840 },
+ { 159,2840 }, { 160,2840 }, { 161,2840 }, { 162,2840 }, { 163,2840 },
+ { 164,2840 }, { 165,2840 }, { 166,2840 }, { 167,2840 }, { 168,2840 },
+ { 169,2840 }, { 170,2840 }, { 171,2840 }, { 172,2840 }, { 173,2840 },
+ { 174,2840 }, { 175,2840 }, { 176,2840 }, { 177,2840 }, { 178,2840 },
+ { 179,2840 }, { 180,2840 }, { 181,2840 }, { 182,2840 }, { 183,2840 },
+ { 184,2840 }, { 185,2840 }, { 186,2840 }, { 187,2840 }, { 188,2840 },
+
+ { 189,2840 }, { 190,2840 }, { 191,2840 }, { 192,2840 }, { 193,2840 },
+ { 194,2840 }, { 195,2840 }, { 196,2840 }, { 197,2840 }, { 198,2840 },
+ { 199,2840 }, { 200,2840 }, { 201,2840 }, { 202,2840 }, { 203,2840 },
+ { 204,2840 }, { 205,2840 }, { 206,2840 }, { 207,2840 }, { 208,2840 },
+ { 209,2840 }, { 210,2840 }, { 211,2840 }, { 212,2840 }, { 213,2840 },
+ { 214,2840 }, { 215,2840 }, { 216,2840 }, { 217,2840 }, { 218,2840 },
+ { 219,2840 }, { 220,2840 }, { 221,2840 }, { 222,2840 }, { 223,2840 },
+ { 224,2840 }, { 225,2840 }, { 226,2840 }, { 227,2840 }, { 228,2840 },
+ { 229,2840 }, { 230,2840 }, { 231,2840 }, { 232,2840 }, { 233,2840 },
+ { 234,2840 }, { 235,2840 }, { 236,2840 }, { 237,2840 }, { 238,2840 },
+
+ { 239,2840 }, { 240,2840 }, { 241,2840 }, { 242,2840 }, { 243,2840 },
+ { 244,2840 }, { 245,2840 }, { 246,2840 }, { 247,2840 }, { 248,2840 },
+ { 249,2840 }, { 250,2840 }, { 251,2840 }, { 252,2840 }, { 253,2840 },
+ { 254,2840 }, { 255,2840 }, { 256,2840 }, {   0,   0 }, {   0,7134 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
 
+ {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
+ {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,   0 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
@@ -3459,8 +4186,8 @@ static const struct yy_trans_info yy_transition[23409] =
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
 
+ {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
  {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
  {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
@@ -3468,10 +4195,10 @@ static const struct yy_trans_info yy_transition[23409] =
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-4657 },
- { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+ { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125, 258 },
+ { 126, 516 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
 
+ { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
  { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
@@ -3481,8 +4208,8 @@ static const struct yy_trans_info yy_transition[23409] =
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
 
+ { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
  { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
@@ -3492,1186 +4219,140 @@ static const struct yy_trans_info yy_transition[23409] =
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
 
+ { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
  { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,9982 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
- {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
-
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
-
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
-
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
-
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
-
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,9725 },
- {   1,3496 }, {   2,3496 }, {   3,3496 }, {   4,3496 }, {   5,3496 },
- {   6,3496 }, {   7,3496 }, {   8,3496 }, {   9,3496 }, {  10,3373 },
- {  11,3496 }, {  12,3496 }, {  13,3373 }, {  14,3496 }, {  15,3496 },
- {  16,3496 }, {  17,3496 }, {  18,3496 }, {  19,3496 }, {  20,3496 },
-
- {  21,3496 }, {  22,3496 }, {  23,3496 }, {  24,3496 }, {  25,3496 },
- {  26,3496 }, {  27,3496 }, {  28,3496 }, {  29,3496 }, {  30,3496 },
- {  31,3496 }, {  32,3496 }, {  33,3496 }, {  34,3496 }, {  35,3496 },
- {  36,3496 }, {  37,3496 }, {  38,3496 }, {  39,3496 }, {  40,3496 },
- {  41,3496 }, {  42,3496 }, {  43,3496 }, {  44,3496 }, {  45,3496 },
- {  46,3496 }, {  47,3496 }, {  48,3496 }, {  49,3496 }, {  50,3496 },
- {  51,3496 }, {  52,3496 }, {  53,3496 }, {  54,3496 }, {  55,3496 },
- {  56,3496 }, {  57,3496 }, {  58,3496 }, {  59,3496 }, {  60,3496 },
- {  61,3496 }, {  62,3496 }, {  63,3496 }, {  64,3496 }, {  65,3496 },
- {  66,3496 }, {  67,3496 }, {  68,3496 }, {  69,3496 }, {  70,3496 },
-
- {  71,3496 }, {  72,3496 }, {  73,3496 }, {  74,3496 }, {  75,3496 },
- {  76,3496 }, {  77,3496 }, {  78,3496 }, {  79,3496 }, {  80,3496 },
- {  81,3496 }, {  82,3496 }, {  83,3496 }, {  84,3496 }, {  85,3496 },
- {  86,3496 }, {  87,3496 }, {  88,3496 }, {  89,3496 }, {  90,3496 },
- {  91,3496 }, {   0,   0 }, {  93,3496 }, {  94,3496 }, {  95,3496 },
- {  96,3496 }, {  97,3496 }, {  98,3496 }, {  99,3496 }, { 100,3496 },
- { 101,3496 }, { 102,3496 }, { 103,3496 }, { 104,3496 }, { 105,3496 },
- { 106,3496 }, { 107,3496 }, { 108,3496 }, { 109,3496 }, { 110,3496 },
- { 111,3496 }, { 112,3496 }, { 113,3496 }, { 114,3496 }, { 115,3496 },
- { 116,3496 }, { 117,3496 }, { 118,3496 }, { 119,3496 }, { 120,3496 },
-
- { 121,3496 }, { 122,3496 }, { 123,3753 }, { 124,3496 }, { 125,3496 },
- { 126,3496 }, { 127,3496 }, { 128,3496 }, { 129,3496 }, { 130,3496 },
- { 131,3496 }, { 132,3496 }, { 133,3496 }, { 134,3496 }, { 135,3496 },
- { 136,3496 }, { 137,3496 }, { 138,3496 }, { 139,3496 }, { 140,3496 },
- { 141,3496 }, { 142,3496 }, { 143,3496 }, { 144,3496 }, { 145,3496 },
- { 146,3496 }, { 147,3496 }, { 148,3496 }, { 149,3496 }, { 150,3496 },
- { 151,3496 }, { 152,3496 }, { 153,3496 }, { 154,3496 }, { 155,3496 },
- { 156,3496 }, { 157,3496 }, { 158,3496 }, { 159,3496 }, { 160,3496 },
- { 161,3496 }, { 162,3496 }, { 163,3496 }, { 164,3496 }, { 165,3496 },
- { 166,3496 }, { 167,3496 }, { 168,3496 }, { 169,3496 }, { 170,3496 },
-
- { 171,3496 }, { 172,3496 }, { 173,3496 }, { 174,3496 }, { 175,3496 },
- { 176,3496 }, { 177,3496 }, { 178,3496 }, { 179,3496 }, { 180,3496 },
- { 181,3496 }, { 182,3496 }, { 183,3496 }, { 184,3496 }, { 185,3496 },
- { 186,3496 }, { 187,3496 }, { 188,3496 }, { 189,3496 }, { 190,3496 },
- { 191,3496 }, { 192,3496 }, { 193,3496 }, { 194,3496 }, { 195,3496 },
- { 196,3496 }, { 197,3496 }, { 198,3496 }, { 199,3496 }, { 200,3496 },
- { 201,3496 }, { 202,3496 }, { 203,3496 }, { 204,3496 }, { 205,3496 },
- { 206,3496 }, { 207,3496 }, { 208,3496 }, { 209,3496 }, { 210,3496 },
- { 211,3496 }, { 212,3496 }, { 213,3496 }, { 214,3496 }, { 215,3496 },
- { 216,3496 }, { 217,3496 }, { 218,3496 }, { 219,3496 }, { 220,3496 },
-
- { 221,3496 }, { 222,3496 }, { 223,3496 }, { 224,3496 }, { 225,3496 },
- { 226,3496 }, { 227,3496 }, { 228,3496 }, { 229,3496 }, { 230,3496 },
- { 231,3496 }, { 232,3496 }, { 233,3496 }, { 234,3496 }, { 235,3496 },
- { 236,3496 }, { 237,3496 }, { 238,3496 }, { 239,3496 }, { 240,3496 },
- { 241,3496 }, { 242,3496 }, { 243,3496 }, { 244,3496 }, { 245,3496 },
- { 246,3496 }, { 247,3496 }, { 248,3496 }, { 249,3496 }, { 250,3496 },
- { 251,3496 }, { 252,3496 }, { 253,3496 }, { 254,3496 }, { 255,3496 },
- {   0,  39 }, {   0,9468 }, {   1,-5087 }, {   2,-5087 }, {   3,-5087 },
- {   4,-5087 }, {   5,-5087 }, {   6,-5087 }, {   7,-5087 }, {   8,-5087 },
- {   9,-5087 }, {  10,-5087 }, {  11,-5087 }, {  12,-5087 }, {  13,-5087 },
-
- {  14,-5087 }, {  15,-5087 }, {  16,-5087 }, {  17,-5087 }, {  18,-5087 },
- {  19,-5087 }, {  20,-5087 }, {  21,-5087 }, {  22,-5087 }, {  23,-5087 },
- {  24,-5087 }, {  25,-5087 }, {  26,-5087 }, {  27,-5087 }, {  28,-5087 },
- {  29,-5087 }, {  30,-5087 }, {  31,-5087 }, {  32,-5087 }, {  33,-5087 },
- {  34,-5461 }, {  35,-5087 }, {  36,-5087 }, {  37,-5087 }, {  38,-5087 },
- {  39,-5087 }, {  40,-5087 }, {  41,-5087 }, {  42,-5087 }, {  43,-5087 },
- {  44,-5087 }, {  45,-5087 }, {  46,-5087 }, {  47,-5087 }, {  48,-5087 },
- {  49,-5087 }, {  50,-5087 }, {  51,-5087 }, {  52,-5087 }, {  53,-5087 },
- {  54,-5087 }, {  55,-5087 }, {  56,-5087 }, {  57,-5087 }, {  58,-5087 },
- {  59,-5087 }, {  60,-5087 }, {  61,-5087 }, {  62,-5087 }, {  63,-5087 },
-
- {  64,-5087 }, {  65,-5087 }, {  66,-5087 }, {  67,-5087 }, {  68,-5087 },
- {  69,-5087 }, {  70,-5087 }, {  71,-5087 }, {  72,-5087 }, {  73,-5087 },
- {  74,-5087 }, {  75,-5087 }, {  76,-5087 }, {  77,-5087 }, {  78,-5087 },
- {  79,-5087 }, {  80,-5087 }, {  81,-5087 }, {  82,-5087 }, {  83,-5087 },
- {  84,-5087 }, {  85,-5087 }, {  86,-5087 }, {  87,-5087 }, {  88,-5087 },
- {  89,-5087 }, {  90,-5087 }, {  91,-5087 }, {  92,-4829 }, {  93,-5087 },
- {  94,-5087 }, {  95,-5087 }, {  96,-5087 }, {  97,-5087 }, {  98,-5087 },
- {  99,-5087 }, { 100,-5087 }, { 101,-5087 }, { 102,-5087 }, { 103,-5087 },
- { 104,-5087 }, { 105,-5087 }, { 106,-5087 }, { 107,-5087 }, { 108,-5087 },
- { 109,-5087 }, { 110,-5087 }, { 111,-5087 }, { 112,-5087 }, { 113,-5087 },
-
- { 114,-5087 }, { 115,-5087 }, { 116,-5087 }, { 117,-5087 }, { 118,-5087 },
- { 119,-5087 }, { 120,-5087 }, { 121,-5087 }, { 122,-5087 }, { 123,-5087 },
- { 124,-5087 }, { 125,-5087 }, { 126,-5087 }, { 127,-5087 }, { 128,-5087 },
- { 129,-5087 }, { 130,-5087 }, { 131,-5087 }, { 132,-5087 }, { 133,-5087 },
- { 134,-5087 }, { 135,-5087 }, { 136,-5087 }, { 137,-5087 }, { 138,-5087 },
- { 139,-5087 }, { 140,-5087 }, { 141,-5087 }, { 142,-5087 }, { 143,-5087 },
- { 144,-5087 }, { 145,-5087 }, { 146,-5087 }, { 147,-5087 }, { 148,-5087 },
- { 149,-5087 }, { 150,-5087 }, { 151,-5087 }, { 152,-5087 }, { 153,-5087 },
- { 154,-5087 }, { 155,-5087 }, { 156,-5087 }, { 157,-5087 }, { 158,-5087 },
- { 159,-5087 }, { 160,-5087 }, { 161,-5087 }, { 162,-5087 }, { 163,-5087 },
-
- { 164,-5087 }, { 165,-5087 }, { 166,-5087 }, { 167,-5087 }, { 168,-5087 },
- { 169,-5087 }, { 170,-5087 }, { 171,-5087 }, { 172,-5087 }, { 173,-5087 },
- { 174,-5087 }, { 175,-5087 }, { 176,-5087 }, { 177,-5087 }, { 178,-5087 },
- { 179,-5087 }, { 180,-5087 }, { 181,-5087 }, { 182,-5087 }, { 183,-5087 },
- { 184,-5087 }, { 185,-5087 }, { 186,-5087 }, { 187,-5087 }, { 188,-5087 },
- { 189,-5087 }, { 190,-5087 }, { 191,-5087 }, { 192,-5087 }, { 193,-5087 },
- { 194,-5087 }, { 195,-5087 }, { 196,-5087 }, { 197,-5087 }, { 198,-5087 },
- { 199,-5087 }, { 200,-5087 }, { 201,-5087 }, { 202,-5087 }, { 203,-5087 },
- { 204,-5087 }, { 205,-5087 }, { 206,-5087 }, { 207,-5087 }, { 208,-5087 },
- { 209,-5087 }, { 210,-5087 }, { 211,-5087 }, { 212,-5087 }, { 213,-5087 },
-
- { 214,-5087 }, { 215,-5087 }, { 216,-5087 }, { 217,-5087 }, { 218,-5087 },
- { 219,-5087 }, { 220,-5087 }, { 221,-5087 }, { 222,-5087 }, { 223,-5087 },
- { 224,-5087 }, { 225,-5087 }, { 226,-5087 }, { 227,-5087 }, { 228,-5087 },
- { 229,-5087 }, { 230,-5087 }, { 231,-5087 }, { 232,-5087 }, { 233,-5087 },
- { 234,-5087 }, { 235,-5087 }, { 236,-5087 }, { 237,-5087 }, { 238,-5087 },
- { 239,-5087 }, { 240,-5087 }, { 241,-5087 }, { 242,-5087 }, { 243,-5087 },
- { 244,-5087 }, { 245,-5087 }, { 246,-5087 }, { 247,-5087 }, { 248,-5087 },
- { 249,-5087 }, { 250,-5087 }, { 251,-5087 }, { 252,-5087 }, { 253,-5087 },
- { 254,-5087 }, { 255,-5087 }, { 256,-5087 }, {   0,  40 }, {   0,9210 },
- {   1,-4829 }, {   2,-4829 }, {   3,-4829 }, {   4,-4829 }, {   5,-4829 },
-
- {   6,-4829 }, {   7,-4829 }, {   8,-4829 }, {   9,-4829 }, {  10,-4829 },
- {  11,-4829 }, {  12,-4829 }, {  13,-4829 }, {  14,-4829 }, {  15,-4829 },
- {  16,-4829 }, {  17,-4829 }, {  18,-4829 }, {  19,-4829 }, {  20,-4829 },
- {  21,-4829 }, {  22,-4829 }, {  23,-4829 }, {  24,-4829 }, {  25,-4829 },
- {  26,-4829 }, {  27,-4829 }, {  28,-4829 }, {  29,-4829 }, {  30,-4829 },
- {  31,-4829 }, {  32,-4829 }, {  33,-4829 }, {  34,-4829 }, {  35,-4829 },
- {  36,-4829 }, {  37,-4829 }, {  38,-4829 }, {  39,-5717 }, {  40,-4829 },
- {  41,-4829 }, {  42,-4829 }, {  43,-4829 }, {  44,-4829 }, {  45,-4829 },
- {  46,-4829 }, {  47,-4829 }, {  48,-4829 }, {  49,-4829 }, {  50,-4829 },
- {  51,-4829 }, {  52,-4829 }, {  53,-4829 }, {  54,-4829 }, {  55,-4829 },
-
- {  56,-4829 }, {  57,-4829 }, {  58,-4829 }, {  59,-4829 }, {  60,-4829 },
- {  61,-4829 }, {  62,-4829 }, {  63,-4829 }, {  64,-4829 }, {  65,-4829 },
- {  66,-4829 }, {  67,-4829 }, {  68,-4829 }, {  69,-4829 }, {  70,-4829 },
- {  71,-4829 }, {  72,-4829 }, {  73,-4829 }, {  74,-4829 }, {  75,-4829 },
- {  76,-4829 }, {  77,-4829 }, {  78,-4829 }, {  79,-4829 }, {  80,-4829 },
- {  81,-4829 }, {  82,-4829 }, {  83,-4829 }, {  84,-4829 }, {  85,-4829 },
- {  86,-4829 }, {  87,-4829 }, {  88,-4829 }, {  89,-4829 }, {  90,-4829 },
- {  91,-4829 }, {  92,-4571 }, {  93,-4829 }, {  94,-4829 }, {  95,-4829 },
- {  96,-4829 }, {  97,-4829 }, {  98,-4829 }, {  99,-4829 }, { 100,-4829 },
- { 101,-4829 }, { 102,-4829 }, { 103,-4829 }, { 104,-4829 }, { 105,-4829 },
-
- { 106,-4829 }, { 107,-4829 }, { 108,-4829 }, { 109,-4829 }, { 110,-4829 },
- { 111,-4829 }, { 112,-4829 }, { 113,-4829 }, { 114,-4829 }, { 115,-4829 },
- { 116,-4829 }, { 117,-4829 }, { 118,-4829 }, { 119,-4829 }, { 120,-4829 },
- { 121,-4829 }, { 122,-4829 }, { 123,-4829 }, { 124,-4829 }, { 125,-4829 },
- { 126,-4829 }, { 127,-4829 }, { 128,-4829 }, { 129,-4829 }, { 130,-4829 },
- { 131,-4829 }, { 132,-4829 }, { 133,-4829 }, { 134,-4829 }, { 135,-4829 },
- { 136,-4829 }, { 137,-4829 }, { 138,-4829 }, { 139,-4829 }, { 140,-4829 },
- { 141,-4829 }, { 142,-4829 }, { 143,-4829 }, { 144,-4829 }, { 145,-4829 },
- { 146,-4829 }, { 147,-4829 }, { 148,-4829 }, { 149,-4829 }, { 150,-4829 },
- { 151,-4829 }, { 152,-4829 }, { 153,-4829 }, { 154,-4829 }, { 155,-4829 },
-
- { 156,-4829 }, { 157,-4829 }, { 158,-4829 }, { 159,-4829 }, { 160,-4829 },
- { 161,-4829 }, { 162,-4829 }, { 163,-4829 }, { 164,-4829 }, { 165,-4829 },
- { 166,-4829 }, { 167,-4829 }, { 168,-4829 }, { 169,-4829 }, { 170,-4829 },
- { 171,-4829 }, { 172,-4829 }, { 173,-4829 }, { 174,-4829 }, { 175,-4829 },
- { 176,-4829 }, { 177,-4829 }, { 178,-4829 }, { 179,-4829 }, { 180,-4829 },
- { 181,-4829 }, { 182,-4829 }, { 183,-4829 }, { 184,-4829 }, { 185,-4829 },
- { 186,-4829 }, { 187,-4829 }, { 188,-4829 }, { 189,-4829 }, { 190,-4829 },
- { 191,-4829 }, { 192,-4829 }, { 193,-4829 }, { 194,-4829 }, { 195,-4829 },
- { 196,-4829 }, { 197,-4829 }, { 198,-4829 }, { 199,-4829 }, { 200,-4829 },
- { 201,-4829 }, { 202,-4829 }, { 203,-4829 }, { 204,-4829 }, { 205,-4829 },
-
- { 206,-4829 }, { 207,-4829 }, { 208,-4829 }, { 209,-4829 }, { 210,-4829 },
- { 211,-4829 }, { 212,-4829 }, { 213,-4829 }, { 214,-4829 }, { 215,-4829 },
- { 216,-4829 }, { 217,-4829 }, { 218,-4829 }, { 219,-4829 }, { 220,-4829 },
- { 221,-4829 }, { 222,-4829 }, { 223,-4829 }, { 224,-4829 }, { 225,-4829 },
- { 226,-4829 }, { 227,-4829 }, { 228,-4829 }, { 229,-4829 }, { 230,-4829 },
- { 231,-4829 }, { 232,-4829 }, { 233,-4829 }, { 234,-4829 }, { 235,-4829 },
- { 236,-4829 }, { 237,-4829 }, { 238,-4829 }, { 239,-4829 }, { 240,-4829 },
- { 241,-4829 }, { 242,-4829 }, { 243,-4829 }, { 244,-4829 }, { 245,-4829 },
- { 246,-4829 }, { 247,-4829 }, { 248,-4829 }, { 249,-4829 }, { 250,-4829 },
- { 251,-4829 }, { 252,-4829 }, { 253,-4829 }, { 254,-4829 }, { 255,-4829 },
-
- { 256,-4829 }, {   0,   0 }, {   0,8952 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   9,2602 }, {  10,2602 }, {   0,   0 }, {   0,   0 },
- {  13,2602 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,2602 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2602 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 256,-258 }, {   0,   0 }, {   0,6876 }, {   1,-516 }, {   2,-516 },
+ {   3,-516 }, {   4,-516 }, {   5,-516 }, {   6,-516 }, {   7,-516 },
+ {   8,-516 }, {   9,-516 }, {  10,-516 }, {  11,-516 }, {  12,-516 },
+ {  13,-516 }, {  14,-516 }, {  15,-516 }, {  16,-516 }, {  17,-516 },
+ {  18,-516 }, {  19,-516 }, {  20,-516 }, {  21,-516 }, {  22,-516 },
+
+ {  23,-516 }, {  24,-516 }, {  25,-516 }, {  26,-516 }, {  27,-516 },
+ {  28,-516 }, {  29,-516 }, {  30,-516 }, {  31,-516 }, {  32,-516 },
+ {  33,-516 }, {  34,-516 }, {  35,-516 }, {  36,-516 }, {  37,-516 },
+ {  38,-516 }, {  39,-516 }, {  40,-516 }, {  41,-516 }, {  42,-516 },
+ {  43,-516 }, {  44,-516 }, {  45,2840 }, {  46,-516 }, {  47,-516 },
+ {  48,-516 }, {  49,-516 }, {  50,-516 }, {  51,-516 }, {  52,-516 },
+ {  53,-516 }, {  54,-516 }, {  55,-516 }, {  56,-516 }, {  57,-516 },
+ {  58,-516 }, {  59,-516 }, {  60,-516 }, {  61,-516 }, {  62,-516 },
+ {  63,-516 }, {  64,-516 }, {  65,-516 }, {  66,-516 }, {  67,-516 },
+ {  68,-516 }, {  69,-516 }, {  70,-516 }, {  71,-516 }, {  72,-516 },
+
+ {  73,-516 }, {  74,-516 }, {  75,-516 }, {  76,-516 }, {  77,-516 },
+ {  78,-516 }, {  79,-516 }, {  80,-516 }, {  81,-516 }, {  82,-516 },
+ {  83,-516 }, {  84,-516 }, {  85,-516 }, {  86,-516 }, {  87,-516 },
+ {  88,-516 }, {  89,-516 }, {  90,-516 }, {  91,-516 }, {  92,-516 },
+ {  93,-516 }, {  94,-516 }, {  95,-516 }, {  96,-516 }, {  97,-516 },
+ {  98,-516 }, {  99,-516 }, { 100,-516 }, { 101,-516 }, { 102,-516 },
+ { 103,-516 }, { 104,-516 }, { 105,-516 }, { 106,-516 }, { 107,-516 },
+ { 108,-516 }, { 109,-516 }, { 110,-516 }, { 111,-516 }, { 112,-516 },
+ { 113,-516 }, { 114,-516 }, { 115,-516 }, { 116,-516 }, { 117,-516 },
+ { 118,-516 }, { 119,-516 }, { 120,-516 }, { 121,-516 }, { 122,-516 },
+
+ { 123,-516 }, { 124,-516 }, { 125,2211 }, { 126,-516 }, { 127,-516 },
+ { 128,-516 }, { 129,-516 }, { 130,-516 }, { 131,-516 }, { 132,-516 },
+ { 133,-516 }, { 134,-516 }, { 135,-516 }, { 136,-516 }, { 137,-516 },
+ { 138,-516 }, { 139,-516 }, { 140,-516 }, { 141,-516 }, { 142,-516 },
+ { 143,-516 }, { 144,-516 }, { 145,-516 }, { 146,-516 }, { 147,-516 },
+ { 148,-516 }, { 149,-516 }, { 150,-516 }, { 151,-516 }, { 152,-516 },
+ { 153,-516 }, { 154,-516 }, { 155,-516 }, { 156,-516 }, { 157,-516 },
+ { 158,-516 }, { 159,-516 }, { 160,-516 }, { 161,-516 }, { 162,-516 },
+ { 163,-516 }, { 164,-516 }, { 165,-516 }, { 166,-516 }, { 167,-516 },
+ { 168,-516 }, { 169,-516 }, { 170,-516 }, { 171,-516 }, { 172,-516 },
+
+ { 173,-516 }, { 174,-516 }, { 175,-516 }, { 176,-516 }, { 177,-516 },
+ { 178,-516 }, { 179,-516 }, { 180,-516 }, { 181,-516 }, { 182,-516 },
+ { 183,-516 }, { 184,-516 }, { 185,-516 }, { 186,-516 }, { 187,-516 },
+ { 188,-516 }, { 189,-516 }, { 190,-516 }, { 191,-516 }, { 192,-516 },
+ { 193,-516 }, { 194,-516 }, { 195,-516 }, { 196,-516 }, { 197,-516 },
+ { 198,-516 }, { 199,-516 }, { 200,-516 }, { 201,-516 }, { 202,-516 },
+ { 203,-516 }, { 204,-516 }, { 205,-516 }, { 206,-516 }, { 207,-516 },
+ { 208,-516 }, { 209,-516 }, { 210,-516 }, { 211,-516 }, { 212,-516 },
+ { 213,-516 }, { 214,-516 }, { 215,-516 }, { 216,-516 }, { 217,-516 },
+ { 218,-516 }, { 219,-516 }, { 220,-516 }, { 221,-516 }, { 222,-516 },
+
+ { 223,-516 }, { 224,-516 }, { 225,-516 }, { 226,-516 }, { 227,-516 },
+ { 228,-516 }, { 229,-516 }, { 230,-516 }, { 231,-516 }, { 232,-516 },
+ { 233,-516 }, { 234,-516 }, { 235,-516 }, { 236,-516 }, { 237,-516 },
+ { 238,-516 }, { 239,-516 }, { 240,-516 }, { 241,-516 }, { 242,-516 },
+ { 243,-516 }, { 244,-516 }, { 245,-516 }, { 246,-516 }, { 247,-516 },
+ { 248,-516 }, { 249,-516 }, { 250,-516 }, { 251,-516 }, { 252,-516 },
+ { 253,-516 }, { 254,-516 }, { 255,-516 }, { 256,-516 }, {   0,   0 },
+ {   0,6618 }, {   1,-774 }, {   2,-774 }, {   3,-774 }, {   4,-774 },
+ {   5,-774 }, {   6,-774 }, {   7,-774 }, {   8,-774 }, {   9,-774 },
+ {  10,-774 }, {  11,-774 }, {  12,-774 }, {  13,-774 }, {  14,-774 },
+
+ {  15,-774 }, {  16,-774 }, {  17,-774 }, {  18,-774 }, {  19,-774 },
+ {  20,-774 }, {  21,-774 }, {  22,-774 }, {  23,-774 }, {  24,-774 },
+ {  25,-774 }, {  26,-774 }, {  27,-774 }, {  28,-774 }, {  29,-774 },
+ {  30,-774 }, {  31,-774 }, {  32,-774 }, {  33,-774 }, {  34,-774 },
+ {  35,-774 }, {  36,-774 }, {  37,-774 }, {  38,-774 }, {  39,-774 },
+ {  40,-774 }, {  41,-774 }, {  42,-774 }, {  43,-774 }, {  44,-774 },
+ {  45,2582 }, {  46,-774 }, {  47,-774 }, {  48,-774 }, {  49,-774 },
+ {  50,-774 }, {  51,-774 }, {  52,-774 }, {  53,-774 }, {  54,-774 },
+ {  55,-774 }, {  56,-774 }, {  57,-774 }, {  58,-774 }, {  59,-774 },
+ {  60,-774 }, {  61,-774 }, {  62,-774 }, {  63,-774 }, {  64,-774 },
+
+ {  65,-774 }, {  66,-774 }, {  67,-774 }, {  68,-774 }, {  69,-774 },
+ {  70,-774 }, {  71,-774 }, {  72,-774 }, {  73,-774 }, {  74,-774 },
+ {  75,-774 }, {  76,-774 }, {  77,-774 }, {  78,-774 }, {  79,-774 },
+ {  80,-774 }, {  81,-774 }, {  82,-774 }, {  83,-774 }, {  84,-774 },
+ {  85,-774 }, {  86,-774 }, {  87,-774 }, {  88,-774 }, {  89,-774 },
+ {  90,-774 }, {  91,-774 }, {  92,-774 }, {  93,-774 }, {  94,-774 },
+ {  95,-774 }, {  96,-774 }, {  97,-774 }, {  98,-774 }, {  99,-774 },
+ { 100,-774 }, { 101,-774 }, { 102,-774 }, { 103,-774 }, { 104,-774 },
+ { 105,-774 }, { 106,-774 }, { 107,-774 }, { 108,-774 }, { 109,-774 },
+ { 110,-774 }, { 111,-774 }, { 112,-774 }, { 113,-774 }, { 114,-774 },
+
+ { 115,-774 }, { 116,-774 }, { 117,-774 }, { 118,-774 }, { 119,-774 },
+ { 120,-774 }, { 121,-774 }, { 122,-774 }, { 123,-774 }, { 124,-774 },
+ { 125,-258 }, { 126,-774 }, { 127,-774 }, { 128,-774 }, { 129,-774 },
+ { 130,-774 }, { 131,-774 }, { 132,-774 }, { 133,-774 }, { 134,-774 },
+ { 135,-774 }, { 136,-774 }, { 137,-774 }, { 138,-774 }, { 139,-774 },
+ { 140,-774 }, { 141,-774 }, { 142,-774 }, { 143,-774 }, { 144,-774 },
+ { 145,-774 }, { 146,-774 }, { 147,-774 }, { 148,-774 }, { 149,-774 },
+ { 150,-774 }, { 151,-774 }, { 152,-774 }, { 153,-774 }, { 154,-774 },
+ { 155,-774 }, { 156,-774 }, { 157,-774 }, { 158,-774 }, { 159,-774 },
+ { 160,-774 }, { 161,-774 }, { 162,-774 }, { 163,-774 }, { 164,-774 },
+
+ { 165,-774 }, { 166,-774 }, { 167,-774 }, { 168,-774 }, { 169,-774 },
+ { 170,-774 }, { 171,-774 }, { 172,-774 }, { 173,-774 }, { 174,-774 },
+ { 175,-774 }, { 176,-774 }, { 177,-774 }, { 178,-774 }, { 179,-774 },
+ { 180,-774 }, { 181,-774 }, { 182,-774 }, { 183,-774 }, { 184,-774 },
+ { 185,-774 }, { 186,-774 }, { 187,-774 }, { 188,-774 }, { 189,-774 },
+ { 190,-774 }, { 191,-774 }, { 192,-774 }, { 193,-774 }, { 194,-774 },
+ { 195,-774 }, { 196,-774 }, { 197,-774 }, { 198,-774 }, { 199,-774 },
+ { 200,-774 }, { 201,-774 }, { 202,-774 }, { 203,-774 }, { 204,-774 },
+ { 205,-774 }, { 206,-774 }, { 207,-774 }, { 208,-774 }, { 209,-774 },
+ { 210,-774 }, { 211,-774 }, { 212,-774 }, { 213,-774 }, { 214,-774 },
+
+ { 215,-774 }, { 216,-774 }, { 217,-774 }, { 218,-774 }, { 219,-774 },
+ { 220,-774 }, { 221,-774 }, { 222,-774 }, { 223,-774 }, { 224,-774 },
+ { 225,-774 }, { 226,-774 }, { 227,-774 }, { 228,-774 }, { 229,-774 },
+ { 230,-774 }, { 231,-774 }, { 232,-774 }, { 233,-774 }, { 234,-774 },
+ { 235,-774 }, { 236,-774 }, { 237,-774 }, { 238,-774 }, { 239,-774 },
+ { 240,-774 }, { 241,-774 }, { 242,-774 }, { 243,-774 }, { 244,-774 },
+ { 245,-774 }, { 246,-774 }, { 247,-774 }, { 248,-774 }, { 249,-774 },
+ { 250,-774 }, { 251,-774 }, { 252,-774 }, { 253,-774 }, { 254,-774 },
+ { 255,-774 }, { 256,-774 }, {   0,   0 }, {   0,6360 }, {   0,   0 },
+ {   0,6358 }, {   0,   1 }, {   0,6356 }, {   0,   4 }, {   0,6354 },
+
+ {   0,  48 }, {   0,6352 }, {   0,  42 }, {   0,6350 }, {   0,   0 },
+ {   0,6348 }, {   0,   0 }, {   0,6346 }, {   0,   0 }, {  10,   0 },
+ {   0,  21 }, {   0,6342 }, {  13,   0 }, {   0,  20 }, {   0,6339 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,2602 }, { 126,2602 }, {   0,  50 },
- {   0,8824 }, {   1,-4382 }, {   2,-4382 }, {   3,-4382 }, {   4,-4382 },
- {   5,-4382 }, {   6,-4382 }, {   7,-4382 }, {   8,-4382 }, {   9,-4382 },
- {  10,-4382 }, {  11,-4382 }, {  12,-4382 }, {  13,-4382 }, {  14,-4382 },
- {  15,-4382 }, {  16,-4382 }, {  17,-4382 }, {  18,-4382 }, {  19,-4382 },
-
- {  20,-4382 }, {  21,-4382 }, {  22,-4382 }, {  23,-4382 }, {  24,-4382 },
- {  25,-4382 }, {  26,-4382 }, {  27,-4382 }, {  28,-4382 }, {  29,-4382 },
- {  30,-4382 }, {  31,-4382 }, {  32,-4382 }, {  33,-4382 }, {  34,-4382 },
- {  35,-4382 }, {  36,-4382 }, {  37,-4382 }, {  38,-4382 }, {  39,-4382 },
- {  40,-4382 }, {  41,-4382 }, {  42,-4382 }, {  43,-4382 }, {  44,-4382 },
- {  45,-4382 }, {  46,-4382 }, {  47,-4382 }, {  48,-4382 }, {  49,-4382 },
- {  50,-4382 }, {  51,-4382 }, {  52,-4382 }, {  53,-4382 }, {  54,-4382 },
- {  55,-4382 }, {  56,-4382 }, {  57,-4382 }, {  58,-4382 }, {  59,-4382 },
- {  60,-4382 }, {  61,-4382 }, {  62,-4382 }, {  63,-4382 }, {  64,-4382 },
- {  65,-4382 }, {  66,-4382 }, {  67,-4382 }, {  68,-4382 }, {  69,-4382 },
-
- {  70,-4382 }, {  71,-4382 }, {  72,-4382 }, {  73,-4382 }, {  74,-4382 },
- {  75,-4382 }, {  76,-4382 }, {  77,-4382 }, {  78,-4382 }, {  79,-4382 },
- {  80,-4382 }, {  81,-4382 }, {  82,-4382 }, {  83,-4382 }, {  84,-4382 },
- {  85,-4382 }, {  86,-4382 }, {  87,-4382 }, {  88,-4382 }, {  89,-4382 },
- {  90,-4382 }, {  91,-4382 }, {  92,-4124 }, {  93,-6092 }, {  94,-4382 },
- {  95,-4382 }, {  96,-4382 }, {  97,-4382 }, {  98,-4382 }, {  99,-4382 },
- { 100,-4382 }, { 101,-4382 }, { 102,-4382 }, { 103,-4382 }, { 104,-4382 },
- { 105,-4382 }, { 106,-4382 }, { 107,-4382 }, { 108,-4382 }, { 109,-4382 },
- { 110,-4382 }, { 111,-4382 }, { 112,-4382 }, { 113,-4382 }, { 114,-4382 },
- { 115,-4382 }, { 116,-4382 }, { 117,-4382 }, { 118,-4382 }, { 119,-4382 },
-
- { 120,-4382 }, { 121,-4382 }, { 122,-4382 }, { 123,-4382 }, { 124,-4382 },
- { 125,-4382 }, { 126,-4382 }, { 127,-4382 }, { 128,-4382 }, { 129,-4382 },
- { 130,-4382 }, { 131,-4382 }, { 132,-4382 }, { 133,-4382 }, { 134,-4382 },
- { 135,-4382 }, { 136,-4382 }, { 137,-4382 }, { 138,-4382 }, { 139,-4382 },
- { 140,-4382 }, { 141,-4382 }, { 142,-4382 }, { 143,-4382 }, { 144,-4382 },
- { 145,-4382 }, { 146,-4382 }, { 147,-4382 }, { 148,-4382 }, { 149,-4382 },
- { 150,-4382 }, { 151,-4382 }, { 152,-4382 }, { 153,-4382 }, { 154,-4382 },
- { 155,-4382 }, { 156,-4382 }, { 157,-4382 }, { 158,-4382 }, { 159,-4382 },
- { 160,-4382 }, { 161,-4382 }, { 162,-4382 }, { 163,-4382 }, { 164,-4382 },
- { 165,-4382 }, { 166,-4382 }, { 167,-4382 }, { 168,-4382 }, { 169,-4382 },
-
- { 170,-4382 }, { 171,-4382 }, { 172,-4382 }, { 173,-4382 }, { 174,-4382 },
- { 175,-4382 }, { 176,-4382 }, { 177,-4382 }, { 178,-4382 }, { 179,-4382 },
- { 180,-4382 }, { 181,-4382 }, { 182,-4382 }, { 183,-4382 }, { 184,-4382 },
- { 185,-4382 }, { 186,-4382 }, { 187,-4382 }, { 188,-4382 }, { 189,-4382 },
- { 190,-4382 }, { 191,-4382 }, { 192,-4382 }, { 193,-4382 }, { 194,-4382 },
- { 195,-4382 }, { 196,-4382 }, { 197,-4382 }, { 198,-4382 }, { 199,-4382 },
- { 200,-4382 }, { 201,-4382 }, { 202,-4382 }, { 203,-4382 }, { 204,-4382 },
- { 205,-4382 }, { 206,-4382 }, { 207,-4382 }, { 208,-4382 }, { 209,-4382 },
- { 210,-4382 }, { 211,-4382 }, { 212,-4382 }, { 213,-4382 }, { 214,-4382 },
- { 215,-4382 }, { 216,-4382 }, { 217,-4382 }, { 218,-4382 }, { 219,-4382 },
-
- { 220,-4382 }, { 221,-4382 }, { 222,-4382 }, { 223,-4382 }, { 224,-4382 },
- { 225,-4382 }, { 226,-4382 }, { 227,-4382 }, { 228,-4382 }, { 229,-4382 },
- { 230,-4382 }, { 231,-4382 }, { 232,-4382 }, { 233,-4382 }, { 234,-4382 },
- { 235,-4382 }, { 236,-4382 }, { 237,-4382 }, { 238,-4382 }, { 239,-4382 },
- { 240,-4382 }, { 241,-4382 }, { 242,-4382 }, { 243,-4382 }, { 244,-4382 },
- { 245,-4382 }, { 246,-4382 }, { 247,-4382 }, { 248,-4382 }, { 249,-4382 },
- { 250,-4382 }, { 251,-4382 }, { 252,-4382 }, { 253,-4382 }, { 254,-4382 },
- { 255,-4382 }, { 256,-4382 }, {   0,   0 }, {   0,8566 }, {   1,-6247 },
- {   2,-6247 }, {   3,-6247 }, {   4,-6247 }, {   5,-6247 }, {   6,-6247 },
- {   7,-6247 }, {   8,-6247 }, {   9,-6368 }, {  10,-6368 }, {  11,-6247 },
-
- {  12,-6247 }, {  13,-6368 }, {  14,-6247 }, {  15,-6247 }, {  16,-6247 },
- {  17,-6247 }, {  18,-6247 }, {  19,-6247 }, {  20,-6247 }, {  21,-6247 },
- {  22,-6247 }, {  23,-6247 }, {  24,-6247 }, {  25,-6247 }, {  26,-6247 },
- {  27,-6247 }, {  28,-6247 }, {  29,-6247 }, {  30,-6247 }, {  31,-6247 },
- {  32,-6368 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6247 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6368 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6247 }, {  46,-6368 },
- {  47,-6368 }, {  48,-6247 }, {  49,-6247 }, {  50,-6247 }, {  51,-6247 },
- {  52,-6247 }, {  53,-6247 }, {  54,-6247 }, {  55,-6247 }, {  56,-6247 },
- {  57,-6247 }, {  58,-6247 }, {   0,   0 }, {   0,   0 }, {  61,-6368 },
-
- {   0,   0 }, {  63,-6247 }, {   0,   0 }, {  65,-6247 }, {  66,-6247 },
- {  67,-6247 }, {  68,-6247 }, {  69,-6247 }, {  70,-6247 }, {  71,-6247 },
- {  72,-6247 }, {  73,-6247 }, {  74,-6247 }, {  75,-6247 }, {  76,-6247 },
- {  77,-6247 }, {  78,-6247 }, {  79,-6247 }, {  80,-6247 }, {  81,-6247 },
- {  82,-6247 }, {  83,-6247 }, {  84,-6247 }, {  85,-6247 }, {  86,-6247 },
- {  87,-6247 }, {  88,-6247 }, {  89,-6247 }, {  90,-6247 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6247 }, {   0,   0 },
- {  97,-6247 }, {  98,-6247 }, {  99,-6247 }, { 100,-6247 }, { 101,-6247 },
- { 102,-6247 }, { 103,-6247 }, { 104,-6247 }, { 105,-6247 }, { 106,-6247 },
- { 107,-6247 }, { 108,-6247 }, { 109,-6247 }, { 110,-6247 }, { 111,-6247 },
-
- { 112,-6247 }, { 113,-6247 }, { 114,-6247 }, { 115,2851 }, { 116,-6247 },
- { 117,-6247 }, { 118,-6247 }, { 119,-6247 }, { 120,-6247 }, { 121,-6247 },
- { 122,-6247 }, {   0,   0 }, { 124,-6368 }, { 125,-6368 }, { 126,-6368 },
- { 127,-6247 }, { 128,-6247 }, { 129,-6247 }, { 130,-6247 }, { 131,-6247 },
- { 132,-6247 }, { 133,-6247 }, { 134,-6247 }, { 135,-6247 }, { 136,-6247 },
- { 137,-6247 }, { 138,-6247 }, { 139,-6247 }, { 140,-6247 }, { 141,-6247 },
- { 142,-6247 }, { 143,-6247 }, { 144,-6247 }, { 145,-6247 }, { 146,-6247 },
- { 147,-6247 }, { 148,-6247 }, { 149,-6247 }, { 150,-6247 }, { 151,-6247 },
- { 152,-6247 }, { 153,-6247 }, { 154,-6247 }, { 155,-6247 }, { 156,-6247 },
- { 157,-6247 }, { 158,-6247 }, { 159,-6247 }, { 160,-6247 }, { 161,-6247 },
-
- { 162,-6247 }, { 163,-6247 }, { 164,-6247 }, { 165,-6247 }, { 166,-6247 },
- { 167,-6247 }, { 168,-6247 }, { 169,-6247 }, { 170,-6247 }, { 171,-6247 },
- { 172,-6247 }, { 173,-6247 }, { 174,-6247 }, { 175,-6247 }, { 176,-6247 },
- { 177,-6247 }, { 178,-6247 }, { 179,-6247 }, { 180,-6247 }, { 181,-6247 },
- { 182,-6247 }, { 183,-6247 }, { 184,-6247 }, { 185,-6247 }, { 186,-6247 },
- { 187,-6247 }, { 188,-6247 }, { 189,-6247 }, { 190,-6247 }, { 191,-6247 },
- { 192,-6247 }, { 193,-6247 }, { 194,-6247 }, { 195,-6247 }, { 196,-6247 },
- { 197,-6247 }, { 198,-6247 }, { 199,-6247 }, { 200,-6247 }, { 201,-6247 },
- { 202,-6247 }, { 203,-6247 }, { 204,-6247 }, { 205,-6247 }, { 206,-6247 },
- { 207,-6247 }, { 208,-6247 }, { 209,-6247 }, { 210,-6247 }, { 211,-6247 },
-
- { 212,-6247 }, { 213,-6247 }, { 214,-6247 }, { 215,-6247 }, { 216,-6247 },
- { 217,-6247 }, { 218,-6247 }, { 219,-6247 }, { 220,-6247 }, { 221,-6247 },
- { 222,-6247 }, { 223,-6247 }, { 224,-6247 }, { 225,-6247 }, { 226,-6247 },
- { 227,-6247 }, { 228,-6247 }, { 229,-6247 }, { 230,-6247 }, { 231,-6247 },
- { 232,-6247 }, { 233,-6247 }, { 234,-6247 }, { 235,-6247 }, { 236,-6247 },
- { 237,-6247 }, { 238,-6247 }, { 239,-6247 }, { 240,-6247 }, { 241,-6247 },
- { 242,-6247 }, { 243,-6247 }, { 244,-6247 }, { 245,-6247 }, { 246,-6247 },
- { 247,-6247 }, { 248,-6247 }, { 249,-6247 }, { 250,-6247 }, { 251,-6247 },
- { 252,-6247 }, { 253,-6247 }, { 254,-6247 }, { 255,-6247 }, { 256,-6247 },
- {   0,   0 }, {   0,8308 }, {   1,-6505 }, {   2,-6505 }, {   3,-6505 },
-
- {   4,-6505 }, {   5,-6505 }, {   6,-6505 }, {   7,-6505 }, {   8,-6505 },
- {   9,-6626 }, {  10,-6626 }, {  11,-6505 }, {  12,-6505 }, {  13,-6626 },
- {  14,-6505 }, {  15,-6505 }, {  16,-6505 }, {  17,-6505 }, {  18,-6505 },
- {  19,-6505 }, {  20,-6505 }, {  21,-6505 }, {  22,-6505 }, {  23,-6505 },
- {  24,-6505 }, {  25,-6505 }, {  26,-6505 }, {  27,-6505 }, {  28,-6505 },
- {  29,-6505 }, {  30,-6505 }, {  31,-6505 }, {  32,-6626 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-6505 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-6626 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-6505 }, {  46,-6626 }, {  47,-6626 }, {  48,-6505 },
- {  49,-6505 }, {  50,-6505 }, {  51,-6505 }, {  52,-6505 }, {  53,-6505 },
-
- {  54,-6505 }, {  55,-6505 }, {  56,-6505 }, {  57,-6505 }, {  58,-6505 },
- {   0,   0 }, {   0,   0 }, {  61,-6626 }, {   0,   0 }, {  63,-6505 },
- {   0,   0 }, {  65,-6505 }, {  66,-6505 }, {  67,-6505 }, {  68,-6505 },
- {  69,-6505 }, {  70,-6505 }, {  71,-6505 }, {  72,-6505 }, {  73,-6505 },
- {  74,-6505 }, {  75,-6505 }, {  76,-6505 }, {  77,-6505 }, {  78,-6505 },
- {  79,-6505 }, {  80,-6505 }, {  81,-6505 }, {  82,-6505 }, {  83,-6505 },
- {  84,-6505 }, {  85,-6505 }, {  86,-6505 }, {  87,-6505 }, {  88,-6505 },
- {  89,-6505 }, {  90,-6505 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-6505 }, {   0,   0 }, {  97,-6505 }, {  98,-6505 },
- {  99,-6505 }, { 100,-6505 }, { 101,-6505 }, { 102,-6505 }, { 103,-6505 },
-
- { 104,-6505 }, { 105,-6505 }, { 106,-6505 }, { 107,-6505 }, { 108,2851 },
- { 109,-6505 }, { 110,-6505 }, { 111,-6505 }, { 112,-6505 }, { 113,-6505 },
- { 114,-6505 }, { 115,-6505 }, { 116,-6505 }, { 117,-6505 }, { 118,-6505 },
- { 119,-6505 }, { 120,-6505 }, { 121,-6505 }, { 122,-6505 }, {   0,   0 },
- { 124,-6626 }, { 125,-6626 }, { 126,-6626 }, { 127,-6505 }, { 128,-6505 },
- { 129,-6505 }, { 130,-6505 }, { 131,-6505 }, { 132,-6505 }, { 133,-6505 },
- { 134,-6505 }, { 135,-6505 }, { 136,-6505 }, { 137,-6505 }, { 138,-6505 },
- { 139,-6505 }, { 140,-6505 }, { 141,-6505 }, { 142,-6505 }, { 143,-6505 },
- { 144,-6505 }, { 145,-6505 }, { 146,-6505 }, { 147,-6505 }, { 148,-6505 },
- { 149,-6505 }, { 150,-6505 }, { 151,-6505 }, { 152,-6505 }, { 153,-6505 },
-
- { 154,-6505 }, { 155,-6505 }, { 156,-6505 }, { 157,-6505 }, { 158,-6505 },
- { 159,-6505 }, { 160,-6505 }, { 161,-6505 }, { 162,-6505 }, { 163,-6505 },
- { 164,-6505 }, { 165,-6505 }, { 166,-6505 }, { 167,-6505 }, { 168,-6505 },
- { 169,-6505 }, { 170,-6505 }, { 171,-6505 }, { 172,-6505 }, { 173,-6505 },
- { 174,-6505 }, { 175,-6505 }, { 176,-6505 }, { 177,-6505 }, { 178,-6505 },
- { 179,-6505 }, { 180,-6505 }, { 181,-6505 }, { 182,-6505 }, { 183,-6505 },
- { 184,-6505 }, { 185,-6505 }, { 186,-6505 }, { 187,-6505 }, { 188,-6505 },
- { 189,-6505 }, { 190,-6505 }, { 191,-6505 }, { 192,-6505 }, { 193,-6505 },
- { 194,-6505 }, { 195,-6505 }, { 196,-6505 }, { 197,-6505 }, { 198,-6505 },
- { 199,-6505 }, { 200,-6505 }, { 201,-6505 }, { 202,-6505 }, { 203,-6505 },
-
- { 204,-6505 }, { 205,-6505 }, { 206,-6505 }, { 207,-6505 }, { 208,-6505 },
- { 209,-6505 }, { 210,-6505 }, { 211,-6505 }, { 212,-6505 }, { 213,-6505 },
- { 214,-6505 }, { 215,-6505 }, { 216,-6505 }, { 217,-6505 }, { 218,-6505 },
- { 219,-6505 }, { 220,-6505 }, { 221,-6505 }, { 222,-6505 }, { 223,-6505 },
- { 224,-6505 }, { 225,-6505 }, { 226,-6505 }, { 227,-6505 }, { 228,-6505 },
- { 229,-6505 }, { 230,-6505 }, { 231,-6505 }, { 232,-6505 }, { 233,-6505 },
- { 234,-6505 }, { 235,-6505 }, { 236,-6505 }, { 237,-6505 }, { 238,-6505 },
- { 239,-6505 }, { 240,-6505 }, { 241,-6505 }, { 242,-6505 }, { 243,-6505 },
- { 244,-6505 }, { 245,-6505 }, { 246,-6505 }, { 247,-6505 }, { 248,-6505 },
- { 249,-6505 }, { 250,-6505 }, { 251,-6505 }, { 252,-6505 }, { 253,-6505 },
-
- { 254,-6505 }, { 255,-6505 }, { 256,-6505 }, {   0,   0 }, {   0,8050 },
- {   1,-6763 }, {   2,-6763 }, {   3,-6763 }, {   4,-6763 }, {   5,-6763 },
- {   6,-6763 }, {   7,-6763 }, {   8,-6763 }, {   9,-6884 }, {  10,-6884 },
- {  11,-6763 }, {  12,-6763 }, {  13,-6884 }, {  14,-6763 }, {  15,-6763 },
- {  16,-6763 }, {  17,-6763 }, {  18,-6763 }, {  19,-6763 }, {  20,-6763 },
- {  21,-6763 }, {  22,-6763 }, {  23,-6763 }, {  24,-6763 }, {  25,-6763 },
- {  26,-6763 }, {  27,-6763 }, {  28,-6763 }, {  29,-6763 }, {  30,-6763 },
- {  31,-6763 }, {  32,-6884 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-6763 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-6884 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6763 },
-
- {  46,-6884 }, {  47,-6884 }, {  48,-6763 }, {  49,-6763 }, {  50,-6763 },
- {  51,-6763 }, {  52,-6763 }, {  53,-6763 }, {  54,-6763 }, {  55,-6763 },
- {  56,-6763 }, {  57,-6763 }, {  58,-6763 }, {   0,   0 }, {   0,   0 },
- {  61,-6884 }, {   0,   0 }, {  63,-6763 }, {   0,   0 }, {  65,-6763 },
- {  66,-6763 }, {  67,-6763 }, {  68,-6763 }, {  69,-6763 }, {  70,-6763 },
- {  71,-6763 }, {  72,-6763 }, {  73,-6763 }, {  74,-6763 }, {  75,-6763 },
- {  76,-6763 }, {  77,-6763 }, {  78,-6763 }, {  79,-6763 }, {  80,-6763 },
- {  81,-6763 }, {  82,-6763 }, {  83,-6763 }, {  84,-6763 }, {  85,-6763 },
- {  86,-6763 }, {  87,-6763 }, {  88,-6763 }, {  89,-6763 }, {  90,-6763 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6763 },
-
- {   0,   0 }, {  97,-6763 }, {  98,-6763 }, {  99,-6763 }, { 100,-6763 },
- { 101,2851 }, { 102,-6763 }, { 103,-6763 }, { 104,-6763 }, { 105,-6763 },
- { 106,-6763 }, { 107,-6763 }, { 108,-6763 }, { 109,-6763 }, { 110,-6763 },
- { 111,-6763 }, { 112,-6763 }, { 113,-6763 }, { 114,-6763 }, { 115,-6763 },
- { 116,-6763 }, { 117,-6763 }, { 118,-6763 }, { 119,-6763 }, { 120,-6763 },
- { 121,-6763 }, { 122,-6763 }, {   0,   0 }, { 124,-6884 }, { 125,-6884 },
- { 126,-6884 }, { 127,-6763 }, { 128,-6763 }, { 129,-6763 }, { 130,-6763 },
- { 131,-6763 }, { 132,-6763 }, { 133,-6763 }, { 134,-6763 }, { 135,-6763 },
- { 136,-6763 }, { 137,-6763 }, { 138,-6763 }, { 139,-6763 }, { 140,-6763 },
- { 141,-6763 }, { 142,-6763 }, { 143,-6763 }, { 144,-6763 }, { 145,-6763 },
-
- { 146,-6763 }, { 147,-6763 }, { 148,-6763 }, { 149,-6763 }, { 150,-6763 },
- { 151,-6763 }, { 152,-6763 }, { 153,-6763 }, { 154,-6763 }, { 155,-6763 },
- { 156,-6763 }, { 157,-6763 }, { 158,-6763 }, { 159,-6763 }, { 160,-6763 },
- { 161,-6763 }, { 162,-6763 }, { 163,-6763 }, { 164,-6763 }, { 165,-6763 },
- { 166,-6763 }, { 167,-6763 }, { 168,-6763 }, { 169,-6763 }, { 170,-6763 },
- { 171,-6763 }, { 172,-6763 }, { 173,-6763 }, { 174,-6763 }, { 175,-6763 },
- { 176,-6763 }, { 177,-6763 }, { 178,-6763 }, { 179,-6763 }, { 180,-6763 },
- { 181,-6763 }, { 182,-6763 }, { 183,-6763 }, { 184,-6763 }, { 185,-6763 },
- { 186,-6763 }, { 187,-6763 }, { 188,-6763 }, { 189,-6763 }, { 190,-6763 },
- { 191,-6763 }, { 192,-6763 }, { 193,-6763 }, { 194,-6763 }, { 195,-6763 },
-
- { 196,-6763 }, { 197,-6763 }, { 198,-6763 }, { 199,-6763 }, { 200,-6763 },
- { 201,-6763 }, { 202,-6763 }, { 203,-6763 }, { 204,-6763 }, { 205,-6763 },
- { 206,-6763 }, { 207,-6763 }, { 208,-6763 }, { 209,-6763 }, { 210,-6763 },
- { 211,-6763 }, { 212,-6763 }, { 213,-6763 }, { 214,-6763 }, { 215,-6763 },
- { 216,-6763 }, { 217,-6763 }, { 218,-6763 }, { 219,-6763 }, { 220,-6763 },
- { 221,-6763 }, { 222,-6763 }, { 223,-6763 }, { 224,-6763 }, { 225,-6763 },
- { 226,-6763 }, { 227,-6763 }, { 228,-6763 }, { 229,-6763 }, { 230,-6763 },
- { 231,-6763 }, { 232,-6763 }, { 233,-6763 }, { 234,-6763 }, { 235,-6763 },
- { 236,-6763 }, { 237,-6763 }, { 238,-6763 }, { 239,-6763 }, { 240,-6763 },
- { 241,-6763 }, { 242,-6763 }, { 243,-6763 }, { 244,-6763 }, { 245,-6763 },
-
- { 246,-6763 }, { 247,-6763 }, { 248,-6763 }, { 249,-6763 }, { 250,-6763 },
- { 251,-6763 }, { 252,-6763 }, { 253,-6763 }, { 254,-6763 }, { 255,-6763 },
- { 256,-6763 }, {   0,   0 }, {   0,7792 }, {   1,-7021 }, {   2,-7021 },
- {   3,-7021 }, {   4,-7021 }, {   5,-7021 }, {   6,-7021 }, {   7,-7021 },
- {   8,-7021 }, {   9,-7142 }, {  10,-7142 }, {  11,-7021 }, {  12,-7021 },
- {  13,-7142 }, {  14,-7021 }, {  15,-7021 }, {  16,-7021 }, {  17,-7021 },
- {  18,-7021 }, {  19,-7021 }, {  20,-7021 }, {  21,-7021 }, {  22,-7021 },
- {  23,-7021 }, {  24,-7021 }, {  25,-7021 }, {  26,-7021 }, {  27,-7021 },
- {  28,-7021 }, {  29,-7021 }, {  30,-7021 }, {  31,-7021 }, {  32,-7142 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7021 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7142 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-7021 }, {  46,-7142 }, {  47,-7142 },
- {  48,-7021 }, {  49,-7021 }, {  50,-7021 }, {  51,-7021 }, {  52,-7021 },
- {  53,-7021 }, {  54,-7021 }, {  55,-7021 }, {  56,-7021 }, {  57,-7021 },
- {  58,-7021 }, {   0,   0 }, {   0,   0 }, {  61,-7142 }, {   0,   0 },
- {  63,-7021 }, {   0,   0 }, {  65,-7021 }, {  66,-7021 }, {  67,-7021 },
- {  68,-7021 }, {  69,-7021 }, {  70,-7021 }, {  71,-7021 }, {  72,-7021 },
- {  73,-7021 }, {  74,-7021 }, {  75,-7021 }, {  76,-7021 }, {  77,-7021 },
- {  78,-7021 }, {  79,-7021 }, {  80,-7021 }, {  81,-7021 }, {  82,-7021 },
- {  83,-7021 }, {  84,-7021 }, {  85,-7021 }, {  86,-7021 }, {  87,-7021 },
-
- {  88,-7021 }, {  89,-7021 }, {  90,-7021 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-7021 }, {   0,   0 }, {  97,-7021 },
- {  98,-7021 }, {  99,-7021 }, { 100,-7021 }, { 101,2851 }, { 102,-7021 },
- { 103,-7021 }, { 104,-7021 }, { 105,-7021 }, { 106,-7021 }, { 107,-7021 },
- { 108,-7021 }, { 109,-7021 }, { 110,-7021 }, { 111,-7021 }, { 112,-7021 },
- { 113,-7021 }, { 114,-7021 }, { 115,-7021 }, { 116,-7021 }, { 117,-7021 },
- { 118,-7021 }, { 119,-7021 }, { 120,-7021 }, { 121,-7021 }, { 122,-7021 },
- {   0,   0 }, { 124,-7142 }, { 125,-7142 }, { 126,-7142 }, { 127,-7021 },
- { 128,-7021 }, { 129,-7021 }, { 130,-7021 }, { 131,-7021 }, { 132,-7021 },
- { 133,-7021 }, { 134,-7021 }, { 135,-7021 }, { 136,-7021 }, { 137,-7021 },
-
- { 138,-7021 }, { 139,-7021 }, { 140,-7021 }, { 141,-7021 }, { 142,-7021 },
- { 143,-7021 }, { 144,-7021 }, { 145,-7021 }, { 146,-7021 }, { 147,-7021 },
- { 148,-7021 }, { 149,-7021 }, { 150,-7021 }, { 151,-7021 }, { 152,-7021 },
- { 153,-7021 }, { 154,-7021 }, { 155,-7021 }, { 156,-7021 }, { 157,-7021 },
- { 158,-7021 }, { 159,-7021 }, { 160,-7021 }, { 161,-7021 }, { 162,-7021 },
- { 163,-7021 }, { 164,-7021 }, { 165,-7021 }, { 166,-7021 }, { 167,-7021 },
- { 168,-7021 }, { 169,-7021 }, { 170,-7021 }, { 171,-7021 }, { 172,-7021 },
- { 173,-7021 }, { 174,-7021 }, { 175,-7021 }, { 176,-7021 }, { 177,-7021 },
- { 178,-7021 }, { 179,-7021 }, { 180,-7021 }, { 181,-7021 }, { 182,-7021 },
- { 183,-7021 }, { 184,-7021 }, { 185,-7021 }, { 186,-7021 }, { 187,-7021 },
-
- { 188,-7021 }, { 189,-7021 }, { 190,-7021 }, { 191,-7021 }, { 192,-7021 },
- { 193,-7021 }, { 194,-7021 }, { 195,-7021 }, { 196,-7021 }, { 197,-7021 },
- { 198,-7021 }, { 199,-7021 }, { 200,-7021 }, { 201,-7021 }, { 202,-7021 },
- { 203,-7021 }, { 204,-7021 }, { 205,-7021 }, { 206,-7021 }, { 207,-7021 },
- { 208,-7021 }, { 209,-7021 }, { 210,-7021 }, { 211,-7021 }, { 212,-7021 },
- { 213,-7021 }, { 214,-7021 }, { 215,-7021 }, { 216,-7021 }, { 217,-7021 },
- { 218,-7021 }, { 219,-7021 }, { 220,-7021 }, { 221,-7021 }, { 222,-7021 },
- { 223,-7021 }, { 224,-7021 }, { 225,-7021 }, { 226,-7021 }, { 227,-7021 },
- { 228,-7021 }, { 229,-7021 }, { 230,-7021 }, { 231,-7021 }, { 232,-7021 },
- { 233,-7021 }, { 234,-7021 }, { 235,-7021 }, { 236,-7021 }, { 237,-7021 },
-
- { 238,-7021 }, { 239,-7021 }, { 240,-7021 }, { 241,-7021 }, { 242,-7021 },
- { 243,-7021 }, { 244,-7021 }, { 245,-7021 }, { 246,-7021 }, { 247,-7021 },
- { 248,-7021 }, { 249,-7021 }, { 250,-7021 }, { 251,-7021 }, { 252,-7021 },
- { 253,-7021 }, { 254,-7021 }, { 255,-7021 }, { 256,-7021 }, {   0,   0 },
- {   0,7534 }, {   0,  25 }, {   0,7532 }, {   0,   0 }, {   0,7530 },
- {   0,   0 }, {   0,7528 }, {   0,  27 }, {   0,7526 }, {   9,   0 },
- {  10,   0 }, {   0,  37 }, {   0,7522 }, {  13,   0 }, {   0,  31 },
- {   0,7519 }, {   0,   0 }, {   0,7517 }, {   0,  38 }, {   0,7515 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9, -15 },
- {  10, -15 }, {   0,   0 }, {   0,   0 }, {  13, -15 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32, -15 }, {  33,-7352 }, {   0,   0 },
- {  35,-3879 }, {   0,   0 }, {   0,   0 }, {  38,-3877 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  42,-3875 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  47,-3873 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,-3869 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,1188 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 101,2853 }, {   0,   0 }, {  94, -13 },
- {   0,   0 }, {   0,   0 }, { 108,2853 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101, -11 }, { 115,2849 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 115,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,2851 }, { 126,2853 }, {   0,   0 },
-
- { 115,  -9 }, { 123,2853 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,2853 }, { 123,2848 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,2850 }, {   0,   0 }, {   0,7390 },
- {   1,2838 }, {   2,2838 }, {   3,2838 }, {   4,2838 }, {   5,2838 },
- {   6,2838 }, {   7,2838 }, {   8,2838 }, {   9,2838 }, {  10,2838 },
- {  11,2838 }, {  12,2838 }, {  13,2838 }, {  14,2838 }, {  15,2838 },
- {  16,2838 }, {  17,2838 }, {  18,2838 }, {  19,2838 }, {  20,2838 },
- {  21,2838 }, {  22,2838 }, {  23,2838 }, {  24,2838 }, {  25,2838 },
- {  26,2838 }, {  27,2838 }, {  28,2838 }, {  29,2838 }, {  30,2838 },
- {  31,2838 }, {  32,2838 }, {  33,2838 }, {  34,2838 }, {  35,2838 },
-
- {  36,2838 }, {  37,2838 }, {  38,2838 }, {  39,2838 }, {  40,2838 },
- {  41,2838 }, {  42,2838 }, {  43,2838 }, {  44,2838 }, {  45,3096 },
- {  46,2838 }, {  47,2838 }, {  48,2838 }, {  49,2838 }, {  50,2838 },
- {  51,2838 }, {  52,2838 }, {  53,2838 }, {  54,2838 }, {  55,2838 },
- {  56,2838 }, {  57,2838 }, {  58,2838 }, {  59,2838 }, {  60,2838 },
- {  61,2838 }, {  62,2838 }, {  63,2838 }, {  64,2838 }, {  65,2838 },
- {  66,2838 }, {  67,2838 }, {  68,2838 }, {  69,2838 }, {  70,2838 },
- {  71,2838 }, {  72,2838 }, {  73,2838 }, {  74,2838 }, {  75,2838 },
- {  76,2838 }, {  77,2838 }, {  78,2838 }, {  79,2838 }, {  80,2838 },
- {  81,2838 }, {  82,2838 }, {  83,2838 }, {  84,2838 }, {  85,2838 },
-
- {  86,2838 }, {  87,2838 }, {  88,2838 }, {  89,2838 }, {  90,2838 },
- {  91,2838 }, {  92,2838 }, {  93,2838 }, {  94,2838 }, {  95,2838 },
- {  96,2838 }, {  97,2838 }, {  98,2838 }, {  99,2838 }, { 100,2838 },
- { 101,2838 }, { 102,2838 }, { 103,2838 }, { 104,2838 }, { 105,2838 },
- { 106,2838 }, { 107,2838 }, { 108,2838 }, { 109,2838 }, { 110,2838 },
- { 111,2838 }, { 112,2838 }, { 113,2838 }, { 114,2838 }, { 115,2838 },
- { 116,2838 }, { 117,2838 }, { 118,2838 }, { 119,2838 }, { 120,2838 },
- { 121,2838 }, { 122,2838 }, { 123,2838 }, { 124,2838 }, { 125,2838 },
- { 126,2838 }, { 127,2838 }, { 128,2838 }, { 129,2838 }, { 130,2838 },
- { 131,2838 }, { 132,2838 }, { 133,2838 }, { 134,2838 }, { 135,2838 },
-
- { 136,2838 }, { 137,2838 }, { 138,2838 }, { 139,2838 }, { 140,2838 },
- { 141,2838 }, { 142,2838 }, { 143,2838 }, { 144,2838 }, { 145,2838 },
- { 146,2838 }, { 147,2838 }, { 148,2838 }, { 149,2838 }, { 150,2838 },
- { 151,2838 }, { 152,2838 }, { 153,2838 }, { 154,2838 }, { 155,2838 },
- { 156,2838 }, { 157,2838 }, { 158,2838 }, { 159,2838 }, { 160,2838 },
- { 161,2838 }, { 162,2838 }, { 163,2838 }, { 164,2838 }, { 165,2838 },
- { 166,2838 }, { 167,2838 }, { 168,2838 }, { 169,2838 }, { 170,2838 },
- { 171,2838 }, { 172,2838 }, { 173,2838 }, { 174,2838 }, { 175,2838 },
- { 176,2838 }, { 177,2838 }, { 178,2838 }, { 179,2838 }, { 180,2838 },
- { 181,2838 }, { 182,2838 }, { 183,2838 }, { 184,2838 }, { 185,2838 },
-
- { 186,2838 }, { 187,2838 }, { 188,2838 }, { 189,2838 }, { 190,2838 },
- { 191,2838 }, { 192,2838 }, { 193,2838 }, { 194,2838 }, { 195,2838 },
- { 196,2838 }, { 197,2838 }, { 198,2838 }, { 199,2838 }, { 200,2838 },
- { 201,2838 }, { 202,2838 }, { 203,2838 }, { 204,2838 }, { 205,2838 },
- { 206,2838 }, { 207,2838 }, { 208,2838 }, { 209,2838 }, { 210,2838 },
- { 211,2838 }, { 212,2838 }, { 213,2838 }, { 214,2838 }, { 215,2838 },
- { 216,2838 }, { 217,2838 }, { 218,2838 }, { 219,2838 }, { 220,2838 },
- { 221,2838 }, { 222,2838 }, { 223,2838 }, { 224,2838 }, { 225,2838 },
- { 226,2838 }, { 227,2838 }, { 228,2838 }, { 229,2838 }, { 230,2838 },
- { 231,2838 }, { 232,2838 }, { 233,2838 }, { 234,2838 }, { 235,2838 },
-
- { 236,2838 }, { 237,2838 }, { 238,2838 }, { 239,2838 }, { 240,2838 },
- { 241,2838 }, { 242,2838 }, { 243,2838 }, { 244,2838 }, { 245,2838 },
- { 246,2838 }, { 247,2838 }, { 248,2838 }, { 249,2838 }, { 250,2838 },
- { 251,2838 }, { 252,2838 }, { 253,2838 }, { 254,2838 }, { 255,2838 },
- { 256,2838 }, {   0,   0 }, {   0,7132 }, {   1,-258 }, {   2,-258 },
- {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
- {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
- {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
- {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
- {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
-
- {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
- {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
- {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
- {  43,-258 }, {  44,-258 }, {  45,   0 }, {  46,-258 }, {  47,-258 },
- {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
- {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
- {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
- {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
- {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
- {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
-
- {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
- {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
- {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,-258 },
- {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
- {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
- { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
- { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
- { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
- { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
- { 123,-258 }, { 124,-258 }, { 125, 258 }, { 126, 516 }, { 127,-258 },
-
- { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
- { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
- { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
- { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
- { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
- { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
- { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
- { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
- { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
- { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
-
- { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
- { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
- { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
- { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
- { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
- { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
- { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
- { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
- { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
- { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
-
- { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
- { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
- { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
- { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
- { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
- { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,6874 }, {   1,-516 }, {   2,-516 }, {   3,-516 }, {   4,-516 },
- {   5,-516 }, {   6,-516 }, {   7,-516 }, {   8,-516 }, {   9,-516 },
- {  10,-516 }, {  11,-516 }, {  12,-516 }, {  13,-516 }, {  14,-516 },
- {  15,-516 }, {  16,-516 }, {  17,-516 }, {  18,-516 }, {  19,-516 },
-
- {  20,-516 }, {  21,-516 }, {  22,-516 }, {  23,-516 }, {  24,-516 },
- {  25,-516 }, {  26,-516 }, {  27,-516 }, {  28,-516 }, {  29,-516 },
- {  30,-516 }, {  31,-516 }, {  32,-516 }, {  33,-516 }, {  34,-516 },
- {  35,-516 }, {  36,-516 }, {  37,-516 }, {  38,-516 }, {  39,-516 },
- {  40,-516 }, {  41,-516 }, {  42,-516 }, {  43,-516 }, {  44,-516 },
- {  45,2838 }, {  46,-516 }, {  47,-516 }, {  48,-516 }, {  49,-516 },
- {  50,-516 }, {  51,-516 }, {  52,-516 }, {  53,-516 }, {  54,-516 },
- {  55,-516 }, {  56,-516 }, {  57,-516 }, {  58,-516 }, {  59,-516 },
- {  60,-516 }, {  61,-516 }, {  62,-516 }, {  63,-516 }, {  64,-516 },
- {  65,-516 }, {  66,-516 }, {  67,-516 }, {  68,-516 }, {  69,-516 },
-
- {  70,-516 }, {  71,-516 }, {  72,-516 }, {  73,-516 }, {  74,-516 },
- {  75,-516 }, {  76,-516 }, {  77,-516 }, {  78,-516 }, {  79,-516 },
- {  80,-516 }, {  81,-516 }, {  82,-516 }, {  83,-516 }, {  84,-516 },
- {  85,-516 }, {  86,-516 }, {  87,-516 }, {  88,-516 }, {  89,-516 },
- {  90,-516 }, {  91,-516 }, {  92,-516 }, {  93,-516 }, {  94,-516 },
- {  95,-516 }, {  96,-516 }, {  97,-516 }, {  98,-516 }, {  99,-516 },
- { 100,-516 }, { 101,-516 }, { 102,-516 }, { 103,-516 }, { 104,-516 },
- { 105,-516 }, { 106,-516 }, { 107,-516 }, { 108,-516 }, { 109,-516 },
- { 110,-516 }, { 111,-516 }, { 112,-516 }, { 113,-516 }, { 114,-516 },
- { 115,-516 }, { 116,-516 }, { 117,-516 }, { 118,-516 }, { 119,-516 },
-
- { 120,-516 }, { 121,-516 }, { 122,-516 }, { 123,-516 }, { 124,-516 },
- { 125,2209 }, { 126,-516 }, { 127,-516 }, { 128,-516 }, { 129,-516 },
- { 130,-516 }, { 131,-516 }, { 132,-516 }, { 133,-516 }, { 134,-516 },
- { 135,-516 }, { 136,-516 }, { 137,-516 }, { 138,-516 }, { 139,-516 },
- { 140,-516 }, { 141,-516 }, { 142,-516 }, { 143,-516 }, { 144,-516 },
- { 145,-516 }, { 146,-516 }, { 147,-516 }, { 148,-516 }, { 149,-516 },
- { 150,-516 }, { 151,-516 }, { 152,-516 }, { 153,-516 }, { 154,-516 },
- { 155,-516 }, { 156,-516 }, { 157,-516 }, { 158,-516 }, { 159,-516 },
- { 160,-516 }, { 161,-516 }, { 162,-516 }, { 163,-516 }, { 164,-516 },
- { 165,-516 }, { 166,-516 }, { 167,-516 }, { 168,-516 }, { 169,-516 },
-
- { 170,-516 }, { 171,-516 }, { 172,-516 }, { 173,-516 }, { 174,-516 },
- { 175,-516 }, { 176,-516 }, { 177,-516 }, { 178,-516 }, { 179,-516 },
- { 180,-516 }, { 181,-516 }, { 182,-516 }, { 183,-516 }, { 184,-516 },
- { 185,-516 }, { 186,-516 }, { 187,-516 }, { 188,-516 }, { 189,-516 },
- { 190,-516 }, { 191,-516 }, { 192,-516 }, { 193,-516 }, { 194,-516 },
- { 195,-516 }, { 196,-516 }, { 197,-516 }, { 198,-516 }, { 199,-516 },
- { 200,-516 }, { 201,-516 }, { 202,-516 }, { 203,-516 }, { 204,-516 },
- { 205,-516 }, { 206,-516 }, { 207,-516 }, { 208,-516 }, { 209,-516 },
- { 210,-516 }, { 211,-516 }, { 212,-516 }, { 213,-516 }, { 214,-516 },
- { 215,-516 }, { 216,-516 }, { 217,-516 }, { 218,-516 }, { 219,-516 },
-
- { 220,-516 }, { 221,-516 }, { 222,-516 }, { 223,-516 }, { 224,-516 },
- { 225,-516 }, { 226,-516 }, { 227,-516 }, { 228,-516 }, { 229,-516 },
- { 230,-516 }, { 231,-516 }, { 232,-516 }, { 233,-516 }, { 234,-516 },
- { 235,-516 }, { 236,-516 }, { 237,-516 }, { 238,-516 }, { 239,-516 },
- { 240,-516 }, { 241,-516 }, { 242,-516 }, { 243,-516 }, { 244,-516 },
- { 245,-516 }, { 246,-516 }, { 247,-516 }, { 248,-516 }, { 249,-516 },
- { 250,-516 }, { 251,-516 }, { 252,-516 }, { 253,-516 }, { 254,-516 },
- { 255,-516 }, { 256,-516 }, {   0,   0 }, {   0,6616 }, {   1,-774 },
- {   2,-774 }, {   3,-774 }, {   4,-774 }, {   5,-774 }, {   6,-774 },
- {   7,-774 }, {   8,-774 }, {   9,-774 }, {  10,-774 }, {  11,-774 },
-
- {  12,-774 }, {  13,-774 }, {  14,-774 }, {  15,-774 }, {  16,-774 },
- {  17,-774 }, {  18,-774 }, {  19,-774 }, {  20,-774 }, {  21,-774 },
- {  22,-774 }, {  23,-774 }, {  24,-774 }, {  25,-774 }, {  26,-774 },
- {  27,-774 }, {  28,-774 }, {  29,-774 }, {  30,-774 }, {  31,-774 },
- {  32,-774 }, {  33,-774 }, {  34,-774 }, {  35,-774 }, {  36,-774 },
- {  37,-774 }, {  38,-774 }, {  39,-774 }, {  40,-774 }, {  41,-774 },
- {  42,-774 }, {  43,-774 }, {  44,-774 }, {  45,2580 }, {  46,-774 },
- {  47,-774 }, {  48,-774 }, {  49,-774 }, {  50,-774 }, {  51,-774 },
- {  52,-774 }, {  53,-774 }, {  54,-774 }, {  55,-774 }, {  56,-774 },
- {  57,-774 }, {  58,-774 }, {  59,-774 }, {  60,-774 }, {  61,-774 },
-
- {  62,-774 }, {  63,-774 }, {  64,-774 }, {  65,-774 }, {  66,-774 },
- {  67,-774 }, {  68,-774 }, {  69,-774 }, {  70,-774 }, {  71,-774 },
- {  72,-774 }, {  73,-774 }, {  74,-774 }, {  75,-774 }, {  76,-774 },
- {  77,-774 }, {  78,-774 }, {  79,-774 }, {  80,-774 }, {  81,-774 },
- {  82,-774 }, {  83,-774 }, {  84,-774 }, {  85,-774 }, {  86,-774 },
- {  87,-774 }, {  88,-774 }, {  89,-774 }, {  90,-774 }, {  91,-774 },
- {  92,-774 }, {  93,-774 }, {  94,-774 }, {  95,-774 }, {  96,-774 },
- {  97,-774 }, {  98,-774 }, {  99,-774 }, { 100,-774 }, { 101,-774 },
- { 102,-774 }, { 103,-774 }, { 104,-774 }, { 105,-774 }, { 106,-774 },
- { 107,-774 }, { 108,-774 }, { 109,-774 }, { 110,-774 }, { 111,-774 },
-
- { 112,-774 }, { 113,-774 }, { 114,-774 }, { 115,-774 }, { 116,-774 },
- { 117,-774 }, { 118,-774 }, { 119,-774 }, { 120,-774 }, { 121,-774 },
- { 122,-774 }, { 123,-774 }, { 124,-774 }, { 125,-258 }, { 126,-774 },
- { 127,-774 }, { 128,-774 }, { 129,-774 }, { 130,-774 }, { 131,-774 },
- { 132,-774 }, { 133,-774 }, { 134,-774 }, { 135,-774 }, { 136,-774 },
- { 137,-774 }, { 138,-774 }, { 139,-774 }, { 140,-774 }, { 141,-774 },
- { 142,-774 }, { 143,-774 }, { 144,-774 }, { 145,-774 }, { 146,-774 },
- { 147,-774 }, { 148,-774 }, { 149,-774 }, { 150,-774 }, { 151,-774 },
- { 152,-774 }, { 153,-774 }, { 154,-774 }, { 155,-774 }, { 156,-774 },
- { 157,-774 }, { 158,-774 }, { 159,-774 }, { 160,-774 }, { 161,-774 },
-
- { 162,-774 }, { 163,-774 }, { 164,-774 }, { 165,-774 }, { 166,-774 },
- { 167,-774 }, { 168,-774 }, { 169,-774 }, { 170,-774 }, { 171,-774 },
- { 172,-774 }, { 173,-774 }, { 174,-774 }, { 175,-774 }, { 176,-774 },
- { 177,-774 }, { 178,-774 }, { 179,-774 }, { 180,-774 }, { 181,-774 },
- { 182,-774 }, { 183,-774 }, { 184,-774 }, { 185,-774 }, { 186,-774 },
- { 187,-774 }, { 188,-774 }, { 189,-774 }, { 190,-774 }, { 191,-774 },
- { 192,-774 }, { 193,-774 }, { 194,-774 }, { 195,-774 }, { 196,-774 },
- { 197,-774 }, { 198,-774 }, { 199,-774 }, { 200,-774 }, { 201,-774 },
- { 202,-774 }, { 203,-774 }, { 204,-774 }, { 205,-774 }, { 206,-774 },
- { 207,-774 }, { 208,-774 }, { 209,-774 }, { 210,-774 }, { 211,-774 },
-
- { 212,-774 }, { 213,-774 }, { 214,-774 }, { 215,-774 }, { 216,-774 },
- { 217,-774 }, { 218,-774 }, { 219,-774 }, { 220,-774 }, { 221,-774 },
- { 222,-774 }, { 223,-774 }, { 224,-774 }, { 225,-774 }, { 226,-774 },
- { 227,-774 }, { 228,-774 }, { 229,-774 }, { 230,-774 }, { 231,-774 },
- { 232,-774 }, { 233,-774 }, { 234,-774 }, { 235,-774 }, { 236,-774 },
- { 237,-774 }, { 238,-774 }, { 239,-774 }, { 240,-774 }, { 241,-774 },
- { 242,-774 }, { 243,-774 }, { 244,-774 }, { 245,-774 }, { 246,-774 },
- { 247,-774 }, { 248,-774 }, { 249,-774 }, { 250,-774 }, { 251,-774 },
- { 252,-774 }, { 253,-774 }, { 254,-774 }, { 255,-774 }, { 256,-774 },
- {   0,   0 }, {   0,6358 }, {   0,   0 }, {   0,6356 }, {   0,   1 },
-
- {   0,6354 }, {   0,   4 }, {   0,6352 }, {   0,  48 }, {   0,6350 },
- {   0,  42 }, {   0,6348 }, {   0,   0 }, {   0,6346 }, {   0,   0 },
- {   0,6344 }, {   0,   0 }, {  10,   0 }, {   0,  21 }, {   0,6340 },
- {  13,   0 }, {   0,  20 }, {   0,6337 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,3369 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 108,3369 }, {   0,   0 }, {   0,   0 }, { 123,2580 },
- {   0,   0 }, { 123,2836 }, {   0,   0 }, { 123,2836 }, {   0,   4 },
- {   0,6229 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
-
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
- {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
- {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
- {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
-
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
- {  90,   0 }, {  91,   0 }, {   0,   0 }, {  93,   0 }, {  94,   0 },
- {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
-
- { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
-
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
-
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   4 }, {   0,5972 }, {   1,-257 }, {   2,-257 },
- {   3,-257 }, {   4,-257 }, {   5,-257 }, {   6,-257 }, {   7,-257 },
- {   8,-257 }, {   9,-257 }, {  10,-380 }, {  11,-257 }, {  12,-257 },
- {  13,-380 }, {  14,-257 }, {  15,-257 }, {  16,-257 }, {  17,-257 },
-
- {  18,-257 }, {  19,-257 }, {  20,-257 }, {  21,-257 }, {  22,-257 },
- {  23,-257 }, {  24,-257 }, {  25,-257 }, {  26,-257 }, {  27,-257 },
- {  28,-257 }, {  29,-257 }, {  30,-257 }, {  31,-257 }, {  32,-257 },
- {  33,-257 }, {  34,-257 }, {  35,-257 }, {  36,-257 }, {  37,-257 },
- {  38,-257 }, {  39,-257 }, {  40,-257 }, {  41,-257 }, {  42,-257 },
- {  43,-257 }, {  44,-257 }, {  45,-257 }, {  46,-257 }, {  47,-257 },
- {  48,-257 }, {  49,-257 }, {  50,-257 }, {  51,-257 }, {  52,-257 },
- {  53,-257 }, {  54,-257 }, {  55,-257 }, {  56,-257 }, {  57,-257 },
- {  58,-257 }, {  59,-257 }, {  60,-257 }, {  61,-257 }, {  62,-257 },
- {  63,-257 }, {  64,-257 }, {  65,-257 }, {  66,-257 }, {  67,-257 },
-
- {  68,-257 }, {  69,-257 }, {  70,-257 }, {  71,-257 }, {  72,-257 },
- {  73,-257 }, {  74,-257 }, {  75,-257 }, {  76,-257 }, {  77,-257 },
- {  78,-257 }, {  79,-257 }, {  80,-257 }, {  81,-257 }, {  82,-257 },
- {  83,-257 }, {  84,-257 }, {  85,-257 }, {  86,-257 }, {  87,-257 },
- {  88,-257 }, {  89,-257 }, {  90,-257 }, {  91,-257 }, {   0,   0 },
- {  93,-257 }, {  94,-257 }, {  95,-257 }, {  96,-257 }, {  97,-257 },
- {  98,-257 }, {  99,-257 }, { 100,-257 }, { 101,-257 }, { 102,-257 },
- { 103,-257 }, { 104,-257 }, { 105,-257 }, { 106,-257 }, { 107,-257 },
- { 108,-257 }, { 109,-257 }, { 110,-257 }, { 111,-257 }, { 112,-257 },
- { 113,-257 }, { 114,-257 }, { 115,-257 }, { 116,-257 }, { 117,-257 },
-
- { 118,-257 }, { 119,-257 }, { 120,-257 }, { 121,-257 }, { 122,-257 },
- {   0,   0 }, { 124,-257 }, { 125,-257 }, { 126,-257 }, { 127,-257 },
- { 128,-257 }, { 129,-257 }, { 130,-257 }, { 131,-257 }, { 132,-257 },
- { 133,-257 }, { 134,-257 }, { 135,-257 }, { 136,-257 }, { 137,-257 },
- { 138,-257 }, { 139,-257 }, { 140,-257 }, { 141,-257 }, { 142,-257 },
- { 143,-257 }, { 144,-257 }, { 145,-257 }, { 146,-257 }, { 147,-257 },
- { 148,-257 }, { 149,-257 }, { 150,-257 }, { 151,-257 }, { 152,-257 },
- { 153,-257 }, { 154,-257 }, { 155,-257 }, { 156,-257 }, { 157,-257 },
- { 158,-257 }, { 159,-257 }, { 160,-257 }, { 161,-257 }, { 162,-257 },
- { 163,-257 }, { 164,-257 }, { 165,-257 }, { 166,-257 }, { 167,-257 },
-
- { 168,-257 }, { 169,-257 }, { 170,-257 }, { 171,-257 }, { 172,-257 },
- { 173,-257 }, { 174,-257 }, { 175,-257 }, { 176,-257 }, { 177,-257 },
- { 178,-257 }, { 179,-257 }, { 180,-257 }, { 181,-257 }, { 182,-257 },
- { 183,-257 }, { 184,-257 }, { 185,-257 }, { 186,-257 }, { 187,-257 },
- { 188,-257 }, { 189,-257 }, { 190,-257 }, { 191,-257 }, { 192,-257 },
- { 193,-257 }, { 194,-257 }, { 195,-257 }, { 196,-257 }, { 197,-257 },
- { 198,-257 }, { 199,-257 }, { 200,-257 }, { 201,-257 }, { 202,-257 },
- { 203,-257 }, { 204,-257 }, { 205,-257 }, { 206,-257 }, { 207,-257 },
- { 208,-257 }, { 209,-257 }, { 210,-257 }, { 211,-257 }, { 212,-257 },
- { 213,-257 }, { 214,-257 }, { 215,-257 }, { 216,-257 }, { 217,-257 },
-
- { 218,-257 }, { 219,-257 }, { 220,-257 }, { 221,-257 }, { 222,-257 },
- { 223,-257 }, { 224,-257 }, { 225,-257 }, { 226,-257 }, { 227,-257 },
- { 228,-257 }, { 229,-257 }, { 230,-257 }, { 231,-257 }, { 232,-257 },
- { 233,-257 }, { 234,-257 }, { 235,-257 }, { 236,-257 }, { 237,-257 },
- { 238,-257 }, { 239,-257 }, { 240,-257 }, { 241,-257 }, { 242,-257 },
- { 243,-257 }, { 244,-257 }, { 245,-257 }, { 246,-257 }, { 247,-257 },
- { 248,-257 }, { 249,-257 }, { 250,-257 }, { 251,-257 }, { 252,-257 },
- { 253,-257 }, { 254,-257 }, { 255,-257 }, {   0,   0 }, {   0,5715 },
- {   1,-9098 }, {   2,-9098 }, {   3,-9098 }, {   4,-9098 }, {   5,-9098 },
- {   6,-9098 }, {   7,-9098 }, {   8,-9098 }, {   9,-9219 }, {  10,-9219 },
-
- {  11,-9098 }, {  12,-9098 }, {  13,-9219 }, {  14,-9098 }, {  15,-9098 },
- {  16,-9098 }, {  17,-9098 }, {  18,-9098 }, {  19,-9098 }, {  20,-9098 },
- {  21,-9098 }, {  22,-9098 }, {  23,-9098 }, {  24,-9098 }, {  25,-9098 },
- {  26,-9098 }, {  27,-9098 }, {  28,-9098 }, {  29,-9098 }, {  30,-9098 },
- {  31,-9098 }, {  32,-9219 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-9098 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-9219 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9098 },
- {  46,-9219 }, {  47,-9219 }, {  48,-9098 }, {  49,-9098 }, {  50,-9098 },
- {  51,-9098 }, {  52,-9098 }, {  53,-9098 }, {  54,-9098 }, {  55,-9098 },
- {  56,-9098 }, {  57,-9098 }, {  58,-9098 }, {   0,   0 }, {   0,   0 },
-
- {  61,-9219 }, {   0,   0 }, {  63,-9098 }, {   0,   0 }, {  65,-9098 },
- {  66,-9098 }, {  67,-9098 }, {  68,-9098 }, {  69,-9098 }, {  70,-9098 },
- {  71,-9098 }, {  72,-9098 }, {  73,-9098 }, {  74,-9098 }, {  75,-9098 },
- {  76,-9098 }, {  77,-9098 }, {  78,-9098 }, {  79,-9098 }, {  80,-9098 },
- {  81,-9098 }, {  82,-9098 }, {  83,-9098 }, {  84,-9098 }, {  85,-9098 },
- {  86,-9098 }, {  87,-9098 }, {  88,-9098 }, {  89,-9098 }, {  90,-9098 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9098 },
- {   0,   0 }, {  97,-9098 }, {  98,-9098 }, {  99,-9098 }, { 100,-9098 },
- { 101,2222 }, { 102,-9098 }, { 103,-9098 }, { 104,-9098 }, { 105,-9098 },
- { 106,-9098 }, { 107,-9098 }, { 108,-9098 }, { 109,-9098 }, { 110,-9098 },
-
- { 111,-9098 }, { 112,-9098 }, { 113,-9098 }, { 114,-9098 }, { 115,-9098 },
- { 116,-9098 }, { 117,-9098 }, { 118,-9098 }, { 119,-9098 }, { 120,-9098 },
- { 121,-9098 }, { 122,-9098 }, {   0,   0 }, { 124,-9219 }, { 125,-9219 },
- { 126,-9219 }, { 127,-9098 }, { 128,-9098 }, { 129,-9098 }, { 130,-9098 },
- { 131,-9098 }, { 132,-9098 }, { 133,-9098 }, { 134,-9098 }, { 135,-9098 },
- { 136,-9098 }, { 137,-9098 }, { 138,-9098 }, { 139,-9098 }, { 140,-9098 },
- { 141,-9098 }, { 142,-9098 }, { 143,-9098 }, { 144,-9098 }, { 145,-9098 },
- { 146,-9098 }, { 147,-9098 }, { 148,-9098 }, { 149,-9098 }, { 150,-9098 },
- { 151,-9098 }, { 152,-9098 }, { 153,-9098 }, { 154,-9098 }, { 155,-9098 },
- { 156,-9098 }, { 157,-9098 }, { 158,-9098 }, { 159,-9098 }, { 160,-9098 },
-
- { 161,-9098 }, { 162,-9098 }, { 163,-9098 }, { 164,-9098 }, { 165,-9098 },
- { 166,-9098 }, { 167,-9098 }, { 168,-9098 }, { 169,-9098 }, { 170,-9098 },
- { 171,-9098 }, { 172,-9098 }, { 173,-9098 }, { 174,-9098 }, { 175,-9098 },
- { 176,-9098 }, { 177,-9098 }, { 178,-9098 }, { 179,-9098 }, { 180,-9098 },
- { 181,-9098 }, { 182,-9098 }, { 183,-9098 }, { 184,-9098 }, { 185,-9098 },
- { 186,-9098 }, { 187,-9098 }, { 188,-9098 }, { 189,-9098 }, { 190,-9098 },
- { 191,-9098 }, { 192,-9098 }, { 193,-9098 }, { 194,-9098 }, { 195,-9098 },
- { 196,-9098 }, { 197,-9098 }, { 198,-9098 }, { 199,-9098 }, { 200,-9098 },
- { 201,-9098 }, { 202,-9098 }, { 203,-9098 }, { 204,-9098 }, { 205,-9098 },
- { 206,-9098 }, { 207,-9098 }, { 208,-9098 }, { 209,-9098 }, { 210,-9098 },
-
- { 211,-9098 }, { 212,-9098 }, { 213,-9098 }, { 214,-9098 }, { 215,-9098 },
- { 216,-9098 }, { 217,-9098 }, { 218,-9098 }, { 219,-9098 }, { 220,-9098 },
- { 221,-9098 }, { 222,-9098 }, { 223,-9098 }, { 224,-9098 }, { 225,-9098 },
- { 226,-9098 }, { 227,-9098 }, { 228,-9098 }, { 229,-9098 }, { 230,-9098 },
- { 231,-9098 }, { 232,-9098 }, { 233,-9098 }, { 234,-9098 }, { 235,-9098 },
- { 236,-9098 }, { 237,-9098 }, { 238,-9098 }, { 239,-9098 }, { 240,-9098 },
- { 241,-9098 }, { 242,-9098 }, { 243,-9098 }, { 244,-9098 }, { 245,-9098 },
- { 246,-9098 }, { 247,-9098 }, { 248,-9098 }, { 249,-9098 }, { 250,-9098 },
- { 251,-9098 }, { 252,-9098 }, { 253,-9098 }, { 254,-9098 }, { 255,-9098 },
- { 256,-9098 }, {   0,   0 }, {   0,5457 }, {   1,-9356 }, {   2,-9356 },
-
- {   3,-9356 }, {   4,-9356 }, {   5,-9356 }, {   6,-9356 }, {   7,-9356 },
- {   8,-9356 }, {   9,1941 }, {  10,1941 }, {  11,-9356 }, {  12,-9356 },
- {  13,1941 }, {  14,-9356 }, {  15,-9356 }, {  16,-9356 }, {  17,-9356 },
- {  18,-9356 }, {  19,-9356 }, {  20,-9356 }, {  21,-9356 }, {  22,-9356 },
- {  23,-9356 }, {  24,-9356 }, {  25,-9356 }, {  26,-9356 }, {  27,-9356 },
- {  28,-9356 }, {  29,-9356 }, {  30,-9356 }, {  31,-9356 }, {  32,1941 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9356 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1941 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-9356 }, {  46,-9477 }, {  47,-9477 },
- {  48,-9356 }, {  49,-9356 }, {  50,-9356 }, {  51,-9356 }, {  52,-9356 },
-
- {  53,-9356 }, {  54,-9356 }, {  55,-9356 }, {  56,-9356 }, {  57,-9356 },
- {  58,-9356 }, {   0,   0 }, {   0,   0 }, {  61,-9477 }, {   0,   0 },
- {  63,-9356 }, {   0,   0 }, {  65,-9356 }, {  66,-9356 }, {  67,-9356 },
- {  68,-9356 }, {  69,-9356 }, {  70,-9356 }, {  71,-9356 }, {  72,-9356 },
- {  73,-9356 }, {  74,-9356 }, {  75,-9356 }, {  76,-9356 }, {  77,-9356 },
- {  78,-9356 }, {  79,-9356 }, {  80,-9356 }, {  81,-9356 }, {  82,-9356 },
- {  83,-9356 }, {  84,-9356 }, {  85,-9356 }, {  86,-9356 }, {  87,-9356 },
- {  88,-9356 }, {  89,-9356 }, {  90,-9356 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-9356 }, {   0,   0 }, {  97,-9356 },
- {  98,-9356 }, {  99,-9356 }, { 100,-9356 }, { 101,-9356 }, { 102,-9356 },
-
- { 103,-9356 }, { 104,-9356 }, { 105,-9356 }, { 106,-9356 }, { 107,-9356 },
- { 108,-9356 }, { 109,-9356 }, { 110,-9356 }, { 111,-9356 }, { 112,-9356 },
- { 113,-9356 }, { 114,-9356 }, { 115,-9356 }, { 116,-9356 }, { 117,-9356 },
- { 118,-9356 }, { 119,-9356 }, { 120,-9356 }, { 121,-9356 }, { 122,-9356 },
- {   0,   0 }, { 124,-9477 }, { 125,1941 }, { 126,1941 }, { 127,-9356 },
- { 128,-9356 }, { 129,-9356 }, { 130,-9356 }, { 131,-9356 }, { 132,-9356 },
- { 133,-9356 }, { 134,-9356 }, { 135,-9356 }, { 136,-9356 }, { 137,-9356 },
- { 138,-9356 }, { 139,-9356 }, { 140,-9356 }, { 141,-9356 }, { 142,-9356 },
- { 143,-9356 }, { 144,-9356 }, { 145,-9356 }, { 146,-9356 }, { 147,-9356 },
- { 148,-9356 }, { 149,-9356 }, { 150,-9356 }, { 151,-9356 }, { 152,-9356 },
-
- { 153,-9356 }, { 154,-9356 }, { 155,-9356 }, { 156,-9356 }, { 157,-9356 },
- { 158,-9356 }, { 159,-9356 }, { 160,-9356 }, { 161,-9356 }, { 162,-9356 },
- { 163,-9356 }, { 164,-9356 }, { 165,-9356 }, { 166,-9356 }, { 167,-9356 },
- { 168,-9356 }, { 169,-9356 }, { 170,-9356 }, { 171,-9356 }, { 172,-9356 },
- { 173,-9356 }, { 174,-9356 }, { 175,-9356 }, { 176,-9356 }, { 177,-9356 },
- { 178,-9356 }, { 179,-9356 }, { 180,-9356 }, { 181,-9356 }, { 182,-9356 },
- { 183,-9356 }, { 184,-9356 }, { 185,-9356 }, { 186,-9356 }, { 187,-9356 },
- { 188,-9356 }, { 189,-9356 }, { 190,-9356 }, { 191,-9356 }, { 192,-9356 },
- { 193,-9356 }, { 194,-9356 }, { 195,-9356 }, { 196,-9356 }, { 197,-9356 },
- { 198,-9356 }, { 199,-9356 }, { 200,-9356 }, { 201,-9356 }, { 202,-9356 },
-
- { 203,-9356 }, { 204,-9356 }, { 205,-9356 }, { 206,-9356 }, { 207,-9356 },
- { 208,-9356 }, { 209,-9356 }, { 210,-9356 }, { 211,-9356 }, { 212,-9356 },
- { 213,-9356 }, { 214,-9356 }, { 215,-9356 }, { 216,-9356 }, { 217,-9356 },
- { 218,-9356 }, { 219,-9356 }, { 220,-9356 }, { 221,-9356 }, { 222,-9356 },
- { 223,-9356 }, { 224,-9356 }, { 225,-9356 }, { 226,-9356 }, { 227,-9356 },
- { 228,-9356 }, { 229,-9356 }, { 230,-9356 }, { 231,-9356 }, { 232,-9356 },
- { 233,-9356 }, { 234,-9356 }, { 235,-9356 }, { 236,-9356 }, { 237,-9356 },
- { 238,-9356 }, { 239,-9356 }, { 240,-9356 }, { 241,-9356 }, { 242,-9356 },
- { 243,-9356 }, { 244,-9356 }, { 245,-9356 }, { 246,-9356 }, { 247,-9356 },
- { 248,-9356 }, { 249,-9356 }, { 250,-9356 }, { 251,-9356 }, { 252,-9356 },
-
- { 253,-9356 }, { 254,-9356 }, { 255,-9356 }, { 256,-9356 }, {   0,   0 },
- {   0,5199 }, {   1,-9614 }, {   2,-9614 }, {   3,-9614 }, {   4,-9614 },
- {   5,-9614 }, {   6,-9614 }, {   7,-9614 }, {   8,-9614 }, {   9,1685 },
- {  10,1685 }, {  11,-9614 }, {  12,-9614 }, {  13,1685 }, {  14,-9614 },
- {  15,-9614 }, {  16,-9614 }, {  17,-9614 }, {  18,-9614 }, {  19,-9614 },
- {  20,-9614 }, {  21,-9614 }, {  22,-9614 }, {  23,-9614 }, {  24,-9614 },
- {  25,-9614 }, {  26,-9614 }, {  27,-9614 }, {  28,-9614 }, {  29,-9614 },
- {  30,-9614 }, {  31,-9614 }, {  32,1685 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-9614 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,1685 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  45,-9614 }, {  46,-9735 }, {  47,-9735 }, {  48,-9614 }, {  49,-9614 },
- {  50,-9614 }, {  51,-9614 }, {  52,-9614 }, {  53,-9614 }, {  54,-9614 },
- {  55,-9614 }, {  56,-9614 }, {  57,-9614 }, {  58,-9614 }, {   0,   0 },
- {   0,   0 }, {  61,-9735 }, {   0,   0 }, {  63,-9614 }, {   0,   0 },
- {  65,-9614 }, {  66,-9614 }, {  67,-9614 }, {  68,-9614 }, {  69,-9614 },
- {  70,-9614 }, {  71,-9614 }, {  72,-9614 }, {  73,-9614 }, {  74,-9614 },
- {  75,-9614 }, {  76,-9614 }, {  77,-9614 }, {  78,-9614 }, {  79,-9614 },
- {  80,-9614 }, {  81,-9614 }, {  82,-9614 }, {  83,-9614 }, {  84,-9614 },
- {  85,-9614 }, {  86,-9614 }, {  87,-9614 }, {  88,-9614 }, {  89,-9614 },
- {  90,-9614 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  95,-9614 }, {   0,   0 }, {  97,-9614 }, {  98,-9614 }, {  99,-9614 },
- { 100,-9614 }, { 101,-9614 }, { 102,-9614 }, { 103,-9614 }, { 104,-9614 },
- { 105,-9614 }, { 106,-9614 }, { 107,-9614 }, { 108,-9614 }, { 109,-9614 },
- { 110,-9614 }, { 111,-9614 }, { 112,-9614 }, { 113,-9614 }, { 114,-9614 },
- { 115,-9614 }, { 116,-9614 }, { 117,-9614 }, { 118,-9614 }, { 119,-9614 },
- { 120,-9614 }, { 121,-9614 }, { 122,-9614 }, {   0,   0 }, { 124,-9735 },
- { 125,1685 }, { 126,1685 }, { 127,-9614 }, { 128,-9614 }, { 129,-9614 },
- { 130,-9614 }, { 131,-9614 }, { 132,-9614 }, { 133,-9614 }, { 134,-9614 },
- { 135,-9614 }, { 136,-9614 }, { 137,-9614 }, { 138,-9614 }, { 139,-9614 },
- { 140,-9614 }, { 141,-9614 }, { 142,-9614 }, { 143,-9614 }, { 144,-9614 },
-
- { 145,-9614 }, { 146,-9614 }, { 147,-9614 }, { 148,-9614 }, { 149,-9614 },
- { 150,-9614 }, { 151,-9614 }, { 152,-9614 }, { 153,-9614 }, { 154,-9614 },
- { 155,-9614 }, { 156,-9614 }, { 157,-9614 }, { 158,-9614 }, { 159,-9614 },
- { 160,-9614 }, { 161,-9614 }, { 162,-9614 }, { 163,-9614 }, { 164,-9614 },
- { 165,-9614 }, { 166,-9614 }, { 167,-9614 }, { 168,-9614 }, { 169,-9614 },
- { 170,-9614 }, { 171,-9614 }, { 172,-9614 }, { 173,-9614 }, { 174,-9614 },
- { 175,-9614 }, { 176,-9614 }, { 177,-9614 }, { 178,-9614 }, { 179,-9614 },
- { 180,-9614 }, { 181,-9614 }, { 182,-9614 }, { 183,-9614 }, { 184,-9614 },
- { 185,-9614 }, { 186,-9614 }, { 187,-9614 }, { 188,-9614 }, { 189,-9614 },
- { 190,-9614 }, { 191,-9614 }, { 192,-9614 }, { 193,-9614 }, { 194,-9614 },
-
- { 195,-9614 }, { 196,-9614 }, { 197,-9614 }, { 198,-9614 }, { 199,-9614 },
- { 200,-9614 }, { 201,-9614 }, { 202,-9614 }, { 203,-9614 }, { 204,-9614 },
- { 205,-9614 }, { 206,-9614 }, { 207,-9614 }, { 208,-9614 }, { 209,-9614 },
- { 210,-9614 }, { 211,-9614 }, { 212,-9614 }, { 213,-9614 }, { 214,-9614 },
- { 215,-9614 }, { 216,-9614 }, { 217,-9614 }, { 218,-9614 }, { 219,-9614 },
- { 220,-9614 }, { 221,-9614 }, { 222,-9614 }, { 223,-9614 }, { 224,-9614 },
- { 225,-9614 }, { 226,-9614 }, { 227,-9614 }, { 228,-9614 }, { 229,-9614 },
- { 230,-9614 }, { 231,-9614 }, { 232,-9614 }, { 233,-9614 }, { 234,-9614 },
- { 235,-9614 }, { 236,-9614 }, { 237,-9614 }, { 238,-9614 }, { 239,-9614 },
- { 240,-9614 }, { 241,-9614 }, { 242,-9614 }, { 243,-9614 }, { 244,-9614 },
-
- { 245,-9614 }, { 246,-9614 }, { 247,-9614 }, { 248,-9614 }, { 249,-9614 },
- { 250,-9614 }, { 251,-9614 }, { 252,-9614 }, { 253,-9614 }, { 254,-9614 },
- { 255,-9614 }, { 256,-9614 }, {   0,   0 }, {   0,4941 }, {   1,-9872 },
- {   2,-9872 }, {   3,-9872 }, {   4,-9872 }, {   5,-9872 }, {   6,-9872 },
- {   7,-9872 }, {   8,-9872 }, {   9,-9993 }, {  10,-9993 }, {  11,-9872 },
- {  12,-9872 }, {  13,-9993 }, {  14,-9872 }, {  15,-9872 }, {  16,-9872 },
- {  17,-9872 }, {  18,-9872 }, {  19,-9872 }, {  20,-9872 }, {  21,-9872 },
- {  22,-9872 }, {  23,-9872 }, {  24,-9872 }, {  25,-9872 }, {  26,-9872 },
- {  27,-9872 }, {  28,-9872 }, {  29,-9872 }, {  30,-9872 }, {  31,-9872 },
- {  32,-9993 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9872 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9993 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9872 }, {  46,-9993 },
- {  47,-9993 }, {  48,-9872 }, {  49,-9872 }, {  50,-9872 }, {  51,-9872 },
- {  52,-9872 }, {  53,-9872 }, {  54,-9872 }, {  55,-9872 }, {  56,-9872 },
- {  57,-9872 }, {  58,-9872 }, {   0,   0 }, {   0,   0 }, {  61,-9993 },
- {   0,   0 }, {  63,-9872 }, {   0,   0 }, {  65,-9872 }, {  66,-9872 },
- {  67,-9872 }, {  68,-9872 }, {  69,-9872 }, {  70,-9872 }, {  71,-9872 },
- {  72,-9872 }, {  73,-9872 }, {  74,-9872 }, {  75,-9872 }, {  76,-9872 },
- {  77,-9872 }, {  78,-9872 }, {  79,-9872 }, {  80,-9872 }, {  81,-9872 },
- {  82,-9872 }, {  83,-9872 }, {  84,-9872 }, {  85,-9872 }, {  86,-9872 },
-
- {  87,-9872 }, {  88,-9872 }, {  89,-9872 }, {  90,-9872 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9872 }, {   0,   0 },
- {  97,-9872 }, {  98,-9872 }, {  99,-9872 }, { 100,-9872 }, { 101,-9872 },
- { 102,1706 }, { 103,-9872 }, { 104,-9872 }, { 105,-9872 }, { 106,-9872 },
- { 107,-9872 }, { 108,-9872 }, { 109,-9872 }, { 110,-9872 }, { 111,-9872 },
- { 112,-9872 }, { 113,-9872 }, { 114,-9872 }, { 115,-9872 }, { 116,-9872 },
- { 117,-9872 }, { 118,-9872 }, { 119,-9872 }, { 120,-9872 }, { 121,-9872 },
- { 122,-9872 }, {   0,   0 }, { 124,-9993 }, { 125,-9993 }, { 126,-9993 },
- { 127,-9872 }, { 128,-9872 }, { 129,-9872 }, { 130,-9872 }, { 131,-9872 },
- { 132,-9872 }, { 133,-9872 }, { 134,-9872 }, { 135,-9872 }, { 136,-9872 },
-
- { 137,-9872 }, { 138,-9872 }, { 139,-9872 }, { 140,-9872 }, { 141,-9872 },
- { 142,-9872 }, { 143,-9872 }, { 144,-9872 }, { 145,-9872 }, { 146,-9872 },
- { 147,-9872 }, { 148,-9872 }, { 149,-9872 }, { 150,-9872 }, { 151,-9872 },
- { 152,-9872 }, { 153,-9872 }, { 154,-9872 }, { 155,-9872 }, { 156,-9872 },
- { 157,-9872 }, { 158,-9872 }, { 159,-9872 }, { 160,-9872 }, { 161,-9872 },
- { 162,-9872 }, { 163,-9872 }, { 164,-9872 }, { 165,-9872 }, { 166,-9872 },
- { 167,-9872 }, { 168,-9872 }, { 169,-9872 }, { 170,-9872 }, { 171,-9872 },
- { 172,-9872 }, { 173,-9872 }, { 174,-9872 }, { 175,-9872 }, { 176,-9872 },
- { 177,-9872 }, { 178,-9872 }, { 179,-9872 }, { 180,-9872 }, { 181,-9872 },
- { 182,-9872 }, { 183,-9872 }, { 184,-9872 }, { 185,-9872 }, { 186,-9872 },
-
- { 187,-9872 }, { 188,-9872 }, { 189,-9872 }, { 190,-9872 }, { 191,-9872 },
- { 192,-9872 }, { 193,-9872 }, { 194,-9872 }, { 195,-9872 }, { 196,-9872 },
- { 197,-9872 }, { 198,-9872 }, { 199,-9872 }, { 200,-9872 }, { 201,-9872 },
- { 202,-9872 }, { 203,-9872 }, { 204,-9872 }, { 205,-9872 }, { 206,-9872 },
- { 207,-9872 }, { 208,-9872 }, { 209,-9872 }, { 210,-9872 }, { 211,-9872 },
- { 212,-9872 }, { 213,-9872 }, { 214,-9872 }, { 215,-9872 }, { 216,-9872 },
- { 217,-9872 }, { 218,-9872 }, { 219,-9872 }, { 220,-9872 }, { 221,-9872 },
- { 222,-9872 }, { 223,-9872 }, { 224,-9872 }, { 225,-9872 }, { 226,-9872 },
- { 227,-9872 }, { 228,-9872 }, { 229,-9872 }, { 230,-9872 }, { 231,-9872 },
- { 232,-9872 }, { 233,-9872 }, { 234,-9872 }, { 235,-9872 }, { 236,-9872 },
-
- { 237,-9872 }, { 238,-9872 }, { 239,-9872 }, { 240,-9872 }, { 241,-9872 },
- { 242,-9872 }, { 243,-9872 }, { 244,-9872 }, { 245,-9872 }, { 246,-9872 },
- { 247,-9872 }, { 248,-9872 }, { 249,-9872 }, { 250,-9872 }, { 251,-9872 },
- { 252,-9872 }, { 253,-9872 }, { 254,-9872 }, { 255,-9872 }, { 256,-9872 },
- {   0,   0 }, {   0,4683 }, {   0,   0 }, {   0,4681 }, {   0,   0 },
- {   0,4679 }, {   0,   0 }, {   0,4677 }, {   0,   0 }, {   0,4675 },
- {   0,  17 }, {   0,4673 }, {   0,  27 }, {   0,4671 }, {   0,  18 },
- {   0,4669 }, {   0,  37 }, {   0,4667 }, {   0,  12 }, {   0,4665 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,3371 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4684,375 +4365,364 @@ static const struct yy_trans_info yy_transition[23409] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 115,   0 }, { 108,1706 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 115,1706 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,   2 }, { 126,   4 }, { 125,1708 }, {   0,   0 },
-
- { 125,  -2 }, {   0,   0 }, {   0,4552 }, {   1,   0 }, {   2,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 108,3371 }, {   0,   0 },
+ {   0,   0 }, { 123,2582 }, {   0,   0 }, { 123,2838 }, {   0,   0 },
+ { 123,2838 }, {   0,   4 }, {   0,6231 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
- {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 }, {  12,   0 },
+ {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
  {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+
  {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
  {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
  {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
-
+ {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
  {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {   0,   0 },
  {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
-
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
  { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
-
  { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
  { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
  { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
  { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+
  { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
  { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
-
  { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
  { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
  { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
  { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+
  { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
-
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0,4294 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   4 },
+ {   0,5973 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
  {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
- {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
+ {  10,-381 }, {  11,-258 }, {  12,-258 }, {  13,-381 }, {  14,-258 },
  {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
+
  {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
  {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
  {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
  {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
-
  {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
- {  45,-2838 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
+ {  45,-258 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
  {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
  {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
  {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
  {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
+
  {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
  {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
  {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
  {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
-
- {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
+ {  90,-258 }, {  91,-258 }, {   0,   0 }, {  93,-258 }, {  94,-258 },
  {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
  { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
  { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
  { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
  { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
- { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
+
+ { 120,-258 }, { 121,-258 }, { 122,-258 }, {   0,   0 }, { 124,-258 },
  { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
  { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
  { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
-
  { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
  { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
  { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
  { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
  { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
  { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
+
  { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
  { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
  { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
  { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
-
  { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
  { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
  { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
  { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
  { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
  { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
+
  { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
  { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
  { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
  { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
-
  { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
  { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
  { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
- { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,4036 }, {   1,1184 },
- {   2,1184 }, {   3,1184 }, {   4,1184 }, {   5,1184 }, {   6,1184 },
- {   7,1184 }, {   8,1184 }, {   9,1184 }, {  10,1184 }, {  11,1184 },
- {  12,1184 }, {  13,1184 }, {  14,1184 }, {  15,1184 }, {  16,1184 },
- {  17,1184 }, {  18,1184 }, {  19,1184 }, {  20,1184 }, {  21,1184 },
- {  22,1184 }, {  23,1184 }, {  24,1184 }, {  25,1184 }, {  26,1184 },
- {  27,1184 }, {  28,1184 }, {  29,1184 }, {  30,1184 }, {  31,1184 },
-
- {  32,1184 }, {  33,1184 }, {  34,1184 }, {  35,1184 }, {  36,1184 },
- {  37,1184 }, {  38,1184 }, {  39,1184 }, {  40,1184 }, {  41,1184 },
- {  42,1184 }, {  43,1184 }, {  44,1184 }, {  45,1442 }, {  46,1184 },
- {  47,1184 }, {  48,1184 }, {  49,1184 }, {  50,1184 }, {  51,1184 },
- {  52,1184 }, {  53,1184 }, {  54,1184 }, {  55,1184 }, {  56,1184 },
- {  57,1184 }, {  58,1184 }, {  59,1184 }, {  60,1184 }, {  61,1184 },
- {  62,1184 }, {  63,1184 }, {  64,1184 }, {  65,1184 }, {  66,1184 },
- {  67,1184 }, {  68,1184 }, {  69,1184 }, {  70,1184 }, {  71,1184 },
- {  72,1184 }, {  73,1184 }, {  74,1184 }, {  75,1184 }, {  76,1184 },
- {  77,1184 }, {  78,1184 }, {  79,1184 }, {  80,1184 }, {  81,1184 },
-
- {  82,1184 }, {  83,1184 }, {  84,1184 }, {  85,1184 }, {  86,1184 },
- {  87,1184 }, {  88,1184 }, {  89,1184 }, {  90,1184 }, {  91,1184 },
- {  92,1184 }, {  93,1184 }, {  94,1184 }, {  95,1184 }, {  96,1184 },
- {  97,1184 }, {  98,1184 }, {  99,1184 }, { 100,1184 }, { 101,1184 },
- { 102,1184 }, { 103,1184 }, { 104,1184 }, { 105,1184 }, { 106,1184 },
- { 107,1184 }, { 108,1184 }, { 109,1184 }, { 110,1184 }, { 111,1184 },
- { 112,1184 }, { 113,1184 }, { 114,1184 }, { 115,1184 }, { 116,1184 },
- { 117,1184 }, { 118,1184 }, { 119,1184 }, { 120,1184 }, { 121,1184 },
- { 122,1184 }, { 123,1184 }, { 124,1184 }, { 125,1184 }, { 126,1184 },
- { 127,1184 }, { 128,1184 }, { 129,1184 }, { 130,1184 }, { 131,1184 },
-
- { 132,1184 }, { 133,1184 }, { 134,1184 }, { 135,1184 }, { 136,1184 },
- { 137,1184 }, { 138,1184 }, { 139,1184 }, { 140,1184 }, { 141,1184 },
- { 142,1184 }, { 143,1184 }, { 144,1184 }, { 145,1184 }, { 146,1184 },
- { 147,1184 }, { 148,1184 }, { 149,1184 }, { 150,1184 }, { 151,1184 },
- { 152,1184 }, { 153,1184 }, { 154,1184 }, { 155,1184 }, { 156,1184 },
- { 157,1184 }, { 158,1184 }, { 159,1184 }, { 160,1184 }, { 161,1184 },
- { 162,1184 }, { 163,1184 }, { 164,1184 }, { 165,1184 }, { 166,1184 },
- { 167,1184 }, { 168,1184 }, { 169,1184 }, { 170,1184 }, { 171,1184 },
- { 172,1184 }, { 173,1184 }, { 174,1184 }, { 175,1184 }, { 176,1184 },
- { 177,1184 }, { 178,1184 }, { 179,1184 }, { 180,1184 }, { 181,1184 },
-
- { 182,1184 }, { 183,1184 }, { 184,1184 }, { 185,1184 }, { 186,1184 },
- { 187,1184 }, { 188,1184 }, { 189,1184 }, { 190,1184 }, { 191,1184 },
- { 192,1184 }, { 193,1184 }, { 194,1184 }, { 195,1184 }, { 196,1184 },
- { 197,1184 }, { 198,1184 }, { 199,1184 }, { 200,1184 }, { 201,1184 },
- { 202,1184 }, { 203,1184 }, { 204,1184 }, { 205,1184 }, { 206,1184 },
- { 207,1184 }, { 208,1184 }, { 209,1184 }, { 210,1184 }, { 211,1184 },
- { 212,1184 }, { 213,1184 }, { 214,1184 }, { 215,1184 }, { 216,1184 },
- { 217,1184 }, { 218,1184 }, { 219,1184 }, { 220,1184 }, { 221,1184 },
- { 222,1184 }, { 223,1184 }, { 224,1184 }, { 225,1184 }, { 226,1184 },
- { 227,1184 }, { 228,1184 }, { 229,1184 }, { 230,1184 }, { 231,1184 },
-
- { 232,1184 }, { 233,1184 }, { 234,1184 }, { 235,1184 }, { 236,1184 },
- { 237,1184 }, { 238,1184 }, { 239,1184 }, { 240,1184 }, { 241,1184 },
- { 242,1184 }, { 243,1184 }, { 244,1184 }, { 245,1184 }, { 246,1184 },
- { 247,1184 }, { 248,1184 }, { 249,1184 }, { 250,1184 }, { 251,1184 },
- { 252,1184 }, { 253,1184 }, { 254,1184 }, { 255,1184 }, { 256,1184 },
- {   0,   0 }, {   0,3778 }, {   1, 811 }, {   2, 811 }, {   3, 811 },
- {   4, 811 }, {   5, 811 }, {   6, 811 }, {   7, 811 }, {   8, 811 },
- {   9, 811 }, {  10, 811 }, {  11, 811 }, {  12, 811 }, {  13, 811 },
- {  14, 811 }, {  15, 811 }, {  16, 811 }, {  17, 811 }, {  18, 811 },
- {  19, 811 }, {  20, 811 }, {  21, 811 }, {  22, 811 }, {  23, 811 },
-
- {  24, 811 }, {  25, 811 }, {  26, 811 }, {  27, 811 }, {  28, 811 },
- {  29, 811 }, {  30, 811 }, {  31, 811 }, {  32, 811 }, {  33, 811 },
- {  34, 811 }, {  35, 811 }, {  36, 811 }, {  37, 811 }, {  38, 811 },
- {  39, 811 }, {  40, 811 }, {  41, 811 }, {  42, 811 }, {  43, 811 },
- {  44, 811 }, {  45, 811 }, {  46, 811 }, {  47,1442 }, {  48, 811 },
- {  49, 811 }, {  50, 811 }, {  51, 811 }, {  52, 811 }, {  53, 811 },
- {  54, 811 }, {  55, 811 }, {  56, 811 }, {  57, 811 }, {  58, 811 },
- {  59, 811 }, {  60, 811 }, {  61, 811 }, {  62, 811 }, {  63, 811 },
- {  64, 811 }, {  65, 811 }, {  66, 811 }, {  67, 811 }, {  68, 811 },
- {  69, 811 }, {  70, 811 }, {  71, 811 }, {  72, 811 }, {  73, 811 },
-
- {  74, 811 }, {  75, 811 }, {  76, 811 }, {  77, 811 }, {  78, 811 },
- {  79, 811 }, {  80, 811 }, {  81, 811 }, {  82, 811 }, {  83, 811 },
- {  84, 811 }, {  85, 811 }, {  86, 811 }, {  87, 811 }, {  88, 811 },
- {  89, 811 }, {  90, 811 }, {  91, 811 }, {  92, 811 }, {  93, 811 },
- {  94, 811 }, {  95, 811 }, {  96, 811 }, {  97, 811 }, {  98, 811 },
- {  99, 811 }, { 100, 811 }, { 101, 811 }, { 102, 811 }, { 103, 811 },
- { 104, 811 }, { 105, 811 }, { 106, 811 }, { 107, 811 }, { 108, 811 },
- { 109, 811 }, { 110, 811 }, { 111, 811 }, { 112, 811 }, { 113, 811 },
- { 114, 811 }, { 115, 811 }, { 116, 811 }, { 117, 811 }, { 118, 811 },
- { 119, 811 }, { 120, 811 }, { 121, 811 }, { 122, 811 }, { 123, 811 },
-
- { 124, 811 }, { 125, 811 }, { 126, 811 }, { 127, 811 }, { 128, 811 },
- { 129, 811 }, { 130, 811 }, { 131, 811 }, { 132, 811 }, { 133, 811 },
- { 134, 811 }, { 135, 811 }, { 136, 811 }, { 137, 811 }, { 138, 811 },
- { 139, 811 }, { 140, 811 }, { 141, 811 }, { 142, 811 }, { 143, 811 },
- { 144, 811 }, { 145, 811 }, { 146, 811 }, { 147, 811 }, { 148, 811 },
- { 149, 811 }, { 150, 811 }, { 151, 811 }, { 152, 811 }, { 153, 811 },
- { 154, 811 }, { 155, 811 }, { 156, 811 }, { 157, 811 }, { 158, 811 },
- { 159, 811 }, { 160, 811 }, { 161, 811 }, { 162, 811 }, { 163, 811 },
- { 164, 811 }, { 165, 811 }, { 166, 811 }, { 167, 811 }, { 168, 811 },
- { 169, 811 }, { 170, 811 }, { 171, 811 }, { 172, 811 }, { 173, 811 },
-
- { 174, 811 }, { 175, 811 }, { 176, 811 }, { 177, 811 }, { 178, 811 },
- { 179, 811 }, { 180, 811 }, { 181, 811 }, { 182, 811 }, { 183, 811 },
- { 184, 811 }, { 185, 811 }, { 186, 811 }, { 187, 811 }, { 188, 811 },
- { 189, 811 }, { 190, 811 }, { 191, 811 }, { 192, 811 }, { 193, 811 },
- { 194, 811 }, { 195, 811 }, { 196, 811 }, { 197, 811 }, { 198, 811 },
- { 199, 811 }, { 200, 811 }, { 201, 811 }, { 202, 811 }, { 203, 811 },
- { 204, 811 }, { 205, 811 }, { 206, 811 }, { 207, 811 }, { 208, 811 },
- { 209, 811 }, { 210, 811 }, { 211, 811 }, { 212, 811 }, { 213, 811 },
- { 214, 811 }, { 215, 811 }, { 216, 811 }, { 217, 811 }, { 218, 811 },
- { 219, 811 }, { 220, 811 }, { 221, 811 }, { 222, 811 }, { 223, 811 },
-
- { 224, 811 }, { 225, 811 }, { 226, 811 }, { 227, 811 }, { 228, 811 },
- { 229, 811 }, { 230, 811 }, { 231, 811 }, { 232, 811 }, { 233, 811 },
- { 234, 811 }, { 235, 811 }, { 236, 811 }, { 237, 811 }, { 238, 811 },
- { 239, 811 }, { 240, 811 }, { 241, 811 }, { 242, 811 }, { 243, 811 },
- { 244, 811 }, { 245, 811 }, { 246, 811 }, { 247, 811 }, { 248, 811 },
- { 249, 811 }, { 250, 811 }, { 251, 811 }, { 252, 811 }, { 253, 811 },
- { 254, 811 }, { 255, 811 }, { 256, 811 }, {   0,   1 }, {   0,3520 },
- {   0,   1 }, {   0,3518 }, {   0,  47 }, {   0,3516 }, {   0,  44 },
- {   0,3514 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,3493 }, {   1,-11320 }, {   2,-11320 }, {   3,-11320 },
- {   4,-11320 }, {   5,-11320 }, {   6,-11320 }, {   7,-11320 }, {   8,-11320 },
- {   9, 530 }, {  10, 530 }, {  11,-11320 }, {  12,-11320 }, {  13, 530 },
- {  14,-11320 }, {  15,-11320 }, {  16,-11320 }, {  17,-11320 }, {  18,-11320 },
- {  19,-11320 }, {  20,-11320 }, {  21,-11320 }, {  22,-11320 }, {  23,-11320 },
- {  24,-11320 }, {  25,-11320 }, {  26,-11320 }, {  27,-11320 }, {  28,-11320 },
- {  29,-11320 }, {  30,-11320 }, {  31,-11320 }, {  32, 530 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-11320 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  41, 530 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-11320 }, {  46,-11441 }, {  47,-11441 }, {  48,-11320 },
- {  49,-11320 }, {  50,-11320 }, {  51,-11320 }, {  52,-11320 }, {  53,-11320 },
- {  54,-11320 }, {  55,-11320 }, {  56,-11320 }, {  57,-11320 }, {  58,-11320 },
- {   0,   0 }, {   0,   0 }, {  61,-11441 }, {   0,   0 }, {  63,-11320 },
- {   0,   0 }, {  65,-11320 }, {  66,-11320 }, {  67,-11320 }, {  68,-11320 },
- {  69,-11320 }, {  70,-11320 }, {  71,-11320 }, {  72,-11320 }, {  73,-11320 },
- {  74,-11320 }, {  75,-11320 }, {  76,-11320 }, {  77,-11320 }, {  78,-11320 },
- {  79,-11320 }, {  80,-11320 }, {  81,-11320 }, {  82,-11320 }, {  83,-11320 },
- {  84,-11320 }, {  85,-11320 }, {  86,-11320 }, {  87,-11320 }, {  88,-11320 },
-
- {  89,-11320 }, {  90,-11320 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-11320 }, { 123, 555 }, {  97,-11320 }, {  98,-11320 },
- {  99,-11320 }, { 100,-11320 }, { 101,-11320 }, { 102,-11320 }, { 103,-11320 },
- { 104,-11320 }, { 105,-11320 }, { 106,-11320 }, { 107,-11320 }, { 108,-11320 },
- { 109,-11320 }, { 110,-11320 }, { 111,-11320 }, { 112,-11320 }, { 113,-11320 },
- { 114,-11320 }, { 115,-11320 }, { 116,-11320 }, { 117,-11320 }, { 118,-11320 },
- { 119,-11320 }, { 120,-11320 }, { 121,-11320 }, { 122,-11320 }, {   0,   0 },
- { 124,-11441 }, { 125, 530 }, { 126, 530 }, { 127,-11320 }, { 128,-11320 },
- { 129,-11320 }, { 130,-11320 }, { 131,-11320 }, { 132,-11320 }, { 133,-11320 },
- { 134,-11320 }, { 135,-11320 }, { 136,-11320 }, { 137,-11320 }, { 138,-11320 },
-
- { 139,-11320 }, { 140,-11320 }, { 141,-11320 }, { 142,-11320 }, { 143,-11320 },
- { 144,-11320 }, { 145,-11320 }, { 146,-11320 }, { 147,-11320 }, { 148,-11320 },
- { 149,-11320 }, { 150,-11320 }, { 151,-11320 }, { 152,-11320 }, { 153,-11320 },
- { 154,-11320 }, { 155,-11320 }, { 156,-11320 }, { 157,-11320 }, { 158,-11320 },
- { 159,-11320 }, { 160,-11320 }, { 161,-11320 }, { 162,-11320 }, { 163,-11320 },
- { 164,-11320 }, { 165,-11320 }, { 166,-11320 }, { 167,-11320 }, { 168,-11320 },
- { 169,-11320 }, { 170,-11320 }, { 171,-11320 }, { 172,-11320 }, { 173,-11320 },
- { 174,-11320 }, { 175,-11320 }, { 176,-11320 }, { 177,-11320 }, { 178,-11320 },
- { 179,-11320 }, { 180,-11320 }, { 181,-11320 }, { 182,-11320 }, { 183,-11320 },
- { 184,-11320 }, { 185,-11320 }, { 186,-11320 }, { 187,-11320 }, { 188,-11320 },
-
- { 189,-11320 }, { 190,-11320 }, { 191,-11320 }, { 192,-11320 }, { 193,-11320 },
- { 194,-11320 }, { 195,-11320 }, { 196,-11320 }, { 197,-11320 }, { 198,-11320 },
- { 199,-11320 }, { 200,-11320 }, { 201,-11320 }, { 202,-11320 }, { 203,-11320 },
- { 204,-11320 }, { 205,-11320 }, { 206,-11320 }, { 207,-11320 }, { 208,-11320 },
- { 209,-11320 }, { 210,-11320 }, { 211,-11320 }, { 212,-11320 }, { 213,-11320 },
- { 214,-11320 }, { 215,-11320 }, { 216,-11320 }, { 217,-11320 }, { 218,-11320 },
- { 219,-11320 }, { 220,-11320 }, { 221,-11320 }, { 222,-11320 }, { 223,-11320 },
- { 224,-11320 }, { 225,-11320 }, { 226,-11320 }, { 227,-11320 }, { 228,-11320 },
- { 229,-11320 }, { 230,-11320 }, { 231,-11320 }, { 232,-11320 }, { 233,-11320 },
- { 234,-11320 }, { 235,-11320 }, { 236,-11320 }, { 237,-11320 }, { 238,-11320 },
-
- { 239,-11320 }, { 240,-11320 }, { 241,-11320 }, { 242,-11320 }, { 243,-11320 },
- { 244,-11320 }, { 245,-11320 }, { 246,-11320 }, { 247,-11320 }, { 248,-11320 },
- { 249,-11320 }, { 250,-11320 }, { 251,-11320 }, { 252,-11320 }, { 253,-11320 },
- { 254,-11320 }, { 255,-11320 }, { 256,-11320 }, {   0,   0 }, {   0,3235 },
- {   1,-11578 }, {   2,-11578 }, {   3,-11578 }, {   4,-11578 }, {   5,-11578 },
- {   6,-11578 }, {   7,-11578 }, {   8,-11578 }, {   9,-11699 }, {  10,-11699 },
- {  11,-11578 }, {  12,-11578 }, {  13,-11699 }, {  14,-11578 }, {  15,-11578 },
- {  16,-11578 }, {  17,-11578 }, {  18,-11578 }, {  19,-11578 }, {  20,-11578 },
- {  21,-11578 }, {  22,-11578 }, {  23,-11578 }, {  24,-11578 }, {  25,-11578 },
- {  26,-11578 }, {  27,-11578 }, {  28,-11578 }, {  29,-11578 }, {  30,-11578 },
-
- {  31,-11578 }, {  32,-11699 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-11578 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-11699 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11578 },
- {  46,-11699 }, {  47,-11699 }, {  48,-11578 }, {  49,-11578 }, {  50,-11578 },
- {  51,-11578 }, {  52,-11578 }, {  53,-11578 }, {  54,-11578 }, {  55,-11578 },
- {  56,-11578 }, {  57,-11578 }, {  58,-11578 }, {   0,   0 }, {   0,   0 },
- {  61,-11699 }, {   0,   0 }, {  63,-11578 }, {   0,   0 }, {  65,-11578 },
- {  66,-11578 }, {  67,-11578 }, {  68,-11578 }, {  69,-11578 }, {  70,-11578 },
- {  71,-11578 }, {  72,-11578 }, {  73,-11578 }, {  74,-11578 }, {  75,-11578 },
- {  76,-11578 }, {  77,-11578 }, {  78,-11578 }, {  79,-11578 }, {  80,-11578 },
-
- {  81,-11578 }, {  82,-11578 }, {  83,-11578 }, {  84,-11578 }, {  85,-11578 },
- {  86,-11578 }, {  87,-11578 }, {  88,-11578 }, {  89,-11578 }, {  90,-11578 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11578 },
- {   0,   0 }, {  97,-11578 }, {  98,-11578 }, {  99,-11578 }, { 100,-11578 },
- { 101,-11578 }, { 102,-11578 }, { 103,-11578 }, { 104,-11578 }, { 105,1157 },
- { 106,-11578 }, { 107,-11578 }, { 108,-11578 }, { 109,-11578 }, { 110,-11578 },
- { 111,-11578 }, { 112,-11578 }, { 113,-11578 }, { 114,-11578 }, { 115,-11578 },
- { 116,-11578 }, { 117,-11578 }, { 118,-11578 }, { 119,-11578 }, { 120,-11578 },
- { 121,-11578 }, { 122,-11578 }, {   0,   0 }, { 124,-11699 }, { 125,-11699 },
- { 126,-11699 }, { 127,-11578 }, { 128,-11578 }, { 129,-11578 }, { 130,-11578 },
-
- { 131,-11578 }, { 132,-11578 }, { 133,-11578 }, { 134,-11578 }, { 135,-11578 },
- { 136,-11578 }, { 137,-11578 }, { 138,-11578 }, { 139,-11578 }, { 140,-11578 },
- { 141,-11578 }, { 142,-11578 }, { 143,-11578 }, { 144,-11578 }, { 145,-11578 },
- { 146,-11578 }, { 147,-11578 }, { 148,-11578 }, { 149,-11578 }, { 150,-11578 },
- { 151,-11578 }, { 152,-11578 }, { 153,-11578 }, { 154,-11578 }, { 155,-11578 },
- { 156,-11578 }, { 157,-11578 }, { 158,-11578 }, { 159,-11578 }, { 160,-11578 },
- { 161,-11578 }, { 162,-11578 }, { 163,-11578 }, { 164,-11578 }, { 165,-11578 },
- { 166,-11578 }, { 167,-11578 }, { 168,-11578 }, { 169,-11578 }, { 170,-11578 },
- { 171,-11578 }, { 172,-11578 }, { 173,-11578 }, { 174,-11578 }, { 175,-11578 },
- { 176,-11578 }, { 177,-11578 }, { 178,-11578 }, { 179,-11578 }, { 180,-11578 },
-
- { 181,-11578 }, { 182,-11578 }, { 183,-11578 }, { 184,-11578 }, { 185,-11578 },
- { 186,-11578 }, { 187,-11578 }, { 188,-11578 }, { 189,-11578 }, { 190,-11578 },
- { 191,-11578 }, { 192,-11578 }, { 193,-11578 }, { 194,-11578 }, { 195,-11578 },
- { 196,-11578 }, { 197,-11578 }, { 198,-11578 }, { 199,-11578 }, { 200,-11578 },
- { 201,-11578 }, { 202,-11578 }, { 203,-11578 }, { 204,-11578 }, { 205,-11578 },
- { 206,-11578 }, { 207,-11578 }, { 208,-11578 }, { 209,-11578 }, { 210,-11578 },
- { 211,-11578 }, { 212,-11578 }, { 213,-11578 }, { 214,-11578 }, { 215,-11578 },
- { 216,-11578 }, { 217,-11578 }, { 218,-11578 }, { 219,-11578 }, { 220,-11578 },
- { 221,-11578 }, { 222,-11578 }, { 223,-11578 }, { 224,-11578 }, { 225,-11578 },
- { 226,-11578 }, { 227,-11578 }, { 228,-11578 }, { 229,-11578 }, { 230,-11578 },
-
- { 231,-11578 }, { 232,-11578 }, { 233,-11578 }, { 234,-11578 }, { 235,-11578 },
- { 236,-11578 }, { 237,-11578 }, { 238,-11578 }, { 239,-11578 }, { 240,-11578 },
- { 241,-11578 }, { 242,-11578 }, { 243,-11578 }, { 244,-11578 }, { 245,-11578 },
- { 246,-11578 }, { 247,-11578 }, { 248,-11578 }, { 249,-11578 }, { 250,-11578 },
- { 251,-11578 }, { 252,-11578 }, { 253,-11578 }, { 254,-11578 }, { 255,-11578 },
- { 256,-11578 }, {   0,   0 }, {   0,2977 }, {   0,  29 }, {   0,2975 },
- {   0,  23 }, {   0,2973 }, {   0,   0 }, {   0,2971 }, {   0,   0 },
- {   0,2969 }, {   0,   8 }, {   0,2967 }, {   0,   1 }, {   0,2965 },
- {   0,  45 }, {   0,2963 }, {   0,   0 }, {   0,2961 }, {   0,   0 },
- {   0,2959 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,5715 }, {   1,-9270 },
+ {   2,-9270 }, {   3,-9270 }, {   4,-9270 }, {   5,-9270 }, {   6,-9270 },
+ {   7,-9270 }, {   8,-9270 }, {   9,-9295 }, {  10,-9295 }, {  11,-9270 },
+
+ {  12,-9270 }, {  13,-9295 }, {  14,-9270 }, {  15,-9270 }, {  16,-9270 },
+ {  17,-9270 }, {  18,-9270 }, {  19,-9270 }, {  20,-9270 }, {  21,-9270 },
+ {  22,-9270 }, {  23,-9270 }, {  24,-9270 }, {  25,-9270 }, {  26,-9270 },
+ {  27,-9270 }, {  28,-9270 }, {  29,-9270 }, {  30,-9270 }, {  31,-9270 },
+ {  32,-9295 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9270 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9295 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9270 }, {  46,-9295 },
+ {  47,-9295 }, {  48,-9270 }, {  49,-9270 }, {  50,-9270 }, {  51,-9270 },
+ {  52,-9270 }, {  53,-9270 }, {  54,-9270 }, {  55,-9270 }, {  56,-9270 },
+ {  57,-9270 }, {  58,-9270 }, {   0,   0 }, {   0,   0 }, {  61,-9295 },
+
+ {   0,   0 }, {  63,-9270 }, {   0,   0 }, {  65,-9270 }, {  66,-9270 },
+ {  67,-9270 }, {  68,-9270 }, {  69,-9270 }, {  70,-9270 }, {  71,-9270 },
+ {  72,-9270 }, {  73,-9270 }, {  74,-9270 }, {  75,-9270 }, {  76,-9270 },
+ {  77,-9270 }, {  78,-9270 }, {  79,-9270 }, {  80,-9270 }, {  81,-9270 },
+ {  82,-9270 }, {  83,-9270 }, {  84,-9270 }, {  85,-9270 }, {  86,-9270 },
+ {  87,-9270 }, {  88,-9270 }, {  89,-9270 }, {  90,-9270 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9270 }, {   0,   0 },
+ {  97,-9270 }, {  98,-9270 }, {  99,-9270 }, { 100,-9270 }, { 101,2222 },
+ { 102,-9270 }, { 103,-9270 }, { 104,-9270 }, { 105,-9270 }, { 106,-9270 },
+ { 107,-9270 }, { 108,-9270 }, { 109,-9270 }, { 110,-9270 }, { 111,-9270 },
+
+ { 112,-9270 }, { 113,-9270 }, { 114,-9270 }, { 115,-9270 }, { 116,-9270 },
+ { 117,-9270 }, { 118,-9270 }, { 119,-9270 }, { 120,-9270 }, { 121,-9270 },
+ { 122,-9270 }, {   0,   0 }, { 124,-9295 }, { 125,-9295 }, { 126,-9295 },
+ { 127,-9270 }, { 128,-9270 }, { 129,-9270 }, { 130,-9270 }, { 131,-9270 },
+ { 132,-9270 }, { 133,-9270 }, { 134,-9270 }, { 135,-9270 }, { 136,-9270 },
+ { 137,-9270 }, { 138,-9270 }, { 139,-9270 }, { 140,-9270 }, { 141,-9270 },
+ { 142,-9270 }, { 143,-9270 }, { 144,-9270 }, { 145,-9270 }, { 146,-9270 },
+ { 147,-9270 }, { 148,-9270 }, { 149,-9270 }, { 150,-9270 }, { 151,-9270 },
+ { 152,-9270 }, { 153,-9270 }, { 154,-9270 }, { 155,-9270 }, { 156,-9270 },
+ { 157,-9270 }, { 158,-9270 }, { 159,-9270 }, { 160,-9270 }, { 161,-9270 },
+
+ { 162,-9270 }, { 163,-9270 }, { 164,-9270 }, { 165,-9270 }, { 166,-9270 },
+ { 167,-9270 }, { 168,-9270 }, { 169,-9270 }, { 170,-9270 }, { 171,-9270 },
+ { 172,-9270 }, { 173,-9270 }, { 174,-9270 }, { 175,-9270 }, { 176,-9270 },
+ { 177,-9270 }, { 178,-9270 }, { 179,-9270 }, { 180,-9270 }, { 181,-9270 },
+ { 182,-9270 }, { 183,-9270 }, { 184,-9270 }, { 185,-9270 }, { 186,-9270 },
+ { 187,-9270 }, { 188,-9270 }, { 189,-9270 }, { 190,-9270 }, { 191,-9270 },
+ { 192,-9270 }, { 193,-9270 }, { 194,-9270 }, { 195,-9270 }, { 196,-9270 },
+ { 197,-9270 }, { 198,-9270 }, { 199,-9270 }, { 200,-9270 }, { 201,-9270 },
+ { 202,-9270 }, { 203,-9270 }, { 204,-9270 }, { 205,-9270 }, { 206,-9270 },
+ { 207,-9270 }, { 208,-9270 }, { 209,-9270 }, { 210,-9270 }, { 211,-9270 },
+
+ { 212,-9270 }, { 213,-9270 }, { 214,-9270 }, { 215,-9270 }, { 216,-9270 },
+ { 217,-9270 }, { 218,-9270 }, { 219,-9270 }, { 220,-9270 }, { 221,-9270 },
+ { 222,-9270 }, { 223,-9270 }, { 224,-9270 }, { 225,-9270 }, { 226,-9270 },
+ { 227,-9270 }, { 228,-9270 }, { 229,-9270 }, { 230,-9270 }, { 231,-9270 },
+ { 232,-9270 }, { 233,-9270 }, { 234,-9270 }, { 235,-9270 }, { 236,-9270 },
+ { 237,-9270 }, { 238,-9270 }, { 239,-9270 }, { 240,-9270 }, { 241,-9270 },
+ { 242,-9270 }, { 243,-9270 }, { 244,-9270 }, { 245,-9270 }, { 246,-9270 },
+ { 247,-9270 }, { 248,-9270 }, { 249,-9270 }, { 250,-9270 }, { 251,-9270 },
+ { 252,-9270 }, { 253,-9270 }, { 254,-9270 }, { 255,-9270 }, { 256,-9270 },
+ {   0,   0 }, {   0,5457 }, {   1,-9528 }, {   2,-9528 }, {   3,-9528 },
+
+ {   4,-9528 }, {   5,-9528 }, {   6,-9528 }, {   7,-9528 }, {   8,-9528 },
+ {   9,1941 }, {  10,1941 }, {  11,-9528 }, {  12,-9528 }, {  13,1941 },
+ {  14,-9528 }, {  15,-9528 }, {  16,-9528 }, {  17,-9528 }, {  18,-9528 },
+ {  19,-9528 }, {  20,-9528 }, {  21,-9528 }, {  22,-9528 }, {  23,-9528 },
+ {  24,-9528 }, {  25,-9528 }, {  26,-9528 }, {  27,-9528 }, {  28,-9528 },
+ {  29,-9528 }, {  30,-9528 }, {  31,-9528 }, {  32,1941 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-9528 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1941 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-9528 }, {  46,-9553 }, {  47,-9553 }, {  48,-9528 },
+ {  49,-9528 }, {  50,-9528 }, {  51,-9528 }, {  52,-9528 }, {  53,-9528 },
+
+ {  54,-9528 }, {  55,-9528 }, {  56,-9528 }, {  57,-9528 }, {  58,-9528 },
+ {   0,   0 }, {   0,   0 }, {  61,-9553 }, {   0,   0 }, {  63,-9528 },
+ {   0,   0 }, {  65,-9528 }, {  66,-9528 }, {  67,-9528 }, {  68,-9528 },
+ {  69,-9528 }, {  70,-9528 }, {  71,-9528 }, {  72,-9528 }, {  73,-9528 },
+ {  74,-9528 }, {  75,-9528 }, {  76,-9528 }, {  77,-9528 }, {  78,-9528 },
+ {  79,-9528 }, {  80,-9528 }, {  81,-9528 }, {  82,-9528 }, {  83,-9528 },
+ {  84,-9528 }, {  85,-9528 }, {  86,-9528 }, {  87,-9528 }, {  88,-9528 },
+ {  89,-9528 }, {  90,-9528 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-9528 }, {   0,   0 }, {  97,-9528 }, {  98,-9528 },
+ {  99,-9528 }, { 100,-9528 }, { 101,-9528 }, { 102,-9528 }, { 103,-9528 },
+
+ { 104,-9528 }, { 105,-9528 }, { 106,-9528 }, { 107,-9528 }, { 108,-9528 },
+ { 109,-9528 }, { 110,-9528 }, { 111,-9528 }, { 112,-9528 }, { 113,-9528 },
+ { 114,-9528 }, { 115,-9528 }, { 116,-9528 }, { 117,-9528 }, { 118,-9528 },
+ { 119,-9528 }, { 120,-9528 }, { 121,-9528 }, { 122,-9528 }, {   0,   0 },
+ { 124,-9553 }, { 125,1941 }, { 126,1941 }, { 127,-9528 }, { 128,-9528 },
+ { 129,-9528 }, { 130,-9528 }, { 131,-9528 }, { 132,-9528 }, { 133,-9528 },
+ { 134,-9528 }, { 135,-9528 }, { 136,-9528 }, { 137,-9528 }, { 138,-9528 },
+ { 139,-9528 }, { 140,-9528 }, { 141,-9528 }, { 142,-9528 }, { 143,-9528 },
+ { 144,-9528 }, { 145,-9528 }, { 146,-9528 }, { 147,-9528 }, { 148,-9528 },
+ { 149,-9528 }, { 150,-9528 }, { 151,-9528 }, { 152,-9528 }, { 153,-9528 },
+
+ { 154,-9528 }, { 155,-9528 }, { 156,-9528 }, { 157,-9528 }, { 158,-9528 },
+ { 159,-9528 }, { 160,-9528 }, { 161,-9528 }, { 162,-9528 }, { 163,-9528 },
+ { 164,-9528 }, { 165,-9528 }, { 166,-9528 }, { 167,-9528 }, { 168,-9528 },
+ { 169,-9528 }, { 170,-9528 }, { 171,-9528 }, { 172,-9528 }, { 173,-9528 },
+ { 174,-9528 }, { 175,-9528 }, { 176,-9528 }, { 177,-9528 }, { 178,-9528 },
+ { 179,-9528 }, { 180,-9528 }, { 181,-9528 }, { 182,-9528 }, { 183,-9528 },
+ { 184,-9528 }, { 185,-9528 }, { 186,-9528 }, { 187,-9528 }, { 188,-9528 },
+ { 189,-9528 }, { 190,-9528 }, { 191,-9528 }, { 192,-9528 }, { 193,-9528 },
+ { 194,-9528 }, { 195,-9528 }, { 196,-9528 }, { 197,-9528 }, { 198,-9528 },
+ { 199,-9528 }, { 200,-9528 }, { 201,-9528 }, { 202,-9528 }, { 203,-9528 },
+
+ { 204,-9528 }, { 205,-9528 }, { 206,-9528 }, { 207,-9528 }, { 208,-9528 },
+ { 209,-9528 }, { 210,-9528 }, { 211,-9528 }, { 212,-9528 }, { 213,-9528 },
+ { 214,-9528 }, { 215,-9528 }, { 216,-9528 }, { 217,-9528 }, { 218,-9528 },
+ { 219,-9528 }, { 220,-9528 }, { 221,-9528 }, { 222,-9528 }, { 223,-9528 },
+ { 224,-9528 }, { 225,-9528 }, { 226,-9528 }, { 227,-9528 }, { 228,-9528 },
+ { 229,-9528 }, { 230,-9528 }, { 231,-9528 }, { 232,-9528 }, { 233,-9528 },
+ { 234,-9528 }, { 235,-9528 }, { 236,-9528 }, { 237,-9528 }, { 238,-9528 },
+ { 239,-9528 }, { 240,-9528 }, { 241,-9528 }, { 242,-9528 }, { 243,-9528 },
+ { 244,-9528 }, { 245,-9528 }, { 246,-9528 }, { 247,-9528 }, { 248,-9528 },
+ { 249,-9528 }, { 250,-9528 }, { 251,-9528 }, { 252,-9528 }, { 253,-9528 },
+
+ { 254,-9528 }, { 255,-9528 }, { 256,-9528 }, {   0,   0 }, {   0,5199 },
+ {   1,-9786 }, {   2,-9786 }, {   3,-9786 }, {   4,-9786 }, {   5,-9786 },
+ {   6,-9786 }, {   7,-9786 }, {   8,-9786 }, {   9,1685 }, {  10,1685 },
+ {  11,-9786 }, {  12,-9786 }, {  13,1685 }, {  14,-9786 }, {  15,-9786 },
+ {  16,-9786 }, {  17,-9786 }, {  18,-9786 }, {  19,-9786 }, {  20,-9786 },
+ {  21,-9786 }, {  22,-9786 }, {  23,-9786 }, {  24,-9786 }, {  25,-9786 },
+ {  26,-9786 }, {  27,-9786 }, {  28,-9786 }, {  29,-9786 }, {  30,-9786 },
+ {  31,-9786 }, {  32,1685 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-9786 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,1685 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9786 },
+
+ {  46,-9811 }, {  47,-9811 }, {  48,-9786 }, {  49,-9786 }, {  50,-9786 },
+ {  51,-9786 }, {  52,-9786 }, {  53,-9786 }, {  54,-9786 }, {  55,-9786 },
+ {  56,-9786 }, {  57,-9786 }, {  58,-9786 }, {   0,   0 }, {   0,   0 },
+ {  61,-9811 }, {   0,   0 }, {  63,-9786 }, {   0,   0 }, {  65,-9786 },
+ {  66,-9786 }, {  67,-9786 }, {  68,-9786 }, {  69,-9786 }, {  70,-9786 },
+ {  71,-9786 }, {  72,-9786 }, {  73,-9786 }, {  74,-9786 }, {  75,-9786 },
+ {  76,-9786 }, {  77,-9786 }, {  78,-9786 }, {  79,-9786 }, {  80,-9786 },
+ {  81,-9786 }, {  82,-9786 }, {  83,-9786 }, {  84,-9786 }, {  85,-9786 },
+ {  86,-9786 }, {  87,-9786 }, {  88,-9786 }, {  89,-9786 }, {  90,-9786 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9786 },
+
+ {   0,   0 }, {  97,-9786 }, {  98,-9786 }, {  99,-9786 }, { 100,-9786 },
+ { 101,-9786 }, { 102,-9786 }, { 103,-9786 }, { 104,-9786 }, { 105,-9786 },
+ { 106,-9786 }, { 107,-9786 }, { 108,-9786 }, { 109,-9786 }, { 110,-9786 },
+ { 111,-9786 }, { 112,-9786 }, { 113,-9786 }, { 114,-9786 }, { 115,-9786 },
+ { 116,-9786 }, { 117,-9786 }, { 118,-9786 }, { 119,-9786 }, { 120,-9786 },
+ { 121,-9786 }, { 122,-9786 }, {   0,   0 }, { 124,-9811 }, { 125,1685 },
+ { 126,1685 }, { 127,-9786 }, { 128,-9786 }, { 129,-9786 }, { 130,-9786 },
+ { 131,-9786 }, { 132,-9786 }, { 133,-9786 }, { 134,-9786 }, { 135,-9786 },
+ { 136,-9786 }, { 137,-9786 }, { 138,-9786 }, { 139,-9786 }, { 140,-9786 },
+ { 141,-9786 }, { 142,-9786 }, { 143,-9786 }, { 144,-9786 }, { 145,-9786 },
+
+ { 146,-9786 }, { 147,-9786 }, { 148,-9786 }, { 149,-9786 }, { 150,-9786 },
+ { 151,-9786 }, { 152,-9786 }, { 153,-9786 }, { 154,-9786 }, { 155,-9786 },
+ { 156,-9786 }, { 157,-9786 }, { 158,-9786 }, { 159,-9786 }, { 160,-9786 },
+ { 161,-9786 }, { 162,-9786 }, { 163,-9786 }, { 164,-9786 }, { 165,-9786 },
+ { 166,-9786 }, { 167,-9786 }, { 168,-9786 }, { 169,-9786 }, { 170,-9786 },
+ { 171,-9786 }, { 172,-9786 }, { 173,-9786 }, { 174,-9786 }, { 175,-9786 },
+ { 176,-9786 }, { 177,-9786 }, { 178,-9786 }, { 179,-9786 }, { 180,-9786 },
+ { 181,-9786 }, { 182,-9786 }, { 183,-9786 }, { 184,-9786 }, { 185,-9786 },
+ { 186,-9786 }, { 187,-9786 }, { 188,-9786 }, { 189,-9786 }, { 190,-9786 },
+ { 191,-9786 }, { 192,-9786 }, { 193,-9786 }, { 194,-9786 }, { 195,-9786 },
+
+ { 196,-9786 }, { 197,-9786 }, { 198,-9786 }, { 199,-9786 }, { 200,-9786 },
+ { 201,-9786 }, { 202,-9786 }, { 203,-9786 }, { 204,-9786 }, { 205,-9786 },
+ { 206,-9786 }, { 207,-9786 }, { 208,-9786 }, { 209,-9786 }, { 210,-9786 },
+ { 211,-9786 }, { 212,-9786 }, { 213,-9786 }, { 214,-9786 }, { 215,-9786 },
+ { 216,-9786 }, { 217,-9786 }, { 218,-9786 }, { 219,-9786 }, { 220,-9786 },
+ { 221,-9786 }, { 222,-9786 }, { 223,-9786 }, { 224,-9786 }, { 225,-9786 },
+ { 226,-9786 }, { 227,-9786 }, { 228,-9786 }, { 229,-9786 }, { 230,-9786 },
+ { 231,-9786 }, { 232,-9786 }, { 233,-9786 }, { 234,-9786 }, { 235,-9786 },
+ { 236,-9786 }, { 237,-9786 }, { 238,-9786 }, { 239,-9786 }, { 240,-9786 },
+ { 241,-9786 }, { 242,-9786 }, { 243,-9786 }, { 244,-9786 }, { 245,-9786 },
+
+ { 246,-9786 }, { 247,-9786 }, { 248,-9786 }, { 249,-9786 }, { 250,-9786 },
+ { 251,-9786 }, { 252,-9786 }, { 253,-9786 }, { 254,-9786 }, { 255,-9786 },
+ { 256,-9786 }, {   0,   0 }, {   0,4941 }, {   1,-10044 }, {   2,-10044 },
+ {   3,-10044 }, {   4,-10044 }, {   5,-10044 }, {   6,-10044 }, {   7,-10044 },
+ {   8,-10044 }, {   9,-10069 }, {  10,-10069 }, {  11,-10044 }, {  12,-10044 },
+ {  13,-10069 }, {  14,-10044 }, {  15,-10044 }, {  16,-10044 }, {  17,-10044 },
+ {  18,-10044 }, {  19,-10044 }, {  20,-10044 }, {  21,-10044 }, {  22,-10044 },
+ {  23,-10044 }, {  24,-10044 }, {  25,-10044 }, {  26,-10044 }, {  27,-10044 },
+ {  28,-10044 }, {  29,-10044 }, {  30,-10044 }, {  31,-10044 }, {  32,-10069 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-10044 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-10069 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-10044 }, {  46,-10069 }, {  47,-10069 },
+ {  48,-10044 }, {  49,-10044 }, {  50,-10044 }, {  51,-10044 }, {  52,-10044 },
+ {  53,-10044 }, {  54,-10044 }, {  55,-10044 }, {  56,-10044 }, {  57,-10044 },
+ {  58,-10044 }, {   0,   0 }, {   0,   0 }, {  61,-10069 }, {   0,   0 },
+ {  63,-10044 }, {   0,   0 }, {  65,-10044 }, {  66,-10044 }, {  67,-10044 },
+ {  68,-10044 }, {  69,-10044 }, {  70,-10044 }, {  71,-10044 }, {  72,-10044 },
+ {  73,-10044 }, {  74,-10044 }, {  75,-10044 }, {  76,-10044 }, {  77,-10044 },
+ {  78,-10044 }, {  79,-10044 }, {  80,-10044 }, {  81,-10044 }, {  82,-10044 },
+ {  83,-10044 }, {  84,-10044 }, {  85,-10044 }, {  86,-10044 }, {  87,-10044 },
+
+ {  88,-10044 }, {  89,-10044 }, {  90,-10044 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-10044 }, {   0,   0 }, {  97,-10044 },
+ {  98,-10044 }, {  99,-10044 }, { 100,-10044 }, { 101,-10044 }, { 102,1706 },
+ { 103,-10044 }, { 104,-10044 }, { 105,-10044 }, { 106,-10044 }, { 107,-10044 },
+ { 108,-10044 }, { 109,-10044 }, { 110,-10044 }, { 111,-10044 }, { 112,-10044 },
+ { 113,-10044 }, { 114,-10044 }, { 115,-10044 }, { 116,-10044 }, { 117,-10044 },
+ { 118,-10044 }, { 119,-10044 }, { 120,-10044 }, { 121,-10044 }, { 122,-10044 },
+ {   0,   0 }, { 124,-10069 }, { 125,-10069 }, { 126,-10069 }, { 127,-10044 },
+ { 128,-10044 }, { 129,-10044 }, { 130,-10044 }, { 131,-10044 }, { 132,-10044 },
+ { 133,-10044 }, { 134,-10044 }, { 135,-10044 }, { 136,-10044 }, { 137,-10044 },
+
+ { 138,-10044 }, { 139,-10044 }, { 140,-10044 }, { 141,-10044 }, { 142,-10044 },
+ { 143,-10044 }, { 144,-10044 }, { 145,-10044 }, { 146,-10044 }, { 147,-10044 },
+ { 148,-10044 }, { 149,-10044 }, { 150,-10044 }, { 151,-10044 }, { 152,-10044 },
+ { 153,-10044 }, { 154,-10044 }, { 155,-10044 }, { 156,-10044 }, { 157,-10044 },
+ { 158,-10044 }, { 159,-10044 }, { 160,-10044 }, { 161,-10044 }, { 162,-10044 },
+ { 163,-10044 }, { 164,-10044 }, { 165,-10044 }, { 166,-10044 }, { 167,-10044 },
+ { 168,-10044 }, { 169,-10044 }, { 170,-10044 }, { 171,-10044 }, { 172,-10044 },
+ { 173,-10044 }, { 174,-10044 }, { 175,-10044 }, { 176,-10044 }, { 177,-10044 },
+ { 178,-10044 }, { 179,-10044 }, { 180,-10044 }, { 181,-10044 }, { 182,-10044 },
+ { 183,-10044 }, { 184,-10044 }, { 185,-10044 }, { 186,-10044 }, { 187,-10044 },
+
+ { 188,-10044 }, { 189,-10044 }, { 190,-10044 }, { 191,-10044 }, { 192,-10044 },
+ { 193,-10044 }, { 194,-10044 }, { 195,-10044 }, { 196,-10044 }, { 197,-10044 },
+ { 198,-10044 }, { 199,-10044 }, { 200,-10044 }, { 201,-10044 }, { 202,-10044 },
+ { 203,-10044 }, { 204,-10044 }, { 205,-10044 }, { 206,-10044 }, { 207,-10044 },
+ { 208,-10044 }, { 209,-10044 }, { 210,-10044 }, { 211,-10044 }, { 212,-10044 },
+ { 213,-10044 }, { 214,-10044 }, { 215,-10044 }, { 216,-10044 }, { 217,-10044 },
+ { 218,-10044 }, { 219,-10044 }, { 220,-10044 }, { 221,-10044 }, { 222,-10044 },
+ { 223,-10044 }, { 224,-10044 }, { 225,-10044 }, { 226,-10044 }, { 227,-10044 },
+ { 228,-10044 }, { 229,-10044 }, { 230,-10044 }, { 231,-10044 }, { 232,-10044 },
+ { 233,-10044 }, { 234,-10044 }, { 235,-10044 }, { 236,-10044 }, { 237,-10044 },
+
+ { 238,-10044 }, { 239,-10044 }, { 240,-10044 }, { 241,-10044 }, { 242,-10044 },
+ { 243,-10044 }, { 244,-10044 }, { 245,-10044 }, { 246,-10044 }, { 247,-10044 },
+ { 248,-10044 }, { 249,-10044 }, { 250,-10044 }, { 251,-10044 }, { 252,-10044 },
+ { 253,-10044 }, { 254,-10044 }, { 255,-10044 }, { 256,-10044 }, {   0,   0 },
+ {   0,4683 }, {   0,   0 }, {   0,4681 }, {   0,   0 }, {   0,4679 },
+ {   0,   0 }, {   0,4677 }, {   0,   0 }, {   0,4675 }, {   0,  17 },
+ {   0,4673 }, {   0,  27 }, {   0,4671 }, {   0,  18 }, {   0,4669 },
+ {   0,  37 }, {   0,4667 }, {   0,  12 }, {   0,4665 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -5062,44 +4732,531 @@ static const struct yy_trans_info yy_transition[23409] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,1151 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 115,  16 }, {   0,   0 }, { 101,2301 },
- {   0,   0 }, { 101,2307 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 115,   0 }, { 108,1706 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 115,1706 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 125,   2 }, { 126,   4 }, { 125,1708 }, {   0,   0 }, { 125,  -2 },
+
+ {   0,   0 }, {   0,4552 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+ {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
+ {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+ {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+ {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+ {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+ {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+ {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+ {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
+ { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4294 },
+ {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
+ {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
+ {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
+ {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
+ {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
+ {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
+ {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+ {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
+
+ {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-2840 },
+ {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
+ {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
+ {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
+ {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
+ {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
+ {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
+ {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
+ {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+ {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
+
+ {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
+ {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
+ { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
+ { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
+ { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
+ { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
+ { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
+ { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
+ { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+ { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
+
+ { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
+ { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
+ { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
+ { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
+ { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
+ { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
+ { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
+ { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
+ { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+ { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
+
+ { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
+ { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
+ { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
+ { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
+ { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
+ { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
+ { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
+ { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
+ { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+ { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
 
- { 115,  10 }, {   0,   0 }, {   0,2852 }, {   1,1160 }, {   2,1160 },
+ { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
+ { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
+ { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
+ { 256,-258 }, {   0,   0 }, {   0,4036 }, {   1,1184 }, {   2,1184 },
+ {   3,1184 }, {   4,1184 }, {   5,1184 }, {   6,1184 }, {   7,1184 },
+ {   8,1184 }, {   9,1184 }, {  10,1184 }, {  11,1184 }, {  12,1184 },
+ {  13,1184 }, {  14,1184 }, {  15,1184 }, {  16,1184 }, {  17,1184 },
+ {  18,1184 }, {  19,1184 }, {  20,1184 }, {  21,1184 }, {  22,1184 },
+ {  23,1184 }, {  24,1184 }, {  25,1184 }, {  26,1184 }, {  27,1184 },
+ {  28,1184 }, {  29,1184 }, {  30,1184 }, {  31,1184 }, {  32,1184 },
+
+ {  33,1184 }, {  34,1184 }, {  35,1184 }, {  36,1184 }, {  37,1184 },
+ {  38,1184 }, {  39,1184 }, {  40,1184 }, {  41,1184 }, {  42,1184 },
+ {  43,1184 }, {  44,1184 }, {  45,1442 }, {  46,1184 }, {  47,1184 },
+ {  48,1184 }, {  49,1184 }, {  50,1184 }, {  51,1184 }, {  52,1184 },
+ {  53,1184 }, {  54,1184 }, {  55,1184 }, {  56,1184 }, {  57,1184 },
+ {  58,1184 }, {  59,1184 }, {  60,1184 }, {  61,1184 }, {  62,1184 },
+ {  63,1184 }, {  64,1184 }, {  65,1184 }, {  66,1184 }, {  67,1184 },
+ {  68,1184 }, {  69,1184 }, {  70,1184 }, {  71,1184 }, {  72,1184 },
+ {  73,1184 }, {  74,1184 }, {  75,1184 }, {  76,1184 }, {  77,1184 },
+ {  78,1184 }, {  79,1184 }, {  80,1184 }, {  81,1184 }, {  82,1184 },
+
+ {  83,1184 }, {  84,1184 }, {  85,1184 }, {  86,1184 }, {  87,1184 },
+ {  88,1184 }, {  89,1184 }, {  90,1184 }, {  91,1184 }, {  92,1184 },
+ {  93,1184 }, {  94,1184 }, {  95,1184 }, {  96,1184 }, {  97,1184 },
+ {  98,1184 }, {  99,1184 }, { 100,1184 }, { 101,1184 }, { 102,1184 },
+ { 103,1184 }, { 104,1184 }, { 105,1184 }, { 106,1184 }, { 107,1184 },
+ { 108,1184 }, { 109,1184 }, { 110,1184 }, { 111,1184 }, { 112,1184 },
+ { 113,1184 }, { 114,1184 }, { 115,1184 }, { 116,1184 }, { 117,1184 },
+ { 118,1184 }, { 119,1184 }, { 120,1184 }, { 121,1184 }, { 122,1184 },
+ { 123,1184 }, { 124,1184 }, { 125,1184 }, { 126,1184 }, { 127,1184 },
+ { 128,1184 }, { 129,1184 }, { 130,1184 }, { 131,1184 }, { 132,1184 },
+
+ { 133,1184 }, { 134,1184 }, { 135,1184 }, { 136,1184 }, { 137,1184 },
+ { 138,1184 }, { 139,1184 }, { 140,1184 }, { 141,1184 }, { 142,1184 },
+ { 143,1184 }, { 144,1184 }, { 145,1184 }, { 146,1184 }, { 147,1184 },
+ { 148,1184 }, { 149,1184 }, { 150,1184 }, { 151,1184 }, { 152,1184 },
+ { 153,1184 }, { 154,1184 }, { 155,1184 }, { 156,1184 }, { 157,1184 },
+ { 158,1184 }, { 159,1184 }, { 160,1184 }, { 161,1184 }, { 162,1184 },
+ { 163,1184 }, { 164,1184 }, { 165,1184 }, { 166,1184 }, { 167,1184 },
+ { 168,1184 }, { 169,1184 }, { 170,1184 }, { 171,1184 }, { 172,1184 },
+ { 173,1184 }, { 174,1184 }, { 175,1184 }, { 176,1184 }, { 177,1184 },
+ { 178,1184 }, { 179,1184 }, { 180,1184 }, { 181,1184 }, { 182,1184 },
+
+ { 183,1184 }, { 184,1184 }, { 185,1184 }, { 186,1184 }, { 187,1184 },
+ { 188,1184 }, { 189,1184 }, { 190,1184 }, { 191,1184 }, { 192,1184 },
+ { 193,1184 }, { 194,1184 }, { 195,1184 }, { 196,1184 }, { 197,1184 },
+ { 198,1184 }, { 199,1184 }, { 200,1184 }, { 201,1184 }, { 202,1184 },
+ { 203,1184 }, { 204,1184 }, { 205,1184 }, { 206,1184 }, { 207,1184 },
+ { 208,1184 }, { 209,1184 }, { 210,1184 }, { 211,1184 }, { 212,1184 },
+ { 213,1184 }, { 214,1184 }, { 215,1184 }, { 216,1184 }, { 217,1184 },
+ { 218,1184 }, { 219,1184 }, { 220,1184 }, { 221,1184 }, { 222,1184 },
+ { 223,1184 }, { 224,1184 }, { 225,1184 }, { 226,1184 }, { 227,1184 },
+ { 228,1184 }, { 229,1184 }, { 230,1184 }, { 231,1184 }, { 232,1184 },
+
+ { 233,1184 }, { 234,1184 }, { 235,1184 }, { 236,1184 }, { 237,1184 },
+ { 238,1184 }, { 239,1184 }, { 240,1184 }, { 241,1184 }, { 242,1184 },
+ { 243,1184 }, { 244,1184 }, { 245,1184 }, { 246,1184 }, { 247,1184 },
+ { 248,1184 }, { 249,1184 }, { 250,1184 }, { 251,1184 }, { 252,1184 },
+ { 253,1184 }, { 254,1184 }, { 255,1184 }, { 256,1184 }, {   0,   0 },
+ {   0,3778 }, {   1, 811 }, {   2, 811 }, {   3, 811 }, {   4, 811 },
+ {   5, 811 }, {   6, 811 }, {   7, 811 }, {   8, 811 }, {   9, 811 },
+ {  10, 811 }, {  11, 811 }, {  12, 811 }, {  13, 811 }, {  14, 811 },
+ {  15, 811 }, {  16, 811 }, {  17, 811 }, {  18, 811 }, {  19, 811 },
+ {  20, 811 }, {  21, 811 }, {  22, 811 }, {  23, 811 }, {  24, 811 },
+
+ {  25, 811 }, {  26, 811 }, {  27, 811 }, {  28, 811 }, {  29, 811 },
+ {  30, 811 }, {  31, 811 }, {  32, 811 }, {  33, 811 }, {  34, 811 },
+ {  35, 811 }, {  36, 811 }, {  37, 811 }, {  38, 811 }, {  39, 811 },
+ {  40, 811 }, {  41, 811 }, {  42, 811 }, {  43, 811 }, {  44, 811 },
+ {  45, 811 }, {  46, 811 }, {  47,1442 }, {  48, 811 }, {  49, 811 },
+ {  50, 811 }, {  51, 811 }, {  52, 811 }, {  53, 811 }, {  54, 811 },
+ {  55, 811 }, {  56, 811 }, {  57, 811 }, {  58, 811 }, {  59, 811 },
+ {  60, 811 }, {  61, 811 }, {  62, 811 }, {  63, 811 }, {  64, 811 },
+ {  65, 811 }, {  66, 811 }, {  67, 811 }, {  68, 811 }, {  69, 811 },
+ {  70, 811 }, {  71, 811 }, {  72, 811 }, {  73, 811 }, {  74, 811 },
+
+ {  75, 811 }, {  76, 811 }, {  77, 811 }, {  78, 811 }, {  79, 811 },
+ {  80, 811 }, {  81, 811 }, {  82, 811 }, {  83, 811 }, {  84, 811 },
+ {  85, 811 }, {  86, 811 }, {  87, 811 }, {  88, 811 }, {  89, 811 },
+ {  90, 811 }, {  91, 811 }, {  92, 811 }, {  93, 811 }, {  94, 811 },
+ {  95, 811 }, {  96, 811 }, {  97, 811 }, {  98, 811 }, {  99, 811 },
+ { 100, 811 }, { 101, 811 }, { 102, 811 }, { 103, 811 }, { 104, 811 },
+ { 105, 811 }, { 106, 811 }, { 107, 811 }, { 108, 811 }, { 109, 811 },
+ { 110, 811 }, { 111, 811 }, { 112, 811 }, { 113, 811 }, { 114, 811 },
+ { 115, 811 }, { 116, 811 }, { 117, 811 }, { 118, 811 }, { 119, 811 },
+ { 120, 811 }, { 121, 811 }, { 122, 811 }, { 123, 811 }, { 124, 811 },
+
+ { 125, 811 }, { 126, 811 }, { 127, 811 }, { 128, 811 }, { 129, 811 },
+ { 130, 811 }, { 131, 811 }, { 132, 811 }, { 133, 811 }, { 134, 811 },
+ { 135, 811 }, { 136, 811 }, { 137, 811 }, { 138, 811 }, { 139, 811 },
+ { 140, 811 }, { 141, 811 }, { 142, 811 }, { 143, 811 }, { 144, 811 },
+ { 145, 811 }, { 146, 811 }, { 147, 811 }, { 148, 811 }, { 149, 811 },
+ { 150, 811 }, { 151, 811 }, { 152, 811 }, { 153, 811 }, { 154, 811 },
+ { 155, 811 }, { 156, 811 }, { 157, 811 }, { 158, 811 }, { 159, 811 },
+ { 160, 811 }, { 161, 811 }, { 162, 811 }, { 163, 811 }, { 164, 811 },
+ { 165, 811 }, { 166, 811 }, { 167, 811 }, { 168, 811 }, { 169, 811 },
+ { 170, 811 }, { 171, 811 }, { 172, 811 }, { 173, 811 }, { 174, 811 },
+
+ { 175, 811 }, { 176, 811 }, { 177, 811 }, { 178, 811 }, { 179, 811 },
+ { 180, 811 }, { 181, 811 }, { 182, 811 }, { 183, 811 }, { 184, 811 },
+ { 185, 811 }, { 186, 811 }, { 187, 811 }, { 188, 811 }, { 189, 811 },
+ { 190, 811 }, { 191, 811 }, { 192, 811 }, { 193, 811 }, { 194, 811 },
+ { 195, 811 }, { 196, 811 }, { 197, 811 }, { 198, 811 }, { 199, 811 },
+ { 200, 811 }, { 201, 811 }, { 202, 811 }, { 203, 811 }, { 204, 811 },
+ { 205, 811 }, { 206, 811 }, { 207, 811 }, { 208, 811 }, { 209, 811 },
+ { 210, 811 }, { 211, 811 }, { 212, 811 }, { 213, 811 }, { 214, 811 },
+ { 215, 811 }, { 216, 811 }, { 217, 811 }, { 218, 811 }, { 219, 811 },
+ { 220, 811 }, { 221, 811 }, { 222, 811 }, { 223, 811 }, { 224, 811 },
+
+ { 225, 811 }, { 226, 811 }, { 227, 811 }, { 228, 811 }, { 229, 811 },
+ { 230, 811 }, { 231, 811 }, { 232, 811 }, { 233, 811 }, { 234, 811 },
+ { 235, 811 }, { 236, 811 }, { 237, 811 }, { 238, 811 }, { 239, 811 },
+ { 240, 811 }, { 241, 811 }, { 242, 811 }, { 243, 811 }, { 244, 811 },
+ { 245, 811 }, { 246, 811 }, { 247, 811 }, { 248, 811 }, { 249, 811 },
+ { 250, 811 }, { 251, 811 }, { 252, 811 }, { 253, 811 }, { 254, 811 },
+ { 255, 811 }, { 256, 811 }, {   0,   1 }, {   0,3520 }, {   0,   1 },
+ {   0,3518 }, {   0,  47 }, {   0,3516 }, {   0,  44 }, {   0,3514 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,3493 }, {   1,-11492 }, {   2,-11492 }, {   3,-11492 }, {   4,-11492 },
+ {   5,-11492 }, {   6,-11492 }, {   7,-11492 }, {   8,-11492 }, {   9, 530 },
+ {  10, 530 }, {  11,-11492 }, {  12,-11492 }, {  13, 530 }, {  14,-11492 },
+ {  15,-11492 }, {  16,-11492 }, {  17,-11492 }, {  18,-11492 }, {  19,-11492 },
+ {  20,-11492 }, {  21,-11492 }, {  22,-11492 }, {  23,-11492 }, {  24,-11492 },
+ {  25,-11492 }, {  26,-11492 }, {  27,-11492 }, {  28,-11492 }, {  29,-11492 },
+ {  30,-11492 }, {  31,-11492 }, {  32, 530 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-11492 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  41, 530 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-11492 }, {  46,-11517 }, {  47,-11517 }, {  48,-11492 }, {  49,-11492 },
+ {  50,-11492 }, {  51,-11492 }, {  52,-11492 }, {  53,-11492 }, {  54,-11492 },
+ {  55,-11492 }, {  56,-11492 }, {  57,-11492 }, {  58,-11492 }, {   0,   0 },
+ {   0,   0 }, {  61,-11517 }, {   0,   0 }, {  63,-11492 }, {   0,   0 },
+ {  65,-11492 }, {  66,-11492 }, {  67,-11492 }, {  68,-11492 }, {  69,-11492 },
+ {  70,-11492 }, {  71,-11492 }, {  72,-11492 }, {  73,-11492 }, {  74,-11492 },
+ {  75,-11492 }, {  76,-11492 }, {  77,-11492 }, {  78,-11492 }, {  79,-11492 },
+ {  80,-11492 }, {  81,-11492 }, {  82,-11492 }, {  83,-11492 }, {  84,-11492 },
+ {  85,-11492 }, {  86,-11492 }, {  87,-11492 }, {  88,-11492 }, {  89,-11492 },
+
+ {  90,-11492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-11492 }, { 123, 555 }, {  97,-11492 }, {  98,-11492 }, {  99,-11492 },
+ { 100,-11492 }, { 101,-11492 }, { 102,-11492 }, { 103,-11492 }, { 104,-11492 },
+ { 105,-11492 }, { 106,-11492 }, { 107,-11492 }, { 108,-11492 }, { 109,-11492 },
+ { 110,-11492 }, { 111,-11492 }, { 112,-11492 }, { 113,-11492 }, { 114,-11492 },
+ { 115,-11492 }, { 116,-11492 }, { 117,-11492 }, { 118,-11492 }, { 119,-11492 },
+ { 120,-11492 }, { 121,-11492 }, { 122,-11492 }, {   0,   0 }, { 124,-11517 },
+ { 125, 530 }, { 126, 530 }, { 127,-11492 }, { 128,-11492 }, { 129,-11492 },
+ { 130,-11492 }, { 131,-11492 }, { 132,-11492 }, { 133,-11492 }, { 134,-11492 },
+ { 135,-11492 }, { 136,-11492 }, { 137,-11492 }, { 138,-11492 }, { 139,-11492 },
+
+ { 140,-11492 }, { 141,-11492 }, { 142,-11492 }, { 143,-11492 }, { 144,-11492 },
+ { 145,-11492 }, { 146,-11492 }, { 147,-11492 }, { 148,-11492 }, { 149,-11492 },
+ { 150,-11492 }, { 151,-11492 }, { 152,-11492 }, { 153,-11492 }, { 154,-11492 },
+ { 155,-11492 }, { 156,-11492 }, { 157,-11492 }, { 158,-11492 }, { 159,-11492 },
+ { 160,-11492 }, { 161,-11492 }, { 162,-11492 }, { 163,-11492 }, { 164,-11492 },
+ { 165,-11492 }, { 166,-11492 }, { 167,-11492 }, { 168,-11492 }, { 169,-11492 },
+ { 170,-11492 }, { 171,-11492 }, { 172,-11492 }, { 173,-11492 }, { 174,-11492 },
+ { 175,-11492 }, { 176,-11492 }, { 177,-11492 }, { 178,-11492 }, { 179,-11492 },
+ { 180,-11492 }, { 181,-11492 }, { 182,-11492 }, { 183,-11492 }, { 184,-11492 },
+ { 185,-11492 }, { 186,-11492 }, { 187,-11492 }, { 188,-11492 }, { 189,-11492 },
+
+ { 190,-11492 }, { 191,-11492 }, { 192,-11492 }, { 193,-11492 }, { 194,-11492 },
+ { 195,-11492 }, { 196,-11492 }, { 197,-11492 }, { 198,-11492 }, { 199,-11492 },
+ { 200,-11492 }, { 201,-11492 }, { 202,-11492 }, { 203,-11492 }, { 204,-11492 },
+ { 205,-11492 }, { 206,-11492 }, { 207,-11492 }, { 208,-11492 }, { 209,-11492 },
+ { 210,-11492 }, { 211,-11492 }, { 212,-11492 }, { 213,-11492 }, { 214,-11492 },
+ { 215,-11492 }, { 216,-11492 }, { 217,-11492 }, { 218,-11492 }, { 219,-11492 },
+ { 220,-11492 }, { 221,-11492 }, { 222,-11492 }, { 223,-11492 }, { 224,-11492 },
+ { 225,-11492 }, { 226,-11492 }, { 227,-11492 }, { 228,-11492 }, { 229,-11492 },
+ { 230,-11492 }, { 231,-11492 }, { 232,-11492 }, { 233,-11492 }, { 234,-11492 },
+ { 235,-11492 }, { 236,-11492 }, { 237,-11492 }, { 238,-11492 }, { 239,-11492 },
+
+ { 240,-11492 }, { 241,-11492 }, { 242,-11492 }, { 243,-11492 }, { 244,-11492 },
+ { 245,-11492 }, { 246,-11492 }, { 247,-11492 }, { 248,-11492 }, { 249,-11492 },
+ { 250,-11492 }, { 251,-11492 }, { 252,-11492 }, { 253,-11492 }, { 254,-11492 },
+ { 255,-11492 }, { 256,-11492 }, {   0,   0 }, {   0,3235 }, {   1,-11750 },
+ {   2,-11750 }, {   3,-11750 }, {   4,-11750 }, {   5,-11750 }, {   6,-11750 },
+ {   7,-11750 }, {   8,-11750 }, {   9,-11775 }, {  10,-11775 }, {  11,-11750 },
+ {  12,-11750 }, {  13,-11775 }, {  14,-11750 }, {  15,-11750 }, {  16,-11750 },
+ {  17,-11750 }, {  18,-11750 }, {  19,-11750 }, {  20,-11750 }, {  21,-11750 },
+ {  22,-11750 }, {  23,-11750 }, {  24,-11750 }, {  25,-11750 }, {  26,-11750 },
+ {  27,-11750 }, {  28,-11750 }, {  29,-11750 }, {  30,-11750 }, {  31,-11750 },
+
+ {  32,-11775 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11750 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11775 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11750 }, {  46,-11775 },
+ {  47,-11775 }, {  48,-11750 }, {  49,-11750 }, {  50,-11750 }, {  51,-11750 },
+ {  52,-11750 }, {  53,-11750 }, {  54,-11750 }, {  55,-11750 }, {  56,-11750 },
+ {  57,-11750 }, {  58,-11750 }, {   0,   0 }, {   0,   0 }, {  61,-11775 },
+ {   0,   0 }, {  63,-11750 }, {   0,   0 }, {  65,-11750 }, {  66,-11750 },
+ {  67,-11750 }, {  68,-11750 }, {  69,-11750 }, {  70,-11750 }, {  71,-11750 },
+ {  72,-11750 }, {  73,-11750 }, {  74,-11750 }, {  75,-11750 }, {  76,-11750 },
+ {  77,-11750 }, {  78,-11750 }, {  79,-11750 }, {  80,-11750 }, {  81,-11750 },
+
+ {  82,-11750 }, {  83,-11750 }, {  84,-11750 }, {  85,-11750 }, {  86,-11750 },
+ {  87,-11750 }, {  88,-11750 }, {  89,-11750 }, {  90,-11750 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11750 }, {   0,   0 },
+ {  97,-11750 }, {  98,-11750 }, {  99,-11750 }, { 100,-11750 }, { 101,-11750 },
+ { 102,-11750 }, { 103,-11750 }, { 104,-11750 }, { 105,1157 }, { 106,-11750 },
+ { 107,-11750 }, { 108,-11750 }, { 109,-11750 }, { 110,-11750 }, { 111,-11750 },
+ { 112,-11750 }, { 113,-11750 }, { 114,-11750 }, { 115,-11750 }, { 116,-11750 },
+ { 117,-11750 }, { 118,-11750 }, { 119,-11750 }, { 120,-11750 }, { 121,-11750 },
+ { 122,-11750 }, {   0,   0 }, { 124,-11775 }, { 125,-11775 }, { 126,-11775 },
+ { 127,-11750 }, { 128,-11750 }, { 129,-11750 }, { 130,-11750 }, { 131,-11750 },
+
+ { 132,-11750 }, { 133,-11750 }, { 134,-11750 }, { 135,-11750 }, { 136,-11750 },
+ { 137,-11750 }, { 138,-11750 }, { 139,-11750 }, { 140,-11750 }, { 141,-11750 },
+ { 142,-11750 }, { 143,-11750 }, { 144,-11750 }, { 145,-11750 }, { 146,-11750 },
+ { 147,-11750 }, { 148,-11750 }, { 149,-11750 }, { 150,-11750 }, { 151,-11750 },
+ { 152,-11750 }, { 153,-11750 }, { 154,-11750 }, { 155,-11750 }, { 156,-11750 },
+ { 157,-11750 }, { 158,-11750 }, { 159,-11750 }, { 160,-11750 }, { 161,-11750 },
+ { 162,-11750 }, { 163,-11750 }, { 164,-11750 }, { 165,-11750 }, { 166,-11750 },
+ { 167,-11750 }, { 168,-11750 }, { 169,-11750 }, { 170,-11750 }, { 171,-11750 },
+ { 172,-11750 }, { 173,-11750 }, { 174,-11750 }, { 175,-11750 }, { 176,-11750 },
+ { 177,-11750 }, { 178,-11750 }, { 179,-11750 }, { 180,-11750 }, { 181,-11750 },
+
+ { 182,-11750 }, { 183,-11750 }, { 184,-11750 }, { 185,-11750 }, { 186,-11750 },
+ { 187,-11750 }, { 188,-11750 }, { 189,-11750 }, { 190,-11750 }, { 191,-11750 },
+ { 192,-11750 }, { 193,-11750 }, { 194,-11750 }, { 195,-11750 }, { 196,-11750 },
+ { 197,-11750 }, { 198,-11750 }, { 199,-11750 }, { 200,-11750 }, { 201,-11750 },
+ { 202,-11750 }, { 203,-11750 }, { 204,-11750 }, { 205,-11750 }, { 206,-11750 },
+ { 207,-11750 }, { 208,-11750 }, { 209,-11750 }, { 210,-11750 }, { 211,-11750 },
+ { 212,-11750 }, { 213,-11750 }, { 214,-11750 }, { 215,-11750 }, { 216,-11750 },
+ { 217,-11750 }, { 218,-11750 }, { 219,-11750 }, { 220,-11750 }, { 221,-11750 },
+ { 222,-11750 }, { 223,-11750 }, { 224,-11750 }, { 225,-11750 }, { 226,-11750 },
+ { 227,-11750 }, { 228,-11750 }, { 229,-11750 }, { 230,-11750 }, { 231,-11750 },
+
+ { 232,-11750 }, { 233,-11750 }, { 234,-11750 }, { 235,-11750 }, { 236,-11750 },
+ { 237,-11750 }, { 238,-11750 }, { 239,-11750 }, { 240,-11750 }, { 241,-11750 },
+ { 242,-11750 }, { 243,-11750 }, { 244,-11750 }, { 245,-11750 }, { 246,-11750 },
+ { 247,-11750 }, { 248,-11750 }, { 249,-11750 }, { 250,-11750 }, { 251,-11750 },
+ { 252,-11750 }, { 253,-11750 }, { 254,-11750 }, { 255,-11750 }, { 256,-11750 },
+ {   0,   0 }, {   0,2977 }, {   0,  29 }, {   0,2975 }, {   0,  23 },
+ {   0,2973 }, {   0,   0 }, {   0,2971 }, {   0,   0 }, {   0,2969 },
+ {   0,   8 }, {   0,2967 }, {   0,   1 }, {   0,2965 }, {   0,  45 },
+ {   0,2963 }, {   0,   0 }, {   0,2961 }, {   0,   0 }, {   0,2959 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,1151 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 115,  16 }, {   0,   0 }, { 101,2301 }, {   0,   0 },
+ { 101,2307 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,  10 },
+
+ {   0,   0 }, {   0,2852 }, {   1,1160 }, {   2,1160 }, {   3,1160 },
+ {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 },
+ {   9,1160 }, {  10,1160 }, {  11,1160 }, {  12,1160 }, {  13,1160 },
+ {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 },
+ {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 },
+ {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 },
+ {  29,1160 }, {  30,1160 }, {  31,1160 }, {  32,1160 }, {  33,1160 },
+ {  34,1160 }, {  35,1160 }, {  36,1160 }, {  37,1160 }, {  38,1160 },
+ {  39,1160 }, {  40,1160 }, {  41,1160 }, {  42,1160 }, {  43,1160 },
+ {  44,1160 }, {  45,1418 }, {  46,1160 }, {  47,1160 }, {  48,1160 },
+
+ {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 },
+ {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 },
+ {  59,1160 }, {  60,1160 }, {  61,1160 }, {  62,1160 }, {  63,1160 },
+ {  64,1160 }, {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 },
+ {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 },
+ {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 },
+ {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 },
+ {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 },
+ {  89,1160 }, {  90,1160 }, {  91,1160 }, {  92,1160 }, {  93,1160 },
+ {  94,1160 }, {  95,1160 }, {  96,1160 }, {  97,1160 }, {  98,1160 },
+
+ {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 },
+ { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 },
+ { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 },
+ { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 },
+ { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 }, { 123,1160 },
+ { 124,1160 }, { 125,1160 }, { 126,1160 }, { 127,1160 }, { 128,1160 },
+ { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 },
+ { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 },
+ { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 },
+ { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 },
+
+ { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 },
+ { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 },
+ { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 },
+ { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 },
+ { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 }, { 173,1160 },
+ { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 }, { 178,1160 },
+ { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 }, { 183,1160 },
+ { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 },
+ { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 },
+ { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 },
+
+ { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 },
+ { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 },
+ { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 },
+ { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 },
+ { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 }, { 223,1160 },
+ { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 }, { 228,1160 },
+ { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 }, { 233,1160 },
+ { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 },
+ { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 },
+ { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 },
+
+ { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 },
+ { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,2594 },
+ {   1,-4798 }, {   2,-4798 }, {   3,-4798 }, {   4,-4798 }, {   5,-4798 },
+ {   6,-4798 }, {   7,-4798 }, {   8,-4798 }, {   9,-4798 }, {  10,-4798 },
+ {  11,-4798 }, {  12,-4798 }, {  13,-4798 }, {  14,-4798 }, {  15,-4798 },
+ {  16,-4798 }, {  17,-4798 }, {  18,-4798 }, {  19,-4798 }, {  20,-4798 },
+ {  21,-4798 }, {  22,-4798 }, {  23,-4798 }, {  24,-4798 }, {  25,-4798 },
+ {  26,-4798 }, {  27,-4798 }, {  28,-4798 }, {  29,-4798 }, {  30,-4798 },
+ {  31,-4798 }, {  32,-4798 }, {  33,-4798 }, {  34,-4798 }, {  35,-4798 },
+ {  36,-4798 }, {  37,-4798 }, {  38,-4798 }, {  39,-4798 }, {  40,-4798 },
+
+ {  41,-4798 }, {  42,-4798 }, {  43,-4798 }, {  44,-4798 }, {  45,-4540 },
+ {  46,-4798 }, {  47,-4798 }, {  48,-4798 }, {  49,-4798 }, {  50,-4798 },
+ {  51,-4798 }, {  52,-4798 }, {  53,-4798 }, {  54,-4798 }, {  55,-4798 },
+ {  56,-4798 }, {  57,-4798 }, {  58,-4798 }, {  59,-4798 }, {  60,-4798 },
+ {  61,-4798 }, {  62,-4798 }, {  63,-4798 }, {  64,-4798 }, {  65,-4798 },
+ {  66,-4798 }, {  67,-4798 }, {  68,-4798 }, {  69,-4798 }, {  70,-4798 },
+ {  71,-4798 }, {  72,-4798 }, {  73,-4798 }, {  74,-4798 }, {  75,-4798 },
+ {  76,-4798 }, {  77,-4798 }, {  78,-4798 }, {  79,-4798 }, {  80,-4798 },
+ {  81,-4798 }, {  82,-4798 }, {  83,-4798 }, {  84,-4798 }, {  85,-4798 },
+ {  86,-4798 }, {  87,-4798 }, {  88,-4798 }, {  89,-4798 }, {  90,-4798 },
+
+ {  91,-4798 }, {  92,-4798 }, {  93,-4798 }, {  94,-4798 }, {  95,-4798 },
+ {  96,-4798 }, {  97,-4798 }, {  98,-4798 }, {  99,-4798 }, { 100,-4798 },
+ { 101,-4798 }, { 102,-4798 }, { 103,-4798 }, { 104,-4798 }, { 105,-4798 },
+ { 106,-4798 }, { 107,-4798 }, { 108,-4798 }, { 109,-4798 }, { 110,-4798 },
+ { 111,-4798 }, { 112,-4798 }, { 113,-4798 }, { 114,-4798 }, { 115,-4798 },
+ { 116,-4798 }, { 117,-4798 }, { 118,-4798 }, { 119,-4798 }, { 120,-4798 },
+ { 121,-4798 }, { 122,-4798 }, { 123,-4798 }, { 124,-4798 }, { 125,-4282 },
+ { 126,-4024 }, { 127,-4798 }, { 128,-4798 }, { 129,-4798 }, { 130,-4798 },
+ { 131,-4798 }, { 132,-4798 }, { 133,-4798 }, { 134,-4798 }, { 135,-4798 },
+ { 136,-4798 }, { 137,-4798 }, { 138,-4798 }, { 139,-4798 }, { 140,-4798 },
+
+ { 141,-4798 }, { 142,-4798 }, { 143,-4798 }, { 144,-4798 }, { 145,-4798 },
+ { 146,-4798 }, { 147,-4798 }, { 148,-4798 }, { 149,-4798 }, { 150,-4798 },
+ { 151,-4798 }, { 152,-4798 }, { 153,-4798 }, { 154,-4798 }, { 155,-4798 },
+ { 156,-4798 }, { 157,-4798 }, { 158,-4798 }, { 159,-4798 }, { 160,-4798 },
+ { 161,-4798 }, { 162,-4798 }, { 163,-4798 }, { 164,-4798 }, { 165,-4798 },
+ { 166,-4798 }, { 167,-4798 }, { 168,-4798 }, { 169,-4798 }, { 170,-4798 },
+ { 171,-4798 }, { 172,-4798 }, { 173,-4798 }, { 174,-4798 }, { 175,-4798 },
+ { 176,-4798 }, { 177,-4798 }, { 178,-4798 }, { 179,-4798 }, { 180,-4798 },
+ { 181,-4798 }, { 182,-4798 }, { 183,-4798 }, { 184,-4798 }, { 185,-4798 },
+ { 186,-4798 }, { 187,-4798 }, { 188,-4798 }, { 189,-4798 }, { 190,-4798 },
+
+ { 191,-4798 }, { 192,-4798 }, { 193,-4798 }, { 194,-4798 }, { 195,-4798 },
+ { 196,-4798 }, { 197,-4798 }, { 198,-4798 }, { 199,-4798 }, { 200,-4798 },
+ { 201,-4798 }, { 202,-4798 }, { 203,-4798 }, { 204,-4798 }, { 205,-4798 },
+ { 206,-4798 }, { 207,-4798 }, { 208,-4798 }, { 209,-4798 }, { 210,-4798 },
+ { 211,-4798 }, { 212,-4798 }, { 213,-4798 }, { 214,-4798 }, { 215,-4798 },
+ { 216,-4798 }, { 217,-4798 }, { 218,-4798 }, { 219,-4798 }, { 220,-4798 },
+ { 221,-4798 }, { 222,-4798 }, { 223,-4798 }, { 224,-4798 }, { 225,-4798 },
+ { 226,-4798 }, { 227,-4798 }, { 228,-4798 }, { 229,-4798 }, { 230,-4798 },
+ { 231,-4798 }, { 232,-4798 }, { 233,-4798 }, { 234,-4798 }, { 235,-4798 },
+ { 236,-4798 }, { 237,-4798 }, { 238,-4798 }, { 239,-4798 }, { 240,-4798 },
+
+ { 241,-4798 }, { 242,-4798 }, { 243,-4798 }, { 244,-4798 }, { 245,-4798 },
+ { 246,-4798 }, { 247,-4798 }, { 248,-4798 }, { 249,-4798 }, { 250,-4798 },
+ { 251,-4798 }, { 252,-4798 }, { 253,-4798 }, { 254,-4798 }, { 255,-4798 },
+ { 256,-4798 }, {   0,   0 }, {   0,2336 }, {   1,1160 }, {   2,1160 },
  {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 },
- {   8,1160 }, {   9,1160 }, {  10,1160 }, {  11,1160 }, {  12,1160 },
- {  13,1160 }, {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 },
+ {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 },
+ {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 },
  {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 },
  {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 },
- {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 }, {  32,1160 },
- {  33,1160 }, {  34,1160 }, {  35,1160 }, {  36,1160 }, {  37,1160 },
- {  38,1160 }, {  39,1160 }, {  40,1160 }, {  41,1160 }, {  42,1160 },
- {  43,1160 }, {  44,1160 }, {  45,1418 }, {  46,1160 }, {  47,1160 },
+ {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 },
 
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 },
  {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 },
  {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 },
- {  58,1160 }, {  59,1160 }, {  60,1160 }, {  61,1160 }, {  62,1160 },
- {  63,1160 }, {  64,1160 }, {  65,1160 }, {  66,1160 }, {  67,1160 },
+ {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 },
  {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 },
  {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 },
  {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 },
- {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 },
- {  88,1160 }, {  89,1160 }, {  90,1160 }, {  91,1160 }, {  92,1160 },
- {  93,1160 }, {  94,1160 }, {  95,1160 }, {  96,1160 }, {  97,1160 },
 
+ {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 },
+ {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 },
  {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 },
  { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 },
  { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 },
  { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 },
  { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 },
- { 123,1160 }, { 124,1160 }, { 125,1160 }, { 126,1160 }, { 127,1160 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 },
  { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 },
+
  { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 },
  { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 },
  { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 },
-
  { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 },
  { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 },
  { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 },
@@ -5107,10 +5264,10 @@ static const struct yy_trans_info yy_transition[23409] =
  { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 },
  { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 },
  { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 },
+
  { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 },
  { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 },
  { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 },
-
  { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 },
  { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 },
  { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 },
@@ -5118,190 +5275,77 @@ static const struct yy_trans_info yy_transition[23409] =
  { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 },
  { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 },
  { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 },
+
  { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 },
  { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 },
  { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 },
-
  { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 },
  { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 },
- {   0,2594 }, {   1,-4796 }, {   2,-4796 }, {   3,-4796 }, {   4,-4796 },
- {   5,-4796 }, {   6,-4796 }, {   7,-4796 }, {   8,-4796 }, {   9,-4796 },
- {  10,-4796 }, {  11,-4796 }, {  12,-4796 }, {  13,-4796 }, {  14,-4796 },
- {  15,-4796 }, {  16,-4796 }, {  17,-4796 }, {  18,-4796 }, {  19,-4796 },
- {  20,-4796 }, {  21,-4796 }, {  22,-4796 }, {  23,-4796 }, {  24,-4796 },
- {  25,-4796 }, {  26,-4796 }, {  27,-4796 }, {  28,-4796 }, {  29,-4796 },
- {  30,-4796 }, {  31,-4796 }, {  32,-4796 }, {  33,-4796 }, {  34,-4796 },
- {  35,-4796 }, {  36,-4796 }, {  37,-4796 }, {  38,-4796 }, {  39,-4796 },
-
- {  40,-4796 }, {  41,-4796 }, {  42,-4796 }, {  43,-4796 }, {  44,-4796 },
- {  45,-4538 }, {  46,-4796 }, {  47,-4796 }, {  48,-4796 }, {  49,-4796 },
- {  50,-4796 }, {  51,-4796 }, {  52,-4796 }, {  53,-4796 }, {  54,-4796 },
- {  55,-4796 }, {  56,-4796 }, {  57,-4796 }, {  58,-4796 }, {  59,-4796 },
- {  60,-4796 }, {  61,-4796 }, {  62,-4796 }, {  63,-4796 }, {  64,-4796 },
- {  65,-4796 }, {  66,-4796 }, {  67,-4796 }, {  68,-4796 }, {  69,-4796 },
- {  70,-4796 }, {  71,-4796 }, {  72,-4796 }, {  73,-4796 }, {  74,-4796 },
- {  75,-4796 }, {  76,-4796 }, {  77,-4796 }, {  78,-4796 }, {  79,-4796 },
- {  80,-4796 }, {  81,-4796 }, {  82,-4796 }, {  83,-4796 }, {  84,-4796 },
- {  85,-4796 }, {  86,-4796 }, {  87,-4796 }, {  88,-4796 }, {  89,-4796 },
-
- {  90,-4796 }, {  91,-4796 }, {  92,-4796 }, {  93,-4796 }, {  94,-4796 },
- {  95,-4796 }, {  96,-4796 }, {  97,-4796 }, {  98,-4796 }, {  99,-4796 },
- { 100,-4796 }, { 101,-4796 }, { 102,-4796 }, { 103,-4796 }, { 104,-4796 },
- { 105,-4796 }, { 106,-4796 }, { 107,-4796 }, { 108,-4796 }, { 109,-4796 },
- { 110,-4796 }, { 111,-4796 }, { 112,-4796 }, { 113,-4796 }, { 114,-4796 },
- { 115,-4796 }, { 116,-4796 }, { 117,-4796 }, { 118,-4796 }, { 119,-4796 },
- { 120,-4796 }, { 121,-4796 }, { 122,-4796 }, { 123,-4796 }, { 124,-4796 },
- { 125,-4280 }, { 126,-4022 }, { 127,-4796 }, { 128,-4796 }, { 129,-4796 },
- { 130,-4796 }, { 131,-4796 }, { 132,-4796 }, { 133,-4796 }, { 134,-4796 },
- { 135,-4796 }, { 136,-4796 }, { 137,-4796 }, { 138,-4796 }, { 139,-4796 },
-
- { 140,-4796 }, { 141,-4796 }, { 142,-4796 }, { 143,-4796 }, { 144,-4796 },
- { 145,-4796 }, { 146,-4796 }, { 147,-4796 }, { 148,-4796 }, { 149,-4796 },
- { 150,-4796 }, { 151,-4796 }, { 152,-4796 }, { 153,-4796 }, { 154,-4796 },
- { 155,-4796 }, { 156,-4796 }, { 157,-4796 }, { 158,-4796 }, { 159,-4796 },
- { 160,-4796 }, { 161,-4796 }, { 162,-4796 }, { 163,-4796 }, { 164,-4796 },
- { 165,-4796 }, { 166,-4796 }, { 167,-4796 }, { 168,-4796 }, { 169,-4796 },
- { 170,-4796 }, { 171,-4796 }, { 172,-4796 }, { 173,-4796 }, { 174,-4796 },
- { 175,-4796 }, { 176,-4796 }, { 177,-4796 }, { 178,-4796 }, { 179,-4796 },
- { 180,-4796 }, { 181,-4796 }, { 182,-4796 }, { 183,-4796 }, { 184,-4796 },
- { 185,-4796 }, { 186,-4796 }, { 187,-4796 }, { 188,-4796 }, { 189,-4796 },
-
- { 190,-4796 }, { 191,-4796 }, { 192,-4796 }, { 193,-4796 }, { 194,-4796 },
- { 195,-4796 }, { 196,-4796 }, { 197,-4796 }, { 198,-4796 }, { 199,-4796 },
- { 200,-4796 }, { 201,-4796 }, { 202,-4796 }, { 203,-4796 }, { 204,-4796 },
- { 205,-4796 }, { 206,-4796 }, { 207,-4796 }, { 208,-4796 }, { 209,-4796 },
- { 210,-4796 }, { 211,-4796 }, { 212,-4796 }, { 213,-4796 }, { 214,-4796 },
- { 215,-4796 }, { 216,-4796 }, { 217,-4796 }, { 218,-4796 }, { 219,-4796 },
- { 220,-4796 }, { 221,-4796 }, { 222,-4796 }, { 223,-4796 }, { 224,-4796 },
- { 225,-4796 }, { 226,-4796 }, { 227,-4796 }, { 228,-4796 }, { 229,-4796 },
- { 230,-4796 }, { 231,-4796 }, { 232,-4796 }, { 233,-4796 }, { 234,-4796 },
- { 235,-4796 }, { 236,-4796 }, { 237,-4796 }, { 238,-4796 }, { 239,-4796 },
-
- { 240,-4796 }, { 241,-4796 }, { 242,-4796 }, { 243,-4796 }, { 244,-4796 },
- { 245,-4796 }, { 246,-4796 }, { 247,-4796 }, { 248,-4796 }, { 249,-4796 },
- { 250,-4796 }, { 251,-4796 }, { 252,-4796 }, { 253,-4796 }, { 254,-4796 },
- { 255,-4796 }, { 256,-4796 }, {   0,   0 }, {   0,2336 }, {   1,1160 },
- {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 },
- {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 },
- {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 },
- {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 },
- {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 },
- {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 },
- {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 },
- {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 },
- {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 },
- {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 },
- {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 },
- {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 },
-
- {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 },
- {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 },
- {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 },
- { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 },
- { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 },
- { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 },
- { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 },
- { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 },
-
- { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 },
- { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 },
- { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 },
- { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 },
- { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 },
- { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 },
- { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 },
- { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 },
- { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 },
- { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 },
-
- { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 },
- { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 },
- { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 },
- { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 },
- { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 },
- { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 },
- { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 },
- { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 },
- { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 },
- { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 },
-
- { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 },
- { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 },
- { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 },
- { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 },
- { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 },
- {   0,   0 }, {   0,2078 }, {   1,-12735 }, {   2,-12735 }, {   3,-12735 },
- {   4,-12735 }, {   5,-12735 }, {   6,-12735 }, {   7,-12735 }, {   8,-12735 },
- {   9,-12856 }, {  10,-12856 }, {  11,-12735 }, {  12,-12735 }, {  13,-12856 },
- {  14,-12735 }, {  15,-12735 }, {  16,-12735 }, {  17,-12735 }, {  18,-12735 },
- {  19,-12735 }, {  20,-12735 }, {  21,-12735 }, {  22,-12735 }, {  23,-12735 },
-
- {  24,-12735 }, {  25,-12735 }, {  26,-12735 }, {  27,-12735 }, {  28,-12735 },
- {  29,-12735 }, {  30,-12735 }, {  31,-12735 }, {  32,-12856 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-12735 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-12856 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-12735 }, {  46,-12856 }, {  47,-12856 }, {  48,-12735 },
- {  49,-12735 }, {  50,-12735 }, {  51,-12735 }, {  52,-12735 }, {  53,-12735 },
- {  54,-12735 }, {  55,-12735 }, {  56,-12735 }, {  57,-12735 }, {  58,-12735 },
- {   0,   0 }, {   0,   0 }, {  61,-12856 }, {   0,   0 }, {  63,-12735 },
- {   0,   0 }, {  65,-12735 }, {  66,-12735 }, {  67,-12735 }, {  68,-12735 },
- {  69,-12735 }, {  70,-12735 }, {  71,-12735 }, {  72,-12735 }, {  73,-12735 },
-
- {  74,-12735 }, {  75,-12735 }, {  76,-12735 }, {  77,-12735 }, {  78,-12735 },
- {  79,-12735 }, {  80,-12735 }, {  81,-12735 }, {  82,-12735 }, {  83,-12735 },
- {  84,-12735 }, {  85,-12735 }, {  86,-12735 }, {  87,-12735 }, {  88,-12735 },
- {  89,-12735 }, {  90,-12735 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-12735 }, {   0,   0 }, {  97,-12735 }, {  98,-12735 },
- {  99,-12735 }, { 100,-12735 }, { 101,-12735 }, { 102,-12735 }, { 103,-12735 },
- { 104,-12735 }, { 105,-12735 }, { 106,-12735 }, { 107,-12735 }, { 108,-12735 },
- { 109,-12735 }, { 110,1160 }, { 111,-12735 }, { 112,-12735 }, { 113,-12735 },
- { 114,-12735 }, { 115,-12735 }, { 116,-12735 }, { 117,-12735 }, { 118,-12735 },
- { 119,-12735 }, { 120,-12735 }, { 121,-12735 }, { 122,-12735 }, {   0,   0 },
-
- { 124,-12856 }, { 125,-12856 }, { 126,-12856 }, { 127,-12735 }, { 128,-12735 },
- { 129,-12735 }, { 130,-12735 }, { 131,-12735 }, { 132,-12735 }, { 133,-12735 },
- { 134,-12735 }, { 135,-12735 }, { 136,-12735 }, { 137,-12735 }, { 138,-12735 },
- { 139,-12735 }, { 140,-12735 }, { 141,-12735 }, { 142,-12735 }, { 143,-12735 },
- { 144,-12735 }, { 145,-12735 }, { 146,-12735 }, { 147,-12735 }, { 148,-12735 },
- { 149,-12735 }, { 150,-12735 }, { 151,-12735 }, { 152,-12735 }, { 153,-12735 },
- { 154,-12735 }, { 155,-12735 }, { 156,-12735 }, { 157,-12735 }, { 158,-12735 },
- { 159,-12735 }, { 160,-12735 }, { 161,-12735 }, { 162,-12735 }, { 163,-12735 },
- { 164,-12735 }, { 165,-12735 }, { 166,-12735 }, { 167,-12735 }, { 168,-12735 },
- { 169,-12735 }, { 170,-12735 }, { 171,-12735 }, { 172,-12735 }, { 173,-12735 },
-
- { 174,-12735 }, { 175,-12735 }, { 176,-12735 }, { 177,-12735 }, { 178,-12735 },
- { 179,-12735 }, { 180,-12735 }, { 181,-12735 }, { 182,-12735 }, { 183,-12735 },
- { 184,-12735 }, { 185,-12735 }, { 186,-12735 }, { 187,-12735 }, { 188,-12735 },
- { 189,-12735 }, { 190,-12735 }, { 191,-12735 }, { 192,-12735 }, { 193,-12735 },
- { 194,-12735 }, { 195,-12735 }, { 196,-12735 }, { 197,-12735 }, { 198,-12735 },
- { 199,-12735 }, { 200,-12735 }, { 201,-12735 }, { 202,-12735 }, { 203,-12735 },
- { 204,-12735 }, { 205,-12735 }, { 206,-12735 }, { 207,-12735 }, { 208,-12735 },
- { 209,-12735 }, { 210,-12735 }, { 211,-12735 }, { 212,-12735 }, { 213,-12735 },
- { 214,-12735 }, { 215,-12735 }, { 216,-12735 }, { 217,-12735 }, { 218,-12735 },
- { 219,-12735 }, { 220,-12735 }, { 221,-12735 }, { 222,-12735 }, { 223,-12735 },
+ {   0,2078 }, {   1,-12907 }, {   2,-12907 }, {   3,-12907 }, {   4,-12907 },
+ {   5,-12907 }, {   6,-12907 }, {   7,-12907 }, {   8,-12907 }, {   9,-12932 },
+ {  10,-12932 }, {  11,-12907 }, {  12,-12907 }, {  13,-12932 }, {  14,-12907 },
+ {  15,-12907 }, {  16,-12907 }, {  17,-12907 }, {  18,-12907 }, {  19,-12907 },
+ {  20,-12907 }, {  21,-12907 }, {  22,-12907 }, {  23,-12907 }, {  24,-12907 },
+
+ {  25,-12907 }, {  26,-12907 }, {  27,-12907 }, {  28,-12907 }, {  29,-12907 },
+ {  30,-12907 }, {  31,-12907 }, {  32,-12932 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-12907 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-12932 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-12907 }, {  46,-12932 }, {  47,-12932 }, {  48,-12907 }, {  49,-12907 },
+ {  50,-12907 }, {  51,-12907 }, {  52,-12907 }, {  53,-12907 }, {  54,-12907 },
+ {  55,-12907 }, {  56,-12907 }, {  57,-12907 }, {  58,-12907 }, {   0,   0 },
+ {   0,   0 }, {  61,-12932 }, {   0,   0 }, {  63,-12907 }, {   0,   0 },
+ {  65,-12907 }, {  66,-12907 }, {  67,-12907 }, {  68,-12907 }, {  69,-12907 },
+ {  70,-12907 }, {  71,-12907 }, {  72,-12907 }, {  73,-12907 }, {  74,-12907 },
+
+ {  75,-12907 }, {  76,-12907 }, {  77,-12907 }, {  78,-12907 }, {  79,-12907 },
+ {  80,-12907 }, {  81,-12907 }, {  82,-12907 }, {  83,-12907 }, {  84,-12907 },
+ {  85,-12907 }, {  86,-12907 }, {  87,-12907 }, {  88,-12907 }, {  89,-12907 },
+ {  90,-12907 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-12907 }, {   0,   0 }, {  97,-12907 }, {  98,-12907 }, {  99,-12907 },
+ { 100,-12907 }, { 101,-12907 }, { 102,-12907 }, { 103,-12907 }, { 104,-12907 },
+ { 105,-12907 }, { 106,-12907 }, { 107,-12907 }, { 108,-12907 }, { 109,-12907 },
+ { 110,1160 }, { 111,-12907 }, { 112,-12907 }, { 113,-12907 }, { 114,-12907 },
+ { 115,-12907 }, { 116,-12907 }, { 117,-12907 }, { 118,-12907 }, { 119,-12907 },
+ { 120,-12907 }, { 121,-12907 }, { 122,-12907 }, {   0,   0 }, { 124,-12932 },
 
- { 224,-12735 }, { 225,-12735 }, { 226,-12735 }, { 227,-12735 }, { 228,-12735 },
- { 229,-12735 }, { 230,-12735 }, { 231,-12735 }, { 232,-12735 }, { 233,-12735 },
- { 234,-12735 }, { 235,-12735 }, { 236,-12735 }, { 237,-12735 }, { 238,-12735 },
- { 239,-12735 }, { 240,-12735 }, { 241,-12735 }, { 242,-12735 }, { 243,-12735 },
- { 244,-12735 }, { 245,-12735 }, { 246,-12735 }, { 247,-12735 }, { 248,-12735 },
- { 249,-12735 }, { 250,-12735 }, { 251,-12735 }, { 252,-12735 }, { 253,-12735 },
- { 254,-12735 }, { 255,-12735 }, { 256,-12735 }, {   0,  26 }, {   0,1820 },
+ { 125,-12932 }, { 126,-12932 }, { 127,-12907 }, { 128,-12907 }, { 129,-12907 },
+ { 130,-12907 }, { 131,-12907 }, { 132,-12907 }, { 133,-12907 }, { 134,-12907 },
+ { 135,-12907 }, { 136,-12907 }, { 137,-12907 }, { 138,-12907 }, { 139,-12907 },
+ { 140,-12907 }, { 141,-12907 }, { 142,-12907 }, { 143,-12907 }, { 144,-12907 },
+ { 145,-12907 }, { 146,-12907 }, { 147,-12907 }, { 148,-12907 }, { 149,-12907 },
+ { 150,-12907 }, { 151,-12907 }, { 152,-12907 }, { 153,-12907 }, { 154,-12907 },
+ { 155,-12907 }, { 156,-12907 }, { 157,-12907 }, { 158,-12907 }, { 159,-12907 },
+ { 160,-12907 }, { 161,-12907 }, { 162,-12907 }, { 163,-12907 }, { 164,-12907 },
+ { 165,-12907 }, { 166,-12907 }, { 167,-12907 }, { 168,-12907 }, { 169,-12907 },
+ { 170,-12907 }, { 171,-12907 }, { 172,-12907 }, { 173,-12907 }, { 174,-12907 },
+
+ { 175,-12907 }, { 176,-12907 }, { 177,-12907 }, { 178,-12907 }, { 179,-12907 },
+ { 180,-12907 }, { 181,-12907 }, { 182,-12907 }, { 183,-12907 }, { 184,-12907 },
+ { 185,-12907 }, { 186,-12907 }, { 187,-12907 }, { 188,-12907 }, { 189,-12907 },
+ { 190,-12907 }, { 191,-12907 }, { 192,-12907 }, { 193,-12907 }, { 194,-12907 },
+ { 195,-12907 }, { 196,-12907 }, { 197,-12907 }, { 198,-12907 }, { 199,-12907 },
+ { 200,-12907 }, { 201,-12907 }, { 202,-12907 }, { 203,-12907 }, { 204,-12907 },
+ { 205,-12907 }, { 206,-12907 }, { 207,-12907 }, { 208,-12907 }, { 209,-12907 },
+ { 210,-12907 }, { 211,-12907 }, { 212,-12907 }, { 213,-12907 }, { 214,-12907 },
+ { 215,-12907 }, { 216,-12907 }, { 217,-12907 }, { 218,-12907 }, { 219,-12907 },
+ { 220,-12907 }, { 221,-12907 }, { 222,-12907 }, { 223,-12907 }, { 224,-12907 },
+
+ { 225,-12907 }, { 226,-12907 }, { 227,-12907 }, { 228,-12907 }, { 229,-12907 },
+ { 230,-12907 }, { 231,-12907 }, { 232,-12907 }, { 233,-12907 }, { 234,-12907 },
+ { 235,-12907 }, { 236,-12907 }, { 237,-12907 }, { 238,-12907 }, { 239,-12907 },
+ { 240,-12907 }, { 241,-12907 }, { 242,-12907 }, { 243,-12907 }, { 244,-12907 },
+ { 245,-12907 }, { 246,-12907 }, { 247,-12907 }, { 248,-12907 }, { 249,-12907 },
+ { 250,-12907 }, { 251,-12907 }, { 252,-12907 }, { 253,-12907 }, { 254,-12907 },
+ { 255,-12907 }, { 256,-12907 }, {   0,  26 }, {   0,1820 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1162 }, {  10,1162 },
- {   0,   0 }, {   0,   0 }, {  13,1162 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   9,1162 }, {  10,1162 }, {   0,   0 },
+ {   0,   0 }, {  13,1162 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,1162 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,1162 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -5321,38 +5365,151 @@ static const struct yy_trans_info yy_transition[23409] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1164 },
- { 126,1166 }, {   0,   0 }, {   0,1692 }, {   1,   0 }, {   2,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1164 }, { 126,1166 },
+ {   0,   0 }, {   0,1692 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+ {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
+ {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+
+ {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+ {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+ {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+ {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+
+ {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+ {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
+ { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1434 },
+ {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
+ {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
+ {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
+ {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
+ {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
+ {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
+
+ {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+ {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
+ {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-1160 },
+ {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
+ {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
+ {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
+ {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
+ {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
+ {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
+ {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
+
+ {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+ {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
+ {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
+ {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
+ { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
+ { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
+ { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
+ { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
+ { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
+ { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
+
+ { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+ { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
+ { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
+ { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
+ { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
+ { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
+ { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
+ { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
+ { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
+ { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
+
+ { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+ { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
+ { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
+ { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
+ { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
+ { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
+ { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
+ { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
+ { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
+ { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
+
+ { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+ { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
+ { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
+ { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
+ { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
+ { 256,-258 }, {   0,   0 }, {   0,1176 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
- {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 },
+ {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
 
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
-
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 },
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+
+ {   0,   0 }, {   0,   0 }, { 125, 533 }, {   0,   0 }, { 127,   0 },
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
-
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
  { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
  { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
@@ -5360,10 +5517,10 @@ static const struct yy_trans_info yy_transition[23409] =
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
  { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+
  { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
  { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
-
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
  { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
  { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
@@ -5371,331 +5528,217 @@ static const struct yy_trans_info yy_transition[23409] =
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
  { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+
  { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
  { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
-
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
  { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0,1434 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
- {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
- {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
- {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
- {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
- {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
-
- {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
- {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
- {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
- {  45,-1160 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
- {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
- {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
- {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
- {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
- {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
- {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
-
- {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
- {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
- {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
- {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
- { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
- { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
- { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
- { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
- { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
- { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
-
- { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
- { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
- { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
- { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
- { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
- { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
- { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
- { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
- { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
- { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
-
- { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
- { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
- { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
- { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
- { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
- { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
- { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
- { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
- { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
- { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
-
- { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
- { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
- { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
- { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
- { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
- { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1176 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 },
- {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
-
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 },
- {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
-
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
-
- { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 533 }, {   0,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
-
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
+ {   0, 918 }, {   1,-14067 }, {   2,-14067 }, {   3,-14067 }, {   4,-14067 },
+ {   5,-14067 }, {   6,-14067 }, {   7,-14067 }, {   8,-14067 }, {   9,-14092 },
+ {  10,-14092 }, {  11,-14067 }, {  12,-14067 }, {  13,-14092 }, {  14,-14067 },
 
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0, 918 }, {   1,-13895 }, {   2,-13895 }, {   3,-13895 },
- {   4,-13895 }, {   5,-13895 }, {   6,-13895 }, {   7,-13895 }, {   8,-13895 },
- {   9,-14016 }, {  10,-14016 }, {  11,-13895 }, {  12,-13895 }, {  13,-14016 },
+ {  15,-14067 }, {  16,-14067 }, {  17,-14067 }, {  18,-14067 }, {  19,-14067 },
+ {  20,-14067 }, {  21,-14067 }, {  22,-14067 }, {  23,-14067 }, {  24,-14067 },
+ {  25,-14067 }, {  26,-14067 }, {  27,-14067 }, {  28,-14067 }, {  29,-14067 },
+ {  30,-14067 }, {  31,-14067 }, {  32,-14092 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-14067 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-14092 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-14067 }, {  46,-14092 }, {  47,-14092 }, {  48,-14067 }, {  49,-14067 },
+ {  50,-14067 }, {  51,-14067 }, {  52,-14067 }, {  53,-14067 }, {  54,-14067 },
+ {  55,-14067 }, {  56,-14067 }, {  57,-14067 }, {  58,-14067 }, {   0,   0 },
+ {   0,   0 }, {  61,-14092 }, {   0,   0 }, {  63,-14067 }, {   0,   0 },
 
- {  14,-13895 }, {  15,-13895 }, {  16,-13895 }, {  17,-13895 }, {  18,-13895 },
- {  19,-13895 }, {  20,-13895 }, {  21,-13895 }, {  22,-13895 }, {  23,-13895 },
- {  24,-13895 }, {  25,-13895 }, {  26,-13895 }, {  27,-13895 }, {  28,-13895 },
- {  29,-13895 }, {  30,-13895 }, {  31,-13895 }, {  32,-14016 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-13895 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-14016 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-13895 }, {  46,-14016 }, {  47,-14016 }, {  48,-13895 },
- {  49,-13895 }, {  50,-13895 }, {  51,-13895 }, {  52,-13895 }, {  53,-13895 },
- {  54,-13895 }, {  55,-13895 }, {  56,-13895 }, {  57,-13895 }, {  58,-13895 },
- {   0,   0 }, {   0,   0 }, {  61,-14016 }, {   0,   0 }, {  63,-13895 },
+ {  65,-14067 }, {  66,-14067 }, {  67,-14067 }, {  68,-14067 }, {  69,-14067 },
+ {  70,-14067 }, {  71,-14067 }, {  72,-14067 }, {  73,-14067 }, {  74,-14067 },
+ {  75,-14067 }, {  76,-14067 }, {  77,-14067 }, {  78,-14067 }, {  79,-14067 },
+ {  80,-14067 }, {  81,-14067 }, {  82,-14067 }, {  83,-14067 }, {  84,-14067 },
+ {  85,-14067 }, {  86,-14067 }, {  87,-14067 }, {  88,-14067 }, {  89,-14067 },
+ {  90,-14067 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-14067 }, {   0,   0 }, {  97,-14067 }, {  98,-14067 }, {  99,-14067 },
+ { 100,-14067 }, { 101, 402 }, { 102,-14067 }, { 103,-14067 }, { 104,-14067 },
+ { 105,-14067 }, { 106,-14067 }, { 107,-14067 }, { 108,-14067 }, { 109,-14067 },
+ { 110,-14067 }, { 111,-14067 }, { 112,-14067 }, { 113,-14067 }, { 114,-14067 },
 
- {   0,   0 }, {  65,-13895 }, {  66,-13895 }, {  67,-13895 }, {  68,-13895 },
- {  69,-13895 }, {  70,-13895 }, {  71,-13895 }, {  72,-13895 }, {  73,-13895 },
- {  74,-13895 }, {  75,-13895 }, {  76,-13895 }, {  77,-13895 }, {  78,-13895 },
- {  79,-13895 }, {  80,-13895 }, {  81,-13895 }, {  82,-13895 }, {  83,-13895 },
- {  84,-13895 }, {  85,-13895 }, {  86,-13895 }, {  87,-13895 }, {  88,-13895 },
- {  89,-13895 }, {  90,-13895 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-13895 }, {   0,   0 }, {  97,-13895 }, {  98,-13895 },
- {  99,-13895 }, { 100,-13895 }, { 101, 402 }, { 102,-13895 }, { 103,-13895 },
- { 104,-13895 }, { 105,-13895 }, { 106,-13895 }, { 107,-13895 }, { 108,-13895 },
- { 109,-13895 }, { 110,-13895 }, { 111,-13895 }, { 112,-13895 }, { 113,-13895 },
-
- { 114,-13895 }, { 115,-13895 }, { 116,-13895 }, { 117,-13895 }, { 118,-13895 },
- { 119,-13895 }, { 120,-13895 }, { 121,-13895 }, { 122,-13895 }, {   0,   0 },
- { 124,-14016 }, { 125,-14016 }, { 126,-14016 }, { 127,-13895 }, { 128,-13895 },
- { 129,-13895 }, { 130,-13895 }, { 131,-13895 }, { 132,-13895 }, { 133,-13895 },
- { 134,-13895 }, { 135,-13895 }, { 136,-13895 }, { 137,-13895 }, { 138,-13895 },
- { 139,-13895 }, { 140,-13895 }, { 141,-13895 }, { 142,-13895 }, { 143,-13895 },
- { 144,-13895 }, { 145,-13895 }, { 146,-13895 }, { 147,-13895 }, { 148,-13895 },
- { 149,-13895 }, { 150,-13895 }, { 151,-13895 }, { 152,-13895 }, { 153,-13895 },
- { 154,-13895 }, { 155,-13895 }, { 156,-13895 }, { 157,-13895 }, { 158,-13895 },
- { 159,-13895 }, { 160,-13895 }, { 161,-13895 }, { 162,-13895 }, { 163,-13895 },
-
- { 164,-13895 }, { 165,-13895 }, { 166,-13895 }, { 167,-13895 }, { 168,-13895 },
- { 169,-13895 }, { 170,-13895 }, { 171,-13895 }, { 172,-13895 }, { 173,-13895 },
- { 174,-13895 }, { 175,-13895 }, { 176,-13895 }, { 177,-13895 }, { 178,-13895 },
- { 179,-13895 }, { 180,-13895 }, { 181,-13895 }, { 182,-13895 }, { 183,-13895 },
- { 184,-13895 }, { 185,-13895 }, { 186,-13895 }, { 187,-13895 }, { 188,-13895 },
- { 189,-13895 }, { 190,-13895 }, { 191,-13895 }, { 192,-13895 }, { 193,-13895 },
- { 194,-13895 }, { 195,-13895 }, { 196,-13895 }, { 197,-13895 }, { 198,-13895 },
- { 199,-13895 }, { 200,-13895 }, { 201,-13895 }, { 202,-13895 }, { 203,-13895 },
- { 204,-13895 }, { 205,-13895 }, { 206,-13895 }, { 207,-13895 }, { 208,-13895 },
- { 209,-13895 }, { 210,-13895 }, { 211,-13895 }, { 212,-13895 }, { 213,-13895 },
-
- { 214,-13895 }, { 215,-13895 }, { 216,-13895 }, { 217,-13895 }, { 218,-13895 },
- { 219,-13895 }, { 220,-13895 }, { 221,-13895 }, { 222,-13895 }, { 223,-13895 },
- { 224,-13895 }, { 225,-13895 }, { 226,-13895 }, { 227,-13895 }, { 228,-13895 },
- { 229,-13895 }, { 230,-13895 }, { 231,-13895 }, { 232,-13895 }, { 233,-13895 },
- { 234,-13895 }, { 235,-13895 }, { 236,-13895 }, { 237,-13895 }, { 238,-13895 },
- { 239,-13895 }, { 240,-13895 }, { 241,-13895 }, { 242,-13895 }, { 243,-13895 },
- { 244,-13895 }, { 245,-13895 }, { 246,-13895 }, { 247,-13895 }, { 248,-13895 },
- { 249,-13895 }, { 250,-13895 }, { 251,-13895 }, { 252,-13895 }, { 253,-13895 },
- { 254,-13895 }, { 255,-13895 }, { 256,-13895 }, {   0,   0 }, {   0, 660 },
- {   0,   0 }, {   0, 658 }, {   0,   0 }, {   0, 656 }, {   0,   0 },
-
- {   0, 654 }, {   0,  26 }, {   0, 652 }, {   9,   2 }, {  10,   2 },
- {   9,   0 }, {  10,   0 }, {  13,   2 }, {   0,   0 }, {  13,   0 },
- {   0,   0 }, {   0, 643 }, {   0,  24 }, {   0, 641 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,   2 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0, 608 }, {   0,   0 }, {   0, 606 }, {   0,  46 },
-
- {   0, 604 }, {   0,   9 }, {   0, 602 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 },
- { 126,   6 }, { 125,   2 }, { 126,   4 }, { 125,  15 }, {   0,   0 },
- { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,  35 }, {   0,   0 }, {   0, 516 }, {   1,-14297 },
- {   2,-14297 }, {   3,-14297 }, {   4,-14297 }, {   5,-14297 }, {   6,-14297 },
- {   7,-14297 }, {   8,-14297 }, {   9,-14418 }, {  10,-14418 }, {  11,-14297 },
-
- {  12,-14297 }, {  13,-14418 }, {  14,-14297 }, {  15,-14297 }, {  16,-14297 },
- {  17,-14297 }, {  18,-14297 }, {  19,-14297 }, {  20,-14297 }, {  21,-14297 },
- {  22,-14297 }, {  23,-14297 }, {  24,-14297 }, {  25,-14297 }, {  26,-14297 },
- {  27,-14297 }, {  28,-14297 }, {  29,-14297 }, {  30,-14297 }, {  31,-14297 },
- {  32,-14418 }, { 125,   2 }, {   0,   0 }, { 125,   4 }, {  36,-14297 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-14418 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-14297 }, {  46,-14418 },
- {  47,-14418 }, {  48,-14297 }, {  49,-14297 }, {  50,-14297 }, {  51,-14297 },
- {  52,-14297 }, {  53,-14297 }, {  54,-14297 }, {  55,-14297 }, {  56,-14297 },
- {  57,-14297 }, {  58,-14297 }, {   0,   0 }, {   0,   0 }, {  61,-14418 },
-
- {   0,   0 }, {  63,-14297 }, {   0,   0 }, {  65,-14297 }, {  66,-14297 },
- {  67,-14297 }, {  68,-14297 }, {  69,-14297 }, {  70,-14297 }, {  71,-14297 },
- {  72,-14297 }, {  73,-14297 }, {  74,-14297 }, {  75,-14297 }, {  76,-14297 },
- {  77,-14297 }, {  78,-14297 }, {  79,-14297 }, {  80,-14297 }, {  81,-14297 },
- {  82,-14297 }, {  83,-14297 }, {  84,-14297 }, {  85,-14297 }, {  86,-14297 },
- {  87,-14297 }, {  88,-14297 }, {  89,-14297 }, {  90,-14297 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-14297 }, {   0,   0 },
- {  97,-14297 }, {  98,-14297 }, {  99,-14297 }, { 100, 258 }, { 101,-14297 },
- { 102,-14297 }, { 103,-14297 }, { 104,-14297 }, { 105,-14297 }, { 106,-14297 },
- { 107,-14297 }, { 108,-14297 }, { 109,-14297 }, { 110,-14297 }, { 111,-14297 },
-
- { 112,-14297 }, { 113,-14297 }, { 114,-14297 }, { 115,-14297 }, { 116,-14297 },
- { 117,-14297 }, { 118,-14297 }, { 119,-14297 }, { 120,-14297 }, { 121,-14297 },
- { 122,-14297 }, {   0,   0 }, { 124,-14418 }, { 125,-14418 }, { 126,-14418 },
- { 127,-14297 }, { 128,-14297 }, { 129,-14297 }, { 130,-14297 }, { 131,-14297 },
- { 132,-14297 }, { 133,-14297 }, { 134,-14297 }, { 135,-14297 }, { 136,-14297 },
- { 137,-14297 }, { 138,-14297 }, { 139,-14297 }, { 140,-14297 }, { 141,-14297 },
- { 142,-14297 }, { 143,-14297 }, { 144,-14297 }, { 145,-14297 }, { 146,-14297 },
- { 147,-14297 }, { 148,-14297 }, { 149,-14297 }, { 150,-14297 }, { 151,-14297 },
- { 152,-14297 }, { 153,-14297 }, { 154,-14297 }, { 155,-14297 }, { 156,-14297 },
- { 157,-14297 }, { 158,-14297 }, { 159,-14297 }, { 160,-14297 }, { 161,-14297 },
-
- { 162,-14297 }, { 163,-14297 }, { 164,-14297 }, { 165,-14297 }, { 166,-14297 },
- { 167,-14297 }, { 168,-14297 }, { 169,-14297 }, { 170,-14297 }, { 171,-14297 },
- { 172,-14297 }, { 173,-14297 }, { 174,-14297 }, { 175,-14297 }, { 176,-14297 },
- { 177,-14297 }, { 178,-14297 }, { 179,-14297 }, { 180,-14297 }, { 181,-14297 },
- { 182,-14297 }, { 183,-14297 }, { 184,-14297 }, { 185,-14297 }, { 186,-14297 },
- { 187,-14297 }, { 188,-14297 }, { 189,-14297 }, { 190,-14297 }, { 191,-14297 },
- { 192,-14297 }, { 193,-14297 }, { 194,-14297 }, { 195,-14297 }, { 196,-14297 },
- { 197,-14297 }, { 198,-14297 }, { 199,-14297 }, { 200,-14297 }, { 201,-14297 },
- { 202,-14297 }, { 203,-14297 }, { 204,-14297 }, { 205,-14297 }, { 206,-14297 },
- { 207,-14297 }, { 208,-14297 }, { 209,-14297 }, { 210,-14297 }, { 211,-14297 },
-
- { 212,-14297 }, { 213,-14297 }, { 214,-14297 }, { 215,-14297 }, { 216,-14297 },
- { 217,-14297 }, { 218,-14297 }, { 219,-14297 }, { 220,-14297 }, { 221,-14297 },
- { 222,-14297 }, { 223,-14297 }, { 224,-14297 }, { 225,-14297 }, { 226,-14297 },
- { 227,-14297 }, { 228,-14297 }, { 229,-14297 }, { 230,-14297 }, { 231,-14297 },
- { 232,-14297 }, { 233,-14297 }, { 234,-14297 }, { 235,-14297 }, { 236,-14297 },
- { 237,-14297 }, { 238,-14297 }, { 239,-14297 }, { 240,-14297 }, { 241,-14297 },
- { 242,-14297 }, { 243,-14297 }, { 244,-14297 }, { 245,-14297 }, { 246,-14297 },
- { 247,-14297 }, { 248,-14297 }, { 249,-14297 }, { 250,-14297 }, { 251,-14297 },
- { 252,-14297 }, { 253,-14297 }, { 254,-14297 }, { 255,-14297 }, { 256,-14297 },
- {   0,   0 }, {   0, 258 }, {   1,-14555 }, {   2,-14555 }, {   3,-14555 },
-
- {   4,-14555 }, {   5,-14555 }, {   6,-14555 }, {   7,-14555 }, {   8,-14555 },
- {   9,-346 }, {  10,-346 }, {  11,-14555 }, {  12,-14555 }, {  13,-346 },
- {  14,-14555 }, {  15,-14555 }, {  16,-14555 }, {  17,-14555 }, {  18,-14555 },
- {  19,-14555 }, {  20,-14555 }, {  21,-14555 }, {  22,-14555 }, {  23,-14555 },
- {  24,-14555 }, {  25,-14555 }, {  26,-14555 }, {  27,-14555 }, {  28,-14555 },
- {  29,-14555 }, {  30,-14555 }, {  31,-14555 }, {  32,-346 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-14555 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-346 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-14555 }, {  46,-14676 }, {  47,-14676 }, {  48,-14555 },
- {  49,-14555 }, {  50,-14555 }, {  51,-14555 }, {  52,-14555 }, {  53,-14555 },
-
- {  54,-14555 }, {  55,-14555 }, {  56,-14555 }, {  57,-14555 }, {  58,-14555 },
- {   0,   0 }, {   0,   0 }, {  61,-14676 }, {   0,   0 }, {  63,-14555 },
- {   0,   0 }, {  65,-14555 }, {  66,-14555 }, {  67,-14555 }, {  68,-14555 },
- {  69,-14555 }, {  70,-14555 }, {  71,-14555 }, {  72,-14555 }, {  73,-14555 },
- {  74,-14555 }, {  75,-14555 }, {  76,-14555 }, {  77,-14555 }, {  78,-14555 },
- {  79,-14555 }, {  80,-14555 }, {  81,-14555 }, {  82,-14555 }, {  83,-14555 },
- {  84,-14555 }, {  85,-14555 }, {  86,-14555 }, {  87,-14555 }, {  88,-14555 },
- {  89,-14555 }, {  90,-14555 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-14555 }, {   0,   0 }, {  97,-14555 }, {  98,-14555 },
- {  99,-14555 }, { 100,-14555 }, { 101,-14555 }, { 102,-14555 }, { 103,-14555 },
-
- { 104,-14555 }, { 105,-14555 }, { 106,-14555 }, { 107,-14555 }, { 108,-14555 },
- { 109,-14555 }, { 110,-14555 }, { 111,-14555 }, { 112,-14555 }, { 113,-14555 },
- { 114,-14555 }, { 115,-14555 }, { 116,-14555 }, { 117,-14555 }, { 118,-14555 },
- { 119,-14555 }, { 120,-14555 }, { 121,-14555 }, { 122,-14555 }, {   0,   0 },
- { 124,-14676 }, { 125,-346 }, { 126,-346 }, { 127,-14555 }, { 128,-14555 },
- { 129,-14555 }, { 130,-14555 }, { 131,-14555 }, { 132,-14555 }, { 133,-14555 },
- { 134,-14555 }, { 135,-14555 }, { 136,-14555 }, { 137,-14555 }, { 138,-14555 },
- { 139,-14555 }, { 140,-14555 }, { 141,-14555 }, { 142,-14555 }, { 143,-14555 },
- { 144,-14555 }, { 145,-14555 }, { 146,-14555 }, { 147,-14555 }, { 148,-14555 },
- { 149,-14555 }, { 150,-14555 }, { 151,-14555 }, { 152,-14555 }, { 153,-14555 },
-
- { 154,-14555 }, { 155,-14555 }, { 156,-14555 }, { 157,-14555 }, { 158,-14555 },
- { 159,-14555 }, { 160,-14555 }, { 161,-14555 }, { 162,-14555 }, { 163,-14555 },
- { 164,-14555 }, { 165,-14555 }, { 166,-14555 }, { 167,-14555 }, { 168,-14555 },
- { 169,-14555 }, { 170,-14555 }, { 171,-14555 }, { 172,-14555 }, { 173,-14555 },
- { 174,-14555 }, { 175,-14555 }, { 176,-14555 }, { 177,-14555 }, { 178,-14555 },
- { 179,-14555 }, { 180,-14555 }, { 181,-14555 }, { 182,-14555 }, { 183,-14555 },
- { 184,-14555 }, { 185,-14555 }, { 186,-14555 }, { 187,-14555 }, { 188,-14555 },
- { 189,-14555 }, { 190,-14555 }, { 191,-14555 }, { 192,-14555 }, { 193,-14555 },
- { 194,-14555 }, { 195,-14555 }, { 196,-14555 }, { 197,-14555 }, { 198,-14555 },
- { 199,-14555 }, { 200,-14555 }, { 201,-14555 }, { 202,-14555 }, { 203,-14555 },
-
- { 204,-14555 }, { 205,-14555 }, { 206,-14555 }, { 207,-14555 }, { 208,-14555 },
- { 209,-14555 }, { 210,-14555 }, { 211,-14555 }, { 212,-14555 }, { 213,-14555 },
- { 214,-14555 }, { 215,-14555 }, { 216,-14555 }, { 217,-14555 }, { 218,-14555 },
- { 219,-14555 }, { 220,-14555 }, { 221,-14555 }, { 222,-14555 }, { 223,-14555 },
- { 224,-14555 }, { 225,-14555 }, { 226,-14555 }, { 227,-14555 }, { 228,-14555 },
- { 229,-14555 }, { 230,-14555 }, { 231,-14555 }, { 232,-14555 }, { 233,-14555 },
- { 234,-14555 }, { 235,-14555 }, { 236,-14555 }, { 237,-14555 }, { 238,-14555 },
- { 239,-14555 }, { 240,-14555 }, { 241,-14555 }, { 242,-14555 }, { 243,-14555 },
- { 244,-14555 }, { 245,-14555 }, { 246,-14555 }, { 247,-14555 }, { 248,-14555 },
- { 249,-14555 }, { 250,-14555 }, { 251,-14555 }, { 252,-14555 }, { 253,-14555 },
-
- { 254,-14555 }, { 255,-14555 }, { 256,-14555 }, { 257,  53 }, {   1,   0 },
-    };
+ { 115,-14067 }, { 116,-14067 }, { 117,-14067 }, { 118,-14067 }, { 119,-14067 },
+ { 120,-14067 }, { 121,-14067 }, { 122,-14067 }, {   0,   0 }, { 124,-14092 },
+ { 125,-14092 }, { 126,-14092 }, { 127,-14067 }, { 128,-14067 }, { 129,-14067 },
+ { 130,-14067 }, { 131,-14067 }, { 132,-14067 }, { 133,-14067 }, { 134,-14067 },
+ { 135,-14067 }, { 136,-14067 }, { 137,-14067 }, { 138,-14067 }, { 139,-14067 },
+ { 140,-14067 }, { 141,-14067 }, { 142,-14067 }, { 143,-14067 }, { 144,-14067 },
+ { 145,-14067 }, { 146,-14067 }, { 147,-14067 }, { 148,-14067 }, { 149,-14067 },
+ { 150,-14067 }, { 151,-14067 }, { 152,-14067 }, { 153,-14067 }, { 154,-14067 },
+ { 155,-14067 }, { 156,-14067 }, { 157,-14067 }, { 158,-14067 }, { 159,-14067 },
+ { 160,-14067 }, { 161,-14067 }, { 162,-14067 }, { 163,-14067 }, { 164,-14067 },
+
+ { 165,-14067 }, { 166,-14067 }, { 167,-14067 }, { 168,-14067 }, { 169,-14067 },
+ { 170,-14067 }, { 171,-14067 }, { 172,-14067 }, { 173,-14067 }, { 174,-14067 },
+ { 175,-14067 }, { 176,-14067 }, { 177,-14067 }, { 178,-14067 }, { 179,-14067 },
+ { 180,-14067 }, { 181,-14067 }, { 182,-14067 }, { 183,-14067 }, { 184,-14067 },
+ { 185,-14067 }, { 186,-14067 }, { 187,-14067 }, { 188,-14067 }, { 189,-14067 },
+ { 190,-14067 }, { 191,-14067 }, { 192,-14067 }, { 193,-14067 }, { 194,-14067 },
+ { 195,-14067 }, { 196,-14067 }, { 197,-14067 }, { 198,-14067 }, { 199,-14067 },
+ { 200,-14067 }, { 201,-14067 }, { 202,-14067 }, { 203,-14067 }, { 204,-14067 },
+ { 205,-14067 }, { 206,-14067 }, { 207,-14067 }, { 208,-14067 }, { 209,-14067 },
+ { 210,-14067 }, { 211,-14067 }, { 212,-14067 }, { 213,-14067 }, { 214,-14067 },
+
+ { 215,-14067 }, { 216,-14067 }, { 217,-14067 }, { 218,-14067 }, { 219,-14067 },
+ { 220,-14067 }, { 221,-14067 }, { 222,-14067 }, { 223,-14067 }, { 224,-14067 },
+ { 225,-14067 }, { 226,-14067 }, { 227,-14067 }, { 228,-14067 }, { 229,-14067 },
+ { 230,-14067 }, { 231,-14067 }, { 232,-14067 }, { 233,-14067 }, { 234,-14067 },
+ { 235,-14067 }, { 236,-14067 }, { 237,-14067 }, { 238,-14067 }, { 239,-14067 },
+ { 240,-14067 }, { 241,-14067 }, { 242,-14067 }, { 243,-14067 }, { 244,-14067 },
+ { 245,-14067 }, { 246,-14067 }, { 247,-14067 }, { 248,-14067 }, { 249,-14067 },
+ { 250,-14067 }, { 251,-14067 }, { 252,-14067 }, { 253,-14067 }, { 254,-14067 },
+ { 255,-14067 }, { 256,-14067 }, {   0,   0 }, {   0, 660 }, {   0,   0 },
+ {   0, 658 }, {   0,   0 }, {   0, 656 }, {   0,   0 }, {   0, 654 },
+
+ {   0,  26 }, {   0, 652 }, {   9,   2 }, {  10,   2 }, {   9,   0 },
+ {  10,   0 }, {  13,   2 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
+ {   0, 643 }, {   0,  24 }, {   0, 641 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,   2 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0, 608 }, {   0,   0 }, {   0, 606 }, {   0,  46 }, {   0, 604 },
+
+ {   0,   9 }, {   0, 602 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 }, { 126,   6 },
+ { 125,   2 }, { 126,   4 }, { 125,  15 }, {   0,   0 }, { 125,  -2 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 125,  35 }, {   0,   0 }, {   0, 516 }, {   1,-14469 }, {   2,-14469 },
+ {   3,-14469 }, {   4,-14469 }, {   5,-14469 }, {   6,-14469 }, {   7,-14469 },
+ {   8,-14469 }, {   9,-14494 }, {  10,-14494 }, {  11,-14469 }, {  12,-14469 },
+
+ {  13,-14494 }, {  14,-14469 }, {  15,-14469 }, {  16,-14469 }, {  17,-14469 },
+ {  18,-14469 }, {  19,-14469 }, {  20,-14469 }, {  21,-14469 }, {  22,-14469 },
+ {  23,-14469 }, {  24,-14469 }, {  25,-14469 }, {  26,-14469 }, {  27,-14469 },
+ {  28,-14469 }, {  29,-14469 }, {  30,-14469 }, {  31,-14469 }, {  32,-14494 },
+ { 125,   2 }, {   0,   0 }, { 125,   4 }, {  36,-14469 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-14494 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-14469 }, {  46,-14494 }, {  47,-14494 },
+ {  48,-14469 }, {  49,-14469 }, {  50,-14469 }, {  51,-14469 }, {  52,-14469 },
+ {  53,-14469 }, {  54,-14469 }, {  55,-14469 }, {  56,-14469 }, {  57,-14469 },
+ {  58,-14469 }, {   0,   0 }, {   0,   0 }, {  61,-14494 }, {   0,   0 },
+
+ {  63,-14469 }, {   0,   0 }, {  65,-14469 }, {  66,-14469 }, {  67,-14469 },
+ {  68,-14469 }, {  69,-14469 }, {  70,-14469 }, {  71,-14469 }, {  72,-14469 },
+ {  73,-14469 }, {  74,-14469 }, {  75,-14469 }, {  76,-14469 }, {  77,-14469 },
+ {  78,-14469 }, {  79,-14469 }, {  80,-14469 }, {  81,-14469 }, {  82,-14469 },
+ {  83,-14469 }, {  84,-14469 }, {  85,-14469 }, {  86,-14469 }, {  87,-14469 },
+ {  88,-14469 }, {  89,-14469 }, {  90,-14469 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-14469 }, {   0,   0 }, {  97,-14469 },
+ {  98,-14469 }, {  99,-14469 }, { 100, 258 }, { 101,-14469 }, { 102,-14469 },
+ { 103,-14469 }, { 104,-14469 }, { 105,-14469 }, { 106,-14469 }, { 107,-14469 },
+ { 108,-14469 }, { 109,-14469 }, { 110,-14469 }, { 111,-14469 }, { 112,-14469 },
+
+ { 113,-14469 }, { 114,-14469 }, { 115,-14469 }, { 116,-14469 }, { 117,-14469 },
+ { 118,-14469 }, { 119,-14469 }, { 120,-14469 }, { 121,-14469 }, { 122,-14469 },
+ {   0,   0 }, { 124,-14494 }, { 125,-14494 }, { 126,-14494 }, { 127,-14469 },
+ { 128,-14469 }, { 129,-14469 }, { 130,-14469 }, { 131,-14469 }, { 132,-14469 },
+ { 133,-14469 }, { 134,-14469 }, { 135,-14469 }, { 136,-14469 }, { 137,-14469 },
+ { 138,-14469 }, { 139,-14469 }, { 140,-14469 }, { 141,-14469 }, { 142,-14469 },
+ { 143,-14469 }, { 144,-14469 }, { 145,-14469 }, { 146,-14469 }, { 147,-14469 },
+ { 148,-14469 }, { 149,-14469 }, { 150,-14469 }, { 151,-14469 }, { 152,-14469 },
+ { 153,-14469 }, { 154,-14469 }, { 155,-14469 }, { 156,-14469 }, { 157,-14469 },
+ { 158,-14469 }, { 159,-14469 }, { 160,-14469 }, { 161,-14469 }, { 162,-14469 },
+
+ { 163,-14469 }, { 164,-14469 }, { 165,-14469 }, { 166,-14469 }, { 167,-14469 },
+ { 168,-14469 }, { 169,-14469 }, { 170,-14469 }, { 171,-14469 }, { 172,-14469 },
+ { 173,-14469 }, { 174,-14469 }, { 175,-14469 }, { 176,-14469 }, { 177,-14469 },
+ { 178,-14469 }, { 179,-14469 }, { 180,-14469 }, { 181,-14469 }, { 182,-14469 },
+ { 183,-14469 }, { 184,-14469 }, { 185,-14469 }, { 186,-14469 }, { 187,-14469 },
+ { 188,-14469 }, { 189,-14469 }, { 190,-14469 }, { 191,-14469 }, { 192,-14469 },
+ { 193,-14469 }, { 194,-14469 }, { 195,-14469 }, { 196,-14469 }, { 197,-14469 },
+ { 198,-14469 }, { 199,-14469 }, { 200,-14469 }, { 201,-14469 }, { 202,-14469 },
+ { 203,-14469 }, { 204,-14469 }, { 205,-14469 }, { 206,-14469 }, { 207,-14469 },
+ { 208,-14469 }, { 209,-14469 }, { 210,-14469 }, { 211,-14469 }, { 212,-14469 },
+
+ { 213,-14469 }, { 214,-14469 }, { 215,-14469 }, { 216,-14469 }, { 217,-14469 },
+ { 218,-14469 }, { 219,-14469 }, { 220,-14469 }, { 221,-14469 }, { 222,-14469 },
+ { 223,-14469 }, { 224,-14469 }, { 225,-14469 }, { 226,-14469 }, { 227,-14469 },
+ { 228,-14469 }, { 229,-14469 }, { 230,-14469 }, { 231,-14469 }, { 232,-14469 },
+ { 233,-14469 }, { 234,-14469 }, { 235,-14469 }, { 236,-14469 }, { 237,-14469 },
+ { 238,-14469 }, { 239,-14469 }, { 240,-14469 }, { 241,-14469 }, { 242,-14469 },
+ { 243,-14469 }, { 244,-14469 }, { 245,-14469 }, { 246,-14469 }, { 247,-14469 },
+ { 248,-14469 }, { 249,-14469 }, { 250,-14469 }, { 251,-14469 }, { 252,-14469 },
+ { 253,-14469 }, { 254,-14469 }, { 255,-14469 }, { 256,-14469 }, {   0,   0 },
+ {   0, 258 }, {   1,-14727 }, {   2,-14727 }, {   3,-14727 }, {   4,-14727 },
+
+ {   5,-14727 }, {   6,-14727 }, {   7,-14727 }, {   8,-14727 }, {   9,-346 },
+ {  10,-346 }, {  11,-14727 }, {  12,-14727 }, {  13,-346 }, {  14,-14727 },
+ {  15,-14727 }, {  16,-14727 }, {  17,-14727 }, {  18,-14727 }, {  19,-14727 },
+ {  20,-14727 }, {  21,-14727 }, {  22,-14727 }, {  23,-14727 }, {  24,-14727 },
+ {  25,-14727 }, {  26,-14727 }, {  27,-14727 }, {  28,-14727 }, {  29,-14727 },
+ {  30,-14727 }, {  31,-14727 }, {  32,-346 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-14727 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-346 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-14727 }, {  46,-14752 }, {  47,-14752 }, {  48,-14727 }, {  49,-14727 },
+ {  50,-14727 }, {  51,-14727 }, {  52,-14727 }, {  53,-14727 }, {  54,-14727 },
+
+ {  55,-14727 }, {  56,-14727 }, {  57,-14727 }, {  58,-14727 }, {   0,   0 },
+ {   0,   0 }, {  61,-14752 }, {   0,   0 }, {  63,-14727 }, {   0,   0 },
+ {  65,-14727 }, {  66,-14727 }, {  67,-14727 }, {  68,-14727 }, {  69,-14727 },
+ {  70,-14727 }, {  71,-14727 }, {  72,-14727 }, {  73,-14727 }, {  74,-14727 },
+ {  75,-14727 }, {  76,-14727 }, {  77,-14727 }, {  78,-14727 }, {  79,-14727 },
+ {  80,-14727 }, {  81,-14727 }, {  82,-14727 }, {  83,-14727 }, {  84,-14727 },
+ {  85,-14727 }, {  86,-14727 }, {  87,-14727 }, {  88,-14727 }, {  89,-14727 },
+ {  90,-14727 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-14727 }, {   0,   0 }, {  97,-14727 }, {  98,-14727 }, {  99,-14727 },
+ { 100,-14727 }, { 101,-14727 }, { 102,-14727 }, { 103,-14727 }, { 104,-14727 },
+
+ { 105,-14727 }, { 106,-14727 }, { 107,-14727 }, { 108,-14727 }, { 109,-14727 },
+ { 110,-14727 }, { 111,-14727 }, { 112,-14727 }, { 113,-14727 }, { 114,-14727 },
+ { 115,-14727 }, { 116,-14727 }, { 117,-14727 }, { 118,-14727 }, { 119,-14727 },
+ { 120,-14727 }, { 121,-14727 }, { 122,-14727 }, {   0,   0 }, { 124,-14752 },
+ { 125,-346 }, { 126,-346 }, { 127,-14727 }, { 128,-14727 }, { 129,-14727 },
+ { 130,-14727 }, { 131,-14727 }, { 132,-14727 }, { 133,-14727 }, { 134,-14727 },
+ { 135,-14727 }, { 136,-14727 }, { 137,-14727 }, { 138,-14727 }, { 139,-14727 },
+ { 140,-14727 }, { 141,-14727 }, { 142,-14727 }, { 143,-14727 }, { 144,-14727 },
+ { 145,-14727 }, { 146,-14727 }, { 147,-14727 }, { 148,-14727 }, { 149,-14727 },
+ { 150,-14727 }, { 151,-14727 }, { 152,-14727 }, { 153,-14727 }, { 154,-14727 },
+
+ { 155,-14727 }, { 156,-14727 }, { 157,-14727 }, { 158,-14727 }, { 159,-14727 },
+ { 160,-14727 }, { 161,-14727 }, { 162,-14727 }, { 163,-14727 }, { 164,-14727 },
+ { 165,-14727 }, { 166,-14727 }, { 167,-14727 }, { 168,-14727 }, { 169,-14727 },
+ { 170,-14727 }, { 171,-14727 }, { 172,-14727 }, { 173,-14727 }, { 174,-14727 },
+ { 175,-14727 }, { 176,-14727 }, { 177,-14727 }, { 178,-14727 }, { 179,-14727 },
+ { 180,-14727 }, { 181,-14727 }, { 182,-14727 }, { 183,-14727 }, { 184,-14727 },
+ { 185,-14727 }, { 186,-14727 }, { 187,-14727 }, { 188,-14727 }, { 189,-14727 },
+ { 190,-14727 }, { 191,-14727 }, { 192,-14727 }, { 193,-14727 }, { 194,-14727 },
+ { 195,-14727 }, { 196,-14727 }, { 197,-14727 }, { 198,-14727 }, { 199,-14727 },
+ { 200,-14727 }, { 201,-14727 }, { 202,-14727 }, { 203,-14727 }, { 204,-14727 },
+
+ { 205,-14727 }, { 206,-14727 }, { 207,-14727 }, { 208,-14727 }, { 209,-14727 },
+ { 210,-14727 }, { 211,-14727 }, { 212,-14727 }, { 213,-14727 }, { 214,-14727 },
+ { 215,-14727 }, { 216,-14727 }, { 217,-14727 }, { 218,-14727 }, { 219,-14727 },
+ { 220,-14727 }, { 221,-14727 }, { 222,-14727 }, { 223,-14727 }, { 224,-14727 },
+ { 225,-14727 }, { 226,-14727 }, { 227,-14727 }, { 228,-14727 }, { 229,-14727 },
+ { 230,-14727 }, { 231,-14727 }, { 232,-14727 }, { 233,-14727 }, { 234,-14727 },
+ { 235,-14727 }, { 236,-14727 }, { 237,-14727 }, { 238,-14727 }, { 239,-14727 },
+ { 240,-14727 }, { 241,-14727 }, { 242,-14727 }, { 243,-14727 }, { 244,-14727 },
+ { 245,-14727 }, { 246,-14727 }, { 247,-14727 }, { 248,-14727 }, { 249,-14727 },
+ { 250,-14727 }, { 251,-14727 }, { 252,-14727 }, { 253,-14727 }, { 254,-14727 },
+
+ { 255,-14727 }, { 256,-14727 }, { 257,  53 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5712,6 +5755,7 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     &yy_transition[2325],
     &yy_transition[2583],
     &yy_transition[2841],
+
     } ;
 
 /* Table of booleans, true if rule could match eol. */
@@ -5805,7 +5849,7 @@ static const flex_int32_t yy_rule_can_match_eol[53] =
 #define handlebars_yy_unput_n(n) \
 	do { \
 		int i; \
- 		char * yycopy = MC(handlebars_talloc_strndup(yyextra, yytext, yyleng)); \
+ 		char * yycopy = MC(talloc_memdup(yyextra, yytext, yyleng)); \
 		for ( i = yyleng - 1; i >= yyleng - n && i >= 0; --i ) { \
 			unput( yycopy[i] ); \
 		} \
@@ -5821,9 +5865,9 @@ static const flex_int32_t yy_rule_can_match_eol[53] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5824 "handlebars.lex.c"
+#line 5868 "handlebars.lex.c"
 
-#line 5826 "handlebars.lex.c"
+#line 5870 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -6106,7 +6150,7 @@ YY_DECL
 
 
 
-#line 6109 "handlebars.lex.c"
+#line 6153 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -6734,7 +6778,7 @@ YY_RULE_SETUP
 #line 491 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6737 "handlebars.lex.c"
+#line 6781 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
-- 
2.43.0


From 60e4da4e1b8a60577cfd644d75332391b669dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:36 +0000
Subject: [PATCH 43/99] fix: whitespace in {{^ }}, {{ else if}} and before
 block parameters

\s is the letter s to flex, and only one whitespace character was accepted
between "as" and the bar.
---
 src/handlebars.l     |    6 +-
 src/handlebars.lex.c | 3897 +++++++++++++++++++++---------------------
 2 files changed, 1944 insertions(+), 1959 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index b84daaf..1d22226 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -293,7 +293,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_ENDBLOCK;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?"^"\s*{RIGHT_STRIP}?"}}"        {
+<mu>"{{"{LEFT_STRIP}?"^"{WHITESPACE}*{RIGHT_STRIP}?"}}"        {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
 										handlebars_yy_copy_lval();
@@ -313,7 +313,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_INVERSE;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?\s*"else"   	{
+<mu>"{{"{LEFT_STRIP}?{WHITESPACE}*"else"   	{
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
@@ -418,7 +418,7 @@ BLOCKPARAM [\x7C]
 										return DATA;
 									}
 
-<mu>"as"{WHITESPACE}"|"				{
+<mu>"as"{WHITESPACE}+"|"				{
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 8055ae3..2ebfef7 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[23608] =
+static const struct yy_trans_info yy_transition[23530] =
     {
- {   0,   0 }, {   0,23352 }, {   0,   2 }, {   0,23350 }, {   1,3096 },
+ {   0,   0 }, {   0,23274 }, {   0,   2 }, {   0,23272 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3354 }, {  11,3096 },
  {  12,3096 }, {  13,3354 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[23608] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3096 },
- {   0,   2 }, {   0,23092 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,23014 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3096 }, {  11,2838 }, {  12,2838 }, {  13,3096 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,2838 }, {   0,   0 }, {   0,22834 },
+ { 254,2838 }, { 255,2838 }, { 256,2838 }, {   0,   0 }, {   0,22756 },
  {   1,3225 }, {   2,3225 }, {   3,3225 }, {   4,3225 }, {   5,3225 },
  {   6,3225 }, {   7,3225 }, {   8,3225 }, {   9,2844 }, {  10,2846 },
  {  11,3225 }, {  12,3225 }, {  13,2844 }, {  14,3225 }, {  15,3225 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 241,3225 }, { 242,3225 }, { 243,3225 }, { 244,3225 }, { 245,3225 },
  { 246,3225 }, { 247,3225 }, { 248,3225 }, { 249,3225 }, { 250,3225 },
  { 251,3225 }, { 252,3225 }, { 253,3225 }, { 254,3225 }, { 255,3225 },
- { 256,3225 }, {   0,   0 }, {   0,22576 }, {   1,2967 }, {   2,2967 },
+ { 256,3225 }, {   0,   0 }, {   0,22498 }, {   1,2967 }, {   2,2967 },
  {   3,2967 }, {   4,2967 }, {   5,2967 }, {   6,2967 }, {   7,2967 },
  {   8,2967 }, {   9,2586 }, {  10,2588 }, {  11,2967 }, {  12,2967 },
  {  13,2586 }, {  14,2967 }, {  15,2967 }, {  16,2967 }, {  17,2967 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 243,2967 }, { 244,2967 }, { 245,2967 }, { 246,2967 }, { 247,2967 },
  { 248,2967 }, { 249,2967 }, { 250,2967 }, { 251,2967 }, { 252,2967 },
  { 253,2967 }, { 254,2967 }, { 255,2967 }, { 256,2967 }, {   0,   0 },
- {   0,22318 }, {   1,3794 }, {   2,3794 }, {   3,3794 }, {   4,3794 },
+ {   0,22240 }, {   1,3794 }, {   2,3794 }, {   3,3794 }, {   4,3794 },
  {   5,3794 }, {   6,3794 }, {   7,3794 }, {   8,3794 }, {   9,3794 },
  {  10,3796 }, {  11,3794 }, {  12,3794 }, {  13,3794 }, {  14,3794 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 240,3794 }, { 241,3794 }, { 242,3794 }, { 243,3794 }, { 244,3794 },
  { 245,3794 }, { 246,3794 }, { 247,3794 }, { 248,3794 }, { 249,3794 },
  { 250,3794 }, { 251,3794 }, { 252,3794 }, { 253,3794 }, { 254,3794 },
- { 255,3794 }, { 256,3794 }, {   0,   0 }, {   0,22060 }, {   1,3536 },
+ { 255,3794 }, { 256,3794 }, {   0,   0 }, {   0,21982 }, {   1,3536 },
  {   2,3536 }, {   3,3536 }, {   4,3536 }, {   5,3536 }, {   6,3536 },
 
  {   7,3536 }, {   8,3536 }, {   9,3536 }, {  10,3538 }, {  11,3536 },
@@ -942,7 +942,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 247,3536 }, { 248,3536 }, { 249,3536 }, { 250,3536 }, { 251,3536 },
  { 252,3536 }, { 253,3536 }, { 254,3536 }, { 255,3536 }, { 256,3536 },
 
- {   0,   0 }, {   0,21802 }, {   1,5113 }, {   2,5113 }, {   3,5113 },
+ {   0,   0 }, {   0,21724 }, {   1,5113 }, {   2,5113 }, {   3,5113 },
  {   4,5113 }, {   5,5113 }, {   6,5113 }, {   7,5113 }, {   8,5113 },
  {   9,5113 }, {  10,5113 }, {  11,5113 }, {  12,5113 }, {  13,5113 },
  {  14,5113 }, {  15,5113 }, {  16,5113 }, {  17,5113 }, {  18,5113 },
@@ -998,7 +998,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 244,5113 }, { 245,5113 }, { 246,5113 }, { 247,5113 }, { 248,5113 },
 
  { 249,5113 }, { 250,5113 }, { 251,5113 }, { 252,5113 }, { 253,5113 },
- { 254,5113 }, { 255,5113 }, { 256,5113 }, {   0,   0 }, {   0,21544 },
+ { 254,5113 }, { 255,5113 }, { 256,5113 }, {   0,   0 }, {   0,21466 },
  {   1,4855 }, {   2,4855 }, {   3,4855 }, {   4,4855 }, {   5,4855 },
  {   6,4855 }, {   7,4855 }, {   8,4855 }, {   9,4855 }, {  10,4855 },
  {  11,4855 }, {  12,4855 }, {  13,4855 }, {  14,4855 }, {  15,4855 },
@@ -1055,7 +1055,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 241,4855 }, { 242,4855 }, { 243,4855 }, { 244,4855 }, { 245,4855 },
  { 246,4855 }, { 247,4855 }, { 248,4855 }, { 249,4855 }, { 250,4855 },
  { 251,4855 }, { 252,4855 }, { 253,4855 }, { 254,4855 }, { 255,4855 },
- { 256,4855 }, {   0,   0 }, {   0,21286 }, {   1,5113 }, {   2,5113 },
+ { 256,4855 }, {   0,   0 }, {   0,21208 }, {   1,5113 }, {   2,5113 },
  {   3,5113 }, {   4,5113 }, {   5,5113 }, {   6,5113 }, {   7,5113 },
  {   8,5113 }, {   9,5113 }, {  10,5113 }, {  11,5113 }, {  12,5113 },
  {  13,5113 }, {  14,5113 }, {  15,5113 }, {  16,5113 }, {  17,5113 },
@@ -1112,7 +1112,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 243,5113 }, { 244,5113 }, { 245,5113 }, { 246,5113 }, { 247,5113 },
  { 248,5113 }, { 249,5113 }, { 250,5113 }, { 251,5113 }, { 252,5113 },
  { 253,5113 }, { 254,5113 }, { 255,5113 }, { 256,5113 }, {   0,   0 },
- {   0,21028 }, {   1,4855 }, {   2,4855 }, {   3,4855 }, {   4,4855 },
+ {   0,20950 }, {   1,4855 }, {   2,4855 }, {   3,4855 }, {   4,4855 },
  {   5,4855 }, {   6,4855 }, {   7,4855 }, {   8,4855 }, {   9,4855 },
  {  10,4855 }, {  11,4855 }, {  12,4855 }, {  13,4855 }, {  14,4855 },
  {  15,4855 }, {  16,4855 }, {  17,4855 }, {  18,4855 }, {  19,4855 },
@@ -1168,7 +1168,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 240,4855 }, { 241,4855 }, { 242,4855 }, { 243,4855 }, { 244,4855 },
  { 245,4855 }, { 246,4855 }, { 247,4855 }, { 248,4855 }, { 249,4855 },
  { 250,4855 }, { 251,4855 }, { 252,4855 }, { 253,4855 }, { 254,4855 },
- { 255,4855 }, { 256,4855 }, {   0,   0 }, {   0,20770 }, {   1,5113 },
+ { 255,4855 }, { 256,4855 }, {   0,   0 }, {   0,20692 }, {   1,5113 },
  {   2,5113 }, {   3,5113 }, {   4,5113 }, {   5,5113 }, {   6,5113 },
  {   7,5113 }, {   8,5113 }, {   9,5113 }, {  10,5113 }, {  11,5113 },
  {  12,5113 }, {  13,5113 }, {  14,5113 }, {  15,5113 }, {  16,5113 },
@@ -1225,7 +1225,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 242,5113 }, { 243,5113 }, { 244,5113 }, { 245,5113 }, { 246,5113 },
  { 247,5113 }, { 248,5113 }, { 249,5113 }, { 250,5113 }, { 251,5113 },
  { 252,5113 }, { 253,5113 }, { 254,5113 }, { 255,5113 }, { 256,5113 },
- {   0,   0 }, {   0,20512 }, {   1,4855 }, {   2,4855 }, {   3,4855 },
+ {   0,   0 }, {   0,20434 }, {   1,4855 }, {   2,4855 }, {   3,4855 },
  {   4,4855 }, {   5,4855 }, {   6,4855 }, {   7,4855 }, {   8,4855 },
 
  {   9,4855 }, {  10,4855 }, {  11,4855 }, {  12,4855 }, {  13,4855 },
@@ -1281,7 +1281,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 239,4855 }, { 240,4855 }, { 241,4855 }, { 242,4855 }, { 243,4855 },
  { 244,4855 }, { 245,4855 }, { 246,4855 }, { 247,4855 }, { 248,4855 },
  { 249,4855 }, { 250,4855 }, { 251,4855 }, { 252,4855 }, { 253,4855 },
- { 254,4855 }, { 255,4855 }, { 256,4855 }, {   0,   2 }, {   0,20254 },
+ { 254,4855 }, { 255,4855 }, { 256,4855 }, {   0,   2 }, {   0,20176 },
 
  {   1,4980 }, {   2,4980 }, {   3,4980 }, {   4,4980 }, {   5,4980 },
  {   6,4980 }, {   7,4980 }, {   8,4980 }, {   9,4980 }, {  10,4857 },
@@ -1339,13 +1339,13 @@ static const struct yy_trans_info yy_transition[23608] =
  { 246,4980 }, { 247,4980 }, { 248,4980 }, { 249,4980 }, { 250,4980 },
 
  { 251,4980 }, { 252,4980 }, { 253,4980 }, { 254,4980 }, { 255,4980 },
- { 256,4980 }, {   0,   2 }, {   0,19996 }, {   0,   6 }, {   0,19994 },
- {   0,   6 }, {   0,19992 }, {   0,  36 }, {   0,19990 }, {   0,  36 },
- {   0,19988 }, {   0,   0 }, {  10,4599 }, {   0,  51 }, {   0,19984 },
+ { 256,4980 }, {   0,   2 }, {   0,19918 }, {   0,   6 }, {   0,19916 },
+ {   0,   6 }, {   0,19914 }, {   0,  36 }, {   0,19912 }, {   0,  36 },
+ {   0,19910 }, {   0,   0 }, {  10,4599 }, {   0,  51 }, {   0,19906 },
  {  13,4599 }, {   0,   0 }, {   9,5263 }, {  10,5263 }, {   9,5261 },
  {  10,5261 }, {  13,5263 }, {   0,   0 }, {  13,5261 }, {   0,  15 },
- {   0,19973 }, {   0,  16 }, {   0,19971 }, {   0,  35 }, {   0,19969 },
- {   0,  32 }, {   0,19967 }, {   0,  41 }, {   0,19965 }, {   0,   0 },
+ {   0,19895 }, {   0,  16 }, {   0,19893 }, {   0,  35 }, {   0,19891 },
+ {   0,  32 }, {   0,19889 }, {   0,  41 }, {   0,19887 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  32,5263 }, {   0,   0 }, {  32,5261 }, {   0,   0 }, {   0,   0 },
 
@@ -1367,7 +1367,7 @@ static const struct yy_trans_info yy_transition[23608] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, { 123,4980 }, {   0,   0 }, { 123,4980 },
- {   0,   2 }, {   0,19867 }, {   1,4593 }, {   2,4593 }, {   3,4593 },
+ {   0,   2 }, {   0,19789 }, {   1,4593 }, {   2,4593 }, {   3,4593 },
  {   4,4593 }, {   5,4593 }, {   6,4593 }, {   7,4593 }, {   8,4593 },
  {   9,4593 }, {  10,4470 }, {  11,4593 }, {  12,4593 }, {  13,4470 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 239,4593 }, { 240,4593 }, { 241,4593 }, { 242,4593 }, { 243,4593 },
  { 244,4593 }, { 245,4593 }, { 246,4593 }, { 247,4593 }, { 248,4593 },
  { 249,4593 }, { 250,4593 }, { 251,4593 }, { 252,4593 }, { 253,4593 },
- { 254,4593 }, { 255,4593 }, { 256,4593 }, {   0,  51 }, {   0,19609 },
+ { 254,4593 }, { 255,4593 }, { 256,4593 }, {   0,  51 }, {   0,19531 },
  {   1,4624 }, {   2,4624 }, {   3,4624 }, {   4,4624 }, {   5,4624 },
 
  {   6,4624 }, {   7,4624 }, {   8,4624 }, {   9,4599 }, {  10,4599 },
@@ -1481,7 +1481,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 246,4624 }, { 247,4624 }, { 248,4624 }, { 249,4624 }, { 250,4624 },
  { 251,4624 }, { 252,4624 }, { 253,4624 }, { 254,4624 }, { 255,4624 },
 
- { 256,4624 }, {   0,  51 }, {   0,19351 }, {   1,4658 }, {   2,4658 },
+ { 256,4624 }, {   0,  51 }, {   0,19273 }, {   1,4658 }, {   2,4658 },
  {   3,4658 }, {   4,4658 }, {   5,4658 }, {   6,4658 }, {   7,4658 },
  {   8,4658 }, {   9,4658 }, {  10,4658 }, {  11,4658 }, {  12,4658 },
  {  13,4658 }, {  14,4658 }, {  15,4658 }, {  16,4658 }, {  17,4658 },
@@ -1538,7 +1538,7 @@ static const struct yy_trans_info yy_transition[23608] =
 
  { 248,4658 }, { 249,4658 }, { 250,4658 }, { 251,4658 }, { 252,4658 },
  { 253,4658 }, { 254,4658 }, { 255,4658 }, { 256,4658 }, {   0,  51 },
- {   0,19093 }, {   1,4916 }, {   2,4916 }, {   3,4916 }, {   4,4916 },
+ {   0,19015 }, {   1,4916 }, {   2,4916 }, {   3,4916 }, {   4,4916 },
  {   5,4916 }, {   6,4916 }, {   7,4916 }, {   8,4916 }, {   9,4916 },
  {  10,4916 }, {  11,4916 }, {  12,4916 }, {  13,4916 }, {  14,4916 },
  {  15,4916 }, {  16,4916 }, {  17,4916 }, {  18,4916 }, {  19,4916 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 240,4916 }, { 241,4916 }, { 242,4916 }, { 243,4916 }, { 244,4916 },
  { 245,4916 }, { 246,4916 }, { 247,4916 }, { 248,4916 }, { 249,4916 },
  { 250,4916 }, { 251,4916 }, { 252,4916 }, { 253,4916 }, { 254,4916 },
- { 255,4916 }, { 256,4916 }, {   0,  51 }, {   0,18835 }, {   1,3850 },
+ { 255,4916 }, { 256,4916 }, {   0,  51 }, {   0,18757 }, {   1,3850 },
  {   2,3850 }, {   3,3850 }, {   4,3850 }, {   5,3850 }, {   6,3850 },
  {   7,3850 }, {   8,3850 }, {   9,3825 }, {  10,3825 }, {  11,3850 },
  {  12,3850 }, {  13,3825 }, {  14,3850 }, {  15,3850 }, {  16,3850 },
@@ -1651,25 +1651,25 @@ static const struct yy_trans_info yy_transition[23608] =
  { 242,3850 }, { 243,3850 }, { 244,3850 }, { 245,3850 }, { 246,3850 },
  { 247,3850 }, { 248,3850 }, { 249,3850 }, { 250,3850 }, { 251,3850 },
  { 252,3850 }, { 253,3850 }, { 254,3850 }, { 255,3850 }, { 256,3850 },
- {   0,  35 }, {   0,18577 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,18499 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   9,3856 }, {  10,3856 }, {   0,   0 }, {   0,   0 }, {  13,3856 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18559 },
- {   0,  43 }, {   0,18557 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18481 },
+ {   0,  43 }, {   0,18479 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,3856 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,3856 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  46,3858 }, {  47,3856 }, {   0,  51 },
- {   0,18528 }, {   0,  51 }, {   0,18526 }, {   0,   7 }, {   0,18524 },
- {   0,  52 }, {   0,18522 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,18450 }, {   0,  51 }, {   0,18448 }, {   0,   7 }, {   0,18446 },
+ {   0,  52 }, {   0,18444 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  61,3856 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18495 }, {   1,3510 },
+ {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18417 }, {   1,3510 },
  {   2,3510 }, {   3,3510 }, {   4,3510 }, {   5,3510 }, {   6,3510 },
  {   7,3510 }, {   8,3510 }, {   9,3780 }, {  10,3780 }, {  11,3510 },
  {  12,3510 }, {  13,3780 }, {  14,3510 }, {  15,3510 }, {  16,3510 },
@@ -1726,7 +1726,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 242,3510 }, { 243,3510 }, { 244,3510 }, { 245,3510 }, { 246,3510 },
  { 247,3510 }, { 248,3510 }, { 249,3510 }, { 250,3510 }, { 251,3510 },
  { 252,3510 }, { 253,3510 }, { 254,3510 }, { 255,3510 }, { 256,3510 },
- {   0,  51 }, {   0,18237 }, {   1,4893 }, {   2,4893 }, {   3,4893 },
+ {   0,  51 }, {   0,18159 }, {   1,4893 }, {   2,4893 }, {   3,4893 },
  {   4,4893 }, {   5,4893 }, {   6,4893 }, {   7,4893 }, {   8,4893 },
  {   9,4893 }, {  10,4893 }, {  11,4893 }, {  12,4893 }, {  13,4893 },
  {  14,4893 }, {  15,4893 }, {  16,4893 }, {  17,4893 }, {  18,4893 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 239,4893 }, { 240,4893 }, { 241,4893 }, { 242,4893 }, { 243,4893 },
  { 244,4893 }, { 245,4893 }, { 246,4893 }, { 247,4893 }, { 248,4893 },
  { 249,4893 }, { 250,4893 }, { 251,4893 }, { 252,4893 }, { 253,4893 },
- { 254,4893 }, { 255,4893 }, { 256,4893 }, {   0,  51 }, {   0,17979 },
+ { 254,4893 }, { 255,4893 }, { 256,4893 }, {   0,  51 }, {   0,17901 },
  {   1,2994 }, {   2,2994 }, {   3,2994 }, {   4,2994 }, {   5,2994 },
  {   6,2994 }, {   7,2994 }, {   8,2994 }, {   9,2969 }, {  10,2969 },
  {  11,2994 }, {  12,2994 }, {  13,2969 }, {  14,2994 }, {  15,2994 },
@@ -1839,7 +1839,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 241,2994 }, { 242,2994 }, { 243,2994 }, { 244,2994 }, { 245,2994 },
  { 246,2994 }, { 247,2994 }, { 248,2994 }, { 249,2994 }, { 250,2994 },
  { 251,2994 }, { 252,2994 }, { 253,2994 }, { 254,2994 }, { 255,2994 },
- { 256,2994 }, {   0,  51 }, {   0,17721 }, {   1,2736 }, {   2,2736 },
+ { 256,2994 }, {   0,  51 }, {   0,17643 }, {   1,2736 }, {   2,2736 },
  {   3,2736 }, {   4,2736 }, {   5,2736 }, {   6,2736 }, {   7,2736 },
  {   8,2736 }, {   9,2711 }, {  10,2711 }, {  11,2736 }, {  12,2736 },
  {  13,2711 }, {  14,2736 }, {  15,2736 }, {  16,2736 }, {  17,2736 },
@@ -1896,7 +1896,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 243,2736 }, { 244,2736 }, { 245,2736 }, { 246,2736 }, { 247,2736 },
  { 248,2736 }, { 249,2736 }, { 250,2736 }, { 251,2736 }, { 252,2736 },
  { 253,2736 }, { 254,2736 }, { 255,2736 }, { 256,2736 }, {   0,  51 },
- {   0,17463 }, {   1,2478 }, {   2,2478 }, {   3,2478 }, {   4,2478 },
+ {   0,17385 }, {   1,2478 }, {   2,2478 }, {   3,2478 }, {   4,2478 },
  {   5,2478 }, {   6,2478 }, {   7,2478 }, {   8,2478 }, {   9,2453 },
 
  {  10,2453 }, {  11,2478 }, {  12,2478 }, {  13,2453 }, {  14,2478 },
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 240,2478 }, { 241,2478 }, { 242,2478 }, { 243,2478 }, { 244,2478 },
  { 245,2478 }, { 246,2478 }, { 247,2478 }, { 248,2478 }, { 249,2478 },
  { 250,2478 }, { 251,2478 }, { 252,2478 }, { 253,2478 }, { 254,2478 },
- { 255,2478 }, { 256,2478 }, {   0,  51 }, {   0,17205 }, {   1,2220 },
+ { 255,2478 }, { 256,2478 }, {   0,  51 }, {   0,17127 }, {   1,2220 },
 
  {   2,2220 }, {   3,2220 }, {   4,2220 }, {   5,2220 }, {   6,2220 },
  {   7,2220 }, {   8,2220 }, {   9,2195 }, {  10,2195 }, {  11,2220 },
@@ -2010,7 +2010,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 247,2220 }, { 248,2220 }, { 249,2220 }, { 250,2220 }, { 251,2220 },
 
  { 252,2220 }, { 253,2220 }, { 254,2220 }, { 255,2220 }, { 256,2220 },
- {   0,  51 }, {   0,16947 }, {   1,1962 }, {   2,1962 }, {   3,1962 },
+ {   0,  51 }, {   0,16869 }, {   1,1962 }, {   2,1962 }, {   3,1962 },
  {   4,1962 }, {   5,1962 }, {   6,1962 }, {   7,1962 }, {   8,1962 },
  {   9,1937 }, {  10,1937 }, {  11,1962 }, {  12,1962 }, {  13,1937 },
  {  14,1962 }, {  15,1962 }, {  16,1962 }, {  17,1962 }, {  18,1962 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[23608] =
 
  { 244,1962 }, { 245,1962 }, { 246,1962 }, { 247,1962 }, { 248,1962 },
  { 249,1962 }, { 250,1962 }, { 251,1962 }, { 252,1962 }, { 253,1962 },
- { 254,1962 }, { 255,1962 }, { 256,1962 }, {   0,  14 }, {   0,16689 },
+ { 254,1962 }, { 255,1962 }, { 256,1962 }, {   0,  14 }, {   0,16611 },
  {   1,5284 }, {   2,5284 }, {   3,5284 }, {   4,5284 }, {   5,5284 },
  {   6,5284 }, {   7,5284 }, {   8,5284 }, {   9,5284 }, {  10,5284 },
  {  11,5284 }, {  12,5284 }, {  13,5284 }, {  14,5284 }, {  15,5284 },
@@ -2123,7 +2123,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 241,5284 }, { 242,5284 }, { 243,5284 }, { 244,5284 }, { 245,5284 },
  { 246,5284 }, { 247,5284 }, { 248,5284 }, { 249,5284 }, { 250,5284 },
  { 251,5284 }, { 252,5284 }, { 253,5284 }, { 254,5284 }, { 255,5284 },
- { 256,5284 }, {   0,  14 }, {   0,16431 }, {   1,5026 }, {   2,5026 },
+ { 256,5284 }, {   0,  14 }, {   0,16353 }, {   1,5026 }, {   2,5026 },
  {   3,5026 }, {   4,5026 }, {   5,5026 }, {   6,5026 }, {   7,5026 },
  {   8,5026 }, {   9,5026 }, {  10,5026 }, {  11,5026 }, {  12,5026 },
  {  13,5026 }, {  14,5026 }, {  15,5026 }, {  16,5026 }, {  17,5026 },
@@ -2180,7 +2180,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 243,5026 }, { 244,5026 }, { 245,5026 }, { 246,5026 }, { 247,5026 },
  { 248,5026 }, { 249,5026 }, { 250,5026 }, { 251,5026 }, { 252,5026 },
  { 253,5026 }, { 254,5026 }, { 255,5026 }, { 256,5026 }, {   0,  14 },
- {   0,16173 }, {   1,5542 }, {   2,5542 }, {   3,5542 }, {   4,5542 },
+ {   0,16095 }, {   1,5542 }, {   2,5542 }, {   3,5542 }, {   4,5542 },
  {   5,5542 }, {   6,5542 }, {   7,5542 }, {   8,5542 }, {   9,5542 },
  {  10,5542 }, {  11,5542 }, {  12,5542 }, {  13,5542 }, {  14,5542 },
  {  15,5542 }, {  16,5542 }, {  17,5542 }, {  18,5542 }, {  19,5542 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 240,5542 }, { 241,5542 }, { 242,5542 }, { 243,5542 }, { 244,5542 },
  { 245,5542 }, { 246,5542 }, { 247,5542 }, { 248,5542 }, { 249,5542 },
  { 250,5542 }, { 251,5542 }, { 252,5542 }, { 253,5542 }, { 254,5542 },
- { 255,5542 }, { 256,5542 }, {   0,  14 }, {   0,15915 }, {   1,5284 },
+ { 255,5542 }, { 256,5542 }, {   0,  14 }, {   0,15837 }, {   1,5284 },
  {   2,5284 }, {   3,5284 }, {   4,5284 }, {   5,5284 }, {   6,5284 },
  {   7,5284 }, {   8,5284 }, {   9,5284 }, {  10,5284 }, {  11,5284 },
 
@@ -2293,7 +2293,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 242,5284 }, { 243,5284 }, { 244,5284 }, { 245,5284 }, { 246,5284 },
  { 247,5284 }, { 248,5284 }, { 249,5284 }, { 250,5284 }, { 251,5284 },
  { 252,5284 }, { 253,5284 }, { 254,5284 }, { 255,5284 }, { 256,5284 },
- {   0,  10 }, {   0,15657 }, {   1,5542 }, {   2,5542 }, {   3,5542 },
+ {   0,  10 }, {   0,15579 }, {   1,5542 }, {   2,5542 }, {   3,5542 },
 
  {   4,5542 }, {   5,5542 }, {   6,5542 }, {   7,5542 }, {   8,5542 },
  {   9,5542 }, {  10,5542 }, {  11,5542 }, {  12,5542 }, {  13,5542 },
@@ -2350,8 +2350,8 @@ static const struct yy_trans_info yy_transition[23608] =
  { 244,5542 }, { 245,5542 }, { 246,5542 }, { 247,5542 }, { 248,5542 },
  { 249,5542 }, { 250,5542 }, { 251,5542 }, { 252,5542 }, { 253,5542 },
 
- { 254,5542 }, { 255,5542 }, { 256,5542 }, {   0,  11 }, {   0,15399 },
- {   0,   2 }, {   0,15397 }, {   0,   0 }, {   0,15395 }, {   0,   0 },
+ { 254,5542 }, { 255,5542 }, { 256,5542 }, {   0,  11 }, {   0,15321 },
+ {   0,   2 }, {   0,15319 }, {   0,   0 }, {   0,15317 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2377,7 +2377,7 @@ static const struct yy_trans_info yy_transition[23608] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,5542 }, {   0,   2 }, {   0,15274 },
+ {   0,   0 }, {   0,   0 }, { 123,5542 }, {   0,   2 }, {   0,15196 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 },
  {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 },
@@ -2434,14 +2434,14 @@ static const struct yy_trans_info yy_transition[23608] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,15016 }, {   0,   0 }, {   0,15014 },
- {   0,   5 }, {   0,15012 }, {   0,  49 }, {   0,15010 }, {   0,   0 },
+ { 256,   0 }, {   0,   0 }, {   0,14938 }, {   0,   0 }, {   0,14936 },
+ {   0,   5 }, {   0,14934 }, {   0,  49 }, {   0,14932 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,14985 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,14907 }, {   1,   0 },
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
  {  12,   0 }, {  13, -25 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
@@ -2498,15 +2498,15 @@ static const struct yy_trans_info yy_transition[23608] =
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  36 }, {   0,14727 }, {   0,  39 }, {   0,14725 }, {   0,  40 },
- {   0,14723 }, {   0,  34 }, {   0,14721 }, {   0,  33 }, {   0,14719 },
- {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,14715 }, {  13,   0 },
- {   0,  50 }, {   0,14712 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  36 }, {   0,14649 }, {   0,  39 }, {   0,14647 }, {   0,  40 },
+ {   0,14645 }, {   0,  34 }, {   0,14643 }, {   0,  33 }, {   0,14641 },
+ {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,14637 }, {  13,   0 },
+ {   0,  50 }, {   0,14634 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,14693 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,14615 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2562,7 +2562,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14435 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14357 }, {   1,-258 },
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
  {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
@@ -2619,7 +2619,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,14177 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,14099 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2675,7 +2675,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,13919 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,13841 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2732,7 +2732,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,13661 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,13583 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
 
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
@@ -2790,7 +2790,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
 
- {   0,13403 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,13325 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2802,7 +2802,7 @@ static const struct yy_trans_info yy_transition[23608] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,4449 }, {  49,4449 },
 
  {  50,4449 }, {  51,4449 }, {  52,4449 }, {  53,4449 }, {  54,4449 },
- {  55,4449 }, {  56,4449 }, {  57,4449 }, {   0,   0 }, {   0,13344 },
+ {  55,4449 }, {  56,4449 }, {  57,4449 }, {   0,   0 }, {   0,13266 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
  {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
@@ -2859,7 +2859,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,13086 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,13008 }, {   1,-258 }, {   2,-258 },
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
  {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
@@ -2916,14 +2916,14 @@ static const struct yy_trans_info yy_transition[23608] =
  { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,12828 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
- {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,3068 },
- {  10,3068 }, {  11,-2157 }, {  12,-2157 }, {  13,3068 }, {  14,-2157 },
+ {   0,12750 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,4260 },
+ {  10,4260 }, {  11,-2157 }, {  12,-2157 }, {  13,4260 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
  {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
 
  {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
- {  30,-2157 }, {  31,-2157 }, {  32,3068 }, {   0,   0 }, {   0,   0 },
+ {  30,-2157 }, {  31,-2157 }, {  32,4260 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  45,-2157 }, {  46,-2182 }, {  47,-2182 }, {  48,-2157 }, {  49,-2157 },
@@ -2972,7 +2972,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 240,-2157 }, { 241,-2157 }, { 242,-2157 }, { 243,-2157 }, { 244,-2157 },
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,12570 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,12492 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2996,7 +2996,7 @@ static const struct yy_trans_info yy_transition[23608] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
  {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
  { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
- { 107,-2415 }, { 108,4002 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
+ { 107,-2415 }, { 108,4062 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
  { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
 
  { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
@@ -3029,7 +3029,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,12312 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,12234 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
 
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
@@ -3052,7 +3052,7 @@ static const struct yy_trans_info yy_transition[23608] =
  {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
  {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
- { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,4002 },
+ { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,4062 },
 
  { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
  { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
@@ -3085,7 +3085,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,12054 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,11976 },
 
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
@@ -3112,7 +3112,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
  { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
  { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
- { 116,-2931 }, { 117,4002 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
+ { 116,-2931 }, { 117,4062 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
  { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
  { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
  { 131,-2931 }, { 132,-2931 }, { 133,-2931 }, { 134,-2931 }, { 135,-2931 },
@@ -3143,7 +3143,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
 
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,11796 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,11718 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
  {  13,-3214 }, {  14,-3189 }, {  15,-3189 }, {  16,-3189 }, {  17,-3189 },
@@ -3165,7 +3165,7 @@ static const struct yy_trans_info yy_transition[23608] =
  {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
- {  98,-3189 }, {  99,-3189 }, { 100,4002 }, { 101,-3189 }, { 102,-3189 },
+ {  98,-3189 }, {  99,-3189 }, { 100,4062 }, { 101,-3189 }, { 102,-3189 },
  { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
  { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
  { 113,-3189 }, { 114,-3189 }, { 115,-3189 }, { 116,-3189 }, { 117,-3189 },
@@ -3200,35 +3200,35 @@ static const struct yy_trans_info yy_transition[23608] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
- {   0,11538 }, {   0,  38 }, {   0,11536 }, {   0,   0 }, {   0,11534 },
- {   0,   0 }, {   0,11532 }, {   0,  13 }, {   0,11530 }, {   9,4002 },
- {  10,4002 }, {   0,   0 }, {   0,   0 }, {  13,4002 }, {   0,   0 },
+ {   0,11460 }, {   0,  38 }, {   0,11458 }, {   0,   0 }, {   0,11456 },
+ {   0,   0 }, {   0,11454 }, {   0,  13 }, {   0,11452 }, {   9,4062 },
+ {  10,4062 }, {   0,   0 }, {   0,   0 }, {  13,4062 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,4002 }, {  33,2586 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32,4062 }, {  33,1689 }, {   0,   0 },
 
- {  35,2588 }, {   0,   0 }, {   0,   0 }, {  38,2590 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  42,2592 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  47,2596 }, {   0,   0 }, {   0,   0 },
+ {  35,1691 }, {   0,   0 }, {   0,   0 }, {  38,1693 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  42,1695 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  47,1697 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,2599 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62,1699 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,4004 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,4064 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,4006 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101,1794 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,4008 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4010 }, {   0,   0 },
- {   0,   0 }, { 126,4017 }, { 125,4012 }, {   0,   0 }, { 125,4015 },
- {   0,   0 }, { 125,4015 }, {   0,   0 }, {   0,11405 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2998 }, {   0,   0 },
+ {   0,   0 }, { 126,4070 }, { 125,2999 }, {   0,   0 }, { 125,3024 },
+ {   0,   0 }, { 125,3058 }, {   0,   0 }, {   0,11327 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
@@ -3286,7 +3286,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,11147 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
+ {   0,   0 }, {   0,11069 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
  {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 },
  {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 },
  {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 },
@@ -3342,64 +3342,64 @@ static const struct yy_trans_info yy_transition[23608] =
 
  { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 },
  { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 },
- { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,10889 },
- {   1,3497 }, {   2,3497 }, {   3,3497 }, {   4,3497 }, {   5,3497 },
- {   6,3497 }, {   7,3497 }, {   8,3497 }, {   9,3497 }, {  10,3497 },
- {  11,3497 }, {  12,3497 }, {  13,3497 }, {  14,3497 }, {  15,3497 },
- {  16,3497 }, {  17,3497 }, {  18,3497 }, {  19,3497 }, {  20,3497 },
- {  21,3497 }, {  22,3497 }, {  23,3497 }, {  24,3497 }, {  25,3497 },
- {  26,3497 }, {  27,3497 }, {  28,3497 }, {  29,3497 }, {  30,3497 },
- {  31,3497 }, {  32,3497 }, {  33,3497 }, {  34,3497 }, {  35,3497 },
-
- {  36,3497 }, {  37,3497 }, {  38,3497 }, {  39,3497 }, {  40,3497 },
- {  41,3497 }, {  42,3497 }, {  43,3497 }, {  44,3497 }, {  45,3755 },
- {  46,3497 }, {  47,3497 }, {  48,3497 }, {  49,3497 }, {  50,3497 },
- {  51,3497 }, {  52,3497 }, {  53,3497 }, {  54,3497 }, {  55,3497 },
- {  56,3497 }, {  57,3497 }, {  58,3497 }, {  59,3497 }, {  60,3497 },
- {  61,3497 }, {  62,3497 }, {  63,3497 }, {  64,3497 }, {  65,3497 },
- {  66,3497 }, {  67,3497 }, {  68,3497 }, {  69,3497 }, {  70,3497 },
- {  71,3497 }, {  72,3497 }, {  73,3497 }, {  74,3497 }, {  75,3497 },
- {  76,3497 }, {  77,3497 }, {  78,3497 }, {  79,3497 }, {  80,3497 },
- {  81,3497 }, {  82,3497 }, {  83,3497 }, {  84,3497 }, {  85,3497 },
-
- {  86,3497 }, {  87,3497 }, {  88,3497 }, {  89,3497 }, {  90,3497 },
- {  91,3497 }, {  92,3497 }, {  93,3497 }, {  94,3497 }, {  95,3497 },
- {  96,3497 }, {  97,3497 }, {  98,3497 }, {  99,3497 }, { 100,3497 },
- { 101,3497 }, { 102,3497 }, { 103,3497 }, { 104,3497 }, { 105,3497 },
- { 106,3497 }, { 107,3497 }, { 108,3497 }, { 109,3497 }, { 110,3497 },
- { 111,3497 }, { 112,3497 }, { 113,3497 }, { 114,3497 }, { 115,3497 },
- { 116,3497 }, { 117,3497 }, { 118,3497 }, { 119,3497 }, { 120,3497 },
- { 121,3497 }, { 122,3497 }, { 123,3497 }, { 124,3497 }, { 125,4013 },
- { 126,4271 }, { 127,3497 }, { 128,3497 }, { 129,3497 }, { 130,3497 },
- { 131,3497 }, { 132,3497 }, { 133,3497 }, { 134,3497 }, { 135,3497 },
-
- { 136,3497 }, { 137,3497 }, { 138,3497 }, { 139,3497 }, { 140,3497 },
- { 141,3497 }, { 142,3497 }, { 143,3497 }, { 144,3497 }, { 145,3497 },
- { 146,3497 }, { 147,3497 }, { 148,3497 }, { 149,3497 }, { 150,3497 },
- { 151,3497 }, { 152,3497 }, { 153,3497 }, { 154,3497 }, { 155,3497 },
- { 156,3497 }, { 157,3497 }, { 158,3497 }, { 159,3497 }, { 160,3497 },
- { 161,3497 }, { 162,3497 }, { 163,3497 }, { 164,3497 }, { 165,3497 },
- { 166,3497 }, { 167,3497 }, { 168,3497 }, { 169,3497 }, { 170,3497 },
- { 171,3497 }, { 172,3497 }, { 173,3497 }, { 174,3497 }, { 175,3497 },
- { 176,3497 }, { 177,3497 }, { 178,3497 }, { 179,3497 }, { 180,3497 },
- { 181,3497 }, { 182,3497 }, { 183,3497 }, { 184,3497 }, { 185,3497 },
-
- { 186,3497 }, { 187,3497 }, { 188,3497 }, { 189,3497 }, { 190,3497 },
- { 191,3497 }, { 192,3497 }, { 193,3497 }, { 194,3497 }, { 195,3497 },
- { 196,3497 }, { 197,3497 }, { 198,3497 }, { 199,3497 }, { 200,3497 },
- { 201,3497 }, { 202,3497 }, { 203,3497 }, { 204,3497 }, { 205,3497 },
- { 206,3497 }, { 207,3497 }, { 208,3497 }, { 209,3497 }, { 210,3497 },
- { 211,3497 }, { 212,3497 }, { 213,3497 }, { 214,3497 }, { 215,3497 },
- { 216,3497 }, { 217,3497 }, { 218,3497 }, { 219,3497 }, { 220,3497 },
- { 221,3497 }, { 222,3497 }, { 223,3497 }, { 224,3497 }, { 225,3497 },
- { 226,3497 }, { 227,3497 }, { 228,3497 }, { 229,3497 }, { 230,3497 },
- { 231,3497 }, { 232,3497 }, { 233,3497 }, { 234,3497 }, { 235,3497 },
-
- { 236,3497 }, { 237,3497 }, { 238,3497 }, { 239,3497 }, { 240,3497 },
- { 241,3497 }, { 242,3497 }, { 243,3497 }, { 244,3497 }, { 245,3497 },
- { 246,3497 }, { 247,3497 }, { 248,3497 }, { 249,3497 }, { 250,3497 },
- { 251,3497 }, { 252,3497 }, { 253,3497 }, { 254,3497 }, { 255,3497 },
- { 256,3497 }, {   0,   0 }, {   0,10631 }, {   1,   0 }, {   2,   0 },
+ { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,10811 },
+ {   1,3546 }, {   2,3546 }, {   3,3546 }, {   4,3546 }, {   5,3546 },
+ {   6,3546 }, {   7,3546 }, {   8,3546 }, {   9,3546 }, {  10,3546 },
+ {  11,3546 }, {  12,3546 }, {  13,3546 }, {  14,3546 }, {  15,3546 },
+ {  16,3546 }, {  17,3546 }, {  18,3546 }, {  19,3546 }, {  20,3546 },
+ {  21,3546 }, {  22,3546 }, {  23,3546 }, {  24,3546 }, {  25,3546 },
+ {  26,3546 }, {  27,3546 }, {  28,3546 }, {  29,3546 }, {  30,3546 },
+ {  31,3546 }, {  32,3546 }, {  33,3546 }, {  34,3546 }, {  35,3546 },
+
+ {  36,3546 }, {  37,3546 }, {  38,3546 }, {  39,3546 }, {  40,3546 },
+ {  41,3546 }, {  42,3546 }, {  43,3546 }, {  44,3546 }, {  45,3804 },
+ {  46,3546 }, {  47,3546 }, {  48,3546 }, {  49,3546 }, {  50,3546 },
+ {  51,3546 }, {  52,3546 }, {  53,3546 }, {  54,3546 }, {  55,3546 },
+ {  56,3546 }, {  57,3546 }, {  58,3546 }, {  59,3546 }, {  60,3546 },
+ {  61,3546 }, {  62,3546 }, {  63,3546 }, {  64,3546 }, {  65,3546 },
+ {  66,3546 }, {  67,3546 }, {  68,3546 }, {  69,3546 }, {  70,3546 },
+ {  71,3546 }, {  72,3546 }, {  73,3546 }, {  74,3546 }, {  75,3546 },
+ {  76,3546 }, {  77,3546 }, {  78,3546 }, {  79,3546 }, {  80,3546 },
+ {  81,3546 }, {  82,3546 }, {  83,3546 }, {  84,3546 }, {  85,3546 },
+
+ {  86,3546 }, {  87,3546 }, {  88,3546 }, {  89,3546 }, {  90,3546 },
+ {  91,3546 }, {  92,3546 }, {  93,3546 }, {  94,3546 }, {  95,3546 },
+ {  96,3546 }, {  97,3546 }, {  98,3546 }, {  99,3546 }, { 100,3546 },
+ { 101,3546 }, { 102,3546 }, { 103,3546 }, { 104,3546 }, { 105,3546 },
+ { 106,3546 }, { 107,3546 }, { 108,3546 }, { 109,3546 }, { 110,3546 },
+ { 111,3546 }, { 112,3546 }, { 113,3546 }, { 114,3546 }, { 115,3546 },
+ { 116,3546 }, { 117,3546 }, { 118,3546 }, { 119,3546 }, { 120,3546 },
+ { 121,3546 }, { 122,3546 }, { 123,3546 }, { 124,3546 }, { 125,4062 },
+ { 126,4320 }, { 127,3546 }, { 128,3546 }, { 129,3546 }, { 130,3546 },
+ { 131,3546 }, { 132,3546 }, { 133,3546 }, { 134,3546 }, { 135,3546 },
+
+ { 136,3546 }, { 137,3546 }, { 138,3546 }, { 139,3546 }, { 140,3546 },
+ { 141,3546 }, { 142,3546 }, { 143,3546 }, { 144,3546 }, { 145,3546 },
+ { 146,3546 }, { 147,3546 }, { 148,3546 }, { 149,3546 }, { 150,3546 },
+ { 151,3546 }, { 152,3546 }, { 153,3546 }, { 154,3546 }, { 155,3546 },
+ { 156,3546 }, { 157,3546 }, { 158,3546 }, { 159,3546 }, { 160,3546 },
+ { 161,3546 }, { 162,3546 }, { 163,3546 }, { 164,3546 }, { 165,3546 },
+ { 166,3546 }, { 167,3546 }, { 168,3546 }, { 169,3546 }, { 170,3546 },
+ { 171,3546 }, { 172,3546 }, { 173,3546 }, { 174,3546 }, { 175,3546 },
+ { 176,3546 }, { 177,3546 }, { 178,3546 }, { 179,3546 }, { 180,3546 },
+ { 181,3546 }, { 182,3546 }, { 183,3546 }, { 184,3546 }, { 185,3546 },
+
+ { 186,3546 }, { 187,3546 }, { 188,3546 }, { 189,3546 }, { 190,3546 },
+ { 191,3546 }, { 192,3546 }, { 193,3546 }, { 194,3546 }, { 195,3546 },
+ { 196,3546 }, { 197,3546 }, { 198,3546 }, { 199,3546 }, { 200,3546 },
+ { 201,3546 }, { 202,3546 }, { 203,3546 }, { 204,3546 }, { 205,3546 },
+ { 206,3546 }, { 207,3546 }, { 208,3546 }, { 209,3546 }, { 210,3546 },
+ { 211,3546 }, { 212,3546 }, { 213,3546 }, { 214,3546 }, { 215,3546 },
+ { 216,3546 }, { 217,3546 }, { 218,3546 }, { 219,3546 }, { 220,3546 },
+ { 221,3546 }, { 222,3546 }, { 223,3546 }, { 224,3546 }, { 225,3546 },
+ { 226,3546 }, { 227,3546 }, { 228,3546 }, { 229,3546 }, { 230,3546 },
+ { 231,3546 }, { 232,3546 }, { 233,3546 }, { 234,3546 }, { 235,3546 },
+
+ { 236,3546 }, { 237,3546 }, { 238,3546 }, { 239,3546 }, { 240,3546 },
+ { 241,3546 }, { 242,3546 }, { 243,3546 }, { 244,3546 }, { 245,3546 },
+ { 246,3546 }, { 247,3546 }, { 248,3546 }, { 249,3546 }, { 250,3546 },
+ { 251,3546 }, { 252,3546 }, { 253,3546 }, { 254,3546 }, { 255,3546 },
+ { 256,3546 }, {   0,   0 }, {   0,10553 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
  {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
@@ -3456,7 +3456,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
  { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0,10373 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   0,10295 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
  {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
  {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
  {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
@@ -3512,7 +3512,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
  { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
  { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
- { 255,-258 }, { 256,-258 }, {   0,  10 }, {   0,10115 }, {   1,   0 },
+ { 255,-258 }, { 256,-258 }, {   0,  10 }, {   0,10037 }, {   1,   0 },
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
 
@@ -3569,92 +3569,92 @@ static const struct yy_trans_info yy_transition[23608] =
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,9857 }, {   0,   0 }, {   0,9855 }, {   0,   0 },
+ {   0,   0 }, {   0,9779 }, {   0,   0 }, {   0,9777 }, {   0,   0 },
 
- {   0,9853 }, {   0,   5 }, {   0,9851 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,9775 }, {   0,   5 }, {   0,9773 }, {   0,  30 }, {   0,9771 },
+ {   0,  21 }, {   0,9769 }, {   0,  28 }, {   0,9767 }, {   0,  31 },
+ {   0,9765 }, {   0,  22 }, {   0,9763 }, {   0,  19 }, {   0,9761 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  42,3548 }, {  45,3548 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,3552 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,  49 }, {   0,9760 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,9666 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3497 },
- {   0,   0 }, { 123,3497 }, {   0,   0 }, { 123,3497 }, {   0,   4 },
- {   0,9728 }, {   1,3497 }, {   2,3497 }, {   3,3497 }, {   4,3497 },
- {   5,3497 }, {   6,3497 }, {   7,3497 }, {   8,3497 }, {   9,3497 },
- {  10,3374 }, {  11,3497 }, {  12,3497 }, {  13,3374 }, {  14,3497 },
- {  15,3497 }, {  16,3497 }, {  17,3497 }, {  18,3497 }, {  19,3497 },
- {  20,3497 }, {  21,3497 }, {  22,3497 }, {  23,3497 }, {  24,3497 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2387 },
+ {   0,   0 }, { 123,3544 }, {   0,   0 }, { 123,3544 }, {   0,   4 },
+ {   0,9650 }, {   1,3544 }, {   2,3544 }, {   3,3544 }, {   4,3544 },
+ {   5,3544 }, {   6,3544 }, {   7,3544 }, {   8,3544 }, {   9,3544 },
+ {  10,3421 }, {  11,3544 }, {  12,3544 }, {  13,3421 }, {  14,3544 },
+ {  15,3544 }, {  16,3544 }, {  17,3544 }, {  18,3544 }, {  19,3544 },
+ {  20,3544 }, {  21,3544 }, {  22,3544 }, {  23,3544 }, {  24,3544 },
 
- {  25,3497 }, {  26,3497 }, {  27,3497 }, {  28,3497 }, {  29,3497 },
- {  30,3497 }, {  31,3497 }, {  32,3497 }, {  33,3497 }, {  34,3497 },
- {  35,3497 }, {  36,3497 }, {  37,3497 }, {  38,3497 }, {  39,3497 },
- {  40,3497 }, {  41,3497 }, {  42,3497 }, {  43,3497 }, {  44,3497 },
- {  45,3497 }, {  46,3497 }, {  47,3497 }, {  48,3497 }, {  49,3497 },
- {  50,3497 }, {  51,3497 }, {  52,3497 }, {  53,3497 }, {  54,3497 },
- {  55,3497 }, {  56,3497 }, {  57,3497 }, {  58,3497 }, {  59,3497 },
- {  60,3497 }, {  61,3497 }, {  62,3497 }, {  63,3497 }, {  64,3497 },
- {  65,3497 }, {  66,3497 }, {  67,3497 }, {  68,3497 }, {  69,3497 },
- {  70,3497 }, {  71,3497 }, {  72,3497 }, {  73,3497 }, {  74,3497 },
+ {  25,3544 }, {  26,3544 }, {  27,3544 }, {  28,3544 }, {  29,3544 },
+ {  30,3544 }, {  31,3544 }, {  32,3544 }, {  33,3544 }, {  34,3544 },
+ {  35,3544 }, {  36,3544 }, {  37,3544 }, {  38,3544 }, {  39,3544 },
+ {  40,3544 }, {  41,3544 }, {  42,3544 }, {  43,3544 }, {  44,3544 },
+ {  45,3544 }, {  46,3544 }, {  47,3544 }, {  48,3544 }, {  49,3544 },
+ {  50,3544 }, {  51,3544 }, {  52,3544 }, {  53,3544 }, {  54,3544 },
+ {  55,3544 }, {  56,3544 }, {  57,3544 }, {  58,3544 }, {  59,3544 },
+ {  60,3544 }, {  61,3544 }, {  62,3544 }, {  63,3544 }, {  64,3544 },
+ {  65,3544 }, {  66,3544 }, {  67,3544 }, {  68,3544 }, {  69,3544 },
+ {  70,3544 }, {  71,3544 }, {  72,3544 }, {  73,3544 }, {  74,3544 },
 
- {  75,3497 }, {  76,3497 }, {  77,3497 }, {  78,3497 }, {  79,3497 },
- {  80,3497 }, {  81,3497 }, {  82,3497 }, {  83,3497 }, {  84,3497 },
- {  85,3497 }, {  86,3497 }, {  87,3497 }, {  88,3497 }, {  89,3497 },
- {  90,3497 }, {  91,3497 }, { 124,3410 }, {  93,3497 }, {  94,3497 },
- {  95,3497 }, {  96,3497 }, {  97,3497 }, {  98,3497 }, {  99,3497 },
- { 100,3497 }, { 101,3497 }, { 102,3497 }, { 103,3497 }, { 104,3497 },
- { 105,3497 }, { 106,3497 }, { 107,3497 }, { 108,3497 }, { 109,3497 },
- { 110,3497 }, { 111,3497 }, { 112,3497 }, { 113,3497 }, { 114,3497 },
- { 115,3497 }, { 116,3497 }, { 117,3497 }, { 118,3497 }, { 119,3497 },
- { 120,3497 }, { 121,3497 }, { 122,3497 }, { 123,3755 }, { 124,3497 },
+ {  75,3544 }, {  76,3544 }, {  77,3544 }, {  78,3544 }, {  79,3544 },
+ {  80,3544 }, {  81,3544 }, {  82,3544 }, {  83,3544 }, {  84,3544 },
+ {  85,3544 }, {  86,3544 }, {  87,3544 }, {  88,3544 }, {  89,3544 },
+ {  90,3544 }, {  91,3544 }, { 108,4113 }, {  93,3544 }, {  94,3544 },
+ {  95,3544 }, {  96,3544 }, {  97,3544 }, {  98,3544 }, {  99,3544 },
+ { 100,3544 }, { 101,3544 }, { 102,3544 }, { 103,3544 }, { 104,3544 },
+ { 105,3544 }, { 106,3544 }, { 107,3544 }, { 108,3544 }, { 109,3544 },
+ { 110,3544 }, { 111,3544 }, { 112,3544 }, { 113,3544 }, { 114,3544 },
+ { 115,3544 }, { 116,3544 }, { 117,3544 }, { 118,3544 }, { 119,3544 },
+ { 120,3544 }, { 121,3544 }, { 122,3544 }, { 123,3802 }, { 124,3544 },
 
- { 125,3497 }, { 126,3497 }, { 127,3497 }, { 128,3497 }, { 129,3497 },
- { 130,3497 }, { 131,3497 }, { 132,3497 }, { 133,3497 }, { 134,3497 },
- { 135,3497 }, { 136,3497 }, { 137,3497 }, { 138,3497 }, { 139,3497 },
- { 140,3497 }, { 141,3497 }, { 142,3497 }, { 143,3497 }, { 144,3497 },
- { 145,3497 }, { 146,3497 }, { 147,3497 }, { 148,3497 }, { 149,3497 },
- { 150,3497 }, { 151,3497 }, { 152,3497 }, { 153,3497 }, { 154,3497 },
- { 155,3497 }, { 156,3497 }, { 157,3497 }, { 158,3497 }, { 159,3497 },
- { 160,3497 }, { 161,3497 }, { 162,3497 }, { 163,3497 }, { 164,3497 },
- { 165,3497 }, { 166,3497 }, { 167,3497 }, { 168,3497 }, { 169,3497 },
- { 170,3497 }, { 171,3497 }, { 172,3497 }, { 173,3497 }, { 174,3497 },
+ { 125,3544 }, { 126,3544 }, { 127,3544 }, { 128,3544 }, { 129,3544 },
+ { 130,3544 }, { 131,3544 }, { 132,3544 }, { 133,3544 }, { 134,3544 },
+ { 135,3544 }, { 136,3544 }, { 137,3544 }, { 138,3544 }, { 139,3544 },
+ { 140,3544 }, { 141,3544 }, { 142,3544 }, { 143,3544 }, { 144,3544 },
+ { 145,3544 }, { 146,3544 }, { 147,3544 }, { 148,3544 }, { 149,3544 },
+ { 150,3544 }, { 151,3544 }, { 152,3544 }, { 153,3544 }, { 154,3544 },
+ { 155,3544 }, { 156,3544 }, { 157,3544 }, { 158,3544 }, { 159,3544 },
+ { 160,3544 }, { 161,3544 }, { 162,3544 }, { 163,3544 }, { 164,3544 },
+ { 165,3544 }, { 166,3544 }, { 167,3544 }, { 168,3544 }, { 169,3544 },
+ { 170,3544 }, { 171,3544 }, { 172,3544 }, { 173,3544 }, { 174,3544 },
 
- { 175,3497 }, { 176,3497 }, { 177,3497 }, { 178,3497 }, { 179,3497 },
- { 180,3497 }, { 181,3497 }, { 182,3497 }, { 183,3497 }, { 184,3497 },
- { 185,3497 }, { 186,3497 }, { 187,3497 }, { 188,3497 }, { 189,3497 },
- { 190,3497 }, { 191,3497 }, { 192,3497 }, { 193,3497 }, { 194,3497 },
- { 195,3497 }, { 196,3497 }, { 197,3497 }, { 198,3497 }, { 199,3497 },
- { 200,3497 }, { 201,3497 }, { 202,3497 }, { 203,3497 }, { 204,3497 },
- { 205,3497 }, { 206,3497 }, { 207,3497 }, { 208,3497 }, { 209,3497 },
- { 210,3497 }, { 211,3497 }, { 212,3497 }, { 213,3497 }, { 214,3497 },
- { 215,3497 }, { 216,3497 }, { 217,3497 }, { 218,3497 }, { 219,3497 },
- { 220,3497 }, { 221,3497 }, { 222,3497 }, { 223,3497 }, { 224,3497 },
+ { 175,3544 }, { 176,3544 }, { 177,3544 }, { 178,3544 }, { 179,3544 },
+ { 180,3544 }, { 181,3544 }, { 182,3544 }, { 183,3544 }, { 184,3544 },
+ { 185,3544 }, { 186,3544 }, { 187,3544 }, { 188,3544 }, { 189,3544 },
+ { 190,3544 }, { 191,3544 }, { 192,3544 }, { 193,3544 }, { 194,3544 },
+ { 195,3544 }, { 196,3544 }, { 197,3544 }, { 198,3544 }, { 199,3544 },
+ { 200,3544 }, { 201,3544 }, { 202,3544 }, { 203,3544 }, { 204,3544 },
+ { 205,3544 }, { 206,3544 }, { 207,3544 }, { 208,3544 }, { 209,3544 },
+ { 210,3544 }, { 211,3544 }, { 212,3544 }, { 213,3544 }, { 214,3544 },
+ { 215,3544 }, { 216,3544 }, { 217,3544 }, { 218,3544 }, { 219,3544 },
+ { 220,3544 }, { 221,3544 }, { 222,3544 }, { 223,3544 }, { 224,3544 },
 
- { 225,3497 }, { 226,3497 }, { 227,3497 }, { 228,3497 }, { 229,3497 },
- { 230,3497 }, { 231,3497 }, { 232,3497 }, { 233,3497 }, { 234,3497 },
- { 235,3497 }, { 236,3497 }, { 237,3497 }, { 238,3497 }, { 239,3497 },
- { 240,3497 }, { 241,3497 }, { 242,3497 }, { 243,3497 }, { 244,3497 },
- { 245,3497 }, { 246,3497 }, { 247,3497 }, { 248,3497 }, { 249,3497 },
- { 250,3497 }, { 251,3497 }, { 252,3497 }, { 253,3497 }, { 254,3497 },
- { 255,3497 }, { 256,3497 }, {   0,  39 }, {   0,9470 }, {   1,-5223 },
+ { 225,3544 }, { 226,3544 }, { 227,3544 }, { 228,3544 }, { 229,3544 },
+ { 230,3544 }, { 231,3544 }, { 232,3544 }, { 233,3544 }, { 234,3544 },
+ { 235,3544 }, { 236,3544 }, { 237,3544 }, { 238,3544 }, { 239,3544 },
+ { 240,3544 }, { 241,3544 }, { 242,3544 }, { 243,3544 }, { 244,3544 },
+ { 245,3544 }, { 246,3544 }, { 247,3544 }, { 248,3544 }, { 249,3544 },
+ { 250,3544 }, { 251,3544 }, { 252,3544 }, { 253,3544 }, { 254,3544 },
+ { 255,3544 }, { 256,3544 }, {   0,  39 }, {   0,9392 }, {   1,-5223 },
  {   2,-5223 }, {   3,-5223 }, {   4,-5223 }, {   5,-5223 }, {   6,-5223 },
  {   7,-5223 }, {   8,-5223 }, {   9,-5223 }, {  10,-5223 }, {  11,-5223 },
  {  12,-5223 }, {  13,-5223 }, {  14,-5223 }, {  15,-5223 }, {  16,-5223 },
@@ -3711,7 +3711,7 @@ static const struct yy_trans_info yy_transition[23608] =
  { 242,-5223 }, { 243,-5223 }, { 244,-5223 }, { 245,-5223 }, { 246,-5223 },
  { 247,-5223 }, { 248,-5223 }, { 249,-5223 }, { 250,-5223 }, { 251,-5223 },
  { 252,-5223 }, { 253,-5223 }, { 254,-5223 }, { 255,-5223 }, { 256,-5223 },
- {   0,  40 }, {   0,9212 }, {   1,-4965 }, {   2,-4965 }, {   3,-4965 },
+ {   0,  40 }, {   0,9134 }, {   1,-4965 }, {   2,-4965 }, {   3,-4965 },
  {   4,-4965 }, {   5,-4965 }, {   6,-4965 }, {   7,-4965 }, {   8,-4965 },
 
  {   9,-4965 }, {  10,-4965 }, {  11,-4965 }, {  12,-4965 }, {  13,-4965 },
@@ -3767,23 +3767,23 @@ static const struct yy_trans_info yy_transition[23608] =
  { 239,-4965 }, { 240,-4965 }, { 241,-4965 }, { 242,-4965 }, { 243,-4965 },
  { 244,-4965 }, { 245,-4965 }, { 246,-4965 }, { 247,-4965 }, { 248,-4965 },
  { 249,-4965 }, { 250,-4965 }, { 251,-4965 }, { 252,-4965 }, { 253,-4965 },
- { 254,-4965 }, { 255,-4965 }, { 256,-4965 }, {   0,   0 }, {   0,8954 },
+ { 254,-4965 }, { 255,-4965 }, { 256,-4965 }, {   0,   0 }, {   0,8876 },
 
- {   0,  30 }, {   0,8952 }, {   0,  21 }, {   0,8950 }, {   0,  28 },
- {   0,8948 }, {   0,  31 }, {   0,8946 }, {   9,2602 }, {  10,2602 },
- {   0,  22 }, {   0,8942 }, {  13,2602 }, {   0,  19 }, {   0,8939 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,2649 }, {  10,2649 },
+ {   0,   0 }, {   0,   0 }, {  13,2649 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,2602 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,2649 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,2602 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  42,2608 }, {  45,2606 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
+ {  41,2649 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
 
  {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
  {  56,   0 }, {  57,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  62,2611 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3795,8 +3795,8 @@ static const struct yy_trans_info yy_transition[23608] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2602 },
- { 126,2602 }, {   0,  50 }, {   0,8826 }, {   1,-4518 }, {   2,-4518 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2649 },
+ { 126,2649 }, {   0,  50 }, {   0,8748 }, {   1,-4518 }, {   2,-4518 },
  {   3,-4518 }, {   4,-4518 }, {   5,-4518 }, {   6,-4518 }, {   7,-4518 },
  {   8,-4518 }, {   9,-4518 }, {  10,-4518 }, {  11,-4518 }, {  12,-4518 },
  {  13,-4518 }, {  14,-4518 }, {  15,-4518 }, {  16,-4518 }, {  17,-4518 },
@@ -3852,868 +3852,516 @@ static const struct yy_trans_info yy_transition[23608] =
  { 238,-4518 }, { 239,-4518 }, { 240,-4518 }, { 241,-4518 }, { 242,-4518 },
  { 243,-4518 }, { 244,-4518 }, { 245,-4518 }, { 246,-4518 }, { 247,-4518 },
  { 248,-4518 }, { 249,-4518 }, { 250,-4518 }, { 251,-4518 }, { 252,-4518 },
- { 253,-4518 }, { 254,-4518 }, { 255,-4518 }, { 256,-4518 }, {   0,   0 },
- {   0,8568 }, {   1,-6417 }, {   2,-6417 }, {   3,-6417 }, {   4,-6417 },
- {   5,-6417 }, {   6,-6417 }, {   7,-6417 }, {   8,-6417 }, {   9,-6442 },
- {  10,-6442 }, {  11,-6417 }, {  12,-6417 }, {  13,-6442 }, {  14,-6417 },
-
- {  15,-6417 }, {  16,-6417 }, {  17,-6417 }, {  18,-6417 }, {  19,-6417 },
- {  20,-6417 }, {  21,-6417 }, {  22,-6417 }, {  23,-6417 }, {  24,-6417 },
- {  25,-6417 }, {  26,-6417 }, {  27,-6417 }, {  28,-6417 }, {  29,-6417 },
- {  30,-6417 }, {  31,-6417 }, {  32,-6442 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-6417 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-6442 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-6417 }, {  46,-6442 }, {  47,-6442 }, {  48,-6417 }, {  49,-6417 },
- {  50,-6417 }, {  51,-6417 }, {  52,-6417 }, {  53,-6417 }, {  54,-6417 },
- {  55,-6417 }, {  56,-6417 }, {  57,-6417 }, {  58,-6417 }, {   0,   0 },
- {   0,   0 }, {  61,-6442 }, {   0,   0 }, {  63,-6417 }, {   0,   0 },
-
- {  65,-6417 }, {  66,-6417 }, {  67,-6417 }, {  68,-6417 }, {  69,-6417 },
- {  70,-6417 }, {  71,-6417 }, {  72,-6417 }, {  73,-6417 }, {  74,-6417 },
- {  75,-6417 }, {  76,-6417 }, {  77,-6417 }, {  78,-6417 }, {  79,-6417 },
- {  80,-6417 }, {  81,-6417 }, {  82,-6417 }, {  83,-6417 }, {  84,-6417 },
- {  85,-6417 }, {  86,-6417 }, {  87,-6417 }, {  88,-6417 }, {  89,-6417 },
- {  90,-6417 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-6417 }, {   0,   0 }, {  97,-6417 }, {  98,-6417 }, {  99,-6417 },
- { 100,-6417 }, { 101,-6417 }, { 102,-6417 }, { 103,-6417 }, { 104,-6417 },
- { 105,-6417 }, { 106,-6417 }, { 107,-6417 }, { 108,-6417 }, { 109,-6417 },
- { 110,-6417 }, { 111,-6417 }, { 112,-6417 }, { 113,-6417 }, { 114,-6417 },
-
- { 115,2853 }, { 116,-6417 }, { 117,-6417 }, { 118,-6417 }, { 119,-6417 },
- { 120,-6417 }, { 121,-6417 }, { 122,-6417 }, {   0,   0 }, { 124,-6442 },
- { 125,-6442 }, { 126,-6442 }, { 127,-6417 }, { 128,-6417 }, { 129,-6417 },
- { 130,-6417 }, { 131,-6417 }, { 132,-6417 }, { 133,-6417 }, { 134,-6417 },
- { 135,-6417 }, { 136,-6417 }, { 137,-6417 }, { 138,-6417 }, { 139,-6417 },
- { 140,-6417 }, { 141,-6417 }, { 142,-6417 }, { 143,-6417 }, { 144,-6417 },
- { 145,-6417 }, { 146,-6417 }, { 147,-6417 }, { 148,-6417 }, { 149,-6417 },
- { 150,-6417 }, { 151,-6417 }, { 152,-6417 }, { 153,-6417 }, { 154,-6417 },
- { 155,-6417 }, { 156,-6417 }, { 157,-6417 }, { 158,-6417 }, { 159,-6417 },
- { 160,-6417 }, { 161,-6417 }, { 162,-6417 }, { 163,-6417 }, { 164,-6417 },
-
- { 165,-6417 }, { 166,-6417 }, { 167,-6417 }, { 168,-6417 }, { 169,-6417 },
- { 170,-6417 }, { 171,-6417 }, { 172,-6417 }, { 173,-6417 }, { 174,-6417 },
- { 175,-6417 }, { 176,-6417 }, { 177,-6417 }, { 178,-6417 }, { 179,-6417 },
- { 180,-6417 }, { 181,-6417 }, { 182,-6417 }, { 183,-6417 }, { 184,-6417 },
- { 185,-6417 }, { 186,-6417 }, { 187,-6417 }, { 188,-6417 }, { 189,-6417 },
- { 190,-6417 }, { 191,-6417 }, { 192,-6417 }, { 193,-6417 }, { 194,-6417 },
- { 195,-6417 }, { 196,-6417 }, { 197,-6417 }, { 198,-6417 }, { 199,-6417 },
- { 200,-6417 }, { 201,-6417 }, { 202,-6417 }, { 203,-6417 }, { 204,-6417 },
- { 205,-6417 }, { 206,-6417 }, { 207,-6417 }, { 208,-6417 }, { 209,-6417 },
- { 210,-6417 }, { 211,-6417 }, { 212,-6417 }, { 213,-6417 }, { 214,-6417 },
-
- { 215,-6417 }, { 216,-6417 }, { 217,-6417 }, { 218,-6417 }, { 219,-6417 },
- { 220,-6417 }, { 221,-6417 }, { 222,-6417 }, { 223,-6417 }, { 224,-6417 },
- { 225,-6417 }, { 226,-6417 }, { 227,-6417 }, { 228,-6417 }, { 229,-6417 },
- { 230,-6417 }, { 231,-6417 }, { 232,-6417 }, { 233,-6417 }, { 234,-6417 },
- { 235,-6417 }, { 236,-6417 }, { 237,-6417 }, { 238,-6417 }, { 239,-6417 },
- { 240,-6417 }, { 241,-6417 }, { 242,-6417 }, { 243,-6417 }, { 244,-6417 },
- { 245,-6417 }, { 246,-6417 }, { 247,-6417 }, { 248,-6417 }, { 249,-6417 },
- { 250,-6417 }, { 251,-6417 }, { 252,-6417 }, { 253,-6417 }, { 254,-6417 },
- { 255,-6417 }, { 256,-6417 }, {   0,   0 }, {   0,8310 }, {   1,-6675 },
- {   2,-6675 }, {   3,-6675 }, {   4,-6675 }, {   5,-6675 }, {   6,-6675 },
-
- {   7,-6675 }, {   8,-6675 }, {   9,-6700 }, {  10,-6700 }, {  11,-6675 },
- {  12,-6675 }, {  13,-6700 }, {  14,-6675 }, {  15,-6675 }, {  16,-6675 },
- {  17,-6675 }, {  18,-6675 }, {  19,-6675 }, {  20,-6675 }, {  21,-6675 },
- {  22,-6675 }, {  23,-6675 }, {  24,-6675 }, {  25,-6675 }, {  26,-6675 },
- {  27,-6675 }, {  28,-6675 }, {  29,-6675 }, {  30,-6675 }, {  31,-6675 },
- {  32,-6700 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6675 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6700 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6675 }, {  46,-6700 },
- {  47,-6700 }, {  48,-6675 }, {  49,-6675 }, {  50,-6675 }, {  51,-6675 },
- {  52,-6675 }, {  53,-6675 }, {  54,-6675 }, {  55,-6675 }, {  56,-6675 },
-
- {  57,-6675 }, {  58,-6675 }, {   0,   0 }, {   0,   0 }, {  61,-6700 },
- {   0,   0 }, {  63,-6675 }, {   0,   0 }, {  65,-6675 }, {  66,-6675 },
- {  67,-6675 }, {  68,-6675 }, {  69,-6675 }, {  70,-6675 }, {  71,-6675 },
- {  72,-6675 }, {  73,-6675 }, {  74,-6675 }, {  75,-6675 }, {  76,-6675 },
- {  77,-6675 }, {  78,-6675 }, {  79,-6675 }, {  80,-6675 }, {  81,-6675 },
- {  82,-6675 }, {  83,-6675 }, {  84,-6675 }, {  85,-6675 }, {  86,-6675 },
- {  87,-6675 }, {  88,-6675 }, {  89,-6675 }, {  90,-6675 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6675 }, {   0,   0 },
- {  97,-6675 }, {  98,-6675 }, {  99,-6675 }, { 100,-6675 }, { 101,-6675 },
- { 102,-6675 }, { 103,-6675 }, { 104,-6675 }, { 105,-6675 }, { 106,-6675 },
-
- { 107,-6675 }, { 108,2853 }, { 109,-6675 }, { 110,-6675 }, { 111,-6675 },
- { 112,-6675 }, { 113,-6675 }, { 114,-6675 }, { 115,-6675 }, { 116,-6675 },
- { 117,-6675 }, { 118,-6675 }, { 119,-6675 }, { 120,-6675 }, { 121,-6675 },
- { 122,-6675 }, {   0,   0 }, { 124,-6700 }, { 125,-6700 }, { 126,-6700 },
- { 127,-6675 }, { 128,-6675 }, { 129,-6675 }, { 130,-6675 }, { 131,-6675 },
- { 132,-6675 }, { 133,-6675 }, { 134,-6675 }, { 135,-6675 }, { 136,-6675 },
- { 137,-6675 }, { 138,-6675 }, { 139,-6675 }, { 140,-6675 }, { 141,-6675 },
- { 142,-6675 }, { 143,-6675 }, { 144,-6675 }, { 145,-6675 }, { 146,-6675 },
- { 147,-6675 }, { 148,-6675 }, { 149,-6675 }, { 150,-6675 }, { 151,-6675 },
- { 152,-6675 }, { 153,-6675 }, { 154,-6675 }, { 155,-6675 }, { 156,-6675 },
-
- { 157,-6675 }, { 158,-6675 }, { 159,-6675 }, { 160,-6675 }, { 161,-6675 },
- { 162,-6675 }, { 163,-6675 }, { 164,-6675 }, { 165,-6675 }, { 166,-6675 },
- { 167,-6675 }, { 168,-6675 }, { 169,-6675 }, { 170,-6675 }, { 171,-6675 },
- { 172,-6675 }, { 173,-6675 }, { 174,-6675 }, { 175,-6675 }, { 176,-6675 },
- { 177,-6675 }, { 178,-6675 }, { 179,-6675 }, { 180,-6675 }, { 181,-6675 },
- { 182,-6675 }, { 183,-6675 }, { 184,-6675 }, { 185,-6675 }, { 186,-6675 },
- { 187,-6675 }, { 188,-6675 }, { 189,-6675 }, { 190,-6675 }, { 191,-6675 },
- { 192,-6675 }, { 193,-6675 }, { 194,-6675 }, { 195,-6675 }, { 196,-6675 },
- { 197,-6675 }, { 198,-6675 }, { 199,-6675 }, { 200,-6675 }, { 201,-6675 },
- { 202,-6675 }, { 203,-6675 }, { 204,-6675 }, { 205,-6675 }, { 206,-6675 },
-
- { 207,-6675 }, { 208,-6675 }, { 209,-6675 }, { 210,-6675 }, { 211,-6675 },
- { 212,-6675 }, { 213,-6675 }, { 214,-6675 }, { 215,-6675 }, { 216,-6675 },
- { 217,-6675 }, { 218,-6675 }, { 219,-6675 }, { 220,-6675 }, { 221,-6675 },
- { 222,-6675 }, { 223,-6675 }, { 224,-6675 }, { 225,-6675 }, { 226,-6675 },
- { 227,-6675 }, { 228,-6675 }, { 229,-6675 }, { 230,-6675 }, { 231,-6675 },
- { 232,-6675 }, { 233,-6675 }, { 234,-6675 }, { 235,-6675 }, { 236,-6675 },
- { 237,-6675 }, { 238,-6675 }, { 239,-6675 }, { 240,-6675 }, { 241,-6675 },
- { 242,-6675 }, { 243,-6675 }, { 244,-6675 }, { 245,-6675 }, { 246,-6675 },
- { 247,-6675 }, { 248,-6675 }, { 249,-6675 }, { 250,-6675 }, { 251,-6675 },
- { 252,-6675 }, { 253,-6675 }, { 254,-6675 }, { 255,-6675 }, { 256,-6675 },
-
- {   0,   0 }, {   0,8052 }, {   1,-6933 }, {   2,-6933 }, {   3,-6933 },
- {   4,-6933 }, {   5,-6933 }, {   6,-6933 }, {   7,-6933 }, {   8,-6933 },
- {   9,-6958 }, {  10,-6958 }, {  11,-6933 }, {  12,-6933 }, {  13,-6958 },
- {  14,-6933 }, {  15,-6933 }, {  16,-6933 }, {  17,-6933 }, {  18,-6933 },
- {  19,-6933 }, {  20,-6933 }, {  21,-6933 }, {  22,-6933 }, {  23,-6933 },
- {  24,-6933 }, {  25,-6933 }, {  26,-6933 }, {  27,-6933 }, {  28,-6933 },
- {  29,-6933 }, {  30,-6933 }, {  31,-6933 }, {  32,-6958 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-6933 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-6958 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-6933 }, {  46,-6958 }, {  47,-6958 }, {  48,-6933 },
-
- {  49,-6933 }, {  50,-6933 }, {  51,-6933 }, {  52,-6933 }, {  53,-6933 },
- {  54,-6933 }, {  55,-6933 }, {  56,-6933 }, {  57,-6933 }, {  58,-6933 },
- {   0,   0 }, {   0,   0 }, {  61,-6958 }, {   0,   0 }, {  63,-6933 },
- {   0,   0 }, {  65,-6933 }, {  66,-6933 }, {  67,-6933 }, {  68,-6933 },
- {  69,-6933 }, {  70,-6933 }, {  71,-6933 }, {  72,-6933 }, {  73,-6933 },
- {  74,-6933 }, {  75,-6933 }, {  76,-6933 }, {  77,-6933 }, {  78,-6933 },
- {  79,-6933 }, {  80,-6933 }, {  81,-6933 }, {  82,-6933 }, {  83,-6933 },
- {  84,-6933 }, {  85,-6933 }, {  86,-6933 }, {  87,-6933 }, {  88,-6933 },
- {  89,-6933 }, {  90,-6933 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-6933 }, {   0,   0 }, {  97,-6933 }, {  98,-6933 },
-
- {  99,-6933 }, { 100,-6933 }, { 101,2853 }, { 102,-6933 }, { 103,-6933 },
- { 104,-6933 }, { 105,-6933 }, { 106,-6933 }, { 107,-6933 }, { 108,-6933 },
- { 109,-6933 }, { 110,-6933 }, { 111,-6933 }, { 112,-6933 }, { 113,-6933 },
- { 114,-6933 }, { 115,-6933 }, { 116,-6933 }, { 117,-6933 }, { 118,-6933 },
- { 119,-6933 }, { 120,-6933 }, { 121,-6933 }, { 122,-6933 }, {   0,   0 },
- { 124,-6958 }, { 125,-6958 }, { 126,-6958 }, { 127,-6933 }, { 128,-6933 },
- { 129,-6933 }, { 130,-6933 }, { 131,-6933 }, { 132,-6933 }, { 133,-6933 },
- { 134,-6933 }, { 135,-6933 }, { 136,-6933 }, { 137,-6933 }, { 138,-6933 },
- { 139,-6933 }, { 140,-6933 }, { 141,-6933 }, { 142,-6933 }, { 143,-6933 },
- { 144,-6933 }, { 145,-6933 }, { 146,-6933 }, { 147,-6933 }, { 148,-6933 },
-
- { 149,-6933 }, { 150,-6933 }, { 151,-6933 }, { 152,-6933 }, { 153,-6933 },
- { 154,-6933 }, { 155,-6933 }, { 156,-6933 }, { 157,-6933 }, { 158,-6933 },
- { 159,-6933 }, { 160,-6933 }, { 161,-6933 }, { 162,-6933 }, { 163,-6933 },
- { 164,-6933 }, { 165,-6933 }, { 166,-6933 }, { 167,-6933 }, { 168,-6933 },
- { 169,-6933 }, { 170,-6933 }, { 171,-6933 }, { 172,-6933 }, { 173,-6933 },
- { 174,-6933 }, { 175,-6933 }, { 176,-6933 }, { 177,-6933 }, { 178,-6933 },
- { 179,-6933 }, { 180,-6933 }, { 181,-6933 }, { 182,-6933 }, { 183,-6933 },
- { 184,-6933 }, { 185,-6933 }, { 186,-6933 }, { 187,-6933 }, { 188,-6933 },
- { 189,-6933 }, { 190,-6933 }, { 191,-6933 }, { 192,-6933 }, { 193,-6933 },
- { 194,-6933 }, { 195,-6933 }, { 196,-6933 }, { 197,-6933 }, { 198,-6933 },
-
- { 199,-6933 }, { 200,-6933 }, { 201,-6933 }, { 202,-6933 }, { 203,-6933 },
- { 204,-6933 }, { 205,-6933 }, { 206,-6933 }, { 207,-6933 }, { 208,-6933 },
- { 209,-6933 }, { 210,-6933 }, { 211,-6933 }, { 212,-6933 }, { 213,-6933 },
- { 214,-6933 }, { 215,-6933 }, { 216,-6933 }, { 217,-6933 }, { 218,-6933 },
- { 219,-6933 }, { 220,-6933 }, { 221,-6933 }, { 222,-6933 }, { 223,-6933 },
- { 224,-6933 }, { 225,-6933 }, { 226,-6933 }, { 227,-6933 }, { 228,-6933 },
- { 229,-6933 }, { 230,-6933 }, { 231,-6933 }, { 232,-6933 }, { 233,-6933 },
- { 234,-6933 }, { 235,-6933 }, { 236,-6933 }, { 237,-6933 }, { 238,-6933 },
- { 239,-6933 }, { 240,-6933 }, { 241,-6933 }, { 242,-6933 }, { 243,-6933 },
- { 244,-6933 }, { 245,-6933 }, { 246,-6933 }, { 247,-6933 }, { 248,-6933 },
-
- { 249,-6933 }, { 250,-6933 }, { 251,-6933 }, { 252,-6933 }, { 253,-6933 },
- { 254,-6933 }, { 255,-6933 }, { 256,-6933 }, {   0,   0 }, {   0,7794 },
- {   1,-7191 }, {   2,-7191 }, {   3,-7191 }, {   4,-7191 }, {   5,-7191 },
- {   6,-7191 }, {   7,-7191 }, {   8,-7191 }, {   9,-7216 }, {  10,-7216 },
- {  11,-7191 }, {  12,-7191 }, {  13,-7216 }, {  14,-7191 }, {  15,-7191 },
- {  16,-7191 }, {  17,-7191 }, {  18,-7191 }, {  19,-7191 }, {  20,-7191 },
- {  21,-7191 }, {  22,-7191 }, {  23,-7191 }, {  24,-7191 }, {  25,-7191 },
- {  26,-7191 }, {  27,-7191 }, {  28,-7191 }, {  29,-7191 }, {  30,-7191 },
- {  31,-7191 }, {  32,-7216 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-7191 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  41,-7216 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7191 },
- {  46,-7216 }, {  47,-7216 }, {  48,-7191 }, {  49,-7191 }, {  50,-7191 },
- {  51,-7191 }, {  52,-7191 }, {  53,-7191 }, {  54,-7191 }, {  55,-7191 },
- {  56,-7191 }, {  57,-7191 }, {  58,-7191 }, {   0,   0 }, {   0,   0 },
- {  61,-7216 }, {   0,   0 }, {  63,-7191 }, {   0,   0 }, {  65,-7191 },
- {  66,-7191 }, {  67,-7191 }, {  68,-7191 }, {  69,-7191 }, {  70,-7191 },
- {  71,-7191 }, {  72,-7191 }, {  73,-7191 }, {  74,-7191 }, {  75,-7191 },
- {  76,-7191 }, {  77,-7191 }, {  78,-7191 }, {  79,-7191 }, {  80,-7191 },
- {  81,-7191 }, {  82,-7191 }, {  83,-7191 }, {  84,-7191 }, {  85,-7191 },
- {  86,-7191 }, {  87,-7191 }, {  88,-7191 }, {  89,-7191 }, {  90,-7191 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7191 },
- {   0,   0 }, {  97,-7191 }, {  98,-7191 }, {  99,-7191 }, { 100,-7191 },
- { 101,2853 }, { 102,-7191 }, { 103,-7191 }, { 104,-7191 }, { 105,-7191 },
- { 106,-7191 }, { 107,-7191 }, { 108,-7191 }, { 109,-7191 }, { 110,-7191 },
- { 111,-7191 }, { 112,-7191 }, { 113,-7191 }, { 114,-7191 }, { 115,-7191 },
- { 116,-7191 }, { 117,-7191 }, { 118,-7191 }, { 119,-7191 }, { 120,-7191 },
- { 121,-7191 }, { 122,-7191 }, {   0,   0 }, { 124,-7216 }, { 125,-7216 },
- { 126,-7216 }, { 127,-7191 }, { 128,-7191 }, { 129,-7191 }, { 130,-7191 },
- { 131,-7191 }, { 132,-7191 }, { 133,-7191 }, { 134,-7191 }, { 135,-7191 },
- { 136,-7191 }, { 137,-7191 }, { 138,-7191 }, { 139,-7191 }, { 140,-7191 },
-
- { 141,-7191 }, { 142,-7191 }, { 143,-7191 }, { 144,-7191 }, { 145,-7191 },
- { 146,-7191 }, { 147,-7191 }, { 148,-7191 }, { 149,-7191 }, { 150,-7191 },
- { 151,-7191 }, { 152,-7191 }, { 153,-7191 }, { 154,-7191 }, { 155,-7191 },
- { 156,-7191 }, { 157,-7191 }, { 158,-7191 }, { 159,-7191 }, { 160,-7191 },
- { 161,-7191 }, { 162,-7191 }, { 163,-7191 }, { 164,-7191 }, { 165,-7191 },
- { 166,-7191 }, { 167,-7191 }, { 168,-7191 }, { 169,-7191 }, { 170,-7191 },
- { 171,-7191 }, { 172,-7191 }, { 173,-7191 }, { 174,-7191 }, { 175,-7191 },
- { 176,-7191 }, { 177,-7191 }, { 178,-7191 }, { 179,-7191 }, { 180,-7191 },
- { 181,-7191 }, { 182,-7191 }, { 183,-7191 }, { 184,-7191 }, { 185,-7191 },
- { 186,-7191 }, { 187,-7191 }, { 188,-7191 }, { 189,-7191 }, { 190,-7191 },
-
- { 191,-7191 }, { 192,-7191 }, { 193,-7191 }, { 194,-7191 }, { 195,-7191 },
- { 196,-7191 }, { 197,-7191 }, { 198,-7191 }, { 199,-7191 }, { 200,-7191 },
- { 201,-7191 }, { 202,-7191 }, { 203,-7191 }, { 204,-7191 }, { 205,-7191 },
- { 206,-7191 }, { 207,-7191 }, { 208,-7191 }, { 209,-7191 }, { 210,-7191 },
- { 211,-7191 }, { 212,-7191 }, { 213,-7191 }, { 214,-7191 }, { 215,-7191 },
- { 216,-7191 }, { 217,-7191 }, { 218,-7191 }, { 219,-7191 }, { 220,-7191 },
- { 221,-7191 }, { 222,-7191 }, { 223,-7191 }, { 224,-7191 }, { 225,-7191 },
- { 226,-7191 }, { 227,-7191 }, { 228,-7191 }, { 229,-7191 }, { 230,-7191 },
- { 231,-7191 }, { 232,-7191 }, { 233,-7191 }, { 234,-7191 }, { 235,-7191 },
- { 236,-7191 }, { 237,-7191 }, { 238,-7191 }, { 239,-7191 }, { 240,-7191 },
-
- { 241,-7191 }, { 242,-7191 }, { 243,-7191 }, { 244,-7191 }, { 245,-7191 },
- { 246,-7191 }, { 247,-7191 }, { 248,-7191 }, { 249,-7191 }, { 250,-7191 },
- { 251,-7191 }, { 252,-7191 }, { 253,-7191 }, { 254,-7191 }, { 255,-7191 },
- { 256,-7191 }, {   0,   0 }, {   0,7536 }, {   0,  25 }, {   0,7534 },
- {   0,   0 }, {   0,7532 }, {   0,   0 }, {   0,7530 }, {   0,  27 },
- {   0,7528 }, {   9,   0 }, {  10,   0 }, {   0,  37 }, {   0,7524 },
- {  13,   0 }, {   0,  31 }, {   0,7521 }, {   0,   0 }, {   0,7519 },
- {   0,  38 }, {   0,7517 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   9, -15 }, {  10, -15 }, {   0,   0 }, {   0,   0 },
- {  13, -15 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32, -15 },
- {  33,-1431 }, {   0,   0 }, {  35,-1429 }, {   0,   0 }, {   0,   0 },
- {  38,-1427 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  42,-1425 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  47,-1421 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-1418 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,1188 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,2855 },
- {   0,   0 }, {  94, -13 }, {   0,   0 }, {   0,   0 }, { 108,2855 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101, -11 }, { 115,2851 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2853 },
- { 126,2855 }, {   0,   0 }, { 115,  -9 }, { 123,2855 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2855 },
- { 123,2850 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2852 },
- {   0,   0 }, {   0,7392 }, {   1,2840 }, {   2,2840 }, {   3,2840 },
- {   4,2840 }, {   5,2840 }, {   6,2840 }, {   7,2840 }, {   8,2840 },
- {   9,2840 }, {  10,2840 }, {  11,2840 }, {  12,2840 }, {  13,2840 },
- {  14,2840 }, {  15,2840 }, {  16,2840 }, {  17,2840 }, {  18,2840 },
- {  19,2840 }, {  20,2840 }, {  21,2840 }, {  22,2840 }, {  23,2840 },
- {  24,2840 }, {  25,2840 }, {  26,2840 }, {  27,2840 }, {  28,2840 },
- {  29,2840 }, {  30,2840 }, {  31,2840 }, {  32,2840 }, {  33,2840 },
- {  34,2840 }, {  35,2840 }, {  36,2840 }, {  37,2840 }, {  38,2840 },
-
- {  39,2840 }, {  40,2840 }, {  41,2840 }, {  42,2840 }, {  43,2840 },
- {  44,2840 }, {  45,3098 }, {  46,2840 }, {  47,2840 }, {  48,2840 },
- {  49,2840 }, {  50,2840 }, {  51,2840 }, {  52,2840 }, {  53,2840 },
- {  54,2840 }, {  55,2840 }, {  56,2840 }, {  57,2840 }, {  58,2840 },
- {  59,2840 }, {  60,2840 }, {  61,2840 }, {  62,2840 }, {  63,2840 },
- {  64,2840 }, {  65,2840 }, {  66,2840 }, {  67,2840 }, {  68,2840 },
- {  69,2840 }, {  70,2840 }, {  71,2840 }, {  72,2840 }, {  73,2840 },
- {  74,2840 }, {  75,2840 }, {  76,2840 }, {  77,2840 }, {  78,2840 },
- {  79,2840 }, {  80,2840 }, {  81,2840 }, {  82,2840 }, {  83,2840 },
- {  84,2840 }, {  85,2840 }, {  86,2840 }, {  87,2840 }, {  88,2840 },
-
- {  89,2840 }, {  90,2840 }, {  91,2840 }, {  92,2840 }, {  93,2840 },
- {  94,2840 }, {  95,2840 }, {  96,2840 }, {  97,2840 }, {  98,2840 },
- {  99,2840 }, { 100,2840 }, { 101,2840 }, { 102,2840 }, { 103,2840 },
- { 104,2840 }, { 105,2840 }, { 106,2840 }, { 107,2840 }, { 108,2840 },
- { 109,2840 }, { 110,2840 }, { 111,2840 }, { 112,2840 }, { 113,2840 },
- { 114,2840 }, { 115,2840 }, { 116,2840 }, { 117,2840 }, { 118,2840 },
- { 119,2840 }, { 120,2840 }, { 121,2840 }, { 122,2840 }, { 123,2840 },
- { 124,2840 }, { 125,2840 }, { 126,2840 }, { 127,2840 }, { 128,2840 },
- { 129,2840 }, { 130,2840 }, { 131,2840 }, { 132,2840 }, { 133,2840 },
- { 134,2840 }, { 135,2840 }, { 136,2840 }, { 137,2840 }, { 138,2840 },
-
- { 139,2840 }, { 140,2840 }, { 141,2840 }, { 142,2840 }, { 143,2840 },
- { 144,2840 }, { 145,2840 }, { 146,2840 }, { 147,2840 }, { 148,2840 },
- { 149,2840 }, { 150,2840 }, { 151,2840 }, { 152,2840 }, { 153,2840 },
- { 154,2840 }, { 155,2840 }, { 156,2840 }, { 157,2840 }, { 158,2840 },
- { 159,2840 }, { 160,2840 }, { 161,2840 }, { 162,2840 }, { 163,2840 },
- { 164,2840 }, { 165,2840 }, { 166,2840 }, { 167,2840 }, { 168,2840 },
- { 169,2840 }, { 170,2840 }, { 171,2840 }, { 172,2840 }, { 173,2840 },
- { 174,2840 }, { 175,2840 }, { 176,2840 }, { 177,2840 }, { 178,2840 },
- { 179,2840 }, { 180,2840 }, { 181,2840 }, { 182,2840 }, { 183,2840 },
- { 184,2840 }, { 185,2840 }, { 186,2840 }, { 187,2840 }, { 188,2840 },
-
- { 189,2840 }, { 190,2840 }, { 191,2840 }, { 192,2840 }, { 193,2840 },
- { 194,2840 }, { 195,2840 }, { 196,2840 }, { 197,2840 }, { 198,2840 },
- { 199,2840 }, { 200,2840 }, { 201,2840 }, { 202,2840 }, { 203,2840 },
- { 204,2840 }, { 205,2840 }, { 206,2840 }, { 207,2840 }, { 208,2840 },
- { 209,2840 }, { 210,2840 }, { 211,2840 }, { 212,2840 }, { 213,2840 },
- { 214,2840 }, { 215,2840 }, { 216,2840 }, { 217,2840 }, { 218,2840 },
- { 219,2840 }, { 220,2840 }, { 221,2840 }, { 222,2840 }, { 223,2840 },
- { 224,2840 }, { 225,2840 }, { 226,2840 }, { 227,2840 }, { 228,2840 },
- { 229,2840 }, { 230,2840 }, { 231,2840 }, { 232,2840 }, { 233,2840 },
- { 234,2840 }, { 235,2840 }, { 236,2840 }, { 237,2840 }, { 238,2840 },
-
- { 239,2840 }, { 240,2840 }, { 241,2840 }, { 242,2840 }, { 243,2840 },
- { 244,2840 }, { 245,2840 }, { 246,2840 }, { 247,2840 }, { 248,2840 },
- { 249,2840 }, { 250,2840 }, { 251,2840 }, { 252,2840 }, { 253,2840 },
- { 254,2840 }, { 255,2840 }, { 256,2840 }, {   0,   0 }, {   0,7134 },
- {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
- {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
- {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
- {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
- {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
- {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
+ { 253,-4518 }, { 254,-4518 }, { 255,-4518 }, { 256,-4518 }, {   0,  49 },
+ {   0,8490 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,2900 },
+ {  10,2900 }, {   0,   0 }, {   0,   0 }, {  13,2900 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,  27 }, {   0,8462 }, {   0,   0 },
+ {   0,  37 }, {   0,8459 }, {  32,2900 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,8432 }, {   0,   0 },
+ {   0,8430 }, {   1,-6477 }, {   2,-6477 }, {   3,-6477 }, {   4,-6477 },
+
+ {   5,-6477 }, {   6,-6477 }, {   7,-6477 }, {   8,-6477 }, {   9,-6502 },
+ {  10,-6502 }, {  11,-6477 }, {  12,-6477 }, {  13,-6502 }, {  14,-6477 },
+ {  15,-6477 }, {  16,-6477 }, {  17,-6477 }, {  18,-6477 }, {  19,-6477 },
+ {  20,-6477 }, {  21,-6477 }, {  22,-6477 }, {  23,-6477 }, {  24,-6477 },
+ {  25,-6477 }, {  26,-6477 }, {  27,-6477 }, {  28,-6477 }, {  29,-6477 },
+ {  30,-6477 }, {  31,-6477 }, {  32,-6502 }, {   0,  38 }, {   0,8396 },
+ {   0,   0 }, {  36,-6477 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-6502 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-6477 }, {  46,-6502 }, {  47,-6502 }, {  48,-6477 }, {  49,-6477 },
+ {  50,-6477 }, {  51,-6477 }, {  52,-6477 }, {  53,-6477 }, {  54,-6477 },
+
+ {  55,-6477 }, {  56,-6477 }, {  57,-6477 }, {  58,-6477 }, {   0,   0 },
+ {   0,   0 }, {  61,-6502 }, {   0,   0 }, {  63,-6477 }, { 124,2265 },
+ {  65,-6477 }, {  66,-6477 }, {  67,-6477 }, {  68,-6477 }, {  69,-6477 },
+ {  70,-6477 }, {  71,-6477 }, {  72,-6477 }, {  73,-6477 }, {  74,-6477 },
+ {  75,-6477 }, {  76,-6477 }, {  77,-6477 }, {  78,-6477 }, {  79,-6477 },
+ {  80,-6477 }, {  81,-6477 }, {  82,-6477 }, {  83,-6477 }, {  84,-6477 },
+ {  85,-6477 }, {  86,-6477 }, {  87,-6477 }, {  88,-6477 }, {  89,-6477 },
+ {  90,-6477 }, { 123,2911 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-6477 }, { 125,2912 }, {  97,-6477 }, {  98,-6477 }, {  99,-6477 },
+ { 100,-6477 }, { 101,-6477 }, { 102,-6477 }, { 103,-6477 }, { 104,-6477 },
+
+ { 105,-6477 }, { 106,-6477 }, { 107,-6477 }, { 108,-6477 }, { 109,-6477 },
+ { 110,-6477 }, { 111,-6477 }, { 112,-6477 }, { 113,-6477 }, { 114,-6477 },
+ { 115,2900 }, { 116,-6477 }, { 117,-6477 }, { 118,-6477 }, { 119,-6477 },
+ { 120,-6477 }, { 121,-6477 }, { 122,-6477 }, { 125,2887 }, { 124,-6502 },
+ { 125,-6502 }, { 126,-6502 }, { 127,-6477 }, { 128,-6477 }, { 129,-6477 },
+ { 130,-6477 }, { 131,-6477 }, { 132,-6477 }, { 133,-6477 }, { 134,-6477 },
+ { 135,-6477 }, { 136,-6477 }, { 137,-6477 }, { 138,-6477 }, { 139,-6477 },
+ { 140,-6477 }, { 141,-6477 }, { 142,-6477 }, { 143,-6477 }, { 144,-6477 },
+ { 145,-6477 }, { 146,-6477 }, { 147,-6477 }, { 148,-6477 }, { 149,-6477 },
+ { 150,-6477 }, { 151,-6477 }, { 152,-6477 }, { 153,-6477 }, { 154,-6477 },
+
+ { 155,-6477 }, { 156,-6477 }, { 157,-6477 }, { 158,-6477 }, { 159,-6477 },
+ { 160,-6477 }, { 161,-6477 }, { 162,-6477 }, { 163,-6477 }, { 164,-6477 },
+ { 165,-6477 }, { 166,-6477 }, { 167,-6477 }, { 168,-6477 }, { 169,-6477 },
+ { 170,-6477 }, { 171,-6477 }, { 172,-6477 }, { 173,-6477 }, { 174,-6477 },
+ { 175,-6477 }, { 176,-6477 }, { 177,-6477 }, { 178,-6477 }, { 179,-6477 },
+ { 180,-6477 }, { 181,-6477 }, { 182,-6477 }, { 183,-6477 }, { 184,-6477 },
+ { 185,-6477 }, { 186,-6477 }, { 187,-6477 }, { 188,-6477 }, { 189,-6477 },
+ { 190,-6477 }, { 191,-6477 }, { 192,-6477 }, { 193,-6477 }, { 194,-6477 },
+ { 195,-6477 }, { 196,-6477 }, { 197,-6477 }, { 198,-6477 }, { 199,-6477 },
+ { 200,-6477 }, { 201,-6477 }, { 202,-6477 }, { 203,-6477 }, { 204,-6477 },
+
+ { 205,-6477 }, { 206,-6477 }, { 207,-6477 }, { 208,-6477 }, { 209,-6477 },
+ { 210,-6477 }, { 211,-6477 }, { 212,-6477 }, { 213,-6477 }, { 214,-6477 },
+ { 215,-6477 }, { 216,-6477 }, { 217,-6477 }, { 218,-6477 }, { 219,-6477 },
+ { 220,-6477 }, { 221,-6477 }, { 222,-6477 }, { 223,-6477 }, { 224,-6477 },
+ { 225,-6477 }, { 226,-6477 }, { 227,-6477 }, { 228,-6477 }, { 229,-6477 },
+ { 230,-6477 }, { 231,-6477 }, { 232,-6477 }, { 233,-6477 }, { 234,-6477 },
+ { 235,-6477 }, { 236,-6477 }, { 237,-6477 }, { 238,-6477 }, { 239,-6477 },
+ { 240,-6477 }, { 241,-6477 }, { 242,-6477 }, { 243,-6477 }, { 244,-6477 },
+ { 245,-6477 }, { 246,-6477 }, { 247,-6477 }, { 248,-6477 }, { 249,-6477 },
+ { 250,-6477 }, { 251,-6477 }, { 252,-6477 }, { 253,-6477 }, { 254,-6477 },
+
+ { 255,-6477 }, { 256,-6477 }, {   0,   0 }, {   0,8172 }, {   1,-6735 },
+ {   2,-6735 }, {   3,-6735 }, {   4,-6735 }, {   5,-6735 }, {   6,-6735 },
+ {   7,-6735 }, {   8,-6735 }, {   9,-6760 }, {  10,-6760 }, {  11,-6735 },
+ {  12,-6735 }, {  13,-6760 }, {  14,-6735 }, {  15,-6735 }, {  16,-6735 },
+ {  17,-6735 }, {  18,-6735 }, {  19,-6735 }, {  20,-6735 }, {  21,-6735 },
+ {  22,-6735 }, {  23,-6735 }, {  24,-6735 }, {  25,-6735 }, {  26,-6735 },
+ {  27,-6735 }, {  28,-6735 }, {  29,-6735 }, {  30,-6735 }, {  31,-6735 },
+ {  32,-6760 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6735 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6760 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6735 }, {  46,-6760 },
+
+ {  47,-6760 }, {  48,-6735 }, {  49,-6735 }, {  50,-6735 }, {  51,-6735 },
+ {  52,-6735 }, {  53,-6735 }, {  54,-6735 }, {  55,-6735 }, {  56,-6735 },
+ {  57,-6735 }, {  58,-6735 }, {   0,   0 }, {   0,   0 }, {  61,-6760 },
+ {   0,   0 }, {  63,-6735 }, {   0,   0 }, {  65,-6735 }, {  66,-6735 },
+ {  67,-6735 }, {  68,-6735 }, {  69,-6735 }, {  70,-6735 }, {  71,-6735 },
+ {  72,-6735 }, {  73,-6735 }, {  74,-6735 }, {  75,-6735 }, {  76,-6735 },
+ {  77,-6735 }, {  78,-6735 }, {  79,-6735 }, {  80,-6735 }, {  81,-6735 },
+ {  82,-6735 }, {  83,-6735 }, {  84,-6735 }, {  85,-6735 }, {  86,-6735 },
+ {  87,-6735 }, {  88,-6735 }, {  89,-6735 }, {  90,-6735 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6735 }, {   0,   0 },
+
+ {  97,-6735 }, {  98,-6735 }, {  99,-6735 }, { 100,-6735 }, { 101,-6735 },
+ { 102,-6735 }, { 103,-6735 }, { 104,-6735 }, { 105,-6735 }, { 106,-6735 },
+ { 107,-6735 }, { 108,2900 }, { 109,-6735 }, { 110,-6735 }, { 111,-6735 },
+ { 112,-6735 }, { 113,-6735 }, { 114,-6735 }, { 115,-6735 }, { 116,-6735 },
+ { 117,-6735 }, { 118,-6735 }, { 119,-6735 }, { 120,-6735 }, { 121,-6735 },
+ { 122,-6735 }, {   0,   0 }, { 124,-6760 }, { 125,-6760 }, { 126,-6760 },
+ { 127,-6735 }, { 128,-6735 }, { 129,-6735 }, { 130,-6735 }, { 131,-6735 },
+ { 132,-6735 }, { 133,-6735 }, { 134,-6735 }, { 135,-6735 }, { 136,-6735 },
+ { 137,-6735 }, { 138,-6735 }, { 139,-6735 }, { 140,-6735 }, { 141,-6735 },
+ { 142,-6735 }, { 143,-6735 }, { 144,-6735 }, { 145,-6735 }, { 146,-6735 },
+
+ { 147,-6735 }, { 148,-6735 }, { 149,-6735 }, { 150,-6735 }, { 151,-6735 },
+ { 152,-6735 }, { 153,-6735 }, { 154,-6735 }, { 155,-6735 }, { 156,-6735 },
+ { 157,-6735 }, { 158,-6735 }, { 159,-6735 }, { 160,-6735 }, { 161,-6735 },
+ { 162,-6735 }, { 163,-6735 }, { 164,-6735 }, { 165,-6735 }, { 166,-6735 },
+ { 167,-6735 }, { 168,-6735 }, { 169,-6735 }, { 170,-6735 }, { 171,-6735 },
+ { 172,-6735 }, { 173,-6735 }, { 174,-6735 }, { 175,-6735 }, { 176,-6735 },
+ { 177,-6735 }, { 178,-6735 }, { 179,-6735 }, { 180,-6735 }, { 181,-6735 },
+ { 182,-6735 }, { 183,-6735 }, { 184,-6735 }, { 185,-6735 }, { 186,-6735 },
+ { 187,-6735 }, { 188,-6735 }, { 189,-6735 }, { 190,-6735 }, { 191,-6735 },
+ { 192,-6735 }, { 193,-6735 }, { 194,-6735 }, { 195,-6735 }, { 196,-6735 },
+
+ { 197,-6735 }, { 198,-6735 }, { 199,-6735 }, { 200,-6735 }, { 201,-6735 },
+ { 202,-6735 }, { 203,-6735 }, { 204,-6735 }, { 205,-6735 }, { 206,-6735 },
+ { 207,-6735 }, { 208,-6735 }, { 209,-6735 }, { 210,-6735 }, { 211,-6735 },
+ { 212,-6735 }, { 213,-6735 }, { 214,-6735 }, { 215,-6735 }, { 216,-6735 },
+ { 217,-6735 }, { 218,-6735 }, { 219,-6735 }, { 220,-6735 }, { 221,-6735 },
+ { 222,-6735 }, { 223,-6735 }, { 224,-6735 }, { 225,-6735 }, { 226,-6735 },
+ { 227,-6735 }, { 228,-6735 }, { 229,-6735 }, { 230,-6735 }, { 231,-6735 },
+ { 232,-6735 }, { 233,-6735 }, { 234,-6735 }, { 235,-6735 }, { 236,-6735 },
+ { 237,-6735 }, { 238,-6735 }, { 239,-6735 }, { 240,-6735 }, { 241,-6735 },
+ { 242,-6735 }, { 243,-6735 }, { 244,-6735 }, { 245,-6735 }, { 246,-6735 },
+
+ { 247,-6735 }, { 248,-6735 }, { 249,-6735 }, { 250,-6735 }, { 251,-6735 },
+ { 252,-6735 }, { 253,-6735 }, { 254,-6735 }, { 255,-6735 }, { 256,-6735 },
+ {   0,   0 }, {   0,7914 }, {   1,-6993 }, {   2,-6993 }, {   3,-6993 },
+ {   4,-6993 }, {   5,-6993 }, {   6,-6993 }, {   7,-6993 }, {   8,-6993 },
+ {   9,-7018 }, {  10,-7018 }, {  11,-6993 }, {  12,-6993 }, {  13,-7018 },
+ {  14,-6993 }, {  15,-6993 }, {  16,-6993 }, {  17,-6993 }, {  18,-6993 },
+ {  19,-6993 }, {  20,-6993 }, {  21,-6993 }, {  22,-6993 }, {  23,-6993 },
+ {  24,-6993 }, {  25,-6993 }, {  26,-6993 }, {  27,-6993 }, {  28,-6993 },
+ {  29,-6993 }, {  30,-6993 }, {  31,-6993 }, {  32,-7018 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-6993 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  41,-7018 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-6993 }, {  46,-7018 }, {  47,-7018 }, {  48,-6993 },
+ {  49,-6993 }, {  50,-6993 }, {  51,-6993 }, {  52,-6993 }, {  53,-6993 },
+ {  54,-6993 }, {  55,-6993 }, {  56,-6993 }, {  57,-6993 }, {  58,-6993 },
+ {   0,   0 }, {   0,   0 }, {  61,-7018 }, {   0,   0 }, {  63,-6993 },
+ {   0,   0 }, {  65,-6993 }, {  66,-6993 }, {  67,-6993 }, {  68,-6993 },
+ {  69,-6993 }, {  70,-6993 }, {  71,-6993 }, {  72,-6993 }, {  73,-6993 },
+ {  74,-6993 }, {  75,-6993 }, {  76,-6993 }, {  77,-6993 }, {  78,-6993 },
+ {  79,-6993 }, {  80,-6993 }, {  81,-6993 }, {  82,-6993 }, {  83,-6993 },
+ {  84,-6993 }, {  85,-6993 }, {  86,-6993 }, {  87,-6993 }, {  88,-6993 },
+
+ {  89,-6993 }, {  90,-6993 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-6993 }, {   0,   0 }, {  97,-6993 }, {  98,-6993 },
+ {  99,-6993 }, { 100,-6993 }, { 101,2900 }, { 102,-6993 }, { 103,-6993 },
+ { 104,-6993 }, { 105,-6993 }, { 106,-6993 }, { 107,-6993 }, { 108,-6993 },
+ { 109,-6993 }, { 110,-6993 }, { 111,-6993 }, { 112,-6993 }, { 113,-6993 },
+ { 114,-6993 }, { 115,-6993 }, { 116,-6993 }, { 117,-6993 }, { 118,-6993 },
+ { 119,-6993 }, { 120,-6993 }, { 121,-6993 }, { 122,-6993 }, {   0,   0 },
+ { 124,-7018 }, { 125,-7018 }, { 126,-7018 }, { 127,-6993 }, { 128,-6993 },
+ { 129,-6993 }, { 130,-6993 }, { 131,-6993 }, { 132,-6993 }, { 133,-6993 },
+ { 134,-6993 }, { 135,-6993 }, { 136,-6993 }, { 137,-6993 }, { 138,-6993 },
+
+ { 139,-6993 }, { 140,-6993 }, { 141,-6993 }, { 142,-6993 }, { 143,-6993 },
+ { 144,-6993 }, { 145,-6993 }, { 146,-6993 }, { 147,-6993 }, { 148,-6993 },
+ { 149,-6993 }, { 150,-6993 }, { 151,-6993 }, { 152,-6993 }, { 153,-6993 },
+ { 154,-6993 }, { 155,-6993 }, { 156,-6993 }, { 157,-6993 }, { 158,-6993 },
+ { 159,-6993 }, { 160,-6993 }, { 161,-6993 }, { 162,-6993 }, { 163,-6993 },
+ { 164,-6993 }, { 165,-6993 }, { 166,-6993 }, { 167,-6993 }, { 168,-6993 },
+ { 169,-6993 }, { 170,-6993 }, { 171,-6993 }, { 172,-6993 }, { 173,-6993 },
+ { 174,-6993 }, { 175,-6993 }, { 176,-6993 }, { 177,-6993 }, { 178,-6993 },
+ { 179,-6993 }, { 180,-6993 }, { 181,-6993 }, { 182,-6993 }, { 183,-6993 },
+ { 184,-6993 }, { 185,-6993 }, { 186,-6993 }, { 187,-6993 }, { 188,-6993 },
+
+ { 189,-6993 }, { 190,-6993 }, { 191,-6993 }, { 192,-6993 }, { 193,-6993 },
+ { 194,-6993 }, { 195,-6993 }, { 196,-6993 }, { 197,-6993 }, { 198,-6993 },
+ { 199,-6993 }, { 200,-6993 }, { 201,-6993 }, { 202,-6993 }, { 203,-6993 },
+ { 204,-6993 }, { 205,-6993 }, { 206,-6993 }, { 207,-6993 }, { 208,-6993 },
+ { 209,-6993 }, { 210,-6993 }, { 211,-6993 }, { 212,-6993 }, { 213,-6993 },
+ { 214,-6993 }, { 215,-6993 }, { 216,-6993 }, { 217,-6993 }, { 218,-6993 },
+ { 219,-6993 }, { 220,-6993 }, { 221,-6993 }, { 222,-6993 }, { 223,-6993 },
+ { 224,-6993 }, { 225,-6993 }, { 226,-6993 }, { 227,-6993 }, { 228,-6993 },
+ { 229,-6993 }, { 230,-6993 }, { 231,-6993 }, { 232,-6993 }, { 233,-6993 },
+ { 234,-6993 }, { 235,-6993 }, { 236,-6993 }, { 237,-6993 }, { 238,-6993 },
+
+ { 239,-6993 }, { 240,-6993 }, { 241,-6993 }, { 242,-6993 }, { 243,-6993 },
+ { 244,-6993 }, { 245,-6993 }, { 246,-6993 }, { 247,-6993 }, { 248,-6993 },
+ { 249,-6993 }, { 250,-6993 }, { 251,-6993 }, { 252,-6993 }, { 253,-6993 },
+ { 254,-6993 }, { 255,-6993 }, { 256,-6993 }, {   0,   0 }, {   0,7656 },
+ {   1,-7251 }, {   2,-7251 }, {   3,-7251 }, {   4,-7251 }, {   5,-7251 },
+ {   6,-7251 }, {   7,-7251 }, {   8,-7251 }, {   9,-7276 }, {  10,-7276 },
+ {  11,-7251 }, {  12,-7251 }, {  13,-7276 }, {  14,-7251 }, {  15,-7251 },
+ {  16,-7251 }, {  17,-7251 }, {  18,-7251 }, {  19,-7251 }, {  20,-7251 },
+ {  21,-7251 }, {  22,-7251 }, {  23,-7251 }, {  24,-7251 }, {  25,-7251 },
+ {  26,-7251 }, {  27,-7251 }, {  28,-7251 }, {  29,-7251 }, {  30,-7251 },
+
+ {  31,-7251 }, {  32,-7276 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-7251 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-7276 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7251 },
+ {  46,-7276 }, {  47,-7276 }, {  48,-7251 }, {  49,-7251 }, {  50,-7251 },
+ {  51,-7251 }, {  52,-7251 }, {  53,-7251 }, {  54,-7251 }, {  55,-7251 },
+ {  56,-7251 }, {  57,-7251 }, {  58,-7251 }, {   0,   0 }, {   0,   0 },
+ {  61,-7276 }, {   0,   0 }, {  63,-7251 }, {   0,   0 }, {  65,-7251 },
+ {  66,-7251 }, {  67,-7251 }, {  68,-7251 }, {  69,-7251 }, {  70,-7251 },
+ {  71,-7251 }, {  72,-7251 }, {  73,-7251 }, {  74,-7251 }, {  75,-7251 },
+ {  76,-7251 }, {  77,-7251 }, {  78,-7251 }, {  79,-7251 }, {  80,-7251 },
+
+ {  81,-7251 }, {  82,-7251 }, {  83,-7251 }, {  84,-7251 }, {  85,-7251 },
+ {  86,-7251 }, {  87,-7251 }, {  88,-7251 }, {  89,-7251 }, {  90,-7251 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7251 },
+ {   0,   0 }, {  97,-7251 }, {  98,-7251 }, {  99,-7251 }, { 100,-7251 },
+ { 101,2900 }, { 102,-7251 }, { 103,-7251 }, { 104,-7251 }, { 105,-7251 },
+ { 106,-7251 }, { 107,-7251 }, { 108,-7251 }, { 109,-7251 }, { 110,-7251 },
+ { 111,-7251 }, { 112,-7251 }, { 113,-7251 }, { 114,-7251 }, { 115,-7251 },
+ { 116,-7251 }, { 117,-7251 }, { 118,-7251 }, { 119,-7251 }, { 120,-7251 },
+ { 121,-7251 }, { 122,-7251 }, {   0,   0 }, { 124,-7276 }, { 125,-7276 },
+ { 126,-7276 }, { 127,-7251 }, { 128,-7251 }, { 129,-7251 }, { 130,-7251 },
+
+ { 131,-7251 }, { 132,-7251 }, { 133,-7251 }, { 134,-7251 }, { 135,-7251 },
+ { 136,-7251 }, { 137,-7251 }, { 138,-7251 }, { 139,-7251 }, { 140,-7251 },
+ { 141,-7251 }, { 142,-7251 }, { 143,-7251 }, { 144,-7251 }, { 145,-7251 },
+ { 146,-7251 }, { 147,-7251 }, { 148,-7251 }, { 149,-7251 }, { 150,-7251 },
+ { 151,-7251 }, { 152,-7251 }, { 153,-7251 }, { 154,-7251 }, { 155,-7251 },
+ { 156,-7251 }, { 157,-7251 }, { 158,-7251 }, { 159,-7251 }, { 160,-7251 },
+ { 161,-7251 }, { 162,-7251 }, { 163,-7251 }, { 164,-7251 }, { 165,-7251 },
+ { 166,-7251 }, { 167,-7251 }, { 168,-7251 }, { 169,-7251 }, { 170,-7251 },
+ { 171,-7251 }, { 172,-7251 }, { 173,-7251 }, { 174,-7251 }, { 175,-7251 },
+ { 176,-7251 }, { 177,-7251 }, { 178,-7251 }, { 179,-7251 }, { 180,-7251 },
+
+ { 181,-7251 }, { 182,-7251 }, { 183,-7251 }, { 184,-7251 }, { 185,-7251 },
+ { 186,-7251 }, { 187,-7251 }, { 188,-7251 }, { 189,-7251 }, { 190,-7251 },
+ { 191,-7251 }, { 192,-7251 }, { 193,-7251 }, { 194,-7251 }, { 195,-7251 },
+ { 196,-7251 }, { 197,-7251 }, { 198,-7251 }, { 199,-7251 }, { 200,-7251 },
+ { 201,-7251 }, { 202,-7251 }, { 203,-7251 }, { 204,-7251 }, { 205,-7251 },
+ { 206,-7251 }, { 207,-7251 }, { 208,-7251 }, { 209,-7251 }, { 210,-7251 },
+ { 211,-7251 }, { 212,-7251 }, { 213,-7251 }, { 214,-7251 }, { 215,-7251 },
+ { 216,-7251 }, { 217,-7251 }, { 218,-7251 }, { 219,-7251 }, { 220,-7251 },
+ { 221,-7251 }, { 222,-7251 }, { 223,-7251 }, { 224,-7251 }, { 225,-7251 },
+ { 226,-7251 }, { 227,-7251 }, { 228,-7251 }, { 229,-7251 }, { 230,-7251 },
+
+ { 231,-7251 }, { 232,-7251 }, { 233,-7251 }, { 234,-7251 }, { 235,-7251 },
+ { 236,-7251 }, { 237,-7251 }, { 238,-7251 }, { 239,-7251 }, { 240,-7251 },
+ { 241,-7251 }, { 242,-7251 }, { 243,-7251 }, { 244,-7251 }, { 245,-7251 },
+ { 246,-7251 }, { 247,-7251 }, { 248,-7251 }, { 249,-7251 }, { 250,-7251 },
+ { 251,-7251 }, { 252,-7251 }, { 253,-7251 }, { 254,-7251 }, { 255,-7251 },
+ { 256,-7251 }, {   0,   0 }, {   0,7398 }, {   0,  25 }, {   0,7396 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,7392 }, {   0,  31 },
+ {   0,7390 }, {   9,   0 }, {  10,   0 }, {   9,2898 }, {  10,2898 },
+ {  13,   0 }, {   0,   0 }, {  13,2898 }, {   0,   0 }, {   9,  -8 },
+ {  10,  -8 }, {   0,   0 }, {   0,   0 }, {  13,  -8 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
+ {   0,   0 }, {  32,2898 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32,  -8 }, {  33,-2381 }, {   0,   0 },
+ {  35,-2379 }, {   0,   0 }, {   0,   0 }, {  38,-2377 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  42,-2375 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  47,-2373 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62,-2371 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,-2268 }, {  94,  -6 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101,-2276 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1257 },
+ { 126,1832 }, { 123,3796 }, {   0,   0 }, { 123,1841 }, {   0,   0 },
+ {   0,7265 }, {   1,2895 }, {   2,2895 }, {   3,2895 }, {   4,2895 },
+ {   5,2895 }, {   6,2895 }, {   7,2895 }, {   8,2895 }, {   9,2895 },
+ {  10,2895 }, {  11,2895 }, {  12,2895 }, {  13,2895 }, {  14,2895 },
+ {  15,2895 }, {  16,2895 }, {  17,2895 }, {  18,2895 }, {  19,2895 },
+ {  20,2895 }, {  21,2895 }, {  22,2895 }, {  23,2895 }, {  24,2895 },
+ {  25,2895 }, {  26,2895 }, {  27,2895 }, {  28,2895 }, {  29,2895 },
+ {  30,2895 }, {  31,2895 }, {  32,2895 }, {  33,2895 }, {  34,2895 },
+ {  35,2895 }, {  36,2895 }, {  37,2895 }, {  38,2895 }, {  39,2895 },
+
+ {  40,2895 }, {  41,2895 }, {  42,2895 }, {  43,2895 }, {  44,2895 },
+ {  45,3153 }, {  46,2895 }, {  47,2895 }, {  48,2895 }, {  49,2895 },
+ {  50,2895 }, {  51,2895 }, {  52,2895 }, {  53,2895 }, {  54,2895 },
+ {  55,2895 }, {  56,2895 }, {  57,2895 }, {  58,2895 }, {  59,2895 },
+ {  60,2895 }, {  61,2895 }, {  62,2895 }, {  63,2895 }, {  64,2895 },
+ {  65,2895 }, {  66,2895 }, {  67,2895 }, {  68,2895 }, {  69,2895 },
+ {  70,2895 }, {  71,2895 }, {  72,2895 }, {  73,2895 }, {  74,2895 },
+ {  75,2895 }, {  76,2895 }, {  77,2895 }, {  78,2895 }, {  79,2895 },
+ {  80,2895 }, {  81,2895 }, {  82,2895 }, {  83,2895 }, {  84,2895 },
+ {  85,2895 }, {  86,2895 }, {  87,2895 }, {  88,2895 }, {  89,2895 },
+
+ {  90,2895 }, {  91,2895 }, {  92,2895 }, {  93,2895 }, {  94,2895 },
+ {  95,2895 }, {  96,2895 }, {  97,2895 }, {  98,2895 }, {  99,2895 },
+ { 100,2895 }, { 101,2895 }, { 102,2895 }, { 103,2895 }, { 104,2895 },
+ { 105,2895 }, { 106,2895 }, { 107,2895 }, { 108,2895 }, { 109,2895 },
+ { 110,2895 }, { 111,2895 }, { 112,2895 }, { 113,2895 }, { 114,2895 },
+ { 115,2895 }, { 116,2895 }, { 117,2895 }, { 118,2895 }, { 119,2895 },
+ { 120,2895 }, { 121,2895 }, { 122,2895 }, { 123,2895 }, { 124,2895 },
+ { 125,2895 }, { 126,2895 }, { 127,2895 }, { 128,2895 }, { 129,2895 },
+ { 130,2895 }, { 131,2895 }, { 132,2895 }, { 133,2895 }, { 134,2895 },
+ { 135,2895 }, { 136,2895 }, { 137,2895 }, { 138,2895 }, { 139,2895 },
+
+ { 140,2895 }, { 141,2895 }, { 142,2895 }, { 143,2895 }, { 144,2895 },
+ { 145,2895 }, { 146,2895 }, { 147,2895 }, { 148,2895 }, { 149,2895 },
+ { 150,2895 }, { 151,2895 }, { 152,2895 }, { 153,2895 }, { 154,2895 },
+ { 155,2895 }, { 156,2895 }, { 157,2895 }, { 158,2895 }, { 159,2895 },
+ { 160,2895 }, { 161,2895 }, { 162,2895 }, { 163,2895 }, { 164,2895 },
+ { 165,2895 }, { 166,2895 }, { 167,2895 }, { 168,2895 }, { 169,2895 },
+ { 170,2895 }, { 171,2895 }, { 172,2895 }, { 173,2895 }, { 174,2895 },
+ { 175,2895 }, { 176,2895 }, { 177,2895 }, { 178,2895 }, { 179,2895 },
+ { 180,2895 }, { 181,2895 }, { 182,2895 }, { 183,2895 }, { 184,2895 },
+ { 185,2895 }, { 186,2895 }, { 187,2895 }, { 188,2895 }, { 189,2895 },
+
+ { 190,2895 }, { 191,2895 }, { 192,2895 }, { 193,2895 }, { 194,2895 },
+ { 195,2895 }, { 196,2895 }, { 197,2895 }, { 198,2895 }, { 199,2895 },
+ { 200,2895 }, { 201,2895 }, { 202,2895 }, { 203,2895 }, { 204,2895 },
+ { 205,2895 }, { 206,2895 }, { 207,2895 }, { 208,2895 }, { 209,2895 },
+ { 210,2895 }, { 211,2895 }, { 212,2895 }, { 213,2895 }, { 214,2895 },
+ { 215,2895 }, { 216,2895 }, { 217,2895 }, { 218,2895 }, { 219,2895 },
+ { 220,2895 }, { 221,2895 }, { 222,2895 }, { 223,2895 }, { 224,2895 },
+ { 225,2895 }, { 226,2895 }, { 227,2895 }, { 228,2895 }, { 229,2895 },
+ { 230,2895 }, { 231,2895 }, { 232,2895 }, { 233,2895 }, { 234,2895 },
+ { 235,2895 }, { 236,2895 }, { 237,2895 }, { 238,2895 }, { 239,2895 },
+
+ { 240,2895 }, { 241,2895 }, { 242,2895 }, { 243,2895 }, { 244,2895 },
+ { 245,2895 }, { 246,2895 }, { 247,2895 }, { 248,2895 }, { 249,2895 },
+ { 250,2895 }, { 251,2895 }, { 252,2895 }, { 253,2895 }, { 254,2895 },
+ { 255,2895 }, { 256,2895 }, {   0,   0 }, {   0,7007 }, {   1,-258 },
+ {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
+ {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
+ {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
+ {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
+ {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
+ {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
 
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
- {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,   0 },
- {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
- {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
- {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
- {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
- {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
- {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
- {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
+ {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 },
+ {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
+ {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,   0 }, {  46,-258 },
+ {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
+ {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
+ {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
+ {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
+ {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
+ {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
+ {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
 
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
- {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
- {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
- {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
- { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
- { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
- { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
- { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125, 258 },
- { 126, 516 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
+ {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
+ {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
+ {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
+ {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
+ { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
+ { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
+ { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
+ { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
+ { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125, 258 }, { 126, 516 },
+ { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
 
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
- { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
- { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
- { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
- { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
- { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
- { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
- { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
- { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
- { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
+ { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
+ { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
+ { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
+ { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
+ { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
+ { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
+ { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
+ { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
+ { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
+ { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
 
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
- { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
- { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
- { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
- { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
- { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
- { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
- { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
- { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
- { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
+ { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
+ { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
+ { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
+ { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
+ { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
+ { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
+ { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
+ { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
+ { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
+ { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
 
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
- { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
- { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
- { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
- { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,6876 }, {   1,-516 }, {   2,-516 },
- {   3,-516 }, {   4,-516 }, {   5,-516 }, {   6,-516 }, {   7,-516 },
- {   8,-516 }, {   9,-516 }, {  10,-516 }, {  11,-516 }, {  12,-516 },
- {  13,-516 }, {  14,-516 }, {  15,-516 }, {  16,-516 }, {  17,-516 },
- {  18,-516 }, {  19,-516 }, {  20,-516 }, {  21,-516 }, {  22,-516 },
-
- {  23,-516 }, {  24,-516 }, {  25,-516 }, {  26,-516 }, {  27,-516 },
- {  28,-516 }, {  29,-516 }, {  30,-516 }, {  31,-516 }, {  32,-516 },
- {  33,-516 }, {  34,-516 }, {  35,-516 }, {  36,-516 }, {  37,-516 },
- {  38,-516 }, {  39,-516 }, {  40,-516 }, {  41,-516 }, {  42,-516 },
- {  43,-516 }, {  44,-516 }, {  45,2840 }, {  46,-516 }, {  47,-516 },
- {  48,-516 }, {  49,-516 }, {  50,-516 }, {  51,-516 }, {  52,-516 },
- {  53,-516 }, {  54,-516 }, {  55,-516 }, {  56,-516 }, {  57,-516 },
- {  58,-516 }, {  59,-516 }, {  60,-516 }, {  61,-516 }, {  62,-516 },
- {  63,-516 }, {  64,-516 }, {  65,-516 }, {  66,-516 }, {  67,-516 },
- {  68,-516 }, {  69,-516 }, {  70,-516 }, {  71,-516 }, {  72,-516 },
-
- {  73,-516 }, {  74,-516 }, {  75,-516 }, {  76,-516 }, {  77,-516 },
- {  78,-516 }, {  79,-516 }, {  80,-516 }, {  81,-516 }, {  82,-516 },
- {  83,-516 }, {  84,-516 }, {  85,-516 }, {  86,-516 }, {  87,-516 },
- {  88,-516 }, {  89,-516 }, {  90,-516 }, {  91,-516 }, {  92,-516 },
- {  93,-516 }, {  94,-516 }, {  95,-516 }, {  96,-516 }, {  97,-516 },
- {  98,-516 }, {  99,-516 }, { 100,-516 }, { 101,-516 }, { 102,-516 },
- { 103,-516 }, { 104,-516 }, { 105,-516 }, { 106,-516 }, { 107,-516 },
- { 108,-516 }, { 109,-516 }, { 110,-516 }, { 111,-516 }, { 112,-516 },
- { 113,-516 }, { 114,-516 }, { 115,-516 }, { 116,-516 }, { 117,-516 },
- { 118,-516 }, { 119,-516 }, { 120,-516 }, { 121,-516 }, { 122,-516 },
-
- { 123,-516 }, { 124,-516 }, { 125,2211 }, { 126,-516 }, { 127,-516 },
- { 128,-516 }, { 129,-516 }, { 130,-516 }, { 131,-516 }, { 132,-516 },
- { 133,-516 }, { 134,-516 }, { 135,-516 }, { 136,-516 }, { 137,-516 },
- { 138,-516 }, { 139,-516 }, { 140,-516 }, { 141,-516 }, { 142,-516 },
- { 143,-516 }, { 144,-516 }, { 145,-516 }, { 146,-516 }, { 147,-516 },
- { 148,-516 }, { 149,-516 }, { 150,-516 }, { 151,-516 }, { 152,-516 },
- { 153,-516 }, { 154,-516 }, { 155,-516 }, { 156,-516 }, { 157,-516 },
- { 158,-516 }, { 159,-516 }, { 160,-516 }, { 161,-516 }, { 162,-516 },
- { 163,-516 }, { 164,-516 }, { 165,-516 }, { 166,-516 }, { 167,-516 },
- { 168,-516 }, { 169,-516 }, { 170,-516 }, { 171,-516 }, { 172,-516 },
-
- { 173,-516 }, { 174,-516 }, { 175,-516 }, { 176,-516 }, { 177,-516 },
- { 178,-516 }, { 179,-516 }, { 180,-516 }, { 181,-516 }, { 182,-516 },
- { 183,-516 }, { 184,-516 }, { 185,-516 }, { 186,-516 }, { 187,-516 },
- { 188,-516 }, { 189,-516 }, { 190,-516 }, { 191,-516 }, { 192,-516 },
- { 193,-516 }, { 194,-516 }, { 195,-516 }, { 196,-516 }, { 197,-516 },
- { 198,-516 }, { 199,-516 }, { 200,-516 }, { 201,-516 }, { 202,-516 },
- { 203,-516 }, { 204,-516 }, { 205,-516 }, { 206,-516 }, { 207,-516 },
- { 208,-516 }, { 209,-516 }, { 210,-516 }, { 211,-516 }, { 212,-516 },
- { 213,-516 }, { 214,-516 }, { 215,-516 }, { 216,-516 }, { 217,-516 },
- { 218,-516 }, { 219,-516 }, { 220,-516 }, { 221,-516 }, { 222,-516 },
-
- { 223,-516 }, { 224,-516 }, { 225,-516 }, { 226,-516 }, { 227,-516 },
- { 228,-516 }, { 229,-516 }, { 230,-516 }, { 231,-516 }, { 232,-516 },
- { 233,-516 }, { 234,-516 }, { 235,-516 }, { 236,-516 }, { 237,-516 },
- { 238,-516 }, { 239,-516 }, { 240,-516 }, { 241,-516 }, { 242,-516 },
- { 243,-516 }, { 244,-516 }, { 245,-516 }, { 246,-516 }, { 247,-516 },
- { 248,-516 }, { 249,-516 }, { 250,-516 }, { 251,-516 }, { 252,-516 },
- { 253,-516 }, { 254,-516 }, { 255,-516 }, { 256,-516 }, {   0,   0 },
- {   0,6618 }, {   1,-774 }, {   2,-774 }, {   3,-774 }, {   4,-774 },
- {   5,-774 }, {   6,-774 }, {   7,-774 }, {   8,-774 }, {   9,-774 },
- {  10,-774 }, {  11,-774 }, {  12,-774 }, {  13,-774 }, {  14,-774 },
-
- {  15,-774 }, {  16,-774 }, {  17,-774 }, {  18,-774 }, {  19,-774 },
- {  20,-774 }, {  21,-774 }, {  22,-774 }, {  23,-774 }, {  24,-774 },
- {  25,-774 }, {  26,-774 }, {  27,-774 }, {  28,-774 }, {  29,-774 },
- {  30,-774 }, {  31,-774 }, {  32,-774 }, {  33,-774 }, {  34,-774 },
- {  35,-774 }, {  36,-774 }, {  37,-774 }, {  38,-774 }, {  39,-774 },
- {  40,-774 }, {  41,-774 }, {  42,-774 }, {  43,-774 }, {  44,-774 },
- {  45,2582 }, {  46,-774 }, {  47,-774 }, {  48,-774 }, {  49,-774 },
- {  50,-774 }, {  51,-774 }, {  52,-774 }, {  53,-774 }, {  54,-774 },
- {  55,-774 }, {  56,-774 }, {  57,-774 }, {  58,-774 }, {  59,-774 },
- {  60,-774 }, {  61,-774 }, {  62,-774 }, {  63,-774 }, {  64,-774 },
-
- {  65,-774 }, {  66,-774 }, {  67,-774 }, {  68,-774 }, {  69,-774 },
- {  70,-774 }, {  71,-774 }, {  72,-774 }, {  73,-774 }, {  74,-774 },
- {  75,-774 }, {  76,-774 }, {  77,-774 }, {  78,-774 }, {  79,-774 },
- {  80,-774 }, {  81,-774 }, {  82,-774 }, {  83,-774 }, {  84,-774 },
- {  85,-774 }, {  86,-774 }, {  87,-774 }, {  88,-774 }, {  89,-774 },
- {  90,-774 }, {  91,-774 }, {  92,-774 }, {  93,-774 }, {  94,-774 },
- {  95,-774 }, {  96,-774 }, {  97,-774 }, {  98,-774 }, {  99,-774 },
- { 100,-774 }, { 101,-774 }, { 102,-774 }, { 103,-774 }, { 104,-774 },
- { 105,-774 }, { 106,-774 }, { 107,-774 }, { 108,-774 }, { 109,-774 },
- { 110,-774 }, { 111,-774 }, { 112,-774 }, { 113,-774 }, { 114,-774 },
-
- { 115,-774 }, { 116,-774 }, { 117,-774 }, { 118,-774 }, { 119,-774 },
- { 120,-774 }, { 121,-774 }, { 122,-774 }, { 123,-774 }, { 124,-774 },
- { 125,-258 }, { 126,-774 }, { 127,-774 }, { 128,-774 }, { 129,-774 },
- { 130,-774 }, { 131,-774 }, { 132,-774 }, { 133,-774 }, { 134,-774 },
- { 135,-774 }, { 136,-774 }, { 137,-774 }, { 138,-774 }, { 139,-774 },
- { 140,-774 }, { 141,-774 }, { 142,-774 }, { 143,-774 }, { 144,-774 },
- { 145,-774 }, { 146,-774 }, { 147,-774 }, { 148,-774 }, { 149,-774 },
- { 150,-774 }, { 151,-774 }, { 152,-774 }, { 153,-774 }, { 154,-774 },
- { 155,-774 }, { 156,-774 }, { 157,-774 }, { 158,-774 }, { 159,-774 },
- { 160,-774 }, { 161,-774 }, { 162,-774 }, { 163,-774 }, { 164,-774 },
-
- { 165,-774 }, { 166,-774 }, { 167,-774 }, { 168,-774 }, { 169,-774 },
- { 170,-774 }, { 171,-774 }, { 172,-774 }, { 173,-774 }, { 174,-774 },
- { 175,-774 }, { 176,-774 }, { 177,-774 }, { 178,-774 }, { 179,-774 },
- { 180,-774 }, { 181,-774 }, { 182,-774 }, { 183,-774 }, { 184,-774 },
- { 185,-774 }, { 186,-774 }, { 187,-774 }, { 188,-774 }, { 189,-774 },
- { 190,-774 }, { 191,-774 }, { 192,-774 }, { 193,-774 }, { 194,-774 },
- { 195,-774 }, { 196,-774 }, { 197,-774 }, { 198,-774 }, { 199,-774 },
- { 200,-774 }, { 201,-774 }, { 202,-774 }, { 203,-774 }, { 204,-774 },
- { 205,-774 }, { 206,-774 }, { 207,-774 }, { 208,-774 }, { 209,-774 },
- { 210,-774 }, { 211,-774 }, { 212,-774 }, { 213,-774 }, { 214,-774 },
-
- { 215,-774 }, { 216,-774 }, { 217,-774 }, { 218,-774 }, { 219,-774 },
- { 220,-774 }, { 221,-774 }, { 222,-774 }, { 223,-774 }, { 224,-774 },
- { 225,-774 }, { 226,-774 }, { 227,-774 }, { 228,-774 }, { 229,-774 },
- { 230,-774 }, { 231,-774 }, { 232,-774 }, { 233,-774 }, { 234,-774 },
- { 235,-774 }, { 236,-774 }, { 237,-774 }, { 238,-774 }, { 239,-774 },
- { 240,-774 }, { 241,-774 }, { 242,-774 }, { 243,-774 }, { 244,-774 },
- { 245,-774 }, { 246,-774 }, { 247,-774 }, { 248,-774 }, { 249,-774 },
- { 250,-774 }, { 251,-774 }, { 252,-774 }, { 253,-774 }, { 254,-774 },
- { 255,-774 }, { 256,-774 }, {   0,   0 }, {   0,6360 }, {   0,   0 },
- {   0,6358 }, {   0,   1 }, {   0,6356 }, {   0,   4 }, {   0,6354 },
-
- {   0,  48 }, {   0,6352 }, {   0,  42 }, {   0,6350 }, {   0,   0 },
- {   0,6348 }, {   0,   0 }, {   0,6346 }, {   0,   0 }, {  10,   0 },
- {   0,  21 }, {   0,6342 }, {  13,   0 }, {   0,  20 }, {   0,6339 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
+ { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
+ { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
+ { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
+ { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
+ {   0,   0 }, {   0,6749 }, {   1,-516 }, {   2,-516 }, {   3,-516 },
+ {   4,-516 }, {   5,-516 }, {   6,-516 }, {   7,-516 }, {   8,-516 },
+ {   9,-516 }, {  10,-516 }, {  11,-516 }, {  12,-516 }, {  13,-516 },
+ {  14,-516 }, {  15,-516 }, {  16,-516 }, {  17,-516 }, {  18,-516 },
+ {  19,-516 }, {  20,-516 }, {  21,-516 }, {  22,-516 }, {  23,-516 },
+
+ {  24,-516 }, {  25,-516 }, {  26,-516 }, {  27,-516 }, {  28,-516 },
+ {  29,-516 }, {  30,-516 }, {  31,-516 }, {  32,-516 }, {  33,-516 },
+ {  34,-516 }, {  35,-516 }, {  36,-516 }, {  37,-516 }, {  38,-516 },
+ {  39,-516 }, {  40,-516 }, {  41,-516 }, {  42,-516 }, {  43,-516 },
+ {  44,-516 }, {  45,2895 }, {  46,-516 }, {  47,-516 }, {  48,-516 },
+ {  49,-516 }, {  50,-516 }, {  51,-516 }, {  52,-516 }, {  53,-516 },
+ {  54,-516 }, {  55,-516 }, {  56,-516 }, {  57,-516 }, {  58,-516 },
+ {  59,-516 }, {  60,-516 }, {  61,-516 }, {  62,-516 }, {  63,-516 },
+ {  64,-516 }, {  65,-516 }, {  66,-516 }, {  67,-516 }, {  68,-516 },
+ {  69,-516 }, {  70,-516 }, {  71,-516 }, {  72,-516 }, {  73,-516 },
+
+ {  74,-516 }, {  75,-516 }, {  76,-516 }, {  77,-516 }, {  78,-516 },
+ {  79,-516 }, {  80,-516 }, {  81,-516 }, {  82,-516 }, {  83,-516 },
+ {  84,-516 }, {  85,-516 }, {  86,-516 }, {  87,-516 }, {  88,-516 },
+ {  89,-516 }, {  90,-516 }, {  91,-516 }, {  92,-516 }, {  93,-516 },
+ {  94,-516 }, {  95,-516 }, {  96,-516 }, {  97,-516 }, {  98,-516 },
+ {  99,-516 }, { 100,-516 }, { 101,-516 }, { 102,-516 }, { 103,-516 },
+ { 104,-516 }, { 105,-516 }, { 106,-516 }, { 107,-516 }, { 108,-516 },
+ { 109,-516 }, { 110,-516 }, { 111,-516 }, { 112,-516 }, { 113,-516 },
+ { 114,-516 }, { 115,-516 }, { 116,-516 }, { 117,-516 }, { 118,-516 },
+ { 119,-516 }, { 120,-516 }, { 121,-516 }, { 122,-516 }, { 123,-516 },
+
+ { 124,-516 }, { 125,1206 }, { 126,-516 }, { 127,-516 }, { 128,-516 },
+ { 129,-516 }, { 130,-516 }, { 131,-516 }, { 132,-516 }, { 133,-516 },
+ { 134,-516 }, { 135,-516 }, { 136,-516 }, { 137,-516 }, { 138,-516 },
+ { 139,-516 }, { 140,-516 }, { 141,-516 }, { 142,-516 }, { 143,-516 },
+ { 144,-516 }, { 145,-516 }, { 146,-516 }, { 147,-516 }, { 148,-516 },
+ { 149,-516 }, { 150,-516 }, { 151,-516 }, { 152,-516 }, { 153,-516 },
+ { 154,-516 }, { 155,-516 }, { 156,-516 }, { 157,-516 }, { 158,-516 },
+ { 159,-516 }, { 160,-516 }, { 161,-516 }, { 162,-516 }, { 163,-516 },
+ { 164,-516 }, { 165,-516 }, { 166,-516 }, { 167,-516 }, { 168,-516 },
+ { 169,-516 }, { 170,-516 }, { 171,-516 }, { 172,-516 }, { 173,-516 },
+
+ { 174,-516 }, { 175,-516 }, { 176,-516 }, { 177,-516 }, { 178,-516 },
+ { 179,-516 }, { 180,-516 }, { 181,-516 }, { 182,-516 }, { 183,-516 },
+ { 184,-516 }, { 185,-516 }, { 186,-516 }, { 187,-516 }, { 188,-516 },
+ { 189,-516 }, { 190,-516 }, { 191,-516 }, { 192,-516 }, { 193,-516 },
+ { 194,-516 }, { 195,-516 }, { 196,-516 }, { 197,-516 }, { 198,-516 },
+ { 199,-516 }, { 200,-516 }, { 201,-516 }, { 202,-516 }, { 203,-516 },
+ { 204,-516 }, { 205,-516 }, { 206,-516 }, { 207,-516 }, { 208,-516 },
+ { 209,-516 }, { 210,-516 }, { 211,-516 }, { 212,-516 }, { 213,-516 },
+ { 214,-516 }, { 215,-516 }, { 216,-516 }, { 217,-516 }, { 218,-516 },
+ { 219,-516 }, { 220,-516 }, { 221,-516 }, { 222,-516 }, { 223,-516 },
+
+ { 224,-516 }, { 225,-516 }, { 226,-516 }, { 227,-516 }, { 228,-516 },
+ { 229,-516 }, { 230,-516 }, { 231,-516 }, { 232,-516 }, { 233,-516 },
+ { 234,-516 }, { 235,-516 }, { 236,-516 }, { 237,-516 }, { 238,-516 },
+ { 239,-516 }, { 240,-516 }, { 241,-516 }, { 242,-516 }, { 243,-516 },
+ { 244,-516 }, { 245,-516 }, { 246,-516 }, { 247,-516 }, { 248,-516 },
+ { 249,-516 }, { 250,-516 }, { 251,-516 }, { 252,-516 }, { 253,-516 },
+ { 254,-516 }, { 255,-516 }, { 256,-516 }, {   0,   0 }, {   0,6491 },
+ {   1,-774 }, {   2,-774 }, {   3,-774 }, {   4,-774 }, {   5,-774 },
+ {   6,-774 }, {   7,-774 }, {   8,-774 }, {   9,-774 }, {  10,-774 },
+ {  11,-774 }, {  12,-774 }, {  13,-774 }, {  14,-774 }, {  15,-774 },
+
+ {  16,-774 }, {  17,-774 }, {  18,-774 }, {  19,-774 }, {  20,-774 },
+ {  21,-774 }, {  22,-774 }, {  23,-774 }, {  24,-774 }, {  25,-774 },
+ {  26,-774 }, {  27,-774 }, {  28,-774 }, {  29,-774 }, {  30,-774 },
+ {  31,-774 }, {  32,-774 }, {  33,-774 }, {  34,-774 }, {  35,-774 },
+ {  36,-774 }, {  37,-774 }, {  38,-774 }, {  39,-774 }, {  40,-774 },
+ {  41,-774 }, {  42,-774 }, {  43,-774 }, {  44,-774 }, {  45,2637 },
+ {  46,-774 }, {  47,-774 }, {  48,-774 }, {  49,-774 }, {  50,-774 },
+ {  51,-774 }, {  52,-774 }, {  53,-774 }, {  54,-774 }, {  55,-774 },
+ {  56,-774 }, {  57,-774 }, {  58,-774 }, {  59,-774 }, {  60,-774 },
+ {  61,-774 }, {  62,-774 }, {  63,-774 }, {  64,-774 }, {  65,-774 },
+
+ {  66,-774 }, {  67,-774 }, {  68,-774 }, {  69,-774 }, {  70,-774 },
+ {  71,-774 }, {  72,-774 }, {  73,-774 }, {  74,-774 }, {  75,-774 },
+ {  76,-774 }, {  77,-774 }, {  78,-774 }, {  79,-774 }, {  80,-774 },
+ {  81,-774 }, {  82,-774 }, {  83,-774 }, {  84,-774 }, {  85,-774 },
+ {  86,-774 }, {  87,-774 }, {  88,-774 }, {  89,-774 }, {  90,-774 },
+ {  91,-774 }, {  92,-774 }, {  93,-774 }, {  94,-774 }, {  95,-774 },
+ {  96,-774 }, {  97,-774 }, {  98,-774 }, {  99,-774 }, { 100,-774 },
+ { 101,-774 }, { 102,-774 }, { 103,-774 }, { 104,-774 }, { 105,-774 },
+ { 106,-774 }, { 107,-774 }, { 108,-774 }, { 109,-774 }, { 110,-774 },
+ { 111,-774 }, { 112,-774 }, { 113,-774 }, { 114,-774 }, { 115,-774 },
+
+ { 116,-774 }, { 117,-774 }, { 118,-774 }, { 119,-774 }, { 120,-774 },
+ { 121,-774 }, { 122,-774 }, { 123,-774 }, { 124,-774 }, { 125,-258 },
+ { 126,-774 }, { 127,-774 }, { 128,-774 }, { 129,-774 }, { 130,-774 },
+ { 131,-774 }, { 132,-774 }, { 133,-774 }, { 134,-774 }, { 135,-774 },
+ { 136,-774 }, { 137,-774 }, { 138,-774 }, { 139,-774 }, { 140,-774 },
+ { 141,-774 }, { 142,-774 }, { 143,-774 }, { 144,-774 }, { 145,-774 },
+ { 146,-774 }, { 147,-774 }, { 148,-774 }, { 149,-774 }, { 150,-774 },
+ { 151,-774 }, { 152,-774 }, { 153,-774 }, { 154,-774 }, { 155,-774 },
+ { 156,-774 }, { 157,-774 }, { 158,-774 }, { 159,-774 }, { 160,-774 },
+ { 161,-774 }, { 162,-774 }, { 163,-774 }, { 164,-774 }, { 165,-774 },
+
+ { 166,-774 }, { 167,-774 }, { 168,-774 }, { 169,-774 }, { 170,-774 },
+ { 171,-774 }, { 172,-774 }, { 173,-774 }, { 174,-774 }, { 175,-774 },
+ { 176,-774 }, { 177,-774 }, { 178,-774 }, { 179,-774 }, { 180,-774 },
+ { 181,-774 }, { 182,-774 }, { 183,-774 }, { 184,-774 }, { 185,-774 },
+ { 186,-774 }, { 187,-774 }, { 188,-774 }, { 189,-774 }, { 190,-774 },
+ { 191,-774 }, { 192,-774 }, { 193,-774 }, { 194,-774 }, { 195,-774 },
+ { 196,-774 }, { 197,-774 }, { 198,-774 }, { 199,-774 }, { 200,-774 },
+ { 201,-774 }, { 202,-774 }, { 203,-774 }, { 204,-774 }, { 205,-774 },
+ { 206,-774 }, { 207,-774 }, { 208,-774 }, { 209,-774 }, { 210,-774 },
+ { 211,-774 }, { 212,-774 }, { 213,-774 }, { 214,-774 }, { 215,-774 },
+
+ { 216,-774 }, { 217,-774 }, { 218,-774 }, { 219,-774 }, { 220,-774 },
+ { 221,-774 }, { 222,-774 }, { 223,-774 }, { 224,-774 }, { 225,-774 },
+ { 226,-774 }, { 227,-774 }, { 228,-774 }, { 229,-774 }, { 230,-774 },
+ { 231,-774 }, { 232,-774 }, { 233,-774 }, { 234,-774 }, { 235,-774 },
+ { 236,-774 }, { 237,-774 }, { 238,-774 }, { 239,-774 }, { 240,-774 },
+ { 241,-774 }, { 242,-774 }, { 243,-774 }, { 244,-774 }, { 245,-774 },
+ { 246,-774 }, { 247,-774 }, { 248,-774 }, { 249,-774 }, { 250,-774 },
+ { 251,-774 }, { 252,-774 }, { 253,-774 }, { 254,-774 }, { 255,-774 },
+ { 256,-774 }, {   0,   0 }, {   0,6233 }, {   0,   1 }, {   0,6231 },
+ {   0,   4 }, {   0,6229 }, {   0,  48 }, {   0,6227 }, {   0,  42 },
 
- {   0,   0 }, {   0,   0 }, {  45,3371 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,6225 }, {   0,   0 }, {   0,6223 }, {   0,  21 }, {   0,6221 },
+ {   0,   0 }, {  10,   0 }, {   0,  20 }, {   0,6217 }, {  13,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 108,3371 }, {   0,   0 },
- {   0,   0 }, { 123,2582 }, {   0,   0 }, { 123,2838 }, {   0,   0 },
- { 123,2838 }, {   0,   4 }, {   0,6231 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 }, {  12,   0 },
- {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
-
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
-
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {   0,   0 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
-
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
-
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
-
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   4 },
- {   0,5973 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
- {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
- {  10,-381 }, {  11,-258 }, {  12,-258 }, {  13,-381 }, {  14,-258 },
- {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
-
- {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
- {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
- {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
- {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
- {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
- {  45,-258 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
- {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
- {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
- {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
- {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
-
- {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
- {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
- {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
- {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
- {  90,-258 }, {  91,-258 }, {   0,   0 }, {  93,-258 }, {  94,-258 },
- {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
- { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
- { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
- { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
- { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
-
- { 120,-258 }, { 121,-258 }, { 122,-258 }, {   0,   0 }, { 124,-258 },
- { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
- { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
- { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
- { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
- { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
- { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
- { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
- { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
- { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
-
- { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
- { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
- { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
- { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
- { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
- { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
- { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
- { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
- { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
- { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
-
- { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
- { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
- { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
- { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
- { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
- { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
- { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
- { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,5715 }, {   1,-9270 },
- {   2,-9270 }, {   3,-9270 }, {   4,-9270 }, {   5,-9270 }, {   6,-9270 },
- {   7,-9270 }, {   8,-9270 }, {   9,-9295 }, {  10,-9295 }, {  11,-9270 },
-
- {  12,-9270 }, {  13,-9295 }, {  14,-9270 }, {  15,-9270 }, {  16,-9270 },
- {  17,-9270 }, {  18,-9270 }, {  19,-9270 }, {  20,-9270 }, {  21,-9270 },
- {  22,-9270 }, {  23,-9270 }, {  24,-9270 }, {  25,-9270 }, {  26,-9270 },
- {  27,-9270 }, {  28,-9270 }, {  29,-9270 }, {  30,-9270 }, {  31,-9270 },
- {  32,-9295 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9270 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9295 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9270 }, {  46,-9295 },
- {  47,-9295 }, {  48,-9270 }, {  49,-9270 }, {  50,-9270 }, {  51,-9270 },
- {  52,-9270 }, {  53,-9270 }, {  54,-9270 }, {  55,-9270 }, {  56,-9270 },
- {  57,-9270 }, {  58,-9270 }, {   0,   0 }, {   0,   0 }, {  61,-9295 },
-
- {   0,   0 }, {  63,-9270 }, {   0,   0 }, {  65,-9270 }, {  66,-9270 },
- {  67,-9270 }, {  68,-9270 }, {  69,-9270 }, {  70,-9270 }, {  71,-9270 },
- {  72,-9270 }, {  73,-9270 }, {  74,-9270 }, {  75,-9270 }, {  76,-9270 },
- {  77,-9270 }, {  78,-9270 }, {  79,-9270 }, {  80,-9270 }, {  81,-9270 },
- {  82,-9270 }, {  83,-9270 }, {  84,-9270 }, {  85,-9270 }, {  86,-9270 },
- {  87,-9270 }, {  88,-9270 }, {  89,-9270 }, {  90,-9270 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9270 }, {   0,   0 },
- {  97,-9270 }, {  98,-9270 }, {  99,-9270 }, { 100,-9270 }, { 101,2222 },
- { 102,-9270 }, { 103,-9270 }, { 104,-9270 }, { 105,-9270 }, { 106,-9270 },
- { 107,-9270 }, { 108,-9270 }, { 109,-9270 }, { 110,-9270 }, { 111,-9270 },
-
- { 112,-9270 }, { 113,-9270 }, { 114,-9270 }, { 115,-9270 }, { 116,-9270 },
- { 117,-9270 }, { 118,-9270 }, { 119,-9270 }, { 120,-9270 }, { 121,-9270 },
- { 122,-9270 }, {   0,   0 }, { 124,-9295 }, { 125,-9295 }, { 126,-9295 },
- { 127,-9270 }, { 128,-9270 }, { 129,-9270 }, { 130,-9270 }, { 131,-9270 },
- { 132,-9270 }, { 133,-9270 }, { 134,-9270 }, { 135,-9270 }, { 136,-9270 },
- { 137,-9270 }, { 138,-9270 }, { 139,-9270 }, { 140,-9270 }, { 141,-9270 },
- { 142,-9270 }, { 143,-9270 }, { 144,-9270 }, { 145,-9270 }, { 146,-9270 },
- { 147,-9270 }, { 148,-9270 }, { 149,-9270 }, { 150,-9270 }, { 151,-9270 },
- { 152,-9270 }, { 153,-9270 }, { 154,-9270 }, { 155,-9270 }, { 156,-9270 },
- { 157,-9270 }, { 158,-9270 }, { 159,-9270 }, { 160,-9270 }, { 161,-9270 },
-
- { 162,-9270 }, { 163,-9270 }, { 164,-9270 }, { 165,-9270 }, { 166,-9270 },
- { 167,-9270 }, { 168,-9270 }, { 169,-9270 }, { 170,-9270 }, { 171,-9270 },
- { 172,-9270 }, { 173,-9270 }, { 174,-9270 }, { 175,-9270 }, { 176,-9270 },
- { 177,-9270 }, { 178,-9270 }, { 179,-9270 }, { 180,-9270 }, { 181,-9270 },
- { 182,-9270 }, { 183,-9270 }, { 184,-9270 }, { 185,-9270 }, { 186,-9270 },
- { 187,-9270 }, { 188,-9270 }, { 189,-9270 }, { 190,-9270 }, { 191,-9270 },
- { 192,-9270 }, { 193,-9270 }, { 194,-9270 }, { 195,-9270 }, { 196,-9270 },
- { 197,-9270 }, { 198,-9270 }, { 199,-9270 }, { 200,-9270 }, { 201,-9270 },
- { 202,-9270 }, { 203,-9270 }, { 204,-9270 }, { 205,-9270 }, { 206,-9270 },
- { 207,-9270 }, { 208,-9270 }, { 209,-9270 }, { 210,-9270 }, { 211,-9270 },
-
- { 212,-9270 }, { 213,-9270 }, { 214,-9270 }, { 215,-9270 }, { 216,-9270 },
- { 217,-9270 }, { 218,-9270 }, { 219,-9270 }, { 220,-9270 }, { 221,-9270 },
- { 222,-9270 }, { 223,-9270 }, { 224,-9270 }, { 225,-9270 }, { 226,-9270 },
- { 227,-9270 }, { 228,-9270 }, { 229,-9270 }, { 230,-9270 }, { 231,-9270 },
- { 232,-9270 }, { 233,-9270 }, { 234,-9270 }, { 235,-9270 }, { 236,-9270 },
- { 237,-9270 }, { 238,-9270 }, { 239,-9270 }, { 240,-9270 }, { 241,-9270 },
- { 242,-9270 }, { 243,-9270 }, { 244,-9270 }, { 245,-9270 }, { 246,-9270 },
- { 247,-9270 }, { 248,-9270 }, { 249,-9270 }, { 250,-9270 }, { 251,-9270 },
- { 252,-9270 }, { 253,-9270 }, { 254,-9270 }, { 255,-9270 }, { 256,-9270 },
- {   0,   0 }, {   0,5457 }, {   1,-9528 }, {   2,-9528 }, {   3,-9528 },
-
- {   4,-9528 }, {   5,-9528 }, {   6,-9528 }, {   7,-9528 }, {   8,-9528 },
- {   9,1941 }, {  10,1941 }, {  11,-9528 }, {  12,-9528 }, {  13,1941 },
- {  14,-9528 }, {  15,-9528 }, {  16,-9528 }, {  17,-9528 }, {  18,-9528 },
- {  19,-9528 }, {  20,-9528 }, {  21,-9528 }, {  22,-9528 }, {  23,-9528 },
- {  24,-9528 }, {  25,-9528 }, {  26,-9528 }, {  27,-9528 }, {  28,-9528 },
- {  29,-9528 }, {  30,-9528 }, {  31,-9528 }, {  32,1941 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-9528 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1941 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-9528 }, {  46,-9553 }, {  47,-9553 }, {  48,-9528 },
- {  49,-9528 }, {  50,-9528 }, {  51,-9528 }, {  52,-9528 }, {  53,-9528 },
-
- {  54,-9528 }, {  55,-9528 }, {  56,-9528 }, {  57,-9528 }, {  58,-9528 },
- {   0,   0 }, {   0,   0 }, {  61,-9553 }, {   0,   0 }, {  63,-9528 },
- {   0,   0 }, {  65,-9528 }, {  66,-9528 }, {  67,-9528 }, {  68,-9528 },
- {  69,-9528 }, {  70,-9528 }, {  71,-9528 }, {  72,-9528 }, {  73,-9528 },
- {  74,-9528 }, {  75,-9528 }, {  76,-9528 }, {  77,-9528 }, {  78,-9528 },
- {  79,-9528 }, {  80,-9528 }, {  81,-9528 }, {  82,-9528 }, {  83,-9528 },
- {  84,-9528 }, {  85,-9528 }, {  86,-9528 }, {  87,-9528 }, {  88,-9528 },
- {  89,-9528 }, {  90,-9528 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-9528 }, {   0,   0 }, {  97,-9528 }, {  98,-9528 },
- {  99,-9528 }, { 100,-9528 }, { 101,-9528 }, { 102,-9528 }, { 103,-9528 },
-
- { 104,-9528 }, { 105,-9528 }, { 106,-9528 }, { 107,-9528 }, { 108,-9528 },
- { 109,-9528 }, { 110,-9528 }, { 111,-9528 }, { 112,-9528 }, { 113,-9528 },
- { 114,-9528 }, { 115,-9528 }, { 116,-9528 }, { 117,-9528 }, { 118,-9528 },
- { 119,-9528 }, { 120,-9528 }, { 121,-9528 }, { 122,-9528 }, {   0,   0 },
- { 124,-9553 }, { 125,1941 }, { 126,1941 }, { 127,-9528 }, { 128,-9528 },
- { 129,-9528 }, { 130,-9528 }, { 131,-9528 }, { 132,-9528 }, { 133,-9528 },
- { 134,-9528 }, { 135,-9528 }, { 136,-9528 }, { 137,-9528 }, { 138,-9528 },
- { 139,-9528 }, { 140,-9528 }, { 141,-9528 }, { 142,-9528 }, { 143,-9528 },
- { 144,-9528 }, { 145,-9528 }, { 146,-9528 }, { 147,-9528 }, { 148,-9528 },
- { 149,-9528 }, { 150,-9528 }, { 151,-9528 }, { 152,-9528 }, { 153,-9528 },
-
- { 154,-9528 }, { 155,-9528 }, { 156,-9528 }, { 157,-9528 }, { 158,-9528 },
- { 159,-9528 }, { 160,-9528 }, { 161,-9528 }, { 162,-9528 }, { 163,-9528 },
- { 164,-9528 }, { 165,-9528 }, { 166,-9528 }, { 167,-9528 }, { 168,-9528 },
- { 169,-9528 }, { 170,-9528 }, { 171,-9528 }, { 172,-9528 }, { 173,-9528 },
- { 174,-9528 }, { 175,-9528 }, { 176,-9528 }, { 177,-9528 }, { 178,-9528 },
- { 179,-9528 }, { 180,-9528 }, { 181,-9528 }, { 182,-9528 }, { 183,-9528 },
- { 184,-9528 }, { 185,-9528 }, { 186,-9528 }, { 187,-9528 }, { 188,-9528 },
- { 189,-9528 }, { 190,-9528 }, { 191,-9528 }, { 192,-9528 }, { 193,-9528 },
- { 194,-9528 }, { 195,-9528 }, { 196,-9528 }, { 197,-9528 }, { 198,-9528 },
- { 199,-9528 }, { 200,-9528 }, { 201,-9528 }, { 202,-9528 }, { 203,-9528 },
-
- { 204,-9528 }, { 205,-9528 }, { 206,-9528 }, { 207,-9528 }, { 208,-9528 },
- { 209,-9528 }, { 210,-9528 }, { 211,-9528 }, { 212,-9528 }, { 213,-9528 },
- { 214,-9528 }, { 215,-9528 }, { 216,-9528 }, { 217,-9528 }, { 218,-9528 },
- { 219,-9528 }, { 220,-9528 }, { 221,-9528 }, { 222,-9528 }, { 223,-9528 },
- { 224,-9528 }, { 225,-9528 }, { 226,-9528 }, { 227,-9528 }, { 228,-9528 },
- { 229,-9528 }, { 230,-9528 }, { 231,-9528 }, { 232,-9528 }, { 233,-9528 },
- { 234,-9528 }, { 235,-9528 }, { 236,-9528 }, { 237,-9528 }, { 238,-9528 },
- { 239,-9528 }, { 240,-9528 }, { 241,-9528 }, { 242,-9528 }, { 243,-9528 },
- { 244,-9528 }, { 245,-9528 }, { 246,-9528 }, { 247,-9528 }, { 248,-9528 },
- { 249,-9528 }, { 250,-9528 }, { 251,-9528 }, { 252,-9528 }, { 253,-9528 },
-
- { 254,-9528 }, { 255,-9528 }, { 256,-9528 }, {   0,   0 }, {   0,5199 },
- {   1,-9786 }, {   2,-9786 }, {   3,-9786 }, {   4,-9786 }, {   5,-9786 },
- {   6,-9786 }, {   7,-9786 }, {   8,-9786 }, {   9,1685 }, {  10,1685 },
- {  11,-9786 }, {  12,-9786 }, {  13,1685 }, {  14,-9786 }, {  15,-9786 },
- {  16,-9786 }, {  17,-9786 }, {  18,-9786 }, {  19,-9786 }, {  20,-9786 },
- {  21,-9786 }, {  22,-9786 }, {  23,-9786 }, {  24,-9786 }, {  25,-9786 },
- {  26,-9786 }, {  27,-9786 }, {  28,-9786 }, {  29,-9786 }, {  30,-9786 },
- {  31,-9786 }, {  32,1685 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-9786 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,1685 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9786 },
-
- {  46,-9811 }, {  47,-9811 }, {  48,-9786 }, {  49,-9786 }, {  50,-9786 },
- {  51,-9786 }, {  52,-9786 }, {  53,-9786 }, {  54,-9786 }, {  55,-9786 },
- {  56,-9786 }, {  57,-9786 }, {  58,-9786 }, {   0,   0 }, {   0,   0 },
- {  61,-9811 }, {   0,   0 }, {  63,-9786 }, {   0,   0 }, {  65,-9786 },
- {  66,-9786 }, {  67,-9786 }, {  68,-9786 }, {  69,-9786 }, {  70,-9786 },
- {  71,-9786 }, {  72,-9786 }, {  73,-9786 }, {  74,-9786 }, {  75,-9786 },
- {  76,-9786 }, {  77,-9786 }, {  78,-9786 }, {  79,-9786 }, {  80,-9786 },
- {  81,-9786 }, {  82,-9786 }, {  83,-9786 }, {  84,-9786 }, {  85,-9786 },
- {  86,-9786 }, {  87,-9786 }, {  88,-9786 }, {  89,-9786 }, {  90,-9786 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9786 },
-
- {   0,   0 }, {  97,-9786 }, {  98,-9786 }, {  99,-9786 }, { 100,-9786 },
- { 101,-9786 }, { 102,-9786 }, { 103,-9786 }, { 104,-9786 }, { 105,-9786 },
- { 106,-9786 }, { 107,-9786 }, { 108,-9786 }, { 109,-9786 }, { 110,-9786 },
- { 111,-9786 }, { 112,-9786 }, { 113,-9786 }, { 114,-9786 }, { 115,-9786 },
- { 116,-9786 }, { 117,-9786 }, { 118,-9786 }, { 119,-9786 }, { 120,-9786 },
- { 121,-9786 }, { 122,-9786 }, {   0,   0 }, { 124,-9811 }, { 125,1685 },
- { 126,1685 }, { 127,-9786 }, { 128,-9786 }, { 129,-9786 }, { 130,-9786 },
- { 131,-9786 }, { 132,-9786 }, { 133,-9786 }, { 134,-9786 }, { 135,-9786 },
- { 136,-9786 }, { 137,-9786 }, { 138,-9786 }, { 139,-9786 }, { 140,-9786 },
- { 141,-9786 }, { 142,-9786 }, { 143,-9786 }, { 144,-9786 }, { 145,-9786 },
-
- { 146,-9786 }, { 147,-9786 }, { 148,-9786 }, { 149,-9786 }, { 150,-9786 },
- { 151,-9786 }, { 152,-9786 }, { 153,-9786 }, { 154,-9786 }, { 155,-9786 },
- { 156,-9786 }, { 157,-9786 }, { 158,-9786 }, { 159,-9786 }, { 160,-9786 },
- { 161,-9786 }, { 162,-9786 }, { 163,-9786 }, { 164,-9786 }, { 165,-9786 },
- { 166,-9786 }, { 167,-9786 }, { 168,-9786 }, { 169,-9786 }, { 170,-9786 },
- { 171,-9786 }, { 172,-9786 }, { 173,-9786 }, { 174,-9786 }, { 175,-9786 },
- { 176,-9786 }, { 177,-9786 }, { 178,-9786 }, { 179,-9786 }, { 180,-9786 },
- { 181,-9786 }, { 182,-9786 }, { 183,-9786 }, { 184,-9786 }, { 185,-9786 },
- { 186,-9786 }, { 187,-9786 }, { 188,-9786 }, { 189,-9786 }, { 190,-9786 },
- { 191,-9786 }, { 192,-9786 }, { 193,-9786 }, { 194,-9786 }, { 195,-9786 },
-
- { 196,-9786 }, { 197,-9786 }, { 198,-9786 }, { 199,-9786 }, { 200,-9786 },
- { 201,-9786 }, { 202,-9786 }, { 203,-9786 }, { 204,-9786 }, { 205,-9786 },
- { 206,-9786 }, { 207,-9786 }, { 208,-9786 }, { 209,-9786 }, { 210,-9786 },
- { 211,-9786 }, { 212,-9786 }, { 213,-9786 }, { 214,-9786 }, { 215,-9786 },
- { 216,-9786 }, { 217,-9786 }, { 218,-9786 }, { 219,-9786 }, { 220,-9786 },
- { 221,-9786 }, { 222,-9786 }, { 223,-9786 }, { 224,-9786 }, { 225,-9786 },
- { 226,-9786 }, { 227,-9786 }, { 228,-9786 }, { 229,-9786 }, { 230,-9786 },
- { 231,-9786 }, { 232,-9786 }, { 233,-9786 }, { 234,-9786 }, { 235,-9786 },
- { 236,-9786 }, { 237,-9786 }, { 238,-9786 }, { 239,-9786 }, { 240,-9786 },
- { 241,-9786 }, { 242,-9786 }, { 243,-9786 }, { 244,-9786 }, { 245,-9786 },
-
- { 246,-9786 }, { 247,-9786 }, { 248,-9786 }, { 249,-9786 }, { 250,-9786 },
- { 251,-9786 }, { 252,-9786 }, { 253,-9786 }, { 254,-9786 }, { 255,-9786 },
- { 256,-9786 }, {   0,   0 }, {   0,4941 }, {   1,-10044 }, {   2,-10044 },
- {   3,-10044 }, {   4,-10044 }, {   5,-10044 }, {   6,-10044 }, {   7,-10044 },
- {   8,-10044 }, {   9,-10069 }, {  10,-10069 }, {  11,-10044 }, {  12,-10044 },
- {  13,-10069 }, {  14,-10044 }, {  15,-10044 }, {  16,-10044 }, {  17,-10044 },
- {  18,-10044 }, {  19,-10044 }, {  20,-10044 }, {  21,-10044 }, {  22,-10044 },
- {  23,-10044 }, {  24,-10044 }, {  25,-10044 }, {  26,-10044 }, {  27,-10044 },
- {  28,-10044 }, {  29,-10044 }, {  30,-10044 }, {  31,-10044 }, {  32,-10069 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-10044 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-10069 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-10044 }, {  46,-10069 }, {  47,-10069 },
- {  48,-10044 }, {  49,-10044 }, {  50,-10044 }, {  51,-10044 }, {  52,-10044 },
- {  53,-10044 }, {  54,-10044 }, {  55,-10044 }, {  56,-10044 }, {  57,-10044 },
- {  58,-10044 }, {   0,   0 }, {   0,   0 }, {  61,-10069 }, {   0,   0 },
- {  63,-10044 }, {   0,   0 }, {  65,-10044 }, {  66,-10044 }, {  67,-10044 },
- {  68,-10044 }, {  69,-10044 }, {  70,-10044 }, {  71,-10044 }, {  72,-10044 },
- {  73,-10044 }, {  74,-10044 }, {  75,-10044 }, {  76,-10044 }, {  77,-10044 },
- {  78,-10044 }, {  79,-10044 }, {  80,-10044 }, {  81,-10044 }, {  82,-10044 },
- {  83,-10044 }, {  84,-10044 }, {  85,-10044 }, {  86,-10044 }, {  87,-10044 },
-
- {  88,-10044 }, {  89,-10044 }, {  90,-10044 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-10044 }, {   0,   0 }, {  97,-10044 },
- {  98,-10044 }, {  99,-10044 }, { 100,-10044 }, { 101,-10044 }, { 102,1706 },
- { 103,-10044 }, { 104,-10044 }, { 105,-10044 }, { 106,-10044 }, { 107,-10044 },
- { 108,-10044 }, { 109,-10044 }, { 110,-10044 }, { 111,-10044 }, { 112,-10044 },
- { 113,-10044 }, { 114,-10044 }, { 115,-10044 }, { 116,-10044 }, { 117,-10044 },
- { 118,-10044 }, { 119,-10044 }, { 120,-10044 }, { 121,-10044 }, { 122,-10044 },
- {   0,   0 }, { 124,-10069 }, { 125,-10069 }, { 126,-10069 }, { 127,-10044 },
- { 128,-10044 }, { 129,-10044 }, { 130,-10044 }, { 131,-10044 }, { 132,-10044 },
- { 133,-10044 }, { 134,-10044 }, { 135,-10044 }, { 136,-10044 }, { 137,-10044 },
-
- { 138,-10044 }, { 139,-10044 }, { 140,-10044 }, { 141,-10044 }, { 142,-10044 },
- { 143,-10044 }, { 144,-10044 }, { 145,-10044 }, { 146,-10044 }, { 147,-10044 },
- { 148,-10044 }, { 149,-10044 }, { 150,-10044 }, { 151,-10044 }, { 152,-10044 },
- { 153,-10044 }, { 154,-10044 }, { 155,-10044 }, { 156,-10044 }, { 157,-10044 },
- { 158,-10044 }, { 159,-10044 }, { 160,-10044 }, { 161,-10044 }, { 162,-10044 },
- { 163,-10044 }, { 164,-10044 }, { 165,-10044 }, { 166,-10044 }, { 167,-10044 },
- { 168,-10044 }, { 169,-10044 }, { 170,-10044 }, { 171,-10044 }, { 172,-10044 },
- { 173,-10044 }, { 174,-10044 }, { 175,-10044 }, { 176,-10044 }, { 177,-10044 },
- { 178,-10044 }, { 179,-10044 }, { 180,-10044 }, { 181,-10044 }, { 182,-10044 },
- { 183,-10044 }, { 184,-10044 }, { 185,-10044 }, { 186,-10044 }, { 187,-10044 },
-
- { 188,-10044 }, { 189,-10044 }, { 190,-10044 }, { 191,-10044 }, { 192,-10044 },
- { 193,-10044 }, { 194,-10044 }, { 195,-10044 }, { 196,-10044 }, { 197,-10044 },
- { 198,-10044 }, { 199,-10044 }, { 200,-10044 }, { 201,-10044 }, { 202,-10044 },
- { 203,-10044 }, { 204,-10044 }, { 205,-10044 }, { 206,-10044 }, { 207,-10044 },
- { 208,-10044 }, { 209,-10044 }, { 210,-10044 }, { 211,-10044 }, { 212,-10044 },
- { 213,-10044 }, { 214,-10044 }, { 215,-10044 }, { 216,-10044 }, { 217,-10044 },
- { 218,-10044 }, { 219,-10044 }, { 220,-10044 }, { 221,-10044 }, { 222,-10044 },
- { 223,-10044 }, { 224,-10044 }, { 225,-10044 }, { 226,-10044 }, { 227,-10044 },
- { 228,-10044 }, { 229,-10044 }, { 230,-10044 }, { 231,-10044 }, { 232,-10044 },
- { 233,-10044 }, { 234,-10044 }, { 235,-10044 }, { 236,-10044 }, { 237,-10044 },
-
- { 238,-10044 }, { 239,-10044 }, { 240,-10044 }, { 241,-10044 }, { 242,-10044 },
- { 243,-10044 }, { 244,-10044 }, { 245,-10044 }, { 246,-10044 }, { 247,-10044 },
- { 248,-10044 }, { 249,-10044 }, { 250,-10044 }, { 251,-10044 }, { 252,-10044 },
- { 253,-10044 }, { 254,-10044 }, { 255,-10044 }, { 256,-10044 }, {   0,   0 },
- {   0,4683 }, {   0,   0 }, {   0,4681 }, {   0,   0 }, {   0,4679 },
- {   0,   0 }, {   0,4677 }, {   0,   0 }, {   0,4675 }, {   0,  17 },
- {   0,4673 }, {   0,  27 }, {   0,4671 }, {   0,  18 }, {   0,4669 },
- {   0,  37 }, {   0,4667 }, {   0,  12 }, {   0,4665 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,2893 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4722,373 +4370,376 @@ static const struct yy_trans_info yy_transition[23608] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,6139 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,   0 }, { 108,1706 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 115,1706 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,   2 }, { 126,   4 }, { 125,1708 }, {   0,   0 }, { 125,  -2 },
-
- {   0,   0 }, {   0,4552 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
- {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+ { 123,2895 }, {   0,   0 }, { 123,2895 }, {   0,   4 }, {   0,6106 },
+ {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
+ {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 },
+ {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 },
+ {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
+ {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
+ {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
 
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+ {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
+ {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
+ {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
+ {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
+ {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
+ {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
+ {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
+ {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
+ {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
+ {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
 
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+ {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
+ {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
+ {  91,   0 }, { 125,2811 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
+ {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
+ { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
+ { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
+ { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
+ { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
+ { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 },
+ { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
 
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+ { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
+ { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
+ { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
+ { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
+ { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
+ { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
+ { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
+ { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
+ { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
+ { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
 
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
+ { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
+ { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
+ { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
+ { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
+ { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
+ { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
+ { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
+ { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
+ { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
 
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4294 },
- {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
- {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
- {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
- {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
- {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
- {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
- {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
+ { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
+ { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
+ { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
+ { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
+ { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
+ { 256,   0 }, {   0,   4 }, {   0,5848 }, {   1,-258 }, {   2,-258 },
+ {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
+ {   8,-258 }, {   9,-258 }, {  10,-381 }, {  11,-258 }, {  12,-258 },
+ {  13,-381 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
+ {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
 
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-2840 },
- {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
- {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
- {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
- {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
- {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
- {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
- {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
- {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
+ {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
+ {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
+ {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
+ {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
+ {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
+ {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
+ {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
+ {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
+ {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
+ {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
 
- {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
- {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
- { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
- { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
- { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
- { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
- { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
- { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
+ {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
+ {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
+ {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
+ {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {   0,   0 },
+ {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
+ {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
+ { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
+ { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
+ { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
+ { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
 
- { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
- { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
- { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
- { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
- { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
- { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
- { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
- { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
- { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
+ {   0,   0 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
+ { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
+ { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
+ { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
+ { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
+ { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
+ { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
+ { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
+ { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
+ { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
 
- { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
- { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
- { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
- { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
- { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
- { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
- { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
- { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
- { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
-
- { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
- { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
- { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,4036 }, {   1,1184 }, {   2,1184 },
- {   3,1184 }, {   4,1184 }, {   5,1184 }, {   6,1184 }, {   7,1184 },
- {   8,1184 }, {   9,1184 }, {  10,1184 }, {  11,1184 }, {  12,1184 },
- {  13,1184 }, {  14,1184 }, {  15,1184 }, {  16,1184 }, {  17,1184 },
- {  18,1184 }, {  19,1184 }, {  20,1184 }, {  21,1184 }, {  22,1184 },
- {  23,1184 }, {  24,1184 }, {  25,1184 }, {  26,1184 }, {  27,1184 },
- {  28,1184 }, {  29,1184 }, {  30,1184 }, {  31,1184 }, {  32,1184 },
-
- {  33,1184 }, {  34,1184 }, {  35,1184 }, {  36,1184 }, {  37,1184 },
- {  38,1184 }, {  39,1184 }, {  40,1184 }, {  41,1184 }, {  42,1184 },
- {  43,1184 }, {  44,1184 }, {  45,1442 }, {  46,1184 }, {  47,1184 },
- {  48,1184 }, {  49,1184 }, {  50,1184 }, {  51,1184 }, {  52,1184 },
- {  53,1184 }, {  54,1184 }, {  55,1184 }, {  56,1184 }, {  57,1184 },
- {  58,1184 }, {  59,1184 }, {  60,1184 }, {  61,1184 }, {  62,1184 },
- {  63,1184 }, {  64,1184 }, {  65,1184 }, {  66,1184 }, {  67,1184 },
- {  68,1184 }, {  69,1184 }, {  70,1184 }, {  71,1184 }, {  72,1184 },
- {  73,1184 }, {  74,1184 }, {  75,1184 }, {  76,1184 }, {  77,1184 },
- {  78,1184 }, {  79,1184 }, {  80,1184 }, {  81,1184 }, {  82,1184 },
-
- {  83,1184 }, {  84,1184 }, {  85,1184 }, {  86,1184 }, {  87,1184 },
- {  88,1184 }, {  89,1184 }, {  90,1184 }, {  91,1184 }, {  92,1184 },
- {  93,1184 }, {  94,1184 }, {  95,1184 }, {  96,1184 }, {  97,1184 },
- {  98,1184 }, {  99,1184 }, { 100,1184 }, { 101,1184 }, { 102,1184 },
- { 103,1184 }, { 104,1184 }, { 105,1184 }, { 106,1184 }, { 107,1184 },
- { 108,1184 }, { 109,1184 }, { 110,1184 }, { 111,1184 }, { 112,1184 },
- { 113,1184 }, { 114,1184 }, { 115,1184 }, { 116,1184 }, { 117,1184 },
- { 118,1184 }, { 119,1184 }, { 120,1184 }, { 121,1184 }, { 122,1184 },
- { 123,1184 }, { 124,1184 }, { 125,1184 }, { 126,1184 }, { 127,1184 },
- { 128,1184 }, { 129,1184 }, { 130,1184 }, { 131,1184 }, { 132,1184 },
-
- { 133,1184 }, { 134,1184 }, { 135,1184 }, { 136,1184 }, { 137,1184 },
- { 138,1184 }, { 139,1184 }, { 140,1184 }, { 141,1184 }, { 142,1184 },
- { 143,1184 }, { 144,1184 }, { 145,1184 }, { 146,1184 }, { 147,1184 },
- { 148,1184 }, { 149,1184 }, { 150,1184 }, { 151,1184 }, { 152,1184 },
- { 153,1184 }, { 154,1184 }, { 155,1184 }, { 156,1184 }, { 157,1184 },
- { 158,1184 }, { 159,1184 }, { 160,1184 }, { 161,1184 }, { 162,1184 },
- { 163,1184 }, { 164,1184 }, { 165,1184 }, { 166,1184 }, { 167,1184 },
- { 168,1184 }, { 169,1184 }, { 170,1184 }, { 171,1184 }, { 172,1184 },
- { 173,1184 }, { 174,1184 }, { 175,1184 }, { 176,1184 }, { 177,1184 },
- { 178,1184 }, { 179,1184 }, { 180,1184 }, { 181,1184 }, { 182,1184 },
-
- { 183,1184 }, { 184,1184 }, { 185,1184 }, { 186,1184 }, { 187,1184 },
- { 188,1184 }, { 189,1184 }, { 190,1184 }, { 191,1184 }, { 192,1184 },
- { 193,1184 }, { 194,1184 }, { 195,1184 }, { 196,1184 }, { 197,1184 },
- { 198,1184 }, { 199,1184 }, { 200,1184 }, { 201,1184 }, { 202,1184 },
- { 203,1184 }, { 204,1184 }, { 205,1184 }, { 206,1184 }, { 207,1184 },
- { 208,1184 }, { 209,1184 }, { 210,1184 }, { 211,1184 }, { 212,1184 },
- { 213,1184 }, { 214,1184 }, { 215,1184 }, { 216,1184 }, { 217,1184 },
- { 218,1184 }, { 219,1184 }, { 220,1184 }, { 221,1184 }, { 222,1184 },
- { 223,1184 }, { 224,1184 }, { 225,1184 }, { 226,1184 }, { 227,1184 },
- { 228,1184 }, { 229,1184 }, { 230,1184 }, { 231,1184 }, { 232,1184 },
-
- { 233,1184 }, { 234,1184 }, { 235,1184 }, { 236,1184 }, { 237,1184 },
- { 238,1184 }, { 239,1184 }, { 240,1184 }, { 241,1184 }, { 242,1184 },
- { 243,1184 }, { 244,1184 }, { 245,1184 }, { 246,1184 }, { 247,1184 },
- { 248,1184 }, { 249,1184 }, { 250,1184 }, { 251,1184 }, { 252,1184 },
- { 253,1184 }, { 254,1184 }, { 255,1184 }, { 256,1184 }, {   0,   0 },
- {   0,3778 }, {   1, 811 }, {   2, 811 }, {   3, 811 }, {   4, 811 },
- {   5, 811 }, {   6, 811 }, {   7, 811 }, {   8, 811 }, {   9, 811 },
- {  10, 811 }, {  11, 811 }, {  12, 811 }, {  13, 811 }, {  14, 811 },
- {  15, 811 }, {  16, 811 }, {  17, 811 }, {  18, 811 }, {  19, 811 },
- {  20, 811 }, {  21, 811 }, {  22, 811 }, {  23, 811 }, {  24, 811 },
-
- {  25, 811 }, {  26, 811 }, {  27, 811 }, {  28, 811 }, {  29, 811 },
- {  30, 811 }, {  31, 811 }, {  32, 811 }, {  33, 811 }, {  34, 811 },
- {  35, 811 }, {  36, 811 }, {  37, 811 }, {  38, 811 }, {  39, 811 },
- {  40, 811 }, {  41, 811 }, {  42, 811 }, {  43, 811 }, {  44, 811 },
- {  45, 811 }, {  46, 811 }, {  47,1442 }, {  48, 811 }, {  49, 811 },
- {  50, 811 }, {  51, 811 }, {  52, 811 }, {  53, 811 }, {  54, 811 },
- {  55, 811 }, {  56, 811 }, {  57, 811 }, {  58, 811 }, {  59, 811 },
- {  60, 811 }, {  61, 811 }, {  62, 811 }, {  63, 811 }, {  64, 811 },
- {  65, 811 }, {  66, 811 }, {  67, 811 }, {  68, 811 }, {  69, 811 },
- {  70, 811 }, {  71, 811 }, {  72, 811 }, {  73, 811 }, {  74, 811 },
-
- {  75, 811 }, {  76, 811 }, {  77, 811 }, {  78, 811 }, {  79, 811 },
- {  80, 811 }, {  81, 811 }, {  82, 811 }, {  83, 811 }, {  84, 811 },
- {  85, 811 }, {  86, 811 }, {  87, 811 }, {  88, 811 }, {  89, 811 },
- {  90, 811 }, {  91, 811 }, {  92, 811 }, {  93, 811 }, {  94, 811 },
- {  95, 811 }, {  96, 811 }, {  97, 811 }, {  98, 811 }, {  99, 811 },
- { 100, 811 }, { 101, 811 }, { 102, 811 }, { 103, 811 }, { 104, 811 },
- { 105, 811 }, { 106, 811 }, { 107, 811 }, { 108, 811 }, { 109, 811 },
- { 110, 811 }, { 111, 811 }, { 112, 811 }, { 113, 811 }, { 114, 811 },
- { 115, 811 }, { 116, 811 }, { 117, 811 }, { 118, 811 }, { 119, 811 },
- { 120, 811 }, { 121, 811 }, { 122, 811 }, { 123, 811 }, { 124, 811 },
-
- { 125, 811 }, { 126, 811 }, { 127, 811 }, { 128, 811 }, { 129, 811 },
- { 130, 811 }, { 131, 811 }, { 132, 811 }, { 133, 811 }, { 134, 811 },
- { 135, 811 }, { 136, 811 }, { 137, 811 }, { 138, 811 }, { 139, 811 },
- { 140, 811 }, { 141, 811 }, { 142, 811 }, { 143, 811 }, { 144, 811 },
- { 145, 811 }, { 146, 811 }, { 147, 811 }, { 148, 811 }, { 149, 811 },
- { 150, 811 }, { 151, 811 }, { 152, 811 }, { 153, 811 }, { 154, 811 },
- { 155, 811 }, { 156, 811 }, { 157, 811 }, { 158, 811 }, { 159, 811 },
- { 160, 811 }, { 161, 811 }, { 162, 811 }, { 163, 811 }, { 164, 811 },
- { 165, 811 }, { 166, 811 }, { 167, 811 }, { 168, 811 }, { 169, 811 },
- { 170, 811 }, { 171, 811 }, { 172, 811 }, { 173, 811 }, { 174, 811 },
-
- { 175, 811 }, { 176, 811 }, { 177, 811 }, { 178, 811 }, { 179, 811 },
- { 180, 811 }, { 181, 811 }, { 182, 811 }, { 183, 811 }, { 184, 811 },
- { 185, 811 }, { 186, 811 }, { 187, 811 }, { 188, 811 }, { 189, 811 },
- { 190, 811 }, { 191, 811 }, { 192, 811 }, { 193, 811 }, { 194, 811 },
- { 195, 811 }, { 196, 811 }, { 197, 811 }, { 198, 811 }, { 199, 811 },
- { 200, 811 }, { 201, 811 }, { 202, 811 }, { 203, 811 }, { 204, 811 },
- { 205, 811 }, { 206, 811 }, { 207, 811 }, { 208, 811 }, { 209, 811 },
- { 210, 811 }, { 211, 811 }, { 212, 811 }, { 213, 811 }, { 214, 811 },
- { 215, 811 }, { 216, 811 }, { 217, 811 }, { 218, 811 }, { 219, 811 },
- { 220, 811 }, { 221, 811 }, { 222, 811 }, { 223, 811 }, { 224, 811 },
-
- { 225, 811 }, { 226, 811 }, { 227, 811 }, { 228, 811 }, { 229, 811 },
- { 230, 811 }, { 231, 811 }, { 232, 811 }, { 233, 811 }, { 234, 811 },
- { 235, 811 }, { 236, 811 }, { 237, 811 }, { 238, 811 }, { 239, 811 },
- { 240, 811 }, { 241, 811 }, { 242, 811 }, { 243, 811 }, { 244, 811 },
- { 245, 811 }, { 246, 811 }, { 247, 811 }, { 248, 811 }, { 249, 811 },
- { 250, 811 }, { 251, 811 }, { 252, 811 }, { 253, 811 }, { 254, 811 },
- { 255, 811 }, { 256, 811 }, {   0,   1 }, {   0,3520 }, {   0,   1 },
- {   0,3518 }, {   0,  47 }, {   0,3516 }, {   0,  44 }, {   0,3514 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,3493 }, {   1,-11492 }, {   2,-11492 }, {   3,-11492 }, {   4,-11492 },
- {   5,-11492 }, {   6,-11492 }, {   7,-11492 }, {   8,-11492 }, {   9, 530 },
- {  10, 530 }, {  11,-11492 }, {  12,-11492 }, {  13, 530 }, {  14,-11492 },
- {  15,-11492 }, {  16,-11492 }, {  17,-11492 }, {  18,-11492 }, {  19,-11492 },
- {  20,-11492 }, {  21,-11492 }, {  22,-11492 }, {  23,-11492 }, {  24,-11492 },
- {  25,-11492 }, {  26,-11492 }, {  27,-11492 }, {  28,-11492 }, {  29,-11492 },
- {  30,-11492 }, {  31,-11492 }, {  32, 530 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-11492 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  41, 530 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-11492 }, {  46,-11517 }, {  47,-11517 }, {  48,-11492 }, {  49,-11492 },
- {  50,-11492 }, {  51,-11492 }, {  52,-11492 }, {  53,-11492 }, {  54,-11492 },
- {  55,-11492 }, {  56,-11492 }, {  57,-11492 }, {  58,-11492 }, {   0,   0 },
- {   0,   0 }, {  61,-11517 }, {   0,   0 }, {  63,-11492 }, {   0,   0 },
- {  65,-11492 }, {  66,-11492 }, {  67,-11492 }, {  68,-11492 }, {  69,-11492 },
- {  70,-11492 }, {  71,-11492 }, {  72,-11492 }, {  73,-11492 }, {  74,-11492 },
- {  75,-11492 }, {  76,-11492 }, {  77,-11492 }, {  78,-11492 }, {  79,-11492 },
- {  80,-11492 }, {  81,-11492 }, {  82,-11492 }, {  83,-11492 }, {  84,-11492 },
- {  85,-11492 }, {  86,-11492 }, {  87,-11492 }, {  88,-11492 }, {  89,-11492 },
-
- {  90,-11492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-11492 }, { 123, 555 }, {  97,-11492 }, {  98,-11492 }, {  99,-11492 },
- { 100,-11492 }, { 101,-11492 }, { 102,-11492 }, { 103,-11492 }, { 104,-11492 },
- { 105,-11492 }, { 106,-11492 }, { 107,-11492 }, { 108,-11492 }, { 109,-11492 },
- { 110,-11492 }, { 111,-11492 }, { 112,-11492 }, { 113,-11492 }, { 114,-11492 },
- { 115,-11492 }, { 116,-11492 }, { 117,-11492 }, { 118,-11492 }, { 119,-11492 },
- { 120,-11492 }, { 121,-11492 }, { 122,-11492 }, {   0,   0 }, { 124,-11517 },
- { 125, 530 }, { 126, 530 }, { 127,-11492 }, { 128,-11492 }, { 129,-11492 },
- { 130,-11492 }, { 131,-11492 }, { 132,-11492 }, { 133,-11492 }, { 134,-11492 },
- { 135,-11492 }, { 136,-11492 }, { 137,-11492 }, { 138,-11492 }, { 139,-11492 },
-
- { 140,-11492 }, { 141,-11492 }, { 142,-11492 }, { 143,-11492 }, { 144,-11492 },
- { 145,-11492 }, { 146,-11492 }, { 147,-11492 }, { 148,-11492 }, { 149,-11492 },
- { 150,-11492 }, { 151,-11492 }, { 152,-11492 }, { 153,-11492 }, { 154,-11492 },
- { 155,-11492 }, { 156,-11492 }, { 157,-11492 }, { 158,-11492 }, { 159,-11492 },
- { 160,-11492 }, { 161,-11492 }, { 162,-11492 }, { 163,-11492 }, { 164,-11492 },
- { 165,-11492 }, { 166,-11492 }, { 167,-11492 }, { 168,-11492 }, { 169,-11492 },
- { 170,-11492 }, { 171,-11492 }, { 172,-11492 }, { 173,-11492 }, { 174,-11492 },
- { 175,-11492 }, { 176,-11492 }, { 177,-11492 }, { 178,-11492 }, { 179,-11492 },
- { 180,-11492 }, { 181,-11492 }, { 182,-11492 }, { 183,-11492 }, { 184,-11492 },
- { 185,-11492 }, { 186,-11492 }, { 187,-11492 }, { 188,-11492 }, { 189,-11492 },
-
- { 190,-11492 }, { 191,-11492 }, { 192,-11492 }, { 193,-11492 }, { 194,-11492 },
- { 195,-11492 }, { 196,-11492 }, { 197,-11492 }, { 198,-11492 }, { 199,-11492 },
- { 200,-11492 }, { 201,-11492 }, { 202,-11492 }, { 203,-11492 }, { 204,-11492 },
- { 205,-11492 }, { 206,-11492 }, { 207,-11492 }, { 208,-11492 }, { 209,-11492 },
- { 210,-11492 }, { 211,-11492 }, { 212,-11492 }, { 213,-11492 }, { 214,-11492 },
- { 215,-11492 }, { 216,-11492 }, { 217,-11492 }, { 218,-11492 }, { 219,-11492 },
- { 220,-11492 }, { 221,-11492 }, { 222,-11492 }, { 223,-11492 }, { 224,-11492 },
- { 225,-11492 }, { 226,-11492 }, { 227,-11492 }, { 228,-11492 }, { 229,-11492 },
- { 230,-11492 }, { 231,-11492 }, { 232,-11492 }, { 233,-11492 }, { 234,-11492 },
- { 235,-11492 }, { 236,-11492 }, { 237,-11492 }, { 238,-11492 }, { 239,-11492 },
-
- { 240,-11492 }, { 241,-11492 }, { 242,-11492 }, { 243,-11492 }, { 244,-11492 },
- { 245,-11492 }, { 246,-11492 }, { 247,-11492 }, { 248,-11492 }, { 249,-11492 },
- { 250,-11492 }, { 251,-11492 }, { 252,-11492 }, { 253,-11492 }, { 254,-11492 },
- { 255,-11492 }, { 256,-11492 }, {   0,   0 }, {   0,3235 }, {   1,-11750 },
- {   2,-11750 }, {   3,-11750 }, {   4,-11750 }, {   5,-11750 }, {   6,-11750 },
- {   7,-11750 }, {   8,-11750 }, {   9,-11775 }, {  10,-11775 }, {  11,-11750 },
- {  12,-11750 }, {  13,-11775 }, {  14,-11750 }, {  15,-11750 }, {  16,-11750 },
- {  17,-11750 }, {  18,-11750 }, {  19,-11750 }, {  20,-11750 }, {  21,-11750 },
- {  22,-11750 }, {  23,-11750 }, {  24,-11750 }, {  25,-11750 }, {  26,-11750 },
- {  27,-11750 }, {  28,-11750 }, {  29,-11750 }, {  30,-11750 }, {  31,-11750 },
-
- {  32,-11775 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11750 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11775 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11750 }, {  46,-11775 },
- {  47,-11775 }, {  48,-11750 }, {  49,-11750 }, {  50,-11750 }, {  51,-11750 },
- {  52,-11750 }, {  53,-11750 }, {  54,-11750 }, {  55,-11750 }, {  56,-11750 },
- {  57,-11750 }, {  58,-11750 }, {   0,   0 }, {   0,   0 }, {  61,-11775 },
- {   0,   0 }, {  63,-11750 }, {   0,   0 }, {  65,-11750 }, {  66,-11750 },
- {  67,-11750 }, {  68,-11750 }, {  69,-11750 }, {  70,-11750 }, {  71,-11750 },
- {  72,-11750 }, {  73,-11750 }, {  74,-11750 }, {  75,-11750 }, {  76,-11750 },
- {  77,-11750 }, {  78,-11750 }, {  79,-11750 }, {  80,-11750 }, {  81,-11750 },
-
- {  82,-11750 }, {  83,-11750 }, {  84,-11750 }, {  85,-11750 }, {  86,-11750 },
- {  87,-11750 }, {  88,-11750 }, {  89,-11750 }, {  90,-11750 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11750 }, {   0,   0 },
- {  97,-11750 }, {  98,-11750 }, {  99,-11750 }, { 100,-11750 }, { 101,-11750 },
- { 102,-11750 }, { 103,-11750 }, { 104,-11750 }, { 105,1157 }, { 106,-11750 },
- { 107,-11750 }, { 108,-11750 }, { 109,-11750 }, { 110,-11750 }, { 111,-11750 },
- { 112,-11750 }, { 113,-11750 }, { 114,-11750 }, { 115,-11750 }, { 116,-11750 },
- { 117,-11750 }, { 118,-11750 }, { 119,-11750 }, { 120,-11750 }, { 121,-11750 },
- { 122,-11750 }, {   0,   0 }, { 124,-11775 }, { 125,-11775 }, { 126,-11775 },
- { 127,-11750 }, { 128,-11750 }, { 129,-11750 }, { 130,-11750 }, { 131,-11750 },
-
- { 132,-11750 }, { 133,-11750 }, { 134,-11750 }, { 135,-11750 }, { 136,-11750 },
- { 137,-11750 }, { 138,-11750 }, { 139,-11750 }, { 140,-11750 }, { 141,-11750 },
- { 142,-11750 }, { 143,-11750 }, { 144,-11750 }, { 145,-11750 }, { 146,-11750 },
- { 147,-11750 }, { 148,-11750 }, { 149,-11750 }, { 150,-11750 }, { 151,-11750 },
- { 152,-11750 }, { 153,-11750 }, { 154,-11750 }, { 155,-11750 }, { 156,-11750 },
- { 157,-11750 }, { 158,-11750 }, { 159,-11750 }, { 160,-11750 }, { 161,-11750 },
- { 162,-11750 }, { 163,-11750 }, { 164,-11750 }, { 165,-11750 }, { 166,-11750 },
- { 167,-11750 }, { 168,-11750 }, { 169,-11750 }, { 170,-11750 }, { 171,-11750 },
- { 172,-11750 }, { 173,-11750 }, { 174,-11750 }, { 175,-11750 }, { 176,-11750 },
- { 177,-11750 }, { 178,-11750 }, { 179,-11750 }, { 180,-11750 }, { 181,-11750 },
-
- { 182,-11750 }, { 183,-11750 }, { 184,-11750 }, { 185,-11750 }, { 186,-11750 },
- { 187,-11750 }, { 188,-11750 }, { 189,-11750 }, { 190,-11750 }, { 191,-11750 },
- { 192,-11750 }, { 193,-11750 }, { 194,-11750 }, { 195,-11750 }, { 196,-11750 },
- { 197,-11750 }, { 198,-11750 }, { 199,-11750 }, { 200,-11750 }, { 201,-11750 },
- { 202,-11750 }, { 203,-11750 }, { 204,-11750 }, { 205,-11750 }, { 206,-11750 },
- { 207,-11750 }, { 208,-11750 }, { 209,-11750 }, { 210,-11750 }, { 211,-11750 },
- { 212,-11750 }, { 213,-11750 }, { 214,-11750 }, { 215,-11750 }, { 216,-11750 },
- { 217,-11750 }, { 218,-11750 }, { 219,-11750 }, { 220,-11750 }, { 221,-11750 },
- { 222,-11750 }, { 223,-11750 }, { 224,-11750 }, { 225,-11750 }, { 226,-11750 },
- { 227,-11750 }, { 228,-11750 }, { 229,-11750 }, { 230,-11750 }, { 231,-11750 },
-
- { 232,-11750 }, { 233,-11750 }, { 234,-11750 }, { 235,-11750 }, { 236,-11750 },
- { 237,-11750 }, { 238,-11750 }, { 239,-11750 }, { 240,-11750 }, { 241,-11750 },
- { 242,-11750 }, { 243,-11750 }, { 244,-11750 }, { 245,-11750 }, { 246,-11750 },
- { 247,-11750 }, { 248,-11750 }, { 249,-11750 }, { 250,-11750 }, { 251,-11750 },
- { 252,-11750 }, { 253,-11750 }, { 254,-11750 }, { 255,-11750 }, { 256,-11750 },
- {   0,   0 }, {   0,2977 }, {   0,  29 }, {   0,2975 }, {   0,  23 },
- {   0,2973 }, {   0,   0 }, {   0,2971 }, {   0,   0 }, {   0,2969 },
- {   0,   8 }, {   0,2967 }, {   0,   1 }, {   0,2965 }, {   0,  45 },
- {   0,2963 }, {   0,   0 }, {   0,2961 }, {   0,   0 }, {   0,2959 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
+ { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
+ { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
+ { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
+ { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
+ { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
+ { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
+ { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
+ { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
+ { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
 
+ { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
+ { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
+ { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
+ { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
+ { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
+ { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
+ { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
+ {   0,5590 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,   0 },
+ {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,5564 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,5553 }, {   0,  17 }, {   0,5551 },
+ {   0,  27 }, {   0,5549 }, {   0,  18 }, {   0,5547 }, {   0,  37 },
+ {   0,5545 }, {   0,  12 }, {   0,5543 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,5530 }, {   1,-9377 }, {   2,-9377 }, {   3,-9377 }, {   4,-9377 },
+
+ {   5,-9377 }, {   6,-9377 }, {   7,-9377 }, {   8,-9377 }, {   9,-9402 },
+ {  10,-9402 }, {  11,-9377 }, {  12,-9377 }, {  13,-9402 }, {  14,-9377 },
+ {  15,-9377 }, {  16,-9377 }, {  17,-9377 }, {  18,-9377 }, {  19,-9377 },
+ {  20,-9377 }, {  21,-9377 }, {  22,-9377 }, {  23,-9377 }, {  24,-9377 },
+ {  25,-9377 }, {  26,-9377 }, {  27,-9377 }, {  28,-9377 }, {  29,-9377 },
+ {  30,-9377 }, {  31,-9377 }, {  32,-9402 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-9377 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-9402 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-9377 }, {  46,-9402 }, {  47,-9402 }, {  48,-9377 }, {  49,-9377 },
+ {  50,-9377 }, {  51,-9377 }, {  52,-9377 }, {  53,-9377 }, {  54,-9377 },
+
+ {  55,-9377 }, {  56,-9377 }, {  57,-9377 }, {  58,-9377 }, {   0,   0 },
+ {   0,   0 }, {  61,-9402 }, {   0,   0 }, {  63,-9377 }, { 124,-635 },
+ {  65,-9377 }, {  66,-9377 }, {  67,-9377 }, {  68,-9377 }, {  69,-9377 },
+ {  70,-9377 }, {  71,-9377 }, {  72,-9377 }, {  73,-9377 }, {  74,-9377 },
+ {  75,-9377 }, {  76,-9377 }, {  77,-9377 }, {  78,-9377 }, {  79,-9377 },
+ {  80,-9377 }, {  81,-9377 }, {  82,-9377 }, {  83,-9377 }, {  84,-9377 },
+ {  85,-9377 }, {  86,-9377 }, {  87,-9377 }, {  88,-9377 }, {  89,-9377 },
+ {  90,-9377 }, { 125,-575 }, { 115,2232 }, {   0,   0 }, {   0,   0 },
+ {  95,-9377 }, {   0,   0 }, {  97,-9377 }, {  98,-9377 }, {  99,-9377 },
+ { 100,-9377 }, { 101,2219 }, { 102,-9377 }, { 103,-9377 }, { 104,-9377 },
+
+ { 105,-9377 }, { 106,-9377 }, { 107,-9377 }, { 108,-9377 }, { 109,-9377 },
+ { 110,-9377 }, { 111,-9377 }, { 112,-9377 }, { 113,-9377 }, { 114,-9377 },
+ { 115,-9377 }, { 116,-9377 }, { 117,-9377 }, { 118,-9377 }, { 119,-9377 },
+ { 120,-9377 }, { 121,-9377 }, { 122,-9377 }, {   0,   0 }, { 124,-9402 },
+ { 125,-9402 }, { 126,-9402 }, { 127,-9377 }, { 128,-9377 }, { 129,-9377 },
+ { 130,-9377 }, { 131,-9377 }, { 132,-9377 }, { 133,-9377 }, { 134,-9377 },
+ { 135,-9377 }, { 136,-9377 }, { 137,-9377 }, { 138,-9377 }, { 139,-9377 },
+ { 140,-9377 }, { 141,-9377 }, { 142,-9377 }, { 143,-9377 }, { 144,-9377 },
+ { 145,-9377 }, { 146,-9377 }, { 147,-9377 }, { 148,-9377 }, { 149,-9377 },
+ { 150,-9377 }, { 151,-9377 }, { 152,-9377 }, { 153,-9377 }, { 154,-9377 },
+
+ { 155,-9377 }, { 156,-9377 }, { 157,-9377 }, { 158,-9377 }, { 159,-9377 },
+ { 160,-9377 }, { 161,-9377 }, { 162,-9377 }, { 163,-9377 }, { 164,-9377 },
+ { 165,-9377 }, { 166,-9377 }, { 167,-9377 }, { 168,-9377 }, { 169,-9377 },
+ { 170,-9377 }, { 171,-9377 }, { 172,-9377 }, { 173,-9377 }, { 174,-9377 },
+ { 175,-9377 }, { 176,-9377 }, { 177,-9377 }, { 178,-9377 }, { 179,-9377 },
+ { 180,-9377 }, { 181,-9377 }, { 182,-9377 }, { 183,-9377 }, { 184,-9377 },
+ { 185,-9377 }, { 186,-9377 }, { 187,-9377 }, { 188,-9377 }, { 189,-9377 },
+ { 190,-9377 }, { 191,-9377 }, { 192,-9377 }, { 193,-9377 }, { 194,-9377 },
+ { 195,-9377 }, { 196,-9377 }, { 197,-9377 }, { 198,-9377 }, { 199,-9377 },
+ { 200,-9377 }, { 201,-9377 }, { 202,-9377 }, { 203,-9377 }, { 204,-9377 },
+
+ { 205,-9377 }, { 206,-9377 }, { 207,-9377 }, { 208,-9377 }, { 209,-9377 },
+ { 210,-9377 }, { 211,-9377 }, { 212,-9377 }, { 213,-9377 }, { 214,-9377 },
+ { 215,-9377 }, { 216,-9377 }, { 217,-9377 }, { 218,-9377 }, { 219,-9377 },
+ { 220,-9377 }, { 221,-9377 }, { 222,-9377 }, { 223,-9377 }, { 224,-9377 },
+ { 225,-9377 }, { 226,-9377 }, { 227,-9377 }, { 228,-9377 }, { 229,-9377 },
+ { 230,-9377 }, { 231,-9377 }, { 232,-9377 }, { 233,-9377 }, { 234,-9377 },
+ { 235,-9377 }, { 236,-9377 }, { 237,-9377 }, { 238,-9377 }, { 239,-9377 },
+ { 240,-9377 }, { 241,-9377 }, { 242,-9377 }, { 243,-9377 }, { 244,-9377 },
+ { 245,-9377 }, { 246,-9377 }, { 247,-9377 }, { 248,-9377 }, { 249,-9377 },
+ { 250,-9377 }, { 251,-9377 }, { 252,-9377 }, { 253,-9377 }, { 254,-9377 },
+
+ { 255,-9377 }, { 256,-9377 }, {   0,   0 }, {   0,5272 }, {   1,-9635 },
+ {   2,-9635 }, {   3,-9635 }, {   4,-9635 }, {   5,-9635 }, {   6,-9635 },
+ {   7,-9635 }, {   8,-9635 }, {   9,1938 }, {  10,1938 }, {  11,-9635 },
+ {  12,-9635 }, {  13,1938 }, {  14,-9635 }, {  15,-9635 }, {  16,-9635 },
+ {  17,-9635 }, {  18,-9635 }, {  19,-9635 }, {  20,-9635 }, {  21,-9635 },
+ {  22,-9635 }, {  23,-9635 }, {  24,-9635 }, {  25,-9635 }, {  26,-9635 },
+ {  27,-9635 }, {  28,-9635 }, {  29,-9635 }, {  30,-9635 }, {  31,-9635 },
+ {  32,1938 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9635 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1938 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9635 }, {  46,-9660 },
+
+ {  47,-9660 }, {  48,-9635 }, {  49,-9635 }, {  50,-9635 }, {  51,-9635 },
+ {  52,-9635 }, {  53,-9635 }, {  54,-9635 }, {  55,-9635 }, {  56,-9635 },
+ {  57,-9635 }, {  58,-9635 }, {   0,   0 }, {   0,   0 }, {  61,-9660 },
+ {   0,   0 }, {  63,-9635 }, {   0,   0 }, {  65,-9635 }, {  66,-9635 },
+ {  67,-9635 }, {  68,-9635 }, {  69,-9635 }, {  70,-9635 }, {  71,-9635 },
+ {  72,-9635 }, {  73,-9635 }, {  74,-9635 }, {  75,-9635 }, {  76,-9635 },
+ {  77,-9635 }, {  78,-9635 }, {  79,-9635 }, {  80,-9635 }, {  81,-9635 },
+ {  82,-9635 }, {  83,-9635 }, {  84,-9635 }, {  85,-9635 }, {  86,-9635 },
+ {  87,-9635 }, {  88,-9635 }, {  89,-9635 }, {  90,-9635 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9635 }, {   0,   0 },
+
+ {  97,-9635 }, {  98,-9635 }, {  99,-9635 }, { 100,-9635 }, { 101,-9635 },
+ { 102,-9635 }, { 103,-9635 }, { 104,-9635 }, { 105,-9635 }, { 106,-9635 },
+ { 107,-9635 }, { 108,-9635 }, { 109,-9635 }, { 110,-9635 }, { 111,-9635 },
+ { 112,-9635 }, { 113,-9635 }, { 114,-9635 }, { 115,-9635 }, { 116,-9635 },
+ { 117,-9635 }, { 118,-9635 }, { 119,-9635 }, { 120,-9635 }, { 121,-9635 },
+ { 122,-9635 }, {   0,   0 }, { 124,-9660 }, { 125,1938 }, { 126,1938 },
+ { 127,-9635 }, { 128,-9635 }, { 129,-9635 }, { 130,-9635 }, { 131,-9635 },
+ { 132,-9635 }, { 133,-9635 }, { 134,-9635 }, { 135,-9635 }, { 136,-9635 },
+ { 137,-9635 }, { 138,-9635 }, { 139,-9635 }, { 140,-9635 }, { 141,-9635 },
+ { 142,-9635 }, { 143,-9635 }, { 144,-9635 }, { 145,-9635 }, { 146,-9635 },
+
+ { 147,-9635 }, { 148,-9635 }, { 149,-9635 }, { 150,-9635 }, { 151,-9635 },
+ { 152,-9635 }, { 153,-9635 }, { 154,-9635 }, { 155,-9635 }, { 156,-9635 },
+ { 157,-9635 }, { 158,-9635 }, { 159,-9635 }, { 160,-9635 }, { 161,-9635 },
+ { 162,-9635 }, { 163,-9635 }, { 164,-9635 }, { 165,-9635 }, { 166,-9635 },
+ { 167,-9635 }, { 168,-9635 }, { 169,-9635 }, { 170,-9635 }, { 171,-9635 },
+ { 172,-9635 }, { 173,-9635 }, { 174,-9635 }, { 175,-9635 }, { 176,-9635 },
+ { 177,-9635 }, { 178,-9635 }, { 179,-9635 }, { 180,-9635 }, { 181,-9635 },
+ { 182,-9635 }, { 183,-9635 }, { 184,-9635 }, { 185,-9635 }, { 186,-9635 },
+ { 187,-9635 }, { 188,-9635 }, { 189,-9635 }, { 190,-9635 }, { 191,-9635 },
+ { 192,-9635 }, { 193,-9635 }, { 194,-9635 }, { 195,-9635 }, { 196,-9635 },
+
+ { 197,-9635 }, { 198,-9635 }, { 199,-9635 }, { 200,-9635 }, { 201,-9635 },
+ { 202,-9635 }, { 203,-9635 }, { 204,-9635 }, { 205,-9635 }, { 206,-9635 },
+ { 207,-9635 }, { 208,-9635 }, { 209,-9635 }, { 210,-9635 }, { 211,-9635 },
+ { 212,-9635 }, { 213,-9635 }, { 214,-9635 }, { 215,-9635 }, { 216,-9635 },
+ { 217,-9635 }, { 218,-9635 }, { 219,-9635 }, { 220,-9635 }, { 221,-9635 },
+ { 222,-9635 }, { 223,-9635 }, { 224,-9635 }, { 225,-9635 }, { 226,-9635 },
+ { 227,-9635 }, { 228,-9635 }, { 229,-9635 }, { 230,-9635 }, { 231,-9635 },
+ { 232,-9635 }, { 233,-9635 }, { 234,-9635 }, { 235,-9635 }, { 236,-9635 },
+ { 237,-9635 }, { 238,-9635 }, { 239,-9635 }, { 240,-9635 }, { 241,-9635 },
+ { 242,-9635 }, { 243,-9635 }, { 244,-9635 }, { 245,-9635 }, { 246,-9635 },
+
+ { 247,-9635 }, { 248,-9635 }, { 249,-9635 }, { 250,-9635 }, { 251,-9635 },
+ { 252,-9635 }, { 253,-9635 }, { 254,-9635 }, { 255,-9635 }, { 256,-9635 },
+ {   0,   0 }, {   0,5014 }, {   1,-9893 }, {   2,-9893 }, {   3,-9893 },
+ {   4,-9893 }, {   5,-9893 }, {   6,-9893 }, {   7,-9893 }, {   8,-9893 },
+ {   9,1682 }, {  10,1682 }, {  11,-9893 }, {  12,-9893 }, {  13,1682 },
+ {  14,-9893 }, {  15,-9893 }, {  16,-9893 }, {  17,-9893 }, {  18,-9893 },
+ {  19,-9893 }, {  20,-9893 }, {  21,-9893 }, {  22,-9893 }, {  23,-9893 },
+ {  24,-9893 }, {  25,-9893 }, {  26,-9893 }, {  27,-9893 }, {  28,-9893 },
+ {  29,-9893 }, {  30,-9893 }, {  31,-9893 }, {  32,1682 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-9893 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  41,1682 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-9893 }, {  46,-9918 }, {  47,-9918 }, {  48,-9893 },
+ {  49,-9893 }, {  50,-9893 }, {  51,-9893 }, {  52,-9893 }, {  53,-9893 },
+ {  54,-9893 }, {  55,-9893 }, {  56,-9893 }, {  57,-9893 }, {  58,-9893 },
+ {   0,   0 }, {   0,   0 }, {  61,-9918 }, {   0,   0 }, {  63,-9893 },
+ {   0,   0 }, {  65,-9893 }, {  66,-9893 }, {  67,-9893 }, {  68,-9893 },
+ {  69,-9893 }, {  70,-9893 }, {  71,-9893 }, {  72,-9893 }, {  73,-9893 },
+ {  74,-9893 }, {  75,-9893 }, {  76,-9893 }, {  77,-9893 }, {  78,-9893 },
+ {  79,-9893 }, {  80,-9893 }, {  81,-9893 }, {  82,-9893 }, {  83,-9893 },
+ {  84,-9893 }, {  85,-9893 }, {  86,-9893 }, {  87,-9893 }, {  88,-9893 },
+
+ {  89,-9893 }, {  90,-9893 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-9893 }, {   0,   0 }, {  97,-9893 }, {  98,-9893 },
+ {  99,-9893 }, { 100,-9893 }, { 101,-9893 }, { 102,-9893 }, { 103,-9893 },
+ { 104,-9893 }, { 105,-9893 }, { 106,-9893 }, { 107,-9893 }, { 108,-9893 },
+ { 109,-9893 }, { 110,-9893 }, { 111,-9893 }, { 112,-9893 }, { 113,-9893 },
+ { 114,-9893 }, { 115,-9893 }, { 116,-9893 }, { 117,-9893 }, { 118,-9893 },
+ { 119,-9893 }, { 120,-9893 }, { 121,-9893 }, { 122,-9893 }, {   0,   0 },
+ { 124,-9918 }, { 125,1682 }, { 126,1682 }, { 127,-9893 }, { 128,-9893 },
+ { 129,-9893 }, { 130,-9893 }, { 131,-9893 }, { 132,-9893 }, { 133,-9893 },
+ { 134,-9893 }, { 135,-9893 }, { 136,-9893 }, { 137,-9893 }, { 138,-9893 },
+
+ { 139,-9893 }, { 140,-9893 }, { 141,-9893 }, { 142,-9893 }, { 143,-9893 },
+ { 144,-9893 }, { 145,-9893 }, { 146,-9893 }, { 147,-9893 }, { 148,-9893 },
+ { 149,-9893 }, { 150,-9893 }, { 151,-9893 }, { 152,-9893 }, { 153,-9893 },
+ { 154,-9893 }, { 155,-9893 }, { 156,-9893 }, { 157,-9893 }, { 158,-9893 },
+ { 159,-9893 }, { 160,-9893 }, { 161,-9893 }, { 162,-9893 }, { 163,-9893 },
+ { 164,-9893 }, { 165,-9893 }, { 166,-9893 }, { 167,-9893 }, { 168,-9893 },
+ { 169,-9893 }, { 170,-9893 }, { 171,-9893 }, { 172,-9893 }, { 173,-9893 },
+ { 174,-9893 }, { 175,-9893 }, { 176,-9893 }, { 177,-9893 }, { 178,-9893 },
+ { 179,-9893 }, { 180,-9893 }, { 181,-9893 }, { 182,-9893 }, { 183,-9893 },
+ { 184,-9893 }, { 185,-9893 }, { 186,-9893 }, { 187,-9893 }, { 188,-9893 },
+
+ { 189,-9893 }, { 190,-9893 }, { 191,-9893 }, { 192,-9893 }, { 193,-9893 },
+ { 194,-9893 }, { 195,-9893 }, { 196,-9893 }, { 197,-9893 }, { 198,-9893 },
+ { 199,-9893 }, { 200,-9893 }, { 201,-9893 }, { 202,-9893 }, { 203,-9893 },
+ { 204,-9893 }, { 205,-9893 }, { 206,-9893 }, { 207,-9893 }, { 208,-9893 },
+ { 209,-9893 }, { 210,-9893 }, { 211,-9893 }, { 212,-9893 }, { 213,-9893 },
+ { 214,-9893 }, { 215,-9893 }, { 216,-9893 }, { 217,-9893 }, { 218,-9893 },
+ { 219,-9893 }, { 220,-9893 }, { 221,-9893 }, { 222,-9893 }, { 223,-9893 },
+ { 224,-9893 }, { 225,-9893 }, { 226,-9893 }, { 227,-9893 }, { 228,-9893 },
+ { 229,-9893 }, { 230,-9893 }, { 231,-9893 }, { 232,-9893 }, { 233,-9893 },
+ { 234,-9893 }, { 235,-9893 }, { 236,-9893 }, { 237,-9893 }, { 238,-9893 },
+
+ { 239,-9893 }, { 240,-9893 }, { 241,-9893 }, { 242,-9893 }, { 243,-9893 },
+ { 244,-9893 }, { 245,-9893 }, { 246,-9893 }, { 247,-9893 }, { 248,-9893 },
+ { 249,-9893 }, { 250,-9893 }, { 251,-9893 }, { 252,-9893 }, { 253,-9893 },
+ { 254,-9893 }, { 255,-9893 }, { 256,-9893 }, {   0,   0 }, {   0,4756 },
+ {   1,-10151 }, {   2,-10151 }, {   3,-10151 }, {   4,-10151 }, {   5,-10151 },
+ {   6,-10151 }, {   7,-10151 }, {   8,-10151 }, {   9,-10176 }, {  10,-10176 },
+ {  11,-10151 }, {  12,-10151 }, {  13,-10176 }, {  14,-10151 }, {  15,-10151 },
+ {  16,-10151 }, {  17,-10151 }, {  18,-10151 }, {  19,-10151 }, {  20,-10151 },
+ {  21,-10151 }, {  22,-10151 }, {  23,-10151 }, {  24,-10151 }, {  25,-10151 },
+ {  26,-10151 }, {  27,-10151 }, {  28,-10151 }, {  29,-10151 }, {  30,-10151 },
+
+ {  31,-10151 }, {  32,-10176 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-10151 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-10176 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-10151 },
+ {  46,-10176 }, {  47,-10176 }, {  48,-10151 }, {  49,-10151 }, {  50,-10151 },
+ {  51,-10151 }, {  52,-10151 }, {  53,-10151 }, {  54,-10151 }, {  55,-10151 },
+ {  56,-10151 }, {  57,-10151 }, {  58,-10151 }, {   0,   0 }, {   0,   0 },
+ {  61,-10176 }, {   0,   0 }, {  63,-10151 }, {   0,   0 }, {  65,-10151 },
+ {  66,-10151 }, {  67,-10151 }, {  68,-10151 }, {  69,-10151 }, {  70,-10151 },
+ {  71,-10151 }, {  72,-10151 }, {  73,-10151 }, {  74,-10151 }, {  75,-10151 },
+ {  76,-10151 }, {  77,-10151 }, {  78,-10151 }, {  79,-10151 }, {  80,-10151 },
+
+ {  81,-10151 }, {  82,-10151 }, {  83,-10151 }, {  84,-10151 }, {  85,-10151 },
+ {  86,-10151 }, {  87,-10151 }, {  88,-10151 }, {  89,-10151 }, {  90,-10151 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-10151 },
+ {   0,   0 }, {  97,-10151 }, {  98,-10151 }, {  99,-10151 }, { 100,-10151 },
+ { 101,-10151 }, { 102,1703 }, { 103,-10151 }, { 104,-10151 }, { 105,-10151 },
+ { 106,-10151 }, { 107,-10151 }, { 108,-10151 }, { 109,-10151 }, { 110,-10151 },
+ { 111,-10151 }, { 112,-10151 }, { 113,-10151 }, { 114,-10151 }, { 115,-10151 },
+ { 116,-10151 }, { 117,-10151 }, { 118,-10151 }, { 119,-10151 }, { 120,-10151 },
+ { 121,-10151 }, { 122,-10151 }, {   0,   0 }, { 124,-10176 }, { 125,-10176 },
+ { 126,-10176 }, { 127,-10151 }, { 128,-10151 }, { 129,-10151 }, { 130,-10151 },
+
+ { 131,-10151 }, { 132,-10151 }, { 133,-10151 }, { 134,-10151 }, { 135,-10151 },
+ { 136,-10151 }, { 137,-10151 }, { 138,-10151 }, { 139,-10151 }, { 140,-10151 },
+ { 141,-10151 }, { 142,-10151 }, { 143,-10151 }, { 144,-10151 }, { 145,-10151 },
+ { 146,-10151 }, { 147,-10151 }, { 148,-10151 }, { 149,-10151 }, { 150,-10151 },
+ { 151,-10151 }, { 152,-10151 }, { 153,-10151 }, { 154,-10151 }, { 155,-10151 },
+ { 156,-10151 }, { 157,-10151 }, { 158,-10151 }, { 159,-10151 }, { 160,-10151 },
+ { 161,-10151 }, { 162,-10151 }, { 163,-10151 }, { 164,-10151 }, { 165,-10151 },
+ { 166,-10151 }, { 167,-10151 }, { 168,-10151 }, { 169,-10151 }, { 170,-10151 },
+ { 171,-10151 }, { 172,-10151 }, { 173,-10151 }, { 174,-10151 }, { 175,-10151 },
+ { 176,-10151 }, { 177,-10151 }, { 178,-10151 }, { 179,-10151 }, { 180,-10151 },
+
+ { 181,-10151 }, { 182,-10151 }, { 183,-10151 }, { 184,-10151 }, { 185,-10151 },
+ { 186,-10151 }, { 187,-10151 }, { 188,-10151 }, { 189,-10151 }, { 190,-10151 },
+ { 191,-10151 }, { 192,-10151 }, { 193,-10151 }, { 194,-10151 }, { 195,-10151 },
+ { 196,-10151 }, { 197,-10151 }, { 198,-10151 }, { 199,-10151 }, { 200,-10151 },
+ { 201,-10151 }, { 202,-10151 }, { 203,-10151 }, { 204,-10151 }, { 205,-10151 },
+ { 206,-10151 }, { 207,-10151 }, { 208,-10151 }, { 209,-10151 }, { 210,-10151 },
+ { 211,-10151 }, { 212,-10151 }, { 213,-10151 }, { 214,-10151 }, { 215,-10151 },
+ { 216,-10151 }, { 217,-10151 }, { 218,-10151 }, { 219,-10151 }, { 220,-10151 },
+ { 221,-10151 }, { 222,-10151 }, { 223,-10151 }, { 224,-10151 }, { 225,-10151 },
+ { 226,-10151 }, { 227,-10151 }, { 228,-10151 }, { 229,-10151 }, { 230,-10151 },
+
+ { 231,-10151 }, { 232,-10151 }, { 233,-10151 }, { 234,-10151 }, { 235,-10151 },
+ { 236,-10151 }, { 237,-10151 }, { 238,-10151 }, { 239,-10151 }, { 240,-10151 },
+ { 241,-10151 }, { 242,-10151 }, { 243,-10151 }, { 244,-10151 }, { 245,-10151 },
+ { 246,-10151 }, { 247,-10151 }, { 248,-10151 }, { 249,-10151 }, { 250,-10151 },
+ { 251,-10151 }, { 252,-10151 }, { 253,-10151 }, { 254,-10151 }, { 255,-10151 },
+ { 256,-10151 }, {   0,   0 }, {   0,4498 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
+ {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -5096,9 +4747,6 @@ static const struct yy_trans_info yy_transition[23608] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -5106,45 +4754,506 @@ static const struct yy_trans_info yy_transition[23608] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,1151 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 115,  16 }, {   0,   0 }, { 101,2301 }, {   0,   0 },
- { 101,2307 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,  10 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, { 125,-1641 }, { 126,-1066 }, {   0,   0 },
+ {   0,4370 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
+ {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
+ {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
+ {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
+ {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
+ {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
+ {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
+ {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
+
+ {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
+ {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
+ {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
+ {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
+ {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
+ {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
+ {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
+ {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+ {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
+ {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 }, {  94,   0 },
+
+ {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
+ { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
+ { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
+ { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+ { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
+ { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
+ { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
+ { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+ { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
+ { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
+
+ { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
+ { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
+ { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
+ { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+ { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
+ { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
+ { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
+ { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+ { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
+ { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
+
+ { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
+ { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
+ { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
+ { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+ { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
+ { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
+ { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
+ { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+ { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
+ { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
+
+ { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
+ { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4112 }, {   1,-258 },
+ {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
+ {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
+ {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
+ {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
+ {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
+ {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
+ {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 },
+
+ {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
+ {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-2895 }, {  46,-258 },
+ {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
+ {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
+ {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
+ {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
+ {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
+ {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
+ {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
+ {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
+
+ {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
+ {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
+ {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
+ { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
+ { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
+ { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
+ { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
+ { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
+ { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
+ { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
+
+ { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
+ { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
+ { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
+ { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
+ { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
+ { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
+ { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
+ { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
+ { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
+ { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
+
+ { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
+ { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
+ { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
+ { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
+ { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
+ { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
+ { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
+ { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
+ { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
+ { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
+
+ { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
+ { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
+ { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
+ { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
+ {   0,   0 }, {   0,3854 }, {   1,1059 }, {   2,1059 }, {   3,1059 },
+ {   4,1059 }, {   5,1059 }, {   6,1059 }, {   7,1059 }, {   8,1059 },
+ {   9,1059 }, {  10,1059 }, {  11,1059 }, {  12,1059 }, {  13,1059 },
+ {  14,1059 }, {  15,1059 }, {  16,1059 }, {  17,1059 }, {  18,1059 },
+ {  19,1059 }, {  20,1059 }, {  21,1059 }, {  22,1059 }, {  23,1059 },
+ {  24,1059 }, {  25,1059 }, {  26,1059 }, {  27,1059 }, {  28,1059 },
+
+ {  29,1059 }, {  30,1059 }, {  31,1059 }, {  32,1059 }, {  33,1059 },
+ {  34,1059 }, {  35,1059 }, {  36,1059 }, {  37,1059 }, {  38,1059 },
+ {  39,1059 }, {  40,1059 }, {  41,1059 }, {  42,1059 }, {  43,1059 },
+ {  44,1059 }, {  45,1317 }, {  46,1059 }, {  47,1059 }, {  48,1059 },
+ {  49,1059 }, {  50,1059 }, {  51,1059 }, {  52,1059 }, {  53,1059 },
+ {  54,1059 }, {  55,1059 }, {  56,1059 }, {  57,1059 }, {  58,1059 },
+ {  59,1059 }, {  60,1059 }, {  61,1059 }, {  62,1059 }, {  63,1059 },
+ {  64,1059 }, {  65,1059 }, {  66,1059 }, {  67,1059 }, {  68,1059 },
+ {  69,1059 }, {  70,1059 }, {  71,1059 }, {  72,1059 }, {  73,1059 },
+ {  74,1059 }, {  75,1059 }, {  76,1059 }, {  77,1059 }, {  78,1059 },
+
+ {  79,1059 }, {  80,1059 }, {  81,1059 }, {  82,1059 }, {  83,1059 },
+ {  84,1059 }, {  85,1059 }, {  86,1059 }, {  87,1059 }, {  88,1059 },
+ {  89,1059 }, {  90,1059 }, {  91,1059 }, {  92,1059 }, {  93,1059 },
+ {  94,1059 }, {  95,1059 }, {  96,1059 }, {  97,1059 }, {  98,1059 },
+ {  99,1059 }, { 100,1059 }, { 101,1059 }, { 102,1059 }, { 103,1059 },
+ { 104,1059 }, { 105,1059 }, { 106,1059 }, { 107,1059 }, { 108,1059 },
+ { 109,1059 }, { 110,1059 }, { 111,1059 }, { 112,1059 }, { 113,1059 },
+ { 114,1059 }, { 115,1059 }, { 116,1059 }, { 117,1059 }, { 118,1059 },
+ { 119,1059 }, { 120,1059 }, { 121,1059 }, { 122,1059 }, { 123,1059 },
+ { 124,1059 }, { 125,1059 }, { 126,1059 }, { 127,1059 }, { 128,1059 },
+
+ { 129,1059 }, { 130,1059 }, { 131,1059 }, { 132,1059 }, { 133,1059 },
+ { 134,1059 }, { 135,1059 }, { 136,1059 }, { 137,1059 }, { 138,1059 },
+ { 139,1059 }, { 140,1059 }, { 141,1059 }, { 142,1059 }, { 143,1059 },
+ { 144,1059 }, { 145,1059 }, { 146,1059 }, { 147,1059 }, { 148,1059 },
+ { 149,1059 }, { 150,1059 }, { 151,1059 }, { 152,1059 }, { 153,1059 },
+ { 154,1059 }, { 155,1059 }, { 156,1059 }, { 157,1059 }, { 158,1059 },
+ { 159,1059 }, { 160,1059 }, { 161,1059 }, { 162,1059 }, { 163,1059 },
+ { 164,1059 }, { 165,1059 }, { 166,1059 }, { 167,1059 }, { 168,1059 },
+ { 169,1059 }, { 170,1059 }, { 171,1059 }, { 172,1059 }, { 173,1059 },
+ { 174,1059 }, { 175,1059 }, { 176,1059 }, { 177,1059 }, { 178,1059 },
+
+ { 179,1059 }, { 180,1059 }, { 181,1059 }, { 182,1059 }, { 183,1059 },
+ { 184,1059 }, { 185,1059 }, { 186,1059 }, { 187,1059 }, { 188,1059 },
+ { 189,1059 }, { 190,1059 }, { 191,1059 }, { 192,1059 }, { 193,1059 },
+ { 194,1059 }, { 195,1059 }, { 196,1059 }, { 197,1059 }, { 198,1059 },
+ { 199,1059 }, { 200,1059 }, { 201,1059 }, { 202,1059 }, { 203,1059 },
+ { 204,1059 }, { 205,1059 }, { 206,1059 }, { 207,1059 }, { 208,1059 },
+ { 209,1059 }, { 210,1059 }, { 211,1059 }, { 212,1059 }, { 213,1059 },
+ { 214,1059 }, { 215,1059 }, { 216,1059 }, { 217,1059 }, { 218,1059 },
+ { 219,1059 }, { 220,1059 }, { 221,1059 }, { 222,1059 }, { 223,1059 },
+ { 224,1059 }, { 225,1059 }, { 226,1059 }, { 227,1059 }, { 228,1059 },
+
+ { 229,1059 }, { 230,1059 }, { 231,1059 }, { 232,1059 }, { 233,1059 },
+ { 234,1059 }, { 235,1059 }, { 236,1059 }, { 237,1059 }, { 238,1059 },
+ { 239,1059 }, { 240,1059 }, { 241,1059 }, { 242,1059 }, { 243,1059 },
+ { 244,1059 }, { 245,1059 }, { 246,1059 }, { 247,1059 }, { 248,1059 },
+ { 249,1059 }, { 250,1059 }, { 251,1059 }, { 252,1059 }, { 253,1059 },
+ { 254,1059 }, { 255,1059 }, { 256,1059 }, {   0,   0 }, {   0,3596 },
+ {   1, 277 }, {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 },
+ {   6, 277 }, {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 },
+ {  11, 277 }, {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 },
+ {  16, 277 }, {  17, 277 }, {  18, 277 }, {  19, 277 }, {  20, 277 },
+
+ {  21, 277 }, {  22, 277 }, {  23, 277 }, {  24, 277 }, {  25, 277 },
+ {  26, 277 }, {  27, 277 }, {  28, 277 }, {  29, 277 }, {  30, 277 },
+ {  31, 277 }, {  32, 277 }, {  33, 277 }, {  34, 277 }, {  35, 277 },
+ {  36, 277 }, {  37, 277 }, {  38, 277 }, {  39, 277 }, {  40, 277 },
+ {  41, 277 }, {  42, 277 }, {  43, 277 }, {  44, 277 }, {  45, 277 },
+ {  46, 277 }, {  47,1317 }, {  48, 277 }, {  49, 277 }, {  50, 277 },
+ {  51, 277 }, {  52, 277 }, {  53, 277 }, {  54, 277 }, {  55, 277 },
+ {  56, 277 }, {  57, 277 }, {  58, 277 }, {  59, 277 }, {  60, 277 },
+ {  61, 277 }, {  62, 277 }, {  63, 277 }, {  64, 277 }, {  65, 277 },
+ {  66, 277 }, {  67, 277 }, {  68, 277 }, {  69, 277 }, {  70, 277 },
+
+ {  71, 277 }, {  72, 277 }, {  73, 277 }, {  74, 277 }, {  75, 277 },
+ {  76, 277 }, {  77, 277 }, {  78, 277 }, {  79, 277 }, {  80, 277 },
+ {  81, 277 }, {  82, 277 }, {  83, 277 }, {  84, 277 }, {  85, 277 },
+ {  86, 277 }, {  87, 277 }, {  88, 277 }, {  89, 277 }, {  90, 277 },
+ {  91, 277 }, {  92, 277 }, {  93, 277 }, {  94, 277 }, {  95, 277 },
+ {  96, 277 }, {  97, 277 }, {  98, 277 }, {  99, 277 }, { 100, 277 },
+ { 101, 277 }, { 102, 277 }, { 103, 277 }, { 104, 277 }, { 105, 277 },
+ { 106, 277 }, { 107, 277 }, { 108, 277 }, { 109, 277 }, { 110, 277 },
+ { 111, 277 }, { 112, 277 }, { 113, 277 }, { 114, 277 }, { 115, 277 },
+ { 116, 277 }, { 117, 277 }, { 118, 277 }, { 119, 277 }, { 120, 277 },
+
+ { 121, 277 }, { 122, 277 }, { 123, 277 }, { 124, 277 }, { 125, 277 },
+ { 126, 277 }, { 127, 277 }, { 128, 277 }, { 129, 277 }, { 130, 277 },
+ { 131, 277 }, { 132, 277 }, { 133, 277 }, { 134, 277 }, { 135, 277 },
+ { 136, 277 }, { 137, 277 }, { 138, 277 }, { 139, 277 }, { 140, 277 },
+ { 141, 277 }, { 142, 277 }, { 143, 277 }, { 144, 277 }, { 145, 277 },
+ { 146, 277 }, { 147, 277 }, { 148, 277 }, { 149, 277 }, { 150, 277 },
+ { 151, 277 }, { 152, 277 }, { 153, 277 }, { 154, 277 }, { 155, 277 },
+ { 156, 277 }, { 157, 277 }, { 158, 277 }, { 159, 277 }, { 160, 277 },
+ { 161, 277 }, { 162, 277 }, { 163, 277 }, { 164, 277 }, { 165, 277 },
+ { 166, 277 }, { 167, 277 }, { 168, 277 }, { 169, 277 }, { 170, 277 },
+
+ { 171, 277 }, { 172, 277 }, { 173, 277 }, { 174, 277 }, { 175, 277 },
+ { 176, 277 }, { 177, 277 }, { 178, 277 }, { 179, 277 }, { 180, 277 },
+ { 181, 277 }, { 182, 277 }, { 183, 277 }, { 184, 277 }, { 185, 277 },
+ { 186, 277 }, { 187, 277 }, { 188, 277 }, { 189, 277 }, { 190, 277 },
+ { 191, 277 }, { 192, 277 }, { 193, 277 }, { 194, 277 }, { 195, 277 },
+ { 196, 277 }, { 197, 277 }, { 198, 277 }, { 199, 277 }, { 200, 277 },
+ { 201, 277 }, { 202, 277 }, { 203, 277 }, { 204, 277 }, { 205, 277 },
+ { 206, 277 }, { 207, 277 }, { 208, 277 }, { 209, 277 }, { 210, 277 },
+ { 211, 277 }, { 212, 277 }, { 213, 277 }, { 214, 277 }, { 215, 277 },
+ { 216, 277 }, { 217, 277 }, { 218, 277 }, { 219, 277 }, { 220, 277 },
+
+ { 221, 277 }, { 222, 277 }, { 223, 277 }, { 224, 277 }, { 225, 277 },
+ { 226, 277 }, { 227, 277 }, { 228, 277 }, { 229, 277 }, { 230, 277 },
+ { 231, 277 }, { 232, 277 }, { 233, 277 }, { 234, 277 }, { 235, 277 },
+ { 236, 277 }, { 237, 277 }, { 238, 277 }, { 239, 277 }, { 240, 277 },
+ { 241, 277 }, { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 },
+ { 246, 277 }, { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 },
+ { 251, 277 }, { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 },
+ { 256, 277 }, {   0,   1 }, {   0,3338 }, {   0,   1 }, {   0,3336 },
+ {   0,  47 }, {   0,3334 }, {   0,  44 }, {   0,3332 }, {   0,  29 },
+ {   0,3330 }, {   0,  23 }, {   0,3328 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3321 },
+ {   0,   8 }, {   0,3319 }, {   0,   1 }, {   0,3317 }, {   0,  45 },
+ {   0,3315 }, {   0,   0 }, {   0,3313 }, {   0,   0 }, {   0,3311 },
+ {   1,-11596 }, {   2,-11596 }, {   3,-11596 }, {   4,-11596 }, {   5,-11596 },
+ {   6,-11596 }, {   7,-11596 }, {   8,-11596 }, {   9,  -4 }, {  10,  -4 },
+ {  11,-11596 }, {  12,-11596 }, {  13,  -4 }, {  14,-11596 }, {  15,-11596 },
+ {  16,-11596 }, {  17,-11596 }, {  18,-11596 }, {  19,-11596 }, {  20,-11596 },
+ {  21,-11596 }, {  22,-11596 }, {  23,-11596 }, {  24,-11596 }, {  25,-11596 },
+ {  26,-11596 }, {  27,-11596 }, {  28,-11596 }, {  29,-11596 }, {  30,-11596 },
+ {  31,-11596 }, {  32,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  36,-11596 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11596 },
+ {  46,-11621 }, {  47,-11621 }, {  48,-11596 }, {  49,-11596 }, {  50,-11596 },
+ {  51,-11596 }, {  52,-11596 }, {  53,-11596 }, {  54,-11596 }, {  55,-11596 },
+ {  56,-11596 }, {  57,-11596 }, {  58,-11596 }, {   0,   0 }, {   0,   0 },
+ {  61,-11621 }, {   0,   0 }, {  63,-11596 }, {   0,   0 }, {  65,-11596 },
+ {  66,-11596 }, {  67,-11596 }, {  68,-11596 }, {  69,-11596 }, {  70,-11596 },
+ {  71,-11596 }, {  72,-11596 }, {  73,-11596 }, {  74,-11596 }, {  75,-11596 },
+ {  76,-11596 }, {  77,-11596 }, {  78,-11596 }, {  79,-11596 }, {  80,-11596 },
+ {  81,-11596 }, {  82,-11596 }, {  83,-11596 }, {  84,-11596 }, {  85,-11596 },
+
+ {  86,-11596 }, {  87,-11596 }, {  88,-11596 }, {  89,-11596 }, {  90,-11596 },
+ { 101,1558 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11596 },
+ { 123,  21 }, {  97,-11596 }, {  98,-11596 }, {  99,-11596 }, { 100,-11596 },
+ { 101,-11596 }, { 102,-11596 }, { 103,-11596 }, { 104,-11596 }, { 105,-11596 },
+ { 106,-11596 }, { 107,-11596 }, { 108,-11596 }, { 109,-11596 }, { 110,-11596 },
+ { 111,-11596 }, { 112,-11596 }, { 113,-11596 }, { 114,-11596 }, { 115,-11596 },
+ { 116,-11596 }, { 117,-11596 }, { 118,-11596 }, { 119,-11596 }, { 120,-11596 },
+ { 121,-11596 }, { 122,-11596 }, { 125,2716 }, { 124,-11621 }, { 125,  -4 },
+ { 126,  -4 }, { 127,-11596 }, { 128,-11596 }, { 129,-11596 }, { 130,-11596 },
+ { 131,-11596 }, { 132,-11596 }, { 133,-11596 }, { 134,-11596 }, { 135,-11596 },
+
+ { 136,-11596 }, { 137,-11596 }, { 138,-11596 }, { 139,-11596 }, { 140,-11596 },
+ { 141,-11596 }, { 142,-11596 }, { 143,-11596 }, { 144,-11596 }, { 145,-11596 },
+ { 146,-11596 }, { 147,-11596 }, { 148,-11596 }, { 149,-11596 }, { 150,-11596 },
+ { 151,-11596 }, { 152,-11596 }, { 153,-11596 }, { 154,-11596 }, { 155,-11596 },
+ { 156,-11596 }, { 157,-11596 }, { 158,-11596 }, { 159,-11596 }, { 160,-11596 },
+ { 161,-11596 }, { 162,-11596 }, { 163,-11596 }, { 164,-11596 }, { 165,-11596 },
+ { 166,-11596 }, { 167,-11596 }, { 168,-11596 }, { 169,-11596 }, { 170,-11596 },
+ { 171,-11596 }, { 172,-11596 }, { 173,-11596 }, { 174,-11596 }, { 175,-11596 },
+ { 176,-11596 }, { 177,-11596 }, { 178,-11596 }, { 179,-11596 }, { 180,-11596 },
+ { 181,-11596 }, { 182,-11596 }, { 183,-11596 }, { 184,-11596 }, { 185,-11596 },
+
+ { 186,-11596 }, { 187,-11596 }, { 188,-11596 }, { 189,-11596 }, { 190,-11596 },
+ { 191,-11596 }, { 192,-11596 }, { 193,-11596 }, { 194,-11596 }, { 195,-11596 },
+ { 196,-11596 }, { 197,-11596 }, { 198,-11596 }, { 199,-11596 }, { 200,-11596 },
+ { 201,-11596 }, { 202,-11596 }, { 203,-11596 }, { 204,-11596 }, { 205,-11596 },
+ { 206,-11596 }, { 207,-11596 }, { 208,-11596 }, { 209,-11596 }, { 210,-11596 },
+ { 211,-11596 }, { 212,-11596 }, { 213,-11596 }, { 214,-11596 }, { 215,-11596 },
+ { 216,-11596 }, { 217,-11596 }, { 218,-11596 }, { 219,-11596 }, { 220,-11596 },
+ { 221,-11596 }, { 222,-11596 }, { 223,-11596 }, { 224,-11596 }, { 225,-11596 },
+ { 226,-11596 }, { 227,-11596 }, { 228,-11596 }, { 229,-11596 }, { 230,-11596 },
+ { 231,-11596 }, { 232,-11596 }, { 233,-11596 }, { 234,-11596 }, { 235,-11596 },
+
+ { 236,-11596 }, { 237,-11596 }, { 238,-11596 }, { 239,-11596 }, { 240,-11596 },
+ { 241,-11596 }, { 242,-11596 }, { 243,-11596 }, { 244,-11596 }, { 245,-11596 },
+ { 246,-11596 }, { 247,-11596 }, { 248,-11596 }, { 249,-11596 }, { 250,-11596 },
+ { 251,-11596 }, { 252,-11596 }, { 253,-11596 }, { 254,-11596 }, { 255,-11596 },
+ { 256,-11596 }, {   0,   0 }, {   0,3053 }, {   1,-11854 }, {   2,-11854 },
+ {   3,-11854 }, {   4,-11854 }, {   5,-11854 }, {   6,-11854 }, {   7,-11854 },
+ {   8,-11854 }, {   9,-11879 }, {  10,-11879 }, {  11,-11854 }, {  12,-11854 },
+ {  13,-11879 }, {  14,-11854 }, {  15,-11854 }, {  16,-11854 }, {  17,-11854 },
+ {  18,-11854 }, {  19,-11854 }, {  20,-11854 }, {  21,-11854 }, {  22,-11854 },
+ {  23,-11854 }, {  24,-11854 }, {  25,-11854 }, {  26,-11854 }, {  27,-11854 },
+
+ {  28,-11854 }, {  29,-11854 }, {  30,-11854 }, {  31,-11854 }, {  32,-11879 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11854 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11879 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-11854 }, {  46,-11879 }, {  47,-11879 },
+ {  48,-11854 }, {  49,-11854 }, {  50,-11854 }, {  51,-11854 }, {  52,-11854 },
+ {  53,-11854 }, {  54,-11854 }, {  55,-11854 }, {  56,-11854 }, {  57,-11854 },
+ {  58,-11854 }, {   0,   0 }, {   0,   0 }, {  61,-11879 }, {   0,   0 },
+ {  63,-11854 }, {   0,   0 }, {  65,-11854 }, {  66,-11854 }, {  67,-11854 },
+ {  68,-11854 }, {  69,-11854 }, {  70,-11854 }, {  71,-11854 }, {  72,-11854 },
+ {  73,-11854 }, {  74,-11854 }, {  75,-11854 }, {  76,-11854 }, {  77,-11854 },
+
+ {  78,-11854 }, {  79,-11854 }, {  80,-11854 }, {  81,-11854 }, {  82,-11854 },
+ {  83,-11854 }, {  84,-11854 }, {  85,-11854 }, {  86,-11854 }, {  87,-11854 },
+ {  88,-11854 }, {  89,-11854 }, {  90,-11854 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-11854 }, {   0,   0 }, {  97,-11854 },
+ {  98,-11854 }, {  99,-11854 }, { 100,-11854 }, { 101,-11854 }, { 102,-11854 },
+ { 103,-11854 }, { 104,-11854 }, { 105,1032 }, { 106,-11854 }, { 107,-11854 },
+ { 108,-11854 }, { 109,-11854 }, { 110,-11854 }, { 111,-11854 }, { 112,-11854 },
+ { 113,-11854 }, { 114,-11854 }, { 115,-11854 }, { 116,-11854 }, { 117,-11854 },
+ { 118,-11854 }, { 119,-11854 }, { 120,-11854 }, { 121,-11854 }, { 122,-11854 },
+ {   0,   0 }, { 124,-11879 }, { 125,-11879 }, { 126,-11879 }, { 127,-11854 },
+
+ { 128,-11854 }, { 129,-11854 }, { 130,-11854 }, { 131,-11854 }, { 132,-11854 },
+ { 133,-11854 }, { 134,-11854 }, { 135,-11854 }, { 136,-11854 }, { 137,-11854 },
+ { 138,-11854 }, { 139,-11854 }, { 140,-11854 }, { 141,-11854 }, { 142,-11854 },
+ { 143,-11854 }, { 144,-11854 }, { 145,-11854 }, { 146,-11854 }, { 147,-11854 },
+ { 148,-11854 }, { 149,-11854 }, { 150,-11854 }, { 151,-11854 }, { 152,-11854 },
+ { 153,-11854 }, { 154,-11854 }, { 155,-11854 }, { 156,-11854 }, { 157,-11854 },
+ { 158,-11854 }, { 159,-11854 }, { 160,-11854 }, { 161,-11854 }, { 162,-11854 },
+ { 163,-11854 }, { 164,-11854 }, { 165,-11854 }, { 166,-11854 }, { 167,-11854 },
+ { 168,-11854 }, { 169,-11854 }, { 170,-11854 }, { 171,-11854 }, { 172,-11854 },
+ { 173,-11854 }, { 174,-11854 }, { 175,-11854 }, { 176,-11854 }, { 177,-11854 },
+
+ { 178,-11854 }, { 179,-11854 }, { 180,-11854 }, { 181,-11854 }, { 182,-11854 },
+ { 183,-11854 }, { 184,-11854 }, { 185,-11854 }, { 186,-11854 }, { 187,-11854 },
+ { 188,-11854 }, { 189,-11854 }, { 190,-11854 }, { 191,-11854 }, { 192,-11854 },
+ { 193,-11854 }, { 194,-11854 }, { 195,-11854 }, { 196,-11854 }, { 197,-11854 },
+ { 198,-11854 }, { 199,-11854 }, { 200,-11854 }, { 201,-11854 }, { 202,-11854 },
+ { 203,-11854 }, { 204,-11854 }, { 205,-11854 }, { 206,-11854 }, { 207,-11854 },
+ { 208,-11854 }, { 209,-11854 }, { 210,-11854 }, { 211,-11854 }, { 212,-11854 },
+ { 213,-11854 }, { 214,-11854 }, { 215,-11854 }, { 216,-11854 }, { 217,-11854 },
+ { 218,-11854 }, { 219,-11854 }, { 220,-11854 }, { 221,-11854 }, { 222,-11854 },
+ { 223,-11854 }, { 224,-11854 }, { 225,-11854 }, { 226,-11854 }, { 227,-11854 },
+
+ { 228,-11854 }, { 229,-11854 }, { 230,-11854 }, { 231,-11854 }, { 232,-11854 },
+ { 233,-11854 }, { 234,-11854 }, { 235,-11854 }, { 236,-11854 }, { 237,-11854 },
+ { 238,-11854 }, { 239,-11854 }, { 240,-11854 }, { 241,-11854 }, { 242,-11854 },
+ { 243,-11854 }, { 244,-11854 }, { 245,-11854 }, { 246,-11854 }, { 247,-11854 },
+ { 248,-11854 }, { 249,-11854 }, { 250,-11854 }, { 251,-11854 }, { 252,-11854 },
+ { 253,-11854 }, { 254,-11854 }, { 255,-11854 }, { 256,-11854 }, {   0,   0 },
+ {   0,2795 }, {   1,1160 }, {   2,1160 }, {   3,1160 }, {   4,1160 },
+ {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 }, {   9,1160 },
+ {  10,1160 }, {  11,1160 }, {  12,1160 }, {  13,1160 }, {  14,1160 },
+ {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 }, {  19,1160 },
+
+ {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 }, {  24,1160 },
+ {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 }, {  29,1160 },
+ {  30,1160 }, {  31,1160 }, {  32,1160 }, {  33,1160 }, {  34,1160 },
+ {  35,1160 }, {  36,1160 }, {  37,1160 }, {  38,1160 }, {  39,1160 },
+ {  40,1160 }, {  41,1160 }, {  42,1160 }, {  43,1160 }, {  44,1160 },
+ {  45,1418 }, {  46,1160 }, {  47,1160 }, {  48,1160 }, {  49,1160 },
+ {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 }, {  54,1160 },
+ {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 }, {  59,1160 },
+ {  60,1160 }, {  61,1160 }, {  62,1160 }, {  63,1160 }, {  64,1160 },
+ {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 }, {  69,1160 },
+
+ {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 }, {  74,1160 },
+ {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 }, {  79,1160 },
+ {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 }, {  84,1160 },
+ {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 }, {  89,1160 },
+ {  90,1160 }, {  91,1160 }, {  92,1160 }, {  93,1160 }, {  94,1160 },
+ {  95,1160 }, {  96,1160 }, {  97,1160 }, {  98,1160 }, {  99,1160 },
+ { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 }, { 104,1160 },
+ { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 }, { 109,1160 },
+ { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 }, { 114,1160 },
+ { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 }, { 119,1160 },
+
+ { 120,1160 }, { 121,1160 }, { 122,1160 }, { 123,1160 }, { 124,1160 },
+ { 125,1160 }, { 126,1160 }, { 127,1160 }, { 128,1160 }, { 129,1160 },
+ { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 }, { 134,1160 },
+ { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 }, { 139,1160 },
+ { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 }, { 144,1160 },
+ { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 }, { 149,1160 },
+ { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 }, { 154,1160 },
+ { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 }, { 159,1160 },
+ { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 }, { 164,1160 },
+ { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 }, { 169,1160 },
+
+ { 170,1160 }, { 171,1160 }, { 172,1160 }, { 173,1160 }, { 174,1160 },
+ { 175,1160 }, { 176,1160 }, { 177,1160 }, { 178,1160 }, { 179,1160 },
+ { 180,1160 }, { 181,1160 }, { 182,1160 }, { 183,1160 }, { 184,1160 },
+ { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 }, { 189,1160 },
+ { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 }, { 194,1160 },
+ { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 }, { 199,1160 },
+ { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 }, { 204,1160 },
+ { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 }, { 209,1160 },
+ { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 }, { 214,1160 },
+ { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 }, { 219,1160 },
+
+ { 220,1160 }, { 221,1160 }, { 222,1160 }, { 223,1160 }, { 224,1160 },
+ { 225,1160 }, { 226,1160 }, { 227,1160 }, { 228,1160 }, { 229,1160 },
+ { 230,1160 }, { 231,1160 }, { 232,1160 }, { 233,1160 }, { 234,1160 },
+ { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 }, { 239,1160 },
+ { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 }, { 244,1160 },
+ { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 }, { 249,1160 },
+ { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 }, { 254,1160 },
+ { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,2537 }, {   1,-4728 },
+ {   2,-4728 }, {   3,-4728 }, {   4,-4728 }, {   5,-4728 }, {   6,-4728 },
+ {   7,-4728 }, {   8,-4728 }, {   9,-4728 }, {  10,-4728 }, {  11,-4728 },
+
+ {  12,-4728 }, {  13,-4728 }, {  14,-4728 }, {  15,-4728 }, {  16,-4728 },
+ {  17,-4728 }, {  18,-4728 }, {  19,-4728 }, {  20,-4728 }, {  21,-4728 },
+ {  22,-4728 }, {  23,-4728 }, {  24,-4728 }, {  25,-4728 }, {  26,-4728 },
+ {  27,-4728 }, {  28,-4728 }, {  29,-4728 }, {  30,-4728 }, {  31,-4728 },
+ {  32,-4728 }, {  33,-4728 }, {  34,-4728 }, {  35,-4728 }, {  36,-4728 },
+ {  37,-4728 }, {  38,-4728 }, {  39,-4728 }, {  40,-4728 }, {  41,-4728 },
+ {  42,-4728 }, {  43,-4728 }, {  44,-4728 }, {  45,-4470 }, {  46,-4728 },
+ {  47,-4728 }, {  48,-4728 }, {  49,-4728 }, {  50,-4728 }, {  51,-4728 },
+ {  52,-4728 }, {  53,-4728 }, {  54,-4728 }, {  55,-4728 }, {  56,-4728 },
+ {  57,-4728 }, {  58,-4728 }, {  59,-4728 }, {  60,-4728 }, {  61,-4728 },
+
+ {  62,-4728 }, {  63,-4728 }, {  64,-4728 }, {  65,-4728 }, {  66,-4728 },
+ {  67,-4728 }, {  68,-4728 }, {  69,-4728 }, {  70,-4728 }, {  71,-4728 },
+ {  72,-4728 }, {  73,-4728 }, {  74,-4728 }, {  75,-4728 }, {  76,-4728 },
+ {  77,-4728 }, {  78,-4728 }, {  79,-4728 }, {  80,-4728 }, {  81,-4728 },
+ {  82,-4728 }, {  83,-4728 }, {  84,-4728 }, {  85,-4728 }, {  86,-4728 },
+ {  87,-4728 }, {  88,-4728 }, {  89,-4728 }, {  90,-4728 }, {  91,-4728 },
+ {  92,-4728 }, {  93,-4728 }, {  94,-4728 }, {  95,-4728 }, {  96,-4728 },
+ {  97,-4728 }, {  98,-4728 }, {  99,-4728 }, { 100,-4728 }, { 101,-4728 },
+ { 102,-4728 }, { 103,-4728 }, { 104,-4728 }, { 105,-4728 }, { 106,-4728 },
+ { 107,-4728 }, { 108,-4728 }, { 109,-4728 }, { 110,-4728 }, { 111,-4728 },
+
+ { 112,-4728 }, { 113,-4728 }, { 114,-4728 }, { 115,-4728 }, { 116,-4728 },
+ { 117,-4728 }, { 118,-4728 }, { 119,-4728 }, { 120,-4728 }, { 121,-4728 },
+ { 122,-4728 }, { 123,-4728 }, { 124,-4728 }, { 125,-4212 }, { 126,-3954 },
+ { 127,-4728 }, { 128,-4728 }, { 129,-4728 }, { 130,-4728 }, { 131,-4728 },
+ { 132,-4728 }, { 133,-4728 }, { 134,-4728 }, { 135,-4728 }, { 136,-4728 },
+ { 137,-4728 }, { 138,-4728 }, { 139,-4728 }, { 140,-4728 }, { 141,-4728 },
+ { 142,-4728 }, { 143,-4728 }, { 144,-4728 }, { 145,-4728 }, { 146,-4728 },
+ { 147,-4728 }, { 148,-4728 }, { 149,-4728 }, { 150,-4728 }, { 151,-4728 },
+ { 152,-4728 }, { 153,-4728 }, { 154,-4728 }, { 155,-4728 }, { 156,-4728 },
+ { 157,-4728 }, { 158,-4728 }, { 159,-4728 }, { 160,-4728 }, { 161,-4728 },
+
+ { 162,-4728 }, { 163,-4728 }, { 164,-4728 }, { 165,-4728 }, { 166,-4728 },
+ { 167,-4728 }, { 168,-4728 }, { 169,-4728 }, { 170,-4728 }, { 171,-4728 },
+ { 172,-4728 }, { 173,-4728 }, { 174,-4728 }, { 175,-4728 }, { 176,-4728 },
+ { 177,-4728 }, { 178,-4728 }, { 179,-4728 }, { 180,-4728 }, { 181,-4728 },
+ { 182,-4728 }, { 183,-4728 }, { 184,-4728 }, { 185,-4728 }, { 186,-4728 },
+ { 187,-4728 }, { 188,-4728 }, { 189,-4728 }, { 190,-4728 }, { 191,-4728 },
+ { 192,-4728 }, { 193,-4728 }, { 194,-4728 }, { 195,-4728 }, { 196,-4728 },
+ { 197,-4728 }, { 198,-4728 }, { 199,-4728 }, { 200,-4728 }, { 201,-4728 },
+ { 202,-4728 }, { 203,-4728 }, { 204,-4728 }, { 205,-4728 }, { 206,-4728 },
+ { 207,-4728 }, { 208,-4728 }, { 209,-4728 }, { 210,-4728 }, { 211,-4728 },
+
+ { 212,-4728 }, { 213,-4728 }, { 214,-4728 }, { 215,-4728 }, { 216,-4728 },
+ { 217,-4728 }, { 218,-4728 }, { 219,-4728 }, { 220,-4728 }, { 221,-4728 },
+ { 222,-4728 }, { 223,-4728 }, { 224,-4728 }, { 225,-4728 }, { 226,-4728 },
+ { 227,-4728 }, { 228,-4728 }, { 229,-4728 }, { 230,-4728 }, { 231,-4728 },
+ { 232,-4728 }, { 233,-4728 }, { 234,-4728 }, { 235,-4728 }, { 236,-4728 },
+ { 237,-4728 }, { 238,-4728 }, { 239,-4728 }, { 240,-4728 }, { 241,-4728 },
+ { 242,-4728 }, { 243,-4728 }, { 244,-4728 }, { 245,-4728 }, { 246,-4728 },
+ { 247,-4728 }, { 248,-4728 }, { 249,-4728 }, { 250,-4728 }, { 251,-4728 },
+ { 252,-4728 }, { 253,-4728 }, { 254,-4728 }, { 255,-4728 }, { 256,-4728 },
+ {   0,   0 }, {   0,2279 }, {   1,1160 }, {   2,1160 }, {   3,1160 },
 
- {   0,   0 }, {   0,2852 }, {   1,1160 }, {   2,1160 }, {   3,1160 },
  {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 },
- {   9,1160 }, {  10,1160 }, {  11,1160 }, {  12,1160 }, {  13,1160 },
+ {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 }, {   0,   0 },
  {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 },
  {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 },
  {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 },
- {  29,1160 }, {  30,1160 }, {  31,1160 }, {  32,1160 }, {  33,1160 },
- {  34,1160 }, {  35,1160 }, {  36,1160 }, {  37,1160 }, {  38,1160 },
- {  39,1160 }, {  40,1160 }, {  41,1160 }, {  42,1160 }, {  43,1160 },
- {  44,1160 }, {  45,1418 }, {  46,1160 }, {  47,1160 }, {  48,1160 },
-
+ {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 }, {  48,1160 },
  {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 },
+
  {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 },
- {  59,1160 }, {  60,1160 }, {  61,1160 }, {  62,1160 }, {  63,1160 },
- {  64,1160 }, {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1160 },
+ {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 },
  {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 },
  {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 },
  {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 },
  {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 },
- {  89,1160 }, {  90,1160 }, {  91,1160 }, {  92,1160 }, {  93,1160 },
- {  94,1160 }, {  95,1160 }, {  96,1160 }, {  97,1160 }, {  98,1160 },
-
+ {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 }, {  98,1160 },
  {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 },
+
  { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 },
  { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 },
  { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 },
- { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 }, { 123,1160 },
- { 124,1160 }, { 125,1160 }, { 126,1160 }, { 127,1160 }, { 128,1160 },
+ { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 }, { 128,1160 },
  { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 },
  { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 },
  { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 },
  { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 },
-
  { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 },
+
  { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 },
  { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 },
  { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 },
@@ -5154,8 +5263,8 @@ static const struct yy_trans_info yy_transition[23608] =
  { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 },
  { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 },
  { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 },
-
  { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 },
+
  { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 },
  { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 },
  { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 },
@@ -5165,239 +5274,239 @@ static const struct yy_trans_info yy_transition[23608] =
  { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 },
  { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 },
  { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 },
-
  { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 },
- { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,2594 },
- {   1,-4798 }, {   2,-4798 }, {   3,-4798 }, {   4,-4798 }, {   5,-4798 },
- {   6,-4798 }, {   7,-4798 }, {   8,-4798 }, {   9,-4798 }, {  10,-4798 },
- {  11,-4798 }, {  12,-4798 }, {  13,-4798 }, {  14,-4798 }, {  15,-4798 },
- {  16,-4798 }, {  17,-4798 }, {  18,-4798 }, {  19,-4798 }, {  20,-4798 },
- {  21,-4798 }, {  22,-4798 }, {  23,-4798 }, {  24,-4798 }, {  25,-4798 },
- {  26,-4798 }, {  27,-4798 }, {  28,-4798 }, {  29,-4798 }, {  30,-4798 },
- {  31,-4798 }, {  32,-4798 }, {  33,-4798 }, {  34,-4798 }, {  35,-4798 },
- {  36,-4798 }, {  37,-4798 }, {  38,-4798 }, {  39,-4798 }, {  40,-4798 },
-
- {  41,-4798 }, {  42,-4798 }, {  43,-4798 }, {  44,-4798 }, {  45,-4540 },
- {  46,-4798 }, {  47,-4798 }, {  48,-4798 }, {  49,-4798 }, {  50,-4798 },
- {  51,-4798 }, {  52,-4798 }, {  53,-4798 }, {  54,-4798 }, {  55,-4798 },
- {  56,-4798 }, {  57,-4798 }, {  58,-4798 }, {  59,-4798 }, {  60,-4798 },
- {  61,-4798 }, {  62,-4798 }, {  63,-4798 }, {  64,-4798 }, {  65,-4798 },
- {  66,-4798 }, {  67,-4798 }, {  68,-4798 }, {  69,-4798 }, {  70,-4798 },
- {  71,-4798 }, {  72,-4798 }, {  73,-4798 }, {  74,-4798 }, {  75,-4798 },
- {  76,-4798 }, {  77,-4798 }, {  78,-4798 }, {  79,-4798 }, {  80,-4798 },
- {  81,-4798 }, {  82,-4798 }, {  83,-4798 }, {  84,-4798 }, {  85,-4798 },
- {  86,-4798 }, {  87,-4798 }, {  88,-4798 }, {  89,-4798 }, {  90,-4798 },
-
- {  91,-4798 }, {  92,-4798 }, {  93,-4798 }, {  94,-4798 }, {  95,-4798 },
- {  96,-4798 }, {  97,-4798 }, {  98,-4798 }, {  99,-4798 }, { 100,-4798 },
- { 101,-4798 }, { 102,-4798 }, { 103,-4798 }, { 104,-4798 }, { 105,-4798 },
- { 106,-4798 }, { 107,-4798 }, { 108,-4798 }, { 109,-4798 }, { 110,-4798 },
- { 111,-4798 }, { 112,-4798 }, { 113,-4798 }, { 114,-4798 }, { 115,-4798 },
- { 116,-4798 }, { 117,-4798 }, { 118,-4798 }, { 119,-4798 }, { 120,-4798 },
- { 121,-4798 }, { 122,-4798 }, { 123,-4798 }, { 124,-4798 }, { 125,-4282 },
- { 126,-4024 }, { 127,-4798 }, { 128,-4798 }, { 129,-4798 }, { 130,-4798 },
- { 131,-4798 }, { 132,-4798 }, { 133,-4798 }, { 134,-4798 }, { 135,-4798 },
- { 136,-4798 }, { 137,-4798 }, { 138,-4798 }, { 139,-4798 }, { 140,-4798 },
-
- { 141,-4798 }, { 142,-4798 }, { 143,-4798 }, { 144,-4798 }, { 145,-4798 },
- { 146,-4798 }, { 147,-4798 }, { 148,-4798 }, { 149,-4798 }, { 150,-4798 },
- { 151,-4798 }, { 152,-4798 }, { 153,-4798 }, { 154,-4798 }, { 155,-4798 },
- { 156,-4798 }, { 157,-4798 }, { 158,-4798 }, { 159,-4798 }, { 160,-4798 },
- { 161,-4798 }, { 162,-4798 }, { 163,-4798 }, { 164,-4798 }, { 165,-4798 },
- { 166,-4798 }, { 167,-4798 }, { 168,-4798 }, { 169,-4798 }, { 170,-4798 },
- { 171,-4798 }, { 172,-4798 }, { 173,-4798 }, { 174,-4798 }, { 175,-4798 },
- { 176,-4798 }, { 177,-4798 }, { 178,-4798 }, { 179,-4798 }, { 180,-4798 },
- { 181,-4798 }, { 182,-4798 }, { 183,-4798 }, { 184,-4798 }, { 185,-4798 },
- { 186,-4798 }, { 187,-4798 }, { 188,-4798 }, { 189,-4798 }, { 190,-4798 },
-
- { 191,-4798 }, { 192,-4798 }, { 193,-4798 }, { 194,-4798 }, { 195,-4798 },
- { 196,-4798 }, { 197,-4798 }, { 198,-4798 }, { 199,-4798 }, { 200,-4798 },
- { 201,-4798 }, { 202,-4798 }, { 203,-4798 }, { 204,-4798 }, { 205,-4798 },
- { 206,-4798 }, { 207,-4798 }, { 208,-4798 }, { 209,-4798 }, { 210,-4798 },
- { 211,-4798 }, { 212,-4798 }, { 213,-4798 }, { 214,-4798 }, { 215,-4798 },
- { 216,-4798 }, { 217,-4798 }, { 218,-4798 }, { 219,-4798 }, { 220,-4798 },
- { 221,-4798 }, { 222,-4798 }, { 223,-4798 }, { 224,-4798 }, { 225,-4798 },
- { 226,-4798 }, { 227,-4798 }, { 228,-4798 }, { 229,-4798 }, { 230,-4798 },
- { 231,-4798 }, { 232,-4798 }, { 233,-4798 }, { 234,-4798 }, { 235,-4798 },
- { 236,-4798 }, { 237,-4798 }, { 238,-4798 }, { 239,-4798 }, { 240,-4798 },
-
- { 241,-4798 }, { 242,-4798 }, { 243,-4798 }, { 244,-4798 }, { 245,-4798 },
- { 246,-4798 }, { 247,-4798 }, { 248,-4798 }, { 249,-4798 }, { 250,-4798 },
- { 251,-4798 }, { 252,-4798 }, { 253,-4798 }, { 254,-4798 }, { 255,-4798 },
- { 256,-4798 }, {   0,   0 }, {   0,2336 }, {   1,1160 }, {   2,1160 },
- {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 },
- {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 },
- {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 },
- {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 },
- {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 },
- {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 },
- {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 },
- {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 },
- {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 },
- {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 },
- {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 },
- {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 },
-
- {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 },
- {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 },
- {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 },
- { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 },
- { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 },
- { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 },
- { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 },
- { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 },
-
- { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 },
- { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 },
- { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 },
- { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 },
- { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 },
- { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 },
- { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 },
- { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 },
- { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 },
- { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 },
-
- { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 },
- { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 },
- { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 },
- { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 },
- { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 },
- { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 },
- { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 },
- { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 },
- { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 },
- { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 },
-
- { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 },
- { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 },
- { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 },
- { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 },
- { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 },
- {   0,2078 }, {   1,-12907 }, {   2,-12907 }, {   3,-12907 }, {   4,-12907 },
- {   5,-12907 }, {   6,-12907 }, {   7,-12907 }, {   8,-12907 }, {   9,-12932 },
- {  10,-12932 }, {  11,-12907 }, {  12,-12907 }, {  13,-12932 }, {  14,-12907 },
- {  15,-12907 }, {  16,-12907 }, {  17,-12907 }, {  18,-12907 }, {  19,-12907 },
- {  20,-12907 }, {  21,-12907 }, {  22,-12907 }, {  23,-12907 }, {  24,-12907 },
-
- {  25,-12907 }, {  26,-12907 }, {  27,-12907 }, {  28,-12907 }, {  29,-12907 },
- {  30,-12907 }, {  31,-12907 }, {  32,-12932 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-12907 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-12932 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-12907 }, {  46,-12932 }, {  47,-12932 }, {  48,-12907 }, {  49,-12907 },
- {  50,-12907 }, {  51,-12907 }, {  52,-12907 }, {  53,-12907 }, {  54,-12907 },
- {  55,-12907 }, {  56,-12907 }, {  57,-12907 }, {  58,-12907 }, {   0,   0 },
- {   0,   0 }, {  61,-12932 }, {   0,   0 }, {  63,-12907 }, {   0,   0 },
- {  65,-12907 }, {  66,-12907 }, {  67,-12907 }, {  68,-12907 }, {  69,-12907 },
- {  70,-12907 }, {  71,-12907 }, {  72,-12907 }, {  73,-12907 }, {  74,-12907 },
-
- {  75,-12907 }, {  76,-12907 }, {  77,-12907 }, {  78,-12907 }, {  79,-12907 },
- {  80,-12907 }, {  81,-12907 }, {  82,-12907 }, {  83,-12907 }, {  84,-12907 },
- {  85,-12907 }, {  86,-12907 }, {  87,-12907 }, {  88,-12907 }, {  89,-12907 },
- {  90,-12907 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-12907 }, {   0,   0 }, {  97,-12907 }, {  98,-12907 }, {  99,-12907 },
- { 100,-12907 }, { 101,-12907 }, { 102,-12907 }, { 103,-12907 }, { 104,-12907 },
- { 105,-12907 }, { 106,-12907 }, { 107,-12907 }, { 108,-12907 }, { 109,-12907 },
- { 110,1160 }, { 111,-12907 }, { 112,-12907 }, { 113,-12907 }, { 114,-12907 },
- { 115,-12907 }, { 116,-12907 }, { 117,-12907 }, { 118,-12907 }, { 119,-12907 },
- { 120,-12907 }, { 121,-12907 }, { 122,-12907 }, {   0,   0 }, { 124,-12932 },
-
- { 125,-12932 }, { 126,-12932 }, { 127,-12907 }, { 128,-12907 }, { 129,-12907 },
- { 130,-12907 }, { 131,-12907 }, { 132,-12907 }, { 133,-12907 }, { 134,-12907 },
- { 135,-12907 }, { 136,-12907 }, { 137,-12907 }, { 138,-12907 }, { 139,-12907 },
- { 140,-12907 }, { 141,-12907 }, { 142,-12907 }, { 143,-12907 }, { 144,-12907 },
- { 145,-12907 }, { 146,-12907 }, { 147,-12907 }, { 148,-12907 }, { 149,-12907 },
- { 150,-12907 }, { 151,-12907 }, { 152,-12907 }, { 153,-12907 }, { 154,-12907 },
- { 155,-12907 }, { 156,-12907 }, { 157,-12907 }, { 158,-12907 }, { 159,-12907 },
- { 160,-12907 }, { 161,-12907 }, { 162,-12907 }, { 163,-12907 }, { 164,-12907 },
- { 165,-12907 }, { 166,-12907 }, { 167,-12907 }, { 168,-12907 }, { 169,-12907 },
- { 170,-12907 }, { 171,-12907 }, { 172,-12907 }, { 173,-12907 }, { 174,-12907 },
-
- { 175,-12907 }, { 176,-12907 }, { 177,-12907 }, { 178,-12907 }, { 179,-12907 },
- { 180,-12907 }, { 181,-12907 }, { 182,-12907 }, { 183,-12907 }, { 184,-12907 },
- { 185,-12907 }, { 186,-12907 }, { 187,-12907 }, { 188,-12907 }, { 189,-12907 },
- { 190,-12907 }, { 191,-12907 }, { 192,-12907 }, { 193,-12907 }, { 194,-12907 },
- { 195,-12907 }, { 196,-12907 }, { 197,-12907 }, { 198,-12907 }, { 199,-12907 },
- { 200,-12907 }, { 201,-12907 }, { 202,-12907 }, { 203,-12907 }, { 204,-12907 },
- { 205,-12907 }, { 206,-12907 }, { 207,-12907 }, { 208,-12907 }, { 209,-12907 },
- { 210,-12907 }, { 211,-12907 }, { 212,-12907 }, { 213,-12907 }, { 214,-12907 },
- { 215,-12907 }, { 216,-12907 }, { 217,-12907 }, { 218,-12907 }, { 219,-12907 },
- { 220,-12907 }, { 221,-12907 }, { 222,-12907 }, { 223,-12907 }, { 224,-12907 },
 
- { 225,-12907 }, { 226,-12907 }, { 227,-12907 }, { 228,-12907 }, { 229,-12907 },
- { 230,-12907 }, { 231,-12907 }, { 232,-12907 }, { 233,-12907 }, { 234,-12907 },
- { 235,-12907 }, { 236,-12907 }, { 237,-12907 }, { 238,-12907 }, { 239,-12907 },
- { 240,-12907 }, { 241,-12907 }, { 242,-12907 }, { 243,-12907 }, { 244,-12907 },
- { 245,-12907 }, { 246,-12907 }, { 247,-12907 }, { 248,-12907 }, { 249,-12907 },
- { 250,-12907 }, { 251,-12907 }, { 252,-12907 }, { 253,-12907 }, { 254,-12907 },
- { 255,-12907 }, { 256,-12907 }, {   0,  26 }, {   0,1820 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   9,1162 }, {  10,1162 }, {   0,   0 },
- {   0,   0 }, {  13,1162 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,2021 },
+ {   1,-12886 }, {   2,-12886 }, {   3,-12886 }, {   4,-12886 }, {   5,-12886 },
+ {   6,-12886 }, {   7,-12886 }, {   8,-12886 }, {   9,-12911 }, {  10,-12911 },
+ {  11,-12886 }, {  12,-12886 }, {  13,-12911 }, {  14,-12886 }, {  15,-12886 },
+ {  16,-12886 }, {  17,-12886 }, {  18,-12886 }, {  19,-12886 }, {  20,-12886 },
+ {  21,-12886 }, {  22,-12886 }, {  23,-12886 }, {  24,-12886 }, {  25,-12886 },
+ {  26,-12886 }, {  27,-12886 }, {  28,-12886 }, {  29,-12886 }, {  30,-12886 },
+ {  31,-12886 }, {  32,-12911 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-12886 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-12911 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12886 },
+
+ {  46,-12911 }, {  47,-12911 }, {  48,-12886 }, {  49,-12886 }, {  50,-12886 },
+ {  51,-12886 }, {  52,-12886 }, {  53,-12886 }, {  54,-12886 }, {  55,-12886 },
+ {  56,-12886 }, {  57,-12886 }, {  58,-12886 }, {   0,   0 }, {   0,   0 },
+ {  61,-12911 }, {   0,   0 }, {  63,-12886 }, {   0,   0 }, {  65,-12886 },
+ {  66,-12886 }, {  67,-12886 }, {  68,-12886 }, {  69,-12886 }, {  70,-12886 },
+ {  71,-12886 }, {  72,-12886 }, {  73,-12886 }, {  74,-12886 }, {  75,-12886 },
+ {  76,-12886 }, {  77,-12886 }, {  78,-12886 }, {  79,-12886 }, {  80,-12886 },
+ {  81,-12886 }, {  82,-12886 }, {  83,-12886 }, {  84,-12886 }, {  85,-12886 },
+ {  86,-12886 }, {  87,-12886 }, {  88,-12886 }, {  89,-12886 }, {  90,-12886 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12886 },
 
+ {   0,   0 }, {  97,-12886 }, {  98,-12886 }, {  99,-12886 }, { 100,-12886 },
+ { 101,-12886 }, { 102,-12886 }, { 103,-12886 }, { 104,-12886 }, { 105,-12886 },
+ { 106,-12886 }, { 107,-12886 }, { 108,-12886 }, { 109,-12886 }, { 110,1160 },
+ { 111,-12886 }, { 112,-12886 }, { 113,-12886 }, { 114,-12886 }, { 115,-12886 },
+ { 116,-12886 }, { 117,-12886 }, { 118,-12886 }, { 119,-12886 }, { 120,-12886 },
+ { 121,-12886 }, { 122,-12886 }, {   0,   0 }, { 124,-12911 }, { 125,-12911 },
+ { 126,-12911 }, { 127,-12886 }, { 128,-12886 }, { 129,-12886 }, { 130,-12886 },
+ { 131,-12886 }, { 132,-12886 }, { 133,-12886 }, { 134,-12886 }, { 135,-12886 },
+ { 136,-12886 }, { 137,-12886 }, { 138,-12886 }, { 139,-12886 }, { 140,-12886 },
+ { 141,-12886 }, { 142,-12886 }, { 143,-12886 }, { 144,-12886 }, { 145,-12886 },
+
+ { 146,-12886 }, { 147,-12886 }, { 148,-12886 }, { 149,-12886 }, { 150,-12886 },
+ { 151,-12886 }, { 152,-12886 }, { 153,-12886 }, { 154,-12886 }, { 155,-12886 },
+ { 156,-12886 }, { 157,-12886 }, { 158,-12886 }, { 159,-12886 }, { 160,-12886 },
+ { 161,-12886 }, { 162,-12886 }, { 163,-12886 }, { 164,-12886 }, { 165,-12886 },
+ { 166,-12886 }, { 167,-12886 }, { 168,-12886 }, { 169,-12886 }, { 170,-12886 },
+ { 171,-12886 }, { 172,-12886 }, { 173,-12886 }, { 174,-12886 }, { 175,-12886 },
+ { 176,-12886 }, { 177,-12886 }, { 178,-12886 }, { 179,-12886 }, { 180,-12886 },
+ { 181,-12886 }, { 182,-12886 }, { 183,-12886 }, { 184,-12886 }, { 185,-12886 },
+ { 186,-12886 }, { 187,-12886 }, { 188,-12886 }, { 189,-12886 }, { 190,-12886 },
+ { 191,-12886 }, { 192,-12886 }, { 193,-12886 }, { 194,-12886 }, { 195,-12886 },
+
+ { 196,-12886 }, { 197,-12886 }, { 198,-12886 }, { 199,-12886 }, { 200,-12886 },
+ { 201,-12886 }, { 202,-12886 }, { 203,-12886 }, { 204,-12886 }, { 205,-12886 },
+ { 206,-12886 }, { 207,-12886 }, { 208,-12886 }, { 209,-12886 }, { 210,-12886 },
+ { 211,-12886 }, { 212,-12886 }, { 213,-12886 }, { 214,-12886 }, { 215,-12886 },
+ { 216,-12886 }, { 217,-12886 }, { 218,-12886 }, { 219,-12886 }, { 220,-12886 },
+ { 221,-12886 }, { 222,-12886 }, { 223,-12886 }, { 224,-12886 }, { 225,-12886 },
+ { 226,-12886 }, { 227,-12886 }, { 228,-12886 }, { 229,-12886 }, { 230,-12886 },
+ { 231,-12886 }, { 232,-12886 }, { 233,-12886 }, { 234,-12886 }, { 235,-12886 },
+ { 236,-12886 }, { 237,-12886 }, { 238,-12886 }, { 239,-12886 }, { 240,-12886 },
+ { 241,-12886 }, { 242,-12886 }, { 243,-12886 }, { 244,-12886 }, { 245,-12886 },
+
+ { 246,-12886 }, { 247,-12886 }, { 248,-12886 }, { 249,-12886 }, { 250,-12886 },
+ { 251,-12886 }, { 252,-12886 }, { 253,-12886 }, { 254,-12886 }, { 255,-12886 },
+ { 256,-12886 }, {   0,  26 }, {   0,1763 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   9,1160 }, {  10,1160 }, {   0,   0 }, {   0,   0 },
+ {  13,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1160 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  32,1162 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1164 }, { 126,1166 },
- {   0,   0 }, {   0,1692 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,   0 }, { 125,-1550 }, { 126,1162 }, {   0,   0 },
+ {   0,1635 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
+
+ {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
+ {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
+ {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
+ {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
+ {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
+ {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
+ {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
+ {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
+ {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
+ {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
+
+ {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
+ {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
+ {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
+ {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
+ {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+ {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
+ {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 }, {  94,   0 },
+ {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
+ { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
+ { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
+
+ { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+ { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
+ { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
+ { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
+ { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+ { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
+ { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
+ { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
+ { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
+ { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
+
+ { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+ { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
+ { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
+ { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
+ { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+ { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
+ { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
+ { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
+ { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
+ { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
+
+ { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+ { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
+ { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
+ { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
+ { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+ { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
+ { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
+ { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
+ { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1377 }, {   1,-258 },
+
+ {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
+ {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
+ {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
+ {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
+ {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
+ {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
+ {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 },
+ {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
+ {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-1160 }, {  46,-258 },
+ {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
+
+ {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
+ {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
+ {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
+ {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
+ {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
+ {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
+ {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
+ {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
+ {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
+ {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
+
+ { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
+ { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
+ { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
+ { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
+ { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
+ { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
+ { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
+ { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
+ { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
+ { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
+
+ { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
+ { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
+ { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
+ { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
+ { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
+ { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
+ { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
+ { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
+ { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
+ { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
+
+ { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
+ { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
+ { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
+ { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
+ { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
+ { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
+ { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
+ { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
+ { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
+ { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
+
+ { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
+ {   0,   0 }, {   0,1119 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
+ {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
- {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+ {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 },
+ {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+ {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+ {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
+ {   0,   0 }, { 125, 520 }, {   0,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
-
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
@@ -5407,8 +5516,8 @@ static const struct yy_trans_info yy_transition[23608] =
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
-
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
@@ -5418,327 +5527,201 @@ static const struct yy_trans_info yy_transition[23608] =
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
-
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1434 },
- {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
- {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
- {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
- {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
- {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
- {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
-
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
- {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-1160 },
- {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
- {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
- {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
- {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
- {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
- {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
- {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
-
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
- {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
- {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
- {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
- { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
- { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
- { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
- { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
- { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
-
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
- { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
- { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
- { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
- { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
- { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
- { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
- { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
- { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
- { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
-
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
- { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
- { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
- { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
- { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
- { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
- { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
- { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
- { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
- { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
-
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
- { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
- { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
- { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
- { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,1176 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 },
- {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
-
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
-
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
-
- {   0,   0 }, {   0,   0 }, { 125, 533 }, {   0,   0 }, { 127,   0 },
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
-
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
-
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0, 918 }, {   1,-14067 }, {   2,-14067 }, {   3,-14067 }, {   4,-14067 },
- {   5,-14067 }, {   6,-14067 }, {   7,-14067 }, {   8,-14067 }, {   9,-14092 },
- {  10,-14092 }, {  11,-14067 }, {  12,-14067 }, {  13,-14092 }, {  14,-14067 },
-
- {  15,-14067 }, {  16,-14067 }, {  17,-14067 }, {  18,-14067 }, {  19,-14067 },
- {  20,-14067 }, {  21,-14067 }, {  22,-14067 }, {  23,-14067 }, {  24,-14067 },
- {  25,-14067 }, {  26,-14067 }, {  27,-14067 }, {  28,-14067 }, {  29,-14067 },
- {  30,-14067 }, {  31,-14067 }, {  32,-14092 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-14067 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-14092 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-14067 }, {  46,-14092 }, {  47,-14092 }, {  48,-14067 }, {  49,-14067 },
- {  50,-14067 }, {  51,-14067 }, {  52,-14067 }, {  53,-14067 }, {  54,-14067 },
- {  55,-14067 }, {  56,-14067 }, {  57,-14067 }, {  58,-14067 }, {   0,   0 },
- {   0,   0 }, {  61,-14092 }, {   0,   0 }, {  63,-14067 }, {   0,   0 },
-
- {  65,-14067 }, {  66,-14067 }, {  67,-14067 }, {  68,-14067 }, {  69,-14067 },
- {  70,-14067 }, {  71,-14067 }, {  72,-14067 }, {  73,-14067 }, {  74,-14067 },
- {  75,-14067 }, {  76,-14067 }, {  77,-14067 }, {  78,-14067 }, {  79,-14067 },
- {  80,-14067 }, {  81,-14067 }, {  82,-14067 }, {  83,-14067 }, {  84,-14067 },
- {  85,-14067 }, {  86,-14067 }, {  87,-14067 }, {  88,-14067 }, {  89,-14067 },
- {  90,-14067 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-14067 }, {   0,   0 }, {  97,-14067 }, {  98,-14067 }, {  99,-14067 },
- { 100,-14067 }, { 101, 402 }, { 102,-14067 }, { 103,-14067 }, { 104,-14067 },
- { 105,-14067 }, { 106,-14067 }, { 107,-14067 }, { 108,-14067 }, { 109,-14067 },
- { 110,-14067 }, { 111,-14067 }, { 112,-14067 }, { 113,-14067 }, { 114,-14067 },
-
- { 115,-14067 }, { 116,-14067 }, { 117,-14067 }, { 118,-14067 }, { 119,-14067 },
- { 120,-14067 }, { 121,-14067 }, { 122,-14067 }, {   0,   0 }, { 124,-14092 },
- { 125,-14092 }, { 126,-14092 }, { 127,-14067 }, { 128,-14067 }, { 129,-14067 },
- { 130,-14067 }, { 131,-14067 }, { 132,-14067 }, { 133,-14067 }, { 134,-14067 },
- { 135,-14067 }, { 136,-14067 }, { 137,-14067 }, { 138,-14067 }, { 139,-14067 },
- { 140,-14067 }, { 141,-14067 }, { 142,-14067 }, { 143,-14067 }, { 144,-14067 },
- { 145,-14067 }, { 146,-14067 }, { 147,-14067 }, { 148,-14067 }, { 149,-14067 },
- { 150,-14067 }, { 151,-14067 }, { 152,-14067 }, { 153,-14067 }, { 154,-14067 },
- { 155,-14067 }, { 156,-14067 }, { 157,-14067 }, { 158,-14067 }, { 159,-14067 },
- { 160,-14067 }, { 161,-14067 }, { 162,-14067 }, { 163,-14067 }, { 164,-14067 },
-
- { 165,-14067 }, { 166,-14067 }, { 167,-14067 }, { 168,-14067 }, { 169,-14067 },
- { 170,-14067 }, { 171,-14067 }, { 172,-14067 }, { 173,-14067 }, { 174,-14067 },
- { 175,-14067 }, { 176,-14067 }, { 177,-14067 }, { 178,-14067 }, { 179,-14067 },
- { 180,-14067 }, { 181,-14067 }, { 182,-14067 }, { 183,-14067 }, { 184,-14067 },
- { 185,-14067 }, { 186,-14067 }, { 187,-14067 }, { 188,-14067 }, { 189,-14067 },
- { 190,-14067 }, { 191,-14067 }, { 192,-14067 }, { 193,-14067 }, { 194,-14067 },
- { 195,-14067 }, { 196,-14067 }, { 197,-14067 }, { 198,-14067 }, { 199,-14067 },
- { 200,-14067 }, { 201,-14067 }, { 202,-14067 }, { 203,-14067 }, { 204,-14067 },
- { 205,-14067 }, { 206,-14067 }, { 207,-14067 }, { 208,-14067 }, { 209,-14067 },
- { 210,-14067 }, { 211,-14067 }, { 212,-14067 }, { 213,-14067 }, { 214,-14067 },
-
- { 215,-14067 }, { 216,-14067 }, { 217,-14067 }, { 218,-14067 }, { 219,-14067 },
- { 220,-14067 }, { 221,-14067 }, { 222,-14067 }, { 223,-14067 }, { 224,-14067 },
- { 225,-14067 }, { 226,-14067 }, { 227,-14067 }, { 228,-14067 }, { 229,-14067 },
- { 230,-14067 }, { 231,-14067 }, { 232,-14067 }, { 233,-14067 }, { 234,-14067 },
- { 235,-14067 }, { 236,-14067 }, { 237,-14067 }, { 238,-14067 }, { 239,-14067 },
- { 240,-14067 }, { 241,-14067 }, { 242,-14067 }, { 243,-14067 }, { 244,-14067 },
- { 245,-14067 }, { 246,-14067 }, { 247,-14067 }, { 248,-14067 }, { 249,-14067 },
- { 250,-14067 }, { 251,-14067 }, { 252,-14067 }, { 253,-14067 }, { 254,-14067 },
- { 255,-14067 }, { 256,-14067 }, {   0,   0 }, {   0, 660 }, {   0,   0 },
- {   0, 658 }, {   0,   0 }, {   0, 656 }, {   0,   0 }, {   0, 654 },
-
- {   0,  26 }, {   0, 652 }, {   9,   2 }, {  10,   2 }, {   9,   0 },
- {  10,   0 }, {  13,   2 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
- {   0, 643 }, {   0,  24 }, {   0, 641 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  32,   2 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0, 608 }, {   0,   0 }, {   0, 606 }, {   0,  46 }, {   0, 604 },
-
- {   0,   9 }, {   0, 602 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 }, { 126,   6 },
- { 125,   2 }, { 126,   4 }, { 125,  15 }, {   0,   0 }, { 125,  -2 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,  35 }, {   0,   0 }, {   0, 516 }, {   1,-14469 }, {   2,-14469 },
- {   3,-14469 }, {   4,-14469 }, {   5,-14469 }, {   6,-14469 }, {   7,-14469 },
- {   8,-14469 }, {   9,-14494 }, {  10,-14494 }, {  11,-14469 }, {  12,-14469 },
-
- {  13,-14494 }, {  14,-14469 }, {  15,-14469 }, {  16,-14469 }, {  17,-14469 },
- {  18,-14469 }, {  19,-14469 }, {  20,-14469 }, {  21,-14469 }, {  22,-14469 },
- {  23,-14469 }, {  24,-14469 }, {  25,-14469 }, {  26,-14469 }, {  27,-14469 },
- {  28,-14469 }, {  29,-14469 }, {  30,-14469 }, {  31,-14469 }, {  32,-14494 },
- { 125,   2 }, {   0,   0 }, { 125,   4 }, {  36,-14469 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-14494 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-14469 }, {  46,-14494 }, {  47,-14494 },
- {  48,-14469 }, {  49,-14469 }, {  50,-14469 }, {  51,-14469 }, {  52,-14469 },
- {  53,-14469 }, {  54,-14469 }, {  55,-14469 }, {  56,-14469 }, {  57,-14469 },
- {  58,-14469 }, {   0,   0 }, {   0,   0 }, {  61,-14494 }, {   0,   0 },
-
- {  63,-14469 }, {   0,   0 }, {  65,-14469 }, {  66,-14469 }, {  67,-14469 },
- {  68,-14469 }, {  69,-14469 }, {  70,-14469 }, {  71,-14469 }, {  72,-14469 },
- {  73,-14469 }, {  74,-14469 }, {  75,-14469 }, {  76,-14469 }, {  77,-14469 },
- {  78,-14469 }, {  79,-14469 }, {  80,-14469 }, {  81,-14469 }, {  82,-14469 },
- {  83,-14469 }, {  84,-14469 }, {  85,-14469 }, {  86,-14469 }, {  87,-14469 },
- {  88,-14469 }, {  89,-14469 }, {  90,-14469 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-14469 }, {   0,   0 }, {  97,-14469 },
- {  98,-14469 }, {  99,-14469 }, { 100, 258 }, { 101,-14469 }, { 102,-14469 },
- { 103,-14469 }, { 104,-14469 }, { 105,-14469 }, { 106,-14469 }, { 107,-14469 },
- { 108,-14469 }, { 109,-14469 }, { 110,-14469 }, { 111,-14469 }, { 112,-14469 },
-
- { 113,-14469 }, { 114,-14469 }, { 115,-14469 }, { 116,-14469 }, { 117,-14469 },
- { 118,-14469 }, { 119,-14469 }, { 120,-14469 }, { 121,-14469 }, { 122,-14469 },
- {   0,   0 }, { 124,-14494 }, { 125,-14494 }, { 126,-14494 }, { 127,-14469 },
- { 128,-14469 }, { 129,-14469 }, { 130,-14469 }, { 131,-14469 }, { 132,-14469 },
- { 133,-14469 }, { 134,-14469 }, { 135,-14469 }, { 136,-14469 }, { 137,-14469 },
- { 138,-14469 }, { 139,-14469 }, { 140,-14469 }, { 141,-14469 }, { 142,-14469 },
- { 143,-14469 }, { 144,-14469 }, { 145,-14469 }, { 146,-14469 }, { 147,-14469 },
- { 148,-14469 }, { 149,-14469 }, { 150,-14469 }, { 151,-14469 }, { 152,-14469 },
- { 153,-14469 }, { 154,-14469 }, { 155,-14469 }, { 156,-14469 }, { 157,-14469 },
- { 158,-14469 }, { 159,-14469 }, { 160,-14469 }, { 161,-14469 }, { 162,-14469 },
-
- { 163,-14469 }, { 164,-14469 }, { 165,-14469 }, { 166,-14469 }, { 167,-14469 },
- { 168,-14469 }, { 169,-14469 }, { 170,-14469 }, { 171,-14469 }, { 172,-14469 },
- { 173,-14469 }, { 174,-14469 }, { 175,-14469 }, { 176,-14469 }, { 177,-14469 },
- { 178,-14469 }, { 179,-14469 }, { 180,-14469 }, { 181,-14469 }, { 182,-14469 },
- { 183,-14469 }, { 184,-14469 }, { 185,-14469 }, { 186,-14469 }, { 187,-14469 },
- { 188,-14469 }, { 189,-14469 }, { 190,-14469 }, { 191,-14469 }, { 192,-14469 },
- { 193,-14469 }, { 194,-14469 }, { 195,-14469 }, { 196,-14469 }, { 197,-14469 },
- { 198,-14469 }, { 199,-14469 }, { 200,-14469 }, { 201,-14469 }, { 202,-14469 },
- { 203,-14469 }, { 204,-14469 }, { 205,-14469 }, { 206,-14469 }, { 207,-14469 },
- { 208,-14469 }, { 209,-14469 }, { 210,-14469 }, { 211,-14469 }, { 212,-14469 },
-
- { 213,-14469 }, { 214,-14469 }, { 215,-14469 }, { 216,-14469 }, { 217,-14469 },
- { 218,-14469 }, { 219,-14469 }, { 220,-14469 }, { 221,-14469 }, { 222,-14469 },
- { 223,-14469 }, { 224,-14469 }, { 225,-14469 }, { 226,-14469 }, { 227,-14469 },
- { 228,-14469 }, { 229,-14469 }, { 230,-14469 }, { 231,-14469 }, { 232,-14469 },
- { 233,-14469 }, { 234,-14469 }, { 235,-14469 }, { 236,-14469 }, { 237,-14469 },
- { 238,-14469 }, { 239,-14469 }, { 240,-14469 }, { 241,-14469 }, { 242,-14469 },
- { 243,-14469 }, { 244,-14469 }, { 245,-14469 }, { 246,-14469 }, { 247,-14469 },
- { 248,-14469 }, { 249,-14469 }, { 250,-14469 }, { 251,-14469 }, { 252,-14469 },
- { 253,-14469 }, { 254,-14469 }, { 255,-14469 }, { 256,-14469 }, {   0,   0 },
- {   0, 258 }, {   1,-14727 }, {   2,-14727 }, {   3,-14727 }, {   4,-14727 },
-
- {   5,-14727 }, {   6,-14727 }, {   7,-14727 }, {   8,-14727 }, {   9,-346 },
- {  10,-346 }, {  11,-14727 }, {  12,-14727 }, {  13,-346 }, {  14,-14727 },
- {  15,-14727 }, {  16,-14727 }, {  17,-14727 }, {  18,-14727 }, {  19,-14727 },
- {  20,-14727 }, {  21,-14727 }, {  22,-14727 }, {  23,-14727 }, {  24,-14727 },
- {  25,-14727 }, {  26,-14727 }, {  27,-14727 }, {  28,-14727 }, {  29,-14727 },
- {  30,-14727 }, {  31,-14727 }, {  32,-346 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-14727 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-346 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-14727 }, {  46,-14752 }, {  47,-14752 }, {  48,-14727 }, {  49,-14727 },
- {  50,-14727 }, {  51,-14727 }, {  52,-14727 }, {  53,-14727 }, {  54,-14727 },
-
- {  55,-14727 }, {  56,-14727 }, {  57,-14727 }, {  58,-14727 }, {   0,   0 },
- {   0,   0 }, {  61,-14752 }, {   0,   0 }, {  63,-14727 }, {   0,   0 },
- {  65,-14727 }, {  66,-14727 }, {  67,-14727 }, {  68,-14727 }, {  69,-14727 },
- {  70,-14727 }, {  71,-14727 }, {  72,-14727 }, {  73,-14727 }, {  74,-14727 },
- {  75,-14727 }, {  76,-14727 }, {  77,-14727 }, {  78,-14727 }, {  79,-14727 },
- {  80,-14727 }, {  81,-14727 }, {  82,-14727 }, {  83,-14727 }, {  84,-14727 },
- {  85,-14727 }, {  86,-14727 }, {  87,-14727 }, {  88,-14727 }, {  89,-14727 },
- {  90,-14727 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-14727 }, {   0,   0 }, {  97,-14727 }, {  98,-14727 }, {  99,-14727 },
- { 100,-14727 }, { 101,-14727 }, { 102,-14727 }, { 103,-14727 }, { 104,-14727 },
-
- { 105,-14727 }, { 106,-14727 }, { 107,-14727 }, { 108,-14727 }, { 109,-14727 },
- { 110,-14727 }, { 111,-14727 }, { 112,-14727 }, { 113,-14727 }, { 114,-14727 },
- { 115,-14727 }, { 116,-14727 }, { 117,-14727 }, { 118,-14727 }, { 119,-14727 },
- { 120,-14727 }, { 121,-14727 }, { 122,-14727 }, {   0,   0 }, { 124,-14752 },
- { 125,-346 }, { 126,-346 }, { 127,-14727 }, { 128,-14727 }, { 129,-14727 },
- { 130,-14727 }, { 131,-14727 }, { 132,-14727 }, { 133,-14727 }, { 134,-14727 },
- { 135,-14727 }, { 136,-14727 }, { 137,-14727 }, { 138,-14727 }, { 139,-14727 },
- { 140,-14727 }, { 141,-14727 }, { 142,-14727 }, { 143,-14727 }, { 144,-14727 },
- { 145,-14727 }, { 146,-14727 }, { 147,-14727 }, { 148,-14727 }, { 149,-14727 },
- { 150,-14727 }, { 151,-14727 }, { 152,-14727 }, { 153,-14727 }, { 154,-14727 },
-
- { 155,-14727 }, { 156,-14727 }, { 157,-14727 }, { 158,-14727 }, { 159,-14727 },
- { 160,-14727 }, { 161,-14727 }, { 162,-14727 }, { 163,-14727 }, { 164,-14727 },
- { 165,-14727 }, { 166,-14727 }, { 167,-14727 }, { 168,-14727 }, { 169,-14727 },
- { 170,-14727 }, { 171,-14727 }, { 172,-14727 }, { 173,-14727 }, { 174,-14727 },
- { 175,-14727 }, { 176,-14727 }, { 177,-14727 }, { 178,-14727 }, { 179,-14727 },
- { 180,-14727 }, { 181,-14727 }, { 182,-14727 }, { 183,-14727 }, { 184,-14727 },
- { 185,-14727 }, { 186,-14727 }, { 187,-14727 }, { 188,-14727 }, { 189,-14727 },
- { 190,-14727 }, { 191,-14727 }, { 192,-14727 }, { 193,-14727 }, { 194,-14727 },
- { 195,-14727 }, { 196,-14727 }, { 197,-14727 }, { 198,-14727 }, { 199,-14727 },
- { 200,-14727 }, { 201,-14727 }, { 202,-14727 }, { 203,-14727 }, { 204,-14727 },
-
- { 205,-14727 }, { 206,-14727 }, { 207,-14727 }, { 208,-14727 }, { 209,-14727 },
- { 210,-14727 }, { 211,-14727 }, { 212,-14727 }, { 213,-14727 }, { 214,-14727 },
- { 215,-14727 }, { 216,-14727 }, { 217,-14727 }, { 218,-14727 }, { 219,-14727 },
- { 220,-14727 }, { 221,-14727 }, { 222,-14727 }, { 223,-14727 }, { 224,-14727 },
- { 225,-14727 }, { 226,-14727 }, { 227,-14727 }, { 228,-14727 }, { 229,-14727 },
- { 230,-14727 }, { 231,-14727 }, { 232,-14727 }, { 233,-14727 }, { 234,-14727 },
- { 235,-14727 }, { 236,-14727 }, { 237,-14727 }, { 238,-14727 }, { 239,-14727 },
- { 240,-14727 }, { 241,-14727 }, { 242,-14727 }, { 243,-14727 }, { 244,-14727 },
- { 245,-14727 }, { 246,-14727 }, { 247,-14727 }, { 248,-14727 }, { 249,-14727 },
- { 250,-14727 }, { 251,-14727 }, { 252,-14727 }, { 253,-14727 }, { 254,-14727 },
-
- { 255,-14727 }, { 256,-14727 }, { 257,  53 }, {   1,   0 },    };
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0, 861 },
+ {   1,-14046 }, {   2,-14046 }, {   3,-14046 }, {   4,-14046 }, {   5,-14046 },
+ {   6,-14046 }, {   7,-14046 }, {   8,-14046 }, {   9,-14071 }, {  10,-14071 },
+ {  11,-14046 }, {  12,-14046 }, {  13,-14071 }, {  14,-14046 }, {  15,-14046 },
+ {  16,-14046 }, {  17,-14046 }, {  18,-14046 }, {  19,-14046 }, {  20,-14046 },
+ {  21,-14046 }, {  22,-14046 }, {  23,-14046 }, {  24,-14046 }, {  25,-14046 },
+ {  26,-14046 }, {  27,-14046 }, {  28,-14046 }, {  29,-14046 }, {  30,-14046 },
+ {  31,-14046 }, {  32,-14071 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  36,-14046 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-14071 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-14046 },
+ {  46,-14071 }, {  47,-14071 }, {  48,-14046 }, {  49,-14046 }, {  50,-14046 },
+ {  51,-14046 }, {  52,-14046 }, {  53,-14046 }, {  54,-14046 }, {  55,-14046 },
+ {  56,-14046 }, {  57,-14046 }, {  58,-14046 }, {   0,   0 }, {   0,   0 },
+ {  61,-14071 }, {   0,   0 }, {  63,-14046 }, {   0,   0 }, {  65,-14046 },
+ {  66,-14046 }, {  67,-14046 }, {  68,-14046 }, {  69,-14046 }, {  70,-14046 },
+ {  71,-14046 }, {  72,-14046 }, {  73,-14046 }, {  74,-14046 }, {  75,-14046 },
+ {  76,-14046 }, {  77,-14046 }, {  78,-14046 }, {  79,-14046 }, {  80,-14046 },
+ {  81,-14046 }, {  82,-14046 }, {  83,-14046 }, {  84,-14046 }, {  85,-14046 },
+
+ {  86,-14046 }, {  87,-14046 }, {  88,-14046 }, {  89,-14046 }, {  90,-14046 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-14046 },
+ {   0,   0 }, {  97,-14046 }, {  98,-14046 }, {  99,-14046 }, { 100,-14046 },
+ { 101, 345 }, { 102,-14046 }, { 103,-14046 }, { 104,-14046 }, { 105,-14046 },
+ { 106,-14046 }, { 107,-14046 }, { 108,-14046 }, { 109,-14046 }, { 110,-14046 },
+ { 111,-14046 }, { 112,-14046 }, { 113,-14046 }, { 114,-14046 }, { 115,-14046 },
+ { 116,-14046 }, { 117,-14046 }, { 118,-14046 }, { 119,-14046 }, { 120,-14046 },
+ { 121,-14046 }, { 122,-14046 }, {   0,   0 }, { 124,-14071 }, { 125,-14071 },
+ { 126,-14071 }, { 127,-14046 }, { 128,-14046 }, { 129,-14046 }, { 130,-14046 },
+ { 131,-14046 }, { 132,-14046 }, { 133,-14046 }, { 134,-14046 }, { 135,-14046 },
+
+ { 136,-14046 }, { 137,-14046 }, { 138,-14046 }, { 139,-14046 }, { 140,-14046 },
+ { 141,-14046 }, { 142,-14046 }, { 143,-14046 }, { 144,-14046 }, { 145,-14046 },
+ { 146,-14046 }, { 147,-14046 }, { 148,-14046 }, { 149,-14046 }, { 150,-14046 },
+ { 151,-14046 }, { 152,-14046 }, { 153,-14046 }, { 154,-14046 }, { 155,-14046 },
+ { 156,-14046 }, { 157,-14046 }, { 158,-14046 }, { 159,-14046 }, { 160,-14046 },
+ { 161,-14046 }, { 162,-14046 }, { 163,-14046 }, { 164,-14046 }, { 165,-14046 },
+ { 166,-14046 }, { 167,-14046 }, { 168,-14046 }, { 169,-14046 }, { 170,-14046 },
+ { 171,-14046 }, { 172,-14046 }, { 173,-14046 }, { 174,-14046 }, { 175,-14046 },
+ { 176,-14046 }, { 177,-14046 }, { 178,-14046 }, { 179,-14046 }, { 180,-14046 },
+ { 181,-14046 }, { 182,-14046 }, { 183,-14046 }, { 184,-14046 }, { 185,-14046 },
+
+ { 186,-14046 }, { 187,-14046 }, { 188,-14046 }, { 189,-14046 }, { 190,-14046 },
+ { 191,-14046 }, { 192,-14046 }, { 193,-14046 }, { 194,-14046 }, { 195,-14046 },
+ { 196,-14046 }, { 197,-14046 }, { 198,-14046 }, { 199,-14046 }, { 200,-14046 },
+ { 201,-14046 }, { 202,-14046 }, { 203,-14046 }, { 204,-14046 }, { 205,-14046 },
+ { 206,-14046 }, { 207,-14046 }, { 208,-14046 }, { 209,-14046 }, { 210,-14046 },
+ { 211,-14046 }, { 212,-14046 }, { 213,-14046 }, { 214,-14046 }, { 215,-14046 },
+ { 216,-14046 }, { 217,-14046 }, { 218,-14046 }, { 219,-14046 }, { 220,-14046 },
+ { 221,-14046 }, { 222,-14046 }, { 223,-14046 }, { 224,-14046 }, { 225,-14046 },
+ { 226,-14046 }, { 227,-14046 }, { 228,-14046 }, { 229,-14046 }, { 230,-14046 },
+ { 231,-14046 }, { 232,-14046 }, { 233,-14046 }, { 234,-14046 }, { 235,-14046 },
+
+ { 236,-14046 }, { 237,-14046 }, { 238,-14046 }, { 239,-14046 }, { 240,-14046 },
+ { 241,-14046 }, { 242,-14046 }, { 243,-14046 }, { 244,-14046 }, { 245,-14046 },
+ { 246,-14046 }, { 247,-14046 }, { 248,-14046 }, { 249,-14046 }, { 250,-14046 },
+ { 251,-14046 }, { 252,-14046 }, { 253,-14046 }, { 254,-14046 }, { 255,-14046 },
+ { 256,-14046 }, {   0,   0 }, {   0, 603 }, {   0,   0 }, {   0, 601 },
+ {   0,   0 }, {   0, 599 }, {   0,  24 }, {   0, 597 }, {   0,   0 },
+ {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
+ {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 582 }, {   0,   0 },
+ {   0,   0 }, {   0, 579 }, {   0,  46 }, {   0, 577 }, {   0,   9 },
+
+ {   0, 575 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 516 },
+ {   1,-14391 }, {   2,-14391 }, {   3,-14391 }, {   4,-14391 }, {   5,-14391 },
+ {   6,-14391 }, {   7,-14391 }, {   8,-14391 }, {   9,-14416 }, {  10,-14416 },
+ {  11,-14391 }, {  12,-14391 }, {  13,-14416 }, {  14,-14391 }, {  15,-14391 },
+ {  16,-14391 }, {  17,-14391 }, {  18,-14391 }, {  19,-14391 }, {  20,-14391 },
+ {  21,-14391 }, {  22,-14391 }, {  23,-14391 }, {  24,-14391 }, {  25,-14391 },
+ {  26,-14391 }, {  27,-14391 }, {  28,-14391 }, {  29,-14391 }, {  30,-14391 },
+ {  31,-14391 }, {  32,-14416 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-14391 }, {   0,   0 }, { 125,-2710 }, { 126,   2 }, { 125,-2712 },
+
+ {  41,-14416 }, { 125,  17 }, {   0,   0 }, {   0,   0 }, {  45,-14391 },
+ {  46,-14416 }, {  47,-14416 }, {  48,-14391 }, {  49,-14391 }, {  50,-14391 },
+ {  51,-14391 }, {  52,-14391 }, {  53,-14391 }, {  54,-14391 }, {  55,-14391 },
+ {  56,-14391 }, {  57,-14391 }, {  58,-14391 }, { 125,   3 }, {   0,   0 },
+ {  61,-14416 }, { 125,   4 }, {  63,-14391 }, {   0,   0 }, {  65,-14391 },
+ {  66,-14391 }, {  67,-14391 }, {  68,-14391 }, {  69,-14391 }, {  70,-14391 },
+ {  71,-14391 }, {  72,-14391 }, {  73,-14391 }, {  74,-14391 }, {  75,-14391 },
+ {  76,-14391 }, {  77,-14391 }, {  78,-14391 }, {  79,-14391 }, {  80,-14391 },
+ {  81,-14391 }, {  82,-14391 }, {  83,-14391 }, {  84,-14391 }, {  85,-14391 },
+ {  86,-14391 }, {  87,-14391 }, {  88,-14391 }, {  89,-14391 }, {  90,-14391 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-14391 },
+ {   0,   0 }, {  97,-14391 }, {  98,-14391 }, {  99,-14391 }, { 100, 258 },
+ { 101,-14391 }, { 102,-14391 }, { 103,-14391 }, { 104,-14391 }, { 105,-14391 },
+ { 106,-14391 }, { 107,-14391 }, { 108,-14391 }, { 109,-14391 }, { 110,-14391 },
+ { 111,-14391 }, { 112,-14391 }, { 113,-14391 }, { 114,-14391 }, { 115,-14391 },
+ { 116,-14391 }, { 117,-14391 }, { 118,-14391 }, { 119,-14391 }, { 120,-14391 },
+ { 121,-14391 }, { 122,-14391 }, {   0,   0 }, { 124,-14416 }, { 125,-14416 },
+ { 126,-14416 }, { 127,-14391 }, { 128,-14391 }, { 129,-14391 }, { 130,-14391 },
+ { 131,-14391 }, { 132,-14391 }, { 133,-14391 }, { 134,-14391 }, { 135,-14391 },
+ { 136,-14391 }, { 137,-14391 }, { 138,-14391 }, { 139,-14391 }, { 140,-14391 },
+
+ { 141,-14391 }, { 142,-14391 }, { 143,-14391 }, { 144,-14391 }, { 145,-14391 },
+ { 146,-14391 }, { 147,-14391 }, { 148,-14391 }, { 149,-14391 }, { 150,-14391 },
+ { 151,-14391 }, { 152,-14391 }, { 153,-14391 }, { 154,-14391 }, { 155,-14391 },
+ { 156,-14391 }, { 157,-14391 }, { 158,-14391 }, { 159,-14391 }, { 160,-14391 },
+ { 161,-14391 }, { 162,-14391 }, { 163,-14391 }, { 164,-14391 }, { 165,-14391 },
+ { 166,-14391 }, { 167,-14391 }, { 168,-14391 }, { 169,-14391 }, { 170,-14391 },
+ { 171,-14391 }, { 172,-14391 }, { 173,-14391 }, { 174,-14391 }, { 175,-14391 },
+ { 176,-14391 }, { 177,-14391 }, { 178,-14391 }, { 179,-14391 }, { 180,-14391 },
+ { 181,-14391 }, { 182,-14391 }, { 183,-14391 }, { 184,-14391 }, { 185,-14391 },
+ { 186,-14391 }, { 187,-14391 }, { 188,-14391 }, { 189,-14391 }, { 190,-14391 },
+
+ { 191,-14391 }, { 192,-14391 }, { 193,-14391 }, { 194,-14391 }, { 195,-14391 },
+ { 196,-14391 }, { 197,-14391 }, { 198,-14391 }, { 199,-14391 }, { 200,-14391 },
+ { 201,-14391 }, { 202,-14391 }, { 203,-14391 }, { 204,-14391 }, { 205,-14391 },
+ { 206,-14391 }, { 207,-14391 }, { 208,-14391 }, { 209,-14391 }, { 210,-14391 },
+ { 211,-14391 }, { 212,-14391 }, { 213,-14391 }, { 214,-14391 }, { 215,-14391 },
+ { 216,-14391 }, { 217,-14391 }, { 218,-14391 }, { 219,-14391 }, { 220,-14391 },
+ { 221,-14391 }, { 222,-14391 }, { 223,-14391 }, { 224,-14391 }, { 225,-14391 },
+ { 226,-14391 }, { 227,-14391 }, { 228,-14391 }, { 229,-14391 }, { 230,-14391 },
+ { 231,-14391 }, { 232,-14391 }, { 233,-14391 }, { 234,-14391 }, { 235,-14391 },
+ { 236,-14391 }, { 237,-14391 }, { 238,-14391 }, { 239,-14391 }, { 240,-14391 },
+
+ { 241,-14391 }, { 242,-14391 }, { 243,-14391 }, { 244,-14391 }, { 245,-14391 },
+ { 246,-14391 }, { 247,-14391 }, { 248,-14391 }, { 249,-14391 }, { 250,-14391 },
+ { 251,-14391 }, { 252,-14391 }, { 253,-14391 }, { 254,-14391 }, { 255,-14391 },
+ { 256,-14391 }, {   0,   0 }, {   0, 258 }, {   1,-14649 }, {   2,-14649 },
+ {   3,-14649 }, {   4,-14649 }, {   5,-14649 }, {   6,-14649 }, {   7,-14649 },
+ {   8,-14649 }, {   9,-319 }, {  10,-319 }, {  11,-14649 }, {  12,-14649 },
+ {  13,-319 }, {  14,-14649 }, {  15,-14649 }, {  16,-14649 }, {  17,-14649 },
+ {  18,-14649 }, {  19,-14649 }, {  20,-14649 }, {  21,-14649 }, {  22,-14649 },
+ {  23,-14649 }, {  24,-14649 }, {  25,-14649 }, {  26,-14649 }, {  27,-14649 },
+ {  28,-14649 }, {  29,-14649 }, {  30,-14649 }, {  31,-14649 }, {  32,-319 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-14649 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-319 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-14649 }, {  46,-14674 }, {  47,-14674 },
+ {  48,-14649 }, {  49,-14649 }, {  50,-14649 }, {  51,-14649 }, {  52,-14649 },
+ {  53,-14649 }, {  54,-14649 }, {  55,-14649 }, {  56,-14649 }, {  57,-14649 },
+ {  58,-14649 }, {   0,   0 }, {   0,   0 }, {  61,-14674 }, {   0,   0 },
+ {  63,-14649 }, {   0,   0 }, {  65,-14649 }, {  66,-14649 }, {  67,-14649 },
+ {  68,-14649 }, {  69,-14649 }, {  70,-14649 }, {  71,-14649 }, {  72,-14649 },
+ {  73,-14649 }, {  74,-14649 }, {  75,-14649 }, {  76,-14649 }, {  77,-14649 },
+ {  78,-14649 }, {  79,-14649 }, {  80,-14649 }, {  81,-14649 }, {  82,-14649 },
+
+ {  83,-14649 }, {  84,-14649 }, {  85,-14649 }, {  86,-14649 }, {  87,-14649 },
+ {  88,-14649 }, {  89,-14649 }, {  90,-14649 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-14649 }, {   0,   0 }, {  97,-14649 },
+ {  98,-14649 }, {  99,-14649 }, { 100,-14649 }, { 101,-14649 }, { 102,-14649 },
+ { 103,-14649 }, { 104,-14649 }, { 105,-14649 }, { 106,-14649 }, { 107,-14649 },
+ { 108,-14649 }, { 109,-14649 }, { 110,-14649 }, { 111,-14649 }, { 112,-14649 },
+ { 113,-14649 }, { 114,-14649 }, { 115,-14649 }, { 116,-14649 }, { 117,-14649 },
+ { 118,-14649 }, { 119,-14649 }, { 120,-14649 }, { 121,-14649 }, { 122,-14649 },
+ {   0,   0 }, { 124,-14674 }, { 125,-319 }, { 126,-319 }, { 127,-14649 },
+ { 128,-14649 }, { 129,-14649 }, { 130,-14649 }, { 131,-14649 }, { 132,-14649 },
+
+ { 133,-14649 }, { 134,-14649 }, { 135,-14649 }, { 136,-14649 }, { 137,-14649 },
+ { 138,-14649 }, { 139,-14649 }, { 140,-14649 }, { 141,-14649 }, { 142,-14649 },
+ { 143,-14649 }, { 144,-14649 }, { 145,-14649 }, { 146,-14649 }, { 147,-14649 },
+ { 148,-14649 }, { 149,-14649 }, { 150,-14649 }, { 151,-14649 }, { 152,-14649 },
+ { 153,-14649 }, { 154,-14649 }, { 155,-14649 }, { 156,-14649 }, { 157,-14649 },
+ { 158,-14649 }, { 159,-14649 }, { 160,-14649 }, { 161,-14649 }, { 162,-14649 },
+ { 163,-14649 }, { 164,-14649 }, { 165,-14649 }, { 166,-14649 }, { 167,-14649 },
+ { 168,-14649 }, { 169,-14649 }, { 170,-14649 }, { 171,-14649 }, { 172,-14649 },
+ { 173,-14649 }, { 174,-14649 }, { 175,-14649 }, { 176,-14649 }, { 177,-14649 },
+ { 178,-14649 }, { 179,-14649 }, { 180,-14649 }, { 181,-14649 }, { 182,-14649 },
+
+ { 183,-14649 }, { 184,-14649 }, { 185,-14649 }, { 186,-14649 }, { 187,-14649 },
+ { 188,-14649 }, { 189,-14649 }, { 190,-14649 }, { 191,-14649 }, { 192,-14649 },
+ { 193,-14649 }, { 194,-14649 }, { 195,-14649 }, { 196,-14649 }, { 197,-14649 },
+ { 198,-14649 }, { 199,-14649 }, { 200,-14649 }, { 201,-14649 }, { 202,-14649 },
+ { 203,-14649 }, { 204,-14649 }, { 205,-14649 }, { 206,-14649 }, { 207,-14649 },
+ { 208,-14649 }, { 209,-14649 }, { 210,-14649 }, { 211,-14649 }, { 212,-14649 },
+ { 213,-14649 }, { 214,-14649 }, { 215,-14649 }, { 216,-14649 }, { 217,-14649 },
+ { 218,-14649 }, { 219,-14649 }, { 220,-14649 }, { 221,-14649 }, { 222,-14649 },
+ { 223,-14649 }, { 224,-14649 }, { 225,-14649 }, { 226,-14649 }, { 227,-14649 },
+ { 228,-14649 }, { 229,-14649 }, { 230,-14649 }, { 231,-14649 }, { 232,-14649 },
+
+ { 233,-14649 }, { 234,-14649 }, { 235,-14649 }, { 236,-14649 }, { 237,-14649 },
+ { 238,-14649 }, { 239,-14649 }, { 240,-14649 }, { 241,-14649 }, { 242,-14649 },
+ { 243,-14649 }, { 244,-14649 }, { 245,-14649 }, { 246,-14649 }, { 247,-14649 },
+ { 248,-14649 }, { 249,-14649 }, { 250,-14649 }, { 251,-14649 }, { 252,-14649 },
+ { 253,-14649 }, { 254,-14649 }, { 255,-14649 }, { 256,-14649 }, { 257,  53 },
+ {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5762,7 +5745,7 @@ static const struct yy_trans_info *yy_start_state_list[13] =
 static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
 1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 
-    0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 
+    0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 
     1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
@@ -5865,9 +5848,9 @@ static const flex_int32_t yy_rule_can_match_eol[53] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5868 "handlebars.lex.c"
+#line 5851 "handlebars.lex.c"
 
-#line 5870 "handlebars.lex.c"
+#line 5853 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -6150,7 +6133,7 @@ YY_DECL
 
 
 
-#line 6153 "handlebars.lex.c"
+#line 6136 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -6445,6 +6428,7 @@ YY_RULE_SETUP
                              		}
 	YY_BREAK
 case 23:
+/* rule 23 can match eol */
 YY_RULE_SETUP
 #line 296 "handlebars.l"
 {
@@ -6475,6 +6459,7 @@ YY_RULE_SETUP
                              		}
 	YY_BREAK
 case 26:
+/* rule 26 can match eol */
 YY_RULE_SETUP
 #line 316 "handlebars.l"
 {
@@ -6778,7 +6763,7 @@ YY_RULE_SETUP
 #line 491 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6781 "handlebars.lex.c"
+#line 6766 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
-- 
2.43.0


From 896955b0a180beb6ea320f659377a2caeb649fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:36 +0000
Subject: [PATCH 44/99] fix: a name that starts with else is not an else tag

---
 src/handlebars.l     |   2 +-
 src/handlebars.lex.c | 985 ++++++++++++++++++++++---------------------
 2 files changed, 513 insertions(+), 474 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 1d22226..dc48501 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -313,7 +313,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_INVERSE;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?{WHITESPACE}*"else"   	{
+<mu>"{{"{LEFT_STRIP}?{WHITESPACE}*"else"/[^a-zA-Z0-9_]   	{
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 2ebfef7..ff5ae34 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[23530] =
+static const struct yy_trans_info yy_transition[23694] =
     {
- {   0,   0 }, {   0,23274 }, {   0,   2 }, {   0,23272 }, {   1,3096 },
+ {   0,   0 }, {   0,23438 }, {   0,   2 }, {   0,23436 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3354 }, {  11,3096 },
  {  12,3096 }, {  13,3354 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[23530] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3096 },
- {   0,   2 }, {   0,23014 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,23178 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3096 }, {  11,2838 }, {  12,2838 }, {  13,3096 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,2838 }, {   0,   0 }, {   0,22756 },
+ { 254,2838 }, { 255,2838 }, { 256,2838 }, {   0,   0 }, {   0,22920 },
  {   1,3225 }, {   2,3225 }, {   3,3225 }, {   4,3225 }, {   5,3225 },
  {   6,3225 }, {   7,3225 }, {   8,3225 }, {   9,2844 }, {  10,2846 },
  {  11,3225 }, {  12,3225 }, {  13,2844 }, {  14,3225 }, {  15,3225 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,3225 }, { 242,3225 }, { 243,3225 }, { 244,3225 }, { 245,3225 },
  { 246,3225 }, { 247,3225 }, { 248,3225 }, { 249,3225 }, { 250,3225 },
  { 251,3225 }, { 252,3225 }, { 253,3225 }, { 254,3225 }, { 255,3225 },
- { 256,3225 }, {   0,   0 }, {   0,22498 }, {   1,2967 }, {   2,2967 },
+ { 256,3225 }, {   0,   0 }, {   0,22662 }, {   1,2967 }, {   2,2967 },
  {   3,2967 }, {   4,2967 }, {   5,2967 }, {   6,2967 }, {   7,2967 },
  {   8,2967 }, {   9,2586 }, {  10,2588 }, {  11,2967 }, {  12,2967 },
  {  13,2586 }, {  14,2967 }, {  15,2967 }, {  16,2967 }, {  17,2967 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 243,2967 }, { 244,2967 }, { 245,2967 }, { 246,2967 }, { 247,2967 },
  { 248,2967 }, { 249,2967 }, { 250,2967 }, { 251,2967 }, { 252,2967 },
  { 253,2967 }, { 254,2967 }, { 255,2967 }, { 256,2967 }, {   0,   0 },
- {   0,22240 }, {   1,3794 }, {   2,3794 }, {   3,3794 }, {   4,3794 },
+ {   0,22404 }, {   1,3794 }, {   2,3794 }, {   3,3794 }, {   4,3794 },
  {   5,3794 }, {   6,3794 }, {   7,3794 }, {   8,3794 }, {   9,3794 },
  {  10,3796 }, {  11,3794 }, {  12,3794 }, {  13,3794 }, {  14,3794 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 240,3794 }, { 241,3794 }, { 242,3794 }, { 243,3794 }, { 244,3794 },
  { 245,3794 }, { 246,3794 }, { 247,3794 }, { 248,3794 }, { 249,3794 },
  { 250,3794 }, { 251,3794 }, { 252,3794 }, { 253,3794 }, { 254,3794 },
- { 255,3794 }, { 256,3794 }, {   0,   0 }, {   0,21982 }, {   1,3536 },
+ { 255,3794 }, { 256,3794 }, {   0,   0 }, {   0,22146 }, {   1,3536 },
  {   2,3536 }, {   3,3536 }, {   4,3536 }, {   5,3536 }, {   6,3536 },
 
  {   7,3536 }, {   8,3536 }, {   9,3536 }, {  10,3538 }, {  11,3536 },
@@ -942,7 +942,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 247,3536 }, { 248,3536 }, { 249,3536 }, { 250,3536 }, { 251,3536 },
  { 252,3536 }, { 253,3536 }, { 254,3536 }, { 255,3536 }, { 256,3536 },
 
- {   0,   0 }, {   0,21724 }, {   1,5113 }, {   2,5113 }, {   3,5113 },
+ {   0,   0 }, {   0,21888 }, {   1,5113 }, {   2,5113 }, {   3,5113 },
  {   4,5113 }, {   5,5113 }, {   6,5113 }, {   7,5113 }, {   8,5113 },
  {   9,5113 }, {  10,5113 }, {  11,5113 }, {  12,5113 }, {  13,5113 },
  {  14,5113 }, {  15,5113 }, {  16,5113 }, {  17,5113 }, {  18,5113 },
@@ -998,7 +998,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 244,5113 }, { 245,5113 }, { 246,5113 }, { 247,5113 }, { 248,5113 },
 
  { 249,5113 }, { 250,5113 }, { 251,5113 }, { 252,5113 }, { 253,5113 },
- { 254,5113 }, { 255,5113 }, { 256,5113 }, {   0,   0 }, {   0,21466 },
+ { 254,5113 }, { 255,5113 }, { 256,5113 }, {   0,   0 }, {   0,21630 },
  {   1,4855 }, {   2,4855 }, {   3,4855 }, {   4,4855 }, {   5,4855 },
  {   6,4855 }, {   7,4855 }, {   8,4855 }, {   9,4855 }, {  10,4855 },
  {  11,4855 }, {  12,4855 }, {  13,4855 }, {  14,4855 }, {  15,4855 },
@@ -1055,7 +1055,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,4855 }, { 242,4855 }, { 243,4855 }, { 244,4855 }, { 245,4855 },
  { 246,4855 }, { 247,4855 }, { 248,4855 }, { 249,4855 }, { 250,4855 },
  { 251,4855 }, { 252,4855 }, { 253,4855 }, { 254,4855 }, { 255,4855 },
- { 256,4855 }, {   0,   0 }, {   0,21208 }, {   1,5113 }, {   2,5113 },
+ { 256,4855 }, {   0,   0 }, {   0,21372 }, {   1,5113 }, {   2,5113 },
  {   3,5113 }, {   4,5113 }, {   5,5113 }, {   6,5113 }, {   7,5113 },
  {   8,5113 }, {   9,5113 }, {  10,5113 }, {  11,5113 }, {  12,5113 },
  {  13,5113 }, {  14,5113 }, {  15,5113 }, {  16,5113 }, {  17,5113 },
@@ -1112,7 +1112,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 243,5113 }, { 244,5113 }, { 245,5113 }, { 246,5113 }, { 247,5113 },
  { 248,5113 }, { 249,5113 }, { 250,5113 }, { 251,5113 }, { 252,5113 },
  { 253,5113 }, { 254,5113 }, { 255,5113 }, { 256,5113 }, {   0,   0 },
- {   0,20950 }, {   1,4855 }, {   2,4855 }, {   3,4855 }, {   4,4855 },
+ {   0,21114 }, {   1,4855 }, {   2,4855 }, {   3,4855 }, {   4,4855 },
  {   5,4855 }, {   6,4855 }, {   7,4855 }, {   8,4855 }, {   9,4855 },
  {  10,4855 }, {  11,4855 }, {  12,4855 }, {  13,4855 }, {  14,4855 },
  {  15,4855 }, {  16,4855 }, {  17,4855 }, {  18,4855 }, {  19,4855 },
@@ -1168,7 +1168,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 240,4855 }, { 241,4855 }, { 242,4855 }, { 243,4855 }, { 244,4855 },
  { 245,4855 }, { 246,4855 }, { 247,4855 }, { 248,4855 }, { 249,4855 },
  { 250,4855 }, { 251,4855 }, { 252,4855 }, { 253,4855 }, { 254,4855 },
- { 255,4855 }, { 256,4855 }, {   0,   0 }, {   0,20692 }, {   1,5113 },
+ { 255,4855 }, { 256,4855 }, {   0,   0 }, {   0,20856 }, {   1,5113 },
  {   2,5113 }, {   3,5113 }, {   4,5113 }, {   5,5113 }, {   6,5113 },
  {   7,5113 }, {   8,5113 }, {   9,5113 }, {  10,5113 }, {  11,5113 },
  {  12,5113 }, {  13,5113 }, {  14,5113 }, {  15,5113 }, {  16,5113 },
@@ -1225,7 +1225,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,5113 }, { 243,5113 }, { 244,5113 }, { 245,5113 }, { 246,5113 },
  { 247,5113 }, { 248,5113 }, { 249,5113 }, { 250,5113 }, { 251,5113 },
  { 252,5113 }, { 253,5113 }, { 254,5113 }, { 255,5113 }, { 256,5113 },
- {   0,   0 }, {   0,20434 }, {   1,4855 }, {   2,4855 }, {   3,4855 },
+ {   0,   0 }, {   0,20598 }, {   1,4855 }, {   2,4855 }, {   3,4855 },
  {   4,4855 }, {   5,4855 }, {   6,4855 }, {   7,4855 }, {   8,4855 },
 
  {   9,4855 }, {  10,4855 }, {  11,4855 }, {  12,4855 }, {  13,4855 },
@@ -1281,7 +1281,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 239,4855 }, { 240,4855 }, { 241,4855 }, { 242,4855 }, { 243,4855 },
  { 244,4855 }, { 245,4855 }, { 246,4855 }, { 247,4855 }, { 248,4855 },
  { 249,4855 }, { 250,4855 }, { 251,4855 }, { 252,4855 }, { 253,4855 },
- { 254,4855 }, { 255,4855 }, { 256,4855 }, {   0,   2 }, {   0,20176 },
+ { 254,4855 }, { 255,4855 }, { 256,4855 }, {   0,   2 }, {   0,20340 },
 
  {   1,4980 }, {   2,4980 }, {   3,4980 }, {   4,4980 }, {   5,4980 },
  {   6,4980 }, {   7,4980 }, {   8,4980 }, {   9,4980 }, {  10,4857 },
@@ -1339,13 +1339,13 @@ static const struct yy_trans_info yy_transition[23530] =
  { 246,4980 }, { 247,4980 }, { 248,4980 }, { 249,4980 }, { 250,4980 },
 
  { 251,4980 }, { 252,4980 }, { 253,4980 }, { 254,4980 }, { 255,4980 },
- { 256,4980 }, {   0,   2 }, {   0,19918 }, {   0,   6 }, {   0,19916 },
- {   0,   6 }, {   0,19914 }, {   0,  36 }, {   0,19912 }, {   0,  36 },
- {   0,19910 }, {   0,   0 }, {  10,4599 }, {   0,  51 }, {   0,19906 },
+ { 256,4980 }, {   0,   2 }, {   0,20082 }, {   0,   6 }, {   0,20080 },
+ {   0,   6 }, {   0,20078 }, {   0,  36 }, {   0,20076 }, {   0,  36 },
+ {   0,20074 }, {   0,   0 }, {  10,4599 }, {   0,  51 }, {   0,20070 },
  {  13,4599 }, {   0,   0 }, {   9,5263 }, {  10,5263 }, {   9,5261 },
  {  10,5261 }, {  13,5263 }, {   0,   0 }, {  13,5261 }, {   0,  15 },
- {   0,19895 }, {   0,  16 }, {   0,19893 }, {   0,  35 }, {   0,19891 },
- {   0,  32 }, {   0,19889 }, {   0,  41 }, {   0,19887 }, {   0,   0 },
+ {   0,20059 }, {   0,  16 }, {   0,20057 }, {   0,  35 }, {   0,20055 },
+ {   0,  32 }, {   0,20053 }, {   0,  41 }, {   0,20051 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  32,5263 }, {   0,   0 }, {  32,5261 }, {   0,   0 }, {   0,   0 },
 
@@ -1367,7 +1367,7 @@ static const struct yy_trans_info yy_transition[23530] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, { 123,4980 }, {   0,   0 }, { 123,4980 },
- {   0,   2 }, {   0,19789 }, {   1,4593 }, {   2,4593 }, {   3,4593 },
+ {   0,   2 }, {   0,19953 }, {   1,4593 }, {   2,4593 }, {   3,4593 },
  {   4,4593 }, {   5,4593 }, {   6,4593 }, {   7,4593 }, {   8,4593 },
  {   9,4593 }, {  10,4470 }, {  11,4593 }, {  12,4593 }, {  13,4470 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 239,4593 }, { 240,4593 }, { 241,4593 }, { 242,4593 }, { 243,4593 },
  { 244,4593 }, { 245,4593 }, { 246,4593 }, { 247,4593 }, { 248,4593 },
  { 249,4593 }, { 250,4593 }, { 251,4593 }, { 252,4593 }, { 253,4593 },
- { 254,4593 }, { 255,4593 }, { 256,4593 }, {   0,  51 }, {   0,19531 },
+ { 254,4593 }, { 255,4593 }, { 256,4593 }, {   0,  51 }, {   0,19695 },
  {   1,4624 }, {   2,4624 }, {   3,4624 }, {   4,4624 }, {   5,4624 },
 
  {   6,4624 }, {   7,4624 }, {   8,4624 }, {   9,4599 }, {  10,4599 },
@@ -1481,7 +1481,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 246,4624 }, { 247,4624 }, { 248,4624 }, { 249,4624 }, { 250,4624 },
  { 251,4624 }, { 252,4624 }, { 253,4624 }, { 254,4624 }, { 255,4624 },
 
- { 256,4624 }, {   0,  51 }, {   0,19273 }, {   1,4658 }, {   2,4658 },
+ { 256,4624 }, {   0,  51 }, {   0,19437 }, {   1,4658 }, {   2,4658 },
  {   3,4658 }, {   4,4658 }, {   5,4658 }, {   6,4658 }, {   7,4658 },
  {   8,4658 }, {   9,4658 }, {  10,4658 }, {  11,4658 }, {  12,4658 },
  {  13,4658 }, {  14,4658 }, {  15,4658 }, {  16,4658 }, {  17,4658 },
@@ -1538,7 +1538,7 @@ static const struct yy_trans_info yy_transition[23530] =
 
  { 248,4658 }, { 249,4658 }, { 250,4658 }, { 251,4658 }, { 252,4658 },
  { 253,4658 }, { 254,4658 }, { 255,4658 }, { 256,4658 }, {   0,  51 },
- {   0,19015 }, {   1,4916 }, {   2,4916 }, {   3,4916 }, {   4,4916 },
+ {   0,19179 }, {   1,4916 }, {   2,4916 }, {   3,4916 }, {   4,4916 },
  {   5,4916 }, {   6,4916 }, {   7,4916 }, {   8,4916 }, {   9,4916 },
  {  10,4916 }, {  11,4916 }, {  12,4916 }, {  13,4916 }, {  14,4916 },
  {  15,4916 }, {  16,4916 }, {  17,4916 }, {  18,4916 }, {  19,4916 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 240,4916 }, { 241,4916 }, { 242,4916 }, { 243,4916 }, { 244,4916 },
  { 245,4916 }, { 246,4916 }, { 247,4916 }, { 248,4916 }, { 249,4916 },
  { 250,4916 }, { 251,4916 }, { 252,4916 }, { 253,4916 }, { 254,4916 },
- { 255,4916 }, { 256,4916 }, {   0,  51 }, {   0,18757 }, {   1,3850 },
+ { 255,4916 }, { 256,4916 }, {   0,  51 }, {   0,18921 }, {   1,3850 },
  {   2,3850 }, {   3,3850 }, {   4,3850 }, {   5,3850 }, {   6,3850 },
  {   7,3850 }, {   8,3850 }, {   9,3825 }, {  10,3825 }, {  11,3850 },
  {  12,3850 }, {  13,3825 }, {  14,3850 }, {  15,3850 }, {  16,3850 },
@@ -1651,25 +1651,25 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,3850 }, { 243,3850 }, { 244,3850 }, { 245,3850 }, { 246,3850 },
  { 247,3850 }, { 248,3850 }, { 249,3850 }, { 250,3850 }, { 251,3850 },
  { 252,3850 }, { 253,3850 }, { 254,3850 }, { 255,3850 }, { 256,3850 },
- {   0,  35 }, {   0,18499 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,18663 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   9,3856 }, {  10,3856 }, {   0,   0 }, {   0,   0 }, {  13,3856 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18481 },
- {   0,  43 }, {   0,18479 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18645 },
+ {   0,  43 }, {   0,18643 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,3856 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,3856 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  46,3858 }, {  47,3856 }, {   0,  51 },
- {   0,18450 }, {   0,  51 }, {   0,18448 }, {   0,   7 }, {   0,18446 },
- {   0,  52 }, {   0,18444 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,18614 }, {   0,  51 }, {   0,18612 }, {   0,   7 }, {   0,18610 },
+ {   0,  52 }, {   0,18608 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  61,3856 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18417 }, {   1,3510 },
+ {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18581 }, {   1,3510 },
  {   2,3510 }, {   3,3510 }, {   4,3510 }, {   5,3510 }, {   6,3510 },
  {   7,3510 }, {   8,3510 }, {   9,3780 }, {  10,3780 }, {  11,3510 },
  {  12,3510 }, {  13,3780 }, {  14,3510 }, {  15,3510 }, {  16,3510 },
@@ -1726,7 +1726,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,3510 }, { 243,3510 }, { 244,3510 }, { 245,3510 }, { 246,3510 },
  { 247,3510 }, { 248,3510 }, { 249,3510 }, { 250,3510 }, { 251,3510 },
  { 252,3510 }, { 253,3510 }, { 254,3510 }, { 255,3510 }, { 256,3510 },
- {   0,  51 }, {   0,18159 }, {   1,4893 }, {   2,4893 }, {   3,4893 },
+ {   0,  51 }, {   0,18323 }, {   1,4893 }, {   2,4893 }, {   3,4893 },
  {   4,4893 }, {   5,4893 }, {   6,4893 }, {   7,4893 }, {   8,4893 },
  {   9,4893 }, {  10,4893 }, {  11,4893 }, {  12,4893 }, {  13,4893 },
  {  14,4893 }, {  15,4893 }, {  16,4893 }, {  17,4893 }, {  18,4893 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 239,4893 }, { 240,4893 }, { 241,4893 }, { 242,4893 }, { 243,4893 },
  { 244,4893 }, { 245,4893 }, { 246,4893 }, { 247,4893 }, { 248,4893 },
  { 249,4893 }, { 250,4893 }, { 251,4893 }, { 252,4893 }, { 253,4893 },
- { 254,4893 }, { 255,4893 }, { 256,4893 }, {   0,  51 }, {   0,17901 },
+ { 254,4893 }, { 255,4893 }, { 256,4893 }, {   0,  51 }, {   0,18065 },
  {   1,2994 }, {   2,2994 }, {   3,2994 }, {   4,2994 }, {   5,2994 },
  {   6,2994 }, {   7,2994 }, {   8,2994 }, {   9,2969 }, {  10,2969 },
  {  11,2994 }, {  12,2994 }, {  13,2969 }, {  14,2994 }, {  15,2994 },
@@ -1839,7 +1839,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,2994 }, { 242,2994 }, { 243,2994 }, { 244,2994 }, { 245,2994 },
  { 246,2994 }, { 247,2994 }, { 248,2994 }, { 249,2994 }, { 250,2994 },
  { 251,2994 }, { 252,2994 }, { 253,2994 }, { 254,2994 }, { 255,2994 },
- { 256,2994 }, {   0,  51 }, {   0,17643 }, {   1,2736 }, {   2,2736 },
+ { 256,2994 }, {   0,  51 }, {   0,17807 }, {   1,2736 }, {   2,2736 },
  {   3,2736 }, {   4,2736 }, {   5,2736 }, {   6,2736 }, {   7,2736 },
  {   8,2736 }, {   9,2711 }, {  10,2711 }, {  11,2736 }, {  12,2736 },
  {  13,2711 }, {  14,2736 }, {  15,2736 }, {  16,2736 }, {  17,2736 },
@@ -1896,7 +1896,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 243,2736 }, { 244,2736 }, { 245,2736 }, { 246,2736 }, { 247,2736 },
  { 248,2736 }, { 249,2736 }, { 250,2736 }, { 251,2736 }, { 252,2736 },
  { 253,2736 }, { 254,2736 }, { 255,2736 }, { 256,2736 }, {   0,  51 },
- {   0,17385 }, {   1,2478 }, {   2,2478 }, {   3,2478 }, {   4,2478 },
+ {   0,17549 }, {   1,2478 }, {   2,2478 }, {   3,2478 }, {   4,2478 },
  {   5,2478 }, {   6,2478 }, {   7,2478 }, {   8,2478 }, {   9,2453 },
 
  {  10,2453 }, {  11,2478 }, {  12,2478 }, {  13,2453 }, {  14,2478 },
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 240,2478 }, { 241,2478 }, { 242,2478 }, { 243,2478 }, { 244,2478 },
  { 245,2478 }, { 246,2478 }, { 247,2478 }, { 248,2478 }, { 249,2478 },
  { 250,2478 }, { 251,2478 }, { 252,2478 }, { 253,2478 }, { 254,2478 },
- { 255,2478 }, { 256,2478 }, {   0,  51 }, {   0,17127 }, {   1,2220 },
+ { 255,2478 }, { 256,2478 }, {   0,  51 }, {   0,17291 }, {   1,2220 },
 
  {   2,2220 }, {   3,2220 }, {   4,2220 }, {   5,2220 }, {   6,2220 },
  {   7,2220 }, {   8,2220 }, {   9,2195 }, {  10,2195 }, {  11,2220 },
@@ -2010,7 +2010,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 247,2220 }, { 248,2220 }, { 249,2220 }, { 250,2220 }, { 251,2220 },
 
  { 252,2220 }, { 253,2220 }, { 254,2220 }, { 255,2220 }, { 256,2220 },
- {   0,  51 }, {   0,16869 }, {   1,1962 }, {   2,1962 }, {   3,1962 },
+ {   0,  51 }, {   0,17033 }, {   1,1962 }, {   2,1962 }, {   3,1962 },
  {   4,1962 }, {   5,1962 }, {   6,1962 }, {   7,1962 }, {   8,1962 },
  {   9,1937 }, {  10,1937 }, {  11,1962 }, {  12,1962 }, {  13,1937 },
  {  14,1962 }, {  15,1962 }, {  16,1962 }, {  17,1962 }, {  18,1962 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[23530] =
 
  { 244,1962 }, { 245,1962 }, { 246,1962 }, { 247,1962 }, { 248,1962 },
  { 249,1962 }, { 250,1962 }, { 251,1962 }, { 252,1962 }, { 253,1962 },
- { 254,1962 }, { 255,1962 }, { 256,1962 }, {   0,  14 }, {   0,16611 },
+ { 254,1962 }, { 255,1962 }, { 256,1962 }, {   0,  14 }, {   0,16775 },
  {   1,5284 }, {   2,5284 }, {   3,5284 }, {   4,5284 }, {   5,5284 },
  {   6,5284 }, {   7,5284 }, {   8,5284 }, {   9,5284 }, {  10,5284 },
  {  11,5284 }, {  12,5284 }, {  13,5284 }, {  14,5284 }, {  15,5284 },
@@ -2123,7 +2123,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,5284 }, { 242,5284 }, { 243,5284 }, { 244,5284 }, { 245,5284 },
  { 246,5284 }, { 247,5284 }, { 248,5284 }, { 249,5284 }, { 250,5284 },
  { 251,5284 }, { 252,5284 }, { 253,5284 }, { 254,5284 }, { 255,5284 },
- { 256,5284 }, {   0,  14 }, {   0,16353 }, {   1,5026 }, {   2,5026 },
+ { 256,5284 }, {   0,  14 }, {   0,16517 }, {   1,5026 }, {   2,5026 },
  {   3,5026 }, {   4,5026 }, {   5,5026 }, {   6,5026 }, {   7,5026 },
  {   8,5026 }, {   9,5026 }, {  10,5026 }, {  11,5026 }, {  12,5026 },
  {  13,5026 }, {  14,5026 }, {  15,5026 }, {  16,5026 }, {  17,5026 },
@@ -2180,7 +2180,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 243,5026 }, { 244,5026 }, { 245,5026 }, { 246,5026 }, { 247,5026 },
  { 248,5026 }, { 249,5026 }, { 250,5026 }, { 251,5026 }, { 252,5026 },
  { 253,5026 }, { 254,5026 }, { 255,5026 }, { 256,5026 }, {   0,  14 },
- {   0,16095 }, {   1,5542 }, {   2,5542 }, {   3,5542 }, {   4,5542 },
+ {   0,16259 }, {   1,5542 }, {   2,5542 }, {   3,5542 }, {   4,5542 },
  {   5,5542 }, {   6,5542 }, {   7,5542 }, {   8,5542 }, {   9,5542 },
  {  10,5542 }, {  11,5542 }, {  12,5542 }, {  13,5542 }, {  14,5542 },
  {  15,5542 }, {  16,5542 }, {  17,5542 }, {  18,5542 }, {  19,5542 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 240,5542 }, { 241,5542 }, { 242,5542 }, { 243,5542 }, { 244,5542 },
  { 245,5542 }, { 246,5542 }, { 247,5542 }, { 248,5542 }, { 249,5542 },
  { 250,5542 }, { 251,5542 }, { 252,5542 }, { 253,5542 }, { 254,5542 },
- { 255,5542 }, { 256,5542 }, {   0,  14 }, {   0,15837 }, {   1,5284 },
+ { 255,5542 }, { 256,5542 }, {   0,  14 }, {   0,16001 }, {   1,5284 },
  {   2,5284 }, {   3,5284 }, {   4,5284 }, {   5,5284 }, {   6,5284 },
  {   7,5284 }, {   8,5284 }, {   9,5284 }, {  10,5284 }, {  11,5284 },
 
@@ -2293,7 +2293,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,5284 }, { 243,5284 }, { 244,5284 }, { 245,5284 }, { 246,5284 },
  { 247,5284 }, { 248,5284 }, { 249,5284 }, { 250,5284 }, { 251,5284 },
  { 252,5284 }, { 253,5284 }, { 254,5284 }, { 255,5284 }, { 256,5284 },
- {   0,  10 }, {   0,15579 }, {   1,5542 }, {   2,5542 }, {   3,5542 },
+ {   0,  10 }, {   0,15743 }, {   1,5542 }, {   2,5542 }, {   3,5542 },
 
  {   4,5542 }, {   5,5542 }, {   6,5542 }, {   7,5542 }, {   8,5542 },
  {   9,5542 }, {  10,5542 }, {  11,5542 }, {  12,5542 }, {  13,5542 },
@@ -2350,8 +2350,8 @@ static const struct yy_trans_info yy_transition[23530] =
  { 244,5542 }, { 245,5542 }, { 246,5542 }, { 247,5542 }, { 248,5542 },
  { 249,5542 }, { 250,5542 }, { 251,5542 }, { 252,5542 }, { 253,5542 },
 
- { 254,5542 }, { 255,5542 }, { 256,5542 }, {   0,  11 }, {   0,15321 },
- {   0,   2 }, {   0,15319 }, {   0,   0 }, {   0,15317 }, {   0,   0 },
+ { 254,5542 }, { 255,5542 }, { 256,5542 }, {   0,  11 }, {   0,15485 },
+ {   0,   2 }, {   0,15483 }, {   0,   0 }, {   0,15481 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2377,7 +2377,7 @@ static const struct yy_trans_info yy_transition[23530] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,5542 }, {   0,   2 }, {   0,15196 },
+ {   0,   0 }, {   0,   0 }, { 123,5542 }, {   0,   2 }, {   0,15360 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 },
  {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 },
@@ -2434,14 +2434,14 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,14938 }, {   0,   0 }, {   0,14936 },
- {   0,   5 }, {   0,14934 }, {   0,  49 }, {   0,14932 }, {   0,   0 },
+ { 256,   0 }, {   0,   0 }, {   0,15102 }, {   0,   0 }, {   0,15100 },
+ {   0,   5 }, {   0,15098 }, {   0,  49 }, {   0,15096 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,14907 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,15071 }, {   1,   0 },
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
  {  12,   0 }, {  13, -25 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
@@ -2498,15 +2498,15 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  36 }, {   0,14649 }, {   0,  39 }, {   0,14647 }, {   0,  40 },
- {   0,14645 }, {   0,  34 }, {   0,14643 }, {   0,  33 }, {   0,14641 },
- {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,14637 }, {  13,   0 },
- {   0,  50 }, {   0,14634 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  36 }, {   0,14813 }, {   0,  39 }, {   0,14811 }, {   0,  40 },
+ {   0,14809 }, {   0,  34 }, {   0,14807 }, {   0,  33 }, {   0,14805 },
+ {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,14801 }, {  13,   0 },
+ {   0,  50 }, {   0,14798 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,14615 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,14779 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2562,7 +2562,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14357 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14521 }, {   1,-258 },
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
  {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
@@ -2619,7 +2619,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,14099 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,14263 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2675,7 +2675,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,13841 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14005 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2732,7 +2732,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,13583 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,13747 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
 
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
@@ -2790,7 +2790,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
 
- {   0,13325 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,13489 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2802,7 +2802,7 @@ static const struct yy_trans_info yy_transition[23530] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,4449 }, {  49,4449 },
 
  {  50,4449 }, {  51,4449 }, {  52,4449 }, {  53,4449 }, {  54,4449 },
- {  55,4449 }, {  56,4449 }, {  57,4449 }, {   0,   0 }, {   0,13266 },
+ {  55,4449 }, {  56,4449 }, {  57,4449 }, {   0,   0 }, {   0,13430 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
  {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
@@ -2859,7 +2859,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,13008 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,13172 }, {   1,-258 }, {   2,-258 },
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
  {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
@@ -2916,7 +2916,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,12750 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   0,12914 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,4260 },
  {  10,4260 }, {  11,-2157 }, {  12,-2157 }, {  13,4260 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
@@ -2972,7 +2972,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 240,-2157 }, { 241,-2157 }, { 242,-2157 }, { 243,-2157 }, { 244,-2157 },
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,12492 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,12656 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -3029,7 +3029,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,12234 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,12398 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
 
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
@@ -3085,7 +3085,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,11976 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,12140 },
 
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
@@ -3143,7 +3143,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
 
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,11718 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,11882 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
  {  13,-3214 }, {  14,-3189 }, {  15,-3189 }, {  16,-3189 }, {  17,-3189 },
@@ -3200,8 +3200,8 @@ static const struct yy_trans_info yy_transition[23530] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
- {   0,11460 }, {   0,  38 }, {   0,11458 }, {   0,   0 }, {   0,11456 },
- {   0,   0 }, {   0,11454 }, {   0,  13 }, {   0,11452 }, {   9,4062 },
+ {   0,11624 }, {   0,  38 }, {   0,11622 }, {   0,   0 }, {   0,11620 },
+ {   0,   0 }, {   0,11618 }, {   0,  13 }, {   0,11616 }, {   9,4062 },
  {  10,4062 }, {   0,   0 }, {   0,   0 }, {  13,4062 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3228,7 +3228,7 @@ static const struct yy_trans_info yy_transition[23530] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2998 }, {   0,   0 },
  {   0,   0 }, { 126,4070 }, { 125,2999 }, {   0,   0 }, { 125,3024 },
- {   0,   0 }, { 125,3058 }, {   0,   0 }, {   0,11327 }, {   1,   0 },
+ {   0,   0 }, { 125,3058 }, {   0,   0 }, {   0,11491 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
@@ -3286,7 +3286,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,11069 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
+ {   0,   0 }, {   0,11233 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
  {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 },
  {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 },
  {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 },
@@ -3342,7 +3342,7 @@ static const struct yy_trans_info yy_transition[23530] =
 
  { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 },
  { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 },
- { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,10811 },
+ { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,10975 },
  {   1,3546 }, {   2,3546 }, {   3,3546 }, {   4,3546 }, {   5,3546 },
  {   6,3546 }, {   7,3546 }, {   8,3546 }, {   9,3546 }, {  10,3546 },
  {  11,3546 }, {  12,3546 }, {  13,3546 }, {  14,3546 }, {  15,3546 },
@@ -3399,7 +3399,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,3546 }, { 242,3546 }, { 243,3546 }, { 244,3546 }, { 245,3546 },
  { 246,3546 }, { 247,3546 }, { 248,3546 }, { 249,3546 }, { 250,3546 },
  { 251,3546 }, { 252,3546 }, { 253,3546 }, { 254,3546 }, { 255,3546 },
- { 256,3546 }, {   0,   0 }, {   0,10553 }, {   1,   0 }, {   2,   0 },
+ { 256,3546 }, {   0,   0 }, {   0,10717 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
  {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
@@ -3456,7 +3456,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
  { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0,10295 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   0,10459 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
  {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
  {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
  {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
@@ -3512,7 +3512,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
  { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
  { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
- { 255,-258 }, { 256,-258 }, {   0,  10 }, {   0,10037 }, {   1,   0 },
+ { 255,-258 }, { 256,-258 }, {   0,  10 }, {   0,10201 }, {   1,   0 },
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
 
@@ -3569,11 +3569,11 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,9779 }, {   0,   0 }, {   0,9777 }, {   0,   0 },
+ {   0,   0 }, {   0,9943 }, {   0,   0 }, {   0,9941 }, {   0,   0 },
 
- {   0,9775 }, {   0,   5 }, {   0,9773 }, {   0,  30 }, {   0,9771 },
- {   0,  21 }, {   0,9769 }, {   0,  28 }, {   0,9767 }, {   0,  31 },
- {   0,9765 }, {   0,  22 }, {   0,9763 }, {   0,  19 }, {   0,9761 },
+ {   0,9939 }, {   0,   5 }, {   0,9937 }, {   0,  30 }, {   0,9935 },
+ {   0,  21 }, {   0,9933 }, {   0,  28 }, {   0,9931 }, {   0,  31 },
+ {   0,9929 }, {   0,  22 }, {   0,9927 }, {   0,  19 }, {   0,9925 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3594,11 +3594,11 @@ static const struct yy_trans_info yy_transition[23530] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,9666 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,9830 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2387 },
  {   0,   0 }, { 123,3544 }, {   0,   0 }, { 123,3544 }, {   0,   4 },
- {   0,9650 }, {   1,3544 }, {   2,3544 }, {   3,3544 }, {   4,3544 },
+ {   0,9814 }, {   1,3544 }, {   2,3544 }, {   3,3544 }, {   4,3544 },
  {   5,3544 }, {   6,3544 }, {   7,3544 }, {   8,3544 }, {   9,3544 },
  {  10,3421 }, {  11,3544 }, {  12,3544 }, {  13,3421 }, {  14,3544 },
  {  15,3544 }, {  16,3544 }, {  17,3544 }, {  18,3544 }, {  19,3544 },
@@ -3654,7 +3654,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 240,3544 }, { 241,3544 }, { 242,3544 }, { 243,3544 }, { 244,3544 },
  { 245,3544 }, { 246,3544 }, { 247,3544 }, { 248,3544 }, { 249,3544 },
  { 250,3544 }, { 251,3544 }, { 252,3544 }, { 253,3544 }, { 254,3544 },
- { 255,3544 }, { 256,3544 }, {   0,  39 }, {   0,9392 }, {   1,-5223 },
+ { 255,3544 }, { 256,3544 }, {   0,  39 }, {   0,9556 }, {   1,-5223 },
  {   2,-5223 }, {   3,-5223 }, {   4,-5223 }, {   5,-5223 }, {   6,-5223 },
  {   7,-5223 }, {   8,-5223 }, {   9,-5223 }, {  10,-5223 }, {  11,-5223 },
  {  12,-5223 }, {  13,-5223 }, {  14,-5223 }, {  15,-5223 }, {  16,-5223 },
@@ -3711,7 +3711,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,-5223 }, { 243,-5223 }, { 244,-5223 }, { 245,-5223 }, { 246,-5223 },
  { 247,-5223 }, { 248,-5223 }, { 249,-5223 }, { 250,-5223 }, { 251,-5223 },
  { 252,-5223 }, { 253,-5223 }, { 254,-5223 }, { 255,-5223 }, { 256,-5223 },
- {   0,  40 }, {   0,9134 }, {   1,-4965 }, {   2,-4965 }, {   3,-4965 },
+ {   0,  40 }, {   0,9298 }, {   1,-4965 }, {   2,-4965 }, {   3,-4965 },
  {   4,-4965 }, {   5,-4965 }, {   6,-4965 }, {   7,-4965 }, {   8,-4965 },
 
  {   9,-4965 }, {  10,-4965 }, {  11,-4965 }, {  12,-4965 }, {  13,-4965 },
@@ -3767,7 +3767,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 239,-4965 }, { 240,-4965 }, { 241,-4965 }, { 242,-4965 }, { 243,-4965 },
  { 244,-4965 }, { 245,-4965 }, { 246,-4965 }, { 247,-4965 }, { 248,-4965 },
  { 249,-4965 }, { 250,-4965 }, { 251,-4965 }, { 252,-4965 }, { 253,-4965 },
- { 254,-4965 }, { 255,-4965 }, { 256,-4965 }, {   0,   0 }, {   0,8876 },
+ { 254,-4965 }, { 255,-4965 }, { 256,-4965 }, {   0,   0 }, {   0,9040 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,2649 }, {  10,2649 },
@@ -3796,7 +3796,7 @@ static const struct yy_trans_info yy_transition[23530] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2649 },
- { 126,2649 }, {   0,  50 }, {   0,8748 }, {   1,-4518 }, {   2,-4518 },
+ { 126,2649 }, {   0,  50 }, {   0,8912 }, {   1,-4518 }, {   2,-4518 },
  {   3,-4518 }, {   4,-4518 }, {   5,-4518 }, {   6,-4518 }, {   7,-4518 },
  {   8,-4518 }, {   9,-4518 }, {  10,-4518 }, {  11,-4518 }, {  12,-4518 },
  {  13,-4518 }, {  14,-4518 }, {  15,-4518 }, {  16,-4518 }, {  17,-4518 },
@@ -3853,27 +3853,27 @@ static const struct yy_trans_info yy_transition[23530] =
  { 243,-4518 }, { 244,-4518 }, { 245,-4518 }, { 246,-4518 }, { 247,-4518 },
  { 248,-4518 }, { 249,-4518 }, { 250,-4518 }, { 251,-4518 }, { 252,-4518 },
  { 253,-4518 }, { 254,-4518 }, { 255,-4518 }, { 256,-4518 }, {   0,  49 },
- {   0,8490 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,8654 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,2900 },
  {  10,2900 }, {   0,   0 }, {   0,   0 }, {  13,2900 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,  27 }, {   0,8462 }, {   0,   0 },
- {   0,  37 }, {   0,8459 }, {  32,2900 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,  27 }, {   0,8626 }, {   0,   0 },
+ {   0,  37 }, {   0,8623 }, {  32,2900 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,8432 }, {   0,   0 },
- {   0,8430 }, {   1,-6477 }, {   2,-6477 }, {   3,-6477 }, {   4,-6477 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,8596 }, {   0,   0 },
+ {   0,8594 }, {   1,-6477 }, {   2,-6477 }, {   3,-6477 }, {   4,-6477 },
 
  {   5,-6477 }, {   6,-6477 }, {   7,-6477 }, {   8,-6477 }, {   9,-6502 },
  {  10,-6502 }, {  11,-6477 }, {  12,-6477 }, {  13,-6502 }, {  14,-6477 },
  {  15,-6477 }, {  16,-6477 }, {  17,-6477 }, {  18,-6477 }, {  19,-6477 },
  {  20,-6477 }, {  21,-6477 }, {  22,-6477 }, {  23,-6477 }, {  24,-6477 },
  {  25,-6477 }, {  26,-6477 }, {  27,-6477 }, {  28,-6477 }, {  29,-6477 },
- {  30,-6477 }, {  31,-6477 }, {  32,-6502 }, {   0,  38 }, {   0,8396 },
+ {  30,-6477 }, {  31,-6477 }, {  32,-6502 }, {   0,  38 }, {   0,8560 },
  {   0,   0 }, {  36,-6477 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-6502 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  45,-6477 }, {  46,-6502 }, {  47,-6502 }, {  48,-6477 }, {  49,-6477 },
@@ -3923,7 +3923,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 245,-6477 }, { 246,-6477 }, { 247,-6477 }, { 248,-6477 }, { 249,-6477 },
  { 250,-6477 }, { 251,-6477 }, { 252,-6477 }, { 253,-6477 }, { 254,-6477 },
 
- { 255,-6477 }, { 256,-6477 }, {   0,   0 }, {   0,8172 }, {   1,-6735 },
+ { 255,-6477 }, { 256,-6477 }, {   0,   0 }, {   0,8336 }, {   1,-6735 },
  {   2,-6735 }, {   3,-6735 }, {   4,-6735 }, {   5,-6735 }, {   6,-6735 },
  {   7,-6735 }, {   8,-6735 }, {   9,-6760 }, {  10,-6760 }, {  11,-6735 },
  {  12,-6735 }, {  13,-6760 }, {  14,-6735 }, {  15,-6735 }, {  16,-6735 },
@@ -3980,7 +3980,7 @@ static const struct yy_trans_info yy_transition[23530] =
 
  { 247,-6735 }, { 248,-6735 }, { 249,-6735 }, { 250,-6735 }, { 251,-6735 },
  { 252,-6735 }, { 253,-6735 }, { 254,-6735 }, { 255,-6735 }, { 256,-6735 },
- {   0,   0 }, {   0,7914 }, {   1,-6993 }, {   2,-6993 }, {   3,-6993 },
+ {   0,   0 }, {   0,8078 }, {   1,-6993 }, {   2,-6993 }, {   3,-6993 },
  {   4,-6993 }, {   5,-6993 }, {   6,-6993 }, {   7,-6993 }, {   8,-6993 },
  {   9,-7018 }, {  10,-7018 }, {  11,-6993 }, {  12,-6993 }, {  13,-7018 },
  {  14,-6993 }, {  15,-6993 }, {  16,-6993 }, {  17,-6993 }, {  18,-6993 },
@@ -4036,7 +4036,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 239,-6993 }, { 240,-6993 }, { 241,-6993 }, { 242,-6993 }, { 243,-6993 },
  { 244,-6993 }, { 245,-6993 }, { 246,-6993 }, { 247,-6993 }, { 248,-6993 },
  { 249,-6993 }, { 250,-6993 }, { 251,-6993 }, { 252,-6993 }, { 253,-6993 },
- { 254,-6993 }, { 255,-6993 }, { 256,-6993 }, {   0,   0 }, {   0,7656 },
+ { 254,-6993 }, { 255,-6993 }, { 256,-6993 }, {   0,   0 }, {   0,7820 },
  {   1,-7251 }, {   2,-7251 }, {   3,-7251 }, {   4,-7251 }, {   5,-7251 },
  {   6,-7251 }, {   7,-7251 }, {   8,-7251 }, {   9,-7276 }, {  10,-7276 },
  {  11,-7251 }, {  12,-7251 }, {  13,-7276 }, {  14,-7251 }, {  15,-7251 },
@@ -4093,9 +4093,9 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,-7251 }, { 242,-7251 }, { 243,-7251 }, { 244,-7251 }, { 245,-7251 },
  { 246,-7251 }, { 247,-7251 }, { 248,-7251 }, { 249,-7251 }, { 250,-7251 },
  { 251,-7251 }, { 252,-7251 }, { 253,-7251 }, { 254,-7251 }, { 255,-7251 },
- { 256,-7251 }, {   0,   0 }, {   0,7398 }, {   0,  25 }, {   0,7396 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,7392 }, {   0,  31 },
- {   0,7390 }, {   9,   0 }, {  10,   0 }, {   9,2898 }, {  10,2898 },
+ { 256,-7251 }, {   0,   0 }, {   0,7562 }, {   0,  25 }, {   0,7560 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,7556 }, {   0,  31 },
+ {   0,7554 }, {   9,   0 }, {  10,   0 }, {   9,2898 }, {  10,2898 },
  {  13,   0 }, {   0,   0 }, {  13,2898 }, {   0,   0 }, {   9,  -8 },
  {  10,  -8 }, {   0,   0 }, {   0,   0 }, {  13,  -8 }, {   0,   0 },
 
@@ -4123,7 +4123,7 @@ static const struct yy_trans_info yy_transition[23530] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1257 },
  { 126,1832 }, { 123,3796 }, {   0,   0 }, { 123,1841 }, {   0,   0 },
- {   0,7265 }, {   1,2895 }, {   2,2895 }, {   3,2895 }, {   4,2895 },
+ {   0,7429 }, {   1,2895 }, {   2,2895 }, {   3,2895 }, {   4,2895 },
  {   5,2895 }, {   6,2895 }, {   7,2895 }, {   8,2895 }, {   9,2895 },
  {  10,2895 }, {  11,2895 }, {  12,2895 }, {  13,2895 }, {  14,2895 },
  {  15,2895 }, {  16,2895 }, {  17,2895 }, {  18,2895 }, {  19,2895 },
@@ -4179,7 +4179,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 240,2895 }, { 241,2895 }, { 242,2895 }, { 243,2895 }, { 244,2895 },
  { 245,2895 }, { 246,2895 }, { 247,2895 }, { 248,2895 }, { 249,2895 },
  { 250,2895 }, { 251,2895 }, { 252,2895 }, { 253,2895 }, { 254,2895 },
- { 255,2895 }, { 256,2895 }, {   0,   0 }, {   0,7007 }, {   1,-258 },
+ { 255,2895 }, { 256,2895 }, {   0,   0 }, {   0,7171 }, {   1,-258 },
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
  {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
@@ -4236,7 +4236,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,6749 }, {   1,-516 }, {   2,-516 }, {   3,-516 },
+ {   0,   0 }, {   0,6913 }, {   1,-516 }, {   2,-516 }, {   3,-516 },
  {   4,-516 }, {   5,-516 }, {   6,-516 }, {   7,-516 }, {   8,-516 },
  {   9,-516 }, {  10,-516 }, {  11,-516 }, {  12,-516 }, {  13,-516 },
  {  14,-516 }, {  15,-516 }, {  16,-516 }, {  17,-516 }, {  18,-516 },
@@ -4292,7 +4292,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 239,-516 }, { 240,-516 }, { 241,-516 }, { 242,-516 }, { 243,-516 },
  { 244,-516 }, { 245,-516 }, { 246,-516 }, { 247,-516 }, { 248,-516 },
  { 249,-516 }, { 250,-516 }, { 251,-516 }, { 252,-516 }, { 253,-516 },
- { 254,-516 }, { 255,-516 }, { 256,-516 }, {   0,   0 }, {   0,6491 },
+ { 254,-516 }, { 255,-516 }, { 256,-516 }, {   0,   0 }, {   0,6655 },
  {   1,-774 }, {   2,-774 }, {   3,-774 }, {   4,-774 }, {   5,-774 },
  {   6,-774 }, {   7,-774 }, {   8,-774 }, {   9,-774 }, {  10,-774 },
  {  11,-774 }, {  12,-774 }, {  13,-774 }, {  14,-774 }, {  15,-774 },
@@ -4349,11 +4349,11 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,-774 }, { 242,-774 }, { 243,-774 }, { 244,-774 }, { 245,-774 },
  { 246,-774 }, { 247,-774 }, { 248,-774 }, { 249,-774 }, { 250,-774 },
  { 251,-774 }, { 252,-774 }, { 253,-774 }, { 254,-774 }, { 255,-774 },
- { 256,-774 }, {   0,   0 }, {   0,6233 }, {   0,   1 }, {   0,6231 },
- {   0,   4 }, {   0,6229 }, {   0,  48 }, {   0,6227 }, {   0,  42 },
+ { 256,-774 }, {   0,   0 }, {   0,6397 }, {   0,   1 }, {   0,6395 },
+ {   0,   4 }, {   0,6393 }, {   0,  48 }, {   0,6391 }, {   0,  42 },
 
- {   0,6225 }, {   0,   0 }, {   0,6223 }, {   0,  21 }, {   0,6221 },
- {   0,   0 }, {  10,   0 }, {   0,  20 }, {   0,6217 }, {  13,   0 },
+ {   0,6389 }, {   0,   0 }, {   0,6387 }, {   0,  21 }, {   0,6385 },
+ {   0,   0 }, {  10,   0 }, {   0,  20 }, {   0,6381 }, {  13,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4370,14 +4370,14 @@ static const struct yy_trans_info yy_transition[23530] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,6139 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,6303 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 123,2895 }, {   0,   0 }, { 123,2895 }, {   0,   4 }, {   0,6106 },
+ { 123,2895 }, {   0,   0 }, { 123,2895 }, {   0,   4 }, {   0,6270 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 },
  {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 },
@@ -4434,7 +4434,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   4 }, {   0,5848 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   4 }, {   0,6012 }, {   1,-258 }, {   2,-258 },
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-381 }, {  11,-258 }, {  12,-258 },
  {  13,-381 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
@@ -4491,20 +4491,20 @@ static const struct yy_trans_info yy_transition[23530] =
  { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,5590 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,5754 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,   0 },
  {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,5564 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,5728 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,5553 }, {   0,  17 }, {   0,5551 },
- {   0,  27 }, {   0,5549 }, {   0,  18 }, {   0,5547 }, {   0,  37 },
- {   0,5545 }, {   0,  12 }, {   0,5543 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,5717 }, {   0,  17 }, {   0,5715 },
+ {   0,  27 }, {   0,5713 }, {   0,  18 }, {   0,5711 }, {   0,  37 },
+ {   0,5709 }, {   0,  12 }, {   0,5707 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,5530 }, {   1,-9377 }, {   2,-9377 }, {   3,-9377 }, {   4,-9377 },
+ {   0,5694 }, {   1,-9377 }, {   2,-9377 }, {   3,-9377 }, {   4,-9377 },
 
  {   5,-9377 }, {   6,-9377 }, {   7,-9377 }, {   8,-9377 }, {   9,-9402 },
  {  10,-9402 }, {  11,-9377 }, {  12,-9377 }, {  13,-9402 }, {  14,-9377 },
@@ -4561,7 +4561,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 245,-9377 }, { 246,-9377 }, { 247,-9377 }, { 248,-9377 }, { 249,-9377 },
  { 250,-9377 }, { 251,-9377 }, { 252,-9377 }, { 253,-9377 }, { 254,-9377 },
 
- { 255,-9377 }, { 256,-9377 }, {   0,   0 }, {   0,5272 }, {   1,-9635 },
+ { 255,-9377 }, { 256,-9377 }, {   0,   0 }, {   0,5436 }, {   1,-9635 },
  {   2,-9635 }, {   3,-9635 }, {   4,-9635 }, {   5,-9635 }, {   6,-9635 },
  {   7,-9635 }, {   8,-9635 }, {   9,1938 }, {  10,1938 }, {  11,-9635 },
  {  12,-9635 }, {  13,1938 }, {  14,-9635 }, {  15,-9635 }, {  16,-9635 },
@@ -4618,7 +4618,7 @@ static const struct yy_trans_info yy_transition[23530] =
 
  { 247,-9635 }, { 248,-9635 }, { 249,-9635 }, { 250,-9635 }, { 251,-9635 },
  { 252,-9635 }, { 253,-9635 }, { 254,-9635 }, { 255,-9635 }, { 256,-9635 },
- {   0,   0 }, {   0,5014 }, {   1,-9893 }, {   2,-9893 }, {   3,-9893 },
+ {   0,   0 }, {   0,5178 }, {   1,-9893 }, {   2,-9893 }, {   3,-9893 },
  {   4,-9893 }, {   5,-9893 }, {   6,-9893 }, {   7,-9893 }, {   8,-9893 },
  {   9,1682 }, {  10,1682 }, {  11,-9893 }, {  12,-9893 }, {  13,1682 },
  {  14,-9893 }, {  15,-9893 }, {  16,-9893 }, {  17,-9893 }, {  18,-9893 },
@@ -4674,7 +4674,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 239,-9893 }, { 240,-9893 }, { 241,-9893 }, { 242,-9893 }, { 243,-9893 },
  { 244,-9893 }, { 245,-9893 }, { 246,-9893 }, { 247,-9893 }, { 248,-9893 },
  { 249,-9893 }, { 250,-9893 }, { 251,-9893 }, { 252,-9893 }, { 253,-9893 },
- { 254,-9893 }, { 255,-9893 }, { 256,-9893 }, {   0,   0 }, {   0,4756 },
+ { 254,-9893 }, { 255,-9893 }, { 256,-9893 }, {   0,   0 }, {   0,4920 },
  {   1,-10151 }, {   2,-10151 }, {   3,-10151 }, {   4,-10151 }, {   5,-10151 },
  {   6,-10151 }, {   7,-10151 }, {   8,-10151 }, {   9,-10176 }, {  10,-10176 },
  {  11,-10151 }, {  12,-10151 }, {  13,-10176 }, {  14,-10151 }, {  15,-10151 },
@@ -4731,7 +4731,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,-10151 }, { 242,-10151 }, { 243,-10151 }, { 244,-10151 }, { 245,-10151 },
  { 246,-10151 }, { 247,-10151 }, { 248,-10151 }, { 249,-10151 }, { 250,-10151 },
  { 251,-10151 }, { 252,-10151 }, { 253,-10151 }, { 254,-10151 }, { 255,-10151 },
- { 256,-10151 }, {   0,   0 }, {   0,4498 }, {   0,   0 }, {   0,   0 },
+ { 256,-10151 }, {   0,   0 }, {   0,4662 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
  {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4760,7 +4760,7 @@ static const struct yy_trans_info yy_transition[23530] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, { 125,-1641 }, { 126,-1066 }, {   0,   0 },
- {   0,4370 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,4534 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -4816,7 +4816,7 @@ static const struct yy_trans_info yy_transition[23530] =
 
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4112 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4276 }, {   1,-258 },
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
  {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
@@ -4873,7 +4873,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,3854 }, {   1,1059 }, {   2,1059 }, {   3,1059 },
+ {   0,   0 }, {   0,4018 }, {   1,1059 }, {   2,1059 }, {   3,1059 },
  {   4,1059 }, {   5,1059 }, {   6,1059 }, {   7,1059 }, {   8,1059 },
  {   9,1059 }, {  10,1059 }, {  11,1059 }, {  12,1059 }, {  13,1059 },
  {  14,1059 }, {  15,1059 }, {  16,1059 }, {  17,1059 }, {  18,1059 },
@@ -4929,7 +4929,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 239,1059 }, { 240,1059 }, { 241,1059 }, { 242,1059 }, { 243,1059 },
  { 244,1059 }, { 245,1059 }, { 246,1059 }, { 247,1059 }, { 248,1059 },
  { 249,1059 }, { 250,1059 }, { 251,1059 }, { 252,1059 }, { 253,1059 },
- { 254,1059 }, { 255,1059 }, { 256,1059 }, {   0,   0 }, {   0,3596 },
+ { 254,1059 }, { 255,1059 }, { 256,1059 }, {   0,   0 }, {   0,3760 },
  {   1, 277 }, {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 },
  {   6, 277 }, {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 },
  {  11, 277 }, {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 },
@@ -4986,13 +4986,13 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241, 277 }, { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 },
  { 246, 277 }, { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 },
  { 251, 277 }, { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 },
- { 256, 277 }, {   0,   1 }, {   0,3338 }, {   0,   1 }, {   0,3336 },
- {   0,  47 }, {   0,3334 }, {   0,  44 }, {   0,3332 }, {   0,  29 },
- {   0,3330 }, {   0,  23 }, {   0,3328 }, {   0,   0 }, {   0,   0 },
+ { 256, 277 }, {   0,   1 }, {   0,3502 }, {   0,   1 }, {   0,3500 },
+ {   0,  47 }, {   0,3498 }, {   0,  44 }, {   0,3496 }, {   0,  29 },
+ {   0,3494 }, {   0,  23 }, {   0,3492 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3321 },
- {   0,   8 }, {   0,3319 }, {   0,   1 }, {   0,3317 }, {   0,  45 },
- {   0,3315 }, {   0,   0 }, {   0,3313 }, {   0,   0 }, {   0,3311 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3485 },
+ {   0,   8 }, {   0,3483 }, {   0,   1 }, {   0,3481 }, {   0,  45 },
+ {   0,3479 }, {   0,  26 }, {   0,3477 }, {   0,   0 }, {   0,3475 },
  {   1,-11596 }, {   2,-11596 }, {   3,-11596 }, {   4,-11596 }, {   5,-11596 },
  {   6,-11596 }, {   7,-11596 }, {   8,-11596 }, {   9,  -4 }, {  10,  -4 },
  {  11,-11596 }, {  12,-11596 }, {  13,  -4 }, {  14,-11596 }, {  15,-11596 },
@@ -5019,7 +5019,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 106,-11596 }, { 107,-11596 }, { 108,-11596 }, { 109,-11596 }, { 110,-11596 },
  { 111,-11596 }, { 112,-11596 }, { 113,-11596 }, { 114,-11596 }, { 115,-11596 },
  { 116,-11596 }, { 117,-11596 }, { 118,-11596 }, { 119,-11596 }, { 120,-11596 },
- { 121,-11596 }, { 122,-11596 }, { 125,2716 }, { 124,-11621 }, { 125,  -4 },
+ { 121,-11596 }, { 122,-11596 }, {   0,   0 }, { 124,-11621 }, { 125,  -4 },
  { 126,  -4 }, { 127,-11596 }, { 128,-11596 }, { 129,-11596 }, { 130,-11596 },
  { 131,-11596 }, { 132,-11596 }, { 133,-11596 }, { 134,-11596 }, { 135,-11596 },
 
@@ -5049,7 +5049,7 @@ static const struct yy_trans_info yy_transition[23530] =
  { 241,-11596 }, { 242,-11596 }, { 243,-11596 }, { 244,-11596 }, { 245,-11596 },
  { 246,-11596 }, { 247,-11596 }, { 248,-11596 }, { 249,-11596 }, { 250,-11596 },
  { 251,-11596 }, { 252,-11596 }, { 253,-11596 }, { 254,-11596 }, { 255,-11596 },
- { 256,-11596 }, {   0,   0 }, {   0,3053 }, {   1,-11854 }, {   2,-11854 },
+ { 256,-11596 }, {   0,   0 }, {   0,3217 }, {   1,-11854 }, {   2,-11854 },
  {   3,-11854 }, {   4,-11854 }, {   5,-11854 }, {   6,-11854 }, {   7,-11854 },
  {   8,-11854 }, {   9,-11879 }, {  10,-11879 }, {  11,-11854 }, {  12,-11854 },
  {  13,-11879 }, {  14,-11854 }, {  15,-11854 }, {  16,-11854 }, {  17,-11854 },
@@ -5106,63 +5106,63 @@ static const struct yy_trans_info yy_transition[23530] =
  { 243,-11854 }, { 244,-11854 }, { 245,-11854 }, { 246,-11854 }, { 247,-11854 },
  { 248,-11854 }, { 249,-11854 }, { 250,-11854 }, { 251,-11854 }, { 252,-11854 },
  { 253,-11854 }, { 254,-11854 }, { 255,-11854 }, { 256,-11854 }, {   0,   0 },
- {   0,2795 }, {   1,1160 }, {   2,1160 }, {   3,1160 }, {   4,1160 },
- {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 }, {   9,1160 },
- {  10,1160 }, {  11,1160 }, {  12,1160 }, {  13,1160 }, {  14,1160 },
- {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 }, {  19,1160 },
-
- {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 }, {  24,1160 },
- {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 }, {  29,1160 },
- {  30,1160 }, {  31,1160 }, {  32,1160 }, {  33,1160 }, {  34,1160 },
- {  35,1160 }, {  36,1160 }, {  37,1160 }, {  38,1160 }, {  39,1160 },
- {  40,1160 }, {  41,1160 }, {  42,1160 }, {  43,1160 }, {  44,1160 },
- {  45,1418 }, {  46,1160 }, {  47,1160 }, {  48,1160 }, {  49,1160 },
- {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 }, {  54,1160 },
- {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 }, {  59,1160 },
- {  60,1160 }, {  61,1160 }, {  62,1160 }, {  63,1160 }, {  64,1160 },
- {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 }, {  69,1160 },
-
- {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 }, {  74,1160 },
- {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 }, {  79,1160 },
- {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 }, {  84,1160 },
- {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 }, {  89,1160 },
- {  90,1160 }, {  91,1160 }, {  92,1160 }, {  93,1160 }, {  94,1160 },
- {  95,1160 }, {  96,1160 }, {  97,1160 }, {  98,1160 }, {  99,1160 },
- { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 }, { 104,1160 },
- { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 }, { 109,1160 },
- { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 }, { 114,1160 },
- { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 }, { 119,1160 },
-
- { 120,1160 }, { 121,1160 }, { 122,1160 }, { 123,1160 }, { 124,1160 },
- { 125,1160 }, { 126,1160 }, { 127,1160 }, { 128,1160 }, { 129,1160 },
- { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 }, { 134,1160 },
- { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 }, { 139,1160 },
- { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 }, { 144,1160 },
- { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 }, { 149,1160 },
- { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 }, { 154,1160 },
- { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 }, { 159,1160 },
- { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 }, { 164,1160 },
- { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 }, { 169,1160 },
-
- { 170,1160 }, { 171,1160 }, { 172,1160 }, { 173,1160 }, { 174,1160 },
- { 175,1160 }, { 176,1160 }, { 177,1160 }, { 178,1160 }, { 179,1160 },
- { 180,1160 }, { 181,1160 }, { 182,1160 }, { 183,1160 }, { 184,1160 },
- { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 }, { 189,1160 },
- { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 }, { 194,1160 },
- { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 }, { 199,1160 },
- { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 }, { 204,1160 },
- { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 }, { 209,1160 },
- { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 }, { 214,1160 },
- { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 }, { 219,1160 },
-
- { 220,1160 }, { 221,1160 }, { 222,1160 }, { 223,1160 }, { 224,1160 },
- { 225,1160 }, { 226,1160 }, { 227,1160 }, { 228,1160 }, { 229,1160 },
- { 230,1160 }, { 231,1160 }, { 232,1160 }, { 233,1160 }, { 234,1160 },
- { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 }, { 239,1160 },
- { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 }, { 244,1160 },
- { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 }, { 249,1160 },
- { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 }, { 254,1160 },
- { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,2537 }, {   1,-4728 },
+ {   0,2959 }, {   1,1290 }, {   2,1290 }, {   3,1290 }, {   4,1290 },
+ {   5,1290 }, {   6,1290 }, {   7,1290 }, {   8,1290 }, {   9,1290 },
+ {  10,1290 }, {  11,1290 }, {  12,1290 }, {  13,1290 }, {  14,1290 },
+ {  15,1290 }, {  16,1290 }, {  17,1290 }, {  18,1290 }, {  19,1290 },
+
+ {  20,1290 }, {  21,1290 }, {  22,1290 }, {  23,1290 }, {  24,1290 },
+ {  25,1290 }, {  26,1290 }, {  27,1290 }, {  28,1290 }, {  29,1290 },
+ {  30,1290 }, {  31,1290 }, {  32,1290 }, {  33,1290 }, {  34,1290 },
+ {  35,1290 }, {  36,1290 }, {  37,1290 }, {  38,1290 }, {  39,1290 },
+ {  40,1290 }, {  41,1290 }, {  42,1290 }, {  43,1290 }, {  44,1290 },
+ {  45,1548 }, {  46,1290 }, {  47,1290 }, {  48,1290 }, {  49,1290 },
+ {  50,1290 }, {  51,1290 }, {  52,1290 }, {  53,1290 }, {  54,1290 },
+ {  55,1290 }, {  56,1290 }, {  57,1290 }, {  58,1290 }, {  59,1290 },
+ {  60,1290 }, {  61,1290 }, {  62,1290 }, {  63,1290 }, {  64,1290 },
+ {  65,1290 }, {  66,1290 }, {  67,1290 }, {  68,1290 }, {  69,1290 },
+
+ {  70,1290 }, {  71,1290 }, {  72,1290 }, {  73,1290 }, {  74,1290 },
+ {  75,1290 }, {  76,1290 }, {  77,1290 }, {  78,1290 }, {  79,1290 },
+ {  80,1290 }, {  81,1290 }, {  82,1290 }, {  83,1290 }, {  84,1290 },
+ {  85,1290 }, {  86,1290 }, {  87,1290 }, {  88,1290 }, {  89,1290 },
+ {  90,1290 }, {  91,1290 }, {  92,1290 }, {  93,1290 }, {  94,1290 },
+ {  95,1290 }, {  96,1290 }, {  97,1290 }, {  98,1290 }, {  99,1290 },
+ { 100,1290 }, { 101,1290 }, { 102,1290 }, { 103,1290 }, { 104,1290 },
+ { 105,1290 }, { 106,1290 }, { 107,1290 }, { 108,1290 }, { 109,1290 },
+ { 110,1290 }, { 111,1290 }, { 112,1290 }, { 113,1290 }, { 114,1290 },
+ { 115,1290 }, { 116,1290 }, { 117,1290 }, { 118,1290 }, { 119,1290 },
+
+ { 120,1290 }, { 121,1290 }, { 122,1290 }, { 123,1290 }, { 124,1290 },
+ { 125,1290 }, { 126,1290 }, { 127,1290 }, { 128,1290 }, { 129,1290 },
+ { 130,1290 }, { 131,1290 }, { 132,1290 }, { 133,1290 }, { 134,1290 },
+ { 135,1290 }, { 136,1290 }, { 137,1290 }, { 138,1290 }, { 139,1290 },
+ { 140,1290 }, { 141,1290 }, { 142,1290 }, { 143,1290 }, { 144,1290 },
+ { 145,1290 }, { 146,1290 }, { 147,1290 }, { 148,1290 }, { 149,1290 },
+ { 150,1290 }, { 151,1290 }, { 152,1290 }, { 153,1290 }, { 154,1290 },
+ { 155,1290 }, { 156,1290 }, { 157,1290 }, { 158,1290 }, { 159,1290 },
+ { 160,1290 }, { 161,1290 }, { 162,1290 }, { 163,1290 }, { 164,1290 },
+ { 165,1290 }, { 166,1290 }, { 167,1290 }, { 168,1290 }, { 169,1290 },
+
+ { 170,1290 }, { 171,1290 }, { 172,1290 }, { 173,1290 }, { 174,1290 },
+ { 175,1290 }, { 176,1290 }, { 177,1290 }, { 178,1290 }, { 179,1290 },
+ { 180,1290 }, { 181,1290 }, { 182,1290 }, { 183,1290 }, { 184,1290 },
+ { 185,1290 }, { 186,1290 }, { 187,1290 }, { 188,1290 }, { 189,1290 },
+ { 190,1290 }, { 191,1290 }, { 192,1290 }, { 193,1290 }, { 194,1290 },
+ { 195,1290 }, { 196,1290 }, { 197,1290 }, { 198,1290 }, { 199,1290 },
+ { 200,1290 }, { 201,1290 }, { 202,1290 }, { 203,1290 }, { 204,1290 },
+ { 205,1290 }, { 206,1290 }, { 207,1290 }, { 208,1290 }, { 209,1290 },
+ { 210,1290 }, { 211,1290 }, { 212,1290 }, { 213,1290 }, { 214,1290 },
+ { 215,1290 }, { 216,1290 }, { 217,1290 }, { 218,1290 }, { 219,1290 },
+
+ { 220,1290 }, { 221,1290 }, { 222,1290 }, { 223,1290 }, { 224,1290 },
+ { 225,1290 }, { 226,1290 }, { 227,1290 }, { 228,1290 }, { 229,1290 },
+ { 230,1290 }, { 231,1290 }, { 232,1290 }, { 233,1290 }, { 234,1290 },
+ { 235,1290 }, { 236,1290 }, { 237,1290 }, { 238,1290 }, { 239,1290 },
+ { 240,1290 }, { 241,1290 }, { 242,1290 }, { 243,1290 }, { 244,1290 },
+ { 245,1290 }, { 246,1290 }, { 247,1290 }, { 248,1290 }, { 249,1290 },
+ { 250,1290 }, { 251,1290 }, { 252,1290 }, { 253,1290 }, { 254,1290 },
+ { 255,1290 }, { 256,1290 }, {   0,   0 }, {   0,2701 }, {   1,-4728 },
  {   2,-4728 }, {   3,-4728 }, {   4,-4728 }, {   5,-4728 }, {   6,-4728 },
  {   7,-4728 }, {   8,-4728 }, {   9,-4728 }, {  10,-4728 }, {  11,-4728 },
 
@@ -5219,64 +5219,64 @@ static const struct yy_trans_info yy_transition[23530] =
  { 242,-4728 }, { 243,-4728 }, { 244,-4728 }, { 245,-4728 }, { 246,-4728 },
  { 247,-4728 }, { 248,-4728 }, { 249,-4728 }, { 250,-4728 }, { 251,-4728 },
  { 252,-4728 }, { 253,-4728 }, { 254,-4728 }, { 255,-4728 }, { 256,-4728 },
- {   0,   0 }, {   0,2279 }, {   1,1160 }, {   2,1160 }, {   3,1160 },
-
- {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 },
- {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 }, {   0,   0 },
- {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 },
- {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 },
- {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 },
- {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 }, {  48,1160 },
- {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 },
-
- {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1160 },
- {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 },
- {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 },
- {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 },
- {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 },
- {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 },
- {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 }, {  98,1160 },
- {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 },
-
- { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 },
- { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 },
- { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 },
- { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 }, { 128,1160 },
- { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 },
- { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 },
- { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 },
- { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 },
- { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 },
-
- { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 },
- { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 },
- { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 },
- { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 }, { 173,1160 },
- { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 }, { 178,1160 },
- { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 }, { 183,1160 },
- { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 },
- { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 },
- { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 },
- { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 },
-
- { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 },
- { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 },
- { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 },
- { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 }, { 223,1160 },
- { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 }, { 228,1160 },
- { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 }, { 233,1160 },
- { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 },
- { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 },
- { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 },
- { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 },
-
- { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,2021 },
+ {   0,   0 }, {   0,2443 }, {   1,1290 }, {   2,1290 }, {   3,1290 },
+
+ {   4,1290 }, {   5,1290 }, {   6,1290 }, {   7,1290 }, {   8,1290 },
+ {   0,   0 }, {   0,   0 }, {  11,1290 }, {  12,1290 }, {   0,   0 },
+ {  14,1290 }, {  15,1290 }, {  16,1290 }, {  17,1290 }, {  18,1290 },
+ {  19,1290 }, {  20,1290 }, {  21,1290 }, {  22,1290 }, {  23,1290 },
+ {  24,1290 }, {  25,1290 }, {  26,1290 }, {  27,1290 }, {  28,1290 },
+ {  29,1290 }, {  30,1290 }, {  31,1290 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,1290 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,1290 }, {   0,   0 }, {   0,   0 }, {  48,1290 },
+ {  49,1290 }, {  50,1290 }, {  51,1290 }, {  52,1290 }, {  53,1290 },
+
+ {  54,1290 }, {  55,1290 }, {  56,1290 }, {  57,1290 }, {  58,1290 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1290 },
+ {   0,   0 }, {  65,1290 }, {  66,1290 }, {  67,1290 }, {  68,1290 },
+ {  69,1290 }, {  70,1290 }, {  71,1290 }, {  72,1290 }, {  73,1290 },
+ {  74,1290 }, {  75,1290 }, {  76,1290 }, {  77,1290 }, {  78,1290 },
+ {  79,1290 }, {  80,1290 }, {  81,1290 }, {  82,1290 }, {  83,1290 },
+ {  84,1290 }, {  85,1290 }, {  86,1290 }, {  87,1290 }, {  88,1290 },
+ {  89,1290 }, {  90,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,1290 }, {   0,   0 }, {  97,1290 }, {  98,1290 },
+ {  99,1290 }, { 100,1290 }, { 101,1290 }, { 102,1290 }, { 103,1290 },
+
+ { 104,1290 }, { 105,1290 }, { 106,1290 }, { 107,1290 }, { 108,1290 },
+ { 109,1290 }, { 110,1290 }, { 111,1290 }, { 112,1290 }, { 113,1290 },
+ { 114,1290 }, { 115,1290 }, { 116,1290 }, { 117,1290 }, { 118,1290 },
+ { 119,1290 }, { 120,1290 }, { 121,1290 }, { 122,1290 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1290 }, { 128,1290 },
+ { 129,1290 }, { 130,1290 }, { 131,1290 }, { 132,1290 }, { 133,1290 },
+ { 134,1290 }, { 135,1290 }, { 136,1290 }, { 137,1290 }, { 138,1290 },
+ { 139,1290 }, { 140,1290 }, { 141,1290 }, { 142,1290 }, { 143,1290 },
+ { 144,1290 }, { 145,1290 }, { 146,1290 }, { 147,1290 }, { 148,1290 },
+ { 149,1290 }, { 150,1290 }, { 151,1290 }, { 152,1290 }, { 153,1290 },
+
+ { 154,1290 }, { 155,1290 }, { 156,1290 }, { 157,1290 }, { 158,1290 },
+ { 159,1290 }, { 160,1290 }, { 161,1290 }, { 162,1290 }, { 163,1290 },
+ { 164,1290 }, { 165,1290 }, { 166,1290 }, { 167,1290 }, { 168,1290 },
+ { 169,1290 }, { 170,1290 }, { 171,1290 }, { 172,1290 }, { 173,1290 },
+ { 174,1290 }, { 175,1290 }, { 176,1290 }, { 177,1290 }, { 178,1290 },
+ { 179,1290 }, { 180,1290 }, { 181,1290 }, { 182,1290 }, { 183,1290 },
+ { 184,1290 }, { 185,1290 }, { 186,1290 }, { 187,1290 }, { 188,1290 },
+ { 189,1290 }, { 190,1290 }, { 191,1290 }, { 192,1290 }, { 193,1290 },
+ { 194,1290 }, { 195,1290 }, { 196,1290 }, { 197,1290 }, { 198,1290 },
+ { 199,1290 }, { 200,1290 }, { 201,1290 }, { 202,1290 }, { 203,1290 },
+
+ { 204,1290 }, { 205,1290 }, { 206,1290 }, { 207,1290 }, { 208,1290 },
+ { 209,1290 }, { 210,1290 }, { 211,1290 }, { 212,1290 }, { 213,1290 },
+ { 214,1290 }, { 215,1290 }, { 216,1290 }, { 217,1290 }, { 218,1290 },
+ { 219,1290 }, { 220,1290 }, { 221,1290 }, { 222,1290 }, { 223,1290 },
+ { 224,1290 }, { 225,1290 }, { 226,1290 }, { 227,1290 }, { 228,1290 },
+ { 229,1290 }, { 230,1290 }, { 231,1290 }, { 232,1290 }, { 233,1290 },
+ { 234,1290 }, { 235,1290 }, { 236,1290 }, { 237,1290 }, { 238,1290 },
+ { 239,1290 }, { 240,1290 }, { 241,1290 }, { 242,1290 }, { 243,1290 },
+ { 244,1290 }, { 245,1290 }, { 246,1290 }, { 247,1290 }, { 248,1290 },
+ { 249,1290 }, { 250,1290 }, { 251,1290 }, { 252,1290 }, { 253,1290 },
+
+ { 254,1290 }, { 255,1290 }, { 256,1290 }, {   0,   0 }, {   0,2185 },
  {   1,-12886 }, {   2,-12886 }, {   3,-12886 }, {   4,-12886 }, {   5,-12886 },
  {   6,-12886 }, {   7,-12886 }, {   8,-12886 }, {   9,-12911 }, {  10,-12911 },
  {  11,-12886 }, {  12,-12886 }, {  13,-12911 }, {  14,-12886 }, {  15,-12886 },
@@ -5300,7 +5300,7 @@ static const struct yy_trans_info yy_transition[23530] =
 
  {   0,   0 }, {  97,-12886 }, {  98,-12886 }, {  99,-12886 }, { 100,-12886 },
  { 101,-12886 }, { 102,-12886 }, { 103,-12886 }, { 104,-12886 }, { 105,-12886 },
- { 106,-12886 }, { 107,-12886 }, { 108,-12886 }, { 109,-12886 }, { 110,1160 },
+ { 106,-12886 }, { 107,-12886 }, { 108,-12886 }, { 109,-12886 }, { 110,1290 },
  { 111,-12886 }, { 112,-12886 }, { 113,-12886 }, { 114,-12886 }, { 115,-12886 },
  { 116,-12886 }, { 117,-12886 }, { 118,-12886 }, { 119,-12886 }, { 120,-12886 },
  { 121,-12886 }, { 122,-12886 }, {   0,   0 }, { 124,-12911 }, { 125,-12911 },
@@ -5333,395 +5333,431 @@ static const struct yy_trans_info yy_transition[23530] =
 
  { 246,-12886 }, { 247,-12886 }, { 248,-12886 }, { 249,-12886 }, { 250,-12886 },
  { 251,-12886 }, { 252,-12886 }, { 253,-12886 }, { 254,-12886 }, { 255,-12886 },
- { 256,-12886 }, {   0,  26 }, {   0,1763 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   9,1160 }, {  10,1160 }, {   0,   0 }, {   0,   0 },
- {  13,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 256,-12886 }, {   0,   0 }, {   0,1927 }, {   1,-1550 }, {   2,-1550 },
+ {   3,-1550 }, {   4,-1550 }, {   5,-1550 }, {   6,-1550 }, {   7,-1550 },
+ {   8,-1550 }, {   9,1290 }, {  10,1290 }, {  11,-1550 }, {  12,-1550 },
+ {  13,1290 }, {  14,-1550 }, {  15,-1550 }, {  16,-1550 }, {  17,-1550 },
+ {  18,-1550 }, {  19,-1550 }, {  20,-1550 }, {  21,-1550 }, {  22,-1550 },
+ {  23,-1550 }, {  24,-1550 }, {  25,-1550 }, {  26,-1550 }, {  27,-1550 },
+ {  28,-1550 }, {  29,-1550 }, {  30,-1550 }, {  31,-1550 }, {  32,1290 },
+ {  33,-1550 }, {  34,-1550 }, {  35,-1550 }, {  36,-1550 }, {  37,-1550 },
 
+ {  38,-1550 }, {  39,-1550 }, {  40,-1550 }, {  41,-1550 }, {  42,-1550 },
+ {  43,-1550 }, {  44,-1550 }, {  45,-1550 }, {  46,-1550 }, {  47,-1550 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  58,-1550 }, {  59,-1550 }, {  60,-1550 }, {  61,-1550 }, {  62,-1550 },
+ {  63,-1550 }, {  64,-1550 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  91,-1550 }, {  92,-1550 },
+ {  93,-1550 }, {  94,-1550 }, {   0,   0 }, {  96,-1550 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,-1550 }, { 126,1162 }, {   0,   0 },
- {   0,1635 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
+ { 123,-1550 }, { 124,-1550 }, { 125,1292 }, { 126,1294 }, { 127,-1550 },
+ { 128,-1550 }, { 129,-1550 }, { 130,-1550 }, { 131,-1550 }, { 132,-1550 },
+ { 133,-1550 }, { 134,-1550 }, { 135,-1550 }, { 136,-1550 }, { 137,-1550 },
 
+ { 138,-1550 }, { 139,-1550 }, { 140,-1550 }, { 141,-1550 }, { 142,-1550 },
+ { 143,-1550 }, { 144,-1550 }, { 145,-1550 }, { 146,-1550 }, { 147,-1550 },
+ { 148,-1550 }, { 149,-1550 }, { 150,-1550 }, { 151,-1550 }, { 152,-1550 },
+ { 153,-1550 }, { 154,-1550 }, { 155,-1550 }, { 156,-1550 }, { 157,-1550 },
+ { 158,-1550 }, { 159,-1550 }, { 160,-1550 }, { 161,-1550 }, { 162,-1550 },
+ { 163,-1550 }, { 164,-1550 }, { 165,-1550 }, { 166,-1550 }, { 167,-1550 },
+ { 168,-1550 }, { 169,-1550 }, { 170,-1550 }, { 171,-1550 }, { 172,-1550 },
+ { 173,-1550 }, { 174,-1550 }, { 175,-1550 }, { 176,-1550 }, { 177,-1550 },
+ { 178,-1550 }, { 179,-1550 }, { 180,-1550 }, { 181,-1550 }, { 182,-1550 },
+ { 183,-1550 }, { 184,-1550 }, { 185,-1550 }, { 186,-1550 }, { 187,-1550 },
+
+ { 188,-1550 }, { 189,-1550 }, { 190,-1550 }, { 191,-1550 }, { 192,-1550 },
+ { 193,-1550 }, { 194,-1550 }, { 195,-1550 }, { 196,-1550 }, { 197,-1550 },
+ { 198,-1550 }, { 199,-1550 }, { 200,-1550 }, { 201,-1550 }, { 202,-1550 },
+ { 203,-1550 }, { 204,-1550 }, { 205,-1550 }, { 206,-1550 }, { 207,-1550 },
+ { 208,-1550 }, { 209,-1550 }, { 210,-1550 }, { 211,-1550 }, { 212,-1550 },
+ { 213,-1550 }, { 214,-1550 }, { 215,-1550 }, { 216,-1550 }, { 217,-1550 },
+ { 218,-1550 }, { 219,-1550 }, { 220,-1550 }, { 221,-1550 }, { 222,-1550 },
+ { 223,-1550 }, { 224,-1550 }, { 225,-1550 }, { 226,-1550 }, { 227,-1550 },
+ { 228,-1550 }, { 229,-1550 }, { 230,-1550 }, { 231,-1550 }, { 232,-1550 },
+ { 233,-1550 }, { 234,-1550 }, { 235,-1550 }, { 236,-1550 }, { 237,-1550 },
+
+ { 238,-1550 }, { 239,-1550 }, { 240,-1550 }, { 241,-1550 }, { 242,-1550 },
+ { 243,-1550 }, { 244,-1550 }, { 245,-1550 }, { 246,-1550 }, { 247,-1550 },
+ { 248,-1550 }, { 249,-1550 }, { 250,-1550 }, { 251,-1550 }, { 252,-1550 },
+ { 253,-1550 }, { 254,-1550 }, { 255,-1550 }, { 256,-1550 }, {   0,   0 },
+ {   0,1669 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
  {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
  {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
+
  {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
  {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
  {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
  {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
  {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
  {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
-
  {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
  {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
  {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
  {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
+
  {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
  {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
  {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 }, {  94,   0 },
  {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
  { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
  { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
-
  { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
  { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
  { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
  { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
+
  { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
  { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
  { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
  { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
  { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
  { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
-
  { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
  { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
  { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
  { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
+
  { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
  { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
  { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
  { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
  { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
  { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
-
  { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
  { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
  { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
  { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
+
  { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
  { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1377 }, {   1,-258 },
-
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1411 }, {   1,-258 },
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
  {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
  {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
+
  {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
  {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
  {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 },
  {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
- {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-1160 }, {  46,-258 },
+ {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-1290 }, {  46,-258 },
  {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
-
  {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
  {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
  {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
  {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
+
  {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
  {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
  {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
  {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
  {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
  {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
-
  { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
  { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
  { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
  { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
+
  { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
  { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
  { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
  { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
  { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
  { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
-
  { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
  { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
  { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
  { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
+
  { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
  { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
  { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
  { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
  { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
  { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
-
  { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
  { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
  { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
  { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
+
  { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
  { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
  { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
  { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
  { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
-
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,1119 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,1153 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 },
+
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 },
+
  {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
- {   0,   0 }, { 125, 520 }, {   0,   0 }, { 127,   0 }, { 128,   0 },
+ {   0,   0 }, { 125, 522 }, {   0,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
-
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
-
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
-
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0, 861 },
- {   1,-14046 }, {   2,-14046 }, {   3,-14046 }, {   4,-14046 }, {   5,-14046 },
- {   6,-14046 }, {   7,-14046 }, {   8,-14046 }, {   9,-14071 }, {  10,-14071 },
- {  11,-14046 }, {  12,-14046 }, {  13,-14071 }, {  14,-14046 }, {  15,-14046 },
- {  16,-14046 }, {  17,-14046 }, {  18,-14046 }, {  19,-14046 }, {  20,-14046 },
- {  21,-14046 }, {  22,-14046 }, {  23,-14046 }, {  24,-14046 }, {  25,-14046 },
- {  26,-14046 }, {  27,-14046 }, {  28,-14046 }, {  29,-14046 }, {  30,-14046 },
- {  31,-14046 }, {  32,-14071 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  36,-14046 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-14071 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-14046 },
- {  46,-14071 }, {  47,-14071 }, {  48,-14046 }, {  49,-14046 }, {  50,-14046 },
- {  51,-14046 }, {  52,-14046 }, {  53,-14046 }, {  54,-14046 }, {  55,-14046 },
- {  56,-14046 }, {  57,-14046 }, {  58,-14046 }, {   0,   0 }, {   0,   0 },
- {  61,-14071 }, {   0,   0 }, {  63,-14046 }, {   0,   0 }, {  65,-14046 },
- {  66,-14046 }, {  67,-14046 }, {  68,-14046 }, {  69,-14046 }, {  70,-14046 },
- {  71,-14046 }, {  72,-14046 }, {  73,-14046 }, {  74,-14046 }, {  75,-14046 },
- {  76,-14046 }, {  77,-14046 }, {  78,-14046 }, {  79,-14046 }, {  80,-14046 },
- {  81,-14046 }, {  82,-14046 }, {  83,-14046 }, {  84,-14046 }, {  85,-14046 },
-
- {  86,-14046 }, {  87,-14046 }, {  88,-14046 }, {  89,-14046 }, {  90,-14046 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-14046 },
- {   0,   0 }, {  97,-14046 }, {  98,-14046 }, {  99,-14046 }, { 100,-14046 },
- { 101, 345 }, { 102,-14046 }, { 103,-14046 }, { 104,-14046 }, { 105,-14046 },
- { 106,-14046 }, { 107,-14046 }, { 108,-14046 }, { 109,-14046 }, { 110,-14046 },
- { 111,-14046 }, { 112,-14046 }, { 113,-14046 }, { 114,-14046 }, { 115,-14046 },
- { 116,-14046 }, { 117,-14046 }, { 118,-14046 }, { 119,-14046 }, { 120,-14046 },
- { 121,-14046 }, { 122,-14046 }, {   0,   0 }, { 124,-14071 }, { 125,-14071 },
- { 126,-14071 }, { 127,-14046 }, { 128,-14046 }, { 129,-14046 }, { 130,-14046 },
- { 131,-14046 }, { 132,-14046 }, { 133,-14046 }, { 134,-14046 }, { 135,-14046 },
-
- { 136,-14046 }, { 137,-14046 }, { 138,-14046 }, { 139,-14046 }, { 140,-14046 },
- { 141,-14046 }, { 142,-14046 }, { 143,-14046 }, { 144,-14046 }, { 145,-14046 },
- { 146,-14046 }, { 147,-14046 }, { 148,-14046 }, { 149,-14046 }, { 150,-14046 },
- { 151,-14046 }, { 152,-14046 }, { 153,-14046 }, { 154,-14046 }, { 155,-14046 },
- { 156,-14046 }, { 157,-14046 }, { 158,-14046 }, { 159,-14046 }, { 160,-14046 },
- { 161,-14046 }, { 162,-14046 }, { 163,-14046 }, { 164,-14046 }, { 165,-14046 },
- { 166,-14046 }, { 167,-14046 }, { 168,-14046 }, { 169,-14046 }, { 170,-14046 },
- { 171,-14046 }, { 172,-14046 }, { 173,-14046 }, { 174,-14046 }, { 175,-14046 },
- { 176,-14046 }, { 177,-14046 }, { 178,-14046 }, { 179,-14046 }, { 180,-14046 },
- { 181,-14046 }, { 182,-14046 }, { 183,-14046 }, { 184,-14046 }, { 185,-14046 },
-
- { 186,-14046 }, { 187,-14046 }, { 188,-14046 }, { 189,-14046 }, { 190,-14046 },
- { 191,-14046 }, { 192,-14046 }, { 193,-14046 }, { 194,-14046 }, { 195,-14046 },
- { 196,-14046 }, { 197,-14046 }, { 198,-14046 }, { 199,-14046 }, { 200,-14046 },
- { 201,-14046 }, { 202,-14046 }, { 203,-14046 }, { 204,-14046 }, { 205,-14046 },
- { 206,-14046 }, { 207,-14046 }, { 208,-14046 }, { 209,-14046 }, { 210,-14046 },
- { 211,-14046 }, { 212,-14046 }, { 213,-14046 }, { 214,-14046 }, { 215,-14046 },
- { 216,-14046 }, { 217,-14046 }, { 218,-14046 }, { 219,-14046 }, { 220,-14046 },
- { 221,-14046 }, { 222,-14046 }, { 223,-14046 }, { 224,-14046 }, { 225,-14046 },
- { 226,-14046 }, { 227,-14046 }, { 228,-14046 }, { 229,-14046 }, { 230,-14046 },
- { 231,-14046 }, { 232,-14046 }, { 233,-14046 }, { 234,-14046 }, { 235,-14046 },
-
- { 236,-14046 }, { 237,-14046 }, { 238,-14046 }, { 239,-14046 }, { 240,-14046 },
- { 241,-14046 }, { 242,-14046 }, { 243,-14046 }, { 244,-14046 }, { 245,-14046 },
- { 246,-14046 }, { 247,-14046 }, { 248,-14046 }, { 249,-14046 }, { 250,-14046 },
- { 251,-14046 }, { 252,-14046 }, { 253,-14046 }, { 254,-14046 }, { 255,-14046 },
- { 256,-14046 }, {   0,   0 }, {   0, 603 }, {   0,   0 }, {   0, 601 },
- {   0,   0 }, {   0, 599 }, {   0,  24 }, {   0, 597 }, {   0,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0, 895 },
+ {   1,-14176 }, {   2,-14176 }, {   3,-14176 }, {   4,-14176 }, {   5,-14176 },
+
+ {   6,-14176 }, {   7,-14176 }, {   8,-14176 }, {   9,-14201 }, {  10,-14201 },
+ {  11,-14176 }, {  12,-14176 }, {  13,-14201 }, {  14,-14176 }, {  15,-14176 },
+ {  16,-14176 }, {  17,-14176 }, {  18,-14176 }, {  19,-14176 }, {  20,-14176 },
+ {  21,-14176 }, {  22,-14176 }, {  23,-14176 }, {  24,-14176 }, {  25,-14176 },
+ {  26,-14176 }, {  27,-14176 }, {  28,-14176 }, {  29,-14176 }, {  30,-14176 },
+ {  31,-14176 }, {  32,-14201 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-14176 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-14201 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-14176 },
+ {  46,-14201 }, {  47,-14201 }, {  48,-14176 }, {  49,-14176 }, {  50,-14176 },
+ {  51,-14176 }, {  52,-14176 }, {  53,-14176 }, {  54,-14176 }, {  55,-14176 },
+
+ {  56,-14176 }, {  57,-14176 }, {  58,-14176 }, {   0,   0 }, {   0,   0 },
+ {  61,-14201 }, {   0,   0 }, {  63,-14176 }, {   0,   0 }, {  65,-14176 },
+ {  66,-14176 }, {  67,-14176 }, {  68,-14176 }, {  69,-14176 }, {  70,-14176 },
+ {  71,-14176 }, {  72,-14176 }, {  73,-14176 }, {  74,-14176 }, {  75,-14176 },
+ {  76,-14176 }, {  77,-14176 }, {  78,-14176 }, {  79,-14176 }, {  80,-14176 },
+ {  81,-14176 }, {  82,-14176 }, {  83,-14176 }, {  84,-14176 }, {  85,-14176 },
+ {  86,-14176 }, {  87,-14176 }, {  88,-14176 }, {  89,-14176 }, {  90,-14176 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-14176 },
+ {   0,   0 }, {  97,-14176 }, {  98,-14176 }, {  99,-14176 }, { 100,-14176 },
+ { 101, 345 }, { 102,-14176 }, { 103,-14176 }, { 104,-14176 }, { 105,-14176 },
+
+ { 106,-14176 }, { 107,-14176 }, { 108,-14176 }, { 109,-14176 }, { 110,-14176 },
+ { 111,-14176 }, { 112,-14176 }, { 113,-14176 }, { 114,-14176 }, { 115,-14176 },
+ { 116,-14176 }, { 117,-14176 }, { 118,-14176 }, { 119,-14176 }, { 120,-14176 },
+ { 121,-14176 }, { 122,-14176 }, {   0,   0 }, { 124,-14201 }, { 125,-14201 },
+ { 126,-14201 }, { 127,-14176 }, { 128,-14176 }, { 129,-14176 }, { 130,-14176 },
+ { 131,-14176 }, { 132,-14176 }, { 133,-14176 }, { 134,-14176 }, { 135,-14176 },
+ { 136,-14176 }, { 137,-14176 }, { 138,-14176 }, { 139,-14176 }, { 140,-14176 },
+ { 141,-14176 }, { 142,-14176 }, { 143,-14176 }, { 144,-14176 }, { 145,-14176 },
+ { 146,-14176 }, { 147,-14176 }, { 148,-14176 }, { 149,-14176 }, { 150,-14176 },
+ { 151,-14176 }, { 152,-14176 }, { 153,-14176 }, { 154,-14176 }, { 155,-14176 },
+
+ { 156,-14176 }, { 157,-14176 }, { 158,-14176 }, { 159,-14176 }, { 160,-14176 },
+ { 161,-14176 }, { 162,-14176 }, { 163,-14176 }, { 164,-14176 }, { 165,-14176 },
+ { 166,-14176 }, { 167,-14176 }, { 168,-14176 }, { 169,-14176 }, { 170,-14176 },
+ { 171,-14176 }, { 172,-14176 }, { 173,-14176 }, { 174,-14176 }, { 175,-14176 },
+ { 176,-14176 }, { 177,-14176 }, { 178,-14176 }, { 179,-14176 }, { 180,-14176 },
+ { 181,-14176 }, { 182,-14176 }, { 183,-14176 }, { 184,-14176 }, { 185,-14176 },
+ { 186,-14176 }, { 187,-14176 }, { 188,-14176 }, { 189,-14176 }, { 190,-14176 },
+ { 191,-14176 }, { 192,-14176 }, { 193,-14176 }, { 194,-14176 }, { 195,-14176 },
+ { 196,-14176 }, { 197,-14176 }, { 198,-14176 }, { 199,-14176 }, { 200,-14176 },
+ { 201,-14176 }, { 202,-14176 }, { 203,-14176 }, { 204,-14176 }, { 205,-14176 },
+
+ { 206,-14176 }, { 207,-14176 }, { 208,-14176 }, { 209,-14176 }, { 210,-14176 },
+ { 211,-14176 }, { 212,-14176 }, { 213,-14176 }, { 214,-14176 }, { 215,-14176 },
+ { 216,-14176 }, { 217,-14176 }, { 218,-14176 }, { 219,-14176 }, { 220,-14176 },
+ { 221,-14176 }, { 222,-14176 }, { 223,-14176 }, { 224,-14176 }, { 225,-14176 },
+ { 226,-14176 }, { 227,-14176 }, { 228,-14176 }, { 229,-14176 }, { 230,-14176 },
+ { 231,-14176 }, { 232,-14176 }, { 233,-14176 }, { 234,-14176 }, { 235,-14176 },
+ { 236,-14176 }, { 237,-14176 }, { 238,-14176 }, { 239,-14176 }, { 240,-14176 },
+ { 241,-14176 }, { 242,-14176 }, { 243,-14176 }, { 244,-14176 }, { 245,-14176 },
+ { 246,-14176 }, { 247,-14176 }, { 248,-14176 }, { 249,-14176 }, { 250,-14176 },
+ { 251,-14176 }, { 252,-14176 }, { 253,-14176 }, { 254,-14176 }, { 255,-14176 },
+
+ { 256,-14176 }, {   0,  26 }, {   0, 637 }, {   0,  26 }, {   0, 635 },
+ {   0,  26 }, {   0, 633 }, {   0,   0 }, {   0, 631 }, {   0,   0 },
+ {   0,   0 }, {   9, 345 }, {  10, 345 }, {   0,   0 }, {   0,   0 },
+ {  13, 345 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 616 }, {   0,   0 },
+ {   0,   0 }, {   0, 613 }, {   0,  24 }, {   0, 611 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32, 345 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0, 584 }, {   0,   0 }, {   0, 582 }, {   0,  46 }, {   0, 580 },
+ {   0,   9 }, {   0, 578 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 550 },
+ {   1,-14521 }, {   2,-14521 }, {   3,-14521 }, {   4,-14521 }, {   5,-14521 },
+ {   6,-14521 }, {   7,-14521 }, {   8,-14521 }, {   9,-14546 }, {  10,-14546 },
+
+ {  11,-14521 }, {  12,-14521 }, {  13,-14546 }, {  14,-14521 }, {  15,-14521 },
+ {  16,-14521 }, {  17,-14521 }, {  18,-14521 }, {  19,-14521 }, {  20,-14521 },
+ {  21,-14521 }, {  22,-14521 }, {  23,-14521 }, {  24,-14521 }, {  25,-14521 },
+ {  26,-14521 }, {  27,-14521 }, {  28,-14521 }, {  29,-14521 }, {  30,-14521 },
+ {  31,-14521 }, {  32,-14546 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-14521 }, {   0,   0 }, { 125,  21 }, { 126,  24 }, { 125,  24 },
+ {  41,-14546 }, { 125,  17 }, {   0,   0 }, { 125,  47 }, {  45,-14521 },
+ {  46,-14546 }, {  47,-14546 }, {  48,-14521 }, {  49,-14521 }, {  50,-14521 },
+ {  51,-14521 }, {  52,-14521 }, {  53,-14521 }, {  54,-14521 }, {  55,-14521 },
+ {  56,-14521 }, {  57,-14521 }, {  58,-14521 }, { 125,   5 }, {   0,   0 },
+
+ {  61,-14546 }, { 125,  -3 }, {  63,-14521 }, {   0,   0 }, {  65,-14521 },
+ {  66,-14521 }, {  67,-14521 }, {  68,-14521 }, {  69,-14521 }, {  70,-14521 },
+ {  71,-14521 }, {  72,-14521 }, {  73,-14521 }, {  74,-14521 }, {  75,-14521 },
+ {  76,-14521 }, {  77,-14521 }, {  78,-14521 }, {  79,-14521 }, {  80,-14521 },
+ {  81,-14521 }, {  82,-14521 }, {  83,-14521 }, {  84,-14521 }, {  85,-14521 },
+ {  86,-14521 }, {  87,-14521 }, {  88,-14521 }, {  89,-14521 }, {  90,-14521 },
+ { 125,   2 }, {   0,   0 }, { 125,   4 }, {   0,   0 }, {  95,-14521 },
+ {   0,   0 }, {  97,-14521 }, {  98,-14521 }, {  99,-14521 }, { 100, 292 },
+ { 101,-14521 }, { 102,-14521 }, { 103,-14521 }, { 104,-14521 }, { 105,-14521 },
+ { 106,-14521 }, { 107,-14521 }, { 108,-14521 }, { 109,-14521 }, { 110,-14521 },
+
+ { 111,-14521 }, { 112,-14521 }, { 113,-14521 }, { 114,-14521 }, { 115,-14521 },
+ { 116,-14521 }, { 117,-14521 }, { 118,-14521 }, { 119,-14521 }, { 120,-14521 },
+ { 121,-14521 }, { 122,-14521 }, {   0,   0 }, { 124,-14546 }, { 125,-14546 },
+ { 126,-14546 }, { 127,-14521 }, { 128,-14521 }, { 129,-14521 }, { 130,-14521 },
+ { 131,-14521 }, { 132,-14521 }, { 133,-14521 }, { 134,-14521 }, { 135,-14521 },
+ { 136,-14521 }, { 137,-14521 }, { 138,-14521 }, { 139,-14521 }, { 140,-14521 },
+ { 141,-14521 }, { 142,-14521 }, { 143,-14521 }, { 144,-14521 }, { 145,-14521 },
+ { 146,-14521 }, { 147,-14521 }, { 148,-14521 }, { 149,-14521 }, { 150,-14521 },
+ { 151,-14521 }, { 152,-14521 }, { 153,-14521 }, { 154,-14521 }, { 155,-14521 },
+ { 156,-14521 }, { 157,-14521 }, { 158,-14521 }, { 159,-14521 }, { 160,-14521 },
+
+ { 161,-14521 }, { 162,-14521 }, { 163,-14521 }, { 164,-14521 }, { 165,-14521 },
+ { 166,-14521 }, { 167,-14521 }, { 168,-14521 }, { 169,-14521 }, { 170,-14521 },
+ { 171,-14521 }, { 172,-14521 }, { 173,-14521 }, { 174,-14521 }, { 175,-14521 },
+ { 176,-14521 }, { 177,-14521 }, { 178,-14521 }, { 179,-14521 }, { 180,-14521 },
+ { 181,-14521 }, { 182,-14521 }, { 183,-14521 }, { 184,-14521 }, { 185,-14521 },
+ { 186,-14521 }, { 187,-14521 }, { 188,-14521 }, { 189,-14521 }, { 190,-14521 },
+ { 191,-14521 }, { 192,-14521 }, { 193,-14521 }, { 194,-14521 }, { 195,-14521 },
+ { 196,-14521 }, { 197,-14521 }, { 198,-14521 }, { 199,-14521 }, { 200,-14521 },
+ { 201,-14521 }, { 202,-14521 }, { 203,-14521 }, { 204,-14521 }, { 205,-14521 },
+ { 206,-14521 }, { 207,-14521 }, { 208,-14521 }, { 209,-14521 }, { 210,-14521 },
+
+ { 211,-14521 }, { 212,-14521 }, { 213,-14521 }, { 214,-14521 }, { 215,-14521 },
+ { 216,-14521 }, { 217,-14521 }, { 218,-14521 }, { 219,-14521 }, { 220,-14521 },
+ { 221,-14521 }, { 222,-14521 }, { 223,-14521 }, { 224,-14521 }, { 225,-14521 },
+ { 226,-14521 }, { 227,-14521 }, { 228,-14521 }, { 229,-14521 }, { 230,-14521 },
+ { 231,-14521 }, { 232,-14521 }, { 233,-14521 }, { 234,-14521 }, { 235,-14521 },
+ { 236,-14521 }, { 237,-14521 }, { 238,-14521 }, { 239,-14521 }, { 240,-14521 },
+ { 241,-14521 }, { 242,-14521 }, { 243,-14521 }, { 244,-14521 }, { 245,-14521 },
+ { 246,-14521 }, { 247,-14521 }, { 248,-14521 }, { 249,-14521 }, { 250,-14521 },
+ { 251,-14521 }, { 252,-14521 }, { 253,-14521 }, { 254,-14521 }, { 255,-14521 },
+ { 256,-14521 }, {   0,   0 }, {   0, 292 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
  {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 582 }, {   0,   0 },
- {   0,   0 }, {   0, 579 }, {   0,  46 }, {   0, 577 }, {   0,   9 },
-
- {   0, 575 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 516 },
- {   1,-14391 }, {   2,-14391 }, {   3,-14391 }, {   4,-14391 }, {   5,-14391 },
- {   6,-14391 }, {   7,-14391 }, {   8,-14391 }, {   9,-14416 }, {  10,-14416 },
- {  11,-14391 }, {  12,-14391 }, {  13,-14416 }, {  14,-14391 }, {  15,-14391 },
- {  16,-14391 }, {  17,-14391 }, {  18,-14391 }, {  19,-14391 }, {  20,-14391 },
- {  21,-14391 }, {  22,-14391 }, {  23,-14391 }, {  24,-14391 }, {  25,-14391 },
- {  26,-14391 }, {  27,-14391 }, {  28,-14391 }, {  29,-14391 }, {  30,-14391 },
- {  31,-14391 }, {  32,-14416 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-14391 }, {   0,   0 }, { 125,-2710 }, { 126,   2 }, { 125,-2712 },
-
- {  41,-14416 }, { 125,  17 }, {   0,   0 }, {   0,   0 }, {  45,-14391 },
- {  46,-14416 }, {  47,-14416 }, {  48,-14391 }, {  49,-14391 }, {  50,-14391 },
- {  51,-14391 }, {  52,-14391 }, {  53,-14391 }, {  54,-14391 }, {  55,-14391 },
- {  56,-14391 }, {  57,-14391 }, {  58,-14391 }, { 125,   3 }, {   0,   0 },
- {  61,-14416 }, { 125,   4 }, {  63,-14391 }, {   0,   0 }, {  65,-14391 },
- {  66,-14391 }, {  67,-14391 }, {  68,-14391 }, {  69,-14391 }, {  70,-14391 },
- {  71,-14391 }, {  72,-14391 }, {  73,-14391 }, {  74,-14391 }, {  75,-14391 },
- {  76,-14391 }, {  77,-14391 }, {  78,-14391 }, {  79,-14391 }, {  80,-14391 },
- {  81,-14391 }, {  82,-14391 }, {  83,-14391 }, {  84,-14391 }, {  85,-14391 },
- {  86,-14391 }, {  87,-14391 }, {  88,-14391 }, {  89,-14391 }, {  90,-14391 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-14391 },
- {   0,   0 }, {  97,-14391 }, {  98,-14391 }, {  99,-14391 }, { 100, 258 },
- { 101,-14391 }, { 102,-14391 }, { 103,-14391 }, { 104,-14391 }, { 105,-14391 },
- { 106,-14391 }, { 107,-14391 }, { 108,-14391 }, { 109,-14391 }, { 110,-14391 },
- { 111,-14391 }, { 112,-14391 }, { 113,-14391 }, { 114,-14391 }, { 115,-14391 },
- { 116,-14391 }, { 117,-14391 }, { 118,-14391 }, { 119,-14391 }, { 120,-14391 },
- { 121,-14391 }, { 122,-14391 }, {   0,   0 }, { 124,-14416 }, { 125,-14416 },
- { 126,-14416 }, { 127,-14391 }, { 128,-14391 }, { 129,-14391 }, { 130,-14391 },
- { 131,-14391 }, { 132,-14391 }, { 133,-14391 }, { 134,-14391 }, { 135,-14391 },
- { 136,-14391 }, { 137,-14391 }, { 138,-14391 }, { 139,-14391 }, { 140,-14391 },
-
- { 141,-14391 }, { 142,-14391 }, { 143,-14391 }, { 144,-14391 }, { 145,-14391 },
- { 146,-14391 }, { 147,-14391 }, { 148,-14391 }, { 149,-14391 }, { 150,-14391 },
- { 151,-14391 }, { 152,-14391 }, { 153,-14391 }, { 154,-14391 }, { 155,-14391 },
- { 156,-14391 }, { 157,-14391 }, { 158,-14391 }, { 159,-14391 }, { 160,-14391 },
- { 161,-14391 }, { 162,-14391 }, { 163,-14391 }, { 164,-14391 }, { 165,-14391 },
- { 166,-14391 }, { 167,-14391 }, { 168,-14391 }, { 169,-14391 }, { 170,-14391 },
- { 171,-14391 }, { 172,-14391 }, { 173,-14391 }, { 174,-14391 }, { 175,-14391 },
- { 176,-14391 }, { 177,-14391 }, { 178,-14391 }, { 179,-14391 }, { 180,-14391 },
- { 181,-14391 }, { 182,-14391 }, { 183,-14391 }, { 184,-14391 }, { 185,-14391 },
- { 186,-14391 }, { 187,-14391 }, { 188,-14391 }, { 189,-14391 }, { 190,-14391 },
-
- { 191,-14391 }, { 192,-14391 }, { 193,-14391 }, { 194,-14391 }, { 195,-14391 },
- { 196,-14391 }, { 197,-14391 }, { 198,-14391 }, { 199,-14391 }, { 200,-14391 },
- { 201,-14391 }, { 202,-14391 }, { 203,-14391 }, { 204,-14391 }, { 205,-14391 },
- { 206,-14391 }, { 207,-14391 }, { 208,-14391 }, { 209,-14391 }, { 210,-14391 },
- { 211,-14391 }, { 212,-14391 }, { 213,-14391 }, { 214,-14391 }, { 215,-14391 },
- { 216,-14391 }, { 217,-14391 }, { 218,-14391 }, { 219,-14391 }, { 220,-14391 },
- { 221,-14391 }, { 222,-14391 }, { 223,-14391 }, { 224,-14391 }, { 225,-14391 },
- { 226,-14391 }, { 227,-14391 }, { 228,-14391 }, { 229,-14391 }, { 230,-14391 },
- { 231,-14391 }, { 232,-14391 }, { 233,-14391 }, { 234,-14391 }, { 235,-14391 },
- { 236,-14391 }, { 237,-14391 }, { 238,-14391 }, { 239,-14391 }, { 240,-14391 },
-
- { 241,-14391 }, { 242,-14391 }, { 243,-14391 }, { 244,-14391 }, { 245,-14391 },
- { 246,-14391 }, { 247,-14391 }, { 248,-14391 }, { 249,-14391 }, { 250,-14391 },
- { 251,-14391 }, { 252,-14391 }, { 253,-14391 }, { 254,-14391 }, { 255,-14391 },
- { 256,-14391 }, {   0,   0 }, {   0, 258 }, {   1,-14649 }, {   2,-14649 },
- {   3,-14649 }, {   4,-14649 }, {   5,-14649 }, {   6,-14649 }, {   7,-14649 },
- {   8,-14649 }, {   9,-319 }, {  10,-319 }, {  11,-14649 }, {  12,-14649 },
- {  13,-319 }, {  14,-14649 }, {  15,-14649 }, {  16,-14649 }, {  17,-14649 },
- {  18,-14649 }, {  19,-14649 }, {  20,-14649 }, {  21,-14649 }, {  22,-14649 },
- {  23,-14649 }, {  24,-14649 }, {  25,-14649 }, {  26,-14649 }, {  27,-14649 },
- {  28,-14649 }, {  29,-14649 }, {  30,-14649 }, {  31,-14649 }, {  32,-319 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-14649 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-319 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-14649 }, {  46,-14674 }, {  47,-14674 },
- {  48,-14649 }, {  49,-14649 }, {  50,-14649 }, {  51,-14649 }, {  52,-14649 },
- {  53,-14649 }, {  54,-14649 }, {  55,-14649 }, {  56,-14649 }, {  57,-14649 },
- {  58,-14649 }, {   0,   0 }, {   0,   0 }, {  61,-14674 }, {   0,   0 },
- {  63,-14649 }, {   0,   0 }, {  65,-14649 }, {  66,-14649 }, {  67,-14649 },
- {  68,-14649 }, {  69,-14649 }, {  70,-14649 }, {  71,-14649 }, {  72,-14649 },
- {  73,-14649 }, {  74,-14649 }, {  75,-14649 }, {  76,-14649 }, {  77,-14649 },
- {  78,-14649 }, {  79,-14649 }, {  80,-14649 }, {  81,-14649 }, {  82,-14649 },
-
- {  83,-14649 }, {  84,-14649 }, {  85,-14649 }, {  86,-14649 }, {  87,-14649 },
- {  88,-14649 }, {  89,-14649 }, {  90,-14649 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-14649 }, {   0,   0 }, {  97,-14649 },
- {  98,-14649 }, {  99,-14649 }, { 100,-14649 }, { 101,-14649 }, { 102,-14649 },
- { 103,-14649 }, { 104,-14649 }, { 105,-14649 }, { 106,-14649 }, { 107,-14649 },
- { 108,-14649 }, { 109,-14649 }, { 110,-14649 }, { 111,-14649 }, { 112,-14649 },
- { 113,-14649 }, { 114,-14649 }, { 115,-14649 }, { 116,-14649 }, { 117,-14649 },
- { 118,-14649 }, { 119,-14649 }, { 120,-14649 }, { 121,-14649 }, { 122,-14649 },
- {   0,   0 }, { 124,-14674 }, { 125,-319 }, { 126,-319 }, { 127,-14649 },
- { 128,-14649 }, { 129,-14649 }, { 130,-14649 }, { 131,-14649 }, { 132,-14649 },
-
- { 133,-14649 }, { 134,-14649 }, { 135,-14649 }, { 136,-14649 }, { 137,-14649 },
- { 138,-14649 }, { 139,-14649 }, { 140,-14649 }, { 141,-14649 }, { 142,-14649 },
- { 143,-14649 }, { 144,-14649 }, { 145,-14649 }, { 146,-14649 }, { 147,-14649 },
- { 148,-14649 }, { 149,-14649 }, { 150,-14649 }, { 151,-14649 }, { 152,-14649 },
- { 153,-14649 }, { 154,-14649 }, { 155,-14649 }, { 156,-14649 }, { 157,-14649 },
- { 158,-14649 }, { 159,-14649 }, { 160,-14649 }, { 161,-14649 }, { 162,-14649 },
- { 163,-14649 }, { 164,-14649 }, { 165,-14649 }, { 166,-14649 }, { 167,-14649 },
- { 168,-14649 }, { 169,-14649 }, { 170,-14649 }, { 171,-14649 }, { 172,-14649 },
- { 173,-14649 }, { 174,-14649 }, { 175,-14649 }, { 176,-14649 }, { 177,-14649 },
- { 178,-14649 }, { 179,-14649 }, { 180,-14649 }, { 181,-14649 }, { 182,-14649 },
-
- { 183,-14649 }, { 184,-14649 }, { 185,-14649 }, { 186,-14649 }, { 187,-14649 },
- { 188,-14649 }, { 189,-14649 }, { 190,-14649 }, { 191,-14649 }, { 192,-14649 },
- { 193,-14649 }, { 194,-14649 }, { 195,-14649 }, { 196,-14649 }, { 197,-14649 },
- { 198,-14649 }, { 199,-14649 }, { 200,-14649 }, { 201,-14649 }, { 202,-14649 },
- { 203,-14649 }, { 204,-14649 }, { 205,-14649 }, { 206,-14649 }, { 207,-14649 },
- { 208,-14649 }, { 209,-14649 }, { 210,-14649 }, { 211,-14649 }, { 212,-14649 },
- { 213,-14649 }, { 214,-14649 }, { 215,-14649 }, { 216,-14649 }, { 217,-14649 },
- { 218,-14649 }, { 219,-14649 }, { 220,-14649 }, { 221,-14649 }, { 222,-14649 },
- { 223,-14649 }, { 224,-14649 }, { 225,-14649 }, { 226,-14649 }, { 227,-14649 },
- { 228,-14649 }, { 229,-14649 }, { 230,-14649 }, { 231,-14649 }, { 232,-14649 },
-
- { 233,-14649 }, { 234,-14649 }, { 235,-14649 }, { 236,-14649 }, { 237,-14649 },
- { 238,-14649 }, { 239,-14649 }, { 240,-14649 }, { 241,-14649 }, { 242,-14649 },
- { 243,-14649 }, { 244,-14649 }, { 245,-14649 }, { 246,-14649 }, { 247,-14649 },
- { 248,-14649 }, { 249,-14649 }, { 250,-14649 }, { 251,-14649 }, { 252,-14649 },
- { 253,-14649 }, { 254,-14649 }, { 255,-14649 }, { 256,-14649 }, { 257,  53 },
- {   1,   0 },    };
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
+ {   0,   0 }, {   0, 258 }, {   1,-14813 }, {   2,-14813 }, {   3,-14813 },
+ {   4,-14813 }, {   5,-14813 }, {   6,-14813 }, {   7,-14813 }, {   8,-14813 },
+ {   9,-322 }, {  10,-322 }, {  11,-14813 }, {  12,-14813 }, {  13,-322 },
+ {  14,-14813 }, {  15,-14813 }, {  16,-14813 }, {  17,-14813 }, {  18,-14813 },
+
+ {  19,-14813 }, {  20,-14813 }, {  21,-14813 }, {  22,-14813 }, {  23,-14813 },
+ {  24,-14813 }, {  25,-14813 }, {  26,-14813 }, {  27,-14813 }, {  28,-14813 },
+ {  29,-14813 }, {  30,-14813 }, {  31,-14813 }, {  32,-322 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-14813 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-322 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-14813 }, {  46,-14838 }, {  47,-14838 }, {  48,-14813 },
+ {  49,-14813 }, {  50,-14813 }, {  51,-14813 }, {  52,-14813 }, {  53,-14813 },
+ {  54,-14813 }, {  55,-14813 }, {  56,-14813 }, {  57,-14813 }, {  58,-14813 },
+ {   0,   0 }, {   0,   0 }, {  61,-14838 }, {   0,   0 }, {  63,-14813 },
+ {   0,   0 }, {  65,-14813 }, {  66,-14813 }, {  67,-14813 }, {  68,-14813 },
+
+ {  69,-14813 }, {  70,-14813 }, {  71,-14813 }, {  72,-14813 }, {  73,-14813 },
+ {  74,-14813 }, {  75,-14813 }, {  76,-14813 }, {  77,-14813 }, {  78,-14813 },
+ {  79,-14813 }, {  80,-14813 }, {  81,-14813 }, {  82,-14813 }, {  83,-14813 },
+ {  84,-14813 }, {  85,-14813 }, {  86,-14813 }, {  87,-14813 }, {  88,-14813 },
+ {  89,-14813 }, {  90,-14813 }, { 125,-324 }, { 126,-321 }, {   0,   0 },
+ {   0,   0 }, {  95,-14813 }, {   0,   0 }, {  97,-14813 }, {  98,-14813 },
+ {  99,-14813 }, { 100,-14813 }, { 101,-14813 }, { 102,-14813 }, { 103,-14813 },
+ { 104,-14813 }, { 105,-14813 }, { 106,-14813 }, { 107,-14813 }, { 108,-14813 },
+ { 109,-14813 }, { 110,-14813 }, { 111,-14813 }, { 112,-14813 }, { 113,-14813 },
+ { 114,-14813 }, { 115,-14813 }, { 116,-14813 }, { 117,-14813 }, { 118,-14813 },
+
+ { 119,-14813 }, { 120,-14813 }, { 121,-14813 }, { 122,-14813 }, {   0,   0 },
+ { 124,-14838 }, { 125,-322 }, { 126,-322 }, { 127,-14813 }, { 128,-14813 },
+ { 129,-14813 }, { 130,-14813 }, { 131,-14813 }, { 132,-14813 }, { 133,-14813 },
+ { 134,-14813 }, { 135,-14813 }, { 136,-14813 }, { 137,-14813 }, { 138,-14813 },
+ { 139,-14813 }, { 140,-14813 }, { 141,-14813 }, { 142,-14813 }, { 143,-14813 },
+ { 144,-14813 }, { 145,-14813 }, { 146,-14813 }, { 147,-14813 }, { 148,-14813 },
+ { 149,-14813 }, { 150,-14813 }, { 151,-14813 }, { 152,-14813 }, { 153,-14813 },
+ { 154,-14813 }, { 155,-14813 }, { 156,-14813 }, { 157,-14813 }, { 158,-14813 },
+ { 159,-14813 }, { 160,-14813 }, { 161,-14813 }, { 162,-14813 }, { 163,-14813 },
+ { 164,-14813 }, { 165,-14813 }, { 166,-14813 }, { 167,-14813 }, { 168,-14813 },
+
+ { 169,-14813 }, { 170,-14813 }, { 171,-14813 }, { 172,-14813 }, { 173,-14813 },
+ { 174,-14813 }, { 175,-14813 }, { 176,-14813 }, { 177,-14813 }, { 178,-14813 },
+ { 179,-14813 }, { 180,-14813 }, { 181,-14813 }, { 182,-14813 }, { 183,-14813 },
+ { 184,-14813 }, { 185,-14813 }, { 186,-14813 }, { 187,-14813 }, { 188,-14813 },
+ { 189,-14813 }, { 190,-14813 }, { 191,-14813 }, { 192,-14813 }, { 193,-14813 },
+ { 194,-14813 }, { 195,-14813 }, { 196,-14813 }, { 197,-14813 }, { 198,-14813 },
+ { 199,-14813 }, { 200,-14813 }, { 201,-14813 }, { 202,-14813 }, { 203,-14813 },
+ { 204,-14813 }, { 205,-14813 }, { 206,-14813 }, { 207,-14813 }, { 208,-14813 },
+ { 209,-14813 }, { 210,-14813 }, { 211,-14813 }, { 212,-14813 }, { 213,-14813 },
+ { 214,-14813 }, { 215,-14813 }, { 216,-14813 }, { 217,-14813 }, { 218,-14813 },
+
+ { 219,-14813 }, { 220,-14813 }, { 221,-14813 }, { 222,-14813 }, { 223,-14813 },
+ { 224,-14813 }, { 225,-14813 }, { 226,-14813 }, { 227,-14813 }, { 228,-14813 },
+ { 229,-14813 }, { 230,-14813 }, { 231,-14813 }, { 232,-14813 }, { 233,-14813 },
+ { 234,-14813 }, { 235,-14813 }, { 236,-14813 }, { 237,-14813 }, { 238,-14813 },
+ { 239,-14813 }, { 240,-14813 }, { 241,-14813 }, { 242,-14813 }, { 243,-14813 },
+ { 244,-14813 }, { 245,-14813 }, { 246,-14813 }, { 247,-14813 }, { 248,-14813 },
+ { 249,-14813 }, { 250,-14813 }, { 251,-14813 }, { 252,-14813 }, { 253,-14813 },
+ { 254,-14813 }, { 255,-14813 }, { 256,-14813 }, { 257,  53 }, {   1,   0 },
+    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5738,7 +5774,6 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     &yy_transition[2325],
     &yy_transition[2583],
     &yy_transition[2841],
-
     } ;
 
 /* Table of booleans, true if rule could match eol. */
@@ -5848,9 +5883,9 @@ static const flex_int32_t yy_rule_can_match_eol[53] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5851 "handlebars.lex.c"
+#line 5886 "handlebars.lex.c"
 
-#line 5853 "handlebars.lex.c"
+#line 5888 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -6133,7 +6168,7 @@ YY_DECL
 
 
 
-#line 6136 "handlebars.lex.c"
+#line 6171 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -6460,6 +6495,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 26:
 /* rule 26 can match eol */
+*yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_cp - 1);
+yyg->yy_c_buf_p = yy_cp -= 1;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
 #line 316 "handlebars.l"
 {
@@ -6763,7 +6802,7 @@ YY_RULE_SETUP
 #line 491 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6766 "handlebars.lex.c"
+#line 6805 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
-- 
2.43.0


From 57fa181ebebcbec87854de6ff584dc33db8fe6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:56 +0000
Subject: [PATCH 45/99] fix: the ignore_standalone flag works

The parser did not look at it, so standalone tags took their lines with them
whether or not the flag was set.
---
 src/handlebars_whitespace.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index e423a79..3838b18 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -31,6 +31,7 @@
 
 #include "handlebars_ast.h"
 #include "handlebars_ast_list.h"
+#include "handlebars_compiler.h"
 #include "handlebars_memory.h"
 #include "handlebars_parser.h"
 #include "handlebars_parser_private.h"
@@ -195,7 +196,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
     struct handlebars_ast_list * statements = program->node.program.statements;
     struct handlebars_ast_list_item * item;
     struct handlebars_ast_list_item * tmp;
-    bool do_standalone = true; //!(parser->flags & handlebars_compiler_flag_ignore_standalone);
+    bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
     parser->whitespace_root_seen = 1;
 
@@ -311,7 +312,7 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
     struct handlebars_ast_node * firstInverse;
     struct handlebars_ast_node * lastInverse;
     unsigned strip = 0;
-    bool do_standalone = true; //!(parser->flags & handlebars_compiler_flag_ignore_standalone);
+    bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
     if( block->node.block.program ) {
         handlebars_whitespace_accept(parser, block->node.block.program);
@@ -463,7 +464,7 @@ static inline void handlebars_whitespace_accept_raw_block(struct handlebars_pars
         }
 
         // Find standalone else statments
-        if( program && firstInverse &&
+        if( !(parser->flags & handlebars_compiler_flag_ignore_standalone) && program && firstInverse &&
                 handlebars_whitespace_is_prev_whitespace(program->node.program.statements, NULL, 0) &&
                 handlebars_whitespace_is_next_whitespace(firstInverse->node.program.statements, NULL, 0) ) {
             handlebars_whitespace_omit_left(program->node.program.statements, NULL, 0);
-- 
2.43.0


From d6e97c095cd50f7b7c28ea06f17e71c9d1579bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:32 +0000
Subject: [PATCH 46/99] fix: do not read past the scanner's tables behind a NUL
 byte

flex --fast ends its transition table at the end-of-buffer state, but looks
up the next character there when the buffer holds a NUL byte. --full has no
such read.
---
 configure            |     2 +-
 configure.ac         |     2 +-
 src/handlebars.l     |     2 +
 src/handlebars.lex.c | 11306 ++++++++++++++++++++++-------------------
 4 files changed, 6048 insertions(+), 5264 deletions(-)

diff --git a/configure b/configure
index eca68f6..3c02fba 100755
--- a/configure
+++ b/configure
@@ -20716,7 +20716,7 @@ fi
 
 if test "x$FLEXFLAGS" == "x"
 then :
-  FLEXFLAGS="--noreject --fast --align"
+  FLEXFLAGS="--noreject --full --align"
 fi
 
 # Check whether --enable-flex was given.
diff --git a/configure.ac b/configure.ac
index 45c3b3e..6ffa14b 100644
--- a/configure.ac
+++ b/configure.ac
@@ -242,7 +242,7 @@ AM_CONDITIONAL(DOXYGEN, [test "x$DOXYGEN" != "x"])
 
 # flex
 AC_ARG_VAR([FLEXFLAGS], [flex flags])
-AS_IF([test "x$FLEXFLAGS" == "x"], [FLEXFLAGS="--noreject --fast --align"])
+AS_IF([test "x$FLEXFLAGS" == "x"], [FLEXFLAGS="--noreject --full --align"])
 
 AC_ARG_ENABLE([flex], [AS_HELP_STRING([--disable-flex], [disable support for flex])], [])
 AS_IF([test "x$enable_flex" != "xno"], [
diff --git a/src/handlebars.l b/src/handlebars.l
index dc48501..990ee33 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -17,6 +17,8 @@
 
 %{
 
+/* Not for flex --fast: its tables are read past their end behind a NUL byte. */
+
 #ifdef HAVE_CONFIG_H
 #include "config.h"
 #endif
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index ff5ae34..1c1c8f9 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -1,6 +1,6 @@
-#line 0 "handlebars.lex.c"
+#line 2 "handlebars.lex.c"
 
-#line 3 "handlebars.lex.c"
+#line 4 "handlebars.lex.c"
 
 #define  YY_INT_ALIGNED long int
 
@@ -574,10 +574,5923 @@ void yyfree ( void * , yyscan_t yyscanner );
 #define YY_SKIP_YYWRAP
 typedef flex_uint8_t YY_CHAR;
 
-typedef const struct yy_trans_info *yy_state_type;
+typedef int yy_state_type;
 
 #define yytext_ptr yytext_r
 
+static const flex_int32_t yy_nxt[][256] =
+    {
+    {
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0
+    },
+
+    {
+       13,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       15,   14,   14,   15,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   16,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   17,   14,   18,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14
+    },
+
+    {
+       13,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       15,   14,   14,   15,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   16,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   17,   14,   18,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14
+    },
+
+    {
+       13,   19,   19,   19,   19,   19,   19,   19,   19,   20,
+       21,   19,   19,   20,   19,   19,   19,   19,   19,   19,
+
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   20,   22,   23,   22,   19,   22,   22,   24,
+       25,   26,   22,   22,   22,   27,   28,   29,   30,   30,
+       30,   30,   30,   30,   30,   30,   30,   30,   19,   22,
+       22,   31,   22,   19,   32,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   33,   22,   22,   22,   19,   22,   34,   19,   19,
+       19,   19,   35,   19,   19,   19,   19,   19,   19,   19,
+       36,   19,   19,   19,   19,   19,   37,   38,   19,   19,
+
+       19,   19,   19,   39,   40,   41,   42,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19
+    },
+
+    {
+       13,   19,   19,   19,   19,   19,   19,   19,   19,   20,
+       21,   19,   19,   20,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   20,   22,   23,   22,   19,   22,   22,   24,
+       25,   26,   22,   22,   22,   27,   28,   29,   30,   30,
+       30,   30,   30,   30,   30,   30,   30,   30,   19,   22,
+
+       22,   31,   22,   19,   32,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   33,   22,   22,   22,   19,   22,   34,   19,   19,
+       19,   19,   35,   19,   19,   19,   19,   19,   19,   19,
+       36,   19,   19,   19,   19,   19,   37,   38,   19,   19,
+       19,   19,   19,   39,   40,   41,   42,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   19,
+       19,   19,   19,   19,   19,   19
+
+    },
+
+    {
+       13,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       44,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43
+    },
+
+    {
+       13,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       44,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+
+       43,   43,   43,   43,   43,   43,   43,   43,   43,   43,
+       43,   43,   43,   43,   43,   43
+    },
+
+    {
+       13,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   46,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45
+    },
+
+    {
+       13,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   46,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45,   45,   45,   45,   45,
+       45,   45,   45,   45,   45,   45
+    },
+
+    {
+       13,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   48,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47
+
+    },
+
+    {
+       13,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   48,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47,   47,   47,   47,   47,
+       47,   47,   47,   47,   47,   47
+    },
+
+    {
+       13,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   50,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49
+    },
+
+    {
+       13,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   50,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49,   49,   49,   49,   49,
+       49,   49,   49,   49,   49,   49
+    },
+
+    {
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13
+    },
+
+    {
+       13,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       52,   51,   51,   52,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   53,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,  -14,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51
+
+    },
+
+    {
+       13,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+       52,  -15,  -15,   52,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,   53,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15
+    },
+
+    {
+       13,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,   54,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,   55,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16
+    },
+
+    {
+       13,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,   56,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17
+    },
+
+    {
+       13,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       52,   51,   51,   52,   51,   51,   51,   51,   51,   51,
+
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   53,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+
+       51,   51,   51,  -18,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -19,  -19,  -19,   57,  -19,  -19,  -19,
+      -19,   58,  -19,  -19,  -19,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -19,
+
+      -19,   58,  -19,   57,  -19,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -19,  -19,  -19,  -19,   57,  -19,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,  -19,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+
+    },
+
+    {
+       13,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,   59,
+       59,  -20,  -20,   59,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,   59,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,  -20,
+      -20,  -20,  -20,  -20,  -20,  -20
+    },
+
+    {
+       13,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,   59,
+       59,  -21,  -21,   59,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,   59,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21
+    },
+
+    {
+       13,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22
+    },
+
+    {
+       13,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   61,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   62,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60
+    },
+
+    {
+       13,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   64,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   65,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63
+
+    },
+
+    {
+       13,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,  -25,
+      -25,  -25,  -25,  -25,  -25,  -25
+    },
+
+    {
+       13,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -27,  -27,  -27,   57,  -27,  -27,  -27,
+      -27,   58,  -27,  -27,  -27,   57,   58,   58,   66,   66,
+       66,   66,   66,   66,   66,   66,   66,   66,   57,  -27,
+      -27,   58,  -27,   57,  -27,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -27,  -27,  -27,  -27,   57,  -27,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,  -27,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,   67,
+       67,  -28,  -28,   67,  -28,  -28,  -28,  -28,  -28,  -28,
+
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,   67,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,   67,  -28,  -28,  -28,  -28,   68,   67,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,   67,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+
+      -28,  -28,  -28,  -28,   67,   67,   67,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,  -28,
+      -28,  -28,  -28,  -28,  -28,  -28
+    },
+
+    {
+       13,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29
+
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   69,
+       69,   57,   57,   69,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   69,  -30,  -30,  -30,   57,  -30,  -30,  -30,
+      -30,   69,  -30,  -30,  -30,   57,   70,   58,   66,   66,
+       66,   66,   66,   66,   66,   66,   66,   66,   57,  -30,
+      -30,   58,  -30,   57,  -30,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -30,  -30,  -30,  -30,   57,  -30,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,  -30,   58,   69,   69,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+
+      -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,  -31,
+      -31,  -31,  -31,  -31,  -31,  -31
+    },
+
+    {
+       13,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32
+    },
+
+    {
+       13,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   72,   73,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -34,  -34,  -34,   57,  -34,  -34,  -34,
+      -34,   58,  -34,  -34,  -34,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -34,
+
+      -34,   58,  -34,   57,  -34,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -34,  -34,  -34,  -34,   57,  -34,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   74,   57,   57,   57,   57,
+       57,   57,   57,  -34,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -35,  -35,  -35,   57,  -35,  -35,  -35,
+      -35,   58,  -35,  -35,  -35,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -35,
+      -35,   58,  -35,   57,  -35,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -35,  -35,  -35,  -35,   57,  -35,   75,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,  -35,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -36,  -36,  -36,   57,  -36,  -36,  -36,
+
+      -36,   58,  -36,  -36,  -36,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -36,
+      -36,   58,  -36,   57,  -36,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -36,  -36,  -36,  -36,   57,  -36,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   76,   57,   57,
+       57,   57,   57,  -36,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -37,  -37,  -37,   57,  -37,  -37,  -37,
+      -37,   58,  -37,  -37,  -37,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -37,
+      -37,   58,  -37,   57,  -37,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -37,  -37,  -37,  -37,   57,  -37,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   77,   57,   57,   57,   57,   57,
+       57,   57,   57,  -37,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -38,  -38,  -38,   57,  -38,  -38,  -38,
+      -38,   58,  -38,  -38,  -38,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -38,
+      -38,   58,  -38,   57,  -38,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -38,  -38,  -38,  -38,   57,  -38,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       78,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,  -38,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,   79,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,  -39,
+      -39,  -39,  -39,  -39,  -39,  -39
+
+    },
+
+    {
+       13,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40
+    },
+
+    {
+       13,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,   80,   81,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41
+    },
+
+    {
+       13,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,   82,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42
+    },
+
+    {
+       13,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43
+    },
+
+    {
+       13,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44
+
+    },
+
+    {
+       13,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   84,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83
+    },
+
+    {
+       13,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+
+       83,   83,   83,   83,   83,   85,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   87,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   88,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+    },
+
+    {
+       13,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,  -49,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89
+
+    },
+
+    {
+       13,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,   90,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,  -50,
+      -50,  -50,  -50,  -50,  -50,  -50
+    },
+
+    {
+       13,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       52,   51,   51,   52,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   53,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,  -51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+
+       51,   51,   51,   51,   51,   51,   51,   51,   51,   51,
+       51,   51,   51,   51,   51,   51
+    },
+
+    {
+       13,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+       52,  -52,  -52,   52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,   53,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,  -52,
+      -52,  -52,  -52,  -52,  -52,  -52
+    },
+
+    {
+       13,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,   91,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53
+    },
+
+    {
+       13,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,   92,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54
+
+    },
+
+    {
+       13,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,   93,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55
+    },
+
+    {
+       13,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,   94,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -57,  -57,  -57,   57,  -57,  -57,  -57,
+      -57,   58,  -57,  -57,  -57,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -57,
+      -57,   58,  -57,   57,  -57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -57,  -57,  -57,  -57,   57,  -57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,  -57,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58
+    },
+
+    {
+       13,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,   59,
+       59,  -59,  -59,   59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,   59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,  -59,
+      -59,  -59,  -59,  -59,  -59,  -59
+
+    },
+
+    {
+       13,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   61,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   62,   60,   60,   60,   60,   60,   60,   60,
+
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60
+    },
+
+    {
+       13,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61
+    },
+
+    {
+       13,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   95,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   62,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60
+    },
+
+    {
+       13,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   64,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   65,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63
+    },
+
+    {
+       13,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,  -64,
+      -64,  -64,  -64,  -64,  -64,  -64
+
+    },
+
+    {
+       13,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   96,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   65,   63,   63,   63,   63,   63,   63,   63,
+
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   69,
+       69,   57,   57,   69,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   69,  -66,  -66,  -66,   57,  -66,  -66,  -66,
+
+      -66,   69,  -66,  -66,  -66,   57,   70,   58,   66,   66,
+       66,   66,   66,   66,   66,   66,   66,   66,   57,  -66,
+      -66,   58,  -66,   57,  -66,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -66,  -66,  -66,  -66,   57,  -66,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,  -66,   58,   69,   69,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,  -67,
+      -67,  -67,  -67,  -67,  -67,  -67
+    },
+
+    {
+       13,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,  -68,
+      -68,  -68,  -68,  -68,  -68,  -68
+    },
+
+    {
+       13,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69
+
+    },
+
+    {
+       13,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,   97,   97,
+       97,   97,   97,   97,   97,   97,   97,   97,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70
+    },
+
+    {
+       13,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   72,   73,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71
+    },
+
+    {
+       13,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   72,   98,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71
+    },
+
+    {
+       13,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,  -73,
+      -73,  -73,  -73,  -73,  -73,  -73
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   99,
+       99,   57,   57,   99,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   99,  -74,  -74,  -74,   57,  -74,  -74,  -74,
+      -74,   58,  -74,  -74,  -74,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -74,
+
+      -74,   58,  -74,   57,  -74,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -74,  -74,  -74,  -74,   57,  -74,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,  -74,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -75,  -75,  -75,   57,  -75,  -75,  -75,
+      -75,   58,  -75,  -75,  -75,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -75,
+      -75,   58,  -75,   57,  -75,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -75,  -75,  -75,  -75,   57,  -75,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,  100,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,  -75,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -76,  -76,  -76,   57,  -76,  -76,  -76,
+
+      -76,   58,  -76,  -76,  -76,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -76,
+      -76,   58,  -76,   57,  -76,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -76,  -76,  -76,  -76,   57,  -76,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,  101,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,  -76,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -77,  -77,  -77,   57,  -77,  -77,  -77,
+      -77,   58,  -77,  -77,  -77,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -77,
+      -77,   58,  -77,   57,  -77,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -77,  -77,  -77,  -77,   57,  -77,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,  102,   57,   57,
+       57,   57,   57,  -77,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58,  -78,  -78,  -78,   57,  -78,  -78,  -78,
+      -78,   58,  -78,  -78,  -78,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,  -78,
+      -78,   58,  -78,   57,  -78,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,  -78,  -78,  -78,  -78,   57,  -78,   57,   57,   57,
+      103,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,  -78,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  104,
+      104,  -79,  -79,  104,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  104,  105,  -79,  106,  -79,  -79,  107,  -79,
+      -79,  -79,  108,  -79,  -79,  -79,  -79,  109,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+
+      -79,  -79,  110,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  111,  -79,  -79,  -79,  -79,  -79,
+      -79,  112,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  113,  -79,  -79,  114,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,  -79,
+      -79,  -79,  -79,  -79,  -79,  -79
+
+    },
+
+    {
+       13,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  115,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,  -80,
+      -80,  -80,  -80,  -80,  -80,  -80
+    },
+
+    {
+       13,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  116,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81
+    },
+
+    {
+       13,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  117,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82
+    },
+
+    {
+       13,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   84,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83
+    },
+
+    {
+       13,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   85,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83,   83,   83,   83,   83,
+       83,   83,   83,   83,   83,   83
+
+    },
+
+    {
+       13,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  119,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  120,  121,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   87,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   88,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+    },
+
+    {
+       13,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88
+    },
+
+    {
+       13,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,  -89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89
+
+    },
+
+    {
+       13,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  122,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90
+    },
+
+    {
+       13,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  123,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91
+    },
+
+    {
+       13,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  124,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92
+    },
+
+    {
+       13,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      126,  125,  125,  126,  125,  125,  125,  125,  125,  125,
+
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  -93,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+
+      125,  125,  125,  127,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125
+    },
+
+    {
+       13,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94
+
+    },
+
+    {
+       13,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   61,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   62,   60,   60,   60,   60,   60,   60,   60,
+
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60,   60,   60,   60,   60,
+       60,   60,   60,   60,   60,   60
+    },
+
+    {
+       13,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   64,
+
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   65,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+
+       63,   63,   63,   63,   63,   63,   63,   63,   63,   63,
+       63,   63,   63,   63,   63,   63
+    },
+
+    {
+       13,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  128,
+      128,  -97,  -97,  128,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  128,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  128,  -97,  -97,  -97,  -97,  -97,  -97,   97,   97,
+       97,   97,   97,   97,   97,   97,   97,   97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  128,  128,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97
+    },
+
+    {
+       13,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   72,   73,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
+       71,   71,   71,   71,   71,   71
+    },
+
+    {
+       13,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  129,
+      129,  -99,  -99,  129,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  129,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  130,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99
+
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58, -100, -100, -100,   57, -100, -100, -100,
+     -100,   58, -100, -100, -100,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -100,
+     -100,   58, -100,   57, -100,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -100, -100, -100, -100,   57, -100,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,  131,   57,   57,   57,   57,
+       57,   57,   57, -100,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58, -101, -101, -101,   57, -101, -101, -101,
+
+     -101,   58, -101, -101, -101,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -101,
+     -101,   58, -101,   57, -101,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -101, -101, -101, -101,   57, -101,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,  132,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57, -101,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58, -102, -102, -102,   57, -102, -102, -102,
+     -102,   58, -102, -102, -102,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -102,
+     -102,   58, -102,   57, -102,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -102, -102, -102, -102,   57, -102,   57,   57,   57,
+       57,  133,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57, -102,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58, -103, -103, -103,   57, -103, -103, -103,
+     -103,   58, -103, -103, -103,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -103,
+     -103,   58, -103,   57, -103,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -103, -103, -103, -103,   57, -103,   57,   57,   57,
+       57,  134,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57, -103,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13, -104, -104, -104, -104, -104, -104, -104, -104,  104,
+      104, -104, -104,  104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104,  104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104,  112, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104
+
+    },
+
+    {
+       13, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105,  135, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105
+    },
+
+    {
+       13, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+
+     -106, -106,  136, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106,  137, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106
+    },
+
+    {
+       13, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107
+    },
+
+    {
+       13, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108
+    },
+
+    {
+       13, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109
+
+    },
+
+    {
+       13, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110
+    },
+
+    {
+       13, -111, -111, -111, -111, -111, -111, -111, -111,  138,
+      138, -111, -111,  138, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111,  138, -111, -111, -111, -111, -111, -111, -111,
+
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111,  139,  140, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111
+    },
+
+    {
+       13, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112,  141, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112
+    },
+
+    {
+       13, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+
+     -113, -113, -113,  142, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113
+    },
+
+    {
+       13, -114, -114, -114, -114, -114, -114, -114, -114,  104,
+      104, -114, -114,  104, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114,  104,  105, -114,  106, -114, -114,  107, -114,
+     -114, -114,  108, -114, -114, -114, -114,  109, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+
+     -114, -114,  110, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114,  111, -114, -114, -114, -114, -114,
+     -114,  112, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114,  143, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114
+
+    },
+
+    {
+       13, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115,  144, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115
+    },
+
+    {
+       13, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116,  145, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116
+    },
+
+    {
+       13, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117
+    },
+
+    {
+       13,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  147,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146
+    },
+
+    {
+       13,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  119,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  120,  121,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118
+
+    },
+
+    {
+       13,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  148,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  149,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118
+    },
+
+    {
+       13,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  148,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  120,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118
+    },
+
+    {
+       13, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122,  150, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122
+    },
+
+    {
+       13, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+
+     -123, -123, -123,  151, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123, -123, -123, -123, -123,
+     -123, -123, -123, -123, -123, -123
+    },
+
+    {
+       13, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124,  152, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124
+
+    },
+
+    {
+       13,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      126,  125,  125,  126,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125, -125,  125,  125,  125,  125,  125,  125,  125,
+
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125, -125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125
+    },
+
+    {
+       13, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+      126, -126, -126,  126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126
+    },
+
+    {
+       13,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      126,  125,  125,  126,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125, -127,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125, -127,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125,  125,  125,  125,  125,
+      125,  125,  125,  125,  125,  125
+    },
+
+    {
+       13, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128, -128, -128, -128, -128,
+     -128, -128, -128, -128, -128, -128
+    },
+
+    {
+       13, -129, -129, -129, -129, -129, -129, -129, -129,  129,
+      129, -129, -129,  129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129,  129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129,  130, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129, -129, -129, -129, -129,
+     -129, -129, -129, -129, -129, -129
+
+    },
+
+    {
+       13, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130, -130, -130, -130, -130,
+     -130, -130, -130, -130, -130, -130
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58, -131, -131, -131,   57, -131, -131, -131,
+
+     -131,   58, -131, -131, -131,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -131,
+     -131,   58, -131,   57, -131,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -131, -131, -131, -131,   57, -131,   57,   57,   57,
+       57,  153,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57, -131,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,  154,
+      154,   57,   57,  154,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,  154, -132, -132, -132,   57, -132, -132, -132,
+     -132,  154, -132, -132, -132,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -132,
+     -132,   58, -132,   57, -132,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -132, -132, -132, -132,   57, -132,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57, -132,   58,  154,  154,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,  155,
+      155,   57,   57,  155,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,  155, -133, -133, -133,   57, -133, -133, -133,
+     -133,  155, -133, -133, -133,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -133,
+     -133,   58, -133,   57, -133,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -133, -133, -133, -133,   57, -133,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57, -133,   58,  155,  155,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58, -134, -134, -134,   57, -134, -134, -134,
+     -134,   58, -134, -134, -134,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -134,
+
+     -134,   58, -134,   57, -134,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -134, -134, -134, -134,   57, -134,   57,   57,   57,
+       57,   57,  156,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57, -134,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+
+    },
+
+    {
+       13, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135,  157, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135
+    },
+
+    {
+       13, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136
+    },
+
+    {
+       13, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137
+    },
+
+    {
+       13, -138, -138, -138, -138, -138, -138, -138, -138,  138,
+      138, -138, -138,  138, -138, -138, -138, -138, -138, -138,
+
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138,  138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+
+     -138, -138, -138, -138, -138,  139,  140, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138
+    },
+
+    {
+       13, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139,  158, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139
+
+    },
+
+    {
+       13, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140,  139, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140
+    },
+
+    {
+       13, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141,  159, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141
+    },
+
+    {
+       13, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142
+    },
+
+    {
+       13, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143, -143, -143, -143, -143,
+     -143, -143, -143, -143, -143, -143
+    },
+
+    {
+       13, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144, -144, -144, -144, -144,
+     -144, -144, -144, -144, -144, -144
+
+    },
+
+    {
+       13, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145, -145, -145, -145, -145,
+     -145, -145, -145, -145, -145, -145
+    },
+
+    {
+       13,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+
+      146,  146,  146,  146,  146,  147,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146
+    },
+
+    {
+       13,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  119,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146,  146,  146,  146,  146,
+      146,  146,  146,  146,  146,  146
+    },
+
+    {
+       13,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  161,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160,  160,  160,  160,  160,
+      160,  160,  160,  160,  160,  160
+    },
+
+    {
+       13, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149
+
+    },
+
+    {
+       13,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  163,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162,  162,  162,  162,  162,
+      162,  162,  162,  162,  162,  162
+    },
+
+    {
+       13, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151,  164, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+
+     -151, -151, -151, -151, -151, -151, -151, -151, -151, -151,
+     -151, -151, -151, -151, -151, -151
+    },
+
+    {
+       13, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,  165,
+      165,   57,   57,  165,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,  165, -153, -153, -153,   57, -153, -153, -153,
+     -153,  165, -153, -153, -153,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -153,
+     -153,   58, -153,   57, -153,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -153, -153, -153, -153,   57, -153,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57, -153,   58,  165,  165,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154
+
+    },
+
+    {
+       13, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155, -155, -155, -155, -155,
+     -155, -155, -155, -155, -155, -155
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58, -156, -156, -156,   57, -156, -156, -156,
+
+     -156,   58, -156, -156, -156,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -156,
+     -156,   58, -156,   57, -156,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -156, -156, -156, -156,   57, -156,   57,   57,   57,
+       57,   57,   57,   57,   57,  166,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57, -156,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157, -157, -157, -157, -157,
+     -157, -157, -157, -157, -157, -157
+    },
+
+    {
+       13, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158
+    },
+
+    {
+       13, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159,  167, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159
+
+    },
+
+    {
+       13,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  169,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168
+    },
+
+    {
+       13,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  119,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  120,  121,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+
+      118,  118,  118,  118,  118,  118,  118,  118,  118,  118,
+      118,  118,  118,  118,  118,  118
+    },
+
+    {
+       13, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162, -162, -162, -162, -162,
+     -162, -162, -162, -162, -162, -162
+    },
+
+    {
+       13,  170,  170,  170,  170,  170,  170,  170,  170, -163,
+     -163,  170,  170, -163,  170,  170,  170,  170,  170,  170,
+
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170, -163, -163, -163, -163,  170, -163, -163, -163,
+     -163, -163, -163, -163, -163,  170, -163, -163,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170, -163,
+     -163, -163, -163,  170, -163,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170, -163, -163, -163, -163,  170, -163,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+
+      170,  170,  170, -163, -163, -163, -163,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170
+    },
+
+    {
+       13, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164, -164, -164, -164, -164,
+     -164, -164, -164, -164, -164, -164
+
+    },
+
+    {
+       13, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165, -165, -165, -165, -165,
+     -165, -165, -165, -165, -165, -165
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58, -166, -166, -166,   57, -166, -166, -166,
+
+     -166,   58, -166, -166, -166,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -166,
+     -166,   58, -166,   57, -166,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -166, -166, -166, -166,   57, -166,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+      171,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57, -166,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13,  172,  172,  172,  172,  172,  172,  172,  172,  173,
+      173,  172,  172,  173,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  173,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167,  172,  172,
+      172,  172,  172,  172,  172, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167,  172,  172,  172,  172, -167,  172, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167,  172,  172,  174,  175,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172,  172,  172,  172,  172,
+      172,  172,  172,  172,  172,  172
+    },
+
+    {
+       13,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  169,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168
+    },
+
+    {
+       13,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  161,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168,  168,  168,  168,  168,
+      168,  168,  168,  168,  168,  168
+
+    },
+
+    {
+       13,  170,  170,  170,  170,  170,  170,  170,  170, -170,
+     -170,  170,  170, -170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170, -170, -170, -170, -170,  170, -170, -170, -170,
+     -170, -170, -170, -170, -170,  170, -170, -170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170, -170,
+     -170, -170, -170,  170, -170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170, -170, -170, -170, -170,  170, -170,  170,  170,  170,
+
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170, -170, -170,  176, -170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170,  170,  170,  170,  170,
+      170,  170,  170,  170,  170,  170
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58, -171, -171, -171,   57, -171, -171, -171,
+
+     -171,   58, -171, -171, -171,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -171,
+     -171,   58, -171,   57, -171,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -171, -171, -171, -171,   57, -171,   57,   57,   57,
+       57,  177,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57, -171,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172
+    },
+
+    {
+       13, -173, -173, -173, -173, -173, -173, -173, -173,  178,
+      178, -173, -173,  178, -173, -173, -173, -173, -173, -173,
+
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173,  178, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+
+     -173, -173, -173, -173, -173,  179,  180, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173, -173, -173, -173, -173,
+     -173, -173, -173, -173, -173, -173
+    },
+
+    {
+       13, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174,  181, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174
+
+    },
+
+    {
+       13, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175,  179, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175
+    },
+
+    {
+       13, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176,  182, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+       58,   57,   57,   58,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   58, -177, -177, -177,   57, -177, -177, -177,
+     -177,   58, -177, -177, -177,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -177,
+     -177,   58, -177,   57, -177,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -177, -177, -177, -177,   57, -177,   57,   57,   57,
+      183,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57, -177,   58,   58,   58,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13, -178, -178, -178, -178, -178, -178, -178, -178,  178,
+      178, -178, -178,  178, -178, -178, -178, -178, -178, -178,
+
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178,  178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+
+     -178, -178, -178, -178, -178,  179,  180, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178
+    },
+
+    {
+       13, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179,  181, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179, -179, -179, -179, -179,
+     -179, -179, -179, -179, -179, -179
+
+    },
+
+    {
+       13, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180,  179, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180
+    },
+
+    {
+       13, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181
+    },
+
+    {
+       13, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182,  184, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182
+    },
+
+    {
+       13,   57,   57,   57,   57,   57,   57,   57,   57,  185,
+      185,   57,   57,  185,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,  185, -183, -183, -183,   57, -183, -183, -183,
+     -183,  185, -183, -183, -183,   57,   58,   58,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57, -183,
+     -183,   58, -183,   57, -183,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57, -183, -183, -183, -183,   57, -183,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57, -183,   58,  185,  185,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
+       57,   57,   57,   57,   57,   57
+    },
+
+    {
+       13, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184,  186, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184, -184, -184, -184, -184,
+     -184, -184, -184, -184, -184, -184
+
+    },
+
+    {
+       13, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185, -185, -185, -185, -185,
+     -185, -185, -185, -185, -185, -185
+    },
+
+    {
+       13, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+
+     -186, -186, -186, -186, -186, -186, -186, -186, -186, -186,
+     -186, -186, -186, -186, -186, -186
+    },
+
+    } ;
+
 static yy_state_type yy_get_previous_state ( yyscan_t yyscanner );
 static yy_state_type yy_try_NUL_trans ( yy_state_type current_state  , yyscan_t yyscanner);
 static int yy_get_next_buffer ( yyscan_t yyscanner );
@@ -594,5186 +6507,35 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_c_buf_p = yy_cp;
 #define YY_NUM_RULES 52
 #define YY_END_OF_BUFFER 53
+/* This struct is not used in this scanner,
+   but its presence is necessary. */
 struct yy_trans_info
 	{
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[23694] =
-    {
- {   0,   0 }, {   0,23438 }, {   0,   2 }, {   0,23436 }, {   1,3096 },
- {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
- {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3354 }, {  11,3096 },
- {  12,3096 }, {  13,3354 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
- {  17,3096 }, {  18,3096 }, {  19,3096 }, {  20,3096 }, {  21,3096 },
- {  22,3096 }, {  23,3096 }, {  24,3096 }, {  25,3096 }, {  26,3096 },
- {  27,3096 }, {  28,3096 }, {  29,3096 }, {  30,3096 }, {  31,3096 },
- {  32,3096 }, {  33,3096 }, {  34,3096 }, {  35,3096 }, {  36,3096 },
- {  37,3096 }, {  38,3096 }, {  39,3096 }, {  40,3096 }, {  41,3096 },
- {  42,3096 }, {  43,3096 }, {  44,3096 }, {  45,3096 }, {  46,3096 },
-
- {  47,3096 }, {  48,3096 }, {  49,3096 }, {  50,3096 }, {  51,3096 },
- {  52,3096 }, {  53,3096 }, {  54,3096 }, {  55,3096 }, {  56,3096 },
- {  57,3096 }, {  58,3096 }, {  59,3096 }, {  60,3096 }, {  61,3096 },
- {  62,3096 }, {  63,3096 }, {  64,3096 }, {  65,3096 }, {  66,3096 },
- {  67,3096 }, {  68,3096 }, {  69,3096 }, {  70,3096 }, {  71,3096 },
- {  72,3096 }, {  73,3096 }, {  74,3096 }, {  75,3096 }, {  76,3096 },
- {  77,3096 }, {  78,3096 }, {  79,3096 }, {  80,3096 }, {  81,3096 },
- {  82,3096 }, {  83,3096 }, {  84,3096 }, {  85,3096 }, {  86,3096 },
- {  87,3096 }, {  88,3096 }, {  89,3096 }, {  90,3096 }, {  91,3096 },
- {  92,3356 }, {  93,3096 }, {  94,3096 }, {  95,3096 }, {  96,3096 },
-
- {  97,3096 }, {  98,3096 }, {  99,3096 }, { 100,3096 }, { 101,3096 },
- { 102,3096 }, { 103,3096 }, { 104,3096 }, { 105,3096 }, { 106,3096 },
- { 107,3096 }, { 108,3096 }, { 109,3096 }, { 110,3096 }, { 111,3096 },
- { 112,3096 }, { 113,3096 }, { 114,3096 }, { 115,3096 }, { 116,3096 },
- { 117,3096 }, { 118,3096 }, { 119,3096 }, { 120,3096 }, { 121,3096 },
- { 122,3096 }, { 123,3358 }, { 124,3096 }, { 125,3483 }, { 126,3096 },
- { 127,3096 }, { 128,3096 }, { 129,3096 }, { 130,3096 }, { 131,3096 },
- { 132,3096 }, { 133,3096 }, { 134,3096 }, { 135,3096 }, { 136,3096 },
- { 137,3096 }, { 138,3096 }, { 139,3096 }, { 140,3096 }, { 141,3096 },
- { 142,3096 }, { 143,3096 }, { 144,3096 }, { 145,3096 }, { 146,3096 },
-
- { 147,3096 }, { 148,3096 }, { 149,3096 }, { 150,3096 }, { 151,3096 },
- { 152,3096 }, { 153,3096 }, { 154,3096 }, { 155,3096 }, { 156,3096 },
- { 157,3096 }, { 158,3096 }, { 159,3096 }, { 160,3096 }, { 161,3096 },
- { 162,3096 }, { 163,3096 }, { 164,3096 }, { 165,3096 }, { 166,3096 },
- { 167,3096 }, { 168,3096 }, { 169,3096 }, { 170,3096 }, { 171,3096 },
- { 172,3096 }, { 173,3096 }, { 174,3096 }, { 175,3096 }, { 176,3096 },
- { 177,3096 }, { 178,3096 }, { 179,3096 }, { 180,3096 }, { 181,3096 },
- { 182,3096 }, { 183,3096 }, { 184,3096 }, { 185,3096 }, { 186,3096 },
- { 187,3096 }, { 188,3096 }, { 189,3096 }, { 190,3096 }, { 191,3096 },
- { 192,3096 }, { 193,3096 }, { 194,3096 }, { 195,3096 }, { 196,3096 },
-
- { 197,3096 }, { 198,3096 }, { 199,3096 }, { 200,3096 }, { 201,3096 },
- { 202,3096 }, { 203,3096 }, { 204,3096 }, { 205,3096 }, { 206,3096 },
- { 207,3096 }, { 208,3096 }, { 209,3096 }, { 210,3096 }, { 211,3096 },
- { 212,3096 }, { 213,3096 }, { 214,3096 }, { 215,3096 }, { 216,3096 },
- { 217,3096 }, { 218,3096 }, { 219,3096 }, { 220,3096 }, { 221,3096 },
- { 222,3096 }, { 223,3096 }, { 224,3096 }, { 225,3096 }, { 226,3096 },
- { 227,3096 }, { 228,3096 }, { 229,3096 }, { 230,3096 }, { 231,3096 },
- { 232,3096 }, { 233,3096 }, { 234,3096 }, { 235,3096 }, { 236,3096 },
- { 237,3096 }, { 238,3096 }, { 239,3096 }, { 240,3096 }, { 241,3096 },
- { 242,3096 }, { 243,3096 }, { 244,3096 }, { 245,3096 }, { 246,3096 },
-
- { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
- { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3096 },
- {   0,   2 }, {   0,23178 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
- {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
- {   9,2838 }, {  10,3096 }, {  11,2838 }, {  12,2838 }, {  13,3096 },
- {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
- {  19,2838 }, {  20,2838 }, {  21,2838 }, {  22,2838 }, {  23,2838 },
- {  24,2838 }, {  25,2838 }, {  26,2838 }, {  27,2838 }, {  28,2838 },
- {  29,2838 }, {  30,2838 }, {  31,2838 }, {  32,2838 }, {  33,2838 },
- {  34,2838 }, {  35,2838 }, {  36,2838 }, {  37,2838 }, {  38,2838 },
-
- {  39,2838 }, {  40,2838 }, {  41,2838 }, {  42,2838 }, {  43,2838 },
- {  44,2838 }, {  45,2838 }, {  46,2838 }, {  47,2838 }, {  48,2838 },
- {  49,2838 }, {  50,2838 }, {  51,2838 }, {  52,2838 }, {  53,2838 },
- {  54,2838 }, {  55,2838 }, {  56,2838 }, {  57,2838 }, {  58,2838 },
- {  59,2838 }, {  60,2838 }, {  61,2838 }, {  62,2838 }, {  63,2838 },
- {  64,2838 }, {  65,2838 }, {  66,2838 }, {  67,2838 }, {  68,2838 },
- {  69,2838 }, {  70,2838 }, {  71,2838 }, {  72,2838 }, {  73,2838 },
- {  74,2838 }, {  75,2838 }, {  76,2838 }, {  77,2838 }, {  78,2838 },
- {  79,2838 }, {  80,2838 }, {  81,2838 }, {  82,2838 }, {  83,2838 },
- {  84,2838 }, {  85,2838 }, {  86,2838 }, {  87,2838 }, {  88,2838 },
-
- {  89,2838 }, {  90,2838 }, {  91,2838 }, {  92,3098 }, {  93,2838 },
- {  94,2838 }, {  95,2838 }, {  96,2838 }, {  97,2838 }, {  98,2838 },
- {  99,2838 }, { 100,2838 }, { 101,2838 }, { 102,2838 }, { 103,2838 },
- { 104,2838 }, { 105,2838 }, { 106,2838 }, { 107,2838 }, { 108,2838 },
- { 109,2838 }, { 110,2838 }, { 111,2838 }, { 112,2838 }, { 113,2838 },
- { 114,2838 }, { 115,2838 }, { 116,2838 }, { 117,2838 }, { 118,2838 },
- { 119,2838 }, { 120,2838 }, { 121,2838 }, { 122,2838 }, { 123,3100 },
- { 124,2838 }, { 125,3225 }, { 126,2838 }, { 127,2838 }, { 128,2838 },
- { 129,2838 }, { 130,2838 }, { 131,2838 }, { 132,2838 }, { 133,2838 },
- { 134,2838 }, { 135,2838 }, { 136,2838 }, { 137,2838 }, { 138,2838 },
-
- { 139,2838 }, { 140,2838 }, { 141,2838 }, { 142,2838 }, { 143,2838 },
- { 144,2838 }, { 145,2838 }, { 146,2838 }, { 147,2838 }, { 148,2838 },
- { 149,2838 }, { 150,2838 }, { 151,2838 }, { 152,2838 }, { 153,2838 },
- { 154,2838 }, { 155,2838 }, { 156,2838 }, { 157,2838 }, { 158,2838 },
- { 159,2838 }, { 160,2838 }, { 161,2838 }, { 162,2838 }, { 163,2838 },
- { 164,2838 }, { 165,2838 }, { 166,2838 }, { 167,2838 }, { 168,2838 },
- { 169,2838 }, { 170,2838 }, { 171,2838 }, { 172,2838 }, { 173,2838 },
- { 174,2838 }, { 175,2838 }, { 176,2838 }, { 177,2838 }, { 178,2838 },
- { 179,2838 }, { 180,2838 }, { 181,2838 }, { 182,2838 }, { 183,2838 },
- { 184,2838 }, { 185,2838 }, { 186,2838 }, { 187,2838 }, { 188,2838 },
-
- { 189,2838 }, { 190,2838 }, { 191,2838 }, { 192,2838 }, { 193,2838 },
- { 194,2838 }, { 195,2838 }, { 196,2838 }, { 197,2838 }, { 198,2838 },
- { 199,2838 }, { 200,2838 }, { 201,2838 }, { 202,2838 }, { 203,2838 },
- { 204,2838 }, { 205,2838 }, { 206,2838 }, { 207,2838 }, { 208,2838 },
- { 209,2838 }, { 210,2838 }, { 211,2838 }, { 212,2838 }, { 213,2838 },
- { 214,2838 }, { 215,2838 }, { 216,2838 }, { 217,2838 }, { 218,2838 },
- { 219,2838 }, { 220,2838 }, { 221,2838 }, { 222,2838 }, { 223,2838 },
- { 224,2838 }, { 225,2838 }, { 226,2838 }, { 227,2838 }, { 228,2838 },
- { 229,2838 }, { 230,2838 }, { 231,2838 }, { 232,2838 }, { 233,2838 },
- { 234,2838 }, { 235,2838 }, { 236,2838 }, { 237,2838 }, { 238,2838 },
-
- { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
- { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
- { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,2838 }, {   0,   0 }, {   0,22920 },
- {   1,3225 }, {   2,3225 }, {   3,3225 }, {   4,3225 }, {   5,3225 },
- {   6,3225 }, {   7,3225 }, {   8,3225 }, {   9,2844 }, {  10,2846 },
- {  11,3225 }, {  12,3225 }, {  13,2844 }, {  14,3225 }, {  15,3225 },
- {  16,3225 }, {  17,3225 }, {  18,3225 }, {  19,3225 }, {  20,3225 },
- {  21,3225 }, {  22,3225 }, {  23,3225 }, {  24,3225 }, {  25,3225 },
- {  26,3225 }, {  27,3225 }, {  28,3225 }, {  29,3225 }, {  30,3225 },
-
- {  31,3225 }, {  32,2844 }, {  33,2850 }, {  34,3483 }, {  35,2850 },
- {  36,3225 }, {  37,2850 }, {  38,2850 }, {  39,3741 }, {  40,2861 },
- {  41,2863 }, {  42,2850 }, {  43,2850 }, {  44,2850 }, {  45,3999 },
- {  46,4257 }, {  47,2865 }, {  48,4339 }, {  49,4339 }, {  50,4339 },
- {  51,4339 }, {  52,4339 }, {  53,4339 }, {  54,4339 }, {  55,4339 },
- {  56,4339 }, {  57,4339 }, {  58,3225 }, {  59,2850 }, {  60,2850 },
- {  61,2867 }, {  62,2850 }, {  63,3225 }, {  64,2869 }, {  65,3225 },
- {  66,3225 }, {  67,3225 }, {  68,3225 }, {  69,3225 }, {  70,3225 },
- {  71,3225 }, {  72,3225 }, {  73,3225 }, {  74,3225 }, {  75,3225 },
- {  76,3225 }, {  77,3225 }, {  78,3225 }, {  79,3225 }, {  80,3225 },
-
- {  81,3225 }, {  82,3225 }, {  83,3225 }, {  84,3225 }, {  85,3225 },
- {  86,3225 }, {  87,3225 }, {  88,3225 }, {  89,3225 }, {  90,3225 },
- {  91,4597 }, {  92,2850 }, {  93,2850 }, {  94,2850 }, {  95,3225 },
- {  96,2850 }, {  97,4855 }, {  98,3225 }, {  99,3225 }, { 100,3225 },
- { 101,3225 }, { 102,5113 }, { 103,3225 }, { 104,3225 }, { 105,3225 },
- { 106,3225 }, { 107,3225 }, { 108,3225 }, { 109,3225 }, { 110,5371 },
- { 111,3225 }, { 112,3225 }, { 113,3225 }, { 114,3225 }, { 115,3225 },
- { 116,5629 }, { 117,5887 }, { 118,3225 }, { 119,3225 }, { 120,3225 },
- { 121,3225 }, { 122,3225 }, { 123,4275 }, { 124,4277 }, { 125,4306 },
- { 126,4308 }, { 127,3225 }, { 128,3225 }, { 129,3225 }, { 130,3225 },
-
- { 131,3225 }, { 132,3225 }, { 133,3225 }, { 134,3225 }, { 135,3225 },
- { 136,3225 }, { 137,3225 }, { 138,3225 }, { 139,3225 }, { 140,3225 },
- { 141,3225 }, { 142,3225 }, { 143,3225 }, { 144,3225 }, { 145,3225 },
- { 146,3225 }, { 147,3225 }, { 148,3225 }, { 149,3225 }, { 150,3225 },
- { 151,3225 }, { 152,3225 }, { 153,3225 }, { 154,3225 }, { 155,3225 },
- { 156,3225 }, { 157,3225 }, { 158,3225 }, { 159,3225 }, { 160,3225 },
- { 161,3225 }, { 162,3225 }, { 163,3225 }, { 164,3225 }, { 165,3225 },
- { 166,3225 }, { 167,3225 }, { 168,3225 }, { 169,3225 }, { 170,3225 },
- { 171,3225 }, { 172,3225 }, { 173,3225 }, { 174,3225 }, { 175,3225 },
- { 176,3225 }, { 177,3225 }, { 178,3225 }, { 179,3225 }, { 180,3225 },
-
- { 181,3225 }, { 182,3225 }, { 183,3225 }, { 184,3225 }, { 185,3225 },
- { 186,3225 }, { 187,3225 }, { 188,3225 }, { 189,3225 }, { 190,3225 },
- { 191,3225 }, { 192,3225 }, { 193,3225 }, { 194,3225 }, { 195,3225 },
- { 196,3225 }, { 197,3225 }, { 198,3225 }, { 199,3225 }, { 200,3225 },
- { 201,3225 }, { 202,3225 }, { 203,3225 }, { 204,3225 }, { 205,3225 },
- { 206,3225 }, { 207,3225 }, { 208,3225 }, { 209,3225 }, { 210,3225 },
- { 211,3225 }, { 212,3225 }, { 213,3225 }, { 214,3225 }, { 215,3225 },
- { 216,3225 }, { 217,3225 }, { 218,3225 }, { 219,3225 }, { 220,3225 },
- { 221,3225 }, { 222,3225 }, { 223,3225 }, { 224,3225 }, { 225,3225 },
- { 226,3225 }, { 227,3225 }, { 228,3225 }, { 229,3225 }, { 230,3225 },
-
- { 231,3225 }, { 232,3225 }, { 233,3225 }, { 234,3225 }, { 235,3225 },
- { 236,3225 }, { 237,3225 }, { 238,3225 }, { 239,3225 }, { 240,3225 },
- { 241,3225 }, { 242,3225 }, { 243,3225 }, { 244,3225 }, { 245,3225 },
- { 246,3225 }, { 247,3225 }, { 248,3225 }, { 249,3225 }, { 250,3225 },
- { 251,3225 }, { 252,3225 }, { 253,3225 }, { 254,3225 }, { 255,3225 },
- { 256,3225 }, {   0,   0 }, {   0,22662 }, {   1,2967 }, {   2,2967 },
- {   3,2967 }, {   4,2967 }, {   5,2967 }, {   6,2967 }, {   7,2967 },
- {   8,2967 }, {   9,2586 }, {  10,2588 }, {  11,2967 }, {  12,2967 },
- {  13,2586 }, {  14,2967 }, {  15,2967 }, {  16,2967 }, {  17,2967 },
- {  18,2967 }, {  19,2967 }, {  20,2967 }, {  21,2967 }, {  22,2967 },
-
- {  23,2967 }, {  24,2967 }, {  25,2967 }, {  26,2967 }, {  27,2967 },
- {  28,2967 }, {  29,2967 }, {  30,2967 }, {  31,2967 }, {  32,2586 },
- {  33,2592 }, {  34,3225 }, {  35,2592 }, {  36,2967 }, {  37,2592 },
- {  38,2592 }, {  39,3483 }, {  40,2603 }, {  41,2605 }, {  42,2592 },
- {  43,2592 }, {  44,2592 }, {  45,3741 }, {  46,3999 }, {  47,2607 },
- {  48,4081 }, {  49,4081 }, {  50,4081 }, {  51,4081 }, {  52,4081 },
- {  53,4081 }, {  54,4081 }, {  55,4081 }, {  56,4081 }, {  57,4081 },
- {  58,2967 }, {  59,2592 }, {  60,2592 }, {  61,2609 }, {  62,2592 },
- {  63,2967 }, {  64,2611 }, {  65,2967 }, {  66,2967 }, {  67,2967 },
- {  68,2967 }, {  69,2967 }, {  70,2967 }, {  71,2967 }, {  72,2967 },
-
- {  73,2967 }, {  74,2967 }, {  75,2967 }, {  76,2967 }, {  77,2967 },
- {  78,2967 }, {  79,2967 }, {  80,2967 }, {  81,2967 }, {  82,2967 },
- {  83,2967 }, {  84,2967 }, {  85,2967 }, {  86,2967 }, {  87,2967 },
- {  88,2967 }, {  89,2967 }, {  90,2967 }, {  91,4339 }, {  92,2592 },
- {  93,2592 }, {  94,2592 }, {  95,2967 }, {  96,2592 }, {  97,4597 },
- {  98,2967 }, {  99,2967 }, { 100,2967 }, { 101,2967 }, { 102,4855 },
- { 103,2967 }, { 104,2967 }, { 105,2967 }, { 106,2967 }, { 107,2967 },
- { 108,2967 }, { 109,2967 }, { 110,5113 }, { 111,2967 }, { 112,2967 },
- { 113,2967 }, { 114,2967 }, { 115,2967 }, { 116,5371 }, { 117,5629 },
- { 118,2967 }, { 119,2967 }, { 120,2967 }, { 121,2967 }, { 122,2967 },
-
- { 123,4017 }, { 124,4019 }, { 125,4048 }, { 126,4050 }, { 127,2967 },
- { 128,2967 }, { 129,2967 }, { 130,2967 }, { 131,2967 }, { 132,2967 },
- { 133,2967 }, { 134,2967 }, { 135,2967 }, { 136,2967 }, { 137,2967 },
- { 138,2967 }, { 139,2967 }, { 140,2967 }, { 141,2967 }, { 142,2967 },
- { 143,2967 }, { 144,2967 }, { 145,2967 }, { 146,2967 }, { 147,2967 },
- { 148,2967 }, { 149,2967 }, { 150,2967 }, { 151,2967 }, { 152,2967 },
- { 153,2967 }, { 154,2967 }, { 155,2967 }, { 156,2967 }, { 157,2967 },
- { 158,2967 }, { 159,2967 }, { 160,2967 }, { 161,2967 }, { 162,2967 },
- { 163,2967 }, { 164,2967 }, { 165,2967 }, { 166,2967 }, { 167,2967 },
- { 168,2967 }, { 169,2967 }, { 170,2967 }, { 171,2967 }, { 172,2967 },
-
- { 173,2967 }, { 174,2967 }, { 175,2967 }, { 176,2967 }, { 177,2967 },
- { 178,2967 }, { 179,2967 }, { 180,2967 }, { 181,2967 }, { 182,2967 },
- { 183,2967 }, { 184,2967 }, { 185,2967 }, { 186,2967 }, { 187,2967 },
- { 188,2967 }, { 189,2967 }, { 190,2967 }, { 191,2967 }, { 192,2967 },
- { 193,2967 }, { 194,2967 }, { 195,2967 }, { 196,2967 }, { 197,2967 },
- { 198,2967 }, { 199,2967 }, { 200,2967 }, { 201,2967 }, { 202,2967 },
- { 203,2967 }, { 204,2967 }, { 205,2967 }, { 206,2967 }, { 207,2967 },
- { 208,2967 }, { 209,2967 }, { 210,2967 }, { 211,2967 }, { 212,2967 },
- { 213,2967 }, { 214,2967 }, { 215,2967 }, { 216,2967 }, { 217,2967 },
- { 218,2967 }, { 219,2967 }, { 220,2967 }, { 221,2967 }, { 222,2967 },
-
- { 223,2967 }, { 224,2967 }, { 225,2967 }, { 226,2967 }, { 227,2967 },
- { 228,2967 }, { 229,2967 }, { 230,2967 }, { 231,2967 }, { 232,2967 },
- { 233,2967 }, { 234,2967 }, { 235,2967 }, { 236,2967 }, { 237,2967 },
- { 238,2967 }, { 239,2967 }, { 240,2967 }, { 241,2967 }, { 242,2967 },
- { 243,2967 }, { 244,2967 }, { 245,2967 }, { 246,2967 }, { 247,2967 },
- { 248,2967 }, { 249,2967 }, { 250,2967 }, { 251,2967 }, { 252,2967 },
- { 253,2967 }, { 254,2967 }, { 255,2967 }, { 256,2967 }, {   0,   0 },
- {   0,22404 }, {   1,3794 }, {   2,3794 }, {   3,3794 }, {   4,3794 },
- {   5,3794 }, {   6,3794 }, {   7,3794 }, {   8,3794 }, {   9,3794 },
- {  10,3796 }, {  11,3794 }, {  12,3794 }, {  13,3794 }, {  14,3794 },
-
- {  15,3794 }, {  16,3794 }, {  17,3794 }, {  18,3794 }, {  19,3794 },
- {  20,3794 }, {  21,3794 }, {  22,3794 }, {  23,3794 }, {  24,3794 },
- {  25,3794 }, {  26,3794 }, {  27,3794 }, {  28,3794 }, {  29,3794 },
- {  30,3794 }, {  31,3794 }, {  32,3794 }, {  33,3794 }, {  34,3794 },
- {  35,3794 }, {  36,3794 }, {  37,3794 }, {  38,3794 }, {  39,3794 },
- {  40,3794 }, {  41,3794 }, {  42,3794 }, {  43,3794 }, {  44,3794 },
- {  45,3794 }, {  46,3794 }, {  47,3794 }, {  48,3794 }, {  49,3794 },
- {  50,3794 }, {  51,3794 }, {  52,3794 }, {  53,3794 }, {  54,3794 },
- {  55,3794 }, {  56,3794 }, {  57,3794 }, {  58,3794 }, {  59,3794 },
- {  60,3794 }, {  61,3794 }, {  62,3794 }, {  63,3794 }, {  64,3794 },
-
- {  65,3794 }, {  66,3794 }, {  67,3794 }, {  68,3794 }, {  69,3794 },
- {  70,3794 }, {  71,3794 }, {  72,3794 }, {  73,3794 }, {  74,3794 },
- {  75,3794 }, {  76,3794 }, {  77,3794 }, {  78,3794 }, {  79,3794 },
- {  80,3794 }, {  81,3794 }, {  82,3794 }, {  83,3794 }, {  84,3794 },
- {  85,3794 }, {  86,3794 }, {  87,3794 }, {  88,3794 }, {  89,3794 },
- {  90,3794 }, {  91,3794 }, {  92,3794 }, {  93,3794 }, {  94,3794 },
- {  95,3794 }, {  96,3794 }, {  97,3794 }, {  98,3794 }, {  99,3794 },
- { 100,3794 }, { 101,3794 }, { 102,3794 }, { 103,3794 }, { 104,3794 },
- { 105,3794 }, { 106,3794 }, { 107,3794 }, { 108,3794 }, { 109,3794 },
- { 110,3794 }, { 111,3794 }, { 112,3794 }, { 113,3794 }, { 114,3794 },
-
- { 115,3794 }, { 116,3794 }, { 117,3794 }, { 118,3794 }, { 119,3794 },
- { 120,3794 }, { 121,3794 }, { 122,3794 }, { 123,3794 }, { 124,3794 },
- { 125,3794 }, { 126,3794 }, { 127,3794 }, { 128,3794 }, { 129,3794 },
- { 130,3794 }, { 131,3794 }, { 132,3794 }, { 133,3794 }, { 134,3794 },
- { 135,3794 }, { 136,3794 }, { 137,3794 }, { 138,3794 }, { 139,3794 },
- { 140,3794 }, { 141,3794 }, { 142,3794 }, { 143,3794 }, { 144,3794 },
- { 145,3794 }, { 146,3794 }, { 147,3794 }, { 148,3794 }, { 149,3794 },
- { 150,3794 }, { 151,3794 }, { 152,3794 }, { 153,3794 }, { 154,3794 },
- { 155,3794 }, { 156,3794 }, { 157,3794 }, { 158,3794 }, { 159,3794 },
- { 160,3794 }, { 161,3794 }, { 162,3794 }, { 163,3794 }, { 164,3794 },
-
- { 165,3794 }, { 166,3794 }, { 167,3794 }, { 168,3794 }, { 169,3794 },
- { 170,3794 }, { 171,3794 }, { 172,3794 }, { 173,3794 }, { 174,3794 },
- { 175,3794 }, { 176,3794 }, { 177,3794 }, { 178,3794 }, { 179,3794 },
- { 180,3794 }, { 181,3794 }, { 182,3794 }, { 183,3794 }, { 184,3794 },
- { 185,3794 }, { 186,3794 }, { 187,3794 }, { 188,3794 }, { 189,3794 },
- { 190,3794 }, { 191,3794 }, { 192,3794 }, { 193,3794 }, { 194,3794 },
- { 195,3794 }, { 196,3794 }, { 197,3794 }, { 198,3794 }, { 199,3794 },
- { 200,3794 }, { 201,3794 }, { 202,3794 }, { 203,3794 }, { 204,3794 },
- { 205,3794 }, { 206,3794 }, { 207,3794 }, { 208,3794 }, { 209,3794 },
- { 210,3794 }, { 211,3794 }, { 212,3794 }, { 213,3794 }, { 214,3794 },
-
- { 215,3794 }, { 216,3794 }, { 217,3794 }, { 218,3794 }, { 219,3794 },
- { 220,3794 }, { 221,3794 }, { 222,3794 }, { 223,3794 }, { 224,3794 },
- { 225,3794 }, { 226,3794 }, { 227,3794 }, { 228,3794 }, { 229,3794 },
- { 230,3794 }, { 231,3794 }, { 232,3794 }, { 233,3794 }, { 234,3794 },
- { 235,3794 }, { 236,3794 }, { 237,3794 }, { 238,3794 }, { 239,3794 },
- { 240,3794 }, { 241,3794 }, { 242,3794 }, { 243,3794 }, { 244,3794 },
- { 245,3794 }, { 246,3794 }, { 247,3794 }, { 248,3794 }, { 249,3794 },
- { 250,3794 }, { 251,3794 }, { 252,3794 }, { 253,3794 }, { 254,3794 },
- { 255,3794 }, { 256,3794 }, {   0,   0 }, {   0,22146 }, {   1,3536 },
- {   2,3536 }, {   3,3536 }, {   4,3536 }, {   5,3536 }, {   6,3536 },
-
- {   7,3536 }, {   8,3536 }, {   9,3536 }, {  10,3538 }, {  11,3536 },
- {  12,3536 }, {  13,3536 }, {  14,3536 }, {  15,3536 }, {  16,3536 },
- {  17,3536 }, {  18,3536 }, {  19,3536 }, {  20,3536 }, {  21,3536 },
- {  22,3536 }, {  23,3536 }, {  24,3536 }, {  25,3536 }, {  26,3536 },
- {  27,3536 }, {  28,3536 }, {  29,3536 }, {  30,3536 }, {  31,3536 },
- {  32,3536 }, {  33,3536 }, {  34,3536 }, {  35,3536 }, {  36,3536 },
- {  37,3536 }, {  38,3536 }, {  39,3536 }, {  40,3536 }, {  41,3536 },
- {  42,3536 }, {  43,3536 }, {  44,3536 }, {  45,3536 }, {  46,3536 },
- {  47,3536 }, {  48,3536 }, {  49,3536 }, {  50,3536 }, {  51,3536 },
- {  52,3536 }, {  53,3536 }, {  54,3536 }, {  55,3536 }, {  56,3536 },
-
- {  57,3536 }, {  58,3536 }, {  59,3536 }, {  60,3536 }, {  61,3536 },
- {  62,3536 }, {  63,3536 }, {  64,3536 }, {  65,3536 }, {  66,3536 },
- {  67,3536 }, {  68,3536 }, {  69,3536 }, {  70,3536 }, {  71,3536 },
- {  72,3536 }, {  73,3536 }, {  74,3536 }, {  75,3536 }, {  76,3536 },
- {  77,3536 }, {  78,3536 }, {  79,3536 }, {  80,3536 }, {  81,3536 },
- {  82,3536 }, {  83,3536 }, {  84,3536 }, {  85,3536 }, {  86,3536 },
- {  87,3536 }, {  88,3536 }, {  89,3536 }, {  90,3536 }, {  91,3536 },
- {  92,3536 }, {  93,3536 }, {  94,3536 }, {  95,3536 }, {  96,3536 },
- {  97,3536 }, {  98,3536 }, {  99,3536 }, { 100,3536 }, { 101,3536 },
- { 102,3536 }, { 103,3536 }, { 104,3536 }, { 105,3536 }, { 106,3536 },
-
- { 107,3536 }, { 108,3536 }, { 109,3536 }, { 110,3536 }, { 111,3536 },
- { 112,3536 }, { 113,3536 }, { 114,3536 }, { 115,3536 }, { 116,3536 },
- { 117,3536 }, { 118,3536 }, { 119,3536 }, { 120,3536 }, { 121,3536 },
- { 122,3536 }, { 123,3536 }, { 124,3536 }, { 125,3536 }, { 126,3536 },
- { 127,3536 }, { 128,3536 }, { 129,3536 }, { 130,3536 }, { 131,3536 },
- { 132,3536 }, { 133,3536 }, { 134,3536 }, { 135,3536 }, { 136,3536 },
- { 137,3536 }, { 138,3536 }, { 139,3536 }, { 140,3536 }, { 141,3536 },
- { 142,3536 }, { 143,3536 }, { 144,3536 }, { 145,3536 }, { 146,3536 },
- { 147,3536 }, { 148,3536 }, { 149,3536 }, { 150,3536 }, { 151,3536 },
- { 152,3536 }, { 153,3536 }, { 154,3536 }, { 155,3536 }, { 156,3536 },
-
- { 157,3536 }, { 158,3536 }, { 159,3536 }, { 160,3536 }, { 161,3536 },
- { 162,3536 }, { 163,3536 }, { 164,3536 }, { 165,3536 }, { 166,3536 },
- { 167,3536 }, { 168,3536 }, { 169,3536 }, { 170,3536 }, { 171,3536 },
- { 172,3536 }, { 173,3536 }, { 174,3536 }, { 175,3536 }, { 176,3536 },
- { 177,3536 }, { 178,3536 }, { 179,3536 }, { 180,3536 }, { 181,3536 },
- { 182,3536 }, { 183,3536 }, { 184,3536 }, { 185,3536 }, { 186,3536 },
- { 187,3536 }, { 188,3536 }, { 189,3536 }, { 190,3536 }, { 191,3536 },
- { 192,3536 }, { 193,3536 }, { 194,3536 }, { 195,3536 }, { 196,3536 },
- { 197,3536 }, { 198,3536 }, { 199,3536 }, { 200,3536 }, { 201,3536 },
- { 202,3536 }, { 203,3536 }, { 204,3536 }, { 205,3536 }, { 206,3536 },
-
- { 207,3536 }, { 208,3536 }, { 209,3536 }, { 210,3536 }, { 211,3536 },
- { 212,3536 }, { 213,3536 }, { 214,3536 }, { 215,3536 }, { 216,3536 },
- { 217,3536 }, { 218,3536 }, { 219,3536 }, { 220,3536 }, { 221,3536 },
- { 222,3536 }, { 223,3536 }, { 224,3536 }, { 225,3536 }, { 226,3536 },
- { 227,3536 }, { 228,3536 }, { 229,3536 }, { 230,3536 }, { 231,3536 },
- { 232,3536 }, { 233,3536 }, { 234,3536 }, { 235,3536 }, { 236,3536 },
- { 237,3536 }, { 238,3536 }, { 239,3536 }, { 240,3536 }, { 241,3536 },
- { 242,3536 }, { 243,3536 }, { 244,3536 }, { 245,3536 }, { 246,3536 },
- { 247,3536 }, { 248,3536 }, { 249,3536 }, { 250,3536 }, { 251,3536 },
- { 252,3536 }, { 253,3536 }, { 254,3536 }, { 255,3536 }, { 256,3536 },
-
- {   0,   0 }, {   0,21888 }, {   1,5113 }, {   2,5113 }, {   3,5113 },
- {   4,5113 }, {   5,5113 }, {   6,5113 }, {   7,5113 }, {   8,5113 },
- {   9,5113 }, {  10,5113 }, {  11,5113 }, {  12,5113 }, {  13,5113 },
- {  14,5113 }, {  15,5113 }, {  16,5113 }, {  17,5113 }, {  18,5113 },
- {  19,5113 }, {  20,5113 }, {  21,5113 }, {  22,5113 }, {  23,5113 },
- {  24,5113 }, {  25,5113 }, {  26,5113 }, {  27,5113 }, {  28,5113 },
- {  29,5113 }, {  30,5113 }, {  31,5113 }, {  32,5113 }, {  33,5113 },
- {  34,5113 }, {  35,5113 }, {  36,5113 }, {  37,5113 }, {  38,5113 },
- {  39,5113 }, {  40,5113 }, {  41,5113 }, {  42,5113 }, {  43,5113 },
- {  44,5113 }, {  45,5371 }, {  46,5113 }, {  47,5113 }, {  48,5113 },
-
- {  49,5113 }, {  50,5113 }, {  51,5113 }, {  52,5113 }, {  53,5113 },
- {  54,5113 }, {  55,5113 }, {  56,5113 }, {  57,5113 }, {  58,5113 },
- {  59,5113 }, {  60,5113 }, {  61,5113 }, {  62,5113 }, {  63,5113 },
- {  64,5113 }, {  65,5113 }, {  66,5113 }, {  67,5113 }, {  68,5113 },
- {  69,5113 }, {  70,5113 }, {  71,5113 }, {  72,5113 }, {  73,5113 },
- {  74,5113 }, {  75,5113 }, {  76,5113 }, {  77,5113 }, {  78,5113 },
- {  79,5113 }, {  80,5113 }, {  81,5113 }, {  82,5113 }, {  83,5113 },
- {  84,5113 }, {  85,5113 }, {  86,5113 }, {  87,5113 }, {  88,5113 },
- {  89,5113 }, {  90,5113 }, {  91,5113 }, {  92,5113 }, {  93,5113 },
- {  94,5113 }, {  95,5113 }, {  96,5113 }, {  97,5113 }, {  98,5113 },
-
- {  99,5113 }, { 100,5113 }, { 101,5113 }, { 102,5113 }, { 103,5113 },
- { 104,5113 }, { 105,5113 }, { 106,5113 }, { 107,5113 }, { 108,5113 },
- { 109,5113 }, { 110,5113 }, { 111,5113 }, { 112,5113 }, { 113,5113 },
- { 114,5113 }, { 115,5113 }, { 116,5113 }, { 117,5113 }, { 118,5113 },
- { 119,5113 }, { 120,5113 }, { 121,5113 }, { 122,5113 }, { 123,5113 },
- { 124,5113 }, { 125,5113 }, { 126,5113 }, { 127,5113 }, { 128,5113 },
- { 129,5113 }, { 130,5113 }, { 131,5113 }, { 132,5113 }, { 133,5113 },
- { 134,5113 }, { 135,5113 }, { 136,5113 }, { 137,5113 }, { 138,5113 },
- { 139,5113 }, { 140,5113 }, { 141,5113 }, { 142,5113 }, { 143,5113 },
- { 144,5113 }, { 145,5113 }, { 146,5113 }, { 147,5113 }, { 148,5113 },
-
- { 149,5113 }, { 150,5113 }, { 151,5113 }, { 152,5113 }, { 153,5113 },
- { 154,5113 }, { 155,5113 }, { 156,5113 }, { 157,5113 }, { 158,5113 },
- { 159,5113 }, { 160,5113 }, { 161,5113 }, { 162,5113 }, { 163,5113 },
- { 164,5113 }, { 165,5113 }, { 166,5113 }, { 167,5113 }, { 168,5113 },
- { 169,5113 }, { 170,5113 }, { 171,5113 }, { 172,5113 }, { 173,5113 },
- { 174,5113 }, { 175,5113 }, { 176,5113 }, { 177,5113 }, { 178,5113 },
- { 179,5113 }, { 180,5113 }, { 181,5113 }, { 182,5113 }, { 183,5113 },
- { 184,5113 }, { 185,5113 }, { 186,5113 }, { 187,5113 }, { 188,5113 },
- { 189,5113 }, { 190,5113 }, { 191,5113 }, { 192,5113 }, { 193,5113 },
- { 194,5113 }, { 195,5113 }, { 196,5113 }, { 197,5113 }, { 198,5113 },
-
- { 199,5113 }, { 200,5113 }, { 201,5113 }, { 202,5113 }, { 203,5113 },
- { 204,5113 }, { 205,5113 }, { 206,5113 }, { 207,5113 }, { 208,5113 },
- { 209,5113 }, { 210,5113 }, { 211,5113 }, { 212,5113 }, { 213,5113 },
- { 214,5113 }, { 215,5113 }, { 216,5113 }, { 217,5113 }, { 218,5113 },
- { 219,5113 }, { 220,5113 }, { 221,5113 }, { 222,5113 }, { 223,5113 },
- { 224,5113 }, { 225,5113 }, { 226,5113 }, { 227,5113 }, { 228,5113 },
- { 229,5113 }, { 230,5113 }, { 231,5113 }, { 232,5113 }, { 233,5113 },
- { 234,5113 }, { 235,5113 }, { 236,5113 }, { 237,5113 }, { 238,5113 },
- { 239,5113 }, { 240,5113 }, { 241,5113 }, { 242,5113 }, { 243,5113 },
- { 244,5113 }, { 245,5113 }, { 246,5113 }, { 247,5113 }, { 248,5113 },
-
- { 249,5113 }, { 250,5113 }, { 251,5113 }, { 252,5113 }, { 253,5113 },
- { 254,5113 }, { 255,5113 }, { 256,5113 }, {   0,   0 }, {   0,21630 },
- {   1,4855 }, {   2,4855 }, {   3,4855 }, {   4,4855 }, {   5,4855 },
- {   6,4855 }, {   7,4855 }, {   8,4855 }, {   9,4855 }, {  10,4855 },
- {  11,4855 }, {  12,4855 }, {  13,4855 }, {  14,4855 }, {  15,4855 },
- {  16,4855 }, {  17,4855 }, {  18,4855 }, {  19,4855 }, {  20,4855 },
- {  21,4855 }, {  22,4855 }, {  23,4855 }, {  24,4855 }, {  25,4855 },
- {  26,4855 }, {  27,4855 }, {  28,4855 }, {  29,4855 }, {  30,4855 },
- {  31,4855 }, {  32,4855 }, {  33,4855 }, {  34,4855 }, {  35,4855 },
- {  36,4855 }, {  37,4855 }, {  38,4855 }, {  39,4855 }, {  40,4855 },
-
- {  41,4855 }, {  42,4855 }, {  43,4855 }, {  44,4855 }, {  45,5113 },
- {  46,4855 }, {  47,4855 }, {  48,4855 }, {  49,4855 }, {  50,4855 },
- {  51,4855 }, {  52,4855 }, {  53,4855 }, {  54,4855 }, {  55,4855 },
- {  56,4855 }, {  57,4855 }, {  58,4855 }, {  59,4855 }, {  60,4855 },
- {  61,4855 }, {  62,4855 }, {  63,4855 }, {  64,4855 }, {  65,4855 },
- {  66,4855 }, {  67,4855 }, {  68,4855 }, {  69,4855 }, {  70,4855 },
- {  71,4855 }, {  72,4855 }, {  73,4855 }, {  74,4855 }, {  75,4855 },
- {  76,4855 }, {  77,4855 }, {  78,4855 }, {  79,4855 }, {  80,4855 },
- {  81,4855 }, {  82,4855 }, {  83,4855 }, {  84,4855 }, {  85,4855 },
- {  86,4855 }, {  87,4855 }, {  88,4855 }, {  89,4855 }, {  90,4855 },
-
- {  91,4855 }, {  92,4855 }, {  93,4855 }, {  94,4855 }, {  95,4855 },
- {  96,4855 }, {  97,4855 }, {  98,4855 }, {  99,4855 }, { 100,4855 },
- { 101,4855 }, { 102,4855 }, { 103,4855 }, { 104,4855 }, { 105,4855 },
- { 106,4855 }, { 107,4855 }, { 108,4855 }, { 109,4855 }, { 110,4855 },
- { 111,4855 }, { 112,4855 }, { 113,4855 }, { 114,4855 }, { 115,4855 },
- { 116,4855 }, { 117,4855 }, { 118,4855 }, { 119,4855 }, { 120,4855 },
- { 121,4855 }, { 122,4855 }, { 123,4855 }, { 124,4855 }, { 125,4855 },
- { 126,4855 }, { 127,4855 }, { 128,4855 }, { 129,4855 }, { 130,4855 },
- { 131,4855 }, { 132,4855 }, { 133,4855 }, { 134,4855 }, { 135,4855 },
- { 136,4855 }, { 137,4855 }, { 138,4855 }, { 139,4855 }, { 140,4855 },
-
- { 141,4855 }, { 142,4855 }, { 143,4855 }, { 144,4855 }, { 145,4855 },
- { 146,4855 }, { 147,4855 }, { 148,4855 }, { 149,4855 }, { 150,4855 },
- { 151,4855 }, { 152,4855 }, { 153,4855 }, { 154,4855 }, { 155,4855 },
- { 156,4855 }, { 157,4855 }, { 158,4855 }, { 159,4855 }, { 160,4855 },
- { 161,4855 }, { 162,4855 }, { 163,4855 }, { 164,4855 }, { 165,4855 },
- { 166,4855 }, { 167,4855 }, { 168,4855 }, { 169,4855 }, { 170,4855 },
- { 171,4855 }, { 172,4855 }, { 173,4855 }, { 174,4855 }, { 175,4855 },
- { 176,4855 }, { 177,4855 }, { 178,4855 }, { 179,4855 }, { 180,4855 },
- { 181,4855 }, { 182,4855 }, { 183,4855 }, { 184,4855 }, { 185,4855 },
- { 186,4855 }, { 187,4855 }, { 188,4855 }, { 189,4855 }, { 190,4855 },
-
- { 191,4855 }, { 192,4855 }, { 193,4855 }, { 194,4855 }, { 195,4855 },
- { 196,4855 }, { 197,4855 }, { 198,4855 }, { 199,4855 }, { 200,4855 },
- { 201,4855 }, { 202,4855 }, { 203,4855 }, { 204,4855 }, { 205,4855 },
- { 206,4855 }, { 207,4855 }, { 208,4855 }, { 209,4855 }, { 210,4855 },
- { 211,4855 }, { 212,4855 }, { 213,4855 }, { 214,4855 }, { 215,4855 },
- { 216,4855 }, { 217,4855 }, { 218,4855 }, { 219,4855 }, { 220,4855 },
- { 221,4855 }, { 222,4855 }, { 223,4855 }, { 224,4855 }, { 225,4855 },
- { 226,4855 }, { 227,4855 }, { 228,4855 }, { 229,4855 }, { 230,4855 },
- { 231,4855 }, { 232,4855 }, { 233,4855 }, { 234,4855 }, { 235,4855 },
- { 236,4855 }, { 237,4855 }, { 238,4855 }, { 239,4855 }, { 240,4855 },
-
- { 241,4855 }, { 242,4855 }, { 243,4855 }, { 244,4855 }, { 245,4855 },
- { 246,4855 }, { 247,4855 }, { 248,4855 }, { 249,4855 }, { 250,4855 },
- { 251,4855 }, { 252,4855 }, { 253,4855 }, { 254,4855 }, { 255,4855 },
- { 256,4855 }, {   0,   0 }, {   0,21372 }, {   1,5113 }, {   2,5113 },
- {   3,5113 }, {   4,5113 }, {   5,5113 }, {   6,5113 }, {   7,5113 },
- {   8,5113 }, {   9,5113 }, {  10,5113 }, {  11,5113 }, {  12,5113 },
- {  13,5113 }, {  14,5113 }, {  15,5113 }, {  16,5113 }, {  17,5113 },
- {  18,5113 }, {  19,5113 }, {  20,5113 }, {  21,5113 }, {  22,5113 },
- {  23,5113 }, {  24,5113 }, {  25,5113 }, {  26,5113 }, {  27,5113 },
- {  28,5113 }, {  29,5113 }, {  30,5113 }, {  31,5113 }, {  32,5113 },
-
- {  33,5113 }, {  34,5113 }, {  35,5113 }, {  36,5113 }, {  37,5113 },
- {  38,5113 }, {  39,5113 }, {  40,5113 }, {  41,5113 }, {  42,5113 },
- {  43,5113 }, {  44,5113 }, {  45,5113 }, {  46,5113 }, {  47,5113 },
- {  48,5113 }, {  49,5113 }, {  50,5113 }, {  51,5113 }, {  52,5113 },
- {  53,5113 }, {  54,5113 }, {  55,5113 }, {  56,5113 }, {  57,5113 },
- {  58,5113 }, {  59,5113 }, {  60,5113 }, {  61,5113 }, {  62,5113 },
- {  63,5113 }, {  64,5113 }, {  65,5113 }, {  66,5113 }, {  67,5113 },
- {  68,5113 }, {  69,5113 }, {  70,5113 }, {  71,5113 }, {  72,5113 },
- {  73,5113 }, {  74,5113 }, {  75,5113 }, {  76,5113 }, {  77,5113 },
- {  78,5113 }, {  79,5113 }, {  80,5113 }, {  81,5113 }, {  82,5113 },
-
- {  83,5113 }, {  84,5113 }, {  85,5113 }, {  86,5113 }, {  87,5113 },
- {  88,5113 }, {  89,5113 }, {  90,5113 }, {  91,5113 }, {  92,5113 },
- {  93,5113 }, {  94,5113 }, {  95,5113 }, {  96,5113 }, {  97,5113 },
- {  98,5113 }, {  99,5113 }, { 100,5113 }, { 101,5113 }, { 102,5113 },
- { 103,5113 }, { 104,5113 }, { 105,5113 }, { 106,5113 }, { 107,5113 },
- { 108,5113 }, { 109,5113 }, { 110,5113 }, { 111,5113 }, { 112,5113 },
- { 113,5113 }, { 114,5113 }, { 115,5113 }, { 116,5113 }, { 117,5113 },
- { 118,5113 }, { 119,5113 }, { 120,5113 }, { 121,5113 }, { 122,5113 },
- { 123,5113 }, { 124,5113 }, { 125,5371 }, { 126,5113 }, { 127,5113 },
- { 128,5113 }, { 129,5113 }, { 130,5113 }, { 131,5113 }, { 132,5113 },
-
- { 133,5113 }, { 134,5113 }, { 135,5113 }, { 136,5113 }, { 137,5113 },
- { 138,5113 }, { 139,5113 }, { 140,5113 }, { 141,5113 }, { 142,5113 },
- { 143,5113 }, { 144,5113 }, { 145,5113 }, { 146,5113 }, { 147,5113 },
- { 148,5113 }, { 149,5113 }, { 150,5113 }, { 151,5113 }, { 152,5113 },
- { 153,5113 }, { 154,5113 }, { 155,5113 }, { 156,5113 }, { 157,5113 },
- { 158,5113 }, { 159,5113 }, { 160,5113 }, { 161,5113 }, { 162,5113 },
- { 163,5113 }, { 164,5113 }, { 165,5113 }, { 166,5113 }, { 167,5113 },
- { 168,5113 }, { 169,5113 }, { 170,5113 }, { 171,5113 }, { 172,5113 },
- { 173,5113 }, { 174,5113 }, { 175,5113 }, { 176,5113 }, { 177,5113 },
- { 178,5113 }, { 179,5113 }, { 180,5113 }, { 181,5113 }, { 182,5113 },
-
- { 183,5113 }, { 184,5113 }, { 185,5113 }, { 186,5113 }, { 187,5113 },
- { 188,5113 }, { 189,5113 }, { 190,5113 }, { 191,5113 }, { 192,5113 },
- { 193,5113 }, { 194,5113 }, { 195,5113 }, { 196,5113 }, { 197,5113 },
- { 198,5113 }, { 199,5113 }, { 200,5113 }, { 201,5113 }, { 202,5113 },
- { 203,5113 }, { 204,5113 }, { 205,5113 }, { 206,5113 }, { 207,5113 },
- { 208,5113 }, { 209,5113 }, { 210,5113 }, { 211,5113 }, { 212,5113 },
- { 213,5113 }, { 214,5113 }, { 215,5113 }, { 216,5113 }, { 217,5113 },
- { 218,5113 }, { 219,5113 }, { 220,5113 }, { 221,5113 }, { 222,5113 },
- { 223,5113 }, { 224,5113 }, { 225,5113 }, { 226,5113 }, { 227,5113 },
- { 228,5113 }, { 229,5113 }, { 230,5113 }, { 231,5113 }, { 232,5113 },
-
- { 233,5113 }, { 234,5113 }, { 235,5113 }, { 236,5113 }, { 237,5113 },
- { 238,5113 }, { 239,5113 }, { 240,5113 }, { 241,5113 }, { 242,5113 },
- { 243,5113 }, { 244,5113 }, { 245,5113 }, { 246,5113 }, { 247,5113 },
- { 248,5113 }, { 249,5113 }, { 250,5113 }, { 251,5113 }, { 252,5113 },
- { 253,5113 }, { 254,5113 }, { 255,5113 }, { 256,5113 }, {   0,   0 },
- {   0,21114 }, {   1,4855 }, {   2,4855 }, {   3,4855 }, {   4,4855 },
- {   5,4855 }, {   6,4855 }, {   7,4855 }, {   8,4855 }, {   9,4855 },
- {  10,4855 }, {  11,4855 }, {  12,4855 }, {  13,4855 }, {  14,4855 },
- {  15,4855 }, {  16,4855 }, {  17,4855 }, {  18,4855 }, {  19,4855 },
- {  20,4855 }, {  21,4855 }, {  22,4855 }, {  23,4855 }, {  24,4855 },
-
- {  25,4855 }, {  26,4855 }, {  27,4855 }, {  28,4855 }, {  29,4855 },
- {  30,4855 }, {  31,4855 }, {  32,4855 }, {  33,4855 }, {  34,4855 },
- {  35,4855 }, {  36,4855 }, {  37,4855 }, {  38,4855 }, {  39,4855 },
- {  40,4855 }, {  41,4855 }, {  42,4855 }, {  43,4855 }, {  44,4855 },
- {  45,4855 }, {  46,4855 }, {  47,4855 }, {  48,4855 }, {  49,4855 },
- {  50,4855 }, {  51,4855 }, {  52,4855 }, {  53,4855 }, {  54,4855 },
- {  55,4855 }, {  56,4855 }, {  57,4855 }, {  58,4855 }, {  59,4855 },
- {  60,4855 }, {  61,4855 }, {  62,4855 }, {  63,4855 }, {  64,4855 },
- {  65,4855 }, {  66,4855 }, {  67,4855 }, {  68,4855 }, {  69,4855 },
- {  70,4855 }, {  71,4855 }, {  72,4855 }, {  73,4855 }, {  74,4855 },
-
- {  75,4855 }, {  76,4855 }, {  77,4855 }, {  78,4855 }, {  79,4855 },
- {  80,4855 }, {  81,4855 }, {  82,4855 }, {  83,4855 }, {  84,4855 },
- {  85,4855 }, {  86,4855 }, {  87,4855 }, {  88,4855 }, {  89,4855 },
- {  90,4855 }, {  91,4855 }, {  92,4855 }, {  93,4855 }, {  94,4855 },
- {  95,4855 }, {  96,4855 }, {  97,4855 }, {  98,4855 }, {  99,4855 },
- { 100,4855 }, { 101,4855 }, { 102,4855 }, { 103,4855 }, { 104,4855 },
- { 105,4855 }, { 106,4855 }, { 107,4855 }, { 108,4855 }, { 109,4855 },
- { 110,4855 }, { 111,4855 }, { 112,4855 }, { 113,4855 }, { 114,4855 },
- { 115,4855 }, { 116,4855 }, { 117,4855 }, { 118,4855 }, { 119,4855 },
- { 120,4855 }, { 121,4855 }, { 122,4855 }, { 123,4855 }, { 124,4855 },
-
- { 125,5113 }, { 126,4855 }, { 127,4855 }, { 128,4855 }, { 129,4855 },
- { 130,4855 }, { 131,4855 }, { 132,4855 }, { 133,4855 }, { 134,4855 },
- { 135,4855 }, { 136,4855 }, { 137,4855 }, { 138,4855 }, { 139,4855 },
- { 140,4855 }, { 141,4855 }, { 142,4855 }, { 143,4855 }, { 144,4855 },
- { 145,4855 }, { 146,4855 }, { 147,4855 }, { 148,4855 }, { 149,4855 },
- { 150,4855 }, { 151,4855 }, { 152,4855 }, { 153,4855 }, { 154,4855 },
- { 155,4855 }, { 156,4855 }, { 157,4855 }, { 158,4855 }, { 159,4855 },
- { 160,4855 }, { 161,4855 }, { 162,4855 }, { 163,4855 }, { 164,4855 },
- { 165,4855 }, { 166,4855 }, { 167,4855 }, { 168,4855 }, { 169,4855 },
- { 170,4855 }, { 171,4855 }, { 172,4855 }, { 173,4855 }, { 174,4855 },
-
- { 175,4855 }, { 176,4855 }, { 177,4855 }, { 178,4855 }, { 179,4855 },
- { 180,4855 }, { 181,4855 }, { 182,4855 }, { 183,4855 }, { 184,4855 },
- { 185,4855 }, { 186,4855 }, { 187,4855 }, { 188,4855 }, { 189,4855 },
- { 190,4855 }, { 191,4855 }, { 192,4855 }, { 193,4855 }, { 194,4855 },
- { 195,4855 }, { 196,4855 }, { 197,4855 }, { 198,4855 }, { 199,4855 },
- { 200,4855 }, { 201,4855 }, { 202,4855 }, { 203,4855 }, { 204,4855 },
- { 205,4855 }, { 206,4855 }, { 207,4855 }, { 208,4855 }, { 209,4855 },
- { 210,4855 }, { 211,4855 }, { 212,4855 }, { 213,4855 }, { 214,4855 },
- { 215,4855 }, { 216,4855 }, { 217,4855 }, { 218,4855 }, { 219,4855 },
- { 220,4855 }, { 221,4855 }, { 222,4855 }, { 223,4855 }, { 224,4855 },
-
- { 225,4855 }, { 226,4855 }, { 227,4855 }, { 228,4855 }, { 229,4855 },
- { 230,4855 }, { 231,4855 }, { 232,4855 }, { 233,4855 }, { 234,4855 },
- { 235,4855 }, { 236,4855 }, { 237,4855 }, { 238,4855 }, { 239,4855 },
- { 240,4855 }, { 241,4855 }, { 242,4855 }, { 243,4855 }, { 244,4855 },
- { 245,4855 }, { 246,4855 }, { 247,4855 }, { 248,4855 }, { 249,4855 },
- { 250,4855 }, { 251,4855 }, { 252,4855 }, { 253,4855 }, { 254,4855 },
- { 255,4855 }, { 256,4855 }, {   0,   0 }, {   0,20856 }, {   1,5113 },
- {   2,5113 }, {   3,5113 }, {   4,5113 }, {   5,5113 }, {   6,5113 },
- {   7,5113 }, {   8,5113 }, {   9,5113 }, {  10,5113 }, {  11,5113 },
- {  12,5113 }, {  13,5113 }, {  14,5113 }, {  15,5113 }, {  16,5113 },
-
- {  17,5113 }, {  18,5113 }, {  19,5113 }, {  20,5113 }, {  21,5113 },
- {  22,5113 }, {  23,5113 }, {  24,5113 }, {  25,5113 }, {  26,5113 },
- {  27,5113 }, {  28,5113 }, {  29,5113 }, {  30,5113 }, {  31,5113 },
- {  32,5113 }, {  33,5113 }, {  34,5113 }, {  35,5113 }, {  36,5113 },
- {  37,5113 }, {  38,5113 }, {  39,5113 }, {  40,5113 }, {  41,5113 },
- {  42,5113 }, {  43,5113 }, {  44,5113 }, {  45,5113 }, {  46,5113 },
- {  47,5113 }, {  48,5113 }, {  49,5113 }, {  50,5113 }, {  51,5113 },
- {  52,5113 }, {  53,5113 }, {  54,5113 }, {  55,5113 }, {  56,5113 },
- {  57,5113 }, {  58,5113 }, {  59,5113 }, {  60,5113 }, {  61,5113 },
- {  62,5113 }, {  63,5113 }, {  64,5113 }, {  65,5113 }, {  66,5113 },
-
- {  67,5113 }, {  68,5113 }, {  69,5113 }, {  70,5113 }, {  71,5113 },
- {  72,5113 }, {  73,5113 }, {  74,5113 }, {  75,5113 }, {  76,5113 },
- {  77,5113 }, {  78,5113 }, {  79,5113 }, {  80,5113 }, {  81,5113 },
- {  82,5113 }, {  83,5113 }, {  84,5113 }, {  85,5113 }, {  86,5113 },
- {  87,5113 }, {  88,5113 }, {  89,5113 }, {  90,5113 }, {  91,5113 },
- {  92,5113 }, {  93,5113 }, {  94,5113 }, {  95,5113 }, {  96,5113 },
- {  97,5113 }, {  98,5113 }, {  99,5113 }, { 100,5113 }, { 101,5113 },
- { 102,5113 }, { 103,5113 }, { 104,5113 }, { 105,5113 }, { 106,5113 },
- { 107,5113 }, { 108,5113 }, { 109,5113 }, { 110,5113 }, { 111,5113 },
- { 112,5113 }, { 113,5113 }, { 114,5113 }, { 115,5113 }, { 116,5113 },
-
- { 117,5113 }, { 118,5113 }, { 119,5113 }, { 120,5113 }, { 121,5113 },
- { 122,5113 }, { 123,5371 }, { 124,5113 }, { 125,5113 }, { 126,5113 },
- { 127,5113 }, { 128,5113 }, { 129,5113 }, { 130,5113 }, { 131,5113 },
- { 132,5113 }, { 133,5113 }, { 134,5113 }, { 135,5113 }, { 136,5113 },
- { 137,5113 }, { 138,5113 }, { 139,5113 }, { 140,5113 }, { 141,5113 },
- { 142,5113 }, { 143,5113 }, { 144,5113 }, { 145,5113 }, { 146,5113 },
- { 147,5113 }, { 148,5113 }, { 149,5113 }, { 150,5113 }, { 151,5113 },
- { 152,5113 }, { 153,5113 }, { 154,5113 }, { 155,5113 }, { 156,5113 },
- { 157,5113 }, { 158,5113 }, { 159,5113 }, { 160,5113 }, { 161,5113 },
- { 162,5113 }, { 163,5113 }, { 164,5113 }, { 165,5113 }, { 166,5113 },
-
- { 167,5113 }, { 168,5113 }, { 169,5113 }, { 170,5113 }, { 171,5113 },
- { 172,5113 }, { 173,5113 }, { 174,5113 }, { 175,5113 }, { 176,5113 },
- { 177,5113 }, { 178,5113 }, { 179,5113 }, { 180,5113 }, { 181,5113 },
- { 182,5113 }, { 183,5113 }, { 184,5113 }, { 185,5113 }, { 186,5113 },
- { 187,5113 }, { 188,5113 }, { 189,5113 }, { 190,5113 }, { 191,5113 },
- { 192,5113 }, { 193,5113 }, { 194,5113 }, { 195,5113 }, { 196,5113 },
- { 197,5113 }, { 198,5113 }, { 199,5113 }, { 200,5113 }, { 201,5113 },
- { 202,5113 }, { 203,5113 }, { 204,5113 }, { 205,5113 }, { 206,5113 },
- { 207,5113 }, { 208,5113 }, { 209,5113 }, { 210,5113 }, { 211,5113 },
- { 212,5113 }, { 213,5113 }, { 214,5113 }, { 215,5113 }, { 216,5113 },
-
- { 217,5113 }, { 218,5113 }, { 219,5113 }, { 220,5113 }, { 221,5113 },
- { 222,5113 }, { 223,5113 }, { 224,5113 }, { 225,5113 }, { 226,5113 },
- { 227,5113 }, { 228,5113 }, { 229,5113 }, { 230,5113 }, { 231,5113 },
- { 232,5113 }, { 233,5113 }, { 234,5113 }, { 235,5113 }, { 236,5113 },
- { 237,5113 }, { 238,5113 }, { 239,5113 }, { 240,5113 }, { 241,5113 },
- { 242,5113 }, { 243,5113 }, { 244,5113 }, { 245,5113 }, { 246,5113 },
- { 247,5113 }, { 248,5113 }, { 249,5113 }, { 250,5113 }, { 251,5113 },
- { 252,5113 }, { 253,5113 }, { 254,5113 }, { 255,5113 }, { 256,5113 },
- {   0,   0 }, {   0,20598 }, {   1,4855 }, {   2,4855 }, {   3,4855 },
- {   4,4855 }, {   5,4855 }, {   6,4855 }, {   7,4855 }, {   8,4855 },
-
- {   9,4855 }, {  10,4855 }, {  11,4855 }, {  12,4855 }, {  13,4855 },
- {  14,4855 }, {  15,4855 }, {  16,4855 }, {  17,4855 }, {  18,4855 },
- {  19,4855 }, {  20,4855 }, {  21,4855 }, {  22,4855 }, {  23,4855 },
- {  24,4855 }, {  25,4855 }, {  26,4855 }, {  27,4855 }, {  28,4855 },
- {  29,4855 }, {  30,4855 }, {  31,4855 }, {  32,4855 }, {  33,4855 },
- {  34,4855 }, {  35,4855 }, {  36,4855 }, {  37,4855 }, {  38,4855 },
- {  39,4855 }, {  40,4855 }, {  41,4855 }, {  42,4855 }, {  43,4855 },
- {  44,4855 }, {  45,4855 }, {  46,4855 }, {  47,4855 }, {  48,4855 },
- {  49,4855 }, {  50,4855 }, {  51,4855 }, {  52,4855 }, {  53,4855 },
- {  54,4855 }, {  55,4855 }, {  56,4855 }, {  57,4855 }, {  58,4855 },
-
- {  59,4855 }, {  60,4855 }, {  61,4855 }, {  62,4855 }, {  63,4855 },
- {  64,4855 }, {  65,4855 }, {  66,4855 }, {  67,4855 }, {  68,4855 },
- {  69,4855 }, {  70,4855 }, {  71,4855 }, {  72,4855 }, {  73,4855 },
- {  74,4855 }, {  75,4855 }, {  76,4855 }, {  77,4855 }, {  78,4855 },
- {  79,4855 }, {  80,4855 }, {  81,4855 }, {  82,4855 }, {  83,4855 },
- {  84,4855 }, {  85,4855 }, {  86,4855 }, {  87,4855 }, {  88,4855 },
- {  89,4855 }, {  90,4855 }, {  91,4855 }, {  92,4855 }, {  93,4855 },
- {  94,4855 }, {  95,4855 }, {  96,4855 }, {  97,4855 }, {  98,4855 },
- {  99,4855 }, { 100,4855 }, { 101,4855 }, { 102,4855 }, { 103,4855 },
- { 104,4855 }, { 105,4855 }, { 106,4855 }, { 107,4855 }, { 108,4855 },
-
- { 109,4855 }, { 110,4855 }, { 111,4855 }, { 112,4855 }, { 113,4855 },
- { 114,4855 }, { 115,4855 }, { 116,4855 }, { 117,4855 }, { 118,4855 },
- { 119,4855 }, { 120,4855 }, { 121,4855 }, { 122,4855 }, { 123,5113 },
- { 124,4855 }, { 125,4855 }, { 126,4855 }, { 127,4855 }, { 128,4855 },
- { 129,4855 }, { 130,4855 }, { 131,4855 }, { 132,4855 }, { 133,4855 },
- { 134,4855 }, { 135,4855 }, { 136,4855 }, { 137,4855 }, { 138,4855 },
- { 139,4855 }, { 140,4855 }, { 141,4855 }, { 142,4855 }, { 143,4855 },
- { 144,4855 }, { 145,4855 }, { 146,4855 }, { 147,4855 }, { 148,4855 },
- { 149,4855 }, { 150,4855 }, { 151,4855 }, { 152,4855 }, { 153,4855 },
- { 154,4855 }, { 155,4855 }, { 156,4855 }, { 157,4855 }, { 158,4855 },
-
- { 159,4855 }, { 160,4855 }, { 161,4855 }, { 162,4855 }, { 163,4855 },
- { 164,4855 }, { 165,4855 }, { 166,4855 }, { 167,4855 }, { 168,4855 },
- { 169,4855 }, { 170,4855 }, { 171,4855 }, { 172,4855 }, { 173,4855 },
- { 174,4855 }, { 175,4855 }, { 176,4855 }, { 177,4855 }, { 178,4855 },
- { 179,4855 }, { 180,4855 }, { 181,4855 }, { 182,4855 }, { 183,4855 },
- { 184,4855 }, { 185,4855 }, { 186,4855 }, { 187,4855 }, { 188,4855 },
- { 189,4855 }, { 190,4855 }, { 191,4855 }, { 192,4855 }, { 193,4855 },
- { 194,4855 }, { 195,4855 }, { 196,4855 }, { 197,4855 }, { 198,4855 },
- { 199,4855 }, { 200,4855 }, { 201,4855 }, { 202,4855 }, { 203,4855 },
- { 204,4855 }, { 205,4855 }, { 206,4855 }, { 207,4855 }, { 208,4855 },
-
- { 209,4855 }, { 210,4855 }, { 211,4855 }, { 212,4855 }, { 213,4855 },
- { 214,4855 }, { 215,4855 }, { 216,4855 }, { 217,4855 }, { 218,4855 },
- { 219,4855 }, { 220,4855 }, { 221,4855 }, { 222,4855 }, { 223,4855 },
- { 224,4855 }, { 225,4855 }, { 226,4855 }, { 227,4855 }, { 228,4855 },
- { 229,4855 }, { 230,4855 }, { 231,4855 }, { 232,4855 }, { 233,4855 },
- { 234,4855 }, { 235,4855 }, { 236,4855 }, { 237,4855 }, { 238,4855 },
- { 239,4855 }, { 240,4855 }, { 241,4855 }, { 242,4855 }, { 243,4855 },
- { 244,4855 }, { 245,4855 }, { 246,4855 }, { 247,4855 }, { 248,4855 },
- { 249,4855 }, { 250,4855 }, { 251,4855 }, { 252,4855 }, { 253,4855 },
- { 254,4855 }, { 255,4855 }, { 256,4855 }, {   0,   2 }, {   0,20340 },
-
- {   1,4980 }, {   2,4980 }, {   3,4980 }, {   4,4980 }, {   5,4980 },
- {   6,4980 }, {   7,4980 }, {   8,4980 }, {   9,4980 }, {  10,4857 },
- {  11,4980 }, {  12,4980 }, {  13,4857 }, {  14,4980 }, {  15,4980 },
- {  16,4980 }, {  17,4980 }, {  18,4980 }, {  19,4980 }, {  20,4980 },
- {  21,4980 }, {  22,4980 }, {  23,4980 }, {  24,4980 }, {  25,4980 },
- {  26,4980 }, {  27,4980 }, {  28,4980 }, {  29,4980 }, {  30,4980 },
- {  31,4980 }, {  32,4980 }, {  33,4980 }, {  34,4980 }, {  35,4980 },
- {  36,4980 }, {  37,4980 }, {  38,4980 }, {  39,4980 }, {  40,4980 },
- {  41,4980 }, {  42,4980 }, {  43,4980 }, {  44,4980 }, {  45,4980 },
- {  46,4980 }, {  47,4980 }, {  48,4980 }, {  49,4980 }, {  50,4980 },
-
- {  51,4980 }, {  52,4980 }, {  53,4980 }, {  54,4980 }, {  55,4980 },
- {  56,4980 }, {  57,4980 }, {  58,4980 }, {  59,4980 }, {  60,4980 },
- {  61,4980 }, {  62,4980 }, {  63,4980 }, {  64,4980 }, {  65,4980 },
- {  66,4980 }, {  67,4980 }, {  68,4980 }, {  69,4980 }, {  70,4980 },
- {  71,4980 }, {  72,4980 }, {  73,4980 }, {  74,4980 }, {  75,4980 },
- {  76,4980 }, {  77,4980 }, {  78,4980 }, {  79,4980 }, {  80,4980 },
- {  81,4980 }, {  82,4980 }, {  83,4980 }, {  84,4980 }, {  85,4980 },
- {  86,4980 }, {  87,4980 }, {  88,4980 }, {  89,4980 }, {  90,4980 },
- {  91,4980 }, {  92,4859 }, {  93,4980 }, {  94,4980 }, {  95,4980 },
- {  96,4980 }, {  97,4980 }, {  98,4980 }, {  99,4980 }, { 100,4980 },
-
- { 101,4980 }, { 102,4980 }, { 103,4980 }, { 104,4980 }, { 105,4980 },
- { 106,4980 }, { 107,4980 }, { 108,4980 }, { 109,4980 }, { 110,4980 },
- { 111,4980 }, { 112,4980 }, { 113,4980 }, { 114,4980 }, { 115,4980 },
- { 116,4980 }, { 117,4980 }, { 118,4980 }, { 119,4980 }, { 120,4980 },
- { 121,4980 }, { 122,4980 }, {   0,   0 }, { 124,4980 }, { 125,4980 },
- { 126,4980 }, { 127,4980 }, { 128,4980 }, { 129,4980 }, { 130,4980 },
- { 131,4980 }, { 132,4980 }, { 133,4980 }, { 134,4980 }, { 135,4980 },
- { 136,4980 }, { 137,4980 }, { 138,4980 }, { 139,4980 }, { 140,4980 },
- { 141,4980 }, { 142,4980 }, { 143,4980 }, { 144,4980 }, { 145,4980 },
- { 146,4980 }, { 147,4980 }, { 148,4980 }, { 149,4980 }, { 150,4980 },
-
- { 151,4980 }, { 152,4980 }, { 153,4980 }, { 154,4980 }, { 155,4980 },
- { 156,4980 }, { 157,4980 }, { 158,4980 }, { 159,4980 }, { 160,4980 },
- { 161,4980 }, { 162,4980 }, { 163,4980 }, { 164,4980 }, { 165,4980 },
- { 166,4980 }, { 167,4980 }, { 168,4980 }, { 169,4980 }, { 170,4980 },
- { 171,4980 }, { 172,4980 }, { 173,4980 }, { 174,4980 }, { 175,4980 },
- { 176,4980 }, { 177,4980 }, { 178,4980 }, { 179,4980 }, { 180,4980 },
- { 181,4980 }, { 182,4980 }, { 183,4980 }, { 184,4980 }, { 185,4980 },
- { 186,4980 }, { 187,4980 }, { 188,4980 }, { 189,4980 }, { 190,4980 },
- { 191,4980 }, { 192,4980 }, { 193,4980 }, { 194,4980 }, { 195,4980 },
- { 196,4980 }, { 197,4980 }, { 198,4980 }, { 199,4980 }, { 200,4980 },
-
- { 201,4980 }, { 202,4980 }, { 203,4980 }, { 204,4980 }, { 205,4980 },
- { 206,4980 }, { 207,4980 }, { 208,4980 }, { 209,4980 }, { 210,4980 },
- { 211,4980 }, { 212,4980 }, { 213,4980 }, { 214,4980 }, { 215,4980 },
- { 216,4980 }, { 217,4980 }, { 218,4980 }, { 219,4980 }, { 220,4980 },
- { 221,4980 }, { 222,4980 }, { 223,4980 }, { 224,4980 }, { 225,4980 },
- { 226,4980 }, { 227,4980 }, { 228,4980 }, { 229,4980 }, { 230,4980 },
- { 231,4980 }, { 232,4980 }, { 233,4980 }, { 234,4980 }, { 235,4980 },
- { 236,4980 }, { 237,4980 }, { 238,4980 }, { 239,4980 }, { 240,4980 },
- { 241,4980 }, { 242,4980 }, { 243,4980 }, { 244,4980 }, { 245,4980 },
- { 246,4980 }, { 247,4980 }, { 248,4980 }, { 249,4980 }, { 250,4980 },
-
- { 251,4980 }, { 252,4980 }, { 253,4980 }, { 254,4980 }, { 255,4980 },
- { 256,4980 }, {   0,   2 }, {   0,20082 }, {   0,   6 }, {   0,20080 },
- {   0,   6 }, {   0,20078 }, {   0,  36 }, {   0,20076 }, {   0,  36 },
- {   0,20074 }, {   0,   0 }, {  10,4599 }, {   0,  51 }, {   0,20070 },
- {  13,4599 }, {   0,   0 }, {   9,5263 }, {  10,5263 }, {   9,5261 },
- {  10,5261 }, {  13,5263 }, {   0,   0 }, {  13,5261 }, {   0,  15 },
- {   0,20059 }, {   0,  16 }, {   0,20057 }, {   0,  35 }, {   0,20055 },
- {   0,  32 }, {   0,20053 }, {   0,  41 }, {   0,20051 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  32,5263 }, {   0,   0 }, {  32,5261 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4601 },
-
- {   0,   0 }, {  92,4978 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,4980 }, {   0,   0 }, { 123,4980 },
- {   0,   2 }, {   0,19953 }, {   1,4593 }, {   2,4593 }, {   3,4593 },
- {   4,4593 }, {   5,4593 }, {   6,4593 }, {   7,4593 }, {   8,4593 },
- {   9,4593 }, {  10,4470 }, {  11,4593 }, {  12,4593 }, {  13,4470 },
-
- {  14,4593 }, {  15,4593 }, {  16,4593 }, {  17,4593 }, {  18,4593 },
- {  19,4593 }, {  20,4593 }, {  21,4593 }, {  22,4593 }, {  23,4593 },
- {  24,4593 }, {  25,4593 }, {  26,4593 }, {  27,4593 }, {  28,4593 },
- {  29,4593 }, {  30,4593 }, {  31,4593 }, {  32,4593 }, {  33,4593 },
- {  34,4593 }, {  35,4593 }, {  36,4593 }, {  37,4593 }, {  38,4593 },
- {  39,4593 }, {  40,4593 }, {  41,4593 }, {  42,4593 }, {  43,4593 },
- {  44,4593 }, {  45,4593 }, {  46,4593 }, {  47,4593 }, {  48,4593 },
- {  49,4593 }, {  50,4593 }, {  51,4593 }, {  52,4593 }, {  53,4593 },
- {  54,4593 }, {  55,4593 }, {  56,4593 }, {  57,4593 }, {  58,4593 },
- {  59,4593 }, {  60,4593 }, {  61,4593 }, {  62,4593 }, {  63,4593 },
-
- {  64,4593 }, {  65,4593 }, {  66,4593 }, {  67,4593 }, {  68,4593 },
- {  69,4593 }, {  70,4593 }, {  71,4593 }, {  72,4593 }, {  73,4593 },
- {  74,4593 }, {  75,4593 }, {  76,4593 }, {  77,4593 }, {  78,4593 },
- {  79,4593 }, {  80,4593 }, {  81,4593 }, {  82,4593 }, {  83,4593 },
- {  84,4593 }, {  85,4593 }, {  86,4593 }, {  87,4593 }, {  88,4593 },
- {  89,4593 }, {  90,4593 }, {  91,4593 }, {  92,4472 }, {  93,4593 },
- {  94,4593 }, {  95,4593 }, {  96,4593 }, {  97,4593 }, {  98,4593 },
- {  99,4593 }, { 100,4593 }, { 101,4593 }, { 102,4593 }, { 103,4593 },
- { 104,4593 }, { 105,4593 }, { 106,4593 }, { 107,4593 }, { 108,4593 },
- { 109,4593 }, { 110,4593 }, { 111,4593 }, { 112,4593 }, { 113,4593 },
-
- { 114,4593 }, { 115,4593 }, { 116,4593 }, { 117,4593 }, { 118,4593 },
- { 119,4593 }, { 120,4593 }, { 121,4593 }, { 122,4593 }, {   0,   0 },
- { 124,4593 }, { 125,4593 }, { 126,4593 }, { 127,4593 }, { 128,4593 },
- { 129,4593 }, { 130,4593 }, { 131,4593 }, { 132,4593 }, { 133,4593 },
- { 134,4593 }, { 135,4593 }, { 136,4593 }, { 137,4593 }, { 138,4593 },
- { 139,4593 }, { 140,4593 }, { 141,4593 }, { 142,4593 }, { 143,4593 },
- { 144,4593 }, { 145,4593 }, { 146,4593 }, { 147,4593 }, { 148,4593 },
- { 149,4593 }, { 150,4593 }, { 151,4593 }, { 152,4593 }, { 153,4593 },
- { 154,4593 }, { 155,4593 }, { 156,4593 }, { 157,4593 }, { 158,4593 },
- { 159,4593 }, { 160,4593 }, { 161,4593 }, { 162,4593 }, { 163,4593 },
-
- { 164,4593 }, { 165,4593 }, { 166,4593 }, { 167,4593 }, { 168,4593 },
- { 169,4593 }, { 170,4593 }, { 171,4593 }, { 172,4593 }, { 173,4593 },
- { 174,4593 }, { 175,4593 }, { 176,4593 }, { 177,4593 }, { 178,4593 },
- { 179,4593 }, { 180,4593 }, { 181,4593 }, { 182,4593 }, { 183,4593 },
- { 184,4593 }, { 185,4593 }, { 186,4593 }, { 187,4593 }, { 188,4593 },
- { 189,4593 }, { 190,4593 }, { 191,4593 }, { 192,4593 }, { 193,4593 },
- { 194,4593 }, { 195,4593 }, { 196,4593 }, { 197,4593 }, { 198,4593 },
- { 199,4593 }, { 200,4593 }, { 201,4593 }, { 202,4593 }, { 203,4593 },
- { 204,4593 }, { 205,4593 }, { 206,4593 }, { 207,4593 }, { 208,4593 },
- { 209,4593 }, { 210,4593 }, { 211,4593 }, { 212,4593 }, { 213,4593 },
-
- { 214,4593 }, { 215,4593 }, { 216,4593 }, { 217,4593 }, { 218,4593 },
- { 219,4593 }, { 220,4593 }, { 221,4593 }, { 222,4593 }, { 223,4593 },
- { 224,4593 }, { 225,4593 }, { 226,4593 }, { 227,4593 }, { 228,4593 },
- { 229,4593 }, { 230,4593 }, { 231,4593 }, { 232,4593 }, { 233,4593 },
- { 234,4593 }, { 235,4593 }, { 236,4593 }, { 237,4593 }, { 238,4593 },
- { 239,4593 }, { 240,4593 }, { 241,4593 }, { 242,4593 }, { 243,4593 },
- { 244,4593 }, { 245,4593 }, { 246,4593 }, { 247,4593 }, { 248,4593 },
- { 249,4593 }, { 250,4593 }, { 251,4593 }, { 252,4593 }, { 253,4593 },
- { 254,4593 }, { 255,4593 }, { 256,4593 }, {   0,  51 }, {   0,19695 },
- {   1,4624 }, {   2,4624 }, {   3,4624 }, {   4,4624 }, {   5,4624 },
-
- {   6,4624 }, {   7,4624 }, {   8,4624 }, {   9,4599 }, {  10,4599 },
- {  11,4624 }, {  12,4624 }, {  13,4599 }, {  14,4624 }, {  15,4624 },
- {  16,4624 }, {  17,4624 }, {  18,4624 }, {  19,4624 }, {  20,4624 },
- {  21,4624 }, {  22,4624 }, {  23,4624 }, {  24,4624 }, {  25,4624 },
- {  26,4624 }, {  27,4624 }, {  28,4624 }, {  29,4624 }, {  30,4624 },
- {  31,4624 }, {  32,4599 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,4624 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,4599 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,4624 },
- {  46,4599 }, {  47,4599 }, {  48,4624 }, {  49,4624 }, {  50,4624 },
- {  51,4624 }, {  52,4624 }, {  53,4624 }, {  54,4624 }, {  55,4624 },
-
- {  56,4624 }, {  57,4624 }, {  58,4624 }, {   0,   0 }, {   0,   0 },
- {  61,4599 }, {   0,   0 }, {  63,4624 }, {   0,   0 }, {  65,4624 },
- {  66,4624 }, {  67,4624 }, {  68,4624 }, {  69,4624 }, {  70,4624 },
- {  71,4624 }, {  72,4624 }, {  73,4624 }, {  74,4624 }, {  75,4624 },
- {  76,4624 }, {  77,4624 }, {  78,4624 }, {  79,4624 }, {  80,4624 },
- {  81,4624 }, {  82,4624 }, {  83,4624 }, {  84,4624 }, {  85,4624 },
- {  86,4624 }, {  87,4624 }, {  88,4624 }, {  89,4624 }, {  90,4624 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,4624 },
- {   0,   0 }, {  97,4624 }, {  98,4624 }, {  99,4624 }, { 100,4624 },
- { 101,4624 }, { 102,4624 }, { 103,4624 }, { 104,4624 }, { 105,4624 },
-
- { 106,4624 }, { 107,4624 }, { 108,4624 }, { 109,4624 }, { 110,4624 },
- { 111,4624 }, { 112,4624 }, { 113,4624 }, { 114,4624 }, { 115,4624 },
- { 116,4624 }, { 117,4624 }, { 118,4624 }, { 119,4624 }, { 120,4624 },
- { 121,4624 }, { 122,4624 }, {   0,   0 }, { 124,4599 }, { 125,4599 },
- { 126,4599 }, { 127,4624 }, { 128,4624 }, { 129,4624 }, { 130,4624 },
- { 131,4624 }, { 132,4624 }, { 133,4624 }, { 134,4624 }, { 135,4624 },
- { 136,4624 }, { 137,4624 }, { 138,4624 }, { 139,4624 }, { 140,4624 },
- { 141,4624 }, { 142,4624 }, { 143,4624 }, { 144,4624 }, { 145,4624 },
- { 146,4624 }, { 147,4624 }, { 148,4624 }, { 149,4624 }, { 150,4624 },
- { 151,4624 }, { 152,4624 }, { 153,4624 }, { 154,4624 }, { 155,4624 },
-
- { 156,4624 }, { 157,4624 }, { 158,4624 }, { 159,4624 }, { 160,4624 },
- { 161,4624 }, { 162,4624 }, { 163,4624 }, { 164,4624 }, { 165,4624 },
- { 166,4624 }, { 167,4624 }, { 168,4624 }, { 169,4624 }, { 170,4624 },
- { 171,4624 }, { 172,4624 }, { 173,4624 }, { 174,4624 }, { 175,4624 },
- { 176,4624 }, { 177,4624 }, { 178,4624 }, { 179,4624 }, { 180,4624 },
- { 181,4624 }, { 182,4624 }, { 183,4624 }, { 184,4624 }, { 185,4624 },
- { 186,4624 }, { 187,4624 }, { 188,4624 }, { 189,4624 }, { 190,4624 },
- { 191,4624 }, { 192,4624 }, { 193,4624 }, { 194,4624 }, { 195,4624 },
- { 196,4624 }, { 197,4624 }, { 198,4624 }, { 199,4624 }, { 200,4624 },
- { 201,4624 }, { 202,4624 }, { 203,4624 }, { 204,4624 }, { 205,4624 },
-
- { 206,4624 }, { 207,4624 }, { 208,4624 }, { 209,4624 }, { 210,4624 },
- { 211,4624 }, { 212,4624 }, { 213,4624 }, { 214,4624 }, { 215,4624 },
- { 216,4624 }, { 217,4624 }, { 218,4624 }, { 219,4624 }, { 220,4624 },
- { 221,4624 }, { 222,4624 }, { 223,4624 }, { 224,4624 }, { 225,4624 },
- { 226,4624 }, { 227,4624 }, { 228,4624 }, { 229,4624 }, { 230,4624 },
- { 231,4624 }, { 232,4624 }, { 233,4624 }, { 234,4624 }, { 235,4624 },
- { 236,4624 }, { 237,4624 }, { 238,4624 }, { 239,4624 }, { 240,4624 },
- { 241,4624 }, { 242,4624 }, { 243,4624 }, { 244,4624 }, { 245,4624 },
- { 246,4624 }, { 247,4624 }, { 248,4624 }, { 249,4624 }, { 250,4624 },
- { 251,4624 }, { 252,4624 }, { 253,4624 }, { 254,4624 }, { 255,4624 },
-
- { 256,4624 }, {   0,  51 }, {   0,19437 }, {   1,4658 }, {   2,4658 },
- {   3,4658 }, {   4,4658 }, {   5,4658 }, {   6,4658 }, {   7,4658 },
- {   8,4658 }, {   9,4658 }, {  10,4658 }, {  11,4658 }, {  12,4658 },
- {  13,4658 }, {  14,4658 }, {  15,4658 }, {  16,4658 }, {  17,4658 },
- {  18,4658 }, {  19,4658 }, {  20,4658 }, {  21,4658 }, {  22,4658 },
- {  23,4658 }, {  24,4658 }, {  25,4658 }, {  26,4658 }, {  27,4658 },
- {  28,4658 }, {  29,4658 }, {  30,4658 }, {  31,4658 }, {  32,4658 },
- {  33,4658 }, {  34,4626 }, {  35,4658 }, {  36,4658 }, {  37,4658 },
- {  38,4658 }, {  39,4658 }, {  40,4658 }, {  41,4658 }, {  42,4658 },
- {  43,4658 }, {  44,4658 }, {  45,4658 }, {  46,4658 }, {  47,4658 },
-
- {  48,4658 }, {  49,4658 }, {  50,4658 }, {  51,4658 }, {  52,4658 },
- {  53,4658 }, {  54,4658 }, {  55,4658 }, {  56,4658 }, {  57,4658 },
- {  58,4658 }, {  59,4658 }, {  60,4658 }, {  61,4658 }, {  62,4658 },
- {  63,4658 }, {  64,4658 }, {  65,4658 }, {  66,4658 }, {  67,4658 },
- {  68,4658 }, {  69,4658 }, {  70,4658 }, {  71,4658 }, {  72,4658 },
- {  73,4658 }, {  74,4658 }, {  75,4658 }, {  76,4658 }, {  77,4658 },
- {  78,4658 }, {  79,4658 }, {  80,4658 }, {  81,4658 }, {  82,4658 },
- {  83,4658 }, {  84,4658 }, {  85,4658 }, {  86,4658 }, {  87,4658 },
- {  88,4658 }, {  89,4658 }, {  90,4658 }, {  91,4658 }, {  92,4916 },
- {  93,4658 }, {  94,4658 }, {  95,4658 }, {  96,4658 }, {  97,4658 },
-
- {  98,4658 }, {  99,4658 }, { 100,4658 }, { 101,4658 }, { 102,4658 },
- { 103,4658 }, { 104,4658 }, { 105,4658 }, { 106,4658 }, { 107,4658 },
- { 108,4658 }, { 109,4658 }, { 110,4658 }, { 111,4658 }, { 112,4658 },
- { 113,4658 }, { 114,4658 }, { 115,4658 }, { 116,4658 }, { 117,4658 },
- { 118,4658 }, { 119,4658 }, { 120,4658 }, { 121,4658 }, { 122,4658 },
- { 123,4658 }, { 124,4658 }, { 125,4658 }, { 126,4658 }, { 127,4658 },
- { 128,4658 }, { 129,4658 }, { 130,4658 }, { 131,4658 }, { 132,4658 },
- { 133,4658 }, { 134,4658 }, { 135,4658 }, { 136,4658 }, { 137,4658 },
- { 138,4658 }, { 139,4658 }, { 140,4658 }, { 141,4658 }, { 142,4658 },
- { 143,4658 }, { 144,4658 }, { 145,4658 }, { 146,4658 }, { 147,4658 },
-
- { 148,4658 }, { 149,4658 }, { 150,4658 }, { 151,4658 }, { 152,4658 },
- { 153,4658 }, { 154,4658 }, { 155,4658 }, { 156,4658 }, { 157,4658 },
- { 158,4658 }, { 159,4658 }, { 160,4658 }, { 161,4658 }, { 162,4658 },
- { 163,4658 }, { 164,4658 }, { 165,4658 }, { 166,4658 }, { 167,4658 },
- { 168,4658 }, { 169,4658 }, { 170,4658 }, { 171,4658 }, { 172,4658 },
- { 173,4658 }, { 174,4658 }, { 175,4658 }, { 176,4658 }, { 177,4658 },
- { 178,4658 }, { 179,4658 }, { 180,4658 }, { 181,4658 }, { 182,4658 },
- { 183,4658 }, { 184,4658 }, { 185,4658 }, { 186,4658 }, { 187,4658 },
- { 188,4658 }, { 189,4658 }, { 190,4658 }, { 191,4658 }, { 192,4658 },
- { 193,4658 }, { 194,4658 }, { 195,4658 }, { 196,4658 }, { 197,4658 },
-
- { 198,4658 }, { 199,4658 }, { 200,4658 }, { 201,4658 }, { 202,4658 },
- { 203,4658 }, { 204,4658 }, { 205,4658 }, { 206,4658 }, { 207,4658 },
- { 208,4658 }, { 209,4658 }, { 210,4658 }, { 211,4658 }, { 212,4658 },
- { 213,4658 }, { 214,4658 }, { 215,4658 }, { 216,4658 }, { 217,4658 },
- { 218,4658 }, { 219,4658 }, { 220,4658 }, { 221,4658 }, { 222,4658 },
- { 223,4658 }, { 224,4658 }, { 225,4658 }, { 226,4658 }, { 227,4658 },
- { 228,4658 }, { 229,4658 }, { 230,4658 }, { 231,4658 }, { 232,4658 },
- { 233,4658 }, { 234,4658 }, { 235,4658 }, { 236,4658 }, { 237,4658 },
- { 238,4658 }, { 239,4658 }, { 240,4658 }, { 241,4658 }, { 242,4658 },
- { 243,4658 }, { 244,4658 }, { 245,4658 }, { 246,4658 }, { 247,4658 },
-
- { 248,4658 }, { 249,4658 }, { 250,4658 }, { 251,4658 }, { 252,4658 },
- { 253,4658 }, { 254,4658 }, { 255,4658 }, { 256,4658 }, {   0,  51 },
- {   0,19179 }, {   1,4916 }, {   2,4916 }, {   3,4916 }, {   4,4916 },
- {   5,4916 }, {   6,4916 }, {   7,4916 }, {   8,4916 }, {   9,4916 },
- {  10,4916 }, {  11,4916 }, {  12,4916 }, {  13,4916 }, {  14,4916 },
- {  15,4916 }, {  16,4916 }, {  17,4916 }, {  18,4916 }, {  19,4916 },
- {  20,4916 }, {  21,4916 }, {  22,4916 }, {  23,4916 }, {  24,4916 },
- {  25,4916 }, {  26,4916 }, {  27,4916 }, {  28,4916 }, {  29,4916 },
- {  30,4916 }, {  31,4916 }, {  32,4916 }, {  33,4916 }, {  34,4916 },
- {  35,4916 }, {  36,4916 }, {  37,4916 }, {  38,4916 }, {  39,4370 },
-
- {  40,4916 }, {  41,4916 }, {  42,4916 }, {  43,4916 }, {  44,4916 },
- {  45,4916 }, {  46,4916 }, {  47,4916 }, {  48,4916 }, {  49,4916 },
- {  50,4916 }, {  51,4916 }, {  52,4916 }, {  53,4916 }, {  54,4916 },
- {  55,4916 }, {  56,4916 }, {  57,4916 }, {  58,4916 }, {  59,4916 },
- {  60,4916 }, {  61,4916 }, {  62,4916 }, {  63,4916 }, {  64,4916 },
- {  65,4916 }, {  66,4916 }, {  67,4916 }, {  68,4916 }, {  69,4916 },
- {  70,4916 }, {  71,4916 }, {  72,4916 }, {  73,4916 }, {  74,4916 },
- {  75,4916 }, {  76,4916 }, {  77,4916 }, {  78,4916 }, {  79,4916 },
- {  80,4916 }, {  81,4916 }, {  82,4916 }, {  83,4916 }, {  84,4916 },
- {  85,4916 }, {  86,4916 }, {  87,4916 }, {  88,4916 }, {  89,4916 },
-
- {  90,4916 }, {  91,4916 }, {  92,5174 }, {  93,4916 }, {  94,4916 },
- {  95,4916 }, {  96,4916 }, {  97,4916 }, {  98,4916 }, {  99,4916 },
- { 100,4916 }, { 101,4916 }, { 102,4916 }, { 103,4916 }, { 104,4916 },
- { 105,4916 }, { 106,4916 }, { 107,4916 }, { 108,4916 }, { 109,4916 },
- { 110,4916 }, { 111,4916 }, { 112,4916 }, { 113,4916 }, { 114,4916 },
- { 115,4916 }, { 116,4916 }, { 117,4916 }, { 118,4916 }, { 119,4916 },
- { 120,4916 }, { 121,4916 }, { 122,4916 }, { 123,4916 }, { 124,4916 },
- { 125,4916 }, { 126,4916 }, { 127,4916 }, { 128,4916 }, { 129,4916 },
- { 130,4916 }, { 131,4916 }, { 132,4916 }, { 133,4916 }, { 134,4916 },
- { 135,4916 }, { 136,4916 }, { 137,4916 }, { 138,4916 }, { 139,4916 },
-
- { 140,4916 }, { 141,4916 }, { 142,4916 }, { 143,4916 }, { 144,4916 },
- { 145,4916 }, { 146,4916 }, { 147,4916 }, { 148,4916 }, { 149,4916 },
- { 150,4916 }, { 151,4916 }, { 152,4916 }, { 153,4916 }, { 154,4916 },
- { 155,4916 }, { 156,4916 }, { 157,4916 }, { 158,4916 }, { 159,4916 },
- { 160,4916 }, { 161,4916 }, { 162,4916 }, { 163,4916 }, { 164,4916 },
- { 165,4916 }, { 166,4916 }, { 167,4916 }, { 168,4916 }, { 169,4916 },
- { 170,4916 }, { 171,4916 }, { 172,4916 }, { 173,4916 }, { 174,4916 },
- { 175,4916 }, { 176,4916 }, { 177,4916 }, { 178,4916 }, { 179,4916 },
- { 180,4916 }, { 181,4916 }, { 182,4916 }, { 183,4916 }, { 184,4916 },
- { 185,4916 }, { 186,4916 }, { 187,4916 }, { 188,4916 }, { 189,4916 },
-
- { 190,4916 }, { 191,4916 }, { 192,4916 }, { 193,4916 }, { 194,4916 },
- { 195,4916 }, { 196,4916 }, { 197,4916 }, { 198,4916 }, { 199,4916 },
- { 200,4916 }, { 201,4916 }, { 202,4916 }, { 203,4916 }, { 204,4916 },
- { 205,4916 }, { 206,4916 }, { 207,4916 }, { 208,4916 }, { 209,4916 },
- { 210,4916 }, { 211,4916 }, { 212,4916 }, { 213,4916 }, { 214,4916 },
- { 215,4916 }, { 216,4916 }, { 217,4916 }, { 218,4916 }, { 219,4916 },
- { 220,4916 }, { 221,4916 }, { 222,4916 }, { 223,4916 }, { 224,4916 },
- { 225,4916 }, { 226,4916 }, { 227,4916 }, { 228,4916 }, { 229,4916 },
- { 230,4916 }, { 231,4916 }, { 232,4916 }, { 233,4916 }, { 234,4916 },
- { 235,4916 }, { 236,4916 }, { 237,4916 }, { 238,4916 }, { 239,4916 },
-
- { 240,4916 }, { 241,4916 }, { 242,4916 }, { 243,4916 }, { 244,4916 },
- { 245,4916 }, { 246,4916 }, { 247,4916 }, { 248,4916 }, { 249,4916 },
- { 250,4916 }, { 251,4916 }, { 252,4916 }, { 253,4916 }, { 254,4916 },
- { 255,4916 }, { 256,4916 }, {   0,  51 }, {   0,18921 }, {   1,3850 },
- {   2,3850 }, {   3,3850 }, {   4,3850 }, {   5,3850 }, {   6,3850 },
- {   7,3850 }, {   8,3850 }, {   9,3825 }, {  10,3825 }, {  11,3850 },
- {  12,3850 }, {  13,3825 }, {  14,3850 }, {  15,3850 }, {  16,3850 },
- {  17,3850 }, {  18,3850 }, {  19,3850 }, {  20,3850 }, {  21,3850 },
- {  22,3850 }, {  23,3850 }, {  24,3850 }, {  25,3850 }, {  26,3850 },
- {  27,3850 }, {  28,3850 }, {  29,3850 }, {  30,3850 }, {  31,3850 },
-
- {  32,3825 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,3850 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,3825 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,3850 }, {  46,3825 },
- {  47,3825 }, {  48,5174 }, {  49,5174 }, {  50,5174 }, {  51,5174 },
- {  52,5174 }, {  53,5174 }, {  54,5174 }, {  55,5174 }, {  56,5174 },
- {  57,5174 }, {  58,3850 }, {   0,   0 }, {   0,   0 }, {  61,3825 },
- {   0,   0 }, {  63,3850 }, {   0,   0 }, {  65,3850 }, {  66,3850 },
- {  67,3850 }, {  68,3850 }, {  69,3850 }, {  70,3850 }, {  71,3850 },
- {  72,3850 }, {  73,3850 }, {  74,3850 }, {  75,3850 }, {  76,3850 },
- {  77,3850 }, {  78,3850 }, {  79,3850 }, {  80,3850 }, {  81,3850 },
-
- {  82,3850 }, {  83,3850 }, {  84,3850 }, {  85,3850 }, {  86,3850 },
- {  87,3850 }, {  88,3850 }, {  89,3850 }, {  90,3850 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,3850 }, {   0,   0 },
- {  97,3850 }, {  98,3850 }, {  99,3850 }, { 100,3850 }, { 101,3850 },
- { 102,3850 }, { 103,3850 }, { 104,3850 }, { 105,3850 }, { 106,3850 },
- { 107,3850 }, { 108,3850 }, { 109,3850 }, { 110,3850 }, { 111,3850 },
- { 112,3850 }, { 113,3850 }, { 114,3850 }, { 115,3850 }, { 116,3850 },
- { 117,3850 }, { 118,3850 }, { 119,3850 }, { 120,3850 }, { 121,3850 },
- { 122,3850 }, {   0,   0 }, { 124,3825 }, { 125,3825 }, { 126,3825 },
- { 127,3850 }, { 128,3850 }, { 129,3850 }, { 130,3850 }, { 131,3850 },
-
- { 132,3850 }, { 133,3850 }, { 134,3850 }, { 135,3850 }, { 136,3850 },
- { 137,3850 }, { 138,3850 }, { 139,3850 }, { 140,3850 }, { 141,3850 },
- { 142,3850 }, { 143,3850 }, { 144,3850 }, { 145,3850 }, { 146,3850 },
- { 147,3850 }, { 148,3850 }, { 149,3850 }, { 150,3850 }, { 151,3850 },
- { 152,3850 }, { 153,3850 }, { 154,3850 }, { 155,3850 }, { 156,3850 },
- { 157,3850 }, { 158,3850 }, { 159,3850 }, { 160,3850 }, { 161,3850 },
- { 162,3850 }, { 163,3850 }, { 164,3850 }, { 165,3850 }, { 166,3850 },
- { 167,3850 }, { 168,3850 }, { 169,3850 }, { 170,3850 }, { 171,3850 },
- { 172,3850 }, { 173,3850 }, { 174,3850 }, { 175,3850 }, { 176,3850 },
- { 177,3850 }, { 178,3850 }, { 179,3850 }, { 180,3850 }, { 181,3850 },
-
- { 182,3850 }, { 183,3850 }, { 184,3850 }, { 185,3850 }, { 186,3850 },
- { 187,3850 }, { 188,3850 }, { 189,3850 }, { 190,3850 }, { 191,3850 },
- { 192,3850 }, { 193,3850 }, { 194,3850 }, { 195,3850 }, { 196,3850 },
- { 197,3850 }, { 198,3850 }, { 199,3850 }, { 200,3850 }, { 201,3850 },
- { 202,3850 }, { 203,3850 }, { 204,3850 }, { 205,3850 }, { 206,3850 },
- { 207,3850 }, { 208,3850 }, { 209,3850 }, { 210,3850 }, { 211,3850 },
- { 212,3850 }, { 213,3850 }, { 214,3850 }, { 215,3850 }, { 216,3850 },
- { 217,3850 }, { 218,3850 }, { 219,3850 }, { 220,3850 }, { 221,3850 },
- { 222,3850 }, { 223,3850 }, { 224,3850 }, { 225,3850 }, { 226,3850 },
- { 227,3850 }, { 228,3850 }, { 229,3850 }, { 230,3850 }, { 231,3850 },
-
- { 232,3850 }, { 233,3850 }, { 234,3850 }, { 235,3850 }, { 236,3850 },
- { 237,3850 }, { 238,3850 }, { 239,3850 }, { 240,3850 }, { 241,3850 },
- { 242,3850 }, { 243,3850 }, { 244,3850 }, { 245,3850 }, { 246,3850 },
- { 247,3850 }, { 248,3850 }, { 249,3850 }, { 250,3850 }, { 251,3850 },
- { 252,3850 }, { 253,3850 }, { 254,3850 }, { 255,3850 }, { 256,3850 },
- {   0,  35 }, {   0,18663 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   9,3856 }, {  10,3856 }, {   0,   0 }, {   0,   0 }, {  13,3856 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18645 },
- {   0,  43 }, {   0,18643 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,3856 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3856 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  46,3858 }, {  47,3856 }, {   0,  51 },
- {   0,18614 }, {   0,  51 }, {   0,18612 }, {   0,   7 }, {   0,18610 },
- {   0,  52 }, {   0,18608 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  61,3856 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,  51 }, {   0,18581 }, {   1,3510 },
- {   2,3510 }, {   3,3510 }, {   4,3510 }, {   5,3510 }, {   6,3510 },
- {   7,3510 }, {   8,3510 }, {   9,3780 }, {  10,3780 }, {  11,3510 },
- {  12,3510 }, {  13,3780 }, {  14,3510 }, {  15,3510 }, {  16,3510 },
- {  17,3510 }, {  18,3510 }, {  19,3510 }, {  20,3510 }, {  21,3510 },
- {  22,3510 }, {  23,3510 }, {  24,3510 }, {  25,3510 }, {  26,3510 },
- {  27,3510 }, {  28,3510 }, {  29,3510 }, {  30,3510 }, {  31,3510 },
- {  32,3780 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,3510 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,3780 },
-
- { 124,3856 }, { 125,3856 }, { 126,3856 }, {  45,3510 }, {  46,5092 },
- {  47,3485 }, {  48,4834 }, {  49,4834 }, {  50,4834 }, {  51,4834 },
- {  52,4834 }, {  53,4834 }, {  54,4834 }, {  55,4834 }, {  56,4834 },
- {  57,4834 }, {  58,3510 }, { 123,7021 }, {   0,   0 }, {  61,3485 },
- {   0,   0 }, {  63,3510 }, {   0,   0 }, {  65,3510 }, {  66,3510 },
- {  67,3510 }, {  68,3510 }, {  69,3510 }, {  70,3510 }, {  71,3510 },
- {  72,3510 }, {  73,3510 }, {  74,3510 }, {  75,3510 }, {  76,3510 },
- {  77,3510 }, {  78,3510 }, {  79,3510 }, {  80,3510 }, {  81,3510 },
- {  82,3510 }, {  83,3510 }, {  84,3510 }, {  85,3510 }, {  86,3510 },
- {  87,3510 }, {  88,3510 }, {  89,3510 }, {  90,3510 }, {   0,   0 },
-
- { 125,6992 }, { 126,6994 }, { 125,6994 }, {  95,3510 }, {   0,   0 },
- {  97,3510 }, {  98,3510 }, {  99,3510 }, { 100,3510 }, { 101,3510 },
- { 102,3510 }, { 103,3510 }, { 104,3510 }, { 105,3510 }, { 106,3510 },
- { 107,3510 }, { 108,3510 }, { 109,3510 }, { 110,3510 }, { 111,3510 },
- { 112,3510 }, { 113,3510 }, { 114,3510 }, { 115,3510 }, { 116,3510 },
- { 117,3510 }, { 118,3510 }, { 119,3510 }, { 120,3510 }, { 121,3510 },
- { 122,3510 }, {   0,   0 }, { 124,3485 }, { 125,3780 }, { 126,3780 },
- { 127,3510 }, { 128,3510 }, { 129,3510 }, { 130,3510 }, { 131,3510 },
- { 132,3510 }, { 133,3510 }, { 134,3510 }, { 135,3510 }, { 136,3510 },
- { 137,3510 }, { 138,3510 }, { 139,3510 }, { 140,3510 }, { 141,3510 },
-
- { 142,3510 }, { 143,3510 }, { 144,3510 }, { 145,3510 }, { 146,3510 },
- { 147,3510 }, { 148,3510 }, { 149,3510 }, { 150,3510 }, { 151,3510 },
- { 152,3510 }, { 153,3510 }, { 154,3510 }, { 155,3510 }, { 156,3510 },
- { 157,3510 }, { 158,3510 }, { 159,3510 }, { 160,3510 }, { 161,3510 },
- { 162,3510 }, { 163,3510 }, { 164,3510 }, { 165,3510 }, { 166,3510 },
- { 167,3510 }, { 168,3510 }, { 169,3510 }, { 170,3510 }, { 171,3510 },
- { 172,3510 }, { 173,3510 }, { 174,3510 }, { 175,3510 }, { 176,3510 },
- { 177,3510 }, { 178,3510 }, { 179,3510 }, { 180,3510 }, { 181,3510 },
- { 182,3510 }, { 183,3510 }, { 184,3510 }, { 185,3510 }, { 186,3510 },
- { 187,3510 }, { 188,3510 }, { 189,3510 }, { 190,3510 }, { 191,3510 },
-
- { 192,3510 }, { 193,3510 }, { 194,3510 }, { 195,3510 }, { 196,3510 },
- { 197,3510 }, { 198,3510 }, { 199,3510 }, { 200,3510 }, { 201,3510 },
- { 202,3510 }, { 203,3510 }, { 204,3510 }, { 205,3510 }, { 206,3510 },
- { 207,3510 }, { 208,3510 }, { 209,3510 }, { 210,3510 }, { 211,3510 },
- { 212,3510 }, { 213,3510 }, { 214,3510 }, { 215,3510 }, { 216,3510 },
- { 217,3510 }, { 218,3510 }, { 219,3510 }, { 220,3510 }, { 221,3510 },
- { 222,3510 }, { 223,3510 }, { 224,3510 }, { 225,3510 }, { 226,3510 },
- { 227,3510 }, { 228,3510 }, { 229,3510 }, { 230,3510 }, { 231,3510 },
- { 232,3510 }, { 233,3510 }, { 234,3510 }, { 235,3510 }, { 236,3510 },
- { 237,3510 }, { 238,3510 }, { 239,3510 }, { 240,3510 }, { 241,3510 },
-
- { 242,3510 }, { 243,3510 }, { 244,3510 }, { 245,3510 }, { 246,3510 },
- { 247,3510 }, { 248,3510 }, { 249,3510 }, { 250,3510 }, { 251,3510 },
- { 252,3510 }, { 253,3510 }, { 254,3510 }, { 255,3510 }, { 256,3510 },
- {   0,  51 }, {   0,18323 }, {   1,4893 }, {   2,4893 }, {   3,4893 },
- {   4,4893 }, {   5,4893 }, {   6,4893 }, {   7,4893 }, {   8,4893 },
- {   9,4893 }, {  10,4893 }, {  11,4893 }, {  12,4893 }, {  13,4893 },
- {  14,4893 }, {  15,4893 }, {  16,4893 }, {  17,4893 }, {  18,4893 },
- {  19,4893 }, {  20,4893 }, {  21,4893 }, {  22,4893 }, {  23,4893 },
- {  24,4893 }, {  25,4893 }, {  26,4893 }, {  27,4893 }, {  28,4893 },
- {  29,4893 }, {  30,4893 }, {  31,4893 }, {  32,4893 }, {  33,4893 },
-
- {  34,4893 }, {  35,4893 }, {  36,4893 }, {  37,4893 }, {  38,4893 },
- {  39,4893 }, {  40,4893 }, {  41,4893 }, {  42,4893 }, {  43,4893 },
- {  44,4893 }, {  45,4893 }, {  46,4893 }, {  47,4893 }, {  48,4893 },
- {  49,4893 }, {  50,4893 }, {  51,4893 }, {  52,4893 }, {  53,4893 },
- {  54,4893 }, {  55,4893 }, {  56,4893 }, {  57,4893 }, {  58,4893 },
- {  59,4893 }, {  60,4893 }, {  61,4893 }, {  62,4893 }, {  63,4893 },
- {  64,4893 }, {  65,4893 }, {  66,4893 }, {  67,4893 }, {  68,4893 },
- {  69,4893 }, {  70,4893 }, {  71,4893 }, {  72,4893 }, {  73,4893 },
- {  74,4893 }, {  75,4893 }, {  76,4893 }, {  77,4893 }, {  78,4893 },
- {  79,4893 }, {  80,4893 }, {  81,4893 }, {  82,4893 }, {  83,4893 },
-
- {  84,4893 }, {  85,4893 }, {  86,4893 }, {  87,4893 }, {  88,4893 },
- {  89,4893 }, {  90,4893 }, {  91,4893 }, {  92,5151 }, {  93,3525 },
- {  94,4893 }, {  95,4893 }, {  96,4893 }, {  97,4893 }, {  98,4893 },
- {  99,4893 }, { 100,4893 }, { 101,4893 }, { 102,4893 }, { 103,4893 },
- { 104,4893 }, { 105,4893 }, { 106,4893 }, { 107,4893 }, { 108,4893 },
- { 109,4893 }, { 110,4893 }, { 111,4893 }, { 112,4893 }, { 113,4893 },
- { 114,4893 }, { 115,4893 }, { 116,4893 }, { 117,4893 }, { 118,4893 },
- { 119,4893 }, { 120,4893 }, { 121,4893 }, { 122,4893 }, { 123,4893 },
- { 124,4893 }, { 125,4893 }, { 126,4893 }, { 127,4893 }, { 128,4893 },
- { 129,4893 }, { 130,4893 }, { 131,4893 }, { 132,4893 }, { 133,4893 },
-
- { 134,4893 }, { 135,4893 }, { 136,4893 }, { 137,4893 }, { 138,4893 },
- { 139,4893 }, { 140,4893 }, { 141,4893 }, { 142,4893 }, { 143,4893 },
- { 144,4893 }, { 145,4893 }, { 146,4893 }, { 147,4893 }, { 148,4893 },
- { 149,4893 }, { 150,4893 }, { 151,4893 }, { 152,4893 }, { 153,4893 },
- { 154,4893 }, { 155,4893 }, { 156,4893 }, { 157,4893 }, { 158,4893 },
- { 159,4893 }, { 160,4893 }, { 161,4893 }, { 162,4893 }, { 163,4893 },
- { 164,4893 }, { 165,4893 }, { 166,4893 }, { 167,4893 }, { 168,4893 },
- { 169,4893 }, { 170,4893 }, { 171,4893 }, { 172,4893 }, { 173,4893 },
- { 174,4893 }, { 175,4893 }, { 176,4893 }, { 177,4893 }, { 178,4893 },
- { 179,4893 }, { 180,4893 }, { 181,4893 }, { 182,4893 }, { 183,4893 },
-
- { 184,4893 }, { 185,4893 }, { 186,4893 }, { 187,4893 }, { 188,4893 },
- { 189,4893 }, { 190,4893 }, { 191,4893 }, { 192,4893 }, { 193,4893 },
- { 194,4893 }, { 195,4893 }, { 196,4893 }, { 197,4893 }, { 198,4893 },
- { 199,4893 }, { 200,4893 }, { 201,4893 }, { 202,4893 }, { 203,4893 },
- { 204,4893 }, { 205,4893 }, { 206,4893 }, { 207,4893 }, { 208,4893 },
- { 209,4893 }, { 210,4893 }, { 211,4893 }, { 212,4893 }, { 213,4893 },
- { 214,4893 }, { 215,4893 }, { 216,4893 }, { 217,4893 }, { 218,4893 },
- { 219,4893 }, { 220,4893 }, { 221,4893 }, { 222,4893 }, { 223,4893 },
- { 224,4893 }, { 225,4893 }, { 226,4893 }, { 227,4893 }, { 228,4893 },
- { 229,4893 }, { 230,4893 }, { 231,4893 }, { 232,4893 }, { 233,4893 },
-
- { 234,4893 }, { 235,4893 }, { 236,4893 }, { 237,4893 }, { 238,4893 },
- { 239,4893 }, { 240,4893 }, { 241,4893 }, { 242,4893 }, { 243,4893 },
- { 244,4893 }, { 245,4893 }, { 246,4893 }, { 247,4893 }, { 248,4893 },
- { 249,4893 }, { 250,4893 }, { 251,4893 }, { 252,4893 }, { 253,4893 },
- { 254,4893 }, { 255,4893 }, { 256,4893 }, {   0,  51 }, {   0,18065 },
- {   1,2994 }, {   2,2994 }, {   3,2994 }, {   4,2994 }, {   5,2994 },
- {   6,2994 }, {   7,2994 }, {   8,2994 }, {   9,2969 }, {  10,2969 },
- {  11,2994 }, {  12,2994 }, {  13,2969 }, {  14,2994 }, {  15,2994 },
- {  16,2994 }, {  17,2994 }, {  18,2994 }, {  19,2994 }, {  20,2994 },
- {  21,2994 }, {  22,2994 }, {  23,2994 }, {  24,2994 }, {  25,2994 },
-
- {  26,2994 }, {  27,2994 }, {  28,2994 }, {  29,2994 }, {  30,2994 },
- {  31,2994 }, {  32,2969 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,2994 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,2969 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2994 },
- {  46,2969 }, {  47,2969 }, {  48,2994 }, {  49,2994 }, {  50,2994 },
- {  51,2994 }, {  52,2994 }, {  53,2994 }, {  54,2994 }, {  55,2994 },
- {  56,2994 }, {  57,2994 }, {  58,2994 }, {   0,   0 }, {   0,   0 },
- {  61,2969 }, {   0,   0 }, {  63,2994 }, {   0,   0 }, {  65,2994 },
- {  66,2994 }, {  67,2994 }, {  68,2994 }, {  69,2994 }, {  70,2994 },
- {  71,2994 }, {  72,2994 }, {  73,2994 }, {  74,2994 }, {  75,2994 },
-
- {  76,2994 }, {  77,2994 }, {  78,2994 }, {  79,2994 }, {  80,2994 },
- {  81,2994 }, {  82,2994 }, {  83,2994 }, {  84,2994 }, {  85,2994 },
- {  86,2994 }, {  87,2994 }, {  88,2994 }, {  89,2994 }, {  90,2994 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2994 },
- {   0,   0 }, {  97,2994 }, {  98,2994 }, {  99,2994 }, { 100,2994 },
- { 101,2994 }, { 102,2994 }, { 103,2994 }, { 104,2994 }, { 105,2994 },
- { 106,2994 }, { 107,2994 }, { 108,2994 }, { 109,2994 }, { 110,2994 },
- { 111,2994 }, { 112,2994 }, { 113,2994 }, { 114,2994 }, { 115,5151 },
- { 116,2994 }, { 117,2994 }, { 118,2994 }, { 119,2994 }, { 120,2994 },
- { 121,2994 }, { 122,2994 }, {   0,   0 }, { 124,2969 }, { 125,2969 },
-
- { 126,2969 }, { 127,2994 }, { 128,2994 }, { 129,2994 }, { 130,2994 },
- { 131,2994 }, { 132,2994 }, { 133,2994 }, { 134,2994 }, { 135,2994 },
- { 136,2994 }, { 137,2994 }, { 138,2994 }, { 139,2994 }, { 140,2994 },
- { 141,2994 }, { 142,2994 }, { 143,2994 }, { 144,2994 }, { 145,2994 },
- { 146,2994 }, { 147,2994 }, { 148,2994 }, { 149,2994 }, { 150,2994 },
- { 151,2994 }, { 152,2994 }, { 153,2994 }, { 154,2994 }, { 155,2994 },
- { 156,2994 }, { 157,2994 }, { 158,2994 }, { 159,2994 }, { 160,2994 },
- { 161,2994 }, { 162,2994 }, { 163,2994 }, { 164,2994 }, { 165,2994 },
- { 166,2994 }, { 167,2994 }, { 168,2994 }, { 169,2994 }, { 170,2994 },
- { 171,2994 }, { 172,2994 }, { 173,2994 }, { 174,2994 }, { 175,2994 },
-
- { 176,2994 }, { 177,2994 }, { 178,2994 }, { 179,2994 }, { 180,2994 },
- { 181,2994 }, { 182,2994 }, { 183,2994 }, { 184,2994 }, { 185,2994 },
- { 186,2994 }, { 187,2994 }, { 188,2994 }, { 189,2994 }, { 190,2994 },
- { 191,2994 }, { 192,2994 }, { 193,2994 }, { 194,2994 }, { 195,2994 },
- { 196,2994 }, { 197,2994 }, { 198,2994 }, { 199,2994 }, { 200,2994 },
- { 201,2994 }, { 202,2994 }, { 203,2994 }, { 204,2994 }, { 205,2994 },
- { 206,2994 }, { 207,2994 }, { 208,2994 }, { 209,2994 }, { 210,2994 },
- { 211,2994 }, { 212,2994 }, { 213,2994 }, { 214,2994 }, { 215,2994 },
- { 216,2994 }, { 217,2994 }, { 218,2994 }, { 219,2994 }, { 220,2994 },
- { 221,2994 }, { 222,2994 }, { 223,2994 }, { 224,2994 }, { 225,2994 },
-
- { 226,2994 }, { 227,2994 }, { 228,2994 }, { 229,2994 }, { 230,2994 },
- { 231,2994 }, { 232,2994 }, { 233,2994 }, { 234,2994 }, { 235,2994 },
- { 236,2994 }, { 237,2994 }, { 238,2994 }, { 239,2994 }, { 240,2994 },
- { 241,2994 }, { 242,2994 }, { 243,2994 }, { 244,2994 }, { 245,2994 },
- { 246,2994 }, { 247,2994 }, { 248,2994 }, { 249,2994 }, { 250,2994 },
- { 251,2994 }, { 252,2994 }, { 253,2994 }, { 254,2994 }, { 255,2994 },
- { 256,2994 }, {   0,  51 }, {   0,17807 }, {   1,2736 }, {   2,2736 },
- {   3,2736 }, {   4,2736 }, {   5,2736 }, {   6,2736 }, {   7,2736 },
- {   8,2736 }, {   9,2711 }, {  10,2711 }, {  11,2736 }, {  12,2736 },
- {  13,2711 }, {  14,2736 }, {  15,2736 }, {  16,2736 }, {  17,2736 },
-
- {  18,2736 }, {  19,2736 }, {  20,2736 }, {  21,2736 }, {  22,2736 },
- {  23,2736 }, {  24,2736 }, {  25,2736 }, {  26,2736 }, {  27,2736 },
- {  28,2736 }, {  29,2736 }, {  30,2736 }, {  31,2736 }, {  32,2711 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2736 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2711 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,2736 }, {  46,2711 }, {  47,2711 },
- {  48,2736 }, {  49,2736 }, {  50,2736 }, {  51,2736 }, {  52,2736 },
- {  53,2736 }, {  54,2736 }, {  55,2736 }, {  56,2736 }, {  57,2736 },
- {  58,2736 }, {   0,   0 }, {   0,   0 }, {  61,2711 }, {   0,   0 },
- {  63,2736 }, {   0,   0 }, {  65,2736 }, {  66,2736 }, {  67,2736 },
-
- {  68,2736 }, {  69,2736 }, {  70,2736 }, {  71,2736 }, {  72,2736 },
- {  73,2736 }, {  74,2736 }, {  75,2736 }, {  76,2736 }, {  77,2736 },
- {  78,2736 }, {  79,2736 }, {  80,2736 }, {  81,2736 }, {  82,2736 },
- {  83,2736 }, {  84,2736 }, {  85,2736 }, {  86,2736 }, {  87,2736 },
- {  88,2736 }, {  89,2736 }, {  90,2736 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,2736 }, {   0,   0 }, {  97,5151 },
- {  98,2736 }, {  99,2736 }, { 100,2736 }, { 101,2736 }, { 102,2736 },
- { 103,2736 }, { 104,2736 }, { 105,2736 }, { 106,2736 }, { 107,2736 },
- { 108,2736 }, { 109,2736 }, { 110,2736 }, { 111,2736 }, { 112,2736 },
- { 113,2736 }, { 114,2736 }, { 115,2736 }, { 116,2736 }, { 117,2736 },
-
- { 118,2736 }, { 119,2736 }, { 120,2736 }, { 121,2736 }, { 122,2736 },
- {   0,   0 }, { 124,2711 }, { 125,2711 }, { 126,2711 }, { 127,2736 },
- { 128,2736 }, { 129,2736 }, { 130,2736 }, { 131,2736 }, { 132,2736 },
- { 133,2736 }, { 134,2736 }, { 135,2736 }, { 136,2736 }, { 137,2736 },
- { 138,2736 }, { 139,2736 }, { 140,2736 }, { 141,2736 }, { 142,2736 },
- { 143,2736 }, { 144,2736 }, { 145,2736 }, { 146,2736 }, { 147,2736 },
- { 148,2736 }, { 149,2736 }, { 150,2736 }, { 151,2736 }, { 152,2736 },
- { 153,2736 }, { 154,2736 }, { 155,2736 }, { 156,2736 }, { 157,2736 },
- { 158,2736 }, { 159,2736 }, { 160,2736 }, { 161,2736 }, { 162,2736 },
- { 163,2736 }, { 164,2736 }, { 165,2736 }, { 166,2736 }, { 167,2736 },
-
- { 168,2736 }, { 169,2736 }, { 170,2736 }, { 171,2736 }, { 172,2736 },
- { 173,2736 }, { 174,2736 }, { 175,2736 }, { 176,2736 }, { 177,2736 },
- { 178,2736 }, { 179,2736 }, { 180,2736 }, { 181,2736 }, { 182,2736 },
- { 183,2736 }, { 184,2736 }, { 185,2736 }, { 186,2736 }, { 187,2736 },
- { 188,2736 }, { 189,2736 }, { 190,2736 }, { 191,2736 }, { 192,2736 },
- { 193,2736 }, { 194,2736 }, { 195,2736 }, { 196,2736 }, { 197,2736 },
- { 198,2736 }, { 199,2736 }, { 200,2736 }, { 201,2736 }, { 202,2736 },
- { 203,2736 }, { 204,2736 }, { 205,2736 }, { 206,2736 }, { 207,2736 },
- { 208,2736 }, { 209,2736 }, { 210,2736 }, { 211,2736 }, { 212,2736 },
- { 213,2736 }, { 214,2736 }, { 215,2736 }, { 216,2736 }, { 217,2736 },
-
- { 218,2736 }, { 219,2736 }, { 220,2736 }, { 221,2736 }, { 222,2736 },
- { 223,2736 }, { 224,2736 }, { 225,2736 }, { 226,2736 }, { 227,2736 },
- { 228,2736 }, { 229,2736 }, { 230,2736 }, { 231,2736 }, { 232,2736 },
- { 233,2736 }, { 234,2736 }, { 235,2736 }, { 236,2736 }, { 237,2736 },
- { 238,2736 }, { 239,2736 }, { 240,2736 }, { 241,2736 }, { 242,2736 },
- { 243,2736 }, { 244,2736 }, { 245,2736 }, { 246,2736 }, { 247,2736 },
- { 248,2736 }, { 249,2736 }, { 250,2736 }, { 251,2736 }, { 252,2736 },
- { 253,2736 }, { 254,2736 }, { 255,2736 }, { 256,2736 }, {   0,  51 },
- {   0,17549 }, {   1,2478 }, {   2,2478 }, {   3,2478 }, {   4,2478 },
- {   5,2478 }, {   6,2478 }, {   7,2478 }, {   8,2478 }, {   9,2453 },
-
- {  10,2453 }, {  11,2478 }, {  12,2478 }, {  13,2453 }, {  14,2478 },
- {  15,2478 }, {  16,2478 }, {  17,2478 }, {  18,2478 }, {  19,2478 },
- {  20,2478 }, {  21,2478 }, {  22,2478 }, {  23,2478 }, {  24,2478 },
- {  25,2478 }, {  26,2478 }, {  27,2478 }, {  28,2478 }, {  29,2478 },
- {  30,2478 }, {  31,2478 }, {  32,2453 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,2478 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,2453 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,2478 }, {  46,2453 }, {  47,2453 }, {  48,2478 }, {  49,2478 },
- {  50,2478 }, {  51,2478 }, {  52,2478 }, {  53,2478 }, {  54,2478 },
- {  55,2478 }, {  56,2478 }, {  57,2478 }, {  58,2478 }, {   0,   0 },
-
- {   0,   0 }, {  61,2453 }, {   0,   0 }, {  63,2478 }, {   0,   0 },
- {  65,2478 }, {  66,2478 }, {  67,2478 }, {  68,2478 }, {  69,2478 },
- {  70,2478 }, {  71,2478 }, {  72,2478 }, {  73,2478 }, {  74,2478 },
- {  75,2478 }, {  76,2478 }, {  77,2478 }, {  78,2478 }, {  79,2478 },
- {  80,2478 }, {  81,2478 }, {  82,2478 }, {  83,2478 }, {  84,2478 },
- {  85,2478 }, {  86,2478 }, {  87,2478 }, {  88,2478 }, {  89,2478 },
- {  90,2478 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,2478 }, {   0,   0 }, {  97,2478 }, {  98,2478 }, {  99,2478 },
- { 100,2478 }, { 101,2478 }, { 102,2478 }, { 103,2478 }, { 104,2478 },
- { 105,2478 }, { 106,2478 }, { 107,2478 }, { 108,2478 }, { 109,2478 },
-
- { 110,2478 }, { 111,2478 }, { 112,2478 }, { 113,2478 }, { 114,2478 },
- { 115,2478 }, { 116,2478 }, { 117,5151 }, { 118,2478 }, { 119,2478 },
- { 120,2478 }, { 121,2478 }, { 122,2478 }, {   0,   0 }, { 124,2453 },
- { 125,2453 }, { 126,2453 }, { 127,2478 }, { 128,2478 }, { 129,2478 },
- { 130,2478 }, { 131,2478 }, { 132,2478 }, { 133,2478 }, { 134,2478 },
- { 135,2478 }, { 136,2478 }, { 137,2478 }, { 138,2478 }, { 139,2478 },
- { 140,2478 }, { 141,2478 }, { 142,2478 }, { 143,2478 }, { 144,2478 },
- { 145,2478 }, { 146,2478 }, { 147,2478 }, { 148,2478 }, { 149,2478 },
- { 150,2478 }, { 151,2478 }, { 152,2478 }, { 153,2478 }, { 154,2478 },
- { 155,2478 }, { 156,2478 }, { 157,2478 }, { 158,2478 }, { 159,2478 },
-
- { 160,2478 }, { 161,2478 }, { 162,2478 }, { 163,2478 }, { 164,2478 },
- { 165,2478 }, { 166,2478 }, { 167,2478 }, { 168,2478 }, { 169,2478 },
- { 170,2478 }, { 171,2478 }, { 172,2478 }, { 173,2478 }, { 174,2478 },
- { 175,2478 }, { 176,2478 }, { 177,2478 }, { 178,2478 }, { 179,2478 },
- { 180,2478 }, { 181,2478 }, { 182,2478 }, { 183,2478 }, { 184,2478 },
- { 185,2478 }, { 186,2478 }, { 187,2478 }, { 188,2478 }, { 189,2478 },
- { 190,2478 }, { 191,2478 }, { 192,2478 }, { 193,2478 }, { 194,2478 },
- { 195,2478 }, { 196,2478 }, { 197,2478 }, { 198,2478 }, { 199,2478 },
- { 200,2478 }, { 201,2478 }, { 202,2478 }, { 203,2478 }, { 204,2478 },
- { 205,2478 }, { 206,2478 }, { 207,2478 }, { 208,2478 }, { 209,2478 },
-
- { 210,2478 }, { 211,2478 }, { 212,2478 }, { 213,2478 }, { 214,2478 },
- { 215,2478 }, { 216,2478 }, { 217,2478 }, { 218,2478 }, { 219,2478 },
- { 220,2478 }, { 221,2478 }, { 222,2478 }, { 223,2478 }, { 224,2478 },
- { 225,2478 }, { 226,2478 }, { 227,2478 }, { 228,2478 }, { 229,2478 },
- { 230,2478 }, { 231,2478 }, { 232,2478 }, { 233,2478 }, { 234,2478 },
- { 235,2478 }, { 236,2478 }, { 237,2478 }, { 238,2478 }, { 239,2478 },
- { 240,2478 }, { 241,2478 }, { 242,2478 }, { 243,2478 }, { 244,2478 },
- { 245,2478 }, { 246,2478 }, { 247,2478 }, { 248,2478 }, { 249,2478 },
- { 250,2478 }, { 251,2478 }, { 252,2478 }, { 253,2478 }, { 254,2478 },
- { 255,2478 }, { 256,2478 }, {   0,  51 }, {   0,17291 }, {   1,2220 },
-
- {   2,2220 }, {   3,2220 }, {   4,2220 }, {   5,2220 }, {   6,2220 },
- {   7,2220 }, {   8,2220 }, {   9,2195 }, {  10,2195 }, {  11,2220 },
- {  12,2220 }, {  13,2195 }, {  14,2220 }, {  15,2220 }, {  16,2220 },
- {  17,2220 }, {  18,2220 }, {  19,2220 }, {  20,2220 }, {  21,2220 },
- {  22,2220 }, {  23,2220 }, {  24,2220 }, {  25,2220 }, {  26,2220 },
- {  27,2220 }, {  28,2220 }, {  29,2220 }, {  30,2220 }, {  31,2220 },
- {  32,2195 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2220 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2195 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2220 }, {  46,2195 },
- {  47,2195 }, {  48,2220 }, {  49,2220 }, {  50,2220 }, {  51,2220 },
-
- {  52,2220 }, {  53,2220 }, {  54,2220 }, {  55,2220 }, {  56,2220 },
- {  57,2220 }, {  58,2220 }, {   0,   0 }, {   0,   0 }, {  61,2195 },
- {   0,   0 }, {  63,2220 }, {   0,   0 }, {  65,2220 }, {  66,2220 },
- {  67,2220 }, {  68,2220 }, {  69,2220 }, {  70,2220 }, {  71,2220 },
- {  72,2220 }, {  73,2220 }, {  74,2220 }, {  75,2220 }, {  76,2220 },
- {  77,2220 }, {  78,2220 }, {  79,2220 }, {  80,2220 }, {  81,2220 },
- {  82,2220 }, {  83,2220 }, {  84,2220 }, {  85,2220 }, {  86,2220 },
- {  87,2220 }, {  88,2220 }, {  89,2220 }, {  90,2220 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2220 }, {   0,   0 },
- {  97,2220 }, {  98,2220 }, {  99,2220 }, { 100,2220 }, { 101,2220 },
-
- { 102,2220 }, { 103,2220 }, { 104,2220 }, { 105,2220 }, { 106,2220 },
- { 107,2220 }, { 108,2220 }, { 109,2220 }, { 110,2220 }, { 111,2220 },
- { 112,2220 }, { 113,2220 }, { 114,5151 }, { 115,2220 }, { 116,2220 },
- { 117,2220 }, { 118,2220 }, { 119,2220 }, { 120,2220 }, { 121,2220 },
- { 122,2220 }, {   0,   0 }, { 124,2195 }, { 125,2195 }, { 126,2195 },
- { 127,2220 }, { 128,2220 }, { 129,2220 }, { 130,2220 }, { 131,2220 },
- { 132,2220 }, { 133,2220 }, { 134,2220 }, { 135,2220 }, { 136,2220 },
- { 137,2220 }, { 138,2220 }, { 139,2220 }, { 140,2220 }, { 141,2220 },
- { 142,2220 }, { 143,2220 }, { 144,2220 }, { 145,2220 }, { 146,2220 },
- { 147,2220 }, { 148,2220 }, { 149,2220 }, { 150,2220 }, { 151,2220 },
-
- { 152,2220 }, { 153,2220 }, { 154,2220 }, { 155,2220 }, { 156,2220 },
- { 157,2220 }, { 158,2220 }, { 159,2220 }, { 160,2220 }, { 161,2220 },
- { 162,2220 }, { 163,2220 }, { 164,2220 }, { 165,2220 }, { 166,2220 },
- { 167,2220 }, { 168,2220 }, { 169,2220 }, { 170,2220 }, { 171,2220 },
- { 172,2220 }, { 173,2220 }, { 174,2220 }, { 175,2220 }, { 176,2220 },
- { 177,2220 }, { 178,2220 }, { 179,2220 }, { 180,2220 }, { 181,2220 },
- { 182,2220 }, { 183,2220 }, { 184,2220 }, { 185,2220 }, { 186,2220 },
- { 187,2220 }, { 188,2220 }, { 189,2220 }, { 190,2220 }, { 191,2220 },
- { 192,2220 }, { 193,2220 }, { 194,2220 }, { 195,2220 }, { 196,2220 },
- { 197,2220 }, { 198,2220 }, { 199,2220 }, { 200,2220 }, { 201,2220 },
-
- { 202,2220 }, { 203,2220 }, { 204,2220 }, { 205,2220 }, { 206,2220 },
- { 207,2220 }, { 208,2220 }, { 209,2220 }, { 210,2220 }, { 211,2220 },
- { 212,2220 }, { 213,2220 }, { 214,2220 }, { 215,2220 }, { 216,2220 },
- { 217,2220 }, { 218,2220 }, { 219,2220 }, { 220,2220 }, { 221,2220 },
- { 222,2220 }, { 223,2220 }, { 224,2220 }, { 225,2220 }, { 226,2220 },
- { 227,2220 }, { 228,2220 }, { 229,2220 }, { 230,2220 }, { 231,2220 },
- { 232,2220 }, { 233,2220 }, { 234,2220 }, { 235,2220 }, { 236,2220 },
- { 237,2220 }, { 238,2220 }, { 239,2220 }, { 240,2220 }, { 241,2220 },
- { 242,2220 }, { 243,2220 }, { 244,2220 }, { 245,2220 }, { 246,2220 },
- { 247,2220 }, { 248,2220 }, { 249,2220 }, { 250,2220 }, { 251,2220 },
-
- { 252,2220 }, { 253,2220 }, { 254,2220 }, { 255,2220 }, { 256,2220 },
- {   0,  51 }, {   0,17033 }, {   1,1962 }, {   2,1962 }, {   3,1962 },
- {   4,1962 }, {   5,1962 }, {   6,1962 }, {   7,1962 }, {   8,1962 },
- {   9,1937 }, {  10,1937 }, {  11,1962 }, {  12,1962 }, {  13,1937 },
- {  14,1962 }, {  15,1962 }, {  16,1962 }, {  17,1962 }, {  18,1962 },
- {  19,1962 }, {  20,1962 }, {  21,1962 }, {  22,1962 }, {  23,1962 },
- {  24,1962 }, {  25,1962 }, {  26,1962 }, {  27,1962 }, {  28,1962 },
- {  29,1962 }, {  30,1962 }, {  31,1962 }, {  32,1937 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1962 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1937 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  45,1962 }, {  46,1937 }, {  47,1937 }, {  48,1962 },
- {  49,1962 }, {  50,1962 }, {  51,1962 }, {  52,1962 }, {  53,1962 },
- {  54,1962 }, {  55,1962 }, {  56,1962 }, {  57,1962 }, {  58,1962 },
- {   0,   0 }, {   0,   0 }, {  61,1937 }, {   0,   0 }, {  63,1962 },
- {   0,   0 }, {  65,1962 }, {  66,1962 }, {  67,1962 }, {  68,1962 },
- {  69,1962 }, {  70,1962 }, {  71,1962 }, {  72,1962 }, {  73,1962 },
- {  74,1962 }, {  75,1962 }, {  76,1962 }, {  77,1962 }, {  78,1962 },
- {  79,1962 }, {  80,1962 }, {  81,1962 }, {  82,1962 }, {  83,1962 },
- {  84,1962 }, {  85,1962 }, {  86,1962 }, {  87,1962 }, {  88,1962 },
- {  89,1962 }, {  90,1962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  95,1962 }, {   0,   0 }, {  97,1962 }, {  98,1962 },
- {  99,1962 }, { 100,1962 }, { 101,1962 }, { 102,1962 }, { 103,1962 },
- { 104,1962 }, { 105,1962 }, { 106,1962 }, { 107,1962 }, { 108,1962 },
- { 109,1962 }, { 110,5151 }, { 111,1962 }, { 112,1962 }, { 113,1962 },
- { 114,1962 }, { 115,1962 }, { 116,1962 }, { 117,1962 }, { 118,1962 },
- { 119,1962 }, { 120,1962 }, { 121,1962 }, { 122,1962 }, {   0,   0 },
- { 124,1937 }, { 125,1937 }, { 126,1937 }, { 127,1962 }, { 128,1962 },
- { 129,1962 }, { 130,1962 }, { 131,1962 }, { 132,1962 }, { 133,1962 },
- { 134,1962 }, { 135,1962 }, { 136,1962 }, { 137,1962 }, { 138,1962 },
- { 139,1962 }, { 140,1962 }, { 141,1962 }, { 142,1962 }, { 143,1962 },
-
- { 144,1962 }, { 145,1962 }, { 146,1962 }, { 147,1962 }, { 148,1962 },
- { 149,1962 }, { 150,1962 }, { 151,1962 }, { 152,1962 }, { 153,1962 },
- { 154,1962 }, { 155,1962 }, { 156,1962 }, { 157,1962 }, { 158,1962 },
- { 159,1962 }, { 160,1962 }, { 161,1962 }, { 162,1962 }, { 163,1962 },
- { 164,1962 }, { 165,1962 }, { 166,1962 }, { 167,1962 }, { 168,1962 },
- { 169,1962 }, { 170,1962 }, { 171,1962 }, { 172,1962 }, { 173,1962 },
- { 174,1962 }, { 175,1962 }, { 176,1962 }, { 177,1962 }, { 178,1962 },
- { 179,1962 }, { 180,1962 }, { 181,1962 }, { 182,1962 }, { 183,1962 },
- { 184,1962 }, { 185,1962 }, { 186,1962 }, { 187,1962 }, { 188,1962 },
- { 189,1962 }, { 190,1962 }, { 191,1962 }, { 192,1962 }, { 193,1962 },
-
- { 194,1962 }, { 195,1962 }, { 196,1962 }, { 197,1962 }, { 198,1962 },
- { 199,1962 }, { 200,1962 }, { 201,1962 }, { 202,1962 }, { 203,1962 },
- { 204,1962 }, { 205,1962 }, { 206,1962 }, { 207,1962 }, { 208,1962 },
- { 209,1962 }, { 210,1962 }, { 211,1962 }, { 212,1962 }, { 213,1962 },
- { 214,1962 }, { 215,1962 }, { 216,1962 }, { 217,1962 }, { 218,1962 },
- { 219,1962 }, { 220,1962 }, { 221,1962 }, { 222,1962 }, { 223,1962 },
- { 224,1962 }, { 225,1962 }, { 226,1962 }, { 227,1962 }, { 228,1962 },
- { 229,1962 }, { 230,1962 }, { 231,1962 }, { 232,1962 }, { 233,1962 },
- { 234,1962 }, { 235,1962 }, { 236,1962 }, { 237,1962 }, { 238,1962 },
- { 239,1962 }, { 240,1962 }, { 241,1962 }, { 242,1962 }, { 243,1962 },
-
- { 244,1962 }, { 245,1962 }, { 246,1962 }, { 247,1962 }, { 248,1962 },
- { 249,1962 }, { 250,1962 }, { 251,1962 }, { 252,1962 }, { 253,1962 },
- { 254,1962 }, { 255,1962 }, { 256,1962 }, {   0,  14 }, {   0,16775 },
- {   1,5284 }, {   2,5284 }, {   3,5284 }, {   4,5284 }, {   5,5284 },
- {   6,5284 }, {   7,5284 }, {   8,5284 }, {   9,5284 }, {  10,5284 },
- {  11,5284 }, {  12,5284 }, {  13,5284 }, {  14,5284 }, {  15,5284 },
- {  16,5284 }, {  17,5284 }, {  18,5284 }, {  19,5284 }, {  20,5284 },
- {  21,5284 }, {  22,5284 }, {  23,5284 }, {  24,5284 }, {  25,5284 },
- {  26,5284 }, {  27,5284 }, {  28,5284 }, {  29,5284 }, {  30,5284 },
- {  31,5284 }, {  32,5284 }, {  33,5284 }, {  34,5284 }, {  35,5284 },
-
- {  36,5284 }, {  37,5284 }, {  38,5284 }, {  39,5284 }, {  40,5284 },
- {  41,5284 }, {  42,5284 }, {  43,5284 }, {  44,5284 }, {  45,5542 },
- {  46,5284 }, {  47,5284 }, {  48,5284 }, {  49,5284 }, {  50,5284 },
- {  51,5284 }, {  52,5284 }, {  53,5284 }, {  54,5284 }, {  55,5284 },
- {  56,5284 }, {  57,5284 }, {  58,5284 }, {  59,5284 }, {  60,5284 },
- {  61,5284 }, {  62,5284 }, {  63,5284 }, {  64,5284 }, {  65,5284 },
- {  66,5284 }, {  67,5284 }, {  68,5284 }, {  69,5284 }, {  70,5284 },
- {  71,5284 }, {  72,5284 }, {  73,5284 }, {  74,5284 }, {  75,5284 },
- {  76,5284 }, {  77,5284 }, {  78,5284 }, {  79,5284 }, {  80,5284 },
- {  81,5284 }, {  82,5284 }, {  83,5284 }, {  84,5284 }, {  85,5284 },
-
- {  86,5284 }, {  87,5284 }, {  88,5284 }, {  89,5284 }, {  90,5284 },
- {  91,5284 }, {  92,5284 }, {  93,5284 }, {  94,5284 }, {  95,5284 },
- {  96,5284 }, {  97,5284 }, {  98,5284 }, {  99,5284 }, { 100,5284 },
- { 101,5284 }, { 102,5284 }, { 103,5284 }, { 104,5284 }, { 105,5284 },
- { 106,5284 }, { 107,5284 }, { 108,5284 }, { 109,5284 }, { 110,5284 },
- { 111,5284 }, { 112,5284 }, { 113,5284 }, { 114,5284 }, { 115,5284 },
- { 116,5284 }, { 117,5284 }, { 118,5284 }, { 119,5284 }, { 120,5284 },
- { 121,5284 }, { 122,5284 }, { 123,5284 }, { 124,5284 }, { 125,5284 },
- { 126,5284 }, { 127,5284 }, { 128,5284 }, { 129,5284 }, { 130,5284 },
- { 131,5284 }, { 132,5284 }, { 133,5284 }, { 134,5284 }, { 135,5284 },
-
- { 136,5284 }, { 137,5284 }, { 138,5284 }, { 139,5284 }, { 140,5284 },
- { 141,5284 }, { 142,5284 }, { 143,5284 }, { 144,5284 }, { 145,5284 },
- { 146,5284 }, { 147,5284 }, { 148,5284 }, { 149,5284 }, { 150,5284 },
- { 151,5284 }, { 152,5284 }, { 153,5284 }, { 154,5284 }, { 155,5284 },
- { 156,5284 }, { 157,5284 }, { 158,5284 }, { 159,5284 }, { 160,5284 },
- { 161,5284 }, { 162,5284 }, { 163,5284 }, { 164,5284 }, { 165,5284 },
- { 166,5284 }, { 167,5284 }, { 168,5284 }, { 169,5284 }, { 170,5284 },
- { 171,5284 }, { 172,5284 }, { 173,5284 }, { 174,5284 }, { 175,5284 },
- { 176,5284 }, { 177,5284 }, { 178,5284 }, { 179,5284 }, { 180,5284 },
- { 181,5284 }, { 182,5284 }, { 183,5284 }, { 184,5284 }, { 185,5284 },
-
- { 186,5284 }, { 187,5284 }, { 188,5284 }, { 189,5284 }, { 190,5284 },
- { 191,5284 }, { 192,5284 }, { 193,5284 }, { 194,5284 }, { 195,5284 },
- { 196,5284 }, { 197,5284 }, { 198,5284 }, { 199,5284 }, { 200,5284 },
- { 201,5284 }, { 202,5284 }, { 203,5284 }, { 204,5284 }, { 205,5284 },
- { 206,5284 }, { 207,5284 }, { 208,5284 }, { 209,5284 }, { 210,5284 },
- { 211,5284 }, { 212,5284 }, { 213,5284 }, { 214,5284 }, { 215,5284 },
- { 216,5284 }, { 217,5284 }, { 218,5284 }, { 219,5284 }, { 220,5284 },
- { 221,5284 }, { 222,5284 }, { 223,5284 }, { 224,5284 }, { 225,5284 },
- { 226,5284 }, { 227,5284 }, { 228,5284 }, { 229,5284 }, { 230,5284 },
- { 231,5284 }, { 232,5284 }, { 233,5284 }, { 234,5284 }, { 235,5284 },
-
- { 236,5284 }, { 237,5284 }, { 238,5284 }, { 239,5284 }, { 240,5284 },
- { 241,5284 }, { 242,5284 }, { 243,5284 }, { 244,5284 }, { 245,5284 },
- { 246,5284 }, { 247,5284 }, { 248,5284 }, { 249,5284 }, { 250,5284 },
- { 251,5284 }, { 252,5284 }, { 253,5284 }, { 254,5284 }, { 255,5284 },
- { 256,5284 }, {   0,  14 }, {   0,16517 }, {   1,5026 }, {   2,5026 },
- {   3,5026 }, {   4,5026 }, {   5,5026 }, {   6,5026 }, {   7,5026 },
- {   8,5026 }, {   9,5026 }, {  10,5026 }, {  11,5026 }, {  12,5026 },
- {  13,5026 }, {  14,5026 }, {  15,5026 }, {  16,5026 }, {  17,5026 },
- {  18,5026 }, {  19,5026 }, {  20,5026 }, {  21,5026 }, {  22,5026 },
- {  23,5026 }, {  24,5026 }, {  25,5026 }, {  26,5026 }, {  27,5026 },
-
- {  28,5026 }, {  29,5026 }, {  30,5026 }, {  31,5026 }, {  32,5026 },
- {  33,5026 }, {  34,5026 }, {  35,5026 }, {  36,5026 }, {  37,5026 },
- {  38,5026 }, {  39,5026 }, {  40,5026 }, {  41,5026 }, {  42,5026 },
- {  43,5026 }, {  44,5026 }, {  45,5542 }, {  46,5026 }, {  47,5026 },
- {  48,5026 }, {  49,5026 }, {  50,5026 }, {  51,5026 }, {  52,5026 },
- {  53,5026 }, {  54,5026 }, {  55,5026 }, {  56,5026 }, {  57,5026 },
- {  58,5026 }, {  59,5026 }, {  60,5026 }, {  61,5026 }, {  62,5026 },
- {  63,5026 }, {  64,5026 }, {  65,5026 }, {  66,5026 }, {  67,5026 },
- {  68,5026 }, {  69,5026 }, {  70,5026 }, {  71,5026 }, {  72,5026 },
- {  73,5026 }, {  74,5026 }, {  75,5026 }, {  76,5026 }, {  77,5026 },
-
- {  78,5026 }, {  79,5026 }, {  80,5026 }, {  81,5026 }, {  82,5026 },
- {  83,5026 }, {  84,5026 }, {  85,5026 }, {  86,5026 }, {  87,5026 },
- {  88,5026 }, {  89,5026 }, {  90,5026 }, {  91,5026 }, {  92,5026 },
- {  93,5026 }, {  94,5026 }, {  95,5026 }, {  96,5026 }, {  97,5026 },
- {  98,5026 }, {  99,5026 }, { 100,5026 }, { 101,5026 }, { 102,5026 },
- { 103,5026 }, { 104,5026 }, { 105,5026 }, { 106,5026 }, { 107,5026 },
- { 108,5026 }, { 109,5026 }, { 110,5026 }, { 111,5026 }, { 112,5026 },
- { 113,5026 }, { 114,5026 }, { 115,5026 }, { 116,5026 }, { 117,5026 },
- { 118,5026 }, { 119,5026 }, { 120,5026 }, { 121,5026 }, { 122,5026 },
- { 123,5026 }, { 124,5026 }, { 125,5026 }, { 126,5026 }, { 127,5026 },
-
- { 128,5026 }, { 129,5026 }, { 130,5026 }, { 131,5026 }, { 132,5026 },
- { 133,5026 }, { 134,5026 }, { 135,5026 }, { 136,5026 }, { 137,5026 },
- { 138,5026 }, { 139,5026 }, { 140,5026 }, { 141,5026 }, { 142,5026 },
- { 143,5026 }, { 144,5026 }, { 145,5026 }, { 146,5026 }, { 147,5026 },
- { 148,5026 }, { 149,5026 }, { 150,5026 }, { 151,5026 }, { 152,5026 },
- { 153,5026 }, { 154,5026 }, { 155,5026 }, { 156,5026 }, { 157,5026 },
- { 158,5026 }, { 159,5026 }, { 160,5026 }, { 161,5026 }, { 162,5026 },
- { 163,5026 }, { 164,5026 }, { 165,5026 }, { 166,5026 }, { 167,5026 },
- { 168,5026 }, { 169,5026 }, { 170,5026 }, { 171,5026 }, { 172,5026 },
- { 173,5026 }, { 174,5026 }, { 175,5026 }, { 176,5026 }, { 177,5026 },
-
- { 178,5026 }, { 179,5026 }, { 180,5026 }, { 181,5026 }, { 182,5026 },
- { 183,5026 }, { 184,5026 }, { 185,5026 }, { 186,5026 }, { 187,5026 },
- { 188,5026 }, { 189,5026 }, { 190,5026 }, { 191,5026 }, { 192,5026 },
- { 193,5026 }, { 194,5026 }, { 195,5026 }, { 196,5026 }, { 197,5026 },
- { 198,5026 }, { 199,5026 }, { 200,5026 }, { 201,5026 }, { 202,5026 },
- { 203,5026 }, { 204,5026 }, { 205,5026 }, { 206,5026 }, { 207,5026 },
- { 208,5026 }, { 209,5026 }, { 210,5026 }, { 211,5026 }, { 212,5026 },
- { 213,5026 }, { 214,5026 }, { 215,5026 }, { 216,5026 }, { 217,5026 },
- { 218,5026 }, { 219,5026 }, { 220,5026 }, { 221,5026 }, { 222,5026 },
- { 223,5026 }, { 224,5026 }, { 225,5026 }, { 226,5026 }, { 227,5026 },
-
- { 228,5026 }, { 229,5026 }, { 230,5026 }, { 231,5026 }, { 232,5026 },
- { 233,5026 }, { 234,5026 }, { 235,5026 }, { 236,5026 }, { 237,5026 },
- { 238,5026 }, { 239,5026 }, { 240,5026 }, { 241,5026 }, { 242,5026 },
- { 243,5026 }, { 244,5026 }, { 245,5026 }, { 246,5026 }, { 247,5026 },
- { 248,5026 }, { 249,5026 }, { 250,5026 }, { 251,5026 }, { 252,5026 },
- { 253,5026 }, { 254,5026 }, { 255,5026 }, { 256,5026 }, {   0,  14 },
- {   0,16259 }, {   1,5542 }, {   2,5542 }, {   3,5542 }, {   4,5542 },
- {   5,5542 }, {   6,5542 }, {   7,5542 }, {   8,5542 }, {   9,5542 },
- {  10,5542 }, {  11,5542 }, {  12,5542 }, {  13,5542 }, {  14,5542 },
- {  15,5542 }, {  16,5542 }, {  17,5542 }, {  18,5542 }, {  19,5542 },
-
- {  20,5542 }, {  21,5542 }, {  22,5542 }, {  23,5542 }, {  24,5542 },
- {  25,5542 }, {  26,5542 }, {  27,5542 }, {  28,5542 }, {  29,5542 },
- {  30,5542 }, {  31,5542 }, {  32,5542 }, {  33,5542 }, {  34,5542 },
- {  35,5542 }, {  36,5542 }, {  37,5542 }, {  38,5542 }, {  39,5542 },
- {  40,5542 }, {  41,5542 }, {  42,5542 }, {  43,5542 }, {  44,5542 },
- {  45,5542 }, {  46,5542 }, {  47,5542 }, {  48,5542 }, {  49,5542 },
- {  50,5542 }, {  51,5542 }, {  52,5542 }, {  53,5542 }, {  54,5542 },
- {  55,5542 }, {  56,5542 }, {  57,5542 }, {  58,5542 }, {  59,5542 },
- {  60,5542 }, {  61,5542 }, {  62,5542 }, {  63,5542 }, {  64,5542 },
- {  65,5542 }, {  66,5542 }, {  67,5542 }, {  68,5542 }, {  69,5542 },
-
- {  70,5542 }, {  71,5542 }, {  72,5542 }, {  73,5542 }, {  74,5542 },
- {  75,5542 }, {  76,5542 }, {  77,5542 }, {  78,5542 }, {  79,5542 },
- {  80,5542 }, {  81,5542 }, {  82,5542 }, {  83,5542 }, {  84,5542 },
- {  85,5542 }, {  86,5542 }, {  87,5542 }, {  88,5542 }, {  89,5542 },
- {  90,5542 }, {  91,5542 }, {  92,5542 }, {  93,5542 }, {  94,5542 },
- {  95,5542 }, {  96,5542 }, {  97,5542 }, {  98,5542 }, {  99,5542 },
- { 100,5542 }, { 101,5542 }, { 102,5542 }, { 103,5542 }, { 104,5542 },
- { 105,5542 }, { 106,5542 }, { 107,5542 }, { 108,5542 }, { 109,5542 },
- { 110,5542 }, { 111,5542 }, { 112,5542 }, { 113,5542 }, { 114,5542 },
- { 115,5542 }, { 116,5542 }, { 117,5542 }, { 118,5542 }, { 119,5542 },
-
- { 120,5542 }, { 121,5542 }, { 122,5542 }, { 123,5542 }, { 124,5542 },
- { 125,5800 }, { 126,5542 }, { 127,5542 }, { 128,5542 }, { 129,5542 },
- { 130,5542 }, { 131,5542 }, { 132,5542 }, { 133,5542 }, { 134,5542 },
- { 135,5542 }, { 136,5542 }, { 137,5542 }, { 138,5542 }, { 139,5542 },
- { 140,5542 }, { 141,5542 }, { 142,5542 }, { 143,5542 }, { 144,5542 },
- { 145,5542 }, { 146,5542 }, { 147,5542 }, { 148,5542 }, { 149,5542 },
- { 150,5542 }, { 151,5542 }, { 152,5542 }, { 153,5542 }, { 154,5542 },
- { 155,5542 }, { 156,5542 }, { 157,5542 }, { 158,5542 }, { 159,5542 },
- { 160,5542 }, { 161,5542 }, { 162,5542 }, { 163,5542 }, { 164,5542 },
- { 165,5542 }, { 166,5542 }, { 167,5542 }, { 168,5542 }, { 169,5542 },
-
- { 170,5542 }, { 171,5542 }, { 172,5542 }, { 173,5542 }, { 174,5542 },
- { 175,5542 }, { 176,5542 }, { 177,5542 }, { 178,5542 }, { 179,5542 },
- { 180,5542 }, { 181,5542 }, { 182,5542 }, { 183,5542 }, { 184,5542 },
- { 185,5542 }, { 186,5542 }, { 187,5542 }, { 188,5542 }, { 189,5542 },
- { 190,5542 }, { 191,5542 }, { 192,5542 }, { 193,5542 }, { 194,5542 },
- { 195,5542 }, { 196,5542 }, { 197,5542 }, { 198,5542 }, { 199,5542 },
- { 200,5542 }, { 201,5542 }, { 202,5542 }, { 203,5542 }, { 204,5542 },
- { 205,5542 }, { 206,5542 }, { 207,5542 }, { 208,5542 }, { 209,5542 },
- { 210,5542 }, { 211,5542 }, { 212,5542 }, { 213,5542 }, { 214,5542 },
- { 215,5542 }, { 216,5542 }, { 217,5542 }, { 218,5542 }, { 219,5542 },
-
- { 220,5542 }, { 221,5542 }, { 222,5542 }, { 223,5542 }, { 224,5542 },
- { 225,5542 }, { 226,5542 }, { 227,5542 }, { 228,5542 }, { 229,5542 },
- { 230,5542 }, { 231,5542 }, { 232,5542 }, { 233,5542 }, { 234,5542 },
- { 235,5542 }, { 236,5542 }, { 237,5542 }, { 238,5542 }, { 239,5542 },
- { 240,5542 }, { 241,5542 }, { 242,5542 }, { 243,5542 }, { 244,5542 },
- { 245,5542 }, { 246,5542 }, { 247,5542 }, { 248,5542 }, { 249,5542 },
- { 250,5542 }, { 251,5542 }, { 252,5542 }, { 253,5542 }, { 254,5542 },
- { 255,5542 }, { 256,5542 }, {   0,  14 }, {   0,16001 }, {   1,5284 },
- {   2,5284 }, {   3,5284 }, {   4,5284 }, {   5,5284 }, {   6,5284 },
- {   7,5284 }, {   8,5284 }, {   9,5284 }, {  10,5284 }, {  11,5284 },
-
- {  12,5284 }, {  13,5284 }, {  14,5284 }, {  15,5284 }, {  16,5284 },
- {  17,5284 }, {  18,5284 }, {  19,5284 }, {  20,5284 }, {  21,5284 },
- {  22,5284 }, {  23,5284 }, {  24,5284 }, {  25,5284 }, {  26,5284 },
- {  27,5284 }, {  28,5284 }, {  29,5284 }, {  30,5284 }, {  31,5284 },
- {  32,5284 }, {  33,5284 }, {  34,5284 }, {  35,5284 }, {  36,5284 },
- {  37,5284 }, {  38,5284 }, {  39,5284 }, {  40,5284 }, {  41,5284 },
- {  42,5284 }, {  43,5284 }, {  44,5284 }, {  45,5284 }, {  46,5284 },
- {  47,5284 }, {  48,5284 }, {  49,5284 }, {  50,5284 }, {  51,5284 },
- {  52,5284 }, {  53,5284 }, {  54,5284 }, {  55,5284 }, {  56,5284 },
- {  57,5284 }, {  58,5284 }, {  59,5284 }, {  60,5284 }, {  61,5284 },
-
- {  62,5284 }, {  63,5284 }, {  64,5284 }, {  65,5284 }, {  66,5284 },
- {  67,5284 }, {  68,5284 }, {  69,5284 }, {  70,5284 }, {  71,5284 },
- {  72,5284 }, {  73,5284 }, {  74,5284 }, {  75,5284 }, {  76,5284 },
- {  77,5284 }, {  78,5284 }, {  79,5284 }, {  80,5284 }, {  81,5284 },
- {  82,5284 }, {  83,5284 }, {  84,5284 }, {  85,5284 }, {  86,5284 },
- {  87,5284 }, {  88,5284 }, {  89,5284 }, {  90,5284 }, {  91,5284 },
- {  92,5284 }, {  93,5284 }, {  94,5284 }, {  95,5284 }, {  96,5284 },
- {  97,5284 }, {  98,5284 }, {  99,5284 }, { 100,5284 }, { 101,5284 },
- { 102,5284 }, { 103,5284 }, { 104,5284 }, { 105,5284 }, { 106,5284 },
- { 107,5284 }, { 108,5284 }, { 109,5284 }, { 110,5284 }, { 111,5284 },
-
- { 112,5284 }, { 113,5284 }, { 114,5284 }, { 115,5284 }, { 116,5284 },
- { 117,5284 }, { 118,5284 }, { 119,5284 }, { 120,5284 }, { 121,5284 },
- { 122,5284 }, { 123,5284 }, { 124,5284 }, { 125,4385 }, { 126,5284 },
- { 127,5284 }, { 128,5284 }, { 129,5284 }, { 130,5284 }, { 131,5284 },
- { 132,5284 }, { 133,5284 }, { 134,5284 }, { 135,5284 }, { 136,5284 },
- { 137,5284 }, { 138,5284 }, { 139,5284 }, { 140,5284 }, { 141,5284 },
- { 142,5284 }, { 143,5284 }, { 144,5284 }, { 145,5284 }, { 146,5284 },
- { 147,5284 }, { 148,5284 }, { 149,5284 }, { 150,5284 }, { 151,5284 },
- { 152,5284 }, { 153,5284 }, { 154,5284 }, { 155,5284 }, { 156,5284 },
- { 157,5284 }, { 158,5284 }, { 159,5284 }, { 160,5284 }, { 161,5284 },
-
- { 162,5284 }, { 163,5284 }, { 164,5284 }, { 165,5284 }, { 166,5284 },
- { 167,5284 }, { 168,5284 }, { 169,5284 }, { 170,5284 }, { 171,5284 },
- { 172,5284 }, { 173,5284 }, { 174,5284 }, { 175,5284 }, { 176,5284 },
- { 177,5284 }, { 178,5284 }, { 179,5284 }, { 180,5284 }, { 181,5284 },
- { 182,5284 }, { 183,5284 }, { 184,5284 }, { 185,5284 }, { 186,5284 },
- { 187,5284 }, { 188,5284 }, { 189,5284 }, { 190,5284 }, { 191,5284 },
- { 192,5284 }, { 193,5284 }, { 194,5284 }, { 195,5284 }, { 196,5284 },
- { 197,5284 }, { 198,5284 }, { 199,5284 }, { 200,5284 }, { 201,5284 },
- { 202,5284 }, { 203,5284 }, { 204,5284 }, { 205,5284 }, { 206,5284 },
- { 207,5284 }, { 208,5284 }, { 209,5284 }, { 210,5284 }, { 211,5284 },
-
- { 212,5284 }, { 213,5284 }, { 214,5284 }, { 215,5284 }, { 216,5284 },
- { 217,5284 }, { 218,5284 }, { 219,5284 }, { 220,5284 }, { 221,5284 },
- { 222,5284 }, { 223,5284 }, { 224,5284 }, { 225,5284 }, { 226,5284 },
- { 227,5284 }, { 228,5284 }, { 229,5284 }, { 230,5284 }, { 231,5284 },
- { 232,5284 }, { 233,5284 }, { 234,5284 }, { 235,5284 }, { 236,5284 },
- { 237,5284 }, { 238,5284 }, { 239,5284 }, { 240,5284 }, { 241,5284 },
- { 242,5284 }, { 243,5284 }, { 244,5284 }, { 245,5284 }, { 246,5284 },
- { 247,5284 }, { 248,5284 }, { 249,5284 }, { 250,5284 }, { 251,5284 },
- { 252,5284 }, { 253,5284 }, { 254,5284 }, { 255,5284 }, { 256,5284 },
- {   0,  10 }, {   0,15743 }, {   1,5542 }, {   2,5542 }, {   3,5542 },
-
- {   4,5542 }, {   5,5542 }, {   6,5542 }, {   7,5542 }, {   8,5542 },
- {   9,5542 }, {  10,5542 }, {  11,5542 }, {  12,5542 }, {  13,5542 },
- {  14,5542 }, {  15,5542 }, {  16,5542 }, {  17,5542 }, {  18,5542 },
- {  19,5542 }, {  20,5542 }, {  21,5542 }, {  22,5542 }, {  23,5542 },
- {  24,5542 }, {  25,5542 }, {  26,5542 }, {  27,5542 }, {  28,5542 },
- {  29,5542 }, {  30,5542 }, {  31,5542 }, {  32,5542 }, {  33,5542 },
- {  34,5542 }, {  35,5542 }, {  36,5542 }, {  37,5542 }, {  38,5542 },
- {  39,5542 }, {  40,5542 }, {  41,5542 }, {  42,5542 }, {  43,5542 },
- {  44,5542 }, {  45,5542 }, {  46,5542 }, {  47,5542 }, {  48,5542 },
- {  49,5542 }, {  50,5542 }, {  51,5542 }, {  52,5542 }, {  53,5542 },
-
- {  54,5542 }, {  55,5542 }, {  56,5542 }, {  57,5542 }, {  58,5542 },
- {  59,5542 }, {  60,5542 }, {  61,5542 }, {  62,5542 }, {  63,5542 },
- {  64,5542 }, {  65,5542 }, {  66,5542 }, {  67,5542 }, {  68,5542 },
- {  69,5542 }, {  70,5542 }, {  71,5542 }, {  72,5542 }, {  73,5542 },
- {  74,5542 }, {  75,5542 }, {  76,5542 }, {  77,5542 }, {  78,5542 },
- {  79,5542 }, {  80,5542 }, {  81,5542 }, {  82,5542 }, {  83,5542 },
- {  84,5542 }, {  85,5542 }, {  86,5542 }, {  87,5542 }, {  88,5542 },
- {  89,5542 }, {  90,5542 }, {  91,5542 }, {  92,5542 }, {  93,5542 },
- {  94,5542 }, {  95,5542 }, {  96,5542 }, {  97,5542 }, {  98,5542 },
- {  99,5542 }, { 100,5542 }, { 101,5542 }, { 102,5542 }, { 103,5542 },
-
- { 104,5542 }, { 105,5542 }, { 106,5542 }, { 107,5542 }, { 108,5542 },
- { 109,5542 }, { 110,5542 }, { 111,5542 }, { 112,5542 }, { 113,5542 },
- { 114,5542 }, { 115,5542 }, { 116,5542 }, { 117,5542 }, { 118,5542 },
- { 119,5542 }, { 120,5542 }, { 121,5542 }, { 122,5542 }, {   0,   0 },
- { 124,5542 }, { 125,5542 }, { 126,5542 }, { 127,5542 }, { 128,5542 },
- { 129,5542 }, { 130,5542 }, { 131,5542 }, { 132,5542 }, { 133,5542 },
- { 134,5542 }, { 135,5542 }, { 136,5542 }, { 137,5542 }, { 138,5542 },
- { 139,5542 }, { 140,5542 }, { 141,5542 }, { 142,5542 }, { 143,5542 },
- { 144,5542 }, { 145,5542 }, { 146,5542 }, { 147,5542 }, { 148,5542 },
- { 149,5542 }, { 150,5542 }, { 151,5542 }, { 152,5542 }, { 153,5542 },
-
- { 154,5542 }, { 155,5542 }, { 156,5542 }, { 157,5542 }, { 158,5542 },
- { 159,5542 }, { 160,5542 }, { 161,5542 }, { 162,5542 }, { 163,5542 },
- { 164,5542 }, { 165,5542 }, { 166,5542 }, { 167,5542 }, { 168,5542 },
- { 169,5542 }, { 170,5542 }, { 171,5542 }, { 172,5542 }, { 173,5542 },
- { 174,5542 }, { 175,5542 }, { 176,5542 }, { 177,5542 }, { 178,5542 },
- { 179,5542 }, { 180,5542 }, { 181,5542 }, { 182,5542 }, { 183,5542 },
- { 184,5542 }, { 185,5542 }, { 186,5542 }, { 187,5542 }, { 188,5542 },
- { 189,5542 }, { 190,5542 }, { 191,5542 }, { 192,5542 }, { 193,5542 },
- { 194,5542 }, { 195,5542 }, { 196,5542 }, { 197,5542 }, { 198,5542 },
- { 199,5542 }, { 200,5542 }, { 201,5542 }, { 202,5542 }, { 203,5542 },
-
- { 204,5542 }, { 205,5542 }, { 206,5542 }, { 207,5542 }, { 208,5542 },
- { 209,5542 }, { 210,5542 }, { 211,5542 }, { 212,5542 }, { 213,5542 },
- { 214,5542 }, { 215,5542 }, { 216,5542 }, { 217,5542 }, { 218,5542 },
- { 219,5542 }, { 220,5542 }, { 221,5542 }, { 222,5542 }, { 223,5542 },
- { 224,5542 }, { 225,5542 }, { 226,5542 }, { 227,5542 }, { 228,5542 },
- { 229,5542 }, { 230,5542 }, { 231,5542 }, { 232,5542 }, { 233,5542 },
- { 234,5542 }, { 235,5542 }, { 236,5542 }, { 237,5542 }, { 238,5542 },
- { 239,5542 }, { 240,5542 }, { 241,5542 }, { 242,5542 }, { 243,5542 },
- { 244,5542 }, { 245,5542 }, { 246,5542 }, { 247,5542 }, { 248,5542 },
- { 249,5542 }, { 250,5542 }, { 251,5542 }, { 252,5542 }, { 253,5542 },
-
- { 254,5542 }, { 255,5542 }, { 256,5542 }, {   0,  11 }, {   0,15485 },
- {   0,   2 }, {   0,15483 }, {   0,   0 }, {   0,15481 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,   2 }, {   0,   0 },
-
- {  92,5540 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,5542 }, {   0,   2 }, {   0,15360 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 },
- {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
-
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
- {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
- {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
- {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
- {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
-
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {  91,   0 }, {  92,-121 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
- {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
-
- { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 },
- { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
-
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
-
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,15102 }, {   0,   0 }, {   0,15100 },
- {   0,   5 }, {   0,15098 }, {   0,  49 }, {   0,15096 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,15071 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
- {  12,   0 }, {  13, -25 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
-
- {  32, -25 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, -25 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {  46, -25 },
- {  47, -25 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {  61, -25 },
- {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
-
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
- { 123,5163 }, {   0,   0 }, { 123,5286 }, {  95,   0 }, { 123,5161 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, { 124, -25 }, { 125, -25 }, { 126, -25 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
-
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
-
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
-
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  36 }, {   0,14813 }, {   0,  39 }, {   0,14811 }, {   0,  40 },
- {   0,14809 }, {   0,  34 }, {   0,14807 }, {   0,  33 }, {   0,14805 },
- {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,14801 }, {  13,   0 },
- {   0,  50 }, {   0,14798 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,14779 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34, -32 },
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
-
- {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
- {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
- {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
-
- {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 },
- {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
- { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
-
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
-
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
-
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14521 }, {   1,-258 },
- {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
- {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
- {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
- {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
- {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
- {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
-
- {  32,-258 }, {  33,-258 }, {  34,4965 }, {  35,-258 }, {  36,-258 },
- {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
- {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 },
- {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
- {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
- {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
- {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
- {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
- {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
- {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
-
- {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
- {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
- {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
- {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
- { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
- { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
- { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
- { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
- { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
- { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
-
- { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
- { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
- { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
- { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
- { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
- { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
- { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
- { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
- { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
- { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
-
- { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
- { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
- { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
- { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
- { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
- { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
- { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
- { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
- { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
- { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
-
- { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
- { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
- { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
- { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
- { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,14263 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
-
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,-546 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
- {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
-
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 },
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
-
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
-
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
-
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,14005 },
- {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
- {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
- {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
-
- {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
- {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
- {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
- {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,4707 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
- {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
- {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
- {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
- {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
-
- {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
- {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
- {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
- {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
- {  91,-258 }, {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
- {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
- { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
- { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
- { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
-
- { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
- { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
- { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
- { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
- { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
- { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
- { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
- { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
-
- { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
- { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
- { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
- { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
- { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
- { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
- { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
- { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
- { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
-
- { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
- { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
- { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
- { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
- { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
- { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
- { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,13747 }, {   1,-1324 }, {   2,-1324 },
- {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
-
- {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
- {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
- {  18,-1324 }, {  19,-1324 }, {  20,-1324 }, {  21,-1324 }, {  22,-1324 },
- {  23,-1324 }, {  24,-1324 }, {  25,-1324 }, {  26,-1324 }, {  27,-1324 },
- {  28,-1324 }, {  29,-1324 }, {  30,-1324 }, {  31,-1324 }, {  32,-1054 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-1324 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-1054 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-1324 }, {  46, 258 }, {  47,-1349 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
-
- {  58,-1324 }, {   0,   0 }, {   0,   0 }, {  61,-1349 }, {   0,   0 },
- {  63,-1324 }, {   0,   0 }, {  65,-1324 }, {  66,-1324 }, {  67,-1324 },
- {  68,-1324 }, {  69,-1324 }, {  70,-1324 }, {  71,-1324 }, {  72,-1324 },
- {  73,-1324 }, {  74,-1324 }, {  75,-1324 }, {  76,-1324 }, {  77,-1324 },
- {  78,-1324 }, {  79,-1324 }, {  80,-1324 }, {  81,-1324 }, {  82,-1324 },
- {  83,-1324 }, {  84,-1324 }, {  85,-1324 }, {  86,-1324 }, {  87,-1324 },
- {  88,-1324 }, {  89,-1324 }, {  90,-1324 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-1324 }, {   0,   0 }, {  97,-1324 },
- {  98,-1324 }, {  99,-1324 }, { 100,-1324 }, { 101,-1324 }, { 102,-1324 },
- { 103,-1324 }, { 104,-1324 }, { 105,-1324 }, { 106,-1324 }, { 107,-1324 },
-
- { 108,-1324 }, { 109,-1324 }, { 110,-1324 }, { 111,-1324 }, { 112,-1324 },
- { 113,-1324 }, { 114,-1324 }, { 115,-1324 }, { 116,-1324 }, { 117,-1324 },
- { 118,-1324 }, { 119,-1324 }, { 120,-1324 }, { 121,-1324 }, { 122,-1324 },
- {   0,   0 }, { 124,-1349 }, { 125,-1054 }, { 126,-1054 }, { 127,-1324 },
- { 128,-1324 }, { 129,-1324 }, { 130,-1324 }, { 131,-1324 }, { 132,-1324 },
- { 133,-1324 }, { 134,-1324 }, { 135,-1324 }, { 136,-1324 }, { 137,-1324 },
- { 138,-1324 }, { 139,-1324 }, { 140,-1324 }, { 141,-1324 }, { 142,-1324 },
- { 143,-1324 }, { 144,-1324 }, { 145,-1324 }, { 146,-1324 }, { 147,-1324 },
- { 148,-1324 }, { 149,-1324 }, { 150,-1324 }, { 151,-1324 }, { 152,-1324 },
- { 153,-1324 }, { 154,-1324 }, { 155,-1324 }, { 156,-1324 }, { 157,-1324 },
-
- { 158,-1324 }, { 159,-1324 }, { 160,-1324 }, { 161,-1324 }, { 162,-1324 },
- { 163,-1324 }, { 164,-1324 }, { 165,-1324 }, { 166,-1324 }, { 167,-1324 },
- { 168,-1324 }, { 169,-1324 }, { 170,-1324 }, { 171,-1324 }, { 172,-1324 },
- { 173,-1324 }, { 174,-1324 }, { 175,-1324 }, { 176,-1324 }, { 177,-1324 },
- { 178,-1324 }, { 179,-1324 }, { 180,-1324 }, { 181,-1324 }, { 182,-1324 },
- { 183,-1324 }, { 184,-1324 }, { 185,-1324 }, { 186,-1324 }, { 187,-1324 },
- { 188,-1324 }, { 189,-1324 }, { 190,-1324 }, { 191,-1324 }, { 192,-1324 },
- { 193,-1324 }, { 194,-1324 }, { 195,-1324 }, { 196,-1324 }, { 197,-1324 },
- { 198,-1324 }, { 199,-1324 }, { 200,-1324 }, { 201,-1324 }, { 202,-1324 },
- { 203,-1324 }, { 204,-1324 }, { 205,-1324 }, { 206,-1324 }, { 207,-1324 },
-
- { 208,-1324 }, { 209,-1324 }, { 210,-1324 }, { 211,-1324 }, { 212,-1324 },
- { 213,-1324 }, { 214,-1324 }, { 215,-1324 }, { 216,-1324 }, { 217,-1324 },
- { 218,-1324 }, { 219,-1324 }, { 220,-1324 }, { 221,-1324 }, { 222,-1324 },
- { 223,-1324 }, { 224,-1324 }, { 225,-1324 }, { 226,-1324 }, { 227,-1324 },
- { 228,-1324 }, { 229,-1324 }, { 230,-1324 }, { 231,-1324 }, { 232,-1324 },
- { 233,-1324 }, { 234,-1324 }, { 235,-1324 }, { 236,-1324 }, { 237,-1324 },
- { 238,-1324 }, { 239,-1324 }, { 240,-1324 }, { 241,-1324 }, { 242,-1324 },
- { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
- { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
- { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
-
- {   0,13489 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,4449 }, {  49,4449 },
-
- {  50,4449 }, {  51,4449 }, {  52,4449 }, {  53,4449 }, {  54,4449 },
- {  55,4449 }, {  56,4449 }, {  57,4449 }, {   0,   0 }, {   0,13430 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
- {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
- {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
-
- {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
- {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
- {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
-
- {  91,   0 }, {  92, 258 }, {  93,-1368 }, {  94,   0 }, {  95,   0 },
- {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 },
- { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
-
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
-
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
-
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,13172 }, {   1,-258 }, {   2,-258 },
- {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
- {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
- {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
- {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
- {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
- {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
-
- {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
- {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
- {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
- {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
- {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
- {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
- {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
- {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
- {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
- {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
-
- {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
- {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 },
- {  93,4260 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
- {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
- { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
- { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
- { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
- { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
- { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
- { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
-
- { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
- { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
- { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
- { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
- { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
- { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
- { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
- { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
- { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
- { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
-
- { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
- { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
- { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
- { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
- { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
- { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
- { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
- { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
- { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
- { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
-
- { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
- { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
- { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
- { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
- { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,12914 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
- {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,4260 },
- {  10,4260 }, {  11,-2157 }, {  12,-2157 }, {  13,4260 }, {  14,-2157 },
- {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
- {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
-
- {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
- {  30,-2157 }, {  31,-2157 }, {  32,4260 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-2157 }, {  46,-2182 }, {  47,-2182 }, {  48,-2157 }, {  49,-2157 },
- {  50,-2157 }, {  51,-2157 }, {  52,-2157 }, {  53,-2157 }, {  54,-2157 },
- {  55,-2157 }, {  56,-2157 }, {  57,-2157 }, {  58,-2157 }, {   0,   0 },
- {   0,   0 }, {  61,-2182 }, {   0,   0 }, {  63,-2157 }, {   0,   0 },
- {  65,-2157 }, {  66,-2157 }, {  67,-2157 }, {  68,-2157 }, {  69,-2157 },
- {  70,-2157 }, {  71,-2157 }, {  72,-2157 }, {  73,-2157 }, {  74,-2157 },
-
- {  75,-2157 }, {  76,-2157 }, {  77,-2157 }, {  78,-2157 }, {  79,-2157 },
- {  80,-2157 }, {  81,-2157 }, {  82,-2157 }, {  83,-2157 }, {  84,-2157 },
- {  85,-2157 }, {  86,-2157 }, {  87,-2157 }, {  88,-2157 }, {  89,-2157 },
- {  90,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-2157 }, {   0,   0 }, {  97,-2157 }, {  98,-2157 }, {  99,-2157 },
- { 100,-2157 }, { 101,-2157 }, { 102,-2157 }, { 103,-2157 }, { 104,-2157 },
- { 105,-2157 }, { 106,-2157 }, { 107,-2157 }, { 108,-2157 }, { 109,-2157 },
- { 110,-2157 }, { 111,-2157 }, { 112,-2157 }, { 113,-2157 }, { 114,-2157 },
- { 115,-2157 }, { 116,-2157 }, { 117,-2157 }, { 118,-2157 }, { 119,-2157 },
- { 120,-2157 }, { 121,-2157 }, { 122,-2157 }, {   0,   0 }, { 124,-2182 },
-
- { 125,-2182 }, { 126,-2182 }, { 127,-2157 }, { 128,-2157 }, { 129,-2157 },
- { 130,-2157 }, { 131,-2157 }, { 132,-2157 }, { 133,-2157 }, { 134,-2157 },
- { 135,-2157 }, { 136,-2157 }, { 137,-2157 }, { 138,-2157 }, { 139,-2157 },
- { 140,-2157 }, { 141,-2157 }, { 142,-2157 }, { 143,-2157 }, { 144,-2157 },
- { 145,-2157 }, { 146,-2157 }, { 147,-2157 }, { 148,-2157 }, { 149,-2157 },
- { 150,-2157 }, { 151,-2157 }, { 152,-2157 }, { 153,-2157 }, { 154,-2157 },
- { 155,-2157 }, { 156,-2157 }, { 157,-2157 }, { 158,-2157 }, { 159,-2157 },
- { 160,-2157 }, { 161,-2157 }, { 162,-2157 }, { 163,-2157 }, { 164,-2157 },
- { 165,-2157 }, { 166,-2157 }, { 167,-2157 }, { 168,-2157 }, { 169,-2157 },
- { 170,-2157 }, { 171,-2157 }, { 172,-2157 }, { 173,-2157 }, { 174,-2157 },
-
- { 175,-2157 }, { 176,-2157 }, { 177,-2157 }, { 178,-2157 }, { 179,-2157 },
- { 180,-2157 }, { 181,-2157 }, { 182,-2157 }, { 183,-2157 }, { 184,-2157 },
- { 185,-2157 }, { 186,-2157 }, { 187,-2157 }, { 188,-2157 }, { 189,-2157 },
- { 190,-2157 }, { 191,-2157 }, { 192,-2157 }, { 193,-2157 }, { 194,-2157 },
- { 195,-2157 }, { 196,-2157 }, { 197,-2157 }, { 198,-2157 }, { 199,-2157 },
- { 200,-2157 }, { 201,-2157 }, { 202,-2157 }, { 203,-2157 }, { 204,-2157 },
- { 205,-2157 }, { 206,-2157 }, { 207,-2157 }, { 208,-2157 }, { 209,-2157 },
- { 210,-2157 }, { 211,-2157 }, { 212,-2157 }, { 213,-2157 }, { 214,-2157 },
- { 215,-2157 }, { 216,-2157 }, { 217,-2157 }, { 218,-2157 }, { 219,-2157 },
- { 220,-2157 }, { 221,-2157 }, { 222,-2157 }, { 223,-2157 }, { 224,-2157 },
-
- { 225,-2157 }, { 226,-2157 }, { 227,-2157 }, { 228,-2157 }, { 229,-2157 },
- { 230,-2157 }, { 231,-2157 }, { 232,-2157 }, { 233,-2157 }, { 234,-2157 },
- { 235,-2157 }, { 236,-2157 }, { 237,-2157 }, { 238,-2157 }, { 239,-2157 },
- { 240,-2157 }, { 241,-2157 }, { 242,-2157 }, { 243,-2157 }, { 244,-2157 },
- { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
- { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,12656 }, {   1,-2415 },
- {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
- {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
- {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
-
- {  17,-2415 }, {  18,-2415 }, {  19,-2415 }, {  20,-2415 }, {  21,-2415 },
- {  22,-2415 }, {  23,-2415 }, {  24,-2415 }, {  25,-2415 }, {  26,-2415 },
- {  27,-2415 }, {  28,-2415 }, {  29,-2415 }, {  30,-2415 }, {  31,-2415 },
- {  32,-2440 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2415 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-2440 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2415 }, {  46,-2440 },
- {  47,-2440 }, {  48,-2415 }, {  49,-2415 }, {  50,-2415 }, {  51,-2415 },
- {  52,-2415 }, {  53,-2415 }, {  54,-2415 }, {  55,-2415 }, {  56,-2415 },
- {  57,-2415 }, {  58,-2415 }, {   0,   0 }, {   0,   0 }, {  61,-2440 },
- {   0,   0 }, {  63,-2415 }, {   0,   0 }, {  65,-2415 }, {  66,-2415 },
-
- {  67,-2415 }, {  68,-2415 }, {  69,-2415 }, {  70,-2415 }, {  71,-2415 },
- {  72,-2415 }, {  73,-2415 }, {  74,-2415 }, {  75,-2415 }, {  76,-2415 },
- {  77,-2415 }, {  78,-2415 }, {  79,-2415 }, {  80,-2415 }, {  81,-2415 },
- {  82,-2415 }, {  83,-2415 }, {  84,-2415 }, {  85,-2415 }, {  86,-2415 },
- {  87,-2415 }, {  88,-2415 }, {  89,-2415 }, {  90,-2415 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
- {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
- { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
- { 107,-2415 }, { 108,4062 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
- { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
-
- { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
- { 122,-2415 }, {   0,   0 }, { 124,-2440 }, { 125,-2440 }, { 126,-2440 },
- { 127,-2415 }, { 128,-2415 }, { 129,-2415 }, { 130,-2415 }, { 131,-2415 },
- { 132,-2415 }, { 133,-2415 }, { 134,-2415 }, { 135,-2415 }, { 136,-2415 },
- { 137,-2415 }, { 138,-2415 }, { 139,-2415 }, { 140,-2415 }, { 141,-2415 },
- { 142,-2415 }, { 143,-2415 }, { 144,-2415 }, { 145,-2415 }, { 146,-2415 },
- { 147,-2415 }, { 148,-2415 }, { 149,-2415 }, { 150,-2415 }, { 151,-2415 },
- { 152,-2415 }, { 153,-2415 }, { 154,-2415 }, { 155,-2415 }, { 156,-2415 },
- { 157,-2415 }, { 158,-2415 }, { 159,-2415 }, { 160,-2415 }, { 161,-2415 },
- { 162,-2415 }, { 163,-2415 }, { 164,-2415 }, { 165,-2415 }, { 166,-2415 },
-
- { 167,-2415 }, { 168,-2415 }, { 169,-2415 }, { 170,-2415 }, { 171,-2415 },
- { 172,-2415 }, { 173,-2415 }, { 174,-2415 }, { 175,-2415 }, { 176,-2415 },
- { 177,-2415 }, { 178,-2415 }, { 179,-2415 }, { 180,-2415 }, { 181,-2415 },
- { 182,-2415 }, { 183,-2415 }, { 184,-2415 }, { 185,-2415 }, { 186,-2415 },
- { 187,-2415 }, { 188,-2415 }, { 189,-2415 }, { 190,-2415 }, { 191,-2415 },
- { 192,-2415 }, { 193,-2415 }, { 194,-2415 }, { 195,-2415 }, { 196,-2415 },
- { 197,-2415 }, { 198,-2415 }, { 199,-2415 }, { 200,-2415 }, { 201,-2415 },
- { 202,-2415 }, { 203,-2415 }, { 204,-2415 }, { 205,-2415 }, { 206,-2415 },
- { 207,-2415 }, { 208,-2415 }, { 209,-2415 }, { 210,-2415 }, { 211,-2415 },
- { 212,-2415 }, { 213,-2415 }, { 214,-2415 }, { 215,-2415 }, { 216,-2415 },
-
- { 217,-2415 }, { 218,-2415 }, { 219,-2415 }, { 220,-2415 }, { 221,-2415 },
- { 222,-2415 }, { 223,-2415 }, { 224,-2415 }, { 225,-2415 }, { 226,-2415 },
- { 227,-2415 }, { 228,-2415 }, { 229,-2415 }, { 230,-2415 }, { 231,-2415 },
- { 232,-2415 }, { 233,-2415 }, { 234,-2415 }, { 235,-2415 }, { 236,-2415 },
- { 237,-2415 }, { 238,-2415 }, { 239,-2415 }, { 240,-2415 }, { 241,-2415 },
- { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
- { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
- { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,12398 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
- {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
-
- {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
- {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
- {  19,-2673 }, {  20,-2673 }, {  21,-2673 }, {  22,-2673 }, {  23,-2673 },
- {  24,-2673 }, {  25,-2673 }, {  26,-2673 }, {  27,-2673 }, {  28,-2673 },
- {  29,-2673 }, {  30,-2673 }, {  31,-2673 }, {  32,-2698 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-2673 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-2698 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-2673 }, {  46,-2698 }, {  47,-2698 }, {  48,-2673 },
- {  49,-2673 }, {  50,-2673 }, {  51,-2673 }, {  52,-2673 }, {  53,-2673 },
- {  54,-2673 }, {  55,-2673 }, {  56,-2673 }, {  57,-2673 }, {  58,-2673 },
-
- {   0,   0 }, {   0,   0 }, {  61,-2698 }, {   0,   0 }, {  63,-2673 },
- {   0,   0 }, {  65,-2673 }, {  66,-2673 }, {  67,-2673 }, {  68,-2673 },
- {  69,-2673 }, {  70,-2673 }, {  71,-2673 }, {  72,-2673 }, {  73,-2673 },
- {  74,-2673 }, {  75,-2673 }, {  76,-2673 }, {  77,-2673 }, {  78,-2673 },
- {  79,-2673 }, {  80,-2673 }, {  81,-2673 }, {  82,-2673 }, {  83,-2673 },
- {  84,-2673 }, {  85,-2673 }, {  86,-2673 }, {  87,-2673 }, {  88,-2673 },
- {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
- {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
- { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,4062 },
-
- { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
- { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
- { 119,-2673 }, { 120,-2673 }, { 121,-2673 }, { 122,-2673 }, {   0,   0 },
- { 124,-2698 }, { 125,-2698 }, { 126,-2698 }, { 127,-2673 }, { 128,-2673 },
- { 129,-2673 }, { 130,-2673 }, { 131,-2673 }, { 132,-2673 }, { 133,-2673 },
- { 134,-2673 }, { 135,-2673 }, { 136,-2673 }, { 137,-2673 }, { 138,-2673 },
- { 139,-2673 }, { 140,-2673 }, { 141,-2673 }, { 142,-2673 }, { 143,-2673 },
- { 144,-2673 }, { 145,-2673 }, { 146,-2673 }, { 147,-2673 }, { 148,-2673 },
- { 149,-2673 }, { 150,-2673 }, { 151,-2673 }, { 152,-2673 }, { 153,-2673 },
- { 154,-2673 }, { 155,-2673 }, { 156,-2673 }, { 157,-2673 }, { 158,-2673 },
-
- { 159,-2673 }, { 160,-2673 }, { 161,-2673 }, { 162,-2673 }, { 163,-2673 },
- { 164,-2673 }, { 165,-2673 }, { 166,-2673 }, { 167,-2673 }, { 168,-2673 },
- { 169,-2673 }, { 170,-2673 }, { 171,-2673 }, { 172,-2673 }, { 173,-2673 },
- { 174,-2673 }, { 175,-2673 }, { 176,-2673 }, { 177,-2673 }, { 178,-2673 },
- { 179,-2673 }, { 180,-2673 }, { 181,-2673 }, { 182,-2673 }, { 183,-2673 },
- { 184,-2673 }, { 185,-2673 }, { 186,-2673 }, { 187,-2673 }, { 188,-2673 },
- { 189,-2673 }, { 190,-2673 }, { 191,-2673 }, { 192,-2673 }, { 193,-2673 },
- { 194,-2673 }, { 195,-2673 }, { 196,-2673 }, { 197,-2673 }, { 198,-2673 },
- { 199,-2673 }, { 200,-2673 }, { 201,-2673 }, { 202,-2673 }, { 203,-2673 },
- { 204,-2673 }, { 205,-2673 }, { 206,-2673 }, { 207,-2673 }, { 208,-2673 },
-
- { 209,-2673 }, { 210,-2673 }, { 211,-2673 }, { 212,-2673 }, { 213,-2673 },
- { 214,-2673 }, { 215,-2673 }, { 216,-2673 }, { 217,-2673 }, { 218,-2673 },
- { 219,-2673 }, { 220,-2673 }, { 221,-2673 }, { 222,-2673 }, { 223,-2673 },
- { 224,-2673 }, { 225,-2673 }, { 226,-2673 }, { 227,-2673 }, { 228,-2673 },
- { 229,-2673 }, { 230,-2673 }, { 231,-2673 }, { 232,-2673 }, { 233,-2673 },
- { 234,-2673 }, { 235,-2673 }, { 236,-2673 }, { 237,-2673 }, { 238,-2673 },
- { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
- { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
- { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,12140 },
-
- {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
- {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
- {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
- {  16,-2931 }, {  17,-2931 }, {  18,-2931 }, {  19,-2931 }, {  20,-2931 },
- {  21,-2931 }, {  22,-2931 }, {  23,-2931 }, {  24,-2931 }, {  25,-2931 },
- {  26,-2931 }, {  27,-2931 }, {  28,-2931 }, {  29,-2931 }, {  30,-2931 },
- {  31,-2931 }, {  32,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-2931 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2931 },
- {  46,-2956 }, {  47,-2956 }, {  48,-2931 }, {  49,-2931 }, {  50,-2931 },
-
- {  51,-2931 }, {  52,-2931 }, {  53,-2931 }, {  54,-2931 }, {  55,-2931 },
- {  56,-2931 }, {  57,-2931 }, {  58,-2931 }, {   0,   0 }, {   0,   0 },
- {  61,-2956 }, {   0,   0 }, {  63,-2931 }, {   0,   0 }, {  65,-2931 },
- {  66,-2931 }, {  67,-2931 }, {  68,-2931 }, {  69,-2931 }, {  70,-2931 },
- {  71,-2931 }, {  72,-2931 }, {  73,-2931 }, {  74,-2931 }, {  75,-2931 },
- {  76,-2931 }, {  77,-2931 }, {  78,-2931 }, {  79,-2931 }, {  80,-2931 },
- {  81,-2931 }, {  82,-2931 }, {  83,-2931 }, {  84,-2931 }, {  85,-2931 },
- {  86,-2931 }, {  87,-2931 }, {  88,-2931 }, {  89,-2931 }, {  90,-2931 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2931 },
- {   0,   0 }, {  97,-2931 }, {  98,-2931 }, {  99,-2931 }, { 100,-2931 },
-
- { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
- { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
- { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
- { 116,-2931 }, { 117,4062 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
- { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
- { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
- { 131,-2931 }, { 132,-2931 }, { 133,-2931 }, { 134,-2931 }, { 135,-2931 },
- { 136,-2931 }, { 137,-2931 }, { 138,-2931 }, { 139,-2931 }, { 140,-2931 },
- { 141,-2931 }, { 142,-2931 }, { 143,-2931 }, { 144,-2931 }, { 145,-2931 },
- { 146,-2931 }, { 147,-2931 }, { 148,-2931 }, { 149,-2931 }, { 150,-2931 },
-
- { 151,-2931 }, { 152,-2931 }, { 153,-2931 }, { 154,-2931 }, { 155,-2931 },
- { 156,-2931 }, { 157,-2931 }, { 158,-2931 }, { 159,-2931 }, { 160,-2931 },
- { 161,-2931 }, { 162,-2931 }, { 163,-2931 }, { 164,-2931 }, { 165,-2931 },
- { 166,-2931 }, { 167,-2931 }, { 168,-2931 }, { 169,-2931 }, { 170,-2931 },
- { 171,-2931 }, { 172,-2931 }, { 173,-2931 }, { 174,-2931 }, { 175,-2931 },
- { 176,-2931 }, { 177,-2931 }, { 178,-2931 }, { 179,-2931 }, { 180,-2931 },
- { 181,-2931 }, { 182,-2931 }, { 183,-2931 }, { 184,-2931 }, { 185,-2931 },
- { 186,-2931 }, { 187,-2931 }, { 188,-2931 }, { 189,-2931 }, { 190,-2931 },
- { 191,-2931 }, { 192,-2931 }, { 193,-2931 }, { 194,-2931 }, { 195,-2931 },
- { 196,-2931 }, { 197,-2931 }, { 198,-2931 }, { 199,-2931 }, { 200,-2931 },
-
- { 201,-2931 }, { 202,-2931 }, { 203,-2931 }, { 204,-2931 }, { 205,-2931 },
- { 206,-2931 }, { 207,-2931 }, { 208,-2931 }, { 209,-2931 }, { 210,-2931 },
- { 211,-2931 }, { 212,-2931 }, { 213,-2931 }, { 214,-2931 }, { 215,-2931 },
- { 216,-2931 }, { 217,-2931 }, { 218,-2931 }, { 219,-2931 }, { 220,-2931 },
- { 221,-2931 }, { 222,-2931 }, { 223,-2931 }, { 224,-2931 }, { 225,-2931 },
- { 226,-2931 }, { 227,-2931 }, { 228,-2931 }, { 229,-2931 }, { 230,-2931 },
- { 231,-2931 }, { 232,-2931 }, { 233,-2931 }, { 234,-2931 }, { 235,-2931 },
- { 236,-2931 }, { 237,-2931 }, { 238,-2931 }, { 239,-2931 }, { 240,-2931 },
- { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
- { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
-
- { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,11882 }, {   1,-3189 }, {   2,-3189 },
- {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
- {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
- {  13,-3214 }, {  14,-3189 }, {  15,-3189 }, {  16,-3189 }, {  17,-3189 },
- {  18,-3189 }, {  19,-3189 }, {  20,-3189 }, {  21,-3189 }, {  22,-3189 },
- {  23,-3189 }, {  24,-3189 }, {  25,-3189 }, {  26,-3189 }, {  27,-3189 },
- {  28,-3189 }, {  29,-3189 }, {  30,-3189 }, {  31,-3189 }, {  32,-3214 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-3189 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-3214 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  45,-3189 }, {  46,-3214 }, {  47,-3214 },
- {  48,-3189 }, {  49,-3189 }, {  50,-3189 }, {  51,-3189 }, {  52,-3189 },
- {  53,-3189 }, {  54,-3189 }, {  55,-3189 }, {  56,-3189 }, {  57,-3189 },
- {  58,-3189 }, {   0,   0 }, {   0,   0 }, {  61,-3214 }, {   0,   0 },
- {  63,-3189 }, {   0,   0 }, {  65,-3189 }, {  66,-3189 }, {  67,-3189 },
- {  68,-3189 }, {  69,-3189 }, {  70,-3189 }, {  71,-3189 }, {  72,-3189 },
- {  73,-3189 }, {  74,-3189 }, {  75,-3189 }, {  76,-3189 }, {  77,-3189 },
- {  78,-3189 }, {  79,-3189 }, {  80,-3189 }, {  81,-3189 }, {  82,-3189 },
- {  83,-3189 }, {  84,-3189 }, {  85,-3189 }, {  86,-3189 }, {  87,-3189 },
- {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
- {  98,-3189 }, {  99,-3189 }, { 100,4062 }, { 101,-3189 }, { 102,-3189 },
- { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
- { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
- { 113,-3189 }, { 114,-3189 }, { 115,-3189 }, { 116,-3189 }, { 117,-3189 },
- { 118,-3189 }, { 119,-3189 }, { 120,-3189 }, { 121,-3189 }, { 122,-3189 },
- {   0,   0 }, { 124,-3214 }, { 125,-3214 }, { 126,-3214 }, { 127,-3189 },
- { 128,-3189 }, { 129,-3189 }, { 130,-3189 }, { 131,-3189 }, { 132,-3189 },
- { 133,-3189 }, { 134,-3189 }, { 135,-3189 }, { 136,-3189 }, { 137,-3189 },
- { 138,-3189 }, { 139,-3189 }, { 140,-3189 }, { 141,-3189 }, { 142,-3189 },
-
- { 143,-3189 }, { 144,-3189 }, { 145,-3189 }, { 146,-3189 }, { 147,-3189 },
- { 148,-3189 }, { 149,-3189 }, { 150,-3189 }, { 151,-3189 }, { 152,-3189 },
- { 153,-3189 }, { 154,-3189 }, { 155,-3189 }, { 156,-3189 }, { 157,-3189 },
- { 158,-3189 }, { 159,-3189 }, { 160,-3189 }, { 161,-3189 }, { 162,-3189 },
- { 163,-3189 }, { 164,-3189 }, { 165,-3189 }, { 166,-3189 }, { 167,-3189 },
- { 168,-3189 }, { 169,-3189 }, { 170,-3189 }, { 171,-3189 }, { 172,-3189 },
- { 173,-3189 }, { 174,-3189 }, { 175,-3189 }, { 176,-3189 }, { 177,-3189 },
- { 178,-3189 }, { 179,-3189 }, { 180,-3189 }, { 181,-3189 }, { 182,-3189 },
- { 183,-3189 }, { 184,-3189 }, { 185,-3189 }, { 186,-3189 }, { 187,-3189 },
- { 188,-3189 }, { 189,-3189 }, { 190,-3189 }, { 191,-3189 }, { 192,-3189 },
-
- { 193,-3189 }, { 194,-3189 }, { 195,-3189 }, { 196,-3189 }, { 197,-3189 },
- { 198,-3189 }, { 199,-3189 }, { 200,-3189 }, { 201,-3189 }, { 202,-3189 },
- { 203,-3189 }, { 204,-3189 }, { 205,-3189 }, { 206,-3189 }, { 207,-3189 },
- { 208,-3189 }, { 209,-3189 }, { 210,-3189 }, { 211,-3189 }, { 212,-3189 },
- { 213,-3189 }, { 214,-3189 }, { 215,-3189 }, { 216,-3189 }, { 217,-3189 },
- { 218,-3189 }, { 219,-3189 }, { 220,-3189 }, { 221,-3189 }, { 222,-3189 },
- { 223,-3189 }, { 224,-3189 }, { 225,-3189 }, { 226,-3189 }, { 227,-3189 },
- { 228,-3189 }, { 229,-3189 }, { 230,-3189 }, { 231,-3189 }, { 232,-3189 },
- { 233,-3189 }, { 234,-3189 }, { 235,-3189 }, { 236,-3189 }, { 237,-3189 },
- { 238,-3189 }, { 239,-3189 }, { 240,-3189 }, { 241,-3189 }, { 242,-3189 },
-
- { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
- { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
- { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
- {   0,11624 }, {   0,  38 }, {   0,11622 }, {   0,   0 }, {   0,11620 },
- {   0,   0 }, {   0,11618 }, {   0,  13 }, {   0,11616 }, {   9,4062 },
- {  10,4062 }, {   0,   0 }, {   0,   0 }, {  13,4062 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,4062 }, {  33,1689 }, {   0,   0 },
-
- {  35,1691 }, {   0,   0 }, {   0,   0 }, {  38,1693 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  42,1695 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  47,1697 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1699 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,4064 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,1794 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2998 }, {   0,   0 },
- {   0,   0 }, { 126,4070 }, { 125,2999 }, {   0,   0 }, { 125,3024 },
- {   0,   0 }, { 125,3058 }, {   0,   0 }, {   0,11491 }, {   1,   0 },
-
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
- {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
-
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
-
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
-
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
-
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
-
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,11233 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
- {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 },
- {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 },
- {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 },
- {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 },
- {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 },
- {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 },
- {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 },
- {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 },
-
- {  44,-258 }, {  45, 258 }, {  46,-258 }, {  47,-258 }, {  48,-258 },
- {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 },
- {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 },
- {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 },
- {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 },
- {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 },
- {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 },
- {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 },
- {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 },
- {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 },
-
- {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 },
- {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 },
- { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 },
- { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 },
- { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 },
- { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 },
- { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 },
- { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 },
- { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 },
- { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 },
-
- { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 },
- { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 },
- { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 },
- { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 },
- { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 },
- { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 },
- { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 },
- { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 },
- { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 },
- { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 },
-
- { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 },
- { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 },
- { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 },
- { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 },
- { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 },
- { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 },
- { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 },
- { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 },
- { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 },
- { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 },
-
- { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 },
- { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 },
- { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,10975 },
- {   1,3546 }, {   2,3546 }, {   3,3546 }, {   4,3546 }, {   5,3546 },
- {   6,3546 }, {   7,3546 }, {   8,3546 }, {   9,3546 }, {  10,3546 },
- {  11,3546 }, {  12,3546 }, {  13,3546 }, {  14,3546 }, {  15,3546 },
- {  16,3546 }, {  17,3546 }, {  18,3546 }, {  19,3546 }, {  20,3546 },
- {  21,3546 }, {  22,3546 }, {  23,3546 }, {  24,3546 }, {  25,3546 },
- {  26,3546 }, {  27,3546 }, {  28,3546 }, {  29,3546 }, {  30,3546 },
- {  31,3546 }, {  32,3546 }, {  33,3546 }, {  34,3546 }, {  35,3546 },
-
- {  36,3546 }, {  37,3546 }, {  38,3546 }, {  39,3546 }, {  40,3546 },
- {  41,3546 }, {  42,3546 }, {  43,3546 }, {  44,3546 }, {  45,3804 },
- {  46,3546 }, {  47,3546 }, {  48,3546 }, {  49,3546 }, {  50,3546 },
- {  51,3546 }, {  52,3546 }, {  53,3546 }, {  54,3546 }, {  55,3546 },
- {  56,3546 }, {  57,3546 }, {  58,3546 }, {  59,3546 }, {  60,3546 },
- {  61,3546 }, {  62,3546 }, {  63,3546 }, {  64,3546 }, {  65,3546 },
- {  66,3546 }, {  67,3546 }, {  68,3546 }, {  69,3546 }, {  70,3546 },
- {  71,3546 }, {  72,3546 }, {  73,3546 }, {  74,3546 }, {  75,3546 },
- {  76,3546 }, {  77,3546 }, {  78,3546 }, {  79,3546 }, {  80,3546 },
- {  81,3546 }, {  82,3546 }, {  83,3546 }, {  84,3546 }, {  85,3546 },
-
- {  86,3546 }, {  87,3546 }, {  88,3546 }, {  89,3546 }, {  90,3546 },
- {  91,3546 }, {  92,3546 }, {  93,3546 }, {  94,3546 }, {  95,3546 },
- {  96,3546 }, {  97,3546 }, {  98,3546 }, {  99,3546 }, { 100,3546 },
- { 101,3546 }, { 102,3546 }, { 103,3546 }, { 104,3546 }, { 105,3546 },
- { 106,3546 }, { 107,3546 }, { 108,3546 }, { 109,3546 }, { 110,3546 },
- { 111,3546 }, { 112,3546 }, { 113,3546 }, { 114,3546 }, { 115,3546 },
- { 116,3546 }, { 117,3546 }, { 118,3546 }, { 119,3546 }, { 120,3546 },
- { 121,3546 }, { 122,3546 }, { 123,3546 }, { 124,3546 }, { 125,4062 },
- { 126,4320 }, { 127,3546 }, { 128,3546 }, { 129,3546 }, { 130,3546 },
- { 131,3546 }, { 132,3546 }, { 133,3546 }, { 134,3546 }, { 135,3546 },
-
- { 136,3546 }, { 137,3546 }, { 138,3546 }, { 139,3546 }, { 140,3546 },
- { 141,3546 }, { 142,3546 }, { 143,3546 }, { 144,3546 }, { 145,3546 },
- { 146,3546 }, { 147,3546 }, { 148,3546 }, { 149,3546 }, { 150,3546 },
- { 151,3546 }, { 152,3546 }, { 153,3546 }, { 154,3546 }, { 155,3546 },
- { 156,3546 }, { 157,3546 }, { 158,3546 }, { 159,3546 }, { 160,3546 },
- { 161,3546 }, { 162,3546 }, { 163,3546 }, { 164,3546 }, { 165,3546 },
- { 166,3546 }, { 167,3546 }, { 168,3546 }, { 169,3546 }, { 170,3546 },
- { 171,3546 }, { 172,3546 }, { 173,3546 }, { 174,3546 }, { 175,3546 },
- { 176,3546 }, { 177,3546 }, { 178,3546 }, { 179,3546 }, { 180,3546 },
- { 181,3546 }, { 182,3546 }, { 183,3546 }, { 184,3546 }, { 185,3546 },
-
- { 186,3546 }, { 187,3546 }, { 188,3546 }, { 189,3546 }, { 190,3546 },
- { 191,3546 }, { 192,3546 }, { 193,3546 }, { 194,3546 }, { 195,3546 },
- { 196,3546 }, { 197,3546 }, { 198,3546 }, { 199,3546 }, { 200,3546 },
- { 201,3546 }, { 202,3546 }, { 203,3546 }, { 204,3546 }, { 205,3546 },
- { 206,3546 }, { 207,3546 }, { 208,3546 }, { 209,3546 }, { 210,3546 },
- { 211,3546 }, { 212,3546 }, { 213,3546 }, { 214,3546 }, { 215,3546 },
- { 216,3546 }, { 217,3546 }, { 218,3546 }, { 219,3546 }, { 220,3546 },
- { 221,3546 }, { 222,3546 }, { 223,3546 }, { 224,3546 }, { 225,3546 },
- { 226,3546 }, { 227,3546 }, { 228,3546 }, { 229,3546 }, { 230,3546 },
- { 231,3546 }, { 232,3546 }, { 233,3546 }, { 234,3546 }, { 235,3546 },
-
- { 236,3546 }, { 237,3546 }, { 238,3546 }, { 239,3546 }, { 240,3546 },
- { 241,3546 }, { 242,3546 }, { 243,3546 }, { 244,3546 }, { 245,3546 },
- { 246,3546 }, { 247,3546 }, { 248,3546 }, { 249,3546 }, { 250,3546 },
- { 251,3546 }, { 252,3546 }, { 253,3546 }, { 254,3546 }, { 255,3546 },
- { 256,3546 }, {   0,   0 }, {   0,10717 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
- {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
-
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
-
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- { 123,   0 }, { 124,   0 }, { 125, 258 }, { 126,   0 }, { 127,   0 },
-
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
-
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
-
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0,10459 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
- {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
- {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
- {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
-
- {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
- {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
- {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
- {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
- {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
- {  45,-258 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
- {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
- {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
- {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
- {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
-
- {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
- {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
- {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
- {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
- {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
- {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
- { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
- { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
- { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
- { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
-
- { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
- { 125,-1157 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
- { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
- { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
- { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
- { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
- { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
- { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
- { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
- { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
-
- { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
- { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
- { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
- { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
- { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
- { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
- { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
- { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
- { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
- { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
-
- { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
- { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
- { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
- { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
- { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
- { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
- { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
- { 255,-258 }, { 256,-258 }, {   0,  10 }, {   0,10201 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
-
- {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
-
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
-
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
-
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
-
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,9943 }, {   0,   0 }, {   0,9941 }, {   0,   0 },
-
- {   0,9939 }, {   0,   5 }, {   0,9937 }, {   0,  30 }, {   0,9935 },
- {   0,  21 }, {   0,9933 }, {   0,  28 }, {   0,9931 }, {   0,  31 },
- {   0,9929 }, {   0,  22 }, {   0,9927 }, {   0,  19 }, {   0,9925 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  42,3548 }, {  45,3548 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,3552 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,9830 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2387 },
- {   0,   0 }, { 123,3544 }, {   0,   0 }, { 123,3544 }, {   0,   4 },
- {   0,9814 }, {   1,3544 }, {   2,3544 }, {   3,3544 }, {   4,3544 },
- {   5,3544 }, {   6,3544 }, {   7,3544 }, {   8,3544 }, {   9,3544 },
- {  10,3421 }, {  11,3544 }, {  12,3544 }, {  13,3421 }, {  14,3544 },
- {  15,3544 }, {  16,3544 }, {  17,3544 }, {  18,3544 }, {  19,3544 },
- {  20,3544 }, {  21,3544 }, {  22,3544 }, {  23,3544 }, {  24,3544 },
-
- {  25,3544 }, {  26,3544 }, {  27,3544 }, {  28,3544 }, {  29,3544 },
- {  30,3544 }, {  31,3544 }, {  32,3544 }, {  33,3544 }, {  34,3544 },
- {  35,3544 }, {  36,3544 }, {  37,3544 }, {  38,3544 }, {  39,3544 },
- {  40,3544 }, {  41,3544 }, {  42,3544 }, {  43,3544 }, {  44,3544 },
- {  45,3544 }, {  46,3544 }, {  47,3544 }, {  48,3544 }, {  49,3544 },
- {  50,3544 }, {  51,3544 }, {  52,3544 }, {  53,3544 }, {  54,3544 },
- {  55,3544 }, {  56,3544 }, {  57,3544 }, {  58,3544 }, {  59,3544 },
- {  60,3544 }, {  61,3544 }, {  62,3544 }, {  63,3544 }, {  64,3544 },
- {  65,3544 }, {  66,3544 }, {  67,3544 }, {  68,3544 }, {  69,3544 },
- {  70,3544 }, {  71,3544 }, {  72,3544 }, {  73,3544 }, {  74,3544 },
-
- {  75,3544 }, {  76,3544 }, {  77,3544 }, {  78,3544 }, {  79,3544 },
- {  80,3544 }, {  81,3544 }, {  82,3544 }, {  83,3544 }, {  84,3544 },
- {  85,3544 }, {  86,3544 }, {  87,3544 }, {  88,3544 }, {  89,3544 },
- {  90,3544 }, {  91,3544 }, { 108,4113 }, {  93,3544 }, {  94,3544 },
- {  95,3544 }, {  96,3544 }, {  97,3544 }, {  98,3544 }, {  99,3544 },
- { 100,3544 }, { 101,3544 }, { 102,3544 }, { 103,3544 }, { 104,3544 },
- { 105,3544 }, { 106,3544 }, { 107,3544 }, { 108,3544 }, { 109,3544 },
- { 110,3544 }, { 111,3544 }, { 112,3544 }, { 113,3544 }, { 114,3544 },
- { 115,3544 }, { 116,3544 }, { 117,3544 }, { 118,3544 }, { 119,3544 },
- { 120,3544 }, { 121,3544 }, { 122,3544 }, { 123,3802 }, { 124,3544 },
-
- { 125,3544 }, { 126,3544 }, { 127,3544 }, { 128,3544 }, { 129,3544 },
- { 130,3544 }, { 131,3544 }, { 132,3544 }, { 133,3544 }, { 134,3544 },
- { 135,3544 }, { 136,3544 }, { 137,3544 }, { 138,3544 }, { 139,3544 },
- { 140,3544 }, { 141,3544 }, { 142,3544 }, { 143,3544 }, { 144,3544 },
- { 145,3544 }, { 146,3544 }, { 147,3544 }, { 148,3544 }, { 149,3544 },
- { 150,3544 }, { 151,3544 }, { 152,3544 }, { 153,3544 }, { 154,3544 },
- { 155,3544 }, { 156,3544 }, { 157,3544 }, { 158,3544 }, { 159,3544 },
- { 160,3544 }, { 161,3544 }, { 162,3544 }, { 163,3544 }, { 164,3544 },
- { 165,3544 }, { 166,3544 }, { 167,3544 }, { 168,3544 }, { 169,3544 },
- { 170,3544 }, { 171,3544 }, { 172,3544 }, { 173,3544 }, { 174,3544 },
-
- { 175,3544 }, { 176,3544 }, { 177,3544 }, { 178,3544 }, { 179,3544 },
- { 180,3544 }, { 181,3544 }, { 182,3544 }, { 183,3544 }, { 184,3544 },
- { 185,3544 }, { 186,3544 }, { 187,3544 }, { 188,3544 }, { 189,3544 },
- { 190,3544 }, { 191,3544 }, { 192,3544 }, { 193,3544 }, { 194,3544 },
- { 195,3544 }, { 196,3544 }, { 197,3544 }, { 198,3544 }, { 199,3544 },
- { 200,3544 }, { 201,3544 }, { 202,3544 }, { 203,3544 }, { 204,3544 },
- { 205,3544 }, { 206,3544 }, { 207,3544 }, { 208,3544 }, { 209,3544 },
- { 210,3544 }, { 211,3544 }, { 212,3544 }, { 213,3544 }, { 214,3544 },
- { 215,3544 }, { 216,3544 }, { 217,3544 }, { 218,3544 }, { 219,3544 },
- { 220,3544 }, { 221,3544 }, { 222,3544 }, { 223,3544 }, { 224,3544 },
-
- { 225,3544 }, { 226,3544 }, { 227,3544 }, { 228,3544 }, { 229,3544 },
- { 230,3544 }, { 231,3544 }, { 232,3544 }, { 233,3544 }, { 234,3544 },
- { 235,3544 }, { 236,3544 }, { 237,3544 }, { 238,3544 }, { 239,3544 },
- { 240,3544 }, { 241,3544 }, { 242,3544 }, { 243,3544 }, { 244,3544 },
- { 245,3544 }, { 246,3544 }, { 247,3544 }, { 248,3544 }, { 249,3544 },
- { 250,3544 }, { 251,3544 }, { 252,3544 }, { 253,3544 }, { 254,3544 },
- { 255,3544 }, { 256,3544 }, {   0,  39 }, {   0,9556 }, {   1,-5223 },
- {   2,-5223 }, {   3,-5223 }, {   4,-5223 }, {   5,-5223 }, {   6,-5223 },
- {   7,-5223 }, {   8,-5223 }, {   9,-5223 }, {  10,-5223 }, {  11,-5223 },
- {  12,-5223 }, {  13,-5223 }, {  14,-5223 }, {  15,-5223 }, {  16,-5223 },
-
- {  17,-5223 }, {  18,-5223 }, {  19,-5223 }, {  20,-5223 }, {  21,-5223 },
- {  22,-5223 }, {  23,-5223 }, {  24,-5223 }, {  25,-5223 }, {  26,-5223 },
- {  27,-5223 }, {  28,-5223 }, {  29,-5223 }, {  30,-5223 }, {  31,-5223 },
- {  32,-5223 }, {  33,-5223 }, {  34,-5255 }, {  35,-5223 }, {  36,-5223 },
- {  37,-5223 }, {  38,-5223 }, {  39,-5223 }, {  40,-5223 }, {  41,-5223 },
- {  42,-5223 }, {  43,-5223 }, {  44,-5223 }, {  45,-5223 }, {  46,-5223 },
- {  47,-5223 }, {  48,-5223 }, {  49,-5223 }, {  50,-5223 }, {  51,-5223 },
- {  52,-5223 }, {  53,-5223 }, {  54,-5223 }, {  55,-5223 }, {  56,-5223 },
- {  57,-5223 }, {  58,-5223 }, {  59,-5223 }, {  60,-5223 }, {  61,-5223 },
- {  62,-5223 }, {  63,-5223 }, {  64,-5223 }, {  65,-5223 }, {  66,-5223 },
-
- {  67,-5223 }, {  68,-5223 }, {  69,-5223 }, {  70,-5223 }, {  71,-5223 },
- {  72,-5223 }, {  73,-5223 }, {  74,-5223 }, {  75,-5223 }, {  76,-5223 },
- {  77,-5223 }, {  78,-5223 }, {  79,-5223 }, {  80,-5223 }, {  81,-5223 },
- {  82,-5223 }, {  83,-5223 }, {  84,-5223 }, {  85,-5223 }, {  86,-5223 },
- {  87,-5223 }, {  88,-5223 }, {  89,-5223 }, {  90,-5223 }, {  91,-5223 },
- {  92,-4965 }, {  93,-5223 }, {  94,-5223 }, {  95,-5223 }, {  96,-5223 },
- {  97,-5223 }, {  98,-5223 }, {  99,-5223 }, { 100,-5223 }, { 101,-5223 },
- { 102,-5223 }, { 103,-5223 }, { 104,-5223 }, { 105,-5223 }, { 106,-5223 },
- { 107,-5223 }, { 108,-5223 }, { 109,-5223 }, { 110,-5223 }, { 111,-5223 },
- { 112,-5223 }, { 113,-5223 }, { 114,-5223 }, { 115,-5223 }, { 116,-5223 },
-
- { 117,-5223 }, { 118,-5223 }, { 119,-5223 }, { 120,-5223 }, { 121,-5223 },
- { 122,-5223 }, { 123,-5223 }, { 124,-5223 }, { 125,-5223 }, { 126,-5223 },
- { 127,-5223 }, { 128,-5223 }, { 129,-5223 }, { 130,-5223 }, { 131,-5223 },
- { 132,-5223 }, { 133,-5223 }, { 134,-5223 }, { 135,-5223 }, { 136,-5223 },
- { 137,-5223 }, { 138,-5223 }, { 139,-5223 }, { 140,-5223 }, { 141,-5223 },
- { 142,-5223 }, { 143,-5223 }, { 144,-5223 }, { 145,-5223 }, { 146,-5223 },
- { 147,-5223 }, { 148,-5223 }, { 149,-5223 }, { 150,-5223 }, { 151,-5223 },
- { 152,-5223 }, { 153,-5223 }, { 154,-5223 }, { 155,-5223 }, { 156,-5223 },
- { 157,-5223 }, { 158,-5223 }, { 159,-5223 }, { 160,-5223 }, { 161,-5223 },
- { 162,-5223 }, { 163,-5223 }, { 164,-5223 }, { 165,-5223 }, { 166,-5223 },
-
- { 167,-5223 }, { 168,-5223 }, { 169,-5223 }, { 170,-5223 }, { 171,-5223 },
- { 172,-5223 }, { 173,-5223 }, { 174,-5223 }, { 175,-5223 }, { 176,-5223 },
- { 177,-5223 }, { 178,-5223 }, { 179,-5223 }, { 180,-5223 }, { 181,-5223 },
- { 182,-5223 }, { 183,-5223 }, { 184,-5223 }, { 185,-5223 }, { 186,-5223 },
- { 187,-5223 }, { 188,-5223 }, { 189,-5223 }, { 190,-5223 }, { 191,-5223 },
- { 192,-5223 }, { 193,-5223 }, { 194,-5223 }, { 195,-5223 }, { 196,-5223 },
- { 197,-5223 }, { 198,-5223 }, { 199,-5223 }, { 200,-5223 }, { 201,-5223 },
- { 202,-5223 }, { 203,-5223 }, { 204,-5223 }, { 205,-5223 }, { 206,-5223 },
- { 207,-5223 }, { 208,-5223 }, { 209,-5223 }, { 210,-5223 }, { 211,-5223 },
- { 212,-5223 }, { 213,-5223 }, { 214,-5223 }, { 215,-5223 }, { 216,-5223 },
-
- { 217,-5223 }, { 218,-5223 }, { 219,-5223 }, { 220,-5223 }, { 221,-5223 },
- { 222,-5223 }, { 223,-5223 }, { 224,-5223 }, { 225,-5223 }, { 226,-5223 },
- { 227,-5223 }, { 228,-5223 }, { 229,-5223 }, { 230,-5223 }, { 231,-5223 },
- { 232,-5223 }, { 233,-5223 }, { 234,-5223 }, { 235,-5223 }, { 236,-5223 },
- { 237,-5223 }, { 238,-5223 }, { 239,-5223 }, { 240,-5223 }, { 241,-5223 },
- { 242,-5223 }, { 243,-5223 }, { 244,-5223 }, { 245,-5223 }, { 246,-5223 },
- { 247,-5223 }, { 248,-5223 }, { 249,-5223 }, { 250,-5223 }, { 251,-5223 },
- { 252,-5223 }, { 253,-5223 }, { 254,-5223 }, { 255,-5223 }, { 256,-5223 },
- {   0,  40 }, {   0,9298 }, {   1,-4965 }, {   2,-4965 }, {   3,-4965 },
- {   4,-4965 }, {   5,-4965 }, {   6,-4965 }, {   7,-4965 }, {   8,-4965 },
-
- {   9,-4965 }, {  10,-4965 }, {  11,-4965 }, {  12,-4965 }, {  13,-4965 },
- {  14,-4965 }, {  15,-4965 }, {  16,-4965 }, {  17,-4965 }, {  18,-4965 },
- {  19,-4965 }, {  20,-4965 }, {  21,-4965 }, {  22,-4965 }, {  23,-4965 },
- {  24,-4965 }, {  25,-4965 }, {  26,-4965 }, {  27,-4965 }, {  28,-4965 },
- {  29,-4965 }, {  30,-4965 }, {  31,-4965 }, {  32,-4965 }, {  33,-4965 },
- {  34,-4965 }, {  35,-4965 }, {  36,-4965 }, {  37,-4965 }, {  38,-4965 },
- {  39,-5511 }, {  40,-4965 }, {  41,-4965 }, {  42,-4965 }, {  43,-4965 },
- {  44,-4965 }, {  45,-4965 }, {  46,-4965 }, {  47,-4965 }, {  48,-4965 },
- {  49,-4965 }, {  50,-4965 }, {  51,-4965 }, {  52,-4965 }, {  53,-4965 },
- {  54,-4965 }, {  55,-4965 }, {  56,-4965 }, {  57,-4965 }, {  58,-4965 },
-
- {  59,-4965 }, {  60,-4965 }, {  61,-4965 }, {  62,-4965 }, {  63,-4965 },
- {  64,-4965 }, {  65,-4965 }, {  66,-4965 }, {  67,-4965 }, {  68,-4965 },
- {  69,-4965 }, {  70,-4965 }, {  71,-4965 }, {  72,-4965 }, {  73,-4965 },
- {  74,-4965 }, {  75,-4965 }, {  76,-4965 }, {  77,-4965 }, {  78,-4965 },
- {  79,-4965 }, {  80,-4965 }, {  81,-4965 }, {  82,-4965 }, {  83,-4965 },
- {  84,-4965 }, {  85,-4965 }, {  86,-4965 }, {  87,-4965 }, {  88,-4965 },
- {  89,-4965 }, {  90,-4965 }, {  91,-4965 }, {  92,-4707 }, {  93,-4965 },
- {  94,-4965 }, {  95,-4965 }, {  96,-4965 }, {  97,-4965 }, {  98,-4965 },
- {  99,-4965 }, { 100,-4965 }, { 101,-4965 }, { 102,-4965 }, { 103,-4965 },
- { 104,-4965 }, { 105,-4965 }, { 106,-4965 }, { 107,-4965 }, { 108,-4965 },
-
- { 109,-4965 }, { 110,-4965 }, { 111,-4965 }, { 112,-4965 }, { 113,-4965 },
- { 114,-4965 }, { 115,-4965 }, { 116,-4965 }, { 117,-4965 }, { 118,-4965 },
- { 119,-4965 }, { 120,-4965 }, { 121,-4965 }, { 122,-4965 }, { 123,-4965 },
- { 124,-4965 }, { 125,-4965 }, { 126,-4965 }, { 127,-4965 }, { 128,-4965 },
- { 129,-4965 }, { 130,-4965 }, { 131,-4965 }, { 132,-4965 }, { 133,-4965 },
- { 134,-4965 }, { 135,-4965 }, { 136,-4965 }, { 137,-4965 }, { 138,-4965 },
- { 139,-4965 }, { 140,-4965 }, { 141,-4965 }, { 142,-4965 }, { 143,-4965 },
- { 144,-4965 }, { 145,-4965 }, { 146,-4965 }, { 147,-4965 }, { 148,-4965 },
- { 149,-4965 }, { 150,-4965 }, { 151,-4965 }, { 152,-4965 }, { 153,-4965 },
- { 154,-4965 }, { 155,-4965 }, { 156,-4965 }, { 157,-4965 }, { 158,-4965 },
-
- { 159,-4965 }, { 160,-4965 }, { 161,-4965 }, { 162,-4965 }, { 163,-4965 },
- { 164,-4965 }, { 165,-4965 }, { 166,-4965 }, { 167,-4965 }, { 168,-4965 },
- { 169,-4965 }, { 170,-4965 }, { 171,-4965 }, { 172,-4965 }, { 173,-4965 },
- { 174,-4965 }, { 175,-4965 }, { 176,-4965 }, { 177,-4965 }, { 178,-4965 },
- { 179,-4965 }, { 180,-4965 }, { 181,-4965 }, { 182,-4965 }, { 183,-4965 },
- { 184,-4965 }, { 185,-4965 }, { 186,-4965 }, { 187,-4965 }, { 188,-4965 },
- { 189,-4965 }, { 190,-4965 }, { 191,-4965 }, { 192,-4965 }, { 193,-4965 },
- { 194,-4965 }, { 195,-4965 }, { 196,-4965 }, { 197,-4965 }, { 198,-4965 },
- { 199,-4965 }, { 200,-4965 }, { 201,-4965 }, { 202,-4965 }, { 203,-4965 },
- { 204,-4965 }, { 205,-4965 }, { 206,-4965 }, { 207,-4965 }, { 208,-4965 },
-
- { 209,-4965 }, { 210,-4965 }, { 211,-4965 }, { 212,-4965 }, { 213,-4965 },
- { 214,-4965 }, { 215,-4965 }, { 216,-4965 }, { 217,-4965 }, { 218,-4965 },
- { 219,-4965 }, { 220,-4965 }, { 221,-4965 }, { 222,-4965 }, { 223,-4965 },
- { 224,-4965 }, { 225,-4965 }, { 226,-4965 }, { 227,-4965 }, { 228,-4965 },
- { 229,-4965 }, { 230,-4965 }, { 231,-4965 }, { 232,-4965 }, { 233,-4965 },
- { 234,-4965 }, { 235,-4965 }, { 236,-4965 }, { 237,-4965 }, { 238,-4965 },
- { 239,-4965 }, { 240,-4965 }, { 241,-4965 }, { 242,-4965 }, { 243,-4965 },
- { 244,-4965 }, { 245,-4965 }, { 246,-4965 }, { 247,-4965 }, { 248,-4965 },
- { 249,-4965 }, { 250,-4965 }, { 251,-4965 }, { 252,-4965 }, { 253,-4965 },
- { 254,-4965 }, { 255,-4965 }, { 256,-4965 }, {   0,   0 }, {   0,9040 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,2649 }, {  10,2649 },
- {   0,   0 }, {   0,   0 }, {  13,2649 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,2649 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,2649 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
-
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2649 },
- { 126,2649 }, {   0,  50 }, {   0,8912 }, {   1,-4518 }, {   2,-4518 },
- {   3,-4518 }, {   4,-4518 }, {   5,-4518 }, {   6,-4518 }, {   7,-4518 },
- {   8,-4518 }, {   9,-4518 }, {  10,-4518 }, {  11,-4518 }, {  12,-4518 },
- {  13,-4518 }, {  14,-4518 }, {  15,-4518 }, {  16,-4518 }, {  17,-4518 },
- {  18,-4518 }, {  19,-4518 }, {  20,-4518 }, {  21,-4518 }, {  22,-4518 },
-
- {  23,-4518 }, {  24,-4518 }, {  25,-4518 }, {  26,-4518 }, {  27,-4518 },
- {  28,-4518 }, {  29,-4518 }, {  30,-4518 }, {  31,-4518 }, {  32,-4518 },
- {  33,-4518 }, {  34,-4518 }, {  35,-4518 }, {  36,-4518 }, {  37,-4518 },
- {  38,-4518 }, {  39,-4518 }, {  40,-4518 }, {  41,-4518 }, {  42,-4518 },
- {  43,-4518 }, {  44,-4518 }, {  45,-4518 }, {  46,-4518 }, {  47,-4518 },
- {  48,-4518 }, {  49,-4518 }, {  50,-4518 }, {  51,-4518 }, {  52,-4518 },
- {  53,-4518 }, {  54,-4518 }, {  55,-4518 }, {  56,-4518 }, {  57,-4518 },
- {  58,-4518 }, {  59,-4518 }, {  60,-4518 }, {  61,-4518 }, {  62,-4518 },
- {  63,-4518 }, {  64,-4518 }, {  65,-4518 }, {  66,-4518 }, {  67,-4518 },
- {  68,-4518 }, {  69,-4518 }, {  70,-4518 }, {  71,-4518 }, {  72,-4518 },
-
- {  73,-4518 }, {  74,-4518 }, {  75,-4518 }, {  76,-4518 }, {  77,-4518 },
- {  78,-4518 }, {  79,-4518 }, {  80,-4518 }, {  81,-4518 }, {  82,-4518 },
- {  83,-4518 }, {  84,-4518 }, {  85,-4518 }, {  86,-4518 }, {  87,-4518 },
- {  88,-4518 }, {  89,-4518 }, {  90,-4518 }, {  91,-4518 }, {  92,-4260 },
- {  93,-5886 }, {  94,-4518 }, {  95,-4518 }, {  96,-4518 }, {  97,-4518 },
- {  98,-4518 }, {  99,-4518 }, { 100,-4518 }, { 101,-4518 }, { 102,-4518 },
- { 103,-4518 }, { 104,-4518 }, { 105,-4518 }, { 106,-4518 }, { 107,-4518 },
- { 108,-4518 }, { 109,-4518 }, { 110,-4518 }, { 111,-4518 }, { 112,-4518 },
- { 113,-4518 }, { 114,-4518 }, { 115,-4518 }, { 116,-4518 }, { 117,-4518 },
- { 118,-4518 }, { 119,-4518 }, { 120,-4518 }, { 121,-4518 }, { 122,-4518 },
-
- { 123,-4518 }, { 124,-4518 }, { 125,-4518 }, { 126,-4518 }, { 127,-4518 },
- { 128,-4518 }, { 129,-4518 }, { 130,-4518 }, { 131,-4518 }, { 132,-4518 },
- { 133,-4518 }, { 134,-4518 }, { 135,-4518 }, { 136,-4518 }, { 137,-4518 },
- { 138,-4518 }, { 139,-4518 }, { 140,-4518 }, { 141,-4518 }, { 142,-4518 },
- { 143,-4518 }, { 144,-4518 }, { 145,-4518 }, { 146,-4518 }, { 147,-4518 },
- { 148,-4518 }, { 149,-4518 }, { 150,-4518 }, { 151,-4518 }, { 152,-4518 },
- { 153,-4518 }, { 154,-4518 }, { 155,-4518 }, { 156,-4518 }, { 157,-4518 },
- { 158,-4518 }, { 159,-4518 }, { 160,-4518 }, { 161,-4518 }, { 162,-4518 },
- { 163,-4518 }, { 164,-4518 }, { 165,-4518 }, { 166,-4518 }, { 167,-4518 },
- { 168,-4518 }, { 169,-4518 }, { 170,-4518 }, { 171,-4518 }, { 172,-4518 },
-
- { 173,-4518 }, { 174,-4518 }, { 175,-4518 }, { 176,-4518 }, { 177,-4518 },
- { 178,-4518 }, { 179,-4518 }, { 180,-4518 }, { 181,-4518 }, { 182,-4518 },
- { 183,-4518 }, { 184,-4518 }, { 185,-4518 }, { 186,-4518 }, { 187,-4518 },
- { 188,-4518 }, { 189,-4518 }, { 190,-4518 }, { 191,-4518 }, { 192,-4518 },
- { 193,-4518 }, { 194,-4518 }, { 195,-4518 }, { 196,-4518 }, { 197,-4518 },
- { 198,-4518 }, { 199,-4518 }, { 200,-4518 }, { 201,-4518 }, { 202,-4518 },
- { 203,-4518 }, { 204,-4518 }, { 205,-4518 }, { 206,-4518 }, { 207,-4518 },
- { 208,-4518 }, { 209,-4518 }, { 210,-4518 }, { 211,-4518 }, { 212,-4518 },
- { 213,-4518 }, { 214,-4518 }, { 215,-4518 }, { 216,-4518 }, { 217,-4518 },
- { 218,-4518 }, { 219,-4518 }, { 220,-4518 }, { 221,-4518 }, { 222,-4518 },
-
- { 223,-4518 }, { 224,-4518 }, { 225,-4518 }, { 226,-4518 }, { 227,-4518 },
- { 228,-4518 }, { 229,-4518 }, { 230,-4518 }, { 231,-4518 }, { 232,-4518 },
- { 233,-4518 }, { 234,-4518 }, { 235,-4518 }, { 236,-4518 }, { 237,-4518 },
- { 238,-4518 }, { 239,-4518 }, { 240,-4518 }, { 241,-4518 }, { 242,-4518 },
- { 243,-4518 }, { 244,-4518 }, { 245,-4518 }, { 246,-4518 }, { 247,-4518 },
- { 248,-4518 }, { 249,-4518 }, { 250,-4518 }, { 251,-4518 }, { 252,-4518 },
- { 253,-4518 }, { 254,-4518 }, { 255,-4518 }, { 256,-4518 }, {   0,  49 },
- {   0,8654 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,2900 },
- {  10,2900 }, {   0,   0 }, {   0,   0 }, {  13,2900 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,  27 }, {   0,8626 }, {   0,   0 },
- {   0,  37 }, {   0,8623 }, {  32,2900 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,8596 }, {   0,   0 },
- {   0,8594 }, {   1,-6477 }, {   2,-6477 }, {   3,-6477 }, {   4,-6477 },
-
- {   5,-6477 }, {   6,-6477 }, {   7,-6477 }, {   8,-6477 }, {   9,-6502 },
- {  10,-6502 }, {  11,-6477 }, {  12,-6477 }, {  13,-6502 }, {  14,-6477 },
- {  15,-6477 }, {  16,-6477 }, {  17,-6477 }, {  18,-6477 }, {  19,-6477 },
- {  20,-6477 }, {  21,-6477 }, {  22,-6477 }, {  23,-6477 }, {  24,-6477 },
- {  25,-6477 }, {  26,-6477 }, {  27,-6477 }, {  28,-6477 }, {  29,-6477 },
- {  30,-6477 }, {  31,-6477 }, {  32,-6502 }, {   0,  38 }, {   0,8560 },
- {   0,   0 }, {  36,-6477 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-6502 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-6477 }, {  46,-6502 }, {  47,-6502 }, {  48,-6477 }, {  49,-6477 },
- {  50,-6477 }, {  51,-6477 }, {  52,-6477 }, {  53,-6477 }, {  54,-6477 },
-
- {  55,-6477 }, {  56,-6477 }, {  57,-6477 }, {  58,-6477 }, {   0,   0 },
- {   0,   0 }, {  61,-6502 }, {   0,   0 }, {  63,-6477 }, { 124,2265 },
- {  65,-6477 }, {  66,-6477 }, {  67,-6477 }, {  68,-6477 }, {  69,-6477 },
- {  70,-6477 }, {  71,-6477 }, {  72,-6477 }, {  73,-6477 }, {  74,-6477 },
- {  75,-6477 }, {  76,-6477 }, {  77,-6477 }, {  78,-6477 }, {  79,-6477 },
- {  80,-6477 }, {  81,-6477 }, {  82,-6477 }, {  83,-6477 }, {  84,-6477 },
- {  85,-6477 }, {  86,-6477 }, {  87,-6477 }, {  88,-6477 }, {  89,-6477 },
- {  90,-6477 }, { 123,2911 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-6477 }, { 125,2912 }, {  97,-6477 }, {  98,-6477 }, {  99,-6477 },
- { 100,-6477 }, { 101,-6477 }, { 102,-6477 }, { 103,-6477 }, { 104,-6477 },
-
- { 105,-6477 }, { 106,-6477 }, { 107,-6477 }, { 108,-6477 }, { 109,-6477 },
- { 110,-6477 }, { 111,-6477 }, { 112,-6477 }, { 113,-6477 }, { 114,-6477 },
- { 115,2900 }, { 116,-6477 }, { 117,-6477 }, { 118,-6477 }, { 119,-6477 },
- { 120,-6477 }, { 121,-6477 }, { 122,-6477 }, { 125,2887 }, { 124,-6502 },
- { 125,-6502 }, { 126,-6502 }, { 127,-6477 }, { 128,-6477 }, { 129,-6477 },
- { 130,-6477 }, { 131,-6477 }, { 132,-6477 }, { 133,-6477 }, { 134,-6477 },
- { 135,-6477 }, { 136,-6477 }, { 137,-6477 }, { 138,-6477 }, { 139,-6477 },
- { 140,-6477 }, { 141,-6477 }, { 142,-6477 }, { 143,-6477 }, { 144,-6477 },
- { 145,-6477 }, { 146,-6477 }, { 147,-6477 }, { 148,-6477 }, { 149,-6477 },
- { 150,-6477 }, { 151,-6477 }, { 152,-6477 }, { 153,-6477 }, { 154,-6477 },
-
- { 155,-6477 }, { 156,-6477 }, { 157,-6477 }, { 158,-6477 }, { 159,-6477 },
- { 160,-6477 }, { 161,-6477 }, { 162,-6477 }, { 163,-6477 }, { 164,-6477 },
- { 165,-6477 }, { 166,-6477 }, { 167,-6477 }, { 168,-6477 }, { 169,-6477 },
- { 170,-6477 }, { 171,-6477 }, { 172,-6477 }, { 173,-6477 }, { 174,-6477 },
- { 175,-6477 }, { 176,-6477 }, { 177,-6477 }, { 178,-6477 }, { 179,-6477 },
- { 180,-6477 }, { 181,-6477 }, { 182,-6477 }, { 183,-6477 }, { 184,-6477 },
- { 185,-6477 }, { 186,-6477 }, { 187,-6477 }, { 188,-6477 }, { 189,-6477 },
- { 190,-6477 }, { 191,-6477 }, { 192,-6477 }, { 193,-6477 }, { 194,-6477 },
- { 195,-6477 }, { 196,-6477 }, { 197,-6477 }, { 198,-6477 }, { 199,-6477 },
- { 200,-6477 }, { 201,-6477 }, { 202,-6477 }, { 203,-6477 }, { 204,-6477 },
-
- { 205,-6477 }, { 206,-6477 }, { 207,-6477 }, { 208,-6477 }, { 209,-6477 },
- { 210,-6477 }, { 211,-6477 }, { 212,-6477 }, { 213,-6477 }, { 214,-6477 },
- { 215,-6477 }, { 216,-6477 }, { 217,-6477 }, { 218,-6477 }, { 219,-6477 },
- { 220,-6477 }, { 221,-6477 }, { 222,-6477 }, { 223,-6477 }, { 224,-6477 },
- { 225,-6477 }, { 226,-6477 }, { 227,-6477 }, { 228,-6477 }, { 229,-6477 },
- { 230,-6477 }, { 231,-6477 }, { 232,-6477 }, { 233,-6477 }, { 234,-6477 },
- { 235,-6477 }, { 236,-6477 }, { 237,-6477 }, { 238,-6477 }, { 239,-6477 },
- { 240,-6477 }, { 241,-6477 }, { 242,-6477 }, { 243,-6477 }, { 244,-6477 },
- { 245,-6477 }, { 246,-6477 }, { 247,-6477 }, { 248,-6477 }, { 249,-6477 },
- { 250,-6477 }, { 251,-6477 }, { 252,-6477 }, { 253,-6477 }, { 254,-6477 },
-
- { 255,-6477 }, { 256,-6477 }, {   0,   0 }, {   0,8336 }, {   1,-6735 },
- {   2,-6735 }, {   3,-6735 }, {   4,-6735 }, {   5,-6735 }, {   6,-6735 },
- {   7,-6735 }, {   8,-6735 }, {   9,-6760 }, {  10,-6760 }, {  11,-6735 },
- {  12,-6735 }, {  13,-6760 }, {  14,-6735 }, {  15,-6735 }, {  16,-6735 },
- {  17,-6735 }, {  18,-6735 }, {  19,-6735 }, {  20,-6735 }, {  21,-6735 },
- {  22,-6735 }, {  23,-6735 }, {  24,-6735 }, {  25,-6735 }, {  26,-6735 },
- {  27,-6735 }, {  28,-6735 }, {  29,-6735 }, {  30,-6735 }, {  31,-6735 },
- {  32,-6760 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6735 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6760 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6735 }, {  46,-6760 },
-
- {  47,-6760 }, {  48,-6735 }, {  49,-6735 }, {  50,-6735 }, {  51,-6735 },
- {  52,-6735 }, {  53,-6735 }, {  54,-6735 }, {  55,-6735 }, {  56,-6735 },
- {  57,-6735 }, {  58,-6735 }, {   0,   0 }, {   0,   0 }, {  61,-6760 },
- {   0,   0 }, {  63,-6735 }, {   0,   0 }, {  65,-6735 }, {  66,-6735 },
- {  67,-6735 }, {  68,-6735 }, {  69,-6735 }, {  70,-6735 }, {  71,-6735 },
- {  72,-6735 }, {  73,-6735 }, {  74,-6735 }, {  75,-6735 }, {  76,-6735 },
- {  77,-6735 }, {  78,-6735 }, {  79,-6735 }, {  80,-6735 }, {  81,-6735 },
- {  82,-6735 }, {  83,-6735 }, {  84,-6735 }, {  85,-6735 }, {  86,-6735 },
- {  87,-6735 }, {  88,-6735 }, {  89,-6735 }, {  90,-6735 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6735 }, {   0,   0 },
-
- {  97,-6735 }, {  98,-6735 }, {  99,-6735 }, { 100,-6735 }, { 101,-6735 },
- { 102,-6735 }, { 103,-6735 }, { 104,-6735 }, { 105,-6735 }, { 106,-6735 },
- { 107,-6735 }, { 108,2900 }, { 109,-6735 }, { 110,-6735 }, { 111,-6735 },
- { 112,-6735 }, { 113,-6735 }, { 114,-6735 }, { 115,-6735 }, { 116,-6735 },
- { 117,-6735 }, { 118,-6735 }, { 119,-6735 }, { 120,-6735 }, { 121,-6735 },
- { 122,-6735 }, {   0,   0 }, { 124,-6760 }, { 125,-6760 }, { 126,-6760 },
- { 127,-6735 }, { 128,-6735 }, { 129,-6735 }, { 130,-6735 }, { 131,-6735 },
- { 132,-6735 }, { 133,-6735 }, { 134,-6735 }, { 135,-6735 }, { 136,-6735 },
- { 137,-6735 }, { 138,-6735 }, { 139,-6735 }, { 140,-6735 }, { 141,-6735 },
- { 142,-6735 }, { 143,-6735 }, { 144,-6735 }, { 145,-6735 }, { 146,-6735 },
-
- { 147,-6735 }, { 148,-6735 }, { 149,-6735 }, { 150,-6735 }, { 151,-6735 },
- { 152,-6735 }, { 153,-6735 }, { 154,-6735 }, { 155,-6735 }, { 156,-6735 },
- { 157,-6735 }, { 158,-6735 }, { 159,-6735 }, { 160,-6735 }, { 161,-6735 },
- { 162,-6735 }, { 163,-6735 }, { 164,-6735 }, { 165,-6735 }, { 166,-6735 },
- { 167,-6735 }, { 168,-6735 }, { 169,-6735 }, { 170,-6735 }, { 171,-6735 },
- { 172,-6735 }, { 173,-6735 }, { 174,-6735 }, { 175,-6735 }, { 176,-6735 },
- { 177,-6735 }, { 178,-6735 }, { 179,-6735 }, { 180,-6735 }, { 181,-6735 },
- { 182,-6735 }, { 183,-6735 }, { 184,-6735 }, { 185,-6735 }, { 186,-6735 },
- { 187,-6735 }, { 188,-6735 }, { 189,-6735 }, { 190,-6735 }, { 191,-6735 },
- { 192,-6735 }, { 193,-6735 }, { 194,-6735 }, { 195,-6735 }, { 196,-6735 },
-
- { 197,-6735 }, { 198,-6735 }, { 199,-6735 }, { 200,-6735 }, { 201,-6735 },
- { 202,-6735 }, { 203,-6735 }, { 204,-6735 }, { 205,-6735 }, { 206,-6735 },
- { 207,-6735 }, { 208,-6735 }, { 209,-6735 }, { 210,-6735 }, { 211,-6735 },
- { 212,-6735 }, { 213,-6735 }, { 214,-6735 }, { 215,-6735 }, { 216,-6735 },
- { 217,-6735 }, { 218,-6735 }, { 219,-6735 }, { 220,-6735 }, { 221,-6735 },
- { 222,-6735 }, { 223,-6735 }, { 224,-6735 }, { 225,-6735 }, { 226,-6735 },
- { 227,-6735 }, { 228,-6735 }, { 229,-6735 }, { 230,-6735 }, { 231,-6735 },
- { 232,-6735 }, { 233,-6735 }, { 234,-6735 }, { 235,-6735 }, { 236,-6735 },
- { 237,-6735 }, { 238,-6735 }, { 239,-6735 }, { 240,-6735 }, { 241,-6735 },
- { 242,-6735 }, { 243,-6735 }, { 244,-6735 }, { 245,-6735 }, { 246,-6735 },
-
- { 247,-6735 }, { 248,-6735 }, { 249,-6735 }, { 250,-6735 }, { 251,-6735 },
- { 252,-6735 }, { 253,-6735 }, { 254,-6735 }, { 255,-6735 }, { 256,-6735 },
- {   0,   0 }, {   0,8078 }, {   1,-6993 }, {   2,-6993 }, {   3,-6993 },
- {   4,-6993 }, {   5,-6993 }, {   6,-6993 }, {   7,-6993 }, {   8,-6993 },
- {   9,-7018 }, {  10,-7018 }, {  11,-6993 }, {  12,-6993 }, {  13,-7018 },
- {  14,-6993 }, {  15,-6993 }, {  16,-6993 }, {  17,-6993 }, {  18,-6993 },
- {  19,-6993 }, {  20,-6993 }, {  21,-6993 }, {  22,-6993 }, {  23,-6993 },
- {  24,-6993 }, {  25,-6993 }, {  26,-6993 }, {  27,-6993 }, {  28,-6993 },
- {  29,-6993 }, {  30,-6993 }, {  31,-6993 }, {  32,-7018 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-6993 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  41,-7018 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-6993 }, {  46,-7018 }, {  47,-7018 }, {  48,-6993 },
- {  49,-6993 }, {  50,-6993 }, {  51,-6993 }, {  52,-6993 }, {  53,-6993 },
- {  54,-6993 }, {  55,-6993 }, {  56,-6993 }, {  57,-6993 }, {  58,-6993 },
- {   0,   0 }, {   0,   0 }, {  61,-7018 }, {   0,   0 }, {  63,-6993 },
- {   0,   0 }, {  65,-6993 }, {  66,-6993 }, {  67,-6993 }, {  68,-6993 },
- {  69,-6993 }, {  70,-6993 }, {  71,-6993 }, {  72,-6993 }, {  73,-6993 },
- {  74,-6993 }, {  75,-6993 }, {  76,-6993 }, {  77,-6993 }, {  78,-6993 },
- {  79,-6993 }, {  80,-6993 }, {  81,-6993 }, {  82,-6993 }, {  83,-6993 },
- {  84,-6993 }, {  85,-6993 }, {  86,-6993 }, {  87,-6993 }, {  88,-6993 },
-
- {  89,-6993 }, {  90,-6993 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-6993 }, {   0,   0 }, {  97,-6993 }, {  98,-6993 },
- {  99,-6993 }, { 100,-6993 }, { 101,2900 }, { 102,-6993 }, { 103,-6993 },
- { 104,-6993 }, { 105,-6993 }, { 106,-6993 }, { 107,-6993 }, { 108,-6993 },
- { 109,-6993 }, { 110,-6993 }, { 111,-6993 }, { 112,-6993 }, { 113,-6993 },
- { 114,-6993 }, { 115,-6993 }, { 116,-6993 }, { 117,-6993 }, { 118,-6993 },
- { 119,-6993 }, { 120,-6993 }, { 121,-6993 }, { 122,-6993 }, {   0,   0 },
- { 124,-7018 }, { 125,-7018 }, { 126,-7018 }, { 127,-6993 }, { 128,-6993 },
- { 129,-6993 }, { 130,-6993 }, { 131,-6993 }, { 132,-6993 }, { 133,-6993 },
- { 134,-6993 }, { 135,-6993 }, { 136,-6993 }, { 137,-6993 }, { 138,-6993 },
-
- { 139,-6993 }, { 140,-6993 }, { 141,-6993 }, { 142,-6993 }, { 143,-6993 },
- { 144,-6993 }, { 145,-6993 }, { 146,-6993 }, { 147,-6993 }, { 148,-6993 },
- { 149,-6993 }, { 150,-6993 }, { 151,-6993 }, { 152,-6993 }, { 153,-6993 },
- { 154,-6993 }, { 155,-6993 }, { 156,-6993 }, { 157,-6993 }, { 158,-6993 },
- { 159,-6993 }, { 160,-6993 }, { 161,-6993 }, { 162,-6993 }, { 163,-6993 },
- { 164,-6993 }, { 165,-6993 }, { 166,-6993 }, { 167,-6993 }, { 168,-6993 },
- { 169,-6993 }, { 170,-6993 }, { 171,-6993 }, { 172,-6993 }, { 173,-6993 },
- { 174,-6993 }, { 175,-6993 }, { 176,-6993 }, { 177,-6993 }, { 178,-6993 },
- { 179,-6993 }, { 180,-6993 }, { 181,-6993 }, { 182,-6993 }, { 183,-6993 },
- { 184,-6993 }, { 185,-6993 }, { 186,-6993 }, { 187,-6993 }, { 188,-6993 },
-
- { 189,-6993 }, { 190,-6993 }, { 191,-6993 }, { 192,-6993 }, { 193,-6993 },
- { 194,-6993 }, { 195,-6993 }, { 196,-6993 }, { 197,-6993 }, { 198,-6993 },
- { 199,-6993 }, { 200,-6993 }, { 201,-6993 }, { 202,-6993 }, { 203,-6993 },
- { 204,-6993 }, { 205,-6993 }, { 206,-6993 }, { 207,-6993 }, { 208,-6993 },
- { 209,-6993 }, { 210,-6993 }, { 211,-6993 }, { 212,-6993 }, { 213,-6993 },
- { 214,-6993 }, { 215,-6993 }, { 216,-6993 }, { 217,-6993 }, { 218,-6993 },
- { 219,-6993 }, { 220,-6993 }, { 221,-6993 }, { 222,-6993 }, { 223,-6993 },
- { 224,-6993 }, { 225,-6993 }, { 226,-6993 }, { 227,-6993 }, { 228,-6993 },
- { 229,-6993 }, { 230,-6993 }, { 231,-6993 }, { 232,-6993 }, { 233,-6993 },
- { 234,-6993 }, { 235,-6993 }, { 236,-6993 }, { 237,-6993 }, { 238,-6993 },
-
- { 239,-6993 }, { 240,-6993 }, { 241,-6993 }, { 242,-6993 }, { 243,-6993 },
- { 244,-6993 }, { 245,-6993 }, { 246,-6993 }, { 247,-6993 }, { 248,-6993 },
- { 249,-6993 }, { 250,-6993 }, { 251,-6993 }, { 252,-6993 }, { 253,-6993 },
- { 254,-6993 }, { 255,-6993 }, { 256,-6993 }, {   0,   0 }, {   0,7820 },
- {   1,-7251 }, {   2,-7251 }, {   3,-7251 }, {   4,-7251 }, {   5,-7251 },
- {   6,-7251 }, {   7,-7251 }, {   8,-7251 }, {   9,-7276 }, {  10,-7276 },
- {  11,-7251 }, {  12,-7251 }, {  13,-7276 }, {  14,-7251 }, {  15,-7251 },
- {  16,-7251 }, {  17,-7251 }, {  18,-7251 }, {  19,-7251 }, {  20,-7251 },
- {  21,-7251 }, {  22,-7251 }, {  23,-7251 }, {  24,-7251 }, {  25,-7251 },
- {  26,-7251 }, {  27,-7251 }, {  28,-7251 }, {  29,-7251 }, {  30,-7251 },
-
- {  31,-7251 }, {  32,-7276 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-7251 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-7276 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7251 },
- {  46,-7276 }, {  47,-7276 }, {  48,-7251 }, {  49,-7251 }, {  50,-7251 },
- {  51,-7251 }, {  52,-7251 }, {  53,-7251 }, {  54,-7251 }, {  55,-7251 },
- {  56,-7251 }, {  57,-7251 }, {  58,-7251 }, {   0,   0 }, {   0,   0 },
- {  61,-7276 }, {   0,   0 }, {  63,-7251 }, {   0,   0 }, {  65,-7251 },
- {  66,-7251 }, {  67,-7251 }, {  68,-7251 }, {  69,-7251 }, {  70,-7251 },
- {  71,-7251 }, {  72,-7251 }, {  73,-7251 }, {  74,-7251 }, {  75,-7251 },
- {  76,-7251 }, {  77,-7251 }, {  78,-7251 }, {  79,-7251 }, {  80,-7251 },
-
- {  81,-7251 }, {  82,-7251 }, {  83,-7251 }, {  84,-7251 }, {  85,-7251 },
- {  86,-7251 }, {  87,-7251 }, {  88,-7251 }, {  89,-7251 }, {  90,-7251 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7251 },
- {   0,   0 }, {  97,-7251 }, {  98,-7251 }, {  99,-7251 }, { 100,-7251 },
- { 101,2900 }, { 102,-7251 }, { 103,-7251 }, { 104,-7251 }, { 105,-7251 },
- { 106,-7251 }, { 107,-7251 }, { 108,-7251 }, { 109,-7251 }, { 110,-7251 },
- { 111,-7251 }, { 112,-7251 }, { 113,-7251 }, { 114,-7251 }, { 115,-7251 },
- { 116,-7251 }, { 117,-7251 }, { 118,-7251 }, { 119,-7251 }, { 120,-7251 },
- { 121,-7251 }, { 122,-7251 }, {   0,   0 }, { 124,-7276 }, { 125,-7276 },
- { 126,-7276 }, { 127,-7251 }, { 128,-7251 }, { 129,-7251 }, { 130,-7251 },
-
- { 131,-7251 }, { 132,-7251 }, { 133,-7251 }, { 134,-7251 }, { 135,-7251 },
- { 136,-7251 }, { 137,-7251 }, { 138,-7251 }, { 139,-7251 }, { 140,-7251 },
- { 141,-7251 }, { 142,-7251 }, { 143,-7251 }, { 144,-7251 }, { 145,-7251 },
- { 146,-7251 }, { 147,-7251 }, { 148,-7251 }, { 149,-7251 }, { 150,-7251 },
- { 151,-7251 }, { 152,-7251 }, { 153,-7251 }, { 154,-7251 }, { 155,-7251 },
- { 156,-7251 }, { 157,-7251 }, { 158,-7251 }, { 159,-7251 }, { 160,-7251 },
- { 161,-7251 }, { 162,-7251 }, { 163,-7251 }, { 164,-7251 }, { 165,-7251 },
- { 166,-7251 }, { 167,-7251 }, { 168,-7251 }, { 169,-7251 }, { 170,-7251 },
- { 171,-7251 }, { 172,-7251 }, { 173,-7251 }, { 174,-7251 }, { 175,-7251 },
- { 176,-7251 }, { 177,-7251 }, { 178,-7251 }, { 179,-7251 }, { 180,-7251 },
-
- { 181,-7251 }, { 182,-7251 }, { 183,-7251 }, { 184,-7251 }, { 185,-7251 },
- { 186,-7251 }, { 187,-7251 }, { 188,-7251 }, { 189,-7251 }, { 190,-7251 },
- { 191,-7251 }, { 192,-7251 }, { 193,-7251 }, { 194,-7251 }, { 195,-7251 },
- { 196,-7251 }, { 197,-7251 }, { 198,-7251 }, { 199,-7251 }, { 200,-7251 },
- { 201,-7251 }, { 202,-7251 }, { 203,-7251 }, { 204,-7251 }, { 205,-7251 },
- { 206,-7251 }, { 207,-7251 }, { 208,-7251 }, { 209,-7251 }, { 210,-7251 },
- { 211,-7251 }, { 212,-7251 }, { 213,-7251 }, { 214,-7251 }, { 215,-7251 },
- { 216,-7251 }, { 217,-7251 }, { 218,-7251 }, { 219,-7251 }, { 220,-7251 },
- { 221,-7251 }, { 222,-7251 }, { 223,-7251 }, { 224,-7251 }, { 225,-7251 },
- { 226,-7251 }, { 227,-7251 }, { 228,-7251 }, { 229,-7251 }, { 230,-7251 },
-
- { 231,-7251 }, { 232,-7251 }, { 233,-7251 }, { 234,-7251 }, { 235,-7251 },
- { 236,-7251 }, { 237,-7251 }, { 238,-7251 }, { 239,-7251 }, { 240,-7251 },
- { 241,-7251 }, { 242,-7251 }, { 243,-7251 }, { 244,-7251 }, { 245,-7251 },
- { 246,-7251 }, { 247,-7251 }, { 248,-7251 }, { 249,-7251 }, { 250,-7251 },
- { 251,-7251 }, { 252,-7251 }, { 253,-7251 }, { 254,-7251 }, { 255,-7251 },
- { 256,-7251 }, {   0,   0 }, {   0,7562 }, {   0,  25 }, {   0,7560 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,7556 }, {   0,  31 },
- {   0,7554 }, {   9,   0 }, {  10,   0 }, {   9,2898 }, {  10,2898 },
- {  13,   0 }, {   0,   0 }, {  13,2898 }, {   0,   0 }, {   9,  -8 },
- {  10,  -8 }, {   0,   0 }, {   0,   0 }, {  13,  -8 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {  32,2898 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,  -8 }, {  33,-2381 }, {   0,   0 },
- {  35,-2379 }, {   0,   0 }, {   0,   0 }, {  38,-2377 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  42,-2375 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  47,-2373 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,-2371 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,-2268 }, {  94,  -6 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,-2276 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1257 },
- { 126,1832 }, { 123,3796 }, {   0,   0 }, { 123,1841 }, {   0,   0 },
- {   0,7429 }, {   1,2895 }, {   2,2895 }, {   3,2895 }, {   4,2895 },
- {   5,2895 }, {   6,2895 }, {   7,2895 }, {   8,2895 }, {   9,2895 },
- {  10,2895 }, {  11,2895 }, {  12,2895 }, {  13,2895 }, {  14,2895 },
- {  15,2895 }, {  16,2895 }, {  17,2895 }, {  18,2895 }, {  19,2895 },
- {  20,2895 }, {  21,2895 }, {  22,2895 }, {  23,2895 }, {  24,2895 },
- {  25,2895 }, {  26,2895 }, {  27,2895 }, {  28,2895 }, {  29,2895 },
- {  30,2895 }, {  31,2895 }, {  32,2895 }, {  33,2895 }, {  34,2895 },
- {  35,2895 }, {  36,2895 }, {  37,2895 }, {  38,2895 }, {  39,2895 },
-
- {  40,2895 }, {  41,2895 }, {  42,2895 }, {  43,2895 }, {  44,2895 },
- {  45,3153 }, {  46,2895 }, {  47,2895 }, {  48,2895 }, {  49,2895 },
- {  50,2895 }, {  51,2895 }, {  52,2895 }, {  53,2895 }, {  54,2895 },
- {  55,2895 }, {  56,2895 }, {  57,2895 }, {  58,2895 }, {  59,2895 },
- {  60,2895 }, {  61,2895 }, {  62,2895 }, {  63,2895 }, {  64,2895 },
- {  65,2895 }, {  66,2895 }, {  67,2895 }, {  68,2895 }, {  69,2895 },
- {  70,2895 }, {  71,2895 }, {  72,2895 }, {  73,2895 }, {  74,2895 },
- {  75,2895 }, {  76,2895 }, {  77,2895 }, {  78,2895 }, {  79,2895 },
- {  80,2895 }, {  81,2895 }, {  82,2895 }, {  83,2895 }, {  84,2895 },
- {  85,2895 }, {  86,2895 }, {  87,2895 }, {  88,2895 }, {  89,2895 },
-
- {  90,2895 }, {  91,2895 }, {  92,2895 }, {  93,2895 }, {  94,2895 },
- {  95,2895 }, {  96,2895 }, {  97,2895 }, {  98,2895 }, {  99,2895 },
- { 100,2895 }, { 101,2895 }, { 102,2895 }, { 103,2895 }, { 104,2895 },
- { 105,2895 }, { 106,2895 }, { 107,2895 }, { 108,2895 }, { 109,2895 },
- { 110,2895 }, { 111,2895 }, { 112,2895 }, { 113,2895 }, { 114,2895 },
- { 115,2895 }, { 116,2895 }, { 117,2895 }, { 118,2895 }, { 119,2895 },
- { 120,2895 }, { 121,2895 }, { 122,2895 }, { 123,2895 }, { 124,2895 },
- { 125,2895 }, { 126,2895 }, { 127,2895 }, { 128,2895 }, { 129,2895 },
- { 130,2895 }, { 131,2895 }, { 132,2895 }, { 133,2895 }, { 134,2895 },
- { 135,2895 }, { 136,2895 }, { 137,2895 }, { 138,2895 }, { 139,2895 },
-
- { 140,2895 }, { 141,2895 }, { 142,2895 }, { 143,2895 }, { 144,2895 },
- { 145,2895 }, { 146,2895 }, { 147,2895 }, { 148,2895 }, { 149,2895 },
- { 150,2895 }, { 151,2895 }, { 152,2895 }, { 153,2895 }, { 154,2895 },
- { 155,2895 }, { 156,2895 }, { 157,2895 }, { 158,2895 }, { 159,2895 },
- { 160,2895 }, { 161,2895 }, { 162,2895 }, { 163,2895 }, { 164,2895 },
- { 165,2895 }, { 166,2895 }, { 167,2895 }, { 168,2895 }, { 169,2895 },
- { 170,2895 }, { 171,2895 }, { 172,2895 }, { 173,2895 }, { 174,2895 },
- { 175,2895 }, { 176,2895 }, { 177,2895 }, { 178,2895 }, { 179,2895 },
- { 180,2895 }, { 181,2895 }, { 182,2895 }, { 183,2895 }, { 184,2895 },
- { 185,2895 }, { 186,2895 }, { 187,2895 }, { 188,2895 }, { 189,2895 },
-
- { 190,2895 }, { 191,2895 }, { 192,2895 }, { 193,2895 }, { 194,2895 },
- { 195,2895 }, { 196,2895 }, { 197,2895 }, { 198,2895 }, { 199,2895 },
- { 200,2895 }, { 201,2895 }, { 202,2895 }, { 203,2895 }, { 204,2895 },
- { 205,2895 }, { 206,2895 }, { 207,2895 }, { 208,2895 }, { 209,2895 },
- { 210,2895 }, { 211,2895 }, { 212,2895 }, { 213,2895 }, { 214,2895 },
- { 215,2895 }, { 216,2895 }, { 217,2895 }, { 218,2895 }, { 219,2895 },
- { 220,2895 }, { 221,2895 }, { 222,2895 }, { 223,2895 }, { 224,2895 },
- { 225,2895 }, { 226,2895 }, { 227,2895 }, { 228,2895 }, { 229,2895 },
- { 230,2895 }, { 231,2895 }, { 232,2895 }, { 233,2895 }, { 234,2895 },
- { 235,2895 }, { 236,2895 }, { 237,2895 }, { 238,2895 }, { 239,2895 },
-
- { 240,2895 }, { 241,2895 }, { 242,2895 }, { 243,2895 }, { 244,2895 },
- { 245,2895 }, { 246,2895 }, { 247,2895 }, { 248,2895 }, { 249,2895 },
- { 250,2895 }, { 251,2895 }, { 252,2895 }, { 253,2895 }, { 254,2895 },
- { 255,2895 }, { 256,2895 }, {   0,   0 }, {   0,7171 }, {   1,-258 },
- {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
- {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
- {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
- {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
- {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
- {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
-
- {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 },
- {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
- {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,   0 }, {  46,-258 },
- {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
- {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
- {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
- {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
- {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
- {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
- {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
-
- {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
- {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
- {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
- {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
- { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
- { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
- { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
- { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
- { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125, 258 }, { 126, 516 },
- { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
-
- { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
- { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
- { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
- { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
- { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
- { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
- { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
- { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
- { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
- { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
-
- { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
- { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
- { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
- { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
- { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
- { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
- { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
- { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
- { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
- { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
-
- { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
- { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
- { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
- { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
- { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,6913 }, {   1,-516 }, {   2,-516 }, {   3,-516 },
- {   4,-516 }, {   5,-516 }, {   6,-516 }, {   7,-516 }, {   8,-516 },
- {   9,-516 }, {  10,-516 }, {  11,-516 }, {  12,-516 }, {  13,-516 },
- {  14,-516 }, {  15,-516 }, {  16,-516 }, {  17,-516 }, {  18,-516 },
- {  19,-516 }, {  20,-516 }, {  21,-516 }, {  22,-516 }, {  23,-516 },
-
- {  24,-516 }, {  25,-516 }, {  26,-516 }, {  27,-516 }, {  28,-516 },
- {  29,-516 }, {  30,-516 }, {  31,-516 }, {  32,-516 }, {  33,-516 },
- {  34,-516 }, {  35,-516 }, {  36,-516 }, {  37,-516 }, {  38,-516 },
- {  39,-516 }, {  40,-516 }, {  41,-516 }, {  42,-516 }, {  43,-516 },
- {  44,-516 }, {  45,2895 }, {  46,-516 }, {  47,-516 }, {  48,-516 },
- {  49,-516 }, {  50,-516 }, {  51,-516 }, {  52,-516 }, {  53,-516 },
- {  54,-516 }, {  55,-516 }, {  56,-516 }, {  57,-516 }, {  58,-516 },
- {  59,-516 }, {  60,-516 }, {  61,-516 }, {  62,-516 }, {  63,-516 },
- {  64,-516 }, {  65,-516 }, {  66,-516 }, {  67,-516 }, {  68,-516 },
- {  69,-516 }, {  70,-516 }, {  71,-516 }, {  72,-516 }, {  73,-516 },
-
- {  74,-516 }, {  75,-516 }, {  76,-516 }, {  77,-516 }, {  78,-516 },
- {  79,-516 }, {  80,-516 }, {  81,-516 }, {  82,-516 }, {  83,-516 },
- {  84,-516 }, {  85,-516 }, {  86,-516 }, {  87,-516 }, {  88,-516 },
- {  89,-516 }, {  90,-516 }, {  91,-516 }, {  92,-516 }, {  93,-516 },
- {  94,-516 }, {  95,-516 }, {  96,-516 }, {  97,-516 }, {  98,-516 },
- {  99,-516 }, { 100,-516 }, { 101,-516 }, { 102,-516 }, { 103,-516 },
- { 104,-516 }, { 105,-516 }, { 106,-516 }, { 107,-516 }, { 108,-516 },
- { 109,-516 }, { 110,-516 }, { 111,-516 }, { 112,-516 }, { 113,-516 },
- { 114,-516 }, { 115,-516 }, { 116,-516 }, { 117,-516 }, { 118,-516 },
- { 119,-516 }, { 120,-516 }, { 121,-516 }, { 122,-516 }, { 123,-516 },
-
- { 124,-516 }, { 125,1206 }, { 126,-516 }, { 127,-516 }, { 128,-516 },
- { 129,-516 }, { 130,-516 }, { 131,-516 }, { 132,-516 }, { 133,-516 },
- { 134,-516 }, { 135,-516 }, { 136,-516 }, { 137,-516 }, { 138,-516 },
- { 139,-516 }, { 140,-516 }, { 141,-516 }, { 142,-516 }, { 143,-516 },
- { 144,-516 }, { 145,-516 }, { 146,-516 }, { 147,-516 }, { 148,-516 },
- { 149,-516 }, { 150,-516 }, { 151,-516 }, { 152,-516 }, { 153,-516 },
- { 154,-516 }, { 155,-516 }, { 156,-516 }, { 157,-516 }, { 158,-516 },
- { 159,-516 }, { 160,-516 }, { 161,-516 }, { 162,-516 }, { 163,-516 },
- { 164,-516 }, { 165,-516 }, { 166,-516 }, { 167,-516 }, { 168,-516 },
- { 169,-516 }, { 170,-516 }, { 171,-516 }, { 172,-516 }, { 173,-516 },
-
- { 174,-516 }, { 175,-516 }, { 176,-516 }, { 177,-516 }, { 178,-516 },
- { 179,-516 }, { 180,-516 }, { 181,-516 }, { 182,-516 }, { 183,-516 },
- { 184,-516 }, { 185,-516 }, { 186,-516 }, { 187,-516 }, { 188,-516 },
- { 189,-516 }, { 190,-516 }, { 191,-516 }, { 192,-516 }, { 193,-516 },
- { 194,-516 }, { 195,-516 }, { 196,-516 }, { 197,-516 }, { 198,-516 },
- { 199,-516 }, { 200,-516 }, { 201,-516 }, { 202,-516 }, { 203,-516 },
- { 204,-516 }, { 205,-516 }, { 206,-516 }, { 207,-516 }, { 208,-516 },
- { 209,-516 }, { 210,-516 }, { 211,-516 }, { 212,-516 }, { 213,-516 },
- { 214,-516 }, { 215,-516 }, { 216,-516 }, { 217,-516 }, { 218,-516 },
- { 219,-516 }, { 220,-516 }, { 221,-516 }, { 222,-516 }, { 223,-516 },
-
- { 224,-516 }, { 225,-516 }, { 226,-516 }, { 227,-516 }, { 228,-516 },
- { 229,-516 }, { 230,-516 }, { 231,-516 }, { 232,-516 }, { 233,-516 },
- { 234,-516 }, { 235,-516 }, { 236,-516 }, { 237,-516 }, { 238,-516 },
- { 239,-516 }, { 240,-516 }, { 241,-516 }, { 242,-516 }, { 243,-516 },
- { 244,-516 }, { 245,-516 }, { 246,-516 }, { 247,-516 }, { 248,-516 },
- { 249,-516 }, { 250,-516 }, { 251,-516 }, { 252,-516 }, { 253,-516 },
- { 254,-516 }, { 255,-516 }, { 256,-516 }, {   0,   0 }, {   0,6655 },
- {   1,-774 }, {   2,-774 }, {   3,-774 }, {   4,-774 }, {   5,-774 },
- {   6,-774 }, {   7,-774 }, {   8,-774 }, {   9,-774 }, {  10,-774 },
- {  11,-774 }, {  12,-774 }, {  13,-774 }, {  14,-774 }, {  15,-774 },
-
- {  16,-774 }, {  17,-774 }, {  18,-774 }, {  19,-774 }, {  20,-774 },
- {  21,-774 }, {  22,-774 }, {  23,-774 }, {  24,-774 }, {  25,-774 },
- {  26,-774 }, {  27,-774 }, {  28,-774 }, {  29,-774 }, {  30,-774 },
- {  31,-774 }, {  32,-774 }, {  33,-774 }, {  34,-774 }, {  35,-774 },
- {  36,-774 }, {  37,-774 }, {  38,-774 }, {  39,-774 }, {  40,-774 },
- {  41,-774 }, {  42,-774 }, {  43,-774 }, {  44,-774 }, {  45,2637 },
- {  46,-774 }, {  47,-774 }, {  48,-774 }, {  49,-774 }, {  50,-774 },
- {  51,-774 }, {  52,-774 }, {  53,-774 }, {  54,-774 }, {  55,-774 },
- {  56,-774 }, {  57,-774 }, {  58,-774 }, {  59,-774 }, {  60,-774 },
- {  61,-774 }, {  62,-774 }, {  63,-774 }, {  64,-774 }, {  65,-774 },
-
- {  66,-774 }, {  67,-774 }, {  68,-774 }, {  69,-774 }, {  70,-774 },
- {  71,-774 }, {  72,-774 }, {  73,-774 }, {  74,-774 }, {  75,-774 },
- {  76,-774 }, {  77,-774 }, {  78,-774 }, {  79,-774 }, {  80,-774 },
- {  81,-774 }, {  82,-774 }, {  83,-774 }, {  84,-774 }, {  85,-774 },
- {  86,-774 }, {  87,-774 }, {  88,-774 }, {  89,-774 }, {  90,-774 },
- {  91,-774 }, {  92,-774 }, {  93,-774 }, {  94,-774 }, {  95,-774 },
- {  96,-774 }, {  97,-774 }, {  98,-774 }, {  99,-774 }, { 100,-774 },
- { 101,-774 }, { 102,-774 }, { 103,-774 }, { 104,-774 }, { 105,-774 },
- { 106,-774 }, { 107,-774 }, { 108,-774 }, { 109,-774 }, { 110,-774 },
- { 111,-774 }, { 112,-774 }, { 113,-774 }, { 114,-774 }, { 115,-774 },
-
- { 116,-774 }, { 117,-774 }, { 118,-774 }, { 119,-774 }, { 120,-774 },
- { 121,-774 }, { 122,-774 }, { 123,-774 }, { 124,-774 }, { 125,-258 },
- { 126,-774 }, { 127,-774 }, { 128,-774 }, { 129,-774 }, { 130,-774 },
- { 131,-774 }, { 132,-774 }, { 133,-774 }, { 134,-774 }, { 135,-774 },
- { 136,-774 }, { 137,-774 }, { 138,-774 }, { 139,-774 }, { 140,-774 },
- { 141,-774 }, { 142,-774 }, { 143,-774 }, { 144,-774 }, { 145,-774 },
- { 146,-774 }, { 147,-774 }, { 148,-774 }, { 149,-774 }, { 150,-774 },
- { 151,-774 }, { 152,-774 }, { 153,-774 }, { 154,-774 }, { 155,-774 },
- { 156,-774 }, { 157,-774 }, { 158,-774 }, { 159,-774 }, { 160,-774 },
- { 161,-774 }, { 162,-774 }, { 163,-774 }, { 164,-774 }, { 165,-774 },
-
- { 166,-774 }, { 167,-774 }, { 168,-774 }, { 169,-774 }, { 170,-774 },
- { 171,-774 }, { 172,-774 }, { 173,-774 }, { 174,-774 }, { 175,-774 },
- { 176,-774 }, { 177,-774 }, { 178,-774 }, { 179,-774 }, { 180,-774 },
- { 181,-774 }, { 182,-774 }, { 183,-774 }, { 184,-774 }, { 185,-774 },
- { 186,-774 }, { 187,-774 }, { 188,-774 }, { 189,-774 }, { 190,-774 },
- { 191,-774 }, { 192,-774 }, { 193,-774 }, { 194,-774 }, { 195,-774 },
- { 196,-774 }, { 197,-774 }, { 198,-774 }, { 199,-774 }, { 200,-774 },
- { 201,-774 }, { 202,-774 }, { 203,-774 }, { 204,-774 }, { 205,-774 },
- { 206,-774 }, { 207,-774 }, { 208,-774 }, { 209,-774 }, { 210,-774 },
- { 211,-774 }, { 212,-774 }, { 213,-774 }, { 214,-774 }, { 215,-774 },
-
- { 216,-774 }, { 217,-774 }, { 218,-774 }, { 219,-774 }, { 220,-774 },
- { 221,-774 }, { 222,-774 }, { 223,-774 }, { 224,-774 }, { 225,-774 },
- { 226,-774 }, { 227,-774 }, { 228,-774 }, { 229,-774 }, { 230,-774 },
- { 231,-774 }, { 232,-774 }, { 233,-774 }, { 234,-774 }, { 235,-774 },
- { 236,-774 }, { 237,-774 }, { 238,-774 }, { 239,-774 }, { 240,-774 },
- { 241,-774 }, { 242,-774 }, { 243,-774 }, { 244,-774 }, { 245,-774 },
- { 246,-774 }, { 247,-774 }, { 248,-774 }, { 249,-774 }, { 250,-774 },
- { 251,-774 }, { 252,-774 }, { 253,-774 }, { 254,-774 }, { 255,-774 },
- { 256,-774 }, {   0,   0 }, {   0,6397 }, {   0,   1 }, {   0,6395 },
- {   0,   4 }, {   0,6393 }, {   0,  48 }, {   0,6391 }, {   0,  42 },
-
- {   0,6389 }, {   0,   0 }, {   0,6387 }, {   0,  21 }, {   0,6385 },
- {   0,   0 }, {  10,   0 }, {   0,  20 }, {   0,6381 }, {  13,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,2893 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,6303 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 123,2895 }, {   0,   0 }, { 123,2895 }, {   0,   4 }, {   0,6270 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 },
- {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
-
- {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
- {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
- {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
- {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
- {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
-
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {  91,   0 }, { 125,2811 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
- {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 },
- { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
-
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
-
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
-
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   4 }, {   0,6012 }, {   1,-258 }, {   2,-258 },
- {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
- {   8,-258 }, {   9,-258 }, {  10,-381 }, {  11,-258 }, {  12,-258 },
- {  13,-381 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
- {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
-
- {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
- {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
- {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
- {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
- {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
- {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
- {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
- {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
- {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
- {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
-
- {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
- {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
- {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
- {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {   0,   0 },
- {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
- {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
- { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
- { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
- { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
- { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
-
- {   0,   0 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
- { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
- { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
- { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
- { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
- { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
- { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
- { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
- { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
- { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
-
- { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
- { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
- { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
- { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
- { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
- { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
- { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
- { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
- { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
- { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
-
- { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
- { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
- { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
- { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
- { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
- { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
- { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,5754 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,   0 },
- {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,5728 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,5717 }, {   0,  17 }, {   0,5715 },
- {   0,  27 }, {   0,5713 }, {   0,  18 }, {   0,5711 }, {   0,  37 },
- {   0,5709 }, {   0,  12 }, {   0,5707 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,5694 }, {   1,-9377 }, {   2,-9377 }, {   3,-9377 }, {   4,-9377 },
-
- {   5,-9377 }, {   6,-9377 }, {   7,-9377 }, {   8,-9377 }, {   9,-9402 },
- {  10,-9402 }, {  11,-9377 }, {  12,-9377 }, {  13,-9402 }, {  14,-9377 },
- {  15,-9377 }, {  16,-9377 }, {  17,-9377 }, {  18,-9377 }, {  19,-9377 },
- {  20,-9377 }, {  21,-9377 }, {  22,-9377 }, {  23,-9377 }, {  24,-9377 },
- {  25,-9377 }, {  26,-9377 }, {  27,-9377 }, {  28,-9377 }, {  29,-9377 },
- {  30,-9377 }, {  31,-9377 }, {  32,-9402 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-9377 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-9402 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-9377 }, {  46,-9402 }, {  47,-9402 }, {  48,-9377 }, {  49,-9377 },
- {  50,-9377 }, {  51,-9377 }, {  52,-9377 }, {  53,-9377 }, {  54,-9377 },
-
- {  55,-9377 }, {  56,-9377 }, {  57,-9377 }, {  58,-9377 }, {   0,   0 },
- {   0,   0 }, {  61,-9402 }, {   0,   0 }, {  63,-9377 }, { 124,-635 },
- {  65,-9377 }, {  66,-9377 }, {  67,-9377 }, {  68,-9377 }, {  69,-9377 },
- {  70,-9377 }, {  71,-9377 }, {  72,-9377 }, {  73,-9377 }, {  74,-9377 },
- {  75,-9377 }, {  76,-9377 }, {  77,-9377 }, {  78,-9377 }, {  79,-9377 },
- {  80,-9377 }, {  81,-9377 }, {  82,-9377 }, {  83,-9377 }, {  84,-9377 },
- {  85,-9377 }, {  86,-9377 }, {  87,-9377 }, {  88,-9377 }, {  89,-9377 },
- {  90,-9377 }, { 125,-575 }, { 115,2232 }, {   0,   0 }, {   0,   0 },
- {  95,-9377 }, {   0,   0 }, {  97,-9377 }, {  98,-9377 }, {  99,-9377 },
- { 100,-9377 }, { 101,2219 }, { 102,-9377 }, { 103,-9377 }, { 104,-9377 },
-
- { 105,-9377 }, { 106,-9377 }, { 107,-9377 }, { 108,-9377 }, { 109,-9377 },
- { 110,-9377 }, { 111,-9377 }, { 112,-9377 }, { 113,-9377 }, { 114,-9377 },
- { 115,-9377 }, { 116,-9377 }, { 117,-9377 }, { 118,-9377 }, { 119,-9377 },
- { 120,-9377 }, { 121,-9377 }, { 122,-9377 }, {   0,   0 }, { 124,-9402 },
- { 125,-9402 }, { 126,-9402 }, { 127,-9377 }, { 128,-9377 }, { 129,-9377 },
- { 130,-9377 }, { 131,-9377 }, { 132,-9377 }, { 133,-9377 }, { 134,-9377 },
- { 135,-9377 }, { 136,-9377 }, { 137,-9377 }, { 138,-9377 }, { 139,-9377 },
- { 140,-9377 }, { 141,-9377 }, { 142,-9377 }, { 143,-9377 }, { 144,-9377 },
- { 145,-9377 }, { 146,-9377 }, { 147,-9377 }, { 148,-9377 }, { 149,-9377 },
- { 150,-9377 }, { 151,-9377 }, { 152,-9377 }, { 153,-9377 }, { 154,-9377 },
-
- { 155,-9377 }, { 156,-9377 }, { 157,-9377 }, { 158,-9377 }, { 159,-9377 },
- { 160,-9377 }, { 161,-9377 }, { 162,-9377 }, { 163,-9377 }, { 164,-9377 },
- { 165,-9377 }, { 166,-9377 }, { 167,-9377 }, { 168,-9377 }, { 169,-9377 },
- { 170,-9377 }, { 171,-9377 }, { 172,-9377 }, { 173,-9377 }, { 174,-9377 },
- { 175,-9377 }, { 176,-9377 }, { 177,-9377 }, { 178,-9377 }, { 179,-9377 },
- { 180,-9377 }, { 181,-9377 }, { 182,-9377 }, { 183,-9377 }, { 184,-9377 },
- { 185,-9377 }, { 186,-9377 }, { 187,-9377 }, { 188,-9377 }, { 189,-9377 },
- { 190,-9377 }, { 191,-9377 }, { 192,-9377 }, { 193,-9377 }, { 194,-9377 },
- { 195,-9377 }, { 196,-9377 }, { 197,-9377 }, { 198,-9377 }, { 199,-9377 },
- { 200,-9377 }, { 201,-9377 }, { 202,-9377 }, { 203,-9377 }, { 204,-9377 },
-
- { 205,-9377 }, { 206,-9377 }, { 207,-9377 }, { 208,-9377 }, { 209,-9377 },
- { 210,-9377 }, { 211,-9377 }, { 212,-9377 }, { 213,-9377 }, { 214,-9377 },
- { 215,-9377 }, { 216,-9377 }, { 217,-9377 }, { 218,-9377 }, { 219,-9377 },
- { 220,-9377 }, { 221,-9377 }, { 222,-9377 }, { 223,-9377 }, { 224,-9377 },
- { 225,-9377 }, { 226,-9377 }, { 227,-9377 }, { 228,-9377 }, { 229,-9377 },
- { 230,-9377 }, { 231,-9377 }, { 232,-9377 }, { 233,-9377 }, { 234,-9377 },
- { 235,-9377 }, { 236,-9377 }, { 237,-9377 }, { 238,-9377 }, { 239,-9377 },
- { 240,-9377 }, { 241,-9377 }, { 242,-9377 }, { 243,-9377 }, { 244,-9377 },
- { 245,-9377 }, { 246,-9377 }, { 247,-9377 }, { 248,-9377 }, { 249,-9377 },
- { 250,-9377 }, { 251,-9377 }, { 252,-9377 }, { 253,-9377 }, { 254,-9377 },
-
- { 255,-9377 }, { 256,-9377 }, {   0,   0 }, {   0,5436 }, {   1,-9635 },
- {   2,-9635 }, {   3,-9635 }, {   4,-9635 }, {   5,-9635 }, {   6,-9635 },
- {   7,-9635 }, {   8,-9635 }, {   9,1938 }, {  10,1938 }, {  11,-9635 },
- {  12,-9635 }, {  13,1938 }, {  14,-9635 }, {  15,-9635 }, {  16,-9635 },
- {  17,-9635 }, {  18,-9635 }, {  19,-9635 }, {  20,-9635 }, {  21,-9635 },
- {  22,-9635 }, {  23,-9635 }, {  24,-9635 }, {  25,-9635 }, {  26,-9635 },
- {  27,-9635 }, {  28,-9635 }, {  29,-9635 }, {  30,-9635 }, {  31,-9635 },
- {  32,1938 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9635 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1938 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9635 }, {  46,-9660 },
-
- {  47,-9660 }, {  48,-9635 }, {  49,-9635 }, {  50,-9635 }, {  51,-9635 },
- {  52,-9635 }, {  53,-9635 }, {  54,-9635 }, {  55,-9635 }, {  56,-9635 },
- {  57,-9635 }, {  58,-9635 }, {   0,   0 }, {   0,   0 }, {  61,-9660 },
- {   0,   0 }, {  63,-9635 }, {   0,   0 }, {  65,-9635 }, {  66,-9635 },
- {  67,-9635 }, {  68,-9635 }, {  69,-9635 }, {  70,-9635 }, {  71,-9635 },
- {  72,-9635 }, {  73,-9635 }, {  74,-9635 }, {  75,-9635 }, {  76,-9635 },
- {  77,-9635 }, {  78,-9635 }, {  79,-9635 }, {  80,-9635 }, {  81,-9635 },
- {  82,-9635 }, {  83,-9635 }, {  84,-9635 }, {  85,-9635 }, {  86,-9635 },
- {  87,-9635 }, {  88,-9635 }, {  89,-9635 }, {  90,-9635 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9635 }, {   0,   0 },
-
- {  97,-9635 }, {  98,-9635 }, {  99,-9635 }, { 100,-9635 }, { 101,-9635 },
- { 102,-9635 }, { 103,-9635 }, { 104,-9635 }, { 105,-9635 }, { 106,-9635 },
- { 107,-9635 }, { 108,-9635 }, { 109,-9635 }, { 110,-9635 }, { 111,-9635 },
- { 112,-9635 }, { 113,-9635 }, { 114,-9635 }, { 115,-9635 }, { 116,-9635 },
- { 117,-9635 }, { 118,-9635 }, { 119,-9635 }, { 120,-9635 }, { 121,-9635 },
- { 122,-9635 }, {   0,   0 }, { 124,-9660 }, { 125,1938 }, { 126,1938 },
- { 127,-9635 }, { 128,-9635 }, { 129,-9635 }, { 130,-9635 }, { 131,-9635 },
- { 132,-9635 }, { 133,-9635 }, { 134,-9635 }, { 135,-9635 }, { 136,-9635 },
- { 137,-9635 }, { 138,-9635 }, { 139,-9635 }, { 140,-9635 }, { 141,-9635 },
- { 142,-9635 }, { 143,-9635 }, { 144,-9635 }, { 145,-9635 }, { 146,-9635 },
-
- { 147,-9635 }, { 148,-9635 }, { 149,-9635 }, { 150,-9635 }, { 151,-9635 },
- { 152,-9635 }, { 153,-9635 }, { 154,-9635 }, { 155,-9635 }, { 156,-9635 },
- { 157,-9635 }, { 158,-9635 }, { 159,-9635 }, { 160,-9635 }, { 161,-9635 },
- { 162,-9635 }, { 163,-9635 }, { 164,-9635 }, { 165,-9635 }, { 166,-9635 },
- { 167,-9635 }, { 168,-9635 }, { 169,-9635 }, { 170,-9635 }, { 171,-9635 },
- { 172,-9635 }, { 173,-9635 }, { 174,-9635 }, { 175,-9635 }, { 176,-9635 },
- { 177,-9635 }, { 178,-9635 }, { 179,-9635 }, { 180,-9635 }, { 181,-9635 },
- { 182,-9635 }, { 183,-9635 }, { 184,-9635 }, { 185,-9635 }, { 186,-9635 },
- { 187,-9635 }, { 188,-9635 }, { 189,-9635 }, { 190,-9635 }, { 191,-9635 },
- { 192,-9635 }, { 193,-9635 }, { 194,-9635 }, { 195,-9635 }, { 196,-9635 },
-
- { 197,-9635 }, { 198,-9635 }, { 199,-9635 }, { 200,-9635 }, { 201,-9635 },
- { 202,-9635 }, { 203,-9635 }, { 204,-9635 }, { 205,-9635 }, { 206,-9635 },
- { 207,-9635 }, { 208,-9635 }, { 209,-9635 }, { 210,-9635 }, { 211,-9635 },
- { 212,-9635 }, { 213,-9635 }, { 214,-9635 }, { 215,-9635 }, { 216,-9635 },
- { 217,-9635 }, { 218,-9635 }, { 219,-9635 }, { 220,-9635 }, { 221,-9635 },
- { 222,-9635 }, { 223,-9635 }, { 224,-9635 }, { 225,-9635 }, { 226,-9635 },
- { 227,-9635 }, { 228,-9635 }, { 229,-9635 }, { 230,-9635 }, { 231,-9635 },
- { 232,-9635 }, { 233,-9635 }, { 234,-9635 }, { 235,-9635 }, { 236,-9635 },
- { 237,-9635 }, { 238,-9635 }, { 239,-9635 }, { 240,-9635 }, { 241,-9635 },
- { 242,-9635 }, { 243,-9635 }, { 244,-9635 }, { 245,-9635 }, { 246,-9635 },
-
- { 247,-9635 }, { 248,-9635 }, { 249,-9635 }, { 250,-9635 }, { 251,-9635 },
- { 252,-9635 }, { 253,-9635 }, { 254,-9635 }, { 255,-9635 }, { 256,-9635 },
- {   0,   0 }, {   0,5178 }, {   1,-9893 }, {   2,-9893 }, {   3,-9893 },
- {   4,-9893 }, {   5,-9893 }, {   6,-9893 }, {   7,-9893 }, {   8,-9893 },
- {   9,1682 }, {  10,1682 }, {  11,-9893 }, {  12,-9893 }, {  13,1682 },
- {  14,-9893 }, {  15,-9893 }, {  16,-9893 }, {  17,-9893 }, {  18,-9893 },
- {  19,-9893 }, {  20,-9893 }, {  21,-9893 }, {  22,-9893 }, {  23,-9893 },
- {  24,-9893 }, {  25,-9893 }, {  26,-9893 }, {  27,-9893 }, {  28,-9893 },
- {  29,-9893 }, {  30,-9893 }, {  31,-9893 }, {  32,1682 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-9893 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  41,1682 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-9893 }, {  46,-9918 }, {  47,-9918 }, {  48,-9893 },
- {  49,-9893 }, {  50,-9893 }, {  51,-9893 }, {  52,-9893 }, {  53,-9893 },
- {  54,-9893 }, {  55,-9893 }, {  56,-9893 }, {  57,-9893 }, {  58,-9893 },
- {   0,   0 }, {   0,   0 }, {  61,-9918 }, {   0,   0 }, {  63,-9893 },
- {   0,   0 }, {  65,-9893 }, {  66,-9893 }, {  67,-9893 }, {  68,-9893 },
- {  69,-9893 }, {  70,-9893 }, {  71,-9893 }, {  72,-9893 }, {  73,-9893 },
- {  74,-9893 }, {  75,-9893 }, {  76,-9893 }, {  77,-9893 }, {  78,-9893 },
- {  79,-9893 }, {  80,-9893 }, {  81,-9893 }, {  82,-9893 }, {  83,-9893 },
- {  84,-9893 }, {  85,-9893 }, {  86,-9893 }, {  87,-9893 }, {  88,-9893 },
-
- {  89,-9893 }, {  90,-9893 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-9893 }, {   0,   0 }, {  97,-9893 }, {  98,-9893 },
- {  99,-9893 }, { 100,-9893 }, { 101,-9893 }, { 102,-9893 }, { 103,-9893 },
- { 104,-9893 }, { 105,-9893 }, { 106,-9893 }, { 107,-9893 }, { 108,-9893 },
- { 109,-9893 }, { 110,-9893 }, { 111,-9893 }, { 112,-9893 }, { 113,-9893 },
- { 114,-9893 }, { 115,-9893 }, { 116,-9893 }, { 117,-9893 }, { 118,-9893 },
- { 119,-9893 }, { 120,-9893 }, { 121,-9893 }, { 122,-9893 }, {   0,   0 },
- { 124,-9918 }, { 125,1682 }, { 126,1682 }, { 127,-9893 }, { 128,-9893 },
- { 129,-9893 }, { 130,-9893 }, { 131,-9893 }, { 132,-9893 }, { 133,-9893 },
- { 134,-9893 }, { 135,-9893 }, { 136,-9893 }, { 137,-9893 }, { 138,-9893 },
-
- { 139,-9893 }, { 140,-9893 }, { 141,-9893 }, { 142,-9893 }, { 143,-9893 },
- { 144,-9893 }, { 145,-9893 }, { 146,-9893 }, { 147,-9893 }, { 148,-9893 },
- { 149,-9893 }, { 150,-9893 }, { 151,-9893 }, { 152,-9893 }, { 153,-9893 },
- { 154,-9893 }, { 155,-9893 }, { 156,-9893 }, { 157,-9893 }, { 158,-9893 },
- { 159,-9893 }, { 160,-9893 }, { 161,-9893 }, { 162,-9893 }, { 163,-9893 },
- { 164,-9893 }, { 165,-9893 }, { 166,-9893 }, { 167,-9893 }, { 168,-9893 },
- { 169,-9893 }, { 170,-9893 }, { 171,-9893 }, { 172,-9893 }, { 173,-9893 },
- { 174,-9893 }, { 175,-9893 }, { 176,-9893 }, { 177,-9893 }, { 178,-9893 },
- { 179,-9893 }, { 180,-9893 }, { 181,-9893 }, { 182,-9893 }, { 183,-9893 },
- { 184,-9893 }, { 185,-9893 }, { 186,-9893 }, { 187,-9893 }, { 188,-9893 },
-
- { 189,-9893 }, { 190,-9893 }, { 191,-9893 }, { 192,-9893 }, { 193,-9893 },
- { 194,-9893 }, { 195,-9893 }, { 196,-9893 }, { 197,-9893 }, { 198,-9893 },
- { 199,-9893 }, { 200,-9893 }, { 201,-9893 }, { 202,-9893 }, { 203,-9893 },
- { 204,-9893 }, { 205,-9893 }, { 206,-9893 }, { 207,-9893 }, { 208,-9893 },
- { 209,-9893 }, { 210,-9893 }, { 211,-9893 }, { 212,-9893 }, { 213,-9893 },
- { 214,-9893 }, { 215,-9893 }, { 216,-9893 }, { 217,-9893 }, { 218,-9893 },
- { 219,-9893 }, { 220,-9893 }, { 221,-9893 }, { 222,-9893 }, { 223,-9893 },
- { 224,-9893 }, { 225,-9893 }, { 226,-9893 }, { 227,-9893 }, { 228,-9893 },
- { 229,-9893 }, { 230,-9893 }, { 231,-9893 }, { 232,-9893 }, { 233,-9893 },
- { 234,-9893 }, { 235,-9893 }, { 236,-9893 }, { 237,-9893 }, { 238,-9893 },
-
- { 239,-9893 }, { 240,-9893 }, { 241,-9893 }, { 242,-9893 }, { 243,-9893 },
- { 244,-9893 }, { 245,-9893 }, { 246,-9893 }, { 247,-9893 }, { 248,-9893 },
- { 249,-9893 }, { 250,-9893 }, { 251,-9893 }, { 252,-9893 }, { 253,-9893 },
- { 254,-9893 }, { 255,-9893 }, { 256,-9893 }, {   0,   0 }, {   0,4920 },
- {   1,-10151 }, {   2,-10151 }, {   3,-10151 }, {   4,-10151 }, {   5,-10151 },
- {   6,-10151 }, {   7,-10151 }, {   8,-10151 }, {   9,-10176 }, {  10,-10176 },
- {  11,-10151 }, {  12,-10151 }, {  13,-10176 }, {  14,-10151 }, {  15,-10151 },
- {  16,-10151 }, {  17,-10151 }, {  18,-10151 }, {  19,-10151 }, {  20,-10151 },
- {  21,-10151 }, {  22,-10151 }, {  23,-10151 }, {  24,-10151 }, {  25,-10151 },
- {  26,-10151 }, {  27,-10151 }, {  28,-10151 }, {  29,-10151 }, {  30,-10151 },
-
- {  31,-10151 }, {  32,-10176 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-10151 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-10176 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-10151 },
- {  46,-10176 }, {  47,-10176 }, {  48,-10151 }, {  49,-10151 }, {  50,-10151 },
- {  51,-10151 }, {  52,-10151 }, {  53,-10151 }, {  54,-10151 }, {  55,-10151 },
- {  56,-10151 }, {  57,-10151 }, {  58,-10151 }, {   0,   0 }, {   0,   0 },
- {  61,-10176 }, {   0,   0 }, {  63,-10151 }, {   0,   0 }, {  65,-10151 },
- {  66,-10151 }, {  67,-10151 }, {  68,-10151 }, {  69,-10151 }, {  70,-10151 },
- {  71,-10151 }, {  72,-10151 }, {  73,-10151 }, {  74,-10151 }, {  75,-10151 },
- {  76,-10151 }, {  77,-10151 }, {  78,-10151 }, {  79,-10151 }, {  80,-10151 },
-
- {  81,-10151 }, {  82,-10151 }, {  83,-10151 }, {  84,-10151 }, {  85,-10151 },
- {  86,-10151 }, {  87,-10151 }, {  88,-10151 }, {  89,-10151 }, {  90,-10151 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-10151 },
- {   0,   0 }, {  97,-10151 }, {  98,-10151 }, {  99,-10151 }, { 100,-10151 },
- { 101,-10151 }, { 102,1703 }, { 103,-10151 }, { 104,-10151 }, { 105,-10151 },
- { 106,-10151 }, { 107,-10151 }, { 108,-10151 }, { 109,-10151 }, { 110,-10151 },
- { 111,-10151 }, { 112,-10151 }, { 113,-10151 }, { 114,-10151 }, { 115,-10151 },
- { 116,-10151 }, { 117,-10151 }, { 118,-10151 }, { 119,-10151 }, { 120,-10151 },
- { 121,-10151 }, { 122,-10151 }, {   0,   0 }, { 124,-10176 }, { 125,-10176 },
- { 126,-10176 }, { 127,-10151 }, { 128,-10151 }, { 129,-10151 }, { 130,-10151 },
-
- { 131,-10151 }, { 132,-10151 }, { 133,-10151 }, { 134,-10151 }, { 135,-10151 },
- { 136,-10151 }, { 137,-10151 }, { 138,-10151 }, { 139,-10151 }, { 140,-10151 },
- { 141,-10151 }, { 142,-10151 }, { 143,-10151 }, { 144,-10151 }, { 145,-10151 },
- { 146,-10151 }, { 147,-10151 }, { 148,-10151 }, { 149,-10151 }, { 150,-10151 },
- { 151,-10151 }, { 152,-10151 }, { 153,-10151 }, { 154,-10151 }, { 155,-10151 },
- { 156,-10151 }, { 157,-10151 }, { 158,-10151 }, { 159,-10151 }, { 160,-10151 },
- { 161,-10151 }, { 162,-10151 }, { 163,-10151 }, { 164,-10151 }, { 165,-10151 },
- { 166,-10151 }, { 167,-10151 }, { 168,-10151 }, { 169,-10151 }, { 170,-10151 },
- { 171,-10151 }, { 172,-10151 }, { 173,-10151 }, { 174,-10151 }, { 175,-10151 },
- { 176,-10151 }, { 177,-10151 }, { 178,-10151 }, { 179,-10151 }, { 180,-10151 },
-
- { 181,-10151 }, { 182,-10151 }, { 183,-10151 }, { 184,-10151 }, { 185,-10151 },
- { 186,-10151 }, { 187,-10151 }, { 188,-10151 }, { 189,-10151 }, { 190,-10151 },
- { 191,-10151 }, { 192,-10151 }, { 193,-10151 }, { 194,-10151 }, { 195,-10151 },
- { 196,-10151 }, { 197,-10151 }, { 198,-10151 }, { 199,-10151 }, { 200,-10151 },
- { 201,-10151 }, { 202,-10151 }, { 203,-10151 }, { 204,-10151 }, { 205,-10151 },
- { 206,-10151 }, { 207,-10151 }, { 208,-10151 }, { 209,-10151 }, { 210,-10151 },
- { 211,-10151 }, { 212,-10151 }, { 213,-10151 }, { 214,-10151 }, { 215,-10151 },
- { 216,-10151 }, { 217,-10151 }, { 218,-10151 }, { 219,-10151 }, { 220,-10151 },
- { 221,-10151 }, { 222,-10151 }, { 223,-10151 }, { 224,-10151 }, { 225,-10151 },
- { 226,-10151 }, { 227,-10151 }, { 228,-10151 }, { 229,-10151 }, { 230,-10151 },
-
- { 231,-10151 }, { 232,-10151 }, { 233,-10151 }, { 234,-10151 }, { 235,-10151 },
- { 236,-10151 }, { 237,-10151 }, { 238,-10151 }, { 239,-10151 }, { 240,-10151 },
- { 241,-10151 }, { 242,-10151 }, { 243,-10151 }, { 244,-10151 }, { 245,-10151 },
- { 246,-10151 }, { 247,-10151 }, { 248,-10151 }, { 249,-10151 }, { 250,-10151 },
- { 251,-10151 }, { 252,-10151 }, { 253,-10151 }, { 254,-10151 }, { 255,-10151 },
- { 256,-10151 }, {   0,   0 }, {   0,4662 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
- {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, { 125,-1641 }, { 126,-1066 }, {   0,   0 },
- {   0,4534 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
- {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
-
- {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
- {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
- {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 }, {  94,   0 },
-
- {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
- { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
-
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
-
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
-
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4276 }, {   1,-258 },
- {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
- {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
- {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
- {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
- {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
- {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
- {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 },
-
- {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
- {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-2895 }, {  46,-258 },
- {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
- {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
- {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
- {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
- {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
- {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
- {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
- {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
-
- {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
- {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
- {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
- { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
- { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
- { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
- { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
- { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
- { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
- { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
-
- { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
- { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
- { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
- { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
- { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
- { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
- { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
- { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
- { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
- { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
-
- { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
- { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
- { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
- { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
- { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
- { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
- { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
- { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
- { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
- { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
-
- { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
- { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
- { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
- { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,4018 }, {   1,1059 }, {   2,1059 }, {   3,1059 },
- {   4,1059 }, {   5,1059 }, {   6,1059 }, {   7,1059 }, {   8,1059 },
- {   9,1059 }, {  10,1059 }, {  11,1059 }, {  12,1059 }, {  13,1059 },
- {  14,1059 }, {  15,1059 }, {  16,1059 }, {  17,1059 }, {  18,1059 },
- {  19,1059 }, {  20,1059 }, {  21,1059 }, {  22,1059 }, {  23,1059 },
- {  24,1059 }, {  25,1059 }, {  26,1059 }, {  27,1059 }, {  28,1059 },
-
- {  29,1059 }, {  30,1059 }, {  31,1059 }, {  32,1059 }, {  33,1059 },
- {  34,1059 }, {  35,1059 }, {  36,1059 }, {  37,1059 }, {  38,1059 },
- {  39,1059 }, {  40,1059 }, {  41,1059 }, {  42,1059 }, {  43,1059 },
- {  44,1059 }, {  45,1317 }, {  46,1059 }, {  47,1059 }, {  48,1059 },
- {  49,1059 }, {  50,1059 }, {  51,1059 }, {  52,1059 }, {  53,1059 },
- {  54,1059 }, {  55,1059 }, {  56,1059 }, {  57,1059 }, {  58,1059 },
- {  59,1059 }, {  60,1059 }, {  61,1059 }, {  62,1059 }, {  63,1059 },
- {  64,1059 }, {  65,1059 }, {  66,1059 }, {  67,1059 }, {  68,1059 },
- {  69,1059 }, {  70,1059 }, {  71,1059 }, {  72,1059 }, {  73,1059 },
- {  74,1059 }, {  75,1059 }, {  76,1059 }, {  77,1059 }, {  78,1059 },
-
- {  79,1059 }, {  80,1059 }, {  81,1059 }, {  82,1059 }, {  83,1059 },
- {  84,1059 }, {  85,1059 }, {  86,1059 }, {  87,1059 }, {  88,1059 },
- {  89,1059 }, {  90,1059 }, {  91,1059 }, {  92,1059 }, {  93,1059 },
- {  94,1059 }, {  95,1059 }, {  96,1059 }, {  97,1059 }, {  98,1059 },
- {  99,1059 }, { 100,1059 }, { 101,1059 }, { 102,1059 }, { 103,1059 },
- { 104,1059 }, { 105,1059 }, { 106,1059 }, { 107,1059 }, { 108,1059 },
- { 109,1059 }, { 110,1059 }, { 111,1059 }, { 112,1059 }, { 113,1059 },
- { 114,1059 }, { 115,1059 }, { 116,1059 }, { 117,1059 }, { 118,1059 },
- { 119,1059 }, { 120,1059 }, { 121,1059 }, { 122,1059 }, { 123,1059 },
- { 124,1059 }, { 125,1059 }, { 126,1059 }, { 127,1059 }, { 128,1059 },
-
- { 129,1059 }, { 130,1059 }, { 131,1059 }, { 132,1059 }, { 133,1059 },
- { 134,1059 }, { 135,1059 }, { 136,1059 }, { 137,1059 }, { 138,1059 },
- { 139,1059 }, { 140,1059 }, { 141,1059 }, { 142,1059 }, { 143,1059 },
- { 144,1059 }, { 145,1059 }, { 146,1059 }, { 147,1059 }, { 148,1059 },
- { 149,1059 }, { 150,1059 }, { 151,1059 }, { 152,1059 }, { 153,1059 },
- { 154,1059 }, { 155,1059 }, { 156,1059 }, { 157,1059 }, { 158,1059 },
- { 159,1059 }, { 160,1059 }, { 161,1059 }, { 162,1059 }, { 163,1059 },
- { 164,1059 }, { 165,1059 }, { 166,1059 }, { 167,1059 }, { 168,1059 },
- { 169,1059 }, { 170,1059 }, { 171,1059 }, { 172,1059 }, { 173,1059 },
- { 174,1059 }, { 175,1059 }, { 176,1059 }, { 177,1059 }, { 178,1059 },
-
- { 179,1059 }, { 180,1059 }, { 181,1059 }, { 182,1059 }, { 183,1059 },
- { 184,1059 }, { 185,1059 }, { 186,1059 }, { 187,1059 }, { 188,1059 },
- { 189,1059 }, { 190,1059 }, { 191,1059 }, { 192,1059 }, { 193,1059 },
- { 194,1059 }, { 195,1059 }, { 196,1059 }, { 197,1059 }, { 198,1059 },
- { 199,1059 }, { 200,1059 }, { 201,1059 }, { 202,1059 }, { 203,1059 },
- { 204,1059 }, { 205,1059 }, { 206,1059 }, { 207,1059 }, { 208,1059 },
- { 209,1059 }, { 210,1059 }, { 211,1059 }, { 212,1059 }, { 213,1059 },
- { 214,1059 }, { 215,1059 }, { 216,1059 }, { 217,1059 }, { 218,1059 },
- { 219,1059 }, { 220,1059 }, { 221,1059 }, { 222,1059 }, { 223,1059 },
- { 224,1059 }, { 225,1059 }, { 226,1059 }, { 227,1059 }, { 228,1059 },
-
- { 229,1059 }, { 230,1059 }, { 231,1059 }, { 232,1059 }, { 233,1059 },
- { 234,1059 }, { 235,1059 }, { 236,1059 }, { 237,1059 }, { 238,1059 },
- { 239,1059 }, { 240,1059 }, { 241,1059 }, { 242,1059 }, { 243,1059 },
- { 244,1059 }, { 245,1059 }, { 246,1059 }, { 247,1059 }, { 248,1059 },
- { 249,1059 }, { 250,1059 }, { 251,1059 }, { 252,1059 }, { 253,1059 },
- { 254,1059 }, { 255,1059 }, { 256,1059 }, {   0,   0 }, {   0,3760 },
- {   1, 277 }, {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 },
- {   6, 277 }, {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 },
- {  11, 277 }, {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 },
- {  16, 277 }, {  17, 277 }, {  18, 277 }, {  19, 277 }, {  20, 277 },
-
- {  21, 277 }, {  22, 277 }, {  23, 277 }, {  24, 277 }, {  25, 277 },
- {  26, 277 }, {  27, 277 }, {  28, 277 }, {  29, 277 }, {  30, 277 },
- {  31, 277 }, {  32, 277 }, {  33, 277 }, {  34, 277 }, {  35, 277 },
- {  36, 277 }, {  37, 277 }, {  38, 277 }, {  39, 277 }, {  40, 277 },
- {  41, 277 }, {  42, 277 }, {  43, 277 }, {  44, 277 }, {  45, 277 },
- {  46, 277 }, {  47,1317 }, {  48, 277 }, {  49, 277 }, {  50, 277 },
- {  51, 277 }, {  52, 277 }, {  53, 277 }, {  54, 277 }, {  55, 277 },
- {  56, 277 }, {  57, 277 }, {  58, 277 }, {  59, 277 }, {  60, 277 },
- {  61, 277 }, {  62, 277 }, {  63, 277 }, {  64, 277 }, {  65, 277 },
- {  66, 277 }, {  67, 277 }, {  68, 277 }, {  69, 277 }, {  70, 277 },
-
- {  71, 277 }, {  72, 277 }, {  73, 277 }, {  74, 277 }, {  75, 277 },
- {  76, 277 }, {  77, 277 }, {  78, 277 }, {  79, 277 }, {  80, 277 },
- {  81, 277 }, {  82, 277 }, {  83, 277 }, {  84, 277 }, {  85, 277 },
- {  86, 277 }, {  87, 277 }, {  88, 277 }, {  89, 277 }, {  90, 277 },
- {  91, 277 }, {  92, 277 }, {  93, 277 }, {  94, 277 }, {  95, 277 },
- {  96, 277 }, {  97, 277 }, {  98, 277 }, {  99, 277 }, { 100, 277 },
- { 101, 277 }, { 102, 277 }, { 103, 277 }, { 104, 277 }, { 105, 277 },
- { 106, 277 }, { 107, 277 }, { 108, 277 }, { 109, 277 }, { 110, 277 },
- { 111, 277 }, { 112, 277 }, { 113, 277 }, { 114, 277 }, { 115, 277 },
- { 116, 277 }, { 117, 277 }, { 118, 277 }, { 119, 277 }, { 120, 277 },
-
- { 121, 277 }, { 122, 277 }, { 123, 277 }, { 124, 277 }, { 125, 277 },
- { 126, 277 }, { 127, 277 }, { 128, 277 }, { 129, 277 }, { 130, 277 },
- { 131, 277 }, { 132, 277 }, { 133, 277 }, { 134, 277 }, { 135, 277 },
- { 136, 277 }, { 137, 277 }, { 138, 277 }, { 139, 277 }, { 140, 277 },
- { 141, 277 }, { 142, 277 }, { 143, 277 }, { 144, 277 }, { 145, 277 },
- { 146, 277 }, { 147, 277 }, { 148, 277 }, { 149, 277 }, { 150, 277 },
- { 151, 277 }, { 152, 277 }, { 153, 277 }, { 154, 277 }, { 155, 277 },
- { 156, 277 }, { 157, 277 }, { 158, 277 }, { 159, 277 }, { 160, 277 },
- { 161, 277 }, { 162, 277 }, { 163, 277 }, { 164, 277 }, { 165, 277 },
- { 166, 277 }, { 167, 277 }, { 168, 277 }, { 169, 277 }, { 170, 277 },
-
- { 171, 277 }, { 172, 277 }, { 173, 277 }, { 174, 277 }, { 175, 277 },
- { 176, 277 }, { 177, 277 }, { 178, 277 }, { 179, 277 }, { 180, 277 },
- { 181, 277 }, { 182, 277 }, { 183, 277 }, { 184, 277 }, { 185, 277 },
- { 186, 277 }, { 187, 277 }, { 188, 277 }, { 189, 277 }, { 190, 277 },
- { 191, 277 }, { 192, 277 }, { 193, 277 }, { 194, 277 }, { 195, 277 },
- { 196, 277 }, { 197, 277 }, { 198, 277 }, { 199, 277 }, { 200, 277 },
- { 201, 277 }, { 202, 277 }, { 203, 277 }, { 204, 277 }, { 205, 277 },
- { 206, 277 }, { 207, 277 }, { 208, 277 }, { 209, 277 }, { 210, 277 },
- { 211, 277 }, { 212, 277 }, { 213, 277 }, { 214, 277 }, { 215, 277 },
- { 216, 277 }, { 217, 277 }, { 218, 277 }, { 219, 277 }, { 220, 277 },
-
- { 221, 277 }, { 222, 277 }, { 223, 277 }, { 224, 277 }, { 225, 277 },
- { 226, 277 }, { 227, 277 }, { 228, 277 }, { 229, 277 }, { 230, 277 },
- { 231, 277 }, { 232, 277 }, { 233, 277 }, { 234, 277 }, { 235, 277 },
- { 236, 277 }, { 237, 277 }, { 238, 277 }, { 239, 277 }, { 240, 277 },
- { 241, 277 }, { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 },
- { 246, 277 }, { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 },
- { 251, 277 }, { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 },
- { 256, 277 }, {   0,   1 }, {   0,3502 }, {   0,   1 }, {   0,3500 },
- {   0,  47 }, {   0,3498 }, {   0,  44 }, {   0,3496 }, {   0,  29 },
- {   0,3494 }, {   0,  23 }, {   0,3492 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3485 },
- {   0,   8 }, {   0,3483 }, {   0,   1 }, {   0,3481 }, {   0,  45 },
- {   0,3479 }, {   0,  26 }, {   0,3477 }, {   0,   0 }, {   0,3475 },
- {   1,-11596 }, {   2,-11596 }, {   3,-11596 }, {   4,-11596 }, {   5,-11596 },
- {   6,-11596 }, {   7,-11596 }, {   8,-11596 }, {   9,  -4 }, {  10,  -4 },
- {  11,-11596 }, {  12,-11596 }, {  13,  -4 }, {  14,-11596 }, {  15,-11596 },
- {  16,-11596 }, {  17,-11596 }, {  18,-11596 }, {  19,-11596 }, {  20,-11596 },
- {  21,-11596 }, {  22,-11596 }, {  23,-11596 }, {  24,-11596 }, {  25,-11596 },
- {  26,-11596 }, {  27,-11596 }, {  28,-11596 }, {  29,-11596 }, {  30,-11596 },
- {  31,-11596 }, {  32,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  36,-11596 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11596 },
- {  46,-11621 }, {  47,-11621 }, {  48,-11596 }, {  49,-11596 }, {  50,-11596 },
- {  51,-11596 }, {  52,-11596 }, {  53,-11596 }, {  54,-11596 }, {  55,-11596 },
- {  56,-11596 }, {  57,-11596 }, {  58,-11596 }, {   0,   0 }, {   0,   0 },
- {  61,-11621 }, {   0,   0 }, {  63,-11596 }, {   0,   0 }, {  65,-11596 },
- {  66,-11596 }, {  67,-11596 }, {  68,-11596 }, {  69,-11596 }, {  70,-11596 },
- {  71,-11596 }, {  72,-11596 }, {  73,-11596 }, {  74,-11596 }, {  75,-11596 },
- {  76,-11596 }, {  77,-11596 }, {  78,-11596 }, {  79,-11596 }, {  80,-11596 },
- {  81,-11596 }, {  82,-11596 }, {  83,-11596 }, {  84,-11596 }, {  85,-11596 },
-
- {  86,-11596 }, {  87,-11596 }, {  88,-11596 }, {  89,-11596 }, {  90,-11596 },
- { 101,1558 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11596 },
- { 123,  21 }, {  97,-11596 }, {  98,-11596 }, {  99,-11596 }, { 100,-11596 },
- { 101,-11596 }, { 102,-11596 }, { 103,-11596 }, { 104,-11596 }, { 105,-11596 },
- { 106,-11596 }, { 107,-11596 }, { 108,-11596 }, { 109,-11596 }, { 110,-11596 },
- { 111,-11596 }, { 112,-11596 }, { 113,-11596 }, { 114,-11596 }, { 115,-11596 },
- { 116,-11596 }, { 117,-11596 }, { 118,-11596 }, { 119,-11596 }, { 120,-11596 },
- { 121,-11596 }, { 122,-11596 }, {   0,   0 }, { 124,-11621 }, { 125,  -4 },
- { 126,  -4 }, { 127,-11596 }, { 128,-11596 }, { 129,-11596 }, { 130,-11596 },
- { 131,-11596 }, { 132,-11596 }, { 133,-11596 }, { 134,-11596 }, { 135,-11596 },
-
- { 136,-11596 }, { 137,-11596 }, { 138,-11596 }, { 139,-11596 }, { 140,-11596 },
- { 141,-11596 }, { 142,-11596 }, { 143,-11596 }, { 144,-11596 }, { 145,-11596 },
- { 146,-11596 }, { 147,-11596 }, { 148,-11596 }, { 149,-11596 }, { 150,-11596 },
- { 151,-11596 }, { 152,-11596 }, { 153,-11596 }, { 154,-11596 }, { 155,-11596 },
- { 156,-11596 }, { 157,-11596 }, { 158,-11596 }, { 159,-11596 }, { 160,-11596 },
- { 161,-11596 }, { 162,-11596 }, { 163,-11596 }, { 164,-11596 }, { 165,-11596 },
- { 166,-11596 }, { 167,-11596 }, { 168,-11596 }, { 169,-11596 }, { 170,-11596 },
- { 171,-11596 }, { 172,-11596 }, { 173,-11596 }, { 174,-11596 }, { 175,-11596 },
- { 176,-11596 }, { 177,-11596 }, { 178,-11596 }, { 179,-11596 }, { 180,-11596 },
- { 181,-11596 }, { 182,-11596 }, { 183,-11596 }, { 184,-11596 }, { 185,-11596 },
-
- { 186,-11596 }, { 187,-11596 }, { 188,-11596 }, { 189,-11596 }, { 190,-11596 },
- { 191,-11596 }, { 192,-11596 }, { 193,-11596 }, { 194,-11596 }, { 195,-11596 },
- { 196,-11596 }, { 197,-11596 }, { 198,-11596 }, { 199,-11596 }, { 200,-11596 },
- { 201,-11596 }, { 202,-11596 }, { 203,-11596 }, { 204,-11596 }, { 205,-11596 },
- { 206,-11596 }, { 207,-11596 }, { 208,-11596 }, { 209,-11596 }, { 210,-11596 },
- { 211,-11596 }, { 212,-11596 }, { 213,-11596 }, { 214,-11596 }, { 215,-11596 },
- { 216,-11596 }, { 217,-11596 }, { 218,-11596 }, { 219,-11596 }, { 220,-11596 },
- { 221,-11596 }, { 222,-11596 }, { 223,-11596 }, { 224,-11596 }, { 225,-11596 },
- { 226,-11596 }, { 227,-11596 }, { 228,-11596 }, { 229,-11596 }, { 230,-11596 },
- { 231,-11596 }, { 232,-11596 }, { 233,-11596 }, { 234,-11596 }, { 235,-11596 },
-
- { 236,-11596 }, { 237,-11596 }, { 238,-11596 }, { 239,-11596 }, { 240,-11596 },
- { 241,-11596 }, { 242,-11596 }, { 243,-11596 }, { 244,-11596 }, { 245,-11596 },
- { 246,-11596 }, { 247,-11596 }, { 248,-11596 }, { 249,-11596 }, { 250,-11596 },
- { 251,-11596 }, { 252,-11596 }, { 253,-11596 }, { 254,-11596 }, { 255,-11596 },
- { 256,-11596 }, {   0,   0 }, {   0,3217 }, {   1,-11854 }, {   2,-11854 },
- {   3,-11854 }, {   4,-11854 }, {   5,-11854 }, {   6,-11854 }, {   7,-11854 },
- {   8,-11854 }, {   9,-11879 }, {  10,-11879 }, {  11,-11854 }, {  12,-11854 },
- {  13,-11879 }, {  14,-11854 }, {  15,-11854 }, {  16,-11854 }, {  17,-11854 },
- {  18,-11854 }, {  19,-11854 }, {  20,-11854 }, {  21,-11854 }, {  22,-11854 },
- {  23,-11854 }, {  24,-11854 }, {  25,-11854 }, {  26,-11854 }, {  27,-11854 },
-
- {  28,-11854 }, {  29,-11854 }, {  30,-11854 }, {  31,-11854 }, {  32,-11879 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11854 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11879 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-11854 }, {  46,-11879 }, {  47,-11879 },
- {  48,-11854 }, {  49,-11854 }, {  50,-11854 }, {  51,-11854 }, {  52,-11854 },
- {  53,-11854 }, {  54,-11854 }, {  55,-11854 }, {  56,-11854 }, {  57,-11854 },
- {  58,-11854 }, {   0,   0 }, {   0,   0 }, {  61,-11879 }, {   0,   0 },
- {  63,-11854 }, {   0,   0 }, {  65,-11854 }, {  66,-11854 }, {  67,-11854 },
- {  68,-11854 }, {  69,-11854 }, {  70,-11854 }, {  71,-11854 }, {  72,-11854 },
- {  73,-11854 }, {  74,-11854 }, {  75,-11854 }, {  76,-11854 }, {  77,-11854 },
-
- {  78,-11854 }, {  79,-11854 }, {  80,-11854 }, {  81,-11854 }, {  82,-11854 },
- {  83,-11854 }, {  84,-11854 }, {  85,-11854 }, {  86,-11854 }, {  87,-11854 },
- {  88,-11854 }, {  89,-11854 }, {  90,-11854 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-11854 }, {   0,   0 }, {  97,-11854 },
- {  98,-11854 }, {  99,-11854 }, { 100,-11854 }, { 101,-11854 }, { 102,-11854 },
- { 103,-11854 }, { 104,-11854 }, { 105,1032 }, { 106,-11854 }, { 107,-11854 },
- { 108,-11854 }, { 109,-11854 }, { 110,-11854 }, { 111,-11854 }, { 112,-11854 },
- { 113,-11854 }, { 114,-11854 }, { 115,-11854 }, { 116,-11854 }, { 117,-11854 },
- { 118,-11854 }, { 119,-11854 }, { 120,-11854 }, { 121,-11854 }, { 122,-11854 },
- {   0,   0 }, { 124,-11879 }, { 125,-11879 }, { 126,-11879 }, { 127,-11854 },
-
- { 128,-11854 }, { 129,-11854 }, { 130,-11854 }, { 131,-11854 }, { 132,-11854 },
- { 133,-11854 }, { 134,-11854 }, { 135,-11854 }, { 136,-11854 }, { 137,-11854 },
- { 138,-11854 }, { 139,-11854 }, { 140,-11854 }, { 141,-11854 }, { 142,-11854 },
- { 143,-11854 }, { 144,-11854 }, { 145,-11854 }, { 146,-11854 }, { 147,-11854 },
- { 148,-11854 }, { 149,-11854 }, { 150,-11854 }, { 151,-11854 }, { 152,-11854 },
- { 153,-11854 }, { 154,-11854 }, { 155,-11854 }, { 156,-11854 }, { 157,-11854 },
- { 158,-11854 }, { 159,-11854 }, { 160,-11854 }, { 161,-11854 }, { 162,-11854 },
- { 163,-11854 }, { 164,-11854 }, { 165,-11854 }, { 166,-11854 }, { 167,-11854 },
- { 168,-11854 }, { 169,-11854 }, { 170,-11854 }, { 171,-11854 }, { 172,-11854 },
- { 173,-11854 }, { 174,-11854 }, { 175,-11854 }, { 176,-11854 }, { 177,-11854 },
-
- { 178,-11854 }, { 179,-11854 }, { 180,-11854 }, { 181,-11854 }, { 182,-11854 },
- { 183,-11854 }, { 184,-11854 }, { 185,-11854 }, { 186,-11854 }, { 187,-11854 },
- { 188,-11854 }, { 189,-11854 }, { 190,-11854 }, { 191,-11854 }, { 192,-11854 },
- { 193,-11854 }, { 194,-11854 }, { 195,-11854 }, { 196,-11854 }, { 197,-11854 },
- { 198,-11854 }, { 199,-11854 }, { 200,-11854 }, { 201,-11854 }, { 202,-11854 },
- { 203,-11854 }, { 204,-11854 }, { 205,-11854 }, { 206,-11854 }, { 207,-11854 },
- { 208,-11854 }, { 209,-11854 }, { 210,-11854 }, { 211,-11854 }, { 212,-11854 },
- { 213,-11854 }, { 214,-11854 }, { 215,-11854 }, { 216,-11854 }, { 217,-11854 },
- { 218,-11854 }, { 219,-11854 }, { 220,-11854 }, { 221,-11854 }, { 222,-11854 },
- { 223,-11854 }, { 224,-11854 }, { 225,-11854 }, { 226,-11854 }, { 227,-11854 },
-
- { 228,-11854 }, { 229,-11854 }, { 230,-11854 }, { 231,-11854 }, { 232,-11854 },
- { 233,-11854 }, { 234,-11854 }, { 235,-11854 }, { 236,-11854 }, { 237,-11854 },
- { 238,-11854 }, { 239,-11854 }, { 240,-11854 }, { 241,-11854 }, { 242,-11854 },
- { 243,-11854 }, { 244,-11854 }, { 245,-11854 }, { 246,-11854 }, { 247,-11854 },
- { 248,-11854 }, { 249,-11854 }, { 250,-11854 }, { 251,-11854 }, { 252,-11854 },
- { 253,-11854 }, { 254,-11854 }, { 255,-11854 }, { 256,-11854 }, {   0,   0 },
- {   0,2959 }, {   1,1290 }, {   2,1290 }, {   3,1290 }, {   4,1290 },
- {   5,1290 }, {   6,1290 }, {   7,1290 }, {   8,1290 }, {   9,1290 },
- {  10,1290 }, {  11,1290 }, {  12,1290 }, {  13,1290 }, {  14,1290 },
- {  15,1290 }, {  16,1290 }, {  17,1290 }, {  18,1290 }, {  19,1290 },
-
- {  20,1290 }, {  21,1290 }, {  22,1290 }, {  23,1290 }, {  24,1290 },
- {  25,1290 }, {  26,1290 }, {  27,1290 }, {  28,1290 }, {  29,1290 },
- {  30,1290 }, {  31,1290 }, {  32,1290 }, {  33,1290 }, {  34,1290 },
- {  35,1290 }, {  36,1290 }, {  37,1290 }, {  38,1290 }, {  39,1290 },
- {  40,1290 }, {  41,1290 }, {  42,1290 }, {  43,1290 }, {  44,1290 },
- {  45,1548 }, {  46,1290 }, {  47,1290 }, {  48,1290 }, {  49,1290 },
- {  50,1290 }, {  51,1290 }, {  52,1290 }, {  53,1290 }, {  54,1290 },
- {  55,1290 }, {  56,1290 }, {  57,1290 }, {  58,1290 }, {  59,1290 },
- {  60,1290 }, {  61,1290 }, {  62,1290 }, {  63,1290 }, {  64,1290 },
- {  65,1290 }, {  66,1290 }, {  67,1290 }, {  68,1290 }, {  69,1290 },
-
- {  70,1290 }, {  71,1290 }, {  72,1290 }, {  73,1290 }, {  74,1290 },
- {  75,1290 }, {  76,1290 }, {  77,1290 }, {  78,1290 }, {  79,1290 },
- {  80,1290 }, {  81,1290 }, {  82,1290 }, {  83,1290 }, {  84,1290 },
- {  85,1290 }, {  86,1290 }, {  87,1290 }, {  88,1290 }, {  89,1290 },
- {  90,1290 }, {  91,1290 }, {  92,1290 }, {  93,1290 }, {  94,1290 },
- {  95,1290 }, {  96,1290 }, {  97,1290 }, {  98,1290 }, {  99,1290 },
- { 100,1290 }, { 101,1290 }, { 102,1290 }, { 103,1290 }, { 104,1290 },
- { 105,1290 }, { 106,1290 }, { 107,1290 }, { 108,1290 }, { 109,1290 },
- { 110,1290 }, { 111,1290 }, { 112,1290 }, { 113,1290 }, { 114,1290 },
- { 115,1290 }, { 116,1290 }, { 117,1290 }, { 118,1290 }, { 119,1290 },
-
- { 120,1290 }, { 121,1290 }, { 122,1290 }, { 123,1290 }, { 124,1290 },
- { 125,1290 }, { 126,1290 }, { 127,1290 }, { 128,1290 }, { 129,1290 },
- { 130,1290 }, { 131,1290 }, { 132,1290 }, { 133,1290 }, { 134,1290 },
- { 135,1290 }, { 136,1290 }, { 137,1290 }, { 138,1290 }, { 139,1290 },
- { 140,1290 }, { 141,1290 }, { 142,1290 }, { 143,1290 }, { 144,1290 },
- { 145,1290 }, { 146,1290 }, { 147,1290 }, { 148,1290 }, { 149,1290 },
- { 150,1290 }, { 151,1290 }, { 152,1290 }, { 153,1290 }, { 154,1290 },
- { 155,1290 }, { 156,1290 }, { 157,1290 }, { 158,1290 }, { 159,1290 },
- { 160,1290 }, { 161,1290 }, { 162,1290 }, { 163,1290 }, { 164,1290 },
- { 165,1290 }, { 166,1290 }, { 167,1290 }, { 168,1290 }, { 169,1290 },
-
- { 170,1290 }, { 171,1290 }, { 172,1290 }, { 173,1290 }, { 174,1290 },
- { 175,1290 }, { 176,1290 }, { 177,1290 }, { 178,1290 }, { 179,1290 },
- { 180,1290 }, { 181,1290 }, { 182,1290 }, { 183,1290 }, { 184,1290 },
- { 185,1290 }, { 186,1290 }, { 187,1290 }, { 188,1290 }, { 189,1290 },
- { 190,1290 }, { 191,1290 }, { 192,1290 }, { 193,1290 }, { 194,1290 },
- { 195,1290 }, { 196,1290 }, { 197,1290 }, { 198,1290 }, { 199,1290 },
- { 200,1290 }, { 201,1290 }, { 202,1290 }, { 203,1290 }, { 204,1290 },
- { 205,1290 }, { 206,1290 }, { 207,1290 }, { 208,1290 }, { 209,1290 },
- { 210,1290 }, { 211,1290 }, { 212,1290 }, { 213,1290 }, { 214,1290 },
- { 215,1290 }, { 216,1290 }, { 217,1290 }, { 218,1290 }, { 219,1290 },
-
- { 220,1290 }, { 221,1290 }, { 222,1290 }, { 223,1290 }, { 224,1290 },
- { 225,1290 }, { 226,1290 }, { 227,1290 }, { 228,1290 }, { 229,1290 },
- { 230,1290 }, { 231,1290 }, { 232,1290 }, { 233,1290 }, { 234,1290 },
- { 235,1290 }, { 236,1290 }, { 237,1290 }, { 238,1290 }, { 239,1290 },
- { 240,1290 }, { 241,1290 }, { 242,1290 }, { 243,1290 }, { 244,1290 },
- { 245,1290 }, { 246,1290 }, { 247,1290 }, { 248,1290 }, { 249,1290 },
- { 250,1290 }, { 251,1290 }, { 252,1290 }, { 253,1290 }, { 254,1290 },
- { 255,1290 }, { 256,1290 }, {   0,   0 }, {   0,2701 }, {   1,-4728 },
- {   2,-4728 }, {   3,-4728 }, {   4,-4728 }, {   5,-4728 }, {   6,-4728 },
- {   7,-4728 }, {   8,-4728 }, {   9,-4728 }, {  10,-4728 }, {  11,-4728 },
-
- {  12,-4728 }, {  13,-4728 }, {  14,-4728 }, {  15,-4728 }, {  16,-4728 },
- {  17,-4728 }, {  18,-4728 }, {  19,-4728 }, {  20,-4728 }, {  21,-4728 },
- {  22,-4728 }, {  23,-4728 }, {  24,-4728 }, {  25,-4728 }, {  26,-4728 },
- {  27,-4728 }, {  28,-4728 }, {  29,-4728 }, {  30,-4728 }, {  31,-4728 },
- {  32,-4728 }, {  33,-4728 }, {  34,-4728 }, {  35,-4728 }, {  36,-4728 },
- {  37,-4728 }, {  38,-4728 }, {  39,-4728 }, {  40,-4728 }, {  41,-4728 },
- {  42,-4728 }, {  43,-4728 }, {  44,-4728 }, {  45,-4470 }, {  46,-4728 },
- {  47,-4728 }, {  48,-4728 }, {  49,-4728 }, {  50,-4728 }, {  51,-4728 },
- {  52,-4728 }, {  53,-4728 }, {  54,-4728 }, {  55,-4728 }, {  56,-4728 },
- {  57,-4728 }, {  58,-4728 }, {  59,-4728 }, {  60,-4728 }, {  61,-4728 },
-
- {  62,-4728 }, {  63,-4728 }, {  64,-4728 }, {  65,-4728 }, {  66,-4728 },
- {  67,-4728 }, {  68,-4728 }, {  69,-4728 }, {  70,-4728 }, {  71,-4728 },
- {  72,-4728 }, {  73,-4728 }, {  74,-4728 }, {  75,-4728 }, {  76,-4728 },
- {  77,-4728 }, {  78,-4728 }, {  79,-4728 }, {  80,-4728 }, {  81,-4728 },
- {  82,-4728 }, {  83,-4728 }, {  84,-4728 }, {  85,-4728 }, {  86,-4728 },
- {  87,-4728 }, {  88,-4728 }, {  89,-4728 }, {  90,-4728 }, {  91,-4728 },
- {  92,-4728 }, {  93,-4728 }, {  94,-4728 }, {  95,-4728 }, {  96,-4728 },
- {  97,-4728 }, {  98,-4728 }, {  99,-4728 }, { 100,-4728 }, { 101,-4728 },
- { 102,-4728 }, { 103,-4728 }, { 104,-4728 }, { 105,-4728 }, { 106,-4728 },
- { 107,-4728 }, { 108,-4728 }, { 109,-4728 }, { 110,-4728 }, { 111,-4728 },
-
- { 112,-4728 }, { 113,-4728 }, { 114,-4728 }, { 115,-4728 }, { 116,-4728 },
- { 117,-4728 }, { 118,-4728 }, { 119,-4728 }, { 120,-4728 }, { 121,-4728 },
- { 122,-4728 }, { 123,-4728 }, { 124,-4728 }, { 125,-4212 }, { 126,-3954 },
- { 127,-4728 }, { 128,-4728 }, { 129,-4728 }, { 130,-4728 }, { 131,-4728 },
- { 132,-4728 }, { 133,-4728 }, { 134,-4728 }, { 135,-4728 }, { 136,-4728 },
- { 137,-4728 }, { 138,-4728 }, { 139,-4728 }, { 140,-4728 }, { 141,-4728 },
- { 142,-4728 }, { 143,-4728 }, { 144,-4728 }, { 145,-4728 }, { 146,-4728 },
- { 147,-4728 }, { 148,-4728 }, { 149,-4728 }, { 150,-4728 }, { 151,-4728 },
- { 152,-4728 }, { 153,-4728 }, { 154,-4728 }, { 155,-4728 }, { 156,-4728 },
- { 157,-4728 }, { 158,-4728 }, { 159,-4728 }, { 160,-4728 }, { 161,-4728 },
-
- { 162,-4728 }, { 163,-4728 }, { 164,-4728 }, { 165,-4728 }, { 166,-4728 },
- { 167,-4728 }, { 168,-4728 }, { 169,-4728 }, { 170,-4728 }, { 171,-4728 },
- { 172,-4728 }, { 173,-4728 }, { 174,-4728 }, { 175,-4728 }, { 176,-4728 },
- { 177,-4728 }, { 178,-4728 }, { 179,-4728 }, { 180,-4728 }, { 181,-4728 },
- { 182,-4728 }, { 183,-4728 }, { 184,-4728 }, { 185,-4728 }, { 186,-4728 },
- { 187,-4728 }, { 188,-4728 }, { 189,-4728 }, { 190,-4728 }, { 191,-4728 },
- { 192,-4728 }, { 193,-4728 }, { 194,-4728 }, { 195,-4728 }, { 196,-4728 },
- { 197,-4728 }, { 198,-4728 }, { 199,-4728 }, { 200,-4728 }, { 201,-4728 },
- { 202,-4728 }, { 203,-4728 }, { 204,-4728 }, { 205,-4728 }, { 206,-4728 },
- { 207,-4728 }, { 208,-4728 }, { 209,-4728 }, { 210,-4728 }, { 211,-4728 },
-
- { 212,-4728 }, { 213,-4728 }, { 214,-4728 }, { 215,-4728 }, { 216,-4728 },
- { 217,-4728 }, { 218,-4728 }, { 219,-4728 }, { 220,-4728 }, { 221,-4728 },
- { 222,-4728 }, { 223,-4728 }, { 224,-4728 }, { 225,-4728 }, { 226,-4728 },
- { 227,-4728 }, { 228,-4728 }, { 229,-4728 }, { 230,-4728 }, { 231,-4728 },
- { 232,-4728 }, { 233,-4728 }, { 234,-4728 }, { 235,-4728 }, { 236,-4728 },
- { 237,-4728 }, { 238,-4728 }, { 239,-4728 }, { 240,-4728 }, { 241,-4728 },
- { 242,-4728 }, { 243,-4728 }, { 244,-4728 }, { 245,-4728 }, { 246,-4728 },
- { 247,-4728 }, { 248,-4728 }, { 249,-4728 }, { 250,-4728 }, { 251,-4728 },
- { 252,-4728 }, { 253,-4728 }, { 254,-4728 }, { 255,-4728 }, { 256,-4728 },
- {   0,   0 }, {   0,2443 }, {   1,1290 }, {   2,1290 }, {   3,1290 },
-
- {   4,1290 }, {   5,1290 }, {   6,1290 }, {   7,1290 }, {   8,1290 },
- {   0,   0 }, {   0,   0 }, {  11,1290 }, {  12,1290 }, {   0,   0 },
- {  14,1290 }, {  15,1290 }, {  16,1290 }, {  17,1290 }, {  18,1290 },
- {  19,1290 }, {  20,1290 }, {  21,1290 }, {  22,1290 }, {  23,1290 },
- {  24,1290 }, {  25,1290 }, {  26,1290 }, {  27,1290 }, {  28,1290 },
- {  29,1290 }, {  30,1290 }, {  31,1290 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1290 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1290 }, {   0,   0 }, {   0,   0 }, {  48,1290 },
- {  49,1290 }, {  50,1290 }, {  51,1290 }, {  52,1290 }, {  53,1290 },
-
- {  54,1290 }, {  55,1290 }, {  56,1290 }, {  57,1290 }, {  58,1290 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1290 },
- {   0,   0 }, {  65,1290 }, {  66,1290 }, {  67,1290 }, {  68,1290 },
- {  69,1290 }, {  70,1290 }, {  71,1290 }, {  72,1290 }, {  73,1290 },
- {  74,1290 }, {  75,1290 }, {  76,1290 }, {  77,1290 }, {  78,1290 },
- {  79,1290 }, {  80,1290 }, {  81,1290 }, {  82,1290 }, {  83,1290 },
- {  84,1290 }, {  85,1290 }, {  86,1290 }, {  87,1290 }, {  88,1290 },
- {  89,1290 }, {  90,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1290 }, {   0,   0 }, {  97,1290 }, {  98,1290 },
- {  99,1290 }, { 100,1290 }, { 101,1290 }, { 102,1290 }, { 103,1290 },
-
- { 104,1290 }, { 105,1290 }, { 106,1290 }, { 107,1290 }, { 108,1290 },
- { 109,1290 }, { 110,1290 }, { 111,1290 }, { 112,1290 }, { 113,1290 },
- { 114,1290 }, { 115,1290 }, { 116,1290 }, { 117,1290 }, { 118,1290 },
- { 119,1290 }, { 120,1290 }, { 121,1290 }, { 122,1290 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1290 }, { 128,1290 },
- { 129,1290 }, { 130,1290 }, { 131,1290 }, { 132,1290 }, { 133,1290 },
- { 134,1290 }, { 135,1290 }, { 136,1290 }, { 137,1290 }, { 138,1290 },
- { 139,1290 }, { 140,1290 }, { 141,1290 }, { 142,1290 }, { 143,1290 },
- { 144,1290 }, { 145,1290 }, { 146,1290 }, { 147,1290 }, { 148,1290 },
- { 149,1290 }, { 150,1290 }, { 151,1290 }, { 152,1290 }, { 153,1290 },
-
- { 154,1290 }, { 155,1290 }, { 156,1290 }, { 157,1290 }, { 158,1290 },
- { 159,1290 }, { 160,1290 }, { 161,1290 }, { 162,1290 }, { 163,1290 },
- { 164,1290 }, { 165,1290 }, { 166,1290 }, { 167,1290 }, { 168,1290 },
- { 169,1290 }, { 170,1290 }, { 171,1290 }, { 172,1290 }, { 173,1290 },
- { 174,1290 }, { 175,1290 }, { 176,1290 }, { 177,1290 }, { 178,1290 },
- { 179,1290 }, { 180,1290 }, { 181,1290 }, { 182,1290 }, { 183,1290 },
- { 184,1290 }, { 185,1290 }, { 186,1290 }, { 187,1290 }, { 188,1290 },
- { 189,1290 }, { 190,1290 }, { 191,1290 }, { 192,1290 }, { 193,1290 },
- { 194,1290 }, { 195,1290 }, { 196,1290 }, { 197,1290 }, { 198,1290 },
- { 199,1290 }, { 200,1290 }, { 201,1290 }, { 202,1290 }, { 203,1290 },
-
- { 204,1290 }, { 205,1290 }, { 206,1290 }, { 207,1290 }, { 208,1290 },
- { 209,1290 }, { 210,1290 }, { 211,1290 }, { 212,1290 }, { 213,1290 },
- { 214,1290 }, { 215,1290 }, { 216,1290 }, { 217,1290 }, { 218,1290 },
- { 219,1290 }, { 220,1290 }, { 221,1290 }, { 222,1290 }, { 223,1290 },
- { 224,1290 }, { 225,1290 }, { 226,1290 }, { 227,1290 }, { 228,1290 },
- { 229,1290 }, { 230,1290 }, { 231,1290 }, { 232,1290 }, { 233,1290 },
- { 234,1290 }, { 235,1290 }, { 236,1290 }, { 237,1290 }, { 238,1290 },
- { 239,1290 }, { 240,1290 }, { 241,1290 }, { 242,1290 }, { 243,1290 },
- { 244,1290 }, { 245,1290 }, { 246,1290 }, { 247,1290 }, { 248,1290 },
- { 249,1290 }, { 250,1290 }, { 251,1290 }, { 252,1290 }, { 253,1290 },
-
- { 254,1290 }, { 255,1290 }, { 256,1290 }, {   0,   0 }, {   0,2185 },
- {   1,-12886 }, {   2,-12886 }, {   3,-12886 }, {   4,-12886 }, {   5,-12886 },
- {   6,-12886 }, {   7,-12886 }, {   8,-12886 }, {   9,-12911 }, {  10,-12911 },
- {  11,-12886 }, {  12,-12886 }, {  13,-12911 }, {  14,-12886 }, {  15,-12886 },
- {  16,-12886 }, {  17,-12886 }, {  18,-12886 }, {  19,-12886 }, {  20,-12886 },
- {  21,-12886 }, {  22,-12886 }, {  23,-12886 }, {  24,-12886 }, {  25,-12886 },
- {  26,-12886 }, {  27,-12886 }, {  28,-12886 }, {  29,-12886 }, {  30,-12886 },
- {  31,-12886 }, {  32,-12911 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-12886 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-12911 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12886 },
-
- {  46,-12911 }, {  47,-12911 }, {  48,-12886 }, {  49,-12886 }, {  50,-12886 },
- {  51,-12886 }, {  52,-12886 }, {  53,-12886 }, {  54,-12886 }, {  55,-12886 },
- {  56,-12886 }, {  57,-12886 }, {  58,-12886 }, {   0,   0 }, {   0,   0 },
- {  61,-12911 }, {   0,   0 }, {  63,-12886 }, {   0,   0 }, {  65,-12886 },
- {  66,-12886 }, {  67,-12886 }, {  68,-12886 }, {  69,-12886 }, {  70,-12886 },
- {  71,-12886 }, {  72,-12886 }, {  73,-12886 }, {  74,-12886 }, {  75,-12886 },
- {  76,-12886 }, {  77,-12886 }, {  78,-12886 }, {  79,-12886 }, {  80,-12886 },
- {  81,-12886 }, {  82,-12886 }, {  83,-12886 }, {  84,-12886 }, {  85,-12886 },
- {  86,-12886 }, {  87,-12886 }, {  88,-12886 }, {  89,-12886 }, {  90,-12886 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12886 },
-
- {   0,   0 }, {  97,-12886 }, {  98,-12886 }, {  99,-12886 }, { 100,-12886 },
- { 101,-12886 }, { 102,-12886 }, { 103,-12886 }, { 104,-12886 }, { 105,-12886 },
- { 106,-12886 }, { 107,-12886 }, { 108,-12886 }, { 109,-12886 }, { 110,1290 },
- { 111,-12886 }, { 112,-12886 }, { 113,-12886 }, { 114,-12886 }, { 115,-12886 },
- { 116,-12886 }, { 117,-12886 }, { 118,-12886 }, { 119,-12886 }, { 120,-12886 },
- { 121,-12886 }, { 122,-12886 }, {   0,   0 }, { 124,-12911 }, { 125,-12911 },
- { 126,-12911 }, { 127,-12886 }, { 128,-12886 }, { 129,-12886 }, { 130,-12886 },
- { 131,-12886 }, { 132,-12886 }, { 133,-12886 }, { 134,-12886 }, { 135,-12886 },
- { 136,-12886 }, { 137,-12886 }, { 138,-12886 }, { 139,-12886 }, { 140,-12886 },
- { 141,-12886 }, { 142,-12886 }, { 143,-12886 }, { 144,-12886 }, { 145,-12886 },
-
- { 146,-12886 }, { 147,-12886 }, { 148,-12886 }, { 149,-12886 }, { 150,-12886 },
- { 151,-12886 }, { 152,-12886 }, { 153,-12886 }, { 154,-12886 }, { 155,-12886 },
- { 156,-12886 }, { 157,-12886 }, { 158,-12886 }, { 159,-12886 }, { 160,-12886 },
- { 161,-12886 }, { 162,-12886 }, { 163,-12886 }, { 164,-12886 }, { 165,-12886 },
- { 166,-12886 }, { 167,-12886 }, { 168,-12886 }, { 169,-12886 }, { 170,-12886 },
- { 171,-12886 }, { 172,-12886 }, { 173,-12886 }, { 174,-12886 }, { 175,-12886 },
- { 176,-12886 }, { 177,-12886 }, { 178,-12886 }, { 179,-12886 }, { 180,-12886 },
- { 181,-12886 }, { 182,-12886 }, { 183,-12886 }, { 184,-12886 }, { 185,-12886 },
- { 186,-12886 }, { 187,-12886 }, { 188,-12886 }, { 189,-12886 }, { 190,-12886 },
- { 191,-12886 }, { 192,-12886 }, { 193,-12886 }, { 194,-12886 }, { 195,-12886 },
-
- { 196,-12886 }, { 197,-12886 }, { 198,-12886 }, { 199,-12886 }, { 200,-12886 },
- { 201,-12886 }, { 202,-12886 }, { 203,-12886 }, { 204,-12886 }, { 205,-12886 },
- { 206,-12886 }, { 207,-12886 }, { 208,-12886 }, { 209,-12886 }, { 210,-12886 },
- { 211,-12886 }, { 212,-12886 }, { 213,-12886 }, { 214,-12886 }, { 215,-12886 },
- { 216,-12886 }, { 217,-12886 }, { 218,-12886 }, { 219,-12886 }, { 220,-12886 },
- { 221,-12886 }, { 222,-12886 }, { 223,-12886 }, { 224,-12886 }, { 225,-12886 },
- { 226,-12886 }, { 227,-12886 }, { 228,-12886 }, { 229,-12886 }, { 230,-12886 },
- { 231,-12886 }, { 232,-12886 }, { 233,-12886 }, { 234,-12886 }, { 235,-12886 },
- { 236,-12886 }, { 237,-12886 }, { 238,-12886 }, { 239,-12886 }, { 240,-12886 },
- { 241,-12886 }, { 242,-12886 }, { 243,-12886 }, { 244,-12886 }, { 245,-12886 },
-
- { 246,-12886 }, { 247,-12886 }, { 248,-12886 }, { 249,-12886 }, { 250,-12886 },
- { 251,-12886 }, { 252,-12886 }, { 253,-12886 }, { 254,-12886 }, { 255,-12886 },
- { 256,-12886 }, {   0,   0 }, {   0,1927 }, {   1,-1550 }, {   2,-1550 },
- {   3,-1550 }, {   4,-1550 }, {   5,-1550 }, {   6,-1550 }, {   7,-1550 },
- {   8,-1550 }, {   9,1290 }, {  10,1290 }, {  11,-1550 }, {  12,-1550 },
- {  13,1290 }, {  14,-1550 }, {  15,-1550 }, {  16,-1550 }, {  17,-1550 },
- {  18,-1550 }, {  19,-1550 }, {  20,-1550 }, {  21,-1550 }, {  22,-1550 },
- {  23,-1550 }, {  24,-1550 }, {  25,-1550 }, {  26,-1550 }, {  27,-1550 },
- {  28,-1550 }, {  29,-1550 }, {  30,-1550 }, {  31,-1550 }, {  32,1290 },
- {  33,-1550 }, {  34,-1550 }, {  35,-1550 }, {  36,-1550 }, {  37,-1550 },
-
- {  38,-1550 }, {  39,-1550 }, {  40,-1550 }, {  41,-1550 }, {  42,-1550 },
- {  43,-1550 }, {  44,-1550 }, {  45,-1550 }, {  46,-1550 }, {  47,-1550 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  58,-1550 }, {  59,-1550 }, {  60,-1550 }, {  61,-1550 }, {  62,-1550 },
- {  63,-1550 }, {  64,-1550 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  91,-1550 }, {  92,-1550 },
- {  93,-1550 }, {  94,-1550 }, {   0,   0 }, {  96,-1550 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 123,-1550 }, { 124,-1550 }, { 125,1292 }, { 126,1294 }, { 127,-1550 },
- { 128,-1550 }, { 129,-1550 }, { 130,-1550 }, { 131,-1550 }, { 132,-1550 },
- { 133,-1550 }, { 134,-1550 }, { 135,-1550 }, { 136,-1550 }, { 137,-1550 },
-
- { 138,-1550 }, { 139,-1550 }, { 140,-1550 }, { 141,-1550 }, { 142,-1550 },
- { 143,-1550 }, { 144,-1550 }, { 145,-1550 }, { 146,-1550 }, { 147,-1550 },
- { 148,-1550 }, { 149,-1550 }, { 150,-1550 }, { 151,-1550 }, { 152,-1550 },
- { 153,-1550 }, { 154,-1550 }, { 155,-1550 }, { 156,-1550 }, { 157,-1550 },
- { 158,-1550 }, { 159,-1550 }, { 160,-1550 }, { 161,-1550 }, { 162,-1550 },
- { 163,-1550 }, { 164,-1550 }, { 165,-1550 }, { 166,-1550 }, { 167,-1550 },
- { 168,-1550 }, { 169,-1550 }, { 170,-1550 }, { 171,-1550 }, { 172,-1550 },
- { 173,-1550 }, { 174,-1550 }, { 175,-1550 }, { 176,-1550 }, { 177,-1550 },
- { 178,-1550 }, { 179,-1550 }, { 180,-1550 }, { 181,-1550 }, { 182,-1550 },
- { 183,-1550 }, { 184,-1550 }, { 185,-1550 }, { 186,-1550 }, { 187,-1550 },
-
- { 188,-1550 }, { 189,-1550 }, { 190,-1550 }, { 191,-1550 }, { 192,-1550 },
- { 193,-1550 }, { 194,-1550 }, { 195,-1550 }, { 196,-1550 }, { 197,-1550 },
- { 198,-1550 }, { 199,-1550 }, { 200,-1550 }, { 201,-1550 }, { 202,-1550 },
- { 203,-1550 }, { 204,-1550 }, { 205,-1550 }, { 206,-1550 }, { 207,-1550 },
- { 208,-1550 }, { 209,-1550 }, { 210,-1550 }, { 211,-1550 }, { 212,-1550 },
- { 213,-1550 }, { 214,-1550 }, { 215,-1550 }, { 216,-1550 }, { 217,-1550 },
- { 218,-1550 }, { 219,-1550 }, { 220,-1550 }, { 221,-1550 }, { 222,-1550 },
- { 223,-1550 }, { 224,-1550 }, { 225,-1550 }, { 226,-1550 }, { 227,-1550 },
- { 228,-1550 }, { 229,-1550 }, { 230,-1550 }, { 231,-1550 }, { 232,-1550 },
- { 233,-1550 }, { 234,-1550 }, { 235,-1550 }, { 236,-1550 }, { 237,-1550 },
-
- { 238,-1550 }, { 239,-1550 }, { 240,-1550 }, { 241,-1550 }, { 242,-1550 },
- { 243,-1550 }, { 244,-1550 }, { 245,-1550 }, { 246,-1550 }, { 247,-1550 },
- { 248,-1550 }, { 249,-1550 }, { 250,-1550 }, { 251,-1550 }, { 252,-1550 },
- { 253,-1550 }, { 254,-1550 }, { 255,-1550 }, { 256,-1550 }, {   0,   0 },
- {   0,1669 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
-
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
- {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
- {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
- {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
-
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
- {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 }, {  94,   0 },
- {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
- { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
-
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
-
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
-
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1411 }, {   1,-258 },
- {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
- {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
- {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
- {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
-
- {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
- {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
- {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 },
- {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
- {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-1290 }, {  46,-258 },
- {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
- {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
- {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
- {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
- {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
-
- {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
- {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
- {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
- {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
- {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
- {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
- { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
- { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
- { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
- { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
-
- { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
- { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
- { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
- { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
- { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
- { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
- { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
- { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
- { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
- { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
-
- { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
- { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
- { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
- { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
- { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
- { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
- { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
- { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
- { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
- { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
-
- { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
- { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
- { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
- { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
- { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
- { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
- { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,1153 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 },
-
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 },
-
- {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
-
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
- {   0,   0 }, { 125, 522 }, {   0,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
-
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
-
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0, 895 },
- {   1,-14176 }, {   2,-14176 }, {   3,-14176 }, {   4,-14176 }, {   5,-14176 },
-
- {   6,-14176 }, {   7,-14176 }, {   8,-14176 }, {   9,-14201 }, {  10,-14201 },
- {  11,-14176 }, {  12,-14176 }, {  13,-14201 }, {  14,-14176 }, {  15,-14176 },
- {  16,-14176 }, {  17,-14176 }, {  18,-14176 }, {  19,-14176 }, {  20,-14176 },
- {  21,-14176 }, {  22,-14176 }, {  23,-14176 }, {  24,-14176 }, {  25,-14176 },
- {  26,-14176 }, {  27,-14176 }, {  28,-14176 }, {  29,-14176 }, {  30,-14176 },
- {  31,-14176 }, {  32,-14201 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-14176 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-14201 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-14176 },
- {  46,-14201 }, {  47,-14201 }, {  48,-14176 }, {  49,-14176 }, {  50,-14176 },
- {  51,-14176 }, {  52,-14176 }, {  53,-14176 }, {  54,-14176 }, {  55,-14176 },
-
- {  56,-14176 }, {  57,-14176 }, {  58,-14176 }, {   0,   0 }, {   0,   0 },
- {  61,-14201 }, {   0,   0 }, {  63,-14176 }, {   0,   0 }, {  65,-14176 },
- {  66,-14176 }, {  67,-14176 }, {  68,-14176 }, {  69,-14176 }, {  70,-14176 },
- {  71,-14176 }, {  72,-14176 }, {  73,-14176 }, {  74,-14176 }, {  75,-14176 },
- {  76,-14176 }, {  77,-14176 }, {  78,-14176 }, {  79,-14176 }, {  80,-14176 },
- {  81,-14176 }, {  82,-14176 }, {  83,-14176 }, {  84,-14176 }, {  85,-14176 },
- {  86,-14176 }, {  87,-14176 }, {  88,-14176 }, {  89,-14176 }, {  90,-14176 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-14176 },
- {   0,   0 }, {  97,-14176 }, {  98,-14176 }, {  99,-14176 }, { 100,-14176 },
- { 101, 345 }, { 102,-14176 }, { 103,-14176 }, { 104,-14176 }, { 105,-14176 },
-
- { 106,-14176 }, { 107,-14176 }, { 108,-14176 }, { 109,-14176 }, { 110,-14176 },
- { 111,-14176 }, { 112,-14176 }, { 113,-14176 }, { 114,-14176 }, { 115,-14176 },
- { 116,-14176 }, { 117,-14176 }, { 118,-14176 }, { 119,-14176 }, { 120,-14176 },
- { 121,-14176 }, { 122,-14176 }, {   0,   0 }, { 124,-14201 }, { 125,-14201 },
- { 126,-14201 }, { 127,-14176 }, { 128,-14176 }, { 129,-14176 }, { 130,-14176 },
- { 131,-14176 }, { 132,-14176 }, { 133,-14176 }, { 134,-14176 }, { 135,-14176 },
- { 136,-14176 }, { 137,-14176 }, { 138,-14176 }, { 139,-14176 }, { 140,-14176 },
- { 141,-14176 }, { 142,-14176 }, { 143,-14176 }, { 144,-14176 }, { 145,-14176 },
- { 146,-14176 }, { 147,-14176 }, { 148,-14176 }, { 149,-14176 }, { 150,-14176 },
- { 151,-14176 }, { 152,-14176 }, { 153,-14176 }, { 154,-14176 }, { 155,-14176 },
-
- { 156,-14176 }, { 157,-14176 }, { 158,-14176 }, { 159,-14176 }, { 160,-14176 },
- { 161,-14176 }, { 162,-14176 }, { 163,-14176 }, { 164,-14176 }, { 165,-14176 },
- { 166,-14176 }, { 167,-14176 }, { 168,-14176 }, { 169,-14176 }, { 170,-14176 },
- { 171,-14176 }, { 172,-14176 }, { 173,-14176 }, { 174,-14176 }, { 175,-14176 },
- { 176,-14176 }, { 177,-14176 }, { 178,-14176 }, { 179,-14176 }, { 180,-14176 },
- { 181,-14176 }, { 182,-14176 }, { 183,-14176 }, { 184,-14176 }, { 185,-14176 },
- { 186,-14176 }, { 187,-14176 }, { 188,-14176 }, { 189,-14176 }, { 190,-14176 },
- { 191,-14176 }, { 192,-14176 }, { 193,-14176 }, { 194,-14176 }, { 195,-14176 },
- { 196,-14176 }, { 197,-14176 }, { 198,-14176 }, { 199,-14176 }, { 200,-14176 },
- { 201,-14176 }, { 202,-14176 }, { 203,-14176 }, { 204,-14176 }, { 205,-14176 },
-
- { 206,-14176 }, { 207,-14176 }, { 208,-14176 }, { 209,-14176 }, { 210,-14176 },
- { 211,-14176 }, { 212,-14176 }, { 213,-14176 }, { 214,-14176 }, { 215,-14176 },
- { 216,-14176 }, { 217,-14176 }, { 218,-14176 }, { 219,-14176 }, { 220,-14176 },
- { 221,-14176 }, { 222,-14176 }, { 223,-14176 }, { 224,-14176 }, { 225,-14176 },
- { 226,-14176 }, { 227,-14176 }, { 228,-14176 }, { 229,-14176 }, { 230,-14176 },
- { 231,-14176 }, { 232,-14176 }, { 233,-14176 }, { 234,-14176 }, { 235,-14176 },
- { 236,-14176 }, { 237,-14176 }, { 238,-14176 }, { 239,-14176 }, { 240,-14176 },
- { 241,-14176 }, { 242,-14176 }, { 243,-14176 }, { 244,-14176 }, { 245,-14176 },
- { 246,-14176 }, { 247,-14176 }, { 248,-14176 }, { 249,-14176 }, { 250,-14176 },
- { 251,-14176 }, { 252,-14176 }, { 253,-14176 }, { 254,-14176 }, { 255,-14176 },
-
- { 256,-14176 }, {   0,  26 }, {   0, 637 }, {   0,  26 }, {   0, 635 },
- {   0,  26 }, {   0, 633 }, {   0,   0 }, {   0, 631 }, {   0,   0 },
- {   0,   0 }, {   9, 345 }, {  10, 345 }, {   0,   0 }, {   0,   0 },
- {  13, 345 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 616 }, {   0,   0 },
- {   0,   0 }, {   0, 613 }, {   0,  24 }, {   0, 611 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32, 345 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0, 584 }, {   0,   0 }, {   0, 582 }, {   0,  46 }, {   0, 580 },
- {   0,   9 }, {   0, 578 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 550 },
- {   1,-14521 }, {   2,-14521 }, {   3,-14521 }, {   4,-14521 }, {   5,-14521 },
- {   6,-14521 }, {   7,-14521 }, {   8,-14521 }, {   9,-14546 }, {  10,-14546 },
-
- {  11,-14521 }, {  12,-14521 }, {  13,-14546 }, {  14,-14521 }, {  15,-14521 },
- {  16,-14521 }, {  17,-14521 }, {  18,-14521 }, {  19,-14521 }, {  20,-14521 },
- {  21,-14521 }, {  22,-14521 }, {  23,-14521 }, {  24,-14521 }, {  25,-14521 },
- {  26,-14521 }, {  27,-14521 }, {  28,-14521 }, {  29,-14521 }, {  30,-14521 },
- {  31,-14521 }, {  32,-14546 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-14521 }, {   0,   0 }, { 125,  21 }, { 126,  24 }, { 125,  24 },
- {  41,-14546 }, { 125,  17 }, {   0,   0 }, { 125,  47 }, {  45,-14521 },
- {  46,-14546 }, {  47,-14546 }, {  48,-14521 }, {  49,-14521 }, {  50,-14521 },
- {  51,-14521 }, {  52,-14521 }, {  53,-14521 }, {  54,-14521 }, {  55,-14521 },
- {  56,-14521 }, {  57,-14521 }, {  58,-14521 }, { 125,   5 }, {   0,   0 },
-
- {  61,-14546 }, { 125,  -3 }, {  63,-14521 }, {   0,   0 }, {  65,-14521 },
- {  66,-14521 }, {  67,-14521 }, {  68,-14521 }, {  69,-14521 }, {  70,-14521 },
- {  71,-14521 }, {  72,-14521 }, {  73,-14521 }, {  74,-14521 }, {  75,-14521 },
- {  76,-14521 }, {  77,-14521 }, {  78,-14521 }, {  79,-14521 }, {  80,-14521 },
- {  81,-14521 }, {  82,-14521 }, {  83,-14521 }, {  84,-14521 }, {  85,-14521 },
- {  86,-14521 }, {  87,-14521 }, {  88,-14521 }, {  89,-14521 }, {  90,-14521 },
- { 125,   2 }, {   0,   0 }, { 125,   4 }, {   0,   0 }, {  95,-14521 },
- {   0,   0 }, {  97,-14521 }, {  98,-14521 }, {  99,-14521 }, { 100, 292 },
- { 101,-14521 }, { 102,-14521 }, { 103,-14521 }, { 104,-14521 }, { 105,-14521 },
- { 106,-14521 }, { 107,-14521 }, { 108,-14521 }, { 109,-14521 }, { 110,-14521 },
-
- { 111,-14521 }, { 112,-14521 }, { 113,-14521 }, { 114,-14521 }, { 115,-14521 },
- { 116,-14521 }, { 117,-14521 }, { 118,-14521 }, { 119,-14521 }, { 120,-14521 },
- { 121,-14521 }, { 122,-14521 }, {   0,   0 }, { 124,-14546 }, { 125,-14546 },
- { 126,-14546 }, { 127,-14521 }, { 128,-14521 }, { 129,-14521 }, { 130,-14521 },
- { 131,-14521 }, { 132,-14521 }, { 133,-14521 }, { 134,-14521 }, { 135,-14521 },
- { 136,-14521 }, { 137,-14521 }, { 138,-14521 }, { 139,-14521 }, { 140,-14521 },
- { 141,-14521 }, { 142,-14521 }, { 143,-14521 }, { 144,-14521 }, { 145,-14521 },
- { 146,-14521 }, { 147,-14521 }, { 148,-14521 }, { 149,-14521 }, { 150,-14521 },
- { 151,-14521 }, { 152,-14521 }, { 153,-14521 }, { 154,-14521 }, { 155,-14521 },
- { 156,-14521 }, { 157,-14521 }, { 158,-14521 }, { 159,-14521 }, { 160,-14521 },
-
- { 161,-14521 }, { 162,-14521 }, { 163,-14521 }, { 164,-14521 }, { 165,-14521 },
- { 166,-14521 }, { 167,-14521 }, { 168,-14521 }, { 169,-14521 }, { 170,-14521 },
- { 171,-14521 }, { 172,-14521 }, { 173,-14521 }, { 174,-14521 }, { 175,-14521 },
- { 176,-14521 }, { 177,-14521 }, { 178,-14521 }, { 179,-14521 }, { 180,-14521 },
- { 181,-14521 }, { 182,-14521 }, { 183,-14521 }, { 184,-14521 }, { 185,-14521 },
- { 186,-14521 }, { 187,-14521 }, { 188,-14521 }, { 189,-14521 }, { 190,-14521 },
- { 191,-14521 }, { 192,-14521 }, { 193,-14521 }, { 194,-14521 }, { 195,-14521 },
- { 196,-14521 }, { 197,-14521 }, { 198,-14521 }, { 199,-14521 }, { 200,-14521 },
- { 201,-14521 }, { 202,-14521 }, { 203,-14521 }, { 204,-14521 }, { 205,-14521 },
- { 206,-14521 }, { 207,-14521 }, { 208,-14521 }, { 209,-14521 }, { 210,-14521 },
-
- { 211,-14521 }, { 212,-14521 }, { 213,-14521 }, { 214,-14521 }, { 215,-14521 },
- { 216,-14521 }, { 217,-14521 }, { 218,-14521 }, { 219,-14521 }, { 220,-14521 },
- { 221,-14521 }, { 222,-14521 }, { 223,-14521 }, { 224,-14521 }, { 225,-14521 },
- { 226,-14521 }, { 227,-14521 }, { 228,-14521 }, { 229,-14521 }, { 230,-14521 },
- { 231,-14521 }, { 232,-14521 }, { 233,-14521 }, { 234,-14521 }, { 235,-14521 },
- { 236,-14521 }, { 237,-14521 }, { 238,-14521 }, { 239,-14521 }, { 240,-14521 },
- { 241,-14521 }, { 242,-14521 }, { 243,-14521 }, { 244,-14521 }, { 245,-14521 },
- { 246,-14521 }, { 247,-14521 }, { 248,-14521 }, { 249,-14521 }, { 250,-14521 },
- { 251,-14521 }, { 252,-14521 }, { 253,-14521 }, { 254,-14521 }, { 255,-14521 },
- { 256,-14521 }, {   0,   0 }, {   0, 292 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
- {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0, 258 }, {   1,-14813 }, {   2,-14813 }, {   3,-14813 },
- {   4,-14813 }, {   5,-14813 }, {   6,-14813 }, {   7,-14813 }, {   8,-14813 },
- {   9,-322 }, {  10,-322 }, {  11,-14813 }, {  12,-14813 }, {  13,-322 },
- {  14,-14813 }, {  15,-14813 }, {  16,-14813 }, {  17,-14813 }, {  18,-14813 },
-
- {  19,-14813 }, {  20,-14813 }, {  21,-14813 }, {  22,-14813 }, {  23,-14813 },
- {  24,-14813 }, {  25,-14813 }, {  26,-14813 }, {  27,-14813 }, {  28,-14813 },
- {  29,-14813 }, {  30,-14813 }, {  31,-14813 }, {  32,-322 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-14813 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-322 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-14813 }, {  46,-14838 }, {  47,-14838 }, {  48,-14813 },
- {  49,-14813 }, {  50,-14813 }, {  51,-14813 }, {  52,-14813 }, {  53,-14813 },
- {  54,-14813 }, {  55,-14813 }, {  56,-14813 }, {  57,-14813 }, {  58,-14813 },
- {   0,   0 }, {   0,   0 }, {  61,-14838 }, {   0,   0 }, {  63,-14813 },
- {   0,   0 }, {  65,-14813 }, {  66,-14813 }, {  67,-14813 }, {  68,-14813 },
-
- {  69,-14813 }, {  70,-14813 }, {  71,-14813 }, {  72,-14813 }, {  73,-14813 },
- {  74,-14813 }, {  75,-14813 }, {  76,-14813 }, {  77,-14813 }, {  78,-14813 },
- {  79,-14813 }, {  80,-14813 }, {  81,-14813 }, {  82,-14813 }, {  83,-14813 },
- {  84,-14813 }, {  85,-14813 }, {  86,-14813 }, {  87,-14813 }, {  88,-14813 },
- {  89,-14813 }, {  90,-14813 }, { 125,-324 }, { 126,-321 }, {   0,   0 },
- {   0,   0 }, {  95,-14813 }, {   0,   0 }, {  97,-14813 }, {  98,-14813 },
- {  99,-14813 }, { 100,-14813 }, { 101,-14813 }, { 102,-14813 }, { 103,-14813 },
- { 104,-14813 }, { 105,-14813 }, { 106,-14813 }, { 107,-14813 }, { 108,-14813 },
- { 109,-14813 }, { 110,-14813 }, { 111,-14813 }, { 112,-14813 }, { 113,-14813 },
- { 114,-14813 }, { 115,-14813 }, { 116,-14813 }, { 117,-14813 }, { 118,-14813 },
-
- { 119,-14813 }, { 120,-14813 }, { 121,-14813 }, { 122,-14813 }, {   0,   0 },
- { 124,-14838 }, { 125,-322 }, { 126,-322 }, { 127,-14813 }, { 128,-14813 },
- { 129,-14813 }, { 130,-14813 }, { 131,-14813 }, { 132,-14813 }, { 133,-14813 },
- { 134,-14813 }, { 135,-14813 }, { 136,-14813 }, { 137,-14813 }, { 138,-14813 },
- { 139,-14813 }, { 140,-14813 }, { 141,-14813 }, { 142,-14813 }, { 143,-14813 },
- { 144,-14813 }, { 145,-14813 }, { 146,-14813 }, { 147,-14813 }, { 148,-14813 },
- { 149,-14813 }, { 150,-14813 }, { 151,-14813 }, { 152,-14813 }, { 153,-14813 },
- { 154,-14813 }, { 155,-14813 }, { 156,-14813 }, { 157,-14813 }, { 158,-14813 },
- { 159,-14813 }, { 160,-14813 }, { 161,-14813 }, { 162,-14813 }, { 163,-14813 },
- { 164,-14813 }, { 165,-14813 }, { 166,-14813 }, { 167,-14813 }, { 168,-14813 },
-
- { 169,-14813 }, { 170,-14813 }, { 171,-14813 }, { 172,-14813 }, { 173,-14813 },
- { 174,-14813 }, { 175,-14813 }, { 176,-14813 }, { 177,-14813 }, { 178,-14813 },
- { 179,-14813 }, { 180,-14813 }, { 181,-14813 }, { 182,-14813 }, { 183,-14813 },
- { 184,-14813 }, { 185,-14813 }, { 186,-14813 }, { 187,-14813 }, { 188,-14813 },
- { 189,-14813 }, { 190,-14813 }, { 191,-14813 }, { 192,-14813 }, { 193,-14813 },
- { 194,-14813 }, { 195,-14813 }, { 196,-14813 }, { 197,-14813 }, { 198,-14813 },
- { 199,-14813 }, { 200,-14813 }, { 201,-14813 }, { 202,-14813 }, { 203,-14813 },
- { 204,-14813 }, { 205,-14813 }, { 206,-14813 }, { 207,-14813 }, { 208,-14813 },
- { 209,-14813 }, { 210,-14813 }, { 211,-14813 }, { 212,-14813 }, { 213,-14813 },
- { 214,-14813 }, { 215,-14813 }, { 216,-14813 }, { 217,-14813 }, { 218,-14813 },
-
- { 219,-14813 }, { 220,-14813 }, { 221,-14813 }, { 222,-14813 }, { 223,-14813 },
- { 224,-14813 }, { 225,-14813 }, { 226,-14813 }, { 227,-14813 }, { 228,-14813 },
- { 229,-14813 }, { 230,-14813 }, { 231,-14813 }, { 232,-14813 }, { 233,-14813 },
- { 234,-14813 }, { 235,-14813 }, { 236,-14813 }, { 237,-14813 }, { 238,-14813 },
- { 239,-14813 }, { 240,-14813 }, { 241,-14813 }, { 242,-14813 }, { 243,-14813 },
- { 244,-14813 }, { 245,-14813 }, { 246,-14813 }, { 247,-14813 }, { 248,-14813 },
- { 249,-14813 }, { 250,-14813 }, { 251,-14813 }, { 252,-14813 }, { 253,-14813 },
- { 254,-14813 }, { 255,-14813 }, { 256,-14813 }, { 257,  53 }, {   1,   0 },
-    };
-
-static const struct yy_trans_info *yy_start_state_list[13] =
-    {
-    &yy_transition[1],
-    &yy_transition[3],
-    &yy_transition[261],
-    &yy_transition[519],
-    &yy_transition[777],
-    &yy_transition[1035],
-    &yy_transition[1293],
-    &yy_transition[1551],
-    &yy_transition[1809],
-    &yy_transition[2067],
-    &yy_transition[2325],
-    &yy_transition[2583],
-    &yy_transition[2841],
+static const flex_int32_t yy_accept[187] =
+    {   0,
+        2,    2,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,   53,    2,    2,    6,    6,    2,   51,   36,
+       36,   51,   51,   51,   15,   16,   51,   35,   35,   51,
+       32,   41,   51,   51,   51,   51,   51,   51,   51,   43,
+       51,   51,    7,   52,   14,   14,   14,   14,   10,   11,
+        2,    2,    0,    0,    0,    5,    0,   49,   36,    0,
+       39,    0,    0,   40,    0,    0,   34,   33,   48,   49,
+        0,    0,   50,    0,    0,    0,    0,    0,   31,   38,
+        0,    0,    0,    0,    0,    0,    0,   13,   10,    0,
+        0,    0,    4,    5,   39,   40,    0,   50,   49,    0,
+
+        0,    0,    0,    0,   30,   21,   28,   31,   22,   19,
+       25,    0,   27,   31,   37,    0,   38,    0,    0,    0,
+        0,    0,    0,    1,    4,    4,    4,   48,    0,   42,
+        0,    0,    0,    0,    0,   21,   20,    0,    0,    0,
+        0,   17,   27,   18,   37,    0,    0,    0,   12,    0,
+        1,    1,    0,   47,   44,    0,   29,   23,    0,    0,
+        0,    8,    0,    1,   45,    0,    0,    0,    0,    0,
+        0,   26,   26,   26,   26,    0,    0,    0,    0,    0,
+       24,    0,    0,    0,   46,    9
     } ;
 
 /* Table of booleans, true if rule could match eol. */
@@ -5783,6 +6545,30 @@ static const flex_int32_t yy_rule_can_match_eol[53] =
     0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 
     1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
 
+static const yy_state_type yy_NUL_trans[187] =
+    {   0,
+       14,   14,   19,   19,   43,   43,   45,   45,   47,   47,
+       49,   49,    0,   51,    0,    0,    0,   51,   57,    0,
+        0,    0,   60,   63,    0,    0,   57,    0,    0,   57,
+        0,    0,   71,   57,   57,   57,   57,   57,    0,    0,
+        0,    0,    0,    0,   83,   83,   86,   86,   89,    0,
+       51,    0,    0,    0,    0,    0,   57,    0,    0,   60,
+        0,   60,   63,    0,   63,   57,    0,    0,    0,    0,
+       71,   71,    0,   57,   57,   57,   57,   57,    0,    0,
+        0,    0,   83,   83,  118,   86,   86,    0,   89,    0,
+        0,    0,  125,    0,   60,   63,    0,   71,    0,   57,
+
+       57,   57,   57,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,  146,  118,  118,
+      118,    0,    0,    0,  125,    0,  125,    0,    0,    0,
+       57,   57,   57,   57,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,  146,  146,  160,    0,  162,
+        0,    0,   57,    0,    0,   57,    0,    0,    0,  168,
+      118,    0,  170,    0,    0,   57,  172,  168,  168,  170,
+       57,    0,    0,    0,    0,    0,   57,    0,    0,    0,
+        0,    0,   57,    0,    0,    0
+    } ;
+
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
  */
@@ -5809,6 +6595,8 @@ static const flex_int32_t yy_rule_can_match_eol[53] =
  */
 #line 19 "handlebars.l"
 
+/* Not for flex --fast: its tables are read past their end behind a NUL byte. */
+
 #ifdef HAVE_CONFIG_H
 #include "config.h"
 #endif
@@ -5883,9 +6671,9 @@ static const flex_int32_t yy_rule_can_match_eol[53] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5886 "handlebars.lex.c"
+#line 6675 "handlebars.lex.c"
 
-#line 5888 "handlebars.lex.c"
+#line 6677 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -6164,11 +6952,11 @@ YY_DECL
 		}
 
 	{
-#line 141 "handlebars.l"
+#line 143 "handlebars.l"
 
 
 
-#line 6171 "handlebars.lex.c"
+#line 6960 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -6182,30 +6970,23 @@ YY_DECL
 		 */
 		yy_bp = yy_cp;
 
-		yy_current_state = yy_start_state_list[yyg->yy_start];
+		yy_current_state = yyg->yy_start;
 yy_match:
-		{
-		const struct yy_trans_info *yy_trans_info;
-
-		YY_CHAR yy_c;
-
-		for ( yy_c = YY_SC_TO_UI(*yy_cp);
-		      (yy_trans_info = &yy_current_state[yy_c])->
-		yy_verify == yy_c;
-		      yy_c = YY_SC_TO_UI(*++yy_cp) )
+		while ( (yy_current_state = yy_nxt[yy_current_state][ YY_SC_TO_UI(*yy_cp) ]) > 0 )
 			{
-			yy_current_state += yy_trans_info->yy_nxt;
-
-			if ( yy_current_state[-1].yy_nxt )
+			if ( yy_accept[yy_current_state] )
 				{
 				yyg->yy_last_accepting_state = yy_current_state;
 				yyg->yy_last_accepting_cpos = yy_cp;
 				}
+
+			++yy_cp;
 			}
-		}
+
+		yy_current_state = -yy_current_state;
 
 yy_find_action:
-		yy_act = yy_current_state[-1].yy_nxt;
+		yy_act = yy_accept[yy_current_state];
 
 		YY_DO_BEFORE_ACTION;
 
@@ -6235,7 +7016,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 144 "handlebars.l"
+#line 146 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -6248,7 +7029,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 153 "handlebars.l"
+#line 155 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -6257,7 +7038,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 159 "handlebars.l"
+#line 161 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -6272,7 +7053,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 170 "handlebars.l"
+#line 172 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -6283,7 +7064,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 178 "handlebars.l"
+#line 180 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -6292,7 +7073,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 184 "handlebars.l"
+#line 186 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -6300,7 +7081,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 189 "handlebars.l"
+#line 191 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -6314,7 +7095,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 195 "handlebars.l"
+#line 197 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -6323,7 +7104,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 201 "handlebars.l"
+#line 203 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -6341,7 +7122,7 @@ YY_RULE_SETUP
 case 10:
 /* rule 10 can match eol */
 YY_RULE_SETUP
-#line 215 "handlebars.l"
+#line 217 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -6350,7 +7131,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 221 "handlebars.l"
+#line 223 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -6359,7 +7140,7 @@ YY_RULE_SETUP
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 226 "handlebars.l"
+#line 228 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -6372,7 +7153,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 235 "handlebars.l"
+#line 237 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -6383,14 +7164,14 @@ YY_RULE_SETUP
 case 14:
 /* rule 14 can match eol */
 YY_RULE_SETUP
-#line 242 "handlebars.l"
+#line 244 "handlebars.l"
 {
 										return INVALID;
 									}
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 246 "handlebars.l"
+#line 248 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
@@ -6399,7 +7180,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 252 "handlebars.l"
+#line 254 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
@@ -6408,7 +7189,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 258 "handlebars.l"
+#line 260 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
@@ -6417,7 +7198,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 264 "handlebars.l"
+#line 266 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -6428,7 +7209,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 272 "handlebars.l"
+#line 274 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
@@ -6437,7 +7218,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 278 "handlebars.l"
+#line 280 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -6446,7 +7227,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 284 "handlebars.l"
+#line 286 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
@@ -6455,7 +7236,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 290 "handlebars.l"
+#line 292 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
@@ -6465,7 +7246,7 @@ YY_RULE_SETUP
 case 23:
 /* rule 23 can match eol */
 YY_RULE_SETUP
-#line 296 "handlebars.l"
+#line 298 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -6476,7 +7257,7 @@ YY_RULE_SETUP
 case 24:
 /* rule 24 can match eol */
 YY_RULE_SETUP
-#line 303 "handlebars.l"
+#line 305 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -6486,7 +7267,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 310 "handlebars.l"
+#line 312 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
@@ -6500,7 +7281,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 316 "handlebars.l"
+#line 318 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
@@ -6509,7 +7290,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 322 "handlebars.l"
+#line 324 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
@@ -6518,7 +7299,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 328 "handlebars.l"
+#line 330 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
@@ -6527,7 +7308,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 334 "handlebars.l"
+#line 336 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -6537,7 +7318,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 341 "handlebars.l"
+#line 343 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -6547,7 +7328,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 348 "handlebars.l"
+#line 350 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
@@ -6556,7 +7337,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 354 "handlebars.l"
+#line 356 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -6565,7 +7346,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 360 "handlebars.l"
+#line 362 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
@@ -6579,7 +7360,7 @@ YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 366 "handlebars.l"
+#line 368 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
@@ -6588,7 +7369,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 372 "handlebars.l"
+#line 374 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
@@ -6598,7 +7379,7 @@ YY_RULE_SETUP
 case 36:
 /* rule 36 can match eol */
 YY_RULE_SETUP
-#line 378 "handlebars.l"
+#line 380 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
@@ -6606,7 +7387,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 383 "handlebars.l"
+#line 385 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -6616,7 +7397,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 390 "handlebars.l"
+#line 392 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -6627,7 +7408,7 @@ YY_RULE_SETUP
 case 39:
 /* rule 39 can match eol */
 YY_RULE_SETUP
-#line 397 "handlebars.l"
+#line 399 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -6640,7 +7421,7 @@ YY_RULE_SETUP
 case 40:
 /* rule 40 can match eol */
 YY_RULE_SETUP
-#line 406 "handlebars.l"
+#line 408 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -6652,7 +7433,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 415 "handlebars.l"
+#line 417 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
@@ -6662,7 +7443,7 @@ YY_RULE_SETUP
 case 42:
 /* rule 42 can match eol */
 YY_RULE_SETUP
-#line 421 "handlebars.l"
+#line 423 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
@@ -6671,7 +7452,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 427 "handlebars.l"
+#line 429 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
@@ -6685,7 +7466,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 433 "handlebars.l"
+#line 435 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
@@ -6699,7 +7480,7 @@ YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 439 "handlebars.l"
+#line 441 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
@@ -6713,7 +7494,7 @@ YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 445 "handlebars.l"
+#line 447 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
@@ -6727,7 +7508,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 451 "handlebars.l"
+#line 453 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
@@ -6741,7 +7522,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 457 "handlebars.l"
+#line 459 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
@@ -6755,7 +7536,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 464 "handlebars.l"
+#line 466 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
@@ -6765,7 +7546,7 @@ YY_RULE_SETUP
 case 50:
 /* rule 50 can match eol */
 YY_RULE_SETUP
-#line 470 "handlebars.l"
+#line 472 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -6778,7 +7559,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 480 "handlebars.l"
+#line 482 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6791,7 +7572,7 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 486 "handlebars.l"
+#line 488 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
@@ -6799,10 +7580,10 @@ case YY_STATE_EOF(raw):
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 491 "handlebars.l"
+#line 493 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6805 "handlebars.lex.c"
+#line 7587 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7086,12 +7867,17 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	char *yy_cp;
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
-	yy_current_state = yy_start_state_list[yyg->yy_start];
+	yy_current_state = yyg->yy_start;
 
 	for ( yy_cp = yyg->yytext_ptr + YY_MORE_ADJ; yy_cp < yyg->yy_c_buf_p; ++yy_cp )
 		{
-		yy_current_state += yy_current_state[(*yy_cp ? YY_SC_TO_UI(*yy_cp) : 256)].yy_nxt;
-		if ( yy_current_state[-1].yy_nxt )
+		if ( *yy_cp )
+			{
+			yy_current_state = yy_nxt[yy_current_state][YY_SC_TO_UI(*yy_cp)];
+			}
+		else
+			yy_current_state = yy_NUL_trans[yy_current_state];
+		if ( yy_accept[yy_current_state] )
 			{
 			yyg->yy_last_accepting_state = yy_current_state;
 			yyg->yy_last_accepting_cpos = yy_cp;
@@ -7112,16 +7898,12 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner; /* This var may be unused depending upon options. */
 	char *yy_cp = yyg->yy_c_buf_p;
 
-	int yy_c = 256;
-	const struct yy_trans_info *yy_trans_info;
-
-	yy_trans_info = &yy_current_state[(unsigned int) yy_c];
-	yy_current_state += yy_trans_info->yy_nxt;
-	yy_is_jam = (yy_trans_info->yy_verify != yy_c);
+	yy_current_state = yy_NUL_trans[yy_current_state];
+	yy_is_jam = (yy_current_state == 0);
 
 	if ( ! yy_is_jam )
 		{
-		if ( yy_current_state[-1].yy_nxt )
+		if ( yy_accept[yy_current_state] )
 			{
 			yyg->yy_last_accepting_state = yy_current_state;
 			yyg->yy_last_accepting_cpos = yy_cp;
@@ -8010,6 +8792,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 491 "handlebars.l"
+#line 493 "handlebars.l"
 
 
-- 
2.43.0


From 126db07d7e2a722c68d303923ba384a5d4f06083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 47/99] fix: partial blocks and raw blocks get the same
 whitespace treatment as blocks

~ and standalone lines were ignored in and around partial blocks, and a
standalone raw block kept the rest of its opening line.
---
 src/handlebars_whitespace.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index 3838b18..16bf10d 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -189,6 +189,14 @@ bool handlebars_whitespace_omit_right(struct handlebars_ast_list * statements,
 
 
 
+// These all use struct handlebars_ast_node_block
+static inline bool handlebars_whitespace_has_programs(struct handlebars_ast_node * node)
+{
+    return node->type == HANDLEBARS_AST_NODE_BLOCK
+        || node->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK
+        || node->type == HANDLEBARS_AST_NODE_RAW_BLOCK;
+}
+
 static inline void handlebars_whitespace_accept_program(struct handlebars_parser * parser,
         struct handlebars_ast_node * program)
 {
@@ -253,7 +261,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
             }
         }
         if( do_standalone && open_standalone ) {
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
+            if( handlebars_whitespace_has_programs(current) ) {
                 if( current->node.block.program ) {
                     assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_right(current->node.block.program->node.program.statements, NULL, 0);
@@ -266,7 +274,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
         }
         if( do_standalone && close_standalone ) {
             handlebars_whitespace_omit_right(statements, current, 0);
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
+            if( handlebars_whitespace_has_programs(current) ) {
                 if( current->node.block.inverse ) {
                     assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_left(current->node.block.inverse->node.program.statements, NULL, 0);
@@ -488,6 +496,7 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
 
     switch( node->type ) {
         case HANDLEBARS_AST_NODE_BLOCK:
+        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
             return handlebars_whitespace_accept_block(parser, node);
         case HANDLEBARS_AST_NODE_MUSTACHE:
             return handlebars_whitespace_accept_mustache(parser, node);
@@ -506,7 +515,6 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
         case HANDLEBARS_AST_NODE_CONTENT:
         case HANDLEBARS_AST_NODE_HASH:
         case HANDLEBARS_AST_NODE_HASH_PAIR:
-        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
         case HANDLEBARS_AST_NODE_NUL:
         case HANDLEBARS_AST_NODE_NUMBER:
         case HANDLEBARS_AST_NODE_PATH:
-- 
2.43.0


From 8eb1e4fe04936ffa822f5ca5d81742e730f4d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:49 +0000
Subject: [PATCH 48/99] fix: ~ next to an empty block

The empty program has no statements, which whitespace control dereferenced.
---
 src/handlebars_whitespace.c | 8 ++++++++
 src/handlebars_whitespace.h | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index 16bf10d..80d2891 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -114,6 +114,10 @@ bool handlebars_whitespace_omit_left(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return false;
+    }
+
     if( statement == NULL ) {
         current = statements->last ? statements->last->data : NULL;
     } else {
@@ -151,6 +155,10 @@ bool handlebars_whitespace_omit_right(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return false;
+    }
+
     if( statement == NULL ) {
         current = statements->first ? statements->first->data : NULL;
     } else {
diff --git a/src/handlebars_whitespace.h b/src/handlebars_whitespace.h
index 6df8627..20821ec 100644
--- a/src/handlebars_whitespace.h
+++ b/src/handlebars_whitespace.h
@@ -49,13 +49,13 @@ bool handlebars_whitespace_omit_left(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 bool handlebars_whitespace_omit_right(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 void handlebars_whitespace_accept(
     struct handlebars_parser * parser,
-- 
2.43.0


From c46024c185ca409985684795ca687879ab0ddc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:58 +0000
Subject: [PATCH 49/99] fix: accept an empty template

---
 src/handlebars.tab.c | 760 ++++++++++++++++++++++---------------------
 src/handlebars.y     |   5 +
 2 files changed, 395 insertions(+), 370 deletions(-)

diff --git a/src/handlebars.tab.c b/src/handlebars.tab.c
index af1591c..24ce550 100644
--- a/src/handlebars.tab.c
+++ b/src/handlebars.tab.c
@@ -542,18 +542,18 @@ union yyalloc
 #endif /* !YYCOPY_NEEDED */
 
 /* YYFINAL -- State number of the termination state.  */
-#define YYFINAL  50
+#define YYFINAL  51
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   283
+#define YYLAST   330
 
 /* YYNTOKENS -- Number of terminals.  */
 #define YYNTOKENS  36
 /* YYNNTS -- Number of nonterminals.  */
 #define YYNNTS  34
 /* YYNRULES -- Number of rules.  */
-#define YYNRULES  80
+#define YYNRULES  81
 /* YYNSTATES -- Number of states.  */
-#define YYNSTATES  125
+#define YYNSTATES  126
 
 /* YYMAXUTOK -- Last valid token kind.  */
 #define YYMAXUTOK   290
@@ -606,15 +606,15 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   188,   188,   196,   199,   206,   210,   217,   220,   223,
-     226,   229,   232,   235,   242,   252,   256,   262,   265,   271,
-     277,   280,   283,   286,   292,   296,   300,   307,   315,   322,
-     329,   332,   335,   338,   341,   347,   351,   360,   367,   371,
-     378,   382,   386,   390,   397,   400,   406,   410,   414,   418,
-     425,   429,   436,   439,   445,   451,   456,   460,   463,   466,
-     469,   475,   483,   487,   494,   500,   504,   511,   514,   517,
-     520,   523,   526,   529,   532,   538,   541,   547,   553,   559,
-     565
+       0,   188,   188,   193,   201,   204,   211,   215,   222,   225,
+     228,   231,   234,   237,   240,   247,   257,   261,   267,   270,
+     276,   282,   285,   288,   291,   297,   301,   305,   312,   320,
+     327,   334,   337,   340,   343,   346,   352,   356,   365,   372,
+     376,   383,   387,   391,   395,   402,   405,   411,   415,   419,
+     423,   430,   434,   441,   444,   450,   456,   461,   465,   468,
+     471,   474,   480,   488,   492,   499,   505,   509,   516,   519,
+     522,   525,   528,   531,   534,   537,   543,   546,   552,   558,
+     564,   570
 };
 #endif
 
@@ -653,7 +653,7 @@ yysymbol_name (yysymbol_kind_t yysymbol)
 }
 #endif
 
-#define YYPACT_NINF (-57)
+#define YYPACT_NINF (-58)
 
 #define yypact_value_is_default(Yyn) \
   ((Yyn) == YYPACT_NINF)
@@ -667,19 +667,19 @@ yysymbol_name (yysymbol_kind_t yysymbol)
    STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-     231,   -57,    13,   150,   150,   150,   124,   150,   150,   124,
-     -57,   -57,    24,    27,   250,   -57,   -57,   -57,     3,   -57,
-     174,   174,   -57,   -57,   -57,   212,   -57,   -57,    15,   -57,
-     -57,   -57,   -57,   -57,   -57,    32,   146,   -57,   -57,     6,
-      33,     9,    35,   150,   -57,   -57,    54,    36,    41,    87,
-     -57,   -57,   -57,   -57,    31,   231,   150,   150,     2,    40,
-     193,   -57,   -57,   -57,    40,   -57,    40,   -57,     6,   -57,
-      43,   146,   -57,   -57,   -57,    47,   -57,   -57,    49,   -57,
-      50,   -57,   -57,    60,   -57,    91,    64,   -57,   -57,   -57,
-     120,    65,   -57,   -57,    67,    68,   -57,   -57,     2,   -57,
-     -57,   -57,   124,   -57,   -57,    43,   -57,   -57,     8,   -57,
-     -57,    69,   -57,   -57,    70,   -57,   -57,   -57,   -57,   -57,
-      48,   -57,   -57,   -57,   -57
+      68,   -58,   -58,     5,   200,   200,   200,   167,   200,   200,
+     167,   -58,   -58,    21,    22,   297,   -58,   -58,   -58,    26,
+     -58,   221,   221,   -58,   -58,   -58,   259,   -58,   -58,    11,
+     -58,   -58,   -58,   -58,   -58,   -58,    24,   181,   -58,   -58,
+      14,    27,     7,    34,   200,   -58,   -58,    94,    36,    35,
+     108,   -58,   -58,   -58,   -58,    37,   278,   200,   200,     2,
+      39,   240,   -58,   -58,   -58,    39,   -58,    39,   -58,    14,
+     -58,    43,   181,   -58,   -58,   -58,    46,   -58,   -58,    47,
+     -58,    48,   -58,   -58,    50,   -58,   134,    59,   -58,   -58,
+     -58,   148,    60,   -58,   -58,    62,    63,   -58,   -58,     2,
+     -58,   -58,   -58,   167,   -58,   -58,    43,   -58,   -58,    -1,
+     -58,   -58,    65,   -58,   -58,    66,   -58,   -58,   -58,   -58,
+     -58,    44,   -58,   -58,   -58,   -58
 };
 
 /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
@@ -687,37 +687,37 @@ static const yytype_int16 yypact[] =
    means the default is an error.  */
 static const yytype_int8 yydefact[] =
 {
-       0,    13,    16,     0,     0,     0,     0,     0,     0,     0,
-      14,     4,     0,     0,     3,     5,    12,     9,     0,     8,
-       0,     0,     7,    10,    11,     0,    15,    72,     0,    80,
-      71,    69,    74,    73,    70,     0,    60,    68,    67,    78,
-       0,    56,     0,     0,    76,    75,     0,     0,     0,     0,
-       1,     2,     6,    18,     0,    36,     0,     0,    26,     0,
-      33,    24,    34,    21,     0,    23,     0,    45,    77,    38,
-      80,    59,    50,    53,    58,    61,    63,    52,     0,    27,
-       0,    55,    28,     0,    43,     0,     0,    19,    39,    49,
-       0,     0,    17,    35,     0,     0,    25,    20,    32,    31,
-      22,    44,     0,    51,    57,     0,    62,    79,     0,    54,
-      41,     0,    42,    47,     0,    48,    37,    29,    30,    64,
-       0,    66,    40,    46,    65
+       0,     3,    14,    17,     0,     0,     0,     0,     0,     0,
+       0,    15,     5,     0,     0,     4,     6,    13,    10,     0,
+       9,     0,     0,     8,    11,    12,     0,    16,    73,     0,
+      81,    72,    70,    75,    74,    71,     0,    61,    69,    68,
+      79,     0,    57,     0,     0,    77,    76,     0,     0,     0,
+       0,     1,     2,     7,    19,     0,    37,     0,     0,    27,
+       0,    34,    25,    35,    22,     0,    24,     0,    46,    78,
+      39,    81,    60,    51,    54,    59,    62,    64,    53,     0,
+      28,     0,    56,    29,     0,    44,     0,     0,    20,    40,
+      50,     0,     0,    18,    36,     0,     0,    26,    21,    33,
+      32,    23,    45,     0,    52,    58,     0,    63,    80,     0,
+      55,    42,     0,    43,    48,     0,    49,    38,    30,    31,
+      65,     0,    67,    41,    47,    66
 };
 
 /* YYPGOTO[NTERM-NUM].  */
 static const yytype_int8 yypgoto[] =
 {
-     -57,   -57,     1,   -57,    62,     7,   -57,   -57,   -57,    57,
-     -57,   -57,   -57,   -53,   -57,   -15,   -57,   -57,   -57,   -57,
-     -30,   -56,    14,    -3,    10,   -38,   -57,    11,   -57,    -6,
-      72,   -57,   -57,    55
+     -58,   -58,     1,   -58,    57,     6,   -58,   -58,   -58,    51,
+     -58,   -58,   -58,   -54,   -58,   -16,   -58,   -58,   -58,   -58,
+     -31,   -57,    13,    -4,     9,   -39,   -58,    -2,   -58,    -7,
+      70,   -58,   -58,    49
 };
 
 /* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int8 yydefgoto[] =
 {
-       0,    12,    58,    14,    15,    16,    17,    18,    19,    59,
-      20,    21,    60,    61,    62,    63,    22,    23,    24,    25,
-      71,    72,    73,    40,    41,    74,    75,    76,    81,    36,
-      46,    37,    38,    39
+       0,    13,    59,    15,    16,    17,    18,    19,    20,    60,
+      21,    22,    61,    62,    63,    64,    23,    24,    25,    26,
+      72,    73,    74,    41,    42,    75,    76,    77,    82,    37,
+      47,    38,    39,    40
 };
 
 /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
@@ -725,115 +725,125 @@ static const yytype_int8 yydefgoto[] =
    number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int8 yytable[] =
 {
-      45,    13,    42,    45,    47,    96,    65,    99,    86,    26,
-      67,    91,     2,    35,    53,   103,    85,    55,    48,    90,
-      44,   120,     2,    44,    50,    54,    66,    51,    29,   103,
-      77,    78,    57,   104,   103,   121,    69,    79,    80,    82,
-      77,    87,    92,    77,    97,   118,   119,   111,    88,   100,
-      94,   101,   114,    83,    95,   102,    93,    27,    84,    56,
-     105,    98,   107,   108,    28,    77,   109,    70,   112,   115,
-      30,   116,   117,   122,   123,   124,    52,    43,    64,    77,
-      31,    49,    32,    68,    77,    33,   106,     0,    34,     0,
-      27,    89,     0,     0,    27,   110,    77,    28,     0,     0,
-      70,    28,     0,    30,    70,     0,     0,    30,     0,     0,
-      43,     0,     0,    31,    43,    32,     0,    31,    33,    32,
-       0,    34,    33,    27,   113,    34,     0,    27,     0,     0,
-      28,     0,     0,    70,    28,     0,    30,    29,     0,     0,
-      30,     0,     0,    43,     0,     0,    31,    43,    32,    27,
-      31,    33,    32,    27,    34,    33,    28,     0,    34,    70,
-      28,     0,    30,    29,     0,     0,    30,     0,     0,    43,
-       0,     0,    31,     0,    32,     0,    31,    33,    32,     0,
-      34,    33,     1,     2,    34,     0,     0,     0,     0,    55,
-       0,     3,     4,    56,     5,     6,     7,     0,     8,     0,
-       0,     1,     2,     0,    57,     0,     9,    10,    55,    11,
-       3,     4,     0,     5,     6,     7,     0,     8,     0,     0,
-       1,     2,     0,    57,     0,     9,    10,     0,    11,     3,
-       4,    56,     5,     6,     7,     0,     8,     0,     0,     1,
-       2,     0,     0,     0,     9,    10,     0,    11,     3,     4,
-       0,     5,     6,     7,     0,     8,     0,     0,     1,     2,
-       0,     0,     0,     9,    10,     0,    11,     3,     4,     0,
-       5,     6,     7,     0,     8,     0,     0,     0,     0,     0,
-       0,     0,     9,    10
+      46,    14,    43,    46,    48,    97,    66,   100,    87,    27,
+      68,    92,   121,    36,     3,   104,    86,    56,    49,    91,
+      45,    51,    52,    45,    30,    55,   122,    67,    70,   104,
+      78,    80,    58,   105,   104,     3,    81,    54,    83,    79,
+      78,    88,    89,    78,    98,   119,   120,   112,    93,   101,
+      95,   102,   115,    84,    96,   103,   110,    94,    57,   106,
+     108,   109,    99,   113,   116,    78,   117,   118,     1,   123,
+     124,   125,    53,    65,   107,     0,     2,     3,    69,    78,
+      50,     0,     0,     0,    78,     4,     5,     0,     6,     7,
+       8,     0,     9,     0,     0,     0,    78,    28,    85,     0,
+      10,    11,     0,    12,    29,     0,     0,    71,     0,     0,
+      31,    28,    90,     0,     0,     0,     0,    44,    29,     0,
+      32,    71,    33,     0,    31,    34,     0,     0,    35,     0,
+       0,    44,     0,     0,    32,     0,    33,    28,   111,    34,
+       0,     0,    35,     0,    29,     0,     0,    71,     0,     0,
+      31,    28,   114,     0,     0,     0,     0,    44,    29,     0,
+      32,    71,    33,     0,    31,    34,     0,     0,    35,     0,
+      28,    44,     0,     0,    32,     0,    33,    29,     0,    34,
+      30,     0,    35,    31,    28,     0,     0,     0,     0,     0,
+      44,    29,     0,    32,    71,    33,     0,    31,    34,     0,
+       0,    35,     0,    28,    44,     0,     0,    32,     0,    33,
+      29,     0,    34,    30,     0,    35,    31,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,    32,     0,    33,     2,
+       3,    34,     0,     0,    35,     0,    56,     0,     4,     5,
+      57,     6,     7,     8,     0,     9,     0,     0,     2,     3,
+       0,    58,     0,    10,    11,    56,    12,     4,     5,     0,
+       6,     7,     8,     0,     9,     0,     0,     2,     3,     0,
+      58,     0,    10,    11,     0,    12,     4,     5,    57,     6,
+       7,     8,     0,     9,     0,     0,     2,     3,     0,     0,
+       0,    10,    11,     0,    12,     4,     5,     0,     6,     7,
+       8,     0,     9,     0,     0,     2,     3,     0,     0,     0,
+      10,    11,     0,    12,     4,     5,     0,     6,     7,     8,
+       0,     9,     0,     0,     0,     0,     0,     0,     0,    10,
+      11
 };
 
 static const yytype_int8 yycheck[] =
 {
-       6,     0,     5,     9,     7,    58,    21,    60,    46,     2,
-      25,    49,     9,     3,    11,    71,    46,    15,     8,    49,
-       6,    13,     9,     9,     0,    18,    25,     0,    13,    85,
-      36,    25,    30,    71,    90,    27,     4,     4,    29,     4,
-      46,     5,    11,    49,    59,    98,   102,    85,     7,    64,
-      56,    66,    90,    43,    57,    12,    55,     3,     4,    19,
-      13,    60,    13,    13,    10,    71,     6,    13,     4,     4,
-      16,     4,     4,     4,     4,    27,    14,    23,    21,    85,
-      26,     9,    28,    28,    90,    31,    75,    -1,    34,    -1,
-       3,     4,    -1,    -1,     3,     4,   102,    10,    -1,    -1,
-      13,    10,    -1,    16,    13,    -1,    -1,    16,    -1,    -1,
-      23,    -1,    -1,    26,    23,    28,    -1,    26,    31,    28,
-      -1,    34,    31,     3,     4,    34,    -1,     3,    -1,    -1,
-      10,    -1,    -1,    13,    10,    -1,    16,    13,    -1,    -1,
-      16,    -1,    -1,    23,    -1,    -1,    26,    23,    28,     3,
-      26,    31,    28,     3,    34,    31,    10,    -1,    34,    13,
-      10,    -1,    16,    13,    -1,    -1,    16,    -1,    -1,    23,
-      -1,    -1,    26,    -1,    28,    -1,    26,    31,    28,    -1,
-      34,    31,     8,     9,    34,    -1,    -1,    -1,    -1,    15,
-      -1,    17,    18,    19,    20,    21,    22,    -1,    24,    -1,
-      -1,     8,     9,    -1,    30,    -1,    32,    33,    15,    35,
-      17,    18,    -1,    20,    21,    22,    -1,    24,    -1,    -1,
-       8,     9,    -1,    30,    -1,    32,    33,    -1,    35,    17,
-      18,    19,    20,    21,    22,    -1,    24,    -1,    -1,     8,
-       9,    -1,    -1,    -1,    32,    33,    -1,    35,    17,    18,
-      -1,    20,    21,    22,    -1,    24,    -1,    -1,     8,     9,
-      -1,    -1,    -1,    32,    33,    -1,    35,    17,    18,    -1,
-      20,    21,    22,    -1,    24,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    32,    33
+       7,     0,     6,    10,     8,    59,    22,    61,    47,     3,
+      26,    50,    13,     4,     9,    72,    47,    15,     9,    50,
+       7,     0,     0,    10,    13,    19,    27,    26,     4,    86,
+      37,     4,    30,    72,    91,     9,    29,    11,     4,    25,
+      47,     5,     7,    50,    60,    99,   103,    86,    11,    65,
+      57,    67,    91,    44,    58,    12,     6,    56,    19,    13,
+      13,    13,    61,     4,     4,    72,     4,     4,     0,     4,
+       4,    27,    15,    22,    76,    -1,     8,     9,    29,    86,
+      10,    -1,    -1,    -1,    91,    17,    18,    -1,    20,    21,
+      22,    -1,    24,    -1,    -1,    -1,   103,     3,     4,    -1,
+      32,    33,    -1,    35,    10,    -1,    -1,    13,    -1,    -1,
+      16,     3,     4,    -1,    -1,    -1,    -1,    23,    10,    -1,
+      26,    13,    28,    -1,    16,    31,    -1,    -1,    34,    -1,
+      -1,    23,    -1,    -1,    26,    -1,    28,     3,     4,    31,
+      -1,    -1,    34,    -1,    10,    -1,    -1,    13,    -1,    -1,
+      16,     3,     4,    -1,    -1,    -1,    -1,    23,    10,    -1,
+      26,    13,    28,    -1,    16,    31,    -1,    -1,    34,    -1,
+       3,    23,    -1,    -1,    26,    -1,    28,    10,    -1,    31,
+      13,    -1,    34,    16,     3,    -1,    -1,    -1,    -1,    -1,
+      23,    10,    -1,    26,    13,    28,    -1,    16,    31,    -1,
+      -1,    34,    -1,     3,    23,    -1,    -1,    26,    -1,    28,
+      10,    -1,    31,    13,    -1,    34,    16,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    28,     8,
+       9,    31,    -1,    -1,    34,    -1,    15,    -1,    17,    18,
+      19,    20,    21,    22,    -1,    24,    -1,    -1,     8,     9,
+      -1,    30,    -1,    32,    33,    15,    35,    17,    18,    -1,
+      20,    21,    22,    -1,    24,    -1,    -1,     8,     9,    -1,
+      30,    -1,    32,    33,    -1,    35,    17,    18,    19,    20,
+      21,    22,    -1,    24,    -1,    -1,     8,     9,    -1,    -1,
+      -1,    32,    33,    -1,    35,    17,    18,    -1,    20,    21,
+      22,    -1,    24,    -1,    -1,     8,     9,    -1,    -1,    -1,
+      32,    33,    -1,    35,    17,    18,    -1,    20,    21,    22,
+      -1,    24,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    32,
+      33
 };
 
 /* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
    state STATE-NUM.  */
 static const yytype_int8 yystos[] =
 {
-       0,     8,     9,    17,    18,    20,    21,    22,    24,    32,
-      33,    35,    37,    38,    39,    40,    41,    42,    43,    44,
-      46,    47,    52,    53,    54,    55,    41,     3,    10,    13,
-      16,    26,    28,    31,    34,    60,    65,    67,    68,    69,
-      59,    60,    59,    23,    58,    65,    66,    59,    60,    66,
-       0,     0,    40,    11,    41,    15,    19,    30,    38,    45,
-      48,    49,    50,    51,    45,    51,    38,    51,    69,     4,
-      13,    56,    57,    58,    61,    62,    63,    65,    25,     4,
-      29,    64,     4,    60,     4,    56,    61,     5,     7,     4,
-      56,    61,    11,    38,    65,    59,    49,    51,    38,    49,
-      51,    51,    12,    57,    61,    13,    63,    13,    13,     6,
-       4,    61,     4,     4,    61,     4,     4,     4,    49,    57,
-      13,    27,     4,     4,    27
+       0,     0,     8,     9,    17,    18,    20,    21,    22,    24,
+      32,    33,    35,    37,    38,    39,    40,    41,    42,    43,
+      44,    46,    47,    52,    53,    54,    55,    41,     3,    10,
+      13,    16,    26,    28,    31,    34,    60,    65,    67,    68,
+      69,    59,    60,    59,    23,    58,    65,    66,    59,    60,
+      66,     0,     0,    40,    11,    41,    15,    19,    30,    38,
+      45,    48,    49,    50,    51,    45,    51,    38,    51,    69,
+       4,    13,    56,    57,    58,    61,    62,    63,    65,    25,
+       4,    29,    64,     4,    60,     4,    56,    61,     5,     7,
+       4,    56,    61,    11,    38,    65,    59,    49,    51,    38,
+      49,    51,    51,    12,    57,    61,    13,    63,    13,    13,
+       6,     4,    61,     4,     4,    61,     4,     4,     4,    49,
+      57,    13,    27,     4,     4,    27
 };
 
 /* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr1[] =
 {
-       0,    36,    37,    38,    38,    39,    39,    40,    40,    40,
-      40,    40,    40,    40,    40,    41,    41,    42,    42,    43,
-      44,    44,    44,    44,    45,    45,    45,    46,    47,    48,
-      49,    49,    49,    49,    49,    50,    50,    51,    52,    52,
-      53,    53,    53,    53,    54,    54,    55,    55,    55,    55,
-      56,    56,    57,    57,    58,    59,    59,    60,    60,    60,
-      60,    61,    62,    62,    63,    64,    64,    65,    65,    65,
-      65,    65,    65,    65,    65,    66,    66,    67,    68,    69,
-      69
+       0,    36,    37,    37,    38,    38,    39,    39,    40,    40,
+      40,    40,    40,    40,    40,    40,    41,    41,    42,    42,
+      43,    44,    44,    44,    44,    45,    45,    45,    46,    47,
+      48,    49,    49,    49,    49,    49,    50,    50,    51,    52,
+      52,    53,    53,    53,    53,    54,    54,    55,    55,    55,
+      55,    56,    56,    57,    57,    58,    59,    59,    60,    60,
+      60,    60,    61,    62,    62,    63,    64,    64,    65,    65,
+      65,    65,    65,    65,    65,    65,    66,    66,    67,    68,
+      69,    69
 };
 
 /* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr2[] =
 {
-       0,     2,     2,     1,     1,     1,     2,     1,     1,     1,
-       1,     1,     1,     1,     1,     2,     1,     3,     2,     3,
-       3,     2,     3,     2,     1,     2,     1,     3,     3,     3,
-       3,     2,     2,     1,     1,     2,     1,     3,     3,     3,
-       5,     4,     4,     3,     3,     2,     5,     4,     4,     3,
-       1,     2,     1,     1,     3,     2,     1,     3,     2,     2,
-       1,     1,     2,     1,     3,     4,     3,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     2,     1,     3,
-       1
+       0,     2,     2,     1,     1,     1,     1,     2,     1,     1,
+       1,     1,     1,     1,     1,     1,     2,     1,     3,     2,
+       3,     3,     2,     3,     2,     1,     2,     1,     3,     3,
+       3,     3,     2,     2,     1,     1,     2,     1,     3,     3,
+       3,     5,     4,     4,     3,     3,     2,     5,     4,     4,
+       3,     1,     2,     1,     1,     3,     2,     1,     3,     2,
+       2,     1,     1,     2,     1,     3,     4,     3,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     1,     2,     1,
+       3,     1
 };
 
 
@@ -1697,94 +1707,104 @@ yyreduce:
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
-#line 1701 "handlebars.tab.c"
+#line 1711 "handlebars.tab.c"
     break;
 
-  case 3: /* program: statements  */
-#line 196 "handlebars.y"
+  case 3: /* start: "end of file"  */
+#line 193 "handlebars.y"
+        {
+      struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
+      parser->program = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &(yyloc));
+      return 1;
+    }
+#line 1721 "handlebars.tab.c"
+    break;
+
+  case 4: /* program: statements  */
+#line 201 "handlebars.y"
                {
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, (yyvsp[0].ast_list), NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1709 "handlebars.tab.c"
+#line 1729 "handlebars.tab.c"
     break;
 
-  case 4: /* program: ""  */
-#line 199 "handlebars.y"
+  case 5: /* program: ""  */
+#line 204 "handlebars.y"
        {
       struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1718 "handlebars.tab.c"
+#line 1738 "handlebars.tab.c"
     break;
 
-  case 5: /* statements: statement  */
-#line 206 "handlebars.y"
+  case 6: /* statements: statement  */
+#line 211 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 1727 "handlebars.tab.c"
+#line 1747 "handlebars.tab.c"
     break;
 
-  case 6: /* statements: statements statement  */
-#line 210 "handlebars.y"
+  case 7: /* statements: statements statement  */
+#line 215 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 1736 "handlebars.tab.c"
+#line 1756 "handlebars.tab.c"
     break;
 
-  case 7: /* statement: mustache  */
-#line 217 "handlebars.y"
+  case 8: /* statement: mustache  */
+#line 222 "handlebars.y"
              {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1744 "handlebars.tab.c"
+#line 1764 "handlebars.tab.c"
     break;
 
-  case 8: /* statement: block  */
-#line 220 "handlebars.y"
+  case 9: /* statement: block  */
+#line 225 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1752 "handlebars.tab.c"
+#line 1772 "handlebars.tab.c"
     break;
 
-  case 9: /* statement: raw_block  */
-#line 223 "handlebars.y"
+  case 10: /* statement: raw_block  */
+#line 228 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1760 "handlebars.tab.c"
+#line 1780 "handlebars.tab.c"
     break;
 
-  case 10: /* statement: partial  */
-#line 226 "handlebars.y"
+  case 11: /* statement: partial  */
+#line 231 "handlebars.y"
             {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1768 "handlebars.tab.c"
+#line 1788 "handlebars.tab.c"
     break;
 
-  case 11: /* statement: partial_block  */
-#line 229 "handlebars.y"
+  case 12: /* statement: partial_block  */
+#line 234 "handlebars.y"
                   {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1776 "handlebars.tab.c"
+#line 1796 "handlebars.tab.c"
     break;
 
-  case 12: /* statement: content  */
-#line 232 "handlebars.y"
+  case 13: /* statement: content  */
+#line 237 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_content(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 1784 "handlebars.tab.c"
+#line 1804 "handlebars.tab.c"
     break;
 
-  case 13: /* statement: COMMENT  */
-#line 235 "handlebars.y"
+  case 14: /* statement: COMMENT  */
+#line 240 "handlebars.y"
             {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1792,11 +1812,11 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), false, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
     }
-#line 1796 "handlebars.tab.c"
+#line 1816 "handlebars.tab.c"
     break;
 
-  case 14: /* statement: LONG_COMMENT  */
-#line 242 "handlebars.y"
+  case 15: /* statement: LONG_COMMENT  */
+#line 247 "handlebars.y"
                  {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1804,560 +1824,560 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), true, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
   }
-#line 1808 "handlebars.tab.c"
+#line 1828 "handlebars.tab.c"
     break;
 
-  case 15: /* content: CONTENT content  */
-#line 252 "handlebars.y"
+  case 16: /* content: CONTENT content  */
+#line 257 "handlebars.y"
                     {
       (yyval.string) = handlebars_string_append_str(CONTEXT, (yyvsp[-1].string), (yyvsp[0].string));
       (yyval.string) = talloc_steal(parser, (yyval.string));
     }
-#line 1817 "handlebars.tab.c"
+#line 1837 "handlebars.tab.c"
     break;
 
-  case 16: /* content: CONTENT  */
-#line 256 "handlebars.y"
+  case 17: /* content: CONTENT  */
+#line 261 "handlebars.y"
             {
       (yyval.string) = (yyvsp[0].string);
     }
-#line 1825 "handlebars.tab.c"
+#line 1845 "handlebars.tab.c"
     break;
 
-  case 17: /* raw_block: open_raw_block content END_RAW_BLOCK  */
-#line 262 "handlebars.y"
+  case 18: /* raw_block: open_raw_block content END_RAW_BLOCK  */
+#line 267 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].string), (yyvsp[0].string), &(yyloc));
     }
-#line 1833 "handlebars.tab.c"
+#line 1853 "handlebars.tab.c"
     break;
 
-  case 18: /* raw_block: open_raw_block END_RAW_BLOCK  */
-#line 265 "handlebars.y"
+  case 19: /* raw_block: open_raw_block END_RAW_BLOCK  */
+#line 270 "handlebars.y"
                                    {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-1].ast_node), handlebars_string_ctor(HBSCTX(parser), HBS_STRL("")), (yyvsp[0].string), &(yyloc));
     }
-#line 1841 "handlebars.tab.c"
+#line 1861 "handlebars.tab.c"
     break;
 
-  case 19: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
-#line 271 "handlebars.y"
+  case 20: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
+#line 276 "handlebars.y"
                                                  {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
     }
-#line 1849 "handlebars.tab.c"
+#line 1869 "handlebars.tab.c"
     break;
 
-  case 20: /* block: open_block block_intermediate close_block  */
-#line 277 "handlebars.y"
+  case 21: /* block: open_block block_intermediate close_block  */
+#line 282 "handlebars.y"
                                               {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1857 "handlebars.tab.c"
+#line 1877 "handlebars.tab.c"
     break;
 
-  case 21: /* block: open_block close_block  */
-#line 280 "handlebars.y"
+  case 22: /* block: open_block close_block  */
+#line 285 "handlebars.y"
                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1865 "handlebars.tab.c"
+#line 1885 "handlebars.tab.c"
     break;
 
-  case 22: /* block: open_inverse block_intermediate close_block  */
-#line 283 "handlebars.y"
+  case 23: /* block: open_inverse block_intermediate close_block  */
+#line 288 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1873 "handlebars.tab.c"
+#line 1893 "handlebars.tab.c"
     break;
 
-  case 23: /* block: open_inverse close_block  */
-#line 286 "handlebars.y"
+  case 24: /* block: open_inverse close_block  */
+#line 291 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1881 "handlebars.tab.c"
+#line 1901 "handlebars.tab.c"
     break;
 
-  case 24: /* block_intermediate: inverse_chain  */
-#line 292 "handlebars.y"
+  case 25: /* block_intermediate: inverse_chain  */
+#line 297 "handlebars.y"
                   {
       (yyval.block_intermediate).program = NULL;
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1890 "handlebars.tab.c"
+#line 1910 "handlebars.tab.c"
     break;
 
-  case 25: /* block_intermediate: program inverse_chain  */
-#line 296 "handlebars.y"
+  case 26: /* block_intermediate: program inverse_chain  */
+#line 301 "handlebars.y"
                           {
       (yyval.block_intermediate).program = (yyvsp[-1].ast_node);
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1899 "handlebars.tab.c"
+#line 1919 "handlebars.tab.c"
     break;
 
-  case 26: /* block_intermediate: program  */
-#line 300 "handlebars.y"
+  case 27: /* block_intermediate: program  */
+#line 305 "handlebars.y"
             {
       (yyval.block_intermediate).program = (yyvsp[0].ast_node);
       (yyval.block_intermediate).inverse_chain = NULL;
     }
-#line 1908 "handlebars.tab.c"
+#line 1928 "handlebars.tab.c"
     break;
 
-  case 27: /* open_block: "{{#" intermediate4 "}}"  */
-#line 307 "handlebars.y"
+  case 28: /* open_block: "{{#" intermediate4 "}}"  */
+#line 312 "handlebars.y"
                                    {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
       (yyval.ast_node)->node.intermediate.open = talloc_steal((yyval.ast_node), handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string)));
     }
-#line 1918 "handlebars.tab.c"
+#line 1938 "handlebars.tab.c"
     break;
 
-  case 28: /* open_inverse: "{{^" intermediate4 "}}"  */
-#line 315 "handlebars.y"
+  case 29: /* open_inverse: "{{^" intermediate4 "}}"  */
+#line 320 "handlebars.y"
                                      {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1927 "handlebars.tab.c"
+#line 1947 "handlebars.tab.c"
     break;
 
-  case 29: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
-#line 322 "handlebars.y"
+  case 30: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
+#line 327 "handlebars.y"
                                            {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1936 "handlebars.tab.c"
+#line 1956 "handlebars.tab.c"
     break;
 
-  case 30: /* inverse_chain: open_inverse_chain program inverse_chain  */
-#line 329 "handlebars.y"
+  case 31: /* inverse_chain: open_inverse_chain program inverse_chain  */
+#line 334 "handlebars.y"
                                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1944 "handlebars.tab.c"
+#line 1964 "handlebars.tab.c"
     break;
 
-  case 31: /* inverse_chain: open_inverse_chain inverse_chain  */
-#line 332 "handlebars.y"
+  case 32: /* inverse_chain: open_inverse_chain inverse_chain  */
+#line 337 "handlebars.y"
                                      {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1952 "handlebars.tab.c"
+#line 1972 "handlebars.tab.c"
     break;
 
-  case 32: /* inverse_chain: open_inverse_chain program  */
-#line 335 "handlebars.y"
+  case 33: /* inverse_chain: open_inverse_chain program  */
+#line 340 "handlebars.y"
                                {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_node), NULL, &(yyloc));
     }
-#line 1960 "handlebars.tab.c"
+#line 1980 "handlebars.tab.c"
     break;
 
-  case 33: /* inverse_chain: open_inverse_chain  */
-#line 338 "handlebars.y"
+  case 34: /* inverse_chain: open_inverse_chain  */
+#line 343 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[0].ast_node), NULL, NULL, &(yyloc));
     }
-#line 1968 "handlebars.tab.c"
+#line 1988 "handlebars.tab.c"
     break;
 
-  case 34: /* inverse_chain: inverse_and_program  */
-#line 341 "handlebars.y"
+  case 35: /* inverse_chain: inverse_and_program  */
+#line 346 "handlebars.y"
                         {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1976 "handlebars.tab.c"
+#line 1996 "handlebars.tab.c"
     break;
 
-  case 35: /* inverse_and_program: INVERSE program  */
-#line 347 "handlebars.y"
+  case 36: /* inverse_and_program: INVERSE program  */
+#line 352 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, (yyvsp[0].ast_node), 0,
               handlebars_ast_helper_strip_flags((yyvsp[-1].string), (yyvsp[-1].string)), &(yyloc));
     }
-#line 1985 "handlebars.tab.c"
+#line 2005 "handlebars.tab.c"
     break;
 
-  case 36: /* inverse_and_program: INVERSE  */
-#line 351 "handlebars.y"
+  case 37: /* inverse_and_program: INVERSE  */
+#line 356 "handlebars.y"
             {
       struct handlebars_ast_node * program_node;
       program_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, program_node, 0,
               handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 1996 "handlebars.tab.c"
+#line 2016 "handlebars.tab.c"
     break;
 
-  case 37: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
-#line 360 "handlebars.y"
+  case 38: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
+#line 365 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2005 "handlebars.tab.c"
+#line 2025 "handlebars.tab.c"
     break;
 
-  case 38: /* mustache: "{{" intermediate3 "}}"  */
-#line 367 "handlebars.y"
+  case 39: /* mustache: "{{" intermediate3 "}}"  */
+#line 372 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2014 "handlebars.tab.c"
+#line 2034 "handlebars.tab.c"
     break;
 
-  case 39: /* mustache: "{{{" intermediate3 "}}}"  */
-#line 371 "handlebars.y"
+  case 40: /* mustache: "{{{" intermediate3 "}}}"  */
+#line 376 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2023 "handlebars.tab.c"
+#line 2043 "handlebars.tab.c"
     break;
 
-  case 40: /* partial: "{{>" partial_name params hash "}}"  */
-#line 378 "handlebars.y"
+  case 41: /* partial: "{{>" partial_name params hash "}}"  */
+#line 383 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2032 "handlebars.tab.c"
+#line 2052 "handlebars.tab.c"
     break;
 
-  case 41: /* partial: "{{>" partial_name params "}}"  */
-#line 382 "handlebars.y"
+  case 42: /* partial: "{{>" partial_name params "}}"  */
+#line 387 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2041 "handlebars.tab.c"
+#line 2061 "handlebars.tab.c"
     break;
 
-  case 42: /* partial: "{{>" partial_name hash "}}"  */
-#line 386 "handlebars.y"
+  case 43: /* partial: "{{>" partial_name hash "}}"  */
+#line 391 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2050 "handlebars.tab.c"
+#line 2070 "handlebars.tab.c"
     break;
 
-  case 43: /* partial: "{{>" partial_name "}}"  */
-#line 390 "handlebars.y"
+  case 44: /* partial: "{{>" partial_name "}}"  */
+#line 395 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2059 "handlebars.tab.c"
+#line 2079 "handlebars.tab.c"
     break;
 
-  case 44: /* partial_block: open_partial_block program close_block  */
-#line 397 "handlebars.y"
+  case 45: /* partial_block: open_partial_block program close_block  */
+#line 402 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2067 "handlebars.tab.c"
+#line 2087 "handlebars.tab.c"
     break;
 
-  case 45: /* partial_block: open_partial_block close_block  */
-#line 400 "handlebars.y"
+  case 46: /* partial_block: open_partial_block close_block  */
+#line 405 "handlebars.y"
                                    {
       struct handlebars_ast_node * program = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-1].ast_node), program, (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2076 "handlebars.tab.c"
+#line 2096 "handlebars.tab.c"
     break;
 
-  case 46: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
-#line 406 "handlebars.y"
+  case 47: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
+#line 411 "handlebars.y"
                                                       {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
       			handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2085 "handlebars.tab.c"
+#line 2105 "handlebars.tab.c"
     break;
 
-  case 47: /* open_partial_block: "{{#>" partial_name params "}}"  */
-#line 410 "handlebars.y"
+  case 48: /* open_partial_block: "{{#>" partial_name params "}}"  */
+#line 415 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
       			handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2094 "handlebars.tab.c"
+#line 2114 "handlebars.tab.c"
     break;
 
-  case 48: /* open_partial_block: "{{#>" partial_name hash "}}"  */
-#line 414 "handlebars.y"
+  case 49: /* open_partial_block: "{{#>" partial_name hash "}}"  */
+#line 419 "handlebars.y"
                                                {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2103 "handlebars.tab.c"
+#line 2123 "handlebars.tab.c"
     break;
 
-  case 49: /* open_partial_block: "{{#>" partial_name "}}"  */
-#line 418 "handlebars.y"
+  case 50: /* open_partial_block: "{{#>" partial_name "}}"  */
+#line 423 "handlebars.y"
                                           {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2112 "handlebars.tab.c"
+#line 2132 "handlebars.tab.c"
     break;
 
-  case 50: /* params: param  */
-#line 425 "handlebars.y"
+  case 51: /* params: param  */
+#line 430 "handlebars.y"
           {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2121 "handlebars.tab.c"
+#line 2141 "handlebars.tab.c"
     break;
 
-  case 51: /* params: params param  */
-#line 429 "handlebars.y"
+  case 52: /* params: params param  */
+#line 434 "handlebars.y"
                  {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2130 "handlebars.tab.c"
+#line 2150 "handlebars.tab.c"
     break;
 
-  case 52: /* param: helper_name  */
-#line 436 "handlebars.y"
+  case 53: /* param: helper_name  */
+#line 441 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2138 "handlebars.tab.c"
+#line 2158 "handlebars.tab.c"
     break;
 
-  case 53: /* param: sexpr  */
-#line 439 "handlebars.y"
+  case 54: /* param: sexpr  */
+#line 444 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2146 "handlebars.tab.c"
+#line 2166 "handlebars.tab.c"
     break;
 
-  case 54: /* sexpr: "(" intermediate3 ")"  */
-#line 445 "handlebars.y"
+  case 55: /* sexpr: "(" intermediate3 ")"  */
+#line 450 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_sexpr(parser, (yyvsp[-1].ast_node), &(yyloc));
     }
-#line 2154 "handlebars.tab.c"
+#line 2174 "handlebars.tab.c"
     break;
 
-  case 55: /* intermediate4: intermediate3 block_params  */
-#line 451 "handlebars.y"
+  case 56: /* intermediate4: intermediate3 block_params  */
+#line 456 "handlebars.y"
                                {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       (yyval.ast_node)->node.intermediate.block_param1 = (yyvsp[0].block_params).block_param1;
       (yyval.ast_node)->node.intermediate.block_param2 = (yyvsp[0].block_params).block_param2;
     }
-#line 2164 "handlebars.tab.c"
+#line 2184 "handlebars.tab.c"
     break;
 
-  case 57: /* intermediate3: helper_name params hash  */
-#line 460 "handlebars.y"
+  case 58: /* intermediate3: helper_name params hash  */
+#line 465 "handlebars.y"
                             {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2172 "handlebars.tab.c"
+#line 2192 "handlebars.tab.c"
     break;
 
-  case 58: /* intermediate3: helper_name hash  */
-#line 463 "handlebars.y"
+  case 59: /* intermediate3: helper_name hash  */
+#line 468 "handlebars.y"
                      {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2180 "handlebars.tab.c"
+#line 2200 "handlebars.tab.c"
     break;
 
-  case 59: /* intermediate3: helper_name params  */
-#line 466 "handlebars.y"
+  case 60: /* intermediate3: helper_name params  */
+#line 471 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_list), NULL, 0, &(yyloc));
     }
-#line 2188 "handlebars.tab.c"
+#line 2208 "handlebars.tab.c"
     break;
 
-  case 60: /* intermediate3: helper_name  */
-#line 469 "handlebars.y"
+  case 61: /* intermediate3: helper_name  */
+#line 474 "handlebars.y"
                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[0].ast_node), NULL, NULL, 0, &(yyloc));
     }
-#line 2196 "handlebars.tab.c"
+#line 2216 "handlebars.tab.c"
     break;
 
-  case 61: /* hash: hash_pairs  */
-#line 475 "handlebars.y"
+  case 62: /* hash: hash_pairs  */
+#line 480 "handlebars.y"
                {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_HASH);
       ast_node->node.hash.pairs = (yyvsp[0].ast_list);
       (yyval.ast_node) = ast_node;
     }
-#line 2206 "handlebars.tab.c"
+#line 2226 "handlebars.tab.c"
     break;
 
-  case 62: /* hash_pairs: hash_pairs hash_pair  */
-#line 483 "handlebars.y"
+  case 63: /* hash_pairs: hash_pairs hash_pair  */
+#line 488 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2215 "handlebars.tab.c"
+#line 2235 "handlebars.tab.c"
     break;
 
-  case 63: /* hash_pairs: hash_pair  */
-#line 487 "handlebars.y"
+  case 64: /* hash_pairs: hash_pair  */
+#line 492 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2224 "handlebars.tab.c"
+#line 2244 "handlebars.tab.c"
     break;
 
-  case 64: /* hash_pair: ID "=" param  */
-#line 494 "handlebars.y"
+  case 65: /* hash_pair: ID "=" param  */
+#line 499 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_hash_pair(parser, (yyvsp[-2].string), (yyvsp[0].ast_node), &(yyloc));
     }
-#line 2232 "handlebars.tab.c"
+#line 2252 "handlebars.tab.c"
     break;
 
-  case 65: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
-#line 500 "handlebars.y"
+  case 66: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
+#line 505 "handlebars.y"
                                                {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string));
       (yyval.block_params).block_param2 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
     }
-#line 2241 "handlebars.tab.c"
+#line 2261 "handlebars.tab.c"
     break;
 
-  case 66: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
-#line 504 "handlebars.y"
+  case 67: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
+#line 509 "handlebars.y"
                                             {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
       (yyval.block_params).block_param2 = NULL;
     }
-#line 2250 "handlebars.tab.c"
+#line 2270 "handlebars.tab.c"
     break;
 
-  case 67: /* helper_name: path  */
-#line 511 "handlebars.y"
+  case 68: /* helper_name: path  */
+#line 516 "handlebars.y"
          {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2258 "handlebars.tab.c"
+#line 2278 "handlebars.tab.c"
     break;
 
-  case 68: /* helper_name: data_name  */
-#line 514 "handlebars.y"
+  case 69: /* helper_name: data_name  */
+#line 519 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2266 "handlebars.tab.c"
+#line 2286 "handlebars.tab.c"
     break;
 
-  case 69: /* helper_name: STRING  */
-#line 517 "handlebars.y"
+  case 70: /* helper_name: STRING  */
+#line 522 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), false, &(yyloc));
     }
-#line 2274 "handlebars.tab.c"
+#line 2294 "handlebars.tab.c"
     break;
 
-  case 70: /* helper_name: SINGLE_STRING  */
-#line 520 "handlebars.y"
+  case 71: /* helper_name: SINGLE_STRING  */
+#line 525 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), true, &(yyloc));
   }
-#line 2282 "handlebars.tab.c"
+#line 2302 "handlebars.tab.c"
     break;
 
-  case 71: /* helper_name: NUMBER  */
-#line 523 "handlebars.y"
+  case 72: /* helper_name: NUMBER  */
+#line 528 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_number(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2290 "handlebars.tab.c"
+#line 2310 "handlebars.tab.c"
     break;
 
-  case 72: /* helper_name: BOOLEAN  */
-#line 526 "handlebars.y"
+  case 73: /* helper_name: BOOLEAN  */
+#line 531 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_boolean(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2298 "handlebars.tab.c"
+#line 2318 "handlebars.tab.c"
     break;
 
-  case 73: /* helper_name: "undefined"  */
-#line 529 "handlebars.y"
+  case 74: /* helper_name: "undefined"  */
+#line 534 "handlebars.y"
               {
       (yyval.ast_node) = handlebars_ast_node_ctor_undefined(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2306 "handlebars.tab.c"
+#line 2326 "handlebars.tab.c"
     break;
 
-  case 74: /* helper_name: "NULL"  */
-#line 532 "handlebars.y"
+  case 75: /* helper_name: "NULL"  */
+#line 537 "handlebars.y"
         {
       (yyval.ast_node) = handlebars_ast_node_ctor_null(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2314 "handlebars.tab.c"
+#line 2334 "handlebars.tab.c"
     break;
 
-  case 75: /* partial_name: helper_name  */
-#line 538 "handlebars.y"
+  case 76: /* partial_name: helper_name  */
+#line 543 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2322 "handlebars.tab.c"
+#line 2342 "handlebars.tab.c"
     break;
 
-  case 76: /* partial_name: sexpr  */
-#line 541 "handlebars.y"
+  case 77: /* partial_name: sexpr  */
+#line 546 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2330 "handlebars.tab.c"
+#line 2350 "handlebars.tab.c"
     break;
 
-  case 77: /* data_name: DATA path_segments  */
-#line 547 "handlebars.y"
+  case 78: /* data_name: DATA path_segments  */
+#line 552 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 1, &(yyloc));
     }
-#line 2338 "handlebars.tab.c"
+#line 2358 "handlebars.tab.c"
     break;
 
-  case 78: /* path: path_segments  */
-#line 553 "handlebars.y"
+  case 79: /* path: path_segments  */
+#line 558 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 0, &(yyloc));
     }
-#line 2346 "handlebars.tab.c"
+#line 2366 "handlebars.tab.c"
     break;
 
-  case 79: /* path_segments: path_segments SEP ID  */
-#line 559 "handlebars.y"
+  case 80: /* path_segments: path_segments SEP ID  */
+#line 564 "handlebars.y"
                          {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor_path_segment(parser, (yyvsp[0].string), (yyvsp[-1].string), &(yyloc));
 
       handlebars_ast_list_append((yyvsp[-2].ast_list), ast_node);
       (yyval.ast_list) = (yyvsp[-2].ast_list);
     }
-#line 2357 "handlebars.tab.c"
+#line 2377 "handlebars.tab.c"
     break;
 
-  case 80: /* path_segments: ID  */
-#line 565 "handlebars.y"
+  case 81: /* path_segments: ID  */
+#line 570 "handlebars.y"
        {
       struct handlebars_ast_node * ast_node;
       MEMCHK((yyvsp[0].string)); // this is weird
@@ -2368,11 +2388,11 @@ yyreduce:
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), ast_node);
     }
-#line 2372 "handlebars.tab.c"
+#line 2392 "handlebars.tab.c"
     break;
 
 
-#line 2376 "handlebars.tab.c"
+#line 2396 "handlebars.tab.c"
 
       default: break;
     }
diff --git a/src/handlebars.y b/src/handlebars.y
index bcdc392..8d42b7b 100644
--- a/src/handlebars.y
+++ b/src/handlebars.y
@@ -190,6 +190,11 @@ start :
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
+  | END {
+      struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
+      parser->program = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &@$);
+      return 1;
+    }
   ;
 
 program :
-- 
2.43.0


From f0243ec163889e8cb1c7a886e30beb0a02a8b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:07 +0000
Subject: [PATCH 50/99] fix: reject modules with a foreign header or an
 impossible size

---
 src/handlebars_opcode_serializer.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index c21dfb5..698f2d2 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -42,6 +42,8 @@
 #define PATCH(ptr, baseaddr) ptr = (void *) (((char *) ptr) - ((char *) module->addr) + ((char *) baseaddr))
 #define align_size(size) handlebars_align_size(size, sizeof(void *))
 
+static const unsigned char module_header[8] = "HBSCM";
+
 const size_t HANDLEBARS_MODULE_SIZE = sizeof(struct handlebars_module);
 const size_t HANDLEBARS_MODULE_TABLE_ENTRY_SIZE = sizeof(struct handlebars_module_table_entry);
 
@@ -241,7 +243,7 @@ struct handlebars_module * handlebars_program_serialize(
 ) {
     // Allocate initial buffer
     struct handlebars_module * module = handlebars_talloc_zero(context, struct handlebars_module);
-    memcpy(&module->header, "HBSCM", sizeof("HBSCM"));
+    memcpy(module->header, module_header, sizeof(module_header));
     module->version = handlebars_version();
     module->flags = program->flags;
     time(&module->ts);
@@ -410,6 +412,13 @@ bool handlebars_module_verify(
     struct handlebars_module * module,
     struct handlebars_context * ctx
 ) {
+    if (memcmp(module->header, module_header, sizeof(module_header)) != 0 || module->size < sizeof(struct handlebars_module)) {
+        if (ctx != NULL) {
+            handlebars_throw(ctx, HANDLEBARS_ERROR, "Invalid module header");
+        }
+        return false;
+    }
+
     uint64_t hash = calculate_hash(module);
     bool matched = true;
     if (hash != module->hash) {
-- 
2.43.0


From a5c46075b4aadbf1c0874b00aea9a9d2aa2fde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:14 +0000
Subject: [PATCH 51/99] fix: do not return an expired entry from the mmap cache

---
 src/handlebars_cache_mmap.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 5f5b5ae..b7d111c 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -307,11 +307,15 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     if( module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
         lock(cache);
         protect(cache, false);
-        table_unset(intern, key);
-        intern->misses++;
-        intern->table_entries--;
+        // Someone else may have removed or replaced it in the meantime
+        if( table_find(intern, key) == entry ) {
+            table_unset(intern, key);
+            intern->table_entries--;
+        }
+        INCR(intern->misses);
         protect(cache, true);
         unlock(cache);
+        module = NULL;
         goto error;
     }
 
-- 
2.43.0


From d9c0c2e6e96802771e13344c0a48da0b2952a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:14 +0000
Subject: [PATCH 52/99] fix: reject mmap cache sizes that leave no room for the
 table and the data

---
 src/handlebars_cache_mmap.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index b7d111c..94af96c 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -450,12 +450,16 @@ struct handlebars_cache * handlebars_cache_mmap_ctor(
     size_t intern_size = handlebars_align_size(sizeof(struct handlebars_cache_mmap), page_size);
     size_t shm_size = handlebars_align_size(size, page_size);
     size_t table_size = handlebars_align_size(entries * sizeof(struct table_entry *), page_size);
-    size_t data_size = shm_size - table_size - intern_size;
 
-    if( table_size >= shm_size ) {
+    if( entries < 1 || entries > UINT32_MAX ) {
+        handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Invalid number of table entries");
+    }
+
+    if( intern_size + table_size >= shm_size ) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Table size must not be greater than segment size");
     }
 
+    size_t data_size = shm_size - table_size - intern_size;
     struct handlebars_cache_mmap * intern = mmap(NULL, shm_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
     if( intern == MAP_FAILED ) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Failed to mmap: %s", strerror(errno));
-- 
2.43.0


From 7c258192b09ad6a342c8478d6c70ec6d4478f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:14 +0000
Subject: [PATCH 53/99] fix: do not count an mmap cache entry whose table entry
 did not fit

---
 src/handlebars_cache_mmap.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 94af96c..7fdc0ed 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -199,11 +199,7 @@ static inline struct table_entry * table_find(struct handlebars_cache_mmap * int
 static inline void table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
 {
     uint32_t offset = hbs_str_hash(entry->key) % intern->table_count;
-    if( entry == NULL ) {
-        intern->table[offset] = NULL;
-    } else {
-        intern->table[offset] = append(intern, entry, sizeof(struct table_entry));
-    }
+    intern->table[offset] = entry;
 }
 
 static inline void table_unset(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
@@ -365,8 +361,11 @@ static void cache_add(
     // Copy data
     entry.data = append(intern, (void *) module, module->size);
 
+    // Copy entry
+    struct table_entry * slot = append(intern, &entry, sizeof(struct table_entry));
+
     // Check for failure
-    if( unlikely(!entry.key || !entry.data) ) {
+    if( unlikely(!entry.key || !entry.data || !slot) ) {
         protect(cache, true);
         unlock(cache);
         cache_reset(cache);
@@ -377,7 +376,7 @@ static void cache_add(
     handlebars_module_patch_pointers(entry.data);
 
     // Finish;
-    table_set(intern, &entry);
+    table_set(intern, slot);
     intern->table_entries++;
 
 error:
-- 
2.43.0


From b9194cffce38692ce8871ec0e240127581f167f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:37 +0000
Subject: [PATCH 54/99] fix: release the mmap cache lock when changing the
 protection fails

---
 src/handlebars_cache_mmap.c | 78 +++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 7fdc0ed..b3c4d69 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -148,14 +148,18 @@ static inline void * append(struct handlebars_cache_mmap * intern, void * source
     return addr;
 }
 
-static inline void protect(struct handlebars_cache * cache, bool on)
+static inline int protect(struct handlebars_cache * cache, bool on)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
     int prot = on ? PROT_READ : PROT_READ | PROT_WRITE;
     int rc = mprotect(intern->table, intern->table_size + intern->data_size, prot);
-    if( rc != 0 ) {
-        handlebars_throw(HBSCTX(cache), HANDLEBARS_ERROR, "mprotect error: %s (%d)", strerror(rc), rc);
-    }
+    return rc != 0 ? errno : 0;
+}
+
+HBS_ATTR_NORETURN
+static void protect_error(struct handlebars_cache * cache, int err)
+{
+    handlebars_throw(HBSCTX(cache), HANDLEBARS_ERROR, "mprotect error: %s (%d)", strerror(err), err);
 }
 
 static inline void lock(struct handlebars_cache * cache)
@@ -190,6 +194,25 @@ static inline void unlock(struct handlebars_cache * cache)
     }
 }
 
+// Lock and unprotect, nothing is held on failure
+static inline int begin_write(struct handlebars_cache * cache)
+{
+    lock(cache);
+    int err = protect(cache, false);
+    if( err != 0 ) {
+        unlock(cache);
+    }
+    return err;
+}
+
+// Protect and unlock, nothing is held on failure
+static inline int end_write(struct handlebars_cache * cache)
+{
+    int err = protect(cache, true);
+    unlock(cache);
+    return err;
+}
+
 static inline struct table_entry * table_find(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
 {
     uint32_t offset = hbs_str_hash(string) % intern->table_count;
@@ -224,6 +247,8 @@ static void cache_reset(struct handlebars_cache * cache)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
 
+    int err = 0;
+
     // Lock
     intern->in_reset = true;
 
@@ -243,8 +268,10 @@ static void cache_reset(struct handlebars_cache * cache)
 #endif
 
     // Unprotect/Lock
-    lock(cache);
-    protect(cache, false);
+    err = begin_write(cache);
+    if( err != 0 ) {
+        goto error;
+    }
 
     // Initialize header
     intern->table_entries = 0;
@@ -254,12 +281,14 @@ static void cache_reset(struct handlebars_cache * cache)
     memset(intern->table, 0, intern->table_size);
 
     // Protect/Unlock
-    protect(cache, true);
-    unlock(cache);
+    err = end_write(cache);
 
 error:
     // Unlock
     intern->in_reset = false;
+    if( err != 0 ) {
+        protect_error(cache, err);
+    }
 }
 
 static int cache_gc(struct handlebars_cache * cache)
@@ -301,17 +330,21 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     // Check if it's too old or wrong version
     time(&now);
     if( module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
-        lock(cache);
-        protect(cache, false);
+        module = NULL;
+        int err = begin_write(cache);
+        if( err != 0 ) {
+            protect_error(cache, err);
+        }
         // Someone else may have removed or replaced it in the meantime
         if( table_find(intern, key) == entry ) {
             table_unset(intern, key);
             intern->table_entries--;
         }
         INCR(intern->misses);
-        protect(cache, true);
-        unlock(cache);
-        module = NULL;
+        err = end_write(cache);
+        if( err != 0 ) {
+            protect_error(cache, err);
+        }
         goto error;
     }
 
@@ -341,8 +374,10 @@ static void cache_add(
     }
 
     // Lock
-    lock(cache);
-    protect(cache, false);
+    int err = begin_write(cache);
+    if( err != 0 ) {
+        protect_error(cache, err);
+    }
 
     assert(module == module->addr);
 
@@ -366,8 +401,10 @@ static void cache_add(
 
     // Check for failure
     if( unlikely(!entry.key || !entry.data || !slot) ) {
-        protect(cache, true);
-        unlock(cache);
+        err = end_write(cache);
+        if( err != 0 ) {
+            protect_error(cache, err);
+        }
         cache_reset(cache);
         return;
     }
@@ -381,8 +418,10 @@ static void cache_add(
 
 error:
     // Unlock
-    protect(cache, true);
-    unlock(cache);
+    err = end_write(cache);
+    if( err != 0 ) {
+        protect_error(cache, err);
+    }
 }
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
@@ -490,7 +529,6 @@ struct handlebars_cache * handlebars_cache_mmap_ctor(
     }
 
     cache_reset(cache);
-    protect(cache, true);
 
     return cache;
 }
-- 
2.43.0


From ba8431596d85eca9ab2f7b24a798e0659e2ff2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:54 +0000
Subject: [PATCH 55/99] fix: keep an mmap cache entry from being reset while it
 is looked up

---
 src/handlebars_cache_mmap.c | 38 +++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index b3c4d69..4eea566 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -113,7 +113,8 @@ struct handlebars_cache_mmap {
 
     size_t collisions;
 
-    bool in_reset;
+    //! The number of resets in progress
+    int in_reset;
 
 #ifdef USE_SPINLOCK
     pthread_spinlock_t write_lock;
@@ -213,6 +214,15 @@ static inline int end_write(struct handlebars_cache * cache)
     return err;
 }
 
+static inline bool is_in_reset(struct handlebars_cache_mmap * intern)
+{
+#ifdef HAVE_ATOMIC_BUILTINS
+    return __atomic_load_n(&intern->in_reset, __ATOMIC_SEQ_CST) > 0;
+#else
+    return intern->in_reset > 0;
+#endif
+}
+
 static inline struct table_entry * table_find(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
 {
     uint32_t offset = hbs_str_hash(string) % intern->table_count;
@@ -249,8 +259,8 @@ static void cache_reset(struct handlebars_cache * cache)
 
     int err = 0;
 
-    // Lock
-    intern->in_reset = true;
+    // Keep new references from being taken
+    INCR(intern->in_reset);
 
     // Try to wait for refcount to empty
 #ifdef HAVE_ATOMIC_BUILTINS
@@ -285,7 +295,7 @@ static void cache_reset(struct handlebars_cache * cache)
 
 error:
     // Unlock
-    intern->in_reset = false;
+    DECR(intern->in_reset);
     if( err != 0 ) {
         protect_error(cache, err);
     }
@@ -303,9 +313,13 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     struct handlebars_module * module = NULL;
     time_t now;
 
+    // Take the reference first, so that a reset either waits for us or is seen by us
+    INCR(intern->refcount);
+
     // Currently resetting
-    if( intern->in_reset ) {
-        return NULL;
+    if( is_in_reset(intern) ) {
+        INCR(intern->misses);
+        goto error;
     }
 
     // Find entry
@@ -330,9 +344,9 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     // Check if it's too old or wrong version
     time(&now);
     if( module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
-        module = NULL;
         int err = begin_write(cache);
         if( err != 0 ) {
+            DECR(intern->refcount);
             protect_error(cache, err);
         }
         // Someone else may have removed or replaced it in the meantime
@@ -343,6 +357,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
         INCR(intern->misses);
         err = end_write(cache);
         if( err != 0 ) {
+            DECR(intern->refcount);
             protect_error(cache, err);
         }
         goto error;
@@ -350,14 +365,17 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
 
     // Check for pointer mismatch
     if( unlikely((void *) module != module->addr) ) {
+        DECR(intern->refcount);
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Shared memory pointer mismatch: %p != %p", module, module->addr);
     }
 
     INCR(intern->hits);
-    INCR(intern->refcount);
 
-error:
     return module;
+
+error:
+    DECR(intern->refcount);
+    return NULL;
 }
 
 static void cache_add(
@@ -369,7 +387,7 @@ static void cache_add(
     struct table_entry entry;
 
     // Currently resetting
-    if( intern->in_reset ) {
+    if( is_in_reset(intern) ) {
         return;
     }
 
-- 
2.43.0


From 62b262b9f0b3f1a1b65f416e8e850dbaea88422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:21 +0000
Subject: [PATCH 56/99] fix: commit collection and reset of the lmdb cache and
 end every transaction once

---
 src/handlebars_cache_lmdb.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 36f7745..608b779 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -70,8 +70,8 @@ static int cache_gc(struct handlebars_cache * cache)
     MDB_val key;
     MDB_val data;
     MDB_cursor *cursor;
-    MDB_stat stat;
     time_t now;
+    int removed = 0;
 
     time(&now);
 
@@ -81,9 +81,6 @@ static int cache_gc(struct handlebars_cache * cache)
     err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
     if( err != 0 ) goto error;
 
-    err = mdb_stat(txn, dbi, &stat);
-    if( err != 0 ) goto error;
-
     err = mdb_cursor_open(txn, dbi, &cursor);
     if( err != 0 ) goto error;
 
@@ -93,15 +90,23 @@ static int cache_gc(struct handlebars_cache * cache)
                 data.mv_data, (int) data.mv_size, (char *) data.mv_data); */
 
         struct handlebars_module * module = (struct handlebars_module *) data.mv_data;
-        if( cache->max_age >= 0 && difftime(now, module->ts) > cache->max_age ) {
-            mdb_del(txn, dbi, &key, NULL);
+        if( cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age ) {
+            err = mdb_cursor_del(cursor, 0);
+            if( err != 0 ) break;
+            removed++;
         }
     }
 
     mdb_cursor_close(cursor);
-error:
+    if( err != MDB_NOTFOUND ) goto error;
+
+    err = mdb_txn_commit(txn);
     HANDLE_RC(err);
+    return removed;
+
+error:
     mdb_txn_abort(txn);
+    HANDLE_RC(err);
     return 0;
 }
 
@@ -233,9 +238,9 @@ static void cache_add(
     handlebars_talloc_free(module_copy);
     if( err != 0 ) goto error;
 
-    // Commit
+    // Commit, which ends the transaction in any case
     err = mdb_txn_commit(txn);
-    if( err != 0 ) goto error;
+    HANDLE_RC(err);
 
     return;
 
@@ -266,7 +271,7 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
     err = mdb_stat(txn, dbi, &stat);
     if( err != 0 ) goto error;
 
-    intern->stat.name = "mmap";
+    intern->stat.name = "lmdb";
     intern->stat.current_entries = stat.ms_entries;
 
 error:
@@ -291,7 +296,13 @@ static void cache_reset(struct handlebars_cache * cache)
     err = mdb_drop(txn, dbi, 0);
     if( err != 0 ) goto error;
 
-    error:
+    err = mdb_txn_commit(txn);
+    HANDLE_RC(err);
+
+    memset(&intern->stat, 0, sizeof(intern->stat));
+    return;
+
+error:
     mdb_txn_abort(txn);
     HANDLE_RC(err);
 }
-- 
2.43.0


From 22d1f3df4adf32fe56ad3c88cce9da7ba832d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:21 +0000
Subject: [PATCH 57/99] fix: report failed allocations in the lmdb cache

---
 src/handlebars_cache_lmdb.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 608b779..d805cca 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -174,6 +174,10 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     // Duplicate data
     size = module->size;
     module = handlebars_talloc_size(cache, size);
+    if( !module ) {
+        mdb_txn_abort(txn);
+        HANDLEBARS_MEMCHECK(module, CONTEXT);
+    }
     talloc_set_type(module, struct handlebars_module);
     memcpy(module, data.mv_data, size);
 
@@ -223,6 +227,10 @@ static void cache_add(
 
     // Normalize pointers
     module_copy = handlebars_talloc_size(CONTEXT, module->size);
+    if( !module_copy ) {
+        mdb_txn_abort(txn);
+        HANDLEBARS_MEMCHECK(module_copy, CONTEXT);
+    }
     talloc_set_type(module_copy, struct handlebars_module);
     memcpy(module_copy, module, module->size);
     handlebars_module_patch_pointers(module_copy);
-- 
2.43.0


From c8294826a81d487ef893c9ea49b8f5a970e861cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:58 +0000
Subject: [PATCH 58/99] fix: tell lmdb cache entries of long templates apart
 and check the size of stored entries

---
 src/handlebars_cache_lmdb.c | 57 +++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index d805cca..169ed5d 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -51,6 +51,31 @@ struct handlebars_cache_lmdb {
 #undef CONTEXT
 #define CONTEXT HBSCTX(cache)
 
+// Long templates are stored under their hash, which may be shared, and are followed by their text
+static bool make_key(struct handlebars_cache_lmdb * intern, struct handlebars_string * tmpl, char * buf, size_t size, MDB_val * key)
+{
+    if( hbs_str_len(tmpl) + 1 > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
+        snprintf(buf, size, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
+        key->mv_size = strlen(buf);
+        key->mv_data = buf;
+        return true;
+    } else {
+        key->mv_size = hbs_str_len(tmpl) + 1;
+        key->mv_data = hbs_str_val(tmpl);
+        return false;
+    }
+}
+
+static bool is_entry_for(MDB_val * data, struct handlebars_string * tmpl, bool hashed)
+{
+    struct handlebars_module * module = (struct handlebars_module *) data->mv_data;
+    size_t extra = hashed ? hbs_str_len(tmpl) : 0;
+    if( data->mv_size < sizeof(struct handlebars_module) + extra || module->size != data->mv_size - extra ) {
+        return false;
+    }
+    return memcmp((char *) data->mv_data + module->size, hbs_str_val(tmpl), extra) == 0;
+}
+
 static int cache_dtor(struct handlebars_cache * cache)
 {
     struct handlebars_cache_lmdb * intern = (struct handlebars_cache_lmdb *) cache->internal;
@@ -89,6 +114,9 @@ static int cache_gc(struct handlebars_cache * cache)
                 key.mv_data,  (int) key.mv_size,  (char *) key.mv_data,
                 data.mv_data, (int) data.mv_size, (char *) data.mv_data); */
 
+        if( data.mv_size < sizeof(struct handlebars_module) ) {
+            continue;
+        }
         struct handlebars_module * module = (struct handlebars_module *) data.mv_data;
         if( cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age ) {
             err = mdb_cursor_del(cursor, 0);
@@ -132,14 +160,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     if( err != 0 ) goto error;
 
     // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
-        snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
-        key.mv_size = strlen(tmp);
-        key.mv_data = tmp;
-    } else {
-        key.mv_size = hbs_str_len(tmpl) + 1;
-        key.mv_data = hbs_str_val(tmpl);
-    }
+    bool hashed = make_key(intern, tmpl, tmp, sizeof(tmp), &key);
 
     // Fetch data
     err = mdb_get(txn, dbi, &key, &data);
@@ -150,6 +171,11 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     }
     if( err != 0 ) goto error;
 
+    if( !is_entry_for(&data, tmpl, hashed) ) {
+        intern->stat.misses++;
+        goto error;
+    }
+
     module = ((struct handlebars_module *) data.mv_data);
 
 #if defined(HANDLEBARS_ENABLE_DEBUG)
@@ -216,17 +242,11 @@ static void cache_add(
     if( err != 0 ) goto error;
 
     // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
-        snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
-        key.mv_size = strlen(tmp);
-        key.mv_data = tmp;
-    } else {
-        key.mv_size = hbs_str_len(tmpl) + 1;
-        key.mv_data = hbs_str_val(tmpl);
-    }
+    bool hashed = make_key(intern, tmpl, tmp, sizeof(tmp), &key);
+    size_t extra = hashed ? hbs_str_len(tmpl) : 0;
 
     // Normalize pointers
-    module_copy = handlebars_talloc_size(CONTEXT, module->size);
+    module_copy = handlebars_talloc_size(CONTEXT, module->size + extra);
     if( !module_copy ) {
         mdb_txn_abort(txn);
         HANDLEBARS_MEMCHECK(module_copy, CONTEXT);
@@ -238,7 +258,8 @@ static void cache_add(
     handlebars_module_generate_hash(module_copy);
 
     // Make data
-    data.mv_size = module_copy->size;
+    memcpy((char *) module_copy + module_copy->size, hbs_str_val(tmpl), extra);
+    data.mv_size = module_copy->size + extra;
     data.mv_data = module_copy;
 
     // Store
-- 
2.43.0


From cfe26b5a4464cebb63f6790b35515005cf6321d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:21 +0000
Subject: [PATCH 59/99] fix: render on when the lmdb cache is full

---
 src/handlebars_cache_lmdb.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 169ed5d..29d1d9c 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -265,11 +265,18 @@ static void cache_add(
     // Store
     err = mdb_put(txn, dbi, &key, &data, 0);
     handlebars_talloc_free(module_copy);
+    if( err == MDB_MAP_FULL ) {
+        // No room for it
+        mdb_txn_abort(txn);
+        return;
+    }
     if( err != 0 ) goto error;
 
     // Commit, which ends the transaction in any case
     err = mdb_txn_commit(txn);
-    HANDLE_RC(err);
+    if( err != MDB_MAP_FULL ) {
+        HANDLE_RC(err);
+    }
 
     return;
 
-- 
2.43.0


From d0857dd95dc4671313475f288b9bfbaf55bdc562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:21 +0000
Subject: [PATCH 60/99] fix: do not run cached modules that were compiled with
 other flags

---
 src/handlebars_vm.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index c1cbede..23986a6 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -336,6 +336,7 @@ static struct handlebars_string * execute_template(
     bool volatile failed = false;
     struct handlebars_module * volatile module = NULL;
     bool volatile from_cache = false;
+    bool use_cache = vm->cache != NULL;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     jmp_buf buf;
 
@@ -375,6 +376,12 @@ static struct handlebars_string * execute_template(
     if( vm->cache ) {
         module = handlebars_cache_find(vm->cache, tmpl);
         from_cache = module != NULL;
+        if( from_cache && (unsigned long) handlebars_module_get_flags(module) != (vm->flags & handlebars_compiler_flag_all) ) {
+            // Compiled with other flags, leave it to those who use them
+            handlebars_cache_release(vm->cache, tmpl, module);
+            from_cache = false;
+            use_cache = false;
+        }
     }
 
     if( !from_cache ) {
@@ -391,7 +398,7 @@ static struct handlebars_string * execute_template(
         module = handlebars_program_serialize(context, program);
 
         // Save cache entry
-        if( vm->cache ) {
+        if( use_cache ) {
             handlebars_cache_add(vm->cache, tmpl, module);
         }
 
-- 
2.43.0


From ee058ed06ec224e53fe2c99ce44ec97d52239fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:27 +0000
Subject: [PATCH 61/99] fix: keep the simple cache from freeing modules that
 are being executed

---
 src/handlebars_cache_simple.c | 11 ++++++++++-
 src/handlebars_vm.c           |  9 ++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 7bb9bb4..438603b 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -90,6 +90,11 @@ static int cache_gc(struct handlebars_cache * cache)
     time_t now;
     time(&now);
 
+    // Removing an entry frees its module, wait until none is being executed
+    if( stat->refcount > 0 ) {
+        return 0;
+    }
+
     size_t remove_keys_i = 0;
     struct handlebars_string ** remove_keys = handlebars_talloc_array(HBSCTX(cache), struct handlebars_string *, handlebars_map_count(map) + 1);
     HANDLEBARS_MEMCHECK(remove_keys, HBSCTX(cache));
@@ -137,6 +142,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
         assert(talloc_get_type_abort(module, struct handlebars_module) != NULL);
         time(&module->ts);
         intern->stat.hits++;
+        intern->stat.refcount++;
     } else {
         intern->stat.misses++;
     }
@@ -173,7 +179,8 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
 {
-    ;
+    struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
+    intern->stat.refcount--;
 }
 
 static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
@@ -191,7 +198,9 @@ static void cache_reset(struct handlebars_cache * cache)
     handlebars_talloc_free(intern->map);
     intern->map = handlebars_map_ctor(HBSCTX(cache), 32);
 
+    size_t refcount = intern->stat.refcount;
     memset(&intern->stat, 0, sizeof(intern->stat));
+    intern->stat.refcount = refcount;
 }
 
 #undef CONTEXT
diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 23986a6..569024f 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -399,7 +399,14 @@ static struct handlebars_string * execute_template(
 
         // Save cache entry
         if( use_cache ) {
-            handlebars_cache_add(vm->cache, tmpl, module);
+            // The cache may free what it is given while we are still executing ours
+            size_t size = handlebars_module_get_size(module);
+            struct handlebars_module * copy = handlebars_talloc_size(context, size);
+            HANDLEBARS_MEMCHECK(copy, CONTEXT);
+            talloc_set_type(copy, struct handlebars_module);
+            memcpy(copy, module, size);
+            handlebars_module_patch_pointers(copy);
+            handlebars_cache_add(vm->cache, tmpl, copy);
         }
 
         // Cleanup parser
-- 
2.43.0


From 9af47808a1a0346bbbbf7a59fe676d5542915d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:18 +0000
Subject: [PATCH 62/99] fix: free the modules of a simple cache that is reset

---
 src/handlebars_cache_simple.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 438603b..6a65772 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -195,7 +195,12 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
 static void cache_reset(struct handlebars_cache * cache)
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
-    handlebars_talloc_free(intern->map);
+    if( intern->stat.refcount > 0 ) {
+        // Modules that are being executed must stay, they go with the cache
+        handlebars_talloc_free(intern->map);
+    } else {
+        handlebars_map_delref(intern->map);
+    }
     intern->map = handlebars_map_ctor(HBSCTX(cache), 32);
 
     size_t refcount = intern->stat.refcount;
-- 
2.43.0


From 9e879a73f941a10fee4d10540b871ed96eae4676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:23 +0000
Subject: [PATCH 63/99] fix: name of the return opcode could not be looked up

---
 src/handlebars_opcodes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_opcodes.c b/src/handlebars_opcodes.c
index dc096fc..fad6379 100644
--- a/src/handlebars_opcodes.c
+++ b/src/handlebars_opcodes.c
@@ -248,6 +248,7 @@ enum handlebars_opcode_type handlebars_opcode_reverse_readable_type(const char *
         case 'r':
             _RTYPE_REV_CMP(resolve_possible_lambda, resolvePossibleLambda);
             _RTYPE_REV_CMP(register_decorator, registerDecorator);
+            _RTYPE_REV_CMP(return, return);
             break;
 
         default: assert(0); break; // LCOV_EXCL_LINE
-- 
2.43.0


From 0684320838bffa9d88cf6034d95486086bd3c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:23 +0000
Subject: [PATCH 64/99] fix: name lookups read their argument, so they are
 pure, not const

---
 src/handlebars_opcodes.h | 2 +-
 src/handlebars_token.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_opcodes.h b/src/handlebars_opcodes.h
index 30f09c1..3be0a37 100644
--- a/src/handlebars_opcodes.h
+++ b/src/handlebars_opcodes.h
@@ -210,7 +210,7 @@ const char * handlebars_opcode_readable_type(
  */
 enum handlebars_opcode_type handlebars_opcode_reverse_readable_type(
     const char * type
-) HBS_ATTR_NONNULL_ALL HBS_ATTR_CONST;
+) HBS_ATTR_NONNULL_ALL HBS_ATTR_PURE;
 
 /**
  * @brief Get the number of operands a particular opcode type should have
diff --git a/src/handlebars_token.h b/src/handlebars_token.h
index 8595870..e6075e5 100644
--- a/src/handlebars_token.h
+++ b/src/handlebars_token.h
@@ -108,7 +108,7 @@ const char * handlebars_token_readable_type(
  */
 int handlebars_token_reverse_readable_type(
     const char * type
-) HBS_ATTR_NONNULL_ALL HBS_ATTR_CONST;
+) HBS_ATTR_NONNULL_ALL HBS_ATTR_PURE;
 
 /**
  * @brief Print a token into a human-readable string
-- 
2.43.0


From 8dcab18e5198dde7ecf8ba14618a043dc77d3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:25 +0000
Subject: [PATCH 65/99] fix: count the nodes inserted into a syntax-tree list

---
 src/handlebars_ast_list.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_ast_list.c b/src/handlebars_ast_list.c
index 6008372..643cb79 100644
--- a/src/handlebars_ast_list.c
+++ b/src/handlebars_ast_list.c
@@ -62,11 +62,11 @@ void handlebars_ast_list_append(struct handlebars_ast_list * list, struct handle
         // Initialize
         list->first = item;
         list->last = item;
+        list->count++;
     } else {
         // Append
         handlebars_ast_list_insert_after(list, list->last, item);
     }
-    list->count++;
 }
 
 size_t handlebars_ast_list_count(struct handlebars_ast_list * list)
@@ -110,6 +110,7 @@ void handlebars_ast_list_insert_after(struct handlebars_ast_list * list,
         item->next->prev = new_item;
     }
     item->next = new_item;
+    list->count++;
 }
 
 void handlebars_ast_list_insert_before(struct handlebars_ast_list * list,
@@ -124,6 +125,7 @@ void handlebars_ast_list_insert_before(struct handlebars_ast_list * list,
         item->prev->next = new_item;
     }
     item->prev = new_item;
+    list->count++;
 }
 
 bool handlebars_ast_list_remove(struct handlebars_ast_list * list, struct handlebars_ast_node * ast_node)
@@ -180,8 +182,8 @@ void handlebars_ast_list_prepend(struct handlebars_ast_list * list, struct handl
         // Initialize
         list->first = item;
         list->last = item;
+        list->count++;
     } else {
         handlebars_ast_list_insert_before(list, list->first, item);
     }
-    list->count++;
 }
-- 
2.43.0


From 6430a2a7603fbaeac0868bea63ff7bdcfce4eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 66/99] fix: keep the type of a string that is compacted

---
 src/handlebars_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 196fd72..3935586 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -323,6 +323,7 @@ struct handlebars_string * handlebars_string_compact(struct handlebars_string *
     if( talloc_get_size(string) > size ) {
         string = separate_string(string);
         string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        talloc_set_type(string, struct handlebars_string);
     }
     return string;
 }
-- 
2.43.0


From 9338fd2d2d746bdb5064c19d61ca7213e4b1dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 67/99] fix: write a space before block parameters

---
 src/handlebars_ast_printer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 8eafb94..f0a7830 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -673,7 +673,7 @@ static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_nod
 
     if (ast_node->node.block.program) {
         if( ast_node->node.block.program->node.program.block_param1 ) {
-            __APPENDS("as |");
+            __APPENDS(" as |");
             __APPEND_STR(ast_node->node.block.program->node.program.block_param1);
             if( ast_node->node.block.program->node.program.block_param2 ) {
                 __APPENDS(" ");
-- 
2.43.0


From 290dc30e04b21dec813adff61fc69ee87d240b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:38 +0000
Subject: [PATCH 68/99] fix: write sub-expressions with their parentheses

---
 src/handlebars_ast_printer.c | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index f0a7830..25b29e1 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -555,12 +555,6 @@ static void _handlebars_ast_to_string_path_params_hash(
     struct handlebars_ast_node * path, struct handlebars_ast_list * params,
     struct handlebars_ast_node * hash, struct handlebars_ast_printer_context * ctx)
 {
-    int depth = ctx->padding++;
-
-    if (depth > 0) {
-        __APPENDS("(");
-    }
-
     if( path ) {
         __PRINT(path);
     }
@@ -584,12 +578,6 @@ static void _handlebars_ast_to_string_path_params_hash(
         __APPENDS(" ");
         __PRINT(hash);
     }
-
-    if (depth > 0) {
-        __APPENDS(")");
-    }
-
-    ctx->padding--;
 }
 
 
@@ -806,9 +794,10 @@ static void _handlebars_ast_to_string_comment(struct handlebars_ast_node * ast_n
 
 static void _handlebars_ast_to_string_sexpr(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    // Sexpr
+    __APPENDS("(");
     _handlebars_ast_to_string_path_params_hash(ast_node->node.sexpr.path,
             ast_node->node.sexpr.params, ast_node->node.sexpr.hash, ctx);
+    __APPENDS(")");
 }
 
 static void _handlebars_ast_to_string_string(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
-- 
2.43.0


From eee9f62047e1041457dc1138c6a0240792cb8389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:38 +0000
Subject: [PATCH 69/99] fix: write the parameters and whitespace control of
 partial blocks

---
 src/handlebars_ast_printer.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 25b29e1..9d93184 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -740,15 +740,12 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
     ctx->in_partial = true;
 
     // Sexpr
-    __APPENDS("{{#> ");
-    _handlebars_ast_to_string(ast_node->node.partial_block.path, ctx);
-    if( ast_node->node.partial_block.params ) {
-        _handlebars_ast_to_string_list(ast_node->node.partial_block.params, ctx);
-    }
-    if( ast_node->node.partial_block.hash ) {
-    	__APPENDS(" ");
-        _handlebars_ast_to_string(ast_node->node.partial_block.hash, ctx);
-    }
+    __APPENDS("{{");
+    __APPEND_STRIP_LEFT(ast_node->node.partial_block.open_strip);
+    __APPENDS("#> ");
+    _handlebars_ast_to_string_path_params_hash(ast_node->node.partial_block.path,
+            ast_node->node.partial_block.params, ast_node->node.partial_block.hash, ctx);
+    __APPEND_STRIP_RIGHT(ast_node->node.partial_block.open_strip);
     __APPENDS("}}");
 
     // Program
@@ -757,8 +754,11 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
     }
 
     // end
-    __APPENDS("{{/");
+    __APPENDS("{{");
+    __APPEND_STRIP_LEFT(ast_node->node.partial_block.close_strip);
+    __APPENDS("/");
     _handlebars_ast_to_string(ast_node->node.partial_block.path, ctx);
+    __APPEND_STRIP_RIGHT(ast_node->node.partial_block.close_strip);
     __APPENDS("}}");
 
     ctx->in_partial = false;
-- 
2.43.0


From 40ad493b68c9c37c790d6c96b45b5d37b94cbb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:38 +0000
Subject: [PATCH 70/99] fix: write literal path segments in their brackets

---
 src/handlebars_ast_printer.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 9d93184..5da84d3 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -867,7 +867,21 @@ static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node
     assert(ast_node->node.path.data == 0 || ast_node->node.path.data == 1);
 
     if (ast_node->node.path.original) {
-        __APPEND_STR(ast_node->node.path.original);
+        // The original lacks the brackets of literal segments, so write the segments themselves
+        size_t len = hbs_str_len(ast_node->node.path.original);
+        handlebars_ast_list_foreach(ast_list, item, tmp) {
+            len -= hbs_str_len(item->data->node.path_segment.part);
+            if (item->data->node.path_segment.separator) {
+                len -= hbs_str_len(item->data->node.path_segment.separator);
+            }
+        }
+        ctx->output = handlebars_string_append(ctx->ctx, ctx->output, hbs_str_val(ast_node->node.path.original), len);
+        handlebars_ast_list_foreach(ast_list, item, tmp) {
+            if (item->data->node.path_segment.separator) {
+                __APPEND_STR(item->data->node.path_segment.separator);
+            }
+            __APPEND_STR(item->data->node.path_segment.original);
+        }
     } else {
         if( ast_node->node.path.data ) {
             __APPENDS("@");
-- 
2.43.0


From 1e31e34f370e1f2b241528a3616284c91f08dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:38 +0000
Subject: [PATCH 71/99] fix: double a backslash that ends the text before a tag

---
 src/handlebars_ast_printer.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 5da84d3..91cfb48 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -105,6 +105,7 @@ struct handlebars_ast_printer_context {
     struct handlebars_string * output;
     bool in_partial;
     bool in_raw_block;
+    unsigned int in_block;
 };
 
 
@@ -548,6 +549,14 @@ static void _handlebars_ast_to_string_list(struct handlebars_ast_list * ast_list
 
     handlebars_ast_list_foreach(ast_list, item, tmp) {
         __PRINT(item->data);
+        // A single backslash would escape the tag behind it
+        if (item->data->type == HANDLEBARS_AST_NODE_CONTENT && !ctx->in_raw_block
+                && (item->next ? item->next->data->type != HANDLEBARS_AST_NODE_CONTENT : ctx->in_block > 0)) {
+            struct handlebars_string * content = item->data->node.content.original;
+            if (hbs_str_len(content) > 0 && hbs_str_val(content)[hbs_str_len(content) - 1] == '\\') {
+                __APPENDS("\\");
+            }
+        }
     }
 }
 
@@ -617,6 +626,7 @@ static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_nod
     if (is_raw) {
         ctx->in_raw_block = 1;
     }
+    ctx->in_block++;
 
     // Use an inverted section
     if (ast_node->node.block.inverse && !ast_node->node.block.program) {
@@ -702,6 +712,7 @@ static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_nod
     if (is_raw) { __APPENDS("}}"); }
 
 done:
+    ctx->in_block--;
     ctx->in_raw_block = 0;
 }
 
@@ -750,7 +761,9 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
 
     // Program
     if( ast_node->node.partial_block.program ) {
+        ctx->in_block++;
         __PRINT(ast_node->node.partial_block.program);
+        ctx->in_block--;
     }
 
     // end
-- 
2.43.0


From 232d9db3f09d397144f1d99c9bb8890724610d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:38 +0000
Subject: [PATCH 72/99] fix: indent opcodes nested deeper than the buffer

---
 src/handlebars_opcode_printer.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_opcode_printer.c b/src/handlebars_opcode_printer.c
index 5737bbf..3484943 100644
--- a/src/handlebars_opcode_printer.c
+++ b/src/handlebars_opcode_printer.c
@@ -53,11 +53,10 @@ static struct handlebars_opcode_printer * handlebars_opcode_printer_ctor(struct
 
 static inline struct handlebars_string * append_indent(struct handlebars_context * context, struct handlebars_string * string, size_t num)
 {
-    num *= 2;
-    char tmp[256];
-    memset(tmp, ' ', num);
-    tmp[num] = 0;
-    return handlebars_string_append(context, string, tmp, num);
+    while( num-- > 0 ) {
+        string = handlebars_string_append(context, string, HBS_STRL("  "));
+    }
+    return string;
 }
 
 struct handlebars_string * handlebars_operand_print_append(
-- 
2.43.0


From 8cf4c418cca614067a618b9958dc2e8805fcd0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:11 +0000
Subject: [PATCH 73/99] fix: print string operands that contain NUL bytes in
 full

---
 src/handlebars_opcode_printer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_opcode_printer.c b/src/handlebars_opcode_printer.c
index 3484943..e47d36d 100644
--- a/src/handlebars_opcode_printer.c
+++ b/src/handlebars_opcode_printer.c
@@ -83,7 +83,9 @@ struct handlebars_string * handlebars_operand_print_append(
             break;
         case handlebars_operand_type_string:
             tmp = handlebars_string_addcslashes(context, operand->data.string.string, HBS_STRL("\r\n\t"));
-            string = handlebars_string_asprintf_append(context, string, "[STRING:%.*s]", (int) hbs_str_len(tmp), hbs_str_val(tmp));
+            string = handlebars_string_append(context, string, HBS_STRL("[STRING:"));
+            string = handlebars_string_append(context, string, HBS_STR_STRL(tmp));
+            string = handlebars_string_append(context, string, HBS_STRL("]"));
             handlebars_talloc_free(tmp);
             break;
         case handlebars_operand_type_array: {
-- 
2.43.0


From 1a99fe565411151bbd5568ffe61d7cb4f85dfd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:55 +0000
Subject: [PATCH 74/99] fix: escape brackets of literal path segments

---
 src/handlebars_ast_printer.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 91cfb48..fc39588 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -893,7 +893,18 @@ static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node
             if (item->data->node.path_segment.separator) {
                 __APPEND_STR(item->data->node.path_segment.separator);
             }
-            __APPEND_STR(item->data->node.path_segment.original);
+            if (handlebars_string_eq(item->data->node.path_segment.part, item->data->node.path_segment.original)) {
+                __APPEND_STR(item->data->node.path_segment.part);
+            } else {
+                struct handlebars_string * escaped = handlebars_string_addcslashes(ctx->ctx, item->data->node.path_segment.part, HBS_STRL("]"));
+                __APPENDS("[");
+                __APPEND_STR(escaped);
+                if (hbs_str_len(escaped) > 0 && hbs_str_val(escaped)[hbs_str_len(escaped) - 1] == '\\') {
+                    __APPENDS("\\");
+                }
+                __APPENDS("]");
+                handlebars_talloc_free(escaped);
+            }
         }
     } else {
         if( ast_node->node.path.data ) {
-- 
2.43.0


From 5246e298998ed981109d8affefde6daa382e1221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:06 +0000
Subject: [PATCH 75/99] fix: keep a map usable after an iteration that does not
 end

The iterator locked the map against growing, and a render that failed within
an iteration left it locked: adding to the map failed from then on. Hold a
reference instead, so that changes made meanwhile go to a copy.
---
 src/handlebars_value.c | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index f22fe25..2853585 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -858,36 +858,25 @@ static bool handlebars_value_iterator_next_stack(struct handlebars_value_iterato
     return true;
 }
 
-static bool handlebars_value_iterator_next_map_nested(struct handlebars_value_iterator * it)
+static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
 {
+    struct handlebars_map * map = it->usr;
     struct handlebars_value * tmp;
 
-    assert(it->value != NULL);
-    assert(it->value->type == HANDLEBARS_VALUE_TYPE_MAP);
-
+    assert(map != NULL);
 
-    if( it->index >= handlebars_map_count(it->value->v.map) - 1 ) {
+    if( it->index >= handlebars_map_count(map) - 1 ) {
         handlebars_value_dtor(it->cur);
+        handlebars_map_delref(map);
         return false;
     }
 
     it->index++;
-    handlebars_map_get_kv_at_index(it->value->v.map, it->index, &it->key, &tmp);
+    handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     return true;
 }
 
-static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
-{
-    if (!handlebars_value_iterator_next_map_nested(it)) {
-        // Only the outermost iterator releases the map
-        handlebars_map_set_is_in_iteration(it->value->v.map, false);
-        return false;
-    }
-
-    return true;
-}
-
 bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struct handlebars_value * value)
 {
     struct handlebars_value * tmp;
@@ -912,13 +901,11 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
                 it->next = &handlebars_value_iterator_next_void;
                 return false;
             }
-            if (handlebars_map_set_is_in_iteration(value->v.map, true)) {
-                // An outer iterator has already compacted and locked the map
-                it->next = &handlebars_value_iterator_next_map_nested;
-            } else {
-                handlebars_map_sparse_array_compact(value->v.map); // meh
-                it->next = &handlebars_value_iterator_next_map;
-            }
+            handlebars_map_sparse_array_compact(value->v.map); // meh
+            // Changes made during the iteration go to a copy
+            handlebars_map_addref(value->v.map);
+            it->usr = value->v.map;
+            it->next = &handlebars_value_iterator_next_map;
             it->value = value;
             it->index = 0;
             handlebars_map_get_kv_at_index(value->v.map, it->index, &it->key, &tmp);
-- 
2.43.0


From 6b0f2a26b2a18fe54dbe29d27064135254bd84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:06 +0000
Subject: [PATCH 76/99] fix: allow nested iteration of the loaded partials

---
 src/handlebars_partial_loader.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index a12ff28..01fdaca 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -138,8 +138,7 @@ static bool hbs_partial_loader_iterator_next_void(struct handlebars_value_iterat
 
 static bool hbs_partial_loader_iterator_next_map(struct handlebars_value_iterator * it)
 {
-    struct handlebars_partial_loader * intern = GET_INTERN_V(it->value);
-    struct handlebars_map * map = intern->map;
+    struct handlebars_map * map = it->usr;
     struct handlebars_value * tmp;
 
     assert(it->value != NULL);
@@ -147,7 +146,7 @@ static bool hbs_partial_loader_iterator_next_map(struct handlebars_value_iterato
 
     if( it->index >= handlebars_map_count(map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(map, false);
+        handlebars_map_delref(map);
         return false;
     }
 
@@ -169,15 +168,14 @@ static bool hbs_partial_loader_iterator_init(struct handlebars_value_iterator *
     }
 
     handlebars_map_sparse_array_compact(map); // meh
+    // Partials loaded during the iteration go to a copy
+    handlebars_map_addref(map);
+    it->usr = map;
     it->value = value;
     it->index = 0;
     handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     it->next = &hbs_partial_loader_iterator_next_map;
-    if (handlebars_map_set_is_in_iteration(map, true)) {
-        fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-        abort();
-    }
 
     return true;
 }
@@ -212,6 +210,7 @@ struct handlebars_value * handlebars_value_partial_loader_init(
     obj->base_path = talloc_steal(obj, handlebars_string_copy_ctor(context, base_path));
     obj->extension = talloc_steal(obj, handlebars_string_copy_ctor(context, extension));
     obj->map = talloc_steal(obj, handlebars_map_ctor(context, 32));
+    handlebars_map_addref(obj->map);
     talloc_set_destructor(obj, partial_loader_dtor);
     handlebars_value_user(rv, (struct handlebars_user *) obj);
     return rv;
-- 
2.43.0


From fe3b573660b5a2a3ae749a8491197da67a2d99c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 77/99] fix: locate tokens by the line and column of their
 first and last byte

Lines were counted up to the end of a token and columns started over with its
whole length at a newline, and bytes put back for another token were counted
twice.
---
 src/handlebars.l                | 11 +++++++----
 src/handlebars.lex.c            | 27 +++++++++++++++------------
 src/handlebars_parser.c         |  2 ++
 src/handlebars_parser_private.c | 19 +++++++++++++++++++
 src/handlebars_parser_private.h | 20 ++++++++++++++++++++
 5 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 990ee33..dc7ba60 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -81,6 +81,7 @@
 		for ( i = yyleng - 1; i >= yyleng - n && i >= 0; --i ) { \
 			unput( yycopy[i] ); \
 		} \
+		handlebars_yy_locate(yylloc, yyextra, yycopy, yyleng > n ? yyleng - n : 0); \
 		handlebars_talloc_free(yycopy); \
     } while(0)
 
@@ -88,10 +89,9 @@
     yylval->string = handlebars_string_ctor(HBSCTX(yyextra), yytext, yyleng);
 
 #define YY_USER_ACTION \
-    yylloc->first_line = yylloc->last_line = yylineno; \
-    yylloc->first_column = yycolumn; \
-    yylloc->last_column = yycolumn + yyleng - 1; \
-    yycolumn += yyleng; \
+    yylloc->first_line = yyextra->line; \
+    yylloc->first_column = yyextra->column; \
+    handlebars_yy_locate(yylloc, yyextra, yytext, yyleng); \
    	YY_USER_DEBUG_ACTION;
 %}
 
@@ -487,6 +487,9 @@ BLOCKPARAM [\x7C]
 
 <<EOF>>              	            {
 										// v2.0.0 handlebars.l line 102
+										yylloc->first_line = yyextra->line;
+										yylloc->first_column = yyextra->column;
+										handlebars_yy_locate(yylloc, yyextra, "", 0);
 										return END;
 									}
 
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 1c1c8f9..657556e 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -1,6 +1,6 @@
-#line 2 "handlebars.lex.c"
+#line 0 "handlebars.lex.c"
 
-#line 4 "handlebars.lex.c"
+#line 3 "handlebars.lex.c"
 
 #define  YY_INT_ALIGNED long int
 
@@ -6659,6 +6659,7 @@ static const yy_state_type yy_NUL_trans[187] =
 		for ( i = yyleng - 1; i >= yyleng - n && i >= 0; --i ) { \
 			unput( yycopy[i] ); \
 		} \
+		handlebars_yy_locate(yylloc, yyextra, yycopy, yyleng > n ? yyleng - n : 0); \
 		handlebars_talloc_free(yycopy); \
     } while(0)
 
@@ -6666,14 +6667,13 @@ static const yy_state_type yy_NUL_trans[187] =
     yylval->string = handlebars_string_ctor(HBSCTX(yyextra), yytext, yyleng);
 
 #define YY_USER_ACTION \
-    yylloc->first_line = yylloc->last_line = yylineno; \
-    yylloc->first_column = yycolumn; \
-    yylloc->last_column = yycolumn + yyleng - 1; \
-    yycolumn += yyleng; \
+    yylloc->first_line = yyextra->line; \
+    yylloc->first_column = yyextra->column; \
+    handlebars_yy_locate(yylloc, yyextra, yytext, yyleng); \
    	YY_USER_DEBUG_ACTION;
-#line 6675 "handlebars.lex.c"
+#line 6674 "handlebars.lex.c"
 
-#line 6677 "handlebars.lex.c"
+#line 6676 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -6956,7 +6956,7 @@ YY_DECL
 
 
 
-#line 6960 "handlebars.lex.c"
+#line 6959 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -7575,15 +7575,18 @@ case YY_STATE_EOF(raw):
 #line 488 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
+										yylloc->first_line = yyextra->line;
+										yylloc->first_column = yyextra->column;
+										handlebars_yy_locate(yylloc, yyextra, "", 0);
 										return END;
 									}
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 493 "handlebars.l"
+#line 496 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 7587 "handlebars.lex.c"
+#line 7589 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -8792,6 +8795,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 493 "handlebars.l"
+#line 496 "handlebars.l"
 
 
diff --git a/src/handlebars_parser.c b/src/handlebars_parser.c
index 51ec25a..ff5875e 100644
--- a/src/handlebars_parser.c
+++ b/src/handlebars_parser.c
@@ -63,6 +63,8 @@ struct handlebars_parser * handlebars_parser_ctor(struct handlebars_context * ct
     // Steal the scanner just in case
     parser->scanner = talloc_steal(parser, parser->scanner);
 
+    parser->line = 1;
+
     // Set the extra on the lexer
     handlebars_yy_set_extra(parser, parser->scanner);
 
diff --git a/src/handlebars_parser_private.c b/src/handlebars_parser_private.c
index e2a0699..b767423 100644
--- a/src/handlebars_parser_private.c
+++ b/src/handlebars_parser_private.c
@@ -69,6 +69,25 @@ void handlebars_yy_input(char * buffer, int *numBytesRead, int maxBytesToRead, s
     parser->tmplReadOffset += numBytesToRead;
 }
 
+void handlebars_yy_locate(struct handlebars_locinfo * lloc, struct handlebars_parser * parser, const char * text, size_t length)
+{
+    size_t i;
+
+    lloc->last_line = parser->line = lloc->first_line;
+    lloc->last_column = parser->column = lloc->first_column;
+
+    for( i = 0; i < length; i++ ) {
+        lloc->last_line = parser->line;
+        lloc->last_column = parser->column;
+        if( text[i] == '\n' ) {
+            parser->line++;
+            parser->column = 0;
+        } else {
+            parser->column++;
+        }
+    }
+}
+
 void handlebars_yy_error(struct handlebars_locinfo * lloc, struct handlebars_parser * parser, const char * err)
 {
     assert(parser != NULL);
diff --git a/src/handlebars_parser_private.h b/src/handlebars_parser_private.h
index 56ed56d..0cc31b5 100644
--- a/src/handlebars_parser_private.h
+++ b/src/handlebars_parser_private.h
@@ -46,6 +46,10 @@ struct handlebars_parser
     struct handlebars_ast_node * program;
     bool whitespace_root_seen;
     unsigned flags;
+
+    //! The position of the next byte to be scanned
+    int line;
+    int column;
 };
 
 #ifdef TLS
@@ -58,6 +62,22 @@ HBS_TEST_PUBLIC extern HBS_PARSER_TLS struct handlebars_parser * handlebars_pars
 
 #undef HBS_PARSER_TLS
 
+/**
+ * @brief Set the location of the current token and move the position behind it
+ *
+ * @param[in] lloc The location, the first line and column of which are set
+ * @param[in] parser The handlebars parser
+ * @param[in] text The text of the token
+ * @param[in] length The length of the token
+ * @return void
+ */
+void handlebars_yy_locate(
+    struct handlebars_locinfo * lloc,
+    struct handlebars_parser * parser,
+    const char * text,
+    size_t length
+) HBS_TEST_PUBLIC;
+
 /**
  * @brief Handle an error in the parser. Prints message to stderr
  *
-- 
2.43.0


From 78a4d3dc8826481c4f3079a32805ff186e0655dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:07 +0000
Subject: [PATCH 78/99] fix: parse a second template with the same parser

The read offset, the scanner's states and buffer and the whitespace flag were
left as the previous template had them.
---
 src/handlebars.l                | 10 ++++++++++
 src/handlebars.lex.c            | 10 ++++++++++
 src/handlebars_parser.c         | 16 ++++++++++++++--
 src/handlebars_parser_private.h |  8 ++++++++
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index dc7ba60..1ba0ee6 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -494,3 +494,13 @@ BLOCKPARAM [\x7C]
 									}
 
 %%
+
+void handlebars_yy_reset(void * yyscanner)
+{
+    struct yyguts_t * yyg = (struct yyguts_t *) yyscanner;
+    yyg->yy_start_stack_ptr = 0;
+    BEGIN(INITIAL);
+    if( YY_CURRENT_BUFFER ) {
+        yyrestart(NULL, yyscanner);
+    }
+}
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 657556e..75f07e3 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -8798,3 +8798,13 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 #line 496 "handlebars.l"
 
 
+void handlebars_yy_reset(void * yyscanner)
+{
+    struct yyguts_t * yyg = (struct yyguts_t *) yyscanner;
+    yyg->yy_start_stack_ptr = 0;
+    BEGIN(INITIAL);
+    if( YY_CURRENT_BUFFER ) {
+        yyrestart(NULL, yyscanner);
+    }
+}
+
diff --git a/src/handlebars_parser.c b/src/handlebars_parser.c
index ff5875e..debe490 100644
--- a/src/handlebars_parser.c
+++ b/src/handlebars_parser.c
@@ -63,8 +63,6 @@ struct handlebars_parser * handlebars_parser_ctor(struct handlebars_context * ct
     // Steal the scanner just in case
     parser->scanner = talloc_steal(parser, parser->scanner);
 
-    parser->line = 1;
-
     // Set the extra on the lexer
     handlebars_yy_set_extra(parser, parser->scanner);
 
@@ -85,6 +83,17 @@ void handlebars_parser_dtor(struct handlebars_parser * parser)
 #undef CONTEXT
 #define CONTEXT HBSCTX(parser)
 
+// Start over with the current template, whatever state a previous one has left
+static void parser_reset(struct handlebars_parser * parser)
+{
+    parser->tmplReadOffset = 0;
+    parser->program = NULL;
+    parser->whitespace_root_seen = false;
+    parser->line = 1;
+    parser->column = 0;
+    handlebars_yy_reset(parser->scanner);
+}
+
 struct handlebars_token ** handlebars_lex_ex(
     struct handlebars_parser * parser,
     struct handlebars_string * tmpl
@@ -115,6 +124,8 @@ struct handlebars_token ** handlebars_lex(struct handlebars_parser * parser)
     struct handlebars_token * token;
     size_t i = 0;
 
+    parser_reset(parser);
+
     // Prepare token list
     tokens = MC(handlebars_talloc_array(parser, struct handlebars_token *, 32));
     HANDLEBARS_MEMCHECK(tokens, HBSCTX(parser));
@@ -159,6 +170,7 @@ struct handlebars_ast_node * handlebars_parse_ex(struct handlebars_parser * pars
 
     parser->tmpl = tmpl;
     parser->flags = flags;
+    parser_reset(parser);
 
     handlebars_yy_parse(parser);
 
diff --git a/src/handlebars_parser_private.h b/src/handlebars_parser_private.h
index 0cc31b5..c270430 100644
--- a/src/handlebars_parser_private.h
+++ b/src/handlebars_parser_private.h
@@ -62,6 +62,14 @@ HBS_TEST_PUBLIC extern HBS_PARSER_TLS struct handlebars_parser * handlebars_pars
 
 #undef HBS_PARSER_TLS
 
+/**
+ * @brief Return the lexer to its initial state, discarding what has been read
+ *
+ * @param[in] yyscanner The scanner object
+ * @return void
+ */
+void handlebars_yy_reset(void * yyscanner) HBS_TEST_PUBLIC;
+
 /**
  * @brief Set the location of the current token and move the position behind it
  *
-- 
2.43.0


From 461de26dcc46d2c8a248e1a3f74185442ddd03c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:18 +0000
Subject: [PATCH 79/99] fix: do not cut long error messages

---
 src/handlebars.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/handlebars.c b/src/handlebars.c
index 7a70c79..2c7f4e0 100644
--- a/src/handlebars.c
+++ b/src/handlebars.c
@@ -111,7 +111,6 @@ const char * handlebars_error_msg(struct handlebars_context * context)
 char * handlebars_error_message(struct handlebars_context * context)
 {
     char * errmsg;
-    char errbuf[256];
     struct handlebars_error * e = context->e;
 
     assert(context != NULL);
@@ -121,12 +120,10 @@ char * handlebars_error_message(struct handlebars_context * context)
         return NULL;
     }
 
-    snprintf(errbuf, sizeof(errbuf), "%s on line %d, column %d",
+    errmsg = handlebars_talloc_asprintf(context, "%s on line %d, column %d",
              e->msg,
              e->loc.last_line,
              e->loc.last_column);
-
-    errmsg = handlebars_talloc_strdup(context, errbuf);
     if( unlikely(errmsg == NULL) ) {
         // this might be a bad idea...
         // fprintf(stderr, "%s\n", e->msg);
@@ -140,7 +137,6 @@ char * handlebars_error_message(struct handlebars_context * context)
 char * handlebars_error_message_js(struct handlebars_context * context)
 {
     char * errmsg;
-    char errbuf[512];
     struct handlebars_error * e = context->e;
 
     assert(context != NULL);
@@ -151,12 +147,10 @@ char * handlebars_error_message_js(struct handlebars_context * context)
 
     // @todo check errno == HANDLEBARS_PARSEERR
 
-    snprintf(errbuf, sizeof(errbuf), "Parse error on line %d, column %d : %s",
+    errmsg = handlebars_talloc_asprintf(context, "Parse error on line %d, column %d : %s",
              e->loc.first_line,
              e->loc.first_column,
              e->msg);
-
-    errmsg = handlebars_talloc_strdup(context, errbuf);
     if( unlikely(errmsg == NULL) ) {
         // this might be a bad idea...
         // fprintf(stderr, "%s\n", e->msg);
-- 
2.43.0


From d2bc934bfb632492599fb694d0a2f6f461c0d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:49 +0000
Subject: [PATCH 80/99] fix: do not use the freed map when a hash argument
 makes the hash grow

---
 src/handlebars_vm.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 569024f..4f6970a 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -625,9 +625,7 @@ ACCEPT_FUNCTION(assign_to_hash)
     assert(opcode->op1.type == handlebars_operand_type_string);
     assert(handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP);
 
-    struct handlebars_map * map = handlebars_value_get_map(hash);
-    map = handlebars_map_update(map, opcode->op1.data.string.string, value);
-    handlebars_value_map(hash, map);
+    handlebars_value_map_update(hash, opcode->op1.data.string.string, value);
 
     PUSH(vm->hashStack, hash);
 
-- 
2.43.0


From ad812a7fb75e13983330da0148c0e6b8dada150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:49 +0000
Subject: [PATCH 81/99] fix: keep a string that cannot be compacted

---
 src/handlebars_string.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 3935586..5d5e5dd 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -322,8 +322,11 @@ struct handlebars_string * handlebars_string_compact(struct handlebars_string *
     size_t size = HBS_STR_SIZE(string->len);
     if( talloc_get_size(string) > size ) {
         string = separate_string(string);
-        string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
-        talloc_set_type(string, struct handlebars_string);
+        struct handlebars_string * new_string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        if( likely(new_string != NULL) ) {
+            string = new_string;
+            talloc_set_type(string, struct handlebars_string);
+        }
     }
     return string;
 }
-- 
2.43.0


From eda2d43e0599992d62ae8e36b0dd61e081f112c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:49 +0000
Subject: [PATCH 82/99] fix: report failed allocations while serializing a
 program

---
 src/handlebars_opcode_serializer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index 698f2d2..3008b38 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -243,6 +243,7 @@ struct handlebars_module * handlebars_program_serialize(
 ) {
     // Allocate initial buffer
     struct handlebars_module * module = handlebars_talloc_zero(context, struct handlebars_module);
+    HANDLEBARS_MEMCHECK(module, context);
     memcpy(module->header, module_header, sizeof(module_header));
     module->version = handlebars_version();
     module->flags = program->flags;
@@ -253,6 +254,7 @@ struct handlebars_module * handlebars_program_serialize(
 
     // Reallocate buffer
     module = handlebars_talloc_realloc_size(context, module, module->size);
+    HANDLEBARS_MEMCHECK(module, context);
     module->addr = (void *) module;
     talloc_set_type(module, struct handlebars_module);
 
-- 
2.43.0


From 2831cd6c4713e0dd7620b49c9d73a2a76720ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:47 +0000
Subject: [PATCH 83/99] fix: report failed allocations while dumping nested
 values

---
 src/handlebars_value.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 2853585..0539071 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -778,18 +778,22 @@ char * handlebars_value_dump(struct handlebars_value * value, struct handlebars_
             break;
         case HANDLEBARS_VALUE_TYPE_ARRAY:
             buf = handlebars_talloc_asprintf_append_buffer(buf, "[%s", handlebars_value_count(value) ? "\n" : "");
+            HANDLEBARS_MEMCHECK(buf, context);
             HANDLEBARS_VALUE_FOREACH_IDX(value, index, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
                 buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%zd => %s\n", indent2, index, tmp);
+                HANDLEBARS_MEMCHECK(buf, context);
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
             buf = handlebars_talloc_asprintf_append_buffer(buf, "%s]", handlebars_value_count(value) ? indent : "");
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
             buf = handlebars_talloc_asprintf_append_buffer(buf, "{%s", handlebars_value_count(value) ? "\n" : "");
+            HANDLEBARS_MEMCHECK(buf, context);
             HANDLEBARS_VALUE_FOREACH_KV(value, key, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
                 buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%.*s => %s\n", indent2, (int) hbs_str_len(key), hbs_str_val(key), tmp);
+                HANDLEBARS_MEMCHECK(buf, context);
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
             buf = handlebars_talloc_asprintf_append_buffer(buf, "%s}", handlebars_value_count(value) ? indent : "");
-- 
2.43.0


From ad4c8b8cf17920aa530aef40ec0285f856e94761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:17 +0000
Subject: [PATCH 84/99] fix: do not open another file for a partial name that
 contains a NUL byte

---
 src/handlebars_partial_loader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 01fdaca..d8096ed 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -97,10 +97,12 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
         filename = handlebars_string_append_str(intern->user.ctx, filename, intern->extension);
     }
 
-    FILE * f;
+    FILE * f = NULL;
     long size;
 
-    f = fopen(hbs_str_val(filename), "rb");
+    if( memchr(hbs_str_val(filename), 0, hbs_str_len(filename)) == NULL ) {
+        f = fopen(hbs_str_val(filename), "rb");
+    }
     if( !f ) {
         handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "File to open partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
     }
-- 
2.43.0


From ab3ae48901e61d37fb696f21e04ec39353192b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:17 +0000
Subject: [PATCH 85/99] fix: check the size and the buffer before reading a
 partial

---
 src/handlebars_partial_loader.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index d8096ed..0504f00 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 #include <talloc.h>
 
@@ -107,15 +108,17 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
         handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "File to open partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
     }
 
-    fseek(f, 0, SEEK_END);
-    size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    if( fseek(f, 0, SEEK_END) != 0 || (size = ftell(f)) < 0 || size == LONG_MAX || fseek(f, 0, SEEK_SET) != 0 ) {
+        size = 0;
+    }
 
-    char * buf = handlebars_talloc_array(intern->user.ctx, char, size + 1);
-    size_t read = fread(buf, size, 1, f);
+    char * buf = handlebars_talloc_size(intern->user.ctx, (size_t) size + 1);
+    size_t read = buf != NULL ? fread(buf, size, 1, f) : 0;
     fclose(f);
+    HANDLEBARS_MEMCHECK(buf, intern->user.ctx);
 
     if (!read) {
+        handlebars_talloc_free(buf);
         handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "Failed to read partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
     }
 
-- 
2.43.0


From 2eb64b68306c2dade86918026d7199a8f54e9562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:43 +0000
Subject: [PATCH 86/99] fix: refuse a delimiter change without a closing
 delimiter

---
 src/handlebars_delimiters.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index c7340fa..4309f2a 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -170,9 +170,12 @@ struct handlebars_string * handlebars_preprocess_delimiters(
 
                 // Scan backwards while whitespace
                 pce = p - 1;
-                while( *pce == ' ' ) {
+                while( pce >= pc && *pce == ' ' ) {
                     pce--;
                 }
+                if( pce < pc ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "Delimiter change must contain two delimiters");
+                }
 
                 // Save new close tag
                 new_close = handlebars_string_ctor(ctx, pc, pce - pc + 1);
-- 
2.43.0


From 323603636948f09750ba0f8f6fc6df43d00ee32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:43 +0000
Subject: [PATCH 87/99] fix: do not add a NUL byte to a template that ends with
 a backslash

---
 src/handlebars_delimiters.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index 4309f2a..4b6c1dd 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -90,8 +90,10 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 // If current character is a slash, skip one character
                 if( *p == '\\' ) {
                     append(p, 1);
-                    move_forward(1);
-                    append(p, 1);
+                    if( i > 1 ) {
+                        move_forward(1);
+                        append(p, 1);
+                    }
                     continue;
                 }
 
-- 
2.43.0


From ebef3313c6a22aff4ac058f7947826cd684664c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:43 +0000
Subject: [PATCH 88/99] fix: escape old delimiters as a whole unless they are
 the current ones

---
 src/handlebars_delimiters.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index 4b6c1dd..21501e4 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -68,14 +68,14 @@ struct handlebars_string * handlebars_preprocess_delimiters(
     const char *po = NULL;
     const char *pc = NULL;
     const char *pce = NULL;
-    int starts_with_bracket = 0;
+    bool default_open = true;
 
     // Initialize/duplicate open/close
     if( open == NULL ) {
         open = handlebars_string_ctor(ctx, HBS_STRL("{{"));
     } else {
         open = handlebars_string_copy_ctor(ctx, open);
-        starts_with_bracket = hbs_str_val(open)[0] == '{';
+        default_open = hbs_str_eq_strl(open, HBS_STRL("{{"));
     }
     if( close == NULL ) {
         close = handlebars_string_ctor(ctx, HBS_STRL("}}"));
@@ -113,9 +113,11 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     state = 2; goto state2;
                 }
 
-                // Escape the bracket if our current custom delims aren't brackets
-                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !starts_with_bracket ) {
+                // Escape the brackets if they aren't our current delims
+                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !default_open ) {
                     append("\\", 1);
+                    append(p, 1);
+                    move_forward(1);
                 }
 
                 // This is an escape
@@ -200,7 +202,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 open = new_open;
                 close = new_close;
                 new_open = new_close = NULL;
-                starts_with_bracket = hbs_str_val(open)[0] == '{';
+                default_open = hbs_str_eq_strl(open, HBS_STRL("{{"));
 
 #if defined(YYDEBUG)
                 fprintf(stderr, "Delimiter preprocessor: New delimiters: \"%.*s\", \"%.*s\"\n", (int) hbs_str_len(open), hbs_str_val(open), (int) hbs_str_len(close), hbs_str_val(close));
-- 
2.43.0


From de65c892cade727002fd1bd3188846e56209803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:07 +0000
Subject: [PATCH 89/99] fix: a null element of lazily read JSON kept the value
 of the element before it when iterating

---
 src/handlebars_json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 13f4526..21ee5fe 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -285,7 +285,7 @@ void handlebars_value_init_json_object(struct handlebars_context * ctx, struct h
 
     switch( json_object_get_type(json) ) {
         case json_type_null:
-            // do nothing
+            handlebars_value_null(value);
             break;
         case json_type_boolean:
             handlebars_value_boolean(value, json_object_get_boolean(json));
-- 
2.43.0


From 6b3165357582bfa0a4bdf696a43c1bf059abab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:07 +0000
Subject: [PATCH 90/99] fix: null fields of lazily read JSON counted as
 missing, and a key with a NUL byte found the shorter one

---
 src/handlebars_json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 21ee5fe..cb9b1fd 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -145,8 +145,8 @@ static enum handlebars_value_type hbs_json_type(struct handlebars_value * value)
 static struct handlebars_value * hbs_json_map_find(struct handlebars_value * value, struct handlebars_string * key, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_object_get(intern->object, hbs_str_val(key));
-    if( item == NULL ) {
+    struct json_object * item = NULL;
+    if( strlen(hbs_str_val(key)) != hbs_str_len(key) || !json_object_object_get_ex(intern->object, hbs_str_val(key), &item) ) {
         return NULL;
     }
     handlebars_value_init_json_object(intern->user.ctx, rv, item);
-- 
2.43.0


From 5823d46983583e7b8408cd0a6eab561ff7c40ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:07 +0000
Subject: [PATCH 91/99] fix: null elements of lazily read JSON arrays counted
 as missing, and indexes from 4294967296 on wrapped around

---
 src/handlebars_json.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index cb9b1fd..720aa09 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -156,10 +156,11 @@ static struct handlebars_value * hbs_json_map_find(struct handlebars_value * val
 static struct handlebars_value * hbs_json_array_find(struct handlebars_value * value, size_t index, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_array_get_idx(intern->object, (int) index);
-    if( item == NULL ) {
+    struct json_object * item;
+    if( index >= (size_t) json_object_array_length(intern->object) ) {
         return NULL;
     }
+    item = json_object_array_get_idx(intern->object, index);
     handlebars_value_init_json_object(intern->user.ctx, rv, item);
     return rv;
 }
-- 
2.43.0


From 847d45906057ecc3b07eeb763639f2e2965e1e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:07 +0000
Subject: [PATCH 92/99] fix: iterating an empty lazily read JSON array gave one
 element

---
 src/handlebars_json.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 720aa09..d180bdd 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -225,11 +225,10 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
     switch( json_object_get_type(intern->object) ) {
         case json_type_object: {
             entry = json_object_get_object(intern->object)->head;
-            if (unlikely(entry == NULL)) { // LCOV_EXCL_START
-                assert(entry != NULL);
+            if( entry == NULL ) {
                 it->next = &hbs_json_iterator_next_void;
                 return false;
-            } // LCOV_EXCL_STOP
+            }
             char * tmp = (char *) entry->k;
             it->usr = (void *) entry;
             it->key = handlebars_string_ctor(intern->user.ctx, tmp, strlen(tmp));
@@ -240,6 +239,10 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
         }
 
         case json_type_array:
+            if( json_object_array_length(intern->object) <= 0 ) {
+                it->next = &hbs_json_iterator_next_void;
+                return false;
+            }
             it->index = 0;
             handlebars_value_init_json_object(intern->user.ctx, it->cur, json_object_array_get_idx(intern->object, (int) it->index));
             it->next = &hbs_json_iterator_next_array;
-- 
2.43.0


From 914976813a838fde8d8834709cf5b6372edcf542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:07 +0000
Subject: [PATCH 93/99] fix: a JSON text that is just a number was rejected,
 and text behind the JSON value was ignored

---
 src/handlebars_json.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index d180bdd..7010194 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -332,6 +332,19 @@ static struct json_object *json_tokener_parse_verbose_length(const char *str, si
     }
 
 	obj = json_tokener_parse_ex(tok, str, length);
+	if (tok->err == json_tokener_continue) {
+		// the text is complete, so is a number at its end
+		obj = json_tokener_parse_ex(tok, "", 1);
+	} else if (tok->err == json_tokener_success) {
+		// nothing but whitespace (and the terminator) may follow
+		size_t end = json_tokener_get_parse_end(tok);
+		while (end < length && (str[end] == ' ' || str[end] == '\t' || str[end] == '\n' || str[end] == '\r')) {
+			end++;
+		}
+		if (end < length && !(str[end] == '\0' && end + 1 == length)) {
+			tok->err = json_tokener_error_parse_unexpected;
+		}
+	}
 	*error = tok->err;
 	if (tok->err != json_tokener_success) {
 		if (obj != NULL) {
-- 
2.43.0


From 03fd254c883aed6abf4eb937d0d0b20160bfaf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:51 +0000
Subject: [PATCH 94/99] fix: quoted YAML scalars were read as booleans and
 numbers

---
 src/handlebars_yaml.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 6f9b350..4e84ddf 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -75,7 +75,9 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             break;
         }
         case YAML_SCALAR_NODE:
-            if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
+            if( node->data.scalar.style != YAML_PLAIN_SCALAR_STYLE && node->data.scalar.style != YAML_ANY_SCALAR_STYLE ) {
+                handlebars_value_str(value, handlebars_string_ctor(ctx, (const char *) node->data.scalar.value, node->data.scalar.length));
+            } else if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
                 handlebars_value_boolean(value, 1);
             } else if( 0 == strcmp((const char *) node->data.scalar.value, "false") ) {
                 handlebars_value_boolean(value, 0);
-- 
2.43.0


From 56733c9cae9e57b39c87d290c53abd2164a93379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:51 +0000
Subject: [PATCH 95/99] fix: empty YAML scalars were read as 0, ~ and null as
 strings

---
 src/handlebars_yaml.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 4e84ddf..60f4ac6 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -77,6 +77,8 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
         case YAML_SCALAR_NODE:
             if( node->data.scalar.style != YAML_PLAIN_SCALAR_STYLE && node->data.scalar.style != YAML_ANY_SCALAR_STYLE ) {
                 handlebars_value_str(value, handlebars_string_ctor(ctx, (const char *) node->data.scalar.value, node->data.scalar.length));
+            } else if( node->data.scalar.length == 0 || 0 == strcmp((const char *) node->data.scalar.value, "~") || 0 == strcmp((const char *) node->data.scalar.value, "null") ) {
+                handlebars_value_null(value);
             } else if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
                 handlebars_value_boolean(value, 1);
             } else if( 0 == strcmp((const char *) node->data.scalar.value, "false") ) {
-- 
2.43.0


From ec0c7035ce96163f2fb4db8a930f9b19de7604bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:51 +0000
Subject: [PATCH 96/99] fix: YAML words such as nan or infinity were read as
 floats and integers that are too large were cut

---
 src/handlebars_yaml.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 60f4ac6..39530d6 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -19,6 +19,8 @@
 #include "config.h"
 #endif
 
+#include <errno.h>
+#include <string.h>
 #include <yaml.h>
 
 #include "handlebars.h"
@@ -87,16 +89,19 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
                 long lval;
                 double dval;
                 // Long
+                errno = 0;
                 lval = strtol((const char *) node->data.scalar.value, &end, 10);
-                if( !*end ) {
+                if( !*end && errno != ERANGE ) {
                     handlebars_value_integer(value, lval);
                     goto done;
                 }
                 // Double
-                dval = strtod((const char *) node->data.scalar.value, &end);
-                if( !*end ) {
-                    handlebars_value_float(value, dval);
-                    goto done;
+                if( strspn((const char *) node->data.scalar.value, "0123456789.eE+-") == node->data.scalar.length ) {
+                    dval = strtod((const char *) node->data.scalar.value, &end);
+                    if( !*end ) {
+                        handlebars_value_float(value, dval);
+                        goto done;
+                    }
                 }
                 // String
                 handlebars_value_str(value, handlebars_string_ctor(ctx, (const char *) node->data.scalar.value, node->data.scalar.length));
-- 
2.43.0


From d61833e9b508182fcb092fe3b2bff800daef04ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:51 +0000
Subject: [PATCH 97/99] fix: YAML mappings with keys that are no scalars read
 invalid memory

---
 src/handlebars_yaml.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 39530d6..f6ab834 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -59,7 +59,9 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             for( pair = node->data.mapping.pairs.start; pair < node->data.mapping.pairs.top; pair++ ) {
                 yaml_node_t * keyNode = yaml_document_get_node(document, pair->key);
                 yaml_node_t * valueNode = yaml_document_get_node(document, pair->value);
-                assert(keyNode->type == YAML_SCALAR_NODE);
+                if( keyNode->type != YAML_SCALAR_NODE ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: only scalars are supported as keys");
+                }
                 handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
                 map = handlebars_map_str_update(map, (const char *) keyNode->data.scalar.value, keyNode->data.scalar.length, tmp);
             }
-- 
2.43.0


From 77c252b8f0e92d88059bda7cb1ed3dea510c831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:51 +0000
Subject: [PATCH 98/99] fix: YAML aliases to an enclosing node overflowed the
 stack

---
 src/handlebars_yaml.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index f6ab834..55bdebb 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -46,13 +46,20 @@ static int _yaml_ctx_dtor(struct _yaml_ctx * holder)
     return 0;
 }
 
-void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+// an alias within the node it stands for would never end
+#define YAML_MAX_DEPTH 512
+
+static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node, int depth)
 {
     HANDLEBARS_VALUE_DECL(tmp);
     yaml_node_pair_t * pair;
     yaml_node_item_t * item;
     char * end = NULL;
 
+    if( depth > YAML_MAX_DEPTH ) {
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: nested too deeply");
+    }
+
     switch( node->type ) {
         case YAML_MAPPING_NODE: {
             struct handlebars_map * map = handlebars_map_ctor(ctx, node->data.mapping.pairs.top - node->data.mapping.pairs.start);
@@ -62,7 +69,7 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
                 if( keyNode->type != YAML_SCALAR_NODE ) {
                     handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: only scalars are supported as keys");
                 }
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                init_yaml_node(ctx, tmp, document, valueNode, depth + 1);
                 map = handlebars_map_str_update(map, (const char *) keyNode->data.scalar.value, keyNode->data.scalar.length, tmp);
             }
             handlebars_value_map(value, map);
@@ -72,7 +79,7 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             struct handlebars_stack * stack = handlebars_stack_ctor(ctx, node->data.sequence.items.top - node->data.sequence.items.start);
             for( item = node->data.sequence.items.start; item < node->data.sequence.items.top; item++) {
                 yaml_node_t * valueNode = yaml_document_get_node(document, *item);
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                init_yaml_node(ctx, tmp, document, valueNode, depth + 1);
                 stack = handlebars_stack_push(stack, tmp);
             }
             handlebars_value_array(value, stack);
@@ -119,6 +126,11 @@ done:
     HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
+void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+{
+    init_yaml_node(ctx, value, document, node, 0);
+}
+
 void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct handlebars_value * value, const char * yaml)
 {
     struct _yaml_ctx * yctx = handlebars_talloc_zero(ctx, struct _yaml_ctx);
-- 
2.43.0


From 6806a2303e3e8754cf1696e8f5996392ee9b7a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:51 +0000
Subject: [PATCH 99/99] fix: malformed text behind a YAML document was ignored

---
 src/handlebars_yaml.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 55bdebb..3139ce2 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -140,6 +140,14 @@ void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct h
     yaml_parser_set_input_string(&yctx->parser, (unsigned char *) yaml, strlen(yaml));
     yaml_parser_load(&yctx->parser, &yctx->document);
     yaml_node_t * node = yaml_document_get_root_node(&yctx->document);
+    if( node ) {
+        yaml_document_t rest;
+        if( !yaml_parser_load(&yctx->parser, &rest) ) {
+            node = NULL;
+        } else {
+            yaml_document_delete(&rest);
+        }
+    }
     if( node ) {
         handlebars_value_init_yaml_node(ctx, value, &yctx->document, node);
     } else {
-- 
2.43.0

