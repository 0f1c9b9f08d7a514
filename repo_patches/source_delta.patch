From e5ebe9c34e40968b0d8b1d2a5999108995a842cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 01/85] fix: cee_list_iterate returns 0, not garbage, for an
 empty list

---
 list.c        | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.c b/list.c
index 86a29b1..4be0a17 100644
--- a/list.c
+++ b/list.c
@@ -135,7 +135,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
 		       int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct S(header) *m = FIND_HEADER(x);
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
diff --git a/release/cee.c b/release/cee.c
index 9e70323..5c3a1cd 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3838,7 +3838,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
          int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct _cee_list_header *m = (struct _cee_list_header *)((void *)((char *)(x) - (__builtin_offsetof(struct _cee_list_header, _))));
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
-- 
2.43.0


From fcac0d7c9dc3602dbcdae809db9ab67d0c977d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 02/85] fix: merging a list into itself terminates

---
 list.c        | 11 ++++-------
 release/cee.c | 10 ++++------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/list.c b/list.c
index 4be0a17..64a8304 100644
--- a/list.c
+++ b/list.c
@@ -143,13 +143,10 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int S(_add_v)(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
-
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, S(_add_v));
+  /* the size is taken first as dest may be src */
+  size_t i, n = cee_list_size(src);
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
diff --git a/release/cee.c b/release/cee.c
index 5c3a1cd..fcd0209 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3846,15 +3846,13 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int _cee_list__add_v(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
 
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, _cee_list__add_v);
+  /* the size is taken first as dest may be src */
+  size_t i, n = cee_list_size(src);
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
 
 struct _cee_tagged_header {
-- 
2.43.0


From 056e7000c00c1fa6da9818d6d045930903c0e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 03/85] fix: a map's insertion-ordered key list does not own
 the keys

---
 map.c         | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/map.c b/map.c
index ee52dd6..2e985b0 100644
--- a/map.c
+++ b/map.c
@@ -84,7 +84,7 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16); /* the pairs own the keys */
   m->cmp = cmp;
   m->size = 0;
   ZERO_CEE_SECT(&m->cs);
diff --git a/release/cee.c b/release/cee.c
index fcd0209..a07668c 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2537,7 +2537,7 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct _cee_map_header);
   struct _cee_map_header * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16); /* the pairs own the keys */
   m->cmp = cmp;
   m->size = 0;
   do{ memset(&m->cs, 0, sizeof(struct cee_sect)); } while(0);;
-- 
2.43.0


From fe0d7f88eb3e57f4a1d8960d7398fcd31310ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 04/85] fix: cee_state_gc keeps a live map's insertion-ordered
 key list

---
 map.c         | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/map.c b/map.c
index 2e985b0..a3d4122 100644
--- a/map.c
+++ b/map.c
@@ -68,6 +68,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], S(trace_pair));
       break;
   }
diff --git a/release/cee.c b/release/cee.c
index a07668c..5801509 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2521,6 +2521,7 @@ static void _cee_map_trace(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], _cee_map_trace_pair);
       break;
   }
-- 
2.43.0


From 7d2d9751647067caffd26df02676794c0e828349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 05/85] fix: cee_map_find and cee_map_remove return NULL for a
 NULL map

---
 map.c         | 4 ++--
 release/cee.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/map.c b/map.c
index a3d4122..a00c577 100644
--- a/map.c
+++ b/map.c
@@ -153,7 +153,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) * b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
@@ -179,7 +179,7 @@ static void cee_map_ordered_key_delete(struct S(header) *b, void *deleted_key){
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) *b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
diff --git a/release/cee.c b/release/cee.c
index 5801509..6c21a89 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2606,7 +2606,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
@@ -2632,7 +2632,7 @@ static void cee_map_ordered_key_delete(struct _cee_map_header *b, void *deleted_
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
-- 
2.43.0


From 05e89e43e013fdf747a9a3f0a915f0619bbd7ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 06/85] fix: cee_map_add counts exactly the value it keeps

---
 map.c         | 8 ++++++--
 release/cee.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/map.c b/map.c
index a00c577..54529d3 100644
--- a/map.c
+++ b/map.c
@@ -121,7 +121,9 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
   struct S(header) *b = FIND_HEADER(m);
 
   struct cee_tuple *t, *t1 = NULL, **oldp;
-  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
+  /* the value is counted below, once it is known which value is kept */
+  enum cee_del_policy o[2] = { b->del_policies._.key, CEE_DP_NOOP };
+  t = cee_tuple_mk_e(b->cs.state, o, key, value);
   oldp = musl_tsearch(b, t, b->_, S(cmp));
 
   if (oldp == NULL)
@@ -136,12 +138,14 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
       t1->_[1] = new_value; 
+      cee_incr_indegree(b->del_policies._.val, new_value);
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
-    cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);    
     return old_value;
   }else{
+    cee_tuple_update_del_policy(t, 1, b->del_policies._.val);
+    cee_incr_indegree(b->del_policies._.val, value);
     cee_list_append(b->insertion_ordered_keys, t->_[0]);
     b->size ++;
   }
diff --git a/release/cee.c b/release/cee.c
index 6c21a89..8c7cc5f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2574,7 +2574,9 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
 
   struct cee_tuple *t, *t1 = NULL, **oldp;
-  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
+  /* the value is counted below, once it is known which value is kept */
+  enum cee_del_policy o[2] = { b->del_policies._.key, CEE_DP_NOOP };
+  t = cee_tuple_mk_e(b->cs.state, o, key, value);
   oldp = musl_tsearch(b, t, b->_, _cee_map_cmp);
 
   if (oldp == NULL)
@@ -2589,12 +2591,14 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
       t1->_[1] = new_value;
+      cee_incr_indegree(b->del_policies._.val, new_value);
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
-    cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);
     return old_value;
   }else{
+    cee_tuple_update_del_policy(t, 1, b->del_policies._.val);
+    cee_incr_indegree(b->del_policies._.val, value);
     cee_list_append(b->insertion_ordered_keys, t->_[0]);
     b->size ++;
   }
-- 
2.43.0


From e95017404bb1802ec51dbca10f379abcca7b30cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 07/85] fix: key and value lists of a CEE_DP_NOOP map or set
 leave the elements alone

---
 map.c         | 14 +++++++++++---
 release/cee.c | 15 +++++++++++----
 set.c         |  2 +-
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/map.c b/map.c
index 54529d3..4db862d 100644
--- a/map.c
+++ b/map.c
@@ -214,6 +214,14 @@ bool cee_map_rename(struct cee_map *m, void *old_key, void *new_key){
     return false;
 }
 
+/*
+ * the policy of a list of elements of a container with policy o:
+ * nothing may be done to the elements of a CEE_DP_NOOP container
+ */
+static enum cee_del_policy S(list_policy) (enum cee_del_policy o) {
+  return o == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+}
+
 static void S(get_key) (void * ctx, const void *nodep, const VISIT which, const int depth) {
   struct cee_tuple * p;
   switch (which){
@@ -230,7 +238,7 @@ static void S(get_key) (void * ctx, const void *nodep, const VISIT which, const
 struct cee_list * cee_map_keys(struct cee_map * m) {
   uintptr_t n = cee_map_size(m);
   struct S(header) * b = FIND_HEADER(m);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, S(list_policy)(b->del_policies._.key), n);
   musl_twalk(keys, b->_[0], S(get_key));
   return keys;
 }
@@ -238,7 +246,7 @@ struct cee_list * cee_map_keys(struct cee_map * m) {
 struct cee_list * cee_map_insertion_ordered_keys(struct cee_map * m){
   struct S(header) * b = FIND_HEADER(m);
   uintptr_t n = cee_list_size(b->insertion_ordered_keys);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, S(list_policy)(b->del_policies._.key), n);
 
   for( int i = 0; i < n; i++ ){
     cee_list_append(keys, b->insertion_ordered_keys->a[i]);
@@ -263,7 +271,7 @@ static void S(get_value) (void * ctx, const void *nodep, const VISIT which, cons
 struct cee_list* cee_map_values(struct cee_map *m) {
   uintptr_t s = cee_map_size(m);
   struct S(header) *b = FIND_HEADER(m);
-  struct cee_list *values = cee_list_mk(b->cs.state, s);
+  struct cee_list *values = cee_list_mk_e(b->cs.state, S(list_policy)(b->del_policies._.val), s);
   musl_twalk(values, b->_[0], S(get_value));
   return values;
 }
diff --git a/release/cee.c b/release/cee.c
index 8c7cc5f..e226884 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2667,6 +2667,13 @@ bool cee_map_rename(struct cee_map *m, void *old_key, void *new_key){
     return false;
 }
 
+/*
+ * the policy of a list of elements of a container with policy o:
+ * nothing may be done to the elements of a CEE_DP_NOOP container
+ */
+static enum cee_del_policy _cee_map_list_policy (enum cee_del_policy o) {
+  return o == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+}
 static void _cee_map_get_key (void * ctx, const void *nodep, const VISIT which, const int depth) {
   struct cee_tuple * p;
   switch (which){
@@ -2683,7 +2690,7 @@ static void _cee_map_get_key (void * ctx, const void *nodep, const VISIT which,
 struct cee_list * cee_map_keys(struct cee_map * m) {
   uintptr_t n = cee_map_size(m);
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, _cee_map_list_policy(b->del_policies._.key), n);
   musl_twalk(keys, b->_[0], _cee_map_get_key);
   return keys;
 }
@@ -2691,7 +2698,7 @@ struct cee_list * cee_map_keys(struct cee_map * m) {
 struct cee_list * cee_map_insertion_ordered_keys(struct cee_map * m){
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   uintptr_t n = cee_list_size(b->insertion_ordered_keys);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, _cee_map_list_policy(b->del_policies._.key), n);
 
   for( int i = 0; i < n; i++ ){
     cee_list_append(keys, b->insertion_ordered_keys->a[i]);
@@ -2716,7 +2723,7 @@ static void _cee_map_get_value (void * ctx, const void *nodep, const VISIT which
 struct cee_list* cee_map_values(struct cee_map *m) {
   uintptr_t s = cee_map_size(m);
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
-  struct cee_list *values = cee_list_mk(b->cs.state, s);
+  struct cee_list *values = cee_list_mk_e(b->cs.state, _cee_map_list_policy(b->del_policies._.val), s);
   musl_twalk(values, b->_[0], _cee_map_get_value);
   return values;
 }
@@ -3018,7 +3025,7 @@ static void _cee_set_get_value (void * cxt, const void *nodep, const VISIT which
 struct cee_list * cee_set_values(struct cee_set * m) {
   uintptr_t s = cee_set_size(m);
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
-  struct cee_list *values = cee_list_mk(h->cs.state, s);
+  struct cee_list *values = cee_list_mk_e(h->cs.state, h->del_policy == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC, s);
   cee_use_realloc(values);
   musl_twalk(values, h->_[0], _cee_set_get_value);
   return values;
diff --git a/set.c b/set.c
index 88ca5ff..4bdf923 100644
--- a/set.c
+++ b/set.c
@@ -172,7 +172,7 @@ static void S(get_value) (void * cxt, const void *nodep, const VISIT which, cons
 struct cee_list * cee_set_values(struct cee_set * m) {
   uintptr_t s = cee_set_size(m);
   struct S(header) * h = FIND_HEADER(m);
-  struct cee_list *values = cee_list_mk(h->cs.state, s);
+  struct cee_list *values = cee_list_mk_e(h->cs.state, h->del_policy == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC, s);
   cee_use_realloc(values);
   musl_twalk(values, h->_[0], S(get_value));
   return values;
-- 
2.43.0


From d02d34fc888e40d17ba74bdcc296ef864265b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 08/85] fix: deleting a set passes its policy to the element
 destructor

---
 release/cee.c | 2 +-
 set.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index e226884..37d7acd 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2904,7 +2904,7 @@ static void _cee_set_trace(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], _cee_set_free_pair_follow);
+      musl_tdestroy(&h->del_policy, h->_[0], _cee_set_free_pair_follow);
       _cee_set_de_chain(h);
       free(h);
       break;
diff --git a/set.c b/set.c
index 4bdf923..350ec80 100644
--- a/set.c
+++ b/set.c
@@ -51,7 +51,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], S(free_pair_follow));
+      musl_tdestroy(&h->del_policy, h->_[0], S(free_pair_follow));
       S(de_chain)(h);
       free(h);
       break;
-- 
2.43.0


From 8292a8c12876a821c80ccce32300f0c93fb9999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 09/85] fix: cee_set_add of an element that is already in the
 set changes nothing

---
 release/cee.c | 6 ++----
 set.c         | 7 +++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 37d7acd..cd3ad8b 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2964,14 +2964,12 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
+  if (musl_tfind(h, val, h->_, _cee_set_cmp))
+    return; // should val be freed
   void ** oldp = (void **) musl_tsearch(h, val, h->_, _cee_set_cmp);
 
   if (oldp == NULL)
     cee_segfault();
-  else if (*oldp != (void *)val) {
-    // should val be freed
-    return;
-  }
   else {
     h->size ++;
     cee_incr_indegree(h->del_policy, val);
diff --git a/set.c b/set.c
index 350ec80..f9b9713 100644
--- a/set.c
+++ b/set.c
@@ -111,14 +111,13 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct S(header) * h = FIND_HEADER(m);
+  if (musl_tfind(h, val, h->_, S(cmp)))
+    return; // should val be freed
+
   void ** oldp = (void **) musl_tsearch(h, val, h->_, S(cmp));
   
   if (oldp == NULL)
     cee_segfault();
-  else if (*oldp != (void *)val) {
-    // should val be freed
-    return;
-  }
   else {
     h->size ++;
     cee_incr_indegree(h->del_policy, val);
-- 
2.43.0


From 09093076db1470c6ddea775cd8155d821b4a1a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 10/85] fix: an element removed from a set is no longer counted
 by it

---
 release/cee.c | 1 +
 set.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index cd3ad8b..3a8d7bd 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3038,6 +3038,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, _cee_set_cmp);
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
diff --git a/set.c b/set.c
index f9b9713..9cee571 100644
--- a/set.c
+++ b/set.c
@@ -186,6 +186,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, S(cmp));
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
-- 
2.43.0


From 775f8e3c45d4e723f2b135b4f0c69d4162efee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 11/85] fix: a NULL set is empty, as documented

---
 release/cee.c | 4 ++++
 set.c         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 3a8d7bd..4bc2dc9 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2949,11 +2949,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size == 0;
 }
@@ -2998,6 +3000,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void **oldp = (void **) musl_tfind(h, key, h->_, _cee_set_cmp);
   if (oldp == NULL)
@@ -3030,6 +3033,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void ** old = (void **)musl_tfind(h, key, h->_, _cee_set_cmp);
   if (old == NULL)
diff --git a/set.c b/set.c
index 9cee571..872570c 100644
--- a/set.c
+++ b/set.c
@@ -96,11 +96,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct S(header) * h = FIND_HEADER(s);
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct S(header) * h = FIND_HEADER(s);
   return h->size == 0;
 }
@@ -146,6 +148,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void **oldp = (void **) musl_tfind(h, key, h->_, S(cmp));
   if (oldp == NULL)
@@ -178,6 +181,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void ** old = (void **)musl_tfind(h, key, h->_, S(cmp));
   if (old == NULL)
-- 
2.43.0


From fac79b210675e6c609931618bc1b5a303fb8a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 12/85] fix: cee_str_mkv sizes the string with a copy of the
 va_list, not the one it prints with

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 4bc2dc9..8cf7c8c 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1914,7 +1914,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
diff --git a/str.c b/str.c
index 458626b..df207c0 100644
--- a/str.c
+++ b/str.c
@@ -77,7 +77,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
-- 
2.43.0


From dc784638c22585e9f5454e228bdc5aeab0e80c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 13/85] fix: cee_str_strn terminates the string

---
 release/cee.c | 1 +
 str.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 8cf7c8c..abcce90 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1901,6 +1901,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct _cee_str_header);
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
diff --git a/str.c b/str.c
index df207c0..34df67d 100644
--- a/str.c
+++ b/str.c
@@ -64,6 +64,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct S(header));
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
-- 
2.43.0


From 823a687539d64d2570c4e17972b36e66c856c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 14/85] fix: cee_str_mk_e offers the requested number of bytes
 when a format is given

---
 release/cee.c | 4 ++++
 str.c         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index abcce90..938ed88 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1962,7 +1962,10 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
@@ -1984,6 +1987,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
diff --git a/str.c b/str.c
index 34df67d..187007e 100644
--- a/str.c
+++ b/str.c
@@ -125,7 +125,10 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
@@ -147,6 +150,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
-- 
2.43.0


From 409bdbb40082653ea31921ad03f84e77517fa432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 15/85] fix: cee_str_add appends at the end of the string when
 the buffer grows

---
 release/cee.c | 4 ++--
 str.c         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 938ed88..97ec827 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2035,8 +2035,8 @@ struct cee_str * cee_str_add(struct cee_str * str, char c) {
   }else{
     struct _cee_str_header * b1 = _cee_str_resize(b, (2 * ((b->cs.mem_block_size) > (64) ? (b->cs.mem_block_size): (64))));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct _cee_str_header);
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
diff --git a/str.c b/str.c
index 187007e..64c3a06 100644
--- a/str.c
+++ b/str.c
@@ -198,8 +198,8 @@ struct cee_str * cee_str_add(struct cee_str * str, char c) {
   }else{
     struct S(header) * b1 = S(resize)(b, _CEE_NEWSIZE(b->cs.mem_block_size, CEE_BLOCK));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct S(header));
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
-- 
2.43.0


From 7e72e5bafd4de13603ba708cfb4f93d6aeab6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 16/85] fix: cee_str_ncat appends at most slen bytes

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 97ec827..4596f6d 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2069,7 +2069,7 @@ struct cee_str * cee_str_catf(struct cee_str * str, const char * fmt, ...) {
 }
 
 struct cee_str * cee_str_ncat(struct cee_str * str, char * s, size_t slen){
-  return NULL;
+  return cee_str_catf(str, "%.*s", (int)slen, s);
 }
 
 struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
diff --git a/str.c b/str.c
index 64c3a06..09bf672 100644
--- a/str.c
+++ b/str.c
@@ -232,7 +232,7 @@ struct cee_str * cee_str_catf(struct cee_str * str, const char * fmt, ...) {
 }
 
 struct cee_str * cee_str_ncat(struct cee_str * str, char * s, size_t slen){
-  return NULL;
+  return cee_str_catf(str, "%.*s", (int)slen, s);
 }
 
 struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
-- 
2.43.0


From 9be9a8536e38cfbf5508e818d57f81e3cb8ea108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 17/85] fix: cee_str_rtrim also trims the first character

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 4596f6d..85753ee 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2097,7 +2097,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
diff --git a/str.c b/str.c
index 09bf672..01136f5 100644
--- a/str.c
+++ b/str.c
@@ -260,7 +260,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
-- 
2.43.0


From 023519e23cc51967cbceca8d403509c2ccaa81d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 18/85] fix: cee_str_ltrim trims all leading white space

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 85753ee..289b960 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2112,7 +2112,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
diff --git a/str.c b/str.c
index 01136f5..46b3cee 100644
--- a/str.c
+++ b/str.c
@@ -275,7 +275,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
-- 
2.43.0


From e8ac934c83323209a2804d311295a0213b1afe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 19/85] fix: str_replace_all allocates room for the terminator

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 289b960..1312250 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2162,7 +2162,7 @@ char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
   double ratio = new_len/old_len + 1;
-  char *new_str = malloc(orig_len * ratio);
+  char *new_str = malloc(orig_len * ratio + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
diff --git a/str.c b/str.c
index 46b3cee..53a831b 100644
--- a/str.c
+++ b/str.c
@@ -325,7 +325,7 @@ char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
   double ratio = new_len/old_len + 1;
-  char  *new_str = malloc(orig_len * ratio);
+  char  *new_str = malloc(orig_len * ratio + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
-- 
2.43.0


From fc0b749156a2c63f90c5d6c95db45a5eeb304fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 20/85] fix: str_replace_all_ext sizes its result for any mix
 of needle lengths

---
 release/cee.c | 8 +++-----
 str.c         | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 1312250..a5a7b29 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2188,7 +2188,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  int min_old_len = 1000, max_new_len = 0;
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -2214,10 +2214,8 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  /* at most str_len/min_old_len replacements, at most str_len copied bytes */
+  size_t new_strlen = str_len + (str_len/min_old_len) * max_new_len;
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
diff --git a/str.c b/str.c
index 53a831b..36726ee 100644
--- a/str.c
+++ b/str.c
@@ -351,7 +351,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  int min_old_len = 1000, max_new_len = 0;
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -377,10 +377,8 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  /* at most str_len/min_old_len replacements, at most str_len copied bytes */
+  size_t new_strlen = str_len + (str_len/min_old_len) * max_new_len;
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
-- 
2.43.0


From 99b784f81120352ba2bec63cf9c6a044d7829039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 21/85] fix: a resized struct becomes the end of the trace
 chain

---
 cee-resize.h  |  1 +
 release/cee.c | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cee-resize.h b/cee-resize.h
index dc49b5a..8040fd0 100644
--- a/cee-resize.h
+++ b/cee-resize.h
@@ -6,6 +6,7 @@ static void S(chain) (struct S(header) * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
diff --git a/release/cee.c b/release/cee.c
index a5a7b29..4e07d67 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1390,6 +1390,7 @@ static void _cee_boxed_chain (struct _cee_boxed_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -1805,6 +1806,7 @@ static void _cee_str_chain (struct _cee_str_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -2265,6 +2267,7 @@ static void _cee_dict_chain (struct _cee_dict_header * h, struct cee_state * st)
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -2430,6 +2433,7 @@ static void _cee_map_chain (struct _cee_map_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -2822,6 +2826,7 @@ static void _cee_set_chain (struct _cee_set_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3149,6 +3154,7 @@ static void _cee_stack_chain (struct _cee_stack_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3316,6 +3322,7 @@ static void _cee_tuple_chain (struct _cee_tuple_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3444,6 +3451,7 @@ static void _cee_triple_chain (struct _cee_triple_header * h, struct cee_state *
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3565,6 +3573,7 @@ static void _cee_quadruple_chain (struct _cee_quadruple_header * h, struct cee_s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3686,6 +3695,7 @@ static void _cee_list_chain (struct _cee_list_header * h, struct cee_state * st)
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3888,6 +3898,7 @@ static void _cee_tagged_chain (struct _cee_tagged_header * h, struct cee_state *
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4036,6 +4047,7 @@ static void _cee_closure_chain (struct _cee_closure_header * h, struct cee_state
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4152,6 +4164,7 @@ static void _cee_block_chain (struct _cee_block_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4288,6 +4301,7 @@ static void _cee_n_tuple_chain (struct _cee_n_tuple_header * h, struct cee_state
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4422,6 +4436,7 @@ static void _cee_env_chain (struct _cee_env_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct still has its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
-- 
2.43.0


From ead094bd75c28ccb6f4278568783b0f6ceddfb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 22/85] fix: a dict applies its deletion policy to its keys and
 values, not to its own lists

---
 dict.c        | 8 ++++----
 release/cee.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dict.c b/dict.c
index fee19b8..2cd14a9 100644
--- a/dict.c
+++ b/dict.c
@@ -35,8 +35,8 @@ static void S(trace)(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       S(de_chain)(m);
       free(m);
@@ -54,10 +54,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
   
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
   
   m->size = size;
diff --git a/release/cee.c b/release/cee.c
index 4e07d67..2b2b637 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2334,8 +2334,8 @@ static void _cee_dict_trace(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       _cee_dict_de_chain(m);
       free(m);
@@ -2353,10 +2353,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct _cee_dict_header);
   struct _cee_dict_header * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
 
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
 
   m->size = size;
-- 
2.43.0


From 3455f6eb04d8172d5c07c4a0e0e023a79f7bcc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:24 +0000
Subject: [PATCH 23/85] fix: cee_state_gc never mistakes a new block for a
 marked one

---
 release/cee.c | 7 ++++---
 state.c       | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 2b2b637..808bbf4 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4689,10 +4689,11 @@ void cee_state_gc (struct cee_state * s) {
   cee_trace(s, (enum cee_trace_action)mark);
   _cee_state_sweep(s, (enum cee_trace_action) mark);
 
-  if (s->next_mark == 0) {
-    s->next_mark = 1;
+  /* alternate between 1 and 2, the blocks created since have the mark 0 */
+  if (s->next_mark == 1) {
+    s->next_mark = 2;
   } else {
-    s->next_mark = 0;
+    s->next_mark = 1;
   }
 }
 
diff --git a/state.c b/state.c
index a76f1cb..1dfa50f 100644
--- a/state.c
+++ b/state.c
@@ -148,9 +148,10 @@ void cee_state_gc (struct cee_state * s) {
   cee_trace(s, (enum cee_trace_action)mark);
   S(sweep)(s, (enum cee_trace_action) mark);
   
-  if (s->next_mark == 0) {
-    s->next_mark = 1;
+  /* alternate between 1 and 2, the blocks created since have the mark 0 */
+  if (s->next_mark == 1) {
+    s->next_mark = 2;
   } else {
-    s->next_mark = 0;
+    s->next_mark = 1;
   }
 }
-- 
2.43.0


From 10b4c14e4cf8b7efe6e6d19141c6ca6fc789cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:25 +0000
Subject: [PATCH 24/85] fix: marking stops at marked blocks, so cee_state_gc
 terminates on cyclic graphs

---
 cee-common.c  | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cee-common.c b/cee-common.c
index effb658..99dd573 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -15,6 +15,8 @@ void cee_trace (void *p, enum cee_trace_action ta) {
   if (!p) return;
   
   struct cee_sect * cs = FIND_SECT(p);
+  /* a block that has the current mark was visited, it may be part of a cycle */
+  if (ta > CEE_TRACE_MARK && cs->gc_mark == ta - CEE_TRACE_MARK) return;
   cs->trace(p, ta);
 }
 
diff --git a/release/cee.c b/release/cee.c
index 808bbf4..1048b36 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1247,6 +1247,8 @@ void cee_trace (void *p, enum cee_trace_action ta) {
   if (!p) return;
 
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
+  /* a block that has the current mark was visited, it may be part of a cycle */
+  if (ta > CEE_TRACE_MARK && cs->gc_mark == ta - CEE_TRACE_MARK) return;
   cs->trace(p, ta);
 }
 
-- 
2.43.0


From e3d64a620f6fe5669cf9b587051aea7c6e0028a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 25/85] fix: cee_state_gc keeps a live closure and its
 environment

---
 closure.c     | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/closure.c b/closure.c
index cd0fd23..96cab35 100644
--- a/closure.c
+++ b/closure.c
@@ -28,6 +28,8 @@ static void S(trace) (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
diff --git a/release/cee.c b/release/cee.c
index 1048b36..305382f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4116,6 +4116,8 @@ static void _cee_closure_trace (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
-- 
2.43.0


From 56320cd375897313d033912fca9585ca48143162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 26/85] fix: an environment counts the outer environment and
 variables it owns

---
 env.c         | 4 ++++
 release/cee.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/env.c b/env.c
index 983c90f..ac5f3af 100644
--- a/env.c
+++ b/env.c
@@ -58,6 +58,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
   
   return &h->_;
 }
diff --git a/release/cee.c b/release/cee.c
index 305382f..81d258c 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4537,6 +4537,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->_.outer = outer;
   h->_.vars = vars;
 
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
   return &h->_;
 }
 
-- 
2.43.0


From fb47fbdd0c3e01392d476415992dd3411d7b8996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 27/85] fix: cee_env_find goes on to the outer environment of
 one without variables

---
 env.c         | 4 ++--
 release/cee.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/env.c b/env.c
index ac5f3af..8bc1d19 100644
--- a/env.c
+++ b/env.c
@@ -73,8 +73,8 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
-    if ( (ret = cee_map_find(e->vars, key)) ) 
+  while (e) {
+    if ( e->vars && (ret = cee_map_find(e->vars, key)) ) 
       return ret;
     e = e->outer;
   }
diff --git a/release/cee.c b/release/cee.c
index 81d258c..0709b7e 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4551,8 +4551,8 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
-    if ( (ret = cee_map_find(e->vars, key)) )
+  while (e) {
+    if ( e->vars && (ret = cee_map_find(e->vars, key)) )
       return ret;
     e = e->outer;
   }
-- 
2.43.0


From 51968b796f160511e576378ccf5efd61248f5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 28/85] fix: cee_n_tuple_mk ends its va_list

---
 n_tuple.c     | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/n_tuple.c b/n_tuple.c
index 05cda2c..3e6fc5c 100644
--- a/n_tuple.c
+++ b/n_tuple.c
@@ -79,5 +79,6 @@ struct cee_n_tuple * cee_n_tuple_mk (struct cee_state * st, size_t ntuple, ...)
   
   struct S(header) * h = cee_n_tuple_v(st, ntuple, o, ap);
   free(o);
+  va_end(ap);
   return (struct cee_n_tuple *)(h->_);
 }
diff --git a/release/cee.c b/release/cee.c
index 0709b7e..c4681d7 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4421,6 +4421,7 @@ struct cee_n_tuple * cee_n_tuple_mk (struct cee_state * st, size_t ntuple, ...)
 
   struct _cee_n_tuple_header * h = cee_n_tuple_v(st, ntuple, o, ap);
   free(o);
+  va_end(ap);
   return (struct cee_n_tuple *)(h->_);
 }
 
-- 
2.43.0


From 39930c20a2981f3b21f71c97e5ef1a2096d8e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 29/85] fix: references to a retained object are counted, so
 none is lost once it is released

---
 cee-common.c  | 4 ----
 release/cee.c | 2 --
 2 files changed, 6 deletions(-)

diff --git a/cee-common.c b/cee-common.c
index 99dd573..2ae5cce 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -69,15 +69,11 @@ void cee_use_malloc(void * p) {
 
 static void _cee_common_incr_rc (void * p) {
   struct cee_sect * cs = FIND_SECT(p);
-  if (cs->retained) return;
-  
   cs->in_degree ++;
 }
 
 static void _cee_common_decr_rc (void * p) {
   struct cee_sect * cs = FIND_SECT(p);
-  if (cs->retained) return;
-  
   if (cs->in_degree)
     cs->in_degree --;
   else {
diff --git a/release/cee.c b/release/cee.c
index c4681d7..298f316 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1301,14 +1301,12 @@ void cee_use_malloc(void * p) {
 
 static void _cee_common_incr_rc (void * p) {
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
-  if (cs->retained) return;
 
   cs->in_degree ++;
 }
 
 static void _cee_common_decr_rc (void * p) {
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
-  if (cs->retained) return;
 
   if (cs->in_degree)
     cs->in_degree --;
-- 
2.43.0


From 1d991ad5a56d56bda51b51ec920e66a89d64090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 30/85] fix: an object can have more than 65535 references

---
 cee-common.c  | 2 +-
 cee.h         | 2 +-
 release/cee.c | 4 ++--
 release/cee.h | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cee-common.c b/cee-common.c
index 2ae5cce..66446b4 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -81,7 +81,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t get_in_degree (void * p) {
+uint32_t get_in_degree (void * p) {
   struct cee_sect * cs = FIND_SECT(p);
   return cs->in_degree;
 }
diff --git a/cee.h b/cee.h
index 22abddf..766d98d 100644
--- a/cee.h
+++ b/cee.h
@@ -89,7 +89,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
diff --git a/release/cee.c b/release/cee.c
index 298f316..3c3d6ec 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -98,7 +98,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
@@ -1315,7 +1315,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t get_in_degree (void * p) {
+uint32_t get_in_degree (void * p) {
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
   return cs->in_degree;
 }
diff --git a/release/cee.h b/release/cee.h
index 22abddf..766d98d 100644
--- a/release/cee.h
+++ b/release/cee.h
@@ -89,7 +89,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
-- 
2.43.0


From 31e1ca46ced5a974e3364debba6190d4e8568f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 31/85] fix: the JSON tokenizer stays within its buffer

---
 cee-json/release/cee-json.c | 40 +++++++++++++++++++++++----------
 cee-json/tokenizer.c        | 44 +++++++++++++++++++++++++++----------
 2 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 748e29d..033d127 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1923,11 +1923,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
 
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -2105,12 +2105,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '\0' && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end && *end != '\0') { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end || *end != '"') return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -2129,8 +2129,26 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   return false; /*  ill formed string */
 }
 
+static bool parse_number_n(struct tokenizer *t, char *start);
+/*
+ * the number may be the last thing in the buffer, which needs not be followed
+ * by anything: work on a terminated copy of it
+ */
 static bool parse_number(struct tokenizer *t) {
-  char *start = t->buf;
+  char small[64], *copy = small;
+  size_t len = 0, max_len = t->buf_end - t->buf;
+  while (len < max_len && t->buf[len] && strchr("+-.0123456789Ee", t->buf[len]))
+    len++;
+  if (len >= sizeof small)
+    copy = malloc(len + 1);
+  memcpy(copy, t->buf, len);
+  copy[len] = '\0';
+  bool ok = parse_number_n(t, copy);
+  if (copy != small)
+    free(copy);
+  return ok;
+}
+static bool parse_number_n(struct tokenizer *t, char *start) {
   char *end = start;
 
   bool is_integer = true, is_exponent = false;
@@ -2184,7 +2202,7 @@ static bool parse_number(struct tokenizer *t) {
     t->number.i64 = strtoll(start, &endptr, 10);
   }
 
-  t->buf = end; /* skips entire length of number */
+  t->buf += end - start; /* skips entire length of number */
 
   return start != endptr;
 }
@@ -2216,17 +2234,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -2245,7 +2263,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index f7cf12a..872ad75 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -179,11 +179,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
   
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -361,12 +361,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '\0' && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end && *end != '\0') { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end || *end != '"') return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -385,8 +385,30 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   return false; /*  ill formed string */
 }
 
+static bool parse_number_n(struct tokenizer *t, char *start);
+
+/*
+ * the number may be the last thing in the buffer, which needs not be followed
+ * by anything: work on a terminated copy of it
+ */
 static bool parse_number(struct tokenizer *t) {
-  char *start = t->buf;
+  char small[64], *copy = small;
+  size_t len = 0, max_len = t->buf_end - t->buf;
+
+  while (len < max_len && t->buf[len] && strchr("+-.0123456789Ee", t->buf[len]))
+    len++;
+  if (len >= sizeof small)
+    copy = malloc(len + 1);
+  memcpy(copy, t->buf, len);
+  copy[len] = '\0';
+
+  bool ok = parse_number_n(t, copy);
+  if (copy != small)
+    free(copy);
+  return ok;
+}
+
+static bool parse_number_n(struct tokenizer *t, char *start) {
   char *end = start;
 
   bool is_integer = true, is_exponent = false;
@@ -440,7 +462,7 @@ static bool parse_number(struct tokenizer *t) {
     t->number.i64 = strtoll(start, &endptr, 10);
   }
 
-  t->buf = end; /* skips entire length of number */
+  t->buf += end - start; /* skips entire length of number */
 
   return start != endptr;
 }
@@ -472,17 +494,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -501,7 +523,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
-- 
2.43.0


From 00888a5a5eee07c5b25de3e7c30d9db12c8650af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 32/85] fix: a high surrogate at the end of a JSON string is an
 error

---
 cee-json/release/cee-json.c | 2 ++
 cee-json/tokenizer.c        | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 033d127..6ab60d0 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2071,6 +2071,8 @@ second_iter:
     }
   }
 
+  if (second_surrogate_expected)
+    goto return_err;
   switch (state) {
   case UNESCAPING:
       if (!utf8_validate(out_start, d))
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 872ad75..22f0b3e 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -327,6 +327,9 @@ second_iter:
     }
   }
 
+  if (second_surrogate_expected)
+    goto return_err;
+
   switch (state) {
   case UNESCAPING:
       if (!utf8_validate(out_start, d))
-- 
2.43.0


From d6c681caf32596a5379551ee5bd1a2bcf91d0240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 33/85] fix: a JSON number with a fraction or exponent has no
 leading zeros either

---
 cee-json/release/cee-json.c | 8 +++-----
 cee-json/tokenizer.c        | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 6ab60d0..e4b1a12 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2154,15 +2154,16 @@ static bool parse_number_n(struct tokenizer *t, char *start) {
   char *end = start;
 
   bool is_integer = true, is_exponent = false;
-  int offset_sign = 0;
 
   /* 1st STEP: check for a minus sign and skip it */
   if ('-' == *end) {
     ++end;
-    offset_sign = 1;
   }
   if (!isdigit(*end))
     return false;
+  /*  no number starts with zero followed by digits (ex: 012, -023) */
+  if ('0' == end[0] && isdigit(end[1]))
+    return false;
 
   /* 2nd STEP: skips until a non digit char found */
   while (isdigit(*++end))
@@ -2188,9 +2189,6 @@ static bool parse_number_n(struct tokenizer *t, char *start) {
     while (isdigit(*++end))
       continue;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number */
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 22f0b3e..ce78440 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -415,15 +415,16 @@ static bool parse_number_n(struct tokenizer *t, char *start) {
   char *end = start;
 
   bool is_integer = true, is_exponent = false;
-  int offset_sign = 0;
 
   /* 1st STEP: check for a minus sign and skip it */
   if ('-' == *end) {
     ++end;
-    offset_sign = 1;
   }
   if (!isdigit(*end)) 
     return false;
+  /*  no number starts with zero followed by digits (ex: 012, -023) */
+  if ('0' == end[0] && isdigit(end[1]))
+    return false;
 
   /* 2nd STEP: skips until a non digit char found */
   while (isdigit(*++end)) 
@@ -449,9 +450,6 @@ static bool parse_number_n(struct tokenizer *t, char *start) {
     while (isdigit(*++end))
       continue;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number */
-- 
2.43.0


From a05ed08123a1d73756caf7ff9e234d767e3e3c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 34/85] fix: JSON integers beyond int64_t keep their value

---
 cee-json/release/cee-json.c | 10 ++++++++++
 cee-json/tokenizer.c        | 12 ++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index e4b1a12..eb094f6 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2198,8 +2198,18 @@ static bool parse_number_n(struct tokenizer *t, char *start) {
     t->number.real = strtod(start, &endptr);
   }
   else {
+    errno = 0;
     t->type = NUMBER_IS_I64;
     t->number.i64 = strtoll(start, &endptr, 10);
+    if (ERANGE == errno && '-' != *start) {
+      errno = 0;
+      t->type = NUMBER_IS_U64;
+      t->number.u64 = strtoull(start, &endptr, 10);
+    }
+    if (ERANGE == errno) {
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(start, &endptr);
+    }
   }
 
   t->buf += end - start; /* skips entire length of number */
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index ce78440..9045f61 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -1,6 +1,8 @@
 #ifndef CEE_JSON_AMALGAMATION
 #include <stdlib.h>
 #include <ctype.h>
+#include <errno.h>
+#include <string.h>
 #include "cee.h"
 #include "cee-json.h"
 #include "tokenizer.h"
@@ -459,8 +461,18 @@ static bool parse_number_n(struct tokenizer *t, char *start) {
     t->number.real = strtod(start, &endptr);
   }
   else {
+    errno = 0;
     t->type = NUMBER_IS_I64;
     t->number.i64 = strtoll(start, &endptr, 10);
+    if (ERANGE == errno && '-' != *start) {
+      errno = 0;
+      t->type = NUMBER_IS_U64;
+      t->number.u64 = strtoull(start, &endptr, 10);
+    }
+    if (ERANGE == errno) {
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(start, &endptr);
+    }
   }
 
   t->buf += end - start; /* skips entire length of number */
-- 
2.43.0


From bd7c3a18d24559ec5673400cf3152d25acc82c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 35/85] fix: a NUL in a comment does not end the JSON text

---
 cee-json/release/cee-json.c | 1 -
 cee-json/tokenizer.c        | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index eb094f6..815c808 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2276,7 +2276,6 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
-            if(c=='\0') return tock_eof;
             if(c=='\n') return tock_err;
             t->buf++;
           }
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 9045f61..c53b6b7 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -539,7 +539,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
-            if(c=='\0') return tock_eof;
+
             if(c=='\n') return tock_err; 
             t->buf++;
           }
-- 
2.43.0


From f939092fdee22aa67524a3a2f7d3a9700bd9a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 36/85] fix: printing JSON reaches the depth that parsing does

---
 cee-json/release/cee-json.c | 7 ++++---
 cee-json/snprint.c          | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 815c808..735f39c 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1374,7 +1374,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -1430,7 +1430,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
 
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
@@ -1549,7 +1549,8 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
 
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  /*  the parser accepts 511 levels, a scalar below them, and the stack is never full */
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 514);
   push (st, 0, false, sp, j);
 
   uintptr_t offset = 0;
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 789077f..f6001e8 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -12,7 +12,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map  * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -68,7 +68,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
   
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
@@ -187,7 +187,8 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
   
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  /*  the parser accepts 511 levels, a scalar below them, and the stack is never full */
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 514);
   push (st, 0, false, sp, j);
   
   uintptr_t offset = 0;
-- 
2.43.0


From 16080d2efbc8eda3363fcda5f707ed8082f3b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 37/85] fix: JSON doubles are printed so that they read back
 equal

---
 cee-json/release/cee-json.c | 26 ++++++++++++++++++++++++--
 cee-json/snprint.c          | 28 ++++++++++++++++++++++++++--
 2 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 735f39c..0884b49 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1490,6 +1490,28 @@ static void delimiter (uintptr_t * offp, char * buf, enum cee_json_fmt f,
 }
 
 
+/*
+ * the shortest of the usual precisions that reads back as the same double
+ */
+static size_t double_snprint(char *buf, size_t size, double d) {
+  char text[32];
+  if (d != d)
+    return snprintf(buf, size, "null"); /*  JSON has no NaN */
+  if (d - d != 0)
+    return snprintf(buf, size, "%s1e999", d < 0 ? "-" : ""); /*  reads back as infinity */
+  snprintf(text, sizeof text, "%lg", d);
+  if (strtod(text, NULL) != d)
+    snprintf(text, sizeof text, "%.15lg", d);
+  if (strtod(text, NULL) != d)
+    snprintf(text, sizeof text, "%.17lg", d);
+  return snprintf(buf, size, "%s", text);
+}
+static size_t number_snprint(char *buf, size_t size, struct cee_json *j) {
+  double d;
+  if (0 == cee_json_to_doublex(j, &d))
+    return double_snprint(buf, size, d);
+  return cee_boxed_snprint(buf, size, cee_json_to_boxed(j));
+}
 static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
   uintptr_t offset = *offp;
 
@@ -1638,9 +1660,9 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
       case CEE_JSON_U64:
         {
           pad(&offset, buf, ccnt, f);
-          incr = cee_boxed_snprint (NULL, 0, cee_json_to_boxed(cur_json));
+          incr = number_snprint (NULL, 0, cur_json);
           if (buf)
-            cee_boxed_snprint (buf+offset, incr+1/*\0*/, cee_json_to_boxed(cur_json));
+            number_snprint (buf+offset, incr+1/*\0*/, cur_json);
           offset+=incr;
           if (ccnt->more_siblings)
             delimiter(&offset, buf, f, ccnt, ',');
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index f6001e8..1a34e01 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -128,6 +128,30 @@ static void delimiter (uintptr_t * offp, char * buf, enum cee_json_fmt f,
 }
 
 
+/*
+ * the shortest of the usual precisions that reads back as the same double
+ */
+static size_t double_snprint(char *buf, size_t size, double d) {
+  char text[32];
+  if (d != d)
+    return snprintf(buf, size, "null"); /*  JSON has no NaN */
+  if (d - d != 0)
+    return snprintf(buf, size, "%s1e999", d < 0 ? "-" : ""); /*  reads back as infinity */
+  snprintf(text, sizeof text, "%lg", d);
+  if (strtod(text, NULL) != d)
+    snprintf(text, sizeof text, "%.15lg", d);
+  if (strtod(text, NULL) != d)
+    snprintf(text, sizeof text, "%.17lg", d);
+  return snprintf(buf, size, "%s", text);
+}
+
+static size_t number_snprint(char *buf, size_t size, struct cee_json *j) {
+  double d;
+  if (0 == cee_json_to_doublex(j, &d))
+    return double_snprint(buf, size, d);
+  return cee_boxed_snprint(buf, size, cee_json_to_boxed(j));
+}
+
 static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
   uintptr_t offset = *offp;
   
@@ -276,9 +300,9 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
       case CEE_JSON_U64:
         {
           pad(&offset, buf, ccnt, f);
-          incr = cee_boxed_snprint (NULL, 0, cee_json_to_boxed(cur_json));
+          incr = number_snprint (NULL, 0, cur_json);
           if (buf)
-            cee_boxed_snprint (buf+offset, incr+1/*\0*/, cee_json_to_boxed(cur_json));
+            number_snprint (buf+offset, incr+1/*\0*/, cur_json);
           offset+=incr;
           if (ccnt->more_siblings)
             delimiter(&offset, buf, f, ccnt, ',');
-- 
2.43.0


From 8ac4a4809f99f8fc8653f606963d191cdb0df77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 38/85] fix: cee_json_array_concat of an array with itself ends

---
 cee-json/release/cee-json.c | 4 ++--
 cee-json/value.c            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 0884b49..2865fec 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -843,8 +843,8 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  int i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
diff --git a/cee-json/value.c b/cee-json/value.c
index da17aab..4689bd0 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -619,8 +619,8 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  int i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
-- 
2.43.0


From a616f0c3095e3987d9944685ba778db267f8fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 39/85] fix: cee_json_object_append works on members of every
 type

---
 cee-json/release/cee-json.c | 6 ++++--
 cee-json/value.c            | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 2865fec..d640bd7 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -277,7 +277,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
@@ -648,7 +648,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      struct cee_state *st = cee_get_state(cee_json_to_object(j));
+      struct cee_json *llist = cee_json_array_mk(st, 1);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
diff --git a/cee-json/value.c b/cee-json/value.c
index 4689bd0..4a72289 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -53,7 +53,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
@@ -424,7 +424,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      struct cee_state *st = cee_get_state(cee_json_to_object(j));
+      struct cee_json *llist = cee_json_array_mk(st, 1);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
-- 
2.43.0


From b85dbd3923e0847abf95d6cb88ea63430f5528b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 40/85] fix: cee_json_object_convert_to_i64 converts the member

---
 cee-json/release/cee-json.c | 16 +++++++---------
 cee-json/value.c            | 16 +++++++---------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index d640bd7..c1f7999 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -555,16 +555,13 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
 }
 
 static int str2i64(char *s, int64_t *ip) {
-  int64_t i = 0;
-  char c ;
-  int scanned = sscanf(s, "%" SCNd64 "%c", &i, &c);
-  if (scanned == 1) {
+  char *end = NULL;
+  errno = 0;
+  int64_t i = strtoll(s, &end, 10);
+  if (end != s && *end == '\0' && errno != ERANGE) {
     if (ip) *ip = i;
     return 0;
   }
-  if (scanned > 1) {
-    return 1;
-  }
   return 1;
 }
 
@@ -575,12 +572,13 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
 
   struct cee_json *old_val = cee_json_object_get(j, key);
   int64_t i64 = 0;
+  if (NULL == old_val)
+    return false;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
diff --git a/cee-json/value.c b/cee-json/value.c
index 4a72289..a68e28a 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -331,16 +331,13 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
 }
 
 static int str2i64(char *s, int64_t *ip) {
-  int64_t i = 0;
-  char c ;
-  int scanned = sscanf(s, "%" SCNd64 "%c", &i, &c);
-  if (scanned == 1) {
+  char *end = NULL;
+  errno = 0;
+  int64_t i = strtoll(s, &end, 10);
+  if (end != s && *end == '\0' && errno != ERANGE) {
     if (ip) *ip = i;
     return 0;
   }
-  if (scanned > 1) {
-    return 1;
-  }
   return 1;
 }
 
@@ -351,12 +348,13 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
   
   struct cee_json *old_val = cee_json_object_get(j, key);
   int64_t i64 = 0;
+  if (NULL == old_val)
+    return false;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
-- 
2.43.0


From c2b21d53ef44097b9ce352e80f5f024c066cb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 41/85] fix: cee_json_select takes member names from its
 arguments

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index c1f7999..d7705f5 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1042,7 +1042,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
diff --git a/cee-json/value.c b/cee-json/value.c
index a68e28a..576f972 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -818,7 +818,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
-- 
2.43.0


From 7907574973e27b852f164456265f0993415a5189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 42/85] fix: an index beyond int addresses no array element

---
 cee-json/release/cee-json.c | 5 ++++-
 cee-json/value.c            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index d7705f5..efd9b58 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -994,7 +994,10 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         goto notfound;
       } else if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
-        int idx = atoi(token); /* cee_json API index is int. */
+        char *end = NULL;
+        long idx = strtol(token, &end, 10);
+        if (end == token || *end || idx != (int)idx) /* cee_json API index is int. */
+          goto notfound;
         if ((o = cee_json_array_get(o,idx)) == NULL)
           goto notfound;
       } else if (next == JSEL_OBJ) {
diff --git a/cee-json/value.c b/cee-json/value.c
index 576f972..ad301b0 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -770,7 +770,10 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         goto notfound;
       } else if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
-        int idx = atoi(token); /* cee_json API index is int. */
+        char *end = NULL;
+        long idx = strtol(token, &end, 10);
+        if (end == token || *end || idx != (int)idx) /* cee_json API index is int. */
+          goto notfound;
         if ((o = cee_json_array_get(o,idx)) == NULL)
           goto notfound;
       } else if (next == JSEL_OBJ) {
-- 
2.43.0


From d4b1deae02c8dd3d3866b9652ac8d05c972ac892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 43/85] fix: cee_json_select stops at the end of the selector

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index efd9b58..836ae77 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1017,6 +1017,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
        * the above check for JSEL_NEXT_INVALID prevents us from
        * accumulating at the start of the fmt string if no token was
        * yet selected. */
+      if (*p == '\0') goto notfound; /* nothing follows the specifier */
       if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
diff --git a/cee-json/value.c b/cee-json/value.c
index ad301b0..fecdb0c 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -793,6 +793,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
        * the above check for JSEL_NEXT_INVALID prevents us from
        * accumulating at the start of the fmt string if no token was
        * yet selected. */
+      if (*p == '\0') goto notfound; /* nothing follows the specifier */
       if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
-- 
2.43.0


From 1d4ba3b08e31238abdd82cb458aed5c51058e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 44/85] fix: the :n selector accepts every number

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 836ae77..330fffe 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1006,7 +1006,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && !cee_json_to_boxed(o)) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
diff --git a/cee-json/value.c b/cee-json/value.c
index fecdb0c..60dd50b 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -782,7 +782,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && !cee_json_to_boxed(o)) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
-- 
2.43.0


From 32f97aac4e92c08529730f89d4a0fe543f88f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 45/85] fix: cee_json_to_intx reports a value that is no int

---
 cee-json/release/cee-json.c | 5 ++++-
 cee-json/value.c            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 330fffe..b2396fa 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -394,7 +394,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i64 = cee_boxed_to_i64(p->value.boxed);
+    if (i64 != (int)i64)
+      return ERANGE;
+    *r = (int)i64;
     return 0;
   }
   else
diff --git a/cee-json/value.c b/cee-json/value.c
index 60dd50b..ee7aaa3 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -170,7 +170,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i64 = cee_boxed_to_i64(p->value.boxed);
+    if (i64 != (int)i64)
+      return ERANGE;
+    *r = (int)i64;
     return 0;
   }
   else
-- 
2.43.0


From c467e8c314717204e2f1562b7290bdb0bf337cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 46/85] fix: cee_json_snprint respects the size it is given

---
 cee-json/release/cee-json.c | 18 ++++++++++++++++--
 cee-json/snprint.c          | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index b2396fa..761cd2c 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1578,6 +1578,20 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
 
+  if (buf) {
+    size_t need = cee_json_snprint(st, NULL, 0, j, f);
+    if (size <= need) {
+      /*  like snprintf: print what fits and terminate it */
+      if (size) {
+        char *all = malloc(need + 1);
+        cee_json_snprint(st, all, need + 1, j, f);
+        memcpy(buf, all, size - 1);
+        buf[size - 1] = '\0';
+        free(all);
+      }
+      return need;
+    }
+  }
   /*  the parser accepts 511 levels, a scalar below them, and the stack is never full */
   struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 514);
   push (st, 0, false, sp, j);
@@ -1748,10 +1762,10 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1/*\0*/);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
-  return cee_json_snprint(st, buf, buf_size, j, f);
+  return cee_json_snprint(st, buf, buf_size + 1/*\0*/, j, f);
 }
 
 
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 1a34e01..5c38a03 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -211,6 +211,20 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
   
+  if (buf) {
+    size_t need = cee_json_snprint(st, NULL, 0, j, f);
+    if (size <= need) {
+      /*  like snprintf: print what fits and terminate it */
+      if (size) {
+        char *all = malloc(need + 1);
+        cee_json_snprint(st, all, need + 1, j, f);
+        memcpy(buf, all, size - 1);
+        buf[size - 1] = '\0';
+        free(all);
+      }
+      return need;
+    }
+  }
   /*  the parser accepts 511 levels, a scalar below them, and the stack is never full */
   struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 514);
   push (st, 0, false, sp, j);
@@ -381,10 +395,10 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1/*\0*/);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
-  return cee_json_snprint(st, buf, buf_size, j, f);
+  return cee_json_snprint(st, buf, buf_size + 1/*\0*/, j, f);
 }
 
 
-- 
2.43.0


From 1a1eee900721c55502acd6f2da6fab39c0be33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 47/85] fix: cee_json_load_from_buffer releases its state when
 parsing fails

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 761cd2c..ed0d17c 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -907,6 +907,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   int line = 0;
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
+    cee_del(st);
     j = NULL;
   }
   return j;
diff --git a/cee-json/value.c b/cee-json/value.c
index ee7aaa3..7ded537 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -683,6 +683,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   int line = 0;
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
+    cee_del(st);
     j = NULL;
   }
   return j;
-- 
2.43.0


From 665609b8edf7d55b1541b5c7d7796f122891630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 48/85] fix: cee_json_load_from_fileno reads the whole file and
 reports read errors

---
 cee-json/release/cee-json.c | 19 ++++++++++++++++---
 cee-json/value.c            | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index ed0d17c..bba9fa5 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -858,10 +858,23 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof,
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
+  if( fstat(fd, &buf) ){
+    fprintf(stderr, "%s", strerror(errno));
+    return NULL;
+  }
+  off_t size = buf.st_size, got = 0;
   char * b = malloc(size);
-  read(fd, b, size);
+  while( got < size ){
+    ssize_t n = read(fd, b + got, size - got);
+    if( n < 0 && errno == EINTR )
+      continue;
+    if( n <= 0 ){
+      fprintf(stderr, "failed to read: %s", n ? strerror(errno) : "end of file");
+      free(b);
+      return NULL;
+    }
+    got += n;
+  }
 
   int line = 0;
   struct cee_json * j = NULL;
diff --git a/cee-json/value.c b/cee-json/value.c
index 7ded537..7018fcc 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -634,10 +634,23 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof, 
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
+  if( fstat(fd, &buf) ){
+    fprintf(stderr, "%s", strerror(errno));
+    return NULL;
+  }
+  off_t size = buf.st_size, got = 0;
   char * b = malloc(size);
-  read(fd, b, size);
+  while( got < size ){
+    ssize_t n = read(fd, b + got, size - got);
+    if( n < 0 && errno == EINTR )
+      continue;
+    if( n <= 0 ){
+      fprintf(stderr, "failed to read: %s", n ? strerror(errno) : "end of file");
+      free(b);
+      return NULL;
+    }
+    got += n;
+  }
 
   int line = 0;
   struct cee_json * j = NULL;
-- 
2.43.0


From 34e1ce2644f6accd098a94257b97d91182e22fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 49/85] fix: loading JSON from a file honours force_eof

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index bba9fa5..a96835d 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -878,7 +878,7 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, size, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
diff --git a/cee-json/value.c b/cee-json/value.c
index 7018fcc..eee11be 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -654,7 +654,7 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, size, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
-- 
2.43.0


From 9342ddcee5e52b9590f95dcb68bf458de921b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 50/85] fix: cee_json_save_fileno completes short and
 interrupted writes

---
 cee-json/release/cee-json.c |  9 ++++++++-
 cee-json/value.c            | 15 +++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index a96835d..f3c1cb9 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -930,10 +930,17 @@ bool cee_json_save_fileno(struct cee_state * st, struct cee_json * j, int fd, in
   size_t s = cee_json_snprint (st, NULL, 0, j, how);
   char * p = malloc(s+1);
   cee_json_snprint (st, p, s+1, j, how);
-  if( write(fd, p, s) != s ){
+  size_t put = 0;
+  while( put < s ){
+    ssize_t n = write(fd, p + put, s - put);
+    if( n < 0 && errno == EINTR )
+      continue;
+    if( n <= 0 ){
     fprintf(stderr, "%s", strerror(errno));
     free(p);
     return false;
+    }
+    put += n;
   }
   free(p);
   return true;
diff --git a/cee-json/value.c b/cee-json/value.c
index eee11be..e9ca04c 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -706,10 +706,17 @@ bool cee_json_save_fileno(struct cee_state * st, struct cee_json * j, int fd, in
   size_t s = cee_json_snprint (st, NULL, 0, j, how);
   char * p = malloc(s+1);
   cee_json_snprint (st, p, s+1, j, how);
-  if( write(fd, p, s) != s ){
-    fprintf(stderr, "%s", strerror(errno));
-    free(p);
-    return false;
+  size_t put = 0;
+  while( put < s ){
+    ssize_t n = write(fd, p + put, s - put);
+    if( n < 0 && errno == EINTR )
+      continue;
+    if( n <= 0 ){
+      fprintf(stderr, "%s", strerror(errno));
+      free(p);
+      return false;
+    }
+    put += n;
   }
   free(p);
   return true;
-- 
2.43.0


From b53d477629bea3194ef6079e740ca70fb844fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 51/85] fix: cee_json_escape_string keeps control characters
 whole and within dest

---
 cee-json/release/cee-json.c | 16 ++++++++++++----
 cee-json/value.c            | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index f3c1cb9..bce5e54 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1107,9 +1107,17 @@ int cee_json_select_as_int(struct cee_json *o, int *x, char *fmt){
 size_t cee_json_escape_string(const char *s, size_t s_size,
                               char *dest, size_t dest_size,
                               char **next_dest_p, size_t *next_dest_size){
-  int j = 0, c, i;
+  size_t j = 0, i;
+  int c;
   for( i = 0; i < s_size; i++ ){
     c = s[i];
+    size_t room = dest_size - j, need = 1;
+    if( '\x00' <= c && c <= '\x1f' )
+      need = strchr("\b\f\n\r\t", c) && c ? 2 : 6;
+    else if( c == '"' || c == '\\' )
+      need = 2;
+    if( room < need ) /* what does not fit is left out */
+      break;
     switch( c ){
     case '"' : dest[j] = '\\', dest[j+1] = '"', j+= 2; break;
     case '\\': dest[j] = '\\', dest[j+1] = '\\', j+= 2; break;
@@ -1120,9 +1128,9 @@ size_t cee_json_escape_string(const char *s, size_t s_size,
     case '\t': dest[j] = '\\', dest[j+1] = 't', j+= 2; break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        char hex[8];
+        snprintf(hex, sizeof hex, "\\u%04x", c);
+        memcpy(dest+j, hex, 6), j += 6;
       }else{
         dest[j] = c, j++;
       }
diff --git a/cee-json/value.c b/cee-json/value.c
index e9ca04c..edb21a0 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -883,9 +883,17 @@ int cee_json_select_as_int(struct cee_json *o, int *x, char *fmt){
 size_t cee_json_escape_string(const char *s,  size_t s_size,
                               char *dest, size_t dest_size,
                               char **next_dest_p, size_t *next_dest_size){
-  int j = 0, c, i;
+  size_t j = 0, i;
+  int c;
   for( i = 0; i < s_size; i++ ){
     c = s[i];
+    size_t room = dest_size - j, need = 1;
+    if( '\x00' <= c && c <= '\x1f' )
+      need = strchr("\b\f\n\r\t", c) && c ? 2 : 6;
+    else if( c == '"' || c == '\\' )
+      need = 2;
+    if( room < need ) /* what does not fit is left out */
+      break;
     switch( c ){
     case '"' : dest[j] = '\\', dest[j+1] = '"',  j+= 2; break;
     case '\\': dest[j] = '\\', dest[j+1] = '\\', j+= 2; break;
@@ -896,9 +904,9 @@ size_t cee_json_escape_string(const char *s,  size_t s_size,
     case '\t': dest[j] = '\\', dest[j+1] = 't',  j+= 2; break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        char hex[8];
+        snprintf(hex, sizeof hex, "\\u%04x", c);
+        memcpy(dest+j, hex, 6), j += 6;
       }else{
         dest[j] = c, j++;
       }
-- 
2.43.0


From ef467c2ade48f8a2408ef08b58008d7e71f3fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 52/85] fix: cee_json_merge_all releases everything and reports
 a failed save

---
 cee-json/cee_json_merge.c   | 19 +++++++++++--------
 cee-json/release/cee-json.c | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/cee-json/cee_json_merge.c b/cee-json/cee_json_merge.c
index 8071a49..41f58f5 100644
--- a/cee-json/cee_json_merge.c
+++ b/cee-json/cee_json_merge.c
@@ -6,6 +6,7 @@
 
 int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   static char perror_buf[128] = {0};
+  int ret = 1;
 
   FILE *f0 = fopen(json_files[0], "r"), *fn, *f_combined;
   if( !f0 ){
@@ -19,7 +20,7 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   j0 = cee_json_load_from_FILE(state, f0, true, &line);
   if( j0 == NULL ){
     fprintf(stderr, "error at %s:%d\n", json_files[0], line);
-    return 1;
+    goto done;
   }
 
   for( int i = 1; i < json_file_count; i++ ){
@@ -27,22 +28,22 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     if( !fn ){
       snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
       perror(perror_buf);
-      return 1;
+      goto done;
     }
     line = -1;
     jn = cee_json_load_from_FILE(state, fn, true, &line);
+    fclose(fn);
     if( jn == NULL ){
       fprintf(stderr, "error at %s:%d\n", json_files[i], line);
-      return 1;
+      goto done;
     }
     cee_json_merge(j0, jn);
-    fclose(fn);
   }
 
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
-    return 1;
+    goto done;
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
   cee_json_object_set(j0, "originals", inputs);
@@ -51,9 +52,11 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
-  fclose(f_combined);
+  ret = !cee_json_save(state, j0, f_combined, 1);
+  if( fclose(f_combined) )
+    ret = 1;
+done:
   fclose(f0);
   cee_del(state);
-  return 0;
+  return ret;
 }
diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index bce5e54..7fc5963 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2368,6 +2368,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
 int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   static char perror_buf[128] = {0};
 
+  int ret = 1;
   FILE *f0 = fopen(json_files[0], "r"), *fn, *f_combined;
   if( !f0 ){
     snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[0]);
@@ -2380,7 +2381,7 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   j0 = cee_json_load_from_FILE(state, f0, true, &line);
   if( j0 == NULL ){
     fprintf(stderr, "error at %s:%d\n", json_files[0], line);
-    return 1;
+    goto done;
   }
 
   for( int i = 1; i < json_file_count; i++ ){
@@ -2388,22 +2389,22 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     if( !fn ){
       snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
       perror(perror_buf);
-      return 1;
+      goto done;
     }
     line = -1;
     jn = cee_json_load_from_FILE(state, fn, true, &line);
+    fclose(fn);
     if( jn == NULL ){
       fprintf(stderr, "error at %s:%d\n", json_files[i], line);
-      return 1;
+      goto done;
     }
     cee_json_merge(j0, jn);
-    fclose(fn);
   }
 
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
-    return 1;
+    goto done;
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
   cee_json_object_set(j0, "originals", inputs);
@@ -2412,11 +2413,13 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
-  fclose(f_combined);
+  ret = !cee_json_save(state, j0, f_combined, 1);
+  if( fclose(f_combined) )
+    ret = 1;
+done:
   fclose(f0);
   cee_del(state);
-  return 0;
+  return ret;
 }
 
 #endif
-- 
2.43.0


From 18d7e5204955036b95c847dbb17e9e04ddec5814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 53/85] fix: sv_chop_by_sv finds a delimiter at the end and
 stays within the view

---
 strview.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/strview.c b/strview.c
index 48c477b..ed023fc 100644
--- a/strview.c
+++ b/strview.c
@@ -203,21 +203,20 @@ SVDEF String_View sv_chop_by_sv(String_View *sv, String_View thicc_delim)
 {
     String_View window = sv_from_parts(sv->data, thicc_delim.count);
     size_t i = 0;
-    while (i + thicc_delim.count < sv->count 
+    while (i + thicc_delim.count <= sv->count 
         && !(sv_eq(window, thicc_delim))) 
     {
         i++;
         window.data++;
     }
 
+    if (i + thicc_delim.count > sv->count) {
+        // there is no thicc_delim: chop everything
+        return sv_chop_left(sv, sv->count);
+    }
+
     String_View result = sv_from_parts(sv->data, i);
 
-    if (i + thicc_delim.count == sv->count) {
-        // include last <thicc_delim.count> characters if they aren't 
-        //  equal to thicc_delim
-        result.count += thicc_delim.count; 
-    }
-    
     // Chop!
     sv->data  += i + thicc_delim.count;
     sv->count -= i + thicc_delim.count;
-- 
2.43.0


From f14bc82803587e5be085f69ed20c96fa4502a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 54/85] fix: musl_lsearch and musl_lfind search elements of the
 given width

---
 musl-lsearch.c | 14 +++++++-------
 release/cee.c  | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/musl-lsearch.c b/musl-lsearch.c
index faedb7a..e3a5467 100644
--- a/musl-lsearch.c
+++ b/musl-lsearch.c
@@ -10,27 +10,27 @@
 void *musl_lsearch(const void *key, void *base, size_t *nelp, size_t width,
   int (*compar)(const void *, const void *))
 {
-  char **p = (char **)base;
+  char *p = (char *)base;
   size_t n = *nelp;
   size_t i;
 
   for (i = 0; i < n; i++)
-    if (compar(p[i], key) == 0)
-      return p[i];
+    if (compar(p + i*width, key) == 0)
+      return p + i*width;
   *nelp = n+1;
   /* b.o. here when width is longer than the size of key */
-  return memcpy(p[n], key, width);
+  return memcpy(p + n*width, key, width);
 }
 
 void *musl_lfind(const void *key, const void *base, size_t *nelp,
   size_t width, int (*compar)(const void *, const void *))
 {
-  char **p = (char **)base;
+  char *p = (char *)base;
   size_t n = *nelp;
   size_t i;
 
   for (i = 0; i < n; i++)
-    if (compar(p[i], key) == 0)
-      return p[i];
+    if (compar(p + i*width, key) == 0)
+      return p + i*width;
   return 0;
 }
diff --git a/release/cee.c b/release/cee.c
index 3c3d6ec..6bf781d 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1019,28 +1019,28 @@ void musl_remque(void *element)
 void *musl_lsearch(const void *key, void *base, size_t *nelp, size_t width,
   int (*compar)(const void *, const void *))
 {
-  char **p = (char **)base;
+  char *p = (char *)base;
   size_t n = *nelp;
   size_t i;
 
   for (i = 0; i < n; i++)
-    if (compar(p[i], key) == 0)
-      return p[i];
+    if (compar(p + i*width, key) == 0)
+      return p + i*width;
   *nelp = n+1;
   /* b.o. here when width is longer than the size of key */
-  return memcpy(p[n], key, width);
+  return memcpy(p + n*width, key, width);
 }
 
 void *musl_lfind(const void *key, const void *base, size_t *nelp,
   size_t width, int (*compar)(const void *, const void *))
 {
-  char **p = (char **)base;
+  char *p = (char *)base;
   size_t n = *nelp;
   size_t i;
 
   for (i = 0; i < n; i++)
-    if (compar(p[i], key) == 0)
-      return p[i];
+    if (compar(p + i*width, key) == 0)
+      return p + i*width;
   return 0;
 }
 /* AVL tree height < 1.44*log2(nodes+2)-0.3, MAXH is a safe upper bound.  */
-- 
2.43.0


From 70aab9b74c7d7f578e9a90f7645b28b4e04a7a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 55/85] fix: musl_tdelete tells a deleted root from a missing
 key

---
 musl-tsearch.c | 2 +-
 release/cee.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/musl-tsearch.c b/musl-tsearch.c
index 1728d57..64db889 100644
--- a/musl-tsearch.c
+++ b/musl-tsearch.c
@@ -200,7 +200,7 @@ void *musl_tdelete(void * cxt, const void * key, void ** rootp,
   }
   /* freed tnode has at most one child, move it up and rebalance.  */
   if (parent == n)
-    parent = NULL;
+    parent = (struct S(tnode) *)rootp;
   
   free(n);
   *a[--i] = child;
diff --git a/release/cee.c b/release/cee.c
index 6bf781d..b58534f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1236,7 +1236,7 @@ void *musl_tdelete(void * cxt, const void * key, void ** rootp,
   }
   /* freed tnode has at most one child, move it up and rebalance.  */
   if (parent == n)
-    parent = NULL;
+    parent = (struct _cee_tsearch_tnode *)rootp;
 
   free(n);
   *a[--i] = child;
-- 
2.43.0


From c74470f6177ca14789c1a6e9d30e6cf42d488521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 56/85] fix: a statement with an unbound parameter is finalized

---
 sqlite3/cee-sqlite3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 51fc7ea..b2ca6b4 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -206,6 +206,9 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
         if( bound[i] == 0 ){ // this parameter is not bound.
           const char *parameter = sqlite3_bind_parameter_name(sql_stmt, i+1);
           cee_json_set_error(ret, "SQL:%s:'%s' the %dth parameter '%s' is not bound", cs->db_name, sql, i+1, parameter);
+          sqlite3_finalize(sql_stmt);
+          if( sql_stmt_pp )
+            *sql_stmt_pp = NULL;
           return SQLITE_ERROR;
         }
       }
-- 
2.43.0


From eb2869633b8f120ec587b266069b194876533fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 57/85] fix: a value that cannot be bound is an error, not a
 NULL

---
 sqlite3/cee-sqlite3.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index b2ca6b4..8eb3181 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -138,9 +138,10 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
        * to report it as an error
        */
       int total_parameters = sqlite3_bind_parameter_count(sql_stmt);
+      int bind_rc = SQLITE_OK;
       char *bound = alloca(total_parameters);
       memset(bound, 0, total_parameters);
-      for( int i = 0; info[i].var_name; i++ ){
+      for( int i = 0; info[i].var_name && bind_rc == SQLITE_OK; i++ ){
         idx = sqlite3_bind_parameter_index(sql_stmt, info[i].var_name);
         if( idx <= 0 )
           continue;
@@ -156,16 +157,16 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
           case CEE_SQLITE3_UNDEF:
             cee_segfault();
           case CEE_SQLITE3_INT:
-            sqlite3_bind_int(sql_stmt, idx, 0);
+            bind_rc = sqlite3_bind_int(sql_stmt, idx, 0);
             break;
           case CEE_SQLITE3_INT64:
-            sqlite3_bind_int64(sql_stmt, idx, 0);
+            bind_rc = sqlite3_bind_int64(sql_stmt, idx, 0);
             break;
           case CEE_SQLITE3_TEXT:
-            sqlite3_bind_text(sql_stmt, idx, "", 0, SQLITE_STATIC);
+            bind_rc = sqlite3_bind_text(sql_stmt, idx, "", 0, SQLITE_STATIC);
             break;
           case CEE_SQLITE3_BLOB:
-            sqlite3_bind_blob(sql_stmt, idx, "", 0, SQLITE_STATIC);
+            bind_rc = sqlite3_bind_blob(sql_stmt, idx, "", 0, SQLITE_STATIC);
             break;
           default:
             cee_segfault();
@@ -176,7 +177,7 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
           continue;
 
         if( data_p->is_null && !info[i].not_null ){
-          sqlite3_bind_null(sql_stmt, idx);
+          bind_rc = sqlite3_bind_null(sql_stmt, idx);
           continue;
         }
 
@@ -184,24 +185,31 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
         case CEE_SQLITE3_UNDEF:
           cee_segfault();
         case CEE_SQLITE3_INT:
-          sqlite3_bind_int(sql_stmt, idx, data_p->i);
+          bind_rc = sqlite3_bind_int(sql_stmt, idx, data_p->i);
           break;
         case CEE_SQLITE3_INT64:
-          sqlite3_bind_int64(sql_stmt, idx, data_p->i64);
+          bind_rc = sqlite3_bind_int64(sql_stmt, idx, data_p->i64);
           break;
         case CEE_SQLITE3_TEXT:
-          sqlite3_bind_text(sql_stmt, idx, data_p->value,
-                            data_p->size == 0 ? -1 : data_p->size,
-                            SQLITE_STATIC);
+          bind_rc = sqlite3_bind_text(sql_stmt, idx, data_p->value,
+                                      data_p->size == 0 ? -1 : data_p->size,
+                                      SQLITE_STATIC);
           break;
         case CEE_SQLITE3_BLOB:
-          sqlite3_bind_blob(sql_stmt, idx, data_p->value,
-                            data_p->size, SQLITE_STATIC);
+          bind_rc = sqlite3_bind_blob(sql_stmt, idx, data_p->value,
+                                      data_p->size, SQLITE_STATIC);
           break;
         default:
           cee_segfault();
         }
       }
+      if( bind_rc != SQLITE_OK ){
+        cee_json_set_error(ret, "SQL:%s:[%d]'%s' -> %s", cs->db_name, bind_rc, sql, sqlite3_errmsg(db));
+        sqlite3_finalize(sql_stmt);
+        if( sql_stmt_pp )
+          *sql_stmt_pp = NULL;
+        return bind_rc;
+      }
       for( int i = 0; i < total_parameters; i++ ){
         if( bound[i] == 0 ){ // this parameter is not bound.
           const char *parameter = sqlite3_bind_parameter_name(sql_stmt, i+1);
-- 
2.43.0


From 5956d27a7736564742c5debedc6ecf8321cdbe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 58/85] fix: a select that fails ends, reports the failure and
 finalizes its statement

---
 sqlite3/cee-sqlite3.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 8eb3181..35539bc 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -430,21 +430,19 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
   struct cee_json *result = NULL, *my_status = NULL;
   
   int rc = cee_sqlite3_bind_run_sql(cs, info, data, sql, &stmt, &my_status);
-  if( rc != SQLITE_ROW && rc != SQLITE_DONE ){
-    if( status ){
-      accept_result(state, status, &result);
-      cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
-      cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
-    }
-    return rc;
-  }
-  while( rc != SQLITE_DONE ){
+  while( rc == SQLITE_ROW ){
     if( f(cls, state, info, stmt) ){
       sqlite3_finalize(stmt);
       return SQLITE_DONE;
     }
     rc = sqlite3_step(stmt);
   }
+  /* an array given by the caller cannot hold the error */
+  if( rc != SQLITE_DONE && status && *status == NULL ){
+    accept_result(state, status, &result);
+    cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
+  }
   sqlite3_finalize(stmt);
   return rc;
 }
-- 
2.43.0


From b77c9041e39d207d742d7248987b0aaf14005b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 59/85] fix: update_or_insert does not insert when its select
 fails

---
 sqlite3/cee-sqlite3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 35539bc..1803393 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -268,7 +268,9 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
     rc = cee_sqlite3_bind_run_sql(cs, info, data, update, NULL, status);
     if( rc != SQLITE_DONE )
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, update, sqlite3_errmsg(db));
-  }else{
+  }else if( rc != SQLITE_DONE )
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
+  else{
     char *insert = stmts->insert_dynamic ? stmts->insert_stmt_x : stmts->insert_stmt;
     rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
     if( rc != SQLITE_DONE )
-- 
2.43.0


From e658672a9426e72fc53d6b251f1506fbdaf8aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 60/85] fix: cee_sqlite3_update reports that the row does not
 exist

---
 sqlite3/cee-sqlite3.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 1803393..38ba140 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -338,6 +338,13 @@ int cee_sqlite3_delete(struct cee_sqlite3 *cs,
 }
 
 
+static int update_row(struct cee_sqlite3 *cs,
+                      struct cee_sqlite3_bind_info *info,
+                      struct cee_sqlite3_bind_data *data,
+                      struct cee_sqlite3_stmt_strs *stmts,
+                      struct cee_json **status,
+                      bool *exists);
+
 int cee_sqlite3_update(struct cee_sqlite3 *cs,
                        struct cee_sqlite3_bind_info *info,
                        struct cee_sqlite3_bind_data *data,
@@ -345,11 +352,13 @@ int cee_sqlite3_update(struct cee_sqlite3 *cs,
                        struct cee_json **status)
 {
   int rc;
-  rc = cee_sqlite3_update_if_exists(cs, info, data, stmts, status);
-  if( rc == SQLITE_OK )
-    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
-                       cs->db_name, rc, stmts->select_stmt,
-                       sqlite3_errmsg(cs->db));
+  bool exists = false;
+  rc = update_row(cs, info, data, stmts, status, &exists);
+  if( rc == SQLITE_DONE && !exists ){
+    rc = SQLITE_NOTFOUND;
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> no such row",
+                       cs->db_name, rc, stmts->select_stmt);
+  }
   return rc;
 }
 
@@ -358,6 +367,16 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
                                 struct cee_sqlite3_bind_data *data,
                                 struct cee_sqlite3_stmt_strs *stmts,
                                 struct cee_json **status){
+  bool exists;
+  return update_row(cs, info, data, stmts, status, &exists);
+}
+
+static int update_row(struct cee_sqlite3 *cs,
+                      struct cee_sqlite3_bind_info *info,
+                      struct cee_sqlite3_bind_data *data,
+                      struct cee_sqlite3_stmt_strs *stmts,
+                      struct cee_json **status,
+                      bool *exists){
   int rc;
   struct cee_json *result = NULL;
   sqlite3 *db = cs->db;
@@ -365,6 +384,10 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
   accept_result(cs->state, status, &result);
 
   rc = cee_sqlite3_bind_run_sql(cs, info, data, stmts->select_stmt, NULL, status);
+  *exists = (rc == SQLITE_ROW);
+  if( rc != SQLITE_ROW && rc != SQLITE_DONE )
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
+                       cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
   if( rc == SQLITE_ROW ){
     char *update = stmts->update_stmt ? stmts->update_stmt : stmts->update_stmt_x;
     if( !update ){
-- 
2.43.0


From 830dac064933d5362c6e5655630c66421276a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 61/85] fix: updated_rows counts the rows of this update

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 38ba140..af6579a 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -403,7 +403,7 @@ static int update_row(struct cee_sqlite3 *cs,
                          cs->db_name, rc, update, sqlite3_errmsg(db));
     else if( status )
       cee_json_object_set_i64(*status, "updated_rows",
-                              sqlite3_total_changes(db));
+                              sqlite3_changes(db));
   }
   return rc;
 }
-- 
2.43.0


From 893e59125869fd644dd3d226a964c546895a3960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 62/85] fix: a failed delete reports no deleted rows

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index af6579a..7a8a9cf 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -330,7 +330,7 @@ int cee_sqlite3_delete(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
 		       cs->db_name, rc, delete_sql, sqlite3_errmsg(db));
-  if( key )
+  else if( key )
     cee_json_object_set_i64(result, key, sqlite3_changes(cs->db));
   else
     cee_json_object_set_i64(result, "deleted", sqlite3_changes(cs->db));
-- 
2.43.0


From d7b0b4f88885f041f447cedfb4e85e8a32bcd10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 63/85] fix: last_insert_rowid is not cut to 32 bits, and
 insert returns it without a status

---
 sqlite3/cee-sqlite3.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 7a8a9cf..ef31c0d 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -277,7 +277,7 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                          cs->db_name, rc, insert, sqlite3_errmsg(db));
     else if( result ){
-      int row_id = sqlite3_last_insert_rowid(db);
+      sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
       cee_json_object_set_i64(result, "last_insert_rowid", row_id);
     }
   }
@@ -300,8 +300,8 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
   rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, insert, sqlite3_errmsg(db));
-  else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+  else{
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     if( key )
       cee_json_object_set_i64(result, key, row_id);
     else
@@ -624,7 +624,7 @@ int cee_sqlite3_select1_or_insert(struct cee_sqlite3 *cs,
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                        cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     cee_json_object_set_i64(*status, "last_insert_rowid", row_id);
   }
 
-- 
2.43.0


From 95c3715878947a85c69c98863a16bc575d0f2e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 64/85] fix: cee_json_to_bind_info binds every member of the
 object

---
 sqlite3/cee-sqlite3.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index ef31c0d..2266273 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1064,16 +1064,18 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     if( info[i].var_name ) continue;
     switch( val->t ){
     case CEE_JSON_I64:
-      if ( cee_json_to_intx(val, &info[i].data.i))
+      if ( cee_json_to_i64x(val, &info[i].data.i64))
         cee_segfault();
-      info[i].type = CEE_SQLITE3_INT;
+      info[i].type = CEE_SQLITE3_INT64;
       break;
     case CEE_JSON_STRING:
       info[i].data.value = cee_json_to_str(val)->_;
       info[i].type = CEE_SQLITE3_TEXT;
       break;
     case CEE_JSON_NULL:
-      return 0;
+      info[i].data.is_null = 1;
+      info[i].type = CEE_SQLITE3_TEXT;
+      break;
     default:
       fprintf(stderr, "%d", val->t);
       cee_segfault();
@@ -1081,6 +1083,7 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     info[i].col_name = cee_str_mk(is->state,  "%s", key->_)->_;
     info[i].var_name = cee_str_mk(is->state, "@%s", key->_)->_;
     info[i].data.has_value = 1;
+    break;
   }
   return 0;
 }
-- 
2.43.0


From 89c496ec7a388f555bc8f267c51637551366977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 65/85] fix: insert_json_array takes any number of members and
 reports failures

---
 sqlite3/cee-sqlite3.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 2266273..505dff0 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1139,7 +1139,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 struct insert_columns_values {
   struct cee_str *insert_colums;
   struct cee_str *insert_values;
-  struct cee_sqlite3_bind_info info [50];
+  struct cee_sqlite3_bind_info *info;
   int idx;
 };
 
@@ -1184,6 +1184,7 @@ collect_colums_values (void *ctx, struct cee_str *key, struct cee_json *val) {
 struct insert_more_ctx {
   char *table_name;
   struct cee_sqlite3 *cs;
+  int rc; /* the first failure */
 };
 
 static int
@@ -1196,6 +1197,7 @@ insert_one_json_object (void *ctx, struct cee_json *one, int idx) {
   struct insert_columns_values one_ctx = {0};
   one_ctx.insert_colums = cee_str_mk(state, "");
   one_ctx.insert_values = cee_str_mk(state, "");
+  one_ctx.info = (void *)cee_block_mk(state, (cee_map_size(cee_json_to_object(one)) + 1) * sizeof(struct cee_sqlite3_bind_info));
   cee_json_object_iterate(one, &one_ctx, collect_colums_values);
   size = snprintf(NULL, 0, "insert into %s (%s) values (%s);",
                   p->table_name,
@@ -1210,7 +1212,9 @@ insert_one_json_object (void *ctx, struct cee_json *one, int idx) {
   char *err_msg = NULL;
   fprintf(stderr, "%s\n", sql->_);
   struct cee_json *status = NULL;
-  cee_sqlite3_insert(p->cs, one_ctx.info, NULL, sql->_, &status, NULL, NULL);
+  int rc = cee_sqlite3_insert(p->cs, one_ctx.info, NULL, sql->_, &status, NULL, NULL);
+  if( rc != SQLITE_DONE && p->rc == SQLITE_OK )
+    p->rc = rc;
   char *buf; size_t len;
   cee_json_asprint(state, &buf, &len, status, 0);
   fprintf(stderr, "%s\n", buf);
@@ -1225,7 +1229,9 @@ cee_sqlite3_insert_json_array(struct cee_sqlite3 *cs,
   struct insert_more_ctx  ctx;
   ctx.table_name = table_name;
   ctx.cs = cs;
-  return cee_json_array_iterate(array, &ctx, insert_one_json_object);
+  ctx.rc = SQLITE_OK;
+  cee_json_array_iterate(array, &ctx, insert_one_json_object);
+  return ctx.rc;
 }
 
 int cee_sqlite3_attach_db(struct cee_sqlite3 *cs, char *db_file, char *as_name,
-- 
2.43.0


From b47bb09af51510a393bb4eb19f321eb4f742ba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:22 +0000
Subject: [PATCH 66/85] fix: generic_opcode does not run with values of the
 wrong type

---
 sqlite3/cee-sqlite3.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 505dff0..7fc3d3a 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -866,7 +866,10 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
     stmts->insert_stmt_x = (char*)cee_str_mk(state, "insert into %s (%s) values (%s)",
                                              stmts->table_name, aaa.insert_colums, aaa.insert_values);
 
-  int rc = f (cs, aaa.info, data, stmts, status);
+  /* a value that does not fit its column is an error, don't run without it */
+  int rc = SQLITE_MISMATCH;
+  if( !cee_json_select(aaa.errors, "[0]") )
+    rc = f (cs, aaa.info, data, stmts, status);
 
   struct cee_json *debug = cee_json_object_mk(state);
   if( stmts->update_template ){
-- 
2.43.0


From 8bb7466b483c8d7352a4e24866c5d65632bb5014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 67/85] fix: insert_op accepts that no status is wanted

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 7fc3d3a..2f891fd 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -926,7 +926,8 @@ int cee_sqlite3_insert_op(struct cee_sqlite3 *cs,
                                       op->stmts,
                                       status,
                                       cee_sqlite3_insert_wrapper);
-  cee_json_object_rename(*status, "last_insert_rowid", "id");
+  if( status )
+    cee_json_object_rename(*status, "last_insert_rowid", "id");
   return rc;
 }
 
-- 
2.43.0


From f42515c96cb37cd83da70d55fec3b2ca615c2b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:24 +0000
Subject: [PATCH 68/85] fix: next_int does not cut its query, nor overflows

---
 sqlite3/cee-sqlite3.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 2f891fd..e827b24 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1115,9 +1115,8 @@ cee_json_to_bind_info(struct cee_json *input) {
 int
 cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
                      char *from_clause, struct cee_json **status) {
-  char qx[128];
-  snprintf(qx, sizeof qx, "select max(%s) as max_value %s;",
-           int_column_name, from_clause);
+  char *qx = cee_str_mk(cs->state, "select max(%s) as max_value %s;",
+                        int_column_name, from_clause)->_;
 
   struct cee_json *input = NULL, *max_value = NULL;
   cee_sqlite3_select1(cs, NULL, NULL, qx, &input);
@@ -1128,7 +1127,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 
   if( (max_value = cee_json_select(input, ".max_value:n")) ){
     int int_value = 0;
-    if( !cee_json_to_intx(max_value, &int_value) )
+    if( !cee_json_to_intx(max_value, &int_value) && int_value + 1LL == (int)(int_value + 1LL) )
       return int_value + 1;
   }else if( cee_json_select(input, ".max_value:!") ){
     /* no rows */
-- 
2.43.0


From c4a91bbaf0a278602b11a1fc3c2a3c58e1cc3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 69/85] fix: select_as and select1_as set the key as documented

---
 sqlite3/cee-sqlite3.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index e827b24..3d8fb45 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1018,9 +1018,8 @@ cee_sqlite3_select1_as(struct cee_sqlite3 *cs,
     struct cee_json *old = cee_json_object_get(*status, key);
     if( old )
       cee_json_merge(old, one);
-    else
-      old = one;
-    cee_json_object_set(*status, key, old);
+    else if( one )
+      cee_json_object_set(*status, key, one);
   }
   return ret;
 }
@@ -1044,12 +1043,9 @@ cee_sqlite3_select_as(struct cee_sqlite3 *cs,
     return ret;
   }
 
-  if( status ){
-    if( *status )
-      cee_json_object_append(*status, key, array);
-    else
-      *status = array;
-  }
+  accept_result(cs->state, status, &result);
+  if( status )
+    cee_json_object_append(*status, key, array);
   return ret;
 }
 
-- 
2.43.0


From 4d921eeb041de9eccf4513a98ede1deee5fd011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:46 +0000
Subject: [PATCH 70/85] fix: init_db closes a database it cannot open

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 3d8fb45..d12117c 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -12,7 +12,8 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
   else {
     rc = sqlite3_open(db_file, &db);
     if( rc != SQLITE_OK ){
-      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(*db_p));
+      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(db));
+      sqlite3_close(db);
       db = NULL;
       goto my_ret;
     }
-- 
2.43.0


From 0599f0c77a45ce720d9438552d9081491934150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 71/85] fix: dropped tables are gone for the open connection,
 too

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index d12117c..1dc136e 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -68,7 +68,7 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
 void cee_sqlite3_drop_all_tables(sqlite3 **db, char *db_file){
   char *stmt = "PRAGMA writable_schema = 1;\n"
     "delete from sqlite_master where type in ('table', 'index', 'trigger');\n"
-    "PRAGMA writable_schema = 0;\n";
+    "PRAGMA writable_schema = RESET;\n";
   cee_sqlite3_init_db(db, db_file, stmt, true);
 }
 
-- 
2.43.0


From 17cfdd0afe9d9297ca0d34c416a90eb5898b2f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 72/85] fix: attaching to a database without a directory

---
 sqlite3/cee-sqlite3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 1dc136e..55b96b3 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1237,8 +1237,9 @@ cee_sqlite3_insert_json_array(struct cee_sqlite3 *cs,
 int cee_sqlite3_attach_db(struct cee_sqlite3 *cs, char *db_file, char *as_name,
                           char *buf, size_t size, char **errmsg){
   const char *filename = sqlite3_db_filename(cs->db, NULL);
-  snprintf(buf, size, "attach database \"%.*s/%s\" as %s;",
-           strrchr(filename, '/') - filename, filename, db_file, as_name);
+  const char *slash = filename ? strrchr(filename, '/') : NULL;
+  snprintf(buf, size, "attach database \"%.*s%s\" as %s;",
+           slash ? (int)(slash + 1 - filename) : 0, filename, db_file, as_name);
   return sqlite3_exec(cs->db, buf, NULL, NULL, errmsg);
 }
 
-- 
2.43.0


From 81c6ce711a6730dcec9da04d4796e75c921c02ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 73/85] fix: joining binds 64-bit integers and counted strings

---
 sqlite3/join.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlite3/join.c b/sqlite3/join.c
index e8c8e5f..c8b1adb 100644
--- a/sqlite3/join.c
+++ b/sqlite3/join.c
@@ -32,7 +32,8 @@ static int join_one (void *ctx, void *elem, int idx) {
     }
     switch( value->t ){
       case CEE_JSON_I64:
-        if( cee_json_to_intx(value, &item->i) ){
+        cee_json_to_i64x(value, &item->i64);
+        if( info[i].type != CEE_SQLITE3_INT64 && cee_json_to_intx(value, &item->i) ){
           cee_json_object_set_strf(
             one, "error", "failed to convert json key %s's value to int",
             info[i].col_name);
@@ -41,6 +42,7 @@ static int join_one (void *ctx, void *elem, int idx) {
         break; /* switch */
       case CEE_JSON_STRING:
         item->value = cee_json_to_str(value)->_;
+        item->size = 0;
         break; /* switch */
       case CEE_JSON_NULL:
         cee_json_object_set_strf(
-- 
2.43.0


From d34733f833efafd32c297c184f7a7a69d486b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 74/85] fix: attaching reports a statement that does not fit
 instead of running its beginning

---
 sqlite3/cee-sqlite3.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 55b96b3..b1a2ff4 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1238,8 +1238,12 @@ int cee_sqlite3_attach_db(struct cee_sqlite3 *cs, char *db_file, char *as_name,
                           char *buf, size_t size, char **errmsg){
   const char *filename = sqlite3_db_filename(cs->db, NULL);
   const char *slash = filename ? strrchr(filename, '/') : NULL;
-  snprintf(buf, size, "attach database \"%.*s%s\" as %s;",
-           slash ? (int)(slash + 1 - filename) : 0, filename, db_file, as_name);
+  if( (size_t)snprintf(buf, size, "attach database \"%.*s%s\" as %s;",
+                       slash ? (int)(slash + 1 - filename) : 0, filename, db_file, as_name) >= size ){
+    if( errmsg )
+      *errmsg = sqlite3_mprintf("the buffer is too small to attach %s", db_file);
+    return SQLITE_TOOBIG;
+  }
   return sqlite3_exec(cs->db, buf, NULL, NULL, errmsg);
 }
 
-- 
2.43.0


From 68c2027200b667ad57f0e0911b04965e9d9b477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 75/85] fix: detaching reports a statement that does not fit

---
 sqlite3/cee-sqlite3.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index b1a2ff4..5851bb1 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1249,6 +1249,10 @@ int cee_sqlite3_attach_db(struct cee_sqlite3 *cs, char *db_file, char *as_name,
 
 int cee_sqlite3_detach_db(struct cee_sqlite3 *cs, char *as_name,
                           char *buf, size_t size, char **errmsg){
-  snprintf(buf, size, "detach database '%s';", as_name);
+  if( (size_t)snprintf(buf, size, "detach database '%s';", as_name) >= size ){
+    if( errmsg )
+      *errmsg = sqlite3_mprintf("the buffer is too small to detach %s", as_name);
+    return SQLITE_TOOBIG;
+  }
   return sqlite3_exec(cs->db, buf, NULL, NULL, errmsg);
 }
-- 
2.43.0


From 455b74c6c855ba835a34073a8baa0c477c4d60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 76/85] fix: a managed database's log is kept even if its
 directory is new

---
 sqlite3/cee_dbm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index d526b0e..f6149fc 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -217,6 +217,10 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
                      int *db_version){
   struct cee_sqlite3 log_cs = {0};
   char log[256];
+  if( mkdir_p(path_info->db_file_path, 0755) ){
+    perror(path_info->db_file_path);
+    exit (1);
+  }
   open_dbm_log(path_info, &log_cs.db);
 
   char db_script[128];
-- 
2.43.0


From 377610d1f7cf0f735ffe28279b78793912a2fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 77/85] fix: $HOME is replaced where a path begins with it, and
 only if the result fits

---
 sqlite3/cee_dbm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index f6149fc..44236eb 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -102,8 +102,12 @@ size_t cee_dbm_settings_snprint(char *buf, size_t size, struct cee_dbm_db_info *
 
 static void replace_home_env(char path[128], char *home_dir){
   char buf[128];
-  if( strstr(path, "$HOME") ){
+  if( strncmp(path, "$HOME", strlen("$HOME")) == 0 ){
     int n = snprintf(buf, sizeof buf, "%s%s", home_dir, path + strlen("$HOME"));
+    if( n < 0 || (size_t)n >= sizeof buf ){
+      fprintf(stderr, "path %s is too long\n", path);
+      cee_segfault();
+    }
     memcpy(path, buf, n+1);
   }
 }
-- 
2.43.0


From c1ee24dd5f9dda5b9c2ffc44b179b59c3e427e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 78/85] fix: descriptions of managed databases stay within
 their buffers

---
 sqlite3/cee_dbm.c | 69 +++++++++++------------------------------------
 1 file changed, 16 insertions(+), 53 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 44236eb..f5c56c5 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -84,20 +84,16 @@ int cee_dbm_db_info_load(char *start, size_t size, struct cee_dbm_db_info *info)
 #endif
 
 size_t cee_dbm_path_info_snprint(char *buf, size_t size, struct cee_dbm_path_info *s){
-  size_t offset = 0;
-  offset += snprintf(buf+offset, size-offset, "schema_script_path:%s, ", s->schema_script_path);
-  offset += snprintf(buf+offset, size-offset, "data_script_path:%s, ", s->data_script_path);
-  offset += snprintf(buf+offset, size-offset, "db_file_path:%s, ", s->db_file_path);
-  return offset;
+  return snprintf(buf, size,
+                  "schema_script_path:%s, data_script_path:%s, db_file_path:%s, ",
+                  s->schema_script_path, s->data_script_path, s->db_file_path);
 }
 
 size_t cee_dbm_settings_snprint(char *buf, size_t size, struct cee_dbm_db_info *s){
-  size_t offset = 0;
-  offset += snprintf(buf, size, "db_kind:%s, ", s->kind);
-  offset += snprintf(buf+offset, size-offset, "create_version:%d, ", s->create_version);
-  offset += snprintf(buf+offset, size-offset, "recreate_db:%s, ", s->recreate_db ? "true":"false");
-  offset += snprintf(buf+offset, size-offset, "restore_db:%s, ", s->restore_db ? "true":"false");
-  return offset;
+  return snprintf(buf, size,
+                  "db_kind:%s, create_version:%d, recreate_db:%s, restore_db:%s, ",
+                  s->kind, s->create_version,
+                  s->recreate_db ? "true":"false", s->restore_db ? "true":"false");
 }
 
 static void replace_home_env(char path[128], char *home_dir){
@@ -334,51 +330,18 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
 
 
 void cee_dbm_path_info2str(struct cee_dbm_path_info *info, size_t buf_size, char *buf){
-  size_t remaining_size = buf_size, n;
-  char *next = buf;
-  n = snprintf(next, remaining_size, "schema_script_path:%s, ",  info->schema_script_path);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "data_script_path:%s, ",  info->data_script_path);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "db_file_path:%s",  info->db_file_path);
-  remaining_size -= n;
-  next += n;
+  snprintf(buf, buf_size,
+           "schema_script_path:%s, data_script_path:%s, db_file_path:%s",
+           info->schema_script_path, info->data_script_path, info->db_file_path);
 }
 
 void cee_dbm_db_info2str(struct cee_dbm_db_info *info, size_t buf_size, char *buf){
-  size_t remaining_size = buf_size, n;
-  char *next = buf;
-  n = snprintf(next, remaining_size, "kind:%s, ",  info->kind);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "file:%s, ",  info->file);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "recreate_db:%s, ",
-               info->recreate_db ? "true":"false");
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "restore_db:%s, ",
-               info->restore_db ? "true":"false");
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "create_version:%d, ",
-               info->create_version);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "final_version:%d",
-               info->final_version);
-  remaining_size -= n;
-  next += n;
+  snprintf(buf, buf_size,
+           "kind:%s, file:%s, recreate_db:%s, restore_db:%s, "
+           "create_version:%d, final_version:%d",
+           info->kind, info->file,
+           info->recreate_db ? "true":"false", info->restore_db ? "true":"false",
+           info->create_version, info->final_version);
 }
 
 
-- 
2.43.0


From 29eafc2719a07edce2460548469514d0173f84d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 79/85] fix: attaching a managed database never cuts the name
 it is given

---
 sqlite3/cee_dbm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index f5c56c5..57488b2 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -137,8 +137,12 @@ void cee_dbm_attach_db(struct cee_sqlite3 *cs,
     cee_segfault();
   }
 
-  snprintf(file, sizeof file, "attach 'file:%s/%s?mode=ro' as %s;",
-           path_info->db_file_path, db_file, as_name);
+  int n = snprintf(file, sizeof file, "attach 'file:%s/%s?mode=ro' as %s;",
+                   path_info->db_file_path, db_file, as_name);
+  if( n < 0 || (size_t)n >= sizeof file ){
+    fprintf(stderr, "%s is too long\n", file);
+    cee_segfault();
+  }
 
   char *err_msg=NULL;
   int rc = sqlite3_exec(cs->db, file, NULL, NULL, &err_msg);
-- 
2.43.0


From c6f688eecdc0e3274f09826426733b7b4e97b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 80/85] fix: a backup of a missing database closes its log

---
 sqlite3/cee_dbm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 57488b2..7a8ab77 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -372,6 +372,7 @@ bool cee_dbm_db_backup(struct cee_dbm_path_info *path_info,
   if( access(db_file, F_OK) != 0 ){
     snprintf(log, sizeof log, "%s does not exist", db_file);
     add_log(&log_cs, kind, "backup_failed", log);
+    sqlite3_close(log_cs.db);
     return false;
   }
 
-- 
2.43.0


From 8bad747e52e7d9ee19a9a587e17793f6a3057717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 81/85] fix: a failed backup is reported

---
 sqlite3/cee_dbm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 7a8ab77..53c71d2 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -401,5 +401,5 @@ bool cee_dbm_db_backup(struct cee_dbm_path_info *path_info,
     add_log(&log_cs, kind, "backup_failed", db_script);
 
   sqlite3_close(log_cs.db);
-  return true;
+  return ret == 0;
 }
-- 
2.43.0


From 14169d59b04ce00c860edee6ee218c2ce76774e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 82/85] fix: joining reports a key that does not have the type
 of its parameter

It bound what the element before had left there.
---
 sqlite3/join.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sqlite3/join.c b/sqlite3/join.c
index c8b1adb..eaa2a7f 100644
--- a/sqlite3/join.c
+++ b/sqlite3/join.c
@@ -32,6 +32,12 @@ static int join_one (void *ctx, void *elem, int idx) {
     }
     switch( value->t ){
       case CEE_JSON_I64:
+        if( info[i].type != CEE_SQLITE3_INT && info[i].type != CEE_SQLITE3_INT64 ){
+          cee_json_object_set_strf(
+            one, "error", "json key %s's value should not be an integer",
+            info[i].col_name);
+          return 1; /* stop */
+        }
         cee_json_to_i64x(value, &item->i64);
         if( info[i].type != CEE_SQLITE3_INT64 && cee_json_to_intx(value, &item->i) ){
           cee_json_object_set_strf(
@@ -41,6 +47,12 @@ static int join_one (void *ctx, void *elem, int idx) {
         }
         break; /* switch */
       case CEE_JSON_STRING:
+        if( info[i].type != CEE_SQLITE3_TEXT ){
+          cee_json_object_set_strf(
+            one, "error", "json key %s's value should not be text",
+            info[i].col_name);
+          return 1; /* stop */
+        }
         item->value = cee_json_to_str(value)->_;
         item->size = 0;
         break; /* switch */
-- 
2.43.0


From 0a273eacfd9bd50316bdb868fee0c8c1987d5e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 83/85] fix: bind_data_from_json takes a blob column when no
 list of errors is wanted

---
 sqlite3/cee-sqlite3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 5851bb1..2f154da 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -713,8 +713,9 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         break;
       case CEE_SQLITE3_BLOB:
         // decode the string as base64 encoding
-        cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
-                                   info[i].col_name);
+        if( p->errors )
+          cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
+                                     info[i].col_name);
         return 1;
       }
       return 0;
-- 
2.43.0


From d5cc6da4df77e06eae6de0530534feeea84ed1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 84/85] fix: managed databases and scripts with long paths are
 used under their whole names

---
 sqlite3/cee_dbm.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 53c71d2..a9ae614 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -15,6 +15,9 @@
 #include <libgen.h>
 #include <time.h>
 
+/* a configured path, a file name and what is between and after them */
+#define CEE_DBM_PATH_SIZE 1024
+
 /*
  *
  * the same as "mkdir -p <path>"
@@ -118,7 +121,7 @@ void cee_dbm_open_db(struct cee_state *state, struct cee_sqlite3 *cs,
                      struct cee_dbm_path_info *path_info,
                      char *db_kind, char *db_file,
                      sqlite3* (*open_db)(const char *db_file)){
-  char file[128];
+  char file[CEE_DBM_PATH_SIZE];
   snprintf(file, sizeof file, "%s/%s", path_info->db_file_path, db_file);
   if( access(file, F_OK) != 0 ){
     fprintf(stderr, "db file %s does not exist\n", file);
@@ -162,7 +165,7 @@ static int get_user_version(const char *db_file){
 
 
 void open_dbm_log(struct cee_dbm_path_info *path_info, sqlite3 **db){
-  char db_file[128];
+  char db_file[CEE_DBM_PATH_SIZE];
   snprintf(db_file, sizeof db_file, "%s/cee_dbm_log.db", path_info->db_file_path);
   cee_sqlite3_init_db(db, db_file,
                       "create table if not exists log("
@@ -206,7 +209,7 @@ void my_apply_script(char *kind, const char *db_file, const char *script_file, s
 }
 
 bool cee_dbm_db_exist(struct cee_dbm_path_info *path_info, const char *db_file_){
-  char db_file[128];
+  char db_file[CEE_DBM_PATH_SIZE];
   snprintf(db_file, sizeof db_file, "%s/%s", path_info->db_file_path, db_file_);
   if( access(db_file, F_OK) == 0 )
     return true;
@@ -227,8 +230,8 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
   }
   open_dbm_log(path_info, &log_cs.db);
 
-  char db_script[128];
-  char db_file[128], *kind = s->kind;
+  char db_script[CEE_DBM_PATH_SIZE];
+  char db_file[CEE_DBM_PATH_SIZE], *kind = s->kind;
   bool is_new_db = false;
   int current_version, migrated_version;
 
@@ -240,7 +243,7 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
   snprintf(log, sizeof log, "%s", db_file);
   add_log(&log_cs, kind, "open", log);
 
-  char *x, dir[128];
+  char *x, dir[CEE_DBM_PATH_SIZE];
   if( (x = rindex(db_file, '/')) ){
     snprintf(dir, sizeof dir, "%.*s", x - db_file, db_file);
     //extern int mkdir_p(char *dir, mode_t mode);
@@ -357,8 +360,8 @@ bool cee_dbm_db_backup(struct cee_dbm_path_info *path_info,
   char log[256];
   open_dbm_log(path_info, &log_cs.db);
 
-  char db_script[128];
-  char db_file[128], *kind = s->kind;
+  char db_script[3 * CEE_DBM_PATH_SIZE]; /* a command with two paths */
+  char db_file[CEE_DBM_PATH_SIZE], *kind = s->kind;
   int current_version;
 
   if( db_file_ )
-- 
2.43.0


From 9456ea3826e3ab681268309e80f8fe98b3f484ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:14 +0000
Subject: [PATCH 85/85] fix: a dictionary that cannot be made leaves the chain
 of its state

---
 dict.c        | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dict.c b/dict.c
index 2cd14a9..74a1897 100644
--- a/dict.c
+++ b/dict.c
@@ -76,6 +76,7 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   else {
     cee_del(m->keys);
     cee_del(m->vals);
+    S(de_chain)(m);
     free(m);
     return NULL;
   }
diff --git a/release/cee.c b/release/cee.c
index b58534f..01cf032 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2375,6 +2375,7 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   else {
     cee_del(m->keys);
     cee_del(m->vals);
+    _cee_dict_de_chain(m);
     free(m);
     return NULL;
   }
-- 
2.43.0

