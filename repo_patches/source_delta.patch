From c60fb16243494a3e84b6ed8f6f5fc84a6fae4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 01/69] fix: GC must keep `this` values of calls whose
 arguments are being evaluated

---
 src/mjs_gc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_gc.c b/src/mjs_gc.c
index a129fa2..6cb79c4 100644
--- a/src/mjs_gc.c
+++ b/src/mjs_gc.c
@@ -494,6 +494,7 @@ void mjs_gc(struct mjs *mjs, int full) {
   gc_mark_mbuf_val(mjs, &mjs->scopes);
   gc_mark_mbuf_val(mjs, &mjs->stack);
   gc_mark_mbuf_val(mjs, &mjs->call_stack);
+  gc_mark_mbuf_val(mjs, &mjs->arg_stack);
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
 
-- 
2.43.0


From 9a61816a0f7c917946c49cfc753a761a84fac141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 02/69] fix: JSON.parse read past the end of its input buffer

---
 src/mjs_json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index eeb2ea3..d5464af 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -445,8 +445,9 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len);
+    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
+    stmp[len] = '\0'; /* strtod() in frozen_cb() needs a terminator */
     json_res = json_walk(stmp, len, frozen_cb, ctx);
     free(stmp);
     stmp = NULL;
-- 
2.43.0


From 6c3a1b911667c594347a289f123338250a6cde07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 03/69] fix: JSON.parse leaked a buffer on an invalid escape
 sequence

---
 src/mjs_json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index d5464af..d1ba1f2 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -343,6 +343,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         int len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
           mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
+          free(dst);
           break;
         }
         v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
-- 
2.43.0


From 59bfc3bb75736d40dd7a672f4fbc99eae3430303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 04/69] fix: JSON.parse failed an assertion on an empty
 property name

---
 src/mjs_json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index d1ba1f2..c0874f8 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -388,7 +388,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
   }
 
   if (!mjs_is_undefined(v)) {
-    if (name != NULL && name_len != 0) {
+    if (ctx->frame != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
         mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
-- 
2.43.0


From 463f9e5c7a72f49fe81e7fe7ba5c95973268a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 05/69] fix: strings and property names with embedded NULs were
 compared only up to the NUL

---
 src/mjs_object.c | 2 +-
 src/mjs_string.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 72db6e2..a7c21b9 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -231,7 +231,7 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
        prev = prop, prop = prop->next) {
     size_t n;
     const char *s = mjs_get_string(mjs, &prop->name, &n);
-    if (n == len && strncmp(s, name, len) == 0) {
+    if (n == len && memcmp(s, name, len) == 0) {
       if (prev) {
         prev->next = prop->next;
       } else {
diff --git a/src/mjs_string.c b/src/mjs_string.c
index b8f9ce1..bfd1af6 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -224,7 +224,7 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
   if (n != len) {
     return n - len;
   }
-  return strncmp(s, b, len);
+  return memcmp(s, b, len);
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
-- 
2.43.0


From 27ed985e6c89588de02497572a2fc45f6c972860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 06/69] fix: properties set with a short foreign string as a
 name could not be found

---
 src/mjs_object.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index a7c21b9..38bcce2 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -188,9 +188,10 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
 
     /*
      * name_v might be not a string here. In this case, we need to create a new
-     * `name_v`, which will be a string.
+     * `name_v`, which will be a string. Short names are looked up by their
+     * inlined representation, so a short foreign string has to be inlined too.
      */
-    if (!mjs_is_string(name_v)) {
+    if (!mjs_is_string(name_v) || name_len <= 5) {
       name_v = mjs_mk_string(mjs, name, name_len, 1);
     }
 
-- 
2.43.0


From d382571c2ade5cb27c7a6c91220dd36b79585a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 07/69] fix: setting a property of a non-object leaked the
 converted property name

---
 src/mjs_object.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 38bcce2..4ffb777 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -183,7 +183,8 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
   if (p == NULL) {
     struct mjs_object *o;
     if (!mjs_is_object(obj)) {
-      return MJS_REFERENCE_ERROR;
+      rcode = MJS_REFERENCE_ERROR;
+      goto clean;
     }
 
     /*
-- 
2.43.0


From f541843834a0ba912f5abe547d2a6a99ce94d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 08/69] fix: mjs_disown() crashed when nothing was owned

---
 src/mjs_core.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 2ba0765..74e1d09 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -285,8 +285,10 @@ void mjs_own(struct mjs *mjs, mjs_val_t *v) {
 }
 
 int mjs_disown(struct mjs *mjs, mjs_val_t *v) {
-  mjs_val_t **vp = (mjs_val_t **) (mjs->owned_values.buf +
-                                   mjs->owned_values.len - sizeof(v));
+  mjs_val_t **vp;
+  if (mjs->owned_values.len == 0) return 0;
+  vp = (mjs_val_t **) (mjs->owned_values.buf + mjs->owned_values.len -
+                       sizeof(v));
 
   for (; (char *) vp >= mjs->owned_values.buf; vp--) {
     if (*vp == v) {
-- 
2.43.0


From 81a6b36eec85b98f7f1de0dad9c1a2fd5133d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 09/69] fix: typeof and JSON.stringify of an ffi-ed function
 aborted

---
 src/mjs_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 74e1d09..ab2b287 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -215,6 +215,7 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v) {
     case MJS_TAG_ARRAY >> 48:
       return MJS_TYPE_OBJECT_ARRAY;
     case MJS_TAG_FUNCTION >> 48:
+    case MJS_TAG_FUNCTION_FFI >> 48:
       return MJS_TYPE_OBJECT_FUNCTION;
     case MJS_TAG_STRING_I >> 48:
     case MJS_TAG_STRING_O >> 48:
-- 
2.43.0


From aaa22293630a5d2c0e05813f7eeed5fc1a29b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:15 +0000
Subject: [PATCH 10/69] fix: compound assignment evaluated to the old value of
 the variable

---
 src/mjs_exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index bd48fea..06fc079 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -209,7 +209,8 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t key = mjs_pop(mjs);
   if (mjs_is_object(obj) && mjs_is_string(key)) {
     mjs_val_t v = mjs_get_v(mjs, obj, key);
-    mjs_set_v(mjs, obj, key, do_op(mjs, v, val, op));
+    v = do_op(mjs, v, val, op);
+    mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
-- 
2.43.0


From 0e6a90510e7bb4c8a74b3ce1555c7c1b515300c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 11/69] fix: a script with more than 512 blocks one after
 another was rejected

---
 src/mjs_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 7d9f383..24ff9c1 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -173,6 +173,7 @@ static mjs_err_t parse_block(struct pstate *p, int mkscope) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   if (mkscope) emit_byte(p, OP_NEW_SCOPE);
   res = parse_statement_list(p, TOK_CLOSE_CURLY);
+  p->depth--;
   EXPECT(p, TOK_CLOSE_CURLY);
   if (mkscope) emit_byte(p, OP_DEL_SCOPE);
   return res;
-- 
2.43.0


From d28ab2b01f8d4d23950f678be12e848e5097001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 12/69] fix: integer literals of 2^63 and above evaluated to a
 wrong number

---
 src/mjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 24ff9c1..51f7bd6 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -306,7 +306,7 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       double iv, d = strtod(t->ptr, NULL);
       unsigned long uv = strtoul(t->ptr + 2, NULL, 16);
       if (t->ptr[0] == '0' && t->ptr[1] == 'x') d = uv;
-      if (modf(d, &iv) == 0) {
+      if (modf(d, &iv) == 0 && d < 9223372036854775808.0 /* 2^63 */) {
         emit_byte(p, OP_PUSH_INT);
         emit_int(p, (int64_t) d);
       } else {
-- 
2.43.0


From e5690beb88839cc75440111aa607b491c1fa9941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 13/69] fix: bcode got corrupted when `return` without a value
 was parsed inside of a for loop increment

---
 src/mjs_parser.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 51f7bd6..b2e04b1 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -873,7 +873,13 @@ static void pstate_revert(struct pstate *p, struct pstate *old,
   p->offset_lineno_map.len = old->offset_lineno_map.len;
   p->prev_tok = old->prev_tok;
   p->tok = old->tok;
-  p->mjs->bcode_gen.len = old_bcode_gen_len;
+  {
+    /* New code was inserted at cur_idx, which is not always the end of bcode */
+    struct mbuf *b = &p->mjs->bcode_gen;
+    size_t tail = old_bcode_gen_len - old->cur_idx;
+    memmove(b->buf + old->cur_idx, b->buf + b->len - tail, tail);
+    b->len = old_bcode_gen_len;
+  }
   p->cur_idx = old->cur_idx;
   p->depth = old->depth;
 }
-- 
2.43.0


From 029f41e58220b0ea696b962e36598b263e095bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 14/69] fix: 0 and -0 were not strictly equal

---
 src/mjs_exec.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 06fc079..c7e7b91 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -224,11 +224,8 @@ static int check_equal(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
   } else if (a == b) {
     ret = 1;
   } else if (mjs_is_number(a) && mjs_is_number(b)) {
-    /*
-     * The case of equal numbers is handled above, so here the result is always
-     * false
-     */
-    ret = 0;
+    /* Zero and negative zero are equal, but represented differently */
+    ret = mjs_get_double(mjs, a) == mjs_get_double(mjs, b);
   } else if (mjs_is_string(a) && mjs_is_string(b)) {
     ret = s_cmp(mjs, a, b) == 0;
   } else if (mjs_is_foreign(a) && b == MJS_NULL) {
-- 
2.43.0


From a02a7dee08bac2693d9099dcb61021e00b1efe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 15/69] fix: string subscripts of 2^32 and above wrapped around

---
 src/mjs_exec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index c7e7b91..d646d46 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -435,7 +435,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
   if (strcmp(name, "length") == 0) {
     size_t val_len;
@@ -458,7 +458,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx >= 0 && idx < (int) val_len) {
+    if (idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
-- 
2.43.0


From 0d4677b521ecbb5967f3d63e3bd3bb921799cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 16/69] fix: mjs_apply() of a C function leaked a call frame
 and could read a stale result

---
 src/mjs_exec.c | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index d646d46..e13132d 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1119,7 +1119,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx, *resp;
+  mjs_val_t r, prev_this_val, retval_stack_idx;
   int i;
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -1133,7 +1133,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
-  resp = vptr(&mjs->stack, -1);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
@@ -1149,27 +1148,31 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   /* Push call stack frame, just like OP_CALL does that */
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
-  if (mjs_is_foreign(func)) {
-    ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
-    if (res != NULL) *res = *resp;
-  } else if (mjs_is_ffi_sig(func)) {
-    mjs_ffi_call2(mjs);
-    if (res != NULL) *res = *resp;
+  if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    if (mjs_is_foreign(func)) {
+      ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
+    } else {
+      mjs_ffi_call2(mjs);
+    }
+    /* Restore frame just like OP_CALL does that, and pop the return value */
+    call_stack_restore_frame(mjs);
+    r = mjs_pop(mjs);
+    if (res != NULL) *res = r;
   } else {
     size_t addr = mjs_get_func_addr(func);
     mjs_execute(mjs, addr, &r);
     if (res != NULL) *res = r;
-  }
 
-  /*
-   * If there was an error, we need to restore frame and do the cleanup
-   * which is otherwise done by OP_RETURN
-   */
-  if (mjs->error != MJS_OK) {
-    call_stack_restore_frame(mjs);
+    /*
+     * If there was an error, we need to restore frame and do the cleanup
+     * which is otherwise done by OP_RETURN
+     */
+    if (mjs->error != MJS_OK) {
+      call_stack_restore_frame(mjs);
 
-    // Pop cell at which the returned value should've been written
-    mjs_pop(mjs);
+      // Pop cell at which the returned value should've been written
+      mjs_pop(mjs);
+    }
   }
   mjs->vals.this_obj = prev_this_val;
 
-- 
2.43.0


From 2f455d51c72881d1f2e597773efc7a429636e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 17/69] fix: a cycle in the prototype chain overflowed the C
 stack

---
 src/mjs_object.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 4ffb777..0839459 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -139,9 +139,18 @@ mjs_val_t mjs_get_v(struct mjs *mjs, mjs_val_t obj, mjs_val_t name) {
 mjs_val_t mjs_get_v_proto(struct mjs *mjs, mjs_val_t obj, mjs_val_t key) {
   struct mjs_property *p;
   mjs_val_t pn = mjs_mk_string(mjs, MJS_PROTO_PROP_NAME, ~0, 1);
-  if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
-  if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) return MJS_UNDEFINED;
-  return mjs_get_v_proto(mjs, p->value, key);
+  mjs_val_t seen = MJS_UNDEFINED;
+  unsigned long i, next = 1;
+  for (i = 1; obj != seen; i++) {
+    if (i == next) { /* Remember every 2^n-th object to detect cycles */
+      seen = obj;
+      next *= 2;
+    }
+    if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
+    if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) break;
+    obj = p->value;
+  }
+  return MJS_UNDEFINED;
 }
 
 mjs_err_t mjs_set(struct mjs *mjs, mjs_val_t obj, const char *name,
-- 
2.43.0


From 0d1994cd8e1fa9e06a4ab8f4a1daa1db9700f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 18/69] fix: mjs_struct_to_obj() crashed on a NULL string
 member

---
 src/mjs_object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 0839459..297bca2 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -347,7 +347,7 @@ mjs_val_t mjs_struct_to_obj(struct mjs *mjs, const void *base,
       }
       case MJS_STRUCT_FIELD_TYPE_CHAR_PTR: {
         const char *value = *(const char **) ptr;
-        v = mjs_mk_string(mjs, value, ~0, 1);
+        v = (value != NULL) ? mjs_mk_string(mjs, value, ~0, 1) : MJS_NULL;
         break;
       }
       case MJS_STRUCT_FIELD_TYPE_VOID_PTR: {
-- 
2.43.0


From e9a43453a676315f3e364a6c8e5d5b02e62362ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 19/69] fix: escape sequences in quoted property names of
 object literals were ignored

---
 src/mjs_parser.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index b2e04b1..4ef4b06 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -241,7 +241,15 @@ static mjs_err_t parse_object_literal(struct pstate *p) {
     if (p->tok.tok != TOK_IDENT && p->tok.tok != TOK_STR) SYNTAX_ERROR(p);
     emit_byte(p, OP_DUP);
     emit_byte(p, OP_PUSH_STR);
-    emit_str(p, p->tok.ptr, p->tok.len);
+    if (p->tok.tok == TOK_STR) {
+      struct mbuf *bcode_gen = &p->mjs->bcode_gen;
+      size_t oldlen = bcode_gen->len;
+      embed_string(bcode_gen, p->cur_idx, p->tok.ptr, p->tok.len,
+                   EMBSTR_UNESCAPE);
+      p->cur_idx += bcode_gen->len - oldlen;
+    } else {
+      emit_str(p, p->tok.ptr, p->tok.len);
+    }
     emit_byte(p, OP_SWAP);
     pnext1(p);
     EXPECT(p, TOK_COLON);
-- 
2.43.0


From 7840b4ee3b3c091282e3a8de44a24421b1bf4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:34 +0000
Subject: [PATCH 20/69] fix: JSON parser lost values of keys which are empty or
 end with a dot, and reported long keys as values

---
 src/frozen/frozen.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 06f3389..d1df875 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -97,8 +97,7 @@ struct fstate {
 
 #define CALL_BACK(fr, tok, value, len)                                        \
   do {                                                                        \
-    if ((fr)->callback &&                                                     \
-        ((fr)->path_len == 0 || (fr)->path[(fr)->path_len - 1] != '.')) {     \
+    if ((fr)->callback) {                                                     \
       struct json_token t = {(value), (int) (len), (tok)};                    \
                                                                               \
       /* Call the callback with the given value and current name */           \
@@ -382,15 +381,19 @@ static int json_parse_value(struct frozen *f) {
 
 /* key = identifier | string */
 static int json_parse_key(struct frozen *f) {
-  int ch = json_cur(f);
+  int res, ch = json_cur(f);
+  /* A key is not a value: don't report it */
+  json_walk_callback_t callback = f->callback;
+  f->callback = NULL;
   if (json_isalpha(ch)) {
-    TRY(json_parse_identifier(f));
+    res = json_parse_identifier(f);
   } else if (ch == '"') {
-    TRY(json_parse_string(f));
+    res = json_parse_string(f);
   } else {
-    return ch == END_OF_STRING ? JSON_STRING_INCOMPLETE : JSON_STRING_INVALID;
+    res = ch == END_OF_STRING ? JSON_STRING_INCOMPLETE : JSON_STRING_INVALID;
   }
-  return 0;
+  f->callback = callback;
+  return res;
 }
 
 /* pair = key ':' value */
-- 
2.43.0


From 61a92b2a204da6e5fbcd7fadbc557e27cbae7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:34 +0000
Subject: [PATCH 21/69] fix: JSON parser reported garbage array indices when
 the path is too long

---
 src/frozen/frozen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index d1df875..65f348e 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -302,8 +302,8 @@ static int json_parse_array(struct frozen *f) {
         snprintf(buf, sizeof(buf), "[%d]", i);
         i++;
         current_path_len = json_append_to_path(f, buf, strlen(buf));
-        f->cur_name =
-            f->path + strlen(f->path) - strlen(buf) + 1 /*opening brace*/;
+        /* NOTE: path might have been truncated, so don't point inside of it */
+        f->cur_name = buf + 1 /*opening brace*/;
         f->cur_name_len = strlen(buf) - 2 /*braces*/;
         TRY(json_parse_value(f));
         json_truncate_path(f, current_path_len);
-- 
2.43.0


From 2e346d9a2344fef0d6eb73c53e41f9f1abe6b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:34 +0000
Subject: [PATCH 22/69] fix: JSON parser read one byte past the end of an input
 ending with a backslash

---
 src/frozen/frozen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 65f348e..26105ab 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -181,6 +181,7 @@ static int json_isxdigit(int ch) {
 }
 
 static int json_get_escape_len(const char *s, int len) {
+  if (len < 2) return JSON_STRING_INCOMPLETE;
   switch (*s) {
     case 'u':
       return len < 6 ? JSON_STRING_INCOMPLETE
-- 
2.43.0


From 9640771c4dbd97241b7c329ecc605cad8af9b329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:34 +0000
Subject: [PATCH 23/69] fix: json_escape() generated wrong \\u escapes and an
 invalid \\v escape

---
 src/frozen/frozen.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 26105ab..c7ded0c 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -442,22 +442,22 @@ int json_escape(struct json_out *out, const char *p, size_t len) WEAK;
 int json_escape(struct json_out *out, const char *p, size_t len) {
   size_t i, cl, n = 0;
   const char *hex_digits = "0123456789abcdef";
-  const char *specials = "btnvfr";
+  const char *specials = "btn?fr";
 
   for (i = 0; i < len; i++) {
     unsigned char ch = ((unsigned char *) p)[i];
     if (ch == '"' || ch == '\\') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, p + i, 1);
-    } else if (ch >= '\b' && ch <= '\r') {
+    } else if (ch >= '\b' && ch <= '\r' && ch != '\v') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, &specials[ch - '\b'], 1);
     } else if (isprint(ch)) {
       n += out->printer(out, p + i, 1);
     } else if ((cl = json_get_utf8_char_len(ch)) == 1) {
       n += out->printer(out, "\\u00", 4);
-      n += out->printer(out, &hex_digits[(ch >> 4) % 0xf], 1);
-      n += out->printer(out, &hex_digits[ch % 0xf], 1);
+      n += out->printer(out, &hex_digits[(ch >> 4) & 0xf], 1);
+      n += out->printer(out, &hex_digits[ch & 0xf], 1);
     } else {
       n += out->printer(out, p + i, cl);
       i += cl - 1;
-- 
2.43.0


From 8f7aa0790c7affa0441f0ef34f52ae8140eb8045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:34 +0000
Subject: [PATCH 24/69] fix: JSON.stringify generated a \\v escape, which is
 not valid JSON

---
 src/mjs_json.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index c0874f8..bd29e82 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -67,11 +67,10 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
    * 0x8 -> \b
    * 0x9 -> \t
    * 0xa -> \n
-   * 0xb -> \v
    * 0xc -> \f
    * 0xd -> \r
    */
-  const char *specials = "btnvfr";
+  const char *specials = "btn?fr"; /* there is no \v in JSON */
   size_t i = 0;
 
   i++;
@@ -81,12 +80,13 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
     if (*s == '"' || *s == '\\') {
       i++;
       if (buf < limit) *buf++ = '\\';
-    } else if (*s >= '\b' && *s <= '\r') {
+    } else if (*s >= '\b' && *s <= '\r' && *s != '\v') {
       i += 2;
       if (buf < limit) *buf++ = '\\';
       if (buf < limit) *buf++ = specials[*s - '\b'];
       continue;
-    } else if ((unsigned char) *s < '\b' || (*s > '\r' && *s < ' ')) {
+    } else if ((unsigned char) *s < '\b' || *s == '\v' ||
+               (*s > '\r' && *s < ' ')) {
       i += 6 /* \uXXXX */;
       if (buf < limit) *buf++ = '\\';
       buf = append_hex(buf, limit, (uint8_t) *s);
-- 
2.43.0


From bfc349cb953501bf7037262f2203e201be9eed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:34 +0000
Subject: [PATCH 25/69] fix: property names were neither escaped by
 JSON.stringify nor unescaped by JSON.parse

---
 src/mjs_json.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index bd29e82..2bb7724 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -187,7 +187,8 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
           b += c_snprintf(b, BUF_LEFT(size, b - buf), ",");
         }
         s = mjs_get_string(mjs, &prop->name, &n);
-        b += c_snprintf(b, BUF_LEFT(size, b - buf), "\"%.*s\":", (int) n, s);
+        b += snquote(b, BUF_LEFT(size, b - buf), s, n);
+        b += c_snprintf(b, BUF_LEFT(size, b - buf), ":");
         {
           size_t tmp = 0;
           rcode = to_json_or_debug(mjs, prop->value, b, BUF_LEFT(size, b - buf),
@@ -391,7 +392,14 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
     if (ctx->frame != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
-        mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
+        char *key = malloc(name_len + 1);
+        int key_len = json_unescape(name, name_len, key, name_len);
+        if (key_len < 0) {
+          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
+        } else {
+          mjs_set(ctx->mjs, ctx->frame->val, key, key_len, v);
+        }
+        free(key);
       } else if (mjs_is_array(ctx->frame->val)) {
         /*
          * TODO(dfrank): consult name_len. Currently it's not a problem due to
-- 
2.43.0


From 6e2a4e791fe81a04325874aebd164fdc8444f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:05 +0000
Subject: [PATCH 26/69] fix: an error in the last line of a script was reported
 as an error in line 1

---
 src/mjs_util.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/mjs_util.c b/src/mjs_util.c
index b14a18d..18a27c1 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -372,7 +372,7 @@ const char *mjs_get_bcode_filename_by_offset(struct mjs *mjs, int offset) {
 int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
   size_t llen;
   uint64_t map_len;
-  int prev_line_no, ret = 1;
+  int ret = 1;
   struct mjs_bcode_part *bp = mjs_bcode_part_get_by_offset(mjs, offset);
   uint8_t *p, *pe;
   if (bp != NULL) {
@@ -395,7 +395,6 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
     p += llen;
     pe = p + map_len;
 
-    prev_line_no = 1;
     while (p < pe) {
       uint64_t cur_offset, line_no;
       cs_varint_decode(p, ~0, &cur_offset, &llen);
@@ -403,11 +402,8 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
       cs_varint_decode(p, ~0, &line_no, &llen);
       p += llen;
 
-      if (cur_offset >= (uint64_t) offset) {
-        ret = prev_line_no;
-        break;
-      }
-      prev_line_no = line_no;
+      if (cur_offset >= (uint64_t) offset) break;
+      ret = line_no;
     }
   }
   return ret;
-- 
2.43.0


From 958bc562b4f4a4dc6ec312f1906178eb51654912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:05 +0000
Subject: [PATCH 27/69] fix: numbers of 2^63 and above were all converted to
 the same string

---
 src/mjs_util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mjs_util.c b/src/mjs_util.c
index 18a27c1..e2f3133 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -47,8 +47,10 @@ MJS_PRIVATE const char *mjs_stringify_type(enum mjs_type t) {
 void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
   if (mjs_is_number(v)) {
     double iv, d = mjs_get_double(mjs, v);
-    if (modf(d, &iv) == 0) {
+    if (modf(d, &iv) == 0 && fabs(d) < 9223372036854775808.0 /* 2^63 */) {
       json_printf(out, "%" INT64_FMT, (int64_t) d);
+    } else if (modf(d, &iv) == 0) {
+      json_printf(out, "%.17g", d);
     } else {
       json_printf(out, "%f", mjs_get_double(mjs, v));
     }
-- 
2.43.0


From 0f59c9113da2be9623927a5c694e46926fde3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:05 +0000
Subject: [PATCH 28/69] fix: `break` and `continue` affected loops of the
 calling function

---
 src/mjs_exec.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index e13132d..4c7c62a 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -80,6 +80,19 @@ static size_t call_stack_restore_frame(struct mjs *mjs) {
   return return_address;
 }
 
+/*
+ * Returns whether there is a loop to break or continue in the current function
+ * (loops of its callers don't count).
+ */
+static int is_in_loop(struct mjs *mjs) {
+  size_t base = 0;
+  if (mjs_stack_size(&mjs->call_stack) >= CALL_STACK_FRAME_ITEMS_CNT) {
+    base = mjs_get_int(mjs, *vptr(&mjs->call_stack,
+                                  -1 - CALL_STACK_FRAME_ITEM_LOOP_ADDR_IDX));
+  }
+  return mjs_stack_size(&mjs->loop_addresses) >= base + 3;
+}
+
 static mjs_val_t mjs_find_scope(struct mjs *mjs, mjs_val_t key) {
   size_t num_scopes = mjs_stack_size(&mjs->scopes);
   while (num_scopes > 0) {
@@ -922,7 +935,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_CONTINUE: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_in_loop(mjs)) {
           size_t scopes_len = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -3));
           assert(mjs_stack_size(&mjs->scopes) >= scopes_len);
           mjs->scopes.len = scopes_len * sizeof(mjs_val_t);
@@ -934,7 +947,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         }
       } break;
       case OP_BREAK: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_in_loop(mjs)) {
           size_t scopes_len;
           /* drop "continue" address */
           mjs_pop_val(&mjs->loop_addresses);
-- 
2.43.0


From 294b6a6965c3f39647be39c0e3c17a00de89b51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:05 +0000
Subject: [PATCH 29/69] fix: `return` outside of a function in a nested script
 returned from its caller

---
 src/mjs_exec.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 4c7c62a..e559f30 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -572,6 +572,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   int scopes_len = mjs->scopes.len;
   int loop_addresses_len = mjs->loop_addresses.len;
   size_t start_off = off;
+  int is_toplevel; /* executing a script, as opposed to a function */
   const uint8_t *code;
 
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
@@ -581,6 +582,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   mjs->stack_trace = NULL;
 
   off -= bp.start_idx;
+  is_toplevel = bp.data.p[off] == OP_BCODE_HEADER;
 
   for (i = off; i < bp.data.len; i++) {
     mjs->cur_bcode_offset = i;
@@ -882,7 +884,8 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_SETRETVAL: {
-        if (mjs_stack_size(&mjs->call_stack) < CALL_STACK_FRAME_ITEMS_CNT) {
+        if (mjs_stack_size(&mjs->call_stack) < CALL_STACK_FRAME_ITEMS_CNT ||
+            (is_toplevel && (int) mjs->call_stack.len <= call_stack_len)) {
           mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "cannot return");
         } else {
           size_t retval_pos = mjs_get_int(
-- 
2.43.0


From 107fa1f57ba7625e562ef8c079558b04e46a4dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:23 +0000
Subject: [PATCH 30/69] fix: the parser read past the end of a script ending
 with a one digit number

---
 src/mjs_parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 4ef4b06..c0b008f 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -312,8 +312,9 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
     }
     case TOK_NUM: {
       double iv, d = strtod(t->ptr, NULL);
-      unsigned long uv = strtoul(t->ptr + 2, NULL, 16);
-      if (t->ptr[0] == '0' && t->ptr[1] == 'x') d = uv;
+      if (t->ptr[0] == '0' && t->ptr[1] == 'x') {
+        d = strtoul(t->ptr + 2, NULL, 16);
+      }
       if (modf(d, &iv) == 0 && d < 9223372036854775808.0 /* 2^63 */) {
         emit_byte(p, OP_PUSH_INT);
         emit_int(p, (int64_t) d);
-- 
2.43.0


From 22644363658a032143919f8f831cb810924fa82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:49 +0000
Subject: [PATCH 31/69] fix: a statement following a postfix increment without
 a semicolon was misparsed

---
 src/mjs_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index c0b008f..f47e9a0 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -397,6 +397,7 @@ static mjs_err_t parse_postfix(struct pstate *p, int prev_op) {
     int op = p->tok.tok == TOK_PLUS_PLUS ? TOK_POSTFIX_PLUS : TOK_POSTFIX_MINUS;
     emit_op(p, op);
     pnext1(p);
+    p->prev_tok = op; /* What follows is not an operand of a prefix operator */
   }
   return res;
 }
-- 
2.43.0


From 397c5cf3a6913c805b7b164b0c18f0b5481ca61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:49 +0000
Subject: [PATCH 32/69] fix: variable declarations without a comma between them
 left values on the stack

---
 src/mjs_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index f47e9a0..02b2a53 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -544,6 +544,8 @@ static mjs_err_t parse_let(struct pstate *p) {
     if (p->tok.tok == TOK_COMMA) {
       emit_byte(p, OP_DROP);
       pnext1(p);
+    } else if (p->tok.tok != TOK_SEMICOLON && p->tok.tok != TOK_EOF) {
+      SYNTAX_ERROR(p);
     }
     if (p->tok.tok == TOK_SEMICOLON || p->tok.tok == TOK_EOF) break;
   }
-- 
2.43.0


From cb577ad853c189b5ff826cc9053343bb88244d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:31 +0000
Subject: [PATCH 33/69] fix: an arbitrary literal after a dot was accepted and
 left a value on the stack

---
 src/mjs_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 02b2a53..146a43e 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -383,6 +383,7 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
+      if (p->tok.tok != TOK_IDENT) SYNTAX_ERROR(p);
       if ((res = parse_call_dot_mem(p, TOK_DOT)) != MJS_OK) return res;
     }
   }
-- 
2.43.0


From 2a70239f8ebdb1108e51e27489a2b4b6447b3dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:48 +0000
Subject: [PATCH 34/69] fix: a syntax error in the object expression of a
 for-in loop was ignored

---
 src/mjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 146a43e..8e93ccb 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -582,7 +582,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   /* Put object to the stack */
   EXPECT(p, TOK_IDENT);
   EXPECT(p, TOK_KEYWORD_IN);
-  parse_expr(p);
+  if ((res = parse_expr(p)) != MJS_OK) return res;
   EXPECT(p, TOK_CLOSE_PAREN);
 
   emit_byte(p, OP_PUSH_UNDEF); /* Push iterator */
-- 
2.43.0


From 506bb5963d55b8aeda8b5fff370ec4753c21ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:22 +0000
Subject: [PATCH 35/69] fix: restore this of the caller when execution fails
 inside a function

---
 src/mjs_exec.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index e559f30..82c76b9 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -983,6 +983,15 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
     }
     if (mjs->error != MJS_OK) {
+      /*
+       * restore `this`, since the functions which were being executed did not
+       * get a chance to do that: it's the first item of the outermost frame
+       */
+      if ((int) mjs->call_stack.len > call_stack_len) {
+        mjs->vals.this_obj =
+            *vptr(&mjs->call_stack, call_stack_len / (int) sizeof(mjs_val_t));
+      }
+
       mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
 
       /* restore stack lenghts */
-- 
2.43.0


From 863f6f56b0c0935beda24dcc44c17853392e259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:22 +0000
Subject: [PATCH 36/69] fix: do not report a stale error when calling a host
 function from C

---
 src/mjs_exec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 82c76b9..ccdbbe5 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1174,6 +1174,8 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
   if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    /* Forget the error of an earlier run, just like mjs_execute() does that */
+    mjs_set_errorf(mjs, MJS_OK, NULL);
     if (mjs_is_foreign(func)) {
       ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
     } else {
-- 
2.43.0


From 39a64492b44cf4df2129a5480ce04bb49b316e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:38 +0000
Subject: [PATCH 37/69] fix: do not overwrite this with a value the GC may have
 moved in mjs_apply

---
 src/mjs_exec.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index ccdbbe5..9695cdd 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1144,7 +1144,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx;
+  mjs_val_t r, retval_stack_idx;
   int i;
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -1154,8 +1154,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
-  prev_this_val = mjs->vals.this_obj;
-
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
 
@@ -1201,7 +1199,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
       mjs_pop(mjs);
     }
   }
-  mjs->vals.this_obj = prev_this_val;
 
   return mjs->error;
 }
-- 
2.43.0


From 76d1a359d88515a6c088725415ee434086100cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:38 +0000
Subject: [PATCH 38/69] fix: report a file that cannot be read, not an earlier
 error, from mjs_exec_file

---
 src/mjs_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 9695cdd..b49b5a4 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1111,7 +1111,7 @@ mjs_err_t mjs_exec_file(struct mjs *mjs, const char *path, mjs_val_t *res) {
 
   if (source_code == NULL) {
     error = MJS_FILE_READ_ERROR;
-    mjs_prepend_errorf(mjs, error, "failed to read file \"%s\"", path);
+    mjs_set_errorf(mjs, error, "failed to read file \"%s\"", path);
     goto clean;
   }
 
-- 
2.43.0


From f5acea93a49e035dea14af32f9be9883ca62263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 39/69] fix: do not call an FFI function when an int or bool
 argument has a wrong type

---
 src/mjs_ffi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 129bd1f..34e3b9b 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -767,6 +767,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not an int (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
@@ -798,6 +799,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not a bool (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
-- 
2.43.0


From 048ab4235d2d8171c19739c4e6917274f28768a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 40/69] fix: reject FFI signatures which are function pointers,
 and callbacks which are not

---
 src/mjs_ffi.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 34e3b9b..2d4cada 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -170,6 +170,15 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
     sig->is_callback = 1;
   }
 
+  /* Function needs a name, and a callback has to be a function pointer */
+  if (sig->is_callback != (sig_type == FFI_SIG_CALLBACK)) {
+    ret = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, ret, sig->is_callback
+                                     ? "unexpected function pointer"
+                                     : "function pointer is expected");
+    goto clean;
+  }
+
   val_type = parse_cval_type(mjs, rt.p, rt.p + rt.len);
   if (val_type == MJS_FFI_CTYPE_INVALID) {
     ret = mjs->error;
-- 
2.43.0


From 08ef0d760485bb636eb5ebf9a3b7bee5b6c45faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 41/69] fix: keep the sign of int arguments of FFI callbacks

---
 src/mjs_ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 2d4cada..f859fda 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -358,7 +358,7 @@ static union ffi_cb_data_val ffi_cb_impl_generic(void *param,
         args[i] = cbargs->userdata;
         break;
       case MJS_FFI_CTYPE_INT:
-        args[i] = mjs_mk_number(mjs, (double) data->args[i].w);
+        args[i] = mjs_mk_number(mjs, (double) (int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_BOOL:
         args[i] = mjs_mk_boolean(mjs, !!data->args[i].w);
-- 
2.43.0


From 0918d53c84d1af38df025ade1cf7baeb7db0e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 42/69] fix: report an error for combinations of FFI argument
 types which cannot be called

---
 src/mjs_ffi.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index f859fda..f93a7d2 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -929,7 +929,11 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
     abort();
   }
 
-  ffi_call(psig->fn, nargs, &res, args);
+  if (ffi_call(psig->fn, nargs, &res, args) != 0) {
+    ret = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, ret, "unsupported combination of arg types");
+    goto clean;
+  }
 
   switch (rtype) {
     case MJS_FFI_CTYPE_CHAR_PTR: {
-- 
2.43.0


From d69fb581f88096ebe35c00a406189e6fddd05353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 43/69] fix: do not accept FFI callbacks whose double argument
 would be misplaced

---
 src/mjs_ffi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index f93a7d2..bef37dc 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -593,7 +593,8 @@ static ffi_fn_t *get_cb_impl_by_signature(const mjs_ffi_sig_t *sig) {
             }
             break;
           case 1:
-            /* 1 double argument */
+            /* 1 double argument, and nothing else but userdata */
+            if (sig->args_cnt != 2) break;
             switch (userdata_idx) {
               case 1:
                 return (ffi_fn_t *) ffi_cb_impl_wpd;
-- 
2.43.0


From 2101c2a21e2a2103b9d8e8f073777709f436f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 44/69] fix: reject FFI function names which are too long
 instead of truncating them

---
 src/mjs_ffi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index bef37dc..4a9b42e 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -189,6 +189,11 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
   /* Parse function name {{{ */
   if (!sig->is_callback) {
     char buf[100];
+    if (fn.len >= sizeof(buf)) {
+      ret = MJS_TYPE_ERROR;
+      mjs_prepend_errorf(mjs, ret, "too long function name");
+      goto clean;
+    }
     if (mjs->dlsym == NULL) {
       ret = MJS_TYPE_ERROR;
       mjs_prepend_errorf(mjs, ret,
-- 
2.43.0


From 12f0de3fb7d309fb6d1cd8081ef16bc33e2010ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 45/69] fix: reject FFI signatures with arguments after void

---
 src/mjs_ffi.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 4a9b42e..a5dfd95 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -1125,6 +1125,12 @@ MJS_PRIVATE int mjs_ffi_sig_validate(struct mjs *mjs, mjs_ffi_sig_t *sig,
         break;
       case MJS_FFI_CTYPE_NONE:
         /* No more arguments */
+        while (++i < MJS_CB_SIGNATURE_MAX_SIZE) {
+          if (sig->val_types[i] != MJS_FFI_CTYPE_NONE) {
+            mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "unexpected void arg");
+            goto clean;
+          }
+        }
         goto args_over;
       default:
         mjs_prepend_errorf(mjs, MJS_INTERNAL_ERROR, "invalid ffi_ctype: %d",
-- 
2.43.0


From a383ab81123ef9aaf6ba7aaa5f85391c24e40090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 46/69] fix: do not share FFI callback data between different
 callback signatures

---
 src/mjs_ffi.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index a5dfd95..cd2bc8d 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -531,9 +531,12 @@ static uintptr_t ffi_cb_impl_wdp(double d0, uintptr_t w1) {
 
 static struct mjs_ffi_cb_args **ffi_get_matching(struct mjs_ffi_cb_args **plist,
                                                  mjs_val_t func,
-                                                 mjs_val_t userdata) {
+                                                 mjs_val_t userdata,
+                                                 const mjs_ffi_sig_t *sig) {
   for (; *plist != NULL; plist = &((*plist)->next)) {
-    if ((*plist)->func == func && (*plist)->userdata == userdata) {
+    if ((*plist)->func == func && (*plist)->userdata == userdata &&
+        (sig == NULL || memcmp((*plist)->sig.val_types, sig->val_types,
+                               sizeof(sig->val_types)) == 0)) {
       break;
     }
   }
@@ -900,7 +903,8 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
      * Get cbargs: either reuse the existing one (if the matching item exists),
      * or create a new one.
      */
-    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata);
+    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata,
+                             psig->cb_sig);
     if (*pitem == NULL) {
       /* No matching cbargs item; we need to add a new one */
       cbargs = calloc(1, sizeof(*cbargs));
@@ -995,9 +999,9 @@ MJS_PRIVATE void mjs_ffi_cb_free(struct mjs *mjs) {
   mjs_val_t userdata = mjs_arg(mjs, 1);
 
   if (mjs_is_function(func)) {
-    struct mjs_ffi_cb_args **pitem =
-        ffi_get_matching(&mjs->ffi_cb_args, func, userdata);
-    if (*pitem != NULL) {
+    struct mjs_ffi_cb_args **pitem = &mjs->ffi_cb_args;
+    /* The same pair might be registered with different callback signatures */
+    while (*(pitem = ffi_get_matching(pitem, func, userdata, NULL)) != NULL) {
       /* Found matching item: remove it from the linked list, and free */
       struct mjs_ffi_cb_args *cbargs = *pitem;
       *pitem = cbargs->next;
-- 
2.43.0


From e4dd07a5c68fb08a640828bf833c8479d35bce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:31 +0000
Subject: [PATCH 47/69] fix: DataView: reject negative indices

---
 lib/api_dataview.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/api_dataview.js b/lib/api_dataview.js
index 428216a..1f30581 100644
--- a/lib/api_dataview.js
+++ b/lib/api_dataview.js
@@ -206,7 +206,7 @@ let DataView = {
   },
 
   _cl: function(idx, len, ilen) {
-    if (len !== undefined && idx + ilen > len) {
+    if (len !== undefined && (idx < 0 || idx + ilen > len)) {
       die(DataView._errm);
       return false;
     }
-- 
2.43.0


From a56f010f1d7d8cb6390d7dfd2e8f248798fdde7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:36 +0000
Subject: [PATCH 48/69] fix: FFI must refuse a mix of doubles and floats in the
 return value too

A function returning float and taking doubles (or vice versa) was called
with its floating point arguments silently passed as integers.
---
 src/ffi/ffi.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ffi/ffi.c b/src/ffi/ffi.c
index 42cd771..ea3d883 100644
--- a/src/ffi/ffi.c
+++ b/src/ffi/ffi.c
@@ -175,8 +175,12 @@ int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
     floats += (IS_F(args[i]));
   }
 
-  /* Doubles and floats are not supported together atm */
-  if (doubles > 0 && floats > 0) {
+  /*
+   * Doubles and floats are not supported together atm, no matter whether they
+   * are both among the arguments, or one of them is the return value
+   */
+  if ((doubles > 0 || res->ctype == FFI_CTYPE_DOUBLE) &&
+      (floats > 0 || res->ctype == FFI_CTYPE_FLOAT)) {
     return -1;
   }
 
-- 
2.43.0


From eff738c038a93e6ecc36e5bcb60b26e2374dc92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:12 +0000
Subject: [PATCH 49/69] fix: FFI signature: do not ignore arguments after an
 empty one or a NUL

The rest of the argument list was silently dropped, so that e.g.
"float f(float,,float)" was imported as "float f(float)".
---
 src/mjs_ffi.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index cd2bc8d..f1560e0 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -226,7 +226,8 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
     tmp_e = cur;
 
     /* Advance tmp_e until the next arg separator */
-    while (*tmp_e && (level > 0 || (*tmp_e != ',' && *tmp_e != ')'))) {
+    while (tmp_e - args.p < (ptrdiff_t) args.len &&
+           (level > 0 || *tmp_e != ',')) {
       switch (*tmp_e) {
         case '(':
           level++;
@@ -243,8 +244,6 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
       tmp_e++;
     }
 
-    if (tmp_e == cur) break;
-
     /* Parse current arg */
     if (is_fp) {
       /* Current argument is a callback function pointer */
-- 
2.43.0


From 409fa5d7a94b2d05be31b5438e049a1c3457b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:24 +0000
Subject: [PATCH 50/69] hook: MJS_GC_POINT names a function called before every
 instruction

---
 src/mjs_exec.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index b49b5a4..fbe1aec 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -595,6 +595,13 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 #if MJS_AGGRESSIVE_GC
     maybe_gc(mjs);
 #endif
+#if defined(MJS_GC_POINT)
+    {
+      /* Verification hook: a collection may be done before any instruction */
+      extern void MJS_GC_POINT(struct mjs *);
+      MJS_GC_POINT(mjs);
+    }
+#endif
 
     code = (const uint8_t *) bp.data.p;
 #if MJS_ENABLE_DEBUG
-- 
2.43.0


From 486557b44ca428e462e4bdd25d1b445fb6dd3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 51/69] fix: json_escape() read past the end of a string ending
 with an incomplete UTF-8 sequence

---
 src/frozen/frozen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index c7ded0c..316c46e 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -459,6 +459,7 @@ int json_escape(struct json_out *out, const char *p, size_t len) {
       n += out->printer(out, &hex_digits[(ch >> 4) & 0xf], 1);
       n += out->printer(out, &hex_digits[ch & 0xf], 1);
     } else {
+      if (cl > len - i) cl = len - i; /* incomplete UTF-8 sequence at the end */
       n += out->printer(out, p + i, cl);
       i += cl - 1;
     }
-- 
2.43.0


From 913048aaf5b3d65d53004cee60eb930b20bae1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:42 +0000
Subject: [PATCH 52/69] fix: json_printf() took the text after a directive for
 a part of it, and lost count of its arguments

---
 src/frozen/frozen.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 316c46e..72d03e5 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -644,14 +644,15 @@ int json_vprintf(struct json_out *out, const char *fmt, va_list xap) {
          * TODO(dfrank): reimplement %s and %.*s in order to avoid that.
          */
 
-        const char *end_of_format_specifier = "sdfFeEgGlhuIcx.*-0123456789";
-        int n = strspn(fmt + 1, end_of_format_specifier);
+        const char *format_specifier_modifiers = "lhI.*-0123456789";
+        int n = strspn(fmt + 1, format_specifier_modifiers);
         char *pbuf = buf;
         int need_len, size = sizeof(buf);
-        char fmt2[20];
+        char fmt2[20], *star;
         va_list ap_copy;
-        strncpy(fmt2, fmt,
-                n + 1 > (int) sizeof(fmt2) ? sizeof(fmt2) : (size_t) n + 1);
+        if (fmt[n + 1] != '\0') n++; /* the conversion itself */
+        if (n > (int) sizeof(fmt2) - 2) n = sizeof(fmt2) - 2;
+        memcpy(fmt2, fmt, n + 1);
         fmt2[n + 1] = '\0';
 
         va_copy(ap_copy, ap);
@@ -697,17 +698,27 @@ int json_vprintf(struct json_out *out, const char *fmt, va_list xap) {
         if ((n + 1 == strlen("%" PRId64) && strcmp(fmt2, "%" PRId64) == 0) ||
             (n + 1 == strlen("%" PRIu64) && strcmp(fmt2, "%" PRIu64) == 0)) {
           (void) va_arg(ap, int64_t);
-        } else if (strcmp(fmt2, "%.*s") == 0) {
-          (void) va_arg(ap, int);
-          (void) va_arg(ap, char *);
         } else {
+          /* Each asterisk is an `int` argument */
+          for (star = fmt2; (star = strchr(star, '*')) != NULL; star++) {
+            (void) va_arg(ap, int);
+          }
           switch (fmt2[n]) {
             case 'u':
             case 'd':
               (void) va_arg(ap, int);
               break;
+            case 's':
+              (void) va_arg(ap, char *);
+              break;
+            case '%':
+              break;
             case 'g':
+            case 'G':
+            case 'e':
+            case 'E':
             case 'f':
+            case 'F':
               (void) va_arg(ap, double);
               break;
             case 'p':
-- 
2.43.0


From 1ecac283bbd51fd035aeed114e574ce8469fee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:42 +0000
Subject: [PATCH 53/69] fix: json_next_key() and json_next_elem() reported
 members of other objects

---
 src/frozen/frozen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 72d03e5..c5ae21a 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1413,6 +1413,7 @@ static void json_next_cb(void *userdata, const char *name, size_t name_len,
   if (d->found) return;
   if (d->path_len >= (int) strlen(path)) return;
   if (strncmp(d->path, path, d->path_len) != 0) return;
+  if (p[0] != '.' && p[0] != '[') return; /* Longer key with the same prefix */
   if (strchr(p + 1, '.') != NULL) return; /* More nested objects - skip */
   if (strchr(p + 1, '[') != NULL) return; /* Ditto for arrays */
   // {OBJECT,ARRAY}_END types do not pass name, _START does. Save key.
-- 
2.43.0


From a9932eee110879bc2dcea0b9f210c5352728f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 54/69] fix: json_escape() did not escape characters following
 a stray UTF-8 lead byte

---
 src/frozen/frozen.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index c5ae21a..24221b1 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -440,7 +440,7 @@ static int json_doit(struct frozen *f) {
 
 int json_escape(struct json_out *out, const char *p, size_t len) WEAK;
 int json_escape(struct json_out *out, const char *p, size_t len) {
-  size_t i, cl, n = 0;
+  size_t i, n = 0;
   const char *hex_digits = "0123456789abcdef";
   const char *specials = "btn?fr";
 
@@ -454,14 +454,16 @@ int json_escape(struct json_out *out, const char *p, size_t len) {
       n += out->printer(out, &specials[ch - '\b'], 1);
     } else if (isprint(ch)) {
       n += out->printer(out, p + i, 1);
-    } else if ((cl = json_get_utf8_char_len(ch)) == 1) {
+    } else if (json_get_utf8_char_len(ch) == 1) {
       n += out->printer(out, "\\u00", 4);
       n += out->printer(out, &hex_digits[(ch >> 4) & 0xf], 1);
       n += out->printer(out, &hex_digits[ch & 0xf], 1);
     } else {
-      if (cl > len - i) cl = len - i; /* incomplete UTF-8 sequence at the end */
-      n += out->printer(out, p + i, cl);
-      i += cl - 1;
+      /*
+       * A byte of a multi-byte UTF-8 sequence. Don't skip the next ones: in a
+       * malformed sequence, they might need escaping.
+       */
+      n += out->printer(out, p + i, 1);
     }
   }
 
-- 
2.43.0


From 1fbb808f76b90779d9c0e872720d41a3dac3f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 55/69] fix: json_unescape() accepted a backslash followed by a
 NUL byte

---
 src/frozen/frozen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 24221b1..269ad20 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -896,7 +896,7 @@ int json_unescape(const char *src, int slen, char *dst, int dlen) {
           /* Complex \uXXXX escapes drag utf8 lib... Do it at some stage */
           return JSON_STRING_INVALID;
         }
-      } else if ((p = (char *) strchr(esc1, *src)) != NULL) {
+      } else if (*src != '\0' && (p = (char *) strchr(esc1, *src)) != NULL) {
         if (dst < dend) *dst = esc2[p - esc1];
       } else {
         return JSON_STRING_INVALID;
-- 
2.43.0


From 31d4039cfd804b160aa64a818036af596c05f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 56/69] fix: json_prettify() dropped keys which end with a
 bracket

---
 src/frozen/frozen.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 269ad20..ce0fed3 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1304,7 +1304,11 @@ static void print_key(struct prettify_data *pd, const char *path,
   }
   if (path[0] != '\0') pd->out->printer(pd->out, "\n", 1);
   indent(pd->out, pd->level);
-  if (path[0] != '\0' && path[strlen(path) - 1] != ']') {
+  /*
+   * An index of an array element is preceded by a bracket, which can't precede
+   * a key. Don't look at the path: a key might end with a bracket.
+   */
+  if (path[0] != '\0' && name != NULL && name[-1] != '[') {
     pd->out->printer(pd->out, "\"", 1);
     pd->out->printer(pd->out, name, (int) name_len);
     pd->out->printer(pd->out, "\"", 1);
-- 
2.43.0


From de708cacf3bfc0f537e633ca13c4797fd74b7e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 57/69] fix: c_snprintf() printed large and INT64_MIN numbers
 wrong, and ignored the width or miscounted the sign

---
 src/common/str_util.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/common/str_util.c b/src/common/str_util.c
index 2f325fb..ea54eed 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -49,15 +49,10 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   return vsnprintf(buf, buf_size, fmt, ap);
 }
 #else
-static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
-                  int field_width) {
+static int c_utoa(char *buf, size_t buf_size, uint64_t num, int neg, int base,
+                  int flags, int field_width) {
   char tmp[40];
-  int i = 0, k = 0, neg = 0;
-
-  if (num < 0) {
-    neg++;
-    num = -num;
-  }
+  int i = 0, k = 0;
 
   /* Print into temporary buffer - in reverse order */
   do {
@@ -70,9 +65,9 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
     num /= base;
   } while (num > 0);
 
-  /* Zero padding */
-  if (flags && C_SNPRINTF_FLAG_ZERO) {
-    while (k < field_width && k < (int) sizeof(tmp) - 1) {
+  /* Zero padding, leave space for the sign */
+  if (flags & C_SNPRINTF_FLAG_ZERO) {
+    while (k < field_width - neg && k < (int) sizeof(tmp) - 1) {
       tmp[k++] = '0';
     }
   }
@@ -82,6 +77,11 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
     tmp[k++] = '-';
   }
 
+  /* Padding with spaces */
+  while (k < field_width && k < (int) sizeof(tmp)) {
+    tmp[k++] = ' ';
+  }
+
   /* Now output */
   while (--k >= 0) {
     C_SNPRINTF_APPEND_CHAR(tmp[k]);
@@ -90,6 +90,12 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
   return i;
 }
 
+static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
+                  int field_width) {
+  return c_utoa(buf, buf_size, num < 0 ? 0 - (uint64_t) num : (uint64_t) num,
+                num < 0, base, flags, field_width);
+}
+
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) WEAK;
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   int ch, i = 0, len_mod, flags, precision, field_width;
@@ -194,19 +200,19 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
         i += c_itoa(buf + i, buf_size - i, va_arg(ap, int64_t), 10, flags,
                     field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 0) {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'l') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned long),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned long), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'z') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, size_t),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, size_t), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if (ch == 'p') {
         unsigned long num = (unsigned long) (uintptr_t) va_arg(ap, void *);
         C_SNPRINTF_APPEND_CHAR('0');
         C_SNPRINTF_APPEND_CHAR('x');
-        i += c_itoa(buf + i, buf_size - i, num, 16, flags, 0);
+        i += c_utoa(buf + i, buf_size - i, num, 0, 16, flags, 0);
       } else {
 #ifndef NO_LIBC
         /*
-- 
2.43.0


From d96f0d11104d2eaa10a1b3f22c130596f6d4be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 58/69] fix: c_snprintf() padded strings without a precision
 too much

---
 src/common/str_util.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/str_util.c b/src/common/str_util.c
index ea54eed..25c6749 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -170,7 +170,11 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
       if (ch == 's') {
         const char *s = va_arg(ap, const char *); /* Always fetch parameter */
         int j;
-        int pad = field_width - (precision >= 0 ? c_strnlen(s, precision) : 0);
+        /* Zero precision means no precision, see below */
+        int pad = field_width -
+                  (int) (s == NULL ? 0 : c_strnlen(s, precision > 0
+                                                          ? (size_t) precision
+                                                          : (size_t) ~0));
         for (j = 0; j < pad; j++) {
           C_SNPRINTF_APPEND_CHAR(' ');
         }
-- 
2.43.0


From 32c06426fa1ec931007e64d48061b02468b6cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:52 +0000
Subject: [PATCH 59/69] fix: newlines in string literals were not counted in
 line numbers

---
 src/mjs_tok.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_tok.c b/src/mjs_tok.c
index da85f44..e830d29 100644
--- a/src/mjs_tok.c
+++ b/src/mjs_tok.c
@@ -114,6 +114,7 @@ static int getstr(struct pstate *p) {
         (p->pos[1] == quote || strchr("bfnrtv\\", p->pos[1]) != NULL)) {
       p->pos += 2;
     } else {
+      if (p->pos[0] == '\n') p->line_no++;
       p->pos++;
     }
   }
-- 
2.43.0


From a65aed7f192be65ea6bd616185ef7befc4fd4c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:52 +0000
Subject: [PATCH 60/69] fix: line numbers were wrong inside nested blocks of
 more than 127 bytes of bytecode

---
 src/mjs_bcode.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/mjs_bcode.c b/src/mjs_bcode.c
index 835f6c6..febd28c 100644
--- a/src/mjs_bcode.c
+++ b/src/mjs_bcode.c
@@ -60,6 +60,30 @@ MJS_PRIVATE void emit_str(struct pstate *pstate, const char *ptr, size_t len) {
   pstate->cur_idx += llen + len;
 }
 
+/*
+ * Adjust the items of the line number map which refer to the code following
+ * the given offset: that code has been moved forward by `diff` bytes
+ */
+static void shift_lineno_map(struct pstate *p, size_t offset, int diff) {
+  struct mbuf *m = &p->offset_lineno_map;
+  size_t i = 0, llen, new_llen;
+  uint64_t v;
+  while (i < m->len && cs_varint_decode((uint8_t *) m->buf + i, m->len - i, &v,
+                                        &llen)) {
+    if (v > offset) {
+      v += diff;
+      new_llen = cs_varint_llen(v);
+      if (new_llen > llen) mbuf_insert(m, i, NULL, new_llen - llen);
+      cs_varint_encode(v, (uint8_t *) m->buf + i, new_llen);
+      llen = new_llen;
+    }
+    i += llen;
+    /* skip line_no */
+    if (!cs_varint_decode((uint8_t *) m->buf + i, m->len - i, &v, &llen)) break;
+    i += llen;
+  }
+}
+
 MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
                                         size_t offset, size_t v) {
   int llen = (int) cs_varint_llen(v);
@@ -67,6 +91,7 @@ MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
   assert(offset < mjs->bcode_gen.len);
   if (diff > 0) {
     mbuf_resize(&mjs->bcode_gen, mjs->bcode_gen.size + diff);
+    shift_lineno_map(p, offset - p->start_bcode_idx, diff);
   }
   /*
    * Offset is going to take more than one was reserved, so, move the data
-- 
2.43.0


From d3e9a59668ebb13b0833799c17981eccbcf473da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:52 +0000
Subject: [PATCH 61/69] fix: mjs_get_offset_by_call_frame_num(0) was wrong
 except in the first script

---
 src/mjs_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index fbe1aec..ae6012f 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -585,7 +585,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   is_toplevel = bp.data.p[off] == OP_BCODE_HEADER;
 
   for (i = off; i < bp.data.len; i++) {
-    mjs->cur_bcode_offset = i;
+    mjs->cur_bcode_offset = bp.start_idx + i;
 
     if (mjs->need_gc) {
       if (maybe_gc(mjs)) {
-- 
2.43.0


From 6a4f738c42756ec06ca26139dea6d0f37dd0336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:52 +0000
Subject: [PATCH 62/69] fix: syntax errors inside blocks and literals were
 reported for a later token

---
 src/mjs_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 8e93ccb..2a5b51a 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -174,6 +174,7 @@ static mjs_err_t parse_block(struct pstate *p, int mkscope) {
   if (mkscope) emit_byte(p, OP_NEW_SCOPE);
   res = parse_statement_list(p, TOK_CLOSE_CURLY);
   p->depth--;
+  if (res != MJS_OK) return res;
   EXPECT(p, TOK_CLOSE_CURLY);
   if (mkscope) emit_byte(p, OP_DEL_SCOPE);
   return res;
@@ -339,7 +340,7 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       break;
     case TOK_OPEN_PAREN:
       pnext1(p);
-      res = parse_expr(p);
+      if ((res = parse_expr(p)) != MJS_OK) return res;
       if (p->tok.tok != TOK_CLOSE_PAREN) SYNTAX_ERROR(p);
       break;
     case TOK_KEYWORD_FUNCTION:
@@ -351,6 +352,7 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
     default:
       SYNTAX_ERROR(p);
   }
+  if (res != MJS_OK) return res;
   if (tok != TOK_KEYWORD_FUNCTION) pnext1(p);
   return res;
 }
-- 
2.43.0


From 0f5c08fc9cbe2c8d543bcdc12a69d6b634fd78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 63/69] fix: stack traces repeated frames when load() or a
 callback failed

---
 src/mjs_core.c | 5 +++--
 src/mjs_core.h | 3 ++-
 src/mjs_exec.c | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index ab2b287..dfb4b7b 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -262,10 +262,11 @@ static void mjs_append_stack_trace_line(struct mjs *mjs, size_t offset) {
   }
 }
 
-MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset) {
+MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset,
+                                     size_t call_stack_len) {
   mjs_append_stack_trace_line(mjs, offset);
   while (mjs->call_stack.len >=
-         sizeof(mjs_val_t) * CALL_STACK_FRAME_ITEMS_CNT) {
+         call_stack_len + sizeof(mjs_val_t) * CALL_STACK_FRAME_ITEMS_CNT) {
     int i;
 
     /* set current offset to it to the offset stored in the frame */
diff --git a/src/mjs_core.h b/src/mjs_core.h
index 855790e..f95cb0e 100644
--- a/src/mjs_core.h
+++ b/src/mjs_core.h
@@ -163,7 +163,8 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v);
  * Prints stack trace starting from the given bcode offset; other offsets
  * (if any) will be fetched from the call_stack.
  */
-MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset);
+MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset,
+                                     size_t call_stack_len);
 
 MJS_PRIVATE mjs_val_t vtop(struct mbuf *m);
 MJS_PRIVATE size_t mjs_stack_size(const struct mbuf *m);
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index ae6012f..8fb3f26 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -999,7 +999,9 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
             *vptr(&mjs->call_stack, call_stack_len / (int) sizeof(mjs_val_t));
       }
 
-      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      /* Outer calls of mjs_execute() add the frames they have pushed */
+      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */,
+                          call_stack_len);
 
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
-- 
2.43.0


From 62138c3d4dec6c28f25175b196725a4fa754d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:55 +0000
Subject: [PATCH 64/69] fix: do not leak file descriptors when mapping or
 failing to read a file

---
 src/common/cs_file.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/common/cs_file.c b/src/common/cs_file.c
index 24d0ce9..6f1abbe 100644
--- a/src/common/cs_file.c
+++ b/src/common/cs_file.c
@@ -24,6 +24,7 @@
 #include <fcntl.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
+#include <unistd.h>
 #endif
 
 #ifndef EXCLUDE_COMMON
@@ -41,9 +42,10 @@ char *cs_read_file(const char *path, size_t *size) {
       fseek(fp, 0, SEEK_SET); /* Some platforms might not have rewind(), Oo */
       if (fread(data, 1, *size, fp) != *size) {
         free(data);
-        return NULL;
+        data = NULL;
+      } else {
+        data[*size] = '\0';
       }
-      data[*size] = '\0';
     }
     fclose(fp);
   }
@@ -54,14 +56,17 @@ char *cs_read_file(const char *path, size_t *size) {
 #ifdef CS_MMAP
 char *cs_mmap_file(const char *path, size_t *size) WEAK;
 char *cs_mmap_file(const char *path, size_t *size) {
-  char *r;
+  char *r = NULL;
   int fd = open(path, O_RDONLY, 0);
   struct stat st;
   if (fd < 0) return NULL;
-  fstat(fd, &st);
-  *size = (size_t) st.st_size;
-  r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
-  if (r == MAP_FAILED) return NULL;
+  if (fstat(fd, &st) == 0) {
+    *size = (size_t) st.st_size;
+    r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
+    if (r == MAP_FAILED) r = NULL;
+  }
+  /* The mapping stays valid after the descriptor is closed */
+  close(fd);
   return r;
 }
 #endif
-- 
2.43.0


From 5786355f3497644ebae5c417b59fb87f981ce4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:55 +0000
Subject: [PATCH 65/69] fix: do not execute a .jsc file which could not be
 written or mapped, or overwrite a mapped one

---
 src/mjs_exec.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 8fb3f26..aaa8d91 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -20,6 +20,7 @@
 #include "mjs_util.h"
 
 #if MJS_GENERATE_JSC && defined(CS_MMAP)
+#include <errno.h>
 #include <sys/mman.h>
 #endif
 
@@ -1077,7 +1078,14 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
 
         /* try to open .jsc file for writing */
         if (rewrite) {
-          FILE *fp = fopen(filename_jsc, "wb");
+          FILE *fp = NULL;
+          /*
+           * The old file might be mapped (by an earlier execution of this
+           * script), so it should not be overwritten: make a new one
+           */
+          if (remove(filename_jsc) == 0 || errno == ENOENT) {
+            fp = fopen(filename_jsc, "wb");
+          }
           if (fp != NULL) {
             /* write last bcode part to .jsc */
             fwrite(bp->data.p, bp->data.len, 1, fp);
@@ -1089,12 +1097,21 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
         }
 
         if (read_mmapped) {
-          /* free RAM buffer with last bcode part */
-          free((void *) bp->data.p);
-
-          /* mmap .jsc file and set last bcode part buffer to it */
-          bp->data.p = cs_mmap_file(filename_jsc, &bp->data.len);
-          bp->in_rom = 1;
+          size_t size;
+          char *data = cs_mmap_file(filename_jsc, &size);
+          if (data != NULL && size == bp->data.len &&
+              memcmp(data, bp->data.p, size) == 0) {
+            /* free RAM buffer with last bcode part */
+            free((void *) bp->data.p);
+
+            /* set last bcode part buffer to the mmapped .jsc file */
+            bp->data.p = data;
+            bp->in_rom = 1;
+          } else {
+            /* .jsc file can't be used (it might be incomplete) */
+            LOG(LL_WARN, ("Failed to mmap %s", filename_jsc));
+            if (data != NULL) munmap(data, size);
+          }
         }
       }
     }
-- 
2.43.0


From 37b42fe7c1f9b74b94824f409f8e3b65af079580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:55 +0000
Subject: [PATCH 66/69] fix: unmap .jsc files when the engine is destroyed

---
 src/mjs_core.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index dfb4b7b..b092ffe 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -17,6 +17,10 @@
 #include "mjs_string.h"
 #include "mjs_util.h"
 
+#if MJS_GENERATE_JSC && defined(CS_MMAP)
+#include <sys/mman.h>
+#endif
+
 #ifndef MJS_OBJECT_ARENA_SIZE
 #define MJS_OBJECT_ARENA_SIZE 20
 #endif
@@ -46,6 +50,11 @@ void mjs_destroy(struct mjs *mjs) {
       if (!bp->in_rom) {
         free((void *) bp->data.p);
       }
+#if MJS_GENERATE_JSC && defined(CS_MMAP)
+      else {
+        munmap((void *) bp->data.p, bp->data.len);
+      }
+#endif
     }
   }
 
-- 
2.43.0


From c366b309be70f72528ce8157c78b3203fe175726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:55 +0000
Subject: [PATCH 67/69] fix: File.write() looped forever when writing failed

---
 lib/api_file.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/api_file.js b/lib/api_file.js
index ea01b8d..b2c2f43 100644
--- a/lib/api_file.js
+++ b/lib/api_file.js
@@ -49,7 +49,7 @@ let File = {
       let len = 5;  // Use light 5-byte strings for writing
       if (off + len > tot) len = tot - off;
       let n = File.fwrite(str.slice(off, off + len), 1, len, fp);
-      // if (n <= 0) break;
+      if (n <= 0) break;
       off += n;
     }
     File.fclose(fp);
-- 
2.43.0


From e53706452cad15b5361843ff793ff6af8b1c7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:13 +0000
Subject: [PATCH 68/69] fix: mjs_sprintf() did not terminate the text of an
 empty string

---
 src/mjs_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_util.c b/src/mjs_util.c
index e2f3133..356a247 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -87,6 +87,7 @@ void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
 
 void mjs_sprintf(mjs_val_t v, struct mjs *mjs, char *buf, size_t n) {
   struct json_out out = JSON_OUT_BUF(buf, n);
+  if (n > 0) buf[0] = '\0'; /* An empty string prints nothing at all */
   mjs_jprintf(v, mjs, &out);
 }
 
-- 
2.43.0


From ab4121d5268d6a04275faec3bebefe9102330c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:28 +0000
Subject: [PATCH 69/69] fix: in mg_match_prefix() ? matched a slash, and * did
 not match zero characters at the end

---
 src/common/str_util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/str_util.c b/src/common/str_util.c
index 25c6749..f2bb984 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -502,7 +502,7 @@ size_t mg_match_prefix_n(const struct mg_str pattern, const struct mg_str str) {
 
   for (; i < pattern.len && j < str.len; i++, j++) {
     if (pattern.p[i] == '?') {
-      continue;
+      if (str.p[j] == '/') break;
     } else if (pattern.p[i] == '*') {
       i++;
       if (i < pattern.len && pattern.p[i] == '*') {
@@ -525,6 +525,8 @@ size_t mg_match_prefix_n(const struct mg_str pattern, const struct mg_str str) {
       break;
     }
   }
+  /* Asterisks left at the end of the string match zero characters */
+  while (j == str.len && i < pattern.len && pattern.p[i] == '*') i++;
   if (i < pattern.len && pattern.p[i] == '$') {
     return j == str.len ? str.len : 0;
   }
-- 
2.43.0

