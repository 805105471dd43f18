From 435761f5ce3d963f219bae67a6bcb90e2681d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:33 +0000
Subject: [PATCH 01/21] fix: arguments bound by a partial application override
 the captured environment

---
 lib/core/eval.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/core/eval.c b/lib/core/eval.c
index 7e243a1..0c60a8a 100644
--- a/lib/core/eval.c
+++ b/lib/core/eval.c
@@ -192,7 +192,17 @@ lisp_eval_func(const lisp_t lisp, const atom_t closure, const atom_t symb,
    * Else handle partial application.
    */
   else {
-    atom_t clos = lisp_conc(lisp, bscl, dscl);
+    atom_t clos;
+    /*
+     * Binary functions expect their arguments as a stack. For lisp functions,
+     * the bound arguments take precedence over the definition-site closure.
+     */
+    if (IS_NUMB(body)) {
+      clos = lisp_conc(lisp, bscl, dscl);
+    } else {
+      clos = lisp_merge(lisp, lisp_dup(lisp, dscl), bscl);
+      X(lisp, dscl, bscl);
+    }
     atom_t con0 = lisp_cons(lisp, clos, body);
     rslt = lisp_cons(lisp, narg, con0);
   }
-- 
2.43.0


From f61786c6002939588a7dd1b9d76bfab4ac4c1767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:50 +0000
Subject: [PATCH 02/21] fix: <- releases what it holds on every path and
 returns the previous value of a global

---
 lib/mnml/std/set.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/mnml/std/set.c b/lib/mnml/std/set.c
index 742c6e4..e1d6388 100644
--- a/lib/mnml/std/set.c
+++ b/lib/mnml/std/set.c
@@ -13,6 +13,7 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t sym = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   atom_t val = lisp_eval(lisp, C, lisp_car(lisp, cdr));
+  X(lisp, cdr);
   /*
    * Check if sym is a symbol.
    */
@@ -40,14 +41,15 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t elt = lisp_cons(lisp, sym, val);
   atom_t res = lisp_tree_upd(lisp, lisp->globals, elt);
   if (!IS_NULL(res)) {
-    return res;
+    atom_t old = lisp_cdr(lisp, res);
+    X(lisp, res);
+    return old;
   }
-  X(lisp, res);
   /*
    * The symbol was not found.
    */
-  X(lisp, sym, val);
-  return lisp_make_nil(lisp);
+  X(lisp, elt);
+  return res;
 }
 
 /* clang-format off */
-- 
2.43.0


From f2ff6e9b84d224379c7aa8730883debf3e0ebcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:50 +0000
Subject: [PATCH 03/21] fix: def releases the head of a definition that is not
 a symbol

---
 lib/mnml/std/def.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mnml/std/def.c b/lib/mnml/std/def.c
index 92be82f..a9879a2 100644
--- a/lib/mnml/std/def.c
+++ b/lib/mnml/std/def.c
@@ -12,6 +12,7 @@ lisp_function_def(const lisp_t lisp, const atom_t closure)
    */
   atom_t symb = lisp_car(lisp, ANY);
   if (!IS_SYMB(symb)) {
+    X(lisp, symb);
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From 32e07d7c55570fff07e7a5b78442bd1476540872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:50 +0000
Subject: [PATCH 04/21] fix: tail-call marking skips empty and binary function
 bodies

---
 lib/core/utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 8fbdcf1..43c809c 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -524,6 +524,12 @@ lisp_mark_tail_calls(const lisp_t lisp, const atom_t symb, const atom_t args,
   TRACE_TAIL_SEXP(symb);
   TRACE_TAIL_SEXP(args);
   TRACE_TAIL_SEXP(body);
+  /*
+   * Empty or binary bodies have no tail.
+   */
+  if (!IS_PAIR(body)) {
+    return;
+  }
   /*
    * Grab the last expression of the body.
    */
-- 
2.43.0


From 48a9994410f1c6db20e745d7b9095f42dad4557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:50 +0000
Subject: [PATCH 05/21] fix: match evaluates its subject in the environment of
 the caller

---
 lib/mnml/std/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mnml/std/match.c b/lib/mnml/std/match.c
index dc05375..b7674f2 100644
--- a/lib/mnml/std/match.c
+++ b/lib/mnml/std/match.c
@@ -64,7 +64,7 @@ static atom_t USED
 lisp_function_match(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
-  atom_t car = lisp_eval(lisp, closure, lisp_car(lisp, ANY));
+  atom_t car = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   return lisp_match(lisp, C, car, cdr);
 }
-- 
2.43.0


From 49e053004fc91da4f899cfb66c7985cbf3e5441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:55 +0000
Subject: [PATCH 06/21] fix: / and % do not trap on a zero divisor or on
 INT64_MIN by -1

---
 include/mnml/module.h | 13 +++++++++++++
 lib/mnml/math/div.c   |  7 ++++++-
 lib/mnml/math/mod.c   |  7 ++++++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/mnml/module.h b/include/mnml/module.h
index 192d019..58364be 100644
--- a/include/mnml/module.h
+++ b/include/mnml/module.h
@@ -206,6 +206,19 @@ void module_load_defaults(const lisp_t lisp);
     return lisp_make_number(l, (_x)->number _o _y->number);        \
   }
 
+#define BINARY_DIVIDE_GEN(_n, _o, _m, _x, _y)                      \
+  static atom_t lisp_function_##_n(const lisp_t l, const atom_t c) \
+  {                                                                \
+    LISP_ARGS(c, C, _x, _y);                                       \
+    if ((_y)->number == 0) {                                       \
+      return lisp_make_nil(l);                                     \
+    }                                                              \
+    if ((_y)->number == -1) {                                      \
+      return lisp_make_number(l, _m((_x)->number));                \
+    }                                                              \
+    return lisp_make_number(l, (_x)->number _o _y->number);        \
+  }
+
 #define BINARY_COMPARE_GEN(_n, _o, _x, _y)                                    \
   static atom_t lisp_function_##_n(const lisp_t l, const atom_t c)            \
   {                                                                           \
diff --git a/lib/mnml/math/div.c b/lib/mnml/math/div.c
index e105512..4f0ac8a 100644
--- a/lib/mnml/math/div.c
+++ b/lib/mnml/math/div.c
@@ -2,7 +2,12 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 
-BINARY_NUMBER_GEN(div, /, X, Y);
+/*
+ * Division by -1 does not go through the hardware, which traps on INT64_MIN.
+ */
+#define DIVIDE_BY_MINUS_ONE(_x) ((int64_t)(0 - (uint64_t)(_x)))
+
+BINARY_DIVIDE_GEN(div, /, DIVIDE_BY_MINUS_ONE, X, Y);
 LISP_MODULE_SETUP(div, /, X, Y, NIL)
 
 // vim: tw=80:sw=2:ts=2:sts=2:et
diff --git a/lib/mnml/math/mod.c b/lib/mnml/math/mod.c
index fdea586..8f7ded0 100644
--- a/lib/mnml/math/mod.c
+++ b/lib/mnml/math/mod.c
@@ -2,7 +2,12 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 
-BINARY_NUMBER_GEN(mod, %, X, Y);
+/*
+ * Remainder by -1 does not go through the hardware, which traps on INT64_MIN.
+ */
+#define MODULO_BY_MINUS_ONE(_x) (0)
+
+BINARY_DIVIDE_GEN(mod, %, MODULO_BY_MINUS_ONE, X, Y);
 LISP_MODULE_SETUP(mod, %, X, Y, NIL)
 
 // vim: tw=80:sw=2:ts=2:sts=2:et
-- 
2.43.0


From d4c4e5393c0aad6cd9803cdca367dcc9b0331357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:12 +0000
Subject: [PATCH 07/21] fix: printing a NIL without decoration keeps the text
 already buffered

---
 lib/core/print.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/print.c b/lib/core/print.c
index 19ded27..62c3fb3 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -69,7 +69,7 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
 {
   switch (cell->type) {
     case T_NIL:
-      return s ? lisp_write(handle, buf, idx, "NIL", 3) : 0;
+      return s ? lisp_write(handle, buf, idx, "NIL", 3) : idx;
     case T_TRUE:
       return lisp_write(handle, buf, idx, "T", 1);
     case T_CHAR: {
@@ -123,7 +123,7 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
     case T_WILDCARD:
       return lisp_write(handle, buf, idx, "_", 1);
     default:
-      return 0;
+      return idx;
   }
 }
 
-- 
2.43.0


From 08c138af276f4ab00870a5b7fe7b4eabd591c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 08/21] fix: size the library name buffer for its terminator
 (lib NAME .so NUL)

---
 lib/core/module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index ad1ef96..6a295d1 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -109,8 +109,8 @@ module_find_at_path(const char* const dirpath, const char* const name,
   /* LIB NAME .DYLIB\0 = 3 + STRLEN(NAME) + 7 */
   const size_t lib_name_len = strlen(name) + 10;
 #else
-  /* LIB NAME .SO\0 = 3 + STRLEN(NAME) + 3 */
-  const size_t lib_name_len = strlen(name) + 6;
+  /* LIB NAME .SO\0 = 3 + STRLEN(NAME) + 4 */
+  const size_t lib_name_len = strlen(name) + 7;
 #endif
   char* const lib_name = alloca(lib_name_len);
   memset(lib_name, 0, lib_name_len);
-- 
2.43.0


From 7a7a86cdc7701d5e507f214aeae390d7a2219d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 09/21] fix: rotate the parent, not the new node, when
 balancing an insertion

---
 lib/core/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/tree.c b/lib/core/tree.c
index 72c6d26..9946dab 100644
--- a/lib/core/tree.c
+++ b/lib/core/tree.c
@@ -285,7 +285,7 @@ tree_add_check(const atom_t root, const atom_t node)
          */
         if (x == RIGHT(PARENT(x))) {
           x = PARENT(x);
-          next = lisp_tree_lrot(next, node);
+          next = lisp_tree_lrot(next, x);
         }
         /*
          * Case 3.
@@ -310,7 +310,7 @@ tree_add_check(const atom_t root, const atom_t node)
          */
         if (x == LEFT(PARENT(x))) {
           x = PARENT(x);
-          next = lisp_tree_rrot(next, node);
+          next = lisp_tree_rrot(next, x);
         }
         /*
          * Case 3.
-- 
2.43.0


From c662fb283cc98a094331fcb25e12f6e9d9ef776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 10/21] fix: complete the rebalancing after a tree removal
 (recolor, new root)

---
 lib/core/tree.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/core/tree.c b/lib/core/tree.c
index 9946dab..1dbdbb9 100644
--- a/lib/core/tree.c
+++ b/lib/core/tree.c
@@ -480,6 +480,7 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
        */
       if (IS_COLORED(w)) {
         CLR_COLOR(w);
+        SET_COLOR(p);
         next = lisp_tree_lrot(next, p);
         w = RIGHT(p);
       }
@@ -509,7 +510,8 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
         IS_COLORED(p) ? SET_COLOR(w) : CLR_COLOR(w);
         CLR_COLOR(p);
         CLR_COLOR(RIGHT(w));
-        x = lisp_tree_lrot(next, p);
+        next = lisp_tree_lrot(next, p);
+        x = next;
       }
     }
     /*
@@ -522,7 +524,8 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
        */
       if (IS_COLORED(w)) {
         CLR_COLOR(w);
-        next = lisp_tree_rrot(next, PARENT(x));
+        SET_COLOR(p);
+        next = lisp_tree_rrot(next, p);
         w = LEFT(p);
       }
       /*
@@ -551,13 +554,15 @@ tree_rem_check(const atom_t root, const atom_t parent, const atom_t node)
         IS_COLORED(p) ? SET_COLOR(w) : CLR_COLOR(w);
         CLR_COLOR(p);
         CLR_COLOR(LEFT(w));
-        x = lisp_tree_rrot(next, p);
+        next = lisp_tree_rrot(next, p);
+        x = next;
       }
     }
   }
   /*
-   * Return the new root.
+   * Clear the color of the last node and return the new root.
    */
+  CLR_COLOR(x);
   return next;
 }
 
-- 
2.43.0


From 0fb8c2c4da9b513e2905951b00edf177e613ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:19 +0000
Subject: [PATCH 11/21] fix: release the requested symbols when a module cannot
 be opened

module_load_binary takes over the symbol list; the paths where the library cannot be opened or exports no entries returned NIL without releasing it.
---
 lib/core/module.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core/module.c b/lib/core/module.c
index 6a295d1..1170b50 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -367,6 +367,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
      */
     handle = module_load_at_path(path, bsym);
     if (handle == NULL) {
+      X(lisp, symbols);
       return lisp_make_nil(lisp);
     }
     /*
@@ -379,6 +380,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
    */
   const module_entry_t* (*entries)() = dlsym(handle, "lisp_module_entries");
   if (entries == NULL) {
+    X(lisp, symbols);
     DLCLOSE(add_to_cache, handle);
     return lisp_make_nil(lisp);
   }
-- 
2.43.0


From 31f8c08c9ebff059fafd51b334ed5e65e2cd3e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 12/21] fix: leave room for the terminator when converting
 strings into buffers

---
 lib/core/debug.c        | 2 +-
 lib/core/utils.c        | 2 +-
 lib/mnml/io/in.c        | 4 ++--
 lib/mnml/io/out.c       | 2 +-
 lib/mnml/unix/connect.c | 4 ++--
 lib/mnml/unix/unlink.c  | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/core/debug.c b/lib/core/debug.c
index e28d98f..9f8a92e 100644
--- a/lib/core/debug.c
+++ b/lib/core/debug.c
@@ -93,7 +93,7 @@ lisp_debug_atom(FILE* const fp, const atom_t atom, const bool alter,
        */
       if (!IS_NULL(atom) && lisp_is_string(atom)) {
         char buffer[1024];
-        size_t len = lisp_make_cstring(atom, buffer, 1024, 0);
+        size_t len = lisp_make_cstring(atom, buffer, sizeof(buffer) - 1, 0);
         fprintf(fp, "\"%.*s\"", (int)len, buffer);
         break;
       }
diff --git a/lib/core/utils.c b/lib/core/utils.c
index 43c809c..8b7e633 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -658,7 +658,7 @@ lisp_load_file(const lisp_t lisp, const char* const filepath)
   if (IS_NULL(lisp->ichan)) {
     strcpy(absl_buf, getenv("PWD"));
   } else {
-    lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX, 0);
+    lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX - 1, 0);
   }
   /*
    * Get the fullpath for the file.
diff --git a/lib/mnml/io/in.c b/lib/mnml/io/in.c
index 2a15749..20b741f 100644
--- a/lib/mnml/io/in.c
+++ b/lib/mnml/io/in.c
@@ -25,7 +25,7 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
   /*
    * Get the working directory for the current lisp->ichan.
    */
-  lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), dirn_buf, PATH_MAX, 0);
+  lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), dirn_buf, PATH_MAX - 1, 0);
   /*
    * Process the CHAN.
    */
@@ -46,7 +46,7 @@ lisp_function_in(const lisp_t lisp, const atom_t closure)
       /*
        * Get the filepath.
        */
-      lisp_make_cstring(CHAN, file_buf, PATH_MAX, 0);
+      lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
       /*
        * Get the fullpath for the file.
        */
diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index d50821a..ba29f55 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -41,7 +41,7 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
       /*
        * Get the filepath.
        */
-      lisp_make_cstring(CHAN, file_buf, PATH_MAX, 0);
+      lisp_make_cstring(CHAN, file_buf, PATH_MAX - 1, 0);
       /*
        * Get the fullpath for the file.
        */
diff --git a/lib/mnml/unix/connect.c b/lib/mnml/unix/connect.c
index ccca91e..f080420 100644
--- a/lib/mnml/unix/connect.c
+++ b/lib/mnml/unix/connect.c
@@ -27,7 +27,7 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
    * Convert the address to a C string.
    */
   char address[1024];
-  size_t len = lisp_make_cstring(ADDRESS, address, 1024, 0);
+  size_t len = lisp_make_cstring(ADDRESS, address, sizeof(address) - 1, 0);
   if (len == 0) {
     TRACE("Cannot convert address to a C string");
     return lisp_make_nil(lisp);
@@ -36,7 +36,7 @@ lisp_function_connect(UNUSED const lisp_t lisp, const atom_t closure)
    * Convert the address to a C string.
    */
   char service[1024];
-  len = lisp_make_cstring(PORT, service, 1024, 0);
+  len = lisp_make_cstring(PORT, service, sizeof(service) - 1, 0);
   if (len == 0) {
     TRACE("Cannot convert service to a C string");
     return lisp_make_nil(lisp);
diff --git a/lib/mnml/unix/unlink.c b/lib/mnml/unix/unlink.c
index 4d47dfa..20a2b13 100644
--- a/lib/mnml/unix/unlink.c
+++ b/lib/mnml/unix/unlink.c
@@ -18,7 +18,7 @@ lisp_function_unlink(const lisp_t lisp, const atom_t closure)
    * Convert the argument.
    */
   char name_buf[PATH_MAX];
-  lisp_make_cstring(NAME, name_buf, PATH_MAX, 0);
+  lisp_make_cstring(NAME, name_buf, PATH_MAX - 1, 0);
   /*
    * Call unlink().
    */
-- 
2.43.0


From 7e2af5b92488d1f9513cec0a85ab9c744200ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 13/21] fix: accept select's declared arguments and bound its
 descriptor sets

---
 lib/mnml/unix/select.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index ab82f0a..c011e35 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -19,7 +19,7 @@ convert(const atom_t fds, fd_set* const rset, fd_set* const eset)
    * Add CAR in the result set if valid.
    */
   if (IS_NUMB(CAR(fds))) {
-    if (CAR(fds)->number >= 0 && CAR(fds)->number < UINT32_MAX) {
+    if (CAR(fds)->number >= 0 && CAR(fds)->number < FD_SETSIZE) {
       FD_SET(CAR(fds)->number, rset);
       FD_SET(CAR(fds)->number, eset);
       cur = CAR(fds)->number;
@@ -55,7 +55,8 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     /*
      * Call the callback if it is set.
      */
-    if (FD_ISSET(CAR(fds)->number, set) && !IS_NULL(cb)) {
+    const int64_t num = CAR(fds)->number;
+    if (num >= 0 && num < FD_SETSIZE && FD_ISSET(num, set) && !IS_NULL(cb)) {
       atom_t fdn = lisp_car(lisp, fds);
       atom_t cn0 = lisp_cons(lisp, fdn, lisp_make_nil(lisp));
       atom_t cn1 = lisp_cons(lisp, UP(cb), cn0);
@@ -88,7 +89,9 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     }
     case T_NIL: {
       X(lisp, act);
-      close(CAR(fds)->number);
+      if (IS_NUMB(CAR(fds))) {
+        close(CAR(fds)->number);
+      }
       return process_r(lisp, closure, CDR(fds), cb, set);
     }
     default: {
@@ -114,7 +117,12 @@ process(const lisp_t lisp, const atom_t closure, const atom_t fds,
 static atom_t USED
 lisp_function_select(const lisp_t lisp, const atom_t closure)
 {
-  LISP_ARGS(closure, C, FDS);
+  LISP_ARGS(closure, C, FDS, ON_READ, ON_ERROR);
+  /*
+   * The callbacks are looked up by name, in the closure.
+   */
+  (void)ON_READ;
+  (void)ON_ERROR;
   /*
    * Check that the fds argument is a list.
    */
@@ -139,8 +147,8 @@ lisp_function_select(const lisp_t lisp, const atom_t closure)
   /*
    * Process the events.
    */
-  atom_t rres = process(lisp, C, FDS, "ON_READ", &rset);
-  atom_t eres = process(lisp, C, FDS, "ON_ERROR", &eset);
+  atom_t rres = process(lisp, closure, FDS, "ON_READ", &rset);
+  atom_t eres = process(lisp, closure, FDS, "ON_ERROR", &eset);
   /*
    * Build the result.
    */
-- 
2.43.0


From 1d5264eef44e1d6139b24c6f6e542fc389d30003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 14/21] fix: exec rejects a path, arguments or environment that
 are not strings

---
 lib/mnml/unix/exec.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/mnml/unix/exec.c b/lib/mnml/unix/exec.c
index c4f592e..993c640 100644
--- a/lib/mnml/unix/exec.c
+++ b/lib/mnml/unix/exec.c
@@ -36,6 +36,18 @@ lisp_exec_make_strings(const lisp_t lisp, const atom_t cell, char** array,
   return lisp_exec_make_strings(lisp, cdr, array, len, idx + 1);
 }
 
+static bool
+lisp_exec_is_strings(const atom_t cell)
+{
+  if (IS_NULL(cell)) {
+    return true;
+  }
+  if (!IS_PAIR(cell) || !lisp_is_string(CAR(cell))) {
+    return false;
+  }
+  return lisp_exec_is_strings(CDR(cell));
+}
+
 static atom_t USED
 lisp_function_exec(UNUSED const lisp_t lisp, const atom_t closure)
 {
@@ -44,6 +56,14 @@ lisp_function_exec(UNUSED const lisp_t lisp, const atom_t closure)
    * Get the arguments.
    */
   LISP_ARGS(closure, C, PATH, ARGS, ENVP);
+  /*
+   * Make sure that the path, arguments and environment are strings.
+   */
+  if (!lisp_is_string(PATH) || !lisp_exec_is_strings(ARGS) ||
+      !lisp_exec_is_strings(ENVP)) {
+    TRACE("Path, arguments and environment must be strings");
+    return lisp_make_nil(lisp);
+  }
   /*
    * Build the path string.
    */
-- 
2.43.0


From 7153118378421507a89d1d0bbd9924245a530a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 15/21] fix: exec releases its argument strings

---
 lib/mnml/unix/exec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mnml/unix/exec.c b/lib/mnml/unix/exec.c
index 993c640..5a99999 100644
--- a/lib/mnml/unix/exec.c
+++ b/lib/mnml/unix/exec.c
@@ -32,6 +32,7 @@ lisp_exec_make_strings(const lisp_t lisp, const atom_t cell, char** array,
   atom_t cdr = lisp_cdr(lisp, cell);
   X(lisp, cell);
   lisp_make_cstring(car, buffer, PATH_MAX, 0);
+  X(lisp, car);
   array[idx] = strdup(buffer);
   return lisp_exec_make_strings(lisp, cdr, array, len, idx + 1);
 }
-- 
2.43.0


From 1b03ecf002b0bbec0c8d7cff34897d8f8c61ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 16/21] fix: lisp_get_fullpath rejects paths longer than its
 buffers and paths without a directory

---
 lib/core/utils.c | 53 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 8b7e633..480ea58 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -583,38 +583,54 @@ lisp_timestamp()
  * Lisp load file.
  */
 
+/*
+ * Append STR to the string in a buffer of PATH_MAX bytes.
+ */
+static bool
+lisp_path_append(char* const buffer, const char* const str)
+{
+  const size_t len = strlen(buffer);
+  if (strlen(str) >= PATH_MAX - len) {
+    ERROR("Path is too long: %s", str);
+    return false;
+  }
+  strcpy(&buffer[len], str);
+  return true;
+}
+
 const char*
 lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
                   const char* const filepath, char* const buffer)
 {
-  char expn_buf[PATH_MAX];
-  char absl_buf[PATH_MAX];
+  bool fits;
+  char expn_buf[PATH_MAX] = "";
+  char absl_buf[PATH_MAX] = "";
   /*
    * Expand the path.
    */
   if (strncmp(filepath, "@lib", 4) == 0) {
     if (getenv("MNML_SCRIPT_PATH") != NULL) {
-      strcpy(expn_buf, getenv("MNML_SCRIPT_PATH"));
+      fits = lisp_path_append(expn_buf, getenv("MNML_SCRIPT_PATH"));
     } else {
-      strcpy(expn_buf, lisp_prefix());
-      strcat(expn_buf, "/share/mnml");
+      fits = lisp_path_append(expn_buf, lisp_prefix()) &&
+             lisp_path_append(expn_buf, "/share/mnml");
     }
-    strcat(expn_buf, &filepath[4]);
+    fits = fits && lisp_path_append(expn_buf, &filepath[4]);
   } else if (filepath[0] == '~' && getenv("HOME") != NULL) {
-    strcpy(expn_buf, getenv("HOME"));
-    strcat(expn_buf, &filepath[1]);
+    fits = lisp_path_append(expn_buf, getenv("HOME")) &&
+           lisp_path_append(expn_buf, &filepath[1]);
   } else {
-    strcpy(expn_buf, filepath);
+    fits = lisp_path_append(expn_buf, filepath);
   }
   /*
    * If the expanded path is not absolute, prepend the current CWD.
    */
-  if (expn_buf[0] != '/' && !IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, cwd);
-    strcat(absl_buf, "/");
-    strcat(absl_buf, expn_buf);
-  } else {
-    strcpy(absl_buf, expn_buf);
+  if (fits && expn_buf[0] != '/' && !IS_NULL(lisp->ichan)) {
+    fits =
+      lisp_path_append(absl_buf, cwd) && lisp_path_append(absl_buf, "/");
+  }
+  if (!fits || !lisp_path_append(absl_buf, expn_buf)) {
+    return NULL;
   }
   /*
    * Get the fullpath.
@@ -631,6 +647,10 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   while ((p = strstr(last, "/"))) {
     last = p + 1;
   }
+  if (last == absl_buf) {
+    ERROR("Cannot get realpath for %s", absl_buf);
+    return NULL;
+  }
   *(last - 1) = '\0';
   path = realpath(absl_buf, buffer);
   *(last - 1) = '/';
@@ -641,8 +661,7 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   /*
    * Return the full path.
    */
-  strcat(buffer, (last - 1));
-  return path;
+  return lisp_path_append(buffer, (last - 1)) ? path : NULL;
 }
 
 atom_t
-- 
2.43.0


From 246e4bb82b69230d636b452ce69a5760198beec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 17/21] fix: lisp_load_file does not depend on PWD being set
 and short

---
 lib/core/utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 480ea58..bb497b3 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -675,7 +675,10 @@ lisp_load_file(const lisp_t lisp, const char* const filepath)
    * Get CWD.
    */
   if (IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, getenv("PWD"));
+    if (getcwd(absl_buf, PATH_MAX) == NULL) {
+      ERROR("Cannot get CWD for %s", filepath);
+      return lisp_make_nil(lisp);
+    }
   } else {
     lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX - 1, 0);
   }
-- 
2.43.0


From c1fa851c95f4c744c012cf1b3095227c6c4cdb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 18/21] fix: out does not depend on PWD being set and short

---
 lib/mnml/io/out.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index ba29f55..13861a0 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -26,7 +26,10 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
    * Get the current working directory. Output files are expected to be relative
    * to where the program is run, not where the program is located.
    */
-  strcpy(dirn_buf, getenv("PWD"));
+  if (getcwd(dirn_buf, PATH_MAX) == NULL) {
+    ERROR("Cannot get CWD");
+    return lisp_make_nil(lisp);
+  }
   /*
    * Process the CHAN.
    */
-- 
2.43.0


From 3d4a3a93e2c49acadf62621798aae1e91e026484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 19/21] fix: out rejects a channel that is a pair but not a
 string

---
 lib/mnml/io/out.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index 13861a0..67b2dc4 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -41,6 +41,12 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
       fd = dup((int)CHAN->number);
       break;
     case T_PAIR:
+      /*
+       * That argument must be a string.
+       */
+      if (!lisp_is_string(CHAN)) {
+        return lisp_make_nil(lisp);
+      }
       /*
        * Get the filepath.
        */
-- 
2.43.0


From c3fa851be6c154e59fff37b0b611b0dcff07db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 20/21] fix: readline releases its buffer at end of file

---
 lib/mnml/io/readline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mnml/io/readline.c b/lib/mnml/io/readline.c
index 1cef7fe..ec26077 100644
--- a/lib/mnml/io/readline.c
+++ b/lib/mnml/io/readline.c
@@ -15,6 +15,7 @@ lisp_function_readline(const lisp_t lisp, UNUSED const atom_t closure)
   size_t cap = 0;
   ssize_t len = getline(&line, &cap, handle);
   if (len < 0) {
+    free(line);
     MAKE_SYMBOL_STATIC(eof_s, "EOF");
     return lisp_make_symbol(lisp, eof_s);
   }
-- 
2.43.0


From cdd909b616393290fb6a5d8da1bdf20cdb5f440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 21/21] fix: readline keeps the last character of a line
 without newline

---
 lib/mnml/io/readline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mnml/io/readline.c b/lib/mnml/io/readline.c
index ec26077..bf3aa68 100644
--- a/lib/mnml/io/readline.c
+++ b/lib/mnml/io/readline.c
@@ -22,7 +22,7 @@ lisp_function_readline(const lisp_t lisp, UNUSED const atom_t closure)
   /*
    * Remove the extra newline character.
    */
-  if (len > 0 && line[len - 1] != 0) {
+  if (len > 0 && line[len - 1] == '\n') {
     line[len - 1] = 0;
     len -= 1;
   }
-- 
2.43.0

