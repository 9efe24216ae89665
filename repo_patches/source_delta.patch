From 35b35cb88f4f5d0e23569f4f8836ea7b18d39355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 01/86] verif: step hook in the interpreter loop, guarded by
 MJS_VERIF_HOOKS

---
 src/mjs_exec.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index bd48fea..b5a9403 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -23,6 +23,14 @@
 #include <sys/mman.h>
 #endif
 
+#ifdef MJS_VERIF_HOOKS
+/*
+ * Called before each opcode; returns 0 to carry on, 1 to collect garbage at
+ * this point, 2 to stop the execution with an error.
+ */
+extern int mjs_verif_step(struct mjs *mjs);
+#endif
+
 /*
  * Pushes call stack frame. Offset is a global bcode offset. Retval_stack_idx
  * is an index in mjs->stack at which return value should be written later.
@@ -582,6 +590,17 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 #if MJS_AGGRESSIVE_GC
     maybe_gc(mjs);
 #endif
+#ifdef MJS_VERIF_HOOKS
+    /* Verification builds only: owner-controlled GC points and step limit */
+    {
+      int verif_action = mjs_verif_step(mjs);
+      if (verif_action == 1) {
+        maybe_gc(mjs);
+      } else if (verif_action == 2) {
+        mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "step limit");
+      }
+    }
+#endif
 
     code = (const uint8_t *) bp.data.p;
 #if MJS_ENABLE_DEBUG
-- 
2.43.0


From 19f0a542d0b91434cb93ebca62ef9a978dcb205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:24 +0000
Subject: [PATCH 02/86] fix: compound assignment expressions yield the assigned
 value

(x += 1) evaluated to the value x had before the assignment.
---
 mjs.c          | 4 ++--
 src/mjs_exec.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 49c3d92..1f746f7 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8179,8 +8179,8 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t obj = mjs_pop(mjs);
   mjs_val_t key = mjs_pop(mjs);
   if (mjs_is_object(obj) && mjs_is_string(key)) {
-    mjs_val_t v = mjs_get_v(mjs, obj, key);
-    mjs_set_v(mjs, obj, key, do_op(mjs, v, val, op));
+    mjs_val_t v = do_op(mjs, mjs_get_v(mjs, obj, key), val, op);
+    mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index b5a9403..dd9e269 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -216,8 +216,8 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t obj = mjs_pop(mjs);
   mjs_val_t key = mjs_pop(mjs);
   if (mjs_is_object(obj) && mjs_is_string(key)) {
-    mjs_val_t v = mjs_get_v(mjs, obj, key);
-    mjs_set_v(mjs, obj, key, do_op(mjs, v, val, op));
+    mjs_val_t v = do_op(mjs, mjs_get_v(mjs, obj, key), val, op);
+    mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
-- 
2.43.0


From 37ebecb9c4da5b103dbc8c97a24d78a8f0b1526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:24 +0000
Subject: [PATCH 03/86] fix: 0 === -0 is true

The strict equality compared the bits of the two numbers.
---
 mjs.c          | 7 ++-----
 src/mjs_exec.c | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/mjs.c b/mjs.c
index 1f746f7..98f2a53 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8194,11 +8194,8 @@ static int check_equal(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
   } else if (a == b) {
     ret = 1;
   } else if (mjs_is_number(a) && mjs_is_number(b)) {
-    /*
-     * The case of equal numbers is handled above, so here the result is always
-     * false
-     */
-    ret = 0;
+    /* Positive and negative zero are equal, but have different bits */
+    ret = mjs_get_double(mjs, a) == mjs_get_double(mjs, b);
   } else if (mjs_is_string(a) && mjs_is_string(b)) {
     ret = s_cmp(mjs, a, b) == 0;
   } else if (mjs_is_foreign(a) && b == MJS_NULL) {
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index dd9e269..1f625e1 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -231,11 +231,8 @@ static int check_equal(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
   } else if (a == b) {
     ret = 1;
   } else if (mjs_is_number(a) && mjs_is_number(b)) {
-    /*
-     * The case of equal numbers is handled above, so here the result is always
-     * false
-     */
-    ret = 0;
+    /* Positive and negative zero are equal, but have different bits */
+    ret = mjs_get_double(mjs, a) == mjs_get_double(mjs, b);
   } else if (mjs_is_string(a) && mjs_is_string(b)) {
     ret = s_cmp(mjs, a, b) == 0;
   } else if (mjs_is_foreign(a) && b == MJS_NULL) {
-- 
2.43.0


From f92d51b33670bac39f3486878f515712877c3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:14 +0000
Subject: [PATCH 04/86] fix: an empty statement followed by a block is not one
 statement

if (0) ; {f();} took the block as the body of the if, because the check for
a block looked at the token after the current one.
---
 mjs.c            | 2 +-
 src/mjs_parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 98f2a53..2f7f882 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12368,7 +12368,7 @@ static mjs_err_t parse_let(struct pstate *p) {
 }
 
 static mjs_err_t parse_block_or_stmt(struct pstate *p, int cs) {
-  if (ptest(p) == TOK_OPEN_CURLY) {
+  if (p->tok.tok == TOK_OPEN_CURLY) {
     return parse_block(p, cs);
   } else {
     return parse_statement(p);
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 7d9f383..3eb8e52 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -540,7 +540,7 @@ static mjs_err_t parse_let(struct pstate *p) {
 }
 
 static mjs_err_t parse_block_or_stmt(struct pstate *p, int cs) {
-  if (ptest(p) == TOK_OPEN_CURLY) {
+  if (p->tok.tok == TOK_OPEN_CURLY) {
     return parse_block(p, cs);
   } else {
     return parse_statement(p);
-- 
2.43.0


From 3c7906dc740294740a520ac5240891e6913b5f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:45 +0000
Subject: [PATCH 05/86] fix: keep the this value of a pending call alive across
 a collection

The receiver of a call lives on the argument stack while the arguments are
evaluated; a collection at that point freed or moved it:
let s1 = ('' + 'bcdefgh').slice(0, 6); '1234567'.slice('abcdef'.length)
---
 mjs.c        | 1 +
 src/mjs_gc.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index 2f7f882..7164f7b 100644
--- a/mjs.c
+++ b/mjs.c
@@ -10814,6 +10814,7 @@ void mjs_gc(struct mjs *mjs, int full) {
   gc_mark_mbuf_pt(mjs, &mjs->owned_values);
   gc_mark_mbuf_val(mjs, &mjs->scopes);
   gc_mark_mbuf_val(mjs, &mjs->stack);
+  gc_mark_mbuf_val(mjs, &mjs->arg_stack);
   gc_mark_mbuf_val(mjs, &mjs->call_stack);
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
diff --git a/src/mjs_gc.c b/src/mjs_gc.c
index a129fa2..6bc900d 100644
--- a/src/mjs_gc.c
+++ b/src/mjs_gc.c
@@ -493,6 +493,7 @@ void mjs_gc(struct mjs *mjs, int full) {
   gc_mark_mbuf_pt(mjs, &mjs->owned_values);
   gc_mark_mbuf_val(mjs, &mjs->scopes);
   gc_mark_mbuf_val(mjs, &mjs->stack);
+  gc_mark_mbuf_val(mjs, &mjs->arg_stack);
   gc_mark_mbuf_val(mjs, &mjs->call_stack);
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
-- 
2.43.0


From 88f6def4db30272e81444361a1b665623c5902ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 06/86] fix: the nesting depth goes down again at the end of a
 block

Scripts with more than about 500 blocks or functions one after another, none
of them nested, failed with "parser stack overflow".
---
 mjs.c            | 1 +
 src/mjs_parser.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index 7164f7b..c64f298 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12004,6 +12004,7 @@ static mjs_err_t parse_block(struct pstate *p, int mkscope) {
   res = parse_statement_list(p, TOK_CLOSE_CURLY);
   EXPECT(p, TOK_CLOSE_CURLY);
   if (mkscope) emit_byte(p, OP_DEL_SCOPE);
+  p->depth--;
   return res;
 }
 
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 3eb8e52..34fea33 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -175,6 +175,7 @@ static mjs_err_t parse_block(struct pstate *p, int mkscope) {
   res = parse_statement_list(p, TOK_CLOSE_CURLY);
   EXPECT(p, TOK_CLOSE_CURLY);
   if (mkscope) emit_byte(p, OP_DEL_SCOPE);
+  p->depth--;
   return res;
 }
 
-- 
2.43.0


From 4ee28c2f5e174b53857ac786ddcb4da4cd6ba7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 07/86] fix: a syntax error in the object of a for..in loop
 stops the parser

for (let k in ) 1; went on to generate and run code after the error.
---
 mjs.c            | 2 +-
 src/mjs_parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index c64f298..c28da8e 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12398,7 +12398,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   /* Put object to the stack */
   EXPECT(p, TOK_IDENT);
   EXPECT(p, TOK_KEYWORD_IN);
-  parse_expr(p);
+  if ((res = parse_expr(p)) != MJS_OK) return res;
   EXPECT(p, TOK_CLOSE_PAREN);
 
   emit_byte(p, OP_PUSH_UNDEF); /* Push iterator */
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 34fea33..7c286b5 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -569,7 +569,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   /* Put object to the stack */
   EXPECT(p, TOK_IDENT);
   EXPECT(p, TOK_KEYWORD_IN);
-  parse_expr(p);
+  if ((res = parse_expr(p)) != MJS_OK) return res;
   EXPECT(p, TOK_CLOSE_PAREN);
 
   emit_byte(p, OP_PUSH_UNDEF); /* Push iterator */
-- 
2.43.0


From e55b5f9a0045fb771622b533145eeb2b3914cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 08/86] fix: do not read past the end of a script that ends in
 a digit

The hexadecimal value of every number token was parsed from its third
character on, which for a one-digit number at the very end of the script lies
beyond the terminator.
---
 mjs.c            | 5 +++--
 src/mjs_parser.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index c28da8e..ec91c26 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12133,8 +12133,9 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
     }
     case TOK_NUM: {
       double iv, d = strtod(t->ptr, NULL);
-      unsigned long uv = strtoul(t->ptr + 2, NULL, 16);
-      if (t->ptr[0] == '0' && t->ptr[1] == 'x') d = uv;
+      if (t->ptr[0] == '0' && t->ptr[1] == 'x') {
+        d = strtoul(t->ptr + 2, NULL, 16);
+      }
       if (modf(d, &iv) == 0) {
         emit_byte(p, OP_PUSH_INT);
         emit_int(p, (int64_t) d);
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 7c286b5..5d2b735 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -304,8 +304,9 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
     }
     case TOK_NUM: {
       double iv, d = strtod(t->ptr, NULL);
-      unsigned long uv = strtoul(t->ptr + 2, NULL, 16);
-      if (t->ptr[0] == '0' && t->ptr[1] == 'x') d = uv;
+      if (t->ptr[0] == '0' && t->ptr[1] == 'x') {
+        d = strtoul(t->ptr + 2, NULL, 16);
+      }
       if (modf(d, &iv) == 0) {
         emit_byte(p, OP_PUSH_INT);
         emit_int(p, (int64_t) d);
-- 
2.43.0


From 738bb7e4ea12c81f9ee5553d5d778ec86d36f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 09/86] fix: a malformed return expression is a syntax error at
 once

The parser went back and parsed the expression again as a statement, which
took time exponential in the number of nested return statements, and left the
message of the discarded error behind.
---
 mjs.c            | 10 +++++++---
 src/mjs_parser.c | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index ec91c26..f5352ad 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12711,14 +12711,18 @@ static void pstate_revert(struct pstate *p, struct pstate *old,
 static mjs_err_t parse_return(struct pstate *p) {
   int old_bcode_gen_len;
   struct pstate p_saved;
+  mjs_err_t res;
   EXPECT(p, TOK_KEYWORD_RETURN);
   p_saved = *p;
   old_bcode_gen_len = p->mjs->bcode_gen.len;
-  if (parse_expr(p) != MJS_OK) {
+  if ((res = parse_expr(p)) != MJS_OK) {
+    /* A malformed expression is an error; no expression at all is not */
+    if (p->tok.ptr != p_saved.tok.ptr) return res;
     /*
-     * Failed to parse an expression to return, so return the parser to the
-     * prior state and push undefined.
+     * There is no expression to return, so return the parser to the prior
+     * state and push undefined.
      */
+    mjs_set_errorf(p->mjs, MJS_OK, NULL);
     pstate_revert(p, &p_saved, old_bcode_gen_len);
     emit_byte(p, OP_PUSH_UNDEF);
   }
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 5d2b735..c305013 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -882,14 +882,18 @@ static void pstate_revert(struct pstate *p, struct pstate *old,
 static mjs_err_t parse_return(struct pstate *p) {
   int old_bcode_gen_len;
   struct pstate p_saved;
+  mjs_err_t res;
   EXPECT(p, TOK_KEYWORD_RETURN);
   p_saved = *p;
   old_bcode_gen_len = p->mjs->bcode_gen.len;
-  if (parse_expr(p) != MJS_OK) {
+  if ((res = parse_expr(p)) != MJS_OK) {
+    /* A malformed expression is an error; no expression at all is not */
+    if (p->tok.ptr != p_saved.tok.ptr) return res;
     /*
-     * Failed to parse an expression to return, so return the parser to the
-     * prior state and push undefined.
+     * There is no expression to return, so return the parser to the prior
+     * state and push undefined.
      */
+    mjs_set_errorf(p->mjs, MJS_OK, NULL);
     pstate_revert(p, &p_saved, old_bcode_gen_len);
     emit_byte(p, OP_PUSH_UNDEF);
   }
-- 
2.43.0


From f526f7af79deca2495b3689be68d899e9e6bea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 10/86] fix: bound the recursion of the parser in all
 constructs

Unary operators, assignments, conditional expressions and statements nested in
statements without braces recursed without limit, so a long enough script such
as !!!!...1 overflowed the C stack. They now count against the limit that
nested expressions already had.
---
 mjs.c            | 55 +++++++++++++++++++++++++++++++++---------------
 src/mjs_parser.c | 55 +++++++++++++++++++++++++++++++++---------------
 2 files changed, 76 insertions(+), 34 deletions(-)

diff --git a/mjs.c b/mjs.c
index f5352ad..ddb6ea7 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11943,18 +11943,31 @@ static void emit_op(struct pstate *pstate, int tok) {
     return res;                                                                \
   } while (0)
 
-#define PARSE_RTL_BINOP(p, f1, f2, ops, prev_op)        \
-  do {                                                  \
-    mjs_err_t res = MJS_OK;                             \
-    (void) prev_op;                                     \
-    if ((res = f1(p, TOK_EOF)) != MJS_OK) return res;   \
-    if (findtok(ops, p->tok.tok) != TOK_EOF) {          \
-      int op = p->tok.tok;                              \
-      pnext1(p);                                        \
-      if ((res = f2(p, TOK_EOF)) != MJS_OK) return res; \
-      emit_op(p, op);                                   \
-    }                                                   \
-    return res;                                         \
+// Runs `call`, which recurses into the parser, one nesting level deeper.
+#define PARSE_NESTED(p, res, call)                                       \
+  do {                                                                   \
+    if (++p->depth > (STACK_LIMIT / BINOP_STACK_FRAME_SIZE)) {           \
+      mjs_set_errorf(p->mjs, MJS_SYNTAX_ERROR, "parser stack overflow"); \
+      res = MJS_SYNTAX_ERROR;                                            \
+    } else {                                                             \
+      res = call;                                                        \
+    }                                                                    \
+    p->depth--;                                                          \
+  } while (0)
+
+#define PARSE_RTL_BINOP(p, f1, f2, ops, prev_op)      \
+  do {                                                \
+    mjs_err_t res = MJS_OK;                           \
+    (void) prev_op;                                   \
+    if ((res = f1(p, TOK_EOF)) != MJS_OK) return res; \
+    if (findtok(ops, p->tok.tok) != TOK_EOF) {        \
+      int op = p->tok.tok;                            \
+      pnext1(p);                                      \
+      PARSE_NESTED(p, res, f2(p, TOK_EOF));           \
+      if (res != MJS_OK) return res;                  \
+      emit_op(p, op);                                 \
+    }                                                 \
+    return res;                                       \
   } while (0)
 
 #if MJS_INIT_OFFSET_SIZE > 0
@@ -12204,7 +12217,7 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
-      if ((res = parse_call_dot_mem(p, TOK_DOT)) != MJS_OK) return res;
+      if ((res = parse_literal(p, &p->tok)) != MJS_OK) return res;
     }
   }
   (void) prev_op;
@@ -12230,7 +12243,7 @@ static mjs_err_t parse_unary(struct pstate *p, int prev_op) {
     pnext1(p);
   }
   if (findtok(s_unary_ops, p->tok.tok) != TOK_EOF) {
-    res = parse_unary(p, prev_op);
+    PARSE_NESTED(p, res, parse_unary(p, prev_op));
   } else {
     res = parse_postfix(p, prev_op);
   }
@@ -12304,7 +12317,8 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     off_if = p->cur_idx;
     emit_init_offset(p);
 
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_ternary(p, TOK_EOF));
+    if (res != MJS_OK) return res;
 
     emit_byte(p, OP_JMP);
     off_else = p->cur_idx;
@@ -12314,7 +12328,8 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     emit_byte(p, OP_DROP);
 
     EXPECT(p, TOK_COLON);
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_ternary(p, TOK_EOF));
+    if (res != MJS_OK) return res;
 
     /*
      * NOTE: if inserting offset causes the code to move, off_endif needs to be
@@ -12731,7 +12746,7 @@ static mjs_err_t parse_return(struct pstate *p) {
   return MJS_OK;
 }
 
-static mjs_err_t parse_statement(struct pstate *p) {
+static mjs_err_t parse_statement_nested(struct pstate *p) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   switch (p->tok.tok) {
     case TOK_SEMICOLON:
@@ -12787,6 +12802,12 @@ static mjs_err_t parse_statement(struct pstate *p) {
   }
 }
 
+static mjs_err_t parse_statement(struct pstate *p) {
+  mjs_err_t res = MJS_OK;
+  PARSE_NESTED(p, res, parse_statement_nested(p));
+  return res;
+}
+
 MJS_PRIVATE mjs_err_t
 mjs_parse(const char *path, const char *buf, struct mjs *mjs) {
   mjs_err_t res = MJS_OK;
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index c305013..f9c2aee 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -114,18 +114,31 @@ static void emit_op(struct pstate *pstate, int tok) {
     return res;                                                                \
   } while (0)
 
-#define PARSE_RTL_BINOP(p, f1, f2, ops, prev_op)        \
-  do {                                                  \
-    mjs_err_t res = MJS_OK;                             \
-    (void) prev_op;                                     \
-    if ((res = f1(p, TOK_EOF)) != MJS_OK) return res;   \
-    if (findtok(ops, p->tok.tok) != TOK_EOF) {          \
-      int op = p->tok.tok;                              \
-      pnext1(p);                                        \
-      if ((res = f2(p, TOK_EOF)) != MJS_OK) return res; \
-      emit_op(p, op);                                   \
-    }                                                   \
-    return res;                                         \
+// Runs `call`, which recurses into the parser, one nesting level deeper.
+#define PARSE_NESTED(p, res, call)                                       \
+  do {                                                                   \
+    if (++p->depth > (STACK_LIMIT / BINOP_STACK_FRAME_SIZE)) {           \
+      mjs_set_errorf(p->mjs, MJS_SYNTAX_ERROR, "parser stack overflow"); \
+      res = MJS_SYNTAX_ERROR;                                            \
+    } else {                                                             \
+      res = call;                                                        \
+    }                                                                    \
+    p->depth--;                                                          \
+  } while (0)
+
+#define PARSE_RTL_BINOP(p, f1, f2, ops, prev_op)      \
+  do {                                                \
+    mjs_err_t res = MJS_OK;                           \
+    (void) prev_op;                                   \
+    if ((res = f1(p, TOK_EOF)) != MJS_OK) return res; \
+    if (findtok(ops, p->tok.tok) != TOK_EOF) {        \
+      int op = p->tok.tok;                            \
+      pnext1(p);                                      \
+      PARSE_NESTED(p, res, f2(p, TOK_EOF));           \
+      if (res != MJS_OK) return res;                  \
+      emit_op(p, op);                                 \
+    }                                                 \
+    return res;                                       \
   } while (0)
 
 #if MJS_INIT_OFFSET_SIZE > 0
@@ -375,7 +388,7 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
-      if ((res = parse_call_dot_mem(p, TOK_DOT)) != MJS_OK) return res;
+      if ((res = parse_literal(p, &p->tok)) != MJS_OK) return res;
     }
   }
   (void) prev_op;
@@ -401,7 +414,7 @@ static mjs_err_t parse_unary(struct pstate *p, int prev_op) {
     pnext1(p);
   }
   if (findtok(s_unary_ops, p->tok.tok) != TOK_EOF) {
-    res = parse_unary(p, prev_op);
+    PARSE_NESTED(p, res, parse_unary(p, prev_op));
   } else {
     res = parse_postfix(p, prev_op);
   }
@@ -475,7 +488,8 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     off_if = p->cur_idx;
     emit_init_offset(p);
 
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_ternary(p, TOK_EOF));
+    if (res != MJS_OK) return res;
 
     emit_byte(p, OP_JMP);
     off_else = p->cur_idx;
@@ -485,7 +499,8 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     emit_byte(p, OP_DROP);
 
     EXPECT(p, TOK_COLON);
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    PARSE_NESTED(p, res, parse_ternary(p, TOK_EOF));
+    if (res != MJS_OK) return res;
 
     /*
      * NOTE: if inserting offset causes the code to move, off_endif needs to be
@@ -902,7 +917,7 @@ static mjs_err_t parse_return(struct pstate *p) {
   return MJS_OK;
 }
 
-static mjs_err_t parse_statement(struct pstate *p) {
+static mjs_err_t parse_statement_nested(struct pstate *p) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   switch (p->tok.tok) {
     case TOK_SEMICOLON:
@@ -958,6 +973,12 @@ static mjs_err_t parse_statement(struct pstate *p) {
   }
 }
 
+static mjs_err_t parse_statement(struct pstate *p) {
+  mjs_err_t res = MJS_OK;
+  PARSE_NESTED(p, res, parse_statement_nested(p));
+  return res;
+}
+
 MJS_PRIVATE mjs_err_t
 mjs_parse(const char *path, const char *buf, struct mjs *mjs) {
   mjs_err_t res = MJS_OK;
-- 
2.43.0


From e7d444848738cf8c6f7af02cffccfca8f77575ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:25 +0000
Subject: [PATCH 11/86] fix: a compound assignment that fails leaves its target
 alone

n += null set n to undefined before the type error was reported.
---
 mjs.c          | 10 +++++-----
 src/mjs_exec.c | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mjs.c b/mjs.c
index ddb6ea7..fb1df1b 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8180,7 +8180,7 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t key = mjs_pop(mjs);
   if (mjs_is_object(obj) && mjs_is_string(key)) {
     mjs_val_t v = do_op(mjs, mjs_get_v(mjs, obj, key), val, op);
-    mjs_set_v(mjs, obj, key, v);
+    if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
@@ -8326,7 +8326,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (mjs_is_object(obj) && mjs_is_string(key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
-        mjs_set_v(mjs, obj, key, v1);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for ++");
@@ -8339,7 +8339,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (mjs_is_object(obj) && mjs_is_string(key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
-        mjs_set_v(mjs, obj, key, v1);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for --");
@@ -8352,7 +8352,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (mjs_is_object(obj) && mjs_is_string(key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
-        mjs_set_v(mjs, obj, key, v);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for --");
@@ -8365,7 +8365,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (mjs_is_object(obj) && mjs_is_string(key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
-        mjs_set_v(mjs, obj, key, v);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for ++");
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 1f625e1..187cfee 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -217,7 +217,7 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t key = mjs_pop(mjs);
   if (mjs_is_object(obj) && mjs_is_string(key)) {
     mjs_val_t v = do_op(mjs, mjs_get_v(mjs, obj, key), val, op);
-    mjs_set_v(mjs, obj, key, v);
+    if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
@@ -363,7 +363,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (mjs_is_object(obj) && mjs_is_string(key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
-        mjs_set_v(mjs, obj, key, v1);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for ++");
@@ -376,7 +376,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (mjs_is_object(obj) && mjs_is_string(key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
-        mjs_set_v(mjs, obj, key, v1);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for --");
@@ -389,7 +389,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (mjs_is_object(obj) && mjs_is_string(key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
-        mjs_set_v(mjs, obj, key, v);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for --");
@@ -402,7 +402,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (mjs_is_object(obj) && mjs_is_string(key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
-        mjs_set_v(mjs, obj, key, v);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for ++");
-- 
2.43.0


From d947a3aa5a579bc863c4dc5f11d1aa19f88c3143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:23 +0000
Subject: [PATCH 12/86] fix: mjs_apply of a native function leaves no stale
 call frame behind

---
 mjs.c          | 42 +++++++++++++++++++++---------------------
 src/mjs_exec.c | 42 +++++++++++++++++++++---------------------
 2 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/mjs.c b/mjs.c
index fb1df1b..83a67cd 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9089,7 +9089,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx, *resp;
+  mjs_val_t r, retval_stack_idx;
   int i;
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -9099,11 +9099,8 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
-  prev_this_val = mjs->vals.this_obj;
-
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
-  resp = vptr(&mjs->stack, -1);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
@@ -9119,29 +9116,32 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   /* Push call stack frame, just like OP_CALL does that */
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
-  if (mjs_is_foreign(func)) {
-    ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
-    if (res != NULL) *res = *resp;
-  } else if (mjs_is_ffi_sig(func)) {
-    mjs_ffi_call2(mjs);
-    if (res != NULL) *res = *resp;
+  if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    if (mjs_is_foreign(func)) {
+      ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
+    } else {
+      mjs_ffi_call2(mjs);
+    }
+    /* Restore the frame; the return value is then on top of the stack */
+    call_stack_restore_frame(mjs);
+    r = mjs_pop(mjs);
+    if (mjs->error != MJS_OK) r = MJS_UNDEFINED;
   } else {
     size_t addr = mjs_get_func_addr(func);
     mjs_execute(mjs, addr, &r);
-    if (res != NULL) *res = r;
-  }
 
-  /*
-   * If there was an error, we need to restore frame and do the cleanup
-   * which is otherwise done by OP_RETURN
-   */
-  if (mjs->error != MJS_OK) {
-    call_stack_restore_frame(mjs);
+    /*
+     * If there was an error, we need to restore frame and do the cleanup
+     * which is otherwise done by OP_RETURN
+     */
+    if (mjs->error != MJS_OK) {
+      call_stack_restore_frame(mjs);
 
-    // Pop cell at which the returned value should've been written
-    mjs_pop(mjs);
+      // Pop cell at which the returned value should've been written
+      mjs_pop(mjs);
+    }
   }
-  mjs->vals.this_obj = prev_this_val;
+  if (res != NULL) *res = r;
 
   return mjs->error;
 }
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 187cfee..696893e 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1137,7 +1137,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx, *resp;
+  mjs_val_t r, retval_stack_idx;
   int i;
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -1147,11 +1147,8 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
-  prev_this_val = mjs->vals.this_obj;
-
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
-  resp = vptr(&mjs->stack, -1);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
@@ -1167,29 +1164,32 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   /* Push call stack frame, just like OP_CALL does that */
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
-  if (mjs_is_foreign(func)) {
-    ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
-    if (res != NULL) *res = *resp;
-  } else if (mjs_is_ffi_sig(func)) {
-    mjs_ffi_call2(mjs);
-    if (res != NULL) *res = *resp;
+  if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    if (mjs_is_foreign(func)) {
+      ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
+    } else {
+      mjs_ffi_call2(mjs);
+    }
+    /* Restore the frame; the return value is then on top of the stack */
+    call_stack_restore_frame(mjs);
+    r = mjs_pop(mjs);
+    if (mjs->error != MJS_OK) r = MJS_UNDEFINED;
   } else {
     size_t addr = mjs_get_func_addr(func);
     mjs_execute(mjs, addr, &r);
-    if (res != NULL) *res = r;
-  }
 
-  /*
-   * If there was an error, we need to restore frame and do the cleanup
-   * which is otherwise done by OP_RETURN
-   */
-  if (mjs->error != MJS_OK) {
-    call_stack_restore_frame(mjs);
+    /*
+     * If there was an error, we need to restore frame and do the cleanup
+     * which is otherwise done by OP_RETURN
+     */
+    if (mjs->error != MJS_OK) {
+      call_stack_restore_frame(mjs);
 
-    // Pop cell at which the returned value should've been written
-    mjs_pop(mjs);
+      // Pop cell at which the returned value should've been written
+      mjs_pop(mjs);
+    }
   }
-  mjs->vals.this_obj = prev_this_val;
+  if (res != NULL) *res = r;
 
   return mjs->error;
 }
-- 
2.43.0


From 81fe58ecaa4713a14afd50c847e7c6d6db759341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:23 +0000
Subject: [PATCH 13/86] fix: an error inside a method restores this

---
 mjs.c          | 6 ++++++
 src/mjs_exec.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mjs.c b/mjs.c
index 83a67cd..60682c0 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8939,6 +8939,12 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
     if (mjs->error != MJS_OK) {
       mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
 
+      /* restore the `this` value of the outermost frame being dropped */
+      if (mjs->call_stack.len > (size_t) call_stack_len) {
+        memcpy(&mjs->vals.this_obj, mjs->call_stack.buf + call_stack_len,
+               sizeof(mjs->vals.this_obj));
+      }
+
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
       mjs->call_stack.len = call_stack_len;
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 696893e..7cf8d0d 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -987,6 +987,12 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
     if (mjs->error != MJS_OK) {
       mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
 
+      /* restore the `this` value of the outermost frame being dropped */
+      if (mjs->call_stack.len > (size_t) call_stack_len) {
+        memcpy(&mjs->vals.this_obj, mjs->call_stack.buf + call_stack_len,
+               sizeof(mjs->vals.this_obj));
+      }
+
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
       mjs->call_stack.len = call_stack_len;
-- 
2.43.0


From fcfe981fcf09d110f086fe2b0d2bb7c2788df4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:23 +0000
Subject: [PATCH 14/86] fix: break and continue do not reach the loops of the
 caller

---
 mjs.c          | 20 ++++++++++++++++++--
 src/mjs_exec.c | 20 ++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 60682c0..1ef2a77 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8051,6 +8051,22 @@ static size_t call_stack_restore_frame(struct mjs *mjs) {
   return return_address;
 }
 
+/*
+ * Returns the number of items in loop_addresses which belong to the current
+ * function; loop_addresses_len is the length at the start of mjs_execute().
+ */
+static size_t loop_addresses_in_frame(struct mjs *mjs,
+                                      size_t loop_addresses_len) {
+  size_t base = loop_addresses_len / sizeof(mjs_val_t);
+  if (mjs_stack_size(&mjs->call_stack) >= CALL_STACK_FRAME_ITEMS_CNT) {
+    size_t frame_base = mjs_get_int(
+        mjs,
+        *vptr(&mjs->call_stack, -1 - CALL_STACK_FRAME_ITEM_LOOP_ADDR_IDX));
+    if (frame_base > base) base = frame_base;
+  }
+  return mjs_stack_size(&mjs->loop_addresses) - base;
+}
+
 static mjs_val_t mjs_find_scope(struct mjs *mjs, mjs_val_t key) {
   size_t num_scopes = mjs_stack_size(&mjs->scopes);
   while (num_scopes > 0) {
@@ -8892,7 +8908,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_CONTINUE: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (loop_addresses_in_frame(mjs, loop_addresses_len) >= 3) {
           size_t scopes_len = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -3));
           assert(mjs_stack_size(&mjs->scopes) >= scopes_len);
           mjs->scopes.len = scopes_len * sizeof(mjs_val_t);
@@ -8904,7 +8920,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         }
       } break;
       case OP_BREAK: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (loop_addresses_in_frame(mjs, loop_addresses_len) >= 3) {
           size_t scopes_len;
           /* drop "continue" address */
           mjs_pop_val(&mjs->loop_addresses);
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 7cf8d0d..09b619a 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -88,6 +88,22 @@ static size_t call_stack_restore_frame(struct mjs *mjs) {
   return return_address;
 }
 
+/*
+ * Returns the number of items in loop_addresses which belong to the current
+ * function; loop_addresses_len is the length at the start of mjs_execute().
+ */
+static size_t loop_addresses_in_frame(struct mjs *mjs,
+                                      size_t loop_addresses_len) {
+  size_t base = loop_addresses_len / sizeof(mjs_val_t);
+  if (mjs_stack_size(&mjs->call_stack) >= CALL_STACK_FRAME_ITEMS_CNT) {
+    size_t frame_base = mjs_get_int(
+        mjs,
+        *vptr(&mjs->call_stack, -1 - CALL_STACK_FRAME_ITEM_LOOP_ADDR_IDX));
+    if (frame_base > base) base = frame_base;
+  }
+  return mjs_stack_size(&mjs->loop_addresses) - base;
+}
+
 static mjs_val_t mjs_find_scope(struct mjs *mjs, mjs_val_t key) {
   size_t num_scopes = mjs_stack_size(&mjs->scopes);
   while (num_scopes > 0) {
@@ -940,7 +956,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_CONTINUE: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (loop_addresses_in_frame(mjs, loop_addresses_len) >= 3) {
           size_t scopes_len = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -3));
           assert(mjs_stack_size(&mjs->scopes) >= scopes_len);
           mjs->scopes.len = scopes_len * sizeof(mjs_val_t);
@@ -952,7 +968,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         }
       } break;
       case OP_BREAK: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (loop_addresses_in_frame(mjs, loop_addresses_len) >= 3) {
           size_t scopes_len;
           /* drop "continue" address */
           mjs_pop_val(&mjs->loop_addresses);
-- 
2.43.0


From a3c2beb93c3fab230bf5f6c9eaf76b433b7e5ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:56 +0000
Subject: [PATCH 15/86] fix: a script run by load() cannot return from the
 function that called it

---
 mjs.c          | 5 ++++-
 src/mjs_exec.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 1ef2a77..d182f83 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8548,6 +8548,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   const uint8_t *code;
 
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
+  size_t start_bp_idx = bp.start_idx;
 
   mjs_set_errorf(mjs, MJS_OK, NULL);
   free(mjs->stack_trace);
@@ -8855,7 +8856,9 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_SETRETVAL: {
-        if (mjs_stack_size(&mjs->call_stack) < CALL_STACK_FRAME_ITEMS_CNT) {
+        /* A script can be run by a function, but cannot return from it */
+        if (start_off == start_bp_idx &&
+            mjs->call_stack.len <= (size_t) call_stack_len) {
           mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "cannot return");
         } else {
           size_t retval_pos = mjs_get_int(
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 09b619a..faaa913 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -585,6 +585,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   const uint8_t *code;
 
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
+  size_t start_bp_idx = bp.start_idx;
 
   mjs_set_errorf(mjs, MJS_OK, NULL);
   free(mjs->stack_trace);
@@ -903,7 +904,9 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_SETRETVAL: {
-        if (mjs_stack_size(&mjs->call_stack) < CALL_STACK_FRAME_ITEMS_CNT) {
+        /* A script can be run by a function, but cannot return from it */
+        if (start_off == start_bp_idx &&
+            mjs->call_stack.len <= (size_t) call_stack_len) {
           mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "cannot return");
         } else {
           size_t retval_pos = mjs_get_int(
-- 
2.43.0


From 24001bbbb675a7d7411d2b94036b2dfd76fcd9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:58 +0000
Subject: [PATCH 16/86] fix: an iterator whose property was deleted ends
 instead of reading a freed cell

---
 mjs.c            | 9 ++++++++-
 src/mjs_object.c | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index d182f83..bec5099 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11710,7 +11710,14 @@ mjs_val_t mjs_next(struct mjs *mjs, mjs_val_t obj, mjs_val_t *iterator) {
     struct mjs_object *o = get_object_struct(obj);
     p = o->properties;
   } else {
-    p = ((struct mjs_property *) get_ptr(*iterator))->next;
+    /*
+     * The property at which the iterator points may have been deleted since
+     * (and its cell reused), so look it up rather than dereference it.
+     */
+    struct mjs_property *cur = (struct mjs_property *) get_ptr(*iterator);
+    p = get_object_struct(obj)->properties;
+    while (p != NULL && p != cur) p = p->next;
+    if (p != NULL) p = p->next;
   }
 
   if (p == NULL) {
diff --git a/src/mjs_object.c b/src/mjs_object.c
index 72db6e2..3c77486 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -252,7 +252,14 @@ mjs_val_t mjs_next(struct mjs *mjs, mjs_val_t obj, mjs_val_t *iterator) {
     struct mjs_object *o = get_object_struct(obj);
     p = o->properties;
   } else {
-    p = ((struct mjs_property *) get_ptr(*iterator))->next;
+    /*
+     * The property at which the iterator points may have been deleted since
+     * (and its cell reused), so look it up rather than dereference it.
+     */
+    struct mjs_property *cur = (struct mjs_property *) get_ptr(*iterator);
+    p = get_object_struct(obj)->properties;
+    while (p != NULL && p != cur) p = p->next;
+    if (p != NULL) p = p->next;
   }
 
   if (p == NULL) {
-- 
2.43.0


From b385ac5ad09604f6fbeb5b9ee94f8447351a9ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:58 +0000
Subject: [PATCH 17/86] fix: mjs_apply of a function without a return statement
 yields undefined

---
 mjs.c          | 2 +-
 src/mjs_exec.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index bec5099..e1fe031 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9125,7 +9125,7 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
   /* Push callable which will be later replaced with the return value */
-  mjs_push(mjs, func);
+  mjs_push(mjs, mjs_is_ffi_sig(func) ? func : MJS_UNDEFINED);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index faaa913..4ad2fea 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1173,7 +1173,7 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
   /* Push callable which will be later replaced with the return value */
-  mjs_push(mjs, func);
+  mjs_push(mjs, mjs_is_ffi_sig(func) ? func : MJS_UNDEFINED);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
-- 
2.43.0


From 2e5720100df57d4fe91d900df52f77cb02366749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:58 +0000
Subject: [PATCH 18/86] fix: a native function that sets no return value yields
 undefined

---
 mjs.c          | 7 ++++++-
 src/mjs_exec.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index e1fe031..eb57c60 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8835,7 +8835,12 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
           call_stack_push_frame(mjs, bp.start_idx + i, retval_stack_idx);
 
           /* Perform the cfunction call */
-          ((void (*) (struct mjs *)) mjs_get_ptr(mjs, *func))(mjs);
+          {
+            void (*cfunc)(struct mjs *) =
+                (void (*) (struct mjs *)) mjs_get_ptr(mjs, *func);
+            *func = MJS_UNDEFINED;  // Return value
+            cfunc(mjs);
+          }
 
           call_stack_restore_frame(mjs);
         } else {
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 4ad2fea..ba6b79f 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -883,7 +883,12 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
           call_stack_push_frame(mjs, bp.start_idx + i, retval_stack_idx);
 
           /* Perform the cfunction call */
-          ((void (*) (struct mjs *)) mjs_get_ptr(mjs, *func))(mjs);
+          {
+            void (*cfunc)(struct mjs *) =
+                (void (*) (struct mjs *)) mjs_get_ptr(mjs, *func);
+            *func = MJS_UNDEFINED;  // Return value
+            cfunc(mjs);
+          }
 
           call_stack_restore_frame(mjs);
         } else {
-- 
2.43.0


From 005990bf3e738cabd0553e6a91aefcdfbf39c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:39 +0000
Subject: [PATCH 19/86] fix: gc() returns its argument intact

---
 mjs.c             | 3 ++-
 src/mjs_builtin.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index eb57c60..5466540 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7360,7 +7360,8 @@ static void mjs_chr(struct mjs *mjs) {
 static void mjs_do_gc(struct mjs *mjs) {
   mjs_val_t arg0 = mjs_arg(mjs, 0);
   mjs_gc(mjs, mjs_is_boolean(arg0) ? mjs_get_bool(mjs, arg0) : 0);
-  mjs_return(mjs, arg0);
+  /* the collection may have moved a string argument: fetch it again */
+  mjs_return(mjs, mjs_arg(mjs, 0));
 }
 
 static void mjs_s2o(struct mjs *mjs) {
diff --git a/src/mjs_builtin.c b/src/mjs_builtin.c
index 6f51e08..27a6e00 100644
--- a/src/mjs_builtin.c
+++ b/src/mjs_builtin.c
@@ -118,7 +118,8 @@ static void mjs_chr(struct mjs *mjs) {
 static void mjs_do_gc(struct mjs *mjs) {
   mjs_val_t arg0 = mjs_arg(mjs, 0);
   mjs_gc(mjs, mjs_is_boolean(arg0) ? mjs_get_bool(mjs, arg0) : 0);
-  mjs_return(mjs, arg0);
+  /* the collection may have moved a string argument: fetch it again */
+  mjs_return(mjs, mjs_arg(mjs, 0));
 }
 
 static void mjs_s2o(struct mjs *mjs) {
-- 
2.43.0


From 275c8a1a96df7ee0db83e64601c58ada07b8a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:32 +0000
Subject: [PATCH 20/86] fix: an error inside a method restores this (before the
 trace unwinds the frames)

---
 mjs.c          | 4 ++--
 src/mjs_exec.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 5466540..dfc869f 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8962,14 +8962,14 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
     }
     if (mjs->error != MJS_OK) {
-      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
-
       /* restore the `this` value of the outermost frame being dropped */
       if (mjs->call_stack.len > (size_t) call_stack_len) {
         memcpy(&mjs->vals.this_obj, mjs->call_stack.buf + call_stack_len,
                sizeof(mjs->vals.this_obj));
       }
 
+      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
       mjs->call_stack.len = call_stack_len;
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index ba6b79f..7273d51 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1009,14 +1009,14 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
     }
     if (mjs->error != MJS_OK) {
-      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
-
       /* restore the `this` value of the outermost frame being dropped */
       if (mjs->call_stack.len > (size_t) call_stack_len) {
         memcpy(&mjs->vals.this_obj, mjs->call_stack.buf + call_stack_len,
                sizeof(mjs->vals.this_obj));
       }
 
+      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
       mjs->call_stack.len = call_stack_len;
-- 
2.43.0


From 5aa725d1705181fc4b552e28ec99ae3355db9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:57 +0000
Subject: [PATCH 21/86] fix: property names with embedded NUL bytes are
 compared in full

---
 mjs.c            | 4 ++--
 src/mjs_object.c | 2 +-
 src/mjs_string.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index dfc869f..a2827f5 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11695,7 +11695,7 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
        prev = prop, prop = prop->next) {
     size_t n;
     const char *s = mjs_get_string(mjs, &prop->name, &n);
-    if (n == len && strncmp(s, name, len) == 0) {
+    if (n == len && memcmp(s, name, len) == 0) {
       if (prev) {
         prev->next = prop->next;
       } else {
@@ -13304,7 +13304,7 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
   if (n != len) {
     return n - len;
   }
-  return strncmp(s, b, len);
+  return memcmp(s, b, len);
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
diff --git a/src/mjs_object.c b/src/mjs_object.c
index 3c77486..f528ed8 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -231,7 +231,7 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
        prev = prop, prop = prop->next) {
     size_t n;
     const char *s = mjs_get_string(mjs, &prop->name, &n);
-    if (n == len && strncmp(s, name, len) == 0) {
+    if (n == len && memcmp(s, name, len) == 0) {
       if (prev) {
         prev->next = prop->next;
       } else {
diff --git a/src/mjs_string.c b/src/mjs_string.c
index b8f9ce1..bfd1af6 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -224,7 +224,7 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
   if (n != len) {
     return n - len;
   }
-  return strncmp(s, b, len);
+  return memcmp(s, b, len);
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
-- 
2.43.0


From cdc1aff92e0d66537d1b13ff597975cece0c998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 22/86] fix: built-in property names are compared with their
 full length

---
 mjs.c          | 20 ++++++++++++--------
 src/mjs_exec.c | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/mjs.c b/mjs.c
index a2827f5..c89562d 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8418,24 +8418,29 @@ static void exec_expr(struct mjs *mjs, int op) {
   }
 }
 
+static int is_name(const char *name, size_t name_len, const char *expected) {
+  return name_len == strlen(expected) && memcmp(name, expected, name_len) == 0;
+}
+
 static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
   int idx = cstr_to_ulong(name, name_len, &isnum);
 
-  if (strcmp(name, "length") == 0) {
+  if (is_name(name, name_len, "length")) {
     size_t val_len;
     mjs_get_string(mjs, &val, &val_len);
     *res = mjs_mk_number(mjs, (double) val_len);
     return 1;
-  } else if (strcmp(name, "at") == 0 || strcmp(name, "charCodeAt") == 0) {
+  } else if (is_name(name, name_len, "at") ||
+             is_name(name, name_len, "charCodeAt")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_char_code_at);
     return 1;
-  } else if (strcmp(name, "indexOf") == 0) {
+  } else if (is_name(name, name_len, "indexOf")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_index_of);
     return 1;
-  } else if (strcmp(name, "slice") == 0) {
+  } else if (is_name(name, name_len, "slice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_slice);
     return 1;
   } else if (isnum) {
@@ -8458,18 +8463,17 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
 static int getprop_builtin_array(struct mjs *mjs, mjs_val_t val,
                                  const char *name, size_t name_len,
                                  mjs_val_t *res) {
-  if (strcmp(name, "splice") == 0) {
+  if (is_name(name, name_len, "splice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_splice);
     return 1;
-  } else if (strcmp(name, "push") == 0) {
+  } else if (is_name(name, name_len, "push")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_push_internal);
     return 1;
-  } else if (strcmp(name, "length") == 0) {
+  } else if (is_name(name, name_len, "length")) {
     *res = mjs_mk_number(mjs, mjs_array_length(mjs, val));
     return 1;
   }
 
-  (void) name_len;
   return 0;
 }
 
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 7273d51..7fa0f68 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -454,24 +454,29 @@ static void exec_expr(struct mjs *mjs, int op) {
   }
 }
 
+static int is_name(const char *name, size_t name_len, const char *expected) {
+  return name_len == strlen(expected) && memcmp(name, expected, name_len) == 0;
+}
+
 static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
   int idx = cstr_to_ulong(name, name_len, &isnum);
 
-  if (strcmp(name, "length") == 0) {
+  if (is_name(name, name_len, "length")) {
     size_t val_len;
     mjs_get_string(mjs, &val, &val_len);
     *res = mjs_mk_number(mjs, (double) val_len);
     return 1;
-  } else if (strcmp(name, "at") == 0 || strcmp(name, "charCodeAt") == 0) {
+  } else if (is_name(name, name_len, "at") ||
+             is_name(name, name_len, "charCodeAt")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_char_code_at);
     return 1;
-  } else if (strcmp(name, "indexOf") == 0) {
+  } else if (is_name(name, name_len, "indexOf")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_index_of);
     return 1;
-  } else if (strcmp(name, "slice") == 0) {
+  } else if (is_name(name, name_len, "slice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_slice);
     return 1;
   } else if (isnum) {
@@ -494,18 +499,17 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
 static int getprop_builtin_array(struct mjs *mjs, mjs_val_t val,
                                  const char *name, size_t name_len,
                                  mjs_val_t *res) {
-  if (strcmp(name, "splice") == 0) {
+  if (is_name(name, name_len, "splice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_splice);
     return 1;
-  } else if (strcmp(name, "push") == 0) {
+  } else if (is_name(name, name_len, "push")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_push_internal);
     return 1;
-  } else if (strcmp(name, "length") == 0) {
+  } else if (is_name(name, name_len, "length")) {
     *res = mjs_mk_number(mjs, mjs_array_length(mjs, val));
     return 1;
   }
 
-  (void) name_len;
   return 0;
 }
 
-- 
2.43.0


From 5afc7104339b334789f1e7c5f220b149abce8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:45 +0000
Subject: [PATCH 23/86] fix: only canonical decimal names are array and string
 indices

---
 mjs.c            | 23 +++++++++++++++++------
 src/mjs_exec.c   |  8 +++++---
 src/mjs_string.c | 15 ++++++++++++---
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/mjs.c b/mjs.c
index c89562d..5475cbb 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8426,7 +8426,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
   if (is_name(name, name_len, "length")) {
     size_t val_len;
@@ -8450,7 +8450,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx >= 0 && idx < (int) val_len) {
+    if (idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
@@ -8481,7 +8481,9 @@ static int getprop_builtin_foreign(struct mjs *mjs, mjs_val_t val,
                                    const char *name, size_t name_len,
                                    mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  int neg = name_len > 1 && name[0] == '-';
+  int idx = cstr_to_ulong(name + neg, name_len - neg, &isnum);
+  if (neg) idx = -idx;
 
   if (!isnum) {
     mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "index must be a number");
@@ -13312,9 +13314,18 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
-  char *e;
-  unsigned long res = strtoul(s, &e, 10);
-  *ok = (e == s + len) && len != 0;
+  /* Array indices are canonical decimal numbers; `s` needs no terminator */
+  unsigned long res = 0;
+  size_t i;
+  *ok = len != 0 && (s[0] != '0' || len == 1);
+  for (i = 0; i < len && *ok; i++) {
+    unsigned long digit = (unsigned long) s[i] - '0';
+    if (s[i] < '0' || s[i] > '9' || res > (ULONG_MAX - digit) / 10) {
+      *ok = 0;
+    } else {
+      res = res * 10 + digit;
+    }
+  }
   return res;
 }
 
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 7fa0f68..147f849 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -462,7 +462,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
   if (is_name(name, name_len, "length")) {
     size_t val_len;
@@ -486,7 +486,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx >= 0 && idx < (int) val_len) {
+    if (idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
@@ -517,7 +517,9 @@ static int getprop_builtin_foreign(struct mjs *mjs, mjs_val_t val,
                                    const char *name, size_t name_len,
                                    mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  int neg = name_len > 1 && name[0] == '-';
+  int idx = cstr_to_ulong(name + neg, name_len - neg, &isnum);
+  if (neg) idx = -idx;
 
   if (!isnum) {
     mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "index must be a number");
diff --git a/src/mjs_string.c b/src/mjs_string.c
index bfd1af6..ebc2d36 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -228,9 +228,18 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
-  char *e;
-  unsigned long res = strtoul(s, &e, 10);
-  *ok = (e == s + len) && len != 0;
+  /* Array indices are canonical decimal numbers; `s` needs no terminator */
+  unsigned long res = 0;
+  size_t i;
+  *ok = len != 0 && (s[0] != '0' || len == 1);
+  for (i = 0; i < len && *ok; i++) {
+    unsigned long digit = (unsigned long) s[i] - '0';
+    if (s[i] < '0' || s[i] > '9' || res > (ULONG_MAX - digit) / 10) {
+      *ok = 0;
+    } else {
+      res = res * 10 + digit;
+    }
+  }
   return res;
 }
 
-- 
2.43.0


From 7ccc8f998e323b95af4d561f15ac1647a6bd155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:45 +0000
Subject: [PATCH 24/86] fix: a short foreign string works as a property name

---
 mjs.c            | 5 +++--
 src/mjs_object.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 5475cbb..d29dfc3 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11658,9 +11658,10 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
 
     /*
      * name_v might be not a string here. In this case, we need to create a new
-     * `name_v`, which will be a string.
+     * `name_v`, which will be a string. Short names are looked up by value, so
+     * a short foreign string has to be replaced by an inlined one.
      */
-    if (!mjs_is_string(name_v)) {
+    if (!mjs_is_string(name_v) || name_len <= 5) {
       name_v = mjs_mk_string(mjs, name, name_len, 1);
     }
 
diff --git a/src/mjs_object.c b/src/mjs_object.c
index f528ed8..85c9f1b 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -188,9 +188,10 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
 
     /*
      * name_v might be not a string here. In this case, we need to create a new
-     * `name_v`, which will be a string.
+     * `name_v`, which will be a string. Short names are looked up by value, so
+     * a short foreign string has to be replaced by an inlined one.
      */
-    if (!mjs_is_string(name_v)) {
+    if (!mjs_is_string(name_v) || name_len <= 5) {
       name_v = mjs_mk_string(mjs, name, name_len, 1);
     }
 
-- 
2.43.0


From 287dae90e80094484906df8ea44e5749e162869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:45 +0000
Subject: [PATCH 25/86] fix: setting a property of a non-object does not leak
 the converted name

---
 mjs.c            | 3 ++-
 src/mjs_object.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index d29dfc3..99be67a 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11653,7 +11653,8 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
   if (p == NULL) {
     struct mjs_object *o;
     if (!mjs_is_object(obj)) {
-      return MJS_REFERENCE_ERROR;
+      rcode = MJS_REFERENCE_ERROR;
+      goto clean;
     }
 
     /*
diff --git a/src/mjs_object.c b/src/mjs_object.c
index 85c9f1b..9438608 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -183,7 +183,8 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
   if (p == NULL) {
     struct mjs_object *o;
     if (!mjs_is_object(obj)) {
-      return MJS_REFERENCE_ERROR;
+      rcode = MJS_REFERENCE_ERROR;
+      goto clean;
     }
 
     /*
-- 
2.43.0


From a922cae8e4b7cd6c9e3c4461eeab394133514f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:46 +0000
Subject: [PATCH 26/86] fix: a cyclic prototype chain does not recurse without
 bound

---
 mjs.c            | 15 ++++++++++++---
 src/mjs_object.c | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index 99be67a..2b83fa1 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11609,9 +11609,18 @@ mjs_val_t mjs_get_v(struct mjs *mjs, mjs_val_t obj, mjs_val_t name) {
 mjs_val_t mjs_get_v_proto(struct mjs *mjs, mjs_val_t obj, mjs_val_t key) {
   struct mjs_property *p;
   mjs_val_t pn = mjs_mk_string(mjs, MJS_PROTO_PROP_NAME, ~0, 1);
-  if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
-  if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) return MJS_UNDEFINED;
-  return mjs_get_v_proto(mjs, p->value, key);
+  mjs_val_t mark = MJS_UNDEFINED;
+  unsigned long steps = 0;
+  for (;;) {
+    if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
+    if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) break;
+    obj = p->value;
+    /* Remember an object now and then, to notice a cyclic prototype chain */
+    if (obj == mark) break;
+    if ((steps & (steps + 1)) == 0) mark = obj;
+    steps++;
+  }
+  return MJS_UNDEFINED;
 }
 
 mjs_err_t mjs_set(struct mjs *mjs, mjs_val_t obj, const char *name,
diff --git a/src/mjs_object.c b/src/mjs_object.c
index 9438608..9d4004d 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -139,9 +139,18 @@ mjs_val_t mjs_get_v(struct mjs *mjs, mjs_val_t obj, mjs_val_t name) {
 mjs_val_t mjs_get_v_proto(struct mjs *mjs, mjs_val_t obj, mjs_val_t key) {
   struct mjs_property *p;
   mjs_val_t pn = mjs_mk_string(mjs, MJS_PROTO_PROP_NAME, ~0, 1);
-  if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
-  if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) return MJS_UNDEFINED;
-  return mjs_get_v_proto(mjs, p->value, key);
+  mjs_val_t mark = MJS_UNDEFINED;
+  unsigned long steps = 0;
+  for (;;) {
+    if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
+    if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) break;
+    obj = p->value;
+    /* Remember an object now and then, to notice a cyclic prototype chain */
+    if (obj == mark) break;
+    if ((steps & (steps + 1)) == 0) mark = obj;
+    steps++;
+  }
+  return MJS_UNDEFINED;
 }
 
 mjs_err_t mjs_set(struct mjs *mjs, mjs_val_t obj, const char *name,
-- 
2.43.0


From b7860b7e1b6b6260036932c38f2b0a8972d8de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 27/86] fix: escape sequences in quoted object literal keys are
 interpreted

---
 mjs.c            | 23 +++++++++++++++--------
 src/mjs_parser.c | 23 +++++++++++++++--------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/mjs.c b/mjs.c
index 2b83fa1..07ba12c 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12130,6 +12130,13 @@ static mjs_err_t parse_function(struct pstate *p) {
   return res;
 }
 
+static void emit_str_literal(struct pstate *p, const struct tok *t) {
+  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
+  size_t oldlen = bcode_gen->len;
+  embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
+  p->cur_idx += bcode_gen->len - oldlen;
+}
+
 static mjs_err_t parse_object_literal(struct pstate *p) {
   mjs_err_t res = MJS_OK;
   EXPECT(p, TOK_OPEN_CURLY);
@@ -12138,7 +12145,11 @@ static mjs_err_t parse_object_literal(struct pstate *p) {
     if (p->tok.tok != TOK_IDENT && p->tok.tok != TOK_STR) SYNTAX_ERROR(p);
     emit_byte(p, OP_DUP);
     emit_byte(p, OP_PUSH_STR);
-    emit_str(p, p->tok.ptr, p->tok.len);
+    if (p->tok.tok == TOK_STR) {
+      emit_str_literal(p, &p->tok);
+    } else {
+      emit_str(p, p->tok.ptr, p->tok.len);
+    }
     emit_byte(p, OP_SWAP);
     pnext1(p);
     EXPECT(p, TOK_COLON);
@@ -12168,7 +12179,6 @@ static mjs_err_t parse_array_literal(struct pstate *p) {
 }
 
 static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
-  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
   enum mjs_err res = MJS_OK;
   int tok = t->tok;
   LOG(LL_VERBOSE_DEBUG, ("[%.*s] %p", p->tok.len, p->tok.ptr, (void *) &t));
@@ -12213,13 +12223,10 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       }
       break;
     }
-    case TOK_STR: {
-      size_t oldlen;
+    case TOK_STR:
       emit_byte(p, OP_PUSH_STR);
-      oldlen = bcode_gen->len;
-      embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
-      p->cur_idx += bcode_gen->len - oldlen;
-    } break;
+      emit_str_literal(p, t);
+      break;
     case TOK_OPEN_BRACKET:
       res = parse_array_literal(p);
       break;
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index f9c2aee..e106b87 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -246,6 +246,13 @@ static mjs_err_t parse_function(struct pstate *p) {
   return res;
 }
 
+static void emit_str_literal(struct pstate *p, const struct tok *t) {
+  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
+  size_t oldlen = bcode_gen->len;
+  embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
+  p->cur_idx += bcode_gen->len - oldlen;
+}
+
 static mjs_err_t parse_object_literal(struct pstate *p) {
   mjs_err_t res = MJS_OK;
   EXPECT(p, TOK_OPEN_CURLY);
@@ -254,7 +261,11 @@ static mjs_err_t parse_object_literal(struct pstate *p) {
     if (p->tok.tok != TOK_IDENT && p->tok.tok != TOK_STR) SYNTAX_ERROR(p);
     emit_byte(p, OP_DUP);
     emit_byte(p, OP_PUSH_STR);
-    emit_str(p, p->tok.ptr, p->tok.len);
+    if (p->tok.tok == TOK_STR) {
+      emit_str_literal(p, &p->tok);
+    } else {
+      emit_str(p, p->tok.ptr, p->tok.len);
+    }
     emit_byte(p, OP_SWAP);
     pnext1(p);
     EXPECT(p, TOK_COLON);
@@ -284,7 +295,6 @@ static mjs_err_t parse_array_literal(struct pstate *p) {
 }
 
 static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
-  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
   enum mjs_err res = MJS_OK;
   int tok = t->tok;
   LOG(LL_VERBOSE_DEBUG, ("[%.*s] %p", p->tok.len, p->tok.ptr, (void *) &t));
@@ -329,13 +339,10 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       }
       break;
     }
-    case TOK_STR: {
-      size_t oldlen;
+    case TOK_STR:
       emit_byte(p, OP_PUSH_STR);
-      oldlen = bcode_gen->len;
-      embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
-      p->cur_idx += bcode_gen->len - oldlen;
-    } break;
+      emit_str_literal(p, t);
+      break;
     case TOK_OPEN_BRACKET:
       res = parse_array_literal(p);
       break;
-- 
2.43.0


From ae0cd6bd448c81d5d7b408658836a6820364430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 28/86] fix: integer literals of 2^63 and above keep their
 value

---
 mjs.c            | 2 +-
 src/mjs_parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 07ba12c..f3d8a5e 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12214,7 +12214,7 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       if (t->ptr[0] == '0' && t->ptr[1] == 'x') {
         d = strtoul(t->ptr + 2, NULL, 16);
       }
-      if (modf(d, &iv) == 0) {
+      if (modf(d, &iv) == 0 && d < 9223372036854775808.0 /* 2^63 */) {
         emit_byte(p, OP_PUSH_INT);
         emit_int(p, (int64_t) d);
       } else {
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index e106b87..8d69fd1 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -330,7 +330,7 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       if (t->ptr[0] == '0' && t->ptr[1] == 'x') {
         d = strtoul(t->ptr + 2, NULL, 16);
       }
-      if (modf(d, &iv) == 0) {
+      if (modf(d, &iv) == 0 && d < 9223372036854775808.0 /* 2^63 */) {
         emit_byte(p, OP_PUSH_INT);
         emit_int(p, (int64_t) d);
       } else {
-- 
2.43.0


From e33e3adaff7b662618ce15da5dc0335af345aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:43 +0000
Subject: [PATCH 29/86] fix: JSON keys that are empty, end in a dot or make a
 long path keep their value

---
 mjs.c               | 9 +++++----
 src/frozen/frozen.c | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/mjs.c b/mjs.c
index f3d8a5e..008bb88 100644
--- a/mjs.c
+++ b/mjs.c
@@ -4908,6 +4908,7 @@ struct frozen {
   /* For callback API */
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
+  int in_key; /* Parsing an object key: no callback */
   void *callback_data;
   json_walk_callback_t callback;
 };
@@ -4923,8 +4924,7 @@ struct fstate {
 
 #define CALL_BACK(fr, tok, value, len)                                        \
   do {                                                                        \
-    if ((fr)->callback &&                                                     \
-        ((fr)->path_len == 0 || (fr)->path[(fr)->path_len - 1] != '.')) {     \
+    if ((fr)->callback && !(fr)->in_key) {                                    \
       struct json_token t = {(value), (int) (len), (tok)};                    \
                                                                               \
       /* Call the callback with the given value and current name */           \
@@ -5129,8 +5129,7 @@ static int json_parse_array(struct frozen *f) {
         snprintf(buf, sizeof(buf), "[%d]", i);
         i++;
         current_path_len = json_append_to_path(f, buf, strlen(buf));
-        f->cur_name =
-            f->path + strlen(f->path) - strlen(buf) + 1 /*opening brace*/;
+        f->cur_name = buf + 1 /*opening brace*/;
         f->cur_name_len = strlen(buf) - 2 /*braces*/;
         TRY(json_parse_value(f));
         json_truncate_path(f, current_path_len);
@@ -5225,7 +5224,9 @@ static int json_parse_pair(struct frozen *f) {
   const char *tok;
   json_skip_whitespaces(f);
   tok = f->cur;
+  f->in_key = 1;
   TRY(json_parse_key(f));
+  f->in_key = 0;
   {
     f->cur_name = *tok == '"' ? tok + 1 : tok;
     f->cur_name_len = *tok == '"' ? f->cur - tok - 2 : f->cur - tok;
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 06f3389..2a5dc10 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -82,6 +82,7 @@ struct frozen {
   /* For callback API */
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
+  int in_key; /* Parsing an object key: no callback */
   void *callback_data;
   json_walk_callback_t callback;
 };
@@ -97,8 +98,7 @@ struct fstate {
 
 #define CALL_BACK(fr, tok, value, len)                                        \
   do {                                                                        \
-    if ((fr)->callback &&                                                     \
-        ((fr)->path_len == 0 || (fr)->path[(fr)->path_len - 1] != '.')) {     \
+    if ((fr)->callback && !(fr)->in_key) {                                    \
       struct json_token t = {(value), (int) (len), (tok)};                    \
                                                                               \
       /* Call the callback with the given value and current name */           \
@@ -303,8 +303,7 @@ static int json_parse_array(struct frozen *f) {
         snprintf(buf, sizeof(buf), "[%d]", i);
         i++;
         current_path_len = json_append_to_path(f, buf, strlen(buf));
-        f->cur_name =
-            f->path + strlen(f->path) - strlen(buf) + 1 /*opening brace*/;
+        f->cur_name = buf + 1 /*opening brace*/;
         f->cur_name_len = strlen(buf) - 2 /*braces*/;
         TRY(json_parse_value(f));
         json_truncate_path(f, current_path_len);
@@ -399,7 +398,9 @@ static int json_parse_pair(struct frozen *f) {
   const char *tok;
   json_skip_whitespaces(f);
   tok = f->cur;
+  f->in_key = 1;
   TRY(json_parse_key(f));
+  f->in_key = 0;
   {
     f->cur_name = *tok == '"' ? tok + 1 : tok;
     f->cur_name_len = *tok == '"' ? f->cur - tok - 2 : f->cur - tok;
-- 
2.43.0


From 466380899dae97103f1a665ed16b216ae6c3f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 30/86] fix: JSON.parse does not read past its text nor leak a
 rejected string

---
 mjs.c          | 9 +++++----
 src/mjs_json.c | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/mjs.c b/mjs.c
index 008bb88..ef6458b 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11239,10 +11239,10 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
       if (token->len > 0 && (dst = malloc(token->len)) != NULL) {
         int len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
-          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
-          break;
+          ctx->rcode = MJS_TYPE_ERROR;
+        } else {
+          v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
         }
-        v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
         free(dst);
       } else {
         /*
@@ -11342,8 +11342,9 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len);
+    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
+    stmp[len] = '\0'; /* strtod() in frozen_cb must stop there */
     json_res = json_walk(stmp, len, frozen_cb, ctx);
     free(stmp);
     stmp = NULL;
diff --git a/src/mjs_json.c b/src/mjs_json.c
index eeb2ea3..18a5733 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -342,10 +342,10 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
       if (token->len > 0 && (dst = malloc(token->len)) != NULL) {
         int len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
-          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
-          break;
+          ctx->rcode = MJS_TYPE_ERROR;
+        } else {
+          v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
         }
-        v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
         free(dst);
       } else {
         /*
@@ -445,8 +445,9 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len);
+    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
+    stmp[len] = '\0'; /* strtod() in frozen_cb must stop there */
     json_res = json_walk(stmp, len, frozen_cb, ctx);
     free(stmp);
     stmp = NULL;
-- 
2.43.0


From 7e7b8415d0a58c5f1f99949b8eff8f43266e8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:29 +0000
Subject: [PATCH 31/86] fix: JSON.parse accepts empty keys and unescapes keys

---
 mjs.c          | 15 ++++++++++-----
 src/mjs_json.c | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/mjs.c b/mjs.c
index ef6458b..cde1e9c 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11284,10 +11284,17 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
   }
 
   if (!mjs_is_undefined(v)) {
-    if (name != NULL && name_len != 0) {
+    if (ctx->frame != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
-        mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
+        char *key = (char *) malloc(name_len + 1);
+        int key_len = json_unescape(name, name_len, key, name_len);
+        if (key_len < 0) {
+          ctx->rcode = MJS_TYPE_ERROR;
+        } else {
+          mjs_set(ctx->mjs, ctx->frame->val, key, key_len, v);
+        }
+        free(key);
       } else if (mjs_is_array(ctx->frame->val)) {
         /*
          * TODO(dfrank): consult name_len. Currently it's not a problem due to
@@ -11299,10 +11306,8 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         LOG(LL_ERROR, ("Current value is neither object nor array\n"));
       }
     } else {
-      /* This is a root value */
-      assert(ctx->frame == NULL);
-
       /*
+       * This is a root value.
        * This value will also be the overall result of JSON parsing
        * (it's already owned by the `mjs_alt_json_parse()`)
        */
diff --git a/src/mjs_json.c b/src/mjs_json.c
index 18a5733..0b74f64 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -387,10 +387,17 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
   }
 
   if (!mjs_is_undefined(v)) {
-    if (name != NULL && name_len != 0) {
+    if (ctx->frame != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
-        mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
+        char *key = (char *) malloc(name_len + 1);
+        int key_len = json_unescape(name, name_len, key, name_len);
+        if (key_len < 0) {
+          ctx->rcode = MJS_TYPE_ERROR;
+        } else {
+          mjs_set(ctx->mjs, ctx->frame->val, key, key_len, v);
+        }
+        free(key);
       } else if (mjs_is_array(ctx->frame->val)) {
         /*
          * TODO(dfrank): consult name_len. Currently it's not a problem due to
@@ -402,10 +409,8 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         LOG(LL_ERROR, ("Current value is neither object nor array\n"));
       }
     } else {
-      /* This is a root value */
-      assert(ctx->frame == NULL);
-
       /*
+       * This is a root value.
        * This value will also be the overall result of JSON parsing
        * (it's already owned by the `mjs_alt_json_parse()`)
        */
-- 
2.43.0


From fc83020f3c07e016e5a367e9a20fc0a501f90fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:05 +0000
Subject: [PATCH 32/86] fix: an out-of-range or negative string subscript
 yields undefined

---
 mjs.c            | 9 ++++++---
 src/mjs_exec.c   | 5 +++--
 src/mjs_string.c | 4 +++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index cde1e9c..57b339d 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8427,7 +8427,8 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
+  int neg = name_len > 1 && name[0] == '-';
+  unsigned long idx = cstr_to_ulong(name + neg, name_len - neg, &isnum);
 
   if (is_name(name, name_len, "length")) {
     size_t val_len;
@@ -8451,7 +8452,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx < val_len) {
+    if (!neg && idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
@@ -13345,8 +13346,10 @@ MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
   *ok = len != 0 && (s[0] != '0' || len == 1);
   for (i = 0; i < len && *ok; i++) {
     unsigned long digit = (unsigned long) s[i] - '0';
-    if (s[i] < '0' || s[i] > '9' || res > (ULONG_MAX - digit) / 10) {
+    if (s[i] < '0' || s[i] > '9') {
       *ok = 0;
+    } else if (res > (ULONG_MAX - digit) / 10) {
+      res = ULONG_MAX; /* Out of range, like strtoul() */
     } else {
       res = res * 10 + digit;
     }
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 147f849..5b3bebd 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -462,7 +462,8 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
+  int neg = name_len > 1 && name[0] == '-';
+  unsigned long idx = cstr_to_ulong(name + neg, name_len - neg, &isnum);
 
   if (is_name(name, name_len, "length")) {
     size_t val_len;
@@ -486,7 +487,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx < val_len) {
+    if (!neg && idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
diff --git a/src/mjs_string.c b/src/mjs_string.c
index ebc2d36..ac8f24e 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -234,8 +234,10 @@ MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
   *ok = len != 0 && (s[0] != '0' || len == 1);
   for (i = 0; i < len && *ok; i++) {
     unsigned long digit = (unsigned long) s[i] - '0';
-    if (s[i] < '0' || s[i] > '9' || res > (ULONG_MAX - digit) / 10) {
+    if (s[i] < '0' || s[i] > '9') {
       *ok = 0;
+    } else if (res > (ULONG_MAX - digit) / 10) {
+      res = ULONG_MAX; /* Out of range, like strtoul() */
     } else {
       res = res * 10 + digit;
     }
-- 
2.43.0


From d7241e26ba77af25f09ea3f2411c16ff4cfe454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:05 +0000
Subject: [PATCH 33/86] fix: JSON.parse rejects text after the value

---
 mjs.c          | 5 +++++
 src/mjs_json.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/mjs.c b/mjs.c
index 57b339d..01c49cb 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11352,6 +11352,11 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
     memcpy(stmp, str, len);
     stmp[len] = '\0'; /* strtod() in frozen_cb must stop there */
     json_res = json_walk(stmp, len, frozen_cb, ctx);
+    /* Only whitespace may follow the value */
+    if (json_res >= 0 &&
+        strspn(stmp + json_res, " \t\r\n") != len - (size_t) json_res) {
+      json_res = JSON_STRING_INVALID;
+    }
     free(stmp);
     stmp = NULL;
 
diff --git a/src/mjs_json.c b/src/mjs_json.c
index 0b74f64..00be2a4 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -454,6 +454,11 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
     memcpy(stmp, str, len);
     stmp[len] = '\0'; /* strtod() in frozen_cb must stop there */
     json_res = json_walk(stmp, len, frozen_cb, ctx);
+    /* Only whitespace may follow the value */
+    if (json_res >= 0 &&
+        strspn(stmp + json_res, " \t\r\n") != len - (size_t) json_res) {
+      json_res = JSON_STRING_INVALID;
+    }
     free(stmp);
     stmp = NULL;
 
-- 
2.43.0


From 86dfee9bba637044eea25c134a67b6078df12b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:22 +0000
Subject: [PATCH 34/86] fix: deeply nested JSON is rejected instead of
 overflowing the stack

---
 mjs.c               | 12 ++++++++++++
 src/frozen/frozen.c |  7 +++++++
 src/frozen/frozen.h |  5 +++++
 3 files changed, 24 insertions(+)

diff --git a/mjs.c b/mjs.c
index 01c49cb..a352cd1 100644
--- a/mjs.c
+++ b/mjs.c
@@ -2513,6 +2513,11 @@ void *json_next_elem(const char *s, int len, void *handle, const char *path,
 #define JSON_MAX_PATH_LEN 256
 #endif
 
+/* Objects and arrays nested deeper than that are rejected */
+#ifndef JSON_MAX_DEPTH
+#define JSON_MAX_DEPTH 512
+#endif
+
 #ifndef JSON_MINIMAL
 #define JSON_MINIMAL 0
 #endif
@@ -4909,6 +4914,7 @@ struct frozen {
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
   int in_key; /* Parsing an object key: no callback */
+  int depth;  /* Number of objects and arrays being parsed */
   void *callback_data;
   json_walk_callback_t callback;
 };
@@ -5169,11 +5175,17 @@ static int json_parse_value(struct frozen *f) {
       TRY(json_parse_string(f));
       break;
     case '{':
+      EXPECT(f->depth < JSON_MAX_DEPTH, JSON_STRING_INVALID);
+      f->depth++;
       TRY(json_parse_object(f));
+      f->depth--;
       break;
 #if JSON_ENABLE_ARRAY
     case '[':
+      EXPECT(f->depth < JSON_MAX_DEPTH, JSON_STRING_INVALID);
+      f->depth++;
       TRY(json_parse_array(f));
+      f->depth--;
       break;
 #endif
     case 'n':
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 2a5dc10..422fc88 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -83,6 +83,7 @@ struct frozen {
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
   int in_key; /* Parsing an object key: no callback */
+  int depth;  /* Number of objects and arrays being parsed */
   void *callback_data;
   json_walk_callback_t callback;
 };
@@ -343,11 +344,17 @@ static int json_parse_value(struct frozen *f) {
       TRY(json_parse_string(f));
       break;
     case '{':
+      EXPECT(f->depth < JSON_MAX_DEPTH, JSON_STRING_INVALID);
+      f->depth++;
       TRY(json_parse_object(f));
+      f->depth--;
       break;
 #if JSON_ENABLE_ARRAY
     case '[':
+      EXPECT(f->depth < JSON_MAX_DEPTH, JSON_STRING_INVALID);
+      f->depth++;
       TRY(json_parse_array(f));
+      f->depth--;
       break;
 #endif
     case 'n':
diff --git a/src/frozen/frozen.h b/src/frozen/frozen.h
index 97643be..35101df 100644
--- a/src/frozen/frozen.h
+++ b/src/frozen/frozen.h
@@ -310,6 +310,11 @@ void *json_next_elem(const char *s, int len, void *handle, const char *path,
 #define JSON_MAX_PATH_LEN 256
 #endif
 
+/* Objects and arrays nested deeper than that are rejected */
+#ifndef JSON_MAX_DEPTH
+#define JSON_MAX_DEPTH 512
+#endif
+
 #ifndef JSON_MINIMAL
 #define JSON_MINIMAL 0
 #endif
-- 
2.43.0


From 9df189baa0a34234b64acfec1ac00772a46f1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:02 +0000
Subject: [PATCH 35/86] fix: integers of 2^63 and above are printed with their
 value

---
 mjs.c          | 4 +++-
 src/mjs_util.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index a352cd1..886aac2 100644
--- a/mjs.c
+++ b/mjs.c
@@ -14036,7 +14036,9 @@ MJS_PRIVATE const char *mjs_stringify_type(enum mjs_type t) {
 void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
   if (mjs_is_number(v)) {
     double iv, d = mjs_get_double(mjs, v);
-    if (modf(d, &iv) == 0) {
+    if (fabs(d) >= 9223372036854775808.0) { /* Does not fit in int64_t */
+      json_printf(out, "%.17g", d);
+    } else if (modf(d, &iv) == 0) {
       json_printf(out, "%" INT64_FMT, (int64_t) d);
     } else {
       json_printf(out, "%f", mjs_get_double(mjs, v));
diff --git a/src/mjs_util.c b/src/mjs_util.c
index b14a18d..602974b 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -47,7 +47,9 @@ MJS_PRIVATE const char *mjs_stringify_type(enum mjs_type t) {
 void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
   if (mjs_is_number(v)) {
     double iv, d = mjs_get_double(mjs, v);
-    if (modf(d, &iv) == 0) {
+    if (fabs(d) >= 9223372036854775808.0) { /* Does not fit in int64_t */
+      json_printf(out, "%.17g", d);
+    } else if (modf(d, &iv) == 0) {
       json_printf(out, "%" INT64_FMT, (int64_t) d);
     } else {
       json_printf(out, "%f", mjs_get_double(mjs, v));
-- 
2.43.0


From 811a1b6c2ab2b233c5787bce0ce176878b652200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:02 +0000
Subject: [PATCH 36/86] fix: JSON.stringify escapes property names and the
 vertical tab

---
 mjs.c          | 12 +++++++-----
 src/mjs_json.c | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/mjs.c b/mjs.c
index 886aac2..c493aaf 100644
--- a/mjs.c
+++ b/mjs.c
@@ -10977,11 +10977,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
    * 0x8 -> \b
    * 0x9 -> \t
    * 0xa -> \n
-   * 0xb -> \v
    * 0xc -> \f
    * 0xd -> \r
+   *
+   * There is no escape for 0xb in JSON, it becomes \u000b.
    */
-  const char *specials = "btnvfr";
+  const char *specials = "btn\0fr";
   size_t i = 0;
 
   i++;
@@ -10991,12 +10992,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
     if (*s == '"' || *s == '\\') {
       i++;
       if (buf < limit) *buf++ = '\\';
-    } else if (*s >= '\b' && *s <= '\r') {
+    } else if (*s >= '\b' && *s <= '\r' && *s != '\v') {
       i += 2;
       if (buf < limit) *buf++ = '\\';
       if (buf < limit) *buf++ = specials[*s - '\b'];
       continue;
-    } else if ((unsigned char) *s < '\b' || (*s > '\r' && *s < ' ')) {
+    } else if ((unsigned char) *s < ' ') {
       i += 6 /* \uXXXX */;
       if (buf < limit) *buf++ = '\\';
       buf = append_hex(buf, limit, (uint8_t) *s);
@@ -11097,7 +11098,8 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
           b += c_snprintf(b, BUF_LEFT(size, b - buf), ",");
         }
         s = mjs_get_string(mjs, &prop->name, &n);
-        b += c_snprintf(b, BUF_LEFT(size, b - buf), "\"%.*s\":", (int) n, s);
+        b += snquote(b, BUF_LEFT(size, b - buf), s, n);
+        b += c_snprintf(b, BUF_LEFT(size, b - buf), ":");
         {
           size_t tmp = 0;
           rcode = to_json_or_debug(mjs, prop->value, b, BUF_LEFT(size, b - buf),
diff --git a/src/mjs_json.c b/src/mjs_json.c
index 00be2a4..7ef4f7b 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -67,11 +67,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
    * 0x8 -> \b
    * 0x9 -> \t
    * 0xa -> \n
-   * 0xb -> \v
    * 0xc -> \f
    * 0xd -> \r
+   *
+   * There is no escape for 0xb in JSON, it becomes \u000b.
    */
-  const char *specials = "btnvfr";
+  const char *specials = "btn\0fr";
   size_t i = 0;
 
   i++;
@@ -81,12 +82,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
     if (*s == '"' || *s == '\\') {
       i++;
       if (buf < limit) *buf++ = '\\';
-    } else if (*s >= '\b' && *s <= '\r') {
+    } else if (*s >= '\b' && *s <= '\r' && *s != '\v') {
       i += 2;
       if (buf < limit) *buf++ = '\\';
       if (buf < limit) *buf++ = specials[*s - '\b'];
       continue;
-    } else if ((unsigned char) *s < '\b' || (*s > '\r' && *s < ' ')) {
+    } else if ((unsigned char) *s < ' ') {
       i += 6 /* \uXXXX */;
       if (buf < limit) *buf++ = '\\';
       buf = append_hex(buf, limit, (uint8_t) *s);
@@ -187,7 +188,8 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
           b += c_snprintf(b, BUF_LEFT(size, b - buf), ",");
         }
         s = mjs_get_string(mjs, &prop->name, &n);
-        b += c_snprintf(b, BUF_LEFT(size, b - buf), "\"%.*s\":", (int) n, s);
+        b += snquote(b, BUF_LEFT(size, b - buf), s, n);
+        b += c_snprintf(b, BUF_LEFT(size, b - buf), ":");
         {
           size_t tmp = 0;
           rcode = to_json_or_debug(mjs, prop->value, b, BUF_LEFT(size, b - buf),
-- 
2.43.0


From fa43bb70d3774c7e4916c513916f87bc39ab1017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:02 +0000
Subject: [PATCH 37/86] fix: JSON.stringify writes NaN and infinity as null

---
 mjs.c          | 4 ++++
 src/mjs_json.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mjs.c b/mjs.c
index c493aaf..70299a0 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11039,6 +11039,10 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
     goto clean;
   }
 
+  if (!is_debug && mjs_is_number(v) && !isfinite(mjs_get_double(mjs, v))) {
+    v = MJS_NULL; /* JSON has neither NaN nor infinity */
+  }
+
   for (vp = mjs->json_visited_stack.buf;
        vp < mjs->json_visited_stack.buf + mjs->json_visited_stack.len;
        vp += sizeof(mjs_val_t)) {
diff --git a/src/mjs_json.c b/src/mjs_json.c
index 7ef4f7b..5153314 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -129,6 +129,10 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
     goto clean;
   }
 
+  if (!is_debug && mjs_is_number(v) && !isfinite(mjs_get_double(mjs, v))) {
+    v = MJS_NULL; /* JSON has neither NaN nor infinity */
+  }
+
   for (vp = mjs->json_visited_stack.buf;
        vp < mjs->json_visited_stack.buf + mjs->json_visited_stack.len;
        vp += sizeof(mjs_val_t)) {
-- 
2.43.0


From 7bde9824df5f74da9c83f6e21eef4f36ef774072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 38/86] fix: JSON.stringify of deeply nested values fails
 instead of overflowing the stack

---
 mjs.c          | 14 ++++++++++++--
 src/mjs_json.c | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 70299a0..3d667a2 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11028,7 +11028,7 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
   mjs_val_t el;
   char *vp;
   mjs_err_t rcode = MJS_OK;
-  size_t len = 0;
+  size_t len = 0, visited = mjs->json_visited_stack.len;
   /*
    * TODO(dfrank) : also push all `mjs_val_t`s that are declared below
    */
@@ -11053,6 +11053,12 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
     }
   }
 
+  if (mjs_is_object(v) && visited >= JSON_MAX_DEPTH * sizeof(mjs_val_t)) {
+    rcode = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, rcode, "JSON nesting is too deep");
+    goto clean;
+  }
+
   switch (mjs_get_type(v)) {
     case MJS_TYPE_NULL:
     case MJS_TYPE_BOOLEAN:
@@ -11167,6 +11173,7 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
 clean:
   if (rcode != MJS_OK) {
     len = 0;
+    mjs->json_visited_stack.len = visited;
   }
   if (res_len != NULL) {
     *res_len = len;
@@ -11180,7 +11187,10 @@ MJS_PRIVATE mjs_err_t mjs_json_stringify(struct mjs *mjs, mjs_val_t v,
   char *p = buf;
   size_t len;
 
-  to_json_or_debug(mjs, v, buf, size, &len, 0);
+  rcode = to_json_or_debug(mjs, v, buf, size, &len, 0);
+  if (rcode != MJS_OK) {
+    goto clean;
+  }
 
   if (len >= size) {
     /* Buffer is not large enough. Allocate a bigger one */
diff --git a/src/mjs_json.c b/src/mjs_json.c
index 5153314..dfc3f93 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -118,7 +118,7 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
   mjs_val_t el;
   char *vp;
   mjs_err_t rcode = MJS_OK;
-  size_t len = 0;
+  size_t len = 0, visited = mjs->json_visited_stack.len;
   /*
    * TODO(dfrank) : also push all `mjs_val_t`s that are declared below
    */
@@ -143,6 +143,12 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
     }
   }
 
+  if (mjs_is_object(v) && visited >= JSON_MAX_DEPTH * sizeof(mjs_val_t)) {
+    rcode = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, rcode, "JSON nesting is too deep");
+    goto clean;
+  }
+
   switch (mjs_get_type(v)) {
     case MJS_TYPE_NULL:
     case MJS_TYPE_BOOLEAN:
@@ -257,6 +263,7 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
 clean:
   if (rcode != MJS_OK) {
     len = 0;
+    mjs->json_visited_stack.len = visited;
   }
   if (res_len != NULL) {
     *res_len = len;
@@ -270,7 +277,10 @@ MJS_PRIVATE mjs_err_t mjs_json_stringify(struct mjs *mjs, mjs_val_t v,
   char *p = buf;
   size_t len;
 
-  to_json_or_debug(mjs, v, buf, size, &len, 0);
+  rcode = to_json_or_debug(mjs, v, buf, size, &len, 0);
+  if (rcode != MJS_OK) {
+    goto clean;
+  }
 
   if (len >= size) {
     /* Buffer is not large enough. Allocate a bigger one */
-- 
2.43.0


From fd3a2ecf5cdbf8b6502d4384f4879f2cc6a96948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:33 +0000
Subject: [PATCH 39/86] fix: typeof and JSON.stringify accept functions made by
 ffi()

---
 mjs.c          | 1 +
 src/mjs_core.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index 3d667a2..4c14c46 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7730,6 +7730,7 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v) {
     case MJS_TAG_ARRAY >> 48:
       return MJS_TYPE_OBJECT_ARRAY;
     case MJS_TAG_FUNCTION >> 48:
+    case MJS_TAG_FUNCTION_FFI >> 48:
       return MJS_TYPE_OBJECT_FUNCTION;
     case MJS_TAG_STRING_I >> 48:
     case MJS_TAG_STRING_O >> 48:
diff --git a/src/mjs_core.c b/src/mjs_core.c
index 2ba0765..dbf8c49 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -215,6 +215,7 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v) {
     case MJS_TAG_ARRAY >> 48:
       return MJS_TYPE_OBJECT_ARRAY;
     case MJS_TAG_FUNCTION >> 48:
+    case MJS_TAG_FUNCTION_FFI >> 48:
       return MJS_TYPE_OBJECT_FUNCTION;
     case MJS_TAG_STRING_I >> 48:
     case MJS_TAG_STRING_O >> 48:
-- 
2.43.0


From ef82afe757cfc208f0ba59a4f2c29c386769e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:10 +0000
Subject: [PATCH 40/86] fix: functions made by ffi() are truthy

---
 mjs.c                | 3 ++-
 src/mjs_conversion.c | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 4c14c46..04efc51 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7505,7 +7505,8 @@ MJS_PRIVATE mjs_val_t mjs_to_boolean_v(struct mjs *mjs, mjs_val_t v) {
       ((mjs_is_boolean(v) && mjs_get_bool(mjs, v)) ||
        (mjs_is_number(v) && mjs_get_double(mjs, v) != 0.0) ||
        (mjs_is_string(v) && mjs_get_string(mjs, &v, &len) && len > 0) ||
-       (mjs_is_function(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&
+       (mjs_is_function(v)) || (mjs_is_ffi_sig(v)) || (mjs_is_foreign(v)) ||
+       (mjs_is_object(v))) &&
       v != MJS_TAG_NAN;
 
   return mjs_mk_boolean(mjs, is_truthy);
diff --git a/src/mjs_conversion.c b/src/mjs_conversion.c
index 2dec2dd..d1ad985 100644
--- a/src/mjs_conversion.c
+++ b/src/mjs_conversion.c
@@ -4,6 +4,7 @@
  */
 
 #include "mjs_conversion.h"
+#include "mjs_ffi.h"
 #include "mjs_object.h"
 #include "mjs_primitive.h"
 #include "mjs_string.h"
@@ -69,7 +70,8 @@ MJS_PRIVATE mjs_val_t mjs_to_boolean_v(struct mjs *mjs, mjs_val_t v) {
       ((mjs_is_boolean(v) && mjs_get_bool(mjs, v)) ||
        (mjs_is_number(v) && mjs_get_double(mjs, v) != 0.0) ||
        (mjs_is_string(v) && mjs_get_string(mjs, &v, &len) && len > 0) ||
-       (mjs_is_function(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&
+       (mjs_is_function(v)) || (mjs_is_ffi_sig(v)) || (mjs_is_foreign(v)) ||
+       (mjs_is_object(v))) &&
       v != MJS_TAG_NAN;
 
   return mjs_mk_boolean(mjs, is_truthy);
-- 
2.43.0


From c356145d834ad516be0bd9da8f2287044a3b9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:10 +0000
Subject: [PATCH 41/86] fix: json_escape writes control characters correctly
 and stays within its input

---
 mjs.c               | 9 +++++----
 src/frozen/frozen.c | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/mjs.c b/mjs.c
index 04efc51..32a46bd 100644
--- a/mjs.c
+++ b/mjs.c
@@ -5277,23 +5277,24 @@ int json_escape(struct json_out *out, const char *p, size_t len) WEAK;
 int json_escape(struct json_out *out, const char *p, size_t len) {
   size_t i, cl, n = 0;
   const char *hex_digits = "0123456789abcdef";
-  const char *specials = "btnvfr";
+  const char *specials = "btn\0fr"; /* No escape for \v in JSON */
 
   for (i = 0; i < len; i++) {
     unsigned char ch = ((unsigned char *) p)[i];
     if (ch == '"' || ch == '\\') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, p + i, 1);
-    } else if (ch >= '\b' && ch <= '\r') {
+    } else if (ch >= '\b' && ch <= '\r' && ch != '\v') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, &specials[ch - '\b'], 1);
     } else if (isprint(ch)) {
       n += out->printer(out, p + i, 1);
     } else if ((cl = json_get_utf8_char_len(ch)) == 1) {
       n += out->printer(out, "\\u00", 4);
-      n += out->printer(out, &hex_digits[(ch >> 4) % 0xf], 1);
-      n += out->printer(out, &hex_digits[ch % 0xf], 1);
+      n += out->printer(out, &hex_digits[(ch >> 4) & 0xf], 1);
+      n += out->printer(out, &hex_digits[ch & 0xf], 1);
     } else {
+      if (cl > len - i) cl = len - i; /* Truncated UTF-8 sequence */
       n += out->printer(out, p + i, cl);
       i += cl - 1;
     }
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 422fc88..735a740 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -446,23 +446,24 @@ int json_escape(struct json_out *out, const char *p, size_t len) WEAK;
 int json_escape(struct json_out *out, const char *p, size_t len) {
   size_t i, cl, n = 0;
   const char *hex_digits = "0123456789abcdef";
-  const char *specials = "btnvfr";
+  const char *specials = "btn\0fr"; /* No escape for \v in JSON */
 
   for (i = 0; i < len; i++) {
     unsigned char ch = ((unsigned char *) p)[i];
     if (ch == '"' || ch == '\\') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, p + i, 1);
-    } else if (ch >= '\b' && ch <= '\r') {
+    } else if (ch >= '\b' && ch <= '\r' && ch != '\v') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, &specials[ch - '\b'], 1);
     } else if (isprint(ch)) {
       n += out->printer(out, p + i, 1);
     } else if ((cl = json_get_utf8_char_len(ch)) == 1) {
       n += out->printer(out, "\\u00", 4);
-      n += out->printer(out, &hex_digits[(ch >> 4) % 0xf], 1);
-      n += out->printer(out, &hex_digits[ch % 0xf], 1);
+      n += out->printer(out, &hex_digits[(ch >> 4) & 0xf], 1);
+      n += out->printer(out, &hex_digits[ch & 0xf], 1);
     } else {
+      if (cl > len - i) cl = len - i; /* Truncated UTF-8 sequence */
       n += out->printer(out, p + i, cl);
       i += cl - 1;
     }
-- 
2.43.0


From ee65e43a79015d4a6d42dbee315b6ff7dddc8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:24 +0000
Subject: [PATCH 42/86] fix: the garbage collector does not recurse along
 chains of objects

---
 mjs.c          | 38 ++++++++++++++++++++++++++++----------
 src/mjs_core.c |  2 ++
 src/mjs_core.h |  1 +
 src/mjs_gc.c   | 35 +++++++++++++++++++++++++----------
 4 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/mjs.c b/mjs.c
index 32a46bd..582f942 100644
--- a/mjs.c
+++ b/mjs.c
@@ -3064,6 +3064,7 @@ struct mjs {
   struct mbuf foreign_strings; /* Sequence of (varint len, char *data) */
   struct mbuf owned_values;
   struct mbuf json_visited_stack;
+  struct mbuf gc_queue; /* Marked objects with properties to be marked */
   struct mjs_vals vals;
   char *error_msg;
   char *stack_trace;
@@ -7577,6 +7578,7 @@ void mjs_destroy(struct mjs *mjs) {
   mbuf_free(&mjs->scopes);
   mbuf_free(&mjs->loop_addresses);
   mbuf_free(&mjs->json_visited_stack);
+  mbuf_free(&mjs->gc_queue);
   free(mjs->error_msg);
   free(mjs->stack_trace);
   mjs_ffi_args_free_list(mjs);
@@ -7600,6 +7602,7 @@ struct mjs *mjs_create(void) {
   mbuf_init(&mjs->scopes, 0);
   mbuf_init(&mjs->loop_addresses, 0);
   mbuf_init(&mjs->json_visited_stack, 0);
+  mbuf_init(&mjs->gc_queue, 0);
 
   mjs->bcode_len = 0;
 
@@ -10656,6 +10659,7 @@ static void gc_mark_object(struct mjs *mjs, mjs_val_t *v) {
   struct mjs_object *obj_base;
   struct mjs_property *prop;
   struct mjs_property *next;
+  size_t off;
 
   assert(mjs_is_object(*v));
 
@@ -10671,19 +10675,32 @@ static void gc_mark_object(struct mjs *mjs, mjs_val_t *v) {
 
   if (MARKED(obj_base)) return;
 
-  /* mark object itself, and its properties */
-  for ((prop = obj_base->properties), MARK(obj_base); prop != NULL;
-       prop = next) {
-    if (!gc_check_ptr(&mjs->property_arena, prop)) {
-      abort();
-    }
+  /*
+   * mark object itself, and queue it for marking its properties: recursion
+   * could overflow the C stack on long chains of objects
+   */
+  MARK(obj_base);
+  off = mjs->gc_queue.len;
+  if (mbuf_append(&mjs->gc_queue, &obj_base, sizeof(obj_base)) == 0) abort();
+  if (off != 0) return; /* Being drained by a caller */
+
+  for (; off < mjs->gc_queue.len; off += sizeof(obj_base)) {
+    memcpy(&obj_base, mjs->gc_queue.buf + off, sizeof(obj_base));
+    prop = (struct mjs_property *) ((uintptr_t) obj_base->properties &
+                                    ~(uintptr_t) 1 /* the mark */);
+    for (; prop != NULL; prop = next) {
+      if (!gc_check_ptr(&mjs->property_arena, prop)) {
+        abort();
+      }
 
-    gc_mark(mjs, &prop->name);
-    gc_mark(mjs, &prop->value);
+      gc_mark(mjs, &prop->name);
+      gc_mark(mjs, &prop->value);
 
-    next = prop->next;
-    MARK(prop);
+      next = prop->next;
+      MARK(prop);
+    }
   }
+  mjs->gc_queue.len = 0;
 
   /* mark object's prototype */
   /*
@@ -10872,6 +10889,7 @@ void mjs_gc(struct mjs *mjs, int full) {
   gc_mark_mbuf_val(mjs, &mjs->call_stack);
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
+  mbuf_free(&mjs->gc_queue);
 
   gc_compact_strings(mjs);
 
diff --git a/src/mjs_core.c b/src/mjs_core.c
index dbf8c49..abc5d73 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -60,6 +60,7 @@ void mjs_destroy(struct mjs *mjs) {
   mbuf_free(&mjs->scopes);
   mbuf_free(&mjs->loop_addresses);
   mbuf_free(&mjs->json_visited_stack);
+  mbuf_free(&mjs->gc_queue);
   free(mjs->error_msg);
   free(mjs->stack_trace);
   mjs_ffi_args_free_list(mjs);
@@ -83,6 +84,7 @@ struct mjs *mjs_create(void) {
   mbuf_init(&mjs->scopes, 0);
   mbuf_init(&mjs->loop_addresses, 0);
   mbuf_init(&mjs->json_visited_stack, 0);
+  mbuf_init(&mjs->gc_queue, 0);
 
   mjs->bcode_len = 0;
 
diff --git a/src/mjs_core.h b/src/mjs_core.h
index 855790e..64a7927 100644
--- a/src/mjs_core.h
+++ b/src/mjs_core.h
@@ -121,6 +121,7 @@ struct mjs {
   struct mbuf foreign_strings; /* Sequence of (varint len, char *data) */
   struct mbuf owned_values;
   struct mbuf json_visited_stack;
+  struct mbuf gc_queue; /* Marked objects with properties to be marked */
   struct mjs_vals vals;
   char *error_msg;
   char *stack_trace;
diff --git a/src/mjs_gc.c b/src/mjs_gc.c
index 6bc900d..819675a 100644
--- a/src/mjs_gc.c
+++ b/src/mjs_gc.c
@@ -281,6 +281,7 @@ static void gc_mark_object(struct mjs *mjs, mjs_val_t *v) {
   struct mjs_object *obj_base;
   struct mjs_property *prop;
   struct mjs_property *next;
+  size_t off;
 
   assert(mjs_is_object(*v));
 
@@ -296,19 +297,32 @@ static void gc_mark_object(struct mjs *mjs, mjs_val_t *v) {
 
   if (MARKED(obj_base)) return;
 
-  /* mark object itself, and its properties */
-  for ((prop = obj_base->properties), MARK(obj_base); prop != NULL;
-       prop = next) {
-    if (!gc_check_ptr(&mjs->property_arena, prop)) {
-      abort();
-    }
+  /*
+   * mark object itself, and queue it for marking its properties: recursion
+   * could overflow the C stack on long chains of objects
+   */
+  MARK(obj_base);
+  off = mjs->gc_queue.len;
+  if (mbuf_append(&mjs->gc_queue, &obj_base, sizeof(obj_base)) == 0) abort();
+  if (off != 0) return; /* Being drained by a caller */
+
+  for (; off < mjs->gc_queue.len; off += sizeof(obj_base)) {
+    memcpy(&obj_base, mjs->gc_queue.buf + off, sizeof(obj_base));
+    prop = (struct mjs_property *) ((uintptr_t) obj_base->properties &
+                                    ~(uintptr_t) 1 /* the mark */);
+    for (; prop != NULL; prop = next) {
+      if (!gc_check_ptr(&mjs->property_arena, prop)) {
+        abort();
+      }
 
-    gc_mark(mjs, &prop->name);
-    gc_mark(mjs, &prop->value);
+      gc_mark(mjs, &prop->name);
+      gc_mark(mjs, &prop->value);
 
-    next = prop->next;
-    MARK(prop);
+      next = prop->next;
+      MARK(prop);
+    }
   }
+  mjs->gc_queue.len = 0;
 
   /* mark object's prototype */
   /*
@@ -497,6 +511,7 @@ void mjs_gc(struct mjs *mjs, int full) {
   gc_mark_mbuf_val(mjs, &mjs->call_stack);
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
+  mbuf_free(&mjs->gc_queue);
 
   gc_compact_strings(mjs);
 
-- 
2.43.0


From ead8383b9f06782d99d20644ef467fc2785b5664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:25 +0000
Subject: [PATCH 43/86] fix: unbounded recursion through apply() fails instead
 of overflowing the stack

---
 mjs.c          | 14 ++++++++++++++
 src/mjs_core.h |  1 +
 src/mjs_exec.c | 13 +++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/mjs.c b/mjs.c
index 582f942..edd7b64 100644
--- a/mjs.c
+++ b/mjs.c
@@ -3072,6 +3072,7 @@ struct mjs {
   mjs_ffi_resolver_t *dlsym;  /* Symbol resolver function for FFI */
   ffi_cb_args_t *ffi_cb_args; /* List of FFI args descriptors */
   size_t cur_bcode_offset;
+  int exec_depth; /* Number of active mjs_execute() calls */
 
   struct gc_arena object_arena;
   struct gc_arena property_arena;
@@ -8014,6 +8015,11 @@ void mjs_mem_set_int(void *ptr, int val, int size, int bigendian) {
 #include <sys/mman.h>
 #endif
 
+/* Maximum number of nested mjs_execute() calls */
+#ifndef MJS_MAX_EXEC_DEPTH
+#define MJS_MAX_EXEC_DEPTH 512
+#endif
+
 /*
  * Pushes call stack frame. Offset is a global bcode offset. Retval_stack_idx
  * is an index in mjs->stack at which return value should be written later.
@@ -8581,6 +8587,13 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   free(mjs->stack_trace);
   mjs->stack_trace = NULL;
 
+  /* Nested calls via C (apply, callbacks, load) take C stack */
+  if (mjs->exec_depth >= MJS_MAX_EXEC_DEPTH) {
+    *res = MJS_UNDEFINED;
+    return mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "too many nested calls");
+  }
+  mjs->exec_depth++;
+
   off -= bp.start_idx;
 
   for (i = off; i < bp.data.len; i++) {
@@ -9012,6 +9025,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 clean:
   /* Remember result of the evaluation of this bcode part */
   mjs_bcode_part_get_by_offset(mjs, start_off)->exec_res = mjs->error;
+  mjs->exec_depth--;
 
   *res = mjs_pop(mjs);
   return mjs->error;
diff --git a/src/mjs_core.h b/src/mjs_core.h
index 64a7927..31e81b8 100644
--- a/src/mjs_core.h
+++ b/src/mjs_core.h
@@ -129,6 +129,7 @@ struct mjs {
   mjs_ffi_resolver_t *dlsym;  /* Symbol resolver function for FFI */
   ffi_cb_args_t *ffi_cb_args; /* List of FFI args descriptors */
   size_t cur_bcode_offset;
+  int exec_depth; /* Number of active mjs_execute() calls */
 
   struct gc_arena object_arena;
   struct gc_arena property_arena;
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 5b3bebd..387a36c 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -31,6 +31,11 @@
 extern int mjs_verif_step(struct mjs *mjs);
 #endif
 
+/* Maximum number of nested mjs_execute() calls */
+#ifndef MJS_MAX_EXEC_DEPTH
+#define MJS_MAX_EXEC_DEPTH 512
+#endif
+
 /*
  * Pushes call stack frame. Offset is a global bcode offset. Retval_stack_idx
  * is an index in mjs->stack at which return value should be written later.
@@ -598,6 +603,13 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   free(mjs->stack_trace);
   mjs->stack_trace = NULL;
 
+  /* Nested calls via C (apply, callbacks, load) take C stack */
+  if (mjs->exec_depth >= MJS_MAX_EXEC_DEPTH) {
+    *res = MJS_UNDEFINED;
+    return mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "too many nested calls");
+  }
+  mjs->exec_depth++;
+
   off -= bp.start_idx;
 
   for (i = off; i < bp.data.len; i++) {
@@ -1040,6 +1052,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 clean:
   /* Remember result of the evaluation of this bcode part */
   mjs_bcode_part_get_by_offset(mjs, start_off)->exec_res = mjs->error;
+  mjs->exec_depth--;
 
   *res = mjs_pop(mjs);
   return mjs->error;
-- 
2.43.0


From aeda1635a35d4adc085829d8258547a0608341de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:50 +0000
Subject: [PATCH 44/86] fix: a stack trace lists each frame once when calls are
 nested via C

---
 mjs.c          | 13 ++++++++-----
 src/mjs_core.c |  5 +++--
 src/mjs_core.h |  5 +++--
 src/mjs_exec.c |  3 ++-
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/mjs.c b/mjs.c
index edd7b64..19e2a77 100644
--- a/mjs.c
+++ b/mjs.c
@@ -3106,9 +3106,10 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v);
 
 /*
  * Prints stack trace starting from the given bcode offset; other offsets
- * (if any) will be fetched from the call_stack.
+ * (if any) will be fetched from the call_stack, down to the given length of it.
  */
-MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset);
+MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset,
+                                     size_t call_stack_len);
 
 MJS_PRIVATE mjs_val_t vtop(struct mbuf *m);
 MJS_PRIVATE size_t mjs_stack_size(const struct mbuf *m);
@@ -7783,10 +7784,11 @@ static void mjs_append_stack_trace_line(struct mjs *mjs, size_t offset) {
   }
 }
 
-MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset) {
+MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset,
+                                     size_t call_stack_len) {
   mjs_append_stack_trace_line(mjs, offset);
   while (mjs->call_stack.len >=
-         sizeof(mjs_val_t) * CALL_STACK_FRAME_ITEMS_CNT) {
+         call_stack_len + sizeof(mjs_val_t) * CALL_STACK_FRAME_ITEMS_CNT) {
     int i;
 
     /* set current offset to it to the offset stored in the frame */
@@ -9007,7 +9009,8 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
                sizeof(mjs->vals.this_obj));
       }
 
-      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */,
+                          call_stack_len);
 
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
diff --git a/src/mjs_core.c b/src/mjs_core.c
index abc5d73..15f5e88 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -264,10 +264,11 @@ static void mjs_append_stack_trace_line(struct mjs *mjs, size_t offset) {
   }
 }
 
-MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset) {
+MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset,
+                                     size_t call_stack_len) {
   mjs_append_stack_trace_line(mjs, offset);
   while (mjs->call_stack.len >=
-         sizeof(mjs_val_t) * CALL_STACK_FRAME_ITEMS_CNT) {
+         call_stack_len + sizeof(mjs_val_t) * CALL_STACK_FRAME_ITEMS_CNT) {
     int i;
 
     /* set current offset to it to the offset stored in the frame */
diff --git a/src/mjs_core.h b/src/mjs_core.h
index 31e81b8..9380c48 100644
--- a/src/mjs_core.h
+++ b/src/mjs_core.h
@@ -163,9 +163,10 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v);
 
 /*
  * Prints stack trace starting from the given bcode offset; other offsets
- * (if any) will be fetched from the call_stack.
+ * (if any) will be fetched from the call_stack, down to the given length of it.
  */
-MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset);
+MJS_PRIVATE void mjs_gen_stack_trace(struct mjs *mjs, size_t offset,
+                                     size_t call_stack_len);
 
 MJS_PRIVATE mjs_val_t vtop(struct mbuf *m);
 MJS_PRIVATE size_t mjs_stack_size(const struct mbuf *m);
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 387a36c..c3ab33f 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1034,7 +1034,8 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
                sizeof(mjs->vals.this_obj));
       }
 
-      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */,
+                          call_stack_len);
 
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
-- 
2.43.0


From 1bf7077022b7369324608710446c09372f3a2a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:47 +0000
Subject: [PATCH 45/86] fix: mjs_apply of a C function does not report the
 error of an earlier call

---
 mjs.c          | 2 ++
 src/mjs_exec.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mjs.c b/mjs.c
index 19e2a77..29513e6 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9191,6 +9191,8 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
   if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    /* Forget the previous error, like mjs_execute() does */
+    mjs_set_errorf(mjs, MJS_OK, NULL);
     if (mjs_is_foreign(func)) {
       ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
     } else {
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index c3ab33f..297271f 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1216,6 +1216,8 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
   if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    /* Forget the previous error, like mjs_execute() does */
+    mjs_set_errorf(mjs, MJS_OK, NULL);
     if (mjs_is_foreign(func)) {
       ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
     } else {
-- 
2.43.0


From cb87b62f30d7a759b567aefc03626b7225a14f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:47 +0000
Subject: [PATCH 46/86] fix: do not call an FFI function with an argument that
 is not an int or bool

---
 mjs.c         | 2 ++
 src/mjs_ffi.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mjs.c b/mjs.c
index 29513e6..d184258 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9989,6 +9989,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not an int (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
@@ -10020,6 +10021,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not a bool (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 129bd1f..34e3b9b 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -767,6 +767,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not an int (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
@@ -798,6 +799,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not a bool (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
-- 
2.43.0


From 3f7535d191b59d71b23d2de83972b9926894280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:47 +0000
Subject: [PATCH 47/86] fix: report FFI signatures which ffi_call() does not
 support

---
 mjs.c         | 8 +++++++-
 src/ffi/ffi.c | 2 ++
 src/mjs_ffi.c | 6 +++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index d184258..074651d 100644
--- a/mjs.c
+++ b/mjs.c
@@ -6486,6 +6486,8 @@ int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
   }
 
   /* Doubles and floats are not supported together atm */
+  doubles += (res->ctype == FFI_CTYPE_DOUBLE && floats > 0);
+  floats += (res->ctype == FFI_CTYPE_FLOAT && doubles > 0);
   if (doubles > 0 && floats > 0) {
     return -1;
   }
@@ -10142,7 +10144,11 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
     abort();
   }
 
-  ffi_call(psig->fn, nargs, &res, args);
+  if (ffi_call(psig->fn, nargs, &res, args) != 0) {
+    ret = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, ret, "unsupported combination of argument types");
+    goto clean;
+  }
 
   switch (rtype) {
     case MJS_FFI_CTYPE_CHAR_PTR: {
diff --git a/src/ffi/ffi.c b/src/ffi/ffi.c
index 42cd771..37163a2 100644
--- a/src/ffi/ffi.c
+++ b/src/ffi/ffi.c
@@ -176,6 +176,8 @@ int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
   }
 
   /* Doubles and floats are not supported together atm */
+  doubles += (res->ctype == FFI_CTYPE_DOUBLE && floats > 0);
+  floats += (res->ctype == FFI_CTYPE_FLOAT && doubles > 0);
   if (doubles > 0 && floats > 0) {
     return -1;
   }
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 34e3b9b..78f682c 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -920,7 +920,11 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
     abort();
   }
 
-  ffi_call(psig->fn, nargs, &res, args);
+  if (ffi_call(psig->fn, nargs, &res, args) != 0) {
+    ret = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, ret, "unsupported combination of argument types");
+    goto clean;
+  }
 
   switch (rtype) {
     case MJS_FFI_CTYPE_CHAR_PTR: {
-- 
2.43.0


From 793bcf9e95065b54736d9f0c53da0734eb29cfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:47 +0000
Subject: [PATCH 48/86] fix: int and bool arguments of FFI callbacks (negative
 values)

---
 mjs.c         | 5 +++--
 src/mjs_ffi.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 074651d..a4c84af 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9573,10 +9573,11 @@ static union ffi_cb_data_val ffi_cb_impl_generic(void *param,
         args[i] = cbargs->userdata;
         break;
       case MJS_FFI_CTYPE_INT:
-        args[i] = mjs_mk_number(mjs, (double) data->args[i].w);
+        /* Upper half of a 64-bit word is undefined for int and bool */
+        args[i] = mjs_mk_number(mjs, (double) (int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_BOOL:
-        args[i] = mjs_mk_boolean(mjs, !!data->args[i].w);
+        args[i] = mjs_mk_boolean(mjs, !!(int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_CHAR_PTR: {
         const char *s = (char *) data->args[i].w;
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 78f682c..ab6c59b 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -349,10 +349,11 @@ static union ffi_cb_data_val ffi_cb_impl_generic(void *param,
         args[i] = cbargs->userdata;
         break;
       case MJS_FFI_CTYPE_INT:
-        args[i] = mjs_mk_number(mjs, (double) data->args[i].w);
+        /* Upper half of a 64-bit word is undefined for int and bool */
+        args[i] = mjs_mk_number(mjs, (double) (int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_BOOL:
-        args[i] = mjs_mk_boolean(mjs, !!data->args[i].w);
+        args[i] = mjs_mk_boolean(mjs, !!(int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_CHAR_PTR: {
         const char *s = (char *) data->args[i].w;
-- 
2.43.0


From 643b74168a5c9fd73c3b0623ec588096d7abca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:47 +0000
Subject: [PATCH 49/86] fix: refuse callbacks with a double and more than two
 arguments

---
 mjs.c         | 1 +
 src/mjs_ffi.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index a4c84af..048371f 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9810,6 +9810,7 @@ static ffi_fn_t *get_cb_impl_by_signature(const mjs_ffi_sig_t *sig) {
             break;
           case 1:
             /* 1 double argument */
+            if (sig->args_cnt != 2) break;
             switch (userdata_idx) {
               case 1:
                 return (ffi_fn_t *) ffi_cb_impl_wpd;
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index ab6c59b..5912cac 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -586,6 +586,7 @@ static ffi_fn_t *get_cb_impl_by_signature(const mjs_ffi_sig_t *sig) {
             break;
           case 1:
             /* 1 double argument */
+            if (sig->args_cnt != 2) break;
             switch (userdata_idx) {
               case 1:
                 return (ffi_fn_t *) ffi_cb_impl_wpd;
-- 
2.43.0


From c875164165af7135e83757b0e3fe054fc0e27c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:20 +0000
Subject: [PATCH 50/86] fix: callbacks with different signatures do not share a
 descriptor

---
 mjs.c         | 19 +++++++++++++------
 src/mjs_ffi.c | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/mjs.c b/mjs.c
index 048371f..a225307 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9740,11 +9740,18 @@ static uintptr_t ffi_cb_impl_wdp(double d0, uintptr_t w1) {
 }
 /* }}} */
 
+/*
+ * Finds the item with the given func and userdata, and, unless sig is NULL,
+ * with the same signature
+ */
 static struct mjs_ffi_cb_args **ffi_get_matching(struct mjs_ffi_cb_args **plist,
                                                  mjs_val_t func,
-                                                 mjs_val_t userdata) {
+                                                 mjs_val_t userdata,
+                                                 const mjs_ffi_sig_t *sig) {
   for (; *plist != NULL; plist = &((*plist)->next)) {
-    if ((*plist)->func == func && (*plist)->userdata == userdata) {
+    if ((*plist)->func == func && (*plist)->userdata == userdata &&
+        (sig == NULL || memcmp((*plist)->sig.val_types, sig->val_types,
+                               sizeof(sig->val_types)) == 0)) {
       break;
     }
   }
@@ -10111,7 +10118,8 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
      * Get cbargs: either reuse the existing one (if the matching item exists),
      * or create a new one.
      */
-    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata);
+    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata,
+                             psig->cb_sig);
     if (*pitem == NULL) {
       /* No matching cbargs item; we need to add a new one */
       cbargs = calloc(1, sizeof(*cbargs));
@@ -10206,9 +10214,8 @@ MJS_PRIVATE void mjs_ffi_cb_free(struct mjs *mjs) {
   mjs_val_t userdata = mjs_arg(mjs, 1);
 
   if (mjs_is_function(func)) {
-    struct mjs_ffi_cb_args **pitem =
-        ffi_get_matching(&mjs->ffi_cb_args, func, userdata);
-    if (*pitem != NULL) {
+    struct mjs_ffi_cb_args **pitem = &mjs->ffi_cb_args;
+    while (*(pitem = ffi_get_matching(pitem, func, userdata, NULL)) != NULL) {
       /* Found matching item: remove it from the linked list, and free */
       struct mjs_ffi_cb_args *cbargs = *pitem;
       *pitem = cbargs->next;
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 5912cac..e4a6635 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -516,11 +516,18 @@ static uintptr_t ffi_cb_impl_wdp(double d0, uintptr_t w1) {
 }
 /* }}} */
 
+/*
+ * Finds the item with the given func and userdata, and, unless sig is NULL,
+ * with the same signature
+ */
 static struct mjs_ffi_cb_args **ffi_get_matching(struct mjs_ffi_cb_args **plist,
                                                  mjs_val_t func,
-                                                 mjs_val_t userdata) {
+                                                 mjs_val_t userdata,
+                                                 const mjs_ffi_sig_t *sig) {
   for (; *plist != NULL; plist = &((*plist)->next)) {
-    if ((*plist)->func == func && (*plist)->userdata == userdata) {
+    if ((*plist)->func == func && (*plist)->userdata == userdata &&
+        (sig == NULL || memcmp((*plist)->sig.val_types, sig->val_types,
+                               sizeof(sig->val_types)) == 0)) {
       break;
     }
   }
@@ -887,7 +894,8 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
      * Get cbargs: either reuse the existing one (if the matching item exists),
      * or create a new one.
      */
-    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata);
+    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata,
+                             psig->cb_sig);
     if (*pitem == NULL) {
       /* No matching cbargs item; we need to add a new one */
       cbargs = calloc(1, sizeof(*cbargs));
@@ -982,9 +990,8 @@ MJS_PRIVATE void mjs_ffi_cb_free(struct mjs *mjs) {
   mjs_val_t userdata = mjs_arg(mjs, 1);
 
   if (mjs_is_function(func)) {
-    struct mjs_ffi_cb_args **pitem =
-        ffi_get_matching(&mjs->ffi_cb_args, func, userdata);
-    if (*pitem != NULL) {
+    struct mjs_ffi_cb_args **pitem = &mjs->ffi_cb_args;
+    while (*(pitem = ffi_get_matching(pitem, func, userdata, NULL)) != NULL) {
       /* Found matching item: remove it from the linked list, and free */
       struct mjs_ffi_cb_args *cbargs = *pitem;
       *pitem = cbargs->next;
-- 
2.43.0


From 3722421adca543d3d9bbb5302b0dd450675beb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:34 +0000
Subject: [PATCH 51/86] fix: string arguments of FFI functions stay valid
 during callbacks

---
 mjs.c         | 28 ++++++++++++++++++++++++++++
 src/mjs_ffi.c | 28 ++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/mjs.c b/mjs.c
index a225307..18f388e 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9904,6 +9904,9 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
    */
   mjs_val_t argvs[FFI_MAX_ARGS_CNT];
   struct mg_str argvmgstr[FFI_MAX_ARGS_CNT];
+  /* Copies of string arguments, needed if there is a callback */
+  char *argvcopy[FFI_MAX_ARGS_CNT];
+  memset(argvcopy, 0, sizeof(argvcopy));
 
   if (mjs_is_ffi_sig(sig_v)) {
     psig = mjs_get_ffi_sig_struct(sig_v);
@@ -10144,6 +10147,30 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
       ffi_set_ptr(&args[cbdata.func_idx], u.p);
       ffi_set_ptr(&args[cbdata.userdata_idx], cbargs);
     }
+
+    /*
+     * The callback might move strings, so pass copies of string arguments to
+     * the function
+     */
+    for (i = 0; i < nargs; i++) {
+      size_t n;
+      const char *s;
+      mjs_ffi_ctype_t type = psig->val_types[1 + i];
+      if (!mjs_is_string(mjs_arg(mjs, i)) ||
+          (type != MJS_FFI_CTYPE_CHAR_PTR &&
+           type != MJS_FFI_CTYPE_STRUCT_MG_STR_PTR)) {
+        continue;
+      }
+      s = mjs_get_string(mjs, &argvs[i], &n);
+      argvcopy[i] = (char *) malloc(n + 1);
+      memcpy(argvcopy[i], s, n);
+      argvcopy[i][n] = '\0';
+      if (type == MJS_FFI_CTYPE_CHAR_PTR) {
+        ffi_set_ptr(&args[i], argvcopy[i]);
+      } else {
+        argvmgstr[i].p = argvcopy[i];
+      }
+    }
   } else if (!(cbdata.userdata_idx == -1 && cbdata.func_idx == -1)) {
     /*
      * incomplete signature: it contains either the function pointer or
@@ -10199,6 +10226,7 @@ clean:
     mjs_prepend_errorf(mjs, ret, "failed to call FFIed function");
     /* TODO(dfrank) stringify mjs_ffi_sig_t in some human-readable format */
   }
+  for (i = 0; i < FFI_MAX_ARGS_CNT; i++) free(argvcopy[i]);
   mjs_return(mjs, resv);
 
   return ret;
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index e4a6635..5586e8b 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -680,6 +680,9 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
    */
   mjs_val_t argvs[FFI_MAX_ARGS_CNT];
   struct mg_str argvmgstr[FFI_MAX_ARGS_CNT];
+  /* Copies of string arguments, needed if there is a callback */
+  char *argvcopy[FFI_MAX_ARGS_CNT];
+  memset(argvcopy, 0, sizeof(argvcopy));
 
   if (mjs_is_ffi_sig(sig_v)) {
     psig = mjs_get_ffi_sig_struct(sig_v);
@@ -920,6 +923,30 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
       ffi_set_ptr(&args[cbdata.func_idx], u.p);
       ffi_set_ptr(&args[cbdata.userdata_idx], cbargs);
     }
+
+    /*
+     * The callback might move strings, so pass copies of string arguments to
+     * the function
+     */
+    for (i = 0; i < nargs; i++) {
+      size_t n;
+      const char *s;
+      mjs_ffi_ctype_t type = psig->val_types[1 + i];
+      if (!mjs_is_string(mjs_arg(mjs, i)) ||
+          (type != MJS_FFI_CTYPE_CHAR_PTR &&
+           type != MJS_FFI_CTYPE_STRUCT_MG_STR_PTR)) {
+        continue;
+      }
+      s = mjs_get_string(mjs, &argvs[i], &n);
+      argvcopy[i] = (char *) malloc(n + 1);
+      memcpy(argvcopy[i], s, n);
+      argvcopy[i][n] = '\0';
+      if (type == MJS_FFI_CTYPE_CHAR_PTR) {
+        ffi_set_ptr(&args[i], argvcopy[i]);
+      } else {
+        argvmgstr[i].p = argvcopy[i];
+      }
+    }
   } else if (!(cbdata.userdata_idx == -1 && cbdata.func_idx == -1)) {
     /*
      * incomplete signature: it contains either the function pointer or
@@ -975,6 +1002,7 @@ clean:
     mjs_prepend_errorf(mjs, ret, "failed to call FFIed function");
     /* TODO(dfrank) stringify mjs_ffi_sig_t in some human-readable format */
   }
+  for (i = 0; i < FFI_MAX_ARGS_CNT; i++) free(argvcopy[i]);
   mjs_return(mjs, resv);
 
   return ret;
-- 
2.43.0


From 4ce33974b9c59f3fdd227873a91e484d320e2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 52/86] fix: mjs_sprintf of an empty string terminates the
 buffer

---
 mjs.c          | 1 +
 src/mjs_util.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index 18f388e..0e7d3b8 100644
--- a/mjs.c
+++ b/mjs.c
@@ -14177,6 +14177,7 @@ void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
 
 void mjs_sprintf(mjs_val_t v, struct mjs *mjs, char *buf, size_t n) {
   struct json_out out = JSON_OUT_BUF(buf, n);
+  if (n > 0) buf[0] = '\0'; /* an empty string prints nothing */
   mjs_jprintf(v, mjs, &out);
 }
 
diff --git a/src/mjs_util.c b/src/mjs_util.c
index 602974b..9951432 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -87,6 +87,7 @@ void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
 
 void mjs_sprintf(mjs_val_t v, struct mjs *mjs, char *buf, size_t n) {
   struct json_out out = JSON_OUT_BUF(buf, n);
+  if (n > 0) buf[0] = '\0'; /* an empty string prints nothing */
   mjs_jprintf(v, mjs, &out);
 }
 
-- 
2.43.0


From ceaf98ef9ad06d060390f136b62e304f444b3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:35 +0000
Subject: [PATCH 53/86] fix: a .jsc file that cannot be written or is in use
 does not break scripts

---
 mjs.c          | 28 ++++++++++++++++++++--------
 src/mjs_exec.c | 28 ++++++++++++++++++++--------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/mjs.c b/mjs.c
index 0e7d3b8..218feaf 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9089,11 +9089,18 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
 
         /* try to open .jsc file for writing */
         if (rewrite) {
-          FILE *fp = fopen(filename_jsc, "wb");
+          FILE *fp;
+          /* the old file might be mmapped, so don't change its contents */
+          remove(filename_jsc);
+          fp = fopen(filename_jsc, "wb");
           if (fp != NULL) {
             /* write last bcode part to .jsc */
-            fwrite(bp->data.p, bp->data.len, 1, fp);
-            fclose(fp);
+            size_t n = fwrite(bp->data.p, bp->data.len, 1, fp);
+            if (fclose(fp) != 0 || n != 1) {
+              LOG(LL_WARN, ("Failed to write %s", filename_jsc));
+              remove(filename_jsc);
+              read_mmapped = 0;
+            }
           } else {
             LOG(LL_WARN, ("Failed to open %s for writing", filename_jsc));
             read_mmapped = 0;
@@ -9101,12 +9108,17 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
         }
 
         if (read_mmapped) {
-          /* free RAM buffer with last bcode part */
-          free((void *) bp->data.p);
-
           /* mmap .jsc file and set last bcode part buffer to it */
-          bp->data.p = cs_mmap_file(filename_jsc, &bp->data.len);
-          bp->in_rom = 1;
+          size_t size;
+          char *data = cs_mmap_file(filename_jsc, &size);
+          if (data != NULL && size == bp->data.len) {
+            /* free RAM buffer with last bcode part */
+            free((void *) bp->data.p);
+            bp->data.p = data;
+            bp->in_rom = 1;
+          } else if (data != NULL) {
+            munmap(data, size);
+          }
         }
       }
     }
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 297271f..4fd7375 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1112,11 +1112,18 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
 
         /* try to open .jsc file for writing */
         if (rewrite) {
-          FILE *fp = fopen(filename_jsc, "wb");
+          FILE *fp;
+          /* the old file might be mmapped, so don't change its contents */
+          remove(filename_jsc);
+          fp = fopen(filename_jsc, "wb");
           if (fp != NULL) {
             /* write last bcode part to .jsc */
-            fwrite(bp->data.p, bp->data.len, 1, fp);
-            fclose(fp);
+            size_t n = fwrite(bp->data.p, bp->data.len, 1, fp);
+            if (fclose(fp) != 0 || n != 1) {
+              LOG(LL_WARN, ("Failed to write %s", filename_jsc));
+              remove(filename_jsc);
+              read_mmapped = 0;
+            }
           } else {
             LOG(LL_WARN, ("Failed to open %s for writing", filename_jsc));
             read_mmapped = 0;
@@ -1124,12 +1131,17 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
         }
 
         if (read_mmapped) {
-          /* free RAM buffer with last bcode part */
-          free((void *) bp->data.p);
-
           /* mmap .jsc file and set last bcode part buffer to it */
-          bp->data.p = cs_mmap_file(filename_jsc, &bp->data.len);
-          bp->in_rom = 1;
+          size_t size;
+          char *data = cs_mmap_file(filename_jsc, &size);
+          if (data != NULL && size == bp->data.len) {
+            /* free RAM buffer with last bcode part */
+            free((void *) bp->data.p);
+            bp->data.p = data;
+            bp->in_rom = 1;
+          } else if (data != NULL) {
+            munmap(data, size);
+          }
         }
       }
     }
-- 
2.43.0


From 9d5d45758708d8a4c354943962017d6965ebc0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:35 +0000
Subject: [PATCH 54/86] fix: cs_read_file and cs_mmap_file close the files they
 open

---
 mjs.c                | 3 +++
 src/common/cs_file.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mjs.c b/mjs.c
index 218feaf..7c7a454 100644
--- a/mjs.c
+++ b/mjs.c
@@ -3920,6 +3920,7 @@ void cs_log_set_level(enum cs_log_level level) {
 #include <fcntl.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
+#include <unistd.h>
 #endif
 
 #ifndef EXCLUDE_COMMON
@@ -3937,6 +3938,7 @@ char *cs_read_file(const char *path, size_t *size) {
       fseek(fp, 0, SEEK_SET); /* Some platforms might not have rewind(), Oo */
       if (fread(data, 1, *size, fp) != *size) {
         free(data);
+        fclose(fp);
         return NULL;
       }
       data[*size] = '\0';
@@ -3957,6 +3959,7 @@ char *cs_mmap_file(const char *path, size_t *size) {
   fstat(fd, &st);
   *size = (size_t) st.st_size;
   r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
+  close(fd);
   if (r == MAP_FAILED) return NULL;
   return r;
 }
diff --git a/src/common/cs_file.c b/src/common/cs_file.c
index 24d0ce9..5d320c4 100644
--- a/src/common/cs_file.c
+++ b/src/common/cs_file.c
@@ -24,6 +24,7 @@
 #include <fcntl.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
+#include <unistd.h>
 #endif
 
 #ifndef EXCLUDE_COMMON
@@ -41,6 +42,7 @@ char *cs_read_file(const char *path, size_t *size) {
       fseek(fp, 0, SEEK_SET); /* Some platforms might not have rewind(), Oo */
       if (fread(data, 1, *size, fp) != *size) {
         free(data);
+        fclose(fp);
         return NULL;
       }
       data[*size] = '\0';
@@ -61,6 +63,7 @@ char *cs_mmap_file(const char *path, size_t *size) {
   fstat(fd, &st);
   *size = (size_t) st.st_size;
   r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
+  close(fd);
   if (r == MAP_FAILED) return NULL;
   return r;
 }
-- 
2.43.0


From 8561f6348ff3ce64150ab4d123b1d3a67a70b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:52 +0000
Subject: [PATCH 55/86] fix: mjs_destroy unmaps .jsc files

---
 mjs.c          | 7 +++++++
 src/mjs_core.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/mjs.c b/mjs.c
index 7c7a454..b07c069 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7542,6 +7542,10 @@ MJS_PRIVATE int mjs_is_truthy(struct mjs *mjs, mjs_val_t v) {
 /* Amalgamated: #include "mjs_string.h" */
 /* Amalgamated: #include "mjs_util.h" */
 
+#if MJS_GENERATE_JSC && defined(CS_MMAP)
+#include <sys/mman.h>
+#endif
+
 #ifndef MJS_OBJECT_ARENA_SIZE
 #define MJS_OBJECT_ARENA_SIZE 20
 #endif
@@ -7571,6 +7575,9 @@ void mjs_destroy(struct mjs *mjs) {
       if (!bp->in_rom) {
         free((void *) bp->data.p);
       }
+#if MJS_GENERATE_JSC && defined(CS_MMAP)
+      if (bp->in_rom) munmap((void *) bp->data.p, bp->data.len);
+#endif
     }
   }
 
diff --git a/src/mjs_core.c b/src/mjs_core.c
index 15f5e88..4a1f394 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -17,6 +17,10 @@
 #include "mjs_string.h"
 #include "mjs_util.h"
 
+#if MJS_GENERATE_JSC && defined(CS_MMAP)
+#include <sys/mman.h>
+#endif
+
 #ifndef MJS_OBJECT_ARENA_SIZE
 #define MJS_OBJECT_ARENA_SIZE 20
 #endif
@@ -46,6 +50,9 @@ void mjs_destroy(struct mjs *mjs) {
       if (!bp->in_rom) {
         free((void *) bp->data.p);
       }
+#if MJS_GENERATE_JSC && defined(CS_MMAP)
+      if (bp->in_rom) munmap((void *) bp->data.p, bp->data.len);
+#endif
     }
   }
 
-- 
2.43.0


From 585636bce8fe2bda63be9729095ac5319fc45f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:20 +0000
Subject: [PATCH 56/86] fix: calling a function from C does not change whether
 load() evaluates its file again

---
 mjs.c          | 6 +++++-
 src/mjs_exec.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index b07c069..484b849 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9039,7 +9039,11 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 
 clean:
   /* Remember result of the evaluation of this bcode part */
-  mjs_bcode_part_get_by_offset(mjs, start_off)->exec_res = mjs->error;
+  {
+    struct mjs_bcode_part *bp = mjs_bcode_part_get_by_offset(mjs, start_off);
+    /* calling a function from C evaluates only that function */
+    if (bp->start_idx == start_off) bp->exec_res = mjs->error;
+  }
   mjs->exec_depth--;
 
   *res = mjs_pop(mjs);
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 4fd7375..cb95f92 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1052,7 +1052,11 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 
 clean:
   /* Remember result of the evaluation of this bcode part */
-  mjs_bcode_part_get_by_offset(mjs, start_off)->exec_res = mjs->error;
+  {
+    struct mjs_bcode_part *bp = mjs_bcode_part_get_by_offset(mjs, start_off);
+    /* calling a function from C evaluates only that function */
+    if (bp->start_idx == start_off) bp->exec_res = mjs->error;
+  }
   mjs->exec_depth--;
 
   *res = mjs_pop(mjs);
-- 
2.43.0


From 6d2ebbbd7bfcc39aa10d807b35cd198749714e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 57/86] fix: load() into the current namespace after load()
 into an object

---
 mjs.c             | 22 ++++++++++++++--------
 src/mjs_builtin.c | 22 ++++++++++++++--------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/mjs.c b/mjs.c
index 484b849..55efa1b 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7321,7 +7321,7 @@ static void mjs_load(struct mjs *mjs) {
   if (mjs_is_string(arg0)) {
     const char *path = mjs_get_cstring(mjs, &arg0);
     struct mjs_bcode_part *bp = NULL;
-    mjs_err_t ret;
+    mjs_err_t ret, prev_res = MJS_ERRS_CNT;
 
     if (mjs_is_object(arg1)) {
       custom_global = 1;
@@ -7340,19 +7340,25 @@ static void mjs_load(struct mjs *mjs) {
        * However, if the custom global object was provided, then reevaluate
        * the file in any case.
        */
-      if (bp->exec_res != MJS_OK || custom_global) {
+      prev_res = bp->exec_res;
+      if (prev_res != MJS_OK || custom_global) {
         ret = mjs_execute(mjs, bp->start_idx, &res);
       } else {
         ret = MJS_OK;
       }
     }
+    /*
+     * arg0, path and bp might be invalidated by executing a file, so refresh
+     * them
+     */
+    arg0 = mjs_arg(mjs, 0);
+    path = mjs_get_cstring(mjs, &arg0);
+    if (custom_global) {
+      /* The current namespace does not have the contents of the file yet */
+      bp = mjs_get_loaded_file_bcode(mjs, path);
+      if (bp != NULL) bp->exec_res = prev_res;
+    }
     if (ret != MJS_OK) {
-      /*
-       * arg0 and path might be invalidated by executing a file, so refresh
-       * them
-       */
-      arg0 = mjs_arg(mjs, 0);
-      path = mjs_get_cstring(mjs, &arg0);
       mjs_prepend_errorf(mjs, ret, "failed to exec file \"%s\"", path);
       goto clean;
     }
diff --git a/src/mjs_builtin.c b/src/mjs_builtin.c
index 27a6e00..7cd3b99 100644
--- a/src/mjs_builtin.c
+++ b/src/mjs_builtin.c
@@ -57,7 +57,7 @@ static void mjs_load(struct mjs *mjs) {
   if (mjs_is_string(arg0)) {
     const char *path = mjs_get_cstring(mjs, &arg0);
     struct mjs_bcode_part *bp = NULL;
-    mjs_err_t ret;
+    mjs_err_t ret, prev_res = MJS_ERRS_CNT;
 
     if (mjs_is_object(arg1)) {
       custom_global = 1;
@@ -76,19 +76,25 @@ static void mjs_load(struct mjs *mjs) {
        * However, if the custom global object was provided, then reevaluate
        * the file in any case.
        */
-      if (bp->exec_res != MJS_OK || custom_global) {
+      prev_res = bp->exec_res;
+      if (prev_res != MJS_OK || custom_global) {
         ret = mjs_execute(mjs, bp->start_idx, &res);
       } else {
         ret = MJS_OK;
       }
     }
+    /*
+     * arg0, path and bp might be invalidated by executing a file, so refresh
+     * them
+     */
+    arg0 = mjs_arg(mjs, 0);
+    path = mjs_get_cstring(mjs, &arg0);
+    if (custom_global) {
+      /* The current namespace does not have the contents of the file yet */
+      bp = mjs_get_loaded_file_bcode(mjs, path);
+      if (bp != NULL) bp->exec_res = prev_res;
+    }
     if (ret != MJS_OK) {
-      /*
-       * arg0 and path might be invalidated by executing a file, so refresh
-       * them
-       */
-      arg0 = mjs_arg(mjs, 0);
-      path = mjs_get_cstring(mjs, &arg0);
       mjs_prepend_errorf(mjs, ret, "failed to exec file \"%s\"", path);
       goto clean;
     }
-- 
2.43.0


From 897733edb75aa639103974a0bc0b62ff3b3a030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 58/86] fix: load() refuses file names with a NUL byte

---
 mjs.c             | 4 ++++
 src/mjs_builtin.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mjs.c b/mjs.c
index 55efa1b..8992e92 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7323,6 +7323,10 @@ static void mjs_load(struct mjs *mjs) {
     struct mjs_bcode_part *bp = NULL;
     mjs_err_t ret, prev_res = MJS_ERRS_CNT;
 
+    if (path == NULL) {
+      mjs_prepend_errorf(mjs, MJS_FILE_READ_ERROR, "file name has a NUL byte");
+      goto clean;
+    }
     if (mjs_is_object(arg1)) {
       custom_global = 1;
       push_mjs_val(&mjs->scopes, arg1);
diff --git a/src/mjs_builtin.c b/src/mjs_builtin.c
index 7cd3b99..5660961 100644
--- a/src/mjs_builtin.c
+++ b/src/mjs_builtin.c
@@ -59,6 +59,10 @@ static void mjs_load(struct mjs *mjs) {
     struct mjs_bcode_part *bp = NULL;
     mjs_err_t ret, prev_res = MJS_ERRS_CNT;
 
+    if (path == NULL) {
+      mjs_prepend_errorf(mjs, MJS_FILE_READ_ERROR, "file name has a NUL byte");
+      goto clean;
+    }
     if (mjs_is_object(arg1)) {
       custom_global = 1;
       push_mjs_val(&mjs->scopes, arg1);
-- 
2.43.0


From 87ee6a3a47888846b481ed6d5a7533fdaf13fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:02 +0000
Subject: [PATCH 59/86] fix: errors in the last line of a script are reported
 with its number

---
 mjs.c          | 6 ++----
 src/mjs_util.c | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/mjs.c b/mjs.c
index 8992e92..a9c4f18 100644
--- a/mjs.c
+++ b/mjs.c
@@ -14532,12 +14532,10 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
       cs_varint_decode(p, ~0, &line_no, &llen);
       p += llen;
 
-      if (cur_offset >= (uint64_t) offset) {
-        ret = prev_line_no;
-        break;
-      }
+      if (cur_offset >= (uint64_t) offset) break;
       prev_line_no = line_no;
     }
+    ret = prev_line_no;
   }
   return ret;
 }
diff --git a/src/mjs_util.c b/src/mjs_util.c
index 9951432..871852e 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -406,12 +406,10 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
       cs_varint_decode(p, ~0, &line_no, &llen);
       p += llen;
 
-      if (cur_offset >= (uint64_t) offset) {
-        ret = prev_line_no;
-        break;
-      }
+      if (cur_offset >= (uint64_t) offset) break;
       prev_line_no = line_no;
     }
+    ret = prev_line_no;
   }
   return ret;
 }
-- 
2.43.0


From 7edd8a661fa27e48122bc2f75e0dae22e7364491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:03 +0000
Subject: [PATCH 60/86] fix: line breaks in strings count as lines

---
 mjs.c         | 1 +
 src/mjs_tok.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index a9c4f18..905cb92 100644
--- a/mjs.c
+++ b/mjs.c
@@ -13983,6 +13983,7 @@ static int getstr(struct pstate *p) {
   int quote = *p->pos++;
   p->tok.ptr++;
   while (p->pos[0] != '\0' && p->pos[0] != quote) {
+    if (p->pos[0] == '\n') p->line_no++;
     if (p->pos[0] == '\\' && p->pos[1] != '\0' &&
         (p->pos[1] == quote || strchr("bfnrtv\\", p->pos[1]) != NULL)) {
       p->pos += 2;
diff --git a/src/mjs_tok.c b/src/mjs_tok.c
index da85f44..910971e 100644
--- a/src/mjs_tok.c
+++ b/src/mjs_tok.c
@@ -110,6 +110,7 @@ static int getstr(struct pstate *p) {
   int quote = *p->pos++;
   p->tok.ptr++;
   while (p->pos[0] != '\0' && p->pos[0] != quote) {
+    if (p->pos[0] == '\n') p->line_no++;
     if (p->pos[0] == '\\' && p->pos[1] != '\0' &&
         (p->pos[1] == quote || strchr("bfnrtv\\", p->pos[1]) != NULL)) {
       p->pos += 2;
-- 
2.43.0


From 3060dbeb5c695e055f58c3d19d0376400d09dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:03 +0000
Subject: [PATCH 61/86] fix: mjs_get_offset_by_call_frame_num(mjs, 0) gives an
 offset in the whole bytecode

---
 mjs.c          | 2 +-
 src/mjs_exec.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 905cb92..f0ca827 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8621,7 +8621,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   off -= bp.start_idx;
 
   for (i = off; i < bp.data.len; i++) {
-    mjs->cur_bcode_offset = i;
+    mjs->cur_bcode_offset = bp.start_idx + i;
 
     if (mjs->need_gc) {
       if (maybe_gc(mjs)) {
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index cb95f92..6ca6afe 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -613,7 +613,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   off -= bp.start_idx;
 
   for (i = off; i < bp.data.len; i++) {
-    mjs->cur_bcode_offset = i;
+    mjs->cur_bcode_offset = bp.start_idx + i;
 
     if (mjs->need_gc) {
       if (maybe_gc(mjs)) {
-- 
2.43.0


From c0df2847f0938cab0dcda95f5c9fe951282c90c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:18 +0000
Subject: [PATCH 62/86] fix: an error does not show the stack trace or message
 of an earlier one

---
 mjs.c          | 9 +++++++--
 src/mjs_core.c | 4 ++++
 src/mjs_exec.c | 5 +++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index f0ca827..eca0a86 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7663,6 +7663,10 @@ mjs_err_t mjs_set_errorf(struct mjs *mjs, mjs_err_t err, const char *fmt, ...) {
   free(mjs->error_msg);
   mjs->error_msg = NULL;
   mjs->error = err;
+  if (err == MJS_OK) {
+    free(mjs->stack_trace);
+    mjs->stack_trace = NULL;
+  }
   if (fmt != NULL) {
     mg_avprintf(&mjs->error_msg, 0, fmt, ap);
   }
@@ -8608,8 +8612,6 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   size_t start_bp_idx = bp.start_idx;
 
   mjs_set_errorf(mjs, MJS_OK, NULL);
-  free(mjs->stack_trace);
-  mjs->stack_trace = NULL;
 
   /* Nested calls via C (apply, callbacks, load) take C stack */
   if (mjs->exec_depth >= MJS_MAX_EXEC_DEPTH) {
@@ -9065,6 +9067,8 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
                                         mjs_val_t *res) {
   size_t off = mjs->bcode_len;
   mjs_val_t r = MJS_UNDEFINED;
+  /* Forget the previous error, like mjs_execute() does */
+  mjs_set_errorf(mjs, MJS_OK, NULL);
   mjs->error = mjs_parse(path, src, mjs);
 #if MJS_ENABLE_DEBUG
   if (cs_log_level >= LL_VERBOSE_DEBUG) mjs_dump(mjs, 1);
@@ -9168,6 +9172,7 @@ mjs_err_t mjs_exec_file(struct mjs *mjs, const char *path, mjs_val_t *res) {
 
   if (source_code == NULL) {
     error = MJS_FILE_READ_ERROR;
+    mjs_set_errorf(mjs, MJS_OK, NULL);
     mjs_prepend_errorf(mjs, error, "failed to read file \"%s\"", path);
     goto clean;
   }
diff --git a/src/mjs_core.c b/src/mjs_core.c
index 4a1f394..d12ae44 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -128,6 +128,10 @@ mjs_err_t mjs_set_errorf(struct mjs *mjs, mjs_err_t err, const char *fmt, ...) {
   free(mjs->error_msg);
   mjs->error_msg = NULL;
   mjs->error = err;
+  if (err == MJS_OK) {
+    free(mjs->stack_trace);
+    mjs->stack_trace = NULL;
+  }
   if (fmt != NULL) {
     mg_avprintf(&mjs->error_msg, 0, fmt, ap);
   }
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 6ca6afe..c62346b 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -600,8 +600,6 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   size_t start_bp_idx = bp.start_idx;
 
   mjs_set_errorf(mjs, MJS_OK, NULL);
-  free(mjs->stack_trace);
-  mjs->stack_trace = NULL;
 
   /* Nested calls via C (apply, callbacks, load) take C stack */
   if (mjs->exec_depth >= MJS_MAX_EXEC_DEPTH) {
@@ -1068,6 +1066,8 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
                                         mjs_val_t *res) {
   size_t off = mjs->bcode_len;
   mjs_val_t r = MJS_UNDEFINED;
+  /* Forget the previous error, like mjs_execute() does */
+  mjs_set_errorf(mjs, MJS_OK, NULL);
   mjs->error = mjs_parse(path, src, mjs);
 #if MJS_ENABLE_DEBUG
   if (cs_log_level >= LL_VERBOSE_DEBUG) mjs_dump(mjs, 1);
@@ -1171,6 +1171,7 @@ mjs_err_t mjs_exec_file(struct mjs *mjs, const char *path, mjs_val_t *res) {
 
   if (source_code == NULL) {
     error = MJS_FILE_READ_ERROR;
+    mjs_set_errorf(mjs, MJS_OK, NULL);
     mjs_prepend_errorf(mjs, error, "failed to read file \"%s\"", path);
     goto clean;
   }
-- 
2.43.0


From 9d1616a249e71b7e93d7280f3c4646ef6c82c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:18 +0000
Subject: [PATCH 63/86] fix: line numbers stay right when a jump needs a longer
 offset

---
 mjs.c           | 25 +++++++++++++++++++++++++
 src/mjs_bcode.c | 25 +++++++++++++++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/mjs.c b/mjs.c
index eca0a86..7e9cc33 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7177,6 +7177,27 @@ MJS_PRIVATE void emit_str(struct pstate *pstate, const char *ptr, size_t len) {
   pstate->cur_idx += llen + len;
 }
 
+/* Moves the items of the line number map at or after `offset` by `diff` */
+static void shift_lineno_map(struct pstate *p, size_t offset, int diff) {
+  struct mbuf old = p->offset_lineno_map;
+  size_t i = 0;
+  mbuf_init(&p->offset_lineno_map, old.len);
+  while (i < old.len) {
+    uint64_t v[2];
+    int k;
+    for (k = 0; k < 2; k++) {
+      uint8_t enc[10];
+      size_t llen;
+      cs_varint_decode((uint8_t *) old.buf + i, old.len - i, &v[k], &llen);
+      i += llen;
+      if (k == 0 && v[k] >= offset) v[k] += diff;
+      llen = cs_varint_encode(v[k], enc, sizeof(enc));
+      mbuf_append(&p->offset_lineno_map, enc, llen);
+    }
+  }
+  mbuf_free(&old);
+}
+
 MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
                                         size_t offset, size_t v) {
   int llen = (int) cs_varint_llen(v);
@@ -7202,6 +7223,10 @@ MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
   if (p->cur_idx >= (int) offset) {
     p->cur_idx += diff;
   }
+  if (diff != 0) {
+    shift_lineno_map(p, offset + MJS_INIT_OFFSET_SIZE - p->start_bcode_idx,
+                     diff);
+  }
   return diff;
 }
 
diff --git a/src/mjs_bcode.c b/src/mjs_bcode.c
index 835f6c6..2f507a0 100644
--- a/src/mjs_bcode.c
+++ b/src/mjs_bcode.c
@@ -60,6 +60,27 @@ MJS_PRIVATE void emit_str(struct pstate *pstate, const char *ptr, size_t len) {
   pstate->cur_idx += llen + len;
 }
 
+/* Moves the items of the line number map at or after `offset` by `diff` */
+static void shift_lineno_map(struct pstate *p, size_t offset, int diff) {
+  struct mbuf old = p->offset_lineno_map;
+  size_t i = 0;
+  mbuf_init(&p->offset_lineno_map, old.len);
+  while (i < old.len) {
+    uint64_t v[2];
+    int k;
+    for (k = 0; k < 2; k++) {
+      uint8_t enc[10];
+      size_t llen;
+      cs_varint_decode((uint8_t *) old.buf + i, old.len - i, &v[k], &llen);
+      i += llen;
+      if (k == 0 && v[k] >= offset) v[k] += diff;
+      llen = cs_varint_encode(v[k], enc, sizeof(enc));
+      mbuf_append(&p->offset_lineno_map, enc, llen);
+    }
+  }
+  mbuf_free(&old);
+}
+
 MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
                                         size_t offset, size_t v) {
   int llen = (int) cs_varint_llen(v);
@@ -85,6 +106,10 @@ MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
   if (p->cur_idx >= (int) offset) {
     p->cur_idx += diff;
   }
+  if (diff != 0) {
+    shift_lineno_map(p, offset + MJS_INIT_OFFSET_SIZE - p->start_bcode_idx,
+                     diff);
+  }
   return diff;
 }
 
-- 
2.43.0


From c7f8809be0ab5a49086d9f607efb3a972988961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:51 +0000
Subject: [PATCH 64/86] fix: a parse error in a block is reported where it is

---
 mjs.c            | 2 +-
 src/mjs_parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 7e9cc33..a5a3272 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12261,7 +12261,7 @@ static mjs_err_t parse_block(struct pstate *p, int mkscope) {
   }
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   if (mkscope) emit_byte(p, OP_NEW_SCOPE);
-  res = parse_statement_list(p, TOK_CLOSE_CURLY);
+  if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
   EXPECT(p, TOK_CLOSE_CURLY);
   if (mkscope) emit_byte(p, OP_DEL_SCOPE);
   p->depth--;
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 8d69fd1..474a3b7 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -185,7 +185,7 @@ static mjs_err_t parse_block(struct pstate *p, int mkscope) {
   }
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   if (mkscope) emit_byte(p, OP_NEW_SCOPE);
-  res = parse_statement_list(p, TOK_CLOSE_CURLY);
+  if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
   EXPECT(p, TOK_CLOSE_CURLY);
   if (mkscope) emit_byte(p, OP_DEL_SCOPE);
   p->depth--;
-- 
2.43.0


From 3ba8d708e42b5aa5463459820ee973111c83cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:11 +0000
Subject: [PATCH 65/86] fix: loops without a closing brace are rejected

---
 mjs.c            | 6 +++---
 src/mjs_parser.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index a5a3272..0ea28bc 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12688,7 +12688,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   // Parse loop body
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
@@ -12815,7 +12815,7 @@ static mjs_err_t parse_for(struct pstate *p) {
   /* Parse loop body */
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
@@ -12891,7 +12891,7 @@ static mjs_err_t parse_while(struct pstate *p) {
   // Parse loop body
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 474a3b7..8f5b039 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -612,7 +612,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   // Parse loop body
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
@@ -739,7 +739,7 @@ static mjs_err_t parse_for(struct pstate *p) {
   /* Parse loop body */
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
@@ -815,7 +815,7 @@ static mjs_err_t parse_while(struct pstate *p) {
   // Parse loop body
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
-- 
2.43.0


From 2b05bb46d498addb775320c6da7bbaa42104acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:11 +0000
Subject: [PATCH 66/86] fix: functions without an opening brace are rejected

---
 mjs.c            | 1 +
 src/mjs_parser.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index 0ea28bc..db96454 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12309,6 +12309,7 @@ static mjs_err_t parse_function(struct pstate *p) {
     pnext1(p);
   }
   EXPECT(p, TOK_CLOSE_PAREN);
+  if (p->tok.tok != TOK_OPEN_CURLY) SYNTAX_ERROR(p);
   if ((res = parse_block(p, 0)) != MJS_OK) return res;
   emit_byte(p, OP_RETURN);
   prologue += mjs_bcode_insert_offset(p, p->mjs, off,
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 8f5b039..d7f5bfc 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -233,6 +233,7 @@ static mjs_err_t parse_function(struct pstate *p) {
     pnext1(p);
   }
   EXPECT(p, TOK_CLOSE_PAREN);
+  if (p->tok.tok != TOK_OPEN_CURLY) SYNTAX_ERROR(p);
   if ((res = parse_block(p, 0)) != MJS_OK) return res;
   emit_byte(p, OP_RETURN);
   prologue += mjs_bcode_insert_offset(p, p->mjs, off,
-- 
2.43.0


From 3ce61bce3910d83197dde661e19d237188ce1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:11 +0000
Subject: [PATCH 67/86] fix: only a name can follow a dot

---
 mjs.c            | 1 +
 src/mjs_parser.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index db96454..ab75179 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12472,6 +12472,7 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
+      if (p->tok.tok != TOK_IDENT) SYNTAX_ERROR(p);
       if ((res = parse_literal(p, &p->tok)) != MJS_OK) return res;
     }
   }
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index d7f5bfc..ea57faf 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -396,6 +396,7 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
+      if (p->tok.tok != TOK_IDENT) SYNTAX_ERROR(p);
       if ((res = parse_literal(p, &p->tok)) != MJS_OK) return res;
     }
   }
-- 
2.43.0


From 5b03539ee4f6487dd496e950852797c8ef82c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:34 +0000
Subject: [PATCH 68/86] fix: only 0 .. 255 can be assigned to a byte of memory,
 also beyond 2^32

---
 mjs.c          | 6 +++---
 src/mjs_exec.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index ab75179..1348c65 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8396,18 +8396,18 @@ static void exec_expr(struct mjs *mjs, int op) {
          */
 
         int ikey = mjs_get_int(mjs, key);
-        int ival = mjs_get_int(mjs, val);
+        double dval = mjs_get_double(mjs, val);
 
         if (!mjs_is_number(key)) {
           mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "index must be a number");
           val = MJS_UNDEFINED;
-        } else if (!mjs_is_number(val) || ival < 0 || ival > 0xff) {
+        } else if (!mjs_is_number(val) || !(dval > -1 && dval < 0x100)) {
           mjs_prepend_errorf(mjs, MJS_TYPE_ERROR,
                              "only number 0 .. 255 can be assigned");
           val = MJS_UNDEFINED;
         } else {
           uint8_t *ptr = (uint8_t *) mjs_get_ptr(mjs, obj);
-          *(ptr + ikey) = (uint8_t) ival;
+          *(ptr + ikey) = (uint8_t) dval;
         }
       } else {
         mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "unsupported object type");
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index c62346b..14f2fca 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -359,18 +359,18 @@ static void exec_expr(struct mjs *mjs, int op) {
          */
 
         int ikey = mjs_get_int(mjs, key);
-        int ival = mjs_get_int(mjs, val);
+        double dval = mjs_get_double(mjs, val);
 
         if (!mjs_is_number(key)) {
           mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "index must be a number");
           val = MJS_UNDEFINED;
-        } else if (!mjs_is_number(val) || ival < 0 || ival > 0xff) {
+        } else if (!mjs_is_number(val) || !(dval > -1 && dval < 0x100)) {
           mjs_prepend_errorf(mjs, MJS_TYPE_ERROR,
                              "only number 0 .. 255 can be assigned");
           val = MJS_UNDEFINED;
         } else {
           uint8_t *ptr = (uint8_t *) mjs_get_ptr(mjs, obj);
-          *(ptr + ikey) = (uint8_t) ival;
+          *(ptr + ikey) = (uint8_t) dval;
         }
       } else {
         mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "unsupported object type");
-- 
2.43.0


From de05cfbd6ecf1ac52e1edafaa6cad7939ae1e11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:11 +0000
Subject: [PATCH 69/86] fix: a DataView does not reach memory before its buffer

---
 lib/api_dataview.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/api_dataview.js b/lib/api_dataview.js
index 428216a..1f30581 100644
--- a/lib/api_dataview.js
+++ b/lib/api_dataview.js
@@ -206,7 +206,7 @@ let DataView = {
   },
 
   _cl: function(idx, len, ilen) {
-    if (len !== undefined && idx + ilen > len) {
+    if (len !== undefined && (idx < 0 || idx + ilen > len)) {
       die(DataView._errm);
       return false;
     }
-- 
2.43.0


From dfdf0bc562036ab08535e2f55eb6e9db75f2b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:11 +0000
Subject: [PATCH 70/86] fix: File.write() ends when nothing more can be written

---
 lib/api_file.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/api_file.js b/lib/api_file.js
index ea01b8d..b2c2f43 100644
--- a/lib/api_file.js
+++ b/lib/api_file.js
@@ -49,7 +49,7 @@ let File = {
       let len = 5;  // Use light 5-byte strings for writing
       if (off + len > tot) len = tot - off;
       let n = File.fwrite(str.slice(off, off + len), 1, len, fp);
-      // if (n <= 0) break;
+      if (n <= 0) break;
       off += n;
     }
     File.fclose(fp);
-- 
2.43.0


From 4fbf28e3d7b34c7ff842bcb2f5010c8371ba226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:14 +0000
Subject: [PATCH 71/86] fix: a struct member that is a NULL string is null

---
 mjs.c            | 2 +-
 src/mjs_object.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 1348c65..9322c34 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12016,7 +12016,7 @@ mjs_val_t mjs_struct_to_obj(struct mjs *mjs, const void *base,
       }
       case MJS_STRUCT_FIELD_TYPE_CHAR_PTR: {
         const char *value = *(const char **) ptr;
-        v = mjs_mk_string(mjs, value, ~0, 1);
+        v = (value != NULL) ? mjs_mk_string(mjs, value, ~0, 1) : MJS_NULL;
         break;
       }
       case MJS_STRUCT_FIELD_TYPE_VOID_PTR: {
diff --git a/src/mjs_object.c b/src/mjs_object.c
index 9d4004d..ac423f9 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -354,7 +354,7 @@ mjs_val_t mjs_struct_to_obj(struct mjs *mjs, const void *base,
       }
       case MJS_STRUCT_FIELD_TYPE_CHAR_PTR: {
         const char *value = *(const char **) ptr;
-        v = mjs_mk_string(mjs, value, ~0, 1);
+        v = (value != NULL) ? mjs_mk_string(mjs, value, ~0, 1) : MJS_NULL;
         break;
       }
       case MJS_STRUCT_FIELD_TYPE_VOID_PTR: {
-- 
2.43.0


From 01cbe5775686052af8a33a8471c122e6bc0ff590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:45 +0000
Subject: [PATCH 72/86] fix: concatenation fails when the string would be too
 long to be measured

---
 mjs.c            | 6 ++++++
 src/mjs_string.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mjs.c b/mjs.c
index 9322c34..fd85dc6 100644
--- a/mjs.c
+++ b/mjs.c
@@ -13581,6 +13581,12 @@ MJS_PRIVATE mjs_val_t s_concat(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
   a_ptr = mjs_get_string(mjs, &a, &a_len);
   b_ptr = mjs_get_string(mjs, &b, &b_len);
 
+  /* The length of a string is kept as an int */
+  if (a_len + b_len > 0x7fffff00) {
+    mjs_prepend_errorf(mjs, MJS_OUT_OF_MEMORY, "string is too long");
+    return MJS_UNDEFINED;
+  }
+
   /* Create a placeholder string */
   res = mjs_mk_string(mjs, NULL, a_len + b_len, 1);
 
diff --git a/src/mjs_string.c b/src/mjs_string.c
index ac8f24e..ec612ef 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -283,6 +283,12 @@ MJS_PRIVATE mjs_val_t s_concat(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
   a_ptr = mjs_get_string(mjs, &a, &a_len);
   b_ptr = mjs_get_string(mjs, &b, &b_len);
 
+  /* The length of a string is kept as an int */
+  if (a_len + b_len > 0x7fffff00) {
+    mjs_prepend_errorf(mjs, MJS_OUT_OF_MEMORY, "string is too long");
+    return MJS_UNDEFINED;
+  }
+
   /* Create a placeholder string */
   res = mjs_mk_string(mjs, NULL, a_len + b_len, 1);
 
-- 
2.43.0


From fc2fdcffeeedade848c055e692b352eb84c13169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:17 +0000
Subject: [PATCH 73/86] fix: a backslash before a NUL is not an escape in JSON

---
 mjs.c               | 2 +-
 src/frozen/frozen.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index fd85dc6..91f9bea 100644
--- a/mjs.c
+++ b/mjs.c
@@ -5724,7 +5724,7 @@ int json_unescape(const char *src, int slen, char *dst, int dlen) {
           /* Complex \uXXXX escapes drag utf8 lib... Do it at some stage */
           return JSON_STRING_INVALID;
         }
-      } else if ((p = (char *) strchr(esc1, *src)) != NULL) {
+      } else if (*src != '\0' && (p = (char *) strchr(esc1, *src)) != NULL) {
         if (dst < dend) *dst = esc2[p - esc1];
       } else {
         return JSON_STRING_INVALID;
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 735a740..94ddab2 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -887,7 +887,7 @@ int json_unescape(const char *src, int slen, char *dst, int dlen) {
           /* Complex \uXXXX escapes drag utf8 lib... Do it at some stage */
           return JSON_STRING_INVALID;
         }
-      } else if ((p = (char *) strchr(esc1, *src)) != NULL) {
+      } else if (*src != '\0' && (p = (char *) strchr(esc1, *src)) != NULL) {
         if (dst < dend) *dst = esc2[p - esc1];
       } else {
         return JSON_STRING_INVALID;
-- 
2.43.0


From 8c6e133568a350cfaa70ba637af859e4e9bafc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:17 +0000
Subject: [PATCH 74/86] fix: json_printf takes a double for %e, %E, %F and %G

---
 mjs.c               | 6 +++++-
 src/frozen/frozen.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 91f9bea..d1d43b6 100644
--- a/mjs.c
+++ b/mjs.c
@@ -5547,8 +5547,12 @@ int json_vprintf(struct json_out *out, const char *fmt, va_list xap) {
             case 'd':
               (void) va_arg(ap, int);
               break;
+            case 'e':
+            case 'E':
             case 'g':
+            case 'G':
             case 'f':
+            case 'F':
               (void) va_arg(ap, double);
               break;
             case 'p':
@@ -5613,7 +5617,7 @@ int json_printf_array(struct json_out *out, va_list *ap) {
     memcpy(&val, arr + i * elem_size,
            elem_size > sizeof(val) ? sizeof(val) : elem_size);
     if (i > 0) len += json_printf(out, ", ");
-    if (strpbrk(fmt, "efg") != NULL) {
+    if (strpbrk(fmt, "eEfFgG") != NULL) {
       len += json_printf(out, fmt, val.d);
     } else {
       len += json_printf(out, fmt, val.i);
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 94ddab2..4bd19fd 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -710,8 +710,12 @@ int json_vprintf(struct json_out *out, const char *fmt, va_list xap) {
             case 'd':
               (void) va_arg(ap, int);
               break;
+            case 'e':
+            case 'E':
             case 'g':
+            case 'G':
             case 'f':
+            case 'F':
               (void) va_arg(ap, double);
               break;
             case 'p':
@@ -776,7 +780,7 @@ int json_printf_array(struct json_out *out, va_list *ap) {
     memcpy(&val, arr + i * elem_size,
            elem_size > sizeof(val) ? sizeof(val) : elem_size);
     if (i > 0) len += json_printf(out, ", ");
-    if (strpbrk(fmt, "efg") != NULL) {
+    if (strpbrk(fmt, "eEfFgG") != NULL) {
       len += json_printf(out, fmt, val.d);
     } else {
       len += json_printf(out, fmt, val.i);
-- 
2.43.0


From 59f581b033e792015437bac00438a257af69af4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:17 +0000
Subject: [PATCH 75/86] fix: JSON that ends with a backslash is not read beyond
 its end

---
 mjs.c               | 3 ++-
 src/frozen/frozen.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index d1d43b6..3b9019d 100644
--- a/mjs.c
+++ b/mjs.c
@@ -5020,6 +5020,7 @@ static int json_isxdigit(int ch) {
 }
 
 static int json_get_escape_len(const char *s, int len) {
+  if (len < 2) return JSON_STRING_INCOMPLETE;
   switch (*s) {
     case 'u':
       return len < 6 ? JSON_STRING_INCOMPLETE
@@ -5035,7 +5036,7 @@ static int json_get_escape_len(const char *s, int len) {
     case 'n':
     case 'r':
     case 't':
-      return len < 2 ? JSON_STRING_INCOMPLETE : 1;
+      return 1;
     default:
       return JSON_STRING_INVALID;
   }
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 4bd19fd..72403ae 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -183,6 +183,7 @@ static int json_isxdigit(int ch) {
 }
 
 static int json_get_escape_len(const char *s, int len) {
+  if (len < 2) return JSON_STRING_INCOMPLETE;
   switch (*s) {
     case 'u':
       return len < 6 ? JSON_STRING_INCOMPLETE
@@ -198,7 +199,7 @@ static int json_get_escape_len(const char *s, int len) {
     case 'n':
     case 'r':
     case 't':
-      return len < 2 ? JSON_STRING_INCOMPLETE : 1;
+      return 1;
     default:
       return JSON_STRING_INVALID;
   }
-- 
2.43.0


From 3412d01d681e2e8da5aef02061aa5c8104e34669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 76/86] fix: json_scanf leaves a nested object after a
 conversion of printf

---
 mjs.c               | 1 -
 src/frozen/frozen.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 3b9019d..e1a7438 100644
--- a/mjs.c
+++ b/mjs.c
@@ -5915,7 +5915,6 @@ int json_vscanf(const char *s, int len, const char *fmt, va_list ap) {
           memcpy(fmtbuf, fmt + i, conv_len);
           fmtbuf[conv_len] = '\0';
           i += conv_len;
-          i += strspn(fmt + i, delims);
           break;
         }
       }
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 72403ae..22546e6 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1078,7 +1078,6 @@ int json_vscanf(const char *s, int len, const char *fmt, va_list ap) {
           memcpy(fmtbuf, fmt + i, conv_len);
           fmtbuf[conv_len] = '\0';
           i += conv_len;
-          i += strspn(fmt + i, delims);
           break;
         }
       }
-- 
2.43.0


From ef2abc68e208a82f5747924090948e7d25a1fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 77/86] fix: iteration over JSON does not yield values whose
 key only begins with that of the path

---
 mjs.c               | 1 +
 src/frozen/frozen.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index e1a7438..972c300 100644
--- a/mjs.c
+++ b/mjs.c
@@ -6247,6 +6247,7 @@ static void json_next_cb(void *userdata, const char *name, size_t name_len,
   if (d->found) return;
   if (d->path_len >= (int) strlen(path)) return;
   if (strncmp(d->path, path, d->path_len) != 0) return;
+  if (p[0] != '.' && p[0] != '[') return; /* Another, longer, key */
   if (strchr(p + 1, '.') != NULL) return; /* More nested objects - skip */
   if (strchr(p + 1, '[') != NULL) return; /* Ditto for arrays */
   // {OBJECT,ARRAY}_END types do not pass name, _START does. Save key.
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 22546e6..b2c0d6c 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1410,6 +1410,7 @@ static void json_next_cb(void *userdata, const char *name, size_t name_len,
   if (d->found) return;
   if (d->path_len >= (int) strlen(path)) return;
   if (strncmp(d->path, path, d->path_len) != 0) return;
+  if (p[0] != '.' && p[0] != '[') return; /* Another, longer, key */
   if (strchr(p + 1, '.') != NULL) return; /* More nested objects - skip */
   if (strchr(p + 1, '[') != NULL) return; /* Ditto for arrays */
   // {OBJECT,ARRAY}_END types do not pass name, _START does. Save key.
-- 
2.43.0


From 7463687afc514df1202908cd71f91a1438e2187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:52 +0000
Subject: [PATCH 78/86] fix: json_setf changes the value named, strings with
 their quotes, and nothing else

---
 mjs.c               | 60 ++++++++++++++++++++++++++++-----------------
 src/frozen/frozen.c | 60 ++++++++++++++++++++++++++++-----------------
 2 files changed, 74 insertions(+), 46 deletions(-)

diff --git a/mjs.c b/mjs.c
index 972c300..5568de3 100644
--- a/mjs.c
+++ b/mjs.c
@@ -6000,34 +6000,44 @@ struct json_setf_data {
   int prev;         /* Offset of the previous token end */
 };
 
-static int get_matched_prefix_len(const char *s1, const char *s2) {
-  int i = 0;
-  while (s1[i] && s2[i] && s1[i] == s2[i]) i++;
-  return i;
-}
+
 
 static void json_vsetf_cb(void *userdata, const char *name, size_t name_len,
                           const char *path, const struct json_token *t) {
   struct json_setf_data *data = (struct json_setf_data *) userdata;
-  int off, len = get_matched_prefix_len(path, data->json_path);
+  int off, end, len = strlen(path), plen = strlen(data->json_path);
   if (t->ptr == NULL) return;
+  /* Values inside of the one to be changed do not matter */
+  if (strncmp(path, data->json_path, plen) == 0 &&
+      (path[plen] == '.' || path[plen] == '[')) {
+    return;
+  }
   off = t->ptr - data->base;
-  if (len > data->matched) data->matched = len;
-
-  /*
-   * If there is no exact path match, set the mutation position to tbe end
-   * of the object or array
-   */
-  if (len < data->matched && data->pos == 0 &&
-      (t->type == JSON_TYPE_OBJECT_END || t->type == JSON_TYPE_ARRAY_END)) {
-    data->pos = data->end = data->prev;
+  end = off + t->len;
+  if (t->type == JSON_TYPE_STRING) {
+    /* Include quotes */
+    off--;
+    end++;
   }
 
-  /* Exact path match. Set mutation position to the value of this token */
-  if (strcmp(path, data->json_path) == 0 && t->type != JSON_TYPE_OBJECT_START &&
-      t->type != JSON_TYPE_ARRAY_START) {
+  if (strcmp(path, data->json_path) == 0) {
+    /* Exact path match. Set mutation position to the value of this token */
     data->pos = off;
-    data->end = off + t->len;
+    data->end = end;
+    data->matched = len;
+  } else if (data->pos == 0 && strncmp(path, data->json_path, len) == 0 &&
+             ((t->type == JSON_TYPE_OBJECT_END &&
+               data->json_path[len] == '.') ||
+              (t->type == JSON_TYPE_ARRAY_END &&
+               data->json_path[len] == '['))) {
+    /*
+     * There is no exact path match. Set the mutation position to the end of
+     * the innermost object or array on the path, after the last value
+     */
+    data->pos = end - 1;
+    while (json_isspace(data->base[data->pos - 1])) data->pos--;
+    data->end = data->prev = data->pos;
+    data->matched = len + 1;
   }
 
   /*
@@ -6039,9 +6049,10 @@ static void json_vsetf_cb(void *userdata, const char *name, size_t name_len,
    * whether the object/array start is closer then previously stored prev.
    */
   if (data->pos == 0) {
-    data->prev = off + t->len; /* pos is not yet set */
-  } else if ((t->ptr[0] == '[' || t->ptr[0] == '{') && off + 1 < data->pos &&
-             off + 1 > data->prev) {
+    data->prev = end; /* pos is not yet set */
+  } else if ((t->type == JSON_TYPE_OBJECT_END ||
+              t->type == JSON_TYPE_ARRAY_END) &&
+             off + 1 <= data->pos && off + 1 > data->prev) {
     data->prev = off + 1;
   }
   (void) name;
@@ -6058,7 +6069,10 @@ int json_vsetf(const char *s, int len, struct json_out *out,
   data.base = s;
   data.end = len;
   json_walk(s, len, json_vsetf_cb, &data);
-  if (json_fmt == NULL) {
+  if (json_fmt == NULL && data.pos == data.end) {
+    /* Nothing to delete */
+    json_printf(out, "%.*s", len, s);
+  } else if (json_fmt == NULL) {
     /* Deletion codepath */
     json_printf(out, "%.*s", data.prev, s);
     /* Trim comma after the value that begins at object/array start */
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index b2c0d6c..383f945 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1163,34 +1163,44 @@ struct json_setf_data {
   int prev;         /* Offset of the previous token end */
 };
 
-static int get_matched_prefix_len(const char *s1, const char *s2) {
-  int i = 0;
-  while (s1[i] && s2[i] && s1[i] == s2[i]) i++;
-  return i;
-}
+
 
 static void json_vsetf_cb(void *userdata, const char *name, size_t name_len,
                           const char *path, const struct json_token *t) {
   struct json_setf_data *data = (struct json_setf_data *) userdata;
-  int off, len = get_matched_prefix_len(path, data->json_path);
+  int off, end, len = strlen(path), plen = strlen(data->json_path);
   if (t->ptr == NULL) return;
+  /* Values inside of the one to be changed do not matter */
+  if (strncmp(path, data->json_path, plen) == 0 &&
+      (path[plen] == '.' || path[plen] == '[')) {
+    return;
+  }
   off = t->ptr - data->base;
-  if (len > data->matched) data->matched = len;
-
-  /*
-   * If there is no exact path match, set the mutation position to tbe end
-   * of the object or array
-   */
-  if (len < data->matched && data->pos == 0 &&
-      (t->type == JSON_TYPE_OBJECT_END || t->type == JSON_TYPE_ARRAY_END)) {
-    data->pos = data->end = data->prev;
+  end = off + t->len;
+  if (t->type == JSON_TYPE_STRING) {
+    /* Include quotes */
+    off--;
+    end++;
   }
 
-  /* Exact path match. Set mutation position to the value of this token */
-  if (strcmp(path, data->json_path) == 0 && t->type != JSON_TYPE_OBJECT_START &&
-      t->type != JSON_TYPE_ARRAY_START) {
+  if (strcmp(path, data->json_path) == 0) {
+    /* Exact path match. Set mutation position to the value of this token */
     data->pos = off;
-    data->end = off + t->len;
+    data->end = end;
+    data->matched = len;
+  } else if (data->pos == 0 && strncmp(path, data->json_path, len) == 0 &&
+             ((t->type == JSON_TYPE_OBJECT_END &&
+               data->json_path[len] == '.') ||
+              (t->type == JSON_TYPE_ARRAY_END &&
+               data->json_path[len] == '['))) {
+    /*
+     * There is no exact path match. Set the mutation position to the end of
+     * the innermost object or array on the path, after the last value
+     */
+    data->pos = end - 1;
+    while (json_isspace(data->base[data->pos - 1])) data->pos--;
+    data->end = data->prev = data->pos;
+    data->matched = len + 1;
   }
 
   /*
@@ -1202,9 +1212,10 @@ static void json_vsetf_cb(void *userdata, const char *name, size_t name_len,
    * whether the object/array start is closer then previously stored prev.
    */
   if (data->pos == 0) {
-    data->prev = off + t->len; /* pos is not yet set */
-  } else if ((t->ptr[0] == '[' || t->ptr[0] == '{') && off + 1 < data->pos &&
-             off + 1 > data->prev) {
+    data->prev = end; /* pos is not yet set */
+  } else if ((t->type == JSON_TYPE_OBJECT_END ||
+              t->type == JSON_TYPE_ARRAY_END) &&
+             off + 1 <= data->pos && off + 1 > data->prev) {
     data->prev = off + 1;
   }
   (void) name;
@@ -1221,7 +1232,10 @@ int json_vsetf(const char *s, int len, struct json_out *out,
   data.base = s;
   data.end = len;
   json_walk(s, len, json_vsetf_cb, &data);
-  if (json_fmt == NULL) {
+  if (json_fmt == NULL && data.pos == data.end) {
+    /* Nothing to delete */
+    json_printf(out, "%.*s", len, s);
+  } else if (json_fmt == NULL) {
     /* Deletion codepath */
     json_printf(out, "%.*s", data.prev, s);
     /* Trim comma after the value that begins at object/array start */
-- 
2.43.0


From 1a2098d22e7adefa661f25df13014d5aad48003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:40 +0000
Subject: [PATCH 79/86] fix: c_snprintf prints the smallest and the largest
 integers, and pads to the width asked for

---
 mjs.c                 | 42 ++++++++++++++++++++++--------------------
 src/common/str_util.c | 42 ++++++++++++++++++++++--------------------
 2 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/mjs.c b/mjs.c
index 5568de3..7549041 100644
--- a/mjs.c
+++ b/mjs.c
@@ -4368,15 +4368,10 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   return vsnprintf(buf, buf_size, fmt, ap);
 }
 #else
-static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
-                  int field_width) {
+static int c_utoa(char *buf, size_t buf_size, uint64_t num, int neg, int base,
+                  int flags, int field_width) {
   char tmp[40];
-  int i = 0, k = 0, neg = 0;
-
-  if (num < 0) {
-    neg++;
-    num = -num;
-  }
+  int i = 0, k = 0;
 
   /* Print into temporary buffer - in reverse order */
   do {
@@ -4389,16 +4384,16 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
     num /= base;
   } while (num > 0);
 
-  /* Zero padding */
-  if (flags && C_SNPRINTF_FLAG_ZERO) {
-    while (k < field_width && k < (int) sizeof(tmp) - 1) {
-      tmp[k++] = '0';
-    }
+  /* Padding: zeros go after the sign, spaces before it */
+  field_width -= k + neg;
+  for (; field_width > 0 && !(flags & C_SNPRINTF_FLAG_ZERO); field_width--) {
+    C_SNPRINTF_APPEND_CHAR(' ');
   }
-
-  /* And sign */
   if (neg) {
-    tmp[k++] = '-';
+    C_SNPRINTF_APPEND_CHAR('-');
+  }
+  for (; field_width > 0; field_width--) {
+    C_SNPRINTF_APPEND_CHAR('0');
   }
 
   /* Now output */
@@ -4409,6 +4404,13 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
   return i;
 }
 
+static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
+                  int field_width) {
+  /* The magnitude of the smallest number doesn't fit into int64_t */
+  return c_utoa(buf, buf_size, num < 0 ? 0 - (uint64_t) num : (uint64_t) num,
+                num < 0, base, flags, field_width);
+}
+
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) WEAK;
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   int ch, i = 0, len_mod, flags, precision, field_width;
@@ -4513,19 +4515,19 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
         i += c_itoa(buf + i, buf_size - i, va_arg(ap, int64_t), 10, flags,
                     field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 0) {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'l') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned long),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned long), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'z') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, size_t),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, size_t), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if (ch == 'p') {
         unsigned long num = (unsigned long) (uintptr_t) va_arg(ap, void *);
         C_SNPRINTF_APPEND_CHAR('0');
         C_SNPRINTF_APPEND_CHAR('x');
-        i += c_itoa(buf + i, buf_size - i, num, 16, flags, 0);
+        i += c_utoa(buf + i, buf_size - i, num, 0, 16, flags, 0);
       } else {
 #ifndef NO_LIBC
         /*
diff --git a/src/common/str_util.c b/src/common/str_util.c
index 2f325fb..a63b4e0 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -49,15 +49,10 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   return vsnprintf(buf, buf_size, fmt, ap);
 }
 #else
-static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
-                  int field_width) {
+static int c_utoa(char *buf, size_t buf_size, uint64_t num, int neg, int base,
+                  int flags, int field_width) {
   char tmp[40];
-  int i = 0, k = 0, neg = 0;
-
-  if (num < 0) {
-    neg++;
-    num = -num;
-  }
+  int i = 0, k = 0;
 
   /* Print into temporary buffer - in reverse order */
   do {
@@ -70,16 +65,16 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
     num /= base;
   } while (num > 0);
 
-  /* Zero padding */
-  if (flags && C_SNPRINTF_FLAG_ZERO) {
-    while (k < field_width && k < (int) sizeof(tmp) - 1) {
-      tmp[k++] = '0';
-    }
+  /* Padding: zeros go after the sign, spaces before it */
+  field_width -= k + neg;
+  for (; field_width > 0 && !(flags & C_SNPRINTF_FLAG_ZERO); field_width--) {
+    C_SNPRINTF_APPEND_CHAR(' ');
   }
-
-  /* And sign */
   if (neg) {
-    tmp[k++] = '-';
+    C_SNPRINTF_APPEND_CHAR('-');
+  }
+  for (; field_width > 0; field_width--) {
+    C_SNPRINTF_APPEND_CHAR('0');
   }
 
   /* Now output */
@@ -90,6 +85,13 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
   return i;
 }
 
+static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
+                  int field_width) {
+  /* The magnitude of the smallest number doesn't fit into int64_t */
+  return c_utoa(buf, buf_size, num < 0 ? 0 - (uint64_t) num : (uint64_t) num,
+                num < 0, base, flags, field_width);
+}
+
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) WEAK;
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   int ch, i = 0, len_mod, flags, precision, field_width;
@@ -194,19 +196,19 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
         i += c_itoa(buf + i, buf_size - i, va_arg(ap, int64_t), 10, flags,
                     field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 0) {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'l') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned long),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned long), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'z') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, size_t),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, size_t), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if (ch == 'p') {
         unsigned long num = (unsigned long) (uintptr_t) va_arg(ap, void *);
         C_SNPRINTF_APPEND_CHAR('0');
         C_SNPRINTF_APPEND_CHAR('x');
-        i += c_itoa(buf + i, buf_size - i, num, 16, flags, 0);
+        i += c_utoa(buf + i, buf_size - i, num, 0, 16, flags, 0);
       } else {
 #ifndef NO_LIBC
         /*
-- 
2.43.0


From 0abc10e52859980520b14ae8b4983e1cdefc6b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:40 +0000
Subject: [PATCH 80/86] fix: c_snprintf pads strings without a precision by
 what is missing

---
 mjs.c                 | 7 +++++--
 src/common/str_util.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 7549041..423b0f3 100644
--- a/mjs.c
+++ b/mjs.c
@@ -4485,14 +4485,17 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
       if (ch == 's') {
         const char *s = va_arg(ap, const char *); /* Always fetch parameter */
         int j;
-        int pad = field_width - (precision >= 0 ? c_strnlen(s, precision) : 0);
+        /* Ignore negative and 0 precisions */
+        int pad = field_width -
+                  (s == NULL ? 0 : (int) c_strnlen(s, precision > 0
+                                                          ? (size_t) precision
+                                                          : (size_t) ~0));
         for (j = 0; j < pad; j++) {
           C_SNPRINTF_APPEND_CHAR(' ');
         }
 
         /* `s` may be NULL in case of %.*s */
         if (s != NULL) {
-          /* Ignore negative and 0 precisions */
           for (j = 0; (precision <= 0 || j < precision) && s[j] != '\0'; j++) {
             C_SNPRINTF_APPEND_CHAR(s[j]);
           }
diff --git a/src/common/str_util.c b/src/common/str_util.c
index a63b4e0..79a6fa5 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -166,14 +166,17 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
       if (ch == 's') {
         const char *s = va_arg(ap, const char *); /* Always fetch parameter */
         int j;
-        int pad = field_width - (precision >= 0 ? c_strnlen(s, precision) : 0);
+        /* Ignore negative and 0 precisions */
+        int pad = field_width -
+                  (s == NULL ? 0 : (int) c_strnlen(s, precision > 0
+                                                          ? (size_t) precision
+                                                          : (size_t) ~0));
         for (j = 0; j < pad; j++) {
           C_SNPRINTF_APPEND_CHAR(' ');
         }
 
         /* `s` may be NULL in case of %.*s */
         if (s != NULL) {
-          /* Ignore negative and 0 precisions */
           for (j = 0; (precision <= 0 || j < precision) && s[j] != '\0'; j++) {
             C_SNPRINTF_APPEND_CHAR(s[j]);
           }
-- 
2.43.0


From 84c5925781e6831e0276ca3844b96ee97a2426f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:40 +0000
Subject: [PATCH 81/86] fix: mg_strcmp and mg_strcasecmp compare bytes as
 strcmp does

---
 mjs.c               | 12 ++++++------
 src/common/mg_str.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mjs.c b/mjs.c
index 423b0f3..88f6ccd 100644
--- a/mjs.c
+++ b/mjs.c
@@ -4250,8 +4250,8 @@ int mg_strcmp(const struct mg_str str1, const struct mg_str str2) WEAK;
 int mg_strcmp(const struct mg_str str1, const struct mg_str str2) {
   size_t i = 0;
   while (i < str1.len && i < str2.len) {
-    int c1 = str1.p[i];
-    int c2 = str2.p[i];
+    int c1 = (unsigned char) str1.p[i];
+    int c2 = (unsigned char) str2.p[i];
     if (c1 < c2) return -1;
     if (c1 > c2) return 1;
     i++;
@@ -4279,8 +4279,8 @@ int mg_strcasecmp(const struct mg_str str1, const struct mg_str str2) WEAK;
 int mg_strcasecmp(const struct mg_str str1, const struct mg_str str2) {
   size_t i = 0;
   while (i < str1.len && i < str2.len) {
-    int c1 = tolower((int) str1.p[i]);
-    int c2 = tolower((int) str2.p[i]);
+    int c1 = tolower((unsigned char) str1.p[i]);
+    int c2 = tolower((unsigned char) str2.p[i]);
     if (c1 < c2) return -1;
     if (c1 > c2) return 1;
     i++;
@@ -4314,11 +4314,11 @@ const char *mg_strstr(const struct mg_str haystack,
 
 struct mg_str mg_strstrip(struct mg_str s) WEAK;
 struct mg_str mg_strstrip(struct mg_str s) {
-  while (s.len > 0 && isspace((int) *s.p)) {
+  while (s.len > 0 && isspace((unsigned char) *s.p)) {
     s.p++;
     s.len--;
   }
-  while (s.len > 0 && isspace((int) *(s.p + s.len - 1))) {
+  while (s.len > 0 && isspace((unsigned char) *(s.p + s.len - 1))) {
     s.len--;
   }
   return s;
diff --git a/src/common/mg_str.c b/src/common/mg_str.c
index 6f7d028..27131c6 100644
--- a/src/common/mg_str.c
+++ b/src/common/mg_str.c
@@ -96,8 +96,8 @@ int mg_strcmp(const struct mg_str str1, const struct mg_str str2) WEAK;
 int mg_strcmp(const struct mg_str str1, const struct mg_str str2) {
   size_t i = 0;
   while (i < str1.len && i < str2.len) {
-    int c1 = str1.p[i];
-    int c2 = str2.p[i];
+    int c1 = (unsigned char) str1.p[i];
+    int c2 = (unsigned char) str2.p[i];
     if (c1 < c2) return -1;
     if (c1 > c2) return 1;
     i++;
@@ -125,8 +125,8 @@ int mg_strcasecmp(const struct mg_str str1, const struct mg_str str2) WEAK;
 int mg_strcasecmp(const struct mg_str str1, const struct mg_str str2) {
   size_t i = 0;
   while (i < str1.len && i < str2.len) {
-    int c1 = tolower((int) str1.p[i]);
-    int c2 = tolower((int) str2.p[i]);
+    int c1 = tolower((unsigned char) str1.p[i]);
+    int c2 = tolower((unsigned char) str2.p[i]);
     if (c1 < c2) return -1;
     if (c1 > c2) return 1;
     i++;
@@ -160,11 +160,11 @@ const char *mg_strstr(const struct mg_str haystack,
 
 struct mg_str mg_strstrip(struct mg_str s) WEAK;
 struct mg_str mg_strstrip(struct mg_str s) {
-  while (s.len > 0 && isspace((int) *s.p)) {
+  while (s.len > 0 && isspace((unsigned char) *s.p)) {
     s.p++;
     s.len--;
   }
-  while (s.len > 0 && isspace((int) *(s.p + s.len - 1))) {
+  while (s.len > 0 && isspace((unsigned char) *(s.p + s.len - 1))) {
     s.len--;
   }
   return s;
-- 
2.43.0


From 79e0f4b13ea86745da90403930b9b5ac528686a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:40 +0000
Subject: [PATCH 82/86] fix: '?' in a glob does not match a slash

---
 mjs.c                 | 2 +-
 src/common/str_util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 88f6ccd..47d4ce0 100644
--- a/mjs.c
+++ b/mjs.c
@@ -4816,7 +4816,7 @@ size_t mg_match_prefix_n(const struct mg_str pattern, const struct mg_str str) {
 
   for (; i < pattern.len && j < str.len; i++, j++) {
     if (pattern.p[i] == '?') {
-      continue;
+      if (str.p[j] == '/') break;
     } else if (pattern.p[i] == '*') {
       i++;
       if (i < pattern.len && pattern.p[i] == '*') {
diff --git a/src/common/str_util.c b/src/common/str_util.c
index 79a6fa5..473e50c 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -497,7 +497,7 @@ size_t mg_match_prefix_n(const struct mg_str pattern, const struct mg_str str) {
 
   for (; i < pattern.len && j < str.len; i++, j++) {
     if (pattern.p[i] == '?') {
-      continue;
+      if (str.p[j] == '/') break;
     } else if (pattern.p[i] == '*') {
       i++;
       if (i < pattern.len && pattern.p[i] == '*') {
-- 
2.43.0


From 222cd02ea62d69244f2d4f5409f51b2fd8031169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:41 +0000
Subject: [PATCH 83/86] fix: array indexes of 20 digits are not cut short

---
 mjs.c           | 6 +++---
 src/mjs_array.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index 47d4ce0..f59517f 100644
--- a/mjs.c
+++ b/mjs.c
@@ -6958,7 +6958,7 @@ mjs_val_t mjs_array_get2(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 
   if (mjs_is_object(arr)) {
     struct mjs_property *p;
-    char buf[20];
+    char buf[24];
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     p = mjs_get_own_property(mjs, arr, buf, n);
     if (p != NULL) {
@@ -6999,7 +6999,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
   mjs_err_t ret = MJS_OK;
 
   if (mjs_is_object(arr)) {
-    char buf[20];
+    char buf[24];
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     ret = mjs_set(mjs, arr, buf, n, v);
   } else {
@@ -7010,7 +7010,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 }
 
 void mjs_array_del(struct mjs *mjs, mjs_val_t arr, unsigned long index) {
-  char buf[20];
+  char buf[24];
   int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
   mjs_del(mjs, arr, buf, n);
 }
diff --git a/src/mjs_array.c b/src/mjs_array.c
index 649819a..b4f836a 100644
--- a/src/mjs_array.c
+++ b/src/mjs_array.c
@@ -54,7 +54,7 @@ mjs_val_t mjs_array_get2(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 
   if (mjs_is_object(arr)) {
     struct mjs_property *p;
-    char buf[20];
+    char buf[24];
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     p = mjs_get_own_property(mjs, arr, buf, n);
     if (p != NULL) {
@@ -95,7 +95,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
   mjs_err_t ret = MJS_OK;
 
   if (mjs_is_object(arr)) {
-    char buf[20];
+    char buf[24];
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     ret = mjs_set(mjs, arr, buf, n, v);
   } else {
@@ -106,7 +106,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 }
 
 void mjs_array_del(struct mjs *mjs, mjs_val_t arr, unsigned long index) {
-  char buf[20];
+  char buf[24];
   int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
   mjs_del(mjs, arr, buf, n);
 }
-- 
2.43.0


From 4153c0d596f7366bb2726045317ac5d419ddb062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:48 +0000
Subject: [PATCH 84/86] fix: the disassembler does not take the last byte of
 the line map for an instruction

---
 mjs.c          | 2 +-
 src/mjs_util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index f59517f..abaab1e 100644
--- a/mjs.c
+++ b/mjs.c
@@ -14459,7 +14459,7 @@ void mjs_disasm(const uint8_t *code, size_t len) {
     i += delta;
 
     if (map_offset > 0 && i == start + map_offset) {
-      i = start + total_size - 1;
+      i = start + total_size; /* the last byte of the part */
       continue;
     }
   }
diff --git a/src/mjs_util.c b/src/mjs_util.c
index 871852e..cba65a8 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -270,7 +270,7 @@ void mjs_disasm(const uint8_t *code, size_t len) {
     i += delta;
 
     if (map_offset > 0 && i == start + map_offset) {
-      i = start + total_size - 1;
+      i = start + total_size; /* the last byte of the part */
       continue;
     }
   }
-- 
2.43.0


From c839d3814a351697577f47920d5e30ca9659ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:25 +0000
Subject: [PATCH 85/86] verif hooks: the step limit does not interrupt
 OP_RETURN

---
 src/mjs_exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 14f2fca..2494856 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -627,7 +627,8 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
       int verif_action = mjs_verif_step(mjs);
       if (verif_action == 1) {
         maybe_gc(mjs);
-      } else if (verif_action == 2) {
+      } else if (verif_action == 2 && bp.data.p[i] != OP_RETURN) {
+        /* OP_RETURN cannot fail: it pops the frame which an error unwinds */
         mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "step limit");
       }
     }
-- 
2.43.0


From b2da4ca539fd3e196ee740f7d328f4059ce72abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:56 +0000
Subject: [PATCH 86/86] fix: cs_timegm counts seconds in 64 bits

---
 src/common/cs_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/cs_time.c b/src/common/cs_time.c
index f14de39..819de2c 100644
--- a/src/common/cs_time.c
+++ b/src/common/cs_time.c
@@ -81,7 +81,7 @@ double cs_timegm(const struct tm *tm) {
   rt =
       tm->tm_sec /* Seconds */
       +
-      60 *
+      (int64_t) 60 *
           (tm->tm_min /* Minute = 60 seconds */
            +
            60 * (tm->tm_hour /* Hour = 60 minutes */
-- 
2.43.0

