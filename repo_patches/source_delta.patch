From ec4288b04951a6db975821c21a644e2a9a24acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 001/117] fix: evaluate #if expressions in intmax_t/uintmax_t

---
 parse.c      | 16 +++++++++++++---
 preprocess.c | 20 +++++++++++++++++++-
 slimcc.h     |  1 +
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index 227a82b..ee4b359 100644
--- a/parse.c
+++ b/parse.c
@@ -131,6 +131,9 @@ static bool dont_dealloc_vla;
 static bool is_global_init_context;
 static bool *eval_recover;
 
+// True while evaluating a preprocessor expression
+static bool eval_intmax;
+
 static bool is_typename(Token *tok);
 static Type *declspec(Token **rest, Token *tok, VarAttr *attr);
 static Type *typename(Token **rest, Token *tok);
@@ -2837,7 +2840,7 @@ static char *eval_constexpr_data(Node *node) {
 }
 
 static int64_t eval_sign_extend(Type *ty, int64_t val) {
-  if (ty->size == 8 || !is_integer(ty))
+  if (eval_intmax || ty->size == 8 || !is_integer(ty))
     return val;
 
   switch (ty->size) {
@@ -2919,11 +2922,11 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
   case ND_SHL:
     return eval_sign_extend(ty, eval(lhs) << eval(rhs));
   case ND_SHR:
-    if (ty->size == 4)
+    if (ty->size == 4 && !eval_intmax)
       return (uint32_t)eval(lhs) >> eval(rhs);
     return (uint64_t)eval(lhs) >> eval(rhs);
   case ND_SAR:
-    if (ty->size == 4)
+    if (ty->size == 4 && !eval_intmax)
       return (int32_t)eval(lhs) >> eval(rhs);
     return eval(lhs) >> eval(rhs);
   case ND_EQ:
@@ -3140,6 +3143,13 @@ int64_t const_expr(Token **rest, Token *tok) {
   return const_expr2(rest, tok, NULL);
 }
 
+int64_t pp_const_expr(Token **rest, Token *tok) {
+  eval_intmax = true;
+  int64_t val = const_expr(rest, tok);
+  eval_intmax = false;
+  return val;
+}
+
 static long double eval_fp_cast(long double fval, Type *ty) {
   switch (ty->kind) {
   case TY_FLOAT: return (float)fval;
diff --git a/preprocess.c b/preprocess.c
index 673b28c..2bfee81 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -325,6 +325,22 @@ static Token *to_int_token(Token *tok, int64_t val) {
   return tok;
 }
 
+// In #if, all signed integers are intmax_t and all unsigned ones uintmax_t.
+static void to_intmax_token(Token *tok) {
+  int64_t val;
+  long double fval;
+  Type *ty = convert_pp_number(tok, &val, &fval);
+  if (!is_integer(ty))
+    return;
+
+  bool is_unsigned = ty->is_unsigned;
+  if (tok->kind == TK_PP_NUM && val >= 0)
+    is_unsigned = memchr(tok->loc, 'u', tok->len) || memchr(tok->loc, 'U', tok->len);
+
+  to_int_token(tok, val);
+  tok->ty = is_unsigned ? ty_ulong : ty_long;
+}
+
 static Token *read_const_expr(Token *tok) {
   Token head = {0};
   Token *cur = &head;
@@ -356,6 +372,8 @@ static Token *read_const_expr(Token *tok) {
       to_int_token(tok, 1);
     else if (tok->kind == TK_IDENT)
       to_int_token(tok, 0);
+    else if (tok->kind == TK_INT_NUM || tok->kind == TK_PP_NUM)
+      to_intmax_token(tok);
 
     cur = cur->next = tok;
     tok = tok->next;
@@ -379,7 +397,7 @@ static int64_t eval_const_expr(Token *tok) {
   arena_on(&node_arena);
 
   Token *end;
-  int64_t val = const_expr(&end, tok);
+  int64_t val = pp_const_expr(&end, tok);
 
   arena_off(&node_arena);
   arena_off(&ast_arena);
diff --git a/slimcc.h b/slimcc.h
index 8590058..40ad7e3 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -511,6 +511,7 @@ struct Scope {
 
 Node *new_cast(Node *expr, Type *ty);
 int64_t const_expr(Token **rest, Token *tok);
+int64_t pp_const_expr(Token **rest, Token *tok);
 Obj *parse(Token *tok);
 Token *skip_paren(Token *tok);
 Obj *new_lvar(char *name, Type *ty);
-- 
2.43.0


From 3be399d2e485bf23241eb4e0110a37858f033fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 002/117] fix: round integer to floating constant conversions
 to the target type

---
 parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index ee4b359..1431992 100644
--- a/parse.c
+++ b/parse.c
@@ -3185,8 +3185,8 @@ static long double eval_double(Node *node) {
     if (is_flonum(lhs->ty))
       return eval_fp_cast(eval_double(lhs), ty);
     if (lhs->ty->size == 8 && lhs->ty->is_unsigned)
-      return (uint64_t)eval(lhs);
-    return eval(lhs);
+      return eval_fp_cast((uint64_t)eval(lhs), ty);
+    return eval_fp_cast(eval(lhs), ty);
   case ND_NUM:
     return node->fval;
   }
-- 
2.43.0


From a391e4ca1ebe7f5006ab5983a761d4bddf8c9ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 003/117] fix: fold floating arithmetic in the precision of its
 type

---
 parse.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index 1431992..9138f88 100644
--- a/parse.c
+++ b/parse.c
@@ -3159,6 +3159,29 @@ static long double eval_fp_cast(long double fval, Type *ty) {
   internal_error();
 }
 
+// Operate in the precision of the result as rounding a long double
+// result to double may round twice.
+static long double eval_fp_arith(NodeKind kind, long double lval, long double rval, Type *ty) {
+  if (ty->kind == TY_LDOUBLE) {
+    switch (kind) {
+    case ND_ADD: return lval + rval;
+    case ND_SUB: return lval - rval;
+    case ND_MUL: return lval * rval;
+    case ND_DIV: return lval / rval;
+    }
+    internal_error();
+  }
+
+  double ld = lval, rd = rval;
+  switch (kind) {
+  case ND_ADD: return eval_fp_cast(ld + rd, ty);
+  case ND_SUB: return eval_fp_cast(ld - rd, ty);
+  case ND_MUL: return eval_fp_cast(ld * rd, ty);
+  case ND_DIV: return eval_fp_cast(ld / rd, ty);
+  }
+  internal_error();
+}
+
 static long double eval_double(Node *node) {
   if (eval_recover && *eval_recover)
     return false;
@@ -3168,10 +3191,11 @@ static long double eval_double(Node *node) {
   Node *rhs = node->rhs;
 
   switch (node->kind) {
-  case ND_ADD: return eval_fp_cast(eval_double(lhs) + eval_double(rhs), ty);
-  case ND_SUB: return eval_fp_cast(eval_double(lhs) - eval_double(rhs), ty);
-  case ND_MUL: return eval_fp_cast(eval_double(lhs) * eval_double(rhs), ty);
-  case ND_DIV: return eval_fp_cast(eval_double(lhs) / eval_double(rhs), ty);
+  case ND_ADD:
+  case ND_SUB:
+  case ND_MUL:
+  case ND_DIV:
+    return eval_fp_arith(node->kind, eval_double(lhs), eval_double(rhs), ty);
   case ND_POS:
     return eval_double(lhs);
   case ND_NEG:
-- 
2.43.0


From d88cf13077b5f17f4042e325272a58673c27cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 004/117] fix: long double to short, unsigned short and
 unsigned int conversions

---
 codegen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index 9748ec2..e31ebbb 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1068,10 +1068,10 @@ static char f64f80[] = "sub $8, %rsp; movsd %xmm0, (%rsp); fldl (%rsp); add $8,
 
 static char f80i8[] = FROM_F80_1 "fistps" FROM_F80_2 "movsbl (%rsp), %eax" FROM_F80_3;
 static char f80u8[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movzwl (%rsp), %eax" FROM_F80_3;
 static char f80i32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
-static char f80u32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
+static char f80u32[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
 static char f80i64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %rax" FROM_F80_3;
 static char f80u64[] =
   "sub $16, %rsp; movl $0x5f000000, 12(%rsp); flds 12(%rsp); fucomi %st(1), %st; setbe %al;"
-- 
2.43.0


From dbfa0eff70c3c27f6918c09d9b2be855059fde0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 005/117] fix: static initialisation of _Bool and 64-bit wide
 bit-fields

---
 parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 9138f88..db7d601 100644
--- a/parse.c
+++ b/parse.c
@@ -2075,12 +2075,12 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
         if (mem->is_bitfield &&
           ((init2->kind == INIT_EXPR || init2->kind == INIT_TOK))) {
           Node *node = init_num_tok(init2, &(Node){.kind = ND_NUM, .tok = init2->tok});
-          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = ty};
+          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = mem->ty};
 
           char *loc = buf + offset + mem->offset;
           uint64_t oldval = read_buf(loc, mem->ty->size);
           uint64_t newval = eval(&init_expr);
-          uint64_t mask = (1L << mem->bit_width) - 1;
+          uint64_t mask = -1ULL >> (64 - mem->bit_width);
           uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
           memcpy(loc, &combined, mem->ty->size);
           continue;
-- 
2.43.0


From 3c5d6f0839a17dbdd9eb5b22d9ceffdc401db25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 006/117] fix: extend byte-aligned bit-fields of 64-bit types
 to their declared type

---
 codegen.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index e31ebbb..fb38eae 100644
--- a/codegen.c
+++ b/codegen.c
@@ -643,11 +643,22 @@ static void gen_cmp_setcc(NodeKind kind, bool is_unsigned) {
   Printstn("movzbl %%al, %%eax");
 }
 
+// A bit-field has its declared type which may be wider than alt_ty.
+static void extend_bitfield(Type *alt_ty, Type *ty) {
+  if (ty->size == 8 && alt_ty->size < 8) {
+    if (alt_ty->is_unsigned)
+      Printstn("mov %%eax, %%eax");
+    else
+      Printstn("movslq %%eax, %%rax");
+  }
+}
+
 static void gen_bitfield_load(Node *node, int ofs) {
   Member *mem = node->member;
   Type *alt_ty = bitwidth_to_ty(mem->bit_width, mem->ty->is_unsigned);
   if (alt_ty && (mem->bit_offset == (mem->bit_offset / 8 * 8))) {
     load2(alt_ty, ofs + mem->bit_offset / 8, "%rax");
+    extend_bitfield(alt_ty, mem->ty);
     return;
   }
   load2(mem->ty, ofs, "%rax");
@@ -667,8 +678,11 @@ static void gen_bitfield_store(Node *node, bool is_void) {
     char *reg = pop_inreg(tmpreg64[0]);
     store2(alt_ty, mem->bit_offset / 8, reg);
 
-    if (!is_void && alt_ty->size < 4)
-      cast_extend_int32(alt_ty, reg_ax(alt_ty->size), "%eax");
+    if (!is_void) {
+      if (alt_ty->size < 4)
+        cast_extend_int32(alt_ty, reg_ax(alt_ty->size), "%eax");
+      extend_bitfield(alt_ty, mem->ty);
+    }
     return;
   }
 
-- 
2.43.0


From a19be49ad5a7e150fa4b932431edcc8422655d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 007/117] fix: value stored by postfix increment of long double

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index fb38eae..c35c0c6 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1707,6 +1707,8 @@ static void gen_expr2(Node *node, bool is_void) {
     Printstn("movq %%rax, %%rcx");
     load(node->lhs, 0);
     push_by_ty(node->lhs->ty);
+    if (node->lhs->ty->kind == TY_LDOUBLE)
+      load(node->lhs, 0); // Spilling popped it from the x87 stack
     push_from("%rcx");
     gen_expr_null_lhs(ND_ADD, node->lhs->ty, node->rhs);
     store(node->lhs, true);
-- 
2.43.0


From 6c176983221e32ce7195a16fa6b4423519c7f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 008/117] fix: integer promotions on the controlling expression
 of switch

---
 parse.c  | 1 +
 slimcc.h | 1 +
 type.c   | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index db7d601..6a96361 100644
--- a/parse.c
+++ b/parse.c
@@ -2532,6 +2532,7 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
     add_type(node->cond);
     if (!is_integer(node->cond->ty))
       error_tok(tok, "controlling expression not integer");
+    int_promotion(&node->cond);
 
     JumpContext ctx = {.next = jump_ctx, .switch_node = node};
     jump_ctx = &ctx;
diff --git a/slimcc.h b/slimcc.h
index 40ad7e3..b59f83a 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -648,6 +648,7 @@ Type *array_of(Type *base, int64_t size);
 Type *vla_of(Type *base, Node *expr);
 Type *new_type(TypeKind kind, int64_t size, int align);
 void add_type(Node *node);
+void int_promotion(Node **node);
 Type *unqual(Type *ty);
 Type *new_qualified_type(Type *ty);
 Obj *eval_var_opt(Node *node, int *ofs, bool let_subarray, bool let_atomic);
diff --git a/type.c b/type.c
index 4f2e385..74be1f4 100644
--- a/type.c
+++ b/type.c
@@ -316,7 +316,7 @@ bool is_nullptr(Node *node) {
   return false;
 }
 
-static void int_promotion(Node **node) {
+void int_promotion(Node **node) {
   Type *ty = (*node)->ty;
   int bit_width;
 
-- 
2.43.0


From ca4fff41336782bdb94fe334a3e23ca817ab1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:53 +0000
Subject: [PATCH 009/117] fix: alignment attributes of struct-typed members in
 packed structs

Attributes following a closing brace belong to the type and do not raise
the alignment of the member declared with it; alignment attributes of the
member itself apply whatever the member's type.
---
 parse.c  | 33 ++++++++++++++++++++-------------
 slimcc.h |  1 +
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/parse.c b/parse.c
index 6a96361..919312d 100644
--- a/parse.c
+++ b/parse.c
@@ -40,6 +40,7 @@ typedef struct {
   bool is_gnu_inline;
   bool is_returns_twice;
   bool local_only;
+  bool is_member;
   bool is_ctor;
   bool is_dtor;
   uint16_t ctor_prior;
@@ -594,9 +595,9 @@ static bool get_attr_val(Token *tok, int64_t *val) {
   return false;
 }
 
-static void attr_aligned(Token *loc, int *align, TokenKind kind) {
+static void attr_aligned2(Token *loc, int *align, TokenKind kind, bool is_member) {
   for (Token *tok = loc->attr_next; tok; tok = tok->attr_next) {
-    if (tok->kind != kind)
+    if (tok->kind != kind || (is_member && tok->is_type_attr))
       continue;
     if (equal_ext(tok, "aligned")) {
       Token *tok2;
@@ -610,6 +611,10 @@ static void attr_aligned(Token *loc, int *align, TokenKind kind) {
   }
 }
 
+static void attr_aligned(Token *loc, int *align, TokenKind kind) {
+  attr_aligned2(loc, align, kind, false);
+}
+
 static void attr_cleanup(Token *loc, TokenKind kind, Obj **fn) {
   if (*fn)
     return;
@@ -680,7 +685,7 @@ static void str_attr(Token *loc, TokenKind kind, char *name, char **str) {
 }
 
 static void tyspec_attr(Token *tok, VarAttr *attr, TokenKind kind) {
-  attr_aligned(tok, &attr->align, kind);
+  attr_aligned2(tok, &attr->align, kind, attr->is_member);
   attr_cleanup(tok, kind, &attr->cleanup_fn);
   bool_attr(tok, kind, "weak", &attr->is_weak);
   bool_attr(tok, kind, "gnu_inline", &attr->is_gnu_inline);
@@ -1268,11 +1273,11 @@ static Type *declarator(Token **rest, Token *tok, Type *ty, Token **name_tok) {
   return type_suffix(rest, tok, ty);
 }
 
-static Type *declarator2(Token **rest, Token *tok, Type *basety, Token **name, int *align) {
+static Type *declarator2(Token **rest, Token *tok, Type *basety, Token **name, int *align, bool is_member) {
   Type *ty = declarator(&tok, tok, basety, name);
 
   if (*name) {
-    attr_aligned(*name, align, TK_ATTR);
+    attr_aligned2(*name, align, TK_ATTR, is_member);
     attr_aligned((**name).next, align, TK_BATTR);
   }
   attr_aligned(tok, align, TK_ATTR);
@@ -1466,7 +1471,7 @@ static Node *declaration2(Token **rest, Token *tok, Type *basety, VarAttr *attr,
   Token *name = NULL;
   int alt_align = attr ? attr->align : 0;
 
-  Type *ty = declarator2(&tok, tok, basety, &name, &alt_align);
+  Type *ty = declarator2(&tok, tok, basety, &name, &alt_align, false);
 
   if (ty->kind == TY_FUNC) {
     if (!name)
@@ -3742,7 +3747,7 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
       continue;
     }
 
-    VarAttr attr = {0};
+    VarAttr attr = {.is_member = true};
     Type *basety = declspec(&tok, tok, &attr);
 
     // Anonymous struct member
@@ -3761,7 +3766,7 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
     for (; comma_list(&tok, &tok, ";", !first); first = false) {
       Member *mem = ast_arena_calloc(sizeof(Member));
       mem->alt_align = attr.align;
-      mem->ty = declarator2(&tok, tok, basety, &mem->name, &mem->alt_align);
+      mem->ty = declarator2(&tok, tok, basety, &mem->name, &mem->alt_align, true);
       if (mem->name && !current_fn)
         mem->name->is_live = true;
 
@@ -3828,8 +3833,12 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
   // Construct a struct object.
   struct_members(&tok, tok, ty);
 
+  // Attributes following the closing brace belong to the type,
+  // not to the member or variable declared with it.
   attr_aligned(tok, &alt_align, TK_ATTR);
   bool_attr(tok, TK_ATTR, "packed", &ty->is_packed);
+  for (Token *t = tok->attr_next; t; t = t->attr_next)
+    t->is_type_attr = true;
   *rest = tok;
 
   if (kind == TY_STRUCT)
@@ -3870,9 +3879,7 @@ static Type *struct_decl(Type *ty, int alt_align) {
       alt_align = MAX(alt_align, mem->alt_align);
     }
     if (mem->alt_align)
-      if (mem->alt_align > mem->ty->align ||
-        (mem->ty->kind != TY_STRUCT && mem->ty->kind != TY_UNION))
-        bits = align_to(bits, mem->alt_align * 8);
+      bits = align_to(bits, mem->alt_align * 8);
 
     if (mem->is_bitfield) {
       if (mem->bit_width == 0) {
@@ -4526,7 +4533,7 @@ static Node *parse_typedef(Token **rest, Token *tok, Type *basety, VarAttr *attr
   for (; comma_list(rest, &tok, ";", !first); first = false) {
     Token *name = NULL;
     int alt_align = attr->align;
-    Type *ty = declarator2(&tok, tok, basety, &name, &alt_align);
+    Type *ty = declarator2(&tok, tok, basety, &name, &alt_align, false);
     if (!name)
       error_tok(tok, "typedef name omitted");
 
@@ -4668,7 +4675,7 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
   for (; comma_list(&tok, &tok, ";", !first); first = false) {
     Token *name = NULL;
     int alt_align = attr->align;
-    Type *ty = declarator2(&tok, tok, basety, &name, &alt_align);
+    Type *ty = declarator2(&tok, tok, basety, &name, &alt_align, false);
 
     if (ty->kind == TY_FUNC) {
       if (!name)
diff --git a/slimcc.h b/slimcc.h
index b59f83a..a68f9f7 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -178,6 +178,7 @@ struct Token {
   bool is_root : 1;
   bool is_live : 1;
   bool is_generated : 1;
+  bool is_type_attr : 1;
   int len;                // Token length
   char *loc;              // Token location
   File *file;             // Source location
-- 
2.43.0


From be7b3f1b3162200cc42bf2f3d127ac07f7af5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 010/117] fix: convert float and double literals with a single
 rounding

---
 tokenize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 3554614..266368c 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -599,14 +599,14 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
   long double val = strtold(buf, &end);
 
   if (*end == 'f' || *end == 'F') {
-    val = (float)val;
+    val = strtof(buf, NULL);
     ty = ty_float;
     end++;
   } else if (*end == 'l' || *end == 'L') {
     ty = ty_ldouble;
     end++;
   } else {
-    val = (double)val;
+    val = strtod(buf, NULL);
     ty = ty_double;
   }
 
-- 
2.43.0


From 04d46f106a808a5647cd42b749c89d43a74f28eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 011/117] fix: reject invalid octal constants and hexadecimal
 floating constants without exponent

---
 tokenize.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 266368c..0b33195 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -613,6 +613,12 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
   if (&buf[len] != end)
     error_tok(tok, "invalid numeric constant");
 
+  // Without a decimal point or an exponent it is a malformed integer, except
+  // that a decimal number with an F suffix is allowed as an extension.
+  bool is_hex = buf[0] == '0' && (buf[1] == 'x' || buf[1] == 'X');
+  if (is_hex ? !strpbrk(buf, "pP") : (ty != ty_float && !strpbrk(buf, ".eE")))
+    error_tok(tok, "invalid numeric constant");
+
   *res_fval = val;
   return ty;
 }
-- 
2.43.0


From 72bc6dcccdeef3202da2457c7a6c2016b3096330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 012/117] fix: set %al for variadic calls through function
 pointers

---
 codegen.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index c35c0c6..df7d077 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1512,7 +1512,10 @@ static void gen_funcall(Node *node) {
 
   gen_funcall_args(node);
 
-  if (node->lhs->ty->is_variadic) {
+  Type *fn_ty = node->lhs->ty;
+  if (fn_ty->kind == TY_PTR)
+    fn_ty = fn_ty->base;
+  if (fn_ty->is_variadic) {
     if (fp_count)
       Printftn("movb $%d, %%al", fp_count);
     else
-- 
2.43.0


From d08386502ce0f393c4f4c9cbb5d5bbf4b21f2ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:07 +0000
Subject: [PATCH 013/117] fix: classify struct and union arguments and return
 values per the ABI

Members of type long double, unaligned members of packed structs and
eightbytes consisting of padding were not handled.
---
 codegen.c | 190 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 135 insertions(+), 55 deletions(-)

diff --git a/codegen.c b/codegen.c
index df7d077..d8520e4 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1129,60 +1129,122 @@ static void gen_cast(Node *node) {
     Printftn("%s", cast_table[t1][t2]);
 }
 
-// Structs or unions equal or smaller than 16 bytes are passed
-// using up to two registers.
-//
-// If the first 8 bytes contains only floating-point type members,
-// they are passed in an XMM register. Otherwise, they are passed
-// in a general-purpose register.
-//
-// If a struct/union is larger than 8 bytes, the same rule is
-// applied to the the next 8 byte chunk.
-//
-// This function returns true if `ty` has only floating-point
-// members in its byte range [lo, hi).
-static bool has_flonum(Type *ty, int lo, int hi, int offset) {
+// Classify the eightbytes of an argument or a return value
+// (System V ABI AMD64, section 3.2.3).
+typedef enum {
+  CLS_NONE, CLS_INT, CLS_SSE, CLS_X87, CLS_X87UP, CLS_MEM,
+} ArgClass;
+
+static ArgClass merge_class(ArgClass a, ArgClass b) {
+  if (a == b || b == CLS_NONE)
+    return a;
+  if (a == CLS_NONE)
+    return b;
+  if (a == CLS_MEM || b == CLS_MEM)
+    return CLS_MEM;
+  if (a == CLS_INT || b == CLS_INT)
+    return CLS_INT;
+  if (a == CLS_SSE && b == CLS_SSE)
+    return CLS_SSE;
+  return CLS_MEM;
+}
+
+static void classify_fields(Type *ty, int offset, ArgClass cls[2]) {
   if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
     for (Member *mem = ty->members; mem; mem = mem->next) {
-      int ofs = offset + mem->offset;
-      if ((ofs + mem->ty->size) <= lo)
+      if (!mem->is_bitfield) {
+        classify_fields(mem->ty, offset + mem->offset, cls);
         continue;
-      if (hi <= ofs)
-        break;
-      if (!has_flonum(mem->ty, lo, hi, ofs))
-        return false;
+      }
+      if (!mem->name || !mem->bit_width)
+        continue;
+      int lo = (offset + mem->offset) * 8 + mem->bit_offset;
+      int hi = lo + mem->bit_width - 1;
+      for (int i = lo / 64; i <= hi / 64 && i < 2; i++)
+        cls[i] = merge_class(cls[i], CLS_INT);
     }
-    return true;
+    return;
   }
 
   if (ty->kind == TY_ARRAY) {
-    for (int i = 0; i < ty->array_len; i++) {
-      int ofs = offset + ty->base->size * i;
-      if ((ofs + ty->base->size) <= lo)
-        continue;
-      if (hi <= ofs)
-        break;
-      if (!has_flonum(ty->base, lo, hi, ofs))
-        return false;
-    }
-    return true;
+    for (int i = 0; i < ty->array_len; i++)
+      classify_fields(ty->base, offset + ty->base->size * i, cls);
+    return;
   }
 
-  return ty->kind == TY_FLOAT || ty->kind == TY_DOUBLE;
+  if (ty->size <= 0 || offset >= 16)
+    return;
+
+  // Unaligned members
+  if (offset % ty->size) {
+    cls[0] = CLS_MEM;
+    return;
+  }
+  if (ty->kind == TY_LDOUBLE) {
+    cls[0] = merge_class(cls[0], CLS_X87);
+    cls[1] = merge_class(cls[1], CLS_X87UP);
+    return;
+  }
+  ArgClass c = (ty->kind == TY_FLOAT || ty->kind == TY_DOUBLE) ? CLS_SSE : CLS_INT;
+  cls[offset / 8] = merge_class(cls[offset / 8], c);
+}
+
+static void classify(Type *ty, ArgClass cls[2]) {
+  cls[0] = cls[1] = CLS_NONE;
+  if (ty->size <= 16) {
+    classify_fields(ty, 0, cls);
+    if (cls[0] != CLS_MEM && cls[1] != CLS_MEM &&
+      (cls[0] == CLS_X87 || cls[1] != CLS_X87UP))
+      return;
+  }
+  cls[0] = cls[1] = CLS_MEM;
+}
+
+static bool is_mem_class(Type *ty) {
+  ArgClass cls[2];
+  classify(ty, cls);
+  return cls[0] == CLS_MEM || cls[0] == CLS_X87;
+}
+
+static bool is_x87_class(Type *ty) {
+  ArgClass cls[2];
+  classify(ty, cls);
+  return cls[0] == CLS_X87;
+}
+
+static bool is_rtn_by_stk(Type *ty) {
+  if (ty->kind != TY_STRUCT && ty->kind != TY_UNION)
+    return false;
+  return is_mem_class(ty) && !is_x87_class(ty);
 }
 
 static bool has_flonum1(Type *ty) {
-  return has_flonum(ty, 0, 8, 0);
+  ArgClass cls[2];
+  classify(ty, cls);
+  return cls[0] == CLS_SSE;
 }
 
 static bool has_flonum2(Type *ty) {
-  return has_flonum(ty, 8, 16, 0);
+  ArgClass cls[2];
+  classify(ty, cls);
+  return cls[1] == CLS_SSE;
+}
+
+static bool has_gp1(Type *ty) {
+  ArgClass cls[2];
+  classify(ty, cls);
+  return cls[0] == CLS_INT;
+}
+
+static bool has_gp2(Type *ty) {
+  ArgClass cls[2];
+  classify(ty, cls);
+  return cls[1] == CLS_INT;
 }
 
 bool va_arg_need_copy(Type *ty) {
-  if (ty->size > 8 && ty->size <= 16) {
-    return has_flonum1(ty) || has_flonum2(ty);
-  }
+  if (ty->size > 8 && !is_mem_class(ty))
+    return has_flonum1(ty) || has_flonum2(ty) || !has_gp1(ty);
   return false;
 }
 
@@ -1197,9 +1259,9 @@ static int calling_convention(Obj *var, int *gp_count, int *fp_count, int *stack
     switch (ty->kind) {
     case TY_STRUCT:
     case TY_UNION:
-      if (ty->size <= 16) {
-        int fp_inc = has_flonum1(ty) + (ty->size > 8 && has_flonum2(ty));
-        int gp_inc = !has_flonum1(ty) + (ty->size > 8 && !has_flonum2(ty));
+      if (!is_mem_class(ty)) {
+        int fp_inc = has_flonum1(ty) + has_flonum2(ty);
+        int gp_inc = has_gp1(ty) + has_gp2(ty);
 
         if ((!fp_inc || (fp + fp_inc <= FP_MAX)) &&
           (!gp_inc || (gp + gp_inc <= GP_MAX))) {
@@ -1241,6 +1303,11 @@ static void copy_ret_buffer(Obj *var) {
   Type *ty = var->ty;
   int gp = 0, fp = 0;
 
+  if (is_x87_class(ty)) {
+    Printftn("fstpt %d(%s)", var->ofs, var->ptr);
+    return;
+  }
+
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
     int chunk_sz = MIN(8, ty->size - ofs);
 
@@ -1252,6 +1319,8 @@ static void copy_ret_buffer(Obj *var) {
       fp++;
       continue;
     }
+    if (!((ofs == 0) ? has_gp1(ty) : has_gp2(ty)))
+      continue;
     if (gp == 0)
       store_gp2((char *[]){reg_ax(1), reg_ax(2), reg_ax(4), reg_ax(8)},
                 chunk_sz, ofs + var->ofs, var->ptr);
@@ -1267,6 +1336,11 @@ static void copy_struct_reg(void) {
   int gp = 0, fp = 0;
   char *sptr = "%rax";
 
+  if (is_x87_class(ty)) {
+    Printstn("fninit; fldt (%%rax)");
+    return;
+  }
+
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
     int chunk_sz = MIN(8, ty->size - ofs);
 
@@ -1278,6 +1352,8 @@ static void copy_struct_reg(void) {
       fp++;
       continue;
     }
+    if (!((ofs == 0) ? has_gp1(ty) : has_gp2(ty)))
+      continue;
     if (gp == 0) {
       Printstn("mov %%rax, %%rcx");
       sptr = "%rcx";
@@ -1300,24 +1376,28 @@ static void copy_struct_mem(void) {
 }
 
 static void gen_vaarg_reg_copy(Type *ty, Obj *var) {
-  int gp_inc = !has_flonum1(ty) + !has_flonum2(ty);
+  int gp_inc = has_gp1(ty) + has_gp2(ty);
   if (gp_inc) {
     Printftn("cmpl $%d, (%%rax)", 48 - gp_inc * 8);
     Printstn("ja 1f");
   }
   int fp_inc = has_flonum1(ty) + has_flonum2(ty);
-  Printftn("cmpl $%d, 4(%%rax)", 176 - fp_inc * 16);
-  Printstn("ja 1f");
+  if (fp_inc) {
+    Printftn("cmpl $%d, 4(%%rax)", 176 - fp_inc * 16);
+    Printstn("ja 1f");
+  }
 
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
     if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
       Printstn("movl 4(%%rax), %%ecx");  // fp_offset
       Printstn("addq 16(%%rax), %%rcx"); // reg_save_area
       Printstn("addq $16, 4(%%rax)");
-    } else {
+    } else if ((ofs == 0) ? has_gp1(ty) : has_gp2(ty)) {
       Printstn("movl (%%rax), %%ecx");   // gp_offset
       Printstn("addq 16(%%rax), %%rcx"); // reg_save_area
       Printstn("addq $8, (%%rax)");
+    } else {
+      continue;
     }
     gen_mem_copy(0, "%rcx",
                  ofs + var->ofs, var->ptr,
@@ -1394,13 +1474,13 @@ static void place_reg_arg(Type *ty, char *ofs, char *ptr, int *gp, int *fp) {
   case TY_UNION:
     if (has_flonum1(ty))
       Printftn("movsd %s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-    else
+    else if (has_gp1(ty))
       Printftn("mov %s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
 
     if (ty->size > 8) {
       if (has_flonum2(ty))
         Printftn("movsd 8+%s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-      else
+      else if (has_gp2(ty))
         Printftn("mov 8+%s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
     }
     return;
@@ -1425,7 +1505,7 @@ static void gen_funcall_args(Node *node) {
     if (var->ptr)
       gen_var_assign(var, var->arg_expr);
 
-  bool rtn_by_stk = node->ret_buffer && node->ty->size > 16;
+  bool rtn_by_stk = node->ret_buffer && is_rtn_by_stk(node->ty);
   int gp = rtn_by_stk, fp = 0;
 
   int reg_arg_cnt = 0;
@@ -1486,7 +1566,7 @@ static void gen_funcall(Node *node) {
 
   // If the return type is a large struct/union, the caller passes
   // a pointer to a buffer as if it were the first argument.
-  bool rtn_by_stk = node->ret_buffer && node->ty->size > 16;
+  bool rtn_by_stk = node->ret_buffer && is_rtn_by_stk(node->ty);
   int gp_count = rtn_by_stk;
   int fp_count = 0;
   int arg_stk_align;
@@ -1793,7 +1873,7 @@ static void gen_expr2(Node *node, bool is_void) {
         cast_extend_int32(node->ty, reg_ax(node->ty->size), "%eax");
         return;
       }
-      if (node->ret_buffer && node->ty->size <= 16) {
+      if (node->ret_buffer && !is_rtn_by_stk(node->ty)) {
         copy_ret_buffer(node->ret_buffer);
         Printftn("lea %d(%s), %%rax", node->ret_buffer->ofs, node->ret_buffer->ptr);
       }
@@ -1870,7 +1950,7 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->lhs);
 
     Type *ty = node->ty->base;
-    bool use_reg_save = ty->size <= 16 && ty->kind != TY_LDOUBLE;
+    bool use_reg_save = !is_mem_class(ty);
     if (use_reg_save) {
       if (va_arg_need_copy(ty)) {
         // Structs with FP member are split into 8-byte chunks in the
@@ -1883,7 +1963,7 @@ static void gen_expr2(Node *node, bool is_void) {
         Printstn("addq 16(%%rax), %%rdx"); // reg_save_area
         Printstn("addq $16, 4(%%rax)");
       } else {
-        int gp_inc = ty->size > 8 ? 2 : 1;
+        int gp_inc = has_gp1(ty) + has_gp2(ty);
         Printftn("cmpl $%d, (%%rax)", 48 - gp_inc * 8);
         Printstn("ja 1f");
         Printstn("movl (%%rax), %%edx");   // gp_offset
@@ -2199,7 +2279,7 @@ static void gen_stmt(Node *node) {
     Type *ty = node->lhs->ty;
 
     if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
-      if (ty->size <= 16) {
+      if (!is_rtn_by_stk(ty)) {
         if (has_defr(node)) {
           push_copy(ty->size);
           gen_defr(node);
@@ -4068,7 +4148,7 @@ void emit_text(Obj *fn) {
   Printftn(".type \"%s\", @function", asm_name(fn));
   Printfsn("\"%s\":", asm_name(fn));
 
-  bool rtn_by_stk = fn->ty->return_ty->size > 16;
+  bool rtn_by_stk = is_rtn_by_stk(fn->ty->return_ty);
   int gp_count = rtn_by_stk;
   int fp_count = 0;
   int arg_stk_size = calling_convention(fn->ty->param_list, &gp_count, &fp_count, NULL);
@@ -4150,13 +4230,13 @@ void emit_text(Obj *fn) {
       assert(ty->size <= 16);
       if (has_flonum1(ty))
         store_fp(fp++, MIN(8, ty->size), var->ofs, var->ptr);
-      else
+      else if (has_gp1(ty))
         store_gp(gp++, MIN(8, ty->size), var->ofs, var->ptr);
 
       if (ty->size > 8) {
         if (has_flonum2(ty))
           store_fp(fp++, ty->size - 8, var->ofs + 8, var->ptr);
-        else
+        else if (has_gp2(ty))
           store_gp(gp++, ty->size - 8, var->ofs + 8, var->ptr);
       }
       break;
@@ -4197,7 +4277,7 @@ void emit_text(Obj *fn) {
 
 // Logic should be in sync with gen_funcall_args()
 void prepare_funcall(Node *node, Scope *scope) {
-  bool rtn_by_stk = node->ty->size > 16;
+  bool rtn_by_stk = is_rtn_by_stk(node->ty);
   calling_convention(node->args, &(int){rtn_by_stk}, &(int){0}, NULL);
 
   int reg_arg_cnt = 0;
-- 
2.43.0


From e4fbc66e4a410db6040327c2844f96fc12f38104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:04 +0000
Subject: [PATCH 014/117] fix: assertion failure on arguments of empty struct
 type

---
 codegen.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index d8520e4..eef9eb6 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1254,8 +1254,6 @@ static int calling_convention(Obj *var, int *gp_count, int *fp_count, int *stack
   int gp = *gp_count, fp = *fp_count;
   for (; var; var = var->param_next) {
     Type *ty = var->ty;
-    assert(ty->size != 0);
-
     switch (ty->kind) {
     case TY_STRUCT:
     case TY_UNION:
-- 
2.43.0


From ac2418c1deb53c0b81dc2df94f0e70a448c389b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:45 +0000
Subject: [PATCH 015/117] fix: reading past the end of structs passed or
 returned in registers

---
 codegen.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/codegen.c b/codegen.c
index eef9eb6..6110977 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1329,6 +1329,23 @@ static void copy_ret_buffer(Obj *var) {
   }
 }
 
+// Load an eightbyte of a struct without accessing memory past its end
+static void load_chunk(char *reg16, char *reg32, char *reg64, int sz, int add, char *ofs, char *ptr) {
+  switch (sz) {
+  case 1: Printftn("movzbl %d+%s(%s), %s", add, ofs, ptr, reg32); return;
+  case 2: Printftn("movzwl %d+%s(%s), %s", add, ofs, ptr, reg32); return;
+  case 4: Printftn("mov %d+%s(%s), %s", add, ofs, ptr, reg32); return;
+  case 8: Printftn("mov %d+%s(%s), %s", add, ofs, ptr, reg64); return;
+  }
+  int pos = (sz - 1) & ~1;
+  Printftn("%s %d+%s(%s), %s", (sz & 1) ? "movzbl" : "movzwl", add + pos, ofs, ptr, reg32);
+  while (pos) {
+    pos -= 2;
+    Printftn("shl $16, %s", reg64);
+    Printftn("mov %d+%s(%s), %s", add + pos, ofs, ptr, reg16);
+  }
+}
+
 static void copy_struct_reg(void) {
   Type *ty = current_fn->ty->return_ty;
   int gp = 0, fp = 0;
@@ -1356,11 +1373,10 @@ static void copy_struct_reg(void) {
       Printstn("mov %%rax, %%rcx");
       sptr = "%rcx";
     }
-    int regsz = (chunk_sz > 4) ? 8 : (chunk_sz > 2) ? 4 : (chunk_sz > 1) ? 2 : 1;
     if (gp == 0)
-      Printftn("mov %d(%%rcx), %s", ofs, reg_ax(regsz));
+      load_chunk(reg_ax(2), reg_ax(4), reg_ax(8), chunk_sz, ofs, "0", "%rcx");
     else
-      Printftn("mov %d(%%rcx), %s", ofs, reg_dx(regsz));
+      load_chunk(reg_dx(2), reg_dx(4), reg_dx(8), chunk_sz, ofs, "0", "%rcx");
     gp++;
   }
 }
@@ -1470,16 +1486,15 @@ static void place_reg_arg(Type *ty, char *ofs, char *ptr, int *gp, int *fp) {
   switch (ty->kind) {
   case TY_STRUCT:
   case TY_UNION:
-    if (has_flonum1(ty))
-      Printftn("movsd %s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-    else if (has_gp1(ty))
-      Printftn("mov %s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
-
-    if (ty->size > 8) {
-      if (has_flonum2(ty))
-        Printftn("movsd 8+%s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-      else if (has_gp2(ty))
-        Printftn("mov 8+%s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
+    for (int i = 0; i < ty->size; i += 8) {
+      int chunk_sz = MIN(8, ty->size - i);
+      if ((i == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
+        Printftn("%s %d+%s(%s), %%xmm%d", chunk_sz == 4 ? "movss" : "movsd", i, ofs, ptr, *fp);
+        *fp += 1;
+      } else if ((i == 0) ? has_gp1(ty) : has_gp2(ty)) {
+        load_chunk(argreg16[*gp], argreg32[*gp], argreg64[*gp], chunk_sz, i, ofs, ptr);
+        *gp += 1;
+      }
     }
     return;
   case TY_FLOAT:
-- 
2.43.0


From e25aa7ec01f08f9d5babb9293312b89b666bbe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:25 +0000
Subject: [PATCH 016/117] fix: trailing comma in braced scalar and string
 initializers

---
 parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.c b/parse.c
index 919312d..406c6fd 100644
--- a/parse.c
+++ b/parse.c
@@ -1831,6 +1831,8 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
     Token *start = tok;
     Token *str_tok;
     if (equal(tok, "{") && is_str_tok(&tok, tok->next, &str_tok)) {
+      if (equal(tok, ",") && equal(tok->next, "}"))
+        tok = tok->next;
       if (consume(rest, tok, "}")) {
         string_initializer(str_tok, init);
         return;
@@ -1899,6 +1901,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
     // An initializer for a scalar variable can be surrounded by
     // braces. E.g. `int x = {3};`. Handle that case.
     initializer2(&tok, tok->next, init);
+    consume(&tok, tok, ",");
     *rest = skip(tok, "}");
     return;
   }
-- 
2.43.0


From c998f515386f339c3bc29387de8016529bb7818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 017/117] fix: positional initializers following a range
 designator

---
 parse.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/parse.c b/parse.c
index 406c6fd..1070518 100644
--- a/parse.c
+++ b/parse.c
@@ -1738,7 +1738,9 @@ static Member *struct_designator(Token **rest, Token *tok, Type *ty) {
   return mem;
 }
 
-static void designation(Token **rest, Token *tok, Initializer *init) {
+// Only the last element of a range is the current object for the
+// initializers that follow a designation.
+static void designation2(Token **rest, Token *tok, Initializer *init, bool is_last) {
   if (equal(tok, "[")) {
     if (init->ty->kind != TY_ARRAY)
       error_tok(tok, "array index in non-array initializer");
@@ -1749,9 +1751,11 @@ static void designation(Token **rest, Token *tok, Initializer *init) {
 
     Token *start = tok;
     for (int i = begin; i <= end; i++)
-      designation(&tok, start, &init->mem_arr[i]);
+      designation2(&tok, start, &init->mem_arr[i], is_last && i == end);
 
-    list_initializer(rest, tok, init, end + 1);
+    *rest = tok;
+    if (is_last)
+      list_initializer(rest, tok, init, end + 1);
     return;
   }
 
@@ -1761,10 +1765,12 @@ static void designation(Token **rest, Token *tok, Initializer *init) {
 
     if (init->ty->kind == TY_UNION) {
       init->initmem = mem;
-      designation(rest, tok, &init->mem_arr[mem->idx]);
+      designation2(rest, tok, &init->mem_arr[mem->idx], is_last);
     } else {
-      designation(&tok, tok, &init->mem_arr[mem->idx]);
-      list_initializer(rest, tok, init, mem->idx + 1);
+      designation2(&tok, tok, &init->mem_arr[mem->idx], is_last);
+      *rest = tok;
+      if (is_last)
+        list_initializer(rest, tok, init, mem->idx + 1);
     }
     return;
   }
@@ -1772,6 +1778,10 @@ static void designation(Token **rest, Token *tok, Initializer *init) {
   initializer2(rest, skip(tok, "="), init);
 }
 
+static void designation(Token **rest, Token *tok, Initializer *init) {
+  designation2(rest, tok, init, true);
+}
+
 // An array length can be omitted if an array has an initializer
 // (e.g. `int x[] = {1,2,3}`). If it's omitted, count the number
 // of initializer elements.
-- 
2.43.0


From a0282efa9aec5801c060e7e363e73522385461e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:05 +0000
Subject: [PATCH 018/117] fix: address constants through dereferenced arrays

---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index 1070518..3517cdb 100644
--- a/parse.c
+++ b/parse.c
@@ -3047,6 +3047,8 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
 
     if (node->kind == ND_DEREF) {
       switch (node->lhs->kind) {
+      case ND_VAR:
+      case ND_DEREF:
       case ND_MEMBER:
       case ND_CAST:
       case ND_ADD:
-- 
2.43.0


From ea100f88c12053a5f7e5e34bd2f27bd863ec85f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:50 +0000
Subject: [PATCH 019/117] fix: initializers overriding a struct or union value
 with a list

---
 parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.c b/parse.c
index 3517cdb..2ebc98d 100644
--- a/parse.c
+++ b/parse.c
@@ -1871,6 +1871,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
 
   if (init->ty->kind == TY_STRUCT) {
     if (consume(&tok, tok, "{")) {
+      init->kind = INIT_LIST;
       braced_initializer(rest, tok, init);
       return;
     }
@@ -1883,12 +1884,14 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
       return;
     }
 
+    init->kind = INIT_LIST;
     list_initializer(rest, tok, init, 0);
     return;
   }
 
   if (init->ty->kind == TY_UNION) {
     if (consume(&tok, tok, "{")) {
+      init->kind = INIT_LIST;
       init->initmem = init->ty->members;
       braced_initializer(rest, tok, init);
       return;
@@ -1902,6 +1905,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
       return;
     }
 
+    init->kind = INIT_LIST;
     init->initmem = init->ty->members;
     initializer2(rest, tok, &init->mem_arr[0]);
     return;
-- 
2.43.0


From 25639101f7cfdb5e97d9ed1f7c7c2d43deaea5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:30 +0000
Subject: [PATCH 020/117] fix: member access on the value of a comma expression

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index 6110977..558f32e 100644
--- a/codegen.c
+++ b/codegen.c
@@ -781,6 +781,7 @@ static void gen_addr(Node *node) {
   case ND_MEMBER:
     switch (node->lhs->kind) {
     case ND_FUNCALL:
+    case ND_COMMA:
     case ND_ASSIGN:
     case ND_COND:
     case ND_STMT_EXPR:
@@ -2900,6 +2901,7 @@ static void gen_member_opt(Node *node, int64_t *ofs) {
 
   switch (node->kind) {
   case ND_FUNCALL:
+  case ND_COMMA:
   case ND_ASSIGN:
   case ND_COND:
   case ND_STMT_EXPR:
-- 
2.43.0


From 3fd886e9581a47b77d968851bea85d901c30e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:30 +0000
Subject: [PATCH 021/117] fix: crash on assignment to an array that is not a
 variable

---
 type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 74be1f4..a572804 100644
--- a/type.c
+++ b/type.c
@@ -460,7 +460,8 @@ void add_type(Node *node) {
     node->ty = node->lhs->ty;
     return;
   case ND_ASSIGN:
-    if (node->lhs->ty->kind == TY_ARRAY && !node->lhs->var->constexpr_data)
+    if (node->lhs->ty->kind == TY_ARRAY &&
+      !(node->lhs->kind == ND_VAR && node->lhs->var->constexpr_data))
       error_tok(node->lhs->tok, "not an lvalue");
     if (node->lhs->ty->kind != TY_STRUCT && node->lhs->ty->kind != TY_UNION)
       node->rhs = new_cast(node->rhs, node->lhs->ty);
-- 
2.43.0


From 677af9bddea0ff510132529a5202050da3403c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 022/117] fix: alignment of variable length arrays of
 over-aligned elements

---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index 2ebc98d..af56119 100644
--- a/parse.c
+++ b/parse.c
@@ -1532,6 +1532,8 @@ static Node *declaration2(Token **rest, Token *tok, Type *basety, VarAttr *attr,
     // For example, `int x[n+2]` is translated to `tmp = n + 2,
     // x = alloca(tmp)`.
     Obj *var = new_lvar(get_ident(name), ty);
+    for (Type *t = ty; t->kind == TY_VLA; t = t->base)
+      var->align = t->base->align;
     if (alt_align)
       var->align = alt_align;
     chain_expr(&expr, new_vla(new_var_node(ty->vla_size, name), var));
-- 
2.43.0


From 9e6ca4a420598995be333071a3f4d108072e439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:54 +0000
Subject: [PATCH 023/117] fix: labels in defer statements of scopes with
 several exits

---
 codegen.c | 44 ++++++++++++++++++++++++++++----------------
 slimcc.h  |  1 +
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/codegen.c b/codegen.c
index 558f32e..c9c938a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -91,6 +91,7 @@ static int va_gp_start;
 static int va_fp_start;
 static int va_st_start;
 static int vla_base_ofs;
+static int64_t defr_copy;
 static int rtn_ptr_ofs;
 static int lvar_stk_sz;
 static int peak_stk_usage;
@@ -1434,6 +1435,12 @@ static void builtin_alloca(Node *node) {
     Printstn("mov %%rsp, %%rax");
 }
 
+// A deferred statement is emitted once per path leaving its scope,
+// the labels in each copy need to be distinct.
+static char *stmt_label(char *name) {
+  return defr_copy ? format("%s.%"PRIi64, name, defr_copy) : name;
+}
+
 static void gen_defr(Node *node) {
   DeferStmt *defr = node->defr_start;
   DeferStmt *end = node->defr_end;
@@ -1463,7 +1470,11 @@ static void gen_defr(Node *node) {
       continue;
     }
     if (defr->kind == DF_DEFER_STMT) {
+      int64_t outer_copy = defr_copy;
+      defr_copy = defr->is_emitted ? count() : 0;
+      defr->is_emitted = true;
       gen_stmt(defr->stmt);
+      defr_copy = outer_copy;
       defr = defr->next;
       continue;
     }
@@ -1894,7 +1905,7 @@ static void gen_expr2(Node *node, bool is_void) {
     }
     return;
   case ND_LABEL_VAL:
-    Printftn("lea %s(%%rip), %%rax", node->unique_label);
+    Printftn("lea %s(%%rip), %%rax", stmt_label(node->unique_label));
     return;
   case ND_CAS: {
     gen_expr(node->cas_addr);
@@ -2202,19 +2213,20 @@ static void gen_stmt(Node *node) {
     return;
   }
   case ND_FOR: {
+    char *brk_label = stmt_label(node->brk_label);
     int64_t c = count();
     if (node->init)
       gen_stmt(node->init);
     Printfsn(".L.begin.%"PRIi64":", c);
     if (node->cond)
-      gen_cond(node->cond, false, node->brk_label);
+      gen_cond(node->cond, false, brk_label);
     gen_stmt(node->then);
-    Printfsn("%s:", node->cont_label);
+    Printfsn("%s:", stmt_label(node->cont_label));
     if (node->inc)
       gen_void_expr(node->inc);
     gen_defr(node);
     Printftn("jmp .L.begin.%"PRIi64, c);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", brk_label);
     return;
   }
   case ND_DO: {
@@ -2223,9 +2235,9 @@ static void gen_stmt(Node *node) {
 
     Printfsn("%s:", begin_label);
     gen_stmt(node->then);
-    Printfsn("%s:", node->cont_label);
+    Printfsn("%s:", stmt_label(node->cont_label));
     gen_cond(node->cond, true, begin_label);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", stmt_label(node->brk_label));
     return;
   }
   case ND_SWITCH: {
@@ -2244,26 +2256,26 @@ static void gen_stmt(Node *node) {
 
       if (cr->hi == cr->lo) {
         imm_cmp(ax, dx, cr->lo);
-        Printftn("je %s", cr->label);
+        Printftn("je %s", stmt_label(cr->label));
         continue;
       }
       if (cr->lo == 0) {
         imm_cmp(ax, dx, cr->hi);
-        Printftn("jbe %s", cr->label);
+        Printftn("jbe %s", stmt_label(cr->label));
         continue;
       }
       Printftn("mov %s, %s", ax, cx);
       imm_sub(cx, dx, cr->lo);
       imm_cmp(cx, dx, cr->hi - cr->lo);
-      Printftn("jbe %s", cr->label);
+      Printftn("jbe %s", stmt_label(cr->label));
     }
 
     if (node->default_case)
-      Printftn("jmp %s", node->default_case->label);
+      Printftn("jmp %s", stmt_label(node->default_case->label));
 
-    Printftn("jmp %s", node->brk_label);
+    Printftn("jmp %s", stmt_label(node->brk_label));
     gen_stmt(node->then);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", stmt_label(node->brk_label));
     return;
   }
   case ND_BLOCK:
@@ -2273,14 +2285,14 @@ static void gen_stmt(Node *node) {
     return;
   case ND_GOTO:
     gen_defr(node);
-    Printftn("jmp %s", node->unique_label);
+    Printftn("jmp %s", stmt_label(node->unique_label));
     return;
   case ND_GOTO_EXPR:
     gen_expr(node->lhs);
     Printstn("jmp *%%rax");
     return;
   case ND_LABEL:
-    Printfsn("%s:", node->unique_label);
+    Printfsn("%s:", stmt_label(node->unique_label));
     return;
   case ND_RETURN: {
     if (!node->lhs) {
@@ -3766,7 +3778,7 @@ static void asm_body(Node *node) {
       if (node->asm_outputs)
         Printf("%df", ap->label_id);
       else
-        Printf("%s", ap->arg->unique_label);
+        Printf("%s", stmt_label(ap->arg->unique_label));
       continue;
     }
 
@@ -3916,7 +3928,7 @@ static void gen_asm(Node *node) {
     Printftn("lea %df(%%rip), %s; jmp %df", fallthrough_label, tmp_gp, meet_label);
     for (AsmParam *ap = node->asm_labels; ap; ap = ap->next) {
       Printftn("%d:", ap->label_id);
-      Printftn("lea %s(%%rip), %s", ap->arg->unique_label, tmp_gp);
+      Printftn("lea %s(%%rip), %s", stmt_label(ap->arg->unique_label), tmp_gp);
       Printftn("jmp %df", meet_label);
     }
     Printftn("%d:", meet_label);
diff --git a/slimcc.h b/slimcc.h
index a68f9f7..0fadbfc 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -319,6 +319,7 @@ struct DeferStmt {
   Obj *vla;
   Node *cleanup_fn;
   Node *stmt;
+  bool is_emitted;
 };
 
 typedef enum {
-- 
2.43.0


From 44d9996b65c7841498ead9729e607455b649c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:08 +0000
Subject: [PATCH 024/117] fix: out-of-range constant shift counts produced
 invalid assembly

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index c9c938a..1356971 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2803,7 +2803,7 @@ static bool gen_shift_opt_gp(Node *node) {
 
   if (is_const_expr(node->rhs, &val)) {
     gen_expr(node->lhs);
-    imm_arith(node->kind, node->ty->size, val);
+    imm_arith(node->kind, node->ty->size, val & (node->ty->size * 8 - 1));
     return true;
   }
   if (is_memop(node->rhs, ofs, &ptr, true)) {
-- 
2.43.0


From 0ea9779502f5f03cea45cd10fcbeaadc17c55691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 025/117] fix: type of enumerations whose first value exceeds
 LONG_MAX

---
 parse.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index af56119..723cf67 100644
--- a/parse.c
+++ b/parse.c
@@ -1355,6 +1355,7 @@ static Type *enum_specifier(Token **rest, Token *tok) {
   int64_t val = 0;
   bool been_negative = false;
   bool been_unsigned = false;
+  bool is_huge = false;
 
   bool first = true;
   for (; comma_list(rest, &tok, "}", !first); first = false) {
@@ -1366,16 +1367,18 @@ static Type *enum_specifier(Token **rest, Token *tok) {
       val = const_expr2(&tok, tok, &val_ty);
       if (!val_ty->is_unsigned && val < 0)
         been_negative = true;
+      is_huge = val_ty->is_unsigned && val < 0;
     }
 
-    if (!in_ty_range(val, base_ty)) {
+    if (!in_ty_range(val, base_ty) ||
+      (is_huge && !(base_ty->is_unsigned && base_ty->size == 8))) {
       if (has_type)
         error_tok(tok, "enum value out of type range");
 
       if (been_negative) {
         base_ty = (in_ty_range(val, ty_int) && !been_unsigned) ? ty_int : ty_first_64bit_int;
       } else {
-        base_ty = in_ty_range(val, ty_uint) ? ty_uint : ty_first_64bit_uint;
+        base_ty = (in_ty_range(val, ty_uint) && !is_huge) ? ty_uint : ty_first_64bit_uint;
         been_unsigned = true;
       }
     }
-- 
2.43.0


From cc6610618df937149cc873542e184821d18aefd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 026/117] fix: alignment attribute of a typedef lost on
 qualification

---
 type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/type.c b/type.c
index a572804..d8b6ca8 100644
--- a/type.c
+++ b/type.c
@@ -89,6 +89,7 @@ Type *unqual(Type *ty) {
 }
 
 Type *new_qualified_type(Type *ty) {
+  int32_t align = ty->align;
   if (ty->origin)
     ty = ty->origin;
 
@@ -100,6 +101,7 @@ Type *new_qualified_type(Type *ty) {
 
   *ret = *ty;
   ret->origin = ty;
+  ret->align = align;
 
   if (ty->size < 0) {
     ret->decl_next = ty->decl_next;
-- 
2.43.0


From 9dd833ae7ec7b21e14ef0170af453a57abb4a690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 027/117] fix: qualifiers and decay in the types of expressions

---
 parse.c  | 26 ++++++++++++-------------
 slimcc.h |  1 +
 type.c   | 59 +++++++++++++++++++++++++++++++++++++++++++++-----------
 3 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/parse.c b/parse.c
index 723cf67..95e91cf 100644
--- a/parse.c
+++ b/parse.c
@@ -403,12 +403,7 @@ static Node *cond_cast(Node *expr) {
 
 static void apply_cv_qualifier(Node *node, Type *ty2) {
   add_type(node);
-  Type *ty = node->ty;
-  if (ty->is_const < ty2->is_const || ty->is_volatile < ty2->is_volatile) {
-    node->ty = new_qualified_type(ty);
-    node->ty->is_const = ty->is_const | ty2->is_const;
-    node->ty->is_volatile = ty->is_volatile | ty2->is_volatile;
-  }
+  node->ty = cv_qualify(node->ty, ty2->is_const, ty2->is_volatile);
 }
 
 static VarScope *push_scope(char *name) {
@@ -1015,17 +1010,22 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
     add_type(node);
     leave_scope();
     ty = unqual(array_to_pointer(node->ty));
+    if (ty->kind == TY_FUNC)
+      ty = pointer_to(ty);
   }
 
   if (!ty)
     ty = ty_int;
 
   if (is_atomic || is_const || is_volatile || is_restrict) {
+    if (ty->kind == TY_ARRAY && !is_atomic && !is_restrict)
+      return cv_qualify(ty, is_const, is_volatile);
+
     Type *ty2 = new_qualified_type(ty);
-    ty2->is_atomic = is_atomic;
-    ty2->is_const = is_const;
-    ty2->is_volatile = is_volatile;
-    ty2->is_restrict = is_restrict;
+    ty2->is_atomic = ty->is_atomic | is_atomic;
+    ty2->is_const = ty->is_const | is_const;
+    ty2->is_volatile = ty->is_volatile | is_volatile;
+    ty2->is_restrict = ty->is_restrict | is_restrict;
     return ty2;
   }
 
@@ -3326,7 +3326,7 @@ static Node *to_assign(Node *binary) {
 
   binary->arith_kind = binary->kind;
   binary->kind = ND_ARITH_ASSIGN;
-  binary->ty = binary->lhs->ty;
+  binary->ty = unqual(binary->lhs->ty);
   return binary;
 }
 
@@ -4035,7 +4035,7 @@ static Node *new_inc_dec(Node *node, Token *tok, int addend) {
 
   node = new_add(node, new_num(addend, tok), tok);
   node->kind = ND_POST_INCDEC;
-  node->ty = node->lhs->ty;
+  node->ty = unqual(node->lhs->ty);
   return node;
 }
 
@@ -4505,7 +4505,7 @@ static Node *primary(Token **rest, Token *tok) {
     if (current_fn && (equal(tok, "__func__") || equal(tok, "__FUNCTION__"))) {
       char *name = current_fn->name;
       VarScope *vsc = ast_arena_calloc(sizeof(VarScope));
-      vsc->var = new_static_lvar(array_of(ty_pchar, strlen(name) + 1));
+      vsc->var = new_static_lvar(array_of(cv_qualify(ty_pchar, true, false), strlen(name) + 1));
       vsc->var->init_data = name;
       hashmap_put(&current_fn->ty->scopes->vars, "__func__", vsc);
       hashmap_put(&current_fn->ty->scopes->vars, "__FUNCTION__", vsc);
diff --git a/slimcc.h b/slimcc.h
index 0fadbfc..7c66d98 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -653,6 +653,7 @@ void add_type(Node *node);
 void int_promotion(Node **node);
 Type *unqual(Type *ty);
 Type *new_qualified_type(Type *ty);
+Type *cv_qualify(Type *ty, bool is_const, bool is_volatile);
 Obj *eval_var_opt(Node *node, int *ofs, bool let_subarray, bool let_atomic);
 
 //
diff --git a/type.c b/type.c
index d8b6ca8..95762e9 100644
--- a/type.c
+++ b/type.c
@@ -110,6 +110,29 @@ Type *new_qualified_type(Type *ty) {
   return ret;
 }
 
+// Array types have no qualifiers of their own, they belong to the elements.
+Type *cv_qualify(Type *ty, bool is_const, bool is_volatile) {
+  if (ty->is_const >= is_const && ty->is_volatile >= is_volatile)
+    return ty;
+
+  if (ty->kind == TY_ARRAY) {
+    Type *base = cv_qualify(ty->base, is_const, is_volatile);
+    if (base == ty->base)
+      return ty;
+    ty = copy_type(ty);
+    ty->origin = NULL;
+    ty->base = base;
+    return ty;
+  }
+
+  Type *ret = new_qualified_type(ty);
+  ret->is_atomic = ty->is_atomic;
+  ret->is_restrict = ty->is_restrict;
+  ret->is_const = ty->is_const | is_const;
+  ret->is_volatile = ty->is_volatile | is_volatile;
+  return ret;
+}
+
 bool is_integer(Type *ty) {
   TypeKind k = ty->kind;
   return k == TY_BOOL || k == TY_PCHAR || k == TY_CHAR || k == TY_SHORT ||
@@ -266,6 +289,13 @@ Type *array_to_pointer(Type *ty) {
   return ty;
 }
 
+// Array to pointer, function to pointer and lvalue conversion.
+static Type *rvalue_type(Type *ty) {
+  if (ty->kind == TY_FUNC)
+    return pointer_to(ty);
+  return unqual(array_to_pointer(ty));
+}
+
 Type *func_type(Type *return_ty, Token *tok) {
   if (return_ty->base && return_ty->kind != TY_PTR)
     error_tok(tok, "function return type cannot be array");
@@ -365,9 +395,16 @@ static Type *get_common_type(Node **lhs, Node **rhs, bool handle_ptr) {
       return array_to_pointer(ty2);
 
     if (ty1->base && ty2->base) {
-      if (is_compatible(ty1->base, ty2->base))
-        return array_to_pointer(ty1);
-      return pointer_to(ty_void);
+      // The result points to a type with the qualifiers of both.
+      Type *b1 = ty1->base;
+      Type *b2 = ty2->base;
+      if (!is_compatible(b1, b2))
+        b1 = ty_void;
+      else if (b1->kind == TY_ARRAY && b1->array_len < 0)
+        b1 = b2;
+
+      b1 = cv_qualify(b1, ty1->base->is_const, ty1->base->is_volatile);
+      return pointer_to(cv_qualify(b1, b2->is_const, b2->is_volatile));
     }
   }
 
@@ -437,7 +474,7 @@ void add_type(Node *node) {
     if (ptr) {
       if ((*ptr)->ty->kind != TY_PTR)
         *ptr = new_cast(*ptr, pointer_to((*ptr)->ty->base));
-      node->ty = (*ptr)->ty;
+      node->ty = unqual((*ptr)->ty);
       return;
     }
     usual_arith_conv(&node->lhs, &node->rhs, false);
@@ -459,7 +496,7 @@ void add_type(Node *node) {
       error_tok(node->lhs->tok, "invalid operand");
     if (is_integer(node->lhs->ty))
       int_promotion(&node->lhs);
-    node->ty = node->lhs->ty;
+    node->ty = unqual(node->lhs->ty);
     return;
   case ND_ASSIGN:
     if (node->lhs->ty->kind == TY_ARRAY &&
@@ -467,7 +504,7 @@ void add_type(Node *node) {
       error_tok(node->lhs->tok, "not an lvalue");
     if (node->lhs->ty->kind != TY_STRUCT && node->lhs->ty->kind != TY_UNION)
       node->rhs = new_cast(node->rhs, node->lhs->ty);
-    node->ty = node->lhs->ty;
+    node->ty = unqual(node->lhs->ty);
     return;
   case ND_EQ:
   case ND_NE:
@@ -490,7 +527,7 @@ void add_type(Node *node) {
     if (!is_integer(node->lhs->ty))
       error_tok(node->lhs->tok, "invalid operand");
     int_promotion(&node->lhs);
-    node->ty = node->lhs->ty;
+    node->ty = unqual(node->lhs->ty);
     return;
   case ND_SHL:
   case ND_SHR:
@@ -500,7 +537,7 @@ void add_type(Node *node) {
     if (!is_integer(node->rhs->ty))
       error_tok(node->rhs->tok, "invalid operand");
     int_promotion(&node->lhs);
-    node->ty = node->lhs->ty;
+    node->ty = unqual(node->lhs->ty);
     return;
   case ND_VAR:
     node->ty = node->var->ty;
@@ -509,7 +546,7 @@ void add_type(Node *node) {
     if (node->then->ty->kind == TY_VOID || node->els->ty->kind == TY_VOID) {
       node->ty = ty_void;
     } else if (!is_numeric(node->then->ty) && is_compatible(node->then->ty, node->els->ty)) {
-      node->ty = array_to_pointer(node->then->ty);
+      node->ty = rvalue_type(node->then->ty);
     } else {
       usual_arith_conv(&node->then, &node->els, true);
       node->ty = node->then->ty;
@@ -519,7 +556,7 @@ void add_type(Node *node) {
     node->ty = node->rhs->ty;
     return;
   case ND_COMMA:
-    node->ty = array_to_pointer(node->rhs->ty);
+    node->ty = rvalue_type(node->rhs->ty);
     return;
   case ND_MEMBER:
     node->ty = node->member->ty;
@@ -541,7 +578,7 @@ void add_type(Node *node) {
       while (stmt->next)
         stmt = stmt->next;
       if (stmt->kind == ND_EXPR_STMT) {
-        node->ty = array_to_pointer(stmt->lhs->ty);
+        node->ty = rvalue_type(stmt->lhs->ty);
         return;
       }
     }
-- 
2.43.0


From 282915a116d53b36157fdf00a0f31460a53413bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 028/117] fix: composite type of conditional operands pointing
 to arrays

---
 type.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/type.c b/type.c
index 95762e9..8977f9b 100644
--- a/type.c
+++ b/type.c
@@ -379,6 +379,12 @@ void int_promotion(Node **node) {
   }
 }
 
+static Type *elem_type(Type *ty) {
+  while (is_array(ty))
+    ty = ty->base;
+  return ty;
+}
+
 static Type *get_common_type(Node **lhs, Node **rhs, bool handle_ptr) {
   Type *ty1 = (*lhs)->ty;
   Type *ty2 = (*rhs)->ty;
@@ -403,8 +409,10 @@ static Type *get_common_type(Node **lhs, Node **rhs, bool handle_ptr) {
       else if (b1->kind == TY_ARRAY && b1->array_len < 0)
         b1 = b2;
 
-      b1 = cv_qualify(b1, ty1->base->is_const, ty1->base->is_volatile);
-      return pointer_to(cv_qualify(b1, b2->is_const, b2->is_volatile));
+      Type *q1 = elem_type(ty1->base);
+      Type *q2 = elem_type(ty2->base);
+      return pointer_to(cv_qualify(b1, q1->is_const || q2->is_const,
+                                       q1->is_volatile || q2->is_volatile));
     }
   }
 
@@ -545,7 +553,8 @@ void add_type(Node *node) {
   case ND_COND:
     if (node->then->ty->kind == TY_VOID || node->els->ty->kind == TY_VOID) {
       node->ty = ty_void;
-    } else if (!is_numeric(node->then->ty) && is_compatible(node->then->ty, node->els->ty)) {
+    } else if (!is_numeric(node->then->ty) && !node->then->ty->base &&
+      is_compatible(node->then->ty, node->els->ty)) {
       node->ty = rvalue_type(node->then->ty);
     } else {
       usual_arith_conv(&node->then, &node->els, true);
-- 
2.43.0


From 92690e9c133db80729fe75e0b8f24b1ae08cfe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:23 +0000
Subject: [PATCH 029/117] fix: universal character names after an escaped
 backslash

---
 tokenize.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 0b33195..60d64c4 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -920,6 +920,8 @@ static void convert_universal_chars(char *p) {
         q += encode_utf8(q, c);
         continue;
       }
+    } else if (startswith2(p, '\\', '\\')) {
+      *q++ = *p++;
     }
     *q++ = *p++;
   }
-- 
2.43.0


From 7cc3e8f6b5946fd4380547f27250f989a6d5c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 030/117] fix: UTF-32 character constants above INT_MAX were
 sign-extended

---
 tokenize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tokenize.c b/tokenize.c
index 60d64c4..2756105 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -774,6 +774,7 @@ Token *tokenize(File *file, Token **end) {
     // UTF-32 character literal
     if (startswith2(p, 'U', '\'')) {
       cur = cur->next = read_char_literal(p, p + 1, ty_uint);
+      cur->ival &= 0xffffffff;
       p += cur->len;
       continue;
     }
-- 
2.43.0


From b06cc6b18be1fa01619721b10e6e383426f4f015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:03 +0000
Subject: [PATCH 031/117] fix: crash on atomic updates whose operand has no
 type yet

---
 parse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 95e91cf..80dbe50 100644
--- a/parse.c
+++ b/parse.c
@@ -3265,6 +3265,9 @@ static Node *atomic_op(Node *binary, bool return_old) {
   Node head = {0};
   Node *cur = &head;
 
+  add_type(binary->lhs);
+  add_type(binary->rhs);
+
   Obj *addr = new_lvar(NULL, pointer_to(binary->lhs->ty));
   Obj *val = new_lvar(NULL, binary->rhs->ty);
   Obj *old = new_lvar(NULL, binary->lhs->ty);
@@ -4356,8 +4359,6 @@ static Node *primary(Token **rest, Token *tok) {
     else
       error_tok(start, "unsupported atomic fetch op");
 
-    add_type(binary->lhs);
-    add_type(binary->rhs);
     return atomic_op(binary, true);
   }
 
-- 
2.43.0


From baceedf034d265f0ee27078f45c696bdd80eabe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:03 +0000
Subject: [PATCH 032/117] fix: conversions and results of atomic exchange and
 compare-exchange

---
 codegen.c | 21 +++++++++++++++++++--
 parse.c   |  2 +-
 type.c    |  8 ++++++--
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index 1356971..e0a44fe 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1945,8 +1945,25 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->rhs);
     char *reg = pop_inreg(tmpreg64[0]);
 
-    int sz = node->lhs->ty->base->size;
-    Printftn("xchg %s, (%s)", reg_ax(sz), reg);
+    Type *ty = node->ty;
+    char *ax = reg_ax(ty->size);
+
+    switch (ty->kind) {
+    case TY_DOUBLE: Printftn("movq %%xmm0, %s", ax); break;
+    case TY_FLOAT: Printftn("movd %%xmm0, %s", ax); break;
+    case TY_LDOUBLE: error_tok(node->tok, "unsupported type for atomic exchange");
+    }
+
+    Printftn("xchg %s, (%s)", ax, reg);
+
+    switch (ty->kind) {
+    case TY_DOUBLE: Printftn("movq %s, %%xmm0", ax); return;
+    case TY_FLOAT: Printftn("movd %s, %%xmm0", ax); return;
+    }
+    switch (ty->size) {
+    case 1: Printftn("%s %%al, %%eax", ty->is_unsigned ? "movzbl" : "movsbl"); return;
+    case 2: Printftn("%s %%ax, %%eax", ty->is_unsigned ? "movzwl" : "movswl"); return;
+    }
     return;
   }
   case ND_ALLOCA:
diff --git a/parse.c b/parse.c
index 80dbe50..ef55986 100644
--- a/parse.c
+++ b/parse.c
@@ -3344,7 +3344,7 @@ static Node *assign(Token **rest, Token *tok) {
   if (equal(tok, "=") && node->ty->is_atomic) {
     Node *rhs = assign(rest, tok->next);
     add_type(rhs);
-    Obj *tmp = new_lvar(NULL, rhs->ty);
+    Obj *tmp = new_lvar(NULL, unqual(node->ty));
     Node *expr = new_binary(ND_ASSIGN, new_var_node(tmp, tok), rhs, tok);
     chain_expr(&expr, new_binary(ND_EXCH, new_unary(ND_ADDR, node, tok),
                                           new_var_node(tmp, tok),
diff --git a/type.c b/type.c
index 8977f9b..29228f6 100644
--- a/type.c
+++ b/type.c
@@ -606,11 +606,15 @@ void add_type(Node *node) {
       error_tok(node->cas_addr->tok, "pointer expected");
     if (node->cas_old->ty->kind != TY_PTR)
       error_tok(node->cas_old->tok, "pointer expected");
+    node->cas_new = new_cast(node->cas_new, node->cas_addr->ty->base);
     return;
   case ND_EXCH:
     if (node->lhs->ty->kind != TY_PTR)
-      error_tok(node->cas_addr->tok, "pointer expected");
-    node->ty = node->lhs->ty->base;
+      error_tok(node->lhs->tok, "pointer expected");
+    node->ty = unqual(node->lhs->ty->base);
+    if (!is_numeric(node->ty) && node->ty->kind != TY_PTR)
+      error_tok(node->tok, "unsupported type for atomic exchange");
+    node->rhs = new_cast(node->rhs, node->ty);
     return;
   case ND_VA_START:
   case ND_VA_COPY:
-- 
2.43.0


From 13e55bf0e79cfb3e6f4510df8f555df850db4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 033/117] fix: asm statement nested in an operand of another

---
 codegen.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/codegen.c b/codegen.c
index e0a44fe..3c46633 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3523,9 +3523,8 @@ static char *reg_sz(Reg reg, int sz) {
   internal_error();
 }
 
-static void asm_gen_operands(void) {
-  for (int i = 0; i < asm_ops.cnt; i++) {
-    AsmParam *ap = asm_ops.data[i];
+static void asm_gen_operands(AsmParam *ap) {
+  for (; ap; ap = ap->next) {
     if (ap->ptr) {
       Node addr_node = {.kind = ND_ADDR, .lhs = ap->arg, .tok = ap->arg->tok};
       gen_var_assign(ap->ptr, &addr_node);
@@ -3922,9 +3921,13 @@ static void gen_asm(Node *node) {
     Printftn("%s", node->asm_str->str);
     return;
   }
+  // Operands can contain statement expressions with other asm statements,
+  // so the global states are set up after evaluating them.
+  asm_gen_operands(node->asm_outputs);
+  asm_gen_operands(node->asm_inputs);
+
   asm_alt_ptr.rbp = asm_alt_ptr.rbx = NULL;
   asm_fill_ops(node);
-  asm_gen_operands();
 
   int x87_depth = asm_x87_inputs();
   asm_xmm_inputs();
-- 
2.43.0


From 9609a156c0eb3c3c5ffe0d5c3108879a4f8e6c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 034/117] fix: non-constant asm operands with an immediate
 alternative

---
 codegen.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 3c46633..d24f94a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3277,6 +3277,15 @@ static void fixed_reg(Reg *reg, Reg spec, Token *tok) {
   *reg = spec;
 }
 
+static bool is_asm_symbol(Node *arg) {
+  if (arg->kind == ND_VAR && arg->var->ty->kind == TY_FUNC)
+    return use_rip(arg->var);
+
+  char ofs[STRBUF_SZ], *ptr = NULL;
+  return arg->kind == ND_ADDR && is_memop(arg->lhs, ofs, &ptr, true) &&
+    ptr && !strcmp(ptr, "%rip");
+}
+
 static void asm_constraint(AsmParam *ap, int x87_clobber) {
   for (; ap; ap = ap->next) {
     Reg reg = REG_NULL;
@@ -3339,7 +3348,10 @@ static void asm_constraint(AsmParam *ap, int x87_clobber) {
       ap->kind = ASMOP_NUM;
       continue;
     }
-    if (is_symbolic) {
+    bool has_alt = ap->is_gp || ap->is_gp_highbyte || ap->is_gp_legacy ||
+      ap->is_gp_free || ap->is_fp || ap->is_x87 || ap->is_mem || reg || match_idx >= 0;
+
+    if (is_symbolic && (!has_alt || is_asm_symbol(ap->arg))) {
       ap->kind = ASMOP_SYMBOLIC;
       continue;
     }
-- 
2.43.0


From 1c9003cffeb6f0873332cc584fa163b31a60133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 035/117] fix: out-of-range constants for ranged asm immediate
 constraints

---
 codegen.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index d24f94a..ce5d817 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3286,6 +3286,19 @@ static bool is_asm_symbol(Node *arg) {
     ptr && !strcmp(ptr, "%rip");
 }
 
+static bool in_asm_imm_range(char constraint, int64_t val) {
+  switch (constraint) {
+  case 'I': return 0 <= val && val <= 31;
+  case 'J': return 0 <= val && val <= 63;
+  case 'K': return -128 <= val && val <= 127;
+  case 'L': return val == 0xff || val == 0xffff || val == 0xffffffff;
+  case 'M': return 0 <= val && val <= 3;
+  case 'N': return 0 <= val && val <= 255;
+  case 'O': return 0 <= val && val <= 127;
+  }
+  return true;
+}
+
 static void asm_constraint(AsmParam *ap, int x87_clobber) {
   for (; ap; ap = ap->next) {
     Reg reg = REG_NULL;
@@ -3294,6 +3307,7 @@ static void asm_constraint(AsmParam *ap, int x87_clobber) {
     int match_idx = -1;
     bool is_num = false;
     bool is_symbolic = false;
+    bool is_const = is_integer(ap->arg->ty) && is_const_expr(ap->arg, &ap->val);
 
     if (!strncmp(p, "=@cc", 4)) {
       ap->kind = ASMOP_FLAG;
@@ -3320,7 +3334,7 @@ static void asm_constraint(AsmParam *ap, int x87_clobber) {
       case 'M':
       case 'N':
       case 'O':
-      case 'P': is_num = true; continue;
+      case 'P': is_num |= is_const && in_asm_imm_range(*p, ap->val); continue;
       case 'i': is_num = is_symbolic = true; continue;
       case 'x':
       case 'v': ap->is_fp = true; continue;
@@ -3344,7 +3358,7 @@ static void asm_constraint(AsmParam *ap, int x87_clobber) {
       }
       error_tok(ap->constraint, "unknown constraint \"%c\"", *p);
     }
-    if (is_num && is_integer(ap->arg->ty) && is_const_expr(ap->arg, &ap->val)) {
+    if (is_num && is_const) {
       ap->kind = ASMOP_NUM;
       continue;
     }
-- 
2.43.0


From def78f794431bd43f08ee5ec85ecafa0de9bdd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 036/117] fix: asm goto skipped register restoring and deferred
 statements, clashed with numeric labels

---
 codegen.c | 43 +++++++++++++++++++++++++++++--------------
 parse.c   |  1 +
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/codegen.c b/codegen.c
index ce5d817..baf1e93 100644
--- a/codegen.c
+++ b/codegen.c
@@ -114,6 +114,8 @@ static struct {
   char *rbx;
 } asm_alt_ptr;
 
+static int64_t asm_jmp_id;
+
 typedef enum {
   SL_GP,
   SL_FP,
@@ -3495,7 +3497,7 @@ void prepare_inline_asm(Node *node) {
   if (asm_use.in[REG_BX] || asm_use.out[REG_BX])
     node->alt_frame_ptr2 = acquire_gp(asm_use.in, asm_use.out, node->tok);
 
-  if (node->asm_outputs) {
+  if (node->asm_outputs || node->asm_labels) {
     if (node->alt_frame_ptr && !asm_use.out[REG_BP])
       node->output_tmp_gp = REG_BP;
     else if (node->alt_frame_ptr2 && !asm_use.out[REG_BX])
@@ -3817,8 +3819,8 @@ static void asm_body(Node *node) {
       if (!ap->arg->unique_label)
         error_tok(ap->arg->tok, "not a label");
 
-      if (node->asm_outputs)
-        Printf("%df", ap->label_id);
+      if (asm_jmp_id)
+        Printf(".L.asm.%"PRIi64".%d", asm_jmp_id, ap->label_id);
       else
         Printf("%s", stmt_label(ap->arg->unique_label));
       continue;
@@ -3964,20 +3966,28 @@ static void gen_asm(Node *node) {
   asm_gp_inputs();
 
   asm_fill_ops2(node);
+
+  // Unless nothing has to be done before a jump, jumps in the template
+  // land on stubs following it.
+  int64_t jmp_id = 0;
+  for (AsmParam *ap = node->asm_labels; ap && !jmp_id; ap = ap->next)
+    if (node->asm_outputs || node->clobber_mask || node->alt_frame_ptr ||
+      node->alt_frame_ptr2 || x87_depth || has_defr(ap->arg))
+      jmp_id = asm_jmp_id = count();
+
   asm_body(node);
+  asm_jmp_id = 0;
 
-  int fallthrough_label = asm_ops.cnt;
-  int meet_label = asm_ops.cnt + 1;
-  bool is_goto_with_output = node->asm_outputs && node->asm_labels;
-  if (is_goto_with_output) {
+  if (jmp_id) {
     char *tmp_gp = regs[node->output_tmp_gp][3];
-    Printftn("lea %df(%%rip), %s; jmp %df", fallthrough_label, tmp_gp, meet_label);
+    Printftn("lea .L.asm.%"PRIi64".fall(%%rip), %s", jmp_id, tmp_gp);
+    Printftn("jmp .L.asm.%"PRIi64".meet", jmp_id);
     for (AsmParam *ap = node->asm_labels; ap; ap = ap->next) {
-      Printftn("%d:", ap->label_id);
-      Printftn("lea %s(%%rip), %s", stmt_label(ap->arg->unique_label), tmp_gp);
-      Printftn("jmp %df", meet_label);
+      Printfsn(".L.asm.%"PRIi64".%d:", jmp_id, ap->label_id);
+      Printftn("lea .L.asm.%"PRIi64".%d.dst(%%rip), %s", jmp_id, ap->label_id, tmp_gp);
+      Printftn("jmp .L.asm.%"PRIi64".meet", jmp_id);
     }
-    Printftn("%d:", meet_label);
+    Printfsn(".L.asm.%"PRIi64".meet:", jmp_id);
     Printftn("push %s", tmp_gp);
   }
 
@@ -3988,10 +3998,15 @@ static void gen_asm(Node *node) {
   asm_pop_frame_ptr(node, prev_lvar_ptr);
   asm_pop_clobbers(node);
 
-  if (is_goto_with_output) {
+  if (jmp_id) {
     Printstn("pop %%rax");
     Printstn("jmp *%%rax");
-    Printftn("%d:", fallthrough_label);
+    for (AsmParam *ap = node->asm_labels; ap; ap = ap->next) {
+      Printfsn(".L.asm.%"PRIi64".%d.dst:", jmp_id, ap->label_id);
+      gen_defr(ap->arg);
+      Printftn("jmp %s", stmt_label(ap->arg->unique_label));
+    }
+    Printfsn(".L.asm.%"PRIi64".fall:", jmp_id);
   }
 }
 
diff --git a/parse.c b/parse.c
index ef55986..c77fee4 100644
--- a/parse.c
+++ b/parse.c
@@ -2299,6 +2299,7 @@ static AsmParam *asm_labels(Token **rest, Token *tok) {
     Node *node = new_node(ND_GOTO, tok);
     node->labels = ident_tok(&tok, tok);
     node->goto_next = gotos;
+    node->defr_start = current_defr;
     gotos = node;
 
     cur = cur->next = arena_calloc(&ast_arena, sizeof(AsmParam));
-- 
2.43.0


From 094be9c3c506c44af38c8b4a93af253901500500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 037/117] fix: asm operand temporaries overlapped variables
 inside the operands

---
 parse.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index c77fee4..23f7a63 100644
--- a/parse.c
+++ b/parse.c
@@ -2635,9 +2635,8 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
   }
 
   if (equal_kw(tok, "asm") || equal(tok, "__asm") || equal(tok, "__asm__")) {
-    Node *node = asm_stmt(&tok, tok);
-
     enter_tmp_scope();
+    Node *node = asm_stmt(&tok, tok);
     prepare_inline_asm(node);
     leave_scope();
 
-- 
2.43.0


From d9264430ce6fc4466d1b47ef4f247a68ff14ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 038/117] fix: read-write bit-field asm operands, flag outputs
 next to bit-field outputs

---
 codegen.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index baf1e93..c654ae3 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3596,6 +3596,21 @@ static void asm_reg_input(AsmParam *ap, Reg tmpreg) {
   char ofs[STRBUF_SZ], *ptr = NULL;
   asm_gen_ptr(ap, ofs, &ptr, tmpreg);
 
+  if (ap->ptr && is_bitfield(ap->arg) && is_gp_reg(ap->reg)) {
+    Member *mem = ap->arg->member;
+    char *val = regs[ap->reg][3];
+
+    switch (mem->ty->size) {
+    case 1: Printftn("movzbl %s(%s), %s", ofs, ptr, regs[ap->reg][2]); break;
+    case 2: Printftn("movzwl %s(%s), %s", ofs, ptr, regs[ap->reg][2]); break;
+    case 4: Printftn("movl %s(%s), %s", ofs, ptr, regs[ap->reg][2]); break;
+    case 8: Printftn("movq %s(%s), %s", ofs, ptr, val); break;
+    }
+    Printftn("shl $%d, %s", 64 - mem->bit_width - mem->bit_offset, val);
+    Printftn("%s $%d, %s", mem->ty->is_unsigned ? "shr" : "sar", 64 - mem->bit_width, val);
+    return;
+  }
+
   if (is_gp_reg(ap->reg)) {
     switch (ap->arg->ty->size) {
     case 1: Printftn("movb %s(%s), %s", ofs, ptr, regs[ap->reg][0]); return;
@@ -3746,15 +3761,8 @@ static void asm_x87_outputs(Node *node, int in_cnt) {
 static void asm_outputs(Node *node) {
   Reg freereg = node->output_tmp_gp;
 
+  // The flags are only intact until the first bit-field is written.
   for (AsmParam *ap = node->asm_outputs; ap; ap = ap->next) {
-    if (ap->kind == ASMOP_REG) {
-      if (is_x87_reg(ap->reg))
-        continue;
-      if (asm_bitfield_out(ap, freereg))
-        continue;
-      asm_reg_output(ap, freereg);
-      continue;
-    }
     if (ap->kind == ASMOP_FLAG) {
       char ofs[STRBUF_SZ], *ptr;
       asm_gen_ptr(ap, ofs, &ptr, freereg);
@@ -3764,6 +3772,17 @@ static void asm_outputs(Node *node) {
       continue;
     }
   }
+
+  for (AsmParam *ap = node->asm_outputs; ap; ap = ap->next) {
+    if (ap->kind == ASMOP_REG) {
+      if (is_x87_reg(ap->reg))
+        continue;
+      if (asm_bitfield_out(ap, freereg))
+        continue;
+      asm_reg_output(ap, freereg);
+      continue;
+    }
+  }
 }
 
 static bool named_op(char *p, Token *tok, char **rest) {
-- 
2.43.0


From 06b7ef1eca54c1a9e2e6d11c4bb30fa285362f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 039/117] fix: -E joined adjacent tokens coming from different
 places

---
 main.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 8bfae0a..e5257f8 100644
--- a/main.c
+++ b/main.c
@@ -637,11 +637,31 @@ static void run_cc1(char *input, char *output, bool no_fork, bool is_asm_pp) {
 }
 
 // Print tokens to stdout. Used for -E.
+// Returns true if two tokens not adjacent in the source would be read
+// as something else when printed without a space in between.
+static bool would_merge(Token *lhs, Token *rhs) {
+  if (lhs->loc + lhs->len == rhs->loc)
+    return false;
+
+  unsigned char l = lhs->loc[lhs->len - 1];
+  unsigned char r = *rhs->loc;
+  bool is_num = Isdigit(*lhs->loc) || (*lhs->loc == '.' && lhs->len > 1);
+
+  if (is_num && strchr("+-", r))
+    return true;
+  if (Isalnum(l) || l == '_' || l == '$' || l == '\\' || l >= 0x80 || is_num)
+    return Isalnum(r) || strchr("_$.\\\"'", r) || r >= 0x80;
+  if (l == '.' && Isdigit(r))
+    return true;
+  return strchr("+-*/%&|^<>=!.#:", l) && strchr("+-*/%&|^<>=.#:", r);
+}
+
 static void print_tokens(Token *tok, char *path) {
   FILE *out = open_file(path);
 
   int line = 1;
   File *markerfile = NULL;
+  Token *prev = NULL;
 
   for (; tok->kind != TK_EOF; tok = tok->next) {
     Token *orig = tok->origin ? tok->origin : tok;
@@ -655,10 +675,11 @@ static void print_tokens(Token *tok, char *path) {
 
     if (line > 1 && tok->at_bol)
       fprintf(out, "\n");
-    if (tok->has_space && !tok->at_bol)
+    if (!tok->at_bol && (tok->has_space || (prev && would_merge(prev, tok))))
       fprintf(out, " ");
     fprintf(out, "%.*s", tok->len, tok->loc);
     line++;
+    prev = tok;
   }
   fprintf(out, "\n");
 
-- 
2.43.0


From e4d332eb7176382d6e8f69f4f36bfbb70dc3280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 040/117] fix: tokens behind a backslash-newline were
 attributed to the first line of the logical line

---
 preprocess.c |  6 ++++--
 slimcc.h     |  1 +
 tokenize.c   | 55 ++++++++++++++++++++++++++++++----------------------
 3 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 2bfee81..44dbd84 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1208,13 +1208,15 @@ static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
 // Read #line arguments
 static void read_line_marker(Token **rest, Token *tok) {
   Token *start = tok;
-  tok = expand_tok(split_line(rest, tok));
+  tok = split_line(rest, tok);
+  int line_no = tok->kind == TK_EOF ? tok->line_no : find_last_tok(tok)->line_no;
+  tok = expand_tok(tok);
 
   int64_t val;
   if (convert_pp_number(tok, &val, &(long double){0})->kind != TY_INT)
     error_tok(tok, "invalid line marker");
 
-  start->file->line_delta = val - start->line_no - 1;
+  start->file->line_delta = val - line_no - 1;
 
   tok = tok->next;
   if (tok->kind == TK_EOF)
diff --git a/slimcc.h b/slimcc.h
index 7c66d98..51c1fcb 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -158,6 +158,7 @@ struct File {
   int file_no;
   int incl_no;
   char *contents;
+  char **splices; // Locations of removed backslash-newlines
 
   // For #line directive
   File *display_file;
diff --git a/tokenize.c b/tokenize.c
index 2756105..899df32 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -80,6 +80,8 @@ void error_at(char *loc, char *fmt, ...) {
   for (char *p = current_file->contents; p < loc; p++)
     if (*p == '\n')
       line_no++;
+  for (char **sp = current_file->splices; sp && *sp && *sp <= loc; sp++)
+    line_no++;
 
   va_list ap;
   va_start(ap, fmt);
@@ -626,9 +628,12 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
 // Initialize line info for all tokens.
 static void add_line_numbers(Token *tok) {
   char *p = current_file->contents;
+  char **splice = current_file->splices;
   int n = 1;
 
   do {
+    for (; splice && *splice == p; splice++)
+      n++;
     if (p == tok->loc) {
       tok->line_no = n;
       tok = tok->next;
@@ -868,28 +873,27 @@ static void canonicalize_newline(char *p) {
   }
 }
 
-// Removes backslashes followed by a newline.
-static void remove_backslash_newline(char *p) {
-  char *first = strchr(p, '\\');
-  if (first) {
-    char *q = p = first;
-    int n = 0;
+// Removes backslashes followed by a newline. Returns a null-terminated
+// list of the locations they were at, so that the tokens behind them
+// can be attributed to the physical line they are on.
+static char **remove_backslash_newline(char *p) {
+  char *q = p;
+  char **splices = NULL;
+  int cnt = 0;
 
-    while (*p) {
-      if (*p == '\\' && p[1] == '\n') {
-        p += 2;
-        n++;
-        continue;
-      }
-      if (*p == '\n') {
-        for (; n > 0; n--)
-          *q++ = '\n';
-      }
-      *q++ = *p++;
+  while (*p) {
+    if (*p == '\\' && p[1] == '\n') {
+      if (!(cnt & (cnt - 1)))
+        splices = realloc(splices, sizeof(char *) * (cnt * 2 + 2));
+      splices[cnt++] = q;
+      splices[cnt] = NULL;
+      p += 2;
+      continue;
     }
-
-    *q = '\0';
+    *q++ = *p++;
   }
+  *q = '\0';
+  return splices;
 }
 
 static uint32_t read_universal_char(char *p, int len) {
@@ -903,10 +907,12 @@ static uint32_t read_universal_char(char *p, int len) {
 }
 
 // Replace \u or \U escape sequences with corresponding UTF-8 bytes.
-static void convert_universal_chars(char *p) {
+static void convert_universal_chars(char *p, char **splice) {
   char *q = p;
 
   while (*p) {
+    for (; splice && *splice && *splice <= p; splice++)
+      *splice = q;
     if (startswith2(p, '\\', 'u')) {
       uint32_t c = read_universal_char(p + 2, 4);
       if (c) {
@@ -966,10 +972,13 @@ Token *tokenize_file(char *path, Token **end, int *incl_no) {
     p += 3;
 
   canonicalize_newline(p);
-  remove_backslash_newline(p);
+  char **splices = remove_backslash_newline(p);
 
   if (opt_enable_universal_char)
-    convert_universal_chars(p);
+    convert_universal_chars(p, splices);
 
-  return tokenize(add_input_file(path, p, incl_no), end);
+  File *file = add_input_file(path, p, incl_no);
+  if (file->contents == p)
+    file->splices = splices;
+  return tokenize(file, end);
 }
-- 
2.43.0


From 0ba6ce523db2daf71fa332ce89189f301517ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 041/117] fix: #line state leaked into later inclusions,
 including a file named by #line crashed

---
 tokenize.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 899df32..38be1e4 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -940,15 +940,26 @@ File *add_input_file(char *path, char *contents, int *incl_no) {
   static HashMap input_files_map;
 
   File *file = hashmap_get(&input_files_map, path);
-  if (file)
+  if (file && !contents)
     return file;
 
   static int file_no;
-  file = new_file(path, file_no + 1, contents);
-  if (incl_no) {
+  bool is_new = !file;
+  if (is_new)
+    file = new_file(path, file_no + 1, contents);
+
+  // The file may have been named by a #line directive before, and is
+  // unaffected by the #line directives in a previous inclusion of it.
+  if (!file->contents)
+    file->contents = contents;
+  file->display_file = file;
+  file->line_delta = 0;
+  if (incl_no && !file->is_input) {
     file->is_input = true;
     file->incl_no = *incl_no;
   }
+  if (!is_new)
+    return file;
 
   input_files = realloc(input_files, sizeof(File *) * (file_no + 2));
   input_files[file_no] = file;
-- 
2.43.0


From cbc70282e340f23efc7c6ffee4ad006a0a13726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 042/117] fix: pre-expansion of a macro argument changed the
 operands of # and ##

---
 preprocess.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 44dbd84..3a9f5c2 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -579,7 +579,15 @@ static Token *expand_arg(MacroArg *arg) {
   if (arg->expanded)
     return arg->expanded;
 
-  return arg->expanded = expand_tok(arg->tok);
+  // Expansion modifies the tokens, the operands of # and ## must not change.
+  Token head = {0};
+  Token *cur = &head;
+  Token *tok = arg->tok;
+  for (; tok->kind != TK_EOF; tok = tok->next)
+    cur = cur->next = copy_token(tok);
+  cur->next = tok;
+
+  return arg->expanded = expand_tok(head.next);
 }
 
 static bool has_non_empty_va_arg(MacroContext *ctx, MacroArg **arg_p) {
-- 
2.43.0


From 4d2ae1de9adca1e7e5db5e4b0276589a0854486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 043/117] fix: the argument of the GNU comma extension was
 pre-expanded

---
 preprocess.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 3a9f5c2..a4d6e90 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -735,8 +735,13 @@ static Token *subst(Token *tok, MacroContext *ctx) {
           tok = tok->next->next->next;
           continue;
         }
+        // Like any operand of ##, the argument is not pre-expanded.
         cur = cur->next = copy_token(tok);
-        tok = tok->next->next;
+        tok = tok->next->next->next;
+        if (arg->tok->kind == TK_EOF)
+          cur = cur->next = new_pmark(arg->tok);
+        for (Token *t = arg->tok; t->kind != TK_EOF; t = t->next)
+          cur = cur->next = copy_token(t);
         continue;
       }
     }
-- 
2.43.0


From 47db0cd59a9c2360bc36dbe0458f3e01772d1127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 044/117] fix: an operand of ## after a placemarker was
 pre-expanded

---
 preprocess.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index a4d6e90..b42a161 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -753,23 +753,26 @@ static Token *subst(Token *tok, MacroContext *ctx) {
       if (tok->next->kind == TK_EOF)
         error_tok(tok, "'##' cannot appear at end of macro expansion");
 
-      if (cur->kind == TK_PMARK) {
-        tok = tok->next;
-        continue;
-      }
+      bool is_pmark = cur->kind == TK_PMARK;
 
       MacroArg *arg = find_arg(&tok, tok->next, ctx);
       if (arg) {
         if (arg->tok->kind == TK_EOF)
           continue;
 
-        if (arg->tok->kind != TK_PMARK)
+        if (is_pmark)
+          cur = cur->next = copy_token(arg->tok);
+        else if (arg->tok->kind != TK_PMARK)
           paste(cur, arg->tok);
 
         for (Token *t = arg->tok->next; t->kind != TK_EOF; t = t->next)
           cur = cur->next = copy_token(t);
         continue;
       }
+      if (is_pmark) {
+        tok = tok->next;
+        continue;
+      }
       paste(cur, tok->next);
       tok = tok->next->next;
       continue;
-- 
2.43.0


From 82716ba40fb538f0f311bd55af05bce2328da9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 045/117] fix: file names with quotes or backslashes in
 __FILE__, line markers and .file

---
 codegen.c    |  2 +-
 main.c       |  2 +-
 preprocess.c |  4 ++--
 slimcc.h     |  1 +
 strings.c    | 13 +++++++++++++
 5 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/codegen.c b/codegen.c
index c654ae3..9e7c173 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4453,7 +4453,7 @@ int codegen(Obj *prog, FILE *out) {
   if (opt_g) {
     File **files = get_input_files();
     for (int i = 0; files[i]; i++)
-      Printftn(".file %d \"%s\"", files[i]->file_no, files[i]->name);
+      Printftn(".file %d \"%s\"", files[i]->file_no, escape_string(files[i]->name));
   }
 
   for (Obj *var = prog; var; var = var->next) {
diff --git a/main.c b/main.c
index e5257f8..b629248 100644
--- a/main.c
+++ b/main.c
@@ -670,7 +670,7 @@ static void print_tokens(Token *tok, char *path) {
       char *name = orig->file->name;
       if (!strcmp(name, "-"))
         name = "<stdin>";
-      fprintf(out, "\n# %d \"%s\"\n", orig->line_no, name);
+      fprintf(out, "\n# %d \"%s\"\n", orig->line_no, escape_string(name));
     }
 
     if (line > 1 && tok->at_bol)
diff --git a/preprocess.c b/preprocess.c
index b42a161..7a13271 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1523,7 +1523,7 @@ static Token *file_macro(Token *start) {
   Token *tok = start;
   if (tok->origin)
     tok = tok->origin;
-  tok = new_str_token(tok->file->display_file->name, tok);
+  tok = new_str_token(escape_string(tok->file->display_file->name), tok);
   tok->next = start->next;
   return tok;
 }
@@ -1565,7 +1565,7 @@ static Token *timestamp_macro(Token *start) {
 }
 
 static Token *base_file_macro(Token *start) {
-  Token *tok = new_str_token(base_file, start);
+  Token *tok = new_str_token(escape_string(base_file), start);
   tok->next = start->next;
   return tok;
 }
diff --git a/slimcc.h b/slimcc.h
index 51c1fcb..af28720 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -132,6 +132,7 @@ typedef struct {
 
 void strarray_push(StringArray *arr, char *s);
 char *format(char *fmt, ...) FMTCHK(1,2);
+char *escape_string(char *str);
 
 //
 // tokenize.c
diff --git a/strings.c b/strings.c
index 2ac4382..67a5274 100644
--- a/strings.c
+++ b/strings.c
@@ -29,3 +29,16 @@ char *format(char *fmt, ...) {
   fclose(out);
   return buf;
 }
+
+// Escapes a string so that it can be put between double quotes.
+char *escape_string(char *str) {
+  char *buf = malloc(strlen(str) * 2 + 1);
+  char *p = buf;
+  for (; *str; str++) {
+    if (*str == '\\' || *str == '"')
+      *p++ = '\\';
+    *p++ = *str;
+  }
+  *p = '\0';
+  return buf;
+}
-- 
2.43.0


From 3e424f9530b90b645781e083cd8a4ce46285cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 046/117] fix: _Pragma away from the start of a line, positions
 in -E output

---
 main.c       | 56 +++++++++++++++++++++++++++++++++++++-------------
 preprocess.c | 58 +++++++++++++++++++++++++++++++++++++++++-----------
 slimcc.h     |  1 +
 3 files changed, 89 insertions(+), 26 deletions(-)

diff --git a/main.c b/main.c
index b629248..3b9d513 100644
--- a/main.c
+++ b/main.c
@@ -656,29 +656,57 @@ static bool would_merge(Token *lhs, Token *rhs) {
   return strchr("+-*/%&|^<>=!.#:", l) && strchr("+-*/%&|^<>=.#:", r);
 }
 
+static char *display_file_name(int file_no) {
+  File **files = get_input_files();
+  for (int i = 0; files && files[i]; i++)
+    if (files[i]->file_no == file_no)
+      return files[i]->name;
+  return "";
+}
+
 static void print_tokens(Token *tok, char *path) {
   FILE *out = open_file(path);
 
-  int line = 1;
-  File *markerfile = NULL;
+  int line = 0; // Line number of the output relative to the last marker
+  int file_no = 0;
   Token *prev = NULL;
+  bool in_pragma = false;
 
   for (; tok->kind != TK_EOF; tok = tok->next) {
-    Token *orig = tok->origin ? tok->origin : tok;
-    if (!opt_P && markerfile != orig->file) {
-      markerfile = orig->file;
-      char *name = orig->file->name;
-      if (!strcmp(name, "-"))
-        name = "<stdin>";
-      fprintf(out, "\n# %d \"%s\"\n", orig->line_no, escape_string(name));
-    }
-
-    if (line > 1 && tok->at_bol)
+    // A newline between the arguments of a macro isn't an end of line.
+    bool same_macro = prev && prev->origin && prev->origin == tok->origin;
+    bool at_bol = (tok->at_bol && !(same_macro && !in_pragma)) || tok->pragma == 1 ||
+      (prev && prev->pragma && !tok->pragma);
+
+    bool is_moved = file_no != tok->display_file_no || line != tok->display_line_no;
+    bool can_break = !prev ||
+      !(tok->origin || equal(tok, "#") || in_pragma || opt_cc1_asm_pp);
+
+    if (!opt_P && (at_bol || (is_moved && can_break))) {
+      int diff = tok->display_line_no - line;
+      if (file_no == tok->display_file_no && 0 < diff && diff <= 8) {
+        for (; diff > 0; diff--)
+          fprintf(out, "\n");
+      } else {
+        char *name = display_file_name(tok->display_file_no);
+        if (!strcmp(name, "-"))
+          name = "<stdin>";
+        fprintf(out, "%s# %d \"%s\"\n", prev ? "\n" : "", tok->display_line_no,
+                escape_string(name));
+      }
+      file_no = tok->display_file_no;
+      line = tok->display_line_no;
+    } else if (prev && at_bol) {
       fprintf(out, "\n");
-    if (!tok->at_bol && (tok->has_space || (prev && would_merge(prev, tok))))
+      line++;
+    } else if (prev && (tok->has_space || tok->at_bol || would_merge(prev, tok))) {
       fprintf(out, " ");
+    }
+
+    if (at_bol || !prev)
+      in_pragma = tok->pragma || (equal(tok, "#") && equal(tok->next, "pragma"));
+
     fprintf(out, "%.*s", tok->len, tok->loc);
-    line++;
     prev = tok;
   }
   fprintf(out, "\n");
diff --git a/preprocess.c b/preprocess.c
index 7a13271..16fa63d 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -76,6 +76,7 @@ static Macro *find_macro(Token *tok);
 static bool expand_macro(Token **rest, Token *tok, bool is_root);
 static Token *directives(Token **cur, Token *start);
 static Token *subst(Token *tok, MacroContext *ctx);
+static Token *pragma_macro(Token *start);
 static bool is_supported_attr(bool is_bracket, Token *vendor, Token *tok);
 
 static bool is_hash(Token *tok) {
@@ -948,7 +949,12 @@ static bool expand_macro(Token **rest, Token *tok, bool is_root) {
 
   // Built-in dynamic macro application such as __LINE__
   if (m->handler) {
+    Token *orig = tok->origin ? tok->origin : tok;
     *rest = m->handler(tok);
+    if (m->handler == pragma_macro)
+      return true;
+    if (*rest != tok)
+      (*rest)->origin = orig;
     align_token(*rest, tok);
     return true;
   }
@@ -1244,6 +1250,17 @@ static void read_line_marker(Token **rest, Token *tok) {
   start->file->display_file = add_input_file(tok->str, NULL, NULL);
 }
 
+static void set_display_pos(Token *tok) {
+  Token *orig = tok;
+  if (tok->origin) {
+    orig = orig->origin;
+    orig->is_root = true;
+  }
+  tok->display_file_no = orig->file->display_file->file_no;
+  tok->display_line_no = orig->line_no + orig->file->line_delta;
+  tok->is_root = true;
+}
+
 // Visit all tokens in `tok` while evaluating preprocessing
 // macros and directives.
 static Token *preprocess2(Token *tok) {
@@ -1261,15 +1278,7 @@ static Token *preprocess2(Token *tok) {
       continue;
     }
 
-    Token *orig = tok;
-    if (tok->origin) {
-      orig = orig->origin;
-      orig->is_root = true;
-    }
-    tok->display_file_no = orig->file->display_file->file_no;
-    tok->display_line_no = orig->line_no + orig->file->line_delta;
-    tok->is_root = true;
-
+    set_display_pos(tok);
     cur = cur->next = tok;
     tok = tok->next;
   }
@@ -1443,6 +1452,7 @@ static Token *directives(Token **cur, Token *start) {
   if (equal(tok, "pragma") && opt_E) {
     tok = start;
     do {
+      set_display_pos(tok);
       *cur = (**cur).next = tok;
       tok = tok->next;
     } while (!tok->at_bol);
@@ -1470,6 +1480,7 @@ static Token *directives(Token **cur, Token *start) {
   if (opt_cc1_asm_pp) {
     tok = start;
     do {
+      set_display_pos(tok);
       *cur = (**cur).next = tok;
       tok = tok->next;
     } while (!tok->at_bol);
@@ -1607,16 +1618,39 @@ static Token *pragma_macro(Token *start) {
       continue;
     case 2:
       tok = skip(tok, ")");
-      tok->at_bol = true;
     }
     break;
   }
-  char *buf = calloc(1, str->len + 7);
+  tok->at_bol |= start->at_bol;
+  tok->has_space = true;
+
+  char *buf = calloc(1, str->len + 9);
   memcpy(buf, "#pragma ", 8);
-  memcpy(buf + 8, str->loc + 1, str->len - 2);
+
+  // Destringize the literal.
+  char *q = buf + 8;
+  char *str_end = str->loc + str->len - 1;
+  for (char *p = strchr(str->loc, '"') + 1; p < str_end; p++) {
+    if (*p == '\\' && (p[1] == '\\' || p[1] == '"'))
+      p++;
+    *q++ = *p;
+  }
+  *q = '\n';
 
   Token *end;
   Token *hash = tokenize(new_file(start->file->name, start->file->file_no, buf), &end);
+  if (!opt_E) {
+    if (equal(hash->next->next, "once"))
+      hashmap_put(&pragma_once, start->file->name, (void *)1);
+    return tok;
+  }
+
+  for (Token *t = hash; t; t = t == end ? NULL : t->next) {
+    t->origin = start->origin ? start->origin : start;
+    t->pragma = t == hash ? 1 : 2;
+    t->dont_expand = true;
+  }
+  hash->at_bol = false;
   end->next = tok;
   return hash;
 }
diff --git a/slimcc.h b/slimcc.h
index af28720..32d9b45 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -176,6 +176,7 @@ struct Token {
   bool at_bol : 1;        // True if this token is at beginning of line
   bool has_space : 1;     // True if this token follows a space character
   bool dont_expand : 1;   // True if a macro token is encountered during the macro's expansion
+  unsigned char pragma;   // 1 if it starts the text of a _Pragma, 2 if it follows
   bool is_incl_guard : 1;
   bool is_root : 1;
   bool is_live : 1;
-- 
2.43.0


From 59304ae02be2a9e9ca3a921500ec82e6c1c96dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 047/117] fix: -E line positions after a multi-line macro
 invocation

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 3b9d513..190cbeb 100644
--- a/main.c
+++ b/main.c
@@ -680,7 +680,7 @@ static void print_tokens(Token *tok, char *path) {
 
     bool is_moved = file_no != tok->display_file_no || line != tok->display_line_no;
     bool can_break = !prev ||
-      !(tok->origin || equal(tok, "#") || in_pragma || opt_cc1_asm_pp);
+      !(same_macro || equal(tok, "#") || in_pragma || opt_cc1_asm_pp);
 
     if (!opt_P && (at_bol || (is_moved && can_break))) {
       int diff = tok->display_line_no - line;
-- 
2.43.0


From 38826a653326a2e9e096d99d61ce033d6f644a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 048/117] fix: #pragma inside macro arguments ran into the
 following tokens in -E output

---
 main.c       | 2 +-
 preprocess.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 190cbeb..e8684ff 100644
--- a/main.c
+++ b/main.c
@@ -704,7 +704,7 @@ static void print_tokens(Token *tok, char *path) {
     }
 
     if (at_bol || !prev)
-      in_pragma = tok->pragma || (equal(tok, "#") && equal(tok->next, "pragma"));
+      in_pragma = tok->pragma;
 
     fprintf(out, "%.*s", tok->len, tok->loc);
     prev = tok;
diff --git a/preprocess.c b/preprocess.c
index 16fa63d..31de7d4 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1453,6 +1453,8 @@ static Token *directives(Token **cur, Token *start) {
     tok = start;
     do {
       set_display_pos(tok);
+      tok->pragma = tok == start ? 1 : 2;
+      tok->dont_expand = true;
       *cur = (**cur).next = tok;
       tok = tok->next;
     } while (!tok->at_bol);
-- 
2.43.0


From a6a199a867358a9482aa522d93affd3f1862296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 049/117] fix: line comment without a newline was read beyond
 the end of the buffer

---
 tokenize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index 38be1e4..4d04ebc 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -683,7 +683,7 @@ Token *tokenize(File *file, Token **end) {
     // Skip line comments.
     if (startswith2(p, '/', '/')) {
       p += 2;
-      while (*p != '\n')
+      while (*p && *p != '\n')
         p++;
       has_space = true;
       continue;
-- 
2.43.0


From 9b1e12c345c15254cc4148574cab56a44da41036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 050/117] fix: crash when ## forms a line comment

---
 preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 31de7d4..50bb707 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -700,7 +700,7 @@ static void paste(Token *lhs, Token *rhs) {
   // Tokenize the resulting string.
   Token *tok = tokenize(new_file(lhs->file->name, lhs->file->file_no, buf), NULL);
   align_token(tok, lhs);
-  if (tok->next->kind != TK_EOF)
+  if (tok->kind == TK_EOF || tok->next->kind != TK_EOF)
     error_tok(lhs, "pasting forms '%s', an invalid token", buf);
 
   Token *t = lhs->alloc_next;
-- 
2.43.0


From b2042673c204a1b736409623e02243070019a624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 051/117] fix: quotes in skipped groups were lexed across lines
 or rejected

---
 parse.c    |  3 +++
 tokenize.c | 46 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/parse.c b/parse.c
index 23f7a63..dfbb723 100644
--- a/parse.c
+++ b/parse.c
@@ -4549,6 +4549,9 @@ static Node *primary(Token **rest, Token *tok) {
     return node;
   }
 
+  if (equal(tok, "\"") || equal(tok, "'"))
+    error_tok(tok, "unclosed literal");
+
   error_tok(tok, "expected an expression");
 }
 
diff --git a/tokenize.c b/tokenize.c
index 4d04ebc..1e44f65 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -13,7 +13,6 @@ static bool at_bol;
 static bool has_space;
 
 #define startswith2(p, x, y) ((*(p) == x) && ((p)[1] == y))
-#define startswith3(p, x, y, z) ((*(p) == x) && ((p)[1] == y) && ((p)[2] == z))
 
 // Reports an error and exit.
 void error(char *fmt, ...) {
@@ -353,6 +352,21 @@ static char *string_literal_end(char *p) {
   return p;
 }
 
+// Returns true if p is the opening quote of a literal that is closed before
+// the end of the line. Otherwise the quote is left as a token on its own, so
+// that it is an error only if it's used, but not e.g. in a skipped group.
+static bool is_quoted(char *p, char quote) {
+  if (*p != quote || (quote == '\'' && p[1] == quote))
+    return false;
+  for (p++; *p && *p != '\n'; p++) {
+    if (*p == quote)
+      return true;
+    if (*p == '\\' && p[1] && p[1] != '\n')
+      p++;
+  }
+  return false;
+}
+
 static Token *read_string_literal(char *start, char *quote) {
   char *end = string_literal_end(quote + 1);
   char *buf = calloc(1, end - quote);
@@ -440,9 +454,9 @@ static Token *read_char_literal(char *start, char *quote, Type *ty) {
   else
     c = decode_utf8(&p, p);
 
-  char *end = strchr(p, '\'');
-  if (!end)
-    error_at(p, "unclosed char literal");
+  char *end = p;
+  while (*end != '\'')
+    end += (*end == '\\') + 1;
 
   Token *tok = new_token(TK_INT_NUM, start, end + 1);
   tok->ival = c;
@@ -719,42 +733,42 @@ Token *tokenize(File *file, Token **end) {
     }
 
     // String literal
-    if (*p == '"') {
+    if (is_quoted(p, '"')) {
       cur = cur->next = read_string_literal(p, p);
       p += cur->len;
       continue;
     }
 
     // UTF-8 string literal
-    if (startswith3(p, 'u', '8', '\"')) {
+    if (startswith2(p, 'u', '8') && is_quoted(p + 2, '"')) {
       cur = cur->next = read_string_literal(p, p + 2);
       p += cur->len;
       continue;
     }
 
     // UTF-16 string literal
-    if (startswith2(p, 'u', '\"')) {
+    if (*p == 'u' && is_quoted(p + 1, '"')) {
       cur = cur->next = read_utf16_string_literal(p, p + 1);
       p += cur->len;
       continue;
     }
 
     // Wide string literal
-    if (startswith2(p, 'L', '\"')) {
+    if (*p == 'L' && is_quoted(p + 1, '"')) {
       cur = cur->next = read_utf32_string_literal(p, p + 1, ty_int);
       p += cur->len;
       continue;
     }
 
     // UTF-32 string literal
-    if (startswith2(p, 'U', '\"')) {
+    if (*p == 'U' && is_quoted(p + 1, '"')) {
       cur = cur->next = read_utf32_string_literal(p, p + 1, ty_uint);
       p += cur->len;
       continue;
     }
 
     // Character literal
-    if (*p == '\'') {
+    if (is_quoted(p, '\'')) {
       cur = cur->next = read_char_literal(p, p, ty_int);
       cur->ival = (char)cur->ival;
       p += cur->len;
@@ -762,7 +776,7 @@ Token *tokenize(File *file, Token **end) {
     }
 
     // UTF-16 character literal
-    if (startswith2(p, 'u', '\'')) {
+    if (*p == 'u' && is_quoted(p + 1, '\'')) {
       cur = cur->next = read_char_literal(p, p + 1, ty_ushort);
       cur->ival &= 0xffff;
       p += cur->len;
@@ -770,14 +784,14 @@ Token *tokenize(File *file, Token **end) {
     }
 
     // Wide character literal
-    if (startswith2(p, 'L', '\'')) {
+    if (*p == 'L' && is_quoted(p + 1, '\'')) {
       cur = cur->next = read_char_literal(p, p + 1, ty_int);
       p += cur->len;
       continue;
     }
 
     // UTF-32 character literal
-    if (startswith2(p, 'U', '\'')) {
+    if (*p == 'U' && is_quoted(p + 1, '\'')) {
       cur = cur->next = read_char_literal(p, p + 1, ty_uint);
       cur->ival &= 0xffffffff;
       p += cur->len;
@@ -792,6 +806,12 @@ Token *tokenize(File *file, Token **end) {
       continue;
     }
 
+    if (*p == '"' || *p == '\'') {
+      cur = cur->next = new_token(TK_PUNCT, p, p + 1);
+      p++;
+      continue;
+    }
+
     error_at(p, "invalid token");
   }
 
-- 
2.43.0


From 6c8ca2f6821e9be2cefbdf12d94fce9971243f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 052/117] fix: diagnostics about __LINE__ and other generated
 tokens had no position

---
 tokenize.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 1e44f65..ace0f35 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -57,6 +57,10 @@ static void verror_at(char *filename, char *input, int line_no,
 }
 
 void verror_at_tok(Token *tok, char *fmt, va_list ap) {
+  if (tok->is_generated && tok->origin) {
+    verror_at_tok(tok->origin, fmt, ap);
+    return;
+  }
   if (tok->is_generated) {
     vfprintf(stderr, fmt, ap);
     return;
-- 
2.43.0


From 521f74e8c6d47debf2b5ddb1af4a3604dd544a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:12 +0000
Subject: [PATCH 053/117] fix: #line without a number crashed

---
 preprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 50bb707..5e3caed 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1235,7 +1235,8 @@ static void read_line_marker(Token **rest, Token *tok) {
   tok = expand_tok(tok);
 
   int64_t val;
-  if (convert_pp_number(tok, &val, &(long double){0})->kind != TY_INT)
+  if (tok->kind != TK_PP_NUM ||
+    convert_pp_number(tok, &val, &(long double){0})->kind != TY_INT)
     error_tok(tok, "invalid line marker");
 
   start->file->line_delta = val - line_no - 1;
-- 
2.43.0


From 123b18de51a716860ddda3a7b5670c7cd18f1148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 054/117] fix: the line after a null directive was taken as the
 rest of the directive

---
 preprocess.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 5e3caed..74f80cd 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -174,7 +174,7 @@ static Token *skip_cond_incl(Token *tok) {
   Token *last = NULL;
   int lvl = 0;
   for (; tok->kind != TK_EOF; last = tok, tok = tok->next) {
-    if (is_hash(tok)) {
+    if (is_hash(tok) && !tok->next->at_bol) {
       if ((equal(tok->next, "if") || equal(tok->next, "ifdef") ||
            equal(tok->next, "ifndef"))) {
         lvl++;
@@ -1294,6 +1294,15 @@ static Token *preprocess2(Token *tok) {
 static Token *directives(Token **cur, Token *start) {
   Token *tok = start->next;
 
+  // `#`-only line is legal. It's called a null directive.
+  if (tok->at_bol) {
+    if (opt_cc1_asm_pp) {
+      set_display_pos(start);
+      *cur = (**cur).next = start;
+    }
+    return tok;
+  }
+
   if (equal(tok, "embed")) {
     Token *cont;
     bool is_dquote;
@@ -1490,10 +1499,6 @@ static Token *directives(Token **cur, Token *start) {
     return tok;
   }
 
-  // `#`-only line is legal. It's called a null directive.
-  if (tok->at_bol)
-    return tok;
-
   error_tok(tok, "invalid preprocessor directive");
 }
 
-- 
2.43.0


From 4a92fae7a555c1544b07bce5659c094fd076d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 055/117] fix: the macro name of a directive was read from the
 following line

---
 preprocess.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 74f80cd..e3b6bca 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -433,6 +433,13 @@ static Macro *find_macro(Token *tok) {
   return hashmap_get2(&macros, tok->loc, tok->len);
 }
 
+// Returns the macro name after #ifdef and the like.
+static Token *directive_name(Token *tok) {
+  if (tok->next->at_bol || tok->next->kind != TK_IDENT)
+    error_tok(tok, "macro name must be an identifier");
+  return tok->next;
+}
+
 static Macro *new_macro(char *name, bool is_objlike) {
   Macro *m = arena_calloc(&pp_arena, sizeof(Macro));
   m->is_objlike = is_objlike;
@@ -471,13 +478,13 @@ static Macro *read_macro_params(char *name, Token **rest, Token *tok) {
 }
 
 static Macro *read_macro_name(Token **rest, Token *tok) {
-  if (tok->kind != TK_IDENT)
+  if (tok->at_bol || tok->kind != TK_IDENT)
     error_tok(tok, "macro name must be an identifier");
   char *name = strndup(tok->loc, tok->len);
   tok = tok->next;
 
   Macro *m;
-  if (!tok->has_space && equal(tok, "("))
+  if (!tok->at_bol && !tok->has_space && equal(tok, "("))
     m = read_macro_params(name, &tok, tok->next);
   else
     m = new_macro(name, true);
@@ -1341,7 +1348,7 @@ static Token *directives(Token **cur, Token *start) {
 
   if (equal(tok, "undef")) {
     tok = tok->next;
-    if (tok->kind != TK_IDENT)
+    if (tok->at_bol || tok->kind != TK_IDENT)
       error_tok(tok, "macro name must be an identifier");
     undef_macro(strndup(tok->loc, tok->len));
     tok = skip_line(tok->next);
@@ -1357,7 +1364,7 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "ifdef")) {
-    bool active = find_macro(tok->next);
+    bool active = find_macro(directive_name(tok));
     push_cond_incl(tok, active);
     tok = skip_line(tok->next->next);
     if (!active)
@@ -1366,7 +1373,7 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "ifndef")) {
-    bool active = !find_macro(tok->next);
+    bool active = !find_macro(directive_name(tok));
     push_cond_incl(tok, active);
     tok = skip_line(tok->next->next);
     if (!active)
@@ -1393,7 +1400,7 @@ static Token *directives(Token **cur, Token *start) {
       error_tok(start, "stray #elifdef");
     cond->tok->is_incl_guard = false;
 
-    if (!cond->been_active && find_macro(tok->next)) {
+    if (!cond->been_active && find_macro(directive_name(tok))) {
       cond->been_active = true;
       return skip_line(tok->next->next);
     }
@@ -1406,7 +1413,7 @@ static Token *directives(Token **cur, Token *start) {
       error_tok(start, "stray #elifndef");
     cond->tok->is_incl_guard = false;
 
-    if (!cond->been_active && !find_macro(tok->next)) {
+    if (!cond->been_active && !find_macro(directive_name(tok))) {
       cond->been_active = true;
       return skip_line(tok->next->next);
     }
@@ -1504,6 +1511,7 @@ static Token *directives(Token **cur, Token *start) {
 
 void define_macro_cli(char *str) {
   Token *tok = tokenize(new_file("<built-in>", 1, str), NULL);
+  tok->at_bol = false;
   Macro *m = read_macro_name(&tok, tok);
 
   Token head = {0};
-- 
2.43.0


From 0da0674577ff15451f6f2a8da64fdf9521830ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 056/117] fix: unbounded memory use by a file that includes
 itself

---
 preprocess.c | 4 ++++
 slimcc.h     | 1 +
 2 files changed, 5 insertions(+)

diff --git a/preprocess.c b/preprocess.c
index e3b6bca..29ea1e7 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1146,6 +1146,10 @@ static Token *include_file(Token *tok, char *path, Token *filename_tok, int *inc
   if (!end)
     return tok;
 
+  end->file->incl_depth = filename_tok->file->incl_depth + 1;
+  if (end->file->incl_depth > 200)
+    error_tok(filename_tok, "#include nested too deeply");
+
   if (is_hash(start) && equal(start->next, "ifndef") &&
     start->next->next->kind == TK_IDENT && equal(end, "endif"))
     start->next->is_incl_guard = end->is_incl_guard = true;
diff --git a/slimcc.h b/slimcc.h
index 32d9b45..3bda26b 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -158,6 +158,7 @@ struct File {
   char *name;
   int file_no;
   int incl_no;
+  int incl_depth;
   char *contents;
   char **splices; // Locations of removed backslash-newlines
 
-- 
2.43.0


From b3491f4c38dfe762f45ba61af1718d9694e4230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 057/117] fix: -fdata-sections broke variables with a section
 attribute

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 9e7c173..0cc253c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4151,7 +4151,7 @@ static void emit_data(Obj *var) {
   else
     Printfts(".section .%s", var->init_data ? "data" : "bss");
 
-  if (opt_data_sections)
+  if (opt_data_sections && !var->section_name)
     Printf(".\"%s\"", asm_name(var));
 
   if (var->is_tls)
-- 
2.43.0


From a3d54248a8460f00eb8e6e325df81ee36b797c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:43 +0000
Subject: [PATCH 058/117] fix: inline functions redeclared as external were not
 emitted as external

---
 codegen.c |  8 ++++----
 parse.c   | 12 ++++++++++--
 slimcc.h  |  1 +
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/codegen.c b/codegen.c
index 0cc253c..19f4d1c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -214,7 +214,7 @@ static bool in_imm_range (int64_t val) {
 }
 
 static bool use_rip(Obj *var) {
-  return !(opt_fpic || opt_fpie) || var->is_static ||
+  return !(opt_fpic || opt_fpie) || (var->is_static && !var->is_inline_def) ||
     (opt_fpie && (var->ty->kind != TY_FUNC || var->is_definition));
 }
 
@@ -4246,8 +4246,6 @@ void emit_text(Obj *fn) {
   for (Obj *var = fn->static_lvars; var; var = var->next)
     emit_data(var);
 
-  emit_symbol(fn);
-
   if (opt_func_sections)
     Printftn(".section .text.\"%s\",\"ax\",@progbits", asm_name(fn));
   else
@@ -4467,8 +4465,10 @@ int codegen(Obj *prog, FILE *out) {
       continue;
     }
     if (var->ty->kind == TY_FUNC) {
-      if (var->is_live)
+      if (var->is_live) {
+        emit_symbol(var);
         fwrite(((FuncObj *)var->output)->buf, 1, ((FuncObj *)var->output)->buflen, out);
+      }
       continue;
     }
     emit_data(var);
diff --git a/parse.c b/parse.c
index dfbb723..9f90ac3 100644
--- a/parse.c
+++ b/parse.c
@@ -4632,13 +4632,14 @@ static void mark_fn_live(Obj *var) {
 
 static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name) {
   char *name_str = get_ident(name);
+  bool is_inline_def = attr->is_inline && !attr->is_extern && !attr->is_static;
 
   Obj *fn = find_func(name_str);
   if (!fn) {
     fn = new_gvar(name_str, ty);
 
-    if (attr->is_static || (attr->is_inline && !attr->is_extern))
-      fn->is_static = true;
+    fn->is_static = attr->is_static || is_inline_def;
+    fn->is_inline_def = is_inline_def;
 
     if (strstr(name_str, "setjmp") || strstr(name_str, "savectx") ||
       strstr(name_str, "vfork") || strstr(name_str, "getcontext"))
@@ -4649,6 +4650,13 @@ static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name) {
 
     if (!fn->is_static && attr->is_static)
       error_tok(name, "static declaration follows a non-static declaration");
+
+    // A file scope declaration without `inline` or with `extern` turns
+    // an inline definition into an external one.
+    if (fn->is_inline_def && !is_inline_def && !scope->parent) {
+      fn->is_inline_def = false;
+      fn->is_static = attr->is_static;
+    }
   }
   fn->is_inline |= attr->is_inline;
   return fn;
diff --git a/slimcc.h b/slimcc.h
index 3bda26b..0c65f8b 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -283,6 +283,7 @@ struct Obj {
 
   // Function
   bool is_inline;
+  bool is_inline_def; // Not emitted as external unless redeclared
   bool only_inline;
   bool returns_twice;
   bool dont_reuse_stk;
-- 
2.43.0


From 23cad548e5b63b4d39b28f6de038eab46151a75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 059/117] fix: position independent executables could not refer
 to undefined weak objects

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 19f4d1c..4cd5407 100644
--- a/codegen.c
+++ b/codegen.c
@@ -215,7 +215,7 @@ static bool in_imm_range (int64_t val) {
 
 static bool use_rip(Obj *var) {
   return !(opt_fpic || opt_fpie) || (var->is_static && !var->is_inline_def) ||
-    (opt_fpie && (var->ty->kind != TY_FUNC || var->is_definition));
+    (opt_fpie && ((var->ty->kind != TY_FUNC && !var->is_weak) || var->is_definition));
 }
 
 static Node *skip_gp_cast(Node *node) {
-- 
2.43.0


From 4f83c1f825fb9db35feaef71192bdb069e1d42ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 060/117] fix: -fvisibility= was applied to undefined weak
 symbols

---
 codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 4cd5407..1fdba0f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4088,7 +4088,9 @@ static void emit_symbol(Obj *var) {
   if (var->alias_name)
     Printftn(".set \"%s\", \"%s\"", var->name, var->alias_name);
 
-  char *vis_mode = var->visibility ? var->visibility : opt_visibility;
+  char *vis_mode = var->visibility;
+  if (!vis_mode && (var->is_definition || var->alias_name))
+    vis_mode = opt_visibility;
   if (vis_mode && (!strcmp(vis_mode, "hidden") ||
     !strcmp(vis_mode, "internal") || !strcmp(vis_mode, "protected")))
     Printftn(".%s \"%s\"", vis_mode, asm_name(var));
-- 
2.43.0


From 3cde20eb28b020eadbdf02b5fb68ab886d3d3263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 061/117] fix: section attribute of functions was ignored

---
 codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 1fdba0f..ae2d3bd 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4248,7 +4248,9 @@ void emit_text(Obj *fn) {
   for (Obj *var = fn->static_lvars; var; var = var->next)
     emit_data(var);
 
-  if (opt_func_sections)
+  if (fn->section_name)
+    Printftn(".section \"%s\",\"ax\",@progbits", fn->section_name);
+  else if (opt_func_sections)
     Printftn(".section .text.\"%s\",\"ax\",@progbits", asm_name(fn));
   else
     Printstn(".text");
-- 
2.43.0


From c03cf5ee855bcd0d0c08ee24e46eeca6c73a1d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 062/117] fix: attributes after an asm label are lost

---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index 9f90ac3..fa7ee34 100644
--- a/parse.c
+++ b/parse.c
@@ -4732,6 +4732,8 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
       if (equal_kw(tok, "asm") || equal(tok, "__asm") || equal(tok, "__asm__")) {
         fn->asm_name = str_tok(&tok, skip(tok->next, "("))->str;
         tok = skip(tok, ")");
+        func_attr(fn, attr, name, tok);
+        symbol_attr(fn, attr, name, tok);
       }
       continue;
     }
-- 
2.43.0


From 95f6c01c6ddb911b73383a1b0b20e20104b07e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 063/117] fix: an alias with an asm label is defined under its
 C name

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index ae2d3bd..3cea3b0 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4086,7 +4086,7 @@ static void emit_symbol(Obj *var) {
     Printftn(".globl \"%s\"", asm_name(var));
 
   if (var->alias_name)
-    Printftn(".set \"%s\", \"%s\"", var->name, var->alias_name);
+    Printftn(".set \"%s\", \"%s\"", asm_name(var), var->alias_name);
 
   char *vis_mode = var->visibility;
   if (!vis_mode && (var->is_definition || var->alias_name))
-- 
2.43.0


From bf7e1241df165d9f1b246010f28e850e7efa5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 064/117] fix: a directory is taken for a header of that name

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index e8684ff..d06b9e9 100644
--- a/main.c
+++ b/main.c
@@ -886,7 +886,7 @@ char *find_dir_w_file(char *pattern) {
 // Returns true if a given file exists.
 bool file_exists(char *path) {
   struct stat st;
-  return !stat(path, &st);
+  return !stat(path, &st) && !S_ISDIR(st.st_mode);
 }
 
 char *source_dir(void) {
-- 
2.43.0


From 284ca4e7fdd882925f01a26dd582bf92228b4474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 065/117] fix: #include_next starts over after a header was
 found in the search cache

---
 preprocess.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 29ea1e7..93c1b85 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1032,17 +1032,27 @@ static char *search_include_paths3(char *filename, int *incl_no) {
   if (filename[0] == '/')
     return filename;
 
+  typedef struct {
+    char *path;
+    int incl_no;
+  } CachedPath;
+
   static HashMap cache;
-  char *cached = hashmap_get(&cache, filename);
-  if (cached)
-    return cached;
+  CachedPath *cached = hashmap_get(&cache, filename);
+  if (cached) {
+    if (incl_no)
+      *incl_no = cached->incl_no;
+    return cached->path;
+  }
 
   // Search a file from the include paths.
   for (int i = 0; i < include_paths.len; i++) {
     char *path = format("%s/%s", include_paths.data[i], filename);
     if (!file_exists(path))
       continue;
-    hashmap_put(&cache, filename, path);
+    cached = malloc(sizeof(CachedPath));
+    *cached = (CachedPath){path, i};
+    hashmap_put(&cache, filename, cached);
     if (incl_no)
       *incl_no = i;
     return path;
-- 
2.43.0


From bb200fc11c91cf014eb0264e8117c55a369c4539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 066/117] fix: _Pragma("once") has no effect with -E

---
 preprocess.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 93c1b85..0e555ce 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1669,11 +1669,12 @@ static Token *pragma_macro(Token *start) {
 
   Token *end;
   Token *hash = tokenize(new_file(start->file->name, start->file->file_no, buf), &end);
-  if (!opt_E) {
-    if (equal(hash->next->next, "once"))
-      hashmap_put(&pragma_once, start->file->name, (void *)1);
+  if (equal(hash->next->next, "once")) {
+    hashmap_put(&pragma_once, start->file->name, (void *)1);
     return tok;
   }
+  if (!opt_E)
+    return tok;
 
   for (Token *t = hash; t; t = t == end ? NULL : t->next) {
     t->origin = start->origin ? start->origin : start;
-- 
2.43.0


From 84273201399b81c61ef5364aa5bb4341660b4af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 067/117] fix: #pragma once is ignored when the file is reached
 through another spelling of its path

---
 preprocess.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 0e555ce..8fe692e 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1028,6 +1028,22 @@ static bool expand_macro(Token **rest, Token *tok, bool is_root) {
   return true;
 }
 
+// A file can be reached through different spellings of its path.
+static char *file_id(char *path) {
+  struct stat st;
+  if (stat(path, &st))
+    return path;
+  return format("%"PRIu64":%"PRIu64, (uint64_t)st.st_dev, (uint64_t)st.st_ino);
+}
+
+static void set_pragma_once(File *file) {
+  hashmap_put(&pragma_once, file_id(file->name), (void *)1);
+}
+
+static bool is_pragma_once(char *path) {
+  return pragma_once.used && hashmap_get(&pragma_once, file_id(path));
+}
+
 static char *search_include_paths3(char *filename, int *incl_no) {
   if (filename[0] == '/')
     return filename;
@@ -1142,7 +1158,7 @@ static Token *include_file(Token *tok, char *path, Token *filename_tok, int *inc
     error_tok(filename_tok, "file not found");
 
   // Check for "#pragma once"
-  if (hashmap_get(&pragma_once, path))
+  if (is_pragma_once(path))
     return tok;
 
   char *guard_name = hashmap_get(&include_guards, path);
@@ -1475,7 +1491,7 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "pragma") && equal(tok->next, "once")) {
-    hashmap_put(&pragma_once, tok->file->name, (void *)1);
+    set_pragma_once(tok->file);
     tok = skip_line(tok->next->next);
     return tok;
   }
@@ -1670,7 +1686,7 @@ static Token *pragma_macro(Token *start) {
   Token *end;
   Token *hash = tokenize(new_file(start->file->name, start->file->file_no, buf), &end);
   if (equal(hash->next->next, "once")) {
-    hashmap_put(&pragma_once, start->file->name, (void *)1);
+    set_pragma_once(start->file);
     return tok;
   }
   if (!opt_E)
-- 
2.43.0


From 2a5466a16999841d9f50513f2fcf9a67348b83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 068/117] fix: -MM drops a user header that a system header
 includes again

---
 preprocess.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 8fe692e..c73a096 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1172,6 +1172,7 @@ static Token *include_file(Token *tok, char *path, Token *filename_tok, int *inc
   if (!end)
     return tok;
 
+  bool is_first = !end->file->incl_depth;
   end->file->incl_depth = filename_tok->file->incl_depth + 1;
   if (end->file->incl_depth > 200)
     error_tok(filename_tok, "#include nested too deeply");
@@ -1180,8 +1181,9 @@ static Token *include_file(Token *tok, char *path, Token *filename_tok, int *inc
     start->next->next->kind == TK_IDENT && equal(end, "endif"))
     start->next->is_incl_guard = end->is_incl_guard = true;
 
-  if (tok->file->is_syshdr || in_sysincl_path(end->file->name))
-    end->file->is_syshdr = true;
+  if (is_first)
+    end->file->is_syshdr = filename_tok->file->is_syshdr ||
+      in_sysincl_path(end->file->name);
 
   end->next = tok;
   return start;
-- 
2.43.0


From 5b1d39c5f0953f752d7e43d1ac3db28546aee23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 069/117] fix: prerequisites are written to the dependency rule
 without quoting

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index d06b9e9..9af8431 100644
--- a/main.c
+++ b/main.c
@@ -753,7 +753,7 @@ static void print_dependencies(char *input) {
     char *name = files[i]->name;
     if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input)
       continue;
-    fprintf(out, " \\\n  %s", name);
+    fprintf(out, " \\\n  %s", quote_makefile(name));
   }
 
   fprintf(out, "\n\n");
-- 
2.43.0


From 9897169c847c17c77e34c348c42ce5f385350567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 070/117] fix: -MP adds a phony target for the main file

---
 main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main.c b/main.c
index 9af8431..a17ce97 100644
--- a/main.c
+++ b/main.c
@@ -763,6 +763,8 @@ static void print_dependencies(char *input) {
       char *name = files[i]->name;
       if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input)
         continue;
+      if (!strcmp(name, input))
+        continue;
       fprintf(out, "%s:\n\n", quote_makefile(name));
     }
   }
-- 
2.43.0


From 8c8d4c4a116ef30459ea1f4a403ddcdbc13378da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 071/117] fix: -MD ignores the object file named by -o

---
 main.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index a17ce97..74329aa 100644
--- a/main.c
+++ b/main.c
@@ -734,8 +734,10 @@ static void print_dependencies(char *input) {
   char *path;
   if (opt_MF)
     path = opt_MF;
+  else if (opt_MD && opt_o)
+    path = format("%s/%s", dirname(strdup(opt_o)), replace_extn(opt_o, ".d"));
   else if (opt_MD)
-    path = replace_extn(opt_o ? opt_o : input, ".d");
+    path = replace_extn(input, ".d");
   else if (opt_o)
     path = opt_o;
   else
@@ -744,6 +746,8 @@ static void print_dependencies(char *input) {
   FILE *out = open_file(path);
   if (opt_MT)
     fprintf(out, "%s:", opt_MT);
+  else if (opt_MD && opt_o && !opt_E)
+    fprintf(out, "%s:", quote_makefile(opt_o));
   else
     fprintf(out, "%s:", quote_makefile(replace_extn(input, ".o")));
 
@@ -759,7 +763,7 @@ static void print_dependencies(char *input) {
   fprintf(out, "\n\n");
 
   if (opt_MP) {
-    for (int i = 1; files[i]; i++) {
+    for (int i = 0; files[i]; i++) {
       char *name = files[i]->name;
       if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input)
         continue;
-- 
2.43.0


From 717138fbe5bb8695730bf1bfe3d5c357698e4cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 072/117] fix: undefined behaviour when folding integer
 arithmetic

---
 codegen.c | 10 +++++-----
 parse.c   | 23 ++++++++++++-----------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/codegen.c b/codegen.c
index 3cea3b0..71b1c55 100644
--- a/codegen.c
+++ b/codegen.c
@@ -696,7 +696,7 @@ static void gen_bitfield_store(Node *node, bool is_void) {
     ax = "%eax", cx = "%ecx", dx = "%edx";
 
   Printftn("mov %s, %s", ax, cx);
-  imm_and(cx, dx, (1LL << mem->bit_width) - 1);
+  imm_and(cx, dx, (1ULL << mem->bit_width) - 1);
 
   char *ptr = pop_inreg(tmpreg64[0]);
   load2(mem->ty, 0, ptr);
@@ -2285,7 +2285,7 @@ static void gen_stmt(Node *node) {
       }
       Printftn("mov %s, %s", ax, cx);
       imm_sub(cx, dx, cr->lo);
-      imm_cmp(cx, dx, cr->hi - cr->lo);
+      imm_cmp(cx, dx, (uint64_t)cr->hi - cr->lo);
       Printftn("jbe %s", stmt_label(cr->label));
     }
 
@@ -2637,7 +2637,7 @@ static void imm_arith(NodeKind kind, int sz, int64_t val) {
 
   if (kind == ND_MUL && is_pow_of_two(val)) {
     for (int i = 1; i < sz * 8; i++) {
-      if (1LL << i == val) {
+      if (1ULL << i == (uint64_t)val) {
         Printftn("shl $%d, %s", i, ax);
         return;
       }
@@ -2684,7 +2684,7 @@ static bool divmod_opt(NodeKind kind, Type *ty, Node *expr, int64_t val) {
 
   if (kind == ND_DIV && is_pow_of_two(val) && ty->is_unsigned) {
     for (int i = 1; i < ty->size * 8; i++) {
-      if (1LL << i == val) {
+      if (1ULL << i == (uint64_t)val) {
         gen_expr(expr);
         Printftn("shr $%d, %s", i, ax);
         return true;
@@ -2695,7 +2695,7 @@ static bool divmod_opt(NodeKind kind, Type *ty, Node *expr, int64_t val) {
   if (kind == ND_MOD && is_pow_of_two(val) && ty->is_unsigned && val != 0) {
     gen_expr(expr);
 
-    uint64_t msk = val - 1;
+    uint64_t msk = (uint64_t)val - 1;
     if (msk == UINT32_MAX) {
       Printstn("movl %%eax, %%eax");
       return true;
diff --git a/parse.c b/parse.c
index fa7ee34..c9b1188 100644
--- a/parse.c
+++ b/parse.c
@@ -1385,7 +1385,8 @@ static Type *enum_specifier(Token **rest, Token *tok) {
 
     VarScope *sc = push_scope(name);
     sc->enum_ty = ty;
-    sc->enum_val = val++;
+    sc->enum_val = val;
+    val = (uint64_t)val + 1;
   }
 
   if (first)
@@ -2910,11 +2911,11 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
 
   switch (node->kind) {
   case ND_ADD:
-    return eval_sign_extend(ty, eval2(lhs, ctx) + eval2(rhs, ctx));
+    return eval_sign_extend(ty, (uint64_t)eval2(lhs, ctx) + eval2(rhs, ctx));
   case ND_SUB:
-    return eval_sign_extend(ty, eval2(lhs, ctx) - eval(rhs));
+    return eval_sign_extend(ty, (uint64_t)eval2(lhs, ctx) - eval(rhs));
   case ND_MUL:
-    return eval_sign_extend(ty, eval(lhs) * eval(rhs));
+    return eval_sign_extend(ty, (uint64_t)eval(lhs) * eval(rhs));
   case ND_DIV: {
     int64_t lval = eval(lhs);
     int64_t rval = eval(rhs);
@@ -2940,7 +2941,7 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
   case ND_POS:
     return eval(lhs);
   case ND_NEG:
-    return eval_sign_extend(ty, -eval(lhs));
+    return eval_sign_extend(ty, -(uint64_t)eval(lhs));
   case ND_BITAND:
     return eval(lhs) & eval(rhs);
   case ND_BITOR:
@@ -2948,15 +2949,15 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
   case ND_BITXOR:
     return eval(lhs) ^ eval(rhs);
   case ND_SHL:
-    return eval_sign_extend(ty, eval(lhs) << eval(rhs));
+    return eval_sign_extend(ty, (uint64_t)eval(lhs) << (eval(rhs) & 63));
   case ND_SHR:
     if (ty->size == 4 && !eval_intmax)
-      return (uint32_t)eval(lhs) >> eval(rhs);
-    return (uint64_t)eval(lhs) >> eval(rhs);
+      return (uint32_t)eval(lhs) >> (eval(rhs) & 31);
+    return (uint64_t)eval(lhs) >> (eval(rhs) & 63);
   case ND_SAR:
     if (ty->size == 4 && !eval_intmax)
-      return (int32_t)eval(lhs) >> eval(rhs);
-    return eval(lhs) >> eval(rhs);
+      return (int32_t)eval(lhs) >> (eval(rhs) & 31);
+    return eval(lhs) >> (eval(rhs) & 63);
   case ND_EQ:
     if (is_flonum(lhs->ty))
       return eval_double(lhs) == eval_double(rhs);
@@ -3121,7 +3122,7 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
       int64_t val = eval_sign_extend(ty, read_buf(data, ty->size));
       if (is_bitfield(node)) {
         int unused_msb = 64 - node->member->bit_width;
-        val <<= (unused_msb - node->member->bit_offset);
+        val = (uint64_t)val << (unused_msb - node->member->bit_offset);
 
         if (ty->is_unsigned)
           return (uint64_t)val >> unused_msb;
-- 
2.43.0


From 6772f516a795ffe39c98146890634eaf05020a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 073/117] fix: driver takes the status of an inherited child
 for its own step's

---
 main.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/main.c b/main.c
index 74329aa..0130a77 100644
--- a/main.c
+++ b/main.c
@@ -603,7 +603,8 @@ void run_subprocess(char **argv) {
     return;
   }
 
-  if (fork() == 0) {
+  pid_t pid = fork();
+  if (pid == 0) {
     // Child process. Run a new command.
     execvp(argv[0], argv);
     fprintf(stderr, "exec failed: %s: %s\n", argv[0], strerror(errno));
@@ -612,7 +613,7 @@ void run_subprocess(char **argv) {
 
   // Wait for the child process to finish.
   int status;
-  if (wait(&status) <= 0 || status != 0)
+  if (waitpid(pid, &status, 0) != pid || status != 0)
     exit(1);
 }
 
@@ -625,14 +626,15 @@ static void run_cc1(char *input, char *output, bool no_fork, bool is_asm_pp) {
     return;
   }
 
-  if (fork() == 0) {
+  pid_t pid = fork();
+  if (pid == 0) {
     cc1(input, output, is_asm_pp);
     _exit(0);
   }
 
   // Wait for the child process to finish.
   int status;
-  if (wait(&status) <= 0 || status != 0)
+  if (waitpid(pid, &status, 0) != pid || status != 0)
     exit(1);
 }
 
-- 
2.43.0


From d214f99b706a3e5d1a93f0f440c6bc300ae5f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 074/117] fix: objects and libraries are linked although -c,
 -S, -E or -M is given

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 0130a77..40a500f 100644
--- a/main.c
+++ b/main.c
@@ -1201,7 +1201,7 @@ int main(int argc, char **argv) {
     continue;
   }
 
-  if (ld_args.len) {
+  if (ld_args.len && !(opt_c || opt_S || opt_E || opt_M)) {
     for (int i = 0; i < ld_extra_args.len; i++)
       strarray_push(&ld_args, ld_extra_args.data[i]);
 
-- 
2.43.0


From ce255c29fa2d3d18c6667bd0f346384597d78e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 075/117] fix: read errors of source files are taken for the
 end of the file

---
 preprocess.c | 2 ++
 tokenize.c   | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/preprocess.c b/preprocess.c
index c73a096..a37b581 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1251,6 +1251,8 @@ static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
     cur = cur->next = new_num_token(buf, start);
     cur->at_bol = false;
   }
+  if (ferror(fp))
+    error_tok(start, "%s: cannot read file: %s", path, strerror(errno));
   fclose(fp);
   if (cur == &head) {
     if (if_empty_seq)
diff --git a/tokenize.c b/tokenize.c
index ace0f35..c427e1b 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -853,9 +853,18 @@ static char *read_file(char *path) {
     fwrite(buf2, 1, n, out);
   }
 
+  int read_errno = ferror(fp) ? errno : 0;
+
   if (fp != stdin)
     fclose(fp);
 
+  if (read_errno) {
+    fclose(out);
+    free(buf);
+    errno = read_errno;
+    return NULL;
+  }
+
   // Make sure that the last line is properly terminated with '\n'.
   fflush(out);
   if (buflen == 0 || buf[buflen - 1] != '\n')
-- 
2.43.0


From 00d66f30ac079f7552b01543a0b00a74b4de3610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 076/117] fix: write errors of output files are ignored

---
 main.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/main.c b/main.c
index 40a500f..a040a58 100644
--- a/main.c
+++ b/main.c
@@ -562,6 +562,14 @@ static FILE *open_file(char *path) {
   return out;
 }
 
+static void close_file(FILE *out, char *path) {
+  bool failed = ferror(out);
+  if (out == stdout ? fflush(out) : fclose(out))
+    failed = true;
+  if (failed)
+    error("cannot write output file: %s: %s", path ? path : "-", strerror(errno));
+}
+
 static bool endswith(char *p, char *q) {
   int len1 = strlen(p);
   int len2 = strlen(q);
@@ -713,10 +721,7 @@ static void print_tokens(Token *tok, char *path) {
   }
   fprintf(out, "\n");
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 bool in_sysincl_path(char *path) {
@@ -774,10 +779,7 @@ static void print_dependencies(char *input) {
       fprintf(out, "%s:\n\n", quote_makefile(name));
     }
   }
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 static Token *must_tokenize_file(char *path, Token **end) {
@@ -847,10 +849,7 @@ static void cc1(char *input_file, char *output_file, bool is_asm_pp) {
   FILE *out = open_file(output_file);
   codegen(prog, out);
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, output_file);
 }
 
 void run_assembler_gnustyle( StringArray *args, char *input, char *output) {
-- 
2.43.0


From 34f553ef1a9d42bfc0c7812e7ff797a071124452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 077/117] fix: an output that is also an input destroys the
 input

---
 main.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/main.c b/main.c
index a040a58..4d1f593 100644
--- a/main.c
+++ b/main.c
@@ -1090,6 +1090,13 @@ static FileType get_file_type(char *filename) {
   error("<command line>: unknown file extension: %s", filename);
 }
 
+static void check_overwrite(char *input, char *output) {
+  struct stat in, out;
+  if (!stat(input, &in) && !stat(output, &out) && S_ISREG(in.st_mode) &&
+    in.st_dev == out.st_dev && in.st_ino == out.st_ino)
+    error("input file %s is the same as output file", input);
+}
+
 int main(int argc, char **argv) {
   argv0 = argv[0];
   atexit(cleanup);
@@ -1127,6 +1134,10 @@ int main(int argc, char **argv) {
     else
       type = get_file_type(input);
 
+    if (opt_o || (type == FILE_C && opt_S) ||
+      (type != FILE_OBJ && type != FILE_AR && type != FILE_DSO && opt_c && !opt_S))
+      check_overwrite(input, output);
+
     // Handle .o or .a
     if (type == FILE_OBJ || type == FILE_AR || type == FILE_DSO) {
       strarray_push(&ld_args, input);
-- 
2.43.0


From f95a1ecbe0f54450a9e03ffd958bdae79353c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 078/117] fix: -l, -Wl, -Xlinker and -s lose their position
 among the input files

---
 main.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/main.c b/main.c
index 4d1f593..554d3c3 100644
--- a/main.c
+++ b/main.c
@@ -59,7 +59,6 @@ static char *opt_MT;
 static char *opt_o;
 
 static StringArray ld_paths;
-static StringArray ld_extra_args;
 static StringArray sysincl_paths;
 static StringArray input_paths;
 static StringArray tmpfiles;
@@ -99,11 +98,18 @@ static bool take_arg_s(char **argv, int *i, char **p, char *str) {
   return take_arg(argv, i, p, str) || startswith(argv[*i], p, str);
 }
 
-static bool comma_arg(char *arg, StringArray *arr, char *str) {
+// Linker arguments keep their position among the input files.
+static void add_ld_arg(StringArray *arr, char *arg) {
+  strarray_push(arr, "-Xlinker");
+  strarray_push(arr, arg);
+}
+
+static bool comma_arg(char *arg, StringArray *arr, char *str,
+  void (*push)(StringArray *, char *)) {
   if (startswith(arg, &arg, str)) {
     arg = strtok(strdup(arg), ",");
     while (arg) {
-      strarray_push(arr, arg);
+      push(arr, arg);
       arg = strtok(NULL, ",");
     }
     return true;
@@ -300,23 +306,23 @@ static int parse_args(int argc, char **argv) {
       continue;
     }
 
-    if (comma_arg(argv[i], &as_args, "-Wa,") ||
-      comma_arg(argv[i], &ld_extra_args, "-Wl,"))
+    if (comma_arg(argv[i], &as_args, "-Wa,", strarray_push) ||
+      comma_arg(argv[i], &input_paths, "-Wl,", add_ld_arg))
       continue;
 
     if (take_arg_s(argv, &i, &arg, "-l")) {
-      strarray_push(&ld_extra_args, "-l");
-      strarray_push(&ld_extra_args, arg);
+      add_ld_arg(&input_paths, "-l");
+      add_ld_arg(&input_paths, arg);
       continue;
     }
 
     if (take_arg(argv, &i, &arg, "-Xlinker")) {
-      strarray_push(&ld_extra_args, arg);
+      add_ld_arg(&input_paths, arg);
       continue;
     }
 
     if (!strcmp(argv[i], "-s")) {
-      strarray_push(&ld_extra_args, "-s");
+      add_ld_arg(&input_paths, "-s");
       continue;
     }
 
@@ -1118,6 +1124,10 @@ int main(int argc, char **argv) {
       opt_x = parse_opt_x(input_paths.data[++i]);
       continue;
     }
+    if (!strcmp(input_paths.data[i], "-Xlinker")) {
+      strarray_push(&ld_args, input_paths.data[++i]);
+      continue;
+    }
     char *input = input_paths.data[i];
 
     char *output;
@@ -1211,11 +1221,7 @@ int main(int argc, char **argv) {
     continue;
   }
 
-  if (ld_args.len && !(opt_c || opt_S || opt_E || opt_M)) {
-    for (int i = 0; i < ld_extra_args.len; i++)
-      strarray_push(&ld_args, ld_extra_args.data[i]);
-
+  if (!(opt_c || opt_S || opt_E || opt_M))
     run_linker(&ld_paths, &ld_args, opt_o ? opt_o : "a.out");
-  }
   return 0;
 }
-- 
2.43.0


From ce3741292cfc351a009dc3f9eccd93293171b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 079/117] fix: crash on --std without an argument

---
 main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 554d3c3..66b8f00 100644
--- a/main.c
+++ b/main.c
@@ -410,8 +410,8 @@ static int parse_args(int argc, char **argv) {
       startswith(argv[i], &arg, "--std=c")) {
       set_std(strtoul(arg, NULL, 10));
       continue;
-    } else if (!strcmp(argv[i], "--std")) {
-      if (startswith(argv[++i], &arg, "c")) {
+    } else if (take_arg(argv, &i, &arg, "--std")) {
+      if (startswith(arg, &arg, "c")) {
         set_std(strtoul(arg, NULL, 10));
         continue;
       }
-- 
2.43.0


From 1f8b04ca7a37ad0facf495dfdd9e06c92f31e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 080/117] fix: -D with a value starting with = or += is misread

---
 preprocess.c | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index a37b581..8274efb 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1544,28 +1544,16 @@ static Token *directives(Token **cur, Token *start) {
 }
 
 void define_macro_cli(char *str) {
+  char *eq = strchr(str, '=');
+  if (eq)
+    str = format("%.*s %s", (int)(eq - str), str, eq + 1);
+  else
+    str = format("%s 1", str);
+
   Token *tok = tokenize(new_file("<built-in>", 1, str), NULL);
   tok->at_bol = false;
   Macro *m = read_macro_name(&tok, tok);
-
-  Token head = {0};
-  Token *cur = &head;
-  bool has_eq = false;
-  for (; tok->kind != TK_EOF;) {
-    if (!has_eq && consume(&tok, tok, "=")) {
-      tok->has_space = true;
-      has_eq = true;
-      continue;
-    }
-    cur = cur->next = tok;
-    tok = tok->next;
-  }
-  if (!has_eq) {
-    cur = cur->next = make_token("1", tok);
-    cur->has_space = true;
-  }
-  cur->next = tok;
-  m->body = head.next;
+  m->body = tok;
 }
 
 void define_macro(char *name, char *buf) {
-- 
2.43.0


From ba3a0025d528d195886938c0c9ed800ce1df61bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 081/117] fix: character constants ignore -funsigned-char

---
 tokenize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index c427e1b..b52c30b 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -774,7 +774,7 @@ Token *tokenize(File *file, Token **end) {
     // Character literal
     if (is_quoted(p, '\'')) {
       cur = cur->next = read_char_literal(p, p, ty_int);
-      cur->ival = (char)cur->ival;
+      cur->ival = ty_pchar->is_unsigned ? (uint8_t)cur->ival : (int8_t)cur->ival;
       p += cur->len;
       continue;
     }
-- 
2.43.0


From 130e75389d15adacd4801a3d5be1249d7b8168fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 082/117] fix: __STDC_VERSION__ claims C17 with -std=c89 and
 -ansi

---
 main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.c b/main.c
index 66b8f00..5dd1e42 100644
--- a/main.c
+++ b/main.c
@@ -534,6 +534,9 @@ static int parse_args(int argc, char **argv) {
     input_cnt++;
   }
 
+  if (opt_std == STD_C89)
+    undef_macro("__STDC_VERSION__");
+
   if (!opt_nostdinc)
     platform_stdinc_paths(&sysincl_paths);
 
-- 
2.43.0


From f8080fc47abd56416b4f40d95374843821b7fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 083/117] fix: tags and enumerators declared in a function
 argument are forgotten after the call

---
 parse.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index c9b1188..46616a2 100644
--- a/parse.c
+++ b/parse.c
@@ -406,9 +406,17 @@ static void apply_cv_qualifier(Node *node, Type *ty2) {
   node->ty = cv_qualify(node->ty, ty2->is_const, ty2->is_volatile);
 }
 
+// Scopes of temporaries aren't scopes in the sense of the language.
+static Scope *decl_scope(void) {
+  Scope *sc = scope;
+  while (sc->is_temporary)
+    sc = sc->parent;
+  return sc;
+}
+
 static VarScope *push_scope(char *name) {
   VarScope *sc = ast_arena_calloc(sizeof(VarScope));
-  hashmap_put(&scope->vars, name, sc);
+  hashmap_put(&decl_scope()->vars, name, sc);
   return sc;
 }
 
@@ -549,7 +557,7 @@ static Token *str_tok(Token **rest, Token *tok) {
 }
 
 static void push_tag_scope(Token *tok, Type *ty) {
-  hashmap_put2(&scope->tags, tok->loc, tok->len, ty);
+  hashmap_put2(&decl_scope()->tags, tok->loc, tok->len, ty);
 }
 
 static void chain_expr(Node **lhs, Node *rhs) {
@@ -1330,7 +1338,7 @@ static Type *enum_specifier(Token **rest, Token *tok) {
   tok = skip(tok, "{");
 
   if (tag) {
-    Type *ty2 = hashmap_get2(&scope->tags, tag->loc, tag->len);
+    Type *ty2 = hashmap_get2(&decl_scope()->tags, tag->loc, tag->len);
     if (ty2) {
       if (ty2->kind == TY_STRUCT || ty2->kind == TY_UNION)
         error_tok(tag, "not an enum tag");
@@ -3877,7 +3885,7 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
   if (!tag)
     return ty;
 
-  Type *ty2 = hashmap_get2(&scope->tags, tag->loc, tag->len);
+  Type *ty2 = hashmap_get2(&decl_scope()->tags, tag->loc, tag->len);
   if (ty2) {
     for (Type *t = ty2; t; t = t->decl_next) {
       t->size = ty->size;
-- 
2.43.0


From e41505df061f4d7e69c33c098abcae56e2738ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 084/117] fix: a parenthesized declarator naming an outer
 typedef is read as a parameter list

'int (T);' declares T unless it is the parameter of a function, where the
name may be omitted and a typedef name in parentheses is a parameter list.
---
 parse.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parse.c b/parse.c
index 46616a2..6767b0d 100644
--- a/parse.c
+++ b/parse.c
@@ -141,7 +141,7 @@ static Type *typename(Token **rest, Token *tok);
 static Type *enum_specifier(Token **rest, Token *tok);
 static Type *typeof_specifier(Token **rest, Token *tok);
 static Type *type_suffix(Token **rest, Token *tok, Type *ty);
-static Type *declarator(Token **rest, Token *tok, Type *ty, Token **name_tok);
+static Type *declarator(Token **rest, Token *tok, Type *ty, Token **name_tok, bool is_param);
 static Node *declaration(Token **rest, Token *tok, Type *basety, VarAttr *attr);
 static void list_initializer(Token **rest, Token *tok, Initializer *init, int i);
 static void initializer2(Token **rest, Token *tok, Initializer *init);
@@ -1052,7 +1052,7 @@ static Type *func_params_old_style(Token **rest, Token *tok, Type *fn_ty) {
     Type *basety = declspec(&tok, tok, NULL);
     do {
       Token *name = NULL;
-      Type *ty = declarator(&tok, tok, basety, &name);
+      Type *ty = declarator(&tok, tok, basety, &name, false);
       if (!name)
         error_tok(tok, "expected identifier");
 
@@ -1138,7 +1138,7 @@ static Type *func_params(Token **rest, Token *tok, Type *ty) {
 
     Type *ty2 = declspec(&tok, tok, NULL);
     Token *name = NULL;
-    ty2 = declarator(&tok, tok, ty2, &name);
+    ty2 = declarator(&tok, tok, ty2, &name, true);
 
     chain_expr(&expr, compute_vla_size(ty2, tok));
 
@@ -1263,15 +1263,18 @@ Token *skip_paren(Token *tok) {
   return tok->next;
 }
 
-static Type *declarator(Token **rest, Token *tok, Type *ty, Token **name_tok) {
+static Type *declarator(Token **rest, Token *tok, Type *ty, Token **name_tok, bool is_param) {
   ty = pointers(&tok, tok, ty);
 
   if (consume(&tok, tok, "(")) {
-    if (is_typename(tok) || equal(tok, ")"))
+    // A parenthesized typedef name is a parameter list where the name
+    // may be omitted, the name being declared where it may not.
+    bool is_redeclared = name_tok && !is_param && find_typedef(tok);
+    if ((is_typename(tok) && !is_redeclared) || equal(tok, ")"))
       return func_params(rest, tok, ty);
 
     ty = type_suffix(rest, skip_paren(tok), ty);
-    return declarator(&(Token *){NULL}, tok, ty, name_tok);
+    return declarator(&(Token *){NULL}, tok, ty, name_tok, is_param);
   }
 
   if (name_tok && tok->kind == TK_IDENT) {
@@ -1282,7 +1285,7 @@ static Type *declarator(Token **rest, Token *tok, Type *ty, Token **name_tok) {
 }
 
 static Type *declarator2(Token **rest, Token *tok, Type *basety, Token **name, int *align, bool is_member) {
-  Type *ty = declarator(&tok, tok, basety, name);
+  Type *ty = declarator(&tok, tok, basety, name, false);
 
   if (*name) {
     attr_aligned2(*name, align, TK_ATTR, is_member);
@@ -1296,7 +1299,7 @@ static Type *declarator2(Token **rest, Token *tok, Type *basety, Token **name, i
 // type-name = declspec abstract-declarator
 static Type *typename(Token **rest, Token *tok) {
   Type *ty = declspec(&tok, tok, NULL);
-  return declarator(rest, tok, ty, NULL);
+  return declarator(rest, tok, ty, NULL, false);
 }
 
 static void update_enum_ty(Type *decl_ty, Type *ty, bool is_unspec) {
-- 
2.43.0


From 5351263dee621b8833962656a6bc7af6fb4d51f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 085/117] fix: block scope function and extern declarations
 under a hiding local are ignored

'{ extern int v; }' or '{ int f(void); }' inside the scope of a local v or f
kept naming the local.
---
 parse.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/parse.c b/parse.c
index 6767b0d..8cfd357 100644
--- a/parse.c
+++ b/parse.c
@@ -4619,12 +4619,15 @@ static void resolve_goto_labels(void) {
   gotos = labels = NULL;
 }
 
-static Obj *find_func(char *name) {
+static Scope *file_scope(void) {
   Scope *sc = scope;
   while (sc->parent)
     sc = sc->parent;
+  return sc;
+}
 
-  VarScope *sc2 = hashmap_get(&sc->vars, name);
+static Obj *find_func(char *name) {
+  VarScope *sc2 = hashmap_get(&file_scope()->vars, name);
   if (sc2 && sc2->var && sc2->var->ty->kind == TY_FUNC)
     return sc2->var;
   return NULL;
@@ -4642,6 +4645,24 @@ static void mark_fn_live(Obj *var) {
   }
 }
 
+// Find what a declaration with linkage refers to. If a local declaration
+// hides the entity of file scope, make it visible in the current block.
+static VarScope *find_linked(Token *name) {
+  VarScope *sc = find_var(name);
+  if (!sc || !scope->parent)
+    return sc;
+
+  Obj *var = sc->var;
+  if (var && !var->is_local && equal(name, var->name))
+    return sc;
+
+  sc = hashmap_get2(&file_scope()->vars, name->loc, name->len);
+  if (!sc || !sc->var)
+    return NULL;
+  push_scope(get_ident(name))->var = sc->var;
+  return sc;
+}
+
 static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name) {
   char *name_str = get_ident(name);
   bool is_inline_def = attr->is_inline && !attr->is_extern && !attr->is_static;
@@ -4663,6 +4684,8 @@ static Obj *func_prototype(Type *ty, VarAttr *attr, Token *name) {
     if (!fn->is_static && attr->is_static)
       error_tok(name, "static declaration follows a non-static declaration");
 
+    find_linked(name);
+
     // A file scope declaration without `inline` or with `extern` turns
     // an inline definition into an external one.
     if (fn->is_inline_def && !is_inline_def && !scope->parent) {
@@ -4757,7 +4780,7 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
     if (!is_definition && equal(tok, "="))
       is_definition = true;
 
-    VarScope *sc = find_var(name);
+    VarScope *sc = find_linked(name);
     Obj *var;
     if (sc && sc->var) {
       symbol_attr(sc->var, attr, name, tok);
-- 
2.43.0


From 5cfd79ef7f03c2c435c7607075a4226d60274854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 086/117] fix: difference of pointers to variable length arrays
 divides by the wrong size

---
 parse.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 8cfd357..2c15176 100644
--- a/parse.c
+++ b/parse.c
@@ -3641,9 +3641,13 @@ static Node *new_sub(Node *lhs, Node *rhs, Token *tok) {
 
   // ptr - ptr, which returns how many elements are between the two.
   if (lhs->ty->base && rhs->ty->base) {
-    int sz = lhs->ty->base->size;
+    Node *sz;
+    if (lhs->ty->base->kind == TY_VLA)
+      sz = new_cast(new_var_node(lhs->ty->base->vla_size, tok), ty_intptr_t);
+    else
+      sz = new_num(lhs->ty->base->size, tok);
     Node *node = new_binary(ND_SUB, new_cast(lhs, ty_intptr_t), new_cast(rhs, ty_intptr_t), tok);
-    return new_cast(new_binary(ND_DIV, node, new_num(sz, tok), tok), ty_ptrdiff_t);
+    return new_cast(new_binary(ND_DIV, node, sz, tok), ty_ptrdiff_t);
   }
 
   error_tok(tok, "invalid operands");
-- 
2.43.0


From 386246267d230732d9e1cf6eea07c5388e62aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 087/117] fix: compound assignment to a bit-field computes in
 the declared type

A bit-field narrower than int promotes to int, also as the left operand of a
compound assignment: with 'unsigned f : 5', 'f /= -2' divided as unsigned.
---
 codegen.c | 10 +++++-----
 type.c    |  2 ++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index 71b1c55..8aad66a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -987,11 +987,11 @@ static void gen_var_assign(Obj *var, Node *expr) {
   gen_void_assign(&node);
 }
 
-static void gen_expr_null_lhs(NodeKind kind, Type *ty, Node *rhs) {
-  Node null = {.kind = ND_NULL_EXPR, .ty = ty, .tok = rhs->tok};
+static void gen_expr_null_lhs(NodeKind kind, Node *lhs, Node *rhs) {
+  Node null = {.kind = ND_NULL_EXPR, .ty = lhs->ty, .lhs = lhs, .tok = rhs->tok};
   Node expr = {.kind = kind, .lhs = &null, .rhs = rhs,.tok = rhs->tok};
   add_type(&expr);
-  gen_expr(new_cast(&expr, ty));
+  gen_expr(new_cast(&expr, lhs->ty));
 }
 
 enum { I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, F80 };
@@ -1809,7 +1809,7 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_addr(node->lhs);
     push();
     load(node->lhs, 0);
-    gen_expr_null_lhs(node->arith_kind, node->lhs->ty, node->rhs);
+    gen_expr_null_lhs(node->arith_kind, node->lhs, node->rhs);
     store(node->lhs, is_void);
     return;
   case ND_POST_INCDEC:
@@ -1820,7 +1820,7 @@ static void gen_expr2(Node *node, bool is_void) {
     if (node->lhs->ty->kind == TY_LDOUBLE)
       load(node->lhs, 0); // Spilling popped it from the x87 stack
     push_from("%rcx");
-    gen_expr_null_lhs(ND_ADD, node->lhs->ty, node->rhs);
+    gen_expr_null_lhs(ND_ADD, node->lhs, node->rhs);
     store(node->lhs, true);
     pop_by_ty(node->lhs->ty);
     return;
diff --git a/type.c b/type.c
index 29228f6..5c3ec13 100644
--- a/type.c
+++ b/type.c
@@ -162,6 +162,8 @@ static bool is_bitfield2(Node *node, int *width) {
   case ND_ARITH_ASSIGN:
   case ND_POST_INCDEC:
     return is_bitfield2(node->lhs, width);
+  case ND_NULL_EXPR:
+    return node->lhs && is_bitfield2(node->lhs, width);
   case ND_CHAIN:
   case ND_COMMA:
     return is_bitfield2(node->rhs, width);
-- 
2.43.0


From a91ebac0c4c0d0ee867949dee2ce7af8f2a4bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 088/117] fix: an enum with fixed underlying type modifies the
 underlying type

'enum E : int { A };' made int itself unsigned, or looped in is_compatible().
---
 parse.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 2c15176..876d2ad 100644
--- a/parse.c
+++ b/parse.c
@@ -1323,7 +1323,7 @@ static Type *enum_specifier(Token **rest, Token *tok) {
 
   Type *ty = NULL;
   if (consume(&tok, tok, ":"))
-    ty = unqual(typename(&tok, tok));
+    ty = new_qualified_type(unqual(typename(&tok, tok)));
 
   if (tag && !equal(tok, "{")) {
     *rest = tok;
@@ -1403,7 +1403,9 @@ static Type *enum_specifier(Token **rest, Token *tok) {
   if (first)
     error_tok(tok, "empty enum specifier");
 
-  if (base_ty->kind == TY_INT && !been_negative && !been_unsigned)
+  if (has_type)
+    ; // The fixed underlying type stays as it is
+  else if (base_ty->kind == TY_INT && !been_negative && !been_unsigned)
     update_enum_ty(ty, ty_uint, true);
   else if (been_negative && been_unsigned)
     update_enum_ty(ty, ty_first_64bit_int, false);
-- 
2.43.0


From 52a3024452a33fb52b4ca6c89c5caeac1ad00ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 089/117] fix: reject casts to structure and union types

---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index 876d2ad..c9e4fc1 100644
--- a/parse.c
+++ b/parse.c
@@ -343,6 +343,8 @@ static bool invalid_cast(Type *from, Type *to) {
   }
   if (from->base && is_flonum(to))
     return true;
+  if (to->kind == TY_STRUCT || to->kind == TY_UNION)
+    return true;
 
   return false;
 }
-- 
2.43.0


From bcdb6ae32702dc0bd8ddf4500ad9a248637c58a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 090/117] fix: register followed by a qualifier in a parameter
 is an internal error

---
 parse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index c9e4fc1..50c10be 100644
--- a/parse.c
+++ b/parse.c
@@ -829,8 +829,9 @@ static Type *declspec(Token **rest, Token *tok, VarAttr *attr) {
       continue;
     }
 
-    if (consume(&tok, tok, "register") && attr) {
-      attr->is_register = true;
+    if (consume(&tok, tok, "register")) {
+      if (attr)
+        attr->is_register = true;
       continue;
     }
     // These keywords are recognized but ignored.
-- 
2.43.0


From 7de90d21a2e1282ff1a81e75316d25e4d7f5bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 091/117] fix: reject string literals initializing arrays of
 another element size

---
 parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.c b/parse.c
index 50c10be..215f743 100644
--- a/parse.c
+++ b/parse.c
@@ -1656,6 +1656,9 @@ static Token *skip_excess_element(Token *tok) {
 
 // string-initializer = string-literal
 static void string_initializer(Token *tok, Initializer *init) {
+  if (init->ty->base->size != tok->ty->base->size)
+    error_tok(tok, "array of inappropriate type initialized from string literal");
+
   if (init->kind == INIT_FLEXIBLE)
     new_initializer(init, array_of(init->ty->base, tok->ty->array_len), false);
 
-- 
2.43.0


From ae9b6a9b4856c5fd188832aa9cfcf19e162f434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 092/117] fix: constexpr pointer initializer is an internal
 error

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 215f743..2409322 100644
--- a/parse.c
+++ b/parse.c
@@ -2208,7 +2208,7 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
       *(long double *)(buf + offset) = eval_double(node);
       return cur;
     }
-    if (is_integer(ty)) {
+    if (is_integer(ty) || ty->kind == TY_PTR) {
       memcpy(buf + offset, &(int64_t){eval(node)}, ty->size);
       return cur;
     }
-- 
2.43.0


From 20a44a0096473813bed6b91f918260c78a9fc6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 093/117] fix: negative or huge array designator indices write
 out of bounds

---
 parse.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parse.c b/parse.c
index 2409322..27349e9 100644
--- a/parse.c
+++ b/parse.c
@@ -1733,14 +1733,16 @@ static bool is_str_tok(Token **rest, Token *tok, Token **str_tok) {
 //
 // The above initializer sets x.c to 5.
 static void array_designator(Token **rest, Token *tok, Type *ty, int *begin, int *end) {
-  *begin = const_expr(&tok, tok->next);
-  if (*begin >= ty->array_len)
+  int64_t idx = const_expr(&tok, tok->next);
+  if (idx < 0 || idx >= ty->array_len)
     error_tok(tok, "array designator index exceeds array bounds");
+  *begin = idx;
 
   if (equal(tok, "...")) {
-    *end = const_expr(&tok, tok->next);
-    if (*end >= ty->array_len)
+    idx = const_expr(&tok, tok->next);
+    if (idx < 0 || idx >= ty->array_len)
       error_tok(tok, "array designator index exceeds array bounds");
+    *end = idx;
     if (*end < *begin)
       error_tok(tok, "array designator range [%d, %d] is empty", *begin, *end);
   } else {
@@ -1810,11 +1812,11 @@ static void designation(Token **rest, Token *tok, Initializer *init) {
 // An array length can be omitted if an array has an initializer
 // (e.g. `int x[] = {1,2,3}`). If it's omitted, count the number
 // of initializer elements.
-static int count_array_init_elements(Token *tok, Type *ty) {
+static int64_t count_array_init_elements(Token *tok, Type *ty) {
   Initializer dummy = {0};
   new_initializer(&dummy, ty->base, true);
 
-  int i = 0, max = 0;
+  int64_t i = 0, max = 0;
   while (comma_list(&tok, &tok, "}", i)) {
     if (equal(tok, "[")) {
       i = const_expr(&tok, tok->next);
@@ -1883,7 +1885,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
   if (init->ty->kind == TY_ARRAY) {
     bool has_brace = consume(&tok, tok, "{");
     if (init->kind == INIT_FLEXIBLE) {
-      int len = count_array_init_elements(tok, init->ty);
+      int64_t len = count_array_init_elements(tok, init->ty);
       new_initializer(init, array_of(init->ty->base, len), false);
     }
 
-- 
2.43.0


From 530af3140ebb8ed19da9ab64c1737501de50579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 094/117] fix: the end-of-file token reads stale memory as
 attributes

---
 preprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocess.c b/preprocess.c
index 8274efb..43c2d68 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -2022,6 +2022,7 @@ static Token *preprocess3(Token *tok) {
     tok = tok->next;
     continue;
   }
+  tok->attr_next = attr_head.attr_next;
   cur->next = tok;
   return head.next;
 }
-- 
2.43.0


From 21698775e6155b228716f3acd666635eef6d8edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 095/117] fix: __has_include and #include of an empty macro
 dereference null

---
 preprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 43c2d68..4c1fd8d 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1106,8 +1106,8 @@ static char *read_filename(Token **rest, Token *tok, bool *is_dquote) {
   bool is_expanded = false;
   if (tok->kind == TK_IDENT) {
     tok = expand_tok(tok);
-    for (Token *t = tok->next; t->kind != TK_EOF; t = t->next)
-      t->has_space = false;
+    for (Token *t = tok; t->kind != TK_EOF && t->next->kind != TK_EOF; t = t->next)
+      t->next->has_space = false;
     is_expanded = true;
   }
 
-- 
2.43.0


From f5ede882c3ceb268bfb0f403079ca304361c29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 096/117] fix: the truth value of a label address dereferences
 null

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 27349e9..5e443da 100644
--- a/parse.c
+++ b/parse.c
@@ -3039,7 +3039,7 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
     if (ty->size != ty_intptr_t->size) {
       EvalContext ctx2= {.kind = EV_LABEL};
       if (eval_ctx(lhs, &ctx2, NULL) && ctx2.label) {
-        if (ty->kind == TY_BOOL && !ctx2.var->is_weak)
+        if (ty->kind == TY_BOOL && !(ctx2.var && ctx2.var->is_weak))
           return true;
         return eval_error(node->tok, "pointer cast to different size");
       }
-- 
2.43.0


From 3906f9b0e6ade7366c8a7dc1bb367b4fa02b0fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 097/117] fix: reject bit-fields of non-integer type or wider
 than their type

---
 parse.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 5e443da..e82db5c 100644
--- a/parse.c
+++ b/parse.c
@@ -3829,9 +3829,14 @@ static void struct_members(Token **rest, Token *tok, Type *ty) {
 
       if (consume(&tok, tok, ":")) {
         mem->is_bitfield = true;
-        mem->bit_width = const_expr(&tok, tok);
-        if (mem->bit_width < 0)
+        int64_t width = const_expr(&tok, tok);
+        if (width < 0)
           error_tok(tok, "bit-field with negative width");
+        if (!is_integer(mem->ty))
+          error_tok(tok, "bit-field of non-integer type");
+        if (width > (mem->ty->kind == TY_BOOL ? 1 : mem->ty->size * 8))
+          error_tok(tok, "bit-field wider than its type");
+        mem->bit_width = width;
         attr_aligned(tok, &mem->alt_align, TK_ATTR);
       }
       cur = cur->next = mem;
-- 
2.43.0


From 8b6980900215438bd65e407236fc1b094932db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 098/117] fix: redeclaring an array with unknown size loses or
 ignores its known size

---
 parse.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parse.c b/parse.c
index e82db5c..4b78e37 100644
--- a/parse.c
+++ b/parse.c
@@ -4804,6 +4804,14 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
     if (sc && sc->var) {
       symbol_attr(sc->var, attr, name, tok);
 
+      // An array type is completed by any declaration with known size.
+      if (ty->kind == TY_ARRAY && sc->var->ty->kind == TY_ARRAY) {
+        if (ty->size < 0)
+          ty = sc->var->ty;
+        else if (sc->var->ty->size < 0)
+          sc->var->ty = ty;
+      }
+
       if (!is_definition)
         continue;
       if (sc->var->is_definition && !sc->var->is_tentative)
-- 
2.43.0


From 51ee14d38dcc0c4c7506b2229f2076741dd3f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:05 +0000
Subject: [PATCH 099/117] fix: diagnostics at __STDC_VERSION__ read outside the
 source buffer

---
 preprocess.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 4c1fd8d..ffac588 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1619,17 +1619,15 @@ static Token *base_file_macro(Token *start) {
   return tok;
 }
 
-static Token *stdver_macro(Token *tok) {
-  tok->kind = TK_PP_NUM;
-  tok->len = 7;
-
+static Token *stdver_macro(Token *start) {
+  char *ver = "201710L\n";
   switch (opt_std) {
-  case STD_C99: tok->loc = "199901L"; break;
-  case STD_C11: tok->loc = "201112L"; break;
-  case STD_C17: tok->loc = "201710L"; break;
-  case STD_C23: tok->loc = "202311L"; break;
-  default: tok->loc = "201710L";
+  case STD_C99: ver = "199901L\n"; break;
+  case STD_C11: ver = "201112L\n"; break;
+  case STD_C23: ver = "202311L\n"; break;
   }
+  Token *tok = make_token(ver, start);
+  tok->next = start->next;
   return tok;
 }
 
-- 
2.43.0


From 21b68b571aaa5c1562f56f7e2b48f7ce7153704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 100/117] fix: initializers of incomplete or non-object types
 are internal errors

---
 parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parse.c b/parse.c
index 4b78e37..f81d749 100644
--- a/parse.c
+++ b/parse.c
@@ -1960,6 +1960,10 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
 }
 
 static Type *initializer(Token **rest, Initializer *init, Token *tok, Type *ty) {
+  Type *elem_ty = ty->kind == TY_ARRAY && ty->array_len < 0 ? ty->base : ty;
+  if (elem_ty->size < 0)
+    error_tok(tok, "initializer for an incomplete type");
+
   new_initializer(init, ty, true);
   initializer2(rest, tok, init);
 
@@ -2214,6 +2218,7 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
       memcpy(buf + offset, &(int64_t){eval(node)}, ty->size);
       return cur;
     }
+    error_tok(node->tok, "invalid initializer");
   }
 
   internal_error();
-- 
2.43.0


From ed39d9f88891efe8b9e491b3a30eeb3b296d37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 101/117] fix: evaluating constants at -O0 takes exponential
 time

---
 parse.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parse.c b/parse.c
index f81d749..ee64371 100644
--- a/parse.c
+++ b/parse.c
@@ -3041,16 +3041,21 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
       !lhs->var->is_weak && (is_array(lhs->ty)))
       return true;
 
-    if (ty->size != ty_intptr_t->size) {
-      EvalContext ctx2= {.kind = EV_LABEL};
-      if (eval_ctx(lhs, &ctx2, NULL) && ctx2.label) {
+    // A narrower integer cannot hold an address.
+    int64_t val;
+    EvalContext ctx2= {.kind = EV_LABEL};
+    if (ty->size != ty_intptr_t->size &&
+      !(is_integer(lhs->ty) && lhs->ty->size < ty_intptr_t->size) &&
+      eval_ctx(lhs, &ctx2, &val)) {
+      if (ctx2.label) {
         if (ty->kind == TY_BOOL && !(ctx2.var && ctx2.var->is_weak))
           return true;
         return eval_error(node->tok, "pointer cast to different size");
       }
+    } else {
+      val = eval2(lhs, ctx);
     }
 
-    int64_t val = eval2(lhs, ctx);
     if (ty->kind == TY_BOOL)
       return !!val;
     if (is_integer(ty))
-- 
2.43.0


From ba0f682aff3d8813c78b3c741c85fcc3eb28c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 102/117] fix: __VA_TAIL__ without arguments or expansion
 dereferences null

---
 preprocess.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index ffac588..b9ac217 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -813,6 +813,8 @@ static Token *subst(Token *tok, MacroContext *ctx) {
         rparen = tok;
         tok = tok->next;
       } else {
+        if (tok->kind == TK_EOF)
+          error_tok(tok, "expected ')'");
         tail_m = find_macro(tok);
         rparen = tok->next;
         tok = skip(tok->next, ")");
@@ -834,7 +836,8 @@ static Token *subst(Token *tok, MacroContext *ctx) {
 
       cur->next = subst(tail_m->body, &tail_ctx);
       free(tail_ctx.args);
-      cur = find_last_tok(cur);
+      while (cur->next->kind != TK_EOF)
+        cur = cur->next;
       continue;
     }
     // Handle a non-parameter token.
-- 
2.43.0


From d2c64f7080e251d2607ebed72db3e432f004e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 103/117] fix: reject initializers on block-scope extern
 declarations

---
 parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index ee64371..9e7d2ee 100644
--- a/parse.c
+++ b/parse.c
@@ -4806,8 +4806,11 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
       error_tok(tok, "variable name omitted");
 
     bool is_definition = !attr->is_extern;
-    if (!is_definition && equal(tok, "="))
+    if (!is_definition && equal(tok, "=")) {
+      if (scope->parent)
+        error_tok(tok, "block-scope extern declaration cannot be initialized");
       is_definition = true;
+    }
 
     VarScope *sc = find_linked(name);
     Obj *var;
-- 
2.43.0


From d183446fdc69986b2a018ae1df0706cee282c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 104/117] fix: an array completed in a block refers to a freed
 type

---
 parse.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 9e7d2ee..76ba89e 100644
--- a/parse.c
+++ b/parse.c
@@ -4821,8 +4821,12 @@ static void global_declaration(Token **rest, Token *tok, Type *basety, VarAttr *
       if (ty->kind == TY_ARRAY && sc->var->ty->kind == TY_ARRAY) {
         if (ty->size < 0)
           ty = sc->var->ty;
-        else if (sc->var->ty->size < 0)
-          sc->var->ty = ty;
+        else if (sc->var->ty->size < 0) {
+          // The type may outlive the current function.
+          Type *base = sc->var->ty->base;
+          sc->var->ty = malloc(sizeof(Type));
+          *sc->var->ty = *array_of(base, ty->array_len);
+        }
       }
 
       if (!is_definition)
-- 
2.43.0


From d050df59e7a71aceebe5848b8827b63e5ad67c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 105/117] fix: a macro ending inside a built-in macro's
 arguments is an internal error

---
 preprocess.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index b9ac217..cfaae90 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -381,7 +381,8 @@ static Token *read_const_expr(Token *tok) {
   }
   cur->next = tok;
 
-  if (start_m != locked_macros)
+  // The enclosing expansion may have ended along with the list.
+  if (start_m != locked_macros && (!start_m || start_m->is_locked))
     internal_error();
   return head.next;
 }
@@ -578,7 +579,8 @@ static Token *expand_tok(Token *tok) {
   }
   cur->next = new_eof(tok);
 
-  if (start_m != locked_macros)
+  // The enclosing expansion may have ended along with the list.
+  if (start_m != locked_macros && (!start_m || start_m->is_locked))
     internal_error();
   return head.next;
 }
@@ -1330,7 +1332,8 @@ static Token *preprocess2(Token *tok) {
   tok->is_root = true;
   cur->next = tok;
 
-  if (start_m != locked_macros)
+  // The enclosing expansion may have ended along with the list.
+  if (start_m != locked_macros && (!start_m || start_m->is_locked))
     internal_error();
   return head.next;
 }
-- 
2.43.0


From b702cc82238730d68174a6042213828c6cac4fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:49 +0000
Subject: [PATCH 106/117] fix: zero-sized objects do not assemble

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 8aad66a..12c9f03 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4173,7 +4173,8 @@ static void emit_data(Obj *var) {
   Printfsn("\"%s\":", asm_name(var));
 
   if (!var->init_data) {
-    Printftn(".zero %"PRIi64, sz);
+    if (sz)
+      Printftn(".zero %"PRIi64, sz);
     return;
   }
 
-- 
2.43.0


From 565f08bd0b9747f6c543a94cab4a9a0c8b48f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 107/117] fix: loads at constant offsets of 2 GiB and more

At -O1, constant pointer offsets are folded into the displacement of the
load, which was truncated to 32 bits.
---
 codegen.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 12c9f03..8d4e994 100644
--- a/codegen.c
+++ b/codegen.c
@@ -213,6 +213,11 @@ static bool in_imm_range (int64_t val) {
   return val == (int32_t)val;
 }
 
+// Leave room for the bytes past a displacement that wide accesses touch
+static bool in_disp_range(int64_t ofs) {
+  return in_imm_range(ofs) && in_imm_range(ofs + 16);
+}
+
 static bool use_rip(Obj *var) {
   return !(opt_fpic || opt_fpie) || (var->is_static && !var->is_inline_def) ||
     (opt_fpie && ((var->ty->kind != TY_FUNC && !var->is_weak) || var->is_definition));
@@ -3079,7 +3084,10 @@ static bool gen_expr_opt(Node *node) {
   if (kind == ND_DEREF) {
     int64_t ofs = 0;
     gen_deref_opt(node->lhs, &ofs);
-
+    if (!in_disp_range(ofs)) {
+      imm_add("%rax", "%rdx", ofs);
+      ofs = 0;
+    }
     if (is_scalar(ty)) {
       load2(ty, ofs, "%rax");
       return true;
@@ -3091,7 +3099,10 @@ static bool gen_expr_opt(Node *node) {
   if (kind == ND_MEMBER) {
     int64_t ofs = 0;
     gen_member_opt(node, &ofs);
-
+    if (!in_disp_range(ofs)) {
+      imm_add("%rax", "%rdx", ofs);
+      ofs = 0;
+    }
     if (is_scalar(ty)) {
       load(node, ofs);
       return true;
-- 
2.43.0


From 8728d8b525e2396acfce7e0da646ae73567cfbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 108/117] fix: static initialiser naming a bit-field of a
 constant object

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 76ba89e..de4a82c 100644
--- a/parse.c
+++ b/parse.c
@@ -2155,7 +2155,7 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
     if (init->kind == INIT_EXPR) {
       int sofs;
       Obj *var = NULL;
-      if (is_compatible(ty, init->expr->ty))
+      if (is_compatible(ty, init->expr->ty) && !is_bitfield(init->expr))
         var = eval_var(init->expr, &sofs, false);
 
       if (var && var->init_data && !var->is_weak &&
-- 
2.43.0


From 9abdc3e99ac5c368d3cfc1825114983cd9311c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 109/117] fix: bit-fields of an unaligned union in a packed
 struct are passed in memory

---
 codegen.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codegen.c b/codegen.c
index 8d4e994..e104820 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1167,6 +1167,14 @@ static void classify_fields(Type *ty, int offset, ArgClass cls[2]) {
       }
       if (!mem->name || !mem->bit_width)
         continue;
+
+      // Bit-fields of an unaligned union
+      int w = mem->bit_width;
+      int sz = w <= 8 ? 1 : w <= 16 ? 2 : w <= 32 ? 4 : 8;
+      if (ty->kind == TY_UNION && offset % sz) {
+        cls[0] = CLS_MEM;
+        return;
+      }
       int lo = (offset + mem->offset) * 8 + mem->bit_offset;
       int hi = lo + mem->bit_width - 1;
       for (int i = lo / 64; i <= hi / 64 && i < 2; i++)
-- 
2.43.0


From 36eed838ac7827d84968dc02f2709cc055902b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:16 +0000
Subject: [PATCH 110/117] fix: let the assembler derive the type of a named
 section

---
 codegen.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index e104820..3a5123e 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4182,7 +4182,11 @@ static void emit_data(Obj *var) {
   else
     Prints(",\"aw\"");
 
-  if (!var->init_data && !use_rodata)
+  // Objects with and without initializer may share a named section,
+  // the assembler knows the type by the name.
+  if (var->section_name)
+    Printssn("");
+  else if (!var->init_data && !use_rodata)
     Printssn(",@nobits");
   else
     Printssn(",@progbits");
-- 
2.43.0


From c2207f9ce117ff1bcb37e4e7edc887ac5c7efa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:24 +0000
Subject: [PATCH 111/117] fix: evaluate arguments that allocate dynamically
 before the stack area for arguments is set up

---
 parse.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index de4a82c..94ccc04 100644
--- a/parse.c
+++ b/parse.c
@@ -129,6 +129,9 @@ static DeferStmt *current_defr;
 
 static bool fn_use_vla;
 static bool dont_dealloc_vla;
+
+// Number of dynamic stack allocations seen so far.
+static int64_t alloca_cnt;
 static bool is_global_init_context;
 static bool *eval_recover;
 
@@ -1464,6 +1467,7 @@ static Node *compute_vla_size(Type *ty, Token *tok) {
 
 static Node *new_vla(Node *sz, Obj *var) {
   Node *node = new_unary(ND_ALLOCA, sz, sz->tok);
+  alloca_cnt++;
   node->ty = pointer_to(ty_void);
   node->var = var;
   add_type(sz);
@@ -4168,6 +4172,7 @@ static Node *funcall(Token **rest, Token *tok, Node *fn) {
   Obj *cur = &head;
 
   enter_tmp_scope();
+  int64_t alloca_start = alloca_cnt;
 
   while (comma_list(rest, &tok, ")", cur != &head)) {
     Node *arg = assign(&tok, tok);
@@ -4198,6 +4203,20 @@ static Node *funcall(Token **rest, Token *tok, Node *fn) {
   if (param)
     error_tok(tok, "too few arguments");
 
+  // The area for arguments on the stack is set up before they are
+  // evaluated, an argument must not move the stack pointer then.
+  Node *pre_calc = NULL;
+  if (alloca_cnt != alloca_start) {
+    for (Obj *arg = head.param_next; arg; arg = arg->param_next) {
+      if (arg->ty->kind == TY_VOID)
+        continue;
+      Obj *var = new_lvar(NULL, unqual(arg->ty));
+      chain_expr(&pre_calc, new_binary(ND_ASSIGN, new_var_node(var, tok), arg->arg_expr, tok));
+      arg->arg_expr = new_var_node(var, tok);
+      add_type(arg->arg_expr);
+    }
+  }
+
   Node *node = new_unary(ND_FUNCALL, fn, tok);
   node->ty = ty->return_ty;
   node->args = head.param_next;
@@ -4209,6 +4228,13 @@ static Node *funcall(Token **rest, Token *tok, Node *fn) {
   // to allocate a space for the return value.
   if (node->ty->kind == TY_STRUCT || node->ty->kind == TY_UNION)
     node->ret_buffer = new_lvar(NULL, node->ty);
+
+  if (pre_calc) {
+    add_type(pre_calc);
+    Node *expr = new_binary(ND_COMMA, pre_calc, node, tok);
+    add_type(expr);
+    return expr;
+  }
   return node;
 }
 
@@ -4368,6 +4394,7 @@ static Node *primary(Token **rest, Token *tok) {
 
   if (equal(tok, "__builtin_alloca")) {
     Node *node = new_node(ND_ALLOCA, tok);
+    alloca_cnt++;
     tok = skip(tok->next, "(");
     node->lhs = assign(&tok, tok);
     *rest = skip(tok, ")");
@@ -4526,8 +4553,10 @@ static Node *primary(Token **rest, Token *tok) {
         sc->var->is_referenced = true;
 
       char *name = sc->var->name;
-      if (!strcmp(name, "alloca"))
+      if (!strcmp(name, "alloca")) {
         dont_dealloc_vla = true;
+        alloca_cnt++;
+      }
     }
 
     if (sc) {
-- 
2.43.0


From 64dfaab155737b215ec3287469f76b0bc35a415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:24 +0000
Subject: [PATCH 112/117] fix: keep memory from __builtin_alloca when a scope
 with VLA ends

---
 parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.c b/parse.c
index 94ccc04..0591dfb 100644
--- a/parse.c
+++ b/parse.c
@@ -4395,6 +4395,7 @@ static Node *primary(Token **rest, Token *tok) {
   if (equal(tok, "__builtin_alloca")) {
     Node *node = new_node(ND_ALLOCA, tok);
     alloca_cnt++;
+    dont_dealloc_vla = true;
     tok = skip(tok->next, "(");
     node->lhs = assign(&tok, tok);
     *rest = skip(tok, ")");
-- 
2.43.0


From 1ba1212a968c1ea2f7b4ec91dea4140f581f0682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:37 +0000
Subject: [PATCH 113/117] fix: describe the 80-bit long double in float.h

---
 include/float.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/float.h b/include/float.h
index 4618781..7725e3b 100644
--- a/include/float.h
+++ b/include/float.h
@@ -48,15 +48,15 @@
 #define DBL_MIN_EXP -1021
 #define DBL_TRUE_MIN 0x0.0000000000001p-1022
 
-#define LDBL_DIG 15
-#define LDBL_EPSILON 0x1p-52
-#define LDBL_MANT_DIG 53
-#define LDBL_MAX 0x1.fffffffffffffp+1023
-#define LDBL_MAX_10_EXP 308
-#define LDBL_MAX_EXP 1024
-#define LDBL_MIN 0x1p-1022
-#define LDBL_MIN_10_EXP -307
-#define LDBL_MIN_EXP -1021
-#define LDBL_TRUE_MIN 0x0.0000000000001p-1022
+#define LDBL_DIG 18
+#define LDBL_EPSILON 0x1p-63L
+#define LDBL_MANT_DIG 64
+#define LDBL_MAX 0xf.fffffffffffffffp+16380L
+#define LDBL_MAX_10_EXP 4932
+#define LDBL_MAX_EXP 16384
+#define LDBL_MIN 0x1p-16382L
+#define LDBL_MIN_10_EXP -4931
+#define LDBL_MIN_EXP -16381
+#define LDBL_TRUE_MIN 0x1p-16445L
 
 #endif
-- 
2.43.0


From 3a7ae66d8135686c818f0473c0e96ec864c5aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:37 +0000
Subject: [PATCH 114/117] fix: define the C11 macros missing in float.h

---
 include/float.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/float.h b/include/float.h
index 7725e3b..ea23c9f 100644
--- a/include/float.h
+++ b/include/float.h
@@ -22,12 +22,14 @@
 #endif
 #endif
 
-#ifndef FLT_ROUND
-#define FLT_ROUND 1
+#ifndef FLT_ROUNDS
+#define FLT_ROUNDS 1
 #endif
 
+#define FLT_DECIMAL_DIG 9
 #define FLT_DIG 6
 #define FLT_EPSILON 0x1p-23
+#define FLT_HAS_SUBNORM 1
 #define FLT_MANT_DIG 24
 #define FLT_MAX 0x1.fffffep+127
 #define FLT_MAX_10_EXP 38
@@ -37,8 +39,10 @@
 #define FLT_MIN_EXP -125
 #define FLT_TRUE_MIN 0x1p-149
 
+#define DBL_DECIMAL_DIG 17
 #define DBL_DIG 15
 #define DBL_EPSILON 0x1p-52
+#define DBL_HAS_SUBNORM 1
 #define DBL_MANT_DIG 53
 #define DBL_MAX 0x1.fffffffffffffp+1023
 #define DBL_MAX_10_EXP 308
@@ -48,8 +52,10 @@
 #define DBL_MIN_EXP -1021
 #define DBL_TRUE_MIN 0x0.0000000000001p-1022
 
+#define LDBL_DECIMAL_DIG 21
 #define LDBL_DIG 18
 #define LDBL_EPSILON 0x1p-63L
+#define LDBL_HAS_SUBNORM 1
 #define LDBL_MANT_DIG 64
 #define LDBL_MAX 0xf.fffffffffffffffp+16380L
 #define LDBL_MAX_10_EXP 4932
-- 
2.43.0


From 319206d3932fa76c2ce2ea3a9cc998b34963069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:37 +0000
Subject: [PATCH 115/117] fix: initializers, fences and atomic_wchar_t of
 stdatomic.h

---
 include/stdatomic.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/stdatomic.h b/include/stdatomic.h
index a9324ec..8d7aa58 100644
--- a/include/stdatomic.h
+++ b/include/stdatomic.h
@@ -21,11 +21,12 @@ typedef enum {
   memory_order_seq_cst,
 } memory_order;
 
-#define ATOMIC_FLAG_INIT(x) (x)
+#define ATOMIC_FLAG_INIT {0}
+#define ATOMIC_VAR_INIT(x) (x)
 #define atomic_init(addr, val) (*(addr) = (val))
 #define kill_dependency(x) (x)
-#define atomic_thread_fence(order)
-#define atomic_signal_fence(order)
+#define atomic_thread_fence(order) ((void)(order))
+#define atomic_signal_fence(order) ((void)(order))
 #define atomic_is_lock_free(x) 1
 
 #define atomic_load(addr) (*(addr))
@@ -81,7 +82,7 @@ typedef _Atomic long long atomic_llong;
 typedef _Atomic unsigned long long atomic_ullong;
 typedef _Atomic unsigned short atomic_char16_t;
 typedef _Atomic unsigned atomic_char32_t;
-typedef _Atomic unsigned atomic_wchar_t;
+typedef _Atomic int atomic_wchar_t;
 typedef _Atomic signed char atomic_int_least8_t;
 typedef _Atomic unsigned char atomic_uint_least8_t;
 typedef _Atomic short atomic_int_least16_t;
-- 
2.43.0


From cb55915ab0de51ac3001e09679fd4f6dd0548fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:46 +0000
Subject: [PATCH 116/117] fix: atomic_int_fast16_t and the like correspond to
 the types of stdint.h

---
 include/stdatomic.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stdatomic.h b/include/stdatomic.h
index 8d7aa58..93e9784 100644
--- a/include/stdatomic.h
+++ b/include/stdatomic.h
@@ -1,6 +1,8 @@
 #ifndef __STDATOMIC_H
 #define __STDATOMIC_H
 
+#include <stdint.h>
+
 #define ATOMIC_BOOL_LOCK_FREE 1
 #define ATOMIC_CHAR_LOCK_FREE 1
 #define ATOMIC_CHAR16_T_LOCK_FREE 1
@@ -93,10 +95,10 @@ typedef _Atomic long atomic_int_least64_t;
 typedef _Atomic unsigned long atomic_uint_least64_t;
 typedef _Atomic signed char atomic_int_fast8_t;
 typedef _Atomic unsigned char atomic_uint_fast8_t;
-typedef _Atomic short atomic_int_fast16_t;
-typedef _Atomic unsigned short atomic_uint_fast16_t;
-typedef _Atomic int atomic_int_fast32_t;
-typedef _Atomic unsigned int atomic_uint_fast32_t;
+typedef _Atomic int_fast16_t atomic_int_fast16_t;
+typedef _Atomic uint_fast16_t atomic_uint_fast16_t;
+typedef _Atomic int_fast32_t atomic_int_fast32_t;
+typedef _Atomic uint_fast32_t atomic_uint_fast32_t;
 typedef _Atomic long atomic_int_fast64_t;
 typedef _Atomic unsigned long atomic_uint_fast64_t;
 typedef _Atomic long atomic_intptr_t;
-- 
2.43.0


From 8e6647a708171298b5947751f971de84fa81faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 117/117] fix: atomic exchange and compare-exchange accept
 arrays as pointers

---
 type.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/type.c b/type.c
index 5c3ec13..e327a94 100644
--- a/type.c
+++ b/type.c
@@ -604,14 +604,14 @@ void add_type(Node *node) {
     add_type(node->cas_new);
     node->ty = ty_bool;
 
-    if (node->cas_addr->ty->kind != TY_PTR)
+    if (!node->cas_addr->ty->base)
       error_tok(node->cas_addr->tok, "pointer expected");
-    if (node->cas_old->ty->kind != TY_PTR)
+    if (!node->cas_old->ty->base)
       error_tok(node->cas_old->tok, "pointer expected");
     node->cas_new = new_cast(node->cas_new, node->cas_addr->ty->base);
     return;
   case ND_EXCH:
-    if (node->lhs->ty->kind != TY_PTR)
+    if (!node->lhs->ty->base)
       error_tok(node->lhs->tok, "pointer expected");
     node->ty = unqual(node->lhs->ty->base);
     if (!is_numeric(node->ty) && node->ty->kind != TY_PTR)
-- 
2.43.0

