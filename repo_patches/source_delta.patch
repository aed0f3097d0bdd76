From c61ea891654eb7c287fda49833680bd89ba95afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 001/130] fix: parse expression statements that start with a
 unary operator

statement() recognized an expression only when it starts with an
identifier, a literal, '(', '*', '++' or '--', and took everything else
for a declaration; '-(x = 1);', '!f();' or 'sizeof(x);' were rejected.
---
 src/parser/statement.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/statement.c b/src/parser/statement.c
index 4a26762..8bbb299 100644
--- a/src/parser/statement.c
+++ b/src/parser/statement.c
@@ -668,8 +668,15 @@ INTERNAL struct block *statement(
     case STRING:
     case '*':
     case '(':
+    case '&':
+    case '+':
+    case '-':
+    case '!':
+    case '~':
     case INCREMENT:
     case DECREMENT:
+    case SIZEOF:
+    case ALIGNOF:
         parent = expression_statement(def, parent);
         consume(';');
         break;
-- 
2.43.0


From 79a940a1b004a744556ffc2090b6facf8a0e384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 002/130] fix: accept qualified _Bool objects with static
 storage and an initializer

A constant converted to _Bool does not carry the qualifiers of the object
it is assigned to, which an assertion on the initializer required.
---
 src/backend/x86_64/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index eab39e3..99a91fb 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -3303,7 +3303,7 @@ static void compile_data_assign(struct var target, struct var val)
         switch (val.kind) {
         case IMMEDIATE:
             assert(!is_array(target.type));
-            assert(type_equal(target.type, val.type));
+            assert(type_equal_unqualified(target.type, val.type));
             assert(!val.is_symbol || val.value.symbol->symtype == SYM_CONSTANT);
             imm.type = IMM_INT;
             if (is_long_double(val.type)) {
-- 
2.43.0


From 2b31da7003da0da9e18a84eb47f08d8c8ea1af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 003/130] fix: convert to _Bool by comparison with zero in
 casts

A cast to _Bool of a value not known at compile time kept the low byte,
so that (_Bool) 256 was 0 and (_Bool) 2 was 2.
---
 src/parser/eval.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 677bf08..18e3c39 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -445,6 +445,8 @@ INTERNAL struct expression eval_cast(
     struct var var,
     Type type)
 {
+    struct expression expr;
+
     if (is_void(type)) {
         return as_expr(var_void());
     }
@@ -471,6 +473,16 @@ INTERNAL struct expression eval_cast(
         return as_expr(var);
     }
 
+    /* Conversion to bool compares against zero, and does not truncate. */
+    if (is_bool(type) && !is_bool(var.type)) {
+        expr = eval_cmp_ne(def, block, var_int(0), var);
+        if (!is_identity(expr)) {
+            expr.type = basic_type__bool;
+            return as_expr(eval(def, block, expr));
+        }
+        return eval_cast(def, block, expr.l, type);
+    }
+
     if (size_of(var.type) == size_of(type)
         && (is_pointer(var.type) || is_pointer(type)))
     {
-- 
2.43.0


From df985cf69a42e1458599f971e8c0ebbc483070fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 004/130] fix: convert values assigned to bit-fields

Assigning a constant to a bit-field masked its representation without
converting it first, so a floating constant stored garbage, and the value
of an assignment to an unsigned bit-field had a signed type.
---
 src/parser/eval.c | 105 +++++++++++++++++++---------------------------
 1 file changed, 44 insertions(+), 61 deletions(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 18e3c39..12adb14 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1582,67 +1582,6 @@ static struct expression eval_prepare_assign_bool(
     return expr;
 }
 
-/*
- * Assign value to field.
- *
- * Immediate values are masked to remove bits not within field width,
- * and returned directly as result of the assignment.
- */
-static struct var assign_field(
-    struct definition *def,
-    struct block *block,
-    struct var target,
-    struct expression expr)
-{
-    Type type;
-    long mask;
-
-    assert(is_field(target));
-    assert(is_integer(target.type));
-    switch (type_of(target.type)) {
-    case T_BOOL:
-        expr = eval_prepare_assign_bool(def, block, expr);
-        type = basic_type__bool;
-        break;
-    case T_CHAR:
-        type = basic_type__char;
-        break;
-    case T_SHORT:
-        type = basic_type__short;
-        break;
-    case T_INT:
-        type = basic_type__int;
-        break;
-    default:
-        assert(type_of(target.type) == T_LONG);
-        type = basic_type__long;
-        break;
-    }
-
-    if (is_immediate(expr)) {
-        mask = (1l << target.field_width) - 1;
-        expr.l.value.imm.i &= mask;
-        if (is_signed(target.type)
-            && (expr.l.value.imm.i & (1l << (target.field_width - 1))))
-        {
-            expr.l.value.imm.i |= ~mask;
-        }
-        expr.l.type = type;
-        expr.type = type;
-    } else if (!type_equal(type, expr.type)) {
-        expr = eval_cast(def, block, eval(def, block, expr), type);
-    }
-
-    ir_assign(def, block, target, expr);
-    if (is_immediate(expr)) {
-        target = expr.l;
-    } else {
-        target.lvalue = 0;
-    }
-
-    return target;
-}
-
 static int has_qualifiers(Type a, Type b)
 {
     return is_const(a) >= is_const(b) && is_volatile(a) >= is_volatile(b);
@@ -1721,6 +1660,50 @@ static struct expression eval_prepare_assign(
     return expr;
 }
 
+/*
+ * Assign value to field.
+ *
+ * Immediate values are masked to remove bits not within field width,
+ * and returned directly as result of the assignment.
+ */
+static struct var assign_field(
+    struct definition *def,
+    struct block *block,
+    struct var target,
+    struct expression expr)
+{
+    Type type;
+    int width;
+    long mask;
+
+    assert(is_field(target));
+    assert(is_integer(target.type));
+    width = target.field_width;
+    type = type_unqualified(target.type);
+    expr = eval_prepare_assign(def, block, expr, type);
+    if (is_immediate(expr) && width < 64) {
+        mask = (1l << width) - 1;
+        expr.l.value.imm.i &= mask;
+        if (is_signed(type)
+            && (expr.l.value.imm.i & (1l << (width - 1))))
+        {
+            expr.l.value.imm.i |= ~mask;
+        }
+    }
+
+    ir_assign(def, block, target, expr);
+    if (is_immediate(expr)) {
+        target = expr.l;
+        if (is_unsigned(type) && width < 32) {
+            target.type = basic_type__int;
+        }
+    } else {
+        target.lvalue = 0;
+    }
+
+    return target;
+}
+
 /*
  * Function arguments are converted to prototype parameter type as if
  * by assignment, but disregarding top-level qualifiers.
-- 
2.43.0


From 198d2e7d0b56b3057ddb9c7e5d2cc5258c975462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 005/130] fix: allow bit-fields of 64 bits

Loads and stores of a bit-field as wide as long failed an assertion, and
the mask was computed with an undefined shift.
---
 src/backend/x86_64/compile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 99a91fb..4e72095 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -652,7 +652,7 @@ static void load_field(struct var v, enum reg r, int w)
     struct registr ax;
 
     assert(is_field(v));
-    assert(v.field_width > 0 && v.field_width < 64);
+    assert(v.field_width > 0 && v.field_width <= 64);
     assert(v.field_offset + v.field_width <= 64);
 
     if (size_of(v.type) <= 4) {
@@ -1248,12 +1248,15 @@ static void store_op(
         opc = INSTR_MOVS;
         assert(optype == OPT_REG);
     } else if (is_field(target)) {
-        assert(target.field_width > 0 && target.field_width < 64);
+        assert(target.field_width > 0 && target.field_width <= 64);
         field = target;
         field.field_width = 0;
         field.field_offset = 0;
         load(field, CX);
-        mask = ((1L << target.field_width) - 1) << target.field_offset;
+        mask = -1L;
+        if (target.field_width < 64) {
+            mask = ((1L << target.field_width) - 1) << target.field_offset;
+        }
         bitwise_imm_reg(INSTR_AND, constant(~mask, w), reg(CX, w));
         if (optype == OPT_IMM) {
             assert(op.imm.type == IMM_INT);
-- 
2.43.0


From bce8400afd0b94a430eca5d268b4ece748d5eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 006/130] fix: initialize members after a bit-field ending on
 3, 5, 6 or 7 bytes

Padding between a bit-field and the next member was only recognized as
complete bytes for some widths; otherwise an empty padding field was
added, and writing it as a full integer hit an assertion or clobbered the
member.
---
 src/parser/initializer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index 800885e..19c889d 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -725,7 +725,11 @@ static void initialize_padding(
         switch (prev.field_offset) {
         case 8:
         case 16:
+        case 24:
         case 32:
+        case 40:
+        case 48:
+        case 56:
         case 64:
             prev.offset += prev.field_offset / 8;
             prev.field_offset = 0;
-- 
2.43.0


From 68d039d5e15dc003f96dd85edc28e7b069dc5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 007/130] fix: evaluate a conditional with constant condition
 once

The chosen operand was evaluated twice, so a call was made a second time,
after its arguments had been consumed, and operands of struct type were
rejected.
---
 src/parser/expression.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index e64d32f..e85a31e 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -875,8 +875,12 @@ INTERNAL struct block *conditional_expression(
         if (is_void(type)) {
             block->expr = as_expr(var_void());
         } else {
-            block->expr = eval_cast(def, block,
-                eval(def, block, block->expr), type);
+            lval = (b == 1) ? lval : rval;
+            if (is_struct_or_union(type)) {
+                block->expr = as_expr(lval);
+            } else {
+                block->expr = eval_cast(def, block, lval, type);
+            }
         }
     } else {
         left = cfg_block_init(def);
-- 
2.43.0


From 05ecf361c0cffd196333e3b20ceb9c4c991c8fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 008/130] fix: promote unsigned bit-fields in all arithmetic
 operators

Multiplicative, shift, bitwise and unary operators used the declared type
of an unsigned bit-field narrower than int, and not int.
---
 src/parser/eval.c       | 18 ++++++++++++++++++
 src/parser/expression.c |  1 +
 2 files changed, 19 insertions(+)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 12adb14..5d27406 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -529,6 +529,8 @@ INTERNAL struct expression eval_mul(
 {
     Type type;
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     if (!is_arithmetic(l.type) || !is_arithmetic(r.type)) {
         error("Operands to multiplication must be of arithmetic type.");
         exit(1);
@@ -570,6 +572,8 @@ INTERNAL struct expression eval_div(
 {
     Type type;
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     if (!is_arithmetic(l.type) || !is_arithmetic(r.type)) {
         error("Operands to division must be of arithmetic type.");
         exit(1);
@@ -608,6 +612,8 @@ INTERNAL struct expression eval_mod(
 {
     Type type = basic_type__void;
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     if (is_arithmetic(l.type) && is_arithmetic(r.type)) {
         type = usual_arithmetic_conversion(l.type, r.type);
     }
@@ -994,6 +1000,8 @@ INTERNAL struct expression eval_or(
 {
     Type type;
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     if (!is_integer(l.type) || !is_integer(r.type)) {
         error("Operands to bitwise or must have integer type.");
         exit(1);
@@ -1024,6 +1032,8 @@ INTERNAL struct expression eval_xor(
 {
     Type type;
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     if (!is_integer(l.type) || !is_integer(r.type)) {
         error("Operands to bitwise xor must have integer type.");
         exit(1);
@@ -1054,6 +1064,8 @@ INTERNAL struct expression eval_and(
 {
     Type type;
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     if (!is_integer(l.type) || !is_integer(r.type)) {
         error("Operands to bitwise and must have integer type.");
         exit(1);
@@ -1084,6 +1096,8 @@ INTERNAL struct expression eval_lshift(
 {
     Type type;
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     if (!is_integer(l.type) || !is_integer(r.type)) {
         error("Shift operands must have integer type.");
         exit(1);
@@ -1113,6 +1127,8 @@ INTERNAL struct expression eval_rshift(
 {
     Type type;
 
+    l = rvalue(def, block, l);
+    r = rvalue(def, block, r);
     if (!is_integer(l.type) || !is_integer(r.type)) {
         error("Shift operands must have integer type.");
         exit(1);
@@ -1141,6 +1157,7 @@ INTERNAL struct expression eval_not(
 {
     Type type;
 
+    var = rvalue(def, block, var);
     if (!is_integer(var.type)) {
         error("Bitwise complement operand must have integer type.");
         exit(1);
@@ -1167,6 +1184,7 @@ INTERNAL struct expression eval_neg(
     struct block *block,
     struct var var)
 {
+    var = rvalue(def, block, var);
     if (!is_arithmetic(var.type)) {
         error("Unary (-) operand must be of arithmetic type.");
         exit(1);
diff --git a/src/parser/expression.c b/src/parser/expression.c
index e85a31e..35f4c56 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -364,6 +364,7 @@ static struct block *unary_expression(
         next();
         block = cast_expression(def, block);
         value = eval(def, block, block->expr);
+        value = rvalue(def, block, value);
         block->expr = eval_unary_plus(value);
         break;
     case '-':
-- 
2.43.0


From 1b2ff7ce824a06539a5f716403687094558b5a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 009/130] fix: load bit-field operands of multiplication

The left operand of an integer multiplication was read from memory as a
whole when directly addressable, also when it is a bit-field.
---
 src/backend/x86_64/compile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 4e72095..34d7e09 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -2584,6 +2584,7 @@ static enum reg compile_mul(
         ax = load_cast(r, r.type);
         assert(ax == AX);
         if (l.kind == DIRECT
+            && !is_field(l)
             && !is_register_allocated(l)
             && !is_global_offset(l.value.symbol))
         {
-- 
2.43.0


From c5b50814872fa75a37c577b7bbe6dbfab7aa2607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 010/130] fix: evaluate #if expressions with unevaluated
 operands, chained == and |, and intmax_t

---
 src/preprocessor/directive.c | 93 +++++++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 28 deletions(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index e251c1e..3b0a1ff 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -11,6 +11,7 @@
 #include <lacc/context.h>
 
 #include <assert.h>
+#include <string.h>
 
 #define IDENT(s) {IDENTIFIER, 1, 0, 0, {0}, {SHORT_STRING_INIT(s)}}
 
@@ -93,6 +94,13 @@ INTERNAL int in_active_block(void)
     return s == BRANCH_LIVE;
 }
 
+/*
+ * Number of enclosing operands that are not evaluated, because the
+ * result of &&, || or ?: is already known. Division by zero is allowed
+ * in these.
+ */
+static int unevaluated;
+
 static void expect(const struct token *list, int token)
 {
     String a, b;
@@ -129,6 +137,13 @@ static struct number preprocess_primary(
         assert(n.token == NUMBER);
         num.type = n.type;
         num.val = n.d.val;
+        if (is_unsigned(num.type) && size_of(num.type) == 4) {
+            /* All signed types act as if having the range of intmax_t. */
+            s = list->d.string;
+            if (!strpbrk(str_raw(s), "uU")) {
+                num.type = basic_type__long;
+            }
+        }
         break;
     case PREP_CHAR:
         n = convert_preprocessing_char(*list);
@@ -204,7 +219,8 @@ static struct number preprocess_unary(
         if (is_signed(r.type)) {
             r.val.i = ! r.val.i;
         } else {
-            r.val.u = ! r.val.u;
+            r.val.i = ! r.val.u;
+            r.type = basic_type__long;
         }
         return r;
     default:
@@ -250,8 +266,11 @@ static struct number preprocess_multiplicative(
         case '/':
             r = preprocess_unary(list + 1, &list);
             if (r.val.i == 0) {
-                error("Division by zero.");
-                exit(1);
+                if (!unevaluated) {
+                    error("Division by zero.");
+                    exit(1);
+                }
+                both_signed(&l, &r);
             } else if (both_signed(&l, &r)) {
                 l.val.i /= r.val.i;
             } else {
@@ -261,8 +280,11 @@ static struct number preprocess_multiplicative(
         case '%':
             r = preprocess_unary(list + 1, &list);
             if (r.val.i == 0) {
-                error("Modulo by zero.");
-                exit(1);
+                if (!unevaluated) {
+                    error("Modulo by zero.");
+                    exit(1);
+                }
+                both_signed(&l, &r);
             } else if (both_signed(&l, &r)) {
                 l.val.i %= r.val.i;
             } else {
@@ -319,7 +341,7 @@ static struct number preprocess_shift(
         switch (list->token) {
         case LSHIFT:
             r = preprocess_additive(list + 1, &list);
-            if (both_signed(&l, &r)) {
+            if (is_signed(l.type)) {
                 l.val.i <<= r.val.i;
             } else {
                 l.val.u <<= r.val.u;
@@ -327,7 +349,7 @@ static struct number preprocess_shift(
             break;
         case RSHIFT:
             r = preprocess_additive(list + 1, &list);
-            if (both_signed(&l, &r)) {
+            if (is_signed(l.type)) {
                 l.val.i >>= r.val.i;
             } else {
                 l.val.u >>= r.val.u;
@@ -391,27 +413,27 @@ static struct number preprocess_equality(
     struct number l, r;
 
     l = preprocess_relational(list, &list);
-    switch (list->token) {
-    case EQ:
-        r = preprocess_equality(list + 1, &list);
-        l.val.i = both_signed(&l, &r)
-                ? l.val.i == r.val.i
-                : l.val.u == r.val.u;
-        l.type = basic_type__long;
-        break;
-    case NEQ:
-        r = preprocess_equality(list + 1, &list);
-        l.val.i = both_signed(&l, &r)
-                ? l.val.i != r.val.i
-                : l.val.u != r.val.u;
-        l.type = basic_type__long;
-        break;
-    default:
-        break;
+    while (1) {
+        switch (list->token) {
+        case EQ:
+            r = preprocess_relational(list + 1, &list);
+            l.val.i = both_signed(&l, &r)
+                    ? l.val.i == r.val.i
+                    : l.val.u == r.val.u;
+            l.type = basic_type__long;
+            break;
+        case NEQ:
+            r = preprocess_relational(list + 1, &list);
+            l.val.i = both_signed(&l, &r)
+                    ? l.val.i != r.val.i
+                    : l.val.u != r.val.u;
+            l.type = basic_type__long;
+            break;
+        default:
+            *endptr = list;
+            return l;
+        }
     }
-
-    *endptr = list;
-    return l;
 }
 
 static struct number preprocess_and(
@@ -462,7 +484,7 @@ static struct number preprocess_inclusive_or(
 
     l = preprocess_exclusive_or(list, &list);
     if (list->token == '|') {
-        r = preprocess_exclusive_or(list + 1, &list);
+        r = preprocess_inclusive_or(list + 1, &list);
         if (both_signed(&l, &r)) {
             l.val.i |= r.val.i;
         } else {
@@ -479,10 +501,14 @@ static struct number preprocess_logical_and(
     const struct token **endptr)
 {
     struct number l, r;
+    int skip;
 
     l = preprocess_inclusive_or(list, &list);
     if (list->token == LOGICAL_AND) {
+        skip = !l.val.u;
+        unevaluated += skip;
         r = preprocess_logical_and(list + 1, &list);
+        unevaluated -= skip;
         l.val.i = l.val.u && r.val.u;
         l.type = basic_type__long;
     }
@@ -496,10 +522,14 @@ static struct number preprocess_logical_or(
     const struct token **endptr)
 {
     struct number l, r;
+    int skip;
 
     l = preprocess_logical_and(list, &list);
     if (list->token == LOGICAL_OR) {
+        skip = l.val.u != 0;
+        unevaluated += skip;
         r = preprocess_logical_or(list + 1, &list);
+        unevaluated -= skip;
         l.val.i = l.val.u || r.val.u;
         l.type = basic_type__long;
     }
@@ -513,12 +543,19 @@ static struct number preprocess_conditional(
     const struct token **endptr)
 {
     struct number a, b, c;
+    int skip;
 
     a = preprocess_logical_or(list, &list);
     if (list->token == '?') {
+        skip = !a.val.u;
+        unevaluated += skip;
         b = preprocess_expression(list + 1, &list);
+        unevaluated -= skip;
         expect(list, ':');
+        skip = !skip;
+        unevaluated += skip;
         c = preprocess_conditional(list + 1, &list);
+        unevaluated -= skip;
         if (both_signed(&b, &c)) {
             a.val.i = a.val.u ? b.val.i : c.val.i;
             a.type = basic_type__long;
-- 
2.43.0


From 01caf1bc3f7a03bd86d280c7e33536b4f116d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 011/130] fix: remove all blocks of an expression that is not
 evaluated

---
 src/parser/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parse.c b/src/parser/parse.c
index 61d24ed..d59a4bf 100644
--- a/src/parser/parse.c
+++ b/src/parser/parse.c
@@ -183,7 +183,7 @@ INTERNAL void restore_block(struct definition *def)
 
     assert(array_len(&restore_list_count) >= 2);
     n = array_pop_back(&restore_list_count);
-    for (i = 0; i < array_len(&def->nodes) - n; ++i) {
+    for (i = array_len(&def->nodes) - n; i > 0; --i) {
         block = array_pop_back(&def->nodes);
         recycle_block(block);
     }
-- 
2.43.0


From c4ad9549b7dc2791ccb8fccf35424121b11dec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 012/130] fix: fold constant && || and ?: without evaluating
 the other operand

---
 src/parser/declaration.c |  8 ++--
 src/parser/eval.c        | 30 ++++++++++++++-
 src/parser/expression.c  | 83 ++++++++++++++++++++++------------------
 src/parser/parse.c       | 20 ++++++----
 src/parser/parse.h       | 11 +++++-
 5 files changed, 100 insertions(+), 52 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5ff916f..d472014 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -64,12 +64,13 @@ static struct block *parameter_list(
     String name;
     size_t length;
     struct block *block;
+    struct definition *unevaluated = def;
     struct member *param;
     struct declaration_specifier_info info;
 
     *func = type_create_function(base);
     if (current_scope_depth(&ns_ident) != 1) {
-        block = begin_throwaway_block(def);
+        block = begin_throwaway_block(&unevaluated);
     } else {
         block = parent;
     }
@@ -84,7 +85,8 @@ static struct block *parameter_list(
             error("Unexpected function specifier.");
         }
 
-        block = parameter_declarator(def, block, base, &base, &name, &length);
+        block = parameter_declarator(
+            unevaluated, block, base, &base, &name, &length);
         if (is_void(base)) {
             if (nmembers(*func)) {
                 error("Incomplete type in parameter list.");
@@ -118,7 +120,7 @@ static struct block *parameter_list(
     }
 
     if (current_scope_depth(&ns_ident) != 1) {
-        restore_block(def);
+        restore_block(def, unevaluated);
     } else {
         parent = block;
     }
diff --git a/src/parser/eval.c b/src/parser/eval.c
index 5d27406..93496d4 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -87,12 +87,21 @@ INTERNAL struct var var_void(void)
     return var;
 }
 
+/* Constant expressions at file scope have nowhere to put computations. */
+static void ensure_definition(const struct definition *def)
+{
+    if (!def) {
+        error("Constant expression must be computable at compile time.");
+        exit(1);
+    }
+}
+
 INTERNAL struct var create_var(struct definition *def, Type type)
 {
     struct symbol *tmp;
     struct var res;
-    assert(def);
     assert(!is_void(type));
+    ensure_definition(def);
 
     tmp = sym_create_temporary(type);
     res = var_direct(tmp);
@@ -241,8 +250,10 @@ static void append_statement(
     struct block *block,
     struct statement stmt)
 {
-    int i = array_len(&def->statements);
+    int i;
 
+    ensure_definition(def);
+    i = array_len(&def->statements);
     assert(!block->count || (block->head + block->count == i));
     array_push_back(&def->statements, stmt);
     if (!block->count) {
@@ -557,6 +568,17 @@ INTERNAL struct expression eval_mul(
     }
 }
 
+/* Division of the smallest integer by -1 cannot be represented. */
+static int is_division_overflow(Type type, struct var l, struct var r)
+{
+    return is_signed(type)
+        && size_of(type) == 8
+        && l.kind == IMMEDIATE
+        && r.kind == IMMEDIATE
+        && l.value.imm.i == LONG_MIN
+        && r.value.imm.i == -1;
+}
+
 /*
  * Special care is taken to avoid undefined behavior from division by
  * zero.
@@ -586,6 +608,8 @@ INTERNAL struct expression eval_div(
         ((is_signed(type) && !r.value.imm.i) || (is_unsigned(type) && !r.value.imm.u)))
     {
         warning("Division by zero is undefined.");
+    } else if (is_division_overflow(type, l, r)) {
+        warning("Overflow in division is undefined.");
     } else if (l.kind == IMMEDIATE && r.kind == IMMEDIATE) {
         switch (type_of(type)) {
         case T_FLOAT:
@@ -630,6 +654,8 @@ INTERNAL struct expression eval_mod(
             || (is_unsigned(type) && !r.value.imm.u)))
     {
         warning("Modulo by zero is undefined.");
+    } else if (is_division_overflow(type, l, r)) {
+        warning("Overflow in modulo is undefined.");
     } else if (l.kind == IMMEDIATE && r.kind == IMMEDIATE) {
         return is_signed(type)
             ? as_expr(imm_signed(type, l.value.imm.i % r.value.imm.i))
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 35f4c56..01df07f 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -308,6 +308,7 @@ static struct block *unary_expression(
     struct block *block)
 {
     struct var value;
+    struct definition *unevaluated;
     struct block *head, *tail;
     const struct symbol *sym;
     String str;
@@ -393,10 +394,11 @@ static struct block *unary_expression(
             default: goto exprsize;
             }
         } else {
-exprsize:   head = begin_throwaway_block(def);
-            tail = unary_expression(def, head);
+exprsize:   unevaluated = def;
+            head = begin_throwaway_block(&unevaluated);
+            tail = unary_expression(unevaluated, head);
             type = tail->expr.type;
-            restore_block(def);
+            restore_block(def, unevaluated);
         }
         if (is_complete(type)) {
             if (is_vla(type)) {
@@ -734,6 +736,7 @@ static struct block *logical_and_expression(
     struct block *block)
 {
     int b;
+    struct definition *unevaluated;
     struct var value;
     struct block *left, *top, *right, *t, *f;
 
@@ -742,27 +745,26 @@ static struct block *logical_and_expression(
         return block;
 
     left = scalar(def, block, "Left operand of logical and");
-    top = cfg_block_init(def);
-    right = logical_and_expression(def, top);
-    right = scalar(def, right, "Right operand of logical and");
-
     b = immediate_bool(left->expr);
     if (b == 1) {
-        left->jump[0] = top;
-        block = right;
+        block = logical_and_expression(def, left);
+        block = scalar(def, block, "Right operand of logical and");
         if (!is_comparison(block->expr)) {
             value = eval(def, block, block->expr);
             block->expr = eval_cmp_ne(def, block, value, var_int(0));
         }
     } else if (b == 0) {
-        if (top == right && !top->count) {
-            block = left;
-        } else {
-            block = cfg_block_init(def);
-            left->jump[0] = block;
-        }
+        unevaluated = def;
+        top = begin_throwaway_block(&unevaluated);
+        right = logical_and_expression(unevaluated, top);
+        scalar(unevaluated, right, "Right operand of logical and");
+        restore_block(def, unevaluated);
+        block = left;
         block->expr = as_expr(var_int(0));
     } else {
+        top = cfg_block_init(def);
+        right = logical_and_expression(def, top);
+        right = scalar(def, right, "Right operand of logical and");
         t = cfg_block_init(def);
         f = cfg_block_init(def);
         block = cfg_block_init(def);
@@ -788,6 +790,7 @@ static struct block *logical_or_expression(
     struct block *block)
 {
     int b;
+    struct definition *unevaluated;
     struct var value;
     struct block *left, *top, *right, *t, *f;
 
@@ -796,27 +799,26 @@ static struct block *logical_or_expression(
         return block;
 
     left = scalar(def, block, "Left operand of logical or");
-    top = cfg_block_init(def);
-    right = logical_or_expression(def, top);
-    right = scalar(def, right, "Right operand of logical or");
-
     b = immediate_bool(left->expr);
-    if (b == 1) {
-        if (top == right && !top->count) {
-            block = left;
-        } else {
-            block = cfg_block_init(def);
-            left->jump[0] = block;
-        }
-        block->expr = as_expr(var_int(1));
-    } else if (b == 0) {
-        left->jump[0] = top;
-        block = right;
+    if (b == 0) {
+        block = logical_or_expression(def, left);
+        block = scalar(def, block, "Right operand of logical or");
         if (!is_comparison(block->expr)) {
             value = eval(def, block, block->expr);
             block->expr = eval_cmp_ne(def, block, value, var_int(0));
         }
+    } else if (b == 1) {
+        unevaluated = def;
+        top = begin_throwaway_block(&unevaluated);
+        right = logical_or_expression(unevaluated, top);
+        scalar(unevaluated, right, "Right operand of logical or");
+        restore_block(def, unevaluated);
+        block = left;
+        block->expr = as_expr(var_int(1));
     } else {
+        top = cfg_block_init(def);
+        right = logical_or_expression(def, top);
+        right = scalar(def, right, "Right operand of logical or");
         t = cfg_block_init(def);
         f = cfg_block_init(def);
         block = cfg_block_init(def);
@@ -843,6 +845,7 @@ INTERNAL struct block *conditional_expression(
 {
     int b;
     struct var lval, rval, temp;
+    struct definition *unevaluated;
     struct block *left, *right, *extra;
     Type type;
 
@@ -857,16 +860,20 @@ INTERNAL struct block *conditional_expression(
             left = block = expression(def, block);
             lval = rvalue(def, left, eval(def, left, left->expr));
             consume(':');
-            right = begin_throwaway_block(def);
-            right = conditional_expression(def, right);
-            rval = rvalue(def, right, eval(def, right, right->expr));
-            restore_block(def);
+            unevaluated = def;
+            right = begin_throwaway_block(&unevaluated);
+            right = conditional_expression(unevaluated, right);
+            rval = rvalue(unevaluated, right,
+                eval(unevaluated, right, right->expr));
+            restore_block(def, unevaluated);
         } else {
             assert(b == 0);
-            left = begin_throwaway_block(def);
-            left = expression(def, left);
-            lval = rvalue(def, left, eval(def, left, left->expr));
-            restore_block(def);
+            unevaluated = def;
+            left = begin_throwaway_block(&unevaluated);
+            left = expression(unevaluated, left);
+            lval = rvalue(unevaluated, left,
+                eval(unevaluated, left, left->expr));
+            restore_block(def, unevaluated);
             consume(':');
             right = block = conditional_expression(def, block);
             rval = rvalue(def, right, eval(def, right, right->expr));
diff --git a/src/parser/parse.c b/src/parser/parse.c
index d59a4bf..d234e92 100644
--- a/src/parser/parse.c
+++ b/src/parser/parse.c
@@ -163,23 +163,29 @@ INTERNAL struct definition *cfg_init(void)
     return def;
 }
 
-INTERNAL struct block *begin_throwaway_block(struct definition *def)
+INTERNAL struct block *begin_throwaway_block(struct definition **def)
 {
-    if (def) {
-        array_push_back(&restore_list_count, array_len(&def->statements));
-        array_push_back(&restore_list_count, array_len(&def->nodes));
+    if (!*def) {
+        *def = cfg_init();
+        return (*def)->body;
     }
 
-    return cfg_block_init(def);
+    array_push_back(&restore_list_count, array_len(&(*def)->statements));
+    array_push_back(&restore_list_count, array_len(&(*def)->nodes));
+    return cfg_block_init(*def);
 }
 
-INTERNAL void restore_block(struct definition *def)
+INTERNAL void restore_block(
+    struct definition *def,
+    struct definition *throwaway)
 {
     int i, n;
     struct block *block;
 
-    if (!def)
+    if (!def) {
+        cfg_discard(throwaway);
         return;
+    }
 
     assert(array_len(&restore_list_count) >= 2);
     n = array_pop_back(&restore_list_count);
diff --git a/src/parser/parse.h b/src/parser/parse.h
index 1dfabbf..eb92a2f 100644
--- a/src/parser/parse.h
+++ b/src/parser/parse.h
@@ -30,9 +30,16 @@ INTERNAL void cfg_discard(struct definition *def);
 /* Create a basic block associated with control flow graph. */
 INTERNAL struct block *cfg_block_init(struct definition *def);
 
-INTERNAL struct block *begin_throwaway_block(struct definition *def);
+/*
+ * Create a block for parsing something that is not evaluated. A new
+ * definition is created for holding it if there is none.
+ */
+INTERNAL struct block *begin_throwaway_block(struct definition **def);
 
-INTERNAL void restore_block(struct definition *def);
+/* Remove everything added since the last begin_throwaway_block. */
+INTERNAL void restore_block(
+    struct definition *def,
+    struct definition *throwaway);
 
 /* Free memory after all input files are processed. */
 INTERNAL void parse_finalize(void);
-- 
2.43.0


From 432b935c08e68a20b9bde4b664ce5d7e2f4ed7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 013/130] fix: accept negative offsets of address constants

---
 src/backend/x86_64/compile.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 34d7e09..6d6dee2 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -260,12 +260,14 @@ static struct registr reg(enum reg r, int w)
 
 static int displacement_from_offset(size_t offset)
 {
-    if (offset > INT_MAX) {
-        error("Offset %lu exceeds limit of %d\n", offset, INT_MAX);
+    long disp = (long) offset;
+
+    if (disp > INT_MAX || disp < INT_MIN) {
+        error("Offset %ld exceeds limit of %d\n", disp, INT_MAX);
         exit(1);
     }
 
-    return (int) offset;
+    return (int) disp;
 }
 
 static int is_global_offset(const struct symbol *sym)
-- 
2.43.0


From 7107d6ba4a27f3dc6518f4e6c409647350cd62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 014/130] fix: accept compound literals as operand of sizeof

---
 src/parser/expression.c | 54 +++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 01df07f..440f711 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -303,6 +303,29 @@ static struct block *postfix_expression(
     return postfix(def, block);
 }
 
+static struct block *compound_literal(
+    struct definition *def,
+    struct block *block,
+    Type type)
+{
+    struct var var;
+    struct symbol *sym;
+
+    sym = sym_create_unnamed(type);
+    if (sym->linkage == LINK_INTERN) {
+        def = cfg_init();
+        initializer(def, def->body, sym);
+        cfg_define(def, sym);
+    } else {
+        array_push_back(&def->locals, sym);
+        block = initializer(def, block, sym);
+    }
+
+    var = var_direct(sym);
+    block->expr = as_expr(var);
+    return block;
+}
+
 static struct block *unary_expression(
     struct definition *def,
     struct block *block)
@@ -390,6 +413,14 @@ static struct block *unary_expression(
                     block = declarator(def, block, type, &type, NULL);
                 }
                 consume(')');
+                if (peek() == '{') {
+                    unevaluated = def;
+                    head = begin_throwaway_block(&unevaluated);
+                    tail = compound_literal(unevaluated, head, type);
+                    tail = postfix(unevaluated, tail);
+                    type = tail->expr.type;
+                    restore_block(def, unevaluated);
+                }
                 break;
             default: goto exprsize;
             }
@@ -451,29 +482,6 @@ exprsize:   unevaluated = def;
     return block;
 }
 
-static struct block *compound_literal(
-    struct definition *def,
-    struct block *block,
-    Type type)
-{
-    struct var var;
-    struct symbol *sym;
-
-    sym = sym_create_unnamed(type);
-    if (sym->linkage == LINK_INTERN) {
-        def = cfg_init();
-        initializer(def, def->body, sym);
-        cfg_define(def, sym);
-    } else {
-        array_push_back(&def->locals, sym);
-        block = initializer(def, block, sym);
-    }
-
-    var = var_direct(sym);
-    block->expr = as_expr(var);
-    return block;
-}
-
 /*
  * This rule needs two lookahead; to see beyond the initial parenthesis
  * whether it is actually a cast or an expression.
-- 
2.43.0


From 70533c1dbcf33c91f9320212806f42931c9164eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 015/130] fix: keep long double constants -0.0 and NaN

---
 src/preprocessor/strtab.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/strtab.c b/src/preprocessor/strtab.c
index 23d0e03..6d93837 100644
--- a/src/preprocessor/strtab.c
+++ b/src/preprocessor/strtab.c
@@ -229,6 +229,16 @@ INTERNAL String str_cat(String a, String b)
     return str_intern(catbuf, len);
 }
 
+/* Signed zeros are different constants, and NaN is not equal to itself. */
+static int is_same_long_double(long double a, long double b)
+{
+    if (a != a || b != b)
+        return a != a && b != b;
+    if (a == 0 && b == 0)
+        return 1 / a == 1 / b;
+    return a == b;
+}
+
 INTERNAL union value put_long_double(long double ld)
 {
     int i;
@@ -237,7 +247,7 @@ INTERNAL union value put_long_double(long double ld)
 
     for (i = 0; i < array_len(&long_double_values); ++i) {
         x = array_get(&long_double_values, i);
-        if (x == ld) {
+        if (is_same_long_double(x, ld)) {
             val.ld = i;
             return val;
         }
@@ -245,7 +255,6 @@ INTERNAL union value put_long_double(long double ld)
 
     val.ld = i;
     array_push_back(&long_double_values, ld);
-    assert(get_long_double(val) == ld);
     return val;
 }
 
-- 
2.43.0


From 82a93de7469b273998a552897be4b3772b421a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 016/130] fix: negate long double zero

---
 src/parser/eval.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 93496d4..4bbe304 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1234,6 +1234,11 @@ INTERNAL struct expression eval_neg(
         return create_expression(IR_OP_NEG, var.type, var);
     }
 
+    if (is_long_double(var.type)) {
+        return eval_sub(def, block,
+            var_numeric(basic_type__long_double, put_long_double(-0.0L)), var);
+    }
+
     return eval_sub(def, block, var_int(0), var);
 }
 
-- 
2.43.0


From 500864eda08fb1f5a2ecb4fea760918f66064508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 017/130] fix: round float and long double constants once, and
 accept subnormal constants

---
 src/preprocessor/tokenize.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/preprocessor/tokenize.c b/src/preprocessor/tokenize.c
index c65bc2b..a39a5c8 100644
--- a/src/preprocessor/tokenize.c
+++ b/src/preprocessor/tokenize.c
@@ -15,6 +15,10 @@
 #include <stdlib.h>
 #include <string.h>
 
+/* These are not declared by headers in C89 mode. */
+extern float strtof(const char *, char **);
+extern long double strtold(const char *, char **);
+
 /*
  * Static initializer for token. Only works with string representation
  * that can fit inline.
@@ -223,6 +227,7 @@ static const Type constant_integer_type(
 
 INTERNAL struct token convert_preprocessing_number(struct token t)
 {
+    long double ld;
     const char *str;
     const char *endptr;
     int len;
@@ -248,21 +253,29 @@ INTERNAL struct token convert_preprocessing_number(struct token t)
         /*
          * If the integer conversion did not consume the whole token,
          * try to read as floating point number.
-         *
-         * Note: not using strtold for long double conversion, so might
-         * get incorrect results compared to other compilers.
+         * Convert directly to the type of the constant, rounding twice
+         * can give another value. Underflow is not an error.
          */
         errno = 0;
         tok.type = basic_type__double;
         tok.d.val.d = strtod(str, (char **) &endptr);
+        if (errno == ERANGE && tok.d.val.d < 1.0) {
+            errno = 0;
+        }
         if (endptr - str < len) {
             if (*endptr == 'f' || *endptr == 'F') {
                 tok.type = basic_type__float;
-                tok.d.val.f = (float) tok.d.val.d;
+                tok.d.val.f = strtof(str, (char **) &endptr);
+                errno = 0;
                 endptr++;
             } else if (*endptr == 'l' || *endptr == 'L') {
+                errno = 0;
                 tok.type = basic_type__long_double;
-                tok.d.val = put_long_double((long double) tok.d.val.d);
+                ld = strtold(str, (char **) &endptr);
+                if (errno == ERANGE && ld < 1.0L) {
+                    errno = 0;
+                }
+                tok.d.val = put_long_double(ld);
                 endptr++;
             }
         }
-- 
2.43.0


From 4472f3b99e4c27e4aefc3e7e49354561965ee763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 018/130] fix: do not invert relational operators on floating
 operands

---
 src/parser/expression.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 440f711..a0ac810 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -330,6 +330,7 @@ static struct block *unary_expression(
     struct definition *def,
     struct block *block)
 {
+    enum optype op;
     struct var value;
     struct definition *unevaluated;
     struct block *head, *tail;
@@ -353,7 +354,12 @@ static struct block *unary_expression(
     case '!':
         next();
         block = cast_expression(def, block);
-        switch (block->expr.op) {
+        op = block->expr.op;
+        if ((op == IR_OP_GE || op == IR_OP_GT) && is_real(block->expr.l.type)) {
+            /* Both a < b and a >= b are false for NaN. */
+            op = IR_OP_CAST;
+        }
+        switch (op) {
         case IR_OP_EQ:
             block->expr.op = IR_OP_NE;
             break;
-- 
2.43.0


From 053248846c6cd39b38e146d2ea0e8cb2aa98f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 019/130] fix: pop what is pushed when converting integers to
 long double

---
 src/backend/x86_64/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 6d6dee2..a0bcf43 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -946,7 +946,7 @@ static enum reg load_x87(struct var v)
         } else {
             push(v);
             emit_m_(INSTR_FILD, location(address(0, SP, 0, 0), w));
-            emit_ir(INSTR_ADD, constant(w, 8), reg(SP, 8));
+            emit_ir(INSTR_ADD, constant(8, 8), reg(SP, 8));
         }
     }
 
-- 
2.43.0


From 7659de7c74e87442c49489ab6344211c132e502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 020/130] fix: reset sign constants of negation between source
 files

---
 src/backend/x86_64/compile.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index a0bcf43..61fba63 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -775,10 +775,11 @@ static void load_address(struct var v, enum reg r)
 }
 
 /*
- * Keep reference to constant once generated, but reset between each
+ * Keep reference to constants once generated, but reset between each
  * source file.
  */
 static struct symbol *x87_unsigned_adjust_constant;
+static struct symbol *neg32_constant, *neg64_constant;
 
 /*
  * Use long double constant with value MAX_LONG + 1 in order to generate
@@ -2524,25 +2525,23 @@ static enum reg compile_neg(
     struct var target,
     struct var l)
 {
-    static struct symbol *c32, *c64;
-
     enum reg xmm0, xmm1;
     struct var val;
     union value num = {0};
 
     if (is_float(l.type)) {
-        if (!c32) {
+        if (!neg32_constant) {
             num.u = 1u << 31;
-            c32 = sym_create_constant(basic_type__float, num);
+            neg32_constant = sym_create_constant(basic_type__float, num);
         }
-        val = var_direct(c32);
+        val = var_direct(neg32_constant);
     } else {
         assert(is_double(l.type));
-        if (!c64) {
+        if (!neg64_constant) {
             num.u = 1ul << 63;
-            c64 = sym_create_constant(basic_type__double, num);
+            neg64_constant = sym_create_constant(basic_type__double, num);
         }
-        val = var_direct(c64);
+        val = var_direct(neg64_constant);
     }
 
     assert(size_of(l.type) == size_of(val.type));
@@ -3443,6 +3442,8 @@ INTERNAL void flush(void)
     }
 
     x87_unsigned_adjust_constant = NULL;
+    neg32_constant = NULL;
+    neg64_constant = NULL;
 }
 
 INTERNAL void finalize(void)
-- 
2.43.0


From a07fb1a7c4543ce3cd5257d21f68f815dcd384ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 021/130] fix: convert register operands, bit-fields and large
 unsigned values to and from long double

---
 src/backend/x86_64/compile.c | 47 ++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 61fba63..065c665 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -868,6 +868,11 @@ static void push(struct var v)
     } else if (is_scalar(v.type)) {
         if (v.kind == IMMEDIATE && is_int_constant(v)) {
             emit_i_(INSTR_PUSH, value_of(v, 8));
+        } else if (is_real(v.type) && is_register_allocated(v)) {
+            emit_ir(INSTR_SUB, constant(8, 8), reg(SP, 8));
+            emit_rm(INSTR_MOVS,
+                reg(allocated_register(v), size_of(v.type)),
+                location(address(0, SP, 0, 0), size_of(v.type)));
         } else {
             /*
              * Not possible to push SSE registers, so load as if normal
@@ -921,13 +926,13 @@ static enum reg load_x87(struct var v)
             emit_m_(INSTR_FLD, location(address(0, SP, 0, 0), w));
             emit_ir(INSTR_ADD, constant(EIGHTBYTES(v.type) * 8, 8), reg(SP, 8));
         }
-    } else if (is_unsigned(v.type) || w == 1) {
+    } else if (is_unsigned(v.type) || w == 1 || is_field(v)) {
         ax = get_int_reg();
         load_int(v, ax, 8);
         emit_r_(INSTR_PUSH, reg(ax, 8));
         emit_m_(INSTR_FILD, location(address(0, SP, 0, 0), 8));
         emit_ir(INSTR_ADD, constant(8, 8), reg(SP, 8));
-        if (w == 8) {
+        if (w == 8 && is_unsigned(v.type)) {
             label = create_label(definition);
             emit_rr(INSTR_TEST, reg(ax, 8), reg(ax, 8));
             emit_jcc(CC_NS, addr(label));
@@ -942,7 +947,10 @@ static enum reg load_x87(struct var v)
     } else {
         assert(is_signed(v.type));
         assert(w != 1);
-        if (v.kind == DIRECT && !is_global_offset(v.value.symbol)) {
+        if (v.kind == DIRECT
+            && !is_register_allocated(v)
+            && !is_global_offset(v.value.symbol))
+        {
             emit_m_(INSTR_FILD, location_of(v, w));
         } else {
             push(v);
@@ -1099,20 +1107,45 @@ static enum reg load_integer_from_long_double(
     Type type)
 {
     int w;
-    enum reg ax;
+    enum reg st, ax, cx;
+    struct symbol *label;
+    struct var limit;
 
+    cx = 0;
     assert(is_long_double(val.type));
     assert(is_integer(type));
     assert(!is_long_double(type));
     if (size_of(type) < 2) {
         type = basic_type__short;
+    } else if (size_of(type) == 2 && is_unsigned(type)) {
+        type = basic_type__int;
     } else if (size_of(type) == 4 && is_unsigned(type)) {
         type = basic_type__long;
     }
 
     w = size_of(type);
-    load_x87(val);
+    st = load_x87(val);
     ax = get_int_reg();
+    if (is_unsigned(type) && w == 8) {
+        /*
+         * Only signed values can be stored. Subtract 2^63 from values
+         * that are not less, and add it to the result.
+         */
+        cx = get_int_reg();
+        label = create_label(definition);
+        limit = var_numeric(basic_type__long_double,
+            put_long_double(9223372036854775808.0L));
+        emit_rr(INSTR_XOR, reg(cx, 8), reg(cx, 8));
+        load_x87(limit);
+        emit_r_(INSTR_FUCOMIP, reg(st, 16));
+        x87_stack--;
+        emit_jcc(CC_A, addr(label));
+        load_x87(limit);
+        emit_r_(INSTR_FSUBRP, reg(st, 16));
+        x87_stack--;
+        emit_ir(INSTR_MOV, constant(LONG_MAX + 1ul, 8), reg(cx, 8));
+        enter_context(label);
+    }
 
     /* Store and modify control word using magic. */
     emit_m_(INSTR_FNSTCW, location(address(-16, SP, 0, 0), 2));
@@ -1132,6 +1165,10 @@ static enum reg load_integer_from_long_double(
     emit_m_(INSTR_FLDCW, location(address(-16, SP, 0, 0), 2));
     emit_mr(INSTR_MOV,
         location(address(-8, SP, 0, 0), w), reg(ax, w));
+    if (cx) {
+        emit_rr(INSTR_XOR, reg(cx, 8), reg(ax, 8));
+    }
+
     return ax;
 }
 
-- 
2.43.0


From ee3b3113f0af0df4519b269199e868058470f75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 022/130] fix: discard unused long double values

---
 src/backend/x86_64/compile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 065c665..b6ff054 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -3088,6 +3088,13 @@ static void compile_statement(struct statement stmt)
         break;
     case IR_EXPR:
         stmt.t.type = basic_type__void;
+        compile_assign(stmt.t, stmt.expr);
+        if (x87_stack == 1) {
+            /* Discard unused long double value. */
+            emit_m_(INSTR_FSTP, location(address(-16, SP, 0, 0), 16));
+            x87_stack = 0;
+        }
+        break;
     case IR_ASSIGN:
         compile_assign(stmt.t, stmt.expr);
         break;
-- 
2.43.0


From 28e832b193ead562fcb996434ed9463305a30514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 023/130] fix: encode move of immediate to byte register

---
 src/backend/x86_64/encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/encoding.c b/src/backend/x86_64/encoding.c
index c5047cd..defab05 100644
--- a/src/backend/x86_64/encoding.c
+++ b/src/backend/x86_64/encoding.c
@@ -155,7 +155,7 @@ static struct encoding {
     {INSTR_LEAVE, {"leave"}, {0}, {0xC9}, OPX_NONE, 0x00, OPT_NONE},
 
     {INSTR_MOV, {"mov", 1}, {0}, {0x88}, OPX_DW, 0x00, OPT_REG_REG | OPT_MEM_REG | OPT_REG_MEM},
-    {INSTR_MOV, {"mov", 1}, {0}, {0xB8}, OPX_WREG, 0x00, OPT_IMM_REG, {{1 | 2 | 4}, {1 | 2 | 4}}},
+    {INSTR_MOV, {"mov", 1}, {0}, {0xB0}, OPX_WREG, 0x00, OPT_IMM_REG, {{1 | 2 | 4}, {1 | 2 | 4}}},
     {INSTR_MOV, {"mov", 1}, {0}, {0xC6}, OPX_W, 0x00, OPT_IMM_REG, {0}, 0, 1},
     {INSTR_MOV, {"movq"}, {0}, {0xB8}, OPX_WREG, 0x00, OPT_IMM_REG, {{8}, {8}}},
     {INSTR_MOV, {"mov", 1}, {0}, {0xC6}, OPX_W, 0x00, OPT_IMM_MEM, {0}, 0, 1},
-- 
2.43.0


From 5ffd9fb2f7416155cd25b654d988e895aa12cae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 024/130] fix: classify _Bool members of structs and unions

---
 src/backend/x86_64/abi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/x86_64/abi.c b/src/backend/x86_64/abi.c
index cf1e57c..d87b27a 100644
--- a/src/backend/x86_64/abi.c
+++ b/src/backend/x86_64/abi.c
@@ -58,6 +58,7 @@ static struct param_class flatten(
             pc.eightbyte[i + 1] = combine(pc.eightbyte[i + 1], PC_X87UP);
         }
         break;
+    case T_BOOL:
     case T_CHAR:
     case T_INT:
     case T_SHORT:
-- 
2.43.0


From 132bfc19ae9ae631d52cfb1f54a06919b8d5c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 025/130] fix: order and merge initialization of bit-field
 members

---
 src/parser/initializer.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index 19c889d..31eb6eb 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -791,8 +791,9 @@ static int merge_assignments(struct statement *a, const struct statement *b)
     a->t.type = usual_arithmetic_conversion(a->t.type, b->t.type);
     a->t.field_width += b->t.field_width;
     a->expr.type = a->t.type;
-    a->expr.l.value.imm.i = ((a->expr.l.value.imm.i & m1) << a->t.field_offset)
-        | ((b->expr.l.value.imm.i & m2) << b->t.field_offset);
+    a->expr.l.value.imm.i = (a->expr.l.value.imm.i & m1)
+        | ((b->expr.l.value.imm.i & m2)
+            << (b->t.field_offset - a->t.field_offset));
     a->expr.l.type = a->t.type;
     if (!a->t.field_offset && a->t.field_width == size_of(a->t.type) * 8) {
         a->t.field_width = 0;
@@ -867,6 +868,12 @@ static size_t validate_contiguous_initialization(InitializerList *block)
 
 #endif
 
+static int is_target_after(struct var a, struct var b)
+{
+    return a.offset > b.offset
+        || (a.offset == b.offset && a.field_offset > b.field_offset);
+}
+
 /*
  * Reorder initializer assignments to increasing offsets, and remove
  * duplicate assignments to the same element.
@@ -879,7 +886,7 @@ static void sort_and_trim(InitializerList *values)
     code = &array_get(values, 0);
     for (i = 1; i < array_len(values); ++i) {
         j = i - 1;
-        while (j >= 0 && code[j].t.offset > code[j + 1].t.offset) {
+        while (j >= 0 && is_target_after(code[j].t, code[j + 1].t)) {
             tmp = code[j];
             code[j] = code[j + 1];
             code[j + 1] = tmp;
-- 
2.43.0


From df2b98bb0763143a6c0a0d5051fdde130b3e0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 026/130] fix: keep objects reachable from calls alive

---
 src/optimizer/liveness.c | 38 ++++++++------------------------------
 1 file changed, 8 insertions(+), 30 deletions(-)

diff --git a/src/optimizer/liveness.c b/src/optimizer/liveness.c
index b6b0af3..3ad6c7b 100644
--- a/src/optimizer/liveness.c
+++ b/src/optimizer/liveness.c
@@ -60,17 +60,24 @@ static unsigned long set_use_bit(struct var var)
     return 0;
 }
 
+/*
+ * Function calls can read any object with its address taken; either
+ * through pointers sent as arguments, or stored somewhere reachable
+ * from the callee. Assume then that anything can be used.
+ */
 static unsigned long use(const struct expression *expr)
 {
     unsigned long r = 0ul;
 
     switch (expr->op) {
+    case IR_OP_CALL:
+        r |= 0xFFFFFFFFFFFFFFFFul;
+        break;
     default:
         r |= set_use_bit(expr->r);
     case IR_OP_CAST:
     case IR_OP_NOT:
     case IR_OP_NEG:
-    case IR_OP_CALL:
     case IR_OP_VA_ARG:
         r |= set_use_bit(expr->l);
         break;
@@ -79,31 +86,6 @@ static unsigned long use(const struct expression *expr)
     return r;
 }
 
-static int is_or_has_pointer(Type type)
-{
-    int i;
-    struct member *m;
-
-    if (is_pointer(type)) {
-        return 1;
-    }
-
-    if (is_struct_or_union(type)) {
-        for (i = 0; i < nmembers(type); ++i) {
-            m = get_member(type, i);
-            if (is_or_has_pointer(m->type)) {
-                return 1;
-            }
-        }
-    }
-
-    return 0;
-}
-
-/*
- * Consider special case of sending a pointer into a function. Assume
- * then that anything can be used.
- */
 static unsigned long uses(const struct statement *s)
 {
     struct var t;
@@ -119,10 +101,6 @@ static unsigned long uses(const struct statement *s)
             r |= set_use_bit(t);
         }
         break;
-    case IR_PARAM:
-        if (is_or_has_pointer(s->expr.type)) {
-            r |= 0xFFFFFFFFFFFFFFFFul;
-        }
     default:
         break;
     }
-- 
2.43.0


From 6d2add38dfee8b644b9ee61ed390b5f8c7b3c8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 027/130] fix: do not discard target of struct calls and va_arg

---
 src/optimizer/transform.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/optimizer/transform.c b/src/optimizer/transform.c
index d937a14..f91044e 100644
--- a/src/optimizer/transform.c
+++ b/src/optimizer/transform.c
@@ -114,12 +114,15 @@ INTERNAL int dead_store_elimination(
             && !is_live_after(st->t.value.symbol, st)
             && st->t.value.symbol->linkage == LINK_NONE)
         {
-            c += 1;
-            if (has_side_effects(st->expr)) {
-                st->st = IR_EXPR;
-            } else {
+            if (!has_side_effects(st->expr)) {
                 statement_array_erase(def, block->head + i);
                 i -= 1;
+                c += 1;
+            } else if (st->expr.op == IR_OP_CALL
+                && !is_struct_or_union(st->expr.type))
+            {
+                st->st = IR_EXPR;
+                c += 1;
             }
         }
     }
-- 
2.43.0


From ac40463a23414008e8e104f1be53afbf845fe1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 028/130] fix: partial assignment does not define whole object

---
 src/optimizer/liveness.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimizer/liveness.c b/src/optimizer/liveness.c
index 3ad6c7b..dd76a79 100644
--- a/src/optimizer/liveness.c
+++ b/src/optimizer/liveness.c
@@ -21,7 +21,11 @@ static unsigned long set_def_bit(struct var var)
 {
     switch (var.kind) {
     case DIRECT:
-        if (is_scalar(var.value.symbol->type) && var.value.symbol->index) {
+        if (is_scalar(var.value.symbol->type)
+            && var.value.symbol->index
+            && !var.offset
+            && size_of(var.type) == size_of(var.value.symbol->type))
+        {
             return 1ul << (var.value.symbol->index - 1);
         }
     default:
-- 
2.43.0


From f50d9240019478db8a4bd3702aeb0c0cd858816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 029/130] fix: accept int and double before long in declaration
 specifiers

---
 src/parser/declaration.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d472014..ef00869 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -693,7 +693,11 @@ INTERNAL Type declaration_specifiers(struct declaration_specifier_info *info)
             base = B_INT;
             break;
         case LONG:
-            if (base || (modifier && modifier != M_LONG)) goto done;
+            if ((base && base != B_INT && base != B_DOUBLE)
+                || (modifier && (modifier != M_LONG || base == B_DOUBLE)))
+            {
+                goto done;
+            }
             next();
             if (modifier == M_LONG) {
                 modifier = M_LONG_LONG;
-- 
2.43.0


From d1e32fa08f310cfdcea2dbd491a5503912591530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 030/130] fix: store bit-fields packed in the unit of a wider
 type

---
 src/backend/x86_64/compile.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index b6ff054..7e6268e 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -657,7 +657,7 @@ static void load_field(struct var v, enum reg r, int w)
     assert(v.field_width > 0 && v.field_width <= 64);
     assert(v.field_offset + v.field_width <= 64);
 
-    if (size_of(v.type) <= 4) {
+    if (size_of(v.type) <= 4 && v.field_offset + v.field_width <= 32) {
         ax = reg(r, 4);
     } else {
         ax = reg(r, 8);
@@ -1292,6 +1292,15 @@ static void store_op(
         field = target;
         field.field_width = 0;
         field.field_offset = 0;
+        if (target.field_offset + target.field_width > w * 8) {
+            /* Packed in storage unit of a wider type. */
+            field.type = basic_type__int;
+            if (target.field_offset + target.field_width > 32) {
+                field.type = basic_type__long;
+            }
+            w = size_of(field.type);
+            op.reg.width = (optype == OPT_REG) ? w : op.reg.width;
+        }
         load(field, CX);
         mask = -1L;
         if (target.field_width < 64) {
-- 
2.43.0


From 2c67e6b519d564d3f6f8db1c0cef4ea667a70890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 031/130] fix: do not update type through stale pointer

---
 src/parser/typetree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index e150e97..63b4cf6 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -512,7 +512,9 @@ INTERNAL Type type_patch_declarator(Type head, Type target)
         } else {
             assert(is_function(head) || is_array(head));
             t = get_typetree_handle(head.ref);
-            t->next = type_patch_declarator(t->next, target);
+            next = type_patch_declarator(t->next, target);
+            t = get_typetree_handle(head.ref);
+            t->next = next;
             next = head;
         }
     }
-- 
2.43.0


From d0b0178a3edc5254a8d118157d4493ea56ce8d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 032/130] fix: align member after zero-width bit-field

---
 src/parser/typetree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index 63b4cf6..345577d 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -309,7 +309,7 @@ static void reset_field_alignment(Type type, Type clear)
         } else if (bits > clear_bits) {
             mod = bits % clear_bits;
             if (mod) {
-                type_add_field(type, name, backing, mod);
+                type_add_field(type, name, backing, clear_bits - mod);
             }
         } else {
             type_add_field(type, name, backing, clear_bits - bits);
@@ -319,7 +319,7 @@ static void reset_field_alignment(Type type, Type clear)
     if (t->size < clear_size) {
         t->size = clear_size;
     } else if (t->size % clear_size != 0) {
-        t->size += t->size % clear_size;
+        t->size += clear_size - t->size % clear_size;
     }
 }
 
-- 
2.43.0


From e906c3e9c7d8622b40cb69d6a541fc4a3695b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 033/130] fix: keep size and alignment of anonymous struct and
 union members

---
 src/parser/typetree.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index 345577d..7b2ee19 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -661,7 +661,7 @@ static int pack_field_member(struct typetree *t, struct member *field)
     }
 
     last = &array_get(&t->members, len - 1);
-    if (!last->field_width) {
+    if (!last->field_width || !last->field_backing) {
         return 0;
     }
 
@@ -749,23 +749,17 @@ INTERNAL void type_add_anonymous_member(Type parent, Type type)
     assert(is_struct_or_union(parent));
     assert(is_struct_or_union(type));
     t = get_typetree_handle(type.ref);
-    if (is_struct(parent) && is_union(type)) {
-        offset = adjust_member_alignment(parent, type);
-        for (i = 0; i < nmembers(type); ++i) {
-            m = array_get(&t->members, i);
-            m.offset += offset;
-            add_member(parent, m);
-        }
-    } else if (is_union(parent) && is_struct(type)) {
-        for (i = 0; i < nmembers(type); ++i) {
-            m = array_get(&t->members, i);
-            add_member(parent, m);
-        }
-    } else {
-        for (i = 0; i < nmembers(type); ++i) {
-            m = array_get(&t->members, i);
-            type_add_member(parent, m.name, m.type);
-        }
+    offset = adjust_member_alignment(parent, type);
+    for (i = 0; i < nmembers(type); ++i) {
+        m = array_get(&t->members, i);
+        m.offset += offset;
+        m.field_backing = 0;
+        add_member(parent, m);
+    }
+
+    t = get_typetree_handle(parent.ref);
+    if (t->size < offset + size_of(type)) {
+        t->size = offset + size_of(type);
     }
 }
 
-- 
2.43.0


From a88020d57aca02fa2a499465cdd75788a7144c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 034/130] fix: do not pack bit-fields across units of their
 type

---
 src/parser/typetree.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index 7b2ee19..ee55602 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -651,7 +651,7 @@ INTERNAL struct member *type_add_member(Type parent, String name, Type type)
 static int pack_field_member(struct typetree *t, struct member *field)
 {
     size_t len;
-    int i, bits;
+    int i, start, bits;
     struct member *m;
     const struct member *last;
 
@@ -665,11 +665,21 @@ static int pack_field_member(struct typetree *t, struct member *field)
         return 0;
     }
 
-    /* Check if possible to pack directly adjacent to last field. */
-    bits = last->field_offset + last->field_width + field->field_width;
+    /*
+     * Check if possible to pack adjacent to last field. Fields of a
+     * smaller type must not cross a storage unit of that type.
+     */
+    start = last->field_offset + last->field_width;
+    if (field->field_width && start / field->field_backing
+        != (start + field->field_width - 1) / field->field_backing)
+    {
+        start += field->field_backing - start % field->field_backing;
+    }
+
+    bits = start + field->field_width;
     if (bits <= last->field_backing) {
         field->offset = last->offset;
-        field->field_offset = last->field_offset + last->field_width;
+        field->field_offset = start;
         field->field_backing = last->field_backing;
         return 1;
     }
@@ -677,7 +687,7 @@ static int pack_field_member(struct typetree *t, struct member *field)
     /* Update backing if new field has a bigger slot. */
     if (bits <= field->field_backing) {
         field->offset = last->offset;
-        field->field_offset = last->field_offset + last->field_width;
+        field->field_offset = start;
         for (i = len - 1; i >= 0; --i) {
             m = &array_get(&t->members, i);
             if (m->field_width && m->offset == field->offset) {
-- 
2.43.0


From e487d67f08d1d000e0c7290fd2f18cadc6d59e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 035/130] fix: decay array members of struct values

---
 src/parser/eval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 4bbe304..dbb1f18 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1289,6 +1289,8 @@ INTERNAL struct var rvalue(
                 var.type = type_create_pointer(type_next(var.type));
             }
         } else {
+            /* Also array members of struct values decay to pointers. */
+            var.lvalue = var.lvalue || var.kind == DIRECT;
             var.type = type_next(var.type);
             var = eval_addr(def, block, var);
         }
-- 
2.43.0


From efddb2dc9494acbb984e9f212f0eca87ad68a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 036/130] fix: accept initializer of struct with a single
 bit-field

---
 src/parser/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index 31eb6eb..6923dc0 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -814,7 +814,7 @@ static void normalize_field_assignment(InitializerList *block)
     int i;
     struct statement *a, *b;
 
-    assert(array_len(block) > 1);
+    assert(array_len(block) > 0);
     a = &array_get(block, 0);
 
     for (i = 1; i < array_len(block); ++i) {
-- 
2.43.0


From 68593b93abd4ff1253bb3e058e9479d0c5e2df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 037/130] fix: do not write past structs of 3, 5, 6 or 7 bytes

---
 src/backend/x86_64/compile.c | 77 +++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 19 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 7e6268e..85eef53 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1413,6 +1413,47 @@ static int alloc_register_params(
     return 0;
 }
 
+/*
+ * Store i'th eightbyte of variable from register. The last slice of an
+ * aggregate type must not write to memory after the object, so sizes
+ * other than 1, 2, 4 and 8 are stored in multiple steps.
+ */
+static void store_slice(
+    enum reg r,
+    struct var var,
+    Type type,
+    struct param_class pc,
+    int i)
+{
+    size_t size;
+
+    size = size_of(type) - i * 8;
+    var.type = slice_type(type, pc, i);
+    if (size < size_of(var.type)) {
+        assert(pc.eightbyte[i] == PC_INTEGER);
+        if (size > 4) {
+            var.type = basic_type__unsigned_int;
+            store(r, var);
+            emit_ir(INSTR_SHR, constant(32, 1), reg(r, 8));
+            var.offset += 4;
+            size -= 4;
+        }
+        if (size > 1) {
+            var.type = basic_type__unsigned_short;
+            store(r, var);
+            emit_ir(INSTR_SHR, constant(16, 1), reg(r, 8));
+            var.offset += 2;
+            size -= 2;
+        }
+        if (size == 0) {
+            return;
+        }
+        var.type = basic_type__unsigned_char;
+    }
+
+    store(r, var);
+}
+
 static void move_to_from_registers(
     struct var var,
     struct param_class pc,
@@ -1439,11 +1480,11 @@ static void move_to_from_registers(
             } else {
                 r = *sseregs++;
             }
-            var.type = slice_type(type, pc, i);
             if (toggle_load) {
+                var.type = slice_type(type, pc, i);
                 load(var, r);
             } else {
-                store(r, var);
+                store_slice(r, var, type, pc, i);
             }
             var.offset += 8;
         }
@@ -2095,24 +2136,24 @@ static void compile__builtin_va_arg(struct var res, struct var args)
         while ((i = integer_regs_loaded + sse_regs_loaded) < n) {
             switch (pc.eightbyte[i]) {
             case PC_INTEGER:
-                slice.type = slice_type(res.type, pc, i);
-                i = integer_regs_loaded++;
-                w = size_of(slice.type);
+                w = size_of(slice_type(res.type, pc, i));
                 emit_mr(INSTR_MOV,
-                    location(address(i*8, SI, CX, 1), w), reg(AX, w));
-                store(AX, slice);
+                    location(address(integer_regs_loaded*8, SI, CX, 1), w),
+                    reg(AX, w));
+                store_slice(AX, slice, res.type, pc, i);
+                integer_regs_loaded++;
                 break;
             case PC_SSE:
-                i = sse_regs_loaded++;
-                slice.type = basic_type__double;
                 emit_mr(INSTR_MOVS,
-                    location(address(i*16, SI, DX, 1), 8), reg(XMM0, 8));
-                store(XMM0, slice);
+                    location(address(sse_regs_loaded*16, SI, DX, 1), 8),
+                    reg(XMM0, 8));
+                store_slice(XMM0, slice, res.type, pc, i);
+                sse_regs_loaded++;
                 break;
             default: assert(0);
             }
 
-            slice.offset += size_of(slice.type);
+            slice.offset += 8;
         }
 
         /*
@@ -2883,7 +2924,7 @@ static enum reg compile_cast(
     struct param_class pc;
 
     w = size_of(type);
-    if (!is_standard_register_width(w) && w < 8) {
+    if (!is_standard_register_width(w) && w < 8 && is_void(target.type)) {
         /* Do not bother masking adjacent bits read. */
         switch (w) {
         default: assert(0);
@@ -2898,11 +2939,6 @@ static enum reg compile_cast(
             ax = load_cast(l, l.type);
             break;
         }
-        if (!is_void(target.type)) {
-            /* All variables have at least 8 byte slots. */
-            target.type = l.type;
-            store(ax, target);
-        }
         return ax;
     }
 
@@ -2922,7 +2958,10 @@ static enum reg compile_cast(
         break;
     case PC_INTEGER:
     case PC_SSE:
-        if (pc.eightbyte[1] == PC_NO_CLASS) {
+        if (pc.eightbyte[1] == PC_NO_CLASS
+            && (is_void(target.type)
+                || is_standard_register_width(size_of(type))))
+        {
             if (is_struct_or_union(type)) {
                 type = slice_type(type, pc, 0);
                 l.type = type;
-- 
2.43.0


From 7813635114b4811664159938b3d862181b447c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 038/130] fix: accept arguments in calls of functions declared
 without prototype

---
 src/backend/x86_64/compile.c | 5 +++--
 src/parser/expression.c      | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 85eef53..d6b8bd2 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1609,9 +1609,10 @@ static int push_function_arguments(Type type, struct param_class respc)
 
     /*
      * For variable argument lists, %al contains the number of vector
-     * registers used.
+     * registers used. A function declared without a prototype can have
+     * one as well.
      */
-    if (is_vararg(type)) {
+    if (is_vararg(type) || !is_complete(type)) {
         assert(next_sse_reg >= 0 && next_sse_reg <= MAX_SSE_ARGS);
         emit_ir(INSTR_MOV, constant(next_sse_reg, 4), reg(AX, 4));
     }
diff --git a/src/parser/expression.c b/src/parser/expression.c
index a0ac810..d786bd1 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -192,9 +192,11 @@ static struct block *postfix(
                     consume(',');
                 }
             }
-            if (is_vararg(type)) {
+            if (is_vararg(type) || !is_complete(type)) {
                 while (peek() != ')') {
-                    consume(',');
+                    if (i) {
+                        consume(',');
+                    }
                     block = assignment_expression(def, block);
                     block->expr = eval_prepare_vararg(def, block, block->expr);
                     array_push_back(args, block->expr);
-- 
2.43.0


From b51f9cfaf2d55840fec70af51610e73c6d315687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 039/130] fix: accept differently qualified structs in
 conditional operator

---
 src/parser/eval.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index dbb1f18..4c12065 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1902,8 +1902,8 @@ INTERNAL Type eval_conditional_type(
         type = t2;
     } else if (is_void(t1) && is_void(t2)) {
         type = t1;
-    } else if (is_struct_or_union(t1) && type_equal(t1, t2)) {
-        type = t1;
+    } else if (is_struct_or_union(t1) && is_compatible_unqualified(t1, t2)) {
+        type = type_unqualified(t1);
     } else {
         error("Incompatible types (%t, %t) in conditional operator.", t1, t2);
         exit(1);
-- 
2.43.0


From c31995ce948f1a8d69fa326b3208fe01121ee64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 040/130] fix: give conditional with null pointer constant type
 of other operand

---
 src/parser/eval.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 4c12065..a9e92f0 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1883,7 +1883,11 @@ INTERNAL Type eval_conditional_type(
     } else if (is_pointer(t1) && is_pointer(t2)) {
         p1 = type_deref(t1);
         p2 = type_deref(t2);
-        if (is_compatible_unqualified(p1, p2) || is_void(p1)) {
+        if (is_void(p2) && is_nullptr(rval)) {
+            type = p1;
+        } else if (is_void(p1) && is_nullptr(lval)) {
+            type = p2;
+        } else if (is_compatible_unqualified(p1, p2) || is_void(p1)) {
             type = type_apply_qualifiers(p1, p2);
         } else if (is_void(p2)) {
             type = type_apply_qualifiers(p2, p1);
-- 
2.43.0


From a2449e8de336079523a1c7de060d434be65db3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 041/130] fix: receive old-style float parameters as double

---
 src/parser/declaration.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index ef00869..cd8627d 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -964,6 +964,7 @@ static struct block *make_parameters_visible(
 {
     int i;
     struct member *param;
+    struct symbol *sym;
 
     assert(def->symbol);
     assert(is_function(def->symbol->type));
@@ -981,7 +982,16 @@ static struct block *make_parameters_visible(
         assert(!is_type_placeholder(param->type));
         assert(!is_array(param->type));
         sym_make_visible(&ns_ident, param->sym);
-        array_push_back(&def->params, param->sym);
+        if (is_float(param->sym->type) && is_double(param->type)) {
+            /* Old-style parameters are passed as double. */
+            sym = sym_create_temporary(basic_type__double);
+            array_push_back(&def->params, sym);
+            array_push_back(&def->locals, param->sym);
+            eval_assign(
+                def, block, var_direct(param->sym), as_expr(var_direct(sym)));
+        } else {
+            array_push_back(&def->params, param->sym);
+        }
     }
 
     return block;
@@ -1079,7 +1089,8 @@ static struct block *init_declarator(
             sym->type = type_create_pointer(type_next(type));
         }
         if (param && is_type_placeholder(param->type)) {
-            ((struct member *) param)->type = sym->type;
+            ((struct member *) param)->type =
+                is_float(sym->type) ? basic_type__double : sym->type;
         } else {
             error("Invalid parameter declaration of %s.", str_raw(name));
             exit(1);
-- 
2.43.0


From 123c51007715437a48a4e0eaed2bd04048dcfe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 042/130] fix: accept function declarator without parameters
 before comma

---
 src/parser/declaration.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index cd8627d..325b02e 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1068,7 +1068,11 @@ static struct block *init_declarator(
         consume(STRING);
         asm_name = access_token(0)->d.string;
         consume(')');
-    } else if (is_function(type) && !is_complete(type) && peek() != ';') {
+    } else if (is_function(type)
+        && !is_complete(type)
+        && peek() != ';'
+        && peek() != ',')
+    {
         push_scope(&ns_ident);
         parent = parameter_declaration_list(def, parent, type);
         pop_scope(&ns_ident);
-- 
2.43.0


From f169da63484f6050966166de04bf10e8caf3138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 043/130] fix: accept old-style parameters of function type

---
 src/parser/declaration.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 325b02e..e46f993 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1041,6 +1041,11 @@ static struct block *init_declarator(
         return parent;
     }
 
+    if (is_function(type) && current_scope_depth(&ns_ident) == 1) {
+        /* Old-style parameter of function type. */
+        type = type_create_pointer(type);
+    }
+
     if (symtype == SYM_TYPEDEF) {
         /* */
     } else if (is_function(type)) {
-- 
2.43.0


From 3370ed63a04a0d67b757aecfa3a53fcb24630429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 044/130] fix: do not store register save area over saved
 registers

---
 src/backend/x86_64/compile.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index d6b8bd2..f7e3f04 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1853,7 +1853,7 @@ static void enter(struct definition *def)
         next_integer_reg = 1;
         return_address_offset = -8 - reg_offset;
         if (is_vararg(type)) {
-            return_address_offset = -176 - reg_offset;
+            return_address_offset = -176 - reg_offset - reg_offset % 16;
         }
     }
 
@@ -1863,10 +1863,11 @@ static void enter(struct definition *def)
      * there are 8 bytes for each of the 6 integer registers, and 16
      * bytes for each of the 8 SSE registers, for a total of 176 bytes.
      * If return type is MEMORY, the return address is automatically
-     * included in register spill area.
+     * included in register spill area. The area is placed below saved
+     * registers, and is aligned to 16 bytes.
      */
     if (is_vararg(type)) {
-        stack_offset = -176;
+        stack_offset = -176 - reg_offset % 16;
     }
 
     /*
@@ -1933,7 +1934,7 @@ static void enter(struct definition *def)
         vararg.gp_offset = 8*next_integer_reg;
         vararg.fp_offset = 8*MAX_INTEGER_ARGS + 16*next_sse_reg;
         vararg.overflow_arg_area_offset = mem_offset;
-        vararg.reg_save_area_offset = 0;
+        vararg.reg_save_area_offset = -reg_offset - reg_offset % 16;
         emit_rr(INSTR_TEST, reg(AX, 1), reg(AX, 1));
         emit_jcc(CC_E, addr(sym));
         for (i = 0; i < MAX_SSE_ARGS; ++i) {
-- 
2.43.0


From 1c3a533230de458bace4c71cea6bcea18298feb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 045/130] fix: align long double objects in the stack frame

---
 src/backend/x86_64/compile.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index f7e3f04..6df8ce7 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1624,7 +1624,8 @@ static int push_function_arguments(Type type, struct param_class respc)
 /*
  * Assign stack location to locals, writing sym->stack_offset.
  *
- * Round up to nearest eightbyte, making all variables aligned.
+ * Round up to nearest eightbyte, or to 16 bytes for types that require
+ * it, making all variables aligned.
  */
 static int allocate_locals(
     struct definition *def,
@@ -1668,6 +1669,11 @@ static int explicit_reg_constraint(String constraint, enum reg *reg)
     default: return 0;
     }
 
+            if (type_alignment(sym->type) > 8
+                && (stack_offset - reg_offset) % 16)
+            {
+                stack_offset -= 8;
+            }
     return 1;
 }
 
-- 
2.43.0


From 78239f9e8df098afc3c512b2f0ae33beef90f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 046/130] fix: classify structs by the alignment of members

---
 src/backend/x86_64/abi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/abi.c b/src/backend/x86_64/abi.c
index d87b27a..3815ed7 100644
--- a/src/backend/x86_64/abi.c
+++ b/src/backend/x86_64/abi.c
@@ -17,7 +17,7 @@ static int has_unaligned_fields(Type type)
     for (i = 0; i < nmembers(type); ++i) {
         mem = get_member(type, i);
         assert(size_of(mem->type));
-        if (mem->offset % size_of(mem->type)) {
+        if (mem->offset % type_alignment(mem->type)) {
             return 1;
         }
     }
-- 
2.43.0


From f4aea351e8afe0a4f39b0391fb78d66c0804805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 047/130] fix: skip padding eightbytes of structs passed in
 registers

---
 src/backend/x86_64/compile.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 6df8ce7..e016fe2 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1482,8 +1482,13 @@ static void move_to_from_registers(
             }
             if (toggle_load) {
                 var.type = slice_type(type, pc, i);
-                load(var, r);
             } else {
+                /* Only padding. */
+                assert(pc.eightbyte[i] == PC_NO_CLASS);
+                var.offset += 8;
+                continue;
+                load(var, r);
+            } else if (pc.eightbyte[i] == PC_SSE) {
                 store_slice(r, var, type, pc, i);
             }
             var.offset += 8;
@@ -2141,7 +2146,7 @@ static void compile__builtin_va_arg(struct var res, struct var args)
          *
          * Floating arguments to vararg is always double.
          */
-        while ((i = integer_regs_loaded + sse_regs_loaded) < n) {
+        for (i = 0; i < n; ++i) {
             switch (pc.eightbyte[i]) {
             case PC_INTEGER:
                 w = size_of(slice_type(res.type, pc, i));
@@ -2158,7 +2163,9 @@ static void compile__builtin_va_arg(struct var res, struct var args)
                 store_slice(XMM0, slice, res.type, pc, i);
                 sse_regs_loaded++;
                 break;
-            default: assert(0);
+            default:
+                assert(pc.eightbyte[i] == PC_NO_CLASS);
+                break;
             }
 
             slice.offset += 8;
-- 
2.43.0


From f3d271b8ac2a2400de87496bb774521ba79d0cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 048/130] fix: align memory arguments of 16 byte aligned types

---
 src/backend/x86_64/compile.c | 57 ++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index e016fe2..8a2f2ed 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -34,6 +34,9 @@ static struct {
 /* Store incoming PARAM operations before CALL. */
 static array_of(struct var) func_args;
 
+/* Offset from stack pointer of arguments passed in memory. */
+static array_of(int) func_args_offset;
+
 /*
  * Use callee-saved registers %rbx, %r12, %r13, %r14 and %r15 for
  * temporary integer values.
@@ -1477,18 +1480,18 @@ static void move_to_from_registers(
         for (i = 0; i < n; ++i) {
             if (pc.eightbyte[i] == PC_INTEGER) {
                 r = *intregs++;
-            } else {
+            } else if (pc.eightbyte[i] == PC_SSE) {
                 r = *sseregs++;
-            }
-            if (toggle_load) {
-                var.type = slice_type(type, pc, i);
             } else {
                 /* Only padding. */
                 assert(pc.eightbyte[i] == PC_NO_CLASS);
                 var.offset += 8;
                 continue;
+            }
+            if (toggle_load) {
+                var.type = slice_type(type, pc, i);
                 load(var, r);
-            } else if (pc.eightbyte[i] == PC_SSE) {
+            } else {
                 store_slice(r, var, type, pc, i);
             }
             var.offset += 8;
@@ -1522,6 +1525,16 @@ static void store_object_from_registers(
     move_to_from_registers(var, pc, intregs, sseregs, 0);
 }
 
+/*
+ * Offset of next object of given type in the area of arguments passed
+ * on the stack. Objects are aligned to eightbytes, or to 16 bytes if
+ * the type requires it.
+ */
+static int align_memory_argument(int offset, Type type)
+{
+    return type_alignment(type) > 8 ? (offset + 15) / 16 * 16 : offset;
+}
+
 /*
  * Push arguments from previous IR_PARAM statements, which are buffered
  * in static array. Assign parameter class to arguments; using registers
@@ -1534,7 +1547,7 @@ static void store_object_from_registers(
  */
 static int push_function_arguments(Type type, struct param_class respc)
 {
-    int i, n;
+    int i, n, offset;
     int next_integer_reg = 0,
         next_sse_reg = 0,
         mem_used = 0,
@@ -1562,19 +1575,21 @@ static int push_function_arguments(Type type, struct param_class respc)
             argpc[register_args].pc = pc;
             argpc[register_args].i = i;
             register_args++;
+            array_push_back(&func_args_offset, mem_used);
         } else {
+            mem_used = align_memory_argument(mem_used, arg.type);
+            array_push_back(&func_args_offset, mem_used);
             mem_used += 8*EIGHTBYTES(arg.type);
         }
     }
 
     /*
      * Make sure stack is aligned to 16 byte after pushing all memory
-     * arguments. Insert padding if necessary.
+     * arguments. Padding is inserted below, where necessary.
      */
     if (mem_used % 16) {
         mem_used += 8;
         assert((mem_used % 16) == 0);
-        emit_ir(INSTR_SUB, constant(8, 8), reg(SP, 8));
     }
 
     /*
@@ -1583,11 +1598,18 @@ static int push_function_arguments(Type type, struct param_class respc)
      * the pushing. Reverse traversal in register class list to filter
      * out non-memory arguments.
      */
+    offset = mem_used;
     for (i = array_len(&func_args) - 1, n = register_args - 1; i >= 0; --i) {
         if (n >= 0 && argpc[n].i == i) {
             n--;
         } else {
             arg = array_get(&func_args, i);
+            offset -= 8*EIGHTBYTES(arg.type);
+            if (offset != array_get(&func_args_offset, i)) {
+                offset -= 8;
+                assert(offset == array_get(&func_args_offset, i));
+                emit_ir(INSTR_SUB, constant(8, 8), reg(SP, 8));
+            }
             push(arg);
         }
     }
@@ -1623,6 +1645,7 @@ static int push_function_arguments(Type type, struct param_class respc)
     }
 
     array_empty(&func_args);
+    array_empty(&func_args_offset);
     return mem_used;
 }
 
@@ -1646,6 +1669,11 @@ static int allocate_locals(
         assert(sym->symtype == SYM_DEFINITION);
         if (sym->linkage == LINK_NONE && sym->slot == 0 && !is_vla(sym->type)) {
             stack_offset -= EIGHTBYTES(sym->type) * 8;
+            if (type_alignment(sym->type) > 8
+                && (stack_offset - reg_offset) % 16)
+            {
+                stack_offset -= 8;
+            }
             sym->stack_offset = stack_offset - reg_offset;
         }
     }
@@ -1674,11 +1702,6 @@ static int explicit_reg_constraint(String constraint, enum reg *reg)
     default: return 0;
     }
 
-            if (type_alignment(sym->type) > 8
-                && (stack_offset - reg_offset) % 16)
-            {
-                stack_offset -= 8;
-            }
     return 1;
 }
 
@@ -1899,6 +1922,7 @@ static void enter(struct definition *def)
             stack_offset -= n * 8;
             sym->stack_offset = stack_offset - reg_offset;
         } else {
+            mem_offset = align_memory_argument(mem_offset, sym->type);
             sym->stack_offset = mem_offset;
             mem_offset += n * 8;
         }
@@ -2206,6 +2230,11 @@ static void compile__builtin_va_arg(struct var res, struct var args)
      * do not fit in remaining registers.
      */
     load(overflow_arg_area, SI);
+    if (type_alignment(res.type) > 8) {
+        emit_ir(INSTR_ADD, constant(15, 8), reg(SI, 8));
+        emit_ir(INSTR_AND, constant(-16, 8), reg(SI, 8));
+        store(SI, overflow_arg_area);
+    }
     w = size_of(res.type);
     if (is_standard_register_width(w) && res.kind == DIRECT) {
         if ((ax = allocated_register(res)) != 0) {
@@ -3544,6 +3573,7 @@ INTERNAL int declare(const struct symbol *sym)
 INTERNAL void flush(void)
 {
     array_empty(&func_args);
+    array_empty(&func_args_offset);
     if (flush_backend) {
         flush_backend();
     }
@@ -3556,6 +3586,7 @@ INTERNAL void flush(void)
 INTERNAL void finalize(void)
 {
     array_clear(&func_args);
+    array_clear(&func_args_offset);
     if (finalize_backend) {
         finalize_backend();
     }
-- 
2.43.0


From adc2d1ae5ca7c6810fccea5b9dfd7f15197c5541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 049/130] fix: merge classes of nested structs on their own

---
 src/backend/x86_64/abi.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/abi.c b/src/backend/x86_64/abi.c
index 3815ed7..bb2ec39 100644
--- a/src/backend/x86_64/abi.c
+++ b/src/backend/x86_64/abi.c
@@ -37,6 +37,8 @@ static unsigned char combine(unsigned char a, unsigned char b)
     return PC_SSE;
 }
 
+static struct param_class merge(struct param_class pc, int n);
+
 static struct param_class flatten(
     struct param_class pc,
     Type type,
@@ -45,6 +47,7 @@ static struct param_class flatten(
     int i = offset / 8;
     Type next;
     const struct member *mb;
+    struct param_class sub = {PC_NO_CLASS};
 
     switch (type_of(type)) {
     default: assert(0);
@@ -70,7 +73,11 @@ static struct param_class flatten(
     case T_UNION:
         for (i = 0; i < nmembers(type); ++i) {
             mb = get_member(type, i);
-            pc = flatten(pc, mb->type, mb->offset + offset);
+            sub = flatten(sub, mb->type, mb->offset + offset);
+        }
+        sub = merge(sub, 2);
+        for (i = 0; i < 4; ++i) {
+            pc.eightbyte[i] = combine(pc.eightbyte[i], sub.eightbyte[i]);
         }
         break;
     case T_ARRAY:
-- 
2.43.0


From ad7d6adaa5108b0ce4298ae65076a31b522f5f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 050/130] fix: continue array initializer after designator of
 lower index

---
 src/parser/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index 6923dc0..0d468a8 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -489,7 +489,7 @@ static struct block *initialize_array(
             i += 1;
             c = i > c ? i : c;
             if (has_next_array_element(state, &is_designator)) {
-                if (!is_designator && count && c >= count)
+                if (!is_designator && count && i >= count)
                     break;
                 consume(',');
             } else break;
-- 
2.43.0


From 427607182e3ad5c3e2fe0e5f6817f77c6c1741ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 051/130] fix: elements after union without braces in
 initializers

---
 src/parser/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index 0d468a8..d59747a 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -297,7 +297,7 @@ static struct block *initialize_struct(
             if (i >= m)
                 break;
         }
-    } while (next_element(state));
+    } while (peek() == ',' && peekn(2) == '.' && next_element(state));
 
     return block;
 }
-- 
2.43.0


From f2f7d7a5e61fb53b68d12dcb256b0bed8e278d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 052/130] fix: array designators after nested struct
 designators

---
 src/parser/initializer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index d59747a..45c265f 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -140,6 +140,7 @@ static int next_element(enum current_object_state state)
             if (state != CURRENT) {
                 break;
             }
+        case '[':
         default:
             next();
             return 1;
-- 
2.43.0


From 8c77fde87bf39f94733178340feabf5bb0365bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 053/130] fix: override objects initialized again by
 designators, and continue after the last member

---
 src/parser/initializer.c | 114 ++++++++++++++++++++++++++++-----------
 1 file changed, 83 insertions(+), 31 deletions(-)

diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index 45c265f..a58ca7e 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -57,6 +57,9 @@ INTERNAL void initializer_finalize(void)
     array_clear(&inititializer_lists);
 }
 
+/* Elements can be initialized more than once only with designators. */
+static int has_designator;
+
 static struct block *initialize_member(
     struct definition *def,
     struct block *block,
@@ -137,10 +140,10 @@ static int next_element(enum current_object_state state)
         case '}':
             break;
         case '.':
+        case '[':
             if (state != CURRENT) {
                 break;
             }
-        case '[':
         default:
             next();
             return 1;
@@ -178,6 +181,40 @@ static const struct member *get_named_member(
     return member;
 }
 
+static size_t bit_offset(struct var var)
+{
+    return var.offset * 8 + var.field_offset;
+}
+
+static size_t bit_size(struct var var)
+{
+    return var.field_width ? var.field_width : size_of(var.type) * 8;
+}
+
+/*
+ * Remove assignments overlapping with target, as they are overridden by
+ * later initialization of the same object.
+ */
+static void remove_overridden_assignments(
+    InitializerList *values,
+    struct var target)
+{
+    int i;
+    struct var t;
+
+    if (!has_designator)
+        return;
+
+    for (i = array_len(values) - 1; i >= 0; --i) {
+        t = array_get(values, i).t;
+        if (bit_offset(t) < bit_offset(target) + bit_size(target)
+            && bit_offset(target) < bit_offset(t) + bit_size(t))
+        {
+            array_erase(values, i);
+        }
+    }
+}
+
 /*
  * Initialize the first union member, or the last member specified by a
  * designator.
@@ -186,8 +223,7 @@ static const struct member *get_named_member(
  * there is padding, the remaining memory is undefined.
  *
  * With designators, there can be arbitrary many member initializers,
- * but only the last one should count. Evaluate each member in its own
- * block to cleanly reset.
+ * but only the last one should count.
  *
  *     union {
  *         struct { int x, y; } p;
@@ -206,20 +242,22 @@ static struct block *initialize_union(
 {
     int done;
     size_t filled;
-    InitializerList init;
-    const struct member *member;
+    const struct member *member, *prev;
+    struct var object;
     Type type;
     String name;
 
     done = 0;
+    prev = NULL;
+    object = target;
     filled = target.offset;
     type = target.type;
-    init = get_initializer_list();
     assert(is_union(type));
     assert(nmembers(type) > 0);
 
     do {
         if (try_consume('.')) {
+            has_designator = 1;
             consume(IDENTIFIER);
             name = access_token(0)->d.string;
             member = get_named_member(type, name, NULL);
@@ -231,23 +269,38 @@ static struct block *initialize_union(
             member = get_member(type, 0);
             target = access_member(target, member, filled);
         } else break;
-        array_empty(&init);
-        block = initialize_member(def, block, &init, target);
+        if (prev && prev != member) {
+            remove_overridden_assignments(values, object);
+        }
+        block = initialize_member(def, block, values, target);
+        prev = member;
         done = 1;
-    } while (next_element(state));
+    } while (peek() == ',' && peekn(2) == '.' && next_element(state));
 
-    array_concat(values, &init);
-    release_initializer_block(init);
     return block;
 }
 
 /*
- * Initialize members of a struct.
- *
  * Members of structs can have overlapping offsets from anonymous union
  * fields. Act as if only the first element is initialized by skipping
  * all consecutive elements with the same offset.
  */
+static int next_member_index(Type type, int i)
+{
+    const struct member *prev, *member;
+
+    prev = get_member(type, i);
+    while (++i < nmembers(type)) {
+        member = get_member(type, i);
+        if (prev->offset != member->offset
+            || prev->field_offset != member->field_offset)
+            break;
+    }
+
+    return i;
+}
+
+/* Initialize members of a struct. */
 static struct block *initialize_struct(
     struct definition *def,
     struct block *block,
@@ -259,9 +312,8 @@ static struct block *initialize_struct(
     size_t filled;
     Type type;
     String name;
-    const struct member *member, *prev;
+    const struct member *member;
 
-    prev = NULL;
     target.lvalue = 1;
     filled = target.offset;
     type = target.type;
@@ -273,6 +325,7 @@ static struct block *initialize_struct(
 
     do {
         if (!block->has_init_value && try_consume('.')) {
+            has_designator = 1;
             consume(IDENTIFIER);
             name = access_token(0)->d.string;
             member = get_named_member(type, name, &i);
@@ -280,25 +333,16 @@ static struct block *initialize_struct(
             if (peek() == '=') {
                 next();
             }
-            block = initialize_member(def, block, values, target);
-            prev = member;
-            i += 1;
         } else {
-            while (1) {
-                member = get_member(type, i);
-                i += 1;
-                if (!prev
-                    || prev->offset != member->offset
-                    || prev->field_offset != member->field_offset)
-                    break;
-            }
-            prev = member;
+            member = get_member(type, i);
             target = access_member(target, member, filled);
-            block = initialize_member(def, block, values, target);
-            if (i >= m)
-                break;
         }
-    } while (peek() == ',' && peekn(2) == '.' && next_element(state));
+
+        block = initialize_member(def, block, values, target);
+        i = next_member_index(type, i);
+        if (i >= m && (peek() != ',' || peekn(2) != '.'))
+            break;
+    } while (next_element(state));
 
     return block;
 }
@@ -320,6 +364,7 @@ static struct var assign_initializer_element(
     assert(target.kind == DIRECT);
     assert(block->has_init_value);
 
+    remove_overridden_assignments(values, target);
     t = eval_assign(def, block, target, block->expr);
     st = array_pop_back(&def->statements);
     assert(st.st == IR_ASSIGN);
@@ -400,6 +445,7 @@ static int try_parse_index(size_t *index)
     struct var num;
 
     if (try_consume('[')) {
+        has_designator = 1;
         num = constant_expression();
         if (!is_integer(num.type)) {
             error("Array designator must have integer value.");
@@ -516,6 +562,7 @@ static struct block *initialize_member(
 
     if (is_struct_or_union(target.type)) {
         if (!block->has_init_value && try_consume('{')) {
+            remove_overridden_assignments(values, target);
             block = initialize_struct_or_union(def, block, values, target, CURRENT);
             try_consume(',');
             consume('}');
@@ -528,6 +575,7 @@ static struct block *initialize_member(
             exit(1);
         }
         if (!block->has_init_value && try_consume('{')) {
+            remove_overridden_assignments(values, target);
             block = initialize_array(def, block, values, target, CURRENT);
             try_consume(',');
             consume('}');
@@ -964,12 +1012,16 @@ INTERNAL struct block *initializer(
     struct block *block,
     const struct symbol *sym)
 {
+    int outer;
     InitializerList values;
     struct var target = var_direct(sym);
 
     if (peek() == '{' || is_array(sym->type)) {
+        outer = has_designator;
+        has_designator = 0;
         values = get_initializer_list();
         block = initialize_object(def, block, &values, target);
+        has_designator = outer;
         postprocess_object_initialization(def, &values, target);
         array_concat(&def->statements, &values);
         block->count += array_len(&values);
-- 
2.43.0


From b7aa8132119cd302e546e88bd522c604eddb91c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 054/130] fix: give common symbols the same alignment in
 assembly output

---
 src/backend/x86_64/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/assemble.c b/src/backend/x86_64/assemble.c
index 7d8c12b..160b4ea 100644
--- a/src/backend/x86_64/assemble.c
+++ b/src/backend/x86_64/assemble.c
@@ -203,7 +203,7 @@ INTERNAL int asm_symbol(const struct symbol *sym)
         if (!context.no_common) {
             if (sym->linkage == LINK_INTERN)
                 out("\t.local\t%s\n", name);
-            out("\t.comm\t%s,%lu,%lu\n", name, size, type_alignment(sym->type));
+            out("\t.comm\t%s,%lu,%d\n", name, size, sym_alignment(sym));
             break;
         }
     case SYM_DEFINITION:
-- 
2.43.0


From 295d13261c5581806f21cee80054c6d3f87f4d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 055/130] fix: keep distinct tokens apart in preprocessed
 output

---
 src/preprocessor/preprocess.c | 70 +++++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index 0478761..6c9f726 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -664,6 +664,71 @@ INTERNAL void consume(enum token_type type)
 
     switch (type) {
     case IDENTIFIER:
+/*
+ * Determine whether tokens, which are not separated by whitespace, would
+ * be read as something else if printed next to each other.
+ */
+static int need_separation(struct token a, struct token b)
+{
+    int n;
+    size_t len;
+    char buf[8];
+    String s;
+    const char *endptr;
+
+    switch (a.token) {
+    case END:
+    case NEWLINE:
+    case STRING:
+    case PREP_STRING:
+    case PREP_CHAR:
+        return 0;
+    }
+
+    switch (b.token) {
+    case NEWLINE:
+    case STRING:
+    case PREP_STRING:
+    case PREP_CHAR:
+        return 0;
+    }
+
+    s = b.d.string;
+    if (a.is_expandable) {
+        return b.is_expandable
+            || (b.token == PREP_NUMBER && str_raw(s)[0] != '.');
+    } else if (a.token == PREP_NUMBER) {
+        switch (b.token) {
+        case PREP_NUMBER:
+        case '.':
+        case DOTS:
+            return 1;
+        case '+':
+        case '-':
+        case INCREMENT:
+        case DECREMENT:
+        case PLUS_ASSIGN:
+        case MINUS_ASSIGN:
+        case ARROW:
+            len = str_len(a.d.string);
+            return strchr("eEpP", str_raw(a.d.string)[len - 1]) != NULL;
+        default:
+            return b.is_expandable;
+        }
+    } else if (a.token == '/' && (b.token == '/' || b.token == '*'
+        || b.token == MUL_ASSIGN || b.token == DIV_ASSIGN))
+    {
+        return 1;
+    } else if (a.token == '.') {
+        return b.token == '.' || b.token == DOTS || b.token == PREP_NUMBER;
+    }
+
+    /* All remaining punctuators have at most three characters. */
+    n = sprintf(buf, "%.3s%.1s", str_raw(a.d.string), str_raw(s));
+    tokenize(buf, &endptr);
+    return endptr == buf + n;
+}
+
         str = "identifier";
         break;
     case NUMBER:
@@ -724,3 +789,8 @@ INTERNAL void preprocess(FILE *output)
         }
     }
 }
+        prev = *t;
+
+        } else if (need_separation(prev, *t)) {
+            putc(' ', output);
+    struct token prev = {0};
-- 
2.43.0


From e65c9fbe523e474d9dd60c09d54b481138822786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 056/130] fix: rescan macro expansions with the tokens
 following them

---
 src/preprocessor/directive.c  |  25 +++-
 src/preprocessor/macro.c      | 234 +++++++++++++++++++------------
 src/preprocessor/macro.h      |   8 +-
 src/preprocessor/preprocess.c | 255 +++++++++++++++-------------------
 4 files changed, 290 insertions(+), 232 deletions(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index 3b0a1ff..8a5e5d8 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -632,7 +632,7 @@ static void preprocess_include(TokenArray *line)
             break;
         }
         if (!exp) {
-            expand(line);
+            expand(line, 0);
         } else {
             error("Invalid include directive.");
             exit(1);
@@ -648,7 +648,7 @@ static struct macro preprocess_define(
     struct macro macro = {0};
     struct token param = {PARAM}, t;
     TokenArray params = get_token_array();
-    int i;
+    int i, stringify = 0, paste = 0;
 
     t = *line++;
     if (!t.is_expandable) {
@@ -687,6 +687,10 @@ static struct macro preprocess_define(
     }
 
     macro.params = array_len(&params);
+    if (line->token == TOKEN_PASTE) {
+        error("Unexpected '##' operator at beginning of line.");
+        exit(1);
+    }
 
     while (line->token != NEWLINE) {
         assert(line->token != END);
@@ -700,13 +704,28 @@ static struct macro preprocess_define(
             }
         }
         if (param.d.val.i != -1) {
+            param.leading_whitespace = line->leading_whitespace;
             array_push_back(&macro.replacement, param);
         } else {
+            if (stringify) {
+                error("Stray '#' in replacement list.");
+                exit(1);
+            }
             array_push_back(&macro.replacement, *line);
         }
+        stringify = macro.type == FUNCTION_LIKE && line->token == '#';
+        paste = line->token == TOKEN_PASTE;
         line++;
     }
 
+    if (stringify) {
+        error("Stray '#' in replacement list.");
+        exit(1);
+    } else if (paste) {
+        error("Unexpected '##' operator at end of line.");
+        exit(1);
+    }
+
     *endptr = line;
     release_token_array(params);
     return macro;
@@ -762,7 +781,7 @@ INTERNAL void preprocess_directive(TokenArray *array)
         || !tok_cmp(*line, ident__elif)
         || (in_active_block() && !tok_cmp(*line, ident__line)))
     {
-        expand(array);
+        expand(array, 0);
         line = array->data;
     }
 
diff --git a/src/preprocessor/macro.c b/src/preprocessor/macro.c
index 254a76f..d994fe8 100644
--- a/src/preprocessor/macro.c
+++ b/src/preprocessor/macro.c
@@ -320,6 +320,29 @@ static void array_replace_slice(
     list->length = length;
 }
 
+/*
+ * Append operand of ## to list. Parameters are replaced by the argument
+ * as written, or by a placemarker (END) if there are no tokens.
+ */
+static void push_paste_operand(
+    TokenArray *list,
+    TokenArray *args,
+    struct token t)
+{
+    int i;
+
+    if (t.token != PARAM) {
+        array_push_back(list, t);
+    } else if (!array_len(&args[t.d.val.i])) {
+        t.token = END;
+        array_push_back(list, t);
+    } else {
+        i = array_len(list);
+        array_concat(list, &args[t.d.val.i]);
+        array_get(list, i).leading_whitespace = t.leading_whitespace;
+    }
+}
+
 /*
  * Replacing # <param> and <a> ## <b> is done in an initial scan of
  * the replacement list. This pass requires the parameters to not be
@@ -343,91 +366,95 @@ static TokenArray expand_stringify_and_paste(
     const struct macro *def,
     TokenArray *args)
 {
-    int len, d, i;
+    int len, d, i, ws;
     struct token t, s;
     TokenArray list = get_token_array();
 
     len = array_len(&def->replacement);
-    if (len && array_get(&def->replacement, 0).token == TOKEN_PASTE) {
-        error("Unexpected '##' operator at beginning of line.");
-        exit(1);
-    } else if (len > 2) {
-        if (array_get(&def->replacement, len - 1).token == TOKEN_PASTE) {
-            error("Unexpected '##' operator at end of line.");
-            exit(1);
-        }
-    }
-
     for (i = 0; i < len; ++i) {
         t = array_get(&def->replacement, i);
-        switch (t.token) {
-        case TOKEN_PASTE:
-            i += 1;
+        if (t.token == TOKEN_PASTE) {
             t = array_back(&list);
-            s = array_get(&def->replacement, i);
-            if (t.token == PARAM) {
-                (void) array_pop_back(&list);
-                if (!array_len(&args[t.d.val.i])) {
-                    if (s.token == PARAM) {
-                        array_concat(&list, &args[s.d.val.i]);
-                    } else {
-                        array_push_back(&list, s);
-                    }
-                    break;
+            s = array_get(&def->replacement, ++i);
+            if (s.token == PARAM
+                && t.token == ','
+                && def->is_vararg
+                && s.d.val.i == def->params - 1)
+            {
+                if (array_len(&args[s.d.val.i])) {
+                    array_push_back(&list, s);
                 } else {
-                    array_concat(&list, &args[t.d.val.i]);
-                    t = array_back(&list);
+                    (void) array_pop_back(&list);
                 }
+                continue;
             }
-            if (s.token == PARAM) {
-                if (def->is_vararg
-                    && t.token == ','
-                    && s.d.val.i == def->params - 1)
-                {
-                    if (array_len(&args[s.d.val.i])) {
-                        i--;
-                    } else {
-                        (void) array_pop_back(&list);
-                    }
-                } else if (array_len(&args[s.d.val.i])) {
-                    t = array_pop_back(&list);
-                    d = array_len(&list);
-                    array_concat(&list, &args[s.d.val.i]);
-                    s = array_get(&args[s.d.val.i], 0);
-                    t = paste(t, s);
-                    array_get(&list, d) = t;
-                }
+            d = array_len(&list);
+            if (s.token == '#' && def->type == FUNCTION_LIKE) {
+                s = array_get(&def->replacement, ++i);
+                s = stringify(&args[s.d.val.i]);
+                array_push_back(&list, s);
             } else {
-                t = paste(t, s);
-                array_back(&list) = t;
+                push_paste_operand(&list, args, s);
             }
-            break;
-        case '#':
-            i += 1;
-            if (peek_token(&def->replacement, i) == PARAM) {
-                d = array_get(&def->replacement, i).d.val.i;
-                t = stringify(&args[d]);
-                array_push_back(&list, t);
-            } else {
-                error("Stray '#' in replacement list.");
-                exit(1);
+            s = array_get(&list, d);
+            if (t.token == END) {
+                ws = t.leading_whitespace;
+                t = s;
+                t.leading_whitespace = ws;
+            } else if (s.token != END) {
+                t = paste(t, s);
             }
-            break;
-        default:
+            array_get(&list, d - 1) = t;
+            array_erase(&list, d);
+        } else if (t.token == '#' && def->type == FUNCTION_LIKE) {
+            s = array_get(&def->replacement, ++i);
+            s = stringify(&args[s.d.val.i]);
+            s.leading_whitespace = t.leading_whitespace;
+            array_push_back(&list, s);
+        } else if (peek_token(&def->replacement, i + 1) == TOKEN_PASTE) {
+            push_paste_operand(&list, args, t);
+        } else {
             array_push_back(&list, t);
-            break;
+        }
+    }
+
+    for (i = 0; i < array_len(&list); ++i) {
+        if (array_get(&list, i).token == END) {
+            array_erase(&list, i);
+            i--;
         }
     }
 
     return list;
 }
 
-static int expand_line(ExpandStack *scope, TokenArray *list);
+static int expand_line(ExpandStack *scope, TokenArray *list, int start);
+
+static int contains_param(const TokenArray *list, int n)
+{
+    int i;
+    struct token t;
 
+    for (i = 0; i < array_len(list); ++i) {
+        t = array_get(list, i);
+        if (t.token == PARAM && t.d.val.i == n) {
+            return 1;
+        }
+    }
+
+    return 0;
+}
+
+/*
+ * Replace invocation of macro. Scanning of the result is complete up to
+ * the position returned through end. Tokens from there on can start an
+ * invocation which includes tokens following it.
+ */
 static TokenArray expand_macro(
     ExpandStack *scope,
     const struct macro *def,
-    TokenArray *args)
+    TokenArray *args,
+    int *end)
 {
     int i, j;
     struct token t;
@@ -437,11 +464,8 @@ static TokenArray expand_macro(
     if (def->params > 0) {
         assert(def->type == FUNCTION_LIKE);
         for (i = 0; i < def->params; ++i) {
-            expand(&args[i]);
-            if (array_len(&args[i])) {
-                if (!array_get(&args[i], 0).leading_whitespace) {
-                    array_get(&args[i], 0).leading_whitespace = 1;
-                }
+            if (contains_param(&list, i)) {
+                expand_line(scope, &args[i], 0);
             }
         }
 
@@ -454,6 +478,8 @@ static TokenArray expand_macro(
                     i--;
                 } else {
                     array_replace_slice(&list, i, 1, &args[j]);
+                    array_get(&list, i).leading_whitespace
+                        = t.leading_whitespace;
                 }
             }
         }
@@ -463,7 +489,9 @@ static TokenArray expand_macro(
         free(args);
     }
 
-    expand_line(scope, &list);
+    array_push_back(scope, def->name);
+    *end = expand_line(scope, &list, 0);
+    (void) array_pop_back(scope);
     return list;
 }
 
@@ -564,15 +592,45 @@ static TokenArray *read_args(
     return args;
 }
 
-static int expand_line(ExpandStack *scope, TokenArray *list)
+/* Determine whether list has all arguments of invocation at position. */
+static int is_complete_invocation(const TokenArray *list, int i)
 {
-    int size, i, n;
+    int nesting = 0;
+
+    assert(array_get(list, i).token == '(');
+    for (; i < array_len(list); ++i) {
+        switch (array_get(list, i).token) {
+        case '(':
+            nesting++;
+            break;
+        case ')':
+            nesting--;
+            if (!nesting) {
+                return 1;
+            }
+        default:
+            break;
+        }
+    }
+
+    return 0;
+}
+
+/*
+ * Expand all macro invocations from start. Stop on an invocation which
+ * may be completed by tokens following the list, and return its
+ * position. Otherwise, return length of the list.
+ */
+static int expand_line(ExpandStack *scope, TokenArray *list, int start)
+{
+    int size, i, j, end;
     struct token t;
+    enum token_type next;
     const struct macro *def;
     const struct token *endptr;
     TokenArray *args, expn;
 
-    for (n = 0, i = 0; i < array_len(list); ++i) {
+    for (i = start; i < array_len(list); ++i) {
         t = array_get(list, i);
         if (!t.is_expandable || t.disable_expand) {
             continue;
@@ -588,18 +646,19 @@ static int expand_line(ExpandStack *scope, TokenArray *list)
         }
 
         /* Only expand if next token is '(' */
-        if (def->type == FUNCTION_LIKE
-            && (i == array_len(list) - 1
-                || array_get(list, i + 1).token != '('))
-        {
-            continue;
+        if (def->type == FUNCTION_LIKE) {
+            next = peek_token(list, i + 1);
+            if (next == END || next == NEWLINE)
+                break;
+            if (next != '(')
+                continue;
+            if (!is_complete_invocation(list, i + 1))
+                break;
         }
 
         args = read_args(scope, def, list->data + i + 1, &endptr);
-        array_push_back(scope, def->name);
-        expn = expand_macro(scope, def, args);
         size = (endptr - list->data) - i;
-        (void) array_pop_back(scope);
+        expn = expand_macro(scope, def, args, &end);
 
         /* Fix leading whitespace after expansion. */
         if (array_len(&expn)) {
@@ -608,22 +667,27 @@ static int expand_line(ExpandStack *scope, TokenArray *list)
 
         /* Squeeze in expansion in list. */
         array_replace_slice(list, i, size, &expn);
-        i += array_len(&expn) - 1;
+        i += end - 1;
         release_token_array(expn);
-        n += 1;
     }
 
-    return n;
+    for (j = i; j < array_len(list); ++j) {
+        t = array_get(list, j);
+        if (t.is_expandable && is_expanded(scope, t.d.string)) {
+            array_get(list, j).disable_expand = 1;
+        }
+    }
+
+    return i;
 }
 
-INTERNAL int expand(TokenArray *list)
+INTERNAL int expand(TokenArray *list, int start)
 {
-    int n;
     ExpandStack stack = get_expand_stack();
 
-    n = expand_line(&stack, list);
+    start = expand_line(&stack, list, start);
     release_expand_stack(stack);
-    return n;
+    return start;
 }
 
 INTERNAL int tok_cmp(struct token a, struct token b)
diff --git a/src/preprocessor/macro.h b/src/preprocessor/macro.h
index f661ee8..d6e48b7 100644
--- a/src/preprocessor/macro.h
+++ b/src/preprocessor/macro.h
@@ -70,10 +70,12 @@ INTERNAL void undef(String name);
 INTERNAL const struct macro *macro_definition(String name);
 
 /*
- * Expand a list of tokens, replacing any macro definitions. Mutates
- * input list as necessary. Return non-zero if any macro was expanded.
+ * Expand a list of tokens from position start, replacing any macro
+ * definitions. Mutates input list as necessary. Return position of a
+ * function-like macro invocation that lacks tokens following the list,
+ * or length of the list if there is none.
  */
-INTERNAL int expand(TokenArray *list);
+INTERNAL int expand(TokenArray *list, int start);
 
 /*
  * Compare tokens for equality, returing 0 iff of same type and value.
diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index 6c9f726..317afaa 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -112,29 +112,56 @@ static void read_Pragma_invocation(TokenArray *line)
     }
 }
 
+/*
+ * Determine whether the next token is an open parenthesis. Look at the
+ * lines following if nothing is left on the current line, unless in a
+ * directive, which ends with the line.
+ */
+static int is_next_paren(int directive)
+{
+    const char *endptr;
+
+    while (1) {
+        if (!line_buffer) {
+            if (directive || (line_buffer = getprepline()) == NULL) {
+                return 0;
+            }
+        }
+        endptr = line_buffer;
+        while (isspace((unsigned char) *endptr)) {
+            endptr++;
+        }
+        if (*endptr || directive) {
+            return *endptr == '(';
+        }
+        line_buffer = NULL;
+    }
+}
+
 /*
  * Keep track of the nesting depth of macro arguments. For example;
  * MAX( MAX(10, 12), 20 ) should complete on the last parenthesis, which
  * makes the expression balanced. Read lines until full macro invocation
  * is included.
+ *
+ * Only expand function-like macros if they appear as function
+ * invocations, beginning with an open paranthesis.
  */
-static void read_macro_invocation(TokenArray *line, const struct macro *macro)
+static void read_macro_invocation(
+    TokenArray *line,
+    const struct macro *macro,
+    int directive)
 {
-    int nesting;
+    int nesting, newline;
     struct token t;
     assert(macro->type == FUNCTION_LIKE);
 
-    t = get_token();
-    array_push_back(line, t);
-    if (t.token != '(')
-        /*
-         * Only expand function-like macros if they appear as function
-         * invocations, beginning with an open paranthesis.
-         */
+    if (!is_next_paren(directive))
         return;
 
-    nesting = 1;
-    while (nesting) {
+    nesting = 0;
+    newline = 0;
+    do {
         t = get_token();
         if (t.token == '(') {
             nesting++;
@@ -143,22 +170,26 @@ static void read_macro_invocation(TokenArray *line, const struct macro *macro)
             assert(nesting);
             nesting--;
         }
+        if (t.token == END || (t.token == NEWLINE && directive)) {
+            error("Unbalanced invocation of macro '%s'.",
+                str_raw(macro->name));
+            exit(1);
+        }
         if (t.token == NEWLINE) {
             /*
              * This is the only scenario where reading a line is not
              * enough. Macro invocations can span lines, and we want to
              * have everything in the same token list.
              */
+            newline = 1;
             continue;
         }
-        assert(t.token != END);
+        if (newline && !t.leading_whitespace) {
+            t.leading_whitespace = 1;
+        }
+        newline = 0;
         array_push_back(line, t);
-    }
-
-    if (nesting) {
-        error("Unbalanced invocation of macro '%s'.", str_raw(macro->name));
-        exit(1);
-    }
+    } while (nesting);
 }
 
 /* Replace 'defined name' and 'defined (name)' with 0 or 1 constants. */
@@ -194,61 +225,6 @@ static void read_defined_operator(TokenArray *line)
     }
 }
 
-/*
- * Get token at position i of existing line, or add new token from input
- * stream to line at posistion. Overwrite the trailing newline.
- */
-static struct token skip_or_get_token(TokenArray *line, int i)
-{
-    struct token t;
-
-    if (i == array_len(line) - 1) {
-        t = array_get(line, i);
-        if (t.token == NEWLINE) {
-            (void) array_pop_back(line);
-        }
-    }
-
-    if (i == array_len(line)) {
-        do {
-            t = get_token();
-        } while (t.token == NEWLINE);
-        assert(t.token != END);
-        array_push_back(line, t);
-    } else {
-        assert(i >= 0);
-        assert(i < array_len(line));
-        t = array_get(line, i);
-    }
-
-    return t;
-}
-
-/*
- * Make sure expanded token list contains enough tokens to do additional
- * expansions. Read more input if the provided function-like macro at
- * posistion i does not have all parameters on the current line.
- */
-static int skip_or_read_expansion(TokenArray *line, int i)
-{
-    int start = i, nest;
-    struct token t;
-
-    t = skip_or_get_token(line, i++);
-    if (t.token != '(') {
-        return i - start;
-    }
-
-    nest = 1;
-    while (nest) {
-        t = skip_or_get_token(line, i++);
-        if (t.token == '(') nest++;
-        if (t.token == ')') nest--;
-    }
-
-    return i - start;
-}
-
 /*
  * Read tokens until reaching end of line. If initial token is '#', stop
  * on first newline. Otherwise make sure _Pragma and macro invocations
@@ -281,11 +257,9 @@ static int read_complete_line(TokenArray *line, struct token t, int directive)
                 def = macro_definition(t.d.string);
                 if (def) {
                     macros += 1;
+                    array_push_back(line, t);
                     if (def->type == FUNCTION_LIKE) {
-                        array_push_back(line, t);
-                        read_macro_invocation(line, def);
-                    } else {
-                        array_push_back(line, t);
+                        read_macro_invocation(line, def, directive);
                     }
                 } else {
                     array_push_back(line, t);
@@ -303,46 +277,45 @@ static int read_complete_line(TokenArray *line, struct token t, int directive)
 }
 
 /*
- * After expansion, it might be that we need to read a bit more input to
- * get argument of new expansion. Look through the array and see whether
- * there is a partial macro invocation that needs more input.
- *
- * Also handle _Pragma directives, which can span multiple lines.
- *
- * Return non-zero if there are more function-like macros that needs to
- * be expanded.
+ * Expand all macros in line. Read a bit more input when there is an
+ * invocation that is not complete, with name or some of the arguments
+ * being the result of another expansion.
  */
-static int refill_expanding_line(TokenArray *line)
+static void expand_complete_line(TokenArray *line)
 {
-    int i, n, len;
+    int i;
     struct token t;
     const struct macro *def;
 
-    len = array_len(line);
-    if (!len) {
-        return 0;
-    }
-
-    for (i = 0, n = 0; i < len; ++i) {
+    i = 0;
+    while ((i = expand(line, i)) < array_len(line)) {
         t = array_get(line, i);
-        if (t.is_expandable && !t.disable_expand) {
-            def = macro_definition(t.d.string);
-            if (def && def->type == FUNCTION_LIKE) {
-                i += skip_or_read_expansion(line, i + 1);
-                n += 1;
+        def = macro_definition(t.d.string);
+        assert(def && def->type == FUNCTION_LIKE);
+        if (array_get(line, i + 1).token == NEWLINE) {
+            if (!is_next_paren(0)) {
+                i++;
+                continue;
+            }
+            (void) array_pop_back(line);
+            read_macro_invocation(line, def, 0);
+            t = get_token();
+        } else {
+            (void) array_pop_back(line);
+            t = get_token();
+            if (t.token == END) {
+                error("Unbalanced invocation of macro '%s'.",
+                    str_raw(def->name));
+                exit(1);
+            }
+            if (!t.leading_whitespace) {
+                t.leading_whitespace = 1;
             }
-        } else if (!tok_cmp(t, ident__Pragma)) {
-            i += skip_or_read_expansion(line, i + 1);
         }
-    }
 
-    /* Make sure a complete line is read, to not mix directives. */
-    if (t.token != NEWLINE) {
-        t = get_token();
-        n += read_complete_line(line, t, 0);
+        /* Make sure a complete line is read, to not mix directives. */
+        read_complete_line(line, t, 0);
     }
-
-    return n;
 }
 
 static const char *stringify_token(const struct token *t)
@@ -588,8 +561,8 @@ static void preprocess_line(int n)
         } else {
             assert(in_active_block());
             i = read_complete_line(&line, t, 0);
-            while (i && expand(&line)) {
-                i = refill_expanding_line(&line);
+            if (i) {
+                expand_complete_line(&line);
             }
             for (i = 0; i < array_len(&line); ++i) {
                 t = array_get(&line, i);
@@ -664,6 +637,33 @@ INTERNAL void consume(enum token_type type)
 
     switch (type) {
     case IDENTIFIER:
+        str = "identifier";
+        break;
+    case NUMBER:
+        str = "number";
+        break;
+    case STRING:
+        str = "string";
+        break;
+    default:
+        str = str_raw(basic_token[type].d.string);
+        break;
+    }
+
+    tok = stringify_token(access_token(0));
+    error("Expected %s but got %s.", str, tok);
+    exit(1);
+}
+
+INTERNAL const struct token *access_token(int n)
+{
+    assert(n >= 0);
+    assert(deque_len(&lookahead) >= n);
+    assert(n > 0 || lookahead.cursor > 0);
+
+    return &deque_get(&lookahead, n - 1);
+}
+
 /*
  * Determine whether tokens, which are not separated by whitespace, would
  * be read as something else if printed next to each other.
@@ -729,36 +729,10 @@ static int need_separation(struct token a, struct token b)
     return endptr == buf + n;
 }
 
-        str = "identifier";
-        break;
-    case NUMBER:
-        str = "number";
-        break;
-    case STRING:
-        str = "string";
-        break;
-    default:
-        str = str_raw(basic_token[type].d.string);
-        break;
-    }
-
-    tok = stringify_token(access_token(0));
-    error("Expected %s but got %s.", str, tok);
-    exit(1);
-}
-
-INTERNAL const struct token *access_token(int n)
-{
-    assert(n >= 0);
-    assert(deque_len(&lookahead) >= n);
-    assert(n > 0 || lookahead.cursor > 0);
-
-    return &deque_get(&lookahead, n - 1);
-}
-
 INTERNAL void preprocess(FILE *output)
 {
     const struct token *t;
+    struct token prev = {0};
 
     output_preprocessed = 1;
     while (peek() != END) {
@@ -766,8 +740,12 @@ INTERNAL void preprocess(FILE *output)
         t = access_token(0);
         if (t->leading_whitespace) {
             fprintf(output, "%*s", t->leading_whitespace, " ");
+        } else if (need_separation(prev, *t)) {
+            putc(' ', output);
         }
 
+        prev = *t;
+
         switch (t->token) {
         case NUMBER:
             assert(0);
@@ -789,8 +767,3 @@ INTERNAL void preprocess(FILE *output)
         }
     }
 }
-        prev = *t;
-
-        } else if (need_separation(prev, *t)) {
-            putc(' ', output);
-    struct token prev = {0};
-- 
2.43.0


From b36acab0d9ded518d1736a9324e502f7d83e1be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 057/130] fix: function-like macro name at the end of a line,
 white space of empty arguments

---
 src/preprocessor/macro.c      | 30 +++++++++++++++++++-----
 src/preprocessor/preprocess.c | 43 +++++++++++++++++++++++------------
 2 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/src/preprocessor/macro.c b/src/preprocessor/macro.c
index d994fe8..10f346c 100644
--- a/src/preprocessor/macro.c
+++ b/src/preprocessor/macro.c
@@ -320,6 +320,19 @@ static void array_replace_slice(
     list->length = length;
 }
 
+/* Remove token, keeping track of whether it had whitespace in front. */
+static void erase_token(TokenArray *list, int i)
+{
+    if (i + 1 < array_len(list)
+        && !array_get(list, i + 1).leading_whitespace)
+    {
+        array_get(list, i + 1).leading_whitespace
+            = array_get(list, i).leading_whitespace;
+    }
+
+    array_erase(list, i);
+}
+
 /*
  * Append operand of ## to list. Parameters are replaced by the argument
  * as written, or by a placemarker (END) if there are no tokens.
@@ -382,6 +395,8 @@ static TokenArray expand_stringify_and_paste(
                 && s.d.val.i == def->params - 1)
             {
                 if (array_len(&args[s.d.val.i])) {
+                    t = array_get(&args[s.d.val.i], 0);
+                    s.leading_whitespace = t.leading_whitespace;
                     array_push_back(&list, s);
                 } else {
                     (void) array_pop_back(&list);
@@ -420,7 +435,7 @@ static TokenArray expand_stringify_and_paste(
 
     for (i = 0; i < array_len(&list); ++i) {
         if (array_get(&list, i).token == END) {
-            array_erase(&list, i);
+            erase_token(&list, i);
             i--;
         }
     }
@@ -474,7 +489,7 @@ static TokenArray expand_macro(
             if (t.token == PARAM) {
                 j = t.d.val.i;
                 if (!array_len(&args[j])) {
-                    array_erase(&list, i);
+                    erase_token(&list, i);
                     i--;
                 } else {
                     array_replace_slice(&list, i, 1, &args[j]);
@@ -660,13 +675,16 @@ static int expand_line(ExpandStack *scope, TokenArray *list, int start)
         size = (endptr - list->data) - i;
         expn = expand_macro(scope, def, args, &end);
 
+        /* Squeeze in expansion in list. */
+        array_replace_slice(list, i, size, &expn);
+
         /* Fix leading whitespace after expansion. */
-        if (array_len(&expn)) {
-            expn.data[0].leading_whitespace = t.leading_whitespace;
+        if (array_len(&expn) || (i < array_len(list)
+            && !array_get(list, i).leading_whitespace))
+        {
+            array_get(list, i).leading_whitespace = t.leading_whitespace;
         }
 
-        /* Squeeze in expansion in list. */
-        array_replace_slice(list, i, size, &expn);
         i += end - 1;
         release_token_array(expn);
     }
diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index 317afaa..8e8875f 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -28,9 +28,16 @@ static int output_preprocessed;
 /* Line currently being tokenized. */
 static char *line_buffer;
 
+/*
+ * Set if lookahead has moved on to the next line, and the newline ending
+ * the previous line has not been read.
+ */
+static int newline_skipped;
+
 INTERNAL void preprocess_reset(void)
 {
     line_buffer = NULL;
+    newline_skipped = 0;
     macro_reset();
     strtab_reset();
     tokenize_reset();
@@ -50,7 +57,10 @@ static struct token get_token(void)
     struct token r;
     char *endptr;
 
-    if (!line_buffer && (line_buffer = getprepline()) == NULL) {
+    if (newline_skipped) {
+        newline_skipped = 0;
+        r = basic_token[NEWLINE];
+    } else if (!line_buffer && (line_buffer = getprepline()) == NULL) {
         r = basic_token[END];
     } else {
         r = tokenize(line_buffer, (const char **) &endptr);
@@ -119,23 +129,27 @@ static void read_Pragma_invocation(TokenArray *line)
  */
 static int is_next_paren(int directive)
 {
-    const char *endptr;
+    const char *ptr;
 
-    while (1) {
-        if (!line_buffer) {
-            if (directive || (line_buffer = getprepline()) == NULL) {
+    do {
+        ptr = line_buffer;
+        if (ptr) {
+            while (isspace((unsigned char) *ptr)) {
+                ptr++;
+            }
+            if (*ptr == '(') {
+                newline_skipped = 0;
+                return 1;
+            }
+            if (*ptr || directive) {
                 return 0;
             }
         }
-        endptr = line_buffer;
-        while (isspace((unsigned char) *endptr)) {
-            endptr++;
-        }
-        if (*endptr || directive) {
-            return *endptr == '(';
-        }
-        line_buffer = NULL;
-    }
+        newline_skipped = 1;
+        line_buffer = getprepline();
+    } while (line_buffer);
+
+    return 0;
 }
 
 /*
@@ -294,6 +308,7 @@ static void expand_complete_line(TokenArray *line)
         assert(def && def->type == FUNCTION_LIKE);
         if (array_get(line, i + 1).token == NEWLINE) {
             if (!is_next_paren(0)) {
+                newline_skipped = 0;
                 i++;
                 continue;
             }
-- 
2.43.0


From 991ebd9de1f5c9277eee16b4971c6476f32b5b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 058/130] fix: stray text after the string of a _Pragma
 operator

---
 src/preprocessor/preprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index 8e8875f..06dc49a 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -499,6 +499,7 @@ static const char *destringize(String str)
         }
     }
 
+    *ptr = '\0';
     return dstr_buffer;
 }
 
-- 
2.43.0


From 931eb507235e486c60d65f98e882c30af7b77929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 059/130] fix: do not read conditions of #if and #elif that are
 not evaluated

---
 src/preprocessor/directive.c  | 19 +++++++++++++++++--
 src/preprocessor/directive.h  |  6 ++++++
 src/preprocessor/preprocess.c | 10 ++++++++--
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index 8a5e5d8..6522940 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -94,6 +94,22 @@ INTERNAL int in_active_block(void)
     return s == BRANCH_LIVE;
 }
 
+INTERNAL int is_condition_evaluated(struct token t)
+{
+    enum state s;
+
+    if (t.token == IF) {
+        return in_active_block();
+    }
+
+    if (tok_cmp(t, ident__elif) || !array_len(&branch_stack)) {
+        return 0;
+    }
+
+    s = array_back(&branch_stack);
+    return s == BRANCH_DEAD;
+}
+
 /*
  * Number of enclosing operands that are not evaluated, because the
  * result of &&, || or ?: is already known. Division by zero is allowed
@@ -777,8 +793,7 @@ INTERNAL void preprocess_directive(TokenArray *array)
      * Perform macro expansion only for if, elif and line directives,
      * before doing any expression parsing.
      */
-    if (line->token == IF
-        || !tok_cmp(*line, ident__elif)
+    if (is_condition_evaluated(*line)
         || (in_active_block() && !tok_cmp(*line, ident__line)))
     {
         expand(array, 0);
diff --git a/src/preprocessor/directive.h b/src/preprocessor/directive.h
index 3345b18..27cc9e0 100644
--- a/src/preprocessor/directive.h
+++ b/src/preprocessor/directive.h
@@ -26,4 +26,10 @@ INTERNAL void preprocess_directive(TokenArray *line);
 /* Non-zero iff currently not inside a false #if directive. */
 INTERNAL int in_active_block(void);
 
+/*
+ * Non-zero iff directive is an #if or #elif with a condition that has to
+ * be evaluated.
+ */
+INTERNAL int is_condition_evaluated(struct token directive);
+
 #endif
diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index 06dc49a..bff4412 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -255,8 +255,14 @@ static int read_complete_line(TokenArray *line, struct token t, int directive)
 
     if (directive) {
         array_push_back(line, t);
-        expandable = (t.token == IF) || !tok_cmp(t, ident__elif);
-        t = get_token();
+        expandable = is_condition_evaluated(t);
+        if (!expandable && (!in_active_block() || !tok_cmp(t, ident__elif))) {
+            /* Not even required to be valid tokens. */
+            line_buffer = NULL;
+            t = basic_token[NEWLINE];
+        } else {
+            t = get_token();
+        }
     }
 
     while (t.token != NEWLINE) {
-- 
2.43.0


From b77847a7e46b00c6d1806bae051883b7f8ce2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 060/130] fix: unmatched quotes in skipped groups

---
 src/preprocessor/input.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 2bda83e..90b5b76 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -379,6 +379,10 @@ static size_t read_literal(const char *line, char **buf, int *lines)
                 ptr -= 1;
                 end += 1;
                 continue;
+            } else if (!in_active_block()) {
+                /* Not a literal, and not to be tokenized. */
+                *buf = ptr;
+                return end - line;
             } else {
                 error("Unexpected newline in literal.");
                 exit(1);
-- 
2.43.0


From dc1ab7829d669bfc0ec64f3edda93d36acf6bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 061/130] fix: line and file given by #line lost after an
 #include

---
 src/preprocessor/input.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 90b5b76..315d295 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -43,6 +43,13 @@ struct source {
 
     /* Current line. */
     int line;
+
+    /*
+     * Position as seen by __FILE__ and __LINE__, which can be changed by
+     * #line. Saved while processing an included file.
+     */
+    String presumed_path;
+    int presumed_line;
 };
 
 /* Temporary buffer used to construct search paths. */
@@ -76,6 +83,11 @@ static void push_file(struct source source)
     assert(source.file);
     assert(!str_is_empty(source.path));
 
+    if (array_len(&source_stack)) {
+        array_back(&source_stack).presumed_path = current_file_path;
+        array_back(&source_stack).presumed_line = current_file_line;
+    }
+
     current_file_line = 0;
     current_file_path = source.path;
     source.buffer = malloc(FILE_BUFFER_SIZE);
@@ -642,8 +654,8 @@ INTERNAL char *getprepline(void)
         source = &array_back(&source_stack);
         loc = source->line;
         if (stale) {
-            current_file_path = source->path;
-            current_file_line = source->line;
+            current_file_path = source->presumed_path;
+            current_file_line = source->presumed_line;
             stale = 0;
         }
         line = initial_preprocess_line(source);
-- 
2.43.0


From e67055bada4409769a07a5fd04e578f03bf611e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 062/130] fix: assertion on function-like macro name in an #if
 condition

---
 src/preprocessor/directive.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index 6522940..225c157 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -178,7 +178,6 @@ static struct number preprocess_primary(
             exit(1);
         }
     case IDENTIFIER:
-        assert(!macro_definition(list->d.string));
         num.type = basic_type__long;
         num.val.i = 0;
         break;
-- 
2.43.0


From 81249d43f1b5df3a929e521cb1786f8505516913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 063/130] fix: digit sequence of #line is decimal

---
 src/preprocessor/directive.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index 225c157..e382b4b 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -11,6 +11,8 @@
 #include <lacc/context.h>
 
 #include <assert.h>
+#include <limits.h>
+#include <stdlib.h>
 #include <string.h>
 
 #define IDENT(s) {IDENTIFIER, 1, 0, 0, {0}, {SHORT_STRING_INIT(s)}}
@@ -758,17 +760,24 @@ static void preprocess_line_directive(const struct token *line)
 {
     struct token t;
 
+    char *end;
+    long num = 0;
+
     t = *line++;
     if (t.token == PREP_NUMBER) {
-        t = convert_preprocessing_number(t);
+        /* Digit sequence is always decimal. */
+        num = strtol(str_raw(t.d.string), &end, 10);
+        if (*end) {
+            num = 0;
+        }
     }
 
-    if (t.token != NUMBER || !is_int(t.type) || t.d.val.i <= 0) {
+    if (num <= 0 || num > INT_MAX) {
         error("Expected positive integer in #line directive.");
         exit(1);
     }
 
-    current_file_line = t.d.val.i - 1;
+    current_file_line = num - 1;
     if (line->token == PREP_STRING) {
         current_file_path = line->d.string;
         line++;
-- 
2.43.0


From 30cb1a13c90863f45177fb92438ca5fde31b782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 064/130] fix: crash on va_arg with unused value

---
 src/parser/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index a9e92f0..1cd5e20 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -318,7 +318,7 @@ INTERNAL struct expression eval_expression_statement(
     struct var res;
 
     if (has_side_effects(expr)) {
-        if (!is_struct_or_union(expr.type)) {
+        if (!is_struct_or_union(expr.type) && expr.op != IR_OP_VA_ARG) {
             ir_expr(def, block, expr);
         } else {
             res = create_var(def, expr.type);
-- 
2.43.0


From 7a0e67a7f088477afdb8bd38e9987a1017625851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:25 +0000
Subject: [PATCH 065/130] fix: zero-width bit-field of a type narrower than the
 preceding field

---
 src/parser/typetree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index ee55602..512418f 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -311,7 +311,7 @@ static void reset_field_alignment(Type type, Type clear)
             if (mod) {
                 type_add_field(type, name, backing, clear_bits - mod);
             }
-        } else {
+        } else if (bits < clear_bits) {
             type_add_field(type, name, backing, clear_bits - bits);
         }
     }
-- 
2.43.0


From d343820b5f4fabac4094a9254143e9227c3abbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 066/130] configure: build as gnu89, which accepts // comments
 with a warning where c89 stops

---
 configure | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure b/configure
index 0ebf56c..8c84d38 100755
--- a/configure
+++ b/configure
@@ -3,7 +3,7 @@
 prefix="/usr/local"
 
 cc=cc
-cflags="-std=c89 -g -Wall -pedantic -Wno-missing-braces"
+cflags="-std=gnu89 -g -Wall -pedantic -Wno-missing-braces"
 cppflags=""
 
 if [ ! -z "$CC" ] ; then
-- 
2.43.0


From 15a3021924817453e6ed66d419c3bd3d6f29f9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 067/130] fix: va_arg of a floating value on the stack to an
 SSE register

---
 src/backend/x86_64/compile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 8a2f2ed..f084fb7 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -2238,7 +2238,9 @@ static void compile__builtin_va_arg(struct var res, struct var args)
     w = size_of(res.type);
     if (is_standard_register_width(w) && res.kind == DIRECT) {
         if ((ax = allocated_register(res)) != 0) {
-            emit_mr(INSTR_MOV, location(address(0, SI, 0, 0), w), reg(ax, w));
+            emit_mr(is_real(res.type) ? INSTR_MOVS : INSTR_MOV,
+                location(address(0, SI, 0, 0), w),
+                reg(ax, w));
         } else {
             emit_mr(INSTR_MOV, location(address(0, SI, 0, 0), w), reg(AX, w));
             emit_rm(INSTR_MOV, reg(AX, w), location_of(res, w));
-- 
2.43.0


From 7bc15f01aed1f819cc7b37e148af0720cf641069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 068/130] fix: reject an octal constant with invalid digits

---
 src/preprocessor/tokenize.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocessor/tokenize.c b/src/preprocessor/tokenize.c
index a39a5c8..e1437a0 100644
--- a/src/preprocessor/tokenize.c
+++ b/src/preprocessor/tokenize.c
@@ -258,6 +258,10 @@ INTERNAL struct token convert_preprocessing_number(struct token t)
          */
         errno = 0;
         tok.type = basic_type__double;
+        if (!strpbrk(str, ".eEpP")) {
+            error("Invalid numeric literal '%s'.", str);
+            exit(1);
+        }
         tok.d.val.d = strtod(str, (char **) &endptr);
         if (errno == ERANGE && tok.d.val.d < 1.0) {
             errno = 0;
-- 
2.43.0


From 7c18422afb4f18639f7141157e4ec562727e3446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 069/130] fix: diagnose a conditional directive left open at
 end of file

---
 src/preprocessor/directive.c |  5 +++++
 src/preprocessor/directive.h |  3 +++
 src/preprocessor/input.c     | 10 +++++++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index e382b4b..972f90a 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -86,6 +86,11 @@ static enum state pop_state(void)
     return val;
 }
 
+INTERNAL int branch_depth(void)
+{
+    return array_len(&branch_stack);
+}
+
 INTERNAL int in_active_block(void)
 {
     enum state s = BRANCH_LIVE;
diff --git a/src/preprocessor/directive.h b/src/preprocessor/directive.h
index 27cc9e0..c7a329d 100644
--- a/src/preprocessor/directive.h
+++ b/src/preprocessor/directive.h
@@ -26,6 +26,9 @@ INTERNAL void preprocess_directive(TokenArray *line);
 /* Non-zero iff currently not inside a false #if directive. */
 INTERNAL int in_active_block(void);
 
+/* Number of conditional directives not yet terminated by #endif. */
+INTERNAL int branch_depth(void);
+
 /*
  * Non-zero iff directive is an #if or #elif with a condition that has to
  * be evaluated.
diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 315d295..34969c4 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -41,6 +41,9 @@ struct source {
      */
     int dirlen;
 
+    /* Conditional directives open where the file was included. */
+    int branches;
+
     /* Current line. */
     int line;
 
@@ -90,6 +93,7 @@ static void push_file(struct source source)
 
     current_file_line = 0;
     current_file_path = source.path;
+    source.branches = branch_depth();
     source.buffer = malloc(FILE_BUFFER_SIZE);
     source.size = FILE_BUFFER_SIZE;
     array_push_back(&source_stack, source);
@@ -661,12 +665,16 @@ INTERNAL char *getprepline(void)
         line = initial_preprocess_line(source);
         current_file_line += source->line - loc;
         if (!line) {
+            if (branch_depth() > source->branches) {
+                error("Unterminated conditional directive.");
+                exit(1);
+            }
             stale = 1;
             if (pop_file() == EOF) {
                 return NULL;
             }
         }
-        if (!in_active_block() && !is_directive(line)) {
+        if (line && !in_active_block() && !is_directive(line)) {
             line = NULL;
         }
     } while (!line);
-- 
2.43.0


From b36da4c1f0707be16690b85146eeb838b3b45418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 070/130] fix: line numbers after a literal broken over lines

---
 src/preprocessor/input.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 34969c4..b7494e9 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -400,6 +400,7 @@ static size_t read_literal(const char *line, char **buf, int *lines)
                 *buf = ptr;
                 return end - line;
             } else {
+                current_file_line += *lines + 1;
                 error("Unexpected newline in literal.");
                 exit(1);
             }
-- 
2.43.0


From 52aa45b40afb93c71e975a485c7e3de3ec2d56be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 071/130] fix: reject duplicate macro parameters

---
 src/preprocessor/directive.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index 972f90a..41baf41 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -695,6 +695,13 @@ static struct macro preprocess_define(
                 error("Invalid macro parameter, expected identifer.");
                 exit(1);
             }
+            for (i = 0; i < array_len(&params); ++i) {
+                if (tok_cmp(array_get(&params, i), *line) == 0) {
+                    error("Duplicate macro parameter '%s'.",
+                        str_raw(line->d.string));
+                    exit(1);
+                }
+            }
             array_push_back(&params, *line++);
             if (line->token == DOTS) {
                 macro.is_vararg = 1;
-- 
2.43.0


From 3baee38be5133efbd6fb89f239731b7816f67aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 072/130] fix: reject members of incomplete type

---
 src/parser/typetree.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index 512418f..cfa5aed 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -623,6 +623,14 @@ INTERNAL struct member *type_add_member(Type parent, String name, Type type)
 
     assert(is_struct_or_union(parent) || is_function(parent));
     if (!is_function(parent)) {
+        if (is_function(type)
+            || is_void(type)
+            || (is_struct_or_union(type)
+                && (!size_of(type) || type.ref == parent.ref)))
+        {
+            error("Member '%s' has incomplete type.", str_raw(name));
+            exit(1);
+        }
         m.offset = adjust_member_alignment(parent, type);
     }
 
-- 
2.43.0


From 599acf7ff8d4f621e46979c83a929bb69e1ea687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 073/130] fix: reject conflicting declarations in one scope

---
 src/parser/symtab.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index b81334e..3d153c5 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -300,6 +300,13 @@ static struct symbol *sym_redeclare(
     enum symtype symtype,
     enum linkage linkage)
 {
+    if ((sym->symtype == SYM_TYPEDEF && symtype != SYM_TYPEDEF)
+        || sym->symtype == SYM_CONSTANT)
+    {
+        error("Conflicting declaration of '%s'.", sym_name(sym));
+        exit(1);
+    }
+
     switch (linkage) {
     case LINK_INTERN:
         if (sym->linkage == LINK_EXTERN) {
@@ -409,6 +416,15 @@ INTERNAL struct symbol *sym_add(
         }
     } else if (sym && (!depth || linkage == LINK_EXTERN) && !sym->depth) {
         return sym_redeclare(sym, ns, type, symtype, linkage);
+    } else if (sym
+        && sym->depth
+        && sym->depth == depth
+        && ns == &ns_ident
+        && !(symtype == SYM_TYPEDEF && sym->symtype == SYM_TYPEDEF)
+        && !(linkage == LINK_EXTERN && sym->linkage == LINK_EXTERN))
+    {
+        error("Duplicate declaration of '%s'.", str_raw(name));
+        exit(1);
     }
 
     sym = alloc_sym();
-- 
2.43.0


From 49cef1be67e187e8f1b7ea2da21bf5772c0497e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 074/130] fix: convert case constants to the type of the switch
 and reject duplicates

---
 src/parser/statement.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/parser/statement.c b/src/parser/statement.c
index 8bbb299..3151f7f 100644
--- a/src/parser/statement.c
+++ b/src/parser/statement.c
@@ -43,6 +43,7 @@ struct switch_case {
 };
 
 struct switch_context {
+    Type type;
     struct block *default_label;
     array_of(struct switch_case) cases;
 };
@@ -56,8 +57,17 @@ static struct switch_context *switch_context;
 
 static void add_switch_case(struct block *label, struct var value)
 {
+    int i;
     struct switch_case sc;
 
+    for (i = 0; i < array_len(&switch_context->cases); ++i) {
+        sc = array_get(&switch_context->cases, i);
+        if (sc.value.value.imm.u == value.value.imm.u) {
+            error("Duplicate 'case' label in switch statement.");
+            exit(1);
+        }
+    }
+
     sc.label = label;
     sc.value = value;
     array_push_back(&switch_context->cases, sc);
@@ -330,6 +340,8 @@ static struct block *switch_statement(
         exit(1);
     }
 
+    switch_context->type = promote_integer(type_unqualified(value.type));
+
     consume(')');
     last = statement(def, body);
     last->jump[0] = next;
@@ -607,6 +619,13 @@ INTERNAL struct block *statement(
         } else {
             struct block *next = cfg_block_init(def);
             struct var expr = constant_expression();
+            if (!is_integer(expr.type)) {
+                error("Case label must be an integer constant, was %t.",
+                    expr.type);
+                exit(1);
+            }
+            expr = eval(def, next,
+                eval_cast(def, next, expr, switch_context->type));
             consume(':');
             add_switch_case(next, expr);
             parent->jump[0] = next;
-- 
2.43.0


From e49d2ad23935b1c56dd5d61eb5fb6e6dd2859783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 075/130] fix: reject break and continue outside of loops

---
 src/parser/statement.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/statement.c b/src/parser/statement.c
index 3151f7f..d22ad77 100644
--- a/src/parser/statement.c
+++ b/src/parser/statement.c
@@ -590,12 +590,20 @@ INTERNAL struct block *statement(
         break;
     case CONTINUE:
         next();
+        if (!continue_target) {
+            error("Stray 'continue', must be inside a loop.");
+            exit(1);
+        }
         parent->jump[0] = continue_target;
         consume(';');
         parent = cfg_block_init(def); /* Orphan, unless labeled. */
         break;
     case BREAK:
         next();
+        if (!break_target) {
+            error("Stray 'break', must be inside a loop or switch statement.");
+            exit(1);
+        }
         parent->jump[0] = break_target;
         consume(';');
         parent = cfg_block_init(def); /* Orphan, unless labeled. */
-- 
2.43.0


From f1ddedfa2dd0eff743b1201c995b60e378c8e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 076/130] fix: reject array designators out of bounds

---
 src/parser/initializer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index a58ca7e..4c0c48d 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -527,8 +527,14 @@ static struct block *initialize_array(
     } else {
         target.type = elem;
         while (1) {
-            if (try_parse_index(&i) && peek() == '=') {
-                next();
+            if (try_parse_index(&i)) {
+                if (count && i >= count) {
+                    error("Array designator exceeds the array bounds.");
+                    exit(1);
+                }
+                if (peek() == '=') {
+                    next();
+                }
             }
 
             target.offset = initial + (i * width);
-- 
2.43.0


From 36a0410701055ac797bf5e84dc5a78fca44e8c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 077/130] fix: reject member access and sizeof of unsuitable
 types

---
 src/parser/expression.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index d786bd1..1bc1f84 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -216,6 +216,11 @@ static struct block *postfix(
             next();
             consume(IDENTIFIER);
             str = access_token(0)->d.string;
+            if (!is_struct_or_union(root.type)) {
+                error("Invalid access, %t is not a struct or union.",
+                    root.type);
+                exit(1);
+            }
             mbr = find_type_member(root.type, str, NULL);
             if (!mbr) {
                 error("Invalid access, no member named '%s'.", str_raw(str));
@@ -439,7 +444,9 @@ exprsize:   unevaluated = def;
             type = tail->expr.type;
             restore_block(def, unevaluated);
         }
-        if (is_complete(type)) {
+        if (is_complete(type)
+            && (!is_struct_or_union(type) || size_of(type)))
+        {
             if (is_vla(type)) {
                 block->expr = eval_vla_size(def, block, type);
             } else {
@@ -460,9 +467,11 @@ exprsize:   unevaluated = def;
         }
         if (is_function(type)) {
             error("Cannot apply '_Alignof' to function type.");
+            exit(1);
         }
         if (!size_of(type)) {
             error("Cannot apply '_Alignof' to incomplete type.");
+            exit(1);
         }
         value = imm_unsigned(basic_type__unsigned_long, type_alignment(type));
         block->expr = as_expr(value);
-- 
2.43.0


From 7fc3188fe037e50288a7df1bd19398572583fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 078/130] fix: _Static_assert message is not a format string

---
 src/parser/declaration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index e46f993..94fcf86 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1193,7 +1193,7 @@ static void static_assertion(void)
     }
 
     if (val.value.imm.i == 0) {
-        error(str_raw(message));
+        error("%s", str_raw(message));
         exit(1);
     }
 
-- 
2.43.0


From 5c53c0b8326d44e1ff9a25195a783493885a6ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 079/130] fix: reject nested and repeated function definitions

---
 src/parser/declaration.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 94fcf86..7e3aed9 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1149,6 +1149,14 @@ static struct block *init_declarator(
             exit(1);
         }
         if (is_function(sym->type)) {
+            if (current_scope_depth(&ns_ident)) {
+                error("Function definition is not allowed here.");
+                exit(1);
+            }
+            if (sym->symtype == SYM_DEFINITION) {
+                error("Redefinition of function '%s'.", str_raw(sym->name));
+                exit(1);
+            }
             sym->symtype = SYM_DEFINITION;
             cfg_define(def, sym);
             push_scope(&ns_label);
-- 
2.43.0


From f58dfee61aee26ee5ecae0a16d1da9a29305bc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 080/130] fix: reject typedefs with initializers

---
 src/parser/declaration.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7e3aed9..366e9f3 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1118,6 +1118,10 @@ static struct block *init_declarator(
 
     switch (peek()) {
     case '=':
+        if (sym->symtype == SYM_TYPEDEF) {
+            error("Typedef '%s' cannot be initialized.", str_raw(sym->name));
+            exit(1);
+        }
         if (sym->symtype == SYM_DECLARATION) {
             error("Extern symbol '%s' cannot be initialized.",
                 str_raw(sym->name));
-- 
2.43.0


From c7ae03674fa9d7d60519b5a0b83ee588f4ba1bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 081/130] fix: reject variables of incomplete type

---
 src/parser/declaration.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 366e9f3..99b0a7d 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1012,6 +1012,12 @@ INTERNAL struct block *declare_vla(
     return block;
 }
 
+/* Types no object can have, other than arrays of unknown length. */
+static int is_incomplete_object(Type type)
+{
+    return is_void(type) || (is_struct_or_union(type) && !size_of(type));
+}
+
 /*
  * Parse declaration, possibly with initializer. New symbols are added
  * to the symbol table.
@@ -1108,6 +1114,12 @@ static struct block *init_declarator(
     default:
         if (symtype == SYM_DEFINITION) {
             assert(linkage == LINK_NONE);
+            if (is_incomplete_object(type)
+                || (is_array(type) && !is_complete(type) && peek() != '='))
+            {
+                error("Variable '%s' has incomplete type.", str_raw(name));
+                exit(1);
+            }
             array_push_back(&def->locals, sym);
             if (is_vla(type)) {
                 parent = declare_vla(def, parent, sym);
-- 
2.43.0


From c2006276653e68b9b3df915b717f802a232a20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 082/130] fix: tags declared in an inner scope hide those of
 outer scopes

---
 src/parser/declaration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 99b0a7d..802d5a6 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -489,6 +489,13 @@ static Type struct_or_union_declaration(enum token_type t)
     if (try_consume(IDENTIFIER)) {
         name = access_token(0)->d.string;
         sym = sym_lookup(&ns_tag, name);
+        if (sym
+            && sym->depth < current_scope_depth(&ns_tag)
+            && (peek() == '{' || peek() == ';'))
+        {
+            /* Declare another type, hiding the one of an outer scope. */
+            sym = NULL;
+        }
         if (!sym) {
             type = type_create(kind);
             sym = sym_add(&ns_tag, name, type, SYM_TAG, LINK_NONE);
-- 
2.43.0


From 3c4d5c45775c20204de71e5464615b6289cb5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 083/130] fix: lines starting with ## in skipped groups

---
 src/preprocessor/preprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index bff4412..8394243 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -580,8 +580,9 @@ static void preprocess_line(int n)
             } else {
                 line_buffer = NULL;
             }
+        } else if (!in_active_block()) {
+            line_buffer = NULL;
         } else {
-            assert(in_active_block());
             i = read_complete_line(&line, t, 0);
             if (i) {
                 expand_complete_line(&line);
-- 
2.43.0


From c8faf494e3ea613fc2a81eda9f0b1e90172596d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 084/130] fix: stop after a missing newline at end of file

---
 src/preprocessor/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index b7494e9..260abd4 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -599,7 +599,7 @@ static char *initial_preprocess_line(struct source *fn)
                 }
                 if (fn->buffer[fn->read - 1] != '\n') {
                     error("Missing newline at end of file.");
-                    fn->buffer[fn->read] = '\n';
+                    exit(1);
                 }
             }
         }
-- 
2.43.0


From e0e3d6a0050e55ac6ddc8c56f2aaccbcab7d3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 085/130] fix: reject anonymous members of incomplete type

---
 src/parser/typetree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index cfa5aed..63958b2 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -766,6 +766,11 @@ INTERNAL void type_add_anonymous_member(Type parent, Type type)
 
     assert(is_struct_or_union(parent));
     assert(is_struct_or_union(type));
+    if (!size_of(type)) {
+        error("Anonymous member has incomplete type.");
+        exit(1);
+    }
+
     t = get_typetree_handle(type.ref);
     offset = adjust_member_alignment(parent, type);
     for (i = 0; i < nmembers(type); ++i) {
-- 
2.43.0


From d3e9222abeb732d6936d56cb0fbdf1e6c40cf6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 086/130] fix: reject assignment to arrays

---
 src/parser/expression.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 1bc1f84..be8bf91 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -131,6 +131,17 @@ static void pop_argument_list(void)
     array_empty(list);
 }
 
+/* Initializers can assign to an array, but no expression can. */
+static struct var modifiable(struct var target)
+{
+    if (is_array(target.type)) {
+        error("Cannot assign to expression of type %t.", target.type);
+        exit(1);
+    }
+
+    return target;
+}
+
 static struct block *postfix(
     struct definition *def,
     struct block *block)
@@ -259,7 +270,7 @@ static struct block *postfix(
             break;
         case INCREMENT:
             next();
-            value = eval(def, block, root);
+            value = modifiable(eval(def, block, root));
             copy = eval_copy(def, block, value);
             root = eval_add(def, block, value, var_int(1));
             eval_assign(def, block, value, root);
@@ -268,7 +279,7 @@ static struct block *postfix(
             break;
         case DECREMENT:
             next();
-            value = eval(def, block, root);
+            value = modifiable(eval(def, block, root));
             copy = eval_copy(def, block, value);
             root = eval_sub(def, block, value, var_int(1));
             eval_assign(def, block, value, root);
@@ -480,14 +491,14 @@ exprsize:   unevaluated = def;
     case INCREMENT:
         next();
         block = unary_expression(def, block);
-        value = eval(def, block, block->expr);
+        value = modifiable(eval(def, block, block->expr));
         block->expr = eval_add(def, block, value, var_int(1));
         block->expr = as_expr(eval_assign(def, block, value, block->expr));
         break;
     case DECREMENT:
         next();
         block = unary_expression(def, block);
-        value = eval(def, block, block->expr);
+        value = modifiable(eval(def, block, block->expr));
         block->expr = eval_sub(def, block, value, var_int(1));
         block->expr = as_expr(eval_assign(def, block, value, block->expr));
         break;
@@ -975,7 +986,7 @@ INTERNAL struct block *assignment_expression(
         return block;
     }
 
-    target = eval(def, block, block->expr);
+    target = modifiable(eval(def, block, block->expr));
     block = assignment_expression(def, block);
     if (t != '=') {
         value = eval(def, block, block->expr);
-- 
2.43.0


From 666c21c5422bb2fb37531fbadf51d8b8bc1b016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 087/130] fix: reject address of an address

---
 src/parser/eval.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 1cd5e20..5a2d4e2 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1445,7 +1445,6 @@ INTERNAL struct var eval_addr(
             break;
         }
     case ADDRESS:
-        assert(!var.lvalue);
         error("Cannot take address of r-value.");
         exit(1);
         break;
-- 
2.43.0


From c8b9476205c4030e4ab4c5f5fb831da7eb6e5b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 088/130] fix: exit status after many errors

---
 src/lacc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lacc.c b/src/lacc.c
index 5699937..486556a 100644
--- a/src/lacc.c
+++ b/src/lacc.c
@@ -670,7 +670,7 @@ static int process_file(struct input_file file)
         fclose(output);
     }
 
-    return context.errors;
+    return context.errors != 0;
 }
 
 int main(int argc, char *argv[])
-- 
2.43.0


From 92765bbc5fe01adeccb5ab79792cdd0a0421ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 089/130] fix: exit status when the linker does not run or is
 killed

---
 src/backend/linker.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/backend/linker.c b/src/backend/linker.c
index 6f6c732..586cc94 100644
--- a/src/backend/linker.c
+++ b/src/backend/linker.c
@@ -149,14 +149,15 @@ INTERNAL int invoke_linker(void)
     switch ((pid = fork())) {
     case 0:
         execvp(argv[0], argv);
-        _exit(0);
+        fprintf(stderr, "Failed to execute linker '%s'.\n", argv[0]);
+        _exit(1);
     case -1:
         fprintf(stderr, "%s\n", "Failed to start linker process.");
         ret = 1;
         break;
     default:
         waitpid(pid, &status, 0);
-        ret = WEXITSTATUS(status);
+        ret = WIFEXITED(status) ? WEXITSTATUS(status) : 1;
         break;
     }
 
-- 
2.43.0


From bd470cba6af161e651b43920f834d1c947d52729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:49 +0000
Subject: [PATCH 090/130] fix: reject function definitions in old-style
 parameter lists

---
 src/parser/declaration.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 802d5a6..5c79e11 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -929,8 +929,10 @@ static struct block *parameter_declaration_list(
     struct member *param;
 
     assert(is_function(type));
-    assert(current_scope_depth(&ns_ident) == 1);
-    assert(!def->symbol);
+    if (current_scope_depth(&ns_ident) != 1 || def->symbol) {
+        error("Function definition is not allowed here.");
+        exit(1);
+    }
 
     sym.type = type;
     def->symbol = &sym;
-- 
2.43.0


From 2287bc4379e94680c522cb66b09328ce5931d100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:49 +0000
Subject: [PATCH 091/130] fix: reject parameters, arguments and results of
 incomplete type

---
 src/parser/declaration.c | 23 +++++++++++++++++------
 src/parser/expression.c  | 12 ++++++++++++
 src/parser/symtab.c      |  4 ++++
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5c79e11..cab30e1 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -966,6 +966,12 @@ static struct block *parameter_declaration_list(
     return block;
 }
 
+/* Types no object can have, other than arrays of unknown length. */
+static int is_incomplete_object(Type type)
+{
+    return is_void(type) || (is_struct_or_union(type) && !size_of(type));
+}
+
 /* Add function parameters to scope. */
 static struct block *make_parameters_visible(
     struct definition *def,
@@ -986,6 +992,11 @@ static struct block *make_parameters_visible(
             exit(1);
         }
 
+        if (is_incomplete_object(param->type)) {
+            error("Parameter '%s' has incomplete type.", str_raw(param->name));
+            exit(1);
+        }
+
         assert(param->sym);
         assert(param->sym->depth == 1);
         assert(!is_type_placeholder(param->type));
@@ -1021,12 +1032,6 @@ INTERNAL struct block *declare_vla(
     return block;
 }
 
-/* Types no object can have, other than arrays of unknown length. */
-static int is_incomplete_object(Type type)
-{
-    return is_void(type) || (is_struct_or_union(type) && !size_of(type));
-}
-
 /*
  * Parse declaration, possibly with initializer. New symbols are added
  * to the symbol table.
@@ -1182,6 +1187,12 @@ static struct block *init_declarator(
                 error("Redefinition of function '%s'.", str_raw(sym->name));
                 exit(1);
             }
+            type = type_next(sym->type);
+            if (is_struct_or_union(type) && !size_of(type)) {
+                error("Function '%s' returns incomplete type.",
+                    str_raw(sym->name));
+                exit(1);
+            }
             sym->symtype = SYM_DEFINITION;
             cfg_define(def, sym);
             push_scope(&ns_label);
diff --git a/src/parser/expression.c b/src/parser/expression.c
index be8bf91..be7088d 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -187,6 +187,13 @@ static struct block *postfix(
                 exit(1);
             }
             next();
+            if (is_struct_or_union(type_next(type))
+                && !size_of(type_next(type)))
+            {
+                error("Call to function returning incomplete type %t.",
+                    type_next(type));
+                exit(1);
+            }
             args = push_argument_list();
             for (i = 0; i < nmembers(type); ++i) {
                 if (peek() == ')') {
@@ -195,6 +202,11 @@ static struct block *postfix(
                     exit(1);
                 }
                 mbr = get_member(type, i);
+                if (is_struct_or_union(mbr->type) && !size_of(mbr->type)) {
+                    error("Argument %d has incomplete type %t.",
+                        i + 1, mbr->type);
+                    exit(1);
+                }
                 block = assignment_expression(def, block);
                 block->expr =
                     eval_prepare_arg(def, block, block->expr, mbr->type);
diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index 3d153c5..74c510a 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -589,6 +589,10 @@ INTERNAL const struct symbol *yield_declaration(struct namespace *ns)
                 return sym;
             break;
         case SYM_TENTATIVE:
+            if (is_struct_or_union(sym->type) && !size_of(sym->type)) {
+                error("Variable '%s' has incomplete type.", sym_name(sym));
+                break;
+            }
             return sym;
         default:
             break;
-- 
2.43.0


From 8c0736e40b7242e60266423dfea704234da18859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:52 +0000
Subject: [PATCH 092/130] fix: array of unknown length at end of unit has one
 element

---
 src/parser/symtab.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index 74c510a..c3623ee 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -576,7 +576,7 @@ INTERNAL int is_temporary(const struct symbol *sym)
 
 INTERNAL const struct symbol *yield_declaration(struct namespace *ns)
 {
-    const struct symbol *sym;
+    struct symbol *sym;
 
     while (ns->cursor < array_len(&ns->symbols)) {
         sym = array_get(&ns->symbols, ns->cursor);
@@ -593,6 +593,10 @@ INTERNAL const struct symbol *yield_declaration(struct namespace *ns)
                 error("Variable '%s' has incomplete type.", sym_name(sym));
                 break;
             }
+            if (is_array(sym->type) && !is_complete(sym->type)) {
+                /* Defined as if with an initializer equal to zero. */
+                sym->type = type_create_array(type_next(sym->type), 1);
+            }
             return sym;
         default:
             break;
-- 
2.43.0


From 3b09f5081ae0016b377c9f06970fb3a9633ec6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:52 +0000
Subject: [PATCH 093/130] fix: compatible redeclaration of a defined name

---
 src/parser/symtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index c3623ee..31b2719 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -338,7 +338,7 @@ static struct symbol *sym_redeclare(
         }
     case SYM_DECLARATION:
         if (sym->symtype == SYM_DEFINITION) {
-            if (!type_equal(sym->type, type)) {
+            if (!is_compatible(sym->type, type)) {
                 error("'%s' redeclared with different type.", sym_name(sym));
                 exit(1);
             }
-- 
2.43.0


From d64fe7148740d6894babe26a3acde29a8b0785a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 094/130] fix: declarations of a name with linkage in inner
 scopes denote one entity

---
 src/parser/symtab.c | 56 +++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index 31b2719..85cca7d 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -76,8 +76,9 @@ static Type get_string_type(size_t len)
 }
 
 /*
- * Keep track of all function declarations globally, in order to coerce
- * forward declarations made in inner scope.
+ * Keep track of all declarations of functions, and of objects with
+ * linkage, globally, in order to coerce declarations made in inner
+ * scope.
  *
  * int foo(void) {
  *     int bar(int);
@@ -92,7 +93,7 @@ static Type get_string_type(size_t len)
  * symbol, even though the first declaration is not in scope for the
  * actual definition.
  */
-static struct hash_table functions;
+static struct hash_table external;
 
 /*
  * Deallocate all memory owned by namespace.
@@ -137,7 +138,7 @@ INTERNAL void symtab_clear(void)
     clear_namespace(&ns_label);
 
     array_empty(&string_types);
-    hash_clear(&functions, NULL);
+    hash_clear(&external, NULL);
 }
 
 INTERNAL void symtab_finalize(void)
@@ -152,7 +153,7 @@ INTERNAL void symtab_finalize(void)
 
     array_clear(&temporaries);
     array_clear(&string_types);
-    hash_destroy(&functions);
+    hash_destroy(&external);
 }
 
 INTERNAL void push_scope(struct namespace *ns)
@@ -382,7 +383,8 @@ INTERNAL void sym_make_visible(struct namespace *ns, struct symbol *sym)
 /*
  * Register a new symbol, or redeclare an existing one.
  *
- * All function declarations must agree, regardless of scope.
+ * All declarations of functions, and of objects with linkage, must
+ * agree, regardless of scope.
  *
  * Scoped static variable are given unique names in order to not collide
  * with other external declarations.
@@ -396,32 +398,42 @@ INTERNAL struct symbol *sym_add(
 {
     static int n;
 
-    int depth;
-    struct symbol *sym;
+    int depth, has_linkage;
+    struct symbol *sym, *prev;
     assert(symtype != SYM_LABEL);
     assert(symtype != SYM_TAG || ns == &ns_tag);
 
     sym = sym_lookup(ns, name);
     depth = current_scope_depth(ns);
-    if (!sym && symtype != SYM_TYPEDEF && is_function(type)) {
-        assert(ns == &ns_ident);
-        sym = hash_lookup(&functions, name);
-        if (sym) {
-            sym_apply_type(sym, type);
-            sym_make_visible(ns, sym);
-            if (depth < sym->depth) {
-                sym->depth = depth;
+    has_linkage = ns == &ns_ident
+        && (symtype == SYM_DECLARATION
+            || symtype == SYM_TENTATIVE
+            || symtype == SYM_DEFINITION)
+        && (linkage == LINK_EXTERN || (linkage == LINK_INTERN && !depth));
+
+    if (has_linkage) {
+        prev = hash_lookup(&external, name);
+        if (sym && sym != prev && sym->depth == depth) {
+            error("Conflicting declaration of '%s'.", str_raw(name));
+            exit(1);
+        }
+        if (prev) {
+            prev = sym_redeclare(prev, ns, type, symtype, linkage);
+            if (sym != prev) {
+                sym_make_visible(ns, prev);
+                if (depth < prev->depth) {
+                    prev->depth = depth;
+                }
             }
-            return sym;
+            return prev;
         }
-    } else if (sym && (!depth || linkage == LINK_EXTERN) && !sym->depth) {
+    } else if (sym && !depth && !sym->depth) {
         return sym_redeclare(sym, ns, type, symtype, linkage);
     } else if (sym
         && sym->depth
         && sym->depth == depth
         && ns == &ns_ident
-        && !(symtype == SYM_TYPEDEF && sym->symtype == SYM_TYPEDEF)
-        && !(linkage == LINK_EXTERN && sym->linkage == LINK_EXTERN))
+        && !(symtype == SYM_TYPEDEF && sym->symtype == SYM_TYPEDEF))
     {
         error("Duplicate declaration of '%s'.", str_raw(name));
         exit(1);
@@ -443,8 +455,8 @@ INTERNAL struct symbol *sym_add(
 
     array_push_back(&ns->symbols, sym);
     sym_make_visible(ns, sym);
-    if (symtype != SYM_TYPEDEF && is_function(sym->type)) {
-        hash_insert(&functions, sym->name, sym, NULL);
+    if (has_linkage) {
+        hash_insert(&external, sym->name, sym, NULL);
     }
 
     if (context.verbose) {
-- 
2.43.0


From ea8e6c8b962f7b499a55bcfcccbde1d0a2e8a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 095/130] fix: external and inline definitions of inline
 functions

---
 include/lacc/symbol.h         | 10 +++++++++-
 src/backend/x86_64/assemble.c |  4 +++-
 src/backend/x86_64/elf.c      | 10 +++++++---
 src/backend/x86_64/elf.h      |  1 +
 src/parser/declaration.c      | 25 +++++++++++++++++++++----
 src/parser/parse.c            |  2 +-
 6 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/include/lacc/symbol.h b/include/lacc/symbol.h
index 3fdc15a..a9b7532 100644
--- a/include/lacc/symbol.h
+++ b/include/lacc/symbol.h
@@ -45,7 +45,7 @@ struct symbol {
     unsigned int referenced : 1; /* Mark symbol as used. */
     unsigned int memory : 1;     /* Disable register allocation. */
     unsigned int inlined : 1;    /* Inline function. */
-    unsigned int : 1;
+    unsigned int external : 1;   /* Has an external definition, if any. */
     unsigned int slot : 4;       /* Register allocation slot. */
     unsigned int index : 8;      /* Enumeration used in optimization. */
 
@@ -105,6 +105,14 @@ struct symbol {
     } value;
 };
 
+/*
+ * Inline definition of a function that is defined in some other unit, or
+ * in several as inline. Emit a weak symbol, which is used only if there
+ * is no external definition.
+ */
+#define is_inline_definition(sym) \
+    ((sym)->inlined && !(sym)->external && (sym)->linkage == LINK_EXTERN)
+
 /* Holds the declaration for memcpy, which is needed for codegen. */
 EXTERNAL const struct symbol *decl_memcpy;
 
diff --git a/src/backend/x86_64/assemble.c b/src/backend/x86_64/assemble.c
index 160b4ea..0cc044d 100644
--- a/src/backend/x86_64/assemble.c
+++ b/src/backend/x86_64/assemble.c
@@ -209,7 +209,9 @@ INTERNAL int asm_symbol(const struct symbol *sym)
     case SYM_DEFINITION:
         if (is_function(sym->type)) {
             set_section(SECTION_TEXT);
-            if (sym->linkage == LINK_EXTERN)
+            if (is_inline_definition(sym))
+                out("\t.weak\t%s\n", name);
+            else if (sym->linkage == LINK_EXTERN)
                 out("\t.globl\t%s\n", name);
             out("\t.type\t%s, @function\n", name);
             out("%s:\n", name);
diff --git a/src/backend/x86_64/elf.c b/src/backend/x86_64/elf.c
index b105867..0c7a50c 100644
--- a/src/backend/x86_64/elf.c
+++ b/src/backend/x86_64/elf.c
@@ -249,11 +249,12 @@ static int elf_symtab_add(Elf64_Sym entry)
     }
 
     elf_section_write(section.symtab, &entry, sizeof(Elf64_Sym));
-    if (entry.st_info >> 4 == STB_GLOBAL && !shdr[section.symtab].sh_info) {
+    if (entry.st_info >> 4 != STB_LOCAL && !shdr[section.symtab].sh_info) {
         shdr[section.symtab].sh_info = i;
     } else {
         assert(i == 0 ||
-            (entry.st_info >> 4) == (sbuf[section.symtab].sym[i-1].st_info >> 4));
+            ((entry.st_info >> 4) == STB_LOCAL)
+                == ((sbuf[section.symtab].sym[i-1].st_info >> 4) == STB_LOCAL));
     }
 
     return i;
@@ -369,7 +370,7 @@ static void elf_symtab_assoc(struct symbol *sym, Elf64_Sym entry)
             current_function.index = sym->stack_offset;
         }
     } else {
-        assert((entry.st_info >> 4) == STB_GLOBAL);
+        assert((entry.st_info >> 4) != STB_LOCAL);
         var.sym = sym;
         var.entry = entry;
         array_push_back(&globals, var);
@@ -595,6 +596,9 @@ INTERNAL int elf_symbol(const struct symbol *sym)
         if (sym->symtype == SYM_DEFINITION) {
             entry.st_shndx = section.text;
             entry.st_value = shdr[section.text].sh_size;
+            if (is_inline_definition(sym)) {
+                entry.st_info = STB_WEAK << 4 | STT_FUNC;
+            }
         }
         /* st_size is updated while assembling instructions. */
     } else if (sym->symtype == SYM_DEFINITION) {
diff --git a/src/backend/x86_64/elf.h b/src/backend/x86_64/elf.h
index f196524..d15ff85 100644
--- a/src/backend/x86_64/elf.h
+++ b/src/backend/x86_64/elf.h
@@ -84,6 +84,7 @@ typedef struct {
 
 #define STB_LOCAL 0
 #define STB_GLOBAL 1
+#define STB_WEAK 2
 
 #define STT_NOTYPE 0
 #define STT_OBJECT 1
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index cab30e1..16374f6 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1044,7 +1044,8 @@ static struct block *init_declarator(
     struct block *parent,
     Type base,
     enum symtype symtype,
-    enum linkage linkage)
+    enum linkage linkage,
+    int is_inline)
 {
     Type type;
     String name = SHORT_STRING_INIT(""), asm_name = SHORT_STRING_INIT("");
@@ -1109,6 +1110,17 @@ static struct block *init_declarator(
         sym->n = 0;
     }
 
+    /*
+     * A single file scope declaration without 'inline', or with extern,
+     * makes an inline definition an external definition.
+     */
+    if (sym->linkage == LINK_EXTERN
+        && !is_inline
+        && !current_scope_depth(&ns_ident))
+    {
+        sym->external = 1;
+    }
+
     switch (current_scope_depth(&ns_ident)) {
     case 0: break;
     case 1: /* Parameters from old-style function definitions. */
@@ -1318,20 +1330,25 @@ INTERNAL struct block *declaration(
 
         if (linkage == LINK_INTERN || linkage == LINK_EXTERN) {
             decl = cfg_init();
-            init_declarator(decl, decl->body, type, symtype, linkage);
+            init_declarator(
+                decl,
+                decl->body,
+                type,
+                symtype,
+                linkage,
+                info.is_inline && info.storage_class != EXTERN);
             if (!decl->symbol) {
                 cfg_discard(decl);
             } else if (is_function(decl->symbol->type)) {
                 if (info.is_inline) {
                     sym = (struct symbol *) decl->symbol;
                     sym->inlined = 1;
-                    sym->referenced |= info.storage_class == EXTERN;
                 }
 
                 return parent;
             }
         } else {
-            parent = init_declarator(def, parent, type, symtype, linkage);
+            parent = init_declarator(def, parent, type, symtype, linkage, 0);
         }
 
         if (!try_consume(','))
diff --git a/src/parser/parse.c b/src/parser/parse.c
index d234e92..ff3d7af 100644
--- a/src/parser/parse.c
+++ b/src/parser/parse.c
@@ -222,7 +222,7 @@ static struct definition *pop_inline_function(void)
         def = array_get(&inline_definitions, i);
         assert(is_function(def->symbol->type));
         assert(def->symbol->inlined);
-        if (def->symbol->referenced) {
+        if (def->symbol->referenced || def->symbol->external) {
             array_erase(&inline_definitions, i);
             return def;
         }
-- 
2.43.0


From 500a142e2ad4ed1a26d6aed20c180aed1979bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 096/130] fix: -dot fails an assertion

---
 src/backend/x86_64/compile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index f084fb7..fc5d352 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -3514,6 +3514,8 @@ INTERNAL void set_compile_target(FILE *stream, const char *file)
 {
     switch (context.target) {
     default: assert(0);
+    case TARGET_IR_DOT:
+        break;
     case TARGET_ASM:
         asm_init(stream, file);
         enter_context = asm_symbol;
@@ -3542,6 +3544,8 @@ INTERNAL int compile(struct definition *def)
     definition = def;
     switch (context.target) {
     default: assert(0);
+    case TARGET_IR_DOT:
+        break;
     case TARGET_ASM:
     case TARGET_OBJ:
     case TARGET_EXE:
-- 
2.43.0


From 9019c3e6febe23cefdf2d3f68b25a54b62e42306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 097/130] fix: first write to a section of a later file may
 exceed the buffer

---
 src/backend/x86_64/elf.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/backend/x86_64/elf.c b/src/backend/x86_64/elf.c
index 0c7a50c..d4f4394 100644
--- a/src/backend/x86_64/elf.c
+++ b/src/backend/x86_64/elf.c
@@ -126,7 +126,6 @@ INTERNAL size_t elf_section_write(int shid, const void *data, size_t n)
                 scap[shid] = 10 * n;
                 sbuf[shid].data = malloc(scap[shid]);
             } else {
-                assert(offset);
                 assert(sbuf[shid].data);
                 scap[shid] = 2 * scap[shid] + n;
                 sbuf[shid].data = realloc(sbuf[shid].data, scap[shid]);
-- 
2.43.0


From 88a58e948b2d6da9b8aee970a7789c83ef6883c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 098/130] fix: signed overflow in masks of bit-fields of 63
 bits

---
 src/parser/eval.c        | 2 +-
 src/parser/initializer.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 5a2d4e2..62f3e7f 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1732,7 +1732,7 @@ static struct var assign_field(
     type = type_unqualified(target.type);
     expr = eval_prepare_assign(def, block, expr, type);
     if (is_immediate(expr) && width < 64) {
-        mask = (1l << width) - 1;
+        mask = (1ul << width) - 1;
         expr.l.value.imm.i &= mask;
         if (is_signed(type)
             && (expr.l.value.imm.i & (1l << (width - 1))))
diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index 4c0c48d..ba43d6f 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -840,8 +840,8 @@ static int merge_assignments(struct statement *a, const struct statement *b)
 
     assert(is_field(a->t) && is_field(b->t));
 
-    m1 = ((1l << a->t.field_width) - 1);
-    m2 = ((1l << b->t.field_width) - 1);
+    m1 = ((1ul << a->t.field_width) - 1);
+    m2 = ((1ul << b->t.field_width) - 1);
 
     a->t.type = usual_arithmetic_conversion(a->t.type, b->t.type);
     a->t.field_width += b->t.field_width;
-- 
2.43.0


From 74fe554345db9fa7770df6e7dabda68549a77ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 099/130] fix: signed overflow in hash functions

---
 src/preprocessor/strtab.c | 3 ++-
 src/util/string.c         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/strtab.c b/src/preprocessor/strtab.c
index 6d93837..d673f8f 100644
--- a/src/preprocessor/strtab.c
+++ b/src/preprocessor/strtab.c
@@ -65,7 +65,8 @@ INTERNAL void strtab_reset(void)
  */
 static int djb2_hash(const char *str, size_t len)
 {
-    int c, hash = 5381;
+    int c;
+    unsigned hash = 5381;
     const char *p = str, *q = str + len;
 
     while (p < q) {
diff --git a/src/util/string.c b/src/util/string.c
index 3fb3869..749cdb7 100644
--- a/src/util/string.c
+++ b/src/util/string.c
@@ -99,7 +99,8 @@ INTERNAL int str_has_chr(String s, char c)
 
 INTERNAL int str_hash(String str)
 {
-    int hash, i;
+    int i;
+    unsigned hash;
     union {
         String s;
         int d[4];
-- 
2.43.0


From 4f276ca630e2825dd83e4cc181db0bc1fdc3d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 100/130] fix: buffer overflow in -dot output of long names,
 strings and numbers

---
 src/backend/dot.c | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/backend/dot.c b/src/backend/dot.c
index 5cf5b10..6645ce3 100644
--- a/src/backend/dot.c
+++ b/src/backend/dot.c
@@ -9,21 +9,31 @@
 #include <stdio.h>
 #include <string.h>
 
-#define MAX_BUF_LEN 1024
+/* Large enough for the digits of any number. */
+#define MIN_BUF_LEN 5120
 #define BUFFERS 4
 
-static char buffer[BUFFERS][MAX_BUF_LEN];
+static struct {
+    char *data;
+    size_t cap;
+} buffers[BUFFERS];
 
 /*
  * Return a buffer which can be used to write string representation of
- * variable or symbol.
+ * variable or symbol, including a text of the given length.
  */
-static char *get_buffer(void)
+static char *get_buffer(size_t len)
 {
     static int i;
 
+    len += MIN_BUF_LEN;
     i = (i + 1) % BUFFERS;
-    return buffer[i];
+    if (len > buffers[i].cap) {
+        buffers[i].cap = len;
+        buffers[i].data = realloc(buffers[i].data, len);
+    }
+
+    return buffers[i].data;
 }
 
 static const char *sanitize(const struct symbol *sym)
@@ -33,11 +43,8 @@ static const char *sanitize(const struct symbol *sym)
     assert(sym->symtype == SYM_LABEL);
 
     label = sym_name(sym);
-    buffer = get_buffer();
-    strncpy(
-        buffer,
-        (label[0] == '.') ? label + 1 : label,
-        MAX_BUF_LEN);
+    buffer = get_buffer(strlen(label));
+    strcpy(buffer, (label[0] == '.') ? label + 1 : label);
     return buffer;
 }
 
@@ -48,12 +55,12 @@ static const char *escape(const struct symbol *sym)
     assert(sym->symtype == SYM_LABEL);
 
     label = sym_name(sym);
-    buffer = get_buffer();
+    buffer = get_buffer(strlen(label));
     if (label[0] == '.') {
         buffer[0] = '\\';
-        strncpy(buffer + 1, label, MAX_BUF_LEN - 1);
+        strcpy(buffer + 1, label);
     } else {
-        strncpy(buffer, label, MAX_BUF_LEN);
+        strcpy(buffer, label);
     }
 
     return buffer;
@@ -63,8 +70,14 @@ static char *vartostr(const struct var var)
 {
     int n = 0;
     const char *name = var.is_symbol ? sym_name(var.value.symbol) : NULL;
-    char *buffer = get_buffer();
+    char *buffer;
+    size_t len = name ? strlen(name) : 0;
+
+    if (var.is_symbol && var.value.symbol->symtype == SYM_LITERAL) {
+        len += str_len(var.value.symbol->value.string);
+    }
 
+    buffer = get_buffer(len);
     if (var.is_symbol && var.value.symbol->symtype == SYM_LITERAL) {
         if (var.kind == DIRECT) {
             n = sprintf(buffer, "\\\"%s\\\"",
-- 
2.43.0


From 5f2d627f7371703f9bb88604da13adae654f19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 101/130] fix: buffer overflow in -S output of long names, and
 limit on names of static variables

---
 src/backend/x86_64/assemble.c | 20 ++++++++++++++++++--
 src/parser/symtab.c           | 11 +++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/backend/x86_64/assemble.c b/src/backend/x86_64/assemble.c
index 0cc044d..9f7bef6 100644
--- a/src/backend/x86_64/assemble.c
+++ b/src/backend/x86_64/assemble.c
@@ -9,7 +9,10 @@
 #include <assert.h>
 #include <ctype.h>
 #include <stdarg.h>
+#include <stdlib.h>
+#include <string.h>
 
+/* Length of the text of an operand, not counting the symbol name. */
 #define MAX_OPERAND_TEXT_LENGTH 256
 
 static const struct symbol *current_symbol;
@@ -106,14 +109,27 @@ static const char *regname(struct registr reg)
 
 static const char *asm_address(struct address addr)
 {
-    static char buf[MAX_OPERAND_TEXT_LENGTH];
+    static char *buf;
+    static size_t cap;
 
     struct registr reg = {0};
+    const char *name = NULL;
+    size_t len = MAX_OPERAND_TEXT_LENGTH;
     int w = 0;
 
+    if (addr.sym) {
+        name = sym_name(addr.sym);
+        len += strlen(name);
+    }
+
+    if (len > cap) {
+        cap = len;
+        buf = realloc(buf, cap);
+    }
+
     reg.width = 8;
     if (addr.sym) {
-        w += sprintf(buf + w, "%s", sym_name(addr.sym));
+        w += sprintf(buf + w, "%s", name);
         switch (addr.type) {
         case ADDR_GLOBAL_OFFSET:
             assert(addr.displacement == 0);
diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index 85cca7d..cde32e8 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -203,17 +203,20 @@ INTERNAL struct symbol *sym_lookup(struct namespace *ns, String name)
 
 INTERNAL const char *sym_name(const struct symbol *sym)
 {
-    static char name[128];
+    static char *name;
+    static size_t cap;
     const char *raw;
+    size_t len;
 
     raw = str_raw(sym->name);
     if (!sym->n) {
         return raw;
     }
 
-    if (strlen(raw) > 100) {
-        error("Symbol name %s exceeds limit.", raw);
-        exit(1);
+    len = strlen(raw) + 16;
+    if (len > cap) {
+        cap = len;
+        name = realloc(name, cap);
     }
 
     /*
-- 
2.43.0


From 3857ed26714ff551d4f74f60f5a1dc15bd2bebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 102/130] fix: signed overflow in mask of a bit-field of 63
 bits assigned

---
 src/backend/x86_64/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index fc5d352..39dc706 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1307,7 +1307,7 @@ static void store_op(
         load(field, CX);
         mask = -1L;
         if (target.field_width < 64) {
-            mask = ((1L << target.field_width) - 1) << target.field_offset;
+            mask = ((1UL << target.field_width) - 1) << target.field_offset;
         }
         bitwise_imm_reg(INSTR_AND, constant(~mask, w), reg(CX, w));
         if (optype == OPT_IMM) {
-- 
2.43.0


From 2a3205d04cb13e04c0e0aeffaea7ed55d268c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 103/130] fix: numbers of generated names overflow after 32767

---
 include/lacc/symbol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lacc/symbol.h b/include/lacc/symbol.h
index a9b7532..98a8248 100644
--- a/include/lacc/symbol.h
+++ b/include/lacc/symbol.h
@@ -53,7 +53,7 @@ struct symbol {
      * Tag to disambiguate temporaries, strings, constants, labels, and
      * scoped static variables.
      */
-    short n;
+    int n;
 
     /*
      * Scope depth; 0 for global, 1 for function parameters, > 1 for
-- 
2.43.0


From 26a2869094b77193c6775d28f75c597688436919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 104/130] fix: file name of messages for all but the first file

---
 src/preprocessor/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 260abd4..5994e05 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -670,10 +670,10 @@ INTERNAL char *getprepline(void)
                 error("Unterminated conditional directive.");
                 exit(1);
             }
-            stale = 1;
             if (pop_file() == EOF) {
                 return NULL;
             }
+            stale = 1;
         }
         if (line && !in_active_block() && !is_directive(line)) {
             line = NULL;
-- 
2.43.0


From a71540762aedc433cdee9b0f0db3cd1522e2b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 105/130] fix: numbers of generated names do not depend on
 preceding files

---
 src/parser/symtab.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index cde32e8..d1e2676 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -32,6 +32,18 @@ static String
  */
 static SymbolArray temporaries;
 
+/*
+ * Numbers given to generated names. Each translation unit starts over.
+ */
+static struct {
+    int statics;
+    int temporaries;
+    int unnamed;
+    int labels;
+    int constants;
+    int strings;
+} counters;
+
 static struct symbol *alloc_sym(void)
 {
     struct symbol *sym;
@@ -139,6 +151,7 @@ INTERNAL void symtab_clear(void)
 
     array_empty(&string_types);
     hash_clear(&external, NULL);
+    memset(&counters, 0, sizeof(counters));
 }
 
 INTERNAL void symtab_finalize(void)
@@ -399,8 +412,6 @@ INTERNAL struct symbol *sym_add(
     enum symtype symtype,
     enum linkage linkage)
 {
-    static int n;
-
     int depth, has_linkage;
     struct symbol *sym, *prev;
     assert(symtype != SYM_LABEL);
@@ -449,7 +460,7 @@ INTERNAL struct symbol *sym_add(
     sym->symtype = symtype;
     sym->linkage = linkage;
     if (linkage == LINK_INTERN && sym->depth) {
-        sym->n = ++n;
+        sym->n = ++counters.statics;
     }
 
     if (sym->symtype == SYM_TAG || sym->symtype == SYM_TYPEDEF) {
@@ -484,7 +495,6 @@ INTERNAL struct symbol *sym_add(
 
 INTERNAL struct symbol *sym_create_temporary(Type type)
 {
-    static int n;
     struct symbol *sym;
 
     sym = alloc_sym();
@@ -492,13 +502,12 @@ INTERNAL struct symbol *sym_create_temporary(Type type)
     sym->linkage = LINK_NONE;
     sym->name = prefix_temporary;
     sym->type = type;
-    sym->n = ++n;
+    sym->n = ++counters.temporaries;
     return sym;
 }
 
 INTERNAL struct symbol *sym_create_unnamed(Type type)
 {
-    static int n;
     struct symbol *sym;
 
     sym = alloc_sym();
@@ -511,13 +520,12 @@ INTERNAL struct symbol *sym_create_unnamed(Type type)
     sym->symtype = SYM_DEFINITION;
     sym->name = prefix_unnamed;
     sym->type = type;
-    sym->n = ++n;
+    sym->n = ++counters.unnamed;
     return sym;
 }
 
 INTERNAL struct symbol *sym_create_label(void)
 {
-    static int n;
     struct symbol *sym;
 
     sym = alloc_sym();
@@ -525,13 +533,12 @@ INTERNAL struct symbol *sym_create_label(void)
     sym->symtype = SYM_LABEL;
     sym->linkage = LINK_INTERN;
     sym->name = prefix_label;
-    sym->n = ++n;
+    sym->n = ++counters.labels;
     return sym;
 }
 
 INTERNAL struct symbol *sym_create_constant(Type type, union value val)
 {
-    static int n;
     struct symbol *sym;
 
     sym = alloc_sym();
@@ -540,7 +547,7 @@ INTERNAL struct symbol *sym_create_constant(Type type, union value val)
     sym->symtype = SYM_CONSTANT;
     sym->linkage = LINK_INTERN;
     sym->name = prefix_constant;
-    sym->n = ++n;
+    sym->n = ++counters.constants;
     array_push_back(&ns_ident.symbols, sym);
     return sym;
 }
@@ -552,7 +559,6 @@ INTERNAL struct symbol *sym_create_constant(Type type, union value val)
  */
 INTERNAL struct symbol *sym_create_string(String str)
 {
-    static int n;
     struct symbol *sym;
     size_t len;
 
@@ -563,7 +569,7 @@ INTERNAL struct symbol *sym_create_string(String str)
     sym->symtype = SYM_LITERAL;
     sym->linkage = LINK_INTERN;
     sym->name = prefix_string;
-    sym->n = ++n;
+    sym->n = ++counters.strings;
     array_push_back(&ns_ident.symbols, sym);
     return sym;
 }
-- 
2.43.0


From e9a05af6cb60af5d6a6e28a3c9b23fd2081ac2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:04 +0000
Subject: [PATCH 106/130] fix: missing declaration of is_complete in back end

---
 include/lacc/type.h   | 3 +++
 src/parser/typetree.h | 3 ---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lacc/type.h b/include/lacc/type.h
index d33b45c..479c0f3 100644
--- a/include/lacc/type.h
+++ b/include/lacc/type.h
@@ -159,6 +159,9 @@ INTERNAL int is_flexible(Type type);
 /* Return size of type. If indirection, return size of tagged type. */
 INTERNAL size_t size_of(Type type);
 
+/* Whether the size of a type is known. */
+INTERNAL int is_complete(Type type);
+
 /* Alignment in bytes. */
 INTERNAL size_t type_alignment(Type type);
 
diff --git a/src/parser/typetree.h b/src/parser/typetree.h
index 3f45314..a0b32ec 100644
--- a/src/parser/typetree.h
+++ b/src/parser/typetree.h
@@ -142,9 +142,6 @@ INTERNAL int is_compatible_unqualified(Type l, Type r);
 /* Determine whether a type is VLA, or pointer to VLA. */
 INTERNAL int is_variably_modified(Type type);
 
-/* */
-INTERNAL int is_complete(Type type);
-
 /* Get the type the given pointer is pointing to. */
 INTERNAL Type type_deref(Type type);
 
-- 
2.43.0


From ea4c176192dfe38383b504ba2337279962679753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:27 +0000
Subject: [PATCH 107/130] fix: do not drop the last line of an inline assembly
 template without newline

---
 src/backend/x86_64/assembler.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/backend/x86_64/assembler.c b/src/backend/x86_64/assembler.c
index 1691f84..4cf95ef 100644
--- a/src/backend/x86_64/assembler.c
+++ b/src/backend/x86_64/assembler.c
@@ -412,7 +412,7 @@ INTERNAL int assemble_inline(
     struct block *target;
     const char *str, *ptr;
     size_t len, read;
-    char *buf;
+    char *buf, *text;
     int c, i;
 
     for (i = 0; i < array_len(&st.operands); ++i) {
@@ -425,8 +425,12 @@ INTERNAL int assemble_inline(
         array_push_back(&targets, target);
     }
 
+    /* The last line of the template may lack a newline. */
     len = str_len(st.template);
-    str = str_raw(st.template);
+    text = malloc(len + 1);
+    memcpy(text, str_raw(st.template), len);
+    text[len++] = '\n';
+    str = text;
     buf = calloc(len + 2, sizeof(*buf));
 
     while ((read = read_line(str, len, buf + 1, &c)) != 0) {
@@ -447,6 +451,7 @@ INTERNAL int assemble_inline(
 
     array_clear(&operands);
     array_clear(&targets);
+    free(text);
     free(buf);
     return 0;
 }
-- 
2.43.0


From 8f4714e351f08707de6825dc425229815831be29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:27 +0000
Subject: [PATCH 108/130] fix: accept instructions without operands in inline
 assembly

---
 src/backend/x86_64/assembler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/assembler.c b/src/backend/x86_64/assembler.c
index 4cf95ef..1715624 100644
--- a/src/backend/x86_64/assembler.c
+++ b/src/backend/x86_64/assembler.c
@@ -363,7 +363,7 @@ static struct instruction parse__asm__instruction(
     t = asmtok(line, &line);
     skip_whitespace(line, &line);
 
-    if (*line == '\n') {
+    if (*line == '\0') {
         instr.optype = OPT_NONE;
     } else {
         instr.optype = parse__asm__operand(line, &line, &instr.source);
-- 
2.43.0


From 768553ea4e1f0a65ea0cf7aec14837bde53facd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 109/130] fix: buffer overflow printing a large long double in
 verbose mode

---
 src/preprocessor/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index 8394243..171e1f4 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -341,7 +341,7 @@ static void expand_complete_line(TokenArray *line)
 
 static const char *stringify_token(const struct token *t)
 {
-    static char buf[512];
+    static char buf[5120]; /* LDBL_MAX has 4933 digits. */
 
     switch (t->token) {
     case PARAM:
-- 
2.43.0


From c415521af4a4d9df6020668e0504d19bf5dd557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 110/130] fix: allocate constants and addresses given as
 register or memory operands of inline assembly

---
 src/parser/statement.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/statement.c b/src/parser/statement.c
index d22ad77..23c3529 100644
--- a/src/parser/statement.c
+++ b/src/parser/statement.c
@@ -425,7 +425,8 @@ static struct asm_operand asm_operand(
         var = rvalue(def, *block, var);
     }
 
-    force_register = strchr(str, 'r') && !strchr(str, 'm');
+    force_register = strchr(str, 'r')
+        && (!strchr(str, 'm') || (var.kind != DIRECT && var.kind != DEREF));
 
     if (force_register && (var.kind != DIRECT || !is_temporary(var.value.symbol))) {
         tmp = create_var(def, var.type);
-- 
2.43.0


From 1f92d4ac0158feab0d0017d796a1c63847fb731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 111/130] fix: encoding of byte immediate with memory
 destination

---
 src/backend/x86_64/encoding.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/backend/x86_64/encoding.c b/src/backend/x86_64/encoding.c
index defab05..1c816f1 100644
--- a/src/backend/x86_64/encoding.c
+++ b/src/backend/x86_64/encoding.c
@@ -649,9 +649,10 @@ static void encode_imm_mem(
 
     /*
      * d is number of bytes back to opcode byte to set sign extend bit.
-     * Set zero if not supporting 1 byte immediate.
+     * Set zero if not supporting 1 byte immediate, or if explicitly 1
+     * byte operand.
      */
-    if (!s) {
+    if (!s || a.width == 1) {
         d = 0;
     }
 
-- 
2.43.0


From fc21d9f1a7babd4d0108ab93248a8795122ca9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 112/130] fix: encoding of byte registers spl, bpl, sil and dil

---
 src/backend/x86_64/encoding.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/backend/x86_64/encoding.c b/src/backend/x86_64/encoding.c
index 1c816f1..e973dc4 100644
--- a/src/backend/x86_64/encoding.c
+++ b/src/backend/x86_64/encoding.c
@@ -15,6 +15,9 @@
 #define is_64_bit_reg(arg) (((arg) >= R8 && (arg) <= R15) \
     || ((arg) >= XMM8 && (arg) <= XMM15))
 
+/* Without REX prefix, these byte registers would be AH, CH, DH and BH. */
+#define is_rex_byte_reg(arg, w) ((w) == 1 && (arg) >= SP && (arg) <= DI)
+
 #define in_byte_range(arg) ((arg) >= -128 && (arg) <= 127)
 #define in_32bit_range(arg) ((arg) >= -2147483648 && (arg) <= 2147483647)
 
@@ -421,9 +424,12 @@ static void encode_reg_reg(
     enum reg a,
     enum reg b)
 {
+    int wa, wb;
     unsigned char rex;
 
     rex = REX | B(b);
+    wa = enc.reverse ? w : ws;
+    wb = enc.reverse ? ws : w;
 
     if (enable_rex_w(enc.opc) && w != default_operand_size(enc.opc)) {
         rex = rex | W(w);
@@ -432,9 +438,11 @@ static void encode_reg_reg(
     assert(!enc.openc[1].implicit);
     if (!enc.openc[0].implicit) {
         rex |= R(a);
+    } else {
+        wa = 0;
     }
 
-    if (rex != REX) {
+    if (rex != REX || is_rex_byte_reg(a, wa) || is_rex_byte_reg(b, wb)) {
         c->val[c->len++] = rex;
     }
 
@@ -469,7 +477,7 @@ static void encode_mem_reg(
     }
 
     assert(!enc.openc[1].implicit);
-    if (rex != REX || ((b == SI || b == DI) && w == 1)) {
+    if (rex != REX || is_rex_byte_reg(b, w)) {
         c->val[c->len++] = rex;
     }
 
@@ -553,7 +561,7 @@ static void encode_imm_reg(
     unsigned char rex;
 
     rex = REX | W(w) | B(b);
-    if (rex != REX || ((b == SI || b == DI) && w == 1)) {
+    if (rex != REX || is_rex_byte_reg(b, w)) {
         c->val[c->len++] = rex;
     }
 
@@ -692,7 +700,7 @@ static void encode_reg(
         rex = rex | W(w);
     }
 
-    if (rex != REX) {
+    if (rex != REX || is_rex_byte_reg(r, w)) {
         c->val[c->len++] = rex;
     }
 
-- 
2.43.0


From 078b4f6b2d85dd1949790dc3a4f6ccdf07573cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 113/130] fix: encoding of displacement without base register

---
 src/backend/x86_64/encoding.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/backend/x86_64/encoding.c b/src/backend/x86_64/encoding.c
index e973dc4..66f924e 100644
--- a/src/backend/x86_64/encoding.c
+++ b/src/backend/x86_64/encoding.c
@@ -304,7 +304,6 @@ static int encode_modrm_sib_disp(
     int len = c->len;
 
     assert(!addr.sym);
-    assert(addr.base || !addr.displacement);
 
     /* Scale is 2 bits, representing 1, 2, 4 or 8. */
     assert(addr.scale == 0
@@ -323,10 +322,12 @@ static int encode_modrm_sib_disp(
 
     /* ModR/M */
     c->val[c->len++] = ((reg & 0x7) << 3) | (has_sib ? 4 : reg3(addr.base));
-    if (!in_byte_range(addr.displacement)) {
-        c->val[c->len - 1] |= 0x80;
-    } else if (has_displacement && addr.base) {
-        c->val[c->len - 1] |= 0x40;
+    if (addr.base) {
+        if (!in_byte_range(addr.displacement)) {
+            c->val[c->len - 1] |= 0x80;
+        } else if (has_displacement) {
+            c->val[c->len - 1] |= 0x40;
+        }
     }
 
     /* SIB */
-- 
2.43.0


From f1f2acf1ced052d9372ce6d30535d962357fdd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 114/130] fix: direction of sub with memory source

---
 src/backend/x86_64/encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/encoding.c b/src/backend/x86_64/encoding.c
index 66f924e..f1e8dff 100644
--- a/src/backend/x86_64/encoding.c
+++ b/src/backend/x86_64/encoding.c
@@ -197,7 +197,7 @@ static struct encoding {
     {INSTR_SHR, {"shr"}, {0}, {0xC0}, OPX_W, 0xE8, OPT_IMM_REG, {1}},
     {INSTR_SHR, {"shr"}, {0}, {0xD2}, OPX_W, 0xE8, OPT_REG_REG, {1, IMPL_CX}},
 
-    {INSTR_SUB, {"sub"}, {0}, {0x28}, OPX_SW, 0x00, OPT_REG_REG | OPT_MEM_REG | OPT_REG_MEM},
+    {INSTR_SUB, {"sub"}, {0}, {0x28}, OPX_DW, 0x00, OPT_REG_REG | OPT_MEM_REG | OPT_REG_MEM},
     {INSTR_SUB, {"sub"}, {0}, {0x80}, OPX_SW, 0x28, OPT_IMM_REG | OPT_IMM_MEM, {0}, 0, 1},
 
     {INSTR_TEST, {"test"}, {0}, {0x84}, OPX_W, 0x00, OPT_REG_REG | OPT_MEM_REG | OPT_REG_MEM},
-- 
2.43.0


From 0308ba4fc6d08758e2e9788f744816f3a876e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 115/130] fix: encoding of cmp and test with 64 bit register
 and immediate

---
 src/backend/x86_64/encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/x86_64/encoding.c b/src/backend/x86_64/encoding.c
index f1e8dff..0b98b88 100644
--- a/src/backend/x86_64/encoding.c
+++ b/src/backend/x86_64/encoding.c
@@ -140,7 +140,7 @@ static struct encoding {
 
     {INSTR_CMP, {"cmp"}, {0}, {0x38}, OPX_DW, 0x00, OPT_REG_REG | OPT_REG_MEM | OPT_MEM_REG},
     {INSTR_CMP, {"cmp"}, {0}, {0x3C}, OPX_W, 0x00, OPT_IMM_REG, {{1 | 2 | 4}, {1 | 2 | 4, IMPL_AX}}},
-    {INSTR_CMP, {"cmp"}, {0}, {0x80}, OPX_SW, 0x38, OPT_IMM_REG | OPT_IMM_MEM},
+    {INSTR_CMP, {"cmp"}, {0}, {0x80}, OPX_SW, 0x38, OPT_IMM_REG | OPT_IMM_MEM, {0}, 0, 1},
 
     {INSTR_Cxy, {"cdq"}, {0}, {0x99}, OPX_NONE, 0x00, OPT_NONE, {4}},
     {INSTR_Cxy, {"cqo"}, {0}, {0x99}, OPX_NONE, 0x00, OPT_NONE, {8}},
@@ -201,7 +201,7 @@ static struct encoding {
     {INSTR_SUB, {"sub"}, {0}, {0x80}, OPX_SW, 0x28, OPT_IMM_REG | OPT_IMM_MEM, {0}, 0, 1},
 
     {INSTR_TEST, {"test"}, {0}, {0x84}, OPX_W, 0x00, OPT_REG_REG | OPT_MEM_REG | OPT_REG_MEM},
-    {INSTR_TEST, {"test"}, {0}, {0xF6}, OPX_W, 0xC0, OPT_IMM_REG},
+    {INSTR_TEST, {"test"}, {0}, {0xF6}, OPX_W, 0xC0, OPT_IMM_REG, {0}, 0, 1},
 
     {INSTR_XOR, {"xor"}, {0}, {0x30}, OPX_DW, 0x00, OPT_REG_REG | OPT_MEM_REG | OPT_REG_MEM},
     {INSTR_XOR, {"xor"}, {0}, {0x80}, OPX_SW, 0xF0, OPT_IMM_REG | OPT_IMM_MEM, {0}, 0, 1},
-- 
2.43.0


From db6207b40fcc6a76f71ad222413190e3a7695ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 116/130] fix: save callee saved registers clobbered by inline
 assembly

---
 src/backend/x86_64/compile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 39dc706..320196b 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1780,6 +1780,13 @@ static void allocate_asmblock_registers(
             sym->memory = 1;
         }
     }
+
+    /* Make sure clobbered registers are saved, if owned by the caller. */
+    for (i = TEMP_INT_REGS; i > *int_regs; --i) {
+        if (clobbered[temp_int_reg[i - 1] - AX]) {
+            *int_regs = i;
+        }
+    }
 }
 
 /*
-- 
2.43.0


From b9230b642130f92dd744e2057d4ddad8490834c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 117/130] fix: operand references to explicit registers of
 inline assembly

---
 src/backend/x86_64/assembler.c | 22 ++++++++++++++++++++--
 src/backend/x86_64/compile.c   | 14 +++++++++++---
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/backend/x86_64/assembler.c b/src/backend/x86_64/assembler.c
index 1715624..918acf2 100644
--- a/src/backend/x86_64/assembler.c
+++ b/src/backend/x86_64/assembler.c
@@ -37,6 +37,24 @@ static array_of(struct block *) targets;
 
 INTERNAL enum instr_optype allocation(struct var var, union operand *op);
 
+INTERNAL int explicit_reg_constraint(String constraint, enum reg *reg);
+
+/* Location of operand, which is given by constraints like "a". */
+static enum instr_optype operand_location(
+    struct asm_operand asmop,
+    union operand *op)
+{
+    enum reg r;
+
+    if (explicit_reg_constraint(asmop.constraint, &r)) {
+        op->reg.r = r;
+        op->width = size_of(asmop.variable.type);
+        return OPT_REG;
+    }
+
+    return allocation(asmop.variable, op);
+}
+
 static void skip_whitespace(const char *line, const char **endptr)
 {
     while (isspace(*line)) {
@@ -263,7 +281,7 @@ static int parse_asm_address(
         }
     } else if (t.type == ASM_OP) {
         asmop = array_get(&operands, t.val);
-        opt = allocation(asmop.variable, &op);
+        opt = operand_location(asmop, &op);
         if (opt != OPT_REG) {
             error("Operand %ld must be register allocated.", t.val);
             exit(1);
@@ -332,7 +350,7 @@ static enum instr_optype parse__asm__operand(
         break;
     case ASM_OP:
         asmop = array_get(&operands, t.val);
-        opt = allocation(asmop.variable, op);
+        opt = operand_location(asmop, op);
         break;
     case ASM_LABEL:
         target = array_get(&targets, t.val);
diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 320196b..8945a07 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1683,7 +1683,7 @@ static int allocate_locals(
 
 INTERNAL enum reg get_clobbered_register(String clobber);
 
-static int explicit_reg_constraint(String constraint, enum reg *reg)
+INTERNAL int explicit_reg_constraint(String constraint, enum reg *reg)
 {
     const char *raw;
 
@@ -1692,6 +1692,10 @@ static int explicit_reg_constraint(String constraint, enum reg *reg)
         raw++;
     }
 
+    if (*raw == '&') {
+        raw++;
+    }
+
     switch (*raw) {
     case 'a': *reg = AX; break;
     case 'b': *reg = BX; break;
@@ -1744,10 +1748,14 @@ static void allocate_asmblock_registers(
 
     for (i = 0; i < array_len(&st->operands); ++i) {
         op = &array_get(&st->operands, i);
+        str = op->constraint;
+        if (explicit_reg_constraint(str, &r)) {
+            continue;
+        }
+
         assert(op->variable.kind == DIRECT || op->variable.kind == DEREF);
         sym = (struct symbol *) op->variable.value.symbol;
-        str = op->constraint;
-        if (sym->slot || sym->memory || explicit_reg_constraint(str, &r)) {
+        if (sym->slot || sym->memory) {
             continue;
         }
 
-- 
2.43.0


From f08f8ff5c8beea89522a6b41c1042bcdede5f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 118/130] fix: symbolic operand names not followed by space in
 inline assembly

---
 src/backend/x86_64/assembler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/assembler.c b/src/backend/x86_64/assembler.c
index 918acf2..2667192 100644
--- a/src/backend/x86_64/assembler.c
+++ b/src/backend/x86_64/assembler.c
@@ -140,7 +140,7 @@ static struct asm_token asmtok(const char *line, const char **endptr)
                 raw = str_raw(op->alias);
                 if (len == str_len(op->alias) && !strncmp(raw, ptr, len)) {
                     t.type = ASM_OP;
-                    ptr += len + 2;
+                    ptr += len + 1;
                     line = ptr;
                     t.val = i;
                     break;
-- 
2.43.0


From 056ff6be849c10ce7154f8135dded43429dc20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 119/130] fix: index register without scale in inline assembly

---
 src/backend/x86_64/assembler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/x86_64/assembler.c b/src/backend/x86_64/assembler.c
index 2667192..509864e 100644
--- a/src/backend/x86_64/assembler.c
+++ b/src/backend/x86_64/assembler.c
@@ -296,6 +296,7 @@ static int parse_asm_address(
     t = asmtok(line, &line);
     if (t.type == ASM_REG) {
         addr->index = parse_asm_int_reg(t.str, t.len, &w);
+        addr->scale = 1;
         t = asmtok(line, &line);
         if (t.type != ',') {
             *endptr = line;
-- 
2.43.0


From 03cb6c8382ce63d987b126f5b6fda13f1033c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:47 +0000
Subject: [PATCH 120/130] fix: trigraphs outside literals in line splices, and
 ?? that is no trigraph

A backslash written as ??/ did not continue the line, other than in
literals, and the characters after ?? that form no trigraph were lost.
---
 src/preprocessor/input.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 5994e05..1693c90 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -290,6 +290,20 @@ INTERNAL void set_input_file(const char *path)
     inject_include_files();
 }
 
+/*
+ * Return length of a line continuation, with backslash possibly written
+ * as a trigraph, or 0 if there is none at this position.
+ */
+static size_t line_splice(const char *ptr)
+{
+    if (ptr[0] == '\\') {
+        return ptr[1] == '\n' ? 2 : 0;
+    }
+
+    return (ptr[0] == '?' && ptr[1] == '?' && ptr[2] == '/' && ptr[3] == '\n')
+        ? 4 : 0;
+}
+
 /*
  * Consume input until encountering end of comment. Return number of
  * characters read, or 0 if end of input reached.
@@ -300,15 +314,16 @@ INTERNAL void set_input_file(const char *path)
 static size_t read_comment(const char *line, int *linecount)
 {
     char c;
+    size_t n;
     const char *ptr;
 
     ptr = line;
     do {
         c = *ptr++;
         if (c == '*') {
-            while (*ptr == '\\' && ptr[1] == '\n') {
+            while ((n = line_splice(ptr)) != 0) {
                 *linecount += 1;
-                ptr += 2;
+                ptr += n;
             }
             if (*ptr == '/') {
                 return ptr + 1 - line;
@@ -327,15 +342,17 @@ static size_t read_comment(const char *line, int *linecount)
 static size_t read_line_comment(const char *line, int *linecount)
 {
     char c;
+    size_t n;
     const char *ptr;
 
     ptr = line;
     do {
-        c = *ptr++;
-        if (c == '\\' && *ptr == '\n') {
+        while ((n = line_splice(ptr)) != 0) {
             *linecount += 1;
-            ptr++;
-        } else if (c == '\n') {
+            ptr += n;
+        }
+        c = *ptr++;
+        if (c == '\n') {
             return ptr - line;
         }
     } while (c != '\0');
@@ -527,8 +544,8 @@ INTERNAL size_t read_line(
                 write[-1] = ' ';
                 i += n;
                 start = &line[i + 1];
-            } else if (c == '\\' && line[i + 1] == '\n') {
-                i += 1;
+            } else if ((n = line_splice(&line[i])) != 0) {
+                i += n - 1;
                 start = &line[i + 1];
                 lines += 1;
             } else if (c == '?' && line[i + 1] == '?') {
@@ -537,6 +554,8 @@ INTERNAL size_t read_line(
                     i += 2;
                     start = &line[i + 1];
                     *write++ = c;
+                } else {
+                    count++;
                 }
             } else if (c == '/' && write[-1] == '/') {
                 n = read_line_comment(&line[i + 1], &lines);
-- 
2.43.0


From 2597bb8f1bb3e7547324b9961a98926eaa522c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:09 +0000
Subject: [PATCH 121/130] fix: line endings with carriage return

A line continuation or a macro over several lines did not work in files
with CRLF line endings.
---
 src/preprocessor/input.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 1693c90..cfcce85 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -578,6 +578,30 @@ INTERNAL size_t read_line(
     return 0;
 }
 
+/*
+ * Convert line endings with carriage return to a single newline, in the
+ * given part of the buffer. A carriage return at the end of the part
+ * can belong to a newline not yet read, so the character before it is
+ * also considered. Return the new number of characters.
+ */
+static size_t convert_newlines(char *buffer, size_t start, size_t end)
+{
+    size_t i, n;
+
+    if (start) {
+        start--;
+    }
+
+    for (i = n = start; i < end; ++i) {
+        if (buffer[i] == '\r' && i + 1 < end && buffer[i + 1] == '\n') {
+            continue;
+        }
+        buffer[n++] = buffer[i];
+    }
+
+    return n;
+}
+
 /*
  * Read the next line from file input, doing initial pre-preprocessing.
  */
@@ -598,17 +622,20 @@ static char *initial_preprocess_line(struct source *fn)
                 return NULL;
             }
             if (!fn->processed) {
-                fn->read += fread(
+                added = fread(
                     fn->buffer + fn->read,
                     sizeof(char),
                     fn->size - fn->read - 1,
                     fn->file);
+                fn->read = convert_newlines(
+                    fn->buffer, fn->read, fn->read + added);
             } else {
                 fn->read = fread(
                     fn->buffer,
                     sizeof(char),
                     fn->size - 1,
                     fn->file);
+                fn->read = convert_newlines(fn->buffer, 0, fn->read);
             }
             fn->processed = 0;
             fn->buffer[fn->read] = '\0';
-- 
2.43.0


From 8e0421b46b271c77408a0dc006718730b4c32b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:31 +0000
Subject: [PATCH 122/130] fix: hexadecimal escape sequence \x0 followed by x

strtol took 0x as a prefix, and the characters after it as the value.
---
 src/preprocessor/tokenize.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/preprocessor/tokenize.c b/src/preprocessor/tokenize.c
index e1437a0..87e90a3 100644
--- a/src/preprocessor/tokenize.c
+++ b/src/preprocessor/tokenize.c
@@ -323,6 +323,11 @@ static char convert_escape_sequence(const char *in, const char **endptr)
             error("Empty hexadecimal escape sequence.");
             exit(1);
         }
+        /* A prefix 0x, which strtol skips, is no part of the sequence. */
+        if (in[1] == '0' && tolower(in[2]) == 'x') {
+            *endptr = in + 2;
+            return '\0';
+        }
         return (char) strtol(&in[1], (char **) endptr, 16);
     case '0':
     case '1':
-- 
2.43.0


From d2f624bafb9513c8ff7ab652b5d302afc66c7d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:18 +0000
Subject: [PATCH 123/130] fix: symbol table of objects without global symbols

---
 src/backend/x86_64/elf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backend/x86_64/elf.c b/src/backend/x86_64/elf.c
index d4f4394..1ac05fc 100644
--- a/src/backend/x86_64/elf.c
+++ b/src/backend/x86_64/elf.c
@@ -747,6 +747,12 @@ INTERNAL int elf_flush(void)
     flush_relocations();
     array_empty(&pending_displacement_list);
 
+    /* There can be no symbols other than local. */
+    if (!shdr[section.symtab].sh_info) {
+        shdr[section.symtab].sh_info =
+            shdr[section.symtab].sh_size / sizeof(Elf64_Sym);
+    }
+
     /* Fill in missing offsets in section headers. */
     elf_chain_offsets();
 
-- 
2.43.0


From 537afc7bc1dc47d87e68a3b9e7823da449f3404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:18 +0000
Subject: [PATCH 124/130] fix: debug abbreviations lack an end, and the unit
 has a stray end marker

---
 src/backend/x86_64/dwarf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend/x86_64/dwarf.c b/src/backend/x86_64/dwarf.c
index 96136ad..e5c1b47 100644
--- a/src/backend/x86_64/dwarf.c
+++ b/src/backend/x86_64/dwarf.c
@@ -266,8 +266,10 @@ INTERNAL int dwarf_flush(void)
     /* Write all entries with children recursively. */
     dwarf_write_entry(dwarf_root_die);
 
-    /* End with zero byte. */
-    length = elf_section_write(section.debug_info, NULL, 1) + 1;
+    /* Abbreviations end with an entry of code 0. */
+    dwarf_write_ULEB128(section.debug_abbrev, 0);
+
+    length = elf_section_write(section.debug_info, NULL, 0);
     assert(length < 0xfffffff0);
 
     /*
-- 
2.43.0


From 53cd746a5ee96cf98637f5887d0578700da9fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:18 +0000
Subject: [PATCH 125/130] fix: debug information of several units linked
 together

Alignment put padding between units, and each referred to the first table
of abbreviations.
---
 src/backend/x86_64/dwarf.c | 6 ++++--
 src/backend/x86_64/elf.h   | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/backend/x86_64/dwarf.c b/src/backend/x86_64/dwarf.c
index e5c1b47..88da076 100644
--- a/src/backend/x86_64/dwarf.c
+++ b/src/backend/x86_64/dwarf.c
@@ -219,14 +219,14 @@ INTERNAL int dwarf_init(const char *filename)
     }
 
     section.debug_info = elf_section_init(
-        ".debug_info", SHT_PROGBITS, 0, SHN_UNDEF, 0, 8, 0);
+        ".debug_info", SHT_PROGBITS, 0, SHN_UNDEF, 0, 1, 0);
 
     section.rela_debug_info = elf_section_init(
         ".rela.debug_info", SHT_RELA, 0, section.symtab, section.debug_info, 8,
         sizeof(Elf64_Rela));
 
     section.debug_abbrev = elf_section_init(
-        ".debug_abbrev", SHT_PROGBITS, 0, SHN_UNDEF, 0, 8, 0);
+        ".debug_abbrev", SHT_PROGBITS, 0, SHN_UNDEF, 0, 1, 0);
 
     dwarf_root_die = die;
     return 0;
@@ -257,6 +257,8 @@ INTERNAL int dwarf_flush(void)
 
     elf_section_write(section.debug_info, &unit_length, 4);
     elf_section_write(section.debug_info, &version, 2);
+    elf_add_relocation(section.rela_debug_info,
+        elf_section_symbol(section.debug_abbrev), R_X86_64_32, 0, 0);
     elf_section_write(section.debug_info, &debug_abbrev_offset, 4);
     elf_section_write(section.debug_info, &address_size, 1);
 
diff --git a/src/backend/x86_64/elf.h b/src/backend/x86_64/elf.h
index d15ff85..510303d 100644
--- a/src/backend/x86_64/elf.h
+++ b/src/backend/x86_64/elf.h
@@ -116,7 +116,8 @@ enum rel_type {
     R_X86_64_64 = 1,                /* word64   S + A. */
     R_X86_64_PC32 = 2,              /* word32   S + A - P */
     R_X86_64_PLT32 = 4,             /* word32   L + A - P */
-    R_X86_64_GOTPCREL = 9           /* word32   G + GOT + A - P */
+    R_X86_64_GOTPCREL = 9,          /* word32   G + GOT + A - P */
+    R_X86_64_32 = 10                /* word32   S + A. */
 };
 
 #define ELF64_R_INFO(s, t) ((((long) s) << 32) + (((long) t) & 0xFFFFFFFFL))
-- 
2.43.0


From 4eaa95e7591d75af50e244cbe51d2c3e0ab733af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:54 +0000
Subject: [PATCH 126/130] fix: bytes outside ASCII in identifiers were looked
 up outside the table

Identifier characters were found by indexing a table with a signed char,
which for bytes of value 128 and above reads memory in front of it.
Accept these bytes, which are extended characters, in identifiers.
---
 src/preprocessor/tokenize.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/tokenize.c b/src/preprocessor/tokenize.c
index 87e90a3..d97a2a2 100644
--- a/src/preprocessor/tokenize.c
+++ b/src/preprocessor/tokenize.c
@@ -120,7 +120,9 @@ static struct token stringtonum(const char *in, const char **endptr)
 
     assert(isdigit(*in));
     while (1) {
-        if (isdigit(*in) || *in == '.' || *in == '_') {
+        if (isdigit(*in) || *in == '.' || *in == '_'
+            || (unsigned char) *in > 127)
+        {
             in++;
         } else if (isalpha(*in)) {
             if ((tolower(*in) == 'e' ||
@@ -511,9 +513,9 @@ static struct token strtostr(const char *in, const char **endptr)
 
 /*
  * Valid identifier character, except in the first position which does
- * not allow numbers.
+ * not allow numbers. Extended characters, as in UTF-8, are allowed.
  */
-#define isident(c) is_ident[(int) c]
+#define isident(c) is_ident[(unsigned char) (c)]
 
 static const char is_ident[256] = {
     0, 0, 0, 0, 0, 0, 0, 0,
@@ -533,6 +535,24 @@ static const char is_ident[256] = {
     1, 1, 1, 1, 1, 1, 1, 1,
     1, 1, 1, 1, 1, 1, 1, 1,
     1, 1, 1, 0, 0, 0, 0, 0,
+
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
+    1, 1, 1, 1, 1, 1, 1, 1,
 };
 
 static struct token strtoident(const char *in, const char **endptr)
-- 
2.43.0


From e2d7bc4798de49df34697a59aceae37fb504de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:56 +0000
Subject: [PATCH 127/130] fix: the address of an object could be assigned to

---
 src/parser/eval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 62f3e7f..1af4b49 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1416,6 +1416,7 @@ INTERNAL struct var eval_addr(
     if (is_vla(var.type) && var.kind == DIRECT) {
         assert(is_vla(var.value.symbol->type));
         var = var_direct(var.value.symbol->value.vla_address);
+        var.lvalue = 0;
         return var;
     }
 
@@ -1480,6 +1481,7 @@ INTERNAL struct var eval_addr(
     }
 
     assert(is_pointer(var.type));
+    var.lvalue = 0;
     return var;
 }
 
-- 
2.43.0


From 25dfeaf2617b754cd6f2f2376081055b60fd0d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:37 +0000
Subject: [PATCH 128/130] fix: the value of a cast, comma or conditional
 operator could be assigned to

---
 src/parser/expression.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index be7088d..5046cb3 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -142,6 +142,16 @@ static struct var modifiable(struct var target)
     return target;
 }
 
+/* The result of casts, comma and conditional operators is only a value. */
+static struct expression not_lvalue(struct expression expr)
+{
+    if (is_identity(expr) && is_scalar(expr.type)) {
+        expr.l.lvalue = 0;
+    }
+
+    return expr;
+}
+
 static struct block *postfix(
     struct definition *def,
     struct block *block)
@@ -558,7 +568,7 @@ static struct block *cast_expression(
             } else {
                 block = cast_expression(def, block);
                 value = eval(def, block, block->expr);
-                block->expr = eval_cast(def, block, value, type);
+                block->expr = not_lvalue(eval_cast(def, block, value, type));
                 return block;
             }
         default:
@@ -935,7 +945,7 @@ INTERNAL struct block *conditional_expression(
             if (is_struct_or_union(type)) {
                 block->expr = as_expr(lval);
             } else {
-                block->expr = eval_cast(def, block, lval, type);
+                block->expr = not_lvalue(eval_cast(def, block, lval, type));
             }
         }
     } else {
@@ -964,7 +974,7 @@ INTERNAL struct block *conditional_expression(
             extra->expr = as_expr(temp);
             extra->jump[0] = block;
             right->jump[0] = block;
-            block->expr = as_expr(temp);
+            block->expr = not_lvalue(as_expr(temp));
         }
     }
 
@@ -1067,6 +1077,7 @@ INTERNAL struct block *expression(struct definition *def, struct block *block)
         }
 
         block = assignment_expression(def, block);
+        block->expr = not_lvalue(block->expr);
     }
 
     return block;
-- 
2.43.0


From 847bd0252cab2bfc6c3e66878a841baf41d8570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:37 +0000
Subject: [PATCH 129/130] fix: arrays of incomplete structures were accepted,
 or ended the compiler

---
 src/parser/declaration.c | 4 +++-
 src/parser/typetree.c    | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 16374f6..13bee1b 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -277,7 +277,9 @@ static struct block *array_declarator(
         block = array_declarator(def, block, base, &base, NULL);
     }
 
-    if (!is_complete(base)) {
+    if (!is_complete(base)
+        || (is_struct_or_union(base) && !size_of(base)))
+    {
         error("Array has incomplete element type.");
         exit(1);
     }
diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index 63958b2..d814e37 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -620,13 +620,17 @@ INTERNAL struct member *get_member(Type type, int n)
 INTERNAL struct member *type_add_member(Type parent, String name, Type type)
 {
     struct member m = {0};
+    Type elem;
 
     assert(is_struct_or_union(parent) || is_function(parent));
     if (!is_function(parent)) {
+        for (elem = type; is_array(elem); elem = type_next(elem))
+            ;
+
         if (is_function(type)
             || is_void(type)
-            || (is_struct_or_union(type)
-                && (!size_of(type) || type.ref == parent.ref)))
+            || (is_struct_or_union(elem)
+                && (!size_of(elem) || elem.ref == parent.ref)))
         {
             error("Member '%s' has incomplete type.", str_raw(name));
             exit(1);
-- 
2.43.0


From 89a157d4a0a3f545e583aee21103b663ad682842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:32 +0000
Subject: [PATCH 130/130] fix: a structure of only a flexible array member
 ended the compiler

---
 src/parser/typetree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index d814e37..fd98988 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -834,7 +834,7 @@ INTERNAL void type_seal(Type type)
     } else {
         assert(is_struct_or_union(type));
         align = remove_anonymous_fields(t);
-        if (align == 0) {
+        if (align == 0 || !t->size) {
             error("%s has no named members.",
                 is_struct(type) ? "Struct" : "Union");
             exit(1);
-- 
2.43.0

