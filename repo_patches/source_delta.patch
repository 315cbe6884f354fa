From a2976cbda29578893e8f4d29d2e530dd6b26dce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:16 +0000
Subject: [PATCH 01/89] fix: accept int in any position next to short in
 declaration specifiers

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index 8a174ba..c1b3f8f 100644
--- a/parser.c
+++ b/parser.c
@@ -519,6 +519,10 @@ static BaseType *parse_declaration_specifiers() {
         seen_int = 0;
         type = new_type(TYPE_LONG);
     }
+    if (seen_int && seen_short) {
+        seen_int = 0;
+        type = new_type(TYPE_SHORT);
+    }
 
     int data_type_sum =
         seen_void + seen_char + seen_short + seen_int + seen_long +
-- 
2.43.0


From fa31f91aee893598992e4024bfcc86e46e10fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:16 +0000
Subject: [PATCH 02/89] fix: let the right operands of * / % and < > <= >=
 contain postfix ++/-- and <<

---
 constexpr.c |  8 ++++----
 parser.c    | 14 +++++++-------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 0182a4c..ceef628 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -444,10 +444,10 @@ Value *parse_constant_expression(int level) {
             case TOK_MINUS:          value = parse_binary_expression(IR_SUB,  TOK_MULTIPLY,     value); break;
             case TOK_BITWISE_RIGHT:  value = parse_binary_expression(IR_BSHR, TOK_PLUS,         value); break;
             case TOK_BITWISE_LEFT:   value = parse_binary_expression(IR_BSHL, TOK_PLUS,         value); break;
-            case TOK_LT:             value = parse_binary_expression(IR_LT,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_GT:             value = parse_binary_expression(IR_GT,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_LE:             value = parse_binary_expression(IR_LE,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_GE:             value = parse_binary_expression(IR_GE,   TOK_BITWISE_RIGHT,value); break;
+            case TOK_LT:             value = parse_binary_expression(IR_LT,   TOK_BITWISE_LEFT, value); break;
+            case TOK_GT:             value = parse_binary_expression(IR_GT,   TOK_BITWISE_LEFT, value); break;
+            case TOK_LE:             value = parse_binary_expression(IR_LE,   TOK_BITWISE_LEFT, value); break;
+            case TOK_GE:             value = parse_binary_expression(IR_GE,   TOK_BITWISE_LEFT, value); break;
             case TOK_DBL_EQ:         value = parse_binary_expression(IR_EQ,   TOK_LT,           value); break;
             case TOK_NOT_EQ:         value = parse_binary_expression(IR_NE,   TOK_LT,           value); break;
             case TOK_AMPERSAND:      value = parse_binary_expression(IR_BAND, TOK_DBL_EQ,       value); break;
diff --git a/parser.c b/parser.c
index c1b3f8f..1241a0b 100644
--- a/parser.c
+++ b/parser.c
@@ -2882,17 +2882,17 @@ static void parse_expression(int level) {
             }
 
             // In order of precedence
-            case TOK_MULTIPLY:         next(); parse_arithmetic_operation(TOK_DOT, IR_MUL, 0); break;
-            case TOK_DIVIDE:           next(); parse_arithmetic_operation(TOK_DOT, IR_DIV, 0); break;
-            case TOK_MOD:              next(); parse_arithmetic_operation(TOK_DOT, IR_MOD, 0); break;
+            case TOK_MULTIPLY:         next(); parse_arithmetic_operation(TOK_INC, IR_MUL, 0); break;
+            case TOK_DIVIDE:           next(); parse_arithmetic_operation(TOK_INC, IR_DIV, 0); break;
+            case TOK_MOD:              next(); parse_arithmetic_operation(TOK_INC, IR_MOD, 0); break;
             case TOK_PLUS:             next(); parse_addition(TOK_MULTIPLY, 0); break;
             case TOK_MINUS:            next(); parse_subtraction(TOK_MULTIPLY); break;
             case TOK_BITWISE_RIGHT:    next(); parse_bitwise_shift(TOK_PLUS, IR_BSHR, IR_ASHR); break;
             case TOK_BITWISE_LEFT:     next(); parse_bitwise_shift(TOK_PLUS, IR_BSHL, IR_BSHL); break;
-            case TOK_LT:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_LT,   new_type(TYPE_INT)); break;
-            case TOK_GT:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_GT,   new_type(TYPE_INT)); break;
-            case TOK_LE:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_LE,   new_type(TYPE_INT)); break;
-            case TOK_GE:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_GE,   new_type(TYPE_INT)); break;
+            case TOK_LT:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT, IR_LT,   new_type(TYPE_INT)); break;
+            case TOK_GT:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT, IR_GT,   new_type(TYPE_INT)); break;
+            case TOK_LE:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT, IR_LE,   new_type(TYPE_INT)); break;
+            case TOK_GE:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT, IR_GE,   new_type(TYPE_INT)); break;
             case TOK_DBL_EQ:           next(); parse_arithmetic_operation(TOK_LT,            IR_EQ,   new_type(TYPE_INT)); break;
             case TOK_NOT_EQ:           next(); parse_arithmetic_operation(TOK_LT,            IR_NE,   new_type(TYPE_INT)); break;
             case TOK_AMPERSAND:        next(); parse_arithmetic_operation(TOK_DBL_EQ,        IR_BAND, 0); break;
-- 
2.43.0


From b166724243e67ed565605e40302fbb53a2fb5d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:15 +0000
Subject: [PATCH 03/89] fix: evaluate constant integer expressions in their own
 type, including unary operators, unsigned operands and mixed sizes

---
 constexpr.c | 121 +++++++++++++++++++++++++++++-----------------------
 instrsel.c  |  25 +++++------
 2 files changed, 78 insertions(+), 68 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index ceef628..1a27a95 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -14,6 +14,26 @@ static Value *indirect(Value *value) {
     return value;
 }
 
+// Reduce an integer to the range of its type, sign or zero extended to a long.
+static long truncate_to_integer_type(long value, Type *type) {
+    switch (type->type) {
+        case TYPE_CHAR:  return type->is_unsigned ? (unsigned char)  value : (char)  value;
+        case TYPE_SHORT: return type->is_unsigned ? (unsigned short) value : (short) value;
+        case TYPE_ENUM:
+        case TYPE_INT:   if (type->is_unsigned) return (unsigned int) value; else return (int) value;
+        default:         return value;
+    }
+}
+
+static Value *make_evaluated_integer(long value, Type *type) {
+    Value *v = new_value();
+    v->type = type;
+    v->is_constant = 1;
+    v->int_value = truncate_to_integer_type(value, type);
+
+    return v;
+}
+
 Value *evaluate_const_unary_int_operation(int operation, Value *value) {
     long r;
 
@@ -24,13 +44,9 @@ Value *evaluate_const_unary_int_operation(int operation, Value *value) {
     else return 0;
 
     // Perform integer promotions everywhere except for logical not,
-    Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : integer_promote_type(value->type);
-    v->type->is_unsigned = value->type->is_unsigned;
-    v->is_constant = 1;
-    v->int_value = r;
+    Type *type = operation == IR_LNOT ? new_type(TYPE_INT) : dup_type(integer_promote_type(value->type));
 
-    return v;
+    return make_evaluated_integer(r, type);
 }
 
 Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
@@ -45,7 +61,7 @@ Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
 
     // Perform integer promotions everywhere except for logical not,
     Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : value->type;
+    v->type = operation == IR_LNOT ? new_type(TYPE_INT) : value->type;
     v->is_constant = 1;
     if (is_int) v->int_value = i; else v->fp_value = ld;
 
@@ -53,58 +69,56 @@ Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
 }
 
 Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2) {
-    int is_unsigned = src1->type->is_unsigned;
-    int is_long = src1->type->type == TYPE_LONG || src2->type->type == TYPE_LONG;
-
-    int ui =  is_unsigned && !is_long;
-    int ul =  is_unsigned &&  is_long;
-    int si = !is_unsigned && !is_long;
-    int sl = !is_unsigned &&  is_long;
+    // The type the operation is done in
+    Type *type;
+    if (operation == IR_BSHL || operation == IR_BSHR || operation == IR_ASHR)
+        type = is_integer_type(src1->type) ? dup_type(integer_promote_type(src1->type)) : dup_type(src1->type);
+    else
+        type = dup_type(operation_type(src1, src2, 0));
 
-    unsigned int  s1ui = (unsigned int)  src1->int_value;
-    unsigned long s1ul = (unsigned long) src1->int_value;
-    int           s1si = (int)           src1->int_value;
-    long          s1sl = (long)          src1->int_value;
+    int is_unsigned = type->is_unsigned || type->type == TYPE_PTR;
 
-    unsigned int  s2ui = (unsigned int)  src2->int_value;
-    unsigned long s2ul = (unsigned long) src2->int_value;
-    int           s2si = (int)           src2->int_value;
-    long          s2sl = (long)          src2->int_value;
+    long          s1sl = truncate_to_integer_type(src1->int_value, type);
+    long          s2sl = src2->int_value;
+    if (operation != IR_BSHL && operation != IR_BSHR && operation != IR_ASHR) s2sl = truncate_to_integer_type(s2sl, type);
+    unsigned long s1ul = (unsigned long) s1sl;
+    unsigned long s2ul = (unsigned long) s2sl;
 
     unsigned long r = 0;
 
-    int divisor = ui ? s2ui : ul ? s2ul : si ? s2si : s2sl;
-    if (operation == IR_DIV && divisor == 0) error("Division by zero");
-    if (operation == IR_MOD && divisor == 0) error("Modulus by zero");
-
-         if (operation == IR_ADD ) { if (ui) r = s1ui +  s2ui; else if (ul) r = s1ul +  s2ul; else if (si) r = s1si +  s2si; else if (sl) r = s1sl +  s2sl; }
-    else if (operation == IR_SUB ) { if (ui) r = s1ui -  s2ui; else if (ul) r = s1ul -  s2ul; else if (si) r = s1si -  s2si; else if (sl) r = s1sl -  s2sl; }
-    else if (operation == IR_MUL ) { if (ui) r = s1ui *  s2ui; else if (ul) r = s1ul *  s2ul; else if (si) r = s1si *  s2si; else if (sl) r = s1sl *  s2sl; }
-    else if (operation == IR_DIV ) { if (ui) r = s1ui /  s2ui; else if (ul) r = s1ul /  s2ul; else if (si) r = s1si /  s2si; else if (sl) r = s1sl /  s2sl; }
-    else if (operation == IR_MOD ) { if (ui) r = s1ui %  s2ui; else if (ul) r = s1ul %  s2ul; else if (si) r = s1si %  s2si; else if (sl) r = s1sl %  s2sl; }
-    else if (operation == IR_LAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul && s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl && s2sl; }
-    else if (operation == IR_LOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul || s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl || s2sl; }
-    else if (operation == IR_BAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul &  s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl &  s2sl; }
-    else if (operation == IR_BOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul |  s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl |  s2sl; }
-    else if (operation == IR_XOR ) { if (ui) r = s1ui ^  s2ui; else if (ul) r = s1ul ^  s2ul; else if (si) r = s1si ^  s2si; else if (sl) r = s1sl ^  s2sl; }
-    else if (operation == IR_BSHL) { if (ui) r = s1ui << s2ui; else if (ul) r = s1ul << s2ul; else if (si) r = s1si << s2si; else if (sl) r = s1sl << s2sl; }
-    else if (operation == IR_BSHR) { if (ui) r = s1ui >> s2ui; else if (ul) r = s1ul >> s2ul; else if (si) r = s1si >> s2si; else if (sl) r = s1sl >> s2sl; }
-    else if (operation == IR_ASHR) { if (ui) r = s1ui >> s2ui; else if (ul) r = s1ul >> s2ul; else if (si) r = s1si >> s2si; else if (sl) r = s1sl >> s2sl; }
-    else if (operation == IR_EQ  ) { if (ui) r = s1ui == s2ui; else if (ul) r = s1ul == s2ul; else if (si) r = s1si == s2si; else if (sl) r = s1sl == s2sl; }
-    else if (operation == IR_NE  ) { if (ui) r = s1ui != s2ui; else if (ul) r = s1ul != s2ul; else if (si) r = s1si != s2si; else if (sl) r = s1sl != s2sl; }
-    else if (operation == IR_LT  ) { if (ui) r = s1ui <  s2ui; else if (ul) r = s1ul <  s2ul; else if (si) r = s1si <  s2si; else if (sl) r = s1sl <  s2sl; }
-    else if (operation == IR_GT  ) { if (ui) r = s1ui >  s2ui; else if (ul) r = s1ul >  s2ul; else if (si) r = s1si >  s2si; else if (sl) r = s1sl >  s2sl; }
-    else if (operation == IR_LE  ) { if (ui) r = s1ui <= s2ui; else if (ul) r = s1ul <= s2ul; else if (si) r = s1si <= s2si; else if (sl) r = s1sl <= s2sl; }
-    else if (operation == IR_GE  ) { if (ui) r = s1ui >= s2ui; else if (ul) r = s1ul >= s2ul; else if (si) r = s1si >= s2si; else if (sl) r = s1sl >= s2sl; }
-    else return 0;
-
-    Value *v = new_value();
-    v->type = operation_type(src1, src2, 0);
-    v->type->is_unsigned = is_unsigned;
-    v->is_constant = 1;
-    v->int_value = r;
+    if (operation == IR_DIV && s2sl == 0) error("Division by zero");
+    if (operation == IR_MOD && s2sl == 0) error("Modulus by zero");
+
+    // Avoid a trap on the overflow when the lowest long is divided by minus one
+    int is_negation = !is_unsigned && s2sl == -1;
+
+    // Arithmetic on signed integers wraps in the same way as on unsigned integers
+         if (operation == IR_ADD ) r = s1ul + s2ul;
+    else if (operation == IR_SUB ) r = s1ul - s2ul;
+    else if (operation == IR_MUL ) r = s1ul * s2ul;
+    else if (operation == IR_DIV ) { if (is_unsigned) r = s1ul / s2ul; else r = is_negation ? -s1ul : s1sl / s2sl; }
+    else if (operation == IR_MOD ) { if (is_unsigned) r = s1ul % s2ul; else r = is_negation ? 0     : s1sl % s2sl; }
+    else if (operation == IR_BAND) r = s1ul & s2ul;
+    else if (operation == IR_BOR ) r = s1ul | s2ul;
+    else if (operation == IR_XOR ) r = s1ul ^ s2ul;
+    else if (operation == IR_BSHL) r = s1ul << s2ul;
+    else if (operation == IR_BSHR) { if (is_unsigned) r = s1ul >> s2ul; else r = s1sl >> s2sl; }
+    else if (operation == IR_ASHR) { if (is_unsigned) r = s1ul >> s2ul; else r = s1sl >> s2sl; }
+    else {
+             if (operation == IR_LAND) r = src1->int_value && src2->int_value;
+        else if (operation == IR_LOR ) r = src1->int_value || src2->int_value;
+        else if (operation == IR_EQ  ) r = s1ul == s2ul;
+        else if (operation == IR_NE  ) r = s1ul != s2ul;
+        else if (operation == IR_LT  ) { if (is_unsigned) r = s1ul <  s2ul; else r = s1sl <  s2sl; }
+        else if (operation == IR_GT  ) { if (is_unsigned) r = s1ul >  s2ul; else r = s1sl >  s2sl; }
+        else if (operation == IR_LE  ) { if (is_unsigned) r = s1ul <= s2ul; else r = s1sl <= s2sl; }
+        else if (operation == IR_GE  ) { if (is_unsigned) r = s1ul >= s2ul; else r = s1sl >= s2sl; }
+        else return 0;
+
+        type = new_type(TYPE_INT);
+    }
 
-    return v;
+    return make_evaluated_integer(r, type);
 }
 
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type) {
@@ -345,6 +359,7 @@ Value *parse_constant_expression(int level) {
 
         case TOK_INTEGER:
             value = new_integral_constant(integers_are_longs ? TYPE_LONG : cur_lexer_type->type, cur_long);
+            value->type->is_unsigned = cur_lexer_type->is_unsigned;
             next();
             break;
 
diff --git a/instrsel.c b/instrsel.c
index c73ff10..9863bdb 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -604,13 +604,10 @@ static Value *merge_cst_node(IGraph *igraph, int node_id, Value *v) {
     return v;
 }
 
-static Value *merge_cst_int_node(IGraph *igraph, int node_id, long constant_value, int is_unsigned) {
-    Value *v = new_value();
-    v->type = new_type(TYPE_LONG);
-    v->type->is_unsigned = is_unsigned;
-    v->is_constant = 1;
-    v->int_value = constant_value;
-    return merge_cst_node(igraph, node_id, v);
+static Value *merge_cst_int_node(IGraph *igraph, int node_id, Value *value) {
+    if (!value) return 0;
+
+    return merge_cst_node(igraph, node_id, value);
 }
 
 static Value *merge_cst_fp_node(IGraph *igraph, int node_id, Type *type, long double constant_value) {
@@ -622,12 +619,10 @@ static Value *merge_cst_fp_node(IGraph *igraph, int node_id, Type *type, long do
 }
 
 static Value* merge_integer_constants(IGraph *igraph, int node_id, int operation, Value *src1, Value *src2) {
-    Value *value = evaluate_const_binary_int_operation(operation, src1, src2);
+    // Division by zero is undefined, but only when it is executed
+    if ((operation == IR_DIV || operation == IR_MOD) && !src2->int_value) return 0;
 
-    if (!value)
-        return 0;
-    else
-        return merge_cst_int_node(igraph, node_id, value->int_value, value->type->is_unsigned);
+    return merge_cst_int_node(igraph, node_id, evaluate_const_binary_int_operation(operation, src1, src2));
 }
 
 static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Value *src1, Value *src2, Type *type) {
@@ -636,9 +631,9 @@ static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Val
     if (!value)
         return 0;
     else if (is_floating_point_type(value->type))
-        merge_cst_fp_node(igraph, node_id, type, value->fp_value);
+        return merge_cst_fp_node(igraph, node_id, type, value->fp_value);
     else
-        merge_cst_int_node(igraph, node_id, value->int_value, 0);
+        return merge_cst_int_node(igraph, node_id, value);
 }
 
 static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
@@ -664,7 +659,7 @@ static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
     if (!src1 || !cst1) return 0;
 
     // Unary operations
-    if (operation == IR_BNOT) return merge_cst_int_node(igraph, node_id, ~src1->int_value, src1->type->is_unsigned);
+    if (operation == IR_BNOT) return merge_cst_int_node(igraph, node_id, evaluate_const_unary_int_operation(operation, src1));
 
     // Binary operations
     int cst2 = cst1 && (src2 && src2->is_constant);
-- 
2.43.0


From f0a47e520110257de8382ea22ee6cf44a2bdbbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:29 +0000
Subject: [PATCH 04/89] fix: apply element size and offset to addresses of
 arrays in static initializers

---
 constexpr.c | 11 +++++++++++
 parser.c    |  1 +
 2 files changed, 12 insertions(+)

diff --git a/constexpr.c b/constexpr.c
index 1a27a95..9bb1803 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -220,10 +220,21 @@ static Value *parse_unary_expression(int operation) {
         return evaluate_const_unary_int_operation(operation, value);
 }
 
+static void decay_global_array(Value *value) {
+    if (value->global_symbol && value->type->type == TYPE_ARRAY) {
+        value->type = decay_array_to_pointer(value->type);
+        value->is_address_of = 1;
+    }
+}
+
 static Value *parse_address_plus_minus(int operation, Value *value1, Value *value2) {
     if (value1->is_string_literal) value1->type = decay_array_to_pointer(value1->type);
     if (value2->is_string_literal) value2->type = decay_array_to_pointer(value2->type);
 
+    // Arrays with static storage decay into a pointer to their first element
+    decay_global_array(value1);
+    decay_global_array(value2);
+
     if (operation == IR_ADD) check_plus_operation_type(value1, value2, 0);
     else if (operation == IR_SUB) check_minus_operation_type(value1, value2);
 
diff --git a/parser.c b/parser.c
index 1241a0b..9fa1c60 100644
--- a/parser.c
+++ b/parser.c
@@ -1798,6 +1798,7 @@ static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
         }
         else if (scalar->type->type == TYPE_ARRAY) {
             in->symbol = scalar->global_symbol;
+            in->address_of_offset = scalar->address_of_offset;
         }
         else {
             in->data = wmalloc(sizeof(long));
-- 
2.43.0


From 39b391ee34f9379a13c500b4d097ebf0bae9c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 05/89] fix: static initializers with offsetof-like addresses
 crashed the compiler

---
 constexpr.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 9bb1803..aefe86f 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -337,11 +337,12 @@ Value *parse_constant_expression(int level) {
                 error("Illegal operand to & in constant expression");
 
             if (value->is_constant) {
+                // An address relative to a constant, such as in offsetof
                 value->int_value += value->address_of_offset;
-                value->is_constant = 0;
+                value->address_of_offset = 0;
             }
-
-            value->is_address_of = 1;
+            else
+                value->is_address_of = 1;
 
             // Hacky horror, only create a pointer unless it's already a pointer to a function
             if (!is_pointer_to_function_type(value->type))
-- 
2.43.0


From 1c0a0563b9d5dd77410416c0ce7f190e79f9075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 06/89] fix: do not evaluate the operand of sizeof

---
 parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser.c b/parser.c
index 9fa1c60..332b7ff 100644
--- a/parser.c
+++ b/parser.c
@@ -2167,6 +2167,8 @@ int parse_sizeof(parse_expression_function_type expr) {
 
     Type *type;
     Value *expression = 0;
+    Tac *ir_tail = ir;
+
     if (cur_token == TOK_LPAREN) {
         // Sizeof(type) or sizeof(expression)
         next();
@@ -2184,6 +2186,12 @@ int parse_sizeof(parse_expression_function_type expr) {
     if (expression) {
         if (expression->bit_field_size) error("Cannot take sizeof a bit field");
         type = expression->type;
+
+        // The operand isn't evaluated, discard any code generated for it
+        if (ir != ir_tail) {
+            ir = ir_tail;
+            ir->next = 0;
+        }
     }
 
     if (is_incomplete_type(type)) error("Cannot take sizeof an incomplete type");
-- 
2.43.0


From 446dd2b430afbb1076bbd392ce4864af236dd94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 07/89] fix: compound assignments left their lvalue on the
 value stack, replacing the left operand of an enclosing expression

---
 parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 332b7ff..45622d1 100644
--- a/parser.c
+++ b/parser.c
@@ -2007,7 +2007,9 @@ Value *prep_comp_assign(void) {
 
 // Finish compound assignment
 static void finish_comp_assign(Value *v1) {
-    push(add_convert_type_if_needed(pop(), v1->type));
+    Value *result = pop();
+    pop(); // Pop the lvalue of the assignment off the stack
+    push(add_convert_type_if_needed(result, v1->type));
     add_parser_instruction(IR_MOVE, v1, vtop(), 0);
 }
 
-- 
2.43.0


From c17024cce694700f3f9d9ab8656fcc10a8fef4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 08/89] fix: bit-field increment, decrement and compound
 assignment, 32 bit wide fields and integer promotion of narrow fields

---
 ir.c     |  4 ++--
 parser.c | 26 +++++++++++++++++++-------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/ir.c b/ir.c
index 7cd46eb..7493fae 100644
--- a/ir.c
+++ b/ir.c
@@ -1017,7 +1017,7 @@ static void add_load_bit_field(Function *function, Tac *ir) {
             shifted_value = loaded_value;
 
         // Apply mask
-        unsigned int mask = (1 << bit_size) - 1;
+        unsigned int mask = bit_size == 32 ? -1 : (1 << bit_size) - 1;
         ir = insert_instruction_after_from_operation(ir, IR_BAND, dst, shifted_value, new_integral_constant(TYPE_INT, mask));
     }
     else {
@@ -1036,7 +1036,7 @@ static void add_load_bit_field(Function *function, Tac *ir) {
         if (32 - bit_size)
             ir = insert_instruction_after_from_operation(ir, IR_ASHR, dst, shifted_value, new_integral_constant(TYPE_INT, 32 - bit_size));
         else
-            dst = shifted_value;
+            ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, shifted_value, 0);
     }
 }
 
diff --git a/parser.c b/parser.c
index 45622d1..96cb2f3 100644
--- a/parser.c
+++ b/parser.c
@@ -146,7 +146,8 @@ static void *pop_void(void) {
 static Value *load_bit_field(Value *src1) {
     Value *dst = new_value();
     dst->type = new_type(TYPE_INT);
-    dst->type->is_unsigned = src1->type->is_unsigned;
+    // Integer promotions: an int can hold all values of an unsigned bit field with less than 32 bits
+    dst->type->is_unsigned = src1->type->is_unsigned && src1->bit_field_size == 32;
     dst->vreg = new_vreg();
     add_parser_instruction(IR_LOAD_BIT_FIELD, dst, src1, 0);
 
@@ -1993,6 +1994,20 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
     return it;
 }
 
+// Convert src to the type of dst, store it in dst and push the stored value
+static void store_and_push(Value *dst, Value *src) {
+    src = add_convert_type_if_needed(src, dst->type);
+
+    if (dst->bit_field_size) {
+        add_parser_instruction(IR_SAVE_BIT_FIELD, dst, src, 0);
+        push(load_bit_field(dst));
+    }
+    else {
+        add_parser_instruction(IR_MOVE, dst, src, 0);
+        push(src);
+    }
+}
+
 // Prepare compound assignment
 Value *prep_comp_assign(void) {
     next();
@@ -2009,8 +2024,7 @@ Value *prep_comp_assign(void) {
 static void finish_comp_assign(Value *v1) {
     Value *result = pop();
     pop(); // Pop the lvalue of the assignment off the stack
-    push(add_convert_type_if_needed(result, v1->type));
-    add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+    store_and_push(v1, result);
 }
 
 static void parse_addition(int level, int for_array_subscript) {
@@ -2674,8 +2688,7 @@ static void parse_expression(int level) {
             push(src1);
             push_value_size_constant(src1);
             arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
-            push(add_convert_type_if_needed(pop(), v1->type));
-            add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+            store_and_push(v1, pop());
 
             break;
         }
@@ -2879,8 +2892,7 @@ static void parse_expression(int level) {
                 push(src1);
                 push_value_size_constant(src1);
                 arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
-                push(add_convert_type_if_needed(pop(), v1->type));
-                add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+                store_and_push(v1, pop());
                 pop(); // Pop the lvalue of the assignment off the stack
                 push(src1); // Push the original rvalue back on the value stack
                 break;
-- 
2.43.0


From ae6c54cfd3d10de763e799a35ba7bcff99daad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 09/89] fix: convert constants to the type of their
 destination, evaluate floating point constants in their own type and do not
 evaluate short circuited constant operands

---
 constexpr.c | 165 ++++++++++++++++++++++++++++++++++++++++++----------
 instrutil.c |   2 +-
 lexer.c     |   6 +-
 parser.c    |  32 +---------
 4 files changed, 142 insertions(+), 63 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index aefe86f..8453406 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -5,6 +5,7 @@
 #include "wcc.h"
 
 static int integers_are_longs;
+static int unevaluated_depth; // Non-zero when parsing an operand that isn't evaluated
 
 static Value *indirect(Value *value) {
     if (!is_pointer_type(value->type)) error("Cannot dereference a non-pointer");
@@ -25,6 +26,13 @@ static long truncate_to_integer_type(long value, Type *type) {
     }
 }
 
+// Round a floating point value to the precision of its type
+static long double round_to_floating_point_type(long double value, Type *type) {
+    if (type->type == TYPE_FLOAT)  return (float)  value;
+    if (type->type == TYPE_DOUBLE) return (double) value;
+    return value;
+}
+
 static Value *make_evaluated_integer(long value, Type *type) {
     Value *v = new_value();
     v->type = type;
@@ -86,6 +94,9 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
 
     unsigned long r = 0;
 
+    // Nothing needs to be calculated in operands that aren't evaluated
+    if (unevaluated_depth && (operation == IR_DIV || operation == IR_MOD) && s2sl == 0) return make_evaluated_integer(0, type);
+
     if (operation == IR_DIV && s2sl == 0) error("Division by zero");
     if (operation == IR_MOD && s2sl == 0) error("Modulus by zero");
 
@@ -121,22 +132,70 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
     return make_evaluated_integer(r, type);
 }
 
+// Get the floating point value of a constant integer or floating point value after conversion to a type
+static long double get_constant_fp_value(Value *v, Type *type) {
+    long double value;
+
+    if (is_floating_point_type(v->type)) value = v->fp_value;
+    else if (v->type->is_unsigned) value = (unsigned long) v->int_value;
+    else value = v->int_value;
+
+    return round_to_floating_point_type(value, type);
+}
+
+static int constant_is_true(Value *v) {
+    if (is_floating_point_type(v->type)) return v->fp_value != 0;
+    return v->int_value || v->is_string_literal || v->is_address_of;
+}
+
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type) {
-    int is_int;
-    unsigned int i;
+    int is_int = 1;
+    int i;
     long double ld;
 
-         if (operation == IR_ADD) { is_int = 0; ld = src1->fp_value +  src2->fp_value; }
-    else if (operation == IR_SUB) { is_int = 0; ld = src1->fp_value -  src2->fp_value; }
-    else if (operation == IR_MUL) { is_int = 0; ld = src1->fp_value *  src2->fp_value; }
-    else if (operation == IR_DIV) { is_int = 0; ld = src1->fp_value /  src2->fp_value; }
-    else if (operation == IR_EQ ) { is_int = 1; i =  src1->fp_value == src2->fp_value; }
-    else if (operation == IR_NE ) { is_int = 1; i =  src1->fp_value != src2->fp_value; }
-    else if (operation == IR_LT ) { is_int = 1; i =  src1->fp_value <  src2->fp_value; }
-    else if (operation == IR_GT ) { is_int = 1; i =  src1->fp_value >  src2->fp_value; }
-    else if (operation == IR_LE ) { is_int = 1; i =  src1->fp_value <= src2->fp_value; }
-    else if (operation == IR_GE ) { is_int = 1; i =  src1->fp_value >= src2->fp_value; }
-    else return 0;
+    long double fp1 = get_constant_fp_value(src1, type);
+    long double fp2 = get_constant_fp_value(src2, type);
+
+         if (operation == IR_EQ  ) i = fp1 == fp2;
+    else if (operation == IR_NE  ) i = fp1 != fp2;
+    else if (operation == IR_LT  ) i = fp1 <  fp2;
+    else if (operation == IR_GT  ) i = fp1 >  fp2;
+    else if (operation == IR_LE  ) i = fp1 <= fp2;
+    else if (operation == IR_GE  ) i = fp1 >= fp2;
+    else {
+        is_int = 0;
+
+        // Do the operation in its own type, otherwise double rounding may occur
+        if (type->type == TYPE_FLOAT) {
+            float f1 = fp1;
+            float f2 = fp2;
+            float result;
+                 if (operation == IR_ADD) result = f1 + f2;
+            else if (operation == IR_SUB) result = f1 - f2;
+            else if (operation == IR_MUL) result = f1 * f2;
+            else if (operation == IR_DIV) result = f1 / f2;
+            else return 0;
+            ld = result;
+        }
+        else if (type->type == TYPE_DOUBLE) {
+            double d1 = fp1;
+            double d2 = fp2;
+            double result;
+                 if (operation == IR_ADD) result = d1 + d2;
+            else if (operation == IR_SUB) result = d1 - d2;
+            else if (operation == IR_MUL) result = d1 * d2;
+            else if (operation == IR_DIV) result = d1 / d2;
+            else return 0;
+            ld = result;
+        }
+        else {
+                 if (operation == IR_ADD) ld = fp1 + fp2;
+            else if (operation == IR_SUB) ld = fp1 - fp2;
+            else if (operation == IR_MUL) ld = fp1 * fp2;
+            else if (operation == IR_DIV) ld = fp1 / fp2;
+            else return 0;
+        }
+    }
 
     Value *v = new_value();
     v->type = is_int ? new_type(TYPE_INT) : type;
@@ -152,7 +211,7 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     Type *src_type = src->type;
 
     Value *dst = new_value();
-    dst->is_constant = 1;
+    dst->is_constant = src->is_constant;
     dst->address_of_offset = src->address_of_offset;
     dst->int_value = src->int_value;
     dst->type = dst_type;
@@ -162,9 +221,8 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     dst->string_literal_index = src->string_literal_index;
 
     // FP -> FP
-    // Don't bother changing precision
     if (is_floating_point_type(src_type) && is_floating_point_type(dst_type)) {
-        dst->fp_value = src->fp_value;
+        dst->fp_value = round_to_floating_point_type(src->fp_value, dst_type);
         return dst;
     }
 
@@ -191,21 +249,17 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
 
     // Integer -> FP
     if (is_floating_point_type(dst_type) && !is_floating_point_type(src_type)) {
-        if (src_type->is_unsigned) dst->fp_value = (unsigned long) src->int_value;
-        else dst->fp_value = src->int_value;
+        if (src_type->is_unsigned) dst->fp_value = round_to_floating_point_type((unsigned long) src->int_value, dst_type);
+        else dst->fp_value = round_to_floating_point_type(src->int_value, dst_type);
+
+        return dst;
     }
 
     // Implicit else: integer -> integer
     // int_value is already sign extended to a long, so this doesn't have to be done again.
     // The only thing that needs doing is truncation to the target type, if it's smaller
     // than a long.
-         if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned) dst->int_value = (         char ) src->int_value;
-    else if (dst_type->type == TYPE_CHAR  &&  dst_type->is_unsigned) dst->int_value = (unsigned char ) src->int_value;
-    else if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned) dst->int_value = (         short) src->int_value;
-    else if (dst_type->type == TYPE_SHORT &&  dst_type->is_unsigned) dst->int_value = (unsigned short) src->int_value;
-    else if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned) dst->int_value = (         int  ) src->int_value;
-    else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned) dst->int_value = (unsigned int  ) src->int_value;
-    else                                                             dst->int_value =                  src->int_value;
+    dst->int_value = truncate_to_integer_type(src->int_value, dst_type);
 
     return dst;
 }
@@ -214,10 +268,18 @@ static Value *parse_unary_expression(int operation) {
     next();
     Value *value = parse_constant_expression(TOK_INC);
     check_unary_operation_type(operation, value);
+
+    Value *result;
     if (is_floating_point_type(value->type))
-        return evaluate_const_unary_fp_operation(operation, value);
+        result = evaluate_const_unary_fp_operation(operation, value);
+    else if (operation == IR_LNOT)
+        result = make_evaluated_integer(!constant_is_true(value), new_type(TYPE_INT));
     else
-        return evaluate_const_unary_int_operation(operation, value);
+        result = evaluate_const_unary_int_operation(operation, value);
+
+    if (!value->is_constant) result->is_constant = 0;
+
+    return result;
 }
 
 static void decay_global_array(Value *value) {
@@ -285,27 +347,65 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
 
 static Value *parse_binary_expression(int operation, int second_level, Value *value1) {
     next();
+
+    // The second operand of && and || is only evaluated when the first one doesn't determine the result
+    int is_unevaluated = operation == IR_LAND && !constant_is_true(value1) || operation == IR_LOR && constant_is_true(value1);
+
+    unevaluated_depth += is_unevaluated;
     Value *value2 = parse_constant_expression(second_level);
+    unevaluated_depth -= is_unevaluated;
+
     check_binary_operation_types(operation, value1, value2);
 
     if ((operation == IR_ADD || operation == IR_SUB) && (is_pointer_type(value1->type) || is_pointer_type(value2->type)) || value1->is_string_literal || value2->is_string_literal)
         return parse_address_plus_minus(operation, value1, value2);
 
+    Value *result;
     Type *result_type = operation_type(value1, value2, 0);
-    if (is_floating_point_type(result_type))
-        return evaluate_const_binary_fp_operation(operation, value1, value2, result_type);
+
+    if (operation == IR_LAND)
+        result = make_evaluated_integer(constant_is_true(value1) && constant_is_true(value2), new_type(TYPE_INT));
+    else if (operation == IR_LOR)
+        result = make_evaluated_integer(constant_is_true(value1) || constant_is_true(value2), new_type(TYPE_INT));
+    else if (is_floating_point_type(result_type))
+        result = evaluate_const_binary_fp_operation(operation, value1, value2, result_type);
     else
-        return evaluate_const_binary_int_operation(operation, value1, value2);
+        result = evaluate_const_binary_int_operation(operation, value1, value2);
+
+    // The value isn't known at compile time unless all operands are
+    if (!value1->is_constant || !value2->is_constant) result->is_constant = 0;
+
+    return result;
 }
 
 static Value *parse_ternary(Value *value) {
     next();
-    int which = is_floating_point_type(value->type) ? !!value->fp_value : !!value->int_value;
+    int which = constant_is_true(value);
+
+    unevaluated_depth += !which;
     Value *value1 = parse_constant_expression(TOK_TERNARY);
+    unevaluated_depth -= !which;
+
     consume(TOK_COLON, ":");
+
+    unevaluated_depth += which;
     Value *value2 = parse_constant_expression(TOK_TERNARY);
+    unevaluated_depth -= which;
+
     check_ternary_operation_types(value, value1, value2);
-    return which ? value1 : value2;
+
+    Value *result = which ? value1 : value2;
+
+    // The result has the common type of both operands
+    if (is_arithmetic_type(value1->type) && is_arithmetic_type(value2->type))
+        result = cast_constant_value(result, dup_type(operation_type(value1, value2, 1)));
+
+    if (!value->is_constant) {
+        result = dup_value(result);
+        result->is_constant = 0;
+    }
+
+    return result;
 }
 
 // Parse a constant expression using top-down precedence climbing parsing
@@ -410,6 +510,7 @@ Value *parse_constant_expression(int level) {
         case TOK_SIZEOF: {
             int size = parse_sizeof(parse_constant_expression);
             value = new_integral_constant(TYPE_LONG, size);
+            value->type->is_unsigned = 1;
             break;
         }
 
diff --git a/instrutil.c b/instrutil.c
index 6277450..da09092 100644
--- a/instrutil.c
+++ b/instrutil.c
@@ -379,7 +379,7 @@ int match_value_to_rule_src(Value *v, int src) {
             else if (              src == CI4 && !v->type->is_unsigned)                                                               return 1;
 
             else if (src >= CU1 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100      ) return 1;
-            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000   ) return 1;
+            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x10000    ) return 1;
             else if (src >= CU3 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000000) return 1;
             else if (              src == CU4 &&  v->type->is_unsigned)                                                    return 1;
 
diff --git a/lexer.c b/lexer.c
index d0c3fb8..ab92008 100644
--- a/lexer.c
+++ b/lexer.c
@@ -157,7 +157,11 @@ void lex_non_hex_literal(void) {
 
         int type = TYPE_DOUBLE;
         if (i[ip] == 'f' || i[ip] == 'F') { type = TYPE_FLOAT; ip++; }
-        if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
+        else if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
+
+        // The value of the constant has the precision of its type
+        if (type == TYPE_DOUBLE) cur_long_double = strtod(start + start_ip, &new_i);
+        else if (type == TYPE_FLOAT) cur_long_double = (float) strtod(start + start_ip, &new_i);
 
         cur_lexer_type = new_type(type);
     }
diff --git a/parser.c b/parser.c
index 96cb2f3..aa4c6ff 100644
--- a/parser.c
+++ b/parser.c
@@ -1600,35 +1600,8 @@ Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
     if (!type_eq(dst_type, src->type)) {
         if (src->is_constant) {
             if (dst_is_function && !is_null_pointer(src)) error("Function type mismatch");
-            int src_is_int = is_integer_type(src->type);
-            int dst_is_int = is_integer_type(dst_type);
-            int src_is_sse = is_sse_floating_point_type(src->type);
-            int dst_is_sse = is_sse_floating_point_type(dst_type);
-            int src_is_ld = src->type->type == TYPE_LONG_DOUBLE;
-            int dst_is_ld = dst_type->type == TYPE_LONG_DOUBLE;
-
-            if ((src_is_sse && dst_is_ld) || (dst_is_sse && src_is_ld)) {
-                // Type change for float/double <-> long double
-                Value *src2 = dup_value(src);
-                src2->type = dup_type(dst_type);
-                return src2;
-            }
-            else if ((src_is_sse || src_is_ld) && dst_is_int) {
-                // Convert floating point -> int
-                Value *src2 = new_value();
-                src2->type = new_type(dst_type->type <= TYPE_INT ? TYPE_INT : TYPE_LONG);
-                src2->is_constant = 1;
-                src2->int_value = src->fp_value;
-                return src2;
-            }
-            else if (src_is_int && (dst_is_sse || dst_is_ld))
-                return convert_int_constant_to_floating_point(src, dst_type);
-            else if (src_is_sse && dst_is_sse && src->type->type != dst_type->type) {
-                // Convert float -> double or double -> float
-                Value *src2 = dup_value(src);
-                src2->type = dup_type(dst_type);
-                return src2;
-            }
+            if (is_arithmetic_type(src->type) && is_arithmetic_type(dst_type))
+                return cast_constant_value(src, dup_type(dst_type));
 
             // No change
             return src;
@@ -2852,6 +2825,7 @@ static void parse_expression(int level) {
 
         case TOK_SIZEOF:
             push_integral_constant(TYPE_LONG, parse_sizeof(parse_expression_and_pop));
+            vtop()->type->is_unsigned = 1;
             break;
 
         default:
-- 
2.43.0


From 6ee82ab48e879220f79492281d1a078891bab613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 10/89] fix: function calls in the operand of sizeof corrupted
 the function call numbering

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index aa4c6ff..b634bfb 100644
--- a/parser.c
+++ b/parser.c
@@ -2157,6 +2157,7 @@ int parse_sizeof(parse_expression_function_type expr) {
     Type *type;
     Value *expression = 0;
     Tac *ir_tail = ir;
+    int org_function_call_count = function_call_count;
 
     if (cur_token == TOK_LPAREN) {
         // Sizeof(type) or sizeof(expression)
@@ -2181,6 +2182,7 @@ int parse_sizeof(parse_expression_function_type expr) {
             ir = ir_tail;
             ir->next = 0;
         }
+        function_call_count = org_function_call_count;
     }
 
     if (is_incomplete_type(type)) error("Cannot take sizeof an incomplete type");
-- 
2.43.0


From 79f9437e5cbb26ad1b7f42c2a6b7930ff5c38380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 11/89] fix: comparisons of memory with zero and large unsigned
 constant operands used the wrong operand size, casts of constants ignored
 signedness

---
 codegen.c    |  3 +++
 constexpr.c  |  2 +-
 instrrules.c | 14 ++++++++++----
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index 762175f..b666400 100644
--- a/codegen.c
+++ b/codegen.c
@@ -243,6 +243,9 @@ char *render_x86_operation(Tac *tac, int function_pc, int expect_preg) {
     while (*t && *t != ' ') *buffer++ = *t++;
     while (*t && *t == ' ') t++;
 
+    // There is no register in a comparison of memory with zero, so the assembler cannot deduce the size
+    if (expect_preg && tac->operation == X_CMPZ) *buffer++ = size_to_x86_size(tac->src1->x86_size);
+
     if (*t) {
         int mnemonic_length = buffer - result;
         for (int i = 0; i < 12 - mnemonic_length; i++) *buffer++ = ' ';
diff --git a/constexpr.c b/constexpr.c
index 8453406..89205dc 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -206,7 +206,7 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
 }
 
 Value *cast_constant_value(Value *src, Type *dst_type) {
-    if (types_are_compatible(src->type, dst_type)) return src;
+    if (types_are_compatible(src->type, dst_type) && src->type->is_unsigned == dst_type->is_unsigned) return src;
 
     Type *src_type = src->type;
 
diff --git a/instrrules.c b/instrrules.c
index 221e446..821ae86 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1600,13 +1600,19 @@ void define_rules(void) {
     // Constants in pushed argument. pushq immediate can only be 32 bit
     r = add_rule(0, IR_ARG, CI4, XC1, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
     r = add_rule(0, IR_ARG, CI4, XC2, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
-    r = add_rule(0, IR_ARG, CI4, XC3, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
+    r = add_rule(0, IR_ARG, CI4, CI3, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
 
     // Stack management
     r = add_rule(0, IR_ALLOCATE_STACK, CI4, 0, 2); add_op(r, X_ALLOCATE_STACK, 0, SRC1, SRC2, "subq $%v1q, %%rsp"); fin_rule(r);
     r = add_rule(RI4, IR_MOVE_STACK_PTR, 0, 0, 2); add_op(r, X_MOVE_STACK_PTR, DST, 0, 0, "movq %%rsp, %vdq"); fin_rule(r);
 
-    // imm64 needs to be loaded into a register first
+    // imm64 needs to be loaded into a register first. This includes unsigned integers >= 0x80000000.
+    r = add_rule(0, IR_ARG, CI4, CU3, 2);
+    add_allocate_register_in_slot (r, 1, TYPE_LONG);   // Allocate quad register in slot 1
+    add_op(r, X_MOVC, SV1, SRC2, 0, "movabsq $%v1q, %vdq");
+    add_op(r, X_ARG,  SV1, 0,    0, "pushq %vdq");
+    fin_rule(r);
+
     r = add_rule(0, IR_ARG, CI4, XC4, 2);
     add_allocate_register_in_slot (r, 1, TYPE_LONG);   // Allocate quad register in slot 1
     add_op(r, X_MOVC, SV1, SRC2, 0, "movabsq $%v1q, %vdq");
@@ -1723,8 +1729,8 @@ void define_rules(void) {
     add_int_comparison_rules(&ntc, 0, MI1, CI1, "cmpb $%v2b, %v1b"); add_int_comparison_rules(&ntc, 1, MU1, CU1, "cmpb $%v2b, %v1b");
     add_int_comparison_rules(&ntc, 0, MI2, CI2, "cmpw $%v2w, %v1w"); add_int_comparison_rules(&ntc, 1, MU2, CU2, "cmpw $%v2w, %v1w");
     add_int_comparison_rules(&ntc, 0, MI3, CI3, "cmpl $%v2l, %v1l"); add_int_comparison_rules(&ntc, 1, MU3, CU3, "cmpl $%v2l, %v1l");
-    add_int_comparison_rules(&ntc, 0, MI4, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 1, MU4, CU3, "cmpq $%v2q, %v1q");
-    add_int_comparison_rules(&ntc, 0, MPV, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 0, MPV, CU3, "cmpq $%v2q, %v1q");
+    add_int_comparison_rules(&ntc, 0, MI4, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 1, MU4, CU2, "cmpq $%v2q, %v1q");
+    add_int_comparison_rules(&ntc, 0, MPV, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 0, MPV, CU2, "cmpq $%v2q, %v1q");
 
     add_long_double_comp_rules(&ntc, MLD5, MLD5, ll, ll);
     add_long_double_comp_rules(&ntc, MLD5, CLD,  ll, lc);
-- 
2.43.0


From 48ba1ab21dbd3756c48960934845cdb8e165af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 12/89] fix: modulus by a power of two of negative and unsigned
 long operands, floating point multiplication and division by zero

---
 parser.c | 23 +++++++++++++++++++++++
 ssa.c    |  9 +++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/parser.c b/parser.c
index b634bfb..5ee255c 100644
--- a/parser.c
+++ b/parser.c
@@ -1309,6 +1309,16 @@ static Value *float_type_change(Value *src) {
     return dst;
 }
 
+// Move a constant into a register, so that it isn't considered in optimizations
+Value *load_constant(Value *value) {
+    Value *dst = new_value();
+    dst->type = dup_type(value->type);
+    dst->vreg = new_vreg();
+    add_parser_instruction(IR_MOVE, dst, value, 0);
+
+    return dst;
+}
+
 static void arithmetic_operation(int operation, Type *dst_type) {
     // Pull two items from the stack and push the result. Code in the IR
     // is generated when the operands can't be evaluated directly.
@@ -1380,6 +1390,19 @@ static void arithmetic_operation(int operation, Type *dst_type) {
         src2 = float_type_change(src2);
     }
 
+    // The optimizer turns a modulus by a power of two into a mask, a floating point
+    // multiplication by zero into zero and doesn't deal with a floating point division
+    // by zero. These don't hold for negative numbers, infinities and NaNs, so move the
+    // constant into a register.
+    if (operation == IR_MOD && !common_type->is_unsigned && src2->is_constant && !src1->is_constant && src2->int_value != 1)
+        src2 = load_constant(src2);
+    else if (is_floating_point_type(common_type) && operation == IR_MUL && !(src1->is_constant && src2->is_constant)) {
+        if (src1->is_constant && src1->fp_value == 0) src1 = load_constant(src1);
+        if (src2->is_constant && src2->fp_value == 0) src2 = load_constant(src2);
+    }
+    else if (is_floating_point_type(common_type) && operation == IR_DIV && src2->is_constant && src2->fp_value == 0)
+        src2 = load_constant(src2);
+
     add_ir_op(operation, dst_type, new_vreg(), src1, src2);
 }
 
diff --git a/ssa.c b/ssa.c
index bff1449..9525eba 100644
--- a/ssa.c
+++ b/ssa.c
@@ -51,7 +51,7 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if ((c & (c - 1)) == 0) {
+        else if (c > 0 && (c & (c - 1)) == 0) {
             l = -1;
             while (c > 0) { c >>= 1; l++; }
             tac->operation = IR_BSHL;
@@ -67,7 +67,7 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if (tac->src1->type->is_unsigned && (c & (c - 1)) == 0) {
+        else if (tac->src1->type->is_unsigned && c > 0 && (c & (c - 1)) == 0) {
             l = -1;
             while (c > 0) { c >>= 1; l++; }
             tac->operation = IR_BSHR;
@@ -83,12 +83,13 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if ((c & (c - 1)) == 0) {
+        else if (c > 0 && (c & (c - 1)) == 0) {
             l = 0;
             while (c > 1) { c = c >> 1; l = (l << 1) | 1; }
             tac->operation = IR_BAND;
             tac->src1 = v;
-            tac->src2 = new_integral_constant(TYPE_INT, l);
+            tac->src2 = new_integral_constant(cv->type->type, l);
+            tac->src2->type->is_unsigned = cv->type->is_unsigned;
         }
     }
 }
-- 
2.43.0


From 663dec4c9be57132e4739c5dc6633acc10fccb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 13/89] fix: conversions between integers and floating point
 numbers used too small stack slots, destroyed their source and didn't deal
 with large unsigned integers

---
 instrrules.c | 130 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 89 insertions(+), 41 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 821ae86..38840c0 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -363,15 +363,20 @@ static void add_move_rules_ru_to_mu(void) {
     r = add_rule(MU4, IR_MOVE, RU4, 0, 2);                                                        add_op(r, X_MOV, DST, SRC1, 0 , "movq   %v1q, %vdq");
 }
 
-static void add_integer_long_double_move_rule(int src, int type, char *extend_template, char *mov_template, char *load_template) {
+static void add_integer_long_double_move_rule(int src, int type, int extend_operation, char *extend_template, char *mov_template, char *load_template) {
     Rule *r = add_rule(MLD5, IR_MOVE, src, 0, 6);
-    add_allocate_stack_index_in_slot(r, 1, type);               // Allocate stack entry and put it in SV1
-    if (extend_template)
-        add_op(r, X_MOVC, 0,   SRC1, SV1, extend_template);    // Sign extend register if needed
+    add_allocate_stack_index_in_slot(r, 1, type);                     // Allocate stack entry and put it in SV1. Type is the type of the loaded value.
 
-    add_op(r, X_MOVC, 0,   SRC1, SV1,    mov_template);           // Move register to stack
-    add_op(r, X_MOVC, 0,   0,    SV1,    load_template);          // Load floating point from stack
-    add_op(r, X_MOVC, DST, 0,    SV1,    "fstpt %vdL");           // Store in dst
+    if (extend_template) {
+        add_allocate_register_in_slot(r, 2, type);                    // Allocate register for the extended value
+        add_op(r, extend_operation, SV2, SRC1, 0,   extend_template); // Extend register
+        add_op(r, X_MOVC,           0,   SV2,  SV1, mov_template);    // Move register to stack
+    }
+    else
+        add_op(r, X_MOVC, 0,   SRC1, SV1, mov_template);              // Move register to stack
+
+    add_op(r, X_MOVC, 0,   0,    SV1,    load_template);              // Load floating point from stack
+    add_op(r, X_MOVC, DST, 0,    SV1,    "fstpt %vdL");               // Store in dst
 }
 
 static void add_long_double_integer_move_rule(int dst, int type, char *conv_template, char *mov_template, char *ext_template) {
@@ -407,8 +412,8 @@ static void add_long_double_integer_move_rule(int dst, int type, char *conv_temp
     }
 
     add_op(r, X_MOVC, 0,   0,   SV1, "fnstcw %v2");         // Backup control word into allocated stack entry
-    add_op(r, X_MOVZ, 0,   SV2, SV1, "movzwl %v2w, %v1l");  // Move control word into register
-    add_op(r, X_BOR,  0,   SV2, 0,   "orl $3072, %v1l");    // Set rounding and precision control bits
+    add_op(r, X_MOVC, SV2, 0,   SV1, "movzwl %v2w, %vdl");  // Move control word into register
+    add_op(r, X_BOR,  SV2, SV2, 0,   "orl $3072, %vdl");    // Set rounding and precision control bits
     add_op(r, X_MOVC, SV3, SV2, SV3, "movw %v1w, %v2w");    // Move control word into allocated stack
     add_op(r, X_MOVC, 0,   0,   SV3, "fldcw %v2w");         // Load control word from allocated stack
     add_op(r, X_MOVC, 0,   0,   SV4, conv_template);        // Do conversion and store it on the stack
@@ -420,9 +425,9 @@ static void add_long_double_integer_move_rule(int dst, int type, char *conv_temp
 
     if (ru4) {
         // xor the high bit if the value was > 2^53
-        add_op(r, X_MOVC, 0,   0, SV5, "movzbq %v2b, %v2q"); // Zero all bits except the first
-        add_op(r, X_SHR,  0,   0, SV5, "shlq $63, %v2q");    // Move the first bit to the last bit
-        add_op(r, X_XOR,  DST, 0, SV5, "xorq  %v2q, %vdq");  // set the sign bit if the original value was >= 2^63 - 1
+        // The upper bits of the register don't matter
+        add_op(r, X_SHR,  SV5, SV5, 0,   "shlq $63, %vdq");    // Move the first bit to the last bit
+        add_op(r, X_XOR,  DST, SV5, DST, "xorq  %v1q, %v2q");  // set the sign bit if the original value was >= 2^63 - 1
     }
 }
 
@@ -443,6 +448,31 @@ static void add_sse_on_stack_to_int_in_register_move_rule(int dst, int src, int
     fin_rule(r);
 }
 
+// Add operations that convert the SSE value in slot 1 into an unsigned long. Numbers below 2^63
+// are converted directly. In the other cases, the direct conversion gives 2^63 and is or'ed with
+// the conversion of the value minus 2^63.
+static void add_sse_to_ulong_operations(Rule *r, int is_double) {
+    add_allocate_register_in_slot(r, 2, TYPE_LONG); // Direct conversion
+    add_allocate_register_in_slot(r, 3, TYPE_LONG); // Mask with all bits set if the value is >= 2^63
+    add_allocate_register_in_slot(r, 4, is_double ? TYPE_DOUBLE : TYPE_FLOAT); // 2^63
+
+    add_op(r, X_MOVC, SV2, SV1, 0,   is_double ? "cvttsd2siq %v1D, %vdq" : "cvttss2siq %v1F, %vdq");
+    add_op(r, X_MOVC, SV4, 0,   0,   is_double ? "cvtss2sd .LDTORU4(%%rip), %vdD" : "movss .LDTORU4(%%rip), %vdF");
+    add_op(r, X_SUB,  SV1, SV4, SV1, is_double ? "subsd %v1D, %v2D" : "subss %v1F, %v2F");
+    add_op(r, X_MOV,  SV3, SV2, 0,   "movq %v1q, %vdq");
+    add_op(r, X_SHR,  SV3, SV3, 0,   "sarq $63, %v1q");
+    add_op(r, X_MOVC, DST, SV1, 0,   is_double ? "cvttsd2siq %v1D, %vdq" : "cvttss2siq %v1F, %vdq");
+    add_op(r, X_BAND, DST, SV3, DST, "andq %v1q, %v2q");
+    add_op(r, X_BOR,  DST, SV2, DST, "orq %v1q, %v2q");
+}
+
+static void add_sse_to_ulong_move_rule(int src, int is_double, char *load_template) {
+    Rule *r = add_rule(RU4, IR_MOVE, src, 0, 10);
+    add_allocate_register_in_slot(r, 1, is_double ? TYPE_DOUBLE : TYPE_FLOAT); // Copy of the value
+    add_op(r, X_MOVC, SV1, SRC1, 0, load_template);
+    add_sse_to_ulong_operations(r, is_double);
+}
+
 static void add_sse_in_register_to_long_double_move_rule(int src, int type, char *t1, char *t2) {
     Rule *r = add_rule(MLD5, IR_MOVE, src, 0, 1);
     add_allocate_stack_index_in_slot(r, 1, type);
@@ -475,15 +505,17 @@ static void add_ulong_to_sse_operations(Rule *r, int dst, int src) {
     add_allocate_label_in_slot(r, 1);                               // Completion label
     add_allocate_label_in_slot(r, 2);                               // Signed case
     add_allocate_register_in_slot(r, 3, TYPE_LONG);                 // Temporary for unsigned case
+    add_allocate_register_in_slot(r, 4, TYPE_LONG);                 // Temporary for unsigned case, lowest bit
     add_op(r, X_TEST,  SRC1, SRC1,  0,    "testq %v1q, %v1q");
     add_op(r, X_JZ,    0,    SV2,   0,    "js %v1");                // Jump if unsigned
     add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);                      // Signed case
     add_op(r, X_JMP,   0,    SV1,   0,    "jmp %v1");
     add_op(r, X_MOVC,  SV3,  SRC1,  0,    ".L2:movq %v1q, %vdq");   // Unsigned case
+    add_op(r, X_MOVC,  SV4,  SRC1,  0,    "movq %v1q, %vdq");
     add_op(r, X_SHR,   SV3,  SV3,   0,    "shrq %v1q");
-    add_op(r, X_BAND,  SRC1, SRC1,  0,    "andl $1, %v1l");
-    add_op(r, X_BOR,   SV3,  SV3,   SRC1, "orq %v1q, %v2q");
-    add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);
+    add_op(r, X_BAND,  SV4,  SV4,   0,    "andl $1, %v1l");
+    add_op(r, X_BOR,   SV3,  SV4,   SV3,  "orq %v1q, %v2q");
+    add_op(r, X_MOVC,  DST,  SV3,   0,    t1);
     add_op(r, X_ADD,   DST,  DST,   DST,  t2);
     add_op(r, X_MOVC,  DST,  DST,   0,    ".L1:");                  // Done
 }
@@ -511,9 +543,13 @@ static void add_int_to_sse_operations(Rule *r, int dst, int src) {
     else if (dst == RS4 && src == RU4) { add_ulong_to_sse_operations(r, dst, src); return; }
     else panic ("Unknown dst/src combination");
 
-    if (t1) add_op(r, X_MOVC,  SRC1, SRC1, 0, t1);
-            add_op(r, X_MOVC,  DST,  SRC1, 0, t2);
-
+    if (t1) {
+        add_allocate_register_in_slot(r, 1, TYPE_LONG); // Extended value
+        add_op(r, X_MOVC,  SV1, SRC1, 0, t1);
+        add_op(r, X_MOVC,  DST, SV1,  0, t2);
+    }
+    else
+        add_op(r, X_MOVC,  DST, SRC1, 0, t2);
 }
 
 static void add_long_double_to_sse_move_rule(int dst, int type, char *t1, char *t2) {
@@ -556,39 +592,51 @@ static void add_float_and_double_move_rules(void) {
     // SSE Constant -> integer in register
     r = add_rule(XR1, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl");
+    r = add_rule(RU3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq");
+    r = add_rule(RI4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq");
+    add_sse_to_ulong_move_rule(CS3, 0, "movss %v1F, %vdF");
 
     r = add_rule(XR1, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl");
+    r = add_rule(RU3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq");
+    r = add_rule(RI4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq");
+    add_sse_to_ulong_move_rule(CS4, 1, "movsd %v1D, %vdD");
 
     // SSE Constant -> LD
-    add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm0", "movss %%xmm0, %vd", "flds %v1");
-    add_sse_constant_to_ld_move_rule(CS4, TYPE_DOUBLE, "movsd %v1D, %%xmm0", "movsd %%xmm0, %vd", "fldl %v1");
+    add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm14", "movss %%xmm14, %vd", "flds %v1");
+    add_sse_constant_to_ld_move_rule(CS4, TYPE_DOUBLE, "movsd %v1D, %%xmm14", "movsd %%xmm14, %vd", "fldl %v1");
 
     // SSE in register -> integer in register
     r = add_rule(XR1, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl");
+    r = add_rule(RU3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq");
+    r = add_rule(RI4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq");
+    add_sse_to_ulong_move_rule(RS3, 0, "movss %v1F, %vdF");
 
     r = add_rule(XR1, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl");
+    r = add_rule(RU3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq");
+    r = add_rule(RI4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq");
+    add_sse_to_ulong_move_rule(RS4, 1, "movsd %v1D, %vdD");
 
     // SSE on stack -> integer in register
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
+    add_sse_on_stack_to_int_in_register_move_rule(RU3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_to_ulong_move_rule(MS3, 0, "movss %v1F, %vdF");
 
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
+    add_sse_on_stack_to_int_in_register_move_rule(RU3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_to_ulong_move_rule(MS4, 1, "movsd %v1D, %vdD");
 
     // SSE in register -> long double
     add_sse_in_register_to_long_double_move_rule(RS3, TYPE_FLOAT, "movss %v1F, %vdl", "flds %v1F");
@@ -631,15 +679,15 @@ static void add_long_double_move_rules(void)  {
     // Integer in register -> long double in memory
 
     // Signed integers
-    add_integer_long_double_move_rule(RI1, TYPE_CHAR , "movsbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
-    add_integer_long_double_move_rule(RI2, TYPE_SHORT, 0,                   "movw %v1w, %v2", "filds %v2L");
-    add_integer_long_double_move_rule(RI3, TYPE_INT  , 0,                   "movl %v1l, %v2", "fildl %v2L");
-    add_integer_long_double_move_rule(RI4, TYPE_LONG , 0,                   "movq %v1q, %v2", "fildq %v2L");
+    add_integer_long_double_move_rule(RI1, TYPE_SHORT, X_MOVS, "movsbw %v1b, %vdw", "movw %v1w, %v2", "filds %v2L");
+    add_integer_long_double_move_rule(RI2, TYPE_SHORT, 0,      0,                   "movw %v1w, %v2", "filds %v2L");
+    add_integer_long_double_move_rule(RI3, TYPE_INT  , 0,      0,                   "movl %v1l, %v2", "fildl %v2L");
+    add_integer_long_double_move_rule(RI4, TYPE_LONG , 0,      0,                   "movq %v1q, %v2", "fildq %v2L");
 
     // Unsigned integers
-    add_integer_long_double_move_rule(RU1, TYPE_CHAR , "movzbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
-    add_integer_long_double_move_rule(RU2, TYPE_SHORT, "movzwl %v1w, %v1l", "movl %v1l, %v2", "fildl %v2L");
-    add_integer_long_double_move_rule(RU3, TYPE_INT  , "movl   %v1l, %v1l", "movq %v1q, %v2", "fildq %v2L");
+    add_integer_long_double_move_rule(RU1, TYPE_SHORT, X_MOVZ, "movzbw %v1b, %vdw", "movw %v1w, %v2", "filds %v2L");
+    add_integer_long_double_move_rule(RU2, TYPE_INT  , X_MOVZ, "movzwl %v1w, %vdl", "movl %v1l, %v2", "fildl %v2L");
+    add_integer_long_double_move_rule(RU3, TYPE_LONG , X_MOVC, "movl   %v1l, %vdl", "movq %v1q, %v2", "fildq %v2L"); // Note: movzlq doesn't exist
 
     // RU4 is a special case
     // Inspired by clang, when run with -fPIE
@@ -647,8 +695,8 @@ static void add_long_double_move_rules(void)  {
     r = add_rule(MLD5, IR_MOVE, RU4, 0, 10);
     add_allocate_stack_index_in_slot(r, 1, TYPE_LONG);      // Allocate stack entry and put it in slot 1
     add_op(r, X_MOVC, 0,   SRC1, SV1,  "movq   %v1q, %v2");               // Move register to stack
-    add_op(r, X_MOVC, 0,   0,    0,    "movq   $0, %%r10");               // Zero r10
-    add_op(r, X_MOVC, 0,   SRC1, 0,    "testq  %v1q, %v1q");              // Test & set flags
+    add_op(r, X_MOVC, 0,   SRC1, 0,    "testq  %v1q, %v1q");              // Test & set flags. This may use r10 if the register is spilled.
+    add_op(r, X_MOVC, 0,   0,    0,    "movq   $0, %%r10");               // Zero r10, this doesn't affect the flags
     add_op(r, X_MOVC, DST, 0,    0,    "sets   %%r10b");                  // Store sign in r10 (0=unsigned, 1=signed)
     add_op(r, X_MOVC, 0,   SRC2, SV1,  "fildq  %v2L");                    // Load floating point from stack
     add_op(r, X_MOVC, 0,   0,    0,    "leaq   .RU4TOLD(%%rip), %%r11");  // Add constant, 0 for unsigned, something huge for signed
-- 
2.43.0


From 330a1c62535fc199d64d37d9e6ce1887f6dc31e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 14/89] fix: floating point constant negation, logical not and
 folding, float/double conversions sharing a register with or being spilled
 next to a live source

---
 instrrules.c | 4 ++--
 parser.c     | 8 +++++---
 ssa.c        | 6 ++++--
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 38840c0..46c6b21 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -581,8 +581,8 @@ static void add_float_and_double_move_rules(void) {
 
     // Memory -> register
     r = add_rule(RS3, IR_MOVE, MS3, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movss %v1q, %vdq");
-    r = add_rule(RS3, IR_MOVE, MS4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movsd %v1q, %vdq"); add_op(r, X_MOVC, DST, DST, 0, "cvtsd2ss %v1q, %vdq");
-    r = add_rule(RS4, IR_MOVE, MS3, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movss %v1q, %vdq"); add_op(r, X_MOVC, DST, DST, 0, "cvtss2sd %v1q, %vdq");
+    r = add_rule(RS3, IR_MOVE, MS4, 0, 1); add_op(r, X_MOVC, DST, SRC1, 0, "cvtsd2ss %v1q, %vdq");
+    r = add_rule(RS4, IR_MOVE, MS3, 0, 1); add_op(r, X_MOVC, DST, SRC1, 0, "cvtss2sd %v1q, %vdq");
     r = add_rule(RS4, IR_MOVE, MS4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movsd %v1q, %vdq");
 
     // Register -> memory
diff --git a/parser.c b/parser.c
index 5ee255c..cac4bb8 100644
--- a/parser.c
+++ b/parser.c
@@ -2621,8 +2621,10 @@ static void parse_expression(int level) {
             parse_expression(TOK_INC);
             check_unary_operation_type(IR_LNOT, vtop());
 
-            if (vtop()->is_constant)
-                push_integral_constant(TYPE_INT, !pop()->int_value);
+            if (vtop()->is_constant) {
+                Value *value = pop();
+                push_integral_constant(TYPE_INT, is_floating_point_type(value->type) ? !value->fp_value : !value->int_value);
+            }
             else {
                 push_integral_constant(TYPE_INT, 0);
                 arithmetic_operation(IR_EQ, new_type(TYPE_INT));
@@ -2723,7 +2725,7 @@ static void parse_expression(int level) {
             check_unary_operation_type(IR_SUB, vtop());
 
             if (vtop()->is_constant) {
-                if (is_sse_floating_point_type(vtop()->type))
+                if (is_floating_point_type(vtop()->type))
                     vtop()->fp_value = -vtop()->fp_value;
                 else {
                     push_integral_constant(TYPE_INT, -1);
diff --git a/ssa.c b/ssa.c
index 9525eba..c1b7bdf 100644
--- a/ssa.c
+++ b/ssa.c
@@ -99,6 +99,9 @@ void optimize_floating_point_arithmetic_operation(Tac *tac) {
     Value *cv = 0;
     long double c;
 
+    // If both are constants, don't optimizing, since the operation will be evaluated later on.
+    if (tac->src1 && tac->src1->is_constant && tac->src2 && tac->src2->is_constant) return;
+
     if (tac->src1 && tac->src1->is_constant) {
         cv = tac->src1;
         v = tac->src2;
@@ -1472,8 +1475,7 @@ void make_interference_graph(Function *function, int include_clobbers, int inclu
                         tac->operation == IR_MOVE ||
                         tac->operation == X_MOV ||
                         tac->operation == X_MOVZ ||
-                        tac->operation == X_MOVS ||
-                        tac->operation == X_MOVC
+                        tac->operation == X_MOVS
                        ) && tac->src1 && tac->src1->vreg && tac->src1->vreg == it_vreg) continue;
                     add_ig_edge(interference_graph, vreg_count, tac->dst->vreg, it_vreg);
                     if (debug_ssa_interference_graph) printf("added dst <-> lr %d <-> %d\n", tac->dst->vreg, it_vreg);
-- 
2.43.0


From 84f667940090274e6860bbe3ef095d1e4d316c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 15/89] fix: a third or fourth parameter used directly as the
 operand of a division or shift crashed the compiler

---
 instrsel.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instrsel.c b/instrsel.c
index 9863bdb..d0d676e 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -418,10 +418,14 @@ static void make_igraphs(Function *function, int block_id) {
         // rearranging function calls without dire dowmstream side effects.
         // IR_CALL_ARG_REG is also off limits, since it's a placeholder for function
         // arg registers and no code is actually emitted.
+        // Values in rcx and rdx, such as function parameters, are moved out of them right away, otherwise
+        // they would be live during a shift, multiplication or division that needs the register.
         if (vreg_igraphs[dst].count == 1 && vreg_igraphs[dst].igraph_id != -1 &&
             tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR &&
             igraphs[g1_igraph_id].nodes[0].tac->operation != IR_CALL_ARG_REG &&
             tac->operation != IR_CALL_ARG_REG &&
+            !(tac->operation == IR_MOVE && tac->src1 &&
+                (tac->src1->live_range_preg == LIVE_RANGE_PREG_RCX_INDEX || tac->src1->live_range_preg == LIVE_RANGE_PREG_RDX_INDEX)) &&
             igraphs_are_neighbors(igraphs, i, g1_igraph_id)
             ) {
 
-- 
2.43.0


From f58b95a1c3b7557129a08f53a968916dcb72b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 16/89] fix: comparing long doubles for equality used rdx while
 the result could be allocated to it

---
 instrrules.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 46c6b21..d8db12c 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1053,14 +1053,20 @@ static void add_long_double_comp_rules(int *ntc, int src1, int src2, char *src1_
     // == and != comparison assignments
     // No rules are added for conditional jumps, for simplicty.
     for (int i = 0; i < 2; i++) {
-        // Inspired by the code that gcc generates
         Rule *r = add_rule(RI3, i == 0 ? IR_EQ : IR_NE, src1, src2, 15);
+        add_allocate_register_in_slot(r, 1, TYPE_CHAR);
         add_long_double_comparison_instructions(r, src1, src2, src1_template, src2_template, "fucomip %%st(1), %%st", 1);
-        add_op(r, X_CMP, DST, 0, 0, i == 0 ? "setnp %vdb" : "setp %vdb");
-        add_op(r, X_LD_EQ_CMP, 0, 0, 0,  i == 0 ? "movl $0, %%edx" : "movl $1, %%edx");
-        add_long_double_comparison_instructions(r, src1, src2, src1_template, src2_template, "fucomip %%st(1), %%st", 1);
-        add_op(r, X_MOVC, DST, 0, 0, "cmovne %%edx, %vdl");
-        add_op(r, X_MOVZ, DST, 0, 0, "movzbl %vdb, %vdl");
+        if (i == 0) {
+            add_op(r, X_SETE,  DST, 0,   0,   "sete %vdb");
+            add_op(r, X_SETNP, SV1, 0,   0,   "setnp %vdb");
+            add_op(r, X_BAND,  DST, SV1, DST, "andb %v1b, %vdb");
+        }
+        else {
+            add_op(r, X_SETNE, DST, 0,   0,   "setne %vdb");
+            add_op(r, X_SETP,  SV1, 0,   0,   "setp %vdb");
+            add_op(r, X_BOR,   DST, SV1, DST, "orb %v1b, %vdb");
+        }
+        add_op(r, X_MOVZ, DST, DST, 0, "movzbl %v1b, %vdl");
     }
 
     add_long_double_comp_cond_jmp_rule(ntc, src1, src2, src1_template, src2_template, IR_LT, X_JA,  "ja %v1" , X_JAE, "jbe %v1", 1);
-- 
2.43.0


From 608b4ae981ffbd6afd1d289a7c317755315555c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:38 +0000
Subject: [PATCH 17/89] fix: continue in a do/while loop skipped the condition

---
 parser.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index cac4bb8..445e84e 100644
--- a/parser.c
+++ b/parser.c
@@ -2954,7 +2954,8 @@ static void parse_expression(int level) {
 }
 
 static void parse_iteration_conditional_expression(Value **lcond, Value **cur_loop_continue_dst, Value *lend) {
-    *lcond  = new_label_dst();
+    // In a do/while, the label has already been made, since the body comes first
+    if (!*lcond) *lcond = new_label_dst();
     *cur_loop_continue_dst = *lcond;
     add_jmp_target_instruction(*lcond);
 
@@ -3030,6 +3031,12 @@ static void parse_iteration_statement(void) {
         consume(TOK_RPAREN, ")");
     }
 
+    // A continue in a do/while goes to the condition at the end
+    else if (loop_token == TOK_DO) {
+        lcond = new_label_dst();
+        cur_loop_continue_dst = lcond;
+    }
+
     if (!cur_loop_continue_dst) cur_loop_continue_dst = lbody;
     add_jmp_target_instruction(lbody);
     parse_statement();
-- 
2.43.0


From dc18943a74265ef1f2a25d2eb7eec236d0da5aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:04 +0000
Subject: [PATCH 18/89] fix: registers with a fixed physical register could be
 spilled under register pressure, crashing the compiler

---
 regalloc.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/regalloc.c b/regalloc.c
index 023db49..b60aa84 100644
--- a/regalloc.c
+++ b/regalloc.c
@@ -211,6 +211,28 @@ void allocate_registers_top_down(Function *function, int live_range_start, int p
             printf("%-2d -> %-2d: %s\n", i, vreg_locations[i].preg, register_name(preg_map[vreg_locations[i].preg]));
     }
 
+    // Color nodes that must be in a specific physical register first. They interfere
+    // with all other physical registers, so they cannot be spilled.
+    Set *forced_pregs = new_set(vreg_count);
+    for (Tac *tac = function->ir; tac; tac = tac->next) {
+        if (tac->dst  && tac->dst ->vreg && tac->dst ->live_range_preg) add_to_set(forced_pregs, tac->dst ->vreg);
+        if (tac->src1 && tac->src1->vreg && tac->src1->live_range_preg) add_to_set(forced_pregs, tac->src1->vreg);
+        if (tac->src2 && tac->src2->vreg && tac->src2->live_range_preg) add_to_set(forced_pregs, tac->src2->vreg);
+    }
+
+    for (int i = 1; i <= vreg_count; i++) {
+        int vreg = ordered_nodes[i].vreg;
+        if (!forced_pregs->elements[vreg]) continue;
+        if (live_range_reserved_pregs_offset > 0 && vreg <= live_range_reserved_pregs_offset) continue;
+        if (function->vreg_preg_classes[vreg] != preg_class) continue;
+        color_vreg(interference_graph, vreg_count, vreg_locations, physical_register_count, &stack_register_count, vreg, original_stack_indexes, 0, live_range_start, live_range_end);
+
+        delete_from_set(constrained, vreg);
+        delete_from_set(preferred_pregs, vreg);
+        delete_from_set(unconstrained, vreg);
+    }
+    free_set(forced_pregs);
+
     // Color constrained nodes first
     for (int i = 1; i <= vreg_count; i++) {
         int vreg = ordered_nodes[i].vreg;
-- 
2.43.0


From 8bf32deb38ede3ca410e858b5c177170d47cf1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 19/89] fix: struct and union layout: union padding, nested
 anonymous members and unnamed bit-fields; writing members of structs that
 have another const member

---
 parser.c |  4 ++--
 types.c  | 32 ++++++++++++--------------------
 wcc.h    |  1 +
 3 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/parser.c b/parser.c
index 445e84e..683b3a2 100644
--- a/parser.c
+++ b/parser.c
@@ -2456,7 +2456,7 @@ void parse_struct_dot_arrow_expression(void) {
     StructOrUnionMember *member = lookup_struct_or_union_member(str_type, cur_identifier);
 
     int member_is_const = 0;
-    member_is_const = !type_is_modifiable(str_type);
+    member_is_const = str_type->is_const;
 
     if (!is_dot) indirect();
 
@@ -2468,7 +2468,7 @@ void parse_struct_dot_arrow_expression(void) {
     v->bit_field_offset = v->offset * 8 + (member->bit_field_offset & 7);
     v->bit_field_size = member->bit_field_size;
     v->type = dup_type(member->type);
-    v->type->is_const = member_is_const;
+    if (member_is_const) v->type->is_const = 1;
     v->is_lvalue = 1;
     push(v);
 }
diff --git a/types.c b/types.c
index ea8bc7c..7b76648 100644
--- a/types.c
+++ b/types.c
@@ -306,6 +306,7 @@ static StructOrUnion *dup_struct_or_union(StructOrUnion *src) {
 
     dst->size          = src->size;
     dst->is_incomplete = src->is_incomplete;
+    dst->alignment     = src->alignment;
     dst->is_packed     = src->is_packed;
     dst->is_union      = src->is_union;
 
@@ -488,6 +489,9 @@ int get_type_alignment(Type *type) {
         case TYPE_ARRAY:
             return get_type_alignment(type->target);
         case TYPE_STRUCT_OR_UNION: {
+            // The alignment of a complete struct is determined when it's laid out
+            if (type->struct_or_union_desc->alignment) return type->struct_or_union_desc->alignment;
+
             // The alignment of a struct is the max alignment of all members
             int max = 0;
             for (StructOrUnionMember **pmember = type->struct_or_union_desc->members; *pmember; pmember++) {
@@ -822,7 +826,7 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
 
     int initial_bit_offset = bit_offset;
     int max_size = 0;
-    int max_alignment = 0;
+    int max_alignment = 8;
 
     for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
         StructOrUnionMember *member = *pmember;
@@ -840,23 +844,15 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
                 if (new_bit_offset != (bit_offset & ~31)) bit_offset = ((bit_offset + 31) & ~31);
             }
 
-            // Ensure the alignment is at least 4 bytes
-            if (max_alignment < 32) max_alignment = 32;
+            // Ensure the alignment is at least 4 bytes. Unnamed bit fields don't affect the alignment.
+            if (member->identifier && max_alignment < 32) max_alignment = 32;
         }
         else {
             int alignment = s->is_packed ? 8 : get_type_alignment(member->type) * 8;
             if (alignment > max_alignment) max_alignment = alignment;
             bit_offset = ((bit_offset + alignment - 1) & (~(alignment - 1)));
 
-            if (member->type->type == TYPE_STRUCT_OR_UNION) {
-                // Duplicate the structs, since the bit_offset will be set and otherwise
-                // would end up to a reused struct having invalid bit_offsets
-                member->type->struct_or_union_desc = dup_struct_or_union(member->type->struct_or_union_desc);
-                size = recursive_complete_struct_or_union(member->type->struct_or_union_desc, bit_offset);
-            }
-            else {
-                size = get_type_size(member->type) * 8;
-            }
+            size = get_type_size(member->type) * 8;
         }
 
         member->offset = bit_offset >> 3;
@@ -869,15 +865,11 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
 
     s->is_incomplete = 0;
 
-    int size;
-    if (s->is_union)
-        size = max_size;
-    else {
-        bit_offset = ((bit_offset + max_alignment  - 1) & (~(max_alignment - 1)));
-        size = bit_offset - initial_bit_offset;
-    }
+    int size = s->is_union ? max_size : bit_offset - initial_bit_offset;
+    size = ((size + max_alignment  - 1) & (~(max_alignment - 1)));
 
     s->size = size >> 3;
+    s->alignment = max_alignment >> 3;
 
     return size;
 }
@@ -960,7 +952,7 @@ int type_is_modifiable(Type *type) {
 
             if (member->type->type == TYPE_STRUCT_OR_UNION) {
                 is_modifiable = type_is_modifiable(member->type);
-                if (is_modifiable) break;
+                if (!is_modifiable) break;
             }
         }
 
diff --git a/wcc.h b/wcc.h
index 0f5649c..b4a5218 100644
--- a/wcc.h
+++ b/wcc.h
@@ -369,6 +369,7 @@ typedef struct struct_or_union_member {
 // Struct & union description
 typedef struct struct_or_union_desc {
     int size;
+    int alignment;
     int is_incomplete;          // Set to 1 if the struct has been used in a member but not yet declared
     int is_packed;
     int is_union;
-- 
2.43.0


From 6d0f3d2e197aedb7711c7c9fc27adc36a99311f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 20/89] fix: dereferencing and indexing constant addresses lost
 the address or crashed the compiler

---
 instrsel.c |  2 ++
 parser.c   | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/instrsel.c b/instrsel.c
index d0d676e..56b7061 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -420,12 +420,14 @@ static void make_igraphs(Function *function, int block_id) {
         // arg registers and no code is actually emitted.
         // Values in rcx and rdx, such as function parameters, are moved out of them right away, otherwise
         // they would be live during a shift, multiplication or division that needs the register.
+        // Constant addresses must be in a register to be dereferenced.
         if (vreg_igraphs[dst].count == 1 && vreg_igraphs[dst].igraph_id != -1 &&
             tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR &&
             igraphs[g1_igraph_id].nodes[0].tac->operation != IR_CALL_ARG_REG &&
             tac->operation != IR_CALL_ARG_REG &&
             !(tac->operation == IR_MOVE && tac->src1 &&
                 (tac->src1->live_range_preg == LIVE_RANGE_PREG_RCX_INDEX || tac->src1->live_range_preg == LIVE_RANGE_PREG_RDX_INDEX)) &&
+            !(tac->operation == IR_MOVE && tac->src1 && tac->src1->is_constant && tac->dst->type->type == TYPE_PTR) &&
             igraphs_are_neighbors(igraphs, i, g1_igraph_id)
             ) {
 
diff --git a/parser.c b/parser.c
index 683b3a2..1311e16 100644
--- a/parser.c
+++ b/parser.c
@@ -1096,6 +1096,16 @@ void parse_typedef(void) {
     wfree(base_type_with_storage_class);
 }
 
+// A constant address must be in a register for it to be dereferenced
+static Value *load_constant_address(Value *src1) {
+    Value *dst = new_value();
+    dst->type = dup_type(src1->type);
+    dst->vreg = new_vreg();
+    add_parser_instruction(IR_MOVE, dst, src1, 0);
+
+    return dst;
+}
+
 static void indirect(void) {
     // The stack contains an rvalue which is a pointer. All that needs doing
     // is conversion of the rvalue into an lvalue on the stack and a type
@@ -1108,6 +1118,8 @@ static void indirect(void) {
 
     if (src1->is_lvalue) panic_with_line_number("Expected rvalue");
 
+    if (src1->is_constant) src1 = load_constant_address(src1);
+
     Value *dst = dup_value(src1);
     dst->type = deref_pointer(src1->type);
     dst->is_lvalue = 1;
@@ -2045,6 +2057,8 @@ static void parse_addition(int level, int for_array_subscript) {
         src2_is_pointer = 0;
     }
 
+    if (vs[1]->is_constant && is_pointer_to_object_type(vs[1]->type)) vs[1] = load_constant_address(vs[1]);
+
     int factor = get_type_inc_dec_size(vs[1]->type);
 
     if (factor > 1) {
-- 
2.43.0


From d258d0a3a0f266731a911bd6a2d09265e861a204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 21/89] fix: array indexes and pointer offsets were multiplied
 by the element size in 32 bits

---
 parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 1311e16..6ac3817 100644
--- a/parser.c
+++ b/parser.c
@@ -2062,7 +2062,7 @@ static void parse_addition(int level, int for_array_subscript) {
     int factor = get_type_inc_dec_size(vs[1]->type);
 
     if (factor > 1) {
-        push_integral_constant(TYPE_INT, factor);
+        push_integral_constant(TYPE_LONG, factor);
         arithmetic_operation(IR_MUL, 0);
     }
 
@@ -2083,7 +2083,7 @@ static void parse_subtraction(int level) {
 
     if (factor > 1) {
         if (!src2_is_pointer) {
-            push_integral_constant(TYPE_INT, factor);
+            push_integral_constant(TYPE_LONG, factor);
             arithmetic_operation(IR_MUL, 0);
         }
 
-- 
2.43.0


From 3b3ced552a659e480f2ca551b9976a51414863f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:08 +0000
Subject: [PATCH 22/89] fix: taking the address of an element of a long double
 array in a struct behind a pointer crashed the compiler

---
 instrrules.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instrrules.c b/instrrules.c
index d8db12c..17fd449 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -890,6 +890,7 @@ static void add_pointer_rules(int *ntc) {
     r = add_rule(XRP, IR_ADDRESS_OF, RP3,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP4,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(RP5, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    r = add_rule(RP5, IR_ADDRESS_OF, RP4,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
 
     // Common rules for IR_ADDRESS_OF and IR_ADDRESS_OF_FROM_GOT
-- 
2.43.0


From 73805c5d806dc3572b014b40a03d46f0610c663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:08 +0000
Subject: [PATCH 23/89] fix: the aligned attribute packed the struct

---
 parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser.c b/parser.c
index 6ac3817..be8f385 100644
--- a/parser.c
+++ b/parser.c
@@ -877,7 +877,6 @@ static int parse_struct_or_union_attribute(void) {
 
         consume(TOK_RPAREN, ")");
         consume(TOK_RPAREN, ")");
-        is_packed = 1;
     }
 
     return is_packed;
-- 
2.43.0


From c22c05a7bd83418a0246bcda66c17c6b74b86710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:08 +0000
Subject: [PATCH 24/89] fix: initializers: zeroing of large objects in loops,
 gaps and bit-fields of nested static objects, strings longer than their
 array, structs in lists, unions, unnamed bit-fields; bit-fields in members of
 packed structs

---
 ir.c     |   7 +-
 parser.c | 310 ++++++++++++++++++++++++++-----------------------------
 types.c  |  25 +++--
 3 files changed, 169 insertions(+), 173 deletions(-)

diff --git a/ir.c b/ir.c
index 7493fae..02c64fc 100644
--- a/ir.c
+++ b/ir.c
@@ -969,10 +969,10 @@ void process_struct_and_union_copies(Function *function) {
     }
 }
 
-// Determine offset (in bytes), which has integer alignment.
-// Within the alignment, determine the offset (in bits) and size (in bits)
+// Determine offset (in bytes) of the integer a bit field is in.
+// Within the integer, determine the offset (in bits) and size (in bits)
 void determine_bit_field_params(Value *v, int *offset, int *bit_offset, int *bit_size) {
-    *offset = v->offset & (~3); // Align to the nearest integer boundary
+    *offset = v->offset;
     *bit_offset = v->bit_field_offset - (*offset << 3);
     *bit_size = v->bit_field_size;
 }
@@ -1169,6 +1169,7 @@ void add_zero_memory_instructions(Function *function) {
         }
         else {
             // Call memset
+            Tac *ir = tac;
             int function_call_count = make_function_call_count(function);
 
             // Add start call instruction
diff --git a/parser.c b/parser.c
index be8f385..1c5f71c 100644
--- a/parser.c
+++ b/parser.c
@@ -40,7 +40,7 @@ static List *allocated_sets;  // Allocated Set instances
 
 static Type *parse_struct_or_union_type_specifier(void);
 static Type *parse_enum_type_specifier(void);
-static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression);
+static TypeIterator *parse_initializer(TypeIterator *it, Value *value);
 void check_and_or_operation_type(Value *src1, Value *src2);
 Value *parse_expression_and_pop(int level);
 static void parse_statement(void);
@@ -1696,6 +1696,17 @@ static void check_simple_assignment_types(Value *dst, Value *src) {
 }
 
 // Add instruction to assign a scalar value in src1 to dst
+// Set the location of a struct or union member in v. offset is the offset of the (first byte of the) member.
+// The offset of a bit field is the one of the integer it is in; bit_field_offset is the offset relative to the
+// start of the outermost object.
+static void set_member_location(Value *v, int offset, int bit_field_offset, int bit_field_size) {
+    if (bit_field_size) offset -= (bit_field_offset >> 3) & 3;
+
+    v->offset = offset;
+    v->bit_field_offset = offset * 8 + (bit_field_offset & 31);
+    v->bit_field_size = bit_field_size;
+}
+
 static void add_simple_assignment_instruction(Value *dst, Value *src1, int enforce_const) {
     if (!dst->is_lvalue) error("Cannot assign to an rvalue");
     if (enforce_const && !type_is_modifiable(dst->type)) error("Cannot assign to read-only variable");
@@ -1726,41 +1737,78 @@ static void parse_simple_assignment(int enforce_const) {
     add_simple_assignment_instruction(dst, src1, enforce_const);
 }
 
-static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
-    Symbol *s = dst->global_symbol;
-    if (!s) error("Attempt to add an initializer to value without a global_symbol");
+// Add an initializer with zeroes if offset is beyond the end of the last initializer
+static void add_initializer_padding(Symbol *s, int offset) {
+    int end = 0;
 
-    if (!s->initializers) s->initializers = new_list(INITIAL_INITALIZERS_COUNT);
+    if (s->initializers->length) {
+        Initializer *prev = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+        end = prev->offset + prev->size;
+    }
+
+    if (end >= offset) return;
 
-    int bf_offset;
-    int bf_bit_offset;
-    int bf_bit_size;
+    Initializer *zero = wcalloc(1, sizeof(Initializer));
+    zero->offset = end;
+    zero->size = offset - end;
+    append_to_list(s->initializers, zero);
+}
+
+// Bit fields are initialized one byte at a time, since one can share its integer with other members.
+static void add_bit_field_initializer(Value *dst, Value *scalar) {
+    Symbol *s = dst->global_symbol;
+
+    int bf_offset, bf_bit_offset, bf_bit_size;
     determine_bit_field_params(dst, &bf_offset, &bf_bit_offset, &bf_bit_size);
-    if (dst->bit_field_size) offset += bf_offset;
 
-    Initializer *in;
-    if (dst->bit_field_size && s->initializers->length && ((Initializer *) s->initializers->elements[s->initializers->length - 1])->offset == offset)
-        // Amend previous initializer for bit field
-        in = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+    for (int bit = bf_bit_offset; bit < bf_bit_offset + bf_bit_size; ) {
+        int offset = bf_offset + (bit >> 3);
+        int size = 8 - (bit & 7);
+        if (size > bf_bit_offset + bf_bit_size - bit) size = bf_bit_offset + bf_bit_size - bit;
 
+        Initializer *in = 0;
+        if (s->initializers->length) {
+            in = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+            if (in->offset != offset || in->size != 1 || !in->data) in = 0;
+        }
 
-    else {
-        if (!dst->bit_field_size && s->initializers->length) {
-            Initializer *prev = (Initializer *) s->initializers->elements[s->initializers->length - 1];
-            if (prev->offset + prev->size != offset) {
-                Initializer *zero = wcalloc(1, sizeof(Initializer));
-                zero->offset = prev->offset + prev->size;
-                zero->size = offset - prev->offset - prev->size;
-                append_to_list(s->initializers, zero);
-            }
+        if (!in) {
+            add_initializer_padding(s, offset);
+
+            in = wcalloc(1, sizeof(Initializer));
+            append_to_list(s->initializers, in);
+            in->data = wcalloc(1, sizeof(char));
+            in->size = 1;
+            in->offset = offset;
         }
 
-        in = wcalloc(1, sizeof(Initializer));
-        append_to_list(s->initializers, in);
+        int value = (scalar->int_value >> (bit - bf_bit_offset)) & ((1 << size) - 1);
+        *((unsigned char *) in->data) |= value << (bit & 7);
+        bit += size;
     }
+}
+
+static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
+    Symbol *s = dst->global_symbol;
+    if (!s) error("Attempt to add an initializer to value without a global_symbol");
+
+    if (!s->initializers) s->initializers = new_list(INITIAL_INITALIZERS_COUNT);
+
+    if (scalar && dst->bit_field_size) {
+        if (!scalar->is_constant)
+            error("An initializer for an object with static storage duration must be a constant expression");
+
+        add_bit_field_initializer(dst, cast_constant_value(scalar, dst->type));
+        return;
+    }
+
+    add_initializer_padding(s, offset);
+
+    Initializer *in = wcalloc(1, sizeof(Initializer));
+    append_to_list(s->initializers, in);
 
     if (scalar) {
-        if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && !scalar->type->type == TYPE_ARRAY)
+        if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY)
             error("An initializer for an object with static storage duration must be a constant expression");
 
         if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
@@ -1779,19 +1827,6 @@ static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
             in->data = wmalloc(sizeof(long double));
             *((long double *) in->data) = scalar->fp_value;
         }
-        else if (dst->bit_field_size) {
-            // Bit field
-            if (!in->data) {
-                in->data = wmalloc(sizeof(int));
-                *((unsigned int *) in->data) = 0;
-            }
-
-            unsigned int *pi = (unsigned int *) in->data;
-            unsigned int mask = bf_bit_size == 32 ? -1 : (1 << bf_bit_size) - 1;
-            unsigned int inverted_shifted_mask = ~(mask << bf_bit_offset);
-            (*pi) &= inverted_shifted_mask;
-            (*pi) |= ((scalar->int_value & mask) << bf_bit_offset);
-        }
         else if (scalar->is_address_of) {
             in->is_address_of = 1;
             in->address_of_offset = scalar->address_of_offset;
@@ -1818,62 +1853,54 @@ static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
     in->offset = offset;
 }
 
-// Initialize value with zeroes starting with offset & size.
-// Do it in increments of 8, 4, 2, 1, to minimize the amount of instructions
-static void initialize_with_zeroes(Value *value, int offset, int size) {
+// Initialize the scalar, struct or union in value that the iterator is at with src.
+static void initialize_value(TypeIterator *it, Value *value, int offset, Type *type, Value *src) {
+    Value *child = dup_value(value);
+    child->global_symbol = value->global_symbol;
+    set_member_location(child, offset, it->bit_field_offset, it->bit_field_size);
+    child->type = type;
+    child->is_lvalue = 1;
+
     if (value->global_symbol)
-        add_initializer(value, offset, size, 0);
-    else {
-        Value *src1 = new_integral_constant(TYPE_INT, size);
-        Value *dst = dup_value(value);
-        dst->offset += offset;
-        add_parser_instruction(IR_ZERO, dst, src1, 0);
-    }
+        add_initializer(child, offset, 0, src);
+    else
+        add_simple_assignment_instruction(child, src, 0);
 }
 
-// The first member of the union is going to get initialized. If the union size is
-// larger than the size of the first member, zero the upper remainder
-static void initialize_union_with_zeroes(Value *value, int offset) {
-    int union_size = get_type_size(value->type);
-    int first_member_size = get_type_size(value->type->struct_or_union_desc->members[0]->type);
-    if (first_member_size < union_size) initialize_with_zeroes(value, offset + first_member_size, union_size - first_member_size);
+// Advance to what comes after the object the iterator is at.
+static TypeIterator *type_iterator_skip(TypeIterator *it) {
+    it->index = -1;
+    return it->parent ? type_iterator_next(it->parent) : it;
 }
 
-// Initialize an array of chars or wchar_t with a string literal
+// Initialize an array of chars or wchar_t with a string literal. An array with a known
+// size doesn't need to have room for all characters, e.g. the terminating zero.
 static TypeIterator *initialize_with_string_literal(TypeIterator *it, Value *value, Value *string_literal) {
     StringLiteral *sl = &(string_literals[string_literal->string_literal_index]);
+    Type *type = it->type;
 
-    if (sl->is_wide_char) {
-        int *int_data = (int *) sl->data;
-        int size = sl->size;
+    if (!type->array_size) type->array_size = sl->size;
+    int element_size = get_type_size(type->target);
 
-        for (int i = 0; i < size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, int_data[i]);
-            it = parse_initializer(it, value, v);
-        }
-    }
-    else {
-        for (int i = 0; i < sl->size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, sl->data[i]);
-            it = parse_initializer(it, value, v);
-        }
+    for (int i = 0; i < sl->size && i < type->array_size; i++) {
+        int c = sl->is_wide_char ? ((int *) sl->data)[i] : sl->data[i];
+        initialize_value(it, value, it->offset + i * element_size, type->target, new_integral_constant(TYPE_INT, c));
     }
 
-    return it;
+    return type_iterator_skip(it);
 }
 
-// Parse an initializer for a variable with automatic storage. If expression is set, it
-// is used as a initializer for a scalar value, otherwise, the expression is parsed.
-static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression) {
+// Parse an initializer for a variable. Anything that isn't in the initializer is zero: the caller has
+// taken care of that for variables with automatic storage.
+static TypeIterator *parse_initializer(TypeIterator *it, Value *value) {
     parse_expression_function_type *parse_expr = value->global_symbol
         ? parse_constant_expression : parse_expression_and_pop;
 
-    TypeIterator *outer_it = it;
-    int initial_outer_offset = it->offset;
-
     if (cur_token == TOK_LCURLY) {
         // Parse {...} initializer
 
+        TypeIterator *outer_it = it;
+
         next();
         if (cur_token == TOK_RCURLY) error("Empty array/struct/union initializer");
 
@@ -1881,7 +1908,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
         while (cur_token != TOK_RCURLY) {
             if (cur_token != TOK_LCURLY) {
                 // Scalar
-                it = parse_initializer(it, value, 0);
+                it = parse_initializer(it, value);
             }
             else {
                 // Sub initializer {...}
@@ -1891,114 +1918,74 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
                     TypeIterator *child;
                     child = type_iterator_descend(it);
                     child->parent = 0;
-                    parse_initializer(child, value, 0);
+                    parse_initializer(child, value);
                     it = type_iterator_next(it); // Advance the top level iterator
                 }
                 else {
                     // There are extraneous expressions, keep recursing and throw
                     // everything away
-                    parse_initializer(it, value, 0);
+                    parse_initializer(it, value);
                 }
             }
 
             if (cur_token != TOK_RCURLY) consume(TOK_COMMA, ",");
         }
         consume(TOK_RCURLY, "}");
-    }
-
-    else {
-        // Initialization of a scalar value
 
-        if (type_iterator_done(it)) {
-            // Parse and ignore any expressions if the iteration has run out
-            if (!expression) parse_expr(TOK_EQ);
-            return it;
+        // Complete incomplete arrays
+        if (outer_it->type->type == TYPE_ARRAY && outer_it->type->array_size == 0) {
+            // If an array element was descended into, but not completed, it counts towards the array size.
+            outer_it->type->array_size = outer_it->index + (outer_it != it);
         }
 
-        Value *src;
-        int initialize_string_literal = 0;
-        Value *parsed_expression = 0;
-        if (expression)
-            src = expression;
-        else {
-            parsed_expression = parse_expr(TOK_EQ);
-
-            if (parsed_expression->is_string_literal) {
-                it = type_iterator_dig_for_string_literal(it);
-
-                initialize_string_literal =
-                    it->type->type == TYPE_ARRAY &&
-                    (it->type->target->type == TYPE_CHAR || it->type->target->type == TYPE_INT);
-                }
-        }
-
-        if (initialize_string_literal) {
-            it = initialize_with_string_literal(it, value, parsed_expression);
-            // Falls through to array size setting code
-        }
+        return it;
+    }
 
-        else {
-            if (!expression) {
-                if (value->global_symbol) src = parsed_expression;
-                else src = load(parsed_expression);
-            }
+    // Initialization with an expression
 
-            // Recurse to deepest scalar unless the expression is a struct, which
-            // can be assigned directly.
-            if (src->type->type != TYPE_STRUCT_OR_UNION) it = type_iterator_dig(it);
+    if (type_iterator_done(it)) {
+        // Parse and ignore any expressions if the iteration has run out
+        parse_expr(TOK_EQ);
+        return it;
+    }
 
-            // For unions, ensure that the whole union is initialized, even if the
-            // first member is smaller than the others.
-            if (value->type->type == TYPE_STRUCT_OR_UNION && value->type->struct_or_union_desc->is_union)
-                initialize_union_with_zeroes(value, it->offset);
+    Value *src = parse_expr(TOK_EQ);
 
-            Value *child = dup_value(value);
-            child->global_symbol = value->global_symbol;
-            child->offset = it->offset;
-            child->bit_field_offset = it->bit_field_offset;
-            child->bit_field_size = it->bit_field_size;
-            child->type = it->type;
-            child->is_lvalue = 1;
+    if (src->is_string_literal && src->type->type == TYPE_ARRAY) {
+        it = type_iterator_dig_for_string_literal(it);
 
-            if (value->global_symbol)
-                add_initializer(child, it->offset, 0, src);
+        if (it->type->type == TYPE_ARRAY) return initialize_with_string_literal(it, value, src);
+    }
 
-            else
-                add_simple_assignment_instruction(child, src, 0);
+    if (!value->global_symbol) src = load(src);
 
-            return type_iterator_next(it);
-        }
+    if (src->type->type == TYPE_STRUCT_OR_UNION) {
+        // A struct or union can be assigned directly.
+        while (!is_scalar_type(it->type) && !(it->type->type == TYPE_STRUCT_OR_UNION && types_are_compatible_ignore_qualifiers(it->type, src->type)))
+            it = type_iterator_descend(it);
     }
+    else
+        // Recurse to deepest scalar
+        it = type_iterator_dig(it);
 
-    // Complete incomplete arrays
-    if (outer_it->type->type == TYPE_ARRAY && outer_it->type->array_size == 0) {
-        if (outer_it != it) {
-            // An array was descended into, but not completed. Zero the elements first.
-            int array_element_size = get_type_size(outer_it->type->target);
-            int zeroes = array_element_size - ((it->offset - initial_outer_offset) % array_element_size);
-            if (zeroes < 0) panic_with_line_number("Got negative zeroes");
-            if (zeroes)
-                initialize_with_zeroes(value, it->offset, zeroes);
+    initialize_value(it, value, it->offset, it->type, src);
 
-            // Advance the index since the half-initialized element counts towards
-            // the array size
-            outer_it->index++;
-        }
+    return type_iterator_skip(it);
+}
 
-        // Complete the array
-        outer_it->type->array_size = outer_it->index;
-    }
+// Parse the initializer of a variable with automatic storage
+static void parse_local_initializer(Value *value) {
+    Value *size = 0;
 
-    // If not all values where reached, set the remainder with zeroes
-    if (!type_iterator_done(it)) {
-        int outer_size = get_type_size((outer_it->type));
-        int zeroes = initial_outer_offset + outer_size - it->offset;
-        if (zeroes < 0) panic_with_line_number("Got negative zeroes");
-        if (zeroes)
-            initialize_with_zeroes(value, it->offset, zeroes);
+    if (!is_scalar_type(value->type) && (cur_token == TOK_LCURLY || value->type->type == TYPE_ARRAY)) {
+        // Zero the entire object first. The size isn't known yet if it's an incomplete array.
+        size = new_integral_constant(TYPE_INT, 0);
+        add_parser_instruction(IR_ZERO, dup_value(value), size, 0);
     }
 
-    return it;
+    parse_initializer(type_iterator(value->type), value);
+
+    if (size) size->int_value = get_type_size(value->type);
 }
 
 // Convert src to the type of dst, store it in dst and push the stored value
@@ -2171,7 +2158,10 @@ static void parse_declaration(void) {
         if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
             error("Attempt to use an incomplete struct or union in an initializer");
 
-        parse_initializer(type_iterator(v->type), v, 0);
+        if (v->global_symbol)
+            parse_initializer(type_iterator(v->type), v);
+        else
+            parse_local_initializer(v);
         symbol->type = v->type;
         if (array_declaration) array_declaration->type = v->type;
         base_type = old_base_type;
@@ -2477,9 +2467,7 @@ void parse_struct_dot_arrow_expression(void) {
     // on a copied value. Otherwise, e.g. a struct function return result may not get
     // persisted to the stack this is needed for e.g. int i = return_struct().i;
     Value *v = dup_value(pop());
-    v->offset += member->offset;
-    v->bit_field_offset = v->offset * 8 + (member->bit_field_offset & 7);
-    v->bit_field_size = member->bit_field_size;
+    set_member_location(v, v->offset + member->offset, member->bit_field_offset, member->bit_field_size);
     v->type = dup_type(member->type);
     if (member_is_const) v->type->is_const = 1;
     v->is_lvalue = 1;
@@ -3626,7 +3614,7 @@ void parse(void) {
                     if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
                         error("Attempt to use an incomplete struct or union in an initializer");
 
-                    parse_initializer(type_iterator(v->type), v, 0);
+                    parse_initializer(type_iterator(v->type), v);
                     symbol->type = v->type;
                     base_type = old_base_type;
                 }
diff --git a/types.c b/types.c
index 7b76648..7d68a59 100644
--- a/types.c
+++ b/types.c
@@ -962,6 +962,13 @@ int type_is_modifiable(Type *type) {
     return 1;
 }
 
+// Unnamed bit fields don't get initialized. Skip to the next member.
+static void type_iterator_skip_unnamed_bit_fields(TypeIterator *it) {
+    StructOrUnionMember **members = it->type->struct_or_union_desc->members;
+    while (members[it->index] && members[it->index]->is_bit_field && !members[it->index]->identifier) it->index++;
+    if (members[it->index]) it->offset = it->start_offset + members[it->index]->offset;
+}
+
 // Create a new type iterator instance. A type iterator can be used to recurse
 // through all scalars either depth first, or by iterating at a single level.
 TypeIterator *type_iterator(Type *type) {
@@ -969,6 +976,11 @@ TypeIterator *type_iterator(Type *type) {
     append_to_list(allocated_type_iterators, it);
     it->type = type;
 
+    if (type->type == TYPE_STRUCT_OR_UNION && !type->struct_or_union_desc->is_incomplete) {
+        type_iterator_skip_unnamed_bit_fields(it);
+        if (!type->struct_or_union_desc->members[it->index]) it->index = 0;
+    }
+
     return it;
 }
 
@@ -1003,17 +1015,12 @@ TypeIterator *type_iterator_next(TypeIterator *it) {
     else if (it->type->type == TYPE_STRUCT_OR_UNION) {
         it->index++;
         int is_union = it->type->struct_or_union_desc->is_union;
+        if (!is_union) type_iterator_skip_unnamed_bit_fields(it);
         if (is_union || !it->type->struct_or_union_desc->members[it->index]) {
             it->offset = it->start_offset + get_type_size(it->type);
             return type_iterator_recurse_upwards(it);
         }
 
-        it->offset = it->start_offset + it->type->struct_or_union_desc->members[it->index]->offset;
-
-        // Skip over zero size bit fields
-        StructOrUnionMember *member = it->type->struct_or_union_desc->members[it->index];
-        if (member->is_bit_field && !member->bit_field_size) return type_iterator_next(it);
-
         return it;
     }
     else
@@ -1033,17 +1040,17 @@ TypeIterator *type_iterator_descend(TypeIterator *it) {
     }
     if (it->type->type == TYPE_ARRAY) {
         TypeIterator *child = type_iterator(it->type->target);
-        child->offset = it->offset;
         child->start_offset = it->offset;
+        child->offset += it->offset;
         child->parent = it;
-        return child;;
+        return child;
     }
     else if (it->type->type == TYPE_STRUCT_OR_UNION) {
         TypeIterator *child = type_iterator(it->type->struct_or_union_desc->members[it->index]->type);
         child->bit_field_offset = it->type->struct_or_union_desc->members[it->index]->bit_field_offset;
         child->bit_field_size = it->type->struct_or_union_desc->members[it->index]->bit_field_size;
-        child->offset = it->offset;
         child->start_offset = it->offset;
+        child->offset += it->offset;
         child->parent = it;
         return child;
     }
-- 
2.43.0


From 645f0eb7d5ecd782665f8ed36a3f170a510b0a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 25/89] fix: classify structs with bit-fields and padding
 without overrunning the flattened type arrays

---
 functions.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/functions.c b/functions.c
index 7f8ed9e..5ae1b98 100644
--- a/functions.c
+++ b/functions.c
@@ -1549,7 +1549,17 @@ static void flatten_type(Type *type, StructOrUnionScalars *scalars, int offset)
         StructOrUnion *s = type->struct_or_union_desc;
         for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
             StructOrUnionMember *member = *pmember;
-            flatten_type(member->type, scalars, offset + member->offset);
+
+            if (member->bit_field_size) {
+                // Add the bytes the bit field is in. Unnamed bit fields are padding.
+                if (!member->identifier) continue;
+                int first = member->bit_field_offset & 31;
+                int unit_offset = offset + member->offset - (first >> 3);
+                for (int i = first >> 3; i <= (first + member->bit_field_size - 1) >> 3; i++)
+                    flatten_type(new_type(TYPE_CHAR), scalars, unit_offset + i);
+            }
+            else if (!member->is_bit_field)
+                flatten_type(member->type, scalars, offset + member->offset);
         }
     }
 
@@ -1613,7 +1623,8 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
             size = 0; // Needs recalculating to remove any paddding at the end
             for (int i = 0; i < scalars->count; i++) {
                 StructOrUnionScalar *scalar = scalars->scalars[i];
-                size +=  get_type_size(scalar->type);
+                int end = scalar->offset + get_type_size(scalar->type);
+                if (end > size) size = end;
                 int eight_byte = scalar->offset >> 3;
                 member_counts[eight_byte]++;
 
-- 
2.43.0


From 42bb9accbc3a8c01d590899cc21360857acea5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 26/89] fix: add missing instruction rules for comparisons and
 tests of long double pointers

---
 instrrules.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instrrules.c b/instrrules.c
index 17fd449..a01135d 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1737,10 +1737,12 @@ void define_rules(void) {
 
     add_conditional_zero_jump_rule(IR_JZ,  XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
+    add_conditional_zero_jump_rule(IR_JZ,  RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JNZ, XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
+    add_conditional_zero_jump_rule(IR_JNZ, RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
 
@@ -1762,6 +1764,11 @@ void define_rules(void) {
         for (int j = 0; j < 4; j++)
             add_int_comparison_rules(&ntc, 1, RP1 + i, RP1 + j, cmpq_vv);
 
+    add_int_comparison_rules(&ntc, 1, RP5, RP5, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RP5, RP4, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RP4, RP5, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RP5, CI3, cmpq_vc);
+
     add_int_comparison_rules(&ntc, 1, RPF, RPF, "cmpq %v2q, %v1q");
 
     // Note the RU4, CI3 oddball. cmpq can only be done on imm32, which has to be signed. If CU4 were allowed, then 0x80000000 and higher would
-- 
2.43.0


From 41587dff15b1bd153fb87360e06b894e0c2af48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 27/89] fix: keep the member offset when copying a large struct
 through a pointer

---
 ir.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/ir.c b/ir.c
index 02c64fc..a29cd7d 100644
--- a/ir.c
+++ b/ir.c
@@ -860,6 +860,25 @@ static Tac *insert_function_call_instructions_after(Tac *ir, Value *call_value,
     ir = insert_instruction_after_from_operation(ir, IR_END_CALL, 0, call_value, 0);
 }
 
+// Get the address of a struct/union for use as an argument of memcpy
+static Value *insert_memory_address_instructions_after(Function *function, Tac **ir, Value *src) {
+    if (!src->is_lvalue || !src->vreg) return insert_address_of_instruction_after(function, ir, src);
+    if (!src->offset) return src;
+
+    // The vreg holds a pointer, add the offset of the member to it
+    Value *pointer = dup_value(src);
+    pointer->type = make_pointer_to_void();
+    pointer->is_lvalue = 0;
+    pointer->offset = 0;
+
+    Value *v = new_value();
+    v->vreg = ++function->vreg_count;
+    v->type = make_pointer_to_void();
+    *ir = insert_instruction_after_from_operation(*ir, IR_ADD, v, pointer, new_integral_constant(TYPE_LONG, src->offset));
+
+    return v;
+}
+
 // Add memcpy calls for struct/union -> struct/union copies
 Tac *add_memory_copy_with_memcpy(Function *function, Tac *ir, Value *dst, Value *src1, int size) {
     int function_call_count = make_function_call_count(function);
@@ -869,17 +888,8 @@ Tac *add_memory_copy_with_memcpy(Function *function, Tac *ir, Value *dst, Value
     ir = insert_instruction_after_from_operation(ir, IR_START_CALL, 0, call_value, 0);
 
     // Load of addresses of src1, dst & make size value
-    Value *src1_value;
-    if (src1->is_lvalue && src1->vreg)
-        src1_value = src1;
-    else
-        src1_value = insert_address_of_instruction_after(function, &ir, src1);
-
-    Value *dst_value;
-    if (dst->is_lvalue && dst->vreg)
-        dst_value = dst;
-    else
-        dst_value = insert_address_of_instruction_after(function, &ir, dst);
+    Value *src1_value = insert_memory_address_instructions_after(function, &ir, src1);
+    Value *dst_value = insert_memory_address_instructions_after(function, &ir, dst);
 
     Value *size_value = new_integral_constant(TYPE_LONG, size);
 
-- 
2.43.0


From 5e73e4af3615fa7fd1a8e5f66923ec426f3245c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 28/89] fix: don't fold the stack pointer into the store of a
 small struct pushed on the stack

---
 instrsel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instrsel.c b/instrsel.c
index 56b7061..eb9014b 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -420,11 +420,12 @@ static void make_igraphs(Function *function, int block_id) {
         // arg registers and no code is actually emitted.
         // Values in rcx and rdx, such as function parameters, are moved out of them right away, otherwise
         // they would be live during a shift, multiplication or division that needs the register.
-        // Constant addresses must be in a register to be dereferenced.
+        // Constant addresses and the stack pointer must be in a register to be dereferenced.
         if (vreg_igraphs[dst].count == 1 && vreg_igraphs[dst].igraph_id != -1 &&
             tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR &&
             igraphs[g1_igraph_id].nodes[0].tac->operation != IR_CALL_ARG_REG &&
             tac->operation != IR_CALL_ARG_REG &&
+            tac->operation != IR_MOVE_STACK_PTR &&
             !(tac->operation == IR_MOVE && tac->src1 &&
                 (tac->src1->live_range_preg == LIVE_RANGE_PREG_RCX_INDEX || tac->src1->live_range_preg == LIVE_RANGE_PREG_RDX_INDEX)) &&
             !(tac->operation == IR_MOVE && tac->src1 && tac->src1->is_constant && tac->dst->type->type == TYPE_PTR) &&
-- 
2.43.0


From ffc452b3a462ec99a8b77fb5675c1683fa3fcc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 29/89] fix: struct return values of calls through pointers, of
 structs in st0, and array parameters and big structs on the stack

---
 functions.c | 70 +++++++++++++++++++++++++++++++++++++++++++++++------
 parser.c    |  8 +-----
 wcc.h       |  1 +
 3 files changed, 65 insertions(+), 14 deletions(-)

diff --git a/functions.c b/functions.c
index 5ae1b98..f6dd3d2 100644
--- a/functions.c
+++ b/functions.c
@@ -55,6 +55,8 @@ static int make_struct_or_union_arg_move_instructions(
         Function *function, Tac *ir, Value *param, int preg_class, int register_index,
         FunctionParamLocation *location, RegisterSet *register_set);
 
+static int is_long_double_struct_or_union(Type *type);
+
 static Value *make_param_dst_on_stack(int type, int stack_index, int offset) {
     Value *dst = new_value();
 
@@ -177,7 +179,7 @@ static void add_function_call_result_moves_for_struct_or_union(Function *functio
 
     Type *function_type = ir->src1->type;
 
-    FunctionParamAllocation *fpa = function_type->function->return_value_fpa;
+    FunctionParamAllocation *fpa = get_function_return_value_fpa(function_type);
     FunctionParamLocations *fpl = fpa->param_locations->elements[0];
 
     Value *function_value = ir->src1;
@@ -268,6 +270,11 @@ void add_function_call_result_moves(Function *function) {
     for (Tac *ir = function->ir; ir; ir = ir->next) {
         if (ir->operation != IR_CALL || !ir->dst) continue;
 
+        if (is_long_double_struct_or_union(ir->dst->type)) {
+            ir->dst = dup_value(ir->dst);
+            ir->dst->type = new_type(TYPE_LONG_DOUBLE);
+        }
+
         if (ir->dst->type->type == TYPE_STRUCT_OR_UNION)
             add_function_call_result_moves_for_struct_or_union(function, ir);
 
@@ -362,8 +369,22 @@ void add_function_return_moves(Function *function, char *identifier) {
         if ((ir->operation == IR_RETURN && !ir->src1) || ir->operation != IR_RETURN) continue;
 
         // Implicit else, operation == IR_RETURN & ir-src1 has a value
-        if (ir->src1->type->type == TYPE_LONG_DOUBLE) {
-            insert_instruction_from_operation(ir, IR_LOAD_LONG_DOUBLE, 0, ir->src1, 0, 1);
+        if (is_long_double_struct_or_union(ir->src1->type)) {
+            Value *src1 = dup_value(ir->src1);
+            src1->type = new_type(TYPE_LONG_DOUBLE);
+
+            if (src1->is_lvalue && src1->vreg) {
+                // Load it from the pointer in the register
+                Value *temp = new_value();
+                temp->type = new_type(TYPE_LONG_DOUBLE);
+                temp->stack_index = -(++function->stack_register_count);
+                src1->type = make_pointer(src1->type);
+                src1->is_lvalue = 0;
+                insert_instruction_from_operation(ir, IR_INDIRECT, temp, src1, 0, 1);
+                src1 = temp;
+            }
+
+            insert_instruction_from_operation(ir, IR_LOAD_LONG_DOUBLE, 0, src1, 0, 1);
 
             ir->operation = IR_RETURN;
             ir->dst = 0;
@@ -897,8 +918,9 @@ void remap_stack_index(int *stack_index_remap, Value *v) {
 // the target in rdi. Make a copy of rdi in return_value_pointer for use in the
 // return value code. The function returns 1 if rdi has been used in this way.
 static int setup_return_for_struct_or_union(Function *function) {
-    FunctionParamAllocation *fpa = function->type->function->return_value_fpa;
+    FunctionParamAllocation *fpa = get_function_return_value_fpa(function->type);
 
+    if (!fpa) return 0;
     if (fpa_pl(fpa, 0).locations[0].stack_offset == -1) return 0;
 
     function->return_value_pointer = new_value();
@@ -1329,9 +1351,10 @@ void add_function_param_moves(Function *function, char *identifier) {
 
     int *has_address_of = wcalloc(function->type->function->param_count, sizeof(int));
 
-    // The stack is never bigger than function->type->function->param_count * 2 & starts at 2
-    int *stack_param_vregs = wmalloc(sizeof(int) * (function->type->function->param_count * 2 + 2));
-    memset(stack_param_vregs, -1, sizeof(int) * (function->type->function->param_count * 2 + 2));
+    // Stack indexes start at 2. Parameters that aren't on the stack have stack index 2 + parameter index
+    int stack_param_count = function->type->function->param_count + (fpa->size >> 3) + 2;
+    int *stack_param_vregs = wmalloc(sizeof(int) * stack_param_count);
+    memset(stack_param_vregs, -1, sizeof(int) * stack_param_count);
 
     // Determine which parameters in registers are used in IR_ADDRESS_OF instructions
     for (Tac *ir = function->ir; ir; ir = ir->next) {
@@ -1413,6 +1436,9 @@ void add_function_param_moves(Function *function, char *identifier) {
 
         Type *type = function->type->function->param_types->elements[i];
 
+        if (type->type == TYPE_ARRAY) type = decay_array_to_pointer(type);
+        if (type->type == TYPE_ENUM) type = new_type(TYPE_INT);
+
         int stack_index = (fpa_pl(fpa, fpa_start + i).locations[0].stack_offset + 16) >> 3;
 
         // The rightmost arg has stack index 2
@@ -1473,6 +1499,36 @@ FunctionParamAllocation *init_function_param_allocaton(char *function_identifier
     return fpa;
 }
 
+// Is the type a struct/union with nothing but a long double in it? These are returned in st0.
+static int is_long_double_struct_or_union(Type *type) {
+    if (type->type == TYPE_ARRAY) return type->array_size == 1 && is_long_double_struct_or_union(type->target);
+    if (type->type != TYPE_STRUCT_OR_UNION) return type->type == TYPE_LONG_DOUBLE;
+    if (get_type_size(type) != 16) return 0;
+
+    int count = 0;
+    for (StructOrUnionMember **pmember = type->struct_or_union_desc->members; *pmember; pmember++) {
+        if ((*pmember)->is_bit_field || !is_long_double_struct_or_union((*pmember)->type)) return 0;
+        count++;
+    }
+
+    return count > 0;
+}
+
+// Get the function param allocation for the return value of a function. It is zero if the function doesn't return
+// a struct or union in memory or integer and SSE registers.
+FunctionParamAllocation *get_function_return_value_fpa(Type *function_type) {
+    if (function_type->target->type != TYPE_STRUCT_OR_UNION) return 0;
+    if (is_long_double_struct_or_union(function_type->target)) return 0;
+
+    if (!function_type->function->return_value_fpa) {
+        FunctionParamAllocation *fpa = init_function_param_allocaton("return value");
+        add_function_param_to_allocation(fpa, function_type->target);
+        function_type->function->return_value_fpa = fpa;
+    }
+
+    return function_type->function->return_value_fpa;
+}
+
 static void free_function_param_locations(FunctionParamLocations *fpl) {
     wfree(fpl->locations);
     wfree(fpl);
diff --git a/parser.c b/parser.c
index 1c5f71c..27b7323 100644
--- a/parser.c
+++ b/parser.c
@@ -2243,7 +2243,7 @@ static void parse_function_call(void) {
     // Allocate an integer slot if the function returns a slot in memory. The
     // RDI register must contain a pointer to the return value, set by the caller.
     int has_struct_or_union_return_value = 0;
-    FunctionParamAllocation *rv_fpa = function_type->function->return_value_fpa;
+    FunctionParamAllocation *rv_fpa = get_function_return_value_fpa(function_type);
     if (rv_fpa) {
         FunctionParamLocations *rv_fpl = rv_fpa->param_locations->elements[0];
         if (rv_fpl->locations[0].stack_offset != -1) {
@@ -3440,12 +3440,6 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
         symbol->function->local_symbol_count = 0;
         symbol->function->labels = new_strmap();
         symbol->function->goto_backpatches = 0;
-
-        if (type->target->type == TYPE_STRUCT_OR_UNION) {
-            FunctionParamAllocation *fpa = init_function_param_allocaton(cur_type_identifier);
-            add_function_param_to_allocation(fpa, type->target);
-            type->function->return_value_fpa = fpa;
-        }
     }
     else
         symbol->function = original_symbol->function;
diff --git a/wcc.h b/wcc.h
index b4a5218..8ecf007 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1168,6 +1168,7 @@ void process_function_varargs(Function *function);
 void add_function_param_moves(Function *function, char *identifier);
 Value *make_function_call_value(int function_call);
 FunctionParamAllocation *init_function_param_allocaton(char *function_identifier);
+FunctionParamAllocation *get_function_return_value_fpa(Type *function_type);
 void free_function_param_allocaton(FunctionParamAllocation *fpa);
 void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type);
 void finalize_function_param_allocation(FunctionParamAllocation *fpa);
-- 
2.43.0


From 3ccb78a49fbab4de295f380a7c2aab808a87a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 30/89] fix: keep the result pointer and argument registers
 live while later arguments are loaded

---
 functions.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/functions.c b/functions.c
index f6dd3d2..a096ab4 100644
--- a/functions.c
+++ b/functions.c
@@ -241,6 +241,9 @@ static void add_function_call_result_moves_for_struct_or_union(Function *functio
         rdi_value->live_range_preg = LIVE_RANGE_PREG_RDI_INDEX;
         insert_instruction_from_operation(ir, IR_MOVE, rdi_value, address_value, 0, 1);
 
+        // Ensure rdi isn't used for anything else while the arguments are loaded
+        insert_instruction_from_operation(ir, IR_CALL_ARG_REG, 0, rdi_value, 0, 1);
+
         // Setup dst for rax
         Value *struct_dst = ir->dst;
 
@@ -659,6 +662,11 @@ void add_function_call_arg_moves_for_preg_class(Function *function, int preg_cla
             FunctionParamLocations **pls = &(param_locations[ir->src1->int_value * register_count]);
             Type *called_function_type = ir->src1->type;
 
+            // Add the moves before any existing IR_CALL_ARG_REG, so that registers which have already been assigned
+            // stay live until the call.
+            Tac *call_ir = ir;
+            while (call_ir->prev && call_ir->prev->operation == IR_CALL_ARG_REG && call_ir->prev->src1) call_ir = call_ir->prev;
+
             // Allocated registers that hold the argument value
             Value **function_call_values = wcalloc(register_count, sizeof(Value *));
 
@@ -702,13 +710,13 @@ void add_function_call_arg_moves_for_preg_class(Function *function, int preg_cla
                 Type *function_call_vreg_type;
                 if (type->type == TYPE_STRUCT_OR_UNION) {
                     FunctionParamLocation *location = lookup_location(preg_class, i, *pls);
-                    function_call_vreg = make_struct_or_union_arg_move_instructions(function, ir, *call_arg, preg_class, i, location, &arg_register_set);
+                    function_call_vreg = make_struct_or_union_arg_move_instructions(function, call_ir, *call_arg, preg_class, i, location, &arg_register_set);
                     function_call_vreg_type = preg_class == PC_INT ? new_type(TYPE_LONG) : new_type(TYPE_DOUBLE);
                 }
                 else {
                     if (type->type == TYPE_ARRAY) type = decay_array_to_pointer(type);
                     if (type->type == TYPE_ENUM) type = new_type(TYPE_INT);
-                    function_call_vreg = add_arg_move_to_register(function, ir, type, *call_arg, preg_class, i, &arg_register_set);
+                    function_call_vreg = add_arg_move_to_register(function, call_ir, type, *call_arg, preg_class, i, &arg_register_set);
                     function_call_vreg_type = (*call_arg)->type;
                 }
 
-- 
2.43.0


From d008f2373d22d066e6f6ad787758e5872401114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 31/89] fix: count the stack slot of a float argument once, so
 nested calls stay aligned

---
 instrrules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrrules.c b/instrrules.c
index a01135d..0728000 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1691,7 +1691,7 @@ void define_rules(void) {
     r = add_rule(0, IR_ARG, CI4, CS4, 2); add_sse_function_call_arg_op(r, "movabsq %v1d, %vdq");
 
     // SSE register arg
-    r = add_rule(0, IR_ARG, CI4, RS3, 2); add_op(r, X_ARG, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2F, (%%rsp)");
+    r = add_rule(0, IR_ARG, CI4, RS3, 2); add_op(r, X_MOV, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2F, (%%rsp)");
     r = add_rule(0, IR_ARG, CI4, RS4, 2); add_op(r, X_MOV, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2D, (%%rsp)");
 
     // Add rules for sign/zero extention of an arg, but at a high cost, to encourage other rules to take precedence
-- 
2.43.0


From 61e8d6a597238bde4afa9632c7adb562afd80c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 32/89] fix: allocate stack space for structs that are only
 accessed in pieces

---
 codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index b666400..72630a6 100644
--- a/codegen.c
+++ b/codegen.c
@@ -109,7 +109,8 @@ void process_stack_offset(Value *value, int *stack_alignments, int *stack_sizes)
 
         int value_alignment = get_type_alignment(value->type);
         if (value_alignment > stack_alignments[-value->stack_index]) stack_alignments[-value->stack_index] = value_alignment;
-        int value_size = get_type_size(value->type);
+        // Include the offset, since a struct/union may only ever be accessed in bits.
+        int value_size = value->offset + get_type_size(value->type);
         if (value_size > stack_sizes[-value->stack_index]) stack_sizes[-value->stack_index] = value_size;
     }
 }
@@ -142,6 +143,7 @@ void make_stack_offsets(Function *function, char *function_name) {
             int alignment = stack_alignments[i];
             int object_size = stack_sizes[i];
             if (wanted_alignment != alignment) continue;
+            object_size = (object_size + alignment - 1) & ~(alignment - 1);
             offset += object_size;
             stack_offsets[i] = offset;
             total_size += object_size;
-- 
2.43.0


From c00477258f3775c98c8bf6c2c07e3a66b8fb8b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 33/89] fix: don't lose the offset of a global's member used
 twice in position independent code

---
 ir.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir.c b/ir.c
index a29cd7d..41c3815 100644
--- a/ir.c
+++ b/ir.c
@@ -1210,8 +1210,8 @@ static Value *add_load_from_got(Function *function, Tac *tac, Value *src) {
 
     insert_instruction_from_operation(tac, IR_LOAD_FROM_GOT, dst, got_src, 0, 0);
 
+    // src might be used by other instructions, leave it alone
     dst->offset = src->offset;
-    src->offset = 0;
     got_src->offset = 0;
 
     return dst;
@@ -1261,6 +1261,7 @@ void add_PIC_load_and_saves(Function *function) {
 
         else if (tac->src1 && tac->src1->global_symbol && tac->operation == IR_ADDRESS_OF) {
             tac->operation = IR_ADDRESS_OF_FROM_GOT;
+            tac->src1 = dup_value(tac->src1);
             tac->src1->load_from_got = 1;
             if (tac->src1->offset) {
                 int offset = tac->src1->offset;
@@ -1284,6 +1285,7 @@ void convert_functions_address_of(Function *function) {
 
             if (!is_defined) {
                 tac->operation = IR_ADDRESS_OF_FROM_GOT;
+                tac->src1 = dup_value(tac->src1);
                 tac->src1->load_from_got = 1;
             }
         }
-- 
2.43.0


From 659eca6bfc7ca9990cc3fb72ec17d22776d9b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 34/89] fix: va_arg of structs in both integer and SSE
 registers, of odd sizes and of 16 byte alignment

---
 functions.c | 115 ++++++++++++++++++++++++++++++++++------------------
 ir.c        |   2 +-
 2 files changed, 76 insertions(+), 41 deletions(-)

diff --git a/functions.c b/functions.c
index a096ab4..8c0cf3d 100644
--- a/functions.c
+++ b/functions.c
@@ -1098,29 +1098,31 @@ static Tac *write_to_va_list(Function *function, Tac *ir, Value *va_list, Value
     }
     else {
         // Write to the stack
-    dst->type = value->type;
+        dst->type = value->type;
         dst->offset = offset;
         ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, value, 0);
     }
+
+    return ir;
 }
 
-// Add instructions that read the FP or GP offset, determine if the type can fit
-// in a register, and if not, jmp to the stack read label fetch_from_stack.
-static Tac *add_function_va_arg_in_register_check(Function *function, Tac *ir, Type *type, Value *va_list, int gp_count, int fp_count, Value *fetch_from_stack, Value **result_gp_fp_offset) {
+// Add instructions that read the GP or FP offset, determine if count registers are
+// left in the register save area, and if not, jmp to the stack read label fetch_from_stack.
+static Tac *add_function_va_arg_in_register_check(Function *function, Tac *ir, Value *va_list, int is_gp, int count, Value *fetch_from_stack, Value **result_gp_fp_offset) {
     // Read gp_offset or fp_offset into gp_fp_offset register
     Type *gp_fp_offset_type = new_type(TYPE_INT);
     gp_fp_offset_type->is_unsigned = 1;
-    int gp_fp_offset_offset = gp_count ? 0 : 4; // gp_offset or fp_offset
+    int gp_fp_offset_offset = is_gp ? 0 : 4; // gp_offset or fp_offset
     Value *gp_fp_offset;
     ir = read_from_va_list(function, ir, va_list, gp_fp_offset_type, gp_fp_offset_type, gp_fp_offset_offset, &gp_fp_offset);
 
-    // Check if gp_fp_offset >= 48, and if so jump to the stack fetching code
+    // Check if there's not enough space left, and if so jump to the stack fetching code
     Value *gp_fp_offset_ge_result = new_value();
     gp_fp_offset_ge_result->type = new_type(TYPE_INT);
     gp_fp_offset_ge_result->type->is_unsigned = 1;
     gp_fp_offset_ge_result->vreg = ++function->vreg_count;
 
-    int last_offset = gp_count ? 48 - gp_count * 8 : 176 - fp_count * 16;
+    int last_offset = is_gp ? 48 - count * 8 : 176 - count * 16;
     Value *last_offset_value = new_integral_constant(TYPE_INT, last_offset);
     last_offset_value->type->is_unsigned = 1;
 
@@ -1144,40 +1146,67 @@ static int va_arg_size(Type *type) {
         return 8;
 }
 
-// Add instructions to read a vararg from the register save area
-static Tac *add_function_va_arg_register_save_area_read(Function *function, Tac *ir, Type *type, Value *va_list, int gp_count, int fp_count, Value *gp_fp_offset, Value *dst) {
+// Make a pointer to the next integer or SSE register in the register save area
+static Tac *add_function_va_arg_register_save_area_pointer(Function *function, Tac *ir, Value *va_list, Value *gp_fp_offset, Value *dst, Value **ptr) {
     // Read register_save_area into register_save_area register
     Value *register_save_area;
     ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(dst->type), 16, &register_save_area);
 
     // Add gp_fp_offset to register_save_area
-    Value *ptr = new_value();
-    ptr->type = make_pointer(dst->type);
-    ptr->vreg = ++function->vreg_count;
-    ir = insert_instruction_after_from_operation(ir, IR_ADD, ptr, register_save_area, gp_fp_offset);
+    *ptr = new_value();
+    (*ptr)->type = make_pointer(dst->type);
+    (*ptr)->vreg = ++function->vreg_count;
 
-    if (type->type == TYPE_STRUCT_OR_UNION) {
-        // Copy memory for struct/union
-        Value *memcpy_ptr = dup_value(ptr);
-        memcpy_ptr->is_lvalue = 1;
-        int size = va_arg_size(type);
-        int splay_offsets = fp_count > 0; // Splay offsets if it's an SSE struct
-        ir = add_memory_copy_with_registers(function, ir, dst, memcpy_ptr, size, splay_offsets);
-    }
-    else
-        // Read a scalar value from a pointer
-        ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, dst, ptr, 0);
+    return insert_instruction_after_from_operation(ir, IR_ADD, *ptr, register_save_area, gp_fp_offset);
+}
 
-    // Add 8 or 16 to gp_fp_offset register
+// Add 8 or 16 for each used register to gp_offset or fp_offset
+static Tac *add_function_va_arg_offset_increment(Function *function, Tac *ir, Value *va_list, int is_gp, int count, Value *gp_fp_offset) {
+    // Add to gp_fp_offset register
     Value *new_gp_fp_offset = dup_value(gp_fp_offset);
     new_gp_fp_offset->vreg = ++function->vreg_count;
-    Value *size = new_integral_constant(TYPE_INT, gp_count * 8 + fp_count * 16);
+    Value *size = new_integral_constant(TYPE_INT, is_gp ? count * 8 : count * 16);
     size->type->is_unsigned = 1;
     ir = insert_instruction_after_from_operation(ir, IR_ADD, new_gp_fp_offset, gp_fp_offset, size);
 
-    // Write new gp offset back to va_list
-    int offset = gp_count ? 0 : 4; // gp_offset or fp_offset
-    ir = write_to_va_list(function, ir, va_list, new_gp_fp_offset, offset);
+    // Write new offset back to va_list
+    return write_to_va_list(function, ir, va_list, new_gp_fp_offset, is_gp ? 0 : 4);
+}
+
+// Add instructions to read a vararg from the register save area
+static Tac *add_function_va_arg_register_save_area_read(Function *function, Tac *ir, Type *type, Value *va_list, FunctionParamLocations *fpl, int gp_count, int fp_count, Value *gp_offset, Value *fp_offset, Value *dst) {
+    Value *gp_ptr = 0;
+    Value *fp_ptr = 0;
+
+    if (gp_count) ir = add_function_va_arg_register_save_area_pointer(function, ir, va_list, gp_offset, dst, &gp_ptr);
+    if (fp_count) ir = add_function_va_arg_register_save_area_pointer(function, ir, va_list, fp_offset, dst, &fp_ptr);
+
+    if (type->type == TYPE_STRUCT_OR_UNION) {
+        // Copy each eight byte of the struct/union from the register it's in
+        int gp_index = 0;
+        int fp_index = 0;
+
+        for (int loc = 0; loc < fpl->count; loc++) {
+            FunctionParamLocation *location = &(fpl->locations[loc]);
+            int is_gp = location->int_register != -1;
+            int size = get_type_size(type) - location->stru_offset;
+            if (size > 8) size = 8;
+
+            Value *register_ptr = dup_value(is_gp ? gp_ptr : fp_ptr);
+            register_ptr->is_lvalue = 1;
+            register_ptr->offset = is_gp ? 8 * gp_index++ : 16 * fp_index++;
+
+            Value *part_dst = dup_value(dst);
+            part_dst->offset = dst->offset + location->stru_offset;
+            ir = add_memory_copy_with_registers(function, ir, part_dst, register_ptr, size, 0);
+        }
+    }
+    else
+        // Read a scalar value from a pointer
+        ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, dst, gp_count ? gp_ptr : fp_ptr, 0);
+
+    if (gp_count) ir = add_function_va_arg_offset_increment(function, ir, va_list, 1, gp_count, gp_offset);
+    if (fp_count) ir = add_function_va_arg_offset_increment(function, ir, va_list, 0, fp_count, fp_offset);
 
     return ir;
 }
@@ -1192,7 +1221,7 @@ static Tac *add_function_va_arg_stack_read(Function *function, Tac *ir, Type *ty
     Value *overflow_arg_area;
     ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(dst->type), 8, &overflow_arg_area);
 
-    if (type->type == TYPE_LONG_DOUBLE) {
+    if (get_type_alignment(type) == 16) {
         // Align overflow arg area to 16 byte boundary, by adding 15 then anding with ~15
 
         Value *long_overflow_arg_area = dup_value(overflow_arg_area);
@@ -1215,7 +1244,7 @@ static Tac *add_function_va_arg_stack_read(Function *function, Tac *ir, Type *ty
         // Copy memory for struct/union
         Value *memcpy_overflow_arg_area = dup_value(overflow_arg_area);
         memcpy_overflow_arg_area->is_lvalue = 1;
-        ir = add_memory_copy(function, ir, dst, memcpy_overflow_arg_area, size);
+        ir = add_memory_copy(function, ir, dst, memcpy_overflow_arg_area, get_type_size(type));
     }
     else
         // Read a scalar value from a pointer
@@ -1254,11 +1283,12 @@ static void process_function_va_arg(Function *function, Tac *ir) {
     // Determine how many gp and fp registers are needed
     int gp_count = 0; // Integer registers
     int fp_count = 0; // SSE registers
+    FunctionParamLocations *fpl = 0;
 
     if (type->type == TYPE_STRUCT_OR_UNION) {
         FunctionParamAllocation *fpa = init_function_param_allocaton("vararg struct");
         add_function_param_to_allocation(fpa, type);
-        FunctionParamLocations *fpl = fpa->param_locations->elements[0];
+        fpl = fpa->param_locations->elements[0];
 
         if (fpl->locations[0].stack_offset != -1) {
             // It's on the stack
@@ -1267,11 +1297,14 @@ static void process_function_va_arg(Function *function, Tac *ir) {
         }
 
         // The arg can be in registers. Although it might end up on the stack
-        // if registers have run out.
-        else if (fpl->locations[0].int_register != -1)
-            gp_count = fpl->count;
-        else
-            fp_count = fpl->count;
+        // if registers have run out. The eight bytes of a struct may be in both
+        // kinds of registers.
+        for (int loc = 0; loc < fpl->count; loc++) {
+            if (fpl->locations[loc].int_register != -1)
+                gp_count++;
+            else
+                fp_count++;
+        }
     }
     else {
         // A scalar arg is either in int (gp) or sse (fp) registers
@@ -1283,11 +1316,13 @@ static void process_function_va_arg(Function *function, Tac *ir) {
     Value *fetch_from_stack = new_label_dst();
 
     // Check if the arg is in the register save area or on stack
-    Value *gp_fp_offset;
-    ir = add_function_va_arg_in_register_check(function, ir, type, va_list, gp_count, fp_count, fetch_from_stack, &gp_fp_offset);
+    Value *gp_offset = 0;
+    Value *fp_offset = 0;
+    if (gp_count) ir = add_function_va_arg_in_register_check(function, ir, va_list, 1, gp_count, fetch_from_stack, &gp_offset);
+    if (fp_count) ir = add_function_va_arg_in_register_check(function, ir, va_list, 0, fp_count, fetch_from_stack, &fp_offset);
 
     // Read from register save area & jump to the done label
-    ir = add_function_va_arg_register_save_area_read(function, ir, type, va_list, gp_count, fp_count, gp_fp_offset, dst);
+    ir = add_function_va_arg_register_save_area_read(function, ir, type, va_list, fpl, gp_count, fp_count, gp_offset, fp_offset, dst);
     ir = insert_instruction_after_from_operation(ir, IR_JMP, 0, ldone, 0);
 
     // Add fetch_from_stack label
diff --git a/ir.c b/ir.c
index 41c3815..2a918b5 100644
--- a/ir.c
+++ b/ir.c
@@ -857,7 +857,7 @@ static Tac *insert_function_call_instructions_after(Tac *ir, Value *call_value,
     ir = insert_instruction_after_from_operation(ir, IR_CALL, 0, function_value, 0);
 
     // Add end call instruction
-    ir = insert_instruction_after_from_operation(ir, IR_END_CALL, 0, call_value, 0);
+    return insert_instruction_after_from_operation(ir, IR_END_CALL, 0, call_value, 0);
 }
 
 // Get the address of a struct/union for use as an argument of memcpy
-- 
2.43.0


From 8e4f61fd0e95b68951d7dfaa0591aedbfa122b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 35/89] fix: va_start with padding after the stack parameters
 or more than 254 stack slots

---
 codegen.c | 2 +-
 wcc.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 72630a6..fa83870 100644
--- a/codegen.c
+++ b/codegen.c
@@ -167,7 +167,7 @@ void make_stack_offsets(Function *function, char *function_name) {
         // Special case for functions with a va_list. A src1 with stack_index OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX
         // needs to be reassigned with address where the pushed varargs start
         if (tac->src1 && tac->src1->stack_index == OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX) {
-            tac->src1->stack_index = 2 + (function->fpa->size >> 3);
+            tac->src1->stack_index = 2 + ((function->fpa->offset + 7) >> 3);
         }
         else
             if (tac->src1 && tac->src1->stack_index < 0) tac->src1->stack_offset = stack_offsets[-tac->src1->stack_index];
diff --git a/wcc.h b/wcc.h
index 8ecf007..c0bf2c5 100644
--- a/wcc.h
+++ b/wcc.h
@@ -592,7 +592,7 @@ enum {
 };
 
 enum {
-    OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX = 256
+    OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX = 0x10000000
 };
 
 typedef struct string_literal {
-- 
2.43.0


From dd83e0270c83bc9f5341f5b3f7fdfaa557ba0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:12 +0000
Subject: [PATCH 36/89] fix: set al in calls of variadic functions through a
 spilled pointer

---
 instrsel.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/instrsel.c b/instrsel.c
index eb9014b..34b22cf 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -1470,10 +1470,12 @@ static void add_spill_load(Tac *ir, int src, int preg) {
     tac->src1 = v;
     tac->dst = new_value();
 
-    // Codegen needs to know if this is a function; in all other cases the spill is
-    // done on a full 64 bit register.
-    if (v->type->type == TYPE_FUNCTION)
-        tac->dst->type = new_type(TYPE_FUNCTION);
+    // Codegen needs to know which function is called and how many SSE registers are
+    // used if it's variadic; in all other cases the spill is done on a full 64 bit register.
+    if (v->type->type == TYPE_FUNCTION || is_pointer_to_function_type(v->type)) {
+        tac->dst->type = v->type;
+        tac->dst->function_call_sse_register_arg_count = v->function_call_sse_register_arg_count;
+    }
     else
         tac->dst->type = new_type(TYPE_LONG);
 
-- 
2.43.0


From 019df7a177ff94c12ce3a07d75e2e12c3d7bc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 37/89] fix: classify unions of a long double and integers in
 both eight bytes as integers

---
 functions.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/functions.c b/functions.c
index 8c0cf3d..244140f 100644
--- a/functions.c
+++ b/functions.c
@@ -1746,9 +1746,10 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
             fpl->locations = wmalloc(sizeof(FunctionParamLocation) * eight_bytes_count);
             fpl->count = eight_bytes_count;
 
-            // If one of the classes is MEMORY, the whole argument is passed in memory.
+            // If one of the classes is MEMORY, the whole argument is passed in memory. A
+            // long double overlapping an integer is classified as an integer.
             int in_memory = 0;
-            for (int i = 0; i < eight_bytes_count; i++) in_memory |= seen_memory[i];
+            for (int i = 0; i < eight_bytes_count; i++) in_memory |= (seen_memory[i] && !seen_integer[i]);
 
             if  (in_memory || unaligned) {
                 // The entire thing is on the stack
-- 
2.43.0


From 8f18e848271bc38454b2fc23005fef618352f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 38/89] fix: preprocessor: macro calls without ), stray #elif,
 empty directives, long names and endless includes

---
 cpp.c | 51 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/cpp.c b/cpp.c
index eea0b5a..e8b734e 100644
--- a/cpp.c
+++ b/cpp.c
@@ -107,8 +107,7 @@ static void init_cpp_from_fh(FILE *f, char *path) {
     state.input = wmalloc(state.input_size + 1);
     int read = fread(state.input, 1, state.input_size, f);
     if (read != state.input_size) {
-        printf("Unable to read input file\n");
-        exit(1);
+        simple_error("Unable to read input file %s", path);
     }
 
     fclose(f);
@@ -125,9 +124,9 @@ static void init_cpp_from_fh(FILE *f, char *path) {
 static void output_line_directive(int offset, int add_eol, CppToken *token) {
     if (!token) return;
 
-    char *buf = wmalloc(256);
+    char *buf;
     char *filename = state.override_filename ? state.override_filename : state.filename;
-    sprintf(buf, "# %d \"%s\"%s", state.line_number_offset + token->line_number + offset, filename, add_eol ? "\n" : "");
+    wasprintf(&buf, "# %d \"%s\"%s", state.line_number_offset + token->line_number + offset, filename, add_eol ? "\n" : "");
     append_to_string_buffer(output, buf);
     wfree(buf);
 }
@@ -158,7 +157,6 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
     state.line_number = 1;
     state.line_number_offset = 0;
     state.override_filename = 0;
-    state.include_depth = 0;
 
     cpp_next();
 
@@ -172,6 +170,8 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
 
     collapse_trailing_newlines(0, 0, 0);
 
+    if (state.conditional_include_stack->prev) error("Unterminated #if");
+
     wfree(state.input);
     wfree(state.filename);
 
@@ -584,7 +584,9 @@ static void advance_ip_by_count(int count) {
 
 static void add_to_whitespace(char **whitespace, int *whitespace_pos, char c) {
     if (!*whitespace) *whitespace = wmalloc(1024);
-    if (*whitespace_pos == 1024) panic("Ran out of whitespace buffer");
+    // Leave room for a terminating zero and double the buffer if it's full
+    int size = *whitespace_pos + 1;
+    if (size >= 1024 && !(size & (size - 1))) *whitespace = wrealloc(*whitespace, size * 2);
     (*whitespace)[(*whitespace_pos)++] = c;
 }
 
@@ -605,7 +607,7 @@ static char *lex_whitespace(void) {
 
         // Process // comment
         if (state.input_size - state.ip >= 2 && state.input[state.ip] == '/' && state.input[state.ip + 1] == '/') {
-            while (state.input[state.ip] != '\n') advance_ip();
+            while (state.ip < state.input_size && state.input[state.ip] != '\n') advance_ip();
             add_to_whitespace(&whitespace, &whitespace_pos, ' ');
             continue;
         }
@@ -639,7 +641,7 @@ static void lex_string_and_char_literal(char delimiter) {
     char *i = state.input;
     int data_offset = 0;
 
-    char *data = wmalloc(MAX_STRING_LITERAL_SIZE + 2);
+    char *data = wmalloc(MAX_STRING_LITERAL_SIZE + 4); // Room for an L, two delimiters and a zero
 
     if (i[state.ip] == 'L') {
         advance_ip();
@@ -772,7 +774,7 @@ static void cpp_next() {
             char *identifier = wmalloc(1024);
             int j = 0;
             while (((i[state.ip] >= 'a' && i[state.ip] <= 'z') || (i[state.ip] >= 'A' && i[state.ip] <= 'Z') || (i[state.ip] >= '0' && i[state.ip] <= '9') || (i[state.ip] == '_')) && state.ip < state.input_size) {
-                if (j == MAX_IDENTIFIER_SIZE) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
+                if (j == MAX_IDENTIFIER_SIZE - 1) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
                 identifier[j] = i[state.ip];
                 j++;
                 advance_ip();
@@ -869,7 +871,7 @@ static void set_line_number_on_token_sequence(CppToken *ts, int line_number) {
 // Returns a ptr to the token sequences for each actual parameter.
 // Nested () are taken into account, for cases like f((1, 2), 3), which
 // results in (1, 2) and 3 for the actual parameters.
-CppToken **make_function_actual_parameters(CppToken **ts) {
+static CppToken **make_function_actual_parameters(CppToken *is, CppToken **ts, int *count) {
     CppToken **result = wcalloc(MAX_CPP_MACRO_PARAM_COUNT, sizeof(CppToken *));
 
     int parenthesis_nesting_level = 0;
@@ -879,10 +881,12 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
     while (1) {
         CppToken *token = *ts;
         if (!token) error("Expected macro function-like parameter or )");
+        if (index == MAX_CPP_MACRO_PARAM_COUNT) error("Exceeded maximum macro parameter count %d", MAX_CPP_MACRO_PARAM_COUNT);
 
         if (token->kind == CPP_TOK_RPAREN && !parenthesis_nesting_level) {
             // We're not in nested parentheses
             result[index++] = current_actual;
+            *count = index;
             return result;
         }
         else if (token->kind == CPP_TOK_RPAREN) {
@@ -905,7 +909,7 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
             add_token_to_actuals();
         }
 
-        *ts =(*ts)->next;
+        *ts = cll_next(is, (*ts));
     }
 }
 
@@ -1004,12 +1008,13 @@ static CppToken *expand(CppToken *is) {
         CppToken *directive_token = tok;
         StrSet *directive_token_hs = tok->hide_set;
         tok = cll_next(is, tok1);
-        CppToken **actuals = make_function_actual_parameters(&tok);
+        int actuals_count;
+        CppToken **actuals = make_function_actual_parameters(is, &tok, &actuals_count);
         if (!tok || tok->kind != CPP_TOK_RPAREN) error("Expected )");
 
-        int actuals_count = 0;
-        for (CppToken **tok = actuals; *tok; tok++, actuals_count++);
-        if (actuals_count > directive->param_count) error("Mismatch in number of macro parameters");
+        // An empty () has either no parameters or a single empty one
+        if (actuals_count == 1 && !actuals[0]) actuals_count = directive->param_count ? 1 : 0;
+        if (actuals_count != directive->param_count) error("Mismatch in number of macro parameters");
 
         StrSet *rparen_hs = tok->hide_set;
 
@@ -1359,7 +1364,6 @@ static void parse_include() {
 
     state.include_depth++;
     run_preprocessor_on_file(state.filename, 0);
-    state.include_depth--;
 
     wfree(state.conditional_include_stack);
 
@@ -1367,9 +1371,9 @@ static void parse_include() {
     state = backup_state;
     cur_filename = state.filename;
 
-    char *buf = wmalloc(256);
+    char *buf;
     char *filename = state.override_filename ? state.override_filename : state.filename;
-    sprintf(buf, "# %d \"%s\" 2", state.line_number_offset + state.line_number + 1, filename);
+    wasprintf(&buf, "# %d \"%s\" 2", state.line_number_offset + state.line_number + 1, filename);
     append_to_string_buffer(output, buf);
     wfree(buf);
 }
@@ -1520,6 +1524,7 @@ static long parse_conditional_expression() {
 
     CppToken *expanded_defineds = expand_defineds(tokens);
     CppToken *expanded = expand(expanded_defineds);
+    if (!expanded) error("Expected expression");
 
     // Replace identifiers with 0
     for (CppToken *tok = expanded->next; tok; tok = cll_next(expanded, tok))
@@ -1527,6 +1532,8 @@ static long parse_conditional_expression() {
             tok->kind = CPP_TOK_NUMBER;
             tok->str = "0";
         }
+        else if (tok->kind == CPP_TOK_STRING_LITERAL && tok->str[strlen(tok->str) - 1] == '"')
+            error("String literals aren't allowed in a preprocessor expression");
 
     StringBuffer *rendered = new_string_buffer(128);
     append_tokens_to_string_buffer(rendered, expanded, 1, 0);
@@ -1564,6 +1571,7 @@ static void parse_line() {
         // Parse #line <number> ...
         tokens = gather_tokens_until_eol();
 
+    if (!tokens) error("Invalid #line directive");
     CppToken *token = tokens->next;
 
     if (state.token->kind != CPP_TOK_EOL && state.token->kind != CPP_TOK_EOF) panic("Expected EOL or EOF");
@@ -1581,7 +1589,7 @@ static void parse_line() {
             filename[strlen(filename) - 1] = 0;
             filename++;
             state.override_filename = filename;
-            cur_filename = token->str;
+            cur_filename = filename;
         }
 
         output_line_directive(1, 0, state.token);
@@ -1720,6 +1728,8 @@ static void parse_directive(void) {
         case CPP_TOK_ELIF: {
             cpp_next();
 
+            if (!state.conditional_include_stack->prev) error("Found an #elif without an #if");
+
             // We're skipping a section and found an #elif. Ignore the directive
             if (!state.conditional_include_stack->prev->skipping) {
                 if (state.conditional_include_stack->matched) {
@@ -1954,14 +1964,13 @@ char *preprocess(char *filename, List *cli_directive_strings) {    init_cpp();
         exit(1);
     }
 
+    state.include_depth = 0;
     init_cpp_from_fh(f, filename);
 
     output = new_string_buffer(state.input_size * 2);
 
     run_preprocessor_on_file(filename, 1);
 
-    if (state.conditional_include_stack->prev) error("Unterminated #if");
-
     terminate_string_buffer(output);
 
     char *data = output->data;
-- 
2.43.0


From ebaa3f6336acf430754c5b7d92f069de8bcce91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 39/89] fix: lexer: overflowing, wide, octal, empty and
 unterminated literals and too long identifiers

---
 lexer.c | 136 +++++++++++++++++++++++++-------------------------------
 1 file changed, 60 insertions(+), 76 deletions(-)

diff --git a/lexer.c b/lexer.c
index ab92008..bb9e234 100644
--- a/lexer.c
+++ b/lexer.c
@@ -52,8 +52,7 @@ void init_lexer_from_filename(char *filename) {
     input_is_freeable = 1;
     int read = fread(input, 1, input_size, f);
     if (read != input_size) {
-        printf("Unable to read input file\n");
-        exit(1);
+        simple_error("Unable to read input file %s", filename);
     }
 
     input[input_size] = 0;
@@ -126,8 +125,8 @@ void lex_non_hex_literal(void) {
     int start_ip = ip;
 
     int has_leading_zero = i[ip] == '0';
-    long octal_integer = 0;
-    long decimal_integer = 0;
+    unsigned long octal_integer = 0;
+    unsigned long decimal_integer = 0;
     while ((i[ip] >= '0' && i[ip] <= '9') && ip < input_size) {
         octal_integer = octal_integer * 8  + (i[ip] - '0');
         decimal_integer = decimal_integer * 10 + (i[ip] - '0');
@@ -183,9 +182,9 @@ static void lex_octal_literal(void) {
 static void lex_hex_literal(void) {
     char *i = input;
 
-    cur_long = 0;
+    unsigned long value = 0;
     while (((i[ip] >= '0' && i[ip] <= '9')  || (i[ip] >= 'A' && i[ip] <= 'F') || (i[ip] >= 'a' && i[ip] <= 'f')) && ip < input_size) {
-        cur_long = cur_long * 16 + (
+        value = value * 16 + (
             i[ip] >= 'a'
             ? i[ip] - 'a' + 10
             : i[ip] >= 'A'
@@ -193,6 +192,7 @@ static void lex_hex_literal(void) {
                 : i[ip] - '0');
         ip++;
     }
+    cur_long = value;
 }
 
 void finish_string_literal(int size, int is_wide_char) {
@@ -206,36 +206,44 @@ void finish_string_literal(int size, int is_wide_char) {
         for (int i = 0; i <= size; i++) cur_string_literal.data[i] = data[i];
 }
 
-void lex_single_string_literal(int *size) {
+// Lex the characters following a \ into cur_long
+static void lex_escape_sequence(char *kind) {
+    char *i = input;
+
+         if (i[ip] == '\'') { ip++; cur_long = '\''; }
+    else if (i[ip] == '"' ) { ip++; cur_long = '\"'; }
+    else if (i[ip] == '?' ) { ip++; cur_long = '?'; }
+    else if (i[ip] == '\\') { ip++; cur_long = '\\'; }
+    else if (i[ip] == 'a' ) { ip++; cur_long = 7; }
+    else if (i[ip] == 'b' ) { ip++; cur_long = 8; }
+    else if (i[ip] == 'f' ) { ip++; cur_long = 12; }
+    else if (i[ip] == 'n' ) { ip++; cur_long = 10; }
+    else if (i[ip] == 'r' ) { ip++; cur_long = 13; }
+    else if (i[ip] == 't' ) { ip++; cur_long = 9; }
+    else if (i[ip] == 'v' ) { ip++; cur_long = 11; }
+    else if (i[ip] == 'e' ) { ip++; cur_long = 27; }
+    else if (i[ip] >= '0' && i[ip] <= '7' ) lex_octal_literal();
+    else if (i[ip] == 'x' ) {
+        ip++;
+        int start = ip;
+        lex_hex_literal();
+        if (ip == start) error("Expected hexadecimal digits after \\x");
+    }
+    else error("Unknown \\ escape in %s literal", kind);
+}
+
+void lex_single_string_literal(int *size, int is_wide_char) {
     int *data = (int *) cur_string_literal.data;
     char *i = input;
 
     while (input_size - ip >= 1 && i[ip] != '"') {
+        if (*size >= MAX_STRING_LITERAL_SIZE - 1) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
+
         if (i[ip] != '\\') data[(*size)++] = i[ip++];
-        else if (input_size - ip >= 2 && i[ip] == '\\') {
-                 if (i[ip + 1] == '\'') { ip += 2; data[(*size)++] = '\''; }
-            else if (i[ip + 1] == '"' ) { ip += 2; data[(*size)++] = '\"'; }
-            else if (i[ip + 1] == '?' ) { ip += 2; data[(*size)++] = '?'; }
-            else if (i[ip + 1] == '\\') { ip += 2; data[(*size)++] = '\\'; }
-            else if (i[ip + 1] == 'a' ) { ip += 2; data[(*size)++] = 7; }
-            else if (i[ip + 1] == 'b' ) { ip += 2; data[(*size)++] = 8; }
-            else if (i[ip + 1] == 'f' ) { ip += 2; data[(*size)++] = 12; }
-            else if (i[ip + 1] == 'n' ) { ip += 2; data[(*size)++] = 10; }
-            else if (i[ip + 1] == 'r' ) { ip += 2; data[(*size)++] = 13; }
-            else if (i[ip + 1] == 't' ) { ip += 2; data[(*size)++] = 9; }
-            else if (i[ip + 1] == 'v' ) { ip += 2; data[(*size)++] = 11; }
-            else if (i[ip + 1] == 'e' ) { ip += 2; data[(*size)++] = 27; }
-            else if (i[ip + 1] >= '0' && i[ip + 1] <= '7' ) {
-                ip++;
-                lex_octal_literal();
-                data[(*size)++] = cur_long & 0xff;
-            }
-            else if (i[ip + 1] == 'x' ) {
-                ip += 2;
-                lex_hex_literal();
-                data[(*size)++] = cur_long & 0xff;
-            }
-            else error("Unknown \\ escape in string literal");
+        else {
+            ip++;
+            lex_escape_sequence("string");
+            data[(*size)++] = is_wide_char ? cur_long : cur_long & 0xff;
         }
 
         data[*size] = 0;
@@ -244,8 +252,6 @@ void lex_single_string_literal(int *size) {
     if (i[ip] != '"') error("Expecting terminating \" in string literal");
     ip++;
 
-    if (*size >= MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
-
     data[*size] = 0;
 }
 
@@ -262,7 +268,7 @@ void lex_string_literal(void) {
         }
 
         ip += 1;
-        lex_single_string_literal(&size);
+        lex_single_string_literal(&size, is_wide_char);
         skip_whitespace();
     }
 
@@ -366,7 +372,7 @@ void next(void) {
 
             int size = 0;
             ip++; // Skip the "
-            lex_single_string_literal(&size);
+            lex_single_string_literal(&size, 0);
             finish_string_literal(size, 0);
 
             if (cur_filename) free_and_null(cur_filename);
@@ -387,52 +393,30 @@ void next(void) {
                 ip++;
             }
 
-            cur_token = TOK_INTEGER;
-            cur_lexer_type = new_type(TYPE_INT);
-            cur_long = 0;
             ip += 1;
 
-            int byte_count = 0;
-            while (input_size - ip >= 1 && i[ip] != '\'') {
-                if (i[ip] != '\\') { cur_long = (cur_long  << 8) + i[ip++]; }
-                else if (i[ip] == '\\') {
+            // The value of a narrow character constant with several characters is made of the last four ones.
+            unsigned int value = 0;
+            int count = 0;
+            while (ip < input_size && i[ip] != '\'' && i[ip] != '\n') {
+                if (i[ip] != '\\') cur_long = i[ip++];
+                else {
                     ip++;
-                         if (i[ip] == '\'') { ip++; cur_long = (cur_long << 8) +  '\''; }
-                    else if (i[ip] == '"' ) { ip++; cur_long = (cur_long << 8) +  '\"'; }
-                    else if (i[ip] == '?' ) { ip++; cur_long = (cur_long << 8) +  '?'; }
-                    else if (i[ip] == '\\') { ip++; cur_long = (cur_long << 8) +  '\\'; }
-                    else if (i[ip] == 'a' ) { ip++; cur_long = (cur_long << 8) +  7; }
-                    else if (i[ip] == 'b' ) { ip++; cur_long = (cur_long << 8) +  8; }
-                    else if (i[ip] == 'f' ) { ip++; cur_long = (cur_long << 8) +  12; }
-                    else if (i[ip] == 'n' ) { ip++; cur_long = (cur_long << 8) +  10; }
-                    else if (i[ip] == 'r' ) { ip++; cur_long = (cur_long << 8) +  13; }
-                    else if (i[ip] == 't' ) { ip++; cur_long = (cur_long << 8) +  9; }
-                    else if (i[ip] == 'v' ) { ip++; cur_long = (cur_long << 8) +  11; }
-                    else if (i[ip] == 'e' ) { ip++; cur_long = (cur_long << 8) +  27; }
-                    else if (i[ip] >= '0' && i[ip] <= '7' ) {
-                        int old_cur_long = cur_long;
-                        lex_octal_literal();
-                        cur_long &= 0xff;
-                        cur_long = (old_cur_long << 8) + cur_long;
-                    }
-                    else if (i[ip] == 'x' ) {
-                        ip++;
-                        unsigned int old_cur_long = cur_long;
-                        lex_hex_literal();
-                        int mask = (1 << (byte_count << 3)) - 1;
-
-                        if (!is_wide_char) {
-                            cur_long = ((old_cur_long & mask) << 8) + (cur_long & 0xff);
-
-                            // Sign extend the first byte
-                            if (byte_count == 0) cur_long = (int) ((char) cur_long);
-                        }
-                    }
-                    else error("Unknown \\ escape in character literal");
+                    lex_escape_sequence("character");
                 }
-                byte_count++;
+
+                value = is_wide_char ? cur_long : (value << 8) + (cur_long & 0xff);
+                count++;
             }
+
+            if (ip >= input_size || i[ip] != '\'') error("Expecting terminating ' in character literal");
+            if (!count) error("Empty character literal");
             ip++;
+
+            // A single narrow character has the value of a char
+            cur_token = TOK_INTEGER;
+            cur_lexer_type = new_type(TYPE_INT);
+            cur_long = !is_wide_char && count == 1 ? (char) value : (int) value;
         }
 
         // String literal
@@ -446,7 +430,7 @@ void next(void) {
 
             int j = 0;
             while (((i[ip] >= 'a' && i[ip] <= 'z') || (i[ip] >= 'A' && i[ip] <= 'Z') || (i[ip] >= '0' && i[ip] <= '9') || (i[ip] == '_')) && ip < input_size) {
-                if (j == MAX_IDENTIFIER_SIZE) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
+                if (j == MAX_IDENTIFIER_SIZE - 1) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
                 cur_identifier[j] = i[ip];
                 j++; ip++;
             }
-- 
2.43.0


From 48d316e8c354c2516b2cb0211afda0434f3b5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 40/89] fix: don't overflow the buffer of an instruction with a
 long symbol name

---
 codegen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index fa83870..580082d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -234,12 +234,19 @@ static int add_long_double_literal(long double value) {
     return floating_point_literal_count++;
 }
 
+static int symbol_name_length(Value *v) {
+    return v && v->global_symbol && v->global_symbol->global_identifier ? strlen(v->global_symbol->global_identifier) : 0;
+}
+
 char *render_x86_operation(Tac *tac, int function_pc, int expect_preg) {
     char *t = tac->x86_template;
 
     if (!t) return 0;
 
-    char *buffer = wcalloc(1, 128);
+    // Symbol names can have any length
+    int size = 128 + 2 * strlen(t) + 2 * (symbol_name_length(tac->dst) + symbol_name_length(tac->src1) + symbol_name_length(tac->src2));
+
+    char *buffer = wcalloc(1, size);
     char *result = buffer;
 
     while (*t && *t != ' ') *buffer++ = *t++;
-- 
2.43.0


From c13221b93e21194735a4445f6c65cdceb715a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 41/89] fix: liveout versions of a block with several edges to
 one block, undefined shifts and null arguments

---
 functions.c | 8 ++++----
 ir.c        | 4 ++--
 ssa.c       | 9 ++++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/functions.c b/functions.c
index 244140f..8f46e32 100644
--- a/functions.c
+++ b/functions.c
@@ -625,14 +625,14 @@ void add_function_call_arg_moves_for_preg_class(Function *function, int preg_cla
     // param_indexes[0] = 0
     // param_indexes[1] = 2
     int *param_indexes = wmalloc(sizeof(int) * function_call_count * register_count);
-    memset(param_indexes, -1, sizeof(int) * function_call_count * register_count);
+    for (int i = 0; i < function_call_count * register_count; i++) param_indexes[i] = -1;
 
     // Set to 1 if the function returns a struct in memory, which reserves rdi for a
     // pointer to the return address
     char *has_struct_or_union_return_values = wcalloc(function_call_count, sizeof(char));
 
     FunctionParamLocations **param_locations = wmalloc(sizeof(FunctionParamLocations *) * function_call_count * register_count);
-    memset(param_locations, -1, sizeof(FunctionParamLocations *) * function_call_count * register_count);
+    for (int i = 0; i < function_call_count * register_count; i++) param_locations[i] = (FunctionParamLocations *) -1;
 
     make_vreg_count(function, 0);
 
@@ -1388,7 +1388,7 @@ void add_function_param_moves(Function *function, char *identifier) {
     finalize_function_param_allocation(fpa);
 
     int *register_param_vregs = wmalloc(sizeof(int) * function->type->function->param_count);
-    memset(register_param_vregs, -1, sizeof(int) * function->type->function->param_count);
+    for (int i = 0; i < function->type->function->param_count; i++) register_param_vregs[i] = -1;
 
     int *register_param_stack_indexes = wcalloc(function->type->function->param_count, sizeof(int));
 
@@ -1397,7 +1397,7 @@ void add_function_param_moves(Function *function, char *identifier) {
     // Stack indexes start at 2. Parameters that aren't on the stack have stack index 2 + parameter index
     int stack_param_count = function->type->function->param_count + (fpa->size >> 3) + 2;
     int *stack_param_vregs = wmalloc(sizeof(int) * stack_param_count);
-    memset(stack_param_vregs, -1, sizeof(int) * stack_param_count);
+    for (int i = 0; i < stack_param_count; i++) stack_param_vregs[i] = -1;
 
     // Determine which parameters in registers are used in IR_ADDRESS_OF instructions
     for (Tac *ir = function->ir; ir; ir = ir->next) {
diff --git a/ir.c b/ir.c
index 2a918b5..b08d829 100644
--- a/ir.c
+++ b/ir.c
@@ -1027,7 +1027,7 @@ static void add_load_bit_field(Function *function, Tac *ir) {
             shifted_value = loaded_value;
 
         // Apply mask
-        unsigned int mask = bit_size == 32 ? -1 : (1 << bit_size) - 1;
+        unsigned int mask = bit_size == 32 ? -1 : (1u << bit_size) - 1;
         ir = insert_instruction_after_from_operation(ir, IR_BAND, dst, shifted_value, new_integral_constant(TYPE_INT, mask));
     }
     else {
@@ -1074,7 +1074,7 @@ static void add_save_bit_field(Function *function, Tac *ir) {
     // Set bits outside of the src value to zero
     Value *masked_src1 = dup_value(loaded_src1);
     masked_src1->vreg = ++function->vreg_count;
-    unsigned int mask = bit_size == 32 ? -1 : (1 << bit_size) - 1;
+    unsigned int mask = bit_size == 32 ? -1 : (1u << bit_size) - 1;
     Value *mask_value = new_integral_constant(TYPE_INT, mask);
     mask_value->type->is_unsigned = 1;
     ir = insert_instruction_after_from_operation(ir, IR_BAND, masked_src1, loaded_src1, mask_value);
diff --git a/ssa.c b/ssa.c
index c1b7bdf..5dd69a6 100644
--- a/ssa.c
+++ b/ssa.c
@@ -602,7 +602,10 @@ void make_liveout(Function *function) {
     for (int i = 0; i < block_count; i++) {
         block_uevars[i] = wcalloc(vreg_count + 1, sizeof(int));
 
-        successor_liveout_versions[i] = wcalloc(block_count, sizeof(int));
+        // There is one entry per edge and a terminating zero. Several edges may go to the same block.
+        int successor_count = 0;
+        for (GraphEdge *e = cfg->nodes[i].succ; e; e = e->next_succ) successor_count++;
+        successor_liveout_versions[i] = wcalloc(successor_count + 1, sizeof(int));
 
         liveout_versions[i] = 1;
         int j = 0;
@@ -1151,11 +1154,11 @@ void make_live_ranges(Function *function) {
         long hash = (long) longmap_iterator_key(&lrit);
         if (!hash) panic("Expected non-zero elements in live range set");
 
-        LiveRange lr = { set, (LR_HASH_VREG(hash) << 32) + LR_HASH_SSA_SUBSCRIPT(hash) };
+        LiveRange lr = { set, (LR_HASH_VREG(hash)) * 0x100000000L + LR_HASH_SSA_SUBSCRIPT(hash) };
         live_ranges_array[i] = lr;
     }
 
-    qsort(live_ranges_array, live_range_count, sizeof(LiveRange), live_range_cmpfunc);
+    if (live_range_count) qsort(live_ranges_array, live_range_count, sizeof(LiveRange), live_range_cmpfunc);
 
     if (debug_ssa_live_range) printf("\nLive ranges:\n");
     LongMap *final_map = new_longmap();
-- 
2.43.0


From c40ca737b5cefef691a824e9b7d09e40a5f3a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 42/89] fix: diagnose a struct, union, enum or typedef without
 a name

---
 parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 27b7323..1a82b69 100644
--- a/parser.c
+++ b/parser.c
@@ -262,7 +262,7 @@ Value *make_string_literal_value_from_cur_string_literal(void) {
     value->type = make_array(new_type(cur_string_literal.is_wide_char ? TYPE_INT : TYPE_CHAR), cur_string_literal.size);
     value->string_literal_index = string_literal_count;
     value->is_string_literal = 1;
-    if (string_literal_count > MAX_STRING_LITERALS) panic_with_line_number("Exceeded max string literals %d", MAX_STRING_LITERALS);
+    if (string_literal_count >= MAX_STRING_LITERALS) panic_with_line_number("Exceeded max string literals %d", MAX_STRING_LITERALS);
     string_literals[string_literal_count] = cur_string_literal;
 
     // Copy string literal data
@@ -984,6 +984,7 @@ static Type *parse_struct_or_union_type_specifier(void) {
     }
     else {
         // Struct/union use
+        if (!identifier) error("Expected a struct or union tag or {");
 
         Type *type = find_struct_or_union(identifier, is_union, 1);
         if (type) return type; // Found a complete or incomplete struct
@@ -1056,6 +1057,7 @@ static Type *parse_enum_type_specifier(void) {
 
     else {
         // Enum use
+        if (!identifier) error("Expected an enum tag or {");
 
         Type *type = find_enum(identifier);
         if (!type) error("Unknown enum %s", identifier);
@@ -1075,6 +1077,7 @@ void parse_typedef(void) {
         cur_type_identifier = 0;
 
         Type *type = concat_types(parse_declarator(), dup_type(base_type));
+        if (!cur_type_identifier) error("Expected an identifier");
 
         parse_attributes();
 
-- 
2.43.0


From e6a5111e4567a05b65fb167637c6f9099bb759dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 43/89] fix: diagnose addresses of rvalues, incomplete members,
 arguments and return values and too large types

---
 parser.c | 22 ++++++++++++++++++++--
 types.c  | 12 ++++++++++--
 wcc.h    |  2 ++
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/parser.c b/parser.c
index 1a82b69..cda6bd8 100644
--- a/parser.c
+++ b/parser.c
@@ -910,6 +910,9 @@ static Type *parse_struct_or_union_type_specifier(void) {
         if (!type) type = new_struct_or_union(identifier);
 
         StructOrUnion *s = type->struct_or_union_desc;
+        if (s->is_defined) error("Redefinition of struct or union");
+        s->is_defined = 1;
+        s->is_incomplete = 1;
         s->is_union = is_union;
 
         // Loop over members
@@ -939,6 +942,9 @@ static Type *parse_struct_or_union_type_specifier(void) {
                 // https://gcc.gnu.org/onlinedocs/gcc/Zero-Length.html
                 int is_zero_length_array = type->type == TYPE_ARRAY && type->array_size == 0;
 
+                Type *element_type = type;
+                while (element_type->type == TYPE_ARRAY) element_type = element_type->target;
+                if (is_incomplete_type(element_type)) error("Struct/union members cannot have an incomplete type");
                 if (!is_zero_length_array && is_incomplete_type(type)) error("Struct/union members cannot have an incomplete type");
                 if (type->type == TYPE_FUNCTION) error("Struct/union members cannot have a function type");
 
@@ -2235,6 +2241,7 @@ static void parse_function_call(void) {
 
     Symbol *symbol = popped_function->global_symbol;
     Type *function_type = popped_function->type->type == TYPE_FUNCTION ? popped_function->type : popped_function->type->target;
+    if (is_incomplete_type(function_type->target)) error("Call of a function returning an incomplete type");
 
     next();
 
@@ -2296,6 +2303,8 @@ static void parse_function_call(void) {
                 push(arg);
         }
 
+        if (is_incomplete_type(vtop()->type)) error("Function call argument has an incomplete type");
+
         add_function_param_to_allocation(fpa, vtop()->type);
         FunctionParamLocations *fpl = fpa->param_locations->elements[fpa_arg_count];
         arg->function_call_arg_locations = fpl;
@@ -2420,6 +2429,7 @@ static void parse_va_arg() {
     Type *type = parse_type_name();
 
     if (type->type == TYPE_ARRAY) error("Cannot use an array in va_arg");
+    if (is_incomplete_type(type)) error("Cannot use an incomplete type in va_arg");
 
     consume(TOK_RPAREN, ")");
 
@@ -2648,8 +2658,8 @@ static void parse_expression(int level) {
             next();
             parse_expression(TOK_INC);
 
-            // Arrays are rvalues as well as lvalues. Otherwise, an lvalue is required
-            if ((vtop()->type->type == TYPE_ARRAY && vtop()->is_lvalue) && !vtop()->is_lvalue)
+            // Arrays are rvalues as well as lvalues and functions have an address. Otherwise, an lvalue is required
+            if (vtop()->type->type != TYPE_ARRAY && vtop()->type->type != TYPE_FUNCTION && !vtop()->is_lvalue)
                 error("Cannot take an address of an rvalue");
 
             if (vtop()->bit_field_size) error("Cannot take an address of a bit-field");
@@ -3492,6 +3502,14 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
             if (!symbol->function->type->function->param_identifiers->elements[i])
                 error("Missing identifier for parameter in function definition");
 
+        // Ensure the sizes of the parameters and return value are known
+        if (is_incomplete_type(type->target)) error("The return type of a function definition is incomplete");
+        for (int i = 0; i < type->function->param_count; i++) {
+            Type *param_type = type->function->param_types->elements[i];
+            if (param_type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(param_type))
+                error("The type of a parameter in a function definition is incomplete");
+        }
+
         // Reset globals for a new function
         vreg_count = 0;
         function_call_count = 0;
diff --git a/types.c b/types.c
index 7d68a59..fdee8a5 100644
--- a/types.c
+++ b/types.c
@@ -305,6 +305,7 @@ static StructOrUnion *dup_struct_or_union(StructOrUnion *src) {
     append_to_list(all_structs_and_unions, dst);
 
     dst->size          = src->size;
+    dst->is_defined    = src->is_defined;
     dst->is_incomplete = src->is_incomplete;
     dst->alignment     = src->alignment;
     dst->is_packed     = src->is_packed;
@@ -454,7 +455,11 @@ int get_type_size(Type *type) {
         case TYPE_STRUCT_OR_UNION:
             return type->struct_or_union_desc->size;
         case TYPE_ARRAY:
-            return type->array_size * get_type_size(type->target);
+        {
+            long size = (long) type->array_size * get_type_size(type->target);
+            if (size < 0 || size > 2147483647) error("Array is too large");
+            return size;
+        }
         case TYPE_FUNCTION:
             return 1;
         default:
@@ -852,7 +857,9 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
             if (alignment > max_alignment) max_alignment = alignment;
             bit_offset = ((bit_offset + alignment - 1) & (~(alignment - 1)));
 
-            size = get_type_size(member->type) * 8;
+            size = get_type_size(member->type);
+            if (size > MAX_STRUCT_OR_UNION_SIZE) error("Struct or union is too large");
+            size *= 8;
         }
 
         member->offset = bit_offset >> 3;
@@ -861,6 +868,7 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
         if (size > max_size) max_size = size;
 
         if (!s->is_union) bit_offset += size;
+        if (bit_offset > MAX_STRUCT_OR_UNION_SIZE * 8) error("Struct or union is too large");
     }
 
     s->is_incomplete = 0;
diff --git a/wcc.h b/wcc.h
index c0bf2c5..befbb52 100644
--- a/wcc.h
+++ b/wcc.h
@@ -11,6 +11,7 @@
 #define MAX_INPUT_SIZE                1 << 20 // 1 MB
 #define MAX_STRING_LITERAL_SIZE       4095
 #define MAX_STRING_LITERALS           20480
+#define MAX_STRUCT_OR_UNION_SIZE      134217728
 #define MAX_FLOATING_POINT_LITERALS   10240
 #define VALUE_STACK_SIZE              10240
 #define MAX_VREG_COUNT                20480
@@ -370,6 +371,7 @@ typedef struct struct_or_union_member {
 typedef struct struct_or_union_desc {
     int size;
     int alignment;
+    int is_defined;             // Set to 1 when the start of the definition has been parsed
     int is_incomplete;          // Set to 1 if the struct has been used in a member but not yet declared
     int is_packed;
     int is_union;
-- 
2.43.0


From f0992b29dd2f5d9bedc4ed52f5dffda8da8fc32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 44/89] fix: undefined shift in the compiler on too large
 constant shift counts

---
 constexpr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/constexpr.c b/constexpr.c
index 89205dc..0d4ca9b 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -88,7 +88,10 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
 
     long          s1sl = truncate_to_integer_type(src1->int_value, type);
     long          s2sl = src2->int_value;
-    if (operation != IR_BSHL && operation != IR_BSHR && operation != IR_ASHR) s2sl = truncate_to_integer_type(s2sl, type);
+    if (operation != IR_BSHL && operation != IR_BSHR && operation != IR_ASHR)
+        s2sl = truncate_to_integer_type(s2sl, type);
+    else
+        s2sl = s2sl & 63; // Too large shifts are undefined, but must not be undefined behaviour in the compiler
     unsigned long s1ul = (unsigned long) s1sl;
     unsigned long s2ul = (unsigned long) s2sl;
 
-- 
2.43.0


From 8c379c6f1afe077dd34f7dbd860942d34a1e876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 45/89] fix: diagnose declarations in the middle of an
 expression

---
 parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.c b/parser.c
index cda6bd8..e61288c 100644
--- a/parser.c
+++ b/parser.c
@@ -2619,6 +2619,7 @@ static void parse_expression(int level) {
     // case, cur_token_is_type will identify it as a typedef, when it should be
     // treated as an identifier.
     if (!base_type && cur_token_is_type()) {
+        if (level != TOK_COMMA || !value_stack_is_empty()) error("Unexpected declaration in an expression");
         base_type = parse_declaration_specifiers();
         parse_expression(TOK_COMMA);
         free_and_null(base_type);
-- 
2.43.0


From 1099007aa54bf94f4982a07f683f4ab824acba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 46/89] fix: diagnose break and continue outside of loops and
 initializers of empty structs

---
 parser.c | 4 ++++
 types.c  | 1 +
 2 files changed, 5 insertions(+)

diff --git a/parser.c b/parser.c
index e61288c..c73bb20 100644
--- a/parser.c
+++ b/parser.c
@@ -3389,12 +3389,14 @@ static void parse_statement(void) {
             break;
 
         case TOK_CONTINUE:
+            if (!cur_loop_continue_dst) error("continue statement not within a loop");
             next();
             add_parser_instruction(IR_JMP, 0, cur_loop_continue_dst, 0);
             consume(TOK_SEMI, ";");
             break;
 
         case TOK_BREAK:
+            if (!cur_loop_break_dst) error("break statement not within a loop or switch");
             next();
             add_parser_instruction(IR_JMP, 0, cur_loop_break_dst, 0);
             consume(TOK_SEMI, ";");
@@ -3701,6 +3703,8 @@ void init_parser(void) {
     local_static_symbol_count = 0;
 
     controlling_case_value = 0;
+    cur_loop_continue_dst = 0;
+    cur_loop_break_dst = 0;
 
     allocated_strings = new_list(128);
 
diff --git a/types.c b/types.c
index fdee8a5..cb9bae6 100644
--- a/types.c
+++ b/types.c
@@ -1054,6 +1054,7 @@ TypeIterator *type_iterator_descend(TypeIterator *it) {
         return child;
     }
     else if (it->type->type == TYPE_STRUCT_OR_UNION) {
+        if (!it->type->struct_or_union_desc->members[it->index]) error("Too many elements in an initializer");
         TypeIterator *child = type_iterator(it->type->struct_or_union_desc->members[it->index]->type);
         child->bit_field_offset = it->type->struct_or_union_desc->members[it->index]->bit_field_offset;
         child->bit_field_size = it->type->struct_or_union_desc->members[it->index]->bit_field_size;
-- 
2.43.0


From a141489dffce18aa8ed56a920306d2b1e6f1a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 47/89] fix: maps: look past deleted entries for an existing
 key

---
 longmap.c | 29 ++++++++++++++++++-----------
 strmap.c  | 27 +++++++++++++++++----------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/longmap.c b/longmap.c
index 14d4f86..b831c92 100644
--- a/longmap.c
+++ b/longmap.c
@@ -66,23 +66,30 @@ void longmap_put(LongMap *map, long key, void *value) {
     long mask = map->size - 1;
     long pos = map->hashfunc(key) & mask;
 
-    while (1) {
-        char status = map->status[pos];
-        if (status != STATUS_USED) {
-            map->keys[pos] = key;
-            map->values[pos] = value;
-            map->status[pos] = STATUS_USED;
-            map->element_count++;
-            if (status == STATUS_EMPTY) map->used_count++;
-            return;
+    // The first tombstone that was seen. The key can still be present further on.
+    int have_tombstone = 0;
+    long tombstone_pos;
+
+    while (map->status[pos] != STATUS_EMPTY) {
+        if (map->status[pos] == STATUS_TOMBSTONE) {
+            if (!have_tombstone) tombstone_pos = pos;
+            have_tombstone = 1;
         }
-
-        if (map->keys[pos] == key) {
+        else if (map->keys[pos] == key) {
             map->values[pos] = value;
             return;
         }
         pos = (pos + 1) & mask;
     }
+
+    // The key isn't present, reuse the tombstone if there is one
+    if (have_tombstone) pos = tombstone_pos;
+    else map->used_count++;
+
+    map->keys[pos] = key;
+    map->values[pos] = value;
+    map->status[pos] = STATUS_USED;
+    map->element_count++;
 }
 
 void *longmap_get(LongMap *map, long key) {
diff --git a/strmap.c b/strmap.c
index 60239e6..aac0fa4 100644
--- a/strmap.c
+++ b/strmap.c
@@ -63,23 +63,30 @@ void strmap_put(StrMap *map, char *key, void *value) {
     unsigned int mask = map->size - 1;
     unsigned int pos = hash(key) & mask;
 
+    // The first tombstone that was seen. The key can still be present further on.
+    int have_tombstone = 0;
+    unsigned int tombstone_pos;
+
     char *k;
-    while (1) {
-        k = map->keys[pos];
-        if (!k || k == (char *) TOMBSTONE) {
-            map->keys[pos] = key;
-            map->values[pos] = value;
-            map->element_count++;
-            if (!k) map->used_count++;
-            return;
+    while ((k = map->keys[pos])) {
+        if (k == (char *) TOMBSTONE) {
+            if (!have_tombstone) tombstone_pos = pos;
+            have_tombstone = 1;
         }
-
-        if (!strcmp(k, key)) {
+        else if (!strcmp(k, key)) {
             map->values[pos] = value;
             return;
         }
         pos = (pos + 1) & mask;
     }
+
+    // The key isn't present, reuse the tombstone if there is one
+    if (have_tombstone) pos = tombstone_pos;
+    else map->used_count++;
+
+    map->keys[pos] = key;
+    map->values[pos] = value;
+    map->element_count++;
 }
 
 void *strmap_get(StrMap *map, char *key) {
-- 
2.43.0


From 4caf6d53b296cb2faee7b1590393b3f7628f9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 48/89] fix: cpp: literals, spacing, stringizing and pasting of
 arguments, deep recursion and redeclaration in macro expansion

---
 cpp.c | 448 ++++++++++++++++++++++++++++++++--------------------------
 1 file changed, 246 insertions(+), 202 deletions(-)

diff --git a/cpp.c b/cpp.c
index e8b734e..2825225 100644
--- a/cpp.c
+++ b/cpp.c
@@ -466,46 +466,46 @@ void strip_backslash_newlines(void) {
     lm->next = 0;
 }
 
+// Operators that consist of more than one character, and comments
+static char *multi_character_operators[] = {
+    "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<", ">>", "<<=", ">>=",
+    "++", "--", "->", "&&", "||", "##", "//", "/*", "..", 0
+};
+
+static int is_word_character(char c) {
+    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_';
+}
+
 // Determine if two tokens that don't have a space in between them already need one.
-// The specs are unclear about this, so I followed gcc's cpp_avoid_paste() in lex.c.
+// The specs are unclear about this. This is the case if the two tokens would be lexed as
+// something else when put together. Also see gcc's cpp_avoid_paste() in lex.c.
 static int need_token_space(CppToken *t1, CppToken *t2) {
-    if (t2->kind == '=') {
-        switch(t1->kind) {
-            case '=':
-            case '!':
-            case '+':
-            case '-':
-            case '*':
-            case '/':
-            case '%':
-            case '<':
-            case '>':
-            case '&':
-            case '|':
-            case '^':
-                return 1;
-        }
+    if (t1->kind == CPP_TOK_EOL || t2->kind == CPP_TOK_EOL) return 0;
+
+    int len = strlen(t1->str);
+    if (!len || !t2->str[0]) return 0;
+
+    char last = t1->str[len - 1];
+    char first = t2->str[0];
+
+    if (t1->kind == CPP_TOK_STRING_LITERAL) return t2->kind == CPP_TOK_STRING_LITERAL;
+
+    if (is_word_character(t1->str[0]) || t1->kind == CPP_TOK_NUMBER) {
+        // Identifiers and numbers
+        if (is_word_character(first)) return 1;
+        if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_STRING_LITERAL) return 1;
+        if (t1->kind == CPP_TOK_NUMBER && first == '.') return 1;
+        if (t1->kind == CPP_TOK_NUMBER && (last == 'e' || last == 'E') && (first == '+' || first == '-')) return 1;
+        return 0;
     }
 
-         if (t1->kind == '<' && t2->kind == '<') return 1;
-    else if (t1->kind == '>' && t2->kind == '>') return 1;
-    else if (t1->kind == '+' && t2->kind == '+') return 1;
-    else if (t1->kind == '-' && t2->kind == '-') return 1;
-    else if (t1->kind == '&' && t2->kind == '&') return 1;
-    else if (t1->kind == '|' && t2->kind == '|') return 1;
-    else if (t1->kind == '-' && t2->kind == '>') return 1;
-    else if (t1->kind == '/' && t2->kind == '*') return 1;
-
-    else if (t1->kind == '+' && t2->kind == CPP_TOK_INC) return 1;
-    else if (t1->kind == '-' && t2->kind == CPP_TOK_DEC) return 1;
-    else if (t1->kind == '.' && t2->kind == CPP_TOK_NUMBER) return 1;
-
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_IDENTIFIER) return 1;
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_NUMBER) return 1;
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_STRING_LITERAL) return 1;
-    else if (t1->kind == CPP_TOK_NUMBER     && t2->kind == CPP_TOK_IDENTIFIER) return 1;
-    else if (t1->kind == CPP_TOK_NUMBER     && t2->kind == CPP_TOK_NUMBER) return 1;
-    else if (t1->kind == CPP_TOK_STRING_LITERAL && t2->kind == CPP_TOK_STRING_LITERAL) return 1;
+    if (t1->str[0] == '.' && len == 1 && t2->kind == CPP_TOK_NUMBER) return 1;
+
+    // Operators
+    for (int i = 0; multi_character_operators[i]; i++) {
+        char *operator = multi_character_operators[i];
+        if (!strncmp(operator, t1->str, len) && operator[len] == first && !operator[len + 1]) return 1;
+    }
 
     return 0;
 }
@@ -617,6 +617,7 @@ static char *lex_whitespace(void) {
             advance_ip();
             advance_ip();
 
+            if (!strstr(state.input + state.ip, "*/")) error("Unterminated comment");
             while (state.input_size - state.ip >= 2 && (state.input[state.ip] != '*' || state.input[state.ip + 1] != '/'))
                 advance_ip();
 
@@ -654,13 +655,25 @@ static void lex_string_and_char_literal(char delimiter) {
     data[data_offset] = delimiter == '>' ? '<' : delimiter;
     int size = 0;
 
+    // A literal cannot go past the end of the line. If it isn't terminated, the delimiter is a token of its own.
+    int end = state.ip;
+    while (end < state.input_size && i[end] != delimiter && i[end] != '\n')
+        end += (i[end] == '\\' && delimiter != '>' && end + 1 < state.input_size && i[end + 1] != '\n') ? 2 : 1;
+
+    if (end >= state.input_size || i[end] == '\n') {
+        data[data_offset + 1] = 0;
+        state.token = new_cpp_token(data_offset ? CPP_TOK_OTHER : data[0]);
+        state.token->str = data;
+        return;
+    }
+
     while (state.ip < state.input_size) {
         if (i[state.ip] == delimiter) {
             advance_ip();
             break;
         }
 
-        if (state.input_size - state.ip >= 2 && i[state.ip] == '\\') {
+        if (state.input_size - state.ip >= 2 && i[state.ip] == '\\' && delimiter != '>') {
             if (size + 1 >= MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
             data[data_offset + 1 + size++] = '\\';
             data[data_offset + 1 + size++] = i[state.ip + 1];
@@ -848,20 +861,45 @@ static void cpp_next() {
 
     state.token->whitespace = whitespace;
 
-    if (state.hchar_lex_state == HLS_START_OF_LINE && state.token->kind == CPP_TOK_HASH   ) state.hchar_lex_state = HLS_SEEN_HASH;
-    if (state.hchar_lex_state == HLS_SEEN_HASH     && state.token->kind == CPP_TOK_INCLUDE) state.hchar_lex_state = HLS_SEEN_INCLUDE;
+    if (state.token->kind != CPP_TOK_EOL) {
+        if      (state.hchar_lex_state == HLS_START_OF_LINE && state.token->kind == CPP_TOK_HASH   ) state.hchar_lex_state = HLS_SEEN_HASH;
+        else if (state.hchar_lex_state == HLS_SEEN_HASH     && state.token->kind == CPP_TOK_INCLUDE) state.hchar_lex_state = HLS_SEEN_INCLUDE;
+        else state.hchar_lex_state = HLS_OTHER;
+    }
 
     return;
 }
 
-// Set line number on all tokens in ts
-static void set_line_number_on_token_sequence(CppToken *ts, int line_number) {
-    CppToken *tail = ts;
-    ts = ts->next;
+// Set line number on all tokens in ts to the line number of a token
+static void set_line_number_on_token_sequence(CppToken *ts, CppToken *token) {
+    CppToken *tok = ts;
     do {
-        ts->line_number = line_number;
-        ts = ts->next;
-    } while (ts != tail);
+        tok = tok->next;
+        tok->line_number = token->line_number;
+        tok->line_number_offset = token->line_number_offset;
+    } while (tok != ts);
+}
+
+// Remove newlines at the start and end of a token sequence
+static CppToken *trim_eols(CppToken *ts) {
+    CppToken *result = 0;
+    CppToken *eols = 0; // Newlines that may be followed by something else
+
+    for (CppToken *tok = ts ? ts->next : 0; tok;) {
+        CppToken *next = cll_next(ts, tok);
+
+        if (tok->kind == CPP_TOK_EOL) {
+            if (result) eols = cll_append_token(eols, tok);
+        }
+        else {
+            result = cll_append_token(concat_clls(result, eols), tok);
+            eols = 0;
+        }
+
+        tok = next;
+    }
+
+    return result;
 }
 
 #define add_token_to_actuals() current_actual = cll_append_token(current_actual, dup_cpp_token(token));
@@ -948,190 +986,166 @@ StrSet *cpp_strset_intersection(StrSet *set1, StrSet *set2) {
 // Implementation of Dave Prosser's C Preprocessing Algorithm
 // This is the main macro expansion function: expand an input sequence into an output sequence.
 static CppToken *expand(CppToken *is) {
-    if (!is) return 0;
-
-    // Skip past any non-directives, to eliminate unnecessary recursion
-    CppToken *left = 0;
-    CppToken *is_head = is->next;
-    CppToken *is_tail = is;
-    CppToken *tok = is_head;
-    while (tok->str && !strmap_get(directives, tok->str)) {
-        left = cll_append_token(left, dup_cpp_token(tok));
-        tok = tok->next;
-        if (tok == is_head) break;
-    }
-
-    if (left) {
-        if (tok == is_head) return left;
+    CppToken *os = 0;
 
-        // Make is the remainder
-        is_tail->next = tok; // Make tok the head of the cll
-        CppToken *result = concat_clls(left, expand(is));
-        return result;
-    }
+    while (is) {
+        CppToken *tok = is->next;
+        Directive *directive = tok->str ? strmap_get(directives, tok->str) : 0;
 
-    CppToken *tok1 = tok->next != is_head ? tok->next : 0;
-    while (tok1 && tok1->kind == CPP_TOK_EOL) tok1 = cll_next(is, tok1);
+        // Tokens that aren't a macro or are in their own hide set aren't expanded
+        if (!directive || (tok->hide_set && strset_in(tok->hide_set, tok->str))) {
+            is = cll_from_next(is, tok);
+            os = cll_append_token(os, dup_cpp_token(tok));
+            continue;
+        }
 
-    if (tok->str && tok->hide_set && strset_in(tok->hide_set, tok->str)) {
-        // The first token tok in its own hide set, don't expand it
-        // return the first token + the expanded rest
-        if (is_tail == is_head) return is_tail; // Only one token
-        CppToken *t = dup_cpp_token(tok);
-        return concat_clls(t, expand(cll_from_next(is, tok)));
-    }
+        CppToken *directive_token = tok;
+        CppToken *substituted = 0;
 
-    Directive *directive = 0;
-    if (tok->str) directive = strmap_get(directives, tok->str);
+        if (!directive->is_function) {
+            // Object like macro
 
-    if (directive && !directive->is_function) {
-        // Object like macro
+            StrSet *identifier_hs = new_strset();
+            append_to_list(allocated_strsets, identifier_hs);
+            strset_add(identifier_hs, tok->str);
+            StrSet *hs = tok->hide_set ? cpp_strset_union(tok->hide_set, identifier_hs) : identifier_hs;
+            CppToken *replacement_tokens = directive->renderer ? directive->renderer(tok) : directive->tokens;
+            substituted = subst(dup_cll(replacement_tokens), 0, 0, hs, 0);
+        }
 
-        StrSet *identifier_hs = new_strset();
-        append_to_list(allocated_strsets, identifier_hs);
-        strset_add(identifier_hs, tok->str);
-        StrSet *hs = tok->hide_set ? cpp_strset_union(tok->hide_set, identifier_hs) : identifier_hs;
-        CppToken *replacement_tokens = directive->renderer ? directive->renderer(tok) : directive->tokens;
-        CppToken *substituted = subst(replacement_tokens, 0, 0, hs, 0);
+        else {
+            CppToken *tok1 = cll_next(is, tok);
+            while (tok1 && tok1->kind == CPP_TOK_EOL) tok1 = cll_next(is, tok1);
 
-        if (substituted) {
-            set_line_number_on_token_sequence(substituted, tok->line_number);
-            substituted->next->whitespace = tok->whitespace;
-        }
+            if (!tok1 || tok1->kind != CPP_TOK_LPAREN) {
+                // It isn't a call, so it's an ordinary token
+                is = cll_from_next(is, tok);
+                os = cll_append_token(os, dup_cpp_token(tok));
+                continue;
+            }
 
-        return expand(concat_clls(substituted, cll_from_next(is, tok)));
-    }
+            // Function like macro
 
-    else if (directive && directive->is_function && tok1 && tok1->kind == CPP_TOK_LPAREN) {
-        // Function like macro
+            StrSet *directive_token_hs = tok->hide_set;
+            tok = cll_next(is, tok1);
+            int actuals_count;
+            CppToken **actuals = make_function_actual_parameters(is, &tok, &actuals_count);
+            if (!tok || tok->kind != CPP_TOK_RPAREN) error("Expected )");
 
-        CppToken *directive_token = tok;
-        StrSet *directive_token_hs = tok->hide_set;
-        tok = cll_next(is, tok1);
-        int actuals_count;
-        CppToken **actuals = make_function_actual_parameters(is, &tok, &actuals_count);
-        if (!tok || tok->kind != CPP_TOK_RPAREN) error("Expected )");
+            // An empty () has either no parameters or a single empty one
+            if (actuals_count == 1 && !trim_eols(dup_cll(actuals[0]))) actuals_count = directive->param_count ? 1 : 0;
+            if (actuals_count != directive->param_count) error("Mismatch in number of macro parameters");
 
-        // An empty () has either no parameters or a single empty one
-        if (actuals_count == 1 && !actuals[0]) actuals_count = directive->param_count ? 1 : 0;
-        if (actuals_count != directive->param_count) error("Mismatch in number of macro parameters");
+            StrSet *rparen_hs = tok->hide_set;
 
-        StrSet *rparen_hs = tok->hide_set;
+            // Make the hideset for the macro subsitution
+            // T is the directive token
+            // HS is directive token hide set
+            // HS' is ')' hide set
+            // HS = (HS ∩ HS’) ∪ {T}
+            StrSet *hs1 = safe_strset_intersection(directive_token_hs, rparen_hs);
 
-        // Make the hideset for the macro subsitution
-        // T is the directive token
-        // HS is directive token hide set
-        // HS' is ')' hide set
-        // HS = (HS ∩ HS’) ∪ {T}
-        StrSet *hs1 = safe_strset_intersection(directive_token_hs, rparen_hs);
+            StrSet *hs2 = new_strset();
+            strset_add(hs2, directive_token->str);
+            append_to_list(allocated_strsets, hs2);
 
-        StrSet *hs2 = new_strset();
-        strset_add(hs2, directive_token->str);
-        if (hs2) append_to_list(allocated_strsets, hs2);
+            StrSet *hs = safe_strset_union(hs1, hs2);
 
-        StrSet *hs = safe_strset_union(hs1, hs2);
+            if (directive->tokens)
+                substituted = subst(dup_cll(directive->tokens), directive->param_identifiers, actuals, hs, 0);
 
-        CppToken *substituted = 0;
-        if (directive->tokens)
-            substituted = subst(dup_cll(directive->tokens), directive->param_identifiers, actuals, hs, 0);
+            free_function_actual_parameters(actuals);
+        }
 
-        free_function_actual_parameters(actuals);
+        is = cll_from_next(is, tok);
 
         if (substituted) {
-            set_line_number_on_token_sequence(substituted, directive_token->line_number);
+            set_line_number_on_token_sequence(substituted, directive_token);
             substituted->next->whitespace = directive_token->whitespace;
         }
 
-        return expand(concat_clls(substituted, cll_from_next(is, tok)));
+        is = concat_clls(substituted, is);
     }
 
-    // The first token is an ordinary token, return the first token + the expanded rest
-    CppToken *t = dup_cpp_token(tok);
-    return concat_clls(t, expand(cll_from_next(is, tok)));
+    return os;
 }
 
 // Returns a new token which is the stringized version of the input token sequence
 static CppToken *stringize(CppToken *ts) {
     StringBuffer *rendered = new_string_buffer(128);
+    append_to_string_buffer(rendered, "\"");
 
-    append_tokens_to_string_buffer(rendered, ts, 1, 0);
+    int first = 1;
+    int seen_whitespace = 0;
 
-    terminate_string_buffer(rendered);
-
-    StringBuffer *escaped = new_string_buffer(strlen(rendered->data) * 2);
-    append_to_string_buffer(escaped, "\"");
-
-    int in_string = 0;
-    int in_char = 0;
-
-    char *s = rendered->data;
-    while (*s == ' ') s++; // Skip leading whitespace
+    for (CppToken *tok = ts ? ts->next : 0; tok; tok = cll_next(ts, tok)) {
+        if (tok->whitespace || tok->kind == CPP_TOK_EOL) seen_whitespace = 1;
+        if (tok->kind == CPP_TOK_EOL) continue;
 
-    for (; *s; s++) {
-        char c = *s;
-
-        if (c == '"') {
-            append_to_string_buffer(escaped, "\\\"");
-            in_string = !in_string;
-        }
-        else if (c == '\'') {
-            append_to_string_buffer(escaped, "'");
-            in_char = !in_char;
-        }
-        else if (c == '\\') {
-            char c2 = s[1];
-            if (in_string && c2 == '"') {
-                append_to_string_buffer(escaped, "\\\\\\\"");  // Escape \"
-                s++;
-                continue;
-            }
-            else if (in_char && c2 == '\'') {
-                append_to_string_buffer(escaped, "\\\\'");  // Escape \'
-                s++;
-                continue;
-            }
-            else if ((in_string || in_char) && (c2 == '\\')) {
-                append_to_string_buffer(escaped, "\\\\\\\\");  // Escape double backslash
-                s++;
-                continue;
-            }
+        if (seen_whitespace && !first) append_to_string_buffer(rendered, " ");
+        first = 0;
+        seen_whitespace = 0;
 
-            if (in_string || in_char)
-                append_to_string_buffer(escaped, "\\\\");
-            else
-                append_to_string_buffer(escaped, "\\");
-        }
-        else {
-            char s[2] = {c, 0};
-            append_to_string_buffer(escaped, s);
+        // Escape double quotes and backslashes in string literals and character constants
+        int is_literal = tok->kind == CPP_TOK_STRING_LITERAL;
+        for (char *s = tok->str; *s; s++) {
+            char c[2] = {*s, 0};
+            if (is_literal && (*s == '"' || *s == '\\')) append_to_string_buffer(rendered, "\\");
+            append_to_string_buffer(rendered, c);
         }
     }
 
-    append_to_string_buffer(escaped, "\"");
+    append_to_string_buffer(rendered, "\"");
+    terminate_string_buffer(rendered);
 
     CppToken *result = new_cpp_token(CPP_TOK_STRING_LITERAL);
-    result->str = escaped->data;
-
-    free_string_buffer(escaped, 0);
-    free_string_buffer(rendered, 1);
+    result->str = rendered->data;
+    free_string_buffer(rendered, 0);
 
     return result;
 }
 
-// Merge two token lists together.
+// Determine the kind of a token that is the result of pasting
+static int get_pasted_token_kind(char *str) {
+    int len = strlen(str);
+
+    if (!len) return CPP_TOK_OTHER;
+    if ((str[0] >= '0' && str[0] <= '9') || (str[0] == '.' && str[1] >= '0' && str[1] <= '9')) return CPP_TOK_NUMBER;
+    if (str[len - 1] == '"' || str[len - 1] == '\'') return CPP_TOK_STRING_LITERAL;
+    if (is_word_character(str[0])) return CPP_TOK_IDENTIFIER;
+    if (!strcmp(str, "++")) return CPP_TOK_INC;
+    if (!strcmp(str, "--")) return CPP_TOK_DEC;
+    if (len == 1 && str[0] == '(') return CPP_TOK_LPAREN;
+    if (len == 1 && str[0] == ')') return CPP_TOK_RPAREN;
+    if (len == 1 && str[0] == ',') return CPP_TOK_COMMA;
+    if (len == 1 && str[0] == '#') return CPP_TOK_OTHER;
+    if (len == 1) return str[0];
+    return CPP_TOK_OTHER;
+}
+
+// Merge two token lists together. The last token on the left side and the first token on the right side are
+// pasted. An empty argument is a token with an empty string.
 // ls is mutated and the result is ls.
 static CppToken *glue(CppToken *ls, CppToken *rs) {
     if (ls == 0) return rs;
     if (rs == 0) error("Attempt to glue an empty right side");
 
+    CppToken *rs_tok = rs->next;
+
     // Mutating ls, this is allowed since ls is append only
-    wasprintf(&ls->str, "%s%s", ls->str, rs->next->str);
-    append_to_list(allocated_strings, ls->str);
-    ls->kind = CPP_TOK_OTHER;
-    ls->hide_set = safe_strset_intersection(ls->hide_set, rs->next->hide_set);
+    if (!ls->str[0]) {
+        ls->str = rs_tok->str;
+        ls->kind = rs_tok->kind;
+        ls->hide_set = rs_tok->hide_set;
+    }
+    else if (rs_tok->str[0]) {
+        wasprintf(&ls->str, "%s%s", ls->str, rs_tok->str);
+        append_to_list(allocated_strings, ls->str);
+        ls->kind = get_pasted_token_kind(ls->str);
+        ls->hide_set = safe_strset_intersection(ls->hide_set, rs_tok->hide_set);
+    }
 
     // Copy all elements from the right side except the first
-    CppToken *rs_tok = rs->next;
     rs_tok = cll_next(rs, rs_tok);
     while (rs_tok) {
         ls = cll_append_token(ls, dup_cpp_token(rs_tok));
@@ -1141,6 +1155,44 @@ static CppToken *glue(CppToken *ls, CppToken *rs) {
     return ls;
 }
 
+// Make a copy of an argument that is an operand of ##, which is an empty token if there is none
+static CppToken *dup_paste_operand(CppToken *argument, char *whitespace) {
+    CppToken *result = trim_eols(dup_cll(argument));
+
+    if (!result) {
+        CppToken *token = new_cpp_token(CPP_TOK_OTHER);
+        token->str = wstrdup("");
+        result = dup_cpp_token(token);
+    }
+
+    result->next->whitespace = whitespace;
+
+    return result;
+}
+
+// Remove empty tokens which are left over from pasting empty arguments
+static CppToken *remove_empty_tokens(CppToken *ts) {
+    CppToken *result = 0;
+    char *whitespace = 0;
+
+    for (CppToken *tok = ts->next; tok;) {
+        CppToken *next = cll_next(ts, tok);
+
+        if (tok->str && !tok->str[0]) {
+            if (!whitespace) whitespace = tok->whitespace;
+        }
+        else {
+            if (!tok->whitespace) tok->whitespace = whitespace;
+            whitespace = 0;
+            result = cll_append_token(result, tok);
+        }
+
+        tok = next;
+    }
+
+    return result;
+}
+
 // Inputs:
 //   is: input sequence
 //   fp: formal parameters
@@ -1152,6 +1204,7 @@ static CppToken *glue(CppToken *ls, CppToken *rs) {
 static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppToken *os) {
     // Empty token sequence, update the hide set and return output sequence
     if (!is) {
+        if (os) os = remove_empty_tokens(os);
         if (!os) return os;
         return hsadd(hs, os);
     }
@@ -1170,18 +1223,21 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
     // # FP
     if (tok->kind == CPP_TOK_HASH && tok1_fp_index) {
         CppToken *replacement = ap[tok1_fp_index - 1];
-        os = cll_append_token(os, stringize(replacement));
+        os = cll_append_token(os, dup_cpp_token(stringize(replacement)));
 
         return subst(cll_from_next(is, tok1), fp, ap, hs, os);
     }
 
     // ## FP
     if (tok->kind == CPP_TOK_PASTE && tok1_fp_index) {
-        CppToken *replacement = ap[tok1_fp_index - 1];
-        if (!replacement)
-            return subst(cll_from_next(is, tok1), fp, ap, hs, os);
-        else
-            return subst(cll_from_next(is, tok1), fp, ap, hs, glue(os, dup_cll(replacement)));
+        CppToken *replacement = dup_paste_operand(ap[tok1_fp_index - 1], tok1->whitespace);
+        return subst(cll_from_next(is, tok1), fp, ap, hs, glue(os, replacement));
+    }
+
+    // ## # FP
+    if (tok->kind == CPP_TOK_PASTE && tok1 && tok1->kind == CPP_TOK_HASH && tok2_fp_index) {
+        CppToken *stringized = dup_cpp_token(stringize(ap[tok2_fp_index - 1]));
+        return subst(cll_from_next(is, tok2), fp, ap, hs, glue(os, stringized));
     }
 
     // ## TS
@@ -1193,20 +1249,8 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
 
     // FP ##
     if (tok_fp_index && tok1 && tok1->kind == CPP_TOK_PASTE) {
-        CppToken *replacement = ap[tok_fp_index - 1];
-        if (!replacement) {
-            if (tok2 && tok2_fp_index) {
-                // (empty) ## (replacement2) ...
-                CppToken *replacement2 = ap[tok2_fp_index - 1];
-                return subst(cll_from_next(is, tok2), fp, ap, hs, concat_clls(os, dup_cll(replacement2)));
-            }
-            else
-                // (empty) ## (empty) ...
-                return subst(cll_from_next(is, tok1), fp, ap, hs, os);
-        }
-        else
-            // (replacement) ## ...
-            return subst(cll_from_next(is, tok), fp, ap, hs, concat_clls(os, dup_cll(replacement)));
+        CppToken *replacement = dup_paste_operand(ap[tok_fp_index - 1], tok->whitespace);
+        return subst(cll_from_next(is, tok), fp, ap, hs, concat_clls(os, replacement));
     }
 
     // FP
@@ -1627,8 +1671,8 @@ static void check_directive_redeclaration(Directive *d1, Directive *d2, char *id
     }
 
     // Check replacement lists are identical
-    CppToken *t1 = d1->tokens;
-    CppToken *t2 = d2->tokens;
+    CppToken *t1 = d1->tokens ? d1->tokens->next : 0;
+    CppToken *t2 = d2->tokens ? d2->tokens->next : 0;
 
     int identical = 1;
     while (t1 && t2) {
-- 
2.43.0


From de0f2367563d94ccf158f6afc36ee8e3c6f6767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 49/89] fix: constexpr: logical results are longs in
 preprocessor expressions

---
 constexpr.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 0d4ca9b..92b0175 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -33,6 +33,11 @@ static long double round_to_floating_point_type(long double value, Type *type) {
     return value;
 }
 
+// The type of the result of logical and relational operators, which is a long in a preprocessor expression
+static Type *new_logical_type() {
+    return new_type(integers_are_longs ? TYPE_LONG : TYPE_INT);
+}
+
 static Value *make_evaluated_integer(long value, Type *type) {
     Value *v = new_value();
     v->type = type;
@@ -52,7 +57,7 @@ Value *evaluate_const_unary_int_operation(int operation, Value *value) {
     else return 0;
 
     // Perform integer promotions everywhere except for logical not,
-    Type *type = operation == IR_LNOT ? new_type(TYPE_INT) : dup_type(integer_promote_type(value->type));
+    Type *type = operation == IR_LNOT ? new_logical_type() : dup_type(integer_promote_type(value->type));
 
     return make_evaluated_integer(r, type);
 }
@@ -129,7 +134,7 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
         else if (operation == IR_GE  ) { if (is_unsigned) r = s1ul >= s2ul; else r = s1sl >= s2sl; }
         else return 0;
 
-        type = new_type(TYPE_INT);
+        type = new_logical_type();
     }
 
     return make_evaluated_integer(r, type);
@@ -276,7 +281,7 @@ static Value *parse_unary_expression(int operation) {
     if (is_floating_point_type(value->type))
         result = evaluate_const_unary_fp_operation(operation, value);
     else if (operation == IR_LNOT)
-        result = make_evaluated_integer(!constant_is_true(value), new_type(TYPE_INT));
+        result = make_evaluated_integer(!constant_is_true(value), new_logical_type());
     else
         result = evaluate_const_unary_int_operation(operation, value);
 
@@ -367,9 +372,9 @@ static Value *parse_binary_expression(int operation, int second_level, Value *va
     Type *result_type = operation_type(value1, value2, 0);
 
     if (operation == IR_LAND)
-        result = make_evaluated_integer(constant_is_true(value1) && constant_is_true(value2), new_type(TYPE_INT));
+        result = make_evaluated_integer(constant_is_true(value1) && constant_is_true(value2), new_logical_type());
     else if (operation == IR_LOR)
-        result = make_evaluated_integer(constant_is_true(value1) || constant_is_true(value2), new_type(TYPE_INT));
+        result = make_evaluated_integer(constant_is_true(value1) || constant_is_true(value2), new_logical_type());
     else if (is_floating_point_type(result_type))
         result = evaluate_const_binary_fp_operation(operation, value1, value2, result_type);
     else
@@ -602,8 +607,9 @@ Value *parse_constant_expression(int level) {
 
 Value *parse_constant_integer_expression(int all_longs) {
     integers_are_longs = all_longs;
-
     Value *value = parse_constant_expression(TOK_EQ);
+    integers_are_longs = 0;
+
     if (!value->is_constant) error("Expected a constant expression");
     if (!is_integer_type(value->type)) error("Expected an integer constant expression");
     return value;
-- 
2.43.0


From 402ded531c97c2d619e0d4d7c601866b22f3d8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 50/89] fix: cpp: directives in skipped groups, #else and #elif
 order, #include of an expansion, line numbers of the output

---
 cpp.c | 175 ++++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 115 insertions(+), 60 deletions(-)

diff --git a/cpp.c b/cpp.c
index 2825225..40f0796 100644
--- a/cpp.c
+++ b/cpp.c
@@ -20,6 +20,7 @@ enum hchar_lex_state {
 typedef struct conditional_include {
     int matched;    // Is the evaluated controlling expression 1?
     int skipping;   // Is a group being skipped?
+    int seen_else;  // Has the #else been seen?
     struct conditional_include *prev;
 } ConditionalInclude;
 
@@ -36,7 +37,6 @@ typedef struct cpp_state {
     int                  line_number_offset;          // Difference in line number set by #line directive
     CppToken *           token;                       // Current token
     int                  hchar_lex_state;             // State of #include <...> lexing
-    int                  output_line_number;          // How many lines have been outputted
     ConditionalInclude * conditional_include_stack;   // Includes
     int                  include_depth;               // How deep are we in nested includes
 } CppState;
@@ -51,6 +51,8 @@ List *allocated_strings;
 // Output
 FILE *cpp_output_file;         // Output file handle
 StringBuffer *output;          // Output string buffer;
+static int output_scan_position;       // Position in the output up to which lines have been counted
+static int output_line_number;         // Line number at output_scan_position
 
 static void cpp_next();
 static void cpp_parse();
@@ -96,7 +98,7 @@ void debug_print_cll_token_sequence(CppToken *ts) {
 // Set cur_filename and cur_line globals from CPP state
 void get_cpp_filename_and_line() {
     cur_line = state.line_number_offset + state.line_number;
-    cur_filename = state.filename;
+    cur_filename = state.override_filename ? state.override_filename : state.filename;
 }
 
 static void init_cpp_from_fh(FILE *f, char *path) {
@@ -510,6 +512,43 @@ static int need_token_space(CppToken *t1, CppToken *t2) {
     return 0;
 }
 
+// Determine the line number a reader of the output will give to the next line in it. Returns zero if the output
+// isn't at the start of a line. Scanning starts where the previous call left off. Empty lines at the end might still be
+// collapsed, so are scanned again.
+static int get_output_line_number() {
+    int line_number = output_line_number;
+    int start = output_scan_position;
+
+    for (int i = start; i < output->position; i++) {
+        if (output->data[i] != '\n') continue;
+
+        char *line = output->data + start;
+        int is_line_directive = i - start > 2 && line[0] == '#' && line[1] == ' ' && line[2] >= '0' && line[2] <= '9';
+        line_number = is_line_directive ? atoi(line + 2) : line_number + 1;
+
+        if (i > start) {
+            output_line_number = line_number;
+            output_scan_position = i + 1;
+        }
+        start = i + 1;
+    }
+
+    return start == output->position ? line_number : 0;
+}
+
+// Ensure a token at the start of a line in the output ends up with the right line number
+static void synchronize_line_number(CppToken *token) {
+    int line_number = get_output_line_number();
+    if (!line_number) return;
+
+    int difference = token->line_number + token->line_number_offset - line_number;
+
+    if (difference < 0 || difference > 200)
+        output_line_directive(0, 1, token);
+    else
+        while (difference--) append_to_string_buffer(output, "\n");
+}
+
 static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, int collapse_whitespace, int update_output) {
     if (!tokens) return;
 
@@ -533,6 +572,10 @@ static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, i
 
         if (!token) return;
 
+        // Tokens inside the expansion of a macro stay where they are
+        if (update_output && (token->hide_set ? !prev || !prev->hide_set : !is_eol))
+            synchronize_line_number(token);
+
         if (!is_eol && token->whitespace && !collapse_whitespace)
             append_to_string_buffer(sb, token->whitespace);
         else if (!is_eol && token->whitespace && collapse_whitespace)
@@ -547,20 +590,6 @@ static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, i
 
         prev = token;
         token = token->next;
-
-        if (update_output) {
-            if (is_eol) state.output_line_number++;
-
-            if (is_eol && token) {
-                // Output sufficient newlines to catch up with token->line_number.
-                // This ensures that each line in the input ends up on the same line
-                // in the output.
-                while (state.output_line_number < token->line_number) {
-                    state.output_line_number++;
-                    append_to_string_buffer(sb, "\n");
-                }
-            }
-        }
     } while (token != head);
 }
 
@@ -1393,10 +1422,27 @@ static void parse_include() {
     if (!include_token || include_token->kind == CPP_TOK_EOL || include_token->kind == CPP_TOK_EOF)
         error("Invalid #include");
 
+    is_system = include_token->kind == CPP_TOK_HCHAR_STRING_LITERAL;
+
+    if (have_pp_tokens && include_token->next->kind == '<' && include_token->kind == '>') {
+        // The expansion is of the form < ... >
+        StringBuffer *rendered = new_string_buffer(128);
+        append_tokens_to_string_buffer(rendered, include_token, 1, 0);
+        terminate_string_buffer(rendered);
+        path = rendered->data;
+        free_string_buffer(rendered, 0);
+        append_to_list(allocated_strings, path);
+        while (*path != '<') path++;
+        is_system = 1;
+    }
+    else if (!is_system && (include_token->next != include_token || include_token->kind != CPP_TOK_STRING_LITERAL || include_token->str[0] != '"'))
+        error("Invalid #include");
+    else
+        path = include_token->str;
+
     // Remove "" or <> tokens
-    path = &(include_token->str[1]);
+    path++;
     path[strlen(path) - 1] = 0;
-    is_system = include_token->kind == CPP_TOK_HCHAR_STRING_LITERAL;
 
     skip_until_eol();
     collapse_trailing_newlines(0, 0, 0);
@@ -1525,13 +1571,13 @@ static CppToken *expand_defineds(CppToken *is) {
         CppToken *tok1 = cll_next(is, tok);
 
         if (tok->kind == CPP_TOK_DEFINED) {
-            if (tok1 && tok1->kind == CPP_TOK_IDENTIFIER) {
+            if (tok1 && is_identifier(tok1)) {
                 os = cll_append_token(os, make_boolean_token(!!strmap_get(directives, tok1->str)));
                 tok = cll_next(is, tok1);
             }
             else if (tok1 && tok1->kind == CPP_TOK_LPAREN) {
                 tok = cll_next(is, tok1);
-                if (!tok || tok->kind != CPP_TOK_IDENTIFIER)
+                if (!tok || !is_identifier(tok))
                     error("Expected identifier");
 
                 os = cll_append_token(os, make_boolean_token(!!strmap_get(directives, tok->str)));
@@ -1576,6 +1622,13 @@ static long parse_conditional_expression() {
             tok->kind = CPP_TOK_NUMBER;
             tok->str = "0";
         }
+        else if (tok->kind == CPP_TOK_NUMBER && !strpbrk(tok->str, "lL")) {
+            // All integers are longs or unsigned longs
+            char *str;
+            wasprintf(&str, "%sL", tok->str);
+            append_to_list(allocated_strings, str);
+            tok->str = str;
+        }
         else if (tok->kind == CPP_TOK_STRING_LITERAL && tok->str[strlen(tok->str) - 1] == '"')
             error("String literals aren't allowed in a preprocessor expression");
 
@@ -1586,6 +1639,7 @@ static long parse_conditional_expression() {
     free_string_buffer(rendered, 0);
     init_lexer_from_string(data);
     Value *value = parse_constant_integer_expression(1);
+    if (cur_token != TOK_EOF) error("Unexpected token after preprocessor expression");
     wfree(data);
     free_lexer();
 
@@ -1605,6 +1659,21 @@ static void parse_if_defined(int negate) {
     }
 }
 
+// Set the line number, and if there is a string literal, the filename, of the next line
+static void set_line(CppToken *number, CppToken *filename) {
+    state.line_number_offset = atoi(number->str) - state.line_number - 1;
+
+    // Amend the next token's line number offset too
+    state.token->line_number_offset = state.line_number_offset;
+
+    if (filename && filename->kind == CPP_TOK_STRING_LITERAL) {
+        state.override_filename = wstrdup(filename->str + 1);
+        state.override_filename[strlen(state.override_filename) - 1] = 0;
+        append_to_list(allocated_strings, state.override_filename);
+        cur_filename = state.override_filename;
+    }
+}
+
 static void parse_line() {
     CppToken *tokens;
 
@@ -1621,21 +1690,7 @@ static void parse_line() {
     if (state.token->kind != CPP_TOK_EOL && state.token->kind != CPP_TOK_EOF) panic("Expected EOL or EOF");
 
     if (token->kind == CPP_TOK_NUMBER) {
-        state.line_number_offset = atoi(token->str) - state.line_number - 1;
-
-        // Amend the next token's line number offset too
-        state.token->line_number_offset = state.line_number_offset;
-
-        token = cll_next(tokens, token);
-
-        if (token && token->kind == CPP_TOK_STRING_LITERAL) {
-            char *filename = token->str;
-            filename[strlen(filename) - 1] = 0;
-            filename++;
-            state.override_filename = filename;
-            cur_filename = filename;
-        }
-
+        set_line(token, cll_next(tokens, token));
         output_line_directive(1, 0, state.token);
     }
     else
@@ -1696,7 +1751,6 @@ static void check_directive_redeclaration(Directive *d1, Directive *d2, char *id
 }
 
 static void parse_directive(void) {
-    CppToken *directive_hash_token = state.token;
     cpp_next();
 
     switch (state.token->kind) {
@@ -1740,10 +1794,9 @@ static void parse_directive(void) {
                 if (existing_directive) free_directive(existing_directive);
                 strmap_delete(directives, state.token->str);
                 cpp_next();
-
-                skip_until_eol();
             }
 
+            skip_until_eol();
             break;
 
         case CPP_TOK_IFDEF:
@@ -1773,17 +1826,17 @@ static void parse_directive(void) {
             cpp_next();
 
             if (!state.conditional_include_stack->prev) error("Found an #elif without an #if");
+            if (state.conditional_include_stack->seen_else) error("Found an #elif after an #else");
 
             // We're skipping a section and found an #elif. Ignore the directive
             if (!state.conditional_include_stack->prev->skipping) {
-                if (state.conditional_include_stack->matched) {
+                if (state.conditional_include_stack->matched)
                     state.conditional_include_stack->skipping = 1;
-                    break;
+                else {
+                    long value = parse_conditional_expression();
+                    state.conditional_include_stack->skipping = !value;
+                    state.conditional_include_stack->matched = !!value;
                 }
-
-                long value = parse_conditional_expression();
-                state.conditional_include_stack->skipping = !value;
-                state.conditional_include_stack->matched = !!value;
             }
 
             skip_until_eol();
@@ -1794,9 +1847,11 @@ static void parse_directive(void) {
             cpp_next();
 
             if (!state.conditional_include_stack->prev) error("Found an #else without an #if");
-            if (state.conditional_include_stack->prev->skipping) break;
+            if (state.conditional_include_stack->seen_else) error("Found an #else after an #else");
+            state.conditional_include_stack->seen_else = 1;
 
-            state.conditional_include_stack->skipping = state.conditional_include_stack->matched;
+            if (!state.conditional_include_stack->prev->skipping)
+                state.conditional_include_stack->skipping = state.conditional_include_stack->matched;
 
             skip_until_eol();
             break;
@@ -1810,6 +1865,7 @@ static void parse_directive(void) {
             wfree(state.conditional_include_stack);
             state.conditional_include_stack = prev;
 
+            skip_until_eol();
             break;
         }
 
@@ -1817,22 +1873,16 @@ static void parse_directive(void) {
             cpp_next();
 
             if (!state.conditional_include_stack->skipping) parse_line();
+            else skip_until_eol();
 
             break;
 
         case CPP_TOK_NUMBER: {
             // # <number> ...
-            // We're probably re-preprocessing everything, keep the line
+            // This is the same as #line <number> ... We're probably re-preprocessing everything.
 
-            CppToken *tokens = 0;
-            tokens = cll_append_token(tokens, directive_hash_token);
-
-            while (state.token->kind != CPP_TOK_EOF && state.token->kind != CPP_TOK_EOL) {
-                tokens = cll_append_token(tokens, state.token);
-                cpp_next();
-            }
-
-            append_tokens_to_output(expand(tokens));
+            if (!state.conditional_include_stack->skipping) parse_line();
+            else skip_until_eol();
 
             break;
         }
@@ -1852,6 +1902,7 @@ static void parse_directive(void) {
                 warning("%s", message->data);
             }
 
+            skip_until_eol();
             break;
 
         case CPP_TOK_ERROR:
@@ -1863,6 +1914,7 @@ static void parse_directive(void) {
                 error("%s", message->data);
             }
 
+            skip_until_eol();
             break;
 
         case CPP_TOK_EOL:
@@ -1874,12 +1926,13 @@ static void parse_directive(void) {
         default:
             if (!state.conditional_include_stack->skipping)
                 error("Unknown directive \"%s\"", state.token->str);
+
+            skip_until_eol();
     }
 }
 
 // Parse tokens from the lexer
 static void cpp_parse() {
-    state.output_line_number = 1;
     int new_line = 1;
     CppToken *group_tokens = 0;
 
@@ -1888,12 +1941,12 @@ static void cpp_parse() {
             append_tokens_to_output(expand(group_tokens));
             parse_directive();
             group_tokens = 0;
+            new_line = 0; // The rest of the line isn't a directive
         }
         else {
-            if (!state.conditional_include_stack->skipping) {
+            new_line = (state.token->kind == CPP_TOK_EOL);
+            if (!state.conditional_include_stack->skipping)
                 group_tokens = cll_append_token(group_tokens, state.token);
-                new_line = (state.token->kind == CPP_TOK_EOL);
-            }
             cpp_next();
         }
     }
@@ -2012,6 +2065,8 @@ char *preprocess(char *filename, List *cli_directive_strings) {    init_cpp();
     init_cpp_from_fh(f, filename);
 
     output = new_string_buffer(state.input_size * 2);
+    output_scan_position = 0;
+    output_line_number = 1;
 
     run_preprocessor_on_file(filename, 1);
 
-- 
2.43.0


From f97005baa1d7249b0c69ff2d4317063b8a53e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 51/89] fix: take the value of a pointer in memory as the
 address of what it points to

---
 instrsel.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/instrsel.c b/instrsel.c
index 34b22cf..0069a5e 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -304,6 +304,15 @@ static int igraphs_are_neighbors(IGraph *igraphs, int i1, int i2) {
     return 1;
 }
 
+static int igraph_takes_address_of_vreg(IGraph *ig, int vreg) {
+    for (int i = 0; i < ig->node_count; i++) {
+        Tac *tac = ig->nodes[i].tac;
+        if (tac && tac->operation == IR_ADDRESS_OF && tac->src1 && tac->src1->vreg == vreg) return 1;
+    }
+
+    return 0;
+}
+
 static void make_igraphs(Function *function, int block_id) {
     allocated_graphs = new_list(1024);
     allocated_igraphs = new_list(1024);
@@ -421,6 +430,8 @@ static void make_igraphs(Function *function, int block_id) {
         // Values in rcx and rdx, such as function parameters, are moved out of them right away, otherwise
         // they would be live during a shift, multiplication or division that needs the register.
         // Constant addresses and the stack pointer must be in a register to be dereferenced.
+        // The address of a dereferenced pointer is the pointer's value, so a pointer in memory must be loaded
+        // into a register, otherwise the address of the pointer itself would be taken.
         if (vreg_igraphs[dst].count == 1 && vreg_igraphs[dst].igraph_id != -1 &&
             tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR &&
             igraphs[g1_igraph_id].nodes[0].tac->operation != IR_CALL_ARG_REG &&
@@ -429,6 +440,7 @@ static void make_igraphs(Function *function, int block_id) {
             !(tac->operation == IR_MOVE && tac->src1 &&
                 (tac->src1->live_range_preg == LIVE_RANGE_PREG_RCX_INDEX || tac->src1->live_range_preg == LIVE_RANGE_PREG_RDX_INDEX)) &&
             !(tac->operation == IR_MOVE && tac->src1 && tac->src1->is_constant && tac->dst->type->type == TYPE_PTR) &&
+            !(tac->operation == IR_MOVE && igraph_takes_address_of_vreg(&(igraphs[g1_igraph_id]), dst)) &&
             igraphs_are_neighbors(igraphs, i, g1_igraph_id)
             ) {
 
-- 
2.43.0


From fd8b61a0488bc6a1b0e3f8cb5e66deff8b4e5f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 52/89] fix: round float constants once

---
 lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.c b/lexer.c
index bb9e234..6b33a1e 100644
--- a/lexer.c
+++ b/lexer.c
@@ -160,7 +160,7 @@ void lex_non_hex_literal(void) {
 
         // The value of the constant has the precision of its type
         if (type == TYPE_DOUBLE) cur_long_double = strtod(start + start_ip, &new_i);
-        else if (type == TYPE_FLOAT) cur_long_double = (float) strtod(start + start_ip, &new_i);
+        else if (type == TYPE_FLOAT) cur_long_double = strtof(start + start_ip, &new_i);
 
         cur_lexer_type = new_type(type);
     }
-- 
2.43.0


From acbc254a3e653684b76d7ac61337cb1730c999c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 53/89] fix: line markers between adjacent string literals

---
 lexer.c | 51 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/lexer.c b/lexer.c
index 6b33a1e..f7a0db9 100644
--- a/lexer.c
+++ b/lexer.c
@@ -255,6 +255,33 @@ void lex_single_string_literal(int *size, int is_wide_char) {
     data[*size] = 0;
 }
 
+// Lex # <num> "filename" ...
+// The filename is lexed after the size characters already in the current string literal.
+static void lex_line_marker(int size) {
+    char *i = input;
+    int *data = (int *) cur_string_literal.data;
+
+    ip++;
+    skip_whitespace();
+
+    lex_non_hex_literal();
+    skip_whitespace();
+
+    int end = size;
+    ip++; // Skip the "
+    lex_single_string_literal(&end, 0);
+
+    if (cur_filename) free_and_null(cur_filename);
+    cur_filename = wmalloc(end - size + 1);
+    for (int j = 0; j < end - size; j++) cur_filename[j] = data[size + j];
+    cur_filename[end - size] = 0;
+    data[size] = 0;
+    cur_line = cur_long - 1;
+
+    while (ip < input_size && i[ip] != '\n') ip++; // Skip non-whitespace
+    skip_whitespace(); // Skip EOL if present
+}
+
 void lex_string_literal(void) {
     char *i = input;
 
@@ -270,6 +297,9 @@ void lex_string_literal(void) {
         ip += 1;
         lex_single_string_literal(&size, is_wide_char);
         skip_whitespace();
+
+        // The preprocessor may have put line markers between adjacent literals
+        while (ip < input_size && i[ip] == '#') lex_line_marker(size);
     }
 
     finish_string_literal(size, is_wide_char);
@@ -362,26 +392,7 @@ void next(void) {
         }
 
         else if (i[ip] == '#') {
-            // Lex # <num> "filename" ...
-
-            ip++;
-            skip_whitespace();
-
-            lex_non_hex_literal();
-            skip_whitespace();
-
-            int size = 0;
-            ip++; // Skip the "
-            lex_single_string_literal(&size, 0);
-            finish_string_literal(size, 0);
-
-            if (cur_filename) free_and_null(cur_filename);
-            cur_filename = wstrdup(cur_string_literal.data);
-            cur_line = cur_long - 1;
-
-            while (ip < input_size && i[ip] != '\n') ip++; // Skip non-whitespace
-            skip_whitespace(); // Skip EOL if present
-
+            lex_line_marker(0);
             continue;
         }
 
-- 
2.43.0


From 4d6003c3334692493c232b710618af2a86af9d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 54/89] fix: report failures to write the output and don't
 leave incomplete output behind

---
 codegen.c | 13 ++---------
 cpp.c     | 15 +++----------
 utils.c   | 65 +++++++++++++++++++++++++++++++++++++++++++++++++++++++
 wcc.h     |  3 +++
 4 files changed, 73 insertions(+), 23 deletions(-)

diff --git a/codegen.c b/codegen.c
index 580082d..8c25350 100644
--- a/codegen.c
+++ b/codegen.c
@@ -925,16 +925,7 @@ void output_debug_sections(char *input_filename) {
 
 // Output code for the translation unit
 void output_code(char *input_filename, char *output_filename) {
-    if (!strcmp(output_filename, "-"))
-        f = stdout;
-    else {
-        // Open output file for writing
-        f = fopen(output_filename, "w");
-        if (f == 0) {
-            perror(output_filename);
-            exit(1);
-        }
-    }
+    f = open_output_file(output_filename);
 
     fprintf(f, "    .file   \"%s\"\n", input_filename);
 
@@ -1046,7 +1037,7 @@ void output_code(char *input_filename, char *output_filename) {
 
     if (opt_debug_symbols) output_debug_sections(input_filename);
 
-    fclose(f);
+    close_output_file(f, output_filename);
 }
 
 void init_codegen(void) {
diff --git a/cpp.c b/cpp.c
index 40f0796..514b34e 100644
--- a/cpp.c
+++ b/cpp.c
@@ -2092,19 +2092,10 @@ void preprocess_to_file(char *input_filename, char *output_filename, List *cli_d
     char *data = preprocess(input_filename, cli_directive_strings);
 
     // Print the output
-    if (!output_filename || !strcmp(output_filename, "-"))
-        cpp_output_file = stdout;
-    else {
-        // Open output file for writing
-        cpp_output_file = fopen(output_filename, "w");
-        if (cpp_output_file == 0) {
-            perror(output_filename);
-            exit(1);
-        }
-    }
-
+    if (!output_filename) output_filename = "-";
+    cpp_output_file = open_output_file(output_filename);
     fprintf(cpp_output_file, "%s", data);
-    if (cpp_output_file != stdout) fclose(cpp_output_file);
+    close_output_file(cpp_output_file, output_filename);
 
     wfree(data);
 }
diff --git a/utils.c b/utils.c
index ec03ba3..f9b8b25 100644
--- a/utils.c
+++ b/utils.c
@@ -2,7 +2,9 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdarg.h>
+#include <sys/stat.h>
 #include <sys/time.h>
+#include <unistd.h>
 
 #include "wcc.h"
 
@@ -104,3 +106,66 @@ int debug_log(char *format, ...) {
     vprintf(format, ap);
     printf("\n");
 }
+
+typedef struct file_to_remove {
+    char *filename;
+    struct file_to_remove *next;
+} FileToRemove;
+
+static FileToRemove *files_to_remove;
+
+static void remove_files(void) {
+    for (FileToRemove *ftr = files_to_remove; ftr; ftr = ftr->next) {
+        struct stat st;
+        if (!stat(ftr->filename, &st) && S_ISREG(st.st_mode)) unlink(ftr->filename);
+    }
+}
+
+// Ensure a file is removed when the program exits
+void remove_file_at_exit(char *filename) {
+    if (!files_to_remove) atexit(remove_files);
+
+    FileToRemove *ftr = malloc(sizeof(FileToRemove));
+    char *copy = malloc(strlen(filename) + 1);
+    if (!ftr || !copy) panic("Out of memory");
+    strcpy(copy, filename);
+    ftr->filename = copy;
+    ftr->next = files_to_remove;
+    files_to_remove = ftr;
+}
+
+// Open an output file for writing. It is removed unless it's finished with close_output_file().
+FILE *open_output_file(char *filename) {
+    if (!strcmp(filename, "-")) return stdout;
+
+    FILE *f = fopen(filename, "w");
+    if (f == 0) {
+        perror(filename);
+        exit(1);
+    }
+
+    remove_file_at_exit(filename);
+
+    return f;
+}
+
+void close_output_file(FILE *f, char *filename) {
+    int failed = ferror(f);
+    if (f == stdout) {
+        if (fflush(f)) failed = 1;
+    }
+    else if (fclose(f)) failed = 1;
+
+    if (failed) {
+        fprintf(stderr, "error: Unable to write to %s\n", filename);
+        exit(1);
+    }
+
+    if (f != stdout) {
+        // The output is complete, the file is the most recent one in the list
+        FileToRemove *ftr = files_to_remove;
+        files_to_remove = ftr->next;
+        free(ftr->filename);
+        free(ftr);
+    }
+}
diff --git a/wcc.h b/wcc.h
index befbb52..304e969 100644
--- a/wcc.h
+++ b/wcc.h
@@ -904,6 +904,9 @@ void panic(char *format, ...);
 
 char *base_path(char *path);
 int wasprintf(char **ret, const char *format, ...);
+void remove_file_at_exit(char *filename);
+FILE *open_output_file(char *filename);
+void close_output_file(FILE *f, char *filename);
 StringBuffer *new_string_buffer(int initial_size);
 void free_string_buffer(StringBuffer *sb, int free_data);
 void append_to_string_buffer(StringBuffer *sb, char *str);
-- 
2.43.0


From da3e11e08aff572fd89814705d38907547d40f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 55/89] fix: driver exit status, temporary files, filename
 quoting and one object per source file

---
 main.c | 120 +++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 75 insertions(+), 45 deletions(-)

diff --git a/main.c b/main.c
index 6c713fa..41ca0eb 100644
--- a/main.c
+++ b/main.c
@@ -37,7 +37,8 @@ static int is_object_file(const char *const filename) {
 
 char *replace_extension(char *input, char *ext) {
     char *p  = strrchr(input,'.');
-    if (!p) {
+    char *slash = strrchr(input, '/');
+    if (!p || (slash && p < slash)) {
         char *result = wmalloc(strlen(input) + strlen(ext) + 2);
         sprintf(result, "%s.%s", input, ext);
         return result;
@@ -53,6 +54,36 @@ char *replace_extension(char *input, char *ext) {
     }
 }
 
+// Append a space and an argument, quoted for the shell
+static void append_argument(StringBuffer *sb, char *argument) {
+    append_to_string_buffer(sb, " '");
+
+    char c[2];
+    c[1] = 0;
+    for (; *argument; argument++) {
+        c[0] = *argument;
+        append_to_string_buffer(sb, *argument == '\'' ? "'\\''" : c);
+    }
+
+    append_to_string_buffer(sb, "'");
+}
+
+// Run a command and return an exit code, which is zero if and only if the command succeeded
+static int run_command(StringBuffer *command, int verbose) {
+    if (verbose) {
+        append_to_string_buffer(command, " -v");
+        printf("%s\n", command->data);
+        fflush(stdout);
+    }
+
+    int result = system(command->data);
+    free_string_buffer(command, 1);
+
+    if (!result) return 0;
+    int exit_code = (result >> 8) & 0xff;
+    return exit_code ? exit_code : 1; // The exit code is zero if the command was killed by a signal
+}
+
 static void add_include_path(char *path) {
     int len = strlen(path);
     if (!len) simple_error("Invalid include path");
@@ -241,13 +272,13 @@ int main(int argc, char **argv) {
                 argc--;
                 argv++;
             }
-            else if (argc > 0 && !memcmp(argv[0], "-c", 2)) {
+            else if (argc > 0 && !strcmp(argv[0], "-c")) {
                 run_linker = 0;
                 single_target = 1;
                 argc--;
                 argv++;
             }
-            else if (argc > 0 && !memcmp(argv[0], "-E", 2)) {
+            else if (argc > 0 && !strcmp(argv[0], "-E")) {
                 run_compiler = 0;
                 run_assembler = 0;
                 run_linker = 0;
@@ -255,11 +286,17 @@ int main(int argc, char **argv) {
                 argc--;
                 argv++;
             }
-            else if (argc > 1 && !memcmp(argv[0], "-o", 2)) {
+            else if (argc > 1 && !strcmp(argv[0], "-o")) {
                 output_filename = argv[1];
                 argc -= 2;
                 argv += 2;
             }
+            else if (argv[0][0] == '-' && argv[0][1] == 'o' && argv[0][2]) {
+                // -o...
+                output_filename = &(argv[0][2]);
+                argc--;
+                argv++;
+            }
             else if (argc > 1 && !strcmp(argv[0], "-D")) {
                 // -D ...
                 append_to_list(directive_cli_strings, argv[1]);
@@ -309,7 +346,7 @@ int main(int argc, char **argv) {
                 argv++;
             }
             else if (argc > 0 && !strncmp(argv[0], "-Wl,", 4)) {
-                append_to_list(extra_linker_args, &(argv[0][4]));
+                append_to_list(extra_linker_args, argv[0]);
                 argc -= 1;
                 argv += 1;
             }
@@ -467,8 +504,6 @@ int main(int argc, char **argv) {
         exit(1);
     }
 
-    char *command = wmalloc(1024 * 100);
-
     List *compiler_input_filenames = new_list(input_filenames->length);
     char **assembler_input_filenames = wcalloc(input_filenames->length, sizeof(char *));
     char **linker_input_filenames = wcalloc(input_filenames->length, sizeof(char *));
@@ -505,6 +540,7 @@ int main(int argc, char **argv) {
             !run_assembler && !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(input_filename, "s"))
             : make_temp_filename("/tmp/XXXXXX.s");
 
+        if (run_assembler) remove_file_at_exit(compiler_output_filename);
         if (print_filenames) printf("Compiling %s to %s\n", input_filename, compiler_output_filename);
 
         compile(preprocessor_output, input_filename, compiler_output_filename);
@@ -531,18 +567,21 @@ int main(int argc, char **argv) {
             if (!input_filename) continue;
 
             char *assembler_output_filename =
-                !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(single_target ? input_filenames->elements[0] : input_filename, "o"))
+                !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(input_filenames->elements[i], "o"))
                 : make_temp_filename("/tmp/XXXXXX.o");
 
+            if (run_linker) remove_file_at_exit(assembler_output_filename);
             if (print_filenames) printf("Assembling %s to %s\n", input_filename, assembler_output_filename);
 
-            sprintf(command, "%s -64 %s -o %s", get_as_binary(), input_filename, assembler_output_filename);
-            if (verbose) {
-                sprintf(command, "%s %s", command, "-v");
-                printf("%s\n", command);
-            }
-            int result = system(command);
-            if (result != 0) exit(result >> 8);
+            StringBuffer *command = new_string_buffer(128);
+            append_to_string_buffer(command, get_as_binary());
+            append_to_string_buffer(command, " -64");
+            append_argument(command, input_filename);
+            append_to_string_buffer(command, " -o");
+            append_argument(command, assembler_output_filename);
+
+            exit_code = run_command(command, verbose);
+            if (exit_code) exit(exit_code);
 
             if (run_linker)
                 linker_input_filenames[i] = assembler_output_filename;
@@ -559,45 +598,37 @@ int main(int argc, char **argv) {
 
     // Linker phase
     if (run_linker) {
-        char *filenames = wmalloc(1024 * 100);
-        char *s = filenames;
+        StringBuffer *command = new_string_buffer(128);
+        append_to_string_buffer(command, "gcc");
+
+        if (print_filenames) printf("Running linker on");
         for (int i = 0; i < input_filenames->length; i++) {
             char *filename = linker_input_filenames[i];
-            if (filename) s += sprintf(s, " %s", (char *) filename);
+            if (!filename) continue;
+            if (print_filenames) printf(" %s", filename);
+            append_argument(command, filename);
         }
-        if (print_filenames) printf("Running linker on%s\n", filenames);
-
-        s = command;
-        s += sprintf(s, "gcc%s", filenames);
-        wfree(filenames);
+        if (print_filenames) printf("\n");
 
-        for (CliLibraryPath *cli_library_path = cli_library_paths; cli_library_path; cli_library_path = cli_library_path->next)
-            s += sprintf(s, " -L %s", cli_library_path->path);
+        for (CliLibraryPath *cli_library_path = cli_library_paths; cli_library_path; cli_library_path = cli_library_path->next) {
+            append_to_string_buffer(command, " -L");
+            append_argument(command, cli_library_path->path);
+        }
 
-        for (CliLibrary *cli_library = cli_libraries; cli_library; cli_library = cli_library->next)
-            s += sprintf(s, " -l %s", cli_library->library);
+        for (CliLibrary *cli_library = cli_libraries; cli_library; cli_library = cli_library->next) {
+            append_to_string_buffer(command, " -l");
+            append_argument(command, cli_library->library);
+        }
 
-        char *linker_output_filename = output_filename ? output_filename : "a.out";
-        s += sprintf(s, " -o %s", linker_output_filename);
+        append_to_string_buffer(command, " -o");
+        append_argument(command, output_filename ? output_filename : "a.out");
 
-        if (shared) s += sprintf(s, " -shared");
+        if (shared) append_to_string_buffer(command, " -shared");
 
         for (int i = 0; i < extra_linker_args->length; i++)
-            s += sprintf(s, " -Wl,%s", (char *) extra_linker_args->elements[i]);
-
-        if (verbose) {
-            s += sprintf(s, " -v");
-            *s = 0;
-            printf("%s\n", command);
-        }
-
-        *s = 0;
+            append_argument(command, extra_linker_args->elements[i]);
 
-        int result = system(command);
-        if (result != 0) {
-            exit_code = result >> 8;
-            goto exit_main;
-        }
+        exit_code = run_command(command, verbose);
     }
 
 
@@ -618,7 +649,6 @@ exit_main:
 
     free_list(input_filenames);
 
-    wfree(command);
     free_list(extra_linker_args);
     free_list(directive_cli_strings);
 
-- 
2.43.0


From 36c12f28625ab5207bb86e8ea6383c27d440484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 56/89] fix: quotes and backslashes in filenames

---
 codegen.c | 16 ++++++++++++----
 cpp.c     | 19 +++++++++++++++----
 utils.c   | 13 +++++++++++++
 wcc.h     |  1 +
 4 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index 8c25350..bc3c9dd 100644
--- a/codegen.c
+++ b/codegen.c
@@ -763,7 +763,9 @@ static void output_debug_loc(Tac *tac) {
         if (!id) {
             id = ++debug_string_counter;
             strmap_put(debug_strings, wstrdup(tac->origin->filename), (void *) (long) id);
-            fprintf(f, "    .file       %d \"%s\"\n", id, tac->origin->filename);
+            char *filename = escape_filename(tac->origin->filename);
+            fprintf(f, "    .file       %d \"%s\"\n", id, filename);
+            wfree(filename);
         }
 
         if (id != last_outputted_filename_id || tac->origin->line_number != last_outputted_filename_line_number) {
@@ -911,9 +913,13 @@ void output_debug_sections(char *input_filename) {
     fprintf(f, ".Ldebug_info.producer:\n");
     fprintf(f, "    .string  \"wcc\"\n");
     fprintf(f, ".Ldebug_info.filename:\n");
-    fprintf(f, "    .string  \"%s\"\n", input_filename);
+    char *filename = escape_filename(input_filename);
+    fprintf(f, "    .string  \"%s\"\n", filename);
+    wfree(filename);
     fprintf(f, ".debug_info.cwd:\n");
-    fprintf(f, "    .string  \"%s\"\n", cwd);
+    filename = escape_filename(cwd);
+    fprintf(f, "    .string  \"%s\"\n", filename);
+    wfree(filename);
 
     // Output debug_line section. There's nothing much here, the assembler populates
     // this with information from the .loc lines.
@@ -927,7 +933,9 @@ void output_debug_sections(char *input_filename) {
 void output_code(char *input_filename, char *output_filename) {
     f = open_output_file(output_filename);
 
-    fprintf(f, "    .file   \"%s\"\n", input_filename);
+    char *filename = escape_filename(input_filename);
+    fprintf(f, "    .file   \"%s\"\n", filename);
+    wfree(filename);
 
     // Output symbols
     elf_section = SEC_NONE;
diff --git a/cpp.c b/cpp.c
index 514b34e..beb62de 100644
--- a/cpp.c
+++ b/cpp.c
@@ -123,12 +123,18 @@ static void init_cpp_from_fh(FILE *f, char *path) {
     state.conditional_include_stack = wcalloc(1, sizeof(ConditionalInclude));
 }
 
+// The current filename, as it is in a string literal. A filename in a #line directive already is.
+static char *quoted_filename(void) {
+    return state.override_filename ? wstrdup(state.override_filename) : escape_filename(state.filename);
+}
+
 static void output_line_directive(int offset, int add_eol, CppToken *token) {
     if (!token) return;
 
     char *buf;
-    char *filename = state.override_filename ? state.override_filename : state.filename;
+    char *filename = quoted_filename();
     wasprintf(&buf, "# %d \"%s\"%s", state.line_number_offset + token->line_number + offset, filename, add_eol ? "\n" : "");
+    wfree(filename);
     append_to_string_buffer(output, buf);
     wfree(buf);
 }
@@ -162,8 +168,10 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
 
     cpp_next();
 
+    char *escaped_filename = escape_filename(filename);
     append_to_string_buffer(output, "# 1 \"");
-    append_to_string_buffer(output, filename);
+    append_to_string_buffer(output, escaped_filename);
+    wfree(escaped_filename);
     append_to_string_buffer(output, "\"");
     if (!first_file) append_to_string_buffer(output, " 1");
     append_to_string_buffer(output, "\n");
@@ -274,7 +282,9 @@ static void add_builtin_directive(char *identifier, DirectiveRenderer renderer)
 
 static CppToken *render_file(CppToken *directive_token) {
     CppToken *result = new_cpp_token(CPP_TOK_STRING_LITERAL);
-    wasprintf(&(result->str), "\"%s\"", state.override_filename ? state.override_filename : state.filename);
+    char *filename = quoted_filename();
+    wasprintf(&(result->str), "\"%s\"", filename);
+    wfree(filename);
     return result;
 }
 
@@ -1462,8 +1472,9 @@ static void parse_include() {
     cur_filename = state.filename;
 
     char *buf;
-    char *filename = state.override_filename ? state.override_filename : state.filename;
+    char *filename = quoted_filename();
     wasprintf(&buf, "# %d \"%s\" 2", state.line_number_offset + state.line_number + 1, filename);
+    wfree(filename);
     append_to_string_buffer(output, buf);
     wfree(buf);
 }
diff --git a/utils.c b/utils.c
index f9b8b25..57d546f 100644
--- a/utils.c
+++ b/utils.c
@@ -107,6 +107,19 @@ int debug_log(char *format, ...) {
     printf("\n");
 }
 
+// Make a copy of a filename that can be put in a string literal
+char *escape_filename(char *filename) {
+    char *result = wmalloc(strlen(filename) * 2 + 1);
+    char *p = result;
+    for (; *filename; filename++) {
+        if (*filename == '"' || *filename == '\\') *p++ = '\\';
+        *p++ = *filename;
+    }
+    *p = 0;
+
+    return result;
+}
+
 typedef struct file_to_remove {
     char *filename;
     struct file_to_remove *next;
diff --git a/wcc.h b/wcc.h
index 304e969..da6f26f 100644
--- a/wcc.h
+++ b/wcc.h
@@ -904,6 +904,7 @@ void panic(char *format, ...);
 
 char *base_path(char *path);
 int wasprintf(char **ret, const char *format, ...);
+char *escape_filename(char *filename);
 void remove_file_at_exit(char *filename);
 FILE *open_output_file(char *filename);
 void close_output_file(FILE *f, char *filename);
-- 
2.43.0


From 194210b86c290aafe1c649d9910a38ac285e20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 57/89] fix: subtraction with an array operand scales by the
 element size

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index c73bb20..5e67e4e 100644
--- a/parser.c
+++ b/parser.c
@@ -2065,11 +2065,13 @@ static void parse_addition(int level, int for_array_subscript) {
 }
 
 static void parse_subtraction(int level) {
+    if (vtop()->type->type == TYPE_ARRAY) push(decay_array_value(pl()));
     Value *src1 = vtop();
 
     int factor = get_type_inc_dec_size(vtop()->type);
 
     parse_expression(level);
+    if (vtop()->type->type == TYPE_ARRAY) push(decay_array_value(pl()));
     Value *src2 = vtop();
 
     check_minus_operation_type(src1, src2);
-- 
2.43.0


From d45ff1615541ca9a813b9f5fd70037e19bbd04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 58/89] fix: address constants from cast arrays, reversed
 subscripts and elements of string literals

---
 constexpr.c | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 92b0175..d7d27ac 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -272,6 +272,18 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     return dst;
 }
 
+// Arrays with static storage and string literals decay into a pointer to their first element
+static void decay_constant_array(Value *value) {
+    if (value->type->type != TYPE_ARRAY) return;
+
+    if (value->is_string_literal)
+        value->type = decay_array_to_pointer(value->type);
+    else if (value->global_symbol) {
+        value->type = decay_array_to_pointer(value->type);
+        value->is_address_of = 1;
+    }
+}
+
 static Value *parse_unary_expression(int operation) {
     next();
     Value *value = parse_constant_expression(TOK_INC);
@@ -290,20 +302,9 @@ static Value *parse_unary_expression(int operation) {
     return result;
 }
 
-static void decay_global_array(Value *value) {
-    if (value->global_symbol && value->type->type == TYPE_ARRAY) {
-        value->type = decay_array_to_pointer(value->type);
-        value->is_address_of = 1;
-    }
-}
-
 static Value *parse_address_plus_minus(int operation, Value *value1, Value *value2) {
-    if (value1->is_string_literal) value1->type = decay_array_to_pointer(value1->type);
-    if (value2->is_string_literal) value2->type = decay_array_to_pointer(value2->type);
-
-    // Arrays with static storage decay into a pointer to their first element
-    decay_global_array(value1);
-    decay_global_array(value2);
+    decay_constant_array(value1);
+    decay_constant_array(value2);
 
     if (operation == IR_ADD) check_plus_operation_type(value1, value2, 0);
     else if (operation == IR_SUB) check_minus_operation_type(value1, value2);
@@ -449,7 +450,7 @@ Value *parse_constant_expression(int level) {
                 value->int_value += value->address_of_offset;
                 value->address_of_offset = 0;
             }
-            else
+            else if (!value->is_string_literal)
                 value->is_address_of = 1;
 
             // Hacky horror, only create a pointer unless it's already a pointer to a function
@@ -468,6 +469,7 @@ Value *parse_constant_expression(int level) {
                 Type *type = parse_type_name();
                 consume(TOK_RPAREN, ")");
                 value = parse_constant_expression(TOK_INC);
+                decay_constant_array(value);
                 value = cast_constant_value(value, type);
             }
             else {
@@ -533,12 +535,19 @@ Value *parse_constant_expression(int level) {
             case TOK_LBRACKET:
                 next();
 
-                if (value->type->type != TYPE_PTR && value->type->type != TYPE_ARRAY)
-                    error("Invalid operator [] on a non-pointer and non-array");
-
                 Value *subscript_value = parse_constant_expression(TOK_COMMA);
                 consume(TOK_RBRACKET, "]");
 
+                // Either operand may be the integer
+                if (is_integer_type(value->type)) {
+                    Value *tmp = value;
+                    value = subscript_value;
+                    subscript_value = tmp;
+                }
+
+                if (value->type->type != TYPE_PTR && value->type->type != TYPE_ARRAY)
+                    error("Invalid operator [] on a non-pointer and non-array");
+
                 if (!subscript_value->is_constant || !is_integer_type(subscript_value->type))
                     error("Expected an integer constant integer expression in []");
 
-- 
2.43.0


From 1060f533066056be51bef0aa1cf4a432e5f1c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 59/89] fix: an enumerator in a constant expression isn't a
 global object

---
 constexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constexpr.c b/constexpr.c
index d7d27ac..f79fa46 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -512,7 +512,7 @@ Value *parse_constant_expression(int level) {
             else
                 value = make_symbol_value(symbol);
 
-            value->global_symbol = symbol;
+            if (!symbol->is_enum_value) value->global_symbol = symbol;
 
             break;
         }
-- 
2.43.0


From 11f42f042545923f2ccbb4c27948100923dda2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 60/89] fix: a block scope declaration of a function renamed
 with __asm__

---
 parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 5e67e4e..b6e6859 100644
--- a/parser.c
+++ b/parser.c
@@ -2137,7 +2137,9 @@ static void parse_declaration(void) {
         symbol = new_symbol(cur_type_identifier);
         symbol->type = dup_type(type);
         symbol->linkage = LINKAGE_EXPLICIT_EXTERNAL;
-        symbol->global_identifier = cur_type_identifier;
+        // The identifier may have been replaced with __asm__ in a declaration in the global scope
+        Symbol *global_symbol = lookup_symbol(cur_type_identifier, global_scope, 0);
+        symbol->global_identifier = global_symbol && global_symbol->global_identifier ? global_symbol->global_identifier : cur_type_identifier;
     }
     else {
         symbol = new_symbol(cur_type_identifier);
-- 
2.43.0


From 3c073c315909e32cfc9f082e8eee9427a223e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 61/89] fix: repeated and incomplete extern declarations in a
 block

---
 parser.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index b6e6859..ae71356 100644
--- a/parser.c
+++ b/parser.c
@@ -2116,7 +2116,16 @@ static void parse_declaration(void) {
 
     if (!cur_type_identifier) error("Expected an identifier");
 
-    if (lookup_symbol(cur_type_identifier, cur_scope, 0)) error("Identifier redeclared: %s", cur_type_identifier);
+    symbol = lookup_symbol(cur_type_identifier, cur_scope, 0);
+    int is_extern = base_type->storage_class == SC_EXTERN || base_type->storage_class == SC_NONE && type->type == TYPE_FUNCTION;
+
+    if (symbol && symbol->linkage == LINKAGE_EXPLICIT_EXTERNAL && is_extern && types_are_compatible(type, symbol->type)) {
+        // The same object or function may be declared more than once
+        symbol->type = composite_type(type, symbol->type);
+        return;
+    }
+
+    if (symbol) error("Identifier redeclared: %s", cur_type_identifier);
 
     if (base_type->storage_class == SC_STATIC) {
         symbol = new_symbol(cur_type_identifier);
@@ -2181,7 +2190,7 @@ static void parse_declaration(void) {
     }
 
     // If it's not initialized and incomplete, bail.
-    else if (is_incomplete_type(symbol->type))
+    else if (!is_extern && is_incomplete_type(symbol->type))
         error("Storage size is unknown");
 }
 
-- 
2.43.0


From 3bc00a05967abf4af862b6eb42cd817437dc4492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 62/89] fix: an initialized redeclaration has the composite
 type and is a definition

---
 parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.c b/parser.c
index ae71356..775e20a 100644
--- a/parser.c
+++ b/parser.c
@@ -3640,6 +3640,15 @@ void parse(void) {
                     BaseType *old_base_type = base_type;
                     base_type = 0;
                     next();
+
+                    if (original_symbol) {
+                        if (!types_are_compatible(type, original_symbol->type)) error("Incompatible types");
+                        symbol->type = composite_type(type, original_symbol->type);
+                    }
+
+                    // A declaration with an initializer is a definition, even if it's declared extern
+                    if (linkage == LINKAGE_EXPLICIT_EXTERNAL) symbol->linkage = LINKAGE_IMPLICIT_EXTERNAL;
+
                     Value *v = make_global_symbol_value(symbol);
 
                     if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
-- 
2.43.0


From 80482ff5e77d8af8a6f6753dbfc9b9127110af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 63/89] fix: the definition of a function renamed with __asm__

---
 codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index bc3c9dd..8b9ecdd 100644
--- a/codegen.c
+++ b/codegen.c
@@ -978,7 +978,7 @@ void output_code(char *input_filename, char *output_filename) {
         if (symbol->type->type == TYPE_FUNCTION && symbol->function->is_defined &&
                 (symbol->linkage == LINKAGE_IMPLICIT_EXTERNAL || symbol->linkage == LINKAGE_EXPLICIT_EXTERNAL)) {
 
-            fprintf(f, "    .globl  %s\n", symbol->identifier);
+            fprintf(f, "    .globl  %s\n", symbol->global_identifier);
             fprintf(f, "    .type   %s, @function\n", symbol->global_identifier);
         }
     }
@@ -996,7 +996,7 @@ void output_code(char *input_filename, char *output_filename) {
     for (int i = 0; i < global_scope->symbol_list->length; i++) {
         Symbol *symbol = global_scope->symbol_list->elements[i];
         if (symbol->type->type == TYPE_FUNCTION && symbol->function->is_defined) {
-            fprintf(f, "%s:\n", symbol->identifier);
+            fprintf(f, "%s:\n", symbol->global_identifier);
             fprintf(f, ".L%s.start:\n", symbol->identifier);
             output_function_body_code(symbol);
             fprintf(f, "    .size       %s, .-%s\n", symbol->global_identifier, symbol->global_identifier);
-- 
2.43.0


From b25b998db600e621e3b52b45aef4c086df3168ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 64/89] fix: calls of functions returning a pointer to a long
 double

---
 instrrules.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instrrules.c b/instrrules.c
index 0728000..492e391 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1633,6 +1633,7 @@ void define_rules(void) {
     r = add_rule(XRI,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRU,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RPF,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS4,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
@@ -1644,7 +1645,9 @@ void define_rules(void) {
     r = add_rule(XRU,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRU,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS4,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
-- 
2.43.0


From 37c82d2837c85dbd819d58ac44f54a0f68b72de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 65/89] fix: a typedef name redeclared after signed or unsigned

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 775e20a..cecf3b4 100644
--- a/parser.c
+++ b/parser.c
@@ -487,7 +487,7 @@ static BaseType *parse_declaration_specifiers() {
                 // If a typedef type has been encountered by the lexer and a type already
                 // exists, then it's not a typedef type, but a redefinition of a typedef
                 // type.
-                if (!type) {
+                if (!type && !seen_signed && !seen_unsigned) {
                     seen_typedef++;
                     type = dup_type(cur_lexer_type);
                     next();
-- 
2.43.0


From 92071e064459de83fadf67611ed18141bd6c183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 66/89] fix: long double spelled with the specifiers in another
 order

---
 parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.c b/parser.c
index cecf3b4..e66adbb 100644
--- a/parser.c
+++ b/parser.c
@@ -516,6 +516,11 @@ static BaseType *parse_declaration_specifiers() {
 
     if (seen_long == 2) seen_long = 1;
     else if (seen_long > 2) error("Too many longs in type specifier");
+    if (seen_long == 1 && seen_double == 1) {
+        seen_long = seen_double = 0;
+        seen_long_double++;
+        type = new_type(TYPE_LONG_DOUBLE);
+    }
     if (seen_int && seen_long) {
         seen_int = 0;
         type = new_type(TYPE_LONG);
-- 
2.43.0


From 33c6590a9b2dd729ac5567d8507857975fb98f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 67/89] fix: typedef names redeclared as enumerators or used as
 members

---
 parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index e66adbb..de389cf 100644
--- a/parser.c
+++ b/parser.c
@@ -1043,7 +1043,8 @@ static Type *parse_enum_type_specifier(void) {
         int value = 0;
 
         while (cur_token != TOK_RCURLY) {
-            expect(TOK_IDENTIFIER, "identifier");
+            // A typedef in an outer scope can be redeclared as an enum value
+            if (cur_token != TOK_TYPEDEF_TYPE) expect(TOK_IDENTIFIER, "identifier");
             char *enum_value_identifier = parser_wstrdup(cur_identifier);
             next();
             if (cur_token == TOK_EQ) {
@@ -2484,6 +2485,8 @@ void parse_struct_dot_arrow_expression(void) {
     int is_dot = cur_token == TOK_DOT;
 
     next();
+    // A member can have the same name as a typedef
+    if (cur_token == TOK_TYPEDEF_TYPE) cur_token = TOK_IDENTIFIER;
     consume(TOK_IDENTIFIER, "identifier");
 
     Type *str_type = is_dot ? vtop()->type : vtop()->type->target;
-- 
2.43.0


From 29c675b33a74f692526056dd6efd5c755a0f8dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 68/89] fix: a use of an enum tag declared a new tag

---
 parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index de389cf..fdd049e 100644
--- a/parser.c
+++ b/parser.c
@@ -1024,12 +1024,14 @@ static Type *parse_enum_type_specifier(void) {
     // sees a typedef tag, but really it's a struct tag.
     if (cur_token == TOK_IDENTIFIER || cur_token == TOK_TYPEDEF_TYPE) {
         identifier = parser_wstrdup(cur_identifier);
+        next();
+    }
 
-        Tag *tag = new_tag(parser_wstrdup(cur_identifier));
+    // A use of an enum must not hide the tag it refers to
+    if (identifier && (cur_token == TOK_LCURLY || !lookup_tag(identifier, cur_scope, 1))) {
+        Tag *tag = new_tag(identifier);
         tag->type = type;
         type->tag = tag;
-
-        next();
     }
     else
         type->tag = 0;
-- 
2.43.0


From 9e5036973a8f1884520b03b95072a40c18dab8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 69/89] fix: struct tag; in an inner scope declares a new tag

---
 parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index fdd049e..876d2b7 100644
--- a/parser.c
+++ b/parser.c
@@ -997,7 +997,8 @@ static Type *parse_struct_or_union_type_specifier(void) {
         // Struct/union use
         if (!identifier) error("Expected a struct or union tag or {");
 
-        Type *type = find_struct_or_union(identifier, is_union, 1);
+        // A declaration without declarators declares the tag in the current scope
+        Type *type = find_struct_or_union(identifier, is_union, cur_token != TOK_SEMI);
         if (type) return type; // Found a complete or incomplete struct
 
         // Didn't find a struct, but that's ok, create a incomplete one
-- 
2.43.0


From f87d51bf0edd6b8b4b03e3edd6fdec1e8fc860c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 70/89] fix: parenthesized parameter lists in abstract
 declarators

---
 parser.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index 876d2b7..f8e326d 100644
--- a/parser.c
+++ b/parser.c
@@ -616,6 +616,9 @@ static Type *concat_base_type(Type *type, BaseType *base_type) {
 
 Type *parse_direct_declarator(void);
 
+// Set when parsing a declarator that may be abstract
+static int declarator_may_be_abstract;
+
 Type *parse_declarator(void) {
     Type *type = 0;
 
@@ -781,10 +784,16 @@ Type *parse_direct_declarator(void) {
     }
 
     else if (cur_token == TOK_LPAREN) {
-        // (subtype)
         next();
-        type = concat_types(type, parse_declarator());
-        consume(TOK_RPAREN, ")");
+        if (!cur_type_identifier && declarator_may_be_abstract && (cur_token == TOK_RPAREN || cur_token_is_type())) {
+            // The parentheses in an abstract declarator enclose parameters
+            type = parse_function_type();
+        }
+        else {
+            // (subtype)
+            type = concat_types(type, parse_declarator());
+            consume(TOK_RPAREN, ")");
+        }
     }
 
     while (1) {
@@ -816,7 +825,10 @@ Type *parse_direct_declarator(void) {
 Type *parse_type_name(void) {
     BaseType *base_type = parse_declaration_specifiers();
     base_type->type->storage_class = base_type->storage_class;
+    int old_declarator_may_be_abstract = declarator_may_be_abstract;
+    declarator_may_be_abstract = 1;
     Type *result = concat_types(parse_declarator(), base_type->type);
+    declarator_may_be_abstract = old_declarator_may_be_abstract;
     wfree(base_type);
     return result;
 }
-- 
2.43.0


From 46226ad4b3fce4f9c0caebff95e5c065a152afeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 71/89] fix: typedef is a storage class that may follow other
 specifiers, and declarations end at the semicolon

---
 parser.c | 37 +++++++++++++++++++++++++++----------
 wcc.h    |  1 +
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/parser.c b/parser.c
index f8e326d..b2a0618 100644
--- a/parser.c
+++ b/parser.c
@@ -407,7 +407,7 @@ void parse_attributes(void) {
 }
 
 // Parse
-// - storage-class-specifiers: auto, register, static, extern
+// - storage-class-specifiers: typedef, auto, register, static, extern
 // - type-specifiers: void, int, signed, unsigned, ... long, double, struct, union
 // - type-qualifiers: const, volatile
 // - typedef type names
@@ -437,6 +437,7 @@ static BaseType *parse_declaration_specifiers() {
     int seen_register = 0;
     int seen_static = 0;
     int seen_extern = 0;
+    int seen_typedef_storage_class = 0;
 
     int seen_typedef = 0;
     int seen_struct = 0;
@@ -507,6 +508,7 @@ static BaseType *parse_declaration_specifiers() {
             case TOK_REGISTER: next(); seen_register++; break;
             case TOK_STATIC:   next(); seen_static++; break;
             case TOK_EXTERN:   next(); seen_extern++; break;
+            case TOK_TYPEDEF:  next(); seen_typedef_storage_class++; break;
 
             case TOK_ATTRIBUTE: parse_attributes(); break;
 
@@ -551,7 +553,7 @@ static BaseType *parse_declaration_specifiers() {
     if (!is_integer_type && (seen_signed || seen_unsigned))
         error("Signed/unsigned can only apply to integer types");
 
-    if ((seen_auto + seen_register + seen_static + seen_extern > 1))
+    if ((seen_auto + seen_register + seen_static + seen_extern + seen_typedef_storage_class > 1))
         error("Duplicate storage class specifiers");
 
     BaseType *base_type = wmalloc(sizeof(BaseType));
@@ -562,6 +564,7 @@ static BaseType *parse_declaration_specifiers() {
     if (seen_static) base_type->storage_class = SC_STATIC;
     if (seen_auto) base_type->storage_class = SC_AUTO;
     if (seen_register) base_type->storage_class = SC_REGISTER;
+    if (seen_typedef_storage_class) base_type->storage_class = SC_TYPEDEF;
 
     if (seen_restrict) type->is_restrict = 1;
 
@@ -666,7 +669,7 @@ static Type *parse_function_type(void) {
                 type = parse_type_name();
                 function_type->function->is_paramless = 0;
 
-                if (type->storage_class == SC_AUTO || type->storage_class == SC_STATIC || type->storage_class == SC_EXTERN)
+                if (type->storage_class == SC_AUTO || type->storage_class == SC_STATIC || type->storage_class == SC_EXTERN || type->storage_class == SC_TYPEDEF)
                     error("Invalid storage for function parameter");
             }
             else {
@@ -1094,12 +1097,8 @@ static Type *parse_enum_type_specifier(void) {
     return type;
 }
 
-void parse_typedef(void) {
-    next();
-
-    BaseType *base_type_with_storage_class = parse_declaration_specifiers(0);
-    Type *base_type = base_type_with_storage_class->type;
-
+// Parse the declarators in a typedef
+static void parse_typedef_declarators(Type *base_type) {
     while (cur_token != TOK_SEMI && cur_token != TOK_EOF) {
         cur_type_identifier = 0;
 
@@ -1121,8 +1120,14 @@ void parse_typedef(void) {
         if (cur_token != TOK_SEMI) consume(TOK_COMMA, ",");
         if (cur_token == TOK_SEMI) break;
     }
+}
 
-    wfree(base_type_with_storage_class);
+void parse_typedef(void) {
+    next();
+
+    BaseType *base_type = parse_declaration_specifiers();
+    parse_typedef_declarators(base_type->type);
+    wfree(base_type);
 }
 
 // A constant address must be in a register for it to be dereferenced
@@ -3403,8 +3408,13 @@ static void parse_statement(void) {
         else if (cur_token == TOK_COLON && is_typedef)
             // Special case for a typedef used as a labelled statement
             parse_label_statement(identifier);
+        else if (base_type->storage_class == SC_TYPEDEF)
+            parse_typedef_declarators(base_type->type);
         else
             parse_expression(TOK_COMMA);
+
+        // What follows, such as the condition of a do-while, isn't part of the declaration
+        if (base_type) free_and_null(base_type);
     }
 
     else switch (cur_token) {
@@ -3617,6 +3627,13 @@ void parse(void) {
             else
                 base_type = parse_declaration_specifiers();
 
+            if (base_type->storage_class == SC_TYPEDEF) {
+                parse_typedef_declarators(base_type->type);
+                wfree(base_type);
+                consume(TOK_SEMI, ";");
+                continue;
+            }
+
             while (cur_token != TOK_SEMI && cur_token != TOK_EOF) {
                 cur_type_identifier = 0;
 
diff --git a/wcc.h b/wcc.h
index da6f26f..cb2ee5e 100644
--- a/wcc.h
+++ b/wcc.h
@@ -139,6 +139,7 @@ enum {
     SC_STATIC,
     SC_AUTO,
     SC_REGISTER,
+    SC_TYPEDEF,
 };
 
 typedef struct list {
-- 
2.43.0


From 6eb11dc6c47de15f6db7006567d42a815f1905bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 72/89] fix: check conversions of structs, unions, pointers and
 floating point values

---
 parser.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/parser.c b/parser.c
index b2a0618..77a2ea8 100644
--- a/parser.c
+++ b/parser.c
@@ -1656,9 +1656,24 @@ Value *load_function(Value *src, Type *dst_type) {
     return src;
 }
 
+// Check the value can be converted to the type at all.
+static void check_conversion(Value *src, Type *dst_type) {
+    Type *src_type = src->type;
+
+    int src_is_struct_or_union = src_type->type == TYPE_STRUCT_OR_UNION;
+    int dst_is_struct_or_union = dst_type->type == TYPE_STRUCT_OR_UNION;
+    int src_is_pointer = is_pointer_type(src_type) || src_type->type == TYPE_FUNCTION;
+
+    if (src_is_struct_or_union != dst_is_struct_or_union) error("Incompatible types");
+    if (src_is_struct_or_union && !types_are_compatible_ignore_qualifiers(dst_type, src_type)) error("Incompatible types");
+    if (is_pointer_type(dst_type) && is_floating_point_type(src_type)) error("Unable to convert a floating point value to a pointer");
+    if (src_is_pointer && is_floating_point_type(dst_type)) error("Unable to convert a pointer to a floating point value");
+}
+
 // Add type change move if necessary and return the dst value
 Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
     if (dst_type->type == TYPE_FUNCTION) error("Function type mismatch");
+    check_conversion(src, dst_type);
 
     int dst_is_function = is_pointer_to_function_type(dst_type)  || dst_type->type == TYPE_FUNCTION;
     int src_is_function = is_pointer_to_function_type(src->type) || src->type->type == TYPE_FUNCTION;
@@ -1837,6 +1852,8 @@ static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
         return;
     }
 
+    if (scalar) check_conversion(scalar, dst->type);
+
     add_initializer_padding(s, offset);
 
     Initializer *in = wcalloc(1, sizeof(Initializer));
@@ -2823,6 +2840,8 @@ static void parse_expression(int level) {
                     parse_expression(TOK_INC);
                     Value *v1 = pl();
 
+                    if (dst_type->type != TYPE_VOID) check_conversion(v1, dst_type);
+
                     if (dst_type->type == TYPE_VOID)
                         push_void();
 
-- 
2.43.0


From fc02868e61eb54fe7e7dfde939b21d0ccedcfb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 73/89] fix: reject arithmetic on pointers to incomplete types
 and ++ and -- on non scalars

---
 parser.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parser.c b/parser.c
index 77a2ea8..26f456f 100644
--- a/parser.c
+++ b/parser.c
@@ -1452,6 +1452,13 @@ static void arithmetic_operation(int operation, Type *dst_type) {
     add_ir_op(operation, dst_type, new_vreg(), src1, src2);
 }
 
+// Pointers to incomplete structs & unions don't have arithmetic, since the size is unknown
+static void check_pointer_arithmetic(Value *value) {
+    if (!is_pointer_type(value->type)) return;
+    Type *target = value->type->target;
+    if (target->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(target)) error("Arithmetic on a pointer to an incomplete type");
+}
+
 void check_plus_operation_type(Value *src1, Value *src2, int for_array_subscript) {
     int src1_is_pointer = is_pointer_to_object_type(src1->type);
     int src1_is_integer = is_integer_type(src1->type);
@@ -1460,6 +1467,9 @@ void check_plus_operation_type(Value *src1, Value *src2, int for_array_subscript
     int src2_is_integer = is_integer_type(src2->type);
     int src2_is_arithmetic = is_arithmetic_type(src2->type);
 
+    check_pointer_arithmetic(src1);
+    check_pointer_arithmetic(src2);
+
     // Either both operands shall have arithmetic type, or one operand shall be a
     // pointer to an object type and the other shall have integral type.
 
@@ -1476,6 +1486,9 @@ void check_minus_operation_type(Value *src1, Value *src2) {
     int src2_is_integer = is_integer_type(src2->type);
     int src2_is_arithmetic = is_arithmetic_type(src2->type);
 
+    check_pointer_arithmetic(src1);
+    check_pointer_arithmetic(src2);
+
     // One of the following shall hold:
     // * both operands have arithmetic type;
     // * both operands are pointers to qualified or unqualified versions of compatible object types; or
@@ -2754,6 +2767,8 @@ static void parse_expression(int level) {
             parse_expression(TOK_DOT);
 
             if (!vtop()->is_lvalue) error("Cannot ++ or -- an rvalue");
+            if (!is_scalar_type(vtop()->type)) error("Cannot prefix ++ or -- on a non scalar");
+            check_pointer_arithmetic(vtop());
             if (!type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
             Value *v1 = pop();                 // lvalue
@@ -2961,6 +2976,7 @@ static void parse_expression(int level) {
 
                 if (!vtop()->is_lvalue) error("Cannot ++ or -- an rvalue");
                 if (!is_scalar_type(vtop()->type)) error("Cannot postfix ++ or -- on a non scalar");
+                check_pointer_arithmetic(vtop());
                 if (!type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
                 Value *v1 = pop();                 // lvalue
-- 
2.43.0


From cb944caa6e5643ce68c62052968f8dc10f182e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 74/89] fix: check both operands of && and ||, and comparisons
 of pointers with floating point values

---
 parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 26f456f..56d1d68 100644
--- a/parser.c
+++ b/parser.c
@@ -1507,8 +1507,9 @@ void check_bitwise_shift_operation_type(Value *src1, Value *src2) {
 }
 
 void check_and_or_operation_type(Value *src1, Value *src2) {
-    if (!is_scalar_type(src2->type)) error("Invalid operands to &&/||");
-    if (!is_scalar_type(src2->type)) error("Invalid operands to &&/||");
+    // Arrays and functions decay to pointers
+    if (src1->type->type == TYPE_STRUCT_OR_UNION || src1->type->type == TYPE_VOID) error("Invalid operands to &&/||");
+    if (src2->type->type == TYPE_STRUCT_OR_UNION || src2->type->type == TYPE_VOID) error("Invalid operands to &&/||");
 }
 
 void check_unary_operation_type(int operation, Value *value) {
@@ -1561,6 +1562,9 @@ void check_binary_operation_types(int operation, Value *src1, Value *src2) {
             (!(src1_is_pointer && src2_is_pointer && is_incomplete_type(src1_type_deref) && is_incomplete_type(src2_type_deref) && types_are_compatible_ignore_qualifiers(src1_type_deref, src2_type_deref)))
         )
             error("Invalid operands to relational operator");
+
+        if ((src1_is_pointer && is_floating_point_type(src2->type)) || (src2_is_pointer && is_floating_point_type(src1->type)))
+            error("Invalid operands to relational operator");
     }
 
     if (operation == IR_EQ || operation == IR_NE) {
-- 
2.43.0


From 5a7b6c151ff821775f1d79d0a06b45cb73724a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 75/89] fix: reject invalid array, function and member types
 and parameters

---
 parser.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 56d1d68..3950247 100644
--- a/parser.c
+++ b/parser.c
@@ -601,11 +601,15 @@ static Type *concat_types(Type *type1, Type *type2) {
 
     if (type1_tail->type == TYPE_FUNCTION && type2->type == TYPE_ARRAY)
         error("Functions cannot return arrays");
+    if (type1_tail->type == TYPE_FUNCTION && type2->type == TYPE_FUNCTION)
+        error("Functions cannot return functions");
 
     // Check arrays have complete elements
     if (type1_tail->type == TYPE_ARRAY) {
         if (type2->type == TYPE_STRUCT_OR_UNION && !get_type_size(type2))
             error("Array has incomplete element type");
+        if (type2->type == TYPE_VOID) error("Array has incomplete element type");
+        if (type2->type == TYPE_FUNCTION) error("Array elements cannot be functions");
     }
 
     return move_array_const(type1);
@@ -679,6 +683,7 @@ static Type *parse_function_type(void) {
             }
 
             if (type->type == TYPE_VOID) {
+                if (param_count || cur_type_identifier) error("A parameter cannot be of type void");
                 cur_type_identifier = old_cur_type_identifier;
                 break;
             }
@@ -713,6 +718,7 @@ static Type *parse_function_type(void) {
         else if (cur_token == TOK_ELLIPSES) {
             function_type->function->is_variadic = 1;
             next();
+            if (cur_token != TOK_RPAREN) error("Expected )");
         }
         else
             error("Expected type or )");
@@ -812,6 +818,7 @@ Type *parse_direct_declarator(void) {
             int size = 0;
             if (cur_token != TOK_RBRACKET) {
                 Value *v = parse_constant_integer_expression(0);
+                if (v->int_value < 0) error("The size of an array is negative");
                 size = v->int_value;
             }
 
@@ -964,7 +971,7 @@ static Type *parse_struct_or_union_type_specifier(void) {
 
                 Type *element_type = type;
                 while (element_type->type == TYPE_ARRAY) element_type = element_type->target;
-                if (is_incomplete_type(element_type)) error("Struct/union members cannot have an incomplete type");
+                if (is_incomplete_type(element_type) || element_type->type == TYPE_VOID) error("Struct/union members cannot have an incomplete type");
                 if (!is_zero_length_array && is_incomplete_type(type)) error("Struct/union members cannot have an incomplete type");
                 if (type->type == TYPE_FUNCTION) error("Struct/union members cannot have a function type");
 
@@ -3590,6 +3597,15 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
             if (!symbol->function->type->function->param_identifiers->elements[i])
                 error("Missing identifier for parameter in function definition");
 
+        // Ensure parameters have different identifiers
+        StrSet *param_identifiers = new_strset();
+        for (int i = 0; i < symbol->function->type->function->param_count; i++) {
+            char *identifier = symbol->function->type->function->param_identifiers->elements[i];
+            if (strset_in(param_identifiers, identifier)) error("Identifier redeclared: %s", identifier);
+            strset_add(param_identifiers, identifier);
+        }
+        free_strset(param_identifiers);
+
         // Ensure the sizes of the parameters and return value are known
         if (is_incomplete_type(type->target)) error("The return type of a function definition is incomplete");
         for (int i = 0; i < type->function->param_count; i++) {
-- 
2.43.0


From a95a0fc381d7275b948e1387cdb1ad4b2907f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 76/89] fix: reject redeclarations as typedefs, enumerators and
 enum tags, and void objects

---
 parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.c b/parser.c
index 3950247..0212b03 100644
--- a/parser.c
+++ b/parser.c
@@ -1051,6 +1051,8 @@ static Type *parse_enum_type_specifier(void) {
     }
 
     // A use of an enum must not hide the tag it refers to
+    Tag *original_tag = identifier ? lookup_tag(identifier, cur_scope, 0) : 0;
+    if (original_tag && original_tag->type->type != TYPE_ENUM) error("Tag %s is the wrong kind of tag", identifier);
     if (identifier && (cur_token == TOK_LCURLY || !lookup_tag(identifier, cur_scope, 1))) {
         Tag *tag = new_tag(identifier);
         tag->type = type;
@@ -1071,6 +1073,7 @@ static Type *parse_enum_type_specifier(void) {
             // A typedef in an outer scope can be redeclared as an enum value
             if (cur_token != TOK_TYPEDEF_TYPE) expect(TOK_IDENTIFIER, "identifier");
             char *enum_value_identifier = parser_wstrdup(cur_identifier);
+            if (lookup_symbol(enum_value_identifier, cur_scope, 0)) error("Identifier redeclared: %s", enum_value_identifier);
             next();
             if (cur_token == TOK_EQ) {
                 next();
@@ -1114,6 +1117,9 @@ static void parse_typedef_declarators(Type *base_type) {
 
         parse_attributes();
 
+        Symbol *original_symbol = lookup_symbol(cur_type_identifier, cur_scope, 0);
+        if (original_symbol && original_symbol->type->type != TYPE_TYPEDEF) error("Identifier redeclared: %s", cur_type_identifier);
+
         if (all_typedefs_count == MAX_TYPEDEFS) panic_with_line_number("Exceeded max typedefs");
         Typedef *td = wcalloc(1, sizeof(Typedef));
         td->identifier = cur_type_identifier;
@@ -1133,6 +1139,7 @@ void parse_typedef(void) {
     next();
 
     BaseType *base_type = parse_declaration_specifiers();
+    if (base_type->storage_class != SC_NONE) error("Duplicate storage class specifiers");
     parse_typedef_declarators(base_type->type);
     wfree(base_type);
 }
@@ -2218,6 +2225,8 @@ static void parse_declaration(void) {
         symbol->global_identifier = global_symbol && global_symbol->global_identifier ? global_symbol->global_identifier : cur_type_identifier;
     }
     else {
+        if (type->type == TYPE_VOID) error("Declaration of an object of type void");
+
         symbol = new_symbol(cur_type_identifier);
         symbol->type = dup_type(type);
         symbol->linkage = LINKAGE_NONE;
-- 
2.43.0


From a9a2aed8b0cb9a35d795761dee8f4fb058d72f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 77/89] fix: reject assignments to arrays and scalars
 initializing arrays and structs

---
 parser.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 0212b03..06275e5 100644
--- a/parser.c
+++ b/parser.c
@@ -1809,6 +1809,7 @@ static void add_simple_assignment_instruction(Value *dst, Value *src1, int enfor
 // Parse a simple assignment expression. The stack is the dst.
 static void parse_simple_assignment(int enforce_const) {
     if (!vtop()->is_lvalue) error("Cannot assign to an rvalue");
+    if (vtop()->type->type == TYPE_ARRAY) error("Cannot assign to an array");
     if (enforce_const && !type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
     Value *dst = pop();
@@ -1976,6 +1977,8 @@ static TypeIterator *initialize_with_string_literal(TypeIterator *it, Value *val
 // Parse an initializer for a variable. Anything that isn't in the initializer is zero: the caller has
 // taken care of that for variables with automatic storage.
 static TypeIterator *parse_initializer(TypeIterator *it, Value *value) {
+    static int curly_nesting_level = 0;
+
     parse_expression_function_type *parse_expr = value->global_symbol
         ? parse_constant_expression : parse_expression_and_pop;
 
@@ -1985,6 +1988,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value) {
         TypeIterator *outer_it = it;
 
         next();
+        curly_nesting_level++;
         if (cur_token == TOK_RCURLY) error("Empty array/struct/union initializer");
 
         // Loop over all comma separated expressions
@@ -2013,6 +2017,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value) {
 
             if (cur_token != TOK_RCURLY) consume(TOK_COMMA, ",");
         }
+        curly_nesting_level--;
         consume(TOK_RCURLY, "}");
 
         // Complete incomplete arrays
@@ -2047,9 +2052,12 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value) {
         while (!is_scalar_type(it->type) && !(it->type->type == TYPE_STRUCT_OR_UNION && types_are_compatible_ignore_qualifiers(it->type, src->type)))
             it = type_iterator_descend(it);
     }
-    else
+    else {
+        if (!curly_nesting_level && !is_scalar_type(it->type)) error("Invalid initializer");
+
         // Recurse to deepest scalar
         it = type_iterator_dig(it);
+    }
 
     initialize_value(it, value, it->offset, it->type, src);
 
@@ -2090,6 +2098,7 @@ Value *prep_comp_assign(void) {
     next();
 
     if (!vtop()->is_lvalue) error("Cannot assign to an rvalue");
+    if (!is_scalar_type(vtop()->type)) error("Invalid operand of a compound assignment");
     if (!type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
     Value *v1 = vtop();           // lvalue
-- 
2.43.0


From 2db71d04de9222d9166c6c05ad5a33158ac6da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 78/89] fix: reject declarations without a declarator or a
 semicolon

---
 parser.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/parser.c b/parser.c
index 06275e5..13c438e 100644
--- a/parser.c
+++ b/parser.c
@@ -2190,6 +2190,12 @@ static void parse_bitwise_shift(int level, int unsigned_operation, int signed_op
     add_ir_op(operation, src1->type, new_vreg(), src1, src2);
 }
 
+// Check the current token can be at the start of a declarator that isn't abstract
+static void check_declarator_start(void) {
+    if (cur_token != TOK_IDENTIFIER && cur_token != TOK_TYPEDEF_TYPE && cur_token != TOK_MULTIPLY && cur_token != TOK_LPAREN)
+        error("Unexpected token, expected an identifier");
+}
+
 // Parse a declaration
 static void parse_declaration(void) {
     Symbol *symbol;
@@ -2277,6 +2283,8 @@ static void parse_declaration(void) {
     // If it's not initialized and incomplete, bail.
     else if (!is_extern && is_incomplete_type(symbol->type))
         error("Storage size is unknown");
+
+    if (cur_token != TOK_COMMA && cur_token != TOK_SEMI) error("Missing expression, or , or ; in declaration");
 }
 
 Value *parse_expression_and_pop(int level) {
@@ -3062,6 +3070,7 @@ static void parse_expression(int level) {
 
                 pop_void();
                 next();
+                if (base_type) check_declarator_start();
                 parse_expression(TOK_COMMA);
 
                 break;
@@ -3407,7 +3416,7 @@ static void parse_goto_statement(void) {
     next();
 
     // A typedef an also be used as an identifier in a goto statement
-    if (cur_token != TOK_TYPEDEF_TYPE && cur_token != TOK_IDENTIFIER) panic_with_line_number("Expected an identifier");
+    if (cur_token != TOK_TYPEDEF_TYPE && cur_token != TOK_IDENTIFIER) error("Expected an identifier");
 
     Value *ldst = strmap_get(cur_function_symbol->function->labels, cur_identifier);
     if (ldst)
@@ -3468,14 +3477,17 @@ static void parse_statement(void) {
         if (base_type) wfree(base_type);
         base_type = parse_declaration_specifiers();
         if (cur_token == TOK_SEMI && (base_type->type->type == TYPE_STRUCT_OR_UNION || base_type->type->type == TYPE_ENUM))
-            next();
+            consume(TOK_SEMI, ";");
         else if (cur_token == TOK_COLON && is_typedef)
             // Special case for a typedef used as a labelled statement
             parse_label_statement(identifier);
         else if (base_type->storage_class == SC_TYPEDEF)
             parse_typedef_declarators(base_type->type);
-        else
+        else {
+            check_declarator_start();
             parse_expression(TOK_COMMA);
+            if (cur_token != TOK_SEMI) error("Expected ;");
+        }
 
         // What follows, such as the condition of a do-while, isn't part of the declaration
         if (base_type) free_and_null(base_type);
@@ -3787,7 +3799,10 @@ void parse(void) {
 
                 parse_attributes();
 
-                if (cur_token != TOK_SEMI) consume(TOK_COMMA, ", or ; in declaration");
+                if (cur_token != TOK_SEMI) {
+                    consume(TOK_COMMA, ", or ; in declaration");
+                    if (cur_token == TOK_SEMI) error("Expected an identifier");
+                }
             }
 
             wfree(base_type);
-- 
2.43.0


From 3ce6743a7f3402563a06f1e145ff3dc1dda6fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 79/89] fix: too few arguments in a function call

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index 13c438e..e76d430 100644
--- a/parser.c
+++ b/parser.c
@@ -2426,6 +2426,8 @@ static void parse_function_call(void) {
         consume(TOK_COMMA, ",");
         if (cur_token == TOK_RPAREN) error("Expected expression");
     }
+    if (!function_type->function->is_paramless && fpa->param_locations->length - has_struct_or_union_return_value < function_type->function->param_count)
+        error("Too few arguments for function call");
     consume(TOK_RPAREN, ")");
 
     finalize_function_param_allocation(fpa);
-- 
2.43.0


From f7648065a3abd1cb7d51719e5ebd81ea599ca21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 80/89] fix: line of an error in the number of macro arguments

---
 cpp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index beb62de..14bc7c7 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1073,7 +1073,12 @@ static CppToken *expand(CppToken *is) {
 
             // An empty () has either no parameters or a single empty one
             if (actuals_count == 1 && !trim_eols(dup_cll(actuals[0]))) actuals_count = directive->param_count ? 1 : 0;
-            if (actuals_count != directive->param_count) error("Mismatch in number of macro parameters");
+            if (actuals_count != directive->param_count) {
+                // The tokens have already been read, the error is at the macro
+                state.line_number = directive_token->line_number;
+                state.line_number_offset = directive_token->line_number_offset;
+                error("Mismatch in number of macro parameters");
+            }
 
             StrSet *rparen_hs = tok->hide_set;
 
-- 
2.43.0


From 32c9824dc7ec0c3d9530b183953ff788677e8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 81/89] fix: the debug location of an instruction is that of
 the last parsed token, not of the next statement's first

---
 lexer.c  |  8 ++++++++
 parser.c | 20 ++++++++++++++------
 wcc.h    |  2 ++
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/lexer.c b/lexer.c
index f7a0db9..4b833c4 100644
--- a/lexer.c
+++ b/lexer.c
@@ -23,6 +23,7 @@ static StringLiteral old_cur_string_literal;
 static void init_lexer(void) {
     ip = 0;
     cur_line = 1;
+    last_token_filename = 0;
     cur_identifier = wmalloc(MAX_IDENTIFIER_SIZE);
     cur_string_literal.data = wmalloc(MAX_STRING_LITERAL_SIZE * 4);
 
@@ -31,6 +32,7 @@ static void init_lexer(void) {
 
 void free_lexer(void) {
     free_and_null(cur_filename);
+    free_and_null(last_token_filename);
     free_and_null(cur_identifier);
     if (input_is_freeable) wfree(input);
     free_and_null(cur_string_literal.data);
@@ -309,6 +311,12 @@ void lex_string_literal(void) {
 void next(void) {
     char *i = input;
 
+    last_token_line = cur_line;
+    if (cur_filename && (!last_token_filename || strcmp(last_token_filename, cur_filename))) {
+        if (last_token_filename) wfree(last_token_filename);
+        last_token_filename = wstrdup(cur_filename);
+    }
+
     old_ip                 = ip;
     old_cur_line           = cur_line;
     old_cur_token          = cur_token;
diff --git a/parser.c b/parser.c
index e76d430..516fb59 100644
--- a/parser.c
+++ b/parser.c
@@ -74,23 +74,31 @@ static int new_vreg(void) {
     return vreg_count;
 }
 
-// Add an instruction and set the line number and filename
-Tac *add_parser_instruction(int operation, Value *dst, Value *src1, Value *src2) {
+// Make an origin for the last parsed token, rather than for the current one, which may be the first token of the next
+// statement
+static Origin *make_origin(void) {
     Origin *origin = wmalloc(sizeof(Origin));
     append_to_list(allocated_origins, origin);
 
     char *filename = NULL;
 
-    if (cur_filename) {
-        filename = strmap_get(origin_filenames, cur_filename);
+    if (last_token_filename) {
+        filename = strmap_get(origin_filenames, last_token_filename);
         if (!filename) {
-            filename = parser_wstrdup(cur_filename);
+            filename = parser_wstrdup(last_token_filename);
             strmap_put(origin_filenames, filename, filename);
         }
     }
 
     origin->filename = filename;
-    origin->line_number = cur_line;
+    origin->line_number = last_token_line;
+
+    return origin;
+}
+
+// Add an instruction and set the line number and filename
+Tac *add_parser_instruction(int operation, Value *dst, Value *src1, Value *src2) {
+    Origin *origin = make_origin();
     Tac *tac = add_instruction(operation, dst, src1, src2);
     tac->origin = origin;
     return tac;
diff --git a/wcc.h b/wcc.h
index cb2ee5e..c3cce2c 100644
--- a/wcc.h
+++ b/wcc.h
@@ -688,6 +688,8 @@ typedef enum {
 
 char *cur_filename;             // Current filename being lexed
 int cur_line;                   // Current line number being lexed
+char *last_token_filename;      // Filename and line number of the token before the current one,
+int last_token_line;            // i.e. the last one that has been parsed
 
 int print_ir1;                          // Print IR after parsing
 int print_ir2;                          // Print IR after register allocation
-- 
2.43.0


From 8c90832d55c3ac6665e530e733b6c2cec0f4d38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 82/89] fix: the comparisons of a switch belong to its line in
 the debug information, not to the lines of the cases

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index 516fb59..53fc3f4 100644
--- a/parser.c
+++ b/parser.c
@@ -3232,6 +3232,7 @@ static void parse_switch_statement(void) {
     consume(TOK_LPAREN, "(");
     parse_expression(TOK_COMMA);
     consume(TOK_RPAREN, ")");
+    Origin *origin = make_origin();
 
     // Maintain two IRs:
     // - ir has all the statement code and is used as normal
@@ -3274,6 +3275,9 @@ static void parse_switch_statement(void) {
     // Add jump to default label, if present, otherwise to the break label
     add_parser_instruction(IR_JMP, 0, case_default_label ? case_default_label : cur_loop_break_dst, 0);
 
+    // The comparisons and jumps belong to the switch, not to the cases
+    for (Tac *tac = case_ir_start; tac; tac = tac->next) tac->origin = origin;
+
     // Add statement IR
     ir->next = statement_ir_start;
     if (statement_ir_start) statement_ir_start->prev = ir;
-- 
2.43.0


From af0892d732af04570f341f1a971011a6cb1a5033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 83/89] fix: debug locations of instructions made from igraph
 nodes that have no tac

---
 instrsel.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/instrsel.c b/instrsel.c
index 0069a5e..eb49738 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -19,6 +19,7 @@ Graph *cost_graph;              // Graph of all possible options when tiling
 int cost_graph_node_count;      // Number of nodes in cost graph
 int *cost_to_igraph_map;        // Mapping of a cost graph node back to the instruction graph node
 int *cost_rules;                // Mapping of cost graph node id to x86 instruction rule id
+Origin *igraph_origin;          // Origin of the current igraph node, or of the nearest one above it that has one
 int *accumulated_cost;          // Total cost of sub tree of a cost graph node
 LongSet **igraph_labels;        // Matched instruction rule ids for a igraph node id
 Rule **igraph_rules;            // Matched lowest cost rule id for a igraph node id
@@ -269,6 +270,7 @@ static IGraph *merge_igraphs(IGraph *g1, IGraph *g2, int vreg) {
         in->tac = new_instruction(IR_MOVE);
         in->tac->src1 = in2->tac->dst;
         in->tac->dst = in1->value;
+        in->tac->origin = in2->tac->origin;
 
         if (debug_instsel_tree_merging) print_instruction(stdout, in->tac, 0);
 
@@ -1225,7 +1227,7 @@ static Value *generate_instructions(Function *function, IGraphNode *ign, int is_
             }
 
             Tac *tac = add_x86_instruction(x86op2, x86_dst, x86_v1, x86_v2);
-            if (ign->tac) tac->origin = ign->tac->origin;
+            tac->origin = igraph_origin;
             tac->label = label;
             if (debug_instsel_tiling) print_instruction(stdout, tac, 0);
         }
@@ -1240,6 +1242,9 @@ static Value *recursive_make_intermediate_representation(Function *function, IGr
     int igraph_node_id = cost_to_igraph_map[least_expensive_choice_node_id];
     IGraphNode *ign = &(igraph->nodes[igraph_node_id]);
 
+    Origin *parent_origin = igraph_origin;
+    if (ign->tac && ign->tac->origin) igraph_origin = ign->tac->origin;
+
     Rule *rule = &(instr_rules[cost_rules[least_expensive_choice_node_id]]);
     igraph_rules[igraph_node_id] = rule;
     add_to_set(rule_coverage, rule->index);
@@ -1262,7 +1267,10 @@ static Value *recursive_make_intermediate_representation(Function *function, IGr
 
     int is_root = parent_node_id == -1;
 
-    return generate_instructions(function, ign, is_root, rule, src1, src2);
+    Value *result = generate_instructions(function, ign, is_root, rule, src1, src2);
+    igraph_origin = parent_origin;
+
+    return result;
 }
 
 static void make_intermediate_representation(Function *function, IGraph *igraph) {
@@ -1343,6 +1351,7 @@ static void tile_igraphs(Function *function) {
             ir_start->label = tac->label;
         }
 
+        igraph_origin = 0;
         Tac *current_instruction_ir_start = ir;
         make_intermediate_representation(function, &(igraphs[i]));
         if (debug_instsel_tiling) {
-- 
2.43.0


From baa2965e6be55271790886e5570a215f089b05c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 84/89] fix: debug locations of inserted instructions, such as
 those of a struct copy

---
 ir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ir.c b/ir.c
index b08d829..3431de1 100644
--- a/ir.c
+++ b/ir.c
@@ -527,6 +527,7 @@ Tac *insert_instruction_after_from_operation(Tac *ir, int operation, Value *dst,
     tac->dst = dst;
     tac->src1 = src1;
     tac->src2 = src2;
+    tac->origin = ir->origin;
 
     Tac *next = ir->next;
     ir->next = tac;
-- 
2.43.0


From 9411020044dd6bac7f7854c00cbe58aff5bc1c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 85/89] fix: the first instruction of a function always has a
 debug location

---
 codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen.c b/codegen.c
index 8b9ecdd..05ea930 100644
--- a/codegen.c
+++ b/codegen.c
@@ -778,6 +778,10 @@ static void output_debug_loc(Tac *tac) {
 
 // Output code from the IR of a function
 static void output_function_body_code(Symbol *symbol) {
+    // The first instruction always needs a location
+    last_outputted_filename_id = 0;
+    last_outputted_filename_line_number = 0;
+
     int function_pc = symbol->function->type->function->param_count;
 
     for (Tac *tac = symbol->function->ir; tac; tac = tac->next) {
-- 
2.43.0


From 1fdd958c8b2e953e51cdb5a129ea79f0de9cbe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 86/89] fix: the register class of a vreg used as an lvalue of
 a floating point type is that of a pointer

---
 ssa.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ssa.c b/ssa.c
index 5dd69a6..e91dede 100644
--- a/ssa.c
+++ b/ssa.c
@@ -1232,6 +1232,11 @@ void blast_vregs_with_live_ranges(Function *function) {
     }
 }
 
+// An lvalue in a register has the type of the object, but the register holds a pointer to it.
+static int get_preg_class(Value *v) {
+    return is_sse_floating_point_type(v->type) && !v->is_lvalue ? PC_SSE : PC_INT;
+}
+
 // Set preg_class (PC_INT or PC_SSE) for all vregs in the IR by looking at the type
 // The first 28 values are for the available physical registers,
 // 1-12 is for integers, 13-28 for floating point values.
@@ -1254,15 +1259,15 @@ static void make_vreg_preg_classes(Function *function) {
         if (tac->src2 && tac->src2->vreg && !tac->src2->type) { print_instruction(stdout, tac, 0); panic("Type is unexpectedly zero on src2"); }
 
         if (tac->dst  && tac->dst->vreg) {
-            tac->dst->preg_class = is_sse_floating_point_type(tac->dst->type) ? PC_SSE : PC_INT;
+            tac->dst->preg_class = get_preg_class(tac->dst);
             vreg_preg_classes[tac->dst->vreg] = tac->dst->preg_class;
         }
         if (tac->src1 && tac->src1->vreg) {
-            tac->src1->preg_class = is_sse_floating_point_type(tac->src1->type) ? PC_SSE : PC_INT;
+            tac->src1->preg_class = get_preg_class(tac->src1);
             vreg_preg_classes[tac->src1->vreg] = tac->src1->preg_class;
         }
         if (tac->src2 && tac->src2->vreg) {
-            tac->src2->preg_class = is_sse_floating_point_type(tac->src2->type) ? PC_SSE : PC_INT;
+            tac->src2->preg_class = get_preg_class(tac->src2);
             vreg_preg_classes[tac->src2->vreg] = tac->src2->preg_class;
         }
     }
-- 
2.43.0


From bfc2dc5cd884fd1a0914062d1a302c530f7c8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:56 +0000
Subject: [PATCH 87/89] fix: relational operators on pointers to incompatible
 types are rejected

---
 parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 53fc3f4..db7927c 100644
--- a/parser.c
+++ b/parser.c
@@ -1578,8 +1578,10 @@ void check_binary_operation_types(int operation, Value *src1, Value *src2) {
         // * both operands are pointers to qualified or unqualified versions of compatible incomplete types.
         //
         // Deviation from the spec: comparisons between arithmetic and pointers types are allowed
+        // So are comparisons between pointers to void and other pointers.
         if (
-            (!((src1_is_arithmetic || src1_is_pointer) && (src2_is_arithmetic || src2_is_pointer))) &&
+            (!((src1_is_arithmetic || src1_is_pointer) && (src2_is_arithmetic || src2_is_pointer) && !(src1_is_pointer && src2_is_pointer))) &&
+            (!(src1_is_pointer && src2_is_pointer && (is_pointer_to_void(src1->type) || is_pointer_to_void(src2->type)))) &&
             (!(src1_is_pointer && src2_is_pointer && is_object_type(src1_type_deref) && is_object_type(src2_type_deref) && types_are_compatible_ignore_qualifiers(src1_type_deref, src2_type_deref))) &&
             (!(src1_is_pointer && src2_is_pointer && is_incomplete_type(src1_type_deref) && is_incomplete_type(src2_type_deref) && types_are_compatible_ignore_qualifiers(src1_type_deref, src2_type_deref)))
         )
-- 
2.43.0


From 56c0636ebf286f6ccfda48efa919c4dafb355e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:56 +0000
Subject: [PATCH 88/89] fix: an argument of an incompatible struct type is
 rejected

---
 parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.c b/parser.c
index db7927c..fc5af0c 100644
--- a/parser.c
+++ b/parser.c
@@ -2395,6 +2395,9 @@ static void parse_function_call(void) {
 
         // Convert type if needed
         if (!function_type->function->is_paramless && arg_count < function_type->function->param_count) {
+            Type *type = function_type->function->param_types->elements[arg_count];
+            if (vtop()->type->type == TYPE_STRUCT_OR_UNION) check_conversion(vtop(), type);
+
             if (!type_eq(vtop()->type, function_type->function->param_types->elements[arg_count])) {
                 Type *param_type = function_type->function->param_types->elements[arg_count];
 
-- 
2.43.0


From 596e639f084d8d11e9dbce844c01115112d3b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 89/89] fix: a constant pointer is loaded into a register
 before a subtraction

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index fc5af0c..6c27a50 100644
--- a/parser.c
+++ b/parser.c
@@ -2171,6 +2171,8 @@ static void parse_subtraction(int level) {
 
     int src2_is_pointer = is_pointer_to_object_type(src2->type);
 
+    if (vs[1]->is_constant && is_pointer_to_object_type(vs[1]->type)) vs[1] = load_constant_address(vs[1]);
+
     if (factor > 1) {
         if (!src2_is_pointer) {
             push_integral_constant(TYPE_LONG, factor);
-- 
2.43.0

