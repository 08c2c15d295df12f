From 3bcc81d6dbcecbc1032f5ac2d5a884bbab7f9996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 01/49] fix: fold floating point comparisons to their result

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 5056f2e..d7e4b65 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2931,7 +2931,7 @@ func void perform_float_operation(struct context *context, enum ast_kind binary_
         // "The result has type int".
         struct ir_integer_literal *lit = (struct ir_integer_literal *)lhs;
         lit->base.kind = IR_integer_literal;
-        lit->_u64 = 1;
+        lit->_u64 = compare_value;
         lit->type = &globals.typedef_s32;
         op_rhs->resolved_type = &globals.typedef_s32;
         op_rhs->defined_type = &globals.typedef_u8.kind;
-- 
2.43.0


From 6e64326dd5cfe3ef9f3186dc176a74f3d82fbdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 02/49] fix: do not trap when folding INT_MIN / -1 and INT_MIN
 % -1

---
 src/parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index d7e4b65..9118e3d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2960,6 +2960,8 @@ switch(operation->type){                                                  \
     case TOKEN_slash:{                                                    \
         if(rhs_val == 0){                                                 \
             report_error(context, operation, "Integer division by 0.");   \
+        }else if(type_is_signed(promoted_type) && rhs_val == (basic_type)-1){ \
+            lhs->_##basic_type = (basic_type)(0 - (u64)lhs_val); /* The host traps for MIN / -1. */ \
         }else{                                                            \
             lhs->_##basic_type = lhs_val / rhs_val;                       \
         }                                                                 \
@@ -2967,6 +2969,8 @@ switch(operation->type){                                                  \
     case TOKEN_mod:{                                                      \
         if(rhs_val == 0){                                                 \
             report_error(context, operation, "Integer modulation by 0."); \
+        }else if(type_is_signed(promoted_type) && rhs_val == (basic_type)-1){ \
+            lhs->_##basic_type = 0; /* The host traps for MIN % -1. */       \
         }else{                                                            \
             lhs->_##basic_type = lhs_val % rhs_val;                       \
         }                                                                 \
-- 
2.43.0


From 773cfa544b46a30fd9ce77f6e7cf0a4472cdbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 03/49] fix: allow negative floating point constants to be
 converted to _Bool

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9118e3d..4f6aa23 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -323,7 +323,7 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
                     invalid_default_case();
                 }
             }else{
-                if(f_value < 0.0){
+                if(f_value < 0.0 && cast_to != &globals.typedef_Bool){
                     report_error(context, cast_what->token, "Cast from negative a floating point number to an unsigned type is illegal.");
                 }
                 
-- 
2.43.0


From 8bdfbeed25baa05574934c49fb5820d97b3d93ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 04/49] fix: divide negative pointer differences as signed
 numbers

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 4f6aa23..f6bbce9 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -6123,7 +6123,7 @@ case NUMBER_KIND_##type:{ \
                         struct ast_pointer_type *pointer = cast(struct ast_pointer_type *)op_lhs->resolved_type;
                         if(pointer->pointer_to->size != 1){ // @cleanup: 0?
                             ast_push_s64_literal(context, pointer->pointer_to->size, null);
-                            operand.ir = push_ir(context, IR_divide_u64);
+                            operand.ir = push_ir(context, IR_divide_s64);
                         }
                         
                         operand.resolved_type = &globals.typedef_s64;
-- 
2.43.0


From 9528a6117b42fca0611b835f7d974af7aa62a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 05/49] fix: perform /= and %= in the converted type of both
 operands

---
 src/parse.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index f6bbce9..5d921d6 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4158,6 +4158,17 @@ func void punt_compound_assignment(struct context *context, struct expr *lhs, st
     rhs->defined_type = lhs->defined_type;
 }
 
+func b32 compound_division_is_not_performed_in_lhs_type(struct expr *lhs, struct expr *rhs, b32 rhs_is_small_constant){
+    if(lhs->resolved_type->kind != AST_integer_type || rhs->resolved_type->kind != AST_integer_type) return false;
+    
+    struct ast_type *arithmetic_type = perform_usual_arithmetic_conversions(lhs->resolved_type, rhs->resolved_type);
+    
+    // Dividing by a small positive number is the same in every type that can represent the value of the lhs.
+    if(rhs_is_small_constant) return type_is_signed(lhs->resolved_type) && !type_is_signed(arithmetic_type);
+    
+    return arithmetic_type != lhs->resolved_type;
+}
+
 // @cleanup: Eventually, we should implement this ourselves.
 __declspec(dllimport) double strtod(const char *str, char **endptr);
 
@@ -7082,6 +7093,8 @@ case NUMBER_KIND_##type:{ \
                 // in which case 'b' cant be truncated to char, or it will crash.
                 b32 punt = (lhs->resolved_type->size < rhs->resolved_type->size);
                 
+                b32 rhs_is_small_constant = false;
+                
                 if(rhs->ir->kind == IR_integer_literal){
                     u64 value = integer_literal_as_u64(rhs);
                     if(value == 0){
@@ -7093,9 +7106,15 @@ case NUMBER_KIND_##type:{ \
                         // @cleanup: you could see how we could report an error here instead of punting in some cases
                         //           but this hits the common case of % by some small integer (like 10).
                         punt = false;
+                        rhs_is_small_constant = true;
                     }
                 }
                 
+                // Also punt if the operation does not happen in the type of the lhs (unlike for '+=' or '*=', 
+                // the low bits of the result depend on it), for example
+                //     int a = -10; unsigned b = 3; a %= b;
+                if(compound_division_is_not_performed_in_lhs_type(lhs, rhs, rhs_is_small_constant)) punt = true;
+                
                 if(lhs->resolved_type == &globals.typedef_Bool || (lhs->resolved_type->kind == AST_bitfield_type)) punt = 1;
                 
                 if(punt){
@@ -7175,6 +7194,8 @@ case NUMBER_KIND_##type:{ \
                 // 
                 if(lhs_type->size < rhs_type->size) punt = true;
                 
+                b32 rhs_is_small_constant = false;
+                
                 if(rhs->ir->kind == IR_integer_literal){
                     // 
                     // @copy and paste from above.
@@ -7194,9 +7215,13 @@ case NUMBER_KIND_##type:{ \
                         // @cleanup: you could see how we could report an error here instead of punting in some cases
                         //           but this hits the common case of % by some small integer (like 10).
                         punt = false;
+                        rhs_is_small_constant = true;
                     }
                 }
                 
+                // Same as for '%='.
+                if(ast_kind == AST_divide_assignment && compound_division_is_not_performed_in_lhs_type(lhs, rhs, rhs_is_small_constant)) punt = true;
+                
                 if(lhs->resolved_type == &globals.typedef_Bool || lhs->resolved_type->kind == AST_bitfield_type) punt = 1;
                 
                 if(punt){
-- 
2.43.0


From 69535ae5fe0d789183b953c21d824aaef47ce29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 06/49] fix: shift a bitfield in its own promoted type in <<=
 and >>=

---
 src/parse.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 5d921d6..c1c9619 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4095,7 +4095,13 @@ func void punt_compound_assignment(struct context *context, struct expr *lhs, st
     
     struct expr dup_expr = {.ir = dup, site, lhs->resolved_type, lhs->defined_type};
     
-    maybe_insert_arithmetic_conversion_casts(context, &dup_expr, rhs);
+    if(ast_kind == AST_left_shift_assignment || ast_kind == AST_right_shift_assignment){
+        // "The integer promotions are performed on each of the operands."
+        maybe_insert_integer_promotion_cast(context, AST_cast_lhs, &dup_expr);
+        push_cast(context, AST_cast, &globals.typedef_u8, null, rhs);
+    }else{
+        maybe_insert_arithmetic_conversion_casts(context, &dup_expr, rhs);
+    }
     
     enum ir_type ir_type = ir_type_from_type(dup_expr.resolved_type);
     enum ir_kind op_ir_kind;
-- 
2.43.0


From 2a44ca487ced660426ecc433a814374e22d231ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 07/49] fix: convert float to unsigned int using the 64-bit
 conversion, like double

---
 src/emit_x64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 1f03a6c..3c491de 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2915,12 +2915,16 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 2, 4, 0x2c);
             }break;
-            case IR_cast_f32_to_s32: case IR_cast_f32_to_s32_lhs:
-            case IR_cast_f32_to_u32: case IR_cast_f32_to_u32_lhs:{
+            case IR_cast_f32_to_s32: case IR_cast_f32_to_s32_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 4, 0x2c);
             }break;
+            case IR_cast_f32_to_u32: case IR_cast_f32_to_u32_lhs:{
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 8, 0x2c);
+            }break;
             case IR_cast_f32_to_s64: case IR_cast_f32_to_s64_lhs:
             case IR_cast_f32_to_u64: case IR_cast_f32_to_u64_lhs:{
                 ir_arena_at += sizeof(struct ir);
-- 
2.43.0


From 779ed7b8d5642195cf3d502809801d5e675aea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 08/49] fix: scale integers added to constant pointers by the
 size of the element

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index c1c9619..23e66e8 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1764,9 +1764,9 @@ func void handle_pointer_arithmetic(struct context *context, enum ir_kind ir_kin
         
         struct ir_pointer_literal *pointer_lit = (struct ir_pointer_literal *)pointer->ir;
         if(ir_kind == IR_add_u64){
-            pointer_lit->pointer += integer_literal_as_s64(integer);
+            pointer_lit->pointer += integer_literal_as_s64(integer) * deref_type->size;
         }else{
-            pointer_lit->pointer -= integer_literal_as_s64(integer);
+            pointer_lit->pointer -= integer_literal_as_s64(integer) * deref_type->size;
         }
         
         if(integer->ir < pointer->ir){
-- 
2.43.0


From 6d29dee43711fd02e24a7c087a696902ffb49c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 09/49] fix: float comparisons treated unordered operands as
 equal and smaller

---
 src/emit_x64.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 3c491de..1c875d4 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -353,6 +353,8 @@ enum TWO_BYTE_OPCODES{ // these are of the form 0x0F opcode
     
     MOVQ_REGM_XMM = 0x7e,
     
+    COMPARE_WITH_PREDICATE_XMM = 0xc2, // cmpps (00), cmppd (66), cmpss (f3), cmpsd (f2)
+    
     // relative jumps
     JUMP_REL32_IF_OVERFLOW              = 0x80, // jo
     JUMP_REL32_IF_NOT_OVERFLOW          = 0x81, // jno
@@ -3877,7 +3879,40 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 }
                 
                 struct emit_location *result;
-                if(ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64){
+                if((ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64) && (comp == COMP_equals || comp == COMP_unequals)){
+                    // 
+                    // An unordered comparison (one of the operands is a NaN) also sets the zero flag, hence the flags 
+                    // of 'comiss' and 'comisd' alone don't tell if the operands are equal. Use 'cmpss' or 'cmpsd'.
+                    // The predicates are: 0 - equal and ordered, 4 - not equal or unordered.
+                    // 
+                    lhs = emit_load_float(context, lhs);
+                    emit_location_prevent_spilling(context, lhs);
+                    rhs = emit_load_float(context, rhs);
+                    emit_location_allow_spilling(context, lhs);
+                    
+                    emit_register_register(context, create_prefixes((ir_type == IR_TYPE_f32) ? ASM_PREFIX_SSE_float : ASM_PREFIX_SSE_double), two_byte_opcode(COMPARE_WITH_PREDICATE_XMM), lhs, rhs);
+                    emit((comp == COMP_equals) ? 0 : 4);
+                    free_emit_location(context, rhs);
+                    
+                    // movd mask, lhs
+                    result = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 4);
+                    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(MOVQ_REGM_XMM), lhs->loaded_register, result->loaded_register, 4);
+                    free_emit_location(context, lhs);
+                    
+                    emit_register_register(context, no_prefix(), one_byte_opcode(TEST_REGM_REG), result, result);
+                    comp = COMP_unequals;
+                }else if(ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64){
+                    if(comp == COMP_smaller || comp == COMP_smaller_equals){
+                        // 
+                        // An unordered comparison sets the carry flag. Therefore, 'smaller' and 'smaller_equals' 
+                        // would be true if one of the operands is a NaN. Swap the operands to prevent this.
+                        // 
+                        struct emit_location *swap = lhs;
+                        lhs = rhs;
+                        rhs = swap;
+                        comp = (comp == COMP_smaller) ? COMP_bigger : COMP_bigger_equals;
+                    }
+                    
                     lhs = emit_load_float(context, lhs);
                     
                     struct prefixes prefix = create_prefixes((ir_type == IR_TYPE_f32) ? ASM_PREFIX_NON_PACKED_OP_float : ASM_PREFIX_NON_PACKED_OP_double);
-- 
2.43.0


From b52e06a82d2c038b68a1b0cab0ba39eb79bd9a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 10/49] fix: the logical not of -0.0 was 0 and a NaN in a
 register counted as false

---
 src/emit_x64.c | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 1c875d4..9e3aec3 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2098,6 +2098,27 @@ struct emit_location *emit_store_atomic_integer(struct context *context, struct
 //_____________________________________________________________________________________________________________________
 // Conditions
 
+// Sets the flags to 'COMP_unequals' if the loaded floats compare as desired. Returns the location of the result.
+func struct emit_location *emit_compare_float_equality(struct context *context, struct emit_location *lhs, struct emit_location *rhs, b32 want_equal){
+    // 
+    // An unordered comparison (one of the operands is a NaN) also sets the zero flag, hence the flags 
+    // of 'comiss' and 'comisd' alone don't tell if the operands are equal. Use 'cmpss' or 'cmpsd'.
+    // The predicates are: 0 - equal and ordered, 4 - not equal or unordered.
+    // 
+    struct prefixes prefixes = create_prefixes(lhs->size == 8 ? ASM_PREFIX_SSE_double : ASM_PREFIX_SSE_float);
+    emit_register_register(context, prefixes, two_byte_opcode(COMPARE_WITH_PREDICATE_XMM), lhs, rhs);
+    emit(want_equal ? 0 : 4);
+    free_emit_location(context, rhs);
+    
+    // movd mask, lhs
+    struct emit_location *mask = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 4);
+    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(MOVQ_REGM_XMM), lhs->loaded_register, mask->loaded_register, 4);
+    free_emit_location(context, lhs);
+    
+    emit_register_register(context, no_prefix(), one_byte_opcode(TEST_REGM_REG), mask, mask);
+    return mask;
+}
+
 func struct emit_location *emit_compare_to_zero(struct context *context, struct emit_location *loaded){
     assert(loaded->state == EMIT_LOCATION_loaded);
     
@@ -2112,10 +2133,7 @@ func struct emit_location *emit_compare_to_zero(struct context *context, struct
         struct emit_location *zero = emit_location_loaded(context, REGISTER_KIND_xmm, reg, loaded->size);
         emit_register_register(context, no_prefix(), two_byte_opcode(XOR_XMM), zero, zero);
         
-        enum legacy_prefixes prefix = loaded->size == 8 ? ASM_PREFIX_NON_PACKED_OP_double : ASM_PREFIX_NON_PACKED_OP_float;
-        emit_register_register(context, create_prefixes(prefix), two_byte_opcode(COMPARE_XMM), loaded, zero);
-        free_emit_location(context, loaded);
-        free_emit_location(context, zero);
+        free_emit_location(context, emit_compare_float_equality(context, loaded, zero, /*want_equal*/false));
     }
     
     return emit_location_conditional(context, COMP_not_zero);
@@ -3880,26 +3898,12 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 
                 struct emit_location *result;
                 if((ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64) && (comp == COMP_equals || comp == COMP_unequals)){
-                    // 
-                    // An unordered comparison (one of the operands is a NaN) also sets the zero flag, hence the flags 
-                    // of 'comiss' and 'comisd' alone don't tell if the operands are equal. Use 'cmpss' or 'cmpsd'.
-                    // The predicates are: 0 - equal and ordered, 4 - not equal or unordered.
-                    // 
                     lhs = emit_load_float(context, lhs);
                     emit_location_prevent_spilling(context, lhs);
                     rhs = emit_load_float(context, rhs);
                     emit_location_allow_spilling(context, lhs);
                     
-                    emit_register_register(context, create_prefixes((ir_type == IR_TYPE_f32) ? ASM_PREFIX_SSE_float : ASM_PREFIX_SSE_double), two_byte_opcode(COMPARE_WITH_PREDICATE_XMM), lhs, rhs);
-                    emit((comp == COMP_equals) ? 0 : 4);
-                    free_emit_location(context, rhs);
-                    
-                    // movd mask, lhs
-                    result = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 4);
-                    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(MOVQ_REGM_XMM), lhs->loaded_register, result->loaded_register, 4);
-                    free_emit_location(context, lhs);
-                    
-                    emit_register_register(context, no_prefix(), one_byte_opcode(TEST_REGM_REG), result, result);
+                    result = emit_compare_float_equality(context, lhs, rhs, /*want_equal*/comp == COMP_equals);
                     comp = COMP_unequals;
                 }else if(ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64){
                     if(comp == COMP_smaller || comp == COMP_smaller_equals){
@@ -4212,7 +4216,9 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 
                 struct emit_location *loc = emit_location_stack[emit_location_stack_at - 1];
                 if(loc->state != EMIT_LOCATION_conditional){
-                    if(loc->state != EMIT_LOCATION_loaded) loc = emit_load_gpr(context, loc); // @cleanup: float?
+                    if(loc->state != EMIT_LOCATION_loaded){
+                        loc = (ir_kind == IR_logical_not_f32 || ir_kind == IR_logical_not_f64) ? emit_load_float(context, loc) : emit_load_gpr(context, loc);
+                    }
                     loc = emit_compare_to_zero(context, loc);
                 }
                 
-- 
2.43.0


From 49415bf7e910750b5a50ca41a2019b704a43a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 11/49] fix: ++ and -- of pointers and bit-fields looked at the
 type of the node instead of the next node

---
 src/emit_x64.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 9e3aec3..fb95b0f 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3971,7 +3971,16 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
             case IR_preinc_f64:      case IR_predec_f64:
             case IR_preinc_pointer:  case IR_predec_pointer:
             case IR_preinc_bitfield: case IR_predec_bitfield:{
-                ir_arena_at += sizeof(struct ir);
+                // @note: Skip the whole node, we look at the next one below.
+                int operand_is_pointer  = ir_kind == IR_postinc_pointer  || ir_kind == IR_postdec_pointer  || ir_kind == IR_preinc_pointer  || ir_kind == IR_predec_pointer;
+                int operand_is_bitfield = ir_kind == IR_postinc_bitfield || ir_kind == IR_postdec_bitfield || ir_kind == IR_preinc_bitfield || ir_kind == IR_predec_bitfield;
+                if(operand_is_pointer){
+                    ir_arena_at += sizeof(struct ir_pointer_increment);
+                }else if(operand_is_bitfield){
+                    ir_arena_at += sizeof(struct ir_bitfield_increment);
+                }else{
+                    ir_arena_at += sizeof(struct ir);
+                }
                 
                 int operand_is_float = ir_kind == IR_predec_f32 || ir_kind == IR_predec_f64 || ir_kind == IR_preinc_f32 || ir_kind == IR_preinc_f64 || ir_kind == IR_postdec_f32 || ir_kind == IR_postdec_f64 || ir_kind == IR_postinc_f32 || ir_kind == IR_postinc_f64;
                 
@@ -4088,9 +4097,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                     
                     case IR_postdec_pointer: case IR_postinc_pointer:
                     case IR_predec_pointer:  case IR_preinc_pointer:{
-                        ir_arena_at -= sizeof(struct ir);
-                        struct ir_pointer_increment *increment = (struct ir_pointer_increment *)ir_arena_at;
-                        ir_arena_at += sizeof(*increment);
+                        struct ir_pointer_increment *increment = (struct ir_pointer_increment *)ir;
                         
                         struct ast_pointer_type *pointer = increment->pointer_type;
                         
@@ -4111,9 +4118,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                     
                     case IR_postdec_bitfield: case IR_postinc_bitfield:
                     case IR_predec_bitfield:  case IR_preinc_bitfield:{
-                        ir_arena_at -= sizeof(struct ir);
-                        struct ir_bitfield_increment *increment = (struct ir_bitfield_increment *)ir_arena_at;
-                        ir_arena_at += sizeof(*increment);
+                        struct ir_bitfield_increment *increment = (struct ir_bitfield_increment *)ir;
                         
                         if(!loaded){
                             loaded = emit_load_gpr(context, loc);
-- 
2.43.0


From 3fa1a29f744509fe7e06725b25c0dbb457cb4ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 12/49] fix: shifting a global by a constant in place accessed
 the byte after the global

---
 src/emit_x64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index fb95b0f..bd511e7 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2158,14 +2158,15 @@ func struct emit_location *emit_shift_or_rotate__internal(struct context *contex
         }
         
         if(compound){
-            emit_register_relative_extended(context, prefixes, one_byte_opcode(inst), reg_extension, lhs_loc);
+            // @note: The immediate is part of the instruction, this is important if 'lhs_loc' is rip relative.
+            emit_register_relative_immediate(context, prefixes, one_byte_opcode(inst), reg_extension, lhs_loc, rhs_loc);
             ret = lhs_loc;
         }else{
             struct emit_location *lhs = emit_load_gpr(context, lhs_loc);
             emit_reg_extended_op(context, prefixes, one_byte_opcode(inst), reg_extension, lhs);
+            emit(rhs_loc->value);
             ret = lhs;
         }
-        emit(rhs_loc->value);
     }else{
         struct emit_location *rhs;
         if(rhs_loc->state == EMIT_LOCATION_loaded && rhs_loc->loaded_register == REGISTER_C){
-- 
2.43.0


From e9bdd1e7351fca12a88e7011c30d1951217b8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 13/49] fix: storing into a 64 bit wide bit-field stored
 nothing

---
 src/emit_x64.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index bd511e7..545ae89 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2041,8 +2041,11 @@ struct emit_location *emit_store_bitfield(struct context *context, struct ast_bi
     struct emit_location *rhs_loaded = emit_load_gpr(context, rhs);
     emit_location_prevent_spilling(context, rhs_loaded);
     
+    // @note: A bitfield can be as wide as its type, shifting by 64 would be undefined.
+    u64 width_mask = (bitfield->width >= 64) ? ~0ull : (1ull << bitfield->width) - 1;
+    
     // Truncate the right hand side.
-    struct emit_location *mask = emit_location_immediate(context, (1ull << bitfield->width) - 1, lhs->size);
+    struct emit_location *mask = emit_location_immediate(context, width_mask, lhs->size);
     struct emit_location *mask_loaded = emit_load_gpr(context, mask);
     emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), rhs_loaded, mask_loaded);
     free_emit_location(context, mask_loaded);
@@ -2057,7 +2060,7 @@ struct emit_location *emit_store_bitfield(struct context *context, struct ast_bi
     struct emit_location *lhs_loaded = emit_load_gpr(context, lhs);
     emit_location_prevent_spilling(context, lhs_loaded);
     
-    mask = emit_location_immediate(context, ~(((1ull << bitfield->width) - 1) << bitfield->bit_index), lhs->size);
+    mask = emit_location_immediate(context, ~(width_mask << bitfield->bit_index), lhs->size);
     mask_loaded = emit_load_gpr(context, mask);
     emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), lhs_loaded, mask_loaded);
     free_emit_location(context, mask_loaded);
-- 
2.43.0


From dfa427a8ef6c8e278db20e55284d4ddb89e436ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 14/49] fix: temporary stack locations were not aligned for
 their type

---
 src/emit_x64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 545ae89..2370650 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -851,8 +851,8 @@ func struct emit_location *emit_location_immediate(struct context *context, u64
 
 func struct emit_location *emit_allocate_temporary_stack_location(struct context *context, smm size, smm alignment){
     
-    context->temporary_stack_allocator  = align_up(context->temporary_stack_allocator, alignment);
-    context->temporary_stack_allocator += size;
+    // The stack grows downwards, hence it is the end of the allocation that has to be aligned.
+    context->temporary_stack_allocator = align_up(context->temporary_stack_allocator + size, alignment);
     context->temporary_stack_high_water_mark = max_of(context->temporary_stack_high_water_mark, context->temporary_stack_allocator);
     // :stack_space_needed
     smm stack_location_to_allocate = context->current_function->stack_space_needed + context->temporary_stack_allocator;
-- 
2.43.0


From 512b94238245d507f62bed0fa554cb8421111087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 15/49] fix: returning a big struct clobbered the caller's rsi

---
 src/emit_x64.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 2370650..7927869 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3694,11 +3694,11 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                     
                     if(type_is_returned_by_address(return_type)){
                         // :returning_structs :function_epilog
-                        // load the address of what we want to copy into rsi, the actual copy will then happen in
+                        // load the address of what we want to copy into rdx, the actual copy will then happen in
                         // the epilog.
                         
-                        enum register_encoding rsi = allocate_specific_register(context, REGISTER_KIND_gpr, REGISTER_SI);
-                        struct emit_location *loaded = emit_load_address(context, return_location, rsi);
+                        enum register_encoding rdx = allocate_specific_register(context, REGISTER_KIND_gpr, REGISTER_D);
+                        struct emit_location *loaded = emit_load_address(context, return_location, rdx);
                         free_emit_location(context, return_location);
                         free_emit_location(context, loaded);
                     }else{
@@ -4970,11 +4970,12 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
         struct emit_location *address_of_return_struct = emit_load_into_specific_gpr(context, location_of_rax, rax);
         struct emit_location *dest = emit_location_register_relative(context, address_of_return_struct, 0, 0, return_type->size);
         
-        // In the AST_return, we have loaded the location of the return struct into rsi now we want to emit a memcpy for 
+        // In the AST_return, we have loaded the location of the return struct into rdx now we want to emit a memcpy for 
         // 'return_type->size' bytes to the saved rax.
-        enum register_encoding rsi = allocate_specific_register(context, REGISTER_KIND_gpr, REGISTER_SI);
-        struct emit_location *rsi_loc = emit_location_loaded(context, REGISTER_KIND_gpr, rsi, 8); 
-        struct emit_location *source = emit_location_register_relative(context, rsi_loc, 0, 0, return_type->size);
+        // @note: This cannot be rsi, as the memcpy would spill it and the size of the stack frame is already decided.
+        enum register_encoding rdx = allocate_specific_register(context, REGISTER_KIND_gpr, REGISTER_D);
+        struct emit_location *rdx_loc = emit_location_loaded(context, REGISTER_KIND_gpr, rdx, 8); 
+        struct emit_location *source = emit_location_register_relative(context, rdx_loc, 0, 0, return_type->size);
         
         emit_memcpy(context, dest, source);
         
-- 
2.43.0


From c16a8f6fbbb81e49209db7be4836b822cc9a86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 16/49] fix: low surrogates of utf-16 string literals started
 at 0xDD00

---
 src/preprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 409e7bb..9d9e092 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -794,7 +794,7 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                             
                             // first the high bits, then the low bits
                             handle_escaping_out(0xD800 | ((codepoint >> 10) & 0b1111111111));
-                            handle_escaping_out(0xDD00 | ((codepoint >>  0) & 0b1111111111));
+                            handle_escaping_out(0xDC00 | ((codepoint >>  0) & 0b1111111111));
                         }
                         continue;
                     }
@@ -830,7 +830,7 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                             
                             // first the high bits, then the low bits
                             handle_escaping_out(0xD800 | ((codepoint >> 10) & 0b1111111111));
-                            handle_escaping_out(0xDD00 | ((codepoint >>  0) & 0b1111111111));
+                            handle_escaping_out(0xDC00 | ((codepoint >>  0) & 0b1111111111));
                         }
                     }else{
                         // Allow the user to specify invalid utf-16 through escapes!
-- 
2.43.0


From aa5d0550e27e3cd793e5c0aca1ed732f3f48e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 17/49] fix: decimal literals that overflow 64 bits were not
 always reported

---
 src/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 9d9e092..157636b 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -989,7 +989,7 @@ func struct parsed_integer parse_base10_literal(struct context *context, struct
             break;
         }
         
-        if((val >> 32) * 10 > max_u32) report_overflow = true;
+        if(val > max_u64 / 10) report_overflow = true;
         val *= 10;
         
         u64 new_val = val + number;
-- 
2.43.0


From b5e6a8f02a36c4516af4e0a02b422ea6219923ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 18/49] fix: octal literals above 0x1fffffffffffffff were
 mis-reported as overflowing

---
 src/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 157636b..1d0c3c5 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1121,7 +1121,7 @@ func struct parsed_integer parse_octal_literal(struct context *context, struct t
             break; // only allow '0 to 7'
         }
         
-        if(val & 0x7000000000000000ull) report_overflow = true;
+        if(val & 0xE000000000000000ull) report_overflow = true;
         val = (val * 8) + oct;
     }
     
-- 
2.43.0


From 818a5ef276ee8cbaf8f76c663ac11d4743e974c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 19/49] fix: wide character constants in #if had their bytes
 reversed

---
 src/preprocess.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 1d0c3c5..68aa151 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1027,9 +1027,14 @@ func struct parsed_integer parse_character_literal(struct context *context, stru
     }
     
     u64 value = 0;
-    for(smm i = 0; i < escaped.string.size; i++){
-        value <<= 8;
-        value += escaped.string.data[i];
+    if(escaped.string_kind == STRING_KIND_utf8){
+        for(smm i = 0; i < escaped.string.size; i++){
+            value <<= 8;
+            value += escaped.string.data[i];
+        }
+    }else{
+        // The elements of wide characters are stored in little endian.
+        memcpy(&value, escaped.string.data, min_of(escaped.string.size, sizeof(value)));
     }
     
     ret.value = value;
-- 
2.43.0


From e53975c58b26090290314d9d22503046fa0841c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 20/49] fix: #if treated 0x7fffffffffffffff as unsigned

---
 src/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 68aa151..6d42e28 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -3003,7 +3003,7 @@ func s64 static_if_evaluate(struct context *context){
                 case NUMBER_KIND_int:
                 case NUMBER_KIND_long:
                 case NUMBER_KIND_long_long:{
-                    if(value < max_s64) break;
+                    if(value <= max_s64) break;
                     report_warning(context, WARNING_integer_literal_too_large_to_be_signed, test, "Integer literal exceeds the maximum value representable as a signed integer and is interpreted as unsigned.");
                     is_unsigned = 1;
                 }break;
-- 
2.43.0


From ca1a499fde9f1d9c3a85579ff5fa93139167a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 21/49] fix: signedness of #if operators and overflowing
 divisions

---
 src/preprocess.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 6d42e28..2a96014 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -3193,16 +3193,16 @@ func s64 static_if_evaluate(struct context *context){
         static_if_stack_pop(context);
         
         switch(current->operation){
-            case STATIC_IF_EVALUATE_logical_not: value = !value; break;
+            case STATIC_IF_EVALUATE_logical_not: value = !value; is_unsigned = 0; break;
             case STATIC_IF_EVALUATE_bitwise_not: value = ~value; break;
             case STATIC_IF_EVALUATE_unary_minus: value = -(s64)value; break; // @cleanup: warning?
             
             case STATIC_IF_EVALUATE_left_shift:{
-                is_unsigned |= current->is_unsigned;
+                is_unsigned = current->is_unsigned; // "The type of the result is that of the promoted left operand."
                 value = is_unsigned ? ((u64)current->value << (u64)value) : ((s64)current->value << (s64)value);
             }break;
             case STATIC_IF_EVALUATE_right_shift:{
-                is_unsigned |= current->is_unsigned;
+                is_unsigned = current->is_unsigned; // "The type of the result is that of the promoted left operand."
                 value = is_unsigned ? ((u64)current->value >> (u64)value) : ((s64)current->value >> (s64)value);
             }break;
             
@@ -3221,7 +3221,12 @@ func s64 static_if_evaluate(struct context *context){
                     report_error(context, get_current_token_for_error_report(context), "Divide by zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
                 }
-                value = is_unsigned ? ((u64)current->value / (u64)value) : ((s64)current->value / (s64)value);
+                
+                if(!is_unsigned && (s64)value == -1){
+                    value = 0 - (u64)current->value; // Dividing min_s64 by -1 would trap.
+                }else{
+                    value = is_unsigned ? ((u64)current->value / (u64)value) : ((s64)current->value / (s64)value);
+                }
             }break;
             
             case STATIC_IF_EVALUATE_mod:{
@@ -3230,7 +3235,12 @@ func s64 static_if_evaluate(struct context *context){
                     report_error(context, get_current_token_for_error_report(context), "Mod with zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
                 }
-                value = is_unsigned ? ((u64)current->value % (u64)value) : ((s64)current->value % (s64)value);
+                
+                if(!is_unsigned && (s64)value == -1){
+                    value = 0; // Dividing min_s64 by -1 would trap.
+                }else{
+                    value = is_unsigned ? ((u64)current->value % (u64)value) : ((s64)current->value % (s64)value);
+                }
             }break;
             
             case STATIC_IF_EVALUATE_plus:  is_unsigned |= current->is_unsigned; value = current->value + value; break;
@@ -3303,6 +3313,7 @@ func s64 static_if_evaluate(struct context *context){
                 
                 assert(if_true->operation == STATIC_IF_EVALUATE_ternary_if_true && condition->operation == STATIC_IF_EVALUATE_ternary_condition);
                 
+                is_unsigned |= if_true->is_unsigned;
                 value = condition->value ? if_true->value : value;
             }break;
             
-- 
2.43.0


From 656ee28c4edc47377714f2f145bd7ebda463f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 22/49] fix: layout of bit-fields: unnamed and zero-width
 bit-fields, bit-fields in unions and of mixed types

---
 src/parse.c | 57 +++++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 23e66e8..05a0bfd 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7984,6 +7984,7 @@ case TOKEN_##type_name:{                                                 \
                     
                     struct ast_type *current_bitfield_type = null;
                     s64 current_bitfield_index = 0;
+                    smm current_bitfield_offset = 0;
                     
                     struct token *had_array_of_unknown_size = null;
                     
@@ -8082,8 +8083,19 @@ case TOKEN_##type_name:{                                                 \
                                 compound->base.flags |= TYPE_FLAG_ends_in_array_of_unknown_size;
                             }
                             
+                            smm decl_alignment = declarator.type->alignment;
+                            if(struct_specifiers.alignment){ 
+                                decl_alignment = struct_specifiers.alignment; // Member specifiers are the most inner so they should take precedence.
+                                compound->base.flags |= TYPE_FLAG_is_user_aligned;
+                            }else if(is_packed){
+                                decl_alignment = 1; // If the struct is __declspec(packed), overwrite the _natural_ alignment.
+                            }else if(!(declarator.type->flags & TYPE_FLAG_is_user_aligned) && decl_alignment > context->pragma_alignment){
+                                decl_alignment = context->pragma_alignment;
+                            }
+                            
                             // :bitfields :parse_bitfields
                             b32 this_was_a_bitfield_type_that_fits = false;
+                            b32 is_anonymous_bitfield = false;
                             if(peek_token(context, TOKEN_colon)){
                                 struct token *colon = next_token(context);
                                 
@@ -8103,6 +8115,13 @@ case TOKEN_##type_name:{                                                 \
                                 //  that no further bit-field is to be packed into the unit in which the previous 
                                 //  bitfield, if any, was placed."
                                 if(width == 0){
+                                    
+                                    // If there was a bitfield before it, the next member starts at the alignment of the type.
+                                    if(current_bitfield_type && !is_union){
+                                        size = align_up(size, decl_alignment);
+                                        alignment = max_of(decl_alignment, alignment);
+                                    }
+                                    
                                     current_bitfield_type = null;
                                     current_bitfield_index = 0;
                                     
@@ -8125,13 +8144,9 @@ case TOKEN_##type_name:{                                                 \
                                 
                                 u64 bitfield_base = current_bitfield_index;
                                 
-                                if(current_bitfield_type && current_bitfield_type->size == declarator.type->size && current_bitfield_index + width <= declarator.type->size * 8){
-                                    // 
-                                    // If there was no prior named bitfield, it was not a bitfield that fits. This can happen for e.g.:
-                                    //   
-                                    //   struct { int : 4; int a: 4; };
-                                    // 
-                                    if(compound->amount_of_members) this_was_a_bitfield_type_that_fits = true;
+                                // @note: All members of a union start at the first bit.
+                                if(!is_union && current_bitfield_type && current_bitfield_type->size == declarator.type->size && current_bitfield_index + width <= declarator.type->size * 8){
+                                    this_was_a_bitfield_type_that_fits = true;
                                     
                                     current_bitfield_index += width;
                                 }else{
@@ -8142,7 +8157,8 @@ case TOKEN_##type_name:{                                                 \
                                 
                                 if(declarator.ident == globals.invalid_identifier_token){
                                     // 
-                                    // If this was an anonymous bitfield, do not create a declaration for it.
+                                    // If this was an anonymous bitfield, do not create a declaration for it,
+                                    // only reserve the space.
                                     // This will cause it to get _skipped_ during initialization:
                                     // 
                                     //     struct{
@@ -8154,11 +8170,7 @@ case TOKEN_##type_name:{                                                 \
                                     // Should have 'bitfield.a == 1' and 'bitfield.b == 1'.
                                     // 
                                     
-                                    // If there is another thing after this continue the declarator loop. 
-                                    if(peek_token(context, TOKEN_comma)) continue;
-                                    
-                                    // No more declarators.
-                                    break;
+                                    is_anonymous_bitfield = true;
                                 }
                                 
                                 struct ast_bitfield_type *bitfield = parser_type_push(context, bitfield_type);
@@ -8174,24 +8186,13 @@ case TOKEN_##type_name:{                                                 \
                                 current_bitfield_index = 0;
                             }
                             
-                            smm decl_alignment = declarator.type->alignment;
-                            if(struct_specifiers.alignment){ 
-                                decl_alignment = struct_specifiers.alignment; // Member specifiers are the most inner so they should take precedence.
-                                compound->base.flags |= TYPE_FLAG_is_user_aligned;
-                            }else if(is_packed){
-                                decl_alignment = 1; // If the struct is __declspec(packed), overwrite the _natural_ alignment.
-                            }else if(!(declarator.type->flags & TYPE_FLAG_is_user_aligned) && decl_alignment > context->pragma_alignment){
-                                decl_alignment = context->pragma_alignment;
-                            }
-                            
                             smm offset_in_type;
                             
                             if(this_was_a_bitfield_type_that_fits){
                                 // 
-                                // Copy the offset from the previous bitfield type.
+                                // Use the offset of the storage unit of the previous bitfield.
                                 // 
-                                assert(compound->members[compound->amount_of_members-1].type->kind == AST_bitfield_type);
-                                offset_in_type = compound->members[compound->amount_of_members-1].offset_in_type;
+                                offset_in_type = current_bitfield_offset;
                             }else if(is_union){
                                 offset_in_type = 0;
                                 size = max_of(declarator.type->size, size);
@@ -8208,6 +8209,10 @@ case TOKEN_##type_name:{                                                 \
                             // The alignment is the strictest alignment for any of the members.
                             alignment = max_of(decl_alignment, alignment);
                             
+                            current_bitfield_offset = offset_in_type;
+                            
+                            if(is_anonymous_bitfield) continue;
+                            
                             if(!context->should_exit_statement){
                                 
                                 if(declarator.ident != globals.invalid_identifier_token){
-- 
2.43.0


From 8361f7f2790e383041161d359213b79034d1d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 23/49] fix: explicit alignment propagates through arrays and
 nested structures under #pragma pack

---
 src/parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 05a0bfd..d551984 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8089,7 +8089,9 @@ case TOKEN_##type_name:{                                                 \
                                 compound->base.flags |= TYPE_FLAG_is_user_aligned;
                             }else if(is_packed){
                                 decl_alignment = 1; // If the struct is __declspec(packed), overwrite the _natural_ alignment.
-                            }else if(!(declarator.type->flags & TYPE_FLAG_is_user_aligned) && decl_alignment > context->pragma_alignment){
+                            }else if(declarator.type->flags & TYPE_FLAG_is_user_aligned){
+                                compound->base.flags |= TYPE_FLAG_is_user_aligned; // '#pragma pack' does not affect an explicit alignment, even if it is nested.
+                            }else if(decl_alignment > context->pragma_alignment){
                                 decl_alignment = context->pragma_alignment;
                             }
                             
@@ -10349,6 +10351,7 @@ func struct declarator_return parse_declarator(struct context* context, struct a
             }
             
             array_type->base.alignment = ret.type->alignment;
+            array_type->base.flags |= ret.type->flags & TYPE_FLAG_is_user_aligned;
         }else{
             invalid_code_path;
         }
-- 
2.43.0


From e06d3dc0f75750eb801c7dc5d3e3235db5721705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 24/49] fix: initializer order after a member of a nested
 anonymous structure or union

---
 src/parse.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index d551984..529ea25 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8234,6 +8234,8 @@ case TOKEN_##type_name:{                                                 \
                                     // First register the "anonymous" nested member, then each of the members of the substructure.
                                     register_compound_member(context, compound, declarator.ident, declarator.type, offset_in_type, nested_compound->amount_of_members + /*the nested compound itself*/1);
                                     
+                                    smm end_of_direct_member = 0;
+                                    
                                     for(u32 member_index = 0; member_index < nested_compound->amount_of_members; member_index++){
                                         struct compound_member *member = &nested_compound->members[member_index];
                                         
@@ -8244,7 +8246,16 @@ case TOKEN_##type_name:{                                                 \
                                             }
                                         }
                                         
-                                        smm next_member_increment = (nested_compound->base.kind == AST_union) ? nested_compound->amount_of_members - member_index : 1;
+                                        smm next_member_increment = member->next_member_increment;
+                                        
+                                        b32 is_direct_member = (member_index == end_of_direct_member);
+                                        if(is_direct_member) end_of_direct_member += next_member_increment;
+                                        
+                                        // Only one direct member of a union is initialized, the next member is the one after the union.
+                                        if(nested_compound->base.kind == AST_union && (is_direct_member || member_index + next_member_increment >= end_of_direct_member)){
+                                            next_member_increment = nested_compound->amount_of_members - member_index;
+                                        }
+                                        
                                         register_compound_member(context, compound, member->name, member->type, offset_in_type + member->offset_in_type, next_member_increment);
                                     }
                                 }
-- 
2.43.0


From 89da9d9c1911509f7029d70eedd06a573c472d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 25/49] fix: static initializers of bit-fields overwrite
 neighbouring bit-fields when the value does not fit

---
 src/main.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index a4b32f0..9b93763 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2491,10 +2491,9 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                                 memcpy(&old_value, data + offset, lhs_type->size);
                                 
                                 struct ast_bitfield_type *bitfield = cast(struct ast_bitfield_type *)lhs_type;
-                                value <<= bitfield->bit_index;
+                                u64 mask = (bitfield->width == 64) ? ~0ull : ((1ull << bitfield->width) - 1);
                                 
-                                u64 mask = ~(((1ull << bitfield->width) - 1) << bitfield->bit_index);
-                                u64 new_value = (mask & old_value) | value;
+                                u64 new_value = (old_value & ~(mask << bitfield->bit_index)) | ((value & mask) << bitfield->bit_index);
                                 memcpy(data + offset, &new_value, lhs_type->size);
                             }else{
                                 assert(lhs_type->kind == AST_integer_type || lhs_type->kind == AST_pointer_type || lhs_type->kind == AST_atomic_integer_type);
-- 
2.43.0


From d4528bf18e7bf7e74ed8b0f10e6a422459315635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 26/49] fix: length of an array of unknown length whose last
 element is only partially initialized

---
 src/parse.c | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 529ea25..00ffc6c 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2600,6 +2600,24 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
             }
         }
         
+        // :trailing_arrays
+        // 
+        // If we just initialized (part of) an element of an array of unknown size,
+        // the array has to contain that element. The array is either at the top-level,
+        // or it is the trailing array member of the structure, otherwise the parsing code 
+        // would have rejected the structure.
+        // 
+        for(struct designator_node *node = designator_stack.first; node; node = node->next){
+            if(!type_is_array_of_unknown_size(node->lhs_type)) continue;
+            
+            smm amount_of_elements = node->array_at + 1;
+            smm element_size = ((struct ast_array_type *)node->lhs_type)->element_type->size;
+            
+            smm array_size = amount_of_elements * element_size; // @cleanup: overflow
+            
+            trailing_initializer_size = max_of(trailing_initializer_size, array_size);
+        }
+        
         int at_end = peek_token(context, TOKEN_closed_curly) != 0;
         
         while(true){
@@ -2631,23 +2649,8 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                 node->array_at++;
                 node->offset_at += array->element_type->size;
                 
-                if(array->is_of_unknown_size){
-                    
-                    // :trailing_arrays
-                    // 
-                    // If we are initializing an array of unknown size, we are at the trailing 
-                    // array member of the structure, otherwise the parsing code would have rejected
-                    // the structure.
-                    // 
-                    
-                    smm amount_of_elements = node->array_at;
-                    smm element_size = array->element_type->size;
-                    
-                    smm array_size = amount_of_elements * element_size; // @cleanup: overflow
-                    
-                    trailing_initializer_size = max_of(trailing_initializer_size, array_size);
-                    break;
-                }
+                if(array->is_of_unknown_size) break; // @note: The size was updated above.
+                
                 if(!at_end && (node->array_at < array->amount_of_elements)) break;
             }
             
-- 
2.43.0


From de822c11c0597cabe7699c26fe8595e52a36e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 27/49] fix: an array of unknown length initialized by a string
 literal keeps its element type

---
 src/parse.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 00ffc6c..69a73b2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2838,9 +2838,16 @@ func void parse_initializer(struct context *context, struct ast_declaration *dec
                 
                 if(lhs_type->is_of_unknown_size){
                     // 
-                    // We want the type to be patched to the type of the string literal.
+                    // We want the size to be patched to the size of the string literal.
+                    // @note: We cannot use the type of the string literal as it might have different signedness.
                     // 
-                    type = &rhs_type->base;
+                    struct ast_array_type *array_type = parser_type_push(context, array_type);
+                    array_type->element_type              = lhs_type->element_type;
+                    array_type->element_type_defined_type = lhs_type->element_type_defined_type;
+                    
+                    patch_array_size(context, array_type, rhs_type->amount_of_elements, equals);
+                    
+                    type = &array_type->base;
                 }else if(lhs_type->amount_of_elements == (rhs_type->amount_of_elements - 1)){
                     // 
                     // Here we are in the 'char a[3] = "asd"' case.
-- 
2.43.0


From 6e56e656b894ac22ce8f85a3fe1e43b80651bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 28/49] fix: string literals only initialize arrays of
 integers, not arrays of arrays of the same size

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 69a73b2..fd01d1b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2493,7 +2493,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                 struct ast_array_type *wanted_array = (struct ast_array_type *)designator_stack.first->lhs_type;
                 struct ast_array_type *given_array  = (struct ast_array_type *)expression.resolved_type;
                 
-                if(wanted_array->element_type->size == given_array->element_type->size){
+                if(wanted_array->element_type->kind == AST_integer_type && wanted_array->element_type->size == given_array->element_type->size){
                     
                     // Pop one layer off the designator stack, making `designator_stack.first->lhs_type` the current object type.
                     current_object_type = designator_stack.first->lhs_type;
@@ -2533,7 +2533,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                     struct ast_array_type *wanted_array = (struct ast_array_type *)current_object_type;
                     struct ast_array_type *given_array = (struct ast_array_type *)expression.resolved_type;
                     
-                    if(wanted_array->element_type->size == given_array->element_type->size){
+                    if(wanted_array->element_type->kind == AST_integer_type && wanted_array->element_type->size == given_array->element_type->size){
                         
                         if(wanted_array->is_of_unknown_size){
                             trailing_initializer_size = max_of(trailing_initializer_size, given_array->base.size);
-- 
2.43.0


From a7eadeebe186f53aaf095ee9d981eae604422a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 29/49] fix: initializers after a designated member of a nested
 anonymous structure continue in that structure

---
 src/parse.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index fd01d1b..7ce9d32 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2238,9 +2238,40 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                         goto error;
                     }
                     
+                    smm member_at = found - compound->members;
+                    
+                    // 
+                    // If the member is part of a nested anonymous structure or union, first designate 
+                    // the nested anonymous structure or union, such that the initializers following 
+                    // this one continue with the members of the nested type.
+                    // 
+                    for(smm member_index = 0; member_index < member_at;){
+                        struct compound_member *member = &compound->members[member_index];
+                        
+                        if(member_index + member->next_member_increment <= member_at){
+                            member_index += member->next_member_increment;
+                            continue;
+                        }
+                        
+                        designator_stack.first->member_at  = member_index;
+                        designator_stack.first->offset_at += member->offset_in_type;
+                        
+                        struct designator_node *nested_node = push_struct(&context->scratch, struct designator_node);
+                        nested_node->lhs_type  = member->type;
+                        nested_node->offset_at = designator_stack.first->offset_at;
+                        sll_push_front(designator_stack, nested_node);
+                        
+                        // The linear members follow the nested type.
+                        compound  = (struct ast_compound_type *)member->type;
+                        member_at = member_at - (member_index + 1);
+                        found     = &compound->members[member_at];
+                        
+                        member_index = 0;
+                    }
+                    
                     u64 new_offset = designator_stack.first->offset_at + found->offset_in_type;
                     
-                    designator_stack.first->member_at = found - compound->members;
+                    designator_stack.first->member_at = member_at;
                     designator_stack.first->offset_at = new_offset;
                     
                     struct designator_node *new_node = push_struct(&context->scratch, struct designator_node);
-- 
2.43.0


From a616ef11b4abed5d5e9d6a7ff4da1881068854fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:17 +0000
Subject: [PATCH 30/49] fix: stringify the absent variable arguments of a macro
 as an empty string

---
 src/preprocess.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 2a96014..dba7342 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2120,6 +2120,10 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             if(define->is_varargs && !arg->next->next){
                                 // varargs with no arguments in __VA_ARGS__ is fine
                                 argument_token_arrays[arg->next->argument_index] = (struct token_array)zero_struct;
+                                
+                                if(arg->next->stringify_index != -1){
+                                    stringified_arguments[arg->next->stringify_index] = string("\"\"");
+                                }
                                 break;
                             }
                             
-- 
2.43.0


From b5ad071ace5a68857eeee54b03c8bc2c2840fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 31/49] fix: a chain of '##' whose first operands are empty

---
 src/preprocess.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index dba7342..0f1e89d 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2333,8 +2333,14 @@ func struct token *expand_define(struct context *context, struct token *token_to
     
     struct token_stack_node *define_token_stack_at = context->token_stack.nodes + (define_token_stack_start + define_token_stack_count - 1);
     
+    // Set, if the previous '##' had no tokens on both sides. The next '##' in a chain then has an empty left hand side.
+    b32 previous_hashhash_is_empty = false;
+    
     for(struct define_replacement_node *replacement = define->replacement_list.first; replacement; replacement = replacement->next){
         
+        b32 prefix_hashhash_is_empty = previous_hashhash_is_empty;
+        previous_hashhash_is_empty = false;
+        
         // @note: we copy all (relevant) tokens outside the tokenizer, thus all allocations can be on 'scratch'
         switch(replacement->kind){
             case DEFINE_REPLACEMENT_tokens:{
@@ -2393,6 +2399,8 @@ func struct token *expand_define(struct context *context, struct token *token_to
                         
                         prefix_token = arg_tokens.data + arg_tokens.amount - 1;
                     }
+                }else if(prefix_hashhash_is_empty){
+                    prefix_is_empty = true;
                 }else{
                     // :cannot_store_prefix
                     // we cannot predict the prefix token while parsing defines, as there can be ## chains and
@@ -2460,6 +2468,8 @@ func struct token *expand_define(struct context *context, struct token *token_to
                     define_token_stack_at->at = 0;
                     define_token_stack_at->define_to_reenable_on_exit = 0;
                     define_token_stack_at -= 1;
+                }else{
+                    previous_hashhash_is_empty = true;
                 }
                 
                 if(postfix_array.data){
-- 
2.43.0


From 24de55937c0f10a8566f4696512c657f896defb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:30 +0000
Subject: [PATCH 32/49] fix: an invocation without arguments may contain
 newlines

---
 src/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 0f1e89d..05712aa 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1977,7 +1977,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
         assert(open_paren->type == TOKEN_open_paren); // This should have been ensured by the outside.
         
         if(sll_is_empty(define->arguments)){
-            eat_whitespace_and_comments(context);
+            eat_whitespace_comments_and_newlines(context);
             
             if(!peek_token_eat_raw(context, TOKEN_closed_paren)){
                 begin_error_report(context);
-- 
2.43.0


From 3e0dd71cef2c564bb49cf54bec114715b498e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:13 +0000
Subject: [PATCH 33/49] fix: '##' followed by a stringified argument

---
 src/preprocess.c | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 05712aa..ede8e32 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -79,7 +79,8 @@ struct define_replacement_node{
             // :cannot_store_prefix
             smm prefix_argument;         // can be '-1' if invalid
             smm postfix_argument;        // can be '-1' if invalid
-            struct token *postfix_token; // used if 'postfix_argument == -1'
+            smm postfix_stringify_index; // can be '-1' if the postfix is not a stringified argument
+            struct token *postfix_token; // used if 'postfix_argument == -1' and 'postfix_stringify_index == -1'
         }; // DEFINE_REPLACEMENT_hashhash
     };
 };
@@ -224,6 +225,18 @@ func b32 skip_until_tokens_are_balanced_raw(struct context *context, struct toke
 
 //_____________________________________________________________________________________________________________________
 
+// Parses the argument following the '#' of a replacement list. Returns null if there is none.
+func void eat_whitespace_and_comments(struct context *context);
+
+func struct define_argument *parse_stringified_argument(struct context *context, struct define_argument_list arguments, smm *stringify_count){
+    eat_whitespace_and_comments(context);
+    if(!peek_token_raw(context, TOKEN_identifier)) return null;
+    
+    struct define_argument *arg = lookup_define_argument(arguments, next_token_raw(context));
+    if(arg && arg->stringify_index == -1) arg->stringify_index = (*stringify_count)++;
+    return arg;
+}
+
 func void print_token(struct context *context, struct token *token, b32 print_whitespace_and_comments);
 func void print_define(struct context *context, struct define_node *define, char *prefix){
     (void)(context);
@@ -2443,6 +2456,11 @@ func struct token *expand_define(struct context *context, struct token *token_to
                         postfix_array.data   = arg_tokens.data   + 1;
                         postfix_array.amount = arg_tokens.amount - 1;
                     }
+                }else if(replacement->postfix_stringify_index != -1){
+                    postfix_token = push_struct(&context->scratch, struct token);
+                    postfix_token->type = TOKEN_string_literal;
+                    postfix_token->data = stringified_arguments[replacement->postfix_stringify_index].data;
+                    postfix_token->size = stringified_arguments[replacement->postfix_stringify_index].size;
                 }else{
                     postfix_token = replacement->postfix_token;
                 }
@@ -4045,6 +4063,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                     replacement->kind = DEFINE_REPLACEMENT_hashhash;
                                     replacement->prefix_argument  = arg->argument_index;
                                     replacement->postfix_argument = -1;
+                                    replacement->postfix_stringify_index = -1;
                                     
                                     token_stack_node_count += 3; // Prefix, merged, postfix.
                                     
@@ -4062,6 +4081,13 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                         if(other_arg){
                                             replacement->postfix_argument = other_arg->argument_index;
                                         }
+                                    }else if(postfix_token->type == TOKEN_hash){
+                                        struct define_argument *other_arg = parse_stringified_argument(context, arguments, &stringify_count);
+                                        if(!other_arg){
+                                            report_error(context, postfix_token, "Expected a formal argument after '#' in macro replacement list for '%.*s'.", defined_identifier->size, defined_identifier->data);
+                                            goto end;
+                                        }
+                                        replacement->postfix_stringify_index = other_arg->stringify_index;
                                     }
                                 }else{
                                     arg->needs_to_be_expanded_count += 1;
@@ -4078,20 +4104,13 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                         }else if(peek_token_raw(context, TOKEN_hash)){
                             handled = true;
                             struct token *hash = next_token_raw(context);
-                            eat_whitespace_and_comments(context);
-                            struct define_argument *arg = null;
-                            if(peek_token_raw(context, TOKEN_identifier)){
-                                struct token *ident = next_token_raw(context);
-                                arg = lookup_define_argument(arguments, ident);
-                            }
                             
+                            struct define_argument *arg = parse_stringified_argument(context, arguments, &stringify_count);
                             if(!arg){
                                 report_error(context, hash, "Expected a formal argument after '#' in macro replacement list for '%.*s'.", defined_identifier->size, defined_identifier->data);
                                 goto end;
                             }
                             
-                            if(arg->stringify_index == -1) arg->stringify_index = stringify_count++;
-                            
                             struct define_replacement_node *replacement = push_struct(&context->scratch, struct define_replacement_node);
                             replacement->kind = DEFINE_REPLACEMENT_hash;
                             replacement->stringify_index = arg->stringify_index;
@@ -4112,6 +4131,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             replacement->kind = DEFINE_REPLACEMENT_hashhash;
                             replacement->prefix_argument  = -1;
                             replacement->postfix_argument = -1;
+                            replacement->postfix_stringify_index = -1;
                             
                             token_stack_node_count += 3; // Prefix, merged, postfix.
                             
@@ -4123,6 +4143,13 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                 if(arg){
                                     replacement->postfix_argument = arg->argument_index;
                                 }
+                            }else if(is_function_like && replacement->postfix_token->type == TOKEN_hash){
+                                struct define_argument *arg = parse_stringified_argument(context, arguments, &stringify_count);
+                                if(!arg){
+                                    report_error(context, replacement->postfix_token, "Expected a formal argument after '#' in macro replacement list for '%.*s'.", defined_identifier->size, defined_identifier->data);
+                                    goto end;
+                                }
+                                replacement->postfix_stringify_index = arg->stringify_index;
                             }
                             sll_push_back(replacement_list, replacement);
                         }
-- 
2.43.0


From 822f74a73a0d46881c385b0bdd9ac29a6383737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:25 +0000
Subject: [PATCH 34/49] fix: a null directive does not end a skipped group

---
 src/preprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index ede8e32..c34bcc5 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -3699,6 +3699,9 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
             
             if(peek_token_raw(context, TOKEN_newline)){
                 // do nothing
+                if(static_if_stack.first && !static_if_stack.first->is_true){
+                    goto jump_because_a_postponed_static_if_was_disabled_and_we_should_search_for_the_next_directive;
+                }
                 continue;
             }
             
-- 
2.43.0


From aeb2ef6ae6e5fa5dfc0317d0dcc84e226b7db632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 35/49] fix: keep the white space of replacement lists for '#'

---
 src/preprocess.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index c34bcc5..9be7dd9 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -4045,20 +4045,34 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                     // We don't have to worry about the file ending and not having a newline at the end,
                     // as we put a newline at the end of the file.
                     // 
+                    // The white space between the tokens is kept (as it matters for '#'), unless it is next to a '##'.
+                    // 
+                    struct token whitespace = { .type = TOKEN_whitespace, .string = const_string(" ") };
+                    b32 got_whitespace = false;
+                    
                     while(!peek_token_raw(context, TOKEN_newline)){
                         b32 handled = false;
                         
-                        if(peek_token_raw(context, TOKEN_identifier)){
+                        b32 add_whitespace = got_whitespace && !peek_token_raw(context, TOKEN_hashhash);
+                        got_whitespace = false;
+                        
+                        if(add_whitespace){
+                            // We add the 'whitespace' below.
+                        }else if(peek_token_raw(context, TOKEN_identifier)){
                             struct token *ident = get_current_token_raw(context);
                             struct define_argument *arg = lookup_define_argument(arguments, ident);
                             if(arg){
                                 next_token_raw(context);
                                 handled = true;
+                                
+                                got_whitespace = peek_token_raw(context, TOKEN_whitespace) || peek_token_raw(context, TOKEN_comment);
                                 eat_whitespace_and_comments(context);
                                 
                                 struct define_replacement_node *replacement = push_struct(&context->scratch, struct define_replacement_node);
                                 
                                 if(peek_token_raw(context, TOKEN_hashhash)){
+                                    got_whitespace = false;
+                                    
                                     struct token *hashhash = next_token_raw(context);
                                     
                                     eat_whitespace_and_comments(context);
@@ -4195,7 +4209,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             }
                             
                             define_amount++;
-                            *push_uninitialized_struct(&context->scratch, struct token) = *next_token_raw(context);
+                            *push_uninitialized_struct(&context->scratch, struct token) = add_whitespace ? whitespace : *next_token_raw(context);
                             replacement_list.last->tokens.amount = define_amount;
                         }else{
                             
@@ -4204,7 +4218,10 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             define_tokens = null;
                         }
                         
-                        eat_whitespace_and_comments(context);
+                        if(peek_token_raw(context, TOKEN_whitespace) || peek_token_raw(context, TOKEN_comment)){
+                            got_whitespace = true;
+                            eat_whitespace_and_comments(context);
+                        }
                     }
                     
                     struct define_node *redecl = lookup_define(context, name);
-- 
2.43.0


From 6b6d80a01f9f9b7e38a83778180f34714ce1f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:24 +0000
Subject: [PATCH 36/49] fix: the column after a block comment within a line

---
 src/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 9be7dd9..e16170a 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1520,7 +1520,7 @@ at     += size;
                 if(at[1] == '*'){
                     at += 2;
                     
-                    u8 *last_newline = at - column; // actually the newline, as 1 counted
+                    u8 *last_newline = start - column; // actually the newline, as 1 counted
                     while(*at){
                         if(at[1] == '/' && at[0] == '*'){
                             break;
-- 
2.43.0


From 827be72d2142cbb774038fa27eb60f2e65380078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:50 +0000
Subject: [PATCH 37/49] fix: a failed write of the program database is an error

---
 src/coff_writer.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 36bb330..f539f08 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -527,7 +527,9 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
     HANDLE file_handle = CreateFileA(file_name, GENERIC_WRITE, 0, 0, CREATE_ALWAYS, 0, NULL);
     if(file_handle == INVALID_HANDLE_VALUE) return 0;
     
-    WriteFile(file_handle, msf_header, 0x1000, 0, 0);
+    b32 success = true; // Whether everything could be written.
+    
+    if(!WriteFile(file_handle, msf_header, 0x1000, 0, 0)) success = false;
     
     u64 write_offset = 0x1000;
     u64 next_free_page_maps = 0x1000;
@@ -556,11 +558,11 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                 if(range_end <= amount_of_pages){
                     // If the range covered by this free page map is entirely in the file,
                     // write all zeros (all allocated).
-                    WriteFile(file_handle, zero_buffer, 0x1000, 0, 0);
+                    if(!WriteFile(file_handle, zero_buffer, 0x1000, 0, 0)) success = false;
                 }else if(amount_of_pages < range_start){
                     // If the range covered by this free page map is entirely outside the file,
                     // write all ones (all free).
-                    WriteFile(file_handle, ones_buffer, 0x1000, 0, 0);
+                    if(!WriteFile(file_handle, ones_buffer, 0x1000, 0, 0)) success = false;
                 }else{
                     u8 buffer[0x1000] = {0};
                     
@@ -573,10 +575,10 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                         
                         buffer[byte_index] |= (u8)(1 << bit_index);
                     }
-                    WriteFile(file_handle, buffer, 0x1000, 0, 0);
+                    if(!WriteFile(file_handle, buffer, 0x1000, 0, 0)) success = false;
                 }
                 
-                WriteFile(file_handle, zero_buffer, 0x1000, 0, 0); // Ignored free page map.
+                if(!WriteFile(file_handle, zero_buffer, 0x1000, 0, 0)) success = false; // Ignored free page map.
                 
                 write_offset += 0x2000;
                 next_free_page_maps += 0x1000 * 0x1000;
@@ -588,11 +590,11 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                 size_to_write = (u32)(next_free_page_maps - write_offset);
             }
             
-            WriteFile(file_handle, stream.data + offset_in_stream, size_to_write, 0, 0);
+            if(!WriteFile(file_handle, stream.data + offset_in_stream, size_to_write, 0, 0)) success = false;
             
             if(size_to_write & 0xfff){
                 u32 size_to_zero = 0x1000 - (size_to_write & 0xfff);
-                WriteFile(file_handle, zero_buffer, size_to_zero, 0, 0); // Ignored free page map.
+                if(!WriteFile(file_handle, zero_buffer, size_to_zero, 0, 0)) success = false; // Ignored free page map.
                 size_to_write += size_to_zero;
             }
             
@@ -602,7 +604,7 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
     }
     
     CloseHandle(file_handle);
-    return 1;
+    return success;
 }
 
 //_____________________________________________________________________________________________________________________
-- 
2.43.0


From a468053ae87e1d510a34c382e3f69e3fb8188a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:50 +0000
Subject: [PATCH 38/49] fix: lines and columns after a literal continued on the
 next line

---
 src/preprocess.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index e16170a..59d8217 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1571,13 +1571,17 @@ at     += size;
                 u8 _ = *at++;
                 assert(_ == '\'');
                 
+                u8 *last_newline = start - column; // actually the newline, as 1 counted
                 while(true){
                     if(at[0] == '\\'){
-                        if(at[1] == '\r' && at[2] == '\n'){
-                            at += 3;
-                        }else{
-                            at += 2; // Skip the escaped character, whatever it is.
+                        if(at[1] == '\r') at += (at[2] == '\n');
+                        
+                        if(at[1] == '\n'){
+                            line += 1;
+                            last_newline = at + 1;
                         }
+                        
+                        at += 1 + (at[1] != 0); // Skip the escaped character, whatever it is.
                     }else if(at[0] == '\''){
                         break;
                     }else if(!*at || at[0] == '\n'){
@@ -1592,7 +1596,7 @@ at     += size;
                     at += 1; // eat the end quote
                 }
                 
-                column += at - start;
+                column = at - last_newline;
                 
                 if(no_end){
                     cur->data = start;
@@ -1610,15 +1614,17 @@ at     += size;
                 u8 _ = *at++;
                 assert(_ == '"');
                 
+                u8 *last_newline = start - column; // actually the newline, as 1 counted
                 while(true){
                     if(at[0] == '\\'){
-                        if(at[1] == '\r' && at[2] == '\n'){
-                            at += 3;
+                        if(at[1] == '\r') at += (at[2] == '\n');
+                        
+                        if(at[1] == '\n'){
                             line += 1;
-                        }else{
-                            line += (at[1] == '\n');
-                            at += 2; // Skip the escaped character, whatever it is.
+                            last_newline = at + 1;
                         }
+                        
+                        at += 1 + (at[1] != 0); // Skip the escaped character, whatever it is.
                     }else if(at[0] == '\"'){
                         at += 1; // eat the end quote
                         break;
@@ -1630,7 +1636,7 @@ at     += size;
                     }
                 }
                 
-                column += at - start;
+                column = at - last_newline;
                 
                 if(no_end){
                     cur->data = start;
-- 
2.43.0


From 1676efcba29a6430294a943cad607ff86831b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:50 +0000
Subject: [PATCH 39/49] fix: errors in predefines, alternate names, the
 implicit declarations and unnamed literals stop the compilation

---
 src/main.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 9b93763..1bcbbdb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3848,6 +3848,9 @@ int main(int argc, char *argv[]){
     int cli_parse_options_success = cli_parse_options(&globals.cli_options, arena, argc-1, argv+1);
     if(!cli_parse_options_success) return 1;
     
+    if(!globals.cli_options.warning_limit_specified) globals.cli_options.warning_limit = 100;
+    if(!globals.cli_options.error_limit_specified)   globals.cli_options.error_limit = 100;
+    
 #if PRINT_COMMAND_LINE
     if(!globals.cli_options.quiet){
         print("\n");
@@ -4311,8 +4314,11 @@ globals.typedef_##postfix = (struct ast_type){
             
             struct string predefines_string = string_list_flatten(predefines, arena);
             
+            globals.compile_stage = COMPILE_STAGE_tokenize_files;
             struct token_array tokens = tokenize_raw(context, predefines_string, (u32)globals.invalid_file.file_index, /*is_stupid_hack*/false, /*out lines*/null);
             globals.predefined_tokens = tokens;
+            
+            if(context->error) globals.an_error_has_occurred = true;
         }
         
         globals.keyword_dllimport   = atom_for_string(string("dllimport"));
@@ -4668,9 +4674,6 @@ globals.typedef_##postfix = (struct ast_type){
         globals.tls_index_declaration->flags |= DECLARATION_FLAGS_is_global | DECLARATION_FLAGS_is_extern | DECLARATION_FLAGS_is_intrinsic;
         globals.tls_index_declaration->compilation_unit = &globals.hacky_global_compilation_unit;
         ast_table_add_or_return_previous_entry(&globals.global_declarations, &globals.tls_index_declaration->kind, globals.tls_index_declaration->identifier);
-        
-        if(!globals.cli_options.warning_limit_specified) globals.cli_options.warning_limit = 100;
-        if(!globals.cli_options.error_limit_specified)   globals.cli_options.error_limit = 100;
     }
     
 #if PRINT_ADDITIONAL_INCLUDE_DIRECTORIES
@@ -5030,6 +5033,11 @@ globals.typedef_##postfix = (struct ast_type){
         }
     }
     
+    if(context->error){
+        globals.an_error_has_occurred = true;
+        goto end;
+    }
+    
     struct string_list attempted_entry_point_string_list = {};
     
     if(!globals.cli_options.no_entry){
@@ -5136,6 +5144,7 @@ globals.typedef_##postfix = (struct ast_type){
                     work_entry->data  = work;
                     
                     worker_preprocess_file(context, work_entry); // This preprocesses the file and then adds things into the work_queue below.
+                    if(context->error) globals.an_error_has_occurred = true;
                     
                     // Parse the new file.
                     while(globals.work_queue_parse_global_scope_entries.work_entries_in_flight > 0) worker_work(context, &globals.work_queue_parse_global_scope_entries, worker_parse_global_scope_entry);
@@ -5616,6 +5625,8 @@ globals.typedef_##postfix = (struct ast_type){
             struct ast_declaration *decl = (struct ast_declaration *)it->value;
             decl->memory_location = evaluate_static_initializer(thread_context, decl);
         }
+        
+        if(thread_context->error) globals.an_error_has_occurred = true;
     }
     
     stage_three_emit_code_time = os_get_time_in_seconds() - stage_three_emit_code_time;
-- 
2.43.0


From 5dbcfee22dba72ac5c57a839ede4756cb77c599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:21 +0000
Subject: [PATCH 40/49] fix: the offset of a constant pointer into a string
 literal is kept in executables

---
 src/coff_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index f539f08..966b536 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1723,6 +1723,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     struct ir_string_literal *lit = (struct ir_string_literal *)patch->source;
                     
                     source_location = (smm)lit->relative_virtual_address + image_optional_header->image_base;
+                    source_location += patch->location_offset_in_source_declaration;
                 }
                 
                 *cast(smm *)memory_location = source_location;
-- 
2.43.0


From 16d6b0f14a80fc6be5bccc018741b0ae7df006fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 41/49] fix: the unwind code of a stack allocation above 512k
 has its size in the next slots

---
 src/obj_writer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 1ec2f64..4011240 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -943,7 +943,10 @@ func void *push_unwind_information_for_function(struct memory_arena *arena, stru
         
         stack_allocation_code->operation_code = /*UWOP_ALLOC_LARGE*/1;
         stack_allocation_code->operation_info = 1;
-        *push_struct(arena, u32) = (u32)stack_space_needed;
+        
+        // @note: The two slots follow immediately, so this cannot be pushed as an (aligned) u32.
+        *push_struct(arena, u16) = (u16)(stack_space_needed >>  0);
+        *push_struct(arena, u16) = (u16)(stack_space_needed >> 16);
     }
     
     // @incomplete: Pushing r8-r15 needs 2 bytes each.
-- 
2.43.0


From 9ddd316db08d901f9e9d11a9387ad7574d59a3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:04 +0000
Subject: [PATCH 42/49] fix: the thread local section starts aligned for all of
 its declarations

---
 src/coff_writer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 966b536..d6d30c0 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1505,8 +1505,12 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
         if(tls_declarations.count){
             {
                 // Calculate the start of the tls section.
-                struct ast_declaration *first_tls_decl = (struct ast_declaration *)tls_declarations.first->value;
-                smm alignment = get_declaration_alignment(first_tls_decl);
+                // It has to be aligned for every declaration, as threads get an aligned copy of the section.
+                smm alignment = 1;
+                for_ast_list(tls_declarations){
+                    smm decl_alignment = get_declaration_alignment((struct ast_declaration *)it->value);
+                    if(alignment < decl_alignment) alignment = decl_alignment;
+                }
                 push_align(arena, (u32)alignment); // @cleanup: why does push align take a u32?
                 tls_data_rva = make_relative_virtual_address(rdata_section_start, arena_current(arena));
             }
-- 
2.43.0


From 0d8756217c27d4aca944f6b51d57c3227c88e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:23 +0000
Subject: [PATCH 43/49] fix: object files: each function's unwind symbol is at
 its own unwind information

---
 src/obj_writer.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 4011240..82d070b 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1454,6 +1454,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     struct coff_section_header *tls   = null;
     struct coff_section_header *bss   = null;
     struct coff_section_header *xdata = null;
+    u32 *unwind_info_offsets = null; // One per defined function.
     struct coff_section_header *pdata = null;
     struct coff_section_header *debug_symbols = null;
     struct coff_section_header *debug_types   = null;
@@ -1529,13 +1530,16 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     
     if(defined_functions.count){
         xdata = section_headers + section_header_count++;
+        unwind_info_offsets = push_data(scratch, u32, defined_functions.count);
         
         u8 *xdata_base = arena_current(arena);
+        smm function_index = 0;
         
         for_ast_list(defined_functions){
             struct ast_function *function = (struct ast_function *)it->value;
             
-            push_unwind_information_for_function(arena, function);
+            u8 *unwind_info = push_unwind_information_for_function(arena, function);
+            unwind_info_offsets[function_index++] = (u32)(unwind_info - xdata_base);
         }
         
         memcpy(xdata->name, ".xdata", sizeof(".xdata"));
@@ -2439,7 +2443,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         // Emit one symbol for each function.
         // 
         
-        u32 unwind_info_offset = 0;
+        smm function_index = 0;
         u32 pdata_offset = 0;
         
         for_ast_list(defined_functions){
@@ -2479,17 +2483,10 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 string_list_postfix(&long_name_strings, scratch, unwind_string);
             }
             
-            unwind_record->value = unwind_info_offset;
+            unwind_record->value = unwind_info_offsets[function_index++];
             unwind_record->section_number = (s16)((xdata - section_headers) + 1);
             unwind_record->storage_class = /*IMAGE_SYM_CLASS_STATIC*/3;
             
-            // 
-            // Advance the offset to the next unwind info.
-            // 
-            u8 *unwind_data = obj_base_address + xdata->pointer_to_raw_data;
-            u8 count_of_codes = unwind_data[2];
-            unwind_info_offset += 4 + (count_of_codes + (count_of_codes & 1)) * 2;
-            
             struct coff_symbol_table_record *pdata_record = (struct coff_symbol_table_record *)push_data(arena, u8, 18);
             
             struct string pdata_string = push_format_string(scratch, "$pdata$%.*s", name.size, name.data);
-- 
2.43.0


From 69415cddae8f66ffe7aef60f976dbe9faf3427e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:38 +0000
Subject: [PATCH 44/49] fix: object files: variables are aligned from the start
 of their section

---
 src/obj_writer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 82d070b..028c2a3 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1789,7 +1789,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 smm alignment = get_declaration_alignment(decl);
                 smm decl_size = get_declaration_size(decl);
                 
-                push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
+                smm offset = arena_current(arena) - data_base;
+                push_data(arena, u8, align_up(offset, alignment) - offset); // @note: Align the offset from the base, the base is only aligned in the linked image.
                 
                 section_alignment = max_of(section_alignment, alignment);
                 
@@ -1830,7 +1831,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             smm alignment = get_declaration_alignment(decl);
             smm decl_size = get_declaration_size(decl);
             
-            push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
+            smm offset = arena_current(arena) - tls_base;
+            push_data(arena, u8, align_up(offset, alignment) - offset); // @note: Align the offset from the base, the base is only aligned in the linked image.
             
             section_alignment = max_of(section_alignment, alignment);
             
-- 
2.43.0


From bcd96e96c9ef595fcedecd917642af459b2bd6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:48 +0000
Subject: [PATCH 45/49] fix: object files: addresses in selectany variables are
 relocated in their own section

---
 src/obj_writer.c | 70 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 028c2a3..db774d0 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2325,6 +2325,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     // Selectany sections.
     // 
     
+    struct coff_section_header *selectany_section_headers = section_headers + section_header_count;
     for_ast_list(selectany_variables){
         struct ast_declaration *decl = (struct ast_declaration *)it->value;
         
@@ -2803,6 +2804,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     struct patch_node *text_patches = null;
     struct patch_node *data_patches = null;
     struct patch_node *tls_patches  = null;
+    struct patch_node *selectany_patches = null;
     
     smm amount_of_text_patches = 0;
     smm amount_of_data_patches = 0;
@@ -2836,6 +2838,9 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     patch->next = tls_patches;
                     tls_patches = patch;
                     amount_of_tls_patches += 1;
+                }else if((dest_declaration->flags & DECLARATION_FLAGS_is_selectany) && !(dest_declaration->flags & (DECLARATION_FLAGS_is_static | DECLARATION_FLAGS_is_local_persist | DECLARATION_FLAGS_is_dllexport))){
+                    patch->next = selectany_patches;
+                    selectany_patches = patch;
                 }else{
                     patch->next = data_patches;
                     data_patches = patch;
@@ -3042,6 +3047,71 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         assert(index == amount_of_tls_patches);
     }
     
+    // @note: Every selectany variable has its own section.
+    smm selectany_index = 0;
+    for_ast_list(selectany_variables){
+        struct ast_declaration *selectany_declaration = (struct ast_declaration *)it->value;
+        struct coff_section_header *section_header = selectany_section_headers + selectany_index++;
+        
+        smm amount_of_patches = 0;
+        for(struct patch_node *patch = selectany_patches; patch; patch = patch->next){
+            amount_of_patches += (patch->dest_declaration == selectany_declaration);
+        }
+        if(!amount_of_patches) continue;
+        
+        section_header->pointer_to_relocations = (u32)(arena_current(arena) - obj_base_address);
+        
+        if(amount_of_patches <= 0xffff){
+            section_header->number_of_relocations = (u16)amount_of_patches;
+        }else{
+            assert(amount_of_patches < 0xffffffff);
+            
+            section_header->characteristics |= /*IMAGE_SCN_LNK_NRELOC_OVFL*/0x01000000;
+            section_header->number_of_relocations = 0xffff;
+            
+            // If the number of relocations is to big to fit in a u16, 
+            // the actual number of relocations is contained in the 
+            // VirtualAddress (destination_offset_in_section) field of the first relocation.
+            
+            struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+            relocation->relocation_type = 0; // The relocation is ignored.
+            relocation->destination_offset_in_section = (u32)(amount_of_patches + 1);
+        }
+        
+        u8 *relocations_data = push_data(arena, u8, 10 * amount_of_patches);
+        
+        smm index = 0;
+        for(struct patch_node *patch = selectany_patches; patch; patch = patch->next){
+            if(patch->dest_declaration != selectany_declaration) continue;
+            assert(patch->kind == PATCH_absolute); // There should only be absolute patches to .data
+            
+            struct ast_declaration *declaration = (struct ast_declaration *)patch->dest_declaration;
+            assert(declaration->kind == IR_declaration);
+            
+            struct coff_relocation *relocation = (void *)(relocations_data + 10 * index++);
+            relocation->relocation_type = /*ADDR64*/1;
+            relocation->destination_offset_in_section = (u32)(declaration->relative_virtual_address + patch->location_offset_in_dest_declaration);
+            
+            // @note: We need the source offset to already be applied to the data.
+            *(u64 *)(declaration->memory_location + patch->location_offset_in_dest_declaration) = patch->location_offset_in_source_declaration;
+            
+            enum ast_kind source_kind = patch->source->kind;
+            
+            if(source_kind == IR_function || source_kind == IR_declaration){
+                struct ast_declaration *source = (struct ast_declaration *)patch->source;
+                
+                u32 is_reference_to_stub = (source->flags & DECLARATION_FLAGS_need_dllimport_stub_function) != 0;
+                relocation->source_symbol_table_index = (u32)source->symbol_table_index + is_reference_to_stub;
+            }else{
+                assert(source_kind == IR_string_literal);
+                struct ir_string_literal *source = (struct ir_string_literal *)patch->source;
+                
+                relocation->source_symbol_table_index = (u32)(string_symbol_base + source->symbol_table_index);
+            }
+        }
+        assert(index == amount_of_patches);
+    }
+    
     
     if(defined_functions.count){
         // .pdata reloations:
-- 
2.43.0


From 3cf898ad67e18df3a9f4b401cb7cf80494add64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:38 +0000
Subject: [PATCH 46/49] fix: object files: addresses in compound literals of
 static initializers are relocated

---
 src/obj_writer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index db774d0..8cf3f9d 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1309,6 +1309,12 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         // Append the declarations for 'global_struct_and_array_literals' to the 'initialized_declarations'.
         // 
         
+        // These literals have no name, they are only reachable by the initializer that contains them.
+        for_ast_list(thread_context->global_struct_and_array_literals){
+            struct ast_declaration *decl = (struct ast_declaration *)it->value;
+            decl->flags |= DECLARATION_FLAGS_is_reachable_from_entry;
+        }
+        
         sll_push_back_list(global_struct_and_array_literals, thread_context->global_struct_and_array_literals);
         global_struct_and_array_literals.count += thread_context->global_struct_and_array_literals.count;
     }
-- 
2.43.0


From 5fbae4dcffdbbaef9e6cbefc2b9441618284cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:59 +0000
Subject: [PATCH 47/49] fix: thread local variables of functions are in the
 thread local section

---
 src/coff_writer.c | 8 ++++++--
 src/obj_writer.c  | 8 +++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index d6d30c0..e59f3e5 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -687,7 +687,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     
                     for_ast_list(function->static_variables){
                         struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
-                        if(static_decl->assign_expr){
+                        if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                            ast_list_append(&tls_declarations, arena, &static_decl->kind);
+                        }else if(static_decl->assign_expr){
                             ast_list_append(&initialized_declarations, scratch, &static_decl->kind);
                         }else{
                             ast_list_append(&uninitialized_declarations, scratch, &static_decl->kind);
@@ -715,7 +717,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             
             for_ast_list(function->static_variables){
                 struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
-                if(decl->assign_expr){
+                if(decl->flags & DECLARATION_FLAGS_is_thread_local){
+                    ast_list_append(&tls_declarations, arena, &decl->kind);
+                }else if(decl->assign_expr){
                     ast_list_append(&initialized_declarations, scratch, &decl->kind);
                 }else{
                     ast_list_append(&uninitialized_declarations, scratch, &decl->kind);
diff --git a/src/obj_writer.c b/src/obj_writer.c
index 8cf3f9d..c1370c6 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1275,7 +1275,13 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     
                     // @cleanup: These should work different for selectany.
                     for_ast_list(function->static_variables){
-                        ast_list_append(&defined_variables, scratch, it->value);
+                        struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
+                        
+                        if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                            ast_list_append(&tls_variables, scratch, &static_decl->kind);
+                        }else{
+                            ast_list_append(&defined_variables, scratch, &static_decl->kind);
+                        }
                     }
                     continue;
                 }
-- 
2.43.0


From 90bd2d6a701f5c7f34b9f66ddc5337f4a1f8f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:07 +0000
Subject: [PATCH 48/49] fix: members of libraries end within their file

---
 src/ar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ar.c b/src/ar.c
index cf444fd..0c4a0ef 100644
--- a/src/ar.c
+++ b/src/ar.c
@@ -363,7 +363,7 @@ struct ar_symbol_lookup{
     struct string file_size_string = string_strip_whitespace((struct string){.data = file_header->file_size_in_bytes, .size = sizeof(file_header->file_size_in_bytes)});
     int parse_size_success = 1;
     u64 file_size = string_to_u64(file_size_string, &parse_size_success);
-    if(!parse_size_success || file_size > file.size || member_offset + file_size > file.size){
+    if(!parse_size_success || file_size > file.size || member_offset + sizeof(struct ar_file_header) + file_size > file.size){
         print("Warning: A parse error occurred while looking up '%.*s' in library '%.*s'.\n", identifier.size, identifier.data, library_node->path.size, library_node->path.data);
         return ret;
     }
-- 
2.43.0


From ffc9d0314f44f8dcd51263f233d305a6457ffc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 49/49] fix: a colon is not a decimal digit

---
 src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std.c b/src/std.c
index 5e3a84a..95f638b 100644
--- a/src/std.c
+++ b/src/std.c
@@ -1675,7 +1675,7 @@ func u64 string_to_u64(struct string str, b32 *_out_success){
     }else{
         for(smm i = 0; i < str.length; i++){
             u64 val = str.data[i] - '0';
-            if(val > 10){
+            if(val > 9){
                 *_out_success = false;
                 return 0;
             }
-- 
2.43.0

