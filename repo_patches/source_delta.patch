From d6a0750b373c766cbfbb8b9aaa6cecf8d1683517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:09 +0000
Subject: [PATCH 01/41] fix: convert through every cast of a chain and handle
 casts used as a whole expression

---
 src/immcgen/expression.c | 19 +++++++++++++
 src/immcgen/expression.h |  1 +
 src/immcgen/immcgen.c    |  3 ++
 src/immcgen/util.c       | 61 +++++++++++++++++++---------------------
 4 files changed, 52 insertions(+), 32 deletions(-)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 7e63e31..e718b6a 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -347,6 +347,25 @@ Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+Vector* gen_cast_expr_immcode(Immcgen* immcgen) {
+    Vector* codes = new_vector(&t_immc);
+    Srt* srt = immcgen->srt;
+
+    if (srt->dtype->type == DTYPE_VOID) {
+        append_child_immcode(immcgen, codes, 0);
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
+    ImmcOpe* src = gen_child_int_immcope(immcgen, codes, 0);
+    ImmcOpe* dst = create_dest_reg_immcope(immcgen);
+
+    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+
+    update_non_void_expr_register(immcgen, dst);
+    return codes;
+}
+
 Vector* gen_unary_expr_immcode(Immcgen* immcgen) {
     Vector* codes = NULL;
     Srt* srt = immcgen->srt;
diff --git a/src/immcgen/expression.h b/src/immcgen/expression.h
index 29d4d84..ea5618a 100644
--- a/src/immcgen/expression.h
+++ b/src/immcgen/expression.h
@@ -15,6 +15,7 @@ Vector* gen_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen);
 Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen);
+Vector* gen_cast_expr_immcode(Immcgen* immcgen);
 Vector* gen_unary_expr_immcode(Immcgen* immcgen);
 Vector* gen_postfix_expr_immcode(Immcgen* immcgen);
 Vector* gen_primary_expr_immcode(Immcgen* immcgen);
diff --git a/src/immcgen/immcgen.c b/src/immcgen/immcgen.c
index 42c1bdf..7272f05 100644
--- a/src/immcgen/immcgen.c
+++ b/src/immcgen/immcgen.c
@@ -145,6 +145,9 @@ Vector* immcgen_generate_immcode(Immcgen* immcgen) {
         case SRT_MOD_EXPR:
             codes = gen_multiplicative_expr_immcode(immcgen);
             break;
+        case SRT_CAST_EXPR:
+            codes = gen_cast_expr_immcode(immcgen);
+            break;
         case SRT_PREDEC_EXPR:
         case SRT_PREINC_EXPR:
         case SRT_ADDR_EXPR:
diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index e9ce2b6..c5a8bbd 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -7,6 +7,7 @@
 
 void append_child_jmp_cond_immcode(Immcgen* immcgen, Vector* codes, int index, ImmcOpe* label, int jmp_true);
 ErrorableInt* get_cjmp_inst_type(Srt* srt, int index, int jmp_true);
+IntegerLiteral* create_casted_iliteral(Srt* srt);
 
 void append_children_immcode(Immcgen* immcgen, Vector* codes) {
     Srt* srt = immcgen->srt;
@@ -107,44 +108,20 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     Srt* srt = immcgen->srt;
     Srt* child_srt = vector_at(srt->children, index);
 
-    DType* cast_dtype = NULL;
-    if (child_srt->type == SRT_CAST_EXPR) {
-        cast_dtype = child_srt->dtype;
-    }
     while (child_srt->type == SRT_CAST_EXPR) {
-        immcgen->srt = child_srt;
-        index = 0;
-        child_srt = vector_at(child_srt->children, index);
+        child_srt = vector_at(child_srt->children, 0);
     }
 
     if (child_srt->type == SRT_ILITERAL_EXPR) {
-        immcgen->srt = srt;
-        DType* iliteral_dtype = cast_dtype == NULL ? child_srt->dtype : cast_dtype;
-        IntegerLiteral* iliteral = create_dtyped_iliteral(iliteral_dtype, child_srt->iliteral);
-        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(iliteral_dtype));
+        child_srt = vector_at(srt->children, index);
+        IntegerLiteral* iliteral = create_casted_iliteral(child_srt);
+        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(child_srt->dtype));
         return new_int_immcope(suffix, iliteral);
     }
 
     append_child_immcode(immcgen, codes, index);
-    immcgen->srt = srt;
-
-    if (cast_dtype == NULL) {
-        ImmcRegister* reg = immcreg_copy(immcgen->expr_reg);
-        return new_reg_immcope(immcgen->expr_reg_suffix, reg);
-    }
-
-    ImmcRegister* src_reg = immcreg_copy(immcgen->expr_reg);
-    ImmcOpe* src = new_reg_immcope(immcgen->expr_reg_suffix, src_reg);
-
-    int cast_is_unsigned = dtype_isunsignedinteger(cast_dtype);
-    ImmcSuffix cast_suffix = immcsuffix_get(dtype_nbytes(cast_dtype));
-
-    immcgen->next_reg_id++;
-    ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, cast_is_unsigned);
-    ImmcOpe* dst = new_reg_immcope(cast_suffix, dst_reg);
-
-    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
-    return immcope_copy(dst);
+    ImmcRegister* reg = immcreg_copy(immcgen->expr_reg);
+    return new_reg_immcope(immcgen->expr_reg_suffix, reg);
 }
 
 ImmcOpe* gen_child_reg_immcope(Immcgen* immcgen, Vector* codes, int index) {
@@ -181,7 +158,7 @@ ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index) {
     }
 
     append_child_immcode(immcgen, codes, index);
-    return new_ptr_immcope(immcgen->next_reg_id);
+    return new_ptr_immcope(immcgen->expr_reg->reg_id);
 }
 
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
@@ -191,17 +168,37 @@ ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
     return new_reg_immcope(suffix, new_immcreg(immcgen->next_reg_id, is_unsigned));
 }
 
+IntegerLiteral* create_casted_iliteral(Srt* srt) {
+    if (srt->type != SRT_CAST_EXPR) {
+        return create_dtyped_iliteral(srt->dtype, srt->iliteral);
+    }
+
+    IntegerLiteral* child_iliteral = create_casted_iliteral(vector_at(srt->children, 0));
+    IntegerLiteral* iliteral = create_dtyped_iliteral(srt->dtype, child_iliteral);
+    delete_iliteral(child_iliteral);
+    return iliteral;
+}
+
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral) {
     int rank = dtype_scalar_rank(dtype);
+    int nbytes = dtype_nbytes(dtype);
 
     if (dtype_isunsignedinteger(dtype)) {
         unsigned long long value =
             iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
+        if (nbytes == 4) {
+            value = (unsigned int)value;
+        }
         IntegerLiteralType type = iliteral_type_get(rank, 1);
         return new_unsigned_iliteral(type, value);
     } else {
         long long value = iliteral_isunsigned(iliteral) ? (long long)iliteral->unsigned_value : iliteral->signed_value;
+        if (nbytes == 1) {
+            value = (signed char)value;
+        } else if (nbytes == 4) {
+            value = (int)value;
+        }
         IntegerLiteralType type = iliteral_type_get(rank, 0);
         return new_signed_iliteral(type, value);
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From f78079b4a4289dda76a41dee05c5312898bcc1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:55 +0000
Subject: [PATCH 02/41] fix: zero-extend 32-bit unsigned values when widening
 them to 64 bits

---
 src/x64gen/util.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index 1cb285c..0d7b1e7 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -25,7 +25,9 @@ void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned) {
 }
 
 void append_mov_code_simple(Vector* codes, X64Ope* src, X64Ope* dst) {
-    if (src->reg_id == dst->reg_id) {
+    // truncation to 32 bits clears the upper half of the register
+    int is_truncated = src->suffix == X64_SUFFIX_QUAD && dst->suffix == X64_SUFFIX_LONG;
+    if (src->reg_id == dst->reg_id && !is_truncated) {
         delete_x64ope(src);
         delete_x64ope(dst);
         return;
@@ -44,6 +46,8 @@ void append_mov_code_unsigned(Vector* codes, X64Ope* src, X64Ope* dst) {
         delete_x64ope(dst);
         return;
     }
+    // 32-bit move clears the upper half of the destination register
+    dst->suffix = src->suffix;
     vector_push(codes, new_inst_x64(X64_INST_MOVX, src, dst));
 }
 
-- 
2.43.0


From 0b2c614441c826c52198e3fd39f813aefe81b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:22 +0000
Subject: [PATCH 03/41] fix: shift by variable counts, shift unsigned values
 logically, type of shift is that of the left operand

---
 src/resolver/expression.c | 10 +++++--
 src/x64/inst.c            |  3 +-
 src/x64/inst.h            |  1 +
 src/x64gen/shrotinst.c    | 63 +++++++++++++++++++++++++++++++++++----
 4 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index c54ba79..b6b83bc 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -677,9 +677,13 @@ ResolverReturn* resolve_shift_expr(Resolver* resolver) {
     rhs_srt = convert_to_ptr_if_array(rhs_srt);
     rhs_srt = convert_to_ptr_if_function(rhs_srt);
 
-    Pair* srt_pair = new_pair(&t_srt, &t_srt);
-    pair_set(srt_pair, lhs_srt, rhs_srt);
-    pair_assign((void**)&lhs_srt, (void**)&rhs_srt, perform_usual_arithmetic_conversion(srt_pair));
+    // type of the result is that of the promoted left operand
+    lhs_srt = perform_integer_promotion(lhs_srt);
+    rhs_srt = perform_integer_promotion(rhs_srt);
+    if (dtype_isinteger(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype) &&
+        !dtype_equals(lhs_srt->dtype, rhs_srt->dtype)) {
+        rhs_srt = new_dtyped_srt(SRT_CAST_EXPR, dtype_copy(lhs_srt->dtype), 1, rhs_srt);
+    }
 
     switch (ast->type) {
         case AST_LSHIFT_EXPR:
diff --git a/src/x64/inst.c b/src/x64/inst.c
index 974e08e..de0bd84 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -11,7 +11,7 @@
 
 char* x64_inst_formats[] = {"mov%c",  "movs%c%c", "movz%c%c", "movabs%c", "lea%c",  "c%ct%c", "c%ctd",  "cqto",
                             "push%c", "pop%c",    "add%c",    "sub%c",    "imul%c", "div%c",  "idiv%c", "neg%c",
-                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "cmp%c",  "sete",
+                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "shr%c",  "cmp%c",  "sete",
                             "setne",  "seta",     "setae",    "setb",     "setbe",  "setg",   "setge",  "setl",
                             "setle",  "jmp",      "je",       "jne",      "ja",     "jae",    "jb",     "jbe",
                             "jg",     "jge",      "jl",       "jle",      "call",   "ret"};
@@ -108,6 +108,7 @@ char* x64instcode_tostring(X64Inst* x64inst) {
         case X64_INST_XORX:
         case X64_INST_SALX:
         case X64_INST_SARX:
+        case X64_INST_SHRX:
         case X64_INST_CMPX: {
             // TODO: fix to prevent buffer overflow
             char* instcode_str = malloc(50 * sizeof(char));
diff --git a/src/x64/inst.h b/src/x64/inst.h
index 3109fe0..8d26e39 100644
--- a/src/x64/inst.h
+++ b/src/x64/inst.h
@@ -33,6 +33,7 @@ typedef enum X64InstType {
     // shift/rotate instructions
     X64_INST_SALX,
     X64_INST_SARX,
+    X64_INST_SHRX,
 
     // bit/byte instructions
     X64_INST_CMPX,
diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 23d40d5..0b82de2 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -24,24 +24,76 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
     ImmcOpe* immc_fst_src = immc->inst->fst_src;
     ImmcOpe* immc_snd_src = immc->inst->snd_src;
 
+    int dst_id = CALLER_SAVED_REG_IDS[immc_dst->reg->reg_id];
     int fst_src_id = CALLER_SAVED_REG_IDS[immc_fst_src->reg->reg_id];
 
+    // type of shifted value does not depend on type of shift count
     X64Suffix fst_src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_fst_src->suffix));
-    X64Suffix snd_src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_snd_src->suffix));
-    X64Suffix suffix = x64suffix_greater(fst_src_suffix, snd_src_suffix);
+    X64Suffix suffix = x64suffix_greater(fst_src_suffix, X64_SUFFIX_LONG);
+
+    if (type == X64_INST_SARX && immc_fst_src->reg->is_unsigned) {
+        type = X64_INST_SHRX;
+    }
+
+    int result_id = -1;
 
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
+            result_id = fst_src_id;
+
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, fst_src_id);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
-            int fst_src_is_unsigned = immc_fst_src->reg->is_unsigned;
-            append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
+            append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, immc_fst_src->reg->is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
             X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
+        case IMMC_OPERAND_REG: {
+            result_id = AX_REG_ID;
+
+            // shift count should be in %cl
+            int snd_src_id = CALLER_SAVED_REG_IDS[immc_snd_src->reg->reg_id];
+
+            int cx_needs_evacuation = 0;
+            if (snd_src_id != CX_REG_ID && dst_id != CX_REG_ID) {
+                Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+                int* cx_reg_id_ref = new_integer(CX_REG_ID);
+                cx_needs_evacuation = set_contains(alive_regs_set, cx_reg_id_ref);
+                free(cx_reg_id_ref);
+                delete_set(alive_regs_set);
+            }
+
+            X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
+            X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
+            append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, immc_fst_src->reg->is_unsigned);
+
+            int evacuation_id = CALLEE_SAVED_REG_IDS[0];
+            if (cx_needs_evacuation) {
+                X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, evacuation_id);
+                X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, CX_REG_ID);
+                append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+            }
+
+            X64Ope* snd_src_mov_dst = new_reg_x64ope(X64_SUFFIX_BYTE, CX_REG_ID);
+            X64Ope* snd_src_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, snd_src_id);
+            append_mov_code(codes, snd_src_mov_src, snd_src_mov_dst, 0);
+
+            X64Ope* fst_src = new_reg_x64ope(suffix, AX_REG_ID);
+            X64Ope* snd_src = new_reg_x64ope(X64_SUFFIX_BYTE, CX_REG_ID);
+            vector_push(codes, new_inst_x64(type, snd_src, fst_src));
+
+            if (cx_needs_evacuation) {
+                X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, CX_REG_ID);
+                X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, evacuation_id);
+                append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+                if (x64gen->evacuation_count < 1) {
+                    x64gen->evacuation_count = 1;
+                }
+            }
+            break;
+        }
         default:
             fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
                             "unreachable statement (in gen_shrot_common_x64code)\n");
@@ -49,10 +101,9 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
     }
 
     X64Suffix dst_suffix = x64suffix_get(immcsuffix_tonbytes(immc_dst->suffix));
-    int dst_id = CALLER_SAVED_REG_IDS[immc_dst->reg->reg_id];
 
     X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
-    X64Ope* dst_mov_src = new_reg_x64ope(suffix, fst_src_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(suffix, result_id);
     int dst_is_unsigned = immc_dst->reg->is_unsigned;
     append_mov_code(codes, dst_mov_src, dst_mov_dst, dst_is_unsigned);
 
-- 
2.43.0


From acb1140bb3fcae6ba3493ea6a65adcc4185d0e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:04 +0000
Subject: [PATCH 04/41] fix: widen the result of a comparison from the register
 it was set in

---
 src/x64gen/bitinst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 17d3632..792f401 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -111,7 +111,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
     vector_push(codes, new_inst_x64(type, NULL, dst));
 
     X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
-    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, fst_src_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, dst_id);
     append_mov_code(codes, dst_mov_src, dst_mov_dst, 1);
 
     liveseqs_next(x64gen->liveseqs);
-- 
2.43.0


From bfc4a633c15cb6e4cace5284204c6ea5bfea7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:24 +0000
Subject: [PATCH 05/41] fix: align the stack at calls nested in the arguments
 of other calls

---
 src/x64gen/ctrlinst.c | 22 ++++++++++++++++++----
 src/x64gen/datainst.c |  1 +
 src/x64gen/x64gen.c   |  3 +++
 src/x64gen/x64gen.h   |  2 ++
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 222550b..420eaff 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -171,6 +171,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (int i = 0; i < num_args && i < NUM_ARG_REGS; i++) {
         X64Ope* arg = new_reg_x64ope(X64_SUFFIX_QUAD, ARG_REG_IDS[i]);
         vector_push(codes, new_inst_x64(X64_INST_POPX, NULL, arg));
+        x64gen->pushed_count--;
     }
 
     X64Ope* ret = new_reg_x64ope(X64_SUFFIX_QUAD, AX_REG_ID);
@@ -283,7 +284,12 @@ Vector* gen_prep_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS && num_args % 2 == 1) {
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    // stack pointer must be 16-byte aligned at call, also when arguments of outer calls are already pushed
+    int call_pad = (x64gen->pushed_count + num_mem_args) % 2;
+    vector_push(x64gen->call_pads, new_integer(call_pad));
+    x64gen->pushed_count += call_pad;
+    if (call_pad > 0) {
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_SUBX, imm, sp));
@@ -301,9 +307,17 @@ Vector* gen_clean_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS) {
-        int mem_param_offset = ((num_args - NUM_ARG_REGS + 1) / 2) * 16;
-        X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, mem_param_offset);
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    int call_pad = num_mem_args % 2;
+    if (vector_size(x64gen->call_pads) > 0) {
+        int* call_pad_ref = vector_pop(x64gen->call_pads);
+        call_pad = *call_pad_ref;
+        free(call_pad_ref);
+    }
+    int num_rest_quads = num_mem_args + call_pad;
+    x64gen->pushed_count -= num_rest_quads;
+    if (num_rest_quads > 0) {
+        X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, num_rest_quads * 8);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_ADDX, imm, sp));
     }
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index db844d8..17ac2ba 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -285,6 +285,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
                             "unreachable statement (in gen_starg_x64code)\n");
             exit(1);
     }
+    x64gen->pushed_count++;
 
     liveseqs_next(x64gen->liveseqs);
     return codes;
diff --git a/src/x64gen/x64gen.c b/src/x64gen/x64gen.c
index 47c9542..3647aca 100644
--- a/src/x64gen/x64gen.c
+++ b/src/x64gen/x64gen.c
@@ -18,6 +18,8 @@ X64gen* new_x64gen(Vector* immcs, Vector* liveseqs) {
     x64gen->liveseqs = liveseqs;
     x64gen->index = 0;
     x64gen->evacuation_count = 0;
+    x64gen->pushed_count = 0;
+    x64gen->call_pads = new_vector(&t_integer);
     return x64gen;
 }
 
@@ -160,5 +162,6 @@ Vector* gen_variable_x64code(X64gen* x64gen) {
 void delete_x64gen(X64gen* x64gen) {
     delete_vector(x64gen->immcs);
     delete_vector(x64gen->liveseqs);
+    delete_vector(x64gen->call_pads);
     free(x64gen);
 }
diff --git a/src/x64gen/x64gen.h b/src/x64gen/x64gen.h
index 2efe4bc..3beaf83 100644
--- a/src/x64gen/x64gen.h
+++ b/src/x64gen/x64gen.h
@@ -9,6 +9,8 @@ typedef struct X64gen {
     Vector* liveseqs;
     int index;
     int evacuation_count;
+    int pushed_count;  // quad words pushed for pending calls
+    Vector* call_pads; // quad words of alignment padding of pending calls
 } X64gen;
 
 X64gen* new_x64gen(Vector* immcs, Vector* liveseqs);
-- 
2.43.0


From 4c65a2f7de9a6e11d666a34e523e9f6379107fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:25 +0000
Subject: [PATCH 06/41] fix: never save values across calls in the frame
 pointer

---
 src/x64/register.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x64/register.c b/src/x64/register.c
index de17f15..5d57002 100644
--- a/src/x64/register.c
+++ b/src/x64/register.c
@@ -10,7 +10,7 @@ int CALLER_SAVED_REG_IDS[8] = {CX_REG_ID, DX_REG_ID, SI_REG_ID,  DI_REG_ID,
                                R8_REG_ID, R9_REG_ID, R10_REG_ID, R11_REG_ID};
 
 int NUM_CALLEE_SAVED_REGS = 5;
-int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, BP_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID};
+int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID, R15_REG_ID};
 
 char* PC_NAME = "%rip";
 
@@ -18,7 +18,7 @@ char* BREG_NAMES[16] = {"%al",  "%bl",  "%cl",   "%dl",   "%spl",  "%bpl",  "%si
                         "%r8b", "%r9b", "%r10b", "%r11b", "%r12b", "%r13b", "%r14b", "%r15b"};
 
 char* WREG_NAMES[16] = {"%ax",  "%bx",  "%cx",   "%dx",   "%sp",   "%bp",   "%si",   "%di",
-                        "%r8w", "%r9w", "%r10w", "%r11w", "%r12w", "%r13q", "%r14w", "%r15w"};
+                        "%r8w", "%r9w", "%r10w", "%r11w", "%r12w", "%r13w", "%r14w", "%r15w"};
 
 char* LREG_NAMES[16] = {"%eax", "%ebx", "%ecx",  "%edx",  "%esp",  "%ebp",  "%esi",  "%edi",
                         "%r8d", "%r9d", "%r10d", "%r11d", "%r12d", "%r13d", "%r14d", "%r15d"};
-- 
2.43.0


From 51aa4e2e153cc1d31945bca08ad0f1236d9e551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:13 +0000
Subject: [PATCH 07/41] fix: adding a key to a map replaces its entry, also
 behind a removed one

---
 src/map/map.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/map/map.c b/src/map/map.c
index 0e6b81f..4717e6c 100644
--- a/src/map/map.c
+++ b/src/map/map.c
@@ -81,21 +81,38 @@ void* map_get_with_default(Map* map, void* key, void* default_value) {
 }
 
 void map_add(Map* map, void* key, void* value) {
-    int hash = map->t_key->hash_object(key) % map->capacity;
-    MapCell* cell = map->container[hash];
+    int original_hash = map->t_key->hash_object(key) % map->capacity;
+    MapCell* cell = map->container[original_hash];
 
-    while (cell != NULL && !cell->deleted) {
-        if (map->t_key->compare_object(cell->key, key) == 0) {
+    int hash = original_hash;
+    int deleted_hash = -1;
+    int found = 0;
+    while (cell != NULL) {
+        if (cell->deleted) {
+            deleted_hash = deleted_hash < 0 ? hash : deleted_hash;
+        } else if (map->t_key->compare_object(cell->key, key) == 0) {
+            found = 1;
             break;
         }
         hash = (hash + 1) % map->capacity;
+        if (hash == original_hash) {
+            break;
+        }
+
         cell = map->container[hash];
     }
 
+    if (!found && deleted_hash >= 0) {
+        hash = deleted_hash;
+        cell = map->container[hash];
+    }
     if (cell != NULL) {
         delete_mapcell(cell, map->t_key->delete_object, map->t_value->delete_object);
     }
     map->container[hash] = new_mapcell(key, value);
+    if (found) {
+        return;
+    }
     map->size++;
 
     int std_capacity = 2 * (map->size + 1) - 1;
-- 
2.43.0


From d759e8aab79002cec03c691deed17775e054b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:14 +0000
Subject: [PATCH 08/41] fix: hash values of keys are never negative

---
 src/common/type.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common/type.c b/src/common/type.c
index 4be65e2..6708ccc 100644
--- a/src/common/type.c
+++ b/src/common/type.c
@@ -1,5 +1,6 @@
 #include "./type.h"
 
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -43,15 +44,16 @@ int* copy_integer(int* integer) {
 }
 
 int hash_integer(int* integer) {
+    unsigned int magnitude = *integer;
     if (*integer >= 0) {
-        return *integer * 2;
+        return (magnitude * 2u) & INT_MAX;
     } else {
-        return -(*integer) * 2 + 1;
+        return ((0u - magnitude) * 2u + 1u) & INT_MAX;
     }
 }
 
 int comp_integer(int* a, int* b) {
-    return *a - *b;
+    return (*a > *b) - (*a < *b);
 }
 
 char* new_string(char* str) {
@@ -66,7 +68,7 @@ int hash_string(char* str) {
 
     char* str_ptr = str;
     while (*str_ptr != '\0') {
-        hash = (*str_ptr * a + hash) % b;
+        hash = ((unsigned char)*str_ptr * a + hash) % b;
         str_ptr++;
     }
 
-- 
2.43.0


From 92dbb30831323cea53552f909064579fe1e04108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:27 +0000
Subject: [PATCH 09/41] fix: promote narrow indices before scaling them in
 pointer arithmetic

---
 src/resolver/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index b6b83bc..a5e73d9 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -784,10 +784,12 @@ ResolverReturn* resolve_add_expr(Resolver* resolver) {
         srt = new_dtyped_srt(SRT_ADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
+        rhs_srt = perform_integer_promotion(rhs_srt);
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
     } else if (dtype_isinteger(lhs_srt->dtype) && rhs_srt->dtype->type == DTYPE_POINTER) {
+        lhs_srt = perform_integer_promotion(lhs_srt);
         dtype = dtype_copy(rhs_srt->dtype);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, rhs_srt, lhs_srt);
         return new_resolverret(srt);
@@ -840,6 +842,7 @@ ResolverReturn* resolve_subtract_expr(Resolver* resolver) {
         srt = new_dtyped_srt(SRT_SUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
+        rhs_srt = perform_integer_promotion(rhs_srt);
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_PSUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
@@ -1317,6 +1320,7 @@ ResolverReturn* resolve_subscription_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    rhs_srt = perform_integer_promotion(rhs_srt);
     dtype = dtype_copy(lhs_srt->dtype);
     srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
     srt = new_dtyped_srt(SRT_INDIR_EXPR, dtype_copy(lhs_srt->dtype->dpointer->to_dtype), 1, srt);
-- 
2.43.0


From 6e39dad8788fa2fc6e959b6e5bae48e6697ef65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:06 +0000
Subject: [PATCH 10/41] fix: divide pointer differences as signed values

---
 src/immcgen/expression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index e718b6a..187c453 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -303,6 +303,7 @@ Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen) {
     ImmcOpe* fst_src = gen_child_reg_immcope(immcgen, codes, 0);
     ImmcOpe* snd_src = gen_child_reg_immcope(immcgen, codes, 1);
     ImmcOpe* dst = create_dest_reg_immcope(immcgen);
+    dst->reg->is_unsigned = 0; // difference may be negative
 
     Srt* lhs_srt = vector_at(srt->children, 0);
     int nbytes = dtype_nbytes(lhs_srt->dtype->dpointer->to_dtype);
-- 
2.43.0


From 41b02c7932df966baff6ef5dfbf4b964393f367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:01 +0000
Subject: [PATCH 11/41] fix: zero-initialize remaining members and elements of
 every scalar type

---
 src/resolver/declaration.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index c2b5219..afe2bf8 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1070,7 +1070,13 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
     switch (dtype->type) {
         case DTYPE_CHAR:
         case DTYPE_INT:
+        case DTYPE_UNSIGNED_INT:
+        case DTYPE_LONG:
+        case DTYPE_UNSIGNED_LONG:
+        case DTYPE_LONGLONG:
+        case DTYPE_UNSIGNED_LONGLONG:
         case DTYPE_POINTER:
+        case DTYPE_ENUM:
             // resolve_zero_scalar_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_scalar_initializer(resolver));
             break;
-- 
2.43.0


From f38532d37796b523405b3c45046f7a6dfe000b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:01 +0000
Subject: [PATCH 12/41] fix: diagnose global initializers that are not integer
 literals, convert through every cast

---
 src/immcgen/declaration.c | 7 ++++++-
 src/immcgen/util.c        | 1 -
 src/immcgen/util.h        | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 67535f2..afaeb2b 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -266,8 +266,13 @@ Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
     while (srt->type == SRT_CAST_EXPR) {
         srt = vector_at(srt->children, 0);
     }
+    if (srt->type != SRT_ILITERAL_EXPR) {
+        fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                        "initializer of global variable is not an integer literal\n");
+        exit(1);
+    }
 
-    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, srt->iliteral);
+    IntegerLiteral* iliteral = create_casted_iliteral(vector_at(immcgen->srt->children, 0));
     int initialized_size = dtype_nbytes(immcgen->initialized_dtype);
     switch (initialized_size) {
         case 1:
diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index c5a8bbd..56d566d 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -7,7 +7,6 @@
 
 void append_child_jmp_cond_immcode(Immcgen* immcgen, Vector* codes, int index, ImmcOpe* label, int jmp_true);
 ErrorableInt* get_cjmp_inst_type(Srt* srt, int index, int jmp_true);
-IntegerLiteral* create_casted_iliteral(Srt* srt);
 
 void append_children_immcode(Immcgen* immcgen, Vector* codes) {
     Srt* srt = immcgen->srt;
diff --git a/src/immcgen/util.h b/src/immcgen/util.h
index 793adfd..668e39c 100644
--- a/src/immcgen/util.h
+++ b/src/immcgen/util.h
@@ -14,6 +14,7 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* gen_child_reg_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen);
+IntegerLiteral* create_casted_iliteral(Srt* srt);
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral);
 
 #endif
-- 
2.43.0


From a30d57a0f289f2fd70d62281da9fe8c7b13698de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:02 +0000
Subject: [PATCH 13/41] fix: skip the padding at the end of structures
 initialized inside of local arrays

---
 src/immcgen/declaration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index afaeb2b..f7eee68 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -243,6 +243,7 @@ Vector* gen_local_struct_initializer_immcode(Immcgen* immcgen) {
         immcgen->initialized_offset = offset - member->memory_offset;
         append_child_immcode(immcgen, codes, i);
     }
+    immcgen->initialized_offset = offset - dtype_nbytes(dtype);
 
     return codes;
 }
-- 
2.43.0


From a4208012201083837c7cecdbad177e668a6e0edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:03 +0000
Subject: [PATCH 14/41] fix: initialize character arrays inside of aggregates
 with string literals

---
 src/resolver/declaration.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index afe2bf8..f2fcef9 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1182,7 +1182,11 @@ ResolverReturn* resolve_aggregate_initializer(Resolver* resolver) {
 
         resolver->initialized_dtype = dtype_aggregate_at(dtype, aggregate_index);
 
-        if (dtype_isaggregate(resolver->initialized_dtype) && child_ast->type != AST_INIT_LIST) {
+        DType* child_dtype = resolver->initialized_dtype;
+        int is_string = child_ast->type == AST_STRING_EXPR && child_dtype->type == DTYPE_ARRAY &&
+                        child_dtype->darray->of_dtype->type == DTYPE_CHAR;
+
+        if (dtype_isaggregate(child_dtype) && child_ast->type != AST_INIT_LIST && !is_string) {
             resolver->ast = ast;
             resolver->is_nested_initializing = 1;
             resolverret_assign(&child_srt, &child_errs, resolve_initializer(resolver));
-- 
2.43.0


From 3817cf7e3640702edf8ed836dbffe48cbd0156aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:34 +0000
Subject: [PATCH 15/41] fix: diagnose character constants and string literals
 that are not terminated, tell byte 0xff from the end of file

---
 src/lexer/reader.c | 9 +++++++++
 src/lexer/util.c   | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 4b6600e..52a5808 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -118,6 +118,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
         case '\n':
             err = new_error("newline appeared in character constant");
             break;
+        case EOF:
+            err = new_error("character constant is not terminated");
+            break;
         case '\'':
             err = new_error("character constant is empty");
             break;
@@ -139,6 +142,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in character constant");
                 break;
+            case EOF:
+                err = new_error("character constant is not terminated");
+                break;
             default:
                 break;
         }
@@ -176,6 +182,9 @@ LexerReturnItem* read_string_literal(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in string literal");
                 break;
+            case EOF:
+                err = new_error("string literal is not terminated");
+                break;
             default:
                 break;
         }
diff --git a/src/lexer/util.c b/src/lexer/util.c
index 3922573..7b0d9df 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -204,7 +204,7 @@ int get_content_top(Lexer* lexer) {
     if (lexer->content_index >= lexer->content_size) {
         return EOF;
     }
-    return lexer->content[lexer->content_index];
+    return (unsigned char)lexer->content[lexer->content_index];
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
-- 
2.43.0


From ea27ee09c911c32487a9952cad9f99cc29f05647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:35 +0000
Subject: [PATCH 16/41] fix: diagnose octal and hexadecimal escape sequences
 out of range

---
 src/lexer/reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 52a5808..c3ed0e0 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -375,6 +375,7 @@ ErrorableInt* read_escape_seqence(Lexer* lexer) {
 
 ErrorableInt* read_octal_escape_seqence(Lexer* lexer) {
     int MAX_OCTAL_SEQUENCE_LEN = 3;
+    int MAX_VALUE = 0xff;
 
     int c = get_content_top(lexer);
     lexer->content_index++;
@@ -392,10 +393,15 @@ ErrorableInt* read_octal_escape_seqence(Lexer* lexer) {
         lexer->content_index++;
     }
 
+    if (value > MAX_VALUE) {
+        return new_errint_error(new_error("octal escape sequence is out of range"));
+    }
     return new_errint(value);
 }
 
 ErrorableInt* read_hexadecimal_escape_seqence(Lexer* lexer) {
+    int MAX_VALUE = 0xff;
+
     int c = get_content_top(lexer);
     lexer->content_index++;
 
@@ -409,6 +415,9 @@ ErrorableInt* read_hexadecimal_escape_seqence(Lexer* lexer) {
             break;
         }
         value = value * 0x10 + *hexdigit_ref;
+        if (value > MAX_VALUE) {
+            return new_errint_error(new_error("hexadecimal escape sequence is out of range"));
+        }
         lexer->content_index++;
     }
 
-- 
2.43.0


From 8835e43a8feb7e5b584ef484f16c875efa7fd66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:52 +0000
Subject: [PATCH 17/41] fix: value of a character constant is that of its
 signed char

---
 src/resolver/expression.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index a5e73d9..84f3b06 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1663,7 +1663,8 @@ ResolverReturn* resolve_character_expr(Resolver* resolver) {
     Ast* ast = resolver->ast;
 
     DType* dtype = new_integer_dtype(DTYPE_INT);
-    IntegerLiteral* iliteral = iliteral_copy(ast->iliteral);
+    // char has the same range of values as signed char
+    IntegerLiteral* iliteral = new_signed_iliteral(INTEGER_INT, (signed char)ast->iliteral->signed_value);
     srt = new_iliteral_srt(dtype, iliteral);
     return new_resolverret(srt);
 }
-- 
2.43.0


From 28fd360626482c38a6fe1dd65edc509493cb84e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:54 +0000
Subject: [PATCH 18/41] fix: type of an integer literal is the first one its
 value fits in

---
 src/lexer/util.c | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/lexer/util.c b/src/lexer/util.c
index 7b0d9df..fb05659 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -1,6 +1,7 @@
 #include "./util.h"
 #include "../common/type.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -208,12 +209,40 @@ int get_content_top(Lexer* lexer) {
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
+    IntegerLiteralType integer_literal_type(unsigned long long value, int base, IntegerLiteralType suffix_type);
+
     if (iliteral_type_isunsigned(type)) {
         unsigned long long unsigned_value = strtoull(value, NULL, base);
-        return new_unsigned_iliteral(type, unsigned_value);
+        return new_unsigned_iliteral(integer_literal_type(unsigned_value, base, type), unsigned_value);
+    }
+
+    type = integer_literal_type(strtoull(value, NULL, base), base, type);
+    if (iliteral_type_isunsigned(type)) {
+        return new_unsigned_iliteral(type, strtoull(value, NULL, base));
     } else {
-        long long signed_value = strtoll(value, NULL, base);
-        return new_signed_iliteral(type, signed_value);
+        return new_signed_iliteral(type, strtoll(value, NULL, base));
+    }
+}
+
+IntegerLiteralType integer_literal_type(unsigned long long value, int base, IntegerLiteralType suffix_type) {
+    // the first type in which the value can be represented, of those allowed for the suffix and the base
+    switch (suffix_type) {
+        case INTEGER_INT:
+            if (value <= INT_MAX) {
+                return INTEGER_INT;
+            }
+            if (base != 10 && value <= UINT_MAX) {
+                return INTEGER_UNSIGNED_INT;
+            }
+            return base != 10 && value > LONG_MAX ? INTEGER_UNSIGNED_LONG : INTEGER_LONG;
+        case INTEGER_UNSIGNED_INT:
+            return value <= UINT_MAX ? INTEGER_UNSIGNED_INT : INTEGER_UNSIGNED_LONG;
+        case INTEGER_LONG:
+            return base != 10 && value > LONG_MAX ? INTEGER_UNSIGNED_LONG : INTEGER_LONG;
+        case INTEGER_LONGLONG:
+            return base != 10 && value > LLONG_MAX ? INTEGER_UNSIGNED_LONGLONG : INTEGER_LONGLONG;
+        default:
+            return suffix_type;
     }
 }
 
-- 
2.43.0


From bb52ff62a03e1366712482a0cb3d9a2ea76d0ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:30 +0000
Subject: [PATCH 19/41] fix: load 64-bit literals that are no immediate
 operands into registers

---
 src/immcgen/util.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index 56d566d..b537f8d 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -2,11 +2,13 @@
 #include "../error/errint.h"
 #include "../immc/immc.h"
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 
 void append_child_jmp_cond_immcode(Immcgen* immcgen, Vector* codes, int index, ImmcOpe* label, int jmp_true);
 ErrorableInt* get_cjmp_inst_type(Srt* srt, int index, int jmp_true);
+int is_immediate_iliteral(ImmcSuffix suffix, IntegerLiteral* iliteral);
 
 void append_children_immcode(Immcgen* immcgen, Vector* codes) {
     Srt* srt = immcgen->srt;
@@ -115,7 +117,16 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
         child_srt = vector_at(srt->children, index);
         IntegerLiteral* iliteral = create_casted_iliteral(child_srt);
         ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(child_srt->dtype));
-        return new_int_immcope(suffix, iliteral);
+        ImmcOpe* src = new_int_immcope(suffix, iliteral);
+        if (is_immediate_iliteral(suffix, iliteral)) {
+            return src;
+        }
+        // operands of instructions other than load cannot have the value
+        immcgen->next_reg_id++;
+        ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, iliteral_isunsigned(iliteral));
+        ImmcOpe* dst = new_reg_immcope(suffix, dst_reg);
+        vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+        return immcope_copy(dst);
     }
 
     append_child_immcode(immcgen, codes, index);
@@ -167,6 +178,17 @@ ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
     return new_reg_immcope(suffix, new_immcreg(immcgen->next_reg_id, is_unsigned));
 }
 
+int is_immediate_iliteral(ImmcSuffix suffix, IntegerLiteral* iliteral) {
+    if (suffix != IMMC_SUFFIX_QUAD) {
+        return 1;
+    }
+    // sign-extended 32-bit value
+    if (iliteral_isunsigned(iliteral)) {
+        return iliteral->unsigned_value <= INT_MAX || iliteral->unsigned_value >= (unsigned long long)INT_MIN;
+    }
+    return INT_MIN <= iliteral->signed_value && iliteral->signed_value <= INT_MAX;
+}
+
 IntegerLiteral* create_casted_iliteral(Srt* srt) {
     if (srt->type != SRT_CAST_EXPR) {
         return create_dtyped_iliteral(srt->dtype, srt->iliteral);
-- 
2.43.0


From 876064261b5b6712fbc674bbea80ccfda2d5a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:27 +0000
Subject: [PATCH 20/41] fix: emit characters of string literals that are out of
 ASCII as single bytes

---
 src/literal/sliteral.c | 2 +-
 src/x64gen/datainst.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/literal/sliteral.c b/src/literal/sliteral.c
index a204574..b874b6e 100644
--- a/src/literal/sliteral.c
+++ b/src/literal/sliteral.c
@@ -102,7 +102,7 @@ char* sliteral_display_string(StringLiteral* sliteral) {
                 len += 2;
                 break;
             default:
-                sprintf(display_string + len, "\\%03o", c);
+                sprintf(display_string + len, "\\%03o", (unsigned char)c);
                 len += 4;
                 break;
         }
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 17ac2ba..7903483 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -112,7 +112,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     while (index_offset + unit_size <= immc_src->sliteral->size) {
         unsigned long long unit_value = 0ull;
         for (int i = 0; i < unit_size; i++) {
-            unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+            unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
             unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
         }
 
@@ -154,7 +154,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     X64Suffix suffix = x64suffix_get(boundary_rest_bytes);
     unsigned long long unit_value = 0ull;
     for (int i = 0; i < num_rest_bytes; i++) {
-        unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+        unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
         unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
     }
 
-- 
2.43.0


From d56152038ef1c189904171ef35dba54e14f4150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:17 +0000
Subject: [PATCH 21/41] fix: initialize strings inside of local aggregates
 without writing past them

---
 src/immcgen/declaration.c | 24 +++++++++++++++++++++---
 src/immcgen/immcgen.c     |  1 +
 src/immcgen/immcgen.h     |  1 +
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index f7eee68..13e3f1c 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -7,6 +7,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 Vector* gen_decl_list_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
@@ -86,11 +87,13 @@ Vector* gen_local_init_decl_immcode(Immcgen* immcgen) {
     Srt* decl_srt = vector_at(immcgen->srt->children, 0);
     Symbol* decl_symbol = symboltable_search(immcgen->symbol_table, decl_srt->ident_name);
 
+    immcgen->initialized_srt = vector_at(immcgen->srt->children, 1);
     immcgen->initialized_dtype = decl_symbol->dtype;
     immcgen->initialized_offset = decl_symbol->memory_offset;
     append_child_immcode(immcgen, codes, 1);
     immcgen->initialized_offset = -1;
     immcgen->initialized_dtype = NULL;
+    immcgen->initialized_srt = NULL;
 
     return codes;
 }
@@ -181,10 +184,25 @@ Vector* gen_local_string_initializer_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
     Srt* srt = vector_at(immcgen->srt->children, 0);
 
-    ImmcOpe* dst = new_mem_immcope(immcgen->initialized_offset);
-    ImmcOpe* src = new_str_immcope(sliteral_copy(srt->sliteral));
+    // storing a string rounds its size up, which does not go beyond the memory of a whole object.
+    // string in an aggregate is stored in pieces that are not rounded up.
+    int is_whole_object = immcgen->srt == immcgen->initialized_srt;
+    int stored_size = 0;
+    while (stored_size < srt->sliteral->size) {
+        int size = srt->sliteral->size - stored_size;
+        if (!is_whole_object) {
+            size = size >= 8 ? 8 : size >= 4 ? 4 : size >= 2 ? 2 : 1;
+        }
+
+        char* value = malloc(size * sizeof(char));
+        memcpy(value, srt->sliteral->value + stored_size, size);
 
-    vector_push(codes, new_inst_immc(IMMC_INST_STR, dst, src, NULL));
+        ImmcOpe* dst = new_mem_immcope(immcgen->initialized_offset - stored_size);
+        ImmcOpe* src = new_str_immcope(new_sliteral(value, size));
+
+        vector_push(codes, new_inst_immc(IMMC_INST_STR, dst, src, NULL));
+        stored_size += size;
+    }
     immcgen->initialized_offset -= dtype_nbytes(immcgen->initialized_dtype);
 
     return codes;
diff --git a/src/immcgen/immcgen.c b/src/immcgen/immcgen.c
index 7272f05..2edb278 100644
--- a/src/immcgen/immcgen.c
+++ b/src/immcgen/immcgen.c
@@ -15,6 +15,7 @@ Immcgen* new_immcgen(Srt* srt) {
     immcgen->expr_reg_suffix = IMMC_SUFFIX_NONE;
     immcgen->expr_reg = NULL;
     immcgen->next_reg_id = -1;
+    immcgen->initialized_srt = NULL;
     immcgen->initialized_dtype = NULL;
     immcgen->initialized_offset = -1;
     immcgen->continue_label_id = -1;
diff --git a/src/immcgen/immcgen.h b/src/immcgen/immcgen.h
index 935f91b..cceb6ab 100644
--- a/src/immcgen/immcgen.h
+++ b/src/immcgen/immcgen.h
@@ -14,6 +14,7 @@ typedef struct Immcgen {
     ImmcSuffix expr_reg_suffix;
     ImmcRegister* expr_reg;
     int next_reg_id;
+    Srt* initialized_srt;
     DType* initialized_dtype;
     int initialized_offset;
     int continue_label_id;
-- 
2.43.0


From a93e787c4bf00aeb1c44ffb921988adba69ba3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:43 +0000
Subject: [PATCH 22/41] fix: diagnose integer constants that are out of range

---
 src/lexer/reader.c | 24 +++++++++++++++---------
 src/lexer/util.c   | 18 +++++++++++-------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index c3ed0e0..c456501 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -49,6 +49,7 @@ LexerReturnItem* read_keyword_or_identifier(Lexer* lexer) {
 LexerReturnItem* read_integer_constant(Lexer* lexer) {
     ErrorableString* read_integer_constant_digits(Lexer * lexer, Map * digit_map);
     IntegerLiteralType read_integer_suffix(Lexer * lexer);
+    LexerReturnItem* new_integer_constant_item(char* value, int base, IntegerLiteralType type);
 
     char* value = NULL;
     Error* err = NULL;
@@ -67,10 +68,9 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
         }
         IntegerLiteralType suffix = read_integer_suffix(lexer);
 
-        IntegerLiteral* iliteral = create_iliteral(value, 0x10, suffix);
-        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
+        LexerReturnItem* item = new_integer_constant_item(value, 0x10, suffix);
         free(value);
-        return new_lexerret_item(ctoken);
+        return item;
     }
 
     lexer->content_index -= 2;
@@ -83,10 +83,9 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
         }
         IntegerLiteralType suffix = read_integer_suffix(lexer);
 
-        IntegerLiteral* iliteral = create_iliteral(value, 010, suffix);
-        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
+        LexerReturnItem* item = new_integer_constant_item(value, 010, suffix);
         free(value);
-        return new_lexerret_item(ctoken);
+        return item;
     }
 
     ErrorableString* errstr = read_integer_constant_digits(lexer, lexer->digit_map);
@@ -96,10 +95,9 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
     }
     IntegerLiteralType suffix = read_integer_suffix(lexer);
 
-    IntegerLiteral* iliteral = create_iliteral(value, 10, suffix);
-    CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
+    LexerReturnItem* item = new_integer_constant_item(value, 10, suffix);
     free(value);
-    return new_lexerret_item(ctoken);
+    return item;
 }
 
 LexerReturnItem* read_character_constant(Lexer* lexer) {
@@ -302,6 +300,14 @@ ErrorableString* read_integer_constant_digits(Lexer* lexer, Map* digit_map) {
     return new_errstr(ctoken_str);
 }
 
+LexerReturnItem* new_integer_constant_item(char* value, int base, IntegerLiteralType type) {
+    IntegerLiteral* iliteral = create_iliteral(value, base, type);
+    if (iliteral == NULL) {
+        return new_lexerret_item_error(new_error("integer constant %s is out of range", value));
+    }
+    return new_lexerret_item(new_iliteral_ctoken(CTOKEN_INT, iliteral));
+}
+
 IntegerLiteralType read_integer_suffix(Lexer* lexer) {
     int MAX_SUFFIX_LEN = 3;
 
diff --git a/src/lexer/util.c b/src/lexer/util.c
index fb05659..13f8522 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -1,6 +1,7 @@
 #include "./util.h"
 #include "../common/type.h"
 
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -211,17 +212,20 @@ int get_content_top(Lexer* lexer) {
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
     IntegerLiteralType integer_literal_type(unsigned long long value, int base, IntegerLiteralType suffix_type);
 
-    if (iliteral_type_isunsigned(type)) {
-        unsigned long long unsigned_value = strtoull(value, NULL, base);
-        return new_unsigned_iliteral(integer_literal_type(unsigned_value, base, type), unsigned_value);
+    errno = 0;
+    unsigned long long unsigned_value = strtoull(value, NULL, base);
+    if (errno == ERANGE) {
+        return NULL;
     }
 
-    type = integer_literal_type(strtoull(value, NULL, base), base, type);
+    type = integer_literal_type(unsigned_value, base, type);
     if (iliteral_type_isunsigned(type)) {
-        return new_unsigned_iliteral(type, strtoull(value, NULL, base));
-    } else {
-        return new_signed_iliteral(type, strtoll(value, NULL, base));
+        return new_unsigned_iliteral(type, unsigned_value);
+    }
+    if (unsigned_value > LLONG_MAX) {
+        return NULL;
     }
+    return new_signed_iliteral(type, unsigned_value);
 }
 
 IntegerLiteralType integer_literal_type(unsigned long long value, int base, IntegerLiteralType suffix_type) {
-- 
2.43.0


From 2a7e81e0a49f2ab6ab89419a6a3248cdfd9bf344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:24 +0000
Subject: [PATCH 23/41] fix: error messages of any length do not overflow their
 buffer

---
 src/error/error.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/error/error.c b/src/error/error.c
index 36faa7b..e41a5b3 100644
--- a/src/error/error.c
+++ b/src/error/error.c
@@ -13,13 +13,15 @@ BaseType t_error = {
 Error* new_error(char* format, ...) {
     Error* err = malloc(sizeof(Error));
 
-    // TODO: fix to prevent buffer overflow
-    char* message = malloc(200 * sizeof(char));
     va_list arg;
     va_start(arg, format);
-    vsprintf(message, format, arg);
+    int length = vsnprintf(NULL, 0, format, arg);
+    va_end(arg);
+
+    char* message = malloc((length + 1) * sizeof(char));
+    va_start(arg, format);
+    vsnprintf(message, length + 1, format, arg);
     va_end(arg);
-    message = realloc(message, (strlen(message) + 1) * sizeof(char));
 
     err->message = message;
 
-- 
2.43.0


From dea637f971709e709d952d284ef1bb55b94cbdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:36 +0000
Subject: [PATCH 24/41] fix: long names and string literals do not overflow the
 buffers of the emitted assembly

---
 src/x64/data.c  |  2 +-
 src/x64/inst.c  | 25 +++++++++++++++++--------
 src/x64/label.c |  6 +++---
 src/x64/ope.c   |  9 ++++++---
 4 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/x64/data.c b/src/x64/data.c
index 22b322d..0008d92 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -45,7 +45,6 @@ X64Data* x64data_copy(X64Data* x64data) {
 }
 
 char* x64data_tostring(X64Data* x64data) {
-    // TODO: fix to prevent buffer overflow
     char* data_str = malloc(200 * sizeof(char));
     char* display_str = NULL;
 
@@ -77,6 +76,7 @@ char* x64data_tostring(X64Data* x64data) {
             break;
         case X64_DATA_STR:
             display_str = sliteral_display_string(x64data->sliteral);
+            data_str = realloc(data_str, (strlen("\t.ascii\t\n") + strlen(display_str) + 1) * sizeof(char));
             sprintf(data_str, "\t.ascii\t%s\n", display_str);
             free(display_str);
             break;
diff --git a/src/x64/inst.c b/src/x64/inst.c
index de0bd84..3163f7a 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -41,26 +41,35 @@ X64Inst* x64inst_copy(X64Inst* x64inst) {
 char* x64inst_tostring(X64Inst* x64inst) {
     char* x64instcode_tostring(X64Inst * x64inst);
 
-    // TODO: fix to prevent buffer overflow
-    char* code_str = malloc(200 * sizeof(char));
-    memset(code_str, 0, 200 * sizeof(char));
-
     char* instcode_string = x64instcode_tostring(x64inst);
+    char* src_string = NULL;
+    char* dst_string = NULL;
+    int length = strlen("\t") + strlen(instcode_string) + strlen("\t, \n");
+    if (x64inst->src != NULL && x64inst->src->type != X64_OPERAND_SUFFIX) {
+        src_string = x64ope_tostring(x64inst->src);
+        length += strlen(src_string);
+    }
+    if (x64inst->dst != NULL && x64inst->dst->type != X64_OPERAND_SUFFIX) {
+        dst_string = x64ope_tostring(x64inst->dst);
+        length += strlen(dst_string);
+    }
+
+    char* code_str = malloc((length + 1) * sizeof(char));
+    memset(code_str, 0, (length + 1) * sizeof(char));
+
     strcat(code_str, "\t");
     strcat(code_str, instcode_string);
     free(instcode_string);
 
     int operand_appears = 0;
-    if (x64inst->src != NULL && x64inst->src->type != X64_OPERAND_SUFFIX) {
-        char* src_string = x64ope_tostring(x64inst->src);
+    if (src_string != NULL) {
         strcat(code_str, "\t");
         strcat(code_str, src_string);
         free(src_string);
         operand_appears = 1;
     }
 
-    if (x64inst->dst != NULL && x64inst->dst->type != X64_OPERAND_SUFFIX) {
-        char* dst_string = x64ope_tostring(x64inst->dst);
+    if (dst_string != NULL) {
         strcat(code_str, operand_appears ? ", " : "\t");
         strcat(code_str, dst_string);
         free(dst_string);
diff --git a/src/x64/label.c b/src/x64/label.c
index f275040..822ca2a 100644
--- a/src/x64/label.c
+++ b/src/x64/label.c
@@ -25,9 +25,9 @@ X64Label* x64label_copy(X64Label* x64label) {
 }
 
 char* x64label_tostring(X64Label* x64label) {
-    // TODO: fix to prevent buffer overflow
-    char* label_str = malloc(200 * sizeof(char));
-    memset(label_str, 0, 200 * sizeof(char));
+    int length = 50 + 2 * strlen(x64label->name);
+    char* label_str = malloc(length * sizeof(char));
+    memset(label_str, 0, length * sizeof(char));
 
     switch (x64label->type) {
         case X64_LABEL_FUNCTION:
diff --git a/src/x64/ope.c b/src/x64/ope.c
index ede4d99..7979220 100644
--- a/src/x64/ope.c
+++ b/src/x64/ope.c
@@ -103,12 +103,15 @@ X64Ope* x64ope_copy(X64Ope* x64ope) {
 }
 
 char* x64ope_tostring(X64Ope* x64ope) {
-    // TODO: fix to prevent buffer overflow
-    char* ope_str = malloc(50 * sizeof(char));
+    int length = 50;
+    if (x64ope->label_name != NULL) {
+        length += strlen(x64ope->label_name);
+    }
+    char* ope_str = malloc(length * sizeof(char));
 
     switch (x64ope->type) {
         case X64_OPERAND_SUFFIX:
-            memset(ope_str, 0, 50 * sizeof(char));
+            memset(ope_str, 0, length * sizeof(char));
             break;
         case X64_OPERAND_REG:
             sprintf(ope_str, "%s", reg_name(x64ope->reg_id, x64ope->suffix));
-- 
2.43.0


From e4daa8d033fd63721312a6a15ef61366b4b204b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:54 +0000
Subject: [PATCH 25/41] fix: dividing by a literal does not overwrite a live
 register

---
 src/x64gen/arithinst.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index 7181bc3..8416afc 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -168,6 +168,14 @@ Vector* gen_divisional_common_x64code(X64gen* x64gen, X64RegisterId result_reg_i
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
             snd_src_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
+            Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+            if (snd_src_id != dst_id && set_contains(alive_regs_set, &snd_src_id)) {
+                snd_src_id = CALLEE_SAVED_REG_IDS[1];
+                if (x64gen->evacuation_count < 2) {
+                    x64gen->evacuation_count = 2;
+                }
+            }
+            delete_set(alive_regs_set);
 
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
-- 
2.43.0


From 0a2e9e8ac5d708f479f4b6d72c84d26e07f4394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:56 +0000
Subject: [PATCH 26/41] fix: diagnose calls with more live values than
 registers to save them in

---
 src/x64gen/ctrlinst.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 420eaff..8e1cee2 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -138,13 +138,18 @@ Vector* gen_call_x64code(X64gen* x64gen) {
 
     Set* alive_reg_induces_set = create_alive_reg_induces_set(x64gen->liveseqs);
     int evacuation_count = 0;
-    // TODO: consider case that evacuation_count is greater than NUM_CALLEE_SAVED_REG
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
         if (*caller_ref == immc->inst->dst->reg->reg_id) {
             continue;
         }
+        // TODO: save the rest of values in memory
+        if (evacuation_count >= NUM_CALLEE_SAVED_REGS) {
+            fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                            "expression is too complex, no register is left to save a value in during a call\n");
+            exit(1);
+        }
         int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
         X64Ope* callee = new_reg_x64ope(X64_SUFFIX_QUAD, callee_id);
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
-- 
2.43.0


From 3082d7764cb0f5797b28165652f216781d0aff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:57 +0000
Subject: [PATCH 27/41] fix: diagnose expressions that need more registers than
 there are

---
 src/regalloc/regalloc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/regalloc/regalloc.c b/src/regalloc/regalloc.c
index 4e2ca62..19bf464 100644
--- a/src/regalloc/regalloc.c
+++ b/src/regalloc/regalloc.c
@@ -6,6 +6,7 @@
 #include "../map/map.h"
 #include "./basicblock.h"
 
+#include <stdio.h>
 #include <stdlib.h>
 
 Vector* dequeue_external_immcs(RegAlloc* regalloc);
@@ -423,6 +424,10 @@ void update_liveseqs(Vector* liveseqs, Vector* livenesses, Vector* allocations)
     for (int virtual_reg_id = 0; virtual_reg_id < num_virtual_regs; virtual_reg_id++) {
         Liveness* liveness = vector_at(livenesses, virtual_reg_id);
         int* real_reg_id_ref = vector_at(allocations, virtual_reg_id);
+        if (*real_reg_id_ref == -1) {
+            fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: expression is too complex, no register is left\n");
+            exit(1);
+        }
         Liveseq* liveseq = vector_at(liveseqs, *real_reg_id_ref);
         vector_push(liveseq->livenesses, liveness_copy(liveness));
     }
-- 
2.43.0


From 499c6c31f7bc7a60b014a2f373d9c9f0c78afac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 28/41] fix: parsing time of nested expressions is no longer
 exponential

---
 src/parser/expression.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 5dbb1ad..c3ef6bd 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -23,13 +23,14 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
 
     int terminated = 0;
     while (!terminated) {
-        int index = parser->index;
-
-        parserret_assign(&ast, &err, parse_unary_expr(parser));
+        // left operand is a unary expression, parsing each operand only once keeps parsing of nested expressions linear
+        parserret_assign(&ast, &err, parse_conditional_expr(parser));
         if (err != NULL) {
-            parser->index = index;
-            delete_error(err);
-            err = NULL;
+            delete_vector(stack);
+            return new_parserret_error(err);
+        }
+
+        if (ast->type < AST_PREINC_EXPR || ast->type > AST_STRING_EXPR) {
             break;
         }
 
@@ -80,22 +81,11 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
                 vector_push(stack, new_ast(AST_OR_ASSIGN_EXPR, 1, ast));
                 break;
             default:
-                parser->index = index;
-                delete_ast(ast);
                 terminated = 1;
                 break;
         }
     }
 
-    parserret_assign(&ast, &err, parse_conditional_expr(parser));
-    if (err != NULL) {
-        delete_vector(stack);
-        return new_parserret_error(err);
-    }
-
-    vector_push(stack, ast);
-
-    ast = vector_pop(stack);
     while (vector_size(stack) > 0) {
         Ast* next_ast = vector_pop(stack);
         vector_push(next_ast->children, ast);
-- 
2.43.0


From a610cff1982f9c8725b49db95eb38aaed62939b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:32 +0000
Subject: [PATCH 29/41] fix: scale pointers to structures that are defined
 after the pointers

---
 src/resolver/expression.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 84f3b06..f57127d 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -7,6 +7,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+void complete_struct_dtype(Resolver* resolver, DType* dtype);
+
 ResolverReturn* resolve_expr(Resolver* resolver) {
     Srt* srt = NULL;
     Vector* errs = NULL;
@@ -100,9 +102,25 @@ ResolverReturn* resolve_expr(Resolver* resolver) {
     if (errs != NULL) {
         return new_resolverret_errors(errs);
     }
+    complete_struct_dtype(resolver, srt->dtype);
     return new_resolverret(srt);
 }
 
+void complete_struct_dtype(Resolver* resolver, DType* dtype) {
+    while (dtype->type == DTYPE_POINTER || dtype->type == DTYPE_ARRAY) {
+        dtype = dtype->type == DTYPE_POINTER ? dtype->dpointer->to_dtype : dtype->darray->of_dtype;
+    }
+    if (dtype->type != DTYPE_STRUCT || dtype->dstruct->name == NULL || !dtype_isincomplete(dtype)) {
+        return;
+    }
+    // the structure may have been defined after the declaration this type was taken from
+    DType* complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+    if (complete_dtype != NULL && complete_dtype->type == DTYPE_STRUCT) {
+        dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
+        dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
+    }
+}
+
 ResolverReturn* resolve_assignment_expr(Resolver* resolver) {
     Srt* srt = NULL;
     DType* dtype = NULL;
-- 
2.43.0


From 175bb1093ea4f02271918f11c437feaabfada2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:07 +0000
Subject: [PATCH 30/41] fix: diagnose arithmetic on pointers to functions and
 incomplete types, and their indirection

---
 src/resolver/expression.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index f57127d..7ed5d75 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -8,6 +8,7 @@
 #include <string.h>
 
 void complete_struct_dtype(Resolver* resolver, DType* dtype);
+int ispointer_to_object(DType* dtype);
 
 ResolverReturn* resolve_expr(Resolver* resolver) {
     Srt* srt = NULL;
@@ -106,6 +107,10 @@ ResolverReturn* resolve_expr(Resolver* resolver) {
     return new_resolverret(srt);
 }
 
+int ispointer_to_object(DType* dtype) {
+    return dtype->type == DTYPE_POINTER && dtype_isobject(dtype->dpointer->to_dtype);
+}
+
 void complete_struct_dtype(Resolver* resolver, DType* dtype) {
     while (dtype->type == DTYPE_POINTER || dtype->type == DTYPE_ARRAY) {
         dtype = dtype->type == DTYPE_POINTER ? dtype->dpointer->to_dtype : dtype->darray->of_dtype;
@@ -801,12 +806,12 @@ ResolverReturn* resolve_add_expr(Resolver* resolver) {
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_ADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
+    } else if (ispointer_to_object(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype)) {
         rhs_srt = perform_integer_promotion(rhs_srt);
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (dtype_isinteger(lhs_srt->dtype) && rhs_srt->dtype->type == DTYPE_POINTER) {
+    } else if (dtype_isinteger(lhs_srt->dtype) && ispointer_to_object(rhs_srt->dtype)) {
         lhs_srt = perform_integer_promotion(lhs_srt);
         dtype = dtype_copy(rhs_srt->dtype);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, rhs_srt, lhs_srt);
@@ -859,13 +864,12 @@ ResolverReturn* resolve_subtract_expr(Resolver* resolver) {
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_SUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
+    } else if (ispointer_to_object(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype)) {
         rhs_srt = perform_integer_promotion(rhs_srt);
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_PSUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && rhs_srt->dtype->type == DTYPE_POINTER &&
-               dtype_iscompatible(lhs_srt->dtype, rhs_srt->dtype)) {
+    } else if (ispointer_to_object(lhs_srt->dtype) && dtype_iscompatible(lhs_srt->dtype, rhs_srt->dtype)) {
         dtype = new_integer_dtype(DTYPE_UNSIGNED_LONGLONG);
         srt = new_dtyped_srt(SRT_PDIFF_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
@@ -1108,6 +1112,14 @@ ResolverReturn* resolve_indirection_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    if (dtype_isincomplete(child_srt->dtype->dpointer->to_dtype)) {
+        errs = new_vector(&t_error);
+        err = new_error("operand of unary * has pointer to an incomplete type");
+        vector_push(errs, err);
+        delete_srt(child_srt);
+        return new_resolverret_errors(errs);
+    }
+
     dtype = dtype_copy(child_srt->dtype->dpointer->to_dtype);
     srt = new_dtyped_srt(SRT_INDIR_EXPR, dtype, 1, child_srt);
     return new_resolverret(srt);
@@ -1482,7 +1494,7 @@ ResolverReturn* resolve_incdec_expr(Resolver* resolver, SrtType srt_type, char*
         return new_resolverret_errors(errs);
     }
 
-    if (!dtype_isinteger(srt->dtype) && srt->dtype->type != DTYPE_POINTER) {
+    if (!dtype_isinteger(srt->dtype) && !ispointer_to_object(srt->dtype)) {
         errs = new_vector(&t_error);
         err = new_error("operand of %s should be either integer or pointer", op);
         vector_push(errs, err);
-- 
2.43.0


From a5c0cbc25d3d6bafa35e85ce622b0e3eb5b3865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:22 +0000
Subject: [PATCH 31/41] fix: diagnose tags used as the other kind of type, name
 void by a typedef

---
 src/resolver/declaration.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index f2fcef9..532de43 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -226,6 +226,13 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     if (members == NULL) {
         DType* unnamed_dtype = tagtable_search(resolver->tag_table, struct_name);
         int nbytes = 0, alignment = 0;
+        if (unnamed_dtype != NULL && unnamed_dtype->type != DTYPE_STRUCT) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' is not declared as a structure", struct_name);
+            vector_push(errs, err);
+            free(struct_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         if (unnamed_dtype != NULL) {
             nbytes = unnamed_dtype->dstruct->nbytes;
             alignment = unnamed_dtype->dstruct->alignment;
@@ -448,6 +455,14 @@ ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
     }
 
     if (members == NULL) {
+        DType* enum_dtype = tagtable_search(resolver->tag_table, enum_name);
+        if (enum_dtype != NULL && enum_dtype->type != DTYPE_ENUM) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' is not declared as an enumeration", enum_name);
+            vector_push(errs, err);
+            free(enum_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         free(enum_name);
         dtype = new_integer_dtype(DTYPE_INT);
         return new_resolverret_dtype(dtype);
@@ -572,7 +587,7 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
     Symbol* symbol = symboltable_search(resolver->symbol_table, ast->ident_name);
 
     dtype = dtype_copy(symbol->dtype->dtypedef->defined_dtype);
-    if (!dtype_isincomplete(dtype)) {
+    if (dtype->type == DTYPE_VOID || !dtype_isincomplete(dtype)) {
         return new_resolverret_dtype(dtype);
     }
 
-- 
2.43.0


From ebbc5f7ac045ff9ea5d0b4cd81a39a5258a9877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:11 +0000
Subject: [PATCH 32/41] fix: a structure tag that hides another one does not
 change the types declared with that one

---
 src/resolver/declaration.c | 15 ++++++++++++---
 src/resolver/expression.c  |  4 ++--
 src/tagtab/tagtab.c        | 30 ++++++++++++++++++++++++++++++
 src/tagtab/tagtab.h        |  3 +++
 4 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 532de43..1472194 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -207,6 +207,10 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     Vector* members = NULL;
     child_ast = vector_at(ast->children, struct_name != NULL ? 1 : 0);
     if (child_ast != NULL && child_ast->type == AST_STRUCT_DECL_LIST) {
+        if (struct_name != NULL && tagtable_hides_outer(resolver->tag_table, struct_name)) {
+            // types refer to structures by their names: give this one a name of its own
+            struct_name = tagtable_define_hiding_struct(resolver->tag_table, struct_name);
+        }
         resolver->ast = child_ast;
         resolverret_dstructmembers_assign(&members, &errs, resolve_struct_decl_list(resolver));
         resolver->ast = ast;
@@ -233,6 +237,11 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
             free(struct_name);
             return new_resolverret_dtype_errors(errs);
         }
+        if (unnamed_dtype != NULL && unnamed_dtype->dstruct->name != NULL) {
+            free(struct_name);
+            struct_name = new_string(unnamed_dtype->dstruct->name);
+            unnamed_dtype = tagtable_search_struct(resolver->tag_table, struct_name);
+        }
         if (unnamed_dtype != NULL) {
             nbytes = unnamed_dtype->dstruct->nbytes;
             alignment = unnamed_dtype->dstruct->alignment;
@@ -594,7 +603,7 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
     DType* complete_dtype = NULL;
     switch (dtype->type) {
         case DTYPE_STRUCT:
-            complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+            complete_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
             if (complete_dtype == NULL)
                 break;
 
@@ -1049,7 +1058,7 @@ ResolverReturn* resolve_initializer(Resolver* resolver) {
     } else if (dtype->type == DTYPE_ARRAY && dtype->darray->of_dtype->type == DTYPE_CHAR) {
         resolverret_assign(&srt, &errs, resolve_string_initializer(resolver));
     } else if (dtype->type == DTYPE_STRUCT && dtype->dstruct->members == NULL) {
-        resolver->initialized_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+        resolver->initialized_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
         resolverret_assign(&srt, &errs, resolve_aggregate_initializer(resolver));
     } else if (dtype->type == DTYPE_ARRAY || dtype->type == DTYPE_STRUCT) {
         resolverret_assign(&srt, &errs, resolve_aggregate_initializer(resolver));
@@ -1101,7 +1110,7 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
             break;
         case DTYPE_STRUCT:
             if (dtype->dstruct->members == NULL) {
-                resolver->initialized_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+                resolver->initialized_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
             }
             // resolve_zero_aggregate_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_aggregate_initializer(resolver));
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 7ed5d75..d4e4a18 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -119,7 +119,7 @@ void complete_struct_dtype(Resolver* resolver, DType* dtype) {
         return;
     }
     // the structure may have been defined after the declaration this type was taken from
-    DType* complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+    DType* complete_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
     if (complete_dtype != NULL && complete_dtype->type == DTYPE_STRUCT) {
         dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
         dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
@@ -1445,7 +1445,7 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
     DType* original_member_dtype = resolver->expr_dtype;
     resolver->expr_dtype = lhs_srt->dtype->dpointer->to_dtype;
     if (resolver->expr_dtype->dstruct->members == NULL) {
-        resolver->expr_dtype = tagtable_search(resolver->tag_table, resolver->expr_dtype->dstruct->name);
+        resolver->expr_dtype = tagtable_search_struct(resolver->tag_table, resolver->expr_dtype->dstruct->name);
     }
 
     if (resolver->expr_dtype == NULL) {
diff --git a/src/tagtab/tagtab.c b/src/tagtab/tagtab.c
index 746fdb7..4c66f90 100644
--- a/src/tagtab/tagtab.c
+++ b/src/tagtab/tagtab.c
@@ -1,6 +1,8 @@
 #include "./tagtab.h"
 
+#include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 TagTable* new_tagtable(void) {
     TagTable* table = malloc(sizeof(TagTable));
@@ -35,6 +37,34 @@ DType* tagtable_search(TagTable* table, char* name) {
     return dtype;
 }
 
+DType* tagtable_search_struct(TagTable* table, char* name) {
+    DType* dtype = NULL;
+    while (table != NULL) {
+        dtype = map_get(table->map, name);
+        if (dtype != NULL && dtype->type == DTYPE_STRUCT && dtype->dstruct->members != NULL) {
+            return dtype;
+        }
+        table = table->outer_scope;
+    }
+    return NULL;
+}
+
+int tagtable_hides_outer(TagTable* table, char* name) {
+    return tagtable_can_define(table, name) && tagtable_search(table, name) != NULL;
+}
+
+char* tagtable_define_hiding_struct(TagTable* table, char* name) {
+    int depth = 0;
+    for (TagTable* outer = table->outer_scope; outer != NULL; outer = outer->outer_scope) {
+        depth++;
+    }
+    // a name no program can spell
+    char* unique_name = malloc(strlen(name) + 16);
+    sprintf(unique_name, "%s.%d", name, depth);
+    map_add(table->map, name, new_named_struct_dtype(new_string(unique_name), 0, 0));
+    return unique_name;
+}
+
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members) {
     if (!tagtable_can_define(table, name)) {
         return NULL;
diff --git a/src/tagtab/tagtab.h b/src/tagtab/tagtab.h
index 33085da..710d843 100644
--- a/src/tagtab/tagtab.h
+++ b/src/tagtab/tagtab.h
@@ -17,6 +17,9 @@ int tagtable_can_define(TagTable* table, char* name);
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members);
 DType* tagtable_define_enum(TagTable* table, char* name, Vector* members);
 DType* tagtable_search(TagTable* table, char* name);
+DType* tagtable_search_struct(TagTable* table, char* name);
+int tagtable_hides_outer(TagTable* table, char* name);
+char* tagtable_define_hiding_struct(TagTable* table, char* name);
 TagTable* tagtable_enter_scope(TagTable* table);
 TagTable* tagtable_exit_scope(TagTable* table);
 void delete_tagtable(TagTable* table);
-- 
2.43.0


From b4ce4354a10e0e9797567c2546f4b7ae69f011d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:55 +0000
Subject: [PATCH 33/41] fix: diagnose a typedef name whose declaration failed
 instead of dereferencing NULL

---
 src/resolver/declaration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 1472194..f5bbb89 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -595,6 +595,13 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
     Ast* ast = resolver->ast;
     Symbol* symbol = symboltable_search(resolver->symbol_table, ast->ident_name);
 
+    if (symbol == NULL || symbol->dtype->type != DTYPE_TYPEDEF) {
+        Vector* errs = new_vector(&t_error);
+        Error* err = new_error("'%s' is not a valid typedef name", ast->ident_name);
+        vector_push(errs, err);
+        return new_resolverret_dtype_errors(errs);
+    }
+
     dtype = dtype_copy(symbol->dtype->dtypedef->defined_dtype);
     if (dtype->type == DTYPE_VOID || !dtype_isincomplete(dtype)) {
         return new_resolverret_dtype(dtype);
-- 
2.43.0


From 8151ee54cb03f765a8d00d63b5c0ac6c63b7735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:34 +0000
Subject: [PATCH 34/41] fix: diagnose unreadable input and unwritable output
 instead of crashing or succeeding

---
 src/freader/freader.c | 16 +++++++++++-----
 src/main.c            | 20 ++++++++++++++++----
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 83b86a5..6f68757 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -1,5 +1,6 @@
 #include "./freader.h"
 
+#include <limits.h>
 #include <stdlib.h>
 
 FileReader* new_freader(FILE* file_ptr) {
@@ -12,9 +13,11 @@ FileReaderReturn* freader_read(FileReader* freader) {
     char* file_content = NULL;
     Error* err = NULL;
 
-    fseek(freader->file_ptr, 0, SEEK_END);
-    long file_size = ftell(freader->file_ptr);
-    if (file_size <= 0) {
+    long file_size = -1L;
+    if (fseek(freader->file_ptr, 0, SEEK_END) == 0) {
+        file_size = ftell(freader->file_ptr);
+    }
+    if (file_size <= 0 || file_size == LONG_MAX) {
         err = new_error("fail to read content of file");
         return new_freaderret_error(err);
     }
@@ -22,10 +25,13 @@ FileReaderReturn* freader_read(FileReader* freader) {
     rewind(freader->file_ptr);
 
     file_content = malloc(file_size + 1);
-    file_size = fread(file_content, sizeof(char), file_size, freader->file_ptr);
+    if (fread(file_content, sizeof(char), file_size, freader->file_ptr) != (size_t)file_size) {
+        free(file_content);
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
     file_content[file_size] = '\0';
 
-    file_content = realloc(file_content, file_size + 1);
     return new_freaderret(file_content);
 }
 
diff --git a/src/main.c b/src/main.c
index c6ae2ec..68e5564 100644
--- a/src/main.c
+++ b/src/main.c
@@ -102,7 +102,13 @@ int main(int argc, char* argv[]) {
     char* dst_filename = new_string(argv[1]);
     dst_filename[src_filename_len - 1] = 's';
     FILE* dst = fopen(dst_filename, "w");
-    free(dst_filename);
+
+    if (dst == NULL) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: fail to open file\n", dst_filename);
+        free(dst_filename);
+        delete_vector(x64codes);
+        return 1;
+    }
 
     int x64codes_len = vector_size(x64codes);
     for (int i = 0; i < x64codes_len; i++) {
@@ -110,9 +116,15 @@ int main(int argc, char* argv[]) {
         fprintf(dst, "%s", x64_str);
         free(x64_str);
     }
-    fclose(dst);
-
     delete_vector(x64codes);
 
-    return 0;
+    int failed = ferror(dst);
+    failed = fclose(dst) != 0 || failed;
+    if (failed) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: fail to write file\n", dst_filename);
+        remove(dst_filename);
+    }
+    free(dst_filename);
+
+    return failed ? 1 : 0;
 }
-- 
2.43.0


From 44d4cc4f6d48ea015a2a4125d55d91402144e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:36 +0000
Subject: [PATCH 35/41] fix: do not silently ignore the text behind a null
 character

---
 src/freader/freader.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 6f68757..96ee063 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -2,6 +2,7 @@
 
 #include <limits.h>
 #include <stdlib.h>
+#include <string.h>
 
 FileReader* new_freader(FILE* file_ptr) {
     FileReader* freader = malloc(sizeof(FileReader));
@@ -32,6 +33,12 @@ FileReaderReturn* freader_read(FileReader* freader) {
     }
     file_content[file_size] = '\0';
 
+    if (memchr(file_content, '\0', file_size) != NULL) {
+        free(file_content);
+        err = new_error("null character appeared in file");
+        return new_freaderret_error(err);
+    }
+
     return new_freaderret(file_content);
 }
 
-- 
2.43.0


From 38707cd7ad9096f720cb3bb5992ea981a4db767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:19 +0000
Subject: [PATCH 36/41] fix: convert wide case labels to the type of the switch
 condition

The label value was compared in the width of its literal, with an immediate
that cmpq cannot hold, and duplicates were detected before the conversion.
---
 src/immcgen/statement.c  | 10 +++++++++-
 src/immcgen/util.c       | 30 ++++++++++++++++++------------
 src/immcgen/util.h       |  2 ++
 src/resolver/resolver.c  |  1 +
 src/resolver/resolver.h  |  1 +
 src/resolver/statement.c | 11 ++++++++++-
 6 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/immcgen/statement.c b/src/immcgen/statement.c
index 0891807..6ba2994 100644
--- a/src/immcgen/statement.c
+++ b/src/immcgen/statement.c
@@ -165,6 +165,8 @@ Vector* gen_switch_stmt_immcode(Immcgen* immcgen) {
 
     Vector* cases_codes = new_vector(&t_immc);
     ImmcOpe* reg = gen_child_reg_immcope(immcgen, cases_codes, 0);
+    Srt* condition_srt = vector_at(immcgen->srt->children, 0);
+    DType* condition_dtype = condition_srt->dtype;
 
     Vector* body_codes = new_vector(&t_immc);
     immcgen->label_id++;
@@ -189,7 +191,13 @@ Vector* gen_switch_stmt_immcode(Immcgen* immcgen) {
 
         IntegerLiteral* case_value_iliteral = pair_second(label_value_pair);
         ImmcSuffix suffix = immcsuffix_get(iliteral_nbytes(case_value_iliteral));
-        ImmcOpe* case_value = new_int_immcope(suffix, iliteral_copy(case_value_iliteral));
+        ImmcOpe* case_value = NULL;
+        if (is_immediate_iliteral(suffix, case_value_iliteral)) {
+            case_value = new_int_immcope(suffix, iliteral_copy(case_value_iliteral));
+        } else {
+            // wide label is converted to the type of the condition
+            case_value = gen_dtyped_int_immcope(immcgen, cases_codes, condition_dtype, case_value_iliteral);
+        }
 
         vector_push(cases_codes, new_inst_immc(IMMC_INST_JEQ, case_label, immcope_copy(reg), case_value));
     }
diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index b537f8d..a247808 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -8,7 +8,6 @@
 
 void append_child_jmp_cond_immcode(Immcgen* immcgen, Vector* codes, int index, ImmcOpe* label, int jmp_true);
 ErrorableInt* get_cjmp_inst_type(Srt* srt, int index, int jmp_true);
-int is_immediate_iliteral(ImmcSuffix suffix, IntegerLiteral* iliteral);
 
 void append_children_immcode(Immcgen* immcgen, Vector* codes) {
     Srt* srt = immcgen->srt;
@@ -116,17 +115,9 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     if (child_srt->type == SRT_ILITERAL_EXPR) {
         child_srt = vector_at(srt->children, index);
         IntegerLiteral* iliteral = create_casted_iliteral(child_srt);
-        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(child_srt->dtype));
-        ImmcOpe* src = new_int_immcope(suffix, iliteral);
-        if (is_immediate_iliteral(suffix, iliteral)) {
-            return src;
-        }
-        // operands of instructions other than load cannot have the value
-        immcgen->next_reg_id++;
-        ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, iliteral_isunsigned(iliteral));
-        ImmcOpe* dst = new_reg_immcope(suffix, dst_reg);
-        vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
-        return immcope_copy(dst);
+        ImmcOpe* src = gen_dtyped_int_immcope(immcgen, codes, child_srt->dtype, iliteral);
+        delete_iliteral(iliteral);
+        return src;
     }
 
     append_child_immcode(immcgen, codes, index);
@@ -171,6 +162,21 @@ ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index) {
     return new_ptr_immcope(immcgen->expr_reg->reg_id);
 }
 
+ImmcOpe* gen_dtyped_int_immcope(Immcgen* immcgen, Vector* codes, DType* dtype, IntegerLiteral* iliteral) {
+    IntegerLiteral* dtyped_iliteral = create_dtyped_iliteral(dtype, iliteral);
+    ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(dtype));
+    ImmcOpe* src = new_int_immcope(suffix, dtyped_iliteral);
+    if (is_immediate_iliteral(suffix, dtyped_iliteral)) {
+        return src;
+    }
+    // operands of instructions other than load cannot have the value
+    immcgen->next_reg_id++;
+    ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, iliteral_isunsigned(dtyped_iliteral));
+    ImmcOpe* dst = new_reg_immcope(suffix, dst_reg);
+    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+    return immcope_copy(dst);
+}
+
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
     ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(immcgen->srt->dtype));
     int is_unsigned = dtype_isunsignedinteger(immcgen->srt->dtype);
diff --git a/src/immcgen/util.h b/src/immcgen/util.h
index 668e39c..3410f31 100644
--- a/src/immcgen/util.h
+++ b/src/immcgen/util.h
@@ -13,6 +13,8 @@ void update_void_expr_register(Immcgen* immcgen);
 ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* gen_child_reg_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index);
+ImmcOpe* gen_dtyped_int_immcope(Immcgen* immcgen, Vector* codes, DType* dtype, IntegerLiteral* iliteral);
+int is_immediate_iliteral(ImmcSuffix suffix, IntegerLiteral* iliteral);
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen);
 IntegerLiteral* create_casted_iliteral(Srt* srt);
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral);
diff --git a/src/resolver/resolver.c b/src/resolver/resolver.c
index 3a8d2f6..6c2171f 100644
--- a/src/resolver/resolver.c
+++ b/src/resolver/resolver.c
@@ -12,6 +12,7 @@ Resolver* new_resolver(Ast* ast) {
     resolver->tag_table = new_tagtable();
     resolver->inside_loop = 0;
     resolver->switch_cases = NULL;
+    resolver->switch_nbytes = 0;
     resolver->switch_default_exists = 0;
     resolver->return_dtype = NULL;
     resolver->specifier_dtype = NULL;
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index 7d6867d..b904a2f 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -15,6 +15,7 @@ typedef struct Resolver {
     TagTable* tag_table;
     int inside_loop;
     Vector* switch_cases;
+    int switch_nbytes;
     int switch_default_exists;
     DType* return_dtype;
     DType* specifier_dtype;
diff --git a/src/resolver/statement.c b/src/resolver/statement.c
index f8ddaa9..09daa0f 100644
--- a/src/resolver/statement.c
+++ b/src/resolver/statement.c
@@ -107,7 +107,13 @@ ResolverReturn* resolve_case_stmt(Resolver* resolver) {
     int num_cases = vector_size(resolver->switch_cases);
     for (int i = 0; i < num_cases; i++) {
         IntegerLiteral* iliteral = vector_at(resolver->switch_cases, i);
-        if (iliteral->signed_value != case_value_iliteral->signed_value) {
+        unsigned long long diff =
+            (unsigned long long)iliteral->signed_value ^ (unsigned long long)case_value_iliteral->signed_value;
+        if (resolver->switch_nbytes == 4) {
+            // labels are converted to the type of the condition
+            diff = (unsigned int)diff;
+        }
+        if (diff != 0) {
             continue;
         }
         errs = new_vector(&t_error);
@@ -395,9 +401,11 @@ ResolverReturn* resolve_switch_stmt(Resolver* resolver) {
     }
 
     Vector* original_switch_cases = resolver->switch_cases;
+    int original_switch_nbytes = resolver->switch_nbytes;
     int original_switch_default_exists = resolver->switch_default_exists;
 
     resolver->switch_cases = new_vector(&t_iliteral);
+    resolver->switch_nbytes = dtype_nbytes(child_srt->dtype);
     resolver->switch_default_exists = 0;
 
     resolver->ast = vector_at(ast->children, 1);
@@ -406,6 +414,7 @@ ResolverReturn* resolve_switch_stmt(Resolver* resolver) {
 
     delete_vector(resolver->switch_cases);
     resolver->switch_cases = original_switch_cases;
+    resolver->switch_nbytes = original_switch_nbytes;
     resolver->switch_default_exists = original_switch_default_exists;
 
     if (errs != NULL) {
-- 
2.43.0


From 2798da7d2fd4a99c85612e98095954ff7fb76f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:38 +0000
Subject: [PATCH 37/41] fix: diagnose enumerators whose value does not fit in
 int

The value was truncated silently (enum { A = 4294967297 }), and the enumerator
after INT_MAX overflowed.
---
 src/resolver/declaration.c | 18 +++++++++++++++++-
 src/resolver/resolver.h    |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index f5bbb89..db87eaa 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -7,6 +7,7 @@
 #include "./expression.h"
 #include "./utils.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -546,6 +547,13 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
     }
 
     if (vector_size(ast->children) == 1) {
+        if (resolver->default_enum_value > INT_MAX) {
+            errs = new_vector(&t_error);
+            err = new_error("value of enumerator '%s' is out of the range of int", child_ast->ident_name);
+            vector_push(errs, err);
+            return new_resolverret_denummember_errors(errs);
+        }
+
         char* member_name = new_string(child_ast->ident_name);
         DType* member_dtype = new_integer_dtype(DTYPE_INT);
         IntegerLiteral* member_iliteral = new_signed_iliteral(INTEGER_INT, resolver->default_enum_value);
@@ -575,6 +583,14 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
         return new_resolverret_denummember_errors(errs);
     }
 
+    if (enum_const_srt->iliteral->signed_value < INT_MIN || enum_const_srt->iliteral->signed_value > INT_MAX) {
+        errs = new_vector(&t_error);
+        err = new_error("value of enumerator '%s' is out of the range of int", child_ast->ident_name);
+        vector_push(errs, err);
+        delete_srt(enum_const_srt);
+        return new_resolverret_denummember_errors(errs);
+    }
+
     int enum_value = enum_const_srt->iliteral->signed_value;
     delete_srt(enum_const_srt);
 
@@ -584,7 +600,7 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
     symboltable_define_integer(resolver->symbol_table, member_name, member_dtype, member_iliteral);
 
     member = new_denummember(new_string(child_ast->ident_name), enum_value);
-    resolver->default_enum_value = enum_value + 1;
+    resolver->default_enum_value = (long long)enum_value + 1;
 
     return new_resolverret_denummember(member);
 }
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index b904a2f..cef7085 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -19,7 +19,7 @@ typedef struct Resolver {
     int switch_default_exists;
     DType* return_dtype;
     DType* specifier_dtype;
-    int default_enum_value;
+    long long default_enum_value;
     DType* initialized_dtype;
     int initialized_offset;
     int is_nested_initializing;
-- 
2.43.0


From 3a455426cc0256697f07ebe6207e6472f7872c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:47 +0000
Subject: [PATCH 38/41] fix: diagnose arrays whose size in bytes does not fit
 in int

Sizes wrapped silently: int v[1073741825] occupied four bytes.
---
 src/resolver/declaration.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index db87eaa..9f31b6a 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -764,6 +764,7 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
     Error* err = NULL;
 
     DType* socket_dtype = NULL;
+    int array_length = 1;
     Ast* ast = resolver->ast;
     Ast* ast_ptr = ast;
 
@@ -771,6 +772,14 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
         switch (ast_ptr->type) {
             case AST_PTR_DECLOR: {
                 DType* plug_dtype = new_socket_pointer_dtype();
+                if (dtype_nbytes(plug_dtype) > INT_MAX / array_length) {
+                    errs = new_vector(&t_error);
+                    err = new_error("size of array is too large");
+                    vector_push(errs, err);
+                    delete_dtype(plug_dtype);
+                    break;
+                }
+                array_length = 1;
                 if (dtype == NULL) {
                     dtype = plug_dtype;
                 }
@@ -805,6 +814,14 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     break;
                 }
 
+                if (array_size_srt->iliteral->signed_value > INT_MAX / array_length) {
+                    errs = new_vector(&t_error);
+                    err = new_error("size of array is too large");
+                    vector_push(errs, err);
+                    delete_srt(array_size_srt);
+                    break;
+                }
+
                 if (array_size_srt->iliteral->signed_value <= 0) {
                     errs = new_vector(&t_error);
                     err = new_error("array size should be a positive integer");
@@ -813,6 +830,7 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     break;
                 }
 
+                array_length *= array_size_srt->iliteral->signed_value;
                 DType* plug_dtype = new_socket_array_dtype(array_size_srt->iliteral->signed_value);
                 delete_srt(array_size_srt);
                 if (dtype == NULL) {
@@ -868,6 +886,13 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     break;
                 }
 
+                if (dtype_nbytes(plug_dtype) > INT_MAX / array_length) {
+                    errs = new_vector(&t_error);
+                    err = new_error("size of array is too large");
+                    vector_push(errs, err);
+                    break;
+                }
+
                 if (socket_dtype != NULL && socket_dtype->type == DTYPE_FUNCTION && dtype_isincomplete(plug_dtype) &&
                     resolver->specifier_dtype->type != DTYPE_VOID) {
                     errs = new_vector(&t_error);
-- 
2.43.0


From 708fe75bd989a95e1b786b9a488ab292b5a3246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:21 +0000
Subject: [PATCH 39/41] fix: emit no loads of aggregates and functions whose
 values are not used

---
 src/immcgen/expression.c | 19 +++++--------------
 src/immcgen/util.c       | 11 +++++++++++
 src/immcgen/util.h       |  1 +
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 187c453..6ba54d0 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -37,20 +37,17 @@ Vector* gen_conditional_expr_immcode(Immcgen* immcgen) {
 
     dst = create_dest_reg_immcope(immcgen);
     src = gen_child_reg_immcope(immcgen, codes, 1);
-    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+    append_load_immcode(immcgen, codes, immcope_copy(dst), src);
 
     label = new_label_immcope_from_id(end_label_id);
     vector_push(codes, new_inst_immc(IMMC_INST_JMP, label, NULL, NULL));
 
     vector_push(codes, new_label_immc_from_id(IMMC_LABEL_NORMAL, IMMC_VIS_NONE, false_label_id));
 
-    dst = immcope_copy(dst);
     src = gen_child_reg_immcope(immcgen, codes, 2);
-    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+    append_load_immcode(immcgen, codes, dst, src);
 
     vector_push(codes, new_label_immc_from_id(IMMC_LABEL_NORMAL, IMMC_VIS_NONE, end_label_id));
-
-    update_non_void_expr_register(immcgen, dst);
     return codes;
 }
 
@@ -530,9 +527,7 @@ Vector* gen_indirection_expr_immcode(Immcgen* immcgen) {
     ImmcOpe* src = gen_child_ptr_immcope(immcgen, codes, 0);
     ImmcOpe* dst = create_dest_reg_immcope(immcgen);
 
-    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
-
-    update_non_void_expr_register(immcgen, dst);
+    append_load_immcode(immcgen, codes, dst, src);
     return codes;
 }
 
@@ -661,9 +656,7 @@ Vector* gen_tomember_expr_immcode(Immcgen* immcgen) {
 
     ImmcOpe* src = new_ptr_immcope(immcgen->expr_reg->reg_id);
     ImmcOpe* dst = create_dest_reg_immcope(immcgen);
-    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
-
-    update_non_void_expr_register(immcgen, dst);
+    append_load_immcode(immcgen, codes, dst, src);
     return codes;
 }
 
@@ -758,8 +751,6 @@ Vector* gen_primary_expr_immcode(Immcgen* immcgen) {
     }
 
     dst = create_dest_reg_immcope(immcgen);
-    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
-
-    update_non_void_expr_register(immcgen, dst);
+    append_load_immcode(immcgen, codes, dst, src);
     return codes;
 }
diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index a247808..1d42026 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -96,6 +96,17 @@ void update_non_void_expr_register(Immcgen* immcgen, ImmcOpe* dst) {
     immcgen->expr_reg = immcreg_copy(dst->reg);
 }
 
+void append_load_immcode(Immcgen* immcgen, Vector* codes, ImmcOpe* dst, ImmcOpe* src) {
+    update_non_void_expr_register(immcgen, dst);
+    if (dst->suffix == IMMC_SUFFIX_NONE) {
+        // aggregate or function, whose value is never used
+        delete_immcope(dst);
+        delete_immcope(src);
+        return;
+    }
+    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+}
+
 void update_void_expr_register(Immcgen* immcgen) {
     immcgen->expr_reg_suffix = IMMC_SUFFIX_NONE;
     if (immcgen->expr_reg != NULL) {
diff --git a/src/immcgen/util.h b/src/immcgen/util.h
index 3410f31..06c1b21 100644
--- a/src/immcgen/util.h
+++ b/src/immcgen/util.h
@@ -8,6 +8,7 @@ void append_children_immcode(Immcgen* immcgen, Vector* codes);
 void append_child_immcode(Immcgen* immcgen, Vector* codes, int index);
 void append_child_jmp_true_immcode(Immcgen* immcgen, Vector* codes, int index, ImmcOpe* label);
 void append_child_jmp_false_immcode(Immcgen* immcgen, Vector* codes, int index, ImmcOpe* label);
+void append_load_immcode(Immcgen* immcgen, Vector* codes, ImmcOpe* dst, ImmcOpe* src);
 void update_non_void_expr_register(Immcgen* immcgen, ImmcOpe* dst);
 void update_void_expr_register(Immcgen* immcgen);
 ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index);
-- 
2.43.0


From e5a09c317bbe9b4c7d7ef2cd7d896f934ccff38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 40/41] fix: diagnose structures passed or returned in ways
 that the generated code does not implement

---
 src/dtype/dtype.c         |  8 ++++++++
 src/dtype/dtype.h         |  1 +
 src/resolver/expression.c | 10 ++++++++++
 src/resolver/external.c   |  8 ++++++--
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/dtype/dtype.c b/src/dtype/dtype.c
index 1a89c42..3519f79 100644
--- a/src/dtype/dtype.c
+++ b/src/dtype/dtype.c
@@ -313,6 +313,14 @@ int dtype_isobject(DType* dtype) {
            (dtype->type == DTYPE_STRUCT && dtype->dstruct->nbytes > 0) || dtype->type == DTYPE_ENUM;
 }
 
+int dtype_isregister(DType* dtype) {
+    if (dtype->type != DTYPE_STRUCT) {
+        return 1;
+    }
+    int nbytes = dtype_nbytes(dtype);
+    return nbytes == 1 || nbytes == 2 || nbytes == 4 || nbytes == 8;
+}
+
 int dtype_isincomplete(DType* dtype) {
     return dtype->type == DTYPE_VOID || (dtype->type == DTYPE_STRUCT && dtype->dstruct->nbytes <= 0);
 }
diff --git a/src/dtype/dtype.h b/src/dtype/dtype.h
index a25008d..37ed737 100644
--- a/src/dtype/dtype.h
+++ b/src/dtype/dtype.h
@@ -71,6 +71,7 @@ int dtype_isarithmetic(DType* dtype);
 int dtype_isscalar(DType* dtype);
 int dtype_isaggregate(DType* dtype);
 int dtype_isobject(DType* dtype);
+int dtype_isregister(DType* dtype); // passed and returned in a single register
 int dtype_isincomplete(DType* dtype);
 int dtype_alignment(DType* dtype);
 int dtype_nbytes(DType* dtype);
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index d4e4a18..b3edd8f 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1395,6 +1395,16 @@ ResolverReturn* resolve_call_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    if (!dtype_isregister(resolver->expr_dtype->dfunction->return_dtype)) {
+        resolver->expr_dtype = original_call_dtype;
+        errs = new_vector(&t_error);
+        err = new_error("call of a function returning the structure is not supported");
+        vector_push(errs, err);
+        delete_srt(lhs_srt);
+        delete_srt(rhs_srt);
+        return new_resolverret_errors(errs);
+    }
+
     dtype = dtype_copy(resolver->expr_dtype->dfunction->return_dtype);
     srt = new_dtyped_srt(SRT_CALL_EXPR, dtype, 2, lhs_srt, rhs_srt);
 
diff --git a/src/resolver/external.c b/src/resolver/external.c
index 1df8228..5ddcc01 100644
--- a/src/resolver/external.c
+++ b/src/resolver/external.c
@@ -110,13 +110,17 @@ ResolverReturn* resolve_function_definition(Resolver* resolver) {
     int num_params = vector_size(params);
     for (int i = 0; i < num_params; i++) {
         DParam* dparam = vector_at(params, i);
-        if (dparam->name != NULL) {
+        if (dparam->name != NULL && dtype_isregister(dparam->dtype)) {
             continue;
         }
         if (errs == NULL) {
             errs = new_vector(&t_error);
         }
-        err = new_error("parameter name is required in a function definition");
+        if (dparam->name == NULL) {
+            err = new_error("parameter name is required in a function definition");
+        } else {
+            err = new_error("structure parameter '%s' is not supported", dparam->name);
+        }
         vector_push(errs, err);
     }
 
-- 
2.43.0


From 393fef75d5156042d7098b4674e92d9f67228d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:11 +0000
Subject: [PATCH 41/41] fix: push 32-bit unsigned arguments as the
 sign-extended immediates that push takes

---
 src/x64gen/datainst.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 7903483..dd15536 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -271,7 +271,15 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
 
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
-            X64Ope* src = new_int_x64ope(X64_SUFFIX_QUAD, iliteral_copy(immc_src->iliteral));
+            IntegerLiteral* iliteral = iliteral_copy(immc_src->iliteral);
+            if (immc_src->suffix != IMMC_SUFFIX_QUAD && iliteral_isunsigned(iliteral) &&
+                iliteral->unsigned_value > INT_MAX) {
+                // push sign-extends 32-bit values, the callee uses the lower bits only
+                long long sign_extended = (int)iliteral->unsigned_value;
+                delete_iliteral(iliteral);
+                iliteral = new_signed_iliteral(INTEGER_INT, sign_extended);
+            }
+            X64Ope* src = new_int_x64ope(X64_SUFFIX_QUAD, iliteral);
             vector_push(codes, new_inst_x64(X64_INST_PUSHX, src, NULL));
             break;
         }
-- 
2.43.0

