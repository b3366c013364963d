From 1e217e5b81527c1c347aa8f9baf8943550966521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 001/100] fix: move the source in sljit_emit_shift_into when
 the immediate shift is zero

---
 sljit_src/sljitNativeARM_32.c       | 6 ++++--
 sljit_src/sljitNativeARM_64.c       | 6 ++++--
 sljit_src/sljitNativeARM_T2_32.c    | 6 ++++--
 sljit_src/sljitNativeLOONGARCH_64.c | 6 ++++--
 sljit_src/sljitNativeMIPS_common.c  | 6 ++++--
 sljit_src/sljitNativePPC_common.c   | 6 ++++--
 sljit_src/sljitNativeRISCV_common.c | 6 ++++--
 sljit_src/sljitNativeS390X.c        | 6 ++++--
 sljit_src/sljitNativeX86_common.c   | 6 ++++--
 9 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 5e2a0f6..bd1432d 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2609,8 +2609,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		FAIL_IF(push_inst(compiler, MOV | RD(dst_reg) | RM(src1_reg) | ((sljit_ins)(is_left ? 0 : 1) << 5) | ((sljit_ins)src3w << 7)));
 		src3w = (src3w ^ 0x1f) + 1;
diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 7a68792..c094fba 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -1828,8 +1828,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		mask = inv_bits ? 0x1f : 0x3f;
 		src3w &= mask;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left)
 			src3w = (src3w ^ mask) + 1;
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index fde821d..1d729cf 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -2166,8 +2166,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (IS_2_LO_REGS(dst_reg, src1_reg))
 			FAIL_IF(push_inst16(compiler, (is_left ? LSLSI : LSRSI) | RD3(dst_reg) | RN3(src1_reg) | ((sljit_ins)src3w << 6)));
diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 697863e..1dcb555 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2125,8 +2125,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = INST(SLLI, op) | IMM_I12(src3w);
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 79e41de..c05ae2d 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2745,8 +2745,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SELECT_OP3(op, src3w, DSLL, DSLL32, SLL);
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index e1d120e..37cb28b 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2066,8 +2066,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 		if (!(op & SLJIT_32)) {
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index f4ce41f..373e0a6 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2806,8 +2806,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SLLI | WORD | IMM_I(src3w);
diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index da5c4dd..0b0173c 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3059,8 +3059,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (op & SLJIT_32) {
 			if (dst_r == src1_r) {
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 9a6a37e..9af085d 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2861,8 +2861,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
+			return emit_mov(compiler, dst_reg, dstw, src1_reg, src1w);
+		}
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
-- 
2.43.0


From dca42aa38eb9c8d851c8f5e73e3a0712eb422c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 002/100] fix: ppc64 or / xor with immediates which do not fit
 in 32 bit

---
 sljit_src/sljitNativePPC_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 37cb28b..f85bb33 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1733,7 +1733,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 #define TEST_ADD_IMM(src, srcw) \
 	((src) == SLJIT_IMM && (srcw) <= 0x7fff7fffl && (srcw) >= -0x80000000l)
 #define TEST_UI_IMM(src, srcw) \
-	((src) == SLJIT_IMM && !((srcw) & ~0xffffffff))
+	((src) == SLJIT_IMM && !((srcw) & ~(sljit_sw)0xffffffff))
 
 #define TEST_ADD_FORM1(op) \
 	(GET_FLAG_TYPE(op) == SLJIT_OVERFLOW \
-- 
2.43.0


From 0f24ede36acd1f75e045750874ed11c046eef69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 003/100] fix: arm add with carry with immediates replaced by
 subtract with carry

---
 sljit_src/sljitNativeARM_32.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index bd1432d..95010e4 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2234,7 +2234,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 				/* Note: additive operation (commutative). */
 				SLJIT_ASSERT(op == SLJIT_ADD || op == SLJIT_ADDC);
 
-				src2_reg = (sljit_s32)get_imm((sljit_uw)-src1w);
+				src2_reg = (sljit_s32)get_imm(neg_op == SLJIT_SUB ? (sljit_uw)-src1w : ~(sljit_uw)src1w);
 				if (src2_reg) {
 					src1 = src2;
 					src1w = src2w;
@@ -2305,7 +2305,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 			src2_reg = (sljit_s32)compute_imm((sljit_uw)src2w, &imm2);
 
 			if (src2_reg == 0 && neg_op != 0) {
-				src2_reg = (sljit_s32)compute_imm((sljit_uw)-src2w, &imm2);
+				src2_reg = (sljit_s32)compute_imm((neg_op == SLJIT_ADD || neg_op == SLJIT_SUB) ? (sljit_uw)-src2w : ~(sljit_uw)src2w, &imm2);
 				if (src2_reg != 0)
 					op = neg_op;
 			}
@@ -2332,7 +2332,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 		src1_reg = (sljit_s32)compute_imm((sljit_uw)src1w, &imm2);
 
 		if (src1_reg == 0 && neg_op != 0) {
-			src1_reg = (sljit_s32)compute_imm((sljit_uw)-src1w, &imm2);
+			src1_reg = (sljit_s32)compute_imm((neg_op == SLJIT_ADD || neg_op == SLJIT_SUB) ? (sljit_uw)-src1w : ~(sljit_uw)src1w, &imm2);
 			if (src1_reg != 0)
 				op = neg_op;
 		}
@@ -2347,6 +2347,8 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 
 			if (op == SLJIT_ADDC)
 				op = SLJIT_ADD;
+			else if (op == SLJIT_SUBC)
+				op = SLJIT_SUB;
 		}
 	}
 
-- 
2.43.0


From c0ea8d1645d44894e9d84d5854a0f500df6419c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 004/100] fix: carry flag of add operations when an operand is
 an immediate zero

---
 sljit_src/sljitNativeLOONGARCH_64.c | 8 ++++----
 sljit_src/sljitNativeMIPS_common.c  | 8 ++++----
 sljit_src/sljitNativeRISCV_common.c | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 1dcb555..b7bc278 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1477,9 +1477,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(EQUAL_FLAG) | RJ(src1) | RK(src2)));
 
 			if (is_overflow || carry_src_r != 0) {
-				if (src1 != dst)
+				if (src1 != dst && src1 != TMP_ZERO)
 					carry_src_r = (sljit_s32)src1;
-				else if (src2 != dst)
+				else if (src2 != dst && src2 != TMP_ZERO)
 					carry_src_r = (sljit_s32)src2;
 				else {
 					FAIL_IF(push_inst(compiler, INST(ADDI, op) | RD(OTHER_FLAG) | RJ(src1) | IMM_I12(0)));
@@ -1516,9 +1516,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			FAIL_IF(push_inst(compiler, ADDI_D | RD(dst) | RJ(src1) | IMM_I12(src2)));
 		} else {
 			if (carry_src_r != 0) {
-				if (src1 != dst)
+				if (src1 != dst && src1 != TMP_ZERO)
 					carry_src_r = (sljit_s32)src1;
-				else if (src2 != dst)
+				else if (src2 != dst && src2 != TMP_ZERO)
 					carry_src_r = (sljit_s32)src2;
 				else {
 					FAIL_IF(push_inst(compiler, ADDI_D | RD(EQUAL_FLAG) | RJ(src1) | IMM_I12(0)));
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index c05ae2d..02bef53 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1895,9 +1895,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(src1) | T(src2) | DA(EQUAL_FLAG), EQUAL_FLAG));
 
 			if (is_overflow || carry_src_ar != 0) {
-				if (src1 != dst)
+				if (src1 != dst && src1 != 0)
 					carry_src_ar = DR(src1);
-				else if (src2 != dst)
+				else if (src2 != dst && src2 != 0)
 					carry_src_ar = DR(src2);
 				else {
 					FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(src1) | TA(0) | DA(OTHER_FLAG), OTHER_FLAG));
@@ -1934,9 +1934,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			FAIL_IF(push_inst(compiler, SELECT_OP(DADDIU, ADDIU) | S(src1) | T(dst) | IMM(src2), DR(dst)));
 		} else {
 			if (carry_src_ar != 0) {
-				if (src1 != dst)
+				if (src1 != dst && src1 != 0)
 					carry_src_ar = DR(src1);
-				else if (src2 != dst)
+				else if (src2 != dst && src2 != 0)
 					carry_src_ar = DR(src2);
 				else {
 					FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(src1) | TA(0) | DA(EQUAL_FLAG), EQUAL_FLAG));
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 373e0a6..d8b5ca4 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2044,9 +2044,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				FAIL_IF(push_inst(compiler, ADD | WORD | RD(EQUAL_FLAG) | RS1(src1) | RS2(src2)));
 
 			if (is_overflow || carry_src_r != 0) {
-				if (src1 != dst)
+				if (src1 != dst && src1 != TMP_ZERO)
 					carry_src_r = (sljit_s32)src1;
-				else if (src2 != dst)
+				else if (src2 != dst && src2 != TMP_ZERO)
 					carry_src_r = (sljit_s32)src2;
 				else {
 					FAIL_IF(push_inst(compiler, ADDI | RD(OTHER_FLAG) | RS1(src1) | IMM_I(0)));
@@ -2091,9 +2091,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				FAIL_IF(push_inst(compiler, ADDI | WORD | RD(dst) | RS1(src1) | IMM_I(src2)));
 		} else {
 			if (carry_src_r != 0) {
-				if (src1 != dst)
+				if (src1 != dst && src1 != TMP_ZERO)
 					carry_src_r = (sljit_s32)src1;
-				else if (src2 != dst)
+				else if (src2 != dst && src2 != TMP_ZERO)
 					carry_src_r = (sljit_s32)src2;
 				else {
 					if (RISCV_HAS_COMPRESSED(200))
-- 
2.43.0


From 2e6e70e158b7ffb361724543a0684683968b9e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 005/100] fix: ppc carry flag after subtracting an immediate
 zero

---
 sljit_src/sljitNativePPC_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index f85bb33..c57d22e 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1891,7 +1891,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		if (TEST_SUB_FORM3(op))
 			return emit_op(compiler, SLJIT_SUB, flags | ALT_FORM3, dst, dstw, src1, src1w, src2, src2w);
 
-		if (TEST_SL_IMM(src2, -src2w)) {
+		/* Adding zero never sets the carry, but subtracting zero must set it (no borrow). */
+		if (TEST_SL_IMM(src2, -src2w) && (src2w != 0 || GET_FLAG_TYPE(op) != SLJIT_CARRY)) {
 			compiler->imm = (sljit_ins)(-src2w) & 0xffff;
 			return emit_op(compiler, SLJIT_ADD, flags | (!HAS_FLAGS(op) ? ALT_FORM2 : ALT_FORM3), dst, dstw, src1, src1w, TMP_REG2, 0);
 		}
-- 
2.43.0


From f23608664273fe8f138701a06dcd994c5717f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 006/100] fix: riscv sign / zero extending stores must not
 change the source register

---
 sljit_src/sljitNativeRISCV_common.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index d8b5ca4..a080987 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1916,11 +1916,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S8:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(24)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(24));
 		}
@@ -1928,11 +1928,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_U16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRLI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
@@ -1940,11 +1940,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
-- 
2.43.0


From c332ecf06b4d5e60fe041c0c3767c5de822a7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 007/100] fix: x86 shift into when the destination is the shift
 amount and the source is the shift register

---
 sljit_src/sljitNativeX86_common.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 9af085d..097172e 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2977,6 +2977,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		}
 
 		if (move_src1) {
+			if (src1_reg == SLJIT_PREF_SHIFT_REG) {
+				/* Already overwritten by the shift amount. */
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+				src1_reg = TMP_REG1;
+#else /* !SLJIT_CONFIG_X86_64 */
+				src1_reg = restore_ecx == 1 ? TMP_REG1 : SLJIT_MEM1(SLJIT_SP);
+#endif /* SLJIT_CONFIG_X86_64 */
+			}
+
 			EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 			src1_reg = dst_reg;
 			src1w = 0;
-- 
2.43.0


From 37f0c99b634009ca76224af2ec6a9b71418deebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 008/100] fix: s390x binary operations with memory source must
 not overwrite the address with an unused result

---
 sljit_src/sljitNativeS390X.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 0b0173c..400836a 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -1190,7 +1190,7 @@ static sljit_s32 emit_rx(struct sljit_compiler *compiler, sljit_ins ins,
 
 		if (dst == src1)
 			needs_move = 0;
-		else if (dst == (src2 & REG_MASK) || (dst == OFFS_REG(src2))) {
+		else if (dst == TMP_REG2 || dst == (src2 & REG_MASK) || (dst == OFFS_REG(src2))) {
 			dst_r = tmp0;
 			needs_move = 2;
 		}
-- 
2.43.0


From 49a7e379623425f80bdcd072e5dd57873ec2b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 009/100] fix: loongarch 32 bit multiply-add must produce a
 sign extended result

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index b7bc278..5c8c05e 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2092,7 +2092,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2r(struct sljit_compiler *compil
 	case SLJIT_MULADD:
 		SLJIT_SKIP_CHECKS(compiler);
 		FAIL_IF(sljit_emit_op2(compiler, SLJIT_MUL | (op & SLJIT_32), TMP_REG2, 0, src1, src1w, src2, src2w));
-		return push_inst(compiler, ADD_D | RD(dst_reg) | RJ(dst_reg) | RK(TMP_REG2));
+		return push_inst(compiler, INST(ADD, op) | RD(dst_reg) | RJ(dst_reg) | RK(TMP_REG2));
 	}
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 6874fc474d588680ad8248e2d821c762b30f64fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 010/100] fix: s390x add immediate to memory with a base
 register and index or large offset

---
 sljit_src/sljitNativeS390X.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 400836a..8b9ac91 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -1243,21 +1243,21 @@ static sljit_s32 emit_siy(struct sljit_compiler *compiler, sljit_ins ins,
 	SLJIT_ASSERT(dst & SLJIT_MEM);
 
 	if (dst & OFFS_REG_MASK) {
-		sljit_gpr index = tmp1;
+		sljit_gpr index = gpr(OFFS_REG(dst));
 
-		if ((dstw & 0x3) == 0)
-			index = gpr(OFFS_REG(dst));
-		else
+		if ((dstw & 0x3) != 0) {
 			FAIL_IF(push_inst(compiler, sllg(tmp1, index, dstw & 0x3, 0)));
+			index = tmp1;
+		}
 
-		FAIL_IF(push_inst(compiler, la(tmp1, 0, dst_r, index)));
+		FAIL_IF(push_inst(compiler, la(tmp1, 0, gpr(dst & REG_MASK), index)));
 		dstw = 0;
 	}
 	else if (!is_s20(dstw)) {
 		FAIL_IF(push_load_imm_inst(compiler, tmp1, dstw));
 
 		if (dst & REG_MASK)
-			FAIL_IF(push_inst(compiler, la(tmp1, 0, dst_r, tmp1)));
+			FAIL_IF(push_inst(compiler, la(tmp1, 0, gpr(dst & REG_MASK), tmp1)));
 
 		dstw = 0;
 	}
-- 
2.43.0


From c2827d73ad4ec17c6ce119388c9e641968503700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 011/100] fix: mips xor of two immediates when the first is -1

---
 sljit_src/sljitNativeMIPS_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 02bef53..0ad7085 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2645,7 +2645,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		return emit_op(compiler, op, flags | CUMULATIVE_OP, dst, dstw, src1, src1w, src2, src2w);
 
 	case SLJIT_XOR:
-		if ((src1 == SLJIT_IMM && src1w == -1) || (src2 == SLJIT_IMM && src2w == -1)) {
+		if ((src1 == SLJIT_IMM && src1w == -1 && src2 != SLJIT_IMM) || (src2 == SLJIT_IMM && src2w == -1)) {
 			return emit_op(compiler, op, flags | CUMULATIVE_OP | IMM_OP, dst, dstw, src1, src1w, src2, src2w);
 		}
 		/* fallthrough */
-- 
2.43.0


From b4b5fa0d17790ec3b8badc2ae7650f44cb3a8140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 012/100] fix: ppc64 carry flag of 32 bit add / sub operations
 which also set the zero flag

---
 sljit_src/sljitNativePPC_64.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index 2b07fcb..e73336b 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -226,7 +226,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				src2 = TMP_REG2;
 			}
 			/* Setting XER SO is not enough, CR SO is also needed. */
-			FAIL_IF(push_inst(compiler, ADD | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src1) | B(src2)));
+			FAIL_IF(push_inst(compiler, ADDC | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src1) | B(src2)));
 			if (flags & ALT_SIGN_EXT)
 				return push_inst(compiler, SRDI(32) | S(dst) | A(dst));
 			return SLJIT_SUCCESS;
@@ -311,10 +311,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			}
 
 			/* Setting XER SO is not enough, CR SO is also needed. */
-			if (src1 != TMP_ZERO)
-				FAIL_IF(push_inst(compiler, SUBF | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2) | B(src1)));
-			else
-				FAIL_IF(push_inst(compiler, NEG | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2)));
+			FAIL_IF(push_inst(compiler, SUBFC | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2) | B(src1)));
 
 			if (flags & ALT_SIGN_EXT)
 				return push_inst(compiler, SRDI(32) | S(dst) | A(dst));
-- 
2.43.0


From a0a9564ef5048092be91bfd37e6fb39dbf295cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 013/100] fix: riscv64 32 bit byte reverse must produce a sign
 extended result

---
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index a080987..a723ba8 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1834,7 +1834,7 @@ static sljit_s32 emit_rev(struct sljit_compiler *compiler, sljit_s32 op, sljit_s
 	FAIL_IF(push_inst(compiler, AND | RD(dst) | RS1(dst) | RS2(OTHER_FLAG)));
 	FAIL_IF(push_inst(compiler, AND | RD(TMP_REG1) | RS1(TMP_REG1) | RS2(OTHER_FLAG)));
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
-	FAIL_IF(push_inst(compiler, SLLI | (GET_OPCODE(op) == SLJIT_REV_S32 ? WORD_32 : 0) | RD(dst) | RS1(dst) | IMM_I(8)));
+	FAIL_IF(push_inst(compiler, SLLI | (GET_OPCODE(op) == SLJIT_REV_U32 ? 0 : WORD_32) | RD(dst) | RS1(dst) | IMM_I(8)));
 #else /* !SLJIT_CONFIG_RISCV_64 */
 	FAIL_IF(push_inst(compiler, SLLI | RD(dst) | RS1(dst) | IMM_I(8)));
 #endif /* SLJIT_CONFIG_RISCV_64 */
-- 
2.43.0


From 085d78f949bcb3e652d7d2e6bc0d8c63881dcf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 014/100] fix: ppc64 carry flag of 32 bit subtract from
 immediate

---
 sljit_src/sljitNativePPC_64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index e73336b..dab2995 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -319,8 +319,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		if (flags & ALT_FORM4) {
-			/* Flags does not set: BIN_IMM_EXTS unnecessary. */
+			/* The carry flag can be set. */
 			SLJIT_ASSERT(src2 == TMP_REG2);
+			BIN_IMM_EXTS();
 			return push_inst(compiler, SUBFIC | D(dst) | A(src1) | compiler->imm);
 		}
 
-- 
2.43.0


From d9746ae3414c2f1020b5985fb1f9072d920ebf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 015/100] fix: loongarch 32 bit add with carry must use 32 bit
 additions

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 5c8c05e..87adb4b 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1513,7 +1513,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
 
 		if (flags & SRC2_IMM) {
-			FAIL_IF(push_inst(compiler, ADDI_D | RD(dst) | RJ(src1) | IMM_I12(src2)));
+			FAIL_IF(push_inst(compiler, INST(ADDI, op) | RD(dst) | RJ(src1) | IMM_I12(src2)));
 		} else {
 			if (carry_src_r != 0) {
 				if (src1 != dst && src1 != TMP_ZERO)
@@ -1526,7 +1526,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				}
 			}
 
-			FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(src1) | RK(src2)));
+			FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(dst) | RJ(src1) | RK(src2)));
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
@@ -1537,7 +1537,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				FAIL_IF(push_inst(compiler, SLTU | RD(EQUAL_FLAG) | RJ(dst) | RK(carry_src_r)));
 		}
 
-		FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
+		FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
 
 		if (carry_src_r == 0)
 			return SLJIT_SUCCESS;
-- 
2.43.0


From 59c1ea03afa8dc6597343c1207fa711539be8252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 016/100] fix: loongarch 32 bit byte reverse must produce a
 sign extended result

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 87adb4b..9124781 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1429,7 +1429,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 	case SLJIT_REV:
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
-		return push_inst(compiler, ((op & SLJIT_32) ? REVB_2W : REVB_D) | RD(dst) | RJ(src2));
+		if (!(op & SLJIT_32))
+			return push_inst(compiler, REVB_D | RD(dst) | RJ(src2));
+
+		FAIL_IF(push_inst(compiler, REVB_2W | RD(dst) | RJ(src2)));
+		return push_inst(compiler, SLLI_W | RD(dst) | RJ(dst) | IMM_I12(0));
 
 	case SLJIT_REV_S16:
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
-- 
2.43.0


From 8bdd33c4598932cb191815433a04b7d3916efd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 017/100] fix: argument check must accept flags set by a
 rewritable operate-and-compare jump

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 14d1e95..cd41761 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2578,7 +2578,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_op2cmpz(struct sljit_comp
 	FUNCTION_CHECK_DST(dst, dstw);
 	FUNCTION_CHECK_SRC(src1, src1w);
 	FUNCTION_CHECK_SRC(src2, src2w);
-	compiler->last_flags = GET_FLAG_TYPE(op) | (op & SLJIT_32);
+	compiler->last_flags = GET_FLAG_TYPE(op & ~SLJIT_REWRITABLE_JUMP) | (op & SLJIT_32);
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
-- 
2.43.0


From 12ff0c4f8c8a1cd6f6cf9ae2eca506bf803d4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 018/100] fix: riscv / loongarch / mips 32 bit compare and
 select must sign extend memory sources

---
 sljit_src/sljitNativeLOONGARCH_64.c | 4 ++--
 sljit_src/sljitNativeMIPS_common.c  | 4 ++--
 sljit_src/sljitNativeRISCV_common.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 9124781..1cb10fd 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2878,7 +2878,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 	compiler->cache_arg = 0;
 	compiler->cache_argw = 0;
 
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 
 	if (src1 & SLJIT_MEM) {
 		PTR_FAIL_IF(emit_op_mem2(compiler, flags, TMP_REG1, src1, src1w, src2, src2w));
@@ -3115,7 +3115,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 {
 	sljit_ins *ptr;
 	sljit_uw size;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_select(compiler, type, dst_reg, src1, src1w, src2_reg));
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 0ad7085..ed31c1c 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3527,7 +3527,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_MIPS_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #endif /* SLJIT_CONFIG_MIPS_32 */
 
 	if (src1 & SLJIT_MEM) {
@@ -3847,7 +3847,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_s32 src2_reg)
 {
 #if (defined SLJIT_CONFIG_MIPS_64 && SLJIT_CONFIG_MIPS_64)
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 	sljit_ins mov_ins = (type & SLJIT_32) ? ADDU : DADDU;
 #else /* !SLJIT_CONFIG_MIPS_64 */
 	sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index a723ba8..fbd2674 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -3468,7 +3468,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_RISCV_32 && SLJIT_CONFIG_RISCV_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #endif /* SLJIT_CONFIG_RISCV_32 */
 
 	if (src1 & SLJIT_MEM) {
@@ -3742,7 +3742,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_ins ins;
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
 	sljit_ins word = (sljit_ins)(type & SLJIT_32) >> 5;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_64 */
         sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
 #endif /* SLJIT_CONFIG_RISCV_64 */
-- 
2.43.0


From 9ee9000cb2ec3f337125b92f66a4396ead257b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 019/100] fix: s390x select with memory source must not change
 the condition code

---
 sljit_src/sljitNativeS390X.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 8b9ac91..f28a252 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3904,14 +3904,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 				src_r = tmp1;
 			}
 
-			FAIL_IF(push_inst(compiler, 0xb9e80000 /* agrk */ | R12A(src_r) | R4A(tmp1) | R0A(gpr(src1 & REG_MASK))));
+			FAIL_IF(push_inst(compiler, 0xe30000000071 /* lay */ | R36A(tmp1) | R32A(src_r) | R28A(gpr(src1 & REG_MASK))));
 			src_r = tmp1;
 			src1w = 0;
 		} else if (!is_s20(src1w)) {
 			FAIL_IF(push_load_imm_inst(compiler, tmp1, src1w));
 
 			if (src1 & REG_MASK)
-				FAIL_IF(push_inst(compiler, 0xb9e80000 /* agrk */ | R12A(tmp1) | R4A(tmp1) | R0A(gpr(src1 & REG_MASK))));
+				FAIL_IF(push_inst(compiler, 0xe30000000071 /* lay */ | R36A(tmp1) | R32A(tmp1) | R28A(gpr(src1 & REG_MASK))));
 
 			src_r = tmp1;
 			src1w = 0;
-- 
2.43.0


From b63f67229fe0f2523c2e76227b3bf27bb5a7093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 020/100] fix: s390x op_flags must adjust the offset of local
 variables

---
 sljit_src/sljitNativeS390X.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index f28a252..0b41409 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3801,6 +3801,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op_flags(struct sljit_compiler *co
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_op_flags(compiler, op, dst, dstw, type));
+	ADJUST_LOCAL_OFFSET(dst, dstw);
 
 	switch (GET_OPCODE(op)) {
 	case SLJIT_AND:
-- 
2.43.0


From 5e83f54808ce62b87f36da929318c662cd467682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 021/100] fix: arm xor of two immediates when the first is -1

---
 sljit_src/sljitNativeARM_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 95010e4..6e79f3e 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2526,7 +2526,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 
 	case SLJIT_XOR:
 		inp_flags = ALLOW_IMM | ALLOW_DOUBLE_IMM;
-		if ((src1 == SLJIT_IMM && src1w == -1) || (src2 == SLJIT_IMM && src2w == -1)) {
+		if ((src1 == SLJIT_IMM && src1w == -1 && src2 != SLJIT_IMM) || (src2 == SLJIT_IMM && src2w == -1)) {
 			inp_flags |= ALLOW_INV_IMM;
 		}
 		return emit_op(compiler, op, inp_flags, dst, dstw, src1, src1w, src2, src2w);
-- 
2.43.0


From 588fdd023b5e739b9f60b308e2469dfe85618083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 022/100] fix: loongarch compare and jump must not overwrite
 the first memory operand

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 1cb10fd..d2c4ae5 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2886,7 +2886,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 	}
 
 	if (src2 & SLJIT_MEM) {
-		PTR_FAIL_IF(emit_op_mem2(compiler, flags, src2_tmp_reg, src2, src2w, 0, 0));
+		PTR_FAIL_IF(emit_op_mem2(compiler, flags | (src1 == TMP_REG1 ? MEM_USE_TMP2 : 0), src2_tmp_reg, src2, src2w, 0, 0));
 		src2 = src2_tmp_reg;
 	}
 
-- 
2.43.0


From 9933260b240b5fffdb909f5fa61068d4924201f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 023/100] fix: x86-32 unsigned byte move must not change the
 status flags

---
 sljit_src/sljitNativeX86_common.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 097172e..b9b8eb2 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -1590,13 +1590,6 @@ static sljit_s32 emit_mov_byte(struct sljit_compiler *compiler, sljit_s32 sign,
 			/* Both src and dst are registers. */
 			SLJIT_ASSERT(FAST_IS_REG(dst));
 
-			if (src == dst && !sign) {
-				inst = emit_x86_instruction(compiler, 1 | EX86_BIN_INS, SLJIT_IMM, 0xff, dst, 0);
-				FAIL_IF(!inst);
-				*(inst + 1) |= AND;
-				return SLJIT_SUCCESS;
-			}
-
 			EMIT_MOV(compiler, TMP_REG1, 0, src, 0);
 			src = TMP_REG1;
 			srcw = 0;
-- 
2.43.0


From f504013bbce61cb30a4b7716f2f627abc90bc9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 024/100] fix: s390x zero flag of subtract from an immediate
 zero

---
 sljit_src/sljitNativeS390X.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 0b41409..eb73560 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -2539,7 +2539,7 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 		return emit_rr(compiler, ins, src1, src1, src1w, src2, src2w);
 	}
 
-	if (src1 == SLJIT_IMM && src1w == 0 && (flag_type == 0 || sets_signed)) {
+	if (src1 == SLJIT_IMM && src1w == 0 && ((op & (SLJIT_SET_Z | VARIABLE_FLAG_MASK)) == 0 || sets_signed)) {
 		ins = (op & SLJIT_32) ? 0x1300 /* lcr */ : 0xb9030000 /* lcgr */;
 		FAIL_IF(emit_rr1(compiler, ins, dst, src2, src2w));
 		goto done;
-- 
2.43.0


From 0a866a451f653734bd1cf643a4f2a2536388c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 025/100] fix: s390x overflow and signed flags of 32 bit
 subtract with the smallest immediate

---
 sljit_src/sljitNativeS390X.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index eb73560..b3254bd 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -2578,7 +2578,7 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 				goto done;
 			}
 		}
-		else if ((op & SLJIT_32) || is_s32(neg_src2w)) {
+		else if ((op & SLJIT_32) ? ((sljit_u32)src2w != 0x80000000) : is_s32(neg_src2w)) {
 			ins = (op & SLJIT_32) ? 0xc20900000000 /* afi */ : 0xc20800000000 /* agfi */;
 			FAIL_IF(emit_ri(compiler, ins, dst, src1, src1w, neg_src2w, RIL_A));
 			goto done;
-- 
2.43.0


From 61385b5ee3b6f707ea0a884dad759f676ea28b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 026/100] fix: s390x zero flag restored for a subtract with
 unused result which sets carry or overflow

---
 sljit_src/sljitNativeS390X.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index b3254bd..522aa84 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -152,7 +152,8 @@ static sljit_s32 push_inst(struct sljit_compiler *compiler, sljit_ins ins)
 
 #define SLJIT_ADD_SUB_NO_COMPARE(status_flags_state) \
 	(((status_flags_state) & (SLJIT_CURRENT_FLAGS_ADD | SLJIT_CURRENT_FLAGS_SUB)) \
-		&& !((status_flags_state) & SLJIT_CURRENT_FLAGS_COMPARE))
+		&& (!((status_flags_state) & SLJIT_CURRENT_FLAGS_COMPARE) \
+			|| GET_FLAG_TYPE(status_flags_state) > SLJIT_SIG_LESS_EQUAL))
 
 /* Map the given type to a 4-bit condition code mask. */
 static SLJIT_INLINE sljit_u8 get_cc(struct sljit_compiler *compiler, sljit_s32 type) {
-- 
2.43.0


From 6b0586bee29ba5ec7e2afd14b48c14dcf3250a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 027/100] fix: s390x signed compare flags of subtract from
 memory with small immediates

---
 sljit_src/sljitNativeS390X.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 522aa84..b2f5f1e 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -2500,7 +2500,6 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 {
 	sljit_s32 flag_type = GET_FLAG_TYPE(op);
 	int sets_signed = (flag_type >= SLJIT_SIG_LESS && flag_type <= SLJIT_NOT_OVERFLOW);
-	int sets_zero_overflow = (op & (SLJIT_SET_Z | VARIABLE_FLAG_MASK)) == (SLJIT_SET_Z | SLJIT_SET_OVERFLOW);
 	const struct ins_forms *forms;
 	sljit_ins ins;
 
@@ -2550,7 +2549,8 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 		sljit_sw neg_src2w = -src2w;
 
 		if (sets_signed || neg_src2w != 0 || (op & (SLJIT_SET_Z | VARIABLE_FLAG_MASK)) == 0) {
-			if (!sets_zero_overflow && is_s8(neg_src2w) && (src1 & SLJIT_MEM) && (dst == src1 && dstw == src1w)) {
+			if ((!sets_signed || (op & (SLJIT_SET_Z | VARIABLE_FLAG_MASK)) == SLJIT_SET_OVERFLOW)
+					&& is_s8(neg_src2w) && (src1 & SLJIT_MEM) && (dst == src1 && dstw == src1w)) {
 				if (sets_signed)
 					ins = (op & SLJIT_32) ? 0xeb000000006a /* asi */ : 0xeb000000007a /* agsi */;
 				else
-- 
2.43.0


From 754c1caa5b1c6fe54ca7030587bf5b6ab1dc9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 028/100] fix: x86 add / sub / and / or / xor / mul when the
 address of the second operand uses the destination register

---
 sljit_src/sljitNativeX86_common.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index b9b8eb2..80ff171 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2102,7 +2102,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2175,7 +2175,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2304,7 +2304,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst != dst_r)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 8964670ba153adfa5e14ffbefce66c68252f819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 029/100] fix: x86-64 shift by a memory operand with a large
 offset

---
 sljit_src/sljitNativeX86_common.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 80ff171..f4e2c2b 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2608,14 +2608,18 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
+	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 #else /* !SLJIT_CONFIG_X86_32 */
+	/* Loading src2 may need TMP_REG2 for addressing. */
+	EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
 	mode32 = compiler->mode32;
 	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	inst = emit_x86_instruction(compiler, 1, SLJIT_PREF_SHIFT_REG, 0, TMP_REG2, 0);
+	FAIL_IF(!inst);
+	*inst = XCHG_r_rm;
 	compiler->mode32 = mode32;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
-- 
2.43.0


From f08490afe2fcd859c2e93423f11066893a1742f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 030/100] fix: x86 shift into when the address of the shift
 amount uses a register which is overwritten

---
 sljit_src/sljitNativeX86_common.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index f4e2c2b..82e8f3c 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2891,7 +2891,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 			src1_reg = TMP_REG1;
 			src1w = 0;
 		} else if ((src1_reg & SLJIT_MEM) || src1_reg == SLJIT_PREF_SHIFT_REG) {
-			restore_sp4 = (src3 == SLJIT_R0) ? SLJIT_R1 : SLJIT_R0;
+			restore_sp4 = SLJIT_R0;
+			if (src3 == SLJIT_R0 || ADDRESSING_DEPENDS_ON(src3, SLJIT_R0))
+				restore_sp4 = (src3 == SLJIT_R1 || ADDRESSING_DEPENDS_ON(src3, SLJIT_R1)) ? SLJIT_S0 : SLJIT_R1;
 			EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), sizeof(sljit_s32), restore_sp4, 0);
 			EMIT_MOV(compiler, restore_sp4, 0, src1_reg, src1w);
 			src1_reg = restore_sp4;
@@ -2920,7 +2922,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2934,7 +2936,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				src1_reg = TMP_REG1;
 				src1w = 0;
 			} else if ((src1_reg & SLJIT_MEM) || src1_reg == SLJIT_PREF_SHIFT_REG) {
-				restore_sp4 = (src3 == SLJIT_R0) ? SLJIT_R1 : SLJIT_R0;
+				restore_sp4 = SLJIT_R0;
+				if (src3 == SLJIT_R0 || ADDRESSING_DEPENDS_ON(src3, SLJIT_R0))
+					restore_sp4 = (src3 == SLJIT_R1 || ADDRESSING_DEPENDS_ON(src3, SLJIT_R1)) ? SLJIT_S0 : SLJIT_R1;
 				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), sizeof(sljit_s32), restore_sp4, 0);
 				EMIT_MOV(compiler, restore_sp4, 0, src1_reg, src1w);
 				src1_reg = restore_sp4;
@@ -2944,7 +2948,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
-- 
2.43.0


From 2a5422faee1be0fae2d3e23e711e408ff7c1223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 031/100] fix: arm64 local base stored into memory must not
 overwrite the value

---
 sljit_src/sljitNativeARM_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index c094fba..7e6a995 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -3571,7 +3571,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_get_local_base(struct sljit_compiler *c
 	}
 
 	if (SLJIT_UNLIKELY(dst & SLJIT_MEM))
-		return emit_op_mem(compiler, WORD_SIZE | STORE, dst_reg, dst, dstw, TMP_REG1);
+		return emit_op_mem(compiler, WORD_SIZE | STORE, dst_reg, dst, dstw, TMP_REG2);
 	return SLJIT_SUCCESS;
 }
 
-- 
2.43.0


From 825352d1c84779734e1d5577cd4524d7395676cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 032/100] fix: arm64 register pair load when the first register
 is the base of a large offset

---
 sljit_src/sljitNativeARM_64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 7e6a995..37fe633 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -2715,8 +2715,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			inst = SUBI;
 		} else if ((memw & 0x7) == 0 && memw <= 0x7ff0) {
 			if (!(type & SLJIT_MEM_STORE) && (mem & REG_MASK) == REG_PAIR_FIRST(reg)) {
-				FAIL_IF(push_inst(compiler, LDRI | RD(REG_PAIR_SECOND(reg)) | RN(mem & REG_MASK) | ((sljit_ins)memw << 7)));
-				return push_inst(compiler, LDRI | RD(REG_PAIR_FIRST(reg)) | RN(mem & REG_MASK) | ((sljit_ins)(memw + 0x8) << 7));
+				FAIL_IF(push_inst(compiler, LDRI | RD(REG_PAIR_SECOND(reg)) | RN(mem & REG_MASK) | ((sljit_ins)(memw + 0x8) << 7)));
+				return push_inst(compiler, LDRI | RD(REG_PAIR_FIRST(reg)) | RN(mem & REG_MASK) | ((sljit_ins)memw << 7));
 			}
 
 			inst = (type & SLJIT_MEM_STORE) ? STRI : LDRI;
-- 
2.43.0


From 0907f8e8b66dc4f1b07efdb8dbf72d31497a1bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 033/100] fix: s390x register pair load with index register in
 the pair

---
 sljit_src/sljitNativeS390X.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index b2f5f1e..e568842 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -4011,7 +4011,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			FAIL_IF(push_inst(compiler, 0xeb000000000d /* sllg */ | R36A(tmp1) | R32A(offs) | ((sljit_ins)memw << 16)));
 			offs = tmp1;
 		} else if (!(type & SLJIT_MEM_STORE) && (base == reg1 || base == reg2) && (offs == reg1 || offs == reg2)) {
-			FAIL_IF(push_inst(compiler, 0xb9f80000 | R12A(tmp1) | R4A(base) | R0A(offs)));
+			FAIL_IF(push_inst(compiler, 0xb9e80000 /* agrk */ | R4A(tmp1) | R12A(base) | R0A(offs)));
 			base = tmp1;
 			offs = 0;
 		}
@@ -4035,7 +4035,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 
 	ins = ((type & SLJIT_MEM_STORE) ? 0xe30000000024 /* stg */ : 0xe30000000004 /* lg */) | R32A(offs) | R28A(base);
 
-	if (!(type & SLJIT_MEM_STORE) && base == reg1) {
+	if (!(type & SLJIT_MEM_STORE) && (base == reg1 || offs == reg1)) {
 		FAIL_IF(push_inst(compiler, ins | R36A(reg2) | disp_s20((sljit_s32)memw + SSIZE_OF(sw))));
 		return push_inst(compiler, ins | R36A(reg1) | disp_s20((sljit_s32)memw));
 	}
-- 
2.43.0


From d7d516296bf0d1a9ce1464959b02bffbb510fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 034/100] fix: arm thumb2 unaligned float access with large
 offsets

---
 sljit_src/sljitNativeARM_T2_32.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 1d729cf..c603ec9 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -3595,21 +3595,21 @@ static sljit_s32 update_mem_addr(struct sljit_compiler *compiler, sljit_s32 *mem
 		if (argw < 0) {
 			imm = get_imm((sljit_uw)(-argw & ~0xff));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = -(-argw & 0xff);
 				return push_inst32(compiler, SUB_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
 		} else if ((argw & 0xfff) <= max_offset) {
 			imm = get_imm((sljit_uw)(argw & ~0xfff));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = argw & 0xfff;
 				return push_inst32(compiler, ADD_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
 		} else {
 			imm = get_imm((sljit_uw)((argw | 0xfff) + 1));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = (argw & 0xfff) - 0x1000;
 				return push_inst32(compiler, ADD_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
-- 
2.43.0


From 86054cd0f605de383d796a6cfce16cf64430bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 035/100] fix: mips load when the base register with a large
 offset or shifted index is the destination

---
 sljit_src/sljitNativeMIPS_common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index ed31c1c..160d252 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1516,15 +1516,17 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg_ar, arg, argw))
 		return compiler->error;
 
+	base = arg & REG_MASK;
+
 	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA)) {
-		tmp_ar = reg_ar;
+		/* The base register must not be overwritten before it is used. */
+		tmp_ar = (base != 0 && reg_ar == DR(base)) ? DR(TMP_REG1) : reg_ar;
 		delay_slot = reg_ar;
 	}
 	else {
 		tmp_ar = DR(TMP_REG1);
 		delay_slot = MOVABLE_INS;
 	}
-	base = arg & REG_MASK;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
 		argw &= 0x3;
-- 
2.43.0


From 7a7fec16d20405bb4c34acd7c307f094d2ffa2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 036/100] fix: mips unaligned float access must adjust the
 offset of local variables

---
 sljit_src/sljitNativeMIPS_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 160d252..532f26d 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -4220,6 +4220,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fmem(struct sljit_compiler *compil
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fmem(compiler, type, freg, mem, memw));
 
+	ADJUST_LOCAL_OFFSET(mem, memw);
 	FAIL_IF(update_mem_addr(compiler, &mem, &memw, SIMM_MAX - (type & SLJIT_32) ? 3 : 7));
 	SLJIT_ASSERT(FAST_IS_REG(mem) && mem != TMP_REG2);
 
-- 
2.43.0


From 8530c49629aac83e8d4c716edc376f98d826cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 037/100] fix: s390x register pair load must not change the
 status flags

---
 sljit_src/sljitNativeS390X.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index e568842..6c85ac8 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -4011,7 +4011,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			FAIL_IF(push_inst(compiler, 0xeb000000000d /* sllg */ | R36A(tmp1) | R32A(offs) | ((sljit_ins)memw << 16)));
 			offs = tmp1;
 		} else if (!(type & SLJIT_MEM_STORE) && (base == reg1 || base == reg2) && (offs == reg1 || offs == reg2)) {
-			FAIL_IF(push_inst(compiler, 0xb9e80000 /* agrk */ | R4A(tmp1) | R12A(base) | R0A(offs)));
+			FAIL_IF(push_inst(compiler, la(tmp1, 0, offs, base)));
 			base = tmp1;
 			offs = 0;
 		}
-- 
2.43.0


From 98a786701b4128bd55b6a288e02554af4c8bee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 038/100] fix: ppc-32: keep the low half of the float register
 in SLJIT_COPY_TO_F64 with a single register

STFD was issued with the offset of the low word, so the high word of the
register was stored there and the following word of the stack was destroyed.
---
 sljit_src/sljitNativePPC_32.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativePPC_32.c b/sljit_src/sljitNativePPC_32.c
index c07f4b4..670c797 100644
--- a/sljit_src/sljitNativePPC_32.c
+++ b/sljit_src/sljitNativePPC_32.c
@@ -452,13 +452,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fcopy(struct sljit_compiler *compi
 	}
 
 	if (op == SLJIT_COPY_TO_F64) {
-		FAIL_IF(push_inst(compiler, STW | S(reg) | A(SLJIT_SP) | TMP_MEM_OFFSET_HI));
-
 		if (reg2 != 0)
 			FAIL_IF(push_inst(compiler, STW | S(reg2) | A(SLJIT_SP) | TMP_MEM_OFFSET_LO));
 		else
-			FAIL_IF(push_inst(compiler, STFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET_LO));
+			FAIL_IF(push_inst(compiler, STFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET));
 
+		FAIL_IF(push_inst(compiler, STW | S(reg) | A(SLJIT_SP) | TMP_MEM_OFFSET_HI));
 		return push_inst(compiler, LFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET);
 	}
 
-- 
2.43.0


From b5a013e18bd850a9eff39e01cd02c3e57a088295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 039/100] fix: loongarch: SLJIT_CONV_F64_FROM_U32 is exact for
 values above 2^31

The halved value was converted with its lost low bit kept sticky, which is only
right when the result is rounded to less than 31 bits.
---
 sljit_src/sljitNativeLOONGARCH_64.c | 32 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index d2c4ae5..93b7de4 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2398,7 +2398,8 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 		inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_L : FFINT_D_L);
 		break;
 	case SLJIT_CONV_F64_FROM_U32:
-		inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_W : FFINT_D_W);
+		/* The zero extended value is converted. */
+		inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_L : FFINT_D_L);
 		break;
 	default:
 		inst = BREAK;
@@ -2416,21 +2417,24 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 		src = TMP_REG1;
 	}
 
-	if (!word_data)
-		FAIL_IF(push_inst(compiler, SRLI_W | RD(src) | RJ(src) | IMM_I12(0)));
-
-	FAIL_IF(push_inst(compiler, BLT | RJ(src) | RD(TMP_ZERO) | IMM_I16(4)));
+	if (!word_data) {
+		FAIL_IF(push_inst(compiler, BSTRPICK_D | RD(TMP_REG1) | RJ(src) | (31 << 16)));
+		FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(TMP_REG1)));
+		FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
+	} else {
+		FAIL_IF(push_inst(compiler, BLT | RJ(src) | RD(TMP_ZERO) | IMM_I16(4)));
 
-	FAIL_IF(push_inst(compiler, (word_data ? MOVGR2FR_D : MOVGR2FR_W) | FRD(dst_r) | RJ(src)));
-	FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
-	FAIL_IF(push_inst(compiler, B | IMM_I26(7)));
+		FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(src)));
+		FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
+		FAIL_IF(push_inst(compiler, B | IMM_I26(7)));
 
-	FAIL_IF(push_inst(compiler, ANDI | RD(TMP_REG2) | RJ(src) | IMM_I12(1)));
-	FAIL_IF(push_inst(compiler, (word_data ? SRLI_D : SRLI_W) | RD(TMP_REG1) | RJ(src) | IMM_I12(1)));
-	FAIL_IF(push_inst(compiler, OR | RD(TMP_REG1) | RJ(TMP_REG1) | RK(TMP_REG2)));
-	FAIL_IF(push_inst(compiler, INST(MOVGR2FR, (!word_data)) | FRD(dst_r) | RJ(TMP_REG1)));
-	FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
-	FAIL_IF(push_inst(compiler, FINST(FADD, op) | FRD(dst_r) | FRJ(dst_r) | FRK(dst_r)));
+		FAIL_IF(push_inst(compiler, ANDI | RD(TMP_REG2) | RJ(src) | IMM_I12(1)));
+		FAIL_IF(push_inst(compiler, SRLI_D | RD(TMP_REG1) | RJ(src) | IMM_I12(1)));
+		FAIL_IF(push_inst(compiler, OR | RD(TMP_REG1) | RJ(TMP_REG1) | RK(TMP_REG2)));
+		FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(TMP_REG1)));
+		FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
+		FAIL_IF(push_inst(compiler, FINST(FADD, op) | FRD(dst_r) | FRJ(dst_r) | FRK(dst_r)));
+	}
 
 	if (dst & SLJIT_MEM)
 		return emit_op_mem2(compiler, FLOAT_DATA(op), TMP_FREG1, dst, dstw, 0, 0);
-- 
2.43.0


From a2c403197a04e7068697ebe23b0fa241933695f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 040/100] fix: loongarch: normalize the flag registers before
 they are moved to a condition flag by fselect

---
 sljit_src/sljitNativeLOONGARCH_64.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 93b7de4..1290da4 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3179,13 +3179,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fselect(struct sljit_compiler *com
 	if ((type & ~SLJIT_32) == SLJIT_EQUAL || (type & ~SLJIT_32) == SLJIT_NOT_EQUAL) {
 		if ((type & ~SLJIT_32) == SLJIT_EQUAL)
 			invert = 1;
-		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(EQUAL_FLAG)));
+		/* Only the lowest bit is moved by MOVGR2CF. */
+		FAIL_IF(push_inst(compiler, SLTU | RD(TMP_REG1) | RJ(TMP_ZERO) | RK(EQUAL_FLAG)));
 	} else {
 		if (get_jump_instruction(type & ~SLJIT_32) == (BNE | RJ(OTHER_FLAG) | RD(TMP_ZERO)))
 			invert = 1;
-		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(OTHER_FLAG)));
+		FAIL_IF(push_inst(compiler, SLTU | RD(TMP_REG1) | RJ(TMP_ZERO) | RK(OTHER_FLAG)));
 	}
 
+	FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(TMP_REG1)));
+
 	if (src1 & SLJIT_MEM) {
 		FAIL_IF(emit_op_mem(compiler, FLOAT_DATA(type) | LOAD_DATA, TMP_FREG2, src1, src1w));
 		if (invert)
-- 
2.43.0


From a649c45e0498c341d80457473969fbbfed3ecd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 041/100] fix: ppc-64: word to single conversion must not round
 twice

---
 sljit_src/sljitNativePPC_64.c | 56 +++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index dab2995..69144aa 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -566,6 +566,18 @@ static SLJIT_INLINE sljit_s32 emit_const(struct sljit_compiler *compiler, sljit_
 	return push_inst(compiler, ORI | S(reg) | A(reg) | IMM(init_value));
 }
 
+/* Clears the lowest 11 bits of src, and sets the 12th bit if any of them was
+   set. The result (stored in TMP_REG1) can be exactly converted to double if
+   the absolute value of src is >= 2^53, and the conversion of this double to
+   single has the same result as a direct conversion of src to single. */
+static sljit_s32 emit_single_conv_fold_low_bits(struct sljit_compiler *compiler, sljit_s32 src)
+{
+	FAIL_IF(push_inst(compiler, CLRLDI(TMP_REG2, src, 53)));
+	FAIL_IF(push_inst(compiler, ADDI | D(TMP_REG2) | A(TMP_REG2) | 0x7ff));
+	FAIL_IF(push_inst(compiler, OR | S(src) | A(TMP_REG1) | B(TMP_REG2)));
+	return push_inst(compiler, RLDICR | S(TMP_REG1) | A(TMP_REG1) | RLDI_SH(0) | RLDI_ME(52));
+}
+
 static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_sw(struct sljit_compiler *compiler, sljit_s32 op,
 	sljit_s32 dst, sljit_sw dstw,
 	sljit_s32 src, sljit_sw srcw)
@@ -586,6 +598,22 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_sw(struct sljit_comp
 		src = TMP_REG1;
 	}
 
+	if (op == (SLJIT_CONV_F64_FROM_SW | SLJIT_32)) {
+		/* Avoid double rounding. */
+		if (FAST_IS_REG(src)) {
+			if (src != TMP_REG1)
+				FAIL_IF(push_inst(compiler, OR | S(src) | A(TMP_REG1) | B(src)));
+		} else
+			FAIL_IF(emit_op_mem(compiler, WORD_DATA | LOAD_DATA, TMP_REG1, src, srcw, TMP_REG1));
+		src = TMP_REG1;
+
+		FAIL_IF(push_inst(compiler, SRADI | S(TMP_REG1) | A(TMP_REG2) | RLDI_SH(53)));
+		FAIL_IF(push_inst(compiler, ADDI | D(TMP_REG2) | A(TMP_REG2) | 1));
+		FAIL_IF(push_inst(compiler, CMPLI | CRD(0 | 1) | A(TMP_REG2) | 1));
+		FAIL_IF(push_inst(compiler, BCx | (4 << 21) | (1 << 16) | 20));
+		FAIL_IF(emit_single_conv_fold_low_bits(compiler, TMP_REG1));
+	}
+
 	if (FAST_IS_REG(src)) {
 		FAIL_IF(push_inst(compiler, STD | S(src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
 		FAIL_IF(push_inst(compiler, LFD | FS(TMP_FREG1) | A(SLJIT_SP) | TMP_MEM_OFFSET));
@@ -632,25 +660,35 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 			src = TMP_REG1;
 		}
 
+		if ((op & SLJIT_32) && src != TMP_REG1) {
+			FAIL_IF(push_inst(compiler, OR | S(src) | A(TMP_REG1) | B(src)));
+			src = TMP_REG1;
+		}
+
 		FAIL_IF(push_inst(compiler, CMPI | CRD(0 | 1) | A(src) | 0));
-		FAIL_IF(push_inst(compiler, BCx | (12 << 21) | (0 << 16) | 20));
+		FAIL_IF(push_inst(compiler, BCx | (12 << 21) | (0 << 16) | ((op & SLJIT_32) ? 48 : 20)));
+
+		if (op & SLJIT_32) {
+			/* Avoid double rounding. */
+			FAIL_IF(push_inst(compiler, SRADI | S(TMP_REG1) | A(TMP_REG2) | RLDI_SH(53)));
+			FAIL_IF(push_inst(compiler, CMPLI | CRD(0 | 1) | A(TMP_REG2) | 0));
+			FAIL_IF(push_inst(compiler, BCx | (12 << 21) | (2 << 16) | 20));
+			FAIL_IF(emit_single_conv_fold_low_bits(compiler, TMP_REG1));
+		}
+
 		FAIL_IF(push_inst(compiler, STD | S(src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
 		FAIL_IF(push_inst(compiler, LFD | FS(TMP_FREG1) | A(SLJIT_SP) | TMP_MEM_OFFSET));
 		FAIL_IF(push_inst(compiler, FCFID | FD(dst_r) | FB(TMP_FREG1)));
-		FAIL_IF(push_inst(compiler, Bx | ((op & SLJIT_32) ? 36 : 32)));
+		FAIL_IF(push_inst(compiler, Bx | ((op & SLJIT_32) ? 48 : 32)));
 
-		if (op & SLJIT_32)
-			FAIL_IF(push_inst(compiler, RLWINM | S(src) | A(TMP_REG2) | RLWI_SH(10) | RLWI_MBE(10, 21)));
-		else
-			FAIL_IF(push_inst(compiler, ANDI | S(src) | A(TMP_REG2) | 0x1));
+		FAIL_IF(push_inst(compiler, ANDI | S(src) | A(TMP_REG2) | 0x1));
 
 		/* Shift right. */
 		FAIL_IF(push_inst(compiler, RLDICL | S(src) | A(TMP_REG1) | RLDI_SH(63) | RLDI_MB(1)));
+		FAIL_IF(push_inst(compiler, OR | S(TMP_REG1) | A(TMP_REG1) | B(TMP_REG2)));
 
 		if (op & SLJIT_32)
-			FAIL_IF(push_inst(compiler, RLDICR | S(TMP_REG1) | A(TMP_REG1) | RLDI_SH(0) | RLDI_ME(53)));
-
-		FAIL_IF(push_inst(compiler, OR | S(TMP_REG1) | A(TMP_REG1) | B(TMP_REG2)));
+			FAIL_IF(emit_single_conv_fold_low_bits(compiler, TMP_REG1));
 
 		FAIL_IF(push_inst(compiler, STD | S(TMP_REG1) | A(SLJIT_SP) | TMP_MEM_OFFSET));
 		FAIL_IF(push_inst(compiler, LFD | FS(TMP_FREG1) | A(SLJIT_SP) | TMP_MEM_OFFSET));
-- 
2.43.0


From 7a62f9ebcac5a8574dc6d77b9204dc4586691bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 042/100] fix: the argument check of sljit_set_context must
 accept functions returning a float

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index cd41761..cf74dd3 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1519,7 +1519,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_set_context(struct sljit_compi
 	CHECK_ARGUMENT(real_vsaveds >= 0 && real_vsaveds <= SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(real_vscratches + real_vsaveds <= SLJIT_NUMBER_OF_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(local_size >= 0 && local_size <= SLJIT_MAX_LOCAL_SIZE);
-	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) < SLJIT_ARG_TYPE_F64);
+	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) <= SLJIT_ARG_TYPE_F32);
 	CHECK_ARGUMENT(function_check_arguments(arg_types, real_scratches,
 		(options & SLJIT_ENTER_REG_ARG) ? 0 : real_saveds, real_fscratches));
 
-- 
2.43.0


From 901a5f090b8a1c932f70b6715553d009a040a4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 043/100] fix: loongarch has only eight callee saved floating
 point registers

---
 sljit_src/sljitConfigInternal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitConfigInternal.h b/sljit_src/sljitConfigInternal.h
index e5438e2..711524a 100644
--- a/sljit_src/sljitConfigInternal.h
+++ b/sljit_src/sljitConfigInternal.h
@@ -774,7 +774,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_sw sljit_exec_offset(void *code);
 #define SLJIT_NUMBER_OF_SAVED_REGISTERS 10
 #define SLJIT_NUMBER_OF_TEMPORARY_REGISTERS 5
 #define SLJIT_NUMBER_OF_FLOAT_REGISTERS 30
-#define SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS 12
+#define SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS 8
 #define SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS 2
 #define SLJIT_TMP_DEST_REG SLJIT_TMP_R1
 #define SLJIT_TMP_MEM_REG SLJIT_TMP_R1
-- 
2.43.0


From 509183269d1a37dcb4339452ff94f48682045f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 044/100] fix: ppc: calls which pass the entry address are not
 direct branches, so their size must not be reduced to one instruction

---
 sljit_src/sljitNativePPC_common.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index c57d22e..edda414 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -552,6 +552,19 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 		if (!(jump->flags & JUMP_MOV_ADDR)) {
 			total_size = JUMP_MAX_SIZE - 1;
 
+#if (defined SLJIT_PASS_ENTRY_ADDR_TO_CALL && SLJIT_PASS_ENTRY_ADDR_TO_CALL)
+			if (jump->flags & IS_CALL) {
+				/* The entry address is always loaded into TMP_CALL_REG. */
+#if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
+				if ((jump->flags & (SLJIT_REWRITABLE_JUMP | JUMP_ADDR)) == JUMP_ADDR) {
+					if (jump->u.target < 0x80000000l)
+						total_size = 4 - 1;
+					else if (jump->u.target < 0x800000000000l)
+						total_size = 6 - 1;
+				}
+#endif /* SLJIT_CONFIG_PPC_64 */
+			} else
+#endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 			if (!(jump->flags & SLJIT_REWRITABLE_JUMP)) {
 				if (jump->flags & JUMP_ADDR) {
 					if (jump->u.target <= 0x01ffffff)
-- 
2.43.0


From 13c9505d11ac576e782eb3ea9558e7941d27de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 045/100] fix: ppc-64: tail calls of register argument
 functions must not rearrange the arguments

---
 sljit_src/sljitNativePPC_common.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index edda414..68f3bf5 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2744,6 +2744,11 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 		src = TMP_CALL_REG;
 	}
 
+#if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
+	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
+		FAIL_IF(call_with_args(compiler, arg_types, &src));
+#endif
+
 	if (type & SLJIT_CALL_RETURN) {
 		if (src >= SLJIT_FIRST_SAVED_REG && src <= (SLJIT_S0 - SLJIT_KEPT_SAVEDS_COUNT(compiler->options))) {
 			FAIL_IF(push_inst(compiler, OR | S(src) | A(TMP_CALL_REG) | B(src)));
@@ -2754,11 +2759,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 		type = SLJIT_JUMP;
 	}
 
-#if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
-	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
-		FAIL_IF(call_with_args(compiler, arg_types, &src));
-#endif
-
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
-- 
2.43.0


From 3a568f95dc99bf084da7f7ff23d0d964e4b14401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 046/100] fix: ppc-64le: tail calls must pass the entry address
 of the called function

---
 sljit_src/sljitNativePPC_common.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 68f3bf5..3325233 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2662,6 +2662,9 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_jump(struct sljit_compile
 SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compiler *compiler, sljit_s32 type,
 	sljit_s32 arg_types)
 {
+#if (defined SLJIT_PASS_ENTRY_ADDR_TO_CALL && SLJIT_PASS_ENTRY_ADDR_TO_CALL)
+	struct sljit_jump *jump;
+#endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 	SLJIT_UNUSED_ARG(arg_types);
 
 	CHECK_ERROR_PTR();
@@ -2675,6 +2678,13 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 	if (type & SLJIT_CALL_RETURN) {
 		PTR_FAIL_IF(emit_stack_frame_release(compiler, 0));
 		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
+#if (defined SLJIT_PASS_ENTRY_ADDR_TO_CALL && SLJIT_PASS_ENTRY_ADDR_TO_CALL)
+		SLJIT_SKIP_CHECKS(compiler);
+		jump = sljit_emit_jump(compiler, type);
+		PTR_FAIL_IF(!jump);
+		jump->flags |= IS_CALL;
+		return jump;
+#endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 	}
 
 	SLJIT_SKIP_CHECKS(compiler);
@@ -2750,10 +2760,19 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 #endif
 
 	if (type & SLJIT_CALL_RETURN) {
+#if (defined SLJIT_PASS_ENTRY_ADDR_TO_CALL && SLJIT_PASS_ENTRY_ADDR_TO_CALL)
+		if (src == SLJIT_IMM)
+			FAIL_IF(load_immediate(compiler, TMP_CALL_REG, srcw));
+		else if (src != TMP_CALL_REG)
+			FAIL_IF(push_inst(compiler, OR | S(src) | A(TMP_CALL_REG) | B(src)));
+		src = TMP_CALL_REG;
+		srcw = 0;
+#else /* !SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 		if (src >= SLJIT_FIRST_SAVED_REG && src <= (SLJIT_S0 - SLJIT_KEPT_SAVEDS_COUNT(compiler->options))) {
 			FAIL_IF(push_inst(compiler, OR | S(src) | A(TMP_CALL_REG) | B(src)));
 			src = TMP_CALL_REG;
 		}
+#endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 
 		FAIL_IF(emit_stack_frame_release(compiler, 0));
 		type = SLJIT_JUMP;
-- 
2.43.0


From 761cbf937ecb0fecb6ea1f27a6a6d82e000e5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 047/100] fix: arm: the padding of the saved floating point
 registers depends on the number of kept saved registers

---
 sljit_src/sljitNativeARM_32.c    | 2 +-
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 6e79f3e..c56b247 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -1523,7 +1523,7 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 				FAIL_IF(push_inst(compiler, VPOP | VD(SLJIT_FS0) | ((sljit_ins)fsaveds << 1)));
 		}
 
-		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds, 1) & 0x7;
+		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds - SLJIT_KEPT_SAVEDS_COUNT(compiler->options), 1) & 0x7;
 	}
 
 	if (frame_size < 0) {
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index c603ec9..8038653 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -1714,7 +1714,7 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 				FAIL_IF(push_inst32(compiler, VPOP | VD4(SLJIT_FS0) | ((sljit_uw)fsaveds << 1)));
 		}
 
-		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds, 1) & 0x7;
+		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds - SLJIT_KEPT_SAVEDS_COUNT(compiler->options), 1) & 0x7;
 	}
 
 	if (frame_size < 0) {
-- 
2.43.0


From cef021d9ce7a4604bff562bba4e6fbc69c818712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 048/100] fix: arm: tail calls of register argument functions
 must not rearrange the floating point arguments

---
 sljit_src/sljitNativeARM_32.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index c56b247..aa9c1bb 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -3498,16 +3498,16 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 	}
 #endif /* __SOFTFP__ */
 
-	if (type & SLJIT_CALL_RETURN) {
-		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
-		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
-	}
-
 #ifndef __SOFTFP__
 	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
 		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
 #endif /* !__SOFTFP__ */
 
+	if (type & SLJIT_CALL_RETURN) {
+		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
+		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
+	}
+
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_jump(compiler, type);
 }
@@ -3604,16 +3604,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 	}
 #endif /* __SOFTFP__ */
 
-	if (type & SLJIT_CALL_RETURN) {
-		FAIL_IF(emit_stack_frame_release(compiler, -1));
-		type = SLJIT_JUMP;
-	}
-
 #ifndef __SOFTFP__
 	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
 		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
 #endif /* !__SOFTFP__ */
 
+	if (type & SLJIT_CALL_RETURN) {
+		FAIL_IF(emit_stack_frame_release(compiler, -1));
+		type = SLJIT_JUMP;
+	}
+
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
-- 
2.43.0


From 4a223e8cced3a711a3f84873181d71a5c58fe31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 049/100] fix: arm-t2: tail calls of register argument
 functions must not rearrange the floating point arguments

---
 sljit_src/sljitNativeARM_T2_32.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 8038653..daed4f9 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -3047,17 +3047,17 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 	}
 #endif /* __SOFTFP__ */
 
+#ifndef __SOFTFP__
+	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
+		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
+#endif /* !__SOFTFP__ */
+
 	if (type & SLJIT_CALL_RETURN) {
 		/* ldmia sp!, {..., lr} */
 		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
 		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
 	}
 
-#ifndef __SOFTFP__
-	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
-		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
-#endif /* !__SOFTFP__ */
-
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_jump(compiler, type);
 }
@@ -3143,17 +3143,17 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 	}
 #endif /* __SOFTFP__ */
 
+#ifndef __SOFTFP__
+	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
+		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
+#endif /* !__SOFTFP__ */
+
 	if (type & SLJIT_CALL_RETURN) {
 		/* ldmia sp!, {..., lr} */
 		FAIL_IF(emit_stack_frame_release(compiler, -1));
 		type = SLJIT_JUMP;
 	}
 
-#ifndef __SOFTFP__
-	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
-		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
-#endif /* !__SOFTFP__ */
-
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
-- 
2.43.0


From e10f0c86b961d12cbcba7f4827793dd4ede38a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 050/100] fix: arm-t2: a single precision argument moved to the
 next register must be placed to its first half

---
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index daed4f9..3051803 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -2990,7 +2990,7 @@ static sljit_s32 hardfloat_call_with_args(struct sljit_compiler *compiler, sljit
 				f32_offset = 0;
 			} else {
 				if (offset != new_offset)
-					FAIL_IF(push_inst32(compiler, VMOV_F32 | 0x400000 | VD4(new_offset) | VM4(offset)));
+					FAIL_IF(push_inst32(compiler, VMOV_F32 | VD4(new_offset) | VM4(offset)));
 				f32_offset = new_offset;
 				new_offset++;
 			}
-- 
2.43.0


From ed56039687226a5a53b06c85869d82ff63ed4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 051/100] fix: use jr for a tail call with register arguments
 on mips icall

---
 sljit_src/sljitNativeMIPS_32.c | 2 ++
 sljit_src/sljitNativeMIPS_64.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_32.c b/sljit_src/sljitNativeMIPS_32.c
index 8397961..02844e2 100644
--- a/sljit_src/sljitNativeMIPS_32.c
+++ b/sljit_src/sljitNativeMIPS_32.c
@@ -430,6 +430,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 
 			if (ins != NOP)
 				FAIL_IF(push_inst(compiler, ins, MOVABLE_INS));
+
+			type = SLJIT_JUMP;
 		}
 
 		SLJIT_SKIP_CHECKS(compiler);
diff --git a/sljit_src/sljitNativeMIPS_64.c b/sljit_src/sljitNativeMIPS_64.c
index 965931b..df913ff 100644
--- a/sljit_src/sljitNativeMIPS_64.c
+++ b/sljit_src/sljitNativeMIPS_64.c
@@ -355,6 +355,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 
 			if (ins != NOP)
 				FAIL_IF(push_inst(compiler, ins, MOVABLE_INS));
+
+			type = SLJIT_JUMP;
 		}
 
 		SLJIT_SKIP_CHECKS(compiler);
-- 
2.43.0


From c7c14960670f603b0dd1128e544be76bc1ee3dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 052/100] fix: store single precision arguments of x86-32 tail
 calls as single precision

---
 sljit_src/sljitNativeX86_32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index f5f5cc2..2bb5dc2 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -848,7 +848,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 				break;
 			case SLJIT_ARG_TYPE_F32:
 				offset -= SSIZE_OF(f32);
-				FAIL_IF(emit_sse2_store(compiler, 0, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
+				FAIL_IF(emit_sse2_store(compiler, 1, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
 				float_arg_count--;
 				break;
 			default:
@@ -957,7 +957,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 			break;
 		case SLJIT_ARG_TYPE_F32:
 			offset -= SSIZE_OF(f32);
-			FAIL_IF(emit_sse2_store(compiler, 0, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
+			FAIL_IF(emit_sse2_store(compiler, 1, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
 			float_arg_count--;
 			break;
 		default:
-- 
2.43.0


From a5404ae51b9c412e9e83a07852fb0e8431e22535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 053/100] fix: pass the third word argument of x86-32 tail
 calls which reuse the argument area

---
 sljit_src/sljitNativeX86_32.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index 2bb5dc2..92cb084 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -867,11 +867,12 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 					break;
 				case 3:
 					offset -= SSIZE_OF(sw);
+					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R2, 0);
 					break;
 				case 4:
 					offset -= SSIZE_OF(sw);
-					EMIT_MOV(compiler, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_SP), 2 * SSIZE_OF(sw));
-					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R2, 0);
+					EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_MEM1(SLJIT_SP), 2 * SSIZE_OF(sw));
+					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, TMP_REG1, 0);
 					break;
 				}
 				word_arg_count--;
-- 
2.43.0


From 0e1c7f8f1f69bd3b7fb6a5441a08e6c5e46129b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 054/100] fix: load the target of x86-32 tail calls before its
 base register is overwritten

---
 sljit_src/sljitNativeX86_32.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index 92cb084..51dafdd 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -908,13 +908,9 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 	else
 		stack_size = min_size;
 
-	if (word_arg_count >= 3) {
+	if (word_arg_count >= 3)
 		EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), r2_offset, SLJIT_R2, 0);
 
-		if (word_arg_count >= 4)
-			EMIT_MOV(compiler, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_SP), word_arg4_offset);
-	}
-
 	if (src != SLJIT_IMM && src != SLJIT_R0) {
 		if (word_arg_count >= 1) {
 			SLJIT_ASSERT(r2_offset == sizeof(sljit_sw));
@@ -923,6 +919,9 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 		EMIT_MOV(compiler, SLJIT_R0, 0, src, srcw);
 	}
 
+	if (word_arg_count >= 4)
+		EMIT_MOV(compiler, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_SP), word_arg4_offset);
+
 	/* Restore saved registers. */
 	offset = stack_size - 2 * SSIZE_OF(sw);
 	EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_MEM1(SLJIT_SP), offset);
-- 
2.43.0


From c5a2364e6610edbfac6e6ffd86bb054f06155d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 055/100] fix: keep the stack aligned at the call of x86-32
 tail calls

---
 sljit_src/sljitNativeX86_32.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index 51dafdd..0c6ccad 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -884,7 +884,10 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 		return emit_stack_frame_release(compiler, 0);
 	}
 
-	stack_size = args_size + SSIZE_OF(sw);
+	/* The stack must be aligned to 16 bytes at the call instruction. */
+	*extra_space = (sljit_s32)(((args_size + SSIZE_OF(sw) + 0xf) & ~0xf) - SSIZE_OF(sw));
+
+	stack_size = *extra_space + SSIZE_OF(sw);
 
 	if (word_arg_count >= 1 && src != SLJIT_IMM && src != SLJIT_R0) {
 		r2_offset = SSIZE_OF(sw);
@@ -940,8 +943,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 	}
 
 	/* Copy fourth argument and return address. */
-	offset = stack_size - SSIZE_OF(sw);
-	*extra_space = args_size;
+	offset = stack_size - SSIZE_OF(sw) - (*extra_space - args_size);
 
 	if (word_arg_count >= 4) {
 		offset -= SSIZE_OF(sw);
-- 
2.43.0


From b276fdf55882f2ff0af6144c42ff0fb694f2e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 056/100] fix: align the area of the saved registers on mips-32
 when the size of the locals is not a multiple of 8

---
 sljit_src/sljitNativeMIPS_common.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 532f26d..28b04b2 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -976,6 +976,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_enter(struct sljit_compiler *compi
 	scratches = ENTER_GET_REGS(scratches);
 	saveds = ENTER_GET_REGS(saveds);
 
+#if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
+	/* The area of the saved registers must be aligned without the locals. */
+	local_size = (local_size + SSIZE_OF(f64) - 1) & ~(SSIZE_OF(f64) - 1);
+#endif
 	local_size += GET_SAVED_REGISTERS_SIZE(scratches, saveds - saved_arg_count, 1);
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	if (fsaveds > 0 || fscratches >= SLJIT_FIRST_SAVED_FLOAT_REG) {
@@ -1187,6 +1191,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_set_context(struct sljit_compiler *comp
 	scratches = ENTER_GET_REGS(scratches);
 	saveds = ENTER_GET_REGS(saveds);
 
+#if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
+	/* The area of the saved registers must be aligned without the locals. */
+	local_size = (local_size + SSIZE_OF(f64) - 1) & ~(SSIZE_OF(f64) - 1);
+#endif
 	local_size += GET_SAVED_REGISTERS_SIZE(scratches, saveds - SLJIT_KEPT_SAVEDS_COUNT(options), 1);
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	if (fsaveds > 0 || fscratches >= SLJIT_FIRST_SAVED_FLOAT_REG) {
-- 
2.43.0


From d842f4bbe0c813e3efe841133a6cf8115c6df361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 057/100] fix: skip the header before reading the constant pool
 when deserializing on ARMv6

---
 sljit_src/sljitSerialize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 042cc18..493c2c1 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -379,6 +379,8 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->args_size = serialized_compiler->args_size;
 #endif /* SLJIT_CONFIG_X86_32 || (SLJIT_CONFIG_ARM_32 && __SOFTFP__) || SLJIT_CONFIG_MIPS_32 */
 
+	ptr += sizeof(struct sljit_serialized_compiler);
+
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
 	used_size = serialized_compiler->cpool_fill;
 	aligned_size = SLJIT_SERIALIZE_ALIGN(used_size * (sizeof(sljit_uw) + 1));
@@ -404,7 +406,6 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 		goto error;
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
-	ptr += sizeof(struct sljit_serialized_compiler);
 	i = serialized_compiler->buf_segment_count;
 	last_buf = NULL;
 	while (i > 0) {
-- 
2.43.0


From 9723f9051bdf9b3951a71eae76cbb76eb73987cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 058/100] fix: restore the float and vector register counts
 used by the checks when deserializing

---
 sljit_src/sljitSerialize.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 493c2c1..e510c86 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -97,6 +97,12 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 };
 
 struct sljit_serialized_label {
@@ -309,6 +315,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -574,6 +586,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From 387324606030d9a80cdd5ac2517164e735f122ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 059/100] fix: detect the float register mode on MIPS-32 before
 generating code in release builds

---
 sljit_src/sljitLir.c               | 5 +++--
 sljit_src/sljitNativeMIPS_common.c | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index cf74dd3..3bc3e27 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -476,12 +476,13 @@ struct sljit_extended_label {
 /*  Public functions                                                     */
 /* --------------------------------------------------------------------- */
 
-#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
+#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV) \
+		|| (defined SLJIT_CONFIG_MIPS && SLJIT_CONFIG_MIPS)
 #define SLJIT_NEEDS_COMPILER_INIT 1
 static sljit_s32 compiler_initialized = 0;
 /* A thread safe initialization. */
 static void init_compiler(void);
-#endif /* SLJIT_CONFIG_X86 || SLJIT_CONFIG_RISCV */
+#endif /* SLJIT_CONFIG_X86 || SLJIT_CONFIG_RISCV || SLJIT_CONFIG_MIPS */
 
 SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler* sljit_create_compiler(void *allocator_data)
 {
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 28b04b2..408fff5 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -473,6 +473,12 @@ static void get_cpu_features(void)
 	cpu_feature_list = feature_list;
 }
 
+static void init_compiler(void)
+{
+	/* The code generator uses the detected features as well. */
+	get_cpu_features();
+}
+
 /* dest_reg is the absolute name of the register
    Useful for reordering instructions in the delay slot. */
 static sljit_s32 push_inst(struct sljit_compiler *compiler, sljit_ins ins, sljit_s32 delay_slot)
-- 
2.43.0


From a51b359863a5f9522a6653d9711ba6db0ae68f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 060/100] fix: RISC-V: report the generated code size in units
 of the code buffer

---
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index fbd2674..0a5ac86 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1039,7 +1039,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 
 	compiler->error = SLJIT_ERR_COMPILED;
 	compiler->executable_offset = executable_offset;
-	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_ins);
+	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_u16);
 
 	code = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code, executable_offset);
 	code_ptr = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
-- 
2.43.0


From 76006cf6f3448bab780321736bf029ad0fc0061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 061/100] fix: do not query the executable offset of a failed
 executable allocation

---
 sljit_src/sljitLir.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 3bc3e27..186e28f 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -753,6 +753,9 @@ static SLJIT_INLINE void* allocate_executable_memory(sljit_uw size, sljit_s32 op
 
 	if (SLJIT_LIKELY(!(options & SLJIT_GENERATE_CODE_BUFFER))) {
 		code = SLJIT_MALLOC_EXEC(size, exec_allocator_data);
+		if (SLJIT_UNLIKELY(!code))
+			return NULL;
+
 		*executable_offset = SLJIT_EXEC_OFFSET(code);
 		return code;
 	}
-- 
2.43.0


From ead3612e846b71ee9671b949c6e9b6c4a8f0fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 062/100] fix: do not allocate zero bytes when a compiler
 without labels is deserialized

---
 sljit_src/sljitSerialize.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index e510c86..222679b 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -460,9 +460,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	if ((sljit_uw)(end - ptr) < i)
 		goto error;
 
-	label_list = (struct sljit_label **)SLJIT_MALLOC(label_count * sizeof(struct sljit_label*), allocator_data);
-	if (label_list == NULL)
-		goto error;
+	/* Zero sized allocations might return with NULL. */
+	if (label_count > 0) {
+		label_list = (struct sljit_label **)SLJIT_MALLOC(label_count * sizeof(struct sljit_label*), allocator_data);
+		if (label_list == NULL)
+			goto error;
+	}
 
 	label_list_ptr = label_list;
 	for (i = 0; i < label_count; i++) {
@@ -549,8 +552,10 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	}
 	compiler->last_jump = last_jump;
 
-	SLJIT_FREE(label_list, allocator_data);
-	label_list = NULL;
+	if (label_list != NULL) {
+		SLJIT_FREE(label_list, allocator_data);
+		label_list = NULL;
+	}
 
 	last_const = NULL;
 	i = serialized_compiler->const_count;
-- 
2.43.0


From aa4a21ae3932ab5e09f9983cda06f3012ff32bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:35 +0000
Subject: [PATCH 063/100] fix: ARM-V6: on a failed generation free only code
 which was allocated, at its executable address

---
 sljit_src/sljitNativeARM_32.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index aa9c1bb..f3bf384 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -932,7 +932,8 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 					cpool_skip_alignment--;
 				} else {
 					if (SLJIT_UNLIKELY(resolve_const_pool_index(compiler, &first_patch, cpool_current_index, cpool_start_address, buf_ptr))) {
-						SLJIT_FREE_EXEC(code, exec_allocator_data);
+						if (!(options & SLJIT_GENERATE_CODE_BUFFER))
+							SLJIT_FREE_EXEC(SLJIT_ADD_EXEC_OFFSET(code, executable_offset), exec_allocator_data);
 						compiler->error = SLJIT_ERR_ALLOC_FAILED;
 						return NULL;
 					}
@@ -1047,7 +1048,8 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		cpool_current_index = 0;
 		while (buf_ptr < buf_end) {
 			if (SLJIT_UNLIKELY(resolve_const_pool_index(compiler, &first_patch, cpool_current_index, cpool_start_address, buf_ptr))) {
-				SLJIT_FREE_EXEC(code, exec_allocator_data);
+				if (!(options & SLJIT_GENERATE_CODE_BUFFER))
+					SLJIT_FREE_EXEC(SLJIT_ADD_EXEC_OFFSET(code, executable_offset), exec_allocator_data);
 				compiler->error = SLJIT_ERR_ALLOC_FAILED;
 				return NULL;
 			}
-- 
2.43.0


From 2a06228514b69a2d0a93458fd9c4ee467ff4c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 064/100] fix: executable allocators: refuse sizes which
 overflow when the headers are added

---
 sljit_src/allocator_src/sljitExecAllocatorCore.c      | 5 +++++
 sljit_src/allocator_src/sljitWXExecAllocatorPosix.c   | 4 ++++
 sljit_src/allocator_src/sljitWXExecAllocatorWindows.c | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/sljit_src/allocator_src/sljitExecAllocatorCore.c b/sljit_src/allocator_src/sljitExecAllocatorCore.c
index 314483c..0691132 100644
--- a/sljit_src/allocator_src/sljitExecAllocatorCore.c
+++ b/sljit_src/allocator_src/sljitExecAllocatorCore.c
@@ -114,6 +114,7 @@ struct free_block {
 #define CHUNK_MASK		(~(CHUNK_SIZE - 1))
 #define ALIGN_SIZE(size)	(((size) + sizeof(struct block_header) + 7u) & ~(sljit_uw)7)
 #define CHUNK_EXTRA_SIZE	(sizeof(struct block_header) + CHUNK_HEADER_SIZE)
+#define MAX_ALLOC_SIZE		(~(sljit_uw)0 - 2 * CHUNK_SIZE)
 
 static struct free_block* sljit_free_blocks;
 static sljit_uw sljit_allocated_size;
@@ -161,6 +162,10 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 	sljit_sw executable_offset;
 #endif /* SLJIT_HAS_EXECUTABLE_OFFSET */
 
+	/* Prevents integer overflow when the size is aligned. */
+	if (SLJIT_UNLIKELY(size > MAX_ALLOC_SIZE))
+		return NULL;
+
 	if (size < (64 - sizeof(struct block_header)))
 		size = (64 - sizeof(struct block_header));
 	size = ALIGN_SIZE(size);
diff --git a/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c b/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
index 36d3014..b1defb2 100644
--- a/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
+++ b/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
@@ -91,6 +91,10 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 	prot |= PROT_MAX(PROT_READ | PROT_WRITE | PROT_EXEC);
 #endif
 
+	/* Prevents integer overflow when the header is added. */
+	if (SLJIT_UNLIKELY(size > ~(sljit_uw)0 - sizeof(sljit_uw)))
+		return NULL;
+
 	size += sizeof(sljit_uw);
 	ptr = (sljit_uw*)mmap(NULL, size, prot, MAP_PRIVATE | MAP_ANON, -1, 0);
 
diff --git a/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c b/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c
index a9553bd..d811c31 100644
--- a/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c
+++ b/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c
@@ -57,6 +57,10 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 {
 	sljit_uw *ptr;
 
+	/* Prevents integer overflow when the header is added. */
+	if (SLJIT_UNLIKELY(size > ~(sljit_uw)0 - sizeof(sljit_uw)))
+		return NULL;
+
 	size += sizeof(sljit_uw);
 	ptr = (sljit_uw*)VirtualAlloc(NULL, size,
 				MEM_COMMIT | MEM_RESERVE, PAGE_READWRITE);
-- 
2.43.0


From f7ec9f62008fc956bae6268b84a8a28965623a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 065/100] fix: regex: with REGEX_NEWLINE, ^ and $ apply to all
 alternatives

The new-line searches were only added to the first and last alternative.
---
 regex_src/regexJIT.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 3f95469..a258142 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -794,6 +794,12 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 		/* Begin intentionally kept as 1. */
 	}
 
+	/* All alternatives are preceded and followed by the new-line searches. */
+	if (compiler_common->flags & REGEX_NEWLINE) {
+		if (stack_push(stack, type_open_br, 0))
+			return REGEX_MEMORY_ERROR;
+	}
+
 	while (length > 0) {
 		switch (*regex_string) {
 		case '\\' :
@@ -914,6 +920,11 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 	if (depth != 0)
 		return REGEX_INVALID_REGEX;
 
+	if (compiler_common->flags & REGEX_NEWLINE) {
+		if (stack_push(stack, type_close_br, 0))
+			return REGEX_MEMORY_ERROR;
+	}
+
 	if ((compiler_common->flags & (REGEX_MATCH_END | REGEX_NEWLINE)) == (REGEX_MATCH_END | REGEX_NEWLINE)) {
 		/* Replace REGEX_MATCH_END flag to REGEX_FAKE_MATCH_END */
 		compiler_common->flags &= ~REGEX_MATCH_END;
-- 
2.43.0


From bd80f9aa2ad5335ec10c3ca629185a8019dcf8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 066/100] fix: regex: a ^...$ pattern does not match a prefix
 of the input

---
 regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index a258142..388af5b 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2180,6 +2180,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 			EMIT_CMP(jump, SLJIT_NOT_EQUAL, R_NEXT_HEAD, 0, SLJIT_IMM, 0);
 			sljit_set_label(jump, start_label);
 		}
+		else if (compiler_common.flags & REGEX_MATCH_END) {
+			/* The current match is not a match if there are more characters. */
+			EMIT_CMP(jump, SLJIT_NOT_EQUAL, SLJIT_MEM1(R_CURR_STATE), TERM_REL_OFFSET_OF(0, 1), SLJIT_IMM, -1);
+			sljit_set_label(jump, start_label);
+		}
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, fast_quit), SLJIT_IMM, 1);
 	}
 
-- 
2.43.0


From 27e87a14d4b20a94c6de7c7fdf097eee74ee5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 067/100] fix: regex: non-greedy patterns with an empty match
 can match until the end

---
 regex_src/regexJIT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 388af5b..77b27b1 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2267,7 +2267,7 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SLJIT_OFFSETOF(struct regex_match, index), SLJIT_IMM, !(compiler_common.flags & REGEX_FAKE_MATCH_BEGIN) ? 1 : 2);
 
-		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || empty_match_id == -1) {
+		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || (compiler_common.flags & REGEX_MATCH_END) || empty_match_id == -1) {
 			/* The else is a really rare event, so we still generate an empty function instead of a runtime pointer check. */
 			SLJIT_ASSERT(R_CURR_STATE == SLJIT_S0);
 			if (!(compiler_common.flags & REGEX_MATCH_BEGIN)) {
-- 
2.43.0


From 69232cd1fd1f7ac93894cfa9a4efe40ed83ca2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 068/100] fix: regex: clear the end state when a match is reset

---
 regex_src/regexJIT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 77b27b1..9e7bec2 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2421,6 +2421,8 @@ void regex_reset_match(struct regex_match *match)
 	match->best_end = 0;
 	match->fast_quit = 0;
 	match->fast_forward = 0;
+	/* The end state is not part of the list. */
+	match->current[1] = -1;
 
 	if (match->head != 0) {
 		/* Clear the current state. */
-- 
2.43.0


From cb14dda9ba7dc9762e919806aa03531f9d9f6240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 069/100] fix: regex: characters above 127 are matched

---
 regex_src/regexJIT.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 9e7bec2..f1e7d96 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -401,6 +401,13 @@ struct compiler_common {
 	struct sljit_jump **range_jump_list;
 };
 
+/* The value of a character as it is loaded during matching. */
+#ifdef REGEX_USE_8BIT_CHARS
+#define CHAR_VALUE(c)	((int)(sljit_u8)(c))
+#else
+#define CHAR_VALUE(c)	((int)(sljit_u16)(c))
+#endif
+
 static const regex_char_t* decode_number(const regex_char_t *regex_string, int length, int *result)
 {
 	int value = 0;
@@ -666,7 +673,7 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 {
 	struct stack* stack = &compiler_common->stack;
 	const regex_char_t *base_from = regex_string;
-	regex_char_t left_char, right_char, tmp_char;
+	int left_char, right_char, tmp_char;
 
 	length--;
 	regex_string++;
@@ -708,13 +715,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			break;
 
 		if (*regex_string != '\\')
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		else {
 			regex_string++;
 			length--;
 			if (length == 0)
 				return -2;
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		}
 		regex_string++;
 		length--;
@@ -725,13 +732,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			length--;
 
 			if (*regex_string != '\\')
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			else {
 				regex_string++;
 				length--;
 				if (length == 0)
 					return -2;
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			}
 			regex_string++;
 			length--;
@@ -807,7 +814,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 			regex_string++;
 			if (length == 0)
 				return REGEX_INVALID_REGEX;
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
@@ -907,7 +914,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				compiler_common->flags |= REGEX_MATCH_END;
 				break;
 			}
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
-- 
2.43.0


From ac6eae4cc7173d00b6f10e552ee106431e9d5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 070/100] fix: regex: a { which is an ordinary character is a
 term

---
 regex_src/regexJIT.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index f1e7d96..035a9b7 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -890,6 +890,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				SLJIT_ASSERT(tmp == -2);
 				if (stack_push(stack, type_char, '{'))
 					return REGEX_MEMORY_ERROR;
+				begin = 0;
 				compiler_common->dfa_size++;
 			}
 			break;
-- 
2.43.0


From 7430470240ace28d1769afb6d5527e243abd3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 071/100] fix: regex: memory errors during the expansion of
 iterations are reported

---
 regex_src/regexJIT.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 035a9b7..34f3a0a 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -486,9 +486,9 @@ static int iterate(struct stack *stack, int min, int max)
 		stack_clone(&it, stack);
 		/* and put an empty bracket expression instead of it. */
 		if (stack_push(stack, type_open_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		if (stack_push(stack, type_close_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		return len;
 	}
 
@@ -522,7 +522,7 @@ static int iterate(struct stack *stack, int min, int max)
 				if (stack_push_copy(stack, count, count))
 					return -1;
 				if (stack_push(stack, type_qestion_mark, 0))
-					return REGEX_MEMORY_ERROR;
+					return -1;
 				count++;
 				max--;
 			}
@@ -532,7 +532,7 @@ static int iterate(struct stack *stack, int min, int max)
 			max--;
 			count++;
 			if (stack_push(stack, type_qestion_mark, 0))
-				return REGEX_MEMORY_ERROR;
+				return -1;
 		}
 
 		while (max > 0) {
@@ -553,12 +553,12 @@ static int iterate(struct stack *stack, int min, int max)
 		}
 
 		if (stack_push(stack, type_plus_sign, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 	}
 
 	/* Close the opened bracket. */
 	if (stack_push(stack, type_close_br, 0))
-		return REGEX_MEMORY_ERROR;
+		return -1;
 
 	return len;
 }
-- 
2.43.0


From a2fd8079d32278e046d5a4e876292198a4a03099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:13 +0000
Subject: [PATCH 072/100] fix: regex: the begin of an empty match at the end of
 the input after a fast forward

---
 regex_src/regexJIT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 34f3a0a..142808d 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2479,6 +2479,9 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 			*end = (int)match->index - 1;
 		else
 			*end = (int)match->index - 2;
+		/* The states are not updated during fast forward: an empty match follows the last character. */
+		if (match->fast_forward)
+			return (int)match->index - 1;
 		return (int)match->current[no_states + 2];
 	}
 	else {
-- 
2.43.0


From 292aeb73135cb79ce16db4aca9b3e9a932fad93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 073/100] fix: regex: with REGEX_NEWLINE, the end of the input
 can end a longer match

---
 regex_src/regexJIT.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 142808d..3833215 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2458,7 +2458,7 @@ void regex_continue_match(struct regex_match *match, const regex_char_t *input_s
 int regex_get_result(struct regex_match *match, int *end, int *id)
 {
 	int flags = match->machine->flags;
-	sljit_sw no_states;
+	sljit_sw no_states, begin;
 
 	*end = (int)match->best_end;
 	*id = (int)match->best_id;
@@ -2467,22 +2467,24 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 
 	if (flags & REGEX_FAKE_MATCH_END) {
 		SLJIT_ASSERT(!(flags & (REGEX_MATCH_BEGIN | REGEX_MATCH_END)));
-		if (match->best_begin != -1)
-			return (int)match->best_begin;
-
 		no_states = match->machine->no_states;
 		if (match->current[no_states + 1] == -1)
-			return -1;
+			return (int)match->best_begin;
+
+		/* The end of the input may end a better match than the last new-line character.
+		   The states are not updated during fast forward: an empty match follows the last character. */
+		begin = match->fast_forward ? match->index - 1 : match->current[no_states + 2];
+		if (match->best_begin != -1 && (match->best_begin < begin
+				|| (match->best_begin == begin && (flags & REGEX_MATCH_NON_GREEDY))))
+			return (int)match->best_begin;
+
 		if (flags & REGEX_ID_CHECK)
 			*id = (int)match->current[no_states + 3];
 		if (!(flags & REGEX_FAKE_MATCH_BEGIN))
 			*end = (int)match->index - 1;
 		else
 			*end = (int)match->index - 2;
-		/* The states are not updated during fast forward: an empty match follows the last character. */
-		if (match->fast_forward)
-			return (int)match->index - 1;
-		return (int)match->current[no_states + 2];
+		return (int)begin;
 	}
 	else {
 		/* Check the status of the last code. */
-- 
2.43.0


From b5088f45a2464bd6d3b71d46719bb968f74737cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:34 +0000
Subject: [PATCH 074/100] fix: keep the source register of 256 bit vector
 extension on LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 1290da4..fd64fdd 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3612,7 +3612,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 		ins = 0;
 		if (reg_size == 5) {
 			ins = (sljit_ins)1 << 26;
-			FAIL_IF(push_inst(compiler, XVPERMI | FRD(src) | FRJ(src) | IMM_I8(16)));
+			FAIL_IF(push_inst(compiler, XVPERMI | FRD(vreg) | FRJ(src) | IMM_I8(16)));
+			src = vreg;
 		}
 
 		return push_inst(compiler, VFCVTL_D_S | ins | FRD(vreg) | FRJ(src));
@@ -3624,8 +3625,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 		ins |= (sljit_ins)1 << 26;
 
 	do {
-		if (reg_size == 5)
-			FAIL_IF(push_inst(compiler, XVPERMI | FRD(src) | FRJ(src) | IMM_I8(16)));
+		if (reg_size == 5) {
+			FAIL_IF(push_inst(compiler, XVPERMI | FRD(vreg) | FRJ(src) | IMM_I8(16)));
+			src = vreg;
+		}
 
 		FAIL_IF(push_inst(compiler, ins | ((sljit_ins)1 << (13 + elem_size)) | FRD(vreg) | FRJ(src)));
 		src = vreg;
-- 
2.43.0


From ba174ce1a953daf6ef9cf6d1692f840a902c6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:34 +0000
Subject: [PATCH 075/100] fix: report unsupported vector operations before
 emitting code on LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index fd64fdd..81ed91a 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3587,6 +3587,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 	if (reg_size == 5 && !(get_cpu_features(GET_HWCAP) & LOONGARCH_HWCAP_LASX))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if ((type & SLJIT_SIMD_FLOAT) && (elem_size != 2 || elem2_size != 3))
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
@@ -3606,9 +3609,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 	}
 
 	if (type & SLJIT_SIMD_FLOAT) {
-		if (elem_size != 2 || elem2_size != 3)
-			return SLJIT_ERR_UNSUPPORTED;
-
 		ins = 0;
 		if (reg_size == 5) {
 			ins = (sljit_ins)1 << 26;
@@ -3704,6 +3704,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 	if ((type & SLJIT_SIMD_FLOAT) && (elem_size < 2 || elem_size > 3))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (SLJIT_SIMD_GET_OPCODE(type) == SLJIT_SIMD_OP2_SHUFFLE && reg_size != 4)
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
@@ -3724,9 +3727,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 		ins = VXOR_V;
 		break;
 	case SLJIT_SIMD_OP2_SHUFFLE:
-		if (reg_size != 4)
-			return SLJIT_ERR_UNSUPPORTED;
-
 		return push_inst(compiler, VSHUF_B | FRD(dst_vreg) | FRJ(src1_vreg) | FRK(src1_vreg) | FRA(src2));
 	}
 
-- 
2.43.0


From 4e5234a56dbe5034b001163a65278cb19ab54723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:16 +0000
Subject: [PATCH 076/100] fix: report vector sign queries on RISC-V without
 emitting code

---
 sljit_src/sljitNativeRISCV_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 0a5ac86..f93c31d 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -4411,6 +4411,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	if (((type & SLJIT_SIMD_FLOAT) && elem_size < 2) || elem_size > 3)
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (type & SLJIT_SIMD_TEST)
+		return SLJIT_SUCCESS;
+
 	FAIL_IF(sljit_emit_vsetivli(compiler, type, 0));
 	FAIL_IF(push_inst(compiler, VMV_VI | VRD(TMP_VREG1) | (0x0 << 15)));
 	FAIL_IF(push_inst(compiler, VMSLE_VI | VRD(TMP_VREG1) | (0x1f << 15) | VRS2(vreg)));
-- 
2.43.0


From cc259629235347a2270d3a8b2abb2aa461a71f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:16 +0000
Subject: [PATCH 077/100] fix: keep the flags when extracting the sign bits of
 16 bit elements on x86

---
 sljit_src/sljitNativeX86_common.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 82e8f3c..50b2119 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4747,8 +4747,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	sljit_s32 elem_size = SLJIT_SIMD_GET_ELEM_SIZE(type);
 	sljit_s32 use_vex = (cpu_feature_list & CPU_FEATURE_AVX) && (compiler->options & SLJIT_ENTER_USE_VEX);
 	sljit_s32 dst_r;
+#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
+	sljit_s32 opcode3 = TMP_REG1;
+#else /* !SLJIT_CONFIG_X86_32 */
+	sljit_s32 opcode3 = SLJIT_S0;
+#endif /* SLJIT_CONFIG_X86_32 */
 	sljit_uw op;
-	sljit_u8 *inst;
+
+	SLJIT_ASSERT(reg_map[opcode3] == 3);
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_simd_sign(compiler, type, vreg, dst, dstw));
@@ -4775,6 +4781,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 				FAIL_IF(emit_vex_instruction(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2 | VEX_SSE2_OPV, TMP_FREG, vreg, vreg, 0));
 			else
 				FAIL_IF(emit_groupf(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2, TMP_FREG, vreg, 0));
+			/* Keeps only the upper half. A shift of the general register would modify the flags. */
+			if (use_vex)
+				FAIL_IF(emit_vex_instruction(compiler, PSRLDQ_x | EX86_PREF_66 | EX86_SSE2_OP2 | VEX_SSE2_OPV, opcode3, TMP_FREG, TMP_FREG, 0));
+			else
+				FAIL_IF(emit_groupf(compiler, PSRLDQ_x | EX86_PREF_66 | EX86_SSE2_OP2, opcode3, TMP_FREG, 0));
+			FAIL_IF(emit_byte(compiler, 8));
 			vreg = TMP_FREG;
 			break;
 		case 2:
@@ -4794,12 +4806,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 		compiler->mode32 = type & SLJIT_32;
 #endif /* SLJIT_CONFIG_X86_64 */
 
-		if (elem_size == 1) {
-			inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_IMM, 8, dst_r, 0);
-			FAIL_IF(!inst);
-			inst[1] |= SHR;
-		}
-
 		if (dst_r == TMP_REG1)
 			return emit_mov(compiler, dst, dstw, TMP_REG1, 0);
 
-- 
2.43.0


From 2271edab194d0a157a3754d51d553d489318450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 078/100] fix: do not truncate the 64 bit immediate of vector
 lanes on x86

---
 sljit_src/sljitNativeX86_common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 50b2119..29918aa 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4319,6 +4319,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	}
 
 	if (srcdst == SLJIT_IMM) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+		if (elem_size == 3)
+			compiler->mode32 = 0;
+#endif /* SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcdstw);
 		srcdst = TMP_REG1;
 		srcdstw = 0;
-- 
2.43.0


From a57c9105a0ff6cc5122f558542b38a316bf8501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 079/100] fix: load the whole unaligned operand of 256 bit
 vector operations on x86

---
 sljit_src/sljitNativeX86_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 29918aa..3ac9b34 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4922,7 +4922,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 
 	if ((src2 & SLJIT_MEM) && SLJIT_SIMD_GET_ELEM2_SIZE(type) < reg_size) {
 		mov_op = ((type & SLJIT_SIMD_FLOAT) ? (MOVUPS_x_xm | (elem_size == 3 ? EX86_PREF_66 : 0)) : (MOVDQU_x_xm | EX86_PREF_F3)) | EX86_SSE2;
-		if (use_vex)
+		if (reg_size == 5)
+			FAIL_IF(emit_vex_instruction(compiler, mov_op | VEX_256, TMP_FREG, 0, src2, src2w));
+		else if (use_vex)
 			FAIL_IF(emit_vex_instruction(compiler, mov_op, TMP_FREG, 0, src2, src2w));
 		else
 			FAIL_IF(emit_groupf(compiler, mov_op, TMP_FREG, src2, src2w));
-- 
2.43.0


From 4777789dc5ce551a06ddb4cd04d2af1cd5bef8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 080/100] fix: do not sign extend the 32 sign bits of 256 bit
 vectors on LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 81ed91a..6d19371 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3674,7 +3674,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 
 	if (reg_size == 5) {
 		FAIL_IF(push_inst(compiler, VPICKVE2GR_U | (sljit_ins)(0x38 << 10) | ins | RD(TMP_REG3) | FRJ(TMP_FREG1) | IMM_V(2)));
-		FAIL_IF(push_inst(compiler, SLLI_W | RD(TMP_REG3) | RJ(TMP_REG3) | IMM_I12(2 << (3 - elem_size))));
+		FAIL_IF(push_inst(compiler, ((type & SLJIT_32) ? SLLI_W : SLLI_D) | RD(TMP_REG3) | RJ(TMP_REG3) | IMM_I12(2 << (3 - elem_size))));
 		FAIL_IF(push_inst(compiler, OR | RD(dst_r) | RJ(dst_r) | RK(TMP_REG3)));
 	}
 
-- 
2.43.0


From 6aaf5677738a903709b3fcd357e98d5f674a93a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 081/100] fix: load only the 32 bit source of 32 bit select
 operations on ARM 64

---
 sljit_src/sljitNativeARM_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 37fe633..9a5c58b 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -2652,7 +2652,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 		FAIL_IF(load_immediate(compiler, TMP_REG2, src1w));
 		src1 = TMP_REG2;
 	} else if (src1 & SLJIT_MEM) {
-		FAIL_IF(emit_op_mem(compiler, WORD_SIZE, TMP_REG2, src1, src1w, TMP_REG2));
+		FAIL_IF(emit_op_mem(compiler, (type & SLJIT_32) ? INT_SIZE : WORD_SIZE, TMP_REG2, src1, src1w, TMP_REG2));
 		src1 = TMP_REG2;
 	}
 
-- 
2.43.0


From e719c628dbb72a60591d4e46a79c1ce8a9f1d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 082/100] fix: do not read beyond the source operand of vector
 extension on LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 6d19371..fb007c9 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3574,6 +3574,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 	sljit_s32 reg_size = SLJIT_SIMD_GET_REG_SIZE(type);
 	sljit_s32 elem_size = SLJIT_SIMD_GET_ELEM_SIZE(type);
 	sljit_s32 elem2_size = SLJIT_SIMD_GET_ELEM2_SIZE(type);
+	sljit_s32 src_size;
 	sljit_ins ins = 0;
 
 	CHECK_ERROR();
@@ -3594,17 +3595,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 		return SLJIT_SUCCESS;
 
 	if (src & SLJIT_MEM) {
-		ins = (type & SLJIT_SIMD_STORE) ? VST : VLD;
+		/* Only the elements which are extended are loaded. */
+		src_size = reg_size - (elem2_size - elem_size);
+		FAIL_IF(sljit_emit_simd_mem_offset(compiler, &src, srcw));
 
-		if (reg_size == 5)
-			ins = (type & SLJIT_SIMD_STORE) ? XVST : XVLD;
+		if (src_size == 4)
+			FAIL_IF(push_inst(compiler, VLD | FRD(vreg) | RJ(src) | IMM_I12(0)));
+		else
+			FAIL_IF(push_inst(compiler, VLDREPL | (sljit_ins)1 << (23 - src_size) | FRD(vreg) | RJ(src)));
 
-		if (FAST_IS_REG(src) && src >= 0 && (srcw >= I12_MIN && srcw <= I12_MAX))
-			FAIL_IF(push_inst(compiler, ins | FRD(vreg) | RJ(src) | IMM_I12(srcw)));
-		else {
-			FAIL_IF(sljit_emit_simd_mem_offset(compiler, &src, srcw));
-			FAIL_IF(push_inst(compiler, ins | FRD(vreg) | RJ(src) | IMM_I12(0)));
-		}
 		src = vreg;
 	}
 
-- 
2.43.0


From 165d68d8fca7281acb439928bb4bf5840ac3ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 083/100] fix: support the atomic store flags in select
 operations on MIPS

---
 sljit_src/sljitNativeMIPS_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 408fff5..1f0707c 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3819,6 +3819,7 @@ static sljit_ins get_select_cc(sljit_s32 type, sljit_s32 is_float)
 	case SLJIT_SIG_GREATER:
 	case SLJIT_OVERFLOW:
 	case SLJIT_CARRY:
+	case SLJIT_ATOMIC_STORED:
 		return (is_float ? MOVN_S : MOVN) | TA(OTHER_FLAG);
 	case SLJIT_GREATER_EQUAL:
 	case SLJIT_LESS_EQUAL:
@@ -3826,6 +3827,7 @@ static sljit_ins get_select_cc(sljit_s32 type, sljit_s32 is_float)
 	case SLJIT_SIG_LESS_EQUAL:
 	case SLJIT_NOT_OVERFLOW:
 	case SLJIT_NOT_CARRY:
+	case SLJIT_ATOMIC_NOT_STORED:
 		return (is_float ? MOVZ_S : MOVZ) | TA(OTHER_FLAG);
 	case SLJIT_F_EQUAL:
 	case SLJIT_F_LESS:
-- 
2.43.0


From 2450dc7afab13cbf51795c32506eb4030c6e039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 084/100] fix: keep the expected value of atomic store in R1
 when the address is in R0 on x86-32

---
 sljit_src/sljitNativeX86_common.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 3ac9b34..9278aad 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -5052,12 +5052,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 
 		if (src_reg == TMP_REG1) {
 			if (mem_reg == SLJIT_R0) {
-				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_R1, 0);
-				EMIT_MOV(compiler, SLJIT_R1, 0, SLJIT_R0, 0);
+				saved_reg = (temp_reg != SLJIT_R1) ? SLJIT_R1 : SLJIT_R2;
+
+				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, saved_reg, 0);
+				EMIT_MOV(compiler, saved_reg, 0, SLJIT_R0, 0);
 				EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
 
-				mem_reg = SLJIT_R1;
-				saved_reg = SLJIT_R1;
+				mem_reg = saved_reg;
 			} else {
 				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_R0, 0);
 				EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
@@ -5109,8 +5110,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 		return emit_mov(compiler, SLJIT_R0, 0, TMP_REG2, 0);
 #else /* !SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, SLJIT_R0, 0, (saved_reg == SLJIT_R0) ? SLJIT_MEM1(SLJIT_SP) : saved_reg, 0);
-		if (saved_reg == SLJIT_R1)
-			return emit_mov(compiler, SLJIT_R1, 0, SLJIT_MEM1(SLJIT_SP), 0);
+		if (saved_reg == SLJIT_R1 || saved_reg == SLJIT_R2)
+			return emit_mov(compiler, saved_reg, 0, SLJIT_MEM1(SLJIT_SP), 0);
 #endif /* SLJIT_CONFIG_X86_64 */
 	}
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 8962637a5514633b09f201e36142c9415f5dda25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:30 +0000
Subject: [PATCH 085/100] fix: correct the branch offsets of unsigned to float
 conversion on MIPS revision 1

---
 sljit_src/sljitNativeMIPS_common.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 1f0707c..9f6c36f 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3057,11 +3057,11 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 	}
 #endif /* SLJIT_CONFIG_MIPS_64 */
 
-#if (!defined SLJIT_MIPS_REV || SLJIT_MIPS_REV <= 1)
+#if !defined(SLJIT_MIPS_REV)
 	FAIL_IF(push_inst(compiler, BLTZ | S(src) | 5, UNMOVABLE_INS));
-#else /* SLJIT_MIPS_REV >= 1 */
+#else /* SLJIT_MIPS_REV */
 	FAIL_IF(push_inst(compiler, BLTZ | S(src) | 4, UNMOVABLE_INS));
-#endif  /* SLJIT_MIPS_REV < 1 */
+#endif /* !SLJIT_MIPS_REV */
 	FAIL_IF(push_inst(compiler, ANDI | S(src) | T(TMP_REG2) | IMM(1), DR(TMP_REG2)));
 
 	FAIL_IF(push_inst(compiler, MTC1 | flags | T(src) | FS(TMP_FREG1), MOVABLE_INS));
@@ -3071,11 +3071,11 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 
 	FAIL_IF(push_inst(compiler, CVT_S_S | flags | (4 << 21) | ((~(sljit_ins)op & SLJIT_32) >> 8) | FS(TMP_FREG1) | FD(dst_r), MOVABLE_INS));
 
-#if (!defined SLJIT_MIPS_REV || SLJIT_MIPS_REV <= 1)
+#if !defined(SLJIT_MIPS_REV)
 	FAIL_IF(push_inst(compiler, BEQ | 6, UNMOVABLE_INS));
-#else /* SLJIT_MIPS_REV >= 1 */
+#else /* SLJIT_MIPS_REV */
 	FAIL_IF(push_inst(compiler, BEQ | 5, UNMOVABLE_INS));
-#endif  /* SLJIT_MIPS_REV < 1 */
+#endif /* !SLJIT_MIPS_REV */
 
 #if (defined SLJIT_CONFIG_MIPS_64 && SLJIT_CONFIG_MIPS_64)
 	FAIL_IF(push_inst(compiler, DSRL | T(src) | D(TMP_REG1) | SH_IMM(1), DR(TMP_REG1)));
-- 
2.43.0


From 0787b3c0e180522da798c721701235b129e6c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 086/100] fix: keep the current flags in the argument check of
 atomic load, which does not modify flags

---
 sljit_src/sljitLir.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 186e28f..9cf3767 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1749,8 +1749,6 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_atomic_load(struct sljit_
 		/* Nothing allowed. */
 		CHECK_ARGUMENT(!(op & SLJIT_32));
 	}
-
-	compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
-- 
2.43.0


From 8e392403107bb46ab60a543a521eb3a22690c722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 087/100] fix: keep the current flags in the argument check
 when atomic store is only tested

---
 sljit_src/sljitLir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 9cf3767..603412a 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1804,7 +1804,8 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_atomic_store(struct sljit
 		CHECK_ARGUMENT(!(op & SLJIT_32));
 	}
 
-	compiler->last_flags = GET_FLAG_TYPE_MASK(op) | (op & SLJIT_32);
+	if (!(op & SLJIT_ATOMIC_TEST))
+		compiler->last_flags = GET_FLAG_TYPE_MASK(op) | (op & SLJIT_32);
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
-- 
2.43.0


From 9fbf15a3a47cfccce84006c5dabaf806e203750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 088/100] fix: accept SLJIT_SP in sljit_get_register_index

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 603412a..df069e9 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2031,7 +2031,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_get_register_index(sljit_s32 t
 	SLJIT_UNUSED_ARG(reg);
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	if (type == SLJIT_GP_REGISTER) {
-		CHECK_ARGUMENT((reg > 0 && reg <= SLJIT_NUMBER_OF_REGISTERS)
+		CHECK_ARGUMENT((reg > 0 && reg <= SLJIT_NUMBER_OF_REGISTERS) || reg == SLJIT_SP
 			|| (reg >= SLJIT_TMP_REGISTER_BASE && reg < (SLJIT_TMP_REGISTER_BASE + SLJIT_NUMBER_OF_TEMPORARY_REGISTERS)));
 	}
 #if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
-- 
2.43.0


From 13da8ec339629fa0082d20368c76ccdaa6d39eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:55 +0000
Subject: [PATCH 089/100] fix: return one for the supported vector features on
 LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index fb007c9..71933fc 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -836,10 +836,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_has_cpu_feature(sljit_s32 feature_type)
 #endif
 
 	case SLJIT_HAS_LASX:
-		return (LOONGARCH_HWCAP_LASX & get_cpu_features(GET_HWCAP));
+		return (LOONGARCH_HWCAP_LASX & get_cpu_features(GET_HWCAP)) != 0;
 
 	case SLJIT_HAS_SIMD:
-		return (LOONGARCH_HWCAP_LSX & get_cpu_features(GET_HWCAP));
+		return (LOONGARCH_HWCAP_LSX & get_cpu_features(GET_HWCAP)) != 0;
 
 	case SLJIT_HAS_CLZ:
 	case SLJIT_HAS_CTZ:
-- 
2.43.0


From c830e020c34fb4a46b0b9a4923795c87e97f1c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:55 +0000
Subject: [PATCH 090/100] fix: return zero from sljit_cmp_info for types
 outside of its range on RISC-V

---
 sljit_src/sljitNativeRISCV_common.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index f93c31d..cf928f9 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1087,10 +1087,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_cmp_info(sljit_s32 type)
 	case SLJIT_UNORDERED_OR_EQUAL:
 	case SLJIT_ORDERED_NOT_EQUAL:
 		return 2;
-
-	case SLJIT_UNORDERED:
-	case SLJIT_ORDERED:
-		return 1;
 	}
 
 	return 0;
-- 
2.43.0


From 9fc26218a0878c9385529bb9863cfc69ddd5ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:55 +0000
Subject: [PATCH 091/100] fix: do not connect unrelated features with atomic
 support on RISC-V

---
 sljit_src/sljitNativeRISCV_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index cf928f9..4e31035 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1065,10 +1065,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_has_cpu_feature(sljit_s32 feature_type)
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
 	case SLJIT_HAS_COPY_F64:
 #endif /* !SLJIT_CONFIG_RISCV_64 */
-	case SLJIT_HAS_ATOMIC:
-		return RISCV_HAS_ATOMIC(200) ? 1 : 0;
 	case SLJIT_HAS_MEMORY_BARRIER:
 		return 1;
+	case SLJIT_HAS_ATOMIC:
+		return RISCV_HAS_ATOMIC(200) ? 1 : 0;
 	case SLJIT_HAS_SIMD:
 		return RISCV_HAS_VECTOR(100) ? 1 : 0;
 	case SLJIT_HAS_CLZ:
-- 
2.43.0


From 625e1716cf28b060e94d509b32a83395feb5ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:54 +0000
Subject: [PATCH 092/100] fix: reject absolute addresses in
 sljit_emit_fmem_update, as in sljit_emit_mem_update

---
 sljit_src/sljitLir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index df069e9..de6d487 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2963,6 +2963,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fmem_update(struct sljit_
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT((type & 0xff) == SLJIT_MOV_F64);
 	CHECK_ARGUMENT((type & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_SUPP | SLJIT_MEM_POST)) == 0);
+	CHECK_ARGUMENT((mem & REG_MASK) != 0);
 	FUNCTION_CHECK_SRC_MEM(mem, memw);
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_FREG(freg, type & SLJIT_32));
 #endif /* SLJIT_ARGUMENT_CHECKS */
-- 
2.43.0


From b67bdeb0bc893d273341ccdeb585823c86e09bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 093/100] fix: check the register and the base of
 sljit_emit_mem_update and sljit_emit_fmem_update

---
 sljit_src/sljitLir.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index de6d487..624e608 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2878,7 +2878,9 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_mem_update(struct sljit_c
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT((type & 0xff) >= SLJIT_MOV && (type & 0xff) <= SLJIT_MOV_P);
 	CHECK_ARGUMENT((type & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_SUPP | SLJIT_MEM_POST)) == 0);
-	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != reg);
+	CHECK_ARGUMENT(!(type & SLJIT_32) || ((type & 0xff) >= SLJIT_MOV_U8 && (type & 0xff) <= SLJIT_MOV_S16));
+	CHECK_ARGUMENT(FUNCTION_CHECK_IS_REG(reg));
+	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != SLJIT_SP && (mem & REG_MASK) != reg);
 
 	FUNCTION_CHECK_SRC_MEM(mem, memw);
 #endif /* SLJIT_ARGUMENT_CHECKS */
@@ -2963,7 +2965,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fmem_update(struct sljit_
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT((type & 0xff) == SLJIT_MOV_F64);
 	CHECK_ARGUMENT((type & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_SUPP | SLJIT_MEM_POST)) == 0);
-	CHECK_ARGUMENT((mem & REG_MASK) != 0);
+	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != SLJIT_SP);
 	FUNCTION_CHECK_SRC_MEM(mem, memw);
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_FREG(freg, type & SLJIT_32));
 #endif /* SLJIT_ARGUMENT_CHECKS */
-- 
2.43.0


From f8befedc178fe2a57eafb77125208b9234e2ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 094/100] fix: compare the number of kept saved registers with
 the general saved registers only

---
 sljit_src/sljitLir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 624e608..8dcf45e 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1434,7 +1434,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_enter(struct sljit_compil
 	} else {
 		CHECK_ARGUMENT((options & ~SLJIT_ENTER_CPU_SPECIFIC_OPTIONS) == 0);
 	}
-	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= saveds);
+	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= real_saveds);
 	CHECK_ARGUMENT((scratches & ~0xffffff) == 0 && (saveds & ~0xffffff) == 0);
 	CHECK_ARGUMENT(real_scratches >= 0 && real_scratches <= SLJIT_NUMBER_OF_REGISTERS);
 	CHECK_ARGUMENT(real_saveds >= 0 && real_saveds <= SLJIT_NUMBER_OF_SAVED_REGISTERS);
@@ -1511,7 +1511,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_set_context(struct sljit_compi
 	} else {
 		CHECK_ARGUMENT((options & ~SLJIT_ENTER_CPU_SPECIFIC_OPTIONS) == 0);
 	}
-	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= saveds);
+	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= real_saveds);
 	CHECK_ARGUMENT((scratches & ~0xffffff) == 0 && (saveds & ~0xffffff) == 0);
 	CHECK_ARGUMENT(real_scratches >= 0 && real_scratches <= SLJIT_NUMBER_OF_REGISTERS);
 	CHECK_ARGUMENT(real_saveds >= 0 && real_saveds <= SLJIT_NUMBER_OF_SAVED_REGISTERS);
-- 
2.43.0


From b192fde4303c0a7c5f83df6aea76a904e40cdeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 095/100] fix: accept only float flag types for float
 comparison in the argument check

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 8dcf45e..521aac9 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2137,7 +2137,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1_cmp(struct sljit_com
 	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) == SLJIT_CMP_F64);
 	CHECK_ARGUMENT(!(op & SLJIT_SET_Z));
 	CHECK_ARGUMENT((op & VARIABLE_FLAG_MASK)
-		|| (GET_FLAG_TYPE(op) >= SLJIT_F_EQUAL && GET_FLAG_TYPE(op) <= SLJIT_ORDERED_LESS_EQUAL));
+		&& (GET_FLAG_TYPE(op) >= SLJIT_F_EQUAL && GET_FLAG_TYPE(op) <= SLJIT_ORDERED_LESS_EQUAL));
 	FUNCTION_FCHECK(src1, src1w, op & SLJIT_32);
 	FUNCTION_FCHECK(src2, src2w, op & SLJIT_32);
 #endif /* SLJIT_ARGUMENT_CHECKS */
-- 
2.43.0


From 74b07e69971855b27b04cf875b446859eb773628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 096/100] fix: correct the precedence in the second element
 size checks of simd operations

---
 sljit_src/sljitLir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 521aac9..b9800bf 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -3001,7 +3001,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_simd_mov(struct sljit_com
 	CHECK_ARGUMENT((type & SLJIT_SIMD_TYPE_MASK2(SLJIT_SIMD_STORE)) == 0);
 	CHECK_ARGUMENT(SLJIT_SIMD_CHECK_REG(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM_SIZE(type) <= SLJIT_SIMD_GET_REG_SIZE(type));
-	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= (srcdst & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0);
+	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= ((srcdst & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(vreg, type));
 	FUNCTION_VCHECK(srcdst, srcdstw, type);
 #endif /* SLJIT_ARGUMENT_CHECKS */
@@ -3254,7 +3254,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_simd_op2(struct sljit_com
 	CHECK_ARGUMENT(SLJIT_SIMD_CHECK_REG(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM_SIZE(type) <= SLJIT_SIMD_GET_REG_SIZE(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_OPCODE(type) != SLJIT_SIMD_OP2_SHUFFLE || (SLJIT_SIMD_GET_ELEM_SIZE(type) == 0 && !(type & SLJIT_SIMD_FLOAT)));
-	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= (src2 & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0);
+	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= ((src2 & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(dst_vreg, type));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(src1_vreg, type));
 	FUNCTION_VCHECK(src2, src2w, type);
-- 
2.43.0


From 553eb19d010d94b96a26f18f752a4af538691038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 097/100] fix: reject status flags in the argument check of
 sljit_emit_fop2r

---
 sljit_src/sljitLir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index b9800bf..038edb1 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2255,6 +2255,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop2r(struct sljit_compil
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) == SLJIT_COPYSIGN_F64);
+	CHECK_ARGUMENT(!(op & ALL_STATUS_FLAGS_MASK));
 	FUNCTION_FCHECK(src1, src1w, op & SLJIT_32);
 	FUNCTION_FCHECK(src2, src2w, op & SLJIT_32);
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_FREG(dst_freg, op & SLJIT_32));
-- 
2.43.0


From 75efd2ae3dd941b9e990a117c8c282de5abd5ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 098/100] fix: reject unknown option bits in the argument
 checks of float conversions

---
 sljit_src/sljitLir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 038edb1..a7efea9 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2168,6 +2168,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1_conv_sw_from_f64(str
 
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
+	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) >= SLJIT_CONV_SW_FROM_F64 && SLJIT_CHECK_OPCODE(op, 0) <= SLJIT_CONV_S32_FROM_F64);
 	CHECK_ARGUMENT(!(op & ALL_STATUS_FLAGS_MASK));
 	FUNCTION_FCHECK(src, srcw, op & SLJIT_32);
 	FUNCTION_CHECK_DST(dst, dstw);
@@ -2197,6 +2198,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1_conv_f64_from_w(stru
 
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
+	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) >= SLJIT_CONV_F64_FROM_SW && SLJIT_CHECK_OPCODE(op, 0) <= SLJIT_CONV_F64_FROM_U32);
 	CHECK_ARGUMENT(!(op & ALL_STATUS_FLAGS_MASK));
 	FUNCTION_CHECK_SRC(src, srcw);
 	FUNCTION_FCHECK(dst, dstw, op & SLJIT_32);
-- 
2.43.0


From c0374697b681efc66c5b39b8926a8e058ebf3f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:57 +0000
Subject: [PATCH 099/100] fix: reject immediate source arguments of bit
 counting and byte reversal in the argument check

---
 sljit_src/sljitLir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index a7efea9..983b3b9 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1711,6 +1711,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_op1(struct sljit_compiler
 
 	FUNCTION_CHECK_DST(dst, dstw);
 	FUNCTION_CHECK_SRC(src, srcw);
+	CHECK_ARGUMENT(GET_OPCODE(op) < SLJIT_CLZ || src != SLJIT_IMM);
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
-- 
2.43.0


From 2f4508a2eaa7defdf0741a07bbb66980ca0b31b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 100/100] fix: do not write past the end of the code when the
 last address loads are shortened on x86-64

---
 sljit_src/sljitNativeX86_64.c     |  3 +++
 sljit_src/sljitNativeX86_common.c | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_64.c b/sljit_src/sljitNativeX86_64.c
index 8737d68..f418da4 100644
--- a/sljit_src/sljitNativeX86_64.c
+++ b/sljit_src/sljitNativeX86_64.c
@@ -402,6 +402,9 @@ static sljit_u8* generate_mov_addr_code(struct sljit_jump *jump, sljit_u8 *code_
 	SLJIT_UNUSED_ARG(executable_offset);
 
 	SLJIT_ASSERT(((jump->flags >> JUMP_SIZE_SHIFT) & 0x1f) <= 10);
+	/* The opcode bytes are followed by an immediate, which is not copied. */
+	code_ptr += sizeof(sljit_uw);
+
 	if (jump->flags & JUMP_ADDR)
 		addr = jump->u.target;
 	else
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 9278aad..72b360a 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -5261,7 +5261,15 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_op_addr(struct sljit_comp
 	else
 		reg = (op != SLJIT_ADD_ABS_ADDR) ? dst : TMP_REG2;
 
-	PTR_FAIL_IF(emit_load_imm64(compiler, reg, 0));
+	/* Only the opcode bytes are stored: the form of the load is selected by
+	   generate_mov_addr_code, and the size reserved for it may be less than
+	   the size of its longest form, so that must not be copied. */
+	inst = (sljit_u8*)ensure_buf(compiler, 1 + 2);
+	PTR_FAIL_IF(!inst);
+	INC_SIZE(2);
+	inst[0] = REX_W | ((reg_map[reg] <= 7) ? 0 : REX_B);
+	inst[1] = U8(MOV_r_i32 | reg_lmap[reg]);
+	compiler->size += sizeof(sljit_sw);
 	jump->addr = compiler->size;
 
 	if (reg_map[reg] >= 8)
-- 
2.43.0

