From 39bc394539caa364d01a0fe26ff4c613bd58a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 01/44] fix: check the result of emit_x86_instruction before
 writing the opcode

When the allocation of a new code buffer fragment fails, the returned
NULL pointer was dereferenced.
---
 sljit_src/sljitNativeX86_32.c     | 1 +
 sljit_src/sljitNativeX86_common.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index f5f5cc2..d7d6cae 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -1180,6 +1180,7 @@ static SLJIT_INLINE sljit_s32 emit_fmov_before_return(struct sljit_compiler *com
 	}
 
 	inst = emit_x86_instruction(compiler, 1 | EX86_SSE2_OP1, 0, 0, src, srcw);
+	FAIL_IF(!inst);
 	*inst = (op & SLJIT_32) ? FLDS : FLDL;
 
 	return SLJIT_SUCCESS;
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 9a6a37e..86a6672 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -3301,6 +3301,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop1(struct sljit_compiler *compil
 		FAIL_IF(emit_groupf(compiler, PCMPEQD_x_xm | EX86_PREF_66 | EX86_SSE2, dst_r, dst_r, 0));
 
 		inst = emit_x86_instruction(compiler, 2 | EX86_PREF_66 | EX86_SSE2_OP2, 0, 0, dst_r, 0);
+		FAIL_IF(!inst);
 		inst[0] = GROUP_0F;
 		/* Same as PSRLD_x / PSRLQ_x */
 		inst[1] = (op & SLJIT_32) ? PSLLD_x_i8 : PSLLQ_x_i8;
-- 
2.43.0


From cb593fc859cde25ddbd4d92d9e985c6613d9802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 02/44] fix: return with the error of failed allocations on
 ARM-64

The function returned with SLJIT_SUCCESS after a failed allocation.
---
 sljit_src/sljitNativeARM_64.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 7a68792..72a91a3 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -1713,7 +1713,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 		src = TMP_REG2;
 	}
 
-	emit_op_imm(compiler, flags | op, dst_r, TMP_REG1, src);
+	FAIL_IF(emit_op_imm(compiler, flags | op, dst_r, TMP_REG1, src));
 
 	if (SLJIT_UNLIKELY(dst & SLJIT_MEM))
 		return emit_op_mem(compiler, mem_flags | STORE, dst_r, dst, dstw, TMP_REG2);
@@ -1765,7 +1765,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 	else
 		src2w = src2;
 
-	emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src1w, src2w);
+	FAIL_IF(emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src1w, src2w));
 
 	if (dst & SLJIT_MEM)
 		return emit_op_mem(compiler, mem_flags | STORE, dst_r, dst, dstw, TMP_REG2);
@@ -2044,7 +2044,7 @@ static sljit_s32 sljit_emit_fop1_conv_f64_from_w(struct sljit_compiler *compiler
 	sljit_s32 dst_r = FAST_IS_REG(dst) ? dst : TMP_FREG1;
 
 	if (src & SLJIT_MEM) {
-		emit_op_mem(compiler, (ins & W_OP) ? WORD_SIZE : INT_SIZE, TMP_REG1, src, srcw, TMP_REG1);
+		FAIL_IF(emit_op_mem(compiler, (ins & W_OP) ? WORD_SIZE : INT_SIZE, TMP_REG1, src, srcw, TMP_REG1));
 		src = TMP_REG1;
 	} else if (src == SLJIT_IMM) {
 		FAIL_IF(load_immediate(compiler, TMP_REG1, srcw));
@@ -2624,7 +2624,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op_flags(struct sljit_compiler *co
 	}
 
 	FAIL_IF(push_inst(compiler, CSINC | (cc << 12) | RD(TMP_REG2) | RN(TMP_ZERO) | RM(TMP_ZERO)));
-	emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src_r, TMP_REG2);
+	FAIL_IF(emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src_r, TMP_REG2));
 
 	if (dst & SLJIT_MEM)
 		return emit_op_mem(compiler, mem_flags | STORE, TMP_REG1, dst, dstw, TMP_REG2);
@@ -3372,7 +3372,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 			elem_size = 3;
 
 		FAIL_IF(sljit_emit_simd_mem_offset(compiler, &src2, src2w));
-		push_inst(compiler,  LD1 | (reg_size == 4 ? (1 << 30) : 0) | ((sljit_ins)elem_size << 10) | RN(src2) | VT(TMP_FREG1));
+		FAIL_IF(push_inst(compiler, LD1 | (reg_size == 4 ? (1 << 30) : 0) | ((sljit_ins)elem_size << 10) | RN(src2) | VT(TMP_FREG1)));
 		src2 = TMP_FREG1;
 	}
 
-- 
2.43.0


From 04cbc22407ee6d0e6ed0a83fcc89ec1170aa5c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 03/44] fix: return with the error of failed allocations on
 ARM-T2

The function returned with SLJIT_SUCCESS after a failed allocation.
---
 sljit_src/sljitNativeARM_T2_32.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index fde821d..0abca73 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -1360,7 +1360,7 @@ static SLJIT_INLINE sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit
 	if (argw > 0xfff) {
 		imm = get_imm((sljit_uw)(argw & ~0xfff));
 		if (imm != INVALID_IMM) {
-			push_inst32(compiler, ADD_WI | RD4(tmp_reg) | RN4(arg) | imm);
+			FAIL_IF(push_inst32(compiler, ADD_WI | RD4(tmp_reg) | RN4(arg) | imm));
 			arg = tmp_reg;
 			argw = argw & 0xfff;
 		}
@@ -1371,7 +1371,7 @@ static SLJIT_INLINE sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit
 		imm = get_imm(tmp);
 
 		if (imm != INVALID_IMM) {
-			push_inst32(compiler, SUB_WI | RD4(tmp_reg) | RN4(arg) | imm);
+			FAIL_IF(push_inst32(compiler, SUB_WI | RD4(tmp_reg) | RN4(arg) | imm));
 			arg = tmp_reg;
 			argw += (sljit_sw)tmp;
 
@@ -2064,7 +2064,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 		src = TMP_REG1;
 	}
 
-	emit_op_imm(compiler, op, dst_r, TMP_REG2, (sljit_uw)src);
+	FAIL_IF(emit_op_imm(compiler, op, dst_r, TMP_REG2, (sljit_uw)src));
 
 	if (SLJIT_UNLIKELY(dst & SLJIT_MEM))
 		return emit_op_mem(compiler, flags | STORE, dst_r, dst, dstw, TMP_REG1);
@@ -2094,7 +2094,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		flags |= ARG2_IMM;
 	else if (src2 & SLJIT_MEM) {
 		src2_tmp_reg = FAST_IS_REG(src1) ? TMP_REG1 : TMP_REG2;
-		emit_op_mem(compiler, WORD_SIZE, src2_tmp_reg, src2, src2w, TMP_REG1);
+		FAIL_IF(emit_op_mem(compiler, WORD_SIZE, src2_tmp_reg, src2, src2w, TMP_REG1));
 		src2w = src2_tmp_reg;
 	} else
 		src2w = src2;
@@ -2102,12 +2102,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 	if (src1 == SLJIT_IMM)
 		flags |= ARG1_IMM;
 	else if (src1 & SLJIT_MEM) {
-		emit_op_mem(compiler, WORD_SIZE, TMP_REG1, src1, src1w, TMP_REG1);
+		FAIL_IF(emit_op_mem(compiler, WORD_SIZE, TMP_REG1, src1, src1w, TMP_REG1));
 		src1w = TMP_REG1;
 	} else
 		src1w = src1;
 
-	emit_op_imm(compiler, flags | GET_OPCODE(op), dst_reg, (sljit_uw)src1w, (sljit_uw)src2w);
+	FAIL_IF(emit_op_imm(compiler, flags | GET_OPCODE(op), dst_reg, (sljit_uw)src1w, (sljit_uw)src2w));
 
 	if (!(dst & SLJIT_MEM))
 		return SLJIT_SUCCESS;
-- 
2.43.0


From b27aeb38be09d97e91ecc076b7aba9957ef916ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 04/44] fix: return with the error of failed allocations on
 RISC-V

The function returned with SLJIT_SUCCESS after a failed allocation.
---
 sljit_src/sljitNativeRISCV_64.c     | 2 +-
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_64.c b/sljit_src/sljitNativeRISCV_64.c
index 113d1f8..aed568b 100644
--- a/sljit_src/sljitNativeRISCV_64.c
+++ b/sljit_src/sljitNativeRISCV_64.c
@@ -101,7 +101,7 @@ static sljit_s32 load_immediate(struct sljit_compiler *compiler, sljit_s32 dst_r
 	}
 
 	if (high <= 0x7fffffffl && high >= S32_MIN) {
-		load_immediate(compiler, dst_r, high, tmp_r);
+		FAIL_IF(load_immediate(compiler, dst_r, high, tmp_r));
 
 		if (RISCV_HAS_COMPRESSED(200))
 			return push_inst16(compiler, C_SLLI | C_RD(dst_r) | C_IMM_I(shift));
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index f4ce41f..cb66f11 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2828,7 +2828,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		FAIL_IF(emit_op_mem(compiler, inp_flags, TMP_REG2, src3, src3w));
 		src3 = TMP_REG2;
 	} else if (dst_reg == src3) {
-		push_inst(compiler, ADDI | WORD | RD(TMP_REG2) | RS1(src3) | IMM_I(0));
+		FAIL_IF(push_inst(compiler, ADDI | WORD | RD(TMP_REG2) | RS1(src3) | IMM_I(0)));
 		src3 = TMP_REG2;
 	}
 
-- 
2.43.0


From c2f44b8635b66c72a94a37614b04ee9bc01658c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 05/44] fix: return with the error of failed allocations on
 s390x

The function returned with SLJIT_SUCCESS after a failed allocation.
---
 sljit_src/sljitNativeS390X.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index da5c4dd..2d027c0 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -4157,7 +4157,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_replicate(struct sljit_compil
 				| ((sljit_ins)srcw << 16) | ((sljit_ins)elem_size << 12));
 		}
 
-		push_load_imm_inst(compiler, tmp0, srcw);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, srcw));
 		reg = tmp0;
 	} else
 		reg = gpr(src);
@@ -4276,7 +4276,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 		if (ins != 0)
 			return push_inst(compiler, ins | F36(vreg) | ((sljit_ins)srcdstw << 16) | ((sljit_ins)lane_index << 12));
 
-		push_load_imm_inst(compiler, tmp0, srcdstw);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, srcdstw));
 		reg = tmp0;
 	} else
 		reg = gpr(srcdst);
@@ -4413,18 +4413,18 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 
 	switch (elem_size) {
 	case 0:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x4048505860687078);
-		push_load_imm_inst(compiler, tmp1, (sljit_sw)0x0008101820283038);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x4048505860687078));
+		FAIL_IF(push_load_imm_inst(compiler, tmp1, (sljit_sw)0x0008101820283038));
 		FAIL_IF(push_inst(compiler, 0xe70000000062 /* vlvgp */ | F36(TMP_FREG1) | R32A(tmp1) | R28A(tmp0)));
 		break;
 	case 1:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x0010203040506070);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x0010203040506070));
 		break;
 	case 2:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808000204060);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808000204060));
 		break;
 	default:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808080800040);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808080800040));
 		break;
 	}
 
-- 
2.43.0


From d37787dea9467b16ed988742d3916b08888ee010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 06/44] fix: return with the error of failed allocations on
 LoongArch

The function returned with SLJIT_SUCCESS after a failed allocation.
---
 sljit_src/sljitNativeLOONGARCH_64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 697863e..e9d44c9 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2147,7 +2147,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		FAIL_IF(emit_op_mem(compiler, inp_flags, TMP_REG2, src3, src3w));
 		src3 = TMP_REG2;
 	} else if (dst_reg == src3) {
-		push_inst(compiler, INST(ADDI, op) | RD(TMP_REG2) | RJ(src3) | IMM_I12(0));
+		FAIL_IF(push_inst(compiler, INST(ADDI, op) | RD(TMP_REG2) | RJ(src3) | IMM_I12(0)));
 		src3 = TMP_REG2;
 	}
 
@@ -3430,7 +3430,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 			ins |= (sljit_ins)lane_index << 18 | (sljit_ins)(1 << (23 - elem_size));
 			return push_inst(compiler, VSTELM | ins | FRD(vreg) | RJ(srcdst));
 		} else {
-			emit_op_mem(compiler, (elem_size == 3 ? WORD_DATA : (elem_size == 2 ? INT_DATA : (elem_size == 1 ? HALF_DATA : BYTE_DATA))) | LOAD_DATA, TMP_REG1, srcdst | SLJIT_MEM, 0);
+			FAIL_IF(emit_op_mem(compiler, (elem_size == 3 ? WORD_DATA : (elem_size == 2 ? INT_DATA : (elem_size == 1 ? HALF_DATA : BYTE_DATA))) | LOAD_DATA, TMP_REG1, srcdst | SLJIT_MEM, 0));
 			srcdst = TMP_REG1;
 			ins = (sljit_ins)(0x3f ^ (0x1f >> elem_size)) << 10;
 
-- 
2.43.0


From 9440263672480bc408468edf8f20ee3b7b90568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 07/44] fix: return with the error of failed allocations on PPC

The function returned with SLJIT_SUCCESS after a failed allocation.
---
 sljit_src/sljitNativePPC_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index e1d120e..773ba1d 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1083,7 +1083,7 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 	}
 
 	if (!is_return_to)
-		push_inst(compiler, MTLR | S(0));
+		FAIL_IF(push_inst(compiler, MTLR | S(0)));
 
 	if (local_size > 0)
 		return push_inst(compiler, ADDI | D(SLJIT_SP) | A(base) | IMM(local_size));
-- 
2.43.0


From a0e18eb6e985c359a6303e22f4b3ee7d92c250bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 08/44] fix: return with the error of failed allocations on
 MIPS

The function returned with SLJIT_SUCCESS after a failed allocation.
---
 sljit_src/sljitNativeMIPS_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 79e41de..7adf282 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1292,7 +1292,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_return_void(struct sljit_compiler
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_return_void(compiler));
 
-	emit_stack_frame_release(compiler, 0, &ins);
+	FAIL_IF(emit_stack_frame_release(compiler, 0, &ins));
 
 	FAIL_IF(push_inst(compiler, JR | SA(RETURN_ADDR_REG), UNMOVABLE_INS));
 	return push_inst(compiler, ins, UNMOVABLE_INS);
-- 
2.43.0


From 0d71cdb0470ab8203211606a9bd824e5c85b7671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 09/44] fix: support SLJIT_SIMD_TEST in sljit_emit_simd_sign on
 RISC-V

Instructions were emitted even if only the availability was tested
(the verbose mode does such tests, so the code was emitted twice).
---
 sljit_src/sljitNativeRISCV_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index cb66f11..5937aeb 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -4409,6 +4409,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	if (((type & SLJIT_SIMD_FLOAT) && elem_size < 2) || elem_size > 3)
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (type & SLJIT_SIMD_TEST)
+		return SLJIT_SUCCESS;
+
 	FAIL_IF(sljit_emit_vsetivli(compiler, type, 0));
 	FAIL_IF(push_inst(compiler, VMV_VI | VRD(TMP_VREG1) | (0x0 << 15)));
 	FAIL_IF(push_inst(compiler, VMSLE_VI | VRD(TMP_VREG1) | (0x1f << 15) | VRS2(vreg)));
-- 
2.43.0


From 5e4feee0c72ddf84641cad4c1cb255953e6938be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 10/44] fix: reset the address cache in sljit_emit_fop2r on
 LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index e9d44c9..57f6dee 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2610,6 +2610,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop2r(struct sljit_compiler *compi
 	ADJUST_LOCAL_OFFSET(src1, src1w);
 	ADJUST_LOCAL_OFFSET(src2, src2w);
 
+	compiler->cache_arg = 0;
+	compiler->cache_argw = 0;
+
 	if (src2 & SLJIT_MEM) {
 		FAIL_IF(emit_op_mem2(compiler, FLOAT_DATA(op) | LOAD_DATA, TMP_FREG1, src2, src2w, 0, 0));
 		src2 = TMP_FREG1;
-- 
2.43.0


From 79850ad9e09540a9ef2ddb2e70b450caa26fbdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 11/44] fix: adjust the local offset of sljit_emit_fop2r
 operands only once

---
 sljit_src/sljitLir.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 14d1e95..b823a2d 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -3521,8 +3521,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop2r(struct sljit_compiler *compi
 {
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fop2r(compiler, op, dst_freg, src1, src1w, src2, src2w));
-	ADJUST_LOCAL_OFFSET(src1, src1w);
-	ADJUST_LOCAL_OFFSET(src2, src2w);
 
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_fop2(compiler, op, dst_freg, 0, src1, src1w, src2, src2w);
-- 
2.43.0


From c6c51dc1ff7ae79ba9a980d6045d1730180beda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 12/44] fix: adjust the local offset of dst in
 sljit_emit_op_flags on s390x

---
 sljit_src/sljitNativeS390X.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 2d027c0..7de01c5 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3799,6 +3799,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op_flags(struct sljit_compiler *co
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_op_flags(compiler, op, dst, dstw, type));
+	ADJUST_LOCAL_OFFSET(dst, dstw);
 
 	switch (GET_OPCODE(op)) {
 	case SLJIT_AND:
-- 
2.43.0


From 386e78163eacdcafa314c8557855024cd4086d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 13/44] fix: adjust the local offset of the operand in
 sljit_emit_fmem on MIPS

---
 sljit_src/sljitNativeMIPS_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 7adf282..cafa4b9 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -4215,6 +4215,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fmem(struct sljit_compiler *compil
 {
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fmem(compiler, type, freg, mem, memw));
+	ADJUST_LOCAL_OFFSET(mem, memw);
 
 	FAIL_IF(update_mem_addr(compiler, &mem, &memw, SIMM_MAX - (type & SLJIT_32) ? 3 : 7));
 	SLJIT_ASSERT(FAST_IS_REG(mem) && mem != TMP_REG2);
-- 
2.43.0


From 9cc88e934b1b7667282d698d077b0dbf04989f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 14/44] fix: SLJIT_ATOMIC_TEST does not change the flags known
 by the argument checks

---
 sljit_src/sljitLir.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index b823a2d..6521929 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1746,7 +1746,8 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_atomic_load(struct sljit_
 		CHECK_ARGUMENT(!(op & SLJIT_32));
 	}
 
-	compiler->last_flags = 0;
+	if (!(op & SLJIT_ATOMIC_TEST))
+		compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -1802,7 +1803,8 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_atomic_store(struct sljit
 		CHECK_ARGUMENT(!(op & SLJIT_32));
 	}
 
-	compiler->last_flags = GET_FLAG_TYPE_MASK(op) | (op & SLJIT_32);
+	if (!(op & SLJIT_ATOMIC_TEST))
+		compiler->last_flags = GET_FLAG_TYPE_MASK(op) | (op & SLJIT_32);
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
-- 
2.43.0


From 7153b663ae7a3a7fdc7488adedcbfc528edea9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 15/44] fix: SLJIT_SIMD_TEST reports unsupported forms of
 simd_extend and simd_op2 on LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 57f6dee..f66d786 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3577,6 +3577,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 	if (reg_size == 5 && !(get_cpu_features(GET_HWCAP) & LOONGARCH_HWCAP_LASX))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if ((type & SLJIT_SIMD_FLOAT) && (elem_size != 2 || elem2_size != 3))
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
@@ -3596,9 +3599,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 	}
 
 	if (type & SLJIT_SIMD_FLOAT) {
-		if (elem_size != 2 || elem2_size != 3)
-			return SLJIT_ERR_UNSUPPORTED;
-
 		ins = 0;
 		if (reg_size == 5) {
 			ins = (sljit_ins)1 << 26;
@@ -3691,6 +3691,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 	if ((type & SLJIT_SIMD_FLOAT) && (elem_size < 2 || elem_size > 3))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (SLJIT_SIMD_GET_OPCODE(type) == SLJIT_SIMD_OP2_SHUFFLE && reg_size != 4)
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
@@ -3711,9 +3714,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 		ins = VXOR_V;
 		break;
 	case SLJIT_SIMD_OP2_SHUFFLE:
-		if (reg_size != 4)
-			return SLJIT_ERR_UNSUPPORTED;
-
 		return push_inst(compiler, VSHUF_B | FRD(dst_vreg) | FRJ(src1_vreg) | FRK(src1_vreg) | FRA(src2));
 	}
 
-- 
2.43.0


From 4692f45aa7646f3edc4cb8db85c12ba0403dc4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 16/44] fix: flush both halfwords of a byte constant on ARM-T2

---
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 0abca73..2a1e13e 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -4536,5 +4536,5 @@ SLJIT_API_FUNC_ATTRIBUTE void sljit_set_const(sljit_uw addr, sljit_s32 op, sljit
 	inst[1] = (sljit_u16)((new_constant & 0xff) | (inst[1] & 0xf00));
 	SLJIT_UPDATE_WX_FLAGS(inst, inst + 2, 1);
 	inst = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(inst, executable_offset);
-	SLJIT_CACHE_FLUSH(inst + 1, inst + 2);
+	SLJIT_CACHE_FLUSH(inst, inst + 2);
 }
-- 
2.43.0


From aa859c4283d2d63e8ed7f0cbdf7275453c58bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 17/44] fix: make the whole generated code executable on s390x

---
 sljit_src/sljitNativeS390X.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 7de01c5..f026c92 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -1644,7 +1644,8 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		compiler->executable_size += (pad_size + pool_size);
 
 	code = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code, executable_offset);
-	code_ptr = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
+	/* The code_ptr might point to the last updated jump. */
+	code_ptr = (sljit_u16 *)((sljit_u8 *)code + compiler->executable_size);
 	SLJIT_CACHE_FLUSH(code, code_ptr);
 	SLJIT_UPDATE_WX_FLAGS(code, code_ptr, 1);
 	return code;
-- 
2.43.0


From d2ab5682693d86977c09cc687be41345d37bab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:48 +0000
Subject: [PATCH 18/44] fix: detect the CPU features before they are used on
 MIPS

---
 sljit_src/sljitLir.c               | 5 +++--
 sljit_src/sljitNativeMIPS_common.c | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 6521929..a1e451c 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -476,12 +476,13 @@ struct sljit_extended_label {
 /*  Public functions                                                     */
 /* --------------------------------------------------------------------- */
 
-#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
+#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV) \
+	|| (defined SLJIT_CONFIG_MIPS && SLJIT_CONFIG_MIPS)
 #define SLJIT_NEEDS_COMPILER_INIT 1
 static sljit_s32 compiler_initialized = 0;
 /* A thread safe initialization. */
 static void init_compiler(void);
-#endif /* SLJIT_CONFIG_X86 || SLJIT_CONFIG_RISCV */
+#endif /* SLJIT_CONFIG_X86 || SLJIT_CONFIG_RISCV || SLJIT_CONFIG_MIPS */
 
 SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler* sljit_create_compiler(void *allocator_data)
 {
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index cafa4b9..5e6060b 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -473,6 +473,11 @@ static void get_cpu_features(void)
 	cpu_feature_list = feature_list;
 }
 
+static void init_compiler(void)
+{
+	get_cpu_features();
+}
+
 /* dest_reg is the absolute name of the register
    Useful for reordering instructions in the delay slot. */
 static sljit_s32 push_inst(struct sljit_compiler *compiler, sljit_ins ins, sljit_s32 delay_slot)
-- 
2.43.0


From 85d99d09521bf6f63cc26c02d8aa6317b74f702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 19/44] fix: do not ask for the executable offset of a failed
 allocation

---
 sljit_src/sljitLir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index a1e451c..a9e4690 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -753,7 +753,8 @@ static SLJIT_INLINE void* allocate_executable_memory(sljit_uw size, sljit_s32 op
 
 	if (SLJIT_LIKELY(!(options & SLJIT_GENERATE_CODE_BUFFER))) {
 		code = SLJIT_MALLOC_EXEC(size, exec_allocator_data);
-		*executable_offset = SLJIT_EXEC_OFFSET(code);
+		if (SLJIT_LIKELY(code != NULL))
+			*executable_offset = SLJIT_EXEC_OFFSET(code);
 		return code;
 	}
 
-- 
2.43.0


From 7112d8741b8ef5a3cc6d7919ad9230a39a637214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 20/44] fix: restore the constant pool from its place in the
 serialized buffer on ARMv6

---
 sljit_src/sljitSerialize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 042cc18..b391882 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -368,6 +368,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->fsaveds = serialized_compiler->fsaveds;
 	compiler->local_size = serialized_compiler->local_size;
 	compiler->size = serialized_compiler->size;
+	ptr += sizeof(struct sljit_serialized_compiler);
 
 #if (defined SLJIT_HAS_STATUS_FLAGS_STATE && SLJIT_HAS_STATUS_FLAGS_STATE)
 	compiler->status_flags_state = serialized_compiler->status_flags_state;
@@ -404,7 +405,6 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 		goto error;
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
-	ptr += sizeof(struct sljit_serialized_compiler);
 	i = serialized_compiler->buf_segment_count;
 	last_buf = NULL;
 	while (i > 0) {
-- 
2.43.0


From 077935ae3ff0a67f8193d9ac977cc35e8de104c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 21/44] fix: serialize the register counts used by the argument
 checks

---
 sljit_src/sljitSerialize.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index b391882..b06b9af 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -97,6 +97,12 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 };
 
 struct sljit_serialized_label {
@@ -309,6 +315,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -573,6 +585,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From 87ec9eb4d3147275fe7940a919804bc2ae78a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 22/44] fix: print the alignment of memory operations to the
 verbose stream instead of stdout

---
 sljit_src/sljitLir.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index a9e4690..5ad14e8 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2843,11 +2843,11 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_mem(struct sljit_compiler
 				!(type & SLJIT_32) ? "" : "32", op1_types[(type & 0xff) - SLJIT_OP1_BASE]);
 
 		if (type & SLJIT_MEM_UNALIGNED)
-			printf(".unal");
+			fprintf(compiler->verbose, ".unal");
 		else if (type & SLJIT_MEM_ALIGNED_16)
-			printf(".al16");
+			fprintf(compiler->verbose, ".al16");
 		else if (type & SLJIT_MEM_ALIGNED_32)
-			printf(".al32");
+			fprintf(compiler->verbose, ".al32");
 
 		if (reg & REG_PAIR_MASK) {
 			fprintf(compiler->verbose, " {");
@@ -2940,11 +2940,11 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fmem(struct sljit_compile
 			!(type & SLJIT_32) ? "f64" : "f32");
 
 		if (type & SLJIT_MEM_UNALIGNED)
-			printf(".unal");
+			fprintf(compiler->verbose, ".unal");
 		else if (type & SLJIT_MEM_ALIGNED_16)
-			printf(".al16");
+			fprintf(compiler->verbose, ".al16");
 		else if (type & SLJIT_MEM_ALIGNED_32)
-			printf(".al32");
+			fprintf(compiler->verbose, ".al32");
 
 		fprintf(compiler->verbose, " ");
 		sljit_verbose_freg(compiler, freg);
-- 
2.43.0


From eec44bad459ad4dda55a46e83df47fab629b2de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 23/44] fix: set the size of the stack arguments in every
 function context on MIPS32

---
 sljit_src/sljitNativeMIPS_common.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 5e6060b..c04e8b3 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1016,7 +1016,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_enter(struct sljit_compiler *compi
 
 		compiler->args_size = (sljit_uw)arg_count << 2;
 		offset = (offset >= 4) ? (offset << 2) : 0;
-	}
+	} else
+		compiler->args_size = 0;
 #endif /* SLJIT_CONFIG_MIPS_32 */
 
 	if (local_size + offset <= -SIMM_MIN) {
@@ -1184,6 +1185,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_set_context(struct sljit_compiler *comp
 {
 	sljit_s32 fscratches = ENTER_GET_FLOAT_REGS(scratches);
 	sljit_s32 fsaveds = ENTER_GET_FLOAT_REGS(saveds);
+#if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
+	sljit_s32 arg_count = 0;
+#endif /* SLJIT_CONFIG_MIPS_32 */
 
 	CHECK_ERROR();
 	CHECK(check_sljit_set_context(compiler, options, arg_types, scratches, saveds, local_size));
@@ -1201,6 +1205,23 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_set_context(struct sljit_compiler *comp
 	}
 
 	compiler->local_size = (local_size + SLJIT_LOCALS_OFFSET + 15) & ~0xf;
+
+	if (!(options & SLJIT_ENTER_REG_ARG)) {
+		arg_types >>= SLJIT_ARG_SHIFT;
+
+		while (arg_types) {
+			if ((arg_types & SLJIT_ARG_MASK) == SLJIT_ARG_TYPE_F64) {
+				if ((arg_count & 0x1) != 0)
+					arg_count++;
+				arg_count++;
+			}
+
+			arg_count++;
+			arg_types >>= SLJIT_ARG_SHIFT;
+		}
+	}
+
+	compiler->args_size = (sljit_uw)arg_count << 2;
 #else
 	local_size += GET_SAVED_FLOAT_REGISTERS_SIZE(fscratches, fsaveds, f64);
 	compiler->local_size = (local_size + SLJIT_LOCALS_OFFSET + 31) & ~0x1f;
-- 
2.43.0


From 6eebb4650f412f56257628a303b55493c065ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 24/44] fix: set the size of the stack arguments in
 sljit_set_context on ARM with software floating point ABI

---
 sljit_src/sljitNativeARM_32.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 5e2a0f6..d116875 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -1468,6 +1468,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_set_context(struct sljit_compiler *comp
 	sljit_s32 fscratches;
 	sljit_s32 fsaveds;
 	sljit_s32 size;
+#ifdef __SOFTFP__
+	sljit_uw offset = 0;
+#endif /* __SOFTFP__ */
 
 	CHECK_ERROR();
 	CHECK(check_sljit_set_context(compiler, options, arg_types, scratches, saveds, local_size));
@@ -1484,6 +1487,26 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_set_context(struct sljit_compiler *comp
 		size += SSIZE_OF(sw);
 
 	compiler->local_size = ((size + local_size + 0x7) & ~0x7) - size;
+
+#ifdef __SOFTFP__
+	if (options & SLJIT_ENTER_REG_ARG)
+		arg_types = 0;
+
+	arg_types >>= SLJIT_ARG_SHIFT;
+
+	while (arg_types) {
+		if ((arg_types & SLJIT_ARG_MASK) == SLJIT_ARG_TYPE_F64) {
+			if (offset & 0x7)
+				offset += sizeof(sljit_sw);
+			offset += sizeof(sljit_f64) - sizeof(sljit_sw);
+		}
+
+		offset += sizeof(sljit_sw);
+		arg_types >>= SLJIT_ARG_SHIFT;
+	}
+
+	compiler->args_size = offset;
+#endif /* __SOFTFP__ */
 	return SLJIT_SUCCESS;
 }
 
-- 
2.43.0


From a8fa792d13ea18e6746a8c077d1470b553b90385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 25/44] fix: accept functions returning floating point values
 in the check of sljit_set_context

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 5ad14e8..537e07f 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1521,7 +1521,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_set_context(struct sljit_compi
 	CHECK_ARGUMENT(real_vsaveds >= 0 && real_vsaveds <= SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(real_vscratches + real_vsaveds <= SLJIT_NUMBER_OF_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(local_size >= 0 && local_size <= SLJIT_MAX_LOCAL_SIZE);
-	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) < SLJIT_ARG_TYPE_F64);
+	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) <= SLJIT_ARG_TYPE_F32);
 	CHECK_ARGUMENT(function_check_arguments(arg_types, real_scratches,
 		(options & SLJIT_ENTER_REG_ARG) ? 0 : real_saveds, real_fscratches));
 
-- 
2.43.0


From d1de1f196bd1558cf08f423e36ac1a7cbafea389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 26/44] fix: LoongArch preserves only eight float registers
 across calls

---
 sljit_src/sljitConfigInternal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitConfigInternal.h b/sljit_src/sljitConfigInternal.h
index e5438e2..711524a 100644
--- a/sljit_src/sljitConfigInternal.h
+++ b/sljit_src/sljitConfigInternal.h
@@ -774,7 +774,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_sw sljit_exec_offset(void *code);
 #define SLJIT_NUMBER_OF_SAVED_REGISTERS 10
 #define SLJIT_NUMBER_OF_TEMPORARY_REGISTERS 5
 #define SLJIT_NUMBER_OF_FLOAT_REGISTERS 30
-#define SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS 12
+#define SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS 8
 #define SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS 2
 #define SLJIT_TMP_DEST_REG SLJIT_TMP_R1
 #define SLJIT_TMP_MEM_REG SLJIT_TMP_R1
-- 
2.43.0


From d68c9695c9f1819f041740694a0dc03fd22613c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 27/44] fix: keep the base register when a load into the same
 register needs a temporary

---
 sljit_src/sljitNativeLOONGARCH_64.c | 3 ++-
 sljit_src/sljitNativeMIPS_common.c  | 4 ++++
 sljit_src/sljitNativeRISCV_common.c | 3 ++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index f66d786..76f0d73 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1308,7 +1308,8 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg, arg, argw))
 		return compiler->error;
 
-	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA))
+	/* The base register is used after tmp_r is changed. */
+	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA) && reg != base)
 		tmp_r = reg;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index c04e8b3..54572fa 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1552,6 +1552,10 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	}
 	base = arg & REG_MASK;
 
+	/* The base register is used after tmp_ar is changed. */
+	if (tmp_ar == DR(base))
+		tmp_ar = DR(TMP_REG1);
+
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
 		argw &= 0x3;
 
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 5937aeb..4d73ff4 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1689,7 +1689,8 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg, arg, argw))
 		return compiler->error;
 
-	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA))
+	/* The base register is used after tmp_r is changed. */
+	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA) && reg != base)
 		tmp_r = reg;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
-- 
2.43.0


From f1c3225328c213615ded38c6d9ca29b94b9aef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 28/44] fix: set the destination of shift into operations when
 the immediate shift is zero

---
 sljit_src/sljitNativeARM_32.c       |  9 +++++++--
 sljit_src/sljitNativeARM_64.c       |  9 +++++++--
 sljit_src/sljitNativeARM_T2_32.c    |  9 +++++++--
 sljit_src/sljitNativeLOONGARCH_64.c |  9 +++++++--
 sljit_src/sljitNativeMIPS_common.c  |  9 +++++++--
 sljit_src/sljitNativePPC_common.c   |  9 +++++++--
 sljit_src/sljitNativeRISCV_common.c |  9 +++++++--
 sljit_src/sljitNativeS390X.c        |  9 +++++++--
 sljit_src/sljitNativeX86_common.c   | 23 ++++++++++++++---------
 9 files changed, 70 insertions(+), 25 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index d116875..035153a 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2632,8 +2632,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		FAIL_IF(push_inst(compiler, MOV | RD(dst_reg) | RM(src1_reg) | ((sljit_ins)(is_left ? 0 : 1) << 5) | ((sljit_ins)src3w << 7)));
 		src3w = (src3w ^ 0x1f) + 1;
diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 72a91a3..4facde1 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -1828,8 +1828,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		mask = inv_bits ? 0x1f : 0x3f;
 		src3w &= mask;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left)
 			src3w = (src3w ^ mask) + 1;
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 2a1e13e..de2d6e9 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -2166,8 +2166,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (IS_2_LO_REGS(dst_reg, src1_reg))
 			FAIL_IF(push_inst16(compiler, (is_left ? LSLSI : LSRSI) | RD3(dst_reg) | RN3(src1_reg) | ((sljit_ins)src3w << 6)));
diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 76f0d73..ca4cfbc 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2126,8 +2126,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = INST(SLLI, op) | IMM_I12(src3w);
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 54572fa..4cb8837 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2775,8 +2775,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SELECT_OP3(op, src3w, DSLL, DSLL32, SLL);
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 773ba1d..759a81e 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2066,8 +2066,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 		if (!(op & SLJIT_32)) {
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 4d73ff4..5d3a8b0 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2807,8 +2807,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SLLI | WORD | IMM_I(src3w);
diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index f026c92..45695ef 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3060,8 +3060,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (op & SLJIT_32) {
 			if (dst_r == src1_r) {
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 86a6672..a847e46 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2847,13 +2847,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	CHECK(check_sljit_emit_shift_into(compiler, op, dst_reg, src1_reg, src2_reg, src3, src3w));
 	ADJUST_LOCAL_OFFSET(src3, src3w);
 
-	CHECK_EXTRA_REGS(dst_reg, dstw, (void)0);
-	CHECK_EXTRA_REGS(src3, src3w, (void)0);
-
-#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
-	compiler->mode32 = op & SLJIT_32;
-#endif /* SLJIT_CONFIG_X86_64 */
-
 	if (src3 == SLJIT_IMM) {
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 		src3w &= 0x1f;
@@ -2861,10 +2854,22 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 	}
 
+	CHECK_EXTRA_REGS(dst_reg, dstw, (void)0);
+	CHECK_EXTRA_REGS(src3, src3w, (void)0);
+
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+	compiler->mode32 = op & SLJIT_32;
+#endif /* SLJIT_CONFIG_X86_64 */
+
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
 
 	is_rotate = (src1_reg == src2_reg);
-- 
2.43.0


From 5fa54a36baf62a82b8e8c70d3af5ee678cf4bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 29/44] fix: do not change the source of 256 bit simd extend
 operations on LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index ca4cfbc..5f2b7e4 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3608,7 +3608,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 		ins = 0;
 		if (reg_size == 5) {
 			ins = (sljit_ins)1 << 26;
-			FAIL_IF(push_inst(compiler, XVPERMI | FRD(src) | FRJ(src) | IMM_I8(16)));
+			FAIL_IF(push_inst(compiler, XVPERMI | FRD(vreg) | FRJ(src) | IMM_I8(16)));
+			src = vreg;
 		}
 
 		return push_inst(compiler, VFCVTL_D_S | ins | FRD(vreg) | FRJ(src));
@@ -3620,8 +3621,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 		ins |= (sljit_ins)1 << 26;
 
 	do {
-		if (reg_size == 5)
-			FAIL_IF(push_inst(compiler, XVPERMI | FRD(src) | FRJ(src) | IMM_I8(16)));
+		if (reg_size == 5) {
+			FAIL_IF(push_inst(compiler, XVPERMI | FRD(vreg) | FRJ(src) | IMM_I8(16)));
+			src = vreg;
+		}
 
 		FAIL_IF(push_inst(compiler, ins | ((sljit_ins)1 << (13 + elem_size)) | FRD(vreg) | FRJ(src)));
 		src = vreg;
-- 
2.43.0


From 411e679d1d224df642bc3c80b853d425c030c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 30/44] fix: RISC-V: extending moves to memory do not change
 the source register

---
 sljit_src/sljitNativeRISCV_common.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 5d3a8b0..dd99545 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1917,11 +1917,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S8:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(24)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(24));
 		}
@@ -1929,11 +1929,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_U16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRLI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
@@ -1941,11 +1941,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
-- 
2.43.0


From bcef8adad3caded78b256e7850b01cd471667745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 31/44] fix: LoongArch: conversion from u32 does not change the
 source register

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 5f2b7e4..9b348a3 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2416,8 +2416,10 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 		src = TMP_REG1;
 	}
 
-	if (!word_data)
-		FAIL_IF(push_inst(compiler, SRLI_W | RD(src) | RJ(src) | IMM_I12(0)));
+	if (!word_data) {
+		FAIL_IF(push_inst(compiler, SRLI_W | RD(TMP_REG1) | RJ(src) | IMM_I12(0)));
+		src = TMP_REG1;
+	}
 
 	FAIL_IF(push_inst(compiler, BLT | RJ(src) | RD(TMP_ZERO) | IMM_I16(4)));
 
-- 
2.43.0


From aa801b1a86f925bf143c920bdb552bff001474c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 32/44] fix: MIPS: select supports the atomic store conditions

---
 sljit_src/sljitNativeMIPS_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 4cb8837..bf8f41a 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3836,6 +3836,7 @@ static sljit_ins get_select_cc(sljit_s32 type, sljit_s32 is_float)
 	case SLJIT_SIG_GREATER:
 	case SLJIT_OVERFLOW:
 	case SLJIT_CARRY:
+	case SLJIT_ATOMIC_STORED:
 		return (is_float ? MOVN_S : MOVN) | TA(OTHER_FLAG);
 	case SLJIT_GREATER_EQUAL:
 	case SLJIT_LESS_EQUAL:
@@ -3843,6 +3844,7 @@ static sljit_ins get_select_cc(sljit_s32 type, sljit_s32 is_float)
 	case SLJIT_SIG_LESS_EQUAL:
 	case SLJIT_NOT_OVERFLOW:
 	case SLJIT_NOT_CARRY:
+	case SLJIT_ATOMIC_NOT_STORED:
 		return (is_float ? MOVZ_S : MOVZ) | TA(OTHER_FLAG);
 	case SLJIT_F_EQUAL:
 	case SLJIT_F_LESS:
-- 
2.43.0


From fb98d78552e5e1d9f1126fddee38bbec0da27b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:15 +0000
Subject: [PATCH 33/44] fix: PowerPC: carry conditions do not change status
 flags and the base register of select

---
 sljit_src/sljitNativePPC_common.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 759a81e..50fb791 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2530,20 +2530,21 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_label* sljit_emit_aligned_label(struct slj
 static sljit_ins get_bo_bi_flags(struct sljit_compiler *compiler, sljit_s32 type)
 {
 	switch (type) {
+	/* See emit_carry_to_cr7. */
+	case SLJIT_CARRY:
+		if (compiler->status_flags_state & SLJIT_CURRENT_FLAGS_SUB)
+			return (4 << 21) | ((28 + 2) << 16);
+		return (12 << 21) | ((28 + 2) << 16);
+
 	case SLJIT_NOT_CARRY:
 		if (compiler->status_flags_state & SLJIT_CURRENT_FLAGS_SUB)
-			return (4 << 21) | (2 << 16);
-		/* fallthrough */
+			return (12 << 21) | ((28 + 2) << 16);
+		return (4 << 21) | ((28 + 2) << 16);
 
 	case SLJIT_EQUAL:
 	case SLJIT_ATOMIC_STORED:
 		return (12 << 21) | (2 << 16);
 
-	case SLJIT_CARRY:
-		if (compiler->status_flags_state & SLJIT_CURRENT_FLAGS_SUB)
-			return (12 << 21) | (2 << 16);
-		/* fallthrough */
-
 	case SLJIT_NOT_EQUAL:
 	case SLJIT_ATOMIC_NOT_STORED:
 		return (4 << 21) | (2 << 16);
@@ -2612,6 +2613,14 @@ static sljit_ins get_bo_bi_flags(struct sljit_compiler *compiler, sljit_s32 type
 	}
 }
 
+/* Copy the carry bit of XER into the equal bit of CR7 without changing any status flags. */
+static sljit_s32 emit_carry_to_cr7(struct sljit_compiler *compiler)
+{
+	/* The result is carry - 1, and the carry bit keeps its value. */
+	FAIL_IF(push_inst(compiler, SUBFE | D(TMP_REG2) | A(TMP_ZERO) | B(TMP_ZERO)));
+	return push_inst(compiler, CMPI | CRD(7 << 2) | A(TMP_REG2) | IMM(0));
+}
+
 SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_jump(struct sljit_compiler *compiler, sljit_s32 type)
 {
 	struct sljit_jump *jump;
@@ -2630,7 +2639,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_jump(struct sljit_compile
 	type &= 0xff;
 
 	if ((type | 0x1) == SLJIT_NOT_CARRY)
-		PTR_FAIL_IF(push_inst(compiler, ADDE | RC(ALT_SET_FLAGS) | D(TMP_REG2) | A(TMP_ZERO) | B(TMP_ZERO)));
+		PTR_FAIL_IF(emit_carry_to_cr7(compiler));
 
 	/* In PPC, we don't need to touch the arguments. */
 	if (type < SLJIT_JUMP)
@@ -2947,7 +2956,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	}
 
 	if (((type & ~SLJIT_32) | 0x1) == SLJIT_NOT_CARRY)
-		FAIL_IF(push_inst(compiler, ADDE | RC(ALT_SET_FLAGS) | D(TMP_REG1) | A(TMP_ZERO) | B(TMP_ZERO)));
+		FAIL_IF(emit_carry_to_cr7(compiler));
 
 	size = compiler->size;
 
@@ -2993,7 +3002,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fselect(struct sljit_compiler *com
 	}
 
 	if (((type & ~SLJIT_32) | 0x1) == SLJIT_NOT_CARRY)
-		FAIL_IF(push_inst(compiler, ADDE | RC(ALT_SET_FLAGS) | D(TMP_REG1) | A(TMP_ZERO) | B(TMP_ZERO)));
+		FAIL_IF(emit_carry_to_cr7(compiler));
 
 	size = compiler->size;
 
-- 
2.43.0


From 49e219d975a2c6bb6928d077f6507d0282468817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:31 +0000
Subject: [PATCH 34/44] fix: do not negate the smallest offset of floating
 point memory operands on ARM-T2

---
 sljit_src/sljitNativeARM_T2_32.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index de2d6e9..36294ae 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -1313,10 +1313,11 @@ static sljit_s32 emit_set_delta(struct sljit_compiler *compiler, sljit_s32 dst,
 			return push_inst32(compiler, ADD_WI | RD4(dst) | RN4(reg) | imm);
 	}
 	else {
-		value = -value;
-		if (value <= 0xfff)
-			return push_inst32(compiler, SUBWI | RD4(dst) | RN4(reg) | IMM12(value));
-		imm = get_imm((sljit_uw)value);
+		/* The smallest value cannot be negated. */
+		imm = 0 - (sljit_uw)value;
+		if (imm <= 0xfff)
+			return push_inst32(compiler, SUBWI | RD4(dst) | RN4(reg) | IMM12(imm));
+		imm = get_imm(imm);
 		if (imm != INVALID_IMM)
 			return push_inst32(compiler, SUB_WI | RD4(dst) | RN4(reg) | imm);
 	}
-- 
2.43.0


From e217b89e9d0dd266fc5483a9b80769f162cf0b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 35/44] fix: load negative immediates of 64 bit or / xor
 operations fully on PowerPC-64

---
 sljit_src/sljitNativePPC_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 50fb791..d453706 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1733,7 +1733,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 #define TEST_ADD_IMM(src, srcw) \
 	((src) == SLJIT_IMM && (srcw) <= 0x7fff7fffl && (srcw) >= -0x80000000l)
 #define TEST_UI_IMM(src, srcw) \
-	((src) == SLJIT_IMM && !((srcw) & ~0xffffffff))
+	((src) == SLJIT_IMM && !((srcw) & ~(sljit_sw)0xffffffff))
 
 #define TEST_ADD_FORM1(op) \
 	(GET_FLAG_TYPE(op) == SLJIT_OVERFLOW \
-- 
2.43.0


From d6effd6d6b56252d5221533f4b9ab3a4fb805c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 36/44] fix: RISC-V, LoongArch, MIPS: set the carry flag when
 the first operand of an addition is zero

---
 sljit_src/sljitNativeLOONGARCH_64.c | 16 +++++++++-------
 sljit_src/sljitNativeMIPS_common.c  | 16 +++++++++-------
 sljit_src/sljitNativeRISCV_common.c | 16 +++++++++-------
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 9b348a3..4d6b3b4 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1455,7 +1455,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -1477,7 +1478,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(EQUAL_FLAG) | RJ(src1) | RK(src2)));
 
-			if (is_overflow || carry_src_r != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -1494,7 +1495,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
@@ -1511,12 +1512,13 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | RD(OTHER_FLAG) | RJ(TMP_REG1) | RK(OTHER_FLAG));
 
 	case SLJIT_ADDC:
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			FAIL_IF(push_inst(compiler, ADDI_D | RD(dst) | RJ(src1) | IMM_I12(src2)));
 		} else {
-			if (carry_src_r != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -1531,7 +1533,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
@@ -1540,7 +1542,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 		FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index bf8f41a..6b48836 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1902,7 +1902,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -1924,7 +1925,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(src1) | T(src2) | DA(EQUAL_FLAG), EQUAL_FLAG));
 
-			if (is_overflow || carry_src_ar != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1941,7 +1942,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_ar != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(OTHER_FLAG) | IMM(src2), OTHER_FLAG));
 			else
@@ -1958,12 +1959,13 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | S(TMP_REG1) | TA(OTHER_FLAG) | DA(OTHER_FLAG), OTHER_FLAG);
 
 	case SLJIT_ADDC:
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			FAIL_IF(push_inst(compiler, SELECT_OP(DADDIU, ADDIU) | S(src1) | T(dst) | IMM(src2), DR(dst)));
 		} else {
-			if (carry_src_ar != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1978,7 +1980,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_ar != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(EQUAL_FLAG) | IMM(src2), EQUAL_FLAG));
 			else
@@ -1987,7 +1989,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 		FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(dst) | TA(OTHER_FLAG) | D(dst), DR(dst)));
 
-		if (carry_src_ar == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index dd99545..3beb05e 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2015,7 +2015,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -2044,7 +2045,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, ADD | WORD | RD(EQUAL_FLAG) | RS1(src1) | RS2(src2)));
 
-			if (is_overflow || carry_src_r != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -2061,7 +2062,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2082,7 +2083,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | RD(OTHER_FLAG) | RS1(TMP_REG1) | RS2(OTHER_FLAG));
 
 	case SLJIT_ADDC:
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			SLJIT_ASSERT(src2 != 0);
@@ -2091,7 +2093,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else
 				FAIL_IF(push_inst(compiler, ADDI | WORD | RD(dst) | RS1(src1) | IMM_I(src2)));
 		} else {
-			if (carry_src_r != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -2109,7 +2111,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2121,7 +2123,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		else
 			FAIL_IF(push_inst(compiler, ADD | WORD | RD(dst) | RS1(dst) | RS2(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
-- 
2.43.0


From 0e353a5666625417b48fc82f9f9a88daac2d9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 37/44] fix: PowerPC: carry of subtracting an immediate zero

---
 sljit_src/sljitNativePPC_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index d453706..9c30b0e 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1891,7 +1891,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		if (TEST_SUB_FORM3(op))
 			return emit_op(compiler, SLJIT_SUB, flags | ALT_FORM3, dst, dstw, src1, src1w, src2, src2w);
 
-		if (TEST_SL_IMM(src2, -src2w)) {
+		/* Adding zero never sets the carry bit, but subtracting zero does. */
+		if (TEST_SL_IMM(src2, -src2w) && (src2w != 0 || GET_FLAG_TYPE(op) != SLJIT_CARRY)) {
 			compiler->imm = (sljit_ins)(-src2w) & 0xffff;
 			return emit_op(compiler, SLJIT_ADD, flags | (!HAS_FLAGS(op) ? ALT_FORM2 : ALT_FORM3), dst, dstw, src1, src1w, TMP_REG2, 0);
 		}
-- 
2.43.0


From b32468cb35a27f085a8f1a27270aa736c4d86fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 38/44] fix: PowerPC-64: set the carry bit of 32 bit operations
 which set the zero flag as well

---
 sljit_src/sljitNativePPC_64.c     | 6 ++++--
 sljit_src/sljitNativePPC_common.c | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index 2b07fcb..24ab02a 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -226,7 +226,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				src2 = TMP_REG2;
 			}
 			/* Setting XER SO is not enough, CR SO is also needed. */
-			FAIL_IF(push_inst(compiler, ADD | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src1) | B(src2)));
+			FAIL_IF(push_inst(compiler, ((flags & ALT_FORM5) ? ADDC : ADD) | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src1) | B(src2)));
 			if (flags & ALT_SIGN_EXT)
 				return push_inst(compiler, SRDI(32) | S(dst) | A(dst));
 			return SLJIT_SUCCESS;
@@ -311,7 +311,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			}
 
 			/* Setting XER SO is not enough, CR SO is also needed. */
-			if (src1 != TMP_ZERO)
+			if (flags & ALT_FORM5)
+				FAIL_IF(push_inst(compiler, SUBFC | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2) | B(src1)));
+			else if (src1 != TMP_ZERO)
 				FAIL_IF(push_inst(compiler, SUBF | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2) | B(src1)));
 			else
 				FAIL_IF(push_inst(compiler, NEG | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2)));
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 9c30b0e..2e26614 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1794,7 +1794,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		compiler->status_flags_state = SLJIT_CURRENT_FLAGS_ADD;
 
 		if (TEST_ADD_FORM1(op))
-			return emit_op(compiler, SLJIT_ADD, flags | ALT_FORM1, dst, dstw, src1, src1w, src2, src2w);
+			return emit_op(compiler, SLJIT_ADD, flags | ALT_FORM1 | ((GET_FLAG_TYPE(op) == SLJIT_CARRY) ? ALT_FORM5 : 0), dst, dstw, src1, src1w, src2, src2w);
 
 		if (!HAS_FLAGS(op) && (src1 == SLJIT_IMM || src2 == SLJIT_IMM)) {
 			if (TEST_SL_IMM(src2, src2w)) {
@@ -1889,7 +1889,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		}
 
 		if (TEST_SUB_FORM3(op))
-			return emit_op(compiler, SLJIT_SUB, flags | ALT_FORM3, dst, dstw, src1, src1w, src2, src2w);
+			return emit_op(compiler, SLJIT_SUB, flags | ALT_FORM3 | ((GET_FLAG_TYPE(op) == SLJIT_CARRY) ? ALT_FORM5 : 0), dst, dstw, src1, src1w, src2, src2w);
 
 		/* Adding zero never sets the carry bit, but subtracting zero does. */
 		if (TEST_SL_IMM(src2, -src2w) && (src2w != 0 || GET_FLAG_TYPE(op) != SLJIT_CARRY)) {
-- 
2.43.0


From f3c2b915dce59cf9b8cc2feb94003a85ac3853a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 39/44] fix: PowerPC-64: carry of a 32 bit subtraction from an
 immediate

---
 sljit_src/sljitNativePPC_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index 24ab02a..afe0ce1 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -324,8 +324,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		if (flags & ALT_FORM4) {
-			/* Flags does not set: BIN_IMM_EXTS unnecessary. */
 			SLJIT_ASSERT(src2 == TMP_REG2);
+			BIN_IMM_EXTS();
 			return push_inst(compiler, SUBFIC | D(dst) | A(src1) | compiler->imm);
 		}
 
-- 
2.43.0


From ee8f3b3613c29147130ba9f0566c27bcf6888749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 40/44] fix: PowerPC-64: zero flag of 32 bit and / or / xor
 operations

---
 sljit_src/sljitNativePPC_64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index afe0ce1..1c50786 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -365,6 +365,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			SLJIT_ASSERT(src2 == TMP_REG2);
 			return push_inst(compiler, ANDIS | S(src1) | A(dst) | compiler->imm);
 		}
+		BIN_EXTS();
 		return push_inst(compiler, AND | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_OR:
@@ -383,6 +384,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			FAIL_IF(push_inst(compiler, ORI | S(src1) | A(dst) | IMM(imm)));
 			return push_inst(compiler, ORIS | S(dst) | A(dst) | IMM(imm >> 16));
 		}
+		BIN_EXTS();
 		return push_inst(compiler, OR | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_XOR:
@@ -406,6 +408,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			UN_EXTS();
 			return push_inst(compiler, NOR | RC(flags) | S(src2) | A(dst) | B(src2));
 		}
+		BIN_EXTS();
 		return push_inst(compiler, XOR | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_SHL:
-- 
2.43.0


From fcdf624795db172a6eb0a4683c4723d8de6139c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:59 +0000
Subject: [PATCH 41/44] fix: ARM-32: complement the immediate when ADDC / SUBC
 is replaced by its inverse

---
 sljit_src/sljitNativeARM_32.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 035153a..5dca337 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2257,7 +2257,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 				/* Note: additive operation (commutative). */
 				SLJIT_ASSERT(op == SLJIT_ADD || op == SLJIT_ADDC);
 
-				src2_reg = (sljit_s32)get_imm((sljit_uw)-src1w);
+				src2_reg = (sljit_s32)get_imm(neg_op == SLJIT_SUB ? (sljit_uw)-src1w : ~(sljit_uw)src1w);
 				if (src2_reg) {
 					src1 = src2;
 					src1w = src2w;
@@ -2328,7 +2328,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 			src2_reg = (sljit_s32)compute_imm((sljit_uw)src2w, &imm2);
 
 			if (src2_reg == 0 && neg_op != 0) {
-				src2_reg = (sljit_s32)compute_imm((sljit_uw)-src2w, &imm2);
+				src2_reg = (sljit_s32)compute_imm((neg_op == SLJIT_ADD || neg_op == SLJIT_SUB) ? (sljit_uw)-src2w : ~(sljit_uw)src2w, &imm2);
 				if (src2_reg != 0)
 					op = neg_op;
 			}
@@ -2355,7 +2355,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 		src1_reg = (sljit_s32)compute_imm((sljit_uw)src1w, &imm2);
 
 		if (src1_reg == 0 && neg_op != 0) {
-			src1_reg = (sljit_s32)compute_imm((sljit_uw)-src1w, &imm2);
+			src1_reg = (sljit_s32)compute_imm(neg_op == SLJIT_SUB ? (sljit_uw)-src1w : ~(sljit_uw)src1w, &imm2);
 			if (src1_reg != 0)
 				op = neg_op;
 		}
@@ -2370,6 +2370,8 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 
 			if (op == SLJIT_ADDC)
 				op = SLJIT_ADD;
+			else if (op == SLJIT_SUBC)
+				op = SLJIT_SUB;
 		}
 	}
 
-- 
2.43.0


From 5bcc02f68d3914aa2199236f54f5f32aa6cdd1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:59 +0000
Subject: [PATCH 42/44] fix: LoongArch: sign extend the result of 32 bit ADDC

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 4d6b3b4..9f1e7ca 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1516,7 +1516,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
-			FAIL_IF(push_inst(compiler, ADDI_D | RD(dst) | RJ(src1) | IMM_I12(src2)));
+			FAIL_IF(push_inst(compiler, INST(ADDI, op) | RD(dst) | RJ(src1) | IMM_I12(src2)));
 		} else {
 			if (is_carry) {
 				if (src1 != dst)
@@ -1529,7 +1529,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				}
 			}
 
-			FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(src1) | RK(src2)));
+			FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(dst) | RJ(src1) | RK(src2)));
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
@@ -1540,7 +1540,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				FAIL_IF(push_inst(compiler, SLTU | RD(EQUAL_FLAG) | RJ(dst) | RK(carry_src_r)));
 		}
 
-		FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
+		FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
 
 		if (!is_carry)
 			return SLJIT_SUCCESS;
-- 
2.43.0


From 7e703f251445d14fb689f124c2272b33f56dedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:59 +0000
Subject: [PATCH 43/44] fix: RISC-V, LoongArch, MIPS: sign extend 32 bit memory
 operands of compare and select

---
 sljit_src/sljitNativeLOONGARCH_64.c | 4 ++--
 sljit_src/sljitNativeMIPS_common.c  | 4 ++--
 sljit_src/sljitNativeRISCV_common.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 9f1e7ca..aba6fa7 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2885,7 +2885,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 	compiler->cache_arg = 0;
 	compiler->cache_argw = 0;
 
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 
 	if (src1 & SLJIT_MEM) {
 		PTR_FAIL_IF(emit_op_mem2(compiler, flags, TMP_REG1, src1, src1w, src2, src2w));
@@ -3122,7 +3122,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 {
 	sljit_ins *ptr;
 	sljit_uw size;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_select(compiler, type, dst_reg, src1, src1w, src2_reg));
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 6b48836..fb316b7 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3562,7 +3562,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_MIPS_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #endif /* SLJIT_CONFIG_MIPS_32 */
 
 	if (src1 & SLJIT_MEM) {
@@ -3884,7 +3884,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_s32 src2_reg)
 {
 #if (defined SLJIT_CONFIG_MIPS_64 && SLJIT_CONFIG_MIPS_64)
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 	sljit_ins mov_ins = (type & SLJIT_32) ? ADDU : DADDU;
 #else /* !SLJIT_CONFIG_MIPS_64 */
 	sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 3beb05e..8e4bf5c 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -3474,7 +3474,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_RISCV_32 && SLJIT_CONFIG_RISCV_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #endif /* SLJIT_CONFIG_RISCV_32 */
 
 	if (src1 & SLJIT_MEM) {
@@ -3748,7 +3748,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_ins ins;
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
 	sljit_ins word = (sljit_ins)(type & SLJIT_32) >> 5;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_64 */
         sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
 #endif /* SLJIT_CONFIG_RISCV_64 */
-- 
2.43.0


From 2aef8bbc74d7cb7e4a9a3f621702ab2d2ad3b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:59 +0000
Subject: [PATCH 44/44] fix: LoongArch: keep the first memory operand of a
 comparison when the second one is loaded

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index aba6fa7..887468d 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2893,7 +2893,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 	}
 
 	if (src2 & SLJIT_MEM) {
-		PTR_FAIL_IF(emit_op_mem2(compiler, flags, src2_tmp_reg, src2, src2w, 0, 0));
+		PTR_FAIL_IF(emit_op_mem2(compiler, flags | (src1 == TMP_REG1 ? MEM_USE_TMP2 : 0), src2_tmp_reg, src2, src2w, 0, 0));
 		src2 = src2_tmp_reg;
 	}
 
-- 
2.43.0

