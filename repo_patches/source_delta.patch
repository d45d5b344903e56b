From dce385100a36aef66d726942a7146eb5f46fd495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 001/106] fix: use unsigned division for unsigned operands

---
 src/ir/ir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index e94b179..a431ab8 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -556,7 +556,7 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 	if (type == IR_IDIV)
 		return ir_idiv(lhs, rhs);
 	if (type == IR_DIV)
-		return ir_idiv(lhs, rhs);
+		return ir_div(lhs, rhs);
 	if (type == IR_MOD)
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
-- 
2.43.0


From 01ef407809217ab25f68b7b63212d6d0f7c789ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 002/106] fix: give the result of a comparison the size of an
 int

---
 src/parser/expression_to_ir.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index b857abf..dbbb5f3 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -438,6 +438,11 @@ static struct evaluated_expression evaluate_binary_operator(struct expr *expr) {
 
 	struct node *res = ir_binary_op(ir_from_type_and_op(expr->args[0]->data_type, expr->binary_op), lhs_var, rhs_var);
 
+	// Comparisons have the size of their operands, but result in an int.
+	int result_size = calculate_size(expr->data_type);
+	if (res->size != result_size)
+		res = ir_cast_int(res, result_size, 0);
+
 	return (struct evaluated_expression) {
 		.type = EE_VARIABLE,
 		.variable = res
-- 
2.43.0


From ac29fcbcd6a909ee70988f5b8c4a9e0f2725e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 003/106] fix: don't balance the operands of compound shift
 assignments

---
 src/parser/expression.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 68b9752..03209ad 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -348,7 +348,13 @@ static void fix_assignment_operators(struct expr *expr) {
 	if (expr->type != E_ASSIGNMENT_OP)
 		return;
 
-	convert_arithmetic(&expr->args[0], &expr->args[1]);
+	if (expr->assignment_op.op == OP_LSHIFT ||
+		expr->assignment_op.op == OP_RSHIFT) {
+		// The operands are not balanced, see 6.5.7.
+		expr->args[1] = expression_cast(expr->args[1], expr->args[0]->data_type);
+	} else {
+		convert_arithmetic(&expr->args[0], &expr->args[1]);
+	}
 	// Reduce double cast into single cast. Always correct in this case.
 	if (expr->args[0]->type == E_CAST) {
 		if (expr->args[0]->cast.arg->type == E_CAST)
-- 
2.43.0


From b98907a0586c4e54379d02f7b86c3841a92b3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 004/106] fix: make floating comparisons with NaN unordered

---
 src/assembler/instructions.h   |   2 +
 src/codegen/binary_operators.h | 113 +++++++++++++++++++++++----------
 src/codegen/codegen.c          |   4 +-
 3 files changed, 82 insertions(+), 37 deletions(-)

diff --git a/src/assembler/instructions.h b/src/assembler/instructions.h
index 3e96129..1b58709 100644
--- a/src/assembler/instructions.h
+++ b/src/assembler/instructions.h
@@ -205,6 +205,8 @@ struct encoding encodings[] = {
 	{"setl", 0x0f, .op2 = 0x9c, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setle", 0x0f, .op2 = 0x9e, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setnb", 0x0f, .op2 = 0x93, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setp", 0x0f, .op2 = 0x9a, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setnp", 0x0f, .op2 = 0x9b, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setne", 0x0f, .op2 = 0x95, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	
 	{"salq", 0xd3, .rex = 1, .rexw = 1, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(8), A_RCX(1)}},
diff --git a/src/codegen/binary_operators.h b/src/codegen/binary_operators.h
index d350bf6..8382432 100644
--- a/src/codegen/binary_operators.h
+++ b/src/codegen/binary_operators.h
@@ -54,70 +54,113 @@
 		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
 	}
 
+// If any operand is NaN, ucomisd sets all of ZF, PF and CF. Therefore "less
+// than" is done as "greater than" with swapped operands, and equality
+// additionally has to look at PF.
+#define BINARY_COMP_FLT_SWAP_32(MNEMONIC) {			\
+		{"movd", {R4_(REG_RAX), XMM_(1)}},		\
+		{"movd", {R4_(REG_RCX), XMM_(0)}},		\
+		{"xorq", {R8_(REG_RAX), R8_(REG_RAX)}},	\
+		{"ucomiss", {XMM_(1), XMM_(0)}},		\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+	}
+
+#define BINARY_COMP_FLT_SWAP_64(MNEMONIC) {			\
+		{"movq", {R8_(REG_RAX), XMM_(1)}},		\
+		{"movq", {R8_(REG_RCX), XMM_(0)}},		\
+		{"xorq", {R8_(REG_RAX), R8_(REG_RAX)}},	\
+		{"ucomisd", {XMM_(1), XMM_(0)}},		\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+	}
+
+#define BINARY_EQUALITY_FLT_32(MNEMONIC, MNEMONIC_PARITY, COMBINE) {	\
+		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
+		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
+		{"ucomiss", {XMM_(1), XMM_(0)}},		\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{MNEMONIC_PARITY, {R1_(REG_RCX)}},		\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+		{"movzbl", {R1_(REG_RCX), R4_(REG_RCX)}},	\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
+	}
+
+#define BINARY_EQUALITY_FLT_64(MNEMONIC, MNEMONIC_PARITY, COMBINE) {	\
+		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
+		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
+		{"ucomisd", {XMM_(1), XMM_(0)}},		\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{MNEMONIC_PARITY, {R1_(REG_RCX)}},		\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+		{"movzbl", {R1_(REG_RCX), R4_(REG_RCX)}},	\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
+	}
+
 #define BINARY_INS(M32, M64) BINARY_INS_32(M32), BINARY_INS_64(M64)
 #define BINARY_COMP(M) BINARY_COMP_32(M), BINARY_COMP_64(M)
 #define BINARY_INS_FLT(M32, M64) BINARY_INS_FLT_32(M32), BINARY_INS_FLT_64(M64)
 #define BINARY_COMP_FLT(M) BINARY_COMP_FLT_32(M), BINARY_COMP_FLT_64(M)
+#define BINARY_COMP_FLT_SWAP(M) BINARY_COMP_FLT_SWAP_32(M), BINARY_COMP_FLT_SWAP_64(M)
+#define BINARY_EQUALITY_FLT(M, MP, C) BINARY_EQUALITY_FLT_32(M, MP, C), BINARY_EQUALITY_FLT_64(M, MP, C)
 
-static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][5] = {
-	[IR_ADD] = &(struct asm_instruction [2][5]) {BINARY_INS("addl", "addq")},
-	[IR_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS("subl", "subq") },
-	[IR_IMUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_BXOR] = &(struct asm_instruction [2][5]) { BINARY_INS("xorl", "xorq") },
-	[IR_BOR] = &(struct asm_instruction [2][5]) { BINARY_INS("orl", "orq") },
-	[IR_BAND] = &(struct asm_instruction [2][5]) { BINARY_INS("andl", "andq") },
-	[IR_IDIV] = &(struct asm_instruction [2][5]) {
+static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][8] = {
+	[IR_ADD] = &(struct asm_instruction [2][8]) {BINARY_INS("addl", "addq")},
+	[IR_SUB] = &(struct asm_instruction [2][8]) { BINARY_INS("subl", "subq") },
+	[IR_IMUL] = &(struct asm_instruction [2][8]) { BINARY_INS("imull", "imulq") },
+	[IR_MUL] = &(struct asm_instruction [2][8]) { BINARY_INS("imull", "imulq") },
+	[IR_BXOR] = &(struct asm_instruction [2][8]) { BINARY_INS("xorl", "xorq") },
+	[IR_BOR] = &(struct asm_instruction [2][8]) { BINARY_INS("orl", "orq") },
+	[IR_BAND] = &(struct asm_instruction [2][8]) { BINARY_INS("andl", "andq") },
+	[IR_IDIV] = &(struct asm_instruction [2][8]) {
 		{{"cltd", { { 0 } }}, {"idivl", {R4_(REG_RCX)}}},
 		{{"cqto", { { 0 } }}, {"idivq", {R8_(REG_RCX)}}},
 	},
-	[IR_IMOD] = &(struct asm_instruction [2][5]) {
+	[IR_IMOD] = &(struct asm_instruction [2][8]) {
 		{{"cltd", { { 0 } }},
 		 {"idivl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"cqto", { { 0 } }},
 		 {"idivq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
-	[IR_LSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_LSHIFT] = &(struct asm_instruction [2][8]) {
 		{{"sall", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"salq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IRSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_IRSHIFT] = &(struct asm_instruction [2][8]) {
 		{{"sarl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"sarq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_RSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_RSHIFT] = &(struct asm_instruction [2][8]) {
 		{{"shrl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"shrq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IGREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("setg") },
-	[IR_ILESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setle") },
-	[IR_ILESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setl") },
-	[IR_IGREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setge") },
-	[IR_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("sete") },
-	[IR_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("setne") },
-	[IR_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setb") },
-	[IR_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("seta") },
-	[IR_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setbe") },
-	[IR_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setnb") },
-	[IR_DIV] = &(struct asm_instruction [2][5]) {
+	[IR_IGREATER] = &(struct asm_instruction [2][8]) { BINARY_COMP("setg") },
+	[IR_ILESS_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setle") },
+	[IR_ILESS] = &(struct asm_instruction [2][8]) { BINARY_COMP("setl") },
+	[IR_IGREATER_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setge") },
+	[IR_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_COMP("sete") },
+	[IR_NOT_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_COMP("setne") },
+	[IR_LESS] = &(struct asm_instruction [2][8]) { BINARY_COMP("setb") },
+	[IR_GREATER] = &(struct asm_instruction [2][8]) { BINARY_COMP("seta") },
+	[IR_LESS_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setbe") },
+	[IR_GREATER_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setnb") },
+	[IR_DIV] = &(struct asm_instruction [2][8]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}},
 	},
-	[IR_MOD] = &(struct asm_instruction [2][5]) {
+	[IR_MOD] = &(struct asm_instruction [2][8]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
 
-	[IR_FLT_ADD] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("addss", "addsd") },
-	[IR_FLT_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("subss", "subsd") },
-	[IR_FLT_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("mulss", "mulsd") },
-	[IR_FLT_DIV] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("divss", "divsd") },
-	[IR_FLT_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setb") },
-	[IR_FLT_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("seta") },
-	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setbe") },
-	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setnb") },
-	[IR_FLT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("sete") },
-	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setne") },
+	[IR_FLT_ADD] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("addss", "addsd") },
+	[IR_FLT_SUB] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("subss", "subsd") },
+	[IR_FLT_MUL] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("mulss", "mulsd") },
+	[IR_FLT_DIV] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("divss", "divsd") },
+	[IR_FLT_LESS] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT_SWAP("seta") },
+	[IR_FLT_GREATER] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT("seta") },
+	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT_SWAP("setnb") },
+	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT("setnb") },
+	[IR_FLT_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_EQUALITY_FLT("sete", "setnp", "andl") },
+	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_EQUALITY_FLT("setne", "setp", "orl") },
 };
 
 #endif
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 2f30007..5e4a1ff 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -202,7 +202,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	const char *ins_str = dbg_instruction(ins);
 	asm_comment("instruction start \"%s\":", ins_str);
 
-	struct asm_instruction (*asm_entry)[2][5] = codegen_asm_table[ins->type];
+	struct asm_instruction (*asm_entry)[2][8] = codegen_asm_table[ins->type];
 	if (asm_entry) {
 		struct node *output = ins;
 		if (ins->type == IR_DIV ||
@@ -219,7 +219,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 
 		struct asm_instruction *asms = (*asm_entry)[size == 8];
 
-		for (int i = 0; i < 5 && asms[i].mnemonic; i++)
+		for (int i = 0; i < 8 && asms[i].mnemonic; i++)
 			asm_ins(&asms[i]);
 
 		reg_to_scalar(REG_RAX, output);
-- 
2.43.0


From d69d82bded097f9180a8e12d554a40c819382991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 005/106] fix: sign extend to 64 bits before converting small
 integers to floating

---
 src/codegen/codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 5e4a1ff..8caec02 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -361,9 +361,9 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int size_rhs = ins->arguments[0]->size,
 			size_result = ins->size;
 		if (size_rhs == 1) {
-			asm_ins2("movsbl", R1(REG_RAX), R4(REG_RAX));
+			asm_ins2("movsbq", R1(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 2) {
-			asm_ins2("movswl", R2(REG_RAX), R4(REG_RAX));
+			asm_ins2("movswq", R2(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 4) {
 			asm_ins2("movslq", R4(REG_RAX), R8(REG_RAX));
 		}
-- 
2.43.0


From 0d2c28e7bda5b6a6ce8023a6595c8368d3ce4612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 006/106] fix: convert 64 bit unsigned integers to floating as
 unsigned

---
 src/codegen/codegen.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 8caec02..bd5e22b 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -390,11 +390,31 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 			asm_ins2("movzwl", R2(REG_RAX), R4(REG_RAX));
 		}
 
+		if (size_rhs == 8) {
+			// cvtsi2s[sd] is signed. Halve (with the lost bit kept sticky, for
+			// correct rounding) if the top bit is set, and double the result.
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RCX));
+			asm_ins2("shrq", IMM(63), R8(REG_RCX));
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RDX));
+			asm_ins2("andq", R8(REG_RCX), R8(REG_RDX));
+			asm_ins2("shrq", R1(REG_RCX), R8(REG_RAX));
+			asm_ins2("orq", R8(REG_RDX), R8(REG_RAX));
+			asm_ins2("addq", IMM(1), R8(REG_RCX));
+		}
+
 		if (size_result == 4) {
 			asm_ins2("cvtsi2ss", R8(REG_RAX), XMM(0));
+			if (size_rhs == 8) {
+				asm_ins2("cvtsi2ss", R8(REG_RCX), XMM(1));
+				asm_ins2("mulss", XMM(1), XMM(0));
+			}
 			asm_ins2("movd", XMM(0), R4(REG_RAX));
 		} else if (size_result == 8) {
 			asm_ins2("cvtsi2sd", R8(REG_RAX), XMM(0));
+			if (size_rhs == 8) {
+				asm_ins2("cvtsi2sd", R8(REG_RCX), XMM(1));
+				asm_ins2("mulsd", XMM(1), XMM(0));
+			}
 			asm_ins2("movq", XMM(0), R8(REG_RAX));
 		} else {
 			NOTIMP();
-- 
2.43.0


From 75e7721124a2c5491057a2fdf8e7fe8f554cf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 007/106] fix: compare conditions with zero in their own type

---
 src/parser/expression_to_ir.c | 24 +++++++++++++++++++++++-
 src/parser/expression_to_ir.h |  1 +
 src/parser/function_parser.c  |  8 ++++----
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index dbbb5f3..f690b7e 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -133,6 +133,11 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 		return operand_var;
 
 	if (type_is_simple(resulting_type, ST_BOOL)) {
+		if (type_is_floating(operand_type)) {
+			// -0.0 has non-zero bits, but is equal to zero.
+			struct node *zero = ir_constant(constant_cast(constant_simple_signed(ST_INT, 0), type_simple(operand_type->simple)));
+			operand_var = ir_binary_op(IR_FLT_NOT_EQUAL, operand_var, zero);
+		}
 		res = ir_bool_cast(operand_var);
 	} else if ((type_is_integer(resulting_type) || type_is_pointer(resulting_type)) &&
 			   (type_is_integer(operand_type) || type_is_pointer(operand_type))) {
@@ -205,6 +210,15 @@ static void assign_ee_to_ee(struct evaluated_expression *lhs, struct evaluated_e
 	}
 }
 
+static struct node *evaluated_expression_to_condition(struct evaluated_expression *condition) {
+	if (type_is_floating(condition->data_type)) {
+		struct evaluated_expression bool_ = evaluated_expression_cast(condition, type_simple(ST_BOOL));
+		return evaluated_expression_to_var(&bool_);
+	}
+
+	return evaluated_expression_to_var(condition);
+}
+
 // The following functions are called in expression_evaluate.
 static struct evaluated_expression evaluate_indirection(struct expr *expr) {
 	struct evaluated_expression rhs = expression_evaluate(expr->args[0]);
@@ -540,7 +554,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 
 static struct evaluated_expression evaluate_conditional(struct expr *expr) {
 	struct evaluated_expression condition = expression_evaluate(expr->args[0]);
-	struct node *condition_var = evaluated_expression_to_var(&condition);
+	struct node *condition_var = evaluated_expression_to_condition(&condition);
 
 	int is_void = type_is_simple(expr->data_type, ST_VOID);
 
@@ -736,6 +750,14 @@ struct node *expression_to_ir(struct expr *expr) {
 	return evaluated_expression_to_var(&ee);
 }
 
+struct node *expression_to_condition(struct expr *expr) {
+	if (!type_is_arithmetic(expr->data_type)) // Arrays and functions decay.
+		expr = expression_cast(expr, type_pointer(type_simple(ST_VOID)));
+
+	struct evaluated_expression ee = expression_evaluate(expr);
+	return evaluated_expression_to_condition(&ee);
+}
+
 struct node *expression_to_ir_clear_temp(struct expr *expr) {
 	struct node *res = expression_to_ir(expr);
 	return res;
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index f8ed441..80d77bc 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -6,6 +6,7 @@
 #include <ir/ir.h>
 
 struct node *expression_to_ir(struct expr *expr);
+struct node *expression_to_condition(struct expr *expr);
 struct node *expression_to_ir_clear_temp(struct expr *expr);
 
 struct node *expression_to_size_t(struct expr *expr);
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8ae4da8..d96d545 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -195,7 +195,7 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 		if(!expr)
 			ERROR(T0->pos, "Expected expression in if condition");
 
-		struct node *condition = expression_to_ir(expr);
+		struct node *condition = expression_to_condition(expr);
 
 		TEXPECT(T_RPAR);
 		struct node *block_true, *block_false;
@@ -257,7 +257,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	if (!control_expression)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	TEXPECT(T_RPAR);
 
@@ -301,7 +301,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_RPAR);
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	struct node *block_true, *block_false;
 	ir_if_selection(control_variable, &block_true, &block_false);
@@ -368,7 +368,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	struct expr *condition = parse_expression();
 	if (condition) {
-		struct node *condition_variable = expression_to_int(condition);
+		struct node *condition_variable = expression_to_condition(condition);
 
 		struct node *block_true, *block_false;
 		ir_if_selection(condition_variable, &block_true, &block_false);
-- 
2.43.0


From 5219ce1346e21d1fce61e273005174bbdfe07e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 008/106] fix: convert floating values above 2^63 to unsigned
 64 bit integers

---
 src/parser/expression_to_ir.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index f690b7e..3238149 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -149,6 +149,17 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 		res = ir_cast_float(operand_var, calculate_size(resulting_type));
 	} else if(type_is_floating(resulting_type) && type_is_integer(operand_type)) {
 		res = ir_cast_int_to_float(operand_var, calculate_size(resulting_type), is_signed(operand_type->simple));
+	} else if(type_is_integer(resulting_type) && type_is_floating(operand_type) &&
+			  calculate_size(resulting_type) == 8 && !is_signed(resulting_type->simple)) {
+		// The float to int cast is signed, so a value of at least 2^63 has to be lowered by 2^63 first.
+		// It is then the top bit, set by the out-of-range cast, that tells which result to use.
+		struct constant limit = type_is_simple(operand_type, ST_FLOAT) ?
+			(struct constant) { .type = CONSTANT_TYPE, .data_type = operand_type, .float_d = 9223372036854775808.0f } :
+			(struct constant) { .type = CONSTANT_TYPE, .data_type = operand_type, .double_d = 9223372036854775808.0 };
+		struct node *low = ir_cast_float_to_int(operand_var, 8);
+		struct node *high = ir_cast_float_to_int(ir_binary_op(IR_FLT_SUB, operand_var, ir_constant(limit)), 8);
+		struct node *mask = ir_binary_op(IR_IRSHIFT, low, ir_constant(constant_simple_signed(ST_INT, 63)));
+		res = ir_binary_op(IR_BOR, low, ir_binary_op(IR_BAND, high, mask));
 	} else if(type_is_integer(resulting_type) && type_is_floating(operand_type)) {
 		res = ir_cast_float_to_int(operand_var, calculate_size(resulting_type));
 	}
-- 
2.43.0


From a66534035c317e672ea7b89560302a8d8361aa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 009/106] fix: convert constants to _Bool by comparing with
 zero

---
 src/arch/x64.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 3f8f12d..4ce8778 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -507,7 +507,14 @@ static struct constant simple_cast(struct constant from, enum simple_type target
 	if (target == ST_VOID || target == from_type)
 		return from;
 
-	if (from_int && to_int) {
+	if (target == ST_BOOL) {
+		if (from_type == ST_DOUBLE)
+			from.uint_d = from.double_d != 0;
+		else if (from_type == ST_FLOAT)
+			from.uint_d = from.float_d != 0;
+		else
+			from.uint_d = from.uint_d != 0;
+	} else if (from_int && to_int) {
 		struct range r = get_range(target, -1);
 		constant_uint range_min = r.min == -1 ? 0 : (constant_uint)1 << r.min;
 		constant_uint range_max = r.max == -1 ? 0 : (((constant_uint)1 << (r.max - 1)) - 1
-- 
2.43.0


From 85585c015924b36f4022c4ec4a320ba595fb162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 010/106] fix: compare 64 bit switch values in full, and let
 switch labels and continue cross loops and switches

---
 src/parser/expression_to_ir.c |  4 ++--
 src/parser/expression_to_ir.h |  2 +-
 src/parser/function_parser.c  | 29 +++++++++++++++++++++++++----
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 3238149..6b5e948 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -781,9 +781,9 @@ struct node *expression_to_size_t(struct expr *expr) {
 	return res;
 }
 
-struct node *expression_to_int(struct expr *expr) {
+struct node *expression_to_integer(struct expr *expr, struct type *type) {
 	struct evaluated_expression ee = expression_evaluate(expr);
-	ee = evaluated_expression_cast(&ee, type_simple(ST_INT));
+	ee = evaluated_expression_cast(&ee, type);
 	struct node *res = evaluated_expression_to_var(&ee);
 	return res;
 }
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index 80d77bc..02dc8fb 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -10,7 +10,7 @@ struct node *expression_to_condition(struct expr *expr);
 struct node *expression_to_ir_clear_temp(struct expr *expr);
 
 struct node *expression_to_size_t(struct expr *expr);
-struct node *expression_to_int(struct expr *expr);
+struct node *expression_to_integer(struct expr *expr, struct type *type);
 void expression_to_void(struct expr *expr);
 void expression_to_address(struct expr *expr, struct node *address);
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index d96d545..c187ab0 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -20,6 +20,7 @@ struct jump_blocks {
 
 	struct node *block_entry, *block_default;
 	struct node *case_control;
+	struct type *case_type;
 };
 
 static struct function_scope {
@@ -32,6 +33,12 @@ static struct function_scope {
 	} *labels;
 } function_scope;
 
+// Labels in the body of a loop can belong to a switch statement around the loop.
+static void propagate_cases(struct jump_blocks *outer, struct jump_blocks *loop) {
+	outer->block_entry = loop->block_entry;
+	outer->block_default = loop->block_default;
+}
+
 static void add_function_scope_label(struct string_view label, struct node *block, struct node *end_block, int used) {
 	ADD_ELEMENT(function_scope.size, function_scope.cap, function_scope.labels) =
 		(struct function_scope_label) { label, block, end_block, used };
@@ -81,14 +88,15 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!value)
 			ERROR(T0->pos, "Expected expression");
 		TEXPECT(T_COLON);
-		struct constant *constant = expression_to_constant(expression_cast(value, type_simple(ST_INT)));
-		if (!constant)
-			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
 		struct node *case_control = jump_blocks->case_control;
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
+		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->case_type));
+		if (!constant)
+			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -119,6 +127,7 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		jump_blocks->block_default = block_default;
 
 		parse_statement(jump_blocks);
+		return 1;
 	}
 	return 0;
 }
@@ -155,7 +164,12 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	if (!condition)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *case_control = expression_to_int(condition);
+	// Comparisons are done in the promoted type, it is only its size that matters.
+	struct type *case_type = condition->data_type;
+	if (!type_is_integer(case_type) || calculate_size(case_type) < 8)
+		case_type = type_simple(ST_INT);
+
+	struct node *case_control = expression_to_integer(condition, case_type);
 
 	TEXPECT(T_RPAR);
 
@@ -171,6 +185,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_entry = block_entry;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.case_control = case_control;
+	new_jump_blocks.case_type = case_type;
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
@@ -181,6 +196,9 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	else
 		ir_connect(new_jump_blocks.block_entry, new_jump_blocks.block_break);
 
+	// A continue in the body belongs to the enclosing loop.
+	jump_blocks->block_continue = new_jump_blocks.block_continue;
+
 	ir_goto(block_end);
 
 	ir_block_start(block_end);
@@ -246,6 +264,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	propagate_cases(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
 	ir_block_start(block_control);
@@ -315,6 +334,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	propagate_cases(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
 
@@ -395,6 +415,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
 	parse_statement(&new_jump_blocks);
+	propagate_cases(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
 	ir_block_start(block_end);
-- 
2.43.0


From 627648056412a06b89424e882fc7e02f392a910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 011/106] fix: test floating constants for zero in their own
 representation

---
 src/parser/expression.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 03209ad..be19d7f 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1107,9 +1107,9 @@ int constant_is_zero(struct constant *c) {
 		return 0;
 
 	if (type_is_simple(c->data_type, ST_FLOAT)) {
-		return c->double_d == 0;
-	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
 		return c->float_d == 0;
+	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
+		return c->double_d == 0;
 	} else if (type_is_integer(c->data_type) && is_signed(c->data_type->simple)) {
 		return c->int_d == 0;
 	} else if (type_is_integer(c->data_type) && !is_signed(c->data_type->simple)) {
-- 
2.43.0


From d6dcee45f72b0729112fd1c73d0904d4d3a84f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 012/106] fix: don't crash on constant divisions by zero

---
 src/ir/operators.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ir/operators.c b/src/ir/operators.c
index 2af7aa7..5e1be06 100644
--- a/src/ir/operators.c
+++ b/src/ir/operators.c
@@ -90,8 +90,14 @@ int operators_constant(enum operator_type op,
 		}
 	} else if (type_is_integer(type) && is_signed(st)) {
 		// Overflow is undefined, so we can just ignore truncation completely.
-		if ((op == OP_DIV || op == OP_DIV) && rhs.int_d == 0)
-			return 0;
+		if ((op == OP_DIV || op == OP_MOD) && (rhs.int_d == 0 || rhs.int_d == -1)) {
+			// Division by zero isn't constant, and by -1 it could overflow.
+			if (rhs.int_d == 0)
+				return 0;
+			res.int_d = op == OP_DIV ? (constant_int)(0 - (constant_uint)lhs.int_d) : 0;
+			*result = res;
+			return 1;
+		}
 
 		switch (op) {
 		case OP_ADD: res.int_d = lhs.int_d + rhs.int_d; break;
@@ -113,6 +119,9 @@ int operators_constant(enum operator_type op,
 		default: NOTIMP();
 		}
 	} else if (type_is_integer(type) && !is_signed(st)) {
+		if ((op == OP_DIV || op == OP_MOD) && rhs.uint_d == 0)
+			return 0;
+
 		int sign = 0;
 		switch (op) {
 		case OP_ADD: res.uint_d = lhs.uint_d + rhs.uint_d; break;
-- 
2.43.0


From 134404a5804ec99bd516f3e540481e77524772a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 013/106] fix: fold address constants with any integer index or
 in conditionals

---
 src/parser/expression.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index be19d7f..1bed7fe 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -942,7 +942,7 @@ int evaluate_constant_expression(struct expr *expr,
 			return 0;
 
 		if (lhs.type == CONSTANT_LABEL_POINTER &&
-			type_is_simple(rhs.data_type, ST_INT) &&
+			type_is_integer(rhs.data_type) &&
 			rhs.type == CONSTANT_TYPE) {
 			*constant = lhs;
 			int size = calculate_size(type_deref(lhs.data_type));
@@ -1027,8 +1027,8 @@ int evaluate_constant_expression(struct expr *expr,
 			return 0;
 
 		if (lhs.type != CONSTANT_TYPE ||
-			mid.type != CONSTANT_TYPE ||
-			rhs.type != CONSTANT_TYPE)
+			mid.type == CONSTANT_LABEL ||
+			rhs.type == CONSTANT_LABEL)
 			return 0;
 
 		if (constant_is_zero(&lhs)) {
-- 
2.43.0


From 78cd432704e79b0ed676f15ac69e4c8c7e44d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 014/106] fix: reject static initializers that aren't constant

---
 src/codegen/rodata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 3d39193..a57b319 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -142,6 +142,8 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 										  -1, -1,
 										  buffer, labels, label_offsets,
 										  is_label);
+		} else {
+			ERROR(init->expr->pos, "Initializer is not constant.");
 		}
 	} break;
 	case INIT_BRACE:
-- 
2.43.0


From 7de0b0db0e8130f7e75bcb1e9c6f869ca1c35a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 015/106] fix: release the stack space of arguments after a
 call

---
 src/codegen/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index bd5e22b..cf9a4a2 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -260,7 +260,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int change = codegen_call_stack_chain(ins->arguments[3]);
 		codegen_set_reg_chain(ins->arguments[2]);
 		codegen_call(ins->arguments[0], ins->call.non_clobbered_register);
-		asm_ins2("addq", IMM(change), R8(REG_RSP));
+		asm_ins2("addq", IMM(-change), R8(REG_RSP));
 		struct node *reg_source = ins->projects[1];
 		if (reg_source)
 			codegen_get_reg_uses(reg_source);
-- 
2.43.0


From 875a7ab210a6f5181259adf0ad25f1db42ca7989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 016/106] fix: make room for both general purpose and SSE
 argument registers

---
 src/abi/sysv.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 9290a59..edc80ee 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -13,6 +13,9 @@
 static const int calling_convention[] = { REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9 };
 static const int return_convention[] = { REG_RAX, REG_RDX };
 
+// 6 general purpose and 8 SSE registers.
+#define MAX_ARG_REGS 14
+
 static struct struct_data *builtin_va_list = NULL;
 
 struct sysv_data {
@@ -196,7 +199,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
 	struct node *arg_addresses[128];
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_ARG_REGS];
 	struct node *ret_reg_variables[sizeof return_convention / sizeof *return_convention];
 	struct type *callee_type = type_deref(callee->data_type);
 	struct type *return_type = callee_type->children[0];
@@ -291,7 +294,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 
 static void sysv_expr_function(struct node *func, struct type *type, struct symbol_identifier **args) {
 	int n_args = type->n - 1;
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_ARG_REGS];
 
 	struct sysv_data abi_data = { 0 };
 
-- 
2.43.0


From 41b68a785b98b082b6aea5bbf885581c1c48c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 017/106] fix: classify each eightbyte of a struct by the
 fields in it

---
 src/arch/calling.c | 75 ++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 43 deletions(-)

diff --git a/src/arch/calling.c b/src/arch/calling.c
index 41742ae..81de480 100644
--- a/src/arch/calling.c
+++ b/src/arch/calling.c
@@ -46,44 +46,40 @@ static enum parameter_class combine_class(enum parameter_class a, enum parameter
 	return CLASS_SSE;
 }
 
-static void classify_recursively(enum parameter_class *current,
-								 struct type *type, int lower, int upper) {
+// Sets the class of each eightbyte that type, at offset, is part of.
+static void classify_recursively(enum parameter_class *classes,
+								 struct type *type, int offset) {
+	enum parameter_class class;
+	if (classify_non_recursive(type, &class)) {
+		// Objects with unaligned fields have class memory.
+		if (offset % calculate_alignment(type) != 0)
+			class = CLASS_MEMORY;
+		classes[offset / 8] = combine_class(classes[offset / 8], class);
+		return;
+	}
+
 	switch (type->type) {
 	case TY_STRUCT: {
 		struct struct_data *data = type->struct_data;
 		for (int i = 0; i < data->n; i++) {
-			struct type *memb_type = data->fields[i].type;
-			int size = calculate_size(memb_type);
-			int offset = data->fields[i].offset;
-			if (offset + size < lower || offset >= upper)
-				continue;
-
-			enum parameter_class memb_class;
-			if (classify_non_recursive(memb_type, &memb_class)) {
-				*current = combine_class(*current, memb_class);
-			} else {
-				classify_recursively(current, memb_type, lower - offset, upper - offset);
+			struct field *field = data->fields + i;
+
+			if (field->bitfield == -1) {
+				classify_recursively(classes, field->type, offset + field->offset);
+			} else if (field->bitfield != 0) {
+				int first = (offset + field->offset) * 8 + field->bit_offset;
+				int last = first + field->bitfield - 1;
+				for (int j = first / 64; j <= last / 64; j++)
+					classes[j] = combine_class(classes[j], CLASS_INTEGER);
 			}
 		}
 	} break;
 
-	case TY_ARRAY: {
-		for (size_t i = 0; i < type->array.length; i++) {
-			struct type *memb_type = type->children[0];
-			int size = calculate_size(memb_type);
-			int offset = size * i;
-
-			if (offset + size < lower || offset >= upper)
-				continue;
-
-			enum parameter_class memb_class;
-			if (classify_non_recursive(memb_type, &memb_class)) {
-				*current = combine_class(*current, memb_class);
-			} else {
-				classify_recursively(current, memb_type, lower - offset, upper - offset);
-			}
-		}
-	} break;
+	case TY_ARRAY:
+		for (size_t i = 0; i < type->array.length; i++)
+			classify_recursively(classes, type->children[0],
+								 offset + calculate_size(type->children[0]) * i);
+		break;
 
 	case TY_INCOMPLETE_ARRAY: {
 		// This is for cases like struct { int arr[]; }.
@@ -101,17 +97,17 @@ void classify(struct type *type, int *n_parts, enum parameter_class *classes) {
 	} else if (type->type == TY_STRUCT) {
 		int size = calculate_size(type);
 
-		// post cleanup:
-
-		if (size > 4 * 8) {
+		// Larger objects could only be passed in registers if they
+		// consisted of a single vector, which isn't supported.
+		if (size > 2 * 8) {
 			*n_parts = 1;
 			classes[0] = CLASS_MEMORY;
 		} else {
 			*n_parts = round_up_to_nearest(size, 8) / 8;
-			for (int i = 0; i < *n_parts; i++) {
+			for (int i = 0; i < *n_parts; i++)
 				classes[i] = CLASS_NO_CLASS;
-				classify_recursively(&classes[i], type, i * 8, (i + 1) * 8);
-			}
+
+			classify_recursively(classes, type, 0);
 
 			int should_be_mem = 0;
 			for (int i = 0; i < *n_parts; i++) {
@@ -122,13 +118,6 @@ void classify(struct type *type, int *n_parts, enum parameter_class *classes) {
 					should_be_mem = 1;
 			}
 
-			if (*n_parts > 2) {
-				if (classes[0] != CLASS_SSE)
-					should_be_mem = 1;
-				// TODO: Is more to this, but I couldn't really follow the logic
-				// in the ABI. 3.2.3 Post merger cleanum part (c).
-			}
-
 			if (should_be_mem) {
 				*n_parts = 1;
 				classes[0] = CLASS_MEMORY;
-- 
2.43.0


From cb2fe71ca4195ffa556fcb7d2f3ffe3d78a8f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 018/106] fix: return structs in any combination of registers,
 and their address in rax

---
 src/abi/sysv.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index edc80ee..2c89a69 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -190,9 +190,9 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	};
 }
 
-static void split_variable(struct node *variable_address, int n_parts, struct node *parts[n_parts]) {
+static void split_variable(struct node *variable_address, int size, int n_parts, struct node *parts[n_parts]) {
 	for (int i = 0; i < n_parts; i++)
-		parts[i] = ir_load_part_address(variable_address, i * 8, 8);
+		parts[i] = ir_load_part_address(variable_address, i * 8, MIN(size - i * 8, 8));
 }
 
 static struct evaluated_expression sysv_expr_call(struct evaluated_expression *callee,
@@ -275,7 +275,8 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 			.variable = variable,
 		};
 	} else if (c.ret_regs_size == 2) {
-		struct node *address = ir_allocate(calculate_size(return_type), 0);
+		// Both parts are stored in full.
+		struct node *address = ir_allocate(16, 0);
 		ir_store_part_address(address, ret_reg_variables[0], 0);
 		ir_store_part_address(address, ret_reg_variables[1], 8);
 		result = (struct evaluated_expression) {
@@ -380,16 +381,22 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	if (n_parts == 1 && classes[0] == CLASS_MEMORY) {
 		struct node *value_address = evaluated_expression_to_address(value);
 		ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
+		*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, return_convention[0], 0);
 	} else if (n_parts == 1 && classes[0] == CLASS_INTEGER) {
 		struct node *value_var = evaluated_expression_to_var(value);
 		*reg_state = ir_set_reg(value_var, *reg_state, return_convention[0], 0);
-	} else if (n_parts == 2 && classes[0] == CLASS_INTEGER) {
+	} else if (n_parts == 2) {
 		struct node *value_address = evaluated_expression_to_address(value);
 		struct node *parts[2];
-		split_variable(value_address, 2, parts);
-		
-		*reg_state = ir_set_reg(parts[0], *reg_state, return_convention[0], 0);
-		*reg_state = ir_set_reg(parts[1], *reg_state, return_convention[1], 0);
+		split_variable(value_address, calculate_size(value->data_type), 2, parts);
+
+		int gp_idx = 0, sse_idx = 0;
+		for (int i = 0; i < 2; i++) {
+			if (classes[i] == CLASS_SSE)
+				*reg_state = ir_set_reg(parts[i], *reg_state, sse_idx++, 1);
+			else
+				*reg_state = ir_set_reg(parts[i], *reg_state, return_convention[gp_idx++], 0);
+		}
 	} else if (n_parts == 1 && classes[0] == CLASS_SSE) {
 		struct node *value_var = evaluated_expression_to_var(value);
 		*reg_state = ir_set_reg(value_var, *reg_state, 0, 1);
-- 
2.43.0


From f3b37ab709b5f7b32e2d126b25e5b1058e283db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 019/106] fix: support floating point variable arguments

---
 src/abi/sysv.c | 66 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 2c89a69..22e8808 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -51,7 +51,7 @@ struct call_info {
 	int returns_address;
 	int ret_address_index;
 
-	int gp_offset;
+	int gp_offset, fp_offset;
 
 	int rax;
 
@@ -167,7 +167,9 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 		}
 	}
 
+	// The SSE registers are saved after the general purpose ones.
 	gp_offset = current_gp_reg * 8;
+	int fp_offset = max_gp_reg * 8 + current_sse_reg * 16;
 
 	return (struct call_info) {
 		.regs_size = regs_size,
@@ -183,6 +185,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 		.ret_address_index = ret_address_index,
 
 		.gp_offset = gp_offset,
+		.fp_offset = fp_offset,
 
 		.rax = current_sse_reg,
 
@@ -361,6 +364,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
         // Sized according to Figure 3.33 in sysV AMD64 ABI:
 		ir_allocate_preamble(304);
 		abi_data.gp_offset = c.gp_offset;
+		abi_data.fp_offset = c.fp_offset;
 		abi_data.overflow_position = total_mem_needed + 16;
 	}
 
@@ -421,6 +425,8 @@ static void sysv_emit_function_preamble(struct node *func) {
 	asm_ins2("movq", R8(REG_RCX), MEM(24 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R8), MEM(32 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R9), MEM(40 - position, REG_RBP));
+	for (int i = 0; i < 8; i++)
+		asm_ins2("movsd", XMM(i), MEM(48 + i * 16 - position, REG_RBP));
 }
 
 static void sysv_emit_va_start(struct node *result, struct node *func) {
@@ -431,7 +437,7 @@ static void sysv_emit_va_start(struct node *result, struct node *func) {
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	scalar_to_reg(result, REG_RAX);
 	asm_ins2("movl", IMM(abi_data->gp_offset), MEM(gp_offset_offset, REG_RAX));
-	asm_ins2("movl", IMM(0), MEM(fp_offset_offset, REG_RAX));
+	asm_ins2("movl", IMM(abi_data->fp_offset), MEM(fp_offset_offset, REG_RAX));
 	asm_ins2("leaq", MEM(abi_data->overflow_position, REG_RBP), R8(REG_RDI));
 	asm_ins2("movq", R8(REG_RDI), MEM(overflow_arg_area_offset, REG_RAX));
 
@@ -446,21 +452,24 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 	classify(type, &n_parts, classes);
 
 	int gp_offset_offset = builtin_va_list->fields[0].offset;
+	int fp_offset_offset = builtin_va_list->fields[1].offset;
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	int overflow_arg_area_offset = builtin_va_list->fields[2].offset;
 	// 1. Determine whether type may be passed in the registers. If not go to step 7
-	scalar_to_reg(va_list, REG_RDI);
+	scalar_to_reg(va_list, REG_RDX);
 
 	label_id stack_label = register_label(),
-		fetch_label = register_label();
+		end_label = register_label();
 	if (classes[0] != CLASS_MEMORY) {
 		// 2. Compute num_gp to hold the number of general purpose registers needed
 		// to pass type and num_fp to hold the number of floating point registers needed.
 
-		int num_gp = 0;
+		int num_gp = 0, num_fp = 0;
 		for (int i = 0; i < n_parts; i++) {
 			if (classes[i] == CLASS_INTEGER)
 				num_gp++;
+			else if (classes[i] == CLASS_SSE)
+				num_fp++;
 			else
 				NOTIMP();
 		}
@@ -468,12 +477,20 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		// 3. Verify whether arguments fit into registers. In the case:
 		//     l->gp_offset > 48 − num_gp ∗ 8
 		// or
-		//     l->fp_offset > 304 − num_fp ∗ 16
+		//     l->fp_offset > 176 − num_fp ∗ 16
 		// go to step 7.
 
-		asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
-		asm_ins2("cmpl", IMM(48 - 8 * num_gp), R4(REG_RAX));
-		asm_ins1("ja", IMML_ABS(stack_label, 0));
+		if (num_gp) {
+			asm_ins2("movl", MEM(gp_offset_offset, REG_RDX), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(48 - 8 * num_gp), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
+
+		if (num_fp) {
+			asm_ins2("movl", MEM(fp_offset_offset, REG_RDX), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(176 - 16 * num_fp), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
 
 		// 4. Fetch type from l->reg_save_area with an offset of l->gp_offset
 		// and/or l->fp_offset. This may require copying to a temporary loca-
@@ -486,10 +503,20 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		// l->fp_offset = l->fp_offset + num_fp ∗ 16.
 		// 6. Return the fetched type.
 
-		asm_ins2("leal", MEM(num_gp * 8, REG_RAX), R4(REG_RDX));
-		asm_ins2("addq", MEM(reg_save_area_offset, REG_RDI), R8(REG_RAX));
-		asm_ins2("movl", R4(REG_RDX), MEM(gp_offset_offset, REG_RDI));
-		asm_ins1("jmp", IMML_ABS(fetch_label, 0));
+		for (int i = 0; i < n_parts; i++) {
+			int offset_offset = classes[i] == CLASS_SSE ? fp_offset_offset : gp_offset_offset;
+
+			asm_ins2("movl", MEM(offset_offset, REG_RDX), R4(REG_RAX));
+			asm_ins2("leal", MEM(classes[i] == CLASS_SSE ? 16 : 8, REG_RAX), R4(REG_RCX));
+			asm_ins2("movl", R4(REG_RCX), MEM(offset_offset, REG_RDX));
+			asm_ins2("addq", MEM(reg_save_area_offset, REG_RDX), R8(REG_RAX));
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RDI));
+			scalar_to_reg(address, REG_RSI);
+			asm_ins2("leaq", MEM(i * 8, REG_RSI), R8(REG_RSI));
+			codegen_memcpy(MIN(calculate_size(type) - i * 8, 8));
+		}
+
+		asm_ins1("jmp", IMML_ABS(end_label, 0));
 	}
 	// 7. Align l->overflow_arg_area upwards to a 16 byte boundary if align-
 	//ment needed by type exceeds 8 byte boundary. [This is ignored.]
@@ -497,22 +524,19 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 
 	// 8. Fetch type from l->overflow_arg_area.
 
-	asm_ins2("movq", MEM(overflow_arg_area_offset, REG_RDI), R8(REG_RAX));
+	asm_ins2("movq", MEM(overflow_arg_area_offset, REG_RDX), R8(REG_RDI));
 
 	// 9. Set l->overflow_arg_area to:
 	// l->overflow_arg_area + sizeof(type)
 	// 10. Align l->overflow_arg_area upwards to an 8 byte boundary.
-	asm_ins2("leaq", MEM(round_up_to_nearest(calculate_size(type), 8), REG_RAX), R8(REG_RDX));
-	asm_ins2("movq", R8(REG_RDX), MEM(overflow_arg_area_offset, REG_RDI));
+	asm_ins2("leaq", MEM(round_up_to_nearest(calculate_size(type), 8), REG_RDI), R8(REG_RAX));
+	asm_ins2("movq", R8(REG_RAX), MEM(overflow_arg_area_offset, REG_RDX));
 
 	// 11. Return the fetched type.
-	asm_label(0, fetch_label);
-
-	// Address is now in %%rax.
-	asm_ins2("movq", R8(REG_RAX), R8(REG_RDI));
 	scalar_to_reg(address, REG_RSI);
-
 	codegen_memcpy(calculate_size(type));
+
+	asm_label(0, end_label);
 }
 
 static int sysv_sizeof_simple(enum simple_type type) {
-- 
2.43.0


From 46c99df0b99a9670f4f2c844baa583804297b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 020/106] fix: don't look for unreachable blocks in the
 dominator tree

---
 src/ir/global_code_motion.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ir/global_code_motion.c b/src/ir/global_code_motion.c
index 5244ca2..baeacbc 100644
--- a/src/ir/global_code_motion.c
+++ b/src/ir/global_code_motion.c
@@ -45,10 +45,11 @@ static void schedule_user_late(struct node *ins, struct node *y,
 		struct node *block = y->arguments[0];
 		assert(block->type == IR_REGION);
 
-		if (y->arguments[1] == ins)
+		// Unreachable predecessors have no place in the dominator tree.
+		if (y->arguments[1] == ins && block->arguments[0]->block_info.idom)
 			*lca = intersect(*lca, block->arguments[0]);
 
-		if (y->arguments[2] == ins)
+		if (y->arguments[2] == ins && block->arguments[1]->block_info.idom)
 			*lca = intersect(*lca, block->arguments[1]);
 	} else {
 		*lca = intersect(*lca, use);
-- 
2.43.0


From a20e6ebdf9d4467df2bb841f2f656fe61e7b1c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:39 +0000
Subject: [PATCH 021/106] fix: keep the side effects of loops that are never
 left

---
 src/ir/ir.c                |  7 +++++++
 src/optimize/remove_dead.c | 12 +++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index a431ab8..4c42e7e 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -804,6 +804,13 @@ void ir_seal_blocks(void) {
 	for (size_t i = 0; i < seal_size; i++) {
 		seal_block(seals[i]);
 	}
+
+	// A loop that is never left can have side effects as well,
+	// so the state has to be known even where nothing reads it.
+	for (size_t i = 0; i < seal_size; i++) {
+		current_function = seals[i]->parent_function;
+		read_state(seals[i]);
+	}
 }
 
 int node_is_control(struct node *node) {
diff --git a/src/optimize/remove_dead.c b/src/optimize/remove_dead.c
index e6085c0..d2aabd9 100644
--- a/src/optimize/remove_dead.c
+++ b/src/optimize/remove_dead.c
@@ -55,13 +55,23 @@ void optimize_remove_dead(void) {
 			recurse_mark_reachable(node->projects[0]);
 	}
 
+	// The side effects in front of a reachable block are useful, even if
+	// the function doesn't return from there.
+	for (unsigned i = 0; i < size; i++) {
+		struct node *node = nodes[i];
+
+		if (node->type == IR_PHI && node->size == 0 && node->arguments[0] &&
+			node->arguments[0]->visited == -1)
+			node->visited = -1;
+	}
+
 	for (unsigned i = 0; i < size; i++) {
 		struct node *node = nodes[i];
 
 		if (node->visited != -1)
 			continue;
 
-		if (node->type == IR_RETURN)
+		if (node->type == IR_RETURN || node->type == IR_PHI)
 			recurse_mark_useful(node);
 		else if (node->type == IR_REGION)
 			recurse_mark_useful(node);
-- 
2.43.0


From 8743f592a5aa958463a725dbc66ec25b4b91189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 022/106] fix: assign the phi nodes of a block at the same time

---
 src/assembler/instructions.h |  1 +
 src/codegen/codegen.c        | 59 +++++++++++++++++++++++++++++-------
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/assembler/instructions.h b/src/assembler/instructions.h
index 1b58709..097b874 100644
--- a/src/assembler/instructions.h
+++ b/src/assembler/instructions.h
@@ -186,6 +186,7 @@ struct encoding encodings[] = {
 	{"movzwl", 0x0f, .op2 = 0xb7, .slash_r = 1, .operand_encoding = {{OE_MODRM_REG, 0}, {OE_MODRM_RM, 0}}, .operand_accepts = {A_REG(4), A_MODRM(2)}},
 	{"movzbl", 0x0f, .op2 = 0xb6, .slash_r = 1, .operand_encoding = {{OE_MODRM_REG, 0}, {OE_MODRM_RM, 0}}, .operand_accepts = {A_REG(4), A_MODRM(1)}},
 
+	{"popq", 0x58, .operand_encoding = {{OE_OPEXT, 0}}, .operand_accepts = {A_REG(8)}},
 	{"pushq", 0x50, .operand_encoding = {{OE_OPEXT, 0}}, .operand_accepts = {A_REG(8)}},
 	{"popq", 0x58, .operand_encoding = {{OE_OPEXT, 0}}, .operand_accepts = {A_REG(8)}},
 
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index cf9a4a2..a677079 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -523,28 +523,47 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	}
 }
 
+static struct node *codegen_phi_source(struct node *phi, struct node *current_block, struct node *next_block) {
+	if (current_block == next_block->arguments[0])
+		return phi->arguments[1];
+
+	if (current_block == next_block->arguments[1])
+		return phi->arguments[2];
+
+	ICE("Phi node in %d reachable from invalid block %d (not %d or %d)",
+		next_block,
+		current_block,
+		next_block->arguments[0], next_block->arguments[1]);
+}
+
 static void codegen_phi_node(struct node *current_block, struct node *next_block) {
 	if (next_block->type != IR_REGION)
 		return;
 
+	// All phi nodes change at the same time. If one of them is the source
+	// of another, all sources have to be read before anything is written.
+	int is_parallel = 0;
+
 	for (unsigned i = 0; i < next_block->use_size; i++) {
 		struct node *ins = next_block->uses[i];
 
 		if (ins->type != IR_PHI || ins->size == 0)
 			continue;
 
-		struct node *source_var;
+		struct node *source_var = codegen_phi_source(ins, current_block, next_block);
 
-		if (current_block == next_block->arguments[0]) {
-			source_var = ins->arguments[1];
-		} else if (current_block == next_block->arguments[1]) {
-			source_var = ins->arguments[2];
-		} else {
-			ICE("Phi node in %d reachable from invalid block %d (not %d or %d)",
-				next_block,
-				current_block,
-				next_block->arguments[0], next_block->arguments[1]);
-		}
+		if (source_var && source_var != ins &&
+			source_var->type == IR_PHI && source_var->arguments[0] == next_block)
+			is_parallel = 1;
+	}
+
+	for (unsigned i = 0; i < next_block->use_size; i++) {
+		struct node *ins = next_block->uses[i];
+
+		if (ins->type != IR_PHI || ins->size == 0)
+			continue;
+
+		struct node *source_var = codegen_phi_source(ins, current_block, next_block);
 
 		if (!source_var)
 			continue;
@@ -555,6 +574,24 @@ static void codegen_phi_node(struct node *current_block, struct node *next_block
 					ins->arguments[2] ? ins->arguments[2]->index : -1
 			);
 		scalar_to_reg(source_var, REG_RAX);
+
+		if (is_parallel)
+			asm_ins1("pushq", R8(REG_RAX));
+		else
+			reg_to_scalar(REG_RAX, ins);
+	}
+
+	if (!is_parallel)
+		return;
+
+	for (unsigned i = next_block->use_size; i-- > 0;) {
+		struct node *ins = next_block->uses[i];
+
+		if (ins->type != IR_PHI || ins->size == 0 ||
+			!codegen_phi_source(ins, current_block, next_block))
+			continue;
+
+		asm_ins1("popq", R8(REG_RAX));
 		reg_to_scalar(REG_RAX, ins);
 	}
 }
-- 
2.43.0


From b65ad8cd6f02f628773a38956fd4f0fa5a4fc6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:10 +0000
Subject: [PATCH 023/106] fix: don't move loads of local variables past later
 stores

---
 src/ir/global_code_motion.c | 5 +++++
 src/ir/ir.c                 | 9 ++++++---
 src/ir/ir.h                 | 4 ++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ir/global_code_motion.c b/src/ir/global_code_motion.c
index baeacbc..0d0ed02 100644
--- a/src/ir/global_code_motion.c
+++ b/src/ir/global_code_motion.c
@@ -112,6 +112,11 @@ void ir_schedule_instructions_to_blocks(void) {
 			node->block = node->arguments[0];
 			break;
 
+		case IR_LOAD:
+			// Must not be moved past a later store.
+			node->block = node->load.block;
+			break;
+
 		default:;
 		}
 	}
diff --git a/src/ir/ir.c b/src/ir/ir.c
index 4c42e7e..91721df 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -438,7 +438,9 @@ void ir_store(struct node *address, struct node *value) {
 
 struct node *ir_load(struct node *address, int size) {
 	if (address->type == IR_ALLOC) {
-		return ir_new2(IR_LOAD, address, get_state(), size);
+		struct node *ins = ir_new2(IR_LOAD, address, get_state(), size);
+		ins->load.block = current_block;
+		return ins;
 	} else {
 		struct node *ins = ir_new2(IR_LOAD_VOLATILE, address, get_state(), 0);
 		set_state(ir_project(ins, 0, 0));
@@ -754,11 +756,12 @@ void ir_local_schedule_recursive(struct node *node, struct node **end, struct no
 	// uses of the state that is consumed.
 
 	struct node *prev_state = node_get_prev_state(node);
-	if (prev_state && prev_state->block && prev_state->block == node->block) {
+	if (prev_state) {
 		for (unsigned i = 0; i < prev_state->use_size; i++) {
 			struct node *use = prev_state->uses[i];
 
-			ir_local_schedule_recursive(use, end, first);
+			if (use->block == node->block)
+				ir_local_schedule_recursive(use, end, first);
 		}
 	}
 
diff --git a/src/ir/ir.h b/src/ir/ir.h
index d975e53..e32128e 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -160,6 +160,10 @@ struct node {
 			int index;
 		} project;
 
+		struct {
+			struct node *block; // Block that the load is made in.
+		} load;
+
 		struct {
 			int is_global;
 			const char *name;
-- 
2.43.0


From 39c732fe154ec923f484a391cbe901b5bb4b2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:40 +0000
Subject: [PATCH 024/106] fix: don't schedule instructions before they are
 ready because of a loop's phi nodes

---
 src/ir/ir.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index 91721df..400ba7f 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -745,7 +745,9 @@ void ir_local_schedule_recursive(struct node *node, struct node **end, struct no
 
 	node->visited = 5;
 
-	for (unsigned i = 0; i < IR_MAX; i++) {
+	// The arguments of a phi node are used at the end of the preceding blocks,
+	// in a loop they might come after the phi node.
+	for (unsigned i = 0; i < IR_MAX && node->type != IR_PHI; i++) {
 		struct node *arg = node->arguments[i];
 
 		if (arg && arg->block == node->block)
-- 
2.43.0


From 97bce0a6974e76423166e257d76342d1a3edb32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:20 +0000
Subject: [PATCH 025/106] fix: restore the packing on #pragma pack(pop)

---
 src/parser/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index b746f2b..200849a 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -22,6 +22,7 @@ void parser_reset(void) {
 	pack_size = pack_cap = 0;
 	current_packing = 0;
 	free(packs);
+	packs = NULL;
 	symbols_reset();
 }
 
@@ -45,7 +46,7 @@ int parse_handle_pragma(void) {
 		if (T0->type == T_IDENT) {
 			if (sv_string_cmp(T0->str, "pop")) {
 				if (pack_size)
-					pack_size--;
+					current_packing = packs[--pack_size];
 				TNEXT();
 				TEXPECT(T_RPAR);
 				return 1;
-- 
2.43.0


From 40433c176fbb6e5cbc3bc332051c0c3b48ca3ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:20 +0000
Subject: [PATCH 026/106] fix: lay out bit-fields as the System V ABI does

---
 src/arch/x64.c                | 140 ++++++++++++++--------------------
 src/ir/ir.c                   |  64 +++++++++++-----
 src/ir/ir.h                   |   4 +-
 src/parser/expression_to_ir.c |  27 +++----
 src/parser/expression_to_ir.h |   2 +-
 src/types.h                   |   2 +
 6 files changed, 121 insertions(+), 118 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 4ce8778..4a90c72 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -206,93 +206,68 @@ int calculate_offset(struct type *type, int index) {
 	}
 }
 
-static int calculate_alignment_with_max(struct type *type, int packing) {
-	int alignment = calculate_alignment(type);
-	if (packing == 0)
-		return alignment;
-	if (alignment > packing)
-		return packing;
+static int calculate_field_alignment(struct field *field, int packing) {
+	int alignment = calculate_alignment(field->type);
+	if (packing != 0 && alignment > packing)
+		alignment = packing;
+	if (field->alignment > alignment)
+		alignment = field->alignment;
 	return alignment;
 }
 
+static int64_t round_up(int64_t num, int64_t div) {
+	return (num + div - 1) / div * div;
+}
+
 void calculate_offsets(struct struct_data *data) {
-	int current_offset = 0;
-	int max_offset = 0;
+	// Positions are in bits.
+	int64_t position = 0, end = 0;
 	int alignment = 1;
 
-	int last_bit_offset = 0;
 	for (int i = 0; i < data->n; i++) {
-		struct type *field = data->fields[i].type;
-		current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
-
-		if (data->fields[i].bitfield == 0)
-			continue;
-
-		data->fields[i].offset = current_offset;
-		data->fields[i].bit_offset = 0;
-
-		if (data->fields[i].bitfield != -1) {
-			if (last_bit_offset != 0 && data->fields[i - 1].bitfield != 0)
-				data->fields[i].offset = data->fields[i - 1].offset;
-
-			int fits = 0;
-			struct type *fit_type = NULL;
-			for (int j = i; j >= 0; j--) {
-				if (last_bit_offset != 0 && data->fields[j].offset == data->fields[i - 1].offset &&
-					last_bit_offset + data->fields[i].bitfield <= 8 * calculate_size(data->fields[j].type)) {
-					fits = 1;
-					fit_type = data->fields[j].type;
-					break;
-				}
-			}
-
-			if (fits) {
-				current_offset = data->fields[i].offset;
-				data->fields[i].bit_offset = last_bit_offset;
-				data->fields[i].type = fit_type;
-			} else {
-				if (!data->is_union) {
-					current_offset = max_offset;
-
-					current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
-				}
-				data->fields[i].offset = current_offset;
-				last_bit_offset = 0;
-			}
-
-			if (!data->is_union)
-				last_bit_offset += data->fields[i].bitfield;
-		} else {
-			last_bit_offset = 0;
+		struct field *field = data->fields + i;
+		int field_alignment = calculate_field_alignment(field, data->packing);
+		int size = 0;
+
+		if (i != data->n - 1 || field->type->type != TY_INCOMPLETE_ARRAY) {
+			size = calculate_size(field->type);
+			if (size == -1)
+				ICE("%s has invalid size", dbg_type(field->type));
 		}
 
-		int new_size = 0;
-		if (i == data->n - 1 &&
-			field->type == TY_INCOMPLETE_ARRAY) {
-			new_size = 0;
-		} else {
-			new_size = calculate_size(field);
-			if (new_size == -1)
-				ICE("%s has invalid size", dbg_type(field));
-		}
+		if (data->is_union)
+			position = 0;
 
-		int new_alignment = calculate_alignment_with_max(field, data->packing);
-		if (new_alignment > alignment)
-			alignment = new_alignment;
-		if (!data->is_union) {
-			current_offset += new_size;
-			if (current_offset > max_offset)
-				max_offset = current_offset;
+		if (field->bitfield == -1) {
+			position = round_up(position, 8 * field_alignment);
+			field->offset = position / 8;
+			position += 8 * (int64_t)size;
+		} else if (field->bitfield == 0) {
+			position = round_up(position, 8 * calculate_alignment(field->type));
 		} else {
-			if (new_size > max_offset)
-				max_offset = new_size;
+			// A bit-field can't cross the boundary of an object of its type,
+			// except in packed structs, where they are accessed byte by byte.
+			int unit_size = data->packing ? 1 : size;
+
+			if (!data->packing &&
+				position / (8 * size) != (position + field->bitfield - 1) / (8 * size))
+				position = round_up(position, 8 * size);
+
+			field->bit_unit = unit_size;
+			field->offset = position / (8 * unit_size) * unit_size;
+			field->bit_offset = position % (8 * unit_size);
+			position += field->bitfield;
 		}
-	}
 
-	if (data->packing > 0 && alignment > data->packing)
-		alignment = data->packing;
+		// Unnamed bit-fields don't affect the alignment.
+		if ((field->bitfield == -1 || field->name.len) && field_alignment > alignment)
+			alignment = field_alignment;
+
+		if (position > end)
+			end = position;
+	}
 
-	data->size = round_up_to_nearest(max_offset, alignment);
+	data->size = round_up((end + 7) / 8, alignment);
 	data->alignment = alignment;
 }
 
@@ -628,18 +603,15 @@ void constant_to_buffer(uint8_t *buffer, struct constant constant, int bit_offse
 	uint64_t value = constant_to_u64(constant);
 
 	if (bit_size != -1) {
-		uint64_t mask = gen_mask(64 - bit_size - bit_offset, bit_offset);
-
-		value <<= bit_offset;
-		uint64_t prev_value;
-		switch (size) {
-		case 1: prev_value = *buffer; break;
-		case 2: prev_value = *(uint16_t *)buffer; break;
-		case 4: prev_value = *(uint32_t *)buffer; break;
-		case 8: prev_value = *(uint64_t *)buffer; break;
-		default: NOTIMP();
+		for (int i = 0; i < bit_size; i++) {
+			int bit = bit_offset + i;
+			uint8_t mask = 1 << (bit % 8);
+
+			buffer[bit / 8] &= ~mask;
+			if ((value >> i) & 1)
+				buffer[bit / 8] |= mask;
 		}
-		value = (prev_value & mask) | (value & ~mask);
+		return;
 	}
 
 	switch (size) {
diff --git a/src/ir/ir.c b/src/ir/ir.c
index 400ba7f..3652ef3 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -310,7 +310,7 @@ struct node *ir_get_offset(struct node *base_address, int offset) {
 	return ir_add(base_address, offset_var);
 }
 
-struct node *ir_set_bits(struct node *field, struct node *value, int offset, int length) {
+static struct node *set_bits(struct node *field, struct node *value, int offset, int length) {
 	uint64_t mask = gen_mask(64 - offset - length, offset);
 
 	struct node *value_large = ir_cast_int(value, 8, 0);
@@ -341,8 +341,43 @@ struct node *ir_get_bits(struct node *field, int offset, int length, int sign_ex
 	return ir_cast_int(field_large, field->size, 0);
 }
 
+// Bit-fields are accessed in units of the given size, and can
+// consist of bits from more than one of them.
+struct node *ir_load_bits(struct node *pointer, int unit, int offset, int length,
+						  int sign_extend, int size) {
+	struct node *value = NULL;
+
+	for (int i = 0; i < length;) {
+		int index = (offset + i) / (8 * unit), first = (offset + i) % (8 * unit);
+		int n = MIN(length - i, 8 * unit - first);
+
+		struct node *bits = ir_cast_int(ir_load(ir_get_offset(pointer, index * unit), unit), 8, 0);
+		bits = ir_get_bits(bits, first, n, sign_extend && i + n == length);
+		bits = ir_left_shift(bits, ir_constant(constant_simple_unsigned(abi_info.size_type, i)));
+
+		value = value ? ir_binary_or(value, bits) : bits;
+		i += n;
+	}
+
+	return ir_cast_int(value, size, 0);
+}
+
+void ir_store_bits(struct node *pointer, struct node *value, int unit, int offset, int length) {
+	struct node *value_large = ir_cast_int(value, 8, 0);
+
+	for (int i = 0; i < length;) {
+		int index = (offset + i) / (8 * unit), first = (offset + i) % (8 * unit);
+		int n = MIN(length - i, 8 * unit - first);
+
+		struct node *bits = ir_right_shift(value_large, ir_constant(constant_simple_unsigned(abi_info.size_type, i)), 0);
+		struct node *unit_pointer = ir_get_offset(pointer, index * unit);
+		ir_store(unit_pointer, set_bits(ir_load(unit_pointer, unit), bits, first, n));
+		i += n;
+	}
+}
+
 static void ir_init_var_recursive(struct initializer *init, struct type *type, struct node *offset,
-								  int bit_offset, int bit_size) {
+								  struct field *bitfield) {
 	switch (init->type) {
 	case INIT_BRACE: {
 		for (int i = 0; i < init->brace.size; i++) {
@@ -350,28 +385,23 @@ static void ir_init_var_recursive(struct initializer *init, struct type *type, s
 			struct type *child_type = type_select(type, i);
 			struct node *child_offset_var = ir_add(offset,
 														  ir_constant(constant_simple_unsigned(abi_info.size_type, child_offset)));
-			int bit_offset = -1, bit_size = -1;
+			struct field *child_bitfield = NULL;
 
-			if (type->type == TY_STRUCT) {
-				struct field f = type->struct_data->fields[i];
-				bit_offset = f.bit_offset;
-				bit_size = f.bitfield;
-			}
+			if (type->type == TY_STRUCT &&
+				type->struct_data->fields[i].bitfield != -1)
+				child_bitfield = type->struct_data->fields + i;
 
 			ir_init_var_recursive(init->brace.entries + i, child_type, child_offset_var,
-								  bit_offset, bit_size);
+								  child_bitfield);
 		}
 	} break;
 
 	case INIT_EXPRESSION:
-		if (bit_size == -1) {
-			expression_to_address(init->expr, offset);
+		if (bitfield) {
+			ir_store_bits(offset, expression_to_ir(init->expr),
+						  bitfield->bit_unit, bitfield->bit_offset, bitfield->bitfield);
 		} else {
-			struct node *value = expression_to_ir(init->expr);
-			struct node *prev = ir_load(offset, value->size);
-			struct node *new = ir_set_bits(prev, value, bit_offset, bit_size);
-
-			ir_store(offset, new);
+			expression_to_address(init->expr, offset);
 		}
 		break;
 
@@ -393,7 +423,7 @@ static void ir_init_var_recursive(struct initializer *init, struct type *type, s
 void ir_init_ptr(struct initializer *init, struct type *type, struct node *ptr) {
 	ir_set_zero_ptr(ptr, calculate_size(type));
 
-	ir_init_var_recursive(init, type, ptr, -1, -1);
+	ir_init_var_recursive(init, type, ptr, NULL);
 }
 
 static void register_usage(struct node *block, struct node *var) {
diff --git a/src/ir/ir.h b/src/ir/ir.h
index e32128e..6280172 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -279,7 +279,9 @@ struct node *ir_idiv(struct node *lhs, struct node *rhs);
 struct node *ir_equal(struct node *lhs, struct node *rhs);
 struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs);
 
-struct node *ir_set_bits(struct node *field, struct node *value, int offset, int length);
+struct node *ir_load_bits(struct node *pointer, int unit, int offset, int length,
+						  int sign_extend, int size);
+void ir_store_bits(struct node *pointer, struct node *value, int unit, int offset, int length);
 struct node *ir_get_bits(struct node *field, int offset, int length, int sign_extend);
 
 struct node *ir_get_offset(struct node *base_address, int offset);
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 6b5e948..5c70040 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -102,14 +102,13 @@ struct node *evaluated_expression_to_address(struct evaluated_expression *evalua
 
 struct node *evaluated_expression_to_var(struct evaluated_expression *evaluated_expression) {
 	switch (evaluated_expression->type) {
-	case EE_BITFIELD_POINTER: {
-		struct node *var = ir_load(evaluated_expression->bitfield_pointer.pointer,
-							 calculate_size(evaluated_expression->data_type));
-
-		return ir_get_bits(var, evaluated_expression->bitfield_pointer.offset,
-						   evaluated_expression->bitfield_pointer.bitfield,
-						   evaluated_expression->bitfield_pointer.sign_extend);
-	}
+	case EE_BITFIELD_POINTER:
+		return ir_load_bits(evaluated_expression->bitfield_pointer.pointer,
+							evaluated_expression->bitfield_pointer.unit,
+							evaluated_expression->bitfield_pointer.offset,
+							evaluated_expression->bitfield_pointer.bitfield,
+							evaluated_expression->bitfield_pointer.sign_extend,
+							calculate_size(evaluated_expression->data_type));
 
 	case EE_CONSTANT:
 		return ir_constant(evaluated_expression->constant);
@@ -192,14 +191,11 @@ static void assign_to_ee(struct evaluated_expression *lhs, struct node *rhs_var)
 		ir_store(lhs->pointer, rhs_var);
 		break;
 
-	case EE_BITFIELD_POINTER: {
-		struct node *prev = ir_load(lhs->bitfield_pointer.pointer, rhs_var->size);
-
-		struct node *new = ir_set_bits(prev, rhs_var, lhs->bitfield_pointer.offset, lhs->bitfield_pointer.bitfield);
+	case EE_BITFIELD_POINTER:
+		ir_store_bits(lhs->bitfield_pointer.pointer, rhs_var, lhs->bitfield_pointer.unit,
+					  lhs->bitfield_pointer.offset, lhs->bitfield_pointer.bitfield);
+		break;
 
-		ir_store(lhs->bitfield_pointer.pointer, new);
-	} break;
-		
 	default: NOTIMP();
 	}
 }
@@ -399,6 +395,7 @@ static struct evaluated_expression evaluate_dot_operator(struct expr *expr) {
 				.pointer = member_address,
 				.bitfield = data->fields[idx].bitfield,
 				.offset = data->fields[idx].bit_offset,
+				.unit = data->fields[idx].bit_unit,
 				.sign_extend = is_signed(data->fields[idx].type->simple),
 			}
 		};
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index 02dc8fb..8e6dcea 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -34,7 +34,7 @@ struct evaluated_expression {
 
 		struct {
 			struct node *pointer;
-			int bitfield, offset, sign_extend;
+			int bitfield, offset, unit, sign_extend;
 		} bitfield_pointer;
 	};
 };
diff --git a/src/types.h b/src/types.h
index 0b65518..72274bc 100644
--- a/src/types.h
+++ b/src/types.h
@@ -107,8 +107,10 @@ struct struct_data {
 		struct string_view name;
 		struct type *type;
 		int bitfield; // -1 means no bit-field.
+		int alignment; // From _Alignas, 0 if none.
 		int offset;
 		int bit_offset;
+		int bit_unit; // Size of the units bit-fields are accessed in.
 	} *fields;
 
 	int alignment, size;
-- 
2.43.0


From 7c7192c4ed09ceecbda421419dc2fccd638188fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:20 +0000
Subject: [PATCH 027/106] fix: respect _Alignas on struct members

---
 src/parser/declaration.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d748320..4676c48 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -203,7 +203,8 @@ static int parse_specifier(struct type_specifiers *ts,
 			if (constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG)) {
 				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument. %d", constant->data_type->type);
 			}
-			as->alignment = constant->uint_d;
+			if (constant->uint_d > (uintmax_t)as->alignment)
+				as->alignment = constant->uint_d;
 			return 1;
 		}
 	}
@@ -339,6 +340,13 @@ int parse_enum(struct type_specifiers *ts) {
 	return 1;
 }
 
+static int get_field_alignment(struct alignment_specifiers *as) {
+	int packing = get_current_packing();
+	if (packing && as->alignment > packing)
+		return packing;
+	return as->alignment;
+}
+
 int parse_struct(struct type_specifiers *ts) {
 	int is_union = 0, is_packed = 0;
 	if (TACCEPT(T_KSTRUCT))
@@ -405,7 +413,8 @@ int parse_struct(struct type_specifiers *ts) {
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
-					.bitfield = bitfield
+					.bitfield = bitfield,
+					.alignment = get_field_alignment(&s.as)
 				};
 
 				TACCEPT(T_COMMA);
@@ -418,7 +427,8 @@ int parse_struct(struct type_specifiers *ts) {
 					ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 						.type = s.ts.data_type,
 						.name = { 0 },
-						.bitfield = -1
+						.bitfield = -1,
+						.alignment = get_field_alignment(&s.as)
 					};
 				} else {
 					ERROR(T0->pos, "Anonymous member must be struct or bitfield.");
-- 
2.43.0


From 728614f3fccc98342e45fda501d784edaf78eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:50 +0000
Subject: [PATCH 028/106] fix: make the value of a bit-field assignment the
 stored one

---
 src/parser/expression_to_ir.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 5c70040..ab763aa 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -217,6 +217,15 @@ static void assign_ee_to_ee(struct evaluated_expression *lhs, struct evaluated_e
 	}
 }
 
+// The value of an assignment is the value of the left operand after it.
+static struct node *assigned_value(struct evaluated_expression *lhs, struct node *value) {
+	if (lhs->type != EE_BITFIELD_POINTER)
+		return value;
+
+	return ir_get_bits(value, 0, lhs->bitfield_pointer.bitfield,
+					   lhs->bitfield_pointer.sign_extend);
+}
+
 static struct node *evaluated_expression_to_condition(struct evaluated_expression *condition) {
 	if (type_is_floating(condition->data_type)) {
 		struct evaluated_expression bool_ = evaluated_expression_cast(condition, type_simple(ST_BOOL));
@@ -516,6 +525,13 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 
 	assign_ee_to_ee(&lhs, &rhs);
 
+	if (lhs.type == EE_BITFIELD_POINTER) {
+		return (struct evaluated_expression) {
+			.type = EE_VARIABLE,
+			.variable = assigned_value(&lhs, evaluated_expression_to_var(&rhs))
+		};
+	}
+
 	return rhs;
 }
 
@@ -547,7 +563,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 	lhs_var = variable_cast(lhs_var, operator_type, lhs.data_type);
 
 	if (!expr->assignment_op.postfix)
-		res_var = lhs_var;
+		res_var = assigned_value(&lhs, lhs_var);
 
 	struct evaluated_expression res = {
 		.type = EE_VARIABLE,
-- 
2.43.0


From fb43c55a7e5e64d8e42ebaf96216eebb28b6c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 029/106] fix: initialize the elements that designators, braces
 and their absence say

---
 src/parser/declaration.c | 355 +++++++++++++++++++++------------------
 1 file changed, 193 insertions(+), 162 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 4676c48..7125233 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -12,7 +12,9 @@
 #include <abi/abi.h>
 
 #include <assert.h>
+#include <limits.h>
 #include <stdint.h>
+#include <stdlib.h>
 
 // Returns previous state of the bit.
 static int set_sbit(struct type_specifiers *ts, int bit_n) {
@@ -944,8 +946,10 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 
 		int braces = TACCEPT(T_LBRACE);
 		TEXPECT(token_type);
-		if (braces)
+		if (braces) {
+			TACCEPT(T_COMMA);
 			TEXPECT(T_RBRACE);
+		}
 
 		if ((*type)->type == TY_INCOMPLETE_ARRAY) {
 			struct type complete_array_params = {
@@ -957,8 +961,10 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 			*type = type_create(&complete_array_params, (*type)->children);
 		}
 
-		init->type = INIT_STRING;
-		init->string = str;
+		*init = (struct initializer) {
+			.type = INIT_STRING,
+			.string = str
+		};
 
 		return 1;
 	}
@@ -975,222 +981,247 @@ static int match_string(struct type **type, struct initializer *init, struct tok
 		match_specific_string(type, init, string_token, CHAR32_TYPE, T_STRING_CHAR32);
 }
 
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices);
-
-static void parse_brace_initializer(struct type **type, struct initializer *init, int idx,
-									int inside_brace, struct expr *expr) {
-	if (init->type == INIT_EMPTY)
-		*init = (struct initializer) { .type = INIT_BRACE };
-
-	if (!inside_brace)
-		TEXPECT(T_LBRACE);
-
-	int max_members = -1;
-	switch ((*type)->type) {
+// The number of elements of an aggregate that can be initialized in order.
+static int max_initializers(struct type *type) {
+	switch (type->type) {
 	case TY_ARRAY:
-		max_members = (*type)->array.length;
-		break;
+		return type->array.length;
 	case TY_INCOMPLETE_ARRAY:
-		max_members = -1;
-		break;
+		return INT_MAX;
 	case TY_STRUCT:
-		max_members = (*type)->struct_data->n;
-		if ((*type)->struct_data->is_union)
-			max_members = 1;
-		// Advance until end of struct, or reaching a different offset.
-		break;
+		if (type->struct_data->is_union)
+			return MIN(type->struct_data->n, 1);
+		return type->struct_data->n;
 	default: ICE("Invalid top type");
 	}
+}
 
-	if (max_members != -1 && inside_brace && idx >= max_members)
-		return;
+// Get the initializer of an element, which will be (partly) overwritten.
+static struct initializer *initializer_select(struct type *type, struct initializer *init, int index) {
+	if (init->type == INIT_STRING) {
+		// Some of the characters are to be replaced.
+		struct string_view str = init->string;
+		struct type *char_type = type->children[0];
+		int char_size = calculate_size(char_type);
 
-	for (;;) {
-		static int designator_cap = 0;
-		static int *designators = NULL;
-		int designator_size = 0;
-		struct type *current_type = *type;
-		for (;;) {
-			size_t index;
-			(void)index;
-			if (T0->type == T_LBRACK) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_LBRACK);
-				struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
-				struct constant *c = expression_to_constant(expr);
-				if (!c)
-					ERROR(T0->pos, "Expected constant expression in array designator.");
-				TEXPECT(T_RBRACK);
+		*init = (struct initializer) { .type = INIT_BRACE };
+		for (int i = 0; i < str.len / char_size && i < max_initializers(type); i++) {
+			uint64_t value = 0;
+			for (int j = 0; j < char_size; j++)
+				value |= (uint64_t)(unsigned char)str.str[i * char_size + j] << (8 * j);
+
+			*initializer_add_entry(init, i) = (struct initializer) {
+				.type = INIT_EXPRESSION,
+				.expr = expression_cast(EXPR_INT(value), char_type)
+			};
+		}
+	} else if (init->type != INIT_BRACE) {
+		*init = (struct initializer) { .type = INIT_BRACE };
+	}
 
-				assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
+	struct initializer *entry = initializer_add_entry(init, index);
 
-				ADD_ELEMENT(designator_size, designator_cap, designators) = c->uint_d;
-				current_type = type_select(current_type, c->uint_d);
-			} else if (T0->type == T_DOT) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_DOT);
-				int n = 0, *indices = 0;
-				if (!type_search_member(current_type, T0->str, &n, &indices))
-					ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
+	// Only one of the members of a union can be initialized.
+	if (type->type == TY_STRUCT && type->struct_data->is_union) {
+		for (int i = 0; i < init->brace.size; i++) {
+			if (i != index)
+				init->brace.entries[i] = (struct initializer) { .type = INIT_EMPTY };
+		}
+	}
 
-				TEXPECT(T_IDENT);
+	return entry;
+}
 
-				for (int i = n - 1; i >= 0; i--) {
-					ADD_ELEMENT(designator_size, designator_cap, designators) = indices[i];
-					current_type = type_select(current_type, indices[i]);
-				}
-			} else {
-				break;
-			}
+static void parse_initializer_element(struct type **type, struct initializer *init, struct expr *expr);
+
+// Parse the initializers of the elements following idx, without surrounding braces.
+static void parse_elided_initializers(struct type *type, struct initializer *init, int idx, struct expr *expr) {
+	for (; idx < max_initializers(type); idx++) {
+		if (!expr) {
+			// The comma is left for the surrounding list, if it can't be used.
+			if (T0->type != T_COMMA || T1->type == T_RBRACE ||
+				T1->type == T_LBRACK || T1->type == T_DOT)
+				return;
+			TNEXT();
 		}
 
-		int *pass_designators = NULL;
-		int pass_n = 0;
+		struct type *child_type = type_select(type, idx);
+		parse_initializer_element(&child_type, initializer_select(type, init, idx), expr);
+		expr = NULL;
+	}
+}
+
+static void parse_designated_initializer(struct type *type, struct initializer *init, int n, int *indices) {
+	struct type *child_type = type_select(type, indices[0]);
+	struct initializer *child_init = initializer_select(type, init, indices[0]);
 
-		if (designator_size) {
-			TEXPECT(T_A);
+	if (n == 1) {
+		parse_initializer_element(&child_type, child_init, NULL);
+	} else {
+		parse_designated_initializer(child_type, child_init, n - 1, indices + 1);
+		parse_elided_initializers(child_type, child_init, indices[1] + 1, NULL);
+	}
+}
 
-			if (designator_size > 0)
-				idx = designators[0];
+static int parse_designators(struct type *type, int **indices) {
+	int size = 0, cap = 0;
+	*indices = NULL;
 
-			if (designator_size > 1) {
-				pass_designators = designators + 1;
-				pass_n = designator_size - 1;
+	for (;;) {
+		if (TACCEPT(T_LBRACK)) {
+			struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
+			struct constant *c = expression_to_constant(expr);
+			if (!c)
+				ERROR(T0->pos, "Expected constant expression in array designator.");
+			TEXPECT(T_RBRACK);
+
+			assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
+
+			if (type->type != TY_ARRAY && type->type != TY_INCOMPLETE_ARRAY)
+				ERROR(T0->pos, "Array designator in initializer of %s.", dbg_type(type));
+			if (c->uint_d >= (constant_uint)max_initializers(type))
+				ERROR(T0->pos, "Array designator is out of range.");
+
+			ADD_ELEMENT(size, cap, *indices) = c->uint_d;
+			type = type_select(type, c->uint_d);
+		} else if (TACCEPT(T_DOT)) {
+			int n = 0, *member_indices = 0;
+			if (!type_search_member(type, T0->str, &n, &member_indices))
+				ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
+
+			TEXPECT(T_IDENT);
+
+			for (int i = n - 1; i >= 0; i--) {
+				ADD_ELEMENT(size, cap, *indices) = member_indices[i];
+				type = type_select(type, member_indices[i]);
 			}
+		} else {
+			break;
 		}
+	}
 
-		struct type *child_type = type_select(*type, idx);
-		parse_initializer_recursive(&child_type,
-									initializer_add_entry(init, idx), expr, designator_size < 1, pass_n, pass_designators);
-		expr = NULL;
+	if (size)
+		TEXPECT(T_A);
 
-		if (T0->type == T_LBRACK || T0->type == T_DOT)
-			continue;
+	return size;
+}
 
-		idx++;
+static void parse_brace_initializer(struct type *type, struct initializer *init) {
+	*init = (struct initializer) { .type = INIT_BRACE };
 
-		if (inside_brace && idx == max_members)
-			break;
+	TEXPECT(T_LBRACE);
 
-		if (!TACCEPT(T_COMMA))
-			break;
+	int idx = 0;
+	do {
+		int *indices;
+		int n = parse_designators(type, &indices);
 
-		if (T0->type == T_RBRACE)
-			break;
-	}
+		if (n) {
+			parse_designated_initializer(type, init, n, indices);
+			idx = indices[0];
+			free(indices);
+		} else {
+			if (idx >= max_initializers(type))
+				ERROR(T0->pos, "Too many initializers for %s.", dbg_type(type));
 
-	if (!inside_brace)
-		TEXPECT(T_RBRACE);
+			struct type *child_type = type_select(type, idx);
+			parse_initializer_element(&child_type, initializer_select(type, init, idx), NULL);
+		}
+
+		// The other members of a union aren't initialized in order.
+		idx = (type->type == TY_STRUCT && type->struct_data->is_union) ? INT_MAX : idx + 1;
+	} while (TACCEPT(T_COMMA) && T0->type != T_RBRACE);
+
+	TEXPECT(T_RBRACE);
 }
 
 // 6.7.9p17-6.7.8p23 and some surrounding paragraphs.
 
+// Parse the initializer of one object. If it is an aggregate, this might be the
+// initializer of its first element, without braces. In that case, expr might have been
+// parsed already.
+
 // This is tricky and very easy to get wrong.
 // See tests/initializers.c to see some examples.
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices) {
-	int current_idx = 0;
-	if (n > 0) {
-		current_idx = indices[0];
-		struct type *selected = type_select(*type, current_idx);
-		if (init->type == INIT_EMPTY)
-			*init = (struct initializer) { .type = INIT_BRACE };
-		struct initializer *next_init = initializer_add_entry(init, current_idx);
-
-		parse_initializer_recursive(&selected, next_init, expr, inside_brace, n - 1, indices + 1);
-
-		if (!TACCEPT(T_COMMA))
-			return;
+static void parse_initializer_element(struct type **type, struct initializer *init, struct expr *expr) {
+	int is_aggregate = type_is_aggregate(*type), is_str = 0;
 
-		if (T0->type == T_RBRACE)
-			return;
+	if (!expr && is_aggregate) {
+		struct token string_token = T0->type == T_LBRACE ? *T1 : *T0;
+		is_str = is_string_type(string_token.type) &&
+			(T0->type == T_LBRACE ? (T2->type == T_COMMA || T2->type == T_RBRACE) :
+			 (T1->type == T_COMMA || T1->type == T_RBRACE || T1->type == T_SEMI_COLON));
 
-		parse_brace_initializer(type, init, current_idx + 1, 1, expr);
-		return;
-	}
-
-	int is_aggregate = type_is_aggregate(*type);
-
-	int is_str = 0, is_brace = 0;
-	struct token string_token = { 0 };
-
-	if (!expr && is_scalar(*type)) {
-		int has_braces = TACCEPT(T_LBRACE);
-
-		expr = parse_assignment_expression();
-		if (!expr)
-			ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(*type), dbg_token(T0));
+		if (is_str && match_string(type, init, string_token))
+			return;
 
-		if (has_braces)
-			TEXPECT(T_RBRACE);
+		is_str = is_str && T0->type != T_LBRACE;
 	}
 
-	if (!expr) {
-		is_str = 1;
-		if (T0->type == T_LBRACE && is_string_type(T1->type) && T2->type == T_RBRACE)
-			string_token = *T1;
-		else if (is_string_type(T0->type))
-			string_token = *T0;
-		else
-			is_str = 0;
-	}
+	if (!expr && is_aggregate && T0->type == T_LBRACE) {
+		parse_brace_initializer(*type, init);
+	} else if (is_str) {
+		if (!max_initializers(*type))
+			ERROR(T0->pos, "Too many initializers for %s.", dbg_type(*type));
 
-	if (!expr && !is_str && T0->type == T_LBRACE)
-		is_brace = 1;
+		struct type *child_type = type_select(*type, 0);
+		parse_initializer_element(&child_type, initializer_select(*type, init, 0), NULL);
+		parse_elided_initializers(*type, init, 1, NULL);
+	} else {
+		if (!expr) {
+			int has_braces = TACCEPT(T_LBRACE);
 
-	if (!is_str && !is_brace && !expr) {
-		expr = parse_assignment_expression();
-	}
+			expr = parse_assignment_expression();
+			if (!expr)
+				ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(*type), dbg_token(T0));
 
-	if (is_aggregate && inside_brace && T0->type != T_LBRACE &&
-		!is_str && expr->data_type != *type) {
-		// TODO: This seems a bit hacky.
-		parse_brace_initializer(type, init, current_idx, 1, expr);
-		return;
-	}
+			if (has_braces) {
+				TACCEPT(T_COMMA);
+				TEXPECT(T_RBRACE);
+			}
+		}
 
-	if (is_str && match_string(type, init, string_token)) {
-	} else if (expr) {
-		if (is_aggregate && expr->data_type != *type) {
-			parse_initializer_recursive(type, init, expr, 1, -1, NULL);
+		if (is_aggregate && type_remove_qualifications(expr->data_type) != type_remove_qualifications(*type)) {
+			if (!max_initializers(*type))
+				ERROR(T0->pos, "Too many initializers for %s.", dbg_type(*type));
+			parse_elided_initializers(*type, init, 0, expr);
 		} else {
-			init->type = INIT_EXPRESSION;
-			init->expr = expression_cast(expr, *type);
+			*init = (struct initializer) {
+				.type = INIT_EXPRESSION,
+				.expr = expression_cast(expr, *type)
+			};
 		}
-	} else if (T0->type == T_LBRACE && is_aggregate) {
-		parse_brace_initializer(type, init, 0, 0, NULL);
-	} else if (is_str && is_aggregate) {
-		parse_brace_initializer(type, init, current_idx, 1, expr);
-	} else {
-		ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
 	}
 
 	if ((*type)->type == TY_INCOMPLETE_ARRAY) {
-		int max_index = 0;
-		switch (init->type) {
-		case INIT_BRACE: max_index = init->brace.size; break;
-		case INIT_STRING: NOTIMP();
-		default:
+		if (init->type != INIT_BRACE)
 			ERROR(T0->pos, "Expected incomplete array to be completed in initialzier.");
-		}
 
 		struct type complete_array_params = {
 			.type = TY_ARRAY,
-			.array.length = max_index,
+			.array.length = init->brace.size,
 			.n = 1
 		};
 
-		struct type *ntype = type_create(&complete_array_params, (*type)->children);
-		*type = ntype;
+		*type = type_create(&complete_array_params, (*type)->children);
 	}
 }
 
 struct initializer parse_initializer(struct type **type) {
 	struct initializer ret = { 0 };
-	parse_initializer_recursive(type, &ret, NULL, 0, -1, NULL);
+
+	if (T0->type != T_LBRACE && type_is_aggregate(*type) && !is_string_type(T0->type)) {
+		struct expr *expr = parse_assignment_expression();
+		if (!expr || type_remove_qualifications(expr->data_type) != type_remove_qualifications(*type))
+			ERROR(T0->pos, "Expected braces in initializer of %s.", dbg_type(*type));
+
+		return (struct initializer) {
+			.type = INIT_EXPRESSION,
+			.expr = expression_cast(expr, *type)
+		};
+	}
+
+	parse_initializer_element(type, &ret, NULL);
 	return ret;
 }
 
-- 
2.43.0


From 3d94bc6da6171239febd08b6b6bc75fd62f91c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:05 +0000
Subject: [PATCH 030/106] fix: hexadecimal escape sequences have base 16

---
 src/escape_sequence.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index 48ebb22..dc9911f 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -25,7 +25,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		s++;
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
-			result *= 8;
+			result *= 16;
 			result += char_to_int(*s);
 		}
 		*out = result;
-- 
2.43.0


From 4765e3b5dff9285a70e8b2f9caec12f0337c4ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:05 +0000
Subject: [PATCH 031/106] fix: encode characters above 0xffff in u strings as
 surrogate pairs

---
 src/preprocessor/string_concat.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index bb7a3c5..fe55322 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -87,6 +87,13 @@ static int escape_char_to_buffer(struct string_view *input,
 		buffer_write((character >> 24) & 0xff);
 		break;
 	case STRING_U_SMALL:
+		if (character > 0xffff) {
+			// Encode as a surrogate pair.
+			uint32_t high = 0xd800 + ((character - 0x10000) >> 10);
+			buffer_write(high & 0xff);
+			buffer_write((high >> 8) & 0xff);
+			character = 0xdc00 + ((character - 0x10000) & 0x3ff);
+		}
 		buffer_write(character & 0xff);
 		buffer_write((character >> 8) & 0xff);
 		break;
-- 
2.43.0


From a7738df274b2963508e6484a5544967b6176fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:05 +0000
Subject: [PATCH 032/106] fix: parse sizeof applied to a compound literal

---
 src/parser/expression.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 1bed7fe..5078ea7 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -514,6 +514,14 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 struct expr *parse_pratt(int precedence);
 struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
 
+static struct expr *parse_compound_literal(struct type *type) {
+	struct initializer init = parse_initializer(&type);
+	return expr_new((struct expr) {
+			.type = E_COMPOUND_LITERAL,
+			.compound_literal = { type, init }
+		});
+}
+
 static struct expr *parse_prefix(void) {
 	if (TACCEPT(T_LPAR)) {
 		struct type *cast_type = parse_type_name();
@@ -521,11 +529,7 @@ static struct expr *parse_prefix(void) {
 		if (cast_type) {
 			TEXPECT(T_RPAR);
 			if (T0->type == T_LBRACE) {
-				struct initializer init = parse_initializer(&cast_type);
-				return expr_new((struct expr) {
-						.type = E_COMPOUND_LITERAL,
-						.compound_literal = { cast_type, init }
-					});
+				return parse_compound_literal(cast_type);
 			} else {
 				struct expr *rhs = parse_pratt(PREFIX_PREC);
 				if (!rhs)
@@ -568,6 +572,8 @@ static struct expr *parse_prefix(void) {
 			type = parse_type_name();
 			if (type) {
 				TEXPECT(T_RPAR);
+				if (T0->type == T_LBRACE)
+					type = parse_pratt_with_lhs(PREFIX_PREC, parse_compound_literal(type))->data_type;
 			} else {
 				t_push(t);
 				type = parse_pratt(PREFIX_PREC)->data_type;
-- 
2.43.0


From bdeeb6403c6f1c001d60d853f9df82f2656f46cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:05 +0000
Subject: [PATCH 033/106] fix: let initializers refer to the variable they
 initialize

---
 src/parser/declaration.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7125233..60c1b0f 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1411,15 +1411,15 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 				symbol->type = IDENT_VARIABLE;
 				struct node *ptr;
 				symbol->variable.type = type;
+				// The initializer can refer to the variable.
+				ptr = ir_allocate(calculate_size(type), symbol->alignment);
+				symbol->variable.ptr = ptr;
 				if (has_init) {
 					struct initializer init = parse_initializer(&type);
 					symbol->variable.type = type;
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
+					ptr->alloc.size = calculate_size(type);
 					ir_init_ptr(&init, type, ptr);
-				} else {
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
 				}
-				symbol->variable.ptr = ptr;
 			}
 		}
 	} else {
-- 
2.43.0


From 5de79582821e603c5b84f086f82107114725ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:05 +0000
Subject: [PATCH 034/106] fix: emit compound literals inside of compound
 literals, and align them

---
 src/codegen/rodata.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index a57b319..a6a0ed3 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -161,6 +161,7 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 }
 
 void codegen_initializer(struct type *type, struct initializer *init);
+static void codegen_pre_initializer(struct initializer *init);
 
 static void codegen_compound_literals(struct expr **expr, int lvalue) {
 	switch ((*expr)->type) {
@@ -174,7 +175,10 @@ static void codegen_compound_literals(struct expr **expr, int lvalue) {
 	case E_GENERIC_SELECTION:
 	case E_COMPOUND_LITERAL:
 		if (lvalue) {
+			codegen_pre_initializer(&(*expr)->compound_literal.init);
+
 			label_id label = register_label();//register_label_name(sv_from_str(strdup(name)));
+			asm_align(calculate_alignment((*expr)->compound_literal.type));
 			asm_label(0, label);
 			codegen_initializer((*expr)->compound_literal.type,
 								&(*expr)->compound_literal.init);
@@ -304,9 +308,11 @@ void codegen_initializer(struct type *type,
 }
 
 static void codegen_static_var(struct static_var *static_var) {
-	(void)static_var;
 	asm_section(".data");
 
+	// Compound literals are emitted before the variable that refers to them.
+	codegen_pre_initializer(&static_var->init);
+
 	if (static_var->alignment)
 		asm_align(static_var->alignment);
 	else
@@ -317,8 +323,6 @@ static void codegen_static_var(struct static_var *static_var) {
 
 		asm_zero(calculate_size(static_var->type));
 	} else {
-		codegen_pre_initializer(&static_var->init);
-
 		asm_label(static_var->global, static_var->label_);
 
 		codegen_initializer(static_var->type, &static_var->init);
-- 
2.43.0


From ae27e9c857933403d2a73d67024c063fff058c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:31 +0000
Subject: [PATCH 035/106] fix: -E prints string and character constants so that
 they read back

---
 src/main.c | 80 ++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 77 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 2c648e5..3b91e3d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -226,6 +226,73 @@ static void compile_file(const char *path,
 
 // This function is only called when -E flag is passed.
 // That is: preprocess, but don't compile.
+// The inverse of string_concat, gives a spelling that reads back as the same
+// token.
+static const char *token_spelling(struct token *t) {
+	static char *buffer = NULL;
+	static size_t size = 0, cap = 0;
+
+	const char *prefix = "";
+	int width = 1, is_string = 0;
+
+	switch (t->type) {
+	case T_STRING: is_string = 1; break;
+	case T_STRING_CHAR16: is_string = 1; prefix = "u"; width = 2; break;
+	case T_STRING_CHAR32: is_string = 1; prefix = "U"; width = 4; break;
+	case T_STRING_WCHAR: is_string = 1; prefix = "L"; width = 4; break;
+	case T_CHARACTER_CONSTANT: break;
+	case T_CHARACTER_CONSTANT_CHAR16: prefix = "u"; width = 2; break;
+	case T_CHARACTER_CONSTANT_CHAR32: prefix = "U"; width = 4; break;
+	case T_CHARACTER_CONSTANT_WCHAR: prefix = "L"; width = 4; break;
+	default: return dbg_token(t);
+	}
+
+	const char quote = is_string ? '"' : '\'';
+
+	size = 0;
+	for (; *prefix; prefix++)
+		ADD_ELEMENT(size, cap, buffer) = *prefix;
+	ADD_ELEMENT(size, cap, buffer) = quote;
+
+	// Strings are stored together with their terminator.
+	for (int i = 0; i + width <= t->str.len - (is_string ? width : 0); i += width) {
+		uint32_t unit = 0;
+		for (int j = 0; j < width; j++)
+			unit |= (uint32_t)(unsigned char)t->str.str[i + j] << (8 * j);
+
+		char escaped[16];
+		if (width == 1)
+			character_to_escape_sequence(unit, escaped, 1);
+		else
+			sprintf(escaped, "\\x%x", unit);
+		if (unit == '\'' && !is_string)
+			strcpy(escaped, "\\'");
+
+		for (int j = 0; escaped[j]; j++)
+			ADD_ELEMENT(size, cap, buffer) = escaped[j];
+	}
+
+	ADD_ELEMENT(size, cap, buffer) = quote;
+	ADD_ELEMENT(size, cap, buffer) = '\0';
+
+	return buffer;
+}
+
+static int is_word_character(char c) {
+	return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') ||
+		(c >= 'A' && c <= 'Z') || c == '_' || c == '.' || c == '"' ||
+		c == '\'' || c == '\\' || (unsigned char)c >= 0x80;
+}
+
+// Could tokens ending, and starting with these characters be read as one?
+static int needs_separation(char end, char start) {
+	if (!end || !start)
+		return 0;
+	if (is_word_character(end))
+		return is_word_character(start) || start == '+' || start == '-';
+	return !is_word_character(start) || start == '.';
+}
+
 static void preprocess_file(const char *path, struct arguments *arguments) {
 	symbols_init();
 
@@ -260,19 +327,26 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 
 	preprocessor_init(path);
 
+	char prev = '\0';
 	while (T0->type != T_EOI) {
+		const char *str = token_spelling(T0);
+
 		if (T0->first_of_line)
 			printf("\n");
-		else if (T0->whitespace)
+		else if (T0->whitespace || needs_separation(prev, str[0]))
 			printf(" ");
 
-		printf("%s", dbg_token(T0));
+		printf("%s", str);
 
-		if (T0->whitespace_after)
+		prev = *str ? str[strlen(str) - 1] : '\0';
+		if (T0->whitespace_after) {
 			printf(" ");
+			prev = '\0';
+		}
 
 		t_next();
 	}
+	printf("\n");
 
 	preprocessor_reset();
 	ir_reset();
-- 
2.43.0


From 9c0b9c6938c2ddcc46425d60a4fb4721753ea0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:39 +0000
Subject: [PATCH 036/106] fix: keep hide sets sorted the way union and
 intersection expect

---
 src/preprocessor/string_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/string_set.c b/src/preprocessor/string_set.c
index a0dbc58..dcbc22c 100644
--- a/src/preprocessor/string_set.c
+++ b/src/preprocessor/string_set.c
@@ -81,7 +81,7 @@ void string_set_insert(struct string_set *a, char *str) {
 
 	int s = 0, cmp = 0;
 	for (; s < a->size; s++) {
-		if ((cmp = strcmp(a->strings[s], str)) <= 0)
+		if ((cmp = strcmp(a->strings[s], str)) >= 0)
 			break;
 	}
 
-- 
2.43.0


From 7e31a8683b84c981cd6cab5fffa6b81665324f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:39 +0000
Subject: [PATCH 037/106] fix: implement ## with placemarkers and unexpanded
 operands

---
 src/preprocessor/macro_expander.c | 260 ++++++++++++++----------------
 1 file changed, 117 insertions(+), 143 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index a950ac8..9feb20c 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -22,6 +22,7 @@ void macro_expander_reset(void) {
 }
 
 void expand_buffer(int input, int return_output, struct token *t);
+void expand_token_list(struct token_list *ts);
 
 static void define_map_init(void) {
 	define_map = cc_malloc(sizeof *define_map);
@@ -107,56 +108,32 @@ void define_string(char *name, char *value) {
 	define_map_add(def);
 }
 
-// Hopefully sufficiant table for
-// combining two token types to
-// get another. The strings are simply
-// concatenated in all these cases.
-ttype paste_table[][3] = {
-	{T_IDENT, T_IDENT, T_IDENT},
-	{T_IDENT, T_NUM, T_IDENT},
-	{T_IDENT, T_IDENT, T_IDENT},
-	{T_LSHIFT, T_A, T_LSHIFTA},
-	{T_RSHIFT, T_A, T_RSHIFTA},
-	{T_NUM, T_NUM, T_NUM},
-	{T_NUM, T_IDENT, T_NUM},
-	{T_ADD, T_ADD, T_INC},
-	{T_ADD, T_A, T_ADDA},
-	{T_SUB, T_SUB, T_DEC},
-	{T_SUB, T_G, T_ARROW},
-	{T_SUB, T_A, T_SUBA},
-	{T_DIV, T_A, T_DIVA},
-	{T_MOD, T_A, T_MODA},
-	{T_G, T_GEQ, T_RSHIFTA},
-	{T_G, T_G, T_RSHIFT},
-	{T_G, T_A, T_GEQ},
-	{T_L, T_LEQ, T_LSHIFTA},
-	{T_L, T_L, T_LSHIFT},
-	{T_L, T_A, T_LEQ},
-	{T_NOT, T_A, T_NEQ},
-	{T_BOR, T_BOR, T_OR},
-	{T_BOR, T_A, T_BORA},
-	{T_XOR, T_A, T_XORA},
-	{T_A, T_A, T_EQ},
-	{T_STAR, T_A, T_MULA},
-	{T_AMP, T_A, T_BANDA},
-	{T_AMP, T_AMP, T_AND},
-	{PP_HASH, PP_HASH, PP_HHASH}, // This is just stupid...
-};
-
-static struct token glue(struct token a, struct token b) {
-	struct token ret = {
-		.whitespace = b.whitespace, .first_of_line = b.first_of_line,
-		.whitespace_after = a.whitespace_after, .first_of_line_after = a.first_of_line_after
-	};
-	for (unsigned i = 0; i < sizeof paste_table / sizeof *paste_table; i++)
-		if (paste_table[i][1] == a.type && paste_table[i][0] == b.type)
-			ret.type = paste_table[i][2];
-	if (!ret.type)
-		ERROR(a.pos, "Invalid paste of %.*s and %.*s", b.str.len, b.str.str, a.str.len, a.str.str);
-
-	ret.str = sv_from_str(allocate_printf("%s%s", sv_to_str(b.str), sv_to_str(a.str))); // TODO: This can be done better.
-	ret.hs = string_set_intersection(a.hs, b.hs);
-	ret.pos = a.pos;
+// Pastes two tokens together. T_NONE is used as a placemarker (6.10.3.3).
+static struct token glue(struct token lhs, struct token rhs) {
+	if (lhs.type == T_NONE)
+		return rhs;
+	if (rhs.type == T_NONE)
+		return lhs;
+
+	char *contents = allocate_printf("%.*s%.*s", lhs.str.len, lhs.str.str,
+									 rhs.str.len, rhs.str.str);
+	struct token_list pasted = tokenize_input(contents, lhs.pos.path);
+
+	if (pasted.size != 1)
+		ERROR(lhs.pos, "Invalid paste of %.*s and %.*s", lhs.str.len, lhs.str.str,
+			  rhs.str.len, rhs.str.str);
+
+	struct token ret = pasted.list[0];
+	token_list_free(&pasted);
+
+	if (ret.type == PP_DIRECTIVE)
+		ret.type = PP_HASH;
+	ret.whitespace = lhs.whitespace;
+	ret.first_of_line = lhs.first_of_line;
+	ret.whitespace_after = rhs.whitespace_after;
+	ret.first_of_line_after = rhs.first_of_line_after;
+	ret.hs = string_set_intersection(lhs.hs, rhs.hs);
+	ret.pos = lhs.pos;
 
 	return ret;
 }
@@ -291,6 +268,8 @@ static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma,
 	struct token t;
 	do {
 		t = input_buffer_take(input);
+		if (t.type == T_EOI)
+			ERROR(t.pos, "Unterminated argument list to macro");
 		if(t.type == T_LPAR) {
 			depth++;
 		} else if(t.type == T_RPAR) {
@@ -318,40 +297,26 @@ static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma,
 	return t.type == T_RPAR;
 }
 
-static void expand_argument(struct token origin, struct token_list tl, int *concat_with_prev, int concat, int stringify, int input) {
-	int start_it = tl.size - 1;
+// Fully macro replaces an argument, as if it formed the rest of the file.
+static struct token_list expand_argument(struct token_list tl) {
+	struct token_list ret = {0};
 
-	if (*concat_with_prev && tl.size) {
-		struct token *end = input_buffer_top(input);
-		*end = glue(*end, tl.list[start_it--]);
-	}
+	for (int i = 0; i < tl.size; i++)
+		token_list_add(&ret, tl.list[i]);
+	expand_token_list(&ret);
 
-	int run_expand_again = 0;
-	if (!(concat || stringify)) {
-		run_expand_again = 1;
-		struct token t = { .type = T_EOI };
-		input_buffer_push(&t);
-	}
+	return ret;
+}
 
-	for(int i = start_it; i >= 0; i--) {
-		struct token t = tl.list[i];
-		if (i == 0)
-			t.whitespace = t.whitespace || origin.whitespace;
-		if (i == start_it)
-			t.whitespace_after = t.whitespace_after || origin.whitespace_after;
-		input_buffer_push(&t);
-	}
+static struct token stringify(struct token origin, struct token_list tl) {
+	stringify_start();
 
-	if (run_expand_again) {
-		size_t output_pos = output_buffer.size;
-		expand_buffer(input, 0, NULL);
+	for (int i = 0; i < tl.size; i++)
+		stringify_add(tl.list + i, i == 0);
 
-		for (int i = output_buffer.size - 1; i >= (int)output_pos; i--) {
-			input_buffer_push(&output_buffer.tokens[i]);
-		}
-		output_buffer.size = output_pos;
-		// Expand argument again.
-	}
+	origin.type = T_STRING;
+	origin.str = stringify_end();
+	return origin;
 }
 
 static void subs_buffer(struct token origin, struct define *def, struct string_set *hs, struct position new_pos, int input) {
@@ -394,83 +359,88 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 
 	string_set_insert(hs, sv_to_str(def->name));
 
-	size_t input_start = input_buffer.size;
-	int concat_with_prev = 0;
-	for(int i = def->def.size - 1; i >= 0; i--) {
+	struct token_list out = {0};
+	for (int i = 0; i < def->def.size; i++) {
 		struct token t = def->def.list[i];
+		int paste = 0;
 
-		const int concat = (i != 0) && def->def.list[i - 1].type == PP_HHASH;
-		const int stringify = (i != 0) && def->def.list[i - 1].type == PP_HASH;
-
-		if (t.type == PP_HHASH)
-			ERROR(t.pos, "Concat token at edge of macro expansion.");
-
-		if (sv_string_cmp(t.str, "__VA_ARGS__")) {
-			const int va_args_paste = concat && i - 2 >= 0 &&
-				def->def.list[i - 2].type == T_COMMA;
-
-			if (va_args_paste && !vararg_included) {
-				i--; // There is an additional i-- at the end of the loop.
-			} else if (stringify) {
-				struct token_list tl = vararg;
-				stringify_start();
-
-				for(int i = 0; i < tl.size; i++)
-					stringify_add(tl.list + i, i == 0);
-
-				struct token t_new = t;
-				t_new.type = T_STRING;
-				t_new.str = stringify_end();
-				input_buffer_push(&t_new);
-			} else if (vararg_included) {
-				expand_argument(t, vararg, &concat_with_prev, concat, stringify, input);
-				
-				if (vararg.size)
-					concat_with_prev = !va_args_paste && concat;
+		if (t.type == PP_HHASH) {
+			if (i == 0 || i + 1 == def->def.size)
+				ERROR(t.pos, "Concat token at edge of macro expansion.");
+			paste = 1;
+			t = def->def.list[++i];
+		}
+
+		const int paste_after = i + 1 < def->def.size &&
+			def->def.list[i + 1].type == PP_HHASH;
+		const int is_stringify = def->func && t.type == PP_HASH;
+
+		struct token_list *arg = NULL;
+		if (is_stringify && i + 1 < def->def.size)
+			i++;
+		struct token param = def->def.list[i];
+		if (def->vararg && param.type == T_IDENT && sv_string_cmp(param.str, "__VA_ARGS__"))
+			arg = &vararg;
+		else if (get_param(def, param) >= 0)
+			arg = &arguments[get_param(def, param)];
+
+		// The tokens to be added, one of them might be a placemarker.
+		struct token_list tokens = {0};
+		if (is_stringify) {
+			if (!arg)
+				ERROR(t.pos, "# Should be followed by macro parameter");
+			token_list_add(&tokens, stringify(t, *arg));
+		} else if (arg) {
+			const int expand = !paste && !paste_after;
+
+			if (paste && arg == &vararg && def->def.list[i - 2].type == T_COMMA) {
+				// Extension: The comma is removed if there are no variable arguments.
+				paste = 0;
+				if (!vararg_included)
+					out.size--;
 			}
-		} else {
-			const int idx = get_param(def, t);
-			if (idx >= 0 && stringify) {
-				struct token_list tl = arguments[idx];
-				stringify_start();
-
-				for(int i = 0; i < tl.size; i++)
-					stringify_add(tl.list + i, i == 0);
-
-				struct token t_new = t;
-				t_new.type = T_STRING;
-				t_new.str = stringify_end();
-				input_buffer_push(&t_new);
-			} else if(idx >= 0) {
-				expand_argument(t, arguments[idx], &concat_with_prev, concat, stringify, input);
-
-				if (arguments[idx].size)
-					concat_with_prev = concat;
+
+			if (!expand) {
+				for (int j = 0; j < arg->size; j++)
+					token_list_add(&tokens, arg->list[j]);
+			} else {
+				tokens = expand_argument(*arg);
+			}
+
+			if (tokens.size) {
+				tokens.list[0].whitespace = tokens.list[0].whitespace || t.whitespace;
+				tokens.list[tokens.size - 1].whitespace_after =
+					tokens.list[tokens.size - 1].whitespace_after || t.whitespace_after;
 			} else {
-				if (concat_with_prev) {
-					struct token *end = input_buffer_top(input);
-					*end = glue(*end, t);
-					concat_with_prev = 0;
-				} else if (stringify) {
-					ERROR(t.pos, "# Should be followed by macro parameter");
-				} else {
-					t.pos = new_pos;
-					input_buffer_push(&t);
-				}
-
-				if (concat)
-					concat_with_prev = 1;
+				token_list_add(&tokens, (struct token) {
+						.type = T_NONE, .whitespace = t.whitespace, .pos = new_pos });
 			}
+		} else {
+			t.pos = new_pos;
+			token_list_add(&tokens, t);
+		}
+
+		for (int j = 0; j < tokens.size; j++) {
+			if (j == 0 && paste)
+				out.list[out.size - 1] = glue(out.list[out.size - 1], tokens.list[j]);
+			else
+				token_list_add(&out, tokens.list[j]);
 		}
 
-		if (concat || stringify)
-			i--;
+		token_list_free(&tokens);
 	}
 
 	for(int i = 0; i < n_args; i++) {
 		token_list_free(&arguments[i]);
 	}
 
+	size_t input_start = input_buffer.size;
+	for (int i = out.size - 1; i >= 0; i--) {
+		if (out.list[i].type != T_NONE)
+			input_buffer_push(&out.list[i]);
+	}
+	token_list_free(&out);
+
 	for(unsigned i = input_start; i < input_buffer.size; i++) {
 		struct token *tok = &input_buffer.tokens[i];
 		tok->hs = string_set_union(*hs, tok->hs);
@@ -481,6 +451,10 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 			tok->whitespace = tok->whitespace || origin.whitespace;
 	}
 
+	// Whatever comes first is now the first of the line.
+	if (origin.first_of_line && (input || input_buffer.size))
+		input_buffer_top(input)->first_of_line = 1;
+
 	free(arguments);
 }
 
-- 
2.43.0


From cd17fd54fd22d64256dc64785cd655589944896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:40 +0000
Subject: [PATCH 038/106] fix: pop_macro of a macro that was not defined when
 pushed

---
 src/preprocessor/directives.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 6610027..65e1f92 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -26,6 +26,7 @@ static const char *new_path = NULL;
 static int line_diff = 0;
 
 struct macro_stack {
+	struct string_view name;
 	size_t size, cap;
 	struct define *defines;
 };
@@ -406,27 +407,26 @@ static int directiver_evaluate_conditional(struct token dir) {
 static void push_macro(struct string_view name) {
 	struct macro_stack *stack = NULL;
 	for (unsigned i = 0; i < macro_stack_size; i++) {
-		if (macro_stacks[i].size &&
-			sv_cmp(macro_stacks[i].defines[0].name, name)) {
+		if (sv_cmp(macro_stacks[i].name, name)) {
 			stack = &macro_stacks[i];
 		}
 	}
 
 	if (!stack) {
 		stack = &ADD_ELEMENT(macro_stack_size, macro_stack_cap, macro_stacks);
-		*stack = (struct macro_stack) { 0 };
+		*stack = (struct macro_stack) { .name = name };
 	}
 
+	// An undefined macro is represented by a define without a name.
 	struct define *current_define = define_map_get(name);
-	if (current_define)
-		ADD_ELEMENT(stack->size, stack->cap, stack->defines) = *current_define;
+	ADD_ELEMENT(stack->size, stack->cap, stack->defines) =
+		current_define ? *current_define : (struct define) { 0 };
 }
 
 static void pop_macro(struct string_view name) {
 	struct macro_stack *stack = NULL;
 	for (unsigned i = 0; i < macro_stack_size; i++) {
-		if (macro_stacks[i].size &&
-			sv_cmp(macro_stacks[i].defines[0].name, name)) {
+		if (sv_cmp(macro_stacks[i].name, name)) {
 			stack = &macro_stacks[i];
 		}
 	}
@@ -434,7 +434,11 @@ static void pop_macro(struct string_view name) {
 	if (!stack)
 		return;
 
-	define_map_add(stack->defines[--stack->size]);
+	struct define define = stack->defines[--stack->size];
+	if (define.name.len)
+		define_map_add(define);
+	else
+		define_map_remove(name);
 
 	if (!stack->size)
 		REMOVE_ELEMENT(macro_stack_size, macro_stacks, stack - macro_stacks);
-- 
2.43.0


From 27c06f1816d7ffd6c2abb040f6db387c2e0b59aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:23 +0000
Subject: [PATCH 039/106] fix: reject malformed and too large numeric
 constants, round float constants once

---
 src/arch/x64.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 4a90c72..98fa6f6 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -310,16 +310,17 @@ static int is_float(struct string_view str) {
 }
 
 static struct constant floating_point_constant_from_string(struct string_view sv) {
-	char *str = sv_to_str(sv);
-	double d = strtod(str, NULL);
-	char suffix = str[strlen(str) - 1];
+	char *str = sv_to_str(sv), *suffix;
+	double d = strtod(str, &suffix);
 
 	struct constant res = { .type = CONSTANT_TYPE };
-	if (suffix == 'f' || suffix == 'F') {
+	if (!strcmp(suffix, "f") || !strcmp(suffix, "F")) {
 		res.data_type = type_simple(ST_FLOAT);
-		res.float_d = d;
-	} else if (suffix == 'l' || suffix == 'L') {
+		res.float_d = strtof(str, NULL);
+	} else if (!strcmp(suffix, "l") || !strcmp(suffix, "L")) {
 		ICE("Constants of type long double is not supported by this compiler. %s", str);
+	} else if (*suffix) {
+		ICE("Invalid format of floating constant: %s", str);
 	} else {
 		res.data_type = type_simple(ST_DOUBLE);
 		res.double_d = d;
@@ -355,7 +356,10 @@ static struct constant integer_constant_from_string(struct string_view str) {
 	if (base == BASE_HEXADECIMAL || base == BASE_BINARY)
 		start += 2;
 
+	const int first_digit = start;
+	int overflow = 0;
 	for (; start < str.len; start++) {
+		const unsigned long long prev = parsed;
 		int binary_digit = (str.str[start] >= '0' && str.str[start] <= '1');
 		int octal_digit = (str.str[start] >= '0' && str.str[start] <= '7');
 		int decimal_digit = (str.str[start] >= '0' && str.str[start] <= '9');
@@ -386,8 +390,16 @@ static struct constant integer_constant_from_string(struct string_view str) {
 			parsed += str.str[start] - 'a' + 10;
 		else if (high_hex_digit)
 			parsed += str.str[start] - 'A' + 10;
+
+		overflow |= parsed / (base == BASE_DECIMAL ? 10 : base == BASE_HEXADECIMAL ? 16 :
+							  base == BASE_OCTAL ? 8 : 2) != prev;
 	}
 
+	if (overflow)
+		ICE("Integer constant %.*s is too large", str.len, str.str);
+	if (start == first_digit)
+		ICE("Invalid format of integer constant: %.*s", str.len, str.str);
+
 	int allow_unsigned = base == BASE_HEXADECIMAL || base == BASE_OCTAL || base == BASE_BINARY;
 	int allow_signed = 1;
 	int allow_int = 1;
@@ -398,12 +410,18 @@ static struct constant integer_constant_from_string(struct string_view str) {
 		if (start + 1 < str.len &&
 			((str.str[start] == 'l' && str.str[start + 1] == 'l') ||
 			 (str.str[start] == 'L' && str.str[start + 1] == 'L'))) {
+			if (!allow_int)
+				ICE("Invalid format of integer constant: %.*s", str.len, str.str);
 			start += 2;
 			allow_int = allow_long = 0;
 		} else if (str.str[start] == 'l' || str.str[start] == 'L') {
+			if (!allow_int)
+				ICE("Invalid format of integer constant: %.*s", str.len, str.str);
 			start += 1;
 			allow_int = 0;
 		} else if (str.str[start] == 'u' || str.str[start] == 'U') {
+			if (!allow_signed)
+				ICE("Invalid format of integer constant: %.*s", str.len, str.str);
 			start += 1;
 			allow_unsigned = 1;
 			allow_signed = 0;
-- 
2.43.0


From 05b3fa0f2d565cd7a1f0dfd3671f7b6811fa0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:23 +0000
Subject: [PATCH 040/106] fix: tokenize comments, splices, digraphs, stray
 characters and UCNs as C does

---
 src/preprocessor/macro_expander.c |  23 ----
 src/preprocessor/tokenizer.c      | 167 ++++++++++++++++++++++--------
 src/preprocessor/tokens.h         |   1 +
 3 files changed, 124 insertions(+), 67 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 9feb20c..f9838ff 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -165,7 +165,6 @@ static void stringify_add(struct token *t, int start) {
 	if (!start && (t->whitespace || stringify_whitespace))
 		stringify_add_char(' ');
 	stringify_whitespace = t->whitespace_after;
-	const char *str = NULL;
 	switch (t->type) {
 	case T_STRING:
 	case T_CHARACTER_CONSTANT:
@@ -177,32 +176,10 @@ static void stringify_add(struct token *t, int start) {
 		}
 		break;
 
-#define KEY(A, B)
-#define X(A, B)
-#define SYM(TOKEN, STR) case TOKEN: str = STR; break;
-		#include "tokens.h"
-#undef KEY
-#undef X
-#undef SYM
-
-	case PP_HASH:
-	case PP_DIRECTIVE:
-		str = "#";
-		break;
-
-	case PP_HHASH:
-		str = "##";
-		break;
-
 	default:
 		for (int i = 0; i < t->str.len; i++)
 			stringify_add_char(t->str.str[i]);
 	}
-
-	if (str) {
-		for (int i = 0; str[i]; i++)
-			stringify_add_char(str[i]);
-	}
 }
 
 static int builtin_macros(struct token *t) {
diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 89c98bc..65c57be 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -22,7 +22,7 @@ enum {
 };
 
 static char eq_table[UCHAR_MAX + 1] = {
-	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 2,   2,   7,   2,   2,
+	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 7,   7,   7,   2,   2,
 	2, 2,  2,  2,  2, 2,   2,  2,  2,  2,  2,  2,   2,   2,   2,   2,
 	7, 33, 34, 35, 9, 37,  38, 39, 40, 41, 42, 43,  44,  45,  46,  47,
 	5, 5,  5,  5,  5, 5,   5,  5,  56, 5,  58, 59,  60,  61,  62,  63,
@@ -54,6 +54,22 @@ static void next_char(void) {
 	c = eq_table[(unsigned char)*str++];
 }
 
+struct tokenizer_state {
+	char c;
+	struct position pos;
+	const char *str;
+};
+
+static struct tokenizer_state save_state(void) {
+	return (struct tokenizer_state) { .c = c, .pos = pos, .str = str };
+}
+
+static void restore_state(struct tokenizer_state state) {
+	c = state.c;
+	pos = state.pos;
+	str = state.str;
+}
+
 static struct string_view remove_escape_sequences(const char *initial_pos) {
 	size_t len = str - initial_pos - 1;
 	char *ret_str = cc_malloc(len + 1);
@@ -61,10 +77,12 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	ret_str[len] = '\0';
 
 	char *read, *write;
-	// Remove '\\n':
+	// Remove "\\\n" and "\\\r\n":
 	for (write = read = ret_str; *read; read++) {
 		if (read[0] == '\\' && read[1] == '\n')
 			read += 1;
+		else if (read[0] == '\\' && read[1] == '\r' && read[2] == '\n')
+			read += 2;
 		else
 			*write++ = *read;
 	}
@@ -72,7 +90,10 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 
 	// Replace \Uxxxxxxxx and \uxxxx with decoded unicode.
 	for (write = read = ret_str; *read; read++) {
-		if (read[0] == '\\' && (read[1] == 'u' || read[1] == 'U')) {
+		if (read[0] == '\\' && read[1] == '\\') {
+			*write++ = *read++;
+			*write++ = *read;
+		} else if (read[0] == '\\' && (read[1] == 'u' || read[1] == 'U')) {
 			int n_digits = *++read == 'u' ? 4 : 8;
 
 			uint32_t codepoint = 0;
@@ -103,24 +124,19 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	return sv_from_str(ret_str);
 }
 
-static struct string_view remove_digit_separator(const char *initial_pos) {
-	size_t len = str - initial_pos - 1;
-	char *ret_str = cc_malloc(len + 1);
-	memcpy(ret_str, initial_pos, len);
-	ret_str[len] = '\0';
+static struct string_view remove_digit_separator(struct string_view number) {
+	char *ret_str = cc_malloc(number.len + 1);
 
 	char *write = ret_str;
-	// Remove '\\n':
-	for (char *read = ret_str; *read; read++) {
-		if (read[0] != '\'')
-			*write++ = *read;
+	for (int i = 0; i < number.len; i++) {
+		if (number.str[i] != '\'')
+			*write++ = number.str[i];
 	}
 	*write = '\0';
 
 	return sv_from_str(ret_str);
 }
 
-
 static void parse_number(void) {
 	for (;;) {
 		if (c == EQ_EXPONENT) {
@@ -128,13 +144,14 @@ static void parse_number(void) {
 			if ((c == '+' || c == '-'))
 				next_char();
 		} else if (c == '\'') {
+			struct tokenizer_state state = save_state();
 			next_char();
 			if (c == '8' || c == EQ_DECIMAL || c == EQ_ALPHA ||
-				c == 'u' || c == 'U' || c == 'L') {
+				c == 'u' || c == 'U' || c == 'L' || c == EQ_EXPONENT) {
 				needs_digit_separator_removed = 1;
-				next_char();
 			} else {
-				ERROR(pos, "Expected digit or non-digit after ' separator.");
+				restore_state(state);
+				break;
 			}
 		} else if (c == EQ_DECIMAL || c == '8' || c == EQ_ALPHA || c == 'u' ||
 		           c == 'U' || c == EQ_EXPONENT || c == 'L' || c == '.') {
@@ -145,23 +162,41 @@ static void parse_number(void) {
 	}
 }
 
-static void parse_string_like(char end_char) {
+// Returns 0, and leaves the rest of the line, if there is no end.
+static int parse_string_like(char end_char) {
+	struct tokenizer_state start = save_state();
+
 	while (c != '\n' && c != end_char && c != EQ_NULL) {
 		if (c == '\\') {
 			next_char();
-			if (c == 'u' || c == 'U') {
-				next_char();
+			if (c == 'u' || c == 'U')
 				needs_escape_sequences_removed = 1;
-			}
+			if (c == '\n' || c == EQ_NULL)
+				break;
 		}
 
 		next_char();
 	}
 
-	if (c != end_char)
-		ERROR(pos, "Invalid string");
+	if (c != end_char) {
+		restore_state(start);
+		needs_escape_sequences_removed = 0;
+		return 0;
+	}
+
+	next_char();
+	return 1;
+}
+
+static int at_universal_character_name(void) {
+	if (c != '\\')
+		return 0;
 
+	struct tokenizer_state state = save_state();
 	next_char();
+	const int ret = c == 'u' || c == 'U';
+	restore_state(state);
+	return ret;
 }
 
 static void parse_identifier(void) {
@@ -169,12 +204,10 @@ static void parse_identifier(void) {
 		if (c == EQ_ALPHA || c == 'u' || c == 'U' || c == EQ_EXPONENT ||
 		    c == 'L' || c == EQ_DECIMAL || c == '8' || c == EQ_UTF8) {
 			next_char();
-		} else if (c == '\\') {
+		} else if (at_universal_character_name()) {
 			next_char();
-			if (c == 'u' || c == 'U') {
-				next_char();
-				needs_escape_sequences_removed = 1;
-			}
+			next_char();
+			needs_escape_sequences_removed = 1;
 		} else {
 			break;
 		}
@@ -217,8 +250,8 @@ restart:
 			goto restart;
 
 		case '*':
+			next_char();
 			for (;;) {
-				next_char();
 				if (c == '*') {
 					next_char();
 					if (c == '/') {
@@ -227,6 +260,8 @@ restart:
 					}
 				} else if (c == EQ_NULL) {
 					ERROR(pos, "Comment reached end of file");
+				} else {
+					next_char();
 				}
 			}
 			next.whitespace = 1;
@@ -244,7 +279,8 @@ restart:
 			switch (c) {
 			case '"':
 				TYPE(T_STRING);
-				parse_string_like('"');
+				if (!parse_string_like('"'))
+					next.type = PP_OTHER;
 				break;
 
 			default:
@@ -256,12 +292,14 @@ restart:
 
 		case '"':
 			TYPE(T_STRING);
-			parse_string_like('"');
+			if (!parse_string_like('"'))
+				next.type = PP_OTHER;
 			break;
 
 		case '\'':
 			TYPE(T_CHARACTER_CONSTANT);
-			parse_string_like('\'');
+			if (!parse_string_like('\''))
+				next.type = PP_OTHER;
 			break;
 
 		default:
@@ -277,12 +315,14 @@ restart:
 		switch (c) {
 		case '"':
 			TYPE(T_STRING);
-			parse_string_like('"');
+			if (!parse_string_like('"'))
+				next.type = PP_OTHER;
 			break;
 
 		case '\'':
 			TYPE(T_CHARACTER_CONSTANT);
-			parse_string_like('\'');
+			if (!parse_string_like('\''))
+				next.type = PP_OTHER;
 			break;
 
 		default: parse_identifier(); break;
@@ -291,12 +331,14 @@ restart:
 
 	case '"':
 		TYPE(T_STRING);
-		parse_string_like('"');
+		if (!parse_string_like('"'))
+			next.type = PP_OTHER;
 		break;
 
 	case '\'':
 		TYPE(T_CHARACTER_CONSTANT);
-		parse_string_like('\'');
+		if (!parse_string_like('\''))
+			next.type = PP_OTHER;
 		break;
 
 	case EQ_EXPONENT:
@@ -322,12 +364,15 @@ restart:
 			parse_number();
 			break;
 
-		case '.':
+		case '.': {
+			struct tokenizer_state state = save_state();
 			next_char();
-			if (c != '.')
-				ERROR(pos, "Invalid token");
-			TYPE(T_ELLIPSIS);
-			break;
+			if (c == '.') {
+				TYPE(T_ELLIPSIS);
+			} else {
+				restore_state(state);
+			}
+		} break;
 		}
 		break;
 
@@ -344,10 +389,20 @@ restart:
 		}
 		break;
 
+	case '\\':
+		if (at_universal_character_name()) {
+			next.type = T_IDENT;
+			parse_identifier();
+		} else {
+			TYPE(PP_OTHER);
+		}
+		break;
+
 	case '<':
 		if (*is_header) {
 			TYPE(PP_HEADER_NAME_H);
-			parse_string_like('>');
+			if (!parse_string_like('>'))
+				next.type = PP_OTHER;
 		} else {
 			TYPE(T_L);
 			switch (c) {
@@ -359,6 +414,8 @@ restart:
 				break;
 
 			case '=': TYPE(T_LEQ); break;
+			case ':': TYPE(T_LBRACK); break;
+			case '%': TYPE(T_LBRACE); break;
 			}
 		}
 		break;
@@ -442,12 +499,34 @@ restart:
 		TYPE(T_MOD);
 		switch (c) {
 		case '=': TYPE(T_MODA); break;
+		case '>': TYPE(T_RBRACE); break;
+		case ':':
+			TYPE(PP_HASH);
+			if (c == '%') {
+				struct tokenizer_state state = save_state();
+				next_char();
+				if (c == ':') {
+					TYPE(PP_HHASH);
+				} else {
+					restore_state(state);
+				}
+			}
+			if (next.type == PP_HASH && next.first_of_line) {
+				next.type = PP_DIRECTIVE;
+				*is_directive = 1;
+			}
+			break;
 		}
 		break;
 
 	case '~': TYPE(T_BNOT); break;
 	case '?': TYPE(T_QUEST); break;
-	case ':': TYPE(T_COLON); break;
+	case ':':
+		TYPE(T_COLON);
+		switch (c) {
+		case '>': TYPE(T_RBRACK); break;
+		}
+		break;
 	case ';': TYPE(T_SEMI_COLON); break;
 	case '(': TYPE(T_LPAR); break;
 	case ')': TYPE(T_RPAR); break;
@@ -462,7 +541,7 @@ restart:
 		next.type = T_EOI;
 		break;
 
-	default: ERROR(next.pos, "Invalid token");
+	default: TYPE(PP_OTHER); break;
 	}
 
 	next.str = (struct string_view){
@@ -474,7 +553,7 @@ restart:
 		next.str = remove_escape_sequences(initial_pos);
 
 	if (needs_digit_separator_removed)
-		next.str = remove_digit_separator(initial_pos);
+		next.str = remove_digit_separator(next.str);
 
 	if (next.type == T_IDENT && *is_directive) {
 		*is_header = sv_string_cmp(next.str, "include");
diff --git a/src/preprocessor/tokens.h b/src/preprocessor/tokens.h
index aa223d6..b0db8b0 100644
--- a/src/preprocessor/tokens.h
+++ b/src/preprocessor/tokens.h
@@ -8,6 +8,7 @@ X(PP_HEADER_NAME_Q, "Header name")
 X(PP_HASH, "#")
 X(PP_HHASH, "##")
 X(PP_DIRECTIVE, "#")
+X(PP_OTHER, "Stray character")
 
 // Conditional tokens.
 X(COND_IF, "Conditional")
-- 
2.43.0


From 948726c9f04217b3817a6d600fb3b0fa2299487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:23 +0000
Subject: [PATCH 041/106] fix: check the structure of conditionals per file,
 evaluate #if in intmax_t

---
 src/preprocessor/directives.c | 227 +++++++++++++++++++++++++---------
 1 file changed, 167 insertions(+), 60 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 65e1f92..b57d33c 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -9,6 +9,14 @@
 
 #include <assert.h>
 
+struct conditional {
+	// 1: in the group that is processed, 0: no such group yet,
+	// -1: all remaining groups are skipped.
+	int state;
+	int has_else;
+	struct position pos;
+};
+
 struct tokenized_file {
 	int token_idx;
 	struct token_list tokens;
@@ -16,6 +24,9 @@ struct tokenized_file {
 	int pushed_idx;
 	struct token pushed[3];
 
+	int cond_stack_n, cond_stack_cap;
+	struct conditional *cond_stack;
+
 	const char *path;
 	struct tokenized_file *parent;
 };
@@ -90,18 +101,11 @@ void directiver_push_input(const char *path, int system) {
 		});
 }
 
-static struct token next(void);
-
 static struct token next_from_stack(void) {
-	if (current_file->token_idx == current_file->tokens.size) {
-		if (current_file->parent) {
-			token_list_free(&current_file->tokens);
-			current_file = current_file->parent;
-			return next();
-		}
-
-		return (struct token ) { .type = T_EOI };
-	}
+	// Lines, and therefore also directives, always end with the file.
+	if (current_file->token_idx == current_file->tokens.size)
+		return (struct token) { .type = T_EOI, .first_of_line = 1,
+			.pos.path = current_file->path };
 
 	return current_file->tokens.list[current_file->token_idx++];
 }
@@ -126,18 +130,38 @@ static struct token next(void) {
 	return t;
 }
 
-static void directiver_define(void) {
+static void skip_line(void) {
+	struct token t = next();
+	while (!t.first_of_line)
+		t = next();
+	push(t);
+}
+
+static struct token next_macro_name(void) {
 	struct token name = next();
+	if (name.first_of_line || name.type != T_IDENT ||
+		sv_string_cmp(name.str, "defined"))
+		ERROR(name.pos, "Expected macro name");
+	return name;
+}
+
+static int is_defined(struct string_view name) {
+	return define_map_get(name) || sv_string_cmp(name, "__LINE__") ||
+		sv_string_cmp(name, "__FILE__");
+}
+
+static void directiver_define(void) {
+	struct token name = next_macro_name();
 
 	struct define def = define_init(name.str);
 
 	struct token t = next();
 	if(t.type == T_LPAR && !t.whitespace) {
 		int idx = 0;
+		def.func = 1;
 		do {
 			t = next();
 			if(idx == 0 && t.type == T_RPAR) {
-				def.func = 1;
 				break;
 			}
 
@@ -145,10 +169,11 @@ static void directiver_define(void) {
 				t = next();
 				EXPECT(&t, T_RPAR);
 				def.vararg = 1;
-				def.func = 1;
 				break;
 			}
 			EXPECT(&t, T_IDENT);
+			if (t.first_of_line || token_list_index_of(&def.par, t) != -1)
+				ERROR(t.pos, "Invalid macro parameter");
 			define_add_par(&def, t);
 
 			t = next();
@@ -168,6 +193,17 @@ static void directiver_define(void) {
 
 	push(t);
 
+	for (int i = 0; i < def.def.size; i++) {
+		struct token *list = def.def.list;
+		if (list[i].type == PP_HHASH && (i == 0 || i + 1 == def.def.size))
+			ERROR(list[i].pos, "Concat token at edge of macro expansion.");
+		if (list[i].type == PP_HASH && def.func &&
+			(i + 1 == def.def.size ||
+			 (token_list_index_of(&def.par, list[i + 1]) == -1 &&
+			  !(def.vararg && sv_string_cmp(list[i + 1].str, "__VA_ARGS__")))))
+			ERROR(list[i].pos, "# Should be followed by macro parameter");
+	}
+
 	define_map_add(def);
 }
 
@@ -239,7 +275,10 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		expr = RESULT_UNARY(-, rhs);
 	} else if (t.type == T_NOT) {
 		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
-		expr = RESULT_UNARY(!, rhs);
+		expr = result_signed(result_is_zero(rhs));
+	} else if (t.type == T_BNOT) {
+		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
+		expr = RESULT_UNARY(~, rhs);
 	} else if (t.type == T_LPAR) {
 		expr = evaluate_expression(0, evaluate);
 		struct token rpar = buffer_next();
@@ -252,10 +291,15 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			ERROR(t.pos, "Floating point arithmetic in the preprocessor is not allowed.");
 		if (!type_is_integer(c.data_type))
 			ERROR(t.pos, "Preprocessor variables must be of integer type.");
-		if (is_signed(c.data_type->simple))
-			expr = result_signed(c.int_d);
+		// All integers have the type intmax_t or uintmax_t (6.10.1).
+		int has_unsigned_suffix = 0;
+		for (int i = 0; i < t.str.len; i++)
+			has_unsigned_suffix |= t.str.str[i] == 'u' || t.str.str[i] == 'U';
+		uintmax_t value = is_signed(c.data_type->simple) ? (uintmax_t)c.int_d : c.uint_d;
+		if (has_unsigned_suffix || value > INTMAX_MAX)
+			expr = result_unsigned(value);
 		else
-			expr = result_unsigned(c.uint_d);
+			expr = result_signed(value);
 	} else if (t.type == T_CHARACTER_CONSTANT) {
 		expr = result_signed(escaped_character_constant_to_int(t));
 	} else {
@@ -270,9 +314,12 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		if (t.type == T_QUEST) {
 			struct result mid = evaluate_expression(0, !result_is_zero(expr) ? evaluate : 0);
 			struct token colon = buffer_next();
-			assert(colon.type == T_COLON);
+			if (colon.type != T_COLON)
+				ERROR(colon.pos, "Expected :, got %s", dbg_token_type(colon.type));
 			struct result rhs = evaluate_expression(new_prec, result_is_zero(expr) ? evaluate : 0);
+			const int is_signed = mid.is_signed && rhs.is_signed;
 			expr = !result_is_zero(expr) ? mid : rhs;
+			expr.is_signed = is_signed;
 		} else if (t.type == T_AND) {
 			struct result rhs = evaluate_expression(new_prec, !result_is_zero(expr) ? evaluate : 0);
 			expr = result_signed(!result_is_zero(expr) && !result_is_zero(rhs));
@@ -284,12 +331,25 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			struct result rhs = evaluate_expression(new_prec, evaluate);
 
 			// Integer -> Unsigned integer promotion.
-			if (rhs.is_signed && !expr.is_signed)
+			if (t.type == T_LSHIFT || t.type == T_RSHIFT)
+				rhs.is_signed = expr.is_signed;
+			else if (rhs.is_signed && !expr.is_signed)
 				rhs = result_unsigned(rhs.i);
 			else if (!rhs.is_signed && expr.is_signed)
 				expr = result_unsigned(expr.i);
 
-			if (evaluate) {
+			if (!evaluate) {
+				switch (t.type) {
+				case T_EQ: case T_NEQ: case T_LEQ: case T_GEQ: case T_L: case T_G:
+					expr = result_signed(0);
+					break;
+				case T_BOR: case T_XOR: case T_AMP: case T_LSHIFT: case T_RSHIFT:
+				case T_ADD: case T_SUB: case T_STAR: case T_DIV: case T_MOD:
+					break;
+				default:
+					ERROR(t.pos, "Invalid infix %s", dbg_token(&t));
+				}
+			} else {
 				switch (t.type) {
 				case T_BOR: expr = RESULT_BINARY(|, expr, rhs); break;
 				case T_XOR: expr = RESULT_BINARY(^, expr, rhs); break;
@@ -333,19 +393,23 @@ static struct result evaluate_until_newline(void) {
 	buffer.size = 0;
 	struct token t = next();
 	while (!t.first_of_line) {
-		if (sv_string_cmp(t.str, "defined")) {
+		if (t.type == T_IDENT && sv_string_cmp(t.str, "defined")) {
 			t = next();
-			int has_lpar = t.type == T_LPAR;
+			int has_lpar = t.type == T_LPAR && !t.first_of_line;
 			if (has_lpar)
 				t = next();
 
-			int is_defined = define_map_get(t.str) != NULL;
-			token_list_add(&buffer, (struct token) {.type = T_NUM, .str = is_defined ? sv_from_str("1") :
+			if (t.first_of_line || t.type != T_IDENT)
+				ERROR(t.pos, "Expected identifier after defined");
+
+			token_list_add(&buffer, (struct token) {.type = T_NUM, .str = is_defined(t.str) ? sv_from_str("1") :
 					sv_from_str("0")});
 
 			t = next();
 
 			if (has_lpar) {
+				if (t.first_of_line)
+					ERROR(t.pos, "Expected )");
 				EXPECT(&t, T_RPAR);
 				t = next();
 			}
@@ -361,7 +425,11 @@ static struct result evaluate_until_newline(void) {
 	token_list_add(&buffer, (struct token) { .type = T_EOI });
 
 	buffer_pos = 0;
-	return evaluate_expression(0, 1);
+	struct result result = evaluate_expression(0, 1);
+	struct token end = buffer_next();
+	if (end.type != T_EOI)
+		ERROR(end.pos, "Unexpected %s in preprocessor expression", dbg_token(&end));
+	return result;
 }
 
 static struct string_view get_include_path(struct token dir, struct token t, int *system) {
@@ -390,10 +458,10 @@ static struct string_view get_include_path(struct token dir, struct token t, int
 static int directiver_evaluate_conditional(struct token dir) {
 	if (sv_string_cmp(dir.str, "ifdef") ||
 		sv_string_cmp(dir.str, "elifdef")) {
-		return (define_map_get(next().str) != NULL);
+		return is_defined(next_macro_name().str);
 	} else if (sv_string_cmp(dir.str, "ifndef") ||
 			   sv_string_cmp(dir.str, "elifndef")) {
-		return !(define_map_get(next().str) != NULL);
+		return !is_defined(next_macro_name().str);
 	} else if (sv_string_cmp(dir.str, "if") ||
 			   sv_string_cmp(dir.str, "elif")) {
 		return !result_is_zero(evaluate_until_newline());
@@ -489,17 +557,68 @@ static int directiver_handle_pragma(void) {
 	return 0;
 }
 
-struct token directiver_next(void) {
-	static int cond_stack_n = 0, cond_stack_cap = 0;
-	static int *cond_stack = NULL;
+static int is_skipping(void) {
+	return current_file->cond_stack_n &&
+		current_file->cond_stack[current_file->cond_stack_n - 1].state != 1;
+}
+
+static void directiver_conditional(struct token directive) {
+	struct string_view name = directive.str;
+
+	if (sv_string_cmp(name, "ifndef") ||
+		sv_string_cmp(name, "ifdef") ||
+		sv_string_cmp(name, "if")) {
+		struct conditional cond = { .state = -1, .pos = directive.pos };
+		if (!is_skipping())
+			cond.state = directiver_evaluate_conditional(directive);
+		ADD_ELEMENT(current_file->cond_stack_n, current_file->cond_stack_cap,
+					current_file->cond_stack) = cond;
+	} else {
+		if (!current_file->cond_stack_n)
+			ERROR(directive.pos, "#%.*s without #if", name.len, name.str);
+
+		struct conditional *cond =
+			&current_file->cond_stack[current_file->cond_stack_n - 1];
 
-	if (cond_stack_n == 0)
-		ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = 1;
+		if (sv_string_cmp(name, "endif")) {
+			current_file->cond_stack_n--;
+		} else {
+			if (cond->has_else)
+				ERROR(directive.pos, "#%.*s after #else", name.len, name.str);
+			cond->has_else = sv_string_cmp(name, "else");
+
+			if (cond->state == 0)
+				cond->state = directiver_evaluate_conditional(directive);
+			else
+				cond->state = -1;
+		}
+	}
+
+	skip_line();
+}
 
+struct token directiver_next(void) {
 	struct token t = next();
 	int pass_directive = 0;
-	while ((t.type == PP_DIRECTIVE || cond_stack[cond_stack_n - 1] != 1) &&
+	while ((t.type == PP_DIRECTIVE || t.type == T_EOI || is_skipping()) &&
 		!pass_directive) {
+		if (t.type == T_EOI) {
+			if (current_file->cond_stack_n)
+				ERROR(current_file->cond_stack[current_file->cond_stack_n - 1].pos,
+					  "Unterminated conditional directive");
+			free(current_file->cond_stack);
+			current_file->cond_stack = NULL;
+			current_file->cond_stack_cap = 0;
+
+			if (!current_file->parent)
+				return t;
+
+			token_list_free(&current_file->tokens);
+			current_file = current_file->parent;
+			t = next();
+			continue;
+		}
+
 		if (t.type != PP_DIRECTIVE) {
 			t = next();
 			continue;
@@ -511,42 +630,31 @@ struct token directiver_next(void) {
 			continue;
 		}
 
-		if (directive.type != T_IDENT &&
-			cond_stack[cond_stack_n - 1] != 1) {
+		if (directive.type != T_IDENT && is_skipping()) {
 			t = directive;
 			continue;
 		}
 
 		struct string_view name = directive.str;
 
-		assert(directive.type == T_IDENT);
+		if (directive.type != T_IDENT)
+			ERROR(directive.pos, "Expected directive name");
 
 		if (sv_string_cmp(name, "ifndef") ||
 			sv_string_cmp(name, "ifdef") ||
-			sv_string_cmp(name, "if")) {
-			if (cond_stack[cond_stack_n - 1] == 1) {
-				int result = directiver_evaluate_conditional(directive);
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = result ? 1 : 0;
-			} else {
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = -1;
-			}
-		} else if (sv_string_cmp(name, "elif") ||
-				   sv_string_cmp(name, "else") ||
-				   sv_string_cmp(name, "elifndef") ||
-				   sv_string_cmp(name, "elifdef")) {
-			if (cond_stack[cond_stack_n - 1] == 0) {
-				int result = directiver_evaluate_conditional(directive);
-				cond_stack[cond_stack_n - 1] = result;
-			} else {
-				cond_stack[cond_stack_n - 1] = -1;
-			}
-		} else if (sv_string_cmp(name, "endif")) {
-			cond_stack_n--;
-		} else if (cond_stack[cond_stack_n - 1] == 1) {
+			sv_string_cmp(name, "if") ||
+			sv_string_cmp(name, "elif") ||
+			sv_string_cmp(name, "else") ||
+			sv_string_cmp(name, "elifndef") ||
+			sv_string_cmp(name, "elifdef") ||
+			sv_string_cmp(name, "endif")) {
+			directiver_conditional(directive);
+		} else if (!is_skipping()) {
 			if (sv_string_cmp(name, "define")) {
 				directiver_define();
 			} else if (sv_string_cmp(name, "undef")) {
-				define_map_remove(next().str);
+				define_map_remove(next_macro_name().str);
+				skip_line();
 			} else if (sv_string_cmp(name, "error")) {
 				struct token msg = next();
 				if (msg.type == T_STRING)
@@ -571,9 +679,8 @@ struct token directiver_next(void) {
 					path = get_include_path(directive, path_tok, &system);
 				}
 
+				skip_line();
 				directiver_push_input(sv_to_str(path), system);
-			} else if (sv_string_cmp(name, "endif")) {
-				// Do nothing.
 			} else if (sv_string_cmp(name, "pragma")) {
 				if (directiver_handle_pragma()) {
 					push(directive);
-- 
2.43.0


From c2f42358ad65282db7ab334a206c7312c1af9451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:09 +0000
Subject: [PATCH 042/106] fix: tokens of 127 characters and more were truncated
 when printed

---
 src/debug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug.c b/src/debug.c
index 41d2e1a..4c936f6 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -32,12 +32,12 @@ static const char *simple_to_str(enum simple_type st) {
 }
 	
 #define DBG_PRINT(...) do {											\
-		int print_size = snprintf(buffer + curr_pos, char_buffer_size - 1 - curr_pos, __VA_ARGS__); \
+		int print_size = snprintf(buffer + curr_pos, char_buffer_size - curr_pos, __VA_ARGS__); \
 		int req_size = print_size + 1 + curr_pos; \
 		if (req_size > char_buffer_size) {								\
 			char_buffer_size = req_size;								\
 			buffer = cc_realloc(buffer, char_buffer_size);					\
-			snprintf(buffer + curr_pos, char_buffer_size - 1 - curr_pos, __VA_ARGS__); \
+			snprintf(buffer + curr_pos, char_buffer_size - curr_pos, __VA_ARGS__); \
 		}																\
 		curr_pos += print_size;\
 	} while (0)
-- 
2.43.0


From 5ddc81c7652dcaa44c5d7d1162c60e165bd35c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:09 +0000
Subject: [PATCH 043/106] fix: the token following a string literal was not
 converted

---
 src/preprocessor/string_concat.c | 66 +++++++++++++++++---------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index fe55322..e672e6a 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -137,13 +137,46 @@ static void escape_string_to_buffer(struct string_view input, enum string_type t
 	assert(input.len && input.str[0] == end_char);
 }
 
+static struct token convert_token(struct token t) {
+	if (t.type == T_IDENT) {
+		t.type = get_ident(t.str);
+	} else if (t.type == T_CHARACTER_CONSTANT) {
+		enum string_type type = take_string_prefix(&t.str);
+
+		if (type == STRING_U8)
+			ERROR(t.pos, "Can't have character constant with u8 prefix.");
+
+		buffer_start();
+		escape_string_to_buffer(t.str, type);
+		t.str = buffer_get();
+
+		switch (type) {
+		case STRING_DEFAULT:
+			t.type = T_CHARACTER_CONSTANT;
+			break;
+		case STRING_U_LARGE:
+			t.type = T_CHARACTER_CONSTANT_CHAR32;
+			break;
+		case STRING_U_SMALL:
+			t.type = T_CHARACTER_CONSTANT_CHAR16;
+			break;
+		case STRING_L:
+			t.type = T_CHARACTER_CONSTANT_WCHAR;
+			break;
+		default: NOTIMP();
+		}
+	}
+
+	return t;
+}
+
 struct token string_concat_next(void) {
 	static struct token prev = { 0 };
 
 	if (prev.type) {
 		struct token ret = prev;
 		prev = (struct token) { 0 };
-		return ret;
+		return convert_token(ret);
 	}
 
 	struct token t = expander_next();
@@ -210,36 +243,7 @@ struct token string_concat_next(void) {
 		return ret;
 	}
 
-	if (t.type == T_IDENT) {
-		t.type = get_ident(t.str);
-	} else if (t.type == T_CHARACTER_CONSTANT) {
-		enum string_type type = take_string_prefix(&t.str);
-
-		if (type == STRING_U8)
-			ERROR(t.pos, "Can't have character constant with u8 prefix.");
-
-		buffer_start();
-		escape_string_to_buffer(t.str, type);
-		t.str = buffer_get();
-
-		switch (type) {
-		case STRING_DEFAULT:
-			t.type = T_CHARACTER_CONSTANT;
-			break;
-		case STRING_U_LARGE:
-			t.type = T_CHARACTER_CONSTANT_CHAR32;
-			break;
-		case STRING_U_SMALL:
-			t.type = T_CHARACTER_CONSTANT_CHAR16;
-			break;
-		case STRING_L:
-			t.type = T_CHARACTER_CONSTANT_WCHAR;
-			break;
-		default: NOTIMP();
-		}
-	}
-
-	return t;
+	return convert_token(t);
 }
 
 intmax_t escaped_character_constant_to_int(struct token t) {
-- 
2.43.0


From e2df95e2804482ff7a112368b83c88a5b5fab4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 044/106] fix: alignment of object sections was lost when
 already met

---
 src/linker/object.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/linker/object.c b/src/linker/object.c
index 9be7e0d..2bdb87b 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -103,11 +103,10 @@ void object_write_zero(size_t size) {
 void object_align(size_t alignment) {
 	struct section *section = &current_object.sections[current_section];
 	size_t remainder = section->size % alignment;
-	if (remainder == 0)
-		return;
-
-	object_write_zero(alignment - remainder);
 	section->alignment = MAX(section->alignment, alignment);
+
+	if (remainder != 0)
+		object_write_zero(alignment - remainder);
 }
 
 void object_symbol_relocate(label_id label, int64_t offset, int64_t add, enum relocation_type type) {
-- 
2.43.0


From bc14dd4f38898c0f66732a47fa5c43f441d3fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:06 +0000
Subject: [PATCH 045/106] fix: registers r8-r15 and (%rbp) were encoded wrongly
 in operands

---
 src/assembler/encode.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/assembler/encode.c b/src/assembler/encode.c
index db50d80..c623737 100644
--- a/src/assembler/encode.c
+++ b/src/assembler/encode.c
@@ -68,12 +68,11 @@ static void encode_sib(struct operand *o, int *rex_b, int *rex_x, int *modrm_mod
 				*rex_b = 1;
 		} else if (o->mem.base == REG_RBP ||
 				   o->mem.base == REG_R13) {
-			*sib_index = 4;
+			*modrm_rm = 5;
 			*modrm_mod = 1;
 
 			*has_disp8 = 1;
 			*disp = 0;
-			*sib_base = 5;
 			if (o->mem.base == REG_R13)
 				*rex_b = 1;
 		} else {
@@ -239,16 +238,14 @@ static void assemble_encoding(uint8_t *output, int *len, struct encoding *encodi
 				modrm_mod = 3;
 
 				modrm_rm = register_index(o->reg.reg);
-				if (has_rex)
-					rex_b = (modrm_rm & 0x8) >> 3;
+				rex_b = (modrm_rm & 0x8) >> 3;
 				break;
 
 			case OPERAND_SSE_REG:
 				modrm_mod = 3;
 
 				modrm_rm = o->sse_reg;
-				if (has_rex)
-					rex_b = (modrm_rm & 0x8) >> 3;
+				rex_b = (modrm_rm & 0x8) >> 3;
 				break;
 
 			case OPERAND_MEM: {
@@ -283,7 +280,8 @@ static void assemble_encoding(uint8_t *output, int *len, struct encoding *encodi
 			break;
 
 		case OE_OPEXT:
-			op_ext = register_index(o->reg.reg);
+			op_ext = register_index(o->reg.reg) & 7;
+			rex_b = (register_index(o->reg.reg) & 0x8) >> 3;
 			break;
 
 		case OE_NONE:
@@ -308,7 +306,7 @@ static void assemble_encoding(uint8_t *output, int *len, struct encoding *encodi
 			i--;
 	}
 
-	if (rex_b || rex_r) {
+	if (rex_b || rex_r || rex_x) {
 		has_rex = 1;
 	}
 
@@ -337,6 +335,7 @@ static void assemble_encoding(uint8_t *output, int *len, struct encoding *encodi
 			rex_byte |= 0x8;
 
 		rex_byte |= rex_b;
+		rex_byte |= rex_x << 1;
 		rex_byte |= rex_r << 2;
 
 		WRITE_8(rex_byte);
-- 
2.43.0


From f87a040c7bbcfaaf989ec6ca2fa4e4e390f621f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:48 +0000
Subject: [PATCH 046/106] fix: labels of 64 characters and more were refused

---
 src/assembler/assembler.c |  4 +---
 src/codegen/rodata.c      | 15 ++++++++-------
 src/codegen/rodata.h      |  3 ++-
 src/linker/object.c       | 15 ++++-----------
 4 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/assembler/assembler.c b/src/assembler/assembler.c
index 07a2e31..1b8c5ac 100644
--- a/src/assembler/assembler.c
+++ b/src/assembler/assembler.c
@@ -63,9 +63,7 @@ static void asm_emit_no_newline(const char *fmt, ...) {
 }
 
 static void emit_label(label_id id) {
-	char buffer[64];
-	rodata_get_label(id, sizeof buffer, buffer);
-	asm_emit_no_newline("%s", buffer);
+	asm_emit_no_newline("%s", rodata_get_label(id));
 }
 
 void asm_section(const char *section) {
diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index a6a0ed3..87752c1 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -47,20 +47,21 @@ label_id rodata_register(struct string_view str) {
 	return label_register(ENTRY_STR, str);
 }
 
-void rodata_get_label(label_id id, int n, char buffer[]) {
-	int res;
+const char *rodata_get_label(label_id id) {
+	static char *buffer = NULL;
+	static size_t capacity = 0;
+
 	if (id < 0) { // Temporary label.
-		res = snprintf(buffer, n, ".L%d", -id);
+		expand_printf(&buffer, &capacity, ".L%d", -id);
 	} else if (entries[id].type == ENTRY_STR) {
-		res = snprintf(buffer, n, ".Ls%d", id);
+		expand_printf(&buffer, &capacity, ".Ls%d", id);
 	} else if (entries[id].type == ENTRY_LABEL_NAME) {
-		res = snprintf(buffer, n, "%.*s", entries[id].name.len, entries[id].name.str);
+		expand_printf(&buffer, &capacity, "%.*s", entries[id].name.len, entries[id].name.str);
 	} else {
 		NOTIMP();
 	}
 
-	if (res >= n)
-		ICE("Label name too long");
+	return buffer;
 }
 
 void rodata_codegen(void) {
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index 1dfc83d..fdac258 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -9,7 +9,8 @@ label_id rodata_register(struct string_view str);
 label_id register_label_name(struct string_view str);
 label_id register_label(void);
 
-void rodata_get_label(label_id id, int n, char buffer[]);
+// The result is only valid until the next call.
+const char *rodata_get_label(label_id id);
 
 void rodata_codegen(void);
 
diff --git a/src/linker/object.c b/src/linker/object.c
index 2bdb87b..fce4031 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -9,13 +9,11 @@ static struct object current_object;
 static int current_section = -1;
 
 static int get_symbol(label_id label) {
-	char buffer[64];
-
-	rodata_get_label(label, sizeof buffer, buffer);
+	const char *name = rodata_get_label(label);
 
 	for (unsigned i = 0; i < current_object.symbol_size; i++) {
 		if (current_object.symbols[i].name &&
-			strcmp(current_object.symbols[i].name, buffer) == 0)
+			strcmp(current_object.symbols[i].name, name) == 0)
 			return i;
 	}
 
@@ -23,13 +21,8 @@ static int get_symbol(label_id label) {
 		.section = -1,
 	};
 
-	if (label != -1) {
-		char buffer[64];
-
-		rodata_get_label(label, sizeof buffer, buffer);
-
-		symbol.name = strdup(buffer);
-	}
+	if (label != -1)
+		symbol.name = strdup(name);
 
 	ADD_ELEMENT(current_object.symbol_size, current_object.symbol_cap, current_object.symbols) = symbol;
 
-- 
2.43.0


From ae61db9a0924b48406c86b5a48313a2363c483ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:28 +0000
Subject: [PATCH 047/106] fix: wide string literals were not aligned

---
 src/codegen/rodata.c    | 16 +++++++++++-----
 src/codegen/rodata.h    |  2 +-
 src/parser/expression.h |  2 +-
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 87752c1..c502ace 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -20,15 +20,17 @@ struct entry {
 	} type;
 	struct string_view name;
 	label_id id;
+	int alignment;
 };
 
 static struct entry *entries = NULL;
 static int entries_size = 0, entries_cap = 0;
 
-static label_id label_register(enum entry_type type, struct string_view str) {
+static label_id label_register(enum entry_type type, struct string_view str, int alignment) {
 	for (int i = 0; i < entries_size; i++) {
 		if (sv_cmp(entries[i].name, str) &&
 			entries[i].type == type) {
+			entries[i].alignment = MAX(entries[i].alignment, alignment);
 			return entries[i].id;
 		}
 	}
@@ -37,14 +39,15 @@ static label_id label_register(enum entry_type type, struct string_view str) {
 	ADD_ELEMENT(entries_size, entries_cap, entries) = (struct entry) {
 		.type = type,
 		.name = str,
-		.id = id
+		.id = id,
+		.alignment = alignment
 	};
 
 	return id;
 }
 
-label_id rodata_register(struct string_view str) {
-	return label_register(ENTRY_STR, str);
+label_id rodata_register(struct string_view str, int alignment) {
+	return label_register(ENTRY_STR, str, alignment);
 }
 
 const char *rodata_get_label(label_id id) {
@@ -70,6 +73,9 @@ void rodata_codegen(void) {
 		if (entries[i].type != ENTRY_STR)
 			continue;
 
+		if (entries[i].alignment > 1)
+			asm_align(entries[i].alignment);
+
 		asm_label(0, entries[i].id);
 
 		asm_string(entries[i].name);
@@ -77,7 +83,7 @@ void rodata_codegen(void) {
 }
 
 label_id register_label_name(struct string_view str) {
-	return label_register(ENTRY_LABEL_NAME, str);
+	return label_register(ENTRY_LABEL_NAME, str, 1);
 }
 
 label_id register_label(void) {
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index fdac258..1806bd9 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -5,7 +5,7 @@
 
 typedef int label_id;
 
-label_id rodata_register(struct string_view str);
+label_id rodata_register(struct string_view str, int alignment);
 label_id register_label_name(struct string_view str);
 label_id register_label(void);
 
diff --git a/src/parser/expression.h b/src/parser/expression.h
index f1d8af4..31b8453 100644
--- a/src/parser/expression.h
+++ b/src/parser/expression.h
@@ -40,7 +40,7 @@ struct expr *expr_new(struct expr expr);
 			.constant = {												\
 				.type = CONSTANT_LABEL,									\
 				.data_type = type_array(type_simple(CHAR_TYPE), (STR).len / calculate_size(type_simple(CHAR_TYPE))), \
-				.label = {rodata_register(STR), .offset = 0}			\
+				.label = {rodata_register(STR, calculate_alignment(type_simple(CHAR_TYPE))), .offset = 0} \
 			}})
 
 #define EXPR_INT(I) expr_new((struct expr) {							\
-- 
2.43.0


From dcde10e5af5e98219afd2915ed0f58c0737401ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:28 +0000
Subject: [PATCH 048/106] fix: linkage, inline definitions and tentative
 definitions follow earlier declarations

---
 src/codegen/codegen.c        |  5 +++-
 src/ir/ir.h                  |  2 ++
 src/parser/declaration.c     | 55 ++++++++++++++++++++++++------------
 src/parser/function_parser.c | 17 +++++++++--
 src/parser/function_parser.h |  2 +-
 src/parser/symbols.h         |  3 ++
 6 files changed, 61 insertions(+), 23 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index a677079..63bdfee 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -761,8 +761,11 @@ int codegen_get_alloc_preamble(void) {
 }
 
 void codegen(void) {
-	for (struct node *func = first_function; func; func = func->next)
+	for (struct node *func = first_function; func; func = func->next) {
+		if (func->function.is_inline_definition)
+			continue;
 		codegen_function(func);
+	}
 
 	rodata_codegen();
 	data_codegen();
diff --git a/src/ir/ir.h b/src/ir/ir.h
index 6280172..05f9f07 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -166,6 +166,8 @@ struct node {
 
 		struct {
 			int is_global;
+			// Inline definitions with external linkage are not emitted (C11 6.7.4p7).
+			int is_inline_definition;
 			const char *name;
 			int preamble_alloc;
 
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 60c1b0f..cf01548 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1276,7 +1276,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (arg_n && !args)
 			ERROR(T0->pos, "Should not be null");
 
-		parse_function(name, type, arg_n, args, s.scs.static_n ? 0 : 1);
+		parse_function(name, type, arg_n, args, s.scs.static_n, s.fs.inline_n && !s.scs.extern_n);
 		*was_func = 1;
 		return 1;
 	}
@@ -1300,10 +1300,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 
 	// Check for agreement with previous declarations.
 	struct symbol_identifier *symbol = symbols_get_identifier_in_current_scope(name);
-	int prev_definition = 0;
+	const int prev_declaration = symbol != NULL;
 
 	if (symbol) {
-		prev_definition = symbol->has_definition;
 		struct type *prev_type = symbols_get_identifier_type(symbol);
 		struct type *composite_type = type_make_composite(type, prev_type);
 
@@ -1329,6 +1328,22 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		symbol->label.name = name;
 		symbol->label.type = type;
 
+		if (external) {
+			if (!prev_declaration) {
+				symbol->is_global = 1;
+				symbol->is_inline = 1;
+			}
+
+			if (s.scs.static_n)
+				symbol->is_global = 0;
+
+			if (!s.fs.inline_n || s.scs.extern_n)
+				symbol->is_inline = 0;
+
+			if (symbol->function && !symbol->is_inline)
+				symbol->function->function.is_inline_definition = 0;
+		}
+
 		return 1;
 	}
 
@@ -1337,7 +1352,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	int is_global = 0;
 	int is_tentative = 0;
 
-	if (s.scs.extern_n && has_init)
+	if (!external && s.scs.extern_n && has_init)
 		ERROR(T0->pos, "Extern declaration can't have initializer.");
 
 	if (s.scs.register_n)
@@ -1346,13 +1361,14 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	if (external) {
 		definition_is_static = 1;
 
+		// The linkage of an earlier declaration is kept.
 		if (!s.scs.static_n)
-			is_global = 1;
+			is_global = prev_declaration ? symbol->is_global : 1;
 
-		if (s.scs.extern_n) {
-			has_definition = 0;
-		} else if (has_init) {
+		if (has_init) {
 			has_definition = 1;
+		} else if (s.scs.extern_n) {
+			has_definition = 0;
 		} else {
 			is_tentative = 1;
 		}
@@ -1367,18 +1383,16 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		}
 	}
 
-	symbol->alignment = s.as.alignment;
+	symbol->alignment = MAX(symbol->alignment, s.as.alignment);
+	symbol->is_global = is_global;
 
-	if (!prev_definition) {
-		symbol->is_tentative = is_tentative;
-		symbol->is_global = is_global;
-		symbol->has_definition = has_definition;
-	} else {
-		if (!is_tentative && has_definition)
-			symbol->is_tentative = 0;
-	}
-	if (is_tentative && !prev_definition)
+	if (has_definition) {
+		symbol->is_tentative = 0;
+		symbol->has_definition = 1;
+	} else if (is_tentative && !symbol->is_tentative && !symbol->has_definition) {
+		symbol->is_tentative = 1;
 		ADD_ELEMENT(potentially_tentative.size, potentially_tentative.cap, potentially_tentative.names) = name;
+	}
 
 	if (has_definition) {
 		if (definition_is_static) {
@@ -1489,6 +1503,11 @@ void generate_tentative_definitions(void) {
 
 		if (symbol && symbol->is_tentative) {
 			struct type *type = symbols_get_identifier_type(symbol);
+
+			// An array of unknown size has one element (C11 6.9.2p5).
+			if (type->type == TY_INCOMPLETE_ARRAY)
+				type = type_array(type->children[0], 1);
+
 			data_register_static_var(name, type, (struct initializer) { 0 }, symbol->is_global, symbol->alignment);
 			symbol->is_tentative = 0;
 		}
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index c187ab0..8d583dc 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -517,7 +517,7 @@ struct string_view get_current_function_name(void) {
 	return current_function;
 }
 
-void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int global) {
+void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int is_static, int is_inline) {
 	(void)arg_n;
 	current_function = name;
 	struct symbol_identifier *symbol = symbols_get_identifier_global(name);
@@ -526,8 +526,17 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 
 	current_ret_val = type->children[0];
 
-	if (!symbol)
+	if (!symbol) {
 		symbol = symbols_add_identifier_global(name);
+		symbol->is_global = 1;
+		symbol->is_inline = 1;
+	}
+
+	// The linkage of an earlier declaration is kept.
+	if (is_static)
+		symbol->is_global = 0;
+	if (!is_inline)
+		symbol->is_inline = 0;
 
 	symbol->type = IDENT_LABEL;
 	symbol->label.type = type;
@@ -535,7 +544,9 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 
 	assert(type->type == TY_FUNCTION);
 
-	struct node *func = new_function(sv_to_str(name), global);
+	struct node *func = new_function(sv_to_str(name), symbol->is_global);
+	func->function.is_inline_definition = symbol->is_global && symbol->is_inline;
+	symbol->function = func;
 	abi_expr_function(func, type, args);
 
 	type_evaluate_vla(type);
diff --git a/src/parser/function_parser.h b/src/parser/function_parser.h
index c4aa6be..2355faf 100644
--- a/src/parser/function_parser.h
+++ b/src/parser/function_parser.h
@@ -4,7 +4,7 @@
 #include "parser.h"
 #include "parser/symbols.h"
 
-void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int global);
+void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int is_static, int is_inline);
 struct string_view get_current_function_name(void);
 
 #endif
diff --git a/src/parser/symbols.h b/src/parser/symbols.h
index 0363ead..24117d7 100644
--- a/src/parser/symbols.h
+++ b/src/parser/symbols.h
@@ -41,6 +41,9 @@ struct symbol_identifier {
 	};
 
 	int is_global, is_tentative, is_register;
+	// Have all file scope declarations of the function been inline, without extern?
+	int is_inline;
+	struct node *function; // NULL if the function has not been defined.
 	int has_definition;
 	int alignment;
 };
-- 
2.43.0


From 46f7ea7a06b3eb383562fba89b2224b97e7860b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:43 +0000
Subject: [PATCH 049/106] fix: linker: values of symbols of other objects,
 duplicate definitions, alignment

---
 src/linker/elf.c    |  7 ++++---
 src/linker/linker.c | 43 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 104f7df..25c3a25 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -217,6 +217,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			.size = elf_section->size,
 			.cap = elf_section->size,
 			.data = elf_section->data,
+			.alignment = elf_section->header.sh_addralign,
 		};
 
 		if (elf_section->header.sh_name)
@@ -280,12 +281,12 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			uint64_t r_addend = read_64(rela_data + 16);
 
 			int type = 0;
-			switch (r_info & 0xffff) {
+			switch (r_info & 0xffffffff) {
 			case R_X86_64_64: type = RELOCATE_64; break;
 			case R_X86_64_32S: type = RELOCATE_32; break;
 			case R_X86_64_PC32: type = RELOCATE_32_RELATIVE; break;
 			default:
-				ICE("Relocation %lu not implemented.", r_info & 0xffff);
+				ICE("Relocation %lu not implemented.", r_info & 0xffffffff);
 			}
 
 			if (!symbol_mapping)
@@ -297,7 +298,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			*relocation = (struct object_relocation) {
 				.add = r_addend,
 				.offset = r_offset,
-				.idx = symbol_mapping[(r_info >> 32) & 0xffff],
+				.idx = symbol_mapping[r_info >> 32],
 				.type = type,
 			};
 		}
diff --git a/src/linker/linker.c b/src/linker/linker.c
index ed9ad91..47fddd7 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -65,6 +65,20 @@ static struct object *combine_objects(int n_objects, struct object *objects) {
 		current_section_offset += objects[i].section_size;
 	}
 
+	// Every global symbol has exactly one definition.
+	for (unsigned i = 0; i < object.symbol_size; i++) {
+		struct symbol *symbol = &object.symbols[i];
+
+		if (!symbol->name || !symbol->global || symbol->section == -1)
+			continue;
+
+		for (unsigned j = 0; j < i; j++) {
+			if (object.symbols[j].name && object.symbols[j].global && object.symbols[j].section != -1 &&
+				strcmp(object.symbols[j].name, symbol->name) == 0)
+				ERROR_NO_POS("Linking error: multiple definitions of \"%s\".", symbol->name);
+		}
+	}
+
 	// Link symbols.
 	for (unsigned i = 0; i < object.symbol_size; i++) {
 		struct symbol *symbol = &object.symbols[i];
@@ -74,16 +88,18 @@ static struct object *combine_objects(int n_objects, struct object *objects) {
 				ICE("Invalid local relocation.\n");
 			}
 			int found_section = -1;
+			uint64_t found_value = 0;
 			for (unsigned j = 0; j < object.symbol_size; j++) {
 				if (object.symbols[j].name && object.symbols[j].global && object.symbols[j].section != -1) {
 					if (strcmp(object.symbols[j].name, symbol->name) == 0) {
-						if (object.symbols[j].section != -1)
-							found_section = object.symbols[j].section;
+						found_section = object.symbols[j].section;
+						found_value = object.symbols[j].value;
 					}
 				}
 			}
 
 			symbol->section = found_section;
+			symbol->value = found_value;
 		}
 	}
 
@@ -116,13 +132,14 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 	// Move sections into segment.
 	for (unsigned i = 0; i < object->section_size; i++) {
 		struct section *section = &object->sections[i];
-		uint8_t *dest = segment->data;
-		if (section->size) {
-			dest = ADD_ELEMENTS(segment->size, segment->cap, segment->data, section->size);
-			memcpy(dest, section->data, section->size);
-		}
 
-		size_t offset = dest - segment->data;
+		size_t padding = section->alignment > 1 ? (section->alignment - segment->size % section->alignment) % section->alignment : 0;
+		if (padding)
+			memset(ADD_ELEMENTS(segment->size, segment->cap, segment->data, padding), 0, padding);
+
+		size_t offset = segment->size;
+		if (section->size)
+			memcpy(ADD_ELEMENTS(segment->size, segment->cap, segment->data, section->size), section->data, section->size);
 
 		section_infos[i] = (struct section_info) {
 			.offset = offset,
@@ -167,19 +184,27 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 		}
 	}
 
+	int has_entry = 0;
 	for (unsigned i = 0; i < object->symbol_size; i++) {
 		struct symbol *symbol = &object->symbols[i];
 
+		if (symbol->section == -1)
+			continue;
+
 		struct section_info *symbol_section_info = &section_infos[symbol->section];
 		struct segment *symbol_segment = &executable.segments[symbol_section_info->segment_idx];
 
 		uint64_t symbol_value = symbol->value + symbol_section_info->offset + symbol_segment->load_address;
 
-		if (symbol->name && strcmp(symbol->name, "_start") == 0) {
+		if (symbol->name && symbol->global && strcmp(symbol->name, "_start") == 0) {
 			executable.entry = symbol_value;
+			has_entry = 1;
 		}
 	}
 
+	if (!has_entry)
+		ERROR_NO_POS("Linking error: \"_start\" is undefined.");
+
 	segment->load_size = segment->size;
 
 	return ALLOC(executable);
-- 
2.43.0


From 4ab8d7fd851a0a68c7a72bbd20c14882916e90fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:20 +0000
Subject: [PATCH 050/106] fix: #line applies to one file, and once to every
 line, macro expanded operands

---
 src/preprocessor/directives.c | 74 ++++++++++++-----------------------
 1 file changed, 25 insertions(+), 49 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index b57d33c..4b22d8e 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -29,13 +29,14 @@ struct tokenized_file {
 
 	const char *path;
 	struct tokenized_file *parent;
+
+	// Set by #line.
+	const char *new_path;
+	int line_diff;
 };
 
 static struct tokenized_file *current_file;
 
-static const char *new_path = NULL;
-static int line_diff = 0;
-
 struct macro_stack {
 	struct string_view name;
 	size_t size, cap;
@@ -68,8 +69,6 @@ void directiver_finish_writing_dependencies(const char *mt, const char *mf) {
 
 // Resets all global state. Not very elegant.
 void directiver_reset(void) {
-	new_path = NULL;
-	line_diff = 0;
 	current_file = NULL;
 
 	macro_stack_size = macro_stack_cap = 0;
@@ -113,6 +112,7 @@ static struct token next_from_stack(void) {
 static void push(struct token t) {
 	if (current_file->pushed_idx > 2)
 		ICE("Pushed too many directive tokens.");
+	t.pos.line -= current_file->line_diff; // Added back by next().
 	current_file->pushed[current_file->pushed_idx++] = t;
 }
 
@@ -124,9 +124,9 @@ static struct token next(void) {
 	} else {
 		t = next_from_stack();
 	}
-	t.pos.line += line_diff;
-	if (new_path)
-		t.pos.path = new_path;
+	t.pos.line += current_file->line_diff;
+	if (current_file->new_path)
+		t.pos.path = current_file->new_path;
 	return t;
 }
 
@@ -662,10 +662,6 @@ struct token directiver_next(void) {
 				else
 					ERROR(directive.pos, "#error directive was invoked.");
 			} else if (sv_string_cmp(name, "include")) {
-				// There is an issue with just resetting after include. But
-				// I'm interpreting the standard liberally to allow for this.
-				new_path = NULL;
-				line_diff = 0;
 				struct string_view path;
 				struct token path_tok = next();
 				int system;
@@ -690,52 +686,32 @@ struct token directiver_next(void) {
 				}
 			} else if (sv_string_cmp(name, "line")) {
 				// 6.10.4
-				struct token digit_seq = next(), s_char_seq;
-
-				if (digit_seq.first_of_line)
-					ERROR(digit_seq.pos, "Expected digit sequence after #line");
-
-				int has_s_char_seq = 0;
-				if (digit_seq.type != T_NUM) {
-					buffer.size = 0;
-					struct token t = digit_seq;
-					while (!t.first_of_line) {
-						token_list_add(&buffer, t);
-						t = next();
-					}
-
-					push(t);
+				buffer.size = 0;
+				struct token line_tok = next();
+				while (!line_tok.first_of_line) {
+					token_list_add(&buffer, line_tok);
+					line_tok = next();
+				}
+				push(line_tok);
 
-					expand_token_list(&buffer);
+				expand_token_list(&buffer);
 
-					if (buffer.size == 0) {
-						ERROR(digit_seq.pos, "Invalid #line macro expansion");
-					} else if (buffer.size >= 1) {
-						digit_seq = buffer.list[0];
-					} else if (buffer.size >= 2) {
-						s_char_seq = buffer.list[1];
-						has_s_char_seq = 1;
-					}
-				} else {
-					s_char_seq = next();
-					if (s_char_seq.first_of_line) {
-						push(s_char_seq);
-					} else {
-						has_s_char_seq = 1;
-					}
-				}
+				if (buffer.size == 0)
+					ERROR(directive.pos, "Expected digit sequence after #line");
 
-				if (digit_seq.first_of_line || digit_seq.type != T_NUM)
+				struct token digit_seq = buffer.list[0];
+				if (digit_seq.type != T_NUM)
 					ERROR(digit_seq.pos, "Expected digit sequence after #line");
 
-				line_diff += atoi(sv_to_str(digit_seq.str)) - directive.pos.line - 1;
+				current_file->line_diff += atoi(sv_to_str(digit_seq.str)) - directive.pos.line - 1;
 
-				if (has_s_char_seq) {
-					if (s_char_seq.type != T_STRING)
+				if (buffer.size > 1) {
+					struct token s_char_seq = buffer.list[1];
+					if (s_char_seq.type != T_STRING || buffer.size > 2)
 						ERROR(s_char_seq.pos, "Expected s char sequence as second argument to #line");
 					s_char_seq.str.len -= 2;
 					s_char_seq.str.str++;
-					new_path = sv_to_str(s_char_seq.str);
+					current_file->new_path = sv_to_str(s_char_seq.str);
 				}
 			} else {
 				ERROR(directive.pos, "#%s not implemented", dbg_token(&directive));
-- 
2.43.0


From 6bc6bf74d1cafcabbc249c038a5809c1bd4d9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:20 +0000
Subject: [PATCH 051/106] fix: state of one input file leaked into the next
 file of the same invocation

---
 src/codegen/rodata.c              | 15 ++++++++++++++-
 src/codegen/rodata.h              |  2 ++
 src/ir/ir.c                       | 10 ++++++++--
 src/main.c                        |  3 +++
 src/parser/declaration.c          |  8 +++++++-
 src/parser/declaration.h          |  2 ++
 src/parser/parser.c               |  1 +
 src/preprocessor/macro_expander.c | 15 +++++++++------
 src/preprocessor/preprocessor.c   |  2 ++
 src/preprocessor/string_concat.c  |  8 ++++++--
 src/preprocessor/string_concat.h  |  1 +
 11 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index c502ace..07efc0e 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -86,8 +86,9 @@ label_id register_label_name(struct string_view str) {
 	return label_register(ENTRY_LABEL_NAME, str, 1);
 }
 
+static int tmp_label_idx = -2; // -1 is left for null label.
+
 label_id register_label(void) {
-	static int tmp_label_idx = -2; // -1 is left for null label.
 	return tmp_label_idx--;
 }
 
@@ -343,3 +344,15 @@ void data_codegen(void) {
 		codegen_static_var(static_vars + i);
 	}
 }
+
+void rodata_reset(void) {
+	free(entries);
+	entries = NULL;
+	entries_size = entries_cap = 0;
+
+	free(static_vars);
+	static_vars = NULL;
+	static_vars_size = static_vars_cap = 0;
+
+	tmp_label_idx = -2;
+}
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index 1806bd9..ff99fa9 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -19,4 +19,6 @@ struct initializer;
 void data_register_static_var(struct string_view label, struct type *type, struct initializer init, int global, int alignment);
 void data_codegen(void);
 
+void rodata_reset(void);
+
 #endif
diff --git a/src/ir/ir.c b/src/ir/ir.c
index 3652ef3..32bfd7a 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -20,11 +20,12 @@ struct node **seals;
 static size_t nodes_size, nodes_cap;
 struct node **nodes;
 
+static int node_counter = 0;
+
 struct node *ir_new(int type, int size) {
 	struct node *next = ALLOC((struct node) { .type = type });
 
-	static int counter;
-	next->index = ++counter;
+	next->index = ++node_counter;
 	next->size = size;
 
 	next->parent_function = current_function;
@@ -82,6 +83,11 @@ void ir_reset(void) {
 	free(seals);
 	seal_size = seal_cap = 0;
 	seals = NULL;
+
+	free(nodes);
+	nodes_size = nodes_cap = 0;
+	nodes = NULL;
+	node_counter = 0;
 }
 
 static void set_state(struct node *node);
diff --git a/src/main.c b/src/main.c
index 3b91e3d..a2296db 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4,6 +4,7 @@
 #include "parser/parser.h"
 #include "parser/symbols.h"
 #include "codegen/codegen.h"
+#include "codegen/rodata.h"
 #include "common.h"
 #include "assembler/assembler.h"
 #include "linker/elf.h"
@@ -221,6 +222,7 @@ static void compile_file(const char *path,
 	preprocessor_reset();
 	ir_reset();
 	asm_reset();
+	rodata_reset();
 	parser_reset();
 }
 
@@ -351,6 +353,7 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 	preprocessor_reset();
 	ir_reset();
 	asm_reset();
+	rodata_reset();
 	parser_reset();
 }
 
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index cf01548..4ae1fb2 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1247,6 +1247,13 @@ struct {
 	struct string_view *names;
 } potentially_tentative;
 
+static int local_var = 0;
+
+void declaration_reset(void) {
+	potentially_tentative.size = 0;
+	local_var = 0;
+}
+
 static int parse_init_declarator(struct specifiers s, int external, int *was_func) {
 	*was_func = 0;
 	int was_abstract = 1, has_symbols = 0;
@@ -1399,7 +1406,6 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 			symbol->type = IDENT_LABEL;
 
 			if (!external) {
-				static int local_var = 0;
 				name = sv_from_str(allocate_printf(".LVAR%d%.*s", local_var++, name.len, name.str));
 			}
 
diff --git a/src/parser/declaration.h b/src/parser/declaration.h
index 0da9425..6533c35 100644
--- a/src/parser/declaration.h
+++ b/src/parser/declaration.h
@@ -107,4 +107,6 @@ int parse_declaration(int external);
 
 void generate_tentative_definitions(void);
 
+void declaration_reset(void);
+
 #endif
diff --git a/src/parser/parser.c b/src/parser/parser.c
index 200849a..dc01dfe 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -23,6 +23,7 @@ void parser_reset(void) {
 	current_packing = 0;
 	free(packs);
 	packs = NULL;
+	declaration_reset();
 	symbols_reset();
 }
 
diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index f9838ff..b5a3f4e 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -15,12 +15,6 @@ struct define_map {
 
 static struct define_map *define_map = NULL;
 
-void macro_expander_reset(void) {
-	free(define_map->entries);
-	free(define_map);
-	define_map = NULL;
-}
-
 void expand_buffer(int input, int return_output, struct token *t);
 void expand_token_list(struct token_list *ts);
 
@@ -208,6 +202,15 @@ static struct {
 	struct token *tokens;
 } output_buffer;
 
+void macro_expander_reset(void) {
+	free(define_map->entries);
+	free(define_map);
+	define_map = NULL;
+
+	input_buffer.size = 0;
+	output_buffer.size = 0;
+}
+
 static void input_buffer_push(struct token *t) {
 	struct token n_token = *t;
 	n_token.hs = string_set_dup(n_token.hs);
diff --git a/src/preprocessor/preprocessor.c b/src/preprocessor/preprocessor.c
index 3153578..bf4db53 100644
--- a/src/preprocessor/preprocessor.c
+++ b/src/preprocessor/preprocessor.c
@@ -43,6 +43,8 @@ void preprocessor_reset(void) {
 	directiver_reset();
 	input_reset();
 	macro_expander_reset();
+	string_concat_reset();
+	ts = (struct token_stream) { 0 };
 }
 
 void define_remove(const char *name) {
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index e672e6a..e084d64 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -170,9 +170,13 @@ static struct token convert_token(struct token t) {
 	return t;
 }
 
-struct token string_concat_next(void) {
-	static struct token prev = { 0 };
+static struct token prev = { 0 };
+
+void string_concat_reset(void) {
+	prev = (struct token) { 0 };
+}
 
+struct token string_concat_next(void) {
 	if (prev.type) {
 		struct token ret = prev;
 		prev = (struct token) { 0 };
diff --git a/src/preprocessor/string_concat.h b/src/preprocessor/string_concat.h
index cbebc9d..2bbe8ea 100644
--- a/src/preprocessor/string_concat.h
+++ b/src/preprocessor/string_concat.h
@@ -4,6 +4,7 @@
 #include "preprocessor.h"
 
 struct token string_concat_next(void);
+void string_concat_reset(void);
 
 // Used in directives.c to get integer values of
 // non-escaped character constants.
-- 
2.43.0


From 33e3e33027f640cec0bf378ec31af0f77c9e1d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:20 +0000
Subject: [PATCH 052/106] fix: -U was not implemented for -E

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index a2296db..5179f80 100644
--- a/src/main.c
+++ b/src/main.c
@@ -322,7 +322,7 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 		add_definition(arguments->defines[i]);
 
 	for (int i = 0; i < arguments->n_undefine; i++)
-		NOTIMP();
+		define_remove(arguments->undefines[i]);
 
 	if (arguments->flag_MD)
 		preprocessor_write_dependencies();
-- 
2.43.0


From 89e61aa7b47bb56324ffa2ffe587466d5f498afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:44 +0000
Subject: [PATCH 053/106] fix: members of __builtin_va_list had an
 indeterminate alignment

---
 src/abi/sysv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 22e8808..81e4e0f 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -583,7 +583,7 @@ void abi_init_sysv(void) {
 
 	struct field *fields = cc_malloc(sizeof *fields * 4);
 	for (int i = 0; i < 4; i++)
-		fields[i].bitfield = -1;
+		fields[i] = (struct field) { .bitfield = -1 };
 	fields[0].type = uint;
 	fields[0].name = sv_from_str("gp_offset");
 	fields[1].type = uint;
-- 
2.43.0


From 857d93dbb2fbbb2f9fc0a269a818eb6dab1a78ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 054/106] fix: a compound literal is an lvalue and can be
 assigned to

---
 src/parser/expression_to_ir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index ab763aa..c70cd39 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -456,6 +456,7 @@ static struct evaluated_expression evaluate_compound_literal(struct expr *expr)
 
 	return (struct evaluated_expression) {
 		.type = EE_POINTER,
+		.is_lvalue = 1,
 		.pointer = address,
 	};
 }
-- 
2.43.0


From e9fb85a45998174e4801fec82396707f3d18c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 055/106] fix: const members, array elements and conditional
 operands give const types

---
 src/parser/declaration.c |  7 +++--
 src/parser/expression.c  | 55 +++++++++++++++++++++++++++-------------
 src/types.c              | 15 +++++++++++
 3 files changed, 57 insertions(+), 20 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 4ae1fb2..0e3a3c5 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -618,7 +618,7 @@ static int null_type_qualifier(struct type_qualifiers *tq) {
 }
 
 static struct type *apply_tq(struct type *type, const struct type_qualifiers *tq) {
-	if (tq->const_n == 1)
+	if (tq->const_n >= 1)
 		type = type_make_const(type, 1);
 	return type;
 }
@@ -709,7 +709,10 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 			if (!allow_tq_in_array && !null_type_qualifier(&ast->array.tq)) {
 				ICE("Can't have type qualifiers in array outside of function prototype.");
 			} else if (allow_tq_in_array) {
-				type = apply_tq(type, &ast->array.tq);
+				// These qualify the pointer that the array is adjusted to.
+				struct type params = *type;
+				params.is_const = ast->array.tq.const_n >= 1;
+				type = type_create(&params, type->children);
 			}
 			ast = ast->parent;
 		} break;
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 5078ea7..ae5f659 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -155,8 +155,12 @@ static struct type *calculate_type(struct expr *expr) {
 	case E_CAST:
 		return expr->cast.target;
 
-	case E_DOT_OPERATOR:
-		return type_select(expr->member.lhs->data_type, expr->member.member_idx);
+	case E_DOT_OPERATOR: {
+		struct type *member = type_select(expr->member.lhs->data_type, expr->member.member_idx);
+		if (expr->member.lhs->data_type->is_const)
+			member = type_make_const(member, 1);
+		return member;
+	}
 
 	case E_CONDITIONAL:
 		assert(expr->args[1]->data_type == expr->args[2]->data_type);
@@ -241,21 +245,37 @@ static void cast_conditional(struct expr *expr) {
 		return;
 
 	if (type_is_pointer(a) && type_is_pointer(b)) {
-		struct type *composite;
-		if (type_remove_qualifications(type_deref(a)) == type_simple(ST_VOID))
-			expr->args[1] = expression_cast(expr->args[1], b);
-		else if (type_remove_qualifications(type_deref(b)) == type_simple(ST_VOID))
-			expr->args[2] = expression_cast(expr->args[2], a);
-		else if ((composite = type_make_composite(type_remove_qualifications(type_deref(a)),
-												  type_remove_qualifications(type_deref(b))))) {
-			composite = type_pointer(composite);
-			expr->args[2] = expression_cast(expr->args[2], composite);
-			expr->args[1] = expression_cast(expr->args[1], composite);
+		// See 6.5.15p6: a null pointer constant gives the type of the other
+		// operand, otherwise the result points to a type that has the
+		// qualifiers of both.
+		struct type *a_deref = type_deref(a), *b_deref = type_deref(b);
+		struct type *void_type = type_simple(ST_VOID), *composite;
+
+		if (a_deref == void_type && is_null_pointer_constant(expr->args[1])) {
+			composite = b_deref;
+		} else if (b_deref == void_type && is_null_pointer_constant(expr->args[2])) {
+			composite = a_deref;
 		} else {
-			ERROR(T0->pos, "Invalid combination of data types:\n%s and %s\n",
-				  strdup(dbg_type(a)),
-				  strdup(dbg_type(b)));
+			struct type *a_unqual = type_remove_qualifications(a_deref),
+				*b_unqual = type_remove_qualifications(b_deref);
+
+			if (a_unqual == void_type || b_unqual == void_type)
+				composite = void_type;
+			else
+				composite = type_make_composite(a_unqual, b_unqual);
+
+			if (!composite) {
+				ERROR(T0->pos, "Invalid combination of data types:\n%s and %s\n",
+					  strdup(dbg_type(a)),
+					  strdup(dbg_type(b)));
+			}
+
+			if (a_deref->is_const || b_deref->is_const)
+				composite = type_make_const(composite, 1);
 		}
+
+		expr->args[1] = expression_cast(expr->args[1], type_pointer(composite));
+		expr->args[2] = expression_cast(expr->args[2], type_pointer(composite));
 	} else if (type_is_pointer(a) && is_null_pointer_constant(expr->args[2])) {
 		expr->args[2] = expression_cast(expr->args[2], a);
 	} else if (type_is_pointer(b) && is_null_pointer_constant(expr->args[1])) {
@@ -978,11 +998,9 @@ int evaluate_constant_expression(struct expr *expr,
 			if (bit_size != -1)
 				return 0;
 
-			struct type *child_type = type_select(lhs.data_type, expr->member.member_idx);
-
 			*constant = lhs;
 			constant->label.offset += offset;
-			constant->data_type = child_type;
+			constant->data_type = expr->data_type;
 
 			return 1;
 		}
@@ -1087,6 +1105,7 @@ int evaluate_constant_expression(struct expr *expr,
 		if (!evaluate_constant_expression(expr->args[0], &c))
 			return 0;
 		*constant = c;
+		constant->data_type = expr->data_type;
 	} break;
 
 	default:
diff --git a/src/types.c b/src/types.c
index c573260..5702b27 100644
--- a/src/types.c
+++ b/src/types.c
@@ -10,6 +10,12 @@
 #include "parser/expression_to_ir.h"
 #include <abi/abi.h>
 
+static int type_is_array(struct type *type) {
+	return type->type == TY_ARRAY ||
+		type->type == TY_INCOMPLETE_ARRAY ||
+		type->type == TY_VARIABLE_LENGTH_ARRAY;
+}
+
 static int compare_types(struct type *a, struct type **a_children,
 						 struct type *b) {
 	if (a->type != b->type)
@@ -164,6 +170,15 @@ struct type *type_deref(struct type *type) {
 
 struct type *type_make_const(struct type *type, int is_const) {
 	struct type params = *type;
+
+	// The elements of an array are qualified, not the array itself (6.7.3p9).
+	if (type_is_array(type)) {
+		struct type *element = type->children[0];
+		if (is_const)
+			element = type_make_const(element, 1);
+		return type_create(&params, &element);
+	}
+
 	params.is_const = is_const;
 	return type_create(&params, type->children);
 }
-- 
2.43.0


From 72eb9dd438f3a88393cab7d48afa7d93be6e0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:20 +0000
Subject: [PATCH 056/106] fix: bit-fields of const structures keep their width
 in promotions

---
 src/parser/expression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index ae5f659..cafa1af 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -52,6 +52,9 @@ static enum simple_type get_arithmetic_type(enum simple_type a, int bitfield_a,
 }
 
 static int get_expression_bitfield(struct expr *expr) {
+	while (expr->type == E_CONST_REMOVE)
+		expr = expr->args[0];
+
 	if (expr->type == E_DOT_OPERATOR) {
 		assert(expr->member.lhs->data_type->type == TY_STRUCT);
 		struct struct_data *data = expr->member.lhs->data_type->struct_data;
-- 
2.43.0


From c98e0a41ba675b188cf4cde7078bb58db011b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:43 +0000
Subject: [PATCH 057/106] fix: typedef names and identifiers share one name
 space

---
 src/parser/symbols.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parser/symbols.c b/src/parser/symbols.c
index 759370c..7b37292 100644
--- a/src/parser/symbols.c
+++ b/src/parser/symbols.c
@@ -164,19 +164,31 @@ static struct table_entry *symbols_get_in_current_scope(enum entry_type type, st
 	return (entry && entry->block == current_block) ? entry : NULL;
 }
 
+// Typedef names and other identifiers share a name space: the innermost
+// declaration hides the others.
+static struct table_entry *symbols_get_ordinary(enum entry_type type, struct string_view name) {
+	struct table_entry *entry = symbols_get(type, name);
+	struct table_entry *other = symbols_get(type == ENTRY_TYPEDEF ? ENTRY_IDENTIFIER : ENTRY_TYPEDEF, name);
+
+	return (entry && other && other > entry) ? NULL : entry;
+}
+
 // Identifier help functions.
 struct symbol_identifier *symbols_add_identifier(struct string_view name) {
 	if (name.len == 0) {
 		// Anonymous identifier.
 		return ALLOC((struct symbol_identifier) { 0 });
 	}
+	if (symbols_get_in_current_scope(ENTRY_TYPEDEF, name))
+		ICE("Name already declared as a type, %.*s", name.len, name.str);
+
 	struct table_entry *entry = symbols_add(ENTRY_IDENTIFIER, name);
 	entry->identifier_data = ALLOC((struct symbol_identifier) { 0 });
 	return entry->identifier_data;
 }
 
 struct symbol_identifier *symbols_get_identifier(struct string_view name) {
-	struct table_entry *entry = symbols_get(ENTRY_IDENTIFIER, name);
+	struct table_entry *entry = symbols_get_ordinary(ENTRY_IDENTIFIER, name);
 	return entry ? entry->identifier_data : NULL;
 }
 
@@ -231,6 +243,9 @@ struct symbol_typedef *symbols_add_typedef(struct string_view name) {
 	struct entry_id id = {ENTRY_TYPEDEF, name};
 	struct table_entry *entry = get_entry(id, 0);
 
+	if (symbols_get_in_current_scope(ENTRY_IDENTIFIER, name))
+		ICE("Name already declared, %.*s", name.len, name.str);
+
 	if (entry && entry->block == current_block)
 		return &entry->typedef_data;
 
@@ -238,7 +253,7 @@ struct symbol_typedef *symbols_add_typedef(struct string_view name) {
 }
 
 struct symbol_typedef *symbols_get_typedef(struct string_view name) {
-	struct table_entry *entry = symbols_get(ENTRY_TYPEDEF, name);
+	struct table_entry *entry = symbols_get_ordinary(ENTRY_TYPEDEF, name);
 	return entry ? &entry->typedef_data : NULL;
 }
 
-- 
2.43.0


From ecb1950a2ce310eda24bc5516feacf5e5862b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:43 +0000
Subject: [PATCH 058/106] fix: struct tag alone declares the tag in the current
 scope

---
 src/parser/declaration.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 0e3a3c5..dfcb925 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -322,7 +322,9 @@ int parse_enum(struct type_specifiers *ts) {
 		ts->data_type = type_simple(ST_INT);
 		return 1;
 	} else {
-		struct symbol_struct *def = symbols_get_struct(name);
+		// "struct name;" declares the tag in this scope (6.7.2.3p7).
+		struct symbol_struct *def = T0->type == T_SEMI_COLON ?
+			symbols_get_struct_in_current_scope(name) : symbols_get_struct(name);
 
 		if(!def) {
 			def = symbols_add_struct(name);
@@ -492,7 +494,9 @@ int parse_struct(struct type_specifiers *ts) {
 
 		return 1;
 	} else {
-		struct symbol_struct *def = symbols_get_struct(name);
+		// "struct name;" declares the tag in this scope (6.7.2.3p7).
+		struct symbol_struct *def = T0->type == T_SEMI_COLON ?
+			symbols_get_struct_in_current_scope(name) : symbols_get_struct(name);
 
 		if(!def) {
 			def = symbols_add_struct(name);
-- 
2.43.0


From ac0c6e999509fbb3485a5ffa02fc1493d35701d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:43 +0000
Subject: [PATCH 059/106] fix: accept _Static_assert in struct member lists

---
 src/parser/declaration.c | 72 +++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index dfcb925..16cd2de 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -351,6 +351,39 @@ static int get_field_alignment(struct alignment_specifiers *as) {
 	return as->alignment;
 }
 
+int parse_static_assert(void) {
+	if (!TACCEPT(T_KSTATIC_ASSERT))
+		return 0;
+
+	TEXPECT(T_LPAR);
+	struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), parse_assignment_expression());
+	struct constant *constant = expression_to_constant(expr);
+	if (!constant)
+		ERROR(T0->pos, "Expresison in _Static_assert must be constant.");
+
+	assert(constant->type == CONSTANT_TYPE);
+
+	if (!type_is_simple(constant->data_type, ST_INT))
+		ERROR(T0->pos, "Invalid _Static_assert type: %s\n", dbg_type(constant->data_type));
+
+	if (TACCEPT(T_COMMA)) {
+		if (T0->type != T_STRING)
+			ERROR(T0->pos, "Second argument to _Static_assert must be a string.");
+
+		struct string_view msg = T0->str;
+		TNEXT();
+
+		if (constant->uint_d)
+			ERROR(T0->pos, "Static assert failed: %.*s\n", msg.len, msg.str);
+	} else {
+		if (constant->uint_d)
+			ERROR(T0->pos, "Static assert failed.\n");
+	}
+	TEXPECT(T_RPAR);
+	TEXPECT(T_SEMI_COLON);
+	return 1;
+}
+
 int parse_struct(struct type_specifiers *ts) {
 	int is_union = 0, is_packed = 0;
 	if (TACCEPT(T_KSTRUCT))
@@ -377,7 +410,13 @@ int parse_struct(struct type_specifiers *ts) {
 
 		struct specifiers s;
 
-		while (parse_specifiers(&s.ts, NULL, &s.tq, NULL, &s.as)) {
+		while (1) {
+			if (parse_static_assert())
+				continue;
+
+			if (!parse_specifiers(&s.ts, NULL, &s.tq, NULL, &s.as))
+				break;
+
 			int found_one = 0;
 			struct type_ast *ast = NULL;
 			int was_abstract = 1;
@@ -1465,36 +1504,7 @@ int parse_declaration(int external) {
 						  &s.tq,
 						  &s.fs,
 						  &s.as)) {
-		if (TACCEPT(T_KSTATIC_ASSERT)) {
-			TEXPECT(T_LPAR);
-			struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), parse_assignment_expression());
-			struct constant *constant = expression_to_constant(expr);
-			if (!constant)
-				ERROR(T0->pos, "Expresison in _Static_assert must be constant.");
-
-			assert(constant->type == CONSTANT_TYPE);
-
-			if (!type_is_simple(constant->data_type, ST_INT))
-				ERROR(T0->pos, "Invalid _Static_assert type: %s\n", dbg_type(constant->data_type));
-
-			if (TACCEPT(T_COMMA)) {
-				if (T0->type != T_STRING)
-					ERROR(T0->pos, "Second argument to _Static_assert must be a string.");
-
-				struct string_view msg = T0->str;
-				TNEXT();
-
-				if (constant->uint_d)
-					ERROR(T0->pos, "Static assert failed: %.*s\n", msg.len, msg.str);
-			} else {
-				if (constant->uint_d)
-					ERROR(T0->pos, "Static assert failed.\n");
-			}
-			TEXPECT(T_RPAR);
-			TEXPECT(T_SEMI_COLON);
-			return 1;
-		}
-		return 0;
+		return parse_static_assert();
 	}
 
 	int was_func = 0;
-- 
2.43.0


From 867f2ae06f02fd3c3a02e4c117f5b07accb60d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:35 +0000
Subject: [PATCH 060/106] fix: automatic objects have at least the alignment of
 their type

---
 src/abi/microsoft.c           |  4 ++--
 src/abi/sysv.c                |  7 +++----
 src/ir/ir.c                   |  4 ++++
 src/ir/ir.h                   |  1 +
 src/parser/declaration.c      |  2 +-
 src/parser/expression_to_ir.c | 10 +++++-----
 6 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index dc658c5..a9c3138 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -53,7 +53,7 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 		if (fits_into_reg(return_type)) {
 			ret_in_register = 1;
 		} else {
-			registers[0] = ir_allocate(calculate_size(return_type), 0);
+			registers[0] = ir_allocate_type(return_type, 0);
 
 			register_idx++;
 
@@ -172,7 +172,7 @@ static void ms_expr_function(struct node *func, struct type *function_type, stru
 		struct symbol_identifier *symbol = args[i];
 
 		struct type *type = symbol->parameter.type;
-		struct node *address = ir_allocate(calculate_size(type), symbol->alignment);
+		struct node *address = ir_allocate_type(type, symbol->alignment);
 
 		symbol->type = IDENT_VARIABLE;
 		symbol->variable.type = type;
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 81e4e0f..7f0ac61 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -218,7 +218,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 	struct node *ret_address;
 
 	if (c.returns_address) {
-		ret_address = ir_allocate(calculate_size(return_type), 0);
+		ret_address = ir_allocate_type(return_type, 0);
 		reg_variables[c.ret_address_index] = ret_address;
 	}
 
@@ -279,7 +279,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 		};
 	} else if (c.ret_regs_size == 2) {
 		// Both parts are stored in full.
-		struct node *address = ir_allocate(16, 0);
+		struct node *address = ir_allocate(16, 8);
 		ir_store_part_address(address, ret_reg_variables[0], 0);
 		ir_store_part_address(address, ret_reg_variables[1], 8);
 		result = (struct evaluated_expression) {
@@ -327,8 +327,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
 		struct symbol_identifier *symbol = args[i];
 
 		struct type *type = symbol->parameter.type;
-		int size = calculate_size(type);
-		struct node *address = ir_allocate(size, symbol->alignment);
+		struct node *address = ir_allocate_type(type, symbol->alignment);
 
 		symbol->type = IDENT_VARIABLE;
 		symbol->variable.type = type;
diff --git a/src/ir/ir.c b/src/ir/ir.c
index 32bfd7a..dee6ac1 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -637,6 +637,10 @@ struct node *ir_allocate(int size, int alignment) {
 	return ins;
 }
 
+struct node *ir_allocate_type(struct type *type, int alignment) {
+	return ir_allocate(calculate_size(type), MAX(alignment, calculate_alignment(type)));
+}
+
 void ir_allocate_preamble(int size) {
 	current_function->function.preamble_alloc = size;
 }
diff --git a/src/ir/ir.h b/src/ir/ir.h
index 05f9f07..f8c7d94 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -299,6 +299,7 @@ struct node *ir_set_reg(struct node *variable, struct node *reg_state, int regis
 struct node *ir_get_reg(struct node *source, int size, int register_index, int is_sse);
 
 struct node *ir_allocate(int size, int alignment);
+struct node *ir_allocate_type(struct type *type, int alignment);
 void ir_allocate_preamble(int size);
 
 struct node *ir_allocate_call_stack(int change);
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 16cd2de..7ed5bf0 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1478,7 +1478,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 				struct node *ptr;
 				symbol->variable.type = type;
 				// The initializer can refer to the variable.
-				ptr = ir_allocate(calculate_size(type), symbol->alignment);
+				ptr = ir_allocate_type(type, symbol->alignment);
 				symbol->variable.ptr = ptr;
 				if (has_init) {
 					struct initializer init = parse_initializer(&type);
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index c70cd39..58180ce 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -61,7 +61,7 @@ struct node *evaluated_expression_to_address(struct evaluated_expression *evalua
 	switch (evaluated_expression->type) {
 	case EE_BITFIELD_POINTER: {
 		struct node *bitfield_var = evaluated_expression_to_var(evaluated_expression);
-		struct node *address = ir_allocate(calculate_size(evaluated_expression->data_type), 0);
+		struct node *address = ir_allocate_type(evaluated_expression->data_type, 0);
 		ir_store(address, bitfield_var);
 		return address;
 	}
@@ -76,7 +76,7 @@ struct node *evaluated_expression_to_address(struct evaluated_expression *evalua
 			return ir_constant(constant);
 		} else {
 			// Allocate memory, and push the constant to it.
-			struct node *address = ir_allocate(calculate_size(evaluated_expression->data_type), 0);
+			struct node *address = ir_allocate_type(evaluated_expression->data_type, 0);
 			ir_store(address, ir_constant(constant));
 			return address;
 		}
@@ -86,7 +86,7 @@ struct node *evaluated_expression_to_address(struct evaluated_expression *evalua
 		return evaluated_expression->pointer;
 
 	case EE_VARIABLE: {
-		struct node *address = ir_allocate(calculate_size(evaluated_expression->data_type), 0);
+		struct node *address = ir_allocate_type(evaluated_expression->data_type, 0);
 		ir_store(address, evaluated_expression->variable);
 		return address;
 	}
@@ -451,7 +451,7 @@ static struct evaluated_expression evaluate_array_ptr_decay(struct expr *expr) {
 }
 
 static struct evaluated_expression evaluate_compound_literal(struct expr *expr) {
-	struct node *address = ir_allocate(calculate_size(expr->compound_literal.type), 0);
+	struct node *address = ir_allocate_type(expr->compound_literal.type, 0);
 	ir_init_ptr(&expr->compound_literal.init, expr->compound_literal.type, address);
 
 	return (struct evaluated_expression) {
@@ -676,7 +676,7 @@ static struct evaluated_expression evaluate_va_start(struct expr *expr) {
 
 static struct evaluated_expression evaluate_va_arg(struct expr *expr) {
 	struct evaluated_expression v = expression_evaluate(expr->va_arg_.v);
-	struct node *result_address = ir_allocate(calculate_size(expr->data_type), 0);
+	struct node *result_address = ir_allocate_type(expr->data_type, 0);
 	if (abi_info.va_list_is_reference) {
 		ir_va_arg(evaluated_expression_to_address(&v), result_address, expr->va_arg_.t);
 	} else {
-- 
2.43.0


From 49519d36ec1cb393f5668d55f4c1b54fb9ae203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:02 +0000
Subject: [PATCH 061/106] fix: functions with over-aligned objects find their
 stack arguments

---
 src/abi/microsoft.c   | 11 ++++++-----
 src/abi/sysv.c        |  2 +-
 src/codegen/codegen.c | 15 +++++++++++++--
 src/codegen/codegen.h |  1 +
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index a9c3138..47c8c13 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -213,16 +213,17 @@ static void ms_emit_function_preamble(struct node *func) {
 	if (!abi_data->is_variadic)
 		return;
 
-	asm_ins2("movq", R8(REG_RCX), MEM(16, REG_RBP));
-	asm_ins2("movq", R8(REG_RDX), MEM(24, REG_RBP));
-	asm_ins2("movq", R8(REG_R8), MEM(32, REG_RBP));
-	asm_ins2("movq", R8(REG_R9), MEM(40, REG_RBP));
+	codegen_caller_address(16, REG_RAX);
+	asm_ins2("movq", R8(REG_RCX), MEM(0, REG_RAX));
+	asm_ins2("movq", R8(REG_RDX), MEM(8, REG_RAX));
+	asm_ins2("movq", R8(REG_R8), MEM(16, REG_RAX));
+	asm_ins2("movq", R8(REG_R9), MEM(24, REG_RAX));
 }
 
 static void ms_emit_va_start(struct node *result, struct node *func) {
 	struct ms_data *abi_data = func->function.abi_data;
 
-	asm_ins2("leaq", MEM(abi_data->n_args * 8 + 16, REG_RBP), R8(REG_RAX));
+	codegen_caller_address(abi_data->n_args * 8 + 16, REG_RAX);
 	scalar_to_reg(result, REG_RDX);
 	asm_ins2("movq", R8(REG_RAX), MEM(0, REG_RDX));
 }
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 7f0ac61..9566fb8 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -437,7 +437,7 @@ static void sysv_emit_va_start(struct node *result, struct node *func) {
 	scalar_to_reg(result, REG_RAX);
 	asm_ins2("movl", IMM(abi_data->gp_offset), MEM(gp_offset_offset, REG_RAX));
 	asm_ins2("movl", IMM(abi_data->fp_offset), MEM(fp_offset_offset, REG_RAX));
-	asm_ins2("leaq", MEM(abi_data->overflow_position, REG_RBP), R8(REG_RDI));
+	codegen_caller_address(abi_data->overflow_position, REG_RDI);
 	asm_ins2("movq", R8(REG_RDI), MEM(overflow_arg_area_offset, REG_RAX));
 
 	int preamble_ptr = codegen_get_alloc_preamble();
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 63bdfee..ef23d37 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -147,6 +147,17 @@ static void codegen_set_reg_chain(struct node *start) {
 	}
 }
 
+// Address at an offset from the frame pointer as it was before the stack
+// was realigned. This is where the caller's part of the frame is.
+void codegen_caller_address(int offset, enum reg reg) {
+	if (rbp_save_info.has_saved_rsp) {
+		asm_ins2("movq", MEM(-rbp_save_info.offset, REG_RBP), R8(reg));
+		asm_ins2("leaq", MEM(offset, reg), R8(reg));
+	} else {
+		asm_ins2("leaq", MEM(offset, REG_RBP), R8(reg));
+	}
+}
+
 static int codegen_call_stack_chain(struct node *start) {
 	int change = 0;
 	struct node *allocation = start;
@@ -493,14 +504,14 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		break;
 
 	case IR_LOAD_BASE_RELATIVE:
-		asm_ins2("leaq", MEM(ins->load_base_relative.offset, REG_RBP), R8(REG_RDI));
+		codegen_caller_address(ins->load_base_relative.offset, REG_RDI);
 		asm_ins2("leaq", MEM(-ins->cg_info.stack_location, REG_RBP), R8(REG_RSI));
 
 		codegen_memcpy(ins->size);
 		break;
 
 	case IR_LOAD_BASE_RELATIVE_ADDRESS:
-		asm_ins2("leaq", MEM(ins->load_base_relative_address.offset, REG_RBP), R8(REG_RDI));
+		codegen_caller_address(ins->load_base_relative_address.offset, REG_RDI);
 		scalar_to_reg(ins->arguments[0], REG_RSI);
 
 		codegen_memcpy(ins->load_base_relative_address.size);
diff --git a/src/codegen/codegen.h b/src/codegen/codegen.h
index 041de2d..55a71b9 100644
--- a/src/codegen/codegen.h
+++ b/src/codegen/codegen.h
@@ -16,6 +16,7 @@ extern struct codegen_flags {
 
 void codegen(void);
 int codegen_get_alloc_preamble(void);
+void codegen_caller_address(int offset, enum reg reg);
 
 // TODO: Why is rdi not destination?
 // From rdi to rsi address
-- 
2.43.0


From e9a810f79ce7896abf506da426d9523074b0b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:39 +0000
Subject: [PATCH 062/106] fix: variable length arrays are aligned like their
 element type

---
 src/codegen/codegen.c    | 4 ++--
 src/ir/ir.c              | 6 ++++--
 src/ir/ir.h              | 4 ++--
 src/parser/declaration.c | 3 ++-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index ef23d37..b74b262 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -485,9 +485,9 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		asm_ins2("movq", R8(REG_RSP), MEM(-vla_info.vla_slot_buffer_offset + slot_offset, REG_RBP));
 		scalar_to_reg(ins->arguments[0], REG_RAX);
 		asm_ins2("subq", R8(REG_RAX), R8(REG_RSP));
+		// Align %rsp to at least a 16 boundary. (Remember stack grows downwards. So rounding down is actually correct.)
+		asm_ins2("andq", IMM(-MAX(ins->vla_alloc.alignment, 16)), R8(REG_RSP));
 		reg_to_scalar(REG_RSP, ins);
-		// Align %rsp to 16 boundary. (Remember stack grows downwards. So rounding down is actually correct.)
-		asm_ins2("andq", IMM(-16), R8(REG_RSP));
 	} break;
 
 	case IR_ALLOC:
diff --git a/src/ir/ir.c b/src/ir/ir.c
index dee6ac1..0a5ca32 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -611,8 +611,10 @@ void ir_call(struct node *callee, struct node *reg_state, struct node *call_stac
 	*reg_source = ir_project(ins, 1, 0);
 }
 
-struct node *ir_vla_alloc(struct node *length) {
-	return ir_new1(IR_VLA_ALLOC, length, 8);
+struct node *ir_vla_alloc(struct node *length, int alignment) {
+	struct node *ins = ir_new1(IR_VLA_ALLOC, length, 8);
+	ins->vla_alloc.alignment = alignment;
+	return ins;
 }
 
 struct node *ir_set_reg(struct node *variable, struct node *reg_state, int register_index, int is_sse) {
diff --git a/src/ir/ir.h b/src/ir/ir.h
index f8c7d94..e4fbb36 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -105,7 +105,7 @@ struct node {
 		} va_arg_;
 
 		struct {
-			int dominance;
+			int dominance, alignment;
 		} vla_alloc;
 
 		struct {
@@ -293,7 +293,7 @@ struct node *ir_constant(struct constant constant);
 void ir_call(struct node *callee, struct node *reg_state, struct node *call_stack,
 			 int non_clobbered_register,
 			 struct node **reg_source);
-struct node *ir_vla_alloc(struct node *length);
+struct node *ir_vla_alloc(struct node *length, int alignment);
 
 struct node *ir_set_reg(struct node *variable, struct node *reg_state, int register_index, int is_sse);
 struct node *ir_get_reg(struct node *source, int size, int register_index, int is_sse);
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7ed5bf0..b75cf46 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1468,7 +1468,8 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		} else {
 			if (type_has_variable_size(type)) {
 				symbol->type = IDENT_VARIABLE;
-				symbol->variable.ptr = ir_vla_alloc(expression_to_size_t(type_sizeof(type)));
+				symbol->variable.ptr = ir_vla_alloc(expression_to_size_t(type_sizeof(type)),
+													MAX(symbol->alignment, calculate_alignment(type)));
 				symbol->variable.type = type;
 
 				if (has_init)
-- 
2.43.0


From 9029627467a677dafdf7cd3d9da6c785a848e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:19 +0000
Subject: [PATCH 063/106] fix: diagnose missing operands instead of crashing or
 ignoring them

---
 src/parser/expression.c | 85 ++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 43 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index cafa1af..edf691d 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -501,6 +501,17 @@ struct expr *expr_new(struct expr expr) {
 
 // Parsing.
 
+struct expr *parse_pratt(int precedence);
+struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
+
+// An operand of an operator can't be missing.
+static struct expr *parse_operand(int precedence) {
+	struct expr *expr = parse_pratt(precedence);
+	if (!expr)
+		ERROR(T0->pos, "Expected expression, got %s", dbg_token(T0));
+	return expr;
+}
+
 static void parse_call_parameters(struct expr ***args, int *n_args) {
 	#define MAX_ARGUMENTS 128
 	struct expr *buffer[MAX_ARGUMENTS];
@@ -514,12 +525,7 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 		if (pos != 0)
 			TEXPECT(T_COMMA);
 
-		struct expr *expr = parse_assignment_expression();
-
-		if (!expr)
-			ERROR(T0->pos, "Expected expression, got %s", dbg_token(T0));
-
-		buffer[pos] = expr;
+		buffer[pos] = parse_operand(ASSIGNMENT_PREC);
 	}
 
 	if (pos == MAX_ARGUMENTS)
@@ -534,9 +540,6 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 	*n_args = pos;
 }
 
-struct expr *parse_pratt(int precedence);
-struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
-
 static struct expr *parse_compound_literal(struct type *type) {
 	struct initializer init = parse_initializer(&type);
 	return expr_new((struct expr) {
@@ -554,36 +557,34 @@ static struct expr *parse_prefix(void) {
 			if (T0->type == T_LBRACE) {
 				return parse_compound_literal(cast_type);
 			} else {
-				struct expr *rhs = parse_pratt(PREFIX_PREC);
-				if (!rhs)
-					ERROR(T0->pos, "Expected expression");
+				struct expr *rhs = parse_operand(PREFIX_PREC);
 				return expression_cast(rhs, cast_type);
 			}
 		} else {
-			struct expr *expr = parse_pratt(0);
+			struct expr *expr = parse_operand(0);
 			TEXPECT(T_RPAR);
 			return expr;
 		}
 	} else if (TACCEPT(T_INC)) {
- 		return EXPR_ASSIGNMENT_OP(OP_ADD, parse_pratt(PREFIX_PREC), EXPR_INT(1), 0);
+ 		return EXPR_ASSIGNMENT_OP(OP_ADD, parse_operand(PREFIX_PREC), EXPR_INT(1), 0);
 	} else if (TACCEPT(T_DEC)) {
- 		return EXPR_ASSIGNMENT_OP(OP_SUB, parse_pratt(PREFIX_PREC), EXPR_INT(1), 0);
+ 		return EXPR_ASSIGNMENT_OP(OP_SUB, parse_operand(PREFIX_PREC), EXPR_INT(1), 0);
  	} else if (TACCEPT(T_STAR)) {
- 		return EXPR_ARGS(E_INDIRECTION, parse_pratt(PREFIX_PREC));
+ 		return EXPR_ARGS(E_INDIRECTION, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_ADD)) {
-		return EXPR_UNARY_OP(UOP_PLUS, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_PLUS, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_SUB)) {
-		return EXPR_UNARY_OP(UOP_NEG, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_NEG, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_NOT)) {
-		struct expr *rhs = parse_pratt(PREFIX_PREC);
+		struct expr *rhs = parse_operand(PREFIX_PREC);
 		return EXPR_ARGS(E_CONDITIONAL, rhs,
 						 EXPR_INT(0),
 						 EXPR_INT(1));
 	} else if (TACCEPT(T_BNOT)) {
-		return EXPR_UNARY_OP(UOP_BNOT, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_BNOT, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_AMP)) {
 		struct position pos = T0->pos;
-		struct expr *rhs = parse_pratt(PREFIX_PREC);
+		struct expr *rhs = parse_operand(PREFIX_PREC);
 		if ((rhs->type == E_VARIABLE && rhs->variable.is_register) ||
 			(rhs->type == E_SYMBOL && rhs->symbol->is_register))
 			ERROR(pos, "Taking address of register variable is not allowed.");
@@ -599,10 +600,10 @@ static struct expr *parse_prefix(void) {
 					type = parse_pratt_with_lhs(PREFIX_PREC, parse_compound_literal(type))->data_type;
 			} else {
 				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
+				type = parse_operand(PREFIX_PREC)->data_type;
 			} 
 		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
+			type = parse_operand(PREFIX_PREC)->data_type;
 		}
 
 		return type_sizeof(type);
@@ -615,10 +616,10 @@ static struct expr *parse_prefix(void) {
 				TEXPECT(T_RPAR);
 			} else {
 				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
+				type = parse_operand(PREFIX_PREC)->data_type;
 			}
 		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
+			type = parse_operand(PREFIX_PREC)->data_type;
 		}
 
 		return type_alignof(type);
@@ -695,9 +696,7 @@ static struct expr *parse_prefix(void) {
 		return EXPR_INTEGER(CHAR32_TYPE, character_constant_char32_to_int(str));
 	} else if (TACCEPT(T_KGENERIC)) {
 		TEXPECT(T_LPAR);
-		struct expr *expr = parse_assignment_expression();
-		if (!expr)
-			ERROR(T0->pos, "Expected expression.");
+		struct expr *expr = parse_operand(ASSIGNMENT_PREC);
 
 		decay_array(&expr);
 		struct type *match_type = type_make_const(expr->data_type, 0);
@@ -715,7 +714,7 @@ static struct expr *parse_prefix(void) {
 				type = parse_type_name();
 			}
 			TEXPECT(T_COLON);
-			struct expr *rhs = parse_assignment_expression();
+			struct expr *rhs = parse_operand(ASSIGNMENT_PREC);
 			if (default_) {
 				if (!res)
 					res = rhs;
@@ -736,9 +735,9 @@ static struct expr *parse_prefix(void) {
 		return res;
 	} else if (TACCEPT(T_KVA_START)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_COMMA);
-		struct expr *l = parse_assignment_expression();
+		struct expr *l = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_RPAR);
 
 		return expr_new((struct expr) {
@@ -747,9 +746,9 @@ static struct expr *parse_prefix(void) {
 			});
 	} else if (TACCEPT(T_KVA_COPY)) {
 		TEXPECT(T_LPAR);
-		struct expr *d = parse_assignment_expression();
+		struct expr *d = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_COMMA);
-		struct expr *s = parse_assignment_expression();
+		struct expr *s = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_RPAR);
 		return expr_new((struct expr) {
 				.type = E_BUILTIN_VA_COPY,
@@ -757,7 +756,7 @@ static struct expr *parse_prefix(void) {
 			});
 	} else if (TACCEPT(T_KVA_END)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_RPAR);
 		return expr_new((struct expr) {
 				.type = E_BUILTIN_VA_END,
@@ -765,7 +764,7 @@ static struct expr *parse_prefix(void) {
 		 	});
 	} else if (TACCEPT(T_KVA_ARG)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_COMMA);
 		struct type *t = parse_type_name();
 		if (!t)
@@ -847,33 +846,33 @@ struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs) {
 		int tok_type = T0->type;
 		if (ops[tok_type][0] == 1) {
 			TNEXT();
-			lhs = EXPR_ARGS(ops[tok_type][1], lhs, parse_pratt(new_prec));
+			lhs = EXPR_ARGS(ops[tok_type][1], lhs, parse_operand(new_prec));
 		} else if (ops[tok_type][0] == 2) {
 			TNEXT();
-			lhs = EXPR_ASSIGNMENT_OP(ops[tok_type][1], lhs, parse_pratt(new_prec), 0);
+			lhs = EXPR_ASSIGNMENT_OP(ops[tok_type][1], lhs, parse_operand(new_prec), 0);
 		} else if (ops[tok_type][0] == 3) {
 			TNEXT();
-			lhs = EXPR_BINARY_OP(ops[tok_type][1], lhs, parse_pratt(new_prec));
+			lhs = EXPR_BINARY_OP(ops[tok_type][1], lhs, parse_operand(new_prec));
 		} else if (TACCEPT(T_QUEST)) {
-			struct expr *mid = parse_expression();
+			struct expr *mid = parse_operand(0);
 			TEXPECT(T_COLON);
-			struct expr *rhs = parse_pratt(new_prec);
+			struct expr *rhs = parse_operand(new_prec);
 			lhs = EXPR_ARGS(E_CONDITIONAL, lhs, mid, rhs);
 		} else if (TACCEPT(T_OR)) {
 			// A || B -> A ? 1 : (B ? 1 : 0)
-			struct expr *rhs = parse_pratt(new_prec);
+			struct expr *rhs = parse_operand(new_prec);
 			lhs = EXPR_ARGS(E_CONDITIONAL, lhs, EXPR_INT(1),
 							EXPR_ARGS(E_CONDITIONAL, rhs, EXPR_INT(1), EXPR_INT(0)));
 		} else if (TACCEPT(T_AND)) {
 			// A && B -> A ? (B ? 1 : 0) : 0
-			struct expr *rhs = parse_pratt(new_prec);
+			struct expr *rhs = parse_operand(new_prec);
 			lhs = EXPR_ARGS(E_CONDITIONAL, lhs,
 							EXPR_ARGS(E_CONDITIONAL, rhs, EXPR_INT(1), EXPR_INT(0)),
 							EXPR_INT(0));
 		}
 		// Postfix operators
 		else if (TACCEPT(T_LBRACK)) {
-			struct expr *index = parse_expression();
+			struct expr *index = parse_operand(0);
 			TEXPECT(T_RBRACK);
 			lhs = expr_new((struct expr) {
 					.type = E_INDIRECTION,
-- 
2.43.0


From a7d03cb468c022e175e6fb975cc59faa667efafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:36 +0000
Subject: [PATCH 064/106] fix: break and continue outside of loops and switches
 are errors

---
 src/parser/function_parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8d583dc..6db63f3 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -464,6 +464,9 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(new_block());
 		return 1;
 	} else if (TACCEPT(T_KCONTINUE)) {
+		if (!jump_blocks->block_continue)
+			ERROR(T0->pos, "Not currently in a loop");
+
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -473,6 +476,9 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		TEXPECT(T_SEMI_COLON);
 		return 1;
 	} else if (TACCEPT(T_KBREAK)) {
+		if (!jump_blocks->block_break)
+			ERROR(T0->pos, "Not currently in a loop or switch statement");
+
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
-- 
2.43.0


From bf109816c8f4cac16a45ca9deddd1d91e761b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:00 +0000
Subject: [PATCH 065/106] fix: a missing statement after if, else, switch and
 loops is an error

---
 src/parser/function_parser.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 6db63f3..3972398 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -53,6 +53,12 @@ int parse_selection_statement(struct jump_blocks *jump_blocks);
 int parse_iteration_statement(struct jump_blocks *jump_blocks);
 int parse_jump_statement(struct jump_blocks *jump_blocks);
 
+// The statement that is controlled by an if, a switch or a loop.
+static void parse_body(struct jump_blocks *jump_blocks) {
+	if (!parse_statement(jump_blocks))
+		ERROR(T0->pos, "Expected statement, got %s", dbg_token(T0));
+}
+
 int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 	if (T0->type == T_IDENT &&
 		T1->type == T_COLON) {
@@ -189,7 +195,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
-	parse_statement(&new_jump_blocks);
+	parse_body(&new_jump_blocks);
 
 	if (new_jump_blocks.block_default)
 		ir_connect(new_jump_blocks.block_entry, new_jump_blocks.block_default);
@@ -221,14 +227,14 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 
 		ir_block_start(block_true);
 
-		parse_statement(jump_blocks);
+		parse_body(jump_blocks);
 
 		if (TACCEPT(T_KELSE)) {
 			struct node *block_end = new_block();
 			ir_goto(block_end);
 			ir_block_start(block_false);
 
-			parse_statement(jump_blocks);
+			parse_body(jump_blocks);
 
 			ir_goto(block_end);
 			ir_block_start(block_end);
@@ -263,7 +269,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	parse_body(&new_jump_blocks);
 	propagate_cases(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
@@ -333,7 +339,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	parse_body(&new_jump_blocks);
 	propagate_cases(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
@@ -414,7 +420,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
-	parse_statement(&new_jump_blocks);
+	parse_body(&new_jump_blocks);
 	propagate_cases(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
-- 
2.43.0


From dad655fa2605b84c3fb2bca2e40cd2da85cb88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:18 +0000
Subject: [PATCH 066/106] fix: diagnose undefined labels, goto without a label
 and repeated default labels

---
 src/parser/function_parser.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 3972398..e6b1b7b 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -130,6 +130,8 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(block_default);
 		if (!jump_blocks->block_entry)
 			ERROR(T0->pos, "Not currently in a switch statement");
+		if (jump_blocks->block_default)
+			ERROR(T0->pos, "More than one default label");
 		jump_blocks->block_default = block_default;
 
 		parse_statement(jump_blocks);
@@ -445,7 +447,7 @@ struct type *current_ret_val = NULL;
 int parse_jump_statement(struct jump_blocks *jump_blocks) {
 	if (TACCEPT(T_KGOTO)) {
 		struct string_view label = T0->str;
-		TNEXT();
+		TEXPECT(T_IDENT);
 		TEXPECT(T_SEMI_COLON);
 		for (unsigned i = 0; i < function_scope.size; i++) {
 			if (sv_cmp(label, function_scope.labels[i].label)) {
@@ -566,6 +568,12 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	struct jump_blocks jump_blocks = { 0 };
 	parse_compound_statement(&jump_blocks);
 
+	for (unsigned i = 0; i < function_scope.size; i++) {
+		struct string_view label = function_scope.labels[i].label;
+		if (!function_scope.labels[i].used)
+			ERROR(T0->pos, "Label %.*s is not defined", label.len, label.str);
+	}
+
 	if (sv_string_cmp(name, "main")) {
 		struct node *b = get_current_block();
 		if (!b->block_info.end) {
-- 
2.43.0


From 26c9b62dc908c74205543517eaed7078e15f360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:32 +0000
Subject: [PATCH 067/106] fix: diagnose assignment to and address of
 non-lvalues, calls of non-functions

---
 src/parser/expression.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index edf691d..d3447ba 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -401,11 +401,32 @@ static void fix_assignment_operators(struct expr *expr) {
 int evaluate_constant_expression(struct expr *expr,
  								 struct constant *constant);
 
-static void check_const_correctness(struct expr *expr) {
+static int expression_is_lvalue(struct expr *expr) {
+	switch (expr->type) {
+	case E_SYMBOL:
+	case E_VARIABLE:
+	case E_INDIRECTION:
+	case E_COMPOUND_LITERAL:
+		return 1;
+	case E_CONSTANT: // Static variables and string literals.
+		return expr->constant.type == CONSTANT_LABEL;
+	case E_DOT_OPERATOR:
+		return expression_is_lvalue(expr->member.lhs);
+	default:
+		return 0;
+	}
+}
+
+static void check_modifiable(struct expr *expr) {
 	switch (expr->type) {
 	case E_ASSIGNMENT:
 	case E_ASSIGNMENT_OP:
 	case E_ASSIGNMENT_POINTER:
+		if (!expression_is_lvalue(expr->args[0]) ||
+			expr->args[0]->data_type->type == TY_ARRAY ||
+			expr->args[0]->data_type->type == TY_VARIABLE_LENGTH_ARRAY ||
+			expr->args[0]->data_type->type == TY_FUNCTION)
+			ERROR(T0->pos, "Expected an lvalue that can be assigned to.");
 		if (expr->args[0]->data_type->is_const) {
 			ICE("Can't modify constant variable");
 		}
@@ -460,7 +481,9 @@ struct expr *expr_new(struct expr expr) {
 	}
 
 	if (expr.type == E_CALL) {
-		assert(type_is_pointer(expr.call.callee->data_type));
+		if (!type_is_pointer(expr.call.callee->data_type) ||
+			type_deref(expr.call.callee->data_type)->type != TY_FUNCTION)
+			ERROR(T0->pos, "Can't call type %s", dbg_type(expr.call.callee->data_type));
 		struct type *signature = type_deref(expr.call.callee->data_type);
 
 		int named_arguments_count = signature->n - 1;
@@ -491,7 +514,7 @@ struct expr *expr_new(struct expr expr) {
 		}
 	}
 
-	check_const_correctness(&expr);
+	check_modifiable(&expr);
 
 	if (!expr.pos.path)
 		expr.pos = T0->pos; // If no position is supplied, at least take something close to it.
@@ -588,6 +611,8 @@ static struct expr *parse_prefix(void) {
 		if ((rhs->type == E_VARIABLE && rhs->variable.is_register) ||
 			(rhs->type == E_SYMBOL && rhs->symbol->is_register))
 			ERROR(pos, "Taking address of register variable is not allowed.");
+		if (!expression_is_lvalue(rhs) && rhs->data_type->type != TY_FUNCTION)
+			ERROR(pos, "Taking address of a value that is not an lvalue.");
 		return EXPR_ARGS(E_ADDRESS_OF, rhs);
 	} else if (TACCEPT(T_KSIZEOF)) {
 		struct type *type = NULL;
-- 
2.43.0


From c06504fa3a0dc0723649b9a39d8f335276eace77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:32 +0000
Subject: [PATCH 068/106] fix: diagnose malformed bit-field widths, array
 designators and struct declarations

---
 src/parser/declaration.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index b75cf46..234724c 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -441,14 +441,19 @@ int parse_struct(struct type_specifiers *ts) {
 
 					type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
 					struct expr *bitfield_expr = parse_assignment_expression();
+					if (!bitfield_expr)
+						ERROR(T0->pos, "Expected expression");
 					struct constant *c = expression_to_constant(
 						expression_cast(bitfield_expr, type_simple(ST_INT)));
-					if (!c)
+					if (!c || c->type != CONSTANT_TYPE)
 						ERROR(T0->pos, "Bit-field must be a constant expression");
 					if (!type_is_simple(c->data_type, ST_INT))
 						ERROR(T0->pos, "Bit-field must an integer");
-					assert(c->type == CONSTANT_TYPE);
+					if (!type_is_integer(type))
+						ERROR(T0->pos, "Bit-field has invalid type %s", dbg_type(type));
 					bitfield = c->int_d;
+					if (bitfield < (name.len ? 1 : 0) || bitfield > 8 * calculate_size(type))
+						ERROR(T0->pos, "Bit-field has invalid width");
 				} else if (needs_bitfield) {
 					break;
 				}
@@ -466,7 +471,7 @@ int parse_struct(struct type_specifiers *ts) {
 			TEXPECT(T_SEMI_COLON);
 
 			if (!found_one) {
-				if (s.ts.data_type->type == TY_STRUCT) {
+				if (s.ts.data_type && s.ts.data_type->type == TY_STRUCT) {
 					ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 						.type = s.ts.data_type,
 						.name = { 0 },
@@ -1115,14 +1120,14 @@ static int parse_designators(struct type *type, int **indices) {
 
 	for (;;) {
 		if (TACCEPT(T_LBRACK)) {
-			struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
-			struct constant *c = expression_to_constant(expr);
-			if (!c)
+			struct expr *expr = parse_expression();
+			if (!expr)
+				ERROR(T0->pos, "Expected expression");
+			struct constant *c = expression_to_constant(expression_cast(expr, type_simple(ST_ULLONG)));
+			if (!c || c->type != CONSTANT_TYPE)
 				ERROR(T0->pos, "Expected constant expression in array designator.");
 			TEXPECT(T_RBRACK);
 
-			assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
-
 			if (type->type != TY_ARRAY && type->type != TY_INCOMPLETE_ARRAY)
 				ERROR(T0->pos, "Array designator in initializer of %s.", dbg_type(type));
 			if (c->uint_d >= (constant_uint)max_initializers(type))
-- 
2.43.0


From 352568f3011d68a46965fc22c5701e60ed9886b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:30 +0000
Subject: [PATCH 069/106] fix: declarators and members in a list have to be
 separated by commas

---
 src/parser/declaration.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 234724c..c61ee5d 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -455,6 +455,8 @@ int parse_struct(struct type_specifiers *ts) {
 					if (bitfield < (name.len ? 1 : 0) || bitfield > 8 * calculate_size(type))
 						ERROR(T0->pos, "Bit-field has invalid width");
 				} else if (needs_bitfield) {
+					if (found_one)
+						ERROR(T0->pos, "Expected declarator, got %s", dbg_token(T0));
 					break;
 				}
 
@@ -465,7 +467,8 @@ int parse_struct(struct type_specifiers *ts) {
 					.alignment = get_field_alignment(&s.as)
 				};
 
-				TACCEPT(T_COMMA);
+				if (!TACCEPT(T_COMMA))
+					break;
 			}
 
 			TEXPECT(T_SEMI_COLON);
@@ -1514,8 +1517,13 @@ int parse_declaration(int external) {
 	}
 
 	int was_func = 0;
-	while (!was_func && parse_init_declarator(s, external, &was_func)) {
-		TACCEPT(T_COMMA);
+	if (parse_init_declarator(s, external, &was_func)) {
+		while (!was_func && TACCEPT(T_COMMA)) {
+			if (!parse_init_declarator(s, external, &was_func))
+				ERROR(T0->pos, "Expected declarator, got %s", dbg_token(T0));
+			if (was_func)
+				ERROR(T0->pos, "Function definition in a list of declarators");
+		}
 	}
 
 	if (!was_func)
-- 
2.43.0


From 883f1cef40a8f68b071def6bf9198cfb73601b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:30 +0000
Subject: [PATCH 070/106] fix: diagnose invalid declaration specifiers and
 parameter lists

---
 src/parser/declaration.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index c61ee5d..a3ea7c4 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -139,6 +139,9 @@ static int parse_specifier(struct type_specifiers *ts,
 			return 1;
 		}
 
+		if (*got_ts && (T0->type == T_KSTRUCT || T0->type == T_KUNION || T0->type == T_KENUM))
+			ERROR(T0->pos, "More than one type in declaration specifiers");
+
 		if (parse_struct(ts)) {
 			*got_ts = 1;
 			return 1;
@@ -232,6 +235,12 @@ static int parse_specifiers(struct type_specifiers *ts,
 	while (parse_specifier(ts, scs, tq, fs, as, &got_ts)) {
 		matched = 1;
 	}
+
+	if (ts && ts->specifiers && ts->data_type)
+		ERROR(T0->pos, "More than one type in declaration specifiers");
+	if (scs && scs->typedef_n + scs->extern_n + scs->static_n + scs->auto_n + scs->register_n > 1)
+		ERROR(T0->pos, "More than one storage class in declaration specifiers");
+
 	return matched;
 }
 
@@ -792,8 +801,12 @@ static struct parameter_list parse_parameter_list(void) {
 	symbols_push_scope();
 
 	struct specifiers s;
-	int first = 1;
+	int first = 1, after_comma = 0;
 	while (parse_specifiers(&s.ts, &s.scs, &s.tq, &s.fs, &s.as)) {
+		if (s.scs.typedef_n || s.scs.extern_n || s.scs.static_n || s.scs.thread_local_n || s.scs.auto_n)
+			ERROR(T0->pos, "Invalid storage class of parameter");
+
+		after_comma = 0;
 		int was_abstract = 10;
 		struct type_ast *ast = parse_declarator(&was_abstract, 0);
 
@@ -823,12 +836,13 @@ static struct parameter_list parse_parameter_list(void) {
 			break;
 
 		TEXPECT(T_COMMA);
+		after_comma = 1;
 	}
 
-	if (TACCEPT(T_ELLIPSIS)) {
+	if (after_comma && TACCEPT(T_ELLIPSIS)) {
 		ret.vararg = 1;
-	} else {
-		ret.vararg = 0;
+	} else if (after_comma || first) {
+		ERROR(T0->pos, "Expected parameter, got %s", dbg_token(T0));
 	}
 
 	TEXPECT(T_RPAR);
@@ -1516,6 +1530,9 @@ int parse_declaration(int external) {
 		return parse_static_assert();
 	}
 
+	if (external && (s.scs.auto_n || s.scs.register_n))
+		ERROR(T0->pos, "Invalid storage class at file scope");
+
 	int was_func = 0;
 	if (parse_init_declarator(s, external, &was_func)) {
 		while (!was_func && TACCEPT(T_COMMA)) {
-- 
2.43.0


From 53f5b33c9d7f06efa6582199b5aad35f28da7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:33 +0000
Subject: [PATCH 071/106] fix: diagnose malformed _Alignas instead of crashing

---
 src/parser/declaration.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index a3ea7c4..7649645 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -201,13 +201,20 @@ static int parse_specifier(struct type_specifiers *ts,
 			else
 				length_expr = parse_expression();
 
+			if (!length_expr)
+				ERROR(T0->pos, "Expected type or expression.");
+			if (!type_is_integer(length_expr->data_type))
+				ERROR(T0->pos, "Alignment is not an integer.");
+
 			length_expr = expression_cast(length_expr, type_simple(ST_ULLONG));
 
 			TEXPECT(T_RPAR);
 			struct constant *constant = expression_to_constant(length_expr);
-			if (constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG)) {
-				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument. %d", constant->data_type->type);
+			if (!constant || constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG)) {
+				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument.");
 			}
+			if ((constant->uint_d & (constant->uint_d - 1)) || constant->uint_d > INT_MAX)
+				ERROR(T0->pos, "Alignment is not a power of two.");
 			if (constant->uint_d > (uintmax_t)as->alignment)
 				as->alignment = constant->uint_d;
 			return 1;
-- 
2.43.0


From 6f80ad562261213a0cf75d6b80ed3bb1acaa23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:33 +0000
Subject: [PATCH 072/106] fix: diagnose malformed _Static_assert, struct and
 enum specifiers and repeated enums

---
 src/parser/declaration.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7649645..16fe05f 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -301,6 +301,8 @@ int parse_enum(struct type_specifiers *ts) {
 		name = T0->str;
 		TNEXT();
 	} else {
+		if (T0->type != T_LBRACE)
+			ERROR(T0->pos, "Expected tag or enumerator list, got %s", dbg_token(T0));
 		static int anonymous_counter = 0;
 		name = sv_from_str(allocate_printf("<enum-%d>", anonymous_counter++));
 	}
@@ -332,6 +334,7 @@ int parse_enum(struct type_specifiers *ts) {
 		}
 
 		*data = (struct enum_data) {
+			.is_complete = 1,
 			.name = name
 		};
 
@@ -372,13 +375,15 @@ int parse_static_assert(void) {
 		return 0;
 
 	TEXPECT(T_LPAR);
-	struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), parse_assignment_expression());
+	struct expr *condition = parse_assignment_expression();
+	if (!condition || !type_is_integer(condition->data_type))
+		ERROR(T0->pos, "Expected integer expression in _Static_assert.");
+
+	struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), condition);
 	struct constant *constant = expression_to_constant(expr);
-	if (!constant)
+	if (!constant || constant->type != CONSTANT_TYPE)
 		ERROR(T0->pos, "Expresison in _Static_assert must be constant.");
 
-	assert(constant->type == CONSTANT_TYPE);
-
 	if (!type_is_simple(constant->data_type, ST_INT))
 		ERROR(T0->pos, "Invalid _Static_assert type: %s\n", dbg_type(constant->data_type));
 
@@ -416,6 +421,8 @@ int parse_struct(struct type_specifiers *ts) {
 		name = T0->str;
 		TNEXT();
 	} else {
+		if (T0->type != T_LBRACE)
+			ERROR(T0->pos, "Expected tag or member list, got %s", dbg_token(T0));
 		static int anonymous_counter = 0;
 		name = sv_from_str(allocate_printf("<%d>", anonymous_counter++));
 	}
-- 
2.43.0


From f0bf8fdad8d7fa0ae0fec0c0463e50fa6cc4a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:22 +0000
Subject: [PATCH 073/106] fix: diagnose invalid array and function declarators

---
 src/parser/declaration.c | 14 +++++++++++---
 src/types.c              |  4 +++-
 src/types.h              |  1 +
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 16fe05f..d15b916 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -725,12 +725,18 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 				parameters[i + 1] = ast->function.types[i];
 			parameters[0] = type;
 
+			if (type->type == TY_FUNCTION || type_is_array(type))
+				ERROR(ast->pos, "Function can't return %s", dbg_type(type));
+
 			type = type_create(&params, parameters);
 
 			ast = ast->parent;
 		} break;
 
 		case TAST_ARRAY: {
+			if (type->type == TY_FUNCTION || type->type == TY_INCOMPLETE_ARRAY || type_is_simple(type, ST_VOID))
+				ERROR(ast->pos, "Array can't have elements of type %s", dbg_type(type));
+
 			switch (ast->array.type) {
 			case ARR_EMPTY: {
 				struct type params = {
@@ -740,6 +746,9 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 				type = type_create(&params, &type);
 			} break;
 			case ARR_EXPRESSION: {
+				if (!type_is_integer(ast->array.expr->data_type))
+					ERROR(ast->pos, "Size of array is not an integer");
+
 				struct constant *unconverted_length;
 				if ((unconverted_length = expression_to_constant(ast->array.expr)) &&
 					unconverted_length->type == CONSTANT_TYPE) {
@@ -780,7 +789,7 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 			default:
 				NOTIMP();
 			}
-			if (!allow_tq_in_array && !null_type_qualifier(&ast->array.tq)) {
+			if (!allow_tq_in_array && (ast->array.is_static || !null_type_qualifier(&ast->array.tq))) {
 				ICE("Can't have type qualifiers in array outside of function prototype.");
 			} else if (allow_tq_in_array) {
 				// These qualify the pointer that the array is adjusted to.
@@ -958,8 +967,7 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 	while (T0->type == T_LPAR ||
 		   T0->type == T_LBRACK) {
 		if (TACCEPT(T_LBRACK)) {
-			struct type_ast arr;
-			arr.type = TAST_ARRAY;
+			struct type_ast arr = { .type = TAST_ARRAY };
 
 			int need_expression = 0;
 			if (TACCEPT(T_KSTATIC)) {
diff --git a/src/types.c b/src/types.c
index 5702b27..28586b1 100644
--- a/src/types.c
+++ b/src/types.c
@@ -10,7 +10,7 @@
 #include "parser/expression_to_ir.h"
 #include <abi/abi.h>
 
-static int type_is_array(struct type *type) {
+int type_is_array(struct type *type) {
 	return type->type == TY_ARRAY ||
 		type->type == TY_INCOMPLETE_ARRAY ||
 		type->type == TY_VARIABLE_LENGTH_ARRAY;
@@ -431,6 +431,8 @@ void type_evaluate_vla(struct type *type) {
 
 	if (type->type == TY_VARIABLE_LENGTH_ARRAY) {
 		if (!type->variable_length_array.is_evaluated) {
+			if (!type->variable_length_array.length_expr)
+				ICE("Array of unspecified size outside of function prototype.");
 			type->variable_length_array.length_var = expression_to_size_t(type->variable_length_array.length_expr);
 		}
 		type->variable_length_array.is_evaluated = 1;
diff --git a/src/types.h b/src/types.h
index 72274bc..0fc04ef 100644
--- a/src/types.h
+++ b/src/types.h
@@ -153,6 +153,7 @@ int type_is_arithmetic(struct type *type);
 int type_is_floating(struct type *type);
 int type_is_integer(struct type *type);
 int type_is_pointer(struct type *type);
+int type_is_array(struct type *type);
 int type_is_simple(struct type *type, enum simple_type st);
 int type_is_aggregate(struct type *type);
 
-- 
2.43.0


From 1c4bf43ee942cf2bed294d3b171c8576fff7ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:51 +0000
Subject: [PATCH 074/106] fix: check the types of operands and conversions

---
 src/parser/expression.c | 74 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index d3447ba..2aac37d 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -293,6 +293,79 @@ static void cast_conditional(struct expr *expr) {
 	}
 }
 
+// The constraints on the types of the operands of operators, see 6.5.3 - 6.5.16.
+static void check_binary_operands(struct expr *expr, enum operator_type op) {
+	struct type *a = expr->args[0]->data_type,
+		*b = expr->args[1]->data_type;
+	int is_assignment = expr->type == E_ASSIGNMENT_OP;
+	int is_valid = 0;
+
+	switch (op) {
+	case OP_LSHIFT:
+	case OP_RSHIFT:
+	case OP_MOD:
+	case OP_BAND:
+	case OP_BXOR:
+	case OP_BOR:
+		is_valid = type_is_integer(a) && type_is_integer(b);
+		break;
+
+	case OP_ADD:
+		is_valid = (type_is_pointer(a) && type_is_integer(b)) ||
+			(!is_assignment && type_is_integer(a) && type_is_pointer(b)) ||
+			(type_is_arithmetic(a) && type_is_arithmetic(b));
+		break;
+
+	case OP_SUB:
+		is_valid = (type_is_pointer(a) && type_is_integer(b)) ||
+			(type_is_arithmetic(a) && type_is_arithmetic(b));
+
+		if (!is_assignment && type_is_pointer(a) && type_is_pointer(b))
+			is_valid = type_make_composite(type_remove_qualifications(type_deref(a)),
+										   type_remove_qualifications(type_deref(b))) != NULL;
+		break;
+
+	case OP_MUL:
+	case OP_DIV:
+		is_valid = type_is_arithmetic(a) && type_is_arithmetic(b);
+		break;
+
+	default: // Comparisons.
+		is_valid = (type_is_pointer(a) || type_is_arithmetic(a)) &&
+			(type_is_pointer(b) || type_is_arithmetic(b));
+		break;
+	}
+
+	if (!is_valid)
+		ERROR(T0->pos, "Invalid operands: %s and %s", strdup(dbg_type(a)), strdup(dbg_type(b)));
+}
+
+static void check_operands(struct expr *expr) {
+	if (expr->type == E_BINARY_OP) {
+		check_binary_operands(expr, expr->binary_op);
+	} else if (expr->type == E_ASSIGNMENT_OP) {
+		check_binary_operands(expr, expr->assignment_op.op);
+	} else if (expr->type == E_UNARY_OP) {
+		struct type *type = expr->args[0]->data_type;
+		if (!(expr->unary_op == UOP_BNOT ? type_is_integer(type) : type_is_arithmetic(type)))
+			ERROR(T0->pos, "Invalid operand: %s", dbg_type(type));
+	} else if (expr->type == E_CONDITIONAL) {
+		struct type *type = expr->args[0]->data_type;
+		if (!type_is_arithmetic(type) && !type_is_pointer(type))
+			ERROR(T0->pos, "Invalid condition: %s", dbg_type(type));
+	} else if (expr->type == E_CAST) {
+		struct type *from = expr->cast.arg->data_type, *to = expr->cast.target;
+		int is_valid = type_is_simple(to, ST_VOID) ||
+			(type_is_arithmetic(to) && type_is_arithmetic(from)) ||
+			(type_is_integer(to) && type_is_pointer(from)) ||
+			(type_is_pointer(to) && (type_is_integer(from) || type_is_pointer(from))) ||
+			type_remove_qualifications(to) == type_remove_qualifications(from);
+
+		if (!is_valid)
+			ERROR(T0->pos, "Can't convert from %s to %s", strdup(dbg_type(from)), strdup(dbg_type(to)));
+	}
+}
+
 // This applies all the necessary transformations to binary operators
 static void fix_binary_operator(struct expr *expr) {
 	if (expr->type != E_BINARY_OP)
@@ -498,6 +571,7 @@ struct expr *expr_new(struct expr expr) {
 		}
 	}
 	
+	check_operands(&expr);
 	cast_conditional(&expr);
 	fix_assignment_operators(&expr);
 	fix_binary_operator(&expr);
-- 
2.43.0


From 67f7ef3c3c822a3eecc59d57fc7cf7bac4a0acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 075/106] fix: diagnose switches and cases on non-integers, bad
 member names and directives

---
 src/parser/expression.c      | 2 +-
 src/parser/function_parser.c | 9 +++++++--
 src/parser/parser.c          | 3 ++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 2aac37d..18efa94 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -511,7 +511,7 @@ static void check_modifiable(struct expr *expr) {
 
 static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
 	int n = 0, *indices;
-	if (!type_search_member(lhs->data_type, name->str, &n, &indices))
+	if (name->type != T_IDENT || !type_search_member(lhs->data_type, name->str, &n, &indices))
 		return NULL;
 
 	for (int i = n - 1; i >= 0; i--) {
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index e6b1b7b..e03e620 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -99,8 +99,11 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
+		if (!type_is_integer(value->data_type))
+			ERROR(T0->pos, "Case label is not an integer: %s", dbg_type(value->data_type));
+
 		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->case_type));
-		if (!constant)
+		if (!constant || constant->type != CONSTANT_TYPE)
 			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
 		struct node *block_case = new_block(),
@@ -174,7 +177,9 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 
 	// Comparisons are done in the promoted type, it is only its size that matters.
 	struct type *case_type = condition->data_type;
-	if (!type_is_integer(case_type) || calculate_size(case_type) < 8)
+	if (!type_is_integer(case_type))
+		ERROR(T0->pos, "Switch on something that is not an integer: %s", dbg_type(case_type));
+	if (calculate_size(case_type) < 8)
 		case_type = type_simple(ST_INT);
 
 	struct node *case_control = expression_to_integer(condition, case_type);
diff --git a/src/parser/parser.c b/src/parser/parser.c
index dc01dfe..2c83c4a 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -30,7 +30,8 @@ void parser_reset(void) {
 int parse_handle_pragma(void) {
 	if (!TACCEPT(PP_DIRECTIVE))
 		return 0;
-	assert(sv_string_cmp(T0->str, "pragma"));
+	if (!sv_string_cmp(T0->str, "pragma"))
+		ERROR(T0->pos, "Invalid directive %.*s", T0->str.len, T0->str.str);
 
 	TNEXT();
 
-- 
2.43.0


From 9015adba067b47c853f190363ea6d7f329db3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:20 +0000
Subject: [PATCH 076/106] fix: compatibility of types is decided recursively

---
 src/types.c | 64 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/types.c b/src/types.c
index 28586b1..fd7b040 100644
--- a/src/types.c
+++ b/src/types.c
@@ -453,29 +453,69 @@ struct type *type_make_composite(struct type *a, struct type *b) {
 	if (a == b)
 		return a;
 
-	if (a->type == TY_ARRAY && b->type == TY_INCOMPLETE_ARRAY) {
-		return a;
-	} else if (b->type == TY_ARRAY && a->type == TY_INCOMPLETE_ARRAY) {
-		return b;
+	if (a->is_const != b->is_const)
+		return NULL;
+
+	if (type_is_array(a) && type_is_array(b)) {
+		struct type *element = type_make_composite(a->children[0], b->children[0]);
+		if (!element)
+			return NULL;
+
+		// Variable lengths are compatible with anything.
+		if (a->type == TY_VARIABLE_LENGTH_ARRAY)
+			return a;
+		if (b->type == TY_VARIABLE_LENGTH_ARRAY)
+			return b;
+		if (a->type == TY_ARRAY && b->type == TY_ARRAY && a->array.length != b->array.length)
+			return NULL;
+
+		struct type params = a->type == TY_ARRAY ? *a : *b;
+		return type_create(&params, &element);
 	}
 
 	if (a->type != b->type)
 		return NULL;
 
 	switch (a->type) {
-	case TY_FUNCTION:
+	case TY_POINTER: {
+		struct type *pointee = type_make_composite(a->children[0], b->children[0]);
+		if (!pointee)
+			return NULL;
+
+		struct type params = *a;
+		return type_create(&params, &pointee);
+	}
+
+	case TY_FUNCTION: {
+		int only_result = 0;
+		struct type *full = a;
 		if (a->function.is_variadic && a->n == 1) {
-			return b;
+			only_result = 1;
+			full = b;
 		} else if (b->function.is_variadic && b->n == 1) {
-			return a;
+			only_result = 1;
+		} else if (a->n != b->n || a->function.is_variadic != b->function.is_variadic) {
+			return NULL;
 		}
-		break;
 
-	case TY_ARRAY:
-		break;
+		struct type *children[full->n];
+		for (int i = 0; i < full->n; i++) {
+			children[i] = full->children[i];
+			if (i == 0 || !only_result) {
+				// Qualifiers of parameters don't matter.
+				struct type *lhs = a->children[i], *rhs = b->children[i];
+				children[i] = i ? type_make_composite(type_make_const(lhs, 0), type_make_const(rhs, 0)) :
+					type_make_composite(lhs, rhs);
+				if (!children[i])
+					return NULL;
+			}
+		}
 
-	default:;
+		struct type params = *full;
+		return type_create(&params, children);
 	}
 
-	return NULL;
+	default:
+		return NULL;
+	}
 }
-- 
2.43.0


From 615bde5963b7d83ff7eaf4d9be50486c7163fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:46 +0000
Subject: [PATCH 077/106] fix: diagnose redeclarations and redefinitions

---
 src/parser/declaration.c     | 9 +++++++++
 src/parser/expression.c      | 2 ++
 src/parser/function_parser.c | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d15b916..5e6df87 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1400,6 +1400,12 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	const int prev_declaration = symbol != NULL;
 
 	if (symbol) {
+		// Only identifiers with linkage can be declared more than once.
+		if (symbol->type == IDENT_CONSTANT ||
+			(!external && type->type != TY_FUNCTION &&
+			 (!s.scs.extern_n || symbol->has_definition)))
+			ERROR(T0->pos, "Redeclaration of %.*s", name.len, name.str);
+
 		struct type *prev_type = symbols_get_identifier_type(symbol);
 		struct type *composite_type = type_make_composite(type, prev_type);
 
@@ -1484,6 +1490,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	symbol->is_global = is_global;
 
 	if (has_definition) {
+		if (symbol->has_definition)
+			ERROR(T0->pos, "Redefinition of %.*s", name.len, name.str);
+
 		symbol->is_tentative = 0;
 		symbol->has_definition = 1;
 	} else if (is_tentative && !symbol->is_tentative && !symbol->has_definition) {
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 18efa94..f7ad827 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -891,6 +891,8 @@ static struct expr *parse_prefix(void) {
 				}
 			});
 		expr = expr_dot_operator(expr, T0);
+		if (!expr)
+			ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
 		TNEXT();
 
 		expr = parse_pratt_with_lhs(0, expr);
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index e03e620..50e11f5 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -549,6 +549,11 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 		symbol = symbols_add_identifier_global(name);
 		symbol->is_global = 1;
 		symbol->is_inline = 1;
+	} else if (symbol->function) {
+		ERROR(T0->pos, "Redefinition of %.*s", name.len, name.str);
+	} else if (symbol->type == IDENT_CONSTANT ||
+			   !type_make_composite(type, symbols_get_identifier_type(symbol))) {
+		ERROR(T0->pos, "%.*s has conflicting types", name.len, name.str);
 	}
 
 	// The linkage of an earlier declaration is kept.
-- 
2.43.0


From d717aff0558a8b47f0312e09ddd85ff73824ee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 078/106] fix: diagnose incomplete types, duplicate members and
 excess string initializers

---
 src/parser/declaration.c | 38 +++++++++++++++++++++++++++++++++-----
 src/types.c              | 13 +++++++++++++
 src/types.h              |  1 +
 3 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5e6df87..43ad1ac 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -455,6 +455,10 @@ int parse_struct(struct type_specifiers *ts) {
 						ERROR(T0->pos, "Can't have abstract in struct declaration");
 
 					type = ast_to_type(&s.ts, &s.tq, ast, &name, 0);
+
+					for (int i = 0; i < fields_size; i++)
+						if (sv_cmp(fields[i].name, name))
+							ERROR(T0->pos, "Duplicate member %.*s", name.len, name.str);
 				} else {
 					needs_bitfield = 1;
 				}
@@ -462,10 +466,13 @@ int parse_struct(struct type_specifiers *ts) {
 				if (TACCEPT(T_COLON)) {
 					found_one = 1; // Bit-fields can't declare anonymous structs.
 
+					if (ast && type != ast_to_type(&s.ts, &s.tq, NULL, NULL, 0))
+						ERROR(T0->pos, "Bit-field has invalid type %s", dbg_type(type));
+
 					type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
 					struct expr *bitfield_expr = parse_assignment_expression();
-					if (!bitfield_expr)
-						ERROR(T0->pos, "Expected expression");
+					if (!bitfield_expr || !type_is_integer(bitfield_expr->data_type))
+						ERROR(T0->pos, "Expected integer expression");
 					struct constant *c = expression_to_constant(
 						expression_cast(bitfield_expr, type_simple(ST_INT)));
 					if (!c || c->type != CONSTANT_TYPE)
@@ -483,6 +490,9 @@ int parse_struct(struct type_specifiers *ts) {
 					break;
 				}
 
+				if (!type_is_complete(type) && type->type != TY_INCOMPLETE_ARRAY)
+					ERROR(T0->pos, "Member has incomplete type %s", dbg_type(type));
+
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
@@ -852,6 +862,7 @@ static struct parameter_list parse_parameter_list(void) {
 								   : name);
 
 		ident->type = IDENT_PARAMETER;
+		ident->is_register = s.scs.register_n;
 		ident->parameter.type = type;
 		ret.arguments[ret.n - 1] = ident;
 
@@ -991,7 +1002,7 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 				arr.array.type = ARR_STAR;
 				TEXPECT(T_RBRACK);
 			} else {
-				struct expr *expression = parse_expression();
+				struct expr *expression = parse_assignment_expression();
 				if (!expression)
 					ERROR(T0->pos, "Expected size expression.");
 
@@ -1034,6 +1045,11 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 		(type_is_simple((*type)->children[0], char_type))) {
 		struct string_view str = string_token.str;
 
+		// The terminating null character doesn't have to fit.
+		if ((*type)->type == TY_ARRAY &&
+			(size_t)str.len / calculate_size(type_simple(char_type)) > (*type)->array.length + 1)
+			ERROR(T0->pos, "Too many characters for %s.", dbg_type(*type));
+
 		int braces = TACCEPT(T_LBRACE);
 		TEXPECT(token_type);
 		if (braces) {
@@ -1160,8 +1176,8 @@ static int parse_designators(struct type *type, int **indices) {
 	for (;;) {
 		if (TACCEPT(T_LBRACK)) {
 			struct expr *expr = parse_expression();
-			if (!expr)
-				ERROR(T0->pos, "Expected expression");
+			if (!expr || !type_is_integer(expr->data_type))
+				ERROR(T0->pos, "Expected integer expression");
 			struct constant *c = expression_to_constant(expression_cast(expr, type_simple(ST_ULLONG)));
 			if (!c || c->type != CONSTANT_TYPE)
 				ERROR(T0->pos, "Expected constant expression in array designator.");
@@ -1311,7 +1327,10 @@ struct initializer parse_initializer(struct type **type) {
 		};
 	}
 
+	int is_string = T0->type != T_LBRACE && type_is_aggregate(*type);
 	parse_initializer_element(type, &ret, NULL);
+	if (is_string && ret.type != INIT_STRING)
+		ERROR(T0->pos, "Expected braces in initializer of %s.", dbg_type(*type));
 	return ret;
 }
 
@@ -1450,6 +1469,10 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		return 1;
 	}
 
+	if (!type_is_complete(type) && type->type != TY_INCOMPLETE_ARRAY && (!s.scs.extern_n || has_init) &&
+		(!external || has_init || type_is_simple(type, ST_VOID)))
+		ERROR(T0->pos, "%.*s has incomplete type %s", name.len, name.str, dbg_type(type));
+
 	int definition_is_static = 0;
 	int has_definition = 0;
 	int is_global = 0;
@@ -1539,6 +1562,8 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 					symbol->variable.type = type;
 					ptr->alloc.size = calculate_size(type);
 					ir_init_ptr(&init, type, ptr);
+				} else if (!type_is_complete(type)) {
+					ERROR(T0->pos, "%.*s has incomplete type %s", name.len, name.str, dbg_type(type));
 				}
 			}
 		}
@@ -1593,6 +1618,9 @@ void generate_tentative_definitions(void) {
 			if (type->type == TY_INCOMPLETE_ARRAY)
 				type = type_array(type->children[0], 1);
 
+			if (!type_is_complete(type))
+				ERROR(T0->pos, "%.*s has incomplete type %s", name.len, name.str, dbg_type(type));
+
 			data_register_static_var(name, type, (struct initializer) { 0 }, symbol->is_global, symbol->alignment);
 			symbol->is_tentative = 0;
 		}
diff --git a/src/types.c b/src/types.c
index fd7b040..3a8fc0d 100644
--- a/src/types.c
+++ b/src/types.c
@@ -393,6 +393,19 @@ int type_is_aggregate(struct type *type) {
 		type->type == TY_INCOMPLETE_ARRAY;
 }
 
+// See 6.2.5p1.
+int type_is_complete(struct type *type) {
+	switch (type->type) {
+	case TY_SIMPLE: return type->simple != ST_VOID;
+	case TY_STRUCT: return type->struct_data->is_complete;
+	case TY_ARRAY:
+	case TY_VARIABLE_LENGTH_ARRAY: return type_is_complete(type->children[0]);
+	case TY_INCOMPLETE_ARRAY:
+	case TY_FUNCTION: return 0;
+	default: return 1;
+	}
+}
+
 struct expr *type_sizeof(struct type *type) {
 	if (type_has_variable_size(type)) {
 		switch (type->type) {
diff --git a/src/types.h b/src/types.h
index 0fc04ef..a424429 100644
--- a/src/types.h
+++ b/src/types.h
@@ -154,6 +154,7 @@ int type_is_floating(struct type *type);
 int type_is_integer(struct type *type);
 int type_is_pointer(struct type *type);
 int type_is_array(struct type *type);
+int type_is_complete(struct type *type);
 int type_is_simple(struct type *type, enum simple_type st);
 int type_is_aggregate(struct type *type);
 
-- 
2.43.0


From 5daf751eae0b3f28f0a9bbe8796fd36074fb9580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:22 +0000
Subject: [PATCH 079/106] fix: check lvalues before promotion, conversions of
 assignments and return without value

---
 src/parser/expression.c      | 66 ++++++++++++++++++++++--------------
 src/parser/function_parser.c | 23 ++++++++++---
 src/types.c                  |  3 ++
 3 files changed, 61 insertions(+), 31 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index f7ad827..dff827f 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -336,10 +336,27 @@ static void check_binary_operands(struct expr *expr, enum operator_type op) {
 		break;
 	}
 
+	// There are no arrays of functions or of incomplete structs.
+	if ((op == OP_ADD || op == OP_SUB) && is_valid) {
+		struct type *pointee = type_is_pointer(a) ? type_deref(a) : type_is_pointer(b) ? type_deref(b) : NULL;
+		if (pointee && !type_is_complete(pointee) && !type_is_simple(pointee, ST_VOID))
+			is_valid = 0;
+	}
+
 	if (!is_valid)
 		ERROR(T0->pos, "Invalid operands: %s and %s", strdup(dbg_type(a)), strdup(dbg_type(b)));
 }
 
+static void check_conversion(struct type *from, struct type *to) {
+	int is_valid = (type_is_arithmetic(to) && type_is_arithmetic(from)) ||
+		(type_is_integer(to) && type_is_pointer(from)) ||
+		(type_is_pointer(to) && (type_is_integer(from) || type_is_pointer(from))) ||
+		type_remove_qualifications(to) == type_remove_qualifications(from);
+
+	if (!is_valid)
+		ERROR(T0->pos, "Can't convert from %s to %s", strdup(dbg_type(from)), strdup(dbg_type(to)));
+}
+
 static void check_operands(struct expr *expr) {
 	if (expr->type == E_BINARY_OP) {
 		check_binary_operands(expr, expr->binary_op);
@@ -354,15 +371,10 @@ static void check_operands(struct expr *expr) {
 		if (!type_is_arithmetic(type) && !type_is_pointer(type))
 			ERROR(T0->pos, "Invalid condition: %s", dbg_type(type));
 	} else if (expr->type == E_CAST) {
-		struct type *from = expr->cast.arg->data_type, *to = expr->cast.target;
-		int is_valid = type_is_simple(to, ST_VOID) ||
-			(type_is_arithmetic(to) && type_is_arithmetic(from)) ||
-			(type_is_integer(to) && type_is_pointer(from)) ||
-			(type_is_pointer(to) && (type_is_integer(from) || type_is_pointer(from))) ||
-			type_remove_qualifications(to) == type_remove_qualifications(from);
-
-		if (!is_valid)
-			ERROR(T0->pos, "Can't convert from %s to %s", strdup(dbg_type(from)), strdup(dbg_type(to)));
+		if (!type_is_simple(expr->cast.target, ST_VOID))
+			check_conversion(expr->cast.arg->data_type, expr->cast.target);
+	} else if (expr->type == E_ASSIGNMENT) {
+		check_conversion(expr->args[1]->data_type, expr->args[0]->data_type);
 	}
 }
 
@@ -490,6 +502,21 @@ static int expression_is_lvalue(struct expr *expr) {
 	}
 }
 
+static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
+	int n = 0, *indices;
+	if (name->type != T_IDENT || !type_search_member(lhs->data_type, name->str, &n, &indices))
+		return NULL;
+
+	for (int i = n - 1; i >= 0; i--) {
+		lhs = expr_new((struct expr) {
+				.type = E_DOT_OPERATOR,
+				.member = { lhs, indices[i] }
+			});
+	}
+
+	return lhs;
+}
+
 static void check_modifiable(struct expr *expr) {
 	switch (expr->type) {
 	case E_ASSIGNMENT:
@@ -509,21 +536,6 @@ static void check_modifiable(struct expr *expr) {
 	}
 }
 
-static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
-	int n = 0, *indices;
-	if (name->type != T_IDENT || !type_search_member(lhs->data_type, name->str, &n, &indices))
-		return NULL;
-
-	for (int i = n - 1; i >= 0; i--) {
-		lhs = expr_new((struct expr) {
-				.type = E_DOT_OPERATOR,
-				.member = { lhs, indices[i] }
-			});
-	}
-
-	return lhs;
-}
-
 struct expr *expr_new(struct expr expr) {
 	for (int i = 0; i < num_args[expr.type]; i++) {
 		if (!expr.args[i])
@@ -546,6 +558,8 @@ struct expr *expr_new(struct expr expr) {
 		decay_array(&expr.call.callee);
 	}
 
+	check_modifiable(&expr);
+
 	int integer_promotion = does_integer_conversion[expr.type];
 	if (integer_promotion) {
 		for (int i = 0; i < num_args[expr.type]; i++) {
@@ -588,8 +602,6 @@ struct expr *expr_new(struct expr expr) {
 		}
 	}
 
-	check_modifiable(&expr);
-
 	if (!expr.pos.path)
 		expr.pos = T0->pos; // If no position is supplied, at least take something close to it.
 
@@ -811,6 +823,8 @@ static struct expr *parse_prefix(void) {
 				default_ = 1;
 			} else {
 				type = parse_type_name();
+				if (!type)
+					ERROR(T0->pos, "Expected type name, got %s", dbg_token(T0));
 			}
 			TEXPECT(T_COLON);
 			struct expr *rhs = parse_operand(ASSIGNMENT_PREC);
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 50e11f5..6698219 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -90,7 +90,7 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		parse_statement(jump_blocks);
 		return 1;
 	} else if (TACCEPT(T_KCASE)) {
-		struct expr *value = parse_expression();
+		struct expr *value = parse_assignment_expression();
 		if (!value)
 			ERROR(T0->pos, "Expected expression");
 		TEXPECT(T_COLON);
@@ -143,13 +143,18 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 	return 0;
 }
 
+static void parse_block_items(struct jump_blocks *jump_blocks) {
+	TEXPECT(T_LBRACE);
+	while (parse_labeled_statement(jump_blocks) ||
+		   parse_declaration(0) || parse_statement(jump_blocks));
+}
+
 int parse_compound_statement(struct jump_blocks *jump_blocks) {
-	if (!TACCEPT(T_LBRACE))
+	if (T0->type != T_LBRACE)
 		return 0;
 
 	symbols_push_scope();
-	while (parse_labeled_statement(jump_blocks) ||
-		   parse_declaration(0) || parse_statement(jump_blocks));
+	parse_block_items(jump_blocks);
 	symbols_pop_scope();
 
 	TEXPECT(T_RBRACE);
@@ -506,6 +511,9 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 
 		struct evaluated_expression value = { .type = EE_VOID };
 
+		if (!expr && !type_is_simple(current_ret_val, ST_VOID))
+			ERROR(T0->pos, "Function has to return a value.");
+
 		if (expr)
 			value = expression_evaluate(expression_cast(expr, current_ret_val));
 
@@ -541,6 +549,9 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	current_function = name;
 	struct symbol_identifier *symbol = symbols_get_identifier_global(name);
 
+	if (symbols_get_typedef(name))
+		ERROR(T0->pos, "Name already declared as a type, %.*s", name.len, name.str);
+
 	function_scope.size = 0;
 
 	current_ret_val = type->children[0];
@@ -576,7 +587,9 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	type_evaluate_vla(type);
 
 	struct jump_blocks jump_blocks = { 0 };
-	parse_compound_statement(&jump_blocks);
+	// The body has the same scope as the parameters.
+	parse_block_items(&jump_blocks);
+	TEXPECT(T_RBRACE);
 
 	for (unsigned i = 0; i < function_scope.size; i++) {
 		struct string_view label = function_scope.labels[i].label;
diff --git a/src/types.c b/src/types.c
index 3a8fc0d..ef98874 100644
--- a/src/types.c
+++ b/src/types.c
@@ -420,6 +420,9 @@ struct expr *type_sizeof(struct type *type) {
 			ICE("Type can't have variable size");
 		}
 	} else {
+		if (type->type == TY_INCOMPLETE_ARRAY || (type->type == TY_STRUCT && !type_is_complete(type)))
+			ICE("Size of incomplete type %s", dbg_type(type));
+
 		struct constant c = constant_simple_unsigned(abi_info.size_type, calculate_size(type));
 
 		return expr_new((struct expr) {
-- 
2.43.0


From fb2989898908b09e964620397ad8281182a749c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:09 +0000
Subject: [PATCH 080/106] fix: the third operand of ?: can't be an assignment

---
 src/parser/expression.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index dff827f..b104bf4 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -338,9 +338,12 @@ static void check_binary_operands(struct expr *expr, enum operator_type op) {
 
 	// There are no arrays of functions or of incomplete structs.
 	if ((op == OP_ADD || op == OP_SUB) && is_valid) {
-		struct type *pointee = type_is_pointer(a) ? type_deref(a) : type_is_pointer(b) ? type_deref(b) : NULL;
-		if (pointee && !type_is_complete(pointee) && !type_is_simple(pointee, ST_VOID))
-			is_valid = 0;
+		for (int i = 0; i < 2; i++) {
+			struct type *pointer = expr->args[i]->data_type;
+			if (type_is_pointer(pointer) && !type_is_complete(type_deref(pointer)) &&
+				!type_is_simple(type_deref(pointer), ST_VOID))
+				is_valid = 0;
+		}
 	}
 
 	if (!is_valid)
@@ -971,7 +974,10 @@ struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs) {
 		} else if (TACCEPT(T_QUEST)) {
 			struct expr *mid = parse_operand(0);
 			TEXPECT(T_COLON);
-			struct expr *rhs = parse_operand(new_prec);
+			// The third operand can't be an assignment.
+			struct expr *rhs = parse_operand(new_prec + 1);
+			if (T0->type == T_QUEST)
+				rhs = parse_pratt_with_lhs(new_prec, rhs);
 			lhs = EXPR_ARGS(E_CONDITIONAL, lhs, mid, rhs);
 		} else if (TACCEPT(T_OR)) {
 			// A || B -> A ? 1 : (B ? 1 : 0)
-- 
2.43.0


From d9ba4deb8925d83e69f5da68f94452111187109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:31 +0000
Subject: [PATCH 081/106] fix: functions have no size or alignment

---
 src/types.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types.c b/src/types.c
index ef98874..53cc530 100644
--- a/src/types.c
+++ b/src/types.c
@@ -420,7 +420,7 @@ struct expr *type_sizeof(struct type *type) {
 			ICE("Type can't have variable size");
 		}
 	} else {
-		if (type->type == TY_INCOMPLETE_ARRAY || (type->type == TY_STRUCT && !type_is_complete(type)))
+		if (!type_is_complete(type) && !type_is_simple(type, ST_VOID))
 			ICE("Size of incomplete type %s", dbg_type(type));
 
 		struct constant c = constant_simple_unsigned(abi_info.size_type, calculate_size(type));
@@ -433,6 +433,9 @@ struct expr *type_sizeof(struct type *type) {
 }
 
 struct expr *type_alignof(struct type *type) {
+	if (type->type == TY_FUNCTION)
+		ICE("Alignment of function type %s", dbg_type(type));
+
 	struct constant c = constant_simple_unsigned(abi_info.size_type, calculate_alignment(type));
 
 	return expr_new((struct expr) {
-- 
2.43.0


From 6a7599ff939c0af5ceb96d1c9c85d5e6e3daf9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:22 +0000
Subject: [PATCH 082/106] fix: sizes of arrays can start with an indirection

---
 src/parser/declaration.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 43ad1ac..954590b 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -989,7 +989,7 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 			parse_specifiers(NULL, NULL,
 							 &arr.array.tq, NULL, NULL);
 
-			if (TACCEPT(T_KSTATIC)) {
+			if (!need_expression && TACCEPT(T_KSTATIC)) {
 				need_expression = 1;
 				arr.array.is_static = 1;
 			}
@@ -998,9 +998,10 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 				arr.array.type = ARR_EMPTY;
 				if (need_expression)
 					ERROR(T0->pos, "Missing expression after static.");
-			} else if (TACCEPT(T_STAR)) {
+			} else if (!need_expression && T0->type == T_STAR && T1->type == T_RBRACK) {
 				arr.array.type = ARR_STAR;
-				TEXPECT(T_RBRACK);
+				TNEXT();
+				TNEXT();
 			} else {
 				struct expr *expression = parse_assignment_expression();
 				if (!expression)
-- 
2.43.0


From cd5bf6b142ffefdd81c5fd013ce21f481b0a4f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:54 +0000
Subject: [PATCH 083/106] fix: diagnose global pointers to variable length
 arrays

---
 src/types.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types.c b/src/types.c
index 53cc530..a2fdf64 100644
--- a/src/types.c
+++ b/src/types.c
@@ -459,11 +459,12 @@ void type_evaluate_vla(struct type *type) {
 }
 
 int type_contains_unevaluated_vla(struct type *type) {
-	for (int i = 0; i < type->n; i++)
+	// The lengths of parameters don't matter.
+	for (int i = 0; i < (type->type == TY_FUNCTION ? 1 : type->n); i++)
 		if (type_contains_unevaluated_vla(type->children[i]))
 			return 1;
 
-	return type->type == TY_VARIABLE_LENGTH_ARRAY && type->variable_length_array.is_evaluated;
+	return type->type == TY_VARIABLE_LENGTH_ARRAY && !type->variable_length_array.is_evaluated;
 }
 
 // See 6.2.7.
-- 
2.43.0


From c4116eff7446d1997221c6899d75f28d45837273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:54 +0000
Subject: [PATCH 084/106] fix: hexadecimal floating constants need an exponent

---
 src/arch/x64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 98fa6f6..e9e450e 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -313,6 +313,9 @@ static struct constant floating_point_constant_from_string(struct string_view sv
 	char *str = sv_to_str(sv), *suffix;
 	double d = strtod(str, &suffix);
 
+	if (str[0] == '0' && (str[1] == 'x' || str[1] == 'X') && !strpbrk(str, "pP"))
+		ICE("Hexadecimal floating constant without exponent: %s", str);
+
 	struct constant res = { .type = CONSTANT_TYPE };
 	if (!strcmp(suffix, "f") || !strcmp(suffix, "F")) {
 		res.data_type = type_simple(ST_FLOAT);
-- 
2.43.0


From 021594e52c65fb529f1c75687d2f539258a5b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:54 +0000
Subject: [PATCH 085/106] fix: diagnose redefined typedefs, void parameters,
 empty enums and non-integer enumerators

---
 src/parser/declaration.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 954590b..5edd7cc 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -267,6 +267,8 @@ static int parse_enumerator(struct constant *prev, int first) {
 		struct constant *ret = expression_to_constant(expr);
 		if (!ret)
 			ERROR(T0->pos, "Could not evaluate constant expression, is of type %d", expr->type);
+		if (ret->type != CONSTANT_TYPE || !type_is_integer(ret->data_type))
+			ERROR(T0->pos, "Enumerator value is not an integer constant");
 
 		val = *ret;
 	} else {
@@ -310,6 +312,8 @@ int parse_enum(struct type_specifiers *ts) {
 	if (TACCEPT(T_LBRACE)) {
 		int first = 1;
 		struct constant prev;
+		if (T0->type == T_RBRACE)
+			ERROR(T0->pos, "Expected enumerator, got %s", dbg_token(T0));
 		while (parse_enumerator(&prev, first)) {
 			first = 0;
 		}
@@ -853,6 +857,12 @@ static struct parameter_list parse_parameter_list(void) {
 		struct string_view name = { 0 };
 		struct type *type = ast_to_type(&s.ts, &s.tq, ast, &name, 1);
 		type = type_adjust_parameter(type);
+		if (type_is_simple(type, ST_VOID)) {
+			if (ret.n > 1 || !was_abstract || T0->type != T_RPAR)
+				ERROR(T0->pos, "Parameter can't have type void");
+			ret.n = 0; // Only a typedef name for void.
+			break;
+		}
 		ret.types[ret.n - 1] = type;
 
 		ret.arguments = cc_realloc(ret.arguments, ret.n * sizeof(*ret.arguments));
@@ -1387,6 +1397,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (!has_symbols)
 			symbols_push_scope();
 
+		if (s.scs.typedef_n)
+			ERROR(T0->pos, "Function definition can't be a typedef.");
+
 		if (!external)
 			ERROR(T0->pos, "Function definition are not allowed inside functions.");
 
@@ -1411,7 +1424,10 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	}
 
 	if (s.scs.typedef_n) {
-		symbols_add_typedef(name)->data_type = type;
+		struct symbol_typedef *symbol = symbols_add_typedef(name);
+		if (symbol->data_type && symbol->data_type != type)
+			ERROR(T0->pos, "Redefinition of type %.*s", name.len, name.str);
+		symbol->data_type = type;
 		return 1;
 	}
 
-- 
2.43.0


From 598736d91115bdf246820b93be10c234559e15bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:54 +0000
Subject: [PATCH 086/106] fix: a cast to the same type isn't an lvalue or a
 bit-field

---
 src/parser/expression.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index b104bf4..87c7527 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -670,7 +670,13 @@ static struct expr *parse_prefix(void) {
 				return parse_compound_literal(cast_type);
 			} else {
 				struct expr *rhs = parse_operand(PREFIX_PREC);
-				return expression_cast(rhs, cast_type);
+				decay_array(&rhs);
+				// This is needed even if the type stays the same, since a cast is
+				// not an lvalue and the value of a bit-field is promoted differently.
+				return expr_new((struct expr) {
+						.type = E_CAST,
+						.cast = {rhs, cast_type}
+					});
 			}
 		} else {
 			struct expr *expr = parse_operand(0);
-- 
2.43.0


From b545cb04920509aae474179205b23a9af24c0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:54 +0000
Subject: [PATCH 087/106] fix: check types of arguments, and reject sizes and
 addresses of bit-fields

---
 src/parser/expression.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 87c7527..68d6a4a 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -583,6 +583,9 @@ struct expr *expr_new(struct expr expr) {
 			ERROR(T0->pos, "Wrong number of arguments.");
 		}
 
+		for (int i = 0; i < named_arguments_count; i++)
+			check_conversion(expr.call.args[i]->data_type, signature->children[i + 1]);
+
 		for (int i = named_arguments_count; i < expr.call.n_args; i++) {
 			do_default_argument_promotion(&expr.call.args[i]);
 		}
@@ -660,6 +663,14 @@ static struct expr *parse_compound_literal(struct type *type) {
 		});
 }
 
+// The operand of sizeof and _Alignof.
+static struct type *parse_sized_operand(void) {
+	struct expr *expr = parse_operand(PREFIX_PREC);
+	if (get_expression_bitfield(expr) != -1)
+		ERROR(T0->pos, "Bit-fields have no size or alignment.");
+	return expr->data_type;
+}
+
 static struct expr *parse_prefix(void) {
 	if (TACCEPT(T_LPAR)) {
 		struct type *cast_type = parse_type_name();
@@ -706,6 +717,8 @@ static struct expr *parse_prefix(void) {
 		if ((rhs->type == E_VARIABLE && rhs->variable.is_register) ||
 			(rhs->type == E_SYMBOL && rhs->symbol->is_register))
 			ERROR(pos, "Taking address of register variable is not allowed.");
+		if (get_expression_bitfield(rhs) != -1)
+			ERROR(pos, "Taking address of bit-field is not allowed.");
 		if (!expression_is_lvalue(rhs) && rhs->data_type->type != TY_FUNCTION)
 			ERROR(pos, "Taking address of a value that is not an lvalue.");
 		return EXPR_ARGS(E_ADDRESS_OF, rhs);
@@ -720,10 +733,10 @@ static struct expr *parse_prefix(void) {
 					type = parse_pratt_with_lhs(PREFIX_PREC, parse_compound_literal(type))->data_type;
 			} else {
 				t_push(t);
-				type = parse_operand(PREFIX_PREC)->data_type;
+				type = parse_sized_operand();
 			} 
 		} else {
-			type = parse_operand(PREFIX_PREC)->data_type;
+			type = parse_sized_operand();
 		}
 
 		return type_sizeof(type);
@@ -736,10 +749,10 @@ static struct expr *parse_prefix(void) {
 				TEXPECT(T_RPAR);
 			} else {
 				t_push(t);
-				type = parse_operand(PREFIX_PREC)->data_type;
+				type = parse_sized_operand();
 			}
 		} else {
-			type = parse_operand(PREFIX_PREC)->data_type;
+			type = parse_sized_operand();
 		}
 
 		return type_alignof(type);
@@ -1225,6 +1238,8 @@ int evaluate_constant_expression(struct expr *expr,
 			return 0;
 		if (!evaluate_constant_expression(expr->args[1], &rhs))
 			return 0;
+		if (rhs.type == CONSTANT_LABEL)
+			return 0; // The result is not an lvalue.
 
 		*constant = rhs;
 	} break;
-- 
2.43.0


From e2224f227274fe01c69b43c23fdec0ce3b62bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:30 +0000
Subject: [PATCH 088/106] fix: structures with const members can't be assigned

---
 src/parser/expression.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 68d6a4a..4c60564 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -373,6 +373,10 @@ static void check_operands(struct expr *expr) {
 		struct type *type = expr->args[0]->data_type;
 		if (!type_is_arithmetic(type) && !type_is_pointer(type))
 			ERROR(T0->pos, "Invalid condition: %s", dbg_type(type));
+	} else if (expr->type == E_COMMA) {
+		struct type *type = expr->args[1]->data_type;
+		if (!type_is_complete(type) && !type_is_simple(type, ST_VOID))
+			ERROR(T0->pos, "Invalid operand: %s", dbg_type(type));
 	} else if (expr->type == E_CAST) {
 		if (!type_is_simple(expr->cast.target, ST_VOID))
 			check_conversion(expr->cast.arg->data_type, expr->cast.target);
@@ -520,6 +524,18 @@ static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
 	return lhs;
 }
 
+static int type_has_const(struct type *type) {
+	if (type->is_const)
+		return 1;
+	if (type->type == TY_ARRAY)
+		return type_has_const(type->children[0]);
+	for (int i = 0; type->type == TY_STRUCT && i < type->struct_data->n; i++) {
+		if (type_has_const(type->struct_data->fields[i].type))
+			return 1;
+	}
+	return 0;
+}
+
 static void check_modifiable(struct expr *expr) {
 	switch (expr->type) {
 	case E_ASSIGNMENT:
@@ -530,7 +546,7 @@ static void check_modifiable(struct expr *expr) {
 			expr->args[0]->data_type->type == TY_VARIABLE_LENGTH_ARRAY ||
 			expr->args[0]->data_type->type == TY_FUNCTION)
 			ERROR(T0->pos, "Expected an lvalue that can be assigned to.");
-		if (expr->args[0]->data_type->is_const) {
+		if (type_has_const(expr->args[0]->data_type)) {
 			ICE("Can't modify constant variable");
 		}
 		break;
-- 
2.43.0


From 07c8189d8bda9812b95faae5f809789ea81ace11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:09 +0000
Subject: [PATCH 089/106] fix: incomplete types can't be assigned

---
 src/parser/expression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 4c60564..bb43523 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -544,7 +544,7 @@ static void check_modifiable(struct expr *expr) {
 		if (!expression_is_lvalue(expr->args[0]) ||
 			expr->args[0]->data_type->type == TY_ARRAY ||
 			expr->args[0]->data_type->type == TY_VARIABLE_LENGTH_ARRAY ||
-			expr->args[0]->data_type->type == TY_FUNCTION)
+			!type_is_complete(expr->args[0]->data_type))
 			ERROR(T0->pos, "Expected an lvalue that can be assigned to.");
 		if (type_has_const(expr->args[0]->data_type)) {
 			ICE("Can't modify constant variable");
-- 
2.43.0


From ff06a5b01055243ff950cdc7ea9fbdad2539996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:47 +0000
Subject: [PATCH 090/106] fix: functions with more than 128 parameters

---
 src/abi/microsoft.c | 2 +-
 src/abi/sysv.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 47c8c13..e653238 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -149,7 +149,7 @@ static void ms_expr_function(struct node *func, struct type *function_type, stru
 
 	int current_mem = 0;
 
-	struct node *inputs[128];
+	struct node *inputs[n_args + 1];
 
 	for (int i = 0; i < n_args; i++) {
 		int size = calculate_size(args[i]->parameter.type);
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 9566fb8..5e2e130 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -322,7 +322,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
 		abi_data.returns_address = 1;
 	}
 
-	struct node *arg_addresses[128];
+	struct node *arg_addresses[type->n];
 	for (int i = 0; i < type->n - 1; i++) {
 		struct symbol_identifier *symbol = args[i];
 
-- 
2.43.0


From 83c16932811f04fda9c0fc147e34413fbcdeb34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:41 +0000
Subject: [PATCH 091/106] fix: diagnose empty character constants, \x without
 digits, bad #line and macro arguments

---
 src/escape_sequence.c             | 2 ++
 src/preprocessor/directives.c     | 5 +++++
 src/preprocessor/macro_expander.c | 2 ++
 src/preprocessor/string_concat.c  | 4 ++++
 4 files changed, 13 insertions(+)

diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index dc9911f..36e8207 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -23,6 +23,8 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		*out = result;
 	} else if (*s == 'x') {
 		s++;
+		if (!is_hexadecimal(*s))
+			ICE("Escape sequence \\x without digits");
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
 			result *= 16;
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 4b22d8e..cc7a090 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -4,6 +4,7 @@
 #include "string_concat.h"
 
 #include <common.h>
+#include <character_types.h>
 #include <precedence.h>
 #include <arch/x64.h>
 
@@ -702,6 +703,10 @@ struct token directiver_next(void) {
 				struct token digit_seq = buffer.list[0];
 				if (digit_seq.type != T_NUM)
 					ERROR(digit_seq.pos, "Expected digit sequence after #line");
+				for (int i = 0; i < digit_seq.str.len; i++) {
+					if (!is_decimal(digit_seq.str.str[i]))
+						ERROR(digit_seq.pos, "Expected digit sequence after #line");
+				}
 
 				current_file->line_diff += atoi(sv_to_str(digit_seq.str)) - directive.pos.line - 1;
 
diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index b5a3f4e..4c7d653 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -321,6 +321,8 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 			}
 		}
 
+		if (n_args && !def->vararg && !finished)
+			ERROR(lpar.pos, "Wrong number of arguments to macro");
 
 		if (def->vararg && !finished) {
 			vararg_included = 1;
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index e084d64..97f8305 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -149,6 +149,8 @@ static struct token convert_token(struct token t) {
 		buffer_start();
 		escape_string_to_buffer(t.str, type);
 		t.str = buffer_get();
+		if (!t.str.len)
+			ERROR(t.pos, "Empty character constant.");
 
 		switch (type) {
 		case STRING_DEFAULT:
@@ -254,6 +256,8 @@ intmax_t escaped_character_constant_to_int(struct token t) {
 	enum string_type type = take_string_prefix(&t.str);
 	buffer_start();
 	escape_string_to_buffer(t.str, type);
+	if (!buffer_size)
+		ERROR(t.pos, "Empty character constant.");
 
 	// No need to call buffer_get(), since we do not need
 	// a permanent string_view.
-- 
2.43.0


From f1cff124e48036711c1bfba28858150ceaf56f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:38 +0000
Subject: [PATCH 092/106] fix: unknown and empty pragmas are ignored

---
 src/parser/parser.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 2c83c4a..8d8053c 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -35,12 +35,7 @@ int parse_handle_pragma(void) {
 
 	TNEXT();
 
-	if (T0->type != T_IDENT)
-		ERROR(T0->pos, "Expected identifier\n");
-
-	struct string_view name = T0->str;
-
-	if (sv_string_cmp(name, "pack")) {
+	if (T0->type == T_IDENT && !T0->first_of_line && sv_string_cmp(T0->str, "pack")) {
 		int new_packing = 0;
 		TNEXT();
 		TEXPECT(T_LPAR);
@@ -78,7 +73,7 @@ int parse_handle_pragma(void) {
 
 		current_packing = new_packing;
 	} else {
-		WARNING(T0->pos, "\"#pragma %.*s\" not supported", name.len, name.str);
+		WARNING(T0->pos, "\"#pragma %s\" not supported", T0->first_of_line ? "" : dbg_token(T0));
 
 		// Continue until newline or EOI.
 		while (T0->type != T_EOI &&
-- 
2.43.0


From 8d9306d1cbb614ac1646c5d5264a6c60d0081e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:36 +0000
Subject: [PATCH 093/106] fix: ms abi: the caller copies structs that are
 passed by reference

---
 src/abi/microsoft.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index e653238..8ae6008 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -71,6 +71,10 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 		if (fits_into_reg(argument_types[i])) {
 			reg_to_push = ir_load(arg_addresses[i],
 								  calculate_size(argument_types[i]));
+		} else {
+			// The callee owns the memory that the reference points to.
+			reg_to_push = ir_allocate_type(argument_types[i], 0);
+			ir_copy_memory(reg_to_push, arg_addresses[i], calculate_size(argument_types[i]));
 		}
 
 		if (register_idx < 4) {
-- 
2.43.0


From 66cb5b75f1bca426dffe21a3880016bfdafc4a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:36 +0000
Subject: [PATCH 094/106] fix: ms abi: pass floating arguments of variadic and
 unprototyped functions in both registers

---
 src/abi/microsoft.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 8ae6008..21d432f 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -78,7 +78,7 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 		}
 
 		if (register_idx < 4) {
-			is_floating[register_idx] = (i < callee_type->n - 1) ? type_is_floating(argument_types[i]) : 0;
+			is_floating[register_idx] = type_is_floating(argument_types[i]);
 			registers[register_idx++] = reg_to_push;
 		} else {
 			call_stack = ir_store_stack_relative(call_stack, reg_to_push, current_mem + shadow_space);
@@ -90,7 +90,8 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 	for (int i = 0; i < register_idx; i++) {
 		if (is_floating[i])
 			reg_state = ir_set_reg(registers[i], reg_state, i, 1);
-		else
+		// Floating arguments of variadic functions are passed in both kinds of registers.
+		if (!is_floating[i] || callee_type->function.is_variadic)
 			reg_state = ir_set_reg(registers[i], reg_state, calling_convention[i], 0);
 	}
 
-- 
2.43.0


From 965c890f596f280a50f97d83a5546f63a1daa060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:36 +0000
Subject: [PATCH 095/106] fix: ms abi: va_start skips the hidden result pointer

---
 src/abi/microsoft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 21d432f..ed0b9fe 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -145,7 +145,7 @@ static void ms_expr_function(struct node *func, struct type *function_type, stru
 
 	if (function_type->function.is_variadic) {
 		abi_data.is_variadic = 1;
-		abi_data.n_args = n_args;
+		abi_data.n_args = n_args + abi_data.returns_address;
 	}
 
 	abi_data.rbx_store = ir_get_reg(reg_source, 8, REG_RBX, 0);
-- 
2.43.0


From 6807786f244aacd57d2a62b183a2809813560ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:37 +0000
Subject: [PATCH 096/106] fix: ms abi: rax holds the address of a result in
 memory

---
 src/abi/microsoft.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index ed0b9fe..fd58800 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -201,6 +201,7 @@ static void ms_expr_return(struct node *func, struct evaluated_expression *value
 		if (abi_data->returns_address) {
 			struct node *value_address = evaluated_expression_to_address(value);
 			ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
+			*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, REG_RAX, 0);
 		} else {
 			struct node *value_var = evaluated_expression_to_var(value);
 			*reg_state = ir_set_reg(value_var, *reg_state, 0, type_is_floating(value->data_type));
-- 
2.43.0


From 88aa59e279cafeeb05a97176e3aee3c035c8d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:37 +0000
Subject: [PATCH 097/106] fix: reaching the end of a function that returns a
 value is allowed

---
 src/parser/function_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 6698219..b9402b1 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -605,7 +605,8 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 			abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_CONSTANT, .data_type = c.data_type, .constant = c}, &reg_state);
 			ir_return(reg_state);
 		}
-	} else if (current_ret_val == type_simple(ST_VOID)) {
+	} else {
+		// Reaching the } of a function that returns a value is fine as long as the caller does not use it.
 		struct node *reg_state = NULL;
 		abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_VOID }, &reg_state);
 		ir_return(reg_state);
-- 
2.43.0


From 90227b66e2eb15c6f0b83f2c3667ab1f791bd3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:15 +0000
Subject: [PATCH 098/106] fix: integer promotion keeps long, also when it has
 the size of int

---
 src/parser/expression.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index bb43523..fd4b654 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -101,6 +101,11 @@ static void do_integer_promotion(struct expr **expr) {
 	struct type *current_type = (*expr)->data_type;
 	int bitfield = get_expression_bitfield(*expr);
 
+	// long can have the representation of int, but keeps its type.
+	if (bitfield == -1 && (type_is_simple(current_type, ST_LONG) ||
+						   type_is_simple(current_type, ST_ULONG)))
+		return;
+
 	if (type_is_integer(current_type) &&
 		is_contained_in(ST_INT, -1, current_type->simple, bitfield)) {
 		*expr = expression_cast(*expr, type_simple(ST_INT));
-- 
2.43.0


From a3b04c63aee5acceda6b5cbc86f61c588a8eccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:15 +0000
Subject: [PATCH 099/106] fix: offsetof has the type size_t

---
 src/parser/expression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index fd4b654..1d1ce5c 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -957,7 +957,7 @@ static struct expr *parse_prefix(void) {
 
 		TEXPECT(T_RPAR);
 
-		return expression_cast(expr, type_simple(ST_ULONG));
+		return expression_cast(expr, type_simple(abi_info.size_type));
 	} else if (TACCEPT(T_KFUNC)) {
  		return EXPR_STR(get_current_function_name(), ST_CHAR);
 	}
-- 
2.43.0


From 4eb9dc4a9340925cd9fcdde2c5e0dde4d34f41f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:15 +0000
Subject: [PATCH 100/106] fix: COFF sections can have more than 65534
 relocations

---
 src/linker/coff.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/linker/coff.c b/src/linker/coff.c
index 509dc51..b03fd94 100644
--- a/src/linker/coff.c
+++ b/src/linker/coff.c
@@ -146,7 +146,11 @@ struct coff_section {
 	struct coff_section_header header;
 
 	uint8_t *data; // Size determined by header.
-	struct coff_relocation *relocations; // -||-
+
+	// The header's number of relocations has only 16 bits. If it isn't
+	// sufficient the actual number is stored as the first relocation.
+	size_t relocation_size;
+	struct coff_relocation *relocations;
 };
 
 struct coff_file {
@@ -216,7 +220,7 @@ static struct coff_file *coff_from_object(struct object *object) {
 			.pointer_to_raw_data = 0, // Will be set during allocation phase.
 			.pointer_to_relocations = 0, // -||-
 			.pointer_to_linenumbers = 0,
-			.number_of_relocations = section->relocation_size,
+			.number_of_relocations = MIN(section->relocation_size, 0xffff),
 			.number_of_linenumbers = 0,
 			.characteristics = characteristics
 		};
@@ -231,11 +235,21 @@ static struct coff_file *coff_from_object(struct object *object) {
 			}
 		}
 
+		int overflow = section->relocation_size >= 0xffff;
+
+		coff_section->relocation_size = section->relocation_size + overflow;
 		coff_section->relocations = cc_malloc(sizeof *coff_section->relocations *
-											  coff_section->header.number_of_relocations);
-		for (unsigned j = 0; j < coff_section->header.number_of_relocations; j++) {
+											  coff_section->relocation_size);
+		if (overflow) {
+			coff_section->header.characteristics |= IMAGE_SCN_LNK_NRELOC_OVFL;
+			coff_section->relocations[0] = (struct coff_relocation) {
+				.virtual_address = coff_section->relocation_size
+			};
+		}
+
+		for (unsigned j = 0; j < section->relocation_size; j++) {
 			struct object_relocation *relocation = &section->relocations[j];
-			struct coff_relocation *coff_relocation = &coff_section->relocations[j];
+			struct coff_relocation *coff_relocation = &coff_section->relocations[j + overflow];
 
 			// Since COFF relocations contain no addend,
 			// this will have to be written to the data of the section instead.
@@ -329,7 +343,7 @@ static void coff_allocate(struct coff_file *coff) {
 		section->header.pointer_to_raw_data = address;
 		address += section->header.size_of_raw_data;
 		section->header.pointer_to_relocations = address;
-		address += section->header.number_of_relocations * (4 + 4 + 2);
+		address += section->relocation_size * (4 + 4 + 2);
 	}
 }
 
@@ -351,7 +365,7 @@ static void coff_write(const char *path, struct coff_file *coff) {
 	for (unsigned i = 0; i < coff->header.number_of_sections; i++) {
 		struct coff_section *section = &coff->sections[i];
 		file_write(fp, section->data, section->header.size_of_raw_data);
-		for (unsigned j = 0; j < section->header.number_of_relocations; j++) {
+		for (unsigned j = 0; j < section->relocation_size; j++) {
 			coff_write_relocation(fp, &section->relocations[j]);
 		}
 	}
-- 
2.43.0


From e4b434c7a28ab31d799a2bb244bb33384d798ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:16 +0000
Subject: [PATCH 101/106] fix: files that can not be read or written in full
 are errors

---
 src/assembler/assembler.c     |  9 ++++-----
 src/common.c                  | 15 +++++++++++++++
 src/common.h                  |  4 ++++
 src/ir/export_dot.c           |  5 +++--
 src/linker/coff.c             |  4 ++--
 src/linker/elf.c              | 11 ++++++-----
 src/main.c                    |  3 +++
 src/preprocessor/directives.c |  4 ++--
 src/preprocessor/input.c      | 11 ++++++++---
 9 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/assembler/assembler.c b/src/assembler/assembler.c
index 1b8c5ac..388678c 100644
--- a/src/assembler/assembler.c
+++ b/src/assembler/assembler.c
@@ -17,6 +17,7 @@
 static int assemble_to_text = 0;
 
 static FILE *out;
+static const char *out_path;
 static const char *current_section;
 
 static struct object *out_object;
@@ -32,10 +33,8 @@ void asm_init_text_out(const char *path) {
 	assemble_to_text = 1;
 	current_section = ".text";
 
-	out = fopen(path, "w");
-
-	if (!out)
-		ICE("Could not open file %s", path);
+	out = file_open(path, "w");
+	out_path = path;
 }
 
 void asm_init_object(struct object *object) {
@@ -45,7 +44,7 @@ void asm_init_object(struct object *object) {
 
 void asm_finish(void) {
 	if (assemble_to_text) {
-		fclose(out);
+		file_close(out, out_path);
 	} else {
 		*out_object = *object_finish();
 	}
diff --git a/src/common.c b/src/common.c
index 7b9cfcc..0bf799f 100644
--- a/src/common.c
+++ b/src/common.c
@@ -135,6 +135,19 @@ uint64_t read_64(uint8_t *data) {
 	return read_32(data) | ((uint64_t)read_32(data + 4) << 32);
 }
 
+FILE *file_open(const char *path, const char *mode) {
+	FILE *fp = fopen(path, mode);
+	if (!fp)
+		ERROR_NO_POS("Could not open file %s.", path);
+	return fp;
+}
+
+void file_close(FILE *fp, const char *path) {
+	int error = ferror(fp);
+	if (fclose(fp) || error)
+		ERROR_NO_POS("Could not read or write file %s.", path);
+}
+
 void file_write(FILE *fp, const void *ptr, size_t size) {
 	if (size == 0)
 		return;
@@ -169,6 +182,8 @@ void file_write_zero(FILE *fp, size_t size) {
 
 void file_write_skip(FILE *fp, size_t target) {
 	long int current_pos = ftell(fp);
+	if (current_pos < 0)
+		ERROR_NO_POS("Could not get position of output file.");
 	assert(target >= (size_t)current_pos);
 	file_write_zero(fp, target - current_pos);
 }
diff --git a/src/common.h b/src/common.h
index 56ebf52..d5b1484 100644
--- a/src/common.h
+++ b/src/common.h
@@ -57,6 +57,10 @@ uint16_t read_16(uint8_t *data);
 uint32_t read_32(uint8_t *data);
 uint64_t read_64(uint8_t *data);
 
+// Errors if the file can't be opened, or not everything could be written.
+FILE *file_open(const char *path, const char *mode);
+void file_close(FILE *fp, const char *path);
+
 void file_write(FILE *fp, const void *ptr, size_t size);
 void file_write_byte(FILE *fp, uint8_t byte);
 void file_write_word(FILE *fp, uint16_t word);
diff --git a/src/ir/export_dot.c b/src/ir/export_dot.c
index 5efd314..9b9fcc6 100644
--- a/src/ir/export_dot.c
+++ b/src/ir/export_dot.c
@@ -1,6 +1,7 @@
 #include "export_dot.h"
 #include "ir.h"
 
+#include <common.h>
 #include <debug.h>
 
 #include <stdio.h>
@@ -58,7 +59,7 @@ static void add_recursive(struct node *start) {
 }
 
 void export_dot(const char *path) {
-	fp = fopen(path, "w");
+	fp = file_open(path, "w");
 	fprintf(fp, "digraph graphname {\n");
 
 	int count = 0;
@@ -107,5 +108,5 @@ void export_dot(const char *path) {
 	add_recursive(first_function);
 
 	fprintf(fp, "}\n");
-	fclose(fp);
+	file_close(fp, path);
 }
diff --git a/src/linker/coff.c b/src/linker/coff.c
index b03fd94..682f281 100644
--- a/src/linker/coff.c
+++ b/src/linker/coff.c
@@ -348,7 +348,7 @@ static void coff_allocate(struct coff_file *coff) {
 }
 
 static void coff_write(const char *path, struct coff_file *coff) {
-	FILE *fp = fopen(path, "wb");
+	FILE *fp = file_open(path, "wb");
 	coff_write_header(fp, &coff->header);
 
 	for (unsigned i = 0; i < coff->header.number_of_sections; i++) {
@@ -370,7 +370,7 @@ static void coff_write(const char *path, struct coff_file *coff) {
 		}
 	}
 
-	fclose(fp);
+	file_close(fp, path);
 }
 
 void coff_write_object(const char *path, struct object *object) {
diff --git a/src/linker/elf.c b/src/linker/elf.c
index 25c3a25..a7a0c80 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -548,7 +548,8 @@ static void read_zero(FILE *fp, size_t size) {
 }
 
 static void read_skip(FILE *fp, unsigned long pos) {
-	fseek(fp, pos, SEEK_SET);
+	if (fseek(fp, pos, SEEK_SET))
+		ICE("Could not read from file");
 }
 
 static const uint8_t magic[4] = {0x7f, 0x45, 0x4c, 0x46};
@@ -746,17 +747,17 @@ static void write_segments(FILE *fp, struct elf_file *elf) {
 }
 
 static void elf_write(const char *path, struct elf_file *elf) {
-	FILE *fp = fopen(path, "wb");
+	FILE *fp = file_open(path, "wb");
 
 	write_header(fp, elf);
 	write_sections(fp, elf);
 	write_segments(fp, elf);
 
-	fclose(fp);
+	file_close(fp, path);
 }
 
 static struct elf_file *elf_read(const char *path) {
-	FILE *fp = fopen(path, "rb");
+	FILE *fp = file_open(path, "rb");
 	struct elf_file elf = { 0 };
 
 	int not_elf = read_header(fp, &elf);
@@ -795,7 +796,7 @@ static struct elf_file *elf_read(const char *path) {
 		elf.strings = (char *)strtab_section->data;
 	}
 
-	fclose(fp);
+	file_close(fp, path);
 
 	return ALLOC(elf);
 }
diff --git a/src/main.c b/src/main.c
index 5179f80..86ac48a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -412,5 +412,8 @@ int main(int argc, char **argv) {
 
 	arguments_free(&arguments);
 
+	if (fflush(stdout) || ferror(stdout))
+		ERROR_NO_POS("Could not write output.");
+
 	return 0;
 }
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index cc7a090..7c7afe6 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -58,14 +58,14 @@ void directiver_write_dependencies(void) {
 void directiver_finish_writing_dependencies(const char *mt, const char *mf) {
 	write_dependencies = 1;
 
-	FILE *fp = fopen(mf, "w");
+	FILE *fp = file_open(mf, "w");
 
 	fprintf(fp, "%s:", mt);
 	for (unsigned i = 0; i < dep_size; i++)
 		fprintf(fp, " %s", deps[i]);
 	fprintf(fp, "\n");
 
-	fclose(fp);
+	file_close(fp, mf);
 }
 
 // Resets all global state. Not very elegant.
diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index b2f5194..1584533 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -12,12 +12,17 @@ static const char **paths = NULL;
 static struct string_set disabled_headers;
 
 static struct input input_create(const char *path, FILE *fp) {
-	fseek(fp, 0, SEEK_END);
-	size_t size = ftell(fp);
+	long size = -1;
+	if (fseek(fp, 0, SEEK_END) == 0)
+		size = ftell(fp);
 	rewind(fp);
 
+	if (size < 0)
+		ERROR_NO_POS("Could not read file %s.", path);
+
 	char *contents = cc_malloc(size + 1);
-	fread(contents, size, 1, fp);
+	if (fread(contents, 1, size, fp) != (size_t)size)
+		ERROR_NO_POS("Could not read file %s.", path);
 	contents[size] = '\0';
 
 	return (struct input) { .path = path, .contents = contents };
-- 
2.43.0


From f5c6a2903487dd509823e1ee09caf39c4264169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:32 +0000
Subject: [PATCH 102/106] fix: case labels with the same value are errors

---
 src/parser/function_parser.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index b9402b1..c9b42ba 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -14,6 +14,12 @@
 #include <stdlib.h>
 #include <assert.h>
 
+// Values of the case labels of a switch statement, as they must be distinct.
+struct case_values {
+	size_t size, cap;
+	constant_int *values;
+};
+
 struct jump_blocks {
 	struct node *block_break,
 		*block_continue;
@@ -21,6 +27,7 @@ struct jump_blocks {
 	struct node *block_entry, *block_default;
 	struct node *case_control;
 	struct type *case_type;
+	struct case_values *case_values;
 };
 
 static struct function_scope {
@@ -106,6 +113,13 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!constant || constant->type != CONSTANT_TYPE)
 			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
+		struct case_values *values = jump_blocks->case_values;
+		for (size_t i = 0; i < values->size; i++) {
+			if (values->values[i] == constant->int_d)
+				ERROR(T0->pos, "More than one case label with the same value");
+		}
+		ADD_ELEMENT(values->size, values->cap, values->values) = constant->int_d;
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -198,12 +212,14 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	ir_goto(block_entry);
 	ir_block_start(block_body);
 
+	struct case_values case_values = { 0 };
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 
 	new_jump_blocks.block_entry = block_entry;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.case_control = case_control;
 	new_jump_blocks.case_type = case_type;
+	new_jump_blocks.case_values = &case_values;
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
@@ -214,6 +230,8 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	else
 		ir_connect(new_jump_blocks.block_entry, new_jump_blocks.block_break);
 
+	free(case_values.values);
+
 	// A continue in the body belongs to the enclosing loop.
 	jump_blocks->block_continue = new_jump_blocks.block_continue;
 
-- 
2.43.0


From eed8ffeb35d5eeead60976915425bb0afbcdf2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:32 +0000
Subject: [PATCH 103/106] fix: more than one default or matching type in
 _Generic is an error

---
 src/parser/expression.c | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 1d1ce5c..a5f6eb5 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -855,35 +855,34 @@ static struct expr *parse_prefix(void) {
 		decay_array(&expr);
 		struct type *match_type = type_make_const(expr->data_type, 0);
 
-		struct expr *res = NULL;
-		int res_is_default = 0;
+		struct expr *res = NULL, *default_res = NULL;
 
 		while (TACCEPT(T_COMMA)) {
-			int default_ = 0;
 			struct type *type = NULL;
-			if (TACCEPT(T_KDEFAULT)) {
-				res_is_default = 1;
-				default_ = 1;
-			} else {
+			if (!TACCEPT(T_KDEFAULT)) {
 				type = parse_type_name();
 				if (!type)
 					ERROR(T0->pos, "Expected type name, got %s", dbg_token(T0));
 			}
 			TEXPECT(T_COLON);
 			struct expr *rhs = parse_operand(ASSIGNMENT_PREC);
-			if (default_) {
-				if (!res)
-					res = rhs;
-			} else {
-				if (type == match_type) {
-					if (res && !res_is_default)
-						ERROR(T0->pos, "More than one compatible type in _Generic association list, %s",
-							  strdup(dbg_type(type)));
-					res = rhs;
-				}
+			if (!type) {
+				if (default_res)
+					ERROR(T0->pos, "More than one default in _Generic association list");
+				default_res = rhs;
+				continue;
+			}
+
+			if (type == match_type) {
+				if (res)
+					ERROR(T0->pos, "More than one compatible type in _Generic association list, %s",
+						  strdup(dbg_type(type)));
+				res = rhs;
 			}
 		}
 
+		if (!res)
+			res = default_res;
 		if (!res)
 			ERROR(T0->pos, "No type matched the expresison in _Generic");
 
-- 
2.43.0


From 4206e9272451e7aefd780ba4c852de28be79abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:21 +0000
Subject: [PATCH 104/106] fix: volatile variables have to stay in memory

---
 src/abi/microsoft.c      |  1 +
 src/abi/sysv.c           |  1 +
 src/ir/ir.h              |  1 +
 src/optimize/mem2reg.c   |  3 +++
 src/parser/declaration.c | 19 +++++++++++++++++++
 src/parser/symbols.h     |  3 ++-
 6 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index fd58800..09adc6d 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -178,6 +178,7 @@ static void ms_expr_function(struct node *func, struct type *function_type, stru
 
 		struct type *type = symbol->parameter.type;
 		struct node *address = ir_allocate_type(type, symbol->alignment);
+		address->alloc.is_volatile = symbol->is_volatile;
 
 		symbol->type = IDENT_VARIABLE;
 		symbol->variable.type = type;
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 5e2e130..360ccdc 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -328,6 +328,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
 
 		struct type *type = symbol->parameter.type;
 		struct node *address = ir_allocate_type(type, symbol->alignment);
+		address->alloc.is_volatile = symbol->is_volatile;
 
 		symbol->type = IDENT_VARIABLE;
 		symbol->variable.type = type;
diff --git a/src/ir/ir.h b/src/ir/ir.h
index e4fbb36..a70fd30 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -138,6 +138,7 @@ struct node {
 
 		struct {
 			int size, stack_location, alignment;
+			int is_volatile; // Has to stay in memory.
 		} alloc;
 
 		struct {
diff --git a/src/optimize/mem2reg.c b/src/optimize/mem2reg.c
index dccedd0..b66a6d8 100644
--- a/src/optimize/mem2reg.c
+++ b/src/optimize/mem2reg.c
@@ -66,6 +66,9 @@ static void try_remove_alloc(struct node *alloc, int visit_idx) {
 
 	(void)alloc;
 
+	if (alloc->alloc.is_volatile)
+		return;
+
 	int size = alloc->alloc.size;
 	set_current_function(alloc->parent_function);
 
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5edd7cc..2fc8358 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -168,6 +168,8 @@ static int parse_specifier(struct type_specifiers *ts,
 
 			if (sym) {
 				ts->data_type = sym->data_type;
+				if (tq && sym->is_volatile)
+					tq->volatile_n++;
 				TNEXT();
 				return 1;
 			}
@@ -825,6 +827,20 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 	return type;
 }
 
+// Volatile is not a part of types, all that matters is which variables have to stay in memory.
+// The qualifiers of what a pointer points to are included, since that is harmless.
+static int declares_volatile(const struct type_qualifiers *tq, const struct type_ast *ast) {
+	if (tq->volatile_n)
+		return 1;
+
+	for (; ast && ast->type != TAST_TERMINAL; ast = ast->parent) {
+		if (ast->type == TAST_POINTER && ast->pointer.tq.volatile_n)
+			return 1;
+	}
+
+	return 0;
+}
+
 struct parameter_list {
 	int abstract;
 	int n;
@@ -873,6 +889,7 @@ static struct parameter_list parse_parameter_list(void) {
 
 		ident->type = IDENT_PARAMETER;
 		ident->is_register = s.scs.register_n;
+		ident->is_volatile = declares_volatile(&s.tq, ast);
 		ident->parameter.type = type;
 		ret.arguments[ret.n - 1] = ident;
 
@@ -1428,6 +1445,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (symbol->data_type && symbol->data_type != type)
 			ERROR(T0->pos, "Redefinition of type %.*s", name.len, name.str);
 		symbol->data_type = type;
+		symbol->is_volatile = declares_volatile(&s.tq, ast);
 		return 1;
 	}
 
@@ -1573,6 +1591,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 				symbol->variable.type = type;
 				// The initializer can refer to the variable.
 				ptr = ir_allocate_type(type, symbol->alignment);
+				ptr->alloc.is_volatile = declares_volatile(&s.tq, ast);
 				symbol->variable.ptr = ptr;
 				if (has_init) {
 					struct initializer init = parse_initializer(&type);
diff --git a/src/parser/symbols.h b/src/parser/symbols.h
index 24117d7..fca675d 100644
--- a/src/parser/symbols.h
+++ b/src/parser/symbols.h
@@ -40,7 +40,7 @@ struct symbol_identifier {
 		} label;
 	};
 
-	int is_global, is_tentative, is_register;
+	int is_global, is_tentative, is_register, is_volatile;
 	// Have all file scope declarations of the function been inline, without extern?
 	int is_inline;
 	struct node *function; // NULL if the function has not been defined.
@@ -74,6 +74,7 @@ struct symbol_struct *symbols_get_struct_in_current_scope(struct string_view nam
 
 struct symbol_typedef {
 	struct type *data_type;
+	int is_volatile;
 };
 
 struct symbol_typedef *symbols_add_typedef(struct string_view name);
-- 
2.43.0


From 37753d44251ee3095ff8191025a9b05a5b3e931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:31 +0000
Subject: [PATCH 105/106] fix: the value of an assignment is not read again
 from its right operand

---
 src/parser/expression_to_ir.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 58180ce..2489935 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -524,16 +524,21 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 
 	assert(lhs.is_lvalue);
 
-	assign_ee_to_ee(&lhs, &rhs);
+	if (type_is_aggregate(lhs.data_type)) {
+		assign_ee_to_ee(&lhs, &rhs);
 
-	if (lhs.type == EE_BITFIELD_POINTER) {
-		return (struct evaluated_expression) {
-			.type = EE_VARIABLE,
-			.variable = assigned_value(&lhs, evaluated_expression_to_var(&rhs))
-		};
+		lhs.is_lvalue = 0;
+		return lhs;
 	}
 
-	return rhs;
+	// Do not read the right operand again for the value, it could be something else by then.
+	struct node *rhs_var = evaluated_expression_to_var(&rhs);
+	assign_to_ee(&lhs, rhs_var);
+
+	return (struct evaluated_expression) {
+		.type = EE_VARIABLE,
+		.variable = assigned_value(&lhs, rhs_var)
+	};
 }
 
 static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
-- 
2.43.0


From 0adcdaf230308166c121dce9017e8ffa8a57fab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:06 +0000
Subject: [PATCH 106/106] fix: a macro that is undefined after its name and
 before the next token is not used after it is freed

---
 src/preprocessor/macro_expander.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 4c7d653..56708bc 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -68,9 +68,9 @@ void define_map_remove(struct string_view str) {
 	struct define **elem = define_map_find(str);
 	if (*elem) {
 		struct define *next = (*elem)->next;
-		free(*elem);
 		*elem = next;
-		// TODO: Free contents of elem as well.
+		// TODO: Free elem. It can be in use still, if this directive
+		// came after a name of a function-like macro, where a left parenthesis was looked for.
 	}
 }
 
-- 
2.43.0

