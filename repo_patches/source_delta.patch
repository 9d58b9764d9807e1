From edae2c62fbd64f16e2916a48dfd5fe3885bc6c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 01/68] fix: compiler: zero-initialize the data structures
 which are read before being written

---
 src/globals.c | 36 +++++++++++++++++++++---------------
 src/parser.c  |  1 +
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index a470351..23f2f6b 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -12,6 +12,9 @@
 
 block_list_t BLOCKS;
 
+/* The template of a newly required variable, all of its bytes are zero. */
+var_t *EMPTY_VAR;
+
 macro_t *MACROS;
 int macros_idx = 0;
 
@@ -483,6 +486,7 @@ block_t *add_block(block_t *parent, func_t *func, macro_t *macro)
     blk->func = func;
     blk->macro = macro;
     blk->next_local = 0;
+    blk->next = NULL;
     return blk;
 }
 
@@ -565,7 +569,7 @@ func_t *add_func(char *name)
     if (hashmap_contains(FUNCS_MAP, name)) {
         fn = hashmap_get(FUNCS_MAP, name);
     } else {
-        fn = malloc(sizeof(func_t));
+        fn = calloc(1, sizeof(func_t));
 
         if (!fn) {
             printf("Failed to allocate func_t\n");
@@ -901,25 +905,26 @@ void global_init()
 
     BLOCKS.head = NULL;
     BLOCKS.tail = NULL;
-    MACROS = malloc(MAX_ALIASES * sizeof(macro_t));
+    EMPTY_VAR = calloc(1, sizeof(var_t));
+    MACROS = calloc(MAX_ALIASES, sizeof(macro_t));
     FUNCS_MAP = hashmap_create(MAX_FUNCS);
-    TYPES = malloc(MAX_TYPES * sizeof(type_t));
-    GLOBAL_IR = malloc(MAX_GLOBAL_IR * sizeof(ph1_ir_t));
-    PH1_IR = malloc(MAX_IR_INSTR * sizeof(ph1_ir_t));
+    TYPES = calloc(MAX_TYPES, sizeof(type_t));
+    GLOBAL_IR = calloc(MAX_GLOBAL_IR, sizeof(ph1_ir_t));
+    PH1_IR = calloc(MAX_IR_INSTR, sizeof(ph1_ir_t));
     INSN_ARENA = arena_init(DEFAULT_ARENA_SIZE);
     BB_ARENA = arena_init(DEFAULT_ARENA_SIZE);
-    PH2_IR_FLATTEN = malloc(MAX_IR_INSTR * sizeof(ph2_ir_t *));
-    LABEL_LUT = malloc(MAX_LABEL * sizeof(label_lut_t));
+    PH2_IR_FLATTEN = calloc(MAX_IR_INSTR, sizeof(ph2_ir_t *));
+    LABEL_LUT = calloc(MAX_LABEL, sizeof(label_lut_t));
     SOURCE = create_source(MAX_SOURCE);
-    ALIASES = malloc(MAX_ALIASES * sizeof(alias_t));
-    CONSTANTS = malloc(MAX_CONSTANTS * sizeof(constant_t));
+    ALIASES = calloc(MAX_ALIASES, sizeof(alias_t));
+    CONSTANTS = calloc(MAX_CONSTANTS, sizeof(constant_t));
 
-    elf_code = malloc(MAX_CODE);
-    elf_data = malloc(MAX_DATA);
-    elf_header = malloc(MAX_HEADER);
-    elf_symtab = malloc(MAX_SYMTAB);
-    elf_strtab = malloc(MAX_STRTAB);
-    elf_section = malloc(MAX_SECTION);
+    elf_code = calloc(1, MAX_CODE);
+    elf_data = calloc(1, MAX_DATA);
+    elf_header = calloc(1, MAX_HEADER);
+    elf_symtab = calloc(1, MAX_SYMTAB);
+    elf_strtab = calloc(1, MAX_STRTAB);
+    elf_section = calloc(1, MAX_SECTION);
 
     /* set starting point of global stack manually */
     func_t *global_func = add_func("");
@@ -933,6 +938,7 @@ void global_release()
         free(BLOCKS.head);
         BLOCKS.head = next;
     }
+    free(EMPTY_VAR);
     free(MACROS);
     hashmap_free(FUNCS_MAP);
     free(TYPES);
diff --git a/src/parser.c b/src/parser.c
index cfa0100..b0bfecf 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -31,6 +31,7 @@ var_t *require_var(block_t *blk)
         error("Too many locals");
 
     var_t *var = &blk->locals[blk->next_local++];
+    memcpy(var, EMPTY_VAR, sizeof(var_t));
     var->consumed = -1;
     var->base = var;
     return var;
-- 
2.43.0


From 0521b5ebaa730727894af45977234abe52ad1320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 02/68] fix: parser: connect the operands of ternary operators
 which contain logical or ternary operations

---
 src/parser.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index b0bfecf..2e5e789 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1804,8 +1804,14 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     basic_block_t *then_ = bb_create(parent);
     basic_block_t *else_ = bb_create(parent);
     basic_block_t *end_ternary = bb_create(parent);
-    bb_connect(then_, end_ternary, NEXT);
-    bb_connect(else_, end_ternary, NEXT);
+
+    /* The operands might contain logical or ternary operations and thus end in
+     * another basic block than they start with. Therefore, connect the branch
+     * to the beginning of each operand before parsing it, and the end of each
+     * operand to 'end_ternary' afterwards.
+     */
+    bb_connect(*bb, then_, THEN);
+    bb_connect(*bb, else_, ELSE);
 
     /* true branch */
     ph1_ir = add_ph1_ir(OP_label);
@@ -1814,7 +1820,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->src0 = vd;
 
     read_expr(parent, &then_);
-    bb_connect(*bb, then_, THEN);
+    bb_connect(then_, end_ternary, NEXT);
 
     if (!lex_accept(T_colon)) {
         /* ternary operator in standard C needs three operands */
@@ -1843,7 +1849,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->src0 = vd;
 
     read_expr(parent, &else_);
-    bb_connect(*bb, else_, ELSE);
+    bb_connect(else_, end_ternary, NEXT);
 
     ph1_ir = add_ph1_ir(OP_assign);
     ph1_ir->src0 = opstack_pop();
-- 
2.43.0


From 6ccf776a6454c4608aa6bdcb3e97445165d8a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 03/68] fix: parser: start a new basic block after a nested
 block

---
 src/parser.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 2e5e789..fe5da25 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2379,6 +2379,21 @@ basic_block_t *read_code_block(func_t *func,
                                block_t *parent,
                                basic_block_t *bb);
 
+/* The statements following a nested block belong to the outer scope, so they
+ * cannot share a basic block with the nested one.
+ */
+basic_block_t *leave_scope(block_t *parent, basic_block_t *bb)
+{
+    if (!bb)
+        return NULL;
+    if (bb->scope == parent)
+        return bb;
+
+    basic_block_t *n = bb_create(parent);
+    bb_connect(bb, n, NEXT);
+    return n;
+}
+
 basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 {
     char token[MAX_ID_LEN];
@@ -2692,6 +2707,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
             while (!lex_peek(T_case, NULL) && !lex_peek(T_close_curly, NULL) &&
                    !lex_peek(T_default, NULL)) {
                 true_body_ = read_body_statement(parent, true_body_);
+                true_body_ = leave_scope(parent, true_body_);
                 control = 1;
             }
 
@@ -3141,6 +3157,7 @@ basic_block_t *read_code_block(func_t *func,
         if (read_preproc_directive())
             continue;
         bb = read_body_statement(blk, bb);
+        bb = leave_scope(blk, bb);
         perform_side_effect(blk, bb);
     }
 
-- 
2.43.0


From dd2b3ae19c3550df82bf3a12ac3ec1641bcaea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 04/68] fix: ssa: do not insert phi functions for variables
 defined in a single basic block

---
 src/ssa.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ssa.c b/src/ssa.c
index 0eccec4..fc11bd8 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -610,6 +610,14 @@ void solve_phi_insertion()
         for (symbol_t *sym = fn->global_sym_list.head; sym; sym = sym->next) {
             var_t *var = sym->var;
 
+            /* A variable defined in only one basic block has nothing to merge.
+             * It is either dead or overwritten wherever that basic block does
+             * not dominate, so its definition doesn't reach from every edge.
+             */
+            if (var->ref_block_list.head &&
+                !var->ref_block_list.head->next)
+                continue;
+
             basic_block_t *work_list[64];
             int work_list_idx = 0;
 
-- 
2.43.0


From 11500d30a0306e3923ee54633d220ef510739f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 05/68] fix: arm: let conditional branches reach the 'then'
 block wherever it is placed

---
 src/arm-codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index c6c020e..da67975 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -268,7 +268,7 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
     case OP_branch:
         emit(__teq(rn));
         if (ph2_ir->is_branch_detached) {
-            emit(__b(__NE, 8));
+            emit(__b(__NE, ph2_ir->then_bb->elf_offset - elf_code_idx));
             emit(__b(__AL, ph2_ir->else_bb->elf_offset - elf_code_idx));
         } else
             emit(__b(__NE, ph2_ir->then_bb->elf_offset - elf_code_idx));
-- 
2.43.0


From ef0219f69404ba07bb302d612d3c23e9baa20cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 06/68] fix: peephole: keep the instructions whose results are
 used afterwards

---
 src/peephole.c | 68 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/src/peephole.c b/src/peephole.c
index f6e10de..0631f3e 100644
--- a/src/peephole.c
+++ b/src/peephole.c
@@ -31,12 +31,80 @@ bool is_fusible_insn(ph2_ir_t *ph2_ir)
     }
 }
 
+/* Determine whether the content of register 'reg' is never used by 'ph2_ir' and
+ * its successors. Since register allocation does not hold variables in registers
+ * across basic blocks, it is sufficient to check up to the end of basic block.
+ */
+bool is_dead_reg(ph2_ir_t *ph2_ir, int reg)
+{
+    func_t *func;
+
+    for (ph2_ir_t *ir = ph2_ir; ir; ir = ir->next) {
+        switch (ir->op) {
+        case OP_jump:
+            break;
+        case OP_load_constant:
+        case OP_load_data_address:
+        case OP_address_of:
+        case OP_global_address_of:
+        case OP_load:
+        case OP_global_load:
+            if (ir->dest == reg)
+                return true;
+            break;
+        case OP_store:
+        case OP_global_store:
+        case OP_branch:
+        case OP_address_of_func:
+        case OP_load_func:
+            if (ir->src0 == reg)
+                return false;
+            break;
+        case OP_write:
+            if (ir->src0 == reg || ir->src1 == reg)
+                return false;
+            break;
+        case OP_assign:
+        case OP_read:
+        case OP_negate:
+        case OP_bit_not:
+        case OP_log_not:
+            if (ir->src0 == reg)
+                return false;
+            if (ir->dest == reg)
+                return true;
+            break;
+        case OP_call:
+            func = find_func(ir->func_name);
+            return !func->va_args && reg >= func->num_params;
+        case OP_indirect:
+            return false;
+        case OP_return:
+            return ir->src0 != reg;
+        default:
+            if (ir->src0 == reg || ir->src1 == reg)
+                return false;
+            if (ir->dest == reg)
+                return true;
+            break;
+        }
+    }
+
+    return true;
+}
+
 bool insn_fusion(ph2_ir_t *ph2_ir)
 {
     ph2_ir_t *next = ph2_ir->next;
     if (!next)
         return false;
 
+    /* The fused instruction no longer writes the intermediate register, thus
+     * the content of the register must not be used afterwards.
+     */
+    if (ph2_ir->dest != next->dest && !is_dead_reg(next->next, ph2_ir->dest))
+        return false;
+
     if (next->op == OP_assign) {
         if (is_fusible_insn(ph2_ir) && ph2_ir->dest == next->src0) {
             /* eliminates:
-- 
2.43.0


From 3772f52ced74e123a25497b09c95cbf33fe0e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 07/68] fix: reg-alloc: forget the register contents after
 indirect calls

---
 src/reg-alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 5c7d80d..1a9f2f6 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -542,6 +542,10 @@ void reg_alloc()
 
                     is_pushing_args = 0;
                     args = 0;
+
+                    for (int i = 0; i < REG_CNT; i++)
+                        REGS[i].var = NULL;
+
                     break;
                 case OP_func_ret:
                     dest = prepare_dest(bb, insn->rd, -1, -1);
-- 
2.43.0


From f730550e15ab2170014207ee954ef8d64108cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 08/68] fix: parser: do not scale the operand added to an array
 element or a pointed value

---
 src/parser.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index fe5da25..dd25ed0 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1242,6 +1242,7 @@ void read_lvalue(lvalue_t *lvalue,
     var_t *vd;
     bool is_address_got = false;
     bool is_member = false;
+    bool is_element = false;
 
     /* already peeked and have the variable */
     lex_expect(T_identifier);
@@ -1324,6 +1325,12 @@ void read_lvalue(lvalue_t *lvalue,
             is_address_got = true;
             is_member = true;
             lvalue->is_reference = true;
+
+            /* the element of an array of pointers or a nested pointer is still
+             * a pointer.
+             */
+            is_element = var->is_ptr == 0 ||
+                         (var->is_ptr == 1 && var->array_size == 0);
         } else {
             char token[MAX_ID_LEN];
 
@@ -1367,6 +1374,7 @@ void read_lvalue(lvalue_t *lvalue,
             lvalue->is_ptr = var->is_ptr;
             lvalue->is_func = var->is_func;
             lvalue->size = get_size(var, lvalue->type);
+            is_element = false;
 
             /* if it is an array, get the address of first element instead of
              * its value.
@@ -1402,7 +1410,8 @@ void read_lvalue(lvalue_t *lvalue,
     if (!eval)
         return;
 
-    if (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
+    if (lex_peek(T_plus, NULL) && !is_element &&
+        (var->is_ptr || var->array_size)) {
         while (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
             lex_expect(T_plus);
             if (lvalue->is_reference) {
-- 
2.43.0


From 9696a9ba73010c97735e16f3e63b5c86716e5abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:08 +0000
Subject: [PATCH 09/68] fix: parser: scale pointers to pointers by the pointer
 size and honour multiplication in pointer arithmetic

---
 src/parser.c | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index dd25ed0..598c127 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1242,7 +1242,7 @@ void read_lvalue(lvalue_t *lvalue,
     var_t *vd;
     bool is_address_got = false;
     bool is_member = false;
-    bool is_element = false;
+    int ptr_level = var->is_ptr + (var->array_size > 0);
 
     /* already peeked and have the variable */
     lex_expect(T_identifier);
@@ -1284,8 +1284,8 @@ void read_lvalue(lvalue_t *lvalue,
                 error("Cannot apply square operator to non-pointer");
 
             /* if nested pointer, still pointer */
-            if (var->is_ptr <= 1 && var->array_size == 0)
-                lvalue->size = lvalue->type->size;
+            lvalue->size = ptr_level > 1 ? PTR_SIZE : lvalue->type->size;
+            ptr_level--;
 
             read_expr(parent, bb);
 
@@ -1325,12 +1325,6 @@ void read_lvalue(lvalue_t *lvalue,
             is_address_got = true;
             is_member = true;
             lvalue->is_reference = true;
-
-            /* the element of an array of pointers or a nested pointer is still
-             * a pointer.
-             */
-            is_element = var->is_ptr == 0 ||
-                         (var->is_ptr == 1 && var->array_size == 0);
         } else {
             char token[MAX_ID_LEN];
 
@@ -1374,7 +1368,7 @@ void read_lvalue(lvalue_t *lvalue,
             lvalue->is_ptr = var->is_ptr;
             lvalue->is_func = var->is_func;
             lvalue->size = get_size(var, lvalue->type);
-            is_element = false;
+            ptr_level = var->is_ptr + (var->array_size > 0);
 
             /* if it is an array, get the address of first element instead of
              * its value.
@@ -1410,10 +1404,8 @@ void read_lvalue(lvalue_t *lvalue,
     if (!eval)
         return;
 
-    if (lex_peek(T_plus, NULL) && !is_element &&
-        (var->is_ptr || var->array_size)) {
-        while (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
-            lex_expect(T_plus);
+    if (lex_peek(T_plus, NULL) && ptr_level > 0) {
+        while (lex_accept(T_plus)) {
             if (lvalue->is_reference) {
                 ph1_ir = add_ph1_ir(OP_read);
                 ph1_ir->src0 = opstack_pop();
@@ -1424,11 +1416,30 @@ void read_lvalue(lvalue_t *lvalue,
                 opstack_push(vd);
                 add_insn(parent, *bb, OP_read, ph1_ir->dest, ph1_ir->src0, NULL,
                          ph1_ir->size, NULL);
+                lvalue->is_reference = false;
             }
 
             read_expr_operand(parent, bb);
 
-            lvalue->size = lvalue->type->size;
+            /* multiplicative operators bind tighter than the addition */
+            while (lex_peek(T_asterisk, NULL) || lex_peek(T_divide, NULL) ||
+                   lex_peek(T_mod, NULL)) {
+                opcode_t op = get_operator();
+
+                read_expr_operand(parent, bb);
+
+                ph1_ir = add_ph1_ir(op);
+                ph1_ir->src1 = opstack_pop();
+                ph1_ir->src0 = opstack_pop();
+                vd = require_var(parent);
+                strcpy(vd->var_name, gen_name());
+                ph1_ir->dest = vd;
+                opstack_push(vd);
+                add_insn(parent, *bb, op, ph1_ir->dest, ph1_ir->src0,
+                         ph1_ir->src1, 0, NULL);
+            }
+
+            lvalue->size = ptr_level > 1 ? PTR_SIZE : lvalue->type->size;
 
             if (lvalue->size > 1) {
                 ph1_ir = add_ph1_ir(OP_load_constant);
-- 
2.43.0


From 312fb6ffe7f2ed145c522a8e431a336ba6061434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 10/68] fix: lexer: do not join operator characters which are
 separated by whitespace

---
 src/lexer.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 7b3cadb..450d031 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -227,7 +227,7 @@ token_t lex_token_internal(bool aliasing)
     }
 
     if (next_char == '/') {
-        read_char(true);
+        read_char(false);
 
         /* C-style comments */
         if (next_char == '*') {
@@ -261,6 +261,7 @@ token_t lex_token_internal(bool aliasing)
             return T_divideeq;
         }
 
+        skip_whitespace();
         return T_divide;
     }
 
@@ -302,13 +303,14 @@ token_t lex_token_internal(bool aliasing)
         return T_comma;
     }
     if (next_char == '^') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_xoreq;
         }
 
+        skip_whitespace();
         return T_bit_xor;
     }
     if (next_char == '~') {
@@ -379,13 +381,14 @@ token_t lex_token_internal(bool aliasing)
         return T_char;
     }
     if (next_char == '*') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_asteriskeq;
         }
 
+        skip_whitespace();
         return T_asterisk;
     }
     if (next_char == '&') {
@@ -421,26 +424,28 @@ token_t lex_token_internal(bool aliasing)
             return T_le;
         }
         if (next_char == '<') {
-            read_char(true);
+            read_char(false);
 
             if (next_char == '=') {
                 read_char(true);
                 return T_lshifteq;
             }
 
+            skip_whitespace();
             return T_lshift;
         }
         skip_whitespace();
         return T_lt;
     }
     if (next_char == '%') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_modeq;
         }
 
+        skip_whitespace();
         return T_mod;
     }
     if (next_char == '>') {
@@ -450,13 +455,14 @@ token_t lex_token_internal(bool aliasing)
             return T_ge;
         }
         if (next_char == '>') {
-            read_char(true);
+            read_char(false);
 
             if (next_char == '=') {
                 read_char(true);
                 return T_rshifteq;
             }
 
+            skip_whitespace();
             return T_rshift;
         }
         skip_whitespace();
@@ -485,7 +491,7 @@ token_t lex_token_internal(bool aliasing)
         return T_dot;
     }
     if (next_char == '-') {
-        read_char(true);
+        read_char(false);
         if (next_char == '>') {
             read_char(true);
             return T_arrow;
-- 
2.43.0


From c5b1487e822b4468e1aa07c979caa90e90315b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 11/68] fix: lexer: end a comment at the first '*/' also after
 further asterisks

---
 src/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.c b/src/lexer.c
index 450d031..c16437b 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -234,7 +234,7 @@ token_t lex_token_internal(bool aliasing)
             /* in a comment, skip until end */
             do {
                 read_char(false);
-                if (next_char == '*') {
+                while (next_char == '*') {
                     read_char(false);
                     if (next_char == '/') {
                         read_char(true);
-- 
2.43.0


From 68e6c588ddc6a9686a6afda7cda2400dcbaa8977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 12/68] fix: lexer: do not take the second backslash of an
 escape sequence for the start of another one

---
 src/lexer.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index c16437b..184236a 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -322,7 +322,8 @@ token_t lex_token_internal(bool aliasing)
         int special = 0;
 
         while ((read_char(false) != '"') || special) {
-            if ((i > 0) && (token_str[i - 1] == '\\')) {
+            if (special) {
+                special = 0;
                 if (next_char == 'n')
                     token_str[i - 1] = '\n';
                 else if (next_char == '"')
@@ -341,11 +342,9 @@ token_t lex_token_internal(bool aliasing)
                     abort();
             } else {
                 token_str[i++] = next_char;
+                if (next_char == '\\')
+                    special = 1;
             }
-            if (next_char == '\\')
-                special = 1;
-            else
-                special = 0;
         }
         token_str[i] = 0;
         read_char(true);
-- 
2.43.0


From 1af18142d5cb30d762af192c395a4b0b23caa067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 13/68] fix: parser: apply the unary minus to every kind of
 operand

---
 src/parser.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 598c127..defea14 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -764,12 +764,23 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
     int is_neg = 0;
 
     if (lex_accept(T_minus)) {
-        is_neg = 1;
-        if (lex_peek(T_numeric, NULL) == 0 &&
-            lex_peek(T_identifier, NULL) == 0 &&
-            lex_peek(T_open_bracket, NULL) == 0) {
+        if (lex_peek(T_string, NULL))
             error("Unexpected token after unary minus");
+
+        if (!lex_peek(T_numeric, NULL)) {
+            read_expr_operand(parent, bb);
+
+            ph1_ir = add_ph1_ir(OP_negate);
+            ph1_ir->src0 = opstack_pop();
+            vd = require_var(parent);
+            strcpy(vd->var_name, gen_name());
+            ph1_ir->dest = vd;
+            opstack_push(vd);
+            add_insn(parent, *bb, OP_negate, ph1_ir->dest, ph1_ir->src0, NULL,
+                     0, NULL);
+            return;
         }
+        is_neg = 1;
     }
 
     if (lex_peek(T_string, NULL))
@@ -1002,17 +1013,6 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
             /* unknown expression */
             error("Unrecognized expression token");
         }
-
-        if (is_neg) {
-            ph1_ir = add_ph1_ir(OP_negate);
-            ph1_ir->src0 = opstack_pop();
-            vd = require_var(parent);
-            strcpy(vd->var_name, gen_name());
-            ph1_ir->dest = vd;
-            opstack_push(vd);
-            add_insn(parent, *bb, OP_negate, ph1_ir->dest, ph1_ir->src0, NULL,
-                     0, NULL);
-        }
     }
 }
 
-- 
2.43.0


From 13f218ea51f0ba964862fc80a409da07499cbf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 14/68] fix: parser: apply postfix increment and decrement
 exactly once and at sequence points

---
 src/parser.c | 91 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 76 insertions(+), 15 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index defea14..2de66dc 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -699,6 +699,7 @@ void read_logical(opcode_t op,
                   basic_block_t **bb,
                   char *label_shared);
 void read_ternary_operation(block_t *parent, basic_block_t **bb);
+void flush_side_effect(block_t *parent, basic_block_t *bb);
 void read_func_parameters(block_t *parent, basic_block_t **bb)
 {
     int param_num = 0;
@@ -708,6 +709,7 @@ void read_func_parameters(block_t *parent, basic_block_t **bb)
     while (!lex_accept(T_close_bracket)) {
         read_expr(parent, bb);
         read_ternary_operation(parent, bb);
+        flush_side_effect(parent, *bb);
 
         params[param_num++] = opstack_pop();
         lex_accept(T_comma);
@@ -747,6 +749,47 @@ void read_indirect_call(block_t *parent, basic_block_t **bb)
 ph1_ir_t side_effect[10];
 int se_idx = 0;
 
+/* the side effects of the left-hand side of assignment are below 'se_base' */
+int se_base = 0;
+
+void perform_side_effect(block_t *parent, basic_block_t *bb)
+{
+    for (int i = se_base; i < se_idx; i++) {
+        ph1_ir_t *ph1_ir = add_ph1_ir(side_effect[i].op);
+        memcpy(ph1_ir, &side_effect[i], sizeof(ph1_ir_t));
+        add_insn(parent, bb, ph1_ir->op, ph1_ir->dest, ph1_ir->src0,
+                 ph1_ir->src1, ph1_ir->size, ph1_ir->func_name);
+    }
+    se_idx = se_base;
+}
+
+/* Apply the pending side effects at a sequence point inside an expression. Since
+ * the operands which are not consumed yet must keep their values, preserve the
+ * values of the variables that are about to be modified.
+ */
+void flush_side_effect(block_t *parent, basic_block_t *bb)
+{
+    for (int i = se_base; i < se_idx; i++) {
+        if (side_effect[i].op != OP_assign)
+            continue;
+
+        for (int j = 0; j < operand_stack_idx; j++) {
+            if (operand_stack[j] != side_effect[i].dest)
+                continue;
+
+            ph1_ir_t *ph1_ir = add_ph1_ir(OP_assign);
+            var_t *vd = require_var(parent);
+            strcpy(vd->var_name, gen_name());
+            ph1_ir->dest = vd;
+            ph1_ir->src0 = operand_stack[j];
+            operand_stack[j] = vd;
+            add_insn(parent, bb, OP_assign, ph1_ir->dest, ph1_ir->src0, NULL, 0,
+                     NULL);
+        }
+    }
+    perform_side_effect(parent, bb);
+}
+
 void read_lvalue(lvalue_t *lvalue,
                  var_t *var,
                  block_t *parent,
@@ -1474,6 +1517,11 @@ void read_lvalue(lvalue_t *lvalue,
         }
     } else {
         var_t *t;
+        int step = 1;
+
+        /* increment and decrement shift a pointer by the element size */
+        if (ptr_level > 0)
+            step = ptr_level > 1 ? PTR_SIZE : lvalue->type->size;
 
         /* If operand is a reference, read the value and push to stack
          * for the incoming addition/subtraction. Otherwise, use the
@@ -1494,7 +1542,7 @@ void read_lvalue(lvalue_t *lvalue,
             ph1_ir = add_ph1_ir(OP_load_constant);
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
-            vd->init_val = 1;
+            vd->init_val = step;
             ph1_ir->dest = vd;
             opstack_push(vd);
             add_insn(parent, *bb, OP_load_constant, ph1_ir->dest, NULL, NULL, 0,
@@ -1533,13 +1581,18 @@ void read_lvalue(lvalue_t *lvalue,
             side_effect[se_idx].op = OP_load_constant;
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
-            vd->init_val = 1;
+            vd->init_val = step;
             side_effect[se_idx].dest = vd;
             side_effect[se_idx].src0 = NULL;
             side_effect[se_idx].src1 = NULL;
             se_idx++;
 
-            side_effect[se_idx].op = lex_accept(T_increment) ? OP_add : OP_sub;
+            if (lex_accept(T_increment))
+                side_effect[se_idx].op = OP_add;
+            else {
+                lex_expect(T_decrement);
+                side_effect[se_idx].op = OP_sub;
+            }
             side_effect[se_idx].src1 = vd;
             if (lvalue->is_reference)
                 side_effect[se_idx].src0 = opstack_pop();
@@ -1594,6 +1647,8 @@ void read_logical(opcode_t op,
     } else
         error("encounter an invalid logical opcode in read_logical()");
 
+    flush_side_effect(parent, *bb);
+
     /* Test the operand before the logical-and/or operator */
     ph1_ir = add_ph1_ir(OP_branch);
     ph1_ir->dest = opstack_pop();
@@ -1629,6 +1684,8 @@ void finalize_logical(opcode_t op,
     strcpy(__label, gen_label());
     strcpy(label_end, gen_label());
 
+    flush_side_effect(parent, *bb);
+
     basic_block_t *then, *then_next, *else_if, *else_bb;
     basic_block_t *end = bb_create(parent);
     if (op == OP_log_and) {
@@ -1810,6 +1867,8 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     if (!lex_accept(T_question))
         return;
 
+    flush_side_effect(parent, *bb);
+
     /* ternary-operator */
     ph1_ir_t *ph1_ir = add_ph1_ir(OP_branch);
     ph1_ir->dest = opstack_pop();
@@ -1840,6 +1899,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->src0 = vd;
 
     read_expr(parent, &then_);
+    flush_side_effect(parent, then_);
     bb_connect(then_, end_ternary, NEXT);
 
     if (!lex_accept(T_colon)) {
@@ -1869,6 +1929,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->src0 = vd;
 
     read_expr(parent, &else_);
+    flush_side_effect(parent, else_);
     bb_connect(else_, end_ternary, NEXT);
 
     ph1_ir = add_ph1_ir(OP_assign);
@@ -2028,7 +2089,9 @@ bool read_body_assignment(char *token,
                 } else
                     t = operand_stack[operand_stack_idx - 1];
 
+                se_base = se_idx;
                 read_expr(parent, bb);
+                se_base = 0;
 
                 ph1_ir = add_ph1_ir(OP_load_constant);
                 vd = require_var(parent);
@@ -2074,8 +2137,10 @@ bool read_body_assignment(char *token,
                 }
             }
         } else {
+            se_base = se_idx;
             read_expr(parent, bb);
             read_ternary_operation(parent, bb);
+            se_base = 0;
 
             if (lvalue.is_func) {
                 ph1_ir = add_ph1_ir(OP_write);
@@ -2383,17 +2448,6 @@ int continue_pos_idx = 0;
 basic_block_t *break_bb[MAX_NESTING];
 basic_block_t *continue_bb[MAX_NESTING];
 
-void perform_side_effect(block_t *parent, basic_block_t *bb)
-{
-    for (int i = 0; i < se_idx; i++) {
-        ph1_ir_t *ph1_ir = add_ph1_ir(side_effect[i].op);
-        memcpy(ph1_ir, &side_effect[i], sizeof(ph1_ir_t));
-        add_insn(parent, bb, ph1_ir->op, ph1_ir->dest, ph1_ir->src0,
-                 ph1_ir->src1, ph1_ir->size, ph1_ir->func_name);
-    }
-    se_idx = 0;
-}
-
 basic_block_t *read_code_block(func_t *func,
                                macro_t *macro,
                                block_t *parent,
@@ -2449,7 +2503,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         read_ternary_operation(parent, &bb);
 
         /* apply side effect before function return */
-        perform_side_effect(parent, bb);
+        flush_side_effect(parent, bb);
         lex_expect(T_semicolon);
 
         ph1_ir = add_ph1_ir(OP_return);
@@ -2473,6 +2527,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        flush_side_effect(parent, bb);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
@@ -2584,6 +2639,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         cond = bb;
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        flush_side_effect(parent, bb);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
@@ -2643,6 +2699,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        flush_side_effect(parent, bb);
         lex_expect(T_close_bracket);
 
         /* create exit jump for breaks */
@@ -2872,6 +2929,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 read_body_assignment(token, blk, OP_generic, &setup);
             }
 
+            perform_side_effect(blk, setup);
             lex_expect(T_semicolon);
         }
 
@@ -2888,6 +2946,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         ph1_ir->src0 = var_condition;
         if (!lex_accept(T_semicolon)) {
             read_expr(blk, &cond_);
+            flush_side_effect(blk, cond_);
             lex_expect(T_semicolon);
         } else {
             /* always true */
@@ -2935,6 +2994,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 prefix_op = OP_sub;
             lex_peek(T_identifier, token);
             read_body_assignment(token, blk, prefix_op, &inc_);
+            perform_side_effect(blk, inc_);
             lex_expect(T_close_bracket);
         }
 
@@ -3020,6 +3080,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         ph1_ir->src0 = vd;
 
         read_expr(parent, &cond_);
+        flush_side_effect(parent, cond_);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
-- 
2.43.0


From 1161fc1fc92dac02f42c672950426ae7c312a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 15/68] fix: parser: do not treat the pointed-to element as a
 pointer in compound assignments

---
 src/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 2de66dc..1773fb2 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1329,6 +1329,7 @@ void read_lvalue(lvalue_t *lvalue,
             /* if nested pointer, still pointer */
             lvalue->size = ptr_level > 1 ? PTR_SIZE : lvalue->type->size;
             ptr_level--;
+            lvalue->is_ptr = ptr_level;
 
             read_expr(parent, bb);
 
@@ -2022,7 +2023,8 @@ bool read_body_assignment(char *token,
 
             /* if we have a pointer, shift it by element size */
             if (lvalue.is_ptr)
-                increment_size = lvalue.type->size;
+                increment_size =
+                    lvalue.is_ptr > 1 ? PTR_SIZE : lvalue.type->size;
 
             /* If operand is a reference, read the value and push to stack for
              * the incoming addition/subtraction. Otherwise, use the top element
-- 
2.43.0


From 5a9807e8a7b05d6131737c3ef1d3b5d18df5b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 16/68] fix: parser: give the shift operators their precedence

---
 src/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 1773fb2..daed590 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -91,6 +91,9 @@ int get_operator_prio(opcode_t op)
     case OP_gt:
     case OP_geq:
         return 10;
+    case OP_lshift:
+    case OP_rshift:
+        return 11;
     case OP_add:
     case OP_sub:
         return 12;
-- 
2.43.0


From 38f75e331f93b89585702e7b079570d4a62bab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 17/68] fix: parser: evaluate preprocessor constant expressions
 completely

---
 src/parser.c | 86 +++++++++++++++++++++-------------------------------
 1 file changed, 35 insertions(+), 51 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index daed590..0501219 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -106,19 +106,6 @@ int get_operator_prio(opcode_t op)
     }
 }
 
-int get_unary_operator_prio(opcode_t op)
-{
-    switch (op) {
-    case OP_add:
-    case OP_sub:
-    case OP_bit_not:
-    case OP_log_not:
-        return 14;
-    default:
-        return 0;
-    }
-}
-
 opcode_t get_operator()
 {
     opcode_t op = OP_generic;
@@ -190,18 +177,32 @@ int read_numeric_constant(char buffer[])
     return value;
 }
 
+int read_constant_expr();
+
 int read_constant_expr_operand()
 {
     char buffer[MAX_ID_LEN];
     int value;
 
+    if (lex_accept(T_plus))
+        return read_constant_expr_operand();
+
+    if (lex_accept(T_minus))
+        return -read_constant_expr_operand();
+
+    if (lex_accept(T_bit_not))
+        return ~read_constant_expr_operand();
+
+    if (lex_accept(T_log_not))
+        return !read_constant_expr_operand();
+
     if (lex_peek(T_numeric, buffer)) {
         lex_expect(T_numeric);
         return read_numeric_constant(buffer);
     }
 
     if (lex_accept(T_open_bracket)) {
-        value = read_constant_expr_operand();
+        value = read_constant_expr();
         lex_expect(T_close_bracket);
         return value;
     }
@@ -221,44 +222,19 @@ int read_constant_expr_operand()
     return -1;
 }
 
-int read_constant_infix_expr(int precedence)
+/* Evaluate the operations which bind tighter than the given precedence, and
+ * hand over the already consumed operator following them via 'next_op'.
+ */
+int read_constant_infix_expr(int precedence, opcode_t *next_op)
 {
     int lhs, rhs;
+    opcode_t op, rhs_op;
 
-    /* Evaluate unary expression first */
-    opcode_t op = get_operator();
-    int current_precedence = get_unary_operator_prio(op);
-    if (current_precedence != 0 && current_precedence >= precedence) {
-        lhs = read_constant_infix_expr(current_precedence);
-
-        switch (op) {
-        case OP_add:
-            break;
-        case OP_sub:
-            lhs = -lhs;
-            break;
-        case OP_bit_not:
-            lhs = ~lhs;
-            break;
-        case OP_log_not:
-            lhs = !lhs;
-            break;
-        default:
-            error("Unexpected unary token while evaluating constant");
-        }
-    } else {
-        lhs = read_constant_expr_operand();
-    }
-
-    while (true) {
-        op = get_operator();
-        current_precedence = get_operator_prio(op);
-
-        if (current_precedence == 0 || current_precedence <= precedence) {
-            break;
-        }
+    lhs = read_constant_expr_operand();
+    op = get_operator();
 
-        rhs = read_constant_infix_expr(current_precedence);
+    while (get_operator_prio(op) > precedence) {
+        rhs = read_constant_infix_expr(get_operator_prio(op), &rhs_op);
 
         switch (op) {
         case OP_add:
@@ -271,7 +247,13 @@ int read_constant_infix_expr(int precedence)
             lhs *= rhs;
             break;
         case OP_div:
-            lhs /= rhs;
+        case OP_mod:
+            if (!rhs)
+                error("Division by zero while evaluating constant");
+            if (op == OP_div)
+                lhs /= rhs;
+            else
+                lhs %= rhs;
             break;
         case OP_bit_and:
             lhs &= rhs;
@@ -316,15 +298,17 @@ int read_constant_infix_expr(int precedence)
             error("Unexpected infix token while evaluating constant");
         }
 
-        op = get_operator();
+        op = rhs_op;
     }
 
+    next_op[0] = op;
     return lhs;
 }
 
 int read_constant_expr()
 {
-    return read_constant_infix_expr(0);
+    opcode_t next_op;
+    return read_constant_infix_expr(0, &next_op);
 }
 
 /* Skips lines where preprocessor match is false, this will stop once next
-- 
2.43.0


From 0159ff4d6df49f489a444ab0a54a7d775d7b4273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 18/68] fix: preprocessor: handle nested conditionals

---
 src/parser.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 0501219..6ba0d55 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -316,8 +316,20 @@ int read_constant_expr()
  */
 void cppd_control_flow_skip_lines()
 {
-    while (!lex_peek(T_cppd_elif, NULL) && !lex_peek(T_cppd_else, NULL) &&
-           !lex_peek(T_cppd_endif, NULL)) {
+    int depth = 0; /* nesting level of conditionals inside the skipped lines */
+
+    while (depth ||
+           (!lex_peek(T_cppd_elif, NULL) && !lex_peek(T_cppd_else, NULL) &&
+            !lex_peek(T_cppd_endif, NULL))) {
+        if (lex_peek(T_eof, NULL))
+            error("Unterminated conditional directive");
+
+        if (lex_peek(T_cppd_if, NULL) || lex_peek(T_cppd_ifdef, NULL) ||
+            lex_peek(T_cppd_ifndef, NULL))
+            depth++;
+        else if (lex_peek(T_cppd_endif, NULL))
+            depth--;
+
         next_token = lex_token();
     }
     skip_whitespace();
@@ -441,8 +453,10 @@ bool read_preproc_directive()
     }
     if (lex_accept(T_cppd_elif)) {
         if (preproc_match) {
+            cppd_control_flow_skip_lines();
             while (!lex_peek(T_cppd_endif, NULL)) {
                 next_token = lex_token();
+                cppd_control_flow_skip_lines();
             }
             return true;
         }
@@ -471,7 +485,8 @@ bool read_preproc_directive()
         return true;
     }
     if (lex_accept(T_cppd_endif)) {
-        preproc_match = false;
+        /* a group of the enclosing conditional, if any, is being compiled */
+        preproc_match = true;
         skip_whitespace();
         return true;
     }
-- 
2.43.0


From 848ead9f103b2bc84f28649799edad1d44b2f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 19/68] fix: preprocessor: expand macros which are replaced by
 identifiers

---
 src/defs.h    |  1 +
 src/globals.c |  7 ++++---
 src/lexer.c   | 25 +++++++++++++------------
 src/parser.c  | 20 ++++++++++++--------
 4 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/defs.h b/src/defs.h
index bdbb342..3fadd1f 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -322,6 +322,7 @@ typedef struct {
 typedef struct {
     char alias[MAX_VAR_LEN];
     char value[MAX_VAR_LEN];
+    bool is_identifier;
     bool disabled;
 } alias_t;
 
diff --git a/src/globals.c b/src/globals.c
index 23f2f6b..9e8b3f5 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -490,19 +490,20 @@ block_t *add_block(block_t *parent, func_t *func, macro_t *macro)
     return blk;
 }
 
-void add_alias(char *alias, char *value)
+void add_alias(char *alias, char *value, bool is_identifier)
 {
     alias_t *al = &ALIASES[aliases_idx++];
     strcpy(al->alias, alias);
     strcpy(al->value, value);
+    al->is_identifier = is_identifier;
     al->disabled = false;
 }
 
-char *find_alias(char alias[])
+alias_t *find_alias(char alias[])
 {
     for (int i = 0; i < aliases_idx; i++) {
         if (!ALIASES[i].disabled && !strcmp(alias, ALIASES[i].alias))
-            return ALIASES[i].value;
+            return &ALIASES[i];
     }
     return NULL;
 }
diff --git a/src/lexer.c b/src/lexer.c
index 184236a..c0ea4f0 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -542,7 +542,7 @@ token_t lex_token_internal(bool aliasing)
     }
 
     if (is_alnum(next_char)) {
-        char *alias;
+        alias_t *alias;
         int i = 0;
         do {
             token_str[i++] = next_char;
@@ -584,19 +584,20 @@ token_t lex_token_internal(bool aliasing)
         if (aliasing) {
             alias = find_alias(token_str);
             if (alias) {
-                /* FIXME: comparison with string "bool" is a temporary hack */
-                token_t t;
-
-                if (is_numeric(alias)) {
-                    t = T_numeric;
-                } else if (!strcmp(alias, "_Bool")) {
-                    t = T_identifier;
-                } else {
-                    t = T_string;
+                /* The replacement identifier might be an alias, too. Note that
+                 * aliases might refer to each other.
+                 */
+                alias_t *first = alias;
+
+                for (i = 0; alias->is_identifier; i++) {
+                    strcpy(token_str, alias->value);
+                    alias = find_alias(token_str);
+                    if (!alias || alias == first || i >= aliases_idx)
+                        return T_identifier;
                 }
 
-                strcpy(token_str, alias);
-                return t;
+                strcpy(token_str, alias->value);
+                return is_numeric(alias->value) ? T_numeric : T_string;
             }
         }
 
diff --git a/src/parser.c b/src/parser.c
index 6ba0d55..f8bdd6a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -218,6 +218,10 @@ int read_constant_expr_operand()
         return find_alias(lookup_alias) ? 1 : 0;
     }
 
+    /* the remaining identifiers evaluate to zero */
+    if (lex_accept(T_identifier))
+        return 0;
+
     error("Unexpected token while evaluating constant");
     return -1;
 }
@@ -387,14 +391,14 @@ bool read_preproc_directive()
         lex_ident_internal(T_identifier, alias, false);
 
         if (lex_peek(T_numeric, value)) {
+            add_alias(alias, value, false);
             lex_expect(T_numeric);
-            add_alias(alias, value);
         } else if (lex_peek(T_string, value)) {
+            add_alias(alias, value, false);
             lex_expect(T_string);
-            add_alias(alias, value);
         } else if (lex_peek(T_identifier, value)) {
+            add_alias(alias, value, true);
             lex_expect(T_identifier);
-            add_alias(alias, value);
         } else if (lex_accept(T_open_bracket)) { /* function-like macro */
             macro_t *macro = add_macro(alias);
 
@@ -413,7 +417,7 @@ bool read_preproc_directive()
         } else {
             /* Empty alias, may be dummy alias serves as include guard */
             value[0] = 0;
-            add_alias(alias, value);
+            add_alias(alias, value, false);
         }
 
         return true;
@@ -423,10 +427,10 @@ bool read_preproc_directive()
 
         lex_expect_internal(T_cppd_undef, false);
         lex_peek(T_identifier, alias);
-        lex_expect(T_identifier);
-
         remove_alias(alias);
         remove_macro(alias);
+        lex_expect(T_identifier);
+
         return true;
     }
     if (lex_peek(T_cppd_error, NULL)) {
@@ -3468,10 +3472,10 @@ void parse_internal()
     elf_add_symbol("", 0, 0);    /* undef symbol */
 
     /* architecture defines */
-    add_alias(ARCH_PREDEFINED, "1");
+    add_alias(ARCH_PREDEFINED, "1", false);
 
     /* shecc run-time defines */
-    add_alias("__SHECC__", "1");
+    add_alias("__SHECC__", "1", false);
 
     /* Linux syscall */
     func_t *func = add_func("__syscall");
-- 
2.43.0


From 51ffc0bf054bb1670ac67d96f54bd41795e1f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 20/68] fix: parser: indirection binds tighter than addition

---
 src/parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index f8bdd6a..eb715c7 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -886,7 +886,9 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         int open_bracket = lex_accept(T_open_bracket);
         lex_peek(T_identifier, token);
         var_t *var = find_var(token, parent);
-        read_lvalue(&lvalue, var, parent, bb, true, OP_generic);
+        /* indirection binds tighter than an addition outside of brackets */
+        read_lvalue(&lvalue, var, parent, bb, true,
+                    open_bracket ? OP_generic : OP_read);
         if (open_bracket)
             lex_expect(T_close_bracket);
 
@@ -1454,7 +1456,7 @@ void read_lvalue(lvalue_t *lvalue,
     if (!eval)
         return;
 
-    if (lex_peek(T_plus, NULL) && ptr_level > 0) {
+    if (lex_peek(T_plus, NULL) && ptr_level > 0 && prefix_op != OP_read) {
         while (lex_accept(T_plus)) {
             if (lvalue->is_reference) {
                 ph1_ir = add_ph1_ir(OP_read);
@@ -1545,7 +1547,7 @@ void read_lvalue(lvalue_t *lvalue,
             add_insn(parent, *bb, OP_read, ph1_ir->dest, ph1_ir->src0, NULL,
                      ph1_ir->size, NULL);
         }
-        if (prefix_op != OP_generic) {
+        if (prefix_op == OP_add || prefix_op == OP_sub) {
             ph1_ir = add_ph1_ir(OP_load_constant);
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
-- 
2.43.0


From 8995362242004a1999cb60e962cef0d8424c4360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 21/68] fix: parser: keep the value of prefix ++/-- on elements
 and members

---
 src/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index eb715c7..7735b17 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1579,6 +1579,9 @@ void read_lvalue(lvalue_t *lvalue,
                  */
                 add_insn(parent, *bb, OP_write, NULL, ph1_ir->dest,
                          ph1_ir->src0, ph1_ir->size, NULL);
+
+                /* the updated value is the value of the expression */
+                opstack_push(vd);
             } else {
                 ph1_ir = add_ph1_ir(OP_assign);
                 ph1_ir->src0 = vd;
-- 
2.43.0


From 3caf60e826ad31794104eea00f0702575cac47b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 22/68] fix: disconnect unreachable basic blocks instead of
 crashing on them

---
 src/parser.c |  6 +++++-
 src/ssa.c    | 31 +++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 7735b17..2c98414 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2491,9 +2491,13 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
     var_t *vd, *var;
     opcode_t prefix_op = OP_generic;
 
-    if (!bb)
+    if (!bb) {
         printf("Warning: unreachable code detected\n");
 
+        /* a block without predecessors, ssa_build() takes it off the CFG */
+        bb = bb_create(parent);
+    }
+
     /* statement can be:
      *   function call, variable declaration, assignment operation,
      *   keyword, block
diff --git a/src/ssa.c b/src/ssa.c
index fc11bd8..c53111c 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -96,6 +96,36 @@ void bb_build_rpo(fn_t *fn, basic_block_t *bb)
     prev->rpo_next = bb;
 }
 
+/* Disconnect predecessors which the entry block can not reach */
+void bb_prune_preds(fn_t *fn, basic_block_t *bb)
+{
+    UNUSED(fn);
+
+    for (int i = 0; i < MAX_BB_PRED; i++) {
+        if (bb->prev[i].bb && !bb->prev[i].bb->visited)
+            bb->prev[i].bb = NULL;
+    }
+}
+
+void prune_unreachable_bb()
+{
+    bb_traversal_args_t *args = calloc(1, sizeof(bb_traversal_args_t));
+    for (fn_t *fn = FUNC_LIST.head; fn; fn = fn->next) {
+        args->fn = fn;
+        args->bb = fn->bbs;
+
+        /* mark the blocks which can be reached */
+        fn->visited++;
+        args->preorder_cb = NULL;
+        bb_forward_traversal(args);
+
+        fn->visited++;
+        args->preorder_cb = bb_prune_preds;
+        bb_forward_traversal(args);
+    }
+    free(args);
+}
+
 void build_rpo()
 {
     bb_traversal_args_t *args = calloc(1, sizeof(bb_traversal_args_t));
@@ -1205,6 +1235,7 @@ void dump_dom(char name[])
 
 void ssa_build(int dump_ir)
 {
+    prune_unreachable_bb();
     build_rpo();
     build_idom();
     build_dom();
-- 
2.43.0


From b07d87f24213c84855e741073d617d783b11194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 23/68] fix: parser: local variables hide functions and enum
 constants; conditional operator in every declarator

---
 src/parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 2c98414..ab87db8 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1012,7 +1012,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
             SOURCE->size = t;
             next_char = SOURCE->elements[SOURCE->size];
             next_token = lex_token();
-        } else if (con) {
+        } else if (con && !var) {
             ph1_ir = add_ph1_ir(OP_load_constant);
             vd = require_var(parent);
             vd->init_val = con->value;
@@ -3175,6 +3175,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
             add_symbol(bb, nv);
             if (lex_accept(T_assign)) {
                 read_expr(parent, &bb);
+                read_ternary_operation(parent, &bb);
 
                 ph1_ir = add_ph1_ir(OP_assign);
                 ph1_ir->src0 = opstack_pop();
@@ -3219,9 +3220,9 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         return bb;
     }
 
-    /* is a function call? */
+    /* is a function call? A local variable may hide the function */
     fn = find_func(token);
-    if (fn) {
+    if (fn && !find_var(token, parent)) {
         lex_expect(T_identifier);
         read_func_call(fn, parent, &bb);
         perform_side_effect(parent, bb);
-- 
2.43.0


From a3f8339e98d28c173f49028a3131f0bdb95d14b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 24/68] fix: parser: accept conditional expressions wherever an
 expression is expected

---
 src/parser.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index ab87db8..de8419f 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1340,6 +1340,7 @@ void read_lvalue(lvalue_t *lvalue,
             lvalue->is_ptr = ptr_level;
 
             read_expr(parent, bb);
+            read_ternary_operation(parent, bb);
 
             /* multiply by element size */
             if (lvalue->size != 1) {
@@ -1911,6 +1912,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->src0 = vd;
 
     read_expr(parent, &then_);
+    read_ternary_operation(parent, &then_);
     flush_side_effect(parent, then_);
     bb_connect(then_, end_ternary, NEXT);
 
@@ -1941,6 +1943,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->src0 = vd;
 
     read_expr(parent, &else_);
+    read_ternary_operation(parent, &else_);
     flush_side_effect(parent, else_);
     bb_connect(else_, end_ternary, NEXT);
 
@@ -2104,6 +2107,7 @@ bool read_body_assignment(char *token,
 
                 se_base = se_idx;
                 read_expr(parent, bb);
+                read_ternary_operation(parent, bb);
                 se_base = 0;
 
                 ph1_ir = add_ph1_ir(OP_load_constant);
@@ -2544,6 +2548,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        read_ternary_operation(parent, &bb);
         flush_side_effect(parent, bb);
         lex_expect(T_close_bracket);
 
@@ -2656,6 +2661,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         cond = bb;
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        read_ternary_operation(parent, &bb);
         flush_side_effect(parent, bb);
         lex_expect(T_close_bracket);
 
@@ -2716,6 +2722,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        read_ternary_operation(parent, &bb);
         flush_side_effect(parent, bb);
         lex_expect(T_close_bracket);
 
@@ -2934,6 +2941,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                     add_symbol(setup, nv);
                     if (lex_accept(T_assign)) {
                         read_expr(blk, &setup);
+                        read_ternary_operation(blk, &setup);
 
                         ph1_ir = add_ph1_ir(OP_assign);
                         ph1_ir->src0 = opstack_pop();
@@ -2963,6 +2971,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         ph1_ir->src0 = var_condition;
         if (!lex_accept(T_semicolon)) {
             read_expr(blk, &cond_);
+            read_ternary_operation(blk, &cond_);
             flush_side_effect(blk, cond_);
             lex_expect(T_semicolon);
         } else {
@@ -3097,6 +3106,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         ph1_ir->src0 = vd;
 
         read_expr(parent, &cond_);
+        read_ternary_operation(parent, &cond_);
         flush_side_effect(parent, cond_);
         lex_expect(T_close_bracket);
 
-- 
2.43.0


From 266e9f6ce1cd98570861553044a122cd3d50ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 25/68] fix: inliner: keep the escape sequences of the embedded
 library

---
 tools/inliner.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/inliner.c b/tools/inliner.c
index 952c412..69d0cc7 100644
--- a/tools/inliner.c
+++ b/tools/inliner.c
@@ -36,9 +36,9 @@ void write_line(char *src)
 {
     write_str("  __c(\"");
     for (int i = 0; src[i]; i++) {
-        if (src[i] == '\"') {
+        if (src[i] == '\"' || src[i] == '\\') {
             write_char('\\');
-            write_char('\"');
+            write_char(src[i]);
         } else if (src[i] != '\n') {
             write_char(src[i]);
         }
-- 
2.43.0


From 5e6ad2bf0e0ef1917dfa1d68c8c4aa4f49dab714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 26/68] fix: parser: concatenate adjacent string literals

---
 src/parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index de8419f..85de443 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -637,6 +637,13 @@ void read_numeric_param(block_t *parent, basic_block_t *bb, int is_neg)
     lex_ident(T_numeric, token);
 
     if (token[0] == '-') {
+    /* adjacent string literals are concatenated */
+    while (lex_peek(T_string, NULL)) {
+        int len = strlen(literal);
+        if (len + strlen(token_str) > MAX_TOKEN_LEN - 1)
+            error("String literal too long");
+        lex_ident(T_string, literal + len);
+    }
         is_neg = 1 - is_neg;
         i++;
     }
-- 
2.43.0


From b21f338384633532aea1578061dfc7f1e0f3141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 27/68] fix: report malformed input with a diagnostic and
 without overflowing buffers

---
 src/globals.c | 17 +++++++++++------
 src/lexer.c   | 16 +++++++++++-----
 src/main.c    |  8 +++++---
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index 9e8b3f5..0634d7d 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -681,6 +681,8 @@ int size_var(var_t *var)
         type_t *type = find_type(var->type_name, 0);
         if (!type)
             error("Incomplete type");
+        if (type->size == 0 && !type->base_struct)
+            error("Incomplete type");
         if (type->size == 0)
             size = type->base_struct->size;
         else
@@ -975,14 +977,17 @@ void error(char *msg)
 
     start_idx = offset + 1;
 
-    for (offset = 0;
-         offset < MAX_SOURCE && SOURCE->elements[start_idx + offset] != '\n';
-         offset++) {
-        diagnostic[i++] = SOURCE->elements[start_idx + offset];
+    /* Truncate the quoted line and the indentation to leave room for the
+     * marker.
+     */
+    for (offset = start_idx; i < 240; offset++) {
+        if (!SOURCE->elements[offset] || SOURCE->elements[offset] == '\n')
+            break;
+        diagnostic[i++] = SOURCE->elements[offset];
     }
     diagnostic[i++] = '\n';
 
-    for (offset = start_idx; offset < SOURCE->size; offset++) {
+    for (offset = start_idx; offset < SOURCE->size && i < 480; offset++) {
         diagnostic[i++] = ' ';
     }
 
@@ -993,7 +998,7 @@ void error(char *msg)
      */
     printf("Error %s at source location %d\n%s\n", msg, SOURCE->size,
            diagnostic);
-    abort();
+    exit(1);
 }
 
 void print_indent(int indent)
diff --git a/src/lexer.c b/src/lexer.c
index c0ea4f0..2aa67fd 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -339,8 +339,12 @@ token_t lex_token_internal(bool aliasing)
                 else if (next_char == '0')
                     token_str[i - 1] = '\0';
                 else
-                    abort();
+                    error("Unknown escape sequence");
             } else {
+                if (!next_char || next_char == '\n')
+                    error("Unterminated string literal");
+                if (i == MAX_TOKEN_LEN - 1)
+                    error("String literal too long");
                 token_str[i++] = next_char;
                 if (next_char == '\\')
                     special = 1;
@@ -369,13 +373,13 @@ token_t lex_token_internal(bool aliasing)
             else if (next_char == '0')
                 token_str[0] = '\0';
             else
-                abort();
+                error("Unknown escape sequence");
         } else {
             token_str[0] = next_char;
         }
         token_str[1] = 0;
         if (read_char(true) != '\'')
-            abort();
+            error("Unterminated character constant");
         read_char(true);
         return T_char;
     }
@@ -484,7 +488,7 @@ token_t lex_token_internal(bool aliasing)
                 read_char(true);
                 return T_elipsis;
             }
-            abort();
+            error("Unexpected token");
         }
         skip_whitespace();
         return T_dot;
@@ -545,6 +549,8 @@ token_t lex_token_internal(bool aliasing)
         alias_t *alias;
         int i = 0;
         do {
+            if (i == MAX_TOKEN_LEN - 1)
+                error("Token too long");
             token_str[i++] = next_char;
         } while (is_alnum(read_char(false)));
         token_str[i] = 0;
@@ -636,7 +642,7 @@ token_t lex_token()
 /* Skip the content. We only need the index where the macro body begins. */
 void skip_macro_body()
 {
-    while (!is_newline(next_char))
+    while (next_char && !is_newline(next_char))
         next_token = lex_token();
 
     skip_newline = true;
diff --git a/src/main.c b/src/main.c
index 8caab34..71264ad 100644
--- a/src/main.c
+++ b/src/main.c
@@ -56,12 +56,14 @@ int main(int argc, char *argv[])
         else if (!strcmp(argv[i], "--no-libc"))
             libc = 0;
         else if (!strcmp(argv[i], "-o")) {
-            if (i < argc + 1) {
+            if (i + 1 < argc) {
                 out = argv[i + 1];
                 i++;
-            } else
+            } else {
                 /* unsupported options */
-                abort();
+                printf("Missing output file!\n");
+                return -1;
+            }
         } else
             in = argv[i];
     }
-- 
2.43.0


From 053eb7325c1e75af1ba6c4e64735dfa1f14aa291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 28/68] fix: parser: reject undeclared names, missing
 separators and unbalanced directives

---
 src/parser.c    | 73 +++++++++++++++++++++++++++++++++++++++----------
 src/reg-alloc.c | 14 ++++++++++
 2 files changed, 73 insertions(+), 14 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 85de443..2091dbb 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -357,6 +357,9 @@ void read_defined_macro()
     check_def(lookup_alias, true);
 }
 
+/* number of the conditional directives which are not yet terminated */
+int cppd_depth = 0;
+
 /* read preprocessor directive at each potential positions: e.g.,
  * global statement / body statement
  */
@@ -376,6 +379,8 @@ bool read_preproc_directive()
             lex_expect(T_lt);
 
             while (!lex_peek(T_gt, NULL)) {
+                if (lex_peek(T_eof, NULL))
+                    error("Unterminated include directive");
                 next_token = lex_token();
             }
 
@@ -439,12 +444,13 @@ bool read_preproc_directive()
 
         do {
             error_diagnostic[i++] = next_char;
-        } while (read_char(false) != '\n');
+        } while (read_char(false) && next_char != '\n');
         error_diagnostic[i] = 0;
 
         error(error_diagnostic);
     }
     if (lex_accept(T_cppd_if)) {
+        cppd_depth++;
         preproc_match = read_constant_expr() != 0;
 
         if (preproc_match) {
@@ -456,6 +462,8 @@ bool read_preproc_directive()
         return true;
     }
     if (lex_accept(T_cppd_elif)) {
+        if (!cppd_depth)
+            error("#elif without #if");
         if (preproc_match) {
             cppd_control_flow_skip_lines();
             while (!lex_peek(T_cppd_endif, NULL)) {
@@ -476,6 +484,8 @@ bool read_preproc_directive()
         return true;
     }
     if (lex_accept(T_cppd_else)) {
+        if (!cppd_depth)
+            error("#else without #if");
         /* reach here has 2 possible cases:
          * 1. reach #ifdef preprocessor directive
          * 2. conditional expression in #elif is false
@@ -489,12 +499,16 @@ bool read_preproc_directive()
         return true;
     }
     if (lex_accept(T_cppd_endif)) {
+        if (!cppd_depth)
+            error("#endif without #if");
+        cppd_depth--;
         /* a group of the enclosing conditional, if any, is being compiled */
         preproc_match = true;
         skip_whitespace();
         return true;
     }
     if (lex_accept_internal(T_cppd_ifdef, false)) {
+        cppd_depth++;
         preproc_match = false;
         lex_ident(T_identifier, token);
         check_def(token, true);
@@ -508,6 +522,7 @@ bool read_preproc_directive()
         return true;
     }
     if (lex_accept_internal(T_cppd_ifndef, false)) {
+        cppd_depth++;
         preproc_match = false;
         lex_ident(T_identifier, token);
         check_def(token, false);
@@ -581,8 +596,10 @@ void read_inner_var_decl(var_t *vd, int anon, int is_param)
 /* starting next_token, need to check the type */
 void read_full_var_decl(var_t *vd, int anon, int is_param)
 {
-    lex_accept(T_struct); /* ignore struct definition */
+    bool is_struct = lex_accept(T_struct); /* ignore struct definition */
     lex_ident(T_identifier, vd->type_name);
+    if (!is_struct && !find_type(vd->type_name, 1))
+        error("Unable to find type");
     read_inner_var_decl(vd, anon, is_param);
 }
 
@@ -598,8 +615,13 @@ void read_parameter_list_decl(func_t *fd, int anon)
     int vn = 0;
     lex_expect(T_open_bracket);
     while (lex_peek(T_identifier, NULL) == 1) {
+        if (vn == MAX_PARAMS)
+            error("Too many parameters");
         read_full_var_decl(&fd->param_defs[vn++], anon, 1);
-        lex_accept(T_comma);
+        if (!lex_accept(T_comma))
+            break;
+        if (!lex_peek(T_identifier, NULL) && !lex_peek(T_elipsis, NULL))
+            error("Unexpected token after ','");
     }
     fd->num_params = vn;
 
@@ -615,6 +637,13 @@ void read_literal_param(block_t *parent, basic_block_t *bb)
     char literal[MAX_TOKEN_LEN];
 
     lex_ident(T_string, literal);
+    /* adjacent string literals are concatenated */
+    while (lex_peek(T_string, NULL)) {
+        int len = strlen(literal);
+        if (len + strlen(token_str) > MAX_TOKEN_LEN - 1)
+            error("String literal too long");
+        lex_ident(T_string, literal + len);
+    }
     int index = write_symbol(literal, strlen(literal) + 1);
 
     ph1_ir_t *ph1_ir = add_ph1_ir(OP_load_data_address);
@@ -637,13 +666,6 @@ void read_numeric_param(block_t *parent, basic_block_t *bb, int is_neg)
     lex_ident(T_numeric, token);
 
     if (token[0] == '-') {
-    /* adjacent string literals are concatenated */
-    while (lex_peek(T_string, NULL)) {
-        int len = strlen(literal);
-        if (len + strlen(token_str) > MAX_TOKEN_LEN - 1)
-            error("String literal too long");
-        lex_ident(T_string, literal + len);
-    }
         is_neg = 1 - is_neg;
         i++;
     }
@@ -724,8 +746,14 @@ void read_func_parameters(block_t *parent, basic_block_t **bb)
         read_ternary_operation(parent, bb);
         flush_side_effect(parent, *bb);
 
+        if (param_num == MAX_PARAMS)
+            error("Too many arguments");
         params[param_num++] = opstack_pop();
-        lex_accept(T_comma);
+        if (!lex_peek(T_close_bracket, NULL)) {
+            lex_expect(T_comma);
+            if (lex_peek(T_close_bracket, NULL))
+                error("Unexpected token after ','");
+        }
     }
     for (int i = 0; i < param_num; i++) {
         ph1_ir_t *ph1_ir = add_ph1_ir(OP_push);
@@ -873,6 +901,8 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
 
         lex_peek(T_identifier, token);
         var_t *var = find_var(token, parent);
+        if (!var)
+            error("Unrecognized identifier after '&'");
         read_lvalue(&lvalue, var, parent, bb, false, OP_generic);
 
         if (!lvalue.is_reference) {
@@ -893,6 +923,8 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         int open_bracket = lex_accept(T_open_bracket);
         lex_peek(T_identifier, token);
         var_t *var = find_var(token, parent);
+        if (!var)
+            error("Unrecognized identifier after '*'");
         /* indirection binds tighter than an addition outside of brackets */
         read_lvalue(&lvalue, var, parent, bb, true,
                     open_bracket ? OP_generic : OP_read);
@@ -1424,6 +1456,8 @@ void read_lvalue(lvalue_t *lvalue,
 
             /* change type currently pointed to */
             var = find_member(token, lvalue->type);
+            if (!var)
+                error("Unable to find member");
             lvalue->type = find_type(var->type_name, 0);
             lvalue->is_ptr = var->is_ptr;
             lvalue->is_func = var->is_func;
@@ -1926,7 +1960,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     if (!lex_accept(T_colon)) {
         /* ternary operator in standard C needs three operands */
         /* TODO: Release dangling basic block */
-        abort();
+        error("Missing ':' of the conditional operator");
     }
 
     ph1_ir = add_ph1_ir(OP_assign);
@@ -2756,6 +2790,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                     lex_expect(T_char);
                 } else {
                     constant_t *cd = find_constant(token_str);
+                    if (!cd)
+                        error("Unrecognized constant after 'case'");
                     case_val = cd->value;
                     lex_expect(T_identifier); /* already read it */
                 }
@@ -2880,6 +2916,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
     }
 
     if (lex_accept(T_break)) {
+        if (!break_exit_idx)
+            error("'break' outside of a loop or switch");
         ph1_ir = add_ph1_ir(OP_jump);
         ph1_ir->dest = break_exit[break_exit_idx - 1];
         bb_connect(bb, break_bb[break_exit_idx - 1], NEXT);
@@ -2888,6 +2926,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
     }
 
     if (lex_accept(T_continue)) {
+        if (!continue_pos_idx)
+            error("'continue' outside of a loop");
         ph1_ir = add_ph1_ir(OP_jump);
         ph1_ir->dest = continue_pos[continue_pos_idx - 1];
         bb_connect(bb, continue_bb[continue_pos_idx - 1], NEXT);
@@ -3526,6 +3566,9 @@ void parse_internal()
             continue;
         read_global_statement();
     } while (!lex_accept(T_eof));
+
+    if (cppd_depth)
+        error("Unterminated conditional directive");
 }
 
 /* Load specified source file and referred inclusion recursively */
@@ -3534,8 +3577,10 @@ void load_source_file(char *file)
     char buffer[MAX_LINE_LEN];
 
     FILE *f = fopen(file, "rb");
-    if (!f)
-        abort();
+    if (!f) {
+        printf("Unable to open source file %s\n", file);
+        exit(1);
+    }
 
     for (;;) {
         if (!fgets(buffer, MAX_LINE_LEN, f)) {
diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 1a9f2f6..87f744c 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -235,8 +235,20 @@ void extend_liveness(basic_block_t *bb, insn_t *insn, var_t *var, int offset)
         var->consumed = insn->idx + offset;
 }
 
+/* the function must have been defined, not only declared */
+void check_func_defined(char *name)
+{
+    func_t *func = find_func(name);
+    if (func && func->fn)
+        return;
+    printf("Undefined function %s\n", name);
+    exit(1);
+}
+
 void reg_alloc()
 {
+    check_func_defined("main");
+
     /* TODO: .bss and .data section */
     for (insn_t *global_insn = GLOBAL_FUNC.fn->bbs->insn_list.head; global_insn;
          global_insn = global_insn->next) {
@@ -471,6 +483,7 @@ void reg_alloc()
                 case OP_write:
                     if (insn->rs2->is_func) {
                         src0 = prepare_operand(bb, insn->rs1, -1);
+                        check_func_defined(insn->rs2->var_name);
                         ir = bb_add_ph2_ir(bb, OP_address_of_func);
                         ir->src0 = src0;
                         strcpy(ir->func_name, insn->rs2->var_name);
@@ -516,6 +529,7 @@ void reg_alloc()
                     REGS[ir->dest].polluted = 0;
                     break;
                 case OP_call:
+                    check_func_defined(insn->str);
                     func = find_func(insn->str);
                     if (!func->num_params)
                         spill_alive(bb, insn);
-- 
2.43.0


From 9ef71157da51ec6d17b16fb71ed1cab5f9e3fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 29/68] fix: parser: macro arguments may contain brackets and
 conditional expressions, variadic ones are passed one by one

---
 src/parser.c | 55 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 2091dbb..78b62ad 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -742,13 +742,19 @@ void read_func_parameters(block_t *parent, basic_block_t **bb)
 
     lex_expect(T_open_bracket);
     while (!lex_accept(T_close_bracket)) {
+        int base = operand_stack_idx;
+
         read_expr(parent, bb);
         read_ternary_operation(parent, bb);
         flush_side_effect(parent, *bb);
 
-        if (param_num == MAX_PARAMS)
-            error("Too many arguments");
-        params[param_num++] = opstack_pop();
+        /* '__VA_ARGS__' leaves more than one operand */
+        for (int i = base; i < operand_stack_idx; i++) {
+            if (param_num == MAX_PARAMS)
+                error("Too many arguments");
+            params[param_num++] = operand_stack[i];
+        }
+        operand_stack_idx = base;
         if (!lex_peek(T_close_bracket, NULL)) {
             lex_expect(T_comma);
             if (lex_peek(T_close_bracket, NULL))
@@ -838,6 +844,30 @@ void read_lvalue(lvalue_t *lvalue,
                  bool eval,
                  opcode_t op);
 
+/* Record where the arguments of a macro begin, up to the closing bracket. The
+ * arguments might contain brackets as well.
+ */
+void read_macro_args(macro_t *mac)
+{
+    /* 'size' has pointed at the first parameter */
+    while (!lex_peek(T_close_bracket, NULL)) {
+        int depth = 0;
+
+        if (mac->num_params == MAX_PARAMS)
+            error("Too many arguments");
+        mac->params[mac->num_params++] = SOURCE->size;
+        do {
+            if (lex_peek(T_eof, NULL))
+                error("Unterminated macro arguments");
+            next_token = lex_token();
+            if (next_token == T_open_bracket)
+                depth++;
+            else if (next_token == T_close_bracket)
+                depth--;
+        } while (depth > 0 || (depth == 0 && next_token != T_comma));
+    }
+}
+
 /* Maintain a stack of expression values and operators, depending on next
  * operators' priority. Either apply it or operator on stack first.
  */
@@ -1008,6 +1038,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
                 next_char = SOURCE->elements[SOURCE->size];
                 next_token = lex_token();
                 read_expr(parent, bb);
+                read_ternary_operation(parent, bb);
             }
             SOURCE->size = t;
             next_char = SOURCE->elements[SOURCE->size];
@@ -1020,14 +1051,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
             mac->num_params = 0;
             lex_expect(T_identifier);
 
-            /* 'size' has pointed at the first parameter */
-            while (!lex_peek(T_close_bracket, NULL)) {
-                mac->params[mac->num_params++] = SOURCE->size;
-                do {
-                    next_token = lex_token();
-                } while (next_token != T_comma &&
-                         next_token != T_close_bracket);
-            }
+            read_macro_args(mac);
             /* move 'size' to the macro body */
             macro_return_idx = SOURCE->size;
             SOURCE->size = mac->start_source_idx;
@@ -1048,6 +1072,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
             next_char = SOURCE->elements[SOURCE->size];
             next_token = lex_token();
             read_expr(parent, bb);
+            read_ternary_operation(parent, bb);
             SOURCE->size = t;
             next_char = SOURCE->elements[SOURCE->size];
             next_token = lex_token();
@@ -3254,13 +3279,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         mac->num_params = 0;
         lex_expect(T_identifier);
 
-        /* 'size' has pointed at the first parameter */
-        while (!lex_peek(T_close_bracket, NULL)) {
-            mac->params[mac->num_params++] = SOURCE->size;
-            do {
-                next_token = lex_token();
-            } while (next_token != T_comma && next_token != T_close_bracket);
-        }
+        read_macro_args(mac);
         /* move 'size' to the macro body */
         macro_return_idx = SOURCE->size;
         SOURCE->size = mac->start_source_idx;
-- 
2.43.0


From 69d46346f5bf327bd1447fa0ab0017394eda4e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:44 +0000
Subject: [PATCH 30/68] fix: ssa: ignore the predecessors of a phi function
 which no definition reaches

---
 src/ssa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ssa.c b/src/ssa.c
index c53111c..d380f38 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -760,6 +760,10 @@ void pop_name(var_t *var)
 
 void append_phi_operand(insn_t *insn, var_t *var, basic_block_t *bb_from)
 {
+    /* no definition reaches the phi function through this predecessor */
+    if (!var->base || var->base->rename.stack_idx < 1)
+        return;
+
     phi_operand_t *op = calloc(1, sizeof(phi_operand_t));
     op->from = bb_from;
     op->var = get_stack_top_subscript_var(var);
-- 
2.43.0


From 970430d90d04645bfc6e2696db9495a00d2d128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 31/68] fix: parser: let 'continue' repeat a 'for' loop without
 increment whose body does not fall through

---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 78b62ad..03fab73 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3115,7 +3115,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         if (body_) {
             bb_connect(body_, inc_, NEXT);
             bb_connect(inc_, cond_start, NEXT);
-        } else if (inc_->insn_list.head) {
+        } else if (inc_->insn_list.head || inc_->prev[0].bb) {
             bb_connect(inc_, cond_start, NEXT);
         } else {
             /* TODO: Release dangling inc basic block */
-- 
2.43.0


From fb3362cb698eb453a2ba14320deaa87245d68a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 32/68] fix: keep structures from being overwritten by their
 own address and functions used as values from hiding themselves

---
 src/globals.c   | 3 +++
 src/reg-alloc.c | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/globals.c b/src/globals.c
index 0634d7d..2dd068d 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -639,6 +639,9 @@ var_t *find_local_var(char *token, block_t *block)
 
     for (; block; block = block->parent) {
         for (int i = 0; i < block->next_local; i++) {
+            /* function designators are not declared here */
+            if (block->locals[i].is_func && !block->locals[i].type_name[0])
+                continue;
             if (!strcmp(block->locals[i].var_name, token))
                 return &block->locals[i];
         }
diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 87f744c..11147a5 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -394,6 +394,12 @@ void reg_alloc()
                     else
                         fn->func->stack_size += align_size(sz);
 
+                    /* A structure lives at 'offset'. There is no value to keep
+                     * in a register, which might be spilled to the structure.
+                     */
+                    if (!insn->rd->is_ptr && !insn->rd->array_size)
+                        break;
+
                     dest = prepare_dest(bb, insn->rd, -1, -1);
                     ir = bb_add_ph2_ir(bb, OP_address_of);
                     ir->src0 = src0;
-- 
2.43.0


From 5a79295ad469a4edca728ad785c589939fc75682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:18 +0000
Subject: [PATCH 33/68] fix: allocate function pointers and let functions be
 passed as values

---
 src/parser.c    | 89 ++++++++++++++++++++++++++++++++++++-------------
 src/reg-alloc.c |  2 +-
 2 files changed, 67 insertions(+), 24 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 03fab73..acce6fa 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -541,6 +541,19 @@ bool read_preproc_directive()
 
 void read_parameter_list_decl(func_t *fd, int anon);
 
+void read_var_allocation(var_t *vd)
+{
+    if (vd->is_global) {
+        ph1_ir_t *ir = add_global_ir(OP_allocat);
+        ir->src0 = vd;
+        opstack_push(vd);
+    } else {
+        ph1_ir_t *ph1_ir;
+        ph1_ir = add_ph1_ir(OP_allocat);
+        ph1_ir->src0 = vd;
+    }
+}
+
 void read_inner_var_decl(var_t *vd, int anon, int is_param)
 {
     vd->init_val = 0;
@@ -556,21 +569,15 @@ void read_inner_var_decl(var_t *vd, int anon, int is_param)
         lex_ident(T_identifier, vd->var_name);
         lex_expect(T_close_bracket);
         read_parameter_list_decl(&func, 1);
+        vd->array_size = 0;
         vd->is_func = true;
+        if (anon == 0 && !is_param)
+            read_var_allocation(vd);
     } else {
         if (anon == 0) {
             lex_ident(T_identifier, vd->var_name);
-            if (!lex_peek(T_open_bracket, NULL) && !is_param) {
-                if (vd->is_global) {
-                    ph1_ir_t *ir = add_global_ir(OP_allocat);
-                    ir->src0 = vd;
-                    opstack_push(vd);
-                } else {
-                    ph1_ir_t *ph1_ir;
-                    ph1_ir = add_ph1_ir(OP_allocat);
-                    ph1_ir->src0 = vd;
-                }
-            }
+            if (!lex_peek(T_open_bracket, NULL) && !is_param)
+                read_var_allocation(vd);
         }
         if (lex_accept(T_open_square)) {
             char buffer[10];
@@ -793,6 +800,40 @@ void read_indirect_call(block_t *parent, basic_block_t **bb)
     add_insn(parent, *bb, OP_indirect, NULL, ph1_ir->src0, NULL, 0, NULL);
 }
 
+/* The address of a function is stored to memory first. Return the variable which
+ * holds it.
+ */
+var_t *read_func_address(var_t *func, block_t *parent, basic_block_t *bb)
+{
+    ph1_ir_t *ph1_ir = add_ph1_ir(OP_allocat);
+    var_t *slot = require_var(parent);
+    strcpy(slot->type_name, "int");
+    strcpy(slot->var_name, gen_name());
+    ph1_ir->src0 = slot;
+    add_insn(parent, bb, OP_allocat, slot, NULL, NULL, 0, NULL);
+
+    ph1_ir = add_ph1_ir(OP_address_of);
+    var_t *addr = require_var(parent);
+    strcpy(addr->var_name, gen_name());
+    ph1_ir->src0 = slot;
+    ph1_ir->dest = addr;
+    add_insn(parent, bb, OP_address_of, addr, slot, NULL, 0, NULL);
+
+    ph1_ir = add_ph1_ir(OP_write);
+    ph1_ir->src0 = func;
+    ph1_ir->dest = addr;
+    add_insn(parent, bb, OP_write, NULL, addr, func, PTR_SIZE, NULL);
+
+    ph1_ir = add_ph1_ir(OP_read);
+    var_t *vd = require_var(parent);
+    strcpy(vd->var_name, gen_name());
+    ph1_ir->src0 = addr;
+    ph1_ir->dest = vd;
+    ph1_ir->size = PTR_SIZE;
+    add_insn(parent, bb, OP_read, vd, addr, NULL, PTR_SIZE, NULL);
+    return vd;
+}
+
 ph1_ir_t side_effect[10];
 int se_idx = 0;
 
@@ -1121,7 +1162,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
                 vd = require_var(parent);
                 vd->is_func = true;
                 strcpy(vd->var_name, token);
-                opstack_push(vd);
+                opstack_push(read_func_address(vd, parent, *bb));
             }
         } else {
             printf("%s\n", token);
@@ -2077,16 +2118,18 @@ bool read_body_assignment(char *token,
             op = OP_bit_and;
         } else if (lex_peek(T_open_bracket, NULL)) {
             var_t *vd;
-            /* dereference lvalue into function address */
-            ph1_ir = add_ph1_ir(OP_read);
-            ph1_ir->src0 = opstack_pop();
-            ph1_ir->size = PTR_SIZE;
-            vd = require_var(parent);
-            strcpy(vd->var_name, gen_name());
-            ph1_ir->dest = vd;
-            opstack_push(vd);
-            add_insn(parent, *bb, OP_read, ph1_ir->dest, ph1_ir->src0, NULL,
-                     PTR_SIZE, NULL);
+            if (lvalue.is_reference) {
+                /* dereference lvalue into function address */
+                ph1_ir = add_ph1_ir(OP_read);
+                ph1_ir->src0 = opstack_pop();
+                ph1_ir->size = PTR_SIZE;
+                vd = require_var(parent);
+                strcpy(vd->var_name, gen_name());
+                ph1_ir->dest = vd;
+                opstack_push(vd);
+                add_insn(parent, *bb, OP_read, ph1_ir->dest, ph1_ir->src0, NULL,
+                         PTR_SIZE, NULL);
+            }
 
             read_indirect_call(parent, bb);
             return true;
@@ -2225,7 +2268,7 @@ bool read_body_assignment(char *token,
             read_ternary_operation(parent, bb);
             se_base = 0;
 
-            if (lvalue.is_func) {
+            if (lvalue.is_func && lvalue.is_reference) {
                 ph1_ir = add_ph1_ir(OP_write);
                 ph1_ir->src0 = opstack_pop();
                 ph1_ir->dest = opstack_pop();
diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 11147a5..6d35fbf 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -278,7 +278,7 @@ void reg_alloc()
                 spill_var(GLOBAL_FUNC.fn->bbs, global_insn->rd, dest);
             } else {
                 global_insn->rd->offset = GLOBAL_FUNC.stack_size;
-                if (global_insn->rd->is_ptr)
+                if (global_insn->rd->is_ptr || global_insn->rd->is_func)
                     GLOBAL_FUNC.stack_size += PTR_SIZE;
                 else if (strcmp(global_insn->rd->type_name, "int") &&
                          strcmp(global_insn->rd->type_name, "char") &&
-- 
2.43.0


From 1848dc64c253a5049d5a232d829518b2e6208f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 34/68] fix: do not overwrite an argument with the function
 pointer of a call with eight arguments

---
 src/reg-alloc.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 6d35fbf..bcd3d4c 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -554,7 +554,17 @@ void reg_alloc()
                     if (!args)
                         spill_alive(bb, insn);
 
-                    src0 = prepare_operand(bb, insn->rs1, -1);
+                    if (args == REG_CNT) {
+                        /* every register holds an argument */
+                        if (insn->rs1->is_global)
+                            ir = bb_add_ph2_ir(bb, OP_global_load);
+                        else
+                            ir = bb_add_ph2_ir(bb, OP_load);
+                        ir->src0 = insn->rs1->offset;
+                        ir->dest = REG_CNT;
+                        src0 = REG_CNT;
+                    } else
+                        src0 = prepare_operand(bb, insn->rs1, -1);
                     ir = bb_add_ph2_ir(bb, OP_load_func);
                     ir->src0 = src0;
 
-- 
2.43.0


From a997aaa780b136a8ade5b7dd1d087a69eabe66f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 35/68] fix: enlarge the code buffer, which the compiler itself
 overflows on RISC-V

---
 src/defs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/defs.h b/src/defs.h
index 3fadd1f..ce2bf20 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -28,7 +28,7 @@
 #define MAX_GLOBAL_IR 256
 #define MAX_LABEL 4096
 #define MAX_SOURCE 524288
-#define MAX_CODE 262144
+#define MAX_CODE 1048576
 #define MAX_DATA 262144
 #define MAX_SYMTAB 65536
 #define MAX_STRTAB 65536
-- 
2.43.0


From caafd08331f5778d635ad4477cad2ce6c1554be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 36/68] fix: stop with a diagnostic instead of writing beyond
 the tables of the compiler

---
 src/defs.h    | 15 +++++++++------
 src/globals.c |  7 +++++++
 src/parser.c  | 11 ++++++++---
 src/ssa.c     | 52 +++++++++++++++++++++++++++++++++++----------------
 4 files changed, 60 insertions(+), 25 deletions(-)

diff --git a/src/defs.h b/src/defs.h
index ce2bf20..b93c47a 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -25,6 +25,8 @@
 #define MAX_BB_PRED 128
 #define MAX_BB_DOM_SUCC 64
 #define MAX_BB_RDOM_SUCC 256
+#define MAX_BB_DF 256
+#define MAX_SUBSCRIPTS 64
 #define MAX_GLOBAL_IR 256
 #define MAX_LABEL 4096
 #define MAX_SOURCE 524288
@@ -39,6 +41,7 @@
 #define MAX_CASES 128
 #define MAX_NESTING 128
 #define MAX_OPERAND_STACK_SIZE 32
+#define MAX_OPERATOR_STACK_SIZE 10
 #define MAX_ANALYSIS_STACK_SIZE 800
 
 /* Default capacities for common data structures */
@@ -161,7 +164,7 @@ typedef enum {
 /* variable definition */
 typedef struct {
     int counter;
-    int stack[64];
+    int stack[MAX_SUBSCRIPTS];
     int stack_idx;
 } rename_t;
 
@@ -195,7 +198,7 @@ struct var {
     int in_loop;
     struct var *base;
     int subscript;
-    struct var *subscripts[64];
+    struct var *subscripts[MAX_SUBSCRIPTS];
     int subscripts_idx;
     rename_t rename;
     ref_block_list_t ref_block_list; /* blocks which kill variable */
@@ -419,15 +422,15 @@ struct basic_block {
     int live_out_idx;
     int rpo;
     int rpo_r;
-    struct basic_block *DF[64];
-    struct basic_block *RDF[64];
+    struct basic_block *DF[MAX_BB_DF];
+    struct basic_block *RDF[MAX_BB_DF];
     int df_idx;
     int rdf_idx;
     int visited;
     bool useful; /* indicate whether this BB contains useful instructions */
-    struct basic_block *dom_next[64];
+    struct basic_block *dom_next[MAX_BB_DOM_SUCC];
     struct basic_block *dom_prev;
-    struct basic_block *rdom_next[256];
+    struct basic_block *rdom_next[MAX_BB_RDOM_SUCC];
     struct basic_block *rdom_prev;
     fn_t *belong_to;
     block_t *scope;
diff --git a/src/globals.c b/src/globals.c
index 2dd068d..088978b 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -1004,6 +1004,13 @@ void error(char *msg)
     exit(1);
 }
 
+/* Stop rather than write beyond a table of limited size. */
+void check_capacity(int idx, int limit)
+{
+    if (idx >= limit)
+        error("Too complex to be compiled");
+}
+
 void print_indent(int indent)
 {
     for (int i = 0; i < indent; i++)
diff --git a/src/parser.c b/src/parser.c
index acce6fa..646d44b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -43,6 +43,7 @@ int operand_stack_idx = 0;
 
 void opstack_push(var_t *var)
 {
+    check_capacity(operand_stack_idx, MAX_OPERAND_STACK_SIZE);
     operand_stack[operand_stack_idx++] = var;
 }
 
@@ -1187,7 +1188,7 @@ void read_expr(block_t *parent, basic_block_t **bb)
 {
     ph1_ir_t *ph1_ir;
     var_t *vd;
-    opcode_t oper_stack[10];
+    opcode_t oper_stack[MAX_OPERATOR_STACK_SIZE];
     int oper_stack_idx = 0;
 
     /* These variables used for parsing logical-and/or operation.
@@ -1220,8 +1221,10 @@ void read_expr(block_t *parent, basic_block_t **bb)
             op == OP_log_and ? log_and_shared_label : log_or_shared_label);
         has_prev_log_op = true;
         prev_log_op = op;
-    } else
+    } else {
+        check_capacity(oper_stack_idx, MAX_OPERATOR_STACK_SIZE);
         oper_stack[oper_stack_idx++] = op;
+    }
     read_expr_operand(parent, bb);
     op = get_operator();
 
@@ -1352,8 +1355,10 @@ void read_expr(block_t *parent, basic_block_t **bb)
             }
         }
         read_expr_operand(parent, bb);
-        if (!is_logical(op))
+        if (!is_logical(op)) {
+            check_capacity(oper_stack_idx, MAX_OPERATOR_STACK_SIZE);
             oper_stack[oper_stack_idx++] = op;
+        }
         op = get_operator();
     }
 
diff --git a/src/ssa.c b/src/ssa.c
index d380f38..f3b50ff 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -222,10 +222,7 @@ bool dom_connect(basic_block_t *pred, basic_block_t *succ)
             break;
     }
 
-    if (i > MAX_BB_DOM_SUCC - 1) {
-        printf("Error: too many predecessors\n");
-        abort();
-    }
+    check_capacity(i, MAX_BB_DOM_SUCC);
 
     pred->dom_next[i++] = succ;
     succ->dom_prev = pred;
@@ -256,6 +253,12 @@ void build_dom()
     free(args);
 }
 
+void add_df(basic_block_t *curr, basic_block_t *bb)
+{
+    check_capacity(curr->df_idx, MAX_BB_DF);
+    curr->DF[curr->df_idx++] = bb;
+}
+
 void bb_build_df(fn_t *fn, basic_block_t *bb)
 {
     UNUSED(fn);
@@ -272,7 +275,7 @@ void bb_build_df(fn_t *fn, basic_block_t *bb)
         if (bb->prev[i].bb) {
             for (basic_block_t *curr = bb->prev[i].bb; curr != bb->idom;
                  curr = curr->idom)
-                curr->DF[curr->df_idx++] = bb;
+                add_df(curr, bb);
         }
     }
 }
@@ -354,10 +357,7 @@ bool rdom_connect(basic_block_t *pred, basic_block_t *succ)
             break;
     }
 
-    if (i > MAX_BB_RDOM_SUCC - 1) {
-        printf("Error: too many predecessors\n");
-        abort();
-    }
+    check_capacity(i, MAX_BB_RDOM_SUCC);
 
     pred->rdom_next[i++] = succ;
     succ->rdom_prev = pred;
@@ -386,6 +386,12 @@ void build_rdom()
     free(args);
 }
 
+void add_rdf(basic_block_t *curr, basic_block_t *bb)
+{
+    check_capacity(curr->rdf_idx, MAX_BB_DF);
+    curr->RDF[curr->rdf_idx++] = bb;
+}
+
 void bb_build_rdf(fn_t *fn, basic_block_t *bb)
 {
     UNUSED(fn);
@@ -403,17 +409,17 @@ void bb_build_rdf(fn_t *fn, basic_block_t *bb)
     if (bb->next) {
         for (basic_block_t *curr = bb->next; curr != bb->r_idom;
              curr = curr->r_idom)
-            curr->RDF[curr->rdf_idx++] = bb;
+            add_rdf(curr, bb);
     }
     if (bb->else_) {
         for (basic_block_t *curr = bb->else_; curr != bb->r_idom;
              curr = curr->r_idom)
-            curr->RDF[curr->rdf_idx++] = bb;
+            add_rdf(curr, bb);
     }
     if (bb->then_) {
         for (basic_block_t *curr = bb->then_; curr != bb->r_idom;
              curr = curr->r_idom)
-            curr->RDF[curr->rdf_idx++] = bb;
+            add_rdf(curr, bb);
     }
 }
 
@@ -500,6 +506,7 @@ void bb_add_killed_var(basic_block_t *bb, var_t *var)
     if (found)
         return;
 
+    check_capacity(bb->live_kill_idx, MAX_ANALYSIS_STACK_SIZE);
     bb->live_kill[bb->live_kill_idx++] = var;
 }
 
@@ -648,12 +655,14 @@ void solve_phi_insertion()
                 !var->ref_block_list.head->next)
                 continue;
 
-            basic_block_t *work_list[64];
+            basic_block_t *work_list[MAX_BB_DF];
             int work_list_idx = 0;
 
             for (ref_block_t *ref = var->ref_block_list.head; ref;
-                 ref = ref->next)
+                 ref = ref->next) {
+                check_capacity(work_list_idx, MAX_BB_DF);
                 work_list[work_list_idx++] = ref->bb;
+            }
 
             for (int i = 0; i < work_list_idx; i++) {
                 basic_block_t *bb = work_list[i];
@@ -697,8 +706,10 @@ void solve_phi_insertion()
                                 found = true;
                                 break;
                             }
-                        if (!found)
+                        if (!found) {
+                            check_capacity(work_list_idx, MAX_BB_DF);
                             work_list[work_list_idx++] = df;
+                        }
                     }
                 }
             }
@@ -717,6 +728,8 @@ void new_name(block_t *block, var_t **var)
         return;
 
     int i = v->base->rename.counter++;
+    check_capacity(v->base->rename.stack_idx, MAX_SUBSCRIPTS);
+    check_capacity(v->subscripts_idx, MAX_SUBSCRIPTS);
     v->base->rename.stack[v->base->rename.stack_idx++] = i;
     var_t *vd = require_var(block);
     memcpy(vd, *var, sizeof(var_t));
@@ -1498,6 +1511,7 @@ void dce_insn(basic_block_t *bb)
             if (!rs1_insn->useful) {
                 rs1_insn->useful = true;
                 rs1_insn->belong_to->useful = true;
+                check_capacity(work_list_idx, 2048);
                 work_list[work_list_idx++] = rs1_insn;
             }
         }
@@ -1506,6 +1520,7 @@ void dce_insn(basic_block_t *bb)
             if (!rs2_insn->useful) {
                 rs2_insn->useful = true;
                 rs2_insn->belong_to->useful = true;
+                check_capacity(work_list_idx, 2048);
                 work_list[work_list_idx++] = rs2_insn;
             }
         }
@@ -1519,6 +1534,7 @@ void dce_insn(basic_block_t *bb)
             if (tail->opcode == OP_branch && !tail->useful) {
                 tail->useful = true;
                 rdf->useful = true;
+                check_capacity(work_list_idx, 2048);
                 work_list[work_list_idx++] = tail;
             }
         }
@@ -1671,6 +1687,7 @@ void add_live_gen(basic_block_t *bb, var_t *var)
         if (bb->live_gen[i] == var)
             return;
     }
+    check_capacity(bb->live_gen_idx, MAX_ANALYSIS_STACK_SIZE);
     bb->live_gen[bb->live_gen_idx++] = var;
 }
 
@@ -1710,6 +1727,7 @@ void add_live_in(basic_block_t *bb, var_t *var)
         if (bb->live_in[i] == var)
             return;
     }
+    check_capacity(bb->live_in_idx, MAX_ANALYSIS_STACK_SIZE);
     bb->live_in[bb->live_in_idx++] = var;
 }
 
@@ -1736,8 +1754,10 @@ int merge_live_in(var_t *live_out[], int live_out_idx, basic_block_t *bb)
                 break;
             }
         }
-        if (!found)
+        if (!found) {
+            check_capacity(live_out_idx, MAX_ANALYSIS_STACK_SIZE);
             live_out[live_out_idx++] = bb->live_in[i];
+        }
     }
     return live_out_idx;
 }
-- 
2.43.0


From d4d777d40b4b47d902918a7da80e530fe1e9b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 37/68] fix: read chars unsigned on RISC-V as on ARM

---
 src/riscv-codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/riscv-codegen.c b/src/riscv-codegen.c
index 25752e8..0dc4ec0 100644
--- a/src/riscv-codegen.c
+++ b/src/riscv-codegen.c
@@ -214,7 +214,7 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
         return;
     case OP_read:
         if (ph2_ir->src1 == 1)
-            emit(__lb(rd, rs1, 0));
+            emit(__lbu(rd, rs1, 0));
         else if (ph2_ir->src1 == 4)
             emit(__lw(rd, rs1, 0));
         else
-- 
2.43.0


From fe737a48bd8207d57e147ab39fc7c6e1e742808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 38/68] fix: remainder of a negative constant in the
 initialiser of a global

---
 src/parser.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 646d44b..b2524b8 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2325,7 +2325,6 @@ int read_primary_constant()
 int eval_expression_imm(opcode_t op, int op1, int op2)
 {
     /* return immediate result */
-    int tmp = op2;
     int res = 0;
     switch (op) {
     case OP_add:
@@ -2341,14 +2340,7 @@ int eval_expression_imm(opcode_t op, int op1, int op2)
         res = op1 / op2;
         break;
     case OP_mod:
-        /* TODO: provide arithmetic & operation instead of '&=' */
-        /* TODO: do optimization for local expression */
-        tmp &= (tmp - 1);
-        if ((op2 != 0) && (tmp == 0)) {
-            res = op1;
-            res &= (op2 - 1);
-        } else
-            res = op1 % op2;
+        res = op1 % op2;
         break;
     case OP_lshift:
         res = op1 << op2;
-- 
2.43.0


From 500214240d694c08b79bed20931226a2440fbfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 39/68] fix: do not evict the first operand when loading the
 second one

---
 src/reg-alloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index bcd3d4c..1925e86 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -128,8 +128,10 @@ int prepare_operand(basic_block_t *bb, var_t *var, int operand_0)
     }
 
     /* spill farthest local */
-    int spilled = 0;
+    int spilled = operand_0 ? 0 : 1;
     for (i = 0; i < REG_CNT; i++) {
+        if (i == operand_0)
+            continue;
         if (!REGS[i].var)
             continue;
         if (REGS[i].var->consumed > REGS[spilled].var->consumed)
-- 
2.43.0


From 6700091ccc404e75700aa50bbcc26e3aef3d3659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 40/68] fix: keep local scalars in memory once their address is
 taken

---
 src/defs.h      |  1 +
 src/parser.c    |  6 ++++++
 src/reg-alloc.c | 29 +++++++++++++++++++++++++----
 src/ssa.c       | 30 +++++++++++++++++++++---------
 4 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/src/defs.h b/src/defs.h
index b93c47a..6d9ba0d 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -191,6 +191,7 @@ struct var {
     int is_ptr;
     bool is_func;
     bool is_global;
+    bool is_addr_taken; /* a local scalar which is accessed via pointers */
     int array_size;
     int offset;   /* offset from stack or frame, index 0 is reserved */
     int init_val; /* for global initialization */
diff --git a/src/parser.c b/src/parser.c
index b2524b8..4e78dd9 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -980,6 +980,12 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         if (!lvalue.is_reference) {
             ph1_ir = add_ph1_ir(OP_address_of);
             ph1_ir->src0 = opstack_pop();
+
+            /* its value may change behind its name from now on */
+            if (!var->is_global && !var->array_size && !parent->func->va_args &&
+                (var->is_ptr || lvalue.type->base_type != TYPE_struct))
+                ph1_ir->src0->is_addr_taken = true;
+
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
             ph1_ir->dest = vd;
diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 1925e86..cf0429a 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -326,8 +326,17 @@ void reg_alloc()
 
         /* set arguments available */
         for (int i = 0; i < fn->func->num_params; i++) {
-            REGS[i].var = fn->func->param_defs[i].subscripts[0];
-            REGS[i].polluted = 1;
+            var_t *param = &fn->func->param_defs[i];
+            if (!param->is_addr_taken) {
+                REGS[i].var = param->subscripts[0];
+                REGS[i].polluted = 1;
+                continue;
+            }
+            param->offset = fn->func->stack_size;
+            fn->func->stack_size += 4;
+            ph2_ir_t *ir = bb_add_ph2_ir(fn->bbs, OP_store);
+            ir->src0 = i;
+            ir->src1 = param->offset;
         }
 
         /* variadic function implementation */
@@ -376,8 +385,13 @@ void reg_alloc()
                          !strcmp(insn->rd->type_name, "int") ||
                          !strcmp(insn->rd->type_name, "char") ||
                          !strcmp(insn->rd->type_name, "_Bool")) &&
-                        insn->rd->array_size == 0)
+                        insn->rd->array_size == 0) {
+                        if (insn->rd->is_addr_taken) {
+                            insn->rd->offset = fn->func->stack_size;
+                            fn->func->stack_size += 4;
+                        }
                         break;
+                    }
 
                     insn->rd->offset = fn->func->stack_size;
                     fn->func->stack_size += PTR_SIZE;
@@ -449,7 +463,7 @@ void reg_alloc()
                     ir->dest = dest;
                     break;
                 case OP_assign:
-                    if (insn->rd->consumed == -1)
+                    if (insn->rd->consumed == -1 && !insn->rd->is_addr_taken)
                         break;
 
                     src0 = find_in_regs(insn->rs1);
@@ -476,6 +490,13 @@ void reg_alloc()
                         REGS[dest].polluted = 0;
                     }
 
+                    if (insn->rd->is_addr_taken) {
+                        ir = bb_add_ph2_ir(bb, OP_store);
+                        ir->src0 = dest;
+                        ir->src1 = insn->rd->offset;
+                        REGS[dest].polluted = 0;
+                    }
+
                     if (clear_reg)
                         REGS[src0].var = NULL;
 
diff --git a/src/ssa.c b/src/ssa.c
index f3b50ff..3111b11 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -612,6 +612,12 @@ bool var_check_in_scope(var_t *var, block_t *block)
     return false;
 }
 
+/* The variables which live in memory are unique and have no subscripts */
+bool var_in_memory(var_t *var)
+{
+    return var->is_global || var->is_addr_taken;
+}
+
 bool insert_phi_insn(basic_block_t *bb, var_t *var)
 {
     bool found = false;
@@ -685,7 +691,7 @@ void solve_phi_insertion()
                     if (df == fn->exit)
                         continue;
 
-                    if (var->is_global)
+                    if (var_in_memory(var))
                         continue;
 
                     if (insert_phi_insn(df, var)) {
@@ -724,8 +730,12 @@ void new_name(block_t *block, var_t **var)
     var_t *v = *var;
     if (!v->base)
         v->base = v;
-    if (v->is_global)
+    if (var_in_memory(v)) {
+        /* the declaration is followed by one version only */
+        if (v->is_addr_taken)
+            v->subscript = 1;
         return;
+    }
 
     int i = v->base->rename.counter++;
     check_capacity(v->base->rename.stack_idx, MAX_SUBSCRIPTS);
@@ -758,7 +768,7 @@ void rename_var(var_t **var)
     var_t *v = *var;
     if (!v->base)
         v->base = v;
-    if (v->is_global)
+    if (var_in_memory(v))
         return;
 
     var[0] = get_stack_top_subscript_var(*var);
@@ -766,7 +776,7 @@ void rename_var(var_t **var)
 
 void pop_name(var_t *var)
 {
-    if (var->is_global)
+    if (var_in_memory(var))
         return;
     var->base->rename.stack_idx--;
 }
@@ -850,6 +860,8 @@ void solve_phi_params()
             /* FIXME: Rename arguments directly, might be not good here. */
             var_t *var = require_var(fn->bbs->scope);
             var_t *base = &fn->func->param_defs[i];
+            if (var_in_memory(base))
+                continue;
             memcpy(var, base, sizeof(var_t));
             var->base = base;
             var->subscript = 0;
@@ -1071,7 +1083,7 @@ void bb_dump(FILE *fd, fn_t *fn, basic_block_t *bb)
             switch (insn->opcode) {
             case OP_allocat:
                 sprintf(str, "<%s<SUB>%d</SUB> := ALLOC>", insn->rd->var_name,
-                        insn->rd->subscript);
+                        insn->rd->is_addr_taken ? 0 : insn->rd->subscript);
                 break;
             case OP_load_constant:
                 sprintf(str, "<%s<SUB>%d</SUB> := CONST %d>",
@@ -1289,7 +1301,7 @@ bool cse(insn_t *insn, basic_block_t *bb)
         return false;
 
     var_t *def = insn->rd, *base = prev->rs1, *idx = prev->rs2;
-    if (base->is_global || idx->is_global)
+    if (var_in_memory(base) || var_in_memory(idx))
         return false;
 
     use_chain_t *rs1_delete_user = NULL;
@@ -1363,7 +1375,7 @@ bool mark_const(insn_t *insn)
     /* The global variable is unique and has no subscripts in our SSA. Do NOT
      * evaluate its value.
      */
-    if (insn->rd->is_global)
+    if (var_in_memory(insn->rd))
         return false;
     if (!insn->rs1->is_const) {
         if (!insn->prev)
@@ -1474,7 +1486,7 @@ int dce_init_mark(insn_t *insn, insn_t *work_list[], int work_list_idx)
         if (!insn->rd)
             break;
         /* if the instruction affects a global value, set "useful" */
-        if (insn->rd->is_global && !insn->useful) {
+        if (var_in_memory(insn->rd) && !insn->useful) {
             insn->useful = true;
             insn->belong_to->useful = true;
             work_list[work_list_idx + mark_num] = insn;
@@ -1680,7 +1692,7 @@ void bb_reset_live_kill_idx(fn_t *fn, basic_block_t *bb)
 
 void add_live_gen(basic_block_t *bb, var_t *var)
 {
-    if (var->is_global)
+    if (var_in_memory(var))
         return;
 
     for (int i = 0; i < bb->live_gen_idx; i++) {
-- 
2.43.0


From d3d69b35576eca5eaaf9ae33bc2074e2dfc4464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 41/68] fix: reuse a value read from memory only if nothing was
 written since

---
 src/ssa.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index 3111b11..8aa8e96 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1328,18 +1328,21 @@ bool cse(insn_t *insn, basic_block_t *bb)
             continue;
         if (i->rs1 != base || i->rs2 != idx)
             continue;
-        basic_block_t *i_bb = i->belong_to;
-        bool check_dom = 0;
-        /* Check if the instructions are under the same dominate tree */
-        for (;; i_bb = i_bb->idom) {
-            if (i_bb == bb) {
-                check_dom = true;
-                break;
-            }
-            if (i_bb == i_bb->idom)
+        /* The removed address must not be used again, e.g. by a write. */
+        if (i->next->rs1 != i->rd || i->next->sz != insn->sz)
+            continue;
+        if (i->rd->users_head != i->rd->users_tail)
+            continue;
+
+        /* The same memory must be read again, without a write in between. */
+        insn_t *n = insn->next;
+        while (n && n != i) {
+            if (n->opcode == OP_write || n->opcode == OP_call ||
+                n->opcode == OP_indirect || n->opcode == OP_assign)
                 break;
+            n = n->next;
         }
-        if (!check_dom)
+        if (n != i)
             continue;
 
         i->next->opcode = OP_assign;
-- 
2.43.0


From 55e7512038c7ae81a3bf2fe482946ea2bec0f500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 42/68] fix: count the move of a register to itself when laying
 out ARM code

---
 src/arm-codegen.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index da67975..bb1efd3 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -38,8 +38,7 @@ void update_elf_offset(ph2_ir_t *ph2_ir)
             abort();
         return;
     case OP_assign:
-        if (ph2_ir->dest != ph2_ir->src0)
-            elf_offset += 4;
+        elf_offset += 4;
         return;
     case OP_load:
     case OP_global_load:
-- 
2.43.0


From 05b7482d061e0a8d6949f8e29ec05aced9e62c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:37 +0000
Subject: [PATCH 43/68] fix: stop with a diagnostic when names, tokens or
 tables exceed their buffers

---
 src/defs.h    |  2 +-
 src/elf.c     |  2 ++
 src/globals.c |  9 +++++++++
 src/lexer.c   | 10 ++++++++++
 src/parser.c  | 13 +++++++++++--
 5 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/defs.h b/src/defs.h
index 6d9ba0d..1421d9a 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -325,7 +325,7 @@ typedef struct {
 /* alias for #defines */
 typedef struct {
     char alias[MAX_VAR_LEN];
-    char value[MAX_VAR_LEN];
+    char value[MAX_TOKEN_LEN];
     bool is_identifier;
     bool disabled;
 } alias_t;
diff --git a/src/elf.c b/src/elf.c
index 3d3f1d5..50815c7 100644
--- a/src/elf.c
+++ b/src/elf.c
@@ -20,6 +20,7 @@ void elf_write_section_str(char *vals, int len)
 
 void elf_write_data_str(char *vals, int len)
 {
+    check_capacity(elf_data_idx + len, MAX_DATA + 1);
     for (int i = 0; i < len; i++)
         elf_data[elf_data_idx++] = vals[i];
 }
@@ -63,6 +64,7 @@ void elf_write_symbol_int(int val)
 
 void elf_write_code_int(int val)
 {
+    check_capacity(elf_code_idx + 4, MAX_CODE + 1);
     elf_code_idx = elf_write_int(elf_code, elf_code_idx, val);
 }
 
diff --git a/src/globals.c b/src/globals.c
index 088978b..e52e3fd 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -420,8 +420,11 @@ type_t *find_type(char *type_name, int flag)
     return NULL;
 }
 
+void check_capacity(int idx, int limit);
+
 ph1_ir_t *add_global_ir(opcode_t op)
 {
+    check_capacity(global_ir_idx, MAX_GLOBAL_IR);
     ph1_ir_t *ir = &GLOBAL_IR[global_ir_idx++];
     ir->op = op;
     return ir;
@@ -429,6 +432,7 @@ ph1_ir_t *add_global_ir(opcode_t op)
 
 ph1_ir_t *add_ph1_ir(opcode_t op)
 {
+    check_capacity(ph1_ir_idx, MAX_IR_INSTR);
     ph1_ir_t *ph1_ir = &PH1_IR[ph1_ir_idx++];
     ph1_ir->op = op;
     return ph1_ir;
@@ -436,6 +440,7 @@ ph1_ir_t *add_ph1_ir(opcode_t op)
 
 ph2_ir_t *add_existed_ph2_ir(ph2_ir_t *ph2_ir)
 {
+    check_capacity(ph2_ir_idx, MAX_IR_INSTR);
     PH2_IR_FLATTEN[ph2_ir_idx++] = ph2_ir;
     return ph2_ir;
 }
@@ -492,6 +497,7 @@ block_t *add_block(block_t *parent, func_t *func, macro_t *macro)
 
 void add_alias(char *alias, char *value, bool is_identifier)
 {
+    check_capacity(aliases_idx, MAX_ALIASES);
     alias_t *al = &ALIASES[aliases_idx++];
     strcpy(al->alias, alias);
     strcpy(al->value, value);
@@ -521,6 +527,7 @@ bool remove_alias(char *alias)
 
 macro_t *add_macro(char *name)
 {
+    check_capacity(macros_idx, MAX_ALIASES);
     macro_t *ma = &MACROS[macros_idx++];
     strcpy(ma->name, name);
     ma->disabled = false;
@@ -587,6 +594,7 @@ func_t *add_func(char *name)
 
 type_t *add_type()
 {
+    check_capacity(types_idx, MAX_TYPES);
     return &TYPES[types_idx++];
 }
 
@@ -599,6 +607,7 @@ type_t *add_named_type(char *name)
 
 void add_constant(char alias[], int value)
 {
+    check_capacity(constants_idx, MAX_CONSTANTS);
     constant_t *constant = &CONSTANTS[constants_idx++];
     strcpy(constant->alias, alias);
     constant->value = value;
diff --git a/src/lexer.c b/src/lexer.c
index 2aa67fd..fa968c0 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -668,6 +668,14 @@ bool lex_accept(token_t token)
     return lex_accept_internal(token, 1);
 }
 
+/* Identifiers and numbers are kept in buffers of 'MAX_VAR_LEN' characters. */
+void check_token_len(token_t token)
+{
+    if (token == T_identifier || token == T_numeric)
+        if (strlen(token_str) >= MAX_VAR_LEN)
+            error("Token too long");
+}
+
 /* Peeks next token and copy token's literal to value if token types are
  * matched.
  */
@@ -676,6 +684,7 @@ bool lex_peek(token_t token, char *value)
     if (next_token == token) {
         if (!value)
             return true;
+        check_token_len(token);
         strcpy(value, token_str);
         return true;
     }
@@ -689,6 +698,7 @@ void lex_ident_internal(token_t token, char *value, bool aliasing)
 {
     if (next_token != token)
         error("Unexpected token");
+    check_token_len(token);
     strcpy(value, token_str);
     next_token = lex_token_internal(aliasing);
 }
diff --git a/src/parser.c b/src/parser.c
index 4e78dd9..4d20d31 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -392,7 +392,7 @@ bool read_preproc_directive()
     }
     if (lex_accept(T_cppd_define)) {
         char alias[MAX_VAR_LEN];
-        char value[MAX_VAR_LEN];
+        char value[MAX_TOKEN_LEN];
 
         lex_ident_internal(T_identifier, alias, false);
 
@@ -411,6 +411,7 @@ bool read_preproc_directive()
             skip_newline = false;
             while (lex_peek(T_identifier, alias)) {
                 lex_expect(T_identifier);
+                check_capacity(macro->num_param_defs, MAX_PARAMS);
                 strcpy(macro->param_defs[macro->num_param_defs++].var_name,
                        alias);
                 lex_accept(T_comma);
@@ -445,7 +446,8 @@ bool read_preproc_directive()
 
         do {
             error_diagnostic[i++] = next_char;
-        } while (read_char(false) && next_char != '\n');
+        } while (i < MAX_LINE_LEN - 1 && read_char(false) &&
+                 next_char != '\n');
         error_diagnostic[i] = 0;
 
         error(error_diagnostic);
@@ -2757,6 +2759,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         bb_connect(bb, n, NEXT);
         bb = n;
 
+        check_capacity(break_exit_idx, MAX_NESTING);
         continue_bb[continue_pos_idx] = bb;
 
         ph1_ir = add_ph1_ir(OP_label);
@@ -2840,6 +2843,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         /* create exit jump for breaks */
         var_t *var_break = require_var(parent);
+        check_capacity(break_exit_idx, MAX_NESTING);
         break_exit[break_exit_idx++] = var_break;
         basic_block_t *switch_end = bb_create(parent);
         break_bb[break_exit_idx - 1] = switch_end;
@@ -3079,6 +3083,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         basic_block_t *cond_ = bb_create(blk);
         basic_block_t *for_end = bb_create(parent);
         basic_block_t *cond_start = cond_;
+        check_capacity(break_exit_idx, MAX_NESTING);
         break_bb[break_exit_idx] = for_end;
         bb_connect(setup, cond_, NEXT);
 
@@ -3202,6 +3207,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         var_condition = require_var(parent);
         strcpy(var_condition->var_name, gen_label());
 
+        check_capacity(break_exit_idx, MAX_NESTING);
         continue_bb[continue_pos_idx] = cond_;
         continue_pos[continue_pos_idx++] = var_condition;
 
@@ -3477,6 +3483,7 @@ void read_global_statement()
         strcpy(type->type_name, token);
         lex_expect(T_open_curly);
         do {
+            check_capacity(i, MAX_FIELDS);
             var_t *v = &type->fields[i++];
             read_full_var_decl(v, 0, 1);
             v->offset = size;
@@ -3530,6 +3537,7 @@ void read_global_statement()
             if (lex_accept(T_open_curly)) {
                 has_struct_def = 1;
                 do {
+                    check_capacity(i, MAX_FIELDS);
                     var_t *v = &type->fields[i++];
                     read_full_var_decl(v, 0, 1);
                     v->offset = size;
@@ -3665,6 +3673,7 @@ void load_source_file(char *file)
             snprintf(path + c + 1, inclusion_path_len, "%s", buffer + 10);
             load_source_file(path);
         } else {
+            check_capacity(SOURCE->size + strlen(buffer), SOURCE->capacity);
             strcpy(SOURCE->elements + SOURCE->size, buffer);
             SOURCE->size += strlen(buffer);
         }
-- 
2.43.0


From d1ce7e90af501e3c6c96472ad20699e4fb309475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:37 +0000
Subject: [PATCH 44/68] fix: accept more than 250 global declarations

---
 src/defs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/defs.h b/src/defs.h
index 1421d9a..6563b2b 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -27,7 +27,7 @@
 #define MAX_BB_RDOM_SUCC 256
 #define MAX_BB_DF 256
 #define MAX_SUBSCRIPTS 64
-#define MAX_GLOBAL_IR 256
+#define MAX_GLOBAL_IR 2048
 #define MAX_LABEL 4096
 #define MAX_SOURCE 524288
 #define MAX_CODE 1048576
-- 
2.43.0


From 8445f65d85c330029eae01daeb59a144fc826dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 45/68] fix: include paths of sources named without a directory
 and of a last line without newline

---
 src/parser.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 4d20d31..bd46f1e 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3662,15 +3662,19 @@ void load_source_file(char *file)
         }
         if (!strncmp(buffer, "#include ", 9) && (buffer[9] == '"')) {
             char path[MAX_LINE_LEN];
-            int c = strlen(file) - 1, inclusion_path_len = strlen(buffer) - 11;
-            while (c > 0 && file[c] != '/')
+            int c = strlen(file), inclusion_path_len = 10;
+            while (c && file[c - 1] != '/')
                 c--;
-            if (c) {
-                /* prepend directory name */
-                snprintf(path, c + 2, "%s", file);
-            }
-
-            snprintf(path + c + 1, inclusion_path_len, "%s", buffer + 10);
+            while (buffer[inclusion_path_len] &&
+                   buffer[inclusion_path_len] != '"')
+                inclusion_path_len++;
+            inclusion_path_len -= 9; /* including the terminator */
+            check_capacity(c + inclusion_path_len, MAX_LINE_LEN);
+            /* prepend directory name */
+            if (c)
+                snprintf(path, c + 1, "%s", file);
+
+            snprintf(path + c, inclusion_path_len, "%s", buffer + 10);
             load_source_file(path);
         } else {
             check_capacity(SOURCE->size + strlen(buffer), SOURCE->capacity);
-- 
2.43.0


From de8f9fcb105ca8eba406f5a97e8279fdfb07bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:56 +0000
Subject: [PATCH 46/68] fix: return from functions that reach their end without
 a return statement

---
 src/parser.c    | 17 ++++++++++++++++-
 src/reg-alloc.c |  3 ---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index bd46f1e..1a4809d 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3407,8 +3407,23 @@ void read_func_body(func_t *fdef, fn_t *fn)
         var_add_killed_bb(&fdef->param_defs[i], fn->bbs);
     }
     basic_block_t *body = read_code_block(fdef, NULL, NULL, fn->bbs);
-    if (body)
+    if (body) {
+        if (!strcmp(fdef->return_def.var_name, "main")) {
+            /* reaching the end of main() returns 0 */
+            body = leave_scope(blk, body);
+            ph1_ir_t *ph1_ir = add_ph1_ir(OP_load_constant);
+            var_t *vd = require_var(blk);
+            strcpy(vd->var_name, gen_name());
+            vd->init_val = 0;
+            ph1_ir->dest = vd;
+            add_insn(blk, body, OP_load_constant, ph1_ir->dest, NULL, NULL, 0,
+                     NULL);
+            ph1_ir = add_ph1_ir(OP_return);
+            ph1_ir->src0 = vd;
+            add_insn(blk, body, OP_return, NULL, ph1_ir->src0, NULL, 0, NULL);
+        }
         bb_connect(body, fn->exit, NEXT);
+    }
 }
 
 /* if first token is type */
diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index cf0429a..7855cc1 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -681,9 +681,6 @@ void reg_alloc()
             if (!bb)
                 continue;
 
-            if (strcmp(fn->func->return_def.type_name, "void"))
-                continue;
-
             if (bb->insn_list.tail)
                 if (bb->insn_list.tail->opcode == OP_return)
                     continue;
-- 
2.43.0


From f5aa9037ed3db66f74f61c9a73d259cc3f5c34f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:06 +0000
Subject: [PATCH 47/68] fix: function-like macros count as defined in
 conditional directives

---
 src/parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 1a4809d..9d87be7 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -178,6 +178,12 @@ int read_numeric_constant(char buffer[])
     return value;
 }
 
+/* Is there a macro, object-like or function-like, of the given name? */
+int is_defined(char *name)
+{
+    return find_alias(name) != NULL || find_macro(name) != NULL;
+}
+
 int read_constant_expr();
 
 int read_constant_expr_operand()
@@ -216,7 +222,7 @@ int read_constant_expr_operand()
         lex_ident(T_identifier, lookup_alias);
         lex_expect(T_close_bracket);
 
-        return find_alias(lookup_alias) ? 1 : 0;
+        return is_defined(lookup_alias);
     }
 
     /* the remaining identifiers evaluate to zero */
@@ -342,7 +348,7 @@ void cppd_control_flow_skip_lines()
 
 void check_def(char *alias, bool expected)
 {
-    if ((find_alias(alias) != NULL) == expected)
+    if (is_defined(alias) == expected)
         preproc_match = true;
 }
 
-- 
2.43.0


From 30295880979ff85fd4376a483e8e5d6d6363d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 48/68] fix: macro calls group with the surrounding expression,
 their arguments are evaluated at the call

---
 src/lexer.c  |  2 ++
 src/parser.c | 87 ++++++++++++++++++++++++++++++++--------------------
 2 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index fa968c0..ff2916f 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -617,6 +617,8 @@ token_t lex_token_internal(bool aliasing)
         if (macro_return_idx) {
             SOURCE->size = macro_return_idx;
             next_char = SOURCE->elements[SOURCE->size];
+            macro_return_idx = 0;
+            skip_newline = true;
         } else
             next_char = read_char(true);
         return lex_token_internal(aliasing);
diff --git a/src/parser.c b/src/parser.c
index 9d87be7..c6743dd 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -918,6 +918,41 @@ void read_macro_args(macro_t *mac)
     }
 }
 
+void read_ternary_operation(block_t *parent, basic_block_t **bb);
+
+/* "expand" the argument of a macro from where it comes from, and continue
+ * after the parameter. The names in it are those of the place of the call.
+ */
+void read_macro_arg(block_t *parent, basic_block_t **bb, int source_idx)
+{
+    int resume_idx = SOURCE->size, return_idx = macro_return_idx;
+    int params[MAX_PARAMS];
+    macro_t *macro = parent->macro;
+    int num_params = macro->num_params;
+
+    for (int i = 0; i < num_params; i++)
+        params[i] = macro->params[i];
+
+    parent->macro = NULL;
+    macro_return_idx = 0;
+    skip_newline = true;
+    SOURCE->size = source_idx;
+    next_char = SOURCE->elements[SOURCE->size];
+    next_token = lex_token();
+    read_expr(parent, bb);
+    read_ternary_operation(parent, bb);
+
+    for (int i = 0; i < num_params; i++)
+        macro->params[i] = params[i];
+    macro->num_params = num_params;
+    parent->macro = macro;
+    macro_return_idx = return_idx;
+    skip_newline = false;
+    SOURCE->size = resume_idx;
+    next_char = SOURCE->elements[SOURCE->size];
+    next_token = lex_token();
+}
+
 /* Maintain a stack of expression values and operators, depending on next
  * operators' priority. Either apply it or operator on stack first.
  */
@@ -1075,32 +1110,28 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         constant_t *con = find_constant(token);
         var_t *var = find_var(token, parent);
         func_t *fn = find_func(token);
-        int macro_param_idx = find_macro_param_src_idx(token, parent);
+        int macro_param_idx =
+            macro_return_idx ? find_macro_param_src_idx(token, parent) : 0;
         macro_t *mac = find_macro(token);
 
         if (!strcmp(token, "__VA_ARGS__")) {
-            /* 'size' has pointed at the character after __VA_ARGS__ */
-            int remainder, t = SOURCE->size;
             macro_t *macro = parent->macro;
 
-            if (!macro)
+            if (!macro || !macro_return_idx)
                 error("The '__VA_ARGS__' identifier can only be used in macro");
             if (!macro->is_variadic)
                 error("Unexpected identifier '__VA_ARGS__'");
 
-            remainder = macro->num_params - macro->num_param_defs;
-            for (int i = 0; i < remainder; i++) {
-                SOURCE->size = macro->params[macro->num_params - remainder + i];
-                next_char = SOURCE->elements[SOURCE->size];
-                next_token = lex_token();
-                read_expr(parent, bb);
-                read_ternary_operation(parent, bb);
+            int first = macro->num_param_defs, last = macro->num_params - 1;
+            int t = SOURCE->size, return_idx = macro_return_idx;
+            for (int i = first; i <= last; i++) {
+                /* every argument continues after __VA_ARGS__ */
+                SOURCE->size = t;
+                macro_return_idx = return_idx;
+                read_macro_arg(parent, bb, macro->params[i]);
             }
-            SOURCE->size = t;
-            next_char = SOURCE->elements[SOURCE->size];
-            next_token = lex_token();
         } else if (mac) {
-            if (parent->macro)
+            if (macro_return_idx)
                 error("Nested macro is not yet supported");
 
             parent->macro = mac;
@@ -1108,30 +1139,18 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
             lex_expect(T_identifier);
 
             read_macro_args(mac);
-            /* move 'size' to the macro body */
+            /* move 'size' to the macro body, whose tokens take the place of
+             * the call. The lexer comes back at the end of the body.
+             */
             macro_return_idx = SOURCE->size;
             SOURCE->size = mac->start_source_idx;
             next_char = SOURCE->elements[SOURCE->size];
+            skip_newline = false;
             lex_expect(T_close_bracket);
 
-            skip_newline = 0;
-            read_expr(parent, bb);
-
-            /* cleanup */
-            skip_newline = 1;
-            parent->macro = NULL;
-            macro_return_idx = 0;
+            read_expr_operand(parent, bb);
         } else if (macro_param_idx) {
-            /* "expand" the argument from where it comes from */
-            int t = SOURCE->size;
-            SOURCE->size = macro_param_idx;
-            next_char = SOURCE->elements[SOURCE->size];
-            next_token = lex_token();
-            read_expr(parent, bb);
-            read_ternary_operation(parent, bb);
-            SOURCE->size = t;
-            next_char = SOURCE->elements[SOURCE->size];
-            next_token = lex_token();
+            read_macro_arg(parent, bb, macro_param_idx);
         } else if (con && !var) {
             ph1_ir = add_ph1_ir(OP_load_constant);
             vd = require_var(parent);
@@ -3330,7 +3349,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
     mac = find_macro(token);
     if (mac) {
-        if (parent->macro)
+        if (macro_return_idx)
             error("Nested macro is not yet supported");
 
         parent->macro = mac;
-- 
2.43.0


From 51b2cfe39233e4758dc201db8b73e09326048608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:20 +0000
Subject: [PATCH 49/68] fix: the replacement of a macro ends with the line of
 its #define

---
 src/lexer.c  | 28 ++++++++++++++++++++++++++++
 src/parser.c | 15 ++++++++++++---
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index ff2916f..35c3260 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -641,6 +641,34 @@ token_t lex_token()
     return lex_token_internal(true);
 }
 
+/* Is there nothing but whitespaces and comments up to the end of the line? */
+bool is_line_end()
+{
+    int i = SOURCE->size;
+
+    while (true) {
+        char c = SOURCE->elements[i];
+
+        if (is_whitespace(c)) {
+            i++;
+        } else if (c == '\\' && SOURCE->elements[i + 1] == '\n') {
+            i += 2;
+        } else if (c == '/' && SOURCE->elements[i + 1] == '*') {
+            i += 2;
+            while (SOURCE->elements[i] &&
+                   (SOURCE->elements[i] != '*' ||
+                    SOURCE->elements[i + 1] != '/'))
+                i++;
+            if (SOURCE->elements[i])
+                i += 2;
+        } else {
+            return !c || is_newline(c) ||
+                   (c == '/' && SOURCE->elements[i + 1] == '/');
+        }
+    }
+    return false;
+}
+
 /* Skip the content. We only need the index where the macro body begins. */
 void skip_macro_body()
 {
diff --git a/src/parser.c b/src/parser.c
index c6743dd..ca9c375 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -396,13 +396,23 @@ bool read_preproc_directive()
 
         return true;
     }
-    if (lex_accept(T_cppd_define)) {
+    if (lex_peek(T_cppd_define, NULL)) {
         char alias[MAX_VAR_LEN];
         char value[MAX_TOKEN_LEN];
+        bool is_empty;
 
+        /* the replacement ends with the line */
+        skip_newline = false;
+        lex_expect(T_cppd_define);
+        is_empty = is_line_end();
+        skip_newline = true;
         lex_ident_internal(T_identifier, alias, false);
 
-        if (lex_peek(T_numeric, value)) {
+        if (is_empty) {
+            /* Empty alias, may be dummy alias serves as include guard */
+            value[0] = 0;
+            add_alias(alias, value, false);
+        } else if (lex_peek(T_numeric, value)) {
             add_alias(alias, value, false);
             lex_expect(T_numeric);
         } else if (lex_peek(T_string, value)) {
@@ -428,7 +438,6 @@ bool read_preproc_directive()
             macro->start_source_idx = SOURCE->size;
             skip_macro_body();
         } else {
-            /* Empty alias, may be dummy alias serves as include guard */
             value[0] = 0;
             add_alias(alias, value, false);
         }
-- 
2.43.0


From 7327c56db79f4f63e41ae57e728e4b1ab8e301ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 50/68] fix: accept the repeated definition of an object-like
 macro

---
 src/globals.c | 25 +++++++++++++++----------
 src/parser.c  |  2 +-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index e52e3fd..00e8bc2 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -495,16 +495,6 @@ block_t *add_block(block_t *parent, func_t *func, macro_t *macro)
     return blk;
 }
 
-void add_alias(char *alias, char *value, bool is_identifier)
-{
-    check_capacity(aliases_idx, MAX_ALIASES);
-    alias_t *al = &ALIASES[aliases_idx++];
-    strcpy(al->alias, alias);
-    strcpy(al->value, value);
-    al->is_identifier = is_identifier;
-    al->disabled = false;
-}
-
 alias_t *find_alias(char alias[])
 {
     for (int i = 0; i < aliases_idx; i++) {
@@ -514,6 +504,21 @@ alias_t *find_alias(char alias[])
     return NULL;
 }
 
+void add_alias(char *alias, char *value, bool is_identifier)
+{
+    alias_t *al = find_alias(alias);
+
+    /* a macro might be defined again */
+    if (!al) {
+        check_capacity(aliases_idx, MAX_ALIASES);
+        al = &ALIASES[aliases_idx++];
+    }
+    strcpy(al->alias, alias);
+    strcpy(al->value, value);
+    al->is_identifier = is_identifier;
+    al->disabled = false;
+}
+
 bool remove_alias(char *alias)
 {
     for (int i = 0; i < aliases_idx; i++) {
diff --git a/src/parser.c b/src/parser.c
index ca9c375..7231e79 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -403,7 +403,7 @@ bool read_preproc_directive()
 
         /* the replacement ends with the line */
         skip_newline = false;
-        lex_expect(T_cppd_define);
+        lex_expect_internal(T_cppd_define, false);
         is_empty = is_line_end();
         skip_newline = true;
         lex_ident_internal(T_identifier, alias, false);
-- 
2.43.0


From ffa3873adc5ed579e1658b57495b733937c54b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 51/68] fix: character constants above 127 have the same value
 whatever compiler built shecc

---
 src/parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 7231e79..52e91fa 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -747,7 +747,7 @@ void read_char_param(block_t *parent, basic_block_t *bb)
 
     ph1_ir_t *ph1_ir = add_ph1_ir(OP_load_constant);
     var_t *vd = require_var(parent);
-    vd->init_val = token[0];
+    vd->init_val = token[0] & 0xff;
     strcpy(vd->var_name, gen_name());
     ph1_ir->dest = vd;
     opstack_push(vd);
@@ -2355,7 +2355,7 @@ int read_primary_constant()
         res = read_numeric_constant(buffer);
         lex_expect(T_numeric);
     } else if (lex_peek(T_char, buffer)) {
-        res = buffer[0];
+        res = buffer[0] & 0xff;
         lex_expect(T_char);
     } else
         error("Invalid value after assignment");
@@ -2895,7 +2895,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                     case_val = read_numeric_constant(token_str);
                     lex_expect(T_numeric); /* already read it */
                 } else if (lex_peek(T_char, token)) {
-                    case_val = token[0];
+                    case_val = token[0] & 0xff;
                     lex_expect(T_char);
                 } else {
                     constant_t *cd = find_constant(token_str);
-- 
2.43.0


From 45ef66f4065a87782bfe4ac14604c6346c1755e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 52/68] fix: read constants longer than nine characters in
 initialisers and array sizes

---
 src/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 52e91fa..ada4793 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -598,7 +598,7 @@ void read_inner_var_decl(var_t *vd, int anon, int is_param)
                 read_var_allocation(vd);
         }
         if (lex_accept(T_open_square)) {
-            char buffer[10];
+            char buffer[MAX_VAR_LEN];
 
             /* array with size */
             if (lex_peek(T_numeric, buffer)) {
@@ -2345,7 +2345,7 @@ int read_primary_constant()
 {
     /* return signed constant */
     int isneg = 0, res;
-    char buffer[10];
+    char buffer[MAX_VAR_LEN];
     if (lex_accept(T_minus))
         isneg = 1;
     if (lex_accept(T_open_bracket)) {
-- 
2.43.0


From 1c189f2b45a923ed1f91b4cca6b6da65920f7363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:10 +0000
Subject: [PATCH 53/68] fix: comments may follow the replacement of a
 function-like macro

---
 src/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.c b/src/lexer.c
index 35c3260..cded763 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -672,7 +672,7 @@ bool is_line_end()
 /* Skip the content. We only need the index where the macro body begins. */
 void skip_macro_body()
 {
-    while (next_char && !is_newline(next_char))
+    while (!is_line_end())
         next_token = lex_token();
 
     skip_newline = true;
-- 
2.43.0


From f6d1af0da4fae39a2d2dd01b3c5f602444318c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:10 +0000
Subject: [PATCH 54/68] fix: a line comment continues on a spliced line

---
 src/lexer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer.c b/src/lexer.c
index cded763..4c12192 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -251,6 +251,9 @@ token_t lex_token_internal(bool aliasing)
         /* C++-style comments */
         if (next_char == '/') {
             do {
+                /* a spliced line continues the comment */
+                if (is_linebreak(next_char))
+                    read_char(false);
                 read_char(false);
             } while (next_char && !is_newline(next_char));
             return lex_token_internal(aliasing);
-- 
2.43.0


From bb3c6059cdf7c0421eab4b8cea888b7161e7a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:08 +0000
Subject: [PATCH 55/68] fix: macros keep the kind of their replacement: strings
 of digits, characters, nothing

---
 src/defs.h    |  2 +-
 src/globals.c |  4 ++--
 src/lexer.c   |  8 ++++++--
 src/parser.c  | 17 ++++++++++-------
 4 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/defs.h b/src/defs.h
index 6563b2b..948a829 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -326,7 +326,7 @@ typedef struct {
 typedef struct {
     char alias[MAX_VAR_LEN];
     char value[MAX_TOKEN_LEN];
-    bool is_identifier;
+    int token; /* kind of the replacement, T_eof if it is empty */
     bool disabled;
 } alias_t;
 
diff --git a/src/globals.c b/src/globals.c
index 00e8bc2..ec71949 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -504,7 +504,7 @@ alias_t *find_alias(char alias[])
     return NULL;
 }
 
-void add_alias(char *alias, char *value, bool is_identifier)
+void add_alias(char *alias, char *value, int token)
 {
     alias_t *al = find_alias(alias);
 
@@ -515,7 +515,7 @@ void add_alias(char *alias, char *value, bool is_identifier)
     }
     strcpy(al->alias, alias);
     strcpy(al->value, value);
-    al->is_identifier = is_identifier;
+    al->token = token;
     al->disabled = false;
 }
 
diff --git a/src/lexer.c b/src/lexer.c
index 4c12192..1e1133a 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -598,15 +598,19 @@ token_t lex_token_internal(bool aliasing)
                  */
                 alias_t *first = alias;
 
-                for (i = 0; alias->is_identifier; i++) {
+                for (i = 0; alias->token == T_identifier; i++) {
                     strcpy(token_str, alias->value);
                     alias = find_alias(token_str);
                     if (!alias || alias == first || i >= aliases_idx)
                         return T_identifier;
                 }
 
+                /* an empty replacement leaves nothing */
+                if (alias->token == T_eof)
+                    return lex_token_internal(aliasing);
+
                 strcpy(token_str, alias->value);
-                return is_numeric(alias->value) ? T_numeric : T_string;
+                return alias->token;
             }
         }
 
diff --git a/src/parser.c b/src/parser.c
index ada4793..da1a62c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -411,15 +411,18 @@ bool read_preproc_directive()
         if (is_empty) {
             /* Empty alias, may be dummy alias serves as include guard */
             value[0] = 0;
-            add_alias(alias, value, false);
+            add_alias(alias, value, T_eof);
         } else if (lex_peek(T_numeric, value)) {
-            add_alias(alias, value, false);
+            add_alias(alias, value, T_numeric);
             lex_expect(T_numeric);
         } else if (lex_peek(T_string, value)) {
-            add_alias(alias, value, false);
+            add_alias(alias, value, T_string);
             lex_expect(T_string);
+        } else if (lex_peek(T_char, value)) {
+            add_alias(alias, value, T_char);
+            lex_expect(T_char);
         } else if (lex_peek(T_identifier, value)) {
-            add_alias(alias, value, true);
+            add_alias(alias, value, T_identifier);
             lex_expect(T_identifier);
         } else if (lex_accept(T_open_bracket)) { /* function-like macro */
             macro_t *macro = add_macro(alias);
@@ -439,7 +442,7 @@ bool read_preproc_directive()
             skip_macro_body();
         } else {
             value[0] = 0;
-            add_alias(alias, value, false);
+            add_alias(alias, value, T_eof);
         }
 
         return true;
@@ -3661,10 +3664,10 @@ void parse_internal()
     elf_add_symbol("", 0, 0);    /* undef symbol */
 
     /* architecture defines */
-    add_alias(ARCH_PREDEFINED, "1", false);
+    add_alias(ARCH_PREDEFINED, "1", T_numeric);
 
     /* shecc run-time defines */
-    add_alias("__SHECC__", "1", false);
+    add_alias("__SHECC__", "1", T_numeric);
 
     /* Linux syscall */
     func_t *func = add_func("__syscall");
-- 
2.43.0


From cb62abe442120c16b2225f5ea4ebc24b3ebc135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:54 +0000
Subject: [PATCH 56/68] fix: reject malformed numeric constants

---
 src/lexer.c  | 27 ++++++++++++++++++---------
 src/parser.c |  4 ++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 1e1133a..197dcdd 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -137,18 +137,23 @@ bool is_hex(char c)
             (c >= 'A' && c <= 'F'));
 }
 
+/* is it a decimal, octal or hexadecimal constant? */
 bool is_numeric(char buffer[])
 {
-    bool hex = false;
     int size = strlen(buffer);
 
-    if (size > 2)
-        hex = !strncmp(buffer, "0x", 2);
+    if (buffer[0] == '0' && buffer[1] == 'x') {
+        for (int i = 2; i < size; i++) {
+            if (!is_hex(buffer[i]) || buffer[i] == 'x')
+                return false;
+        }
+        return size > 2;
+    }
 
     for (int i = 0; i < size; i++) {
-        if (hex && !is_hex(buffer[i]))
+        if (!is_digit(buffer[i]))
             return false;
-        if (!hex && !is_digit(buffer[i]))
+        if (buffer[0] == '0' && buffer[i] > '7')
             return false;
     }
     return true;
@@ -271,8 +276,10 @@ token_t lex_token_internal(bool aliasing)
     if (is_digit(next_char)) {
         int i = 0;
         do {
+            if (i == MAX_TOKEN_LEN - 1)
+                error("Token too long");
             token_str[i++] = next_char;
-        } while (is_hex(read_char(false)));
+        } while (is_alnum(read_char(false)));
         token_str[i] = 0;
         skip_whitespace();
         return T_numeric;
@@ -706,11 +713,13 @@ bool lex_accept(token_t token)
 }
 
 /* Identifiers and numbers are kept in buffers of 'MAX_VAR_LEN' characters. */
-void check_token_len(token_t token)
+void check_token(token_t token)
 {
     if (token == T_identifier || token == T_numeric)
         if (strlen(token_str) >= MAX_VAR_LEN)
             error("Token too long");
+    if (token == T_numeric && !is_numeric(token_str))
+        error("Invalid numeric constant");
 }
 
 /* Peeks next token and copy token's literal to value if token types are
@@ -721,7 +730,7 @@ bool lex_peek(token_t token, char *value)
     if (next_token == token) {
         if (!value)
             return true;
-        check_token_len(token);
+        check_token(token);
         strcpy(value, token_str);
         return true;
     }
@@ -735,7 +744,7 @@ void lex_ident_internal(token_t token, char *value, bool aliasing)
 {
     if (next_token != token)
         error("Unexpected token");
-    check_token_len(token);
+    check_token(token);
     strcpy(value, token_str);
     next_token = lex_token_internal(aliasing);
 }
diff --git a/src/parser.c b/src/parser.c
index da1a62c..f11be10 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2894,8 +2894,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 int case_val;
 
                 lex_accept(T_case);
-                if (lex_peek(T_numeric, NULL)) {
-                    case_val = read_numeric_constant(token_str);
+                if (lex_peek(T_numeric, token)) {
+                    case_val = read_numeric_constant(token);
                     lex_expect(T_numeric); /* already read it */
                 } else if (lex_peek(T_char, token)) {
                     case_val = token[0] & 0xff;
-- 
2.43.0


From 539533f8df10da1694c609718998f536d5f2c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:53 +0000
Subject: [PATCH 57/68] fix: empty an existing output file before writing it

---
 src/elf.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/elf.c b/src/elf.c
index 50815c7..f23dce4 100644
--- a/src/elf.c
+++ b/src/elf.c
@@ -256,7 +256,20 @@ void elf_generate(char *outfile)
     if (!outfile)
         outfile = "a.out";
 
-    FILE *fp = fopen(outfile, "wb");
+    FILE *fp;
+#ifdef __SHECC__
+    /* 'fopen' of the embedded C library keeps what an existing file holds
+     * beyond the bytes written, so empty the file (O_WRONLY|O_CREAT|O_TRUNC).
+     */
+#if defined(__arm__)
+    fp = __syscall(__syscall_open, outfile, 577, 0x1fd);
+#elif defined(__riscv)
+    fp = __syscall(__syscall_openat, -100, outfile, 577, 0x1fd);
+#endif
+    fclose(fp);
+#endif
+
+    fp = fopen(outfile, "wb");
     for (int i = 0; i < elf_header_idx; i++)
         fputc(elf_header[i], fp);
     for (int i = 0; i < elf_code_idx; i++)
-- 
2.43.0


From 04068d5984256b119f11c3c6216ca407131d4ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 58/68] fix: recognise every quoted inclusion directive and
 only those

Blanks around '#' and 'include', a directive-like text in the middle of a
long line or after a spliced one, comments behind the directive, and an
included file without a final newline now give the text C prescribes.
---
 src/parser.c | 68 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index f11be10..b9eb480 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3696,6 +3696,38 @@ void parse_internal()
         error("Unterminated conditional directive");
 }
 
+/* Number of characters of a quoted inclusion directive up to and including the
+ * opening quote, or 0 if the line is none.
+ */
+int quoted_inclusion_len(char *line)
+{
+    int i = 0;
+    while (line[i] == ' ' || line[i] == '\t')
+        i++;
+    if (line[i] != '#')
+        return 0;
+    i++;
+    while (line[i] == ' ' || line[i] == '\t')
+        i++;
+    if (strncmp(line + i, "include", 7))
+        return 0;
+    i += 7;
+    while (line[i] == ' ' || line[i] == '\t')
+        i++;
+    if (line[i] != '"')
+        return 0;
+    return i + 1;
+}
+
+/* Append text to the source buffer */
+void append_source(char *text)
+{
+    int len = strlen(text);
+    check_capacity(SOURCE->size + len, SOURCE->capacity);
+    strcpy(SOURCE->elements + SOURCE->size, text);
+    SOURCE->size += len;
+}
+
 /* Load specified source file and referred inclusion recursively */
 void load_source_file(char *file)
 {
@@ -3707,31 +3739,47 @@ void load_source_file(char *file)
         exit(1);
     }
 
+    /* A directive stands at the beginning of a logical line. The buffer may
+     * hold a part of a long line only.
+     */
+    bool line_start = true;
+    bool terminated = true;
+
     for (;;) {
         if (!fgets(buffer, MAX_LINE_LEN, f)) {
+            /* the text of the including file continues on its own line */
+            if (!terminated)
+                append_source("\n");
             fclose(f);
             return;
         }
-        if (!strncmp(buffer, "#include ", 9) && (buffer[9] == '"')) {
+
+        int begin = line_start ? quoted_inclusion_len(buffer) : 0;
+        int len = strlen(buffer);
+        terminated = len > 0 && buffer[len - 1] == '\n';
+        line_start = terminated && (len < 2 || buffer[len - 2] != '\\');
+
+        if (begin) {
             char path[MAX_LINE_LEN];
-            int c = strlen(file), inclusion_path_len = 10;
+            int c = strlen(file), end = begin;
             while (c && file[c - 1] != '/')
                 c--;
-            while (buffer[inclusion_path_len] &&
-                   buffer[inclusion_path_len] != '"')
-                inclusion_path_len++;
-            inclusion_path_len -= 9; /* including the terminator */
+            while (buffer[end] && buffer[end] != '"')
+                end++;
+            int inclusion_path_len = end - begin + 1; /* with terminator */
             check_capacity(c + inclusion_path_len, MAX_LINE_LEN);
             /* prepend directory name */
             if (c)
                 snprintf(path, c + 1, "%s", file);
 
-            snprintf(path + c, inclusion_path_len, "%s", buffer + 10);
+            snprintf(path + c, inclusion_path_len, "%s", buffer + begin);
             load_source_file(path);
+
+            /* the rest of the line may hold a comment */
+            if (buffer[end])
+                append_source(buffer + end + 1);
         } else {
-            check_capacity(SOURCE->size + strlen(buffer), SOURCE->capacity);
-            strcpy(SOURCE->elements + SOURCE->size, buffer);
-            SOURCE->size += strlen(buffer);
+            append_source(buffer);
         }
     }
     fclose(f);
-- 
2.43.0


From 488dad02ac1900e5e98dff3b3790993b892fcfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:38 +0000
Subject: [PATCH 59/68] fix: name the label of the final operand of && and ||
 in the IR dump

OP_label is printed from src0; the label was stored in dest, so the dump
showed whatever name had been printed last.
---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index b9eb480..21a404e 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1965,7 +1965,7 @@ void finalize_logical(opcode_t op,
     ph1_ir = add_ph1_ir(OP_label);
     vd = require_var(parent);
     strcpy(vd->var_name, op == OP_log_and ? label_true : label_else);
-    ph1_ir->dest = vd;
+    ph1_ir->src0 = vd;
 
     ph1_ir = add_ph1_ir(OP_load_constant);
     vd = require_var(parent);
-- 
2.43.0


From 960c1c338e3c54584bf8bb44688ab17c0729f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:38 +0000
Subject: [PATCH 60/68] fix: do not close a block after do-while in the IR dump

No block is opened for the statement, so the dump closed the enclosing one.
---
 src/parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 21a404e..df1ef20 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3298,7 +3298,6 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         continue_pos_idx--;
         break_exit_idx--;
-        add_ph1_ir(OP_block_end);
         return do_while_end;
     }
 
-- 
2.43.0


From bd206e2d0b8e1a81da3b656359136122da1a342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:38 +0000
Subject: [PATCH 61/68] fix: let a case fall through to the next body in the IR
 dump

A case body without 'break' went on to the comparison of the next case, and
the body shared with 'default' had no label at all.
---
 src/parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index df1ef20..c39bad8 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2949,8 +2949,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
             int control = 0;
             /* body is optional, can be another case */
-            if (!is_default && !lex_peek(T_case, NULL) &&
-                !lex_peek(T_close_curly, NULL) && !lex_peek(T_default, NULL)) {
+            if (!lex_peek(T_case, NULL) && !lex_peek(T_default, NULL)) {
                 ph1_ir = add_ph1_ir(OP_label);
                 vd = require_var(parent);
                 strcpy(vd->var_name, true_label);
@@ -2975,6 +2974,13 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 basic_block_t *n = bb_create(parent);
                 bb_connect(true_body_, n, NEXT);
                 true_body_ = n;
+
+                if (!lex_peek(T_close_curly, NULL)) {
+                    ph1_ir = add_ph1_ir(OP_jump);
+                    vd = require_var(parent);
+                    strcpy(vd->var_name, true_label);
+                    ph1_ir->dest = vd;
+                }
             }
 
             ph1_ir = add_ph1_ir(OP_label);
-- 
2.43.0


From 0f7f7b51e07a32353d1eef3e0cac05ed1f12f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:14 +0000
Subject: [PATCH 62/68] fix: tell logical from bitwise negation in the IR dump

Both were printed as 'not', so the dump did not say which one is meant.
---
 src/globals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/globals.c b/src/globals.c
index ec71949..82eac8e 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -1225,7 +1225,7 @@ void dump_ph1_ir()
             break;
         case OP_log_not:
             print_indent(indent);
-            printf("%%%s = not %%%s", rd, op1);
+            printf("%%%s = lnot %%%s", rd, op1);
             break;
         case OP_rshift:
             print_indent(indent);
-- 
2.43.0


From 47c90302b80f24edc3f049f5c83dc3b6f5e3085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:32 +0000
Subject: [PATCH 63/68] fix: keep the order of operands of a deferred write in
 the IR dump

The dump of a postfix ++ or -- through memory wrote the address to the value.
---
 src/parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index c39bad8..4738277 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -868,6 +868,14 @@ void perform_side_effect(block_t *parent, basic_block_t *bb)
         memcpy(ph1_ir, &side_effect[i], sizeof(ph1_ir_t));
         add_insn(parent, bb, ph1_ir->op, ph1_ir->dest, ph1_ir->src0,
                  ph1_ir->src1, ph1_ir->size, ph1_ir->func_name);
+
+        /* The column of arguments of 'OP_write' in the dumped IR is different
+         * from the insn
+         */
+        if (ph1_ir->op == OP_write) {
+            ph1_ir->dest = ph1_ir->src0;
+            ph1_ir->src0 = ph1_ir->src1;
+        }
     }
     se_idx = se_base;
 }
-- 
2.43.0


From a31b92600a280c1080f494239690d56ffa1e91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 64/68] fix: print the size of a function pointer stored to
 memory in the IR dump

---
 src/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.c b/src/parser.c
index 4738277..46dcf6c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2330,6 +2330,7 @@ bool read_body_assignment(char *token,
                 ph1_ir = add_ph1_ir(OP_write);
                 ph1_ir->src0 = opstack_pop();
                 ph1_ir->dest = opstack_pop();
+                ph1_ir->size = PTR_SIZE;
                 add_insn(parent, *bb, OP_write, NULL, ph1_ir->dest,
                          ph1_ir->src0, PTR_SIZE, NULL);
             } else if (lvalue.is_reference) {
-- 
2.43.0


From 6318c11972be3d9b4235ddb35929ef3816a80df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:27 +0000
Subject: [PATCH 65/68] fix: do not fold a division which has no quotient

---
 src/ssa.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index 8aa8e96..2a1f29f 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1421,10 +1421,13 @@ bool eval_const_arithmetic(insn_t *insn)
         res = l * r;
         break;
     case OP_div:
-        res = l / r;
-        break;
     case OP_mod:
-        res = l % r;
+        /* The quotient may not exist. Leave the operation, which might never
+         * be executed, to the program.
+         */
+        if (!r || r == -1)
+            return false;
+        res = insn->opcode == OP_div ? l / r : l % r;
         break;
     default:
         return false;
-- 
2.43.0


From 0ad19b9ee9a4c3b1fa80be96c8afd6ad9e813efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:34 +0000
Subject: [PATCH 66/68] fix: reject a division by zero in a global initialiser

---
 src/parser.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 46dcf6c..a59f215 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -184,6 +184,16 @@ int is_defined(char *name)
     return find_alias(name) != NULL || find_macro(name) != NULL;
 }
 
+/* Divide constants without performing a division which has no quotient. */
+int eval_division_imm(opcode_t op, int lhs, int rhs)
+{
+    if (!rhs)
+        error("Division by zero while evaluating constant");
+    if (rhs == -1)
+        return op == OP_div ? -lhs : 0;
+    return op == OP_div ? lhs / rhs : lhs % rhs;
+}
+
 int read_constant_expr();
 
 int read_constant_expr_operand()
@@ -259,12 +269,7 @@ int read_constant_infix_expr(int precedence, opcode_t *next_op)
             break;
         case OP_div:
         case OP_mod:
-            if (!rhs)
-                error("Division by zero while evaluating constant");
-            if (op == OP_div)
-                lhs /= rhs;
-            else
-                lhs %= rhs;
+            lhs = eval_division_imm(op, lhs, rhs);
             break;
         case OP_bit_and:
             lhs &= rhs;
@@ -2391,10 +2396,8 @@ int eval_expression_imm(opcode_t op, int op1, int op2)
         res = op1 * op2;
         break;
     case OP_div:
-        res = op1 / op2;
-        break;
     case OP_mod:
-        res = op1 % op2;
+        res = eval_division_imm(op, op1, op2);
         break;
     case OP_lshift:
         res = op1 << op2;
-- 
2.43.0


From 5b96b25f5b0bf0618ba3a31c9a4ebd9c157a2144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:48 +0000
Subject: [PATCH 67/68] fix: do not look up an uninitialised name where an
 operand is missing

---
 src/parser.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index a59f215..ab89b79 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1039,7 +1039,8 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         char token[MAX_VAR_LEN];
         lvalue_t lvalue;
 
-        lex_peek(T_identifier, token);
+        if (!lex_peek(T_identifier, token))
+            error("Unrecognized identifier after '&'");
         var_t *var = find_var(token, parent);
         if (!var)
             error("Unrecognized identifier after '&'");
@@ -1067,7 +1068,8 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         lvalue_t lvalue;
 
         int open_bracket = lex_accept(T_open_bracket);
-        lex_peek(T_identifier, token);
+        if (!lex_peek(T_identifier, token))
+            error("Unrecognized identifier after '*'");
         var_t *var = find_var(token, parent);
         if (!var)
             error("Unrecognized identifier after '*'");
@@ -1129,7 +1131,8 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         else if (lex_accept(T_decrement))
             prefix_op = OP_sub;
 
-        lex_peek(T_identifier, token);
+        if (!lex_peek(T_identifier, token))
+            error("Unrecognized expression token");
 
         /* is a constant or variable? */
         constant_t *con = find_constant(token);
-- 
2.43.0


From 30e41c8e5864cd3ff18cd2947444ae4e72b84d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:02 +0000
Subject: [PATCH 68/68] fix: print diagnostics of any length from the
 bootstrapped compilers

---
 src/globals.c | 15 +++++++++++++--
 src/parser.c  |  5 +++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index 82eac8e..b371696 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -980,6 +980,17 @@ void global_release()
     free(elf_section);
 }
 
+/* Text of any length: the formatted output of the bundled C library is limited
+ * to less than 200 characters at a time, and so is that of the stages built
+ * with it.
+ */
+void print_line(char *str)
+{
+    for (int i = 0; str[i]; i++)
+        printf("%c", str[i]);
+    printf("\n");
+}
+
 void error(char *msg)
 {
     /* Construct error source diagnostics, enabling precise identification of
@@ -1013,8 +1024,8 @@ void error(char *msg)
     /* TODO: figure out the corresponding C source file path and report line
      * number.
      */
-    printf("Error %s at source location %d\n%s\n", msg, SOURCE->size,
-           diagnostic);
+    printf("Error %s at source location %d\n", msg, SOURCE->size);
+    print_line(diagnostic);
     exit(1);
 }
 
diff --git a/src/parser.c b/src/parser.c
index ab89b79..ed562b7 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1227,7 +1227,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
                 opstack_push(read_func_address(vd, parent, *bb));
             }
         } else {
-            printf("%s\n", token);
+            print_line(token);
             /* unknown expression */
             error("Unrecognized expression token");
         }
@@ -3755,7 +3755,8 @@ void load_source_file(char *file)
 
     FILE *f = fopen(file, "rb");
     if (!f) {
-        printf("Unable to open source file %s\n", file);
+        printf("Unable to open source file ");
+        print_line(file);
         exit(1);
     }
 
-- 
2.43.0

