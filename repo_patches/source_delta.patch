From 41034d0c5f280562329876d91d5f1f205872d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 01/50] fix: clear compiler objects carved out of uninitialized
 heap memory

Variables, IR entries, types, macros, functions and blocks are taken from
malloc()ed tables and relied on the heap being zero-filled: with any residue in
it the compiler crashed, looped or emitted stray bytes (section padding). Clear
each object when it is handed out and write the padding explicitly.
---
 src/elf.c     | 15 ++++++---------
 src/globals.c | 25 +++++++++++++++++++++++--
 src/parser.c  |  1 +
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/elf.c b/src/elf.c
index 3d3f1d5..829978f 100644
--- a/src/elf.c
+++ b/src/elf.c
@@ -214,17 +214,14 @@ void elf_generate_sections()
 
 void elf_align()
 {
-    int remainder = elf_data_idx & 3;
-    if (remainder)
-        elf_data_idx += (4 - remainder);
+    while (elf_data_idx & 3)
+        elf_data[elf_data_idx++] = 0;
 
-    remainder = elf_symtab_index & 3;
-    if (remainder)
-        elf_symtab_index += (4 - remainder);
+    while (elf_symtab_index & 3)
+        elf_symtab[elf_symtab_index++] = 0;
 
-    remainder = elf_strtab_index & 3;
-    if (remainder)
-        elf_strtab_index += (4 - remainder);
+    while (elf_strtab_index & 3)
+        elf_strtab[elf_strtab_index++] = 0;
 }
 
 void elf_add_symbol(char *symbol, int len, int pc)
diff --git a/src/globals.c b/src/globals.c
index a470351..6fc1361 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -73,6 +73,20 @@ char *elf_symtab;
 char *elf_strtab;
 char *elf_section;
 
+/**
+ * clear_object() - sets an object to all zeros. Memory obtained from malloc()
+ * has unspecified content, hence it has to be cleared before being handed out.
+ * @ptr: The object to clear. Must be aligned to the size of int.
+ * @size: The size of the object. Must be a multiple of the size of int.
+ */
+void clear_object(void *ptr, int size)
+{
+    int *words = ptr, num_words = size / sizeof(int);
+
+    for (int i = 0; i < num_words; i++)
+        words[i] = 0;
+}
+
 /**
  * arena_block_create() - creates a new arena block with given capacity.
  * The created arena block is guaranteed to be zero-initialized.
@@ -420,6 +434,7 @@ type_t *find_type(char *type_name, int flag)
 ph1_ir_t *add_global_ir(opcode_t op)
 {
     ph1_ir_t *ir = &GLOBAL_IR[global_ir_idx++];
+    clear_object(ir, sizeof(ph1_ir_t));
     ir->op = op;
     return ir;
 }
@@ -427,6 +442,7 @@ ph1_ir_t *add_global_ir(opcode_t op)
 ph1_ir_t *add_ph1_ir(opcode_t op)
 {
     ph1_ir_t *ph1_ir = &PH1_IR[ph1_ir_idx++];
+    clear_object(ph1_ir, sizeof(ph1_ir_t));
     ph1_ir->op = op;
     return ph1_ir;
 }
@@ -483,6 +499,8 @@ block_t *add_block(block_t *parent, func_t *func, macro_t *macro)
     blk->func = func;
     blk->macro = macro;
     blk->next_local = 0;
+    blk->locals_size = 0;
+    blk->next = NULL;
     return blk;
 }
 
@@ -517,6 +535,7 @@ bool remove_alias(char *alias)
 macro_t *add_macro(char *name)
 {
     macro_t *ma = &MACROS[macros_idx++];
+    clear_object(ma, sizeof(macro_t));
     strcpy(ma->name, name);
     ma->disabled = false;
     return ma;
@@ -565,7 +584,7 @@ func_t *add_func(char *name)
     if (hashmap_contains(FUNCS_MAP, name)) {
         fn = hashmap_get(FUNCS_MAP, name);
     } else {
-        fn = malloc(sizeof(func_t));
+        fn = calloc(1, sizeof(func_t));
 
         if (!fn) {
             printf("Failed to allocate func_t\n");
@@ -582,7 +601,9 @@ func_t *add_func(char *name)
 
 type_t *add_type()
 {
-    return &TYPES[types_idx++];
+    type_t *type = &TYPES[types_idx++];
+    clear_object(type, sizeof(type_t));
+    return type;
 }
 
 type_t *add_named_type(char *name)
diff --git a/src/parser.c b/src/parser.c
index cfa0100..06d3d5c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -31,6 +31,7 @@ var_t *require_var(block_t *blk)
         error("Too many locals");
 
     var_t *var = &blk->locals[blk->next_local++];
+    clear_object(var, sizeof(var_t));
     var->consumed = -1;
     var->base = var;
     return var;
-- 
2.43.0


From 3b6ef02f71882141e16fae0066a1a42d08d8a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 02/50] fix: resolve inclusions of a source given without a
 directory

With no '/' in the name of the including file, the first byte of the included
path was left uninitialized, so the file opened depended on stack residue.
---
 src/parser.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 06d3d5c..9193ba8 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3405,15 +3405,16 @@ void load_source_file(char *file)
         }
         if (!strncmp(buffer, "#include ", 9) && (buffer[9] == '"')) {
             char path[MAX_LINE_LEN];
-            int c = strlen(file) - 1, inclusion_path_len = strlen(buffer) - 11;
-            while (c > 0 && file[c] != '/')
+            int c = strlen(file), inclusion_path_len = strlen(buffer) - 11;
+            /* 'c' is the length of the directory name, including the slash */
+            while (c > 0 && file[c - 1] != '/')
                 c--;
             if (c) {
                 /* prepend directory name */
-                snprintf(path, c + 2, "%s", file);
+                snprintf(path, c + 1, "%s", file);
             }
 
-            snprintf(path + c + 1, inclusion_path_len, "%s", buffer + 10);
+            snprintf(path + c, inclusion_path_len, "%s", buffer + 10);
             load_source_file(path);
         } else {
             strcpy(SOURCE->elements + SOURCE->size, buffer);
-- 
2.43.0


From 559eddcfa1e04d6ef50d07e1d22f18665f3ef5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 03/50] fix: take the path of an inclusion up to its closing
 quote

The path was assumed to be followed by exactly one quote and one newline, so an
inclusion on the last line of a file without a trailing newline lost the last
character of its path and failed to open.
---
 src/parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 9193ba8..34a580c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3405,7 +3405,13 @@ void load_source_file(char *file)
         }
         if (!strncmp(buffer, "#include ", 9) && (buffer[9] == '"')) {
             char path[MAX_LINE_LEN];
-            int c = strlen(file), inclusion_path_len = strlen(buffer) - 11;
+            int c = strlen(file), inclusion_path_len = 0;
+            /* the path ends at the closing quote, which the end of the file may
+             * follow instead of a newline
+             */
+            while (buffer[10 + inclusion_path_len] &&
+                   buffer[10 + inclusion_path_len] != '"')
+                inclusion_path_len++;
             /* 'c' is the length of the directory name, including the slash */
             while (c > 0 && file[c - 1] != '/')
                 c--;
@@ -3414,7 +3420,7 @@ void load_source_file(char *file)
                 snprintf(path, c + 1, "%s", file);
             }
 
-            snprintf(path + c, inclusion_path_len, "%s", buffer + 10);
+            snprintf(path + c, inclusion_path_len + 1, "%s", buffer + 10);
             load_source_file(path);
         } else {
             strcpy(SOURCE->elements + SOURCE->size, buffer);
-- 
2.43.0


From 709f9344399b0496ac8c9ed3d212c8c23090ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 04/50] fix: reject a source file that can not be read
 completely

A read error was taken for the end of the file, and the part of the source read
so far was compiled successfully.
---
 src/parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 34a580c..0c63d74 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3400,6 +3400,14 @@ void load_source_file(char *file)
 
     for (;;) {
         if (!fgets(buffer, MAX_LINE_LEN, f)) {
+#ifndef __SHECC__
+            /* The libc of shecc can not tell a read error from the end of file
+             */
+            if (ferror(f)) {
+                printf("Failed to read source file %s\n", file);
+                exit(1);
+            }
+#endif
             fclose(f);
             return;
         }
-- 
2.43.0


From 23ceb3e7eb3a5a9a10722855f725f03bb5dfee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 05/50] fix: fail when the output file can not be written
 completely

Errors of fopen(), fputc() and fclose() were ignored: an output that could not
be opened crashed the compiler, and a full disk or an I/O error left a truncated
executable behind a successful exit status.
---
 src/elf.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/elf.c b/src/elf.c
index 829978f..713f6be 100644
--- a/src/elf.c
+++ b/src/elf.c
@@ -252,13 +252,30 @@ void elf_generate(char *outfile)
         outfile = "a.out";
 
     FILE *fp = fopen(outfile, "wb");
+    if (!fp) {
+        printf("Failed to open output file %s\n", outfile);
+        exit(1);
+    }
+
+    bool failed = false;
     for (int i = 0; i < elf_header_idx; i++)
-        fputc(elf_header[i], fp);
+        if (fputc(elf_header[i] & 0xff, fp) < 0)
+            failed = true;
     for (int i = 0; i < elf_code_idx; i++)
-        fputc(elf_code[i], fp);
+        if (fputc(elf_code[i] & 0xff, fp) < 0)
+            failed = true;
     for (int i = 0; i < elf_data_idx; i++)
-        fputc(elf_data[i], fp);
+        if (fputc(elf_data[i] & 0xff, fp) < 0)
+            failed = true;
     for (int i = 0; i < elf_section_index; i++)
-        fputc(elf_section[i], fp);
-    fclose(fp);
+        if (fputc(elf_section[i] & 0xff, fp) < 0)
+            failed = true;
+
+    /* buffered data may not be written until the file is closed */
+    if (fclose(fp))
+        failed = true;
+    if (failed) {
+        printf("Failed to write output file %s\n", outfile);
+        exit(1);
+    }
 }
-- 
2.43.0


From e035fe6a0382d98a6ae911bbb2daebc5230e2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 06/50] fix: stop at the end of a torn source instead of
 scanning past it

The loops that look for a closing token, quote or newline went on for ever
or beyond the source buffer when the source ends before it. Report that as
an error, and keep the diagnostic of error() within its buffer.
---
 src/globals.c |  8 +++++---
 src/lexer.c   | 17 ++++++++++++++++-
 src/parser.c  |  3 ++-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index 6fc1361..6161467 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -981,7 +981,7 @@ void error(char *msg)
      * syntax and logic issues within the code.
      */
     int offset, start_idx, i = 0;
-    char diagnostic[512 /* MAX_LINE_LEN * 2 */];
+    char diagnostic[576 /* MAX_LINE_LEN * 2 and the marker */];
 
     for (offset = SOURCE->size; offset >= 0 && SOURCE->elements[offset] != '\n';
          offset--)
@@ -990,13 +990,15 @@ void error(char *msg)
     start_idx = offset + 1;
 
     for (offset = 0;
-         offset < MAX_SOURCE && SOURCE->elements[start_idx + offset] != '\n';
+         offset < MAX_LINE_LEN && SOURCE->elements[start_idx + offset] &&
+         SOURCE->elements[start_idx + offset] != '\n';
          offset++) {
         diagnostic[i++] = SOURCE->elements[start_idx + offset];
     }
     diagnostic[i++] = '\n';
 
-    for (offset = start_idx; offset < SOURCE->size; offset++) {
+    for (offset = start_idx;
+         offset < SOURCE->size && offset < start_idx + MAX_LINE_LEN; offset++) {
         diagnostic[i++] = ' ';
     }
 
diff --git a/src/lexer.c b/src/lexer.c
index 7b3cadb..8c442d4 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -101,6 +101,9 @@ bool preproc_match;
  */
 int macro_return_idx;
 
+/* How often the end of the source has been lexed */
+int eof_tokens = 0;
+
 bool is_whitespace(char c)
 {
     return c == ' ' || c == '\t';
@@ -320,6 +323,10 @@ token_t lex_token_internal(bool aliasing)
         int special = 0;
 
         while ((read_char(false) != '"') || special) {
+            if (!next_char)
+                error("Unterminated string literal");
+            if (i >= MAX_TOKEN_LEN - 1)
+                error("String literal too long");
             if ((i > 0) && (token_str[i - 1] == '\\')) {
                 if (next_char == 'n')
                     token_str[i - 1] = '\n';
@@ -610,8 +617,16 @@ token_t lex_token_internal(bool aliasing)
         return lex_token_internal(aliasing);
     }
 
-    if (next_char == 0)
+    if (next_char == 0) {
+        /* The end is lexed once as the token after the last one and once more
+         * when it is accepted. Whoever goes on is looking for a token which the
+         * source does not have.
+         */
+        eof_tokens++;
+        if (eof_tokens > 2)
+            error("Unexpected end of source");
         return T_eof;
+    }
 
     error("Unrecognized input");
 
diff --git a/src/parser.c b/src/parser.c
index 0c63d74..41ba5a1 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -436,7 +436,8 @@ bool read_preproc_directive()
 
         do {
             error_diagnostic[i++] = next_char;
-        } while (read_char(false) != '\n');
+        } while (read_char(false) != '\n' && next_char &&
+                 i < MAX_LINE_LEN - 1);
         error_diagnostic[i] = 0;
 
         error(error_diagnostic);
-- 
2.43.0


From c3faeef0a4afdcd7b8fd9a4478fceaf2275c3838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 07/50] fix: report undefined functions and case labels instead
 of crashing

A source torn before main(), before the body of a function it calls or
within a case label made the compiler dereference a null pointer.
---
 src/parser.c    |  2 ++
 src/reg-alloc.c | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 41ba5a1..a5d01ac 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2628,6 +2628,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                     lex_expect(T_char);
                 } else {
                     constant_t *cd = find_constant(token_str);
+                    if (!cd)
+                        error("Unknown constant in case label");
                     case_val = cd->value;
                     lex_expect(T_identifier); /* already read it */
                 }
diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 5c7d80d..4dc5ec2 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -301,12 +301,16 @@ void reg_alloc()
         }
     }
 
-    for (fn_t *fn = FUNC_LIST.head; fn; fn = fn->next) {
-        fn->visited++;
-
+    for (fn_t *fn = FUNC_LIST.head; fn; fn = fn->next)
         if (!strcmp(fn->func->return_def.var_name, "main"))
             MAIN_BB = fn->bbs;
 
+    if (!MAIN_BB)
+        error("Missing definition of main");
+
+    for (fn_t *fn = FUNC_LIST.head; fn; fn = fn->next) {
+        fn->visited++;
+
         for (int i = 0; i < REG_CNT; i++)
             REGS[i].var = NULL;
 
@@ -471,6 +475,10 @@ void reg_alloc()
                 case OP_write:
                     if (insn->rs2->is_func) {
                         src0 = prepare_operand(bb, insn->rs1, -1);
+                        func = find_func(insn->rs2->var_name);
+                        if (!func || !func->fn)
+                            error("Address of a function without definition");
+
                         ir = bb_add_ph2_ir(bb, OP_address_of_func);
                         ir->src0 = src0;
                         strcpy(ir->func_name, insn->rs2->var_name);
@@ -517,6 +525,8 @@ void reg_alloc()
                     break;
                 case OP_call:
                     func = find_func(insn->str);
+                    if (!func || !func->fn)
+                        error("Call of a function without definition");
                     if (!func->num_params)
                         spill_alive(bb, insn);
 
-- 
2.43.0


From b99c2ca4f0c34ee68791f1a34e6d24784d8a6bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 08/50] fix: keep the return address above the stack pointer on
 ARM

It was stored before the prologue moved the stack pointer and loaded after
the epilogue had moved it back, so that a signal handler which runs in
between overwrites it. The first slot of every frame is reserved for it, as
on RISC-V.
---
 src/arm-codegen.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index c6c020e..9cb77e7 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -198,10 +198,11 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
 
     switch (ph2_ir->op) {
     case OP_define:
-        emit(__sw(__AL, __lr, __sp, -4));
         emit(__movw(__AL, __r8, ph2_ir->src0 + 4));
         emit(__movt(__AL, __r8, ph2_ir->src0 + 4));
         emit(__sub_r(__AL, __sp, __sp, __r8));
+        /* what is below the stack pointer may be overwritten at any time */
+        emit(__sw(__AL, __lr, __sp, 0));
         return;
     case OP_load_constant:
         if (ph2_ir->src0 < 0) {
@@ -302,10 +303,10 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
             emit(__mov_r(__AL, __r0, __r0));
         else
             emit(__mov_r(__AL, __r0, rn));
+        emit(__lw(__AL, __lr, __sp, 0));
         emit(__movw(__AL, __r8, ph2_ir->src1 + 4));
         emit(__movt(__AL, __r8, ph2_ir->src1 + 4));
         emit(__add_r(__AL, __sp, __sp, __r8));
-        emit(__lw(__AL, __lr, __sp, -4));
         emit(__blx(__AL, __lr));
         return;
     case OP_add:
-- 
2.43.0


From 4516c100182be3410b6d6e12970d041fa2f1a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 09/50] fix: reject a trailing -o without output file

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 8caab34..e5a6cdf 100644
--- a/src/main.c
+++ b/src/main.c
@@ -56,7 +56,7 @@ int main(int argc, char *argv[])
         else if (!strcmp(argv[i], "--no-libc"))
             libc = 0;
         else if (!strcmp(argv[i], "-o")) {
-            if (i < argc + 1) {
+            if (i + 1 < argc) {
                 out = argv[i + 1];
                 i++;
             } else
-- 
2.43.0


From 19effb68dabdf221bba425ee705de223efa622ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 10/50] fix: survive a dump file that can not be opened

---
 src/ssa.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ssa.c b/src/ssa.c
index 0eccec4..981ead7 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1152,6 +1152,10 @@ void bb_dump(FILE *fd, fn_t *fn, basic_block_t *bb)
 void dump_cfg(char name[])
 {
     FILE *fd = fopen(name, "w");
+    if (!fd) {
+        printf("Failed to open %s\n", name);
+        return;
+    }
 
     fprintf(fd, "strict digraph CFG {\n");
     fprintf(fd, "node [shape=box]\n");
@@ -1180,6 +1184,10 @@ void dom_dump(FILE *fd, basic_block_t *bb)
 void dump_dom(char name[])
 {
     FILE *fd = fopen(name, "w");
+    if (!fd) {
+        printf("Failed to open %s\n", name);
+        return;
+    }
 
     fprintf(fd, "strict digraph DOM {\n");
     fprintf(fd, "node [shape=box]\n");
-- 
2.43.0


From 00c65d39d18d10ddd8f0b9d4ac1a083de2f9939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 11/50] fix: do not scale what is added to an element of an
 array

---
 src/parser.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index a5d01ac..a9023f9 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1243,6 +1243,7 @@ void read_lvalue(lvalue_t *lvalue,
     var_t *vd;
     bool is_address_got = false;
     bool is_member = false;
+    int num_subscripts = 0;
 
     /* already peeked and have the variable */
     lex_expect(T_identifier);
@@ -1325,6 +1326,7 @@ void read_lvalue(lvalue_t *lvalue,
             is_address_got = true;
             is_member = true;
             lvalue->is_reference = true;
+            num_subscripts++;
         } else {
             char token[MAX_ID_LEN];
 
@@ -1374,6 +1376,7 @@ void read_lvalue(lvalue_t *lvalue,
              */
             if (var->array_size > 0)
                 lvalue->is_reference = false;
+            num_subscripts = 0;
 
             /* move pointer to offset of structure */
             ph1_ir = add_ph1_ir(OP_load_constant);
@@ -1403,7 +1406,11 @@ void read_lvalue(lvalue_t *lvalue,
     if (!eval)
         return;
 
-    if (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
+    /* what is left of a pointer or an array by the subscripts is a pointer to
+     * be scaled, unless an element is reached.
+     */
+    if (lex_peek(T_plus, NULL) &&
+        var->is_ptr + (var->array_size > 0) > num_subscripts) {
         while (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
             lex_expect(T_plus);
             if (lvalue->is_reference) {
-- 
2.43.0


From ce0379c6a72888483d73bf38940e45c3efb95323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 12/50] fix: divide a register by itself correctly on ARM

---
 src/arm-codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index 9cb77e7..8657449 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -336,9 +336,10 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
         emit(__stmdb(__AL, 1, __sp, (1 << rn) | (1 << rm)));
         /* Obtain absolute values of the dividend and divisor */
         emit(__srl_amt(__AL, 0, arith_rs, __r8, rn, 31));
+        /* both signs are taken first: rn and rm may be the same register */
+        emit(__srl_amt(__AL, 0, arith_rs, __r9, rm, 31));
         emit(__add_r(__AL, rn, rn, __r8));
         emit(__eor_r(__AL, rn, rn, __r8));
-        emit(__srl_amt(__AL, 0, arith_rs, __r9, rm, 31));
         emit(__add_r(__AL, rm, rm, __r9));
         emit(__eor_r(__AL, rm, rm, __r9));
         if (ph2_ir->op == OP_div)
-- 
2.43.0


From b83d8e5244aa69fc88d2a5868efe1986e500e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 13/50] fix: do not reuse an element read before memory was
 written

---
 src/ssa.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index 981ead7..61b5e53 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1225,9 +1225,24 @@ void ssa_build(int dump_ir)
     unwind_phi();
 }
 
+/* Check if 'to' follows 'from' in the same basic block and nothing in between
+ * may change the memory.
+ */
+bool is_memory_unchanged(insn_t *from, insn_t *to)
+{
+    for (insn_t *insn = from->next; insn; insn = insn->next) {
+        if (insn == to)
+            return true;
+        if (insn->opcode == OP_write || insn->opcode == OP_call ||
+            insn->opcode == OP_indirect)
+            return false;
+    }
+    return false;
+}
+
 /* Common Subexpression Elimination (CSE) */
 /* TODO: release detached insns node */
-bool cse(insn_t *insn, basic_block_t *bb)
+bool cse(insn_t *insn)
 {
     if (insn->opcode != OP_read)
         return false;
@@ -1268,18 +1283,7 @@ bool cse(insn_t *insn, basic_block_t *bb)
             continue;
         if (i->rs1 != base || i->rs2 != idx)
             continue;
-        basic_block_t *i_bb = i->belong_to;
-        bool check_dom = 0;
-        /* Check if the instructions are under the same dominate tree */
-        for (;; i_bb = i_bb->idom) {
-            if (i_bb == bb) {
-                check_dom = true;
-                break;
-            }
-            if (i_bb == i_bb->idom)
-                break;
-        }
-        if (!check_dom)
+        if (!is_memory_unchanged(insn, i))
             continue;
 
         i->next->opcode = OP_assign;
@@ -1550,7 +1554,7 @@ void optimize()
                 /* record the instruction assigned value to rd */
                 if (insn->rd)
                     insn->rd->last_assign = insn;
-                if (cse(insn, bb))
+                if (cse(insn))
                     continue;
                 if (const_folding(insn))
                     continue;
-- 
2.43.0


From bb09bb7b1db99e5df15d4bd4c20d0818c9551594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 14/50] fix: do not fold a variable that may be changed through
 a pointer

---
 src/defs.h   | 1 +
 src/parser.c | 1 +
 src/ssa.c    | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/defs.h b/src/defs.h
index bdbb342..95e0390 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -206,6 +206,7 @@ struct var {
     bool is_ternary_ret;
     bool is_logical_ret;
     bool is_const; /* whether a constant representaion or not */
+    bool is_address_taken; /* may be changed through a pointer */
 };
 
 typedef struct var var_t;
diff --git a/src/parser.c b/src/parser.c
index a9023f9..a0e649c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -810,6 +810,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         read_lvalue(&lvalue, var, parent, bb, false, OP_generic);
 
         if (!lvalue.is_reference) {
+            var->is_address_taken = true;
             ph1_ir = add_ph1_ir(OP_address_of);
             ph1_ir->src0 = opstack_pop();
             vd = require_var(parent);
diff --git a/src/ssa.c b/src/ssa.c
index 61b5e53..ba9f965 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1321,6 +1321,8 @@ bool mark_const(insn_t *insn)
      */
     if (insn->rd->is_global)
         return false;
+    if (insn->rd->is_address_taken)
+        return false;
     if (!insn->rs1->is_const) {
         if (!insn->prev)
             return false;
-- 
2.43.0


From 8b8b47df74aad7b1a77ae2d0463b849671d0635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 15/50] fix: give shifts their priority in an expression

---
 src/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index a0e649c..6adc516 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -91,6 +91,9 @@ int get_operator_prio(opcode_t op)
     case OP_gt:
     case OP_geq:
         return 10;
+    case OP_lshift:
+    case OP_rshift:
+        return 11;
     case OP_add:
     case OP_sub:
         return 12;
-- 
2.43.0


From 9b8129ee81212d6e605fbccef8ad16144e3f7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 16/50] fix: step a pointer by the size of what it points at

---
 src/defs.h   |  1 +
 src/parser.c | 28 ++++++++++++++++------------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/defs.h b/src/defs.h
index 95e0390..db2485a 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -316,6 +316,7 @@ typedef struct {
     int is_ptr;
     bool is_func;
     bool is_reference;
+    int step; /* what adding one to it adds to its value */
     type_t *type;
 } lvalue_t;
 
diff --git a/src/parser.c b/src/parser.c
index 6adc516..86d5de5 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1407,14 +1407,21 @@ void read_lvalue(lvalue_t *lvalue,
         }
     }
 
-    if (!eval)
-        return;
-
     /* what is left of a pointer or an array by the subscripts is a pointer to
      * be scaled, unless an element is reached.
      */
-    if (lex_peek(T_plus, NULL) &&
-        var->is_ptr + (var->array_size > 0) > num_subscripts) {
+    int num_ptr = var->is_ptr + (var->array_size > 0) - num_subscripts;
+    if (num_ptr > 1)
+        lvalue->step = PTR_SIZE;
+    else if (num_ptr == 1)
+        lvalue->step = lvalue->type->size;
+    else
+        lvalue->step = 1;
+
+    if (!eval)
+        return;
+
+    if (lex_peek(T_plus, NULL) && num_ptr > 0) {
         while (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
             lex_expect(T_plus);
             if (lvalue->is_reference) {
@@ -1431,7 +1438,7 @@ void read_lvalue(lvalue_t *lvalue,
 
             read_expr_operand(parent, bb);
 
-            lvalue->size = lvalue->type->size;
+            lvalue->size = lvalue->step;
 
             if (lvalue->size > 1) {
                 ph1_ir = add_ph1_ir(OP_load_constant);
@@ -1486,7 +1493,7 @@ void read_lvalue(lvalue_t *lvalue,
             ph1_ir = add_ph1_ir(OP_load_constant);
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
-            vd->init_val = 1;
+            vd->init_val = lvalue->step;
             ph1_ir->dest = vd;
             opstack_push(vd);
             add_insn(parent, *bb, OP_load_constant, ph1_ir->dest, NULL, NULL, 0,
@@ -1525,7 +1532,7 @@ void read_lvalue(lvalue_t *lvalue,
             side_effect[se_idx].op = OP_load_constant;
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
-            vd->init_val = 1;
+            vd->init_val = lvalue->step;
             side_effect[se_idx].dest = vd;
             side_effect[se_idx].src0 = NULL;
             side_effect[se_idx].src1 = NULL;
@@ -1943,11 +1950,8 @@ bool read_body_assignment(char *token,
 
         if (op != OP_generic) {
             var_t *vd, *t;
-            int increment_size = 1;
-
             /* if we have a pointer, shift it by element size */
-            if (lvalue.is_ptr)
-                increment_size = lvalue.type->size;
+            int increment_size = lvalue.step;
 
             /* If operand is a reference, read the value and push to stack for
              * the incoming addition/subtraction. Otherwise, use the top element
-- 
2.43.0


From 89ba4529eb561e06f88a2a6caff6a6d76ffa7562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 17/50] fix: subscript what an array of pointers holds by its
 own size

---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 86d5de5..2c37ae3 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1289,7 +1289,7 @@ void read_lvalue(lvalue_t *lvalue,
                 error("Cannot apply square operator to non-pointer");
 
             /* if nested pointer, still pointer */
-            if (var->is_ptr <= 1 && var->array_size == 0)
+            if (var->is_ptr + (var->array_size > 0) - num_subscripts <= 1)
                 lvalue->size = lvalue->type->size;
 
             read_expr(parent, bb);
-- 
2.43.0


From be568833632df6ad812ec469f7403af40ef0ce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 18/50] fix: tell two minus signs apart from a decrement

---
 src/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.c b/src/lexer.c
index 8c442d4..d92171f 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -492,7 +492,7 @@ token_t lex_token_internal(bool aliasing)
         return T_dot;
     }
     if (next_char == '-') {
-        read_char(true);
+        read_char(false);
         if (next_char == '>') {
             read_char(true);
             return T_arrow;
-- 
2.43.0


From 0158e88a20eb318eea6ecc77f770b9c8cd0a9942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 19/50] fix: accept a postfix decrement in an expression

---
 src/parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 2c37ae3..5ad8900 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1538,7 +1538,12 @@ void read_lvalue(lvalue_t *lvalue,
             side_effect[se_idx].src1 = NULL;
             se_idx++;
 
-            side_effect[se_idx].op = lex_accept(T_increment) ? OP_add : OP_sub;
+            if (lex_accept(T_increment))
+                side_effect[se_idx].op = OP_add;
+            else {
+                lex_expect(T_decrement);
+                side_effect[se_idx].op = OP_sub;
+            }
             side_effect[se_idx].src1 = vd;
             if (lvalue->is_reference)
                 side_effect[se_idx].src0 = opstack_pop();
-- 
2.43.0


From 0c6143629b7f2dc54d7982df72415c2419449d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 20/50] fix: accept a variable that is not set on every way to
 a join

---
 src/ssa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ssa.c b/src/ssa.c
index ba9f965..9f3b123 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -722,6 +722,10 @@ void pop_name(var_t *var)
 
 void append_phi_operand(insn_t *insn, var_t *var, basic_block_t *bb_from)
 {
+    /* a variable without value on this way can not be used afterwards */
+    if (var->base && var->base->rename.stack_idx < 1)
+        return;
+
     phi_operand_t *op = calloc(1, sizeof(phi_operand_t));
     op->from = bb_from;
     op->var = get_stack_top_subscript_var(var);
-- 
2.43.0


From 021a2a33515d7abeb846c7b8615b162e464322f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 21/50] fix: leave the branches of a ternary operation from
 their last block

---
 src/parser.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 5ad8900..b52b548 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1828,8 +1828,11 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     basic_block_t *then_ = bb_create(parent);
     basic_block_t *else_ = bb_create(parent);
     basic_block_t *end_ternary = bb_create(parent);
-    bb_connect(then_, end_ternary, NEXT);
-    bb_connect(else_, end_ternary, NEXT);
+    /* the branches may contain basic blocks of their own: enter them at their
+     * first one and leave them from their last one.
+     */
+    bb_connect(*bb, then_, THEN);
+    bb_connect(*bb, else_, ELSE);
 
     /* true branch */
     ph1_ir = add_ph1_ir(OP_label);
@@ -1838,7 +1841,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->src0 = vd;
 
     read_expr(parent, &then_);
-    bb_connect(*bb, then_, THEN);
+    bb_connect(then_, end_ternary, NEXT);
 
     if (!lex_accept(T_colon)) {
         /* ternary operator in standard C needs three operands */
@@ -1867,7 +1870,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->src0 = vd;
 
     read_expr(parent, &else_);
-    bb_connect(*bb, else_, ELSE);
+    bb_connect(else_, end_ternary, NEXT);
 
     ph1_ir = add_ph1_ir(OP_assign);
     ph1_ir->src0 = opstack_pop();
-- 
2.43.0


From aa9866ae95ddc3fb4a77de803cdde6ea204cd2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 22/50] fix: return from a function that ends without a return
 statement

---
 src/reg-alloc.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 4dc5ec2..35ae7fe 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -634,14 +634,19 @@ void reg_alloc()
             if (!bb)
                 continue;
 
-            if (strcmp(fn->func->return_def.type_name, "void"))
-                continue;
-
             if (bb->insn_list.tail)
                 if (bb->insn_list.tail->opcode == OP_return)
                     continue;
 
-            ph2_ir_t *ir = bb_add_ph2_ir(bb, OP_return);
+            /* reaching the end of 'main' means success */
+            ph2_ir_t *ir;
+            if (fn->bbs == MAIN_BB) {
+                ir = bb_add_ph2_ir(bb, OP_load_constant);
+                ir->src0 = 0;
+                ir->dest = 0;
+            }
+
+            ir = bb_add_ph2_ir(bb, OP_return);
             ir->src0 = -1;
         }
     }
-- 
2.43.0


From 758a6f02dcf290873932379eea139e299421776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 23/50] fix: branch to both successors when neither comes next
 on ARM

---
 src/arm-codegen.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index 8657449..7cdfb58 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -268,11 +268,10 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
         return;
     case OP_branch:
         emit(__teq(rn));
-        if (ph2_ir->is_branch_detached) {
-            emit(__b(__NE, 8));
+        /* neither of the successors has to be the block that comes next */
+        emit(__b(__NE, ph2_ir->then_bb->elf_offset - elf_code_idx));
+        if (ph2_ir->is_branch_detached)
             emit(__b(__AL, ph2_ir->else_bb->elf_offset - elf_code_idx));
-        } else
-            emit(__b(__NE, ph2_ir->then_bb->elf_offset - elf_code_idx));
         return;
     case OP_jump:
         emit(__b(__AL, ph2_ir->next_bb->elf_offset - elf_code_idx));
-- 
2.43.0


From 0e7ea1e441aa99c13f0dbb22cc581f2f3b9cd2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 24/50] fix: emit no more code than was reserved for an
 assignment on ARM

---
 src/arm-codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index 7cdfb58..6a72eb5 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -226,7 +226,9 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
             emit(__add_i(__AL, rd, interm, ph2_ir->src0));
         return;
     case OP_assign:
-        emit(__mov_r(__AL, rd, rn));
+        /* no space is reserved for an assignment that has no effect */
+        if (rd != rn)
+            emit(__mov_r(__AL, rd, rn));
         return;
     case OP_load:
     case OP_global_load:
-- 
2.43.0


From 2fa17ecc9c05548c197c0eff9886fa14ea5f49e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 25/50] fix: keep the value of a register that is read again in
 peephole optimization

---
 src/peephole.c | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/peephole.c b/src/peephole.c
index f6e10de..9f9291a 100644
--- a/src/peephole.c
+++ b/src/peephole.c
@@ -31,12 +31,73 @@ bool is_fusible_insn(ph2_ir_t *ph2_ir)
     }
 }
 
+/* Tell whether the value of a register is still read after an instruction.
+ * Nothing is kept in the registers over the end of a basic block.
+ */
+bool is_reg_alive(ph2_ir_t *ph2_ir, int reg)
+{
+    if (ph2_ir->dest == reg)
+        return false;
+
+    for (ph2_ir_t *ir = ph2_ir->next; ir; ir = ir->next) {
+        switch (ir->op) {
+        case OP_load_constant:
+        case OP_load_data_address:
+        case OP_address_of:
+        case OP_global_address_of:
+        case OP_load:
+        case OP_global_load:
+            break;
+        case OP_call:
+        case OP_indirect:
+            /* the arguments are in the registers */
+            return true;
+        case OP_jump:
+            return false;
+        case OP_store:
+        case OP_global_store:
+        case OP_branch:
+        case OP_return:
+        case OP_load_func:
+        case OP_address_of_func:
+            if (ir->src0 == reg)
+                return true;
+            continue;
+        case OP_write:
+            if (ir->src0 == reg || ir->src1 == reg)
+                return true;
+            continue;
+        case OP_assign:
+        case OP_read:
+        case OP_negate:
+        case OP_bit_not:
+        case OP_log_not:
+            if (ir->src0 == reg)
+                return true;
+            break;
+        default:
+            if (ir->src0 == reg || ir->src1 == reg)
+                return true;
+            break;
+        }
+        if (ir->dest == reg)
+            return false;
+    }
+    return false;
+}
+
 bool insn_fusion(ph2_ir_t *ph2_ir)
 {
     ph2_ir_t *next = ph2_ir->next;
     if (!next)
         return false;
 
+    if (ph2_ir->op == OP_load_constant || next->op == OP_assign) {
+        /* the register that is not written any more must not be needed */
+        if (is_reg_alive(next, ph2_ir->dest))
+            return false;
+    }
+
     if (next->op == OP_assign) {
         if (is_fusible_insn(ph2_ir) && ph2_ir->dest == next->src0) {
             /* eliminates:
-- 
2.43.0


From d91a19af6e718920e09d4f2038b8c2bd95f3c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 26/50] fix: negate an expression in brackets

---
 src/parser.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index b52b548..db2b3c8 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -780,9 +780,10 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         read_literal_param(parent, *bb);
     else if (lex_peek(T_char, NULL))
         read_char_param(parent, *bb);
-    else if (lex_peek(T_numeric, NULL))
+    else if (lex_peek(T_numeric, NULL)) {
         read_numeric_param(parent, *bb, is_neg);
-    else if (lex_accept(T_log_not)) {
+        is_neg = 0;
+    } else if (lex_accept(T_log_not)) {
         read_expr_operand(parent, bb);
 
         ph1_ir = add_ph1_ir(OP_log_not);
@@ -1007,17 +1008,19 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
             /* unknown expression */
             error("Unrecognized expression token");
         }
+    }
 
-        if (is_neg) {
-            ph1_ir = add_ph1_ir(OP_negate);
-            ph1_ir->src0 = opstack_pop();
-            vd = require_var(parent);
-            strcpy(vd->var_name, gen_name());
-            ph1_ir->dest = vd;
-            opstack_push(vd);
-            add_insn(parent, *bb, OP_negate, ph1_ir->dest, ph1_ir->src0, NULL,
-                     0, NULL);
-        }
+    /* whatever the operand is: a variable, a call or an expression in brackets
+     */
+    if (is_neg) {
+        ph1_ir = add_ph1_ir(OP_negate);
+        ph1_ir->src0 = opstack_pop();
+        vd = require_var(parent);
+        strcpy(vd->var_name, gen_name());
+        ph1_ir->dest = vd;
+        opstack_push(vd);
+        add_insn(parent, *bb, OP_negate, ph1_ir->dest, ph1_ir->src0, NULL, 0,
+                 NULL);
     }
 }
 
-- 
2.43.0


From 1a87f2d1ba100d09ece0b47b110cdf95bc86b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 27/50] fix: do not spill the first operand to load the second
 one

---
 src/reg-alloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 35ae7fe..3d59004 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -127,9 +127,11 @@ int prepare_operand(basic_block_t *bb, var_t *var, int operand_0)
         }
     }
 
-    /* spill farthest local */
-    int spilled = 0;
+    /* spill farthest local, but not the other operand */
+    int spilled = operand_0 == 0 ? 1 : 0;
     for (i = 0; i < REG_CNT; i++) {
+        if (i == operand_0)
+            continue;
         if (!REGS[i].var)
             continue;
         if (REGS[i].var->consumed > REGS[spilled].var->consumed)
-- 
2.43.0


From bdbe8dbb39b7d933abb02f0bec646ff8a083c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 28/50] fix: write a function's address after what it overlaps
 is spilled

---
 src/reg-alloc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 3d59004..12a9ea3 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -475,6 +475,10 @@ void reg_alloc()
                     ir->dest = dest;
                     break;
                 case OP_write:
+                    /* FIXME: Avoid outdated content in register after
+                     * storing, but causing some redundant spilling.
+                     */
+                    spill_alive(bb, insn);
                     if (insn->rs2->is_func) {
                         src0 = prepare_operand(bb, insn->rs1, -1);
                         func = find_func(insn->rs2->var_name);
@@ -485,10 +489,6 @@ void reg_alloc()
                         ir->src0 = src0;
                         strcpy(ir->func_name, insn->rs2->var_name);
                     } else {
-                        /* FIXME: Avoid outdated content in register after
-                         * storing, but causing some redundant spilling.
-                         */
-                        spill_alive(bb, insn);
                         src0 = prepare_operand(bb, insn->rs1, -1);
                         src1 = prepare_operand(bb, insn->rs2, src0);
                         ir = bb_add_ph2_ir(bb, OP_write);
-- 
2.43.0


From 3e3e76f6007682d8625d6643b73b731aebca410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 29/50] fix: take an escaped backslash in a string literal as
 such

---
 src/lexer.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index d92171f..7c31797 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -327,7 +327,7 @@ token_t lex_token_internal(bool aliasing)
                 error("Unterminated string literal");
             if (i >= MAX_TOKEN_LEN - 1)
                 error("String literal too long");
-            if ((i > 0) && (token_str[i - 1] == '\\')) {
+            if (special) {
                 if (next_char == 'n')
                     token_str[i - 1] = '\n';
                 else if (next_char == '"')
@@ -344,13 +344,11 @@ token_t lex_token_internal(bool aliasing)
                     token_str[i - 1] = '\0';
                 else
                     abort();
+                special = 0;
             } else {
                 token_str[i++] = next_char;
+                special = next_char == '\\';
             }
-            if (next_char == '\\')
-                special = 1;
-            else
-                special = 0;
         }
         token_str[i] = 0;
         read_char(true);
-- 
2.43.0


From a03ecc35ecfec4b7d2fc1748725b138032b23b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 30/50] fix: keep a function's name usable after its address is
 taken

---
 src/parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index db2b3c8..8568e4c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -997,8 +997,14 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
                 add_insn(parent, *bb, OP_func_ret, ph1_ir->dest, NULL, NULL, 0,
                          NULL);
             } else {
-                /* indirective function pointer assignment */
-                vd = require_var(parent);
+                /* indirective function pointer assignment. The operand is not one
+                 * of the variables of the block: the name has to go on meaning
+                 * the function.
+                 */
+                vd = arena_alloc(INSN_ARENA, sizeof(var_t));
+                clear_object(vd, sizeof(var_t));
+                vd->consumed = -1;
+                vd->base = vd;
                 vd->is_func = true;
                 strcpy(vd->var_name, token);
                 opstack_push(vd);
-- 
2.43.0


From 7cf47abb107c64cd017fe6c634c13d7b16fce556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 31/50] fix: terminate the source text and grow its buffer as
 needed

The text of a source was not terminated when no line was read, so the lexer
went on with whatever the memory held before, and a source larger than the
buffer was written past its end.
---
 src/parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 8568e4c..1859356 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3466,8 +3466,9 @@ void load_source_file(char *file)
             snprintf(path + c, inclusion_path_len + 1, "%s", buffer + 10);
             load_source_file(path);
         } else {
-            strcpy(SOURCE->elements + SOURCE->size, buffer);
-            SOURCE->size += strlen(buffer);
+            for (int i = 0; buffer[i]; i++)
+                if (!source_push(SOURCE, buffer[i]))
+                    abort();
         }
     }
     fclose(f);
@@ -3476,5 +3477,8 @@ void load_source_file(char *file)
 void parse(char *file)
 {
     load_source_file(file);
+    /* the end of the source is the terminating null character */
+    if (!source_push(SOURCE, 0))
+        abort();
     parse_internal();
 }
-- 
2.43.0


From aab811ec9101a2e9605ce650497f0c886ecfe2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 32/50] fix: do not print an unset token in a diagnostic

---
 src/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.c b/src/parser.c
index 1859356..9e60224 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -882,6 +882,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         /* function call, constant or variable - read token and determine */
         opcode_t prefix_op = OP_generic;
         char token[MAX_ID_LEN];
+        token[0] = 0;
 
         if (lex_accept(T_increment))
             prefix_op = OP_add;
-- 
2.43.0


From 204cc94f4f93441255910515b22495d73ed2b045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 33/50] fix: reject what does not fit into a table instead of
 writing past its end

---
 src/defs.h    | 16 +++++++----
 src/elf.c     | 16 +++++++++--
 src/globals.c | 32 +++++++++++++++++++--
 src/lexer.c   | 17 +++++++++--
 src/parser.c  | 78 ++++++++++++++++++++++++++++++++++++++-------------
 src/ssa.c     | 60 +++++++++++++++++++++++++++++++++------
 6 files changed, 180 insertions(+), 39 deletions(-)

diff --git a/src/defs.h b/src/defs.h
index db2485a..1195c92 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -28,7 +28,7 @@
 #define MAX_GLOBAL_IR 256
 #define MAX_LABEL 4096
 #define MAX_SOURCE 524288
-#define MAX_CODE 262144
+#define MAX_CODE 524288
 #define MAX_DATA 262144
 #define MAX_SYMTAB 65536
 #define MAX_STRTAB 65536
@@ -39,6 +39,12 @@
 #define MAX_CASES 128
 #define MAX_NESTING 128
 #define MAX_OPERAND_STACK_SIZE 32
+#define MAX_EXPR_OPERATORS 10
+#define MAX_SIDE_EFFECTS 10
+#define MAX_RENAMES 64
+#define MAX_BB_DF 128
+#define MAX_PHI_WORK_LIST 64
+#define MAX_DCE_WORK_LIST 2048
 #define MAX_ANALYSIS_STACK_SIZE 800
 
 /* Default capacities for common data structures */
@@ -161,7 +167,7 @@ typedef enum {
 /* variable definition */
 typedef struct {
     int counter;
-    int stack[64];
+    int stack[MAX_RENAMES];
     int stack_idx;
 } rename_t;
 
@@ -195,7 +201,7 @@ struct var {
     int in_loop;
     struct var *base;
     int subscript;
-    struct var *subscripts[64];
+    struct var *subscripts[MAX_RENAMES];
     int subscripts_idx;
     rename_t rename;
     ref_block_list_t ref_block_list; /* blocks which kill variable */
@@ -420,8 +426,8 @@ struct basic_block {
     int live_out_idx;
     int rpo;
     int rpo_r;
-    struct basic_block *DF[64];
-    struct basic_block *RDF[64];
+    struct basic_block *DF[MAX_BB_DF];
+    struct basic_block *RDF[MAX_BB_DF];
     int df_idx;
     int rdf_idx;
     int visited;
diff --git a/src/elf.c b/src/elf.c
index 713f6be..f90601b 100644
--- a/src/elf.c
+++ b/src/elf.c
@@ -18,10 +18,16 @@ void elf_write_section_str(char *vals, int len)
         elf_section[elf_section_index++] = vals[i];
 }
 
+void elf_write_data_byte(char val)
+{
+    require_room(elf_data_idx, MAX_DATA, "Too much data");
+    elf_data[elf_data_idx++] = val;
+}
+
 void elf_write_data_str(char *vals, int len)
 {
     for (int i = 0; i < len; i++)
-        elf_data[elf_data_idx++] = vals[i];
+        elf_write_data_byte(vals[i]);
 }
 
 void elf_write_header_byte(int val)
@@ -31,6 +37,7 @@ void elf_write_header_byte(int val)
 
 void elf_write_section_byte(char val)
 {
+    require_room(elf_section_index, MAX_SECTION, "Too many symbols");
     elf_section[elf_section_index++] = val;
 }
 
@@ -53,16 +60,19 @@ void elf_write_header_int(int val)
 
 void elf_write_section_int(int val)
 {
+    require_room(elf_section_index + 3, MAX_SECTION, "Too many symbols");
     elf_section_index = elf_write_int(elf_section, elf_section_index, val);
 }
 
 void elf_write_symbol_int(int val)
 {
+    require_room(elf_symtab_index + 3, MAX_SYMTAB, "Too many symbols");
     elf_symtab_index = elf_write_int(elf_symtab, elf_symtab_index, val);
 }
 
 void elf_write_code_int(int val)
 {
+    require_room(elf_code_idx + 3, MAX_CODE, "Too much code");
     elf_code_idx = elf_write_int(elf_code, elf_code_idx, val);
 }
 
@@ -215,7 +225,7 @@ void elf_generate_sections()
 void elf_align()
 {
     while (elf_data_idx & 3)
-        elf_data[elf_data_idx++] = 0;
+        elf_write_data_byte(0);
 
     while (elf_symtab_index & 3)
         elf_symtab[elf_symtab_index++] = 0;
@@ -231,6 +241,8 @@ void elf_add_symbol(char *symbol, int len, int pc)
     elf_write_symbol_int(0);
     elf_write_symbol_int(pc == 0 ? 0 : 1 << 16);
 
+    /* the name, what ends it and what aligns the table */
+    require_room(elf_strtab_index + len + 3, MAX_STRTAB, "Too many symbols");
     strncpy(elf_strtab + elf_strtab_index, symbol, len);
     elf_strtab_index += len;
     elf_strtab[elf_strtab_index++] = 0;
diff --git a/src/globals.c b/src/globals.c
index 6161467..2035b4b 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -431,8 +431,24 @@ type_t *find_type(char *type_name, int flag)
     return NULL;
 }
 
+void error(char *msg);
+
+/**
+ * require_room() - ensures that a table of fixed size can hold one more
+ * element, and gives up otherwise.
+ * @used: The number of elements in the table.
+ * @capacity: The number of elements that the table can hold.
+ * @msg: What to report if the table is full.
+ */
+void require_room(int used, int capacity, char *msg)
+{
+    if (used >= capacity)
+        error(msg);
+}
+
 ph1_ir_t *add_global_ir(opcode_t op)
 {
+    require_room(global_ir_idx, MAX_GLOBAL_IR, "Too many global operations");
     ph1_ir_t *ir = &GLOBAL_IR[global_ir_idx++];
     clear_object(ir, sizeof(ph1_ir_t));
     ir->op = op;
@@ -441,6 +457,8 @@ ph1_ir_t *add_global_ir(opcode_t op)
 
 ph1_ir_t *add_ph1_ir(opcode_t op)
 {
+    require_room(ph1_ir_idx, MAX_IR_INSTR, "Too many operations");
+
     ph1_ir_t *ph1_ir = &PH1_IR[ph1_ir_idx++];
     clear_object(ph1_ir, sizeof(ph1_ir_t));
     ph1_ir->op = op;
@@ -449,6 +467,7 @@ ph1_ir_t *add_ph1_ir(opcode_t op)
 
 ph2_ir_t *add_existed_ph2_ir(ph2_ir_t *ph2_ir)
 {
+    require_room(ph2_ir_idx, MAX_IR_INSTR, "Too many operations");
     PH2_IR_FLATTEN[ph2_ir_idx++] = ph2_ir;
     return ph2_ir;
 }
@@ -469,6 +488,8 @@ void set_var_liveout(var_t *var, int end)
 
 void add_label(char *name, int offset)
 {
+    require_room(label_lut_idx, MAX_LABEL, "Too many labels");
+
     label_lut_t *lut = &LABEL_LUT[label_lut_idx++];
     strcpy(lut->name, name);
     lut->offset = offset;
@@ -506,6 +527,8 @@ block_t *add_block(block_t *parent, func_t *func, macro_t *macro)
 
 void add_alias(char *alias, char *value)
 {
+    require_room(aliases_idx, MAX_ALIASES, "Too many aliases");
+
     alias_t *al = &ALIASES[aliases_idx++];
     strcpy(al->alias, alias);
     strcpy(al->value, value);
@@ -534,6 +557,8 @@ bool remove_alias(char *alias)
 
 macro_t *add_macro(char *name)
 {
+    require_room(macros_idx, MAX_ALIASES, "Too many macros");
+
     macro_t *ma = &MACROS[macros_idx++];
     clear_object(ma, sizeof(macro_t));
     strcpy(ma->name, name);
@@ -561,7 +586,6 @@ bool remove_macro(char *name)
     return false;
 }
 
-void error(char *msg);
 int find_macro_param_src_idx(char *name, block_t *parent)
 {
     macro_t *macro = parent->macro;
@@ -601,6 +625,8 @@ func_t *add_func(char *name)
 
 type_t *add_type()
 {
+    require_room(types_idx, MAX_TYPES, "Too many types");
+
     type_t *type = &TYPES[types_idx++];
     clear_object(type, sizeof(type_t));
     return type;
@@ -615,6 +641,8 @@ type_t *add_named_type(char *name)
 
 void add_constant(char alias[], int value)
 {
+    require_room(constants_idx, MAX_CONSTANTS, "Too many constants");
+
     constant_t *constant = &CONSTANTS[constants_idx++];
     strcpy(constant->alias, alias);
     constant->value = value;
@@ -747,7 +775,7 @@ void bb_connect(basic_block_t *pred,
         abort();
 
     int i = 0;
-    while (succ->prev[i].bb)
+    while (i < MAX_BB_PRED && succ->prev[i].bb)
         i++;
 
     if (i > MAX_BB_PRED - 1) {
diff --git a/src/lexer.c b/src/lexer.c
index 7c31797..77853ab 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -201,6 +201,7 @@ token_t lex_token_internal(bool aliasing)
         int i = 0;
 
         do {
+            require_room(i, MAX_TOKEN_LEN - 1, "Directive too long");
             token_str[i++] = next_char;
         } while (is_alnum(read_char(false)));
         token_str[i] = 0;
@@ -270,6 +271,7 @@ token_t lex_token_internal(bool aliasing)
     if (is_digit(next_char)) {
         int i = 0;
         do {
+            require_room(i, MAX_TOKEN_LEN - 1, "Numeric constant too long");
             token_str[i++] = next_char;
         } while (is_hex(read_char(false)));
         token_str[i] = 0;
@@ -545,6 +547,7 @@ token_t lex_token_internal(bool aliasing)
         char *alias;
         int i = 0;
         do {
+            require_room(i, MAX_TOKEN_LEN - 1, "Identifier too long");
             token_str[i++] = next_char;
         } while (is_alnum(read_char(false)));
         token_str[i] = 0;
@@ -669,6 +672,16 @@ bool lex_accept(token_t token)
     return lex_accept_internal(token, 1);
 }
 
+/* Copies token's literal to value. Only string literals may be longer than
+ * what the name of a variable, function or type has room for.
+ */
+void copy_token_str(token_t token, char *value)
+{
+    if (token != T_string)
+        require_room(strlen(token_str), MAX_VAR_LEN, "Token too long");
+    strcpy(value, token_str);
+}
+
 /* Peeks next token and copy token's literal to value if token types are
  * matched.
  */
@@ -677,7 +690,7 @@ bool lex_peek(token_t token, char *value)
     if (next_token == token) {
         if (!value)
             return true;
-        strcpy(value, token_str);
+        copy_token_str(token, value);
         return true;
     }
     return false;
@@ -690,7 +703,7 @@ void lex_ident_internal(token_t token, char *value, bool aliasing)
 {
     if (next_token != token)
         error("Unexpected token");
-    strcpy(value, token_str);
+    copy_token_str(token, value);
     next_token = lex_token_internal(aliasing);
 }
 
diff --git a/src/parser.c b/src/parser.c
index 9e60224..62339eb 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -43,14 +43,26 @@ int operand_stack_idx = 0;
 
 void opstack_push(var_t *var)
 {
+    require_room(operand_stack_idx, MAX_OPERAND_STACK_SIZE,
+                 "Too many operands");
     operand_stack[operand_stack_idx++] = var;
 }
 
 var_t *opstack_pop()
 {
+    if (operand_stack_idx < 1)
+        error("Missing operand");
     return operand_stack[--operand_stack_idx];
 }
 
+/* the operand to be popped next */
+var_t *opstack_top()
+{
+    if (operand_stack_idx < 1)
+        error("Missing operand");
+    return operand_stack[operand_stack_idx - 1];
+}
+
 void read_expr(block_t *parent, basic_block_t **bb);
 
 int write_symbol(char *data, int len)
@@ -364,7 +376,7 @@ bool read_preproc_directive()
 {
     char token[MAX_ID_LEN];
 
-    if (lex_peek(T_cppd_include, token)) {
+    if (lex_peek(T_cppd_include, NULL)) {
         lex_expect(T_cppd_include);
 
         /* Basic #define syntax validation */
@@ -393,7 +405,8 @@ bool read_preproc_directive()
         if (lex_peek(T_numeric, value)) {
             lex_expect(T_numeric);
             add_alias(alias, value);
-        } else if (lex_peek(T_string, value)) {
+        } else if (lex_peek(T_string, NULL)) {
+            copy_token_str(T_identifier, value);
             lex_expect(T_string);
             add_alias(alias, value);
         } else if (lex_peek(T_identifier, value)) {
@@ -405,6 +418,8 @@ bool read_preproc_directive()
             skip_newline = false;
             while (lex_peek(T_identifier, alias)) {
                 lex_expect(T_identifier);
+                require_room(macro->num_param_defs, MAX_PARAMS,
+                             "Too many macro parameters");
                 strcpy(macro->param_defs[macro->num_param_defs++].var_name,
                        alias);
                 lex_accept(T_comma);
@@ -422,12 +437,11 @@ bool read_preproc_directive()
 
         return true;
     }
-    if (lex_peek(T_cppd_undef, token)) {
+    if (lex_peek(T_cppd_undef, NULL)) {
         char alias[MAX_VAR_LEN];
 
         lex_expect_internal(T_cppd_undef, false);
-        lex_peek(T_identifier, alias);
-        lex_expect(T_identifier);
+        lex_ident(T_identifier, alias);
 
         remove_alias(alias);
         remove_macro(alias);
@@ -556,7 +570,7 @@ void read_inner_var_decl(var_t *vd, int anon, int is_param)
             }
         }
         if (lex_accept(T_open_square)) {
-            char buffer[10];
+            char buffer[MAX_ID_LEN];
 
             /* array with size */
             if (lex_peek(T_numeric, buffer)) {
@@ -596,6 +610,7 @@ void read_parameter_list_decl(func_t *fd, int anon)
     int vn = 0;
     lex_expect(T_open_bracket);
     while (lex_peek(T_identifier, NULL) == 1) {
+        require_room(vn, MAX_PARAMS, "Too many parameters");
         read_full_var_decl(&fd->param_defs[vn++], anon, 1);
         lex_accept(T_comma);
     }
@@ -685,7 +700,7 @@ void read_numeric_param(block_t *parent, basic_block_t *bb, int is_neg)
 
 void read_char_param(block_t *parent, basic_block_t *bb)
 {
-    char token[5];
+    char token[MAX_ID_LEN];
 
     lex_ident(T_char, token);
 
@@ -713,6 +728,7 @@ void read_func_parameters(block_t *parent, basic_block_t **bb)
         read_expr(parent, bb);
         read_ternary_operation(parent, bb);
 
+        require_room(param_num, MAX_PARAMS, "Too many arguments");
         params[param_num++] = opstack_pop();
         lex_accept(T_comma);
     }
@@ -748,7 +764,7 @@ void read_indirect_call(block_t *parent, basic_block_t **bb)
     add_insn(parent, *bb, OP_indirect, NULL, ph1_ir->src0, NULL, 0, NULL);
 }
 
-ph1_ir_t side_effect[10];
+ph1_ir_t side_effect[MAX_SIDE_EFFECTS];
 int se_idx = 0;
 
 void read_lvalue(lvalue_t *lvalue,
@@ -928,6 +944,8 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
 
             /* 'size' has pointed at the first parameter */
             while (!lex_peek(T_close_bracket, NULL)) {
+                require_room(mac->num_params, MAX_PARAMS,
+                             "Too many macro arguments");
                 mac->params[mac->num_params++] = SOURCE->size;
                 do {
                     next_token = lex_token();
@@ -1046,7 +1064,7 @@ void read_expr(block_t *parent, basic_block_t **bb)
 {
     ph1_ir_t *ph1_ir;
     var_t *vd;
-    opcode_t oper_stack[10];
+    opcode_t oper_stack[MAX_EXPR_OPERATORS];
     int oper_stack_idx = 0;
 
     /* These variables used for parsing logical-and/or operation.
@@ -1211,8 +1229,11 @@ void read_expr(block_t *parent, basic_block_t **bb)
             }
         }
         read_expr_operand(parent, bb);
-        if (!is_logical(op))
+        if (!is_logical(op)) {
+            require_room(oper_stack_idx, MAX_EXPR_OPERATORS,
+                         "Too many operators");
             oper_stack[oper_stack_idx++] = op;
+        }
         op = get_operator();
     }
 
@@ -1490,7 +1511,7 @@ void read_lvalue(lvalue_t *lvalue,
          */
         if (lvalue->is_reference) {
             ph1_ir = add_ph1_ir(OP_read);
-            ph1_ir->src0 = operand_stack[operand_stack_idx - 1];
+            ph1_ir->src0 = opstack_top();
             t = require_var(parent);
             ph1_ir->size = lvalue->size;
             strcpy(t->var_name, gen_name());
@@ -1514,7 +1535,7 @@ void read_lvalue(lvalue_t *lvalue,
             if (lvalue->is_reference)
                 ph1_ir->src0 = opstack_pop();
             else
-                ph1_ir->src0 = operand_stack[operand_stack_idx - 1];
+                ph1_ir->src0 = opstack_top();
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
             ph1_ir->dest = vd;
@@ -1534,11 +1555,13 @@ void read_lvalue(lvalue_t *lvalue,
             } else {
                 ph1_ir = add_ph1_ir(OP_assign);
                 ph1_ir->src0 = vd;
-                ph1_ir->dest = operand_stack[operand_stack_idx - 1];
+                ph1_ir->dest = opstack_top();
                 add_insn(parent, *bb, OP_assign, ph1_ir->dest, ph1_ir->src0,
                          NULL, 0, NULL);
             }
         } else if (lex_peek(T_increment, NULL) || lex_peek(T_decrement, NULL)) {
+            /* up to three operations will be added */
+            require_room(se_idx + 2, MAX_SIDE_EFFECTS, "Too many side effects");
             side_effect[se_idx].op = OP_load_constant;
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
@@ -1558,7 +1581,7 @@ void read_lvalue(lvalue_t *lvalue,
             if (lvalue->is_reference)
                 side_effect[se_idx].src0 = opstack_pop();
             else
-                side_effect[se_idx].src0 = operand_stack[operand_stack_idx - 1];
+                side_effect[se_idx].src0 = opstack_top();
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
             side_effect[se_idx].dest = vd;
@@ -1575,7 +1598,7 @@ void read_lvalue(lvalue_t *lvalue,
             } else {
                 side_effect[se_idx].op = OP_assign;
                 side_effect[se_idx].src0 = vd;
-                side_effect[se_idx].dest = operand_stack[operand_stack_idx - 1];
+                side_effect[se_idx].dest = opstack_top();
                 side_effect[se_idx].src1 = NULL;
                 se_idx++;
             }
@@ -2115,7 +2138,7 @@ int read_primary_constant()
 {
     /* return signed constant */
     int isneg = 0, res;
-    char buffer[10];
+    char buffer[MAX_ID_LEN];
     if (lex_accept(T_minus))
         isneg = 1;
     if (lex_accept(T_open_bracket)) {
@@ -2225,9 +2248,9 @@ bool read_global_assignment(char *token)
     /* global initialization must be constant */
     var_t *var = find_global_var(token);
     if (var) {
-        opcode_t op_stack[10];
+        opcode_t op_stack[MAX_EXPR_OPERATORS];
         opcode_t op, next_op;
-        int val_stack[10];
+        int val_stack[MAX_EXPR_OPERATORS];
         int op_stack_index = 0, val_stack_index = 0;
         int operand1, operand2;
         operand1 = read_primary_constant();
@@ -2314,6 +2337,8 @@ bool read_global_assignment(char *token)
                 } while (op_stack_index > 0 && same_op == 0);
             }
             /* push next operand on stack */
+            require_room(val_stack_index, MAX_EXPR_OPERATORS,
+                         "Too many operators");
             val_stack[val_stack_index++] = read_primary_constant();
             /* push operator on stack */
             op_stack[op_stack_index++] = op;
@@ -2561,6 +2586,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         bb_connect(bb, n, NEXT);
         bb = n;
 
+        require_room(continue_pos_idx, MAX_NESTING, "Too many nested loops");
+        require_room(break_exit_idx, MAX_NESTING, "Too many nested loops");
         continue_bb[continue_pos_idx] = bb;
 
         ph1_ir = add_ph1_ir(OP_label);
@@ -2640,6 +2667,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         /* create exit jump for breaks */
         var_t *var_break = require_var(parent);
+        require_room(break_exit_idx, MAX_NESTING, "Too many nested switches");
         break_exit[break_exit_idx++] = var_break;
         basic_block_t *switch_end = bb_create(parent);
         break_bb[break_exit_idx - 1] = switch_end;
@@ -2680,7 +2708,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 vd = require_var(parent);
                 strcpy(vd->var_name, gen_name());
                 ph1_ir->src0 = opstack_pop();
-                ph1_ir->src1 = operand_stack[operand_stack_idx - 1];
+                ph1_ir->src1 = opstack_top();
                 vd = require_var(parent);
                 strcpy(vd->var_name, gen_name());
                 ph1_ir->dest = vd;
@@ -2786,6 +2814,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
     }
 
     if (lex_accept(T_break)) {
+        if (break_exit_idx < 1)
+            error("Unexpected break");
         ph1_ir = add_ph1_ir(OP_jump);
         ph1_ir->dest = break_exit[break_exit_idx - 1];
         bb_connect(bb, break_bb[break_exit_idx - 1], NEXT);
@@ -2794,6 +2824,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
     }
 
     if (lex_accept(T_continue)) {
+        if (continue_pos_idx < 1)
+            error("Unexpected continue");
         ph1_ir = add_ph1_ir(OP_jump);
         ph1_ir->dest = continue_pos[continue_pos_idx - 1];
         bb_connect(bb, continue_bb[continue_pos_idx - 1], NEXT);
@@ -2872,6 +2904,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         basic_block_t *cond_ = bb_create(blk);
         basic_block_t *for_end = bb_create(parent);
         basic_block_t *cond_start = cond_;
+        require_room(break_exit_idx, MAX_NESTING, "Too many nested loops");
         break_bb[break_exit_idx] = for_end;
         bb_connect(setup, cond_, NEXT);
 
@@ -2912,6 +2945,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         break_exit[break_exit_idx++] = var_break;
 
         basic_block_t *inc_ = bb_create(blk);
+        require_room(continue_pos_idx, MAX_NESTING, "Too many nested loops");
         continue_bb[continue_pos_idx] = inc_;
 
         /* increment after each loop */
@@ -2992,6 +3026,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         var_condition = require_var(parent);
         strcpy(var_condition->var_name, gen_label());
 
+        require_room(continue_pos_idx, MAX_NESTING, "Too many nested loops");
+        require_room(break_exit_idx, MAX_NESTING, "Too many nested loops");
         continue_bb[continue_pos_idx] = cond_;
         continue_pos[continue_pos_idx++] = var_condition;
 
@@ -3114,6 +3150,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         /* 'size' has pointed at the first parameter */
         while (!lex_peek(T_close_bracket, NULL)) {
+            require_room(mac->num_params, MAX_PARAMS,
+                         "Too many macro arguments");
             mac->params[mac->num_params++] = SOURCE->size;
             do {
                 next_token = lex_token();
@@ -3269,6 +3307,7 @@ void read_global_statement()
         strcpy(type->type_name, token);
         lex_expect(T_open_curly);
         do {
+            require_room(i, MAX_FIELDS, "Too many fields");
             var_t *v = &type->fields[i++];
             read_full_var_decl(v, 0, 1);
             v->offset = size;
@@ -3322,6 +3361,7 @@ void read_global_statement()
             if (lex_accept(T_open_curly)) {
                 has_struct_def = 1;
                 do {
+                    require_room(i, MAX_FIELDS, "Too many fields");
                     var_t *v = &type->fields[i++];
                     read_full_var_decl(v, 0, 1);
                     v->offset = size;
diff --git a/src/ssa.c b/src/ssa.c
index 9f3b123..cd8e42e 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -226,6 +226,12 @@ void build_dom()
     free(args);
 }
 
+void bb_add_df(basic_block_t *bb, basic_block_t *df)
+{
+    require_room(bb->df_idx, MAX_BB_DF, "Too many joins");
+    bb->DF[bb->df_idx++] = df;
+}
+
 void bb_build_df(fn_t *fn, basic_block_t *bb)
 {
     UNUSED(fn);
@@ -242,7 +248,7 @@ void bb_build_df(fn_t *fn, basic_block_t *bb)
         if (bb->prev[i].bb) {
             for (basic_block_t *curr = bb->prev[i].bb; curr != bb->idom;
                  curr = curr->idom)
-                curr->DF[curr->df_idx++] = bb;
+                bb_add_df(curr, bb);
         }
     }
 }
@@ -356,6 +362,12 @@ void build_rdom()
     free(args);
 }
 
+void bb_add_rdf(basic_block_t *bb, basic_block_t *rdf)
+{
+    require_room(bb->rdf_idx, MAX_BB_DF, "Too many branches");
+    bb->RDF[bb->rdf_idx++] = rdf;
+}
+
 void bb_build_rdf(fn_t *fn, basic_block_t *bb)
 {
     UNUSED(fn);
@@ -373,17 +385,17 @@ void bb_build_rdf(fn_t *fn, basic_block_t *bb)
     if (bb->next) {
         for (basic_block_t *curr = bb->next; curr != bb->r_idom;
              curr = curr->r_idom)
-            curr->RDF[curr->rdf_idx++] = bb;
+            bb_add_rdf(curr, bb);
     }
     if (bb->else_) {
         for (basic_block_t *curr = bb->else_; curr != bb->r_idom;
              curr = curr->r_idom)
-            curr->RDF[curr->rdf_idx++] = bb;
+            bb_add_rdf(curr, bb);
     }
     if (bb->then_) {
         for (basic_block_t *curr = bb->then_; curr != bb->r_idom;
              curr = curr->r_idom)
-            curr->RDF[curr->rdf_idx++] = bb;
+            bb_add_rdf(curr, bb);
     }
 }
 
@@ -470,6 +482,8 @@ void bb_add_killed_var(basic_block_t *bb, var_t *var)
     if (found)
         return;
 
+    require_room(bb->live_kill_idx, MAX_ANALYSIS_STACK_SIZE,
+                 "Too many variables");
     bb->live_kill[bb->live_kill_idx++] = var;
 }
 
@@ -610,12 +624,15 @@ void solve_phi_insertion()
         for (symbol_t *sym = fn->global_sym_list.head; sym; sym = sym->next) {
             var_t *var = sym->var;
 
-            basic_block_t *work_list[64];
+            basic_block_t *work_list[MAX_PHI_WORK_LIST];
             int work_list_idx = 0;
 
             for (ref_block_t *ref = var->ref_block_list.head; ref;
-                 ref = ref->next)
+                 ref = ref->next) {
+                require_room(work_list_idx, MAX_PHI_WORK_LIST,
+                             "Too many assignments");
                 work_list[work_list_idx++] = ref->bb;
+            }
 
             for (int i = 0; i < work_list_idx; i++) {
                 basic_block_t *bb = work_list[i];
@@ -659,8 +676,11 @@ void solve_phi_insertion()
                                 found = true;
                                 break;
                             }
-                        if (!found)
+                        if (!found) {
+                            require_room(work_list_idx, MAX_PHI_WORK_LIST,
+                                         "Too many assignments");
                             work_list[work_list_idx++] = df;
+                        }
                     }
                 }
             }
@@ -678,6 +698,11 @@ void new_name(block_t *block, var_t **var)
     if (v->is_global)
         return;
 
+    require_room(v->base->rename.stack_idx, MAX_RENAMES,
+                 "Too many assignments to a variable");
+    require_room(v->subscripts_idx, MAX_RENAMES,
+                 "Too many assignments to a variable");
+
     int i = v->base->rename.counter++;
     v->base->rename.stack[v->base->rename.stack_idx++] = i;
     var_t *vd = require_var(block);
@@ -803,6 +828,10 @@ void solve_phi_params()
             var->base = base;
             var->subscript = 0;
 
+            require_room(base->rename.stack_idx, MAX_RENAMES,
+                         "Too many definitions of a function");
+            require_room(base->subscripts_idx, MAX_RENAMES,
+                         "Too many definitions of a function");
             base->rename.stack[base->rename.stack_idx++] =
                 base->rename.counter++;
             base->subscripts[base->subscripts_idx++] = var;
@@ -1450,7 +1479,7 @@ int dce_init_mark(insn_t *insn, insn_t *work_list[], int work_list_idx)
 /* Dead Code Elimination (DCE) */
 void dce_insn(basic_block_t *bb)
 {
-    insn_t *work_list[2048];
+    insn_t *work_list[MAX_DCE_WORK_LIST];
     int work_list_idx = 0;
 
     /* initially analyze current bb*/
@@ -1473,6 +1502,8 @@ void dce_insn(basic_block_t *bb)
             if (!rs1_insn->useful) {
                 rs1_insn->useful = true;
                 rs1_insn->belong_to->useful = true;
+                require_room(work_list_idx, MAX_DCE_WORK_LIST,
+                             "Too many instructions");
                 work_list[work_list_idx++] = rs1_insn;
             }
         }
@@ -1481,6 +1512,8 @@ void dce_insn(basic_block_t *bb)
             if (!rs2_insn->useful) {
                 rs2_insn->useful = true;
                 rs2_insn->belong_to->useful = true;
+                require_room(work_list_idx, MAX_DCE_WORK_LIST,
+                             "Too many instructions");
                 work_list[work_list_idx++] = rs2_insn;
             }
         }
@@ -1494,6 +1527,8 @@ void dce_insn(basic_block_t *bb)
             if (tail->opcode == OP_branch && !tail->useful) {
                 tail->useful = true;
                 rdf->useful = true;
+                require_room(work_list_idx, MAX_DCE_WORK_LIST,
+                             "Too many instructions");
                 work_list[work_list_idx++] = tail;
             }
         }
@@ -1646,6 +1681,8 @@ void add_live_gen(basic_block_t *bb, var_t *var)
         if (bb->live_gen[i] == var)
             return;
     }
+    require_room(bb->live_gen_idx, MAX_ANALYSIS_STACK_SIZE,
+                 "Too many variables");
     bb->live_gen[bb->live_gen_idx++] = var;
 }
 
@@ -1685,6 +1722,8 @@ void add_live_in(basic_block_t *bb, var_t *var)
         if (bb->live_in[i] == var)
             return;
     }
+    require_room(bb->live_in_idx, MAX_ANALYSIS_STACK_SIZE,
+                 "Too many variables");
     bb->live_in[bb->live_in_idx++] = var;
 }
 
@@ -1711,8 +1750,11 @@ int merge_live_in(var_t *live_out[], int live_out_idx, basic_block_t *bb)
                 break;
             }
         }
-        if (!found)
+        if (!found) {
+            require_room(live_out_idx, MAX_ANALYSIS_STACK_SIZE,
+                         "Too many variables");
             live_out[live_out_idx++] = bb->live_in[i];
+        }
     }
     return live_out_idx;
 }
-- 
2.43.0


From 11c301f980cc4d3b7c3ed85553612ab716d85209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 34/50] fix: end a comment at its first end and divide by what
 a pointer points at

---
 src/lexer.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 77853ab..151db55 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -231,20 +231,19 @@ token_t lex_token_internal(bool aliasing)
     }
 
     if (next_char == '/') {
-        read_char(true);
+        read_char(false);
 
         /* C-style comments */
         if (next_char == '*') {
             /* in a comment, skip until end */
+            read_char(false);
             do {
-                read_char(false);
-                if (next_char == '*') {
+                if (next_char == '*' && peek_char(1) == '/') {
                     read_char(false);
-                    if (next_char == '/') {
-                        read_char(true);
-                        return lex_token_internal(aliasing);
-                    }
+                    read_char(true);
+                    return lex_token_internal(aliasing);
                 }
+                read_char(false);
             } while (next_char);
 
             if (!next_char)
@@ -265,6 +264,7 @@ token_t lex_token_internal(bool aliasing)
             return T_divideeq;
         }
 
+        skip_whitespace();
         return T_divide;
     }
 
-- 
2.43.0


From 72ef799d2b613616ba8d99594b41b0c0b4b06961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 35/50] fix: evaluate preprocessor conditions of more than two
 operands

---
 src/parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 62339eb..b5c849f 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -233,6 +233,9 @@ int read_constant_expr_operand()
     return -1;
 }
 
+/* the operator following the operand read last, taken already */
+opcode_t constant_infix_op;
+
 int read_constant_infix_expr(int precedence)
 {
     int lhs, rhs;
@@ -260,10 +263,11 @@ int read_constant_infix_expr(int precedence)
         }
     } else {
         lhs = read_constant_expr_operand();
+        constant_infix_op = get_operator();
     }
 
     while (true) {
-        op = get_operator();
+        op = constant_infix_op;
         current_precedence = get_operator_prio(op);
 
         if (current_precedence == 0 || current_precedence <= precedence) {
@@ -327,8 +331,6 @@ int read_constant_infix_expr(int precedence)
         default:
             error("Unexpected infix token while evaluating constant");
         }
-
-        op = get_operator();
     }
 
     return lhs;
-- 
2.43.0


From 46f57505ae99833fbf13761c9fa335c39c61735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 36/50] fix: take an inclusion from a directory spelled at any
 length

---
 src/parser.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index b5c849f..c0b3911 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3490,7 +3490,6 @@ void load_source_file(char *file)
             return;
         }
         if (!strncmp(buffer, "#include ", 9) && (buffer[9] == '"')) {
-            char path[MAX_LINE_LEN];
             int c = strlen(file), inclusion_path_len = 0;
             /* the path ends at the closing quote, which the end of the file may
              * follow instead of a newline
@@ -3501,6 +3500,12 @@ void load_source_file(char *file)
             /* 'c' is the length of the directory name, including the slash */
             while (c > 0 && file[c - 1] != '/')
                 c--;
+
+            /* the directory is as long as the caller has spelled it */
+            char *path = malloc(c + inclusion_path_len + 1);
+            if (!path)
+                abort();
+
             if (c) {
                 /* prepend directory name */
                 snprintf(path, c + 1, "%s", file);
@@ -3508,6 +3513,7 @@ void load_source_file(char *file)
 
             snprintf(path + c, inclusion_path_len + 1, "%s", buffer + 10);
             load_source_file(path);
+            free(path);
         } else {
             for (int i = 0; buffer[i]; i++)
                 if (!source_push(SOURCE, buffer[i]))
-- 
2.43.0


From 28da376d4b4d9715d8eb31ad2a8c0e0801b4d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:34 +0000
Subject: [PATCH 37/50] fix: let a macro argument and what follows a macro go
 over lines

---
 src/lexer.c  | 4 +++-
 src/parser.c | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 151db55..74cb0d5 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -610,9 +610,11 @@ token_t lex_token_internal(bool aliasing)
      * macro definition or return to where the macro has been called.
      */
     if (next_char == '\n') {
-        if (macro_return_idx) {
+        if (macro_return_idx && !skip_newline) {
+            skip_newline = true;
             SOURCE->size = macro_return_idx;
             next_char = SOURCE->elements[SOURCE->size];
+            skip_whitespace();
         } else
             next_char = read_char(true);
         return lex_token_internal(aliasing);
diff --git a/src/parser.c b/src/parser.c
index c0b3911..a39af1f 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -958,9 +958,9 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
             macro_return_idx = SOURCE->size;
             SOURCE->size = mac->start_source_idx;
             next_char = SOURCE->elements[SOURCE->size];
+            skip_newline = 0;
             lex_expect(T_close_bracket);
 
-            skip_newline = 0;
             read_expr(parent, bb);
 
             /* cleanup */
@@ -970,10 +970,14 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         } else if (macro_param_idx) {
             /* "expand" the argument from where it comes from */
             int t = SOURCE->size;
+            bool skip = skip_newline;
+            /* an argument may go over lines, unlike the macro body */
+            skip_newline = true;
             SOURCE->size = macro_param_idx;
             next_char = SOURCE->elements[SOURCE->size];
             next_token = lex_token();
             read_expr(parent, bb);
+            skip_newline = skip;
             SOURCE->size = t;
             next_char = SOURCE->elements[SOURCE->size];
             next_token = lex_token();
@@ -3163,9 +3167,9 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         macro_return_idx = SOURCE->size;
         SOURCE->size = mac->start_source_idx;
         next_char = SOURCE->elements[SOURCE->size];
+        skip_newline = 0;
         lex_expect(T_close_bracket);
 
-        skip_newline = 0;
         bb = read_body_statement(parent, bb);
 
         /* cleanup */
-- 
2.43.0


From 6bc5bcb820ce35c18435c116f8318069e184b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:24 +0000
Subject: [PATCH 38/50] fix: read characters above 127 alike on both targets

---
 src/riscv-codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/riscv-codegen.c b/src/riscv-codegen.c
index 25752e8..0dc4ec0 100644
--- a/src/riscv-codegen.c
+++ b/src/riscv-codegen.c
@@ -214,7 +214,7 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
         return;
     case OP_read:
         if (ph2_ir->src1 == 1)
-            emit(__lb(rd, rs1, 0));
+            emit(__lbu(rd, rs1, 0));
         else if (ph2_ir->src1 == 4)
             emit(__lw(rd, rs1, 0));
         else
-- 
2.43.0


From f7fcc3eaac1287a8aa0b49b434c7d9d896adf8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:24 +0000
Subject: [PATCH 39/50] fix: take the remainder of a negative number in a
 global initializer

---
 src/parser.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index a39af1f..fa19ed0 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2166,7 +2166,6 @@ int read_primary_constant()
 int eval_expression_imm(opcode_t op, int op1, int op2)
 {
     /* return immediate result */
-    int tmp = op2;
     int res = 0;
     switch (op) {
     case OP_add:
@@ -2182,14 +2181,7 @@ int eval_expression_imm(opcode_t op, int op1, int op2)
         res = op1 / op2;
         break;
     case OP_mod:
-        /* TODO: provide arithmetic & operation instead of '&=' */
-        /* TODO: do optimization for local expression */
-        tmp &= (tmp - 1);
-        if ((op2 != 0) && (tmp == 0)) {
-            res = op1;
-            res &= (op2 - 1);
-        } else
-            res = op1 % op2;
+        res = op1 % op2;
         break;
     case OP_lshift:
         res = op1 << op2;
-- 
2.43.0


From 874ab996e941b6059964d19988cfab62d3088feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:18 +0000
Subject: [PATCH 40/50] fix: evaluate constant divisions and shifts alike on
 every host

---
 src/parser.c | 24 +++++++++++++++++-------
 src/ssa.c    |  5 +++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index fa19ed0..08b1baa 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -236,6 +236,16 @@ int read_constant_expr_operand()
 /* the operator following the operand read last, taken already */
 opcode_t constant_infix_op;
 
+/* Divides alike on every machine the compiler runs on. */
+int divide_constants(int dividend, int divisor)
+{
+    if (divisor == 0)
+        error("Division by zero in a constant expression");
+    if (divisor == -1)
+        return 0 - dividend;
+    return dividend / divisor;
+}
+
 int read_constant_infix_expr(int precedence)
 {
     int lhs, rhs;
@@ -287,7 +297,7 @@ int read_constant_infix_expr(int precedence)
             lhs *= rhs;
             break;
         case OP_div:
-            lhs /= rhs;
+            lhs = divide_constants(lhs, rhs);
             break;
         case OP_bit_and:
             lhs &= rhs;
@@ -299,10 +309,10 @@ int read_constant_infix_expr(int precedence)
             lhs ^= rhs;
             break;
         case OP_lshift:
-            lhs <<= rhs;
+            lhs <<= rhs & 31;
             break;
         case OP_rshift:
-            lhs >>= rhs;
+            lhs >>= rhs & 31;
             break;
         case OP_gt:
             lhs = lhs > rhs;
@@ -2178,16 +2188,16 @@ int eval_expression_imm(opcode_t op, int op1, int op2)
         res = op1 * op2;
         break;
     case OP_div:
-        res = op1 / op2;
+        res = divide_constants(op1, op2);
         break;
     case OP_mod:
-        res = op1 % op2;
+        res = op1 - divide_constants(op1, op2) * op2;
         break;
     case OP_lshift:
-        res = op1 << op2;
+        res = op1 << (op2 & 31);
         break;
     case OP_rshift:
-        res = op1 >> op2;
+        res = op1 >> (op2 & 31);
         break;
     case OP_log_and:
         res = op1 && op2;
diff --git a/src/ssa.c b/src/ssa.c
index cd8e42e..f3abd87 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1397,9 +1397,14 @@ bool eval_const_arithmetic(insn_t *insn)
         res = l * r;
         break;
     case OP_div:
+        /* leave to the program what the compiler itself may not survive */
+        if (r == 0 || r == -1)
+            return false;
         res = l / r;
         break;
     case OP_mod:
+        if (r == 0 || r == -1)
+            return false;
         res = l % r;
         break;
     default:
-- 
2.43.0


From 1e2d665eca377ad417b234bf39c31b519bee0b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:43 +0000
Subject: [PATCH 41/50] fix: give a character constant above 127 the same value
 on every host

---
 src/parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 08b1baa..622a94f 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -718,7 +718,7 @@ void read_char_param(block_t *parent, basic_block_t *bb)
 
     ph1_ir_t *ph1_ir = add_ph1_ir(OP_load_constant);
     var_t *vd = require_var(parent);
-    vd->init_val = token[0];
+    vd->init_val = token[0] & 255;
     strcpy(vd->var_name, gen_name());
     ph1_ir->dest = vd;
     opstack_push(vd);
@@ -2164,7 +2164,7 @@ int read_primary_constant()
         res = read_numeric_constant(buffer);
         lex_expect(T_numeric);
     } else if (lex_peek(T_char, buffer)) {
-        res = buffer[0];
+        res = buffer[0] & 255;
         lex_expect(T_char);
     } else
         error("Invalid value after assignment");
@@ -2693,7 +2693,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                     case_val = read_numeric_constant(token_str);
                     lex_expect(T_numeric); /* already read it */
                 } else if (lex_peek(T_char, token)) {
-                    case_val = token[0];
+                    case_val = token[0] & 255;
                     lex_expect(T_char);
                 } else {
                     constant_t *cd = find_constant(token_str);
-- 
2.43.0


From 094d57a2d8292b03cd3fb0441d14f583bbfa55c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:04 +0000
Subject: [PATCH 42/50] fix: pass every argument __VA_ARGS__ stands for

---
 src/parser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 622a94f..467a49f 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -737,11 +737,18 @@ void read_func_parameters(block_t *parent, basic_block_t **bb)
 
     lex_expect(T_open_bracket);
     while (!lex_accept(T_close_bracket)) {
+        int base = operand_stack_idx;
         read_expr(parent, bb);
         read_ternary_operation(parent, bb);
 
-        require_room(param_num, MAX_PARAMS, "Too many arguments");
-        params[param_num++] = opstack_pop();
+        if (operand_stack_idx <= base)
+            error("Missing operand");
+        /* '__VA_ARGS__' leaves an operand for each of its arguments */
+        for (int i = base; i < operand_stack_idx; i++) {
+            require_room(param_num, MAX_PARAMS, "Too many arguments");
+            params[param_num++] = operand_stack[i];
+        }
+        operand_stack_idx = base;
         lex_accept(T_comma);
     }
     for (int i = 0; i < param_num; i++) {
-- 
2.43.0


From 17dba86147ec21df3b23200a0d16264d27d8258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:49 +0000
Subject: [PATCH 43/50] fix: tell nested preprocessor conditionals apart

---
 src/parser.c | 51 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 467a49f..bbb654f 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -352,17 +352,47 @@ int read_constant_expr()
 }
 
 /* Skips lines where preprocessor match is false, this will stop once next
- * token is either 'T_cppd_elif', 'T_cppd_else' or 'cppd_endif'.
+ * token is either 'T_cppd_elif', 'T_cppd_else' or 'cppd_endif' of the same
+ * conditional.
  */
-void cppd_control_flow_skip_lines()
+void cppd_skip_lines(bool only_endif)
 {
-    while (!lex_peek(T_cppd_elif, NULL) && !lex_peek(T_cppd_else, NULL) &&
-           !lex_peek(T_cppd_endif, NULL)) {
+    int depth = 0;
+
+    while (true) {
+        if (lex_peek(T_cppd_if, NULL) || lex_peek(T_cppd_ifdef, NULL) ||
+            lex_peek(T_cppd_ifndef, NULL)) {
+            depth++;
+        } else if (lex_peek(T_cppd_endif, NULL)) {
+            if (depth == 0)
+                return;
+            depth--;
+        } else if (depth == 0 && !only_endif &&
+                   (lex_peek(T_cppd_elif, NULL) ||
+                    lex_peek(T_cppd_else, NULL))) {
+            return;
+        }
         next_token = lex_token();
     }
+}
+
+void cppd_control_flow_skip_lines()
+{
+    cppd_skip_lines(false);
     skip_whitespace();
 }
 
+/* what 'preproc_match' is in the conditionals around the current one */
+bool preproc_outer[MAX_NESTING];
+int preproc_outer_idx = 0;
+
+void cppd_enter_conditional()
+{
+    require_room(preproc_outer_idx, MAX_NESTING, "Too many conditionals");
+    preproc_outer[preproc_outer_idx++] = preproc_match;
+    preproc_match = false;
+}
+
 void check_def(char *alias, bool expected)
 {
     if ((find_alias(alias) != NULL) == expected)
@@ -472,6 +502,7 @@ bool read_preproc_directive()
         error(error_diagnostic);
     }
     if (lex_accept(T_cppd_if)) {
+        cppd_enter_conditional();
         preproc_match = read_constant_expr() != 0;
 
         if (preproc_match) {
@@ -484,9 +515,7 @@ bool read_preproc_directive()
     }
     if (lex_accept(T_cppd_elif)) {
         if (preproc_match) {
-            while (!lex_peek(T_cppd_endif, NULL)) {
-                next_token = lex_token();
-            }
+            cppd_skip_lines(true);
             return true;
         }
 
@@ -514,12 +543,14 @@ bool read_preproc_directive()
         return true;
     }
     if (lex_accept(T_cppd_endif)) {
-        preproc_match = false;
+        if (preproc_outer_idx < 1)
+            error("Unexpected #endif");
+        preproc_match = preproc_outer[--preproc_outer_idx];
         skip_whitespace();
         return true;
     }
     if (lex_accept_internal(T_cppd_ifdef, false)) {
-        preproc_match = false;
+        cppd_enter_conditional();
         lex_ident(T_identifier, token);
         check_def(token, true);
 
@@ -532,7 +563,7 @@ bool read_preproc_directive()
         return true;
     }
     if (lex_accept_internal(T_cppd_ifndef, false)) {
-        preproc_match = false;
+        cppd_enter_conditional();
         lex_ident(T_identifier, token);
         check_def(token, false);
 
-- 
2.43.0


From 49cfe3d8bd758211c372de6363ebb01c5766b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 44/50] fix: let an alias stand for an identifier, a string of
 digits, nothing, or anew

---
 src/defs.h    |  1 +
 src/globals.c | 15 +++++++++++++--
 src/lexer.c   | 23 ++++++++++-------------
 src/parser.c  | 19 ++++++++++++++++++-
 4 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/defs.h b/src/defs.h
index 1195c92..62bf09d 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -330,6 +330,7 @@ typedef struct {
 typedef struct {
     char alias[MAX_VAR_LEN];
     char value[MAX_VAR_LEN];
+    bool is_string;
     bool disabled;
 } alias_t;
 
diff --git a/src/globals.c b/src/globals.c
index 2035b4b..345ce89 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -525,25 +525,36 @@ block_t *add_block(block_t *parent, func_t *func, macro_t *macro)
     return blk;
 }
 
+bool remove_alias(char *alias);
+
 void add_alias(char *alias, char *value)
 {
+    /* a later definition takes the place of an earlier one */
+    remove_alias(alias);
     require_room(aliases_idx, MAX_ALIASES, "Too many aliases");
 
     alias_t *al = &ALIASES[aliases_idx++];
     strcpy(al->alias, alias);
     strcpy(al->value, value);
+    al->is_string = false;
     al->disabled = false;
 }
 
-char *find_alias(char alias[])
+alias_t *find_alias_entry(char *alias)
 {
     for (int i = 0; i < aliases_idx; i++) {
         if (!ALIASES[i].disabled && !strcmp(alias, ALIASES[i].alias))
-            return ALIASES[i].value;
+            return &ALIASES[i];
     }
     return NULL;
 }
 
+char *find_alias(char alias[])
+{
+    alias_t *al = find_alias_entry(alias);
+    return al ? al->value : NULL;
+}
+
 bool remove_alias(char *alias)
 {
     for (int i = 0; i < aliases_idx; i++) {
diff --git a/src/lexer.c b/src/lexer.c
index 74cb0d5..6ce3d9e 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -544,7 +544,6 @@ token_t lex_token_internal(bool aliasing)
     }
 
     if (is_alnum(next_char)) {
-        char *alias;
         int i = 0;
         do {
             require_room(i, MAX_TOKEN_LEN - 1, "Identifier too long");
@@ -585,22 +584,20 @@ token_t lex_token_internal(bool aliasing)
             return T_continue;
 
         if (aliasing) {
-            alias = find_alias(token_str);
-            if (alias) {
-                /* FIXME: comparison with string "bool" is a temporary hack */
-                token_t t;
+            alias_t *al = find_alias_entry(token_str);
+            token_t t = T_identifier;
 
-                if (is_numeric(alias)) {
-                    t = T_numeric;
-                } else if (!strcmp(alias, "_Bool")) {
-                    t = T_identifier;
-                } else {
+            /* an alias may stand for another one, but never for itself */
+            for (int i = 0; al && t == T_identifier && i < aliases_idx; i++) {
+                if (al->is_string)
                     t = T_string;
-                }
+                else if (is_numeric(al->value))
+                    t = T_numeric;
 
-                strcpy(token_str, alias);
-                return t;
+                strcpy(token_str, al->value);
+                al = find_alias_entry(token_str);
             }
+            return t;
         }
 
         return T_identifier;
diff --git a/src/parser.c b/src/parser.c
index bbb654f..ae387c8 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -438,9 +438,25 @@ bool read_preproc_directive()
 
         return true;
     }
-    if (lex_accept(T_cppd_define)) {
+    if (lex_peek(T_cppd_define, NULL)) {
         char alias[MAX_VAR_LEN];
         char value[MAX_VAR_LEN];
+        bool is_empty;
+
+        skip_newline = false;
+        lex_expect_internal(T_cppd_define, false);
+        is_empty = is_newline(next_char) ||
+                   (next_char == '/' && peek_char(1) == '/');
+        skip_newline = true;
+
+        if (is_empty && lex_peek(T_identifier, alias)) {
+            /* nothing on this line is its value */
+            value[0] = 0;
+            add_alias(alias, value);
+            skip_whitespace();
+            lex_expect(T_identifier);
+            return true;
+        }
 
         lex_ident_internal(T_identifier, alias, false);
 
@@ -451,6 +467,7 @@ bool read_preproc_directive()
             copy_token_str(T_identifier, value);
             lex_expect(T_string);
             add_alias(alias, value);
+            ALIASES[aliases_idx - 1].is_string = true;
         } else if (lex_peek(T_identifier, value)) {
             lex_expect(T_identifier);
             add_alias(alias, value);
-- 
2.43.0


From 72b57cdfc8b496ce68ef9b38a37cbb0c3dd9f2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 45/50] fix: step variables where conditions, branches, calls
 and returns need it

---
 src/parser.c | 95 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 83 insertions(+), 12 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index ae387c8..b78c4ad 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -778,6 +778,7 @@ void read_logical(opcode_t op,
                   basic_block_t **bb,
                   char *label_shared);
 void read_ternary_operation(block_t *parent, basic_block_t **bb);
+void settle_side_effects(block_t *parent, basic_block_t *bb);
 void read_func_parameters(block_t *parent, basic_block_t **bb)
 {
     int param_num = 0;
@@ -788,6 +789,7 @@ void read_func_parameters(block_t *parent, basic_block_t **bb)
         int base = operand_stack_idx;
         read_expr(parent, bb);
         read_ternary_operation(parent, bb);
+        settle_side_effects(parent, *bb);
 
         if (operand_stack_idx <= base)
             error("Missing operand");
@@ -834,6 +836,64 @@ void read_indirect_call(block_t *parent, basic_block_t **bb)
 ph1_ir_t side_effect[MAX_SIDE_EFFECTS];
 int se_idx = 0;
 
+/* the side effects from 'se_base' on belong to the expression being read, as do
+ * the operands from 'se_operand_base' on
+ */
+int se_base = 0;
+int se_operand_base = 0;
+
+void begin_expr()
+{
+    se_base = se_idx;
+    se_operand_base = operand_stack_idx;
+}
+
+void perform_side_effects_from(int first, block_t *parent, basic_block_t *bb)
+{
+    for (int i = first; i < se_idx; i++) {
+        ph1_ir_t *ph1_ir = add_ph1_ir(side_effect[i].op);
+        memcpy(ph1_ir, &side_effect[i], sizeof(ph1_ir_t));
+        add_insn(parent, bb, ph1_ir->op, ph1_ir->dest, ph1_ir->src0,
+                 ph1_ir->src1, ph1_ir->size, ph1_ir->func_name);
+    }
+    se_idx = first;
+}
+
+void perform_side_effect(block_t *parent, basic_block_t *bb)
+{
+    perform_side_effects_from(0, parent, bb);
+    se_base = 0;
+}
+
+/* Performs the side effects of the expression where control flow goes on or
+ * away: what is still to be used of the variables they change is what the
+ * variables have been before.
+ */
+void settle_side_effects(block_t *parent, basic_block_t *bb)
+{
+    for (int i = se_base; i < se_idx; i++) {
+        if (side_effect[i].op != OP_assign)
+            continue;
+
+        var_t *var = side_effect[i].dest;
+        var_t *copy = NULL;
+        for (int j = se_operand_base; j < operand_stack_idx; j++) {
+            if (operand_stack[j] != var)
+                continue;
+            if (!copy) {
+                ph1_ir_t *ph1_ir = add_ph1_ir(OP_assign);
+                copy = require_var(parent);
+                strcpy(copy->var_name, gen_name());
+                ph1_ir->src0 = var;
+                ph1_ir->dest = copy;
+                add_insn(parent, bb, OP_assign, copy, var, NULL, 0, NULL);
+            }
+            operand_stack[j] = copy;
+        }
+    }
+    perform_side_effects_from(se_base, parent, bb);
+}
+
 void read_lvalue(lvalue_t *lvalue,
                  var_t *var,
                  block_t *parent,
@@ -1702,6 +1762,8 @@ void read_logical(opcode_t op,
     } else
         error("encounter an invalid logical opcode in read_logical()");
 
+    settle_side_effects(parent, *bb);
+
     /* Test the operand before the logical-and/or operator */
     ph1_ir = add_ph1_ir(OP_branch);
     ph1_ir->dest = opstack_pop();
@@ -1733,6 +1795,8 @@ void finalize_logical(opcode_t op,
                       char *label_shared,
                       basic_block_t *shared_bb)
 {
+    settle_side_effects(parent, *bb);
+
     char __label[MAX_VAR_LEN], label_end[MAX_VAR_LEN], *label_true, *label_else;
     strcpy(__label, gen_label());
     strcpy(label_end, gen_label());
@@ -1918,6 +1982,8 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     if (!lex_accept(T_question))
         return;
 
+    settle_side_effects(parent, *bb);
+
     /* ternary-operator */
     ph1_ir_t *ph1_ir = add_ph1_ir(OP_branch);
     ph1_ir->dest = opstack_pop();
@@ -1960,6 +2026,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->dest = var;
     add_insn(parent, then_, OP_assign, ph1_ir->dest, ph1_ir->src0, NULL, 0,
              NULL);
+    settle_side_effects(parent, then_);
 
     /* jump true branch to end of expression */
     ph1_ir = add_ph1_ir(OP_jump);
@@ -1981,6 +2048,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->dest = var;
     add_insn(parent, else_, OP_assign, ph1_ir->dest, ph1_ir->src0, NULL, 0,
              NULL);
+    settle_side_effects(parent, else_);
 
     ph1_ir = add_ph1_ir(OP_label);
     vd = require_var(parent);
@@ -2011,6 +2079,8 @@ bool read_body_assignment(char *token,
         /* has memory address that we want to set */
         read_lvalue(&lvalue, var, parent, bb, false, OP_generic);
         size = lvalue.size;
+        /* where to assign to has been read */
+        begin_expr();
 
         if (lex_accept(T_increment)) {
             op = OP_add;
@@ -2479,17 +2549,6 @@ int continue_pos_idx = 0;
 basic_block_t *break_bb[MAX_NESTING];
 basic_block_t *continue_bb[MAX_NESTING];
 
-void perform_side_effect(block_t *parent, basic_block_t *bb)
-{
-    for (int i = 0; i < se_idx; i++) {
-        ph1_ir_t *ph1_ir = add_ph1_ir(side_effect[i].op);
-        memcpy(ph1_ir, &side_effect[i], sizeof(ph1_ir_t));
-        add_insn(parent, bb, ph1_ir->op, ph1_ir->dest, ph1_ir->src0,
-                 ph1_ir->src1, ph1_ir->size, ph1_ir->func_name);
-    }
-    se_idx = 0;
-}
-
 basic_block_t *read_code_block(func_t *func,
                                macro_t *macro,
                                block_t *parent,
@@ -2516,6 +2575,8 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
     if (lex_peek(T_open_curly, NULL))
         return read_code_block(parent->func, parent->macro, parent, bb);
 
+    begin_expr();
+
     if (lex_accept(T_return)) {
         /* return void */
         if (lex_accept(T_semicolon)) {
@@ -2530,7 +2591,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         read_ternary_operation(parent, &bb);
 
         /* apply side effect before function return */
-        perform_side_effect(parent, bb);
+        settle_side_effects(parent, bb);
         lex_expect(T_semicolon);
 
         ph1_ir = add_ph1_ir(OP_return);
@@ -2553,7 +2614,9 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         bb = n;
 
         lex_expect(T_open_bracket);
+        begin_expr();
         read_expr(parent, &bb);
+        settle_side_effects(parent, bb);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
@@ -2666,7 +2729,9 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         basic_block_t *cond = bb_create(parent);
         cond = bb;
         lex_expect(T_open_bracket);
+        begin_expr();
         read_expr(parent, &bb);
+        settle_side_effects(parent, bb);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
@@ -2725,7 +2790,9 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         bb = n;
 
         lex_expect(T_open_bracket);
+        begin_expr();
         read_expr(parent, &bb);
+        settle_side_effects(parent, bb);
         lex_expect(T_close_bracket);
 
         /* create exit jump for breaks */
@@ -2977,7 +3044,9 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         strcpy(var_condition->var_name, cond);
         ph1_ir->src0 = var_condition;
         if (!lex_accept(T_semicolon)) {
+            begin_expr();
             read_expr(blk, &cond_);
+            settle_side_effects(blk, cond_);
             lex_expect(T_semicolon);
         } else {
             /* always true */
@@ -3112,7 +3181,9 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         strcpy(vd->var_name, var_condition->var_name);
         ph1_ir->src0 = vd;
 
+        begin_expr();
         read_expr(parent, &cond_);
+        settle_side_effects(parent, cond_);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
-- 
2.43.0


From 287af32316fe22ee3ca9acc13ce7d1f6a6a0a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 46/50] fix: step variables in a declaration that follows a
 case label

---
 src/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.c b/src/parser.c
index b78c4ad..cc485c9 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3269,6 +3269,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                          NULL, 0, NULL);
             }
         }
+        perform_side_effect(parent, bb);
         lex_expect(T_semicolon);
         return bb;
     }
-- 
2.43.0


From 239e0f65f5a83f7f5c4fb362beadaeec0d0cfc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 47/50] fix: take no register for unchanged after an indirect
 call

---
 src/reg-alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 12a9ea3..290c36e 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -554,6 +554,10 @@ void reg_alloc()
 
                     is_pushing_args = 0;
                     args = 0;
+
+                    for (int i = 0; i < REG_CNT; i++)
+                        REGS[i].var = NULL;
+
                     break;
                 case OP_func_ret:
                     dest = prepare_dest(bb, insn->rd, -1, -1);
-- 
2.43.0


From 7c7746031a2c1f54500428176c3aeb6075984ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:30 +0000
Subject: [PATCH 48/50] fix: accept a switch statement without labels

---
 src/parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index cc485c9..a70c713 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2804,6 +2804,11 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         basic_block_t *true_body_ = bb_create(parent);
 
         lex_expect(T_open_curly);
+
+        /* without any label there is nothing but to go on */
+        if (lex_peek(T_close_curly, NULL))
+            bb_connect(bb, true_body_, NEXT);
+
         while (lex_peek(T_default, NULL) || lex_peek(T_case, NULL)) {
             if (lex_accept(T_default))
                 is_default = 1;
@@ -2929,7 +2934,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
             /* if the last label has no explicit break, connect it to the end */
             bb_connect(true_body_, switch_end, NEXT);
 
-        strcpy(var_break->var_name, vd->var_name);
+        strcpy(var_break->var_name, false_label);
         break_exit_idx--;
 
         int dangling = 1;
-- 
2.43.0


From 2d776bdc7e2275a6c5c31fd17f56d5b59d740fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:11 +0000
Subject: [PATCH 49/50] fix: let an argument of a variadic macro go over lines

---
 src/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index a70c713..e447774 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1052,12 +1052,15 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
                 error("Unexpected identifier '__VA_ARGS__'");
 
             remainder = macro->num_params - macro->num_param_defs;
+            bool skip = skip_newline;
+            skip_newline = true;
             for (int i = 0; i < remainder; i++) {
                 SOURCE->size = macro->params[macro->num_params - remainder + i];
                 next_char = SOURCE->elements[SOURCE->size];
                 next_token = lex_token();
                 read_expr(parent, bb);
             }
+            skip_newline = skip;
             SOURCE->size = t;
             next_char = SOURCE->elements[SOURCE->size];
             next_token = lex_token();
-- 
2.43.0


From 2f90ce244c0fd91e4ee3bc3b918c38fe8767e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:32 +0000
Subject: [PATCH 50/50] fix: take an inclusion from the start of a line and up
 to its end only

---
 src/parser.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index e447774..11eccd1 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3612,6 +3612,8 @@ void parse_internal()
 void load_source_file(char *file)
 {
     char buffer[MAX_LINE_LEN];
+    /* a line comes in pieces if it is longer than the buffer */
+    bool starts_line = true, is_inclusion = false;
 
     FILE *f = fopen(file, "rb");
     if (!f)
@@ -3630,7 +3632,10 @@ void load_source_file(char *file)
             fclose(f);
             return;
         }
-        if (!strncmp(buffer, "#include ", 9) && (buffer[9] == '"')) {
+        if (starts_line)
+            is_inclusion =
+                !strncmp(buffer, "#include ", 9) && (buffer[9] == '"');
+        if (is_inclusion && starts_line) {
             int c = strlen(file), inclusion_path_len = 0;
             /* the path ends at the closing quote, which the end of the file may
              * follow instead of a newline
@@ -3655,11 +3660,14 @@ void load_source_file(char *file)
             snprintf(path + c, inclusion_path_len + 1, "%s", buffer + 10);
             load_source_file(path);
             free(path);
-        } else {
+        } else if (!is_inclusion) {
             for (int i = 0; buffer[i]; i++)
                 if (!source_push(SOURCE, buffer[i]))
                     abort();
         }
+
+        int length = strlen(buffer);
+        starts_line = length && buffer[length - 1] == '\n';
     }
     fclose(f);
 }
-- 
2.43.0

