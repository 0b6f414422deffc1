From db100979faa20487962be5bed5bb0f48f3ae8eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 001/122] fix: classify struct arguments and results the same
 way in caller and callee

---
 src/compiler/codegen/asm/asm_codegen.c | 83 ++++++++++++--------------
 1 file changed, 37 insertions(+), 46 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index dc999d6..a88e047 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -166,6 +166,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs);
 static bool asm_has_flonum(ASTType_T* ty, i32 lo, i32 hi, i32 offset);
 static bool asm_has_flonum_1(ASTType_T* ty);
 static bool asm_has_flonum_2(ASTType_T* ty);
+static bool asm_struct_in_regs(ASTType_T* ty, i32* gp, i32* fp);
 static void asm_store_fp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_store_gp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node);
@@ -424,7 +425,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
                 continue;
 
             i32 top = 16, bottom = 0;
-            i32 gp = 0, fp = 0;
+            i32 gp = obj->return_ptr ? 1 : 0, fp = 0;
 
             // Assign offsets to pass-by-stack parameters
             for(size_t j = 0; j < obj->args->size; j++)
@@ -435,17 +436,9 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
                 {
                 case TY_DYN:
                 case TY_STRUCT:
-                    if(ty->size <= 16)
-                    {
-                        bool fp1 = asm_has_flonum(ty, 0, 8, 0);
-                        bool fp2 = asm_has_flonum(ty, 8, 16, 8);
-                        if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
-                        {
-                            fp = fp + fp1 + fp2;
-                            gp = gp + !fp1 + fp2;
-                            continue;
-                        }
-                    } break;
+                    if(asm_struct_in_regs(ty, &gp, &fp))
+                        continue;
+                    break;
                 
                 case TY_F32:
                 case TY_F64:
@@ -1094,7 +1087,25 @@ static bool asm_has_flonum_1(ASTType_T* ty)
 
 static bool asm_has_flonum_2(ASTType_T* ty)
 {
-    return asm_has_flonum(ty, 0, 16, 0);
+    return asm_has_flonum(ty, 8, 16, 0);
+}
+
+// Tells if a struct is passed in registers and counts the registers it needs, 
+// one for every eightbyte. Caller and callee have to agree on this.
+static bool asm_struct_in_regs(ASTType_T* ty, i32* gp, i32* fp)
+{
+    if(ty->size > 16)
+        return false;
+
+    i32 num_fp = asm_has_flonum_1(ty) + (ty->size > 8 && asm_has_flonum_2(ty));
+    i32 num_gp = (ty->size > 8 ? 2 : 1) - num_fp;
+
+    if(*fp + num_fp > ASM_FP_MAX || *gp + num_gp > ASM_GP_MAX)
+        return false;
+
+    *fp += num_fp;
+    *gp += num_gp;
+    return true;
 }
 
 static void asm_push_struct(ASMCodegenData_T* cg, ASTType_T* ty)
@@ -1139,10 +1150,10 @@ static void asm_copy_struct_reg(ASMCodegenData_T* cg)
 
     if(ty->size > 8)
     {
-        if(asm_has_flonum(ty, 8, 16, 0) && ty->kind != TY_STRUCT)
+        if(asm_has_flonum(ty, 8, 16, 0))
         {
             assert(ty->size == 12 || ty->size == 16);
-            if(ty->size == 4)
+            if(ty->size == 12)
                 asm_println(cg, "  movss 8(%%rdi), %%xmm%d", fp);
             else
                 asm_println(cg, "  movsd 8(%%rdi), %%xmm%d", fp);
@@ -1485,26 +1496,11 @@ static i32 asm_push_args(ASMCodegenData_T* cg, ASTNode_T* node)
         switch(ty->kind)
         {
             case TY_STRUCT:
-                if(ty->size > 16)
+            case TY_DYN:
+                if(!asm_struct_in_regs(ty, &gp, &fp))
                 {
                     arg->pass_by_stack = true;
                     stack += align_to(ty->size, 8) / 8;
-                }
-                else
-                {
-                    bool fp1 = asm_has_flonum_1(ty);
-                    bool fp2 = asm_has_flonum_2(ty);
-
-                    if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
-                    {
-                        fp += fp1 + fp2;
-                        gp += !fp1 + !fp2;
-                    }
-                    else
-                    {
-                        arg->pass_by_stack = true;
-                        stack += align_to(ty->size, 8) / 8;
-                    }
                 } break;
             case TY_F32:
             case TY_F64:
@@ -1559,25 +1555,20 @@ static i32 asm_pop_args(ASMCodegenData_T* cg, ASTNode_T* node)
         {
             case TY_STRUCT:
             case TY_DYN:
-                if(ty->size > 16)
+                if(arg->pass_by_stack)
                     continue;
                 
-                bool fp1 = asm_has_flonum_1(ty);
-                bool fp2 = asm_has_flonum_2(ty);
-                if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
+                if(asm_has_flonum_1(ty))
+                    asm_popf(cg, fp++);
+                else
+                    asm_pop(cg, argreg64[gp++]);
+                
+                if(ty->size > 8) 
                 {
-                    if(fp1)
+                    if(asm_has_flonum_2(ty))
                         asm_popf(cg, fp++);
                     else
-                        asm_pop(cg, argreg64[gp++]);
-                    
-                    if(ty->size > 8) 
-                    {
-                        if(fp2)
-                            asm_popf(cg, fp++);
-                        else
-                            asm_pop(cg, argreg64[gp++]);    
-                    }
+                        asm_pop(cg, argreg64[gp++]);    
                 }
                 break;
             case TY_F32:
-- 
2.43.0


From 38ab8ea4535d99a4779e5067c75e6c7543ff4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 002/122] fix: subtracting a number from a pointer steps by the
 size of what it points to

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index a88e047..8561233 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1862,7 +1862,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                     .right = &(ASTNode_T) {
                         .kind = ND_LONG,
                         .data_type = (ASTType_T*) primitives[TY_U64],
-                        .long_val = unpack(node->left->data_type)->size
+                        .long_val = unpack(node->left->data_type)->base->size
                     }
                 };
 
-- 
2.43.0


From 184a259714787afe48cbba920fdcb9f5d23e030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 003/122] fix: break and continue in a range loop keep the
 stack balanced

---
 src/compiler/codegen/asm/asm_codegen.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 8561233..eaa7559 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2608,18 +2608,24 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             
             asm_println(cg, ".L.begin.%lu:", c);
             asm_println(cg, "  cmp %%rdx, %%rdi");
-            asm_println(cg, "  jge .L.break.%lu", c);
+            asm_println(cg, "  jge .L.end.%lu", c);
 
             asm_println(cg, "  push %%rdi");
             asm_println(cg, "  push %%rdx");
+            cg->depth += 2;
             asm_gen_stmt(cg, node->body);
+            cg->depth -= 2;
+
+            asm_println(cg, ".L.continue.%lu:", c);
             asm_println(cg, "  pop %%rdx");
             asm_println(cg, "  pop %%rdi");
-            
-            asm_println(cg, ".L.continue.%lu:", c);
             asm_println(cg, "  inc %%rdi");
             asm_println(cg, "  jmp .L.begin.%lu", c);
+
+            // leaving the body early has to drop the saved registers, too
             asm_println(cg, ".L.break.%lu:", c);
+            asm_println(cg, "  add $16, %%rsp");
+            asm_println(cg, ".L.end.%lu:", c);
 
             cg->cur_count = pc;
             cg->cur_brk_id = pbrk;
-- 
2.43.0


From 5eb30e67c383dcb268ef3372c64b31e2a0f6a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 004/122] fix: an else expression keeps the stack balanced

---
 src/compiler/codegen/asm/asm_codegen.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index eaa7559..cd0e345 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2149,14 +2149,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             u64 pc = cg->cur_count;
             u64 c = cg->cur_count = cg->max_count++;
             asm_gen_expr(cg, node->left);
-            asm_push(cg);
-            asm_push(cg);
             asm_cmp_zero(cg, node->left->data_type);
-            asm_println(cg, "  je .L.else.%ld", c);
-            asm_pop(cg, "%rax");
-            asm_println(cg, "  jmp .L.end.%ld", c);
-            asm_println(cg, ".L.else.%ld:", c);
-            asm_pop(cg, "%rax");
+            asm_println(cg, "  jne .L.end.%ld", c);
             asm_gen_expr(cg, node->right);
             asm_println(cg, ".L.end.%ld:", c);
             cg->cur_count = pc;
-- 
2.43.0


From 0e992014eaca6d01ede90dc3d3014ab620df875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 005/122] fix: a match without a matching case runs no case

---
 src/compiler/codegen/asm/asm_codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index cd0e345..69c5ec4 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2736,6 +2736,8 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 node->default_case->long_val = node->cases->size;
                 asm_println(cg, "  jmp .L.case.%lu.%lu", node->cases->size, c);
             }
+            else
+                asm_println(cg, "  jmp .L.break.%lu", c);
             
             for(size_t i = 0; i < node->cases->size; i++)
                 asm_gen_stmt(cg, node->cases->items[i]);
-- 
2.43.0


From 229d88dfee0e1ccf2fd03dda31eec08d382853ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 006/122] fix: a NaN is unequal to everything

---
 src/compiler/codegen/asm/asm_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 69c5ec4..ee3e02f 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2263,8 +2263,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 case ND_NE:
                     asm_println(cg, "  ucomi%s %%xmm0, %%xmm1", sz);
                     asm_println(cg, "  setne %%al");
-                    asm_println(cg, "  setnp %%dl");
-                    asm_println(cg, "  and %%dl, %%al");
+                    asm_println(cg, "  setp %%dl");
+                    asm_println(cg, "  or %%dl, %%al");
                     asm_println(cg, "  and $1, %%al");
                     asm_println(cg, "  movzb %%al, %%rax");
                     return;
-- 
2.43.0


From bbc50f185d23ee30cdf657caedc774df219ceaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 007/122] fix: a match compares unsigned values as unsigned

---
 src/compiler/codegen/asm/asm_codegen.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index ee3e02f..b07a371 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -65,6 +65,15 @@ static const char* jmp_mode[TOKEN_EOF] = {
     [ND_GE] = "jge",
 };
 
+static const char* unsigned_jmp_mode[TOKEN_EOF] = {
+    [ND_EQ] = "je",
+    [ND_NE] = "jne",
+    [ND_LT] = "jb",
+    [ND_LE] = "jbe",
+    [ND_GT] = "ja",
+    [ND_GE] = "jae",
+};
+
 static const char* argreg8[]  = {"%dil", "%sil", "%dl", "%cl", "%r8b", "%r9b"};
 static const char* argreg16[] = {"%di", "%si", "%dx", "%cx", "%r8w", "%r9w"};
 static const char* argreg32[] = {"%edi", "%esi", "%edx", "%ecx", "%r8d", "%r9d"};
@@ -2716,6 +2725,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             u64 c = cg->cur_count = cg->cur_brk_id = cg->max_count++;
             char* ax = (node->condition->data_type->size == 8) ? "%rax" : "%eax";
             char* di = (node->condition->data_type->size == 8) ? "%rdi" : "%edi";
+            const char** jmp = unsigned_type(node->condition->data_type) ? unsigned_jmp_mode : jmp_mode;
             
             for(size_t i = 0; i < node->cases->size; i++)
             {
@@ -2728,7 +2738,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 asm_println(cg, "  cmp %s, %s", ax, di);
                 asm_pop(cg, "%rax");
 
-                asm_println(cg, "  %s .L.case.%ld.%lu", jmp_mode[_case->mode], i, c);
+                asm_println(cg, "  %s .L.case.%ld.%lu", jmp[_case->mode], i, c);
             }
             
             if(node->default_case) 
-- 
2.43.0


From d770fddd1eddbca2d44867233a91cf1cd8f690e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 008/122] fix: a piped value survives nested pipes and may be a
 floating-point number

---
 src/compiler/codegen/asm/asm_codegen.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index b07a371..7e25035 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1792,12 +1792,26 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_PIPE:
             asm_gen_expr(cg, node->left);
-            asm_println(cg, "  mov %%rax, %s", pipe_reg);
+
+            // the enclosing pipe and the caller still need their values
+            asm_println(cg, "  push %s", pipe_reg);
+            cg->depth++;
+
+            if(is_flonum(unpack(node->left->data_type)))
+                asm_println(cg, "  movq %%xmm0, %s", pipe_reg);
+            else
+                asm_println(cg, "  mov %%rax, %s", pipe_reg);
             asm_gen_expr(cg, node->right);
+
+            asm_println(cg, "  pop %s", pipe_reg);
+            cg->depth--;
             return;
         
         case ND_HOLE:
-            asm_println(cg, "  mov %s, %%rax", pipe_reg);
+            if(is_flonum(unpack(node->data_type)))
+                asm_println(cg, "  movq %s, %%xmm0", pipe_reg);
+            else
+                asm_println(cg, "  mov %s, %%rax", pipe_reg);
             return;
 
         case ND_NEG:
-- 
2.43.0


From 45f91e56b87ca165354941f3316ea8d841333f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:58 +0000
Subject: [PATCH 009/122] fix: evaluating pointer arithmetic twice scales it
 once

---
 src/compiler/codegen/asm/asm_codegen.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 7e25035..c8de67a 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1851,7 +1851,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         case ND_ADD:
             if(unpack(node->left->data_type)->base && unpack(node->right->data_type)->base)
                 throw_error(cg->context, ERR_SYNTAX_ERROR, node->tok, "cannot add two pointer types together");
-            if(ptr_type(node->left->data_type) && unpack(node->left->data_type)->base->size > 1)
+            if(ptr_type(node->left->data_type) && !node->bool_val && unpack(node->left->data_type)->base->size > 1)
             {
                 // if we add a number to a pointer, multiply the second argument with the base type size
                 // a + b -> a + b * sizeof *a
@@ -1866,18 +1866,22 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                     }
                 };
 
-                node->right = &new_right;
+                // the node itself stays as it is, it may be evaluated again
+                ASTNode_T scaled = *node;
+                scaled.bool_val = true;
+                scaled.right = &new_right;
+
+                asm_gen_expr(cg, &scaled);
+                return;
             }
             break;
         
         case ND_SUB:
-            if(ptr_type(node->left->data_type) && is_integer(node->right->data_type))
+            if(ptr_type(node->left->data_type) && !node->bool_val && is_integer(node->right->data_type))
             {
                 // if we subtract a number from a pointer, multiply the second argument with the base type size
                 // a - b -> a - b * sizeof *a
 
-                node->bool_val = true;
-
                 ASTNode_T new_right = {
                     .kind = ND_MUL,
                     .data_type = node->right->data_type,
@@ -1889,19 +1893,25 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                     }
                 };
 
-                node->right = &new_right;
+                ASTNode_T scaled = *node;
+                scaled.bool_val = true;
+                scaled.right = &new_right;
+
+                asm_gen_expr(cg, &scaled);
+                return;
             }
             else if(ptr_type(node->left->data_type) && ptr_type(node->left->data_type) && !node->bool_val)
             {
                 // if both subtraction arguments are pointers, return the number of elements in between
                 // a - b -> (a - b) / sizeof *a
 
-                node->bool_val = true;
+                ASTNode_T difference = *node;
+                difference.bool_val = true;
 
                 ASTNode_T converted = {
                     .kind = ND_DIV,
                     .data_type = (ASTType_T*) primitives[TY_I64],
-                    .left = node,
+                    .left = &difference,
                     .right = &(ASTNode_T) {
                         .kind = ND_LONG,
                         .data_type = (ASTType_T*) primitives[TY_I64],
-- 
2.43.0


From 61348470bcc894cbbfd6fde2148a04632314be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 010/122] fix: pointer offsets and indices are sign-extended

---
 src/compiler/codegen/asm/asm_codegen.c | 32 +++++++++++++++++++-------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index c8de67a..601140d 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -181,6 +181,7 @@ static void asm_store_gp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node);
 static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node);
 static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda);
+static void asm_cast(ASMCodegenData_T* cg, ASTType_T* from, ASTType_T* to);
 static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty);
 static void asm_gen_string_literals(ASMCodegenData_T* cg);
 
@@ -862,6 +863,13 @@ static void asm_popf(ASMCodegenData_T* cg, i32 reg)
     cg->depth--;
 }
 
+// the index as a signed 64-bit number
+static void asm_gen_index_expr(ASMCodegenData_T* cg, ASTNode_T* expr)
+{
+    asm_gen_expr(cg, expr);
+    asm_cast(cg, expr->data_type, (ASTType_T*) primitives[TY_I64]);
+}
+
 static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_address)
 {
     asm_gen_expr(cg, index->left);
@@ -871,13 +879,13 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
     {
         case TY_PTR:
         case TY_FN:
-            asm_gen_expr(cg, index->expr);
+            asm_gen_index_expr(cg, index->expr);
             asm_pop(cg, "%rdi");
             asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
             break;
 
         case TY_C_ARRAY:
-            asm_gen_expr(cg, index->expr);
+            asm_gen_index_expr(cg, index->expr);
             asm_pop(cg, "%rdi");
             if(index->from_back)
             {
@@ -894,7 +902,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
             {                
                 asm_load(cg, (ASTType_T*) primitives[TY_U64]);
                 asm_push(cg);
-                asm_gen_expr(cg, index->expr);
+                asm_gen_index_expr(cg, index->expr);
                 asm_pop(cg, "%rcx"); // length
                 asm_pop(cg, "%rdi"); // pointer
 
@@ -904,7 +912,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
             }
             else
             {
-                asm_gen_expr(cg, index->expr);
+                asm_gen_index_expr(cg, index->expr);
                 asm_pop(cg, "%rdi");
                 asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
             }
@@ -1857,8 +1865,12 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 // a + b -> a + b * sizeof *a
                 ASTNode_T new_right = {
                     .kind = ND_MUL,
-                    .data_type = node->right->data_type,
-                    .left = node->right,
+                    .data_type = (ASTType_T*) primitives[TY_I64],
+                    .left = &(ASTNode_T) {
+                        .kind = ND_CAST,
+                        .data_type = (ASTType_T*) primitives[TY_I64],
+                        .left = node->right
+                    },
                     .right = &(ASTNode_T) {
                         .kind = ND_LONG,
                         .data_type = (ASTType_T*) primitives[TY_U64],
@@ -1884,8 +1896,12 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
                 ASTNode_T new_right = {
                     .kind = ND_MUL,
-                    .data_type = node->right->data_type,
-                    .left = node->right,
+                    .data_type = (ASTType_T*) primitives[TY_I64],
+                    .left = &(ASTNode_T) {
+                        .kind = ND_CAST,
+                        .data_type = (ASTType_T*) primitives[TY_I64],
+                        .left = node->right
+                    },
                     .right = &(ASTNode_T) {
                         .kind = ND_LONG,
                         .data_type = (ASTType_T*) primitives[TY_U64],
-- 
2.43.0


From 61811a30e7fa869bd98194c89ea1cbb381239d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 011/122] fix: a global's initialiser is converted to the type
 of the global

---
 src/compiler/codegen/asm/asm_codegen.c |   4 +-
 src/compiler/codegen/asm/relocation.c  | 242 +++++++++++++++----------
 src/compiler/codegen/asm/relocation.h  |   2 +-
 3 files changed, 150 insertions(+), 98 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 601140d..489650f 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -530,9 +530,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
 
 static void asm_gen_relocation(ASMCodegenData_T* cg, ASTObj_T* var)
 {
-    ASTNode_T* value = var->value;
-    size_t target_size = var->data_type->size;
-    gen_relocation(cg, value, target_size);
+    gen_relocation(cg, var->value, var->data_type);
 }
 
 static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
diff --git a/src/compiler/codegen/asm/relocation.c b/src/compiler/codegen/asm/relocation.c
index e7fbafd..498d302 100644
--- a/src/compiler/codegen/asm/relocation.c
+++ b/src/compiler/codegen/asm/relocation.c
@@ -72,110 +72,193 @@ u8 escape_sequence(char c, const char* str, size_t* i)
     }
 }
 
-size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
+typedef struct
 {
-    if(!node)
-        return 0;
-    
-    size_t size_generated = 0;
-    //memset(buffer, 0, target_size);
-    
-    switch(node->kind) 
+    bool is_float;
+    f64 float_val;
+    u64 int_val;
+} ConstScalar_T;
+
+static ConstScalar_T cast_const_scalar(ConstScalar_T value, bool from_unsigned, ASTType_T* to)
+{
+    ConstScalar_T result = { .is_float = is_flonum(to) };
+
+    if(result.is_float)
     {
-        case ND_NIL:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "0");
-            break;
+        if(value.is_float)
+            result.float_val = value.float_val;
+        else if(to->kind == TY_F32)
+            result.float_val = from_unsigned ? (f32) value.int_val : (f32) (i64) value.int_val;
+        else
+            result.float_val = from_unsigned ? (f64) value.int_val : (f64) (i64) value.int_val;
 
-        case ND_STR:
-            assert(target_size == PTR_S);
-            size_generated = PTR_S;
-            asm_println(cg, "  .%dbyte .L.string.%lu", PTR_S, cg->string_literals->size);
-            list_push(cg->string_literals, node->str_val);
-            break;
+        if(to->kind == TY_F32)
+            result.float_val = (f32) result.float_val;
+        return result;
+    }
+
+    if(to->kind == TY_BOOL)
+    {
+        result.int_val = value.is_float ? value.float_val != 0.0 : value.int_val != 0;
+        return result;
+    }
+
+    if(value.is_float)
+        result.int_val = to->kind == TY_U64 && value.float_val >= 9223372036854775808.0 ? (u64) value.float_val : (u64) (i64) value.float_val;
+    else
+        result.int_val = value.int_val;
+
+    u32 unused_bits = to->size < 8 ? (8 - to->size) * 8 : 0;
+    result.int_val <<= unused_bits;
+    result.int_val = is_unsigned(to) ? result.int_val >> unused_bits : (u64) ((i64) result.int_val >> unused_bits);
+    return result;
+}
 
+static ConstScalar_T eval_const_scalar(ASMCodegenData_T* cg, ASTNode_T* node)
+{
+    ConstScalar_T value = {};
+    ASTType_T* ty = unpack(node->data_type);
+
+    switch(node->kind)
+    {
+        case ND_INT:
         case ND_CHAR:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->int_val);
+            value.int_val = (i64) node->int_val;
             break;
 
-        case ND_BOOL:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->bool_val);
+        case ND_FLOAT:
+            value.is_float = true;
+            value.float_val = node->float_val;
             break;
 
-        case ND_INT:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%u", node->int_val);
+        case ND_DOUBLE:
+            value.is_float = true;
+            value.float_val = node->double_val;
             break;
 
-        case ND_LONG:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", node->long_val);
+        case ND_CLOSURE:
+            return eval_const_scalar(cg, node->exprs->items[node->exprs->size - 1]);
+
+        case ND_NEG:
+            value = eval_const_scalar(cg, node->right);
+            value.float_val = -value.float_val;
+            value.int_val = -value.int_val;
             break;
 
-        case ND_ULONG:
-            size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", node->long_val);
+        case ND_CAST:
+            value = eval_const_scalar(cg, node->left);
+            return cast_const_scalar(value, is_unsigned(unpack(node->left->data_type)), ty);
+
+        default:
+            value.int_val = ty && is_unsigned(ty) ? const_u64(cg->context, node) : (u64) const_i64(cg->context, node);
             break;
+    }
 
-        case ND_FLOAT:
+    return value;
+}
+
+static bool is_address(ASTNode_T* node)
+{
+    switch(node->kind)
+    {
+        case ND_STR:
+            return true;
+        case ND_ID:
+            return !node->referenced_obj || (node->referenced_obj->kind != OBJ_ENUM_MEMBER && !node->referenced_obj->is_constant);
+        case ND_CAST:
+            return is_address(node->left);
+        case ND_CLOSURE:
+            return is_address(node->exprs->items[node->exprs->size - 1]);
+        default:
+            return false;
+    }
+}
+
+size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* target)
+{
+    if(!node)
+        return 0;
+
+    target = unpack(target);
+    size_t target_size = target->size;
+    size_t size_generated = 0;
+
+    // numbers are converted to the type of what they initialize
+    if((is_integer(target) || target->kind == TY_F32 || target->kind == TY_F64 || (target->kind == TY_PTR && node->kind != ND_NIL)) && !is_address(node))
+    {
+        ASTType_T* ty = unpack(node->data_type);
+        ConstScalar_T value = cast_const_scalar(eval_const_scalar(cg, node), ty && is_unsigned(ty), target);
+
+        size_generated = asm_gen_const_data(cg, target_size);
+
+        if(target->kind == TY_F32)
         {
             union {
                 f32 in;
                 uint32_t out;
-            } conv = {.in = node->float_val};
-
-            size_generated = asm_gen_const_data(cg, target_size);
+            } conv = {.in = value.float_val};
             asm_println(cg, "%u", conv.out);
-        } break;
-
-        case ND_DOUBLE: 
+        }
+        else if(target->kind == TY_F64)
         {
             union {
                 f64 in;
                 uint64_t out;
-            } conv = {.in = node->double_val};
+            } conv = {.in = value.float_val};
+            asm_println(cg, "%zu", conv.out);
+        }
+        else
+            asm_println(cg, "%ld", (i64) value.int_val);
 
+        return size_generated;
+    }
+    
+    switch(node->kind)
+    {
+        case ND_NIL:
             size_generated = asm_gen_const_data(cg, target_size);
-            asm_println(cg, "%zu", conv.out);
-        } break;
+            asm_println(cg, "0");
+            break;
+
+        case ND_STR:
+            assert(target_size == PTR_S);
+            size_generated = PTR_S;
+            asm_println(cg, "  .%dbyte .L.string.%lu", PTR_S, cg->string_literals->size);
+            list_push(cg->string_literals, node->str_val);
+            break;
 
         case ND_ARRAY:
         {
-            size_generated = asm_gen_const_data(cg, PTR_S);
-            asm_println(cg, "%zu", node->data_type->num_indices);
-            size_t index_size = node->data_type->base->size;
+            if(target->kind == TY_ARRAY)
+            {
+                size_generated = asm_gen_const_data(cg, PTR_S);
+                asm_println(cg, "%zu", node->data_type->num_indices);
+            }
+
             for(size_t i = 0; i < node->args->size; i++)
-                size_generated += gen_relocation(cg, node->args->items[i], index_size);
+                size_generated += gen_relocation(cg, node->args->items[i], target->base);
         } break;
 
         case ND_STRUCT:
-        {
-            ASTType_T* struct_type = unpack(node->data_type);
             for(size_t i = 0; i < node->args->size; i++)
             {
-                ASTNode_T* arg = node->args->items[i];
-                size_t offset = ((ASTNode_T*) struct_type->members->items[i])->offset;
+                ASTNode_T* member = target->members->items[i];
+                size_t offset = member->offset;
 
                 if(size_generated < offset)
+                {
                     asm_println(cg, "  .zero %zu", offset - size_generated); // pad correctly
-                size_generated += gen_relocation(cg, arg, arg->data_type->size);
-            }  
-        } break;
-        
-        case ND_CLOSURE:
-            size_generated = gen_relocation(cg, node->expr, target_size);
+                    size_generated = offset;
+                }
+                size_generated += gen_relocation(cg, node->args->items[i], member->data_type);
+            }
             break;
         
-        case ND_NEG:
-            node->right->int_val = -node->right->int_val; // temporary
-            size_generated = gen_relocation(cg, node->right, target_size);
-            break;
+        case ND_CLOSURE:
+            return gen_relocation(cg, node->exprs->items[node->exprs->size - 1], target);
 
         case ND_CAST:
-            size_generated = gen_relocation(cg, node->left, node->data_type->size);
-            break;
+            return gen_relocation(cg, node->left, target);
         
         case ND_ID:
             if(target_size <= 8)
@@ -188,44 +271,15 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
             break;
 
         default:
-            if(is_unsigned_integer_type(node->data_type))
-            {
-                size_generated = asm_gen_const_data(cg, target_size);
-                asm_println(cg, "%zu", const_u64(cg->context, node));
-                return size_generated;
-            }
-            else if(is_signed_integer_type(node->data_type))
-            {
-                i64 raw_data = const_i64(cg->context, node);
-                size_generated = asm_gen_const_data(cg, target_size);
-                switch(node->data_type->size) {
-                case I64_S:
-                    asm_println(cg, "%zu", raw_data);
-                    break;
-                case I32_S: {
-                    asm_println(cg, "%u", (i32) raw_data);
-                    break;
-                }
-                case I16_S: {
-                    asm_println(cg, "%u", (i16) raw_data);
-                    break;
-                }
-                case I8_S: {
-                    asm_println(cg, "%u", (i8) raw_data);
-                    break;
-                }
-                default:
-                    unreachable();
-                }
-                return size_generated;
-            }
-
             throw_error(cg->context, ERR_CODEGEN, node->tok, "cannot generate relocation for `%s` (%d)", node->tok->value, node->kind);
             break;
     }
 
     if(size_generated < target_size)
+    {
         asm_println(cg, "  .zero %zu", target_size - size_generated);
+        size_generated = target_size;
+    }
 
     return size_generated;
 }
diff --git a/src/compiler/codegen/asm/relocation.h b/src/compiler/codegen/asm/relocation.h
index 3e14763..d59c1e2 100644
--- a/src/compiler/codegen/asm/relocation.h
+++ b/src/compiler/codegen/asm/relocation.h
@@ -6,6 +6,6 @@
 #include "asm_codegen.h"
 
 u8 escape_sequence(char c, const char* str, size_t* i);
-size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size);
+size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* target);
 
 #endif
-- 
2.43.0


From 493210127cd8b3e1ce7bb65218962b5bd3d9703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 012/122] fix: dividing constants divides

---
 src/compiler/optimizer/constexpr.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index 778efd2..cecccca 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -54,9 +54,13 @@ static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
         case ND_MOD:
-            return a % b;
+            if(!b)
+            {
+                throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero");
+                return 0;
+            }
+            return node->kind == ND_DIV ? a / b : a % b;
         case ND_EQ:
             return a == b;
         case ND_NE:
@@ -127,7 +131,7 @@ u64 const_u64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
@@ -165,9 +169,13 @@ static i64 const_i64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
         case ND_MOD:
-            return a % b;
+            if(!b)
+            {
+                throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero");
+                return 0;
+            }
+            return node->kind == ND_DIV ? a / b : a % b;
         case ND_EQ:
             return a == b;
         case ND_NE:
@@ -219,7 +227,7 @@ i64 const_i64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
-- 
2.43.0


From e871f73ab14fe82c04cb8f80a3ddd6f638bb146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 013/122] fix: a string keeps its value in a constant
 expression

---
 src/compiler/interpreter/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 3c84f0b..2674f11 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -215,7 +215,7 @@ ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_
         case TY_PTR:
             if(unpack(node->data_type->base)->kind == TY_CHAR)
             {
-                node->kind = ND_CHAR;
+                node->kind = ND_STR;
                 node->str_val = strdup((const char*) value->value.ptr);
                 break;
             }
-- 
2.43.0


From 88f1961335adf94c613b64ed4bc28f1316bd161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 014/122] fix: variables can be declared after a range loop

---
 src/compiler/parser/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index c6178de..5261fc4 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1378,7 +1378,11 @@ static ASTNode_T* parse_for(Parser_T* p, bool needs_semicolon)
             loop->init_stmt = init_stmt;
 
             if(tok_is_operator(p, ".."))
-                return parse_for_range(p, loop, needs_semicolon);
+            {
+                parse_for_range(p, loop, needs_semicolon);
+                p->cur_block = prev_block;
+                return loop;
+            }
             parser_consume(p, TOKEN_SEMICOLON, "expect `;` after for-loop initializer");
         }
     } 
-- 
2.43.0


From 14d446ae15476d244d4cb57091aa509d0532dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 015/122] fix: caller and callee agree on the size of a struct
 passed on the stack

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 489650f..75b4d0a 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -464,7 +464,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
 
                 top = align_to(top, 8);
                 var->offset = top;
-                top += var->data_type->size;
+                top += ty->size;
             }
 
             // va_area
-- 
2.43.0


From cac99d922b8958706d9d3e807868ee9171f6afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 016/122] fix: offsets of byte and void pointers are
 sign-extended too

---
 src/compiler/codegen/asm/asm_codegen.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 75b4d0a..5d2a487 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1857,7 +1857,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         case ND_ADD:
             if(unpack(node->left->data_type)->base && unpack(node->right->data_type)->base)
                 throw_error(cg->context, ERR_SYNTAX_ERROR, node->tok, "cannot add two pointer types together");
-            if(ptr_type(node->left->data_type) && !node->bool_val && unpack(node->left->data_type)->base->size > 1)
+            if(ptr_type(node->left->data_type) && !node->bool_val)
             {
                 // if we add a number to a pointer, multiply the second argument with the base type size
                 // a + b -> a + b * sizeof *a
@@ -1872,7 +1872,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                     .right = &(ASTNode_T) {
                         .kind = ND_LONG,
                         .data_type = (ASTType_T*) primitives[TY_U64],
-                        .long_val = unpack(node->left->data_type)->base->size
+                        .long_val = MAX(unpack(node->left->data_type)->base->size, 1)
                     }
                 };
 
@@ -1903,7 +1903,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                     .right = &(ASTNode_T) {
                         .kind = ND_LONG,
                         .data_type = (ASTType_T*) primitives[TY_U64],
-                        .long_val = unpack(node->left->data_type)->base->size
+                        .long_val = MAX(unpack(node->left->data_type)->base->size, 1)
                     }
                 };
 
@@ -1929,7 +1929,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                     .right = &(ASTNode_T) {
                         .kind = ND_LONG,
                         .data_type = (ASTType_T*) primitives[TY_I64],
-                        .int_val = unpack(node->left->data_type)->base->size
+                        .int_val = MAX(unpack(node->left->data_type)->base->size, 1)
                     }
                 };
 
-- 
2.43.0


From 8ad13562d5bad151173b130712d8010e7bbfa6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 017/122] fix: indexing a C array from the back counts from its
 end

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 5d2a487..f2dd241 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -888,7 +888,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
             if(index->from_back)
             {
                 asm_println(cg, "  imul $%d, %%rax", -index->data_type->size);
-                asm_println(cg, "  add $%d, %%rax", index->left->data_type->size + index->data_type->size);
+                asm_println(cg, "  add $%d, %%rax", index->left->data_type->size);
             }
             else
                 asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
-- 
2.43.0


From 686c7b3655d2ebb26ce4f23287d20713eabdb159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 018/122] fix: u64 and floating-point numbers convert above
 2^63

---
 src/compiler/codegen/asm/asm_codegen.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index f2dd241..783036e 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -100,7 +100,10 @@ static const char i64f32[] = "cvtsi2ssq %rax, %xmm0";
 static const char i64f64[] = "cvtsi2sdq %rax, %xmm0";
 static const char i64f80[] = "movq %rax, -8(%rsp); fildll -8(%rsp)";
 
-static const char u64f32[] = "cvtsi2ssq %rax, %xmm0";
+static const char u64f32[] =
+  "test %rax,%rax; js 1f; pxor %xmm0,%xmm0; cvtsi2ss %rax,%xmm0; jmp 2f; "
+  "1: mov %rax,%rdi; and $1,%eax; pxor %xmm0,%xmm0; shr %rdi; "
+  "or %rax,%rdi; cvtsi2ss %rdi,%xmm0; addss %xmm0,%xmm0; 2:";
 static const char u64f64[] =
   "test %rax,%rax; js 1f; pxor %xmm0,%xmm0; cvtsi2sd %rax,%xmm0; jmp 2f; "
   "1: mov %rax,%rdi; and $1,%eax; pxor %xmm0,%xmm0; shr %rdi; "
@@ -116,7 +119,9 @@ static const char f32u16[] = "cvttss2sil %xmm0, %eax; movzwl %ax, %eax";
 static const char f32i32[] = "cvttss2sil %xmm0, %eax";
 static const char f32u32[] = "cvttss2siq %xmm0, %rax";
 static const char f32i64[] = "cvttss2siq %xmm0, %rax";
-static const char f32u64[] = "cvttss2siq %xmm0, %rax";
+static const char f32u64[] =
+  "mov $0x5f000000,%eax; movd %eax,%xmm1; comiss %xmm1,%xmm0; jae 1f; cvttss2siq %xmm0,%rax; jmp 2f; "
+  "1: subss %xmm1,%xmm0; cvttss2siq %xmm0,%rax; btc $63,%rax; 2:";
 static const char f32f64[] = "cvtss2sd %xmm0, %xmm0";
 static const char f32f80[] = "movss %xmm0, -4(%rsp); flds -4(%rsp)";
 
@@ -127,7 +132,9 @@ static const char f64u16[] = "cvttsd2sil %xmm0, %eax; movzwl %ax, %eax";
 static const char f64i32[] = "cvttsd2sil %xmm0, %eax";
 static const char f64u32[] = "cvttsd2siq %xmm0, %rax";
 static const char f64i64[] = "cvttsd2siq %xmm0, %rax";
-static const char f64u64[] = "cvttsd2siq %xmm0, %rax";
+static const char f64u64[] =
+  "movabs $0x43e0000000000000,%rax; movq %rax,%xmm1; comisd %xmm1,%xmm0; jae 1f; cvttsd2siq %xmm0,%rax; jmp 2f; "
+  "1: subsd %xmm1,%xmm0; cvttsd2siq %xmm0,%rax; btc $63,%rax; 2:";
 static const char f64f32[] = "cvtsd2ss %xmm0, %xmm0";
 static const char f64f80[] = "movsd %xmm0, -8(%rsp); fldl -8(%rsp)";
 
-- 
2.43.0


From 7f7ff99efbf0e77d0e0bab4a5bfc76de5bd827f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 019/122] fix: increments step floating-point numbers and
 evaluate their operand once

---
 src/compiler/codegen/asm/asm_codegen.c | 68 ++++++++++++++++----------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 783036e..f002016 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1611,32 +1611,50 @@ static i32 asm_pop_args(ASMCodegenData_T* cg, ASTNode_T* node)
 
 static void asm_gen_inc(ASMCodegenData_T* cg, ASTNode_T* node)
 {
-    // convert x++ to (x = x + 1) - 1
-    //         x-- to (x = x + -1) - -1
-    ASTNode_T addend = {
-        .kind = ND_INT,
-        .int_val = node->kind == ND_INC ? 1 : -1,
-        .data_type = (ASTType_T*) primitives[TY_I32]
-    };
-
-    ASTNode_T converted = {
-        .kind = ND_SUB,
-        .data_type = node->data_type,
-        .right = &addend,
-        .left = &(ASTNode_T) {
-            .kind = ND_ASSIGN,
-            .data_type = node->data_type,
-            .left = node->left,
-            .right = &(ASTNode_T) {
-                .kind = ND_ADD,
-                .left = node->left,
-                .right = &addend,
-                .data_type = node->left->data_type
-            } 
-        }
-    };
+    // evaluate the address once, leave the old value in %rax (or %xmm0, %st(0))
+    // and store the value plus/minus one
+    ASTType_T* ty = unpack(node->left->data_type);
+    bool inc = node->kind == ND_INC;
+
+    asm_gen_addr(cg, node->left);
+    asm_println(cg, "  mov %%rax, %%rdi");
+    asm_load(cg, ty);
 
-    asm_gen_expr(cg, &converted);
+    switch(ty->kind)
+    {
+        case TY_F32:
+            asm_println(cg, "  mov $%u, %%eax  # float %s", inc ? 0x3f800000u : 0xbf800000u, inc ? "1" : "-1");
+            asm_println(cg, "  movd %%eax, %%xmm1");
+            asm_println(cg, "  addss %%xmm0, %%xmm1");
+            asm_println(cg, "  movss %%xmm1, (%%rdi)");
+            return;
+        case TY_F64:
+            asm_println(cg, "  mov $%lu, %%rax  # double %s", inc ? 0x3ff0000000000000ul : 0xbff0000000000000ul, inc ? "1" : "-1");
+            asm_println(cg, "  movq %%rax, %%xmm1");
+            asm_println(cg, "  addsd %%xmm0, %%xmm1");
+            asm_println(cg, "  movsd %%xmm1, (%%rdi)");
+            return;
+        case TY_F80:
+            asm_println(cg, "  fld1");
+            if(!inc)
+                asm_println(cg, "  fchs");
+            asm_println(cg, "  fadd %%st(1), %%st");
+            asm_println(cg, "  fstpt (%%rdi)");
+            return;
+        default:
+            break;
+    }
+
+    i32 step = ptr_type(ty) ? MAX(ty->base->size, 1) : 1;
+    asm_println(cg, "  lea %d(%%rax), %%rdx", inc ? step : -step);
+    if(ty->size == 1)
+        asm_println(cg, "  mov %%dl, (%%rdi)");
+    else if(ty->size == 2)
+        asm_println(cg, "  mov %%dx, (%%rdi)");
+    else if(ty->size == 4)
+        asm_println(cg, "  mov %%edx, (%%rdi)");
+    else
+        asm_println(cg, "  mov %%rdx, (%%rdi)");
 }
 
 static void asm_gen_id_ptr(ASMCodegenData_T* cg, ASTNode_T* id)
-- 
2.43.0


From 81905c86994be06a260c5dd801f94d2086d2aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 020/122] fix: a NaN is not zero

---
 src/compiler/codegen/asm/asm_codegen.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index f002016..b86a719 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1261,12 +1261,13 @@ static void asm_cmp_zero(ASMCodegenData_T* cg, ASTType_T* ty)
     switch(ty->kind)
     {
         case TY_F32:
-            asm_println(cg, "  xorps %%xmm1, %%xmm1");
-            asm_println(cg, "  ucomiss %%xmm1, %%xmm0");
+            // all bits but the sign; a NaN is not zero
+            asm_println(cg, "  movd %%xmm0, %%eax");
+            asm_println(cg, "  add %%eax, %%eax");
             return;
         case TY_F64:
-            asm_println(cg, "  xorpd %%xmm1, %%xmm1");
-            asm_println(cg, "  ucomisd %%xmm1, %%xmm0");
+            asm_println(cg, "  movq %%xmm0, %%rax");
+            asm_println(cg, "  add %%rax, %%rax");
             return;
         case TY_F80:
             asm_println(cg, "  fldz");
-- 
2.43.0


From 6cdeb19250d68a132b6716b606a7145cda49567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 021/122] fix: deferred statements do not change the result

---
 src/compiler/codegen/asm/asm_codegen.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index b86a719..1f718f4 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -191,6 +191,8 @@ static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda);
 static void asm_cast(ASMCodegenData_T* cg, ASTType_T* from, ASTType_T* to);
 static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty);
 static void asm_gen_string_literals(ASMCodegenData_T* cg);
+static void asm_pushf(ASMCodegenData_T* cg);
+static void asm_popf(ASMCodegenData_T* cg, i32 reg);
 
 void init_asm_cg(ASMCodegenData_T* cg, Context_T* context, ASTProg_T* ast)
 {
@@ -663,11 +665,21 @@ static void asm_gen_defer(ASMCodegenData_T* cg, List_T* deferred)
     if(!deferred || deferred->size == 0)
         return;
     
+    // the deferred statements must not change the result, wherever it is returned
     asm_push(cg);
+    asm_println(cg, "  push %%rdx");
+    cg->depth++;
+    asm_pushf(cg);
+    asm_println(cg, "  sub $8, %%rsp");
+    asm_println(cg, "  movsd %%xmm1, (%%rsp)");
+    cg->depth++;
     for(size_t i = 0; i < deferred->size; i++)
     {
         asm_gen_stmt(cg, deferred->items[i]);
     }
+    asm_popf(cg, 1);
+    asm_popf(cg, 0);
+    asm_pop(cg, "%rdx");
     asm_pop(cg, "%rax");
 }
 
-- 
2.43.0


From 53e2e237196bfda8f1adc7f4d3fef613167ceb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 022/122] fix: an indexed element passed on the stack keeps its
 index

---
 src/compiler/ast/ast.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ast/ast.h b/src/compiler/ast/ast.h
index b824f02..c1c43bd 100644
--- a/src/compiler/ast/ast.h
+++ b/src/compiler/ast/ast.h
@@ -150,10 +150,12 @@ struct AST_NODE_STRUCT
 
     union { 
         bool is_default_case : 1; // case
-        bool pass_by_stack   : 1; // call
         bool from_back       : 1; // index
     };
 
+    // argument of a call; any expression can be one
+    bool pass_by_stack : 1;
+
     UnpackMode_T unpack_mode : 2;
 
     // assignment expression
-- 
2.43.0


From d4d2c6ef5fd991840de8125c47563876ff5b0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 023/122] fix: a struct has the same size whenever it is
 calculated

---
 src/compiler/parser/validator.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 719fa7f..b58266a 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2372,7 +2372,10 @@ static i32 get_struct_size(Validator_T* v, ASTType_T* struct_type, List_T** stru
 
     list_pop(*struct_types);
 
-    return align_to(bits, get_type_align(v, struct_type) * 8) / 8;
+    // the alignment depends on the size, which must not be the one of an earlier, unaligned calculation
+    struct_type->size = bits / 8;
+    struct_type->size = align_to(bits, get_type_align(v, struct_type) * 8) / 8;
+    return struct_type->size;
 };
 
 static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_types)
-- 
2.43.0


From d5c3037523d923711c8608d8eea569466e783209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 024/122] fix: constant comparisons compare unsigned numbers as
 unsigned ones

---
 src/compiler/codegen/asm/relocation.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compiler/codegen/asm/relocation.c b/src/compiler/codegen/asm/relocation.c
index 498d302..a706a97 100644
--- a/src/compiler/codegen/asm/relocation.c
+++ b/src/compiler/codegen/asm/relocation.c
@@ -149,6 +149,15 @@ static ConstScalar_T eval_const_scalar(ASMCodegenData_T* cg, ASTNode_T* node)
             value = eval_const_scalar(cg, node->left);
             return cast_const_scalar(value, is_unsigned(unpack(node->left->data_type)), ty);
 
+        case ND_EQ:
+        case ND_NE:
+        case ND_GT:
+        case ND_GE:
+        case ND_LT:
+        case ND_LE:
+            // the operands decide whether numbers are compared as signed or unsigned ones
+            ty = unpack(node->left->data_type);
+            // fall through
         default:
             value.int_val = ty && is_unsigned(ty) ? const_u64(cg->context, node) : (u64) const_i64(cg->context, node);
             break;
-- 
2.43.0


From bf6d42a64861851991d1db2201a61fab7556c863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 025/122] fix: interpreted integers are read in their own width

---
 src/compiler/interpreter/value.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 2674f11..587a94a 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -17,13 +17,13 @@ void interpreter_value_to_str(InterpreterValue_T* value, char* dst, size_t len)
         case TY_I16:
         case TY_I32:
         case TY_I64:
-            snprintf(dst, len, "%ld", value->value.integer.i64);
+            snprintf(dst, len, "%ld", interpreter_value_i64(value));
             break;
         case TY_U8:
         case TY_U16:
         case TY_U32:
         case TY_U64:
-            snprintf(dst, len, "%lu", value->value.uinteger.u64);
+            snprintf(dst, len, "%lu", (u64) interpreter_value_i64(value));
             break;
     
         case TY_F32:
@@ -71,13 +71,12 @@ bool interpreter_value_is_falsy(InterpreterValue_T value)
         case TY_I16:
         case TY_I32:
         case TY_I64:
-            return value.value.integer.i64 == 0;
-
         case TY_U8:
         case TY_U16:
         case TY_U32:
         case TY_U64:
-            return value.value.uinteger.u64 == 0;
+        case TY_ENUM:
+            return interpreter_value_i64(&value) == 0;
 
         case TY_F32:
             return value.value.flt.f32 == 0;
@@ -111,17 +110,27 @@ i64 interpreter_value_i64(InterpreterValue_T* value)
     switch(value->type->kind)
     {
         case TY_I8:
+            return (i64) value->value.integer.i8;
         case TY_I16:
+            return (i64) value->value.integer.i16;
         case TY_I32:
+        case TY_ENUM:
+            return (i64) value->value.integer.i32;
         case TY_I64:
             return value->value.integer.i64;
 
         case TY_U8:
+            return (i64) value->value.uinteger.u8;
         case TY_U16:
+            return (i64) value->value.uinteger.u16;
         case TY_U32:
+            return (i64) value->value.uinteger.u32;
         case TY_U64:
             return (i64) value->value.uinteger.u64;
 
+        case TY_BOOL:
+            return (i64) value->value.boolean;
+
         case TY_PTR:
             return (i64) value->value.ptr;
 
-- 
2.43.0


From edf24e71e0cc5f1724ba3b8c302301be437b9d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 026/122] fix: interpreted operands are converted to a common
 type

---
 src/compiler/interpreter/interpreter.c | 94 ++++++++++++++++++++++----
 src/compiler/interpreter/value.c       |  6 +-
 src/compiler/interpreter/value.h       |  2 -
 3 files changed, 83 insertions(+), 19 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 421fe7e..d1aa507 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -89,16 +89,27 @@
 #define COMPARISON_OP_CASE(node_kind, op) case node_kind: do {      \
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
     InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
-    switch(left_value.type->kind) {                                 \
-        case TY_F32: case TY_F64: case TY_F80:                      \
-            return BOOL_VALUE(interpreter_value_f80(&left_value) op interpreter_value_f80(&right_value)); \
-        default:                                                    \
-            return BOOL_VALUE(interpreter_value_i64(&left_value) op interpreter_value_i64(&right_value)); \
-    }} while(0)
+    if(is_flonum((ASTType_T*) left_value.type) || is_flonum((ASTType_T*) right_value.type))   \
+        return BOOL_VALUE(interpreter_value_f80(&left_value) op interpreter_value_f80(&right_value)); \
+    if(is_unsigned((ASTType_T*) left_value.type) || PTR_TYPE(left_value.type))   \
+        return BOOL_VALUE((u64) interpreter_value_i64(&left_value) op (u64) interpreter_value_i64(&right_value)); \
+    return BOOL_VALUE(interpreter_value_i64(&left_value) op interpreter_value_i64(&right_value)); \
+    } while(0)
 
 #define INTEGER_INFIX_OP_CASE(node_kind, op) case node_kind: do {       \
-        InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
-        InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
+        InterpreterValue_T left_value = eval_operand(ictx, expr, expr->left);    \
+        InterpreterValue_T right_value = eval_operand(ictx, expr, expr->right);  \
+        switch(left_value.type->kind) {                                 \
+            INTLIKE_INFIX_OP_CASES(left_value, right_value, op);        \
+            default: unreachable();                                     \
+        }                                                               \
+        return left_value;                                              \
+    } while(0)
+
+#define SHIFT_OP_CASE(node_kind, op) case node_kind: do {               \
+        InterpreterValue_T left_value = eval_operand(ictx, expr, expr->left);    \
+        InterpreterValue_T count = interpreter_eval_expr(ictx, expr->right);     \
+        InterpreterValue_T right_value = I64_VALUE(interpreter_value_i64(&count)); \
         switch(left_value.type->kind) {                                 \
             INTLIKE_INFIX_OP_CASES(left_value, right_value, op);        \
             default: unreachable();                                     \
@@ -184,6 +195,7 @@ static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTTyp
 static InterpreterValue_T load_value(LValue_T lvalue);
 static LValue_T eval_lvalue(InterpreterContext_T* ictx, ASTNode_T* node);
 static void assign_lvalue(LValue_T dest, InterpreterValue_T* value);
+static bool interpreter_values_equal(InterpreterValue_T a, InterpreterValue_T b);
 
 void init_interpreter_context(InterpreterContext_T* ictx, Context_T* context, ASTProg_T* ast)
 {
@@ -390,6 +402,40 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
     }
 }
 
+static InterpreterValue_T convert_value(InterpreterContext_T* ictx, InterpreterValue_T value, ASTType_T* to)
+{
+    to = unpack(to);
+    if(!to || !value.type || value.type->kind == to->kind)
+        return value;
+
+    InterpreterValue_T (*const cast_fn)(InterpreterContext_T*, InterpreterValue_T*) = type_cast_map[value.type->kind][to->kind];
+    return cast_fn ? cast_fn(ictx, &value) : value;
+}
+
+// evaluates an operand of an arithmetic expression in the type of the result
+static inline InterpreterValue_T eval_operand(InterpreterContext_T* ictx, ASTNode_T* expr, ASTNode_T* operand)
+{
+    return convert_value(ictx, interpreter_eval_expr(ictx, operand), expr->data_type);
+}
+
+static inline bool is_zero_divisor(InterpreterContext_T* ictx, ASTNode_T* expr, InterpreterValue_T divisor)
+{
+    if(is_flonum((ASTType_T*) divisor.type) || !interpreter_value_is_falsy(divisor))
+        return false;
+
+    throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "division by zero");
+    return true;
+}
+
+static bool interpreter_values_equal(InterpreterValue_T a, InterpreterValue_T b)
+{
+    if(is_flonum((ASTType_T*) a.type) || is_flonum((ASTType_T*) b.type))
+        return interpreter_value_f80(&a) == interpreter_value_f80(&b);
+    if(a.type->kind == TY_FN)
+        return a.value.fn_obj == b.value.fn_obj;
+    return interpreter_value_i64(&a) == interpreter_value_i64(&b);
+}
+
 static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T* expr)
 {
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
@@ -402,6 +448,8 @@ static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T*
         return left_value;
     }
 
+    left_value = convert_value(ictx, left_value, expr->data_type);
+    right_value = convert_value(ictx, right_value, expr->data_type);
     switch(left_value.type->kind)
     {
         NUMERIC_INFIX_OP_CASES(left_value, right_value, +);
@@ -430,6 +478,8 @@ static inline InterpreterValue_T eval_sub(InterpreterContext_T* ictx, ASTNode_T*
         return left_value;
     }
 
+    left_value = convert_value(ictx, left_value, expr->data_type);
+    right_value = convert_value(ictx, right_value, expr->data_type);
     switch(left_value.type->kind)
     {
         NUMERIC_INFIX_OP_CASES(left_value, right_value, -);
@@ -567,8 +617,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             return eval_sub(ictx, expr);
         case ND_MUL:
         {
-            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T left_value = eval_operand(ictx, expr, expr->left);
+            InterpreterValue_T right_value = eval_operand(ictx, expr, expr->right);
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, *);
@@ -578,8 +628,10 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         }
         case ND_DIV:
         {
-            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T left_value = eval_operand(ictx, expr, expr->left);
+            InterpreterValue_T right_value = eval_operand(ictx, expr, expr->right);
+            if(is_zero_divisor(ictx, expr, right_value))
+                return right_value;
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, /);
@@ -587,7 +639,19 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             }
             return left_value;
         }
-        INTEGER_INFIX_OP_CASE(ND_MOD, %);
+        case ND_MOD:
+        {
+            InterpreterValue_T left_value = eval_operand(ictx, expr, expr->left);
+            InterpreterValue_T right_value = eval_operand(ictx, expr, expr->right);
+            if(is_zero_divisor(ictx, expr, right_value))
+                return right_value;
+            switch(left_value.type->kind)
+            {
+                INTLIKE_INFIX_OP_CASES(left_value, right_value, %);
+                default: unreachable();
+            }
+            return left_value;
+        }
         case ND_ID:
         {
             ASTObj_T* obj = expr->referenced_obj;
@@ -668,8 +732,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         }
         INTEGER_INFIX_OP_CASE(ND_BIT_AND, &);
         INTEGER_INFIX_OP_CASE(ND_BIT_OR, |);
-        INTEGER_INFIX_OP_CASE(ND_LSHIFT, <<);
-        INTEGER_INFIX_OP_CASE(ND_RSHIFT, >>);
+        SHIFT_OP_CASE(ND_LSHIFT, <<);
+        SHIFT_OP_CASE(ND_RSHIFT, >>);
         INTEGER_INFIX_OP_CASE(ND_XOR, ^);
         case ND_EQ:
         {
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 587a94a..3d3a4b4 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -156,9 +156,11 @@ f80 interpreter_value_f80(InterpreterValue_T* value)
         case TY_F80:
             return value->value.flt.f80;
         
+        case TY_U64:
+            return (f80) value->value.uinteger.u64;
+
         default:
-            unreachable();
-            return 0.0L;
+            return (f80) interpreter_value_i64(value);
     }
 }
 
diff --git a/src/compiler/interpreter/value.h b/src/compiler/interpreter/value.h
index db902e5..b45589b 100644
--- a/src/compiler/interpreter/value.h
+++ b/src/compiler/interpreter/value.h
@@ -94,8 +94,6 @@ ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_
 
 #define interpreter_value_is_truthy(value) (!interpreter_value_is_falsy((value)))
 
-#define interpreter_values_equal(a, b) (memcmp(&(a).value, &(b).value, sizeof(InterpreterValueUnion_T)) == 0)
-
 #define ConstInterpreterValueList_M(sz) struct { \
         size_t size;                             \
         size_t allocated;                        \
-- 
2.43.0


From bb1086ae259cb08b8419589f4de3de760ec819d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 027/122] fix: interpreted functions keep their variables
 across calls, loops and branches

---
 src/compiler/interpreter/interpreter.c | 139 ++++++++++++++++++-------
 src/compiler/interpreter/value.c       |  10 +-
 2 files changed, 105 insertions(+), 44 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index d1aa507..ac6516f 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -196,6 +196,7 @@ static InterpreterValue_T load_value(LValue_T lvalue);
 static LValue_T eval_lvalue(InterpreterContext_T* ictx, ASTNode_T* node);
 static void assign_lvalue(LValue_T dest, InterpreterValue_T* value);
 static bool interpreter_values_equal(InterpreterValue_T a, InterpreterValue_T b);
+static bool interpreter_case_matches(InterpreterValue_T value, InterpreterValue_T limit, ASTNodeKind_T mode);
 
 void init_interpreter_context(InterpreterContext_T* ictx, Context_T* context, ASTProg_T* ast)
 {
@@ -304,8 +305,8 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
         case ND_NOOP:
             break;
         case ND_RETURN:
-            ictx->returned = true;
             ictx->return_value = stmt->return_val ? interpreter_eval_expr(ictx, stmt->return_val) : VOID_VALUE;
+            ictx->returned = true;
             break;
         case ND_EXPR_STMT:
             interpreter_eval_expr(ictx, stmt->expr);
@@ -315,12 +316,21 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 eval_stmt(ictx, stmt->body);
             break;
         case ND_BLOCK:
+            for(size_t i = 0; i < stmt->locals->size; i++)
+            {
+                ASTObj_T* local = stmt->locals->items[i];
+                memset(&ictx->stack->data[local->offset], 0, local->data_type->size);
+            }
+
             for(size_t i = 0; i < stmt->stmts->size && !ictx->returned && !ictx->broken && !ictx->continued; i++)
                 eval_stmt(ictx, stmt->stmts->items[i]);
         break;
         case ND_IF:
             if(interpreter_value_is_falsy(interpreter_eval_expr(ictx, stmt->condition)))
-                eval_stmt(ictx, stmt->else_branch);
+            {
+                if(stmt->else_branch)
+                    eval_stmt(ictx, stmt->else_branch);
+            }
             else
                 eval_stmt(ictx, stmt->if_branch);
             break;
@@ -329,40 +339,41 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 eval_stmt(ictx, stmt->body);
             break;
         case ND_LOOP:
-            ictx->broken = false;
             while(!ictx->broken && !ictx->returned)
             {
-                ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
+                ictx->continued = false;
             };
+            ictx->broken = false;
             break;
         case ND_WHILE:
-            ictx->broken = false;
             while(!ictx->broken && !ictx->returned && interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
             {
-                ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
+                ictx->continued = false;
             }
+            ictx->broken = false;
             break;
         case ND_DO_WHILE:
-            ictx->broken = false;
             do {
-                ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
+                ictx->continued = false;
             } while(!ictx->broken && !ictx->returned && interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)));
+            ictx->broken = false;
             break;
         case ND_FOR:
-            ictx->broken = false;
             if(stmt->init_stmt)
                 eval_stmt(ictx, stmt->init_stmt);
-            while(interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
+            while(!stmt->condition || interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
             {
-                ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
+                ictx->continued = false;
                 if(ictx->broken || ictx->returned)
                     break;
-                interpreter_eval_expr(ictx, stmt->expr);
+                if(stmt->expr)
+                    interpreter_eval_expr(ictx, stmt->expr);
             }
+            ictx->broken = false;
             break;
         // TODO: ND_FOR_RANGE
         case ND_CONTINUE:
@@ -379,15 +390,17 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
             {
                 ASTNode_T* case_stmt = stmt->cases->items[i];
                 InterpreterValue_T case_condition = interpreter_eval_expr(ictx, case_stmt->condition);
-                if(interpreter_values_equal(condition, case_condition))
+                if(interpreter_case_matches(condition, case_condition, case_stmt->mode))
                 {
                     eval_stmt(ictx, case_stmt->body);
+                    ictx->broken = false;
                     return;
                 }
             }
 
             if(stmt->default_case)
                 eval_stmt(ictx, stmt->default_case->body);
+            ictx->broken = false;
             break;
         }
         case ND_MATCH_TYPE:
@@ -436,6 +449,40 @@ static bool interpreter_values_equal(InterpreterValue_T a, InterpreterValue_T b)
     return interpreter_value_i64(&a) == interpreter_value_i64(&b);
 }
 
+static bool interpreter_case_matches(InterpreterValue_T value, InterpreterValue_T limit, ASTNodeKind_T mode)
+{
+    bool less, greater;
+    if(is_flonum((ASTType_T*) value.type))
+    {
+        less = interpreter_value_f80(&value) < interpreter_value_f80(&limit);
+        greater = interpreter_value_f80(&value) > interpreter_value_f80(&limit);
+    }
+    else if(is_unsigned((ASTType_T*) value.type))
+    {
+        less = (u64) interpreter_value_i64(&value) < (u64) interpreter_value_i64(&limit);
+        greater = (u64) interpreter_value_i64(&value) > (u64) interpreter_value_i64(&limit);
+    }
+    else
+    {
+        less = interpreter_value_i64(&value) < interpreter_value_i64(&limit);
+        greater = interpreter_value_i64(&value) > interpreter_value_i64(&limit);
+    }
+
+    switch(mode)
+    {
+        case ND_LT:
+            return less;
+        case ND_LE:
+            return less || interpreter_values_equal(value, limit);
+        case ND_GT:
+            return greater;
+        case ND_GE:
+            return greater || interpreter_values_equal(value, limit);
+        default:
+            return interpreter_values_equal(value, limit);
+    }
+}
+
 static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T* expr)
 {
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
@@ -575,12 +622,18 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             return value;
         }
         case ND_SIZEOF:
-            return I64_VALUE(expr->the_type->size);
+            return U64_VALUE(expr->the_type->size);
         case ND_ALIGNOF:
-            return I64_VALUE(expr->the_type->align);
+            return U64_VALUE(expr->the_type->align);
         case ND_PIPE:
-            ictx->pipe_value = interpreter_eval_expr(ictx, expr->left);
-            return interpreter_eval_expr(ictx, expr->right);
+        {
+            InterpreterValue_T value = interpreter_eval_expr(ictx, expr->left);
+            InterpreterValue_T outer_pipe_value = ictx->pipe_value;
+            ictx->pipe_value = value;
+            value = interpreter_eval_expr(ictx, expr->right);
+            ictx->pipe_value = outer_pipe_value;
+            return value;
+        }
         case ND_HOLE:
             return ictx->pipe_value;    
         case ND_TERNARY:
@@ -785,29 +838,39 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
 
     //    printf(COLOR_BOLD_CYAN ">>> Entering %s(%zu)\n" COLOR_RESET, fn->id->callee, args->size);
     
+    // the variables of an outer call of the same function are still needed after this one
+    List_T* const vars[] = {fn->args, fn->objs};
+    size_t* outer_offsets = malloc((fn->args->size + fn->objs->size + 1) * sizeof(size_t));
+    for(size_t v = 0, n = 0; v < 2; v++)
+        for(size_t i = 0; i < vars[v]->size; i++)
+            outer_offsets[n++] = ((ASTObj_T*) vars[v]->items[i])->offset;
+
     const size_t stack_size_before = ictx->stack->size;
+    size_t stack_size = stack_size_before;
+    for(size_t v = 0; v < 2; v++)
+        for(size_t i = 0; i < vars[v]->size; i++)
+        {
+            ASTObj_T* var = vars[v]->items[i];
+            stack_size = align_to(stack_size, var->data_type->align);
+            var->offset = stack_size;
+            stack_size += var->data_type->size;
+        }
+    interpreter_stack_grow(&ictx->stack, stack_size - stack_size_before);
+
     for(size_t i = 0; i < args->size; i++) {
-        const InterpreterValue_T* arg_value = &args->data[i];
         ASTObj_T* arg = fn->args->items[i];
-        arg->offset = ictx->stack->size;
-        interpreter_stack_push(&ictx->stack, &arg_value->value, arg->data_type->size);
+        memcpy(&ictx->stack->data[arg->offset], &args->data[i].value, arg->data_type->size);
     }
 
-    size_t stack_size = ictx->stack->size;
-    for(size_t i = 0; i < fn->objs->size; i++)
-    {
-        ASTObj_T* local = fn->objs->items[i];
-        stack_size = align_to(stack_size, local->data_type->align);
-        local->offset = stack_size;
-        stack_size += local->data_type->size;
-    }
-    interpreter_stack_grow(&ictx->stack, stack_size - stack_size_before);
-
 //    dump_stack(ictx->stack);
     
     eval_stmt(ictx, fn->body);
 
     interpreter_stack_shrink_to(ictx->stack, stack_size_before);
+    for(size_t v = 0, n = 0; v < 2; v++)
+        for(size_t i = 0; i < vars[v]->size; i++)
+            ((ASTObj_T*) vars[v]->items[i])->offset = outer_offsets[n++];
+    free(outer_offsets);
 //    printf(COLOR_BOLD_CYAN "<<<\n" COLOR_RESET);
     ictx->recursion_depth--;
 
@@ -836,14 +899,16 @@ static LValue_T eval_lvalue(InterpreterContext_T* ictx, ASTNode_T* node)
 
 static void push_global(InterpreterContext_T* ictx, ASTObj_T* global)
 {
+    // evaluating the value may push other globals
+    InterpreterValue_T value = {0};
+    if(global->value)
+        value = interpreter_eval_expr(ictx, global->value);
+
     global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
-    if(global->value) 
-    {
-        InterpreterValue_T value = interpreter_eval_expr(ictx, global->value);
-        interpreter_stack_push(&ictx->global_storage, &value.value, MIN(global->data_type->size, value.type->size));
-    }
-    else
-        interpreter_stack_grow(&ictx->global_storage, global->data_type->size);
+    interpreter_stack_grow(&ictx->global_storage, global->data_type->size);
+    memset(&ictx->global_storage->data[global->offset], 0, global->data_type->size);
+    if(global->value)
+        memcpy(&ictx->global_storage->data[global->offset], &value.value, MIN(global->data_type->size, value.type->size));
 }
 
 static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTType_T* ty, Token_T* tok)
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 3d3a4b4..e374413 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -256,12 +256,9 @@ InterpreterValueList_T* init_interpreter_value_list(size_t capacity)
 
 size_t interpreter_value_list_push(InterpreterValueList_T** list, InterpreterValue_T* value)
 {
-    // cannot push to constant lists
-    assert((*list)->allocated);
-
-    if((*list))
+    if((*list)->size >= (*list)->allocated)
     {
-        (*list)->allocated *= 2;
+        (*list)->allocated = ((*list)->size + 1) * 2;
         *list = realloc(*list, (*list)->allocated * sizeof(InterpreterValue_T) + sizeof(InterpreterValueList_T)); // TODO: find better allocation curve
     }
 
@@ -274,6 +271,5 @@ size_t interpreter_value_list_push(InterpreterValueList_T** list, InterpreterVal
 
 void free_interpreter_value_list(InterpreterValueList_T* list)
 {
-    if(list->allocated != 0)
-        free(list);
+    free(list);
 }
-- 
2.43.0


From 5a4fcbba45b3dabaa80f1ae9016dd81910c0ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 028/122] fix: interpreted string literals point to their text

---
 src/compiler/interpreter/interpreter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index ac6516f..bb8d276 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -225,7 +225,7 @@ void free_interpreter_context(InterpreterContext_T* ictx)
 static inline InterpreterValue_T push_str_lit(InterpreterContext_T* ictx, const char* str_lit)
 {
     size_t stack_addr = interpreter_stack_push(&ictx->global_storage, str_lit, strlen(str_lit) + 1);
-    return PTR_VALUE(&ictx->global_storage[stack_addr], char_ptr_type);
+    return PTR_VALUE(&ictx->global_storage->data[stack_addr], char_ptr_type);
 }
 
 static inline InterpreterValue_T push_argv(InterpreterContext_T* ictx)
-- 
2.43.0


From 839bf02f161ff092724265c8122eac12fd56139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:40 +0000
Subject: [PATCH 029/122] fix: a constexpr function may use its own variables

---
 src/compiler/parser/validator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index b58266a..276a0a3 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -584,7 +584,8 @@ static void validate_ident_expr(ASTNode_T* node, va_list args)
         node->id->outer->outer = result.obj->id->outer;
     }
 
-    if(v->current_obj && v->current_obj->constexpr && !node->referenced_obj->constexpr && node->referenced_obj->kind != OBJ_FN_ARG)
+    if(v->current_obj && v->current_obj->constexpr && !node->referenced_obj->constexpr
+        && node->referenced_obj->kind != OBJ_FN_ARG && node->referenced_obj->kind != OBJ_LOCAL)
     {
         char buf[BUFSIZ] = {'\0'};
         throw_error(v->context, ERR_CONSTEXPR, node->tok, "%s `%s` is not marked as `[constexpr]`", obj_kind_to_str(node->referenced_obj->kind), ast_id_to_str(buf, node->referenced_obj->id, LEN(buf)));
-- 
2.43.0


From a2d8f82c94e52e9a1ca155b8c9bc52ca529d92d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 030/122] fix: the interpreter starts without a pending return

---
 src/compiler/interpreter/interpreter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index bb8d276..ecc399a 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -209,6 +209,8 @@ void init_interpreter_context(InterpreterContext_T* ictx, Context_T* context, AS
 
     ictx->string_literals = hashmap_init();
     ictx->broken = false;
+    ictx->continued = false;
+    ictx->returned = false;
 
     // assure that address 0 is always occupied
     u8 null_byte = 0;
-- 
2.43.0


From ad119901ad1625a45e08941a057c9b215ae8bb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 031/122] fix: pointers into the interpreter's stack stay valid

---
 src/compiler/interpreter/interpreter.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index ecc399a..e9f779c 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -20,6 +20,9 @@
 
 #define MAX_RECURSION_DEPTH 1024
 
+// pointers into the stack become invalid when it has to be moved
+#define INITIAL_STACK_SIZE (16 * 1024 * 1024)
+
 #define PTR_TYPE(ty) ((ty)->kind == TY_PTR || (ty)->kind == TY_VLA)
 
 #define PREFIX_OP_CASE(csp_type, field, value, op)          \
@@ -202,8 +205,8 @@ void init_interpreter_context(InterpreterContext_T* ictx, Context_T* context, AS
 {
     ictx->context = context;
     ictx->ast = ast;
-    ictx->stack = init_interpreter_stack(BUFSIZ);
-    ictx->global_storage = init_interpreter_stack(BUFSIZ / 2); // a little smaller is usually enough
+    ictx->stack = init_interpreter_stack(INITIAL_STACK_SIZE);
+    ictx->global_storage = init_interpreter_stack(INITIAL_STACK_SIZE);
     ictx->recursion_depth = 0;
     ictx->constexpr_only = false;
 
-- 
2.43.0


From 6fc996e7df82df1be080d0dc41b8b2f7715d7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 032/122] fix: compound assignments evaluate their target once

---
 src/compiler/codegen/asm/asm_codegen.c | 25 +++++++++++++++++++++++++
 src/compiler/codegen/asm/asm_codegen.h |  3 +++
 2 files changed, 28 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 1f718f4..4273f98 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -982,6 +982,13 @@ static void asm_gen_vtable_member_addr(ASMCodegenData_T* cg, ASTNode_T* node, AS
 
 static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 {
+    if(node == cg->assign_target)
+    {
+        // the address has already been calculated
+        asm_println(cg, "  mov %lu(%%rsp), %%rax", (cg->depth - cg->assign_target_depth) * 8);
+        return;
+    }
+
     switch(node->kind)
     {
         case ND_CLOSURE:
@@ -1732,6 +1739,14 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 {
     if(node->tok && cg->embed_file_locations)
         asm_println(cg, "  .loc %d %d", node->tok->source->file_no + 1, node->tok->line);
+
+    if(node == cg->assign_target && (node->kind == ND_INDEX || node->kind == ND_DEREF))
+    {
+        asm_gen_addr(cg, node);
+        asm_load(cg, node->data_type);
+        return;
+    }
+
     switch(node->kind)
     {
         case ND_NOOP:
@@ -2111,13 +2126,23 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 asm_pop(cg, "%rax");
                 return;
             default:
+            {
                 asm_gen_addr(cg, node->left);
                 asm_push(cg);
+
+                // `a += b` uses the target of the assignment as an operand too
+                ASTNode_T* prev_target = cg->assign_target;
+                u64 prev_target_depth = cg->assign_target_depth;
+                cg->assign_target = node->left;
+                cg->assign_target_depth = cg->depth;
                 asm_gen_expr(cg, node->right);
+                cg->assign_target = prev_target;
+                cg->assign_target_depth = prev_target_depth;
 
                 asm_store(cg, node->left->data_type);
                 return;
             }
+            }
 
         case ND_LAMBDA:
             {
diff --git a/src/compiler/codegen/asm/asm_codegen.h b/src/compiler/codegen/asm/asm_codegen.h
index 48bf6fb..9c6f513 100644
--- a/src/compiler/codegen/asm/asm_codegen.h
+++ b/src/compiler/codegen/asm/asm_codegen.h
@@ -23,6 +23,9 @@ typedef struct ASM_CODEGEN_DATA_STRUCT
     char* current_fn_name;
     u64 depth;
 
+    ASTNode_T* assign_target; // target of the current assignment, whose address is on the stack
+    u64 assign_target_depth;  // stack depth of this address
+
     List_T* string_literals;
 
     u64 max_count;  // current maximum label id
-- 
2.43.0


From b8175250272233cbecef65a899183c29380decee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 033/122] fix: array literals count every unpacked array

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 276a0a3..6222cd5 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1744,7 +1744,7 @@ static void iter_validate_array_lit(ASTNode_T* array_lit, va_list args)
             continue;
         }
 
-        array_lit->data_type->num_indices += unpack(first_arg->data_type)->num_indices;
+        array_lit->data_type->num_indices += unpack(arg->data_type)->num_indices;
     }
 
     array_lit->data_type->size = get_type_size(v, array_lit->data_type);
-- 
2.43.0


From f2cf82fcd1025c6b13da48fb23ab682f710465ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 034/122] fix: variable arguments follow the fixed arguments on
 the stack

---
 src/compiler/codegen/asm/asm_codegen.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 4273f98..f19fb05 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -712,14 +712,21 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
     // save arg registers if function is variadic
     if(is_variadic(obj->data_type))
     {
-        i32 gp = 0, fp = 0;
+        i32 gp = 0, fp = 0, overflow = 16;
         if(obj->return_ptr)
             gp++;
         for(size_t j = 0; j < obj->args->size; j++)
         {
             ASTObj_T* arg = obj->args->items[j];
-            if(is_flonum(unpack(arg->data_type)))
+            ASTType_T* ty = unpack(arg->data_type);
+
+            // the variable arguments follow the arguments passed on the stack
+            if(arg->offset > 0)
+                overflow = MAX(overflow, arg->offset + align_to(ty->size, 8));
+            else if(is_flonum(ty))
                 fp++;
+            else if(ty->kind == TY_STRUCT || ty->kind == TY_DYN)
+                asm_struct_in_regs(ty, &gp, &fp);
             else
                 gp++;
         }
@@ -730,7 +737,7 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
 		asm_println(cg, "  movl $%d, %d(%%rbp)", gp * 8, off);          // gp_offset
 		asm_println(cg, "  movl $%d, %d(%%rbp)", fp * 8 + 48, off + 4); // fp_offset
 		asm_println(cg, "  movq %%rbp, %d(%%rbp)", off + 8);            // overflow_arg_area
-		asm_println(cg, "  addq $16, %d(%%rbp)", off + 8);
+		asm_println(cg, "  addq $%d, %d(%%rbp)", overflow, off + 8);
 		asm_println(cg, "  movq %%rbp, %d(%%rbp)", off + 16);           // reg_save_area
 		asm_println(cg, "  addq $%d, %d(%%rbp)", off + 24, off + 16);
             
-- 
2.43.0


From 4e3241394f1bc848ee1cf041dc9dc1c3ec9fd7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 035/122] fix: unpacked arrays of named types are unpacked and
 converted by element

---
 src/compiler/codegen/asm/asm_codegen.c | 2 ++
 src/compiler/parser/typechecker.c      | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index f19fb05..138db77 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2049,6 +2049,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                             },
                             .data_type = arg_type->base
                         });
+                        asm_cast(cg, arg_type->base, node->data_type->base);
 
                         asm_store(cg, node->data_type->base);
                     }
@@ -2110,6 +2111,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                                 },
                                 .data_type = unpack(arg->data_type)->base
                             });
+                            asm_cast(cg, unpack(arg->data_type)->base, node->right->data_type->base);
                             asm_store(cg, node->right->data_type->base);
                             asm_println(cg, "  mov %%rdi, %%rax");
                             asm_println(cg, "  add $%d, %%rax", node->right->data_type->base->size);
diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 0f8efad..b475659 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -341,14 +341,16 @@ static void typecheck_array_lit(ASTNode_T* a_lit, va_list args)
                 continue;
             }
 
-            arg_type = unpack(arg_type)->base;
+            arg_type = unpack(unpack(arg_type)->base);
         }
 
         if(types_equal(t->context, arg_type, base_ty))
             continue;
 
         ImplicitCastResult_T result = implicitly_castable(t, arg->tok, arg_type, base_ty);
-        if(result & CAST_OK)
+        if(arg->unpack_mode && result == CAST_OK)
+            continue; // the elements are converted one by one when the array gets unpacked
+        else if(result & CAST_OK)
             a_lit->args->items[i] = implicit_cast(t, arg->tok, arg, base_ty, result);
         else {
             memset(buf1, 0, LEN(buf1));
-- 
2.43.0


From abf45bb9c503f20a4f60f47810a5b6009220bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 036/122] fix: array literals take the element type of their
 destination

---
 src/compiler/parser/validator.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 6222cd5..8dc7377 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1021,6 +1021,27 @@ static void iter_leave_fn_arg(ASTObj_T* arg, va_list args)
     validator_pop_obj(v);
 }
 
+// the elements of an array literal get the element type of the array they are stored in
+static void array_lit_for_type(Validator_T* v, ASTNode_T* array_lit, ASTType_T* type)
+{
+    type = type ? unpack(type) : NULL;
+    if(!array_lit || array_lit->kind != ND_ARRAY || !array_lit->data_type || !type || type->kind != TY_ARRAY || !type->base)
+        return;
+
+    if(!type->base->size)
+        type->base->size = get_type_size(v, type->base);
+    array_lit->data_type->base = type->base;
+
+    for(size_t i = 0; i < array_lit->args->size; i++)
+    {
+        ASTNode_T* arg = array_lit->args->items[i];
+        if(!arg->unpack_mode)
+            array_lit_for_type(v, arg, type->base);
+    }
+
+    array_lit->data_type->size = get_type_size(v, array_lit->data_type);
+}
+
 static void iter_enter_global(ASTObj_T* global, va_list args)
 {
     if(global->value)
@@ -1044,6 +1065,7 @@ static void iter_leave_global(ASTObj_T* global, va_list args)
 
         global->data_type = global->value->data_type;
     }
+    array_lit_for_type(v, global->value, global->data_type);
 
     ASTType_T* type = unpack(global->data_type);
     if(type->is_constant)
@@ -1619,6 +1641,7 @@ static void iter_leave_assignment(ASTNode_T* assign, va_list args)
     if(assign->is_initializing && assign->referenced_obj)
         local_initializer(v, assign, assign->referenced_obj);
 
+    array_lit_for_type(v, assign->right, assign->left->data_type);
 
     switch(expand_closure(assign->left)->kind)
     {
@@ -1703,6 +1726,11 @@ static void iter_validate_struct_lit(ASTNode_T* struct_lit, va_list args)
     if(!struct_lit->data_type)
         validate_anon_struct_lit(v, struct_lit);
 
+    ASTType_T* type = unpack(struct_lit->data_type);
+    if(type && type->kind == TY_STRUCT && type->members)
+        for(size_t i = 0; i < struct_lit->args->size && i < type->members->size; i++)
+            array_lit_for_type(v, struct_lit->args->items[i], ((ASTNode_T*) type->members->items[i])->data_type);
+
     if(v->context->ct == CT_ASM && !struct_lit->is_assigning && in_function(v))
     {
         struct_lit->buffer = init_ast_obj(&v->context->raw_allocator, OBJ_LOCAL, struct_lit->tok);
-- 
2.43.0


From 91666c560609e685481d900608a2b2360168d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 037/122] fix: std::memory::realloc keeps to the old block,
 std::vec sizes its buffers right

---
 src/std/memory.csp | 5 ++++-
 src/std/vec.csp    | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/std/memory.csp b/src/std/memory.csp
index 7fbe03b..6cf907c 100644
--- a/src/std/memory.csp
+++ b/src/std/memory.csp
@@ -116,7 +116,10 @@ namespace std {
         fn realloc(ptr: &void, size: usize): &void
         {
             let new = alloc(size);
-            move(new, ptr, size);
+            if ptr == nil || new == nil ret new;
+
+            let old_size = (ptr: &usize)[-1] - sizeof usize;
+            copy(new, ptr, if old_size < size => old_size else size);
             free(ptr);
             <- new;
             #let plen = &(ptr: &usize)[-1];
diff --git a/src/std/vec.csp b/src/std/vec.csp
index 57e5aed..b9f80d1 100644
--- a/src/std/vec.csp
+++ b/src/std/vec.csp
@@ -19,7 +19,7 @@ macro vec(datatype) {
 }
 
 macro vec(datatype, size) {
-    (std::vec::init((size), sizeof (datatype)): &(datatype))
+    (::std::vec::init(sizeof (datatype), (size)): &(datatype))
 }
 
 # macro to get the size of the vector
@@ -220,6 +220,7 @@ namespace std {
             let copy: &VecData = memory::alloc(alloc_size);
             
             memory::copy(copy, v_data, alloc_size);
+            copy.alloc = size;
             <- &copy.buff;
         }
 
-- 
2.43.0


From 57ca2b2afec3fa439631bff9948d9ec2a762aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 038/122] fix: std::hashmap keeps zero keys, mixed-size pairs
 and counts a key once

---
 src/std/hashmap.csp | 61 +++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/std/hashmap.csp b/src/std/hashmap.csp
index e145971..ec37eaf 100644
--- a/src/std/hashmap.csp
+++ b/src/std/hashmap.csp
@@ -64,10 +64,10 @@ macro hashmap_free(map) {
 
 # add a new key-value pair to a hashmap
 macro hashmap_put(map, _key, _val) {
-    (::std::hashmap::put((map), &{
-        (_key): typeof (map).pairs.key, 
-        (_val): typeof (map).pairs.val
-    }))
+    (::std::hashmap::put((map), 
+        &{(_key): typeof (map).pairs.key}, 
+        &{(_val): typeof (map).pairs.val}
+    ))
 }
 
 # get a value from a hashmap with its key
@@ -90,12 +90,21 @@ macro hashmap_values(map) {
     (::std::hashmap::values((map)): &typeof (map).pairs.val)
 }
 
+# size of one slot: the key, the value and a byte telling if the slot is used
+macro hashmap_slot_size(map) {
+    ((map).data.ksize + (map).data.vsize + 1)
+}
+
+macro hashmap_slot_used(map, slot) {
+    ((slot)[(map).data.ksize + (map).data.vsize] != 0)
+}
+
 macro hashmap_size_mod(map, val) {
-    ((val) & ((map).data.alloc / ((map).data.ksize + (map).data.vsize) - 1))
+    ((val) & (hashmap_num_allocated!(map) - 1))
 }
 
 macro hashmap_num_allocated(map) {
-    ((map).data.alloc / ((map).data.ksize + (map).data.vsize))
+    ((map).data.alloc / hashmap_slot_size!(map))
 }
 
 # hashmap implementation
@@ -129,7 +138,7 @@ namespace std {
         }
 
         fn allocate(map: &Template) {
-            map.data.alloc = ((map.data.ksize + map.data.vsize) * HASHMAP_INIT_SIZE);
+            map.data.alloc = (hashmap_slot_size!(map) * HASHMAP_INIT_SIZE);
             map.pairs = memory::alloc(map.data.alloc);
         }
 
@@ -139,7 +148,7 @@ namespace std {
         }
 
         fn has_space(map: &Template): bool {
-            <- map.data.size < map.data.alloc / (map.data.ksize + map.data.vsize);
+            <- map.data.size < hashmap_num_allocated!(map);
         }
 
         fn grow(map: &Template) {
@@ -159,10 +168,10 @@ namespace std {
 
         fn rehash(map: &Template, old_alloc: u64, old_pairs: &u8) {
             for let ptr = old_pairs; ptr < old_pairs + old_alloc; 
-                ptr += ((map.data.ksize + map.data.vsize): u64); {
-                if !memory::is_zero(ptr, map.data.ksize + map.data.vsize) {
+                ptr += (hashmap_slot_size!(map): u64); {
+                if hashmap_slot_used!(map, ptr) {
                     let new = find_pair(map, ptr, true);
-                    memory::copy(new, ptr, map.data.ksize + map.data.vsize);
+                    memory::copy(new, ptr, hashmap_slot_size!(map));
                 }
             }
         }
@@ -181,13 +190,13 @@ namespace std {
 
             # linear probing
             for 0..hashmap_num_allocated!(map) {
-                let pair = &map.pairs[index * (map.data.ksize + map.data.vsize)];
+                let pair = &map.pairs[index * hashmap_slot_size!(map)];
                 
+                if !hashmap_slot_used!(map, pair)
+                    <- if find_empty => pair else nil: &u8;
+
                 if memory::eq(key, pair, map.data.ksize) || (map.data.use_str_hashing && string::equal(*(key: &&const char), *(pair: &&const char)))
                     <- pair;
-
-                if memory::is_zero(pair, map.data.ksize)
-                    <- if find_empty => pair else nil: &u8;
                 
                 index = hashmap_size_mod!(map, index + 1);
             }
@@ -195,13 +204,17 @@ namespace std {
             <- nil;
         }
 
-        fn put(map: &Template, pair: &u8) {
-            map.data.size++;
-            grow(map); # grow if needed
+        fn put(map: &Template, key: &u8, val: &u8) {
+            if find_pair(map, key, false) == nil {
+                map.data.size++;
+                grow(map); # grow if needed
+            }
 
-            let addr = find_pair(map, pair, true);
+            let addr = find_pair(map, key, true);
             if addr {
-                memory::copy(addr, pair, map.data.ksize + map.data.vsize);
+                memory::copy(addr, key, map.data.ksize);
+                memory::copy(addr + (map.data.ksize: u64), val, map.data.vsize);
+                addr[map.data.ksize + map.data.vsize] = 1;
             }
         }
 
@@ -210,8 +223,8 @@ namespace std {
         fn keys(map: &Template): &u8 {
             let v = vec!{u8};
 
-            for let i: u64 = 0; i < map.data.alloc; i += (map.data.ksize + map.data.vsize); {
-                if !memory::is_zero(&map.pairs[i], map.data.ksize)
+            for let i: u64 = 0; i < map.data.alloc; i += hashmap_slot_size!(map); {
+                if hashmap_slot_used!(map, &map.pairs[i])
                     memory::copy(vec::__internal_add(&v, map.data.ksize), &map.pairs[i], map.data.ksize);
             }
 
@@ -221,8 +234,8 @@ namespace std {
         fn values(map: &Template): &u8 {
             let v = vec!{u8};
 
-            for let i: u64 = 0; i < map.data.alloc; i += (map.data.ksize + map.data.vsize); {
-                if !memory::is_zero(&map.pairs[i], map.data.ksize)
+            for let i: u64 = 0; i < map.data.alloc; i += hashmap_slot_size!(map); {
+                if hashmap_slot_used!(map, &map.pairs[i])
                     memory::copy(vec::__internal_add(&v, map.data.vsize), &map.pairs[i] + map.data.ksize, map.data.vsize);
             }
 
-- 
2.43.0


From 67f1b24dadf3d248d045a34a7ed3eedac874d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 039/122] fix: std::character::toupper uppercases

---
 src/std/character.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/character.csp b/src/std/character.csp
index ad4aa6f..076081a 100644
--- a/src/std/character.csp
+++ b/src/std/character.csp
@@ -27,7 +27,7 @@ namespace std {
         
         fn toascii(c: i32): i32 = c & 0x7f;
         fn tolower(c: i32): i32 = if isupper(c) != 0 => c | 32 else c;
-        fn toupper(c: i32): i32 = if islower(c) != 0 => c | 0x05 else c;
+        fn toupper(c: i32): i32 = if islower(c) != 0 => c & 0x5f else c;
 
         fn ismetachar(c: i32): i32 = c == 's' || c == 'S' || c == 'w' || c == 'W' || c == 'd' || c == 'D';
     }
-- 
2.43.0


From 34f642f1215793e822324b81c2ab8b8f2bedd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 040/122] fix: std::io::writeln writes no null characters,
 printf frees its buffer, std::stderr is standard error

---
 src/std/io.csp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/std/io.csp b/src/std/io.csp
index 7a5ea76..b920594 100644
--- a/src/std/io.csp
+++ b/src/std/io.csp
@@ -84,7 +84,7 @@ namespace std {
 
     const stdin: i32 = stdin!;
     const stdout: i32 = stdout!;
-    const stderr: i32 = stdout!;
+    const stderr: i32 = stderr!;
 
     namespace io {
         const O_RDONLY: i32   = 0;
@@ -209,7 +209,7 @@ namespace std {
         {
             using std::fmt;
 
-            with formatted = va_format(fmt, args): &void
+            with formatted = va_format(fmt, args)
                 write(fd, formatted);
             
             <- 0;
@@ -226,13 +226,13 @@ namespace std {
 
         fn writeln(fd: i32, buf: &const char)
         {
-            if syscall::write(fd, buf, c_str::strlen(buf) + 1) <= 0
+            if syscall::write(fd, buf, c_str::strlen(buf)) < 0
             {
                 # todo: fail assertion
                 ret;
             }
 
-            if syscall::write(fd, "\n", 2) <= 0
+            if syscall::write(fd, "\n", 1) <= 0
             {
                 # todo: fail assertion
                 ret;
-- 
2.43.0


From 612cafe990699fa0c81cc42ca0cf9256c6edd089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 041/122] fix: std::fmt knows %U and survives a trailing %

---
 src/std/fmt.csp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/std/fmt.csp b/src/std/fmt.csp
index 103b89a..6cd8c1b 100644
--- a/src/std/fmt.csp
+++ b/src/std/fmt.csp
@@ -50,6 +50,10 @@ namespace std {
             for ; (*fmt) != '\0'; fmt++; {
                 if (*fmt) == '%' {
                     fmt++;
+                    if (*fmt) == '\0' {
+                        &str `append` '%';
+                        break;
+                    }
                     
                     let r = __internal::fmt(fmt, &str, args);
                     if r ret r;
@@ -85,6 +89,10 @@ namespace std {
             for ; (*fmt) != '\0'; fmt++; {
                 if (*fmt) == '%' {
                     fmt++;
+                    if (*fmt) == '\0' {
+                        &str `append` '%';
+                        break;
+                    }
                     
                     __internal::fmt_time(fmt, &str, &time);
                 }
@@ -134,6 +142,10 @@ namespace std {
                         c_str::from_uint(va_arg!{args, u64}, buf, 10);
                         concat(str, buf);
                     }
+                    'U' => {
+                        c_str::from_uint(va_arg!{args, u64}, buf, 10);
+                        concat(str, buf);
+                    }
                     'l' => {
                         c_str::from_int(va_arg!{args, i64}, buf, 10);
                         concat(str, buf);
-- 
2.43.0


From 7a362f06ecd2936baba30b0881bd8bb98a620027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 042/122] fix: std::c_str functions terminate, compare and
 search like their C counterparts

---
 src/std/c_str.csp | 119 +++++++++++++++++++---------------------------
 1 file changed, 48 insertions(+), 71 deletions(-)

diff --git a/src/std/c_str.csp b/src/std/c_str.csp
index 1d04346..c0dcf53 100644
--- a/src/std/c_str.csp
+++ b/src/std/c_str.csp
@@ -28,12 +28,18 @@ namespace std {
         }
 
         fn strlen(str: &const char): usize = len str;
-        fn strnlen(s: &const char, _n: usize): usize = strlen(s);
+        fn strnlen(s: &const char, n: usize): usize
+        {
+            let length: usize = 0;
+            while length < n && s[length] != '\0'
+                length++;
+            <- length;
+        }
 
         # similar to c_str::copy
         fn copy(dest: &char, src: &const char)
         {
-            memory::move(dest, src, strlen(src));
+            memory::move(dest, src, strlen(src) + 1);
         }
 
         fn strcpy(dest: &char, src: &const char)
@@ -57,7 +63,10 @@ namespace std {
 
         fn strncat(dest: &char, src: &const char, n: usize): &char
         {
-            strncpy(dest + strlen(dest), src, n);
+            let end = dest + strlen(dest);
+            let length = strnlen(src, n);
+            memory::move(end, src, length);
+            end[length] = '\0';
             <- dest;
         }
 
@@ -67,7 +76,7 @@ namespace std {
                 l++;
                 r++;
             }
-            <- *l - *r;
+            <- ((*l: u8): i32) - ((*r: u8): i32);
         }
 
         fn strncmp(l: &const char, r: &const char, n: usize): i32
@@ -78,7 +87,7 @@ namespace std {
                 r++;
                 n--;
             }
-            <- *l - *r;
+            <- ((*l: u8): i32) - ((*r: u8): i32);
         }
 
         fn strstr(str: &char, substr: &char): &char
@@ -93,6 +102,9 @@ namespace std {
                 <- *b == '\0';
             };
 
+            if *substr == '\0'
+                <- str;
+
             while *str {
                 if *str == *substr && compare(str, substr) {
                     <- str;
@@ -107,11 +119,11 @@ namespace std {
             let begin = *stringp;
             if begin == nil ret nil;
 
-            let end: &char = begin + strspn(begin, delim);
+            let end: &char = begin + strcspn(begin, delim);
 
             if (*end) != 0 {
-                (*end)++;
-                (*stringp) = end;
+                (*end) = '\0';
+                (*stringp) = end + 1;
             }
             else
                 (*stringp) = nil;
@@ -127,11 +139,11 @@ namespace std {
             let p: &char = nil;
 
             for n = 0; *s; n++; {
-                s++;
                 for p = accept; (*p) != '\0' && (*p) != *s; p++;
                     noop;
                 if ! *p
                     break;
+                s++;
             }
 
             <- n;
@@ -159,11 +171,11 @@ namespace std {
         # Find the first occurrence of C in S.
         fn strchr(s: &const char, c_in: i32): &const char
         {
-            if s == nil || c_in > 255 || c_in < 0
+            if s == nil
                 <- nil;
         
             let s_len = strlen(s);
-            for let i: usize = 0; i < s_len; i++;
+            for let i: usize = 0; i <= s_len; i++;
                 if (c_in: char) == s[i]
                     <- &s[i];
 
@@ -234,39 +246,11 @@ namespace std {
         fn memchr(s: &const void, c_in: i32, n: usize): &void
         {
             let c = c_in: u8;
-            let ch_ptr: &u8;
-
-            for ch_ptr = (s: &const u8); n > 0 && (ch_ptr: u64 % sizeof LongWord) != 0; n--; {
-                ch_ptr++;
-                if (*ch_ptr) == c
-                    <- ch_ptr: &void;
-            }
-
-            let longword_ptr = ch_ptr: &LongWord;
-            let repeated_one: LongWord = 0x01010101;
-            let repeated_c: LongWord = c | (c << 8);
-            if 0xffffffff: u64 < (-1: LongWord) {
-                repeated_one |= repeated_one << 31 << 1;
-                repeated_c |= repeated_c << 31 << 1;
-            }
+            let bytes: &const u8 = s;
 
-            while n >= sizeof LongWord {
-                let longword1: LongWord = (*longword_ptr) ^ repeated_c;
-
-                if (((longword1 - repeated_one) & ~longword1) & (repeated_one << 7)) != 0
-                    break;
-
-                longword_ptr++;
-                n -= sizeof LongWord;
-            }
-
-            ch_ptr = longword_ptr: &const u8;
-
-            for ; n > 0; n--; {
-                ch_ptr++;
-                if (*ch_ptr) == c
-                    <- ch_ptr: &void;
-            }
+            for let i: usize = 0; i < n; i++;
+                if bytes[i] == c
+                    <- &bytes[i]: &void;
 
             <- nil;
         }
@@ -288,35 +272,14 @@ namespace std {
 
         fn from_int(num: i64, str: &char, base: i32): &char 
         {
-            let i: i64 = 0;
-            let is_negative: bool = false;
-
-            if num == 0 {
-                str[i++] = '0';
-                str[i] = '\0';
-                <- str;
-            }
-
+            # only base 10 is signed
             if num < 0 && base == 10 {
-                is_negative = true;
-                num = -num;
-            }
-
-            while num != 0 {
-                let rem: i64 = num % base;
-                if rem > 9 
-                    str[i++] = ((rem - 10) + 'a');
-                else
-                    str[i++] = rem + '0';
-                num = num / base;
+                *str = '-';
+                from_uint(-num, str + 1, base);
             }
+            else
+                from_uint(num, str, base);
 
-            if is_negative
-                str[i++] = '-';
-
-            str[i] = '\0';
-            reverse(str);
-            
             <- str;
         }
 
@@ -393,7 +356,13 @@ namespace std {
 
         fn from_f32(float: f32, ndigits: i32, buf: &char)
         {
-            let whole = float: i32;
+            if float < 0.0 {
+                *buf = '-';
+                buf++;
+                float = -float;
+            }
+
+            let whole = float: i64;
             from_int(whole, buf, 10);
 
             if ndigits <= 0
@@ -402,7 +371,7 @@ namespace std {
             buf += len buf;
             buf[0] = '.';
 
-            float -= whole;
+            float -= (whole: f32);
 
             let i = 1;
             for 0..ndigits {
@@ -411,10 +380,17 @@ namespace std {
                 buf[i++] = digit + '0';
                 float -= digit;
             }
+            buf[i] = '\0';
         }
 
         fn from_f64(float: f64, ndigits: i32, buf: &char)
         {
+            if float < 0.0 {
+                *buf = '-';
+                buf++;
+                float = -float;
+            }
+
             let whole = float: i64;
             from_int(whole, buf, 10);
 
@@ -433,6 +409,7 @@ namespace std {
                 buf[i++] = digit + '0';
                 float -= digit;
             }
+            buf[i] = '\0';
         }
     }
 }
-- 
2.43.0


From e47f2d12fbe8f4e26caaa594a739f1b675cbeea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 043/122] fix: std::string keeps its capacity, trims both ends
 and cuts whole strings

---
 src/std/string.csp | 64 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/std/string.csp b/src/std/string.csp
index bb87245..aac6b7d 100644
--- a/src/std/string.csp
+++ b/src/std/string.csp
@@ -70,17 +70,19 @@ namespace std {
             let str_data: &StringData;
 
             if value == nil {
-                str_data = memory::alloc(sizeof StringData);
+                str_data = memory::alloc(sizeof StringData + 1);
                 str_data.alloc = 1;
                 str_data.size = 0;
+                str_data.buff[0] = '\0';
             }
             else {
                 let v_len = c_str::strlen(value);
                 str_data = memory::alloc(sizeof StringData + v_len + 1);
-                str_data.alloc = v_len;
+                str_data.alloc = v_len + 1;
                 str_data.size = v_len;
                 
                 c_str::copy(str_data.buff, value);
+                str_data.buff[v_len] = '\0';
             }
             <- &(str_data.buff[0]);
         }
@@ -96,7 +98,8 @@ namespace std {
         {
             let str_data: &StringData = memory::alloc(sizeof StringData + size + 1);
             str_data.alloc = size + 1;
-            let str_ptr = &(*str_data.buff);
+            str_data.size = size;
+            let str_ptr = &(str_data.buff[0]);
             memory::set(str_ptr, fill, size);
             <- str_ptr;
         }
@@ -112,34 +115,48 @@ namespace std {
             <- &(str: &StringData)[-1];
         }
 
+        # check if there is space for one more character (`alloc` counts the terminating null character)
         fn has_space(str_data: &StringData): bool
         {
             <- str_data.alloc > str_data.size + 1;
         }
 
+        # make space for `alloc` characters in the buffer
+        [private]
+        fn reserve(str_data: &StringData, alloc: u64): &StringData
+        {
+            str_data = memory::realloc(str_data, sizeof StringData + alloc);
+            str_data.alloc = alloc;
+            <- str_data;
+        }
+
         fn concat(dest: &String, src: &const char) 
         {
             let str_data = get_data(*dest);
             let str_len = size(*dest);
             let src_len = c_str::strlen(src);
 
-            str_data.alloc = str_data.alloc + src_len;
-            str_data.size = str_data.size + src_len;
-            str_data = memory::realloc(str_data, sizeof StringData + str_data.alloc + 1);
-            c_str::copy(&(str_data.buff[str_len]), src);
+            if str_len + src_len + 1 > str_data.alloc {
+                let inside = src >= *dest && src <= *dest + str_len;
+                let offset = (src: u64) - ((*dest): u64);
+                str_data = reserve(str_data, str_len + src_len + 1);
+                if inside
+                    src = &(str_data.buff[offset]);
+            }
 
-            str_data.buff[str_len + src_len] = '\0';
+            memory::move(&(str_data.buff[str_len]), src, src_len);
+            str_data.size = str_len + src_len;
+            str_data.buff[str_data.size] = '\0';
             *dest = &(str_data.buff[0]);
         }
 
         fn append(dest: &String, c: char)
         {
             let str_data = get_data(*dest);
-            str_data.alloc++;
-            str_data.size++;
-
             if(!has_space(str_data))
-                str_data = memory::realloc(str_data, sizeof StringData + (str_data.alloc *= 2) + 1);
+                str_data = reserve(str_data, (str_data.size + 2) * 2);
+
+            str_data.size++;
             str_data.buff[str_data.size - 1] = c;
             str_data.buff[str_data.size] = '\0';
             *dest = &(str_data.buff[0]);
@@ -210,7 +227,8 @@ namespace std {
 
         fn substr(str: String, from: i64, to: i64): String 
         {
-            if to - from < 0 || to - from >= size(str)
+            let length: i64 = size(str);
+            if from < 0 || to < from || to > length
                  ret nil;
 
             let ch_arr: &char = memory::alloc((to - from + 2) * sizeof char);
@@ -225,11 +243,17 @@ namespace std {
         }
 
         fn trim(str: String): String {
-            while(character::isspace(*str)) str++;
+            let start: u64 = 0;
+            let end: u64 = len str;
 
-            let back = &str[len str];
-            while(character::isspace(*back)) back--;
-            back[1] = '\0';
+            while start < end && character::isspace(str[start]) != 0
+                start++;
+            while end > start && character::isspace(str[end - 1]) != 0
+                end--;
+
+            memory::move(str, &str[start], end - start);
+            str[end - start] = '\0';
+            get_data(str).size = end - start;
 
             <- str;
         }
@@ -250,8 +274,10 @@ namespace std {
 
         fn from_char(c: char): String
         {
-            let buf: u16 = c << 8 | '\0';
-            <- str!{(&buf): &char};
+            let buf: char 'c[2];
+            buf[0] = c;
+            buf[1] = '\0';
+            <- str!{buf};
         }
         
         fn from_f32(float: f32): String
-- 
2.43.0


From 958d9f2693fbb707489c0d5e4ee666cf0f9dfae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 044/122] fix: to_str! compiles for every type it knows

---
 src/std/string.csp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/std/string.csp b/src/std/string.csp
index aac6b7d..3306e3b 100644
--- a/src/std/string.csp
+++ b/src/std/string.csp
@@ -37,20 +37,20 @@ macro concat(a, b) {
 # convert any given value to a string
 macro to_str(v) {
     (
-        if type::is_int(typeof (v))
-            => ::std::string::from_int(v)
+        if type::( (typeof (v)) == bool)
+            => (if ((v): bool) => str!{"true"} else str!{"false"})
+        else if type::((typeof (v)) == char)
+            => ::std::string::from_char((v): char)
+        else if type::is_int(typeof (v))
+            => ::std::string::from_int((v): i64)
         else if type::is_uint(typeof (v))
-            => ::std::string::from_uint(v)
-        else if type::( (typeof (v)) == bool)
-            => if (v) => str!{"true"} else str!{"false"}
+            => ::std::string::from_uint((v): u64)
         else if type::((typeof (v)) == void)
             => str!{"void"}
-        else if type::((typeof (v)) == char)
-            => ::std::string::from_char(v)
         else if type::((typeof (v)) == ::std::String)
-            => (v)
+            => ((v): ::std::String)
         else if type::((typeof (v)) == &char)
-            => ::std::string::init(v)
+            => ::std::string::init((v): ::std::String)
         else str! {nil}
     )
 }
-- 
2.43.0


From d44e9cd73b70bf41f4952bf9928e736f4feb4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 045/122] fix: std::io::write! has the functions it calls

---
 src/std/io.csp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/std/io.csp b/src/std/io.csp
index b920594..e188089 100644
--- a/src/std/io.csp
+++ b/src/std/io.csp
@@ -33,10 +33,11 @@ macro write(fd, v) {
             type::((typeof (v)) == u64)
         => ::std::io::write_uint(fd, (v): u64)
         else if type::((typeof (v)) == &char) ||
+            type::((typeof (v)) == &const char) ||
             type::((typeof (v)) == char[])
-        => ::std::io::write(fd, (v))
+        => ::std::io::write(fd, (v): &const char)
         else
-        ::std::io::write_ptr(fd, (v)) 
+        ::std::io::write_ptr(fd, (v): &const void)
     )
 }
 
@@ -248,6 +249,21 @@ namespace std {
             write(fd, buf);
         }
 
+        fn write_uint(fd: i32, int: u64)
+        {
+            let buf: char 'c[32];
+            c_str::from_uint(int, buf, 10);
+            write(fd, buf);
+        }
+
+        fn write_ptr(fd: i32, ptr: &const void)
+        {
+            let buf: char 'c[32];
+            c_str::from_uint(ptr: u64, buf, 16);
+            write(fd, "0x");
+            write(fd, buf);
+        }
+
         fn sync() syscall::sync();
 
         const TCGETS: i32 		= 0x5401;
-- 
2.43.0


From d80e058e1cd3d9ac7d13d916fb508bdd5791a137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 046/122] fix: error::is_some is true when there is an error

---
 src/std/error.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/error.csp b/src/std/error.csp
index e622556..df940ec 100644
--- a/src/std/error.csp
+++ b/src/std/error.csp
@@ -228,6 +228,6 @@ namespace std {
             }
         }
 
-        fn is_some(): bool = __static::__error.kind == Errno::NONE;
+        fn is_some(): bool = __static::__error.kind != Errno::NONE;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 85189212c04f2b33d4558924114cb45514c32af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 047/122] fix: fmt::time knows %u, %% adds nothing after
 itself; %u is a u32

---
 src/std/fmt.csp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/std/fmt.csp b/src/std/fmt.csp
index 6cd8c1b..22688e4 100644
--- a/src/std/fmt.csp
+++ b/src/std/fmt.csp
@@ -139,7 +139,7 @@ namespace std {
                         concat(str, buf);
                     }
                     'u' => {
-                        c_str::from_uint(va_arg!{args, u64}, buf, 10);
+                        c_str::from_uint(va_arg!{args, u32}, buf, 10);
                         concat(str, buf);
                     }
                     'U' => {
@@ -235,6 +235,7 @@ namespace std {
             fn fmt_time(fmt: &const char, str: &String, time: &Time) {
                 using c_str;
                 let buf: char 'c[100];
+                buf[0] = '\0';
                 match *fmt {
                     '%' => string::append(str, *fmt);
                     'Y' => from_uint(time.year, buf, 10);
@@ -243,6 +244,7 @@ namespace std {
                     'h' => uint_two_digits(time.hour, buf);
                     'm' => uint_two_digits(time.minute, buf);
                     's' => uint_two_digits(time.second, buf);
+                    'u' => from_int(time.ts.tv_sec, buf, 10);
                     _ => {}
                 }
 
-- 
2.43.0


From eae7053fb7ae070e70f2f2afb9b6f832461d07b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 048/122] fix: a failed regex attempt adds nothing to the
 length of the match

---
 src/std/regex.csp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/std/regex.csp b/src/std/regex.csp
index a235bc2..8b6cd7e 100644
--- a/src/std/regex.csp
+++ b/src/std/regex.csp
@@ -213,14 +213,26 @@ namespace std {
             {
                 let pre = *matchlength;
                 do {
-                    if pattern.kind == RegexKind::UNUSED || pattern[1].kind == RegexKind::QUESTIONMARK
-                        <- match_question(*pattern, &pattern[2], text, matchlength);
-                    else if pattern[1].kind == RegexKind::STAR
-                        <- match_star(*pattern, &pattern[2], text, matchlength);
-                    else if pattern[1].kind == RegexKind::PLUS
-                        <- match_plus(*pattern, &pattern[2], text, matchlength);
-                    else if pattern.kind == RegexKind::END && pattern[1].kind == RegexKind::UNUSED
-                        <- *text == '\0';
+                    if pattern.kind == RegexKind::UNUSED || pattern[1].kind == RegexKind::QUESTIONMARK {
+                        if match_question(*pattern, &pattern[2], text, matchlength)
+                            <- true;
+                        break;
+                    }
+                    else if pattern[1].kind == RegexKind::STAR {
+                        if match_star(*pattern, &pattern[2], text, matchlength)
+                            <- true;
+                        break;
+                    }
+                    else if pattern[1].kind == RegexKind::PLUS {
+                        if match_plus(*pattern, &pattern[2], text, matchlength)
+                            <- true;
+                        break;
+                    }
+                    else if pattern.kind == RegexKind::END && pattern[1].kind == RegexKind::UNUSED {
+                        if *text == '\0'
+                            <- true;
+                        break;
+                    }
                     (*matchlength)++;
                 }
                 while *text != '\0' && match_one(*pattern, *text) && pattern++ && text++;
-- 
2.43.0


From 2e036c03d21a575ad09144c7c700b34a8116c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 049/122] fix: \w is a letter, a digit or _ inside and outside
 of brackets

---
 src/std/regex.csp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/std/regex.csp b/src/std/regex.csp
index 8b6cd7e..99b1758 100644
--- a/src/std/regex.csp
+++ b/src/std/regex.csp
@@ -266,8 +266,8 @@ namespace std {
                 match *str {
                     'd' => ret isdigit(c);
                     'D' => ret !isdigit(c);
-                    'w' => ret isalnum(c);
-                    'W' => ret !isalnum(c);
+                    'w' => ret match_alphanum(c);
+                    'W' => ret !match_alphanum(c);
                     's' => ret isspace(c);
                     'S' => ret !isspace(c);
                     _ =>   ret c == *str;
@@ -306,8 +306,8 @@ namespace std {
                     RegexKind::INV_CHAR_CLASS => ret !match_charclass(c, p.u.ccl);
                     RegexKind::DIGIT =>          ret isdigit(c);
                     RegexKind::NOT_DIGIT =>      ret !isdigit(c);
-                    RegexKind::ALPHA =>          ret isalpha(c);
-                    RegexKind::NOT_ALPHA =>      ret !isalpha(c);
+                    RegexKind::ALPHA =>          ret match_alphanum(c);
+                    RegexKind::NOT_ALPHA =>      ret !match_alphanum(c);
                     RegexKind::WHITESPACE =>     ret isspace(c);
                     RegexKind::NOT_WHITESPACE => ret !isspace(c);
                     _ =>                        ret p.u.ch == c;
-- 
2.43.0


From c53c1aea14fd4fab448cfb6b49c78165a74b53f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 050/122] fix: - and escapes in brackets

---
 src/std/regex.csp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/std/regex.csp b/src/std/regex.csp
index 99b1758..8345438 100644
--- a/src/std/regex.csp
+++ b/src/std/regex.csp
@@ -251,6 +251,7 @@ namespace std {
                 <- c != '-' && 
                     str[0] != '\0' && 
                     str[0] != '-' && 
+                    str[0] != '\\' && 
                     str[1] == '-' && 
                     str[2] != '\0' &&
                     c >= str[0] &&
@@ -287,9 +288,8 @@ namespace std {
                             <- true;
                     }
                     else if c == *str {
-                        if c == '-'
-                            <- str[-1] == '\0' || str[1] == '\0';
-                        <- true;
+                        if c != '-' || str[-1] == '\0' || str[1] == '\0'
+                            <- true;
                     }
                 }
                 while *str != '\0' && str++;
-- 
2.43.0


From b2e12e6d37ed69ae04aacb04ec9ba92bff15097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 051/122] fix: a pattern that ends in a backslash is not well
 formed

---
 src/std/regex.csp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/std/regex.csp b/src/std/regex.csp
index 8345438..c3c6365 100644
--- a/src/std/regex.csp
+++ b/src/std/regex.csp
@@ -66,6 +66,8 @@ namespace std {
 
                     '\\' => if pattern[i + 1] != '\0'
                         __internal::compile_char(pattern, i += 1, j);
+                    else
+                        <- nil;
 
                     '[' => {
                         let buf_begin = ccl_bufidx;
-- 
2.43.0


From a11be6fd895abe81161e7a64383b72a028581b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 052/122] fix: xor_swap! compiles

---
 src/std/utils.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/utils.csp b/src/std/utils.csp
index 1446a3d..4a2c2af 100644
--- a/src/std/utils.csp
+++ b/src/std/utils.csp
@@ -36,7 +36,7 @@ macro range(i, lo, hi) {
 
 # swaps two variables with each other without creating a third variable
 macro xor_swap(a, b) {
-    ((a) ^= (b) |> (b) ^= (a) |> (a) ^= (b))
+    (((a) ^= (b)) |> ((b) ^= (a)) |> ((a) ^= (b)))
 }
 
 # swaps two variables with a third buffer variable
-- 
2.43.0


From a74665919f6d48ce345f46b4868f2a54aebd5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 053/122] fix: a local of a named array type has its length

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 138db77..2ea71c4 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2883,7 +2883,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
 
                 // load all of the known array sizes into the first 8 bytes of the local variable
                 if(unpack(local->data_type)->kind == TY_ARRAY)
-                    asm_println(cg, "  movq $%lu, %d(%%rbp)", local->data_type->num_indices, local->offset);
+                    asm_println(cg, "  movq $%lu, %d(%%rbp)", unpack(local->data_type)->num_indices, local->offset);
             }
 
             for(size_t i = 0; i < node->stmts->size; i++)
-- 
2.43.0


From 889f31400d807ef947366eeb9dee71dbcd9604c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 054/122] fix: i64_min and u64_min have 64 bits

---
 src/std/types.csp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std/types.csp b/src/std/types.csp
index 04db3f5..c9a6134 100644
--- a/src/std/types.csp
+++ b/src/std/types.csp
@@ -18,7 +18,7 @@ macro i16_min { (-32768: i16) }
 macro i32_max { (2147483647: i32) }
 macro i32_min { (-2147483648: i32) }
 macro i64_max { (9223372036854775807: i64) }
-macro i64_min { (-9223372036854775808: i32) }
+macro i64_min { (-9223372036854775808: i64) }
 
 # unsigned integer data type limits
 macro u8_max  { (255: u8) }
@@ -28,7 +28,7 @@ macro u16_min { (0: u16) }
 macro u32_max { (4294967295: u32) }
 macro u32_min { (0: u32) }
 macro u64_max { (18446744073709551615: u64) }
-macro u64_min { (0: u32) }
+macro u64_min { (0: u64) }
 
 # char data type limits
 macro char_min { i8_min! }
-- 
2.43.0


From 134308d702de52e4738af218d03947858847fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 055/122] fix: math::pow computes a^0, squares and cubes in 64
 bits

---
 src/std/math.csp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/std/math.csp b/src/std/math.csp
index 869d5c2..a5b65ab 100644
--- a/src/std/math.csp
+++ b/src/std/math.csp
@@ -57,10 +57,10 @@ namespace std {
         fn pow(a: i32, b: i32): i64 
         {
             match b {
-                0 => ret 0;
+                0 => ret 1: i64;
                 1 => ret a;
-                2 => ret a²;
-                3 => ret a³;
+                2 => ret (a: i64)²;
+                3 => ret (a: i64)³;
                 _ => {
                     let c: i64 = 1;
 
-- 
2.43.0


From 7247609ef4875ea934405380f892ba3a088d33c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 056/122] fix: math::mod ends for a negative divisor

---
 src/std/math.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/math.csp b/src/std/math.csp
index a5b65ab..e5c4632 100644
--- a/src/std/math.csp
+++ b/src/std/math.csp
@@ -89,7 +89,7 @@ namespace std {
         {
             let result = num % den;
             while result < 0
-                result += den;
+                result += abs64(den);
             <- result;
         }
 
-- 
2.43.0


From c63c53e42d157d1f84f04a9a02d194b933091efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 057/122] fix: sum! adds elements of the width the array has

---
 src/std/array.csp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/std/array.csp b/src/std/array.csp
index 4eebabc..891732b 100644
--- a/src/std/array.csp
+++ b/src/std/array.csp
@@ -29,17 +29,17 @@ macro sum(__a) {
         else if type::((typeof (__a)[0]) == u32) =>
             ::std::array::sum_u32(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i64) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i64(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u64) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u64(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i16) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i16(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u16) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u16(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i8) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i8(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u8) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u8(&__a[0], len (__a)): i64
         else 0: i64
     )
     else 0: i64)
@@ -90,7 +90,7 @@ namespace std {
             __sum_internal!(arr, length, i64)
 
         fn sum_u32(arr: &u32, length: u64): u64
-            __sum_internal!(arr, length, i64)
+            __sum_internal!(arr, length, u64)
 
         fn sum_i32(arr: &i32, length: u64): i64
             __sum_internal!(arr, length, i64)
-- 
2.43.0


From 46c0ffaa194b684112d4c173378836b4f0ad514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 058/122] fix: random starts with its table, after the state
 word

---
 src/std/random.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/random.csp b/src/std/random.csp
index 292fc41..a4f01f8 100644
--- a/src/std/random.csp
+++ b/src/std/random.csp
@@ -117,7 +117,7 @@ namespace std {
             ];
 
             fn __init() {
-                do x = &init + 1 unless x;
+                do x = &init[1] unless x;
             }
         }
     }
-- 
2.43.0


From 65fdbdaa0bf8b9ed36c0ec39a58f0ef2db1fa164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 059/122] fix: time::unix::secs does not dereference the time

---
 src/std/time.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/time.csp b/src/std/time.csp
index 5d2c9e2..dfc20d9 100644
--- a/src/std/time.csp
+++ b/src/std/time.csp
@@ -80,7 +80,7 @@ namespace std {
 
         namespace unix {
             # gets the current unix-time (time in seconds since 01.01.1970)
-            fn secs(): TimeVal = *syscall::time(nil);
+            fn secs(): TimeVal = clock::get_time_of_day();
         }
     }
 
-- 
2.43.0


From 5bab5ce31bfe4eb3e827247c0c01ae8abaf01a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 060/122] fix: integer literals above the signed 64-bit limit
 keep their value

---
 src/compiler/lexer/lexer.c   | 2 +-
 src/compiler/parser/parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 923ff82..15016e8 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -308,7 +308,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
         lexer_advance(lexer);
     }
 
-    u64 decimal = strtoll(lexer->tmp_buffer, NULL, base);
+    u64 decimal = strtoull(lexer->tmp_buffer, NULL, base);
     sprintf(lexer->tmp_buffer, "%lu", decimal);
 
     Token_T* token = init_token(&lexer->context->raw_allocator, lexer->tmp_buffer, lexer->line, lexer->pos, TOKEN_INT, lexer->file);
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 5261fc4..713883e 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1938,7 +1938,7 @@ static ASTNode_T* parse_int_lit(Parser_T* p)
 {
     ASTNode_T* lit = init_ast_node(&p->context->raw_allocator, ND_INT, p->tok);
     parser_consume(p, TOKEN_INT, "expect integer literal (0, 1, 2, ...)");
-    i64 num = atoll(lit->tok->value);
+    u64 num = strtoull(lit->tok->value, NULL, 10);
     if(num <= INT_MAX)
     {
         lit->kind = ND_INT;
-- 
2.43.0


From cf09e76ae2996e551afdc10c5580ab54f8b7307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 061/122] fix: a file is opened for what its mode says and
 knows its path

---
 src/std/file.csp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/std/file.csp b/src/std/file.csp
index d8c6532..7ee8646 100644
--- a/src/std/file.csp
+++ b/src/std/file.csp
@@ -41,13 +41,14 @@ namespace std {
         {
             let file: &File = memory::alloc(sizeof File);
             file.mode = mode;
+            file.path = path;
             file.offset = 0;
             
             let sys_flags = 0;
 
             if mode & CREATE
                 sys_flags |= io::O_CREAT;
-            if mode & READ_WRITE
+            if (mode & READ_WRITE) == READ_WRITE
                 sys_flags |= io::O_RDWR;
             else if mode & READ
                 sys_flags |= io::O_RDONLY;
-- 
2.43.0


From dea6a4950dec9d2b5afd5803df1c320a64527eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 062/122] fix: the offset of a file follows what was read and
 written

---
 src/std/file.csp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/std/file.csp b/src/std/file.csp
index 7ee8646..133aec0 100644
--- a/src/std/file.csp
+++ b/src/std/file.csp
@@ -84,7 +84,7 @@ namespace std {
         fn write(file: &File, data: &const void, count: usize): i64
         {
             let written = syscall::write(file.desc, data, count);
-            if written == -1 
+            if written < 0
                 error::new(Errno::IO, "could not write to file");
             else
                 file.offset += written;
@@ -96,12 +96,14 @@ namespace std {
         fn vwritef(file: &File, fmt: &const char, args: &VAList): i64
         {
             using std::fmt;
-            let written = -1;
+            let written: i64 = -1;
             with formatted = va_format(fmt, args): &void
                 written = syscall::write(file.desc, formatted, c_str::strlen(formatted));
             
-            if written == -1
+            if written < 0
                 error::new(Errno::IO, "could not write to file");
+            else
+                file.offset += written;
             
             <- written;
         }
@@ -109,7 +111,7 @@ namespace std {
         fn read(file: &File, buffer: &void, count: usize): &void
         {
             let bytes_read = syscall::read(file.desc, buffer, count);
-            if bytes_read == -1 
+            if bytes_read < 0
                 error::new(Errno::IO, "could not read file");
             else
                 file.offset += bytes_read;
@@ -123,10 +125,11 @@ namespace std {
                 <- -1;
             } unless file;
             let c = '\0';
-            if syscall::read(file.desc, &c, 1) == -1 
+            let bytes_read = syscall::read(file.desc, &c, 1);
+            if bytes_read < 0
                 error::new(Errno::IO, "could not read file");
             else
-                file.offset++;
+                file.offset += bytes_read;
             <- c;
         }
 
@@ -136,7 +139,7 @@ namespace std {
             do
                 <- error::new(Errno::NILPTR, "`file` is nil")
             unless file;
-            if syscall::close(file.desc) == -1
+            if syscall::close(file.desc) < 0
                 <- error::new(Errno::IO, "could not close file");
             memory::free(file);
 
-- 
2.43.0


From f496efc618d9ab22f58ab44705e64575c8889620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 063/122] fix: the string read_all returns has its size

---
 src/std/file.csp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/std/file.csp b/src/std/file.csp
index 133aec0..8555b60 100644
--- a/src/std/file.csp
+++ b/src/std/file.csp
@@ -158,7 +158,18 @@ namespace std {
             <- stat.size;
         }
 
-        fn read_all(file: &File): String = size(file) |> read(file, string::init_sized($), $);
+        fn read_all(file: &File): String
+        {
+            let length = size(file);
+            if length < 0
+                <- nil;
+
+            let str = string::init_sized(length);
+            let start = file.offset;
+            read(file, str, length);
+            string::get_data(str).size = file.offset - start;
+            <- str;
+        }
 
         const SEEK_SET: u8 = 0;
         const SEEK_CUR: u8 = 1; 
-- 
2.43.0


From 89726ef9fe751f20f29e234a3c741ae98daade61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 064/122] fix: seeking before the start of a file fails and
 stays where it was

---
 src/std/file.csp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/std/file.csp b/src/std/file.csp
index 8555b60..d76dad6 100644
--- a/src/std/file.csp
+++ b/src/std/file.csp
@@ -182,13 +182,15 @@ namespace std {
             unless file;
 
             match whence {
-                SEEK_SET => file.offset = offset;
-                SEEK_CUR => file.offset += offset;
-                SEEK_END => file.offset = size(file) - offset;
+                SEEK_SET => noop;
+                SEEK_CUR => offset += file.offset;
+                SEEK_END => offset = size(file) - offset;
                 _ => ret error::new(Errno::INVAL, "value of `whence` is invalid");
             }
 
-            syscall::lseek(file.desc, file.offset, SEEK_SET);
+            if syscall::lseek(file.desc, offset, SEEK_SET) < 0
+                ret error::new(Errno::INVAL, "could not seek in file");
+            file.offset = offset;
             <- error::none();
         }
 
-- 
2.43.0


From 2d830b71445b2195d623df38098e83ac77516137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 065/122] fix: directory::open keeps the descriptor

---
 src/std/directory.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/directory.csp b/src/std/directory.csp
index af11488..75b1ce8 100644
--- a/src/std/directory.csp
+++ b/src/std/directory.csp
@@ -71,7 +71,7 @@ namespace std {
             using io;
 
             let fd = 0;
-            if fd = syscall::open(name, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0) < 0
+            if (fd = syscall::open(name, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0)) < 0
             {
                 error::new(Errno::IO, "could not open directory");
                 <- nil;
-- 
2.43.0


From 11da543f95ec62f263f55a01f5e6e609b39b40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 066/122] fix: directory::read refills its buffer, ends at the
 end and uses the layout of its entries

---
 src/std/directory.csp | 10 ++++++----
 src/std/syscall.csp   |  7 +++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/std/directory.csp b/src/std/directory.csp
index 75b1ce8..645391c 100644
--- a/src/std/directory.csp
+++ b/src/std/directory.csp
@@ -129,17 +129,19 @@ namespace std {
 
         fn read(dir: &Directory): &DirEntry
         {
-            if dir.buf_pos > dir.buf_end {
-                let length = syscall::getdents(dir.fd, dir.buf, sizeof typeof dir.buf);
+            if dir.buf_pos >= dir.buf_end {
+                let length = syscall::getdents64(dir.fd, dir.buf, sizeof typeof dir.buf);
                 if length < 0 {
-                    error::new(Errno::IO, "error in `std::syscall::getdents()`");
+                    error::new(Errno::IO, "error in `std::syscall::getdents64()`");
                     <- nil;
                 }
+                if length == 0
+                    <- nil;
                 dir.buf_end = length;
                 dir.buf_pos = 0;
             }
 
-            let de = (&(dir.buf) + dir.buf_pos): &DirEntry;
+            let de = &(dir.buf[dir.buf_pos]): &DirEntry;
             dir.buf_pos += de.reclen;
             dir.tell = de.off;
             <- de;
diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index e508adb..4777b44 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -845,6 +845,13 @@ namespace std {
             <- res;
         }
 
+        fn getdents64(fd: u32, dirp: &void, count: u32): i64
+        {
+            let res: i64;
+            syscall_r!(res, Syscall::GETDENTS64, fd, dirp, count);
+            <- res;
+        }
+
         fn getcwd(buf: &char, size: usize): &char
         {
             let res: &char;
-- 
2.43.0


From ecb61862e418f3cccf1e18e6b5948ea0ba5b1edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 067/122] fix: pointers and C arrays in structs have their
 natural alignment

---
 src/compiler/parser/validator.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 8dc7377..e9a5f5b 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2338,18 +2338,6 @@ static void iter_validate_dyn_type(ASTType_T* dyn_type, va_list args)
 //    GET_VALIDATOR(args);
 }
 
-static i32 align_type(ASTType_T* ty)
-{
-    switch(ty->kind)
-    {
-        case TY_C_ARRAY:
-        case TY_PTR:
-            return MAX(pow(2, floor(log(ty->base->size)/log(2))), 8);
-        default:
-            return MAX(pow(2, floor(log(ty->size)/log(2))), 1);
-    }
-}
-
 static void iter_validate_type(ASTType_T* type, va_list args)
 {
     GET_VALIDATOR(args);
@@ -2357,7 +2345,7 @@ static void iter_validate_type(ASTType_T* type, va_list args)
 
     if(exp->kind != TY_INTERFACE) {
         type->size = get_type_size(v, exp);
-        type->align = align_type(exp);
+        type->align = get_type_align(v, exp);
     }
     exp->align = type->align;
 }
@@ -2487,11 +2475,27 @@ static i32 get_type_align(Validator_T* v, ASTType_T* type)
 {
     switch(type->kind)
     {
+        case TY_UNDEF:
+        case TY_TYPEOF:
+            return get_type_align(v, unpack(type));
         case TY_C_ARRAY:
+            return get_type_align(v, type->base);
         case TY_PTR:
-            return MAX(pow(2, floor(log(type->base->size)/log(2))), 8);
+        case TY_FN:
         case TY_ARRAY:
+        case TY_VLA:
+        case TY_DYN:
             return PTR_S;
+        case TY_STRUCT:
+        {
+            i32 align = 1;
+            for(size_t i = 0; i < type->members->size; i++)
+            {
+                ASTNode_T* member = type->members->items[i];
+                align = MAX(align, get_type_align(v, member->data_type));
+            }
+            return align;
+        }
         default:
             return MAX(pow(2, floor(log(type->size)/log(2))), 1);
     }
-- 
2.43.0


From c41ad46424d2205ab7661eea2686351fda41b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 068/122] fix: Stat has the layout the kernel fills in

---
 src/std/io.csp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/std/io.csp b/src/std/io.csp
index e188089..d1568ac 100644
--- a/src/std/io.csp
+++ b/src/std/io.csp
@@ -45,19 +45,20 @@ namespace std {
     type Stat: struct {
         dev: dev_t,         # Device
         ino: ino_t,         # File serial number
-        mode: mode_t,       # File mode
         nlink: nlink_t,     # Link count
+        mode: mode_t,       # File mode
         uid: uid_t,         # User ID of the file's owner
         gid: gid_t,         # Group ID of the file's owner
+        __pad0: i32,
         rdev: dev_t,        # Device number, if device
         size: Offset,        # Sote of the file (in bytes)
         blksize: blksize_t, # Optimal blocksize for IO
         blocks: blkcnt_t,   # Number 512-byte blocks allocated
-        atime: TimeVal,
+        atime: i64,         # Time of last access (in seconds)
         atimensec: u64,
-        mtime: TimeVal,
+        mtime: i64,         # Time of last modification (in seconds)
         mtimensec: u64,
-        ctime: TimeVal,
+        ctime: i64,         # Time of last status change (in seconds)
         ctimensec: u64,
         __glibc_reserved: u64 'c[3]
     };
-- 
2.43.0


From e1d64768b0fb56cecd8a43d56c4f7c70e35ae02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 069/122] fix: u64_max is a u64 literal without a cast

---
 src/std/types.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/types.csp b/src/std/types.csp
index c9a6134..42a1581 100644
--- a/src/std/types.csp
+++ b/src/std/types.csp
@@ -27,7 +27,7 @@ macro u16_max { (65535: u16) }
 macro u16_min { (0: u16) }
 macro u32_max { (4294967295: u32) }
 macro u32_min { (0: u32) }
-macro u64_max { (18446744073709551615: u64) }
+macro u64_max { 18446744073709551615 }
 macro u64_min { (0: u64) }
 
 # char data type limits
-- 
2.43.0


From 8838cbb5935803d9bda058ef8f2a08dab464106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 070/122] fix: syscall::stat and syscall::ioctl pass their
 arguments

---
 src/std/syscall.csp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index 4777b44..ba59325 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -370,7 +370,7 @@ namespace std {
         fn stat(filename: &const char, buf: &Stat): i32
         {
             let res: i64;
-            syscall_r!(res, res, Syscall::STAT, filename, buf);
+            syscall_r!(res, Syscall::STAT, filename, buf);
             <- res;
         }
 
@@ -440,7 +440,7 @@ namespace std {
         fn ioctl(fd: i32, cmd: i32, arg: u64): i32
         {
             let res: i64;
-            syscall_r!(res, res, Syscall::IOCTL, fd, cmd, arg);
+            syscall_r!(res, Syscall::IOCTL, fd, cmd, arg);
             <- res;
         }
         
-- 
2.43.0


From 5776ecb8f039a411ad53eeb6d0ed31032c49d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 071/122] fix: wait4, gettimeofday and mremap pass the kernel
 64-bit arguments where it reads 64 bits

---
 src/std/syscall.csp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index ba59325..c4c39fd 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -500,7 +500,7 @@ namespace std {
             <- res;
         }
         
-        fn mremap(old_addr: &void, old_size: usize, new_size: usize, flags: i32): &void
+        fn mremap(old_addr: &void, old_size: usize, new_size: usize, flags: u64): &void
         {
             let res: &void;
             syscall_r!(res, Syscall::MREMAP, old_addr, old_size, new_size, flags);
@@ -710,7 +710,7 @@ namespace std {
         fn exit(status: i32)
             syscall!(Syscall::EXIT, status);
         
-        fn wait4(pid: pid_t, wstatus: &i32, options: i32, arg: i32): pid_t
+        fn wait4(pid: pid_t, wstatus: &i32, options: i32, arg: u64): pid_t
         {
             let res: i64;
             syscall_r!(res, Syscall::WAIT4, pid, wstatus, options, arg);
@@ -961,7 +961,7 @@ namespace std {
             <- res;
         }
 
-        fn gettimeofday(ts: &TimeSpec, n: i32): i32
+        fn gettimeofday(ts: &TimeSpec, n: u64): i32
         {
             let res: i64;
             syscall_r!(res, Syscall::GETTIMEOFDAY, ts, n);
-- 
2.43.0


From 7a018f9f62dbfc9f4007fc9558afff4e5aa091a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 072/122] fix: sendto without a destination passes none

---
 src/std/syscall.csp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index c4c39fd..b164c31 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -608,7 +608,8 @@ namespace std {
         fn sendto(sockfd: i32, buf: &const void, length: usize, flags: i32): ssize_t
         {
             let res: ssize_t;
-            syscall_r!(res, Syscall::SENDTO, sockfd, buf, length, flags);
+            let none: u64 = 0; # no destination, the socket is connected
+            syscall_r!(res, Syscall::SENDTO, sockfd, buf, length, flags, none, none);
             <- res;
         }
 
-- 
2.43.0


From 9b99dd531f343007cdff94eecce7f7b440637cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 073/122] fix: timer::delay waits milliseconds, not
 microseconds, for the part below a second

---
 src/std/time.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/time.csp b/src/std/time.csp
index dfc20d9..f163e1c 100644
--- a/src/std/time.csp
+++ b/src/std/time.csp
@@ -127,7 +127,7 @@ namespace std {
 
         # delay further execution by `millis` milliseconds
         fn delay(millis: i64): TimeSpec {
-            let req = TimeSpec::{millis / 1_000, (millis % 1000) * 1000};
+            let req = TimeSpec::{millis / 1_000, (millis % 1_000) * 1_000_000};
             let rem = TimeSpec::{};
             syscall::nanosleep(&req, &rem);
             <- rem;
-- 
2.43.0


From d72034ebce953cdd33bdec7800c920b242afc559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 074/122] fix: the table of type sizes has an entry for every
 kind of type

---
 src/compiler/ast/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/ast/types.h b/src/compiler/ast/types.h
index 1b43863..c6442de 100644
--- a/src/compiler/ast/types.h
+++ b/src/compiler/ast/types.h
@@ -4,7 +4,7 @@
 #include "ast.h"
 #include "memory/allocator.h"
 
-#define NUM_TYPES TY_UNDEF + 1 // TY_UNDEF is the last item in the ASTDataType_T enum. TY_UNDEF should never occur
+#define NUM_TYPES TY_KIND_LEN // one entry for each kind of type
 
 #define I8_S   1
 #define I16_S  2
-- 
2.43.0


From a995c62a08fc471396366c82d2e2543d36d18f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 075/122] fix: a predefined macro's token is located where the
 macro is used, in every use

---
 src/compiler/preprocessor/preprocessor.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index ad063e1..3674e17 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -427,6 +427,14 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
         Token_T* tok = call.macro->replacing_tokens->items[i];
         tok->in_macro_expansion = true;
 
+        // the tokens of the predefined macros come from no file, they are located where the macro is used
+        if(!tok->source) {
+            tok = duplicate_token(&pp->context->raw_allocator, tok);
+            tok->line = call.tok->line;
+            tok->pos = call.tok->pos;
+            tok->source = call.tok->source;
+        }
+
         switch(tok->type) {
             case TOKEN_ID:
             {
-- 
2.43.0


From 320c811f140dd4775b04b20f66f4d77d074dd830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 076/122] fix: concatenating identifiers in a macro leaves the
 macro's and the argument's own tokens alone

---
 src/compiler/preprocessor/preprocessor.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 3674e17..2163add 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -494,9 +494,14 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
             list_pop(dest_list);
             list_pop(dest_list);
 
-            u64 prev_size = sizeof(Token_T) + strlen(id->value) * sizeof(char);
-            dest_list->items[dest_list->size - 1] = id = allocator_realloc(&pp->context->raw_allocator, id, prev_size + (strlen(current->value) + 1) * sizeof(char));
-            strcat(id->value, current->value);
+            // both tokens can be used again by the next expansion, so the result needs a token of its own
+            char concatenated[strlen(id->value) + strlen(current->value) + 1];
+            strcat(strcpy(concatenated, id->value), current->value);
+
+            bool in_macro_expansion = id->in_macro_expansion;
+            id = init_token(&pp->context->raw_allocator, concatenated, id->line, id->pos, id->type, id->source);
+            id->in_macro_expansion = in_macro_expansion;
+            dest_list->items[dest_list->size - 1] = id;
         }
     }
 }
-- 
2.43.0


From 5b1492b13b9708ae79b0e0a10aea4edb8732d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 077/122] fix: a test with 255 or more errors fails, its exit
 status does not wrap around

---
 src/std/testing.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/testing.csp b/src/std/testing.csp
index 587ed7f..c7f7278 100644
--- a/src/std/testing.csp
+++ b/src/std/testing.csp
@@ -72,7 +72,7 @@ namespace std {
                 0 => {
                     # new child process
                     test.func(t);
-                    exit(t.errors + 1); # pass the number of errors through the exit status to the parent process
+                    exit(if t.errors < 255 => t.errors + 1 else 255); # pass the number of errors through the exit status (one byte) to the parent process
                 }
                 _ => {
                     # parent process
-- 
2.43.0


From e7f4843de986fc1a2c2f8382f5c7c0f3a9ca294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 078/122] fix: signum_str(SIGWINCH) is SIGWINCH

---
 src/std/process.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/process.csp b/src/std/process.csp
index a0285da..19fbee6 100644
--- a/src/std/process.csp
+++ b/src/std/process.csp
@@ -229,7 +229,7 @@ namespace std {
                 SIGPROF => ret "SIGPROF";
                 SIGUSR1 => ret "SIGUSR1";
                 SIGUSR2 => ret "SIGUSR2";
-                SIGWINCH => ret "SINGINCH";
+                SIGWINCH => ret "SIGWINCH";
                 _ => ret "<unknown>";
             }
         }
-- 
2.43.0


From 053892fe4db6f4bd3df165c053b72c3ef20af0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 079/122] fix: function values stored in globals, struct
 members, arrays and behind pointers are read and written like any other value

---
 src/compiler/codegen/asm/asm_codegen.c | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 2ea71c4..cc8f22c 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1021,7 +1021,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 
                 case OBJ_GLOBAL:
                 case OBJ_ENUM_MEMBER:
-                    asm_println(cg, "  %s %s(%%rip), %%rax", node->call ? "movq" : "lea", node->referenced_obj->is_extern_c ? node->id->callee : asm_gen_identifier(cg->context, node->id));
+                    asm_println(cg, "  lea %s(%%rip), %%rax", node->referenced_obj->is_extern_c ? node->id->callee : asm_gen_identifier(cg->context, node->id));
                     return;
                 
                 case OBJ_FUNCTION:
@@ -1071,8 +1071,6 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node->left);
             asm_println(cg, "  add $%ld, %%rax", node->body->offset);
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
         } return;
         case ND_INDEX:
             asm_gen_index(cg, node, true);
@@ -1376,7 +1374,9 @@ static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty) {
         case TY_DYN:
         case TY_ARRAY:
         case TY_VLA:
-        case TY_FN:
+            return;
+        case TY_FN: // the value is the address of the function
+            asm_println(cg, "  mov (%%rax), %%rax");
             return;
         case TY_F32:
             asm_println(cg, "  movss (%%rax), %%xmm0");
@@ -2000,13 +2000,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_ID:
             asm_gen_addr(cg, node);
-            asm_load(cg, node->data_type);
-
-            if(unpack(node->data_type)->kind == TY_FN && 
-                node->referenced_obj && 
-                (node->referenced_obj->kind == OBJ_LOCAL || node->referenced_obj->kind == OBJ_FN_ARG)
-            )
-                    asm_println(cg, "  mov (%%rax), %%rax");
+            if(!node->referenced_obj || node->referenced_obj->kind != OBJ_FUNCTION)
+                asm_load(cg, node->data_type);
             return;
 
         case ND_MEMBER: {
@@ -2019,10 +2014,6 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node);
             asm_load(cg, node->data_type);
-
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
-
         } return;
         
         case ND_ARRAY:
@@ -2280,10 +2271,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             List_T* packed_args = node->args;
             node->args = unpack_call_args(cg, node);
             i32 stack_args = asm_push_args(cg, node);
-            asm_gen_addr(cg, node->expr);
-
-            if(!node->called_obj || node->called_obj->kind == OBJ_LOCAL || node->called_obj->kind == OBJ_FN_ARG)
-                asm_println(cg, "  mov (%%rax), %%rax");
+            asm_gen_expr(cg, node->expr);
 
             i32 fp = asm_pop_args(cg, node);
 
-- 
2.43.0


From 25a1466f1cb0b9d7d83b778127426c1c363c99f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 080/122] fix: thread::equal recognises the thread self()
 describes

---
 src/std/thread.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/thread.csp b/src/std/thread.csp
index 64722e6..0766ea6 100644
--- a/src/std/thread.csp
+++ b/src/std/thread.csp
@@ -85,7 +85,7 @@ namespace std {
             if a == b ret true;
          
             using libc, pthread;
-            <- a.func == b.func && pthread_equal(a.pt, b.pt);
+            <- pthread_equal(a.pt, b.pt) != 0;
         }
 
         fn get_pthread(t: &const Thread): libc::PThread
-- 
2.43.0


From bf98c1e8c122287e6838cb12dff1e978c8666774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 081/122] fix: thread::detach passes the thread, not the
 address of its handle

---
 src/std/libc/pthread.csp | 2 +-
 src/std/thread.csp       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/std/libc/pthread.csp b/src/std/libc/pthread.csp
index 6b1f34f..5783d1c 100644
--- a/src/std/libc/pthread.csp
+++ b/src/std/libc/pthread.csp
@@ -113,7 +113,7 @@ namespace libc {
     namespace pthread {
         extern "C" {
             fn pthread_create(thread: &PThread, attr: &const PThreadAttr, func: const fn<&void>(&void), ptr: &void): i32;
-            fn pthread_detach(thread: &PThread): i32;
+            fn pthread_detach(thread: PThread): i32;
             fn pthread_exit(ptr: &void);
             fn pthread_join(thread: PThread, ptr: &&void);
 
diff --git a/src/std/thread.csp b/src/std/thread.csp
index 0766ea6..d802c4e 100644
--- a/src/std/thread.csp
+++ b/src/std/thread.csp
@@ -42,9 +42,10 @@ namespace std {
         fn detach(thread: &Thread): Error
         {
             using libc::pthread;
-            let err = pthread_detach(&thread.pt);
+            let err = pthread_detach(thread.pt);
             if err
                 <- error::new(err, "failed detaching thread");
+            thread.running = false; # can't be joined anymore
             <- error::none();
         }
 
-- 
2.43.0


From 46987ab752a92e278ab0e0e4c6a635c0a9fc110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 082/122] fix: joining a thread twice joins it once

---
 src/std/thread.csp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/std/thread.csp b/src/std/thread.csp
index d802c4e..593f2df 100644
--- a/src/std/thread.csp
+++ b/src/std/thread.csp
@@ -65,6 +65,7 @@ namespace std {
             if t.running {
                 using libc::pthread, memory;
                 pthread_join(t.pt, nil);
+                t.running = false;
             }
 
             #memory::free(t);
-- 
2.43.0


From df70163602c4c674c0b64c767bece8a4a9b7cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 083/122] fix: thread::async does not report an error from
 before

---
 src/std/thread.csp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/std/thread.csp b/src/std/thread.csp
index 593f2df..5b20242 100644
--- a/src/std/thread.csp
+++ b/src/std/thread.csp
@@ -113,12 +113,10 @@ namespace std {
         fn async(func: const fn(&Thread)): Error {
             let thread = create(func, nil);
 
-            if error::is_some() 
+            if thread == nil
                 <- error::current();
-            
-            join(thread);
 
-            <- error::current();
+            <- join(thread);
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 8956d67f786270ffee3fd941cdb267ec6d9c61ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 084/122] fix: messages that name a type start from an empty
 buffer and do not overrun it

---
 src/compiler/ast/ast.c            | 9 ++++++++-
 src/compiler/parser/directives.c  | 6 +++---
 src/compiler/parser/typechecker.c | 7 ++++++-
 src/compiler/parser/validator.c   | 2 +-
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/compiler/ast/ast.c b/src/compiler/ast/ast.c
index b5cebad..dd3c61e 100644
--- a/src/compiler/ast/ast.c
+++ b/src/compiler/ast/ast.c
@@ -113,7 +113,7 @@ char* ast_id_to_str(char* dest, ASTIdentifier_T* id, size_t size)
         strcat(dest, "::");
     }
     
-    if(size - strlen(dest) - 1 - strlen(id->callee) > 0) // concatenate the callee, if enough memory is left
+    if(strlen(dest) + strlen(id->callee) + 1 < size) // concatenate the callee, if enough memory is left
         strcat(dest, id->callee);
     return dest;
 }
@@ -220,6 +220,13 @@ char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_
             {
                 ASTNode_T* member = ty->members->items[i];
 
+                // if not enough memory is left for the member and what is to follow, stop
+                if(strlen(dest) + (member->kind == ND_STRUCT_MEMBER && member->id->callee ? strlen(member->id->callee) : 0) + 64 > size)
+                {
+                    strcat(dest, "...");
+                    break;
+                }
+
                 switch(member->kind) {
                 case ND_STRUCT_MEMBER:
                     if(member->id->callee && strlen(member->id->callee) != 0)
diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index 0319aac..8e5f85b 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -312,7 +312,7 @@ EVAL_FN(after_main)
 {
     if(obj->after_main)
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(context, ERR_SYNTAX_WARNING, data->name_token, "function `%s` already marked as `[after_main]`", ast_id_to_str(buf, obj->id, sizeof(buf)));
     }
     obj->after_main = true;
@@ -324,7 +324,7 @@ EVAL_FN(before_main)
 {
     if(obj->before_main)
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(context, ERR_SYNTAX_WARNING, data->name_token, "function `%s` already marked as `[before_main]`", ast_id_to_str(buf, obj->id, sizeof(buf)));
     }
     obj->before_main = true;
@@ -389,7 +389,7 @@ EVAL_FN(constexpr_directive)
 {
     if(obj->constexpr) 
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(context, ERR_REDEFINITION_UNCR, data->name_token, "redundant `constexpr` directive; `%s` is already marked as `constexpr`", ast_id_to_str(buf, obj->id, BUFSIZ));
     }
 
diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index b475659..627c981 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -151,7 +151,7 @@ static void typecheck_call(ASTNode_T* call, va_list args)
             ASTNode_T* arg = call->args->items[i];
             if(arg->unpack_mode)
             {
-                char buf[BUFSIZ];
+                char buf[BUFSIZ] = {'\0'};
                 if(!is_const_len_array(arg->data_type) && unpack(arg->data_type)->kind != TY_STRUCT)
                     throw_error(t->context, ERR_TYPE_ERROR_UNCR, arg->tok, "unpacking with `...` is not supported for type `%s`", ast_type_to_str(t->context, buf, arg->data_type, LEN(buf)));
             }
@@ -259,6 +259,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
             return; // skip pointer-identical anonymous structs
 
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_CAST_WARN, cast->tok, "unnecessary type cast: expression is already of type `%s`",
             ast_type_to_str(t->context, buf1, cast->data_type, BUFSIZ)
         );
@@ -270,6 +271,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
 
     if(from->kind == TY_VOID) {
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "cannot cast from `void` to `%s`", 
             ast_type_to_str(t->context, buf1, cast->data_type, BUFSIZ)
         );
@@ -277,6 +279,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
     
     if(to->kind == TY_VOID) {
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "cannot cast from `%s` to `void`", 
             ast_type_to_str(t->context, buf1, cast->left->data_type, BUFSIZ)
         );
@@ -289,6 +292,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
         }
 
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "cannot cast from dynamic type to `%s`",
             ast_type_to_str(t->context, buf1, cast->data_type, BUFSIZ)
         );
@@ -298,6 +302,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
         cast->kind = ND_DYNCAST;
         if(from->kind != TY_PTR) {
             char* buf1 = alloca(BUFSIZ * sizeof(char));
+            *buf1 = '\0';
             throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "can only cast from `%s` to dynamic types",
                 ast_type_to_str(t->context, buf1, cast->left->data_type, BUFSIZ)
             );
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index e9a5f5b..6b92eee 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1577,7 +1577,7 @@ static void iter_validate_index(ASTNode_T* index, va_list args)
 
     if(!indexable(left_type->kind))
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(v->context, ERR_TYPE_ERROR, index->tok, "cannot get an index value from type `%s`", ast_type_to_str(v->context, buf, left_type, BUFSIZ));
         return;
     }
-- 
2.43.0


From 732762d73bfb3d11df555432f4b14688cfb6481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 085/122] fix: returning from main and std::process::exit end
 the process even when it has other threads, with the right status

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 src/std/process.csp                    | 4 ++--
 src/std/syscall.csp                    | 4 ++++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index cc8f22c..9914b52 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -423,7 +423,7 @@ static void asm_gen_entry_point(ASMCodegenData_T* cg)
     else
         asm_println(cg, "  movq %rax, %rdi");
 
-    asm_println(cg, "  movq $60, %rax");
+    asm_println(cg, "  movq $231, %rax"); // exit_group: end the whole process, whatever threads it has
     asm_println(cg, "  syscall");
 }
 
diff --git a/src/std/process.csp b/src/std/process.csp
index 19fbee6..358d29c 100644
--- a/src/std/process.csp
+++ b/src/std/process.csp
@@ -156,7 +156,7 @@ namespace std {
                 func(exit_code);
             }
             
-            loop syscall::exit(exit_code);
+            loop syscall::exit_group(exit_code);
         }
 
         [no_return]
@@ -165,7 +165,7 @@ namespace std {
             io::eputs("CSpydr panic:");
             io::eputs(msg);
             
-            loop syscall::exit(ExitCode::PANIC);
+            loop syscall::exit_group(ExitCode::PANIC);
         }
 
         fn at_exit(func: fn(ExitCode)): bool 
diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index b164c31..df900b9 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -710,6 +710,10 @@ namespace std {
         [no_return]
         fn exit(status: i32)
             syscall!(Syscall::EXIT, status);
+
+        [no_return]
+        fn exit_group(status: i32)
+            syscall!(Syscall::EXIT_GROUP, status);
         
         fn wait4(pid: pid_t, wstatus: &i32, options: i32, arg: u64): pid_t
         {
-- 
2.43.0


From f13c8214671e57ab1bf821ac04232ff1185404f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 086/122] fix: the arguments of a macro reach the macro calls
 in its body

---
 src/compiler/preprocessor/preprocessor.c | 148 +++++++++++++----------
 1 file changed, 84 insertions(+), 64 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 2163add..3fff622 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -417,11 +417,62 @@ static bool concatenateable(Token_T* tok) {
     }
 }
 
+static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_list, List_T* dest_list);
+
+// copies a range of tokens, expanding all macro calls in it
+static void expand_tokens(Preprocessor_T* pp, List_T* src_list, size_t start_idx, size_t end_idx, List_T* dest_list)
+{
+    for(size_t i = start_idx; i < end_idx; i++)
+    {
+        Token_T* tok = src_list->items[i];
+        if(tok->type == TOKEN_MACRO_CALL)
+        {
+            MacroCall_T macro_call;
+            parse_macro_call(pp, &macro_call, src_list, &i, end_idx);
+            expand_macro_call(pp, macro_call, src_list, dest_list);
+        }
+        else
+            list_push(dest_list, tok);
+    }
+}
+
+// handle situations where an identifier should be concatenated
+static void concatenate_last_token(Preprocessor_T* pp, List_T* dest_list)
+{
+    Token_T *at, *id;
+    if(dest_list->size < 3 ||
+        (at = dest_list->items[dest_list->size - 2])->type != TOKEN_AT ||
+        (id = dest_list->items[dest_list->size - 3])->type != TOKEN_ID
+    )
+        return;
+
+    Token_T* current = dest_list->items[dest_list->size - 1];
+    if(!concatenateable(current)) {
+        throw_error(pp->context, ERR_SYNTAX_ERROR, current, "cannot concatenate token `%s` to identifier using `@`", current->value);
+        return;
+    }
+
+    list_pop(dest_list);
+    list_pop(dest_list);
+
+    // both tokens can be used again by the next expansion, so the result needs a token of its own
+    char concatenated[strlen(id->value) + strlen(current->value) + 1];
+    strcat(strcpy(concatenated, id->value), current->value);
+
+    bool in_macro_expansion = id->in_macro_expansion;
+    id = init_token(&pp->context->raw_allocator, concatenated, id->line, id->pos, id->type, id->source);
+    id->in_macro_expansion = in_macro_expansion;
+    dest_list->items[dest_list->size - 1] = id;
+}
+
 static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_list, List_T* dest_list)
 {
     if(pp->macro_call_depth++ > pp->context->max_macro_call_depth)
         throw_error(pp->context, ERR_SYNTAX_ERROR, call.tok, "too many macro calls, maximum is %d.\nIf you need a larger call depth, use --set-mmcd", pp->context->max_macro_call_depth);
     
+    // the body with the arguments put in, before its own macro calls are expanded: they may have been given these arguments
+    List_T* body = init_list();
+
     for(size_t i = 0; i < call.macro->replacing_tokens->size; i++)
     {
         Token_T* tok = call.macro->replacing_tokens->items[i];
@@ -435,75 +486,44 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
             tok->source = call.tok->source;
         }
 
-        switch(tok->type) {
-            case TOKEN_ID:
-            {
-                i32 arg_idx = find_macro_arg(call.macro, tok->value);
-                if(arg_idx != -1)
-                    for(size_t j = call.args[arg_idx].start_idx; j <= call.args[arg_idx].end_idx; j++)
-                    {
-                        Token_T* tok = src_list->items[j];
-                        if(tok->type == TOKEN_MACRO_CALL)
-                        {
-                            MacroCall_T macro_call;
-                            parse_macro_call(pp, &macro_call, src_list, &j, call.args[arg_idx].end_idx);
-                            expand_macro_call(pp, macro_call, src_list, dest_list);
-                        }
-                        else
-                            list_push(dest_list, src_list->items[j]);
-                    }
-                else if(strcmp(tok->value, "__line__") == 0)
-                {
-                    char linestr[BUFSIZ] = { '\0' };
-                    sprintf(linestr, "%u", call.tok->line + 1);
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, linestr, tok->line, tok->pos, TOKEN_INT, tok->source));
-                }
-                else if(strcmp(tok->value, "__file__") == 0)
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, (char*) call.tok->source->path, tok->line, tok->pos, TOKEN_STRING, tok->source));
-                else if(strcmp(tok->value, "__func__") == 0)
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, "", tok->line, tok->pos, TOKEN_CURRENT_FN, tok->source));
-                else
-                    list_push(dest_list, tok);
-            } break;
-
-            case TOKEN_MACRO_CALL:
-            {
-                // FIXME: segfaults (macro doesn't get correctly parsed?)
-                MacroCall_T macro_call;
-                parse_macro_call(pp, &macro_call, call.macro->replacing_tokens, &i, call.macro->replacing_tokens->size);
-                expand_macro_call(pp, macro_call, call.macro->replacing_tokens, dest_list);
-            } break;
+        if(tok->type != TOKEN_ID) {
+            list_push(body, tok);
+            continue;
+        }
 
-            default:
-                list_push(dest_list, tok);
-                break;
+        i32 arg_idx = find_macro_arg(call.macro, tok->value);
+        if(arg_idx != -1)
+            expand_tokens(pp, src_list, call.args[arg_idx].start_idx, call.args[arg_idx].end_idx + 1, body);
+        else if(strcmp(tok->value, "__line__") == 0)
+        {
+            char linestr[BUFSIZ] = { '\0' };
+            sprintf(linestr, "%u", call.tok->line + 1);
+            list_push(body, init_token(&pp->context->raw_allocator, linestr, tok->line, tok->pos, TOKEN_INT, tok->source));
         }
+        else if(strcmp(tok->value, "__file__") == 0)
+            list_push(body, init_token(&pp->context->raw_allocator, (char*) call.tok->source->path, tok->line, tok->pos, TOKEN_STRING, tok->source));
+        else if(strcmp(tok->value, "__func__") == 0)
+            list_push(body, init_token(&pp->context->raw_allocator, "", tok->line, tok->pos, TOKEN_CURRENT_FN, tok->source));
+        else
+            list_push(body, tok);
+    }
 
-        // handle situations where an identifier should be concatenated
-        Token_T *at, *id;
-        if(dest_list->size >= 3 &&
-            (at = dest_list->items[dest_list->size - 2])->type == TOKEN_AT &&
-            (id = dest_list->items[dest_list->size - 3])->type == TOKEN_ID
-        ){
-            Token_T* current = dest_list->items[dest_list->size - 1];
-            if(!concatenateable(current)) {
-                throw_error(pp->context, ERR_SYNTAX_ERROR, current, "cannot concatenate token `%s` to identifier using `@`", current->value);
-                continue;
-            }
-
-            list_pop(dest_list);
-            list_pop(dest_list);
-
-            // both tokens can be used again by the next expansion, so the result needs a token of its own
-            char concatenated[strlen(id->value) + strlen(current->value) + 1];
-            strcat(strcpy(concatenated, id->value), current->value);
-
-            bool in_macro_expansion = id->in_macro_expansion;
-            id = init_token(&pp->context->raw_allocator, concatenated, id->line, id->pos, id->type, id->source);
-            id->in_macro_expansion = in_macro_expansion;
-            dest_list->items[dest_list->size - 1] = id;
+    for(size_t i = 0; i < body->size; i++)
+    {
+        Token_T* tok = body->items[i];
+        if(tok->type == TOKEN_MACRO_CALL)
+        {
+            MacroCall_T macro_call;
+            parse_macro_call(pp, &macro_call, body, &i, body->size);
+            expand_macro_call(pp, macro_call, body, dest_list);
         }
+        else
+            list_push(dest_list, tok);
+
+        concatenate_last_token(pp, dest_list);
     }
+
+    free_list(body);
 }
 
 //
-- 
2.43.0


From 7847edf642bcc4bf3df3364c28601198bd0c6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 087/122] fix: the macro call depth limit limits the depth, not
 the number of macro calls

---
 src/compiler/preprocessor/preprocessor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 3fff622..1053edf 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -524,6 +524,7 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
     }
 
     free_list(body);
+    pp->macro_call_depth--;
 }
 
 //
-- 
2.43.0


From c2dec9d13e6da4285976e545b2827a6284a3cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 088/122] fix: identifiers, numbers and operators longer than
 the lexer's buffer are not written past it

---
 src/compiler/lexer/lexer.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 15016e8..1cbcfb2 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -165,6 +165,16 @@ static char lexer_peek(Lexer_T* lexer, int offset)
     return get_char(lexer->file, lexer->line, lexer->pos + offset);
 }
 
+// appends the current character to the token in the temporary buffer
+static void lexer_push_char(Lexer_T* lexer, size_t* length)
+{
+    if(*length + 2 > lexer->tmp_buffer_size)
+        lexer->tmp_buffer = realloc(lexer->tmp_buffer, lexer->tmp_buffer_size *= 2);
+
+    lexer->tmp_buffer[(*length)++] = lexer->c;
+    lexer->tmp_buffer[*length] = '\0';
+}
+
 Token_T* lexer_consume(Lexer_T* lexer, Token_T* token)
 {
     lexer_advance(lexer);
@@ -267,10 +277,11 @@ static TokenType_T lexer_get_id_type(char* id)
 static Token_T* lexer_get_id(Lexer_T* lexer)
 {
     *lexer->tmp_buffer = '\0';
+    size_t length = 0;
 
     while(isalnum(lexer->c) || lexer->c == '_' || lexer->c == '?' || lexer->c == '\'')
     {
-        strcat(lexer->tmp_buffer, (char[]){lexer->c, '\0'});
+        lexer_push_char(lexer, &length);
         lexer_advance(lexer);
     }
 
@@ -295,6 +306,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
     lexer_advance(lexer);
 
     *lexer->tmp_buffer = '\0';
+    size_t length = 0;
 
     while(strchr(digits, lexer->c))
     {
@@ -303,7 +315,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
             lexer_advance(lexer);
             continue;
         }
-        strcat(lexer->tmp_buffer, (char[2]){lexer->c, '\0'});
+        lexer_push_char(lexer, &length);
 
         lexer_advance(lexer);
     }
@@ -319,6 +331,7 @@ static Token_T* lexer_get_decimal(Lexer_T* lexer)
 {
     TokenType_T type = TOKEN_INT;
     *lexer->tmp_buffer = '\0';
+    size_t length = 0;
 
     while(isdigit(lexer->c) || lexer->c == '.' || lexer->c == '_')
     {
@@ -328,7 +341,7 @@ static Token_T* lexer_get_decimal(Lexer_T* lexer)
             continue;
         }
 
-        strcat(lexer->tmp_buffer, (char[2]){lexer->c, '\0'});
+        lexer_push_char(lexer, &length);
 
         if(lexer->c == '.')
         {   
@@ -475,10 +488,11 @@ static inline bool is_operator_char(char c)
 static Token_T* lexer_get_operator(Lexer_T* lexer)
 {
     *lexer->tmp_buffer = '\0';
+    size_t length = 0;
 
     while(is_operator_char(lexer->c))
     {
-        strcat(lexer->tmp_buffer, (char[]){lexer->c, '\0'});
+        lexer_push_char(lexer, &length);
         lexer_advance(lexer);
     }
 
-- 
2.43.0


From 4aaeff93b3fb7f542a66d5f4c5c895c5051b57ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 089/122] fix: a hexadecimal, binary or octal literal at the
 end of the file ends

---
 src/compiler/lexer/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 1cbcfb2..cead9f6 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -308,7 +308,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
     *lexer->tmp_buffer = '\0';
     size_t length = 0;
 
-    while(strchr(digits, lexer->c))
+    while(lexer->c && strchr(digits, lexer->c))
     {
         if(lexer->c == '_')
         {
-- 
2.43.0


From 47e06f92651e74031a71c82a63728067dbd5e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 090/122] fix: a string literal ends at its first unescaped
 quote, and its buffer is large enough

---
 src/compiler/lexer/lexer.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index cead9f6..3055f5a 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -392,12 +392,17 @@ static Token_T* lexer_get_str(Lexer_T* lexer)
 
     lexer_advance(lexer);
 
-    while(lexer->c != '"' || (lexer_peek(lexer, -1) == '\\' && lexer_peek(lexer, -2) != '\\'))
+    size_t size = 0;
+    bool escaped = false; // whether a backslash precedes the current character
+
+    while(lexer->c != '"' || escaped)
     {
-        if(strlen(buffer) - 3 >= length)
+        if(size + 2 > length)
             buffer = realloc(buffer, length *= 2);
 
-        strcat(buffer, (char[2]){lexer->c, '\0'});
+        buffer[size++] = lexer->c;
+        buffer[size] = '\0';
+        escaped = lexer->c == '\\' && !escaped;
 
         lexer_advance(lexer);
 
-- 
2.43.0


From 71858703374c5c94654fa985f93e47bafae8cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:57 +0000
Subject: [PATCH 091/122] fix: the default case of a match statement is visited
 once, not three times

---
 src/compiler/ast/ast_iterator.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/compiler/ast/ast_iterator.c b/src/compiler/ast/ast_iterator.c
index 3aceb11..3a173ae 100644
--- a/src/compiler/ast/ast_iterator.c
+++ b/src/compiler/ast/ast_iterator.c
@@ -319,11 +319,9 @@ static void ast_node(const ASTIteratorList_T* list, ASTNode_T* node, va_list cus
         
         case ND_MATCH_TYPE:
             ast_type(list, node->data_type, custom_args);
-            ast_node(list, node->body, custom_args);
             for(size_t i = 0; i < node->cases->size; i++)
                 ast_node(list, node->cases->items[i], custom_args);
             ast_node(list, node->default_case, custom_args);
-            ast_node(list, node->body, custom_args);
             break;
 
         case ND_LOOP:
@@ -350,10 +348,8 @@ static void ast_node(const ASTIteratorList_T* list, ASTNode_T* node, va_list cus
 
         case ND_MATCH:
             ast_node(list, node->condition, custom_args);
-            ast_node(list, node->body, custom_args);
             for(size_t i = 0; i < node->cases->size; i++)
                 ast_node(list, node->cases->items[i], custom_args);
-            ast_node(list, node->body, custom_args);
             ast_node(list, node->default_case, custom_args);
             break;
 
-- 
2.43.0


From 13a64d1ef0b75203d4e89790ddfbe44e9158b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 092/122] fix: inserting into a list moves the later items back
 by one

---
 src/compiler/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/list.c b/src/compiler/list.c
index 114c9c5..ed177dd 100755
--- a/src/compiler/list.c
+++ b/src/compiler/list.c
@@ -74,7 +74,7 @@ void list_insert(List_T* list, void* item, size_t index)
 
     list_push(list, NULL);
 
-    for(size_t i = list->size - 1; i > index; i++)
+    for(size_t i = list->size - 1; i > index; i--)
         list->items[i] = list->items[i - 1];
     
     list->items[index] = item;
-- 
2.43.0


From 4748e333a762fbf9c0905bfa471b207a67e4342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 093/122] fix: $ still stands for the outer pipe's value behind
 an inner pipe

---
 src/compiler/parser/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 713883e..3663108 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2396,11 +2396,13 @@ static ASTNode_T* parse_pipe(Parser_T* p, ASTNode_T* left)
     parser_consume_operator(p, "|>", "expect `|>` for pipe expression");
 
     bool outer_holes_used = p->holes_used;
+    bool outer_holes_enabled = parser_holes_enabled(p);
     p->holes_used = false;
 
     parser_enable_holes(p);
     pipe->right = parse_expr(p, PREC_PIPE, TOKEN_SEMICOLON);
-    parser_disable_holes(p);
+    if(!outer_holes_enabled)
+        parser_disable_holes(p);
 
     if(!p->holes_used && pipe->right->kind == ND_CALL)
         list_insert(pipe->right->args, init_ast_node(&p->context->raw_allocator, ND_HOLE, pipe->tok), 0);
-- 
2.43.0


From 3d417368400bc2aa9e0e4f2ba718862f6914dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 094/122] fix: an error at an empty string or char literal is
 reported, not underlined without end

---
 src/compiler/error/default.c | 2 +-
 src/compiler/lexer/lexer.c   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 75012fe..f0230a4 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -62,7 +62,7 @@ void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, con
     fprintf(ERR_OUTPUT_STREAM, err_tmp2, ERR_LINE_NUMBER_SPACES, line, src_line, src_line[strlen(src_line) - 1] == '\n' ? "" : "\n ", 
             ERR_LINE_NUMBER_SPACES, "", (int) (character - strlen(tok->value) - trim_offset), "");
 
-    for(u32 i = 0; i < strlen(tok->value) - 1; i++)
+    for(u32 i = 1; i < strlen(tok->value); i++)
         putc('~', ERR_OUTPUT_STREAM);
     fprintf(ERR_OUTPUT_STREAM, err_tmp3);
 }
diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 3055f5a..111aaf4 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -352,7 +352,7 @@ static Token_T* lexer_get_decimal(Lexer_T* lexer)
             }
 
             if(type == TOKEN_FLOAT)
-                throw_error(lexer->context, ERR_SYNTAX_ERROR,  &(Token_T){.line = lexer->line, .pos = lexer->pos, .source = lexer->file}, "multiple `.` found in number literal");
+                throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, ".", lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "multiple `.` found in number literal");
 
             type = TOKEN_FLOAT;
         }
@@ -422,7 +422,7 @@ static Token_T* lexer_get_char(Lexer_T* lexer)
 
     if(lexer->c == '\'')
     {
-        throw_error(lexer->context, ERR_SYNTAX_ERROR,  &(Token_T){.line = lexer->line, .pos = lexer->pos, .source = lexer->file}, "empty char literal");
+        throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, "'", lexer->line, lexer->pos, TOKEN_CHAR, lexer->file), "empty char literal");
         return init_token(&lexer->context->raw_allocator, "EOF", lexer->line, lexer->pos, TOKEN_EOF, lexer->file);
     }
 
@@ -559,7 +559,7 @@ static Token_T* lexer_get_symbol(Lexer_T* lexer)
                 return init_token(&lexer->context->raw_allocator, "EOF", lexer->line, lexer->pos, TOKEN_EOF, lexer->file);
             }
             else
-                throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, &lexer->c, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "unknown token `%c` (id: %d)", lexer->c, lexer->c);
+                throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, (char[]){lexer->c, '\0'}, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "unknown token `%c` (id: %d)", lexer->c, lexer->c);
         }
     }
     // satisfy -Wall
-- 
2.43.0


From 886d783737673ee88bb68fde462f1bdcc5d26688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 095/122] fix: a file is imported once, however its path is
 spelled, and the main file too

---
 src/compiler/preprocessor/preprocessor.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 1053edf..a3dbc19 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -123,6 +123,14 @@ void init_preprocessor(Context_T* context, Preprocessor_T* pp, ASTProg_T* ast)
     pp->files = ast->files;
     pp->is_silent = context->flags.silent;
 
+    // importing the main file again must not include it twice
+    Import_T* main_import = init_import(NULL);
+    main_import->import_path = get_absolute_path((char*) ((File_T*) ast->files->items[0])->path);
+    if(main_import->import_path)
+        list_push(pp->imports, main_import);
+    else
+        free_import(main_import);
+
     define_std_macros(context, pp->macros);
 }
 
@@ -203,6 +211,14 @@ static void parse_import_def(Preprocessor_T* pp, List_T* token_list, size_t* i)
     // generate the full path to the import
     imp->import_path = get_full_import_path(pp->context, (char*) imp->tok->source->path, imp->tok);
 
+    // the same file can be imported under different spellings of its path
+    char* canonical_path = get_absolute_path(imp->import_path);
+    if(canonical_path)
+    {
+        free(imp->import_path);
+        imp->import_path = canonical_path;
+    }
+
     // check if the file was already included
     if(find_import(pp, imp))
     {   
-- 
2.43.0


From 26b745e1e82118f411d89e2fb5934303f52e4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 096/122] fix: a char literal can be squared, it is evaluated
 once per node

---
 src/compiler/parser/parser.c    |  5 -----
 src/compiler/parser/validator.c | 10 +++++-----
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 3663108..10ad999 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2011,11 +2011,6 @@ static ASTNode_T* parse_char_lit(Parser_T* p)
 {
     ASTNode_T* char_lit = init_ast_node(&p->context->raw_allocator, ND_CHAR, p->tok);
 
-    if(strlen(p->tok->value) > 1)
-        char_lit->str_val = strdup((char[]){'\\', p->tok->value[1], '\0'});
-    else 
-        char_lit->str_val = strdup((char[]){p->tok->value[0], '\0'});
-    
     char_lit->is_constant = true; 
     char_lit->data_type = (ASTType_T*) primitives[TY_CHAR];
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 6b92eee..1c9b4da 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1939,12 +1939,13 @@ static void iter_validate_char_lit(ASTNode_T* ch, va_list args)
 {
      GET_VALIDATOR(args);
 
-    // check for invalid escape sequences and evaluate them
-    char c = ch->str_val[0];
+    // check for invalid escape sequences and evaluate them,
+    // `ch` can be visited more than once, as `x²` has its operand twice
+    char c = ch->tok->value[0];
 
     if(c == '\\')
     {
-        switch(ch->str_val[1])
+        switch(ch->tok->value[1])
         {
             case 'a':
                 c = '\a';
@@ -1980,12 +1981,11 @@ static void iter_validate_char_lit(ASTNode_T* ch, va_list args)
                 c = '\0';
                 break;
             default:
-                throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, ch->tok, "invalid escape sequence `\\%c` found in char literal", ch->str_val[1]);
+                throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, ch->tok, "invalid escape sequence `\\%c` found in char literal", ch->tok->value[1]);
                 return;
         }
     }
     
-    free(ch->str_val);
     ch->int_val = c;
 }
 
-- 
2.43.0


From 6f8f6cb1a7b1855e905586cacc5c92674ded5d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:18 +0000
Subject: [PATCH 097/122] fix: an error in a definition before its name is
 reported

---
 src/compiler/error/default.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index f0230a4..7269867 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -11,7 +11,7 @@
 
 static void print_current_fn(Context_T* context) {
     static ASTObj_T* last_obj = NULL; // remember the last function to eliminate duplication in multiple errors of the same function
-    if(context->current_obj && *context->current_obj && *context->current_obj != last_obj) 
+    if(context->current_obj && *context->current_obj && (*context->current_obj)->id && *context->current_obj != last_obj) 
     {
         char buf[BUFSIZ] = {};
         fprintf(
-- 
2.43.0


From 6b67ed5ea040ec0bdad19fd6fdf924da9f05c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 098/122] fix: ++ and -- change only what is stored, and no
 constants

---
 src/compiler/parser/validator.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 1c9b4da..d2cf51f 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1550,6 +1550,8 @@ static void iter_validate_bitwise_op(ASTNode_T* op, va_list args)
     op->data_type = op->right->data_type->size > op->left->data_type->size ? op->right->data_type : op->left->data_type;
 }
 
+static ASTNode_T* expand_closure(ASTNode_T* cl);
+
 static void iter_validate_inc_dec(ASTNode_T* op, va_list args)
 {
     GET_VALIDATOR(args);
@@ -1561,6 +1563,23 @@ static void iter_validate_inc_dec(ASTNode_T* op, va_list args)
     }
 
     op->data_type = op->left->data_type;
+
+    // only something that is stored somewhere can be changed
+    ASTNode_T* target = expand_closure(op->left);
+    while(target->kind == ND_CAST)
+        target = expand_closure(target->left);
+
+    if(target->kind == ND_CALL)
+        throw_error(v->context, ERR_MISC, op->tok, "cannot change the return value of a function using `%s`", op->tok->value);
+
+    if(target->kind == ND_ID && target->referenced_obj)
+    {
+        ASTObj_T* obj = target->referenced_obj;
+        if(obj->kind != OBJ_GLOBAL && obj->kind != OBJ_LOCAL && obj->kind != OBJ_FN_ARG)
+            throw_error(v->context, ERR_MISC, op->tok, "cannot change %s `%s` using `%s`", obj_kind_to_str(obj->kind), obj->id->callee, op->tok->value);
+        if(obj->is_constant)
+            throw_error(v->context, ERR_CONST_ASSIGN, op->tok, "cannot change constant %s `%s` using `%s`", obj_kind_to_str(obj->kind), obj->id->callee, op->tok->value);
+    }
 }
 
 static bool indexable(ASTTypeKind_T tk)
-- 
2.43.0


From 1f2f51f7ab56f0c6f8f664b67d809fee885e808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 099/122] fix: parentheses do not make a function or an enum
 member assignable

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index d2cf51f..db76734 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1672,7 +1672,7 @@ static void iter_leave_assignment(ASTNode_T* assign, va_list args)
             break;
         case ND_ID: 
         {
-            ASTObj_T* assigned_obj = assign->left->referenced_obj;
+            ASTObj_T* assigned_obj = expand_closure(assign->left)->referenced_obj;
             if(!assigned_obj)
                 return;
 
-- 
2.43.0


From 670a96c63c6d1c0e7f0a44fe955894e5b84578cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:08 +0000
Subject: [PATCH 100/122] fix: looking ahead stops at the end of the file

---
 src/compiler/parser/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 10ad999..0b173f6 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -387,7 +387,7 @@ inline Token_T* parser_peek(Parser_T* p, i32 level)
     if(level == 0)
         return p->tok;
     if(p->token_i + level >= p->tokens->size || p->token_i + level <= 0)
-        return NULL;
+        return p->tokens->items[p->tokens->size - 1]; // nothing follows the end of the file
     return p->tokens->items[p->token_i + level];
 }
 
-- 
2.43.0


From 5d16aa73ae5b29377aa085504ca87dd8e60d7e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 101/122] fix: break and continue outside of a loop are
 reported, not linked

---
 src/compiler/parser/validator.c | 52 +++++++++++++++++++++++++++++++++
 src/compiler/parser/validator.h |  1 +
 2 files changed, 53 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index db76734..816404f 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -62,6 +62,7 @@ static void init_validator(Validator_T* v, Context_T* context, ASTProg_T* ast)
     v->ast = ast;
     v->obj_stack = init_list();
     v->exact_type_info_stack = init_list();
+    v->jump_targets = init_list();
     typechecker_init(&v->typechecker, context, ast);
     init_constexpr_resolver(&v->constexpr_resolver, context, ast);
 }
@@ -72,6 +73,7 @@ static void free_validator(Validator_T* v)
     typechecker_free(&v->typechecker);
     free_list(v->obj_stack);
     free_list(v->exact_type_info_stack);
+    free_list(v->jump_targets);
 }
 
 void validator_push_obj(Validator_T* v, ASTObj_T* obj)
@@ -1148,6 +1150,7 @@ static void iter_validate_return(ASTNode_T* ret, va_list args)
 static void iter_validate_for_range(ASTNode_T* for_range, va_list args)
 {
     GET_VALIDATOR(args);
+    list_pop(v->jump_targets);
     ASTType_T* left = unpack(for_range->left->data_type);
 
     if(!is_integer(left))
@@ -1879,15 +1882,49 @@ static void iter_validate_hole(ASTNode_T* hole, va_list args)
     hole->expr = v->current_pipe;
 }
 
+static void iter_enter_jump_target(ASTNode_T* target, va_list args)
+{
+    GET_VALIDATOR(args);
+    list_push(v->jump_targets, target);
+}
+
+static void iter_leave_jump_target(ASTNode_T* target, va_list args)
+{
+    GET_VALIDATOR(args);
+    list_pop(v->jump_targets);
+}
+
+static void iter_validate_jump(ASTNode_T* jump, va_list args)
+{
+    GET_VALIDATOR(args);
+
+    for(size_t i = v->jump_targets->size; i > 0; i--)
+    {
+        ASTNode_T* target = v->jump_targets->items[i - 1];
+        if(target->kind == ND_LAMBDA || target->kind == ND_DEFER)
+            break;
+        if(target->kind != ND_MATCH || jump->kind == ND_BREAK)
+            return;
+    }
+
+    throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, jump->tok, jump->kind == ND_BREAK
+        ? "`break` can only be used inside of a loop or `match` statement"
+        : "`continue` can only be used inside of a loop"
+    );
+}
+
 static void iter_enter_lambda(ASTNode_T* lambda, va_list args)
 {
+    GET_VALIDATOR(args);
     static u64 id = 0;
     lambda->long_val = id++;
+    list_push(v->jump_targets, lambda);
 }
 
 static void iter_leave_lambda(ASTNode_T* lambda, va_list args)
 {
     GET_VALIDATOR(args);
+    list_pop(v->jump_targets);
 
     if(v->context->ct != CT_ASM)
         return;
@@ -2143,11 +2180,26 @@ static void validate_obj_deep(Validator_T* v, ASTObj_T* obj)
             [ND_ASSIGN] = iter_enter_assignment,
             [ND_PIPE] = iter_enter_pipe,
             [ND_LAMBDA] = iter_enter_lambda,
+            [ND_LOOP] = iter_enter_jump_target,
+            [ND_FOR] = iter_enter_jump_target,
+            [ND_FOR_RANGE] = iter_enter_jump_target,
+            [ND_WHILE] = iter_enter_jump_target,
+            [ND_DO_WHILE] = iter_enter_jump_target,
+            [ND_MATCH] = iter_enter_jump_target,
+            [ND_DEFER] = iter_enter_jump_target,
         },
         .node_end_fns = {
             [ND_BLOCK] = iter_leave_block,
             [ND_RETURN] = iter_validate_return,
+            [ND_LOOP] = iter_leave_jump_target,
+            [ND_FOR] = iter_leave_jump_target,
+            [ND_WHILE] = iter_leave_jump_target,
+            [ND_DO_WHILE] = iter_leave_jump_target,
+            [ND_MATCH] = iter_leave_jump_target,
+            [ND_DEFER] = iter_leave_jump_target,
             [ND_FOR_RANGE] = iter_validate_for_range,
+            [ND_BREAK] = iter_validate_jump,
+            [ND_CONTINUE] = iter_validate_jump,
             [ND_MATCH_TYPE] = iter_validate_match_type,
             [ND_WITH] = iter_validate_with,
             [ND_CASE] = iter_validate_case,
diff --git a/src/compiler/parser/validator.h b/src/compiler/parser/validator.h
index cfb14e7..5138bc5 100644
--- a/src/compiler/parser/validator.h
+++ b/src/compiler/parser/validator.h
@@ -37,6 +37,7 @@ typedef struct VALIDATOR_STRUCT
     List_T* exact_type_info_stack;
         
     ASTNode_T* current_pipe;
+    List_T* jump_targets;   // the loops, matches, lambdas and deferred statements around the current node
 
     u32 scope_depth;  // depth of the current scope
 } Validator_T;
-- 
2.43.0


From 1cfc0de5ebbe31b25ff1887939184f68687569c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 102/122] fix: the parts of a for loop are separated by
 semicolons, not by any token

---
 src/compiler/parser/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 0b173f6..4d913eb 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1391,11 +1391,11 @@ static ASTNode_T* parse_for(Parser_T* p, bool needs_semicolon)
     
     if(!tok_is(p, TOKEN_SEMICOLON))
         loop->condition = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
-    parser_advance(p);
+    parser_consume(p, TOKEN_SEMICOLON, "expect `;` after for-loop condition");
 
     if(!tok_is(p, TOKEN_SEMICOLON))
         loop->expr = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
-    parser_advance(p);
+    parser_consume(p, TOKEN_SEMICOLON, "expect `;` after for-loop expression");
 
     loop->body = parse_stmt(p, needs_semicolon);
 
-- 
2.43.0


From e92d6d089e97339c30bd0b4497ad9a15c86ebbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 103/122] fix: a global variable whose value depends on itself
 is reported, not followed without end

---
 src/compiler/parser/queue.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/compiler/parser/queue.c b/src/compiler/parser/queue.c
index 736a074..135fcd5 100644
--- a/src/compiler/parser/queue.c
+++ b/src/compiler/parser/queue.c
@@ -153,14 +153,15 @@ static void resolve_obj_enqueue(Validator_T* v, ResolveQueue_T* queue, ASTObj_T*
         }
     };
 
-    if(method == RESOLVE_DEEP)
+    // a global's value is always needed to initialize it
+    if((method == RESOLVE_DEEP || obj->kind == OBJ_GLOBAL) && list_contains(v->obj_stack, obj))
     {
-        if(list_contains(v->obj_stack, obj))
-        {
-            report_recursive_dependency(v, obj);
-            goto finish;
-        }
+        report_recursive_dependency(v, obj);
+        goto finish;
+    }
 
+    if(method == RESOLVE_DEEP)
+    {
         iter.iterate_only_objs = false;
     }
     else
-- 
2.43.0


From 8a5d28cd3124971be573379f1440f8228328fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 104/122] fix: a file that ends in "import" is reported, the
 compiler does not read past its end

---
 src/compiler/preprocessor/preprocessor.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index a3dbc19..33420a4 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -199,15 +199,15 @@ static void parse_import_def(Preprocessor_T* pp, List_T* token_list, size_t* i)
 {
     static u32 file_no = 0;
     // parse the import struct from the source code
-    (*i)++;
+    Token_T* import_tok = token_list->items[(*i)++];
+    if(*i >= token_list->size)
+        throw_error(pp->context, ERR_SYNTAX_ERROR, import_tok, "unexpected end of file, expect `\"<import file>\"` as a string after `import`");
 
     Token_T* next = token_list->items[(*i)++];
     if(next->type != TOKEN_STRING)
         throw_error(pp->context, ERR_SYNTAX_ERROR, next, "unexpected token `%s`, expect `\"<import file>\"` as a string", next->value);
     Import_T* imp = init_import(next);
 
-    next = token_list->items[(*i)];
-
     // generate the full path to the import
     imp->import_path = get_full_import_path(pp->context, (char*) imp->tok->source->path, imp->tok);
 
-- 
2.43.0


From e2fb07246459b19a39ff33cdd21f9f6b62e71a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:58 +0000
Subject: [PATCH 105/122] fix: regex: a literal byte above 127 in a pattern
 matches itself

---
 src/std/regex.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/regex.csp b/src/std/regex.csp
index c3c6365..6e856b0 100644
--- a/src/std/regex.csp
+++ b/src/std/regex.csp
@@ -33,7 +33,7 @@ namespace std {
     type Regex: struct {
         kind: u8,
         u: union {
-            ch: u8,
+            ch: char,
             ccl: &u8
         }
     };
-- 
2.43.0


From 9c3ce4370ab5660a509992eeda80c890af64350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 106/122] fix: ++ and -- on what is stored nowhere are reported
 in functions that are not used, too

---
 src/compiler/parser/validator.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 816404f..b50e17a 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1572,16 +1572,27 @@ static void iter_validate_inc_dec(ASTNode_T* op, va_list args)
     while(target->kind == ND_CAST)
         target = expand_closure(target->left);
 
-    if(target->kind == ND_CALL)
-        throw_error(v->context, ERR_MISC, op->tok, "cannot change the return value of a function using `%s`", op->tok->value);
-
-    if(target->kind == ND_ID && target->referenced_obj)
+    switch(target->kind)
     {
+    case ND_MEMBER:
+    case ND_INDEX:
+    case ND_DEREF:
+        break;
+    case ND_ID:
+        if(!target->referenced_obj)
+            break;
+
         ASTObj_T* obj = target->referenced_obj;
         if(obj->kind != OBJ_GLOBAL && obj->kind != OBJ_LOCAL && obj->kind != OBJ_FN_ARG)
             throw_error(v->context, ERR_MISC, op->tok, "cannot change %s `%s` using `%s`", obj_kind_to_str(obj->kind), obj->id->callee, op->tok->value);
         if(obj->is_constant)
             throw_error(v->context, ERR_CONST_ASSIGN, op->tok, "cannot change constant %s `%s` using `%s`", obj_kind_to_str(obj->kind), obj->id->callee, op->tok->value);
+        break;
+    case ND_CALL:
+        throw_error(v->context, ERR_MISC, op->tok, "cannot change the return value of a function using `%s`", op->tok->value);
+        break;
+    default:
+        throw_error(v->context, ERR_MISC, op->tok, "cannot change `%s` using `%s`", target->tok->value, op->tok->value);
     }
 }
 
-- 
2.43.0


From 2f00a9df9ce43b43480a35547285ba76ddf5fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:11 +0000
Subject: [PATCH 107/122] fix: calling a local variable before its definition
 is reported

---
 src/compiler/parser/validator.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index b50e17a..b64c88e 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1238,6 +1238,13 @@ static void iter_validate_call(ASTNode_T* call, va_list args)
     GET_VALIDATOR(args);
     
     ASTType_T* call_type = unpack(call->expr->data_type);
+    if(!call_type)
+    {
+        // the called variable has no type yet
+        throw_error(v->context, ERR_TYPE_ERROR, call->tok, "cannot call `%s` before its definition", call->expr->tok->value);
+        return;
+    }
+
     switch(call_type->kind)
     {
     case TY_FN:
-- 
2.43.0


From 9fd21b0929ecc1b4efc41a16aabf525a500359b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:50 +0000
Subject: [PATCH 108/122] fix: the use of a variable before the definition that
 gives it its type is reported

---
 src/compiler/parser/validator.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index b64c88e..c7309a9 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1320,6 +1320,11 @@ static void iter_validate_identifier(ASTNode_T* id, va_list args)
         case OBJ_LOCAL:
         case OBJ_FN_ARG:
             id->referenced_obj->referenced = true;
+            if(!id->referenced_obj->data_type && !id->is_initializing)
+            {
+                throw_error(v->context, ERR_TYPE_ERROR, id->id->tok, "%s `%s` is used before its definition", obj_kind_to_str(id->referenced_obj->kind), id->id->callee);
+                return;
+            }
             break;
 
         default:
@@ -1671,6 +1676,10 @@ static void iter_enter_assignment(ASTNode_T* assign, va_list args)
 {
     if(assign->right->kind == ND_ARRAY || assign->right->kind == ND_STRUCT)
         assign->right->is_assigning = true;
+
+    // the initializer of a variable gives it its type
+    if(assign->is_initializing && assign->left->kind == ND_ID)
+        assign->left->is_initializing = true;
 }
 
 static void iter_leave_assignment(ASTNode_T* assign, va_list args)
-- 
2.43.0


From 3aa68146652b59d9f83c69ef09e27f31c649d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:32 +0000
Subject: [PATCH 109/122] fix: directives on a namespace that is there already,
 behind other directives, and in extern blocks

---
 src/compiler/parser/directives.c | 92 ++++++++++++++++++++++----------
 src/compiler/parser/parser.c     | 15 ++++--
 2 files changed, 77 insertions(+), 30 deletions(-)

diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index 8e5f85b..aba62ec 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -206,59 +206,96 @@ DirectiveData_T* directive_data(const Directive_T* directive, Token_T* name_toke
 
 static DirectiveData_T* parse_directive(Parser_T* p);
 
+// adds an object to the others; a namespace that is already there is extended
+static void add_obj(List_T* objects, ASTObj_T* obj)
+{
+    if(obj->kind == OBJ_NAMESPACE)
+        for(size_t i = 0; i < objects->size; i++)
+        {
+            ASTObj_T* namespace = objects->items[i];
+            if(namespace->kind != OBJ_NAMESPACE || strcmp(namespace->id->callee, obj->id->callee) != 0)
+                continue;
+
+            for(size_t j = 0; j < obj->objs->size; j++)
+            {
+                ASTObj_T* member = obj->objs->items[j];
+                member->id->outer = namespace->id;
+                add_obj(namespace->objs, member);
+            }
+            return;
+        }
+
+    list_push(objects, obj);
+}
+
+static bool is_condition(const Directive_T* directive)
+{
+    return directive->eval == eval_cfg || directive->eval == eval_env_defined || directive->eval == eval_env_eq || directive->eval == eval_env_ne;
+}
+
 void parse_directives(Parser_T* p, List_T* objects, bool in_extern_block, bool is_extern_c)
 {
-    parser_consume(p, TOKEN_LBRACKET, "expect `[` for compiler directive");
     List_T* directives = init_list();
     const char* libs_following = NULL;
 
+    // `[a] [b] object` is the same as `[a, b] object`
     do {
-        DirectiveData_T* data = parse_directive(p);
-        list_push(directives, data);
+        parser_consume(p, TOKEN_LBRACKET, "expect `[` for compiler directive");
+
+        do {
+            DirectiveData_T* data = parse_directive(p);
+            list_push(directives, data);
 
-        if(data->directive->following_obj && !libs_following)
-            libs_following = data->directive->name;
+            if(data->directive->following_obj && !libs_following)
+                libs_following = data->directive->name;
 
-        if(!tok_is(p, TOKEN_RBRACKET))
-            parser_consume(p, TOKEN_COMMA, "expect `,` between compiler directives");
-    } while(!tok_is(p, TOKEN_RBRACKET) && !tok_is(p, TOKEN_EOF));
+            if(!tok_is(p, TOKEN_RBRACKET))
+                parser_consume(p, TOKEN_COMMA, "expect `,` between compiler directives");
+        } while(!tok_is(p, TOKEN_RBRACKET) && !tok_is(p, TOKEN_EOF));
 
-    parser_consume(p, TOKEN_RBRACKET, "expect `]` after compiler directive");
+        parser_consume(p, TOKEN_RBRACKET, "expect `]` after compiler directive");
+    } while(libs_following && tok_is(p, TOKEN_LBRACKET));
 
     ASTObj_T* obj = NULL;
-    if(!libs_following)
-        goto eval;
+    List_T* parsed = init_list();
+    bool remove_obj = false;
 
-    size_t old_obj_list_size = objects->size;
-    if(in_extern_block)
-        list_push(objects, parse_extern_def(p, is_extern_c));  
-    else
-        parse_obj(p, objects);
-    if(objects->size == old_obj_list_size)
-        throw_error(parser_context(p), ERR_UNDEFINED, parser_peek(p, 0), "directive `%s` requires an object [const, fn, type, namespace] after `]`");
+    if(libs_following)
+    {
+        if(in_extern_block)
+            list_push(parsed, parse_extern_def(p, is_extern_c));  
+        else
+            parse_obj(p, parsed);
+        if(parsed->size == 0)
+            throw_error(parser_context(p), ERR_UNDEFINED, parser_peek(p, 0), "directive `%s` requires an object [const, fn, type, namespace] after `]`", libs_following);
 
-    obj = objects->items[objects->size - 1];
+        obj = parsed->items[parsed->size - 1];
+    }
 
     for(size_t i = 0; i < directives->size; i++)
     {
         DirectiveData_T* data = directives->items[i];
         ASTObjKind_T expected = data->directive->following_obj;
-        if(expected != 0 && !(expected & obj->kind))
+        if(obj && expected != 0 && !(expected & obj->kind))
             throw_error(parser_context(p), ERR_MISC, data->name_token, "directive `%s` expects %s after `]`, got %s", data->directive->name, obj_kind_to_str(data->directive->following_obj), obj_kind_to_str(obj->kind));
+
+        if(is_condition(data->directive) && data->directive->eval(data, parser_context(p), parser_ast(p), obj))
+            remove_obj = true;
     }
 
-eval:
-    ;
-    bool remove_obj = false;
     for(size_t i = 0; i < directives->size; i++)
     {
         DirectiveData_T* data = directives->items[i];
-        if(data->directive->eval(data, parser_context(p), parser_ast(p), obj))
-            remove_obj = true;
+        if(is_condition(data->directive))
+            continue;
+
+        // nothing is to be done for an object that is not there
+        if(!remove_obj || !data->directive->following_obj)
+            data->directive->eval(data, parser_context(p), parser_ast(p), obj);
     }
 
-    if(remove_obj && obj)
-        list_pop(objects);
+    for(size_t i = 0; i < parsed->size && !remove_obj; i++)
+        add_obj(objects, parsed->items[i]);
 
     for(size_t i = 0; i < directives->size; i++)
     {
@@ -266,6 +303,7 @@ eval:
         free(directives->items[i]);
     }
     free_list(directives);
+    free_list(parsed);
 }
 
 DirectiveData_T* parse_directive(Parser_T* p)
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 4d913eb..c90ecf6 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -946,7 +946,12 @@ ASTObj_T* parse_extern_def(Parser_T *p, bool is_extern_c)
             List_T* dummy = init_list();
             parse_directives(p, dummy, true, is_extern_c);
 
-            if(dummy->size)
+            if(!dummy->size) // a condition that does not hold
+            {
+                free_list(dummy);
+                return NULL;
+            }
+            else
             {
                 ASTObj_T* obj = dummy->items[0];
                 if(obj->kind == OBJ_FUNCTION || obj->kind == OBJ_GLOBAL)
@@ -982,14 +987,18 @@ static void parse_extern(Parser_T* p, List_T* objs)
         parser_advance(p);
         while(!tok_is(p, TOKEN_RBRACE) && !tok_is(p, TOKEN_EOF))
         {
-            list_push(objs, parse_extern_def(p, extern_c));  
+            ASTObj_T* obj = parse_extern_def(p, extern_c);
+            if(obj)
+                list_push(objs, obj);
         }
 
         parser_consume(p, TOKEN_RBRACE, "expect `}` after extern function/variable definitions");
         return;
     }
 
-    list_push(objs, parse_extern_def(p, extern_c));    
+    ASTObj_T* obj = parse_extern_def(p, extern_c);
+    if(obj)
+        list_push(objs, obj);
 }
 
 List_T* parse_argument_list(Parser_T* p, TokenType_T end_tok, ASTIdentifier_T** variadic_id)
-- 
2.43.0


From 4bd59b713f4035acf661510c8c4fbd5dc677be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:18 +0000
Subject: [PATCH 110/122] fix: the stack is aligned in main(argv) and in
 functions that run after main; one of them crashed the compiler

---
 src/compiler/codegen/asm/asm_codegen.c | 7 +++++--
 src/compiler/parser/validator.c        | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 9914b52..961fdfa 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -37,6 +37,7 @@ static const char* asm_main_call[] =
         "  xorl %ebp, %ebp\n"
         "  popq %rdi\n"
         "  movq %rsp, %rdi\n"
+        "  andq $~15, %rsp\n"
         "  call .main\n",
 
     [MFK_ARGC_ARGV_PTR] =
@@ -408,7 +409,9 @@ static void asm_gen_entry_point(ASMCodegenData_T* cg)
 
     if(cg->ast->after_main && cg->ast->after_main->size)
     {
-        asm_push(cg);
+        // keep the exit code, and the stack aligned
+        asm_println(cg, "  subq $16, %%rsp");
+        asm_println(cg, "  movq %%rax, (%%rsp)");
         for(size_t i = 0; i < cg->ast->after_main->size; i++)
         {
             const ASTObj_T* fn = cg->ast->after_main->items[i];
@@ -418,7 +421,7 @@ static void asm_gen_entry_point(ASMCodegenData_T* cg)
                 asm_println(cg, "  movq (%%rsp), %s", argreg64[0]);
             asm_println(cg, "  call %s", id);
         }
-        asm_pop(cg, "%rdi");
+        asm_println(cg, "  movq (%%rsp), %%rdi");
     }
     else
         asm_println(cg, "  movq %rax, %rdi");
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index c7309a9..97c657f 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -726,7 +726,7 @@ static void validate_after_main_fn(Validator_T* v, ASTObj_T* fn)
     if(!v->ast->after_main)
     {
         v->ast->after_main = init_list();
-        CONTEXT_ALLOC_REGISTER(v->context, v->ast->before_main);
+        CONTEXT_ALLOC_REGISTER(v->context, v->ast->after_main);
     }
 
     list_push(v->ast->after_main, fn);
-- 
2.43.0


From 86274c2c4ad013413212e30a6ccb06f757c9a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:49 +0000
Subject: [PATCH 111/122] fix: a directive that does not fit its object is
 reported and not applied; [flag] on a namespace crashed the compiler

---
 src/compiler/parser/directives.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index aba62ec..5ac3316 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -277,7 +277,10 @@ void parse_directives(Parser_T* p, List_T* objects, bool in_extern_block, bool i
         DirectiveData_T* data = directives->items[i];
         ASTObjKind_T expected = data->directive->following_obj;
         if(obj && expected != 0 && !(expected & obj->kind))
+        {
             throw_error(parser_context(p), ERR_MISC, data->name_token, "directive `%s` expects %s after `]`, got %s", data->directive->name, obj_kind_to_str(data->directive->following_obj), obj_kind_to_str(obj->kind));
+            remove_obj = true;
+        }
 
         if(is_condition(data->directive) && data->directive->eval(data, parser_context(p), parser_ast(p), obj))
             remove_obj = true;
-- 
2.43.0


From 7cd660305d2f35e6b3a56f7e249fad832fbf056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:54 +0000
Subject: [PATCH 112/122] fix: a copy of an interface value is assigned,
 returned and cast like any other value

---
 src/compiler/parser/typechecker.c | 2 +-
 src/compiler/parser/validator.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 627c981..e5d603d 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -693,7 +693,7 @@ ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType
         return CAST_OK;
     if(from->kind == TY_PTR && unpack(from->base)->kind == TY_ARRAY && to->kind == TY_VLA)
         return types_equal(t->context, unpack(from->base)->base, to->base) ? CAST_OK : CAST_ERR;
-    if(from->kind == TY_STRUCT && to->kind == TY_STRUCT)
+    if((from->kind == TY_STRUCT && to->kind == TY_STRUCT) || (from->kind == TY_DYN && to->kind == TY_DYN))
         return types_equal(t->context, from, to) ? CAST_OK : CAST_ERR;
     return CAST_ERR;
 }
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 97c657f..1121584 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1288,7 +1288,7 @@ static void iter_validate_call(ASTNode_T* call, va_list args)
     }
 
     // if we compile using the assembly compiler, a buffer for the return value is needed when handling big structs
-    if(v->context->ct == CT_ASM && call->data_type && unpack(call->data_type)->kind == TY_STRUCT)
+    if(v->context->ct == CT_ASM && call->data_type && (unpack(call->data_type)->kind == TY_STRUCT || unpack(call->data_type)->kind == TY_DYN))
     {
         ASTObj_T* ret_buf = init_ast_obj(&v->context->raw_allocator, OBJ_LOCAL, call->tok);
         ret_buf->data_type = call->data_type;
-- 
2.43.0


From 1acff9613a340629e7d10503591a2d459d7420fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:54 +0000
Subject: [PATCH 113/122] fix: store interface values whole and pass their
 data, not their own address, to methods (assembly)

---
 src/compiler/codegen/asm/asm_codegen.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 961fdfa..66f241d 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1083,7 +1083,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
             return;
         case ND_TERNARY:
         case ND_ELSE_EXPR:
-            if(unpack(node->data_type)->kind == TY_STRUCT)
+            if(unpack(node->data_type)->kind == TY_STRUCT || unpack(node->data_type)->kind == TY_DYN)
             {
                 asm_gen_expr(cg, node);
                 return;
@@ -1092,6 +1092,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
         case ND_LAMBDA:
         case ND_ARRAY:
         case ND_STRUCT:
+        case ND_DYNCAST:
             asm_gen_expr(cg, node);
             return;
         case ND_CAST:
@@ -1338,6 +1339,7 @@ static void asm_store(ASMCodegenData_T* cg, ASTType_T *ty) {
 
     switch (ty->kind) {
         case TY_STRUCT:
+        case TY_DYN:
         case TY_ARRAY:
         case TY_C_ARRAY:
             for(i32 i = 0; i < ty->size; i++) {
@@ -2190,8 +2192,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         } return;
 
         case ND_DYNUNCAST:
+            // load the data pointer
             asm_gen_addr(cg, node->left);
-            //asm_println(cg, "  add $%ld, %%rax", PTR_S);
+            asm_println(cg, "  mov (%%rax), %%rax");
             return;
 
         case ND_NOT:
-- 
2.43.0


From a7936c0261caaefc690ee31242118a1121b4c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:14 +0000
Subject: [PATCH 114/122] fix: floating-point literals keep their value in
 generated C code

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 39e3af8..952dbc1 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1324,10 +1324,10 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
     switch(node->kind)
     {
         case ND_FLOAT:
-            c_print(cg, "%ff", node->float_val);
+            c_print(cg, "%af", node->float_val);
             break;
         case ND_DOUBLE:
-            c_print(cg, "%f", node->double_val);
+            c_print(cg, "%a", node->double_val);
             break;
         case ND_INT:
             c_print(cg, "%d", node->int_val);
-- 
2.43.0


From 4d3411836689f9d3c0b3b5e61ce8e46e746bbe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:50 +0000
Subject: [PATCH 115/122] fix: match, range, for and with statements and else
 expressions in generated C code

---
 src/compiler/codegen/transpiler/c_codegen.c | 65 +++++++++++----------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 952dbc1..0f6001b 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1610,6 +1610,13 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_gen_expr(cg, node->else_branch, true);
             c_putc(cg, ')');
             break;
+        case ND_ELSE_EXPR:
+            c_putc(cg, '(');
+            c_gen_expr(cg, node->left, true);
+            c_print(cg, "?:");
+            c_gen_expr(cg, node->right, true);
+            c_putc(cg, ')');
+            break;
         case ND_PIPE:
             c_print(cg, "(" UNIQUE_ID_FMT "=(", node->long_val);
             c_gen_expr(cg, node->left, true);
@@ -1819,26 +1826,14 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         break;
     
     case ND_FOR:    
-        if(node->locals->size > 0)
-        {
-            c_println(cg, "{");
-            for(size_t i = 0; i < node->locals->size; i++)
-            {
-                ASTObj_T* var = node->locals->items[i];
-                c_gen_typed_name(cg, var->id, var->data_type);
-                c_println(cg, ";");
-            }
-        }
+        c_println(cg, "{");
+        for(size_t i = 0; i < node->locals->size; i++)
+            c_gen_local(cg, node->locals->items[i]);
 
-        c_print(cg, "for(");
-        
         if(node->init_stmt)
-        {
             c_gen_stmt(cg, node->init_stmt);
-            c_print(cg, "    ");
-        }
-        else
-            c_putc(cg, ';');
+
+        c_print(cg, "for(;");
 
         if(node->condition)
             c_gen_expr(cg, node->condition, true);
@@ -1848,49 +1843,52 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
             c_gen_expr(cg, node->expr, true);
         c_println(cg, "){");
         c_gen_stmt(cg, node->body);
-        c_println(cg, "}");
-
-        if(node->locals->size > 0)
-            c_println(cg, "}");
+        c_println(cg, "}}");
         break;
 
     case ND_FOR_RANGE:
     {
         u64 low_id = cg->unique_id++, high_id = cg->unique_id++;
-        c_print(cg, "for(%s " UNIQUE_ID_FMT " = ", c_primitive_types[TY_U64], low_id);
+        c_print(cg, "for(%s " UNIQUE_ID_FMT " = (", c_primitive_types[TY_I64], low_id);
         c_gen_expr(cg, node->left, true);
-        c_print(cg, ", " UNIQUE_ID_FMT " = (%s)", high_id, c_primitive_types[TY_U64]);
+        c_print(cg, "), " UNIQUE_ID_FMT " = (", high_id);
         c_gen_expr(cg, node->right, true);
-        c_println(cg, "; " UNIQUE_ID_FMT " < " UNIQUE_ID_FMT "; " UNIQUE_ID_FMT "++){", low_id, high_id, low_id);
+        c_println(cg, "); " UNIQUE_ID_FMT " < " UNIQUE_ID_FMT "; " UNIQUE_ID_FMT "++){", low_id, high_id, low_id);
         c_gen_stmt(cg, node->body);
         c_println(cg, "}");
     } break;
 
     case ND_MATCH:
     {
-        u64 uid = cg->unique_id;
-        c_print(cg, "{\n%s " UNIQUE_ID_FMT " =", c_primitive_types[TY_U64], uid);
+        // `break` leaves the match, `continue` belongs to the loop around it
+        ASTType_T* type = node->condition->data_type;
+        bool is_unsigned = unsigned_type(type) || unpack(type)->kind == TY_PTR;
+        const char* type_name = c_primitive_types[unpack(type)->size == 8 ? (is_unsigned ? TY_U64 : TY_I64) : (is_unsigned ? TY_U32 : TY_I32)];
+        u64 uid = cg->unique_id++;
+        c_print(cg, "{\n%s " UNIQUE_ID_FMT " = (%s)(", type_name, uid, type_name);
         c_gen_expr(cg, node->condition, true);
-        c_println(cg, ";");
+        c_println(cg, ");\nswitch(0){default:");
         
         for(size_t i = 0; i < node->cases->size; i++)
         {
             ASTNode_T* _case = node->cases->items[i];
-            c_print(cg, "%sif((", i == 0 ? "" : "else ");
+            c_print(cg, "%sif(" UNIQUE_ID_FMT " %s (%s)(", i == 0 ? "" : "else ", uid, cmp_mode[_case->mode], type_name);
             c_gen_expr(cg, _case->condition, true);
-            c_println(cg, ") %s " UNIQUE_ID_FMT "){", cmp_mode[_case->mode], uid);
+            c_println(cg, ")){");
             c_gen_stmt(cg, _case->body);
             c_println(cg, "}");
         }
 
         if(node->default_case)
         {
-            c_println(cg, "else{");
+            c_println(cg, node->cases->size ? "else{" : "{");
             c_gen_stmt(cg, node->default_case->body);
             c_putc(cg, '}');
         }
+        else if(node->cases->size == 0)
+            c_putc(cg, ';');
 
-        c_println(cg, "}");
+        c_println(cg, "}}");
     } break;
 
     case ND_WITH:
@@ -1905,7 +1903,10 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         c_gen_expr(cg, node->condition->left, true);
         c_println(cg, ") != 0){");
         c_gen_stmt(cg, node->if_branch);
-        
+        c_print(cg, "%s(", node->exit_fn->is_extern ? EITHER(node->exit_fn->exported, node->exit_fn->id->callee) : c_gen_identifier(cg->context, node->exit_fn->id));
+        c_gen_expr(cg, node->condition->left, true);
+        c_println(cg, ");");
+
         if(node->else_branch)
         {
             c_println(cg, "} else {");
-- 
2.43.0


From 2efe65238b6ef601a87a6a3acbe51ca9f19e1d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:05 +0000
Subject: [PATCH 116/122] fix: types of pointers to arrays and functions in
 generated C code

---
 src/compiler/codegen/transpiler/c_codegen.c | 121 ++++++++++++--------
 1 file changed, 71 insertions(+), 50 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 0f6001b..c7ed8fe 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -715,11 +715,11 @@ static void c_gen_array_typedef(ASTType_T* type, va_list custom_args)
     c_println(cg, "typedef struct {");
     c_println(cg, "  uint64_t __s;");
     c_print(cg, "  ");
-    c_gen_typed_name_str(cg, "__v", type->base);
-    if(type->kind == TY_VLA)
-        c_println(cg, "[];\n} _array_%" PRIx64 ";", array_uid);
-    else
-        c_println(cg, "[%lu];\n} _array_%" PRIx64 ";", type->num_indices, array_uid);
+    char name[32] = "__v[]";
+    if(type->kind != TY_VLA)
+        snprintf(name, sizeof(name), "__v[%lu]", type->num_indices);
+    c_gen_typed_name_str(cg, name, type->base);
+    c_println(cg, ";\n} _array_%" PRIx64 ";", array_uid);
 
     array_uid++;
 }
@@ -763,7 +763,13 @@ static void c_gen_array_types(CCodegenData_T* cg)
     ast_iterate(&iter, cg->ast, cg);
 }
 
-static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
+static bool c_is_declarator(ASTType_T* type)
+{
+    return type->kind == TY_C_ARRAY || (type->kind == TY_FN && type->is_constant);
+}
+
+// the part of a type written before the name
+static void c_gen_type_prefix(CCodegenData_T* cg, ASTType_T* type)
 {
     //if(type->is_constant && type->kind != TY_FN)
     //    c_print(cg, "const ");
@@ -777,8 +783,8 @@ static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
     switch(type->kind)
     {
     case TY_PTR:
-        c_gen_type(cg, type->base, c_arr_as_ptr);
-        c_putc(cg, '*');
+        c_gen_type_prefix(cg, type->base);
+        c_print(cg, c_is_declarator(type->base) ? "(*" : "*");
         break;
     case TY_VLA:
     {
@@ -793,24 +799,13 @@ static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
         c_print(cg, "_array_%" PRIx64, (u64) hashmap_get(cg->arrays, buffer));
     } break;
     case TY_C_ARRAY:
-        c_gen_type(cg, type->base, c_arr_as_ptr);
-        if(c_arr_as_ptr)
-            c_print(cg, "*");
-        else
-            c_print(cg, "[%ld]", type->num_indices);
+        c_gen_type_prefix(cg, type->base);
         break;
     case TY_FN:
         if(type->is_constant)
         {
-            c_gen_type(cg, type->base, false);
-            c_print(cg, "(*)(");
-            for(size_t i = 0; i < type->arg_types->size; i++)
-            {
-                c_gen_type(cg, type->arg_types->items[i], false);
-                if(type->arg_types->size - i > 1)
-                    c_putc(cg, ',');
-            }
-            c_print(cg, ")");
+            c_gen_type_prefix(cg, type->base);
+            c_print(cg, "(*");
         }
         else
             c_print(cg, "struct _lambda*");
@@ -836,39 +831,62 @@ static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
     }
 }
 
-static void c_gen_typed_name_str(CCodegenData_T* cg, const char* id, ASTType_T* type)
+// the part of a type written after the name
+static void c_gen_type_suffix(CCodegenData_T* cg, ASTType_T* type)
 {
+    if(type->is_primitive && type->kind != TY_FN)
+        return;
+
     switch(type->kind)
     {
-        case TY_C_ARRAY:
-            c_gen_type(cg, type->base, false);
-            c_putc(cg, ' ');
-            c_print(cg, "%s", id);
-            c_print(cg, "[%lu]", type->num_indices);
-            break;
-        case TY_FN:
-            if(type->is_constant)
-            {
-                c_gen_type(cg, type->base, false);
-                c_print(cg, "(*%s)(", id);
-                for(size_t i = 0; i < type->arg_types->size; i++)
-                {
-                    c_gen_type(cg, type->arg_types->items[i], false);
-                    if(type->arg_types->size - i > 1)
-                        c_putc(cg, ',');
-                }
-                c_putc(cg, ')');
-                break;
-            }
-            // fall through
-        default:
-            c_gen_type(cg, type, false);
-            c_putc(cg, ' ');
-            c_print(cg, "%s", id);
+    case TY_PTR:
+        if(c_is_declarator(type->base))
+            c_putc(cg, ')');
+        c_gen_type_suffix(cg, type->base);
+        break;
+    case TY_C_ARRAY:
+        c_print(cg, "[%lu]", type->num_indices);
+        c_gen_type_suffix(cg, type->base);
+        break;
+    case TY_FN:
+        if(!type->is_constant)
             break;
+        c_print(cg, ")(");
+        for(size_t i = 0; i < type->arg_types->size; i++)
+        {
+            c_gen_type(cg, type->arg_types->items[i], false);
+            if(type->arg_types->size - i > 1)
+                c_putc(cg, ',');
+        }
+        c_putc(cg, ')');
+        c_gen_type_suffix(cg, type->base);
+        break;
+    default:
+        break;
     }
 }
 
+static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
+{
+    if(type->kind == TY_C_ARRAY && c_arr_as_ptr)
+    {
+        c_gen_type_prefix(cg, type->base);
+        c_print(cg, c_is_declarator(type->base) ? "(*)" : "*");
+        c_gen_type_suffix(cg, type->base);
+        return;
+    }
+
+    c_gen_type_prefix(cg, type);
+    c_gen_type_suffix(cg, type);
+}
+
+static void c_gen_typed_name_str(CCodegenData_T* cg, const char* id, ASTType_T* type)
+{
+    c_gen_type_prefix(cg, type);
+    c_print(cg, " %s", id);
+    c_gen_type_suffix(cg, type);
+}
+
 static inline void c_gen_typed_name(CCodegenData_T* cg, ASTIdentifier_T* id, ASTType_T* type)
 {
     c_gen_typed_name_str(cg, c_gen_identifier(cg->context, id), type);
@@ -948,7 +966,7 @@ static void c_gen_function_declaration(CCodegenData_T* cg, ASTObj_T* obj)
             c_gen_type(cg, obj->return_type, false);
     }
     else
-        c_gen_type(cg, obj->return_type, false);
+        c_gen_type_prefix(cg, obj->return_type);
     c_print(cg, " %s(", obj->is_extern ? EITHER(obj->exported, obj->id->callee) : c_gen_identifier(cg->context, obj->id));
     
     for(size_t i = 0; i < obj->args->size; i++)
@@ -963,6 +981,9 @@ static void c_gen_function_declaration(CCodegenData_T* cg, ASTObj_T* obj)
         c_print(cg, ",...)");
     else
         c_print(cg, ")");
+
+    // the rest of a result type like a pointer to a function
+    c_gen_type_suffix(cg, obj->return_type);
 }
 
 static void c_gen_function_definitions(CCodegenData_T* cg, List_T* objs)
@@ -1541,7 +1562,7 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             for(size_t i = 0; i < node->args->size; i++)
             {
                 ASTNode_T* arg = node->args->items[i];
-                ASTType_T* arg_type = call_type->arg_types->items[i];
+                ASTType_T* arg_type = i < call_type->arg_types->size ? call_type->arg_types->items[i] : NULL;
                 if(arg->unpack_mode) {
                     c_gen_unpack_arg(cg, arg);
                     if(node->args->size - i > 1)
-- 
2.43.0


From 73abb786658f1934645c0525cbf68bdd5d9bbf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:00 +0000
Subject: [PATCH 117/122] fix: an assigning operator evaluates its target once
 in generated C code

---
 src/compiler/codegen/transpiler/c_codegen.c | 59 +++++++++++++++++++++
 src/compiler/codegen/transpiler/c_codegen.h |  3 ++
 2 files changed, 62 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index c7ed8fe..61e9eaf 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1339,9 +1339,63 @@ static ssize_t get_vtable_index(CCodegenData_T* cg, ASTType_T* interface, const
     return -1;
 }
 
+static bool c_is_op_assignment(ASTNode_T* node)
+{
+    if(node->kind != ND_ASSIGN || node->left->kind == ND_ID)
+        return false;
+
+    switch(node->right->kind)
+    {
+        case ND_ADD:
+        case ND_SUB:
+        case ND_MUL:
+        case ND_DIV:
+        case ND_MOD:
+        case ND_LSHIFT:
+        case ND_RSHIFT:
+        case ND_XOR:
+        case ND_BIT_OR:
+        case ND_BIT_AND:
+            return node->right->left == node->left;
+        default:
+            return false;
+    }
+}
+
+// `x op= y` evaluates its target only once
+static void c_gen_op_assignment(CCodegenData_T* cg, ASTNode_T* node)
+{
+    ASTNode_T* outer_target = cg->assign_target;
+    u64 outer_id = cg->assign_id;
+    u64 id = cg->unique_id++;
+    char name[BUFSIZ];
+
+    sprintf(name, "*__target_%lx", id);
+    c_print(cg, "({");
+    c_gen_typed_name_str(cg, name, node->left->data_type);
+    c_print(cg, " = &(");
+    c_gen_expr(cg, node->left, true);
+    c_print(cg, "); *__target_%lx = ", id);
+
+    cg->assign_target = node->left;
+    cg->assign_id = id;
+    c_gen_expr(cg, node->right, true);
+    cg->assign_target = outer_target;
+    cg->assign_id = outer_id;
+
+    c_print(cg, ";})");
+}
+
 static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
 {
     bool cast_to_int = false;
+
+    if(cg->assign_target && node == cg->assign_target)
+    {
+        c_print(cg, "(*__target_%lx)", cg->assign_id);
+        return;
+    }
+
     switch(node->kind)
     {
         case ND_FLOAT:
@@ -1447,6 +1501,11 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             cast_to_int = is_pointer(unpack(node->left->data_type)) || is_pointer(unpack(node->right->data_type)) ;
             // fall through
         case ND_ASSIGN:
+            if(c_is_op_assignment(node))
+            {
+                c_gen_op_assignment(cg, node);
+                break;
+            }
             c_putc(cg, '(');
             if(cast_to_int)
             {
diff --git a/src/compiler/codegen/transpiler/c_codegen.h b/src/compiler/codegen/transpiler/c_codegen.h
index 09cdb97..e88fb90 100644
--- a/src/compiler/codegen/transpiler/c_codegen.h
+++ b/src/compiler/codegen/transpiler/c_codegen.h
@@ -18,6 +18,9 @@ typedef struct C_CODEGEN_DATA_STRUCT
     bool print;
     bool silent;
     u64 unique_id;
+
+    ASTNode_T* assign_target;
+    u64 assign_id;
     
     HashMap_T* arrays;
     HashMap_T* anon_structs;
-- 
2.43.0


From 32314ee3808392e49855bf2af52cda45eb02c3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 118/122] fix: infinite and NaN floating-point literals in
 generated C code

---
 src/compiler/codegen/transpiler/c_codegen.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 61e9eaf..976cdcb 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -3,6 +3,7 @@
 #include <ctype.h>
 #include <stddef.h>
 #include <stdio.h>
+#include <math.h>
 #include <string.h>
 #include <stdarg.h>
 #include <inttypes.h>
@@ -1399,10 +1400,16 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
     switch(node->kind)
     {
         case ND_FLOAT:
-            c_print(cg, "%af", node->float_val);
+            if(isnan(node->float_val) || isinf(node->float_val))
+                c_print(cg, "(%s%s)", signbit(node->float_val) ? "-" : "", isnan(node->float_val) ? "__builtin_nanf(\"\")" : "__builtin_inff()");
+            else
+                c_print(cg, "%af", node->float_val);
             break;
         case ND_DOUBLE:
-            c_print(cg, "%a", node->double_val);
+            if(isnan(node->double_val) || isinf(node->double_val))
+                c_print(cg, "(%s%s)", signbit(node->double_val) ? "-" : "", isnan(node->double_val) ? "__builtin_nan(\"\")" : "__builtin_inf()");
+            else
+                c_print(cg, "%a", node->double_val);
             break;
         case ND_INT:
             c_print(cg, "%d", node->int_val);
-- 
2.43.0


From a8244d0e62d28c565d32d4f3df78df05aad835a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:56 +0000
Subject: [PATCH 119/122] fix: a local variable hiding a global name in
 generated C code

---
 src/compiler/codegen/transpiler/c_codegen.c | 72 +++++++++++++++++----
 src/compiler/codegen/transpiler/c_codegen.h |  1 +
 2 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 976cdcb..3ca98f6 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -28,6 +28,7 @@
 #include "ast/vtable.h"
 
 #define ID_PREFIX  "__csp_"
+#define LOCAL_PREFIX "__loc"
 #define MAIN_FN_ID ID_PREFIX "main"
 #define UNIQUE_ID_FMT "_unique_id_%04" PRIx64
 
@@ -35,6 +36,7 @@
 
 #define GET_CG(args) CCodegenData_T* cg = va_arg(args, CCodegenData_T*)
 
+static void c_collect_global_names(CCodegenData_T* cg, List_T* objs);
 static void c_gen_entry_point(CCodegenData_T* cg);
 static void c_gen_typedefs(CCodegenData_T* cg, List_T* objs);
 static void c_gen_structs(CCodegenData_T* cg, List_T* objs);
@@ -233,6 +235,7 @@ void init_c_cg(CCodegenData_T* cg, Context_T* context, ASTProg_T* ast)
     cg->blocks = init_list();
     cg->arrays = hashmap_init();
     cg->anon_structs = hashmap_init();
+    cg->global_names = hashmap_init();
 }
 
 void free_c_cg(CCodegenData_T* cg)
@@ -247,6 +250,7 @@ void free_c_cg(CCodegenData_T* cg)
 
     hashmap_free(cg->arrays);
     hashmap_free(cg->anon_structs);
+    hashmap_free(cg->global_names);
 }
 
 #ifdef __GNUC__
@@ -335,6 +339,8 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
         LOG_OK_F(COLOR_BOLD_BLUE "  Generating" COLOR_BOLD_WHITE " C99" COLOR_RESET " for " COLOR_BOLD_WHITE "%s\n" COLOR_RESET, platform);
     }
 
+    c_collect_global_names(cg, cg->ast->objs);
+
     // generate the c code
     c_print(cg, "%s", c_header_text);
     c_gen_typedefs(cg, cg->ast->objs);
@@ -481,6 +487,37 @@ static char* c_gen_identifier(Context_T* context, ASTIdentifier_T* id)
     return str;
 }
 
+static void c_collect_global_names(CCodegenData_T* cg, List_T* objs)
+{
+    for(size_t i = 0; i < objs->size; i++)
+    {
+        ASTObj_T* obj = objs->items[i];
+        if(!obj->id || obj->is_extern)
+            continue;
+
+        hashmap_put(cg->global_names, c_gen_identifier(cg->context, obj->id), obj);
+
+        if(obj->kind == OBJ_NAMESPACE)
+            c_collect_global_names(cg, obj->objs);
+        else if(obj->kind == OBJ_TYPEDEF && obj->data_type->kind == TY_ENUM)
+            c_collect_global_names(cg, obj->data_type->members);
+    }
+}
+
+// local variables must not hide the global objects used in their scope
+static char* c_gen_local_identifier(CCodegenData_T* cg, ASTIdentifier_T* id)
+{
+    char* str = c_gen_identifier(cg->context, id);
+    if(!hashmap_get(cg->global_names, str))
+        return str;
+
+    char* local = malloc((strlen(LOCAL_PREFIX) + strlen(str) + 1) * sizeof(char));
+    strcpy(local, LOCAL_PREFIX);
+    strcat(local, str);
+    CONTEXT_ALLOC_REGISTER(cg->context, (void*) local);
+    return local;
+}
+
 static void c_gen_entry_point(CCodegenData_T* cg)
 {
     if(!cg->ast->entry_point)
@@ -973,7 +1010,7 @@ static void c_gen_function_declaration(CCodegenData_T* cg, ASTObj_T* obj)
     for(size_t i = 0; i < obj->args->size; i++)
     {
         ASTObj_T* arg = obj->args->items[i];
-        c_gen_typed_name(cg, arg->id, arg->data_type);
+        c_gen_typed_name_str(cg, c_gen_local_identifier(cg, arg->id), arg->data_type);
         if(obj->args->size - i > 1)
             c_putc(cg, ',');
     }
@@ -1025,7 +1062,7 @@ static void c_gen_lambda(ASTNode_T* node, va_list custom_args)
         for(size_t i = 0; i < node->args->size; i++)
         {
             ASTObj_T* arg = node->args->items[i];
-            c_gen_typed_name(cg, arg->id, arg->data_type);
+            c_gen_typed_name_str(cg, c_gen_local_identifier(cg, arg->id), arg->data_type);
             if(node->args->size - i > 1)
                 c_putc(cg, ',');
         }
@@ -1040,7 +1077,7 @@ static void c_gen_lambda(ASTNode_T* node, va_list custom_args)
         for(size_t j = 0; j < block->locals->size; j++)
         {
             ASTObj_T* local = block->locals->items[j];
-            c_gen_typed_name(cg, local->id, local->data_type);
+            c_gen_typed_name_str(cg, c_gen_local_identifier(cg, local->id), local->data_type);
             c_print(cg, "=*((");
             c_gen_type(cg, local->data_type, true);
             c_println(cg, "*)__args[%lu]);", index++);
@@ -1059,7 +1096,7 @@ static void c_gen_lambda(ASTNode_T* node, va_list custom_args)
             ASTObj_T* local = block->locals->items[j];
             c_print(cg, "(*((");
             c_gen_type(cg, local->data_type, true);
-            c_println(cg, "*)__args[%lu]))=%s;", index++, c_gen_identifier(cg->context, local->id));
+            c_println(cg, "*)__args[%lu]))=%s;", index++, c_gen_local_identifier(cg, local->id));
         }
     }
 
@@ -1100,13 +1137,13 @@ static void c_gen_function(CCodegenData_T* cg, ASTObj_T* fn)
 
     if(fn->va_area)
     {
-        char* ap_id = c_gen_identifier(cg->context, fn->va_area->id);
+        char* ap_id = c_gen_local_identifier(cg, fn->va_area->id);
 
         if(fn->args->size == 0)
             throw_error(cg->context, ERR_CODEGEN, fn->va_area->tok, "cannot have variadic function without at least one argument");
         
         ASTObj_T* last_arg = fn->args->items[fn->args->size - 1];
-        char* param_id = c_gen_identifier(cg->context, last_arg->id);
+        char* param_id = c_gen_local_identifier(cg, last_arg->id);
 
         c_println(cg, "va_list %s;\nva_start(%s, %s);", ap_id, ap_id, param_id);
 
@@ -1179,6 +1216,17 @@ static char* c_detect_registers(CCodegenData_T* cg, const char* str, bool used_r
     return copy;
 }
 
+static const char* c_gen_variable(CCodegenData_T* cg, ASTNode_T* node)
+{
+    ASTObj_T* obj = node->referenced_obj;
+
+    if(obj && obj->is_extern)
+        return EITHER(obj->exported, node->id->callee);
+    if(obj && (obj->kind == OBJ_LOCAL || obj->kind == OBJ_FN_ARG))
+        return c_gen_local_identifier(cg, node->id);
+    return c_gen_identifier(cg->context, node->id);
+}
+
 static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
 {
     c_print(cg, "__asm__ volatile(\n  ");
@@ -1242,7 +1290,7 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
         ASTNode_T* arg = node->args->items[i];
         if(arg->kind != ND_ID || !arg->output)
             continue;
-        c_print(cg, "\"=r\"(%s)%c", c_gen_identifier(cg->context, arg->id), --num_output_vars ? ',' : '\n');
+        c_print(cg, "\"=r\"(%s)%c", c_gen_variable(cg, arg), --num_output_vars ? ',' : '\n');
     }
 
     c_putc(cg, ':');
@@ -1251,7 +1299,7 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
         ASTNode_T* arg = node->args->items[i];
         if(arg->kind != ND_ID || arg->output)
             continue;
-        c_print(cg, "\"r\"((uint64_t)%s)%c", c_gen_identifier(cg->context, arg->id), --num_input_vars ? ',' : '\n');
+        c_print(cg, "\"r\"((uint64_t)%s)%c", c_gen_variable(cg, arg), --num_input_vars ? ',' : '\n');
     }
 
     c_print(cg, "  :");
@@ -1603,7 +1651,7 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_putc(cg, ')');
             break;
         case ND_ID:
-            c_print(cg, "%s", node->referenced_obj && node->referenced_obj->is_extern ? EITHER(node->referenced_obj->exported, node->id->callee) : c_gen_identifier(cg->context, node->id));
+            c_print(cg, "%s", c_gen_variable(cg, node));
             break;
         case ND_CALL:
         {
@@ -1725,7 +1773,7 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
                 for(size_t j = 0; j < block->locals->size; j++)
                 {
                     ASTObj_T* local = block->locals->items[j];
-                    c_print(cg, "&%s,", c_gen_identifier(cg->context, local->id));
+                    c_print(cg, "&%s,", c_gen_local_identifier(cg, local->id));
                 }
             }
 
@@ -1800,7 +1848,7 @@ static void c_gen_pipe_buffers(CCodegenData_T* cg)
 
 static void c_gen_local(CCodegenData_T* cg, ASTObj_T* var)
 {
-    c_gen_typed_name(cg, var->id, var->data_type);
+    c_gen_typed_name_str(cg, c_gen_local_identifier(cg, var->id), var->data_type);
     if(!var->value)
     {
         c_putc(cg, '=');
@@ -1981,7 +2029,7 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
     case ND_WITH:
     {
         c_println(cg, "{");
-        c_gen_typed_name(cg, node->obj->id, node->obj->data_type);
+        c_gen_typed_name_str(cg, c_gen_local_identifier(cg, node->obj->id), node->obj->data_type);
         c_putc(cg, '=');
         c_gen_expr(cg, node->condition->right, true);
         c_println(cg, ";");
diff --git a/src/compiler/codegen/transpiler/c_codegen.h b/src/compiler/codegen/transpiler/c_codegen.h
index e88fb90..2ff547e 100644
--- a/src/compiler/codegen/transpiler/c_codegen.h
+++ b/src/compiler/codegen/transpiler/c_codegen.h
@@ -24,6 +24,7 @@ typedef struct C_CODEGEN_DATA_STRUCT
     
     HashMap_T* arrays;
     HashMap_T* anon_structs;
+    HashMap_T* global_names;
     List_T* blocks;
 
     char* buf;
-- 
2.43.0


From 352e7883047b3268ea25edeeb575da501a814166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:09 +0000
Subject: [PATCH 120/122] fix: generated names of identifiers with many escaped
 or non-ASCII characters

---
 src/compiler/codegen/codegen_utils.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/codegen_utils.c b/src/compiler/codegen/codegen_utils.c
index bbc2959..4498dd7 100644
--- a/src/compiler/codegen/codegen_utils.c
+++ b/src/compiler/codegen/codegen_utils.c
@@ -14,8 +14,8 @@
 static void escape_callee(char* dst, ASTIdentifier_T* id)
 {
     for(char* c = id->callee; *c; c++)
-        if(!isalnum(*c) && *c != '_')
-            snprintf(dst + strlen(dst), 4, "$%02x", (int) *c);
+        if(!isalnum((unsigned char) *c) && *c != '_')
+            snprintf(dst + strlen(dst), 4, "$%02x", (unsigned char) *c);
         else
             dst[strlen(dst)] = *c;
 }
@@ -41,7 +41,11 @@ char* gen_identifier(ASTIdentifier_T* id, const char* combiner, const char* pref
     {
         List_T* path = get_id_path(id);
 
-        size_t len = (BUFSIZ) * path->size + 1;
+        // every character may be escaped to three
+        size_t len = strlen(prefix) + 1;
+        for(size_t i = 0; i < path->size; i++)
+            len += strlen(((ASTIdentifier_T*) path->items[i])->callee) * 3 + strlen(combiner);
+
         char callee[len];
         memset(callee, '\0', sizeof callee);
 
@@ -61,7 +65,7 @@ char* gen_identifier(ASTIdentifier_T* id, const char* combiner, const char* pref
     }
     else
     {
-        new_c = calloc(strlen(id->callee) + strlen(prefix) + 16, sizeof(char));
+        new_c = calloc(strlen(id->callee) * 3 + strlen(prefix) + 1, sizeof(char));
         strcat(new_c, prefix);
         escape_callee(new_c, id);
     }
-- 
2.43.0


From 69ed75cc53fa97b984045b1fb975c7c6cc55926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 121/122] fix: generated C code relies on wrapping integers and
 untyped memory

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 3ca98f6..018316e 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -383,6 +383,8 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
             cg->context->cc,
             c_source_file,
             "-std=c99",
+            "-fwrapv",
+            "-fno-strict-aliasing",
             "-o",
             target,
             "-Wno-builtin-declaration-mismatch", // disable warnings for "extern "C"" function declarations
@@ -454,6 +456,8 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
             "-c",
             c_source_file,
             "-std=c99",
+            "-fwrapv",
+            "-fno-strict-aliasing",
             "-o",
             obj_file,
         };
-- 
2.43.0


From ad51c13396d04f424ad151a18abb33e4b6274492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:41 +0000
Subject: [PATCH 122/122] fix: string escape sequences in generated C code

---
 src/compiler/codegen/transpiler/c_codegen.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 018316e..0bb8f37 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -16,6 +16,7 @@
 #include "io/log.h"
 #include "io/io.h"
 #include "../codegen_utils.h"
+#include "../asm/relocation.h"
 #include "ast/ast.h"
 #include "ast/ast_iterator.h"
 #include "ast/types.h"
@@ -1392,6 +1393,22 @@ static ssize_t get_vtable_index(CCodegenData_T* cg, ASTType_T* interface, const
     return -1;
 }
 
+static void c_gen_string(CCodegenData_T* cg, const char* str)
+{
+    c_putc(cg, '"');
+    for(size_t i = 0; str[i]; i++)
+    {
+        u8 c = str[i] == '\\' ? (i++, escape_sequence(str[i], &str[i], &i)) : (u8) str[i];
+
+        // the escape sequences of C differ from these of CSpydr
+        if(isalnum(c) || c == ' ')
+            c_putc(cg, c);
+        else
+            c_print(cg, "\\%03o", c);
+    }
+    c_putc(cg, '"');
+}
+
 static bool c_is_op_assignment(ASTNode_T* node)
 {
     if(node->kind != ND_ASSIGN || node->left->kind == ND_ID)
@@ -1479,7 +1496,7 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_print(cg, "((char) %d)", node->int_val);
             break;
         case ND_STR:
-            c_print(cg, "\"%s\"", node->str_val);
+            c_gen_string(cg, node->str_val);
             break;
         case ND_NIL:
             c_print(cg, "((void*) 0)");
-- 
2.43.0

