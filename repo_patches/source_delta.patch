From b7f04c9053fa0c7f85019054786678abe1efb50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:17 +0000
Subject: [PATCH 01/99] fix: comparing strings must yield -1, 0 or 1, not
 strcmp()'s raw result

---
 src/buzz/buzztype.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 35e57b0..3c9a88c 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -133,6 +133,13 @@ int buzzobj_eq(const buzzobj_t a,
 /****************************************/
 /****************************************/
 
+/* strcmp() can return any integer, while buzzobj_cmp() must return -1, 0, or 1 */
+static int buzzobj_strcmp(const char* a,
+                          const char* b) {
+   int c = strcmp(a, b);
+   return (c > 0) - (c < 0);
+}
+
 int buzzobj_cmp(const buzzobj_t a,
                 const buzzobj_t b) {
    /* Nil */
@@ -165,29 +172,29 @@ int buzzobj_cmp(const buzzobj_t a,
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
-      return strcmp(a->s.value.str, b->s.value.str);
+      return buzzobj_strcmp(a->s.value.str, b->s.value.str);
    }
 
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_INT) {
       char str[30];
       sprintf(str, "%d", b->i.value);
-      return strcmp(a->s.value.str, str);
+      return buzzobj_strcmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
       char str[30];
       sprintf(str, "%f", b->f.value);
-      return strcmp(a->s.value.str, str);
+      return buzzobj_strcmp(a->s.value.str, str);
    }
 
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_STRING) {
       char str[30];
       sprintf(str, "%d", a->i.value);
-      return strcmp(str, b->s.value.str);
+      return buzzobj_strcmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
       char str[30];
       sprintf(str, "%f", a->f.value);
-      return strcmp(str, b->s.value.str);
+      return buzzobj_strcmp(str, b->s.value.str);
    }
    /* Tables */
    if(a->o.type == BUZZTYPE_TABLE || b->o.type == BUZZTYPE_TABLE) {
-- 
2.43.0


From 35137958129dadf8537b2c56b96e32f2ca4b6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:37 +0000
Subject: [PATCH 02/99] fix: 'x == nil' is false when x is not nil

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index d8b2dff..932363d 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -133,7 +133,7 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    buzzdarray_pop(vm->stack);                                           \
    buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);                 \
    int cmp = buzzobj_cmp(op2, op1);                                     \
-   res->i.value = (cmp == 2 || cmp oper 0);                             \
+   res->i.value = (cmp oper 0);                                         \
    return buzzvm_push(vm, res);
 
 /****************************************/
-- 
2.43.0


From 35c7f749558e53f8e9de9d6c54c829612499d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:08 +0000
Subject: [PATCH 03/99] fix: mixed int/float modulo of a negative dividend
 reads the right union member

---
 src/buzz/buzzvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 932363d..300c972 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1478,14 +1478,14 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->i.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += op1->i.value;
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->i.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->i.value;
+      if(res->f.value < 0.) res->f.value += op1->f.value;
       return buzzvm_push(vm, res);
    }
    else {
-- 
2.43.0


From f2fcd5f63624734c4ab7bf82dc1fb73b83ee9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:11 +0000
Subject: [PATCH 04/99] fix: integer division or modulo by zero is a VM error,
 not SIGFPE

---
 src/buzz/buzzvm.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 300c972..46a85d5 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1447,7 +1447,26 @@ buzzvm_state buzzvm_mul(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/*
+ * Checks that the two topmost stack elements are not the operands of an
+ * integer division whose result is undefined. Sets the error state if so.
+ */
+static buzzvm_state buzzvm_intdiv_check(buzzvm_t vm) {
+   buzzvm_stack_assert(vm, 2);
+   buzzobj_t den = buzzvm_stack_at(vm, 1);
+   buzzobj_t num = buzzvm_stack_at(vm, 2);
+   if(den->o.type == BUZZTYPE_INT &&
+      num->o.type == BUZZTYPE_INT) {
+      if(den->i.value == 0)
+         buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "integer division by zero");
+      else if(den->i.value == -1 && num->i.value == INT32_MIN)
+         buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "integer division overflow");
+   }
+   return vm->state;
+}
+
 buzzvm_state buzzvm_div(buzzvm_t vm) {
+   if(buzzvm_intdiv_check(vm) == BUZZVM_STATE_ERROR) return vm->state;
    buzzvm_binary_op_arith(vm, /);
 }
 
@@ -1455,6 +1474,7 @@ buzzvm_state buzzvm_div(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_mod(buzzvm_t vm) {
+   if(buzzvm_intdiv_check(vm) == BUZZVM_STATE_ERROR) return vm->state;
    buzzvm_stack_assert((vm), 2);
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);
-- 
2.43.0


From 4440a3cdb0cf43879973863b05b680e440c8130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:29 +0000
Subject: [PATCH 05/99] fix: arithmetic type errors carry an error message

---
 src/buzz/buzzvm.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 46a85d5..c9c011b 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -40,8 +40,7 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
        op1->o.type != BUZZTYPE_FLOAT) ||                                \
       (op2->o.type != BUZZTYPE_INT &&                                   \
        op2->o.type != BUZZTYPE_FLOAT))  {                               \
-      (vm)->state = BUZZVM_STATE_ERROR;                                 \
-      (vm)->error = BUZZVM_ERROR_TYPE;                                  \
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, NULL);                     \
       return (vm)->state;                                               \
    }                                                                    \
    buzzdarray_pop(vm->stack);                                           \
@@ -1509,8 +1508,7 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
@@ -1549,8 +1547,7 @@ buzzvm_state buzzvm_pow(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
@@ -1573,8 +1570,7 @@ buzzvm_state buzzvm_unm(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
-- 
2.43.0


From 07175eba1dd8672864e1bbc52d9d2b640590df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:33 +0000
Subject: [PATCH 06/99] fix: error message for an invalid table key must not
 print an integer as a string

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index c9c011b..e534e0b 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1321,7 +1321,7 @@ buzzvm_state buzzvm_tget(buzzvm_t vm) {
    if(k->o.type != BUZZTYPE_INT &&
       k->o.type != BUZZTYPE_FLOAT &&
       k->o.type != BUZZTYPE_STRING) {
-      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", k->o.type);
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", buzztype_desc[k->o.type]);
       return vm->state;
    }
    const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t);
-- 
2.43.0


From a4762c0019b02f08a2c0657b945df271d9f6cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:36 +0000
Subject: [PATCH 07/99] fix: unary minus has the highest precedence for any
 operand, as documented

---
 src/buzz/buzzparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 0c62721..99e9f61 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1080,7 +1080,7 @@ int parse_operand(buzzparser_t par) {
          return PARSE_OK;
       }
       else {
-         if(!parse_power(par)) return PARSE_ERROR;
+         if(!parse_bitwisenot(par)) return PARSE_ERROR;
          if(op == '-') chunk_append("\tunm");
          return PARSE_OK;
       }
-- 
2.43.0


From 41f59fed8f0c38f4a2032291d464a1682dbf9957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:16 +0000
Subject: [PATCH 08/99] fix: local variables in blocks at global scope have an
 activation record

---
 src/buzz/buzzparser.c |  2 ++
 src/buzz/buzzvm.c     | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 99e9f61..92f4a98 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -510,6 +510,8 @@ int parse_block(buzzparser_t par, int pushsymt) {
          if(buzzdarray_size(par->symstack) == 1) {
             /* Add new symtable */
             symt_push();
+            /* Slot 0 of the activation record is reserved to "self" */
+            sym_add(par, "self", SCOPE_LOCAL);
          }
          else {
             symt_clone();
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index e534e0b..322fa63 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1689,7 +1689,20 @@ buzzvm_state buzzvm_lte(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/*
+ * Makes sure that an activation record exists.
+ * A block in the global scope has none until it uses a local symbol.
+ */
+static void buzzvm_lsyms_ensure(buzzvm_t vm) {
+   if(vm->lsyms) return;
+   buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   vm->lsyms = buzzvm_lsyms_new(0, buzzdarray_new(1, sizeof(buzzobj_t), NULL));
+   buzzdarray_push(vm->lsyms->syms, &nil);
+   buzzdarray_push(vm->lsymts, &(vm->lsyms));
+}
+
 buzzvm_state buzzvm_lload(buzzvm_t vm, uint32_t idx) {
+   buzzvm_lsyms_ensure(vm);
    /* Make sure there are sufficient local symbols in the stack */
    if(buzzvm_lnum(vm) < idx) {
       buzzvm_seterror(vm,
@@ -1710,6 +1723,11 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
    buzzvm_stack_assert((vm), 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
+   buzzvm_lsyms_ensure(vm);
+   /* Symbols whose declaration was not executed are nil */
+   buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   while(buzzdarray_size(vm->lsyms->syms) < idx)
+      buzzdarray_push(vm->lsyms->syms, &nil);
    buzzdarray_set((vm)->lsyms->syms, idx, &o);
    return vm->state;
 }
-- 
2.43.0


From 127efb75c2c64f71883cd711da22d9884e81d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:43 +0000
Subject: [PATCH 09/99] fix: removing more local symbols than available leaves
 the activation record alone

---
 src/buzz/buzzvm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 322fa63..3186597 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1733,11 +1733,14 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
 }
 
 buzzvm_state buzzvm_lremove(buzzvm_t vm, uint32_t num) {
-   if(buzzvm_lnum(vm) < num)
+   buzzvm_lsyms_ensure(vm);
+   if(buzzvm_lnum(vm) < num) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack"
          );
+      return vm->state;
+   }
   for( uint32_t i =0 ; i < num ; i++ )
     buzzdarray_pop((vm)->lsyms->syms);
    return vm->state;
-- 
2.43.0


From 6f24296b34c6e3fcf15163f1d6467d88f74f5430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:46 +0000
Subject: [PATCH 10/99] fix: 'return' outside of a function is a VM error, not
 a crash

---
 src/buzz/buzzvm.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 3186597..fb0ef53 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1362,6 +1362,11 @@ buzzvm_state buzzvm_gstore(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret0(buzzvm_t vm) {
+   /* Returning makes sense only within a function call */
+   if(buzzdarray_size(vm->stacks) < 2) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
@@ -1392,6 +1397,11 @@ buzzvm_state buzzvm_ret0(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret1(buzzvm_t vm) {
+   /* Returning makes sense only within a function call */
+   if(buzzdarray_size(vm->stacks) < 2) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
-- 
2.43.0


From f11e921ab1616cce2aa9740bbbe0b128a75fbeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:06 +0000
Subject: [PATCH 11/99] fix: buzzvm_function_call() passes arguments to the
 function

---
 src/buzz/buzzvm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index fb0ef53..3a08067 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1056,10 +1056,11 @@ buzzvm_state buzzvm_function_call(buzzvm_t vm,
    }
    /* Move closure before arguments */
    if(argc > 0) {
-      buzzdarray_insert(vm->stack,
-                        buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
+      buzzdarray_insert(vm->stack,
+                        buzzdarray_size(vm->stack) - argc,
+                        &c);
    }
    /* Call the closure */
    return buzzvm_closure_call(vm, argc);
-- 
2.43.0


From d595ef58bbc45b27721692cfafbeeac6f5ff2197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:09 +0000
Subject: [PATCH 12/99] fix: calling a C closure from C does not execute an
 unrelated bytecode instruction

---
 src/buzz/buzzvm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 3a08067..87e2359 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1015,9 +1015,9 @@ buzzvm_state buzzvm_closure_call(buzzvm_t vm,
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-   while(stacks < buzzdarray_size(vm->stacks));
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks))
+      if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    return vm->state;
 }
 
-- 
2.43.0


From fdad995d61527d9d0238b370b0977a0d6b6d14ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 13/99] fix: debugger function calls pass arguments and honour
 C closures

---
 src/buzz/buzzdebug.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 763d78a..8f98e22 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -308,21 +308,21 @@ buzzvm_state buzzdebug_closure_call(buzzvm_t vm,
       else return vm->state;
    }
    /* Insert the self table */
-   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, buzzobj_new(BUZZTYPE_NIL));
+   buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, &nil);
    /* Push the argument count */
    buzzvm_pushi(vm, argc);
    /* Save the current stack depth */
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do {
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks)) {
       if(buzzdebug_breakpoint_exists(dbg, vm->pc))
          vm->state = BUZZVM_STATE_STOPPED;
       if(buzzvm_step(vm) != BUZZVM_STATE_READY)
          return vm->state;
    }
-   while(stacks < buzzdarray_size(vm->stacks));
    return vm->state;
 }
 
@@ -348,10 +348,11 @@ buzzvm_state buzzdebug_function_call(buzzvm_t vm,
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    /* Move closure before arguments */
    if(argc > 0) {
-      buzzdarray_insert(vm->stack,
-                        buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
+      buzzdarray_insert(vm->stack,
+                        buzzdarray_size(vm->stack) - argc,
+                        &c);
    }
    /* Call the closure */
    return buzzdebug_closure_call(vm, argc, dbg);
-- 
2.43.0


From 84e1c9f6814821ef98ccb8cce12890850a251f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:38 +0000
Subject: [PATCH 14/99] fix: scripts with lexer errors, missing includes or a
 stray } are rejected

---
 src/buzz/buzzparser.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 92f4a98..46bd16c 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -425,13 +425,21 @@ int parse_script(buzzparser_t par) {
       buzzlex_destroytok(&par->tok);
       par->tok = buzzlex_nexttok(par->lex);
    }
-   if(par->tok->type == BUZZTOK_EOF) return PARSE_OK;
+   if(par->tok->type == BUZZTOK_EOF)
+      /* Empty script, unless a lexer error happened */
+      return buzzlex_done(par->lex) ? PARSE_OK : PARSE_ERROR;
    /* Add a symbol table */
    symt_push();
    /* Add the first chunk for the global scope */
    chunk_push(0);
    /* Parse the statements */
    if(!parse_statlist(par)) return PARSE_ERROR;
+   /* Make sure the whole script was parsed: leftovers mean that a lexer
+    * error occurred or that a stray } was found */
+   if(par->tok->type != BUZZTOK_EOF || !buzzlex_done(par->lex)) {
+      if(par->tok->type != BUZZTOK_EOF) match(par, BUZZTOK_EOF);
+      return PARSE_ERROR;
+   }
    /* Finalize the output */
    chunk_append("\n@__exitpoint");
    chunk_append("\tdone");
-- 
2.43.0


From b82cabeafce5199eace4981e9896c5d99b71c78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:04 +0000
Subject: [PATCH 15/99] fix: syntax errors at the end of a script do not crash
 the compiler

---
 src/buzz/buzzparser.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 46bd16c..9823200 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -349,6 +349,11 @@ void chunk_print(uint32_t pos, void* data, void* params) {
       } while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND); \
    }
 
+/* The file to mention in an error message: at the end of the script the lexer has no current file */
+static const char* buzzparser_fname(buzzparser_t par) {
+   return buzzlex_done(par->lex) ? par->scriptfn : buzzlex_getfile(par->lex)->fname;
+}
+
 int match(buzzparser_t par,
           buzztok_type_e type) {
    if(par->tok->type == BUZZTOK_EOF) {
@@ -361,7 +366,7 @@ int match(buzzparser_t par,
    if(par->tok->type != type) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected %s, found %s\n",
-              buzzlex_getfile(par->lex)->fname,
+              buzzparser_fname(par),
               par->tok->line,
               par->tok->col,
               buzztok_desc[type],
@@ -580,7 +585,7 @@ int parse_var(buzzparser_t par) {
    if(s && s->global == SCOPE_LOCAL) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Duplicated symbol '%s'\n",
-              buzzlex_getfile(par->lex)->fname,
+              buzzparser_fname(par),
               par->tok->line,
               par->tok->col,
               par->tok->value);
@@ -632,7 +637,7 @@ int parse_fun(buzzparser_t par) {
    if(buzzdarray_size(par->symstack) > 1) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: the definition of function %s() is nested within another scope. To define local functions, use the lambda syntax %s = function() { ... }.\n",
-              buzzlex_getfile(par->lex)->fname,
+              buzzparser_fname(par),
               par->tok->line,
               par->tok->col,
               par->tok->value,
@@ -868,7 +873,7 @@ int parse_expression(buzzparser_t par) {
          par->tok->type != BUZZTOK_BLOCKCLOSE) {
          fprintf(stderr,
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected .id = expression or }, found %s\n",
-                 buzzlex_getfile(par->lex)->fname,
+                 buzzparser_fname(par),
                  par->tok->line,
                  par->tok->col,
                  buzztok_desc[par->tok->type]);
@@ -895,7 +900,7 @@ int parse_expression(buzzparser_t par) {
          else {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    buzzparser_fname(par),
                     par->tok->line,
                     par->tok->col,
                     buzztok_desc[par->tok->type]);
@@ -931,7 +936,7 @@ int parse_expression(buzzparser_t par) {
             else {
                fprintf(stderr,
                        "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                       buzzlex_getfile(par->lex)->fname,
+                       buzzparser_fname(par),
                        par->tok->line,
                        par->tok->col,
                        buzztok_desc[par->tok->type]);
@@ -1125,7 +1130,7 @@ int parse_command(buzzparser_t par) {
          if(idrefinfo.info == TYPE_CLOSURE) {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: can't have a function call as lvalue\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    buzzparser_fname(par),
                     par->tok->line,
                     par->tok->col);
             return PARSE_ERROR;
@@ -1161,7 +1166,7 @@ int parse_command(buzzparser_t par) {
       }
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected function call or assignment\n",
-              buzzlex_getfile(par->lex)->fname,
+              buzzparser_fname(par),
               par->tok->line,
               par->tok->col);
       return PARSE_ERROR;
@@ -1219,7 +1224,7 @@ int parse_idreflist(buzzparser_t par) {
    }
    fprintf(stderr,
            "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected , or ), found %s\n",
-           buzzlex_getfile(par->lex)->fname,
+           buzzparser_fname(par),
            par->tok->line,
            par->tok->col,
            buzztok_desc[par->tok->type]);
-- 
2.43.0


From 2e201728d5dda56a281c29ed3d17402f75c57c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:07 +0000
Subject: [PATCH 16/99] fix: an empty script runs to completion

---
 src/buzz/buzzparser.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 9823200..44fc436 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -430,15 +430,12 @@ int parse_script(buzzparser_t par) {
       buzzlex_destroytok(&par->tok);
       par->tok = buzzlex_nexttok(par->lex);
    }
-   if(par->tok->type == BUZZTOK_EOF)
-      /* Empty script, unless a lexer error happened */
-      return buzzlex_done(par->lex) ? PARSE_OK : PARSE_ERROR;
    /* Add a symbol table */
    symt_push();
    /* Add the first chunk for the global scope */
    chunk_push(0);
    /* Parse the statements */
-   if(!parse_statlist(par)) return PARSE_ERROR;
+   if(par->tok->type != BUZZTOK_EOF && !parse_statlist(par)) return PARSE_ERROR;
    /* Make sure the whole script was parsed: leftovers mean that a lexer
     * error occurred or that a stray } was found */
    if(par->tok->type != BUZZTOK_EOF || !buzzlex_done(par->lex)) {
-- 
2.43.0


From 94fdd473cf46065378462b4cc6f835c7e557d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 17/99] fix: string literals with escape sequences do not
 swallow the characters after the closing quote

---
 src/buzz/buzzlex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index f80003f..a14102f 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -144,7 +144,8 @@ static char* buzzlex_newstring(const char* s,
    /* Pointer for current current */
    char* pns = ns;
    /* Go through original string */
-   for(size_t i = 0; i < len; ++i) {
+   const char* end = s + len;
+   while(s < end) {
       /* Escape sequence? */
       if(*s != '\\') {
          /* No, normal character - just copy it */
-- 
2.43.0


From e514d6d509ee8da69791ea1633cc402820af51f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:32 +0000
Subject: [PATCH 18/99] fix: find the end of string literals that mix escaped
 backslashes and quotes

---
 src/buzz/buzzlex.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index a14102f..0a9202b 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -560,14 +560,13 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    else if(buzzlex_isquote(c)) {
       /* String - eat any character until you find the next matching quote */
       size_t start = lexf->cur_c;
-      char last1 = 0, last2 = 0;
       while(lexf->cur_c < lexf->buf_size &&    /* Not end of stream */
-            ((lexf->buf[lexf->cur_c] != c) ||  /* Matching quote not found */
-             (lexf->buf[lexf->cur_c] == c &&   /* Matching quote found, but preceded by \ and not \\ */
-              last1 == '\\' && last2 != '\\'))) {
-         /* Remember the last two characters read */
-         last2 = last1;
-         last1 = lexf->buf[lexf->cur_c];
+            lexf->buf[lexf->cur_c] != c) {     /* Matching quote not found */
+         /* A backslash protects the next character */
+         if(lexf->buf[lexf->cur_c] == '\\' &&
+            lexf->cur_c + 1 < lexf->buf_size) {
+            nextchar();
+         }
          /* Keep parsing the string */
          nextchar();
       }
-- 
2.43.0


From 5c9cdb85a6052b416b3942f81492959f19369cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 19/99] fix: strings containing newlines survive compilation
 and assembly

---
 src/buzz/buzzasm.c    | 26 ++++++++++++++++++++++++--
 src/buzz/buzzparser.c | 11 ++++++++++-
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index bcd8c25..3c2a185 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -102,6 +102,22 @@ void strdatadstryf(const void* key, void* data, void* params) {
 /****************************************/
 /****************************************/
 
+/*
+ * Converts the escape sequences for newline and backslash, in place
+ */
+static void string_unescape(char* s) {
+   char* o = s;
+   for(; *s; ++s, ++o) {
+      if(s[0] == '\\' && s[1] == 'n')       { *o = '\n'; ++s; }
+      else if(s[0] == '\\' && s[1] == '\\') { *o = '\\'; ++s; }
+      else *o = *s;
+   }
+   *o = 0;
+}
+
+/****************************************/
+/****************************************/
+
 struct buzz_asm_info_s {
    const char* fname;
    uint8_t* buf;
@@ -190,6 +206,7 @@ int buzz_asm(const char* fname,
       if(*trimline == '\'') {
          ++trimline;
          trimline[strlen(trimline)-1] = 0;
+         string_unescape(trimline);
          size_t l = strlen(trimline) + 1;
          bcode_resize(l);
          strcpy((char*)(*buf + *size), trimline);
@@ -369,9 +386,14 @@ int buzz_deasm(const uint8_t* buf,
    long int c = 0;
    for(; (c < count) && (i < size); ++c) {
       /* Print string */
-      fprintf(fd, "'%s\n", ((char*)buf + i));
+      fputc('\'', fd);
+      for(; i < size && buf[i] != 0; ++i) {
+         if(buf[i] == '\n')      fputs("\\n", fd);
+         else if(buf[i] == '\\') fputs("\\\\", fd);
+         else                    fputc(buf[i], fd);
+      }
+      fputc('\n', fd);
       /* Advance to first character of next string */
-      while(*(buf + i) != 0) ++i;
       ++i;
    }
    if(c < count) {
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 44fc436..143c526 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -73,7 +73,16 @@ uint32_t string_add(buzzdict_t strings, const char* str) {
 }
 
 void string_print(uint32_t pos, void* data, void* params) {
-   fprintf((FILE*)params, "'%s\n", (*(struct strarray_data_s**)data)->str);
+   FILE* f = (FILE*)params;
+   const char* c = (*(struct strarray_data_s**)data)->str;
+   /* One string per line: newlines (and thus backslashes) are escaped */
+   fputc('\'', f);
+   for(; *c; ++c) {
+      if(*c == '\n')      fputs("\\n", f);
+      else if(*c == '\\') fputs("\\\\", f);
+      else                fputc(*c, f);
+   }
+   fputc('\n', f);
 }
 
 /****************************************/
-- 
2.43.0


From a2fdcd15ef495854465984973522867e2b1180c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:24 +0000
Subject: [PATCH 20/99] fix: comparing a string with a large float does not
 overflow the stack

---
 src/buzz/buzztype.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 3c9a88c..d964486 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -181,7 +181,7 @@ int buzzobj_cmp(const buzzobj_t a,
       return buzzobj_strcmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
-      char str[30];
+      char str[64];
       sprintf(str, "%f", b->f.value);
       return buzzobj_strcmp(a->s.value.str, str);
    }
@@ -192,7 +192,7 @@ int buzzobj_cmp(const buzzobj_t a,
       return buzzobj_strcmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
-      char str[30];
+      char str[64];
       sprintf(str, "%f", a->f.value);
       return buzzobj_strcmp(str, b->s.value.str);
    }
-- 
2.43.0


From 6e005c8f2864392f6b3d4e1f53dae22ab2c30888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:28 +0000
Subject: [PATCH 21/99] fix: comparing closures is a VM error, not abort()

---
 src/buzz/buzzmath.c | 14 ++++++++++++++
 src/buzz/buzztype.c | 14 ++++++++++++++
 src/buzz/buzztype.h |  9 +++++++++
 src/buzz/buzzvm.c   |  7 +++++++
 4 files changed, 44 insertions(+)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index a2479cb..e2f3337 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -432,6 +432,13 @@ int buzzmath_min(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzobj_t b = buzzvm_stack_at(vm, 1);
    /* Compare them and return the smaller one */
+   if(!buzzobj_comparable(a, b)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE,
+                      "can't compare %s and %s",
+                      buzztype_desc[a->o.type],
+                      buzztype_desc[b->o.type]);
+      return vm->state;
+   }
    int cmp = buzzobj_cmp(a, b);
    if(cmp != 1)
       buzzvm_push(vm, a);
@@ -451,6 +458,13 @@ int buzzmath_max(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzobj_t b = buzzvm_stack_at(vm, 1);
    /* Compare them and return the bigger one */
+   if(!buzzobj_comparable(a, b)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE,
+                      "can't compare %s and %s",
+                      buzztype_desc[a->o.type],
+                      buzztype_desc[b->o.type]);
+      return vm->state;
+   }
    int cmp = buzzobj_cmp(a, b);
    if(cmp >= 0)
       buzzvm_push(vm, a);
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index d964486..ad7692f 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -133,6 +133,20 @@ int buzzobj_eq(const buzzobj_t a,
 /****************************************/
 /****************************************/
 
+int buzzobj_comparable(const buzzobj_t a,
+                       const buzzobj_t b) {
+   /* Nil and tables can be compared with anything */
+   if(a->o.type == BUZZTYPE_NIL   || b->o.type == BUZZTYPE_NIL)   return 1;
+   if(a->o.type == BUZZTYPE_TABLE || b->o.type == BUZZTYPE_TABLE) return 1;
+   /* Closures can't be compared */
+   if(a->o.type == BUZZTYPE_CLOSURE || b->o.type == BUZZTYPE_CLOSURE) return 0;
+   /* Userdata can only be compared with userdata */
+   return (a->o.type == BUZZTYPE_USERDATA) == (b->o.type == BUZZTYPE_USERDATA);
+}
+
+/****************************************/
+/****************************************/
+
 /* strcmp() can return any integer, while buzzobj_cmp() must return -1, 0, or 1 */
 static int buzzobj_strcmp(const char* a,
                           const char* b) {
diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index 92fe8c4..906f5a6 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -147,6 +147,15 @@ extern "C" {
    extern int buzzobj_eq(const buzzobj_t a,
                          const buzzobj_t b);
 
+   /*
+    * Returns 1 if two Buzz objects can be compared with buzzobj_cmp().
+    * @param a The first object.
+    * @param b The second object.
+    * @return 1 if the objects can be compared, 0 otherwise
+    */
+   extern int buzzobj_comparable(const buzzobj_t a,
+                                 const buzzobj_t b);
+
    /*
     * Compares two Buzz objects.
     * Returns:
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 87e2359..ffd8bf6 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -128,6 +128,13 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    buzzvm_stack_assert((vm), 2);                                        \
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);                              \
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);                              \
+   if(!buzzobj_comparable(op2, op1)) {                                  \
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE,                            \
+                      "can't compare %s and %s",                        \
+                      buzztype_desc[op2->o.type],                       \
+                      buzztype_desc[op1->o.type]);                      \
+      return vm->state;                                                 \
+   }                                                                    \
    buzzdarray_pop(vm->stack);                                           \
    buzzdarray_pop(vm->stack);                                           \
    buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);                 \
-- 
2.43.0


From 49b40a726dcce342b5ef95ac0593fd20c4aaebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:30 +0000
Subject: [PATCH 22/99] fix: string and numeric table keys never alias

---
 src/buzz/buzztype.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index ad7692f..a7d76af 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -32,6 +32,9 @@ uint32_t buzzobj_table_hash(const void* key) {
 }
 
 int buzzobj_table_keycmp(const void* a, const void* b) {
+   /* A string key and a numeric key are different keys */
+   if(((*(buzzobj_t*)a)->o.type == BUZZTYPE_STRING) !=
+      ((*(buzzobj_t*)b)->o.type == BUZZTYPE_STRING)) return 1;
    return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
-- 
2.43.0


From 233bc1deffe6854016e7fc0565bdb2b7d70a8900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:56 +0000
Subject: [PATCH 23/99] fix: string and numeric virtual stigmergy keys never
 alias

---
 src/buzz/buzzoutmsg.c |  2 +-
 src/buzz/buzztype.h   | 10 ++++++++++
 src/buzz/buzzvstig.c  |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index e7af5b1..cef03c1 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -57,7 +57,7 @@ uint32_t buzzoutmsg_obj_hash(const void* key) {
 }
 
 int buzzoutmsg_obj_cmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(const buzzobj_t*)a, *(const buzzobj_t*)b);
+   return buzzobj_table_keycmp(a, b);
 }
 
 void buzzoutmsg_destroy(uint32_t pos, void* data, void* params) {
diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index 906f5a6..ae594ad 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -156,6 +156,16 @@ extern "C" {
    extern int buzzobj_comparable(const buzzobj_t a,
                                  const buzzobj_t b);
 
+   /*
+    * Compares two Buzz objects used as keys.
+    * A string key and a numeric key are always different.
+    * @param a A pointer to the first object.
+    * @param b A pointer to the second object.
+    * @return 0 if the keys are the same, another value otherwise
+    */
+   extern int buzzobj_table_keycmp(const void* a,
+                                   const void* b);
+
    /*
     * Compares two Buzz objects.
     * Returns:
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 9375e3e..deba642 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -50,7 +50,7 @@ uint32_t buzzvstig_key_hash(const void* key) {
 }
 
 int buzzvstig_key_cmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
+   return buzzobj_table_keycmp(a, b);
 }
 
 /****************************************/
-- 
2.43.0


From 0fc4c54dbcbb91567ac08a8cedc71e8da0922cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:07 +0000
Subject: [PATCH 24/99] fix: a negative float table key finds the entry of the
 equal int key

---
 src/buzz/buzztype.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index a7d76af..ac37f17 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -20,7 +20,9 @@ uint32_t buzzobj_table_hash(const void* key) {
          return (k->i.value % BUZZTYPE_TABLE_BUCKETS);
       }
       case BUZZTYPE_FLOAT: {
-         return ((uint32_t)(k->f.value) % BUZZTYPE_TABLE_BUCKETS);
+         /* A float must end up in the same bucket as the int it is equal to */
+         int32_t x = (k->f.value > -2147483648.0f && k->f.value < 2147483648.0f) ? k->f.value : 0;
+         return (x % BUZZTYPE_TABLE_BUCKETS);
       }
       case BUZZTYPE_STRING: {
          return ((uint32_t)(k->s.value.sid) % BUZZTYPE_TABLE_BUCKETS);
@@ -87,7 +89,7 @@ uint32_t buzzobj_hash(const buzzobj_t o) {
          return buzzdict_int32keyhash(&(o->i.value));
       }
       case BUZZTYPE_FLOAT: {
-         int32_t x = o->f.value;
+         int32_t x = (o->f.value > -2147483648.0f && o->f.value < 2147483648.0f) ? o->f.value : 0;
          return buzzdict_int32keyhash(&x);
       }
       case BUZZTYPE_STRING: {
-- 
2.43.0


From d1f022b00e2a53cfe3d9e5674feb252fbdb30c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:19 +0000
Subject: [PATCH 25/99] fix: replacing a virtual stigmergy conflict manager
 does not free a garbage-collected object

---
 src/buzz/buzzvstig.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index deba642..11e852a 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -358,8 +358,7 @@ int buzzvstig_onconflict(struct buzzvm_s* vm) {
       /* Get closure */
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
-      /* Clone the closure */
-      if((*vs)->onconflict) free((*vs)->onconflict);
+      /* Clone the closure (the garbage collector takes care of the old one, if any) */
       (*vs)->onconflict = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
@@ -386,8 +385,7 @@ int buzzvstig_onconflictlost(struct buzzvm_s* vm) {
       /* Get closure */
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
-      /* Clone the closure */
-      if((*vs)->onconflictlost) free((*vs)->onconflictlost);
+      /* Clone the closure (the garbage collector takes care of the old one, if any) */
       (*vs)->onconflictlost = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
-- 
2.43.0


From ce1cf14327fc8df3b5e738b741e937f2ddc050c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:10 +0000
Subject: [PATCH 26/99] fix: virtual stigmergy conflict managers can fail,
 collect garbage and return without corrupting the VM

---
 src/buzz/buzzvm.c    | 93 +++++++++++++++++++++-----------------------
 src/buzz/buzzvstig.c | 13 +++++--
 2 files changed, 54 insertions(+), 52 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index ffd8bf6..7639339 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -243,6 +243,48 @@ void buzzvm_outmsg_destroy(uint32_t pos, void* data, void* param) {
    fprintf(stderr, "[TODO] %s:%d\n", __FILE__, __LINE__);
 }
 
+/*
+ * Resolves a conflict between the local and the remote version of an entry.
+ * The ownership of rv is transferred to this function.
+ */
+static void buzzvm_vstig_conflict(buzzvm_t vm,
+                                  uint16_t id,
+                                  buzzobj_t k,
+                                  buzzvstig_elem_t lv,
+                                  buzzvstig_elem_t rv) {
+   /* The conflict managers can trigger garbage collection and change the
+    * virtual stigmergy: save the local entry and keep the objects alive */
+   buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, lv);
+   buzzvm_push(vm, k);
+   buzzvm_push(vm, ol->data);
+   buzzvm_push(vm, rv->data);
+   /* Call conflict manager */
+   buzzvstig_elem_t c =
+      buzzvstig_onconflict_call(
+         vm, *buzzdict_get(vm->vstigs, &id, buzzvstig_t), k, ol, rv);
+   /* Get rid of useless vstig element */
+   free(rv);
+   const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
+   if(c) {
+      /* Store winning value and propagate the PUT message */
+      buzzvstig_store(*vs, &k, &c);
+      buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+      /* Did this robot lose the conflict? If so, call conflict lost manager */
+      if((c->robot != vm->robot) && (ol->robot == vm->robot))
+         buzzvstig_onconflictlost_call(vm, *vs, k, ol);
+   }
+   else {
+      fprintf(stderr, "[WARNING] [ROBOT %u] Error resolving virtual stigmergy conflict\n", vm->robot);
+   }
+   free(ol);
+   /* Get rid of the saved objects */
+   if(vm->state == BUZZVM_STATE_READY) {
+      buzzvm_pop(vm);
+      buzzvm_pop(vm);
+      buzzvm_pop(vm);
+   }
+}
+
 void buzzvm_process_inmsgs(buzzvm_t vm) {
    /* Go through the messages */
    while(!buzzinmsg_queue_isempty(vm->inmsgs)) {
@@ -313,32 +355,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             else if(((*l)->timestamp == v->timestamp) && /* Same timestamp */
                     ((*l)->robot != v->robot)) {         /* Different robot */
                /* Conflict! */
-               /* Call conflict manager */
-               buzzvstig_elem_t c =
-                  buzzvstig_onconflict_call(vm, *vs, k, *l, v);
-               if(!c) {
-                  fprintf(stderr, "[WARNING] [ROBOT %u] Error resolving PUT conflict\n", vm->robot);
-                  break;
-               }
-               /* Get rid of useless vstig element */
-               free(v);
-               /* Did this robot lose the conflict? */
-               if((c->robot != vm->robot) &&
-                  ((*l)->robot == vm->robot)) {
-                  /* Yes */
-                  /* Save current local entry */
-                  buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
-                  /* Store winning value */
-                  buzzvstig_store(*vs, &k, &c);
-                  /* Call conflict lost manager */
-                  buzzvstig_onconflictlost_call(vm, *vs, k, ol);
-               }
-               else {
-                  /* This robot did not lose the conflict */
-                  /* Just propagate the PUT message */
-                  buzzvstig_store(*vs, &k, &c);
-               }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+               buzzvm_vstig_conflict(vm, id, k, *l, v);
             }
             else {
                /* Remote element is older, ignore it */
@@ -405,29 +422,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             else if(((*l)->timestamp == v->timestamp) && /* Same timestamp */
                     ((*l)->robot != v->robot)) {         /* Different robot */
                /* Conflict! */
-               /* Call conflict manager */
-               buzzvstig_elem_t c =
-                  buzzvstig_onconflict_call(vm, *vs, k, *l, v);
-               free(v);
-               /* Make sure conflict manager returned with an element to process */
-               if(!c) break;
-               /* Did this robot lose the conflict? */
-               if((c->robot != vm->robot) &&
-                  ((*l)->robot == vm->robot)) {
-                  /* Yes */
-                  /* Save current local entry */
-                  buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
-                  /* Store winning value */
-                  buzzvstig_store(*vs, &k, &c);
-                  /* Call conflict lost manager */
-                  buzzvstig_onconflictlost_call(vm, *vs, k, ol);
-               }
-               else {
-                  /* This robot did not lose the conflict */
-                  /* Just propagate the PUT message */
-                  buzzvstig_store(*vs, &k, &c);
-               }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+               buzzvm_vstig_conflict(vm, id, k, *l, v);
             }
             else {
                /* Remote element is same as local, ignore it */
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 11e852a..091370b 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -423,19 +423,23 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       add_field(data, rv, push);
       add_field(timestamp, rv, pushi);
       /* Call closure (key, lv, rv on the stack) */
-      buzzvm_closure_call(vm, 3);
+      if(buzzvm_closure_call(vm, 3) != BUZZVM_STATE_READY)
+         return NULL;
       /* Make new entry with return value */
       /* Make sure it's a table */
       if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
          fprintf(stderr, "[WARNING] [ROBOT %u] virtual stigmergy onconflict(): Return value type is %s, expected table\n", vm->robot, buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
+         buzzvm_pop(vm);
          return NULL;
       }
       /* Get the robot id */
       buzzobj_t ret = buzzvm_stack_at(vm, 1);
       buzzvm_pushs(vm, buzzvm_string_register(vm, "robot", 1));
       buzzvm_tget(vm);
-      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT)
+      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT) {
+         buzzvm_pop(vm);
          return NULL;
+      }
       uint16_t robot = buzzvm_stack_at(vm, 1)->i.value;
       buzzvm_pop(vm);
       /* Get the data */
@@ -487,7 +491,10 @@ void buzzvstig_onconflictlost_call(buzzvm_t vm,
       add_field(data, lv, push);
       add_field(timestamp, lv, pushi);
       /* Call closure (key and table are on the stack) */
-      buzzvm_closure_call(vm, 2);
+      if(buzzvm_closure_call(vm, 2) != BUZZVM_STATE_READY)
+         return;
+      /* Discard the return value */
+      buzzvm_pop(vm);
    }
 }
 
-- 
2.43.0


From 99b854faa82604b2414b0009a87cbab7937715e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:13 +0000
Subject: [PATCH 27/99] fix: registering a C function again does not grow the
 function list

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 7639339..b75ca33 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1080,7 +1080,7 @@ int buzzvm_function_cmp(const void* a, const void* b) {
 uint32_t buzzvm_function_register(buzzvm_t vm,
                                   buzzvm_funp funp) {
    /* Look for function pointer to avoid duplicates */
-   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, funp);
+   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, &funp);
    if(fpos == buzzdarray_size(vm->flist)) {
       /* Add function to the list */
       buzzdarray_push(vm->flist, &funp);
-- 
2.43.0


From ef6493b34a9bad9bb50a050bb415a80ac979a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:17 +0000
Subject: [PATCH 28/99] fix: deleting a virtual stigmergy entry keeps its
 timestamp, so later updates propagate

---
 src/buzz/buzzvm.c    |  2 +-
 src/buzz/buzzvstig.c | 31 ++++++++++++++++---------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index b75ca33..0db8175 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -394,7 +394,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             const buzzvstig_elem_t* l = buzzvstig_fetch(*vs, &k);
             if(!l) {
                /* Element not found */
-               if(v->data->o.type == BUZZTYPE_NIL) {
+               if(v->timestamp == 0) {
                   /* This robot knows nothing about the query, just propagate it */
                   buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_QUERY, id, k, v);
                   free(v);
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 091370b..a78c0f1 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -205,26 +205,17 @@ int buzzvstig_put(buzzvm_t vm) {
       const buzzvstig_elem_t* x = buzzvstig_fetch(*vs, &k);
       if(x) {
          /* Element found */
-         if(v->o.type != BUZZTYPE_NIL) {
-            /* New value is not nil, update the existing element */
+         if(v->o.type != BUZZTYPE_NIL ||
+            (*x)->data->o.type != BUZZTYPE_NIL) {
+            /* Update the existing element
+             * A nil value marks the element as deleted; the element must stay,
+             * or its timestamp would restart and later updates would be lost */
             (*x)->data = v;
             ++((*x)->timestamp);
             (*x)->robot = vm->robot;
             /* Append a PUT message to the out message queue */
             buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, *x);
          }
-         else {
-            /* New value is nil, must delete the existing element */
-            /* Make a new element with nil as value to update neighbors */
-            buzzvstig_elem_t y = buzzvstig_elem_new(
-               buzzobj_new(BUZZTYPE_NIL), // nil value
-               (*x)->timestamp + 1,       // new timestamp
-               vm->robot);                // robot id
-            /* Append a PUT message to the out message queue with nil in it */
-            buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, y);
-            /* Delete the existing element */
-            buzzvstig_remove(*vs, &k);
-         }
       }
       else if(v->o.type != BUZZTYPE_NIL) {
          /* Element not found and new value is not nil, store it */
@@ -250,6 +241,8 @@ void buzzvstig_foreach_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzvstig_foreach_params* p = (struct buzzvstig_foreach_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Skip deleted elements */
+   if((*(buzzvstig_elem_t*)data)->data->o.type == BUZZTYPE_NIL) return;
    /* Push closure and params (key, value, robot) */
    buzzvm_push(p->vm, p->fun);
    buzzvm_push(p->vm, *(buzzobj_t*)key);
@@ -283,6 +276,12 @@ int buzzvstig_foreach(struct buzzvm_s* vm) {
 /****************************************/
 /****************************************/
 
+void buzzvstig_count_entry(const void* key, void* data, void* params) {
+   /* Deleted elements don't count */
+   if((*(buzzvstig_elem_t*)data)->data->o.type != BUZZTYPE_NIL)
+      ++(*(int32_t*)params);
+}
+
 int buzzvstig_size(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 0);
    /* Get vstig id */
@@ -291,7 +290,9 @@ int buzzvstig_size(buzzvm_t vm) {
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
       /* Virtual stigmergy found, return its size */
-      buzzvm_pushi(vm, buzzdict_size((*vs)->data));
+      int32_t size = 0;
+      buzzdict_foreach((*vs)->data, buzzvstig_count_entry, &size);
+      buzzvm_pushi(vm, size);
    }
    else {
       /* Virtual stigmergy not found, return 0 */
-- 
2.43.0


From ac3d6b3b9c66daff047edf0f5afd5e196d061fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:19 +0000
Subject: [PATCH 29/99] fix: a queued stigmergy message with a losing value
 does not suppress the winning value

---
 src/buzz/buzzoutmsg.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index cef03c1..54e3f5d 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -338,8 +338,11 @@ void buzzoutmsg_queue_append_vstig(buzzvm_t vm,
    int etype = -1, eidx = -1; /* No message to remove from the queue */
    if(e) {
       /* Yes; if the duplicate is newer than the passed message, nothing to do */
-      if((*e)->data->timestamp >= data->timestamp) return;
-      /* The duplicate is older, store data to remove it later */
+      if((*e)->data->timestamp > data->timestamp) return;
+      /* Same if the duplicate is the same version of the element */
+      if((*e)->data->timestamp == data->timestamp &&
+         (*e)->data->robot == data->robot) return;
+      /* The duplicate is older or lost a conflict, store data to remove it later */
       etype = (*e)->type;
       eidx = buzzdarray_find(vm->outmsgs->queues[etype], buzzoutmsg_vstig_cmp, e);
    }
-- 
2.43.0


From 66226d1517be9389d5d896a5e4d6900f06257794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:22 +0000
Subject: [PATCH 30/99] fix: messages from a robot are processed in the order
 they were received

---
 src/buzz/buzzinmsg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 1185491..4649d16 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -59,9 +59,9 @@ int buzzinmsg_queue_extract(buzzvm_t vm,
          break;
       }
    }
-   /* Extract payload from array */
-   *payload = buzzdarray_last(q, buzzmsg_payload_t);
-   buzzdarray_pop(q);
+   /* Extract the oldest payload from array */
+   *payload = buzzdarray_get(q, 0, buzzmsg_payload_t);
+   buzzdarray_remove(q, 0);
    /* If array is empty, remove (id,array entry) from dict */
    if(buzzdarray_isempty(q))
       buzzdict_remove(vm->inmsgs, rid);
-- 
2.43.0


From 7663478af37ae65ba3c805e6f08761fee68e189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:27 +0000
Subject: [PATCH 31/99] fix: an empty swarm list clears the membership of the
 sender

---
 src/buzz/buzzvm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 0db8175..ece9934 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -439,7 +439,11 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_SWARM_LIST message received\n", vm->robot);
                break;
             }
-            if(nsids < 1) break;
+            if(nsids < 1) {
+               /* The robot is in no swarm: forget what we know about it */
+               buzzdict_remove(vm->swarmmembers, &rid);
+               break;
+            }
             /* Deserialize swarm ids */
             buzzdarray_t sids = buzzdarray_new(nsids, sizeof(uint16_t), NULL);
             uint16_t i;
-- 
2.43.0


From 04415e4a464fac38e0d5ef77c4192a6dc55b17e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:31 +0000
Subject: [PATCH 32/99] fix: a truncated swarm list does not store
 uninitialized swarm ids

---
 src/buzz/buzzvm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index ece9934..4805e30 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -454,6 +454,10 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   break;
                }
             }
+            if(pos < 0) {
+               buzzdarray_destroy(&sids);
+               break;
+            }
             /* Update the information */
             buzzswarm_members_refresh(vm->swarmmembers, rid, sids);
             break;
-- 
2.43.0


From c6ae61cf09530f2082442ace540b1b9d6c3e90ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:31 +0000
Subject: [PATCH 33/99] fix: malformed messages are discarded instead of
 crashing the VM

---
 src/buzz/buzztype.c | 10 ++++++++++
 src/buzz/buzzvm.c   | 17 +++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index ac37f17..b188819 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -605,6 +605,10 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
    uint8_t type;
    p = buzzmsg_deserialize_u8(&type, buf, p);
    if(p < 0) return -1;
+   if(type > BUZZTYPE_CLOSURE) {
+      fprintf(stderr, "[WARNING] Can't deserialize an object of type %u\n", type);
+      return -1;
+   }
    *data = buzzheap_newobj(vm, type);
    switch(type) {
       case BUZZTYPE_NIL: {
@@ -637,6 +641,12 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
             if(p < 0) return -1;
             p = buzzobj_deserialize(&v, buf, p, vm);
             if(p < 0) return -1;
+            /* Make sure the key is valid */
+            if(k->o.type != BUZZTYPE_INT &&
+               k->o.type != BUZZTYPE_FLOAT &&
+               k->o.type != BUZZTYPE_STRING) return -1;
+            /* Elements set to nil are not stored in a table */
+            if(v->o.type == BUZZTYPE_NIL) continue;
             buzzdict_set((*data)->t.value, &k, &v);
          }
          return p;
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 4805e30..1d70833 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -294,12 +294,21 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
       uint16_t rid;
       buzzmsg_payload_t msg;
       buzzinmsg_queue_extract(vm, &rid, &msg);
+      /* Ignore empty messages */
+      if(buzzmsg_payload_size(msg) == 0) {
+         buzzmsg_payload_destroy(&msg);
+         continue;
+      }
       /* Dispatch the message wrt its type in msg->payload[0] */
       switch(buzzmsg_payload_get(msg, 0)) {
          case BUZZMSG_BROADCAST: {
             /* Deserialize the topic */
             buzzobj_t topic;
             int64_t pos = buzzobj_deserialize(&topic, msg, 1, vm);
+            if(pos < 0 || topic->o.type != BUZZTYPE_STRING) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make sure there's a listener to call */
             const buzzobj_t* l = buzzdict_get(vm->listeners, &topic->s.value.sid, buzzobj_t);
             if(!l) {
@@ -309,6 +318,10 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             /* Deserialize value */
             buzzobj_t value;
             pos = buzzobj_deserialize(&value, msg, pos, vm);
+            if(pos < 0) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make an object for the robot id */
             buzzobj_t rido = buzzheap_newobj(vm, BUZZTYPE_INT);
             rido->i.value = rid;
@@ -317,8 +330,8 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             buzzvm_push(vm, topic);
             buzzvm_push(vm, value);
             buzzvm_push(vm, rido);
-            buzzvm_closure_call(vm, 3);
-            buzzvm_pop(vm);
+            if(buzzvm_closure_call(vm, 3) == BUZZVM_STATE_READY)
+               buzzvm_pop(vm);
             break;
          }
          case BUZZMSG_VSTIG_PUT: {
-- 
2.43.0


From ca598f23783cb2b781eeba5f8aca8930f5e5ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:35 +0000
Subject: [PATCH 34/99] fix: closures, tables and userdata are rejected as
 virtual stigmergy keys instead of aborting

---
 src/buzz/buzzvstig.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index a78c0f1..11b2d72 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -126,6 +126,26 @@ void buzzvstig_elem_serialize(buzzmsg_payload_t buf,
 /****************************************/
 /****************************************/
 
+/*
+ * Tables, closures and userdata have no meaning as keys outside of this robot.
+ */
+static int buzzvstig_key_isvalid(const buzzobj_t k) {
+   return
+      k->o.type == BUZZTYPE_NIL   ||
+      k->o.type == BUZZTYPE_INT   ||
+      k->o.type == BUZZTYPE_FLOAT ||
+      k->o.type == BUZZTYPE_STRING;
+}
+
+#define key_assert(K)                                                   \
+   if(!buzzvstig_key_isvalid(K)) {                                      \
+      buzzvm_seterror(vm,                                               \
+                      BUZZVM_ERROR_TYPE,                                \
+                      "a %s value can't be a virtual stigmergy key",    \
+                      buzztype_desc[(K)->o.type]);                      \
+      return vm->state;                                                 \
+   }
+
 int64_t buzzvstig_elem_deserialize(buzzobj_t* key,
                                    buzzvstig_elem_t* data,
                                    buzzmsg_payload_t buf,
@@ -137,6 +157,7 @@ int64_t buzzvstig_elem_deserialize(buzzobj_t* key,
    /* Deserialize the key */
    p = buzzobj_deserialize(key, buf, p, vm);
    if(p < 0) return -1;
+   if(!buzzvstig_key_isvalid(*key)) return -1;
    /* Deserialize the data */
    p = buzzobj_deserialize(&((*data)->data), buf, p, vm);
    if(p < 0) return -1;
@@ -195,6 +216,7 @@ int buzzvstig_put(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   key_assert(k);
    /* Get value */
    buzzvm_lload(vm, 2);
    buzzobj_t v = buzzvm_stack_at(vm, 1);
@@ -312,6 +334,7 @@ int buzzvstig_get(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   key_assert(k);
    /* Look for virtual stigmergy */
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
-- 
2.43.0


From d353760945df494385d0724507bb6a015d2960bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 35/99] fix: swarm select() treats every non-zero condition as
 true

---
 src/buzz/buzzswarm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 996ddd9..9371d27 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -454,7 +454,7 @@ int buzzswarm_select(buzzvm_t vm) {
    /* Get the result of the condition check */
    buzzvm_lload(vm, 1);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
-   uint8_t in = buzzvm_stack_at(vm, 1)->i.value;
+   uint8_t in = (buzzvm_stack_at(vm, 1)->i.value != 0);
    /* Update the swarm, if known */
    if(buzzdict_exists(vm->swarms, &id)) {
       /* Store membership */
-- 
2.43.0


From bca869c4f7ef7d380aacdfe2bbd562c889d1362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:42 +0000
Subject: [PATCH 36/99] fix: swarm.id(n) stays within the swarm stack for any n

---
 src/buzz/buzzswarm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 9371d27..1c6a790 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -315,7 +315,7 @@ int buzzswarm_id(struct buzzvm_s* vm) {
    }
    else {
       /* Take the stack top by default */
-      uint16_t stackpos = 1;
+      int64_t stackpos = 1;
       /* Do we have an argument? */
       if(buzzvm_lnum(vm) > 1) {
          buzzvm_lload(vm, 1);
@@ -323,6 +323,8 @@ int buzzswarm_id(struct buzzvm_s* vm) {
          stackpos = buzzvm_stack_at(vm, 1)->i.value;
       }
       /* Limit stackpos value to avoid out-of-bounds operations */
+      if(stackpos < 1)
+         stackpos = 1;
       if(stackpos > buzzdarray_size(vm->swarmstack))
          stackpos = buzzdarray_size(vm->swarmstack);
       /* Push the swarm id located at stackpos */
-- 
2.43.0


From 5a037723eef6c382fe9ad7498792dffbaa79bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:45 +0000
Subject: [PATCH 37/99] fix: leaving a swarm because of a set operation is
 communicated to the neighbors

---
 src/buzz/buzzswarm.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 1c6a790..65fccae 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -272,6 +272,27 @@ static int make_table(buzzvm_t vm, uint16_t id) {
 /****************************************/
 /****************************************/
 
+/*
+ * Stores the membership to a swarm that results from a set operation.
+ */
+static void set_membership(buzzvm_t vm, uint16_t id, uint8_t v) {
+   /* Was this robot in the swarm? */
+   const uint8_t* x = buzzdict_get(vm->swarms, &id, uint8_t);
+   int wasin = (x && *x);
+   /* Store membership */
+   buzzdict_set(vm->swarms, &id, &v);
+   /* Send update, if necessary */
+   if(v)
+      buzzoutmsg_queue_append_swarm_joinleave(
+         vm, BUZZMSG_SWARM_JOIN, id);
+   else if(wasin)
+      buzzoutmsg_queue_append_swarm_joinleave(
+         vm, BUZZMSG_SWARM_LEAVE, id);
+}
+
+/****************************************/
+/****************************************/
+
 int buzzswarm_register(buzzvm_t vm) {
    /* Add 'swarm' table */
    buzzvm_pushs(vm, buzzvm_string_register(vm, "swarm", 1));
@@ -362,11 +383,7 @@ int buzzswarm_others(buzzvm_t vm) {
    uint16_t id2 = buzzvm_stack_at(vm, 1)->i.value;
    /* Add a new entry for the swarm */
    uint8_t v = *x ? 0 : 1;
-   buzzdict_set(vm->swarms, &id2, &v);
-   /* Send update, if necessary */
-   if(v)
-      buzzoutmsg_queue_append_swarm_joinleave(
-         vm, BUZZMSG_SWARM_JOIN, id2);
+   set_membership(vm, id2, v);
    /* Create a table to return */
    make_table(vm, id2);
    /* Return */
@@ -572,13 +589,9 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
    /* Membership condition */                                     \
    uint8_t v = COND;                                              \
    /* Add a new entry to the swarm list */                        \
-   buzzdict_set(vm->swarms, &id, &v);                             \
+   set_membership(vm, id, v);                                     \
    /* Create a table */                                           \
    make_table(vm, id);                                            \
-   /* Send update, if necessary */                                \
-   if(v)                                                          \
-      buzzoutmsg_queue_append_swarm_joinleave(                    \
-         vm, BUZZMSG_SWARM_JOIN, id);                             \
    /* Return swarm */                                             \
    return buzzvm_ret1(vm);
 
-- 
2.43.0


From 312e06f84402aa6f13f35ed5021b11714ffaf0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:48 +0000
Subject: [PATCH 38/99] fix: executing a C closure with a swarm does not
 execute an unrelated bytecode instruction

---
 src/buzz/buzzswarm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 65fccae..6ec1221 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -525,9 +525,9 @@ int buzzswarm_exec(buzzvm_t vm) {
       buzzvm_push(vm, c);
       int32_t numargs = 0;
       buzzvm_pushi(vm, numargs);
-      buzzvm_calls(vm);
-      do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-      while(stacks < buzzdarray_size(vm->stacks));
+      if(buzzvm_calls(vm) != BUZZVM_STATE_READY) return vm->state;
+      while(stacks < buzzdarray_size(vm->stacks))
+         if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
       return vm->state;
    }
    else {
-- 
2.43.0


From 8fa808b1b604d3fee1bb132325fd29138a37547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:26 +0000
Subject: [PATCH 39/99] fix: string.tostring() of a value that can't be
 converted returns nil instead of garbage

---
 src/buzz/buzzstring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 288dc7e..4929db3 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -152,6 +152,7 @@ int buzzstring_tostring(buzzvm_t vm) {
       o->o.type != BUZZTYPE_FLOAT) {
       /* Can't convert */
       buzzvm_pushnil(vm);
+      return buzzvm_ret1(vm);
    }
    /* Perform conversion */
    char* str;
-- 
2.43.0


From 4a1520c74ac0419de1bffbe9f76df9990f8a401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:29 +0000
Subject: [PATCH 40/99] fix: string.sub() with a negative index does not read
 out of bounds

---
 src/buzz/buzzstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 4929db3..6a9bddb 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -71,7 +71,7 @@ int buzzstring_sub(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t n = buzzvm_stack_at(vm, 1)->i.value;
-   if(n >= ls) {
+   if(n < 0 || n >= ls) {
       /* Out of bounds */
       buzzvm_pushnil(vm);
       return buzzvm_ret1(vm);
-- 
2.43.0


From 88abc58ee44cb9696bac941239256e4404d63d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 41/99] fix: values that can't be serialized are sent as nil
 and keep the message well-formed

---
 src/buzz/buzztype.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index b188819..576974c 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -548,6 +548,14 @@ void buzzobj_serialize_tableelem(const void* key, void* data, void* params) {
 
 void buzzobj_serialize(buzzdarray_t buf,
                        const buzzobj_t data) {
+   if((data->o.type == BUZZTYPE_CLOSURE &&
+       buzzdarray_size(data->c.value.actrec) != 1) ||
+      data->o.type > BUZZTYPE_CLOSURE) {
+      /* Can't serialize the object, send nil to keep the message well-formed */
+      fprintf(stderr, "[TODO] %s:%d Can't serialize an object of type %s\n", __FILE__, __LINE__, buzztype_desc[data->o.type]);
+      buzzmsg_serialize_u8(buf, BUZZTYPE_NIL);
+      return;
+   }
    buzzmsg_serialize_u8(buf, data->o.type);
    switch(data->o.type) {
       case BUZZTYPE_NIL: {
@@ -580,17 +588,10 @@ void buzzobj_serialize(buzzdarray_t buf,
          // closures completely. The only supported cases are
          // serializing a function and the test case in
          // testmobilecode.bzz, which involves a table.
-         if(buzzdarray_size(data->c.value.actrec) == 1) {
-            buzzmsg_serialize_u8(buf, data->c.value.isnative);
-            buzzmsg_serialize_u32(buf, data->c.value.ref);
-         }
-         else {
-            fprintf(stderr, "[TODO] %s:%d: can't serialize a nested closure\n", __FILE__, __LINE__);
-         }
+         buzzmsg_serialize_u8(buf, data->c.value.isnative);
+         buzzmsg_serialize_u32(buf, data->c.value.ref);
          break;
       }
-      default:
-         fprintf(stderr, "[TODO] %s:%d Can't serialize an object of type %s\n", __FILE__, __LINE__, buzztype_desc[data->o.type]);
    }
 }
 
-- 
2.43.0


From 8270707dd725ba71db9a1aa91817740d72e46f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 42/99] fix: tables with 255 elements or more are transmitted
 completely

---
 src/buzz/buzztype.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 576974c..cf83399 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -574,7 +574,15 @@ void buzzobj_serialize(buzzdarray_t buf,
          break;
       }
       case BUZZTYPE_TABLE: {
-         buzzmsg_serialize_u8(buf, buzzdict_size(data->t.value));
+         /* Sizes that don't fit one byte are escaped with 0xFF */
+         uint32_t size = buzzdict_size(data->t.value);
+         if(size < 0xFF) {
+            buzzmsg_serialize_u8(buf, size);
+         }
+         else {
+            buzzmsg_serialize_u8(buf, 0xFF);
+            buzzmsg_serialize_u32(buf, size);
+         }
          buzzdict_foreach(data->t.value, buzzobj_serialize_tableelem, buf);
          break;
       }
@@ -631,10 +639,16 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
          return p;
       }
       case BUZZTYPE_TABLE: {
-         uint8_t size;
-         uint16_t i;
-         p = buzzmsg_deserialize_u8(&size, buf, p);
+         uint8_t size8;
+         uint32_t size, i;
+         p = buzzmsg_deserialize_u8(&size8, buf, p);
          if(p < 0) return -1;
+         size = size8;
+         /* Sizes that don't fit one byte are escaped with 0xFF */
+         if(size8 == 0xFF) {
+            p = buzzmsg_deserialize_u32(&size, buf, p);
+            if(p < 0) return -1;
+         }
          for(i = 0; i < size; ++i) {
             buzzobj_t k;
             buzzobj_t v;
-- 
2.43.0


From 98351476297fd242558569d85aeb4242a324079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:48 +0000
Subject: [PATCH 43/99] fix: strings of 65536 characters or more don't corrupt
 the message

---
 src/buzz/buzzmsg.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzmsg.c b/src/buzz/buzzmsg.c
index 640c9aa..7b96023 100644
--- a/src/buzz/buzzmsg.c
+++ b/src/buzz/buzzmsg.c
@@ -168,9 +168,16 @@ int64_t buzzmsg_deserialize_float(float* data,
 void buzzmsg_serialize_string(buzzdarray_t buf,
                               const char* data) {
    /* Get the length of the string */
-   uint16_t len = strlen(data);
+   uint32_t len = strlen(data);
    /* Push that into the buffer */
-   buzzmsg_serialize_u16(buf, len);
+   if(len < 0xFFFF) {
+      buzzmsg_serialize_u16(buf, len);
+   }
+   else {
+      /* Lengths that don't fit two bytes are escaped with 0xFFFF */
+      buzzmsg_serialize_u16(buf, 0xFFFF);
+      buzzmsg_serialize_u32(buf, len);
+   }
    /* Go through the characters and push them into the buffer */
    const char* c = data;
    while(*c) {
@@ -188,10 +195,16 @@ int64_t buzzmsg_deserialize_string(char** data,
    /* Make sure there are enough bytes to read the string length */
    if(pos + sizeof(uint16_t) > buzzdarray_size(buf)) return -1;
    /* Read the string length */
-   uint16_t len;
-   pos = buzzmsg_deserialize_u16(&len, buf, pos);
+   uint16_t len16;
+   pos = buzzmsg_deserialize_u16(&len16, buf, pos);
+   uint32_t len = len16;
+   /* Lengths that don't fit two bytes are escaped with 0xFFFF */
+   if(len16 == 0xFFFF) {
+      if(pos + sizeof(uint32_t) > buzzdarray_size(buf)) return -1;
+      pos = buzzmsg_deserialize_u32(&len, buf, pos);
+   }
    /* Make sure there are enough bytes to read the string itself */   
-   if(pos + len > buzzdarray_size(buf)) return -1;
+   if((uint64_t)pos + len > buzzdarray_size(buf)) return -1;
    /* Create a buffer for the string */
    *data = (char*)malloc(len * sizeof(char) + 1);
    /* Read the string characters */
-- 
2.43.0


From c2dac2fa117267ff7d76fa547c1247d8c8be260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:51 +0000
Subject: [PATCH 44/99] fix: infinity and not-a-number are transmitted as such

---
 src/buzz/buzzmsg.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmsg.c b/src/buzz/buzzmsg.c
index 7b96023..c243a57 100644
--- a/src/buzz/buzzmsg.c
+++ b/src/buzz/buzzmsg.c
@@ -99,7 +99,12 @@ void buzzmsg_serialize_float(buzzdarray_t buf,
    /* Take the magnitude of nf and translate it by -0.5 */
    nf = fabsf(nf) - 0.5f;
    /* Now we can safely test for zero */
-   if(nf < 0.0f) {
+   if(isnan(data) || isinf(data)) {
+      /* Not a finite number: zero mantissa, and the exponent tells which one */
+      mant = 0;
+      exp = isnan(data) ? 3 : (data > 0.0f ? 1 : 2);
+   }
+   else if(nf < 0.0f) {
       /* The mantissa is zero */
       mant = 0;
    }
@@ -138,7 +143,13 @@ int64_t buzzmsg_deserialize_float(float* data,
    pos = buzzmsg_deserialize_u32((uint32_t*)(&exp), buf, pos);
    /* A zero mantissa corresponds to a zero float */
    if(mant == 0) {
-      *data = 0;
+      switch(exp) {
+         /* Not finite numbers have a special exponent */
+         case 1:  *data =  INFINITY; break;
+         case 2:  *data = -INFINITY; break;
+         case 3:  *data =  NAN;      break;
+         default: *data = 0;
+      }
    }
    else {
       /* We must calculate the float
-- 
2.43.0


From eac0ffbf0109df5adaf1e86c678fa144e79a81c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:21 +0000
Subject: [PATCH 45/99] fix: swarm.id(n) looks at its argument

---
 src/buzz/buzzswarm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 6ec1221..c38aa9c 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -338,7 +338,7 @@ int buzzswarm_id(struct buzzvm_s* vm) {
       /* Take the stack top by default */
       int64_t stackpos = 1;
       /* Do we have an argument? */
-      if(buzzvm_lnum(vm) > 1) {
+      if(buzzvm_lnum(vm) > 0) {
          buzzvm_lload(vm, 1);
          buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
          stackpos = buzzvm_stack_at(vm, 1)->i.value;
-- 
2.43.0


From de45f49303d9eef62f17d5151151cf6728cea7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:57 +0000
Subject: [PATCH 46/99] fix: math.rng.exponential() reads its argument

---
 src/buzz/buzzmath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index e2f3337..b731e61 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -653,6 +653,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
 int buzzmath_rng_exponential(buzzvm_t vm) {
    /* Get the mean */
    buzzvm_lnum_assert(vm, 1);
+   buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    float mean;
    if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
-- 
2.43.0


From 33d61330994812934a6eb3b739baffd587731295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:01 +0000
Subject: [PATCH 47/99] fix: math.rng.gaussian() accepts one argument and takes
 the mean from the second

---
 src/buzz/buzzmath.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index b731e61..51f9d7f 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -608,7 +608,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
       }
       if(buzzvm_lnum(vm) == 2) {
          /* Take second argument */
-         buzzvm_lload(vm, 1);
+         buzzvm_lload(vm, 2);
          o = buzzvm_stack_at(vm, 1);
          if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
          else if(o->o.type == BUZZTYPE_INT) mean = o->i.value;
@@ -622,7 +622,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
             return vm->state;
          }
       }
-      else {
+      else if(buzzvm_lnum(vm) > 2) {
          /* Error */
          buzzvm_seterror(vm,
                          BUZZVM_ERROR_LNUM,
-- 
2.43.0


From ef237daeb871255174a284b89c496bafb36b0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:05 +0000
Subject: [PATCH 48/99] fix: math.rng.uniform() stays within its bounds for
 negative, wide and large ranges

---
 src/buzz/buzzmath.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 51f9d7f..a00f606 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -489,6 +489,22 @@ int buzzmath_rng_setseed(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/* Draws an integer between a and b */
+static int32_t mt_uniform_int(buzzvm_t vm,
+                              int64_t a,
+                              int64_t b) {
+   uint64_t span = a <= b ? b - a : a - b;
+   int64_t offset = (uint64_t)mt_uniform32(vm) * span / INT_MAX;
+   return a <= b ? a + offset : a - offset;
+}
+
+/* Draws a float between a and b */
+static float mt_uniform_float(buzzvm_t vm,
+                              double a,
+                              double b) {
+   return (double)mt_uniform32(vm) / INT_MAX * (b - a) + a;
+}
+
 int buzzmath_rng_uniform(buzzvm_t vm) {
    /*
     * - No arguments: return value in [-int_max,int_max]
@@ -516,12 +532,12 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
       if(max->o.type == BUZZTYPE_INT) {
          /* Integer value */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * max->i.value / INT_MAX);
+                      mt_uniform_int(vm, 0, max->i.value));
       }
       else if(max->o.type == BUZZTYPE_FLOAT) {
          /* Float value */
          buzzvm_pushf(vm,
-                      mt_uniform32(vm) * max->f.value / INT_MAX);
+                      mt_uniform_float(vm, 0.0, max->f.value));
       }
       else buzzmath_error(max);
    }
@@ -535,25 +551,25 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
          max->o.type == BUZZTYPE_INT) {
          /* Both integers */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->i.value - min->i.value) / INT_MAX + min->i.value);
+                      mt_uniform_int(vm, min->i.value, max->i.value));
       }
       else if(min->o.type == BUZZTYPE_FLOAT &&
               max->o.type == BUZZTYPE_INT) {
          /* Min is float, max is integer */
          buzzvm_pushf(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->i.value - min->f.value) / INT_MAX + min->f.value);
+                      mt_uniform_float(vm, min->f.value, max->i.value));
       }
       else if(min->o.type == BUZZTYPE_INT &&
               max->o.type == BUZZTYPE_FLOAT) {
          /* Min is integer, max is integer float */
          buzzvm_pushf(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->f.value - min->i.value) / INT_MAX + min->i.value);
+                      mt_uniform_float(vm, min->i.value, max->f.value));
       }
       else if(min->o.type == BUZZTYPE_FLOAT &&
               max->o.type == BUZZTYPE_FLOAT) {
          /* Both float */
          buzzvm_pushf(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->f.value - min->f.value) / INT_MAX + min->f.value);
+                      mt_uniform_float(vm, min->f.value, max->f.value));
       }
       else {
          /* Error */
-- 
2.43.0


From 2ffbd659b58b600b98d9b5960096f912a76a275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:59 +0000
Subject: [PATCH 49/99] fix: buzzset_remove() destroys the removed element
 only, and frees it

---
 src/buzz/buzzset.c | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/buzz/buzzset.c b/src/buzz/buzzset.c
index 5126bc2..5dfcc72 100644
--- a/src/buzz/buzzset.c
+++ b/src/buzz/buzzset.c
@@ -112,33 +112,25 @@ static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
    else {
       /* We found the node to remove */
       *removed = 1;
-      /* Get rid of the data */
-      if(s->dstryf) s->dstryf(n->data, NULL);
-      /* If the node has no children, simply remove it */
-      if(!n->left && !n->right) {
-         free(n);
-         n = NULL;
-      }
-      /* If the element has one child, put the child in place of this
-       * tree, and remove the tree */
-      else if(!n->right) {
-         buzzset_tree_t x = n;
-         n = n->left;
-         free(x);
-      }
-      else if(!n->left) {
-         buzzset_tree_t x = n;
-         n = n->right;
-         free(x);
-      }
-      /* Both children exist for this node */
-      else {
+      if(n->left && n->right) {
+         /* Both children exist for this node */
          /* Look for the minimum id on the right of the node to eliminate */
          buzzset_tree_t m = buzzset_tree_find_min(n->right);
-         /* Copy its value over the current root */
+         /* Swap its value with the current root's */
+         void* d = n->data;
          n->data = m->data;
+         m->data = d;
          /* Delete the minimum node */
-         n->right = buzzset_tree_remove(s, n->right, m->data, removed);
+         n->right = buzzset_tree_remove(s, n->right, d, removed);
+      }
+      else {
+         /* Put the only child (if any) in place of this tree, and
+          * remove the tree */
+         buzzset_tree_t x = n;
+         n = n->left ? n->left : n->right;
+         if(s->dstryf) s->dstryf(x->data, NULL);
+         free(x->data);
+         free(x);
       }
    }
    return n;
-- 
2.43.0


From 5bb2e4a27d8142645098dac60c65140d511f251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:01 +0000
Subject: [PATCH 50/99] fix: inserting past the end of a dynamic array appends
 one element

---
 src/buzz/buzzdarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdarray.c b/src/buzz/buzzdarray.c
index 65bc57d..db5c51b 100644
--- a/src/buzz/buzzdarray.c
+++ b/src/buzz/buzzdarray.c
@@ -116,7 +116,7 @@ void* buzzdarray_makeslot(buzzdarray_t da,
    /* Increase size */
    ++(da->size);
    /* Return pointer to the slot */
-   return buzzdarray_rawget(da, pos);
+   return buzzdarray_rawget(da, i);
 }
 
 /****************************************/
@@ -128,7 +128,7 @@ void buzzdarray_insert(buzzdarray_t da,
    /* Create the slot */
    void* slot = buzzdarray_makeslot(da, pos);
    /* Add element at the specified position */
-   if(slot != NULL) buzzdarray_set(da, pos, data);
+   if(slot != NULL) memcpy(slot, data, da->elem_size);
 }
 
 /****************************************/
-- 
2.43.0


From 2e369249aab9c3a25165406e91260678a292447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:03 +0000
Subject: [PATCH 51/99] fix: a dynamic array made from an empty buffer can grow

---
 src/buzz/buzzdarray.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzdarray.c b/src/buzz/buzzdarray.c
index db5c51b..0baa745 100644
--- a/src/buzz/buzzdarray.c
+++ b/src/buzz/buzzdarray.c
@@ -60,13 +60,13 @@ buzzdarray_t buzzdarray_frombuffer(const void* buf,
    /* Create the dynamic array. calloc() zeroes everything. */
    buzzdarray_t da = (buzzdarray_t)calloc(1, sizeof(struct buzzdarray_s));
    /* Set info */
-   da->capacity = buf_size / elem_size;
+   da->size = buf_size / elem_size;
+   da->capacity = da->size > 0 ? da->size : 1;
    da->elem_size = elem_size;
    da->elem_destroy = elem_destroy ? elem_destroy : buzzdarray_elem_destroy;
-   da->size = da->capacity;
    /* Create initial data */
-   da->data = malloc(buf_size);
-   memcpy(da->data, buf, buf_size);
+   da->data = malloc(da->capacity * elem_size);
+   memcpy(da->data, buf, da->size * elem_size);
    /* Done */
    return da;
 }
-- 
2.43.0


From a7dd1e51499725246ddb702caab9001283582541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:26 +0000
Subject: [PATCH 52/99] fix: messages still to be processed are freed with the
 virtual machine

---
 src/buzz/buzzinmsg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 4649d16..6bdac15 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -10,6 +10,12 @@
 
 void buzzvm_inmsg_queue_destroy_entry(const void* key, void* data, void* param) {
    free((void*)key);
+   /* Get rid of the messages that were not processed */
+   buzzdarray_t q = *(buzzdarray_t*)data;
+   for(uint32_t i = 0; i < buzzdarray_size(q); ++i) {
+      buzzmsg_payload_t msg = buzzdarray_get(q, i, buzzmsg_payload_t);
+      buzzmsg_payload_destroy(&msg);
+   }
    buzzdarray_destroy((buzzdarray_t*)data);
    free(data);
 }
-- 
2.43.0


From ff8b92c807ac4c2aefb8533c5bf5f2ca443b9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:27 +0000
Subject: [PATCH 53/99] fix: swarm messages with no swarms are freed completely

---
 src/buzz/buzzoutmsg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index 54e3f5d..81f1d36 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -68,7 +68,7 @@ void buzzoutmsg_destroy(uint32_t pos, void* data, void* params) {
       case BUZZMSG_SWARM_JOIN:
       case BUZZMSG_SWARM_LEAVE:
       case BUZZMSG_SWARM_LIST:
-         if(m->sw.size > 0) free(m->sw.ids);
+         free(m->sw.ids);
          break;
       case BUZZMSG_VSTIG_PUT:
       case BUZZMSG_VSTIG_QUERY:
-- 
2.43.0


From e2c5192c0a45ba92dfec765107f042849e34f979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:36 +0000
Subject: [PATCH 54/99] fix: io.fforeach() goes through all the lines of a file

---
 src/buzz/buzzio.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index e1d6a1f..34ae363 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -172,11 +172,10 @@ int buzzio_fforeach(buzzvm_t vm) {
       buzzvm_pushs(vm, buzzvm_string_register(vm, line, 0));
       /* Call closure */
       vmstate = buzzvm_closure_call(vm, 1);
+      /* Remove the return value left by closure_call */
       buzzvm_pop(vm);
       /* Next line */
       len = getline(&line, &cap, f);
-      /* Remove the nil (return value) left by closure_call */
-      buzzvm_pop(vm);
    }
    /* Register error information */
    buzzio_update_error(vm);
-- 
2.43.0


From ada4aa31891cd3e32486165e40401b82c62a6950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:38 +0000
Subject: [PATCH 55/99] fix: io functions stop with an error on tables that are
 not open files

---
 src/buzz/buzzio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 34ae363..bf1e5eb 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -17,6 +17,7 @@
    buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);                 \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1)); \
    buzzvm_tget(vm);                                           \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_USERDATA);              \
    FILE* VAR = buzzvm_stack_at(vm, 1)->u.value;               \
    buzzvm_pop(vm);
 
@@ -117,6 +118,11 @@ int buzzio_fclose(buzzvm_t vm) {
    filehandle_get(f);
    /* Close the file */
    fclose(f);
+   /* The handle can't be used anymore */
+   buzzvm_lload(vm, 1);
+   buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1));
+   buzzvm_pushnil(vm);
+   buzzvm_tput(vm);
    /* Register error information */
    buzzio_update_error(vm);
    /* All done */
-- 
2.43.0


From dcf3182ea6ff733e1a21a9109cf3212cf30cf227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 56/99] fix: io.errno refers to the last io operation

---
 src/buzz/buzzio.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index bf1e5eb..fff8abf 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -19,7 +19,8 @@
    buzzvm_tget(vm);                                           \
    buzzvm_type_assert(vm, 1, BUZZTYPE_USERDATA);              \
    FILE* VAR = buzzvm_stack_at(vm, 1)->u.value;               \
-   buzzvm_pop(vm);
+   buzzvm_pop(vm);                                            \
+   errno = 0;
 
 /****************************************/
 /****************************************/
@@ -81,6 +82,7 @@ int buzzio_fopen(buzzvm_t vm) {
    const char* fmode = buzzvm_stack_at(vm, 1)->s.value.str;
    buzzvm_pop(vm);
    /* Try to open the file */
+   errno = 0;
    FILE* f = fopen(fname, fmode);
    /* Register error information */
    buzzio_update_error(vm);
-- 
2.43.0


From 0b70b16adf7bb58d9eacf4fd50e63cd5016329a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:41 +0000
Subject: [PATCH 57/99] fix: string.toint() returns nil for values that are not
 Buzz integers

---
 src/buzz/buzzstring.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 6a9bddb..86a4b5d 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -179,10 +179,11 @@ int buzzstring_toint(buzzvm_t vm) {
    /* Convert the string to int */
    char* endptr;
    errno = 0;
-   int32_t i = strtol(s, &endptr, 10);
+   long int i = strtol(s, &endptr, 10);
    /* Was the conversion successful? */
-   if((errno != 0 && i == 0) || /* An error occurred */
-      (endptr == s)) {          /* No digit found */
+   if(errno != 0 ||                     /* An error occurred */
+      (endptr == s) ||                  /* No digit found */
+      i < INT32_MIN || i > INT32_MAX) { /* Not a Buzz integer */
       /* Yes, an error occurred */
       buzzvm_pushnil(vm);
    }
-- 
2.43.0


From 6e3bc2a6e6ac26f6ff0be7c25aff47e17057dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:02 +0000
Subject: [PATCH 58/99] fix: swarm methods called on something else than a
 swarm stop with an error

---
 src/buzz/buzzswarm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index c38aa9c..a3e3442 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -14,8 +14,10 @@
 
 #define id_get()                                          \
    buzzvm_lload(vm, 0);                                   \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);             \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1)); \
    buzzvm_tget(vm);                                       \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);               \
    uint16_t id = buzzvm_stack_at(vm, 1)->i.value;
 
 /****************************************/
@@ -366,8 +368,10 @@ int buzzswarm_others(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get the id of the current swarm */
    buzzvm_lload(vm, 0);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1));
    buzzvm_tget(vm);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    uint16_t id1 = buzzvm_stack_at(vm, 1)->i.value;
    /* Get the swarm entry */
    const uint8_t* x = buzzdict_get(vm->swarms, &id1, uint8_t);
-- 
2.43.0


From 71e8cc6484aec62d760a324ad157597584df97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:04 +0000
Subject: [PATCH 59/99] fix: stigmergy methods called on something else than a
 stigmergy stop with an error

---
 src/buzz/buzzvstig.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 11b2d72..df717c0 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -15,8 +15,10 @@
 
 #define id_get()                                          \
    buzzvm_lload(vm, 0);                                   \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);             \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1)); \
    buzzvm_tget(vm);                                       \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);               \
    uint16_t id = buzzvm_stack_at(vm, 1)->i.value;
 
 #define add_field(FIELD, VAL, METHOD)                       \
-- 
2.43.0


From ef9d440ed10c8cbe83eef227396da2f4abdec68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:05 +0000
Subject: [PATCH 60/99] fix: neighbors methods called on something else than
 neighbors don't read invalid data

---
 src/buzz/buzzneighbors.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index b8d07e6..3355a84 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -290,6 +290,7 @@ int buzzneighbors_nonkin(buzzvm_t vm) {
    if(swarmid >= 0) {
       /* Get the self table */
       buzzvm_lload(vm, 0);
+      buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
       /* Get the data table */
       buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
       buzzvm_tget(vm);
@@ -320,6 +321,7 @@ int buzzneighbors_get(struct buzzvm_s* vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get self table */
    buzzvm_lload(vm, 0);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
    /* Get data field */
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
@@ -361,6 +363,7 @@ int buzzneighbors_foreach(struct buzzvm_s* vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get self table */
    buzzvm_lload(vm, 0);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
    /* Get data field */
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
@@ -498,6 +501,7 @@ int buzzneighbors_reduce(struct buzzvm_s* vm) {
    buzzvm_lnum_assert(vm, 2);
    /* Get self table */
    buzzvm_lload(vm, 0);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
    /* Get data field */
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
@@ -614,12 +618,13 @@ int buzzneighbors_count(struct buzzvm_s* vm) {
    buzzvm_lnum_assert(vm, 0);
    /* Get self table */
    buzzvm_lload(vm, 0);
+   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
    /* Get data field */
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
    int32_t count = 0;
-   if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_NIL) {
-      count = buzzdarray_size(buzzvm_stack_at(vm, 1)->t.value);
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_TABLE) {
+      count = buzzdict_size(buzzvm_stack_at(vm, 1)->t.value);
    }
    buzzvm_pushi(vm, count);
    return buzzvm_ret1(vm);
-- 
2.43.0


From 5f72818cff8f07f427fa0494eb992204d63cfacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:44 +0000
Subject: [PATCH 61/99] fix: swarm set operations on something else than a
 table have no effect

---
 src/buzz/buzzswarm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index a3e3442..bb3219f 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -585,11 +585,11 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
    /* Swarm 1: must be a table with id = existing swarm */        \
    buzzvm_lload(vm, 2);                                           \
    int s1 = buzzswarm_check(vm);                                  \
-   if(s1 < 0) return vm->state;                                   \
+   if(vm->state != BUZZVM_STATE_READY) return vm->state;          \
    /* Swarm 2: must be a table with id = existing swarm */        \
    buzzvm_lload(vm, 3);                                           \
    int s2 = buzzswarm_check(vm);                                  \
-   if(s2 < 0) return vm->state;                                   \
+   if(vm->state != BUZZVM_STATE_READY) return vm->state;          \
    /* Membership condition */                                     \
    uint8_t v = COND;                                              \
    /* Add a new entry to the swarm list */                        \
-- 
2.43.0


From 4aa57d8dc2d2458e24286bd97fe062fd14ecd1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:03 +0000
Subject: [PATCH 62/99] fix: the global symbol table is keyed by 16-bit string
 ids

---
 src/buzz/buzzvm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 1d70833..80bc65f 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -550,10 +550,10 @@ buzzvm_t buzzvm_new(uint16_t robot) {
    vm->lsyms = NULL;
    /* Create global variable tables */
    vm->gsyms = buzzdict_new(BUZZVM_SYMS_INIT_CAPACITY,
-                            sizeof(int32_t),
+                            sizeof(uint16_t),
                             sizeof(buzzobj_t),
-                            buzzdict_int32keyhash,
-                            buzzdict_int32keycmp,
+                            buzzdict_uint16keyhash,
+                            buzzdict_uint16keycmp,
                             NULL);
    /* Create string list */
    vm->strings = buzzstrman_new();
-- 
2.43.0


From 172e23596a6a9281acf41f5e7329a3cb41cbe957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:40 +0000
Subject: [PATCH 63/99] fix: the assembler frees its label tables

---
 src/buzz/buzzasm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 3c2a185..8157cab 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -93,10 +93,14 @@
 
 void strkeydstryf(const void* key, void* data, void* params) {
    free(*(char**)key);
+   free((void*)key);
+   free(data);
 }
 
 void strdatadstryf(const void* key, void* data, void* params) {
    free(*(char**)data);
+   free((void*)key);
+   free(data);
 }
 
 /****************************************/
-- 
2.43.0


From 37bd60443422556d40199743edf48f6c7a47dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:36 +0000
Subject: [PATCH 64/99] fix: the error message is freed with the virtual
 machine

---
 src/buzz/buzzvm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 80bc65f..2b172fd 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -605,6 +605,8 @@ buzzvm_t buzzvm_new(uint16_t robot) {
 /****************************************/
 
 void buzzvm_destroy(buzzvm_t* vm) {
+   /* Get rid of the error message */
+   free((*vm)->errormsg);
    /* Get rid of the rng state */
    free((*vm)->rngstate);
    /* Get rid of the stack */
-- 
2.43.0


From 2f92cf624bc90a4cf7fe20ba62bd40660b71fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:38 +0000
Subject: [PATCH 65/99] fix: do not overflow the path buffer when searching
 BUZZ_INCLUDE_PATH

---
 src/buzz/buzzlex.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 0a9202b..f4ce122 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -39,19 +39,14 @@ buzzlex_file_t buzzlex_file_new(const char* fname) {
       while(dir && !fd) {
          /* Make sure it's not an empty field */
          if(dir[0] != '\0') {
-            /* fpath = dir */
-            strncpy(fpath, dir, PATH_MAX-1);
-            fpath[PATH_MAX-1] = '\0';
-            /* Add / at the end if missing */
-            if(fpath[strlen(fpath)-1] != '/') {
-               strncat(fpath, "/", PATH_MAX-1);
-               fpath[PATH_MAX-1] = '\0';
-            }
-            /* fpath += fname */
-            strncat(fpath, fname, PATH_MAX-1);
-            fpath[PATH_MAX-1] = '\0';
-            /* Try to open the file */
-            fd = fopen(fpath, "rb");
+            /* fpath = dir + / (if missing) + fname */
+            int fplen = snprintf(fpath, PATH_MAX, "%s%s%s",
+                                 dir,
+                                 dir[strlen(dir)-1] != '/' ? "/" : "",
+                                 fname);
+            /* Try to open the file, unless its path is too long */
+            if(fplen < PATH_MAX)
+               fd = fopen(fpath, "rb");
          }
          /* Get next dir */
          dir = strsep(&curpath, ":");
-- 
2.43.0


From f54b8024188f9eb6fa39d3c1f75d21ad90dba640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:40 +0000
Subject: [PATCH 66/99] fix: identifiers that start with 'include' are
 identifiers

---
 src/buzz/buzzlex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index f4ce122..bce1dee 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -303,7 +303,8 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
             ++lexf->cur_c;
          }
       }
-      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0) {
+      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0 &&
+              !buzzlex_isid(lexf->buf[lexf->cur_c + 7])) {
          /* Manage file inclusion */
          lexf->cur_c += 7;
          lexf->cur_col += 7;
-- 
2.43.0


From a9941fa512eae250b876a8d3ab1ae2732b1fb7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:01 +0000
Subject: [PATCH 67/99] fix: line numbers after a string that spans several
 lines

---
 src/buzz/buzzlex.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index bce1dee..4b0f194 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -556,6 +556,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    else if(buzzlex_isquote(c)) {
       /* String - eat any character until you find the next matching quote */
       size_t start = lexf->cur_c;
+      uint64_t startline = lexf->cur_line;
       while(lexf->cur_c < lexf->buf_size &&    /* Not end of stream */
             lexf->buf[lexf->cur_c] != c) {     /* Matching quote not found */
          /* A backslash protects the next character */
@@ -563,6 +564,11 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
             lexf->cur_c + 1 < lexf->buf_size) {
             nextchar();
          }
+         /* Count the lines the string spans */
+         if(lexf->buf[lexf->cur_c] == '\n') {
+            ++lexf->cur_line;
+            lexf->cur_col = -1;
+         }
          /* Keep parsing the string */
          nextchar();
       }
@@ -571,7 +577,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
          fprintf(stderr,
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: string closing quote not found\n",
                  lexf->fname,
-                 lexf->cur_line,
+                 startline,
                  tokstart);
          return eoftok;
       }
@@ -581,7 +587,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
       nextchar();
       return buzzlex_newtok(BUZZTOK_STRING,
                             val,
-                            lexf->cur_line,
+                            startline,
                             tokstart,
                             lexf->fname);
    }
-- 
2.43.0


From b9de9cebecbba51995d0397269a73f9dee17a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:19 +0000
Subject: [PATCH 68/99] fix: long script names when reading debug information

---
 src/buzz/buzzdebug.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 8f98e22..605e5a5 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -120,7 +120,8 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
    /* Keep reading until you reach the end of the data or an error */
    uint32_t offset;
    uint64_t line, col;
-   uint16_t srcfnlen, srcfnlenmax = 512;
+   uint16_t srcfnlen;
+   uint32_t srcfnlenmax = 512;
    char* srcfname = (char*)malloc(srcfnlenmax);
    /* char fepmark; */
    while(!feof(fd) && !ferror(fd)) {
@@ -130,8 +131,8 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
          fread(&col,      sizeof(col),      1, fd) == 1 &&
          fread(&srcfnlen, sizeof(srcfnlen), 1, fd) == 1) {
          /* Read source file name, resizing buffer if necessary */
-         if(srcfnlen > srcfnlenmax) {
-            srcfnlenmax = srcfnlen + 1;
+         if(srcfnlen >= srcfnlenmax) {
+            srcfnlenmax = (uint32_t)srcfnlen + 1;
             srcfname = realloc(srcfname, srcfnlenmax);
          }
          if(fread(srcfname, 1, srcfnlen, fd) == srcfnlen) {
-- 
2.43.0


From b99c4109fb2aa23822cdffe6cd7bada1f0ea956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:20 +0000
Subject: [PATCH 69/99] fix: buzzdebug_tofile() returns 1 when it succeeds, as
 documented

---
 src/buzz/buzzdebug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 605e5a5..8b7d2db 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -188,8 +188,8 @@ int buzzdebug_tofile(const char* fname,
    };
    buzzdict_foreach(dbg->off2script, buzzdebug_entry_dump, &i);
    /* Close file */
-   fclose(fd);
-   return i.ok ? 0 : 1;
+   if(fclose(fd) != 0) i.ok = 0;
+   return i.ok;
 }
 
 /****************************************/
-- 
2.43.0


From 506aacc892ed01b852b68cb4968cdf8168bad2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:21 +0000
Subject: [PATCH 70/99] fix: buzzdebug_continue() goes on after a breakpoint
 and keeps the final state

---
 src/buzz/buzzdebug.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 8b7d2db..d6ac70e 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -284,14 +284,18 @@ buzzvm_state buzzdebug_continue(buzzvm_t vm,
                                 buzzdebug_t dbg) {
    /* Make sure the VM is either ready or stopped */
    if(vm->state != BUZZVM_STATE_READY) {
-      if(vm->state == BUZZVM_STATE_STOPPED)
+      if(vm->state == BUZZVM_STATE_STOPPED) {
+         /* Leave the breakpoint the VM stopped at */
          vm->state = BUZZVM_STATE_READY;
+         if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
+      }
       else return vm->state;
    }
    /* Go on until the end, an error, or a breakpoint */
    while(!buzzdebug_breakpoint_exists(dbg, vm->pc) &&
          buzzvm_step(vm) == BUZZVM_STATE_READY);
-   if(buzzdebug_breakpoint_exists(dbg, vm->pc))
+   if(vm->state == BUZZVM_STATE_READY &&
+      buzzdebug_breakpoint_exists(dbg, vm->pc))
       vm->state = BUZZVM_STATE_STOPPED;
    return vm->state;
 }
-- 
2.43.0


From 8ff4de83b16dc91a8f14b19d1cc2241e09543e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:22 +0000
Subject: [PATCH 71/99] fix: debug information of scripts whose path contains ,
 or |

---
 src/buzz/buzzasm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 8157cab..3ac9dc9 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -234,13 +234,13 @@ int buzz_asm(const char* fname,
       if(*trimline == '@') {
          /* Parse label and debug info */
          char* labelinfo = strsep(&trimline, "|\n");
-         char* debuginfo = strsep(&trimline, "|\n");
+         char* debuginfo = strsep(&trimline, "\n");
          /* Add debug information, if any */
          if(debuginfo && *debuginfo) {
             /* Parse line and column data */
             char* line = strsep(&debuginfo, ",\n");
             char* col = strsep(&debuginfo, ",\n");
-            char* srcfname = strsep(&debuginfo, ",\n");
+            char* srcfname = strsep(&debuginfo, "\n");
             if(srcfname) {
                uint64_t l = 0;
                uint64_t c = 0;
@@ -260,7 +260,7 @@ int buzz_asm(const char* fname,
       }
       /* Fetch the instruction */
       char* instrinfo = strsep(&trimline, "|\n");
-      char* debuginfo = strsep(&trimline, "|\n");
+      char* debuginfo = strsep(&trimline, "\n");
       char* instr = strsep(&instrinfo, " \n\t");
       char* argstr = strsep(&instrinfo, " \n\t");
       /* Add debug information, if any */
@@ -268,7 +268,7 @@ int buzz_asm(const char* fname,
          /* Parse line and column data */
          char* line = strsep(&debuginfo, ",\n");
          char* col = strsep(&debuginfo, ",\n");
-         char* srcfname = strsep(&debuginfo, ",\n");
+         char* srcfname = strsep(&debuginfo, "\n");
          if(srcfname) {
             uint64_t l = 0;
             uint64_t c = 0;
-- 
2.43.0


From c14a0632c129e2380b4503840ececca76e142371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:24 +0000
Subject: [PATCH 72/99] fix: assembling a last line without newline,
 deassembling an empty file

---
 src/buzz/buzzasm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 3ac9dc9..f9f394a 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -209,7 +209,7 @@ int buzz_asm(const char* fname,
       /* Is the line a string? */
       if(*trimline == '\'') {
          ++trimline;
-         trimline[strlen(trimline)-1] = 0;
+         trimline[strcspn(trimline, "\n")] = 0;
          string_unescape(trimline);
          size_t l = strlen(trimline) + 1;
          bcode_resize(l);
@@ -383,6 +383,11 @@ int buzz_deasm(const uint8_t* buf,
     */
    /* Fetch and print the string count */
    uint16_t count;
+   if(size < sizeof(uint16_t)) {
+      fprintf(stderr, "ERROR: %s: not enough bytes in bytecode for the string count\n", fname);
+      fclose(fd);
+      return 2;
+   }
    memcpy(&count, buf, sizeof(uint16_t));
    fprintf(fd, "!%u\n", count);
    /* Go through the strings and print them */
-- 
2.43.0


From 05c37e540f51eb4f430b0c34f80ea697dc15b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:59 +0000
Subject: [PATCH 73/99] fix: dumping a stack that holds a table containing
 itself

---
 src/buzz/buzzdebug.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index d6ac70e..913f6b0 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -366,41 +366,54 @@ buzzvm_state buzzdebug_function_call(buzzvm_t vm,
 /****************************************/
 /****************************************/
 
-static void buzzdebug_print_obj(FILE* stream,
-                                buzzobj_t o,
-                                buzzvm_t vm);
-
 struct buzzdebug_print_table_params_s {
    FILE* stream;
    buzzvm_t vm;
+   /* The table being printed */
+   buzzdict_t table;
+   /* The data of the enclosing table, or NULL */
+   const struct buzzdebug_print_table_params_s* outer;
 };
 
+static void buzzdebug_print_obj(FILE* stream,
+                                buzzobj_t o,
+                                buzzvm_t vm,
+                                const struct buzzdebug_print_table_params_s* outer);
+
 static void buzzdebug_print_table_elem(const void* key,
                                        void* data,
                                        void* params) {
    struct buzzdebug_print_table_params_s* p =
       (struct buzzdebug_print_table_params_s*)params;
    fprintf(p->stream, "\t\t\t");
-   buzzdebug_print_obj(p->stream, *(buzzobj_t*)key, p->vm);
+   buzzdebug_print_obj(p->stream, *(buzzobj_t*)key, p->vm, p);
    fprintf(p->stream, " -> ");
-   buzzdebug_print_obj(p->stream, *(buzzobj_t*)data, p->vm);
+   buzzdebug_print_obj(p->stream, *(buzzobj_t*)data, p->vm, p);
    fprintf(p->stream, "\n");
 }
 
 static void buzzdebug_print_table(FILE* stream,
                                   buzzdict_t t,
-                                  buzzvm_t vm) {
+                                  buzzvm_t vm,
+                                  const struct buzzdebug_print_table_params_s* outer) {
    fprintf(stream, "[table] %" PRIu32 " elements\n", buzzdict_size(t));
+   /* Don't enter a table that contains itself again */
+   for(const struct buzzdebug_print_table_params_s* p = outer; p; p = p->outer) {
+      if(p->table == t) return;
+   }
    struct buzzdebug_print_table_params_s params = {
       .stream = stream,
-      .vm = vm
+      .vm = vm,
+      .table = t,
+      .outer = outer
    };
    buzzdict_foreach(t, buzzdebug_print_table_elem, &params);
 }
 
 void buzzdebug_print_obj(FILE* stream,
                          buzzobj_t o,
-                         buzzvm_t vm) {
+                         buzzvm_t vm,
+                         const struct buzzdebug_print_table_params_s* outer) {
    switch(o->o.type) {
       case BUZZTYPE_NIL:
          fprintf(stream, "[nil]");
@@ -412,7 +425,7 @@ void buzzdebug_print_obj(FILE* stream,
          fprintf(stream, "[float] %f", o->f.value);
          break;
       case BUZZTYPE_TABLE:
-         buzzdebug_print_table(stream, o->t.value, vm);
+         buzzdebug_print_table(stream, o->t.value, vm, outer);
          break;
       case BUZZTYPE_CLOSURE:
          if(o->c.value.isnative)
@@ -446,7 +459,7 @@ void buzzdebug_stack_dump(buzzvm_t vm,
    for(i = buzzdarray_size(s)-1; i >= 0; --i) {
       fprintf(stream, "\t%" PRIu64 "\t", i);
       buzzobj_t o = buzzdarray_get(s, i, buzzobj_t);
-      buzzdebug_print_obj(stream, o, vm);
+      buzzdebug_print_obj(stream, o, vm, NULL);
       fprintf(stream, "\n");
    }
    fprintf(stream, "============================================================\n\n");
-- 
2.43.0


From 6404da01fa4dcce4e2ae5166cf148f717db23b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:00 +0000
Subject: [PATCH 74/99] fix: dumping a stack does not leak

---
 src/buzz/buzzdebug.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 913f6b0..d5ea433 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -447,15 +447,17 @@ void buzzdebug_stack_dump(buzzvm_t vm,
    int64_t i;
    buzzdarray_t s = buzzdarray_get(vm->stacks, vm->stacks->size - idx, buzzdarray_t);
    char* curinstr = NULL;
-   if(!buzz_instruction_deasm(vm->bcode, vm->oldpc, &curinstr)) curinstr = "deasm error";
+   if(!buzz_instruction_deasm(vm->bcode, vm->oldpc, &curinstr)) curinstr = strdup("deasm error");
    char* nextinstr = NULL;
-   if(!buzz_instruction_deasm(vm->bcode, vm->pc, &nextinstr)) nextinstr = "deasm error";
+   if(!buzz_instruction_deasm(vm->bcode, vm->pc, &nextinstr)) nextinstr = strdup("deasm error");
    fprintf(stream, "============================================================\n");
    fprintf(stream, "state: %s\terror: %d\n", buzzvm_state_desc[vm->state], vm->error);
    fprintf(stream, "code size: %u\toldpc: %d\tpc: %d\n", vm->bcode_size, vm->oldpc, vm->pc);
    fprintf(stream, "stacks: %" PRIu64 "\tcur: %u\n", buzzdarray_size(vm->stacks), idx);
    fprintf(stream, "cur instr: %s\n", curinstr);
    fprintf(stream, "next instr: %s\n", nextinstr);
+   free(curinstr);
+   free(nextinstr);
    for(i = buzzdarray_size(s)-1; i >= 0; --i) {
       fprintf(stream, "\t%" PRIu64 "\t", i);
       buzzobj_t o = buzzdarray_get(s, i, buzzobj_t);
-- 
2.43.0


From 2d8c53345a851413b89b5efe5ca3da69e0916cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:28 +0000
Subject: [PATCH 75/99] fix: the tools stop when they cannot read or write
 their files

---
 src/buzz/buzzasm_main.c   | 15 ++++++++++++---
 src/buzz/buzzdeasm_main.c | 10 ++++++++--
 src/buzz/buzzrun.c        |  6 +++++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzasm_main.c b/src/buzz/buzzasm_main.c
index 80332bc..f7e4f75 100644
--- a/src/buzz/buzzasm_main.c
+++ b/src/buzz/buzzasm_main.c
@@ -16,7 +16,10 @@ int main(int argc, char** argv) {
    int of = open(argv[2],
                  O_WRONLY | O_CREAT | O_TRUNC,
                  S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
-   if(of < 0) perror(argv[2]);
+   if(of < 0) {
+      perror(argv[2]);
+      return 1;
+   }
    /* Parse script */
    uint8_t* bcode_buf;
    uint32_t bcode_size;
@@ -29,10 +32,16 @@ int main(int argc, char** argv) {
    size_t tot = 0;
    while(tot < bcode_size) {
       written = write(of, bcode_buf + tot, bcode_size - tot);
-      if(written < 0) perror(argv[2]);
+      if(written < 0) {
+         perror(argv[2]);
+         return 1;
+      }
       tot += written;
    }
-   buzzdebug_tofile(argv[3], dbg);
+   if(!buzzdebug_tofile(argv[3], dbg)) {
+      perror(argv[3]);
+      return 1;
+   }
    /* Cleanup */
    free(bcode_buf);
    buzzdebug_destroy(&dbg);
diff --git a/src/buzz/buzzdeasm_main.c b/src/buzz/buzzdeasm_main.c
index 10416fc..a026ffb 100644
--- a/src/buzz/buzzdeasm_main.c
+++ b/src/buzz/buzzdeasm_main.c
@@ -16,7 +16,10 @@ int main(int argc, char** argv) {
    }
    /* Open bytecode file */
    int ifd = open(argv[1], O_RDONLY);
-   if(ifd < 0) perror(argv[1]);
+   if(ifd < 0) {
+      perror(argv[1]);
+      return 1;
+   }
    /* Read data */
    size_t bcode_size = lseek(ifd, 0, SEEK_END);
    lseek(ifd, 0, SEEK_SET);
@@ -25,7 +28,10 @@ int main(int argc, char** argv) {
    size_t tot = 0;
    while(tot < bcode_size) {
       rd = read(ifd, bcode_buf + tot, bcode_size - tot);
-      if(rd < 0) perror(argv[1]);
+      if(rd <= 0) {
+         perror(argv[1]);
+         return 1;
+      }
       tot += rd;
    }
    close(ifd);
diff --git a/src/buzz/buzzrun.c b/src/buzz/buzzrun.c
index 2455043..c531c5a 100644
--- a/src/buzz/buzzrun.c
+++ b/src/buzz/buzzrun.c
@@ -70,13 +70,17 @@ int main(int argc, char** argv) {
    }
    /* Read bytecode and fill in data structure */
    FILE* fd = fopen(bcfname, "rb");
-   if(!fd) perror(bcfname);
+   if(!fd) {
+      perror(bcfname);
+      return 1;
+   }
    fseek(fd, 0, SEEK_END);
    size_t bcode_size = ftell(fd);
    rewind(fd);
    uint8_t* bcode_buf = (uint8_t*)malloc(bcode_size);
    if(fread(bcode_buf, 1, bcode_size, fd) < bcode_size) {
       perror(bcfname);
+      return 1;
    }
    fclose(fd);
    /* Read debug information */
-- 
2.43.0


From 8479adf1cbf476437faaebd519b959d9b6ee13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:52 +0000
Subject: [PATCH 76/99] fix: run-time errors are located on the failing
 statement, not on the next one

---
 src/buzz/buzzparser.c | 20 ++++++++++++++++----
 src/buzz/buzzparser.h |  2 ++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 143c526..4987230 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -279,10 +279,15 @@ void chunk_finalize(chunk_t c) {
    c->code[c->csize] = 0;
 }
 
+/*
+ * The debug information of an instruction is the position of the last
+ * token read for it: par->tok is the lookahead, which might belong to
+ * the next statement
+ */
 #define chunk_append(...) {                         \
       char* str;                                    \
       asprintf(&str, ##__VA_ARGS__);                \
-      chunk_addcode(par->chunk, str, par->tok);     \
+      chunk_addcode(par->chunk, str, par->prevtok); \
       free(str);                                    \
    }
 
@@ -340,7 +345,7 @@ void chunk_print(uint32_t pos, void* data, void* params) {
       char* str;                                                                     \
       struct chunk_s tmpchunk = {.code = tmpcode, .csize = tmpsize, .ccap = tmpcap}; \
       asprintf(&str, ##__VA_ARGS__);                                                 \
-      chunk_addcode(&tmpchunk, str, par->tok);                                       \
+      chunk_addcode(&tmpchunk, str, par->prevtok);                                   \
       free(str);                                                                     \
       tmpcode = tmpchunk.code;                                                       \
       tmpsize = tmpchunk.csize;                                                      \
@@ -352,10 +357,13 @@ void chunk_print(uint32_t pos, void* data, void* params) {
 
 #define fetchtok()                                                      \
    {                                                                    \
-      do {                                                              \
+      if(par->prevtok) buzzlex_destroytok(&par->prevtok);               \
+      par->prevtok = par->tok;                                          \
+      par->tok = buzzlex_nexttok(par->lex);                             \
+      while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND) { \
          buzzlex_destroytok(&par->tok);                                 \
          par->tok = buzzlex_nexttok(par->lex);                          \
-      } while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND); \
+      }                                                                 \
    }
 
 /* The file to mention in an error message: at the end of the script the lexer has no current file */
@@ -1400,6 +1408,9 @@ buzzparser_t buzzparser_new(int argc,
       free(par);
       return NULL;
    }
+   /* Initialize tokens */
+   par->tok = NULL;
+   par->prevtok = NULL;
    /* Initialize label counter */
    par->labels = 0;
    /* Initialize chunk list */
@@ -1455,6 +1466,7 @@ void buzzparser_destroy(buzzparser_t* par) {
    free((*par)->scriptfn);
    buzzlex_destroy(&((*par)->lex));
    if((*par)->tok) buzzlex_destroytok(&((*par)->tok));
+   if((*par)->prevtok) buzzlex_destroytok(&((*par)->prevtok));
    free(*par);
    *par = NULL;
 }
diff --git a/src/buzz/buzzparser.h b/src/buzz/buzzparser.h
index b546293..92c0e86 100644
--- a/src/buzz/buzzparser.h
+++ b/src/buzz/buzzparser.h
@@ -29,6 +29,8 @@ extern "C" {
       buzzlex_t lex;
       /* The last fetched token */
       buzztok_t tok;
+      /* The token before the last fetched one, NULL at the beginning */
+      buzztok_t prevtok;
       /* The list of chunks */
       buzzdarray_t chunks;
       /* The current chunk being written */
-- 
2.43.0


From f4c54eb5a6d6c1bf10d1e1989c2c6a75f0484fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:40 +0000
Subject: [PATCH 77/99] fix: arrows run every function of the sequence, in
 order

---
 src/include/arrows.bzz | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/include/arrows.bzz b/src/include/arrows.bzz
index d779f4f..ab17f2e 100644
--- a/src/include/arrows.bzz
+++ b/src/include/arrows.bzz
@@ -23,13 +23,17 @@ arrows = {}
 # RETURN: A new arrow
 #
 arrows.wrap = function(f) {
-  return {
+  var a = {
     .f = f,
-    .next = function(f) {
-      self.n = arrows.wrap(f)
+    .next = function(g) {
+      self.n = arrows.wrap(g)
+      # Remember where the sequence starts
+      self.n.first = self.first
       return self.n
     }
   }
+  a.first = a
+  return a
 }
 
 #
@@ -44,7 +48,7 @@ arrows.begin = arrows.wrap
 # PARAM a: The arrow
 #
 arrows.run = function(a) {
-  var cur = a
+  var cur = a.first
   cur.f()
   cur = cur.n
   while(cur) {
-- 
2.43.0


From 7a1d39d10ece8d801e5ed24f8a58009eeb83b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:52 +0000
Subject: [PATCH 78/99] fix: the compiler tells which script it cannot find

---
 src/buzz/buzzlex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 4b0f194..68355d0 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -29,6 +29,7 @@ buzzlex_file_t buzzlex_file_new(const char* fname) {
    if(!fd) {
       /* Get the include path from the environment, if present */
       if(!getenv("BUZZ_INCLUDE_PATH")) {
+         fprintf(stderr, "Can't find file '%s'\n", fname);
          return NULL;
       }
       /* Fetch the directories in the include path */
-- 
2.43.0


From 3b8f579c43bf8da0c6922842bf701bda02a0bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:53 +0000
Subject: [PATCH 79/99] fix: the compiler and disassembler report output that
 cannot be written

---
 src/buzz/buzzasm.c    | 8 ++++++--
 src/buzz/buzzparser.c | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index f9f394a..0cf8673 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -447,8 +447,12 @@ int buzz_deasm(const uint8_t* buf,
       /* Newline */
       fprintf(fd, "\n");
    }
-   /* Close file */
-   fclose(fd);
+   /* Close file, making sure everything was written */
+   int err = ferror(fd);
+   if(fclose(fd) != 0 || err) {
+      perror(fname);
+      return 1;
+   }
    return 0;
 }
 
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 4987230..972312c 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1495,6 +1495,11 @@ int buzzparser_parse(buzzparser_t par) {
    fprintf(par->asmstream, "\tnop\n");
    /* Write actual chunks */
    buzzdarray_foreach(par->chunks, chunk_print, par->asmstream);
+   /* Make sure everything was written */
+   if(fflush(par->asmstream) != 0 || ferror(par->asmstream)) {
+      perror(par->asmfn);
+      return PARSE_ERROR;
+   }
    return PARSE_OK;
 }
 
-- 
2.43.0


From a18000a9f0771a928b16ec56e5374d7d1f04490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:20 +0000
Subject: [PATCH 80/99] fix: bzzc removes its temporary file on errors and
 keeps blanks in file names

---
 src/utility/bzzc.in | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/bzzc.in b/src/utility/bzzc.in
index f06af7c..bbb5f7e 100755
--- a/src/utility/bzzc.in
+++ b/src/utility/bzzc.in
@@ -120,17 +120,17 @@ if [[ -z $BASM ]]; then
     BASM=$(mktemp bzz.XXXXXX)
 fi
 if [[ -z $BO ]]; then
-    BO="$(echo $BZZ | rev | cut -d. -f 2- | rev).bo"
+    BO="$(echo "$BZZ" | rev | cut -d. -f 2- | rev).bo"
 fi
 if [[ -z $BDB ]]; then
-    BDB="$(echo $BZZ | rev | cut -d. -f 2- | rev).bdb"
+    BDB="$(echo "$BZZ" | rev | cut -d. -f 2- | rev).bdb"
 fi
 
 #
 # Compilation
 #
-$BZZPARSE "$BZZ" "$BASM" && $BZZASM "$BASM" "$BO" "$BDB"
-RETVAL=$?
+RETVAL=0
+{ $BZZPARSE "$BZZ" "$BASM" && $BZZASM "$BASM" "$BO" "$BDB"; } || RETVAL=$?
 if [[ "${KEEPBASM}" = "n" ]]; then
     rm -f "$BASM"
 fi
-- 
2.43.0


From 6ad571b0b86aacd8cc1e3dc1026e07f8de39b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:11 +0000
Subject: [PATCH 81/99] fix: truncated bytecode is refused instead of read past
 its end

---
 src/buzz/buzzvm.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 2b172fd..f339568 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -678,17 +678,23 @@ int buzzvm_set_bcode(buzzvm_t vm,
                      const uint8_t* bcode,
                      uint32_t bcode_size) {
    /* Fetch the string count */
-   uint16_t count;
-   memcpy(&count, bcode, sizeof(uint16_t));
+   uint16_t count = 0;
+   if(bcode_size >= sizeof(uint16_t))
+      memcpy(&count, bcode, sizeof(uint16_t));
    /* Go through the strings and store them */
    uint32_t i = sizeof(uint16_t);
    long int c = 0;
    for(; (c < count) && (i < bcode_size); ++c) {
-      /* Store string */
-      buzzvm_string_register(vm, (char*)(bcode + i), 1);
-      /* Advance to first character of next string */
-      while(*(bcode + i) != 0) ++i;
-      ++i;
+      /* Look for the end of the string */
+      const uint8_t* end = (const uint8_t*)memchr(bcode + i, 0, bcode_size - i);
+      /* The bytecode is truncated if there is none */
+      if(!end) i = bcode_size;
+      else {
+         /* Store string */
+         buzzvm_string_register(vm, (char*)(bcode + i), 1);
+         /* Advance to first character of next string */
+         i = (end - bcode) + 1;
+      }
    }
    /* Initialize VM state */
    vm->state = BUZZVM_STATE_READY;
@@ -703,6 +709,10 @@ int buzzvm_set_bcode(buzzvm_t vm,
     * Register function definitions
     * Stop when you find a 'nop'
     */
+   if(vm->pc < 0 || vm->pc >= vm->bcode_size) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_PC, NULL);
+      return vm->state;
+   }
    while(vm->bcode[vm->pc] != BUZZVM_INSTR_NOP)
       if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    buzzvm_step(vm);
-- 
2.43.0


From 568a1e4f60c2f9f846d69af27619a7c9df1e4d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:05 +0000
Subject: [PATCH 82/99] fix: calls with a negative number of arguments,
 function id or address end in an error

---
 src/buzz/buzzvm.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index f339568..283c34d 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -754,6 +754,7 @@ buzzvm_state buzzvm_step(buzzvm_t vm) {
    /* Execute GC */
    buzzheap_gc(vm);
    /* Fetch instruction and (potential) argument */
+   assert_pc(vm->pc);
    uint8_t instr = vm->bcode[vm->pc];
    /* Execute instruction */
    switch(instr) {
@@ -1131,13 +1132,17 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
    int32_t argn = buzzvm_stack_at(vm, 1)->i.value;
    buzzvm_pop(vm);
    /* Make sure the stack has enough elements */
-   buzzvm_stack_assert(vm, argn+1);
+   if(argn < 0 || argn >= buzzvm_stack_top(vm)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "wrong number of arguments %" PRId32, argn);
+      return vm->state;
+   }
    /* Make sure the closure is where expected */
    buzzvm_type_assert(vm, argn+1, BUZZTYPE_CLOSURE);
    buzzobj_t c = buzzvm_stack_at(vm, argn+1);
    /* Make sure that that data about C closures is correct */
    if((!c->c.value.isnative) &&
-      ((c->c.value.ref) >= buzzdarray_size(vm->flist))) {
+      (c->c.value.ref < 0 ||
+       c->c.value.ref >= buzzdarray_size(vm->flist))) {
       buzzvm_seterror(vm, BUZZVM_ERROR_FLIST, NULL);
       return vm->state;
    }
-- 
2.43.0


From d6ad2a58c0648ad88e27a0f82400633b64866325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:35 +0000
Subject: [PATCH 83/99] fix: buzzobj_getuserdata() refers to an existing member

---
 src/buzz/buzztype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index ae594ad..2963d07 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -282,6 +282,6 @@ extern "C" {
 #define buzzobj_getint(OBJ) ((OBJ)->i.value)
 #define buzzobj_getfloat(OBJ) ((OBJ)->f.value)
 #define buzzobj_getstring(OBJ) ((OBJ)->s.value.str)
-#define buzzobj_getuserdata(OBJ) ((OBJ)->y.value)
+#define buzzobj_getuserdata(OBJ) ((OBJ)->u.value)
 
 #endif
-- 
2.43.0


From 481267029c513ef2dc3643af1afeecae32168ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:48 +0000
Subject: [PATCH 84/99] fix: lexer diagnostics show the column of the
 character, not the one before

---
 src/buzz/buzzlex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 68355d0..53d4f54 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -579,7 +579,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: string closing quote not found\n",
                  lexf->fname,
                  startline,
-                 tokstart);
+                 tokstart + 1);
          return eoftok;
       }
       /* We have a valid string */
@@ -598,7 +598,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: unknown character '%c' (octal: %o; hex: %x)\n",
               lexf->fname,
               lexf->cur_line,
-              tokstart,
+              tokstart + 1,
               c, c, c);
       return eoftok;
    }
-- 
2.43.0


From e11374e6e16b88d9383af185e2f91d385dd63ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:05 +0000
Subject: [PATCH 85/99] fix: an error in a callback is not replaced by a stack
 error while the iteration unwinds

---
 src/buzz/buzzio.c | 5 +++++
 src/buzz/buzzvm.c | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index fff8abf..1f03235 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -180,6 +180,11 @@ int buzzio_fforeach(buzzvm_t vm) {
       buzzvm_pushs(vm, buzzvm_string_register(vm, line, 0));
       /* Call closure */
       vmstate = buzzvm_closure_call(vm, 1);
+      /* Stop at the first error */
+      if(vmstate != BUZZVM_STATE_READY) {
+         free(line);
+         return vmstate;
+      }
       /* Remove the return value left by closure_call */
       buzzvm_pop(vm);
       /* Next line */
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 283c34d..30811c5 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1403,6 +1403,8 @@ buzzvm_state buzzvm_gstore(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret0(buzzvm_t vm) {
+   /* A failed call does not return: keep the original error */
+   if(vm->state == BUZZVM_STATE_ERROR) return vm->state;
    /* Returning makes sense only within a function call */
    if(buzzdarray_size(vm->stacks) < 2) {
       buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
@@ -1438,6 +1440,8 @@ buzzvm_state buzzvm_ret0(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret1(buzzvm_t vm) {
+   /* A failed call does not return: keep the original error */
+   if(vm->state == BUZZVM_STATE_ERROR) return vm->state;
    /* Returning makes sense only within a function call */
    if(buzzdarray_size(vm->stacks) < 2) {
       buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
-- 
2.43.0


From a9aa17bc3b99b5cd6629a700537dd89dbe1b0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:40 +0000
Subject: [PATCH 86/99] fix: entries can be changed and removed while going
 through a dictionary

A closure passed to foreach(), map(), filter() or reduce(), or to their
stigmergy and neighbors counterparts, that removed the entry at hand crashed
the virtual machine; assigning to it made the iteration skip other entries.
---
 src/buzz/buzzdict.c      | 55 ++++++++++++++++++++++++++++------------
 src/buzz/buzzdict.h      |  1 +
 src/buzz/buzzneighbors.c | 22 ++++++++++++----
 src/buzz/buzztype.c      | 21 +++++++++++----
 4 files changed, 73 insertions(+), 26 deletions(-)

diff --git a/src/buzz/buzzdict.c b/src/buzz/buzzdict.c
index acefe98..170f5b2 100644
--- a/src/buzz/buzzdict.c
+++ b/src/buzz/buzzdict.c
@@ -17,6 +17,17 @@ struct buzzdict_entry_s {
    e.data = malloc(dt->data_size);              \
    memcpy(e.data, d, dt->data_size);
 
+/*
+ * The state of an iteration.
+ * It is updated when entries are removed during the iteration.
+ */
+struct buzzdict_iter_s {
+   uint32_t bucket; /* Current bucket */
+   uint32_t next;   /* Next entry to visit in the bucket */
+   uint32_t end;    /* One past the last entry to visit in the bucket */
+   struct buzzdict_iter_s* outer; /* Enclosing iteration, if any */
+};
+
 void buzzdict_entry_destroy(const void* key, void* data, void* params) {
    free((void*)key);
    free(data);
@@ -109,19 +120,18 @@ void buzzdict_set(buzzdict_t dt,
    }
    else {
       /* Bucket not empty - is the entry present? */
+      buzzdict_entry_new(dt, e, key, data);
       uint32_t i;
       for(i = 0; i < buzzdarray_size(dt->buckets[h]); ++i) {
-         const struct buzzdict_entry_s* e = &buzzdarray_get(dt->buckets[h], i, struct buzzdict_entry_s);
-         if(dt->keycmpf(key, e->key) == 0) {
-            /* Yes, destroy the entry */
-            dt->dstryf(e->key, e->data, dt);
-            buzzdarray_remove(dt->buckets[h], i);
-            --(dt->size);
-            break;
+         const struct buzzdict_entry_s old = buzzdarray_get(dt->buckets[h], i, struct buzzdict_entry_s);
+         if(dt->keycmpf(key, old.key) == 0) {
+            /* Yes, put the new entry in its place and destroy it */
+            buzzdarray_set(dt->buckets[h], i, &e);
+            dt->dstryf(old.key, old.data, dt);
+            return;
          }
       }
       /* Add new entry */
-      buzzdict_entry_new(dt, e, key, data);
       buzzdarray_push(dt->buckets[h], &e);
       /* Increase size */
       ++(dt->size);
@@ -144,6 +154,14 @@ int buzzdict_remove(buzzdict_t dt,
          /* Entry found - remove it */
          dt->dstryf(e->key, e->data, dt);
          buzzdarray_remove(dt->buckets[h], i);
+         /* Tell the iterations under way */
+         struct buzzdict_iter_s* it;
+         for(it = dt->iters; it; it = it->outer) {
+            if(it->bucket == h && i < it->end) {
+               if(i < it->next) --(it->next);
+               --(it->end);
+            }
+         }
          /* Is the entry list empty? If so, free the memory */
          if(buzzdarray_isempty(dt->buckets[h]))
             buzzdarray_destroy(&(dt->buckets[h]));
@@ -164,17 +182,22 @@ void buzzdict_foreach(buzzdict_t dt,
                       buzzdict_elem_funp fun,
                       void* params) {
    /* Go through buckets */
-   uint32_t i, j;
-   for(i = 0; i < dt->num_buckets; ++i) {
+   struct buzzdict_iter_s it = { .outer = dt->iters };
+   dt->iters = &it;
+   for(it.bucket = 0; it.bucket < dt->num_buckets; ++(it.bucket)) {
+      it.next = 0;
+      it.end = 0;
       /* Is the bucket used? */
-      if(dt->buckets[i] != NULL) {
-         /* Go through elements in the bucket */
-         for(j = 0; j < buzzdarray_size(dt->buckets[i]); ++j) {
-            const struct buzzdict_entry_s* e = &buzzdarray_get(dt->buckets[i], j, struct buzzdict_entry_s);
-            fun(e->key, e->data, params);
-         }
+      if(dt->buckets[it.bucket] != NULL)
+         it.end = buzzdarray_size(dt->buckets[it.bucket]);
+      /* Go through elements in the bucket */
+      while(it.next < it.end) {
+         const struct buzzdict_entry_s e = buzzdarray_get(dt->buckets[it.bucket], it.next, struct buzzdict_entry_s);
+         ++(it.next);
+         fun(e.key, e.data, params);
       }
    }
+   dt->iters = it.outer;
 }
 
 /****************************************/
diff --git a/src/buzz/buzzdict.h b/src/buzz/buzzdict.h
index a6dbc3b..77aabc4 100644
--- a/src/buzz/buzzdict.h
+++ b/src/buzz/buzzdict.h
@@ -53,6 +53,7 @@ extern "C" {
       buzzdict_elem_funp dstryf; // Element destroy function
       uint32_t key_size;         // Key size in bytes
       uint32_t data_size;        // Data size in bytes
+      struct buzzdict_iter_s* iters; // Iterations under way
    };
    typedef struct buzzdict_s* buzzdict_t;
 
diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index 3355a84..60b564f 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -398,12 +398,16 @@ void neighbor_map_each(const void* key, void* data, void* params) {
    struct neighbor_map_each_s* d = (struct neighbor_map_each_s*)params;
    if(d->vm->state != BUZZVM_STATE_READY) return;
    buzzobj_t rid = *(buzzobj_t*)key;
+   buzzobj_t pose = *(buzzobj_t*)data;
+   /* The closure can change the neighbors: keep the entry alive */
+   buzzvm_push(d->vm, rid);
+   buzzvm_push(d->vm, pose);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(d->vm);
    /* Push closure and params (key, value) */
    buzzvm_push(d->vm, d->closure);
    buzzvm_push(d->vm, rid);
-   buzzvm_push(d->vm, *(buzzobj_t*)data);
+   buzzvm_push(d->vm, pose);
    /* Call closure */
    d->vm->state = buzzvm_closure_call(d->vm, 2);
    if(d->vm->state != BUZZVM_STATE_READY) return;
@@ -418,7 +422,9 @@ void neighbor_map_each(const void* key, void* data, void* params) {
    /* Add entry to the return table */
    buzzobj_t retval = buzzvm_stack_at(d->vm, 1);
    buzzdict_set(d->result, &rid, &retval);
-   /* Get rid of return value */
+   /* Get rid of return value and entry */
+   buzzvm_pop(d->vm);
+   buzzvm_pop(d->vm);
    buzzvm_pop(d->vm);
 }
 
@@ -543,12 +549,16 @@ void neighbor_filter_each(const void* key, void* data, void* params) {
    struct neighbor_filter_each_s* d = (struct neighbor_filter_each_s*)params;
    if(d->vm->state != BUZZVM_STATE_READY) return;
    buzzobj_t rid = *(buzzobj_t*)key;
+   buzzobj_t pose = *(buzzobj_t*)data;
+   /* The closure can change the neighbors: keep the entry alive */
+   buzzvm_push(d->vm, rid);
+   buzzvm_push(d->vm, pose);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(d->vm);
    /* Push closure and params (key, value) */
    buzzvm_push(d->vm, d->closure);
    buzzvm_push(d->vm, rid);
-   buzzvm_push(d->vm, *(buzzobj_t*)data);
+   buzzvm_push(d->vm, pose);
    /* Call closure */
    d->vm->state = buzzvm_closure_call(d->vm, 2);
    if(d->vm->state != BUZZVM_STATE_READY) return;
@@ -565,9 +575,11 @@ void neighbor_filter_each(const void* key, void* data, void* params) {
    if(retval->o.type != BUZZTYPE_NIL &&
       (retval->o.type != BUZZTYPE_INT ||
        retval->i.value != 0)) {
-      buzzdict_set(d->result, &rid, data);
+      buzzdict_set(d->result, &rid, &pose);
    }
-   /* Get rid of return value */
+   /* Get rid of return value and entry */
+   buzzvm_pop(d->vm);
+   buzzvm_pop(d->vm);
    buzzvm_pop(d->vm);
 }
 
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index cf83399..d6ffa25 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -365,6 +365,9 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_map_params* p = (struct buzzobj_map_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* The closure can remove the entry: keep the key alive */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzvm_push(p->vm, k);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
@@ -385,12 +388,13 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Manage return value */
    buzzobj_t r = buzzvm_stack_at(p->vm, 1);
    if(r->o.type != BUZZTYPE_NIL) {
-      buzzdict_set(p->result, key, &r);
+      buzzdict_set(p->result, &k, &r);
    }
    else {
-      buzzdict_remove(p->result, key);
+      buzzdict_remove(p->result, &k);
    }
-   /* Get rid of return value */
+   /* Get rid of return value and key */
+   buzzvm_pop(p->vm);
    buzzvm_pop(p->vm);
 }
 
@@ -485,6 +489,11 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_filter_params* p = (struct buzzobj_filter_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* The closure can change the entry: keep key and value alive */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzobj_t v = *(buzzobj_t*)data;
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, v);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
@@ -507,9 +516,11 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    if(retval->o.type != BUZZTYPE_NIL &&
       (retval->o.type != BUZZTYPE_INT ||
        retval->i.value != 0)) {
-      buzzdict_set(p->result, key, data);
+      buzzdict_set(p->result, &k, &v);
    }
-   /* Get rid of return value */
+   /* Get rid of return value, value and key */
+   buzzvm_pop(p->vm);
+   buzzvm_pop(p->vm);
    buzzvm_pop(p->vm);
 }
 
-- 
2.43.0


From 15cee299cc05b46a6dcacdf557430b53874d73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:15 +0000
Subject: [PATCH 87/99] fix: garbage collection of deeply nested data does not
 exhaust the C stack

---
 src/buzz/buzzheap.c | 31 ++++++++++++++++++++++---------
 src/buzz/buzzheap.h |  2 ++
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzheap.c b/src/buzz/buzzheap.c
index f8b65f0..c5cbd52 100644
--- a/src/buzz/buzzheap.c
+++ b/src/buzz/buzzheap.c
@@ -24,6 +24,8 @@ buzzheap_t buzzheap_new() {
    h->max_objs = BUZZHEAP_GC_INIT_MAXOBJS;
    /* Initialize the marker */
    h->marker = 0;
+   /* Create list of objects to go through while marking */
+   h->tomark = buzzdarray_new(10, sizeof(buzzobj_t), NULL);
    /* All done */
    return h;
 }
@@ -34,6 +36,8 @@ buzzheap_t buzzheap_new() {
 void buzzheap_destroy(buzzheap_t* h) {
    /* Get rid of object list */
    buzzdarray_destroy(&((*h)->objs));
+   /* Get rid of list of objects to go through while marking */
+   buzzdarray_destroy(&((*h)->tomark));
    /* Get rid of heap state */
    free(*h);
    /* Set heap to NULL */
@@ -135,15 +139,11 @@ void buzzheap_obj_mark(buzzobj_t o,
    if(o->o.marker == vm->heap->marker) return;
    /* Update marker */
    o->o.marker = vm->heap->marker;
-   /* Take care of composite types */
-   if(o->o.type == BUZZTYPE_TABLE)
-      buzzdict_foreach(o->t.value,
-                       buzzheap_dictobj_mark,
-                       vm);
-   else if(o->o.type == BUZZTYPE_CLOSURE)
-      buzzdarray_foreach(o->c.value.actrec,
-                         buzzheap_darrayobj_mark,
-                         vm);
+   /* Composite types are taken care of later, to
+    * avoid recurring as deep as the data is nested */
+   if(o->o.type == BUZZTYPE_TABLE ||
+      o->o.type == BUZZTYPE_CLOSURE)
+      buzzdarray_push(vm->heap->tomark, &o);
    else if(o->o.type == BUZZTYPE_STRING)
       buzzstrman_gc_mark(vm->strings,
                          o->s.value.sid);
@@ -215,6 +215,19 @@ void buzzheap_gc(struct buzzvm_s* vm) {
    buzzdict_foreach(vm->listeners, buzzheap_listener_mark, vm);
    /* Go through all the objects in the out message queue and mark them */
    buzzoutmsg_gc(vm);
+   /* Go through the content of the objects found so far and mark it */
+   while(!buzzdarray_isempty(h->tomark)) {
+      buzzobj_t o = buzzdarray_last(h->tomark, buzzobj_t);
+      buzzdarray_pop(h->tomark);
+      if(o->o.type == BUZZTYPE_TABLE)
+         buzzdict_foreach(o->t.value,
+                          buzzheap_dictobj_mark,
+                          vm);
+      else
+         buzzdarray_foreach(o->c.value.actrec,
+                            buzzheap_darrayobj_mark,
+                            vm);
+   }
    /* Go through all the objects in the object list and delete the unmarked ones */
    int64_t i = buzzdarray_size(h->objs) - 1;
    while(i >= 0) {
diff --git a/src/buzz/buzzheap.h b/src/buzz/buzzheap.h
index 7bbf95f..e6d5c4e 100644
--- a/src/buzz/buzzheap.h
+++ b/src/buzz/buzzheap.h
@@ -23,6 +23,8 @@ extern "C" {
       uint32_t max_objs;
       /* Current marker for garbage collection */
       uint16_t marker;
+      /* The marked objects whose content must still be marked */
+      buzzdarray_t tomark;
    };
    typedef struct buzzheap_s* buzzheap_t;
 
-- 
2.43.0


From c2733e1cd2163ac6cf3d31262387d9ed2cccc5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:15 +0000
Subject: [PATCH 88/99] fix: tables that contain themselves can be cloned and
 sent

Both recurred until the C stack was exhausted. The clone of such a table
contains itself in turn; in a message, the inner occurrence is sent as nil,
as any other value that can't be serialized.
---
 src/buzz/buzzheap.c | 33 ++++++++++++++++++++++++++++-----
 src/buzz/buzztype.c | 40 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzheap.c b/src/buzz/buzzheap.c
index c5cbd52..be03b70 100644
--- a/src/buzz/buzzheap.c
+++ b/src/buzz/buzzheap.c
@@ -64,17 +64,38 @@ buzzobj_t buzzheap_newobj(buzzvm_t vm,
 
 struct buzzheap_clone_tableelem_s {
    buzzvm_t vm;
-   buzzdict_t t;
+   /* The table being cloned */
+   buzzdict_t orig;
+   /* Its clone */
+   buzzobj_t clone;
+   /* The data of the enclosing table, or NULL */
+   const struct buzzheap_clone_tableelem_s* outer;
 };
 
+static buzzobj_t buzzheap_clone_nested(buzzvm_t vm,
+                                       const buzzobj_t o,
+                                       const struct buzzheap_clone_tableelem_s* outer);
+
 void buzzheap_clone_tableelem(const void* key, void* data, void* params) {
    struct buzzheap_clone_tableelem_s* p = (struct buzzheap_clone_tableelem_s*)params;
-   buzzobj_t k = buzzheap_clone(p->vm, *(buzzobj_t*)key);
-   buzzobj_t d = buzzheap_clone(p->vm, *(buzzobj_t*)data);
-   buzzdict_set(p->t, &k, &d);
+   buzzobj_t k = buzzheap_clone_nested(p->vm, *(buzzobj_t*)key, p);
+   buzzobj_t d = buzzheap_clone_nested(p->vm, *(buzzobj_t*)data, p);
+   buzzdict_set(p->clone->t.value, &k, &d);
 }
 
 buzzobj_t buzzheap_clone(buzzvm_t vm, const buzzobj_t o) {
+   return buzzheap_clone_nested(vm, o, NULL);
+}
+
+buzzobj_t buzzheap_clone_nested(buzzvm_t vm,
+                                const buzzobj_t o,
+                                const struct buzzheap_clone_tableelem_s* outer) {
+   /* A table that contains itself becomes a clone that contains itself */
+   if(o->o.type == BUZZTYPE_TABLE) {
+      for(const struct buzzheap_clone_tableelem_s* p = outer; p; p = p->outer) {
+         if(p->orig == o->t.value) return p->clone;
+      }
+   }
    buzzobj_t x = (buzzobj_t)malloc(sizeof(union buzzobj_u));
    x->o.type = o->o.type;
    x->o.marker = o->o.marker;
@@ -116,7 +137,9 @@ buzzobj_t buzzheap_clone(buzzvm_t vm, const buzzobj_t o) {
                                    orig->dstryf);
          struct buzzheap_clone_tableelem_s p = {
             .vm = vm,
-            .t = x->t.value
+            .orig = orig,
+            .clone = x,
+            .outer = outer
          };
          buzzdict_foreach(orig, buzzheap_clone_tableelem, &p);
          return x;
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index d6ffa25..3a00bf5 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -552,16 +552,43 @@ int buzzobj_filter(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+struct buzzobj_serialize_params {
+   buzzdarray_t buf;
+   /* The table being serialized */
+   buzzdict_t table;
+   /* The data of the enclosing table, or NULL */
+   const struct buzzobj_serialize_params* outer;
+};
+
+static void buzzobj_serialize_nested(buzzdarray_t buf,
+                                     const buzzobj_t data,
+                                     const struct buzzobj_serialize_params* outer);
+
 void buzzobj_serialize_tableelem(const void* key, void* data, void* params) {
-   buzzobj_serialize((buzzdarray_t)params, *(buzzobj_t*)key);
-   buzzobj_serialize((buzzdarray_t)params, *(buzzobj_t*)data);
+   const struct buzzobj_serialize_params* p = (const struct buzzobj_serialize_params*)params;
+   buzzobj_serialize_nested(p->buf, *(buzzobj_t*)key, p);
+   buzzobj_serialize_nested(p->buf, *(buzzobj_t*)data, p);
 }
 
 void buzzobj_serialize(buzzdarray_t buf,
                        const buzzobj_t data) {
+   buzzobj_serialize_nested(buf, data, NULL);
+}
+
+void buzzobj_serialize_nested(buzzdarray_t buf,
+                              const buzzobj_t data,
+                              const struct buzzobj_serialize_params* outer) {
+   /* A table can't be serialized inside itself */
+   int cyclic = 0;
+   if(data->o.type == BUZZTYPE_TABLE) {
+      const struct buzzobj_serialize_params* p = outer;
+      while(p && p->table != data->t.value) p = p->outer;
+      cyclic = (p != NULL);
+   }
    if((data->o.type == BUZZTYPE_CLOSURE &&
        buzzdarray_size(data->c.value.actrec) != 1) ||
-      data->o.type > BUZZTYPE_CLOSURE) {
+      data->o.type > BUZZTYPE_CLOSURE ||
+      cyclic) {
       /* Can't serialize the object, send nil to keep the message well-formed */
       fprintf(stderr, "[TODO] %s:%d Can't serialize an object of type %s\n", __FILE__, __LINE__, buzztype_desc[data->o.type]);
       buzzmsg_serialize_u8(buf, BUZZTYPE_NIL);
@@ -594,7 +621,12 @@ void buzzobj_serialize(buzzdarray_t buf,
             buzzmsg_serialize_u8(buf, 0xFF);
             buzzmsg_serialize_u32(buf, size);
          }
-         buzzdict_foreach(data->t.value, buzzobj_serialize_tableelem, buf);
+         struct buzzobj_serialize_params p = {
+            .buf = buf,
+            .table = data->t.value,
+            .outer = outer
+         };
+         buzzdict_foreach(data->t.value, buzzobj_serialize_tableelem, &p);
          break;
       }
       case BUZZTYPE_CLOSURE: {
-- 
2.43.0


From 9c4c53a448237842828d3afe8de1736d58e9ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:25 +0000
Subject: [PATCH 89/99] fix: the parameters of a lambda hide the variables of
 the same name

A parameter named as a parameter or variable of the enclosing function
referred to that variable, and the parameters after it got the wrong
arguments.
---
 src/buzz/buzzparser.c | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 972312c..d909d17 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -146,6 +146,26 @@ void sym_add(buzzparser_t par, const char* sym, int scope) {
    else       buzzdict_set(par->syms, &key, &symdata);
 }
 
+/*
+ * Adds a symbol for a function parameter
+ * A lambda has access to the parameters and local variables of its
+ * parent, and its own parameters follow them in the activation record.
+ * A parameter hides the symbol with the same name, if any.
+ */
+void sym_addparam(buzzparser_t par, const char* sym) {
+   const struct sym_s* hidden = buzzdict_get(par->syms, &sym, struct sym_s);
+   if(hidden) {
+      /* The hidden symbol still takes its place in the activation record:
+       * keep it with a name that can't occur in a script */
+      struct sym_s symdata = *hidden;
+      char* key;
+      asprintf(&key, "%s %" PRId64, sym, symdata.pos);
+      buzzdict_remove(par->syms, &sym);
+      buzzdict_set(par->syms, &key, &symdata);
+   }
+   sym_add(par, sym, SCOPE_LOCAL);
+}
+
 void sym_clone(const void* key, void* data, void* params) {
    struct sym_s* toclone = (struct sym_s*)data;
    /* Copy key */
@@ -1196,26 +1216,13 @@ int parse_idlist(buzzparser_t par) {
       return PARSE_OK;
    /* Match an id for the first argument */
    tokmatch(BUZZTOK_ID);
-   /* Look for the argument symbol in the context
-    * If a symbol is found and is not global,
-    * do not add a new symbol; otherwise do
-    * This allows lambdas and nested functions to
-    * reuse the parameters and local variables of
-    * the parent
-    */
-   const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-   if(!sym || sym->global) {
-      sym_add(par, par->tok->value, SCOPE_LOCAL);
-   }
+   sym_addparam(par, par->tok->value);
    fetchtok();
    /* Match rest of the argument list */
    while(par->tok->type == BUZZTOK_LISTSEP) {
       fetchtok();
       tokmatch(BUZZTOK_ID);
-      const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-      if(!sym || sym->global) {
-         sym_add(par, par->tok->value, SCOPE_LOCAL);
-      }
+      sym_addparam(par, par->tok->value);
       fetchtok();
    }
    return PARSE_OK;
-- 
2.43.0


From 656cd1919207d4a01bba2ae902226352a6922b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:55 +0000
Subject: [PATCH 90/99] fix: a value written by the conflict manager is not
 overwritten by its result

---
 src/buzz/buzzvm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 30811c5..b09d6ab 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -265,7 +265,12 @@ static void buzzvm_vstig_conflict(buzzvm_t vm,
    /* Get rid of useless vstig element */
    free(rv);
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
-   if(c) {
+   const buzzvstig_elem_t* nl = buzzvstig_fetch(*vs, &k);
+   if(c && nl && (*nl)->timestamp > c->timestamp) {
+      /* The conflict manager wrote a newer version: the conflict is over */
+      free(c);
+   }
+   else if(c) {
       /* Store winning value and propagate the PUT message */
       buzzvstig_store(*vs, &k, &c);
       buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
-- 
2.43.0


From a2b22c31bdf8a82360d298dca15fb65142952b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:56 +0000
Subject: [PATCH 91/99] fix: a stigmergy can be created again while it is
 iterated upon

---
 src/buzz/buzzvstig.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index df717c0..d48d8a9 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -175,6 +175,10 @@ int64_t buzzvstig_elem_deserialize(buzzobj_t* key,
 /****************************************/
 /****************************************/
 
+static void buzzvstig_remove_entry(const void* key, void* data, void* params) {
+   buzzdict_remove((buzzdict_t)params, key);
+}
+
 int buzzvstig_create(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get vstig id */
@@ -185,12 +189,17 @@ int buzzvstig_create(buzzvm_t vm) {
    /* Look for virtual stigmergy */
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
-      /* Found, destroy it */
-      buzzdict_remove(vm->vstigs, &id);
+      /* Found, start afresh; it can't be destroyed, because the call
+       * might come from the function passed to its foreach() */
+      buzzdict_foreach((*vs)->data, buzzvstig_remove_entry, (*vs)->data);
+      (*vs)->onconflict = NULL;
+      (*vs)->onconflictlost = NULL;
+   }
+   else {
+      /* Create a new virtual stigmergy */
+      buzzvstig_t nvs = buzzvstig_new();
+      buzzdict_set(vm->vstigs, &id, &nvs);
    }
-   /* Create a new virtual stigmergy */
-   buzzvstig_t nvs = buzzvstig_new();
-   buzzdict_set(vm->vstigs, &id, &nvs);
    /* Create a table */
    buzzvm_pusht(vm);
    /* Add data and methods */
-- 
2.43.0


From d182f971d93bdd02ab44af108c0eaaf0ea63fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:57 +0000
Subject: [PATCH 92/99] fix: closing a file inside io.fforeach() ends the
 iteration

---
 src/buzz/buzzio.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 1f03235..78d8ea2 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -187,6 +187,13 @@ int buzzio_fforeach(buzzvm_t vm) {
       }
       /* Remove the return value left by closure_call */
       buzzvm_pop(vm);
+      /* Stop if the closure closed the file */
+      buzzvm_lload(vm, 1);
+      buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1));
+      buzzvm_tget(vm);
+      buzzobj_t h = buzzvm_stack_at(vm, 1);
+      buzzvm_pop(vm);
+      if(h->o.type != BUZZTYPE_USERDATA || h->u.value != f) break;
       /* Next line */
       len = getline(&line, &cap, f);
    }
-- 
2.43.0


From 119dfdb62572141936451574edbfee74ab99761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:11 +0000
Subject: [PATCH 93/99] fix: a variable declared by a branch without braces
 does not outlive it

---
 src/buzz/buzzparser.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index d909d17..d87b991 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -545,6 +545,20 @@ void buzzparser_symdel(uint32_t pos, void* data, void* params) {
    buzzdict_remove((buzzdict_t)params, (char**)data);
 }
 
+/* Removes the local variables beyond the first numvars */
+void buzzparser_removevars(buzzparser_t par, uint32_t numvars) {
+   struct symdeldata_s symdeldata = {
+      .dellist = buzzdarray_new(1, sizeof(char*), NULL),
+      .maxpos = numvars
+   };
+   /* Free the stack from the new local variables */
+   if( buzzdict_size(par->syms) - numvars )
+      chunk_append("\tlremove %" PRId32, buzzdict_size(par->syms) - numvars);
+   buzzdict_foreach(par->syms, buzzparser_symtodel, &symdeldata);
+   buzzdarray_foreach(symdeldata.dellist, buzzparser_symdel, par->syms);
+   buzzdarray_destroy(&(symdeldata.dellist));
+}
+
 int parse_block(buzzparser_t par, int pushsymt) {
    tokmatch(BUZZTOK_BLOCKOPEN);
    fetchtok();
@@ -570,17 +584,7 @@ int parse_block(buzzparser_t par, int pushsymt) {
          tokmatch(BUZZTOK_BLOCKCLOSE);
          fetchtok();
          /* Remove the variables defined in this block */
-         struct symdeldata_s symdeldata = {
-            .dellist = buzzdarray_new(1, sizeof(char*), NULL),
-            .maxpos = numvars
-         };
-         /* Free the stack from the new local variables */
-	 if( buzzdict_size(par->syms) - numvars ) 
-	   chunk_append("\tlremove %" PRId32, buzzdict_size(par->syms) - numvars); 
-
-         buzzdict_foreach(par->syms, buzzparser_symtodel, &symdeldata);
-         buzzdarray_foreach(symdeldata.dellist, buzzparser_symdel, par->syms);
-         buzzdarray_destroy(&(symdeldata.dellist));
+         buzzparser_removevars(par, numvars);
          if(pushsymt) symt_pop();
 	 
          return PARSE_OK;
@@ -601,7 +605,12 @@ int parse_blockstat(buzzparser_t par) {
    }
    else {
       /* It's a single statement, eat extra statement end characters */
-      return parse_stat(par);
+      uint32_t numvars = buzzdict_size(par->syms);
+      if(!parse_stat(par)) return PARSE_ERROR;
+      /* The statement might not be executed: the local variable it
+       * declares, if any, must not outlive it */
+      if(buzzdarray_size(par->symstack) > 1) buzzparser_removevars(par, numvars);
+      return PARSE_OK;
    }
 }
 
-- 
2.43.0


From 9e957579bde448fa9fee1029d80227ad3796913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:13 +0000
Subject: [PATCH 94/99] fix: a return without a value ends with its statement

---
 src/buzz/buzzlex.c    |  7 +------
 src/buzz/buzzparser.c | 12 ++++++++++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 53d4f54..08b1e51 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -297,12 +297,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
                return eoftok;
             lexf = buzzlex_getfile(lex);
          }
-         else {
-            /* New line and carry on */
-            ++lexf->cur_line;
-            lexf->cur_col = 0;
-            ++lexf->cur_c;
-         }
+         /* The newline is not part of the comment: it ends the statement */
       }
       else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0 &&
               !buzzlex_isid(lexf->buf[lexf->cur_c + 7])) {
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index d87b991..b0a599c 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -375,17 +375,24 @@ void chunk_print(uint32_t pos, void* data, void* params) {
 /****************************************/
 /****************************************/
 
-#define fetchtok()                                                      \
+/* Fetches the next token, statement ends included */
+#define fetchanytok()                                                   \
    {                                                                    \
       if(par->prevtok) buzzlex_destroytok(&par->prevtok);               \
       par->prevtok = par->tok;                                          \
       par->tok = buzzlex_nexttok(par->lex);                             \
+   }
+
+#define skipstatend()                                                   \
+   {                                                                    \
       while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND) { \
          buzzlex_destroytok(&par->tok);                                 \
          par->tok = buzzlex_nexttok(par->lex);                          \
       }                                                                 \
    }
 
+#define fetchtok() { fetchanytok(); skipstatend(); }
+
 /* The file to mention in an error message: at the end of the script the lexer has no current file */
 static const char* buzzparser_fname(buzzparser_t par) {
    return buzzlex_done(par->lex) ? par->scriptfn : buzzlex_getfile(par->lex)->fname;
@@ -1153,10 +1160,11 @@ int parse_operand(buzzparser_t par) {
 int parse_command(buzzparser_t par) {
    if(par->tok->type == BUZZTOK_RETURN) {
       /* Return statement */
-      fetchtok();
+      fetchanytok();
       if(par->tok->type == BUZZTOK_STATEND ||
          par->tok->type == BUZZTOK_BLOCKCLOSE) {
          chunk_append("\tret0");
+         skipstatend();
       }
       else {
          if(!parse_condition(par)) return PARSE_ERROR;
-- 
2.43.0


From 377e698cc86454314af71307917c1ae24407b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:14 +0000
Subject: [PATCH 95/99] fix: the error of a return outside of a function is
 located on the return

---
 src/buzz/buzzvm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index b09d6ab..8049116 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1412,6 +1412,7 @@ buzzvm_state buzzvm_ret0(buzzvm_t vm) {
    if(vm->state == BUZZVM_STATE_ERROR) return vm->state;
    /* Returning makes sense only within a function call */
    if(buzzdarray_size(vm->stacks) < 2) {
+      vm->oldpc = vm->pc;
       buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
       return vm->state;
    }
@@ -1449,6 +1450,7 @@ buzzvm_state buzzvm_ret1(buzzvm_t vm) {
    if(vm->state == BUZZVM_STATE_ERROR) return vm->state;
    /* Returning makes sense only within a function call */
    if(buzzdarray_size(vm->stacks) < 2) {
+      vm->oldpc = vm->pc;
       buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
       return vm->state;
    }
-- 
2.43.0


From eefcaf2c7f4835040a711573b53ad01248016017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:31 +0000
Subject: [PATCH 96/99] fix: a variable named as a function no longer
 invalidates the function's symbol

---
 src/buzz/buzzparser.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index b0a599c..1ebf413 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -139,9 +139,13 @@ void sym_add(buzzparser_t par, const char* sym, int scope) {
       .type = TYPE_BASIC,
       .global = global
    };
-   /* A global symbol must be stored in the base symbol table */
-   if(global) buzzdict_set(buzzdarray_get(par->symstack, 0, buzzdict_t),
-                           &key, &symdata);
+   /* A global symbol must be stored in the base symbol table, once:
+    * the chunk of a function refers to its symbol */
+   if(global) {
+      buzzdict_t base = buzzdarray_get(par->symstack, 0, buzzdict_t);
+      if(buzzdict_exists(base, &key)) free(key);
+      else                            buzzdict_set(base, &key, &symdata);
+   }
    /* A local symbol must be stored in the current symbol table */
    else       buzzdict_set(par->syms, &key, &symdata);
 }
-- 
2.43.0


From 9d44b886586429ea7e9f3a0a7364dec75c7d0b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:43 +0000
Subject: [PATCH 97/99] fix: table.sort() keeps its functions and pivot to
 itself, so that comparators can sort

---
 src/include/table.bzz | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/include/table.bzz b/src/include/table.bzz
index ab5012d..338c412 100644
--- a/src/include/table.bzz
+++ b/src/include/table.bzz
@@ -90,12 +90,14 @@ table.cmp_number = function(a, b) {
 # PARAM cmp: The comparator
 #
 table.sort = function(t, cmp) {
+  # The local functions: a comparator may sort a table, too
+  var fun = {}
   #
   # Partition elements by pivot
   #
-  partition = function(l, h) {
+  fun.partition = function(l, h) {
     # We use the last element as pivot 
-    pivot = t[h]
+    var pivot = t[h]
     # Used to mark the current element after the pivot
     var i = l
     # Move elements according to pivot
@@ -118,17 +120,17 @@ table.sort = function(t, cmp) {
   #
   # Quicksort
   #
-  qsort = function(l, h) {
+  fun.qsort = function(l, h) {
     # There are still elements to partition
     if(l < h) {
       # Partitioning index
-      var p = partition(l, h)
+      var p = fun.partition(l, h)
       # Sort elements before and after p
-      qsort(l, p-1)
-      qsort(p+1, h)
+      fun.qsort(l, p-1)
+      fun.qsort(p+1, h)
     }
   }
-  qsort(0, size(t)-1)
+  fun.qsort(0, size(t)-1)
 }
 
 #
-- 
2.43.0


From 106f82d6ea5964c10343685194594f0b9ca3f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:39 +0000
Subject: [PATCH 98/99] fix: the remainder of two negative numbers is smaller
 than the divisor, and never negative

---
 src/buzz/buzzvm.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 8049116..aedcf0d 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1545,28 +1545,31 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
       op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);
       res->i.value = op2->i.value % op1->i.value;
-      if(res->i.value < 0) res->i.value += op1->i.value;
+      if(res->i.value < 0) {
+         if(op1->i.value < 0) res->i.value -= op1->i.value;
+         else                 res->i.value += op1->i.value;
+      }
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += fabsf(op1->f.value);
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_INT &&
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->i.value);
-      if(res->f.value < 0.) res->f.value += op1->i.value;
+      if(res->f.value < 0.) res->f.value += fabsf(op1->i.value);
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->i.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += fabsf(op1->f.value);
       return buzzvm_push(vm, res);
    }
    else {
-- 
2.43.0


From e67eec63942847066937f9f279d4f08461f140d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 99/99] fix: keep the names of global symbols across garbage
 collections

---
 src/buzz/buzzheap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzheap.c b/src/buzz/buzzheap.c
index be03b70..e8ca4bd 100644
--- a/src/buzz/buzzheap.c
+++ b/src/buzz/buzzheap.c
@@ -215,6 +215,7 @@ void buzzheap_listener_mark(const void* key, void* data, void* params) {
 }
 
 void buzzheap_gsymobj_mark(const void* key, void* data, void* params) {
+   buzzstrman_gc_mark(((buzzvm_t)params)->strings, *(uint16_t*)key);
    buzzheap_obj_mark(*(buzzobj_t*)data, params);
 }
 
-- 
2.43.0

