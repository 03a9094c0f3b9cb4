From 112f1a69cdd04493f618065a6480ece6a4b3df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 01/82] fix: named let keeps all expressions of its body

---
 src/c/let.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c/let.cc b/src/c/let.cc
index e669c74..bdaba3e 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -43,7 +43,7 @@ SCM *expand_let(SCM *expr) {
     */
     assert(l->next->next->next);
     auto argl = l->next->next->data;
-    auto body = l->next->next->next->data;
+    auto body = l->next->next->next;
     
     // Handle empty bindings list for named let: (let name () body)
     SCM *params = scm_nil();
@@ -67,10 +67,11 @@ SCM *expand_let(SCM *expr) {
       printf("args ");
       print_ast(args);
       printf("\n");
-      print_ast(body);
+      print_list(body);
       printf("\n");
     }
-    auto val = scm_list3(scm_sym_lambda(), params, body);
+    auto val = scm_list2(scm_sym_lambda(), params);
+    cast<SCM_List>(val)->next->next = body;
     auto letrec_arg = scm_list2(func_args, val);
     
     // For empty args, just call the function: (name)
-- 
2.43.0


From dd01b84a8a8346ca7f4b3a8aa5c25b7ce2485f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 02/82] fix: a cond clause without expressions returns the
 value of its test

---
 src/c/cond.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/cond.cc b/src/c/cond.cc
index a637543..bb9e6b1 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -26,7 +26,8 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       continue;
     }
     if (!clause->next) {
-      return scm_bool_true();
+      // (cond (test)): the value of the test itself
+      return pred;
     }
     // Check for => syntax BEFORE evaluating clause->next->data
     // Similar to Guile's approach: check if => is a literal (not bound)
-- 
2.43.0


From 0c9613e3a0e14d9aba10c5882507daae22b213ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 03/82] fix: do keeps a fresh binding per iteration and any
 true value ends the loop

---
 src/c/do.cc | 149 +++++++++++++---------------------------------------
 1 file changed, 36 insertions(+), 113 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index a3f296a..ae998e9 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -1,88 +1,40 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Helper function to update do loop variables
-// All update expressions are evaluated first (in parallel), then all variables are updated
-// This implements Scheme's parallel binding semantics for do loops
-void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
-  struct UpdatePair {
-    SCM_Symbol *var_name;
-    SCM *new_val;
-  };
-  
-  // First, collect all variable names and update expressions
-  // We use a vector-like approach: first count, then allocate, then process
-  int count = 0;
-  auto it = var_update_list;
-  while (it->next) {
-    count++;
-    it = it->next;
-  }
-  
-  if (count == 0) {
-    return;  // No variables to update
-  }
-  
-  // Allocate array to store variable names and new values
-  UpdatePair *updates = new UpdatePair[count];
-  int idx = 0;
-  
-  // First pass: evaluate ALL update expressions BEFORE updating any variables
-  // This ensures all update expressions see the old values of all variables
-  // This is critical for correct parallel binding semantics
-  it = var_update_list;
-  while (it->next) {
-    it = it->next;
-    auto list_wrapped = it->data;
-    if (!is_pair(list_wrapped)) {
-      eval_error("do: internal error - update list must be a pair");
-      delete[] updates;
-      return;
-    }
-    // list_wrapped is (var_name var_update_step)
-    auto var_update_expr = cast<SCM_List>(list_wrapped);
-    if (!var_update_expr->next) {
-      eval_error("do: internal error - update list must have two elements");
-      delete[] updates;
-      return;
-    }
-    if (!is_sym(var_update_expr->data)) {
-      eval_error("do: internal error - first element of update list must be a symbol");
-      delete[] updates;
-      return;
-    }
-    auto var_name = cast<SCM_Symbol>(var_update_expr->data);
-    auto var_update_step = var_update_expr->next->data;
-
-    // CRITICAL: Evaluate update expression in current environment (before any updates)
-    // This ensures all update expressions see the old values of all variables
-    auto new_var_val = eval_with_env(do_env, var_update_step);
-    if (!new_var_val) {
-      // Evaluation error occurred, clean up and return
-      delete[] updates;
-      return;
-    }
-    
-    if (debug_enabled) {
-      SCM_DEBUG_EVAL("eval do step ... ");
-      print_ast(var_update_step);
-      printf(" --> ");
-      print_ast(new_var_val);
-      printf("\n");
+// Returns the bindings of the next iteration (of the first one if do_env is null): all init or step
+// expressions are evaluated before any variable is bound, and the results go into a fresh environment.
+// Closures and continuations captured in an earlier iteration keep the bindings of that iteration, and
+// variables of the same name outside the loop are not touched.
+static SCM_Environment *next_do_env(SCM_Environment *env, SCM_Environment *do_env, SCM_List *var_init_l) {
+  SCM_List *values = nullptr; // (name value) pairs, newest first
+  for (auto it = var_init_l; it; it = it->next) {
+    auto var_init_expr = cast<SCM_List>(it->data);
+    auto var_name = cast<SCM_Symbol>(var_init_expr->data);
+    SCM *val;
+    if (!do_env) {
+      val = eval_with_env(env, var_init_expr->next->data);
+    } else if (var_init_expr->next->next) {
+      auto var_update_step = var_init_expr->next->next->data;
+      val = eval_with_env(do_env, var_update_step);
+      if (debug_enabled) {
+        SCM_DEBUG_EVAL("eval do step ... ");
+        print_ast(var_update_step);
+        printf(" --> ");
+        print_ast(val);
+        printf("\n");
+      }
+    } else {
+      val = scm_env_search_entry(do_env, var_name, /*search_parent=*/false)->value;
     }
-    updates[idx].var_name = var_name;
-    updates[idx].new_val = new_var_val;
-    idx++;
+    auto node = make_list(scm_list2(wrap(var_name), val));
+    node->next = values;
+    values = node;
   }
-  
-  // Second pass: update all variables with the pre-computed values
-  // This happens AFTER all update expressions have been evaluated
-  // This implements parallel binding: all variables are updated simultaneously
-  for (int i = 0; i < count; i++) {
-    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val);
+  auto new_env = make_env(env);
+  for (auto it = values; it; it = it->next) {
+    scm_env_insert(new_env, cast<SCM_Symbol>(car(it->data)), cadr(it->data), /*search_parent=*/false);
   }
-  
-  delete[] updates;
+  return new_env;
 }
 
 // Helper function for do special form
@@ -106,13 +58,9 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     print_list(body_clause);
     printf("\n");
   }
-  auto do_env = make_env(env);
-
   auto var_init_it = var_init_l;
-  SCM_List var_update_dummy = make_list_dummy();
-  auto var_update_it = &var_update_dummy;
 
-  // Process variable bindings: (var init [step])
+  // Check variable bindings: (var init [step])
   while (var_init_it) {
     if (!is_pair(var_init_it->data)) {
       eval_error("do: variable initialization must be a list");
@@ -126,38 +74,13 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
       return nullptr;
     }
     
-    auto var_name = cast<SCM_Symbol>(var_init_expr->data);
-    
-    // Evaluate initial value in the parent environment
     if (!var_init_expr->next) {
       eval_error("do: variable binding must have an initial value");
       return nullptr;
     }
-    auto var_init_val = eval_with_env(env, var_init_expr->next->data);
-    if (!var_init_val) {
-      return nullptr;  // Evaluation error
-    }
-    
-    // Check for optional update step
-    SCM *var_update_step = nullptr;
-    if (var_init_expr->next->next) {
-      var_update_step = var_init_expr->next->next->data;
-    }
-
-    // Insert variable into do environment
-    scm_env_insert(do_env, var_name, var_init_val);
-    
-    // Store update step if provided
-    if (var_update_step) {
-      // Store as a list: (var_name var_update_step)
-      SCM *var_name_wrapped = wrap(var_name);
-      SCM *pair = scm_list2(var_name_wrapped, var_update_step);
-      var_update_it->next = make_list(pair);
-      var_update_it = var_update_it->next;
-      var_update_it->next = nullptr;
-    }
     var_init_it = var_init_it->next;
   }
+  auto do_env = next_do_env(env, nullptr, var_init_l);
 
   auto test_clause_list = cast<SCM_List>(test_clause);
   if (!test_clause_list) {
@@ -185,9 +108,9 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     printf("\n");
   }
   
-  // Main loop: continue while test condition is false
+  // Main loop: continue while test condition is false (any value but #f counts as true)
   int loop_count = 0;
-  while (is_false(ret)) {
+  while (is_falsy(ret)) {
     if (debug_enabled) {
       SCM_DEBUG_EVAL("do: loop iteration %d\n", loop_count++);
     }
@@ -203,7 +126,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     }
     
     // Update all variables (parallel binding)
-    update_do_variables(do_env, &var_update_dummy);
+    do_env = next_do_env(env, do_env, var_init_l);
     
     // Re-evaluate test condition
     ret = eval_with_env(do_env, car(test_clause));
-- 
2.43.0


From 78d4389b1415ec5483dbca192b958f37b4886fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 04/82] fix: define of a procedure binds in the scope of the
 definition

---
 src/c/define.cc | 87 ++++++++++++++++++++++---------------------------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index d1133b4..009a95d 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -1,6 +1,42 @@
 #include "pscm.h"
 #include "eval.h"
 
+// Bind a name in the scope the definition appears in
+static void define_binding(SCM_Environment *env, SCM_Symbol *varname, SCM *val) {
+  // If we're in a nested environment (lambda/let), define in environment
+  // Otherwise, if current module exists, define in module
+  // This ensures define creates local bindings in let/lambda contexts
+  if (env->parent) {
+    // Check if this is a module environment (env->module from scm_resolve_module)
+    if (env->module) {
+      scm_c_hash_set_eq(wrap(env->module->obarray), wrap(varname), val);
+    } else {
+      // We're in a nested environment (lambda/let), create local binding
+      scm_env_insert(env, varname, val, /*search_parent=*/false);
+    }
+  } else {
+    // Top-level: check if symbol exists in global environment
+    // If it exists, update it; otherwise define in module or environment
+    auto global_entry = scm_env_search_entry(&g_env, varname, /*search_parent=*/false);
+    if (global_entry) {
+      // Symbol exists in global environment, update it
+      global_entry->value = val;
+    } else {
+      // Symbol doesn't exist in global environment
+      // Check if current module exists, define in module
+      SCM *current_mod = scm_current_module();
+      if (current_mod && is_module(current_mod)) {
+        SCM_Module *module = cast<SCM_Module>(current_mod);
+        // Create binding in module's obarray
+        scm_c_hash_set_eq(wrap(module->obarray), wrap(varname), val);
+      } else {
+        // Otherwise define in environment
+        scm_env_insert(env, varname, val, /*search_parent=*/false);
+      }
+    }
+  }
+}
+
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   if (l->next && is_sym(l->next->data)) {
     // Define variable: (define var value)
@@ -19,38 +55,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
         SCM_DEBUG_EVAL("define proc from lambda\n");
       }
     }
-    // If we're in a nested environment (lambda/let), define in environment
-    // Otherwise, if current module exists, define in module
-    // This ensures define creates local bindings in let/lambda contexts
-    if (env->parent) {
-      // Check if this is a module environment (env->module from scm_resolve_module)
-      if (env->module) {
-        scm_c_hash_set_eq(wrap(env->module->obarray), wrap(varname), val);
-      } else {
-        // We're in a nested environment (lambda/let), create local binding
-        scm_env_insert(env, varname, val, /*search_parent=*/false);
-      }
-      } else {
-        // Top-level: check if symbol exists in global environment
-        // If it exists, update it; otherwise define in module or environment
-        auto global_entry = scm_env_search_entry(&g_env, varname, /*search_parent=*/false);
-        if (global_entry) {
-          // Symbol exists in global environment, update it
-          global_entry->value = val;
-        } else {
-          // Symbol doesn't exist in global environment
-          // Check if current module exists, define in module
-          SCM *current_mod = scm_current_module();
-          if (current_mod && is_module(current_mod)) {
-            SCM_Module *module = cast<SCM_Module>(current_mod);
-            // Create binding in module's obarray
-            scm_c_hash_set_eq(wrap(module->obarray), wrap(varname), val);
-          } else {
-            // Otherwise define in environment
-            scm_env_insert(env, varname, val, /*search_parent=*/false);
-          }
-        }
-      }
+    define_binding(env, varname, val);
     return scm_none();
   }
   // Define procedure: (define (name args...) body...)
@@ -118,14 +123,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     }
     auto proc = make_proc(proc_name, proc_sig->next, l->next->next, env);
     SCM *ret = wrap(proc);
-    // If current module exists, define in module
-    SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
-      SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), ret);
-    } else {
-      scm_env_insert(env, proc_name, ret, /*search_parent=*/false);
-    }
+    define_binding(env, proc_name, ret);
     return ret;
   }
   
@@ -156,14 +154,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
         SCM_DEBUG_EVAL("define proc from lambda\n");
       }
     }
-    // If current module exists, define in module
-    SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
-      SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
-    } else {
-      scm_env_insert(env, proc_name, val, /*search_parent=*/false);
-    }
+    define_binding(env, proc_name, val);
     return scm_none();
   } else {
     // Should not happen, but handle it
-- 
2.43.0


From 2d1f0d1527f5d481065a7be2bc1a9890fc5b12a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 05/82] fix: evaluate all operands of a procedure call before
 binding, and require the arguments before a rest parameter

---
 src/c/procedure.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index a4ea8ab..b6a8485 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -102,7 +102,9 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
   // Save original args for error reporting - create a copy of the list structure
   // (we only need the structure, not the values, for error reporting)
   SCM_List *original_args = args; // Save original args pointer for error reporting
-  SCM_List *args_iter = args;     // Use separate iterator for the loop
+  // Evaluate the operands before anything is bound, so that a continuation captured in one of them
+  // starts a call of its own when it is re-entered
+  SCM_List *args_iter = eval_list_with_env(env, args);
   
   // Check if the last parameter is a rest parameter (dotted pair: (a b . c))
   // For (a b), the structure is: (a . (b . nil))
@@ -138,6 +140,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
   
   // Bind regular parameters
   SCM_List *current_param = args_l;
+  bool rest_bound = only_rest_param;
   
   // Special case: only rest parameter (e.g., (values . things))
   if (only_rest_param) {
@@ -145,7 +148,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     SCM_List rest_args_dummy = make_list_dummy();
     SCM_List *rest_args_tail = &rest_args_dummy;
     while (args_iter) {
-      SCM *arg_val = eval_with_env(env, args_iter->data);
+      SCM *arg_val = args_iter->data;
       SCM_List *node = make_list(arg_val);
       rest_args_tail->next = node;
       rest_args_tail = node;
@@ -179,7 +182,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
         return nullptr;
       }
       auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
+      auto arg_val = args_iter->data;
       scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
       if (debug_enabled) {
         SCM_DEBUG_EVAL("bind func arg ");
@@ -194,7 +197,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
       SCM_List rest_args_dummy = make_list_dummy();
       SCM_List *rest_args_tail = &rest_args_dummy;
       while (args_iter) {
-        SCM *arg_val = eval_with_env(env, args_iter->data);
+        SCM *arg_val = args_iter->data;
         SCM_List *node = make_list(arg_val);
         rest_args_tail->next = node;
         rest_args_tail = node;
@@ -202,6 +205,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
       }
       SCM *rest_args = rest_args_dummy.next ? wrap(rest_args_dummy.next) : scm_nil();
       scm_env_insert(proc_env, rest_param_sym, rest_args, /*search_parent=*/false);
+      rest_bound = true;
       if (debug_enabled) {
         SCM_DEBUG_EVAL("bind rest arg ");
         printf("%s to ", rest_param_sym->data);
@@ -226,7 +230,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
         return nullptr;
       }
       auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
+      auto arg_val = args_iter->data;
       scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
       if (debug_enabled) {
         SCM_DEBUG_EVAL("bind func arg ");
@@ -239,8 +243,8 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     }
   }
   
-  // Check for argument mismatch (only if no rest parameter)
-  if (!has_rest_param && (args_iter || current_param)) {
+  // Check for argument mismatch (with a rest parameter, only the ones before it are required)
+  if (has_rest_param ? !rest_bound : (args_iter || current_param)) {
     // Construct the call expression for better error reporting
     SCM *call_expr = nullptr;
     if (proc->name) {
-- 
2.43.0


From acfcde79a4aaf34a1b44686f85b868482d3f5de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 06/82] fix: evaluating a call of a builtin no longer rewrites
 the source list, and operand lists survive re-entry

---
 src/c/eval.cc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 3a15e19..04bc0ab 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -18,16 +18,22 @@ SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM_List *eval_list_with_env(SCM_Environment *env, SCM_List *l) {
-  SCM_List dummy = make_list_dummy();
-  SCM_List *it = &dummy;
+  // Collect the values in reverse: a node is never changed once it holds a value, so that a continuation
+  // captured while one element is evaluated can be re-entered without changing earlier results
+  SCM_List *values = nullptr;
   while (l) {
-    auto val = eval_with_env(env, l->data);
-    auto next = make_list(val);
-    it->next = next;
-    it = it->next;
+    auto node = make_list(eval_with_env(env, l->data));
+    node->next = values;
+    values = node;
     l = l->next;
   }
-  return dummy.next;
+  SCM_List *ret = nullptr;
+  for (; values; values = values->next) {
+    auto node = make_list(values->data);
+    node->next = ret;
+    ret = node;
+  }
+  return ret;
 }
 
 
@@ -673,8 +679,9 @@ entry:
       print_list(func_argl);
       printf("\n");
     }
-    l->next = func_argl;
-    SCM *result = eval_with_func(func, l);
+    auto func_call = make_list(l->data);
+    func_call->next = func_argl;
+    SCM *result = eval_with_func(func, func_call);
     RETURN_WITH_CONTEXT(result);
   }
   else if (is_pair(l->data)) {
-- 
2.43.0


From dcd8a0579f57312de017b0dff46c0ee491c88710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 07/82] fix: apply and the C call functions use argument values
 as they are, evaluating operands left to right

---
 src/c/apply.cc | 80 ++++++++++++--------------------------------------
 1 file changed, 19 insertions(+), 61 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 8fdb07a..8b244e0 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -22,7 +22,7 @@ SCM *scm_call_0(SCM *proc) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, nullptr);
+    return apply_procedure_with_values(env, proc_obj, nullptr);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -47,7 +47,7 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -74,7 +74,7 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -103,7 +103,7 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
     args->next->next = make_list(arg3);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -139,7 +139,7 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, args_list);
+    return apply_procedure_with_values(env, proc_obj, args_list);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -171,11 +171,8 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     eval_error("apply: requires at least 2 arguments (procedure and arguments list)");
   }
   
-  // Arguments are NOT evaluated when coming from eval.cc (whether as symbol or function value)
-  // They are only evaluated when this is a recursive call from within eval_apply itself
-  // For now, always evaluate arguments
-  bool args_evaluated = false;
-  
+  // Arguments are NOT evaluated yet when coming from eval.cc (whether as symbol or function value),
+  // and quoted when this is a recursive call from within eval_apply itself
   // Evaluate the procedure
   SCM *proc = eval_with_env(env, l->next->data);
   
@@ -253,73 +250,34 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
   
   // Collect all arguments before the last one
   SCM_List *args_before_last = l->next->next;
-  SCM_List *last_arg_node = nullptr;
-  
-  // Find the last argument (which should be a list)
   if (!args_before_last) {
     eval_error("apply: requires at least 2 arguments (procedure and arguments list)");
   }
   
-  SCM_List *current = args_before_last;
-  while (current->next) {
-    current = current->next;
-  }
-  last_arg_node = current;
-  
-  // Evaluate or use the last argument (should be a list)
-  SCM *last_arg;
-  if (args_evaluated) {
-    // Arguments are already evaluated
-    last_arg = last_arg_node->data;
-  } else {
-    // Evaluate the last argument (should be a list)
-    last_arg = eval_with_env(env, last_arg_node->data);
-  }
-  if (!is_pair(last_arg) && !is_nil(last_arg)) {
-    eval_error("apply: last argument must be a list");
-  }
-  
-  // Build the combined argument list
-  // First, evaluate or use all arguments before the last one
+  // Build the combined argument list: the values of the arguments before the last one, followed by the
+  // elements of the last one. Each value is wrapped in quote to prevent double evaluation.
+  SCM_List *values = eval_list_with_env(env, args_before_last);
   SCM_List args_dummy = make_list_dummy();
   SCM_List *args_tail = &args_dummy;
-  
-  current = args_before_last;
-  while (current != last_arg_node) {
-    SCM *arg_val;
-    if (args_evaluated) {
-      arg_val = current->data; // Already evaluated
-    } else {
-      arg_val = eval_with_env(env, current->data);
-    }
-    SCM_List *node = make_list(arg_val);
+  while (values->next) {
+    SCM_List *node = make_list(scm_list2(scm_sym_quote(), values->data));
     args_tail->next = node;
     args_tail = node;
-    current = current->next;
+    values = values->next;
+  }
+
+  SCM *last_arg = values->data;
+  if (!is_pair(last_arg) && !is_nil(last_arg)) {
+    eval_error("apply: last argument must be a list");
   }
-  
-  // Then append all elements from the last argument list
   if (is_pair(last_arg)) {
     SCM_List *last_list = cast<SCM_List>(last_arg);
     while (last_list) {
-      SCM *elem;
-      if (args_evaluated) {
-        // Arguments are already evaluated, use directly
-        elem = last_list->data;
-      } else {
-        // Wrap each element in quote to prevent double evaluation
-        elem = scm_list2(scm_sym_quote(), last_list->data);
-      }
-      SCM_List *node = make_list(elem);
+      SCM_List *node = make_list(scm_list2(scm_sym_quote(), last_list->data));
       args_tail->next = node;
       args_tail = node;
       last_list = last_list->next;
     }
-  } else if (args_evaluated && !is_nil(last_arg)) {
-    // When args are evaluated and last_arg is not a pair, it might be a single value
-    // This shouldn't happen for apply, but handle it gracefully
-    SCM_List *node = make_list(last_arg);
-    args_tail->next = node;
   }
   
   // Apply the procedure with the combined arguments
-- 
2.43.0


From 3d437b7e082440ab9d3496d703c5eabc3ea9baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 08/82] fix: map keeps its state visible to the collector and
 re-entrant

---
 src/c/map.cc | 76 +++++++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/src/c/map.cc b/src/c/map.cc
index 51be5b2..b0b300a 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -21,6 +21,15 @@ SCM *scm_c_map_in_order(SCM_List *args) {
   return nullptr;
 }
 
+static bool any_list_empty(SCM_List *lists) {
+  for (; lists; lists = lists->next) {
+    if (is_nil(lists->data)) {
+      return true;
+    }
+  }
+  return false;
+}
+
 // Helper function for map special form
 SCM *eval_map(SCM_Environment *env, SCM_List *l) {
   if (!l->next || !l->next->next) {
@@ -53,47 +62,41 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     eval_error("map: requires at least one list argument");
   }
   
-  // Evaluate all list arguments and store them
-  SCM_List **list_ptrs = new SCM_List*[num_lists];
-  temp = list_args_head;
-  for (int i = 0; i < num_lists; i++) {
-    // Always evaluate list arguments
-    SCM *list_arg = eval_with_env(env, temp->data);
+  // Evaluate all list arguments and store them. All state of the traversal is kept in list nodes that are
+  // never changed afterwards: they stay visible to the garbage collector, and a continuation captured in
+  // one of the calls can be re-entered without disturbing other passes over the lists.
+  SCM_List *lists = eval_list_with_env(env, list_args_head);
+  for (auto it = lists; it; it = it->next) {
     // Check if list_arg is a list
-    if (!is_pair(list_arg) && !is_nil(list_arg)) {
+    if (!is_pair(it->data) && !is_nil(it->data)) {
       eval_error("map: list arguments must be lists");
     }
-    list_ptrs[i] = is_nil(list_arg) ? nullptr : cast<SCM_List>(list_arg);
-    temp = temp->next;
   }
   
-  // Build result list by applying proc to corresponding elements
-  SCM_List dummy = make_list_dummy();
-  SCM_List *tail = &dummy;
+  // Results so far, newest first
+  SCM_List *results = nullptr;
   
   // Continue until the shortest list is exhausted
-  bool all_non_empty = true;
-  for (int i = 0; i < num_lists; i++) {
-    if (!list_ptrs[i]) {
-      all_non_empty = false;
-      break;
-    }
-  }
-  
-  while (all_non_empty) {
+  while (!any_list_empty(lists)) {
     // Collect one element from each list
     // Wrap each element in quote to prevent evaluation
     SCM_List args_dummy = make_list_dummy();
     SCM_List *args_tail = &args_dummy;
+    SCM_List rests_dummy = make_list_dummy();
+    SCM_List *rests_tail = &rests_dummy;
     
-    for (int i = 0; i < num_lists; i++) {
+    for (auto it = lists; it; it = it->next) {
+      auto elements = cast<SCM_List>(it->data);
       // Wrap element in (quote element) to prevent evaluation
-      SCM *quoted_elem = scm_list2(scm_sym_quote(), list_ptrs[i]->data);
+      SCM *quoted_elem = scm_list2(scm_sym_quote(), elements->data);
       SCM_List *node = make_list(quoted_elem);
       args_tail->next = node;
       args_tail = node;
-      list_ptrs[i] = list_ptrs[i]->next;
+      SCM_List *rest = make_list(elements->next ? wrap(elements->next) : scm_nil());
+      rests_tail->next = rest;
+      rests_tail = rest;
     }
+    lists = rests_dummy.next;
     
     // Apply proc to collected arguments
     SCM *result;
@@ -113,23 +116,18 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     
     // Add result to result list
     SCM_List *node = make_list(result);
-    tail->next = node;
-    tail = node;
-    
-    // Check if all lists still have elements
-    all_non_empty = true;
-    for (int i = 0; i < num_lists; i++) {
-      if (!list_ptrs[i]) {
-        all_non_empty = false;
-        break;
-      }
-    }
+    node->next = results;
+    results = node;
   }
   
-  delete[] list_ptrs;
-  
-  if (dummy.next) {
-    return wrap(dummy.next);
+  SCM_List *ret = nullptr;
+  for (; results; results = results->next) {
+    SCM_List *node = make_list(results->data);
+    node->next = ret;
+    ret = node;
+  }
+  if (ret) {
+    return wrap(ret);
   }
   return scm_nil();
 }
-- 
2.43.0


From af6ef1892bc7d288287fdbda048653fbd320b4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 09/82] fix: for-each takes its arity from the lists and treats
 () as an ordinary element

---
 src/c/for_each.cc | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 40170ef..f761dde 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -11,9 +11,9 @@ static int count_list_length(SCM_List *l) {
   return count;
 }
 
-// Helper function to check if a list node is exhausted (nil or null)
+// Helper function to check if a list is exhausted
 static inline bool is_list_exhausted(SCM_List *list) {
-  return list == nullptr || is_nil(list->data);
+  return list == nullptr;
 }
 
 // Helper function for for-each special form
@@ -34,24 +34,17 @@ static inline bool is_list_exhausted(SCM_List *list) {
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   assert(l->next);
   auto f = eval_with_env(env, l->next->data);
-  int arg_count;
-  
-  // Determine argument count based on procedure/function type
-  if (is_proc(f)) {
-    auto proc = cast<SCM_Procedure>(f);
-    arg_count = count_list_length(proc->args);
-  } else if (is_func(f)) {
-    auto func = cast<SCM_Function>(f);
-    // Count the number of argument lists provided
-    int list_count = count_list_length(l->next->next);
-    // For variable-arg functions (n_args < 0), use list_count
-    // Otherwise use the function's expected argument count
-    arg_count = (func->n_args < 0) ? list_count : func->n_args;
-  } else {
+  if (!is_proc(f) && !is_func(f)) {
     eval_error("for-each: first argument must be a procedure or function");
     return nullptr;
   }
-  
+  // One argument per list; whether the procedure accepts that many is checked by the call
+  int arg_count = count_list_length(l->next->next);
+  if (arg_count == 0) {
+    eval_error("for-each: requires at least one list argument");
+    return nullptr;
+  }
+
   l = l->next->next;
 
   // Evaluate all argument lists and store them
@@ -64,10 +57,6 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   
   SCM_List *arg_lists[MAX_FOR_EACH_ARGS];
   for (int i = 0; i < arg_count; i++) {
-    if (!l) {
-      eval_error("args count not match, require %d, but got %d", arg_count, i);
-      return nullptr;
-    }
     auto evaluated_list = eval_with_env(env, l->data);
     // Validate that evaluated result is a list
     if (!is_pair(evaluated_list) && !is_nil(evaluated_list)) {
-- 
2.43.0


From fc3fc00f31bdab87b7c6b74597196474f9a2f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 10/82] fix: arithmetic and comparison handle rationals exactly
 and reject non-numbers with an error

---
 src/c/number.cc | 148 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 113 insertions(+), 35 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 8082c2e..b54b371 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -7,7 +7,7 @@
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
 
 SCM *scm_c_is_negative(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
     eval_error("negative?: expected number");
     return nullptr;
   }
@@ -19,7 +19,7 @@ SCM *scm_c_is_negative(SCM *arg) {
 }
 
 SCM *scm_c_is_positive(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
     eval_error("positive?: expected number");
     return nullptr;
   }
@@ -35,6 +35,9 @@ SCM *scm_c_is_odd(SCM *arg) {
     eval_error("odd?: expected number");
     return nullptr;
   }
+  if (is_num(arg)) {
+    return (int64_t)arg->value % 2 != 0 ? scm_bool_true() : scm_bool_false();
+  }
   double val = scm_to_double(arg);
   // Check if it's an integer
   if (val != (double)(int64_t)val) {
@@ -53,6 +56,9 @@ SCM *scm_c_is_even(SCM *arg) {
     eval_error("even?: expected number");
     return nullptr;
   }
+  if (is_num(arg)) {
+    return (int64_t)arg->value % 2 == 0 ? scm_bool_true() : scm_bool_false();
+  }
   double val = scm_to_double(arg);
   // Check if it's an integer
   if (val != (double)(int64_t)val) {
@@ -83,9 +89,27 @@ static bool needs_float_promotion(SCM *lhs, SCM *rhs) {
   return is_float(lhs) || is_float(rhs);
 }
 
+static void check_number_operands(SCM *lhs, SCM *rhs) {
+  for (SCM *operand : { lhs, rhs }) {
+    if (!is_num(operand) && !is_float(operand) && !is_ratio(operand)) {
+      eval_error("expected number, but got %s", get_type_name(operand->type));
+    }
+  }
+}
+
+// Numerator and denominator of an exact number (the denominator is always positive)
+static int64_t exact_numerator(SCM *num) {
+  return is_ratio(num) ? cast<SCM_Rational>(num)->numerator : (int64_t)num->value;
+}
+
+static int64_t exact_denominator(SCM *num) {
+  return is_ratio(num) ? cast<SCM_Rational>(num)->denominator : 1;
+}
+
 template <typename Op>
 struct BinaryOperator {
   static SCM *run(SCM *lhs, SCM *rhs) {
+    check_number_operands(lhs, rhs);
     // Check if we need float promotion
     if (needs_float_promotion(lhs, rhs)) {
       // Float operation: convert both to double and use double arithmetic
@@ -102,11 +126,18 @@ struct BinaryOperator {
         return scm_from_double(ret);
       }
     } else {
-      // Integer operation
-      assert(is_num(lhs));
-      assert(is_num(rhs));
-      int64_t n_lhs = (int64_t)lhs->value;
-      int64_t n_rhs = (int64_t)rhs->value;
+      int64_t n_lhs, n_rhs;
+      if (is_ratio(lhs) || is_ratio(rhs)) {
+        // Comparison of rationals (arithmetic handles them before): a/b op c/d  <=>  a*d op c*b
+        auto left = (__int128)exact_numerator(lhs) * exact_denominator(rhs);
+        auto right = (__int128)exact_numerator(rhs) * exact_denominator(lhs);
+        n_lhs = left < right ? -1 : left > right;
+        n_rhs = 0;
+      } else {
+        // Integer operation
+        n_lhs = (int64_t)lhs->value;
+        n_rhs = (int64_t)rhs->value;
+      }
       auto ret = Op::run(n_lhs, n_rhs);
       if constexpr (std::is_same_v<decltype(ret), bool>) {
         return ret ? scm_bool_true() : scm_bool_false();
@@ -199,6 +230,7 @@ struct EqOp {
 };
 
 SCM *scm_c_eq_number(SCM *lhs, SCM *rhs) {
+  check_number_operands(lhs, rhs);
   // Use double comparison for mixed types
   if (needs_float_promotion(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
@@ -209,22 +241,34 @@ SCM *scm_c_eq_number(SCM *lhs, SCM *rhs) {
 }
 
 SCM *scm_c_add_number(SCM *lhs, SCM *rhs) {
+  check_number_operands(lhs, rhs);
   // Handle float promotion directly
   if (needs_float_promotion(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs + d_rhs);
   }
+  if (is_ratio(lhs) || is_ratio(rhs)) {
+    // (a/b) + (c/d) = (a*d + c*b)/(b*d)
+    int64_t den1 = exact_denominator(lhs), den2 = exact_denominator(rhs);
+    return scm_make_ratio(exact_numerator(lhs) * den2 + exact_numerator(rhs) * den1, den1 * den2);
+  }
   return BinaryOperator<AddOp<int64_t, int64_t>>::run(lhs, rhs);
 }
 
 SCM *scm_c_minus_number(SCM *lhs, SCM *rhs) {
+  check_number_operands(lhs, rhs);
   // Handle float promotion directly
   if (needs_float_promotion(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs - d_rhs);
   }
+  if (is_ratio(lhs) || is_ratio(rhs)) {
+    // (a/b) - (c/d) = (a*d - c*b)/(b*d)
+    int64_t den1 = exact_denominator(lhs), den2 = exact_denominator(rhs);
+    return scm_make_ratio(exact_numerator(lhs) * den2 - exact_numerator(rhs) * den1, den1 * den2);
+  }
   return BinaryOperator<MinusOp<int64_t, int64_t>>::run(lhs, rhs);
 }
 
@@ -239,6 +283,9 @@ SCM *scm_c_negate_number(SCM *arg) {
     data->type = SCM::NUM;
     data->value = (void *)(-val);
     return data;
+  } else if (is_ratio(arg)) {
+    SCM_Rational *rat = cast<SCM_Rational>(arg);
+    return scm_make_ratio(-rat->numerator, rat->denominator);
   }
   eval_error("negate: expected number");
   return nullptr;
@@ -274,7 +321,7 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
       return nullptr;
     }
     // Check if argument is a number
-    if (!is_num(args->data) && !is_float(args->data)) {
+    if (!is_num(args->data) && !is_float(args->data) && !is_ratio(args->data)) {
       eval_error("-: expected number");
       return nullptr;
     }
@@ -292,6 +339,7 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
 }
 
 SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
+  check_number_operands(lhs, rhs);
   // Handle ratio (rational number) multiplication
   if (is_ratio(lhs) || is_ratio(rhs)) {
     // Convert both to numerator/denominator form
@@ -339,6 +387,7 @@ SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
 }
 
 SCM *scm_c_lt_eq_number(SCM *lhs, SCM *rhs) {
+  check_number_operands(lhs, rhs);
   if (needs_float_promotion(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
@@ -348,6 +397,7 @@ SCM *scm_c_lt_eq_number(SCM *lhs, SCM *rhs) {
 }
 
 SCM *scm_c_gt_eq_number(SCM *lhs, SCM *rhs) {
+  check_number_operands(lhs, rhs);
   if (needs_float_promotion(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
@@ -357,6 +407,7 @@ SCM *scm_c_gt_eq_number(SCM *lhs, SCM *rhs) {
 }
 
 SCM *scm_c_lt_number(SCM *lhs, SCM *rhs) {
+  check_number_operands(lhs, rhs);
   if (needs_float_promotion(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
@@ -366,6 +417,7 @@ SCM *scm_c_lt_number(SCM *lhs, SCM *rhs) {
 }
 
 SCM *scm_c_gt_number(SCM *lhs, SCM *rhs) {
+  check_number_operands(lhs, rhs);
   if (needs_float_promotion(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
@@ -492,7 +544,17 @@ SCM *scm_c_ge_chain(SCM_List *args) {
 }
 
 SCM *scm_c_abs(SCM *arg) {
-  assert(is_num(arg));
+  if (is_float(arg)) {
+    return scm_from_double(std::fabs(ptr_to_double(arg->value)));
+  }
+  if (is_ratio(arg)) {
+    SCM_Rational *rat = cast<SCM_Rational>(arg);
+    return rat->numerator < 0 ? scm_make_ratio(-rat->numerator, rat->denominator) : arg;
+  }
+  if (!is_num(arg)) {
+    eval_error("abs: expected number");
+    return nullptr;
+  }
   int64_t val = (int64_t)arg->value;
   int64_t abs_val = val < 0 ? -val : val;
   SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
@@ -670,8 +732,8 @@ SCM *scm_c_max(SCM_List *args) {
     return nullptr;
   }
   
-  double max_val = scm_to_double(first);
-  bool all_int = is_num(first);
+  SCM *result = first;
+  bool inexact = is_float(first);
   
   SCM_List *current = args->next;
   while (current) {
@@ -680,12 +742,9 @@ SCM *scm_c_max(SCM_List *args) {
       eval_error("max: expected number");
       return nullptr;
     }
-    if (!is_num(arg)) {
-      all_int = false;
-    }
-    double val = scm_to_double(arg);
-    if (val > max_val) {
-      max_val = val;
+    inexact = inexact || is_float(arg);
+    if (is_true(scm_c_gt_number(arg, result))) {
+      result = arg;
     }
     if (!current->next || is_nil(wrap(current->next))) {
       break;
@@ -693,10 +752,8 @@ SCM *scm_c_max(SCM_List *args) {
     current = current->next;
   }
   
-  if (all_int && max_val == (double)(int64_t)max_val) {
-    return _create_num((int64_t)max_val);
-  }
-  return scm_from_double(max_val);
+  // An inexact argument makes the result inexact
+  return inexact && !is_float(result) ? scm_from_double(scm_to_double(result)) : result;
 }
 
 // min: Return the minimum of the arguments
@@ -712,8 +769,8 @@ SCM *scm_c_min(SCM_List *args) {
     return nullptr;
   }
   
-  double min_val = scm_to_double(first);
-  bool all_int = is_num(first);
+  SCM *result = first;
+  bool inexact = is_float(first);
   
   SCM_List *current = args->next;
   while (current) {
@@ -722,12 +779,9 @@ SCM *scm_c_min(SCM_List *args) {
       eval_error("min: expected number");
       return nullptr;
     }
-    if (!is_num(arg)) {
-      all_int = false;
-    }
-    double val = scm_to_double(arg);
-    if (val < min_val) {
-      min_val = val;
+    inexact = inexact || is_float(arg);
+    if (is_true(scm_c_lt_number(arg, result))) {
+      result = arg;
     }
     if (!current->next || is_nil(wrap(current->next))) {
       break;
@@ -735,15 +789,28 @@ SCM *scm_c_min(SCM_List *args) {
     current = current->next;
   }
   
-  if (all_int && min_val == (double)(int64_t)min_val) {
-    return _create_num((int64_t)min_val);
-  }
-  return scm_from_double(min_val);
+  // An inexact argument makes the result inexact
+  return inexact && !is_float(result) ? scm_from_double(scm_to_double(result)) : result;
 }
 
 SCM *scm_c_expt(SCM *base, SCM *exp) {
-  assert(is_num(base));
-  assert(is_num(exp));
+  check_number_operands(base, exp);
+  if (is_ratio(base) && is_num(exp)) {
+    // (a/b)^n = a^n / b^n
+    SCM_Rational *rat = cast<SCM_Rational>(base);
+    int64_t n = (int64_t)exp->value;
+    int64_t num = n < 0 ? rat->denominator : rat->numerator;
+    int64_t den = n < 0 ? rat->numerator : rat->denominator;
+    int64_t ret_num = 1, ret_den = 1;
+    for (uint64_t i = n < 0 ? -(uint64_t)n : n; i > 0; --i) {
+      ret_num *= num;
+      ret_den *= den;
+    }
+    return scm_make_ratio(ret_num, ret_den);
+  }
+  if (!is_num(base) || !is_num(exp)) {
+    return scm_from_double(std::pow(scm_to_double(base), scm_to_double(exp)));
+  }
   int64_t n1 = (int64_t)base->value;
   int64_t n2 = (int64_t)exp->value;
   
@@ -926,6 +993,9 @@ SCM *scm_c_quotient(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
+  if (num2 == -1) {
+    return _create_num(-num1);
+  }
   return _create_num(num1 / num2);
 }
 
@@ -947,6 +1017,10 @@ SCM *scm_c_modulo(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
+  if (num2 == -1) {
+    return _create_num(0);
+  }
+
   int64_t m = num1 / num2;
   int64_t ret = num1 - num2 * m;
   
@@ -978,6 +1052,10 @@ SCM *scm_c_remainder(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
+  if (num2 == -1) {
+    return _create_num(0);
+  }
+
   int64_t m = num1 / num2;
   return _create_num(num1 - num2 * m);
 }
-- 
2.43.0


From c3566a13296e4784b43203fd855d86ba403c0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 11/82] fix: list procedures treat dotted tails as tails, and
 append shares its last argument

---
 src/c/list.cc | 179 ++++++++++++++++----------------------------------
 1 file changed, 55 insertions(+), 124 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index 073800a..a2f5886 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -89,123 +89,48 @@ SCM *scm_cons(SCM *car_val, SCM *cdr_val) {
   return wrap(l);
 }
 
-// Helper function to copy a list element
-static SCM_List *_copy_list_element(SCM *data) {
-  return make_list(data);
-}
-
-// Helper function to check if a list is a dotted pair by checking is_dotted flag
-static bool _is_dotted_pair(SCM_List *l) {
-  if (!l || !l->next) {
-    return false;
-  }
-  // Find the last node and check its is_dotted flag
-  SCM_List *last = l;
-  while (last->next) {
-    last = last->next;
-  }
-  return last->is_dotted;
-}
-
 // append function: (append list1 list2 ...) -> concatenated list
-// If the last argument is a dotted pair, the result will also be a dotted pair
+// The elements of all lists but the last are copied; the last argument becomes the tail of the result and
+// may be any value
 SCM *scm_append(SCM_List *args) {
   if (!args) {
     return scm_nil();
   }
   
-  // If only one argument, return it
-  if (!args->next) {
-    return args->data;
-  }
-  
-  // Special case: (append '() non-list) -> non-list
-  // Check if first argument is nil and second is not a list
-  if (is_nil(args->data) && args->next) {
-    if (!args->next->next) {
-      // Only two arguments: (append '() x) -> x
-      return args->next->data;
-    }
-  }
-  
-  // Find the last argument to check if it's a dotted pair
-  // We need to check the actual value, not the expression, so we check after
-  // processing all arguments
-  SCM_List *last_arg = args;
-  while (last_arg->next) {
-    last_arg = last_arg->next;
-  }
-  // Check if the last argument evaluates to a dotted pair
-  // This is done after we've processed all arguments, so we can check the actual value
-  bool last_is_dotted_pair = false;
-  SCM *last_cdr = nullptr;
-  if (is_pair(last_arg->data)) {
-    SCM_List *last_list = cast<SCM_List>(last_arg->data);
-    if (_is_dotted_pair(last_list)) {
-      last_is_dotted_pair = true;
-      // Find the last node to get the cdr
-      SCM_List *last_node = last_list;
-      while (last_node->next) {
-        last_node = last_node->next;
-      }
-      last_cdr = last_node->data;
-    }
-  }
-  
-  // Build result by concatenating all lists
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
   
   SCM_List *current = args;
-  while (current) {
-    if (is_pair(current->data)) {
-      SCM_List *src = cast<SCM_List>(current->data);
-      if (current == last_arg && last_is_dotted_pair) {
-        // Last argument is a dotted pair: copy car, but preserve the cdr
-        // For (c . d), src points to the pair, src->data is c, src->next->data is d
-        // We copy c, but not d (which will be the final cdr)
-        if (src) {
-          SCM_List *node = _copy_list_element(src->data);
-          tail->next = node;
-          tail = node;
-        }
-        // The cdr (d) will be appended below, creating the dotted pair structure
-      } else {
-        // Regular list: copy all elements
-        while (src) {
-          SCM_List *node = _copy_list_element(src->data);
-          tail->next = node;
-          tail = node;
-          src = src->next;
-        }
+  for (; current->next; current = current->next) {
+    if (is_nil(current->data)) {
+      continue;
+    }
+    if (!is_pair(current->data)) {
+      eval_error("append: expected list, but got %s", get_type_name(current->data->type));
+      return nullptr;
+    }
+    for (auto src = cast<SCM_List>(current->data); src; src = src->next) {
+      if (src->is_dotted) {
+        eval_error("append: expected proper list");
+        return nullptr;
       }
-    } else if (!is_nil(current->data)) {
-      // Non-list, non-nil: just add it
-      SCM_List *node = _copy_list_element(current->data);
+      SCM_List *node = make_list(src->data);
       tail->next = node;
       tail = node;
     }
-    current = current->next;
   }
   
-  // If last argument was a dotted pair, append its cdr as the final cdr
-  // This creates a dotted pair structure: the last node's next points to a node with the cdr,
-  // and that node's next is nullptr, and is_dotted = true
-  if (last_is_dotted_pair && last_cdr) {
-    // Create a node for the cdr, but don't update tail
-    // This makes tail->next point to a node with data=cdr and next=nullptr
-    // which is the structure for a dotted pair
-    SCM_List *node = _copy_list_element(last_cdr);
-    node->is_dotted = true;  // Mark as dotted pair's cdr
-    tail->next = node;
-    // tail remains pointing to the previous node, so tail->next->next == nullptr
-    // This creates the dotted pair structure
+  SCM *last = current->data;
+  if (!dummy.next) {
+    return last;
   }
-  
-  if (dummy.next) {
-    return wrap(dummy.next);
+  if (is_pair(last)) {
+    tail->next = cast<SCM_List>(last);
+  } else if (!is_nil(last)) {
+    tail->next = make_list(last);
+    tail->next->is_dotted = true;  // Mark as dotted pair's cdr
   }
-  return scm_nil();
+  return wrap(dummy.next);
 }
 
 // list-head: Copy the first k elements from lst into a new list
@@ -215,6 +140,10 @@ SCM *scm_c_list_head(SCM *lst, SCM *k) {
     return nullptr;
   }
   
+  if ((int64_t)k->value < 0) {
+    eval_error("list-head: second argument must be non-negative");
+    return nullptr;
+  }
   size_t count = (size_t)(int64_t)k->value;
   
   // If k is 0, return empty list regardless of lst
@@ -232,7 +161,7 @@ SCM *scm_c_list_head(SCM *lst, SCM *k) {
   SCM_List *tail = &dummy;
   SCM_List *current = cast<SCM_List>(lst);
   
-  while (count > 0 && current) {
+  while (count > 0 && current && !current->is_dotted) {
     SCM_List *node = make_list(current->data);
     tail->next = node;
     tail = node;
@@ -262,11 +191,15 @@ SCM *scm_c_list_tail(SCM *lst, SCM *k) {
     return nullptr;
   }
   
+  if ((int64_t)k->value < 0) {
+    eval_error("list-tail: second argument must be non-negative");
+    return nullptr;
+  }
   size_t count = (size_t)(int64_t)k->value;
-  SCM_List *current = cast<SCM_List>(lst);
+  SCM_List *current = is_nil(lst) ? nullptr : cast<SCM_List>(lst);
   
   while (count > 0) {
-    if (!current || is_nil(wrap(current))) {
+    if (!current || current->is_dotted) {
       eval_error("list-tail: list too short");
       return nullptr;
     }
@@ -275,7 +208,8 @@ SCM *scm_c_list_tail(SCM *lst, SCM *k) {
   }
   
   if (current) {
-    return wrap(current);
+    // The tail of a dotted list may be any value
+    return current->is_dotted ? current->data : wrap(current);
   }
   return scm_nil();
 }
@@ -329,17 +263,13 @@ SCM *scm_c_last_pair(SCM *lst) {
   
   // Floyd's cycle detection algorithm
   while (true) {
-    // Move hare two steps
-    if (!hare->next || is_nil(wrap(hare->next))) {
-      // Reached end, return tortoise (last pair)
-      return wrap(tortoise);
-    }
-    hare = hare->next;
-    if (!hare->next || is_nil(wrap(hare->next))) {
-      // Reached end, return hare (last pair)
-      return wrap(hare);
+    // Move hare two steps, stopping at the last pair (the cdr of a dotted pair is not a pair)
+    for (int step = 0; step < 2; step++) {
+      if (!hare->next || hare->next->is_dotted) {
+        return wrap(hare);
+      }
+      hare = hare->next;
     }
-    hare = hare->next;
     
     // Move tortoise one step
     tortoise = tortoise->next;
@@ -365,13 +295,13 @@ SCM *scm_c_reverse(SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current) {
+    if (current->is_dotted) {
+      eval_error("reverse: argument must be a proper list");
+      return nullptr;
+    }
     auto new_node = make_list(current->data);
     new_node->next = result;
     result = new_node;
-    
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
     current = current->next;
   }
   
@@ -404,7 +334,7 @@ SCM *scm_c_list_ref(SCM *lst, SCM *k) {
   SCM_List *current = cast<SCM_List>(lst);
   int64_t i = 0;
   
-  while (current) {
+  while (current && !current->is_dotted) {
     if (i == idx) {
       return current->data;
     }
@@ -436,10 +366,11 @@ SCM *scm_c_length(SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current) {
-    count++;
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
+    if (current->is_dotted) {
+      eval_error("length: argument must be a proper list");
+      return nullptr;
     }
+    count++;
     current = current->next;
   }
   
@@ -490,7 +421,7 @@ SCM *scm_c_memq(SCM *obj, SCM *lst) {
   
   SCM_List *current = cast<SCM_List>(lst);
   
-  while (current) {
+  while (current && !current->is_dotted) {
     // Use eq? for comparison
     // For immediate values (numbers, symbols, etc.), eq? compares by value
     // For compound types (lists, pairs), eq? uses pointer equality
@@ -522,7 +453,7 @@ SCM *scm_c_memv(SCM *obj, SCM *lst) {
   
   SCM_List *current = cast<SCM_List>(lst);
   
-  while (current) {
+  while (current && !current->is_dotted) {
     if (current->data && _eqv(obj, current->data)) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
@@ -550,7 +481,7 @@ SCM *scm_c_member(SCM *obj, SCM *lst) {
   
   SCM_List *current = cast<SCM_List>(lst);
   
-  while (current) {
+  while (current && !current->is_dotted) {
     if (current->data && _eq(obj, current->data)) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
-- 
2.43.0


From 180e4ad26e4b1e9f41a704424204fdf8250b0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 12/82] fix: print lists that merely start with quote or
 unquote as plain lists

---
 src/c/print.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index 4e65af9..9cae128 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -327,6 +327,11 @@ static bool _list_starts_with(SCM_List *l, const char *sym_name) {
   return strcmp(sym->data, sym_name) == 0;
 }
 
+// True for a two-element list like (quote x): any other list starting with the symbol is plain data
+static bool _is_quote_form(SCM_List *l, const char *sym_name) {
+  return _list_starts_with(l, sym_name) && l->next && !l->next->is_dotted && !l->next->next;
+}
+
 static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintContext &ctx) {
   if (!l) {
     printf("()");
@@ -336,21 +341,16 @@ static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintCo
   PrintContext new_ctx = ctx;
   
   // Handle quasiquote special form
-  if (_list_starts_with(l, "quasiquote")) {
+  if (_is_quote_form(l, "quasiquote")) {
     new_ctx.in_quasiquote = true;
-    printf("(quasiquote");
-    if (l->next) {
-      printf(" ");
-      _print_ast_with_context(l->next->data, write_mode, new_ctx);
-    } else {
-      printf(" ()");
-    }
+    printf("(quasiquote ");
+    _print_ast_with_context(l->next->data, write_mode, new_ctx);
     printf(")");
     return;
   }
   
   // Handle quote special form
-  if (_list_starts_with(l, "quote")) {
+  if (_is_quote_form(l, "quote")) {
     // In quasiquote context, use '... format for quotes, unless we're inside an unquote
     // This matches the test expectations:
     // - '(unquote name) should print as '(unquote name)
@@ -375,7 +375,7 @@ static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintCo
   }
   
   // Handle unquote special form
-  if (_list_starts_with(l, "unquote")) {
+  if (_is_quote_form(l, "unquote")) {
     new_ctx.in_unquote = true;
     printf("(unquote");
     if (l->next) {
@@ -387,7 +387,7 @@ static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintCo
   }
   
   // Handle unquote-splicing special form
-  if (_list_starts_with(l, "unquote-splicing")) {
+  if (_is_quote_form(l, "unquote-splicing")) {
     printf("(unquote-splicing");
     if (l->next) {
       printf(" ");
-- 
2.43.0


From cf3b06ec61a752929224db838050c5fbc2ef4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 13/82] fix: named let does not capture variables of its body

---
 src/c/let.cc | 124 ++++++++-------------------------------------------
 1 file changed, 18 insertions(+), 106 deletions(-)

diff --git a/src/c/let.cc b/src/c/let.cc
index bdaba3e..1a34d91 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -31,10 +31,11 @@ SCM *expand_let(SCM *expr) {
   body
   (loop ...))
 ->
-(letrec ((loop (lambda (arg1 arg2)
-               body
-               (loop ...))))
-  (loop val1 val2))
+((letrec ((loop (lambda (arg1 arg2)
+                body
+                (loop ...))))
+   loop)
+ val1 val2)
     
     Important: The initialization expressions (val1, val2) are evaluated
     in the OUTER environment, before the letrec binding is established.
@@ -74,109 +75,20 @@ SCM *expand_let(SCM *expr) {
     cast<SCM_List>(val)->next->next = body;
     auto letrec_arg = scm_list2(func_args, val);
     
-    // For empty args, just call the function: (name)
-    // For non-empty args, concatenate: (name arg1 arg2 ...)
-    //
-    // Important: In named let, the initialization expressions (args) are
-    // evaluated in the OUTER environment, before the letrec binding is
-    // established. This means if the named let variable shadows an outer
-    // variable, the args should still reference the outer variable.
-    //
-    // The problem: when we expand to letrec, the args are evaluated in the
-    // letrec environment where the binding already exists (initialized to #f).
-    // To fix this, we need to evaluate the args in the outer environment first,
-    // then pass the evaluated values to the letrec.
-    //
-    // The correct expansion:
-    // (let ((temp1 val1) (temp2 val2))  ; evaluate args in outer env
-    //   (letrec ((name (lambda (param1 param2) body)))
-    //     (name temp1 temp2)))
-    //
-    // We need to generate temporary variable names. For simplicity, we'll
-    // use a gensym-like approach, but for now let's use a simpler method:
-    // wrap the letrec in a let that evaluates the args first.
-    SCM *call_fn;
-    if (is_nil(args)) {
-      call_fn = scm_list1(func_args);
-      auto new_expr = scm_list3(scm_sym_letrec(), scm_list1(letrec_arg), call_fn);
-      if (debug_enabled) {
-        printf("expand -> ");
-        print_ast(new_expr);
-        printf("\n");
-      }
-      return new_expr;
-    } else {
-      // For non-empty args, we need to evaluate them in the outer environment.
-      // The problem: when we expand to letrec, the args are evaluated in the
-      // letrec environment where the binding already exists (initialized to #f).
-      // 
-      // The correct fix: expand to use let to evaluate args first in outer env,
-      // then letrec. We need to generate temporary variable names.
-      //
-      // Use a simple approach: generate temp names using a counter.
-      // We'll use names like "__temp_0", "__temp_1", etc.
-      SCM_List temp_bindings_dummy = make_list_dummy();
-      SCM_List temp_params_dummy = make_list_dummy();
-      auto temp_bindings = &temp_bindings_dummy;
-      auto temp_params = &temp_params_dummy;
-      
-      auto argl_it = cast<SCM_List>(argl);
-      int temp_counter = 0;
-      while (argl_it) {
-        auto param = car(argl_it->data);
-        auto arg_expr = cadr(argl_it->data);
-        
-        // Generate a temporary variable name using a simple counter
-        char temp_name[64];
-        snprintf(temp_name, sizeof(temp_name), "__temp_%d", temp_counter++);
-        SCM *temp_sym_scm = create_sym(temp_name, strlen(temp_name));
-        
-        // Create binding: (temp-sym arg-expr)
-        auto temp_binding = scm_list2(temp_sym_scm, arg_expr);
-        temp_bindings->next = make_list(temp_binding);
-        temp_bindings = temp_bindings->next;
-        
-        // Add temp to params list for the letrec call
-        temp_params->next = make_list(temp_sym_scm);
-        temp_params = temp_params->next;
-        
-        argl_it = argl_it->next;
-      }
-      
-      // Now create the letrec call using temp params
-      // Build the function call: (name temp1 temp2 ...)
-      if (temp_params_dummy.next) {
-        // Build list: (name temp1 temp2 ...)
-        SCM_List call_dummy = make_list_dummy();
-        auto call_tail = &call_dummy;
-        call_tail->next = make_list(func_args);
-        call_tail = call_tail->next;
-        
-        // Add all temp params
-        auto temp_it = temp_params_dummy.next;
-        while (temp_it) {
-          call_tail->next = make_list(temp_it->data);
-          call_tail = call_tail->next;
-          temp_it = temp_it->next;
-        }
-        call_fn = wrap(call_dummy.next);
-      } else {
-        call_fn = scm_list1(func_args);
-      }
-      
-      // Create: (let ((__temp_0 arg1) (__temp_1 arg2))
-      //          (letrec ((name (lambda (p1 p2) body)))
-      //            (name __temp_0 __temp_1)))
-      auto inner_letrec = scm_list3(scm_sym_letrec(), scm_list1(letrec_arg), call_fn);
-      auto outer_let = scm_list3(scm_sym_let(), wrap(temp_bindings_dummy.next), inner_letrec);
-      
-      if (debug_enabled) {
-        printf("expand -> ");
-        print_ast(outer_let);
-        printf("\n");
-      }
-      return outer_let;
+    // The initialization expressions (args) are evaluated in the OUTER environment, where the name of the
+    // loop is not bound. So only the operator is inside the letrec:
+    // ((letrec ((name (lambda (param1 param2) body))) name) val1 val2)
+    auto call = make_list(scm_list3(scm_sym_letrec(), scm_list1(letrec_arg), func_args));
+    if (is_pair(args)) {
+      call->next = cast<SCM_List>(args);
+    }
+    auto new_expr = wrap(call);
+    if (debug_enabled) {
+      printf("expand -> ");
+      print_ast(new_expr);
+      printf("\n");
     }
+    return new_expr;
   }
   else {
     if (debug_enabled) {
-- 
2.43.0


From 5d5cf33f51ad369703ba57adcbd2aaebc30583c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 14/82] fix: malformed special forms signal an error instead of
 aborting

---
 src/c/case.cc     |  5 ++++-
 src/c/cond.cc     |  6 ++++--
 src/c/define.cc   |  1 +
 src/c/do.cc       |  2 +-
 src/c/dynwind.cc  |  2 +-
 src/c/eval.cc     |  7 ++++---
 src/c/eval.h      |  7 +++++++
 src/c/for_each.cc |  2 +-
 src/c/let.cc      | 25 ++++++++++---------------
 src/c/macro.cc    |  2 +-
 10 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/c/case.cc b/src/c/case.cc
index ea4f418..8995a4e 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -22,7 +22,7 @@ static bool value_in_datums(SCM *value, SCM_List *datums) {
 // Helper function for case special form
 // Syntax: (case key ((datum1 ...) expr1 ...) ((datum2 ...) expr2 ...) ... (else expr ...))
 SCM *eval_case(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);  // Must have at least key expression
+  check_syntax(l->next, "case");  // Must have at least key expression
   
   // Evaluate the key expression
   SCM *key = eval_with_env(env, l->next->data);
@@ -35,6 +35,7 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
   
   // Process each clause
   for (SCM_List *clause_it = l->next->next; clause_it; clause_it = clause_it->next) {
+    check_syntax(is_pair(clause_it->data), "case");
     auto clause = cast<SCM_List>(clause_it->data);
     
     if (debug_enabled) {
@@ -46,6 +47,7 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
     // Check for else clause
     if (is_sym_val(clause->data, "else")) {
       // Execute else clause expressions
+      check_syntax(clause->next, "case");
       return eval_with_list(env, clause->next);
     }
     
@@ -54,6 +56,7 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
     auto datums = cast<SCM_List>(clause->data);
     
     if (value_in_datums(key, datums)) {
+      check_syntax(clause->next, "case");
       // Key matches this clause, execute the expressions
       return eval_with_list(env, clause->next);
     }
diff --git a/src/c/cond.cc b/src/c/cond.cc
index bb9e6b1..2c2b445 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -9,8 +9,9 @@ static bool is_literal(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for cond special form
 SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next, "cond");
   for (auto it = l->next; it; it = it->next) {
+    check_syntax(is_pair(it->data), "cond");
     auto clause = cast<SCM_List>(it->data);
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval cond clause ");
@@ -18,6 +19,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       printf("\n");
     }
     if (is_sym_val(clause->data, "else")) {
+      check_syntax(clause->next, "cond");
       return eval_with_list(env, clause->next);
     }
     auto pred = eval_with_env(env, clause->data);
@@ -36,7 +38,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       SCM_Symbol *arrow_sym = cast<SCM_Symbol>(clause->next->data);
       // Check if => is literal (not bound in environment), similar to Guile's literal_p
       if (is_literal(env, arrow_sym)) {
-        assert(clause->next->next);
+        check_syntax(clause->next->next, "cond");
         // First evaluate the procedure (clause->next->next->data) to get the actual procedure
         // Then call it with pred as argument
         // Build: (proc (quote pred))
diff --git a/src/c/define.cc b/src/c/define.cc
index 009a95d..596065f 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -38,6 +38,7 @@ static void define_binding(SCM_Environment *env, SCM_Symbol *varname, SCM *val)
 }
 
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
+  check_syntax(l->next && (is_sym(l->next->data) || (is_pair(l->next->data) && l->next->next)), "define");
   if (l->next && is_sym(l->next->data)) {
     // Define variable: (define var value)
     SCM_Symbol *varname = cast<SCM_Symbol>(l->next->data);
diff --git a/src/c/do.cc b/src/c/do.cc
index ae998e9..0615285 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -41,7 +41,7 @@ static SCM_Environment *next_do_env(SCM_Environment *env, SCM_Environment *do_en
 SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   assert(env);
   assert(l);
-  assert(l->next && l->next->next);
+  check_syntax(l->next && l->next->next && is_pair(l->next->next->data), "do");
   auto var_init_l = cast<SCM_List>(l->next->data);
   auto test_clause = l->next->next->data;
   auto body_clause = l->next->next->next;  // May be null if no body
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 0cf4cb0..d7b197b 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -177,7 +177,7 @@ void rewind_wind_chain(SCM_List *common, SCM_List *target) {
 
 // Dynamic-wind special form handler
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && l->next->next && l->next->next->next);
+  check_syntax(l->next && l->next->next && l->next->next->next, "dynamic-wind");
   
   // Evaluate the three arguments: in_guard, thunk, out_guard
   SCM *in_guard_val = eval_with_env(env, l->next->data);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 04bc0ab..cec527f 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -76,7 +76,7 @@ static SCM *eval_quote(SCM_List *l) {
 SCM *eval_quasiquote(SCM_Environment *env, SCM_List *l);
 
 static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && is_sym(l->next->data));
+  check_syntax(l->next && is_sym(l->next->data) && l->next->next, "set!");
   auto sym = cast<SCM_Symbol>(l->next->data);
   auto val = eval_with_env(env, l->next->next->data);
   
@@ -128,6 +128,7 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM *eval_lambda(SCM_Environment *env, SCM_List *l) {
+  check_syntax(l->next && l->next->next, "lambda");
   SCM *param_spec = l->next->data;
   SCM_List *proc_sig = nullptr;
   
@@ -172,7 +173,7 @@ static SCM *lookup_symbol(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for if special form
 static SCM *eval_if(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next && l->next->next, "if");
   auto pred = eval_with_env(env, l->next->data);
   // In Scheme, only #f is falsy, everything else is truthy
   if (is_truthy(pred)) {
@@ -238,7 +239,7 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 
 // Helper function for call/cc special form
 static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next, "call-with-current-continuation");
   auto proc = eval_with_env(env, l->next->data);
   int first;
   auto cont = scm_make_continuation(&first);
diff --git a/src/c/eval.h b/src/c/eval.h
index 5e5ed95..a689ca2 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -2,6 +2,13 @@
 
 #include "error.h"
 
+// Special forms report malformed syntax as an error
+inline void check_syntax(bool well_formed, const char *form) {
+  if (!well_formed) {
+    eval_error("%s: bad syntax", form);
+  }
+}
+
 // do special form
 SCM *eval_do(SCM_Environment *env, SCM_List *l);
 
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index f761dde..2f54c8f 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -32,7 +32,7 @@ static inline bool is_list_exhausted(SCM_List *list) {
 //   - list1, list2, ...: lists of arguments (must have same length)
 //
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);
+  check_syntax(l->next, "for-each");
   auto f = eval_with_env(env, l->next->data);
   if (!is_proc(f) && !is_func(f)) {
     eval_error("for-each: first argument must be a procedure or function");
diff --git a/src/c/let.cc b/src/c/let.cc
index 1a34d91..868d250 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -3,8 +3,7 @@
 
 SCM *expand_let(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "let");
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -42,7 +41,7 @@ SCM *expand_let(SCM *expr) {
     So if there's a variable shadowing issue, we need to evaluate the
     args in the outer environment first.
     */
-    assert(l->next->next->next);
+    check_syntax(l->next->next->next, "let");
     auto argl = l->next->next->data;
     auto body = l->next->next->next;
     
@@ -100,13 +99,12 @@ SCM *expand_let(SCM *expr) {
         printf("\n");
       }
     }
-    assert(is_pair(func_args));
+    check_syntax(is_pair(func_args), "let");
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      check_syntax(is_pair(argl->data), "let");
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
+      check_syntax(arg->next, "let");
       auto new_param = make_list(arg->data);
       params->next = new_param;
       params = params->next;
@@ -158,8 +156,7 @@ SCM *expand_let(SCM *expr) {
 
 SCM *expand_letstar(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "let*");
   SCM *ast = nullptr;
   auto bindings = l->next->data;
   
@@ -267,8 +264,7 @@ expanded as
 */
 SCM *expand_letrec(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "letrec");
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -290,13 +286,12 @@ SCM *expand_letrec(SCM *expr) {
     return ast;
   }
   else {
-    assert(is_pair(func_args));
+    check_syntax(is_pair(func_args), "letrec");
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      check_syntax(is_pair(argl->data), "letrec");
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
+      check_syntax(arg->next, "letrec");
 
       // Save arg->data and arg->next->data to avoid issues with temporary objects
       // These are SCM * pointers, so we can use them directly
diff --git a/src/c/macro.cc b/src/c/macro.cc
index 7751eac..38880ef 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -63,7 +63,7 @@ SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, S
       // Check if this is the penultimate parameter before rest parameter
       if (has_rest_param && current_param == penultimate_param) {
         // Bind the penultimate parameter
-        assert(is_sym(current_param->data));
+        check_syntax(is_sym(current_param->data), "define-macro");
         auto param_sym = cast<SCM_Symbol>(current_param->data);
         // Pass the argument as-is (syntax object), not evaluated
         scm_env_insert(macro_env, param_sym, actual_args->data, /*search_parent=*/false);
-- 
2.43.0


From d345a9dfb6b137d03f1d1d3e6f5930cd167b6d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 15/82] fix: a macro with one parameter receives its operand,
 not the list of operands

---
 src/c/macro.cc | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index 38880ef..37fb870 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -304,15 +304,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   }
   SCM_Symbol *name = cast<SCM_Symbol>(proc_sig->data);
 
-  // Check if proc_sig->next is a single symbol (rest parameter like (test . args))
-  // In this case, we need to convert it to a dotted pair structure
   SCM_List *args_list = proc_sig->next;
-  if (args_list && is_sym(args_list->data) && !args_list->next) {
-    // This is a rest parameter: (test . args) -> args_list is just (args)
-    // We need to mark it as a dotted pair
-    args_list->is_dotted = true;
-  }
-
   SCM_Procedure *transformer = make_proc(name, args_list, l->next->next, env);
 
   SCM_Macro *macro = (SCM_Macro *)gc_alloc(GC_MACRO, sizeof(SCM_Macro));
-- 
2.43.0


From ec2047414786dd4f04d8476601b99a0848232408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 16/82] fix: evaluate macro expansions in place, let local
 variables hide macros, and reject literals in operator position

---
 src/c/eval.cc | 44 +++++++++-----------------------------------
 1 file changed, 9 insertions(+), 35 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index cec527f..a8fd8c4 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -303,8 +303,10 @@ entry:
   if (is_sym(l->data)) {
     SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
 
-    // Check if this is a macro call (before checking special forms)
-    SCM *val = scm_env_exist(env, sym);
+    // Check if this is a macro call (before checking special forms).
+    // The whole lexical chain is searched: a local variable hides a macro of the same name.
+    auto entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
+    SCM *val = entry ? entry->value : nullptr;
     if (!val) {
       // Search module obarray + use chain for macros imported via use-modules.
       // Only when we're in a non-root module (root has everything in g_env already).
@@ -338,26 +340,10 @@ entry:
       }
     }
     if (val && is_macro(val)) {
-      // Found a macro, expand it and continue evaluation
+      // Found a macro, expand it and continue evaluation with the expansion. Macro uses inside it are
+      // expanded when (and if) they are evaluated, so quoted data is left alone.
       SCM_Macro *macro = cast<SCM_Macro>(val);
-      SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-      // Recursively expand the result, then evaluate
-      ast = expand_macros(env, expanded);
-      // If macro expansion returns a non-pair value (e.g., a number), 
-      // we need to handle it directly instead of trying to evaluate it as a list
-      if (!is_pair(ast)) {
-        RETURN_WITH_CONTEXT(ast);
-      }
-      // After macro expansion, we need to re-check the structure
-      // If ast is a pair but l->data is not a symbol/proc/func, it might be
-      // a self-evaluating value wrapped in a list, which should be evaluated directly
-      // We need to recast l since ast might have changed
-      l = cast<SCM_List>(ast);
-      if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-        // This is a self-evaluating value (number, string, etc.) wrapped in a single-element list
-        // Return it directly
-        RETURN_WITH_CONTEXT(l->data);
-      }
+      ast = expand_macro_call(env, macro, l->next, ast);
       goto entry;
     }
 
@@ -695,11 +681,7 @@ entry:
   }
   else if (is_num(l->data) || is_float(l->data) || is_str(l->data) || is_char(l->data) || is_bool(l->data) || is_nil(l->data)) {
     // Self-evaluating values: numbers, strings, characters, booleans, nil
-    // If this is a single-element list with a self-evaluating value, return it directly
-    if (!l->next) {
-      RETURN_WITH_CONTEXT(l->data);
-    }
-    // Otherwise, this is an error - can't have a list starting with a self-evaluating value
+    // These are not procedures, so a list starting with one of them cannot be evaluated
     eval_error("invalid expression: self-evaluating %s in non-tail position",
                get_type_name(l->data->type));
     return nullptr;
@@ -707,15 +689,7 @@ entry:
   else if (is_macro(l->data)) {
     // Macro object in expression position — expand it
     SCM_Macro *macro = cast<SCM_Macro>(l->data);
-    SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-    ast = expand_macros(env, expanded);
-    if (!is_pair(ast)) {
-      RETURN_WITH_CONTEXT(ast);
-    }
-    l = cast<SCM_List>(ast);
-    if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-      RETURN_WITH_CONTEXT(l->data);
-    }
+    ast = expand_macro_call(env, macro, l->next, ast);
     goto entry;
   }
   else {
-- 
2.43.0


From 025a46455a2eb338fcaa74a455b1cb6d4adae97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 17/82] fix: eq?, eqv? and equal? compare objects rather than
 the cells that refer to them

---
 src/c/eq.cc  | 116 +++++++--------------------------------------------
 src/c/pscm.h |   1 +
 2 files changed, 15 insertions(+), 102 deletions(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index 4724daf..9b90689 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -26,7 +26,7 @@ bool _sym_eq(SCM *lhs, SCM *rhs) {
     if (str1->len != str2->len) {
       return false;
     }
-    return strncmp(str1->data, str2->data, str1->len) == 0;
+    return memcmp(str1->data, str2->data, str1->len) == 0;
   }
   
   // Mixed types (sym and str) are not equal
@@ -91,23 +91,6 @@ static bool _list_equal(SCM *lhs, SCM *rhs) {
   return (!l1 && !l2);
 }
 
-// Legacy function for backward compatibility (used by _eq)
-bool _list_eq(SCM *lhs, SCM *rhs) {
-  auto l1 = cast<SCM_List>(lhs);
-  auto l2 = cast<SCM_List>(rhs);
-  while (l1 && l2) {
-    if (!_eq(l1->data, l2->data)) {
-      return false;
-    }
-    l1 = l1->next;
-    l2 = l2->next;
-  }
-  if (l1 || l2) {
-    return false;
-  }
-  return true;
-}
-
 // Helper function for equal? to compare vectors recursively
 static bool _vector_equal(SCM *lhs, SCM *rhs) {
   auto v1 = cast<SCM_Vector>(lhs);
@@ -128,83 +111,11 @@ static bool _vector_equal(SCM *lhs, SCM *rhs) {
   return true;
 }
 
-// Legacy function for backward compatibility (used by _eq)
-bool _vector_eq(SCM *lhs, SCM *rhs) {
-  auto v1 = cast<SCM_Vector>(lhs);
-  auto v2 = cast<SCM_Vector>(rhs);
-  
-  // Vectors must have the same length
-  if (v1->length != v2->length) {
-    return false;
-  }
-  
-  // Compare each element recursively
-  for (size_t i = 0; i < v1->length; i++) {
-    if (!_eq(v1->elements[i], v2->elements[i])) {
-      return false;
-    }
-  }
-  
-  return true;
-}
-
+// Deep comparison used by assoc, member and the equal? based hash tables: the same relation as equal?
 bool _eq(SCM *lhs, SCM *rhs) {
   assert(lhs);
   assert(rhs);
-  // Special case: allow NUM <-> FLOAT comparison
-  if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
-      (lhs->type == SCM::FLOAT && rhs->type == SCM::NUM)) {
-    return _number_eq(lhs, rhs);
-  }
-  
-  if (lhs->type != rhs->type) {
-    return false;
-  }
-
-  switch (lhs->type) {
-  case SCM::NONE:
-  case SCM::NIL:
-    return true;
-  case SCM::LIST:
-    // For backward compatibility with existing tests, use deep comparison for lists
-    // In strict R4RS, eq? should use pointer equality (lhs == rhs) for lists
-    return _list_eq(lhs, rhs);
-  case SCM::PROC:
-  case SCM::CONT:
-  case SCM::FUNC:
-    return lhs == rhs;
-  case SCM::NUM:
-  case SCM::FLOAT:
-    return _number_eq(lhs, rhs);
-  case SCM::CHAR:
-    // Character comparison
-    if (rhs->type == SCM::CHAR) {
-      char ch_lhs = ptr_to_char(lhs->value);
-      char ch_rhs = ptr_to_char(rhs->value);
-      return ch_lhs == ch_rhs;
-    }
-    return false;
-  case SCM::BOOL:
-    return is_true(lhs) == is_true(rhs);
-  case SCM::SYM:
-  case SCM::STR:
-    return _sym_eq(lhs, rhs);
-  case SCM::VECTOR:
-    return _vector_eq(lhs, rhs);
-  case SCM::MACRO:
-    // Macros are compared by reference (same as procedures)
-    return lhs == rhs;
-  case SCM::HASH_TABLE:
-    // Hash tables are compared by reference
-    return lhs == rhs;
-  case SCM::RATIO:
-    // Ratios are compared numerically
-    return _number_eq(lhs, rhs);
-  default:
-    SCM_ERROR_EVAL("unsupported scheme type %d", lhs->type);
-    eval_error("unsupported scheme type %d", lhs->type);
-    return false;
-  }
+  return _equal_recursive(lhs, rhs);
 }
 
 // eq?: Pointer equality (identity)
@@ -237,8 +148,9 @@ SCM *scm_c_is_eq(SCM *lhs, SCM *rhs) {
   case SCM::MACRO:
   case SCM::HASH_TABLE:
   case SCM::PORT:
-    // For compound types, eq? uses pointer equality
-    return scm_bool_false();
+    // For compound types, eq? compares the identity of the object: one object may be referred to by
+    // several SCM cells (cdr creates a new one each time, for example)
+    return bool_to_scm(lhs->value == rhs->value);
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -257,7 +169,7 @@ SCM *scm_c_is_eq(SCM *lhs, SCM *rhs) {
     // For symbols and strings, compare by content (they are interned)
     return _sym_eq(lhs, rhs) ? scm_bool_true() : scm_bool_false();
   default:
-    return scm_bool_false();
+    return bool_to_scm(lhs->value == rhs->value);
   }
 }
 
@@ -291,8 +203,8 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
   case SCM::MACRO:
   case SCM::HASH_TABLE:
   case SCM::PORT:
-    // For compound types, eqv? uses pointer equality (same as eq?)
-    return scm_bool_false();
+    // For compound types, eqv? compares the identity of the object (same as eq?)
+    return bool_to_scm(lhs->value == rhs->value);
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -311,7 +223,7 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
     // For symbols and strings, compare by content (they are interned)
     return _sym_eq(lhs, rhs) ? scm_bool_true() : scm_bool_false();
   default:
-    return scm_bool_false();
+    return bool_to_scm(lhs->value == rhs->value);
   }
 }
 
@@ -344,8 +256,8 @@ static bool _equal_recursive(SCM *lhs, SCM *rhs) {
   case SCM::MACRO:
   case SCM::HASH_TABLE:
   case SCM::PORT:
-    // For compound types, equal? uses pointer equality (same as eq?)
-    return false;
+    // For compound types, equal? compares the identity of the object (same as eq?)
+    return lhs->value == rhs->value;
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -377,11 +289,11 @@ static bool _equal_recursive(SCM *lhs, SCM *rhs) {
         return is_true(result);
       } else {
         // Default: pointer equality (eq?)
-        return lhs == rhs;
+        return lhs->value == rhs->value;
       }
     }
   default:
-    return false;
+    return lhs->value == rhs->value;
   }
 }
 
diff --git a/src/c/pscm.h b/src/c/pscm.h
index c0dc6f9..bf3e807 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -779,6 +779,7 @@ void init_apply();
  */
 bool _eq(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_eq(SCM *lhs, SCM *rhs);
+SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_equal(SCM *lhs, SCM *rhs);
 
 /*
-- 
2.43.0


From 871ad7a2db2cfa60a634e93971a1ecbd06a6d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 18/82] fix: assoc-ref, assoc-set!, assv, memv and case use the
 documented equivalence and the first match

---
 src/c/alist.cc | 49 +++++++++++--------------------------------------
 src/c/case.cc  |  7 ++-----
 src/c/list.cc  | 28 +---------------------------
 3 files changed, 14 insertions(+), 70 deletions(-)

diff --git a/src/c/alist.cc b/src/c/alist.cc
index 27cf7ab..7ad7071 100644
--- a/src/c/alist.cc
+++ b/src/c/alist.cc
@@ -2,37 +2,17 @@
 #include <type_traits>
 bool _eq(SCM *lhs, SCM *rhs);
 
-// Helper function for eq? comparison (pointer/identity equality)
-// This implements the eq? predicate semantics: two objects are eq? if they are the same object
-// For symbols, use content-based comparison (same as hash_table.cc scm_cmp_eq)
-// because in Guile, symbols are interned so eq? compares by content
+// Helper functions for eq? and eqv? comparison
 static bool is_eq_pointer(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) {
-    return true;
-  }
-  if (lhs->type != rhs->type) {
-    return false;
-  }
-  // For symbols, compare by content (same as hash_table.cc scm_cmp_eq)
-  // This allows assq to work correctly with symbols
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
-    }
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
-  }
   // For strings, compare pointers (value field points to the same object)
-  if (is_str(lhs)) {
+  if (is_str(lhs) && is_str(rhs)) {
     return lhs->value == rhs->value;
   }
-  // For numbers, compare values
-  if (is_num(lhs)) {
-    return lhs->value == rhs->value;
-  }
-  // For other types, use pointer comparison
-  return lhs == rhs;
+  return is_true(scm_c_is_eq(lhs, rhs));
+}
+
+static bool is_eqv(SCM *lhs, SCM *rhs) {
+  return is_true(scm_c_is_eqv(lhs, rhs));
 }
 
 // acons: (acons key value alist) -> new alist with (key . value) prepended
@@ -89,11 +69,7 @@ SCM *scm_c_assoc_ref(SCM *alist, SCM *key) {
     return scm_bool_false();
   }
   // Return the cdr of the pair
-  auto pair_list = cast<SCM_List>(pair);
-  if (pair_list->next) {
-    return pair_list->next->data;
-  }
-  return scm_bool_false();
+  return cdr(pair);
 }
 
 // assoc-set!: (assoc-set! alist key value) -> new alist
@@ -111,7 +87,7 @@ SCM *scm_c_assoc_set(SCM *alist, SCM *key, SCM *value) {
   while (l) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
-      if (pair->data && _eq(key, pair->data)) {
+      if (!found && pair->data && _eq(key, pair->data)) {
         // Found matching key, replace with new pair
         SCM *new_pair = scm_cons(key, value);
         SCM_List *node = make_list(new_pair);
@@ -165,7 +141,7 @@ SCM *scm_c_assq_set(SCM *alist, SCM *key, SCM *value) {
   while (l) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
-      if (pair->data && is_eq_pointer(key, pair->data)) {
+      if (!found && pair->data && is_eq_pointer(key, pair->data)) {
         // Found matching key, replace with new pair
         SCM *new_pair = scm_cons(key, value);
         SCM_List *node = make_list(new_pair);
@@ -243,9 +219,6 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
 }
 
 SCM *scm_c_assv(SCM *key, SCM *alist) {
-  assert(key);
-  assert(alist);
-  assert(is_pair(alist) || is_nil(alist));
   if (is_nil(alist)) {
     return scm_bool_false();
   }
@@ -254,7 +227,7 @@ SCM *scm_c_assv(SCM *key, SCM *alist) {
   while (it) {
     if (it->data && is_pair(it->data)) {
       auto pair = cast<SCM_List>(it->data);
-      if (pair->data && _eq(key, pair->data)) {
+      if (pair->data && is_eqv(key, pair->data)) {
         return it->data;
       }
     }
diff --git a/src/c/case.cc b/src/c/case.cc
index 8995a4e..be4a497 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -1,18 +1,15 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Forward declaration
-bool _eq(SCM *lhs, SCM *rhs);
-
 // Helper function to check if a value is in a list of datums
-// Uses eqv? for comparison (which is implemented as _eq in this codebase)
+// Uses eqv? for comparison
 static bool value_in_datums(SCM *value, SCM_List *datums) {
   if (!datums) {
     return false;
   }
   
   for (SCM_List *it = datums; it; it = it->next) {
-    if (it->data && _eq(value, it->data)) {
+    if (it->data && is_true(scm_c_is_eqv(value, it->data))) {
       return true;
     }
   }
diff --git a/src/c/list.cc b/src/c/list.cc
index a2f5886..43b48be 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -381,32 +381,6 @@ SCM *scm_c_length(SCM *lst) {
   return result;
 }
 
-// Helper function for eqv? comparison (used by memv)
-static bool _eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (!lhs || !rhs) return false;
-  
-  // Special case: allow NUM <-> FLOAT comparison (same as eq.cc)
-  if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
-      (lhs->type == SCM::FLOAT && rhs->type == SCM::NUM)) {
-    return _number_eq(lhs, rhs);
-  }
-  
-  if (lhs->type != rhs->type) return false;
-  
-  // For numbers (both NUM and FLOAT), use _number_eq for proper comparison
-  if (is_num(lhs) || is_float(lhs)) {
-    return _number_eq(lhs, rhs);
-  }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
-}
-
 // memq: Return the first sublist of list whose car is obj (using eq? for comparison)
 // Returns #f if obj is not found
 // eq? uses pointer equality for lists and pairs, but value equality for numbers, symbols, etc.
@@ -454,7 +428,7 @@ SCM *scm_c_memv(SCM *obj, SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current && !current->is_dotted) {
-    if (current->data && _eqv(obj, current->data)) {
+    if (current->data && is_true(scm_c_is_eqv(obj, current->data))) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-- 
2.43.0


From 2865115a1922c71cfaaba16f05aa939417ab56dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 19/82] fix: hash codes agree with the key comparison, handles
 keep the stored entry, sizes are checked

---
 src/c/hash_table.cc | 193 +++++++++++++++++---------------------------
 1 file changed, 74 insertions(+), 119 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 8d2fddb..c18ae60 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -11,119 +11,81 @@ static inline unsigned long hash_string_content(const char *data, int len) {
   return h;
 }
 
-// Hash function for eq? (pointer equality)
-static unsigned long scm_hash_code_eq(SCM *key) {
-  // For symbols, use content-based hash (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? hash to the same value
-  if (is_sym(key)) {
-    auto sym = cast<SCM_Symbol>(key);
-    return hash_string_content(sym->data, sym->len);
+// Numbers that are = have the same hash code, whatever their representation
+static unsigned long hash_double(double d) {
+  if (d == 0) {
+    return 0;  // -0.0 and 0.0 are =
   }
-  // For eq?, use pointer address as hash
-  return (unsigned long)(uintptr_t)key;
+  unsigned long bits = 0;
+  memcpy(&bits, &d, sizeof(d));
+  return bits ^ (bits >> 32);
 }
 
-// Hash function for eqv? (value equality for numbers/chars)
-static unsigned long scm_hash_code_eqv(SCM *key) {
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
-  }
-  if (is_char(key)) {
+// Hash function for eq? (and eqv?, which is the same relation here): objects that are eq? must have the
+// same hash code, although several SCM cells may refer to one object
+static unsigned long scm_hash_code_eq(SCM *key) {
+  switch (key->type) {
+  case SCM::NONE:
+  case SCM::NIL:
+    return 0;
+  case SCM::BOOL:
+    return is_true(key) ? 1 : 0;
+  case SCM::CHAR:
     return (unsigned char)ptr_to_char(key->value);
+  case SCM::NUM:
+    return hash_double((double)(int64_t)key->value);
+  case SCM::FLOAT:
+    return hash_double(ptr_to_double(key->value));
+  case SCM::RATIO: {
+    auto ratio = cast<SCM_Rational>(key);
+    return (unsigned long)ratio->numerator * 31 + (unsigned long)ratio->denominator;
+  }
+  case SCM::SYM: {
+    // Content-based hash (same as equal?), so that hash-set! and hashq-get-handle work on the same table
+    auto sym = cast<SCM_Symbol>(key);
+    return hash_string_content(sym->data, sym->len);
   }
-  if (is_bool(key)) {
-    return is_true(key) ? 1 : 0;
+  default:
+    // Everything else is compared by identity
+    return (unsigned long)(uintptr_t)key->value;
   }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
 }
 
 // Hash function for equal? (deep equality)
-// Helper function to compute hash code for a list recursively
-static unsigned long hash_list_content(SCM *list) {
-  if (!list || !is_pair(list)) {
-    return 0;
-  }
-  auto l = cast<SCM_List>(list);
-  unsigned long hash = 0;
-  while (l) {
-    // Hash the car
-    unsigned long car_hash = 0;
-    if (is_sym(l->data)) {
-      auto sym = cast<SCM_Symbol>(l->data);
-      car_hash = hash_string_content(sym->data, sym->len);
-    } else if (is_str(l->data)) {
-      auto str = cast<SCM_String>(l->data);
-      car_hash = hash_string_content(str->data, str->len);
-    } else if (is_num(l->data)) {
-      car_hash = (unsigned long)(int64_t)l->data->value;
-    } else if (is_pair(l->data)) {
-      car_hash = hash_list_content(l->data);
-    } else {
-      car_hash = (unsigned long)(uintptr_t)l->data;
-    }
-    // Combine hashes
-    hash = hash * 31 + car_hash;
-    l = l->next;
-  }
-  return hash;
-}
-
 static unsigned long scm_hash_code_equal(SCM *key) {
-  // For symbols, use content-based hash (not pointer-based) for equal?
-  // This ensures that different symbol objects with the same name hash to the same value
-  if (is_sym(key)) {
-    auto sym = cast<SCM_Symbol>(key);
-    return hash_string_content(sym->data, sym->len);
-  }
-  // For strings, use content-based hash
-  if (is_str(key)) {
+  unsigned long hash = 17;
+  switch (key->type) {
+  case SCM::STR: {
     auto str = cast<SCM_String>(key);
     return hash_string_content(str->data, str->len);
   }
-  // For numbers, use value-based hash
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
+  case SCM::LIST:
+    for (; is_pair(key); key = cdr(key)) {
+      hash = hash * 31 + scm_hash_code_equal(car(key));
+    }
+    return hash * 31 + scm_hash_code_equal(key);
+  case SCM::VECTOR: {
+    auto vec = cast<SCM_Vector>(key);
+    for (size_t i = 0; i < vec->length; i++) {
+      hash = hash * 31 + scm_hash_code_equal(vec->elements[i]);
+    }
+    return hash;
   }
-  // For lists, use content-based hash
-  if (is_pair(key)) {
-    return hash_list_content(key);
+  case SCM::SMOB:
+    // Smobs may define their own equal?
+    return hash;
+  default:
+    return scm_hash_code_eq(key);
   }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
 }
 
 // Comparison functions
 static bool scm_cmp_eq(SCM *lhs, SCM *rhs) {
-  // For symbols, use content-based comparison (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? return the same value
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
-    }
-    // Use memcmp since we already know lengths are equal
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
-  }
-  return lhs == rhs;
-}
-
-static bool scm_cmp_eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (lhs->type != rhs->type) return false;
-  if (is_num(lhs)) {
+  // Strings are compared by identity, as in assq
+  if (is_str(lhs) && is_str(rhs)) {
     return lhs->value == rhs->value;
   }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
+  return is_true(scm_c_is_eq(lhs, rhs));
 }
 
 static bool scm_cmp_equal(SCM *lhs, SCM *rhs) {
@@ -147,13 +109,9 @@ static SCM_HashTable *validate_and_get_bucket_idx(SCM *table, SCM *key,
 
 // Helper function to update existing entry's value
 static void update_entry_value(SCM_List *entry, SCM *value) {
-  if (entry->next) {
-    entry->next->data = value;
-    entry->next->is_dotted = true;  // Ensure it's marked as dotted pair
-  } else {
-    entry->next = make_list(value);
-    entry->next->is_dotted = true;  // Mark as dotted pair's cdr
-  }
+  // A new node: the present one may belong to a list stored with set-cdr!
+  entry->next = make_list(value);
+  entry->next->is_dotted = true;  // Mark as dotted pair's cdr
 }
 
 // Helper function to find entry in bucket
@@ -244,9 +202,14 @@ SCM *scm_c_make_hash_table(SCM *size_arg) {
       eval_error("make-hash-table: size must be an integer");
       return nullptr;
     }
+    if ((int64_t)size_arg->value < 0) {
+      eval_error("make-hash-table: size must not be negative");
+      return nullptr;
+    }
     capacity = (size_t)(int64_t)size_arg->value;
-    if (capacity == 0) {
-      capacity = 31;
+    // The size is only a hint
+    if (capacity == 0 || capacity > 1000003) {
+      capacity = capacity == 0 ? 31 : 1000003;
     }
   }
   
@@ -298,14 +261,7 @@ SCM *scm_c_hash_ref(SCM *table, SCM *key,
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
     // entry is (key . value) pair
-    // If entry->next is nullptr, it means value is nil (from scm_cons when cdr is nil)
-    // If entry->next exists, entry->next->data is the value
-    if (entry->next) {
-      return entry->next->data;
-    } else {
-      // entry->next is nullptr means value is nil
-      return scm_nil();
-    }
+    return cdr(wrap(entry));
   }
   
   return scm_bool_false();
@@ -331,7 +287,7 @@ SCM *scm_c_hash_get_handle(SCM *table, SCM *key,
   return scm_bool_false();
 }
 
-// hash-create-handle!: Create or get handle for key-value pair
+// hash-create-handle!: Get the handle of key, creating it with value when there is none
 SCM *scm_c_hash_create_handle(SCM *table, SCM *key, SCM *value,
                                unsigned long (*hash_func)(SCM *),
                                bool (*cmp_func)(SCM *, SCM *)) {
@@ -344,9 +300,8 @@ SCM *scm_c_hash_create_handle(SCM *table, SCM *key, SCM *value,
   // Check if key already exists
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    update_entry_value(entry, value);
     // Return the entry pair (key . value)
-    return scm_cons(entry->data, entry->next->data);
+    return wrap(entry);
   }
   
   // Create new entry and insert at head of bucket
@@ -389,9 +344,9 @@ SCM *scm_c_hash_fold(SCM *proc, SCM *init, SCM *table,
       while (l) {
         if (is_pair(l->data)) {
           auto entry = cast<SCM_List>(l->data);
-          if (entry->data && entry->next) {
+          if (entry->data) {
             SCM *key = entry->data;
-            SCM *value = entry->next->data;
+            SCM *value = cdr(l->data);
             
             // Call proc with (key value result)
             // Build call expression: (proc key value result)
@@ -440,7 +395,7 @@ SCM *scm_c_hash_set_eq(SCM *table, SCM *key, SCM *value) {
 }
 
 SCM *scm_c_hash_set_eqv(SCM *table, SCM *key, SCM *value) {
-  return scm_c_hash_set(table, key, value, scm_hash_code_eqv, scm_cmp_eqv);
+  return scm_c_hash_set(table, key, value, scm_hash_code_eq, scm_cmp_eq);
 }
 
 SCM *scm_c_hash_set_equal(SCM *table, SCM *key, SCM *value) {
@@ -452,7 +407,7 @@ SCM *scm_c_hash_ref_eq(SCM *table, SCM *key) {
 }
 
 SCM *scm_c_hash_ref_eqv(SCM *table, SCM *key) {
-  return scm_c_hash_ref(table, key, scm_hash_code_eqv, scm_cmp_eqv);
+  return scm_c_hash_ref(table, key, scm_hash_code_eq, scm_cmp_eq);
 }
 
 SCM *scm_c_hash_ref_equal(SCM *table, SCM *key) {
@@ -464,7 +419,7 @@ SCM *scm_c_hash_get_handle_eq(SCM *table, SCM *key) {
 }
 
 SCM *scm_c_hash_get_handle_eqv(SCM *table, SCM *key) {
-  return scm_c_hash_get_handle(table, key, scm_hash_code_eqv, scm_cmp_eqv);
+  return scm_c_hash_get_handle(table, key, scm_hash_code_eq, scm_cmp_eq);
 }
 
 SCM *scm_c_hash_get_handle_equal(SCM *table, SCM *key) {
@@ -476,7 +431,7 @@ SCM *scm_c_hash_create_handle_eq(SCM *table, SCM *key, SCM *value) {
 }
 
 SCM *scm_c_hash_create_handle_eqv(SCM *table, SCM *key, SCM *value) {
-  return scm_c_hash_create_handle(table, key, value, scm_hash_code_eqv, scm_cmp_eqv);
+  return scm_c_hash_create_handle(table, key, value, scm_hash_code_eq, scm_cmp_eq);
 }
 
 SCM *scm_c_hash_create_handle_equal(SCM *table, SCM *key, SCM *value) {
@@ -488,7 +443,7 @@ SCM *scm_c_hash_remove_eq(SCM *table, SCM *key) {
 }
 
 SCM *scm_c_hash_remove_eqv(SCM *table, SCM *key) {
-  return scm_c_hash_remove(table, key, scm_hash_code_eqv, scm_cmp_eqv);
+  return scm_c_hash_remove(table, key, scm_hash_code_eq, scm_cmp_eq);
 }
 
 SCM *scm_c_hash_remove_equal(SCM *table, SCM *key) {
-- 
2.43.0


From 0fa7a474c6e47dbe076eff440d26b832acd87c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 20/82] fix: a continuation called with several arguments keeps
 all of them

---
 src/c/eval.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index a8fd8c4..f291ad1 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -538,10 +538,9 @@ entry:
     }
   }
   else if (is_cont(l->data)) {
-    SCM *cont_arg = scm_nil();
-    if (l->next) {
-      cont_arg = eval_with_env(env, l->next->data);
-    }
+    // One argument is passed as it is, several like the result of values
+    SCM_List *args = eval_list_with_env(env, l->next);
+    SCM *cont_arg = args ? (args->next ? wrap(args) : args->data) : scm_nil();
     scm_dynthrow(l->data, cont_arg);
     return nullptr;  // Never reached, but satisfies compiler
   }
-- 
2.43.0


From 7a9e43b9a3e30cdcf4dbd9a00fff047637618cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 21/82] fix: throws and continuations unwind and rewind
 dynamic-wind extents and reinstate the active catches

---
 src/c/continuation.cc |   8 ++
 src/c/dynwind.cc      | 194 ++++++++--------------------
 src/c/error.cc        |  11 ++
 src/c/error.h         |   2 +
 src/c/pscm_types.h    |   2 +
 src/c/throw.cc        | 287 +++++++++++++-----------------------------
 src/c/throw.h         |   7 ++
 7 files changed, 175 insertions(+), 336 deletions(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index ae5ebda..dba8a7b 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -54,6 +55,10 @@ SCM *scm_make_continuation(int *first) {
   // Save current module (needed for variable lookup after continuation restore)
   cont->saved_module = scm_current_module();
   
+  // Save the active catches: their frames are part of the saved stack
+  cont->catch_state = scm_catch_state();
+  cont->eval_context = g_current_eval_context;
+  
   *first = !setjmp(cont->cont_jump_buffer);
   if (*first) {
     return data;
@@ -63,6 +68,9 @@ SCM *scm_make_continuation(int *first) {
     if (cont->saved_module) {
       scm_set_current_module(cont->saved_module);
     }
+    g_wind_chain = cont->wind_chain;
+    scm_set_catch_state(cont->catch_state);
+    g_current_eval_context = cont->eval_context;
     auto ret = cont->arg;
     return ret;
   }
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index d7b197b..eab45d8 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -24,157 +25,75 @@ SCM_List *copy_wind_chain(SCM_List *chain) {
   return new_chain;
 }
 
-// Helper function to find common prefix of two wind chains
-// Compares entries by their data pointer (the (in_guard . out_guard) pair)
-SCM_List *find_common_prefix(SCM_List *chain1, SCM_List *chain2) {
-  if (!chain1 || !chain2) {
-    return nullptr;  // If either is empty, no common prefix
+static int wind_chain_length(SCM_List *chain) {
+  int n = 0;
+  for (; chain; chain = chain->next) {
+    n++;
   }
-  
-  // Compare entries by their data pointer
-  SCM_List *c1 = chain1;
-  SCM_List *c2 = chain2;
-  int common_count = 0;
-  
-  while (c1 && c2 && c1->data == c2->data) {
-    common_count++;
-    c1 = c1->next;
-    c2 = c2->next;
+  return n;
+}
+
+// Find the part of CHAIN1 that is also in CHAIN2. The innermost extent comes first, so this is a common
+// tail. Entries are compared by their data pointer (the (in_guard . out_guard) pair).
+static SCM_List *find_common_tail(SCM_List *chain1, SCM_List *chain2) {
+  int len1 = wind_chain_length(chain1);
+  int len2 = wind_chain_length(chain2);
+  for (; len1 > len2; len1--) {
+    chain1 = chain1->next;
   }
-  
-  if (common_count == 0) {
-    return nullptr;  // No common prefix
+  for (; len2 > len1; len2--) {
+    chain2 = chain2->next;
   }
-  
-  // Build the common prefix list
-  SCM_List *common = nullptr;
-  SCM_List **tail = &common;
-  SCM_List *c = chain1;
-  for (int i = 0; i < common_count; i++) {
-    *tail = make_list(c->data);
-    tail = &((*tail)->next);
-    c = c->next;
+  while (chain1 && chain1->data != chain2->data) {
+    chain1 = chain1->next;
+    chain2 = chain2->next;
   }
-  
-  return common;
+  return chain1;
 }
 
-// Unwind wind chain: call out_guard for each entry from current to target
-// Returns the common prefix
+// Call a procedure without arguments
+static SCM *call_thunk(SCM *thunk) {
+  return eval_with_env(&g_env, scm_list1(thunk));
+}
+
+// Unwind wind chain: call out_guard for each extent of the current chain that is not in target, innermost
+// first and each in the dynamic context of its dynamic-wind.
+// Returns the common part
 SCM_List *unwind_wind_chain(SCM_List *target) {
-  SCM_List *current = g_wind_chain;
-  
-  // Find common prefix
-  SCM_List *common = find_common_prefix(current, target);
-  
-  // Unwind from current to common (call out_guard for each entry not in common)
-  // Build a list of entries to unwind (in reverse order, so we unwind in correct order)
-  SCM_List *to_unwind = nullptr;
-  SCM_List *c = current;
-  
-  // Collect entries that need to be unwound
-  while (c) {
-    // Check if this entry is in common
-    bool in_common = false;
-    if (common) {
-      SCM_List *check = common;
-      while (check) {
-        if (check->data == c->data) {
-          in_common = true;
-          break;
-        }
-        check = check->next;
-      }
-    }
-    
-    if (!in_common) {
-      // Add to unwind list (in reverse order)
-      auto new_entry = make_list(c->data);
-      new_entry->next = to_unwind;
-      to_unwind = new_entry;
-    }
-    else {
-      // We've reached the common prefix, stop
-      break;
-    }
-    
-    c = c->next;
-  }
-  
-  // Now unwind in reverse order (which is the correct order)
-  while (to_unwind) {
-    SCM *entry = to_unwind->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->next && pair->next->data) {
-        // Call out_guard
-        SCM *out_guard = pair->next->data;
-        if (is_proc(out_guard)) {
-          auto proc = cast<SCM_Procedure>(out_guard);
-          apply_procedure(&g_env, proc, nullptr);
-        }
-      }
-    }
-    to_unwind = to_unwind->next;
+  SCM_List *common = find_common_tail(g_wind_chain, target);
+  int common_count = wind_chain_length(common);
+  
+  while (wind_chain_length(g_wind_chain) > common_count) {
+    auto pair = cast<SCM_List>(g_wind_chain->data);
+    g_wind_chain = g_wind_chain->next;
+    scm_leave_catches(g_wind_chain);
+    call_thunk(pair->next->data);
   }
-  
-  // Update wind chain to common prefix
-  g_wind_chain = common;
   return common;
 }
 
-// Rewind wind chain: call in_guard for each entry from common to target
+// Rewind wind chain: call in_guard for each entry from common to target, outermost first
 void rewind_wind_chain(SCM_List *common, SCM_List *target) {
-  // Build list of entries to rewind (from target, excluding common)
-  SCM_List *to_rewind = nullptr;
-  SCM_List *target_current = target;
-  
-  // Count how many entries in common
-  int common_count = 0;
-  SCM_List *c = common;
-  while (c) {
-    common_count++;
-    c = c->next;
-  }
+  int target_count = wind_chain_length(target);
   
-  // Skip common entries in target
-  c = target;
-  for (int i = 0; i < common_count && c; i++) {
-    c = c->next;
-  }
-  
-  // Collect entries to rewind (in reverse order)
-  while (c) {
-    auto new_entry = make_list(c->data);
-    new_entry->next = to_rewind;
-    to_rewind = new_entry;
-    c = c->next;
-  }
-  
-  // Rewind entries (call in_guard) and add to wind chain
-  while (to_rewind) {
-    SCM *entry = to_rewind->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->data) {
-        // Call in_guard
-        SCM *in_guard = pair->data;
-        if (is_proc(in_guard)) {
-          auto proc = cast<SCM_Procedure>(in_guard);
-          apply_procedure(&g_env, proc, nullptr);
-        }
-      }
+  for (int count = wind_chain_length(common); count < target_count; count++) {
+    // The outermost extent that is not entered yet
+    SCM_List *entry = target;
+    for (int i = count + 1; i < target_count; i++) {
+      entry = entry->next;
     }
+    auto pair = cast<SCM_List>(entry->data);
+    call_thunk(pair->data);
     
     // Add to wind chain
-    auto new_entry = make_list(entry);
-    new_entry->next = g_wind_chain;
-    g_wind_chain = new_entry;
-    
-    to_rewind = to_rewind->next;
+    g_wind_chain = entry;
   }
 }
 
+static bool is_callable(SCM *scm) {
+  return is_proc(scm) || is_func(scm) || is_cont(scm);
+}
+
 // Dynamic-wind special form handler
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
   check_syntax(l->next && l->next->next && l->next->next->next, "dynamic-wind");
@@ -185,13 +104,12 @@ SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
   SCM *out_guard_val = eval_with_env(env, l->next->next->next->data);
   
   // Verify they are procedures
-  if (!is_proc(in_guard_val) || !is_proc(thunk_val) || !is_proc(out_guard_val)) {
+  if (!is_callable(in_guard_val) || !is_callable(thunk_val) || !is_callable(out_guard_val)) {
     eval_error("dynamic-wind: all arguments must be procedures");
   }
   
   // Call in_guard
-  auto in_guard_proc = cast<SCM_Procedure>(in_guard_val);
-  apply_procedure(env, in_guard_proc, nullptr);
+  call_thunk(in_guard_val);
   
   // Create wind entry: (in_guard . out_guard)
   auto wind_entry = make_list(in_guard_val);
@@ -205,15 +123,13 @@ SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
   g_wind_chain = new_wind_entry;
   
   // Call thunk
-  auto thunk_proc = cast<SCM_Procedure>(thunk_val);
-  SCM *result = apply_procedure(env, thunk_proc, nullptr);
+  SCM *result = call_thunk(thunk_val);
   
   // Restore old wind chain
   g_wind_chain = old_wind_chain;
   
   // Call out_guard
-  auto out_guard_proc = cast<SCM_Procedure>(out_guard_val);
-  apply_procedure(env, out_guard_proc, nullptr);
+  call_thunk(out_guard_val);
   
   return result;
 }
diff --git a/src/c/error.cc b/src/c/error.cc
index ca81d7e..1ddf16d 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -107,6 +107,17 @@ void pop_eval_stack() {
   }
 }
 
+int eval_stack_depth() {
+  return g_stack_depth;
+}
+
+// Pop the frames of the evaluations abandoned by a throw
+void trim_eval_stack(int depth) {
+  while (g_eval_stack && g_stack_depth > depth) {
+    pop_eval_stack();
+  }
+}
+
 // Print the evaluation call stack
 void print_eval_stack() {
   if (!g_eval_stack) {
diff --git a/src/c/error.h b/src/c/error.h
index 1fd7776..a7ea1cd 100644
--- a/src/c/error.h
+++ b/src/c/error.h
@@ -16,6 +16,8 @@ inline EvalStackFrame *g_eval_stack = nullptr;
 // Evaluation call stack management (used by eval_with_env)
 void push_eval_stack(SCM *expr);
 void pop_eval_stack();
+int eval_stack_depth();
+void trim_eval_stack(int depth);
 
 // Print evaluation call stack (for debugging)
 void print_eval_stack();
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index b063ed3..472f63c 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -95,6 +95,8 @@ struct SCM_Continuation {
   SCM *arg;
   SCM_List *wind_chain; // Saved wind chain when continuation was created
   SCM *saved_module;    // Saved current module when continuation was created
+  void *catch_state;    // Active catches when continuation was created
+  SCM *eval_context;    // Expression being evaluated when continuation was created
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
 };
 
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 24aa4e3..82fdb11 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -9,33 +9,52 @@
 
 // Standard error key is now in throw.h as inline variable
 
-// Global catch stack (shared between scm_c_catch and scm_throw)
-static struct catch_info *g_catch_stack[100];
-static int g_catch_stack_top = 0;
+SCM_List *unwind_wind_chain(SCM_List *target);
 
 // Jump buffer and return value structure
 struct jmp_buf_and_retval {
   jmp_buf buf;           // Jump buffer
   SCM *throw_tag;        // Thrown tag
   SCM *throw_args;       // Thrown arguments
-  bool active;           // Whether this catch is active
 };
 
-// Catch information structure
+// Catch information structure. It lives in the C stack frame of the catch, and is linked to that of the
+// enclosing one, so a continuation captures the active catches by keeping g_catch_top.
 struct catch_info {
   SCM *tag;              // Catch tag (symbol or #t)
-  struct jmp_buf_and_retval *jbr;  // Jump buffer and return value
+  struct jmp_buf_and_retval *jbr;  // Jump buffer and return value, nullptr for a throw handler
   scm_t_catch_handler handler;     // Handler function
   void *handler_data;     // Handler data
+  int lazy_catch_p;       // Throw handler: whether it is an error for the handler to return
+  SCM_List *wind_chain;   // Wind chain when the catch was entered
+  struct catch_info *prev; // The enclosing catch
 };
 
-// Structure to hold lazy catch handler information
-struct lazy_catch_data {
-  SCM *tag;
-  scm_t_catch_handler handler;
-  void *handler_data;
-  int lazy_catch_p;
-};
+// The innermost active catch or throw handler
+static struct catch_info *g_catch_top = nullptr;
+
+static int wind_chain_length(SCM_List *chain) {
+  int n = 0;
+  for (; chain; chain = chain->next) {
+    n++;
+  }
+  return n;
+}
+
+void *scm_catch_state() {
+  return g_catch_top;
+}
+
+void scm_set_catch_state(void *state) {
+  g_catch_top = (struct catch_info *)state;
+}
+
+void scm_leave_catches(SCM_List *chain) {
+  int n = wind_chain_length(chain);
+  while (g_catch_top && wind_chain_length(g_catch_top->wind_chain) > n) {
+    g_catch_top = g_catch_top->prev;
+  }
+}
 
 // Helper function to check if two tags match
 static bool tags_match(SCM *tag, SCM *key) {
@@ -62,7 +81,6 @@ SCM *scm_c_catch(SCM *tag,
   struct jmp_buf_and_retval jbr;
   jbr.throw_tag = nullptr;
   jbr.throw_args = nullptr;
-  jbr.active = false;
   
   // Allocate catch_info on stack (so it's protected from GC)
   struct catch_info info;
@@ -70,119 +88,56 @@ SCM *scm_c_catch(SCM *tag,
   info.jbr = &jbr;
   info.handler = handler;
   info.handler_data = handler_data;
+  info.lazy_catch_p = 0;
+  info.wind_chain = g_wind_chain;
+  info.prev = g_catch_top;
   
-  // Create a pair (tag . catch_info) to store in wind chain
-  // We'll use a special marker to distinguish catch entries from wind entries
-  // For simplicity, we'll store the catch_info pointer in a list
-  // Format: (tag . (jbr_ptr . (handler_ptr . handler_data_ptr)))
-  // Actually, we need to store pointers, so let's use a simpler approach:
-  // Store catch_info pointer directly (it's on stack, so it's safe)
-  
-  // Create entry: (tag . catch_info_ptr)
-  // We'll use a list where data is tag and next->data is catch_info pointer
-  // But SCM_List stores SCM*, not void*. So we need another approach.
-  // Let's create a special SCM object to hold the catch_info pointer.
-  // Actually, for now, let's just store it in a global list temporarily.
-  // Better: use a hash table or similar. But for simplicity, let's use a list.
-  
-  // For now, we'll use a simpler approach: store catch_info in a static array
-  // and use an index. But that's not scalable.
-  
-  // Better approach: create a wrapper SCM object that holds the catch_info pointer
-  // But we don't have a way to create custom SCM objects easily.
-  
-  // Simplest approach for now: use a global list of active catch_info structures
-  // We'll add the catch_info to a list when entering catch, remove when exiting.
-  // But we need to be careful about nested catches.
-  
-  // Actually, let's use a different approach: store catch_info in the wind chain
-  // by creating a special marker. We can use a special symbol or a special list structure.
-  
-  if (g_catch_stack_top >= 100) {
-    eval_error("catch: too many nested catches");
-    return nullptr;
-  }
+  // What the evaluator keeps about the expression being evaluated
+  SCM *eval_context = g_current_eval_context;
+  int eval_depth = eval_stack_depth();
 
-  // Push catch_info onto stack
-  g_catch_stack[g_catch_stack_top++] = &info;
+  g_catch_top = &info;
   
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
     // Exception was thrown - we're in the catch handler
-    g_catch_stack_top--;  // Pop from stack
-    
-    SCM *throw_tag = jbr.throw_tag;
-    SCM *throw_args = jbr.throw_args;
+    g_catch_top = info.prev;
+    g_wind_chain = info.wind_chain;
+    g_current_eval_context = eval_context;
+    trim_eval_stack(eval_depth);
     
     // Call handler
-    SCM *result = handler(handler_data, throw_tag, throw_args);
-    return result;
+    return handler(handler_data, jbr.throw_tag, jbr.throw_args);
   } else {
     // Normal execution - call body
-    jbr.active = true;
     SCM *result = body(body_data);
-    jbr.active = false;
-    
-    // Pop from stack
-    g_catch_stack_top--;
-    
+    g_catch_top = info.prev;
     return result;
   }
 }
 
 // Throw exception
 SCM *scm_throw(SCM *key, SCM *args) {
-  // First, check for lazy catch handlers in the wind chain
-  SCM_List *wind_current = g_wind_chain;
-  
-  // Static storage for lazy catch data (same as in scm_c_with_throw_handler)
-  static struct lazy_catch_data lazy_catch_storage[100];
-  
-  while (wind_current) {
-    SCM *entry = wind_current->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->data && tags_match(pair->data, key)) {
-        // Check if this is a lazy catch entry
-        if (pair->next && is_pair(pair->next->data)) {
-          SCM_List *marker_pair = cast<SCM_List>(pair->next->data);
-          if (marker_pair->data && is_sym(marker_pair->data)) {
-            SCM_Symbol *marker = cast<SCM_Symbol>(marker_pair->data);
-            if (strcmp(marker->data, "__lazy_catch__") == 0) {
-              // This is a lazy catch entry
-              if (marker_pair->next && marker_pair->next->data) {
-                SCM *index_list = marker_pair->next->data;
-                if (is_pair(index_list)) {
-                  SCM_List *index_pair = cast<SCM_List>(index_list);
-                  if (index_pair->data && is_num(index_pair->data)) {
-                    int storage_index = (int)(int64_t)index_pair->data->value;
-                    if (storage_index >= 0 && storage_index < 100) {
-                      struct lazy_catch_data *lcd = &lazy_catch_storage[storage_index];
-                      // Call the handler
-                      return lcd->handler(lcd->handler_data, key, args);
-                    }
-                  }
-                }
-              }
-            }
-          }
-        }
-      }
+  // Search from the innermost catch or throw handler
+  struct catch_info *top = g_catch_top;
+  for (struct catch_info *info = top; info; info = info->prev) {
+    if (!tags_match(info->tag, key)) {
+      continue;
     }
-    wind_current = wind_current->next;
-  }
-  
-  // Then, find matching catch in the catch stack (normal catch with stack unwinding)
-  // Search from top to bottom (most recent catch first)
-  for (int i = g_catch_stack_top - 1; i >= 0; i--) {
-    struct catch_info *info = g_catch_stack[i];
-    
-    if (info && info->jbr && info->jbr->active && tags_match(info->tag, key)) {
-      // Found matching catch - set throw info and jump
+    if (info->jbr) {
+      // A catch: run the after thunks of the extents being left, then jump
+      unwind_wind_chain(info->wind_chain);
       info->jbr->throw_tag = key;
       info->jbr->throw_args = args;
       longjmp(info->jbr->buf, 1);
     }
+    // A throw handler: call it in the context of the throw, with only the enclosing handlers active
+    g_catch_top = info->prev;
+    info->handler(info->handler_data, key, args);
+    if (info->lazy_catch_p) {
+      eval_error("throw: lazy-catch handler did return");
+    }
+    g_catch_top = top;
   }
   
   // No matching catch found - call uncaught throw handler
@@ -320,87 +275,23 @@ SCM *scm_ithrow(SCM *key, SCM *args, int noreturn) {
   return scm_throw(key, args);
 }
 
-// Helper function to check if a wind chain entry is a lazy catch handler
-static bool is_lazy_catch_entry(SCM *entry, SCM *tag) {
-  // Check if entry is a pair and matches the tag
-  if (!is_pair(entry)) {
-    return false;
-  }
-  
-  SCM_List *pair = cast<SCM_List>(entry);
-  if (!pair->data || !is_sym(pair->data)) {
-    return false;
-  }
-  
-  // Check if tag matches
-  return tags_match(pair->data, tag);
-}
-
 // With throw handler (for lazy catch) - does not unwind stack
 SCM *scm_c_with_throw_handler(SCM *tag,
                               scm_t_catch_body body, void *body_data,
                               scm_t_catch_handler handler, void *handler_data,
                               int lazy_catch_p) {
-  // Create lazy catch data structure
-  struct lazy_catch_data lcd;
-  lcd.tag = tag;
-  lcd.handler = handler;
-  lcd.handler_data = handler_data;
-  lcd.lazy_catch_p = lazy_catch_p;
-  
-  // Create a marker entry for the wind chain: (tag . lazy_catch_data_ptr)
-  // We'll use a special list structure to store this
-  // Format: (tag . (handler_ptr . handler_data_ptr))
-  // Actually, we need to store the lazy_catch_data pointer, but SCM_List only stores SCM*
-  // So we'll use a different approach: store it in a static array and use an index
-  // Or better: create a wrapper that we can store in the wind chain
-  
-  // For simplicity, we'll create a list entry: (tag . handler_info)
-  // where handler_info is a list containing the handler function pointer and data
-  // But we can't store function pointers directly in SCM objects.
-  
-  // Better approach: use a global array to store lazy_catch_data structures
-  // and store the index in the wind chain entry
-  static struct lazy_catch_data lazy_catch_storage[100];
-  static int lazy_catch_storage_top = 0;
-  
-  if (lazy_catch_storage_top >= 100) {
-    eval_error("scm_c_with_throw_handler: too many nested lazy catches");
-    return nullptr;
-  }
+  struct catch_info info;
+  info.tag = tag;
+  info.jbr = nullptr;
+  info.handler = handler;
+  info.handler_data = handler_data;
+  info.lazy_catch_p = lazy_catch_p;
+  info.wind_chain = g_wind_chain;
+  info.prev = g_catch_top;
   
-  int storage_index = lazy_catch_storage_top++;
-  lazy_catch_storage[storage_index] = lcd;
-  
-  // Create wind chain entry: (tag . storage_index)
-  // We'll use a special marker to distinguish lazy catch entries
-  // Format: (tag . (lazy_catch_marker . storage_index))
-  SCM_Symbol *lazy_catch_marker_sym = make_sym("__lazy_catch__");
-  SCM *lazy_catch_marker = wrap(lazy_catch_marker_sym);
-  SCM *index_scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-  index_scm->type = SCM::NUM;
-  index_scm->value = (void*)(int64_t)storage_index;
-  index_scm->source_loc = nullptr;
-  
-  SCM_List *marker_pair = make_list(lazy_catch_marker);
-  marker_pair->next = make_list(index_scm);
-  
-  SCM_List *wind_entry = make_list(tag);
-  wind_entry->next = marker_pair;
-  SCM *wind_entry_wrapped = wrap(wind_entry);
-  
-  // Add to wind chain
-  SCM_List *old_wind_chain = g_wind_chain;
-  SCM_List *new_wind_entry = make_list(wind_entry_wrapped);
-  new_wind_entry->next = g_wind_chain;
-  g_wind_chain = new_wind_entry;
-  
-  // Call body
+  g_catch_top = &info;
   SCM *result = body(body_data);
-  
-  // Remove from wind chain
-  g_wind_chain = old_wind_chain;
-  lazy_catch_storage_top--;  // Free the storage slot
+  g_catch_top = info.prev;
   
   return result;
 }
@@ -421,26 +312,18 @@ SCM *scm_internal_lazy_catch(SCM *tag,
   return scm_c_with_throw_handler(tag, body, body_data, handler, handler_data, 1);
 }
 
+static bool is_callable(SCM *scm) {
+  return is_proc(scm) || is_func(scm) || is_cont(scm);
+}
+
 // Body function for Scheme catch (thunk)
 static SCM *scm_body_thunk(void *body_data) {
-  SCM *thunk = (SCM *)body_data;
-  if (!is_proc(thunk)) {
-    eval_error("catch: thunk must be a procedure");
-  }
-  SCM_Procedure *proc = cast<SCM_Procedure>(thunk);
-  // Use the procedure's environment if available, otherwise use g_env
-  // The procedure's environment captures the lexical scope where it was defined
-  SCM_Environment *env = proc->env ? proc->env : &g_env;
-  return apply_procedure(env, proc, nullptr);
+  return eval_with_env(&g_env, scm_list1((SCM *)body_data));
 }
 
 // Handler function for Scheme catch
 static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
   SCM *handler = (SCM *)handler_data;
-  if (!is_proc(handler)) {
-    eval_error("catch: handler must be a procedure");
-  }
-  SCM_Procedure *proc = cast<SCM_Procedure>(handler);
   
   // Build argument list: (tag . args)
   SCM_List *arg_list = make_list(tag);
@@ -460,13 +343,23 @@ static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
     }
   }
   
-  // Use apply_procedure_with_values because arguments are already evaluated
-  return apply_procedure_with_values(proc->env, proc, arg_list);
+  if (is_proc(handler)) {
+    // Use apply_procedure_with_values because arguments are already evaluated
+    SCM_Procedure *proc = cast<SCM_Procedure>(handler);
+    return apply_procedure_with_values(proc->env, proc, arg_list);
+  }
+  SCM_List *call = make_list(handler);
+  SCM_List *call_tail = call;
+  for (; arg_list; arg_list = arg_list->next) {
+    call_tail->next = make_list(scm_list2(scm_sym_quote(), arg_list->data));
+    call_tail = call_tail->next;
+  }
+  return eval_with_env(&g_env, wrap(call));
 }
 
 // Scheme-callable catch function
 SCM *scm_c_catch_scheme(SCM_List *args) {
-  if (!args || !args->next || !args->next->next) {
+  if (!args || !args->next || !args->next->next || args->next->next->next) {
     eval_error("catch: expected 3 arguments (tag thunk handler)");
   }
   
@@ -481,10 +374,10 @@ SCM *scm_c_catch_scheme(SCM_List *args) {
   }
   
   // Verify thunk and handler are procedures
-  if (!is_proc(thunk)) {
+  if (!is_callable(thunk)) {
     eval_error("catch: thunk must be a procedure");
   }
-  if (!is_proc(handler)) {
+  if (!is_callable(handler)) {
     eval_error("catch: handler must be a procedure");
   }
   
diff --git a/src/c/throw.h b/src/c/throw.h
index 96388a8..c432c21 100644
--- a/src/c/throw.h
+++ b/src/c/throw.h
@@ -37,6 +37,13 @@ SCM *scm_c_with_throw_handler(SCM *tag,
                               scm_t_catch_handler handler, void *handler_data,
                               int lazy_catch_p);
 
+// The active catches: what a continuation keeps when it is captured, and reinstates when it is invoked
+void *scm_catch_state();
+void scm_set_catch_state(void *state);
+
+// Leave the catches entered since the wind chain was CHAIN or shorter
+void scm_leave_catches(SCM_List *chain);
+
 // Scheme-callable catch function
 SCM *scm_c_catch_scheme(SCM_List *args);
 
-- 
2.43.0


From 820424f410cd9bdda6e6a9d65bfe2bef04c7d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 22/82] fix: the collector scans the stack and registers saved
 in continuations

---
 src/c/gc.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index e105de5..1b4627c 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -548,7 +548,19 @@ static void trace_cont(GCBlock *block, MarkStack *stack) {
   trace_ptr(cont->arg,          stack); // SCM*
   trace_ptr(cont->saved_module, stack); // SCM*
   trace_ptr(cont->wind_chain,   stack); // SCM_List*
-  // stack_data / dst / stack_src are internal C data -- not traced.
+  trace_ptr(cont->eval_context, stack); // SCM*
+  // The saved stack and registers hold the pending evaluation: scan them
+  // conservatively, like the C stack.
+  void **words = (void **)cont->stack_data;
+  if (words) {
+    for (size_t i = 0; i < cont->stack_len; i++) {
+      mark_if_valid_block(words[i], stack);
+    }
+  }
+  words = (void **)&cont->cont_jump_buffer;
+  for (size_t i = 0; i < sizeof(jmp_buf) / sizeof(void *); i++) {
+    mark_if_valid_block(words[i], stack);
+  }
 }
 
 // --- GC_MODULE --------------------------------------------------------
-- 
2.43.0


From 2c2230ee5a46bf67bec747d7e935557b0d588934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 23/82] fix: a catch handler of a throw without arguments
 receives the key alone

---
 src/c/throw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index 82fdb11..6a310e0 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -327,7 +327,7 @@ static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
   
   // Build argument list: (tag . args)
   SCM_List *arg_list = make_list(tag);
-  if (args) {
+  if (args && !is_nil(args)) {
     if (is_pair(args)) {
       SCM_List *args_list = cast<SCM_List>(args);
       SCM_List *current = args_list;
-- 
2.43.0


From 6976813a8bb8a9c33b624a33c7103da2148d6810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 24/82] fix: the reader accepts the octal string escapes that
 write produces

---
 src/c/parse.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 242bce6..af4bac2 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -662,6 +662,11 @@ static SCM *parse_vector(Parser *p) {
   return scm;
 }
 
+// Check for the three octal digits (\ooo) that write uses for non-printable characters
+static bool is_octal_escape(const char *s, const char *end) {
+  return end - s >= 3 && s[0] >= '0' && s[0] <= '3' && s[1] >= '0' && s[1] <= '7' && s[2] >= '0' && s[2] <= '7';
+}
+
 // Parse a string
 static SCM *parse_string(Parser *p) {
   if (*p->pos != '"') {
@@ -723,7 +728,7 @@ static SCM *parse_string(Parser *p) {
       escape = false;
       // Escape sequence counts as one character
       actual_len++;
-      src++;
+      src += is_octal_escape(src, end) ? 3 : 1;
     } else if (*src == '\\') {
       escape = true;
       src++;
@@ -740,7 +745,11 @@ static SCM *parse_string(Parser *p) {
   escape = false;
   
   while (src < end) {
-    if (escape) {
+    if (escape && is_octal_escape(src, end)) {
+      escape = false;
+      *dst++ = (char)((src[0] - '0') * 64 + (src[1] - '0') * 8 + (src[2] - '0'));
+      src += 3;
+    } else if (escape) {
       escape = false;
       switch (*src) {
         case 'n': *dst++ = '\n'; break;
-- 
2.43.0


From d089cf1baf72836b62fd380d14a9c6e4d82967a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 25/82] fix: number->string and string->number agree on all
 exact numbers and reject text that is not a number

---
 src/c/string.cc | 99 +++++++++++++++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 40 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 07ef9d1..7dad249 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -3,6 +3,9 @@
 #include <cstring>
 #include <ctype.h>
 
+// Defined in number.cc
+SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
+
 // string-length: Return the number of characters in string
 SCM *scm_c_string_length(SCM *str) {
   if (!is_str(str)) {
@@ -381,6 +384,21 @@ SCM *scm_c_string(SCM_List *args) {
   return scm;
 }
 
+// Count the leading characters of a string that are digits in the given radix
+static size_t count_digits(const char *str, int radix) {
+  size_t n = 0;
+  while (true) {
+    char c = str[n];
+    int digit = (c >= '0' && c <= '9') ? c - '0'
+              : (c >= 'a' && c <= 'z') ? c - 'a' + 10
+              : (c >= 'A' && c <= 'Z') ? c - 'A' + 10 : radix;
+    if (digit >= radix) {
+      return n;
+    }
+    n++;
+  }
+}
+
 // string->number: Convert a string to a number
 // (string->number string [radix]) -> number or #f
 SCM *scm_c_string_to_number(SCM_List *args) {
@@ -422,44 +440,45 @@ SCM *scm_c_string_to_number(SCM_List *args) {
   memcpy(str, s->data, s->len);
   str[s->len] = '\0';
   
-  // Try to parse as number
-  // For now, we'll use a simple approach: try strtol/strtod
-  // This doesn't handle all Scheme number formats, but covers basic cases
-  char *endptr;
-  
-  // Check if it's a float (contains '.', 'e', or 'E')
-  bool is_float_str = false;
-  for (int i = 0; i < s->len; i++) {
-    if (str[i] == '.' || str[i] == 'e' || str[i] == 'E') {
-      is_float_str = true;
-      break;
+  // Only the written forms of numbers are accepted: strtol and strtod would also
+  // take leading white space, hexadecimal prefixes and the like
+  SCM *result = scm_bool_false();
+  size_t sign = (str[0] == '-' || str[0] == '+') ? 1 : 0;
+  size_t pos = sign;
+  size_t digits = count_digits(str + pos, radix);
+  pos += digits;
+  if (digits > 0 && str[pos] == '\0' && pos == (size_t)s->len) {
+    // Integer
+    SCM *num = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
+    num->type = SCM::NUM;
+    num->value = (void *)(int64_t)strtoll(str, nullptr, radix);
+    num->source_loc = nullptr;
+    result = num;
+  } else if (digits > 0 && str[pos] == '/') {
+    // Ratio
+    size_t den_pos = pos + 1;
+    size_t den_digits = count_digits(str + den_pos, radix);
+    if (den_digits > 0 && den_pos + den_digits == (size_t)s->len) {
+      int64_t den = strtoll(str + den_pos, nullptr, radix);
+      if (den != 0) {
+        result = scm_make_ratio(strtoll(str, nullptr, radix), den);
+      }
     }
-  }
-  
-  SCM *result = nullptr;
-  
-  if (is_float_str && radix == 10) {
-    // Parse as float
-    double val = strtod(str, &endptr);
-    if (endptr == str || *endptr != '\0') {
-      // Failed to parse
-      result = scm_bool_false();
-    } else {
-      result = scm_from_double(val);
+  } else if (radix == 10) {
+    // Decimal number with a fraction and/or an exponent
+    if (str[pos] == '.') {
+      size_t frac_digits = count_digits(str + pos + 1, 10);
+      digits += frac_digits;
+      pos += 1 + frac_digits;
     }
-  } else {
-    // Parse as integer
-    long val = strtol(str, &endptr, radix);
-    if (endptr == str || *endptr != '\0') {
-      // Failed to parse
-      result = scm_bool_false();
-    } else {
-      // Create number directly
-      SCM *num = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-      num->type = SCM::NUM;
-      num->value = (void *)(int64_t)val;
-      num->source_loc = nullptr;
-      result = num;
+    if (digits > 0 && (str[pos] == 'e' || str[pos] == 'E')) {
+      size_t exp_pos = pos + 1;
+      if (str[exp_pos] == '-' || str[exp_pos] == '+') exp_pos++;
+      size_t exp_digits = count_digits(str + exp_pos, 10);
+      pos = exp_digits > 0 ? exp_pos + exp_digits : pos;
+    }
+    if (digits > 0 && pos == (size_t)s->len) {
+      result = scm_from_double(strtod(str, nullptr));
     }
   }
   
@@ -478,16 +497,16 @@ static char* int_to_string_radix(int64_t val, int radix) {
   
   // Handle negative numbers
   bool negative = false;
-  int64_t uval;
+  uint64_t uval;
   if (val < 0) {
     negative = true;
-    uval = -val;
+    uval = -(uint64_t)val;
   } else {
     uval = val;
   }
   
   // Calculate string length
-  int64_t temp = uval;
+  uint64_t temp = uval;
   int len = 0;
   while (temp > 0) {
     len++;
@@ -567,7 +586,7 @@ SCM *scm_c_number_to_string(SCM_List *args) {
       // Integer value stored as float: print with .0 to show it's a float
       str_len = snprintf(str_data, 64, "%.1f", val);
     } else {
-      str_len = snprintf(str_data, 64, "%g", val);
+      str_len = snprintf(str_data, 64, "%.14g", val);
     }
   } else if (is_ratio(num_scm)) {
     if (radix != 10) {
-- 
2.43.0


From e473414a3fb782031426afd6f34918150ebe609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 26/82] fix: the reader accepts ratios and rounds decimal
 numbers correctly

---
 src/c/parse.cc | 68 ++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index af4bac2..58d2c33 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -6,6 +6,10 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <string>
+
+// Defined in number.cc
+SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
 
 // Simple Scheme parser implementation from scratch
 
@@ -345,23 +349,36 @@ static SCM *parse_number(Parser *p) {
   
   // Check for decimal point
   bool is_float = false;
-  double float_value = (double)int_part;
+  double float_value = 0.0;
+  
+  // Ratio literal: digits '/' digits
+  if (*p->pos == '/' && isdigit((unsigned char)p->pos[1])) {
+    p->pos++;
+    p->column++;
+    int64_t denominator = 0;
+    while (isdigit((unsigned char)*p->pos)) {
+      denominator = denominator * 10 + (*p->pos - '0');
+      p->pos++;
+      p->column++;
+    }
+    if (denominator == 0) {
+      parse_error(p, "division by zero in ratio literal");
+    }
+    SCM *ratio = scm_make_ratio(negative ? -int_part : int_part, denominator);
+    set_source_location(ratio, p->filename, start_line, start_column);
+    return ratio;
+  }
   
   if (*p->pos == '.') {
     is_float = true;
     p->pos++;
     p->column++;
   
-    // Parse fractional part
-    double fractional = 0.0;
-    double divisor = 1.0;
+    // Skip fractional part
     while (isdigit((unsigned char)*p->pos)) {
-      fractional = fractional * 10 + (*p->pos - '0');
-      divisor *= 10;
       p->pos++;
       p->column++;
     }
-    float_value += fractional / divisor;
   }
   
   // Check for exponent (scientific notation)
@@ -370,47 +387,26 @@ static SCM *parse_number(Parser *p) {
     p->pos++;
     p->column++;
     
-    // Parse exponent sign
-    bool exp_negative = false;
-    if (*p->pos == '-') {
-      exp_negative = true;
-      p->pos++;
-      p->column++;
-    } else if (*p->pos == '+') {
+    // Skip exponent
+    if (*p->pos == '-' || *p->pos == '+') {
       p->pos++;
       p->column++;
     }
-    
-    // Parse exponent value
-    long exp = 0;
     if (!isdigit((unsigned char)*p->pos)) {
       parse_error(p, "expected digit after exponent marker");
     }
     while (isdigit((unsigned char)*p->pos)) {
-      exp = exp * 10 + (*p->pos - '0');
       p->pos++;
       p->column++;
     }
-    
-    // Apply exponent
-    double multiplier = 1.0;
-    for (long i = 0; i < exp; i++) {
-      multiplier *= 10.0;
-    }
-    if (exp_negative) {
-      float_value /= multiplier;
-    } else {
-      float_value *= multiplier;
-    }
   }
   
-  // Apply sign
-  if (negative) {
-    if (is_float) {
-      float_value = -float_value;
-    } else {
-      int_part = -int_part;
-    }
+  if (is_float) {
+    // The nearest double to the decimal number as written
+    std::string text(start, p->pos - start);
+    float_value = strtod(text.c_str(), nullptr);
+  } else if (negative) {
+    int_part = -int_part;
   }
   
   // Create SCM object
-- 
2.43.0


From bb8e9b0fd21d80ede13f949e353f5761b84390f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 27/82] fix: an unquote may follow whitespace after another
 abbreviation, and #t and #f end at any delimiter

---
 src/c/parse.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 58d2c33..64fb3a1 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -312,6 +312,11 @@ static char consume(Parser *p) {
   return c;
 }
 
+// Check for a character that ends a token
+static bool is_delimiter(char c) {
+  return c == '\0' || isspace((unsigned char)c) || strchr("();\"'`,", c) != nullptr;
+}
+
 // Parse a number (only if it starts with a digit, or +/- followed by a digit)
 static SCM *parse_number(Parser *p) {
   const char *start = p->pos;
@@ -788,9 +793,7 @@ static SCM *parse_symbol(Parser *p) {
   int len = 0;
   
   // Check for special literals first
-  if (strncmp(p->pos, "#t", 2) == 0 && 
-      (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-       p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';')) {
+  if (strncmp(p->pos, "#t", 2) == 0 && is_delimiter(p->pos[2])) {
     p->pos += 2;
     p->column += 2;
     SCM *result = scm_bool_true();
@@ -798,9 +801,7 @@ static SCM *parse_symbol(Parser *p) {
     return result;
   }
   
-  if (strncmp(p->pos, "#f", 2) == 0 && 
-      (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-       p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';')) {
+  if (strncmp(p->pos, "#f", 2) == 0 && is_delimiter(p->pos[2])) {
     p->pos += 2;
     p->column += 2;
     SCM *result = scm_bool_false();
@@ -1213,6 +1214,11 @@ static SCM *parse_expr(Parser *p) {
     return parse_quasiquote(p);
   }
   
+  // Unquote / unquote-splicing
+  if (*p->pos == ',') {
+    return parse_unquote_in_list(p);
+  }
+  
   // List
   if (*p->pos == '(') {
     return parse_list(p);
@@ -1289,12 +1295,8 @@ static SCM *parse_expr(Parser *p) {
   
   // Special case: check for 1+ and 1- symbols before parsing as number
   // These are valid Scheme identifiers that start with a digit
-  if ((strncmp(p->pos, "1+", 2) == 0 && 
-       (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-        p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';')) ||
-      (strncmp(p->pos, "1-", 2) == 0 && 
-       (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-        p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';'))) {
+  if ((strncmp(p->pos, "1+", 2) == 0 || strncmp(p->pos, "1-", 2) == 0) &&
+      is_delimiter(p->pos[2])) {
     // Parse as symbol instead of number
     result = parse_symbol(p);
     if (result) {
-- 
2.43.0


From ccc65af528a261ff213fdce6e5968ddeb485ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 28/82] fix: line and column stay right after multi-line
 strings and newline characters, and a parse error leaves no stale parse
 context

---
 src/c/parse.cc | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 64fb3a1..fbc1b4a 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -70,6 +70,13 @@ static void pop_parse_stack() {
   }
 }
 
+// Drop all parse contexts
+static void clear_parse_stack() {
+  while (g_parse_stack) {
+    pop_parse_stack();
+  }
+}
+
 // Print the parse stack
 static void print_parse_stack(Parser *p) {
   if (!g_parse_stack) {
@@ -258,6 +265,7 @@ static void parse_error(Parser *p, const char *msg) {
   }
   
   fflush(stderr);
+  clear_parse_stack();  // eval_error does not return to the callers that would pop it
   eval_error("Parse error: %s", msg);
 }
 
@@ -458,7 +466,8 @@ static SCM *parse_char(Parser *p) {
     } else if (*p->pos == '\n') {
       ch = '\n';
       p->pos++;
-      p->column++;
+      p->line++;
+      p->column = 1;
     } else if (*p->pos == '\t') {
       ch = '\t';
       p->pos++;
@@ -686,24 +695,13 @@ static SCM *parse_string(Parser *p) {
   
   // First pass: find the end of the string and track line numbers
   while (*p->pos) {
-    if (escape) {
-      escape = false;
-      p->pos++;
-      p->column++;
-      continue;
-    }
-    if (*p->pos == '\\') {
-      escape = true;
-      p->pos++;
-      p->column++;
-      continue;
-    }
-    if (*p->pos == '"') {
+    if (!escape && *p->pos == '"') {
       break;
     }
+    escape = !escape && *p->pos == '\\';
     if (*p->pos == '\n') {
       p->line++;
-      p->column = 1;
+      p->column = 0;
     }
     p->pos++;
     p->column++;
-- 
2.43.0


From a10408ad93a5fb6e317316a42d5079e4f39bff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 29/82] fix: read takes exactly one datum from a port; soft
 ports open for both directions write, peek and accept strings; output to
 ports keeps NUL characters

---
 src/c/port.cc      | 360 ++++++++++++++++++++++-----------------------
 src/c/pscm_types.h |   1 +
 src/c/string.cc    | 130 ++++------------
 3 files changed, 206 insertions(+), 285 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index c39c9a4..25ea3e1 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <ctype.h>
+#include <string>
 
 // Forward declaration
 SCM *parse(const char *s);
@@ -17,6 +18,21 @@ static SCM *wrap_port(SCM_Port *port) {
   return scm;
 }
 
+// A soft port reads and writes as its modes string says, every other port as it was opened
+static bool port_can_read(SCM_Port *port) {
+  if (port->port_type == PORT_SOFT) {
+    return port->soft_modes && strchr(port->soft_modes, 'r') != nullptr;
+  }
+  return port->is_input;
+}
+
+bool port_can_write(SCM_Port *port) {
+  if (port->port_type == PORT_SOFT) {
+    return port->soft_modes && strchr(port->soft_modes, 'w') != nullptr;
+  }
+  return !port->is_input;
+}
+
 // Helper function to call a soft port thunk (procedure with no arguments)
 // Returns the result, or nullptr if the procedure is invalid
 static SCM *call_soft_port_thunk(SCM *proc) {
@@ -39,6 +55,32 @@ static SCM *call_soft_port_thunk(SCM *proc) {
   return nullptr;
 }
 
+// Helper function to pass an object to the output procedure of a soft port at the given index
+static void call_soft_port_output(SCM_Port *port, size_t index, SCM *obj) {
+  if (!port_can_write(port) || !port->soft_procedures || port->soft_procedures->length <= index) {
+    return;
+  }
+  SCM *output_proc = port->soft_procedures->elements[index];
+  if (!output_proc || is_falsy(output_proc)) {
+    return;
+  }
+  SCM_List proc_args;
+  proc_args.data = obj;
+  proc_args.next = nullptr;
+  proc_args.is_dotted = false;
+  if (is_proc(output_proc)) {
+    SCM_Procedure *proc = cast<SCM_Procedure>(output_proc);
+    apply_procedure(g_env.parent ? g_env.parent : &g_env, proc, &proc_args);
+  } else if (is_func(output_proc)) {
+    SCM_Function *func = cast<SCM_Function>(output_proc);
+    SCM_List func_call;
+    func_call.data = output_proc;
+    func_call.next = &proc_args;
+    func_call.is_dotted = false;
+    eval_with_func(func, &func_call);
+  }
+}
+
 // EOF object singleton
 static SCM *g_eof_object = nullptr;
 
@@ -123,7 +165,7 @@ SCM *scm_c_close_input_port(SCM *port) {
   }
   
   SCM_Port *p = cast<SCM_Port>(port);
-  if (!p->is_input) {
+  if (!port_can_read(p)) {
     eval_error("close-input-port: expected input port");
     return nullptr;
   }
@@ -155,7 +197,7 @@ SCM *scm_c_close_output_port(SCM *port) {
   }
   
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!port_can_write(p)) {
     eval_error("close-output-port: expected output port");
     return nullptr;
   }
@@ -274,7 +316,12 @@ static int read_char_from_port(SCM_Port *port) {
       return EOF;
     }
     return (unsigned char)port->string_data[port->string_pos++];
-  } else if (port->port_type == PORT_SOFT && port->is_input) {
+  } else if (port->port_type == PORT_SOFT && port_can_read(port)) {
+    if (port->soft_peeked) {
+      int ch = port->soft_peeked - 1;
+      port->soft_peeked = 0;
+      return ch;
+    }
     // Call procedure at index 3 (get one character)
     if (!port->soft_procedures || port->soft_procedures->length < 4) {
       return EOF;
@@ -302,23 +349,6 @@ static int read_char_from_port(SCM_Port *port) {
   return EOF;
 }
 
-// Helper function to unread a character (for peek)
-static void unread_char_from_port(SCM_Port *port) {
-  if (port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_INPUT) {
-    if (port->file) {
-      ungetc(fgetc(port->file), port->file);  // This is a hack, we need to track last char
-    }
-  } else if (port->port_type == PORT_STRING_INPUT) {
-    if (port->string_pos > 0) {
-      port->string_pos--;
-    }
-  }
-}
-
 // Helper function to peek a character from a port
 static int peek_char_from_port(SCM_Port *port) {
   if (port->is_closed) {
@@ -339,6 +369,12 @@ static int peek_char_from_port(SCM_Port *port) {
       return EOF;
     }
     return (unsigned char)port->string_data[port->string_pos];
+  } else if (port->port_type == PORT_SOFT) {
+    int ch = read_char_from_port(port);
+    if (ch != EOF) {
+      port->soft_peeked = ch + 1;
+    }
+    return ch;
   }
   
   return EOF;
@@ -361,31 +397,25 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
     }
     port->output_buffer[port->output_len++] = ch;
     port->output_buffer[port->output_len] = '\0';
-  } else if (port->port_type == PORT_SOFT && !port->is_input) {
+  } else if (port->port_type == PORT_SOFT) {
     // Call procedure at index 0 (accept one character for output)
-    if (!port->soft_procedures || port->soft_procedures->length < 1) {
-      return;
-    }
-    SCM *write_char_proc = port->soft_procedures->elements[0];
-    if (!write_char_proc || is_falsy(write_char_proc)) {
-      return;
-    }
-    // Call the procedure with the character
-    SCM *char_obj = scm_from_char(ch);
-    SCM_List proc_args;
-    proc_args.data = char_obj;
-    proc_args.next = nullptr;
-    proc_args.is_dotted = false;
-    if (is_proc(write_char_proc)) {
-      SCM_Procedure *proc = cast<SCM_Procedure>(write_char_proc);
-      apply_procedure(g_env.parent ? g_env.parent : &g_env, proc, &proc_args);
-    } else if (is_func(write_char_proc)) {
-      SCM_Function *func = cast<SCM_Function>(write_char_proc);
-      SCM_List func_call;
-      func_call.data = write_char_proc;
-      func_call.next = &proc_args;
-      eval_with_func(func, &func_call);
-    }
+    call_soft_port_output(port, 0, scm_from_char(ch));
+  }
+}
+
+// Helper function to write a string to a port (exported for use in string.cc)
+void write_string_to_port(SCM_Port *port, const char *str, int len) {
+  if (port->is_closed) {
+    return;
+  }
+  
+  if (port->port_type == PORT_SOFT) {
+    // Call procedure at index 1 (accept a string for output)
+    call_soft_port_output(port, 1, scm_from_c_string_port(str, len));
+    return;
+  }
+  for (int i = 0; i < len; i++) {
+    write_char_to_port_string(port, str[i]);
   }
 }
 
@@ -399,7 +429,7 @@ static void flush_port(SCM_Port *port) {
     if (port->file) {
       fflush(port->file);
     }
-  } else if (port->port_type == PORT_SOFT && !port->is_input) {
+  } else if (port->port_type == PORT_SOFT && port_can_write(port)) {
     // Call procedure at index 2 (flush output thunk)
     if (!port->soft_procedures || port->soft_procedures->length < 3) {
       return;
@@ -444,7 +474,7 @@ SCM *scm_set_current_error_port(SCM *port) {
     return nullptr;
   }
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!port_can_write(p)) {
     eval_error("set-current-error-port: expected output port");
     return nullptr;
   }
@@ -483,7 +513,7 @@ SCM *scm_set_current_input_port(SCM *port) {
     return nullptr;
   }
   SCM_Port *p = cast<SCM_Port>(port);
-  if (!p->is_input) {
+  if (!port_can_read(p)) {
     eval_error("set-current-input-port: expected input port");
     return nullptr;
   }
@@ -518,7 +548,7 @@ SCM *scm_set_current_output_port(SCM *port) {
     return nullptr;
   }
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!port_can_write(p)) {
     eval_error("set-current-output-port: expected output port");
     return nullptr;
   }
@@ -547,7 +577,7 @@ SCM *scm_force_output(SCM_List *args) {
   }
   
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!port_can_write(p)) {
     eval_error("force-output: expected output port");
     return nullptr;
   }
@@ -556,144 +586,114 @@ SCM *scm_force_output(SCM_List *args) {
   return scm_none();
 }
 
-// Helper function to read a complete expression from port
-// This reads characters until we have a complete expression
-static SCM *read_expr_from_port(SCM_Port *port) {
-  if (port->is_closed) {
-    return scm_eof_object();
-  }
-  
-  // Build a buffer with the expression
-  // Use dynamic allocation for large expressions
-  size_t buffer_size = 4096;
-  char *buffer = (char *)malloc(buffer_size);
-  if (!buffer) {
-    eval_error("read: out of memory");
-    return scm_eof_object();
-  }
-  int pos = 0;
-  int paren_depth = 0;
-  bool in_string = false;
-  bool escaped = false;
-  bool started = false;
-  
-  // Skip leading whitespace and comments
+// Helper function to read the text of one complete datum from a port, and nothing after it.
+// Returns false at the end of the input before any datum.
+static bool read_datum_text(SCM_Port *port, std::string &text) {
+  int depth = 0;
+  bool prefix = false;  // after an abbreviation such as '
   while (true) {
-    int ch = peek_char_from_port(port);
+    int ch = read_char_from_port(port);
     if (ch == EOF) {
-      if (!started) {
-        return scm_eof_object();
+      if (depth > 0 || prefix) {
+        eval_error("read: unexpected end of input");
       }
-      break;
+      return false;
     }
-    
-    // Skip whitespace
     if (isspace(ch)) {
-      read_char_from_port(port);  // Consume whitespace
+      text += (char)ch;
       continue;
     }
-    
-    // Skip comments (lines starting with ;)
     if (ch == ';') {
-      // Read until end of line
-      while (true) {
-        int comment_ch = read_char_from_port(port);
-        if (comment_ch == EOF || comment_ch == '\n' || comment_ch == '\r') {
-          // Skip the newline if we read it
-          if (comment_ch == '\r') {
-            int next_ch = peek_char_from_port(port);
-            if (next_ch == '\n') {
-              read_char_from_port(port);
-            }
-          }
-          break;
-        }
+      // Comment until the end of the line
+      while (ch != EOF && ch != '\n') {
+        ch = read_char_from_port(port);
       }
+      text += '\n';
       continue;
     }
-    
-    // Found non-whitespace, non-comment character
-    started = true;
-    break;
-  }
-  
-  if (!started) {
-    return scm_eof_object();
-  }
-  
-  // Read until we have a complete expression
-  while (pos < (int)buffer_size - 1) {
-    int ch = read_char_from_port(port);
-    if (ch == EOF) {
-      if (paren_depth == 0 && !in_string) {
-        break;
-      }
-      // Incomplete expression
-      free(buffer);
-      return scm_eof_object();
-    }
-    
-    // Resize buffer if needed
-    if (pos >= (int)buffer_size - 1) {
-      buffer_size *= 2;
-      char *new_buffer = (char *)realloc(buffer, buffer_size);
-      if (!new_buffer) {
-        free(buffer);
-        eval_error("read: out of memory");
-        return scm_eof_object();
+    text += (char)ch;
+    // Look further only where the datum may go on
+    int next = strchr("()\"'`", ch) ? EOF : peek_char_from_port(port);
+    if (ch == '\'' || ch == '`' || ch == ',') {
+      if (ch == ',' && next == '@') {
+        text += (char)read_char_from_port(port);
       }
-      buffer = new_buffer;
-    }
-    
-    buffer[pos++] = (char)ch;
-    
-    if (escaped) {
-      escaped = false;
-      continue;
-    }
-    
-    if (ch == '\\' && in_string) {
-      escaped = true;
+      prefix = true;
       continue;
     }
-    
-    if (ch == '"') {
-      in_string = !in_string;
-      continue;
-    }
-    
-    if (in_string) {
+    prefix = false;
+    if (ch == '(' || (ch == '#' && next == '(')) {
+      if (ch == '#') {
+        text += (char)read_char_from_port(port);
+      }
+      depth++;
       continue;
     }
-    
-    if (ch == '(') {
-      paren_depth++;
-    } else if (ch == ')') {
-      paren_depth--;
-      if (paren_depth < 0) {
-        // Too many closing parens
-        break;
+    if (ch == ')') {
+      depth--;
+    } else if (ch == '"') {
+      bool escaped = false;
+      while (true) {
+        ch = read_char_from_port(port);
+        if (ch == EOF) {
+          eval_error("read: unexpected end of input");
+          return false;
+        }
+        text += (char)ch;
+        if (ch == '"' && !escaped) {
+          break;
+        }
+        escaped = ch == '\\' && !escaped;
+      }
+    } else {
+      if (ch == '#' && next == '\\') {
+        // The character after #\ belongs to the literal, whatever it is
+        text += (char)read_char_from_port(port);
+        ch = read_char_from_port(port);
+        if (ch == EOF) {
+          eval_error("read: unexpected end of input");
+          return false;
+        }
+        text += (char)ch;
+        next = peek_char_from_port(port);
+        if (!isalpha(ch)) {
+          next = EOF;
+        }
+      } else if (ch == '#' && next == '{') {
+        while ((ch = read_char_from_port(port)) != EOF) {
+          text += (char)ch;
+          if (ch == '}' && peek_char_from_port(port) == '#') {
+            break;
+          }
+        }
+        next = peek_char_from_port(port);
       }
-      if (paren_depth == 0) {
-        // Complete expression
-        break;
+      // Rest of the token
+      bool escaped = ch == '\\';
+      while (next != EOF && !isspace(next) &&
+             (escaped ? strchr("();", next) : strchr("();\"'`,", next)) == nullptr) {
+        ch = read_char_from_port(port);
+        text += (char)ch;
+        escaped = ch == '\\' && !escaped;
+        next = peek_char_from_port(port);
       }
-    } else if (paren_depth == 0 && (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r')) {
-      // End of expression at top level
-      pos--;  // Don't include the whitespace
-      break;
+    }
+    if (depth <= 0) {
+      return true;
     }
   }
-  
-  buffer[pos] = '\0';
-  
-  // Parse the expression
-  SCM *result = parse(buffer);
-  
-  // Free the buffer
-  free(buffer);
-  
-  return result;
+}
+
+// Helper function to read a complete expression from port
+static SCM *read_expr_from_port(SCM_Port *port) {
+  if (port->is_closed) {
+    return scm_eof_object();
+  }
+  std::string text;
+  if (!read_datum_text(port, text)) {
+    return scm_eof_object();
+  }
+  return parse(text.c_str());
 }
 
 // read-char: Read a character from a port
@@ -717,13 +717,7 @@ SCM *scm_c_read_char(SCM_List *args) {
   }
   
   port = cast<SCM_Port>(port_arg);
-  // For soft ports, check modes string instead of is_input
-  if (port->port_type == PORT_SOFT) {
-    if (!port->soft_modes || strchr(port->soft_modes, 'r') == nullptr) {
-      eval_error("read-char: expected input port");
-      return nullptr;
-    }
-  } else if (!port->is_input) {
+  if (!port_can_read(port)) {
     eval_error("read-char: expected input port");
     return nullptr;
   }
@@ -757,7 +751,7 @@ SCM *scm_c_peek_char(SCM_List *args) {
   }
   
   port = cast<SCM_Port>(port_arg);
-  if (!port->is_input) {
+  if (!port_can_read(port)) {
     eval_error("peek-char: expected input port");
     return nullptr;
   }
@@ -791,7 +785,7 @@ SCM *scm_c_read(SCM_List *args) {
   }
   
   port = cast<SCM_Port>(port_arg);
-  if (!port->is_input) {
+  if (!port_can_read(port)) {
     eval_error("read: expected input port");
     return nullptr;
   }
@@ -811,7 +805,7 @@ SCM *scm_c_is_input_port(SCM *obj) {
     return scm_bool_false();
   }
   SCM_Port *port = cast<SCM_Port>(obj);
-  return port->is_input ? scm_bool_true() : scm_bool_false();
+  return port_can_read(port) ? scm_bool_true() : scm_bool_false();
 }
 
 // output-port?: Check if an object is an output port
@@ -820,7 +814,7 @@ SCM *scm_c_is_output_port(SCM *obj) {
     return scm_bool_false();
   }
   SCM_Port *port = cast<SCM_Port>(obj);
-  return port->is_input ? scm_bool_false() : scm_bool_true();
+  return port_can_write(port) ? scm_bool_true() : scm_bool_false();
 }
 
 // write-char: Write a character to a port
@@ -849,13 +843,7 @@ SCM *scm_c_write_char(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    // For soft ports, check modes string instead of is_input
-    if (port->port_type == PORT_SOFT) {
-      if (!port->soft_modes || strchr(port->soft_modes, 'w') == nullptr) {
-        eval_error("write-char: expected output port");
-        return nullptr;
-      }
-    } else if (port->is_input) {
+    if (!port_can_write(port)) {
       eval_error("write-char: expected output port");
       return nullptr;
     }
@@ -888,7 +876,7 @@ SCM *scm_c_char_ready(SCM_List *args) {
   }
   
   port = cast<SCM_Port>(port_arg);
-  if (!port->is_input) {
+  if (!port_can_read(port)) {
     eval_error("char-ready?: expected input port");
     return nullptr;
   }
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index 472f63c..acaee7d 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -164,6 +164,7 @@ struct SCM_Port {
   // [5] = (optional) thunk for computing number of characters available
   SCM_Vector *soft_procedures;  // Vector of procedures for soft port
   char *soft_modes;              // Modes string for soft port ("r", "w", "rw")
+  int soft_peeked;               // Character peeked from a soft port, plus one; 0 when there is none
 };
 
 struct SCM_Environment {
diff --git a/src/c/string.cc b/src/c/string.cc
index 7dad249..ea14240 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -120,46 +120,36 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
   return scm_none(); // Return unspecified value
 }
 
-// Helper function to write string to port
-static void write_string_to_port(SCM_Port *port, const char *str) {
-  if (!port || port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fputs(str, port->file);
-    }
-  } else if (port->port_type == PORT_STRING_OUTPUT) {
-    int len = strlen(str);
-    while (port->output_len + len + 1 >= port->output_capacity) {
-      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
-      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-    }
-    memcpy(port->output_buffer + port->output_len, str, len);
-    port->output_len += len;
-    port->output_buffer[port->output_len] = '\0';
-  }
-}
+// Defined in port.cc
+bool port_can_write(SCM_Port *port);
+void write_char_to_port_string(SCM_Port *port, char ch);
+void write_string_to_port(SCM_Port *port, const char *str, int len);
 
-// Helper function to write character to port
-static void write_char_to_port_string(SCM_Port *port, char ch) {
-  if (!port || port->is_closed) {
+// Helper function to print an object to a port
+static void print_to_port(SCM *obj, SCM_Port *port, bool write_mode) {
+  FILE *old_stdout = stdout;
+  FILE *tmp_file = tmpfile();
+  if (!tmp_file) {
+    eval_error("cannot create a temporary file for output");
     return;
   }
-  
-  if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fputc(ch, port->file);
-    }
-  } else if (port->port_type == PORT_STRING_OUTPUT) {
-    if (port->output_len + 1 >= port->output_capacity) {
-      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
-      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-    }
-    port->output_buffer[port->output_len++] = ch;
-    port->output_buffer[port->output_len] = '\0';
+  stdout = tmp_file;
+  print_ast(obj, write_mode);
+  fflush(tmp_file);
+  stdout = old_stdout;
+  long file_size = ftell(tmp_file);
+  rewind(tmp_file);
+  size_t buf_size = (file_size > 0) ? (size_t)file_size : 0;
+  char *buffer = (char *)malloc(buf_size + 1);
+  if (!buffer) {
+    fclose(tmp_file);
+    eval_error("memory allocation failed in output");
+    return;
   }
+  size_t total = fread(buffer, 1, buf_size, tmp_file);
+  fclose(tmp_file);
+  write_string_to_port(port, buffer, (int)total);
+  free(buffer);
 }
 
 // display: Output the argument using display format (without quotes for strings)
@@ -182,40 +172,11 @@ SCM *scm_c_display(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!port_can_write(port)) {
       eval_error("display: expected output port");
       return nullptr;
     }
-    FILE *old_stdout = stdout;
-    FILE *tmp_file = tmpfile();
-    if (!tmp_file) {
-      print_ast(obj, false);
-      return scm_none();
-    }
-    stdout = tmp_file;
-    print_ast(obj, false);
-    fflush(tmp_file);
-    long file_size = ftell(tmp_file);
-    rewind(tmp_file);
-    size_t buf_size = (file_size > 0) ? (size_t)file_size + 1 : 4096;
-    char *buffer = (char *)malloc(buf_size);
-    if (!buffer) {
-      stdout = old_stdout;
-      fclose(tmp_file);
-      eval_error("display: memory allocation failed");
-      return nullptr;
-    }
-    size_t total = 0;
-    while (total < buf_size - 1) {
-      size_t n = fread(buffer + total, 1, buf_size - 1 - total, tmp_file);
-      if (n == 0) break;
-      total += n;
-    }
-    buffer[total] = '\0';
-    stdout = old_stdout;
-    fclose(tmp_file);
-    write_string_to_port(port, buffer);
-    free(buffer);
+    print_to_port(obj, port, false);
   } else {
     print_ast(obj, false); // Use display format (write_mode = false)
   }
@@ -242,40 +203,11 @@ SCM *scm_c_write(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!port_can_write(port)) {
       eval_error("write: expected output port");
       return nullptr;
     }
-    FILE *old_stdout = stdout;
-    FILE *tmp_file = tmpfile();
-    if (!tmp_file) {
-      print_ast(obj, true);
-      return scm_none();
-    }
-    stdout = tmp_file;
-    print_ast(obj, true);
-    fflush(tmp_file);
-    long file_size = ftell(tmp_file);
-    rewind(tmp_file);
-    size_t buf_size = (file_size > 0) ? (size_t)file_size + 1 : 4096;
-    char *buffer = (char *)malloc(buf_size);
-    if (!buffer) {
-      stdout = old_stdout;
-      fclose(tmp_file);
-      eval_error("write: memory allocation failed");
-      return nullptr;
-    }
-    size_t total = 0;
-    while (total < buf_size - 1) {
-      size_t n = fread(buffer + total, 1, buf_size - 1 - total, tmp_file);
-      if (n == 0) break;
-      total += n;
-    }
-    buffer[total] = '\0';
-    stdout = old_stdout;
-    fclose(tmp_file);
-    write_string_to_port(port, buffer);
-    free(buffer);
+    print_to_port(obj, port, true);
   } else {
     print_ast(obj, true); // Use write format (write_mode = true)
   }
@@ -295,7 +227,7 @@ SCM *scm_c_newline(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!port_can_write(port)) {
       eval_error("newline: expected output port");
       return nullptr;
     }
-- 
2.43.0


From c4e01fbffddf640a295b14b3048b91f8cf7884d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 30/82] fix: decimal numbers may start with the decimal point,
 as string->number has it

---
 src/c/parse.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index fbc1b4a..e036636 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -325,6 +325,11 @@ static bool is_delimiter(char c) {
   return c == '\0' || isspace((unsigned char)c) || strchr("();\"'`,", c) != nullptr;
 }
 
+// Check for a digit, possibly after a decimal point
+static bool starts_with_digit(const char *s) {
+  return isdigit((unsigned char)(*s == '.' ? s[1] : *s));
+}
+
 // Parse a number (only if it starts with a digit, or +/- followed by a digit)
 static SCM *parse_number(Parser *p) {
   const char *start = p->pos;
@@ -333,9 +338,10 @@ static SCM *parse_number(Parser *p) {
   bool negative = false;
   
   // Only parse as number if it starts with a digit, or +/- followed by a digit
+  // (the digit may follow a decimal point, as in .5)
   if (*p->pos == '-') {
     // Check if next char is a digit
-    if (!isdigit((unsigned char)p->pos[1])) {
+    if (!starts_with_digit(p->pos + 1)) {
       return nullptr; // Not a number, let it be parsed as symbol
     }
     negative = true;
@@ -343,12 +349,12 @@ static SCM *parse_number(Parser *p) {
     p->column++;
   } else if (*p->pos == '+') {
     // Check if next char is a digit
-    if (!isdigit((unsigned char)p->pos[1])) {
+    if (!starts_with_digit(p->pos + 1)) {
       return nullptr; // Not a number, let it be parsed as symbol
     }
     p->pos++;
     p->column++;
-  } else if (!isdigit((unsigned char)*p->pos)) {
+  } else if (!starts_with_digit(p->pos)) {
     return nullptr;
   }
   
-- 
2.43.0


From 82f90101be78be05f0d98e749f0e6ab3978b30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 31/82] fix: a literal with a dotted tail that is a list is the
 list, and a nested splice keeps its dotted tail

---
 src/c/parse.cc      | 35 +++++++++++++----------------------
 src/c/quasiquote.cc |  2 +-
 2 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index e036636..0119197 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1040,6 +1040,17 @@ static SCM *parse_unquote_in_list(Parser *p) {
   return scm;
 }
 
+// Attach the datum after the dot to the last node of a list: (a . (b c)) is the list (a b c), and any
+// other datum becomes a dotted tail
+static void append_dotted_tail(SCM_List *tail, SCM *cdr) {
+  if (is_pair(cdr)) {
+    tail->next = cast<SCM_List>(cdr);
+  } else if (!is_nil(cdr)) {
+    tail->next = make_list(cdr);
+    tail->next->is_dotted = true;
+  }
+}
+
 // Parse a list
 static SCM *parse_list(Parser *p) {
   if (*p->pos != '(') {
@@ -1128,20 +1139,7 @@ static SCM *parse_list(Parser *p) {
           parse_error(p, "expected expression after dot");
         }
         
-        // Create node for cdr and mark it as dotted pair
-        if (is_pair(cdr)) {
-          // When cdr is a pair, wrap it in a node to store it
-          // This allows us to mark the wrapper as dotted, while keeping the
-          // cdr list itself unmarked (if it's a proper list)
-          tail->next = make_list(cdr);
-          tail->next->is_dotted = true;  // Mark the wrapper node as dotted
-          // The cdr list itself (cdr) is not modified - its internal structure
-          // remains unchanged. The printing code will check if cdr is a proper
-          // list and expand it: (a b . (c d)) -> (a b c d)
-        } else {
-          tail->next = make_list(cdr);
-          tail->next->is_dotted = true;  // Mark as dotted pair's cdr
-        }
+        append_dotted_tail(tail, cdr);
         skip_whitespace(p);
         break;
       }
@@ -1162,14 +1160,7 @@ static SCM *parse_list(Parser *p) {
         parse_error(p, "expected expression after dot");
       }
       
-      // Create node for cdr and mark it as dotted pair
-      if (is_pair(cdr)) {
-        tail->next = make_list(cdr);
-        tail->next->is_dotted = true;
-      } else {
-        tail->next = make_list(cdr);
-        tail->next->is_dotted = true;
-      }
+      append_dotted_tail(tail, cdr);
       skip_whitespace(p);
       break;
     }
diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index 243db69..a13a72d 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -299,7 +299,7 @@ static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
         SCM *expanded_car = quasi(env, p_list->data, depth - 1);
         if (rest_is_dotted && rest_cdr_data) {
           SCM *expanded_cdr = quasi(env, rest_cdr_data, depth);
-          return scm_list2(expanded_car, expanded_cdr);
+          return scm_cons(expanded_car, expanded_cdr);
         } else {
           SCM *rest = get_list_rest(p);
           SCM *expanded_cdr = quasi(env, rest, depth);
-- 
2.43.0


From 0e9ec76d8b013f73f283b343d7078135112eccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 32/82] fix: apply and list->vector reject improper lists

---
 src/c/apply.cc  | 3 +++
 src/c/vector.cc | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 8b244e0..87f3b42 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -273,6 +273,9 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
   if (is_pair(last_arg)) {
     SCM_List *last_list = cast<SCM_List>(last_arg);
     while (last_list) {
+      if (last_list->is_dotted) {
+        eval_error("apply: last argument must be a proper list");
+      }
       SCM_List *node = make_list(scm_list2(scm_sym_quote(), last_list->data));
       args_tail->next = node;
       args_tail = node;
diff --git a/src/c/vector.cc b/src/c/vector.cc
index ca25720..7c3687f 100644
--- a/src/c/vector.cc
+++ b/src/c/vector.cc
@@ -175,10 +175,11 @@ SCM *scm_c_list_to_vector(SCM *list) {
   size_t count = 0;
   SCM_List *current = cast<SCM_List>(list);
   while (current) {
-    count++;
-    if (!current->next) {
-      break;
+    if (current->is_dotted) {
+      eval_error("list->vector: expected proper list");
+      return nullptr;
     }
+    count++;
     current = current->next;
   }
   
-- 
2.43.0


From df163226b54e65d603160f5d0b10692317504a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 33/82] fix: cadr and unquote-splicing reject a dotted tail
 where a list is needed

---
 src/c/pscm.h        |   2 +-
 src/c/quasiquote.cc | 150 +++-----------------------------------------
 2 files changed, 8 insertions(+), 144 deletions(-)

diff --git a/src/c/pscm.h b/src/c/pscm.h
index bf3e807..d88bed2 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -632,7 +632,7 @@ inline SCM *cadr(SCM *data) {
     type_error(data, "pair");
   }
   auto l = cast<SCM_List>(data);
-  if (!l || !l->next) {
+  if (!l || !l->next || l->next->is_dotted) {
     type_error(data, "pair with at least 2 elements");
   }
   SCM *result = l->next->data;
diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index a13a72d..a674ca0 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -84,110 +84,16 @@ static SCM *get_list_rest(SCM *list_expr) {
 }
 
 // Helper function to append two lists (for unquote-splicing)
-// This is a simplified version that merges two lists directly
 static SCM *append_two_lists(SCM *list1, SCM *list2) {
-  if (is_nil(list1)) {
-    return list2;
-  }
   if (is_nil(list2)) {
     return list1;
   }
-  
-  // Copy list1
-  SCM_List *l1 = cast<SCM_List>(list1);
-  SCM_List dummy = make_list_dummy();
-  SCM_List *tail = &dummy;
-  
-  // Copy all elements from list1
-  SCM_List *current = l1;
-  while (current) {
-    tail->next = make_list(current->data);
-    tail = tail->next;
-    
-    // Move to next element
-    // For a proper list, we continue until current->next is nullptr
-    if (!current->next) {
-      // Reached the end of the list
-      break;
-    }
-    // Check if current node itself is a dotted pair (shouldn't happen in proper list)
-    if (current->is_dotted) {
-      // This shouldn't happen in a proper list, but handle it
-      break;
-    }
-    // Continue to next element
-    current = current->next;
-  }
-  
-  // Check if list1 ends with a dotted pair
-  // Note: We've already copied all elements from list1 above
-  // If list1 ends with a dotted pair, the last node's is_dotted flag would be set
-  // But for proper lists, this shouldn't happen
-  bool list1_is_dotted = false;
-  SCM *list1_cdr = nullptr;
-  if (l1) {
-    SCM_List *last = l1;
-    while (last->next) {
-      if (last->is_dotted) {
-        list1_is_dotted = true;
-        list1_cdr = last->data;
-        break;
-      }
-      last = last->next;
-    }
-    // Check the last node itself
-    if (!list1_is_dotted && last->is_dotted) {
-      list1_is_dotted = true;
-      list1_cdr = last->data;
-    }
-  }
-  
-  // Append list2
-  if (is_pair(list2)) {
-    SCM_List *l2 = cast<SCM_List>(list2);
-    SCM_List *current2 = l2;
-    
-    while (current2) {
-      tail->next = make_list(current2->data);
-      tail = tail->next;
-      
-      // Move to next element
-      // For a proper list, we continue until current2->next is nullptr
-      if (!current2->next) {
-        // Reached the end of the list
-        break;
-      }
-      // Check if this is a dotted pair
-      if (current2->is_dotted) {
-        tail->is_dotted = true;
-        break;
-      }
-      // Continue to next element
-      current2 = current2->next;
-    }
-    
-    // Check if list2 ends with a dotted pair
-    if (l2) {
-      SCM_List *last2 = l2;
-      while (last2->next) {
-        if (last2->is_dotted) {
-          tail->is_dotted = true;
-          break;
-        }
-        last2 = last2->next;
-      }
-      // Check the last node itself
-      if (last2->is_dotted) {
-        tail->is_dotted = true;
-      }
-    }
-  } else if (!is_nil(list2)) {
-    // list2 is not a list, create a dotted pair
-    tail->next = make_list(list2);
-    tail->next->is_dotted = true;
-  }
-  
-  return dummy.next ? wrap(dummy.next) : scm_nil();
+  SCM_List args2 = make_list_dummy();
+  args2.data = list2;
+  SCM_List args1 = make_list_dummy();
+  args1.data = list1;
+  args1.next = &args2;
+  return scm_append(&args1);
 }
 
 // Main quasi function: expand quasiquote expression
@@ -245,49 +151,7 @@ static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
         if (rest_is_dotted && rest_cdr_data) {
           // Process the cdr of the dotted pair
           SCM *expanded_cdr = quasi(env, rest_cdr_data, depth);
-          // Append list elements, then append or create dotted pair with expanded_cdr
-          if (is_nil(list)) {
-            // If list is empty, return just the cdr
-            return expanded_cdr;
-          }
-          
-          // Check if expanded_cdr is a proper list
-          if (is_pair(expanded_cdr)) {
-            // If expanded_cdr is a list, append all elements
-            return append_two_lists(list, expanded_cdr);
-          } else if (is_nil(expanded_cdr)) {
-            // If expanded_cdr is nil, just return list
-            return list;
-          } else {
-            // If expanded_cdr is not a list, create a dotted pair
-            // Copy all elements from list, then create dotted pair with expanded_cdr
-            SCM_List *l = cast<SCM_List>(list);
-            SCM_List dummy = make_list_dummy();
-            SCM_List *tail = &dummy;
-            
-            // Copy all elements from list
-            SCM_List *current = l;
-            while (current) {
-              tail->next = make_list(current->data);
-              tail = tail->next;
-              
-              // Move to next element
-              if (!current->next) {
-                break;
-              }
-              if (current->is_dotted) {
-                break;
-              }
-              current = current->next;
-            }
-            
-            // Make the last element a dotted pair with expanded_cdr
-            // Create a new node for the cdr
-            tail->next = make_list(expanded_cdr);
-            tail->next->is_dotted = true;
-            
-            return dummy.next ? wrap(dummy.next) : expanded_cdr;
-          }
+          return append_two_lists(list, expanded_cdr);
         } else {
           // Normal case: process rest and merge
           SCM *rest = get_list_rest(p);
-- 
2.43.0


From 66038b4ef69c6f502ed6ababeea76452928813b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 34/82] fix: map and for-each reject improper lists

---
 src/c/for_each.cc | 4 ++++
 src/c/map.cc      | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 2f54c8f..0055263 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -98,6 +98,10 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
     
     // Build argument list with quoted arguments and advance list pointers
     for (int i = 0; i < arg_count; i++) {
+      if (arg_lists[i]->is_dotted) {
+        eval_error("for-each: argument %d must be a proper list", i + 1);
+        return nullptr;
+      }
       // Wrap argument in quote to avoid re-evaluation
       auto quoted_arg = scm_list2(scm_sym_quote(), arg_lists[i]->data);
       auto arg_node = make_list(quoted_arg);
diff --git a/src/c/map.cc b/src/c/map.cc
index b0b300a..1c0b7cc 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -87,6 +87,9 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     
     for (auto it = lists; it; it = it->next) {
       auto elements = cast<SCM_List>(it->data);
+      if (elements->is_dotted) {
+        eval_error("map: list arguments must be proper lists");
+      }
       // Wrap element in (quote element) to prevent evaluation
       SCM *quoted_elem = scm_list2(scm_sym_quote(), elements->data);
       SCM_List *node = make_list(quoted_elem);
-- 
2.43.0


From 52858f7fcc4779cfce83346ba37e5ec852f2f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 35/82] fix: association list procedures reject arguments that
 are not lists

---
 src/c/alist.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/c/alist.cc b/src/c/alist.cc
index 7ad7071..4680ca6 100644
--- a/src/c/alist.cc
+++ b/src/c/alist.cc
@@ -1,4 +1,5 @@
 #include "pscm.h"
+#include "eval.h"
 #include <type_traits>
 bool _eq(SCM *lhs, SCM *rhs);
 
@@ -15,6 +16,12 @@ static bool is_eqv(SCM *lhs, SCM *rhs) {
   return is_true(scm_c_is_eqv(lhs, rhs));
 }
 
+static void check_alist(SCM *alist, const char *name) {
+  if (!is_pair(alist) && !is_nil(alist)) {
+    eval_error("%s: expected an association list", name);
+  }
+}
+
 // acons: (acons key value alist) -> new alist with (key . value) prepended
 SCM *scm_c_acons(SCM *key, SCM *value, SCM *alist) {
   // Create a new pair (key . value)
@@ -28,6 +35,7 @@ SCM *scm_c_acons(SCM *key, SCM *value, SCM *alist) {
 
 // assq: (assq key alist) -> pair or #f (using eq? for comparison)
 SCM *scm_c_assq(SCM *key, SCM *alist) {
+  check_alist(alist, "assq");
   if (is_nil(alist)) {
     return scm_bool_false();
   }
@@ -46,6 +54,7 @@ SCM *scm_c_assq(SCM *key, SCM *alist) {
 
 // assoc: (assoc key alist) -> pair or #f (using equal? for comparison)
 SCM *scm_c_assoc(SCM *key, SCM *alist) {
+  check_alist(alist, "assoc");
   if (is_nil(alist)) {
     return scm_bool_false();
   }
@@ -74,6 +83,7 @@ SCM *scm_c_assoc_ref(SCM *alist, SCM *key) {
 
 // assoc-set!: (assoc-set! alist key value) -> new alist
 SCM *scm_c_assoc_set(SCM *alist, SCM *key, SCM *value) {
+  check_alist(alist, "assoc-set!");
   if (is_nil(alist)) {
     // If alist is empty, create new entry
     return scm_c_acons(key, value, scm_nil());
@@ -128,6 +138,7 @@ SCM *scm_c_assoc_set(SCM *alist, SCM *key, SCM *value) {
 
 // assq-set!: (assq-set! alist key value) -> new alist (using eq? for comparison)
 SCM *scm_c_assq_set(SCM *alist, SCM *key, SCM *value) {
+  check_alist(alist, "assq-set!");
   if (is_nil(alist)) {
     // If alist is empty, create new entry
     return scm_c_acons(key, value, scm_nil());
@@ -182,6 +193,7 @@ SCM *scm_c_assq_set(SCM *alist, SCM *key, SCM *value) {
 
 // assoc-remove!: (assoc-remove! alist key) -> new alist (removes only first match)
 SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
+  check_alist(alist, "assoc-remove!");
   if (is_nil(alist)) {
     return scm_nil();
   }
@@ -219,6 +231,7 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
 }
 
 SCM *scm_c_assv(SCM *key, SCM *alist) {
+  check_alist(alist, "assv");
   if (is_nil(alist)) {
     return scm_bool_false();
   }
-- 
2.43.0


From 83c8ac747a907ab0fa9f50acdc57c7b1cd0c1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 36/82] fix: hash table entries are ordinary pairs, so a handle
 with a list value prints and compares as the list it is

---
 src/c/hash_table.cc | 21 ++++-----------------
 src/c/module.cc     |  8 ++++----
 2 files changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index c18ae60..6e68dc2 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -109,9 +109,8 @@ static SCM_HashTable *validate_and_get_bucket_idx(SCM *table, SCM *key,
 
 // Helper function to update existing entry's value
 static void update_entry_value(SCM_List *entry, SCM *value) {
-  // A new node: the present one may belong to a list stored with set-cdr!
-  entry->next = make_list(value);
-  entry->next->is_dotted = true;  // Mark as dotted pair's cdr
+  // The same representation as in insert_entry_to_bucket
+  entry->next = cast<SCM_List>(scm_cons(entry->data, value))->next;
 }
 
 // Helper function to find entry in bucket
@@ -134,22 +133,10 @@ static SCM_List *find_entry_in_bucket(SCM *bucket, SCM *key, bool (*cmp_func)(SC
 
 // Helper function to insert entry into bucket at head
 // Returns the entry pair (key . value)
-// Note: We must create a proper dotted pair (key . value) even when value is a list.
-// Using scm_cons would expand value if it's a list, which breaks hash table semantics.
 static SCM *insert_entry_to_bucket(SCM_HashTable *hash_table, size_t idx, 
                                     SCM *key, SCM *value) {
-  // Create a proper dotted pair (key . value) structure
-  // This ensures value is stored correctly even when it's a list
-  SCM_List *entry_pair = make_list(key);
-  if (is_nil(value)) {
-    // For nil values, create a node containing nil so hash-ref can find it
-    entry_pair->next = make_list(value);
-    entry_pair->next->is_dotted = true;
-  } else {
-    // For non-nil values, wrap in a dotted pair node
-    entry_pair->next = make_list(value);
-    entry_pair->next->is_dotted = true;  // Mark as dotted pair's cdr
-  }
+  // An ordinary pair, so that the list procedures work on it whatever the value is
+  SCM_List *entry_pair = cast<SCM_List>(scm_cons(key, value));
   
   auto entry_node = make_list(wrap(entry_pair));
   if (hash_table->buckets[idx] && !is_nil(hash_table->buckets[idx])) {
diff --git a/src/c/module.cc b/src/c/module.cc
index b0a61cb..1cd0a6e 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -75,9 +75,9 @@ SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
     // Handle exists (it's a pair, not #f)
     // handle is the entry pair (key . value) wrapped
     auto pair = cast<SCM_List>(handle);
-    // pair->data is the key, pair->next->data is the value
+    // pair->data is the key, its cdr is the value
     if (pair->next) {
-      return pair->next->data;  // Return value (can be #f)
+      return cdr(wrap(pair));  // Return value (can be #f)
     } else {
       // value is nil (entry->next is nullptr)
       return scm_nil();
@@ -996,9 +996,9 @@ SCM *scm_c_module_map(SCM_List *args) {
       while (l) {
         if (is_pair(l->data)) {
           auto entry = cast<SCM_List>(l->data);
-          if (entry->data && entry->next) {
+          if (entry->data) {
             SCM *key = entry->data;  // Symbol
-            SCM *value = entry->next->data;  // Variable value
+            SCM *value = cdr(l->data);  // Variable value
             
             // Call proc with (key value)
             // Build call expression: (proc key value)
-- 
2.43.0


From be150d6e854f58261a6c464b16e96f515f5acb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 37/82] fix: definitions and macro definitions inside a body
 stay local, also in module code and when a macro of that name exists

---
 src/c/define.cc |  7 ++++++-
 src/c/eval.h    |  1 +
 src/c/macro.cc  | 56 +++++++++++++++++++++----------------------------
 3 files changed, 31 insertions(+), 33 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index 596065f..942f001 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -1,6 +1,11 @@
 #include "pscm.h"
 #include "eval.h"
 
+// Environments created inside a module inherit its module pointer; only the outermost one is the module scope
+bool is_module_scope(SCM_Environment *env) {
+  return env->module && (!env->parent || env->parent->module != env->module);
+}
+
 // Bind a name in the scope the definition appears in
 static void define_binding(SCM_Environment *env, SCM_Symbol *varname, SCM *val) {
   // If we're in a nested environment (lambda/let), define in environment
@@ -8,7 +13,7 @@ static void define_binding(SCM_Environment *env, SCM_Symbol *varname, SCM *val)
   // This ensures define creates local bindings in let/lambda contexts
   if (env->parent) {
     // Check if this is a module environment (env->module from scm_resolve_module)
-    if (env->module) {
+    if (is_module_scope(env)) {
       scm_c_hash_set_eq(wrap(env->module->obarray), wrap(varname), val);
     } else {
       // We're in a nested environment (lambda/let), create local binding
diff --git a/src/c/eval.h b/src/c/eval.h
index a689ca2..fbe4d08 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -46,6 +46,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l);
 
 // Define special form
 SCM *eval_define(SCM_Environment *env, SCM_List *l);
+bool is_module_scope(SCM_Environment *env);
 
 // Lambda special form (used by define)
 SCM *eval_lambda(SCM_Environment *env, SCM_List *l);
diff --git a/src/c/macro.cc b/src/c/macro.cc
index 37fb870..87eb021 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -243,6 +243,28 @@ SCM *expand_macros(SCM_Environment *env, SCM *ast) {
   return result;
 }
 
+// Bind a macro in the scope its definition appears in
+static void bind_macro(SCM_Environment *env, SCM_Symbol *name, SCM *macro_scm) {
+  if (env->parent && !is_module_scope(env)) {
+    // In a nested environment (lambda/let)
+    scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
+    return;
+  }
+  // Module-aware insertion: check module first
+  SCM *current_mod = scm_current_module();
+  if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
+    SCM_Module *module = cast<SCM_Module>(current_mod);
+    scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
+  } else {
+    auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
+    if (global_entry) {
+      global_entry->value = macro_scm;
+    } else {
+      scm_env_insert(&g_env, name, macro_scm);
+    }
+  }
+}
+
 // Helper function for define-macro special form
 SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   if (!l->next) {
@@ -268,23 +290,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
 
     SCM *macro_scm = wrap(macro);
 
-    // Module-aware insertion: check module first (module-aware env has
-    // a parent chain, so env->parent alone doesn't distinguish module
-    // scope from lambda scope).
-    SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
-      SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
-    } else if (env->parent) {
-      scm_env_insert(env, name, macro_scm);
-    } else {
-      auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
-      if (global_entry) {
-        global_entry->value = macro_scm;
-      } else {
-        scm_env_insert(env, name, macro_scm);
-      }
-    }
+    bind_macro(env, name, macro_scm);
 
     if (debug_enabled) {
       SCM_DEBUG_EVAL("define-macro ");
@@ -314,21 +320,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
 
   SCM *macro_scm = wrap(macro);
 
-  // Module-aware insertion: check module first
-  SCM *current_mod = scm_current_module();
-  if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
-    SCM_Module *module = cast<SCM_Module>(current_mod);
-    scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
-  } else if (env->parent) {
-    scm_env_insert(env, name, macro_scm);
-  } else {
-    auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
-    if (global_entry) {
-      global_entry->value = macro_scm;
-    } else {
-      scm_env_insert(env, name, macro_scm);
-    }
-  }
+  bind_macro(env, name, macro_scm);
 
   if (debug_enabled) {
     SCM_DEBUG_EVAL("define-macro ");
-- 
2.43.0


From db6792991d96a7b8339886debf22148633001cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 38/82] fix: ratio arithmetic and division keep exact
 intermediate products, expt squares repeatedly, gcd handles the smallest
 integer

---
 src/c/number.cc | 76 +++++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 28 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index b54b371..11c8484 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -5,6 +5,8 @@
 
 // Forward declaration
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
+static SCM *make_wide_ratio(__int128 numerator, __int128 denominator);
+static __int128 wide_gcd(__int128 a, __int128 b);
 
 SCM *scm_c_is_negative(SCM *arg) {
   if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
@@ -250,8 +252,8 @@ SCM *scm_c_add_number(SCM *lhs, SCM *rhs) {
   }
   if (is_ratio(lhs) || is_ratio(rhs)) {
     // (a/b) + (c/d) = (a*d + c*b)/(b*d)
-    int64_t den1 = exact_denominator(lhs), den2 = exact_denominator(rhs);
-    return scm_make_ratio(exact_numerator(lhs) * den2 + exact_numerator(rhs) * den1, den1 * den2);
+    __int128 den1 = exact_denominator(lhs), den2 = exact_denominator(rhs);
+    return make_wide_ratio(exact_numerator(lhs) * den2 + exact_numerator(rhs) * den1, den1 * den2);
   }
   return BinaryOperator<AddOp<int64_t, int64_t>>::run(lhs, rhs);
 }
@@ -266,8 +268,8 @@ SCM *scm_c_minus_number(SCM *lhs, SCM *rhs) {
   }
   if (is_ratio(lhs) || is_ratio(rhs)) {
     // (a/b) - (c/d) = (a*d - c*b)/(b*d)
-    int64_t den1 = exact_denominator(lhs), den2 = exact_denominator(rhs);
-    return scm_make_ratio(exact_numerator(lhs) * den2 - exact_numerator(rhs) * den1, den1 * den2);
+    __int128 den1 = exact_denominator(lhs), den2 = exact_denominator(rhs);
+    return make_wide_ratio(exact_numerator(lhs) * den2 - exact_numerator(rhs) * den1, den1 * den2);
   }
   return BinaryOperator<MinusOp<int64_t, int64_t>>::run(lhs, rhs);
 }
@@ -374,7 +376,7 @@ SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
     }
     
     // Multiply: (a/b) * (c/d) = (a*c)/(b*d)
-    return scm_make_ratio(num1 * num2, den1 * den2);
+    return make_wide_ratio((__int128)num1 * num2, (__int128)den1 * den2);
   }
   
   // Handle float promotion directly
@@ -594,18 +596,22 @@ SCM *_create_num(int64_t val) {
   return data;
 }
 
-// Helper function to compute GCD
-static int64_t gcd(int64_t a, int64_t b) {
+// Helper functions to compute GCD
+static __int128 wide_gcd(__int128 a, __int128 b) {
   a = a < 0 ? -a : a;
   b = b < 0 ? -b : b;
   while (b != 0) {
-    int64_t temp = b;
+    __int128 temp = b;
     b = a % b;
     a = temp;
   }
   return a;
 }
 
+static int64_t gcd(int64_t a, int64_t b) {
+  return (int64_t)wide_gcd(a, b);
+}
+
 // gcd: Return the greatest common divisor of the arguments
 // R5RS: (gcd n1 ...) -> integer
 SCM *scm_c_gcd(SCM_List *args) {
@@ -681,26 +687,32 @@ SCM *scm_c_lcm(SCM_List *args) {
 
 // Create a rational number (fraction)
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator) {
-  if (denominator == 0) {
+  return make_wide_ratio(numerator, denominator);
+}
+
+// The operands are wide enough for products of exact numerators and denominators, so that only the
+// reduced fraction has to fit
+static SCM *make_wide_ratio(__int128 wide_numerator, __int128 wide_denominator) {
+  if (wide_denominator == 0) {
     eval_error("make-ratio: division by zero");
     return nullptr;
   }
   
   // Handle special cases
-  if (numerator == 0) {
+  if (wide_numerator == 0) {
     return _create_num(0);
   }
   
   // Normalize sign: denominator should be positive
-  if (denominator < 0) {
-    numerator = -numerator;
-    denominator = -denominator;
+  if (wide_denominator < 0) {
+    wide_numerator = -wide_numerator;
+    wide_denominator = -wide_denominator;
   }
   
   // Simplify the fraction using GCD
-  int64_t g = gcd(numerator, denominator);
-  numerator /= g;
-  denominator /= g;
+  __int128 g = wide_gcd(wide_numerator, wide_denominator);
+  int64_t numerator = (int64_t)(wide_numerator / g);
+  int64_t denominator = (int64_t)(wide_denominator / g);
   
   // If denominator is 1, return an integer
   if (denominator == 1) {
@@ -793,6 +805,18 @@ SCM *scm_c_min(SCM_List *args) {
   return inexact && !is_float(result) ? scm_from_double(scm_to_double(result)) : result;
 }
 
+// base^n by repeated squaring (an unneeded last square may wrap around)
+static int64_t integer_power(int64_t base, uint64_t n) {
+  uint64_t ret = 1, square = base;
+  for (; n > 0; n >>= 1) {
+    if (n & 1) {
+      ret *= square;
+    }
+    square *= square;
+  }
+  return (int64_t)ret;
+}
+
 SCM *scm_c_expt(SCM *base, SCM *exp) {
   check_number_operands(base, exp);
   if (is_ratio(base) && is_num(exp)) {
@@ -801,12 +825,8 @@ SCM *scm_c_expt(SCM *base, SCM *exp) {
     int64_t n = (int64_t)exp->value;
     int64_t num = n < 0 ? rat->denominator : rat->numerator;
     int64_t den = n < 0 ? rat->numerator : rat->denominator;
-    int64_t ret_num = 1, ret_den = 1;
-    for (uint64_t i = n < 0 ? -(uint64_t)n : n; i > 0; --i) {
-      ret_num *= num;
-      ret_den *= den;
-    }
-    return scm_make_ratio(ret_num, ret_den);
+    uint64_t count = n < 0 ? -(uint64_t)n : n;
+    return scm_make_ratio(integer_power(num, count), integer_power(den, count));
   }
   if (!is_num(base) || !is_num(exp)) {
     return scm_from_double(std::pow(scm_to_double(base), scm_to_double(exp)));
@@ -836,10 +856,7 @@ SCM *scm_c_expt(SCM *base, SCM *exp) {
   }
   
   // Calculate base^n2
-  int64_t ret = n1;
-  for (int64_t i = 0; i < n2 - 1; ++i) {
-    ret *= n1;
-  }
+  int64_t ret = integer_power(n1, n2);
   
   // Handle negative exponent result
   if (is_negative) {
@@ -966,8 +983,11 @@ SCM *scm_c_div(SCM_List *args) {
     }
     
     // (result_num/result_den) / (div_num/div_den) = (result_num * div_den) / (result_den * div_num)
-    result_num = result_num * div_den;
-    result_den = result_den * div_num;
+    __int128 wide_num = (__int128)result_num * div_den;
+    __int128 wide_den = (__int128)result_den * div_num;
+    __int128 g = wide_gcd(wide_num, wide_den);
+    result_num = (int64_t)(wide_num / g);
+    result_den = (int64_t)(wide_den / g);
     
     current = current->next;
   }
-- 
2.43.0


From cdd35a7e85400dd3b7a4d6ef2a37ac60d61c257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 39/82] fix: division checks every operand also after the first
 inexact one

---
 src/c/number.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 11c8484..3fabd79 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -971,7 +971,16 @@ SCM *scm_c_div(SCM_List *args) {
       // For floats, switch to float arithmetic
       double result = (double)result_num / (double)result_den;
       while (current) {
-        result /= scm_to_double(current->data);
+        if (!is_num(current->data) && !is_float(current->data) && !is_ratio(current->data)) {
+          eval_error("/: expected number");
+          return nullptr;
+        }
+        double divisor = scm_to_double(current->data);
+        if (divisor == 0.0) {
+          eval_error("/: division by zero");
+          return nullptr;
+        }
+        result /= divisor;
         current = current->next;
       }
       return scm_from_double(result);
-- 
2.43.0


From 0ee2622d479eed2e8afea407365bd2d93c976be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 40/82] fix: modules that use another see the current binding
 of every exported name, also when it is exported before its definition or
 changed later

---
 src/c/module.cc | 126 +++++++++++++++++++++++++++---------------------
 1 file changed, 72 insertions(+), 54 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 1cd0a6e..49c133a 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -87,40 +87,91 @@ SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
   return nullptr;  // Not found
 }
 
-// Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
-// Returns the value if found (can be #f), or nullptr if not found
-// This allows us to distinguish between "not found" and "value is #f"
-SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
+static bool is_interface(SCM_Module *module) {
+  return module->kind && module->public_interface && strcmp(module->kind->data, "interface") == 0;
+}
+
+static bool is_exported(SCM_Module *module, SCM_Symbol *sym) {
+  for (SCM_List *it = module->exports; it; it = it->next) {
+    if (is_sym(it->data) && strcmp(cast<SCM_Symbol>(it->data)->data, sym->data) == 0) {
+      return true;
+    }
+  }
+  return false;
+}
+
+struct InterfacePath {
+  SCM_Module *interface;
+  InterfacePath *outer;
+};
+
+// The module whose obarray holds the binding that a module in a uses list provides for a name. A public interface
+// provides the current binding of each exported name, whenever that is defined or changed.
+static SCM_Module *used_binding_home(SCM_Module *module, SCM_Symbol *sym, InterfacePath *path) {
+  bool seen = false;  // modules may re-export from each other
+  for (InterfacePath *p = path; p; p = p->outer) {
+    seen = seen || p->interface == module;
+  }
+  if (!seen && is_interface(module) && is_exported(module->public_interface, sym)) {
+    SCM_Module *exporter = module->public_interface;
+    if (module_obarray_lookup(exporter, sym)) {
+      return exporter;
+    }
+    // A re-exported name
+    InterfacePath here = {module, path};
+    for (SCM_List *uses = exporter->uses; uses; uses = uses->next) {
+      if (is_module(uses->data)) {
+        SCM_Module *home = used_binding_home(cast<SCM_Module>(uses->data), sym, &here);
+        if (home) {
+          return home;
+        }
+      }
+    }
+  }
+  return module_obarray_lookup(module, sym) ? module : nullptr;
+}
+
+// Helper function to find which module contains a variable
+// Returns the module whose obarray contains the binding, or nullptr if not found
+// Searches: module obarray, uses list, and root module
+SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym) {
   // 1. Check module obarray
-  SCM *var = module_obarray_lookup(module, sym);
-  if (var) {
-    return var;  // Found (value can be #f)
+  if (module_obarray_lookup(module, sym)) {
+    return module;
   }
 
   // 2. Search uses list
-  SCM_List *uses = module->uses;
-  while (uses) {
-    SCM *use_module_scm = uses->data;
-    if (is_module(use_module_scm)) {
-      SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
-      var = module_obarray_lookup(use_module, sym);
-      if (var) {
-        return var;  // Found (value can be #f)
+  for (SCM_List *uses = module->uses; uses; uses = uses->next) {
+    if (is_module(uses->data)) {
+      SCM_Module *home = used_binding_home(cast<SCM_Module>(uses->data), sym, nullptr);
+      if (home) {
+        return home;
       }
     }
-    uses = uses->next;
   }
 
   // 3. If not found, also search root module (pscm-user) for global variables like %load-path
   if (g_root_module && module != cast<SCM_Module>(g_root_module)) {
     SCM_Module *root_module = cast<SCM_Module>(g_root_module);
-    var = module_obarray_lookup(root_module, sym);
-    if (var) {
-      return var;  // Found (value can be #f)
+    if (module_obarray_lookup(root_module, sym)) {
+      return root_module;
     }
   }
 
-  // 4. Call binder (if exists), with recursion guard
+  return nullptr;  // Not found
+}
+
+// Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
+// Returns the value if found (can be #f), or nullptr if not found
+// This allows us to distinguish between "not found" and "value is #f"
+SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
+  // 1. Check module obarray, uses list and root module
+  SCM_Module *home = module_find_variable_module(module, sym);
+  if (home) {
+    return module_obarray_lookup(home, sym);  // Found (value can be #f)
+  }
+
+  // 2. Call binder (if exists), with recursion guard
   if (module->binder && !g_in_binder_call) {
     g_in_binder_call = true;
     // Binder signature: (binder module sym definep) -> variable | #f
@@ -138,7 +189,7 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
     }
   }
 
-  // 5. Check autoload specs
+  // 3. Check autoload specs
   {
     SCM_List *specs = module->autoload_specs;
     SCM_List *prev_spec = nullptr;
@@ -189,39 +240,6 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
   return nullptr;  // Not found
 }
 
-// Helper function to find which module contains a variable (for updating)
-// Returns the module that contains the variable, or nullptr if not found
-// Searches: current module obarray, uses list, and root module
-SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym) {
-  // 1. Check module obarray
-  if (module_obarray_lookup(module, sym)) {
-    return module;  // Found in current module
-  }
-  
-  // 2. Search uses list
-  SCM_List *uses = module->uses;
-  while (uses) {
-    SCM *use_module_scm = uses->data;
-    if (is_module(use_module_scm)) {
-      SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
-      if (module_obarray_lookup(use_module, sym)) {
-        return use_module;  // Found in use module
-      }
-    }
-    uses = uses->next;
-  }
-  
-  // 3. Check root module
-  if (g_root_module && module != cast<SCM_Module>(g_root_module)) {
-    SCM_Module *root_module = cast<SCM_Module>(g_root_module);
-    if (module_obarray_lookup(root_module, sym)) {
-      return root_module;  // Found in root module
-    }
-  }
-  
-  return nullptr;  // Not found
-}
-
 // Look up variable in module
 SCM *scm_module_variable(SCM_Module *module, SCM_Symbol *sym, bool definep) {
   // Delegate to module_search_variable which handles obarray, uses, root, binder, and autoload
-- 
2.43.0


From db8edf3fc002676939acc2ed6fe55f45956f9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 41/82] fix: code runs with the definitions of its own module,
 which take precedence over built-in and other modules' definitions

---
 src/c/environment.cc | 108 +++++++++++++++++++++++--------------------
 src/c/eval.cc        |  92 +++++++++++-------------------------
 src/c/load.cc        |   3 +-
 src/c/macro.cc       |  11 +++--
 src/c/pscm.h         |   4 ++
 src/c/pscm_api.cc    |   2 +-
 src/c/variable.cc    |   4 +-
 7 files changed, 102 insertions(+), 122 deletions(-)

diff --git a/src/c/environment.cc b/src/c/environment.cc
index 98ccd7b..339aeb4 100644
--- a/src/c/environment.cc
+++ b/src/c/environment.cc
@@ -54,63 +54,73 @@ SCM *scm_env_exist(SCM_Environment *env, SCM_Symbol *sym) {
   return nullptr;
 }
 
-SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym) {
-  // 1. First search in lexical environment (local bindings, no parent search)
-  // This ensures local bindings in let/lambda take precedence
-  auto ret = scm_env_exist(env, sym);
-  if (ret) {
-    return ret;
+// The environment that top-level code is evaluated in: the scope of the current module
+SCM_Environment *scm_toplevel_env() {
+  SCM *current_mod = scm_current_module();
+  if (!is_module(current_mod) || current_mod == g_root_module) {
+    return &g_env;
   }
-  
-  // 2. Search in parent environments (let/lambda bindings)
-  // This must come before module search to ensure lexical scoping works correctly
-  // Parent environments (from let/lambda) should take precedence over module bindings
-  auto entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
-  if (entry) {
-    return entry->value;  // Value can be null (e.g., for #f)
+  return make_module_environment(cast<SCM_Module>(current_mod), &g_env);
+}
+
+// The binding of a name in the local scopes of env, i.e. inside its module or global scope
+SCM_Environment::Entry *scm_env_local_entry(SCM_Environment *env, SCM_Symbol *sym) {
+  for (; env && env != &g_env && !is_module_scope(env); env = env->parent) {
+    auto entry = scm_env_search_entry(env, sym, /*search_parent=*/false);
+    if (entry) {
+      return entry;
+    }
   }
+  return nullptr;
+}
 
-  // 2.5. Search the module baked into the environment chain (if any).
-  // This finds module-private variables (e.g. cur-props in tm-define.scm)
-  // during evaluation of code loaded inside that module.  The module is
-  // set by make_module_environment when the module's file is loaded.
-  // We walk the parent chain to find the first non-null module pointer;
-  // child environments inherit it from make_module_environment via make_env.
-  {
-    SCM_Environment *e = env;
-    while (e) {
-      if (e->module) {
-        SCM *var = module_search_variable(e->module, sym);
-        if (var) {
-          return var;
-        }
-        break;  // found a module but symbol wasn't in it; don't check again
-      }
-      e = e->parent;
+// The module whose definitions code in env sees: the one its environment was made for, or the root module
+SCM_Module *scm_env_module(SCM_Environment *env) {
+  if (env->module) {
+    return env->module;
+  }
+  return g_root_module ? cast<SCM_Module>(g_root_module) : nullptr;
+}
+
+// Find the value of a name: local scopes first (lexical scoping), then the definitions and imports of the module
+// the code belongs to, then the built-in definitions. Returns nullptr if there is none.
+SCM *scm_env_find(SCM_Environment *env, SCM_Symbol *sym) {
+  auto entry = scm_env_local_entry(env, sym);
+  if (entry) {
+    return entry->value;
+  }
+  SCM_Module *module = scm_env_module(env);
+  if (module) {
+    SCM_Module *home = module_find_variable_module(module, sym);
+    if (home) {
+      return module_obarray_lookup(home, sym);  // Found (value can be #f)
     }
   }
+  entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false);
+  return entry ? entry->value : nullptr;
+}
 
-  // 3. If current module exists, search in module (module bindings override global)
-  // This is important: when define is used in a module, it should shadow global bindings
-  // But module bindings come after lexical bindings (let/lambda)
-  SCM *current_mod = scm_current_module();
-  if (current_mod && is_module(current_mod)) {
-    SCM_Module *module = cast<SCM_Module>(current_mod);
-    SCM *var = module_search_variable(module, sym);
-    if (var) {
-      return var;  // Found (value can be #f)
+SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym) {
+  SCM *val = scm_env_find(env, sym);
+  if (val) {
+    return val;
+  }
+
+  // Not bound yet: the binder or an autoload of the module may provide it
+  SCM_Module *module = scm_env_module(env);
+  if (module) {
+    val = module_search_variable(module, sym);
+    if (val) {
+      return val;
     }
   }
-  
-  // 4. Finally, search in global environment (g_env) if we haven't found it yet
-  // This ensures built-in functions registered via scm_define_function are accessible
-  // This is needed because when env != &g_env, we need to check g_env for built-ins
-  // When env == &g_env, we've already searched it in step 1 and 2, so this is a fallback
-  // for cases where the symbol might be in g_env but not found in the current search path
-  if (env != &g_env) {
-    auto global_entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false);
-    if (global_entry) {
-      return global_entry->value;  // Value can be null (e.g., for #f)
+
+  // Finally search the current module
+  SCM *current_mod = scm_current_module();
+  if (is_module(current_mod) && cast<SCM_Module>(current_mod) != module) {
+    val = module_search_variable(cast<SCM_Module>(current_mod), sym);
+    if (val) {
+      return val;
     }
   }
 
diff --git a/src/c/eval.cc b/src/c/eval.cc
index f291ad1..26b4087 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -59,7 +59,7 @@ SCM *scm_c_eval_string(const char *expr) {
   SCM_List *current = exprs;
   while (current) {
     if (current->data) {
-      last_result = eval_with_env(&g_env, current->data);
+      last_result = eval_with_env(scm_toplevel_env(), current->data);
     }
     current = current->next;
   }
@@ -86,35 +86,30 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
     return nullptr;
   }
   
-  // First try to update in current environment (no parent search)
-  // This ensures set! updates the binding in the current lexical scope
-  auto entry = scm_env_search_entry(env, sym, /*search_parent=*/false);
+  // The binding is looked for where a reference to the variable finds it
+  auto entry = scm_env_local_entry(env, sym);
+  SCM_Module *module = scm_env_module(env);
+  SCM_Module *var_module = entry || !module ? nullptr : module_find_variable_module(module, sym);
+  if (!entry && !var_module) {
+    entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false);
+  }
+  if (!entry && !var_module) {
+    SCM *current_mod = scm_current_module();
+    if (current_mod && is_module(current_mod)) {
+      var_module = module_find_variable_module(cast<SCM_Module>(current_mod), sym);
+    }
+  }
   if (entry) {
     entry->value = val;
-  } else {
-    // Not found in current environment, search in parent environments
-    // This handles cases where set! is used to update a binding in a parent scope
-    entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
-    if (entry) {
-      entry->value = val;
-    } else {
-      // Not found in environment, check if it's in the current module
-      SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod)) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        SCM_Module *var_module = module_find_variable_module(module, sym);
-        if (var_module) {
-          // Variable exists in a module, update it
-          scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
-        } else {
-          // Variable not found in any module, create new binding in environment
-          scm_env_insert(env, sym, val, /*search_parent=*/false);
-        }
-      } else {
-        // No module, create new binding in environment
-        scm_env_insert(env, sym, val, /*search_parent=*/false);
-      }
-    }
+  } else if (!var_module && is_module_scope(env)) {
+    // Variable not found, create new binding in the module
+    var_module = env->module;
+  }
+  if (var_module) {
+    scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
+  } else if (!entry) {
+    // Variable not found, create new binding in environment
+    scm_env_insert(env, sym, val, /*search_parent=*/false);
   }
   
   if (debug_enabled) {
@@ -304,41 +299,8 @@ entry:
     SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
 
     // Check if this is a macro call (before checking special forms).
-    // The whole lexical chain is searched: a local variable hides a macro of the same name.
-    auto entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
-    SCM *val = entry ? entry->value : nullptr;
-    if (!val) {
-      // Search module obarray + use chain for macros imported via use-modules.
-      // Only when we're in a non-root module (root has everything in g_env already).
-      SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        SCM *var = module_obarray_lookup(module, sym);
-        if (!var) {
-          // Search uses list
-          SCM_List *uses = module->uses;
-          while (uses && !var) {
-            SCM *use_mod = uses->data;
-            if (is_module(use_mod))
-              var = module_obarray_lookup(cast<SCM_Module>(use_mod), sym);
-            uses = uses->next;
-          }
-        }
-        val = var;
-      }
-    }
-    // Fallback: search global environment for macros defined at top
-    // level (e.g., texmacs-module in boot.scm). These go into g_env
-    // but are not in any module obarray. Only check for macros here —
-    // non-macro symbols are resolved via lookup_symbol (parent chain
-    // search) in the else branch below; pulling them from g_env here
-    // would shadow local lambda bindings (e.g., exit in cont tests).
-    if (!val) {
-      SCM *g_val = scm_env_exist(&g_env, sym);
-      if (g_val && is_macro(g_val)) {
-        val = g_val;
-      }
-    }
+    // The name means what a reference to it would find: a local variable hides a macro of the same name.
+    SCM *val = scm_env_find(env, sym);
     if (val && is_macro(val)) {
       // Found a macro, expand it and continue evaluation with the expansion. Macro uses inside it are
       // expanded when (and if) they are evaluated, so quoted data is left alone.
@@ -909,8 +871,8 @@ entry:
 
 // Scheme eval function: (eval expr) -> evaluates expr in the current environment
 SCM *scm_c_eval(SCM *expr) {
-  // Evaluate the expression in the global environment
-  return eval_with_env(&g_env, expr);
+  // Evaluate the expression at the top level of the current module
+  return eval_with_env(scm_toplevel_env(), expr);
 }
 
 // defined?: Check if a symbol is defined in the current environment or module
diff --git a/src/c/load.cc b/src/c/load.cc
index 12cb3c8..8264323 100644
--- a/src/c/load.cc
+++ b/src/c/load.cc
@@ -10,10 +10,9 @@ SCM *scm_eval_expression_list(SCM_List *expr_list) {
 
   // Evaluate each expression in the top-level environment
   SCM *result = scm_none();
-  SCM_Environment *top_env = g_env.parent ? g_env.parent : &g_env;
   SCM_List *it = expr_list;
   while (it) {
-    result = eval_with_env(top_env, it->data);
+    result = eval_with_env(scm_toplevel_env(), it->data);
     it = it->next;
   }
 
diff --git a/src/c/macro.cc b/src/c/macro.cc
index 87eb021..a702577 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -252,7 +252,11 @@ static void bind_macro(SCM_Environment *env, SCM_Symbol *name, SCM *macro_scm) {
   }
   // Module-aware insertion: check module first
   SCM *current_mod = scm_current_module();
-  if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
+  if (is_module_scope(env)) {
+    scm_c_hash_set_eq(wrap(env->module->obarray), wrap(name), macro_scm);
+  } else if (current_mod && is_module(current_mod) &&
+             (current_mod != g_root_module || module_obarray_lookup(cast<SCM_Module>(current_mod), name))) {
+    // A definition of the name in the root module is replaced, as it would hide a global macro
     SCM_Module *module = cast<SCM_Module>(current_mod);
     scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
   } else {
@@ -349,12 +353,13 @@ SCM *scm_c_macroexpand_1(SCM *expr) {
     
     // Search for macro in current environment
     // Use scm_env_search to search in lexical environment, modules, and global
-    SCM *val = scm_env_search(&g_env, sym);
+    SCM_Environment *env = scm_toplevel_env();
+    SCM *val = scm_env_search(env, sym);
     
     if (val && is_macro(val)) {
       // Found a macro, expand it once
       SCM_Macro *macro = cast<SCM_Macro>(val);
-      SCM *expanded = expand_macro_call(&g_env, macro, l->next, expr);
+      SCM *expanded = expand_macro_call(env, macro, l->next, expr);
       
       if (!expanded) {
         return expr;  // Expansion failed, return original
diff --git a/src/c/pscm.h b/src/c/pscm.h
index d88bed2..be5bccb 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -753,6 +753,10 @@ SCM *expand_letrec(SCM *expr);
  */
 void scm_env_insert(SCM_Environment *env, SCM_Symbol *sym, SCM *value, bool search_parent = true);
 SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym);
+SCM *scm_env_find(SCM_Environment *env, SCM_Symbol *sym);
+SCM_Environment::Entry *scm_env_local_entry(SCM_Environment *env, SCM_Symbol *sym);
+SCM_Module *scm_env_module(SCM_Environment *env);
+SCM_Environment *scm_toplevel_env();
 SCM *scm_env_exist(SCM_Environment *env, SCM_Symbol *sym);
 SCM_Environment::Entry *scm_env_search_entry(SCM_Environment *env, SCM_Symbol *sym, bool search_parent = true);
 
diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index c7f5354..950f985 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -37,7 +37,7 @@ SCM *pscm_eval(SCM *ast) {
   return scm_c_catch(
       scm_bool_true(),
       [](void *data) -> SCM * {
-        return eval_with_env(&g_env, (SCM *)data);
+        return eval_with_env(scm_toplevel_env(), (SCM *)data);
       },
       (void *)ast,
       scm_api_catch_handler,
diff --git a/src/c/variable.cc b/src/c/variable.cc
index c680e01..9aa88bd 100644
--- a/src/c/variable.cc
+++ b/src/c/variable.cc
@@ -60,7 +60,7 @@ SCM *scm_c_lookup(const char *name) {
   SCM_Symbol *sym = make_sym(name);
   
   // Look up in current environment/module
-  SCM *value = scm_env_search(&g_env, sym);
+  SCM *value = scm_env_search(scm_toplevel_env(), sym);
   
   if (!value) {
     // Not found - throw error (like Guile)
@@ -80,7 +80,7 @@ SCM *scm_lookup(SCM *sym) {
   SCM_Symbol *sym_obj = cast<SCM_Symbol>(sym);
   
   // Look up in current environment/module
-  SCM *value = scm_env_search(&g_env, sym_obj);
+  SCM *value = scm_env_search(scm_toplevel_env(), sym_obj);
   
   if (!value) {
     eval_error("scm_lookup: unbound variable: %s", sym_obj->data);
-- 
2.43.0


From c971b9f922b7e23ddbb1dfd91b0843f7014d8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 42/82] fix: an error or continuation that leaves a module
 being loaded restores the current module

---
 src/c/module.cc | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 49c133a..96e47a8 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -311,6 +311,35 @@ static bool file_exists(const char *path) {
   return false;
 }
 
+// A thunk that makes MODULE the current module
+static SCM *module_setter(SCM *module) {
+  static SCM *setter = nullptr;
+  if (!setter) {
+    setter = wrap(_create_func("set-current-module", scm_set_current_module));
+    cast<SCM_Function>(setter)->n_args = 1;
+    gc_register_root(&setter, "module_setter");
+  }
+  SCM *body = scm_list2(setter, scm_list2(scm_sym_quote(), module));
+  return wrap(make_proc(nullptr, nullptr, make_list(body), &g_env));
+}
+
+// Make MODULE current for a dynamic extent: leaving the extent early, by an error or a continuation, makes
+// OLD_MODULE current again. Returns the wind chain that leave_module takes.
+static SCM_List *enter_module(SCM *module, SCM *old_module) {
+  SCM_List *old_wind_chain = g_wind_chain;
+  SCM_List *extent = make_list(module_setter(module), module_setter(old_module));
+  SCM_List *chain = make_list(wrap(extent));
+  chain->next = g_wind_chain;
+  g_wind_chain = chain;
+  scm_set_current_module(module);
+  return old_wind_chain;
+}
+
+static void leave_module(SCM *old_module, SCM_List *old_wind_chain) {
+  g_wind_chain = old_wind_chain;
+  scm_set_current_module(old_module);
+}
+
 // Resolve module name, return module object
 SCM *scm_resolve_module(SCM_List *name) {
   // Initialize registry if needed
@@ -429,13 +458,13 @@ SCM *scm_resolve_module(SCM_List *name) {
 
     // Set current module for define forms (they check scm_current_module
     // to decide where to insert bindings).
-    scm_set_current_module(module);
+    SCM_List *old_wind_chain = enter_module(module, old_module);
 
     // Load and evaluate file in module-aware environment
     scm_c_primitive_load_with_env(found_path, module_env);
 
     // Restore current module
-    scm_set_current_module(old_module);
+    leave_module(old_module, old_wind_chain);
 
     if (full_path) {
       free(full_path);
@@ -1127,11 +1156,12 @@ SCM *scm_c_call_with_current_module(SCM *module,
     eval_error("scm_c_call_with_current_module: expected module");
     return nullptr;
   }
-  SCM *old = scm_set_current_module(module);
+  SCM *old = scm_current_module();
+  SCM_List *old_wind_chain = enter_module(module, old);
 
   SCM *result = func(data);
 
-  scm_set_current_module(old);
+  leave_module(old, old_wind_chain);
   return result;
 }
 
@@ -1153,9 +1183,9 @@ SCM *scm_c_define_module(const char *name,
 
   if (init) {
     SCM *old = scm_current_module();
-    g_current_module = module;
+    SCM_List *old_wind_chain = enter_module(module, old);
     init(data);
-    g_current_module = old;
+    leave_module(old, old_wind_chain);
   }
 
   return module;
-- 
2.43.0


From 6774db01bb51c77fb749f76daed31300d2d93d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 43/82] fix: a symbol or list as the value of an operator is an
 error, not evaluated again

---
 src/c/eval.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 26b4087..98bdca5 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -166,6 +166,13 @@ static SCM *lookup_symbol(SCM_Environment *env, SCM_Symbol *sym) {
   return val;
 }
 
+// The value of an operator is not evaluated again: a symbol or list there is no procedure
+static void check_operator(SCM *val) {
+  if (is_sym(val) || is_pair(val)) {
+    eval_error("not a procedure: %s", get_type_name(val->type));
+  }
+}
+
 // Helper function for if special form
 static SCM *eval_if(SCM_Environment *env, SCM_List *l, SCM **ast) {
   check_syntax(l->next && l->next->next, "if");
@@ -493,6 +500,7 @@ entry:
         return nullptr;
       }
       
+      check_operator(val);
       auto new_list = make_list(val);
       new_list->next = l->next;
       ast = wrap(new_list);
@@ -635,6 +643,7 @@ entry:
   else if (is_pair(l->data)) {
     // Nested list: evaluate first element and continue
     auto f = eval_with_env(env, l->data);
+    check_operator(f);
     auto new_l = make_list(f);
     new_l->next = l->next;
     ast = wrap(new_l);
-- 
2.43.0


From 95e7d362a5ef7699a4e54dfc3d07921522f3eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 44/82] fix: hash-fold rejects a symbol or list as its
 procedure

---
 src/c/hash_table.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 6e68dc2..b1080ef 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -320,6 +320,10 @@ SCM *scm_c_hash_fold(SCM *proc, SCM *init, SCM *table,
     eval_error("hash-fold: third argument must be a hash-table");
     return nullptr;
   }
+  if (is_sym(proc) || is_pair(proc)) {
+    eval_error("hash-fold: first argument must be a procedure");
+    return nullptr;
+  }
   
   auto hash_table = cast<SCM_HashTable>(table);
   SCM *result = init;
-- 
2.43.0


From 0f7269c1c0cdf664fde780ef5c780e10a4e7f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 45/82] fix: module-bound? finds variables whose value is #f

---
 src/c/module.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 96e47a8..e4fbcbe 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -758,9 +758,7 @@ SCM *scm_c_module_bound_p(SCM *module, SCM *symbol) {
   
   SCM_Module *mod = cast<SCM_Module>(module);
   SCM_Symbol *sym = cast<SCM_Symbol>(symbol);
-  SCM *var = scm_module_variable(mod, sym, false);
-  
-  return var && !is_falsy(var) ? scm_bool_true() : scm_bool_false();
+  return module_search_variable(mod, sym) ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_module_p(SCM *obj) {
-- 
2.43.0


From c243bdd4069ddba4439277ce87878dcb3c63ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 46/82] fix: top-level definitions go to the current module
 whatever is built in, so a module's own definition always wins

---
 src/c/define.cc | 25 ++++++++-----------------
 src/c/macro.cc  | 13 +++----------
 2 files changed, 11 insertions(+), 27 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index 942f001..d62c645 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -20,24 +20,15 @@ static void define_binding(SCM_Environment *env, SCM_Symbol *varname, SCM *val)
       scm_env_insert(env, varname, val, /*search_parent=*/false);
     }
   } else {
-    // Top-level: check if symbol exists in global environment
-    // If it exists, update it; otherwise define in module or environment
-    auto global_entry = scm_env_search_entry(&g_env, varname, /*search_parent=*/false);
-    if (global_entry) {
-      // Symbol exists in global environment, update it
-      global_entry->value = val;
+    // Top-level: define in the current module, which takes precedence over the built-in definitions
+    SCM *current_mod = scm_current_module();
+    if (current_mod && is_module(current_mod)) {
+      SCM_Module *module = cast<SCM_Module>(current_mod);
+      // Create binding in module's obarray
+      scm_c_hash_set_eq(wrap(module->obarray), wrap(varname), val);
     } else {
-      // Symbol doesn't exist in global environment
-      // Check if current module exists, define in module
-      SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod)) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        // Create binding in module's obarray
-        scm_c_hash_set_eq(wrap(module->obarray), wrap(varname), val);
-      } else {
-        // Otherwise define in environment
-        scm_env_insert(env, varname, val, /*search_parent=*/false);
-      }
+      // Otherwise define in environment
+      scm_env_insert(env, varname, val, /*search_parent=*/false);
     }
   }
 }
diff --git a/src/c/macro.cc b/src/c/macro.cc
index a702577..c8ffb9d 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -250,22 +250,15 @@ static void bind_macro(SCM_Environment *env, SCM_Symbol *name, SCM *macro_scm) {
     scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
     return;
   }
-  // Module-aware insertion: check module first
+  // In the module, like any definition
   SCM *current_mod = scm_current_module();
   if (is_module_scope(env)) {
     scm_c_hash_set_eq(wrap(env->module->obarray), wrap(name), macro_scm);
-  } else if (current_mod && is_module(current_mod) &&
-             (current_mod != g_root_module || module_obarray_lookup(cast<SCM_Module>(current_mod), name))) {
-    // A definition of the name in the root module is replaced, as it would hide a global macro
+  } else if (current_mod && is_module(current_mod)) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
     scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
   } else {
-    auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
-    if (global_entry) {
-      global_entry->value = macro_scm;
-    } else {
-      scm_env_insert(&g_env, name, macro_scm);
-    }
+    scm_env_insert(&g_env, name, macro_scm, /*search_parent=*/false);
   }
 }
 
-- 
2.43.0


From cfca6c704dfc1d9b674b352915e1c73065a40a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 47/82] fix: the variables of a procedure are never looked up
 in the module that happens to be current

---
 src/c/environment.cc | 15 +++++----------
 src/c/eval.cc        |  6 ------
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/c/environment.cc b/src/c/environment.cc
index 339aeb4..61f8a12 100644
--- a/src/c/environment.cc
+++ b/src/c/environment.cc
@@ -74,11 +74,15 @@ SCM_Environment::Entry *scm_env_local_entry(SCM_Environment *env, SCM_Symbol *sy
   return nullptr;
 }
 
-// The module whose definitions code in env sees: the one its environment was made for, or the root module
+// The module whose definitions code in env sees: the one its environment was made for, or the root module. Code
+// directly in the global environment is top-level code of the current module.
 SCM_Module *scm_env_module(SCM_Environment *env) {
   if (env->module) {
     return env->module;
   }
+  if (env == &g_env && is_module(scm_current_module())) {
+    return cast<SCM_Module>(scm_current_module());
+  }
   return g_root_module ? cast<SCM_Module>(g_root_module) : nullptr;
 }
 
@@ -115,15 +119,6 @@ SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym) {
     }
   }
 
-  // Finally search the current module
-  SCM *current_mod = scm_current_module();
-  if (is_module(current_mod) && cast<SCM_Module>(current_mod) != module) {
-    val = module_search_variable(cast<SCM_Module>(current_mod), sym);
-    if (val) {
-      return val;
-    }
-  }
-
   // Try to get source location from current eval context for debugging
   const char *loc_str = nullptr;
   if (g_current_eval_context) {
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 98bdca5..6d2b674 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -93,12 +93,6 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
   if (!entry && !var_module) {
     entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false);
   }
-  if (!entry && !var_module) {
-    SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
-      var_module = module_find_variable_module(cast<SCM_Module>(current_mod), sym);
-    }
-  }
   if (entry) {
     entry->value = val;
   } else if (!var_module && is_module_scope(env)) {
-- 
2.43.0


From d966529e058aeceb29df5e0a647c01770689a83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 48/82] fix: an interface on the path of a re-export search is
 not searched again

---
 src/c/module.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index e4fbcbe..9d285ad 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -108,11 +108,12 @@ struct InterfacePath {
 // The module whose obarray holds the binding that a module in a uses list provides for a name. A public interface
 // provides the current binding of each exported name, whenever that is defined or changed.
 static SCM_Module *used_binding_home(SCM_Module *module, SCM_Symbol *sym, InterfacePath *path) {
-  bool seen = false;  // modules may re-export from each other
   for (InterfacePath *p = path; p; p = p->outer) {
-    seen = seen || p->interface == module;
+    if (p->interface == module) {
+      return nullptr;  // modules may re-export from each other
+    }
   }
-  if (!seen && is_interface(module) && is_exported(module->public_interface, sym)) {
+  if (is_interface(module) && is_exported(module->public_interface, sym)) {
     SCM_Module *exporter = module->public_interface;
     if (module_obarray_lookup(exporter, sym)) {
       return exporter;
-- 
2.43.0


From b18326245c85baae3a1e6d3b3c98d98d3815e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 49/82] fix: a quotient of exact numbers keeps its sign when
 its numerator is the smallest integer

---
 src/c/number.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/number.cc b/src/c/number.cc
index 3fabd79..a28d078 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -994,6 +994,10 @@ SCM *scm_c_div(SCM_List *args) {
     // (result_num/result_den) / (div_num/div_den) = (result_num * div_den) / (result_den * div_num)
     __int128 wide_num = (__int128)result_num * div_den;
     __int128 wide_den = (__int128)result_den * div_num;
+    if (wide_den < 0) {
+      wide_num = -wide_num;
+      wide_den = -wide_den;
+    }
     __int128 g = wide_gcd(wide_num, wide_den);
     result_num = (int64_t)(wide_num / g);
     result_den = (int64_t)(wide_den / g);
-- 
2.43.0


From a84b8f47b12f330232ad85caf96b82a46277b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 50/82] fix: a reclaimed vector or hash table has no elements
 left to trace

---
 src/c/gc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 1b4627c..61f6e81 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -699,6 +699,8 @@ static void sweep_vector(GCBlock *block) {
     delete[] vec->elements;
     vec->elements = nullptr;
   }
+  // A stale pointer on the stack can still lead a later mark phase here.
+  vec->length = 0;
 }
 
 // --- GC_HASH ----------------------------------------------------------
@@ -708,6 +710,7 @@ static void sweep_hash(GCBlock *block) {
     free(ht->buckets);
     ht->buckets = nullptr;
   }
+  ht->capacity = 0;
 }
 
 // --- GC_STRING --------------------------------------------------------
-- 
2.43.0


From 8fbad9720169c5bd104bde67acc55682bbe57007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 51/82] fix: the collector only looks for block headers inside
 its heap segments

---
 src/c/gc.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 61f6e81..21048ba 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -311,6 +311,15 @@ void gc_register_root(SCM **ptr, const char *name) {
 // Conservative root scanning
 // =========================================================================
 
+// Is there an allocated block header at P?  The segments need not be adjacent:
+// what lies between them may belong to others or not be mapped at all.
+static bool in_segment(char *p) {
+  for (HeapSegment *seg = g_segments; seg; seg = seg->next) {
+    if (p >= seg->start && p < seg->bump) return true;
+  }
+  return false;
+}
+
 static void mark_if_valid_block(void *ptr, MarkStack *stack) {
   if (!ptr) return;
   char *cptr = (char *)ptr;
@@ -322,6 +331,7 @@ static void mark_if_valid_block(void *ptr, MarkStack *stack) {
 
   // Block header must be 16-byte aligned.
   if (block_addr & (sizeof(GCBlock) - 1)) return;
+  if (!in_segment((char *)block_addr)) return;
 
   GCBlock *block = (GCBlock *)block_addr;
   if (block->gc_magic == GC_MAGIC) {
-- 
2.43.0


From 4444fd221b307d3ab0eaaaf081ffafaf86dc97f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 52/82] fix: running out of C stack is an error, not a crash

---
 src/c/eq.cc         |  1 +
 src/c/error.cc      | 42 ++++++++++++++++++++++++++++++++++++++++++
 src/c/error.h       |  5 +++++
 src/c/eval.cc       |  1 +
 src/c/macro.cc      |  1 +
 src/c/parse.cc      |  1 +
 src/c/print.cc      | 10 ++++++++++
 src/c/quasiquote.cc |  1 +
 8 files changed, 62 insertions(+)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index 9b90689..6794baf 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -229,6 +229,7 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
 
 // Recursive helper for equal? to avoid infinite recursion
 static bool _equal_recursive(SCM *lhs, SCM *rhs) {
+  check_c_stack();
   if (lhs == rhs) {
     return true;
   }
diff --git a/src/c/error.cc b/src/c/error.cc
index 1ddf16d..764b80e 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -4,11 +4,53 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#if defined(__unix__) || defined(__APPLE__)
+#include <sys/resource.h>
+#endif
 
 // External globals written by the catch-all handler for public API boundary
 extern char *g_last_error_message;
 extern char *g_last_error_key;
 
+// What is left of the C stack when evaluation gives up, and what the handling of that error may use of it.
+static const size_t STACK_RESERVE = 512 * 1024;
+static const size_t STACK_RESERVE_RECOVERY = 256 * 1024;
+static bool g_stack_recovery = false;
+
+// The size the C stack can grow to, 0 if not known
+static size_t c_stack_size() {
+#if defined(__unix__) || defined(__APPLE__)
+  struct rlimit limit;
+  if (getrlimit(RLIMIT_STACK, &limit) == 0 && limit.rlim_cur != RLIM_INFINITY) {
+    return (size_t)limit.rlim_cur;
+  }
+#endif
+  return 0;
+}
+
+bool c_stack_is_low() {
+  static const size_t size = c_stack_size();
+  char here;
+  if (size < 2 * STACK_RESERVE || &here > (char *)cont_base) {
+    return false;
+  }
+  size_t used = (char *)cont_base - &here;
+  if (used <= size - STACK_RESERVE) {
+    g_stack_recovery = false;
+    return false;
+  }
+  // Far outside the limit this is another stack, about which nothing is known.
+  return used <= size && (!g_stack_recovery || used > size - STACK_RESERVE_RECOVERY);
+}
+
+void check_c_stack() {
+  if (c_stack_is_low()) {
+    // Let after thunks and handlers that run before the stack is unwound use some of what is left.
+    g_stack_recovery = true;
+    eval_error("stack overflow");
+  }
+}
+
 static const int MAX_STACK_DEPTH = 100;
 static int g_stack_depth = 0;
 
diff --git a/src/c/error.h b/src/c/error.h
index a7ea1cd..727399a 100644
--- a/src/c/error.h
+++ b/src/c/error.h
@@ -29,6 +29,11 @@ const char *get_type_name(SCM::Type type);
 void eval_error(const char *format, ...);
 void type_error(SCM *data, const char *expected_type);
 
+// The C stack bounds how deep evaluation and data can nest: is it nearly used up?
+bool c_stack_is_low();
+// Signal an error if it is
+void check_c_stack();
+
 // Helper function to print AST to stderr
 inline void print_ast_to_stderr(SCM *ast) {
   fflush(stdout);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 6d2b674..bd7adaf 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -260,6 +260,7 @@ static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
 SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
+  check_c_stack();
 
   // Push onto evaluation stack for call trace
   push_eval_stack(ast);
diff --git a/src/c/macro.cc b/src/c/macro.cc
index c8ffb9d..9ff1211 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -165,6 +165,7 @@ SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, S
 
 // Helper function to expand macros in an expression
 SCM *expand_macros(SCM_Environment *env, SCM *ast) {
+  check_c_stack();
   // Basic safety check: null check
   if (!ast) {
     return ast;
diff --git a/src/c/parse.cc b/src/c/parse.cc
index 0119197..09c3c44 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1190,6 +1190,7 @@ static SCM *parse_list(Parser *p) {
 
 // Parse an expression
 static SCM *parse_expr(Parser *p) {
+  check_c_stack();
   skip_whitespace(p);
   
   if (*p->pos == '\0') {
diff --git a/src/c/print.cc b/src/c/print.cc
index 9cae128..24daae2 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -42,6 +42,11 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
     printf("<null>");
     return;
   }
+  if (c_stack_is_low()) {
+    // Nested too deep to be shown in full
+    printf("...");
+    return;
+  }
   
   // Check if type is valid (within enum range)
   if (ast->type < SCM::NONE || ast->type > SCM::VARIABLE) {
@@ -333,6 +338,11 @@ static bool _is_quote_form(SCM_List *l, const char *sym_name) {
 }
 
 static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintContext &ctx) {
+  if (c_stack_is_low()) {
+    // Nested too deep to be shown in full
+    printf("...");
+    return;
+  }
   if (!l) {
     printf("()");
     return;
diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index a674ca0..df7641a 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -99,6 +99,7 @@ static SCM *append_two_lists(SCM *list1, SCM *list2) {
 // Main quasi function: expand quasiquote expression
 // Based on Guile 1.8's iqq function - direct evaluation approach
 static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
+  check_c_stack();
   // 1. Handle (unquote ...)
   if (is_unquote_form(p)) {
     SCM *arg = get_form_arg(p);
-- 
2.43.0


From 1c25ca7319003ed1f1b3945b941c665c7aa911a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 53/82] fix: the parser leaves no context behind after an empty
 list, a vector or a quoted character

---
 src/c/parse.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 09c3c44..9ec7e5e 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -652,6 +652,8 @@ static SCM *parse_vector(Parser *p) {
   p->pos++; // consume ')'
   p->column++;
   
+  pop_parse_stack();  // Successfully parsed vector
+  
   // Convert list to vector
   int count = 0;
   SCM_List *current = dummy.next;
@@ -886,6 +888,8 @@ static SCM *parse_quote(Parser *p) {
     SCM *quote_sym = scm_sym_quote();
     SCM_List *list = make_list(quote_sym, quoted);
     
+    pop_parse_stack();  // Successfully parsed quote
+    
     SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
     scm->type = SCM::LIST;
     scm->value = list;
@@ -1073,6 +1077,9 @@ static SCM *parse_list(Parser *p) {
   if (*p->pos == ')') {
     p->pos++; // consume ')'
     p->column++;
+    
+    pop_parse_stack();  // Successfully parsed empty list
+    
     SCM *result = scm_nil();
     set_source_location(result, p->filename, start_line, start_column);
     return result;
-- 
2.43.0


From d2b945c46205d1d5c50fe8e9cf99e48f8d2803a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 54/82] fix: a string or vector too large to allocate is an
 error

---
 src/c/string.cc | 12 +++++++++++-
 src/c/vector.cc |  9 +++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index ea14240..ddefe5a 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -1,6 +1,8 @@
 #include "pscm.h"
 #include "eval.h"
+#include <climits>
 #include <cstring>
+#include <new>
 #include <ctype.h>
 
 // Defined in number.cc
@@ -32,6 +34,10 @@ static SCM *scm_c_make_string_impl(SCM *len_scm, SCM *char_scm) {
     eval_error("make-string: length must be non-negative");
     return nullptr;
   }
+  if (len >= INT_MAX) {
+    eval_error("make-string: length too large");
+    return nullptr;
+  }
   
   // Get optional character (default to space)
   char fill_char = ' ';
@@ -45,7 +51,11 @@ static SCM *scm_c_make_string_impl(SCM *len_scm, SCM *char_scm) {
   
   // Create string
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
-  s->data = new char[len + 1];
+  s->data = new (std::nothrow) char[len + 1];
+  if (!s->data) {
+    eval_error("make-string: out of memory");
+    return nullptr;
+  }
   for (int i = 0; i < len; i++) {
     s->data[i] = fill_char;
   }
diff --git a/src/c/vector.cc b/src/c/vector.cc
index 7c3687f..7aca9eb 100644
--- a/src/c/vector.cc
+++ b/src/c/vector.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include <new>
 
 // Helper function for make-vector implementation
 static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
@@ -18,9 +19,13 @@ static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
   
   // Create vector
   SCM_Vector *vec = (SCM_Vector *)gc_alloc(GC_VECTOR, sizeof(SCM_Vector));
-  vec->length = (size_t)len;
   if (len > 0) {
-    vec->elements = new SCM*[len];
+    vec->elements = new (std::nothrow) SCM*[len];
+    if (!vec->elements) {
+      eval_error("make-vector: out of memory");
+      return nullptr;
+    }
+    vec->length = (size_t)len;
     for (size_t i = 0; i < (size_t)len; i++) {
       vec->elements[i] = fill;
     }
-- 
2.43.0


From 36011fbf8e3e7a87f00e7a875fe1116e8b8275ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 55/82] fix: a macro expansion that shares a node with the call
 does not free its source file name

---
 src/c/source_location.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/source_location.cc b/src/c/source_location.cc
index caec318..01faa8a 100644
--- a/src/c/source_location.cc
+++ b/src/c/source_location.cc
@@ -23,6 +23,7 @@ void set_source_location(SCM *scm, const char *filename, int line, int column) {
 // Helper function to copy source location from one node to another
 void copy_source_location(SCM *dest, SCM *src) {
   if (!dest || !src || !src->source_loc) return;
+  if (dest->source_loc == src->source_loc) return;  // e.g. a macro that returns one of its arguments
   if (!dest->source_loc) {
     dest->source_loc = new SCM_SourceLocation();
     dest->source_loc->filename = nullptr;
-- 
2.43.0


From 5310289193960a4590fa0b97e75b51de94093ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:00 +0000
Subject: [PATCH 56/82] fix: nested unquotes and deep hash keys that run out of
 C stack are errors

---
 src/c/hash_table.cc | 1 +
 src/c/parse.cc      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index b1080ef..91ce41b 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -53,6 +53,7 @@ static unsigned long scm_hash_code_eq(SCM *key) {
 
 // Hash function for equal? (deep equality)
 static unsigned long scm_hash_code_equal(SCM *key) {
+  check_c_stack();
   unsigned long hash = 17;
   switch (key->type) {
   case SCM::STR: {
diff --git a/src/c/parse.cc b/src/c/parse.cc
index 9ec7e5e..b9b0329 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -960,6 +960,7 @@ static SCM *parse_quasiquote(Parser *p) {
 // This is called when we encounter a comma in a list context
 // Handles nested unquotes: ,,name means (unquote (unquote name))
 static SCM *parse_unquote_in_list(Parser *p) {
+  check_c_stack();
   if (*p->pos != ',') {
     return nullptr;
   }
-- 
2.43.0


From caa32893181aaee9fa0eb4cc67de90accabf846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:24 +0000
Subject: [PATCH 57/82] fix: a continuation too large to save is an error

---
 src/c/continuation.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index dba8a7b..90bdf30 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -34,7 +34,12 @@ SCM *scm_make_continuation(int *first) {
   SCM_DEBUG_CONT("stack_len: %ld\n", stack_size);
   src = cont_base;
   src -= stack_size;
-  auto cont = make_cont(stack_size, (long *)malloc(sizeof(long) * stack_size), src);
+  auto stack_data = (long *)malloc(sizeof(long) * stack_size);
+  if (!stack_data) {
+    eval_error("call/cc: out of memory");
+    return nullptr;
+  }
+  auto cont = make_cont(stack_size, stack_data, src);
   auto data = wrap(cont);
 #if defined(__has_feature) && __has_feature(address_sanitizer)
   {
-- 
2.43.0


From 56068b77c66d2431b4b3acea7ba202704fc47180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:53 +0000
Subject: [PATCH 58/82] fix: call/cc of a symbol or list is an error

---
 src/c/eval.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index bd7adaf..1166f4f 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -237,6 +237,10 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
   check_syntax(l->next, "call-with-current-continuation");
   auto proc = eval_with_env(env, l->next->data);
+  if (!proc || (!is_proc(proc) && !is_func(proc) && !is_cont(proc))) {
+    eval_error("call-with-current-continuation: argument must be a procedure");
+    return nullptr;
+  }
   int first;
   auto cont = scm_make_continuation(&first);
   SCM_DEBUG_CONT("jump back: ");
-- 
2.43.0


From 3187aabe2c55ffdb022647ceecacbf105914e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:06 +0000
Subject: [PATCH 59/82] fix: apply, map and call/cc are procedures like any
 other when called as values, and continuations are accepted wherever
 procedures are

---
 src/c/apply.cc        | 265 ++++++++++--------------------------------
 src/c/continuation.cc |  23 +++-
 src/c/dynwind.cc      |   4 -
 src/c/eval.cc         |  43 +------
 src/c/eval.h          |   8 ++
 src/c/for_each.cc     |   2 +-
 src/c/function.cc     |  17 ---
 src/c/map.cc          |  35 ++----
 src/c/port.cc         | 106 ++---------------
 src/c/throw.cc        |   4 -
 src/c/values.cc       |  30 +----
 11 files changed, 114 insertions(+), 423 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 87f3b42..6e25255 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -1,162 +1,97 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Wrapper function for apply as a builtin function
-// This function is called when apply is used as a value (not as a special form)
-// It receives already-evaluated arguments, but apply needs to handle evaluation itself
-// So we create a dummy function that will be handled specially in eval.cc
+// Quote evaluated arguments, for a form that evaluates its operands
+SCM_List *quote_values(SCM_List *args) {
+  SCM_List dummy = make_list_dummy();
+  SCM_List *tail = &dummy;
+  for (; args; args = args->next) {
+    tail->next = make_list(scm_list2(scm_sym_quote(), args->data));
+    tail = tail->next;
+  }
+  return dummy.next;
+}
+
+// apply as a value: called with evaluated arguments
 SCM *scm_c_apply(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("apply: internal error - should be handled as special form");
-  return nullptr;
+  SCM_List *call = make_list(scm_nil());
+  call->next = quote_values(args);
+  return eval_apply(&g_env, call);
 }
 
-// scm_call_0: Call procedure with 0 arguments
-SCM *scm_call_0(SCM *proc) {
-  if (!proc) {
-    eval_error("scm_call_0: procedure is null");
-    return nullptr;
-  }
-  
+SCM *call_with_values(SCM *proc, SCM_List *args) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure_with_values(env, proc_obj, nullptr);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    dummy_list.next = nullptr;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_0: expected procedure or function");
-    return nullptr;
+    return apply_procedure_with_values(env, proc_obj, args);
   }
+  if (is_cont(proc)) {
+    // One argument is passed as it is, several like the result of values
+    scm_dynthrow(proc, args ? (args->next ? wrap(args) : args->data) : scm_nil());
+  }
+  SCM_List call;
+  call.data = proc;
+  call.next = args;
+  call.is_dotted = false;
+  return eval_with_func(cast<SCM_Function>(proc), &call);
 }
 
-// scm_call_1: Call procedure with 1 argument
-SCM *scm_call_1(SCM *proc, SCM *arg1) {
+static void check_callable(SCM *proc, const char *who) {
   if (!proc) {
-    eval_error("scm_call_1: procedure is null");
-    return nullptr;
+    eval_error("%s: procedure is null", who);
   }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    SCM_List *args = make_list(arg1);
-    return apply_procedure_with_values(env, proc_obj, args);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    SCM_List *arg_list = make_list(arg1);
-    dummy_list.next = arg_list;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_1: expected procedure or function");
-    return nullptr;
+  if (!is_callable(proc)) {
+    eval_error("%s: expected procedure or function", who);
   }
 }
 
+// scm_call_0: Call procedure with 0 arguments
+SCM *scm_call_0(SCM *proc) {
+  check_callable(proc, "scm_call_0");
+  return call_with_values(proc, nullptr);
+}
+
+// scm_call_1: Call procedure with 1 argument
+SCM *scm_call_1(SCM *proc, SCM *arg1) {
+  check_callable(proc, "scm_call_1");
+  return call_with_values(proc, make_list(arg1));
+}
+
 // scm_call_2: Call procedure with 2 arguments
 SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
-  if (!proc) {
-    eval_error("scm_call_2: procedure is null");
-    return nullptr;
-  }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    SCM_List *args = make_list(arg1);
-    args->next = make_list(arg2);
-    return apply_procedure_with_values(env, proc_obj, args);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    SCM_List *arg_list = make_list(arg1);
-    arg_list->next = make_list(arg2);
-    dummy_list.next = arg_list;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_2: expected procedure or function");
-    return nullptr;
-  }
+  check_callable(proc, "scm_call_2");
+  SCM_List *args = make_list(arg1);
+  args->next = make_list(arg2);
+  return call_with_values(proc, args);
 }
 
 // scm_call_3: Call procedure with 3 arguments
 SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
-  if (!proc) {
-    eval_error("scm_call_3: procedure is null");
-    return nullptr;
-  }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    SCM_List *args = make_list(arg1);
-    args->next = make_list(arg2);
-    args->next->next = make_list(arg3);
-    return apply_procedure_with_values(env, proc_obj, args);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    SCM_List *arg_list = make_list(arg1);
-    arg_list->next = make_list(arg2);
-    arg_list->next->next = make_list(arg3);
-    dummy_list.next = arg_list;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_3: expected procedure or function");
-    return nullptr;
-  }
+  check_callable(proc, "scm_call_3");
+  SCM_List *args = make_list(arg1);
+  args->next = make_list(arg2);
+  args->next->next = make_list(arg3);
+  return call_with_values(proc, args);
 }
 
 // scm_apply_0: Apply procedure with arguments in a list
 SCM *scm_apply_0(SCM *proc, SCM *args) {
-  if (!proc) {
-    eval_error("scm_apply_0: procedure is null");
-    return nullptr;
-  }
-  
+  check_callable(proc, "scm_apply_0");
   // args can be nil (empty list) or a pair (list)
-  SCM_List *args_list = nullptr;
-  if (is_pair(args)) {
-    args_list = cast<SCM_List>(args);
-  } else if (!is_nil(args)) {
+  if (!is_pair(args) && !is_nil(args)) {
     eval_error("scm_apply_0: args must be a list or nil");
-    return nullptr;
   }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure_with_values(env, proc_obj, args_list);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    dummy_list.next = args_list;
-    dummy_list.is_dotted = false;
-    // For functions, arguments are already evaluated (this is C API)
-    // So we need to use apply_procedure_with_values if it's a procedure,
-    // or handle it specially for functions
-    // Actually, eval_with_func expects arguments in a specific format
-    // Let's check if we need to use apply_procedure_with_values for procedures
-    // For now, use eval_with_func which should work if args are already evaluated
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_apply_0: expected procedure or function");
-    return nullptr;
+  // The arguments are passed in a list of their own
+  SCM_List dummy = make_list_dummy();
+  SCM_List *tail = &dummy;
+  for (SCM_List *l = is_pair(args) ? cast<SCM_List>(args) : nullptr; l; l = l->next) {
+    if (l->is_dotted) {
+      eval_error("scm_apply_0: args must be a proper list");
+    }
+    tail->next = make_list(l->data);
+    tail = tail->next;
   }
+  return call_with_values(proc, dummy.next);
 }
 
 void init_apply() {
@@ -287,78 +222,6 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     return apply_procedure(env, proc_obj, args_dummy.next);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    // Special handling for apply: if apply is being applied, we need to handle it specially
-    if (func_obj->name && strcmp(func_obj->name->data, "apply") == 0) {
-      // This is apply being applied - construct a call list and use eval_apply
-      // args_dummy.next contains the arguments for apply: (proc arg1 arg2 ... args-list)
-      // We need to mark that arguments are already evaluated
-      SCM_List apply_call;
-      apply_call.data = proc;
-      apply_call.next = args_dummy.next;
-      // Mark that arguments are already evaluated by setting args_evaluated flag
-      // But we can't pass that flag, so we need to detect it in eval_apply
-      // Actually, we can detect it by checking if l->data is a function (not a symbol)
-      return eval_apply(env, &apply_call);
-    }
-    // Special handling for map: if map is being applied, we need to handle it specially
-    if (func_obj->name && strcmp(func_obj->name->data, "map") == 0) {
-      // This is map being applied - construct a call list and use eval_map
-      // args_dummy.next contains the arguments for map: (proc list1 list2 ...)
-      SCM_List map_call;
-      map_call.data = proc;
-      map_call.next = args_dummy.next;
-      return eval_map(env, &map_call);
-    }
-    // Special handling for call-with-current-continuation: if it's being applied, handle it specially
-    if (func_obj->name && (strcmp(func_obj->name->data, "call-with-current-continuation") == 0 || 
-                           strcmp(func_obj->name->data, "call/cc") == 0)) {
-      // This is call-with-current-continuation being applied
-      // args_dummy.next should contain a single argument (the procedure)
-      if (!args_dummy.next) {
-        eval_error("call-with-current-continuation: requires 1 argument (procedure)");
-        return nullptr;
-      }
-      // The argument might be wrapped in quote, so we need to evaluate it
-      SCM *proc_arg_expr = args_dummy.next->data;
-      SCM *proc_arg = eval_with_env(env, proc_arg_expr);
-      if (!proc_arg) {
-        eval_error("call-with-current-continuation: failed to evaluate argument");
-        return nullptr;
-      }
-      if (!is_proc(proc_arg) && !is_func(proc_arg)) {
-        eval_error("call-with-current-continuation: argument must be a procedure");
-        return nullptr;
-      }
-      // Create continuation and call procedure
-      int first;
-      auto cont = scm_make_continuation(&first);
-      if (!first) {
-        // Continuation was invoked, return the argument
-        return cont;
-      }
-      // Call procedure with continuation
-      SCM_List *cont_list = make_list(cont);
-      if (is_proc(proc_arg)) {
-        return apply_procedure(env, cast<SCM_Procedure>(proc_arg), cont_list);
-      } else {
-        // For function, evaluate arguments and call
-        SCM_List *evaled_args = eval_list_with_env(env, cont_list);
-        SCM_List func_call;
-        func_call.data = proc_arg;
-        func_call.next = evaled_args;
-        return eval_with_func(cast<SCM_Function>(proc_arg), &func_call);
-      }
-    }
-    SCM_List *evaled_args = eval_list_with_env(env, args_dummy.next);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = evaled_args;
-    return eval_with_func(func_obj, &func_call);
-  } else {
-    eval_error("apply: first argument must be a procedure");
-    return nullptr; // Never reached
   }
+  return call_with_values(proc, eval_list_with_env(env, args_dummy.next));
 }
-
diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index 90bdf30..b5237be 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -139,13 +139,24 @@ void grow_stack(SCM *cont, SCM *args) {
   scm_dynthrow(cont, args);
 }
 
-// Wrapper function for call-with-current-continuation as a builtin function
-// This function is called when call-with-current-continuation is used as a value (not as a special form)
+// call-with-current-continuation as a value: called with evaluated arguments
 SCM *scm_c_call_with_current_continuation(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("call-with-current-continuation: internal error - should be handled as special form");
-  return nullptr;
+  if (!args) {
+    eval_error("call-with-current-continuation: requires 1 argument (procedure)");
+    return nullptr;
+  }
+  SCM *proc = args->data;
+  if (!is_callable(proc)) {
+    eval_error("call-with-current-continuation: argument must be a procedure");
+    return nullptr;
+  }
+  int first;
+  auto cont = scm_make_continuation(&first);
+  if (!first) {
+    // Continuation was invoked, return the argument
+    return cont;
+  }
+  return call_with_values(proc, make_list(cont));
 }
 
 void init_continuation() {
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index eab45d8..3ba26da 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -90,10 +90,6 @@ void rewind_wind_chain(SCM_List *common, SCM_List *target) {
   }
 }
 
-static bool is_callable(SCM *scm) {
-  return is_proc(scm) || is_func(scm) || is_cont(scm);
-}
-
 // Dynamic-wind special form handler
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
   check_syntax(l->next && l->next->next && l->next->next->next, "dynamic-wind");
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 1166f4f..fb40797 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -237,7 +237,7 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
   check_syntax(l->next, "call-with-current-continuation");
   auto proc = eval_with_env(env, l->next->data);
-  if (!proc || (!is_proc(proc) && !is_func(proc) && !is_cont(proc))) {
+  if (!proc || !is_callable(proc)) {
     eval_error("call-with-current-continuation: argument must be a procedure");
     return nullptr;
   }
@@ -583,47 +583,6 @@ entry:
       SCM *result = eval_map(env, l);
       RETURN_WITH_CONTEXT(result);
     }
-    if (func->name && (strcmp(func->name->data, "call-with-current-continuation") == 0 || 
-                       strcmp(func->name->data, "call/cc") == 0)) {
-      // For call-with-current-continuation, when called as a function value, arguments are already evaluated
-      // We need to handle it specially, similar to how it's handled as a special form
-      // l->data is the call-with-current-continuation function, l->next contains the already-evaluated arguments
-      if (!l->next) {
-        eval_error("call-with-current-continuation: requires 1 argument (procedure)");
-        RETURN_WITH_CONTEXT(nullptr);
-      }
-      // The argument is already evaluated, so we can use it directly
-      // But we need to create a continuation and call the procedure with it
-      SCM *proc = l->next->data;
-      if (!is_proc(proc) && !is_func(proc)) {
-        eval_error("call-with-current-continuation: argument must be a procedure");
-        RETURN_WITH_CONTEXT(nullptr);
-      }
-      // Create continuation and call procedure
-      int first;
-      auto cont = scm_make_continuation(&first);
-      if (!first) {
-        // Continuation was invoked, return the argument
-        RETURN_WITH_CONTEXT(cont);
-      }
-      // Call procedure with continuation
-      SCM_List *cont_list = make_list(cont);
-      SCM_List proc_call;
-      proc_call.data = proc;
-      proc_call.next = cont_list;
-      if (is_proc(proc)) {
-        SCM *result = apply_procedure(env, cast<SCM_Procedure>(proc), cont_list);
-        RETURN_WITH_CONTEXT(result);
-      } else {
-        // For function, evaluate arguments and call
-        SCM_List *evaled_args = eval_list_with_env(env, cont_list);
-        SCM_List func_call;
-        func_call.data = proc;
-        func_call.next = evaled_args;
-        SCM *result = eval_with_func(cast<SCM_Function>(proc), &func_call);
-        RETURN_WITH_CONTEXT(result);
-      }
-    }
     auto func_argl = eval_list_with_env(env, l->next);
     if (debug_enabled) {
       SCM_DEBUG_EVAL(" ");
diff --git a/src/c/eval.h b/src/c/eval.h
index fbe4d08..7ac29ea 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -39,6 +39,14 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);
 SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);
 SCM *eval_with_func(SCM_Function *func, SCM_List *l);
 
+// Procedures of any kind: closures, builtins and continuations
+inline bool is_callable(SCM *scm) {
+  return is_proc(scm) || is_func(scm) || is_cont(scm);
+}
+// Call one with evaluated arguments
+SCM *call_with_values(SCM *proc, SCM_List *args);
+SCM_List *quote_values(SCM_List *args);
+
 // Macro expansion and definition
 SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, SCM *original_call);
 SCM *expand_macros(SCM_Environment *env, SCM *ast);
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 0055263..252b6f8 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -34,7 +34,7 @@ static inline bool is_list_exhausted(SCM_List *list) {
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   check_syntax(l->next, "for-each");
   auto f = eval_with_env(env, l->next->data);
-  if (!is_proc(f) && !is_func(f)) {
+  if (!is_callable(f)) {
     eval_error("for-each: first argument must be a procedure or function");
     return nullptr;
   }
diff --git a/src/c/function.cc b/src/c/function.cc
index 5151adf..6330209 100644
--- a/src/c/function.cc
+++ b/src/c/function.cc
@@ -82,23 +82,6 @@ SCM *eval_with_func(SCM_Function *func, SCM_List *l) {
   }
   if (func->n_args == -2) {
     // Variable argument function (like list)
-    // Special handling for apply, map, and map-in-order: they need access to environment
-    // But we can't access env here, so these should be handled in eval.cc
-    // If they reach here, it's an error
-    if (func->name) {
-      if (strcmp(func->name->data, "apply") == 0) {
-        eval_error("apply: internal error - should be handled as special form");
-        return nullptr;
-      }
-      if (strcmp(func->name->data, "map") == 0) {
-        eval_error("map: internal error - should be handled as special form");
-        return nullptr;
-      }
-      if (strcmp(func->name->data, "map-in-order") == 0) {
-        eval_error("map-in-order: internal error - should be handled as special form");
-        return nullptr;
-      }
-    }
     typedef SCM *(*func_var)(SCM_List *);
     auto f = (func_var)func->func_ptr;
     return f(l->next);
diff --git a/src/c/map.cc b/src/c/map.cc
index 1c0b7cc..ca0c0ab 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -1,24 +1,12 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Wrapper function for map as a builtin function
-// This function is called when map is used as a value (not as a special form)
+// map as a value: called with evaluated arguments
+// map-in-order: like map, which preserves the order already, provided for Guile compatibility
 SCM *scm_c_map(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("map: internal error - should be handled as special form");
-  return nullptr;
-}
-
-// map-in-order: Like map, but guarantees order (in pscm, map already preserves order)
-// This is essentially an alias for map, but provided for Guile compatibility
-// Wrapper function for map-in-order as a builtin function
-// This function is called when map-in-order is used as a value (not as a special form)
-SCM *scm_c_map_in_order(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("map-in-order: internal error - should be handled as special form");
-  return nullptr;
+  SCM_List *call = make_list(scm_nil());
+  call->next = quote_values(args);
+  return eval_map(&g_env, call);
 }
 
 static bool any_list_empty(SCM_List *lists) {
@@ -45,7 +33,7 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
   SCM *proc = eval_with_env(env, l->next->data);
   
   // Check if proc is a procedure
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_callable(proc)) {
     eval_error("map: first argument must be a procedure");
   }
   
@@ -106,15 +94,8 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     if (is_proc(proc)) {
       SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
       result = apply_procedure(env, proc_obj, args_dummy.next);
-    } else if (is_func(proc)) {
-      SCM_Function *func_obj = cast<SCM_Function>(proc);
-      SCM_List *evaled_args = eval_list_with_env(env, args_dummy.next);
-      SCM_List func_call;
-      func_call.data = proc;
-      func_call.next = evaled_args;
-      result = eval_with_func(func_obj, &func_call);
     } else {
-      eval_error("map: first argument must be a procedure");
+      result = call_with_values(proc, eval_list_with_env(env, args_dummy.next));
     }
     
     // Add result to result list
@@ -137,5 +118,5 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
 
 void init_map() {
   scm_define_vararg_function("map", scm_c_map);
-  scm_define_vararg_function("map-in-order", scm_c_map_in_order);
+  scm_define_vararg_function("map-in-order", scm_c_map);
 }
diff --git a/src/c/port.cc b/src/c/port.cc
index 25ea3e1..c61c2f7 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -40,19 +40,7 @@ static SCM *call_soft_port_thunk(SCM *proc) {
     return nullptr;
   }
   
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    return apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, nullptr);
-  } else if (is_func(proc)) {
-    SCM_Function *func = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = nullptr;
-    func_call.is_dotted = false;
-    return eval_with_func(func, &func_call);
-  }
-  
-  return nullptr;
+  return is_callable(proc) ? call_with_values(proc, nullptr) : nullptr;
 }
 
 // Helper function to pass an object to the output procedure of a soft port at the given index
@@ -64,20 +52,8 @@ static void call_soft_port_output(SCM_Port *port, size_t index, SCM *obj) {
   if (!output_proc || is_falsy(output_proc)) {
     return;
   }
-  SCM_List proc_args;
-  proc_args.data = obj;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  if (is_proc(output_proc)) {
-    SCM_Procedure *proc = cast<SCM_Procedure>(output_proc);
-    apply_procedure(g_env.parent ? g_env.parent : &g_env, proc, &proc_args);
-  } else if (is_func(output_proc)) {
-    SCM_Function *func = cast<SCM_Function>(output_proc);
-    SCM_List func_call;
-    func_call.data = output_proc;
-    func_call.next = &proc_args;
-    func_call.is_dotted = false;
-    eval_with_func(func, &func_call);
+  if (is_callable(output_proc)) {
+    call_with_values(output_proc, make_list(obj));
   }
 }
 
@@ -914,7 +890,7 @@ SCM *scm_c_call_with_input_file(SCM_List *args) {
     return nullptr;
   }
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_callable(proc)) {
     eval_error("call-with-input-file: second argument must be a procedure");
     return nullptr;
   }
@@ -926,22 +902,7 @@ SCM *scm_c_call_with_input_file(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  SCM *result = call_with_values(proc, make_list(port));
   
   // Close the port
   scm_c_close_input_port(port);
@@ -964,7 +925,7 @@ SCM *scm_c_call_with_output_file(SCM_List *args) {
     return nullptr;
   }
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_callable(proc)) {
     eval_error("call-with-output-file: second argument must be a procedure");
     return nullptr;
   }
@@ -976,22 +937,7 @@ SCM *scm_c_call_with_output_file(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  SCM *result = call_with_values(proc, make_list(port));
   
   // Close the port
   scm_c_close_output_port(port);
@@ -1014,7 +960,7 @@ SCM *scm_c_call_with_input_string(SCM_List *args) {
     return nullptr;
   }
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_callable(proc)) {
     eval_error("call-with-input-string: second argument must be a procedure");
     return nullptr;
   }
@@ -1026,22 +972,7 @@ SCM *scm_c_call_with_input_string(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  SCM *result = call_with_values(proc, make_list(port));
   
   // Port is automatically cleaned up (no explicit close needed for string ports)
   
@@ -1057,7 +988,7 @@ SCM *scm_c_call_with_output_string(SCM_List *args) {
   
   SCM *proc = args->data;
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_callable(proc)) {
     eval_error("call-with-output-string: argument must be a procedure");
     return nullptr;
   }
@@ -1069,22 +1000,7 @@ SCM *scm_c_call_with_output_string(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  call_with_values(proc, make_list(port));
   
   // Get the output string
   SCM *output_str = scm_c_get_output_string(port);
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 6a310e0..cc964bb 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -312,10 +312,6 @@ SCM *scm_internal_lazy_catch(SCM *tag,
   return scm_c_with_throw_handler(tag, body, body_data, handler, handler_data, 1);
 }
 
-static bool is_callable(SCM *scm) {
-  return is_proc(scm) || is_func(scm) || is_cont(scm);
-}
-
 // Body function for Scheme catch (thunk)
 static SCM *scm_body_thunk(void *body_data) {
   return eval_with_env(&g_env, scm_list1((SCM *)body_data));
diff --git a/src/c/values.cc b/src/c/values.cc
index a7e255a..679140f 100644
--- a/src/c/values.cc
+++ b/src/c/values.cc
@@ -32,24 +32,13 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
   
   // Evaluate producer
   SCM *producer = eval_with_env(env, l->next->data);
-  if (!is_proc(producer) && !is_func(producer)) {
+  if (!is_callable(producer)) {
     eval_error("call-with-values: first argument must be a procedure");
     return nullptr;
   }
   
   // Call producer to get values
-  SCM *values_result;
-  if (is_proc(producer)) {
-    SCM_Procedure *proc = cast<SCM_Procedure>(producer);
-    values_result = apply_procedure(env, proc, nullptr);
-  } else {
-    // Function - need to call it
-    SCM_Function *func = cast<SCM_Function>(producer);
-    SCM_List func_call;
-    func_call.data = producer;
-    func_call.next = nullptr;
-    values_result = eval_with_func(func, &func_call);
-  }
+  SCM *values_result = call_with_values(producer, nullptr);
   
   // values_result should be a list of values
   // If it's not a pair, wrap it in a list
@@ -65,24 +54,13 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
   
   // Get consumer
   SCM *consumer = eval_with_env(env, l->next->next->data);
-  if (!is_proc(consumer) && !is_func(consumer)) {
+  if (!is_callable(consumer)) {
     eval_error("call-with-values: second argument must be a procedure");
     return nullptr;
   }
   
   // Apply consumer to the values
-  // Build argument list from values_list
-  if (is_proc(consumer)) {
-    SCM_Procedure *proc = cast<SCM_Procedure>(consumer);
-    return apply_procedure_with_values(env, proc, values_list);
-  } else {
-    // Function - need to call it with the values
-    SCM_Function *func = cast<SCM_Function>(consumer);
-    SCM_List func_call;
-    func_call.data = consumer;
-    func_call.next = values_list;
-    return eval_with_func(func, &func_call);
-  }
+  return call_with_values(consumer, values_list);
 }
 
 void init_values() {
-- 
2.43.0


From 57678e8ff597d92ab93e7689314dd64379a25bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 60/82] fix: apply passes a continuation its arguments as a
 call does

---
 src/c/apply.cc | 68 +-------------------------------------------------
 1 file changed, 1 insertion(+), 67 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 6e25255..620b0a0 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -113,76 +113,10 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
   
   // When args are evaluated, proc might already be a procedure or continuation
   // But we still need to check
-  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
+  if (!is_callable(proc)) {
     eval_error("apply: first argument must be a procedure");
   }
   
-  // Special handling for continuation: it accepts a single argument (a list)
-  if (is_cont(proc)) {
-    if (!l->next->next) {
-      eval_error("apply: requires at least 2 arguments (procedure and arguments list)");
-    }
-    // For continuation, if there's only one argument after proc, use it directly
-    // Otherwise, collect all arguments (before the last one) and the last list
-    if (!l->next->next->next) {
-      // Only one argument: (apply cont things) -> use things directly
-      SCM *arg = eval_with_env(env, l->next->next->data);
-      if (!is_pair(arg) && !is_nil(arg)) {
-        eval_error("apply: last argument must be a list");
-      }
-      scm_dynthrow(proc, arg);
-      return nullptr;
-    }
-    
-    // Multiple arguments: collect them
-    SCM_List *args_before_last = l->next->next;
-    SCM_List *last_arg_node = nullptr;
-    
-    // Find the last argument (which should be a list)
-    SCM_List *current = args_before_last;
-    while (current->next) {
-      current = current->next;
-    }
-    last_arg_node = current;
-    
-    // Evaluate the last argument (should be a list)
-    SCM *last_arg = eval_with_env(env, last_arg_node->data);
-    if (!is_pair(last_arg) && !is_nil(last_arg)) {
-      eval_error("apply: last argument must be a list");
-    }
-    
-    // Build combined list: args_before_last elements + last_arg elements
-    SCM_List args_dummy = make_list_dummy();
-    SCM_List *args_tail = &args_dummy;
-    
-    // Add all arguments before the last one
-    current = args_before_last;
-    while (current != last_arg_node) {
-      SCM *arg_val = eval_with_env(env, current->data);
-      SCM_List *node = make_list(arg_val);
-      args_tail->next = node;
-      args_tail = node;
-      current = current->next;
-    }
-    
-    // Append all elements from the last argument list
-    if (is_pair(last_arg)) {
-      SCM_List *last_list = cast<SCM_List>(last_arg);
-      while (last_list) {
-        SCM *elem = last_list->data;
-        SCM_List *node = make_list(elem);
-        args_tail->next = node;
-        args_tail = node;
-        last_list = last_list->next;
-      }
-    }
-    
-    // Pass the combined list to continuation
-    SCM *combined_list = args_dummy.next ? wrap(args_dummy.next) : scm_nil();
-    scm_dynthrow(proc, combined_list);
-    return nullptr;  // Never reached, but satisfies compiler
-  }
-  
   // Collect all arguments before the last one
   SCM_List *args_before_last = l->next->next;
   if (!args_before_last) {
-- 
2.43.0


From 7d3f1627187902c589e7049e1b43cd907f40ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 61/82] fix: without gc_set_stack_top the collector finds the
 base of the C stack itself

---
 src/c/gc.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 21048ba..a8229cf 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -1,6 +1,7 @@
 #include "pscm.h"
 #include "gc.h"
 
+#include <pthread.h>
 #include <sys/mman.h>
 #include <unistd.h>
 
@@ -292,6 +293,27 @@ void *gc_alloc(TypeTag tag, size_t size) {
 // Root registration
 // =========================================================================
 
+// The base of the C stack, for a host that has not set it
+static char *c_stack_base() {
+#if defined(__linux__)
+  static thread_local char *base = nullptr;
+  pthread_attr_t attr;
+  if (!base && pthread_getattr_np(pthread_self(), &attr) == 0) {
+    void *addr;
+    size_t size;
+    if (pthread_attr_getstack(&attr, &addr, &size) == 0) {
+      base = (char *)addr + size;
+    }
+    pthread_attr_destroy(&attr);
+  }
+  return base;
+#elif defined(__APPLE__)
+  return (char *)pthread_get_stackaddr_np(pthread_self());
+#else
+  return nullptr;
+#endif
+}
+
 void gc_set_stack_top(void *marker) {
   g_gc_stack_top = (char *)marker;
 }
@@ -377,7 +399,7 @@ static void scan_conservative_roots(MarkStack *stack) {
   //    below cont_base.
   char  stack_top; // address of a local variable = near the stack pointer
   char *scan_start = &stack_top;
-  char *scan_end   = g_gc_stack_top;
+  char *scan_end   = g_gc_stack_top ? g_gc_stack_top : c_stack_base();
 
   if (!scan_end) return; // no stack marker yet -- nothing to scan
 
-- 
2.43.0


From 6590d5d44e12d693e02a2a2e5713bc883c326714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 62/82] fix: continuations work in evaluations started at
 different depths of the host's C stack

---
 src/c/apply.cc        | 10 ++++++++++
 src/c/continuation.cc | 12 ++++++++++++
 src/c/eval.cc         |  6 ++----
 src/c/eval.h          |  3 +++
 src/c/pscm_api.cc     |  4 ----
 src/c/throw.cc        | 16 ++++++++++++----
 6 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 620b0a0..8a21f4f 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -47,18 +47,24 @@ static void check_callable(SCM *proc, const char *who) {
 
 // scm_call_0: Call procedure with 0 arguments
 SCM *scm_call_0(SCM *proc) {
+  long stack_base;
+  set_continuation_base(&stack_base, false);
   check_callable(proc, "scm_call_0");
   return call_with_values(proc, nullptr);
 }
 
 // scm_call_1: Call procedure with 1 argument
 SCM *scm_call_1(SCM *proc, SCM *arg1) {
+  long stack_base;
+  set_continuation_base(&stack_base, false);
   check_callable(proc, "scm_call_1");
   return call_with_values(proc, make_list(arg1));
 }
 
 // scm_call_2: Call procedure with 2 arguments
 SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
+  long stack_base;
+  set_continuation_base(&stack_base, false);
   check_callable(proc, "scm_call_2");
   SCM_List *args = make_list(arg1);
   args->next = make_list(arg2);
@@ -67,6 +73,8 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
 
 // scm_call_3: Call procedure with 3 arguments
 SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
+  long stack_base;
+  set_continuation_base(&stack_base, false);
   check_callable(proc, "scm_call_3");
   SCM_List *args = make_list(arg1);
   args->next = make_list(arg2);
@@ -76,6 +84,8 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
 
 // scm_apply_0: Apply procedure with arguments in a list
 SCM *scm_apply_0(SCM *proc, SCM *args) {
+  long stack_base;
+  set_continuation_base(&stack_base, false);
   check_callable(proc, "scm_apply_0");
   // args can be nil (empty list) or a pair (list)
   if (!is_pair(args) && !is_nil(args)) {
diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index b5237be..ee9d358 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -6,6 +6,15 @@
 #include <string.h>
 
 
+// The base of the continuations captured in the evaluations the host has started, unless it sets one itself
+static long *g_entry_base = nullptr;
+
+void set_continuation_base(long *here, bool outermost) {
+  if (!cont_base || (cont_base == g_entry_base && (outermost || here > cont_base))) {
+    cont_base = g_entry_base = here;
+  }
+}
+
 long scm_stack_size(long *start) {
   long stack;
   SCM_DEBUG_CONT("stack_top: %p\n", &stack);
@@ -112,6 +121,9 @@ void copy_stack_and_call(SCM_Continuation *cont, SCM *args, long *dst) {
 
 void scm_dynthrow(SCM *cont, SCM *args) {
   auto continuation = cast<SCM_Continuation>(cont);
+  if (continuation->stack_src + continuation->stack_len != cont_base) {
+    eval_error("continuation captured in an evaluation started elsewhere on the C stack");
+  }
 
   // Handle wind chain: unwind current to common prefix, then rewind to continuation's wind chain
   SCM_List *common = unwind_wind_chain(continuation->wind_chain);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index fb40797..2eb26e8 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -51,10 +51,8 @@ SCM *scm_c_eval_string(const char *expr) {
   }
   
   // Evaluate all expressions, return the last result
-  if (!cont_base) {
-    long stack_base;
-    cont_base = &stack_base;
-  }
+  long stack_base;
+  set_continuation_base(&stack_base, false);
   SCM *last_result = nullptr;
   SCM_List *current = exprs;
   while (current) {
diff --git a/src/c/eval.h b/src/c/eval.h
index 7ac29ea..6510371 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -39,6 +39,9 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);
 SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);
 SCM *eval_with_func(SCM_Function *func, SCM_List *l);
 
+// The host calls the interpreter from the C stack frame of HERE; OUTERMOST if no other such call is active
+void set_continuation_base(long *here, bool outermost);
+
 // Procedures of any kind: closures, builtins and continuations
 inline bool is_callable(SCM *scm) {
   return is_proc(scm) || is_func(scm) || is_cont(scm);
diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index 950f985..e64c479 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -30,10 +30,6 @@ SCM *pscm_eval(SCM *ast) {
   if (!ast) {
     return nullptr;
   }
-  if (!cont_base) {
-    long stack_base;
-    cont_base = &stack_base;
-  }
   return scm_c_catch(
       scm_bool_true(),
       [](void *data) -> SCM * {
diff --git a/src/c/throw.cc b/src/c/throw.cc
index cc964bb..23bf904 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -74,10 +74,9 @@ static bool tags_match(SCM *tag, SCM *key) {
   return tag == key;
 }
 
-// Core catch function
-SCM *scm_c_catch(SCM *tag,
-                 scm_t_catch_body body, void *body_data,
-                 scm_t_catch_handler handler, void *handler_data) {
+static SCM *call_with_catch(SCM *tag,
+                            scm_t_catch_body body, void *body_data,
+                            scm_t_catch_handler handler, void *handler_data) {
   struct jmp_buf_and_retval jbr;
   jbr.throw_tag = nullptr;
   jbr.throw_args = nullptr;
@@ -116,6 +115,15 @@ SCM *scm_c_catch(SCM *tag,
   }
 }
 
+// Core catch function
+SCM *scm_c_catch(SCM *tag,
+                 scm_t_catch_body body, void *body_data,
+                 scm_t_catch_handler handler, void *handler_data) {
+  long here;
+  set_continuation_base(&here, !g_catch_top);
+  return call_with_catch(tag, body, body_data, handler, handler_data);
+}
+
 // Throw exception
 SCM *scm_throw(SCM *key, SCM *args) {
   // Search from the innermost catch or throw handler
-- 
2.43.0


From be67b8f46b9b718230ee6ad5f206eea310220de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 63/82] fix: a syntax error in a file read through the API is
 returned to the host

---
 src/c/pscm_api.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index e64c479..ef61733 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -102,7 +102,21 @@ SCM_List *pscm_parse_file(const char *filename) {
   if (!filename) {
     return nullptr;
   }
-  return parse_file(filename);
+  struct parse_file_data {
+    const char *filename;
+    SCM_List *exprs;
+  } data = { filename, nullptr };
+  scm_c_catch(
+      scm_bool_true(),
+      [](void *data) -> SCM * {
+        auto d = (parse_file_data *)data;
+        d->exprs = parse_file(d->filename);
+        return nullptr;
+      },
+      (void *)&data,
+      scm_api_catch_handler,
+      nullptr);
+  return data.exprs;
 }
 
 // Get the global environment
-- 
2.43.0


From 07b306a7cd3b44b0f520001e5b3e2e2a5941db27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 64/82] fix: an error in a tail expression is reported at that
 expression

---
 src/c/eval.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 2eb26e8..d4f2e09 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -280,6 +280,11 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   } while (0)
 
 entry:
+  // What is being evaluated now, also after a jump to a tail expression; an expansion without a location
+  // of its own is reported at the expression it came from.
+  if (ast->source_loc) {
+    g_current_eval_context = ast;
+  }
   SCM_DEBUG_EVAL("eval ");
   if (debug_enabled) {
     print_ast(ast);
-- 
2.43.0


From 0d7039746b09a4f73e5dc18653116c7fb1bfbb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 65/82] fix: loading a directory or another file without a size
 is no crash

---
 src/c/parse.cc | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index b9b0329..91a287b 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1406,17 +1406,30 @@ static char *read_file_content(const char *filename) {
     return nullptr;
   }
   
-  // Get file size
-  fseek(f, 0, SEEK_END);
-  long size = ftell(f);
-  fseek(f, 0, SEEK_SET);
-  
-  // Allocate buffer
-  char *buffer = new char[size + 1];
-  size_t read = fread(buffer, 1, size, f);
-  buffer[read] = '\0';
+  // Read to the end: what is not a regular file has no size to ask for, and a directory cannot be read
+  size_t size = 0;
+  size_t capacity = 4096;
+  char *buffer = new char[capacity];
+  size_t n;
+  while ((n = fread(buffer + size, 1, capacity - size - 1, f)) > 0) {
+    size += n;
+    if (size + 1 == capacity) {
+      char *larger = new char[capacity * 2];
+      memcpy(larger, buffer, size);
+      delete[] buffer;
+      buffer = larger;
+      capacity *= 2;
+    }
+  }
+  bool failed = ferror(f);
   fclose(f);
-  
+  if (failed) {
+    fprintf(stderr, "ERROR: cannot read file: %s\n", filename);
+    delete[] buffer;
+    return nullptr;
+  }
+  buffer[size] = '\0';
+
   return buffer;
 }
 
-- 
2.43.0


From 83ecbba517c19807a57348c62914e963381b0af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:43 +0000
Subject: [PATCH 66/82] fix: a program file without expressions is an empty
 program, not a failure

---
 src/c/load.cc     |  8 ++++----
 src/c/parse.cc    | 18 ++++++++++++++----
 src/c/pscm.h      |  1 +
 src/c/pscm_api.cc | 23 +++++++++++++++++------
 src/c/pscm_api.h  |  1 +
 src/main.cc       |  4 ++--
 6 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/c/load.cc b/src/c/load.cc
index 8264323..f9abc58 100644
--- a/src/c/load.cc
+++ b/src/c/load.cc
@@ -25,8 +25,8 @@ SCM *scm_c_primitive_load(const char *filename) {
   fprintf(stderr, "[load] Loading file: %s\n", filename);
   
   // Use existing parse_file helper to get list of expressions
-  SCM_List *expr_list = parse_file(filename);
-  if (!expr_list) {
+  SCM_List *expr_list;
+  if (!parse_file(filename, &expr_list)) {
     eval_error("primitive-load: failed to load file: %s", filename);
   }
 
@@ -41,8 +41,8 @@ SCM *scm_c_primitive_load(const char *filename) {
 SCM *scm_c_primitive_load_with_env(const char *filename, SCM_Environment *env) {
   fprintf(stderr, "[load] Loading file: %s\n", filename);
 
-  SCM_List *expr_list = parse_file(filename);
-  if (!expr_list) {
+  SCM_List *expr_list;
+  if (!parse_file(filename, &expr_list)) {
     eval_error("primitive-load: failed to load file: %s", filename);
     return nullptr;
   }
diff --git a/src/c/parse.cc b/src/c/parse.cc
index 91a287b..c266dee 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1433,11 +1433,13 @@ static char *read_file_content(const char *filename) {
   return buffer;
 }
 
-// Parse file and return list of expressions
-SCM_List *parse_file(const char *filename) {
+// Parse file into a list of expressions, which is empty (nullptr) for a file without any.
+// Returns false if the file cannot be read.
+bool parse_file(const char *filename, SCM_List **exprs) {
+  *exprs = nullptr;
   char *content = read_file_content(filename);
   if (!content) {
-    return nullptr;
+    return false;
   }
   
   Parser p;
@@ -1488,7 +1490,15 @@ SCM_List *parse_file(const char *filename) {
   }
   
   delete[] content;
-  return dummy.next;
+  *exprs = dummy.next;
+  return true;
+}
+
+// Parse file and return list of expressions
+SCM_List *parse_file(const char *filename) {
+  SCM_List *exprs;
+  parse_file(filename, &exprs);
+  return exprs;
 }
 
 // Parse string and return list of expressions (similar to parse_file but for strings)
diff --git a/src/c/pscm.h b/src/c/pscm.h
index be5bccb..dda0521 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -728,6 +728,7 @@ SCM *scm_c_display(SCM_List *args);
  */
 SCM *parse(const char *s);
 SCM_List *parse_file(const char *filename);
+bool parse_file(const char *filename, SCM_List **exprs);
 SCM_List *parse_string(const char *str);  // Parse string and return list of expressions
 
 /*
diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index ef61733..2879861 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -97,26 +97,37 @@ SCM *pscm_parse(const char *code) {
       nullptr);
 }
 
-// Parse a file into a list of AST nodes
-SCM_List *pscm_parse_file(const char *filename) {
+// Parse a file into a list of AST nodes, which is empty for a file without expressions.
+// Returns false if the file cannot be read or parsed.
+bool pscm_read_file(const char *filename, SCM_List **exprs) {
+  *exprs = nullptr;
   if (!filename) {
-    return nullptr;
+    return false;
   }
   struct parse_file_data {
     const char *filename;
     SCM_List *exprs;
-  } data = { filename, nullptr };
+    bool done;
+  } data = { filename, nullptr, false };
   scm_c_catch(
       scm_bool_true(),
       [](void *data) -> SCM * {
         auto d = (parse_file_data *)data;
-        d->exprs = parse_file(d->filename);
+        d->done = parse_file(d->filename, &d->exprs);
         return nullptr;
       },
       (void *)&data,
       scm_api_catch_handler,
       nullptr);
-  return data.exprs;
+  *exprs = data.exprs;
+  return data.done;
+}
+
+// Parse a file into a list of AST nodes
+SCM_List *pscm_parse_file(const char *filename) {
+  SCM_List *exprs;
+  pscm_read_file(filename, &exprs);
+  return exprs;
 }
 
 // Get the global environment
diff --git a/src/c/pscm_api.h b/src/c/pscm_api.h
index 35367d0..93db5c6 100644
--- a/src/c/pscm_api.h
+++ b/src/c/pscm_api.h
@@ -19,6 +19,7 @@ SCM *pscm_eval_file(const char *filename);
 // Parsing functions
 SCM *pscm_parse(const char *code);
 SCM_List *pscm_parse_file(const char *filename);
+bool pscm_read_file(const char *filename, SCM_List **exprs); // tells an empty file from an unreadable one
 
 // Environment access
 SCM_Environment *pscm_get_global_env(void);
diff --git a/src/main.cc b/src/main.cc
index 44664e0..bfa2fc1 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -43,8 +43,8 @@ int do_eval(const char *filename) {
   long stack_marker;
   gc_set_stack_top(&stack_marker);
   pscm_init();
-  auto l = pscm_parse_file(filename);
-  if (!l) {
+  SCM_List *l;
+  if (!pscm_read_file(filename, &l)) {
     fprintf(stderr, "ERROR: failed to parse file: %s\n", filename);
     return 1;
   }
-- 
2.43.0


From df4149913431cfa8f6a3af7c718f279ebcb227bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:39 +0000
Subject: [PATCH 67/82] fix: columns after character literals, keywords and
 #{}# symbols

---
 src/c/parse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index c266dee..dad58cf 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -453,7 +453,7 @@ static SCM *parse_char(Parser *p) {
   int start_line = p->line;
   int start_column = p->column;
   
-  p->pos += 2;  // Skip #\
+  p->pos += 2;  // Skip the two characters of the prefix
   p->column += 2;
   
   if (*p->pos == '\0') {
@@ -1236,6 +1236,7 @@ static SCM *parse_expr(Parser *p) {
   // #:keyword syntax (Guile style keywords like #:use-module, #:export, etc.)
   if (p->pos[0] == '#' && p->pos[1] == ':') {
     p->pos += 2; // skip #:
+    p->column += 2;
     // Read the keyword name as a symbol
     SCM *result = parse_symbol(p);
     if (!result) {
@@ -1257,7 +1258,7 @@ static SCM *parse_expr(Parser *p) {
       if (*p->pos == '{') brace_depth++;
       else if (*p->pos == '}') brace_depth--;
       if (brace_depth > 0) {
-        if (*p->pos == '\n') { p->line++; p->column = 0; }
+        if (*p->pos == '\n') { p->line++; p->column = 1; }
         else p->column++;
         p->pos++;
       }
-- 
2.43.0


From 75947d0cee02ee231939b9e3d1da33d1825a36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:54 +0000
Subject: [PATCH 68/82] fix: the prompt accepts any layout, several expressions
 a line and long lines, and survives malformed input

---
 src/c/repl.cc | 158 ++++++++++++++++++++++++++++----------------------
 1 file changed, 88 insertions(+), 70 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 50ea3cd..17554f6 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -3,62 +3,98 @@
 #include <string.h>
 
 #include "pscm.h"
+#include "pscm_api.h"
+#include "throw.h"
 
-// Check if parentheses are balanced in the input string
-static bool is_balanced(const char *s) {
+// Check if the input holds complete expressions only: no open list, no open string, no quote still
+// waiting for its datum. What is beyond repair, like a closing parenthesis too many, is complete as well.
+static bool is_complete(const char *s) {
   int depth = 0;
-  bool in_string = false;
-  bool escaped = false;
-  bool in_comment = false;
-  
+  bool pending_quote = false;
+
   for (const char *p = s; *p; p++) {
-    if (escaped) {
-      escaped = false;
+    if (strchr(" \t\n\r\f\v", *p)) {
       continue;
     }
-    
-    if (*p == '\\') {
-      escaped = true;
+    if (*p == ';') {
+      while (p[1] && p[1] != '\n') {
+        p++;
+      }
       continue;
     }
-    
-    if (in_comment) {
-      if (*p == '\n') {
-        in_comment = false;
+    if (strchr("'`,", *p)) {
+      pending_quote = true;
+      if (*p == ',' && p[1] == '@') {
+        p++;
       }
       continue;
     }
-    
+    pending_quote = false;
+
     if (*p == '"') {
-      in_string = !in_string;
-      continue;
-    }
-    
-    if (in_string) {
-      continue;
+      for (p++; *p != '"'; p++) {
+        if (*p == '\\' && p[1]) {
+          p++;
+        }
+        else if (!*p) {
+          return false;
+        }
+      }
     }
-    
-    if (*p == ';') {
-      in_comment = true;
-      continue;
+    else if (*p == '#' && p[1] == '\\' && p[2]) {
+      p += 2;
     }
-    
-    if (*p == '(') {
+    else if (*p == '(') {
       depth++;
-    } else if (*p == ')') {
+    }
+    else if (*p == ')') {
       depth--;
       if (depth < 0) {
-        return false;  // Unmatched closing parenthesis
+        return true; // Unmatched closing parenthesis
       }
     }
   }
-  
-  return depth == 0;
+
+  return depth == 0 && !pending_quote;
+}
+
+struct repl_input {
+  const char *text;
+  SCM_List *exprs;
+  bool done;
+};
+
+static SCM *repl_parse(void *data) {
+  repl_input *input = (repl_input *)data;
+  input->exprs = parse_string(input->text);
+  input->done = true;
+  return nullptr;
+}
+
+static SCM *repl_parse_failed(void *, SCM *, SCM *) {
+  return nullptr; // the parser has reported the error
 }
 
+// Evaluate every expression of the input
+static void repl_eval(const char *text) {
+  repl_input input = { text, nullptr, false };
+  scm_c_catch(scm_bool_true(), repl_parse, &input, repl_parse_failed, nullptr);
+  for (SCM_List *l = input.exprs; input.done && l; l = l->next) {
+    print_ast(l->data);
+    printf("\n");
+    auto val = eval(l->data);
+    if (!val) {
+      const char *message = pscm_get_last_error_message();
+      fprintf(stderr, "%s\n", message ? message : "error");
+    }
+    printf(" --> ");
+    print_ast(val);
+    printf("\n");
+  }
+}
 
 void repl() {
-  char line_buffer[4096];  // Buffer for each line
+  char line_buffer[4096];  // Buffer for each piece of a line
   size_t total_size = 4096;
   char *input_buffer = (char *)malloc(total_size);
   if (!input_buffer) {
@@ -66,29 +102,23 @@ void repl() {
     return;
   }
   input_buffer[0] = '\0';
+  size_t current_len = 0;
+  bool line_start = true;
   
   while (true) {
     // Show prompt: "pscm> " for first line, "  ...> " for continuation
-    if (input_buffer[0] == '\0') {
-      printf("pscm> ");
-    } else {
-      printf("  ...> ");
+    if (line_start) {
+      if (input_buffer[0] == '\0') {
+        printf("pscm> ");
+      } else {
+        printf("  ...> ");
+      }
     }
     
     if (fgets(line_buffer, sizeof(line_buffer), stdin) != NULL) {
-      // Check if input line is too long
       size_t line_len = strlen(line_buffer);
-      if (line_len > 0 && line_buffer[line_len - 1] != '\n') {
-        // Input was truncated, clear remaining input
-        int c;
-        while ((c = getchar()) != '\n' && c != EOF) {
-          // Discard remaining characters
-        }
-        printf("Warning: input line too long, truncated\n");
-      }
       
-      // Append line to input buffer
-      size_t current_len = strlen(input_buffer);
+      // Append to input buffer
       size_t needed_size = current_len + line_len + 1;
       
       if (needed_size > total_size) {
@@ -103,36 +133,25 @@ void repl() {
         input_buffer = new_buffer;
       }
       
-      strcat(input_buffer, line_buffer);
+      memcpy(input_buffer + current_len, line_buffer, line_len + 1);
+      current_len += line_len;
       
-      // Check if parentheses are balanced
-      if (is_balanced(input_buffer)) {
-        // Skip whitespace to check if input is empty
-        const char *p = input_buffer;
-        while (*p && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) {
-          p++;
-        }
-        
-        // Only parse if there's actual content
-        if (*p != '\0') {
-          // Expression is complete, parse and evaluate
-          auto ast = parse(input_buffer);
-          print_ast(ast);
-          printf("\n");
-          auto val = eval(ast);
-          printf(" --> ");
-          print_ast(val);
-          printf("\n");
-        }
+      // The rest of a line longer than the buffer follows
+      line_start = line_len > 0 && line_buffer[line_len - 1] == '\n';
+      
+      if (line_start && is_complete(input_buffer)) {
+        repl_eval(input_buffer);
         
         // Reset buffer for next expression
         input_buffer[0] = '\0';
+        current_len = 0;
       }
-      // Otherwise, continue reading more lines
+      // Otherwise, continue reading
     }
     else {
       // EOF or error
       if (feof(stdin)) {
+        repl_eval(input_buffer);
         printf("\n");
         free(input_buffer);
         return;  // Normal exit
@@ -143,4 +162,3 @@ void repl() {
     }
   }
 }
-
-- 
2.43.0


From 6b4613edf496247e2145054c20505bef2bea7a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 69/82] fix: case-insensitive string orderings order characters
 above 127 like the others

---
 src/c/string.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index ddefe5a..7686103 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -870,8 +870,8 @@ SCM *scm_c_string_ci_eq(SCM *str1, SCM *str2) {
   }
   
   for (int i = 0; i < s1->len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    int c1 = toupper((unsigned char)s1->data[i]);
+    int c2 = toupper((unsigned char)s2->data[i]);
     if (c1 != c2) {
       return scm_bool_false();
     }
@@ -894,8 +894,8 @@ SCM *scm_c_string_ci_lt(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    int c1 = toupper((unsigned char)s1->data[i]);
+    int c2 = toupper((unsigned char)s2->data[i]);
     if (c1 < c2) {
       return scm_bool_true();
     }
@@ -922,8 +922,8 @@ SCM *scm_c_string_ci_gt(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    int c1 = toupper((unsigned char)s1->data[i]);
+    int c2 = toupper((unsigned char)s2->data[i]);
     if (c1 > c2) {
       return scm_bool_true();
     }
@@ -950,8 +950,8 @@ SCM *scm_c_string_ci_le(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    int c1 = toupper((unsigned char)s1->data[i]);
+    int c2 = toupper((unsigned char)s2->data[i]);
     if (c1 < c2) {
       return scm_bool_true();
     }
@@ -978,8 +978,8 @@ SCM *scm_c_string_ci_ge(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    int c1 = toupper((unsigned char)s1->data[i]);
+    int c2 = toupper((unsigned char)s2->data[i]);
     if (c1 > c2) {
       return scm_bool_true();
     }
-- 
2.43.0


From c0bdf3196397db43cd4f3144110bda7f77e2b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:31 +0000
Subject: [PATCH 70/82] fix: display writes strings with NUL characters in full

---
 src/c/print.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index 24daae2..e8d8785 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -160,7 +160,7 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
       printf("\"");
     } else {
       // Display format: without quotes
-      printf("%s", str->data);
+      fwrite(str->data, 1, str->len, stdout);
     }
     return;
   }
-- 
2.43.0


From a137332b1098dc981adc347de83ce64eeea79649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:50 +0000
Subject: [PATCH 71/82] fix: strings and symbols are compared and written over
 their whole length, NUL characters included

---
 src/c/eq.cc     |  2 +-
 src/c/print.cc  |  5 ++---
 src/c/string.cc | 10 +++++-----
 src/c/throw.cc  |  2 +-
 4 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index 6794baf..833eae3 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -16,7 +16,7 @@ bool _sym_eq(SCM *lhs, SCM *rhs) {
   if (is_sym(lhs) && is_sym(rhs)) {
     auto sym1 = cast<SCM_Symbol>(lhs);
     auto sym2 = cast<SCM_Symbol>(rhs);
-    return strcmp(sym1->data, sym2->data) == 0;
+    return sym1->len == sym2->len && memcmp(sym1->data, sym2->data, sym1->len) == 0;
   }
   
   // Handle strings
diff --git a/src/c/print.cc b/src/c/print.cc
index e8d8785..95024d6 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -128,10 +128,9 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
     auto sym = cast<SCM_Symbol>(ast);
     // Keywords (symbols starting with ':') should be printed as #:keyword-name
     if (sym->data && sym->data[0] == ':') {
-      printf("#%s", sym->data);
-    } else {
-      printf("%s", sym->data);
+      printf("#");
     }
+    fwrite(sym->data, 1, sym->len, stdout);
     return;
   }
   if (is_str(ast)) {
diff --git a/src/c/string.cc b/src/c/string.cc
index 7686103..cc1e721 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -267,7 +267,7 @@ SCM *scm_c_string_eq(SCM *str1, SCM *str2) {
     return scm_bool_false();
   }
   
-  if (strncmp(s1->data, s2->data, s1->len) == 0) {
+  if (memcmp(s1->data, s2->data, s1->len) == 0) {
     return scm_bool_true();
   }
   return scm_bool_false();
@@ -768,7 +768,7 @@ SCM *scm_c_string_lt(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp < 0) {
     return scm_bool_true();
   }
@@ -792,7 +792,7 @@ SCM *scm_c_string_gt(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp > 0) {
     return scm_bool_true();
   }
@@ -816,7 +816,7 @@ SCM *scm_c_string_le(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp < 0) {
     return scm_bool_true();
   }
@@ -840,7 +840,7 @@ SCM *scm_c_string_ge(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp > 0) {
     return scm_bool_true();
   }
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 23bf904..3487228 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -67,7 +67,7 @@ static bool tags_match(SCM *tag, SCM *key) {
   if (is_sym(tag) && is_sym(key)) {
     SCM_Symbol *tag_sym = cast<SCM_Symbol>(tag);
     SCM_Symbol *key_sym = cast<SCM_Symbol>(key);
-    return strcmp(tag_sym->data, key_sym->data) == 0;
+    return tag_sym->len == key_sym->len && memcmp(tag_sym->data, key_sym->data, tag_sym->len) == 0;
   }
   
   // Otherwise, use pointer equality
-- 
2.43.0


From 7dae1c1fdad3f4832b2bc98e054192a89e0c013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 72/82] fix: each re-entry of an operand makes the call with
 variables of its own

---
 src/c/procedure.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index b6a8485..b71a64c 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -97,14 +97,14 @@ SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_
 
 // Helper function to apply procedure with arguments
 SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
-  auto proc_env = make_env(proc->env);
   auto args_l = proc->args;
   // Save original args for error reporting - create a copy of the list structure
   // (we only need the structure, not the values, for error reporting)
   SCM_List *original_args = args; // Save original args pointer for error reporting
-  // Evaluate the operands before anything is bound, so that a continuation captured in one of them
-  // starts a call of its own when it is re-entered
+  // Evaluate the operands before the environment of the call is made, so that a continuation captured in
+  // one of them starts a call of its own, with variables of its own, when it is re-entered
   SCM_List *args_iter = eval_list_with_env(env, args);
+  auto proc_env = make_env(proc->env);
   
   // Check if the last parameter is a rest parameter (dotted pair: (a b . c))
   // For (a b), the structure is: (a . (b . nil))
-- 
2.43.0


From 7ba7f5e272a128387397d8350035cde292ffd347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:03 +0000
Subject: [PATCH 73/82] fix: a module binder that is left by an error or a
 continuation is asked again later

---
 src/c/module.cc | 55 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 9d285ad..3fb8070 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -162,6 +162,47 @@ SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym) {
   return nullptr;  // Not found
 }
 
+// Call BEFORE and AFTER, procedures without arguments, whenever control enters or leaves, by an error or a
+// continuation, the dynamic extent that starts here. Returns the wind chain to restore at its normal end.
+static SCM_List *enter_extent(SCM *before, SCM *after) {
+  SCM_List *old_wind_chain = g_wind_chain;
+  SCM_List *chain = make_list(wrap(make_list(before, after)));
+  chain->next = g_wind_chain;
+  g_wind_chain = chain;
+  return old_wind_chain;
+}
+
+static SCM *set_in_binder_call(SCM *flag) {
+  g_in_binder_call = is_true(flag);
+  return scm_none();
+}
+
+// A thunk that sets the recursion guard of binder calls
+static SCM *binder_guard_setter(SCM *flag) {
+  static SCM *setter = nullptr;
+  if (!setter) {
+    setter = wrap(_create_func("set-in-binder-call", set_in_binder_call));
+    cast<SCM_Function>(setter)->n_args = 1;
+    gc_register_root(&setter, "binder_guard_setter");
+  }
+  return wrap(make_proc(nullptr, nullptr, make_list(scm_list2(setter, flag)), &g_env));
+}
+
+// Ask the binder of MODULE for SYM. The guard is up exactly during the call, also when the binder leaves by an
+// error or a continuation.
+static SCM *call_binder(SCM_Module *module, SCM_Symbol *sym) {
+  SCM_List *old_wind_chain = enter_extent(binder_guard_setter(scm_bool_true()), binder_guard_setter(scm_bool_false()));
+  g_in_binder_call = true;
+  // Binder signature: (binder module sym definep) -> variable | #f
+  // Arguments are already evaluated values, not AST nodes
+  // Use apply_procedure_with_values to pass them directly without re-evaluation
+  SCM *args = scm_list3(wrap(module), wrap(sym), scm_bool_true());
+  SCM *result = apply_procedure_with_values(&g_env, module->binder, cast<SCM_List>(args));
+  g_wind_chain = old_wind_chain;
+  g_in_binder_call = false;
+  return result;
+}
+
 // Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
@@ -174,13 +215,7 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
 
   // 2. Call binder (if exists), with recursion guard
   if (module->binder && !g_in_binder_call) {
-    g_in_binder_call = true;
-    // Binder signature: (binder module sym definep) -> variable | #f
-    // Arguments are already evaluated values, not AST nodes
-    // Use apply_procedure_with_values to pass them directly without re-evaluation
-    SCM *args = scm_list3(wrap(module), wrap(sym), scm_bool_true());
-    SCM *result = apply_procedure_with_values(&g_env, module->binder, cast<SCM_List>(args));
-    g_in_binder_call = false;
+    SCM *result = call_binder(module, sym);
     if (result && !is_falsy(result)) {
       // Binder returns a variable object, unwrap it to get the value
       if (is_variable(result)) {
@@ -327,11 +362,7 @@ static SCM *module_setter(SCM *module) {
 // Make MODULE current for a dynamic extent: leaving the extent early, by an error or a continuation, makes
 // OLD_MODULE current again. Returns the wind chain that leave_module takes.
 static SCM_List *enter_module(SCM *module, SCM *old_module) {
-  SCM_List *old_wind_chain = g_wind_chain;
-  SCM_List *extent = make_list(module_setter(module), module_setter(old_module));
-  SCM_List *chain = make_list(wrap(extent));
-  chain->next = g_wind_chain;
-  g_wind_chain = chain;
+  SCM_List *old_wind_chain = enter_extent(module_setter(module), module_setter(old_module));
   scm_set_current_module(module);
   return old_wind_chain;
 }
-- 
2.43.0


From 50987e00d26fabbfea58e73be1ad0a7fd38a9009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:10 +0000
Subject: [PATCH 74/82] fix: a soft port's procedure re-entered by a
 continuation frees its text once

---
 src/c/port.cc   | 9 +++++----
 src/c/string.cc | 6 ++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index c61c2f7..c89b9f5 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -380,18 +380,19 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
 }
 
 // Helper function to write a string to a port (exported for use in string.cc)
-void write_string_to_port(SCM_Port *port, const char *str, int len) {
+void write_string_to_port(SCM_Port *port, SCM *str) {
   if (port->is_closed) {
     return;
   }
   
   if (port->port_type == PORT_SOFT) {
     // Call procedure at index 1 (accept a string for output)
-    call_soft_port_output(port, 1, scm_from_c_string_port(str, len));
+    call_soft_port_output(port, 1, str);
     return;
   }
-  for (int i = 0; i < len; i++) {
-    write_char_to_port_string(port, str[i]);
+  SCM_String *s = cast<SCM_String>(str);
+  for (int i = 0; i < s->len; i++) {
+    write_char_to_port_string(port, s->data[i]);
   }
 }
 
diff --git a/src/c/string.cc b/src/c/string.cc
index cc1e721..b7ed17a 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -133,7 +133,7 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
 // Defined in port.cc
 bool port_can_write(SCM_Port *port);
 void write_char_to_port_string(SCM_Port *port, char ch);
-void write_string_to_port(SCM_Port *port, const char *str, int len);
+void write_string_to_port(SCM_Port *port, SCM *str);
 
 // Helper function to print an object to a port
 static void print_to_port(SCM *obj, SCM_Port *port, bool write_mode) {
@@ -158,8 +158,10 @@ static void print_to_port(SCM *obj, SCM_Port *port, bool write_mode) {
   }
   size_t total = fread(buffer, 1, buf_size, tmp_file);
   fclose(tmp_file);
-  write_string_to_port(port, buffer, (int)total);
+  // The procedure of a soft port may leave early or be re-entered: it gets a string of the collector's
+  SCM *text = scm_from_locale_stringn(buffer, total);
   free(buffer);
+  write_string_to_port(port, text);
 }
 
 // display: Output the argument using display format (without quotes for strings)
-- 
2.43.0


From c81835be7106824e7775aee5907aaa949a2ecd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 75/82] fix: re-entering a continuation captured while a module
 file loads is no double free

---
 src/c/module.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 3fb8070..f678093 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -467,6 +467,15 @@ SCM *scm_resolve_module(SCM_List *name) {
   // Free module_path (no longer needed)
   free(module_path);
   
+  // Keep the path on the C stack: the file may be left by an error, or re-entered through a continuation,
+  // which brings the stack back
+  if (full_path) {
+    char *path = (char *)alloca(strlen(full_path) + 1);
+    strcpy(path, full_path);
+    free(full_path);
+    found_path = path;
+  }
+  
   // Create module if it doesn't exist (before loading, so define-module can find it)
   if (!module_exists) {
     module = scm_make_module(name, 31);
@@ -497,10 +506,6 @@ SCM *scm_resolve_module(SCM_List *name) {
 
     // Restore current module
     leave_module(old_module, old_wind_chain);
-
-    if (full_path) {
-      free(full_path);
-    }
   } else {
     // File not found: warn if module was just created (no code for module)
     // This matches Guile 1.8's behavior: use-modules warns/errors when no code found
-- 
2.43.0


From 888fc20d864bac061e85d3fbd461a80fa0932ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 76/82] fix: the values of read and debug options are kept by
 the collector

---
 src/c/debug.cc | 7 +++++++
 src/c/read.cc  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/c/debug.cc b/src/c/debug.cc
index 12a935a..50569c4 100644
--- a/src/c/debug.cc
+++ b/src/c/debug.cc
@@ -277,6 +277,13 @@ SCM *scm_c_debug_options_interface(SCM_List *args) {
 
 // Initialize debug options system
 void init_debug_options() {
+  // The values of the options are Scheme objects that nothing else may refer to
+  for (int i = 0; i < SCM_N_DEBUG_OPTIONS; i++) {
+    if (scm_debug_opts[i].type == SCM_OPTION_SCM) {
+      gc_register_root((SCM **)&scm_debug_opts[i].val, scm_debug_opts[i].name);
+    }
+  }
+
   // Register Scheme functions
   scm_define_vararg_function("debug-options-interface", scm_c_debug_options_interface);
   
diff --git a/src/c/read.cc b/src/c/read.cc
index fa477e4..75ea056 100644
--- a/src/c/read.cc
+++ b/src/c/read.cc
@@ -495,6 +495,13 @@ SCM *scm_c_read_disable(SCM_List *args) {
 
 // Initialize read options system
 void init_read_options() {
+  // The values of the options are Scheme objects that nothing else may refer to
+  for (int i = 0; i < SCM_N_READ_OPTIONS; i++) {
+    if (scm_read_opts[i].type == SCM_OPTION_SCM) {
+      gc_register_root((SCM **)&scm_read_opts[i].val, scm_read_opts[i].name);
+    }
+  }
+
   // Register Scheme functions
   scm_define_vararg_function("read-options-interface", scm_c_read_options_interface);
   
-- 
2.43.0


From bc71f8255894482db5415f79996b7beeefebef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 77/82] fix: list? answers #t for proper lists of more than
 10001 elements

---
 src/c/predicate.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/c/predicate.cc b/src/c/predicate.cc
index cff7ad6..03cf259 100644
--- a/src/c/predicate.cc
+++ b/src/c/predicate.cc
@@ -90,15 +90,11 @@ SCM *scm_c_is_list(SCM *arg) {
   // A proper list ends with a node where next=nullptr and is_dotted=false
   // (cdr of the last node returns nil)
   SCM_List *l = cast<SCM_List>(arg);
-  // Use a simple cycle detection: limit traversal count
-  int count = 0;
-  const int MAX_COUNT = 10000;  // Reasonable limit for list length
+  // A second pointer follows at half the speed: in a circular list it is met again
+  SCM_List *slow = l;
+  bool move = false;
   
   while (l) {
-    if (count++ > MAX_COUNT) {
-      // Likely a circular list, return #f
-      return scm_bool_false();
-    }
     // Check if this node is a dotted pair marker
     if (l->is_dotted) {
       // This is a dotted pair, not a proper list
@@ -111,6 +107,13 @@ SCM *scm_c_is_list(SCM *arg) {
     }
     // Move to next node
     l = l->next;
+    if (move) {
+      slow = slow->next;
+    }
+    move = !move;
+    if (l == slow) {
+      return scm_bool_false();
+    }
   }
   // Should not reach here, but if we do, it's not a proper list
   return scm_bool_false();
-- 
2.43.0


From 02f3674029ba175d1a291fe2c6dfaa813b66cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 78/82] fix: cons onto a circular list ends, and onto a long
 one takes constant time

---
 src/c/list.cc | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index 43b48be..53b9bf5 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -70,14 +70,6 @@ SCM *scm_cons(SCM *car_val, SCM *cdr_val) {
   if (is_pair(cdr_val)) {
     // If cdr is a list, append it
     l->next = cast<SCM_List>(cdr_val);
-    // Check if the appended list is a dotted pair
-    // If so, preserve the is_dotted flag
-    SCM_List *last = l->next;
-    while (last->next) {
-      last = last->next;
-    }
-    // If the last node of cdr is dotted, keep it dotted
-    // Otherwise, it's a proper list, so no change needed
   } else if (is_nil(cdr_val)) {
     // If cdr is nil, just return the list with car
     // (already done, l->next is nullptr)
-- 
2.43.0


From 4cf5fa4fb861e1a11185bba3b847bb7e35377d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 79/82] fix: expt with a negative exponent gives the exact
 reciprocal

---
 src/c/number.cc | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index a28d078..e0b3573 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -861,19 +861,7 @@ SCM *scm_c_expt(SCM *base, SCM *exp) {
   // Handle negative exponent result
   if (is_negative) {
     // For negative exponents, we return 1/result
-    // But since we only support integers, we can only return exact results
-    // when result is 1 or -1
-    if (ret == 1) {
-      return _create_num(1);
-    }
-    else if (ret == -1) {
-      return _create_num(-1);
-    }
-    else {
-      // For other cases, we can't represent fractions, so return 0
-      // This is a limitation of integer-only arithmetic
-      return _create_num(0);
-    }
+    return scm_make_ratio(1, ret);
   }
   
   return _create_num(ret);
-- 
2.43.0


From f5f613616ee50990648a6991d67420856253c0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:22 +0000
Subject: [PATCH 80/82] fix: call-with-values evaluates its consumer operand
 before calling the producer

---
 src/c/values.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/c/values.cc b/src/c/values.cc
index 679140f..2a21458 100644
--- a/src/c/values.cc
+++ b/src/c/values.cc
@@ -37,6 +37,13 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
     return nullptr;
   }
   
+  // Get consumer
+  SCM *consumer = eval_with_env(env, l->next->next->data);
+  if (!is_callable(consumer)) {
+    eval_error("call-with-values: second argument must be a procedure");
+    return nullptr;
+  }
+  
   // Call producer to get values
   SCM *values_result = call_with_values(producer, nullptr);
   
@@ -52,13 +59,6 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
     values_list = make_list(values_result);
   }
   
-  // Get consumer
-  SCM *consumer = eval_with_env(env, l->next->next->data);
-  if (!is_callable(consumer)) {
-    eval_error("call-with-values: second argument must be a procedure");
-    return nullptr;
-  }
-  
   // Apply consumer to the values
   return call_with_values(consumer, values_list);
 }
-- 
2.43.0


From 91b08c1b48b06930ea204668418e1a8b3188ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:43 +0000
Subject: [PATCH 81/82] fix: procedures called without a port use the current
 input and output ports

---
 src/c/port.cc   | 50 ++++++++++++++++++++++++++++++++++++++++---------
 src/c/string.cc | 10 ++++++++++
 2 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index c89b9f5..00d7f34 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -463,6 +463,9 @@ SCM *scm_set_current_error_port(SCM *port) {
 // Global current input/output ports
 static SCM *g_current_input_port = nullptr;
 static SCM *g_current_output_port = nullptr;
+// The ports that are current at first
+static SCM *g_standard_input_port = nullptr;
+static SCM *g_standard_output_port = nullptr;
 
 SCM *scm_current_input_port() {
   if (!g_current_input_port) {
@@ -479,7 +482,7 @@ SCM *scm_current_input_port() {
     port->output_capacity = 0;
     port->soft_procedures = nullptr;
     port->soft_modes = nullptr;
-    g_current_input_port = wrap_port(port);
+    g_current_input_port = g_standard_input_port = wrap_port(port);
   }
   return g_current_input_port;
 }
@@ -514,7 +517,7 @@ SCM *scm_current_output_port() {
     port->output_capacity = 0;
     port->soft_procedures = nullptr;
     port->soft_modes = nullptr;
-    g_current_output_port = wrap_port(port);
+    g_current_output_port = g_standard_output_port = wrap_port(port);
   }
   return g_current_output_port;
 }
@@ -534,16 +537,28 @@ SCM *scm_set_current_output_port(SCM *port) {
   return old;
 }
 
+// The port used by a procedure called without one: null for the standard input or output
+SCM *default_input_port() {
+  SCM *port = scm_current_input_port();
+  return port == g_standard_input_port ? nullptr : port;
+}
+
+SCM *default_output_port() {
+  SCM *port = scm_current_output_port();
+  return port == g_standard_output_port ? nullptr : port;
+}
+
 // Force output (flush) a port
 SCM *scm_force_output(SCM_List *args) {
   SCM *port = nullptr;
   if (args && args->data) {
     port = args->data;
   }
-  
   if (!port || is_nil(port)) {
-    // Default to current output port (stdout)
-    // For now, just flush stdout
+    port = default_output_port();
+  }
+  
+  if (!port) {
     fflush(stdout);
     return scm_none();
   }
@@ -681,8 +696,11 @@ SCM *scm_c_read_char(SCM_List *args) {
   if (args && args->data) {
     port_arg = args->data;
   }
-  
   if (!port_arg || is_nil(port_arg)) {
+    port_arg = default_input_port();
+  }
+  
+  if (!port_arg) {
     // Use stdin
     eval_error("read-char: stdin port not yet implemented");
     return nullptr;
@@ -715,8 +733,11 @@ SCM *scm_c_peek_char(SCM_List *args) {
   if (args && args->data) {
     port_arg = args->data;
   }
-  
   if (!port_arg || is_nil(port_arg)) {
+    port_arg = default_input_port();
+  }
+  
+  if (!port_arg) {
     // Use stdin
     eval_error("peek-char: stdin port not yet implemented");
     return nullptr;
@@ -749,8 +770,11 @@ SCM *scm_c_read(SCM_List *args) {
   if (args && args->data) {
     port_arg = args->data;
   }
-  
   if (!port_arg || is_nil(port_arg)) {
+    port_arg = default_input_port();
+  }
+  
+  if (!port_arg) {
     // Use stdin - for now, use parse from string
     eval_error("read: stdin port not yet implemented");
     return nullptr;
@@ -806,6 +830,9 @@ SCM *scm_c_write_char(SCM_List *args) {
   if (args->next && args->next->data && !is_nil(args->next->data)) {
     port_arg = args->next->data;
   }
+  if (!port_arg) {
+    port_arg = default_output_port();
+  }
   
   if (!is_char(char_arg)) {
     eval_error("write-char: first argument must be a character");
@@ -841,8 +868,11 @@ SCM *scm_c_char_ready(SCM_List *args) {
   if (args && args->data) {
     port_arg = args->data;
   }
-  
   if (!port_arg || is_nil(port_arg)) {
+    port_arg = default_input_port();
+  }
+  
+  if (!port_arg) {
     // For stdin, we can't really check, return true
     return scm_bool_true();
   }
@@ -1138,5 +1168,7 @@ void register_port_roots() {
   gc_register_root(&g_current_error_port, "g_current_error_port");
   gc_register_root(&g_current_input_port, "g_current_input_port");
   gc_register_root(&g_current_output_port, "g_current_output_port");
+  gc_register_root(&g_standard_input_port, "g_standard_input_port");
+  gc_register_root(&g_standard_output_port, "g_standard_output_port");
 }
 
diff --git a/src/c/string.cc b/src/c/string.cc
index b7ed17a..875559e 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -132,6 +132,7 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
 
 // Defined in port.cc
 bool port_can_write(SCM_Port *port);
+SCM *default_output_port();
 void write_char_to_port_string(SCM_Port *port, char ch);
 void write_string_to_port(SCM_Port *port, SCM *str);
 
@@ -177,6 +178,9 @@ SCM *scm_c_display(SCM_List *args) {
   if (args->next && args->next->data && !is_nil(args->next->data)) {
     port_arg = args->next->data;
   }
+  if (!port_arg) {
+    port_arg = default_output_port();
+  }
   
   if (port_arg) {
     if (!is_port(port_arg)) {
@@ -208,6 +212,9 @@ SCM *scm_c_write(SCM_List *args) {
   if (args->next && args->next->data && !is_nil(args->next->data)) {
     port_arg = args->next->data;
   }
+  if (!port_arg) {
+    port_arg = default_output_port();
+  }
   
   if (port_arg) {
     if (!is_port(port_arg)) {
@@ -232,6 +239,9 @@ SCM *scm_c_newline(SCM_List *args) {
   if (args && args->data && !is_nil(args->data)) {
     port_arg = args->data;
   }
+  if (!port_arg) {
+    port_arg = default_output_port();
+  }
   
   if (port_arg) {
     if (!is_port(port_arg)) {
-- 
2.43.0


From c756f2518b56c69d07dcd6d1f063b8f7ff68e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:00 +0000
Subject: [PATCH 82/82] fix: the message of an uncaught throw is complete
 however long it is

---
 src/c/throw.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index 3487228..c855814 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdarg.h>
+#include <string>
 
 // Standard error key is now in throw.h as inline variable
 
@@ -187,19 +188,17 @@ static void handler_message(void *handler_data, SCM *tag, SCM *args) {
   const char *prog_name = handler_data ? (const char *)handler_data : "pscm";
   
   // Build message string
-  char msg[1024];
-  int pos = 0;
-  pos += snprintf(msg + pos, sizeof(msg) - pos, "%s: uncaught throw to ", prog_name);
+  std::string msg = std::string(prog_name) + ": uncaught throw to ";
   
   if (is_sym(tag)) {
     SCM_Symbol *sym = cast<SCM_Symbol>(tag);
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "'%s", sym->data);
+    msg += std::string("'") + sym->data;
   } else {
     // For non-symbol tags, use a simple representation
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "<non-symbol>");
+    msg += "<non-symbol>";
   }
   
-  pos += snprintf(msg + pos, sizeof(msg) - pos, ": ");
+  msg += ": ";
   
   // For args, we'll print a simplified version
   if (args) {
@@ -207,20 +206,20 @@ static void handler_message(void *handler_data, SCM *tag, SCM *args) {
       SCM_List *args_list = cast<SCM_List>(args);
       if (args_list->data && is_str(args_list->data)) {
         SCM_String *s = cast<SCM_String>(args_list->data);
-        pos += snprintf(msg + pos, sizeof(msg) - pos, "%s", s->data);
+        msg += s->data;
       } else {
-        pos += snprintf(msg + pos, sizeof(msg) - pos, "<args>");
+        msg += "<args>";
       }
     } else {
-      pos += snprintf(msg + pos, sizeof(msg) - pos, "<args>");
+      msg += "<args>";
     }
   } else {
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "()");
+    msg += "()";
   }
   
-  pos += snprintf(msg + pos, sizeof(msg) - pos, "\n");
+  msg += "\n";
   
-  write_to_port(port, msg);
+  write_to_port(port, msg.c_str());
   
   // Flush the port
   if (port->port_type == PORT_FILE_OUTPUT && port->file) {
-- 
2.43.0

