From 77d209a8628eded23b6053e155aca3296d897de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:00 +0000
Subject: [PATCH 01/28] fix: report the remainder by zero at compile time
 instead of panicking

---
 circom_algebra/src/modular_arithmetic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 60c386c..2b4b9dd 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -58,7 +58,11 @@ pub fn idiv(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, Ari
 pub fn mod_op(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, ArithmeticError> {
     let left = modulus(left, field);
     let right = modulus(right, field);
-    Result::Ok(modulus(&left, &right))
+    if right == BigInt::from(0) {
+        Result::Err(ArithmeticError::DivisionByZero)
+    } else {
+        Result::Ok(modulus(&left, &right))
+    }
 }
 pub fn pow(base: &BigInt, exp: &BigInt, field: &BigInt) -> BigInt {
     base.modpow(exp, field)
-- 
2.43.0


From b57f48b33ebeb11c74a2a9fc16778820b4bd9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 02/28] fix: shifts by more bits than the field has give zero
 instead of an error

---
 circom_algebra/src/modular_arithmetic.rs | 27 +++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 2b4b9dd..132f180 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -116,11 +116,15 @@ pub fn shift_l(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
-        let value = modulus(&((left * &num_traits::pow(two, usize_repr)) & &mask(field)), field);
-        Result::Ok(value)
+        match right.to_usize() {
+            Some(usize_repr) if usize_repr < field.bits() => {
+                let value =
+                    modulus(&((left * &num_traits::pow(two, usize_repr)) & &mask(field)), field);
+                Result::Ok(value)
+            }
+            // every bit is shifted out
+            _ => Result::Ok(BigInt::from(0)),
+        }
     } else {
         shift_r(left, &(field - right), field)
     }
@@ -129,11 +133,14 @@ pub fn shift_r(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
-        let value = left / &num_traits::pow(two, usize_repr);
-        Result::Ok(value)
+        match right.to_usize() {
+            Some(usize_repr) if usize_repr < field.bits() => {
+                let value = left / &num_traits::pow(two, usize_repr);
+                Result::Ok(value)
+            }
+            // every bit is shifted out
+            _ => Result::Ok(BigInt::from(0)),
+        }
     } else {
         shift_l(left, &(field - right), field)
     }
-- 
2.43.0


From ee925550b57bdb15e7996841d34a26a9c5fa5034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 03/28] fix: simplification keeps the conflict when a signal is
 equated to two constants

---
 constraint_list/src/constraint_simplification.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 66d7a21..b420da5 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -258,13 +258,22 @@ fn constant_eq_simplification(
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
     let mut subs = LinkedList::new();
-    for constraint in c_eq {
+    let mut fixed: HashMap<usize, S> = HashMap::new();
+    for mut constraint in c_eq {
         let mut signals: Vec<_> = C::take_cloned_signals_ordered(&constraint).iter().cloned().collect();
         let signal = signals.pop().unwrap();
         if HashSet::contains(&forbidden, &signal) {
             LinkedList::push_back(&mut cons, constraint);
+        } else if let Some(sub) = fixed.get(&signal) {
+            // the signal is already equal to a constant: both constants have to agree
+            C::apply_substitution(&mut constraint, sub, field);
+            C::fix_constraint(&mut constraint, field);
+            if !C::is_empty(&constraint) {
+                LinkedList::push_back(&mut cons, constraint);
+            }
         } else {
             let sub = C::clear_signal_from_linear(constraint, &signal, field);
+            fixed.insert(signal, sub.clone());
             LinkedList::push_back(&mut subs, sub);
         }
     }
-- 
2.43.0


From 12204dc1d46ee1bf65939a81490356314c0296af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:27 +0000
Subject: [PATCH 04/28] fix: reported substitutions only mention signals that
 remain after simplification

---
 .../src/constraint_simplification.rs          | 45 ++++++++++++-------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index b420da5..e38fc03 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -6,14 +6,30 @@ use constraint_writers::json_writer::SubstitutionJSON;
 use std::collections::{HashMap, HashSet, LinkedList, BTreeSet};
 use std::sync::Arc;
 
-fn log_substitutions(substitutions: &LinkedList<S>, writer: &mut Option<SubstitutionJSON>) {
+type SubstitutionLog = Option<Vec<S>>;
+
+fn log_substitutions(substitutions: &LinkedList<S>, log: &mut SubstitutionLog) {
+    if let Some(log) = log {
+        log.extend(substitutions.iter().cloned());
+    }
+}
+
+// Signals removed by a later step may occur in the substitutions of an earlier one
+fn write_substitutions(mut log: Vec<S>, file: &str, field: &BigInt) -> Result<(), ()> {
     use super::json_porting::port_substitution;
-    if let Some(w) = writer {
-        for s in substitutions {
-            let (from, to) = port_substitution(s);
-            w.write_substitution(&from, &to).unwrap();
-        }
+    use circom_algebra::simplification_utils::fast_encoded_substitution_substitution;
+    let mut later = SEncoded::with_capacity(log.len());
+    for s in log.iter_mut().rev() {
+        fast_encoded_substitution_substitution(s, &later, field);
+        let (from, to) = S::decompose(s.clone());
+        later.insert(from, to);
+    }
+    let mut writer = SubstitutionJSON::new(file)?;
+    for s in &log {
+        let (from, to) = port_substitution(s);
+        writer.write_substitution(&from, &to)?;
     }
+    writer.end()
 }
 
 #[derive(Default, Clone)]
@@ -200,7 +216,7 @@ fn eq_simplification(
     forbidden: Arc<HashSet<usize>>,
     no_vars: usize,
     field: &BigInt,
-    substitution_log: &mut Option<SubstitutionJSON>,
+    substitution_log: &mut SubstitutionLog,
 ) -> (LinkedList<S>, LinkedList<C>) {
     use std::sync::mpsc;
     use threadpool::ThreadPool;
@@ -254,7 +270,7 @@ fn constant_eq_simplification(
     c_eq: LinkedList<C>,
     forbidden: &HashSet<usize>,
     field: &BigInt,
-    substitution_log: &mut Option<SubstitutionJSON>,
+    substitution_log: &mut SubstitutionLog,
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
     let mut subs = LinkedList::new();
@@ -282,7 +298,7 @@ fn constant_eq_simplification(
 }
 
 fn linear_simplification(
-    log: &mut Option<SubstitutionJSON>,
+    log: &mut SubstitutionLog,
     linear: LinkedList<C>,
     forbidden: Arc<HashSet<usize>>,
     no_labels: usize,
@@ -454,12 +470,7 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
     use circom_algebra::simplification_utils::fast_encoded_constraint_substitution;
     use std::time::SystemTime;
 
-    let mut substitution_log =
-        if smp.port_substitution { 
-            Some(SubstitutionJSON::new(&smp.json_substitutions).unwrap()) 
-        } else {
-             None 
-        };
+    let mut substitution_log = if smp.port_substitution { Some(Vec::new()) } else { None };
     let apply_linear = !smp.flag_s;
     let use_old_heuristics = smp.flag_old_heuristics;
     let field = smp.field.clone();
@@ -731,8 +742,8 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
     }
 
 
-    if let Some(w) = substitution_log {
-        w.end().unwrap();
+    if let Some(log) = substitution_log {
+        write_substitutions(log, &smp.json_substitutions, &field).unwrap();
     }
     // println!("NO CONSTANTS: {}", constraint_storage.no_constants());
     (constraint_storage, signal_map, smp.no_private_inputs - deleted_inputs)
-- 
2.43.0


From 91c34782aa21c0f06196294acf988b9594da60a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:49 +0000
Subject: [PATCH 05/28] fix: assigning a bus with an initialized field is
 reported instead of underflowing

---
 constraint_generation/src/assignment_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constraint_generation/src/assignment_utils.rs b/constraint_generation/src/assignment_utils.rs
index b090e9b..05c0b6f 100644
--- a/constraint_generation/src/assignment_utils.rs
+++ b/constraint_generation/src/assignment_utils.rs
@@ -129,7 +129,7 @@ pub fn perform_tag_propagation(tags_values: &mut TagInfo, tags_definitions: &mut
 
 pub fn perform_tag_propagation_bus(tag_data: &mut BusTagInfo, assigned_tags: &TagWire, n_inserts: usize){
     perform_tag_propagation(&mut tag_data.tags, &mut tag_data.definitions, &assigned_tags.tags, tag_data.is_init);
-    tag_data.remaining_inserts -= n_inserts; 
+    tag_data.remaining_inserts = tag_data.remaining_inserts.saturating_sub(n_inserts);
     tag_data.is_init = true;
 
     for (field_name, field_data) in &mut tag_data.fields{
-- 
2.43.0


From b6f3dd22f60e2619726d39ce15b967a0d0293992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:04 +0000
Subject: [PATCH 06/28] fix: errors in the arguments of the main component are
 reported instead of panicking

---
 constraint_generation/src/execute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 0e5698a..c104680 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -178,8 +178,10 @@ pub fn constraint_execution(
             let mut arg_values = Vec::new();
             for arg_expression in args.iter() {
                 let f_arg = execute_expression(arg_expression, program_archive, &mut runtime_information, flags);
-                arg_values.push(safe_unwrap_to_arithmetic_slice(f_arg.unwrap(), line!()));
-                // improve
+                match f_arg {
+                    Result::Err(_) => return Result::Err(runtime_information.runtime_errors),
+                    Result::Ok(value) => arg_values.push(safe_unwrap_to_arithmetic_slice(value, line!())),
+                }
             }
             execute_template_call_complete(
                 id,
-- 
2.43.0


From 0f0a248d9b82c994720c12664a306b4e1baa1622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:32 +0000
Subject: [PATCH 07/28] fix: a tag value in a ternary case that is never
 selected does not panic

---
 constraint_generation/src/execution_data/filters.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/constraint_generation/src/execution_data/filters.rs b/constraint_generation/src/execution_data/filters.rs
index 31a3fd1..da14c9a 100644
--- a/constraint_generation/src/execution_data/filters.rs
+++ b/constraint_generation/src/execution_data/filters.rs
@@ -1,4 +1,5 @@
 use super::analysis::Analysis;
+use num_bigint::BigInt;
 use program_structure::ast::*;
 
 pub fn apply_unused(stmt: &mut Statement, analysis: &Analysis, prime: &String) {
@@ -168,6 +169,11 @@ fn apply_computed_expr(expr: &mut Expression, analysis: &Analysis) {
             apply_computed_expr(if_true, analysis);
             apply_computed_expr(if_false, analysis);
             apply_computed_expr(cond, analysis);
+            // a constant condition always selects the same case: the other one was never executed
+            if let Number(_, value) = cond.as_ref() {
+                let case = if *value == BigInt::from(0) { if_false } else { if_true };
+                *expr = case.as_ref().clone();
+            }
         }
         Variable { access, .. } => {
             apply_computed_to_access(access, analysis);
-- 
2.43.0


From 03ebeb3af8a08390fb1b49401b715581be769ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 08/28] fix: a ternary with an unknown condition keeps no
 values computed under a known one

The cases of a ternary are not executed when its condition is unknown, so the
values recorded for them in an earlier iteration (where the condition was
known) were compiled into the witness generators as constants.
---
 constraint_generation/src/execute.rs          |  3 ++
 .../src/execution_data/analysis.rs            | 36 +++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index c104680..f9596e3 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1238,6 +1238,9 @@ fn execute_expression(
                     execute_expression(if_false, program_archive, runtime, flags)?
                 }
             } else {
+                // the cases are not executed: what they computed under a known condition does not hold here
+                Analysis::not_computed(&mut runtime.analysis, if_true);
+                Analysis::not_computed(&mut runtime.analysis, if_false);
                 let arithmetic_slice = Option::Some(AExpressionSlice::new(&AExpr::NonQuadratic));
                 FoldedValue { arithmetic_slice, ..FoldedValue::default() }
             }
diff --git a/constraint_generation/src/execution_data/analysis.rs b/constraint_generation/src/execution_data/analysis.rs
index 23b62ef..0f49341 100644
--- a/constraint_generation/src/execution_data/analysis.rs
+++ b/constraint_generation/src/execution_data/analysis.rs
@@ -1,5 +1,6 @@
 use circom_algebra::algebra;
 use num_bigint::BigInt;
+use program_structure::ast::{Access, Expression};
 
 type AExpr = algebra::ArithmeticExpression<String>;
 
@@ -29,6 +30,41 @@ impl Analysis {
         }
     }
 
+    // The expression is used in a context where it has not been computed.
+    pub fn not_computed(analysis: &mut Analysis, expr: &Expression) {
+        use Expression::*;
+        analysis.computed_values[expr.get_meta().elem_id] = ValuePOS::Top;
+        match expr {
+            InfixOp { lhe, rhe, .. } => {
+                Analysis::not_computed(analysis, lhe);
+                Analysis::not_computed(analysis, rhe);
+            }
+            PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => Analysis::not_computed(analysis, rhe),
+            InlineSwitchOp { cond, if_true, if_false, .. } => {
+                Analysis::not_computed(analysis, cond);
+                Analysis::not_computed(analysis, if_true);
+                Analysis::not_computed(analysis, if_false);
+            }
+            Variable { access, .. } => {
+                for acc in access {
+                    if let Access::ArrayAccess(index) = acc {
+                        Analysis::not_computed(analysis, index);
+                    }
+                }
+            }
+            Call { args, .. } | BusCall { args, .. } | ArrayInLine { values: args, .. } => {
+                for arg in args {
+                    Analysis::not_computed(analysis, arg);
+                }
+            }
+            UniformArray { value, dimension, .. } => {
+                Analysis::not_computed(analysis, value);
+                Analysis::not_computed(analysis, dimension);
+            }
+            _ => {}
+        }
+    }
+
     pub fn read_computed(analysis: &Analysis, id: usize) -> Option<BigInt> {
         match &analysis.computed_values[id] {
             ValuePOS::Val(v) => Some(v.clone()),
-- 
2.43.0


From bd9f328f6ba9b75875d032c3b16b57ba3e9e8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 09/28] fix: the witness code of a ternary's case is executed
 only when the case is selected

Calls and nested ternaries in the cases were hoisted out of the if-then-else that
the ternary is compiled into: both cases were always executed, so asserts of the
case that is not selected failed and recursion through a ternary never ended.
---
 compiler/src/hir/sugar_cleaner.rs | 53 ++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 3fefc25..365b0eb 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -91,9 +91,9 @@ fn extend_block(stmt: &mut Statement, state: &mut State, context: &Context) -> V
         let checkpoint_id = state.fresh_id;
         map_init_blocks(stmts);
         map_stmts_with_sugar(stmts, state, context);
-        map_substitutions(stmts);
+        map_substitutions(stmts, state, context);
         map_constraint_equalities(stmts);
-        state.fresh_id = map_returns(stmts, state.fresh_id);
+        map_returns(stmts, state, context);
         state.fresh_id = checkpoint_id;
         vec![]
     } else {
@@ -368,15 +368,13 @@ fn extend_infix(expr: &mut Expression, state: &mut State, context: &Context) ->
 
 fn extend_switch(expr: &mut Expression, state: &mut State, context: &Context) -> ExtendedSyntax {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
-        let mut true_expand = extend_expression(if_true, state, context);
-        let mut false_expand = extend_expression(if_false, state, context);
-        true_expand.initializations.append(&mut false_expand.initializations);
-        let mut extended = true_expand;
-        let mut expr = vec![*if_true.clone(), *if_false.clone()];
+    // the branches are extended when the switch becomes an if-then-else, see
+    // rhe_switch_case: the code of a branch belongs to that branch.
+    if let InlineSwitchOp { cond, .. } = expr {
+        let mut extended = extend_expression(cond, state, context);
+        let mut expr = vec![*cond.clone()];
         sugar_filter(&mut expr, state, &mut extended.initializations);
-        *if_false = Box::new(expr.pop().unwrap());
-        *if_true = Box::new(expr.pop().unwrap());
+        *cond = Box::new(expr.pop().unwrap());
         extended
     } else {
         unreachable!()
@@ -528,11 +526,11 @@ fn map_init_blocks(stmts: &mut Vec<Statement>) {
     }
 }
 
-fn map_substitutions(stmts: &mut Vec<Statement>) {
+fn map_substitutions(stmts: &mut Vec<Statement>, state: &mut State, context: &Context) {
     let work = std::mem::take(stmts);
     for w in work {
         if w.is_substitution() {
-            into_single_substitution(w, stmts);
+            into_single_substitution(w, stmts, state, context);
         } else {
             stmts.push(w);
         }
@@ -550,7 +548,7 @@ fn map_constraint_equalities(stmts: &mut Vec<Statement>) {
     }
 }
 
-fn map_returns(stmts: &mut Vec<Statement>, mut fresh_id: usize) -> usize {
+fn map_returns(stmts: &mut Vec<Statement>, state: &mut State, context: &Context) {
     use Statement::Return;
     let work = std::mem::take(stmts);
     for w in work {
@@ -559,16 +557,15 @@ fn map_returns(stmts: &mut Vec<Statement>, mut fresh_id: usize) -> usize {
             _ => false,
         };
         if should_split {
-            let split = split_return(w, fresh_id);
+            let split = split_return(w, state.fresh_id);
+            state.fresh_id += 1;
             stmts.push(split.declaration);
-            into_single_substitution(split.substitution, stmts);
+            into_single_substitution(split.substitution, stmts, state, context);
             stmts.push(split.final_return);
-            fresh_id += 1;
         } else {
             stmts.push(w);
         }
     }
-    fresh_id
 }
 
 struct ReturnSplit {
@@ -617,16 +614,26 @@ fn split_return(stmt: Statement, id: usize) -> ReturnSplit {
     }
 }
 
-fn into_single_substitution(stmt: Statement, stmts: &mut Vec<Statement>) {
+fn into_single_substitution(
+    stmt: Statement,
+    stmts: &mut Vec<Statement>,
+    state: &mut State,
+    context: &Context,
+) {
     use Statement::Substitution;
     match &stmt {
-        Substitution { rhe, .. } if rhe.is_switch() => rhe_switch_case(stmt, stmts),
+        Substitution { rhe, .. } if rhe.is_switch() => rhe_switch_case(stmt, stmts, state, context),
         Substitution { rhe, .. } if rhe.is_array() => rhe_array_case(stmt, stmts),
         _ => stmts.push(stmt),
     }
 }
 
-fn rhe_switch_case(stmt: Statement, stmts: &mut Vec<Statement>) {
+fn rhe_switch_case(
+    stmt: Statement,
+    stmts: &mut Vec<Statement>,
+    state: &mut State,
+    context: &Context,
+) {
     use Expression::InlineSwitchOp;
     use Statement::{Block, IfThenElse, Substitution};
     if let Substitution { var, access, op, rhe, meta } = stmt {
@@ -643,8 +650,10 @@ fn rhe_switch_case(stmt: Statement, stmts: &mut Vec<Statement>) {
             let mut else_assigns = vec![];
             let sub_else = Substitution { op, var, access, meta: meta.clone(), rhe: *if_false };
             else_assigns.push(sub_else);
-            let if_body = Block { stmts: if_assigns, meta: meta.clone() };
-            let else_body = Block { stmts: else_assigns, meta: meta.clone() };
+            let mut if_body = Block { stmts: if_assigns, meta: meta.clone() };
+            let mut else_body = Block { stmts: else_assigns, meta: meta.clone() };
+            extend_block(&mut if_body, state, context);
+            extend_block(&mut else_body, state, context);
             let stmt = IfThenElse {
                 meta,
                 cond: *cond,
-- 
2.43.0


From cdf1ef56ad81cc2a32e74307f373cd1cd7558707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:33 +0000
Subject: [PATCH 10/28] fix: functions called in the condition of a ternary are
 compiled

The merger skipped the condition, and the compiler panicked in the translation.
---
 compiler/src/hir/merger.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/src/hir/merger.rs b/compiler/src/hir/merger.rs
index 100dcdd..4ef7a47 100644
--- a/compiler/src/hir/merger.rs
+++ b/compiler/src/hir/merger.rs
@@ -313,7 +313,8 @@ fn produce_vcf_variable(expr: &Expression, state: &mut State, environment: &E) {
 
 fn produce_vcf_switch(expr: &Expression, state: &mut State, environment: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        produce_vcf_expr(cond, state, environment);
         produce_vcf_expr(if_true, state, environment);
         produce_vcf_expr(if_false, state, environment);
     } else {
@@ -580,7 +581,8 @@ fn link_variable(expr: &mut Expression, state: &State, env: &E) {
 
 fn link_switch(expr: &mut Expression, state: &State, env: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        link_expression(cond, state, env);
         link_expression(if_true, state, env);
         link_expression(if_false, state, env);
     } else {
-- 
2.43.0


From a3e36e3d29c77688500f44fd65de3c22a9751c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:33 +0000
Subject: [PATCH 11/28] fix: an array literal that reads the variable it is
 assigned to is computed before the assignment

x = [x[1], x[0]] was compiled into x[0] = x[1]; x[1] = x[0].
---
 compiler/src/hir/sugar_cleaner.rs | 38 ++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 365b0eb..07ba03c 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -145,8 +145,15 @@ fn extend_substitution(
     context: &Context,
 ) -> Vec<Statement> {
     use Statement::Substitution;
-    if let Substitution { rhe, access, .. } = stmt {
+    if let Substitution { var, op, rhe, access, .. } = stmt {
         let mut expands = extend_expression(rhe, state, context).initializations;
+        if *op == AssignOp::AssignVar && rhe.is_array() && mentions_variable(rhe, var) {
+            // the array is assigned position by position: its value must be
+            // complete before the variable is modified
+            let mut expr = vec![rhe.clone()];
+            sugar_filter(&mut expr, state, &mut expands);
+            *rhe = expr.pop().unwrap();
+        }
         
         let mut inits = vec![];
         for acc in access {
@@ -459,6 +466,35 @@ fn extend_call(expr: &mut Expression, state: &mut State, context: &Context) -> E
 
 // Utils
 
+fn mentions_variable(expr: &Expression, variable: &str) -> bool {
+    use Expression::*;
+    match expr {
+        Variable { name, access, .. } => {
+            name == variable
+                || access.iter().any(|acc| match acc {
+                    Access::ArrayAccess(e) => mentions_variable(e, variable),
+                    Access::ComponentAccess(_) => false,
+                })
+        }
+        Number(..) => false,
+        InfixOp { lhe, rhe, .. } => {
+            mentions_variable(lhe, variable) || mentions_variable(rhe, variable)
+        }
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => mentions_variable(rhe, variable),
+        InlineSwitchOp { cond, if_true, if_false, .. } => {
+            mentions_variable(cond, variable)
+                || mentions_variable(if_true, variable)
+                || mentions_variable(if_false, variable)
+        }
+        ArrayInLine { values, .. } => values.iter().any(|v| mentions_variable(v, variable)),
+        UniformArray { value, dimension, .. } => {
+            mentions_variable(value, variable) || mentions_variable(dimension, variable)
+        }
+        Call { args, .. } => args.iter().any(|a| mentions_variable(a, variable)),
+        _ => true,
+    }
+}
+
 fn sugar_filter(elements: &mut Vec<Expression>, state: &mut State, inits: &mut Vec<Statement>) {
     let work = std::mem::replace(elements, Vec::with_capacity(elements.len()));
     for elem in work {
-- 
2.43.0


From d3eabb22935c70808b7fa512637b3b9627e92fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:34 +0000
Subject: [PATCH 12/28] fix: the witness code keeps the unknown asserts of
 calls inside larger known expressions

An expression with a known value is replaced by the value. A call that executes
an assert over unknown values was kept, but not if it was part of a larger
expression or called from another function, and the assert was lost.
---
 constraint_generation/src/execute.rs                 | 11 +++++++++++
 constraint_generation/src/execution_data/analysis.rs |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index f9596e3..cd85304 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -46,6 +46,8 @@ struct RuntimeInformation {
     pub block_type: BlockType,
     pub conditions_state: Vec<(usize, bool)>,
     pub unknown_counter: usize,
+    // an assert over unknown values was executed while executing the current expression
+    pub unknown_assert: bool,
     pub analysis: Analysis,
     pub public_inputs: Vec<String>,
     pub constants: UsefulConstants,
@@ -71,6 +73,7 @@ impl RuntimeInformation {
             anonymous_components: AnonymousComponentsInfo::new(),
             conditions_state: Vec::new(),
             unknown_counter: 0,
+            unknown_assert: false,
         }
     }
 }
@@ -772,6 +775,7 @@ fn execute_statement(
                 Some(b) if b => Ok(None),
                 _ => {
                     can_be_simplified = false;
+                    runtime.unknown_assert = true;
                     Ok(None)
                 }
             };
@@ -960,6 +964,7 @@ fn execute_expression(
 ) -> Result<FoldedValue, ()> {
     use Expression::*;
     let mut can_be_simplified = true;
+    let previous_unknown_assert = std::mem::replace(&mut runtime.unknown_assert, false);
     let res = match expr {
         Number(_, value) => {
             let a_value = AExpr::Number { value: value.clone() };
@@ -1264,6 +1269,12 @@ fn execute_expression(
         _ => {unreachable!("Anonymous calls should not be reachable at this point."); }
     };
     let expr_id = expr.get_meta().elem_id;
+    if runtime.unknown_assert {
+        // its witness code cannot be replaced by the value: the assert would be lost
+        Analysis::not_computed_here(&mut runtime.analysis, expr_id);
+        can_be_simplified = false;
+    }
+    runtime.unknown_assert |= previous_unknown_assert;
     let res_p = res.arithmetic_slice.clone();
     if let Some(slice) = res_p {
         if slice.is_single() && can_be_simplified{
diff --git a/constraint_generation/src/execution_data/analysis.rs b/constraint_generation/src/execution_data/analysis.rs
index 0f49341..aeaad34 100644
--- a/constraint_generation/src/execution_data/analysis.rs
+++ b/constraint_generation/src/execution_data/analysis.rs
@@ -30,6 +30,10 @@ impl Analysis {
         }
     }
 
+    pub fn not_computed_here(analysis: &mut Analysis, id: usize) {
+        analysis.computed_values[id] = ValuePOS::Top;
+    }
+
     // The expression is used in a context where it has not been computed.
     pub fn not_computed(analysis: &mut Analysis, expr: &Expression) {
         use Expression::*;
-- 
2.43.0


From 118377aacedf550d9d322ae75987391ad0e97b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:35 +0000
Subject: [PATCH 13/28] fix: code hoisted out of a statement stays with the
 statement

Calls and ternaries in a while condition were computed once before the loop and
never again, and those in an if or else statement without braces were computed
whether or not it was executed (or not translated at all).
---
 compiler/src/hir/sugar_cleaner.rs | 38 +++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 07ba03c..8d5a335 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -103,13 +103,22 @@ fn extend_block(stmt: &mut Statement, state: &mut State, context: &Context) -> V
 
 fn extend_while(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
     use Statement::While;
-    if let While { cond, stmt, .. } = stmt {
-        let mut expands = extend_statement(stmt, state, context);
-        let mut cond_extension = extend_expression(cond, state, context);
-        expands.append(&mut cond_extension.initializations);
+    if let While { cond, stmt, meta } = stmt {
+        as_block(stmt);
+        let expands = extend_statement(stmt, state, context);
+        assert!(expands.is_empty());
+        let mut expands = extend_expression(cond, state, context).initializations;
         let mut expr = vec![cond.clone()];
         sugar_filter(&mut expr, state, &mut expands);
         *cond = expr.pop().unwrap();
+        if !expands.is_empty() {
+            // the condition is computed again after each iteration
+            let body = std::mem::replace(stmt.as_mut(), Statement::Block { meta: meta.clone(), stmts: vec![] });
+            let mut stmts = vec![body];
+            stmts.extend(expands.iter().filter(|s| !s.is_declaration()).cloned());
+            map_substitutions(&mut stmts, state, context);
+            *stmt = Box::new(Statement::Block { meta: meta.clone(), stmts });
+        }
         expands
     } else {
         unreachable!()
@@ -123,13 +132,15 @@ fn extend_conditional(
 ) -> Vec<Statement> {
     use Statement::IfThenElse;
     if let IfThenElse { cond, if_case, else_case, .. } = stmt {
-        let mut expands = vec![];
-        expands.append(&mut extend_statement(if_case, state, context));
+        as_block(if_case);
+        let trash = extend_statement(if_case, state, context);
+        assert!(trash.is_empty());
         if let Option::Some(s) = else_case {
-            expands.append(&mut extend_statement(s, state, context));
+            as_block(s);
+            let trash = extend_statement(s, state, context);
+            assert!(trash.is_empty());
         }
-        let mut cond_extension = extend_expression(cond, state, context);
-        expands.append(&mut cond_extension.initializations);
+        let mut expands = extend_expression(cond, state, context).initializations;
         let mut expr = vec![cond.clone()];
         sugar_filter(&mut expr, state, &mut expands);
         *cond = expr.pop().unwrap();
@@ -466,6 +477,15 @@ fn extend_call(expr: &mut Expression, state: &mut State, context: &Context) -> E
 
 // Utils
 
+// The code that a statement needs before it is executed goes in its own block
+fn as_block(stmt: &mut Box<Statement>) {
+    if !stmt.is_block() {
+        let meta = stmt.get_meta().clone();
+        let work = std::mem::replace(stmt.as_mut(), Statement::Block { meta: meta.clone(), stmts: vec![] });
+        *stmt = Box::new(Statement::Block { meta, stmts: vec![work] });
+    }
+}
+
 fn mentions_variable(expr: &Expression, variable: &str) -> bool {
     use Expression::*;
     match expr {
-- 
2.43.0


From 78817bb656c5283ae4e11ac906485d8719dad494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 14/28] fix: a ternary as argument of log or assert is compiled

The compiler panicked in the translation to the intermediate representation.
---
 compiler/src/hir/sugar_cleaner.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 8d5a335..baef1dc 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -215,6 +215,7 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
             if let LogArgument::LogExp(arg) = arglog {
                 let mut exp = extend_expression(arg, state, context);
                 initializations.append(&mut exp.initializations);
+                extract_switch(arg, state, &mut initializations);
             }
         }
         initializations
@@ -226,7 +227,9 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
 fn extend_assert(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
     use Statement::Assert;
     if let Assert { arg, .. } = stmt {
-        extend_expression(arg, state, context).initializations
+        let mut initializations = extend_expression(arg, state, context).initializations;
+        extract_switch(arg, state, &mut initializations);
+        initializations
     } else {
         unreachable!()
     }
@@ -529,6 +532,13 @@ fn sugar_filter(elements: &mut Vec<Expression>, state: &mut State, inits: &mut V
     }
 }
 
+fn extract_switch(expr: &mut Expression, state: &mut State, inits: &mut Vec<Statement>) {
+    if expr.is_switch() {
+        let id = state.produce_id();
+        *expr = rmv_sugar(&id, expr.clone(), inits);
+    }
+}
+
 fn rmv_sugar(fresh_variable: &str, expr: Expression, buffer: &mut Vec<Statement>) -> Expression {
     use Expression::Variable;
     use Statement::{Declaration, Substitution};
-- 
2.43.0


From 27bb2f5553688a023860d75fb5a97089eb36d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:37 +0000
Subject: [PATCH 15/28] fix: wasm functions return no more positions than their
 value has

With a larger destination the loop copied whatever followed the value in memory;
the C++ code leaves the remaining positions unmodified, as the warning says.
---
 compiler/src/intermediate_representation/return_bucket.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/compiler/src/intermediate_representation/return_bucket.rs b/compiler/src/intermediate_representation/return_bucket.rs
index 14759c2..fcb7f5e 100644
--- a/compiler/src/intermediate_representation/return_bucket.rs
+++ b/compiler/src/intermediate_representation/return_bucket.rs
@@ -57,6 +57,14 @@ impl WriteWasm for ReturnBucket {
             let mut instructions_value = self.value.produce_wasm(producer);
             instructions.append(&mut instructions_value); // value evaluation address
             instructions.push(set_local(producer.get_store_aux_2_tag())); // value evaluation temp address
+            // the destination may be larger than the value: the remaining positions are not modified
+            instructions.push(get_local(producer.get_result_size_tag()));
+            instructions.push(set_constant(&self.with_size.to_string()));
+            instructions.push(gt32_u());
+            instructions.push(add_if());
+            instructions.push(set_constant(&self.with_size.to_string()));
+            instructions.push(set_local(producer.get_result_size_tag()));
+            instructions.push(add_end());
             instructions.push(add_block());
             instructions.push(add_loop());
             instructions.push(get_local(producer.get_result_size_tag()));
-- 
2.43.0


From 02389bacce112acedf4939581e5f4c748e84123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 16/28] fix: the C++ loader allocates as many bus fields as the
 bus has

---
 code_producers/src/c_elements/common/main.cpp   | 2 +-
 code_producers/src/c_elements/common64/main.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index c286558..e9b1cb7 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -108,7 +108,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 18ec889..5588bb7 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -101,7 +101,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
-- 
2.43.0


From d1d1556867594dbc180846211001d4933e7f68d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 17/28] fix: signals that are never assigned are zero in the
 C++ witness

---
 code_producers/src/c_elements/common/calcwit.cpp   | 2 +-
 code_producers/src/c_elements/common64/calcwit.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/common/calcwit.cpp b/code_producers/src/c_elements/common/calcwit.cpp
index 7abb459..55bd27e 100644
--- a/code_producers/src/c_elements/common/calcwit.cpp
+++ b/code_producers/src/c_elements/common/calcwit.cpp
@@ -30,7 +30,7 @@ Circom_CalcWit::Circom_CalcWit (Circom_Circuit *aCircuit, uint maxTh) {
   for (int i = 0; i< inputSignalAssignedCounter; i++) {
     inputSignalAssigned[i] = false;
   }
-  signalValues = new FrElement[get_total_signal_no()];
+  signalValues = new FrElement[get_total_signal_no()]();
   Fr_str2element(&signalValues[0], "1", 10);
   componentMemory = new Circom_Component[get_number_of_components()];
   circuitConstants = circuit ->circuitConstants;
diff --git a/code_producers/src/c_elements/common64/calcwit.cpp b/code_producers/src/c_elements/common64/calcwit.cpp
index 23eb36d..887ad8a 100644
--- a/code_producers/src/c_elements/common64/calcwit.cpp
+++ b/code_producers/src/c_elements/common64/calcwit.cpp
@@ -30,7 +30,7 @@ Circom_CalcWit::Circom_CalcWit (Circom_Circuit *aCircuit, uint maxTh) {
   for (int i = 0; i< inputSignalAssignedCounter; i++) {
     inputSignalAssigned[i] = false;
   }
-  signalValues = new u64[get_total_signal_no()];
+  signalValues = new u64[get_total_signal_no()]();
   signalValues[0] = 1;
   componentMemory = new Circom_Component[get_number_of_components()];
   // circuitConstants = circuit ->circuitConstants;
-- 
2.43.0


From 3c2bf771bc082d3984974eb8c556373806e8cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 18/28] fix: a parallel component without inputs runs its
 parallel code in C++

---
 compiler/src/circuit_design/template.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/compiler/src/circuit_design/template.rs b/compiler/src/circuit_design/template.rs
index c642354..d5af439 100644
--- a/compiler/src/circuit_design/template.rs
+++ b/compiler/src/circuit_design/template.rs
@@ -272,7 +272,15 @@ impl TemplateCodeInfo {
 	}
 	// if has no inputs should be runned
 	if self.number_of_inputs == 0 {
-	    let cmp_call_name = format!("{}_run", self.header);
+	    let cmp_call_name = if parallel {
+	        // the parallel run leaves the count of running threads when it ends
+	        create_body.push("ctx->numThreadMutex.lock();".to_string());
+	        create_body.push("ctx->numThread++;".to_string());
+	        create_body.push("ctx->numThreadMutex.unlock();".to_string());
+	        format!("{}_run_parallel", self.header)
+	    } else {
+	        format!("{}_run", self.header)
+	    };
 	    let cmp_call_arguments = vec![component_offset(), CIRCOM_CALC_WIT.to_string()]; 
 	    create_body.push(format!("{};",build_call(cmp_call_name, cmp_call_arguments)));
         }
-- 
2.43.0


From 64f9a2925993568500e5b377f5bd84daf7b6ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 19/28] fix: a main component of a parallel template calls its
 parallel code in C++

---
 compiler/src/circuit_design/build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 4d41226..528da20 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -263,6 +263,7 @@ fn initialize_c_producer(vcp: &VCP, database: &TemplateDB, no_asm_flag: bool, sa
     let mut producer = CProducer::default();
     let stats = vcp.get_stats();
     producer.main_header = vcp.get_main_instance().unwrap().template_header.clone();
+    producer.main_is_parallel = vcp.get_main_instance().unwrap().is_parallel;
     producer.main_signal_offset = 1;
     producer.prime = prime.to_str_radix(10);
     producer.prime_str = vcp.prime.clone();
-- 
2.43.0


From 5f7e3c84d1c70f207126c38855d0995795db324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 20/28] fix: an unterminated comment is reported at its first
 byte

---
 parser/src/parser_logic.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser/src/parser_logic.rs b/parser/src/parser_logic.rs
index 9851362..d918477 100644
--- a/parser/src/parser_logic.rs
+++ b/parser/src/parser_logic.rs
@@ -14,18 +14,20 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
 
     let mut it = expr.chars();
     while let Some(c0) = it.next() {
-        loc += 1;
+        // loc is the position in bytes of the character after c0
+        loc += c0.len_utf8();
         match (state, c0) {
             (0, '/') => {
-                loc += 1;
-                match it.next() {
+                let next = it.next();
+                loc += next.map_or(0, char::len_utf8);
+                match next {
                     Some('/') => {
                         state = 1;
                         pp.push(' ');
                         pp.push(' ');
                     }
                     Some('*') => {
-                        block_start = loc;
+                        block_start = loc - 2;
                         state = 2;
                         pp.push(' ');
                         pp.push(' ');
@@ -46,12 +48,12 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                 state = 0;
             }
             (2, '*') => {
-                loc += 1;
                 let mut next = it.next();
+                loc += next.map_or(0, char::len_utf8);
                 while next == Some('*') {
                     pp.push(' ');
-                    loc += 1;
                     next = it.next();
+                    loc += next.map_or(0, char::len_utf8);
                 }
                 match next {
                     Some('/') => {
-- 
2.43.0


From b2a5996c1eef019ec1f9b2674d42c6ca4b932fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 21/28] fix: comment markers inside strings are part of the
 string

---
 parser/src/parser_logic.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser_logic.rs b/parser/src/parser_logic.rs
index d918477..fd7b7da 100644
--- a/parser/src/parser_logic.rs
+++ b/parser/src/parser_logic.rs
@@ -35,6 +35,9 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                     Some(c1) => {
                         pp.push(c0);
                         pp.push(c1);
+                        if c1 == '"' {
+                            state = 3;
+                        }
                     }
                     None => {
                         pp.push(c0);
@@ -42,7 +45,16 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                     }
                 }
             }
-            (0, _) => pp.push(c0),
+            (0, '"') => {
+                // nothing is a comment inside a string
+                pp.push(c0);
+                state = 3;
+            }
+            (3, '"') | (3, '\n') => {
+                pp.push(c0);
+                state = 0;
+            }
+            (0, _) | (3, _) => pp.push(c0),
             (1, '\n') => {
                 pp.push(c0);
                 state = 0;
-- 
2.43.0


From c36ea9d85f50e5aafce24f398d80d1a65bbe0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 22/28] fix: setInputSignal of the WebAssembly code remembers
 which inputs are set

---
 .../src/wasm_elements/wasm_code_generator.rs         | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/code_producers/src/wasm_elements/wasm_code_generator.rs b/code_producers/src/wasm_elements/wasm_code_generator.rs
index ba1ca86..77ce43e 100644
--- a/code_producers/src/wasm_elements/wasm_code_generator.rs
+++ b/code_producers/src/wasm_elements/wasm_code_generator.rs
@@ -1068,6 +1068,8 @@ pub fn check_if_input_signal_set_generator(producer: &WASMProducer) -> Vec<WasmI
     instructions.push("(result i32)".to_string());
     instructions.push(set_constant(&producer.get_input_signal_set_map_start().to_string()));
     instructions.push(get_local("$sip"));
+    instructions.push(set_constant("4"));
+    instructions.push(mul32());
     instructions.push(add32());
     instructions.push(load32(None));
     instructions.push(")".to_string());
@@ -1135,6 +1137,16 @@ pub fn set_input_signal_generator(producer: &WASMProducer) -> Vec<WasmInstructio
     instructions.push(set_constant(&exception_code_singals_already_set().to_string()));
     instructions.push(call("$exceptionHandler"));
     instructions.push(add_else()); // else if 4
+    // the signal is set from now on
+    instructions.push(set_constant(&producer.get_input_signal_set_map_start().to_string()));
+    instructions.push(get_local("$sip"));
+    instructions.push(set_constant(&o.to_string()));
+    instructions.push(sub32());
+    instructions.push(set_constant("4"));
+    instructions.push(mul32());
+    instructions.push(add32());
+    instructions.push(set_constant("1"));
+    instructions.push(store32(None));
     instructions.push(get_local("$sip"));
     let s = producer.get_size_32_bits_in_memory() * 4;
     instructions.push(set_constant(&s.to_string()));
-- 
2.43.0


From a208207d2cf895244cb8bc6776d4f9c2cf73a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:23 +0000
Subject: [PATCH 23/28] fix: components without inputs in a partly defined
 array run in the WebAssembly code

---
 .../create_component_bucket.rs                | 36 +++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/compiler/src/intermediate_representation/create_component_bucket.rs b/compiler/src/intermediate_representation/create_component_bucket.rs
index 681b084..04ee9f3 100644
--- a/compiler/src/intermediate_representation/create_component_bucket.rs
+++ b/compiler/src/intermediate_representation/create_component_bucket.rs
@@ -171,7 +171,23 @@ impl WriteWasm for CreateCmpBucket {
                 instructions.push(get_local(producer.get_create_loop_offset_tag()));
                 //sub_component signal address start
                 instructions.push(call(&format!("${}_create", self.symbol)));
-                instructions.push(store32(None)); //store the offset given by create in the subcomponent address
+                if !self.has_inputs {
+                    instructions.push(tee_local(producer.get_temp_tag())); //here we use $temp to keep the offset created subcomponet
+                    instructions.push(store32(None)); //store the offset given by create in the subcomponent address
+                    instructions.push(get_local(producer.get_temp_tag()));
+                    instructions.push(call(&format!("${}_run", self.symbol)));
+                    instructions.push(tee_local(producer.get_merror_tag()));
+                    instructions.push(add_if());
+                    instructions.push(set_constant(&self.message_id.to_string()));
+                    instructions.push(set_constant(&self.line.to_string()));
+                    instructions.push(call("$buildBufferMessage"));
+                    instructions.push(call("$printErrorMessage"));
+                    instructions.push(get_local(producer.get_merror_tag()));    
+                    instructions.push(add_return());
+                    instructions.push(add_end());
+                } else {
+                    instructions.push(store32(None)); //store the offset given by create in the subcomponent address
+                }
                 //producer.get_create_loop_sub_cmp_tag() contains the position of last created subcomponent
                 //producer.get_create_loop_offset_tag() contains the offset of last created subcomponent
                 for i in 1..self.defined_positions.len() {
@@ -190,7 +206,23 @@ impl WriteWasm for CreateCmpBucket {
                     instructions.push(get_local(producer.get_create_loop_offset_tag()));
                     //sub_component signal address start
                     instructions.push(call(&format!("${}_create", self.symbol)));
-                    instructions.push(store32(None)); //store the offset given by create in the subcomponent addre
+                    if !self.has_inputs {
+                        instructions.push(tee_local(producer.get_temp_tag())); //here we use $temp to keep the offset created subcomponet
+                        instructions.push(store32(None)); //store the offset given by create in the subcomponent address
+                        instructions.push(get_local(producer.get_temp_tag()));
+                        instructions.push(call(&format!("${}_run", self.symbol)));
+                        instructions.push(tee_local(producer.get_merror_tag()));
+                        instructions.push(add_if());
+                        instructions.push(set_constant(&self.message_id.to_string()));
+                        instructions.push(set_constant(&self.line.to_string()));
+                        instructions.push(call("$buildBufferMessage"));
+                        instructions.push(call("$printErrorMessage"));
+                        instructions.push(get_local(producer.get_merror_tag()));    
+                        instructions.push(add_return());
+                        instructions.push(add_end());
+                    } else {
+                        instructions.push(store32(None)); //store the offset given by create in the subcomponent addre
+                    }
                 }
             }
         }
-- 
2.43.0


From 79c48025bfd954e666debca2f9ce6ffe4f1d8dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:25 +0000
Subject: [PATCH 24/28] fix: several stores from components of different sizes
 in one function compile in C++

---
 compiler/src/intermediate_representation/store_bucket.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 148d793..4927489 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -475,6 +475,7 @@ impl WriteC for StoreBucket {
         let src_size = match &self.src_context.size{
             SizeOption::Single(value) => value.to_string(),
             SizeOption::Multiple(values) => {
+                prologue.push("{".to_string()); // open block for the sizes of the src
                 prologue.push(format!("std::map<int,int> size_src_store {};",
                     set_list_tuple(values.clone())
                 ));
@@ -843,6 +844,9 @@ impl WriteC for StoreBucket {
     		prologue.push(format!("}}"));
 	    }
 	}
+	if let SizeOption::Multiple(_) = &self.src_context.size {
+	    prologue.push("}".to_string()); // close block for the sizes of the src
+	}
 	if let AddressType::SubcmpSignal { .. } = &self.dest_address_type {
 	    prologue.push(format!("}}"));
 	}
-- 
2.43.0


From 7f6d526617c8d3639fca389b306cc9bd55a648aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:44 +0000
Subject: [PATCH 25/28] fix: unconstrained-signal warnings of instances that
 print alike are not lost

---
 dag/src/constraint_correctness_analysis.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dag/src/constraint_correctness_analysis.rs b/dag/src/constraint_correctness_analysis.rs
index edb216b..c920696 100644
--- a/dag/src/constraint_correctness_analysis.rs
+++ b/dag/src/constraint_correctness_analysis.rs
@@ -158,15 +158,21 @@ pub fn clean_constraints(nodes: &mut [Node]){
 
 pub fn analyse(nodes: &[Node]) -> AnalysisResult {
     let mut result = AnalysisResult { errors: vec![], warnings: vec![] };
-    let mut visited : HashSet<String> = HashSet::new();
+    // different nodes may share the printed name: they are reported once if they have the same unconstrained signals
+    let mut visited : HashSet<(String, Vec<String>)> = HashSet::new();
     for node in nodes {
-        if !node.is_custom_gate() && !visited.contains(&node.template_name.clone()){
+        if !node.is_custom_gate(){
             let analysis = visit_node(node);
-            let mut result2 = AnalysisResult { errors: vec![], warnings: vec![] };
-            analysis_interpretation(analysis, &mut result2);    
-            result.errors.append(&mut result2.errors);
-            result.warnings.append(&mut result2.warnings);
-            visited.insert(node.template_name.clone());
+            let unconstrained = analysis.signal_stats.iter()
+                .filter(|(_, _, appearances)| *appearances == 0)
+                .map(|(name, _, _)| name.clone())
+                .collect();
+            if visited.insert((node.template_name.clone(), unconstrained)) {
+                let mut result2 = AnalysisResult { errors: vec![], warnings: vec![] };
+                analysis_interpretation(analysis, &mut result2);    
+                result.errors.append(&mut result2.errors);
+                result.warnings.append(&mut result2.warnings);
+            }
         }
     }
     result
-- 
2.43.0


From d59571fe42d7737f889cb0fcd40cfe1692e3583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:44 +0000
Subject: [PATCH 26/28] fix: positions in multi-dimensional arrays of
 subcomponents of different sizes in the C++ code

---
 compiler/src/intermediate_representation/call_bucket.rs  | 4 ++--
 compiler/src/intermediate_representation/load_bucket.rs  | 2 +-
 compiler/src/intermediate_representation/store_bucket.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/src/intermediate_representation/call_bucket.rs b/compiler/src/intermediate_representation/call_bucket.rs
index c881a8b..af36e66 100644
--- a/compiler/src/intermediate_representation/call_bucket.rs
+++ b/compiler/src/intermediate_representation/call_bucket.rs
@@ -601,12 +601,12 @@ impl WriteC for CallBucket {
 					// must be last access
 					assert!(idxpos+1 == indexes.len());
 					for i in index_list.len()..dim {
-					    map_index = format!("{}*cur_def->lengths[{}]",
+					    map_index = format!("({})*cur_def->lengths[{}]",
 								map_index, (i-1).to_string());
 					} // after this we have multiplied by the remaining dimensions
 				    }
 				    // multiply the offset in the array (after multiplying by the missing dimensions) by the size of the elements
-				    map_prologue.push(format!("map_accesses_aux[{}] = {}*cur_def->size;", idxpos.to_string(), map_index));
+				    map_prologue.push(format!("map_accesses_aux[{}] = ({})*cur_def->size;", idxpos.to_string(), map_index));
 				    map_prologue.push(format!("}}"));
 				} else if let AccessType::Qualified(field_no) = &indexes[idxpos] {
 				    map_prologue.push(format!("cur_def = &({}->{}[cur_def->busId].defs[{}]);",
diff --git a/compiler/src/intermediate_representation/load_bucket.rs b/compiler/src/intermediate_representation/load_bucket.rs
index e1c1acc..c796689 100644
--- a/compiler/src/intermediate_representation/load_bucket.rs
+++ b/compiler/src/intermediate_representation/load_bucket.rs
@@ -296,7 +296,7 @@ impl WriteC for LoadBucket {
 				// must be last access
 				assert!(idxpos+1 == indexes.len());
 				for i in index_list.len()..dim {
-				    map_index = format!("{}*{}.lengths[{}]",
+				    map_index = format!("({})*{}.lengths[{}]",
 							map_index, cur_def, (i-1).to_string());
 				} // after this we have multiplied by the remaining dimensions
 			    }
diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 4927489..b7b0cfd 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -542,12 +542,12 @@ impl WriteC for StoreBucket {
 				// must be last access
 				assert!(idxpos+1 == indexes.len());
 				for i in index_list.len()..dim {
-				    map_index = format!("{}*cur_def->lengths[{}]",
+				    map_index = format!("({})*cur_def->lengths[{}]",
 							map_index, (i-1).to_string());
 				} // after this we have multiplied by the remaining dimensions
 			    }
 			    // multiply the offset in the array (after multiplying by the missing dimensions) by the size of the elements
-		            map_prologue.push(format!("map_accesses_aux[{}] = {}*cur_def->size;", idxpos.to_string(), map_index));
+		            map_prologue.push(format!("map_accesses_aux[{}] = ({})*cur_def->size;", idxpos.to_string(), map_index));
 			    map_prologue.push(format!("}}"));
 			} else if let AccessType::Qualified(field_no) = &indexes[idxpos] {
 			    map_prologue.push(format!("cur_def = &({}->{}[cur_def->busId].defs[{}]);",
-- 
2.43.0


From abbc6a35770f7a0331b59a6df4c0398c0786ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:45 +0000
Subject: [PATCH 27/28] fix: a variable of a function that hides a constant
 with the same name is not replaced by the constant

---
 .../src/decorators/constants_handler.rs        | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/type_analysis/src/decorators/constants_handler.rs b/type_analysis/src/decorators/constants_handler.rs
index 1a42965..116aebd 100644
--- a/type_analysis/src/decorators/constants_handler.rs
+++ b/type_analysis/src/decorators/constants_handler.rs
@@ -346,16 +346,13 @@ fn expand_initialization_block(
     let mut constants = HashSet::new();
     for s in initializations.iter_mut() {
         expand_statement(s, environment);
-    }
-    for s in initializations.iter_mut() {
-        if let Declaration { name, is_constant, .. } = s {
+        if let Declaration { meta, name, is_constant, .. } = s {
             if *is_constant {
                 constants.insert(name.clone());
+            } else if environment.get_variable_res(name).is_ok() {
+                environment.add_variable(name, build_variable(meta.clone(), name.clone(), vec![]));
             }
-        }
-    }
-    for s in initializations.iter_mut() {
-        if let Substitution { var, rhe, .. } = s {
+        } else if let Substitution { var, rhe, .. } = s {
             if constants.contains(var) {
                 environment.add_variable(var, rhe.clone());
             }
@@ -542,7 +539,12 @@ fn expand_variable(
     environment: &ExpressionHolder,
 ) -> Expression {
     use Access::*;
-    let is_constant = environment.get_variable_res(&name).is_ok();
+    // a variable whose value is itself hides a constant with the same name
+    let is_constant = match environment.get_variable_res(&name) {
+        Ok(Expression::Variable { name: value, .. }) => *value != name,
+        Ok(_) => true,
+        Err(_) => false,
+    };
     if is_constant && old_access.is_empty() {
         let mut expr = environment.get_variable_or_break(&name, file!(), line!()).clone();
         expr.get_mut_meta().change_location(meta.location.clone(), meta.file_id);
-- 
2.43.0


From 6487e766f07fd7653f936a8933fa07e7b40ac336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:29 +0000
Subject: [PATCH 28/28] fix: a bus with an empty array field does not divide by
 zero when witness code is generated

---
 compiler/src/circuit_design/build.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 528da20..cb737df 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -609,7 +609,8 @@ fn get_info_buses(buses: &Vec<BusInstance>)->(usize, FieldMap){
             for len in &field_info.dimensions{
                 total_array_size *= len;
             }
-            let individual_size = field_info.size / total_array_size;
+            // a field that is an empty array has no cells
+            let individual_size = field_info.size.checked_div(total_array_size).unwrap_or(0);
             let data = FieldData{
                 offset: field_info.offset,
                 size: individual_size,
-- 
2.43.0

