From 68f4fedb9607de0f00a5adc933fc977b401ca3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 01/13] fix: match subtraction rewrites only on binary nodes

Operator ids are allocated per arity, so a unary or ternary node whose id equals the
binary subtraction id was taken for a nested subtraction and rewritten
(`3 - atanh(x)` became `6 - x`). Require arity 2 like the add/mul patterns do.
---
 dynamic_expressions/src/simplify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynamic_expressions/src/simplify.rs b/dynamic_expressions/src/simplify.rs
index 35ef764..35b59f2 100644
--- a/dynamic_expressions/src/simplify.rs
+++ b/dynamic_expressions/src/simplify.rs
@@ -188,7 +188,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 1 / 2: left is const, right is (sub ...).
         if let Some(a_idx) = is_const(arena, left) {
-            if let Some((_r_arity, r_children)) = is_op(arena, right, op) {
+            if let Some((2, r_children)) = is_op(arena, right, op) {
                 let r0 = r_children[0];
                 let r1 = r_children[1];
                 let a_v = consts[a_idx as usize];
@@ -237,7 +237,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 3 / 4: right is const, left is (sub ...).
         if let Some(b_idx) = is_const(arena, right) {
-            if let Some((_l_arity, l_children)) = is_op(arena, left, op) {
+            if let Some((2, l_children)) = is_op(arena, left, op) {
                 let l0 = l_children[0];
                 let l1 = l_children[1];
                 let b_v = consts[b_idx as usize];
-- 
2.43.0


From 2fd43f8a12829ae60aed3cbc6853cf0d10eb599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 02/13] fix: size the evaluation buffer for the dataset being
 evaluated

With batching, the evolution phase evaluated a batch of batch_size rows into a buffer
sized for the full dataset and panicked unless the two sizes happened to agree (in the
parallel search the worker died and the search hung).
---
 symbolic_regression/src/pop_member.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolic_regression/src/pop_member.rs b/symbolic_regression/src/pop_member.rs
index 5f8a46e..8cfb07e 100644
--- a/symbolic_regression/src/pop_member.rs
+++ b/symbolic_regression/src/pop_member.rs
@@ -96,6 +96,7 @@ where
         options: &Options<T, D>,
         evaluator: &mut Evaluator<T, D>,
     ) -> bool {
+        evaluator.ensure_n_rows(dataset.n_rows);
         let ok = dynamic_expressions::eval_plan_array_into(
             &mut evaluator.yhat,
             &self.plan,
-- 
2.43.0


From 224433c05da9b2b84d41afc75f81033978a297c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 03/13] fix: re-evaluate batch winners on the full dataset
 before they reach the hall of fame

With batching, the best members seen during a cycle carried the loss of whichever batch
they were scored on, so the hall of fame compared and reported losses that were not
those of the dataset.
---
 symbolic_regression/src/search_utils.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index f819038..a64345d 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -415,11 +415,19 @@ where
     T: Float + num_traits::FromPrimitive + num_traits::ToPrimitive + AddAssign,
     Ops: dynamic_expressions::OperatorSet<T = T>,
 {
-    let (evals1, best_seen) =
+    let (mut evals1, mut best_seen) =
         pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, eval_dataset| {
             single_iteration::s_r_cycle(pop, ctx, eval_dataset)
         });
 
+    if options.batching {
+        // Losses seen during the cycle are batch losses; the hall of fame records full-dataset losses.
+        for m in best_seen.best_by_complexity.iter_mut().flatten() {
+            let _ = m.evaluate(&full_dataset, options, &mut pop_state.evaluator);
+            evals1 += 1.0;
+        }
+    }
+
     let evals2 = pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, opt_dataset| {
         single_iteration::optimize_and_simplify_population(pop, ctx, opt_dataset)
     });
-- 
2.43.0


From a4fab17fca78392436c251f07dd5fab49b259b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 04/13] fix: propagate a worker panic instead of hanging the
 parallel search

The orchestrator keeps its own sender alive, so when a task panicked (a custom operator
or loss, for instance) its receive loop waited forever for the missing result.
---
 symbolic_regression/src/search_utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index a64345d..08de177 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -523,7 +523,7 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
     let full_dataset = state.full_dataset;
     let options = state.options;
 
-    let (result_tx, result_rx) = std::sync::mpsc::channel::<SearchTaskResult<T, Ops, D>>();
+    let (result_tx, result_rx) = std::sync::mpsc::channel::<std::thread::Result<SearchTaskResult<T, Ops, D>>>();
 
     for _iter in 0..options.niterations {
         let mut task_order: Vec<usize> = (0..state.pools.pops.len()).collect();
@@ -548,7 +548,10 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
 
                 let result_tx = result_tx.clone();
                 scope.spawn(move |_| {
-                    let res = execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st);
+                    // A panicking task must still report, or the receive loop below would wait forever.
+                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
+                        execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st)
+                    }));
                     let _ = result_tx.send(res);
                 });
                 in_flight += 1;
@@ -556,6 +559,7 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
 
             let res = result_rx.recv().expect("worker result channel closed early");
             in_flight -= 1;
+            let res = res.unwrap_or_else(|panic| std::panic::resume_unwind(panic));
             apply_task_result(
                 options,
                 &mut state.counters,
-- 
2.43.0


From 2ca7cf238f67f72662ccd039a16e01a37b36826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 05/13] fix: normalise the layout of y and weights like x

A strided weights array has no slice view, so it was silently ignored by the loss and by
avg_y, and a strided y panicked.
---
 symbolic_regression/src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolic_regression/src/dataset.rs b/symbolic_regression/src/dataset.rs
index 527c57f..8157cd3 100644
--- a/symbolic_regression/src/dataset.rs
+++ b/symbolic_regression/src/dataset.rs
@@ -47,6 +47,8 @@ impl<T: Float> Dataset<T> {
         avg_y: Option<T>,
     ) -> Self {
         let x = x.as_standard_layout().to_owned();
+        let y = y.as_standard_layout().to_owned();
+        let weights = weights.map(|w| w.as_standard_layout().to_owned());
         let (n_features, n_rows) = x.dim();
         assert_eq!(y.len(), n_rows);
         if let Some(ref w) = weights {
-- 
2.43.0


From 5de50108a8b727207b822eb03c3faf2c55a78960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 06/13] fix: never let the size warmup exceed maxsize

With maxsize below 3 the warmup underflowed (a panic in debug builds, an unbounded size
limit in release builds).
---
 symbolic_regression/src/warmup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/warmup.rs b/symbolic_regression/src/warmup.rs
index 1e24daf..566f479 100644
--- a/symbolic_regression/src/warmup.rs
+++ b/symbolic_regression/src/warmup.rs
@@ -12,7 +12,8 @@ pub fn get_cur_maxsize<T: Float, const D: usize>(
     let in_warmup = fraction_elapsed <= options.warmup_maxsize_by;
 
     if options.warmup_maxsize_by > 0.0 && in_warmup {
-        3 + (((options.maxsize - 3) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
+        let extra = (options.maxsize.saturating_sub(3) as f32) * fraction_elapsed / options.warmup_maxsize_by;
+        (3 + extra.floor() as usize).min(options.maxsize)
     } else {
         options.maxsize
     }
-- 
2.43.0


From f2b140ce5f52f0608d3b79f523fd014a5c16a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 07/13] fix: let a valid member displace a constraint-violating
 best

When no initial member satisfies the constraints, best falls back to one that violates
them; it then stayed the answer as long as its loss was the lowest.
---
 symbolic_regression/src/search_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 08de177..821f760 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -474,7 +474,9 @@ fn apply_task_result<T, Ops, const D: usize>(
     }
     for m in &st.pop.members {
         hall.consider(m, options, curmaxsize);
-        if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
+        if check_constraints(&m.expr, options, curmaxsize)
+            && (m.loss < pools.best.loss || !check_constraints(&pools.best.expr, options, options.maxsize))
+        {
             pools.best = m.clone();
         }
     }
-- 
2.43.0


From f78438be67c5d5d55064a3714f65aa96bffaf649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 08/13] fix: keep at least one training row in the validation
 split

Rounding could put every row of a small dataset into the validation set (4 rows at a
fraction of 0.9), leaving nothing to train on.
---
 web/wasm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index d8f6467..df11e89 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -651,7 +651,7 @@ fn make_split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> Was
     }
 
     let vf = validation_fraction.clamp(0.0, 0.9);
-    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows);
+    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows - 1);
     if n_val == 0 {
         return WasmSplitIndices {
             train: (0..n_rows).collect(),
-- 
2.43.0


From 3ee98476c1dfe478402f3b1b592128cc15724741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 09/13] fix: centre the unweighted correlation on the
 unweighted mean

With weights present the Pearson correlation centred y on its weighted mean.
---
 web/wasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index df11e89..a4cb648 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -507,6 +507,7 @@ fn r2_and_corr(yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> (f64, f64) {
     let r2 = if sst == 0.0 { 0.0 } else { 1.0 - (sse / sst) };
 
     // Unweighted Pearson correlation.
+    let y_mean = y.iter().sum::<f64>() / (y.len() as f64);
     let yh_mean = yhat.iter().sum::<f64>() / (yhat.len() as f64);
     let mut cov = 0.0;
     let mut vy = 0.0;
-- 
2.43.0


From 46c5116b484490b4b4e91239ab0f9be0fb8a4a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 10/13] fix: size the evaluation buffer for the dataset being
 optimised

---
 symbolic_regression/src/constant_optimization.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolic_regression/src/constant_optimization.rs b/symbolic_regression/src/constant_optimization.rs
index 1e4d310..5b907b6 100644
--- a/symbolic_regression/src/constant_optimization.rs
+++ b/symbolic_regression/src/constant_optimization.rs
@@ -31,6 +31,7 @@ impl<'a, T: Float + AddAssign, const D: usize> EvalWorkspace<'a, T, D> {
             check_finite: true,
             early_exit: true,
         };
+        evaluator.ensure_n_rows(dataset.n_rows);
 
         Self {
             dataset,
-- 
2.43.0


From 6c76a1bda806f69db42be22cf5673e78357e0acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 11/13] fix: never select a zero-weight entry on rounding

---
 symbolic_regression/src/selection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/selection.rs b/symbolic_regression/src/selection.rs
index 8d79c46..9cac764 100644
--- a/symbolic_regression/src/selection.rs
+++ b/symbolic_regression/src/selection.rs
@@ -79,16 +79,18 @@ pub(crate) fn weighted_index(rng: &mut Rng, weights: &[f64]) -> usize {
     }
 
     let mut target = rng.f64() * total;
+    let mut last_positive = 0;
     for (idx, &w) in weights.iter().enumerate() {
         if w <= 0.0 {
             continue;
         }
+        last_positive = idx;
         if target < w {
             return idx;
         }
         target -= w;
     }
-    weights.len() - 1
+    last_positive
 }
 
 fn sample_indices(rng: &mut Rng, len: usize, n: usize) -> Vec<usize> {
-- 
2.43.0


From f15728bf878322cabe022a2a1b25ad0d9f852313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 12/13] fix: report the best member seen, not only the best
 survivor

---
 symbolic_regression/src/search_utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 821f760..a4bc753 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -469,10 +469,8 @@ fn apply_task_result<T, Ops, const D: usize>(
     stats.update_from_population(st.pop.members.iter().map(|m| m.complexity));
     stats.move_window();
 
-    for m in res.best_seen.members() {
-        hall.consider(m, options, curmaxsize);
-    }
-    for m in &st.pop.members {
+    // The best member may have been replaced in the population during the cycle: `best_seen` still has it.
+    for m in res.best_seen.members().chain(&st.pop.members) {
         hall.consider(m, options, curmaxsize);
         if check_constraints(&m.expr, options, curmaxsize)
             && (m.loss < pools.best.loss || !check_constraints(&pools.best.expr, options, options.maxsize))
-- 
2.43.0


From e1f7e86f95ce26d21325dcb9b80b1deca399bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 13/13] fix: clamp's gradient in its upper bound is zero where
 inverted bounds select the lower one

---
 dynamic_expressions/src/operator_enum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynamic_expressions/src/operator_enum.rs b/dynamic_expressions/src/operator_enum.rs
index a42f3f2..7407238 100644
--- a/dynamic_expressions/src/operator_enum.rs
+++ b/dynamic_expressions/src/operator_enum.rs
@@ -628,7 +628,8 @@ pub mod builtin {
                     if x < lo { T::one() } else { T::zero() }
                 }
                 2 => {
-                    if x > hi { T::one() } else { T::zero() }
+                    // With inverted bounds `eval` tests the lower one first.
+                    if x > hi && !(x < lo) { T::one() } else { T::zero() }
                 }
                 _ => unreachable!(),
             }
-- 
2.43.0

