From 600602ba88a56d8aef0b6653aaf28868276cd0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:47 +0000
Subject: [PATCH 01/10] fix: only remove lookups via a free variable if it has
 a constant coefficient

A stateless bus interaction was removed if its only unknown field had degree at
most one in a variable that occurs nowhere else. If the coefficient of that
variable depends on other variables (e.g. `foo * bar + 256` in BYTES), it can be
zero, so removing the interaction drops a constraint on the other variables.
---
 autoprecompiles/src/constraint_optimizer.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/autoprecompiles/src/constraint_optimizer.rs b/autoprecompiles/src/constraint_optimizer.rs
index 47347ad..1b36c21 100644
--- a/autoprecompiles/src/constraint_optimizer.rs
+++ b/autoprecompiles/src/constraint_optimizer.rs
@@ -288,7 +288,7 @@ fn try_replace_by_number<T: FieldElement, V: Clone + Ord + Hash + Display>(
 /// Motivation: Suppose there is a constraint `2 * foo = bar` and `foo` only appears in this constraint.
 /// Then, if we assume that all constraints are satisfiable, the prover would be able to satisfy it for
 /// any value of `bar` by solving for `foo`. Therefore, the constraint can be removed.
-/// The same would be true for a *stateless* bus interaction, e.g. `[foo * bar] in [BYTES]`.
+/// The same would be true for a *stateless* bus interaction, e.g. `[2 * foo + bar] in [BYTES]`.
 ///
 /// This function removes *some* constraints like this (see TODOs below).
 fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
@@ -334,14 +334,19 @@ fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
                     .filter(|field| field.try_to_number().is_none())
                     .count()
                     == 1;
-                // If the expression is linear in the free variable, the prover would be able to solve for it
-                // to satisfy the constraint. Otherwise, this is not necessarily the case.
-                // Note that if the above check is true, there will only be one field of degree > 0.
-                let all_degrees_at_most_one = bus_interaction
+                // If we can solve for the free variable (i.e. it has a constant, non-zero coefficient),
+                // the prover can set the unknown field to any value. This is not the case if its
+                // coefficient depends on other variables, since that coefficient could be zero.
+                let can_solve_for_unknown_field = bus_interaction
                     .payload
                     .iter()
-                    .all(|field| field.degree_of_variable(variable) <= 1);
-                is_stateless && has_one_unknown_field && all_degrees_at_most_one
+                    .filter(|field| field.try_to_number().is_none())
+                    .all(|field| {
+                        AlgebraicConstraint::assert_zero(field)
+                            .try_solve_for(variable)
+                            .is_some()
+                    });
+                is_stateless && has_one_unknown_field && can_solve_for_unknown_field
             }
         })
         .map(|(variable, _constraint)| variable.clone())
-- 
2.43.0


From ea99a86f045f82374a935efbdc3df72e433a9419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:24 +0000
Subject: [PATCH 02/10] fix: combine product constraints only using range
 constraints that remain enforced

The rule replaced x*a = 0, x*b = 0 by x*(a+b) = 0 based on range constraints
on a and b that could have been derived from the removed constraints.
---
 .../src/rule_based_optimizer/driver.rs        | 34 ++++++++++++++++++-
 .../src/rule_based_optimizer/environment.rs   | 22 ++++++++++++
 .../src/rule_based_optimizer/rules.rs         |  7 ++--
 3 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/constraint-solver/src/rule_based_optimizer/driver.rs b/constraint-solver/src/rule_based_optimizer/driver.rs
index ef2975e..2750a4e 100644
--- a/constraint-solver/src/rule_based_optimizer/driver.rs
+++ b/constraint-solver/src/rule_based_optimizer/driver.rs
@@ -12,7 +12,8 @@ use crate::{
     constraint_system::{
         BusInteraction, BusInteractionHandler, ComputationMethod, ConstraintSystem, DerivedVariable,
     },
-    grouped_expression::{GroupedExpression, RangeConstraintProvider},
+    effect::Effect,
+    grouped_expression::{GroupedExpression, NoRangeConstraints, RangeConstraintProvider},
     indexed_constraint_system::IndexedConstraintSystem,
     inliner::DegreeBound,
     rule_based_optimizer::{
@@ -93,6 +94,10 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
                 .map(|(id, var)| (id, var.to_string()))
                 .collect(),
             single_occurrence_vars,
+            enforced_range_constraints(&system, &bus_interaction_handler)
+                .into_iter()
+                .map(|(v, rc)| (var_mapper.id(&v), rc))
+                .collect(),
             // The NewVarGenerator will be used to generate fresh variables.
             // because of lifetime and determinism issues, we pass the next ID that
             // the var_mapper would use here and then re-create the
@@ -248,6 +253,33 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
     (system, assignments)
 }
 
+/// Returns the range constraints on variables that are directly enforced by a bus interaction
+/// or by an algebraic constraint that does not reference any other variable.
+/// In contrast to the range constraints derived by the solver, these do not
+/// depend on the presence of any other constraint.
+fn enforced_range_constraints<T: FieldElement, V: Hash + Eq + Ord + Clone + Display>(
+    system: &IndexedConstraintSystem<T, V>,
+    bus_interaction_handler: &impl BusInteractionHandler<T>,
+) -> HashMap<V, RangeConstraint<T>> {
+    let bus_effects = system
+        .bus_interactions()
+        .iter()
+        .filter_map(|bus| bus.solve(bus_interaction_handler, &NoRangeConstraints).ok());
+    let algebraic_effects = system
+        .algebraic_constraints()
+        .iter()
+        .filter(|c| c.referenced_unknown_variables().all_equal())
+        .filter_map(|c| Some(c.as_ref().solve(&NoRangeConstraints).ok()?.effects));
+    let mut range_constraints: HashMap<V, RangeConstraint<T>> = HashMap::new();
+    for effect in bus_effects.chain(algebraic_effects).flatten() {
+        if let Effect::RangeConstraint(var, rc) = effect {
+            let existing_rc = range_constraints.entry(var).or_default();
+            *existing_rc = existing_rc.conjunction(&rc);
+        }
+    }
+    range_constraints
+}
+
 /// Mainly transforms a `GroupedExpression<T, Var>` back into a `GroupedExpression<T, V>`, but also re-creates
 /// any variables that were newly generated inside the expression and adds potential computation methods
 /// to the constraint system.
diff --git a/constraint-solver/src/rule_based_optimizer/environment.rs b/constraint-solver/src/rule_based_optimizer/environment.rs
index 660cb78..e7aac7a 100644
--- a/constraint-solver/src/rule_based_optimizer/environment.rs
+++ b/constraint-solver/src/rule_based_optimizer/environment.rs
@@ -10,6 +10,7 @@ use powdr_number::FieldElement;
 use crate::{
     constraint_system::ComputationMethod,
     grouped_expression::GroupedExpression,
+    range_constraint::RangeConstraint,
     rule_based_optimizer::{
         item_db::ItemDB,
         new_var_generator::NewVarGenerator,
@@ -30,6 +31,9 @@ pub struct Environment<T: FieldElement> {
     /// Variables that only occurr once in the system
     /// (also only once in the constraint they occur in).
     single_occurrence_variables: HashSet<Var>,
+    /// Range constraints on variables that are directly enforced by a single bus
+    /// interaction or by an algebraic constraint on only that variable.
+    enforced_range_constraints: HashMap<Var, RangeConstraint<T>>,
     new_var_generator: RefCell<NewVarGenerator<T>>,
 }
 
@@ -68,12 +72,14 @@ impl<T: FieldElement> Environment<T> {
         expressions: ItemDB<GroupedExpression<T, Var>, Expr>,
         var_to_string: HashMap<Var, String>,
         single_occurrence_variables: HashSet<Var>,
+        enforced_range_constraints: HashMap<Var, RangeConstraint<T>>,
         new_var_generator: NewVarGenerator<T>,
     ) -> Self {
         Self {
             expressions: RefCell::new(expressions),
             var_to_string,
             single_occurrence_variables,
+            enforced_range_constraints,
             new_var_generator: RefCell::new(new_var_generator),
         }
     }
@@ -119,6 +125,22 @@ impl<T: FieldElement> Environment<T> {
         self.single_occurrence_variables.iter()
     }
 
+    /// Returns a range constraint for `expr` that only relies on bus interactions
+    /// and on algebraic constraints on a single variable.
+    pub fn enforced_range_constraint(&self, expr: Expr) -> RangeConstraint<T> {
+        self.expressions.borrow()[expr].range_constraint(&self.enforced_range_constraints)
+    }
+
+    /// Returns true if the two expressions have a variable in common.
+    pub fn share_variable(&self, a: Expr, b: Expr) -> bool {
+        let db = self.expressions.borrow();
+        let (a, b) = (&db[a], &db[b]);
+        let shared = a
+            .referenced_unknown_variables()
+            .any(|v| b.referenced_unknown_variables().contains(v));
+        shared
+    }
+
     /// Split Expr into head and tail, i.e., expr = head + tail
     pub fn try_split_into_head_tail(&self, expr: Expr) -> Option<(Expr, Expr)> {
         let db = self.expressions.borrow();
diff --git a/constraint-solver/src/rule_based_optimizer/rules.rs b/constraint-solver/src/rule_based_optimizer/rules.rs
index b4a0752..4f7e64a 100644
--- a/constraint-solver/src/rule_based_optimizer/rules.rs
+++ b/constraint-solver/src/rule_based_optimizer/rules.rs
@@ -541,13 +541,16 @@ crepe! {
     // If we have `x * a = 0` and `x * b = 0` and `a` and `b` are
     // both non-negative and their sum is constrained, then we can replace
     // both constraints by `x * (a + b) = 0`.
+    // Since both constraints are removed, we can only use range constraints
+    // that do not depend on them.
     ReplaceAlgebraicConstraintsBy(extend_by_none([e1, e2]), replacement) <-
       Env(env),
       ProductConstraint(e1, x, a),
       ProductConstraint(e2, x, b),
       (e1 < e2),
-      RangeConstraintOnExpression(a, rc_a),
-      RangeConstraintOnExpression(b, rc_b),
+      (!env.share_variable(x, a) && !env.share_variable(x, b)),
+      let rc_a = env.enforced_range_constraint(a),
+      let rc_b = env.enforced_range_constraint(b),
       (rc_a.range().0 == T::zero()
         && rc_b.range().0 == T::zero() && !rc_a.combine_sum(&rc_b).is_unconstrained()),
       let replacement = extend_by_none([env.insert_owned(env.extract(x) * (env.extract(a) + env.extract(b)))]);
-- 
2.43.0


From c01939fad8427d4e7ac4e4103cdc620b76121ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:27 +0000
Subject: [PATCH 03/10] fix: do not inline expressions that would make derived
 columns depend on themselves

---
 constraint-solver/src/inliner.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/constraint-solver/src/inliner.rs b/constraint-solver/src/inliner.rs
index fb06dcc..d5bda7f 100644
--- a/constraint-solver/src/inliner.rs
+++ b/constraint-solver/src/inliner.rs
@@ -38,7 +38,9 @@ pub fn replace_constrained_witness_columns<
             let constraint = &constraint_system.algebraic_constraints()[curr_idx];
 
             for (var, expr) in find_inlinable_variables(constraint) {
-                if should_inline(&var, &expr, &constraint_system) {
+                if should_inline(&var, &expr, &constraint_system)
+                    && derived_variables_stay_computable(&var, &expr, &constraint_system)
+                {
                     log::trace!("Substituting {var} = {expr}");
                     log::trace!("  (from identity {constraint})");
 
@@ -111,6 +113,30 @@ pub fn substitution_would_not_violate_degree_bound<T: FieldElement, V: Ord + Clo
         })
 }
 
+/// Returns true if after substituting `var` by `expr`, the computation methods of the derived
+/// variables still only refer to derived variables that are computed before them.
+/// In particular, no derived variable ends up being defined in terms of itself.
+fn derived_variables_stay_computable<T: FieldElement, V: Ord + Clone + Hash + Eq>(
+    var: &V,
+    expr: &GroupedExpression<T, V>,
+    constraint_system: &IndexedConstraintSystem<T, V>,
+) -> bool {
+    !constraint_system
+        .system()
+        .derived_variables
+        .iter()
+        .skip_while(|derived| {
+            !derived
+                .computation_method
+                .referenced_unknown_variables()
+                .contains(var)
+        })
+        .any(|derived| {
+            expr.referenced_unknown_variables()
+                .contains(&derived.variable)
+        })
+}
+
 /// Returns substitutions of variables that appear linearly and do not depend on themselves.
 fn find_inlinable_variables<T: FieldElement, V: Ord + Clone + Hash + Eq + Display>(
     constraint: &AlgebraicConstraint<GroupedExpression<T, V>>,
-- 
2.43.0


From 7ffa055c2feedc08f7273bd5f40c90adfea7544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:01 +0000
Subject: [PATCH 04/10] fix: only remove lookups via a free variable if they
 are always active

---
 autoprecompiles/src/constraint_optimizer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/autoprecompiles/src/constraint_optimizer.rs b/autoprecompiles/src/constraint_optimizer.rs
index 1b36c21..6ae1d46 100644
--- a/autoprecompiles/src/constraint_optimizer.rs
+++ b/autoprecompiles/src/constraint_optimizer.rs
@@ -322,8 +322,14 @@ fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
                 // Only stateless bus interactions can be removed.
                 let is_stateless = !bus_interaction_handler.is_stateful(bus_id);
                 // TODO: This is overly strict.
-                // We assume that the bus interaction is satisfiable. Given that it is, there
-                // will be at least one assignment of the payload fields that satisfies it.
+                // If the interaction always takes place, we can assume that it is satisfiable.
+                // Otherwise, it might be what forces the multiplicity to be zero.
+                let always_active = bus_interaction
+                    .multiplicity
+                    .try_to_number()
+                    .is_some_and(|m| !m.is_zero());
+                // Given that it is satisfiable, there will be at least one assignment of the
+                // payload fields that satisfies it.
                 // If the prover has the freedom to choose each payload field, it can always find
                 // a satisfying assignment.
                 // This could be generalized to multiple unknown fields, but it would be more complicated,
@@ -346,7 +352,10 @@ fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
                             .try_solve_for(variable)
                             .is_some()
                     });
-                is_stateless && has_one_unknown_field && can_solve_for_unknown_field
+                is_stateless
+                    && always_active
+                    && has_one_unknown_field
+                    && can_solve_for_unknown_field
             }
         })
         .map(|(variable, _constraint)| variable.clone())
-- 
2.43.0


From 30c606db4a8f01ff1b10a20739ec9a0f6d1da6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:32 +0000
Subject: [PATCH 05/10] fix: keep column indices when filtering empirical
 constraints repeatedly

---
 autoprecompiles/src/empirical_constraints.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/autoprecompiles/src/empirical_constraints.rs b/autoprecompiles/src/empirical_constraints.rs
index 7fc8d54..8526a03 100644
--- a/autoprecompiles/src/empirical_constraints.rs
+++ b/autoprecompiles/src/empirical_constraints.rs
@@ -183,13 +183,11 @@ impl BlockEmpiricalConstraints {
                     .collect_vec();
                 let ranges = ranges
                     .into_iter()
-                    .enumerate()
-                    .filter_map(|(col_idx, range)| {
+                    .filter(|(col_idx, _)| {
                         // check that the predicate holds in all matching instructions
                         pc_instruction_indices
                             .iter()
-                            .all(|idx| predicate(&BlockCell::new(*idx, col_idx)))
-                            .then_some(range)
+                            .all(|idx| predicate(&BlockCell::new(*idx, *col_idx)))
                     })
                     .collect();
                 (pc, ranges)
-- 
2.43.0


From 34b19da9b3b31e426f77a49c82f5e925d72da6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:53 +0000
Subject: [PATCH 06/10] fix: read back exported precompiles that have
 optimistic constraints

JSON writes the step keys of OptimisticConstraints as strings. Inside the
flattened ApcWithBusMap, serde buffers them as strings and does not convert
them back to integers, so such an export could not be deserialized.
---
 autoprecompiles/src/execution/evaluator.rs | 25 +++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/autoprecompiles/src/execution/evaluator.rs b/autoprecompiles/src/execution/evaluator.rs
index c4b6d01..b4b1a42 100644
--- a/autoprecompiles/src/execution/evaluator.rs
+++ b/autoprecompiles/src/execution/evaluator.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use itertools::Itertools;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 use crate::{
     execution::{
@@ -15,13 +15,36 @@ use crate::{
 
 /// A collection of optimistic constraints over the intermediate execution states of a block, to be accessed in chronological order
 #[derive(Debug, Serialize, Deserialize, deepsize2::DeepSizeOf, PartialEq, Clone, Default)]
+#[serde(bound(deserialize = "A: Deserialize<'de>, V: Deserialize<'de>"))]
 pub struct OptimisticConstraints<A, V> {
     /// For each step, the execution values we need to remember for future constraints, excluding this step
+    #[serde(deserialize_with = "deserialize_by_step")]
     fetches_by_step: HashMap<usize, Vec<LocalFetch<A>>>,
     /// For each step, the constraints that must be satisfied
+    #[serde(deserialize_with = "deserialize_by_step")]
     constraints_to_check_by_step: HashMap<usize, Vec<OptimisticConstraint<A, V>>>,
 }
 
+/// Deserializes a map keyed by step. JSON represents the keys as strings, which serde does not
+/// convert back to integers if the map is inside a flattened struct (see `ApcWithBusMap`).
+fn deserialize_by_step<'de, D: Deserializer<'de>, T: Deserialize<'de>>(
+    deserializer: D,
+) -> Result<HashMap<usize, T>, D::Error> {
+    #[derive(Deserialize, PartialEq, Eq, Hash)]
+    #[serde(untagged)]
+    enum Step {
+        Index(usize),
+        Text(String),
+    }
+    HashMap::<Step, T>::deserialize(deserializer)?
+        .into_iter()
+        .map(|(step, value)| match step {
+            Step::Index(step) => Ok((step, value)),
+            Step::Text(step) => Ok((step.parse().map_err(serde::de::Error::custom)?, value)),
+        })
+        .collect()
+}
+
 impl<A, V> OptimisticConstraints<A, V> {
     pub fn empty() -> Self {
         Self {
-- 
2.43.0


From 403d383db4bc0a875a0522ee9bcfe3a001ed54c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:53 +0000
Subject: [PATCH 07/10] fix: reject non-canonical Goldilocks values when
 deserializing

The arithmetic relies on the stored value being less than the modulus, but the
derived implementation accepted any u64.
---
 number/src/goldilocks.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/number/src/goldilocks.rs b/number/src/goldilocks.rs
index 47a5259..9f72189 100644
--- a/number/src/goldilocks.rs
+++ b/number/src/goldilocks.rs
@@ -6,7 +6,7 @@ use ark_ff::{One, Zero};
 
 use num_traits::{ConstOne, ConstZero};
 use schemars::JsonSchema;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 use core::fmt::{self, Debug, Formatter};
 use core::hash::Hash;
@@ -37,7 +37,19 @@ const EPSILON: u64 = (1 << 32) - 1;
     derive_more::Display,
 )]
 #[repr(transparent)]
-pub struct GoldilocksField(u64);
+pub struct GoldilocksField(#[serde(deserialize_with = "deserialize_canonical")] u64);
+
+/// Deserializes a value and makes sure that it is less than the field modulus.
+fn deserialize_canonical<'de, D: Deserializer<'de>>(deserializer: D) -> Result<u64, D::Error> {
+    let value = u64::deserialize(deserializer)?;
+    if value < GoldilocksField::ORDER {
+        Ok(value)
+    } else {
+        Err(serde::de::Error::custom(format!(
+            "Value is not a canonical Goldilocks field element: {value}"
+        )))
+    }
+}
 
 impl GoldilocksField {
     const ORDER: u64 = 0xFFFFFFFF00000001;
-- 
2.43.0


From aa3e31ddd94213c1be1de3e96dfaada358ad07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:53 +0000
Subject: [PATCH 08/10] fix: reject trailing bytes when deserializing arkworks
 values

A value with additional bytes was read as its prefix.
---
 number/src/serialize.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/number/src/serialize.rs b/number/src/serialize.rs
index 4997902..9b71adc 100644
--- a/number/src/serialize.rs
+++ b/number/src/serialize.rs
@@ -134,8 +134,13 @@ where
     D: serde::de::Deserializer<'de>,
 {
     let s: Vec<u8> = serde_with::Bytes::deserialize_as(data)?;
-    let a = A::deserialize_with_mode(s.as_slice(), Compress::Yes, Validate::Yes);
-    a.map_err(serde::de::Error::custom)
+    let mut bytes = s.as_slice();
+    let a = A::deserialize_with_mode(&mut bytes, Compress::Yes, Validate::Yes)
+        .map_err(serde::de::Error::custom)?;
+    if !bytes.is_empty() {
+        return Err(serde::de::Error::custom("unexpected trailing bytes"));
+    }
+    Ok(a)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 073820adbffb69f552bd3f4ed58c1f1215c7e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:16 +0000
Subject: [PATCH 09/10] fix: resolve AUIPC+JALR pairs when collecting 64-bit
 jump destinations

The scan remembered the (absent) source register of AUIPC and compared it with
the destination of JALR, so no pair was ever resolved, and the target was taken
relative to the JALR instead of the AUIPC.
---
 riscv-elf/src/rv64.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/riscv-elf/src/rv64.rs b/riscv-elf/src/rv64.rs
index 1800866..7135de1 100644
--- a/riscv-elf/src/rv64.rs
+++ b/riscv-elf/src/rv64.rs
@@ -136,13 +136,13 @@ fn scan_for_jump_targets(
                 .decode(Isa::Rv64)
                 .expect("Failed to decode instruction")
         })
-        // Remember the `rs1` and `imm` of the previous instruction if it was AUIPC, used to propagate it to the next JALR
+        // Remember the `rd` and `imm` of the previous instruction if it was AUIPC, used to propagate it to the next JALR
         .scan(None, |previous_if_auipc, insn| {
-            let previous_auipc_rs1 = std::mem::replace(
+            let previous_auipc = std::mem::replace(
                 previous_if_auipc,
-                matches!(insn.opc, Op::AUIPC).then_some((insn.rs1, insn.imm)),
+                matches!(insn.opc, Op::AUIPC).then_some((insn.rd, insn.imm)),
             );
-            Some((insn, previous_auipc_rs1))
+            Some((insn, previous_auipc))
         })
         .enumerate()
         .for_each(|(instruction_index, (insn, previous_if_auipc))| {
@@ -205,13 +205,14 @@ fn scan_for_jump_targets(
                     }
                 }
                 Op::JALR => {
-                    if let Some((rs1, imm)) = previous_if_auipc {
+                    if let Some((auipc_rd, imm)) = previous_if_auipc {
                         // JALR with a preceding AUIPC
-                        if insn.rd == rs1 {
+                        if insn.rs1 == auipc_rd {
                             // This is an AUIPC+JALR pair, we can resolve it statically
                             if let (Some(auipc_imm), Some(jalr_imm)) = (imm, insn.imm) {
+                                // AUIPC adds to its own address, one instruction before the JALR
                                 let target =
-                                    (addr as i64 + auipc_imm as i64 + jalr_imm as i64) as u64;
+                                    (addr as i64 - 4 + auipc_imm as i64 + jalr_imm as i64) as u64;
                                 jumpdests.insert(target);
 
                                 // Track non-symbol jumpdests
-- 
2.43.0


From 1533715df96e1f5c4c4ab1c5060f7119ee6a14c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:16 +0000
Subject: [PATCH 10/10] fix: load a code address into the register the
 instruction pair sets

When the upper-immediate instruction and the addition use different registers,
the joined load-address put the address into the scratch register and never set
the one the program uses.
---
 riscv-elf/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riscv-elf/src/lib.rs b/riscv-elf/src/lib.rs
index dc177e3..961bf87 100644
--- a/riscv-elf/src/lib.rs
+++ b/riscv-elf/src/lib.rs
@@ -761,7 +761,7 @@ impl InstructionLifter<'_> {
         Some((
             op,
             HighLevelArgs {
-                rd: Some(rd_ui as u32),
+                rd: Some(rd_addi as u32),
                 imm,
                 ..Default::default()
             },
-- 
2.43.0

