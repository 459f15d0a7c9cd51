From 7bc304d0d3cd4900817e7d0b4b6e5f7b55151c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 01/73] fix: accumulate updated factor coefficients and keep
 the sign of storage outflows

Updating the coefficients of a non-constant factor row overwrote, rather than
added to, the coefficient of a column shared by several of the row's nodes, and
used the inflow's sign for the outgoing edges of a storage node. This differs
from how the same row is first created.
---
 pywr-core/src/solvers/builder.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index c5a04f2..971a0a0 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -92,33 +92,50 @@ where
             NodeType::Link => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_row_coefficient(row, column, factor)
                 }
             }
             NodeType::Input => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_row_coefficient(row, column, factor)
                 }
             }
             NodeType::Output => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_row_coefficient(row, column, factor)
                 }
             }
             NodeType::Storage => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_row_coefficient(row, column, factor)
                 }
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_row_coefficient(row, column, -factor)
                 }
             }
         }
     }
+
+    /// Add `value` to the new coefficient of `column` in `row`.
+    ///
+    /// A column can be shared by several nodes of the same row in which case, as with
+    /// [`RowBuilder::add_element`], the coefficients must be accumulated.
+    fn add_row_coefficient(&mut self, row: I, column: I, value: f64) {
+        match self
+            .coefficients_to_update
+            .iter_mut()
+            .rev()
+            .take_while(|(r, _, _)| *r == row)
+            .find(|(_, c, _)| *c == column)
+        {
+            Some((_, _, v)) => *v += value,
+            None => self.coefficients_to_update.push((row, column, value)),
+        }
+    }
 }
 
 /// Helper struct for constructing a `LP<I>`
-- 
2.43.0


From 94b3ffa62f576152ce5e5fe3707abaf261c481c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 02/73] fix: do not share solver rows whose coefficients are
 updated later

Rows with placeholder coefficients that happened to be identical when created
were merged into one row, so that all but the last of the constraints were lost.
---
 pywr-core/src/solvers/builder.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 971a0a0..2d6fd30 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -197,7 +197,7 @@ where
 
     /// Add a row to the LP or return an existing row number if the same row already exists.
     fn add_variable_row(&mut self, row: RowBuilder<I>) -> I {
-        match self.rows.iter().position(|r| r == &row) {
+        match self.rows.iter().position(|r| !r.unique && r == &row) {
             Some(row_id) => I::from(row_id).unwrap(),
             None => {
                 // No row found, add a new one
@@ -208,6 +208,16 @@ where
         }
     }
 
+    /// Add a row to the LP that is never shared with another constraint.
+    ///
+    /// This must be used for rows whose coefficients are updated later, because two such rows can be
+    /// identical now, but not once they are updated.
+    fn add_unique_variable_row(&mut self, row: RowBuilder<I>) -> I {
+        let row_id = self.num_variable_rows();
+        self.rows.push(RowBuilder { unique: true, ..row });
+        row_id
+    }
+
     /// Return the number of variable rows
     fn num_variable_rows(&self) -> I {
         I::from(self.rows.len()).unwrap()
@@ -265,6 +275,8 @@ struct RowBuilder<I> {
     lower: f64,
     upper: Option<f64>,
     columns: BTreeMap<I, f64>,
+    /// The coefficients of a unique row are updated later and it can not be shared.
+    unique: bool,
 }
 
 impl<I> Default for RowBuilder<I> {
@@ -273,6 +285,7 @@ impl<I> Default for RowBuilder<I> {
             lower: 0.0,
             upper: None,
             columns: BTreeMap::new(),
+            unique: false,
         }
     }
 }
@@ -900,7 +913,7 @@ where
                             row_ub.add_element(*col, 1.0);
                             row_lb.add_element(*col, -1.0);
 
-                            let row_id = self.builder.add_variable_row(row_ub);
+                            let row_id = self.builder.add_unique_variable_row(row_ub);
                             let row_type = NodeRowType::BinaryUpperBound { bin_col_id: *col };
 
                             row_ids.push(NodeRowId {
@@ -911,7 +924,7 @@ where
 
                             // We do not know the bounds yet, so we have to assume there is a possibility
                             // of a non-zero lower bound.
-                            let row_id = self.builder.add_variable_row(row_lb);
+                            let row_id = self.builder.add_unique_variable_row(row_lb);
                             let row_type = NodeRowType::BinaryLowerBound { bin_col_id: *col };
 
                             row_ids.push(NodeRowId {
@@ -999,7 +1012,7 @@ where
                         row_indices_for_agg_node.push(None)
                     } else {
                         // These rows will be updated with the correct ratio later
-                        let row_idx = self.builder.add_variable_row(row);
+                        let row_idx = self.builder.add_unique_variable_row(row);
                         row_indices_for_agg_node.push(Some(row_idx));
                     }
                 }
-- 
2.43.0


From 1dc7ab6ad2f251cf06e3d532587543646286464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 03/73] fix: keep the bounds of mutual exclusivity rows with
 non-constant flow limits

The bounds of these rows are reset every time-step but were not applied again.
Nodes with non-constant flow limits were therefore neither limited by their own
maximum and minimum flow nor by the exclusivity.
---
 pywr-core/src/solvers/builder.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 2d6fd30..25c4f32 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -530,14 +530,22 @@ where
                     self.builder.apply_row_bounds(row.row_id.to_usize().unwrap(), lb, ub);
                 }
                 NodeRowType::BinaryUpperBound { bin_col_id } => {
-                    // Update the coefficients for the binary column to be the upper bound
-                    // This row has the correct bounds already, so we just update the coefficients
-                    self.builder.coefficients_to_update.push((row.row_id, bin_col_id, ub));
+                    // Update the coefficients for the binary column to be the upper bound. The row's bounds
+                    // have been reset and need to be applied again.
+                    self.builder
+                        .coefficients_to_update
+                        .push((row.row_id, bin_col_id, ub.min(1e6)));
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, self.builder.f64_max);
                 }
                 NodeRowType::BinaryLowerBound { bin_col_id } => {
-                    // Update the coefficients for the binary column to be the lower bound
-                    // This row has the correct bounds already, so we just update the coefficients
-                    self.builder.coefficients_to_update.push((row.row_id, bin_col_id, -lb));
+                    // Update the coefficients for the binary column to be the lower bound. The row's bounds
+                    // have been reset and need to be applied again.
+                    self.builder
+                        .coefficients_to_update
+                        .push((row.row_id, bin_col_id, -lb));
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, self.builder.f64_max);
                 }
             }
         }
-- 
2.43.0


From 4b3e2f388e3e9d8cc6b4259e55f93eade0f9ffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 04/73] fix: update the right-hand side of coefficient
 constraints when only it is non-constant

With two constant coefficients and a non-constant right-hand side the row was
treated as fixed with a right-hand side of zero.
---
 pywr-core/src/aggregated_node.rs | 16 ++++++++--------
 pywr-core/src/solvers/builder.rs |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 3b51304..e8d18b0 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -312,11 +312,11 @@ impl<'a> NodeConstFactor<'a> {
 pub struct NodeConstFactorPair<'a> {
     node0: NodeConstFactor<'a>,
     node1: NodeConstFactor<'a>,
-    rhs: f64,
+    rhs: Option<f64>,
 }
 
 impl<'a> NodeConstFactorPair<'a> {
-    fn new(node0: NodeConstFactor<'a>, node1: NodeConstFactor<'a>, rhs: f64) -> Self {
+    fn new(node0: NodeConstFactor<'a>, node1: NodeConstFactor<'a>, rhs: Option<f64>) -> Self {
         Self { node0, node1, rhs }
     }
 
@@ -339,7 +339,7 @@ impl<'a> NodeConstFactorPair<'a> {
     }
 
     #[must_use]
-    pub fn rhs(&self) -> f64 {
+    pub fn rhs(&self) -> Option<f64> {
         self.rhs
     }
 }
@@ -833,7 +833,7 @@ fn get_const_norm_proportional_factor_pairs<'a>(
                 NodeConstFactorPair::new(
                     NodeConstFactor::new(n0, Some(1.0)),
                     NodeConstFactor::new(n1.as_slice(), None),
-                    0.0,
+                    Some(0.0),
                 )
             })
             .collect::<Vec<_>>()
@@ -857,7 +857,7 @@ fn get_const_norm_proportional_factor_pairs<'a>(
                 NodeConstFactorPair::new(
                     NodeConstFactor::new(n0, Some(1.0)),
                     NodeConstFactor::new(n1.as_slice(), f1.map(|v| -f0 / v)),
-                    0.0,
+                    Some(0.0),
                 )
             })
             .collect::<Vec<_>>()
@@ -980,7 +980,7 @@ fn get_const_norm_ratio_factor_pairs<'a>(
             Ok(NodeConstFactorPair::new(
                 NodeConstFactor::new(n0, Some(1.0)),
                 NodeConstFactor::new(n1.as_slice(), v1),
-                0.0,
+                Some(0.0),
             ))
         })
         .collect::<Result<Vec<_>, ConstantRatioFactorError>>()?;
@@ -1074,8 +1074,8 @@ fn get_const_coefficient_factor_pairs<'a>(
     let f1 = factors[1].try_get_constant_value(values)?;
 
     let rhs = match rhs {
-        Some(rhs) => rhs.try_get_constant_value(values)?.unwrap_or_default(),
-        None => 0.0,
+        Some(rhs) => rhs.try_get_constant_value(values)?,
+        None => Some(0.0),
     };
 
     Ok(vec![NodeConstFactorPair::new(
diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 25c4f32..feb3467 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -1011,11 +1011,11 @@ where
                     // Make the row fixed at RHS
                     let rhs = node_pair.rhs();
 
-                    row.set_lower(rhs);
-                    row.set_upper(rhs);
+                    row.set_lower(rhs.unwrap_or(0.0));
+                    row.set_upper(rhs.unwrap_or(0.0));
 
-                    // Row is fixed if we can compute the ratio now
-                    if f0.is_some() && f1.is_some() {
+                    // Row is fixed if we can compute the ratio and the RHS now
+                    if f0.is_some() && f1.is_some() && rhs.is_some() {
                         self.builder.add_fixed_row(row);
                         row_indices_for_agg_node.push(None)
                     } else {
-- 
2.43.0


From 15b38cb91a26a440c69376c118d46a342b67f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 05/73] fix: report invalid aggregated node factors instead of
 ignoring them

Invalid constant factors silently removed the constraint, invalid non-constant
factors caused a panic and zero factors, which are documented as not allowed,
gave non-finite coefficients.
---
 pywr-core/src/aggregated_node.rs | 13 ++++++++-----
 pywr-core/src/solvers/builder.rs | 20 +++++++++++++++-----
 pywr-core/src/solvers/mod.rs     | 14 ++++++++++++++
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index e8d18b0..15459c4 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -743,7 +743,7 @@ fn get_norm_proportional_factor_pairs<'a>(
         .iter()
         .map(|f| {
             let v = f.get_value(model, state)?;
-            if v < 0.0 {
+            if v <= 0.0 {
                 Err(ProportionalFactorError::NegativeOrZeroFactor { value: v })
             } else {
                 Ok(v)
@@ -809,7 +809,7 @@ fn get_const_norm_proportional_factor_pairs<'a>(
         .map(|f| {
             let v = f.try_get_constant_value(values)?;
             if let Some(v) = v {
-                if v < 0.0 {
+                if v <= 0.0 {
                     Err(ConstantProportionalFactorError::NegativeOrZeroFactor { value: v })
                 } else {
                     Ok(Some(v))
@@ -901,7 +901,7 @@ fn get_norm_ratio_factor_pairs<'a>(
 
     let n0 = nodes[0].as_slice();
     let f0 = factors[0].get_value(model, state)?;
-    if f0 < 0.0 {
+    if f0 <= 0.0 {
         return Err(RatioFactorError::NegativeOrZeroFactor { value: f0 });
     }
 
@@ -911,6 +911,9 @@ fn get_norm_ratio_factor_pairs<'a>(
         .skip(1)
         .map(|(n1, f1)| {
             let v1 = f1.get_value(model, state)?;
+            if v1 <= 0.0 {
+                return Err(RatioFactorError::NegativeOrZeroFactor { value: v1 });
+            }
 
             Ok(NodeFactorPair::new(
                 NodeFactor::new(n0, 1.0),
@@ -957,7 +960,7 @@ fn get_const_norm_ratio_factor_pairs<'a>(
     let f0 = factors[0].try_get_constant_value(values)?;
 
     if let Some(v0) = f0 {
-        if v0 < 0.0 {
+        if v0 <= 0.0 {
             return Err(ConstantRatioFactorError::NegativeOrZeroFactor { value: v0 });
         }
     }
@@ -970,7 +973,7 @@ fn get_const_norm_ratio_factor_pairs<'a>(
             let v1 = f1.try_get_constant_value(values)?;
 
             if let Some(v) = v1 {
-                if v < 0.0 {
+                if v <= 0.0 {
                     return Err(ConstantRatioFactorError::NegativeOrZeroFactor { value: v });
                 }
             }
diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index feb3467..e69d762 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -565,7 +565,12 @@ where
                 .ok_or(SolverSolveError::AggregatedNodeIndexNotFound(agg_node_row.agg_node_idx))?;
 
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_norm_factor_pairs(network, state) {
+            if let Some(node_pairs) = agg_node.get_norm_factor_pairs(network, state) {
+                let node_pairs = node_pairs.map_err(|source| SolverSolveError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
                 assert_eq!(
                     agg_node_row.row_indices.len(),
                     node_pairs.len(),
@@ -699,7 +704,7 @@ where
         // Create the aggregated node constraints
         let agg_node_constraint_row_ids = self.create_aggregated_node_constraints(network);
         // Create the aggregated node factor constraints
-        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values);
+        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values)?;
         // Create virtual storage constraints
         let virtual_storage_constraint_row_ids = self.create_virtual_storage_constraints(network);
         // Create mutual exclusivity constraints
@@ -978,12 +983,17 @@ where
         &mut self,
         network: &Network,
         values: &ConstParameterValues,
-    ) -> Vec<AggNodeFactorRow<I>> {
+    ) -> Result<Vec<AggNodeFactorRow<I>>, SolverSetupError> {
         let mut row_ids = Vec::new();
 
         for agg_node in network.aggregated_nodes() {
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_const_norm_factor_pairs(values) {
+            if let Some(node_pairs) = agg_node.get_const_norm_factor_pairs(values) {
+                let node_pairs = node_pairs.map_err(|source| SolverSetupError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
                 let mut row_indices_for_agg_node = Vec::with_capacity(node_pairs.len());
 
                 for node_pair in node_pairs {
@@ -1032,7 +1042,7 @@ where
             }
         }
 
-        row_ids
+        Ok(row_ids)
     }
 
     /// Create aggregated node constraints
diff --git a/pywr-core/src/solvers/mod.rs b/pywr-core/src/solvers/mod.rs
index 82792e7..9fb622e 100644
--- a/pywr-core/src/solvers/mod.rs
+++ b/pywr-core/src/solvers/mod.rs
@@ -119,6 +119,13 @@ pub enum SolverSetupError {
     NoEdgesDefined,
     #[error("Node index not found: {0}")]
     NodeIndexNotFound(NodeIndex),
+    #[error("Aggregated node `{name}` and sub-name `{}` error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::ConstantFactorError,
+    },
     #[cfg(feature = "highs")]
     #[error("Highs error: {0}")]
     HighsError(#[from] highs::HighsStatusError),
@@ -150,6 +157,13 @@ pub enum SolverSolveError {
         #[source]
         source: crate::aggregated_node::AggregatedNodeError,
     },
+    #[error("Aggregated node `{name}` and sub-name `{}` error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::FactorError,
+    },
     #[error("Virtual storage error: {0}")]
     VirtualStorageError(#[from] crate::virtual_storage::VirtualStorageError),
     #[error("Node index not found: {0}")]
-- 
2.43.0


From 3baf425dc0b59ca66f000aa44bb5663536b33391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 06/73] fix: return an error from MicroLP when a row's bounds
 are infeasible

A minimum greater than the maximum caused a panic; other solvers return an error.
---
 pywr-core/src/solvers/microlp/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pywr-core/src/solvers/microlp/mod.rs b/pywr-core/src/solvers/microlp/mod.rs
index 85acf22..cc32911 100644
--- a/pywr-core/src/solvers/microlp/mod.rs
+++ b/pywr-core/src/solvers/microlp/mod.rs
@@ -14,6 +14,8 @@ use thiserror::Error;
 pub enum MicroLpError {
     #[error("MicroLp solver error: {0}")]
     SolveError(#[from] microlp::Error),
+    #[error("Problem is infeasible: lower bound ({lower}) of row {row} is greater than its upper bound ({upper})")]
+    InfeasibleRowBounds { row: usize, lower: f64, upper: f64 },
     #[error("MicroLp solver was interrupted: {reason:?}")]
     Interrupted { reason: microlp::TerminationReason },
 }
@@ -23,7 +25,7 @@ pub struct MicroLpSolver {
 }
 
 impl MicroLpSolver {
-    pub fn make_problem(&self) -> Problem {
+    pub fn make_problem(&self) -> Result<Problem, MicroLpError> {
         let mut problem = Problem::new(OptimizationDirection::Minimize);
 
         let variables: Vec<_> = self
@@ -66,7 +68,13 @@ impl MicroLpSolver {
                 // If the bounds are equal we can just add a single equality constraint
                 problem.add_constraint(expr.clone(), ComparisonOp::Eq, row_lower);
             } else {
-                assert!(row_lower < row_upper, "Row lower bound must be less than upper bound");
+                if row_lower > row_upper {
+                    return Err(MicroLpError::InfeasibleRowBounds {
+                        row,
+                        lower: row_lower,
+                        upper: row_upper,
+                    });
+                }
                 // Otherwise add two rows for each constraint (>= and <=)
                 problem.add_constraint(expr.clone(), ComparisonOp::Ge, row_lower);
 
@@ -76,7 +84,7 @@ impl MicroLpSolver {
             }
         }
 
-        problem
+        Ok(problem)
     }
 }
 
@@ -122,7 +130,7 @@ impl Solver for MicroLpSolver {
         self.builder.apply_updated_coefficients();
 
         let now = Instant::now();
-        let problem = self.make_problem();
+        let problem = self.make_problem()?;
         timings.update_constraints += now.elapsed();
 
         let now = Instant::now();
-- 
2.43.0


From 66f6e76301600587485db77e82e4cdba06253a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 07/73] fix: create mutual exclusivity columns in a repeatable
 order

The columns were created in the random order of a hash set, so that the selected
optimum could differ between runs of the same model.
---
 pywr-core/src/solvers/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index e69d762..94e06ae 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -4,7 +4,7 @@ use crate::solvers::col_edge_map::{ColumnEdgeMap, ColumnEdgeMapBuilder};
 use crate::solvers::{SolverSetupError, SolverSolveError, SolverTimings};
 use crate::state::{ConstParameterValues, State};
 use crate::timestep::Timestep;
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt::Debug;
 use std::time::Instant;
 
@@ -768,7 +768,8 @@ where
         // We only want to create one binary variable for each unique set of nodes. For the
         // majority of cases the nodes will only be in one set. However, if a node is in different
         // sets then we need to create separate binary variables and associated them with that node.
-        let mut node_sets_in_a_mutual_exclusivity = HashSet::new();
+        // The set is ordered so that the columns are always created in the same order.
+        let mut node_sets_in_a_mutual_exclusivity = BTreeSet::new();
         for agg_node in network.aggregated_nodes() {
             if agg_node.has_exclusivity() {
                 for node_set in agg_node.iter_nodes() {
-- 
2.43.0


From cd4b46fd522dd00f765c5aac221f9d4bf71f4780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 08/73] fix: return an error for a timestep frequency that
 cannot be parsed

---
 pywr-core/src/timestep.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/timestep.rs b/pywr-core/src/timestep.rs
index 3f61d08..ff14150 100644
--- a/pywr-core/src/timestep.rs
+++ b/pywr-core/src/timestep.rs
@@ -315,7 +315,8 @@ impl TimeDomainBuilder {
     ///
     /// Valid frequency strings are those that can be parsed by `polars::time::Duration::parse`. See: [https://docs.rs/polars-time/latest/polars_time/struct.Duration.html#method.parse]
     fn generate_timesteps_from_frequency(&self, frequency: &str) -> Result<Vec<Timestep>, TimeDomainBuilderError> {
-        let duration = polars::time::Duration::parse(frequency);
+        let duration = polars::time::Duration::try_parse(frequency)
+            .map_err(|_| TimeDomainBuilderError::GenerationError(frequency.to_string()))?;
 
         if duration.negative() || duration.is_zero() {
             return Err(TimeDomainBuilderError::NonPositiveTimestepDuration);
-- 
2.43.0


From 6dbf2fc95dc1f8c6088e2b53758671081be474d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 09/73] fix: reject out-of-range scenario subset indices,
 malformed combinations and empty groups

---
 pywr-core/src/scenario.rs | 54 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/pywr-core/src/scenario.rs b/pywr-core/src/scenario.rs
index 862aa8b..8262e8f 100644
--- a/pywr-core/src/scenario.rs
+++ b/pywr-core/src/scenario.rs
@@ -28,6 +28,12 @@ pub enum ScenarioDomainBuilderError {
         start: usize,
         end: usize,
     },
+    #[error("Scenario group `{0}` has no scenarios; its size must be greater than 0")]
+    EmptyGroup(String),
+    #[error("Index {index} is out of range for scenario group `{group}` with size {size}")]
+    IndexOutOfRange { group: String, size: usize, index: usize },
+    #[error("Incorrect number of entries in scenario combination; found {found}, expected {expected}")]
+    IncorrectCombinationLength { found: usize, expected: usize },
 }
 
 /// A subset of a scenario group to run, either defined as a slice or as specific indices.
@@ -102,6 +108,19 @@ impl ScenarioGroup {
             }),
         }
     }
+
+    /// Check that an index is within the group, and return it.
+    fn valid_index(&self, index: usize) -> Result<usize, ScenarioDomainBuilderError> {
+        if index < self.size {
+            Ok(index)
+        } else {
+            Err(ScenarioDomainBuilderError::IndexOutOfRange {
+                group: self.name.clone(),
+                size: self.size,
+                index,
+            })
+        }
+    }
 }
 
 /// A builder for defining a subset of scenarios to run for a scenario group.
@@ -174,11 +193,17 @@ impl ScenarioGroupBuilder {
     ///
     /// # Errors
     ///
+    /// - [`ScenarioDomainBuilderError::EmptyGroup`] if the size is 0
     /// - [`ScenarioDomainBuilderError::InvalidSlice`] if the slice is invalid (e.g. start >= end or end > size)
+    /// - [`ScenarioDomainBuilderError::IndexOutOfRange`] if an index of the subset is not less than the size
     /// - [`ScenarioDomainBuilderError::NoLabels`] if a label subset is defined but no labels are provided
     /// - [`ScenarioDomainBuilderError::LabelNotFound`] if a label in the subset is not found in the labels for the group
     /// - [`ScenarioDomainBuilderError::IncorrectNumberOfLabels`] if the number of labels provided does not match the group size
     pub fn build(self) -> Result<ScenarioGroup, ScenarioDomainBuilderError> {
+        if self.size == 0 {
+            return Err(ScenarioDomainBuilderError::EmptyGroup(self.name));
+        }
+
         let subset = match self.subset {
             Some(ScenarioGroupSubsetBuilder::Slice { start, end }) => {
                 if start >= end || end > self.size {
@@ -192,7 +217,17 @@ impl ScenarioGroupBuilder {
 
                 Some(ScenarioGroupSubset::Slice { start, end })
             }
-            Some(ScenarioGroupSubsetBuilder::Indices(indices)) => Some(ScenarioGroupSubset::Indices(indices)),
+            Some(ScenarioGroupSubsetBuilder::Indices(indices)) => {
+                if let Some(&index) = indices.iter().find(|&&i| i >= self.size) {
+                    return Err(ScenarioDomainBuilderError::IndexOutOfRange {
+                        group: self.name,
+                        size: self.size,
+                        index,
+                    });
+                }
+
+                Some(ScenarioGroupSubset::Indices(indices))
+            }
             Some(ScenarioGroupSubsetBuilder::Labels(subset_labels)) => {
                 if let Some(labels) = &self.labels {
                     let indices: Vec<usize> = subset_labels
@@ -376,13 +411,18 @@ impl ScenarioDomainBuilder {
     /// Other [`ScenarioDomainBuilderError`] variants may be returned from the group builders if the groups are
     /// not valid (e.g. invalid slices or labels).
     ///
-    /// # Panics
-    ///
-    /// This will panic if the combinations are defined and contain labels that are not found in the
-    /// corresponding group labels, or if the number of labels does not match the group size.
-    /// However, these cases should be caught by the group builders when building the groups.
+    /// Each combination must have exactly one valid entry for each group.
     #[allow(clippy::too_many_lines)]
     pub fn build(self) -> Result<ScenarioDomain, ScenarioDomainBuilderError> {
+        for combination in self.combinations.iter().flatten() {
+            if combination.len() != self.groups.len() {
+                return Err(ScenarioDomainBuilderError::IncorrectCombinationLength {
+                    found: combination.len(),
+                    expected: self.groups.len(),
+                });
+            }
+        }
+
         let (indices, groups, scenario_map) = if self.groups.is_empty() {
             // Default to a single scenario if no groups are defined.
             (
@@ -409,7 +449,7 @@ impl ScenarioDomainBuilder {
                             .zip(&self.groups)
                             .map(|(c, group)| match c {
                                 ScenarioLabelOrIndex::Label(label) => group.label_position(label),
-                                ScenarioLabelOrIndex::Index(index) => Ok(*index),
+                                ScenarioLabelOrIndex::Index(index) => group.valid_index(*index),
                             })
                             .collect::<Result<Vec<usize>, ScenarioDomainBuilderError>>()
                     })
-- 
2.43.0


From 454a9b7bc8b9e8b52a1b98ff7660bac3e256f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 10/73] fix: count the days since the last reset exactly in the
 uniform drawdown profile

---
 .../parameters/profiles/uniform_drawdown.rs   | 70 +++++++++----------
 1 file changed, 33 insertions(+), 37 deletions(-)

diff --git a/pywr-core/src/parameters/profiles/uniform_drawdown.rs b/pywr-core/src/parameters/profiles/uniform_drawdown.rs
index 6948a9a..e52fed7 100644
--- a/pywr-core/src/parameters/profiles/uniform_drawdown.rs
+++ b/pywr-core/src/parameters/profiles/uniform_drawdown.rs
@@ -6,15 +6,22 @@ use crate::parameters::{
 };
 use jiff::civil::Date;
 
-fn is_leap_year(year: i16) -> bool {
-    (year % 4 == 0) & ((year % 100 != 0) | (year % 400 == 0))
+/// The date of the reset in the given year.
+///
+/// A reset on the 29th February takes place on the 1st March in years that are not leap years.
+fn reset_date(year: i16, month: i8, day: i8) -> Option<Date> {
+    match Date::new(year, month, day) {
+        Ok(date) => Some(date),
+        Err(_) => Date::new(year, month + 1, 1).ok(),
+    }
 }
 
 #[derive(Debug)]
 pub struct UniformDrawdownProfileParameter {
     meta: ParameterMeta,
     residual_days: u8,
-    reset_doy: i16,
+    reset_day: i8,
+    reset_month: i8,
 }
 
 impl Parameter for UniformDrawdownProfileParameter {
@@ -28,34 +35,24 @@ impl SimpleParameter<f64> for UniformDrawdownProfileParameter {
         ctx: SimpleParameterContext<'_>,
         _internal_state: &mut Option<Box<dyn ParameterState>>,
     ) -> Result<f64, SimpleCalculationError> {
-        // Current calendar year (might be adjusted depending on position of reset day)
-        let mut year = ctx.timestep.date.year();
-
-        // Current day of the year.
-        let current_doy = ctx.timestep.day_of_year_index() + 1;
-        let mut days_into_period: i32 = current_doy as i32 - self.reset_doy as i32;
-        if days_into_period < 0 {
-            // We're not past the reset day yet; use the previous year
-            year -= 1
-        }
-
-        if self.reset_doy > 60 {
-            year += 1
-        }
+        let date = ctx.timestep.date.date();
+        let year = date.year();
+        let reset_in = |year| {
+            reset_date(year, self.reset_month, self.reset_day).ok_or_else(|| SimpleCalculationError::Internal {
+                message: format!("No reset date for the uniform drawdown profile in year {year}."),
+            })
+        };
 
-        // Determine the number of days in the period based on whether there is a leap year
-        // or not in the current period
-        let total_days_in_period = if is_leap_year(year) { 366 } else { 365 };
+        // The current period starts with the most recent reset and ends with the following one.
+        let reset_this_year = reset_in(year)?;
+        let (start, end) = if date < reset_this_year {
+            (reset_in(year - 1)?, reset_this_year)
+        } else {
+            (reset_this_year, reset_in(year + 1)?)
+        };
 
-        // Now determine number of days we're into the period if it has wrapped around to a new year
-        if days_into_period < 0 {
-            days_into_period += 366;
-            // Need to adjust for post 29th Feb in non-leap years.
-            // Recall `current_doy` was incremented by 1 if it is a non-leap already (hence comparison to 60)
-            if !is_leap_year(ctx.timestep.date.year()) && current_doy > 60 {
-                days_into_period -= 1;
-            }
-        }
+        let days_into_period = date.duration_since(start).as_secs() / 86400;
+        let total_days_in_period = end.duration_since(start).as_secs() / 86400;
 
         let residual_proportion = self.residual_days as f64 / total_days_in_period as f64;
         let slope = (residual_proportion - 1.0) / total_days_in_period as f64;
@@ -103,18 +100,17 @@ impl ParameterBuilder<f64> for UniformDrawdownProfileParameterBuilder {
         self: Box<Self>,
         _resolution_maps: &ResolutionMaps,
     ) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
-        // Calculate the reset day of year in a known leap year.
-        let reset_doy = Date::new(2016, self.reset_month, self.reset_day)
-            .map_err(|_| ParameterBuildError::InvalidDayOfYear {
-                day: self.reset_day,
-                month: self.reset_month,
-            })?
-            .day_of_year();
+        // Check the reset day exists using a known leap year.
+        Date::new(2016, self.reset_month, self.reset_day).map_err(|_| ParameterBuildError::InvalidDayOfYear {
+            day: self.reset_day,
+            month: self.reset_month,
+        })?;
 
         let p = UniformDrawdownProfileParameter {
             meta: self.meta,
             residual_days: self.residual_days,
-            reset_doy,
+            reset_day: self.reset_day,
+            reset_month: self.reset_month,
         };
 
         Ok(BuiltParameter::Simple(Box::new(p)).into())
-- 
2.43.0


From bb19226c5713cb1a95ed45671c4a67b38803866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 11/73] fix: evaluate the thin plate spline at zero distance

---
 pywr-core/src/parameters/profiles/rbf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/parameters/profiles/rbf.rs b/pywr-core/src/parameters/profiles/rbf.rs
index 6d76a6f..80b8881 100644
--- a/pywr-core/src/parameters/profiles/rbf.rs
+++ b/pywr-core/src/parameters/profiles/rbf.rs
@@ -305,7 +305,10 @@ impl RadialBasisFunction {
             RadialBasisFunction::Linear => r,
             RadialBasisFunction::Cubic => r.powi(3),
             RadialBasisFunction::Quintic => r.powi(5),
-            RadialBasisFunction::ThinPlateSpline => r.powi(2) * r.ln(),
+            RadialBasisFunction::ThinPlateSpline => {
+                // The limit of r^2 ln(r) is zero as r approaches zero.
+                if r == 0.0 { 0.0 } else { r.powi(2) * r.ln() }
+            }
             RadialBasisFunction::Gaussian { epsilon } => (-(epsilon * r).powi(2)).exp(),
             RadialBasisFunction::MultiQuadric { epsilon } => (1.0 + (epsilon * r).powi(2)).sqrt(),
             RadialBasisFunction::InverseMultiQuadric { epsilon } => (1.0 + (epsilon * r).powi(2)).powf(-0.5),
-- 
2.43.0


From 78e4d26f6128486dbdd9ad558dfe7c5247344ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 12/73] fix: interpolate towards the next month during the last
 day of a month

---
 pywr-core/src/parameters/profiles/monthly.rs | 33 ++++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pywr-core/src/parameters/profiles/monthly.rs b/pywr-core/src/parameters/profiles/monthly.rs
index 594c552..3f64f53 100644
--- a/pywr-core/src/parameters/profiles/monthly.rs
+++ b/pywr-core/src/parameters/profiles/monthly.rs
@@ -75,12 +75,33 @@ impl SimpleParameter<f64> for MonthlyProfileParameter {
                     interpolate_first(&ctx.timestep.date, first_value, last_value)
                 }
                 MonthlyInterpDay::Last => {
-                    let current_month = ctx.timestep.date.month();
-                    let last_month = if current_month == 1 { 12 } else { current_month - 1 };
-                    let first_value = self.values[last_month as usize - 1];
-                    let last_value = self.values[ctx.timestep.date.month() as usize - 1];
-
-                    interpolate_last(&ctx.timestep.date, first_value, last_value)
+                    let date = &ctx.timestep.date;
+                    // The value of a month is reached at the start of its last day; from then on the
+                    // interpolation is towards the value of the next month.
+                    if *date >= date.last_of_month().start_of_day() {
+                        let current_month0 = date.month() as usize - 1;
+                        let first_value = self.values[current_month0];
+                        let last_value = self.values[(current_month0 + 1) % 12];
+                        let end_of_month = date.last_of_month().start_of_day();
+                        let end_of_next_month = date
+                            .first_of_month()
+                            .checked_add(1.months())
+                            .expect("Datetime overflowed!")
+                            .last_of_month()
+                            .start_of_day();
+
+                        let fraction = date.duration_since(end_of_month).as_secs_f64()
+                            / end_of_next_month.duration_since(end_of_month).as_secs_f64();
+
+                        first_value + (last_value - first_value) * fraction
+                    } else {
+                        let current_month = date.month();
+                        let last_month = if current_month == 1 { 12 } else { current_month - 1 };
+                        let first_value = self.values[last_month as usize - 1];
+                        let last_value = self.values[current_month as usize - 1];
+
+                        interpolate_last(date, first_value, last_value)
+                    }
                 }
             },
             None => self.values[ctx.timestep.date.month() as usize - 1],
-- 
2.43.0


From f19d2d97e4669a2fd4f4959a31a16beb9999d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 13/73] fix: reject out-of-range uniform drawdown settings
 instead of truncating them

---
 pywr-schema/src/parameters/profiles.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/parameters/profiles.rs b/pywr-schema/src/parameters/profiles.rs
index 0b91798..a7c9023 100644
--- a/pywr-schema/src/parameters/profiles.rs
+++ b/pywr-schema/src/parameters/profiles.rs
@@ -186,16 +186,30 @@ impl UniformDrawdownProfileParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
+        let out_of_range = |attr: &str, value: u64| SchemaError::LoadParameter {
+            name: self.meta.name.clone(),
+            error: format!("`{attr}` is out of range: {value}"),
+        };
+
         let reset_day = match &self.reset_day {
-            Some(v) => v.load(args.tables)? as i8,
+            Some(v) => {
+                let v = v.load(args.tables)?;
+                i8::try_from(v).map_err(|_| out_of_range("reset_day", v))?
+            }
             None => 1,
         };
         let reset_month = match &self.reset_month {
-            Some(v) => v.load(args.tables)? as i8,
+            Some(v) => {
+                let v = v.load(args.tables)?;
+                i8::try_from(v).map_err(|_| out_of_range("reset_month", v))?
+            }
             None => 1,
         };
         let residual_days = match &self.residual_days {
-            Some(v) => v.load(args.tables)? as u8,
+            Some(v) => {
+                let v = v.load(args.tables)?;
+                u8::try_from(v).map_err(|_| out_of_range("residual_days", v))?
+            }
             None => 0,
         };
 
-- 
2.43.0


From 8fb048ade5a0854566b3cd2beb284cc678c4383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 14/73] fix: require one value per band in control curve
 parameters

---
 pywr-core/src/parameters/control_curves/interpolated.rs | 9 +++++++++
 pywr-core/src/parameters/control_curves/piecewise.rs    | 9 +++++++++
 pywr-core/src/parameters/control_curves/simple.rs       | 9 +++++++++
 pywr-core/src/parameters/mod.rs                         | 6 ++++++
 4 files changed, 33 insertions(+)

diff --git a/pywr-core/src/parameters/control_curves/interpolated.rs b/pywr-core/src/parameters/control_curves/interpolated.rs
index f3ee208..6fc9b76 100644
--- a/pywr-core/src/parameters/control_curves/interpolated.rs
+++ b/pywr-core/src/parameters/control_curves/interpolated.rs
@@ -104,6 +104,15 @@ impl ParameterBuilder<f64> for ControlCurveInterpolatedParameterBuilder {
         self: Box<Self>,
         resolution_maps: &ResolutionMaps,
     ) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
+        // One value for each band: above each control curve, and below the last one.
+        if self.values.len() != self.control_curves.len() + 1 {
+            return Err(ParameterBuildError::IncorrectNumberOfValues {
+                attr: "values".to_string(),
+                expected: self.control_curves.len() + 1,
+                found: self.values.len(),
+            });
+        }
+
         // Phase is hardcoded to "before" for this parameter, as it only implements the `GeneralBeforeParameter` trait.
         let phase = MetricConsumerPhase::Before;
         let metric = resolve_metric_f64!(self, self.metric, resolution_maps, phase, "metric");
diff --git a/pywr-core/src/parameters/control_curves/piecewise.rs b/pywr-core/src/parameters/control_curves/piecewise.rs
index b27f9db..3b1bb0a 100644
--- a/pywr-core/src/parameters/control_curves/piecewise.rs
+++ b/pywr-core/src/parameters/control_curves/piecewise.rs
@@ -116,6 +116,15 @@ impl ParameterBuilder<f64> for PiecewiseInterpolatedParameterBuilder {
         self: Box<Self>,
         resolution_maps: &ResolutionMaps,
     ) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
+        // One value for each band: above each control curve, and below the last one.
+        if self.values.len() != self.control_curves.len() + 1 {
+            return Err(ParameterBuildError::IncorrectNumberOfValues {
+                attr: "values".to_string(),
+                expected: self.control_curves.len() + 1,
+                found: self.values.len(),
+            });
+        }
+
         // Phase is hardcoded to "before" for this parameter, as it only implements the `GeneralBeforeParameter` trait.
         let phase = MetricConsumerPhase::Before;
         let metric = resolve_metric_f64!(self, self.metric, resolution_maps, phase, "metric");
diff --git a/pywr-core/src/parameters/control_curves/simple.rs b/pywr-core/src/parameters/control_curves/simple.rs
index 85dba58..2e1cc64 100644
--- a/pywr-core/src/parameters/control_curves/simple.rs
+++ b/pywr-core/src/parameters/control_curves/simple.rs
@@ -107,6 +107,15 @@ impl ParameterBuilder<f64> for ControlCurveParameterBuilder {
         self: Box<Self>,
         resolution_maps: &ResolutionMaps,
     ) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
+        // One value for each band: above each control curve, and below the last one.
+        if self.values.len() != self.control_curves.len() + 1 {
+            return Err(ParameterBuildError::IncorrectNumberOfValues {
+                attr: "values".to_string(),
+                expected: self.control_curves.len() + 1,
+                found: self.values.len(),
+            });
+        }
+
         // Phase is hardcoded to "before" for this parameter, as it only implements the `GeneralBeforeParameter` trait.
         let phase = MetricConsumerPhase::Before;
         let metric = resolve_metric_f64!(self, self.metric, resolution_maps, phase, "metric");
diff --git a/pywr-core/src/parameters/mod.rs b/pywr-core/src/parameters/mod.rs
index 53d0a86..ba05e5d 100644
--- a/pywr-core/src/parameters/mod.rs
+++ b/pywr-core/src/parameters/mod.rs
@@ -894,6 +894,12 @@ pub enum ParameterBuildError {
     NoCalculationPhase { detail: String },
     #[error("Metric for `{attr}` attribute is unused. {message}")]
     UnusedMetric { attr: String, message: String },
+    #[error("Incorrect number of values for `{attr}`; expected: {expected}, found: {found}")]
+    IncorrectNumberOfValues {
+        attr: String,
+        expected: usize,
+        found: usize,
+    },
 }
 
 pub enum BuiltParameter<T> {
-- 
2.43.0


From c0ce75414229ef7d32eaeb59d8a2071dd6d59234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 15/73] fix: resolve local parameter references in all
 parameter types

---
 pywr-schema/src/parameters/asymmetric_switch.rs |  4 ++--
 pywr-schema/src/parameters/control_curves.rs    |  8 ++++----
 pywr-schema/src/parameters/core.rs              | 14 +++++++-------
 pywr-schema/src/parameters/delay.rs             |  4 ++--
 pywr-schema/src/parameters/discount_factor.rs   |  2 +-
 pywr-schema/src/parameters/hydropower.rs        | 10 +++++-----
 pywr-schema/src/parameters/indexed_array.rs     |  2 +-
 pywr-schema/src/parameters/interpolated.rs      |  6 +++---
 pywr-schema/src/parameters/offset.rs            |  2 +-
 pywr-schema/src/parameters/polynomial.rs        |  2 +-
 pywr-schema/src/parameters/python.rs            |  4 ++--
 pywr-schema/src/parameters/rolling.rs           |  4 ++--
 pywr-schema/src/parameters/thresholds.rs        | 10 +++++-----
 13 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/pywr-schema/src/parameters/asymmetric_switch.rs b/pywr-schema/src/parameters/asymmetric_switch.rs
index 135d786..5557523 100644
--- a/pywr-schema/src/parameters/asymmetric_switch.rs
+++ b/pywr-schema/src/parameters/asymmetric_switch.rs
@@ -29,8 +29,8 @@ impl AsymmetricSwitchIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let on_index_parameter = self.on_index_parameter.load(network, args, None)?;
-        let off_index_parameter = self.off_index_parameter.load(network, args, None)?;
+        let on_index_parameter = self.on_index_parameter.load(network, args, parent)?;
+        let off_index_parameter = self.off_index_parameter.load(network, args, parent)?;
 
         let p = pywr_core::parameters::AsymmetricSwitchIndexParameterBuilder::before(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index 5ac028f..a4c53c0 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -36,18 +36,18 @@ impl ControlCurveInterpolatedParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.storage_metric.load(network, args, None)?;
+        let metric = self.storage_metric.load(network, args, parent)?;
 
         let control_curves = self
             .control_curves
             .iter()
-            .map(|cc| cc.load(network, args, None))
+            .map(|cc| cc.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         let values = self
             .values
             .iter()
-            .map(|val| val.load(network, args, None))
+            .map(|val| val.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         let mut p = pywr_core::parameters::ControlCurveInterpolatedParameterBuilder::before(
@@ -273,7 +273,7 @@ impl ControlCurveParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.storage_metric.load(network, args, None)?;
+        let metric = self.storage_metric.load(network, args, parent)?;
 
         let mut builder = pywr_core::parameters::ControlCurveParameterBuilder::before(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/core.rs b/pywr-schema/src/parameters/core.rs
index 660ead6..9efa6d4 100644
--- a/pywr-schema/src/parameters/core.rs
+++ b/pywr-schema/src/parameters/core.rs
@@ -289,7 +289,7 @@ impl MaxParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let idx = self.parameter.load(network, args, None)?;
+        let idx = self.parameter.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::MaxParameterBuilder::new(
@@ -355,8 +355,8 @@ impl DivisionParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let n = self.numerator.load(network, args, None)?;
-        let d = self.denominator.load(network, args, None)?;
+        let n = self.numerator.load(network, args, parent)?;
+        let d = self.denominator.load(network, args, parent)?;
 
         let name = ParameterName::new(&self.meta.name, parent);
 
@@ -425,7 +425,7 @@ impl MinParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.parameter.load(network, args, None)?;
+        let metric = self.parameter.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::MinParameterBuilder::new(
@@ -476,7 +476,7 @@ impl NegativeParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.parameter.load(network, args, None)?;
+        let metric = self.parameter.load(network, args, parent)?;
 
         let p =
             pywr_core::parameters::NegativeParameterBuilder::new(ParameterName::new(&self.meta.name, parent), metric);
@@ -536,7 +536,7 @@ impl NegativeMaxParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::NegativeMaxParameterBuilder::new(
@@ -604,7 +604,7 @@ impl NegativeMinParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::NegativeMinParameterBuilder::new(
diff --git a/pywr-schema/src/parameters/delay.rs b/pywr-schema/src/parameters/delay.rs
index 7278898..5a01833 100644
--- a/pywr-schema/src/parameters/delay.rs
+++ b/pywr-schema/src/parameters/delay.rs
@@ -27,7 +27,7 @@ impl DelayParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::DelayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
@@ -59,7 +59,7 @@ impl DelayIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::DelayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
diff --git a/pywr-schema/src/parameters/discount_factor.rs b/pywr-schema/src/parameters/discount_factor.rs
index 85ddb85..50cff4f 100644
--- a/pywr-schema/src/parameters/discount_factor.rs
+++ b/pywr-schema/src/parameters/discount_factor.rs
@@ -29,7 +29,7 @@ impl DiscountFactorParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let discount_rate = self.discount_rate.load(network, args, None)?;
+        let discount_rate = self.discount_rate.load(network, args, parent)?;
         let p = pywr_core::parameters::DiscountFactorParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             discount_rate,
diff --git a/pywr-schema/src/parameters/hydropower.rs b/pywr-schema/src/parameters/hydropower.rs
index 9d7d1a9..5e0c798 100644
--- a/pywr-schema/src/parameters/hydropower.rs
+++ b/pywr-schema/src/parameters/hydropower.rs
@@ -90,26 +90,26 @@ impl HydropowerTargetParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let target = self.target.as_ref().map(|t| t.load(network, args, None)).transpose()?;
+        let target = self.target.as_ref().map(|t| t.load(network, args, parent)).transpose()?;
         let water_elevation = self
             .water_elevation
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let max_flow = self
             .max_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let min_flow = self
             .min_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let actual_flow = self
             .actual_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
 
         let turbine_data = HydropowerTargetData {
diff --git a/pywr-schema/src/parameters/indexed_array.rs b/pywr-schema/src/parameters/indexed_array.rs
index 0e064a5..bba1a79 100644
--- a/pywr-schema/src/parameters/indexed_array.rs
+++ b/pywr-schema/src/parameters/indexed_array.rs
@@ -29,7 +29,7 @@ impl IndexedArrayParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let index_parameter = self.index_parameter.load(network, args, None)?;
+        let index_parameter = self.index_parameter.load(network, args, parent)?;
 
         let mut builder = pywr_core::parameters::IndexedArrayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/interpolated.rs b/pywr-schema/src/parameters/interpolated.rs
index 0893c94..2951c96 100644
--- a/pywr-schema/src/parameters/interpolated.rs
+++ b/pywr-schema/src/parameters/interpolated.rs
@@ -40,7 +40,7 @@ impl InterpolatedParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let x = self.x.load(network, args, None)?;
+        let x = self.x.load(network, args, parent)?;
 
         // Sense check the points
         if self.xp.len() != self.fp.len() {
@@ -53,12 +53,12 @@ impl InterpolatedParameter {
         let xp = self
             .xp
             .iter()
-            .map(|p| p.load(network, args, None))
+            .map(|p| p.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
         let fp = self
             .fp
             .iter()
-            .map(|p| p.load(network, args, None))
+            .map(|p| p.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         let points = xp.into_iter().zip(fp).collect::<Vec<_>>();
diff --git a/pywr-schema/src/parameters/offset.rs b/pywr-schema/src/parameters/offset.rs
index 06c0474..d2262f8 100644
--- a/pywr-schema/src/parameters/offset.rs
+++ b/pywr-schema/src/parameters/offset.rs
@@ -49,7 +49,7 @@ impl OffsetParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let p = pywr_core::parameters::OffsetParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/polynomial.rs b/pywr-schema/src/parameters/polynomial.rs
index e7d8ee7..acc9f1b 100644
--- a/pywr-schema/src/parameters/polynomial.rs
+++ b/pywr-schema/src/parameters/polynomial.rs
@@ -32,7 +32,7 @@ impl Polynomial1DParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let mut builder = pywr_core::parameters::Polynomial1DParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/python.rs b/pywr-schema/src/parameters/python.rs
index 1f45a3d..d2948c4 100644
--- a/pywr-schema/src/parameters/python.rs
+++ b/pywr-schema/src/parameters/python.rs
@@ -236,7 +236,7 @@ impl PythonParameter {
         let metrics = match &self.metrics {
             Some(metrics) => metrics
                 .iter()
-                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, None)?)))
+                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, parent)?)))
                 .collect::<Result<HashMap<_, _>, SchemaError>>()?,
             None => HashMap::new(),
         };
@@ -244,7 +244,7 @@ impl PythonParameter {
         let indices = match &self.indices {
             Some(indices) => indices
                 .iter()
-                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, None)?)))
+                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, parent)?)))
                 .collect::<Result<HashMap<_, _>, SchemaError>>()?,
             None => HashMap::new(),
         };
diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index 7f7927c..04e025d 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -40,7 +40,7 @@ impl RollingParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::RollingParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
@@ -83,7 +83,7 @@ impl RollingIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::RollingParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index 52fdf90..38079f7 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -111,8 +111,8 @@ impl ThresholdParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
-        let threshold = self.threshold.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
+        let threshold = self.threshold.load(network, args, parent)?;
 
         // If the parameter has returned metrics, we need to create a sub-name for the threshold parameter
         // so that it can be distinguished from the indexed array parameter.
@@ -144,7 +144,7 @@ impl ThresholdParameter {
             );
 
             for v in values {
-                values_builder.metric(v.load(network, args, None)?);
+                values_builder.metric(v.load(network, args, parent)?);
             }
             network.parameters().f64(Box::new(values_builder));
         }
@@ -335,7 +335,7 @@ impl MultiThresholdParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let name = if self.returned_metrics.is_some() {
             ParameterName::new_with_subname(&self.meta.name, Some("threshold"), Some(&self.meta.name))
@@ -363,7 +363,7 @@ impl MultiThresholdParameter {
             );
 
             for v in values {
-                values_builder.metric(v.load(network, args, None)?);
+                values_builder.metric(v.load(network, args, parent)?);
             }
 
             network.parameters().f64(Box::new(values_builder));
-- 
2.43.0


From 6f102aa3ac6f413ab6a7582af115ca367fa7320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 16/73] fix: reject scenario arrays whose columns do not match
 the scenario group

---
 pywr-core/src/parameters/array.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pywr-core/src/parameters/array.rs b/pywr-core/src/parameters/array.rs
index 0c3339c..f95e1a3 100644
--- a/pywr-core/src/parameters/array.rs
+++ b/pywr-core/src/parameters/array.rs
@@ -290,6 +290,16 @@ impl ParameterBuilder<f64> for Array2ParameterBuilder<f64> {
     ) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
         let scenario_group_index = resolution_maps.domain.scenarios().group_index(&self.scenario_group)?;
 
+        // There must be one column for each scenario of the group.
+        let scenario_group_size = resolution_maps.domain.scenarios().group_size(&self.scenario_group)?;
+        if self.array.ncols() != scenario_group_size {
+            return Err(ParameterBuildError::ScenarioValuesLengthMismatch {
+                values: self.array.ncols(),
+                scenarios: scenario_group_size,
+                group: self.scenario_group.clone(),
+            });
+        }
+
         let mut array = self.array;
 
         // If there is a scenario subset then we can reduce the data to align with the scenarios
@@ -323,6 +333,16 @@ impl ParameterBuilder<u64> for Array2ParameterBuilder<u64> {
     ) -> Result<MaybeBuiltParameter<u64>, ParameterBuildError> {
         let scenario_group_index = resolution_maps.domain.scenarios().group_index(&self.scenario_group)?;
 
+        // There must be one column for each scenario of the group.
+        let scenario_group_size = resolution_maps.domain.scenarios().group_size(&self.scenario_group)?;
+        if self.array.ncols() != scenario_group_size {
+            return Err(ParameterBuildError::ScenarioValuesLengthMismatch {
+                values: self.array.ncols(),
+                scenarios: scenario_group_size,
+                group: self.scenario_group.clone(),
+            });
+        }
+
         let mut array = self.array;
 
         // If there is a scenario subset then we can reduce the data to align with the scenarios
-- 
2.43.0


From 3d11b5e9fc7fb0220463007c1e8e485bb21fc7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 17/73] fix: do not overflow on large array offsets

---
 pywr-core/src/parameters/array.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/parameters/array.rs b/pywr-core/src/parameters/array.rs
index f95e1a3..856acc4 100644
--- a/pywr-core/src/parameters/array.rs
+++ b/pywr-core/src/parameters/array.rs
@@ -23,7 +23,8 @@ impl<T> Array1Parameter<T> {
     fn timestep_index(&self, timestep: &Timestep) -> TimestepIndex {
         match self.timestep_offset {
             None => timestep.index,
-            Some(offset) => (timestep.index as i32 + offset)
+            Some(offset) => (timestep.index as i32)
+                .saturating_add(offset)
                 .max(0)
                 .min(self.array.len_of(Axis(0)) as i32 - 1) as usize,
         }
@@ -160,7 +161,8 @@ impl<T> Array2Parameter<T> {
     fn timestep_index(&self, timestep: &Timestep) -> TimestepIndex {
         match self.timestep_offset {
             None => timestep.index,
-            Some(offset) => (timestep.index as i32 + offset)
+            Some(offset) => (timestep.index as i32)
+                .saturating_add(offset)
                 .max(0)
                 .min(self.array.len_of(Axis(0)) as i32 - 1) as usize,
         }
-- 
2.43.0


From 729836c91285824610adc777a8f800ee0a3de098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 18/73] fix: give the offset parameter its internal state

---
 pywr-core/src/parameters/offset.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/parameters/offset.rs b/pywr-core/src/parameters/offset.rs
index f85d673..d84fbde 100644
--- a/pywr-core/src/parameters/offset.rs
+++ b/pywr-core/src/parameters/offset.rs
@@ -1,6 +1,6 @@
 use crate::metric::{MetricConsumerPhase, MetricF64, UnresolvedMetricF64};
 use crate::network::ResolutionMaps;
-use crate::parameters::errors::GeneralCalculationError;
+use crate::parameters::errors::{GeneralCalculationError, ParameterSetupError};
 use crate::parameters::{
     ActivationFunction, BuiltParameter, GeneralBeforeParameter, GeneralParameter, GeneralParameterContext,
     GeneralParameterEntry, MaybeBuiltParameter, Parameter, ParameterBuildError, ParameterBuilder, ParameterMeta,
@@ -8,6 +8,8 @@ use crate::parameters::{
     downcast_internal_state_mut, downcast_internal_state_ref, downcast_variable_config_ref,
 };
 use crate::resolve_metric_f64;
+use crate::scenario::ScenarioIndex;
+use crate::timestep::Timestep;
 
 #[derive(Debug)]
 pub struct OffsetParameter {
@@ -36,6 +38,15 @@ impl Parameter for OffsetParameter {
         &self.meta
     }
 
+    fn setup(
+        &self,
+        _timesteps: &[Timestep],
+        _scenario_index: &ScenarioIndex,
+    ) -> Result<Option<Box<dyn ParameterState>>, ParameterSetupError> {
+        let value: InternalValue = None;
+        Ok(Some(Box::new(value)))
+    }
+
     fn as_f64_variable(&self) -> Option<&dyn VariableParameter<f64>> {
         Some(self)
     }
-- 
2.43.0


From ac4a3336693f09ee7b00bba6631573c660e41e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 19/73] fix: require values at the full, curve and empty levels
 for interpolated control curves

---
 pywr-core/src/parameters/control_curves/interpolated.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr-core/src/parameters/control_curves/interpolated.rs b/pywr-core/src/parameters/control_curves/interpolated.rs
index 6fc9b76..6e14275 100644
--- a/pywr-core/src/parameters/control_curves/interpolated.rs
+++ b/pywr-core/src/parameters/control_curves/interpolated.rs
@@ -104,11 +104,11 @@ impl ParameterBuilder<f64> for ControlCurveInterpolatedParameterBuilder {
         self: Box<Self>,
         resolution_maps: &ResolutionMaps,
     ) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
-        // One value for each band: above each control curve, and below the last one.
-        if self.values.len() != self.control_curves.len() + 1 {
+        // One value for the full level, one at each control curve, and one for the empty level.
+        if self.values.len() != self.control_curves.len() + 2 {
             return Err(ParameterBuildError::IncorrectNumberOfValues {
                 attr: "values".to_string(),
-                expected: self.control_curves.len() + 1,
+                expected: self.control_curves.len() + 2,
                 found: self.values.len(),
             });
         }
-- 
2.43.0


From afbd312b83163b63474322b4f4c8b28d42b60297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 20/73] fix: reject repeated days in radial basis function
 profiles

---
 pywr-core/src/parameters/mod.rs          |  4 ++++
 pywr-core/src/parameters/profiles/rbf.rs | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/pywr-core/src/parameters/mod.rs b/pywr-core/src/parameters/mod.rs
index ba05e5d..c6eb8c3 100644
--- a/pywr-core/src/parameters/mod.rs
+++ b/pywr-core/src/parameters/mod.rs
@@ -900,6 +900,8 @@ pub enum ParameterBuildError {
         expected: usize,
         found: usize,
     },
+    #[error("Day {day} appears more than once in `{attr}`")]
+    DuplicateDay { attr: String, day: u32 },
 }
 
 pub enum BuiltParameter<T> {
@@ -1318,6 +1320,8 @@ impl From<ParameterIndex<MultiValue>> for ParameterType {
 pub enum VariableParameterError {
     #[error("Incorrect number of values provided for parameter. Expected {expected}, received {received}")]
     IncorrectNumberOfValues { expected: usize, received: usize },
+    #[error("Day {day} is given to more than one point")]
+    DuplicateDay { day: u32 },
 }
 
 /// A parameter that can be optimised.
diff --git a/pywr-core/src/parameters/profiles/rbf.rs b/pywr-core/src/parameters/profiles/rbf.rs
index 80b8881..e023b0a 100644
--- a/pywr-core/src/parameters/profiles/rbf.rs
+++ b/pywr-core/src/parameters/profiles/rbf.rs
@@ -8,6 +8,7 @@ use crate::parameters::{
 use crate::scenario::ScenarioIndex;
 use crate::timestep::Timestep;
 use nalgebra::DMatrix;
+use std::collections::HashSet;
 
 pub struct RbfProfileVariableConfig {
     days_of_year_range: Option<u32>,
@@ -232,6 +233,10 @@ impl VariableParameter<u32> for RbfProfileParameter {
         internal_state: &mut Option<Box<dyn ParameterState>>,
     ) -> Result<(), VariableParameterError> {
         if values.len() == self.points.len() {
+            if let Some(day) = find_duplicate_day(values.iter().copied()) {
+                return Err(VariableParameterError::DuplicateDay { day });
+            }
+
             let value = downcast_internal_state_mut::<RbfProfileInternalState>(internal_state);
 
             value.update_x(values.to_vec());
@@ -378,6 +383,14 @@ fn interpolate_rbf_profile(points: &[(u32, f64)], function: &RadialBasisFunction
     profile.try_into().unwrap()
 }
 
+/// Find a day that appears more than once. Days that are a whole number of (365 day) years apart are the same.
+///
+/// Repeated days make the interpolation system singular.
+fn find_duplicate_day(days: impl IntoIterator<Item = u32>) -> Option<u32> {
+    let mut seen = HashSet::new();
+    days.into_iter().find(|day| !seen.insert(day % 365))
+}
+
 #[derive(Debug)]
 pub struct RbfProfileParameterBuilder {
     meta: ParameterMeta,
@@ -404,6 +417,13 @@ impl ParameterBuilder<f64> for RbfProfileParameterBuilder {
         self: Box<Self>,
         _resolution_maps: &ResolutionMaps,
     ) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
+        if let Some(day) = find_duplicate_day(self.points.iter().map(|p| p.0)) {
+            return Err(ParameterBuildError::DuplicateDay {
+                attr: "points".to_string(),
+                day,
+            });
+        }
+
         let p = RbfProfileParameter {
             meta: self.meta,
             points: self.points,
-- 
2.43.0


From b3f6bd9f1125e21a01fcdbad4d1df691e1ba8ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 21/73] fix: return the volume used, not the flow, from virtual
 storage rolling windows

---
 pywr-core/src/state/mod.rs       | 38 ++++++++++++++++----------------
 pywr-core/src/virtual_storage.rs |  4 ++--
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/pywr-core/src/state/mod.rs b/pywr-core/src/state/mod.rs
index 7ea58c0..5fee256 100644
--- a/pywr-core/src/state/mod.rs
+++ b/pywr-core/src/state/mod.rs
@@ -83,38 +83,38 @@ impl NodeState {
     }
 }
 
-/// Stores the history of virtual storage flows.
+/// Stores the history of volumes used from a virtual storage.
 #[derive(Clone, Debug)]
 struct VirtualStorageHistory {
-    /// The flows are stored in a queue. The oldest flow is popped from the front of the queue
-    flows: VecDeque<f64>,
+    /// The volumes are stored in a queue. The oldest volume is popped from the front of the queue
+    volumes: VecDeque<f64>,
     /// The maximum size of the history.
     size: NonZeroUsize,
 }
 
 impl VirtualStorageHistory {
-    fn new(size: NonZeroUsize, initial_flow: f64) -> Self {
+    fn new(size: NonZeroUsize, initial_volume: f64) -> Self {
         Self {
-            flows: vec![initial_flow; size.get()].into(),
+            volumes: vec![initial_volume; size.get()].into(),
             size,
         }
     }
 
-    /// Reset the history to the initial flow.
-    fn reset(&mut self, initial_flow: f64) {
-        self.flows = vec![initial_flow; self.size.get()].into();
+    /// Reset the history so that each time-step in the window used `initial_volume`.
+    fn reset(&mut self, initial_volume: f64) {
+        self.volumes = vec![initial_volume; self.size.get()].into();
     }
 
-    /// Add new flow to the history.
-    fn add_flow(&mut self, flow: f64) {
-        self.flows.push_back(flow);
+    /// Add a new volume to the history.
+    fn add_volume(&mut self, volume: f64) {
+        self.volumes.push_back(volume);
     }
 
-    /// Pop the oldest flow from the history as long as the history is at least as long as the
+    /// Pop the oldest volume from the history as long as the history is at least as long as the
     /// maximum size. If the history is shorter than the maximum size then return zero.
-    fn pop_flow(&mut self) -> f64 {
-        if self.flows.len() >= self.size.get() {
-            self.flows
+    fn pop_volume(&mut self) -> f64 {
+        if self.volumes.len() >= self.size.get() {
+            self.volumes
                 .pop_front()
                 .expect("Size is non-zero therefore pop_front should succeed.")
         } else {
@@ -150,22 +150,22 @@ impl VirtualStorageState {
         self.last_reset = Some(*timestep);
     }
 
-    fn reset_history(&mut self, initial_flow: f64) {
+    fn reset_history(&mut self, initial_volume: f64) {
         if let Some(history) = self.history.as_mut() {
-            history.reset(initial_flow);
+            history.reset(initial_volume);
         }
     }
 
     fn recover_last_historical_flow(&mut self, timestep: &Timestep) {
         if let Some(history) = self.history.as_mut() {
-            self.storage.add_in_flow(history.pop_flow(), timestep);
+            self.storage.add_in_flow(history.pop_volume() / timestep.days(), timestep);
         }
     }
 
     fn add_out_flow(&mut self, flow: f64, timestep: &Timestep) {
         self.storage.add_out_flow(flow, timestep);
         if let Some(history) = self.history.as_mut() {
-            history.add_flow(flow);
+            history.add_volume(flow * timestep.days());
         }
     }
 
diff --git a/pywr-core/src/virtual_storage.rs b/pywr-core/src/virtual_storage.rs
index a14c674..45bc810 100644
--- a/pywr-core/src/virtual_storage.rs
+++ b/pywr-core/src/virtual_storage.rs
@@ -448,8 +448,8 @@ impl VirtualStorageNode {
             // Reset the rolling history if defined
             if let Some(window) = self.rolling_window {
                 // Initially the missing volume is distributed evenly across the window
-                let initial_flow = (max_volume - initial_volume) / window.get() as f64;
-                state.reset_virtual_storage_history(self.meta.index(), initial_flow)?;
+                let missing_volume = (max_volume - reset_volume) / window.get() as f64;
+                state.reset_virtual_storage_history(self.meta.index(), missing_volume)?;
             }
         }
         // Recover any historical flows from a rolling window
-- 
2.43.0


From 55a54384748c27c649b56fd416be3cb30e3adc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 22/73] fix: reset virtual storage on the first timestep on or
 after the reset date

---
 pywr-core/src/virtual_storage.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/virtual_storage.rs b/pywr-core/src/virtual_storage.rs
index 45bc810..912ab93 100644
--- a/pywr-core/src/virtual_storage.rs
+++ b/pywr-core/src/virtual_storage.rs
@@ -418,7 +418,17 @@ impl VirtualStorageNode {
             match self.reset {
                 VirtualStorageReset::Never => false,
                 VirtualStorageReset::DayOfYear { day, month } => {
-                    (timestep.date.day() == day) && (timestep.date.month() == month)
+                    // Reset on the first timestep on or after each occurrence of the reset date. The exact
+                    // date may fall between two timesteps, or be covered by several sub-daily timesteps.
+                    match state
+                        .get_network_state()
+                        .get_virtual_storage_last_reset(&self.index())?
+                    {
+                        Some(last_reset) => {
+                            reset_year(&timestep.date, day, month) > reset_year(&last_reset.date, day, month)
+                        }
+                        None => true,
+                    }
                 }
                 VirtualStorageReset::NumberOfMonths { months } => {
                     // Get the date when the virtual storage was last reset
@@ -501,6 +511,15 @@ fn months_since_last_reset(current: &DateTime, last_reset: &DateTime) -> i32 {
     (current.year() - last_reset.year()) as i32 * 12 + current.month() as i32 - last_reset.month() as i32
 }
 
+/// The year in which the most recent reset (on `day` of `month`) on or before `date` occurred.
+fn reset_year(date: &DateTime, day: i8, month: i8) -> i16 {
+    if (date.month(), date.day()) >= (month, day) {
+        date.year()
+    } else {
+        date.year() - 1
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::metric::UnresolvedMetricF64;
-- 
2.43.0


From 42bb888bc16382a98e29f833fc3b20aded26b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 23/73] fix: return errors from parallel and multi-scenario
 steps instead of panicking

---
 pywr-core/src/network.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/pywr-core/src/network.rs b/pywr-core/src/network.rs
index b8ead57..4ebbc03 100644
--- a/pywr-core/src/network.rs
+++ b/pywr-core/src/network.rs
@@ -841,14 +841,13 @@ impl Network {
                     // TODO clear the current parameter values state (i.e. set them all to zero).
 
                     let start_p_calc = Instant::now();
-                    self.compute_components(timestep, scenario_index, current_state, p_internal_state, None)
-                        .unwrap();
+                    self.compute_components(timestep, scenario_index, current_state, p_internal_state, None)?;
 
                     // State now contains updated parameter values BUT original network state
                     let mut parameter_calculation = start_p_calc.elapsed();
 
                     // Solve determines the new network state
-                    let solve_timings = solver.solve(self, timestep, current_state).unwrap();
+                    let solve_timings = solver.solve(self, timestep, current_state)?;
                     // State now contains updated parameter values AND updated network state
 
                     // Now run the "after" method on all components
@@ -860,18 +859,18 @@ impl Network {
                         p_internal_state,
                         ms_internal_state,
                         None,
-                    )
-                    .unwrap();
+                    )?;
 
                     parameter_calculation += start_p_after.elapsed();
 
-                    (parameter_calculation, solve_timings)
+                    Ok::<_, NetworkStepError>((parameter_calculation, solve_timings))
                 },
             )
             .collect();
 
-        // Add them all together
-        for (parameter_calculation, solve_timings) in step_times.into_iter() {
+        // Add them all together; the error of the first failing scenario (in order) is returned
+        for step_time in step_times {
+            let (parameter_calculation, solve_timings) = step_time?;
             timings.component_timings.total += parameter_calculation;
             timings.solve += solve_timings;
         }
@@ -901,21 +900,20 @@ impl Network {
                 // TODO clear the current parameter values state (i.e. set them all to zero).
 
                 let start_p_calc = Instant::now();
-                self.compute_components(timestep, scenario_index, current_state, p_internal_states, None)
-                    .unwrap();
+                self.compute_components(timestep, scenario_index, current_state, p_internal_states, None)?;
 
                 // State now contains updated parameter values BUT original network state
-                start_p_calc.elapsed()
+                Ok::<_, NetworkStepError>(start_p_calc.elapsed())
             })
             .collect();
 
-        for t in p_calc_timings.into_iter() {
-            timings.component_timings.total += t;
+        for t in p_calc_timings {
+            timings.component_timings.total += t?;
         }
 
         // Now solve all the LPs simultaneously
 
-        let solve_timings = solver.solve(self, timestep, &mut state.states).unwrap();
+        let solve_timings = solver.solve(self, timestep, &mut state.states)?;
         // State now contains updated parameter values AND updated network state
         timings.solve += solve_timings;
 
@@ -935,15 +933,14 @@ impl Network {
                         p_internal_states,
                         ms_internal_states,
                         None,
-                    )
-                    .unwrap();
-                    start_p_after.elapsed()
+                    )?;
+                    Ok::<_, NetworkStepError>(start_p_after.elapsed())
                 },
             )
             .collect();
 
-        for t in p_after_timings.into_iter() {
-            timings.component_timings.total += t;
+        for t in p_after_timings {
+            timings.component_timings.total += t?;
         }
 
         Ok(())
-- 
2.43.0


From d57f8f01f4550e26105c87df47cfa72c596b46b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 24/73] fix: keep the period a nested aggregator completes when
 finalising

When the final value of a child aggregator starts a new period of its parent
the parent's completed period was computed and then discarded.
---
 pywr-core/src/recorders/aggregator/mod.rs | 26 ++++++++++++++++-------
 pywr-core/src/recorders/csv.rs            | 23 ++++++++------------
 pywr-core/src/recorders/memory.rs         |  4 +---
 pywr-core/src/recorders/metric_set.rs     | 26 ++++++++++++++++++-----
 4 files changed, 49 insertions(+), 30 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index a0030ea..680b056 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -311,20 +311,30 @@ impl Aggregator {
     /// This will also compute the final aggregation value from the child aggregators if any exists.
     /// This includes aggregation calculations over partial or unfinished periods.
     pub fn finalise(&self, state: &mut AggregatorState) -> Option<PeriodValue<f64>> {
-        let final_child_value = match (&self.child, state.child.as_mut()) {
-            (Some(child), Some(child_state)) => child.finalise(child_state),
-            (None, None) => None,
+        self.finalise_all(state).pop()
+    }
+
+    /// Compute all the remaining aggregation values from the current state, in order.
+    ///
+    /// This is usually only the final value. However, if the final value of a child aggregator starts
+    /// a new period then this also includes the value of the period that it completes.
+    pub fn finalise_all(&self, state: &mut AggregatorState) -> Vec<PeriodValue<f64>> {
+        let final_child_values = match (&self.child, state.child.as_mut()) {
+            (Some(child), Some(child_state)) => child.finalise_all(child_state),
+            (None, None) => Vec::new(),
             (None, Some(_)) => panic!("Aggregator state contains a child state when none is expected."),
             (Some(_), None) => panic!("Aggregator state does not contain a child state when one is expected."),
         };
 
-        // If there is a final value from the child aggregator then process it
-        if let Some(final_child_value) = final_child_value {
-            let _ = self.agg.process_value(&mut state.state, final_child_value);
-        }
+        // If there are final values from the child aggregator then process them
+        let mut final_values: Vec<_> = final_child_values
+            .into_iter()
+            .filter_map(|value| self.agg.process_value(&mut state.state, value))
+            .collect();
 
         // Finally, compute the aggregation of the current state
-        self.agg.calc_aggregation(&state.state)
+        final_values.extend(self.agg.calc_aggregation(&state.state));
+        final_values
     }
 
     /// Create the initial default state for the aggregator.
diff --git a/pywr-core/src/recorders/csv.rs b/pywr-core/src/recorders/csv.rs
index 69fa4a1..f727798 100644
--- a/pywr-core/src/recorders/csv.rs
+++ b/pywr-core/src/recorders/csv.rs
@@ -42,7 +42,7 @@ struct Internal {
 
 impl CsvWideFmtOutput {
     fn write_values(&self, metric_set_states: &[Vec<MetricSetState>], internal: &mut Internal) -> Result<(), CsvError> {
-        let mut row = Vec::new();
+        let mut rows: Vec<Vec<String>> = Vec::new();
 
         // Iterate through all scenario's state
         for ms_scenario_states in metric_set_states.iter() {
@@ -53,23 +53,18 @@ impl CsvWideFmtOutput {
                         index: self.metric_set_idx,
                     })?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
-                let values = current_values
-                    .iter()
-                    .map(|v| format!("{:.2}", v.value))
-                    .collect::<Vec<_>>();
-
-                // If the row is empty, add the start time
-                if row.is_empty() {
-                    row.push(current_values.first().unwrap().start.to_string())
+            for (i, current_values) in metric_set_state.all_values().enumerate() {
+                // Start a new row with the start time
+                if rows.len() <= i {
+                    rows.push(current_values.iter().take(1).map(|v| v.start.to_string()).collect());
                 }
 
-                row.extend(values);
+                rows[i].extend(current_values.iter().map(|v| format!("{:.2}", v.value)));
             }
         }
 
-        // Only write
-        if row.len() > 1 {
+        // Only write rows with values
+        for row in rows.into_iter().filter(|row| row.len() > 1) {
             internal.writer.write_record(row).map_err(|source| CsvError::CSVError {
                 path: self.filename.clone(),
                 source,
@@ -263,7 +258,7 @@ impl CsvLongFmtOutput {
                     .get(*metric_set_idx.deref())
                     .ok_or(CsvError::MetricSetIndexNotFound { index: *metric_set_idx })?;
 
-                if let Some(current_values) = metric_set_state.current_values() {
+                for current_values in metric_set_state.all_values() {
                     let metric_set = network
                         .get_metric_set(*metric_set_idx)
                         .ok_or(CsvError::MetricSetIndexNotFound { index: *metric_set_idx })?;
diff --git a/pywr-core/src/recorders/memory.rs b/pywr-core/src/recorders/memory.rs
index 86ad39a..23fd175 100644
--- a/pywr-core/src/recorders/memory.rs
+++ b/pywr-core/src/recorders/memory.rs
@@ -370,9 +370,7 @@ impl Recorder for MemoryRecorder {
                 }
             })?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
-                scenario_data.push(current_values.into());
-            }
+            scenario_data.extend(metric_set_state.all_values().map(PeriodValue::from));
         }
 
         let result = MemoryRecorderResult {
diff --git a/pywr-core/src/recorders/metric_set.rs b/pywr-core/src/recorders/metric_set.rs
index 360d13c..1c16233 100644
--- a/pywr-core/src/recorders/metric_set.rs
+++ b/pywr-core/src/recorders/metric_set.rs
@@ -80,6 +80,8 @@ impl UnresolvedOutputMetric {
 pub struct MetricSetState {
     // Populated with any yielded values from the last processing.
     current_values: Option<Vec<PeriodValue<f64>>>,
+    // Values yielded before the current values in the last processing (only when finalising).
+    prior_values: Vec<Vec<PeriodValue<f64>>>,
     // If the metric set aggregates then this state tracks the aggregation of each metric
     aggregation_states: Option<Vec<AggregatorState>>,
 }
@@ -88,6 +90,14 @@ impl MetricSetState {
     pub fn current_values(&self) -> Option<&[PeriodValue<f64>]> {
         self.current_values.as_deref()
     }
+
+    /// All of the values yielded from the last processing in order; the last are the current values.
+    pub fn all_values(&self) -> impl Iterator<Item = &[PeriodValue<f64>]> {
+        self.prior_values
+            .iter()
+            .map(|values| values.as_slice())
+            .chain(self.current_values())
+    }
 }
 
 #[derive(Debug, Error)]
@@ -117,6 +127,7 @@ impl MetricSet {
     pub fn setup(&self) -> MetricSetState {
         MetricSetState {
             current_values: None,
+            prior_values: Vec::new(),
             aggregation_states: self
                 .aggregator
                 .as_ref()
@@ -188,12 +199,17 @@ impl MetricSet {
                 .as_mut()
                 .expect("Aggregation state expected for metric set with aggregator!");
 
-            let final_values = aggregation_states
+            let final_values: Vec<_> = aggregation_states
                 .iter_mut()
-                .map(|current_state| aggregator.finalise(current_state))
-                .collect::<Option<Vec<_>>>();
-
-            internal_state.current_values = final_values;
+                .map(|current_state| aggregator.finalise_all(current_state))
+                .collect();
+
+            // Every metric yields the same number of values
+            let num_values = final_values.iter().map(Vec::len).min().unwrap_or(0);
+            internal_state.prior_values = (0..num_values)
+                .map(|i| final_values.iter().map(|values| values[i]).collect())
+                .collect();
+            internal_state.current_values = internal_state.prior_values.pop();
         } else {
             internal_state.current_values = None;
         }
-- 
2.43.0


From b35a5c31399cdd2a05035125e05f3940fda05d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 25/73] fix: do not panic when a memory output's metric set is
 empty

---
 pywr-core/src/recorders/memory.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pywr-core/src/recorders/memory.rs b/pywr-core/src/recorders/memory.rs
index 23fd175..840cdeb 100644
--- a/pywr-core/src/recorders/memory.rs
+++ b/pywr-core/src/recorders/memory.rs
@@ -203,7 +203,7 @@ impl MemoryRecorderResult {
             .iter()
             .map(|time_data| {
                 // We expect the same number of metrics in all the entries
-                let num_metrics = time_data.first().expect("No metrics found in time data").len();
+                let num_metrics = time_data.first().map_or(0, |t| t.len());
 
                 // Aggregate each metric over time first. This requires transposing the saved data.
                 let metric_ts: Vec<f64> = (0..num_metrics)
@@ -338,7 +338,8 @@ impl Recorder for MemoryRecorder {
                 }
             })?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
+            // There is nothing to save for an empty metric set
+            if let Some(current_values) = metric_set_state.current_values().filter(|v| !v.is_empty()) {
                 scenario_data.push(current_values.into());
             }
         }
@@ -370,7 +371,12 @@ impl Recorder for MemoryRecorder {
                 }
             })?;
 
-            scenario_data.extend(metric_set_state.all_values().map(PeriodValue::from));
+            scenario_data.extend(
+                metric_set_state
+                    .all_values()
+                    .filter(|values| !values.is_empty())
+                    .map(PeriodValue::from),
+            );
         }
 
         let result = MemoryRecorderResult {
-- 
2.43.0


From f41c571b0bb08e8bcb5c8670401ee1e4a7e3ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 26/73] fix: apply memory output scenario and time aggregation
 to their own dimensions

---
 pywr-schema/src/outputs/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/outputs/memory.rs b/pywr-schema/src/outputs/memory.rs
index afe76a5..5f27c45 100644
--- a/pywr-schema/src/outputs/memory.rs
+++ b/pywr-schema/src/outputs/memory.rs
@@ -21,8 +21,8 @@ pub struct MemoryAggregation {
 impl MemoryAggregation {
     fn load(&self, data_path: Option<&Path>) -> Result<pywr_core::recorders::Aggregation, SchemaError> {
         Ok(pywr_core::recorders::Aggregation::new(
-            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.scenario.as_ref().map(|f| f.load(data_path)).transpose()?,
+            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.metric.as_ref().map(|f| f.load(data_path)).transpose()?,
         ))
     }
-- 
2.43.0


From 84b6838fd851b21aca3c1f797bcc38158b7f7c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 27/73] fix: align values with the day period in progress when
 aggregating

A value crossing the end of a period of days was not split, and the period was
extended by the whole value instead.
---
 pywr-core/src/recorders/aggregator/mod.rs | 27 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index 680b056..fec5826 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -46,15 +46,25 @@ impl AggregationFrequency {
     }
 
     /// Split the value representing a period into multiple ['PeriodValue'] that do not cross the
-    /// boundary of the given period.
-    fn split_value_into_periods(&self, value: PeriodValue<f64>) -> Vec<PeriodValue<f64>> {
+    /// boundary of the given period. The optional current period start is the start of the period
+    /// which is in progress before the value.
+    fn split_value_into_periods(
+        &self,
+        value: PeriodValue<f64>,
+        current_period_start: Option<DateTime>,
+    ) -> Vec<PeriodValue<f64>> {
         let mut sub_values = Vec::new();
 
         let mut current_date = value.start;
         let end_date = value.duration + value.start;
 
+        // The value either continues the current period or it starts a new one.
+        let mut period_start = current_period_start
+            .filter(|start| self.is_date_in_period(start, &current_date))
+            .unwrap_or(current_date);
+
         while current_date < end_date {
-            let start_of_next_period = self.start_of_next_period(&current_date);
+            let start_of_next_period = self.start_of_next_period(&period_start);
 
             let current_duration = if start_of_next_period <= end_date {
                 start_of_next_period.duration_since(current_date)
@@ -69,6 +79,7 @@ impl AggregationFrequency {
             });
 
             current_date = start_of_next_period;
+            period_start = start_of_next_period;
         }
 
         sub_values
@@ -81,6 +92,14 @@ struct PeriodicAggregatorState {
 }
 
 impl PeriodicAggregatorState {
+    /// The start of the period in progress, if any.
+    fn current_period_start(&self) -> Option<DateTime> {
+        self.current_values
+            .as_ref()
+            .and_then(|values| values.first())
+            .map(|value| value.start)
+    }
+
     fn process_value(
         &mut self,
         value: PeriodValue<f64>,
@@ -238,7 +257,7 @@ impl PeriodicAggregator {
         let mut agg_value = None;
 
         if let Some(period) = &self.frequency {
-            for v in period.split_value_into_periods(value) {
+            for v in period.split_value_into_periods(value, current_state.current_period_start()) {
                 let av = current_state.process_value(v, period, &self.function);
                 if av.is_some() {
                     if agg_value.is_some() {
-- 
2.43.0


From e2477fb67952024faec955c32453a52896b87462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 28/73] fix: yield every period completed by a value spanning
 several aggregation periods

This panicked, for example with a 30 day timestep and a monthly aggregation.
---
 pywr-core/src/recorders/aggregator/mod.rs | 64 +++++++++++++----------
 pywr-core/src/recorders/memory.rs         |  9 ++--
 pywr-core/src/recorders/metric_set.rs     | 52 ++++++++----------
 3 files changed, 64 insertions(+), 61 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index fec5826..f493fa6 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -246,32 +246,33 @@ impl PeriodicAggregator {
     /// Append a new value to the aggregator.
     ///
     /// The new value should sequentially follow from the previously processed values. If the
-    /// value completes a new aggregation period then a value representing that aggregation is
-    /// returned.
-    fn process_value(
+    /// value completes one or more aggregation periods then the values representing those
+    /// aggregations are returned in order.
+    fn process_values(
         &self,
         current_state: &mut PeriodicAggregatorState,
         value: PeriodValue<f64>,
-    ) -> Option<PeriodValue<f64>> {
-        // Split the given period into separate periods that align with the aggregation period.
-        let mut agg_value = None;
-
+    ) -> Vec<PeriodValue<f64>> {
         if let Some(period) = &self.frequency {
-            for v in period.split_value_into_periods(value, current_state.current_period_start()) {
-                let av = current_state.process_value(v, period, &self.function);
-                if av.is_some() {
-                    if agg_value.is_some() {
-                        panic!(
-                            "Multiple aggregated values yielded from aggregator. This indicates that the given value spans multiple aggregation periods which is not supported."
-                        )
-                    }
-                    agg_value = av;
-                }
-            }
+            // Split the given period into separate periods that align with the aggregation period.
+            period
+                .split_value_into_periods(value, current_state.current_period_start())
+                .into_iter()
+                .filter_map(|v| current_state.process_value(v, period, &self.function))
+                .collect()
         } else {
             current_state.process_value_no_period(value);
+            Vec::new()
         }
-        agg_value
+    }
+
+    #[cfg(test)]
+    fn process_value(
+        &self,
+        current_state: &mut PeriodicAggregatorState,
+        value: PeriodValue<f64>,
+    ) -> Option<PeriodValue<f64>> {
+        self.process_values(current_state, value).pop()
     }
 
     fn calc_aggregation(&self, state: &PeriodicAggregatorState) -> Option<PeriodValue<f64>> {
@@ -310,19 +311,26 @@ impl Aggregator {
     }
 
     /// Append a new value to the aggregator.
+    ///
+    /// This returns the value of the last period completed by the new value. See [`Self::append_values`]
+    /// for all the periods it completes.
     pub fn append_value(&self, state: &mut AggregatorState, value: PeriodValue<f64>) -> Option<PeriodValue<f64>> {
-        let agg_value = match (&self.child, state.child.as_mut()) {
-            (Some(child), Some(child_state)) => child.append_value(child_state, value),
-            (None, None) => Some(value),
+        self.append_values(state, value).pop()
+    }
+
+    /// Append a new value to the aggregator, returning the values of all the periods that it completes in order.
+    pub fn append_values(&self, state: &mut AggregatorState, value: PeriodValue<f64>) -> Vec<PeriodValue<f64>> {
+        let child_values = match (&self.child, state.child.as_mut()) {
+            (Some(child), Some(child_state)) => child.append_values(child_state, value),
+            (None, None) => vec![value],
             (None, Some(_)) => panic!("Aggregator state contains a child state when none is expected."),
             (Some(_), None) => panic!("Aggregator state does not contain a child state when one is expected."),
         };
 
-        if let Some(agg_value) = agg_value {
-            self.agg.process_value(&mut state.state, agg_value)
-        } else {
-            None
-        }
+        child_values
+            .into_iter()
+            .flat_map(|child_value| self.agg.process_values(&mut state.state, child_value))
+            .collect()
     }
 
     /// Compute the final aggregation value from the current state.
@@ -348,7 +356,7 @@ impl Aggregator {
         // If there are final values from the child aggregator then process them
         let mut final_values: Vec<_> = final_child_values
             .into_iter()
-            .filter_map(|value| self.agg.process_value(&mut state.state, value))
+            .flat_map(|value| self.agg.process_values(&mut state.state, value))
             .collect();
 
         // Finally, compute the aggregation of the current state
diff --git a/pywr-core/src/recorders/memory.rs b/pywr-core/src/recorders/memory.rs
index 840cdeb..ae9d114 100644
--- a/pywr-core/src/recorders/memory.rs
+++ b/pywr-core/src/recorders/memory.rs
@@ -339,9 +339,12 @@ impl Recorder for MemoryRecorder {
             })?;
 
             // There is nothing to save for an empty metric set
-            if let Some(current_values) = metric_set_state.current_values().filter(|v| !v.is_empty()) {
-                scenario_data.push(current_values.into());
-            }
+            scenario_data.extend(
+                metric_set_state
+                    .all_values()
+                    .filter(|values| !values.is_empty())
+                    .map(PeriodValue::from),
+            );
         }
 
         Ok(())
diff --git a/pywr-core/src/recorders/metric_set.rs b/pywr-core/src/recorders/metric_set.rs
index 1c16233..b2785d3 100644
--- a/pywr-core/src/recorders/metric_set.rs
+++ b/pywr-core/src/recorders/metric_set.rs
@@ -80,7 +80,7 @@ impl UnresolvedOutputMetric {
 pub struct MetricSetState {
     // Populated with any yielded values from the last processing.
     current_values: Option<Vec<PeriodValue<f64>>>,
-    // Values yielded before the current values in the last processing (only when finalising).
+    // Values yielded before the current values in the last processing.
     prior_values: Vec<Vec<PeriodValue<f64>>>,
     // If the metric set aggregates then this state tracks the aggregation of each metric
     aggregation_states: Option<Vec<AggregatorState>>,
@@ -98,6 +98,17 @@ impl MetricSetState {
             .map(|values| values.as_slice())
             .chain(self.current_values())
     }
+
+    /// Set the values yielded by the aggregator of each metric.
+    fn set_values(&mut self, metric_values: &[Vec<PeriodValue<f64>>]) {
+        // Every metric should yield the same number of values because these depend only on time.
+        let num_values = metric_values.iter().map(Vec::len).min().unwrap_or(0);
+
+        self.prior_values = (0..num_values)
+            .map(|i| metric_values.iter().map(|values| values[i]).collect())
+            .collect();
+        self.current_values = self.prior_values.pop();
+    }
 }
 
 #[derive(Debug, Error)]
@@ -162,29 +173,15 @@ impl MetricSet {
                 .as_mut()
                 .expect("Aggregation state expected for metric set with aggregator!");
 
-            // Collect any aggregated values. This will remain empty if the aggregator yields
-            // no values. However, if there are values we will expect the same number of aggregated
-            // values as the input values / metrics.
-            let mut agg_values = Vec::with_capacity(values.len());
-            // Use a for loop instead of using an iterator because we need to execute the
-            // `append_value` method on all aggregators.
-            for (value, current_state) in values.iter().zip(aggregation_states.iter_mut()) {
-                if let Some(agg_value) = aggregator.append_value(current_state, *value) {
-                    agg_values.push(agg_value);
-                }
-            }
-
-            let agg_values = if agg_values.is_empty() {
-                None
-            } else if agg_values.len() == values.len() {
-                Some(agg_values)
-            } else {
-                // This should never happen because the aggregator should either yield no values
-                // or the same number of values as the input metrics.
-                unreachable!("Some values were aggregated and some were not!");
-            };
-
-            internal_state.current_values = agg_values;
+            // Collect any aggregated values. Usually the aggregators yield no values or one value each,
+            // but a value that spans several aggregation periods can complete more than one of them.
+            let agg_values: Vec<_> = values
+                .iter()
+                .zip(aggregation_states.iter_mut())
+                .map(|(value, current_state)| aggregator.append_values(current_state, *value))
+                .collect();
+
+            internal_state.set_values(&agg_values);
         } else {
             internal_state.current_values = Some(values);
         }
@@ -204,12 +201,7 @@ impl MetricSet {
                 .map(|current_state| aggregator.finalise_all(current_state))
                 .collect();
 
-            // Every metric yields the same number of values
-            let num_values = final_values.iter().map(Vec::len).min().unwrap_or(0);
-            internal_state.prior_values = (0..num_values)
-                .map(|i| final_values.iter().map(|values| values[i]).collect())
-                .collect();
-            internal_state.current_values = internal_state.prior_values.pop();
+            internal_state.set_values(&final_values);
         } else {
             internal_state.current_values = None;
         }
-- 
2.43.0


From d0079da22df0004fce4ee09185ea55ed3a0fed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 29/73] fix: load scalar tables with three and four keys with
 that many keys

---
 pywr-schema/src/data_tables/scalar.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index fae00c9..e5a1a43 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -99,8 +99,8 @@ impl LoadedScalarTable {
         match rows {
             1 => Ok(LoadedScalarTable::One(load_csv_rows_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_rows_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_rows_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
@@ -112,8 +112,8 @@ impl LoadedScalarTable {
         match cols {
             1 => Ok(LoadedScalarTable::One(load_csv_cols_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_cols_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_cols_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
-- 
2.43.0


From e252f83ce137100d08e4b541ccd15dfdbfc94275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 30/73] fix: return an error for a scalar table without values

---
 pywr-schema/src/data_tables/scalar.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index e5a1a43..a690446 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -262,7 +262,13 @@ fn load_csv_rows_scalar_table<const N: usize>(path: &Path) -> Result<ScalarTable
                 });
             }
 
-            Ok((key, values[0]))
+            // A row must have a value after its key
+            let value = values
+                .first()
+                .copied()
+                .ok_or_else(|| TableError::InvalidFormat("No value column in scalar table".to_string()))?;
+
+            Ok((key, value))
         })
         .collect::<Result<_, TableError>>()?;
 
@@ -333,7 +339,11 @@ fn load_csv_cols_scalar_table<const N: usize>(path: &Path) -> Result<ScalarTable
     // Turn this into a look-up table with key (row, column)
     let mut values: HashMap<[String; N], TableScalarValue> = HashMap::new();
 
-    for (col, value) in col_headers.iter().zip(&rows[0]) {
+    let row = rows
+        .first()
+        .ok_or_else(|| TableError::InvalidFormat("No row of values in scalar table".to_string()))?;
+
+    for (col, value) in col_headers.iter().zip(row) {
         if let Some(v) = value {
             // SAFETY: We have already checked ensured that the number of header rows is N
             let key: [String; N] = col.to_vec().try_into().unwrap();
-- 
2.43.0


From b122436e79a760028378c1c551f923b925dda6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 31/73] fix: reject table values too large for an integer

---
 pywr-schema/src/data_tables/scalar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index a690446..ed5d981 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -25,7 +25,8 @@ impl TableScalarValue {
     pub fn try_as_u64(&self) -> Option<u64> {
         match self {
             TableScalarValue::Float(v) => {
-                if *v >= 0.0 && v.fract() == 0.0 {
+                // NB `u64::MAX as f64` rounds up to 2^64, which is already out of range.
+                if *v >= 0.0 && v.fract() == 0.0 && *v < u64::MAX as f64 {
                     Some(*v as u64)
                 } else {
                     None
-- 
2.43.0


From c165f8660cf60f6e3bd8691b1aeb16eee10952f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 32/73] fix: accept checksums recorded in upper case

---
 pywr-schema/src/digest.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/digest.rs b/pywr-schema/src/digest.rs
index 1fa670b..eb8cc94 100644
--- a/pywr-schema/src/digest.rs
+++ b/pywr-schema/src/digest.rs
@@ -91,7 +91,8 @@ fn validate_hex_digest<D: Digest + digest::Update>(path: &Path, expected: &str)
     let hash = hasher.0.finalize();
 
     let actual_hash = hex::encode(hash);
-    if actual_hash == expected {
+    // Either letter case is a valid representation of the digest.
+    if actual_hash.eq_ignore_ascii_case(expected) {
         Ok(())
     } else {
         Err(ChecksumError::ChecksumMismatch {
-- 
2.43.0


From b9374a2e0fcfa2cb12e40720b3c9af1bc016ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 33/73] fix: return an error for a short or irregular
 timeseries instead of panicking

---
 pywr-schema/src/timeseries/align_and_resample.rs | 6 +++++-
 pywr-schema/src/timeseries/mod.rs                | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/timeseries/align_and_resample.rs b/pywr-schema/src/timeseries/align_and_resample.rs
index d50e575..f24d4a7 100644
--- a/pywr-schema/src/timeseries/align_and_resample.rs
+++ b/pywr-schema/src/timeseries/align_and_resample.rs
@@ -26,6 +26,10 @@ pub fn align_and_resample(
     // Ensure that df start aligns with models start for any resampling
     let df = slice_start(df, time_col, domain)?;
 
+    if df.height() < 2 {
+        return Err(TimeseriesError::TimeseriesDurationNotFound(name.to_string()));
+    }
+
     // Get the durations of the time column
     let durations = df
         .clone()
@@ -38,7 +42,7 @@ pub fn align_and_resample(
     let durations = durations.column("duration")?.duration()?;
 
     if durations.len() > 1 {
-        todo!("Non-uniform timestep are not yet supported");
+        return Err(TimeseriesError::NonUniformTimeseries(name.to_string()));
     }
 
     let timeseries_duration = match durations.physical().get(0) {
diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 2220a9d..145180c 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -43,6 +43,8 @@ pub enum TimeseriesError {
     TimeseriesNotFound(String),
     #[error("The duration of timeseries '{0}' could not be determined.")]
     TimeseriesDurationNotFound(String),
+    #[error("The timeseries '{0}' does not have a uniform timestep, which is not yet supported.")]
+    NonUniformTimeseries(String),
     #[error("Column '{col}' not found in timeseries input '{name}'")]
     ColumnNotFound { col: String, name: String },
     #[error("Timeseries provider '{provider}' does not support '{fmt}' file types")]
-- 
2.43.0


From ed2cfc5ab1c0b784a78ec07e7c8751a8e86b73ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 34/73] fix: resample timeseries by the model's own timesteps

---
 .../src/timeseries/align_and_resample.rs      | 101 +++++++++++-------
 1 file changed, 63 insertions(+), 38 deletions(-)

diff --git a/pywr-schema/src/timeseries/align_and_resample.rs b/pywr-schema/src/timeseries/align_and_resample.rs
index f24d4a7..bd88ec9 100644
--- a/pywr-schema/src/timeseries/align_and_resample.rs
+++ b/pywr-schema/src/timeseries/align_and_resample.rs
@@ -1,8 +1,18 @@
 use crate::timeseries::TimeseriesError;
 use chrono::{NaiveDate, NaiveDateTime, NaiveTime};
+use jiff::civil::DateTime;
 use polars::{prelude::*, series::ops::NullBehavior};
 use pywr_core::timestep::TimeDomain;
-use std::cmp::Ordering;
+
+/// Name of a temporary column for the index of the timestep.
+const TIMESTEP_COL: &str = "__pywr_timestep__";
+
+fn to_chrono(date: &DateTime) -> NaiveDateTime {
+    NaiveDateTime::new(
+        NaiveDate::from_ymd_opt(date.year() as i32, date.month() as u32, date.day() as u32).expect("Invalid date"),
+        NaiveTime::from_hms_opt(date.hour() as u32, date.minute() as u32, date.second() as u32).expect("Invalid time"),
+    )
+}
 
 pub fn align_and_resample(
     name: &str,
@@ -50,38 +60,59 @@ pub fn align_and_resample(
         None => return Err(TimeseriesError::TimeseriesDurationNotFound(name.to_string())),
     };
 
-    // Use the first timestep of the domain to determine if the timeseries needs to be upsampled or downsampled.
-    let model_duration = domain.first_timestep().duration;
-    let model_duration_string = model_duration.duration_string();
-
-    let df = match model_duration.milliseconds().cmp(&timeseries_duration) {
-        Ordering::Greater => {
-            // Downsample
-            df.clone()
-                .lazy()
-                .group_by_dynamic(
-                    col(time_col),
-                    [],
-                    DynamicGroupOptions {
-                        every: Duration::parse(model_duration_string.as_str()),
-                        period: Duration::parse(model_duration_string.as_str()),
-                        offset: Duration::parse("0d"),
-                        start_by: StartBy::DataPoint,
-                        ..Default::default()
-                    },
-                )
-                .agg([all().exclude_cols([time_col]).as_expr().mean()])
-                .collect()?
+    // Compare with the timesteps of the domain to determine if the timeseries needs to be upsampled or downsampled.
+    // NB these can be of different lengths (e.g. monthly).
+    let timestep_durations: Vec<i64> = domain.timesteps().iter().map(|t| t.duration.milliseconds()).collect();
+
+    let df = if timestep_durations.iter().all(|d| *d == timeseries_duration) {
+        df
+    } else {
+        let starts: Vec<i64> = domain
+            .timesteps()
+            .iter()
+            .map(|t| to_chrono(&t.date).and_utc().timestamp_millis())
+            .collect();
+        let times: Vec<i64> = df.column(time_col)?.datetime()?.physical().iter().flatten().collect();
+
+        if times.first() != starts.first() {
+            return Err(TimeseriesError::DataFrameTimestepMismatch(name.to_string()));
         }
-        Ordering::Less => {
-            // Upsample
+
+        if timestep_durations.iter().any(|d| *d > timeseries_duration) {
+            // Downsample; the mean of the rows in each timestep.
+            let end = starts.last().unwrap_or(&0) + timestep_durations.last().unwrap_or(&0);
+            let timestep_idx: Vec<u32> = times
+                .iter()
+                .take_while(|t| **t < end)
+                .map(|t| starts.partition_point(|s| s <= t) as u32)
+                .collect();
+
+            let mut df = df.head(Some(timestep_idx.len()));
+            df.with_column(Column::new(TIMESTEP_COL.into(), timestep_idx))?;
+            df.lazy()
+                .group_by_stable([col(TIMESTEP_COL)])
+                .agg([
+                    col(time_col).first(),
+                    all().exclude_cols([time_col, TIMESTEP_COL]).as_expr().mean(),
+                ])
+                .drop(cols([TIMESTEP_COL]))
+                .collect()?
+        } else {
+            // Upsample; the row in progress at the start of each timestep.
             // TODO: this does not extend the dataframe beyond its original end date. Should it do when using a forward fill strategy?
             // The df could be extend by the length of the duration it is being resampled to.
-            df.clone()
-                .upsample::<[String; 0]>([], time_col, Duration::parse(model_duration_string.as_str()))?
-                .fill_null(FillNullStrategy::Forward(None))?
+            let starts: Vec<i64> = starts.into_iter().filter(|s| Some(s) <= times.last()).collect();
+            let rows: Vec<IdxSize> = starts
+                .iter()
+                .map(|s| (times.partition_point(|t| t <= s) - 1) as IdxSize)
+                .collect();
+
+            let mut df = df.take(&IdxCa::from_vec("rows".into(), rows))?;
+            df.with_column(
+                Column::new(time_col.into(), starts).cast(&DataType::Datetime(TimeUnit::Milliseconds, None))?,
+            )?;
+            df
         }
-        Ordering::Equal => df,
     };
 
     let mut df = slice_end(df, time_col, domain)?;
@@ -100,11 +131,7 @@ pub fn align_and_resample(
 fn slice_start(df: DataFrame, time_col: &str, domain: &TimeDomain) -> Result<DataFrame, TimeseriesError> {
     let start = domain.first_timestep().date;
 
-    let chrono_start = NaiveDateTime::new(
-        NaiveDate::from_ymd_opt(start.year() as i32, start.month() as u32, start.day() as u32).expect("Invalid date"),
-        NaiveTime::from_hms_opt(start.hour() as u32, start.minute() as u32, start.second() as u32)
-            .expect("Invalid time"),
-    );
+    let chrono_start = to_chrono(&start);
 
     let df = df
         .clone()
@@ -117,10 +144,8 @@ fn slice_start(df: DataFrame, time_col: &str, domain: &TimeDomain) -> Result<Dat
 fn slice_end(df: DataFrame, time_col: &str, domain: &TimeDomain) -> Result<DataFrame, TimeseriesError> {
     let end = domain.last_timestep().date;
 
-    let chrono_end = NaiveDateTime::new(
-        NaiveDate::from_ymd_opt(end.year() as i32, end.month() as u32, end.day() as u32).expect("Invalid date"),
-        NaiveTime::from_hms_opt(end.hour() as u32, end.minute() as u32, end.second() as u32).expect("Invalid time"),
-    );
+    let chrono_end = to_chrono(&end);
+
     let df = df
         .clone()
         .lazy()
-- 
2.43.0


From dc8a51f8b42bdb3b01c4527031d0d5c545f428dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 35/73] fix: return an error for an unsupported timeseries
 format instead of panicking

---
 pywr-schema/src/timeseries/polars_dataset.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pywr-schema/src/timeseries/polars_dataset.rs b/pywr-schema/src/timeseries/polars_dataset.rs
index b909f1f..d283a93 100644
--- a/pywr-schema/src/timeseries/polars_dataset.rs
+++ b/pywr-schema/src/timeseries/polars_dataset.rs
@@ -69,9 +69,6 @@ mod core {
 
                             read_options.try_into_reader_with_file_path(Some(fp))?.finish()?
                         }
-                        Some("parquet") => {
-                            todo!()
-                        }
                         Some(other_ext) => {
                             return Err(TimeseriesError::TimeseriesUnsupportedFileFormat {
                                 provider: "polars".to_string(),
-- 
2.43.0


From dd8f480e8e9b62c102a4c4439501b4984f054768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 36/73] fix: keep a timeseries column apart from the scenario
 group of the same name

---
 pywr-schema/src/timeseries/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 145180c..d754fff 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -163,6 +163,15 @@ pub struct LoadedTimeseriesCollection {
     timeseries: HashMap<String, DataFrame>,
 }
 
+/// Name of the parameter for all the columns of a timeseries, one for each scenario of a group.
+///
+/// This is distinct from the names of the parameters for the individual columns, because there may be a column
+/// with the same name as the scenario group.
+#[cfg(feature = "core")]
+fn scenario_parameter_name(name: &str, scenario: &str) -> ParameterName {
+    ParameterName::new(scenario, Some(&format!("{name} (scenario group)")))
+}
+
 #[cfg(feature = "core")]
 impl LoadedTimeseriesCollection {
     pub fn from_schema(
@@ -317,7 +326,7 @@ impl LoadedTimeseriesCollection {
         // Original array as loaded from the timeseries
         let array: Array2<f64> = df.to_ndarray::<Float64Type>(IndexOrder::default())?;
 
-        let name = ParameterName::new(scenario, Some(name));
+        let name = scenario_parameter_name(name, scenario);
         if !network.parameters().contains_name(&name) {
             let p = Array2ParameterBuilder::new(name.clone(), array, scenario);
             network.parameters().f64(Box::new(p));
@@ -341,7 +350,7 @@ impl LoadedTimeseriesCollection {
 
         let array: Array2<u64> = df.to_ndarray::<UInt64Type>(IndexOrder::default())?;
 
-        let name = ParameterName::new(scenario, Some(name));
+        let name = scenario_parameter_name(name, scenario);
 
         if !network.parameters().contains_name(&name) {
             let p = Array2ParameterBuilder::new(name.clone(), array, scenario);
-- 
2.43.0


From 3d541442c48d1a4eaf75dee8c52197352aef156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 37/73] fix: keep lanes the interior point solver has completed
 free of NaN

---
 ipm-simd/src/path_following_direct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipm-simd/src/path_following_direct.rs b/ipm-simd/src/path_following_direct.rs
index 1347df9..0b2100c 100644
--- a/ipm-simd/src/path_following_direct.rs
+++ b/ipm-simd/src/path_following_direct.rs
@@ -252,6 +252,11 @@ pub fn normal_eqn_step(
     // Set theta to zero for lanes that have completed (status == True)
     theta = status.blend(f64x4::splat(0.0), theta);
 
+    // The deltas of completed lanes are also zeroed because they may not be finite.
+    for delta in [&mut *dx, &mut *dz, &mut *dy, &mut *dw] {
+        delta.iter_mut().for_each(|d| *d = status.blend(f64x4::splat(0.0), *d));
+    }
+
     vector_update(x, dx, f64x4::splat(1.0), theta);
     vector_update(z, dz, f64x4::splat(1.0), theta);
     vector_update(y, dy, f64x4::splat(1.0), theta);
-- 
2.43.0


From e3d0e37ed08f90ec2438acb5df1a99d8abd65e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 38/73] fix: keep the interior point solver finite at a
 degenerate optimum

---
 ipm-simd/src/path_following_direct.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipm-simd/src/path_following_direct.rs b/ipm-simd/src/path_following_direct.rs
index 0b2100c..84956a9 100644
--- a/ipm-simd/src/path_following_direct.rs
+++ b/ipm-simd/src/path_following_direct.rs
@@ -106,6 +106,8 @@ pub fn normal_matrix_cholesky_decomposition(
                 let xind = a_norm_ptr.indices[ind];
                 val += a.data[a_norm_ptr.indptr_i[ind]] * a.data[a_norm_ptr.indptr_j[ind]] * x[xind] / z[xind];
             }
+            let original = val;
+
             // Now remove the previous L entries
             let ind_start = l_decomp_ptr.indptr[l_entry];
             let ind_end = l_decomp_ptr.indptr[l_entry + 1];
@@ -115,7 +117,10 @@ pub fn normal_matrix_cholesky_decomposition(
             }
 
             if row == col {
-                val = val.abs().sqrt();
+                // Near a degenerate optimum a row can come to depend on the rows before it, and its pivot
+                // is lost to rounding. A very large pivot leaves such a row out of the solution.
+                let vanished = val.abs().simd_le(original.abs() * 1e-30);
+                val = vanished.blend(f64x4::splat(1e128), val.abs()).sqrt();
             } else {
                 val /= l_data[l_ptr.diag_indptr[col]];
             }
-- 
2.43.0


From 87dd486ed0ac60dede170f2793ee6294fce65f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 39/73] fix: apply a link's soft maximum to the nodes it limits

With both soft constraints the flow of soft_max was set as the maximum of the
aggregated node of all three links, replacing the hard max_flow, instead of on
the one that aggregates the link and its soft_min.
---
 pywr-schema/src/nodes/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/core.rs b/pywr-schema/src/nodes/core.rs
index a148426..a331d98 100644
--- a/pywr-schema/src/nodes/core.rs
+++ b/pywr-schema/src/nodes/core.rs
@@ -540,7 +540,7 @@ impl LinkNode {
                 // add constraints on node aggregating `[name]` and `[name].soft_min`
                 if let Some(soft_max_flow) = &soft_max.flow {
                     let value = soft_max_flow.load(network, args, Some(&self.meta.name))?;
-                    agg_node.max_flow(value);
+                    agg_node_l_l.max_flow(value);
                 }
 
                 network.node(link);
-- 
2.43.0


From 0c0aa42d9c348e2a723e1dea2d8b2f401a533619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 40/73] fix: use a river gauge's bypass cost as the cost of its
 bypass

It was set as the minimum flow of the MRF link.
---
 pywr-schema/src/nodes/river_gauge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/nodes/river_gauge.rs b/pywr-schema/src/nodes/river_gauge.rs
index 7917fa8..7428d48 100644
--- a/pywr-schema/src/nodes/river_gauge.rs
+++ b/pywr-schema/src/nodes/river_gauge.rs
@@ -117,7 +117,7 @@ impl RiverGaugeNode {
         args: &LoadArgs,
     ) -> Result<(), SchemaError> {
         let mut mrf_node = pywr_core::node::NodeBuilder::link(self.mrf_sub_name());
-        let bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
+        let mut bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
 
         // MRF applies as a maximum on the MRF node.
         if let Some(cost) = &self.mrf_cost {
@@ -132,7 +132,7 @@ impl RiverGaugeNode {
 
         if let Some(cost) = &self.bypass_cost {
             let value = cost.load(network, args, Some(&self.meta.name))?;
-            mrf_node.min_flow(value);
+            bypass_node.cost(value);
         }
 
         network.node(mrf_node);
-- 
2.43.0


From b3e190c93d03ab6040799db954c736ba36db1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 41/73] fix: make a river split's factors proportions of all
 the flow off the MRF route

With more than one split each factor was enforced against the bypass alone,
so that the factors were not the documented proportions of the flow not going
via the mrf route.
---
 .../doc_diagrams/river-split-with-gauge.mmd   |  5 ++--
 .../src/nodes/river_split_with_gauge.rs       | 28 +++++++++----------
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/pywr-schema/src/nodes/doc_diagrams/river-split-with-gauge.mmd b/pywr-schema/src/nodes/doc_diagrams/river-split-with-gauge.mmd
index 045e97b..846a446 100644
--- a/pywr-schema/src/nodes/doc_diagrams/river-split-with-gauge.mmd
+++ b/pywr-schema/src/nodes/doc_diagrams/river-split-with-gauge.mmd
@@ -1,9 +1,10 @@
 graph LR
     subgraph ThisNode["RiverSplitWithGauge"]
 
-        subgraph AG0["Aggregated node 0"]
+        subgraph AG0["Aggregated node"]
             L_bypass("[name].bypass")
             L_split_0("[name].split-0")
+            L_split_i("[name].split-i")
         end
 
 
@@ -18,7 +19,7 @@ graph LR
         s_in --> L_split_0 --> s_out
         L_split_0 --> s_out_0
 
-        s_in -.-> L_split_i("[name].split-i") -.-> s_out
+        s_in -.-> L_split_i -.-> s_out
         L_split_i -.->s_out_i
     end
 
diff --git a/pywr-schema/src/nodes/river_split_with_gauge.rs b/pywr-schema/src/nodes/river_split_with_gauge.rs
index 5b5ed5d..1e7649f 100644
--- a/pywr-schema/src/nodes/river_split_with_gauge.rs
+++ b/pywr-schema/src/nodes/river_split_with_gauge.rs
@@ -136,8 +136,8 @@ impl RiverSplitWithGaugeNode {
         UnresolvedNode::new(&self.meta.name, Some(&format!("split-{i}")))
     }
 
-    fn split_agg_sub_name(&self, i: usize) -> UnresolvedNode {
-        UnresolvedNode::new(&self.meta.name, Some(&format!("split-agg-{i}")))
+    fn split_agg_sub_name(&self) -> UnresolvedNode {
+        UnresolvedNode::new(&self.meta.name, Some("split-agg"))
     }
 
     /// These connectors are used for both incoming and Output edges on the default slot.
@@ -233,23 +233,21 @@ impl RiverSplitWithGaugeNode {
             mrf_node.max_flow(value);
         }
 
-        for (i, split) in self.splits.iter().enumerate() {
-            // Each split has a link node and an aggregated node to enforce the factors
-            let split_node = pywr_core::node::NodeBuilder::link(self.split_sub_name(i));
-
-            // Set the factors for each split
+        if !self.splits.is_empty() {
+            // An aggregated node over the bypass and all of the splits enforces the factors, which
+            // are proportions of the total flow that does not go via the mrf route.
             let mut r = ProportionalFactorsBuilder::default();
-            r.factor(split.factor.load(network, args, Some(&self.meta.name))?);
+            let mut agg_node = pywr_core::AggregatedNodeBuilder::new(self.split_agg_sub_name());
+            agg_node.nodes(vec![self.bypass_sub_name()]);
 
-            // The factors will be set during the `set_constraints` method
-            let mut agg_node = pywr_core::AggregatedNodeBuilder::new(self.split_agg_sub_name(i));
-            agg_node
-                .nodes(vec![self.bypass_sub_name()])
-                .nodes(vec![self.split_sub_name(i)])
-                .relationship(Box::new(r));
+            for (i, split) in self.splits.iter().enumerate() {
+                r.factor(split.factor.load(network, args, Some(&self.meta.name))?);
+                agg_node.nodes(vec![self.split_sub_name(i)]);
+                network.node(pywr_core::node::NodeBuilder::link(self.split_sub_name(i)));
+            }
 
+            agg_node.relationship(Box::new(r));
             network.agg_node(agg_node);
-            network.node(split_node);
         }
 
         network.node(mrf_node);
-- 
2.43.0


From 6fa636dd783680b11b68fd15a71a9137640447df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 42/73] fix: exclude the loss from the outflow of a river with
 routing and loss

The outflow was that of the routing, before the loss is taken off it.
---
 pywr-schema/src/nodes/river.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pywr-schema/src/nodes/river.rs b/pywr-schema/src/nodes/river.rs
index 3b514b0..d7263cd 100644
--- a/pywr-schema/src/nodes/river.rs
+++ b/pywr-schema/src/nodes/river.rs
@@ -221,15 +221,15 @@ impl RiverNode {
                 }
             }
             RiverNodeComponent::Outflow => {
-                match self.routing_method.is_some() {
-                    false => {
-                        // Simple link node
-                        vec![self.net_sub_name()]
-                    }
-                    true => {
-                        // Routing
+                match (self.loss_factor.is_some(), self.routing_method.is_some()) {
+                    (false, true) => {
+                        // Routing, but no loss
                         vec![self.input_sub_name()]
                     }
+                    _ => {
+                        // Simple link node, or the flow that is left after the loss
+                        vec![self.net_sub_name()]
+                    }
                 }
             }
             RiverNodeComponent::Loss => {
-- 
2.43.0


From 0ad85b9e9652232a18650e73f6f6267f83ad396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 43/73] fix: let a reservoir evaporate

The evaporation node was created as an input, which nothing can flow into, and
its metric was only available when the reservoir also has rainfall.
---
 pywr-schema/src/nodes/reservoir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index 2be9ad6..03a7da7 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -459,7 +459,7 @@ impl ReservoirNode {
 
             // add evaporation node and edge
             if let Some(evaporation) = &self.evaporation {
-                let mut evaporation_output = pywr_core::NodeBuilder::input(self.evaporation_node_sub_name());
+                let mut evaporation_output = pywr_core::NodeBuilder::output(self.evaporation_node_sub_name());
 
                 let use_max_area = evaporation.use_max_area.unwrap_or(false);
                 let evaporation_area_metric =
@@ -612,7 +612,7 @@ impl ReservoirNode {
                         }
                     }
                     ReservoirNodeAttribute::Evaporation => {
-                        if self.rainfall.is_some() && self.surface_area.is_some() {
+                        if self.evaporation.is_some() && self.surface_area.is_some() {
                             UnresolvedMetricF64::NodeInFlow(self.evaporation_node_sub_name())
                         } else {
                             0.0.into()
-- 
2.43.0


From bd7b5b90989f24f2ff9930eb3672c55ed5284e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 44/73] fix: add the local parameters of virtual nodes to the
 network

Only those of the other nodes were added, and a virtual node that refers to a
parameter of its own could not be built.
---
 pywr-schema/src/network.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index d02e976..026b5fb 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -614,6 +614,20 @@ impl NetworkSchema {
                 }
             }
         }
+        // Add all the parameters from the virtual nodes
+        for v_node in self.virtual_nodes.iter().flatten() {
+            if let Some(local_parameters) = v_node.local_parameters() {
+                for parameter in local_parameters {
+                    parameter
+                        .add_to_network(network_builder, &args, Some(v_node.name()))
+                        .map_err(|source| NetworkSchemaBuildError::AddLocalParameterError {
+                            parent: v_node.name().to_string(),
+                            name: parameter.name().to_string(),
+                            source: Box::new(source),
+                        })?;
+                }
+            }
+        }
         // Add any global parameters
         if let Some(parameters) = self.parameters.as_deref() {
             for parameter in parameters {
-- 
2.43.0


From 62f97259a73c6a3c7b7c76a407309e490de6424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 45/73] fix: report the rainfall into a reservoir

Its metric was the flow into an input node, which is always zero.
---
 pywr-schema/src/nodes/reservoir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index 03a7da7..b199a7a 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -606,7 +606,7 @@ impl ReservoirNode {
                     }
                     ReservoirNodeAttribute::Rainfall => {
                         if self.rainfall.is_some() && self.surface_area.is_some() {
-                            UnresolvedMetricF64::NodeInFlow(self.rainfall_node_sub_name())
+                            UnresolvedMetricF64::NodeOutFlow(self.rainfall_node_sub_name())
                         } else {
                             0.0.into()
                         }
-- 
2.43.0


From 70b9780a605ba71ca49a100bfa6c5129bf11fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 46/73] fix: apply a virtual storage's factors to whole nodes

Factors are given per node, but were passed on as if given per internal node,
so that a node made of several internal nodes shifted the factors of those
after it, and surplus nodes were dropped silently.
---
 .../nodes/virtual_nodes/virtual_storage.rs    | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
index aafc2b7..3b3048d 100644
--- a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
@@ -218,9 +218,8 @@ impl VirtualStorageNode {
     ///
     /// Note that this is a private function, as it is not supported using this node itself
     /// inside a flow constraint.
-    fn nodes_for_flow_constraints(&self, args: &LoadArgs) -> Result<Vec<UnresolvedNode>, SchemaError> {
-        let nodes = self
-            .nodes
+    fn nodes_for_flow_constraints(&self, args: &LoadArgs) -> Result<Vec<Vec<UnresolvedNode>>, SchemaError> {
+        self.nodes
             .iter()
             .map(|node_ref| {
                 args.schema
@@ -230,18 +229,15 @@ impl VirtualStorageNode {
                     })?
                     .nodes_for_flow_constraints(node_ref.component)
             })
-            .collect::<Result<Vec<_>, _>>()?
-            .into_iter()
-            .flatten()
-            .collect();
-        Ok(nodes)
+            .collect()
     }
     pub fn add_to_network(
         &self,
         network: &mut pywr_core::network::NetworkBuilder,
         args: &LoadArgs,
     ) -> Result<(), SchemaError> {
-        let nodes = self.nodes_for_flow_constraints(args)?;
+        let groups = self.nodes_for_flow_constraints(args)?;
+        let nodes: Vec<UnresolvedNode> = groups.iter().flatten().cloned().collect();
 
         let mut builder = VirtualStorageNodeBuilder::new(self.meta.name.as_str(), &nodes);
 
@@ -293,7 +289,24 @@ impl VirtualStorageNode {
         }
 
         if let Some(factors) = &self.factors {
-            builder.factors(factors);
+            if factors.len() != self.nodes.len() {
+                return Err(SchemaError::InvalidNodeAttributes {
+                    msg: format!(
+                        "{} factors defined for {} nodes of virtual storage node '{}'",
+                        factors.len(),
+                        self.nodes.len(),
+                        self.meta.name
+                    ),
+                });
+            }
+
+            // A factor applies to all of the internal nodes of the node it is given for.
+            let factors: Vec<f64> = factors
+                .iter()
+                .zip(&groups)
+                .flat_map(|(factor, group)| group.iter().map(move |_| *factor))
+                .collect();
+            builder.factors(&factors);
         }
 
         network.virtual_storage_node(builder);
-- 
2.43.0


From 892ec179d4b7f815cb6d595586849725b4ad29fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 47/73] fix: visit the metrics of fixed-size arrays

---
 pywr-schema/src/visit.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/visit.rs b/pywr-schema/src/visit.rs
index 7740809..8bfa1cb 100644
--- a/pywr-schema/src/visit.rs
+++ b/pywr-schema/src/visit.rs
@@ -113,7 +113,19 @@ impl VisitMetrics for i32 {}
 impl VisitMetrics for f32 {}
 impl VisitMetrics for f64 {}
 impl<const N: usize> VisitMetrics for [f64; N] {}
-impl<const N: usize> VisitMetrics for [Metric; N] {}
+impl<const N: usize> VisitMetrics for [Metric; N] {
+    fn visit_metrics<F: FnMut(&Metric)>(&self, visitor: &mut F) {
+        for item in self {
+            item.visit_metrics(visitor);
+        }
+    }
+
+    fn visit_metrics_mut<F: FnMut(&mut Metric)>(&mut self, visitor: &mut F) {
+        for item in self {
+            item.visit_metrics_mut(visitor);
+        }
+    }
+}
 impl VisitMetrics for bool {}
 impl VisitMetrics for u64 {}
 impl VisitMetrics for String {}
-- 
2.43.0


From 7306c665d81308a2f776655d4e8e78823c91d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 48/73] fix: visit the paths of tables, virtual nodes and
 metric sets

---
 pywr-schema/src/data_tables/mod.rs | 15 ++++++++++++++
 pywr-schema/src/metric_sets/mod.rs | 32 ++++++++++++++++++++++++++++--
 pywr-schema/src/network.rs         | 24 ++++++++++++++++++++++
 3 files changed, 69 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/data_tables/mod.rs b/pywr-schema/src/data_tables/mod.rs
index c022c0a..135d2ba 100644
--- a/pywr-schema/src/data_tables/mod.rs
+++ b/pywr-schema/src/data_tables/mod.rs
@@ -21,6 +21,7 @@ mod vec;
 use crate::ConversionError;
 use crate::digest::{Checksum, ChecksumError};
 use crate::parameters::TableIndex;
+use crate::visit::VisitPaths;
 #[cfg(feature = "pyo3")]
 use pyo3::pyclass;
 use pywr_schema_macros::{PywrVisitAll, skip_serializing_none};
@@ -78,6 +79,20 @@ impl DataTable {
     }
 }
 
+impl VisitPaths for DataTable {
+    fn visit_paths<F: FnMut(&Path)>(&self, visitor: &mut F) {
+        match self {
+            DataTable::CSV(tbl) => tbl.url.visit_paths(visitor),
+        }
+    }
+
+    fn visit_paths_mut<F: FnMut(&mut PathBuf)>(&mut self, visitor: &mut F) {
+        match self {
+            DataTable::CSV(tbl) => tbl.url.visit_paths_mut(visitor),
+        }
+    }
+}
+
 #[derive(serde::Deserialize, serde::Serialize, Debug, Clone, JsonSchema, Display, EnumDiscriminants)]
 #[serde(tag = "type", deny_unknown_fields)]
 #[strum_discriminants(derive(Display, IntoStaticStr, EnumString, EnumIter))]
diff --git a/pywr-schema/src/metric_sets/mod.rs b/pywr-schema/src/metric_sets/mod.rs
index 099908a..8d5bfb5 100644
--- a/pywr-schema/src/metric_sets/mod.rs
+++ b/pywr-schema/src/metric_sets/mod.rs
@@ -8,14 +8,14 @@ use crate::metric::{EdgeReference, ParameterReferenceBuilder, ParameterReturnVal
 use crate::network::LoadArgs;
 #[cfg(feature = "core")]
 use crate::parameters::{Parameter, ParameterPhase, PythonReturnType};
+use crate::visit::VisitPaths;
 #[cfg(feature = "core")]
 use pywr_core::recorders::UnresolvedOutputMetric;
 use pywr_schema_macros::skip_serializing_none;
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
 use std::num::NonZeroI64;
-#[cfg(feature = "core")]
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use strum_macros::{Display, EnumDiscriminants, EnumIter, EnumString, IntoStaticStr};
 
 #[derive(serde::Deserialize, serde::Serialize, Debug, Copy, Clone, JsonSchema, Display, EnumDiscriminants)]
@@ -59,6 +59,22 @@ pub struct MetricAggregator {
     pub child: Option<Box<MetricAggregator>>,
 }
 
+impl VisitPaths for MetricAggregator {
+    fn visit_paths<F: FnMut(&Path)>(&self, visitor: &mut F) {
+        self.func.visit_paths(visitor);
+        if let Some(child) = &self.child {
+            child.visit_paths(visitor);
+        }
+    }
+
+    fn visit_paths_mut<F: FnMut(&mut PathBuf)>(&mut self, visitor: &mut F) {
+        self.func.visit_paths_mut(visitor);
+        if let Some(child) = &mut self.child {
+            child.visit_paths_mut(visitor);
+        }
+    }
+}
+
 #[cfg(feature = "core")]
 impl MetricAggregator {
     fn load(&self, data_path: Option<&Path>) -> Result<pywr_core::recorders::Aggregator, SchemaError> {
@@ -176,6 +192,18 @@ pub struct MetricSet {
     pub filters: MetricSetFilters,
 }
 
+impl VisitPaths for MetricSet {
+    fn visit_paths<F: FnMut(&Path)>(&self, visitor: &mut F) {
+        self.metrics.visit_paths(visitor);
+        self.aggregator.visit_paths(visitor);
+    }
+
+    fn visit_paths_mut<F: FnMut(&mut PathBuf)>(&mut self, visitor: &mut F) {
+        self.metrics.visit_paths_mut(visitor);
+        self.aggregator.visit_paths_mut(visitor);
+    }
+}
+
 impl MetricSet {
     #[cfg(feature = "core")]
     pub fn add_to_network(
diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 026b5fb..a1c3986 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -175,14 +175,26 @@ impl VisitPaths for NetworkSchema {
             node.visit_paths(visitor);
         }
 
+        for virtual_node in self.virtual_nodes.as_deref().into_iter().flatten() {
+            virtual_node.visit_paths(visitor);
+        }
+
         for parameter in self.parameters.as_deref().into_iter().flatten() {
             parameter.visit_paths(visitor);
         }
 
+        for table in self.tables.as_deref().into_iter().flatten() {
+            table.visit_paths(visitor);
+        }
+
         for timeseries in self.timeseries.as_deref().into_iter().flatten() {
             timeseries.visit_paths(visitor);
         }
 
+        for metric_set in self.metric_sets.as_deref().into_iter().flatten() {
+            metric_set.visit_paths(visitor);
+        }
+
         for outputs in self.outputs.as_deref().into_iter().flatten() {
             outputs.visit_paths(visitor);
         }
@@ -192,14 +204,26 @@ impl VisitPaths for NetworkSchema {
             node.visit_paths_mut(visitor);
         }
 
+        for virtual_node in self.virtual_nodes.as_deref_mut().into_iter().flatten() {
+            virtual_node.visit_paths_mut(visitor);
+        }
+
         for parameter in self.parameters.as_deref_mut().into_iter().flatten() {
             parameter.visit_paths_mut(visitor);
         }
 
+        for table in self.tables.as_deref_mut().into_iter().flatten() {
+            table.visit_paths_mut(visitor);
+        }
+
         for timeseries in self.timeseries.as_deref_mut().into_iter().flatten() {
             timeseries.visit_paths_mut(visitor);
         }
 
+        for metric_set in self.metric_sets.as_deref_mut().into_iter().flatten() {
+            metric_set.visit_paths_mut(visitor);
+        }
+
         for outputs in self.outputs.as_deref_mut().into_iter().flatten() {
             outputs.visit_paths_mut(visitor);
         }
-- 
2.43.0


From 9208a4403c2da561941736d33076e1b4b03c7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 49/73] fix: reject a scenario label that is used twice in a
 group

---
 pywr-core/src/scenario.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pywr-core/src/scenario.rs b/pywr-core/src/scenario.rs
index 8262e8f..5db0aec 100644
--- a/pywr-core/src/scenario.rs
+++ b/pywr-core/src/scenario.rs
@@ -21,6 +21,8 @@ pub enum ScenarioDomainBuilderError {
         found: usize,
         expected: usize,
     },
+    #[error("Label `{label}` is used more than once in scenario group `{group}`")]
+    DuplicateLabel { group: String, label: String },
     #[error("Invalid slice ({start}, {end}) for scenario group `{group}` with size {size}")]
     InvalidSlice {
         group: String,
@@ -260,6 +262,14 @@ impl ScenarioGroupBuilder {
                     expected: self.size,
                 });
             }
+
+            // A label has to identify a single scenario of the group.
+            if let Some((_, label)) = labels.iter().enumerate().find(|(i, l)| labels[..*i].contains(l)) {
+                return Err(ScenarioDomainBuilderError::DuplicateLabel {
+                    group: self.name,
+                    label: label.clone(),
+                });
+            }
         }
 
         Ok(ScenarioGroup {
-- 
2.43.0


From 5eb6f501c5e90ae6e2b71f5a1f79d73febaadee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 50/73] fix: report a mass-balance error instead of panicking

---
 pywr-core/src/state/mod.rs     | 42 ++++++++++++++++++++++---------
 pywr-core/src/state/storage.rs | 46 ++++++++++++++++++++++------------
 2 files changed, 60 insertions(+), 28 deletions(-)

diff --git a/pywr-core/src/state/mod.rs b/pywr-core/src/state/mod.rs
index 5fee256..ea76241 100644
--- a/pywr-core/src/state/mod.rs
+++ b/pywr-core/src/state/mod.rs
@@ -23,6 +23,7 @@ use std::collections::{HashMap, VecDeque};
 use std::fmt::Display;
 use std::num::NonZeroUsize;
 use std::ops::Deref;
+pub use storage::MassBalanceError;
 use storage::StorageState;
 use thiserror::Error;
 
@@ -76,9 +77,10 @@ impl NodeState {
         };
     }
 
-    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64) {
-        if let Self::Storage(s) = self {
-            s.finalise(min_volume, max_volume)
+    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64) -> Result<(), MassBalanceError> {
+        match self {
+            Self::Flow(_) => Ok(()),
+            Self::Storage(s) => s.finalise(min_volume, max_volume),
         }
     }
 }
@@ -169,7 +171,7 @@ impl VirtualStorageState {
         }
     }
 
-    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64) {
+    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64) -> Result<(), MassBalanceError> {
         self.storage.finalise(min_volume, max_volume)
     }
 }
@@ -458,6 +460,18 @@ pub enum NetworkStateError {
     VirtualStorageIndexNotFound(VirtualStorageIndex),
     #[error("Node has no volume: {0}")]
     NodeHasNoVolume(NodeIndex),
+    #[error("Invalid volume of node `{index}`: {source}")]
+    NodeMassBalance {
+        index: NodeIndex,
+        #[source]
+        source: MassBalanceError,
+    },
+    #[error("Invalid volume of virtual storage `{index}`: {source}")]
+    VirtualStorageMassBalance {
+        index: VirtualStorageIndex,
+        #[source]
+        source: MassBalanceError,
+    },
 }
 
 // State of the nodes and edges
@@ -574,10 +588,12 @@ impl NetworkState {
         max_volume: f64,
     ) -> Result<(), NetworkStateError> {
         match self.node_states.get_mut(*node_index.deref()) {
-            Some(s) => {
-                s.finalise_volume(min_volume, max_volume);
-                Ok(())
-            }
+            Some(s) => s
+                .finalise_volume(min_volume, max_volume)
+                .map_err(|source| NetworkStateError::NodeMassBalance {
+                    index: *node_index,
+                    source,
+                }),
             None => Err(NetworkStateError::NodeIndexNotFound(*node_index)),
         }
     }
@@ -590,10 +606,12 @@ impl NetworkState {
         max_volume: f64,
     ) -> Result<(), NetworkStateError> {
         match self.virtual_storage_states.get_mut(*node_index.deref()) {
-            Some(s) => {
-                s.finalise_volume(min_volume, max_volume);
-                Ok(())
-            }
+            Some(s) => s.finalise_volume(min_volume, max_volume).map_err(|source| {
+                NetworkStateError::VirtualStorageMassBalance {
+                    index: *node_index,
+                    source,
+                }
+            }),
             None => Err(NetworkStateError::VirtualStorageIndexNotFound(*node_index)),
         }
     }
diff --git a/pywr-core/src/state/storage.rs b/pywr-core/src/state/storage.rs
index 91ff129..3b97021 100644
--- a/pywr-core/src/state/storage.rs
+++ b/pywr-core/src/state/storage.rs
@@ -2,6 +2,16 @@ use crate::STORAGE_MASS_BALANCE_TOLERANCE;
 use crate::state::FlowState;
 use crate::timestep::Timestep;
 use num::Zero;
+use thiserror::Error;
+
+/// Errors raised when the volume of a storage is not consistent with its bounds.
+#[derive(Clone, Copy, Debug, Error)]
+pub enum MassBalanceError {
+    #[error("Mass-balance error detected. Volume ({volume}) is smaller than minimum volume ({min_volume}).")]
+    LessThanMinimum { volume: f64, min_volume: f64 },
+    #[error("Mass-balance error detected. Volume ({volume}) is greater than maximum volume ({max_volume}).")]
+    GreaterThanMaximum { volume: f64, max_volume: f64 },
+}
 
 /// The state of a storage node in the network.
 ///
@@ -76,27 +86,31 @@ impl StorageState {
     /// Finalise the storage state at the end of the time-step.
     ///
     /// This will clamp the volume to the min and max volume range and update the proportional volume.
-    pub fn finalise(&mut self, min_volume: f64, max_volume: f64) {
-        self.clamp(min_volume, max_volume);
+    pub fn finalise(&mut self, min_volume: f64, max_volume: f64) -> Result<(), MassBalanceError> {
+        self.clamp(min_volume, max_volume)?;
         self.max_volume = max_volume;
+        Ok(())
     }
 
     /// Ensure the volume is within the min and max volume range (inclusive). If the volume
-    /// is more than 1E6 outside the min or max volume then this function will panic,
-    /// reporting a mass-balance message.
-    fn clamp(&mut self, min_volume: f64, max_volume: f64) {
-        if (self.volume - min_volume) < -STORAGE_MASS_BALANCE_TOLERANCE {
-            panic!(
-                "Mass-balance error detected. Volume ({}) is smaller than minimum volume ({}).",
-                self.volume, min_volume
-            );
+    /// is more than the mass-balance tolerance outside the min or max volume (or is not
+    /// comparable with them) then this function will return a mass-balance error.
+    fn clamp(&mut self, min_volume: f64, max_volume: f64) -> Result<(), MassBalanceError> {
+        let above_min = self.volume >= min_volume - STORAGE_MASS_BALANCE_TOLERANCE;
+        if !above_min {
+            return Err(MassBalanceError::LessThanMinimum {
+                volume: self.volume,
+                min_volume,
+            });
         }
-        if (self.volume - max_volume) > STORAGE_MASS_BALANCE_TOLERANCE {
-            panic!(
-                "Mass-balance error detected. Volume ({}) is greater than maximum volume ({}).",
-                self.volume, max_volume,
-            );
+        let below_max = self.volume <= max_volume + STORAGE_MASS_BALANCE_TOLERANCE;
+        if !below_max {
+            return Err(MassBalanceError::GreaterThanMaximum {
+                volume: self.volume,
+                max_volume,
+            });
         }
-        self.volume = self.volume.clamp(min_volume, max_volume);
+        self.volume = self.volume.max(min_volume).min(max_volume);
+        Ok(())
     }
 }
-- 
2.43.0


From fe3d9a6686b676ffd6721cde0efa2e1bae11e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 51/73] fix: reject proportional factors of an aggregated node
 with no nodes

---
 pywr-core/src/aggregated_node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 15459c4..bc9f6a3 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -731,7 +731,7 @@ fn get_norm_proportional_factor_pairs<'a>(
     model: &Network,
     state: &State,
 ) -> Result<Vec<NodeFactorPair<'a>>, ProportionalFactorError> {
-    if factors.len() != nodes.len() - 1 {
+    if factors.len() + 1 != nodes.len() {
         return Err(ProportionalFactorError::IncorrectNumberOfFactors {
             num_factors: factors.len(),
             num_nodes: nodes.len(),
@@ -796,7 +796,7 @@ fn get_const_norm_proportional_factor_pairs<'a>(
     nodes: &'a [Vec<NodeIndex>],
     values: &ConstParameterValues,
 ) -> Result<Vec<NodeConstFactorPair<'a>>, ConstantProportionalFactorError> {
-    if factors.len() != nodes.len() - 1 {
+    if factors.len() + 1 != nodes.len() {
         return Err(ConstantProportionalFactorError::IncorrectNumberOfFactors {
             num_factors: factors.len(),
             num_nodes: nodes.len(),
-- 
2.43.0


From e8ba655dc024a3d7394444e26665db185dc45f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 52/73] fix: reject a radial basis profile that cannot be
 interpolated

---
 pywr-core/src/parameters/mod.rs          |  4 ++
 pywr-core/src/parameters/profiles/rbf.rs | 51 +++++++++++++++++-------
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/pywr-core/src/parameters/mod.rs b/pywr-core/src/parameters/mod.rs
index c6eb8c3..4c5026f 100644
--- a/pywr-core/src/parameters/mod.rs
+++ b/pywr-core/src/parameters/mod.rs
@@ -900,6 +900,8 @@ pub enum ParameterBuildError {
         expected: usize,
         found: usize,
     },
+    #[error("There is no unique interpolation between the points given in attribute `{attr}`")]
+    NoInterpolation { attr: String },
     #[error("Day {day} appears more than once in `{attr}`")]
     DuplicateDay { attr: String, day: u32 },
 }
@@ -1322,6 +1324,8 @@ pub enum VariableParameterError {
     IncorrectNumberOfValues { expected: usize, received: usize },
     #[error("Day {day} is given to more than one point")]
     DuplicateDay { day: u32 },
+    #[error("There is no unique interpolation between the points")]
+    NoInterpolation,
 }
 
 /// A parameter that can be optimised.
diff --git a/pywr-core/src/parameters/profiles/rbf.rs b/pywr-core/src/parameters/profiles/rbf.rs
index e023b0a..dcb7f24 100644
--- a/pywr-core/src/parameters/profiles/rbf.rs
+++ b/pywr-core/src/parameters/profiles/rbf.rs
@@ -237,6 +237,11 @@ impl VariableParameter<u32> for RbfProfileParameter {
                 return Err(VariableParameterError::DuplicateDay { day });
             }
 
+            let points: Vec<_> = values.iter().map(|day| (*day, 0.0)).collect();
+            if interpolation_weights(&replicate_points(&points), &self.function).is_none() {
+                return Err(VariableParameterError::NoInterpolation);
+            }
+
             let value = downcast_internal_state_mut::<RbfProfileInternalState>(internal_state);
 
             value.update_x(values.to_vec());
@@ -321,11 +326,14 @@ impl RadialBasisFunction {
     }
 }
 
-/// Perform radial-basis function interpolation from the given points.
+/// Solve for the interpolation weight of each point.
 ///
-/// The provided points are a tuple of observed (x, y) values.
-fn interpolate_rbf<const N: usize>(points: &[(f64, f64)], function: &RadialBasisFunction, x: &[f64; N]) -> [f64; N] {
+/// Returns `None` if there are no points or there is no unique solution.
+fn interpolation_weights(points: &[(f64, f64)], function: &RadialBasisFunction) -> Option<DMatrix<f64>> {
     let n = points.len();
+    if n == 0 {
+        return None;
+    }
 
     let matrix = DMatrix::from_fn(n, n, |r, c| {
         let r = (points[c].0 - points[r].0).abs();
@@ -334,10 +342,15 @@ fn interpolate_rbf<const N: usize>(points: &[(f64, f64)], function: &RadialBasis
 
     let b = DMatrix::from_fn(n, 1, |r, _| points[r].1);
 
-    let weights = matrix
-        .lu()
-        .solve(&b)
-        .expect("Failed to solve RBF system for interpolation weights.");
+    matrix.lu().solve(&b)
+}
+
+/// Perform radial-basis function interpolation from the given points.
+///
+/// The provided points are a tuple of observed (x, y) values.
+fn interpolate_rbf<const N: usize>(points: &[(f64, f64)], function: &RadialBasisFunction, x: &[f64; N]) -> [f64; N] {
+    let weights =
+        interpolation_weights(points, function).expect("Failed to solve RBF system for interpolation weights.");
 
     let mut profile = [f64::default(); N];
 
@@ -356,19 +369,23 @@ fn interpolate_rbf<const N: usize>(points: &[(f64, f64)], function: &RadialBasis
     profile
 }
 
+/// Replicate the points in the year before and after.
+fn replicate_points(points: &[(u32, f64)]) -> Vec<(f64, f64)> {
+    let year_before = points.iter().map(|p| (p.0 as f64 - 365.0, p.1));
+    let year_after = points.iter().map(|p| (p.0 as f64 + 365.0, p.1));
+    year_before
+        .chain(points.iter().map(|p| (p.0 as f64, p.1)))
+        .chain(year_after)
+        .collect()
+}
+
 /// Calculate the interpolation weights for the given points.
 ///
 /// This method repeats the point 365 days before and after the user provided points. This
 /// helps create a cyclic interpolation suitable for a annual profile. It then repeats the
 /// value for the 58th day to create a daily profile 366 days long.
 fn interpolate_rbf_profile(points: &[(u32, f64)], function: &RadialBasisFunction) -> [f64; 366] {
-    // Replicate the points in the year before and after.
-    let year_before = points.iter().map(|p| (p.0 as f64 - 365.0, p.1));
-    let year_after = points.iter().map(|p| (p.0 as f64 + 365.0, p.1));
-    let points: Vec<_> = year_before
-        .chain(points.iter().map(|p| (p.0 as f64, p.1)))
-        .chain(year_after)
-        .collect();
+    let points = replicate_points(points);
 
     let mut x_out = [f64::default(); 365];
     for (i, v) in x_out.iter_mut().enumerate() {
@@ -424,6 +441,12 @@ impl ParameterBuilder<f64> for RbfProfileParameterBuilder {
             });
         }
 
+        if interpolation_weights(&replicate_points(&self.points), &self.function).is_none() {
+            return Err(ParameterBuildError::NoInterpolation {
+                attr: "points".to_string(),
+            });
+        }
+
         let p = RbfProfileParameter {
             meta: self.meta,
             points: self.points,
-- 
2.43.0


From 2f88db1ae4fd7dc2b6d8ffe68dd4262221939887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 53/73] fix: reject ratio factors of an aggregated node with no
 nodes

---
 pywr-core/src/aggregated_node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index bc9f6a3..811fabb 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -892,7 +892,7 @@ fn get_norm_ratio_factor_pairs<'a>(
     state: &State,
 ) -> Result<Vec<NodeFactorPair<'a>>, RatioFactorError> {
     // TODO handle error cases more gracefully
-    if factors.len() != nodes.len() {
+    if factors.is_empty() || factors.len() != nodes.len() {
         return Err(RatioFactorError::IncorrectNumberOfFactors {
             num_factors: factors.len(),
             num_nodes: nodes.len(),
@@ -947,7 +947,7 @@ fn get_const_norm_ratio_factor_pairs<'a>(
     nodes: &'a [Vec<NodeIndex>],
     values: &ConstParameterValues,
 ) -> Result<Vec<NodeConstFactorPair<'a>>, ConstantRatioFactorError> {
-    if factors.len() != nodes.len() {
+    if factors.is_empty() || factors.len() != nodes.len() {
         return Err(ConstantRatioFactorError::IncorrectNumberOfFactors {
             num_factors: factors.len(),
             num_nodes: nodes.len(),
-- 
2.43.0


From 9918729f63037119324ebea363044af606e420c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 54/73] fix: reject a surface area with a different number of
 storages and areas

---
 pywr-schema/src/nodes/reservoir.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index b199a7a..1f5ce49 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -553,6 +553,13 @@ impl ReservoirNode {
                 let storage_metric = storage.load(args.tables)?;
                 let area_metric = area.load(args.tables)?;
 
+                if storage_metric.len() != area_metric.len() {
+                    return Err(SchemaError::DataLengthMismatch {
+                        expected: storage_metric.len(),
+                        found: area_metric.len(),
+                    });
+                }
+
                 let points = storage_metric
                     .into_iter()
                     .zip(area_metric)
-- 
2.43.0


From 0d6a87dc4b1a68fc18585359135f25beb3cb9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 55/73] fix: reject a rolling parameter with an empty window

---
 pywr-core/src/parameters/mod.rs     |  2 ++
 pywr-core/src/parameters/rolling.rs | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/pywr-core/src/parameters/mod.rs b/pywr-core/src/parameters/mod.rs
index 4c5026f..5506c0e 100644
--- a/pywr-core/src/parameters/mod.rs
+++ b/pywr-core/src/parameters/mod.rs
@@ -900,6 +900,8 @@ pub enum ParameterBuildError {
         expected: usize,
         found: usize,
     },
+    #[error("The window given in attribute `{attr}` must contain at least one value")]
+    EmptyWindow { attr: String },
     #[error("There is no unique interpolation between the points given in attribute `{attr}`")]
     NoInterpolation { attr: String },
     #[error("Day {day} appears more than once in `{attr}`")]
diff --git a/pywr-core/src/parameters/rolling.rs b/pywr-core/src/parameters/rolling.rs
index ecc65a2..e1ec2a1 100644
--- a/pywr-core/src/parameters/rolling.rs
+++ b/pywr-core/src/parameters/rolling.rs
@@ -320,6 +320,12 @@ impl ParameterBuilder<f64> for RollingParameterBuilder<UnresolvedMetricF64, f64,
         self: Box<Self>,
         resolution_maps: &ResolutionMaps,
     ) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
+        if self.window_size == 0 {
+            return Err(ParameterBuildError::EmptyWindow {
+                attr: "window_size".to_string(),
+            });
+        }
+
         // Phase is hardcoded to "after" for this parameter, as it only uses the metric
         // values in the after phase to update internal state.
         let phase = MetricConsumerPhase::After;
@@ -363,6 +369,12 @@ impl ParameterBuilder<u64> for RollingParameterBuilder<UnresolvedMetricU64, u64,
         self: Box<Self>,
         resolution_maps: &ResolutionMaps,
     ) -> Result<MaybeBuiltParameter<u64>, ParameterBuildError> {
+        if self.window_size == 0 {
+            return Err(ParameterBuildError::EmptyWindow {
+                attr: "window_size".to_string(),
+            });
+        }
+
         // Phase is hardcoded to "after" for this parameter, as it only uses the metric
         // values in the after phase to update internal state.
         let phase = MetricConsumerPhase::After;
-- 
2.43.0


From bd965dc232d123de1475c7c85daa6b01cb6ef689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 56/73] fix: reject an aggregation period of a negative number
 of days

---
 pywr-core/src/recorders/aggregator/mod.rs | 8 ++++++++
 pywr-core/src/recorders/metric_set.rs     | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index f493fa6..adbb7fb 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -303,6 +303,14 @@ impl Aggregator {
         }
     }
 
+    /// Find the number of days of a period, of this aggregator or its children, that is not positive.
+    pub(crate) fn non_positive_period(&self) -> Option<i64> {
+        match &self.agg.frequency {
+            Some(AggregationFrequency::Days(days)) if days.get() <= 0 => Some(days.get()),
+            _ => self.child.as_ref().and_then(|child| child.non_positive_period()),
+        }
+    }
+
     pub fn setup(&self) -> AggregatorState {
         AggregatorState {
             state: self.agg.setup(),
diff --git a/pywr-core/src/recorders/metric_set.rs b/pywr-core/src/recorders/metric_set.rs
index b2785d3..b2691c5 100644
--- a/pywr-core/src/recorders/metric_set.rs
+++ b/pywr-core/src/recorders/metric_set.rs
@@ -216,6 +216,8 @@ pub enum MetricSetBuilderError {
         #[source]
         source: MetricF64ResolutionError,
     },
+    #[error("The aggregation period must be a positive number of days, but found: {days}")]
+    InvalidAggregationPeriod { days: i64 },
 }
 
 #[derive(Debug)]
@@ -248,6 +250,10 @@ impl MetricSetBuilder {
     }
 
     pub fn build(self, resolution_maps: &ResolutionMaps) -> Result<MetricSet, MetricSetBuilderError> {
+        if let Some(days) = self.aggregator.as_ref().and_then(|a| a.non_positive_period()) {
+            return Err(MetricSetBuilderError::InvalidAggregationPeriod { days });
+        }
+
         let metrics = self
             .metrics
             .into_iter()
-- 
2.43.0


From e0fcaf203aa819fefea9f33a7510d528c67d1626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 57/73] fix: reject invalid dates and factor counts of a
 virtual storage

---
 pywr-core/src/virtual_storage.rs | 39 ++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/pywr-core/src/virtual_storage.rs b/pywr-core/src/virtual_storage.rs
index 912ab93..3437271 100644
--- a/pywr-core/src/virtual_storage.rs
+++ b/pywr-core/src/virtual_storage.rs
@@ -31,6 +31,23 @@ pub enum VirtualStorageNodeBuilderError {
     NodeIndexNotFound { node: UnresolvedNode },
     #[error("Error building relationship: {0}")]
     RelationshipBuildError(#[from] RelationshipBuildError),
+    #[error("Incorrect number of factors; found {found}, expected {expected}")]
+    IncorrectNumberOfFactors { found: usize, expected: usize },
+    #[error("The {attr} is not a valid date: day: {day}, month: {month}")]
+    InvalidDate { attr: String, day: i8, month: i8 },
+}
+
+/// Check that `day` and `month` are a day of the year. The 29th February is a valid day.
+fn check_day_of_year(attr: &str, day: i8, month: i8) -> Result<(), VirtualStorageNodeBuilderError> {
+    // Use a leap year to include 29th February
+    match Date::new(2016, month, day) {
+        Ok(_) => Ok(()),
+        Err(_) => Err(VirtualStorageNodeBuilderError::InvalidDate {
+            attr: attr.to_string(),
+            day,
+            month,
+        }),
+    }
 }
 
 /// Builder for creating a [`VirtualStorageNode`] node.
@@ -248,6 +265,28 @@ impl VirtualStorageNodeBuilder {
 
         // Default to unit factors if none provided
         let factors = self.factors.clone().unwrap_or_else(|| vec![1.0; self.nodes.len()]);
+        if factors.len() != self.nodes.len() {
+            return Err(VirtualStorageNodeBuilderError::IncorrectNumberOfFactors {
+                found: factors.len(),
+                expected: self.nodes.len(),
+            });
+        }
+
+        if let VirtualStorageReset::DayOfYear { day, month } = self.reset {
+            check_day_of_year("reset", day, month)?;
+        }
+
+        if let VirtualStorageActivePeriod::Period {
+            start_day,
+            start_month,
+            end_day,
+            end_month,
+        } = self.active_period
+        {
+            check_day_of_year("start of the active period", start_day, start_month)?;
+            check_day_of_year("end of the active period", end_day, end_month)?;
+        }
+
         let nodes = self
             .nodes
             .iter()
-- 
2.43.0


From e8f50d2b7c4a6f04995e087e99dd0979cfa0c70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 58/73] fix: an integer metric of a node is an error, not a
 panic

---
 pywr-schema/src/metric.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/pywr-schema/src/metric.rs b/pywr-schema/src/metric.rs
index 0ac0e21..5f18e98 100644
--- a/pywr-schema/src/metric.rs
+++ b/pywr-schema/src/metric.rs
@@ -319,15 +319,10 @@ impl NodeAttrReference {
     /// Load a node reference into a [`MetricUsize`].
     #[cfg(feature = "core")]
     pub fn load_u64(&self, args: &LoadArgs) -> Result<UnresolvedMetricU64, SchemaError> {
-        // This is the associated node in the schema
-        let _node = args
-            .schema
-            .get_node_by_name(&self.name)
-            .ok_or_else(|| SchemaError::NodeNotFound {
-                name: self.name.clone(),
-            })?;
-
-        todo!("Support usize attributes on nodes.")
+        // None of the attributes of a node is an integer.
+        Err(SchemaError::NodeAttributeNotSupported {
+            attr: self.attribute(args)?,
+        })
     }
 
     /// Return the attribute of the node. If the attribute is not specified then the default
@@ -419,15 +414,10 @@ impl VirtualNodeAttrReference {
         _network: &mut pywr_core::network::Network,
         args: &LoadArgs,
     ) -> Result<UnresolvedMetricU64, SchemaError> {
-        // This is the associated node in the schema
-        let _node =
-            args.schema
-                .get_virtual_node_by_name(&self.name)
-                .ok_or_else(|| SchemaError::VirtualNodeNotFound {
-                    name: self.name.clone(),
-                })?;
-
-        todo!("Support usize attributes on nodes.")
+        // None of the attributes of a node is an integer.
+        Err(SchemaError::NodeAttributeNotSupported {
+            attr: self.attribute(args)?,
+        })
     }
 
     /// Return the attribute of the node. If the attribute is not specified then the default
-- 
2.43.0


From 2af206d43a19be461f62662405a15a2e2608fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 59/73] fix: an integer inter-network transfer is an error, not
 a panic

---
 pywr-core/src/metric.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/metric.rs b/pywr-core/src/metric.rs
index f099220..10d13a6 100644
--- a/pywr-core/src/metric.rs
+++ b/pywr-core/src/metric.rs
@@ -1323,6 +1323,8 @@ impl SimpleMetricU64 {
 
 #[derive(Debug, Error)]
 pub enum MetricU64Error {
+    #[error("Integer inter-network transfers are not supported.")]
+    InterNetworkTransferNotSupported,
     #[error("Index parameter not found: {index}")]
     IndexParameterNotFound { index: SimpleParameterIndex<u64> },
     #[error("Multi-parameter not found: {index}, key: {key}")]
@@ -1376,7 +1378,7 @@ impl MetricU64 {
                 Ok(*value)
             }
             Self::Simple(s) => Ok(s.get_value(&state.get_simple_parameter_values())?),
-            Self::InterNetworkTransfer(_idx) => todo!("Support usize for inter-network transfers"),
+            Self::InterNetworkTransfer(_idx) => Err(MetricU64Error::InterNetworkTransferNotSupported),
         }
     }
 }
-- 
2.43.0


From 5e5a3d10ec26ea82b3698bbc4f5527dcce7b168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 60/73] fix: unsupported v1 components are conversion errors,
 not panics

---
 pywr-schema/src/nodes/mod.rs      | 20 ++++++++++++++++++--
 pywr-schema/src/parameters/mod.rs | 30 +++++++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/pywr-schema/src/nodes/mod.rs b/pywr-schema/src/nodes/mod.rs
index 26d6c03..743a12a 100644
--- a/pywr-schema/src/nodes/mod.rs
+++ b/pywr-schema/src/nodes/mod.rs
@@ -700,10 +700,26 @@ impl TryFromV1<Box<CoreNodeV1>> for NodeOrVirtualNode {
                 VirtualNode::VirtualStorage(n.try_into_v2(parent_node, conversion_data)?).into()
             }
             CoreNodeV1::PiecewiseLink(n) => Node::PiecewiseLink(n.try_into_v2(parent_node, conversion_data)?).into(),
-            CoreNodeV1::MultiSplitLink(_) => todo!(),
+            CoreNodeV1::MultiSplitLink(n) => {
+                return Err(Box::new(ComponentConversionError::Node {
+                    name: n.meta.name,
+                    attr: "".to_string(),
+                    error: ConversionError::UnsupportedFeature {
+                        feature: "MultiSplitLink nodes can not be converted.".to_string(),
+                    },
+                }));
+            }
             CoreNodeV1::BreakLink(n) => Node::Link(n.try_into_v2(parent_node, conversion_data)?).into(),
             CoreNodeV1::Delay(n) => Node::Delay(n.try_into()?).into(),
-            CoreNodeV1::RiverSplit(_) => todo!("Conversion of RiverSplit nodes"),
+            CoreNodeV1::RiverSplit(n) => {
+                return Err(Box::new(ComponentConversionError::Node {
+                    name: n.meta.name,
+                    attr: "".to_string(),
+                    error: ConversionError::UnsupportedFeature {
+                        feature: "RiverSplit nodes can not be converted.".to_string(),
+                    },
+                }));
+            }
             CoreNodeV1::MonthlyVirtualStorage(n) => {
                 VirtualNode::VirtualStorage(n.try_into_v2(parent_node, conversion_data)?).into()
             }
diff --git a/pywr-schema/src/parameters/mod.rs b/pywr-schema/src/parameters/mod.rs
index 067ccb1..bffae41 100644
--- a/pywr-schema/src/parameters/mod.rs
+++ b/pywr-schema/src/parameters/mod.rs
@@ -658,8 +658,24 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::MultipleThresholdParameterIndex(p) => {
                     Parameter::MultiThreshold(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::CurrentYearThreshold(_) => todo!(),
-                CoreParameter::CurrentOrdinalDayThreshold(_) => todo!(),
+                CoreParameter::CurrentYearThreshold(p) => {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
+                        attr: "".to_string(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "CurrentYearThresholdParameter can not be converted.".to_string(),
+                        },
+                    }));
+                }
+                CoreParameter::CurrentOrdinalDayThreshold(p) => {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
+                        attr: "".to_string(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "CurrentOrdinalDayThresholdParameter can not be converted.".to_string(),
+                        },
+                    }));
+                }
                 CoreParameter::TablesArray(p) => {
                     Parameter::TablesArray(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
@@ -711,7 +727,15 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::RollingMeanFlowNode(p) => {
                     Parameter::Rolling(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::ScenarioWrapper(_) => todo!("Implement ScenarioWrapperParameter"),
+                CoreParameter::ScenarioWrapper(p) => {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
+                        attr: "".to_string(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "ScenarioWrapperParameter can not be converted.".to_string(),
+                        },
+                    }));
+                }
                 CoreParameter::Flow(p) => {
                     return Err(Box::new(ComponentConversionError::Parameter {
                         name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
-- 
2.43.0


From 3a6f3f4b3db3ddbd2644a3d0c9ee0d939ea05204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 61/73] fix: v1 timeseries references of virtual nodes are
 converted

---
 pywr-schema/src/network.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index a1c3986..16b5ca9 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -444,6 +444,7 @@ impl NetworkSchema {
         };
 
         nodes.visit_metrics_mut(update_to_ts_ref);
+        virtual_nodes.visit_metrics_mut(update_to_ts_ref);
         parameters.visit_metrics_mut(update_to_ts_ref);
 
         for table in v1.tables.into_iter().flatten() {
-- 
2.43.0


From 63031c51c347b7e806a2821929186ad672b6b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 62/73] fix: v1 references to virtual nodes are converted to
 virtual node metrics

---
 pywr-schema/src/parameters/control_curves.rs | 13 +++++++------
 pywr-schema/src/parameters/interpolated.rs   | 16 ++++------------
 pywr-schema/src/parameters/polynomial.rs     |  9 +++------
 pywr-schema/src/parameters/rolling.rs        | 10 +++-------
 pywr-schema/src/parameters/thresholds.rs     | 10 +++++-----
 pywr-schema/src/v1.rs                        | 17 +++++++++++++++--
 6 files changed, 37 insertions(+), 38 deletions(-)

diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index a4c53c0..2f39481 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -6,7 +6,7 @@ use crate::metric::{Metric, NodeAttrReference, VirtualNodeAttrReference};
 use crate::network::LoadArgs;
 use crate::nodes::NodeAttribute;
 use crate::parameters::{ConversionData, ParameterMeta};
-use crate::v1::{TryFromV1, TryIntoV2, try_convert_control_curves, try_convert_parameter_attr};
+use crate::v1::{TryFromV1, TryIntoV2, convert_node_reference, try_convert_control_curves, try_convert_parameter_attr};
 
 #[cfg(feature = "core")]
 use pywr_core::parameters::{ParameterName, PiecewiseInterpolatedParameterBuilder};
@@ -242,15 +242,16 @@ impl TryFromV1<ControlCurveParameterV1> for ControlCurveIndexParameter {
         };
 
         // v1 uses proportional volume for control curves
-        let storage_node = NodeAttrReference {
-            name: v1.storage_node,
-            attribute: Some(NodeAttribute::ProportionalVolume),
-        };
+        let storage_metric = convert_node_reference(
+            v1.storage_node,
+            Some(NodeAttribute::ProportionalVolume),
+            conversion_data,
+        );
 
         let p = Self {
             meta,
             control_curves,
-            storage_metric: storage_node.into(),
+            storage_metric,
         };
         Ok(p)
     }
diff --git a/pywr-schema/src/parameters/interpolated.rs b/pywr-schema/src/parameters/interpolated.rs
index 2951c96..35146c4 100644
--- a/pywr-schema/src/parameters/interpolated.rs
+++ b/pywr-schema/src/parameters/interpolated.rs
@@ -2,11 +2,11 @@ use crate::ConversionError;
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::{ConversionData, ParameterMeta};
-use crate::v1::{TryFromV1, TryIntoV2, try_convert_parameter_attr};
+use crate::v1::{TryFromV1, TryIntoV2, convert_node_reference, try_convert_parameter_attr};
 #[cfg(feature = "core")]
 use pywr_core::parameters::ParameterName;
 use pywr_schema_macros::{PywrVisitAll, skip_serializing_none};
@@ -88,12 +88,8 @@ impl TryFromV1<InterpolatedFlowParameterV1> for InterpolatedParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
         // This defaults to v2's default metric
-        let x = Metric::Node(node_ref);
+        let x = convert_node_reference(v1.node, None, conversion_data);
 
         let xp = v1
             .flows
@@ -154,12 +150,8 @@ impl TryFromV1<InterpolatedVolumeParameterV1> for InterpolatedParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
         // This defaults to the node's inflow; not sure if we can do better than that.
-        let x = Metric::Node(node_ref);
+        let x = convert_node_reference(v1.node, None, conversion_data);
 
         let xp = v1
             .volumes
diff --git a/pywr-schema/src/parameters/polynomial.rs b/pywr-schema/src/parameters/polynomial.rs
index acc9f1b..df13fa8 100644
--- a/pywr-schema/src/parameters/polynomial.rs
+++ b/pywr-schema/src/parameters/polynomial.rs
@@ -1,12 +1,12 @@
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::nodes::NodeAttribute;
 use crate::parameters::{ConversionData, ParameterMeta};
-use crate::v1::{TryFromV1, TryIntoV2};
+use crate::v1::{TryFromV1, TryIntoV2, convert_node_reference};
 #[cfg(feature = "core")]
 use pywr_core::parameters::ParameterName;
 use pywr_schema_macros::{PywrVisitAll, skip_serializing_none};
@@ -63,10 +63,7 @@ impl TryFromV1<Polynomial1DParameterV1> for Polynomial1DParameter {
             false => Some(NodeAttribute::Volume),
         };
 
-        let metric = Metric::Node(NodeAttrReference {
-            name: v1.storage_node,
-            attribute,
-        });
+        let metric = convert_node_reference(v1.storage_node, attribute, conversion_data);
 
         Ok(Self {
             meta: v1.meta.try_into_v2(parent_node, conversion_data)?,
diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index 04e025d..670412b 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -1,11 +1,11 @@
 use crate::agg_funcs::{AggFunc, IndexAggFunc};
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{IndexMetric, Metric, NodeAttrReference};
+use crate::metric::{IndexMetric, Metric};
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::ParameterMeta;
-use crate::v1::TryIntoV2;
+use crate::v1::{TryIntoV2, convert_node_reference};
 use crate::{ComponentConversionError, ConversionData, ConversionError, TryFromV1};
 #[cfg(feature = "core")]
 use pywr_core::parameters::ParameterName;
@@ -140,11 +140,7 @@ impl TryFromV1<RollingMeanFlowNodeParameterV1> for RollingParameter {
         };
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
-        let metric = Metric::Node(node_ref);
+        let metric = convert_node_reference(v1.node, None, conversion_data);
 
         // pywr 1 does not support interpolation
         let p = Self {
diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index 38079f7..14e57d5 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -2,11 +2,11 @@ use crate::ConversionError;
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::{ConversionData, ParameterMeta};
-use crate::v1::{TryFromV1, TryIntoV2, try_convert_parameter_attr};
+use crate::v1::{TryFromV1, TryIntoV2, convert_node_reference, try_convert_parameter_attr};
 #[cfg(feature = "core")]
 use pywr_core::{metric::UnresolvedMetricU64, parameters::ParameterName};
 use pywr_schema_macros::{PywrVisitAll, skip_serializing_none};
@@ -209,7 +209,7 @@ impl TryFromV1<NodeThresholdParameterV1> for ThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.node, None));
+        let metric = convert_node_reference(v1.node, None, conversion_data);
 
         let threshold =
             try_convert_parameter_attr(&meta.name, "threshold", v1.threshold, parent_node, conversion_data)?;
@@ -256,7 +256,7 @@ impl TryFromV1<StorageThresholdParameterV1> for ThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.storage_node, None));
+        let metric = convert_node_reference(v1.storage_node, None, conversion_data);
 
         let returned_metrics: Option<[Metric; 2]> = match v1.values {
             Some(v) => {
@@ -383,7 +383,7 @@ impl TryFromV1<MultiThresholdIndexParameterV1> for MultiThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.node, None));
+        let metric = convert_node_reference(v1.node, None, conversion_data);
 
         let thresholds = v1
             .thresholds
diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index 65e5b19..d5dbeab 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -14,8 +14,8 @@ use std::collections::HashMap;
 
 use crate::ConversionError;
 use crate::error::ComponentConversionError;
-use crate::metric::Metric;
-use crate::nodes::{NodeMeta, StorageInitialVolume};
+use crate::metric::{Metric, NodeAttrReference, VirtualNodeAttrReference};
+use crate::nodes::{NodeAttribute, NodeMeta, StorageInitialVolume};
 use crate::parameters::{ConstantFloatVec, Parameter, ParameterMeta};
 use crate::timeseries::Timeseries;
 use pywr_v1_schema::nodes::NodeMeta as NodeMetaV1;
@@ -214,6 +214,19 @@ pub fn try_convert_node_meta(v1: NodeMetaV1) -> Result<NodeMeta, Box<ComponentCo
     })
 }
 
+/// Helper function to convert a node name, and an attribute of it, to a metric.
+pub fn convert_node_reference(
+    name: String,
+    attribute: Option<NodeAttribute>,
+    conversion_data: &ConversionData,
+) -> Metric {
+    if conversion_data.virtual_nodes.contains(&name) {
+        VirtualNodeAttrReference { name, attribute }.into()
+    } else {
+        NodeAttrReference { name, attribute }.into()
+    }
+}
+
 /// Helper function to convert initial storage from v1 to v2.
 pub fn try_convert_initial_storage(
     name: &str,
-- 
2.43.0


From a5bde657fc788a9409969c23849e42a55d45a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:46 +0000
Subject: [PATCH 63/73] fix: a v1 control curve that cannot be converted is not
 turned into an index

---
 pywr-schema/src/parameters/control_curves.rs | 10 +++++++++-
 pywr-schema/src/parameters/mod.rs            |  7 ++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index 2f39481..23574f9 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -313,7 +313,15 @@ impl TryFromV1<ControlCurveParameterV1> for ControlCurveParameter {
             conversion_data,
         )?;
 
-        let values = if let Some(values) = v1.values {
+        let values = if v1.values.is_some() && v1.parameters.is_some() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "values".to_string(),
+                error: ConversionError::AmbiguousAttributes {
+                    attrs: vec!["values".to_string(), "parameters".to_string()],
+                },
+            }));
+        } else if let Some(values) = v1.values {
             values.into_iter().map(Metric::from).collect()
         } else if let Some(parameters) = v1.parameters {
             parameters
diff --git a/pywr-schema/src/parameters/mod.rs b/pywr-schema/src/parameters/mod.rs
index bffae41..2e7483d 100644
--- a/pywr-schema/src/parameters/mod.rs
+++ b/pywr-schema/src/parameters/mod.rs
@@ -622,9 +622,10 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::ControlCurveIndex(p) => {
                     Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::ControlCurve(p) => match p.clone().try_into_v2(parent_node, conversion_data) {
-                    Ok(p) => Parameter::ControlCurve(p).into(),
-                    Err(_) => Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into(),
+                // A control curve without any values or parameters gives the index of its curves.
+                CoreParameter::ControlCurve(p) => match (&p.values, &p.parameters) {
+                    (None, None) => Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into(),
+                    _ => Parameter::ControlCurve(p.try_into_v2(parent_node, conversion_data)?).into(),
                 },
                 CoreParameter::DailyProfile(p) => {
                     Parameter::DailyProfile(p.try_into_v2(parent_node, conversion_data)?).into()
-- 
2.43.0


From a1de204b96b65c1f98115986dd0b5a45440af018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 64/73] fix: a v1 constant parameter without a value is not
 converted to zero

---
 pywr-schema/src/parameters/core.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/parameters/core.rs b/pywr-schema/src/parameters/core.rs
index 9efa6d4..51022d2 100644
--- a/pywr-schema/src/parameters/core.rs
+++ b/pywr-schema/src/parameters/core.rs
@@ -1,4 +1,4 @@
-use crate::error::ComponentConversionError;
+use crate::error::{ComponentConversionError, ConversionError};
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
 use crate::metric::Metric;
@@ -196,6 +196,14 @@ impl TryFromV1<ConstantParameterV1> for ConstantParameter {
 
         let value = if let Some(v) = v1.value {
             v.into()
+        } else if v1.external.is_some() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "url".to_string(),
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["url".to_string()],
+                },
+            }));
         } else if let Some(tbl) = v1.table {
             ConstantValue::Table(tbl.try_into().map_err(|error| ComponentConversionError::Parameter {
                 name: meta.name.clone(),
@@ -203,7 +211,13 @@ impl TryFromV1<ConstantParameterV1> for ConstantParameter {
                 error,
             })?)
         } else {
-            0.0.into()
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "value".to_string(),
+                error: ConversionError::MissingAttribute {
+                    attrs: vec!["value".to_string(), "table".to_string()],
+                },
+            }));
         };
 
         let p = Self {
-- 
2.43.0


From 09e3c872f59cf7c50d56961ccb7857927a67fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 65/73] fix: v1 piecewise link steps without a cost or max flow
 are not dropped

---
 pywr-schema/src/nodes/piecewise_link.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/piecewise_link.rs b/pywr-schema/src/nodes/piecewise_link.rs
index 96127b2..5b9d6e4 100644
--- a/pywr-schema/src/nodes/piecewise_link.rs
+++ b/pywr-schema/src/nodes/piecewise_link.rs
@@ -1,4 +1,4 @@
-use crate::error::ComponentConversionError;
+use crate::error::{ComponentConversionError, ConversionError};
 use crate::metric::Metric;
 use crate::nodes::NodeMeta;
 use crate::parameters::Parameter;
@@ -225,6 +225,19 @@ impl TryFromV1<PiecewiseLinkNodeV1> for PiecewiseLinkNode {
                 .collect::<Result<Vec<_>, _>>()?,
         };
 
+        for (attr, found) in [("costs", costs.len()), ("max_flows", max_flows.len())] {
+            if found != v1.nsteps {
+                return Err(Box::new(ComponentConversionError::Node {
+                    attr: attr.to_string(),
+                    name: meta.name,
+                    error: ConversionError::IncorrectNumberOfValues {
+                        expected: v1.nsteps,
+                        found,
+                    },
+                }));
+            }
+        }
+
         let steps = costs
             .into_iter()
             .zip(max_flows)
-- 
2.43.0


From 3794af8f5be8777e32a3502efcefb268d859a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 66/73] fix: the cost and unmatched slots of a v1 river split
 with gauge are not dropped

---
 .../src/nodes/river_split_with_gauge.rs       | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pywr-schema/src/nodes/river_split_with_gauge.rs b/pywr-schema/src/nodes/river_split_with_gauge.rs
index 1e7649f..daee445 100644
--- a/pywr-schema/src/nodes/river_split_with_gauge.rs
+++ b/pywr-schema/src/nodes/river_split_with_gauge.rs
@@ -293,9 +293,30 @@ impl TryFromV1<RiverSplitWithGaugeNodeV1> for RiverSplitWithGaugeNode {
     ) -> Result<Self, Self::Error> {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
+        if v1.cost.is_some() {
+            return Err(Box::new(ComponentConversionError::Node {
+                attr: "cost".to_string(),
+                name: meta.name,
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["cost".to_string()],
+                },
+            }));
+        }
+
         let mrf = try_convert_node_attr(&meta.name, "mrf", v1.mrf, parent_node, conversion_data)?;
         let mrf_cost = try_convert_node_attr(&meta.name, "mrf_cost", v1.mrf_cost, parent_node, conversion_data)?;
 
+        if v1.slot_names.len() != v1.factors.len() {
+            return Err(Box::new(ComponentConversionError::Node {
+                attr: "slot_names".to_string(),
+                name: meta.name,
+                error: ConversionError::IncorrectNumberOfValues {
+                    expected: v1.factors.len(),
+                    found: v1.slot_names.len(),
+                },
+            }));
+        }
+
         let factors = convert_factors(v1.factors, parent_node, conversion_data).map_err(|error| {
             ComponentConversionError::Node {
                 attr: "factors".to_string(),
-- 
2.43.0


From 7a201909f385fe4f0d78cc701d4b95b1ad2c3eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 67/73] fix: the flow weights of a v1 aggregated node are not
 dropped

---
 pywr-schema/src/nodes/virtual_nodes/aggregated.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/virtual_nodes/aggregated.rs b/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
index 1f29cd8..e3b9266 100644
--- a/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
@@ -1,4 +1,4 @@
-use crate::error::ComponentConversionError;
+use crate::error::{ComponentConversionError, ConversionError};
 use crate::metric::{Metric, NodeComponentReference};
 use crate::node_attribute_subset_enum;
 use crate::nodes::NodeMeta;
@@ -240,6 +240,16 @@ impl TryFromV1<AggregatedNodeV1> for AggregatedNode {
     ) -> Result<Self, Self::Error> {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
+        if v1.flow_weights.is_some() {
+            return Err(Box::new(ComponentConversionError::Node {
+                attr: "flow_weights".to_string(),
+                name: meta.name,
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["flow_weights".to_string()],
+                },
+            }));
+        }
+
         let relationship = match v1.factors {
             Some(f) => Some(Relationship::Ratio {
                 factors: f
-- 
2.43.0


From 3382b33d3a186a0844f796816e8bd094d1453df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 68/73] fix: v1 initial months, piecewise parameters and
 unmatched profile values are not dropped

---
 .../src/nodes/virtual_nodes/virtual_storage.rs        | 11 +++++++++++
 pywr-schema/src/parameters/control_curves.rs          | 10 ++++++++++
 pywr-schema/src/parameters/core.rs                    |  2 +-
 pywr-schema/src/parameters/profiles.rs                | 11 +++++++++++
 4 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
index 3b3048d..9172291 100644
--- a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
@@ -424,6 +424,17 @@ impl TryFromV1<MonthlyVirtualStorageNodeV1> for VirtualStorageNode {
     ) -> Result<Self, Self::Error> {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
+        // There is no equivalent of the months already passed; only the default can be converted.
+        if v1.initial_months != 1 {
+            return Err(Box::new(ComponentConversionError::Node {
+                attr: "initial_months".to_string(),
+                name: meta.name,
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["initial_months".to_string()],
+                },
+            }));
+        }
+
         let cost = try_convert_node_attr(&meta.name, "cost", v1.cost, parent_node, conversion_data)?;
         let max_volume = try_convert_node_attr(&meta.name, "max_volume", v1.max_volume, parent_node, conversion_data)?;
         let min_volume = try_convert_node_attr(&meta.name, "min_volume", v1.min_volume, parent_node, conversion_data)?;
diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index 23574f9..b73120a 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -417,6 +417,16 @@ impl TryFromV1<ControlCurvePiecewiseInterpolatedParameterV1> for ControlCurvePie
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
+        if v1.parameters.is_some() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "parameters".to_string(),
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["parameters".to_string()],
+                },
+            }));
+        }
+
         let control_curves = try_convert_control_curves(
             &meta.name,
             v1.control_curves,
diff --git a/pywr-schema/src/parameters/core.rs b/pywr-schema/src/parameters/core.rs
index 51022d2..240f6c7 100644
--- a/pywr-schema/src/parameters/core.rs
+++ b/pywr-schema/src/parameters/core.rs
@@ -1,6 +1,6 @@
-use crate::error::{ComponentConversionError, ConversionError};
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
+use crate::error::{ComponentConversionError, ConversionError};
 use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
diff --git a/pywr-schema/src/parameters/profiles.rs b/pywr-schema/src/parameters/profiles.rs
index a7c9023..ea329fc 100644
--- a/pywr-schema/src/parameters/profiles.rs
+++ b/pywr-schema/src/parameters/profiles.rs
@@ -423,6 +423,17 @@ impl TryFromV1<RbfProfileParameterV1> for RbfProfileParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
+        if v1.days_of_year.len() != v1.values.len() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "values".to_string(),
+                error: ConversionError::IncorrectNumberOfValues {
+                    expected: v1.days_of_year.len(),
+                    found: v1.values.len(),
+                },
+            }));
+        }
+
         let points = v1.days_of_year.into_iter().zip(v1.values).collect();
 
         if v1.rbf_kwargs.contains_key("smooth") {
-- 
2.43.0


From 293d07e8cd0cab245f0368765b49fdf32fd2f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 69/73] fix: v1 integers that v2 cannot represent are errors,
 not wrapped around

---
 pywr-schema/src/error.rs                      |  2 +
 pywr-schema/src/nodes/delay.rs                | 10 ++---
 .../nodes/virtual_nodes/virtual_storage.rs    | 27 +++++++-----
 pywr-schema/src/parameters/discount_factor.rs |  5 ++-
 pywr-schema/src/parameters/rolling.rs         |  4 +-
 pywr-schema/src/v1.rs                         | 43 +++++++++++++++++++
 6 files changed, 71 insertions(+), 20 deletions(-)

diff --git a/pywr-schema/src/error.rs b/pywr-schema/src/error.rs
index 32770d9..894e67c 100644
--- a/pywr-schema/src/error.rs
+++ b/pywr-schema/src/error.rs
@@ -229,6 +229,8 @@ pub enum ConversionError {
     UnrecognisedType { ty: String },
     #[error("Non-constant value cannot be converted automatically.")]
     NonConstantValue {},
+    #[error("Value is out of range: {value}")]
+    ValueOutOfRange { value: String },
     #[error("{found:?} value(s) found, {expected:?} were expected")]
     IncorrectNumberOfValues { expected: usize, found: usize },
     #[error("Scenario slice is invalid: length is {length}, expected 1 or 2.")]
diff --git a/pywr-schema/src/nodes/delay.rs b/pywr-schema/src/nodes/delay.rs
index b5820eb..17a7573 100644
--- a/pywr-schema/src/nodes/delay.rs
+++ b/pywr-schema/src/nodes/delay.rs
@@ -1,7 +1,7 @@
 use crate::error::{ComponentConversionError, ConversionError};
 use crate::nodes::NodeMeta;
 use crate::parameters::{ConstantValue, Parameter};
-use crate::v1::try_convert_node_meta;
+use crate::v1::{try_convert_node_integer, try_convert_node_meta};
 #[cfg(feature = "core")]
 use crate::{
     error::SchemaError,
@@ -170,10 +170,10 @@ impl TryFrom<DelayNodeV1> for DelayNode {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
         // TODO convert days & timesteps to a usize as we don;t support non-daily timesteps at the moment
-        let delay = match v1.days {
-            Some(days) => days,
+        let delay: u64 = match v1.days {
+            Some(days) => try_convert_node_integer(&meta.name, "days", days)?,
             None => match v1.timesteps {
-                Some(ts) => ts,
+                Some(ts) => try_convert_node_integer(&meta.name, "timesteps", ts)?,
                 None => {
                     return Err(Box::new(ComponentConversionError::Node {
                         name: meta.name,
@@ -184,7 +184,7 @@ impl TryFrom<DelayNodeV1> for DelayNode {
                     }));
                 }
             },
-        } as u64;
+        };
 
         let initial_value = v1.initial_flow.unwrap_or_default().into();
 
diff --git a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
index 9172291..75f21fb 100644
--- a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
@@ -8,7 +8,10 @@ use crate::nodes::NodeAttribute;
 use crate::nodes::NodeMeta;
 use crate::nodes::core::StorageInitialVolume;
 use crate::parameters::Parameter;
-use crate::v1::{ConversionData, TryFromV1, try_convert_initial_storage, try_convert_node_attr, try_convert_node_meta};
+use crate::v1::{
+    ConversionData, TryFromV1, try_convert_initial_storage, try_convert_node_attr, try_convert_node_integer,
+    try_convert_node_meta,
+};
 use crate::{ConversionError, node_attribute_subset_enum};
 #[cfg(feature = "core")]
 use pywr_core::{
@@ -394,6 +397,11 @@ impl TryFromV1<AnnualVirtualStorageNodeV1> for VirtualStorageNode {
             Some(VirtualStorageResetVolume::Max)
         };
 
+        let reset = VirtualStorageReset::Annual(AnnualReset {
+            day: try_convert_node_integer(&meta.name, "reset_day", v1.reset_day)?,
+            month: try_convert_node_integer(&meta.name, "reset_month", v1.reset_month)?,
+        });
+
         let n = Self {
             meta,
             parameters: None,
@@ -403,10 +411,7 @@ impl TryFromV1<AnnualVirtualStorageNodeV1> for VirtualStorageNode {
             min_volume,
             cost,
             initial_volume,
-            reset: Some(VirtualStorageReset::Annual(AnnualReset {
-                day: v1.reset_day as i8,
-                month: v1.reset_month as i8,
-            })),
+            reset: Some(reset),
             reset_volume,
             window: None,
         };
@@ -485,7 +490,7 @@ impl TryFromV1<RollingVirtualStorageNodeV1> for VirtualStorageNode {
             try_convert_initial_storage(&meta.name, "initial_volume", v1.initial_volume, v1.initial_volume_pc)?;
 
         let window = if let Some(days) = v1.days {
-            if let Some(days) = NonZeroUsize::new(days as usize) {
+            if let Some(days) = NonZeroUsize::new(try_convert_node_integer(&meta.name, "days", days)?) {
                 RollingWindow::Days { days }
             } else {
                 return Err(Box::new(ComponentConversionError::Node {
@@ -497,7 +502,7 @@ impl TryFromV1<RollingVirtualStorageNodeV1> for VirtualStorageNode {
                 }));
             }
         } else if let Some(timesteps) = v1.timesteps {
-            if let Some(timesteps) = NonZeroUsize::new(timesteps as usize) {
+            if let Some(timesteps) = NonZeroUsize::new(try_convert_node_integer(&meta.name, "timesteps", timesteps)?) {
                 RollingWindow::Timesteps { timesteps }
             } else {
                 return Err(Box::new(ComponentConversionError::Node {
@@ -563,10 +568,10 @@ impl TryFromV1<SeasonalVirtualStorageNodeV1> for VirtualStorageNode {
         };
 
         let reset = VirtualStorageReset::Seasonal(SeasonalReset {
-            start_day: v1.reset_day as i8,
-            start_month: v1.reset_month as i8,
-            end_day: v1.end_day as i8,
-            end_month: v1.end_month as i8,
+            start_day: try_convert_node_integer(&meta.name, "reset_day", v1.reset_day)?,
+            start_month: try_convert_node_integer(&meta.name, "reset_month", v1.reset_month)?,
+            end_day: try_convert_node_integer(&meta.name, "end_day", v1.end_day)?,
+            end_month: try_convert_node_integer(&meta.name, "end_month", v1.end_month)?,
         });
 
         let n = Self {
diff --git a/pywr-schema/src/parameters/discount_factor.rs b/pywr-schema/src/parameters/discount_factor.rs
index 50cff4f..35566cf 100644
--- a/pywr-schema/src/parameters/discount_factor.rs
+++ b/pywr-schema/src/parameters/discount_factor.rs
@@ -5,7 +5,7 @@ use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::{ConversionData, ParameterMeta};
-use crate::v1::{TryFromV1, TryIntoV2};
+use crate::v1::{TryFromV1, TryIntoV2, try_convert_parameter_integer};
 #[cfg(feature = "core")]
 use pywr_core::parameters::ParameterName;
 use pywr_schema_macros::PywrVisitAll;
@@ -52,10 +52,11 @@ impl TryFromV1<DiscountFactorParameterV1> for DiscountFactorParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
         let discount_rate = Metric::from(v1.rate);
+        let base_year = try_convert_parameter_integer(&meta.name, "base_year", v1.base_year)?;
         Ok(Self {
             meta,
             discount_rate,
-            base_year: v1.base_year as i16,
+            base_year,
         })
     }
 }
diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index 670412b..6c0476e 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -5,7 +5,7 @@ use crate::metric::{IndexMetric, Metric};
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::ParameterMeta;
-use crate::v1::{TryIntoV2, convert_node_reference};
+use crate::v1::{TryIntoV2, convert_node_reference, try_convert_parameter_integer};
 use crate::{ComponentConversionError, ConversionData, ConversionError, TryFromV1};
 #[cfg(feature = "core")]
 use pywr_core::parameters::ParameterName;
@@ -109,7 +109,7 @@ impl TryFromV1<RollingMeanFlowNodeParameterV1> for RollingParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         let window_size = match (v1.timesteps, v1.days) {
-            (Some(timesteps), None) => timesteps as u64,
+            (Some(timesteps), None) => try_convert_parameter_integer(&meta.name, "timesteps", timesteps)?,
             (None, Some(_)) => {
                 return Err(Box::new(ComponentConversionError::Parameter {
                         attr: "days".to_string(),
diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index d5dbeab..9a9f28a 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -11,6 +11,7 @@
 //! of meta-data to provide a unique name for unnamed parameters and timeseries.
 
 use std::collections::HashMap;
+use std::fmt::Display;
 
 use crate::ConversionError;
 use crate::error::ComponentConversionError;
@@ -200,6 +201,48 @@ where
         })
 }
 
+/// Helper function to convert an integer attribute of a node from v1 to v2.
+///
+/// Returns an error if the value can not be represented in v2.
+pub fn try_convert_node_integer<V1, V2>(name: &str, attr: &str, value: V1) -> Result<V2, Box<ComponentConversionError>>
+where
+    V1: Copy + Display,
+    V2: TryFrom<V1>,
+{
+    value.try_into().map_err(|_| {
+        Box::new(ComponentConversionError::Node {
+            attr: attr.to_string(),
+            name: name.to_string(),
+            error: ConversionError::ValueOutOfRange {
+                value: value.to_string(),
+            },
+        })
+    })
+}
+
+/// Helper function to convert an integer attribute of a parameter from v1 to v2.
+///
+/// Returns an error if the value can not be represented in v2.
+pub fn try_convert_parameter_integer<V1, V2>(
+    name: &str,
+    attr: &str,
+    value: V1,
+) -> Result<V2, Box<ComponentConversionError>>
+where
+    V1: Copy + Display,
+    V2: TryFrom<V1>,
+{
+    value.try_into().map_err(|_| {
+        Box::new(ComponentConversionError::Parameter {
+            attr: attr.to_string(),
+            name: name.to_string(),
+            error: ConversionError::ValueOutOfRange {
+                value: value.to_string(),
+            },
+        })
+    })
+}
+
 /// Helper function to convert node meta from v1 to v2.
 ///
 /// Returns an error if any tag value is not a string.
-- 
2.43.0


From d23ccbd43e67135c7d9813e38c5eeb93377ff114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 70/73] fix: v1 dataframe attributes that cannot be converted
 are errors, not dropped

---
 pywr-schema/src/timeseries/mod.rs | 40 +++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index d754fff..88ad44c 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -7,7 +7,7 @@ use crate::ConversionError;
 use crate::digest::Checksum;
 use crate::error::ComponentConversionError;
 use crate::parameters::ParameterMeta;
-use crate::v1::{ConversionData, TryFromV1, TryIntoV2};
+use crate::v1::{ConversionData, TryFromV1, TryIntoV2, try_convert_parameter_attr};
 use crate::visit::VisitPaths;
 #[cfg(feature = "core")]
 use ndarray::{Array2, ShapeError};
@@ -486,13 +486,41 @@ impl TryFromV1<DataFrameParameterV1> for ConvertedTimeseriesReference {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
         let mut ts_name = meta.name.clone();
 
+        for (attr, found) in [
+            ("timestep_offset", v1.timestep_offset.is_some()),
+            ("index", v1.index.is_some()),
+            ("indexes", v1.indexes.is_some()),
+        ] {
+            if found {
+                return Err(Box::new(ComponentConversionError::Parameter {
+                    name: meta.name,
+                    attr: attr.to_string(),
+                    error: ConversionError::UnsupportedAttribute {
+                        attrs: vec![attr.to_string()],
+                    },
+                }));
+            }
+        }
+
         if let Some(url) = v1.url {
             // If there is a URL then this entry must be converted into a timeseries
             let mut pandas_kwargs = v1.pandas_kwargs;
 
             let time_col = match pandas_kwargs.remove("index_col") {
-                Some(v) => v.as_str().map(|s| s.to_string()),
-                None => None,
+                Some(serde_json::Value::String(name)) => Some(name),
+                // The first column is used by default
+                Some(serde_json::Value::Number(index)) if index.as_u64() == Some(0) => None,
+                Some(serde_json::Value::Null) | None => None,
+                Some(other) => {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: meta.name,
+                        attr: "index_col".to_string(),
+                        error: ConversionError::UnexpectedType {
+                            expected: "String".to_string(),
+                            actual: other.to_string(),
+                        },
+                    }));
+                }
             };
             // remove the parse_dates for CSV files as this is already passed to read_csv in
             // pandas_load.py. This prevents from raising a multiple keyword error.
@@ -502,10 +530,8 @@ impl TryFromV1<DataFrameParameterV1> for ConvertedTimeseriesReference {
                 }
             }
 
-            let checksum = match v1.checksum {
-                Some(c) => Checksum::try_from_v1(c, parent_node, conversion_data).ok(),
-                None => None,
-            };
+            let checksum: Option<Checksum> =
+                try_convert_parameter_attr(&meta.name, "checksum", v1.checksum, parent_node, conversion_data)?;
 
             let timeseries = PandasTimeseries {
                 meta: meta.clone(),
-- 
2.43.0


From dbf04798696e1a62800736182b13cba5144f46ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 71/73] fix: a v1 timestep of zero days is a conversion error,
 not a panic

---
 pywr-schema/src/error.rs  |  2 ++
 pywr-schema/src/metric.rs |  2 ++
 pywr-schema/src/model.rs  | 33 ++++++++++++++++++++++-----------
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/pywr-schema/src/error.rs b/pywr-schema/src/error.rs
index 894e67c..b219347 100644
--- a/pywr-schema/src/error.rs
+++ b/pywr-schema/src/error.rs
@@ -179,6 +179,8 @@ pub enum ComponentConversionError {
         name: String,
         error: ConversionError,
     },
+    #[error("Failed to convert timestepper: {error}")]
+    Timestepper { error: ConversionError },
     #[error("Failed to convert scenario: {error}")]
     Scenarios { error: ConversionError },
     #[error("Failed to convert table: {error}")]
diff --git a/pywr-schema/src/metric.rs b/pywr-schema/src/metric.rs
index 5f18e98..f51b3ab 100644
--- a/pywr-schema/src/metric.rs
+++ b/pywr-schema/src/metric.rs
@@ -255,6 +255,7 @@ impl TryFromV1<ParameterValueV1> for Metric {
                     |e: Box<ComponentConversionError>| match *e {
                         ComponentConversionError::Parameter { error, .. } => error,
                         ComponentConversionError::Node { error, .. } => error,
+                        ComponentConversionError::Timestepper { error } => error,
                         ComponentConversionError::Scenarios { error } => error,
                         ComponentConversionError::Table { error, .. } => error,
                         ComponentConversionError::Edge { error, .. } => error,
@@ -785,6 +786,7 @@ impl TryFromV1<ParameterValueV1> for IndexMetric {
                     |e: Box<ComponentConversionError>| match *e {
                         ComponentConversionError::Parameter { error, .. } => error,
                         ComponentConversionError::Node { error, .. } => error,
+                        ComponentConversionError::Timestepper { error } => error,
                         ComponentConversionError::Scenarios { error } => error,
                         ComponentConversionError::Table { error, .. } => error,
                         ComponentConversionError::Edge { error, .. } => error,
diff --git a/pywr-schema/src/model.rs b/pywr-schema/src/model.rs
index b69a7d8..f1fd96b 100644
--- a/pywr-schema/src/model.rs
+++ b/pywr-schema/src/model.rs
@@ -84,13 +84,16 @@ pub enum Timestep {
     Frequency { freq: String },
 }
 
-impl From<pywr_v1_schema::model::Timestep> for Timestep {
-    fn from(v1: pywr_v1_schema::model::Timestep) -> Self {
+impl TryFrom<pywr_v1_schema::model::Timestep> for Timestep {
+    type Error = ConversionError;
+
+    fn try_from(v1: pywr_v1_schema::model::Timestep) -> Result<Self, Self::Error> {
         match v1 {
-            pywr_v1_schema::model::Timestep::Days(d) => Self::Days {
-                days: NonZeroU64::new(d).expect("days must be non-zero"),
+            pywr_v1_schema::model::Timestep::Days(d) => match NonZeroU64::new(d) {
+                Some(days) => Ok(Self::Days { days }),
+                None => Err(ConversionError::ValueOutOfRange { value: d.to_string() }),
             },
-            pywr_v1_schema::model::Timestep::Frequency(freq) => Self::Frequency { freq },
+            pywr_v1_schema::model::Timestep::Frequency(freq) => Ok(Self::Frequency { freq }),
         }
     }
 }
@@ -120,13 +123,15 @@ impl Default for TimeDomain {
     }
 }
 
-impl From<pywr_v1_schema::model::Timestepper> for TimeDomain {
-    fn from(v1: pywr_v1_schema::model::Timestepper) -> Self {
-        Self {
+impl TryFrom<pywr_v1_schema::model::Timestepper> for TimeDomain {
+    type Error = ConversionError;
+
+    fn try_from(v1: pywr_v1_schema::model::Timestepper) -> Result<Self, Self::Error> {
+        Ok(Self {
             start: v1.start,
             end: v1.end,
-            timestep: v1.timestep.into(),
-        }
+            timestep: v1.timestep.try_into()?,
+        })
     }
 }
 
@@ -556,7 +561,13 @@ impl ModelSchema {
         let mut errors = Vec::new();
 
         let metadata = v1.metadata.into();
-        let time = v1.timestepper.into();
+        let time = match v1.timestepper.try_into() {
+            Ok(time) => time,
+            Err(error) => {
+                errors.push(ComponentConversionError::Timestepper { error });
+                TimeDomain::default()
+            }
+        };
         let mut scenarios: Option<ScenarioDomain> = match v1.scenarios.map(|s| s.try_into()) {
             Some(Ok(scenarios)) => Some(scenarios),
             Some(Err(err)) => {
-- 
2.43.0


From 6a0c30f7038fe7aeb6f00a746d4feb3dcc358133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 72/73] fix: v1 scenario slices are read as stop, start and
 step within the ensemble

---
 pywr-schema/src/model.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pywr-schema/src/model.rs b/pywr-schema/src/model.rs
index f1fd96b..048b86e 100644
--- a/pywr-schema/src/model.rs
+++ b/pywr-schema/src/model.rs
@@ -231,24 +231,19 @@ impl TryFrom<pywr_v1_schema::model::Scenario> for ScenarioGroup {
             .map(|s| match s.len() {
                 1 => {
                     let start = 0;
-                    let end = v1.size;
+                    let end = s[0].unwrap_or(v1.size).min(v1.size);
                     Ok(ScenarioGroupSubset::Slice(ScenarioGroupSlice { start, end }))
                 }
                 2 => {
                     let start = s[0].unwrap_or_default();
-                    let end = match s[1] {
-                        Some(v) => v,
-                        None => v1.size,
-                    };
+                    let end = s[1].unwrap_or(v1.size).min(v1.size);
                     Ok(ScenarioGroupSubset::Slice(ScenarioGroupSlice { start, end }))
                 }
                 3 => {
                     let start = s[0].unwrap_or_default();
-                    let end = match s[1] {
-                        Some(v) => v,
-                        None => v1.size,
-                    };
+                    let end = s[1].unwrap_or(v1.size).min(v1.size);
                     match s[2] {
+                        Some(0) => Err(ConversionError::ValueOutOfRange { value: "0".to_string() }),
                         Some(step) => {
                             let indices = (start..end).step_by(step).collect();
                             Ok(ScenarioGroupSubset::Indices(ScenarioGroupIndices { indices }))
-- 
2.43.0


From fe29f7955a6089e18811bc8b44ada4072fdf677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 73/73] fix: names given to unnamed v1 parameters do not clash
 with other parameters

---
 pywr-schema/src/network.rs |  7 +++++
 pywr-schema/src/v1.rs      | 52 +++++++++++++++++++++++++-------------
 2 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 16b5ca9..a1f9b09 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -352,6 +352,13 @@ impl NetworkSchema {
         let mut parameters = Vec::new();
         let mut timeseries = Vec::new();
 
+        // The names of the v1 parameters must not be given to the parameters extracted from the v1 nodes
+        if let Some(params) = &v1.parameters {
+            for name in params.iter().filter_map(|p| p.name()) {
+                conversion_data.reserve_name(name);
+            }
+        }
+
         // Extract nodes and any timeseries data from the v1 nodes
         if let Some(v1_nodes) = v1.nodes {
             // First find any virtual nodes so these can be used to determine metric conversion types
diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index 9a9f28a..515aba1 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -10,7 +10,7 @@
 //! It also tracks a count of unnamed parameters and timeseries. This is used during conversion
 //! of meta-data to provide a unique name for unnamed parameters and timeseries.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt::Display;
 
 use crate::ConversionError;
@@ -28,6 +28,7 @@ use pywr_v1_schema::parameters::{
 #[derive(Default)]
 pub struct ConversionData {
     unnamed_count: usize,
+    used_names: HashSet<String>,
     pub virtual_nodes: Vec<String>,
     pub parameters: Vec<Parameter>,
     pub timeseries: Vec<Timeseries>,
@@ -37,6 +38,26 @@ impl ConversionData {
     pub fn reset_count(&mut self) {
         self.unnamed_count = 0;
     }
+
+    /// Reserve the name of a parameter, or a timeseries, such that it is not given to an unnamed one.
+    pub fn reserve_name(&mut self, name: &str) {
+        self.used_names.insert(name.to_string());
+    }
+
+    /// Create a name, which is not used by anything else, for an unnamed parameter or timeseries.
+    fn unnamed(&mut self, parent_node: Option<&str>) -> String {
+        loop {
+            let name = match parent_node {
+                Some(pn) => format!("{pn}-p{}", self.unnamed_count),
+                None => format!("unnamed-{}", self.unnamed_count),
+            };
+            self.unnamed_count += 1;
+
+            if self.used_names.insert(name.clone()) {
+                return name;
+            }
+        }
+    }
 }
 
 pub trait TryFromV1<T>: Sized {
@@ -109,14 +130,13 @@ impl TryFromV1<ParameterMetaV1> for ParameterMeta {
         parent_node: Option<&str>,
         conversion_data: &mut ConversionData,
     ) -> Result<Self, Self::Error> {
-        let name = v1.name.unwrap_or_else(|| {
-            let pname = match parent_node {
-                Some(pn) => format!("{pn}-p{}", conversion_data.unnamed_count),
-                None => format!("unnamed-{}", conversion_data.unnamed_count),
-            };
-            conversion_data.unnamed_count += 1;
-            pname
-        });
+        let name = match v1.name {
+            Some(name) => {
+                conversion_data.reserve_name(&name);
+                name
+            }
+            None => conversion_data.unnamed(parent_node),
+        };
 
         let tags = convert_tags(v1.tags).map_err(|error| {
             Box::new(ComponentConversionError::Parameter {
@@ -144,15 +164,11 @@ impl TryFromV1<Option<ParameterMetaV1>> for ParameterMeta {
     ) -> Result<Self, Self::Error> {
         match v1 {
             Some(meta) => meta.try_into_v2(parent_node, conversion_data),
-            None => {
-                let meta = Self {
-                    name: format!("unnamed-{}", conversion_data.unnamed_count),
-                    comment: None,
-                    tags: HashMap::new(),
-                };
-                conversion_data.unnamed_count += 1;
-                Ok(meta)
-            }
+            None => Ok(Self {
+                name: conversion_data.unnamed(None),
+                comment: None,
+                tags: HashMap::new(),
+            }),
         }
     }
 }
-- 
2.43.0

