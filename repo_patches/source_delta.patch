From 0a26b5716e7d92514c2211b9fd6fe872649a6dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 001/110] fix: derivative of a group repetition accepted
 foreign symbols when its cardinality was {0,0} and rejected ignorable ones

---
 rbe/src/rbe.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index ede88bf..c19131e 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -401,15 +401,12 @@ where
                 let d = value.deriv(x, n, open, controlled);
                 Self::mk_and(&d, &Rbe::Star { value: value.clone() })
             },
-            Rbe::Repeat { ref value, ref card } if card.is_0_0() => {
-                let d = value.deriv(x, n, open, controlled);
-                if d.is_nullable() {
-                    Rbe::Fail {
-                        error: DerivError::CardinalityZeroZeroDeriv { symbol: x.clone() },
-                    }
-                } else {
-                    Rbe::Empty
-                }
+            Rbe::Repeat { .. } if open && !controlled.contains(x) => {
+                // Extra symbol (not controlled): it is not part of any repetition.
+                self.clone()
+            },
+            Rbe::Repeat { ref card, .. } if card.is_0_0() => Rbe::Fail {
+                error: DerivError::CardinalityZeroZeroDeriv { symbol: x.clone() },
             },
             Rbe::Repeat { ref value, ref card } => {
                 let d = value.deriv(x, n, open, controlled);
-- 
2.43.0


From 524b1b78055e06009132d248a98d790ba77b0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 002/110] fix: interval of a group repetition ignored that
 several copies of it may be needed

---
 rbe/src/rbe.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index c19131e..399758b 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -181,13 +181,16 @@ where
                     if inner.is_empty() {
                         inner
                     } else {
-                        let card_interval = Interval::new(Max::IntMax(card.min.value), card.max.clone());
-                        let intersection = inner.intersection(&card_interval);
-                        if intersection.is_empty() {
-                            Interval::fail()
-                        } else {
-                            Interval::new(Max::IntMax(1), Max::IntMax(1))
-                        }
+                        // k copies of the repetition use between k*min and k*max copies of its body
+                        let n = match &inner.n {
+                            Max::IntMax(l) => card.max.div_up(l),
+                            Max::Unbounded => Max::Unbounded,
+                        };
+                        let m = match &inner.m {
+                            Max::IntMax(u) => Max::IntMax(card.min.value).div_down(u),
+                            Max::Unbounded => Max::Unbounded,
+                        };
+                        Interval::new(n, m)
                     }
                 }
             },
-- 
2.43.0


From 4311f1ce2cc16d0627ef3aa0d1fb79eed5beda92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 003/110] fix: values rejected by every candidate component
 matched a nullable expression

---
 rbe/src/empty_iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rbe/src/empty_iter.rs b/rbe/src/empty_iter.rs
index 7dc03ab..e654042 100644
--- a/rbe/src/empty_iter.rs
+++ b/rbe/src/empty_iter.rs
@@ -52,7 +52,8 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if self.is_first {
             self.is_first = false;
-            if self.rbe.nullable() {
+            // values without any candidate component cannot be matched by the empty bag
+            if self.values.is_empty() && self.rbe.nullable() {
                 Some(Ok(Pending::empty()))
             } else {
                 if self.values.is_empty() {
-- 
2.43.0


From 5d71fccec9385ff7230fc86aff62bdf7ab581f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 004/110] fix: CLOSED was ignored for shapes that constrain no
 outgoing predicate

---
 rudof_rdf/src/rdf_impl/backend.rs        | 4 +---
 sparql_service/src/srdf_data/rdf_data.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/backend.rs b/rudof_rdf/src/rdf_impl/backend.rs
index c6ece46..87d6a1c 100644
--- a/rudof_rdf/src/rdf_impl/backend.rs
+++ b/rudof_rdf/src/rdf_impl/backend.rs
@@ -200,9 +200,7 @@ impl NeighsRDF for RdfBackend {
             return b.outgoing_arcs_from_list(subject, preds).map_err(Into::into);
         }
         // For InMemory and Qlever: default behavior — fetch all triples and filter in memory
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
+        // (also with no predicates: every outgoing predicate is then part of the remainder)
         let mut results: std::collections::HashMap<OxNamedNode, std::collections::HashSet<OxTerm>> =
             std::collections::HashMap::new();
         let mut reminder: Vec<OxNamedNode> = Vec::new();
diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index a38de47..13ab3da 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -476,15 +476,13 @@ impl NeighsRDF for RdfData {
         ),
         Self::Err,
     > {
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         // Primary backend (in-memory or endpoint-backed): uses its own FILTER query when available
         let (mut results, reminder) = self
             .primary
             .outgoing_arcs_from_list(subject, preds)
             .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?;
         // Active SPARQL endpoints: each issues a single FILTER query for only the needed predicates
+        // (an endpoint answers an empty list of predicates without a request)
         for endpoint in self.use_endpoints.values() {
             let (ep_results, _) = endpoint.outgoing_arcs_from_list(subject, preds)?;
             for (pred, objects) in ep_results {
-- 
2.43.0


From bc2e823028f318a8d0036c904a8f51cdf3467386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 005/110] fix: EXTRA on a predicate that the shape does not
 constrain opened a CLOSED shape to it

---
 shex_validation/src/engine.rs | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 65aa01f..a62c8ba 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -639,12 +639,7 @@ impl Engine {
     {
         // trace!("check_node_shape: node = {node}, shape = {idx} [No extends]");
         let extra_preds = shape.extra().clone();
-        let mut candidate_preds = shape.preds();
-        for p in &extra_preds {
-            if !candidate_preds.contains(p) {
-                candidate_preds.push(p.clone());
-            }
-        }
+        let candidate_preds = shape.preds();
         let (values, reminder) = self.neighs(node, candidate_preds.clone(), rdf)?;
         let values_ctx = values
             .iter()
@@ -707,12 +702,7 @@ impl Engine {
         }
 
         let extra_preds = shape.extra().clone();
-        let mut candidate_preds = Vec::from_iter(schema.get_preds_extends(idx));
-        for p in &extra_preds {
-            if !candidate_preds.contains(p) {
-                candidate_preds.push(p.clone());
-            }
-        }
+        let candidate_preds = Vec::from_iter(schema.get_preds_extends(idx));
         /*trace!(
             "Predicates in this shape with extends: [{}]",
             candidate_preds.iter().map(|p| p.to_string()).join(", ")
@@ -1137,11 +1127,6 @@ impl Engine {
             }
         }
         let extra_preds = shape.extra().clone();
-        for p in &extra_preds {
-            if !candidate_preds.contains(p) {
-                candidate_preds.push(p.clone());
-            }
-        }
 
         let (values, reminder) = self.neighs(node, candidate_preds.clone(), rdf)?;
         if shape.is_closed() && !reminder.is_empty() {
-- 
2.43.0


From 5e3a50011d3788e18dbfafb1a758bc499a04166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 006/110] fix: EXTRA did not admit values that fail a shape
 reference

---
 shex_validation/src/engine.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index a62c8ba..e8345b8 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -657,7 +657,7 @@ impl Engine {
                 }
                 // Lenient predicates (in EXTRA): only values that satisfy a leaf condition
                 // participate in the RBE; non-matching values fall into M^∉ and are ignored.
-                matches_any_leaf(shape.triple_expr(), pred, value, ctx)
+                matches_any_leaf(shape.triple_expr(), pred, value, ctx, typing)
             })
             .collect::<Vec<_>>();
         if shape.is_closed() && !reminder.is_empty() {
@@ -2083,18 +2083,17 @@ fn cond_has_ref(cond: &MatchCond<Pred, Node, ShapeLabelIdx, SemanticActionContex
 
 /// Returns true if `(pred, value)` satisfies at least one leaf condition in `expr`.
 ///
-/// For `MatchCond::Ref` leaves the value is kept in M^∈ conservatively — the RBE /
-/// pending-typing path already handles shape-reference validation correctly.
-fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext) -> bool {
-    for (_, key, cond) in expr.components() {
-        if &key != pred {
-            continue;
-        }
-        if cond_has_ref(&cond) || cond.matches(value, ctx).is_ok() {
-            return true;
-        }
-    }
-    false
+/// The shape references of a condition are looked up in `typing`, which holds the pairs that
+/// conform among the dependencies of the node being validated.
+fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext, typing: &RefTyping) -> bool {
+    expr.components().any(|(_, key, cond)| {
+        &key == pred
+            && cond.matches(value, ctx).is_ok_and(|pending| {
+                pending
+                    .iter_vr()
+                    .all(|(n, idx, _)| typing.contains(&(n.clone(), *idx)))
+            })
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5f52747d4252a96853e188639c2e004aee75b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 007/110] fix: a positive reference hid a negative dependency
 between the same shapes

---
 shex_ast/src/ir/dependency_graph.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shex_ast/src/ir/dependency_graph.rs b/shex_ast/src/ir/dependency_graph.rs
index acdd6e2..aa798b0 100644
--- a/shex_ast/src/ir/dependency_graph.rs
+++ b/shex_ast/src/ir/dependency_graph.rs
@@ -15,7 +15,13 @@ impl DependencyGraph {
         Self::default()
     }
 
+    /// Adds a dependency. A shape can depend on another one both positively and negatively:
+    /// the edge is negative as soon as one of the dependencies is negative.
     pub fn add_edge(&mut self, from: ShapeLabelIdx, to: ShapeLabelIdx, pos_neg: PosNeg) {
+        let pos_neg = match self.graph.edge_weight(from, to) {
+            Some(PosNeg::Neg) => PosNeg::Neg,
+            _ => pos_neg,
+        };
         self.graph.add_edge(from, to, pos_neg);
     }
 
-- 
2.43.0


From a73e311f4ad64d4d8fb75fc2a3f6cb5df3ef517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 008/110] fix: negated subexpressions equal to another one were
 left out of the dependency graph

---
 shex_ast/src/ir/dependency_graph.rs |  2 +-
 shex_ast/src/ir/schema_ir.rs        |  2 +-
 shex_ast/src/ir/shape_expr.rs       | 44 +++++++++++------------------
 3 files changed, 19 insertions(+), 29 deletions(-)

diff --git a/shex_ast/src/ir/dependency_graph.rs b/shex_ast/src/ir/dependency_graph.rs
index aa798b0..40b6bcb 100644
--- a/shex_ast/src/ir/dependency_graph.rs
+++ b/shex_ast/src/ir/dependency_graph.rs
@@ -85,7 +85,7 @@ impl Iterator for DependencyGraphIter<'_> {
     }
 }
 
-#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
+#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
 pub enum PosNeg {
     #[default]
     Pos,
diff --git a/shex_ast/src/ir/schema_ir.rs b/shex_ast/src/ir/schema_ir.rs
index a2dded1..d238fc9 100644
--- a/shex_ast/src/ir/schema_ir.rs
+++ b/shex_ast/src/ir/schema_ir.rs
@@ -567,7 +567,7 @@ impl SchemaIR {
     pub(crate) fn build_dependency_graph(&mut self) {
         let mut dep_graph = DependencyGraph::new();
         for (idx, info) in self.shapes.iter() {
-            let mut visited = Vec::new();
+            let mut visited = HashSet::new();
             info.expr()
                 .add_edges(*idx, &mut dep_graph, PosNeg::pos(), self, &mut visited);
         }
diff --git a/shex_ast/src/ir/shape_expr.rs b/shex_ast/src/ir/shape_expr.rs
index b6f515c..597287e 100644
--- a/shex_ast/src/ir/shape_expr.rs
+++ b/shex_ast/src/ir/shape_expr.rs
@@ -208,49 +208,39 @@ impl ShapeExpr {
     }
 
     /// Adds PosNeg edges to the dependency graph.
-    pub(crate) fn add_edges<'a>(
-        &'a self,
+    pub(crate) fn add_edges(
+        &self,
         source: ShapeLabelIdx,
         graph: &mut DependencyGraph,
         pos_neg: PosNeg,
-        schema: &'a SchemaIR,
-        visited: &mut Vec<&'a ShapeExpr>,
+        schema: &SchemaIR,
+        visited: &mut HashSet<(ShapeLabelIdx, PosNeg)>,
     ) {
         match self {
             ShapeExpr::ShapeOr { exprs, .. } => {
                 for expr in exprs {
-                    if let Some(info) = schema.find_shape_idx(expr) {
-                        let expr = info.expr();
-                        if visited.contains(&expr) {
-                            continue;
-                        } else {
-                            visited.push(expr);
-                            expr.add_edges(source, graph, pos_neg, schema, visited);
-                        }
+                    if let Some(info) = schema.find_shape_idx(expr)
+                        && visited.insert((*expr, pos_neg))
+                    {
+                        info.expr().add_edges(source, graph, pos_neg, schema, visited);
                     }
                 }
             },
             ShapeExpr::ShapeAnd { exprs, .. } => {
                 for expr in exprs {
-                    if let Some(info) = schema.find_shape_idx(expr) {
-                        let expr = info.expr();
-                        if visited.contains(&expr) {
-                            continue;
-                        } else {
-                            visited.push(expr);
-                            expr.add_edges(source, graph, pos_neg, schema, visited);
-                        }
+                    if let Some(info) = schema.find_shape_idx(expr)
+                        && visited.insert((*expr, pos_neg))
+                    {
+                        info.expr().add_edges(source, graph, pos_neg, schema, visited);
                     }
                 }
             },
             ShapeExpr::ShapeNot { expr, .. } => {
-                if let Some(info) = schema.find_shape_idx(expr) {
-                    let expr = info.expr();
-                    if visited.contains(&expr) {
-                    } else {
-                        visited.push(expr);
-                        expr.add_edges(source, graph, pos_neg.change(), schema, visited);
-                    }
+                if let Some(info) = schema.find_shape_idx(expr)
+                    && visited.insert((*expr, pos_neg.change()))
+                {
+                    info.expr()
+                        .add_edges(source, graph, pos_neg.change(), schema, visited);
                 }
             },
             ShapeExpr::NodeConstraint(_) => {},
-- 
2.43.0


From 1036e53244b1c5321c931d7cfeea42163dd32627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 009/110] fix: references under EXTRA were not negative
 dependencies

---
 shex_ast/src/ir/shape.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/shex_ast/src/ir/shape.rs b/shex_ast/src/ir/shape.rs
index f229546..c865ed8 100644
--- a/shex_ast/src/ir/shape.rs
+++ b/shex_ast/src/ir/shape.rs
@@ -3,7 +3,7 @@ use super::{
     dependency_graph::{DependencyGraph, PosNeg},
     sem_act::SemAct,
 };
-use crate::{Expr, Pred, ShapeLabelIdx, ir::schema_ir::SchemaIR};
+use crate::{Cond, Expr, Pred, ShapeLabelIdx, ir::schema_ir::SchemaIR};
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
 use std::{
@@ -107,12 +107,10 @@ impl Shape {
     }*/
 
     pub fn add_edges(&self, source: ShapeLabelIdx, graph: &mut DependencyGraph, pos_neg: PosNeg) {
-        for (_component, _pred, cond) in self.expr.components() {
-            match cond {
-                rbe::MatchCond::Single(_single_cond) => {},
-                rbe::MatchCond::And(_match_conds) => {},
-                rbe::MatchCond::Ref(r) => graph.add_edge(source, r, pos_neg),
-            }
+        for (_component, pred, cond) in self.expr.components() {
+            // Under EXTRA, the values that do not conform to a reference can be left out
+            let pos_neg = if self.extra.contains(&pred) { PosNeg::Neg } else { pos_neg };
+            add_cond_edges(&cond, source, graph, pos_neg);
         }
     }
 
@@ -131,6 +129,16 @@ impl Shape {
     }
 }
 
+fn add_cond_edges(cond: &Cond, source: ShapeLabelIdx, graph: &mut DependencyGraph, pos_neg: PosNeg) {
+    match cond {
+        rbe::MatchCond::Single(_single_cond) => {},
+        rbe::MatchCond::And(conds) => conds
+            .iter()
+            .for_each(|cond| add_cond_edges(cond, source, graph, pos_neg)),
+        rbe::MatchCond::Ref(r) => graph.add_edge(source, *r, pos_neg),
+    }
+}
+
 impl Display for Shape {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let extends = if self.extends.is_empty() {
-- 
2.43.0


From dc751a3944dbe61081b833435cee282055e69410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 010/110] fix: negative dependencies through EXTENDS were not
 found

---
 shex_ast/src/ir/shape.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shex_ast/src/ir/shape.rs b/shex_ast/src/ir/shape.rs
index c865ed8..ddf58f5 100644
--- a/shex_ast/src/ir/shape.rs
+++ b/shex_ast/src/ir/shape.rs
@@ -107,6 +107,9 @@ impl Shape {
     }*/
 
     pub fn add_edges(&self, source: ShapeLabelIdx, graph: &mut DependencyGraph, pos_neg: PosNeg) {
+        for extended in &self.extends {
+            graph.add_edge(source, *extended, pos_neg);
+        }
         for (_component, pred, cond) in self.expr.components() {
             // Under EXTRA, the values that do not conform to a reference can be left out
             let pos_neg = if self.extra.contains(&pred) { PosNeg::Neg } else { pos_neg };
-- 
2.43.0


From 5941a77dee4705174d35624faf93a5c81155287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 011/110] fix: validation of cyclic data took exponential time

---
 shex_validation/src/engine.rs | 41 +++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index e8345b8..5d3e37f 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -9,7 +9,7 @@ use crate::no_match_reason::NoMatchReason;
 use crate::ref_typing::RefTyping;
 use crate::validator_error::*;
 use either::Either;
-use indexmap::IndexSet;
+use indexmap::{IndexMap, IndexSet};
 use itertools::Itertools;
 // use prefixmap::PrefixMap;
 use rbe::MatchCond;
@@ -55,6 +55,10 @@ pub struct Engine {
     errors: HashMap<NegAtom, Vec<ValidatorError>>,
     typing: HashMap<(Node, ShapeLabelIdx), ValidationResult>,
     hyp_touched: bool,
+    /// A hypothesis was used below a negation
+    hyp_negated: bool,
+    /// Results found under hypotheses, and whether they used one below a negation
+    provisional: IndexMap<(Node, ShapeLabelIdx), (ValidationResult, bool)>,
 }
 
 impl Engine {
@@ -68,6 +72,8 @@ impl Engine {
             errors: HashMap::new(),
             typing: HashMap::new(),
             hyp_touched: false,
+            hyp_negated: false,
+            provisional: IndexMap::new(),
         }
     }
 
@@ -279,6 +285,10 @@ impl Engine {
     // Memoized: results are cached in `self.typing` and reused across recursive
     // calls, so a `(node, shape)` pair reachable from several sibling branches is
     // proved once instead of once per path.
+    //
+    // Results found under the hypotheses in `hyp` are kept in `self.provisional`: they can
+    // be reused until a hypothesis made before them fails. A pair that fails under the
+    // hypotheses fails without them, too, unless one of them was used below a negation.
     pub(crate) fn prove<R>(
         &mut self,
         node: &Node,
@@ -294,9 +304,20 @@ impl Engine {
         if let Some(cached) = self.typing.get(&key) {
             return Ok(cached.clone());
         }
+        if hyp.is_empty() {
+            self.provisional.clear();
+        }
+        if let Some((cached, negated)) = self.provisional.get(&key) {
+            self.hyp_touched = true;
+            self.hyp_negated |= *negated;
+            return Ok(cached.clone());
+        }
 
         let saved_hyp_touched = self.hyp_touched;
+        let saved_hyp_negated = self.hyp_negated;
         self.hyp_touched = false;
+        self.hyp_negated = false;
+        let provisional_before = self.provisional.len();
 
         hyp.push(key.clone());
         let hyp_as_set: HashSet<(Node, ShapeLabelIdx)> =
@@ -326,10 +347,26 @@ impl Engine {
         hyp.pop();
 
         let mine = self.hyp_touched;
-        if !mine {
+        let negated = mine
+            && (self.hyp_negated
+                || matches!(
+                    schema.find_shape_idx(label).map(|info| info.expr()),
+                    Some(ShapeExpr::ShapeNot { .. })
+                ));
+        if result.is_left() {
+            self.provisional.truncate(provisional_before);
+        }
+        if !mine || hyp.is_empty() || (result.is_left() && !negated) {
             self.typing.insert(key, result.clone());
+        } else {
+            self.provisional.insert(key, (result.clone(), negated));
+        }
+        if hyp.is_empty() {
+            let proved = self.provisional.drain(..).map(|(key, (result, _))| (key, result));
+            self.typing.extend(proved);
         }
 
+        self.hyp_negated = saved_hyp_negated || negated;
         self.hyp_touched = saved_hyp_touched || mine;
 
         Ok(result)
-- 
2.43.0


From 7416b9b69a582aaa95c220543fc9189080873386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 012/110] fix: xsd:int literals were neither checked nor
 treated as numbers

---
 .../src/rdf_core/term/literal/literal.rs      | 16 ++++++++++++++
 .../rdf_core/term/literal/numeric_literal.rs  | 22 ++++++++++++++++++-
 shex_ast/src/ast/mod.rs                       |  1 +
 shex_ast/src/ast/object_value.rs              |  3 ++-
 shex_ast/src/compact/compact_printer.rs       |  1 +
 .../src/compact/shapemap_compact_printer.rs   |  5 +++++
 shex_ast/src/compact/shex_compact_printer.rs  |  5 +++++
 7 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index edbdad5..eb4dd3a 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -491,6 +491,12 @@ impl ConcreteLiteral {
         Self::NumericLiteral(NumericLiteral::byte(n))
     }
 
+    /// Creates a new numeric literal of datatype `xsd:int`.
+    #[inline]
+    pub fn int(n: i32) -> Self {
+        Self::NumericLiteral(NumericLiteral::int(n))
+    }
+
     /// Creates a literal representing a signed short (`i16`), values -32,768 to 32,767.
     ///
     /// This corresponds to XSD's `xsd:short` type.
@@ -886,6 +892,15 @@ impl ConcreteLiteral {
         s.parse::<i8>().map_err(|e| format!("Cannot convert {s} to byte: {e}"))
     }
 
+    /// Parses a signed int (32-bit) from its string representation.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if the string cannot be parsed as an `i32`.
+    pub fn parse_int(s: &str) -> Result<i32, String> {
+        s.parse::<i32>().map_err(|e| format!("Cannot convert {s} to int: {e}"))
+    }
+
     /// Parses a signed short (-32768 to 32767) from its string representation.
     ///
     /// # Errors
@@ -1230,6 +1245,7 @@ fn check_literal_datatype(lexical_form: &str, datatype: &IriRef) -> Result<Concr
         ConcreteLiteral::parse_short,
         ConcreteLiteral::short
     );
+    check_xsd_type!(XsdVocab::XSD_INT, ConcreteLiteral::parse_int, ConcreteLiteral::int);
     check_xsd_type!(
         XsdVocab::XSD_UNSIGNED_INT,
         ConcreteLiteral::parse_unsigned_int,
diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index de06ac9..40f231f 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -20,6 +20,7 @@ pub enum NumericLiteral {
     Integer(i128),
     Byte(i8),
     Short(i16),
+    Int(i32),
     NonNegativeInteger(u128),
     UnsignedLong(u64),
     UnsignedInt(u32),
@@ -65,6 +66,7 @@ impl NumericLiteral {
             NumericLiteral::Float(_) => XsdVocab::XSD_FLOAT,
             NumericLiteral::Byte(_) => XsdVocab::XSD_BYTE,
             NumericLiteral::Short(_) => XsdVocab::XSD_SHORT,
+            NumericLiteral::Int(_) => XsdVocab::XSD_INT,
             NumericLiteral::NonNegativeInteger(_) => XsdVocab::XSD_NON_NEGATIVE_INTEGER,
             NumericLiteral::UnsignedLong(_) => XsdVocab::XSD_UNSIGNED_LONG,
             NumericLiteral::UnsignedInt(_) => XsdVocab::XSD_UNSIGNED_INT,
@@ -165,6 +167,11 @@ impl NumericLiteral {
         NumericLiteral::Short(d)
     }
 
+    /// Creates an int literal (32-bit signed integer).
+    pub fn int(d: i32) -> NumericLiteral {
+        NumericLiteral::Int(d)
+    }
+
     /// Creates a long literal (64-bit signed integer).
     pub fn long(d: i64) -> NumericLiteral {
         NumericLiteral::Long(d)
@@ -222,6 +229,7 @@ impl NumericLiteral {
             NumericLiteral::Float(f) => Decimal::from_f32(*f),
             NumericLiteral::Byte(b) => Decimal::from_i8(*b),
             NumericLiteral::Short(s) => Decimal::from_i16(*s),
+            NumericLiteral::Int(n) => Decimal::from_i32(*n),
             NumericLiteral::NonNegativeInteger(n) => Decimal::from_u128(*n),
             NumericLiteral::UnsignedLong(n) => Decimal::from_u64(*n),
             NumericLiteral::UnsignedInt(n) => Decimal::from_u32(*n),
@@ -299,6 +307,7 @@ impl NumericLiteral {
                     d.abs().to_string().len()
                 }
             },
+            NumericLiteral::Int(d) => d.unsigned_abs().to_string().len(),
             NumericLiteral::NonNegativeInteger(d) => d.to_string().len(),
             NumericLiteral::UnsignedLong(d) => d.to_string().len(),
             NumericLiteral::UnsignedInt(d) => d.to_string().len(),
@@ -349,7 +358,8 @@ impl NumericLiteral {
             | NumericLiteral::NegativeInteger(_)
             | NumericLiteral::NonPositiveInteger(_)
             | NumericLiteral::Byte(_)
-            | NumericLiteral::Short(_) => Some(0),
+            | NumericLiteral::Short(_)
+            | NumericLiteral::Int(_) => Some(0),
             // For decimals, normalize (strip trailing zeros for XSD canonical
             // form), then count digits after the decimal point.
             NumericLiteral::Decimal(d) => {
@@ -391,6 +401,7 @@ impl PartialEq for NumericLiteral {
                         (NumericLiteral::Integer(a), NumericLiteral::Integer(b)) => a == b,
                         (NumericLiteral::Byte(a), NumericLiteral::Byte(b)) => a == b,
                         (NumericLiteral::Short(a), NumericLiteral::Short(b)) => a == b,
+                        (NumericLiteral::Int(a), NumericLiteral::Int(b)) => a == b,
                         (NumericLiteral::NonNegativeInteger(a), NumericLiteral::NonNegativeInteger(b)) => a == b,
                         (NumericLiteral::UnsignedLong(a), NumericLiteral::UnsignedLong(b)) => a == b,
                         (NumericLiteral::UnsignedInt(a), NumericLiteral::UnsignedInt(b)) => a == b,
@@ -437,6 +448,7 @@ impl Hash for NumericLiteral {
             NumericLiteral::Integer(n) => n.hash(state),
             NumericLiteral::Byte(b) => b.hash(state),
             NumericLiteral::Short(s) => s.hash(state),
+            NumericLiteral::Int(n) => n.hash(state),
             NumericLiteral::NonNegativeInteger(n) => n.hash(state),
             NumericLiteral::UnsignedLong(n) => n.hash(state),
             NumericLiteral::UnsignedInt(n) => n.hash(state),
@@ -474,6 +486,7 @@ impl Serialize for NumericLiteral {
             NumericLiteral::Float(f) => serializer.serialize_f32(*f),
             NumericLiteral::Byte(b) => serializer.serialize_i8(*b),
             NumericLiteral::Short(s) => serializer.serialize_i16(*s),
+            NumericLiteral::Int(n) => serializer.serialize_i32(*n),
             NumericLiteral::NonNegativeInteger(n) => serializer.serialize_u128(*n),
             NumericLiteral::UnsignedLong(n) => serializer.serialize_u64(*n),
             NumericLiteral::UnsignedInt(n) => serializer.serialize_u32(*n),
@@ -509,6 +522,7 @@ enum NumericLiteralUntagged {
     Integer(i128),
     Byte(i8),
     Short(i16),
+    Int(i32),
     NonNegativeInteger(u128),
     UnsignedLong(u64),
     UnsignedInt(u32),
@@ -529,6 +543,7 @@ impl From<NumericLiteralUntagged> for NumericLiteral {
             NumericLiteralUntagged::Integer(n) => NumericLiteral::Integer(n),
             NumericLiteralUntagged::Byte(n) => NumericLiteral::Byte(n),
             NumericLiteralUntagged::Short(n) => NumericLiteral::Short(n),
+            NumericLiteralUntagged::Int(n) => NumericLiteral::Int(n),
             NumericLiteralUntagged::NonNegativeInteger(n) => NumericLiteral::NonNegativeInteger(n),
             NumericLiteralUntagged::UnsignedLong(n) => NumericLiteral::UnsignedLong(n),
             NumericLiteralUntagged::UnsignedInt(n) => NumericLiteral::UnsignedInt(n),
@@ -562,6 +577,7 @@ enum NumericLiteralTagged {
     Decimal(String),
     Double(f64),
     Float(f32),
+    Int(i32),
 }
 
 impl From<&NumericLiteral> for NumericLiteralTagged {
@@ -570,6 +586,7 @@ impl From<&NumericLiteral> for NumericLiteralTagged {
             NumericLiteral::Integer(n) => NumericLiteralTagged::Integer(*n),
             NumericLiteral::Byte(n) => NumericLiteralTagged::Byte(*n),
             NumericLiteral::Short(n) => NumericLiteralTagged::Short(*n),
+            NumericLiteral::Int(n) => NumericLiteralTagged::Int(*n),
             NumericLiteral::NonNegativeInteger(n) => NumericLiteralTagged::NonNegativeInteger(*n),
             NumericLiteral::UnsignedLong(n) => NumericLiteralTagged::UnsignedLong(*n),
             NumericLiteral::UnsignedInt(n) => NumericLiteralTagged::UnsignedInt(*n),
@@ -594,6 +611,7 @@ impl TryFrom<NumericLiteralTagged> for NumericLiteral {
             NumericLiteralTagged::Integer(n) => NumericLiteral::Integer(n),
             NumericLiteralTagged::Byte(n) => NumericLiteral::Byte(n),
             NumericLiteralTagged::Short(n) => NumericLiteral::Short(n),
+            NumericLiteralTagged::Int(n) => NumericLiteral::Int(n),
             NumericLiteralTagged::NonNegativeInteger(n) => NumericLiteral::NonNegativeInteger(n),
             NumericLiteralTagged::UnsignedLong(n) => NumericLiteral::UnsignedLong(n),
             NumericLiteralTagged::UnsignedInt(n) => NumericLiteral::UnsignedInt(n),
@@ -623,6 +641,7 @@ impl Display for NumericLiteral {
             NumericLiteral::Float(n) => write!(f, "{n}"),
             NumericLiteral::Byte(b) => write!(f, "{b}"),
             NumericLiteral::Short(s) => write!(f, "{s}"),
+            NumericLiteral::Int(n) => write!(f, "{n}"),
             NumericLiteral::NonNegativeInteger(n) => write!(f, "{n}"),
             NumericLiteral::UnsignedLong(n) => write!(f, "{n}"),
             NumericLiteral::UnsignedInt(n) => write!(f, "{n}"),
@@ -687,6 +706,7 @@ impl From<NumericLiteral> for oxrdf::Literal {
             NumericLiteral::Float(f) => oxrdf::Literal::from(f),
             NumericLiteral::Byte(b) => oxrdf::Literal::new_typed_literal(b.to_string(), oxrdf::vocab::xsd::BYTE),
             NumericLiteral::Short(s) => oxrdf::Literal::from(s),
+            NumericLiteral::Int(n) => oxrdf::Literal::new_typed_literal(n.to_string(), oxrdf::vocab::xsd::INT),
             NumericLiteral::NonNegativeInteger(n) => {
                 oxrdf::Literal::new_typed_literal(n.to_string(), oxrdf::vocab::xsd::NON_NEGATIVE_INTEGER)
             },
diff --git a/shex_ast/src/ast/mod.rs b/shex_ast/src/ast/mod.rs
index e4ae2c7..a47373a 100644
--- a/shex_ast/src/ast/mod.rs
+++ b/shex_ast/src/ast/mod.rs
@@ -58,6 +58,7 @@ const BOOLEAN_STR: &str = "http://www.w3.org/2001/XMLSchema#boolean";
 const INTEGER_STR: &str = "http://www.w3.org/2001/XMLSchema#integer";
 const BYTE_STR: &str = "http://www.w3.org/2001/XMLSchema#byte";
 const SHORT_STR: &str = "http://www.w3.org/2001/XMLSchema#short";
+const INT_STR: &str = "http://www.w3.org/2001/XMLSchema#int";
 const NON_NEGATIVE_INTEGER_STR: &str = "http://www.w3.org/2001/XMLSchema#nonNegativeInteger";
 const UNSIGNED_LONG_STR: &str = "http://www.w3.org/2001/XMLSchema#unsignedLong";
 const UNSIGNED_INT_STR: &str = "http://www.w3.org/2001/XMLSchema#unsignedInt";
diff --git a/shex_ast/src/ast/object_value.rs b/shex_ast/src/ast/object_value.rs
index 548bc0e..365c187 100644
--- a/shex_ast/src/ast/object_value.rs
+++ b/shex_ast/src/ast/object_value.rs
@@ -18,7 +18,7 @@ use std::{result, str::FromStr};
 
 use crate::Node;
 use crate::ast::{
-    BYTE_STR, DATETIME_STR, FLOAT_STR, LONG_STR, NEGATIVE_INTEGER_STR, NON_NEGATIVE_INTEGER_STR,
+    BYTE_STR, DATETIME_STR, FLOAT_STR, INT_STR, LONG_STR, NEGATIVE_INTEGER_STR, NON_NEGATIVE_INTEGER_STR,
     NON_POSITIVE_INTEGER_STR, POSITIVE_INTEGER_STR, SHORT_STR, UNSIGNED_BYTE_STR, UNSIGNED_INT_STR, UNSIGNED_LONG_STR,
     UNSIGNED_SHORT_STR,
 };
@@ -174,6 +174,7 @@ fn get_type_str(n: &NumericLiteral) -> &str {
         NumericLiteral::Float(_) => FLOAT_STR,
         NumericLiteral::Byte(_) => BYTE_STR,
         NumericLiteral::Short(_) => SHORT_STR,
+        NumericLiteral::Int(_) => INT_STR,
         NumericLiteral::NonNegativeInteger(_) => NON_NEGATIVE_INTEGER_STR,
         NumericLiteral::UnsignedLong(_) => UNSIGNED_LONG_STR,
         NumericLiteral::UnsignedInt(_) => UNSIGNED_INT_STR,
diff --git a/shex_ast/src/compact/compact_printer.rs b/shex_ast/src/compact/compact_printer.rs
index 26b2d2d..58bec87 100644
--- a/shex_ast/src/compact/compact_printer.rs
+++ b/shex_ast/src/compact/compact_printer.rs
@@ -50,6 +50,7 @@ fn pp_numeric_literal<'a, A>(value: &NumericLiteral, doc: &'a Arena<'a, A>) -> D
         NumericLiteral::Float(n) => doc.text(n.to_string()),
         NumericLiteral::Byte(n) => doc.text(n.to_string()),
         NumericLiteral::Short(n) => doc.text(n.to_string()),
+        NumericLiteral::Int(n) => doc.text(n.to_string()),
         NumericLiteral::NonNegativeInteger(n) => doc.text(n.to_string()),
         NumericLiteral::UnsignedLong(n) => doc.text(n.to_string()),
         NumericLiteral::UnsignedInt(n) => doc.text(n.to_string()),
diff --git a/shex_ast/src/compact/shapemap_compact_printer.rs b/shex_ast/src/compact/shapemap_compact_printer.rs
index d247cc4..a439819 100644
--- a/shex_ast/src/compact/shapemap_compact_printer.rs
+++ b/shex_ast/src/compact/shapemap_compact_printer.rs
@@ -257,6 +257,7 @@ where
             NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
             NumericLiteral::Byte(b) => self.pp_byte(b),
             NumericLiteral::Short(s) => self.pp_short(s),
+            NumericLiteral::Int(n) => self.pp_int(n),
             NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
             NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
             NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
@@ -288,6 +289,10 @@ where
         self.doc.text(value.to_string())
     }
 
+    fn pp_int(&self, value: &i32) -> DocBuilder<'a, Arena<'a, A>, A> {
+        self.doc.text(value.to_string())
+    }
+
     fn pp_short(&self, value: &i16) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(value.to_string())
     }
diff --git a/shex_ast/src/compact/shex_compact_printer.rs b/shex_ast/src/compact/shex_compact_printer.rs
index a564ed2..0a41a31 100644
--- a/shex_ast/src/compact/shex_compact_printer.rs
+++ b/shex_ast/src/compact/shex_compact_printer.rs
@@ -667,6 +667,7 @@ where
             NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
             NumericLiteral::Byte(b) => self.pp_byte(b),
             NumericLiteral::Short(s) => self.pp_short(s),
+            NumericLiteral::Int(n) => self.pp_int(n),
             NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
             NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
             NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
@@ -702,6 +703,10 @@ where
         self.doc.text(value.to_string())
     }
 
+    fn pp_int(&self, value: &i32) -> DocBuilder<'a, Arena<'a, A>, A> {
+        self.doc.text(value.to_string())
+    }
+
     fn pp_short(&self, value: &i16) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(value.to_string())
     }
-- 
2.43.0


From 691c805ddeed390d257ef0600baf15f6a129ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 013/110] fix: typed literals lost their lexical form when read
 from data and value sets compared them by value

---
 .../src/rdf_core/term/literal/literal.rs      | 75 +++++++++----------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index eb4dd3a..ace3b11 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -391,19 +391,12 @@ impl ConcreteLiteral {
             // ShEx value set matching requires term equality, so these never match.
             (Self::DatatypeLiteral { .. }, Self::NumericLiteral(_))
             | (Self::NumericLiteral(_), Self::DatatypeLiteral { .. }) => false,
-            (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1 == dt2,
-            (Self::BooleanLiteral(b1), Self::BooleanLiteral(b2)) => b1 == b2,
-            (
-                Self::WrongDatatypeLiteral {
-                    lexical_form, datatype, ..
-                },
-                Self::WrongDatatypeLiteral {
-                    lexical_form: expected_lexical_form,
-                    datatype: expected_datatype,
-                    ..
-                },
-            ) => lexical_form == expected_lexical_form && datatype == expected_datatype,
-            _ => false,
+            // Term equality: same lexical form, datatype and language tag.
+            _ => {
+                self.lexical_form() == literal_expected.lexical_form()
+                    && self.datatype() == literal_expected.datatype()
+                    && self.lang() == literal_expected.lang()
+            },
         }
     }
 }
@@ -969,8 +962,9 @@ impl PartialOrd for ConcreteLiteral {
                     datatype: dt2,
                 },
             ) => match (check_literal_datatype(lf1, dt1), check_literal_datatype(lf2, dt2)) {
-                (Ok(Self::NumericLiteral(n1)), Ok(Self::NumericLiteral(n2))) => n1.partial_cmp(&n2),
-                _ if dt1 == dt2 => Some(lf1.cmp(lf2)),
+                (Ok(Self::DatatypeLiteral { .. }), Ok(Self::DatatypeLiteral { .. })) if dt1 == dt2 => Some(lf1.cmp(lf2)),
+                (Ok(Self::DatatypeLiteral { .. }), _) | (_, Ok(Self::DatatypeLiteral { .. })) => None,
+                (Ok(l1), Ok(l2)) => l1.partial_cmp(&l2),
                 _ => None,
             },
             // Numeric comparison (may return None for NaN)
@@ -979,6 +973,19 @@ impl PartialOrd for ConcreteLiteral {
             (Self::BooleanLiteral(b1), Self::BooleanLiteral(b2)) => Some(b1.cmp(b2)),
             // Wrong-datatype literals have an invalid lexical form and are incomparable for ordering
             (Self::WrongDatatypeLiteral { .. }, _) | (_, Self::WrongDatatypeLiteral { .. }) => None,
+            // A literal that keeps its lexical form is compared by its value
+            (Self::DatatypeLiteral { lexical_form, datatype }, _) => {
+                match check_literal_datatype(lexical_form, datatype) {
+                    Ok(Self::DatatypeLiteral { .. }) | Err(_) => None,
+                    Ok(literal) => literal.partial_cmp(other),
+                }
+            },
+            (_, Self::DatatypeLiteral { lexical_form, datatype }) => {
+                match check_literal_datatype(lexical_form, datatype) {
+                    Ok(Self::DatatypeLiteral { .. }) | Err(_) => None,
+                    Ok(literal) => self.partial_cmp(&literal),
+                }
+            },
             // All other combinations are considered incomparable
             _ => None,
         }
@@ -1079,31 +1086,21 @@ impl TryFrom<oxrdf::Literal> for ConcreteLiteral {
                 }),
 
             (s, Some(dtype), None) => {
+                // Terms are identified by their lexical form and datatype: the value-based
+                // variants are only used when their canonical form is the original lexical form.
+                // Invalid lexical forms produce WrongDatatypeLiteral.
                 let datatype_iri = IriRef::iri(IriS::new_unchecked(dtype.as_str()));
-                let iri_str = dtype.as_str();
-                // For bare numeric types in Turtle, preserve original lexical form for valid values
-                // (ShEx value set matching requires lexical-form equality, not value equality).
-                // But invalid lexical forms must still produce WrongDatatypeLiteral.
-                if iri_str == XsdVocab::XSD_INTEGER
-                    || iri_str == XsdVocab::XSD_DECIMAL
-                    || iri_str == XsdVocab::XSD_DOUBLE
-                    || iri_str == XsdVocab::XSD_FLOAT
-                {
-                    match check_literal_datatype(s.as_ref(), &datatype_iri) {
-                        Ok(ConcreteLiteral::WrongDatatypeLiteral { error, .. }) => {
-                            Ok(ConcreteLiteral::WrongDatatypeLiteral {
-                                lexical_form: s.to_string(),
-                                datatype: datatype_iri,
-                                error,
-                            })
-                        },
-                        _ => Ok(ConcreteLiteral::DatatypeLiteral {
-                            lexical_form: s.to_string(),
-                            datatype: datatype_iri,
-                        }),
-                    }
-                } else {
-                    check_literal_datatype(s.as_ref(), &datatype_iri)
+                match check_literal_datatype(s.as_ref(), &datatype_iri)? {
+                    wrong @ ConcreteLiteral::WrongDatatypeLiteral { .. } => Ok(wrong),
+                    literal @ (ConcreteLiteral::BooleanLiteral(_) | ConcreteLiteral::DatetimeLiteral(_))
+                        if literal.lexical_form() == s =>
+                    {
+                        Ok(literal)
+                    },
+                    _ => Ok(ConcreteLiteral::DatatypeLiteral {
+                        lexical_form: s.to_string(),
+                        datatype: datatype_iri,
+                    }),
                 }
             },
 
-- 
2.43.0


From 5c08722442491f6d1527fcf1a145ebb7f80e470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 014/110] fix: ShExC facets could not be separated by spaces

---
 shex_ast/src/compact/shex_grammar.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 0da4d17..58f12a8 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -23,7 +23,7 @@ use nom::{
     error::ErrorKind,
     error_position,
     multi::{count, fold_many0, many0, many1},
-    sequence::{delimited, pair, preceded},
+    sequence::{delimited, pair, preceded, terminated},
 };
 use nom_locate::LocatedSpan;
 use prefixmap::IriRef;
@@ -418,11 +418,14 @@ fn value_set_facets<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, NodeConstraint> {
 
 /// `from [24] numeric_facets = numericFacet+`
 fn numeric_facets(i: Span) -> IRes<NodeConstraint> {
-    map(many1(numeric_facet()), |ns| NodeConstraint::new().with_xsfacets(ns)).parse(i)
+    map(many1(terminated(numeric_facet(), tws0)), |ns| {
+        NodeConstraint::new().with_xsfacets(ns)
+    })
+    .parse(i)
 }
 
 fn facets<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Vec<XsFacet>> {
-    move |i| many0(xs_facet()).parse(i)
+    move |i| many0(terminated(xs_facet(), tws0)).parse(i)
 }
 
 /// `[25] nonLitNodeConstraint ::= nonLiteralKind stringFacet* | stringFacet+`
@@ -432,7 +435,7 @@ fn non_lit_node_constraint(i: Span) -> IRes<NodeConstraint> {
 
 /// `from [25] non_literal_kind_string-facets = nonLiteralKind stringFacet* `
 fn non_literal_kind_string_facets(i: Span) -> IRes<NodeConstraint> {
-    let (i, (kind, facets)) = (non_literal_kind, many0(string_facet)).parse(i)?;
+    let (i, (kind, facets)) = (non_literal_kind, many0(terminated(string_facet, tws0))).parse(i)?;
     let mut nc = NodeConstraint::new().with_node_kind(kind);
     if !facets.is_empty() {
         nc = nc.with_xsfacets(facets);
@@ -442,7 +445,7 @@ fn non_literal_kind_string_facets(i: Span) -> IRes<NodeConstraint> {
 
 /// `from [25] string_facets = string_facet+`
 fn string_facets(i: Span) -> IRes<NodeConstraint> {
-    let (i, facets) = many1(string_facet).parse(i)?;
+    let (i, facets) = many1(terminated(string_facet, tws0)).parse(i)?;
     Ok((i, NodeConstraint::new().with_xsfacets(facets)))
 }
 
-- 
2.43.0


From d7569fdc81efcb01d59daa03bd838b85b3066f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 015/110] fix: length facets counted bytes instead of
 characters

---
 rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs |  6 +++---
 rudof_rdf/src/rdf_core/term/triple.rs           | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs b/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
index fef5ca2..563c1e1 100644
--- a/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
+++ b/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
@@ -19,14 +19,14 @@ pub enum IriOrBlankNode {
 }
 
 impl IriOrBlankNode {
-    /// Returns the length (in bytes) of this resource's string representation.
+    /// Returns the length (in characters) of this resource's string representation.
     ///
     /// - For blank nodes: the length of the identifier string
     /// - For IRIs: the length of the full IRI string
     pub fn length(&self) -> usize {
         match self {
-            IriOrBlankNode::BlankNode(label) => label.len(),
-            IriOrBlankNode::Iri(iri) => iri.as_str().len(),
+            IriOrBlankNode::BlankNode(label) => label.chars().count(),
+            IriOrBlankNode::Iri(iri) => iri.as_str().chars().count(),
         }
     }
 
diff --git a/rudof_rdf/src/rdf_core/term/triple.rs b/rudof_rdf/src/rdf_core/term/triple.rs
index de7ef97..94a217e 100644
--- a/rudof_rdf/src/rdf_core/term/triple.rs
+++ b/rudof_rdf/src/rdf_core/term/triple.rs
@@ -241,7 +241,7 @@ impl Object {
 
 /// ## Accessors methods
 impl Object {
-    // Returns the length (in bytes) of this object's string representation.
+    /// Returns the length (in characters) of this object's string representation.
     ///
     /// - For IRIs: the length of the IRI string
     /// - For blank nodes: the length of the identifier
@@ -249,14 +249,14 @@ impl Object {
     /// - For triples: the sum of all component lengths
     pub fn length(&self) -> usize {
         match self {
-            Object::Iri(iri) => iri.as_str().len(),
-            Object::BlankNode(bn) => bn.len(),
-            Object::Literal(lit) => lit.lexical_form().len(),
+            Object::Iri(iri) => iri.as_str().chars().count(),
+            Object::BlankNode(bn) => bn.chars().count(),
+            Object::Literal(lit) => lit.lexical_form().chars().count(),
             Object::Triple {
                 subject,
                 predicate,
                 object,
-            } => subject.as_ref().length() + predicate.as_str().len() + object.as_ref().length(),
+            } => subject.as_ref().length() + predicate.as_str().chars().count() + object.as_ref().length(),
         }
     }
 
-- 
2.43.0


From 7b630a0c7f92c03d95954ab0becb9fa36c1413c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 016/110] fix: infinite, huge and NaN numbers were compared as
 if they were smaller than any other

---
 .../src/rdf_core/term/literal/literal.rs      |   4 +-
 .../rdf_core/term/literal/numeric_literal.rs  | 140 ++++++++----------
 shex_ast/src/ast/cond_kind.rs                 |   4 +-
 3 files changed, 66 insertions(+), 82 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index ace3b11..141b640 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -962,7 +962,9 @@ impl PartialOrd for ConcreteLiteral {
                     datatype: dt2,
                 },
             ) => match (check_literal_datatype(lf1, dt1), check_literal_datatype(lf2, dt2)) {
-                (Ok(Self::DatatypeLiteral { .. }), Ok(Self::DatatypeLiteral { .. })) if dt1 == dt2 => Some(lf1.cmp(lf2)),
+                (Ok(Self::DatatypeLiteral { .. }), Ok(Self::DatatypeLiteral { .. })) if dt1 == dt2 => {
+                    Some(lf1.cmp(lf2))
+                },
                 (Ok(Self::DatatypeLiteral { .. }), _) | (_, Ok(Self::DatatypeLiteral { .. })) => None,
                 (Ok(l1), Ok(l2)) => l1.partial_cmp(&l2),
                 _ => None,
diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index 40f231f..df75ef0 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -1,4 +1,5 @@
 use core::fmt;
+use std::cmp::Ordering;
 use std::fmt::Display;
 use std::str::FromStr;
 
@@ -244,6 +245,36 @@ impl NumericLiteral {
 
 /// ## Utility Methods
 impl NumericLiteral {
+    /// Value of the integer variants, if it fits in an `i128`.
+    fn to_i128(&self) -> Option<i128> {
+        match self {
+            NumericLiteral::Integer(n) | NumericLiteral::NegativeInteger(n) | NumericLiteral::NonPositiveInteger(n) => {
+                Some(*n)
+            },
+            NumericLiteral::NonNegativeInteger(n) | NumericLiteral::PositiveInteger(n) => i128::try_from(*n).ok(),
+            NumericLiteral::Long(n) => Some(i128::from(*n)),
+            NumericLiteral::Int(n) => Some(i128::from(*n)),
+            NumericLiteral::Short(n) => Some(i128::from(*n)),
+            NumericLiteral::Byte(n) => Some(i128::from(*n)),
+            NumericLiteral::UnsignedLong(n) => Some(i128::from(*n)),
+            NumericLiteral::UnsignedInt(n) => Some(i128::from(*n)),
+            NumericLiteral::UnsignedShort(n) => Some(i128::from(*n)),
+            NumericLiteral::UnsignedByte(n) => Some(i128::from(*n)),
+            NumericLiteral::Decimal(_) | NumericLiteral::Double(_) | NumericLiteral::Float(_) => None,
+        }
+    }
+
+    /// Nearest floating point number (may be infinite or NaN).
+    fn to_f64(&self) -> Option<f64> {
+        match self {
+            NumericLiteral::Double(d) => Some(*d),
+            NumericLiteral::Float(f) => Some(f64::from(*f)),
+            NumericLiteral::Decimal(d) => d.to_f64(),
+            NumericLiteral::NonNegativeInteger(n) | NumericLiteral::PositiveInteger(n) => n.to_f64(),
+            _ => self.to_i128().and_then(|n| n.to_f64()),
+        }
+    }
+
     /// Returns the lexical form (string representation) of this literal.
     ///
     /// This is equivalent to the Display implementation.
@@ -253,23 +284,14 @@ impl NumericLiteral {
 
     /// Checks if this numeric literal is less than another.
     ///
-    /// Optimized for integer comparisons; falls back to decimal conversion
-    /// for mixed-type comparisons.
+    /// Values that cannot be compared (NaN) are never less than another.
     pub fn less_than(&self, other: &NumericLiteral) -> bool {
-        match (self, other) {
-            // Fast path: direct integer comparison
-            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 < n2,
-            // Generic path: convert to decimal for comparison
-            (v1, v2) => v1.to_decimal() < v2.to_decimal(),
-        }
+        self.partial_cmp(other) == Some(Ordering::Less)
     }
 
     /// Checks if this numeric literal is less than or equal to another.
     pub fn less_than_or_eq(&self, other: &NumericLiteral) -> bool {
-        match (self, other) {
-            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 <= n2,
-            (v1, v2) => v1.to_decimal() <= v2.to_decimal(),
-        }
+        matches!(self.partial_cmp(other), Some(Ordering::Less | Ordering::Equal))
     }
 
     /// Returns the total number of digits in the literal.
@@ -331,7 +353,10 @@ impl NumericLiteral {
             // For decimals, normalize and count only digits
             NumericLiteral::Decimal(d) => {
                 let normalized = d.normalize();
-                normalized.to_string().chars().filter(|c| c.is_ascii_digit()).count()
+                let text = normalized.abs().to_string();
+                // A zero before the decimal point is not a significant digit
+                let text = text.strip_prefix("0.").unwrap_or(&text);
+                text.chars().filter(|c| c.is_ascii_digit()).count()
             },
             // Float/double don't have meaningful total digits
             NumericLiteral::Double(_) | NumericLiteral::Float(_) => return None,
@@ -385,36 +410,16 @@ impl Eq for NumericLiteral {}
 /// PartialEq that compares numeric value when possible (canonicalizing to Decimal).
 impl PartialEq for NumericLiteral {
     fn eq(&self, other: &Self) -> bool {
-        // If both can be represented as Decimal, compare by decimal value.
-        if let (Some(d1), Some(d2)) = (self.to_decimal(), other.to_decimal()) {
-            return d1 == d2;
-        }
-
-        // Fall back to matching exact variants for cases that cannot be normalized.
-        match (self, other) {
-            (NumericLiteral::Double(a), NumericLiteral::Double(b)) => a.to_bits() == b.to_bits(),
-            (NumericLiteral::Float(a), NumericLiteral::Float(b)) => a.to_bits() == b.to_bits(),
-            _ => {
-                // Same variant and same value
-                core::mem::discriminant(self) == core::mem::discriminant(other)
-                    && match (self, other) {
-                        (NumericLiteral::Integer(a), NumericLiteral::Integer(b)) => a == b,
-                        (NumericLiteral::Byte(a), NumericLiteral::Byte(b)) => a == b,
-                        (NumericLiteral::Short(a), NumericLiteral::Short(b)) => a == b,
-                        (NumericLiteral::Int(a), NumericLiteral::Int(b)) => a == b,
-                        (NumericLiteral::NonNegativeInteger(a), NumericLiteral::NonNegativeInteger(b)) => a == b,
-                        (NumericLiteral::UnsignedLong(a), NumericLiteral::UnsignedLong(b)) => a == b,
-                        (NumericLiteral::UnsignedInt(a), NumericLiteral::UnsignedInt(b)) => a == b,
-                        (NumericLiteral::UnsignedShort(a), NumericLiteral::UnsignedShort(b)) => a == b,
-                        (NumericLiteral::UnsignedByte(a), NumericLiteral::UnsignedByte(b)) => a == b,
-                        (NumericLiteral::PositiveInteger(a), NumericLiteral::PositiveInteger(b)) => a == b,
-                        (NumericLiteral::NegativeInteger(a), NumericLiteral::NegativeInteger(b)) => a == b,
-                        (NumericLiteral::NonPositiveInteger(a), NumericLiteral::NonPositiveInteger(b)) => a == b,
-                        (NumericLiteral::Long(a), NumericLiteral::Long(b)) => a == b,
-                        (NumericLiteral::Decimal(a), NumericLiteral::Decimal(b)) => a == b,
-                        _ => false,
-                    }
+        match (self.to_decimal(), other.to_decimal()) {
+            // If both can be represented as Decimal, compare by decimal value.
+            (Some(d1), Some(d2)) => d1 == d2,
+            // Too big, infinite or not a number
+            (None, None) => match (self, other) {
+                (NumericLiteral::Double(a), NumericLiteral::Double(b)) if a.is_nan() => a.to_bits() == b.to_bits(),
+                (NumericLiteral::Float(a), NumericLiteral::Float(b)) if a.is_nan() => a.to_bits() == b.to_bits(),
+                _ => self.partial_cmp(other) == Some(Ordering::Equal),
             },
+            _ => false,
         }
     }
 }
@@ -429,37 +434,9 @@ impl Hash for NumericLiteral {
             return;
         }
 
-        // For floating types that couldn't be converted, hash bit representation
-        match self {
-            NumericLiteral::Double(d) => {
-                d.to_bits().hash(state);
-                return;
-            },
-            NumericLiteral::Float(f) => {
-                f.to_bits().hash(state);
-                return;
-            },
-            _ => {},
-        }
-
-        // Otherwise, hash discriminant and concrete value
-        core::mem::discriminant(self).hash(state);
-        match self {
-            NumericLiteral::Integer(n) => n.hash(state),
-            NumericLiteral::Byte(b) => b.hash(state),
-            NumericLiteral::Short(s) => s.hash(state),
-            NumericLiteral::Int(n) => n.hash(state),
-            NumericLiteral::NonNegativeInteger(n) => n.hash(state),
-            NumericLiteral::UnsignedLong(n) => n.hash(state),
-            NumericLiteral::UnsignedInt(n) => n.hash(state),
-            NumericLiteral::UnsignedShort(n) => n.hash(state),
-            NumericLiteral::UnsignedByte(n) => n.hash(state),
-            NumericLiteral::PositiveInteger(n) => n.hash(state),
-            NumericLiteral::NegativeInteger(n) => n.hash(state),
-            NumericLiteral::NonPositiveInteger(n) => n.hash(state),
-            NumericLiteral::Long(l) => l.hash(state),
-            NumericLiteral::Decimal(d) => d.hash(state),
-            _ => {},
+        // Otherwise, equal values have the same floating point approximation
+        if let Some(f) = self.to_f64() {
+            f.to_bits().hash(state);
         }
     }
 }
@@ -656,12 +633,17 @@ impl Display for NumericLiteral {
 
 /// Ordering based on decimal conversion for cross-type comparisons.
 impl PartialOrd for NumericLiteral {
-    // Convert both to Decimal and compare
-    // Returns None if conversion fails (e.g., NaN)
-    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let self_decimal = self.to_decimal()?;
-        let other_decimal = other.to_decimal()?;
-        self_decimal.partial_cmp(&other_decimal)
+    // Integers are compared exactly; other values as Decimal when both can be
+    // represented as such and as floating point numbers otherwise.
+    // Returns None if one of the values is NaN
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        if let (Some(n1), Some(n2)) = (self.to_i128(), other.to_i128()) {
+            return Some(n1.cmp(&n2));
+        }
+        match (self.to_decimal(), other.to_decimal()) {
+            (Some(d1), Some(d2)) => d1.partial_cmp(&d2),
+            _ => self.to_f64()?.partial_cmp(&other.to_f64()?),
+        }
     }
 }
 
diff --git a/shex_ast/src/ast/cond_kind.rs b/shex_ast/src/ast/cond_kind.rs
index 9dad5ef..335b7a1 100644
--- a/shex_ast/src/ast/cond_kind.rs
+++ b/shex_ast/src/ast/cond_kind.rs
@@ -316,7 +316,7 @@ pub(crate) fn check_node_min_inclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_inclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than(&min) {
+    if min.less_than_or_eq(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinInclusiveError {
@@ -339,7 +339,7 @@ pub(crate) fn check_node_min_exclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_exclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than_or_eq(&min) {
+    if min.less_than(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinExclusiveError {
-- 
2.43.0


From 03b96814bfff8a65eff8a0df13a7e2f37d21f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 017/110] fix: ShExC literal exclusions could not be followed
 by a space

---
 shex_ast/src/compact/shex_grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 58f12a8..5ddebe2 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1040,7 +1040,7 @@ fn dash<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Span<'a>> {
 
 /// `[54] literalExclusion ::= '-' literal '~'?`
 fn literal_exclusion(i: Span) -> IRes<LiteralExclusion> {
-    let (i, (_, literal, maybe_tilde)) = (dash(), literal(), opt(tilde())).parse(i)?;
+    let (i, (_, literal, _, maybe_tilde)) = (dash(), literal(), tws0, opt(tilde())).parse(i)?;
     let le = match maybe_tilde {
         Some(_) => LiteralExclusion::LiteralStem(literal.lexical_form()),
         None => LiteralExclusion::Literal(literal.lexical_form()),
-- 
2.43.0


From f9aca05c2731496d6a55aa8b569600bf0ae9ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 018/110] fix: ShExC decimal facets lost their sign or leading
 zeros

---
 shex_ast/src/compact/shex_grammar.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 5ddebe2..aa94c12 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -33,6 +33,7 @@ use rudof_rdf::rdf_core::{
     RDFError,
     term::literal::{ConcreteLiteral, Lang, NumericLiteral},
 };
+use rust_decimal::Decimal;
 use std::{collections::VecDeque, fmt::Debug};
 use thiserror::Error;
 
@@ -1836,20 +1837,13 @@ fn integer<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, i128> {
 
 /// `[20t] <DECIMAL> ::= [+-]? [0-9]* "." [0-9]+`
 fn decimal(i: Span) -> IRes<NumericLiteral> {
-    map_res(
-        pair(recognize(preceded(opt(sign), digit0)), preceded(token("."), digit1)),
-        |(whole, fraction)| {
-            let w = whole
-                .fragment()
-                .parse::<i64>()
-                .map_err(|e| RDFError::ConversionError { msg: e.to_string() })?;
-            let f = fraction
-                .fragment()
-                .parse::<u32>()
-                .map_err(|e| RDFError::ConversionError { msg: e.to_string() })?;
-            NumericLiteral::decimal_from_parts(w, f)
-        },
-    )
+    map_res(recognize((opt(sign), digit0, token("."), digit1)), |number: Span| {
+        number
+            .fragment()
+            .parse::<Decimal>()
+            .map(NumericLiteral::decimal)
+            .map_err(|e| RDFError::ConversionError { msg: e.to_string() })
+    })
     .parse(i)
 }
 
-- 
2.43.0


From f0f77327472228bd4c4f62ac8881960351e0f6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 019/110] fix: -0 was not accepted by the unsigned datatypes
 and doubly signed numbers were

---
 .../src/rdf_core/term/literal/literal.rs      | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 141b640..b5b97db 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -766,18 +766,14 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a non-negative integer.
     pub fn parse_non_negative_integer(s: &str) -> Result<u128, String> {
-        let normalized = s.strip_prefix('+').unwrap_or(s);
-        if let Some(rest) = normalized.strip_prefix('-') {
-            let val = rest
-                .parse::<u128>()
-                .map_err(|e| format!("Cannot convert {s} to non-negative integer: {e}"))?;
-            if val == 0 {
+        if let Some(digits) = s.strip_prefix('-') {
+            // Only "-0" is allowed with a minus sign
+            if !digits.is_empty() && digits.chars().all(|c| c == '0') {
                 return Ok(0);
             }
             return Err(format!("Cannot convert {s} to non-negative integer: value is negative"));
         }
-        normalized
-            .parse::<u128>()
+        s.parse::<u128>()
             .map_err(|e| format!("Cannot convert {s} to non-negative integer: {e}"))
     }
 
@@ -787,7 +783,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `u8`.
     pub fn parse_unsigned_byte(s: &str) -> Result<u8, String> {
-        s.parse::<u8>()
+        Self::parse_non_negative_integer(s)
+            .and_then(|n| u8::try_from(n).map_err(|e| e.to_string()))
             .map_err(|e| format!("Cannot convert {s} to unsignedByte: {e}"))
     }
 
@@ -797,7 +794,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `u16`.
     pub fn parse_unsigned_short(s: &str) -> Result<u16, String> {
-        s.parse::<u16>()
+        Self::parse_non_negative_integer(s)
+            .and_then(|n| u16::try_from(n).map_err(|e| e.to_string()))
             .map_err(|e| format!("Cannot convert {s} to unsignedShort: {e}"))
     }
 
@@ -807,7 +805,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `u32`.
     pub fn parse_unsigned_int(s: &str) -> Result<u32, String> {
-        s.parse::<u32>()
+        Self::parse_non_negative_integer(s)
+            .and_then(|n| u32::try_from(n).map_err(|e| e.to_string()))
             .map_err(|e| format!("Cannot convert {s} to unsignedInt: {e}"))
     }
 
@@ -817,7 +816,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `u64`.
     pub fn parse_unsigned_long(s: &str) -> Result<u64, String> {
-        s.parse::<u64>()
+        Self::parse_non_negative_integer(s)
+            .and_then(|n| u64::try_from(n).map_err(|e| e.to_string()))
             .map_err(|e| format!("Cannot convert {s} to unsignedLong: {e}"))
     }
 
-- 
2.43.0


From b9b9f29f9fc42b6389be1af7b9cdc8cb8e47fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 020/110] fix: inf, nan and infinity were accepted as doubles
 and floats

---
 rudof_rdf/src/rdf_core/term/literal/literal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index b5b97db..d190f0c 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -827,8 +827,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `f64`.
     pub fn parse_double(s: &str) -> Result<f64, String> {
-        // XSD double lexical space does not include "+INF"; only "INF", "-INF", "NaN"
-        if s.eq_ignore_ascii_case("+INF") || s.eq_ignore_ascii_case("+infinity") {
+        // The special values of XSD double are only "INF", "-INF" and "NaN"
+        if !matches!(s, "INF" | "-INF" | "NaN") && s.contains(['n', 'N']) {
             return Err(format!("{s} is not a valid xsd:double lexical form"));
         }
         s.parse::<f64>()
@@ -868,8 +868,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a float.
     pub fn parse_float(s: &str) -> Result<f32, String> {
-        // XSD float lexical space does not include "+INF"; only "INF", "-INF", "NaN"
-        if s.eq_ignore_ascii_case("+INF") || s.eq_ignore_ascii_case("+infinity") {
+        // The special values of XSD float are only "INF", "-INF" and "NaN"
+        if !matches!(s, "INF" | "-INF" | "NaN") && s.contains(['n', 'N']) {
             return Err(format!("{s} is not a valid xsd:float lexical form"));
         }
         s.parse::<f32>()
-- 
2.43.0


From d04f829d1a4e1b4fd5836f0a5c45706e4e9508e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 021/110] fix: an abstract shape without descendants aborted
 the validation instead of not being satisfied

---
 shex_validation/src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 5d3e37f..27eabf5 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -392,7 +392,7 @@ impl Engine {
             if schema.is_abstract(idx) {
                 let descendants = schema.descendants(idx);
                 if descendants.is_empty() {
-                    return Err(ValidatorError::AbstractShapeNoDescendants { idx: *idx });
+                    return fail(ValidatorError::AbstractShapeNoDescendants { idx: *idx });
                 }
                 // Each descendant gets its own prove call so it builds a fresh typing
                 // with all the dependencies it actually needs (RESTRICTS semantics).
-- 
2.43.0


From 9b4bd0e8cb99a29cd6661067d714b31b8cb5e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 022/110] fix: inherited triple expressions were checked
 against all arcs of the node although other ancestors share predicates

---
 shex_validation/src/engine.rs | 69 ++---------------------------------
 1 file changed, 3 insertions(+), 66 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 27eabf5..2cd59d0 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -1443,72 +1443,9 @@ impl Engine {
             let mut reasons = Vec::new();
 
             if let Some(main_shape) = maybe_main_shape {
-                // For shapes with their own triple expression alongside extends (e.g.,
-                // EXTENDS @<Parent> { <p> [4] }), validate the triple expression using
-                // exhaustive semantics: pre-filter triples to those matching any component's
-                // value condition, then check cardinality. This handles open shapes correctly
-                // since extra values that don't match any constraint are simply ignored.
-                // Skip this check for shapes with shape-reference value conditions (MatchCond::Ref),
-                // which require the partition algorithm to correctly distribute triples.
-                let main_preds = main_shape.preds();
-                let no_shape_refs = main_shape
-                    .triple_expr()
-                    .components()
-                    .all(|(_, _, cond)| !cond_has_ref(&cond));
-                // Skip this shortcut when the ancestor's predicates overlap with the child
-                // shape's own declared predicates. In that case a single triple can satisfy
-                // both the ancestor's condition (e.g. a datatype constraint) and the child's
-                // own, more specific condition (e.g. a value set), and how many triples go to
-                // each side is exactly the counting problem the partition algorithm in
-                // check_node_shape_extends solves; this exhaustive pre-filter cannot (it can
-                // only keep-or-exclude a triple wholesale, not split a run of them between
-                // the two buckets in the right proportions).
-                let overlaps_child_preds = shape.preds().iter().any(|p| main_preds.contains(p));
-                if !main_preds.is_empty() && no_shape_refs && !overlaps_child_preds {
-                    let (all_values, _) = self.neighs(node, main_preds, rdf)?;
-                    let all_values_ctx: Vec<_> = all_values
-                        .iter()
-                        .map(|(p, v)| {
-                            (
-                                p.clone(),
-                                v.clone(),
-                                SemanticActionContext::triple(node, p, v)
-                                    .with_registry(schema.semantic_actions_registry_arc()),
-                            )
-                        })
-                        .collect();
-                    // Keep only triples where the value satisfies some component's condition
-                    let filtered: Vec<_> = all_values_ctx
-                        .iter()
-                        .filter(|(pred, value, ctx)| {
-                            main_shape
-                                .triple_expr()
-                                .components()
-                                .any(|(_, key, cond)| &key == pred && cond.matches(value, ctx).is_ok())
-                        })
-                        .cloned()
-                        .collect();
-                    match check_expr_neigh(main_shape.triple_expr(), &filtered, node, shape, idx, typing)? {
-                        Either::Left(errs) => {
-                            errors.push(ValidatorError::ParentShapeMainShapeFailed {
-                                node: Box::new(node.clone()),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                errors: ValidatorErrors::new(errs),
-                            });
-                        },
-                        Either::Right(rs) => {
-                            reasons.push(Reason::ParentShapeMainShapePassed {
-                                node: node.clone(),
-                                shape: Box::new(main_shape.clone()),
-                                idx: *idx,
-                                reasons: Reasons::new(rs),
-                            });
-                        },
-                    }
-                }
-                // Recursively check node constraints and triple expressions through the
-                // ancestor extends chain.
+                // The triple expressions are not checked here: how the triples are split among
+                // them is decided by the partitions in check_node_shape_extends.
+                // Recursively check node constraints through the ancestor extends chain.
                 for e in main_shape.extends() {
                     match self.check_node_extends_main_shape(node, e, &main_shape, schema, rdf, typing)? {
                         Either::Left(errs) => {
-- 
2.43.0


From e2ccca7a0decb2bff5d2ac3a13f5cc1ebce02274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 023/110] fix: with EXTENDS, predicates of aliased ancestors
 were ignored and EXTRA values failing a shape reference were kept

---
 shex_ast/src/ir/schema_ir.rs  | 16 ++++++++++------
 shex_validation/src/engine.rs | 26 ++++----------------------
 2 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/shex_ast/src/ir/schema_ir.rs b/shex_ast/src/ir/schema_ir.rs
index d238fc9..931cf34 100644
--- a/shex_ast/src/ir/schema_ir.rs
+++ b/shex_ast/src/ir/schema_ir.rs
@@ -337,12 +337,16 @@ impl SchemaIR {
 
     pub fn get_preds_extends(&self, idx: &ShapeLabelIdx) -> HashSet<Pred> {
         let mut preds = HashSet::new();
-        if let Some(info) = self.find_shape_idx(idx) {
-            preds.extend(info.expr().preds(self));
-            for e in &self.parents(idx) {
-                if let Some(parent_info) = self.find_shape_idx(e) {
-                    preds.extend(parent_info.expr().preds(self));
-                }
+        let mut visited = HashSet::new();
+        let mut pending = vec![*idx];
+        // The extended shapes may be references to other shapes which extend further ones
+        while let Some(current) = pending.pop() {
+            let current = self.dereference(&current);
+            if visited.insert(current)
+                && let Some(info) = self.find_shape_idx(&current)
+            {
+                preds.extend(info.expr().preds(self));
+                pending.extend(self.parents(&current));
             }
         }
         preds
diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 2cd59d0..cbb6d31 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -861,13 +861,9 @@ impl Engine {
             .into_iter()
             .filter(|(pred, value, ctx)| {
                 // Keep if the triple satisfies at least one leaf-bucket condition
-                // (conservatively: Ref conditions count as matching for M^∈ placement).
                 let matches_leaf = triple_exprs.values().any(|rbes| {
-                    rbes.iter().any(|rbe| {
-                        rbe.components().any(|(_, key, cond)| {
-                            &key == pred && (cond_has_ref(&cond) || cond.matches(value, ctx).is_ok())
-                        })
-                    })
+                    rbes.iter()
+                        .any(|rbe| matches_any_leaf(rbe, pred, value, ctx, typing))
                 });
                 if matches_leaf {
                     return true;
@@ -1178,11 +1174,8 @@ impl Engine {
             .map(|(p, v)| (p.clone(), v.clone(), SemanticActionContext::triple(node, p, v)))
             .filter(|(pred, value, ctx)| {
                 let matches_leaf = bucket_exprs.values().any(|rbes| {
-                    rbes.iter().any(|rbe| {
-                        rbe.components().any(|(_, key, cond)| {
-                            &key == pred && (cond_has_ref(&cond) || cond.matches(value, ctx).is_ok())
-                        })
-                    })
+                    rbes.iter()
+                        .any(|rbe| matches_any_leaf(rbe, pred, value, ctx, typing))
                 });
                 if matches_leaf {
                     return true;
@@ -2044,17 +2037,6 @@ fn check_start_acts(start_acts: &[SemAct], _node: &Node, _idx: &ShapeLabelIdx, s
     Ok(true)
 }
 
-/// Returns true if a MatchCond contains a shape reference (MatchCond::Ref),
-/// which means the condition delegates to a shape's typing check rather than
-/// directly verifying a value set.
-fn cond_has_ref(cond: &MatchCond<Pred, Node, ShapeLabelIdx, SemanticActionContext, CondKind>) -> bool {
-    match cond {
-        MatchCond::Ref(_) => true,
-        MatchCond::And(vs) => vs.iter().any(cond_has_ref),
-        MatchCond::Single(_) => false,
-    }
-}
-
 /// Returns true if `(pred, value)` satisfies at least one leaf condition in `expr`.
 ///
 /// The shape references of a condition are looked up in `typing`, which holds the pairs that
-- 
2.43.0


From 69361dce0eee547195281d9f2f83a5cdb9fa7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 024/110] fix: a node conformed to a shape by conforming to one
 conjunct of a shape extending it

---
 shex_ast/src/ir/schema_ir.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/shex_ast/src/ir/schema_ir.rs b/shex_ast/src/ir/schema_ir.rs
index 931cf34..082666a 100644
--- a/shex_ast/src/ir/schema_ir.rs
+++ b/shex_ast/src/ir/schema_ir.rs
@@ -186,9 +186,13 @@ impl SchemaIR {
         self.inheritance_graph.parents(idx)
     }
 
-    /// Returns the descendants of the shape expression corresponding to the given index
+    /// Returns the shape declarations that extend, directly or not, the shape expression corresponding to the given index
     pub fn descendants(&self, idx: &ShapeLabelIdx) -> Vec<ShapeLabelIdx> {
-        self.inheritance_graph.descendants(idx)
+        self.inheritance_graph
+            .descendants(idx)
+            .into_iter()
+            .filter(|d| self.find_shape_idx(d).is_some_and(|info| info.label().is_some()))
+            .collect()
     }
 
     pub fn set_semantic_actions_registry(&mut self, registry: Arc<SemanticActionsRegistry>) {
@@ -580,14 +584,19 @@ impl SchemaIR {
 
     pub(crate) fn build_inheritance_graph(&mut self) {
         let mut inheritance_graph = InheritanceGraph::new();
-        for (idx, info) in self.shapes.iter() {
-            match info.expr() {
-                ShapeExpr::Shape(shape) => {
-                    for e in shape.extends() {
-                        inheritance_graph.add_edge(*idx, *e);
-                    }
-                },
-                _ => continue,
+        for idx in self.shapes.keys() {
+            // A conjunction extends what its conjuncts extend
+            let mut pending = vec![*idx];
+            while let Some(current) = pending.pop() {
+                match self.find_shape_idx(&current).map(|info| info.expr()) {
+                    Some(ShapeExpr::Shape(shape)) => {
+                        for e in shape.extends() {
+                            inheritance_graph.add_edge(*idx, *e);
+                        }
+                    },
+                    Some(ShapeExpr::ShapeAnd { exprs }) => pending.extend(exprs.iter().copied()),
+                    _ => {},
+                }
             }
         }
         self.inheritance_graph = inheritance_graph
-- 
2.43.0


From 8c593b1a695c9e6370cf4e5bcae543d94c0a9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 025/110] fix: the conjuncts of extended shapes were evaluated
 as if they had to cover all the arcs, or ignored

---
 shex_validation/src/engine.rs | 116 ++++++++++------------------------
 1 file changed, 32 insertions(+), 84 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index cbb6d31..523f669 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -12,7 +12,6 @@ use either::Either;
 use indexmap::{IndexMap, IndexSet};
 use itertools::Itertools;
 // use prefixmap::PrefixMap;
-use rbe::MatchCond;
 use rudof_iri::iri;
 use rudof_rdf::rdf_core::{
     NeighsRDF,
@@ -23,7 +22,6 @@ use shex_ast::Expr;
 use shex_ast::Node;
 use shex_ast::Pred;
 use shex_ast::ShapeLabelIdx;
-use shex_ast::ast::cond_kind::CondKind;
 use shex_ast::ir::extend_alternative::ExtendAlternative;
 use shex_ast::ir::external_resolver::{DispatchOutcome, ExternalResolveCtx};
 use shex_ast::ir::preds::Preds;
@@ -722,11 +720,14 @@ impl Engine {
 
         // When some extended parent resolves to several alternatives (it contains a
         // ShapeOr), validate by trying every selection of one alternative per parent.
-        // Parents with a single alternative keep the historical code path below.
+        // Parents with a single alternative and no constraints keep the historical code path below.
         // See docs/src/internals/feasibility-model.md §3-§4.
         let parent_alternatives: Vec<Vec<ExtendAlternative>> =
             shape.extends().iter().map(|e| schema.extend_alternatives(e)).collect();
-        if parent_alternatives.iter().any(|alts| alts.len() > 1) {
+        if parent_alternatives
+            .iter()
+            .any(|alts| alts.len() > 1 || alts.iter().any(|a| !a.constraints().is_empty()))
+        {
             return self.check_node_shape_extends_selections(
                 idx,
                 node,
@@ -836,27 +837,6 @@ impl Engine {
             })
             .collect();
 
-        // Collect every triple-expression reachable from the parent shapes through the full
-        // extends / ShapeAnd / ShapeRef hierarchy.  This is needed to distinguish two cases:
-        //   (a) A triple that matches no leaf-bucket condition but IS covered by some transitive
-        //       ancestor's condition.  These are validated by check_node_extends_main_shape
-        //       (exhaustive semantics) and must be excluded from the partition to avoid spurious
-        //       partition failures.
-        //   (b) A triple that matches no leaf-bucket condition and is NOT covered by any ancestor
-        //       either.  These are truly invalid and must remain so the partition correctly fails.
-        let all_ancestor_exprs: Vec<Expr> = {
-            let mut exprs = Vec::new();
-            let mut visited = HashSet::new();
-            for pi in triple_exprs.keys().filter_map(|k| *k) {
-                exprs.extend(collect_all_exprs_for_shape(&pi, schema, &mut visited));
-            }
-            // Include None (the shape's own) bucket exprs as well
-            if let Some(none_exprs) = triple_exprs.get(&None) {
-                exprs.extend(none_exprs.iter().cloned());
-            }
-            exprs
-        };
-
         let values_ctx: Vec<_> = values_ctx_raw
             .into_iter()
             .filter(|(pred, value, ctx)| {
@@ -869,18 +849,8 @@ impl Engine {
                     return true;
                 }
                 // EXTRA predicate with no satisfying leaf → goes into M^∉, exclude from partition.
-                if extra_preds.contains(pred) {
-                    return false;
-                }
-                // Triple is not needed by any leaf bucket.
-                // Keep it only if it is also NOT covered by any ancestor (case b: truly invalid).
-                // If it IS covered by an ancestor (case a), exclude it — the exhaustive check
-                // in check_node_extends_main_shape already handles it.
-                let covered_by_ancestor = all_ancestor_exprs.iter().any(|rbe| {
-                    rbe.components()
-                        .any(|(_, key, cond)| &key == pred && cond.matches(value, ctx).is_ok())
-                });
-                !covered_by_ancestor
+                // Any other triple stays, so that the partition fails.
+                !extra_preds.contains(pred)
             })
             .collect();
 
@@ -1207,13 +1177,13 @@ impl Engine {
         // conjuncts involve no triples and are checked against the node right away;
         // anything else (e.g. a NOT conjunct) keeps the whole-neighbourhood check.
         let mut reasons = Vec::new();
-        let mut split_constraints: Vec<(ShapeLabelIdx, &[ShapeLabelIdx], Vec<Expr>)> = Vec::new();
+        let mut split_constraints: Vec<(ShapeLabelIdx, &[ShapeLabelIdx], Vec<Shape>)> = Vec::new();
         for c in sigma.constraints() {
-            let mut tes = Vec::new();
-            match try_split_constraint(schema, c.expr(), node, &mut tes) {
+            let mut shapes = Vec::new();
+            match try_split_constraint(schema, c.expr(), node, &mut shapes) {
                 Some(true) => {
-                    if !tes.is_empty() {
-                        split_constraints.push((*c.expr(), c.scope(), tes));
+                    if !shapes.is_empty() {
+                        split_constraints.push((*c.expr(), c.scope(), shapes));
                     }
                 },
                 Some(false) => {
@@ -1295,15 +1265,28 @@ impl Engine {
             if ok_partition {
                 // Split-constraint validation: each constraint sees the union of the
                 // triples this partition allocated to the buckets in its scope.
-                'constraints: for (cidx, scope, tes) in &split_constraints {
+                'constraints: for (cidx, scope, shapes) in &split_constraints {
                     let mut constraint_neighs = Vec::new();
                     for b in *scope {
                         if let Some(more) = allocated.get(&Some(*b)) {
                             constraint_neighs.extend(more.iter().cloned());
                         }
                     }
-                    for te in tes {
-                        match check_exprs_neigh(std::slice::from_ref(te), &constraint_neighs, node, shape, idx, typing)?
+                    for constraint in shapes {
+                        let te = constraint.triple_expr();
+                        let preds = constraint.preds();
+                        let te_neighs: Vec<_> = constraint_neighs
+                            .iter()
+                            .filter(|(pred, value, ctx)| {
+                                if preds.contains(pred) {
+                                    !constraint.extra().contains(pred) || matches_any_leaf(te, pred, value, ctx, typing)
+                                } else {
+                                    constraint.is_closed()
+                                }
+                            })
+                            .cloned()
+                            .collect();
+                        match check_exprs_neigh(std::slice::from_ref(te), &te_neighs, node, shape, idx, typing)?
                         {
                             Either::Right(_) => {},
                             Either::Left(errs) => {
@@ -1649,52 +1632,17 @@ impl Engine {
     }
 }
 
-/// Recursively collects every `Expr` (triple-expression RbeTable) reachable from `idx` by
-/// traversing ShapeAnd components, ShapeRef references, and extends chains.  This gives the
-/// complete set of conditions declared anywhere in the shape hierarchy rooted at `idx`, which
-/// is used to decide whether a particular triple is "covered" by the extends chain (and thus
-/// handled by check_node_extends_main_shape's exhaustive semantics) or truly undeclared.
-fn collect_all_exprs_for_shape(
-    idx: &ShapeLabelIdx,
-    schema: &SchemaIR,
-    visited: &mut HashSet<ShapeLabelIdx>,
-) -> Vec<Expr> {
-    if !visited.insert(*idx) {
-        return vec![];
-    }
-    if let Some(info) = schema.find_shape_idx(idx) {
-        match info.expr() {
-            ShapeExpr::Shape(shape) => {
-                let mut exprs = vec![shape.triple_expr().clone()];
-                for e in shape.extends() {
-                    exprs.extend(collect_all_exprs_for_shape(e, schema, visited));
-                }
-                exprs
-            },
-            ShapeExpr::ShapeAnd { exprs } => exprs
-                .iter()
-                .flat_map(|e| collect_all_exprs_for_shape(e, schema, visited))
-                .collect(),
-            ShapeExpr::Ref { idx: ref_idx } => collect_all_exprs_for_shape(ref_idx, schema, visited),
-            ShapeExpr::NodeConstraint(_) | ShapeExpr::Empty | ShapeExpr::External {} => vec![],
-            _ => vec![],
-        }
-    } else {
-        vec![]
-    }
-}
-
 /// Classify a selection constraint for split-constraint validation.  Returns
-/// `Some(true)` with the constraint's triple expressions pushed onto `out` when the
-/// (dereferenced) expression is expressible as triple expressions over its split scope
+/// `Some(true)` with the constraint's shapes pushed onto `out` when the
+/// (dereferenced) expression is expressible as shapes over its split scope
 /// — a Shape without extends, a NodeConstraint (checked against the node immediately),
 /// or a conjunction of such.  `Some(false)` reports a NodeConstraint the node fails.
 /// `None` means the constraint is not split-validatable (e.g. a negation or a shape
 /// with its own extends) and must keep the whole-neighbourhood check.
-fn try_split_constraint(schema: &SchemaIR, cidx: &ShapeLabelIdx, node: &Node, out: &mut Vec<Expr>) -> Option<bool> {
+fn try_split_constraint(schema: &SchemaIR, cidx: &ShapeLabelIdx, node: &Node, out: &mut Vec<Shape>) -> Option<bool> {
     match schema.find_shape_idx(cidx).map(|info| info.expr()) {
         Some(ShapeExpr::Shape(s)) if s.extends().is_empty() => {
-            out.push(s.triple_expr().clone());
+            out.push((**s).clone());
             Some(true)
         },
         Some(ShapeExpr::NodeConstraint(nc)) => {
-- 
2.43.0


From 4a3d5dcde2192e2b05f7a10594a13bc984c79b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 026/110] fix: inverse of complex paths panicked and a literal
 value made the rest of a path fail

---
 rudof_rdf/src/rdf_core/neighs_rdf.rs | 35 ++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/neighs_rdf.rs b/rudof_rdf/src/rdf_core/neighs_rdf.rs
index ec19298..6c30432 100644
--- a/rudof_rdf/src/rdf_core/neighs_rdf.rs
+++ b/rudof_rdf/src/rdf_core/neighs_rdf.rs
@@ -325,6 +325,10 @@ pub trait NeighsRDF: Rdf {
     fn objects_for_shacl_path(&self, subject: &Self::Term, path: &SHACLPath) -> Result<HashSet<Self::Term>, RDFError> {
         match path {
             SHACLPath::Predicate { pred } => {
+                // A literal is the subject of no triple
+                if Self::term_as_subject(subject).is_err() {
+                    return Ok(HashSet::new());
+                }
                 let pred: Self::IRI = pred.clone().into();
                 self.objects_for(subject, &pred)
             },
@@ -349,10 +353,33 @@ pub trait NeighsRDF: Rdf {
                     Ok(all_objects)
                 },
             },
-            SHACLPath::Inverse { path } => {
-                let pred: Self::IRI = path.pred().unwrap().clone().into();
-                let objects = self.subjects_for(&pred, subject)?;
-                Ok(objects)
+            SHACLPath::Inverse { path } => match path.as_ref() {
+                SHACLPath::Predicate { pred } => {
+                    let pred: Self::IRI = pred.clone().into();
+                    self.subjects_for(&pred, subject)
+                },
+                // The inverse of any other path is obtained by moving the inverse inwards
+                SHACLPath::Inverse { path } => self.objects_for_shacl_path(subject, path),
+                SHACLPath::Alternative { paths } => {
+                    let paths = paths.iter().cloned().map(SHACLPath::inverse).collect();
+                    self.objects_for_shacl_path(subject, &SHACLPath::Alternative { paths })
+                },
+                SHACLPath::Sequence { paths } => {
+                    let paths = paths.iter().rev().cloned().map(SHACLPath::inverse).collect();
+                    self.objects_for_shacl_path(subject, &SHACLPath::Sequence { paths })
+                },
+                SHACLPath::ZeroOrMore { path } => {
+                    let path = SHACLPath::inverse(path.as_ref().clone());
+                    self.objects_for_shacl_path(subject, &SHACLPath::zero_or_more(path))
+                },
+                SHACLPath::OneOrMore { path } => {
+                    let path = SHACLPath::inverse(path.as_ref().clone());
+                    self.objects_for_shacl_path(subject, &SHACLPath::one_or_more(path))
+                },
+                SHACLPath::ZeroOrOne { path } => {
+                    let path = SHACLPath::inverse(path.as_ref().clone());
+                    self.objects_for_shacl_path(subject, &SHACLPath::zero_or_one(path))
+                },
             },
             SHACLPath::ZeroOrMore { path } => {
                 let mut all_objects = HashSet::new();
-- 
2.43.0


From a1b0923ddff076659154bd1ebd524201a31fb656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 027/110] fix: deactivated property shapes were validated

---
 shacl/src/ast/property_shape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shacl/src/ast/property_shape.rs b/shacl/src/ast/property_shape.rs
index 22a08ba..73fba85 100644
--- a/shacl/src/ast/property_shape.rs
+++ b/shacl/src/ast/property_shape.rs
@@ -158,6 +158,10 @@ impl ASTPropertyShape {
 
     pub fn is_deactivated(&self) -> bool {
         self.deactivated
+            || self
+                .components
+                .iter()
+                .any(|component| matches!(component, ASTComponent::Deactivated(true)))
     }
 
     pub fn severity(&self) -> Option<&Severity> {
-- 
2.43.0


From a1628709c311f27878dff7fed9126e16ed2d757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 028/110] fix: after sh:ignoredProperties the rest of a shape
 was read from the list, so sh:deactivated was lost

---
 .../parser/rdf_node_parser/constructors/property.rs    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs b/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
index e64af6b..31c1986 100644
--- a/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
+++ b/rudof_rdf/src/rdf_core/parser/rdf_node_parser/constructors/property.rs
@@ -163,9 +163,15 @@ where
     type Output = Vec<RDF::Term>;
 
     fn parse_focused(&self, rdf: &mut RDF) -> Result<Self::Output, RDFError> {
-        SingleValuePropertyParser::new(self.property.clone())
+        // The list is parsed at its own node; the parsers that come next expect the current one
+        let focus = rdf.get_focus().cloned();
+        let result = SingleValuePropertyParser::new(self.property.clone())
             .then(|node| SetFocusParser::new(node).then(|_| ListParser::new()))
-            .parse_focused(rdf)
+            .parse_focused(rdf);
+        if let Some(focus) = &focus {
+            rdf.set_focus(focus);
+        }
+        result
     }
 }
 
-- 
2.43.0


From 3a5fb256220aabefa36348c4283956a6d0bfc6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 029/110] fix: instances of a class through several subclasses
 were not targets nor instances for sh:class

---
 .../validator/constraints/core/value/class.rs | 34 +++++++------------
 shacl/src/validator/engine/native.rs          | 32 +++++++----------
 shacl/src/validator/index/class.rs            | 15 ++++----
 3 files changed, 32 insertions(+), 49 deletions(-)

diff --git a/shacl/src/validator/constraints/core/value/class.rs b/shacl/src/validator/constraints/core/value/class.rs
index 7b90934..860d9d6 100644
--- a/shacl/src/validator/constraints/core/value/class.rs
+++ b/shacl/src/validator/constraints/core/value/class.rs
@@ -41,17 +41,7 @@ impl<S: NeighsRDF + 'static> NativeValidator<S> for Class {
             }
             let term = S::object_as_term(self.class_rule());
 
-            !store
-                .objects_for(vn, &RdfVocab::rdf_type().into())
-                .unwrap_or_default()
-                .iter()
-                .any(|ctype| {
-                    ctype == &term
-                        || store
-                            .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                            .unwrap_or_default()
-                            .contains(&term)
-                })
+            !is_instance::<S>(store, vn, &term)
         };
 
         validate_with(
@@ -94,7 +84,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
                 let conforms = if vn.is_literal() {
                     false
                 } else if vn.is_blank_node() {
-                    blank_is_instance::<S>(store, vn, &class_term)?
+                    is_instance::<S>(store, vn, &class_term)
                 } else {
                     let vn_sparql = term_as_sparql::<S>(vn).unwrap_or_default();
                     let query = formatdoc! {"
@@ -121,14 +111,14 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
     }
 }
 
-#[cfg(feature = "sparql")]
-fn blank_is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> Result<bool, ValidationError> {
-    let types = store.objects_for(vn, &RdfVocab::rdf_type().into()).unwrap_or_default();
-    Ok(types.iter().any(|ctype| {
-        ctype == class_term
-            || store
-                .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                .unwrap_or_default()
-                .contains(class_term)
-    }))
+/// Checks if a node has the class as type, directly or through any chain of subclasses
+fn is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> bool {
+    let path = SHACLPath::sequence(vec![
+        SHACLPath::iri(RdfVocab::rdf_type()),
+        SHACLPath::zero_or_more(SHACLPath::iri(RdfsVocab::rdfs_subclass_of_str())),
+    ]);
+    store
+        .objects_for_shacl_path(vn, &path)
+        .unwrap_or_default()
+        .contains(class_term)
 }
diff --git a/shacl/src/validator/engine/native.rs b/shacl/src/validator/engine/native.rs
index 4d428d0..81cdafc 100644
--- a/shacl/src/validator/engine/native.rs
+++ b/shacl/src/validator/engine/native.rs
@@ -56,17 +56,13 @@ impl NativeEngine {
         class: &Object,
     ) -> Result<FocusNodes<RDF>, ValidationError> {
         if let Some(index) = &self.class_index {
-            let focus_nodes = index.instances_of(class).map(|obj| -> RDF::Term { obj.clone().into() });
+            let instances = index.instances_of_with_subclasses(class);
+            let focus_nodes = instances.into_iter().map(|obj| -> RDF::Term { obj.clone().into() });
             return Ok(FocusNodes::from_iter(focus_nodes));
         }
 
         let cls: RDF::Term = class.clone().into();
-        let focus_nodes = store
-            .shacl_instances_of(&cls)
-            .map_err(ValidationError::new_graph_error::<RDF>)?
-            .map(|s| RDF::subject_as_term(&s));
-
-        Ok(FocusNodes::from_iter(focus_nodes))
+        Ok(FocusNodes::new(store.objects_for_shacl_path(&cls, &instances_path())?))
     }
 
     fn target_subject_of_impl<RDF: NeighsRDF + Debug + 'static>(
@@ -108,19 +104,7 @@ impl NativeEngine {
         }
 
         let term: RDF::Term = shape.clone().into();
-        let targets = store.subjects_for(&RdfVocab::rdf_type().into(), &term)?;
-
-        let subclass_targets = store
-            .subjects_for(&RdfsVocab::rdfs_subclass_of_str().into(), &term)?
-            .into_iter()
-            .flat_map(move |subclass| {
-                store
-                    .subjects_for(&RdfVocab::rdf_type().into(), &subclass)
-                    .into_iter()
-                    .flatten()
-            });
-
-        Ok(FocusNodes::from_iter(targets.into_iter().chain(subclass_targets)))
+        Ok(FocusNodes::new(store.objects_for_shacl_path(&term, &instances_path())?))
     }
 }
 
@@ -277,6 +261,14 @@ impl<RDF: NeighsRDF + QueryRDF + Debug + 'static> Engine<RDF> for NativeEngine {
     }
 }
 
+/// Path from a class to its instances, direct or through any chain of subclasses
+fn instances_path() -> SHACLPath {
+    SHACLPath::sequence(vec![
+        SHACLPath::zero_or_more(SHACLPath::inverse(SHACLPath::iri(RdfsVocab::rdfs_subclass_of_str()))),
+        SHACLPath::inverse(SHACLPath::iri(RdfVocab::rdf_type())),
+    ])
+}
+
 impl Default for NativeEngine {
     fn default() -> Self {
         Self::new()
diff --git a/shacl/src/validator/index/class.rs b/shacl/src/validator/index/class.rs
index 5ad5cd2..e6747d8 100644
--- a/shacl/src/validator/index/class.rs
+++ b/shacl/src/validator/index/class.rs
@@ -68,14 +68,15 @@ impl ClassIndex {
         self.subclass_map.get(class).into_iter().flat_map(|set| set.iter())
     }
 
-    /// Returns instances of the class and instances of all its direct subclasses.
-    pub fn instances_of_with_subclasses(&self, class: &Object) -> HashSet<&Object> {
-        let mut result: HashSet<_> = self.instances_of(class).collect();
+    /// Returns instances of the class and instances of all its direct and indirect subclasses.
+    pub fn instances_of_with_subclasses<'a>(&'a self, class: &'a Object) -> HashSet<&'a Object> {
+        let mut classes = HashSet::from([class]);
+        let mut pending = vec![class];
+        let mut result = HashSet::new();
 
-        for subclass in self.subclasses_of(class) {
-            for instance in self.instances_of(subclass) {
-                result.insert(instance);
-            }
+        while let Some(class) = pending.pop() {
+            result.extend(self.instances_of(class));
+            pending.extend(self.subclasses_of(class).filter(|subclass| classes.insert(subclass)));
         }
 
         result
-- 
2.43.0


From 5aa46005f5471f1f90b9c4fafc3303702d02b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 030/110] fix: results of nested property shapes were lost when
 they came from the cache

---
 shacl/src/validator/engine/validate.rs | 57 +++++++++++++++-----------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index d40124e..d39f1e0 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -108,35 +108,32 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
         // unique (value-node, shape) pair is only truly validated once; subsequent
         // invocations for the same pair return the cached results, correctly producing
         // one violation entry per path that led to the offending node.
-        let mut property_shapes_validation_results = Vec::new();
+        //
+        // The results of nested shapes are about the nested nodes, so each of them is paired
+        // with the focus node of the current shape it was obtained for.
+        let mut nested_results: Vec<(RDF::Term, ValidationResult)> = Vec::new();
         for ps in self.property_shapes().iter() {
             let shape = shapes_graph.get_shape_from_idx_e(ps)?;
-            for (_, vn) in value_nodes.iter() {
+            for (fnode, vn) in value_nodes.iter() {
                 let results = shape.validate(store, runner, Some(vn), Some(self), shapes_graph)?;
-                property_shapes_validation_results.extend(results);
+                nested_results.extend(results.into_iter().map(|r| (fnode.clone(), r)));
             }
         }
 
-        let reification_results = if let Some(reifier_info) = self.reifier_info() {
-            validate_reifiers(
-                self,
-                store,
-                runner,
-                source_shape,
-                reifier_info,
-                &uncached_focus_nodes,
-                shapes_graph,
-            )?
-        } else {
-            Vec::new()
-        };
-
-        // Collect all NEW validation results (from uncached focus nodes)
-        let new_results: Vec<ValidationResult> = component_validation_results
-            .into_iter()
-            .chain(property_shapes_validation_results)
-            .chain(reification_results)
-            .collect();
+        if let Some(reifier_info) = self.reifier_info() {
+            for fnode in uncached_focus_nodes.iter() {
+                let results = validate_reifiers(
+                    self,
+                    store,
+                    runner,
+                    source_shape,
+                    reifier_info,
+                    &FocusNodes::single(fnode.clone()),
+                    shapes_graph,
+                )?;
+                nested_results.extend(results.into_iter().map(|r| (fnode.clone(), r)));
+            }
+        }
 
         // Record new results in the cache per focus node
         if let Some(idx) = idx {
@@ -146,16 +143,28 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
                 .filter_map(|n| RDF::term_as_object(n).ok())
                 .map(|obj| (obj, Vec::new()))
                 .collect();
-            for r in &new_results {
+            for r in &component_validation_results {
                 if let Some(bucket) = by_focus.get_mut(r.focus_node()) {
                     bucket.push(r.clone());
                 }
             }
+            for (fnode, r) in &nested_results {
+                if let Ok(fnode) = RDF::term_as_object(fnode)
+                    && let Some(bucket) = by_focus.get_mut(&fnode)
+                {
+                    bucket.push(r.clone());
+                }
+            }
             for (node_object, node_results) in by_focus {
                 runner.record_validation(node_object, *idx, node_results);
             }
         }
 
+        // Collect all NEW validation results (from uncached focus nodes)
+        let new_results = component_validation_results
+            .into_iter()
+            .chain(nested_results.into_iter().map(|(_, r)| r));
+
         // Merge cached results with newly computed results
         let mut all_results = cached_results;
         all_results.extend(new_results);
-- 
2.43.0


From 77d59cd2ea86710b24e8f2494da59ea2d5b384e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 031/110] fix: sh:closed on a property shape checked the focus
 nodes instead of the value nodes

---
 .../constraints/core/other/closed.rs          | 143 +++++-------------
 1 file changed, 38 insertions(+), 105 deletions(-)

diff --git a/shacl/src/validator/constraints/core/other/closed.rs b/shacl/src/validator/constraints/core/other/closed.rs
index aad1db3..7f94cb0 100644
--- a/shacl/src/validator/constraints/core/other/closed.rs
+++ b/shacl/src/validator/constraints/core/other/closed.rs
@@ -5,8 +5,6 @@ use crate::validator::constraints::NativeValidator;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
-#[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::term::Term;
 use rudof_rdf::rdf_core::term::{Object, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
@@ -14,8 +12,6 @@ use std::fmt::Debug;
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::BasicSparqlValidator;
 #[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
 
 impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Closed {
@@ -38,28 +34,31 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Closed {
         let component_obj = Object::iri(component.into());
         let mut results = Vec::new();
 
-        for (fnode, _) in value_nodes.iter() {
-            let subject = match S::term_as_subject(fnode) {
-                Ok(subj) => subj,
-                Err(_) => continue,
-            };
+        for (fnode, vnodes) in value_nodes.iter() {
+            let focus_obj = S::term_as_object(fnode)?;
 
-            let triples = store
-                .triples_with_subject(&subject)
-                .map_err(ValidationError::new_graph_error::<S>)?;
+            for vn in vnodes.iter() {
+                let subject = match S::term_as_subject(vn) {
+                    Ok(subj) => subj,
+                    Err(_) => continue,
+                };
 
-            let focus_obj = S::term_as_object(fnode)?;
+                let triples = store
+                    .triples_with_subject(&subject)
+                    .map_err(ValidationError::new_graph_error::<S>)?;
 
-            for triple in triples {
-                let (_, pred, obj) = triple.into_components();
-                let pred_iri = pred.into();
-                if !allowed_props.contains(&pred_iri) {
-                    let value = S::term_as_object(&obj).ok();
-                    let vr = ValidationResult::new(focus_obj.clone(), component_obj.clone(), shape.severity().clone())
-                        .with_source(Some(shape.id().clone()))
-                        .with_path(Some(SHACLPath::iri(pred_iri)))
-                        .with_value(value);
-                    results.push(vr);
+                for triple in triples {
+                    let (_, pred, obj) = triple.into_components();
+                    let pred_iri = pred.into();
+                    if !allowed_props.contains(&pred_iri) {
+                        let value = S::term_as_object(&obj).ok();
+                        let vr =
+                            ValidationResult::new(focus_obj.clone(), component_obj.clone(), shape.severity().clone())
+                                .with_source(Some(shape.id().clone()))
+                                .with_path(Some(SHACLPath::iri(pred_iri)))
+                                .with_value(value);
+                        results.push(vr);
+                    }
                 }
             }
         }
@@ -70,94 +69,28 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Closed {
 
 #[cfg(feature = "sparql")]
 impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Closed {
+    // The triples are not obtained with a query because a blank node of the data cannot be
+    // named in it and the lexical forms of literals are not preserved by the store.
     fn validate_sparql(
         &self,
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
-        _: Option<&SHACLPath>,
-        _: &IRSchema,
+        source_shape: Option<&IRShape>,
+        maybe_path: Option<&SHACLPath>,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
-        if !self.is_closed() {
-            return Ok(Vec::new());
-        }
-
-        let allowed_props = shape.allowed_properties();
-        let component_obj = Object::iri(component.into());
-        let mut results = Vec::new();
-
-        let not_in_clause = if allowed_props.is_empty() {
-            String::new()
-        } else {
-            let iris = allowed_props
-                .iter()
-                .map(|iri| format!("<{iri}>"))
-                .collect::<Vec<_>>()
-                .join(", ");
-            format!(" FILTER (?p NOT IN ({iris}))")
-        };
-
-        for (fnode, _) in value_nodes.iter() {
-            let focus_obj = S::term_as_object(fnode)?;
-
-            let triples_iter: Box<dyn Iterator<Item = (Object, Option<Object>)>> = if fnode.is_blank_node() {
-                let subject = match S::term_as_subject(fnode) {
-                    Ok(s) => s,
-                    Err(_) => continue,
-                };
-                let triples = store
-                    .triples_with_subject(&subject)
-                    .map_err(ValidationError::new_graph_error::<S>)?;
-                Box::new(triples.into_iter().filter_map(|t| {
-                    let (_, pred, obj) = t.into_components();
-                    let pred_iri = pred.into();
-                    if allowed_props.contains(&pred_iri) {
-                        None
-                    } else {
-                        Some((Object::Iri(pred_iri), S::term_as_object(&obj).ok()))
-                    }
-                }))
-            } else {
-                let query = formatdoc! {"
-                    SELECT ?p ?o WHERE {{ {} ?p ?o .{} }}
-                ", fnode, not_in_clause};
-
-                let solutions = store
-                    .query_select(&query)
-                    .map_err(ValidationError::select_query_error::<S>)?;
-
-                let mut rows: Vec<(Object, Option<Object>)> = Vec::new();
-                for sol in solutions.iter() {
-                    let pred_term = match sol.find_solution("p") {
-                        Some(t) => t,
-                        None => continue,
-                    };
-                    let pred_obj = match S::term_as_object(pred_term) {
-                        Ok(obj @ Object::Iri(_)) => obj,
-                        _ => continue,
-                    };
-                    let value = sol.find_solution("o").and_then(|t| S::term_as_object(t).ok());
-                    rows.push((pred_obj, value));
-                }
-                Box::new(rows.into_iter())
-            };
-
-            for (pred_obj, value) in triples_iter {
-                let path = match &pred_obj {
-                    Object::Iri(iri) => Some(SHACLPath::iri(iri.clone())),
-                    _ => None,
-                };
-                let vr = ValidationResult::new(focus_obj.clone(), component_obj.clone(), shape.severity().clone())
-                    .with_source(Some(shape.id().clone()))
-                    .with_path(path)
-                    .with_value(value);
-                results.push(vr);
-            }
-        }
-
-        Ok(results)
+        self.validate_native(
+            component,
+            shape,
+            store,
+            engine,
+            value_nodes,
+            source_shape,
+            maybe_path,
+            shapes_graph,
+        )
     }
 }
-- 
2.43.0


From e963ec023c5f5fcec5a78b3757a13de966fc022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 032/110] fix: sh:in and sh:hasValue did not find
 language-tagged values whose tag had another case

---
 .../validator/constraints/core/other/has_value.rs  |  3 ++-
 .../constraints/core/other/in_constraint.rs        |  3 ++-
 shacl/src/validator/constraints/core/other/mod.rs  | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/shacl/src/validator/constraints/core/other/has_value.rs b/shacl/src/validator/constraints/core/other/has_value.rs
index 361ef1b..59a3871 100644
--- a/shacl/src/validator/constraints/core/other/has_value.rs
+++ b/shacl/src/validator/constraints/core/other/has_value.rs
@@ -1,3 +1,4 @@
+use super::same_term;
 use crate::error::ValidationError;
 use crate::ir::components::HasValue;
 use crate::ir::{IRComponent, IRSchema, IRShape};
@@ -28,7 +29,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for HasValue {
             FocusNodeIteration,
             |t| {
                 let value_term = &S::object_as_term(self.value());
-                !t.iter().any(|v| v == value_term)
+                !t.iter().any(|v| same_term::<S>(v, value_term))
             },
             &format!("HasValue({}) not satisfied", self.value()),
             maybe_path,
diff --git a/shacl/src/validator/constraints/core/other/in_constraint.rs b/shacl/src/validator/constraints/core/other/in_constraint.rs
index ad7f524..c367f2f 100644
--- a/shacl/src/validator/constraints/core/other/in_constraint.rs
+++ b/shacl/src/validator/constraints/core/other/in_constraint.rs
@@ -1,3 +1,4 @@
+use super::same_term;
 use crate::error::ValidationError;
 use crate::ir::components::In;
 use crate::ir::{IRComponent, IRSchema, IRShape};
@@ -28,7 +29,7 @@ impl<S: NeighsRDF + Debug> Validator<S> for In {
             ValueNodeIteration,
             |vn| {
                 let values = self.values().iter().map(S::object_as_term).collect::<Vec<_>>();
-                !values.contains(vn)
+                !values.iter().any(|v| same_term::<S>(v, vn))
             },
             &format!("In constraint not satisfied. Expected one of {:?}", self.values()),
             maybe_path,
diff --git a/shacl/src/validator/constraints/core/other/mod.rs b/shacl/src/validator/constraints/core/other/mod.rs
index 014f80b..5128f06 100644
--- a/shacl/src/validator/constraints/core/other/mod.rs
+++ b/shacl/src/validator/constraints/core/other/mod.rs
@@ -1,3 +1,17 @@
 mod closed;
 mod has_value;
 mod in_constraint;
+
+use rudof_rdf::rdf_core::Rdf;
+use rudof_rdf::rdf_core::term::literal::Literal;
+
+/// Checks if two terms are the same one. The case of a language tag is not significant.
+fn same_term<S: Rdf>(t1: &S::Term, t2: &S::Term) -> bool {
+    if t1 == t2 {
+        return true;
+    }
+    match (S::term_as_literal(t1), S::term_as_literal(t2)) {
+        (Ok(l1), Ok(l2)) => l1.lang().is_some() && l1.lang() == l2.lang() && l1.lexical_form() == l2.lexical_form(),
+        _ => false,
+    }
+}
-- 
2.43.0


From 1d48b8425840c369d97fa281fd5afb71044279dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 033/110] fix: string lengths and patterns of the SPARQL engine
 used canonicalised literals, and lengths of the native one bytes

---
 .../constraints/core/string_based/max_length.rs       | 11 ++++++-----
 .../constraints/core/string_based/min_length.rs       | 11 ++++++-----
 .../constraints/core/string_based/pattern.rs          |  9 ++++-----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/shacl/src/validator/constraints/core/string_based/max_length.rs b/shacl/src/validator/constraints/core/string_based/max_length.rs
index 07ae4eb..675ed42 100644
--- a/shacl/src/validator/constraints/core/string_based/max_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/max_length.rs
@@ -12,7 +12,7 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql, validate_ask_with_opt};
+use crate::validator::constraints::{BasicSparqlValidator, escape_sparql_string, validate_ask_with_opt};
 #[cfg(feature = "sparql")]
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() > self.max_length() as usize;
+                return iri.as_str().chars().count() > self.max_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() > self.max_length() as usize;
+                return lit.lexical_form().chars().count() > self.max_length() as usize;
             }
             true
         };
@@ -74,9 +74,10 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for MaxL
             if vn.is_blank_node() {
                 return Some("ASK { FILTER(false) }".to_string());
             }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
+            // Not the term, as the lexical form of a literal may be replaced by a canonical one
+            let vn_str = escape_sparql_string(&vn.lexical_form());
             Some(formatdoc! {"
-                ASK {{ FILTER(STRLEN(STR({vn_sparql})) <= {max}) }}
+                ASK {{ FILTER(STRLEN(\"{vn_str}\") <= {max}) }}
             "})
         };
 
diff --git a/shacl/src/validator/constraints/core/string_based/min_length.rs b/shacl/src/validator/constraints/core/string_based/min_length.rs
index b1e6dec..0859626 100644
--- a/shacl/src/validator/constraints/core/string_based/min_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/min_length.rs
@@ -12,7 +12,7 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql, validate_ask_with_opt};
+use crate::validator::constraints::{BasicSparqlValidator, escape_sparql_string, validate_ask_with_opt};
 #[cfg(feature = "sparql")]
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() < self.min_length() as usize;
+                return iri.as_str().chars().count() < self.min_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() < self.min_length() as usize;
+                return lit.lexical_form().chars().count() < self.min_length() as usize;
             }
             true
         };
@@ -74,9 +74,10 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for MinL
             if vn.is_blank_node() {
                 return Some("ASK { FILTER(false) }".to_string());
             }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
+            // Not the term, as the lexical form of a literal may be replaced by a canonical one
+            let vn_str = escape_sparql_string(&vn.lexical_form());
             Some(formatdoc! {"
-                ASK {{ FILTER(STRLEN(STR({vn_sparql})) >= {min}) }}
+                ASK {{ FILTER(STRLEN(\"{vn_str}\") >= {min}) }}
             "})
         };
 
diff --git a/shacl/src/validator/constraints/core/string_based/pattern.rs b/shacl/src/validator/constraints/core/string_based/pattern.rs
index 918c9ee..6e68aa9 100644
--- a/shacl/src/validator/constraints/core/string_based/pattern.rs
+++ b/shacl/src/validator/constraints/core/string_based/pattern.rs
@@ -1,8 +1,6 @@
 use crate::error::ValidationError;
 use crate::ir::components::Pattern;
 use crate::ir::{IRComponent, IRSchema, IRShape};
-#[cfg(feature = "sparql")]
-use crate::validator::constraints::escape_sparql_string;
 use crate::validator::constraints::{NativeValidator, validate_with};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
@@ -13,7 +11,7 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, term_as_sparql, validate_ask_with_opt};
+use crate::validator::constraints::{BasicSparqlValidator, escape_sparql_string, validate_ask_with_opt};
 #[cfg(feature = "sparql")]
 use indoc::formatdoc;
 #[cfg(feature = "sparql")]
@@ -72,9 +70,10 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Patt
             if vn.is_blank_node() {
                 return Some("ASK { FILTER(false) }".to_string());
             }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
+            // Not the term, as the lexical form of a literal may be replaced by a canonical one
+            let vn_str = escape_sparql_string(&vn.lexical_form());
             Some(formatdoc! {"
-                ASK {{ FILTER(REGEX(STR({vn_sparql}), \"{pattern}\"{flags_arg})) }}
+                ASK {{ FILTER(REGEX(\"{vn_str}\", \"{pattern}\"{flags_arg})) }}
             "})
         };
 
-- 
2.43.0


From b8a736677ba5b6ebf2445c012b16c4bd5a03dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 034/110] fix: property pair constraints failed on literal
 focus nodes, compared language-tagged strings and IRIs, and depended on
 canonicalised literals in the SPARQL engine

---
 .../core/property_pair/disjoint.rs            | 52 +++++-------
 .../constraints/core/property_pair/equals.rs  | 80 +++++--------------
 .../core/property_pair/less_than.rs           | 67 +++++-----------
 .../core/property_pair/less_than_or_equals.rs | 64 +++++----------
 .../constraints/core/property_pair/mod.rs     | 14 ++++
 5 files changed, 93 insertions(+), 184 deletions(-)

diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index 966e841..a0dd6bf 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -9,11 +9,7 @@ use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
 #[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
-#[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::term::Object;
 use rudof_rdf::rdf_core::term::Triple;
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
@@ -31,7 +27,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
         _: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
         let check_fn = |f: &S::Term, vn: &S::Term| {
-            let subject = S::term_as_subject(f).unwrap();
+            let subject = match S::term_as_subject(f) {
+                Ok(subject) => subject,
+                Err(_) => return false,
+            };
             let iri: S::IRI = self.iri().clone().into();
             let triples_to_compare = match store.triples_with_subject_predicate(&subject, &iri) {
                 Ok(iter) => iter,
@@ -63,41 +62,28 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
 
 #[cfg(feature = "sparql")]
 impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Disjoint {
+    // Whether two terms are the same cannot be decided by a query: a blank node of the data
+    // cannot be named in it and the lexical forms of literals are not preserved by the store.
     fn validate_sparql(
         &self,
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let component_obj = Object::iri(component.into());
-        let mut results = Vec::new();
-
-        for (fnode, nodes) in value_nodes.iter() {
-            let fnode_obj = S::term_as_object(fnode)?;
-
-            for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    ASK {{ {} <{}> {} }}
-                ", fnode, self.iri(), vn};
-
-                let ask = store.query_ask(&query).map_err(ValidationError::ask_query_error::<S>)?;
-
-                if ask {
-                    let value = S::term_as_object(vn).ok();
-                    let vr = ValidationResult::new(fnode_obj.clone(), component_obj.clone(), shape.severity().clone())
-                        .with_source(Some(shape.id().clone()))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value);
-                    results.push(vr);
-                }
-            }
-        }
-
-        Ok(results)
+        self.validate_native(
+            component,
+            shape,
+            store,
+            engine,
+            value_nodes,
+            source_shape,
+            maybe_path,
+            shapes_graph,
+        )
     }
 }
diff --git a/shacl/src/validator/constraints/core/property_pair/equals.rs b/shacl/src/validator/constraints/core/property_pair/equals.rs
index f60ad68..a7e86c4 100644
--- a/shacl/src/validator/constraints/core/property_pair/equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/equals.rs
@@ -8,10 +8,8 @@ use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
 #[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
-use rudof_rdf::rdf_core::term::{Object, Triple};
+use rudof_rdf::rdf_core::term::Object;
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::collections::HashSet;
 use std::fmt::Debug;
@@ -32,18 +30,8 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Equals {
         let mut results = Vec::new();
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = match S::term_as_subject(fnode) {
-                Ok(s) => s,
-                Err(_) => continue,
-            };
-
-            let iri: S::IRI = self.iri().clone().into();
-
-            let prop_values = store
-                .triples_with_subject_predicate(&subject, &iri)
-                .map_err(ValidationError::new_graph_error::<S>)?
-                .map(|t| t.obj().clone())
-                .collect::<HashSet<_>>();
+            // A literal has no values for the property
+            let prop_values = store.objects_for_shacl_path(fnode, &SHACLPath::iri(self.iri().clone()))?;
 
             let nodes_set = nodes.iter().collect::<HashSet<_>>();
 
@@ -78,60 +66,28 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Equals {
 
 #[cfg(feature = "sparql")]
 impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Equals {
+    // Whether two terms are the same cannot be decided by a query: a blank node of the data
+    // cannot be named in it and the lexical forms of literals are not preserved by the store.
     fn validate_sparql(
         &self,
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let component_obj = Object::iri(component.into());
-        let mut results = Vec::new();
-
-        for (fnode, nodes) in value_nodes.iter() {
-            let query = formatdoc! {"
-                SELECT ?o WHERE {{ {} <{}> ?o }}
-            ", fnode, self.iri()};
-
-            let solutions = store
-                .query_select(&query)
-                .map_err(ValidationError::select_query_error::<S>)?;
-
-            let prop_values: HashSet<S::Term> = solutions
-                .iter()
-                .filter_map(|sol| sol.find_solution("o").cloned())
-                .collect();
-
-            let nodes_set = nodes.iter().collect::<HashSet<_>>();
-            let fnode_obj = S::term_as_object(fnode)?;
-
-            for pv in &prop_values {
-                if !nodes_set.contains(pv) {
-                    let value = S::term_as_object(pv).ok();
-                    let vr = ValidationResult::new(fnode_obj.clone(), component_obj.clone(), shape.severity().clone())
-                        .with_source(Some(shape.id().clone()))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value);
-                    results.push(vr);
-                }
-            }
-
-            for vn in nodes.iter() {
-                if !prop_values.contains(vn) {
-                    let value = S::term_as_object(vn).ok();
-                    let vr = ValidationResult::new(fnode_obj.clone(), component_obj.clone(), shape.severity().clone())
-                        .with_source(Some(shape.id().clone()))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value);
-                    results.push(vr);
-                }
-            }
-        }
-
-        Ok(results)
+        self.validate_native(
+            component,
+            shape,
+            store,
+            engine,
+            value_nodes,
+            source_shape,
+            maybe_path,
+            shapes_graph,
+        )
     }
 }
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index 27f7a15..70d9cf1 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -1,3 +1,4 @@
+use super::compare;
 use crate::error::ValidationError;
 use crate::ir::components::LessThan;
 use crate::ir::{IRComponent, IRSchema, IRShape};
@@ -9,8 +10,6 @@ use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
 #[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
 use rudof_rdf::rdf_core::term::{Object, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
@@ -32,7 +31,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
         let component = Object::Iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // A literal has no values for the property
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
@@ -43,7 +45,7 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
                         let node1 = S::term_as_object(triple.obj())?;
                         for value in nodes.iter() {
                             let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
+                            let msg = match compare(&node2, &node1) {
                                 None => Some(format!(
                                     "LessThan constraint violated: {node1} is not comparable to {node2}"
                                 )),
@@ -89,55 +91,28 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
 
 #[cfg(feature = "sparql")]
 impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for LessThan {
+    // The comparison is about two literals, whose values are those of the native engine: an engine
+    // of queries may compare values of datatypes that are not valid for them or with language tags.
     fn validate_sparql(
         &self,
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let component_obj = Object::iri(component.into());
-        let mut results = Vec::new();
-
-        for (fnode, nodes) in value_nodes.iter() {
-            let fnode_obj = S::term_as_object(fnode)?;
-
-            // emit one violation per (value_node, comparator) pair where
-            // value_node is not strictly less than the comparator. COALESCE(?, false)
-            // treats incomparable terms (e.g. cross-datatype) as violations.
-            for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    SELECT ?other WHERE {{
-                        {} <{}> ?other .
-                        BIND (COALESCE({} < ?other, false) AS ?lt)
-                        FILTER (!?lt)
-                    }}
-                ", fnode, self.iri(), vn};
-
-                let solutions = store
-                    .query_select(&query)
-                    .map_err(ValidationError::select_query_error::<S>)?;
-
-                let value = S::term_as_object(vn).ok();
-                for _ in solutions.iter() {
-                    let msg = format!(
-                        "LessThan constraint violated for property {}: value is not strictly less than every comparator",
-                        self.iri()
-                    );
-                    let vr = ValidationResult::new(fnode_obj.clone(), component_obj.clone(), shape.severity().clone())
-                        .with_source(Some(shape.id().clone()))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value.clone())
-                        .with_message(MessageMap::from(msg));
-                    results.push(vr);
-                }
-            }
-        }
-
-        Ok(results)
+        self.validate_native(
+            component,
+            shape,
+            store,
+            engine,
+            value_nodes,
+            source_shape,
+            maybe_path,
+            shapes_graph,
+        )
     }
 }
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index 91c9393..b741c1c 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -1,3 +1,4 @@
+use super::compare;
 use crate::error::ValidationError;
 use crate::ir::components::LessThanOrEquals;
 use crate::ir::{IRComponent, IRSchema, IRShape};
@@ -9,8 +10,6 @@ use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
 #[cfg(feature = "sparql")]
-use indoc::formatdoc;
-#[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
 use rudof_rdf::rdf_core::term::{Object, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
@@ -32,7 +31,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
         let component = Object::iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // A literal has no values for the property
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
@@ -43,7 +45,7 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
                         let node1 = S::term_as_object(triple.obj())?;
                         for value in nodes.iter() {
                             let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
+                            let msg = match compare(&node2, &node1) {
                                 None => Some(format!(
                                     "LessThanOrEquals constraint violated: {node1} is not comparable to {node2}"
                                 )),
@@ -89,52 +91,28 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
 
 #[cfg(feature = "sparql")]
 impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for LessThanOrEquals {
+    // The comparison is about two literals, whose values are those of the native engine: an engine
+    // of queries may compare values of datatypes that are not valid for them or with language tags.
     fn validate_sparql(
         &self,
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let component_obj = Object::iri(component.into());
-        let mut results = Vec::new();
-
-        for (fnode, nodes) in value_nodes.iter() {
-            let fnode_obj = S::term_as_object(fnode)?;
-
-            for vn in nodes.iter() {
-                let query = formatdoc! {"
-                    SELECT ?other WHERE {{
-                        {} <{}> ?other .
-                        BIND (COALESCE({} <= ?other, false) AS ?lte)
-                        FILTER (!?lte)
-                    }}
-                ", fnode, self.iri(), vn};
-
-                let solutions = store
-                    .query_select(&query)
-                    .map_err(ValidationError::select_query_error::<S>)?;
-
-                let value = S::term_as_object(vn).ok();
-                for _ in solutions.iter() {
-                    let msg = format!(
-                        "LessThanOrEquals constraint violated for property {}: value is not less than or equal to every comparator",
-                        self.iri()
-                    );
-                    let vr = ValidationResult::new(fnode_obj.clone(), component_obj.clone(), shape.severity().clone())
-                        .with_source(Some(shape.id().clone()))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value.clone())
-                        .with_message(MessageMap::from(msg));
-                    results.push(vr);
-                }
-            }
-        }
-
-        Ok(results)
+        self.validate_native(
+            component,
+            shape,
+            store,
+            engine,
+            value_nodes,
+            source_shape,
+            maybe_path,
+            shapes_graph,
+        )
     }
 }
diff --git a/shacl/src/validator/constraints/core/property_pair/mod.rs b/shacl/src/validator/constraints/core/property_pair/mod.rs
index a792644..0209463 100644
--- a/shacl/src/validator/constraints/core/property_pair/mod.rs
+++ b/shacl/src/validator/constraints/core/property_pair/mod.rs
@@ -2,3 +2,17 @@ mod disjoint;
 mod equals;
 mod less_than;
 mod less_than_or_equals;
+
+use rudof_rdf::rdf_core::term::Object;
+use std::cmp::Ordering;
+
+/// Compares two values with the order of SPARQL's operators, which is only defined for literals
+/// without language tag
+fn compare(value: &Object, other: &Object) -> Option<Ordering> {
+    match (value, other) {
+        (Object::Literal(value), Object::Literal(other)) if value.lang().is_none() && other.lang().is_none() => {
+            value.partial_cmp(other)
+        },
+        _ => None,
+    }
+}
-- 
2.43.0


From c5fae0f21507791102197690a979d0d589ba6470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 035/110] fix: the SPARQL engine compared values out of the
 range of their datatypes

---
 .../core/value_range/max_exclusive.rs         | 36 ++++++-------------
 .../core/value_range/max_inclusive.rs         | 36 ++++++-------------
 .../core/value_range/min_exclusive.rs         | 36 ++++++-------------
 .../core/value_range/min_inclusive.rs         | 36 ++++++-------------
 4 files changed, 40 insertions(+), 104 deletions(-)

diff --git a/shacl/src/validator/constraints/core/value_range/max_exclusive.rs b/shacl/src/validator/constraints/core/value_range/max_exclusive.rs
index bbf0f06..73f80b6 100644
--- a/shacl/src/validator/constraints/core/value_range/max_exclusive.rs
+++ b/shacl/src/validator/constraints/core/value_range/max_exclusive.rs
@@ -10,13 +10,9 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, object_as_sparql, term_as_sparql, validate_ask_with_opt};
-#[cfg(feature = "sparql")]
-use indoc::formatdoc;
+use crate::validator::constraints::BasicSparqlValidator;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
-#[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::term::{Object, Term};
 
 impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxExclusive {
     fn validate_native(
@@ -47,40 +43,28 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxExclusive {
 
 #[cfg(feature = "sparql")]
 impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for MaxExclusive {
+    // The comparison is about two literals, whose values are those of the native engine: an engine
+    // of queries may compare values of datatypes that are not valid for them or with language tags.
     fn validate_sparql(
         &self,
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let threshold = match object_as_sparql(&Object::literal(self.max_exclusive().clone())) {
-            Some(s) => s,
-            None => return Ok(Vec::new()),
-        };
-
-        let query_fn = |vn: &S::Term| -> Option<String> {
-            if !vn.is_literal() {
-                return Some("ASK { FILTER(false) }".to_string());
-            }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
-            Some(formatdoc! {"
-                ASK {{ FILTER(COALESCE({vn_sparql} < {threshold}, false)) }}
-            "})
-        };
-
-        validate_ask_with_opt(
+        self.validate_native(
             component,
             shape,
             store,
+            engine,
             value_nodes,
-            query_fn,
-            &format!("MaxExclusive({}) not satisfied", self.max_exclusive()),
+            source_shape,
             maybe_path,
+            shapes_graph,
         )
     }
 }
diff --git a/shacl/src/validator/constraints/core/value_range/max_inclusive.rs b/shacl/src/validator/constraints/core/value_range/max_inclusive.rs
index 64ededb..110caad 100644
--- a/shacl/src/validator/constraints/core/value_range/max_inclusive.rs
+++ b/shacl/src/validator/constraints/core/value_range/max_inclusive.rs
@@ -10,13 +10,9 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, object_as_sparql, term_as_sparql, validate_ask_with_opt};
-#[cfg(feature = "sparql")]
-use indoc::formatdoc;
+use crate::validator::constraints::BasicSparqlValidator;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
-#[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::term::{Object, Term};
 
 impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxInclusive {
     fn validate_native(
@@ -47,40 +43,28 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxInclusive {
 
 #[cfg(feature = "sparql")]
 impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for MaxInclusive {
+    // The comparison is about two literals, whose values are those of the native engine: an engine
+    // of queries may compare values of datatypes that are not valid for them or with language tags.
     fn validate_sparql(
         &self,
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let threshold = match object_as_sparql(&Object::literal(self.max_inclusive().clone())) {
-            Some(s) => s,
-            None => return Ok(Vec::new()),
-        };
-
-        let query_fn = |vn: &S::Term| -> Option<String> {
-            if !vn.is_literal() {
-                return Some("ASK { FILTER(false) }".to_string());
-            }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
-            Some(formatdoc! {"
-                ASK {{ FILTER(COALESCE({vn_sparql} <= {threshold}, false)) }}
-            "})
-        };
-
-        validate_ask_with_opt(
+        self.validate_native(
             component,
             shape,
             store,
+            engine,
             value_nodes,
-            query_fn,
-            &format!("MaxInclusive({}) not satisfied", self.max_inclusive()),
+            source_shape,
             maybe_path,
+            shapes_graph,
         )
     }
 }
diff --git a/shacl/src/validator/constraints/core/value_range/min_exclusive.rs b/shacl/src/validator/constraints/core/value_range/min_exclusive.rs
index 0a3d6a9..66f0bf1 100644
--- a/shacl/src/validator/constraints/core/value_range/min_exclusive.rs
+++ b/shacl/src/validator/constraints/core/value_range/min_exclusive.rs
@@ -10,13 +10,9 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, object_as_sparql, term_as_sparql, validate_ask_with_opt};
-#[cfg(feature = "sparql")]
-use indoc::formatdoc;
+use crate::validator::constraints::BasicSparqlValidator;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
-#[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::term::{Object, Term};
 
 impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinExclusive {
     fn validate_native(
@@ -47,40 +43,28 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinExclusive {
 
 #[cfg(feature = "sparql")]
 impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for MinExclusive {
+    // The comparison is about two literals, whose values are those of the native engine: an engine
+    // of queries may compare values of datatypes that are not valid for them or with language tags.
     fn validate_sparql(
         &self,
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let threshold = match object_as_sparql(&Object::literal(self.min_exclusive().clone())) {
-            Some(s) => s,
-            None => return Ok(Vec::new()),
-        };
-
-        let query_fn = |vn: &S::Term| -> Option<String> {
-            if !vn.is_literal() {
-                return Some("ASK { FILTER(false) }".to_string());
-            }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
-            Some(formatdoc! {"
-                ASK {{ FILTER(COALESCE({threshold} < {vn_sparql}, false)) }}
-            "})
-        };
-
-        validate_ask_with_opt(
+        self.validate_native(
             component,
             shape,
             store,
+            engine,
             value_nodes,
-            query_fn,
-            &format!("MinExclusive({}) not satisfied", self.min_exclusive()),
+            source_shape,
             maybe_path,
+            shapes_graph,
         )
     }
 }
diff --git a/shacl/src/validator/constraints/core/value_range/min_inclusive.rs b/shacl/src/validator/constraints/core/value_range/min_inclusive.rs
index 3f9b4fd..f3ea589 100644
--- a/shacl/src/validator/constraints/core/value_range/min_inclusive.rs
+++ b/shacl/src/validator/constraints/core/value_range/min_inclusive.rs
@@ -10,13 +10,9 @@ use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::{BasicSparqlValidator, object_as_sparql, term_as_sparql, validate_ask_with_opt};
-#[cfg(feature = "sparql")]
-use indoc::formatdoc;
+use crate::validator::constraints::BasicSparqlValidator;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
-#[cfg(feature = "sparql")]
-use rudof_rdf::rdf_core::term::{Object, Term};
 
 impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinInclusive {
     fn validate_native(
@@ -47,40 +43,28 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinInclusive {
 
 #[cfg(feature = "sparql")]
 impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for MinInclusive {
+    // The comparison is about two literals, whose values are those of the native engine: an engine
+    // of queries may compare values of datatypes that are not valid for them or with language tags.
     fn validate_sparql(
         &self,
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
-        let threshold = match object_as_sparql(&Object::literal(self.min_inclusive().clone())) {
-            Some(s) => s,
-            None => return Ok(Vec::new()),
-        };
-
-        let query_fn = |vn: &S::Term| -> Option<String> {
-            if !vn.is_literal() {
-                return Some("ASK { FILTER(false) }".to_string());
-            }
-            let vn_sparql = term_as_sparql::<S>(vn)?;
-            Some(formatdoc! {"
-                ASK {{ FILTER(COALESCE({threshold} <= {vn_sparql}, false)) }}
-            "})
-        };
-
-        validate_ask_with_opt(
+        self.validate_native(
             component,
             shape,
             store,
+            engine,
             value_nodes,
-            query_fn,
-            &format!("MinInclusive({}) not satisfied", self.min_inclusive()),
+            source_shape,
             maybe_path,
+            shapes_graph,
         )
     }
 }
-- 
2.43.0


From 29b05a530ebf3c4265185643e377a1bea4f40669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 036/110] fix: strings of different languages were ordered by
 their lexical forms only

---
 rudof_rdf/src/rdf_core/term/literal/literal.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index d190f0c..b49abad 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -946,10 +946,17 @@ impl PartialOrd for ConcreteLiteral {
         match (self, other) {
             // Chronological comparison for datetime literals
             (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1.partial_cmp(dt2),
-            // Lexicographic comparison for plain string literals
-            (Self::StringLiteral { lexical_form: lf1, .. }, Self::StringLiteral { lexical_form: lf2, .. }) => {
-                Some(lf1.cmp(lf2))
-            },
+            // Lexicographic comparison for plain string literals of the same language
+            (
+                Self::StringLiteral {
+                    lexical_form: lf1,
+                    lang: lang1,
+                },
+                Self::StringLiteral {
+                    lexical_form: lf2,
+                    lang: lang2,
+                },
+            ) => (lang1 == lang2).then(|| lf1.cmp(lf2)),
             // Datatype literals: try numeric comparison for numeric types (cross-type allowed),
             // fall back to lexical for same-datatype non-numeric, incomparable otherwise
             (
-- 
2.43.0


From 63c384baa1266dc8e6ce364a638ffb6d8d8d397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 037/110] fix: objects found by sh:targetObjectsOf lost their
 lexical forms in the SPARQL engine

---
 shacl/src/validator/engine/sparql.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/shacl/src/validator/engine/sparql.rs b/shacl/src/validator/engine/sparql.rs
index 4719fc7..8fac411 100644
--- a/shacl/src/validator/engine/sparql.rs
+++ b/shacl/src/validator/engine/sparql.rs
@@ -8,7 +8,7 @@ use crate::validator::report::ValidationResult;
 use indoc::formatdoc;
 use rudof_iri::IriS;
 use rudof_rdf::rdf_core::query::QueryRDF;
-use rudof_rdf::rdf_core::term::{Object, Term};
+use rudof_rdf::rdf_core::term::{Object, Term, Triple};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
 use std::fmt::Debug;
 
@@ -94,16 +94,15 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> Engine<S> for SparqlEngine {
         Ok(FocusNodes::new(results))
     }
 
+    // As in `target_node`, the terms are not obtained with a query because the lexical forms of
+    // literals would not be preserved.
     fn target_object_of(&self, store: &S, predicate: &IriS) -> Result<FocusNodes<S>, ValidationError> {
-        let query = formatdoc! {"
-            SELECT DISTINCT ?this
-            WHERE {{
-                ?any <{}> ?this.
-            }}
-        ", predicate};
-
-        let results = select(store, &query, "this")?;
-        Ok(FocusNodes::new(results))
+        let pred: S::IRI = predicate.clone().into();
+        let objects = store
+            .triples_with_predicate(&pred)
+            .map_err(ValidationError::new_graph_error::<S>)?
+            .map(Triple::into_object);
+        Ok(FocusNodes::from_iter(objects))
     }
 
     fn implicit_target_class(&self, store: &S, shape: &Object) -> Result<FocusNodes<S>, ValidationError> {
-- 
2.43.0


From d0c4a1f14eca62be7ba65f5fcf66a44fd586e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 038/110] fix: discard the SPARQL store of an in-memory graph
 when the graph changes

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 30 ++++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 8bd6edd..f8460ef 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -107,6 +107,18 @@ impl OxigraphInMemory {
         self.graph.is_empty()
     }
 
+    /// Returns the underlying graph for modification.
+    ///
+    /// The SPARQL store is a snapshot of the graph, so it is discarded here and
+    /// built again by [`ensure_store`](Self::ensure_store) when it is next needed.
+    fn graph_mut(&mut self) -> &mut Graph {
+        #[cfg(feature = "sparql")]
+        {
+            self.store = None;
+        }
+        Arc::make_mut(&mut self.graph)
+    }
+
     pub fn set_default_base_prefixes(&mut self, default_base: Option<IriS>) {
         self.base = default_base;
     }
@@ -190,7 +202,7 @@ impl OxigraphInMemory {
         };
 
         let mut turtle_reader = turtle_parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in turtle_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| {
@@ -245,7 +257,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NTriplesParser::new();
         let mut nt_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nt_reader.by_ref() {
             let triple =
@@ -279,7 +291,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = RdfXmlParser::new();
         let mut xml_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in xml_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::RDFXMLError {
@@ -313,7 +325,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NQuadsParser::new();
         let mut nq_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nq_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::NQuadsError {
@@ -346,7 +358,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = JsonLdParser::new();
         let mut jsonld_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in jsonld_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::JsonLDError {
@@ -482,7 +494,7 @@ impl OxigraphInMemory {
         O: Into<TermRef<'a>>,
     {
         let triple = TripleRef::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(triple);
+        self.graph_mut().insert(triple);
         Ok(())
     }
 }
@@ -993,7 +1005,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
@@ -1011,7 +1023,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).remove(&triple);
+        self.graph_mut().remove(&triple);
         Ok(())
     }
 
@@ -1029,7 +1041,7 @@ impl BuildRDF for OxigraphInMemory {
         T: Into<Self::Term>,
     {
         let triple = OxTriple::new(node.into(), rdf_type(), type_.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
-- 
2.43.0


From 224d6b41b8a117a81b993e8fc4bd21a1bc3e8ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 039/110] fix: a document that cannot be read leaves an
 in-memory graph as it was

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index f8460ef..81e6c4f 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -147,15 +147,18 @@ impl OxigraphInMemory {
         base: Option<&str>,
         reader_mode: &ReaderMode,
     ) -> Result<(), OxigraphInMemoryError> {
+        // The document is read into a graph of its own so that a document that
+        // cannot be read does not leave some of its triples behind.
+        let mut parsed = Self::new();
         match format {
             RDFFormat::Turtle => {
-                self.parse_turtle(reader, source_name, base, reader_mode)?;
+                parsed.parse_turtle(reader, source_name, base, reader_mode)?;
             },
             RDFFormat::NTriples => {
-                self.parse_ntriples(reader, reader_mode)?;
+                parsed.parse_ntriples(reader, reader_mode)?;
             },
             RDFFormat::Rdfxml => {
-                self.parse_rdfxml(reader, reader_mode)?;
+                parsed.parse_rdfxml(reader, reader_mode)?;
             },
             RDFFormat::TriG => {
                 todo!();
@@ -164,12 +167,18 @@ impl OxigraphInMemory {
                 todo!();
             },
             RDFFormat::NQuads => {
-                self.parse_nquads(reader, reader_mode)?;
+                parsed.parse_nquads(reader, reader_mode)?;
             },
             RDFFormat::JsonLd => {
-                self.parse_jsonld(reader, reader_mode)?;
+                parsed.parse_jsonld(reader, reader_mode)?;
             },
         }
+        if self.graph.is_empty() {
+            *self.graph_mut() = Arc::unwrap_or_clone(parsed.graph);
+        } else {
+            self.graph_mut().extend(parsed.graph.iter());
+        }
+        self.merge_prefixes(parsed.pm);
         if let Some(base) = base {
             let default_base = Some(IriS::new_unchecked(base));
             self.set_default_base_prefixes(default_base);
-- 
2.43.0


From 47be92f89cb08b9def7c9c5994a19803020862ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 040/110] fix: load TriG and N3 data instead of panicking

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs  | 124 +++++++++++++++++-
 .../src/rdf_impl/oxigraph/in_memory_error.rs  |  16 +++
 2 files changed, 137 insertions(+), 3 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 81e6c4f..fd04ac9 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -13,7 +13,10 @@ use oxrdf::{
 };
 use oxrdfio::{JsonLdProfileSet, RdfFormat, RdfSerializer};
 use oxrdfxml::RdfXmlParser;
-use oxttl::{NQuadsParser, NTriplesParser, TurtleParser};
+use oxttl::{
+    N3Parser, NQuadsParser, NTriplesParser, TriGParser, TurtleParser,
+    n3::{N3Quad, N3Term},
+};
 use prefixmap::{PrefixMapError, prefix_map::*};
 use rudof_iri::IriS;
 use serde::{Serialize, ser::SerializeStruct};
@@ -161,10 +164,10 @@ impl OxigraphInMemory {
                 parsed.parse_rdfxml(reader, reader_mode)?;
             },
             RDFFormat::TriG => {
-                todo!();
+                parsed.parse_trig(reader, source_name, base, reader_mode)?;
             },
             RDFFormat::N3 => {
-                todo!();
+                parsed.parse_n3(reader, source_name, base, reader_mode)?;
             },
             RDFFormat::NQuads => {
                 parsed.parse_nquads(reader, reader_mode)?;
@@ -283,6 +286,95 @@ impl OxigraphInMemory {
         Ok(())
     }
 
+    /// Parses TriG data and merges it into the graph.
+    ///
+    /// As with N-Quads, the triples of the named graphs are added to the only
+    /// graph there is.
+    ///
+    /// # Parameters
+    ///
+    /// * `reader` - Input stream containing TriG data
+    /// * `source_name` - Name used for error reporting
+    /// * `base` - Optional base IRI for resolving relative IRIs
+    /// * `reader_mode` - Controls error handling (strict or lax)
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if parsing fails in strict mode.
+    fn parse_trig<R: io::Read>(
+        &mut self,
+        reader: &mut R,
+        source_name: &str,
+        base: Option<&str>,
+        reader_mode: &ReaderMode,
+    ) -> Result<(), OxigraphInMemoryError> {
+        let parser = match base {
+            None => TriGParser::new(),
+            Some(iri) => TriGParser::new().with_base_iri(iri)?,
+        };
+        let mut trig_reader = parser.for_reader(reader);
+        let graph = self.graph_mut();
+
+        for quad_result in trig_reader.by_ref() {
+            let quad = handle_parse_error(quad_result, reader_mode, |e| OxigraphInMemoryError::TriGParseError {
+                source_name: source_name.to_string(),
+                error: e,
+            })?;
+            if let Some(quad) = quad {
+                graph.insert(quad.as_ref());
+            }
+        }
+
+        let prefixes: HashMap<&str, &str> = trig_reader.prefixes().collect();
+        self.merge_prefixes(prefixes.try_into()?);
+        Ok(())
+    }
+
+    /// Parses N3 data and merges it into the graph.
+    ///
+    /// Only the statements that are RDF triples can be loaded: formulas and
+    /// variables are reported as errors.
+    ///
+    /// # Parameters
+    ///
+    /// * `reader` - Input stream containing N3 data
+    /// * `source_name` - Name used for error reporting
+    /// * `base` - Optional base IRI for resolving relative IRIs
+    /// * `reader_mode` - Controls error handling (strict or lax)
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if parsing fails in strict mode.
+    fn parse_n3<R: io::Read>(
+        &mut self,
+        reader: &mut R,
+        source_name: &str,
+        base: Option<&str>,
+        reader_mode: &ReaderMode,
+    ) -> Result<(), OxigraphInMemoryError> {
+        let parser = match base {
+            None => N3Parser::new(),
+            Some(iri) => N3Parser::new().with_base_iri(iri)?,
+        };
+        let mut n3_reader = parser.for_reader(reader);
+        let graph = self.graph_mut();
+
+        for quad_result in n3_reader.by_ref() {
+            let triple_result = quad_result.map_err(|e| e.to_string()).and_then(cnv_n3_quad);
+            let triple = handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::N3ParseError {
+                source_name: source_name.to_string(),
+                error: e,
+            })?;
+            if let Some(triple) = triple {
+                graph.insert(&triple);
+            }
+        }
+
+        let prefixes: HashMap<&str, &str> = n3_reader.prefixes().collect();
+        self.merge_prefixes(prefixes.try_into()?);
+        Ok(())
+    }
+
     /// Parses RDF/XML data and merges it into the graph.
     ///
     /// # Parameters
@@ -1238,6 +1330,32 @@ impl Display for ReaderMode {
     }
 }
 
+/// Converts an N3 statement to an RDF triple.
+///
+/// # Errors
+///
+/// Returns an error if the statement is part of a formula or is not an RDF triple.
+fn cnv_n3_quad(quad: N3Quad) -> Result<OxTriple, String> {
+    if quad.graph_name != GraphName::DefaultGraph {
+        return Err(format!("Formulas are not supported: {quad}"));
+    }
+    let subject: OxSubject = match quad.subject {
+        N3Term::NamedNode(node) => node.into(),
+        N3Term::BlankNode(node) => node.into(),
+        term => return Err(format!("The subject of an RDF triple cannot be {term}")),
+    };
+    let N3Term::NamedNode(predicate) = quad.predicate else {
+        return Err(format!("The predicate of an RDF triple cannot be {}", quad.predicate));
+    };
+    let object: OxTerm = match quad.object {
+        N3Term::NamedNode(node) => node.into(),
+        N3Term::BlankNode(node) => node.into(),
+        N3Term::Literal(literal) => literal.into(),
+        term => return Err(format!("The object of an RDF triple cannot be {term}")),
+    };
+    Ok(OxTriple::new(subject, predicate, object))
+}
+
 /// Converts an owned triple to a triple reference.
 ///
 /// # Parameters
diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs
index 2d7b590..88547fa 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory_error.rs
@@ -47,6 +47,22 @@ pub enum OxigraphInMemoryError {
     #[error("Error parsing Turtle data from {source_name}: {error}")]
     TurtleParseError { source_name: String, error: String },
 
+    /// Error parsing TriG RDF data.
+    ///
+    /// # Fields
+    /// - `source_name`: The name or path of the data source
+    /// - `error`: Detailed description of the parsing failure
+    #[error("Error parsing TriG data from {source_name}: {error}")]
+    TriGParseError { source_name: String, error: String },
+
+    /// Error parsing N3 RDF data.
+    ///
+    /// # Fields
+    /// - `source_name`: The name or path of the data source
+    /// - `error`: Detailed description of the parsing failure
+    #[error("Error parsing N3 data from {source_name}: {error}")]
+    N3ParseError { source_name: String, error: String },
+
     /// Error parsing a base IRI.
     ///
     /// # Fields
-- 
2.43.0


From a66986bfee1d7261d361ec93cb961ee122e5e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 041/110] fix: resolve the relative IRIs of RDF/XML and JSON-LD
 data against the base given

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index fd04ac9..c24df6f 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -161,7 +161,7 @@ impl OxigraphInMemory {
                 parsed.parse_ntriples(reader, reader_mode)?;
             },
             RDFFormat::Rdfxml => {
-                parsed.parse_rdfxml(reader, reader_mode)?;
+                parsed.parse_rdfxml(reader, base, reader_mode)?;
             },
             RDFFormat::TriG => {
                 parsed.parse_trig(reader, source_name, base, reader_mode)?;
@@ -173,7 +173,7 @@ impl OxigraphInMemory {
                 parsed.parse_nquads(reader, reader_mode)?;
             },
             RDFFormat::JsonLd => {
-                parsed.parse_jsonld(reader, reader_mode)?;
+                parsed.parse_jsonld(reader, base, reader_mode)?;
             },
         }
         if self.graph.is_empty() {
@@ -380,6 +380,7 @@ impl OxigraphInMemory {
     /// # Parameters
     ///
     /// * `reader` - Input stream containing RDF/XML data
+    /// * `base` - Optional base IRI for resolving relative IRIs
     /// * `reader_mode` - Controls error handling (strict or lax)
     ///
     /// # Errors
@@ -388,9 +389,13 @@ impl OxigraphInMemory {
     fn parse_rdfxml<R: io::Read>(
         &mut self,
         reader: &mut R,
+        base: Option<&str>,
         reader_mode: &ReaderMode,
     ) -> Result<(), OxigraphInMemoryError> {
-        let parser = RdfXmlParser::new();
+        let parser = match base {
+            None => RdfXmlParser::new(),
+            Some(iri) => RdfXmlParser::new().with_base_iri(iri)?,
+        };
         let mut xml_reader = parser.for_reader(reader);
         let graph = self.graph_mut();
 
@@ -447,6 +452,7 @@ impl OxigraphInMemory {
     /// # Parameters
     ///
     /// * `reader` - Input stream containing JSON-LD data
+    /// * `base` - Optional base IRI for resolving relative IRIs
     /// * `reader_mode` - Controls error handling (strict or lax)
     ///
     /// # Errors
@@ -455,9 +461,13 @@ impl OxigraphInMemory {
     fn parse_jsonld<R: io::Read>(
         &mut self,
         reader: &mut R,
+        base: Option<&str>,
         reader_mode: &ReaderMode,
     ) -> Result<(), OxigraphInMemoryError> {
-        let parser = JsonLdParser::new();
+        let parser = match base {
+            None => JsonLdParser::new(),
+            Some(iri) => JsonLdParser::new().with_base_iri(iri)?,
+        };
         let mut jsonld_reader = parser.for_reader(reader);
         let graph = self.graph_mut();
 
-- 
2.43.0


From 77840241928413413917449b036e611401f35be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 042/110] fix: a generated blank node is not one of the graph
 it is generated for

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index c24df6f..be26aeb 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -1089,17 +1089,25 @@ impl BuildRDF for OxigraphInMemory {
 
     /// Generates a new unique blank node.
     ///
-    /// Each call to this method increments an internal counter to ensure uniqueness.
+    /// Each call to this method increments an internal counter to ensure uniqueness,
+    /// skipping the labels of the blank nodes which are already in the graph.
     ///
     /// # Errors
     ///
     /// Returns an error if the blank node counter overflows (extremely unlikely).
     fn add_bnode(&mut self) -> Result<Self::BNode, Self::Err> {
-        self.bnode_counter += 1;
-        let bn = u128::try_from(self.bnode_counter).map_err(|_| OxigraphInMemoryError::BlankNodeId {
-            msg: format!("Blank node counter overflow: {}", self.bnode_counter),
-        })?;
-        Ok(OxBlankNode::new_from_unique_id(bn))
+        loop {
+            self.bnode_counter += 1;
+            let bn = u128::try_from(self.bnode_counter).map_err(|_| OxigraphInMemoryError::BlankNodeId {
+                msg: format!("Blank node counter overflow: {}", self.bnode_counter),
+            })?;
+            let bnode = OxBlankNode::new_from_unique_id(bn);
+            let in_use = self.graph.triples_for_subject(&bnode).next().is_some()
+                || self.graph.triples_for_object(&bnode).next().is_some();
+            if !in_use {
+                return Ok(bnode);
+            }
+        }
     }
 
     /// Adds a triple to the graph.
-- 
2.43.0


From 6dcf9d7e4111a299196167b8ed3078ab04910bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 043/110] fix: resetting a session also forgets its prefixes

---
 rudof_lib/src/api/core/implementations/reset_all.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rudof_lib/src/api/core/implementations/reset_all.rs b/rudof_lib/src/api/core/implementations/reset_all.rs
index b8dbf3e..6f5a295 100644
--- a/rudof_lib/src/api/core/implementations/reset_all.rs
+++ b/rudof_lib/src/api/core/implementations/reset_all.rs
@@ -18,4 +18,5 @@ pub fn reset_all(rudof: &mut Rudof) {
     rudof.service_description = None;
     rudof.rdf_config = None;
     rudof.map_state = None;
+    rudof.prefixes = None;
 }
-- 
2.43.0


From a5a5d0b6f7860ece585702f44ecc0a8bdb2d7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 044/110] fix: resetting the property graph validation clears
 its type map, not the shape map

---
 .../api/pgschema/implementations/reset_pgschema_validation.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs b/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs
index 41dc38d..759efea 100644
--- a/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs
+++ b/rudof_lib/src/api/pgschema/implementations/reset_pgschema_validation.rs
@@ -2,6 +2,6 @@ use crate::Rudof;
 
 pub fn reset_pgschema_validation(rudof: &mut Rudof) {
     rudof.pg_schema = None;
-    rudof.shapemap = None;
+    rudof.typemap = None;
     rudof.pg_schema_validation_results = None;
 }
-- 
2.43.0


From 8bce54c923cf040aa0b3ca9c4abeb6822990f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 045/110] fix: resetting ShEx validation also forgets the map
 state of its schema

---
 rudof_lib/src/api/shex/implementations/reset_shex.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rudof_lib/src/api/shex/implementations/reset_shex.rs b/rudof_lib/src/api/shex/implementations/reset_shex.rs
index bd93357..d3238e3 100644
--- a/rudof_lib/src/api/shex/implementations/reset_shex.rs
+++ b/rudof_lib/src/api/shex/implementations/reset_shex.rs
@@ -6,4 +6,5 @@ pub fn reset_shex(rudof: &mut Rudof) {
     rudof.shapemap = None;
     rudof.shex_validation_results = None;
     rudof.shex_validator = None;
+    rudof.map_state = None;
 }
-- 
2.43.0


From 89451353da07f75322d8006c418659284ebc242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 046/110] fix: an association that cannot be added leaves the
 shape map as it was

---
 .../api/shex/implementations/add_node_shape_to_shapemap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rudof_lib/src/api/shex/implementations/add_node_shape_to_shapemap.rs b/rudof_lib/src/api/shex/implementations/add_node_shape_to_shapemap.rs
index cd843b8..509f1ef 100644
--- a/rudof_lib/src/api/shex/implementations/add_node_shape_to_shapemap.rs
+++ b/rudof_lib/src/api/shex/implementations/add_node_shape_to_shapemap.rs
@@ -46,12 +46,12 @@ pub fn add_node_shape_to_shapemap(
         .and_then(|data| data.unwrap_rdf_mut().prefixmap());
     let shapes_prefixmap: Option<PrefixMap> = rudof.shex_validator.as_ref().map(|v| v.shapes_prefixmap());
 
-    let shapemap = rudof.shapemap.get_or_insert_with(QueryShapeMap::new);
+    let mut shapemap = rudof.shapemap.clone().unwrap_or_else(QueryShapeMap::new);
     if let Some(pm) = &nodes_prefixmap {
-        *shapemap = shapemap.clone().with_nodes_prefixmap(pm);
+        shapemap = shapemap.with_nodes_prefixmap(pm);
     }
     if let Some(pm) = &shapes_prefixmap {
-        *shapemap = shapemap.clone().with_shapes_prefixmap(pm);
+        shapemap = shapemap.with_shapes_prefixmap(pm);
     }
 
     shapemap
@@ -62,6 +62,7 @@ pub fn add_node_shape_to_shapemap(
             &Some(base_shapes_iri),
         )
         .map_err(|e| ShExError::DataSourceSpec { message: e.to_string() })?;
+    rudof.shapemap = Some(shapemap);
 
     Ok(())
 }
-- 
2.43.0


From b8baf420d39fccd80ad4c2c03dca917796548a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 047/110] fix: loading data that cannot be read completely
 leaves the session's data as it was

---
 .../src/api/data/implementations/load_data.rs | 81 ++++++++++---------
 rudof_lib/src/types/data.rs                   |  4 -
 2 files changed, 44 insertions(+), 41 deletions(-)

diff --git a/rudof_lib/src/api/data/implementations/load_data.rs b/rudof_lib/src/api/data/implementations/load_data.rs
index 3a0c3a4..8cb4268 100644
--- a/rudof_lib/src/api/data/implementations/load_data.rs
+++ b/rudof_lib/src/api/data/implementations/load_data.rs
@@ -6,7 +6,7 @@ use crate::{
     types::Data,
     utils::{PrefixDirective, default_prefix_header, get_base_iri},
 };
-use pgschema::parser::pg_builder::PgBuilder;
+use pgschema::{parser::pg_builder::PgBuilder, pg::PropertyGraph};
 use prefixmap::PrefixMap;
 use regex::Regex;
 use rudof_iri::{IriS, MimeType};
@@ -61,6 +61,17 @@ fn init_defaults(
 }
 
 fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec], merge: bool) -> Result<()> {
+    if data.is_empty() {
+        return Ok(());
+    }
+
+    // The sources are read into a copy of the data which only replaces the
+    // current one when all of them could be read.
+    let mut loaded = match &rudof.data {
+        Some(Data::PGData(pg)) if merge => pg.clone(),
+        _ => Box::new(PropertyGraph::new()),
+    };
+
     for input_spec in data {
         let mut data_reader = input_spec
             .open_read(Some(DataFormat::Pg.mime_type()), "PG data")
@@ -70,9 +81,11 @@ fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec], merge: bool) -
                 })
             })?;
 
-        read_pg_data(rudof, &mut data_reader, input_spec.source_name().as_str(), merge)?;
+        read_pg_data(&mut loaded, &mut data_reader, input_spec.source_name().as_str())?;
     }
 
+    rudof.data = Some(Data::PGData(loaded));
+
     Ok(())
 }
 
@@ -85,6 +98,17 @@ fn load_data_from_specs_rdf(
     merge: bool,
     prefixes: Option<&[InputSpec]>,
 ) -> Result<()> {
+    if data.is_empty() && prefixes.is_none() {
+        return Ok(());
+    }
+
+    // The sources are read into a copy of the data which only replaces the
+    // current one when all of them could be read.
+    let mut loaded = match &rudof.data {
+        Some(Data::RDFData(rdf_data)) if merge => rdf_data.clone(),
+        _ => Box::new(init_rdf_data_with_config(rudof)?),
+    };
+
     for input_spec in data {
         let mut data_reader = input_spec
             .open_read(Some(data_format.mime_type()), "RDF data")
@@ -96,12 +120,12 @@ fn load_data_from_specs_rdf(
 
         read_rdf_data(
             rudof,
+            &mut loaded,
             &mut data_reader,
             input_spec.source_name().as_str(),
             &data_format,
             &base,
             &reader_mode,
-            merge,
         )?;
     }
 
@@ -112,8 +136,11 @@ fn load_data_from_specs_rdf(
             pm.merge(load_user_prefixes(prefix)?)
         }
 
-        rudof.data.as_mut().unwrap().unwrap_rdf_mut().merge_prefixes(pm);
+        loaded.merge_prefixes(pm);
     }
+
+    rudof.data = Some(Data::RDFData(loaded));
+
     Ok(())
 }
 
@@ -176,19 +203,14 @@ fn load_user_prefixes(input_spec: &InputSpec) -> Result<PrefixMap> {
 }
 
 fn read_rdf_data<R: Read>(
-    rudof: &mut Rudof,
+    rudof: &Rudof,
+    rdf_data: &mut RdfData,
     data_reader: &mut R,
     source_name: &str,
     data_format: &DataFormat,
     base: &IriS,
     reader_mode: &DataReaderMode,
-    merge: bool,
 ) -> Result<()> {
-    if !merge || rudof.data.is_none() || matches!(rudof.data, Some(ref data) if data.is_pg()) {
-        let rdf_data = init_rdf_data_with_config(rudof)?;
-        rudof.data = Some(rdf_data);
-    }
-
     // Only Turtle uses `@prefix` declarations that default prefixes can
     // usefully supplement; other formats either have no textual prefix
     // syntax (N-Triples, N-Quads) or aren't implemented (TriG, N3) or
@@ -206,7 +228,7 @@ fn read_rdf_data<R: Read>(
         })?;
         let header = default_prefix_header(rudof, &content, PrefixDirective::Turtle);
         let mut prefixed_reader = io::Cursor::new(format!("{header}{content}").into_bytes());
-        rudof.data.as_mut().unwrap().unwrap_rdf_mut().merge_from_reader(
+        rdf_data.merge_from_reader(
             &mut prefixed_reader,
             source_name,
             &(*data_format).try_into()?,
@@ -214,7 +236,7 @@ fn read_rdf_data<R: Read>(
             &(*reader_mode).into(),
         )
     } else {
-        rudof.data.as_mut().unwrap().unwrap_rdf_mut().merge_from_reader(
+        rdf_data.merge_from_reader(
             data_reader,
             source_name,
             &(*data_format).try_into()?,
@@ -236,11 +258,7 @@ fn read_rdf_data<R: Read>(
     Ok(())
 }
 
-fn read_pg_data<R: io::Read>(rudof: &mut Rudof, data_reader: &mut R, source_name: &str, merge: bool) -> Result<()> {
-    if !merge || rudof.data.is_none() || matches!(rudof.data, Some(ref data) if data.is_rdf()) {
-        rudof.data = Some(Data::empty_pg());
-    }
-
+fn read_pg_data<R: io::Read>(pg_data: &mut PropertyGraph, data_reader: &mut R, source_name: &str) -> Result<()> {
     let mut data_content = String::new();
 
     data_reader.read_to_string(&mut data_content).map_err(|error| {
@@ -259,25 +277,23 @@ fn read_pg_data<R: io::Read>(rudof: &mut Rudof, data_reader: &mut R, source_name
         },
     };
 
-    rudof.data.as_mut().unwrap().unwrap_pg_mut().merge(&pg);
+    pg_data.merge(&pg);
 
     Ok(())
 }
 
 fn load_data_from_endpoint(rudof: &mut Rudof, endpoint_str: &str) -> Result<()> {
-    let rdf_data = init_rdf_data_with_config(rudof)?;
-    rudof.data = Some(rdf_data);
+    let mut rdf_data = init_rdf_data_with_config(rudof)?;
 
-    let enpoint = get_endpoint_name(rudof, endpoint_str)?;
+    let endpoint = get_endpoint_name(&rdf_data, endpoint_str)?;
 
-    use_endpoint(rudof, endpoint_str, enpoint);
+    rdf_data.use_endpoint(endpoint_str, endpoint);
+    rudof.data = Some(Data::RDFData(Box::new(rdf_data)));
 
     Ok(())
 }
 
-fn get_endpoint_name(rudof: &mut Rudof, endpoint_str: &str) -> Result<OxigraphEndpoint> {
-    let rdf_data = rudof.data.as_mut().unwrap().unwrap_rdf_mut();
-
+fn get_endpoint_name(rdf_data: &RdfData, endpoint_str: &str) -> Result<OxigraphEndpoint> {
     match rdf_data.find_endpoint(endpoint_str) {
         Some(endpoint) => Ok(endpoint),
         None => {
@@ -314,16 +330,7 @@ fn get_endpoint_name(rudof: &mut Rudof, endpoint_str: &str) -> Result<OxigraphEn
     }
 }
 
-fn use_endpoint(rudof: &mut Rudof, endpoint_str: &str, endpoint: OxigraphEndpoint) {
-    rudof
-        .data
-        .as_mut()
-        .unwrap()
-        .unwrap_rdf_mut()
-        .use_endpoint(endpoint_str, endpoint);
-}
-
-fn init_rdf_data_with_config(rudof: &Rudof) -> Result<Data> {
+fn init_rdf_data_with_config(rudof: &Rudof) -> Result<RdfData> {
     let rdf_data = RdfData::new()
         .with_rdf_data_config(rudof.config.rdf_data())
         .map_err(|error| {
@@ -332,7 +339,7 @@ fn init_rdf_data_with_config(rudof: &Rudof) -> Result<Data> {
             })
         })?;
 
-    Ok(Data::RDFData(Box::new(rdf_data)))
+    Ok(rdf_data)
 }
 
 /// Load data into the QLever Docker backend instead of the in-memory graph.
diff --git a/rudof_lib/src/types/data.rs b/rudof_lib/src/types/data.rs
index 68144f0..6a7e492 100644
--- a/rudof_lib/src/types/data.rs
+++ b/rudof_lib/src/types/data.rs
@@ -8,10 +8,6 @@ pub enum Data {
 }
 
 impl Data {
-    pub fn empty_pg() -> Self {
-        Data::PGData(Box::new(PropertyGraph::new()))
-    }
-
     pub fn is_rdf(&self) -> bool {
         matches!(self, Data::RDFData(_))
     }
-- 
2.43.0


From 1269d63b863afe869d788db140506f150d6aa779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 048/110] fix: the session's prefixes resolve in every Turtle,
 TriG, N3, ShExC and SPARQL document, wherever it has its own declarations

---
 .../src/api/data/implementations/load_data.rs | 12 +++----
 .../implementations/load_sparql_query.rs      |  2 +-
 .../implementations/load_shacl_schema.rs      |  8 ++---
 .../shex/implementations/load_shex_schema.rs  |  2 +-
 rudof_lib/src/utils/prefix_header.rs          | 36 ++++---------------
 5 files changed, 19 insertions(+), 41 deletions(-)

diff --git a/rudof_lib/src/api/data/implementations/load_data.rs b/rudof_lib/src/api/data/implementations/load_data.rs
index 8cb4268..308e989 100644
--- a/rudof_lib/src/api/data/implementations/load_data.rs
+++ b/rudof_lib/src/api/data/implementations/load_data.rs
@@ -211,11 +211,11 @@ fn read_rdf_data<R: Read>(
     base: &IriS,
     reader_mode: &DataReaderMode,
 ) -> Result<()> {
-    // Only Turtle uses `@prefix` declarations that default prefixes can
-    // usefully supplement; other formats either have no textual prefix
-    // syntax (N-Triples, N-Quads) or aren't implemented (TriG, N3) or
-    // resolve prefixed names some other way entirely (JSON-LD, RDF/XML).
-    let parse_result = if matches!(data_format, DataFormat::Turtle) {
+    // Only Turtle, TriG and N3 use `@prefix` declarations that default prefixes
+    // can usefully supplement; other formats either have no textual prefix
+    // syntax (N-Triples, N-Quads) or resolve prefixed names some other way
+    // entirely (JSON-LD, RDF/XML).
+    let parse_result = if matches!(data_format, DataFormat::Turtle | DataFormat::TriG | DataFormat::N3) {
         let mut content = String::new();
         data_reader.read_to_string(&mut content).map_err(|error| {
             Box::new(DataError::FailedParsingRdfData {
@@ -226,7 +226,7 @@ fn read_rdf_data<R: Read>(
                 error: error.to_string(),
             })
         })?;
-        let header = default_prefix_header(rudof, &content, PrefixDirective::Turtle);
+        let header = default_prefix_header(rudof, PrefixDirective::Turtle);
         let mut prefixed_reader = io::Cursor::new(format!("{header}{content}").into_bytes());
         rdf_data.merge_from_reader(
             &mut prefixed_reader,
diff --git a/rudof_lib/src/api/query/implementations/load_sparql_query.rs b/rudof_lib/src/api/query/implementations/load_sparql_query.rs
index d7302b3..c7facf9 100644
--- a/rudof_lib/src/api/query/implementations/load_sparql_query.rs
+++ b/rudof_lib/src/api/query/implementations/load_sparql_query.rs
@@ -22,7 +22,7 @@ pub fn load_sparql_query(rudof: &mut Rudof, query: &InputSpec, _query_type: Opti
             message: format!("Failed to read data source '{}': {error}", query.source_name()),
         })?;
 
-    let header = default_prefix_header(rudof, &query_string, PrefixDirective::Sparql);
+    let header = default_prefix_header(rudof, PrefixDirective::Sparql);
     let prefixed_query_string = format!("{header}{query_string}");
 
     let parsed_query = SparqlQuery::new(&prefixed_query_string).map_err(|error| QueryError::FailedParsingQuery {
diff --git a/rudof_lib/src/api/shacl/implementations/load_shacl_schema.rs b/rudof_lib/src/api/shacl/implementations/load_shacl_schema.rs
index a693ff7..c992f49 100644
--- a/rudof_lib/src/api/shacl/implementations/load_shacl_schema.rs
+++ b/rudof_lib/src/api/shacl/implementations/load_shacl_schema.rs
@@ -56,16 +56,16 @@ fn read_shacl_schema(
             message: format!("Failed to open shacl schema source '{}': {error}", schema.source_name()),
         })?;
 
-    // Only Turtle uses `@prefix` declarations that default prefixes can
-    // usefully supplement; see the equivalent check in `load_data`.
-    let rdf_graph = if matches!(schema_format, ShaclFormat::Turtle) {
+    // Only Turtle, TriG and N3 use `@prefix` declarations that default prefixes
+    // can usefully supplement; see the equivalent check in `load_data`.
+    let rdf_graph = if matches!(schema_format, ShaclFormat::Turtle | ShaclFormat::TriG | ShaclFormat::N3) {
         let mut content = String::new();
         schema_reader
             .read_to_string(&mut content)
             .map_err(|error| ShaclError::DataSourceSpec {
                 message: format!("Failed to read shacl schema source '{}': {error}", schema.source_name()),
             })?;
-        let header = default_prefix_header(rudof, &content, PrefixDirective::Turtle);
+        let header = default_prefix_header(rudof, PrefixDirective::Turtle);
         let mut prefixed_reader = std::io::Cursor::new(format!("{header}{content}").into_bytes());
         OxigraphInMemory::from_reader(
             &mut prefixed_reader,
diff --git a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
index a7b4910..3e27028 100644
--- a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
@@ -78,7 +78,7 @@ fn load_shex_schema_shexc<R: io::Read>(
             source_name: source_name.to_string(),
             format: "ShExC".to_string(),
         })?;
-    let header = default_prefix_header(rudof, &content, PrefixDirective::Sparql);
+    let header = default_prefix_header(rudof, PrefixDirective::Sparql);
     let prefixed_reader = io::Cursor::new(format!("{header}{content}"));
     #[cfg(target_family = "wasm")]
     let source_iri = {
diff --git a/rudof_lib/src/utils/prefix_header.rs b/rudof_lib/src/utils/prefix_header.rs
index ba198b3..0aa0861 100644
--- a/rudof_lib/src/utils/prefix_header.rs
+++ b/rudof_lib/src/utils/prefix_header.rs
@@ -1,7 +1,4 @@
 use crate::Rudof;
-use regex::Regex;
-use std::collections::HashSet;
-use std::sync::LazyLock;
 
 /// Which directive syntax to emit a default prefix declaration in.
 pub(crate) enum PrefixDirective {
@@ -11,39 +8,20 @@ pub(crate) enum PrefixDirective {
     Sparql,
 }
 
-static TURTLE_PREFIX_DECL: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"(?m)^\s*@prefix\s+([^\s:]*)\s*:").unwrap());
-static SPARQL_PREFIX_DECL: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"(?mi)^\s*PREFIX\s+([^\s:]*)\s*:").unwrap());
-
-/// Builds prefix-declaration lines, in `directive`'s syntax, for every alias
-/// in `rudof`'s default prefixes that `source` doesn't already declare
-/// itself -- ready to prepend to `source` before parsing it, so a prefixed
-/// name the document doesn't declare can still resolve, without ever
-/// overriding a declaration the document does have.
+/// Builds prefix-declaration lines, in `directive`'s syntax, for every one of
+/// `rudof`'s default prefixes -- ready to prepend to a document before parsing
+/// it, so a prefixed name the document doesn't declare can still resolve. A
+/// declaration of the document comes later than these ones and replaces the
+/// default for its alias.
 ///
-/// Returns an empty string if there are no default prefixes to add, so
-/// callers can skip the prepend (and the buffering it requires) entirely.
-pub(crate) fn default_prefix_header(rudof: &Rudof, source: &str, directive: PrefixDirective) -> String {
+/// Returns an empty string if there are no default prefixes to add.
+pub(crate) fn default_prefix_header(rudof: &Rudof, directive: PrefixDirective) -> String {
     let Some(defaults) = rudof.prefixes.as_ref() else {
         return String::new();
     };
-    if defaults.is_empty() {
-        return String::new();
-    }
-
-    let declared_regex = match directive {
-        PrefixDirective::Turtle => &*TURTLE_PREFIX_DECL,
-        PrefixDirective::Sparql => &*SPARQL_PREFIX_DECL,
-    };
-    let declared: HashSet<&str> = declared_regex
-        .captures_iter(source)
-        .map(|c| c.get(1).map_or("", |m| m.as_str()))
-        .collect();
 
     let mut header = String::new();
     for (alias, iri) in defaults.iter() {
-        if declared.contains(alias.as_str()) {
-            continue;
-        }
         match directive {
             PrefixDirective::Turtle => header.push_str(&format!("@prefix {alias}: <{iri}> .\n")),
             PrefixDirective::Sparql => header.push_str(&format!("PREFIX {alias}: <{iri}>\n")),
-- 
2.43.0


From ef34e318c4a920ec4e0e69784b1642e7584b578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 049/110] fix: checking a ShEx schema resolves the session's
 prefixes, as loading it does

---
 rudof_lib/src/api/shex/implementations/check_shex_schema.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rudof_lib/src/api/shex/implementations/check_shex_schema.rs b/rudof_lib/src/api/shex/implementations/check_shex_schema.rs
index f2344b5..57a0e7d 100644
--- a/rudof_lib/src/api/shex/implementations/check_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/check_shex_schema.rs
@@ -21,6 +21,7 @@ pub fn check_shex_schema<W: io::Write>(
         .with_check_negation_requirement(false);
     temp_config.shex_validator = validator_cfg;
     let mut temp_rudof = Rudof::new(temp_config);
+    temp_rudof.prefixes = rudof.prefixes.clone();
 
     let is_schema_well_formed = match load_shex_schema(
         &mut temp_rudof,
-- 
2.43.0


From c6e3bcaa452f7ffe700d6f876d15092a13ca4db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 050/110] fix: report what is not implemented yet as an error
 instead of panicking

---
 .../implementations/show_schema_comparison.rs        | 12 ++++++++----
 .../serialize_pgschema_validation_results.rs         |  6 +++++-
 rudof_lib/src/api/query/implementations/run_query.rs |  6 +++++-
 .../serialize_shacl_validation_results.rs            |  5 ++++-
 .../src/api/shex/implementations/load_shapemap.rs    |  6 +++++-
 .../src/api/shex/implementations/load_shex_schema.rs |  7 ++++++-
 .../api/shex/implementations/serialize_shapemap.rs   |  6 +++++-
 .../shex/implementations/serialize_shex_schema.rs    |  6 +++++-
 .../serialize_shex_validation_results.rs             |  6 +++++-
 9 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs b/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs
index f11ac07..b04a2b7 100644
--- a/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs
+++ b/rudof_lib/src/api/comparison/implementations/show_schema_comparison.rs
@@ -123,7 +123,6 @@ fn get_coshamo<R: io::Read>(
     source_name: &str,
 ) -> Result<CoShaMo> {
     match mode {
-        ComparisonMode::Shacl => todo!("Not yet implemented comparison between SHACL files"),
         ComparisonMode::ShEx => {
             let shex = read_shex_only(reader, &(*format).into(), base, source_name)?;
             let mut converter = CoShaMoConverter::new(rudof.config.comparator());
@@ -136,8 +135,10 @@ fn get_coshamo<R: io::Read>(
                     })?;
             Ok(coshamo)
         },
-        ComparisonMode::Service => todo!("Not yet implemented comparison between SPARQL endpoints"),
-        ComparisonMode::Dctap => todo!("Not yet implemented comparison between DCTAP files"),
+        // Only ShEx schemas can be compared so far
+        ComparisonMode::Shacl | ComparisonMode::Service | ComparisonMode::Dctap => {
+            Err(ComparisonError::UnsupportedComparisonMode { mode: mode.to_string() }.into())
+        },
     }
 }
 
@@ -172,6 +173,9 @@ pub fn read_shex_only<R: io::Read>(reader: R, format: &ShExFormat, base: IriS, s
             })?;
             Ok(schema_json)
         },
-        _ => todo!("Not yet implemented reading ShEx from RDF files"),
+        _ => Err(ComparisonError::UnsupportedComparisonFormat {
+            format: format.to_string(),
+        }
+        .into()),
     }
 }
diff --git a/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs b/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs
index a4cafad..d66795f 100644
--- a/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs
+++ b/rudof_lib/src/api/pgschema/implementations/serialize_pgschema_validation_results.rs
@@ -30,7 +30,11 @@ pub fn serialize_pgschema_validation_results<W: io::Write>(
                 .map_err(|e| PgSchemaError::FailedIoOperation { error: e.to_string() })?;
         },
         ResultPgSchemaValidationFormat::Details => {
-            todo!("Implement details format for Property Graph schema validation results serialization");
+            return Err(PgSchemaError::FailedIoOperation {
+                error: "the details format of Property Graph schema validation results is not implemented yet"
+                    .to_string(),
+            }
+            .into());
         },
     }
 
diff --git a/rudof_lib/src/api/query/implementations/run_query.rs b/rudof_lib/src/api/query/implementations/run_query.rs
index a662228..9b86ba9 100644
--- a/rudof_lib/src/api/query/implementations/run_query.rs
+++ b/rudof_lib/src/api/query/implementations/run_query.rs
@@ -56,7 +56,11 @@ pub fn run_query(rudof: &mut Rudof, result_query_format: Option<&ResultQueryForm
             rudof.query_results = Some(QueryResult::Ask(results));
         },
         QueryType::Describe => {
-            todo!("Implement DESCRIBE query execution")
+            return Err(QueryError::FailedExecutingQuery {
+                query_type: "describe".to_string(),
+                error: "it is not implemented yet".to_string(),
+            }
+            .into());
         },
     }
 
diff --git a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
index c7f7de2..652b86e 100644
--- a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
+++ b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
@@ -39,7 +39,10 @@ pub fn serialize_shacl_validation_results<W: io::Write>(
                 .map_err(|e| ShaclError::FailedIoOperation { error: e.to_string() })?;
         },
         ResultShaclValidationFormat::Json => {
-            todo!("Generation of JSON for SHACL validation report is not implemented yet")
+            return Err(ShaclError::FailedIoOperation {
+                error: "generation of JSON for SHACL validation reports is not implemented yet".to_string(),
+            }
+            .into());
         },
         _ => {
             serialize_shacl_validation_results_rdf(
diff --git a/rudof_lib/src/api/shex/implementations/load_shapemap.rs b/rudof_lib/src/api/shex/implementations/load_shapemap.rs
index 54f6cad..abce413 100644
--- a/rudof_lib/src/api/shex/implementations/load_shapemap.rs
+++ b/rudof_lib/src/api/shex/implementations/load_shapemap.rs
@@ -29,7 +29,11 @@ pub fn load_shapemap(
             rudof.shapemap = Some(shapemap);
         },
         _ => {
-            todo!("ShapeMap format {:?} not yet implemented", shapemap_format);
+            return Err(ShExError::FailedParsingShapeMap {
+                source_name: shapemap.source_name(),
+                error: format!("reading the ShapeMap format '{shapemap_format}' is not implemented yet"),
+            }
+            .into());
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
index 3e27028..13802f3 100644
--- a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
@@ -42,7 +42,12 @@ pub fn load_shex_schema(
             load_shex_schema_shexj(rudof, schema_reader, &schema.source_name(), base_schema, &reader_mode)?;
         },
         _ => {
-            todo!("Implement loading for ShEx format '{}'", schema_format);
+            return Err(ShExError::FailedParsingShExSchema {
+                error: "loading it is not implemented yet".to_string(),
+                source_name: schema.source_name(),
+                format: schema_format.to_string(),
+            }
+            .into());
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs b/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs
index 868626e..dc1cdd5 100644
--- a/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs
+++ b/rudof_lib/src/api/shex/implementations/serialize_shapemap.rs
@@ -20,7 +20,11 @@ pub fn serialize_shapemap<W: io::Write>(
             serialize_shapemap_json(shapemap, writer)?;
         },
         _ => {
-            todo!("Implement serialization for ShapeMap format '{}'", shapemap_format);
+            return Err(ShExError::FailedSerializingShapemap {
+                format: shapemap_format.to_string(),
+                error: "it is not implemented yet".to_string(),
+            }
+            .into());
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs b/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs
index 3f4cb9f..6e99374 100644
--- a/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/serialize_shex_schema.rs
@@ -183,7 +183,11 @@ fn serialize_schema(
                 .map_err(|e| ShExError::FailedIoOperation { error: e.to_string() })?;
         },
         _ => {
-            todo!("Implement serialization for ShEx format '{}'", shex_format);
+            return Err(ShExError::FailedSerializingShExSchema {
+                format: shex_format.to_string(),
+                error: "it is not implemented yet".to_string(),
+            }
+            .into());
         },
     }
 
diff --git a/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs b/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs
index 16c2287..7026905 100644
--- a/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs
+++ b/rudof_lib/src/api/shex/implementations/serialize_shex_validation_results.rs
@@ -54,7 +54,11 @@ pub fn serialize_shex_validation_results<W: io::Write>(
             writeln!(writer, "{str}").map_err(|e| ShExError::FailedIoOperation { error: e.to_string() })?;
         },
         _ => {
-            todo!("Implement serialization for the specified format: {result_shex_validation_format:?}");
+            return Err(ShExError::FailedSerializingShExValidationResults {
+                format: result_shex_validation_format.to_string(),
+                error: "it is not implemented yet".to_string(),
+            }
+            .into());
         },
     }
 
-- 
2.43.0


From 54bd4a32a0585570c7f69512b45bc3e7e7d7581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 051/110] fix: refuse a default prefix whose alias would make
 every document of the session unreadable

---
 .../prefixes/implementations/add_prefix.rs    |  2 ++
 .../prefixes/implementations/check_alias.rs   | 24 +++++++++++++++++++
 .../prefixes/implementations/copy_prefix.rs   |  2 ++
 .../src/api/prefixes/implementations/mod.rs   |  1 +
 .../prefixes/implementations/rename_prefix.rs |  2 ++
 rudof_lib/src/errors/prefixes_error.rs        |  4 ++++
 6 files changed, 35 insertions(+)
 create mode 100644 rudof_lib/src/api/prefixes/implementations/check_alias.rs

diff --git a/rudof_lib/src/api/prefixes/implementations/add_prefix.rs b/rudof_lib/src/api/prefixes/implementations/add_prefix.rs
index a385d5d..e5fb2a9 100644
--- a/rudof_lib/src/api/prefixes/implementations/add_prefix.rs
+++ b/rudof_lib/src/api/prefixes/implementations/add_prefix.rs
@@ -1,9 +1,11 @@
+use super::check_alias::check_alias;
 use crate::{Result, Rudof, errors::IriError};
 use prefixmap::PrefixMap;
 use rudof_iri::IriS;
 use std::str::FromStr;
 
 pub fn add_prefix(rudof: &mut Rudof, alias: &str, iri: &str) -> Result<()> {
+    check_alias(alias)?;
     let iri = IriS::from_str(iri).map_err(|error| IriError::ParseError {
         iri: iri.to_string(),
         error: error.to_string(),
diff --git a/rudof_lib/src/api/prefixes/implementations/check_alias.rs b/rudof_lib/src/api/prefixes/implementations/check_alias.rs
new file mode 100644
index 0000000..3484bfb
--- /dev/null
+++ b/rudof_lib/src/api/prefixes/implementations/check_alias.rs
@@ -0,0 +1,24 @@
+use crate::{Result, errors::PrefixesError};
+use regex::Regex;
+use std::sync::LazyLock;
+
+const PN_CHARS_BASE: &str = r"A-Za-z\u{C0}-\u{D6}\u{D8}-\u{F6}\u{F8}-\u{2FF}\u{370}-\u{37D}\u{37F}-\u{1FFF}\u{200C}-\u{200D}\u{2070}-\u{218F}\u{2C00}-\u{2FEF}\u{3001}-\u{D7FF}\u{F900}-\u{FDCF}\u{FDF0}-\u{FFFD}\u{10000}-\u{EFFFF}";
+
+/// <https://www.w3.org/TR/turtle/#grammar-production-PN_PREFIX>, or the empty alias
+static ALIAS: LazyLock<Regex> = LazyLock::new(|| {
+    let chars = format!(r"{PN_CHARS_BASE}_0-9\u{{B7}}\u{{300}}-\u{{36F}}\u{{203F}}-\u{{2040}}\-");
+    Regex::new(&format!("^([{PN_CHARS_BASE}]([{chars}.]*[{chars}])?)?$")).unwrap()
+});
+
+/// Default prefixes are declared at the start of the documents of a session: an
+/// alias that is not one of their grammars would make all of them unreadable.
+pub(super) fn check_alias(alias: &str) -> Result<()> {
+    if ALIAS.is_match(alias) {
+        Ok(())
+    } else {
+        Err(PrefixesError::InvalidAlias {
+            alias: alias.to_string(),
+        }
+        .into())
+    }
+}
diff --git a/rudof_lib/src/api/prefixes/implementations/copy_prefix.rs b/rudof_lib/src/api/prefixes/implementations/copy_prefix.rs
index 7618f14..bf1cc4e 100644
--- a/rudof_lib/src/api/prefixes/implementations/copy_prefix.rs
+++ b/rudof_lib/src/api/prefixes/implementations/copy_prefix.rs
@@ -1,8 +1,10 @@
+use super::check_alias::check_alias;
 use crate::{Result, Rudof, errors::PrefixesError};
 use prefixmap::PrefixMap;
 
 /// Adds `new_alias` associated with the same IRI as `old_alias`, keeping `old_alias` too.
 pub fn copy_prefix(rudof: &mut Rudof, old_alias: &str, new_alias: &str) -> Result<()> {
+    check_alias(new_alias)?;
     let pm = rudof.prefixes.as_mut().ok_or_else(|| PrefixesError::AliasNotFound {
         alias: old_alias.to_string(),
     })?;
diff --git a/rudof_lib/src/api/prefixes/implementations/mod.rs b/rudof_lib/src/api/prefixes/implementations/mod.rs
index 7a7ff8e..f36b3f3 100644
--- a/rudof_lib/src/api/prefixes/implementations/mod.rs
+++ b/rudof_lib/src/api/prefixes/implementations/mod.rs
@@ -1,4 +1,5 @@
 mod add_prefix;
+mod check_alias;
 mod copy_prefix;
 mod prefixes;
 mod remove_prefix;
diff --git a/rudof_lib/src/api/prefixes/implementations/rename_prefix.rs b/rudof_lib/src/api/prefixes/implementations/rename_prefix.rs
index d444556..49dd46f 100644
--- a/rudof_lib/src/api/prefixes/implementations/rename_prefix.rs
+++ b/rudof_lib/src/api/prefixes/implementations/rename_prefix.rs
@@ -1,3 +1,4 @@
+use super::check_alias::check_alias;
 use crate::{Result, Rudof, errors::PrefixesError};
 
 /// Renames `old_alias` to `new_alias`, keeping the same associated IRI.
@@ -5,6 +6,7 @@ use crate::{Result, Rudof, errors::PrefixesError};
 /// If `new_alias` was already in use, its previous association is overwritten,
 /// mirroring the overwrite behaviour of [`prefixmap::PrefixMap::add_prefix`].
 pub fn rename_prefix(rudof: &mut Rudof, old_alias: &str, new_alias: &str) -> Result<()> {
+    check_alias(new_alias)?;
     let pm = rudof.prefixes.as_mut().ok_or_else(|| PrefixesError::AliasNotFound {
         alias: old_alias.to_string(),
     })?;
diff --git a/rudof_lib/src/errors/prefixes_error.rs b/rudof_lib/src/errors/prefixes_error.rs
index a958d42..baf539f 100644
--- a/rudof_lib/src/errors/prefixes_error.rs
+++ b/rudof_lib/src/errors/prefixes_error.rs
@@ -6,4 +6,8 @@ pub enum PrefixesError {
     /// The referenced alias is not present in the default prefixes.
     #[error("Unknown prefix alias '{alias}'")]
     AliasNotFound { alias: String },
+
+    /// The alias cannot be declared in any document.
+    #[error("Invalid prefix alias '{alias}'")]
+    InvalidAlias { alias: String },
 }
-- 
2.43.0


From 68b75cc1132bd347d58d98ba3c6d8535c79295bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 052/110] fix: the map state of a ShEx validation has no
 bindings of earlier validations

---
 .../src/api/shex/implementations/load_shex_schema.rs   |  8 ++------
 .../src/api/shex/implementations/validate_shex.rs      | 10 +++++++++-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
index 13802f3..0d0b8d7 100644
--- a/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
+++ b/rudof_lib/src/api/shex/implementations/load_shex_schema.rs
@@ -9,7 +9,7 @@ use shex_ast::{
     ResolveMethod, Schema as ShExSchema,
     compact::ShExParser,
     ir::{
-        map_action_extension::MapActionExtension, schema_ir::SchemaIR,
+        map_action_extension::MapActionExtension, map_state::MapState, schema_ir::SchemaIR,
         semantic_actions_registry::SemanticActionsRegistry, test_action_extension::TestActionExtension,
     },
 };
@@ -145,12 +145,10 @@ fn load_shex_schema_shexj<R: io::Read>(
 fn compile_shex_schema(rudof: &mut Rudof, base: IriS, schema: ShExSchema, reader_mode: &DataReaderMode) -> Result<()> {
     // Build the registry with all extensions pre-registered so that the Arc<Mutex<MapState>>
     // inside MapActionExtension is shared with every closure compiled from the schema.
-    let map_state = rudof.map_state.clone().unwrap_or_default();
     let registry = SemanticActionsRegistry::new().with(vec![
         Box::new(TestActionExtension::new()),
-        Box::new(MapActionExtension::new(map_state.clone())),
+        Box::new(MapActionExtension::new(MapState::default())),
     ]);
-    // trace!("Initialized SemanticActionsRegistry with MapState: {map_state:#?}");
 
     let mut schema_ir = SchemaIR::new(registry);
 
@@ -189,8 +187,6 @@ fn compile_shex_schema(rudof: &mut Rudof, base: IriS, schema: ShExSchema, reader
         }
     })?;
 
-    // schema_ir.set_map_state(&mut map_state);
-
     rudof.shex_schema = Some(schema);
     rudof.shex_schema_ir = Some(schema_ir);
     rudof.shex_validator = Some(validator);
diff --git a/rudof_lib/src/api/shex/implementations/validate_shex.rs b/rudof_lib/src/api/shex/implementations/validate_shex.rs
index 5a68d8b..4a2762d 100644
--- a/rudof_lib/src/api/shex/implementations/validate_shex.rs
+++ b/rudof_lib/src/api/shex/implementations/validate_shex.rs
@@ -4,7 +4,9 @@ use crate::{
     types::Data,
 };
 use rudof_rdf::rdf_core::Rdf;
-use shex_ast::{ir::schema_ir::SchemaIR as ShExSchemaIR, shapemap::NodeSelector, shapemap::QueryShapeMap};
+use shex_ast::{
+    ir::map_state::MapState, ir::schema_ir::SchemaIR as ShExSchemaIR, shapemap::NodeSelector, shapemap::QueryShapeMap,
+};
 use shex_validation::Validator as ShExValidator;
 
 pub fn validate_shex(rudof: &mut Rudof) -> Result<()> {
@@ -24,6 +26,12 @@ pub fn validate_shex(rudof: &mut Rudof) -> Result<()> {
             .map_err(|e| ShExError::FailedInitializingQueryStore { error: e.to_string() })?;
     }
 
+    // The map state of a validation has the bindings of that validation only, not
+    // those of earlier ones.
+    if let Some(arc) = shex_schema.get_map_state_arc() {
+        *arc.lock().unwrap() = MapState::default();
+    }
+
     let nodes_prefixmap = rdf_data.prefixmap().unwrap_or_default();
     let result = shex_validator
         .validate_shapemap(shapemap, rdf_data, shex_schema, &Some(nodes_prefixmap))
-- 
2.43.0


From 726fc73945759139401dc814954afc31869de182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:38 +0000
Subject: [PATCH 053/110] fix: a prefixed name denotes namespace followed by
 local name

resolve_prefix_local inserted a '/' between a namespace that does not end in
'/' or '#' and the local name, so with PREFIX ex: <http://example.org/id_> the
name ex:5 denoted <http://example.org/id_/5>.
---
 prefixmap/src/prefix_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prefixmap/src/prefix_map.rs b/prefixmap/src/prefix_map.rs
index 42d3cf2..4268c96 100644
--- a/prefixmap/src/prefix_map.rs
+++ b/prefixmap/src/prefix_map.rs
@@ -566,8 +566,8 @@ impl PrefixMap {
                 if local.is_empty() {
                     return Ok(iri.clone());
                 }
-                let new_iri = iri.extend(local.as_str())?;
-                Ok(new_iri)
+                // A prefixed name denotes the concatenation of the namespace and the local name
+                Ok(IriS::new(&format!("{iri}{local}"))?)
             },
             None => Err(PrefixMapError::PrefixNotFound {
                 prefix,
-- 
2.43.0


From b714ac293d9c7ed7e7f4e0e6ad27072368d61a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 054/110] fix: evaluate references combined with semantic
 actions

The references of a triple constraint with semantic actions were not collected,
so such a constraint failed for every neighbour.
---
 shex_ast/src/ir/shape.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/shex_ast/src/ir/shape.rs b/shex_ast/src/ir/shape.rs
index ddf58f5..e31a484 100644
--- a/shex_ast/src/ir/shape.rs
+++ b/shex_ast/src/ir/shape.rs
@@ -120,18 +120,23 @@ impl Shape {
     fn get_value_expr_references(&self) -> HashMap<Pred, Vec<ShapeLabelIdx>> {
         let mut result: HashMap<Pred, Vec<ShapeLabelIdx>> = HashMap::new();
         for (_component, pred, cond) in self.expr.components() {
-            match cond {
-                rbe::MatchCond::Single(_single_cond) => {},
-                rbe::MatchCond::And(_match_conds) => {},
-                rbe::MatchCond::Ref(r) => {
-                    result.entry(pred.clone()).or_default().push(r);
-                },
-            }
+            add_cond_references(&cond, &pred, &mut result);
         }
         result
     }
 }
 
+fn add_cond_references(cond: &Cond, pred: &Pred, references: &mut HashMap<Pred, Vec<ShapeLabelIdx>>) {
+    match cond {
+        rbe::MatchCond::Single(_single_cond) => {},
+        // A reference is combined with the semantic actions of its triple constraint
+        rbe::MatchCond::And(conds) => conds
+            .iter()
+            .for_each(|cond| add_cond_references(cond, pred, references)),
+        rbe::MatchCond::Ref(r) => references.entry(pred.clone()).or_default().push(*r),
+    }
+}
+
 fn add_cond_edges(cond: &Cond, source: ShapeLabelIdx, graph: &mut DependencyGraph, pos_neg: PosNeg) {
     match cond {
         rbe::MatchCond::Single(_single_cond) => {},
-- 
2.43.0


From ffba60d06ed1e300cfcd8856e45f90da104bfb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:39 +0000
Subject: [PATCH 055/110] fix: split a prefixed name at its first colon, so
 that local parts can contain colons

---
 prefixmap/src/prefix_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prefixmap/src/prefix_map.rs b/prefixmap/src/prefix_map.rs
index 4268c96..038a46c 100644
--- a/prefixmap/src/prefix_map.rs
+++ b/prefixmap/src/prefix_map.rs
@@ -511,7 +511,7 @@ impl PrefixMap {
     /// # Ok::<(), PrefixMapError>(())
     /// ```
     pub fn resolve(&self, str: &str) -> Result<IriS, PrefixMapError> {
-        match str.rsplit_once(':') {
+        match str.split_once(':') {
             Some((prefix, local)) => Ok(self.resolve_prefix_local(prefix, local)?),
             None => Ok(IriS::from_str(str)?),
         }
-- 
2.43.0


From 5f3d2771f4f5008285543d768a3fecbdeab739f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 056/110] fix: lax IRI normalization wraps only bare absolute
 IRIs, not literals or SPARQL selectors that contain one

---
 docs/src/internals/iri-normalization.md       | 10 ++++------
 rudof_lib/src/utils/utils.rs                  | 20 ++++++++++++-------
 .../service/tools/shex_validate_tools_impl.rs |  8 ++++++--
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/docs/src/internals/iri-normalization.md b/docs/src/internals/iri-normalization.md
index 63d710e..aee2525 100644
--- a/docs/src/internals/iri-normalization.md
+++ b/docs/src/internals/iri-normalization.md
@@ -6,14 +6,12 @@ To avoid burdening users with this detail, `rudof` applies a normalization step
 
 ## Lax mode (default)
 
-A string is treated as a bare IRI and wrapped in `<>` if all four conditions hold:
+A string is treated as a bare IRI and wrapped in `<>` if both conditions hold:
 
-1. It does not already start with `<`.
-2. It does not start with `_:` (blank node).
-3. It does not start with `{` (triple-pattern node selector such as `{FOCUS a :Person}`).
-4. It contains the substring `://`.
+1. It starts with an IRI scheme (a letter followed by letters, digits, `+`, `-` or `.`) followed by `://`.
+2. It contains no character that cannot appear in an IRI (white space, `<`, `>`, `"`, `{`, `}`, `|`, `^`, `` ` `` or `\`).
 
-All other strings (prefixed names, already-bracketed IRIs) are passed through unchanged.
+All other strings (prefixed names, already-bracketed IRIs, blank nodes, literals, triple-pattern and SPARQL node selectors) are passed through unchanged.
 
 ### Known failure cases
 
diff --git a/rudof_lib/src/utils/utils.rs b/rudof_lib/src/utils/utils.rs
index 001980d..d0e161a 100644
--- a/rudof_lib/src/utils/utils.rs
+++ b/rudof_lib/src/utils/utils.rs
@@ -12,19 +12,16 @@ use url::Url;
 
 /// Normalizes a node/shape IRI string for `ShapeMapParser` according to `mode`.
 ///
-/// - `Lax`: wraps strings that look like bare absolute IRIs (contain `://`, no leading `<`, `_`,
-///   or `{`) in angle brackets. Heuristic — see [`IriNormalizationMode`] docs for edge cases.
+/// - `Lax`: wraps strings that look like bare absolute IRIs (a scheme followed by `://` and no
+///   character which is not allowed in an IRI) in angle brackets. Heuristic — see
+///   [`IriNormalizationMode`] docs for edge cases.
 /// - `Strict`: returns the trimmed string unchanged; bare IRIs will produce a parser error.
 pub(crate) fn normalize_iri_str(s: &str, mode: IriNormalizationMode) -> String {
     let trimmed = s.trim();
     match mode {
         IriNormalizationMode::Strict => trimmed.to_string(),
         IriNormalizationMode::Lax => {
-            let is_bare_iri = !trimmed.starts_with('<')
-                && !trimmed.starts_with('_')
-                && !trimmed.starts_with('{')
-                && trimmed.contains("://");
-            if is_bare_iri {
+            if is_bare_iri(trimmed) {
                 format!("<{}>", trimmed)
             } else {
                 trimmed.to_string()
@@ -33,6 +30,15 @@ pub(crate) fn normalize_iri_str(s: &str, mode: IriNormalizationMode) -> String {
     }
 }
 
+fn is_bare_iri(s: &str) -> bool {
+    let is_scheme = |scheme: &str| {
+        scheme.starts_with(|c: char| c.is_ascii_alphabetic())
+            && scheme.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c))
+    };
+    s.split_once("://").is_some_and(|(scheme, _)| is_scheme(scheme))
+        && !s.contains(|c: char| c <= ' ' || "<>\"{}|^`\\".contains(c))
+}
+
 pub fn get_base_iri(rudof: &mut Rudof, base_iri: Option<&str>) -> Result<IriS> {
     if let Some(base_iri) = base_iri {
         let base_iri = IriS::from_str(base_iri).map_err(|error| IriError::ParseError {
diff --git a/rudof_mcp/src/service/tools/shex_validate_tools_impl.rs b/rudof_mcp/src/service/tools/shex_validate_tools_impl.rs
index 79fc5e7..c7d0014 100644
--- a/rudof_mcp/src/service/tools/shex_validate_tools_impl.rs
+++ b/rudof_mcp/src/service/tools/shex_validate_tools_impl.rs
@@ -18,8 +18,12 @@ fn normalize_iri_str(s: &str, strict: bool) -> String {
     if strict {
         return trimmed.to_string();
     }
-    let is_bare_iri =
-        !trimmed.starts_with('<') && !trimmed.starts_with('_') && !trimmed.starts_with('{') && trimmed.contains("://");
+    let is_scheme = |scheme: &str| {
+        scheme.starts_with(|c: char| c.is_ascii_alphabetic())
+            && scheme.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c))
+    };
+    let is_bare_iri = trimmed.split_once("://").is_some_and(|(scheme, _)| is_scheme(scheme))
+        && !trimmed.contains(|c: char| c <= ' ' || "<>\"{}|^`\\".contains(c));
     if is_bare_iri {
         format!("<{}>", trimmed)
     } else {
-- 
2.43.0


From 99f14679f32e027ba0c38afa431d943c55fcb501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 057/110] fix: reject text left over after a node, shape or
 predicate argument instead of ignoring it

---
 shex_ast/src/compact/shapemap_parser.rs | 34 ++++++++++++++-----------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/shex_ast/src/compact/shapemap_parser.rs b/shex_ast/src/compact/shapemap_parser.rs
index 5100916..68c8d50 100644
--- a/shex_ast/src/compact/shapemap_parser.rs
+++ b/shex_ast/src/compact/shapemap_parser.rs
@@ -9,6 +9,8 @@ use crate::shapemap::ShapeSelector;
 use crate::shapemap::query_shape_map::QueryShapeMap;
 use crate::tws0;
 use nom::Err;
+use nom::Parser;
+use nom::combinator::all_consuming;
 use prefixmap::IriRef;
 use prefixmap::PrefixMap;
 use rudof_iri::IriS;
@@ -75,7 +77,7 @@ impl ShapeMapParser<'_> {
 
     pub fn parse_shape_selector(str: &str) -> Result<ShapeSelector> {
         let span = Span::new(str);
-        let (_, ss) = shape_spec()(span).map_err(|e| match e {
+        let (_, (ss, _)) = all_consuming((shape_spec(), tws0)).parse(span).map_err(|e| match e {
             Err::Incomplete(s) => ParseError::Custom {
                 msg: format!("Incomplete input: needed {s:?}"),
             },
@@ -87,25 +89,27 @@ impl ShapeMapParser<'_> {
 
     pub fn parse_node_selector(str: &str) -> Result<NodeSelector> {
         let span = Span::new(str);
-        let (_, ns) = node_selector()(span).map_err(|e| match e {
-            Err::Incomplete(s) => ParseError::Custom {
-                msg: format!("Incomplete input parsing node selector {str}: needed {s:?}"),
-            },
-            Err::Error(e) => ParseError::NodeSelectorNomError {
-                str: str.to_string(),
-                err: Box::new(e),
-            },
-            Err::Failure(f) => ParseError::NodeSelectorNomError {
-                str: str.to_string(),
-                err: Box::new(f),
-            },
-        })?;
+        let (_, (ns, _)) = all_consuming((node_selector(), tws0))
+            .parse(span)
+            .map_err(|e| match e {
+                Err::Incomplete(s) => ParseError::Custom {
+                    msg: format!("Incomplete input parsing node selector {str}: needed {s:?}"),
+                },
+                Err::Error(e) => ParseError::NodeSelectorNomError {
+                    str: str.to_string(),
+                    err: Box::new(e),
+                },
+                Err::Failure(f) => ParseError::NodeSelectorNomError {
+                    str: str.to_string(),
+                    err: Box::new(f),
+                },
+            })?;
         Ok(ns)
     }
 
     pub fn parse_iri_ref(str: &str) -> Result<IriRef> {
         let span = Span::new(str);
-        let (_, iri_ref) = iri(span).map_err(|e| match e {
+        let (_, (iri_ref, _)) = all_consuming((iri, tws0)).parse(span).map_err(|e| match e {
             Err::Incomplete(s) => ParseError::Custom {
                 msg: format!("Incomplete input: needed {s:?}"),
             },
-- 
2.43.0


From 5aca408eba54439bb6a35ad0ef33d9cb0a5348c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 058/110] fix: tiny and huge floating point numbers were
 compared by rounded values

---
 rudof_rdf/src/rdf_core/rdf.rs                 |  2 +-
 .../rdf_core/term/literal/numeric_literal.rs  | 24 +++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/rdf.rs b/rudof_rdf/src/rdf_core/rdf.rs
index f5a7d3d..0d49e5f 100644
--- a/rudof_rdf/src/rdf_core/rdf.rs
+++ b/rudof_rdf/src/rdf_core/rdf.rs
@@ -134,7 +134,7 @@ pub trait Rdf: Sized {
     fn numeric_value(&self, term: &Self::Term) -> Option<Decimal> {
         let maybe_object: Result<Object, _> = term.clone().try_into();
         match maybe_object {
-            Ok(object) => object.numeric_value().map(|n| n.to_decimal().unwrap()),
+            Ok(object) => object.numeric_value().and_then(|n| n.to_decimal()),
             Err(_) => None,
         }
     }
diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index df75ef0..beea4ce 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -36,6 +36,20 @@ pub enum NumericLiteral {
     Float(f32),
 }
 
+/// Decimal value of a floating point number: exact if it is a whole number, with the digits
+/// that identify it otherwise. `None` if it does not fit.
+fn decimal_from_float(n: f64, digits: &str) -> Option<Decimal> {
+    match whole_number(n) {
+        Some(i) => Decimal::from_i128(i),
+        None => Decimal::from_str_exact(digits).ok(),
+    }
+}
+
+/// Value of a floating point number without fraction that fits in an `i128`
+fn whole_number(n: f64) -> Option<i128> {
+    (n.fract() == 0.0).then(|| i128::from_f64(n)).flatten()
+}
+
 // Macro to eliminate duplicated decimal conversion methods
 macro_rules! impl_decimal_from {
     ($name:ident, $type:ty, $from_method:ident) => {
@@ -224,10 +238,10 @@ impl NumericLiteral {
     pub fn to_decimal(&self) -> Option<Decimal> {
         match self {
             NumericLiteral::Integer(n) => Decimal::from_i128(*n),
-            NumericLiteral::Double(d) => Decimal::from_f64(*d),
+            NumericLiteral::Double(d) => decimal_from_float(*d, &d.to_string()),
             NumericLiteral::Decimal(d) => Some(*d),
             NumericLiteral::Long(l) => Decimal::from_i64(*l),
-            NumericLiteral::Float(f) => Decimal::from_f32(*f),
+            NumericLiteral::Float(f) => decimal_from_float(f64::from(*f), &f.to_string()),
             NumericLiteral::Byte(b) => Decimal::from_i8(*b),
             NumericLiteral::Short(s) => Decimal::from_i16(*s),
             NumericLiteral::Int(n) => Decimal::from_i32(*n),
@@ -245,7 +259,7 @@ impl NumericLiteral {
 
 /// ## Utility Methods
 impl NumericLiteral {
-    /// Value of the integer variants, if it fits in an `i128`.
+    /// Value of the integer variants and of whole floating point numbers, if it fits in an `i128`.
     fn to_i128(&self) -> Option<i128> {
         match self {
             NumericLiteral::Integer(n) | NumericLiteral::NegativeInteger(n) | NumericLiteral::NonPositiveInteger(n) => {
@@ -260,7 +274,9 @@ impl NumericLiteral {
             NumericLiteral::UnsignedInt(n) => Some(i128::from(*n)),
             NumericLiteral::UnsignedShort(n) => Some(i128::from(*n)),
             NumericLiteral::UnsignedByte(n) => Some(i128::from(*n)),
-            NumericLiteral::Decimal(_) | NumericLiteral::Double(_) | NumericLiteral::Float(_) => None,
+            NumericLiteral::Double(d) => whole_number(*d),
+            NumericLiteral::Float(f) => whole_number(f64::from(*f)),
+            NumericLiteral::Decimal(_) => None,
         }
     }
 
-- 
2.43.0


From 4acdc901704789e966730b9cff6867fbd3d6d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 059/110] fix: sorting literals that cannot be compared
 panicked and dates were compared by their lexical form

---
 .../src/rdf_core/term/literal/literal.rs      | 90 ++++++++++++++-----
 .../src/rdf_core/term/literal/xsd_datetime.rs | 21 ++++-
 rudof_rdf/src/rdf_core/term/triple.rs         | 28 ++++--
 rudof_rdf/src/rdf_core/vocabs/xsd.rs          |  1 +
 4 files changed, 110 insertions(+), 30 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index b49abad..de93079 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -153,11 +153,7 @@ pub trait Literal: Debug + Clone + Display + PartialEq + Eq + Hash {
 /// - Boolean literals follow `false < true`
 /// - Datetime literals are compared chronologically
 ///
-/// # Panics
-///
-/// The [`Ord`] implementation panics when comparing incomparable literals (e.g., NaN
-/// floating-point values or literals with different datatypes). Use [`PartialOrd`]
-/// when comparing arbitrary literals to avoid panics.
+/// The [`Ord`] implementation extends that order to all literals, so that they can be sorted.
 #[derive(PartialEq, Eq, Hash, Debug, Serialize, Deserialize, Clone)]
 #[allow(clippy::enum_variant_names)]
 pub enum ConcreteLiteral {
@@ -935,7 +931,7 @@ impl Default for ConcreteLiteral {
 ///   and are then compared by lexical form.
 /// - Numeric literals are compared by numeric value.
 /// - Boolean literals follow `true > false`.
-/// - Datetime literals are compared chronologically.
+/// - Datetime literals and dates are compared chronologically.
 ///
 /// If two literals are not comparable under these rules, `None` is returned.
 ///
@@ -970,7 +966,11 @@ impl PartialOrd for ConcreteLiteral {
                 },
             ) => match (check_literal_datatype(lf1, dt1), check_literal_datatype(lf2, dt2)) {
                 (Ok(Self::DatatypeLiteral { .. }), Ok(Self::DatatypeLiteral { .. })) if dt1 == dt2 => {
-                    Some(lf1.cmp(lf2))
+                    if dt1.get_iri().is_ok_and(|iri| iri.as_str() == XsdVocab::XSD_DATE) {
+                        self.date()?.partial_cmp(&other.date()?)
+                    } else {
+                        Some(lf1.cmp(lf2))
+                    }
                 },
                 (Ok(Self::DatatypeLiteral { .. }), _) | (_, Ok(Self::DatatypeLiteral { .. })) => None,
                 (Ok(l1), Ok(l2)) => l1.partial_cmp(&l2),
@@ -1001,24 +1001,70 @@ impl PartialOrd for ConcreteLiteral {
     }
 }
 
-/// Total ordering for literals.
-///
-/// # Panics
-///
-/// This implementation **panics** if two literals are not comparable, such as:
-/// - Literals with different datatypes
-/// - Numeric literals involving `NaN`
-///
-/// This is intended as a temporary solution to support sorting in validation
-/// workflows where such cases are not expected.
+/// Total ordering for literals, used for sorting.
 ///
-/// # TODO
-///
-/// Define a total ordering that is well-defined for *all* literals.
+/// It extends the partial order: literals that can be compared keep their order. The others are
+/// grouped by kind (numbers, strings, booleans, dates and times, other datatypes and finally wrong literals)
+/// and ordered by language tag, timezone, datatype or lexical form inside each group.
 impl Ord for ConcreteLiteral {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.partial_cmp(other)
-            .unwrap_or_else(|| panic!("Cannot compare literals {self} and {other}"))
+        let (a, b) = (self.sort_value(), other.sort_value());
+        a.sort_group().cmp(&b.sort_group()).then_with(|| match (&a, &b) {
+            (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1.total_cmp(dt2),
+            (
+                Self::DatatypeLiteral { datatype: dt1, .. } | Self::WrongDatatypeLiteral { datatype: dt1, .. },
+                Self::DatatypeLiteral { datatype: dt2, .. } | Self::WrongDatatypeLiteral { datatype: dt2, .. },
+            ) => dt1
+                .to_string()
+                .cmp(&dt2.to_string())
+                .then_with(|| match (a.date(), b.date()) {
+                    (Some(d1), Some(d2)) => d1.total_cmp(&d2),
+                    (d1, d2) => d2
+                        .is_some()
+                        .cmp(&d1.is_some())
+                        .then_with(|| a.lexical_form().cmp(&b.lexical_form())),
+                }),
+            _ => a
+                .lang()
+                .cmp(&b.lang())
+                .then_with(|| a.partial_cmp(&b).unwrap_or(std::cmp::Ordering::Equal)),
+        })
+    }
+}
+
+impl ConcreteLiteral {
+    /// The literal, with its value if it only keeps its lexical form
+    fn sort_value(&self) -> Self {
+        match self {
+            Self::DatatypeLiteral { lexical_form, datatype } => {
+                check_literal_datatype(lexical_form, datatype).unwrap_or_else(|_| self.clone())
+            },
+            _ => self.clone(),
+        }
+    }
+
+    /// First instant of a literal that is a date
+    fn date(&self) -> Option<XsdDateTime> {
+        match self {
+            Self::DatatypeLiteral { lexical_form, datatype } => datatype
+                .get_iri()
+                .is_ok_and(|iri| iri.as_str() == XsdVocab::XSD_DATE)
+                .then(|| XsdDateTime::from_date(lexical_form))?,
+            _ => None,
+        }
+    }
+
+    /// Position of the literals of a kind when they are sorted
+    fn sort_group(&self) -> u8 {
+        match self {
+            Self::NumericLiteral(n) if n.partial_cmp(n).is_some() => 0,
+            Self::NumericLiteral(_) => 1,
+            Self::StringLiteral { .. } => 2,
+            Self::BooleanLiteral(_) => 3,
+            Self::DatetimeLiteral(_) => 4,
+            Self::DatatypeLiteral { .. } => 5,
+            Self::WrongDatatypeLiteral { .. } => 6,
+        }
     }
 }
 
diff --git a/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs b/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs
index 3990fc4..8ba2654 100644
--- a/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/xsd_datetime.rs
@@ -1,7 +1,8 @@
 use core::fmt;
-use oxsdatatypes::DateTime;
+use oxsdatatypes::{Date, DateTime, TimezoneOffset};
 use serde::de::{self, Visitor};
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use std::cmp::Ordering;
 use std::str::FromStr;
 use thiserror::Error;
 
@@ -27,12 +28,30 @@ impl XsdDateTime {
             .map_err(XsdDateTimeParseError::InvalidDateTime)
     }
 
+    /// First instant of an XSD date, `None` if it is not a valid date.
+    pub fn from_date(value: &str) -> Option<Self> {
+        let value = DateTime::try_from(Date::from_str(value).ok()?).ok()?;
+        Some(Self { value })
+    }
+
     /// Returns a reference to the underlying `DateTime` value.
     #[inline]
     pub fn value(&self) -> &DateTime {
         &self.value
     }
 
+    /// Orders any two values: those without timezone are placed as if they were in UTC.
+    pub fn total_cmp(&self, other: &Self) -> Ordering {
+        let instant = |dt: &DateTime| match dt.timezone() {
+            Some(_) => Some(*dt),
+            None => dt.adjust(Some(TimezoneOffset::UTC)),
+        };
+        instant(&self.value)
+            .partial_cmp(&instant(&other.value))
+            .unwrap_or(Ordering::Equal)
+            .then_with(|| self.value.timezone().is_some().cmp(&other.value.timezone().is_some()))
+    }
+
     /// Consumes self and returns the underlying `DateTime` value.
     #[inline]
     pub fn into_inner(self) -> DateTime {
diff --git a/rudof_rdf/src/rdf_core/term/triple.rs b/rudof_rdf/src/rdf_core/term/triple.rs
index 94a217e..b07b5f6 100644
--- a/rudof_rdf/src/rdf_core/term/triple.rs
+++ b/rudof_rdf/src/rdf_core/term/triple.rs
@@ -525,15 +525,11 @@ impl PartialOrd for Object {
             (Object::Iri(a), Object::Iri(b)) => Some(a.cmp(b)),
             (Object::BlankNode(a), Object::BlankNode(b)) => Some(a.cmp(b)),
             (Object::Literal(a), Object::Literal(b)) => a.partial_cmp(b),
+            (Object::Triple { .. }, _) | (_, Object::Triple { .. }) => None,
             (Object::Iri(_), _) => Some(Ordering::Less),
             (Object::BlankNode(_), Object::Iri(_)) => Some(Ordering::Greater),
             (Object::BlankNode(_), Object::Literal(_)) => Some(Ordering::Less),
             (Object::Literal(_), _) => Some(Ordering::Greater),
-            (Object::BlankNode(_), Object::Triple { .. }) => None,
-            (Object::Triple { .. }, Object::Iri(_)) => None,
-            (Object::Triple { .. }, Object::BlankNode(_)) => None,
-            (Object::Triple { .. }, Object::Literal(_)) => None,
-            (Object::Triple { .. }, Object::Triple { .. }) => None,
         }
     }
 }
@@ -541,9 +537,27 @@ impl PartialOrd for Object {
 impl Ord for Object {
     /// Implements total ordering for objects according to RDF semantics.
     ///
-    /// If elements are not comparable, [`Ordering::Less`] is returned
+    /// It extends the partial order: literals that cannot be compared are ordered by
+    /// `ConcreteLiteral::cmp` and triples come after all other objects.
     fn cmp(&self, other: &Self) -> Ordering {
-        self.partial_cmp(other).unwrap_or(Ordering::Less)
+        match (self, other) {
+            (Object::Literal(a), Object::Literal(b)) => a.cmp(b),
+            (
+                Object::Triple {
+                    subject: s1,
+                    predicate: p1,
+                    object: o1,
+                },
+                Object::Triple {
+                    subject: s2,
+                    predicate: p2,
+                    object: o2,
+                },
+            ) => s1.cmp(s2).then_with(|| p1.cmp(p2)).then_with(|| o1.cmp(o2)),
+            (Object::Triple { .. }, _) => Ordering::Greater,
+            (_, Object::Triple { .. }) => Ordering::Less,
+            _ => self.partial_cmp(other).unwrap_or(Ordering::Equal),
+        }
     }
 }
 
diff --git a/rudof_rdf/src/rdf_core/vocabs/xsd.rs b/rudof_rdf/src/rdf_core/vocabs/xsd.rs
index 5b4746b..982fba7 100644
--- a/rudof_rdf/src/rdf_core/vocabs/xsd.rs
+++ b/rudof_rdf/src/rdf_core/vocabs/xsd.rs
@@ -11,6 +11,7 @@ impl RdfVocabulary for XsdVocab {
 vocab_term!(XsdVocab, XSD_BOOLEAN, "boolean");
 vocab_term!(XsdVocab, XSD_STRING, "string");
 vocab_term!(XsdVocab, XSD_DATE_TIME, "dateTime");
+vocab_term!(XsdVocab, XSD_DATE, "date");
 vocab_term!(XsdVocab, XSD_INTEGER, "integer");
 vocab_term!(XsdVocab, XSD_NEGATIVE_INTEGER, "negativeInteger");
 vocab_term!(XsdVocab, XSD_POSITIVE_INTEGER, "positiveInteger");
-- 
2.43.0


From baf403d61c25c9aa9ff16e3ce7b632b561b526ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:44 +0000
Subject: [PATCH 060/110] fix: names starting with a character of several bytes
 made the ShExC parser panic

---
 shex_ast/src/compact/shex_grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index aa94c12..98b1009 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -2156,7 +2156,7 @@ fn one_if<'a, F: Fn(char) -> bool>(f: F) -> impl Fn(Span<'a>) -> IRes<'a, Span<'
     move |i| {
         if let Some(c) = i.chars().next() {
             if f(c) {
-                Ok(i.take_split(1))
+                Ok(i.take_split(c.len_utf8()))
             } else {
                 Err(Err::Error(error_position!(i, ErrorKind::OneOf)))
             }
-- 
2.43.0


From 81d91db53866ab56625f6c9f063d9541d1d5e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:48 +0000
Subject: [PATCH 061/110] fix: escapes in local names were kept and local names
 and blank node labels could end with a dot

---
 shex_ast/src/compact/shex_grammar.rs | 61 +++++++++++-----------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 98b1009..464fe29 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -19,7 +19,7 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_while, take_while1},
     character::complete::{alpha1, alphanumeric1, char, digit0, digit1, none_of, one_of, satisfy},
-    combinator::{cut, map, map_res, opt, recognize},
+    combinator::{cut, map, map_res, opt, peek, recognize},
     error::ErrorKind,
     error_position,
     multi::{count, fold_many0, many0, many1},
@@ -1792,30 +1792,14 @@ fn is_pn_chars_u_digit(c: char) -> bool {
     is_digit(c) || is_pn_chars_u(c)
 }
 
-fn is_pn_chars_or_dot(c: char) -> bool {
-    c == '.' || is_pn_chars(c)
-}
-
 fn blank_node_label2(src: Span) -> IRes<()> {
-    match blank_node_label3(src) {
-        Ok((left, m)) => {
-            // if last is a '.', remove that
-            if m.ends_with('.') {
-                // TODO!!: Original parser had this:
-                // But I need to see how to remove the last character of left...
-                // Ok(((&src[m.len() - 1..]), ()))
-                tracing::error!("This code is pending review when the last is a '.' {left}");
-                Ok((left, ()))
-            } else {
-                Ok((left, ()))
-            }
-        },
-        Err(e) => Err(e),
-    }
+    map(blank_node_label3, |_| ()).parse(src)
 }
 
+/// A blank node label can contain dots, but it cannot end with one
 fn blank_node_label3(i: Span) -> IRes<Span> {
-    take_while(is_pn_chars_or_dot)(i)
+    let dots = (take_while1(|c| c == '.'), peek(satisfy(is_pn_chars)));
+    recognize(many0(alt((take_while1(is_pn_chars), recognize(dots))))).parse(i)
 }
 
 /// `[19t] <INTEGER> ::= [+-]? [0-9]+`
@@ -1879,7 +1863,20 @@ fn digits(i: Span) -> IRes<i128> {
 fn pname_ln(i: Span) -> IRes<IriRef> {
     // This code is different here: https://github.com/vandenoever/rome/blob/047cf54def2aaac75ac4b9adbef08a9d010689bd/src/io/turtle/grammar.rs#L293
     let (i, (prefix, local)) = (pname_ns, pn_local).parse(i)?;
-    Ok((i, IriRef::prefixed(*prefix.fragment(), local)))
+    Ok((i, IriRef::prefixed(*prefix.fragment(), unescape_local(local).as_str())))
+}
+
+/// Removes the backslashes of the PN_LOCAL_ESC sequences of a local name
+fn unescape_local(local: &str) -> String {
+    let mut chars = local.chars();
+    let mut r = String::new();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => r.extend(chars.next()),
+            _ => r.push(c),
+        }
+    }
+    r
 }
 
 /// `[77] <PN_LOCAL> ::= (PN_CHARS_U | ":" | [0-9] | PLX) (PN_CHARS | "." | ":" | PLX)`
@@ -1893,25 +1890,13 @@ fn is_pn_local_start(c: char) -> bool {
 }
 
 fn pn_local2(src: Span) -> IRes<()> {
-    match pn_local3(src) {
-        Ok((left, m)) => {
-            // if last is a '.', remove that
-            if m.ends_with('.') {
-                // TODO!!: Original parser had this:
-                // But I need to see how to remove the last character of left...
-                // Ok(((&src[m.len() - 1..]), ()))
-                tracing::error!("This code is pending review when the last is a '.' {left}");
-                Ok((left, ()))
-            } else {
-                Ok((left, ()))
-            }
-        },
-        Err(e) => Err(e),
-    }
+    map(pn_local3, |_| ()).parse(src)
 }
 
+/// A local name can contain dots, but it cannot end with one
 fn pn_local3(i: Span) -> IRes<Span> {
-    recognize(many0(alt((pn_chars_colon, plx, char_dot)))).parse(i)
+    let dots = (take_while1(|c| c == '.'), peek(alt((pn_chars_colon, plx))));
+    recognize(many0(alt((pn_chars_colon, plx, recognize(dots))))).parse(i)
 }
 
 fn pn_chars_colon(i: Span) -> IRes<Span> {
-- 
2.43.0


From e8455b8872b1a6d8f72539ea4aba7c4b04a6f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:52 +0000
Subject: [PATCH 062/110] fix: escapes that are no character made the ShExC
 parser panic

---
 shex_ast/src/compact/shex_grammar.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 464fe29..b508e84 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1424,13 +1424,15 @@ const REQUIRES_ESCAPE_SINGLE_QUOTE: &str = "\u{27}\u{5C}\u{0A}\u{0D}";
 /// `[26t] <UCHAR> ::= "\\u" HEX HEX HEX HEX`
 /// `          | "\\U" HEX HEX HEX HEX HEX HEX HEX HEX`
 fn uchar(i: Span) -> IRes<char> {
-    let (i, str) = recognize(alt((
+    let (rest, str) = recognize(alt((
         preceded(token(r"\u"), count(hex, 4)),
         preceded(token(r"\U"), count(hex, 8)),
     )))
     .parse(i)?;
-    let c = unescape_uchar(str.fragment()).unwrap();
-    Ok((i, c))
+    match unescape_uchar(str.fragment()) {
+        Ok(c) => Ok((rest, c)),
+        Err(_) => Err(Err::Error(error_position!(i, ErrorKind::Char))),
+    }
 }
 
 /// `[160s] <ECHAR> ::= "\\" [tbnrf\\\"\\']`
@@ -1981,6 +1983,9 @@ enum UCharError {
 
     #[error("No character after \\")]
     NoCharAfterBackSlash,
+
+    #[error("There is no character with code {code:X}")]
+    NoCharacter { code: u32 },
 }
 
 fn unescape_uchar(str: &str) -> Result<char, UCharError> {
@@ -2002,7 +2007,7 @@ fn unescape_uchar(str: &str) -> Result<char, UCharError> {
                 }
 
                 let u = u32::from_str_radix(&s, 16).unwrap();
-                r = char::from_u32(u).unwrap();
+                r = char::from_u32(u).ok_or(UCharError::NoCharacter { code: u })?;
             },
             Some('U') => {
                 let mut s = String::new();
@@ -2015,7 +2020,7 @@ fn unescape_uchar(str: &str) -> Result<char, UCharError> {
                 }
 
                 let u = u32::from_str_radix(&s, 16).unwrap();
-                r = char::from_u32(u).unwrap();
+                r = char::from_u32(u).ok_or(UCharError::NoCharacter { code: u })?;
             },
             Some(c) => return Err(UCharError::UnexpectedCharacterAfterBackSlash { c }),
             None => return Err(UCharError::NoCharAfterBackSlash),
-- 
2.43.0


From 8769fe757ae4e3f966c0a1243b55cb7724359ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 063/110] fix: quotes inside long strings ended the ShExC
 string

---
 shex_ast/src/compact/shex_grammar.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index b508e84..ced7591 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -19,7 +19,7 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_while, take_while1},
     character::complete::{alpha1, alphanumeric1, char, digit0, digit1, none_of, one_of, satisfy},
-    combinator::{cut, map, map_res, opt, peek, recognize},
+    combinator::{cut, map, map_res, not, opt, peek, recognize},
     error::ErrorKind,
     error_position,
     multi::{count, fold_many0, many0, many1},
@@ -1362,7 +1362,12 @@ fn single_quote_char<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, char> {
 fn string_literal_long1(i: Span) -> IRes<String> {
     let (i, chars) = delimited(
         token("'''"),
-        cut(many0(alt((none_of(r"'\"), echar, uchar)))),
+        cut(many0(alt((
+            none_of(r"'\"),
+            echar,
+            uchar,
+            preceded(not(tag("'''")), char('\'')),
+        )))),
         token("'''"),
     )
     .parse(i)?;
@@ -1374,7 +1379,12 @@ fn string_literal_long1(i: Span) -> IRes<String> {
 fn string_literal_long2(i: Span) -> IRes<String> {
     let (i, chars) = delimited(
         token(r#"""""#),
-        cut(many0(alt((none_of(r#""\"#), echar, uchar)))),
+        cut(many0(alt((
+            none_of(r#""\"#),
+            echar,
+            uchar,
+            preceded(not(tag(r#"""""#)), char('"')),
+        )))),
         token(r#"""""#),
     )
     .parse(i)?;
-- 
2.43.0


From 7e5b3fb1dbd7a82418140571c4fea929c16e5397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:00 +0000
Subject: [PATCH 064/110] fix: what was written after a bracketed triple
 expression replaced what was written inside

---
 shex_ast/src/compact/shex_grammar.rs | 54 ++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index ced7591..2afa015 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -779,7 +779,49 @@ fn unary_triple_expr_opt1(i: Span) -> IRes<TripleExpr> {
         alt((bracketed_triple_expr(), triple_constraint())),
     )
         .parse(i)?;
-    Ok((i, te.with_id(id)))
+    let te = match id {
+        None => te,
+        id if has_id(&te) => TripleExpr::each_of(vec![te]).with_id(id),
+        id => te.with_id(id),
+    };
+    Ok((i, te))
+}
+
+fn has_id(te: &TripleExpr) -> bool {
+    match te {
+        TripleExpr::EachOf { id, .. } | TripleExpr::OneOf { id, .. } | TripleExpr::TripleConstraint { id, .. } => {
+            id.is_some()
+        },
+        TripleExpr::Ref(_) => true,
+    }
+}
+
+/// Checks that a triple expression has no identifier, cardinality, annotations nor semantic actions
+fn is_plain(te: &TripleExpr) -> bool {
+    match te {
+        TripleExpr::EachOf {
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        }
+        | TripleExpr::OneOf {
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        }
+        | TripleExpr::TripleConstraint {
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        } => !has_id(te) && min.is_none() && max.is_none() && sem_acts.is_none() && annotations.is_none(),
+        TripleExpr::Ref(_) => false,
+    }
 }
 
 // From unary_triple_expr_opt1
@@ -804,7 +846,15 @@ fn bracketed_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
                 semantic_actions,
             )
                 .parse(i)?;
-            let mut te = te;
+            if maybe_card.is_none() && annotations.is_empty() && sem_acts.is_none() {
+                return Ok((i, te));
+            }
+            // What is said about the bracket must not replace what was said about the expression inside it
+            let mut te = if is_plain(&te) {
+                te
+            } else {
+                TripleExpr::each_of(vec![te])
+            };
             if let Some(card) = maybe_card {
                 te = te.with_min(card.min());
                 te = te.with_max(card.max());
-- 
2.43.0


From 667c6b5bbd2613f7c01714140734da1d626d89ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 065/110] fix: CLOSED, EXTRA and the numeric facets of ShExC
 were case sensitive

---
 shex_ast/src/compact/shex_grammar.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 2afa015..5a2ce76 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -538,8 +538,8 @@ fn numeric_length_int<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, XsFacet> {
 
 fn numeric_length(i: Span) -> IRes<NumericLength> {
     alt((
-        map(token_tws("TOTALDIGITS"), |_| NumericLength::TotalDigits),
-        map(token_tws("FRACTIONDIGITS"), |_| NumericLength::FractionDigits),
+        map(token_tws_no_case("TOTALDIGITS"), |_| NumericLength::TotalDigits),
+        map(token_tws_no_case("FRACTIONDIGITS"), |_| NumericLength::FractionDigits),
     ))
     .parse(i)
 }
@@ -547,10 +547,10 @@ fn numeric_length(i: Span) -> IRes<NumericLength> {
 /// `[31] numericRange ::= "MININCLUSIVE" | "MINEXCLUSIVE" | "MAXINCLUSIVE" | "MAXEXCLUSIVE"`
 fn numeric_range(i: Span) -> IRes<NumericRange> {
     alt((
-        map(token_tws("MININCLUSIVE"), |_| NumericRange::MinInclusive),
-        map(token_tws("MAXINCLUSIVE"), |_| NumericRange::MaxInclusive),
-        map(token_tws("MINEXCLUSIVE"), |_| NumericRange::MinExclusive),
-        map(token_tws("MAXEXCLUSIVE"), |_| NumericRange::MaxExclusive),
+        map(token_tws_no_case("MININCLUSIVE"), |_| NumericRange::MinInclusive),
+        map(token_tws_no_case("MAXINCLUSIVE"), |_| NumericRange::MaxInclusive),
+        map(token_tws_no_case("MINEXCLUSIVE"), |_| NumericRange::MinExclusive),
+        map(token_tws_no_case("MAXEXCLUSIVE"), |_| NumericRange::MaxExclusive),
     ))
     .parse(i)
 }
@@ -672,7 +672,7 @@ fn extension<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
 fn closed<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
     map_error(
         move |i| {
-            let (i, _) = token_tws("CLOSED")(i)?;
+            let (i, _) = token_tws_no_case("CLOSED")(i)?;
             Ok((i, Qualifier::Closed))
         },
         || ShExParseError::ExpectedClosed,
@@ -683,7 +683,7 @@ fn closed<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
 fn extra_property_set<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Qualifier> {
     map_error(
         move |i| {
-            let (i, (_, ps)) = (token_tws("EXTRA"), cut(many1((predicate, tws0)))).parse(i)?;
+            let (i, (_, ps)) = (token_tws_no_case("EXTRA"), cut(many1((predicate, tws0)))).parse(i)?;
             let ps = ps.into_iter().map(|(p, _)| p).collect();
             Ok((i, Qualifier::Extra(ps)))
         },
-- 
2.43.0


From 0d5851e0fd150d74879300189ebb203abace8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:08 +0000
Subject: [PATCH 066/110] fix: EXTENDS in an inline shape panicked

---
 shex_ast/src/compact/shex_grammar.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 5a2ce76..dd0f726 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -619,11 +619,10 @@ fn inline_shape_definition(i: Span) -> IRes<ShapeExpr> {
         None
     };
     let mut extra = Vec::new();
+    let mut extends = Vec::new();
     for q in qualifiers {
         match q {
-            Qualifier::Extends(_) => {
-                todo!()
-            },
+            Qualifier::Extends(label) => extends.push(label),
             Qualifier::Closed => {},
             Qualifier::Extra(ps) => {
                 for p in ps {
@@ -633,7 +632,11 @@ fn inline_shape_definition(i: Span) -> IRes<ShapeExpr> {
         }
     }
     let maybe_extra = if extra.is_empty() { None } else { Some(extra) };
-    Ok((i, ShapeExpr::shape(Shape::new(closed, maybe_extra, maybe_triple_expr))))
+    let maybe_extends = if extends.is_empty() { None } else { Some(extends) };
+    Ok((
+        i,
+        ShapeExpr::shape(Shape::new(closed, maybe_extra, maybe_triple_expr).with_extends(maybe_extends)),
+    ))
 }
 
 fn maybe_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Option<TripleExpr>> {
-- 
2.43.0


From 8d1f9078ed9e2b38b38b582a027ea28eb82115e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:11 +0000
Subject: [PATCH 067/110] fix: literals of triple patterns in shape maps were
 not written as SPARQL literals

---
 shex_ast/src/shapemap/node_selector.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/shapemap/node_selector.rs b/shex_ast/src/shapemap/node_selector.rs
index 64b332d..d039815 100644
--- a/shex_ast/src/shapemap/node_selector.rs
+++ b/shex_ast/src/shapemap/node_selector.rs
@@ -141,13 +141,30 @@ fn mk_vble(p: &Pattern, prefixmap: &PrefixMap) -> Result<String, PrefixMapError>
                 let iri = prefixmap.resolve_iriref(iri_ref.clone())?;
                 Ok(format!("<{iri}>"))
             },
-            ObjectValue::Literal(sliteral) => Ok(sliteral.to_string()),
+            ObjectValue::Literal(sliteral) => mk_literal(sliteral, prefixmap),
         },
         Pattern::Wildcard => Ok("?any".to_string()),
         Pattern::Focus => Ok("?focus".to_string()),
     }
 }
 
+/// Writes a literal as a SPARQL literal. The queries have no prefix declarations, so datatypes are written as full IRIs
+fn mk_literal(literal: &ConcreteLiteral, prefixmap: &PrefixMap) -> Result<String, PrefixMapError> {
+    let lexical_form = literal
+        .lexical_form()
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('\n', "\\n")
+        .replace('\r', "\\r");
+    match literal.lang() {
+        Some(lang) => Ok(format!("\"{lexical_form}\"@{lang}")),
+        None => {
+            let datatype = prefixmap.resolve_iriref(literal.datatype())?;
+            Ok(format!("\"{lexical_form}\"^^<{datatype}>"))
+        },
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum NodeSelectorError {}
 
-- 
2.43.0


From 1c59d424c76369f77699a10454eb1029f302bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:22 +0000
Subject: [PATCH 068/110] fix: patterns whose last character was an escaped
 backslash made the ShExC parser panic

---
 shex_ast/src/compact/shex_grammar.rs | 59 +++-------------------------
 1 file changed, 5 insertions(+), 54 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index dd0f726..a480e67 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1714,62 +1714,9 @@ fn regexp(i: Span) -> IRes<Pattern> {
     } else {
         Some(flags.to_string())
     };
-    let str = unescape_pattern(&str);
     Ok((i, Pattern { str, flags }))
 }
 
-/// unescape characters in pattern strings
-fn unescape_pattern(str: &str) -> String {
-    let non_escaped = [
-        'n', 'r', 't', '\\', '|', '.', '?', '*', '+', '(', ')', '{', '}', '$', '-', '[', ']', '^',
-    ];
-    let mut queue: VecDeque<_> = str.chars().collect();
-    let mut r = String::new();
-    while let Some(c) = queue.pop_front() {
-        if c != '\\' {
-            r.push(c);
-            continue;
-        }
-        match queue.pop_front() {
-            Some(c) if non_escaped.contains(&c) => {
-                r.push('\\');
-                r.push(c)
-            },
-            Some('u') => {
-                let mut s = String::new();
-                for _ in 0..4 {
-                    if let Some(c) = queue.pop_front() {
-                        s.push(c)
-                    } else {
-                        panic!("unescape_pattern: \\u is not followed by 4 chars")
-                    }
-                }
-
-                let u = u32::from_str_radix(&s, 16).unwrap();
-                let c = char::from_u32(u).unwrap();
-                r.push(c)
-            },
-            Some('U') => {
-                let mut s = String::new();
-                for _ in 0..8 {
-                    if let Some(c) = queue.pop_front() {
-                        s.push(c)
-                    } else {
-                        panic!("unescape_pattern: \\u is not followed by 8 chars")
-                    }
-                }
-
-                let u = u32::from_str_radix(&s, 16).unwrap();
-                let c = char::from_u32(u).unwrap();
-                r.push(c)
-            },
-            Some(c) => r.push(c),
-            None => panic!("unescape pattern. No more characters after \\"),
-        }
-    }
-    r
-}
-
 /// [72b] from [72] pattern = ([^/\\\n\r] | '\\' [nrt\\|.?*+(){}$-\[\]^/] | UCHAR) +
 fn pattern(i: Span) -> IRes<String> {
     let (i, chars) = many1(alt((
@@ -1785,7 +1732,11 @@ fn pattern(i: Span) -> IRes<String> {
 /// from [72b] escaped_pattern = '\\' [nrt\\|.?*+(){}$-\[\]^/]
 fn escaped_pattern(i: Span) -> IRes<Vec<char>> {
     let (i, c) = preceded(token(r"\"), one_of(r#"nrt\|.?*+(){}$-[]^/"#)).parse(i)?;
-    Ok((i, vec!['\\', c]))
+    match c {
+        // The slash is only escaped because it ends the pattern
+        '/' => Ok((i, vec![c])),
+        _ => Ok((i, vec!['\\', c])),
+    }
 }
 
 /// Characters requiring escape sequences in patterns
-- 
2.43.0


From 6fd964e60589ec3af3b74b648b29aac50a971c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 069/110] fix: ShExC written from a schema did not read back as
 the same schema

---
 shex_ast/src/compact/compact_printer.rs      | 121 +++--
 shex_ast/src/compact/shex_compact_printer.rs | 513 +++++++++++--------
 shex_ast/src/compact/shex_grammar.rs         |   7 +
 3 files changed, 399 insertions(+), 242 deletions(-)

diff --git a/shex_ast/src/compact/compact_printer.rs b/shex_ast/src/compact/compact_printer.rs
index 58bec87..af4776a 100644
--- a/shex_ast/src/compact/compact_printer.rs
+++ b/shex_ast/src/compact/compact_printer.rs
@@ -1,3 +1,4 @@
+use crate::compact::shex_grammar::is_plain_local_name;
 use crate::{BNode, ShapeExprLabel, object_value::ObjectValue};
 use colored::*;
 use prefixmap::{IriRef, PrefixMap};
@@ -13,14 +14,87 @@ pub(crate) fn pp_object_value<'a, A>(
 ) -> DocBuilder<'a, Arena<'a, A>, A> {
     match v {
         ObjectValue::IriRef(i) => pp_iri_ref(i, doc, prefixmap),
-        ObjectValue::Literal(ConcreteLiteral::BooleanLiteral(_value)) => {
-            todo!()
+        ObjectValue::Literal(literal) => doc.text(literal_text(literal, prefixmap)),
+    }
+}
+
+/// Text of a literal such that parsing it gives the same literal
+pub(crate) fn literal_text(literal: &ConcreteLiteral, prefixmap: &PrefixMap) -> String {
+    match literal {
+        ConcreteLiteral::StringLiteral { lexical_form, lang } => match lang {
+            Some(lang) => format!("{}@{lang}", quoted(lexical_form)),
+            None => quoted(lexical_form),
+        },
+        ConcreteLiteral::BooleanLiteral(value) => value.to_string(),
+        ConcreteLiteral::NumericLiteral(num) => numeric_literal_text(num, prefixmap),
+        ConcreteLiteral::DatatypeLiteral { .. }
+        | ConcreteLiteral::WrongDatatypeLiteral { .. }
+        | ConcreteLiteral::DatetimeLiteral(_) => {
+            typed_literal_text(&literal.lexical_form(), &literal.datatype(), prefixmap)
+        },
+    }
+}
+
+fn typed_literal_text(lexical_form: &str, datatype: &IriRef, prefixmap: &PrefixMap) -> String {
+    format!("{}^^{}", quoted(lexical_form), iri_ref_text(datatype, prefixmap))
+}
+
+fn numeric_literal_text(num: &NumericLiteral, prefixmap: &PrefixMap) -> String {
+    match num {
+        NumericLiteral::Integer(_) | NumericLiteral::Decimal(_) => raw_number_text(num),
+        NumericLiteral::Double(d) if d.is_finite() => raw_number_text(num),
+        _ => {
+            let datatype = IriRef::iri(IriS::new_unchecked(num.datatype()));
+            typed_literal_text(&num.lexical_form(), &datatype, prefixmap)
+        },
+    }
+}
+
+/// Text of a number without quotes nor datatype
+pub(crate) fn raw_number_text(num: &NumericLiteral) -> String {
+    match num {
+        NumericLiteral::Decimal(decimal) => {
+            let s = decimal.to_string();
+            if s.contains('.') { s } else { format!("{s}.0") }
+        },
+        NumericLiteral::Double(d) => format!("{d:e}"),
+        NumericLiteral::Float(f) => format!("{f:e}"),
+        _ => num.lexical_form(),
+    }
+}
+
+/// Text of a string between double quotes
+pub(crate) fn quoted(str: &str) -> String {
+    let mut r = String::from("\"");
+    for c in str.chars() {
+        match c {
+            '"' => r.push_str("\\\""),
+            '\\' => r.push_str("\\\\"),
+            '\n' => r.push_str("\\n"),
+            '\r' => r.push_str("\\r"),
+            '\t' => r.push_str("\\t"),
+            c => r.push(c),
+        }
+    }
+    r.push('"');
+    r
+}
+
+/// Text of an IRI: a prefixed name if there is an alias for it and its local name needs no escapes
+pub(crate) fn iri_text(iri: &IriS, prefixmap: &PrefixMap) -> String {
+    match prefixmap.qualify_local(iri) {
+        Some(local) if is_plain_local_name(&local) => prefixmap.qualify(iri),
+        _ => format!("<{iri}>"),
+    }
+}
+
+pub(crate) fn iri_ref_text(iri_ref: &IriRef, prefixmap: &PrefixMap) -> String {
+    match iri_ref {
+        IriRef::Iri(iri) => iri_text(iri, prefixmap),
+        IriRef::Prefixed { prefix, local } => match prefixmap.resolve_iriref(iri_ref.clone()) {
+            Ok(iri) if !is_plain_local_name(local) => format!("<{iri}>"),
+            _ => format!("{prefix}:{local}"),
         },
-        ObjectValue::Literal(ConcreteLiteral::NumericLiteral(num)) => pp_numeric_literal(num, doc),
-        ObjectValue::Literal(ConcreteLiteral::DatatypeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::WrongDatatypeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::DatetimeLiteral { .. }) => todo!(),
-        ObjectValue::Literal(ConcreteLiteral::StringLiteral { .. }) => todo!(),
     }
 }
 
@@ -41,35 +115,8 @@ pub(crate) fn pp_bnode<'a, A>(value: &BNode, doc: &'a Arena<'a, A>) -> DocBuilde
     doc.text(format!("{value}"))
 }
 
-fn pp_numeric_literal<'a, A>(value: &NumericLiteral, doc: &'a Arena<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
-    match value {
-        NumericLiteral::Integer(n) => doc.text(n.to_string()),
-        NumericLiteral::Decimal(decimal) => doc.text(decimal.to_string()),
-        NumericLiteral::Double(d) => doc.text(d.to_string()),
-        NumericLiteral::Long(l) => doc.text(l.to_string()),
-        NumericLiteral::Float(n) => doc.text(n.to_string()),
-        NumericLiteral::Byte(n) => doc.text(n.to_string()),
-        NumericLiteral::Short(n) => doc.text(n.to_string()),
-        NumericLiteral::Int(n) => doc.text(n.to_string()),
-        NumericLiteral::NonNegativeInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedLong(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedInt(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedShort(n) => doc.text(n.to_string()),
-        NumericLiteral::UnsignedByte(n) => doc.text(n.to_string()),
-        NumericLiteral::PositiveInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::NegativeInteger(n) => doc.text(n.to_string()),
-        NumericLiteral::NonPositiveInteger(n) => doc.text(n.to_string()),
-    }
-}
-
 fn pp_iri_ref<'a, A>(value: &IriRef, doc: &'a Arena<'a, A>, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
-    match value {
-        IriRef::Iri(iri) => pp_iri(iri, doc, prefixmap),
-        IriRef::Prefixed { prefix, local } => doc
-            .text(prefix.clone())
-            .append(doc.text(":"))
-            .append(doc.text(local.clone())),
-    }
+    doc.text(iri_ref_text(value, prefixmap))
 }
 
 pub(crate) fn keyword<'a, U, A>(s: U, doc: &'a Arena<'a, A>, color: Option<Color>) -> DocBuilder<'a, Arena<'a, A>, A>
@@ -88,7 +135,3 @@ where
         doc.text(s)
     }
 }
-
-fn pp_iri<'a, A>(iri: &IriS, doc: &'a Arena<'a, A>, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
-    doc.text(prefixmap.qualify(iri))
-}
diff --git a/shex_ast/src/compact/shex_compact_printer.rs b/shex_ast/src/compact/shex_compact_printer.rs
index 0a41a31..77dc886 100644
--- a/shex_ast/src/compact/shex_compact_printer.rs
+++ b/shex_ast/src/compact/shex_compact_printer.rs
@@ -1,22 +1,22 @@
 /// This file converts ShEx AST to ShEx compact syntax
 use crate::{
-    IriOrStr,
+    IriOrStr, LangOrWildcard,
     ast::{
         Annotation, BNode, NodeConstraint, NodeKind, NumericFacet, ObjectValue, Pattern, Schema, SemAct, Shape,
-        ShapeDecl, ShapeExpr, ShapeExprLabel, StringFacet, TripleExpr, XsFacet, value_set_value::ValueSetValue,
+        ShapeDecl, ShapeExpr, ShapeExprLabel, StringFacet, TripleExpr, TripleExprLabel, TripleExprWrapper, XsFacet,
+        iri_exclusion::IriExclusion, iri_ref_or_wildcard::IriRefOrWildcard, language_exclusion::LanguageExclusion,
+        literal_exclusion::LiteralExclusion, string_or_wildcard::StringOrWildcard, value_set_value::ValueSetValue,
     },
+    compact::compact_printer::{iri_ref_text, literal_text, quoted, raw_number_text},
 };
 use colored::*;
 use prefixmap::{IriRef, PrefixMap};
 use pretty::{Arena, DocAllocator, DocBuilder, RefDoc};
 use rudof_iri::IriS;
-use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang, NumericLiteral};
-use rust_decimal::Decimal;
+use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang};
 use std::{borrow::Cow, io, marker::PhantomData};
 use tracing::trace;
 
-use crate::pp_object_value;
-
 /// Struct that can be used to pretty print ShEx schemas
 ///
 /// Example:
@@ -253,7 +253,13 @@ where
     }
 
     fn pp_shape_decl(&self, sd: &ShapeDecl) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.pp_label(&sd.id)
+        let is_abstract = if sd.is_abstract {
+            self.keyword("ABSTRACT ")
+        } else {
+            self.doc.nil()
+        };
+        is_abstract
+            .append(self.pp_label(&sd.id))
             .append(self.space())
             .append(self.pp_shape_expr(&sd.shape_expr))
     }
@@ -280,7 +286,7 @@ where
                 trace!("Displaying ShapeExpr::ShapeAnd");
                 let mut docs = Vec::new();
                 for sew in shape_exprs {
-                    docs.push(self.pp_shape_expr(&sew.se))
+                    docs.push(self.pp_operand(&sew.se))
                 }
                 self.doc
                     .intersperse(docs, self.keyword(" AND "))
@@ -290,7 +296,7 @@ where
             ShapeExpr::ShapeOr { shape_exprs } => {
                 let mut docs = Vec::new();
                 for sew in shape_exprs {
-                    docs.push(self.pp_shape_expr(&sew.se))
+                    docs.push(self.pp_operand(&sew.se))
                 }
                 self.doc
                     .intersperse(docs, self.keyword(" OR "))
@@ -301,10 +307,28 @@ where
                 .doc
                 .nil()
                 .append(self.keyword("NOT "))
-                .append(self.pp_shape_expr(&shape_expr.se)),
+                .append(self.pp_operand(&shape_expr.se)),
+        }
+    }
+
+    /// Prints an operand of AND, OR or NOT
+    fn pp_operand(&self, se: &ShapeExpr) -> DocBuilder<'a, Arena<'a, A>, A> {
+        let brackets = match se {
+            ShapeExpr::ShapeAnd { .. } | ShapeExpr::ShapeOr { .. } | ShapeExpr::ShapeNot { .. } => true,
+            ShapeExpr::NodeConstraint(nc) => node_constraint_groups(nc).len() > 1,
+            _ => false,
+        };
+        if brackets {
+            self.brackets(self.pp_shape_expr(se))
+        } else {
+            self.pp_shape_expr(se)
         }
     }
 
+    fn brackets(&self, doc: DocBuilder<'a, Arena<'a, A>, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
+        self.doc.text("(").append(doc).append(self.doc.text(")"))
+    }
+
     fn space(&self) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.space()
     }
@@ -328,6 +352,7 @@ where
             .append(self.doc.line())
             .append(self.doc.text("}"))
             .append(annotations)
+            .append(self.opt_pp1(&s.sem_acts, self.pp_sem_acts()))
             .group()
     }
 
@@ -337,15 +362,15 @@ where
         move |vs, printer| {
             let mut docs = Vec::new();
             for v in vs {
-                docs.push(printer.pp_reference(v))
+                docs.push(
+                    printer
+                        .keyword("EXTENDS")
+                        .append(printer.space())
+                        .append(printer.pp_reference(v))
+                        .append(printer.space()),
+                )
             }
-            printer
-                .doc
-                .nil()
-                .append(printer.keyword("EXTENDS"))
-                .append(printer.space())
-                .append(printer.doc.intersperse(docs, printer.doc.space()))
-                .append(printer.space())
+            printer.doc.concat(docs)
         }
     }
 
@@ -369,18 +394,53 @@ where
         &self,
     ) -> impl Fn(&TripleExpr, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> + '_ {
         move |te, printer| match te {
-            TripleExpr::EachOf { expressions, .. } => {
-                let mut docs = Vec::new();
-                for e in expressions {
-                    let pp_te = printer.pp_triple_expr()(&e.te, printer);
-                    docs.push(pp_te)
-                }
-                printer
-                    .doc
-                    .intersperse(docs, printer.doc.text(";").append(printer.doc.line()))
-            },
-            TripleExpr::OneOf { .. } => todo!(),
+            TripleExpr::EachOf { expressions, .. } if is_undecorated(te) => printer.pp_each_of(expressions),
+            TripleExpr::OneOf { expressions, .. } if is_undecorated(te) => printer.pp_one_of(expressions),
+            te => printer.pp_unary_triple_expr(te),
+        }
+    }
+
+    fn pp_each_of(&self, expressions: &[TripleExprWrapper]) -> DocBuilder<'a, Arena<'a, A>, A> {
+        let docs: Vec<_> = expressions.iter().map(|e| self.pp_unary_triple_expr(&e.te)).collect();
+        self.doc.intersperse(docs, self.doc.text(";").append(self.doc.line()))
+    }
+
+    fn pp_one_of(&self, expressions: &[TripleExprWrapper]) -> DocBuilder<'a, Arena<'a, A>, A> {
+        let docs: Vec<_> = expressions.iter().map(|e| self.pp_unary_triple_expr(&e.te)).collect();
+        self.doc.intersperse(docs, self.doc.line().append(self.doc.text("| ")))
+    }
+
+    /// Prints a triple constraint, a reference or a group between brackets
+    fn pp_unary_triple_expr(&self, te: &TripleExpr) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match te {
+            TripleExpr::EachOf {
+                id,
+                expressions,
+                min,
+                max,
+                sem_acts,
+                annotations,
+            } => self
+                .opt_pp1(id, self.pp_triple_expr_id())
+                .append(self.brackets(self.pp_each_of(expressions)))
+                .append(self.pp_cardinality(min, max))
+                .append(self.opt_pp1(annotations, self.pp_annotations()))
+                .append(self.opt_pp1(sem_acts, self.pp_sem_acts())),
+            TripleExpr::OneOf {
+                id,
+                expressions,
+                min,
+                max,
+                sem_acts,
+                annotations,
+            } => self
+                .opt_pp1(id, self.pp_triple_expr_id())
+                .append(self.brackets(self.pp_one_of(expressions)))
+                .append(self.pp_cardinality(min, max))
+                .append(self.opt_pp1(annotations, self.pp_annotations()))
+                .append(self.opt_pp1(sem_acts, self.pp_sem_acts())),
             TripleExpr::TripleConstraint {
+                id,
                 negated,
                 inverse,
                 predicate,
@@ -389,25 +449,42 @@ where
                 max,
                 sem_acts,
                 annotations,
-                ..
             } => {
                 let doc_expr = match value_expr {
-                    Some(se) => printer.pp_shape_expr(se),
-                    None => printer.doc.text("."),
+                    Some(se) if needs_brackets(se) => self.brackets(self.pp_shape_expr(se)),
+                    Some(se) => self.pp_shape_expr(se),
+                    None => self.doc.text("."),
                 };
-                printer
-                    .doc
-                    .nil()
+                self.opt_pp1(id, self.pp_triple_expr_id())
                     .append(self.pp_negated(negated))
                     .append(self.pp_inverse(inverse))
                     .append(self.pp_iri_ref(predicate))
                     .append(self.doc.space())
                     .append(doc_expr)
                     .append(self.pp_cardinality(min, max))
-                    .append(self.opt_pp1(sem_acts, self.pp_actions()))
                     .append(self.opt_pp1(annotations, self.pp_annotations()))
+                    .append(self.opt_pp1(sem_acts, self.pp_sem_acts()))
             },
-            TripleExpr::Ref(_) => todo!(),
+            TripleExpr::Ref(label) => self.doc.text("&").append(self.pp_triple_expr_label(label)),
+        }
+    }
+
+    fn pp_triple_expr_id(
+        &self,
+    ) -> impl Fn(&TripleExprLabel, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
+        move |label, printer| {
+            printer
+                .doc
+                .text("$")
+                .append(printer.pp_triple_expr_label(label))
+                .append(printer.space())
+        }
+    }
+
+    fn pp_triple_expr_label(&self, label: &TripleExprLabel) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match label {
+            TripleExprLabel::IriRef { value } => self.pp_iri_ref(value),
+            TripleExprLabel::BNode { value } => self.pp_bnode(value),
         }
     }
 
@@ -433,30 +510,11 @@ where
             (Some(0), Some(1)) => self.doc.space().append(self.doc.text("?")),
             (Some(0), Some(-1)) => self.doc.space().append(self.doc.text("*")),
             (Some(1), Some(-1)) => self.doc.space().append(self.doc.text("+")),
-            (Some(1), None) => self.doc.space().append(self.doc.text("+")),
-            (Some(m), Some(n)) => self.doc.space().append(
-                self.enclose_space(
-                    "{",
-                    self.doc
-                        .text(m.to_string())
-                        .append(self.doc.text(","))
-                        .append(self.doc.text(n.to_string())),
-                    "}",
-                ),
-            ),
-            (Some(m), None) => self
-                .doc
-                .space()
-                .append(self.doc.text("{"))
-                .append(self.doc.text(m.to_string()))
-                .append(self.doc.text(",}")),
-            (None, Some(-1)) => self.doc.space().append(self.doc.text("*")),
-            (None, Some(n)) => self
-                .doc
-                .space()
-                .append(self.doc.text("{,"))
-                .append(self.doc.text(n.to_string()))
-                .append(self.doc.text("}")),
+            (Some(m), Some(-1)) => self.doc.space().append(self.doc.text(format!("{{{m},}}"))),
+            (Some(m), Some(n)) => self.doc.space().append(self.doc.text(format!("{{{m},{n}}}"))),
+            // A bound that is not given is 1
+            (Some(m), None) => self.pp_cardinality(&Some(*m), &Some(1)),
+            (None, Some(n)) => self.pp_cardinality(&Some(1), &Some(*n)),
             (None, None) => self.doc.nil(),
         }
     }
@@ -472,6 +530,7 @@ where
                 .nil()
                 .append(printer.keyword("EXTRA "))
                 .append(printer.doc.intersperse(docs, printer.doc.space()))
+                .append(printer.space())
         }
     }
 
@@ -494,31 +553,16 @@ where
 
     fn pp_literal(&self, literal: &ConcreteLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
         match literal {
-            ConcreteLiteral::StringLiteral { lexical_form, lang } => self.pp_string_literal(lexical_form, lang),
-            ConcreteLiteral::DatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-            } => todo!(),
-            ConcreteLiteral::WrongDatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-                error: _,
-            } => todo!(),
-            ConcreteLiteral::NumericLiteral(lit) => self.pp_numeric_literal(lit),
-            ConcreteLiteral::BooleanLiteral(_) => todo!(),
-            ConcreteLiteral::DatetimeLiteral(_xsd_date_time) => todo!(),
-        }
-    }
-
-    fn pp_string_literal(&self, lexical_form: &str, lang: &Option<Lang>) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match lang {
-            Some(_) => todo!(),
-            None => self.pp_string(lexical_form),
+            ConcreteLiteral::StringLiteral { lexical_form, lang } => match lang {
+                Some(lang) => self.pp_string(lexical_form).append(format!("@{lang}")),
+                None => self.pp_string(lexical_form),
+            },
+            literal => self.doc.text(literal_text(literal, &self.prefixmap)),
         }
     }
 
     fn pp_string(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
-        let s = format!("\"{str}\"");
+        let s = quoted(str);
         if let Some(color) = self.string_color {
             self.doc.text(s.as_str().color(color).to_string())
         } else {
@@ -527,10 +571,20 @@ where
     }
 
     fn pp_node_constraint(&self, nc: &NodeConstraint) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.opt_pp(nc.node_kind(), self.pp_node_kind())
-            .append(self.opt_pp(nc.datatype(), self.pp_datatype()))
-            .append(self.opt_pp(nc.values(), self.pp_value_set()))
-            .append(self.opt_pp(nc.xs_facet(), self.pp_xsfacets()))
+        let docs: Vec<_> = node_constraint_groups(nc)
+            .iter()
+            .map(|nc| {
+                self.opt_pp(nc.node_kind(), self.pp_node_kind())
+                    .append(self.opt_pp(nc.datatype(), self.pp_datatype()))
+                    .append(self.opt_pp(nc.values(), self.pp_value_set()))
+                    .append(self.opt_pp(nc.xs_facet(), self.pp_xsfacets()))
+            })
+            .collect();
+        if docs.is_empty() {
+            self.doc.text(".")
+        } else {
+            self.doc.intersperse(docs, self.keyword(" AND "))
+        }
     }
 
     fn pp_node_kind(&self) -> impl Fn(&NodeKind, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
@@ -581,37 +635,37 @@ where
     fn pp_numericfacet(&self, nf: &NumericFacet) -> DocBuilder<'a, Arena<'a, A>, A> {
         match nf {
             NumericFacet::FractionDigits(fd) => self
-                .keyword("FractionDigits")
+                .keyword("FRACTIONDIGITS")
                 .append(self.space())
                 .append(self.pp_usize(fd)),
             NumericFacet::TotalDigits(td) => self
-                .keyword("TotalDigits")
+                .keyword("TOTALDIGITS")
                 .append(self.space())
                 .append(self.pp_usize(td)),
             NumericFacet::MinInclusive(m) => self
-                .keyword("MinInclusive")
+                .keyword("MININCLUSIVE")
                 .append(self.space())
-                .append(self.pp_numeric_literal(m)),
+                .append(self.doc.text(raw_number_text(m))),
             NumericFacet::MaxInclusive(m) => self
-                .keyword("MaxInclusive")
+                .keyword("MAXINCLUSIVE")
                 .append(self.space())
-                .append(self.pp_numeric_literal(m)),
+                .append(self.doc.text(raw_number_text(m))),
             NumericFacet::MinExclusive(m) => self
-                .keyword("MinExclusive")
+                .keyword("MINEXCLUSIVE")
                 .append(self.space())
-                .append(self.pp_numeric_literal(m)),
+                .append(self.doc.text(raw_number_text(m))),
             NumericFacet::MaxExclusive(m) => self
-                .keyword("MaxExclusive")
+                .keyword("MAXEXCLUSIVE")
                 .append(self.space())
-                .append(self.pp_numeric_literal(m)),
+                .append(self.doc.text(raw_number_text(m))),
         }
     }
 
     fn pp_stringfacet(&self, sf: &StringFacet) -> DocBuilder<'a, Arena<'a, A>, A> {
         match sf {
-            StringFacet::Length(l) => self.keyword("Length").append(self.space()).append(self.pp_usize(l)),
-            StringFacet::MinLength(l) => self.keyword("MinLength").append(self.space()).append(self.pp_usize(l)),
-            StringFacet::MaxLength(l) => self.keyword("MaxLength").append(self.space()).append(self.pp_usize(l)),
+            StringFacet::Length(l) => self.keyword("LENGTH").append(self.space()).append(self.pp_usize(l)),
+            StringFacet::MinLength(l) => self.keyword("MINLENGTH").append(self.space()).append(self.pp_usize(l)),
+            StringFacet::MaxLength(l) => self.keyword("MAXLENGTH").append(self.space()).append(self.pp_usize(l)),
             StringFacet::Pattern(pat) => self.pp_pattern(pat),
         }
     }
@@ -621,8 +675,7 @@ where
             Some(flags) => flags.clone(),
             None => "".to_string(),
         };
-        let str = format!("/{}/{}", pattern.str, flags);
-        self.doc.text(str)
+        self.doc.text(format!("/{}/{flags}", escape_pattern(&pattern.str)))
     }
 
     fn pp_datatype(&self) -> impl Fn(&IriRef, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
@@ -635,17 +688,66 @@ where
 
     fn pp_value_set_value(&self, v: &ValueSetValue) -> DocBuilder<'a, Arena<'a, A>, A> {
         match v {
-            ValueSetValue::LanguageStem { .. } => todo!(),
-            ValueSetValue::LanguageStemRange { .. } => todo!(),
-            ValueSetValue::ObjectValue(ov) => pp_object_value(ov, self.doc, &self.prefixmap),
-            ValueSetValue::IriStem { .. } => todo!(),
-            ValueSetValue::IriStemRange { .. } => todo!(),
-            ValueSetValue::LiteralStem { .. } => todo!(),
-            ValueSetValue::LiteralStemRange { .. } => todo!(),
-            ValueSetValue::Language { .. } => todo!(),
+            ValueSetValue::ObjectValue(ov) => self.pp_object_value(ov),
+            ValueSetValue::Language { language_tag } => self.pp_lang(language_tag),
+            ValueSetValue::LanguageStem { stem } => self.pp_lang_stem(stem),
+            ValueSetValue::LanguageStemRange { stem, exclusions } => {
+                let exclusions = exclusions.iter().flatten().map(|e| match e {
+                    LanguageExclusion::Language(lang) => (self.pp_lang(lang), false),
+                    LanguageExclusion::LanguageStem(lang) => (self.pp_lang(lang), true),
+                });
+                self.pp_stem_range(self.pp_lang_stem(stem), exclusions)
+            },
+            ValueSetValue::IriStem { stem } => self.pp_iri_ref(stem).append("~"),
+            ValueSetValue::IriStemRange { stem, exclusions } => {
+                let stem = match stem {
+                    IriRefOrWildcard::IriRef(iri) => self.pp_iri_ref(iri).append("~"),
+                    IriRefOrWildcard::Wildcard => self.doc.text("."),
+                };
+                let exclusions = exclusions.iter().flatten().map(|e| match e {
+                    IriExclusion::Iri(iri) => (self.pp_iri_ref(iri), false),
+                    IriExclusion::IriStem(iri) => (self.pp_iri_ref(iri), true),
+                });
+                self.pp_stem_range(stem, exclusions)
+            },
+            ValueSetValue::LiteralStem { stem } => self.pp_string(stem).append("~"),
+            ValueSetValue::LiteralStemRange { stem, exclusions } => {
+                let stem = match stem {
+                    StringOrWildcard::String(str) => self.pp_string(str).append("~"),
+                    StringOrWildcard::Wildcard => self.doc.text("."),
+                };
+                let exclusions = exclusions.iter().flatten().map(|e| match e {
+                    LiteralExclusion::Literal(str) => (self.pp_string(str), false),
+                    LiteralExclusion::LiteralStem(str) => (self.pp_string(str), true),
+                });
+                self.pp_stem_range(stem, exclusions)
+            },
         }
     }
 
+    fn pp_lang(&self, lang: &Lang) -> DocBuilder<'a, Arena<'a, A>, A> {
+        self.doc.text(format!("@{lang}"))
+    }
+
+    fn pp_lang_stem(&self, stem: &LangOrWildcard) -> DocBuilder<'a, Arena<'a, A>, A> {
+        match stem {
+            LangOrWildcard::Lang(lang) => self.pp_lang(lang).append("~"),
+            LangOrWildcard::Wildcard => self.doc.text("@~"),
+        }
+    }
+
+    /// Prints a stem range from its stem and its exclusions, which are pairs that say if they are stems
+    fn pp_stem_range(
+        &self,
+        stem: DocBuilder<'a, Arena<'a, A>, A>,
+        exclusions: impl Iterator<Item = (DocBuilder<'a, Arena<'a, A>, A>, bool)>,
+    ) -> DocBuilder<'a, Arena<'a, A>, A> {
+        exclusions.fold(stem, |doc, (exclusion, is_stem)| {
+            let doc = doc.append(" - ").append(exclusion);
+            if is_stem { doc.append("~") } else { doc }
+        })
+    }
+
     fn pp_label(&self, ref_: &ShapeExprLabel) -> DocBuilder<'a, Arena<'a, A>, A> {
         match ref_ {
             ShapeExprLabel::BNode { value } => self.pp_bnode(value),
@@ -658,104 +760,16 @@ where
         self.doc.text("@").append(self.pp_label(ref_))
     }
 
-    fn pp_numeric_literal(&self, value: &NumericLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match value {
-            NumericLiteral::Integer(n) => self.pp_isize(&(*n as isize)),
-            NumericLiteral::Decimal(d) => self.pp_decimal(d),
-            NumericLiteral::Double(d) => self.pp_double(d),
-            NumericLiteral::Long(l) => self.pp_isize(&(*l as isize)),
-            NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
-            NumericLiteral::Byte(b) => self.pp_byte(b),
-            NumericLiteral::Short(s) => self.pp_short(s),
-            NumericLiteral::Int(n) => self.pp_int(n),
-            NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
-            NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
-            NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
-            NumericLiteral::UnsignedShort(u) => self.pp_unsigned_short(u),
-            NumericLiteral::UnsignedByte(n) => self.pp_unsigned_byte(n),
-            NumericLiteral::PositiveInteger(n) => self.pp_positive_integer(n),
-            NumericLiteral::NegativeInteger(n) => self.pp_negative_integer(n),
-            NumericLiteral::NonPositiveInteger(n) => self.pp_non_positive_integer(n),
-        }
-    }
-
     fn pp_bnode(&self, value: &BNode) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(format!("{value}"))
     }
 
-    fn pp_isize(&self, value: &isize) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_decimal(&self, value: &Decimal) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_double(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_float(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_byte(&self, value: &i8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_int(&self, value: &i32) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_short(&self, value: &i16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_negative_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_long(&self, value: &u64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_int(&self, value: &u32) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_short(&self, value: &u16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_byte(&self, value: &u8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_positive_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_negative_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_positive_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
     fn pp_usize(&self, value: &usize) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(value.to_string())
     }
 
     fn pp_iri_ref(&self, value: &IriRef) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match value {
-            IriRef::Iri(iri) => self.pp_iri(iri),
-            IriRef::Prefixed { prefix, local } => self
-                .doc
-                .text(prefix.clone())
-                .append(self.doc.text(":"))
-                .append(self.doc.text(local.clone())),
-        }
+        self.doc.text(iri_ref_text(value, &self.prefixmap))
     }
 
     fn pp_iri_or_str(&self, iri_or_str: &IriOrStr) -> DocBuilder<'a, Arena<'a, A>, A> {
@@ -795,6 +809,14 @@ where
         }
     }
 
+    /// Prints the semantic actions that follow a shape or a triple expression
+    fn pp_sem_acts(&self) -> impl Fn(&Vec<SemAct>, &ShExCompactPrinter<'a, A>) -> DocBuilder<'a, Arena<'a, A>, A> {
+        move |actions, printer| {
+            let docs = actions.iter().map(|a| printer.space().append(printer.pp_action(a)));
+            printer.doc.concat(docs)
+        }
+    }
+
     fn pp_action(&self, a: &SemAct) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc
             .text("%")
@@ -804,7 +826,7 @@ where
                 Some(str) => self
                     .doc
                     .text("{")
-                    .append(self.doc.text(str))
+                    .append(self.doc.text(str.replace('\\', "\\\\").replace('%', "\\%")))
                     .append(self.doc.text("%}")),
             })
     }
@@ -847,10 +869,6 @@ where
         self.doc.text(str)
     }
 
-    fn pp_iri(&self, iri: &IriS) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(self.prefixmap.qualify(iri))
-    }
-
     /*fn pp_str(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(str.to_string())
     }*/
@@ -924,6 +942,95 @@ where
     }
 }
 
+/// Checks that a group can be written without brackets
+fn is_undecorated(te: &TripleExpr) -> bool {
+    match te {
+        TripleExpr::EachOf {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        }
+        | TripleExpr::OneOf {
+            id,
+            min,
+            max,
+            sem_acts,
+            annotations,
+            ..
+        } => id.is_none() && min.is_none() && max.is_none() && sem_acts.is_none() && annotations.is_none(),
+        _ => false,
+    }
+}
+
+/// Checks if the annotations or semantic actions of a value expression could be taken for those of its triple constraint
+fn needs_brackets(se: &ShapeExpr) -> bool {
+    match se {
+        ShapeExpr::Shape(s) => s.annotations.is_some() || s.sem_acts.is_some(),
+        ShapeExpr::ShapeAnd { shape_exprs } | ShapeExpr::ShapeOr { shape_exprs } => {
+            shape_exprs.iter().any(|sew| needs_brackets(&sew.se))
+        },
+        ShapeExpr::ShapeNot { shape_expr } => needs_brackets(&shape_expr.se),
+        _ => false,
+    }
+}
+
+/// Splits a node constraint into node constraints that can be written in ShExC: each one has at most one of
+/// node kind, datatype and value set, and numeric facets do not follow node kinds of non literals nor string facets
+fn node_constraint_groups(nc: &NodeConstraint) -> Vec<NodeConstraint> {
+    let mut groups = Vec::new();
+    if let Some(nk) = nc.node_kind() {
+        groups.push(NodeConstraint::new().with_node_kind(nk));
+    }
+    if let Some(dt) = nc.datatype() {
+        groups.push(NodeConstraint::new().with_datatype(dt));
+    }
+    if let Some(values) = nc.values() {
+        groups.push(NodeConstraint::new().with_values(values));
+    }
+    let facets = nc.xs_facet().unwrap_or_default();
+    match groups.last_mut() {
+        Some(last) if !facets.is_empty() && !matches!(last.node_kind(), Some(nk) if nk != NodeKind::Literal) => {
+            *last = last.clone().with_xsfacets(facets);
+        },
+        _ => {
+            let (strings, numbers): (Vec<_>, Vec<_>) =
+                facets.into_iter().partition(|f| matches!(f, XsFacet::StringFacet(_)));
+            if !strings.is_empty() {
+                match groups.pop() {
+                    Some(last) => groups.push(last.with_xsfacets(strings)),
+                    None => groups.push(NodeConstraint::new().with_xsfacets(strings)),
+                }
+            }
+            if !numbers.is_empty() {
+                groups.push(NodeConstraint::new().with_xsfacets(numbers));
+            }
+        },
+    }
+    groups
+}
+
+/// Writes a pattern so that parsing it gives the same pattern
+fn escape_pattern(pattern: &str) -> String {
+    let mut r = String::new();
+    let mut chars = pattern.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => match chars.next_if(|c| r"nrt\|.?*+(){}$-[]^".contains(*c)) {
+                Some(escaped) => r.extend(['\\', escaped]),
+                None => r.push_str(r"\u005C"),
+            },
+            '/' => r.push_str(r"\/"),
+            '\n' => r.push_str(r"\n"),
+            '\r' => r.push_str(r"\r"),
+            c => r.push(c),
+        }
+    }
+    r
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index a480e67..7e9bbcc 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1901,6 +1901,13 @@ fn pn_local(i: Span<'_>) -> IRes<'_, &str> {
     Ok((i, cs.fragment()))
 }
 
+/// Checks that a local name can be written without escapes
+pub(crate) fn is_plain_local_name(local: &str) -> bool {
+    local.chars().next().is_none_or(is_pn_local_start)
+        && local.chars().all(|c| is_pn_chars(c) || c == ':' || c == '.')
+        && !local.ends_with('.')
+}
+
 fn is_pn_local_start(c: char) -> bool {
     c == ':' || is_digit(c) || is_pn_chars_u(c)
 }
-- 
2.43.0


From 1ba59ab45118378c2a6dbacf85b4929b8642a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 070/110] fix: compiled schemas with a maximum of 0 could not
 be loaded

---
 rbe/src/max.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rbe/src/max.rs b/rbe/src/max.rs
index abccb26..a6cd4d8 100644
--- a/rbe/src/max.rs
+++ b/rbe/src/max.rs
@@ -113,7 +113,7 @@ impl From<i64> for Max {
     fn from(m: i64) -> Self {
         match m {
             -1 => Max::Unbounded,
-            n if n > 0 => Max::IntMax(n as usize),
+            n if n >= 0 => Max::IntMax(n as usize),
             _ => panic!("Error converting i64 to Max, value {m} < -1"),
         }
     }
-- 
2.43.0


From 9bdeb31b880c3a35dcf9f4198738e399032513cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 071/110] fix: prefixed names in IRI stem ranges were never
 resolved

---
 shex_ast/src/ast/iri_exclusion.rs   | 13 ++++++++++++-
 shex_ast/src/ast/value_set_value.rs | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/shex_ast/src/ast/iri_exclusion.rs b/shex_ast/src/ast/iri_exclusion.rs
index 45d603e..f829630 100644
--- a/shex_ast/src/ast/iri_exclusion.rs
+++ b/shex_ast/src/ast/iri_exclusion.rs
@@ -1,4 +1,6 @@
-use prefixmap::IriRef;
+use prefixmap::error::DerefError;
+use prefixmap::{DerefIri, IriRef, PrefixMap};
+use rudof_iri::IriS;
 use serde::ser::SerializeMap;
 use serde::{Deserialize, Serialize, Serializer};
 use std::fmt::Display;
@@ -10,6 +12,15 @@ pub enum IriExclusion {
     IriStem(IriRef),
 }
 
+impl DerefIri for IriExclusion {
+    fn deref_iri(self, base: Option<&IriS>, prefixmap: Option<&PrefixMap>) -> Result<Self, DerefError> {
+        match self {
+            IriExclusion::Iri(iri) => Ok(IriExclusion::Iri(iri.deref_iri(base, prefixmap)?)),
+            IriExclusion::IriStem(stem) => Ok(IriExclusion::IriStem(stem.deref_iri(base, prefixmap)?)),
+        }
+    }
+}
+
 impl Serialize for IriExclusion {
     fn serialize<S>(&self, serializer: S) -> result::Result<S::Ok, S::Error>
     where
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index 192ecef..4101fb0 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -109,11 +109,19 @@ impl DerefIri for ValueSetValue {
                 language_tag: language_tag.clone(),
             }),
             ValueSetValue::LanguageStem { stem } => Ok(ValueSetValue::LanguageStem { stem: stem.clone() }),
-            ValueSetValue::IriStem { stem } => Ok(ValueSetValue::IriStem { stem: stem.clone() }),
-            ValueSetValue::IriStemRange { stem, exclusions } => Ok(ValueSetValue::IriStemRange {
-                stem: stem.clone(),
-                exclusions: exclusions.clone(),
+            ValueSetValue::IriStem { stem } => Ok(ValueSetValue::IriStem {
+                stem: stem.deref_iri(base, prefixmap)?,
             }),
+            ValueSetValue::IriStemRange { stem, exclusions } => {
+                let stem = match stem {
+                    IriRefOrWildcard::IriRef(iri) => IriRefOrWildcard::IriRef(iri.deref_iri(base, prefixmap)?),
+                    IriRefOrWildcard::Wildcard => IriRefOrWildcard::Wildcard,
+                };
+                let exclusions = exclusions
+                    .map(|excs| excs.into_iter().map(|e| e.deref_iri(base, prefixmap)).collect())
+                    .transpose()?;
+                Ok(ValueSetValue::IriStemRange { stem, exclusions })
+            },
             ValueSetValue::LanguageStemRange { stem, exclusions } => Ok(ValueSetValue::LanguageStemRange {
                 stem: stem.clone(),
                 exclusions: exclusions.clone(),
-- 
2.43.0


From f353a5af4215de3e7fc7773f743a6d0bb5ca51f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:23 +0000
Subject: [PATCH 072/110] fix: literals in ShExJ value sets lost their lexical
 form and no longer matched

---
 shex_ast/src/ast/object_value.rs    | 66 ++---------------------------
 shex_ast/src/ast/value_set_value.rs | 53 +----------------------
 2 files changed, 4 insertions(+), 115 deletions(-)

diff --git a/shex_ast/src/ast/object_value.rs b/shex_ast/src/ast/object_value.rs
index 365c187..548c37a 100644
--- a/shex_ast/src/ast/object_value.rs
+++ b/shex_ast/src/ast/object_value.rs
@@ -7,7 +7,6 @@ use rudof_rdf::rdf_core::term::{
     literal::{ConcreteLiteral, Lang, NumericLiteral},
 };
 use rust_decimal::Decimal;
-use serde::de::Unexpected;
 use serde::ser::SerializeMap;
 use serde::{
     Deserialize, Serialize, Serializer,
@@ -186,30 +185,6 @@ fn get_type_str(n: &NumericLiteral) -> &str {
     }
 }
 
-#[derive(Debug, PartialEq)]
-enum ObjectValueType {
-    Boolean,
-    Integer,
-    Decimal,
-    Double,
-    Other(IriRef),
-}
-
-impl ObjectValueType {
-    fn parse(s: &str) -> Result<ObjectValueType, IriSError> {
-        match s {
-            BOOLEAN_STR => Ok(ObjectValueType::Boolean),
-            DECIMAL_STR => Ok(ObjectValueType::Decimal),
-            DOUBLE_STR => Ok(ObjectValueType::Double),
-            INTEGER_STR => Ok(ObjectValueType::Integer),
-            other => {
-                let iri = FromStr::from_str(other)?;
-                Ok(ObjectValueType::Other(iri))
-            },
-        }
-    }
-}
-
 impl<'de> Deserialize<'de> for ObjectValue {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
@@ -268,7 +243,7 @@ impl<'de> Deserialize<'de> for ObjectValue {
                 V: MapAccess<'de>,
             {
                 let mut value: Option<String> = None;
-                let mut type_: Option<ObjectValueType> = None;
+                let mut type_: Option<IriRef> = None;
                 let mut language: Option<String> = None;
                 let mut language_tag: Option<String> = None;
 
@@ -280,7 +255,7 @@ impl<'de> Deserialize<'de> for ObjectValue {
                             }
                             let value: String = map.next_value()?;
 
-                            let parsed_type_ = ObjectValueType::parse(value.as_str()).map_err(|e| {
+                            let parsed_type_ = IriRef::from_str(value.as_str()).map_err(|e| {
                                 de::Error::custom(format!(
                                     "Error parsing ValueSetValue type, found: {value}. Error: {e}"
                                 ))
@@ -308,42 +283,7 @@ impl<'de> Deserialize<'de> for ObjectValue {
                     }
                 }
                 match type_ {
-                    Some(ObjectValueType::Boolean) => match value {
-                        Some(s) => match s.as_str() {
-                            "false" => Ok(ObjectValue::bool(false)),
-                            "true" => Ok(ObjectValue::bool(true)),
-                            _ => Err(de::Error::invalid_value(Unexpected::Str(&s), &self)),
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ObjectValueType::Decimal) => match value {
-                        Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
-                            })?;
-                            Ok(ObjectValue::decimal(n))
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ObjectValueType::Double) => match value {
-                        Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
-                            })?;
-                            Ok(ObjectValue::double(n))
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ObjectValueType::Integer) => match value {
-                        Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
-                            })?;
-                            Ok(ObjectValue::integer(n))
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ObjectValueType::Other(iri)) => match value {
+                    Some(iri) => match value {
                         Some(v) => match language_tag {
                             Some(lang) => {
                                 let lang = Lang::new(&lang).map_err(|e| {
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index 4101fb0..1476a19 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -8,11 +8,10 @@ use prefixmap::error::DerefError;
 use prefixmap::{DerefIri, IriRef};
 use rudof_iri::error::IriSError;
 use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang};
-use rust_decimal::Decimal;
 use serde::ser::SerializeMap;
 use serde::{
     Deserialize, Serialize, Serializer,
-    de::{self, MapAccess, Unexpected, Visitor},
+    de::{self, MapAccess, Visitor},
 };
 use std::{fmt, str::FromStr};
 use thiserror::Error;
@@ -169,18 +168,9 @@ enum ValueSetValueType {
     LanguageStemRange,
     LiteralStemRange,
     Language,
-    Boolean,
-    Integer,
-    Decimal,
-    Double,
     Other(IriRef),
 }
 
-const BOOLEAN_STR: &str = "http://www.w3.org/2001/XMLSchema#boolean";
-const INTEGER_STR: &str = "http://www.w3.org/2001/XMLSchema#integer";
-const DOUBLE_STR: &str = "http://www.w3.org/2001/XMLSchema#double";
-const DECIMAL_STR: &str = "http://www.w3.org/2001/XMLSchema#decimal";
-
 impl ValueSetValueType {
     fn parse(s: &str) -> Result<ValueSetValueType, IriSError> {
         match s {
@@ -191,10 +181,6 @@ impl ValueSetValueType {
             "IriStemRange" => Ok(ValueSetValueType::IriStemRange),
             "LanguageStemRange" => Ok(ValueSetValueType::LanguageStemRange),
             "LiteralStemRange" => Ok(ValueSetValueType::LiteralStemRange),
-            BOOLEAN_STR => Ok(ValueSetValueType::Boolean),
-            DECIMAL_STR => Ok(ValueSetValueType::Decimal),
-            DOUBLE_STR => Ok(ValueSetValueType::Double),
-            INTEGER_STR => Ok(ValueSetValueType::Integer),
             other => {
                 let iri = FromStr::from_str(other)?;
                 Ok(ValueSetValueType::Other(iri))
@@ -706,43 +692,6 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                         },
                         None => Err(de::Error::missing_field("stem")),
                     },
-                    Some(ValueSetValueType::Boolean) => match value {
-                        Some(s) => match s.as_str() {
-                            "false" => Ok(ValueSetValue::ObjectValue(ObjectValue::bool(false))),
-                            "true" => Ok(ValueSetValue::ObjectValue(ObjectValue::bool(true))),
-                            _ => Err(de::Error::invalid_value(Unexpected::Str(&s), &self)),
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ValueSetValueType::Double) => match value {
-                        Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
-                            })?;
-                            Ok(ValueSetValue::ObjectValue(ObjectValue::double(n)))
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ValueSetValueType::Decimal) => match value {
-                        Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
-                            })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::decimal(n));
-                            Ok(v)
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
-                    Some(ValueSetValueType::Integer) => match value {
-                        Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
-                                de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
-                            })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::integer(n));
-                            Ok(v)
-                        },
-                        None => Err(de::Error::missing_field("value")),
-                    },
                     Some(ValueSetValueType::Other(iri)) => match value {
                         Some(v) => match language_tag {
                             Some(lang) => {
-- 
2.43.0


From 20f9143986f61e87fbb0f0aed6ce0d8691b16724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:28 +0000
Subject: [PATCH 073/110] fix: literal stem exclusions of ShExJ were read as
 IRIs

---
 shex_ast/src/ast/exclusion.rs | 51 +++++++++++++----------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/shex_ast/src/ast/exclusion.rs b/shex_ast/src/ast/exclusion.rs
index 43d8d98..dbdfd51 100644
--- a/shex_ast/src/ast/exclusion.rs
+++ b/shex_ast/src/ast/exclusion.rs
@@ -168,7 +168,7 @@ impl<'de> Deserialize<'de> for Exclusion {
                 V: MapAccess<'de>,
             {
                 let mut type_: Option<ExclusionType> = None;
-                let mut stem: Option<StemValue> = None;
+                let mut stem: Option<String> = None;
                 while let Some(key) = map.next_key()? {
                     match key {
                         Field::Type => {
@@ -191,29 +191,24 @@ impl<'de> Deserialize<'de> for Exclusion {
                     }
                 }
                 match type_ {
-                    Some(ExclusionType::LiteralStem) => match stem {
-                        Some(StemValue::Literal(lit)) => {
-                            Ok(Exclusion::LiteralExclusion(LiteralExclusion::LiteralStem(lit)))
-                        },
-                        Some(_) => Err(de::Error::custom(format!("Stem {stem:?} must be a literal"))),
-                        None => Err(de::Error::missing_field("stem")),
-                    },
-                    Some(ExclusionType::LanguageStem) => match stem {
-                        Some(StemValue::Language(lang)) => {
-                            Ok(Exclusion::LanguageExclusion(LanguageExclusion::LanguageStem(lang)))
-                        },
-                        Some(StemValue::Literal(l)) => {
-                            let lang = Lang::new(&l)
-                                .map_err(|e| de::Error::custom(format!("Invalid language tag {l} in stem: {e}")))?;
-                            Ok(Exclusion::LanguageExclusion(LanguageExclusion::LanguageStem(lang)))
-                        },
-                        Some(_) => Err(de::Error::custom(format!("Stem {stem:?} must be a language"))),
-                        None => Err(de::Error::missing_field("stem")),
-                    },
-                    Some(ExclusionType::IriStem) => match stem {
-                        Some(StemValue::Iri(iri_ref)) => Ok(Exclusion::IriExclusion(IriExclusion::IriStem(iri_ref))),
-                        Some(_) => Err(de::Error::custom(format!("Stem {stem:?} must be an IRI"))),
-                        None => Err(de::Error::missing_field("stem")),
+                    Some(type_) => {
+                        let stem = stem.ok_or_else(|| de::Error::missing_field("stem"))?;
+                        match type_ {
+                            ExclusionType::LiteralStem => {
+                                Ok(Exclusion::LiteralExclusion(LiteralExclusion::LiteralStem(stem)))
+                            },
+                            ExclusionType::LanguageStem => {
+                                let lang = Lang::new(&stem).map_err(|e| {
+                                    de::Error::custom(format!("Invalid language tag {stem} in stem: {e}"))
+                                })?;
+                                Ok(Exclusion::LanguageExclusion(LanguageExclusion::LanguageStem(lang)))
+                            },
+                            ExclusionType::IriStem => {
+                                let iri = IriRef::from_str(&stem)
+                                    .map_err(|e| de::Error::custom(format!("Stem {stem} must be an IRI: {e}")))?;
+                                Ok(Exclusion::IriExclusion(IriExclusion::IriStem(iri)))
+                            },
+                        }
                     },
                     None => Err(de::Error::custom("No value of exclusion type")),
                 }
@@ -232,14 +227,6 @@ enum ExclusionType {
     LanguageStem,
 }
 
-#[derive(Debug, PartialEq, Deserialize)]
-#[serde(untagged)]
-enum StemValue {
-    Iri(IriRef),
-    Literal(String),
-    Language(Lang),
-}
-
 #[derive(Debug)]
 #[allow(dead_code)]
 struct ExclusionTypeError {
-- 
2.43.0


From 6fc63f77f16b1434c03152b948227dbfa27b3518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:57 +0000
Subject: [PATCH 074/110] fix: written shape maps could not be read back

---
 .../src/compact/shapemap_compact_printer.rs   | 158 +-----------------
 1 file changed, 9 insertions(+), 149 deletions(-)

diff --git a/shex_ast/src/compact/shapemap_compact_printer.rs b/shex_ast/src/compact/shapemap_compact_printer.rs
index a439819..3bb9c45 100644
--- a/shex_ast/src/compact/shapemap_compact_printer.rs
+++ b/shex_ast/src/compact/shapemap_compact_printer.rs
@@ -1,13 +1,11 @@
-use crate::ObjectValue;
+use crate::compact::compact_printer::{iri_ref_text, quoted};
 use crate::shapemap::Pattern;
 use crate::shapemap::SHACLPathRef;
 use crate::shapemap::{Association, NodeSelector, ShapeSelector, query_shape_map::QueryShapeMap};
 use crate::{keyword, pp_label, pp_object_value};
 use colored::*;
-use prefixmap::{IriRef, PrefixMap};
+use prefixmap::PrefixMap;
 use pretty::{Arena, DocAllocator, DocBuilder};
-use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang, NumericLiteral};
-use rust_decimal::Decimal;
 use std::borrow::Cow;
 use std::marker::PhantomData;
 
@@ -90,7 +88,6 @@ where
 {
     width: usize,
     keyword_color: Option<Color>,
-    string_color: Option<Color>,
     shapemap: &'a QueryShapeMap,
     doc: &'a Arena<'a, A>,
     marker: PhantomData<A>,
@@ -103,7 +100,6 @@ const DEFAULT_QUALIFY_ALIAS_COLOR: Option<Color> = Some(Color::Blue);
 const DEFAULT_QUALIFY_SEMICOLON_COLOR: Option<Color> = Some(Color::BrightGreen);
 const DEFAULT_QUALIFY_LOCALNAME_COLOR: Option<Color> = Some(Color::Black);
 const DEFAULT_KEYWORD_COLOR: Option<Color> = Some(Color::BrightBlue);
-const DEFAULT_STRING_COLOR: Option<Color> = Some(Color::Red);
 
 impl<'a, A> ShapemapCompactPrinter<'a, A>
 where
@@ -113,7 +109,6 @@ where
         ShapemapCompactPrinter {
             width: DEFAULT_WIDTH,
             keyword_color: DEFAULT_KEYWORD_COLOR,
-            string_color: DEFAULT_STRING_COLOR,
             shapemap,
             doc,
             marker: PhantomData,
@@ -168,12 +163,14 @@ where
         for a in self.shapemap.iter() {
             docs.push(self.pp_association(a))
         }
-        self.doc.intersperse(docs, self.doc.hardline())
+        self.doc
+            .intersperse(docs, self.doc.text(",").append(self.doc.hardline()))
     }
 
     fn pp_association(&self, assoc: &Association) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.pp_node_selector(&assoc.node_selector)
-            .append(self.doc.text("@"))
+            // A literal followed by `@START` would be read as a literal with a language tag
+            .append(self.doc.text(" @"))
             .append(self.pp_shape_selector(&assoc.shape_selector))
     }
 
@@ -195,7 +192,7 @@ where
             NodeSelector::Sparql { query } => self
                 .keyword("SPARQL")
                 .append(self.space())
-                .append(self.triple_quotes(query)),
+                .append(self.doc.text(quoted(query))),
             NodeSelector::Generic { .. } => todo!(),
         }
     }
@@ -204,158 +201,21 @@ where
         self.doc.space()
     }
 
-    pub fn triple_quotes(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(format!("'''{str}'''"))
-    }
-
     fn pp_shacl_path(&self, path: &SHACLPathRef, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
         match path {
-            SHACLPathRef::Predicate { pred } => self.pp_iri_ref(pred, prefixmap),
+            SHACLPathRef::Predicate { pred } => self.doc.text(iri_ref_text(pred, prefixmap)),
             _ => todo!(),
         }
     }
 
     pub fn pp_pattern(&self, pat: &Pattern) -> DocBuilder<'a, Arena<'a, A>, A> {
         match pat {
-            Pattern::Node(object_value) => self.pp_object_value(object_value),
+            Pattern::Node(object_value) => pp_object_value(object_value, self.doc, &self.nodes_prefixmap),
             Pattern::Wildcard => self.doc.text("_"),
             Pattern::Focus => self.keyword("FOCUS"),
         }
     }
 
-    pub fn pp_object_value(&self, ov: &ObjectValue) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match ov {
-            ObjectValue::IriRef(iri_ref) => self.pp_iri_ref(iri_ref, &self.nodes_prefixmap),
-            ObjectValue::Literal(sliteral) => self.pp_literal(sliteral),
-        }
-    }
-
-    fn pp_literal(&self, literal: &ConcreteLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match literal {
-            ConcreteLiteral::StringLiteral { lexical_form, lang } => self.pp_string_literal(lexical_form, lang),
-            ConcreteLiteral::DatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-            } => todo!(),
-            ConcreteLiteral::WrongDatatypeLiteral {
-                lexical_form: _,
-                datatype: _,
-                error: _,
-            } => todo!(),
-            ConcreteLiteral::NumericLiteral(lit) => self.pp_numeric_literal(lit),
-            ConcreteLiteral::BooleanLiteral(_) => todo!(),
-            ConcreteLiteral::DatetimeLiteral(_xsd_date_time) => todo!(),
-        }
-    }
-
-    fn pp_numeric_literal(&self, value: &NumericLiteral) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match value {
-            NumericLiteral::Integer(n) => self.pp_isize(&(*n as isize)),
-            NumericLiteral::Decimal(d) => self.pp_decimal(d),
-            NumericLiteral::Double(d) => self.pp_double(d),
-            NumericLiteral::Long(l) => self.pp_isize(&(*l as isize)),
-            NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
-            NumericLiteral::Byte(b) => self.pp_byte(b),
-            NumericLiteral::Short(s) => self.pp_short(s),
-            NumericLiteral::Int(n) => self.pp_int(n),
-            NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
-            NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
-            NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
-            NumericLiteral::UnsignedShort(u) => self.pp_unsigned_short(u),
-            NumericLiteral::UnsignedByte(n) => self.pp_unsigned_byte(n),
-            NumericLiteral::PositiveInteger(n) => self.pp_positive_integer(n),
-            NumericLiteral::NegativeInteger(n) => self.pp_negative_integer(n),
-            NumericLiteral::NonPositiveInteger(n) => self.pp_non_positive_integer(n),
-        }
-    }
-
-    fn pp_isize(&self, value: &isize) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_decimal(&self, value: &Decimal) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_double(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_float(&self, value: &f64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_byte(&self, value: &i8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_int(&self, value: &i32) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_short(&self, value: &i16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_negative_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_long(&self, value: &u64) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_int(&self, value: &u32) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_short(&self, value: &u16) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_unsigned_byte(&self, value: &u8) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_positive_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_negative_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_non_positive_integer(&self, value: &i128) -> DocBuilder<'a, Arena<'a, A>, A> {
-        self.doc.text(value.to_string())
-    }
-
-    fn pp_string_literal(&self, lexical_form: &str, lang: &Option<Lang>) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match lang {
-            Some(_) => todo!(),
-            None => self.pp_string(lexical_form),
-        }
-    }
-
-    fn pp_string(&self, str: &str) -> DocBuilder<'a, Arena<'a, A>, A> {
-        let s = format!("\"{str}\"");
-        if let Some(color) = self.string_color {
-            self.doc.text(s.as_str().color(color).to_string())
-        } else {
-            self.doc.text(s)
-        }
-    }
-
-    fn pp_iri_ref(&self, value: &IriRef, prefixmap: &PrefixMap) -> DocBuilder<'a, Arena<'a, A>, A> {
-        match value {
-            IriRef::Iri(iri) => self.doc.text(prefixmap.qualify(iri)),
-            IriRef::Prefixed { prefix, local } => self
-                .doc
-                .text(prefix.clone())
-                .append(self.doc.text(":"))
-                .append(self.doc.text(local.clone())),
-        }
-    }
-
     fn keyword<U>(&self, s: U) -> DocBuilder<'a, Arena<'a, A>, A>
     where
         U: Into<Cow<'a, str>>,
-- 
2.43.0


From 905a02cb36bef6f1f5cc67ec97059537f9138b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 075/110] fix: comparison dropped the property of shapes with
 one triple constraint

---
 shapes_comparator/src/coshamo_converter.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/shapes_comparator/src/coshamo_converter.rs b/shapes_comparator/src/coshamo_converter.rs
index ebb93d9..d1a75dd 100644
--- a/shapes_comparator/src/coshamo_converter.rs
+++ b/shapes_comparator/src/coshamo_converter.rs
@@ -123,14 +123,10 @@ impl CoShaMoConverter {
                 max: _,
                 sem_acts: _,
                 annotations,
-            } => {
-                self.triple_constraint2coshamo(predicate, value_expr, annotations)?;
-                let iri_s = self.get_iri(predicate)?;
-                self.current_coshamo
-                    .add_constraint(&iri_s, ValueDescription::new(predicate));
-                Ok(())
-            },
-            TripleExpr::Ref(_) => todo!(),
+            } => self.triple_constraint2coshamo(predicate, value_expr, annotations, coshamo),
+            TripleExpr::Ref(_) => Err(ComparatorError::NotImplemented {
+                feature: "TripleExprRef".to_string(),
+            }),
         }
     }
 
@@ -139,10 +135,11 @@ impl CoShaMoConverter {
         predicate: &IriRef,
         value_expr: &Option<Box<ShapeExpr>>,
         _annotations: &Option<Vec<shex_ast::Annotation>>,
+        coshamo: &mut CoShaMo,
     ) -> Result<(), ComparatorError> {
         let iri_s = self.get_iri(predicate)?;
         let value_constraint = self.value_expr2value_constraint(value_expr)?;
-        self.current_coshamo.add_constraint(
+        coshamo.add_constraint(
             &iri_s,
             ValueDescription::new(predicate).with_value_constraint(value_constraint),
         );
-- 
2.43.0


From 9fd22dbabdc0e4ef45c559cae1c6d108013cca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 076/110] fix: comparison needed a prefix declaration even for
 full IRIs and panicked on START and blank node labels

---
 shapes_comparator/src/coshamo.rs | 22 ++++++++++++----------
 shex_ast/src/ast/schema.rs       | 15 ++++++++-------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/shapes_comparator/src/coshamo.rs b/shapes_comparator/src/coshamo.rs
index 9e08c12..43288fe 100644
--- a/shapes_comparator/src/coshamo.rs
+++ b/shapes_comparator/src/coshamo.rs
@@ -29,17 +29,19 @@ impl CoShaMo {
     }
 
     pub fn resolve(&self, iri_ref: &IriRef) -> Result<IriS, ComparatorError> {
-        if let Some(prefixmap) = &self.prefixmap {
-            prefixmap
-                .resolve_iriref(iri_ref.clone())
-                .map_err(|e| ComparatorError::ResolveError {
-                    iri_ref: iri_ref.to_string(),
-                    error: e.to_string(),
-                })
-        } else {
-            Err(ComparatorError::NoPrefixMapDerefrencingIriRef {
+        match (iri_ref, &self.prefixmap) {
+            (IriRef::Iri(iri), _) => Ok(iri.clone()),
+            (_, Some(prefixmap)) => {
+                prefixmap
+                    .resolve_iriref(iri_ref.clone())
+                    .map_err(|e| ComparatorError::ResolveError {
+                        iri_ref: iri_ref.to_string(),
+                        error: e.to_string(),
+                    })
+            },
+            (_, None) => Err(ComparatorError::NoPrefixMapDerefrencingIriRef {
                 iri_ref: iri_ref.to_string(),
-            })
+            }),
         }
     }
 
diff --git a/shex_ast/src/ast/schema.rs b/shex_ast/src/ast/schema.rs
index bcb357f..a37bab8 100644
--- a/shex_ast/src/ast/schema.rs
+++ b/shex_ast/src/ast/schema.rs
@@ -255,18 +255,19 @@ impl Schema {
                 })?,
             }
         };
-        match label {
-            ShapeExprLabel::IriRef { value } => self.find_shape_by_iri_ref(&value),
-            ShapeExprLabel::BNode { value: _ } => todo!(),
-            ShapeExprLabel::Start => todo!(),
-        }
+        self.find_shape_by_label(&label)
     }
 
     pub fn find_shape_by_label(&self, label: &ShapeExprLabel) -> Result<Option<ShapeExpr>, SchemaJsonError> {
         match label {
             ShapeExprLabel::IriRef { value } => self.find_shape_by_iri_ref(value),
-            ShapeExprLabel::BNode { value: _ } => todo!(),
-            ShapeExprLabel::Start => todo!(),
+            ShapeExprLabel::BNode { .. } => Ok(self
+                .shapes
+                .iter()
+                .flatten()
+                .find(|decl| decl.id == *label)
+                .map(|decl| decl.shape_expr.clone())),
+            ShapeExprLabel::Start => Ok(self.start.clone()),
         }
     }
 
-- 
2.43.0


From 3ac550ebc7a5051ca9117dbba9965fd174be42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:23 +0000
Subject: [PATCH 077/110] fix: unions of property graph types mixed the labels
 of one alternative with the records of another, and the empty type accepted
 nothing

---
 pgschema/src/formal_base_type.rs | 298 +++++++++++++------------------
 1 file changed, 121 insertions(+), 177 deletions(-)

diff --git a/pgschema/src/formal_base_type.rs b/pgschema/src/formal_base_type.rs
index 3f0ae5c..2d4cf7f 100644
--- a/pgschema/src/formal_base_type.rs
+++ b/pgschema/src/formal_base_type.rs
@@ -7,13 +7,50 @@ use crate::{
     type_name::{LabelName, Name},
 };
 use either::Either;
+use itertools::Itertools;
 use std::{collections::HashSet, fmt::Display};
 
+/// One combination of labels with the records that may accompany it
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+struct BaseType {
+    labels: LabelSet,
+    open_labels: bool, // Other labels may also be present
+    content: RecordType,
+}
+
+impl BaseType {
+    fn empty() -> Self {
+        BaseType {
+            labels: LabelSet::new(),
+            open_labels: false,
+            content: RecordType::empty(),
+        }
+    }
+
+    fn combine(&self, other: &BaseType) -> Self {
+        let mut labels = self.labels.clone();
+        labels.extend(other.labels.iter().cloned());
+        BaseType {
+            labels,
+            open_labels: self.open_labels || other.open_labels,
+            content: self.content.combine(&other.content),
+        }
+    }
+
+    fn accepts_labels(&self, labels: &LabelSet) -> bool {
+        if self.open_labels {
+            self.labels.iter().all(|label| labels.contains(label))
+        } else {
+            &self.labels == labels
+        }
+    }
+}
+
+/// A set of combinations of labels and records. An element belongs to the type
+/// if its labels and its record belong to the same combination
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct FormalBaseType {
-    labels: HashSet<LabelSet>, // Set of label sets, where each set represents a combination of labels that can be present
-    open_labels: bool,
-    content: HashSet<RecordType>, // Define the structure of FormalBaseType as needed
+    bases: HashSet<BaseType>,
 }
 
 impl Default for FormalBaseType {
@@ -26,227 +63,134 @@ impl FormalBaseType {
     /// Creates a new FormalBaseType with no labels or content.
     pub fn new() -> Self {
         FormalBaseType {
-            labels: HashSet::new(),
-            open_labels: false,
-            content: HashSet::new(),
+            bases: HashSet::from([BaseType::empty()]),
         }
     }
 
-    pub fn with_open(mut self) -> Self {
-        self.open_labels = true;
-        self
+    pub fn with_open(self) -> Self {
+        FormalBaseType {
+            bases: self
+                .bases
+                .into_iter()
+                .map(|base| BaseType {
+                    open_labels: true,
+                    ..base
+                })
+                .collect(),
+        }
     }
 
-    /// Sets the labels for the FormalBaseType.
-    pub fn with_labels(mut self, label_sets: impl IntoIterator<Item = impl IntoIterator<Item = LabelName>>) -> Self {
-        for labels in label_sets {
-            let label_set = LabelSet::from(labels);
-            self.labels.insert(label_set);
-        }
-        self
+    /// Adds one of the given label sets to each combination of the FormalBaseType.
+    pub fn with_labels(self, label_sets: impl IntoIterator<Item = impl IntoIterator<Item = LabelName>>) -> Self {
+        self.combine(&FormalBaseType {
+            bases: label_sets
+                .into_iter()
+                .map(|labels| BaseType {
+                    labels: LabelSet::from(labels),
+                    ..BaseType::empty()
+                })
+                .collect(),
+        })
     }
 
     /// Adds a RecordType to the content of the FormalBaseType.
-    pub fn with_record_type(mut self, record_type: RecordType) -> Self {
-        self.content.insert(record_type);
-        self
+    pub fn with_record_type(self, record_type: RecordType) -> Self {
+        self.with_content(HashSet::from([record_type]))
     }
 
-    /// Sets the content of the FormalBaseType.
-    pub fn with_content(mut self, content: HashSet<RecordType>) -> Self {
-        self.content = content;
-        self
+    /// Adds one of the given contents to each combination of the FormalBaseType.
+    pub fn with_content(self, content: HashSet<RecordType>) -> Self {
+        self.combine(&FormalBaseType {
+            bases: content
+                .into_iter()
+                .map(|content| BaseType {
+                    content,
+                    ..BaseType::empty()
+                })
+                .collect(),
+        })
     }
 
     /// Checks if the FormalBaseType conforms to the given labels and content.
     pub fn conforms(&self, labels: &LabelSet, content: &Record) -> Either<Vec<PgsError>, Vec<Evidence>> {
-        if !self.labels.contains(labels) {
+        let candidates = self
+            .bases
+            .iter()
+            .filter(|base| base.accepts_labels(labels))
+            .collect::<Vec<_>>();
+        let record_labels = labels.iter().join(", ");
+        if candidates.is_empty() {
             tracing::trace!(
-                "Labels do not conform: record labels = [{}], expected labels = [{}]",
-                labels.iter().cloned().collect::<Vec<_>>().join(", "),
-                self.labels
-                    .iter()
-                    .map(|lblset| lblset.to_string())
-                    .collect::<Vec<_>>()
-                    .join(", ")
+                "Labels do not conform: record labels = [{record_labels}], expected labels = [{}]",
+                self.bases.iter().map(|base| &base.labels).join(", ")
             );
-            let expected_labels = format!(
-                "[{}]",
-                labels
-                    .iter()
-                    .map(|lblset| lblset.to_string())
-                    .collect::<Vec<_>>()
-                    .join(", ")
-            );
-            return Either::Left::<Vec<PgsError>, Vec<Evidence>>(vec![PgsError::LabelsDifferent {
-                record_labels: labels.iter().cloned().collect::<Vec<_>>().join(", ").to_string(),
-                type_labels: expected_labels,
+            let type_labels = format!("[{record_labels}]");
+            return Either::Left(vec![PgsError::LabelsDifferent {
+                record_labels,
+                type_labels,
             }]);
         }
 
-        for record_type in &self.content {
-            if record_type.conforms(content).is_right() {
+        for base in &candidates {
+            if base.content.conforms(content).is_right() {
                 return Either::Right(vec![Evidence::LabelsContentConforms {
-                    labels: labels.iter().cloned().collect::<Vec<_>>().join(", ").to_string(),
+                    labels: record_labels,
                     record: format!("{}", content),
-                    type_content: format!("{}", record_type),
+                    type_content: format!("{}", base.content),
                 }]);
             };
         }
         Either::Left(vec![PgsError::RecordContentFails {
             record: format!("{}", content),
-            type_content: self
-                .content
-                .iter()
-                .map(|rt| rt.to_string())
-                .collect::<Vec<_>>()
-                .join("\n")
-                .to_string(),
+            type_content: candidates.iter().map(|base| &base.content).join("\n"),
         }])
     }
 
     /// Creates a FormalBaseType from a single label.
     pub fn from_label(label: Name) -> Self {
-        FormalBaseType::new()
-            .with_labels(vec![vec![label]])
-            .with_content(HashSet::from([RecordType::empty()]))
-    }
-
-    /*pub fn add_label(&mut self, label: Name) {
-        self.labels.insert(label);
-    }*/
-
-    pub fn add_content(&mut self, record_type: RecordType) {
-        self.content.insert(record_type);
+        FormalBaseType::new().with_labels(vec![vec![label]])
     }
 
     pub fn union(&self, other: &FormalBaseType) -> Self {
-        let mut result = FormalBaseType::new();
-        result.labels.extend(self.labels.iter().cloned());
-        result.labels.extend(other.labels.iter().cloned());
-        result.content.extend(self.content.iter().cloned());
-        result.content.extend(other.content.iter().cloned());
-        result
-    }
-
-    pub fn combine(&self, other: &FormalBaseType) -> Self {
-        // The following line was using a simple union following the PGSchema paper,
-        // but it doesn't capture the intended semantics of combining labels.
-        // Instead, we should combine the label sets in a way that reflects the possible combinations of labels from both types.
-        // let labels: HashSet<_> = self.labels.union(&other.labels).cloned().collect();
-        let labels = combine_label_sets(&self.labels, &other.labels);
-
-        let content = combine_set_records(&self.content, &other.content);
         FormalBaseType {
-            labels,
-            open_labels: combine_openness(self.open_labels, other.open_labels),
-            content,
+            bases: self.bases.union(&other.bases).cloned().collect(),
         }
     }
 
-    pub fn type_0() -> FormalBaseType {
-        let mut content = HashSet::new();
-        content.insert(RecordType::empty());
+    pub fn combine(&self, other: &FormalBaseType) -> Self {
         FormalBaseType {
-            labels: HashSet::new(),
-            open_labels: false,
-            content,
-        }
-    }
-}
-
-fn combine_openness(open1: bool, open2: bool) -> bool {
-    open1 || open2
-}
-
-fn combine_label_sets(set1: &HashSet<LabelSet>, set2: &HashSet<LabelSet>) -> HashSet<LabelSet> {
-    if set1.is_empty() {
-        return set2.clone();
-    }
-    if set2.is_empty() {
-        return set1.clone();
-    }
-    let mut combined: HashSet<LabelSet> = HashSet::new();
-    for lblset1 in set1 {
-        for lblset2 in set2 {
-            let mut combined_labels = lblset1.labels().clone();
-            combined_labels.extend(lblset2.labels().iter().cloned());
-            combined.insert(LabelSet::from(combined_labels));
+            bases: self
+                .bases
+                .iter()
+                .cartesian_product(&other.bases)
+                .map(|(base1, base2)| base1.combine(base2))
+                .collect(),
         }
     }
-    combined
-}
 
-fn combine_set_records(set1: &HashSet<RecordType>, set2: &HashSet<RecordType>) -> HashSet<RecordType> {
-    if set1.is_empty() {
-        return set2.clone();
-    }
-    if set2.is_empty() {
-        return set1.clone();
-    }
-    let mut combined: HashSet<RecordType> = HashSet::new();
-    for record1 in set1 {
-        for record2 in set2 {
-            let combined_record = record1.combine(record2);
-            combined.insert(combined_record);
-        }
+    pub fn type_0() -> FormalBaseType {
+        FormalBaseType::new()
     }
-    combined
 }
 
 impl Display for FormalBaseType {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        match self {
-            FormalBaseType { labels, content, .. } if labels.is_empty() && content.is_empty() => write!(f, "Empty"),
-            FormalBaseType { labels, content, .. } if !labels.is_empty() && content.is_empty() => {
-                write!(
-                    f,
-                    "Labels([{}])",
-                    labels
-                        .iter()
-                        .map(|lblset| lblset.to_string())
-                        .collect::<Vec<_>>()
-                        .join(", ")
-                )
-            },
-            FormalBaseType { labels, content, .. } if labels.is_empty() && !content.is_empty() => {
-                write!(
-                    f,
-                    "Content({})",
-                    content.iter().map(|c| format!("{}", c)).collect::<Vec<_>>().join(", ")
-                )
-            },
-            FormalBaseType { labels, content, .. } => {
-                let spec = if !labels.is_empty() {
-                    format!(
-                        "Labels({})",
-                        labels
-                            .iter()
-                            .map(|lblset| lblset.to_string())
-                            .collect::<Vec<_>>()
-                            .join(", ")
-                    )
-                } else {
-                    String::new()
-                };
-                let value_spec = if !content.is_empty() {
-                    format!(
-                        "Content({})",
-                        content.iter().map(|c| format!("{}", c)).collect::<Vec<_>>().join(", ")
-                    )
-                } else {
-                    String::new()
-                };
-                if !spec.is_empty() && !value_spec.is_empty() {
-                    write!(f, "{}, {}", spec, value_spec)
-                } else if !spec.is_empty() {
-                    write!(f, "{}", spec)
-                } else if !value_spec.is_empty() {
-                    write!(f, "{}", value_spec)
-                } else {
-                    write!(f, "Empty")
-                }
-            },
+        if self.bases.is_empty() {
+            return write!(f, "Empty");
         }
+        write!(
+            f,
+            "{}",
+            self.bases
+                .iter()
+                .map(|base| format!(
+                    "Labels({}{}), Content({})",
+                    base.labels,
+                    if base.open_labels { " OPEN" } else { "" },
+                    base.content
+                ))
+                .sorted()
+                .join(" | ")
+        )
     }
 }
-- 
2.43.0


From ef29547138bb87872efc4621f66e415a7d5756e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:23 +0000
Subject: [PATCH 078/110] fix: combining record types forgot that one of them
 was open

---
 pgschema/src/record_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgschema/src/record_type.rs b/pgschema/src/record_type.rs
index 0a58fcc..2ef1adf 100644
--- a/pgschema/src/record_type.rs
+++ b/pgschema/src/record_type.rs
@@ -93,6 +93,7 @@ impl RecordType {
 
     pub fn combine(&self, other: &RecordType) -> Self {
         let mut result = RecordType::new();
+        result.open = self.open || other.open;
         for (key, value_type) in &self.map {
             if let Some(other_value_type) = other.map.get(key) {
                 let combined_type = ValueType::intersection(value_type.clone(), other_value_type.clone());
-- 
2.43.0


From 7c491f8081f43edbb32998d645c9cd2867ef9ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:23 +0000
Subject: [PATCH 079/110] fix: the empty property list denoted no record
 instead of the empty record

---
 pgschema/src/property_value_spec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgschema/src/property_value_spec.rs b/pgschema/src/property_value_spec.rs
index ba85239..e01ad35 100644
--- a/pgschema/src/property_value_spec.rs
+++ b/pgschema/src/property_value_spec.rs
@@ -87,7 +87,7 @@ impl PropertyValue {
                 let record = RecordType::new().with_key_value(p.str(), type_spec.to_value_type());
                 HashSet::from_iter(vec![record, RecordType::empty()])
             },
-            PropertyValue::Empty => HashSet::new(),
+            PropertyValue::Empty => HashSet::from([RecordType::empty()]),
         }
     }
 }
-- 
2.43.0


From 5492bf513a62aa67171da261c6b49cf1892f8ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:23 +0000
Subject: [PATCH 080/110] fix: properties of a property graph type without
 labels were dropped

---
 pgschema/src/parser/pgs_builder.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pgschema/src/parser/pgs_builder.rs b/pgschema/src/parser/pgs_builder.rs
index fc5983f..a6ead86 100644
--- a/pgschema/src/parser/pgs_builder.rs
+++ b/pgschema/src/parser/pgs_builder.rs
@@ -74,19 +74,19 @@ fn get_create_types(create_types: Vec<CreateType>, schema: &mut PropertyGraphSch
 }
 
 fn get_label_property_spec(label_property_spec: LabelPropertySpec) -> Result<PGLabelPropertySpec, PgsError> {
-    if let Some(label_spec) = label_property_spec.label_spec_opt {
-        let label_spec = get_labels(label_spec)?;
-        if let Some(property_spec) = label_property_spec.property_spec_opt {
-            let property_value_spec = get_property_value_spec(property_spec)?;
-            Ok(PGLabelPropertySpec::content(
-                label_spec,
-                PGPropertyValueSpec::closed(property_value_spec),
-            ))
-        } else {
-            Ok(label_spec)
-        }
+    let label_spec = if let Some(label_spec) = label_property_spec.label_spec_opt {
+        get_labels(label_spec)?
+    } else {
+        PGLabelPropertySpec::new()
+    };
+    if let Some(property_spec) = label_property_spec.property_spec_opt {
+        let property_value_spec = get_property_value_spec(property_spec)?;
+        Ok(PGLabelPropertySpec::content(
+            label_spec,
+            PGPropertyValueSpec::closed(property_value_spec),
+        ))
     } else {
-        Ok(PGLabelPropertySpec::new())
+        Ok(label_spec)
     }
 }
 
-- 
2.43.0


From 7e10b1d7279a01b159699a44aa720cb9f90489fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:37 +0000
Subject: [PATCH 081/110] fix: property types of three or more alternatives or
 conditions forgot all but the first two

---
 pgschema/src/parser/pgs_builder.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pgschema/src/parser/pgs_builder.rs b/pgschema/src/parser/pgs_builder.rs
index a6ead86..de613dd 100644
--- a/pgschema/src/parser/pgs_builder.rs
+++ b/pgschema/src/parser/pgs_builder.rs
@@ -220,15 +220,22 @@ fn get_type_spec(type_spec: TypeSpec) -> Result<PGTypeSpec, PgsError> {
 }
 
 fn get_more_types(more_types: MoreTypes, current: PGTypeSpec) -> Result<PGTypeSpec, PgsError> {
-    match more_types {
+    let (current, more_types_opt) = match more_types {
         MoreTypes::UnionType(union_type) => {
             let right = get_simple_type(union_type.simple_type)?;
-            Ok(PGTypeSpec::union(current, right))
+            (PGTypeSpec::union(current, right), union_type.more_types_opt)
         },
         MoreTypes::IntersectionType(intersection_type) => {
             let right = get_simple_type(intersection_type.simple_type)?;
-            Ok(PGTypeSpec::intersection(current, right))
+            (
+                PGTypeSpec::intersection(current, right),
+                intersection_type.more_types_opt,
+            )
         },
+    };
+    match *more_types_opt {
+        Some(more_types) => get_more_types(more_types, current),
+        None => Ok(current),
     }
 }
 
-- 
2.43.0


From 388bdafc84a970f66548f9e307b281bf8afe89c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:19 +0000
Subject: [PATCH 082/110] fix: a property graph type defined in terms of itself
 overflowed the stack

---
 pgschema/src/label_property_spec.rs | 31 +++++++++++++++++++++--------
 pgschema/src/pgs_error.rs           |  3 +++
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/pgschema/src/label_property_spec.rs b/pgschema/src/label_property_spec.rs
index 1cd8bb8..584e381 100644
--- a/pgschema/src/label_property_spec.rs
+++ b/pgschema/src/label_property_spec.rs
@@ -56,33 +56,48 @@ impl LabelPropertySpec {
     }
 
     pub fn semantics(&self, schema: &PropertyGraphSchema) -> Result<FormalBaseType, PgsError> {
+        self.semantics_visiting(schema, &mut Vec::new())
+    }
+
+    /// `visiting` contains the names of the types that are being expanded
+    fn semantics_visiting<'a>(
+        &'a self,
+        schema: &'a PropertyGraphSchema,
+        visiting: &mut Vec<&'a TypeName>,
+    ) -> Result<FormalBaseType, PgsError> {
         match self {
             LabelPropertySpec::Empty => Ok(FormalBaseType::type_0()),
             LabelPropertySpec::Label(label) => Ok(FormalBaseType::from_label(label.clone())),
             LabelPropertySpec::Ref(type_name) => {
                 let label_property_spec = schema.get_node_semantics(type_name)?;
-                label_property_spec.semantics(schema)
+                if visiting.contains(&type_name) {
+                    return Err(PgsError::RecursiveType(type_name.clone()));
+                }
+                visiting.push(type_name);
+                let result = label_property_spec.semantics_visiting(schema, visiting);
+                visiting.pop();
+                result
             },
             LabelPropertySpec::Optional(label_property_spec) => {
-                let base_type = label_property_spec.semantics(schema)?;
+                let base_type = label_property_spec.semantics_visiting(schema, visiting)?;
                 Ok(base_type.union(&FormalBaseType::type_0()))
             },
             LabelPropertySpec::And(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics(schema)?;
-                let base_type1 = label_property_spec1.semantics(schema)?;
+                let base_type = label_property_spec.semantics_visiting(schema, visiting)?;
+                let base_type1 = label_property_spec1.semantics_visiting(schema, visiting)?;
                 Ok(base_type.combine(&base_type1))
             },
             LabelPropertySpec::Or(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics(schema)?;
-                let base_type1 = label_property_spec1.semantics(schema)?;
+                let base_type = label_property_spec.semantics_visiting(schema, visiting)?;
+                let base_type1 = label_property_spec1.semantics_visiting(schema, visiting)?;
                 Ok(base_type.union(&base_type1))
             },
             LabelPropertySpec::Open(label_property_spec) => {
-                let base_type = label_property_spec.semantics(schema)?;
+                let base_type = label_property_spec.semantics_visiting(schema, visiting)?;
                 Ok(base_type.with_open())
             },
             LabelPropertySpec::Content(label_property_spec, property_value_spec) => {
-                let base_type = label_property_spec.semantics(schema)?;
+                let base_type = label_property_spec.semantics_visiting(schema, visiting)?;
                 let property_value_semantics = property_value_spec.semantics()?;
                 let result = base_type.combine(&property_value_semantics);
                 Ok(result)
diff --git a/pgschema/src/pgs_error.rs b/pgschema/src/pgs_error.rs
index 50263a9..72c6cb9 100644
--- a/pgschema/src/pgs_error.rs
+++ b/pgschema/src/pgs_error.rs
@@ -24,6 +24,9 @@ pub enum PgsError {
     #[error("Not found type: {0}")]
     MissingType(TypeName),
 
+    #[error("Type {0} is defined in terms of itself")]
+    RecursiveType(TypeName),
+
     #[error("Invalid regex pattern /{pattern}/: {error}")]
     InvalidRegex { pattern: String, error: String },
 
-- 
2.43.0


From b6087da6a2449786f37faf7b6bb80644be2c9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:19 +0000
Subject: [PATCH 083/110] fix: reading a graph type panicked

---
 pgschema/src/parser/pgs_builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgschema/src/parser/pgs_builder.rs b/pgschema/src/parser/pgs_builder.rs
index de613dd..378f762 100644
--- a/pgschema/src/parser/pgs_builder.rs
+++ b/pgschema/src/parser/pgs_builder.rs
@@ -67,7 +67,11 @@ fn get_create_types(create_types: Vec<CreateType>, schema: &mut PropertyGraphSch
                     let _ = schema.add_blank_edge_spec(source_spec, label_property_spec, target_spec);
                 }
             },
-            CreateType::CreateGraphType(_) => todo!(),
+            CreateType::CreateGraphType(_) => {
+                return Err(PgsError::ParserError {
+                    error: "CREATE GRAPH TYPE is not supported yet".to_string(),
+                });
+            },
         }
     }
     Ok(())
-- 
2.43.0


From 7c7eb7409c7b6e6b6875ca91d77f7320c070a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:18 +0000
Subject: [PATCH 084/110] fix: conversion of tabular profiles dropped datatypes
 and node types, took listed literals for IRIs and refused patterns

---
 dctap/src/tap_statement.rs                   |   3 +
 shapes_converter/src/tap_to_shex/tap2shex.rs | 201 ++++++++++---------
 2 files changed, 110 insertions(+), 94 deletions(-)

diff --git a/dctap/src/tap_statement.rs b/dctap/src/tap_statement.rs
index 4742f1b..5320e8a 100644
--- a/dctap/src/tap_statement.rs
+++ b/dctap/src/tap_statement.rs
@@ -97,6 +97,9 @@ impl TapStatement {
     pub fn repeatable(&self) -> Option<bool> {
         self.repeatable
     }
+    pub fn value_nodetype(&self) -> Option<&NodeType> {
+        self.value_nodetype.as_ref()
+    }
     pub fn value_datatype(&self) -> &[DatatypeId] {
         &self.value_datatype
     }
diff --git a/shapes_converter/src/tap_to_shex/tap2shex.rs b/shapes_converter/src/tap_to_shex/tap2shex.rs
index 7a1ecdc..94afe06 100644
--- a/shapes_converter/src/tap_to_shex/tap2shex.rs
+++ b/shapes_converter/src/tap_to_shex/tap2shex.rs
@@ -1,12 +1,15 @@
 //! Struct that converts DCTAP to ShEx schemas
 //!
 //!
-use dctap::{DCTap, DatatypeId, ExtendsId, PropertyId, ShapeId, TapShape, TapStatement, Value, ValueConstraint};
+use dctap::{
+    BasicNodeType, DCTap, DatatypeId, ExtendsId, NodeType, PropertyId, ShapeId, TapShape, TapStatement, Value,
+    ValueConstraint,
+};
 use prefixmap::IriRef;
 use rudof_iri::IriS;
 use rudof_iri::iri;
 use shex_ast::{
-    Annotation, NodeConstraint, ObjectValue, Schema, Shape, ShapeDecl, ShapeExpr, ShapeExprLabel, TripleExpr,
+    Annotation, NodeConstraint, NodeKind, ObjectValue, Schema, Shape, ShapeDecl, ShapeExpr, ShapeExprLabel, TripleExpr,
     ValueSetValue,
 };
 use tracing::trace;
@@ -116,47 +119,80 @@ fn statement_to_value_expr(
     statement: &TapStatement,
     config: &Tap2ShExConfig,
 ) -> Result<Option<ShapeExpr>, Tap2ShExError> {
-    let mut se: Option<ShapeExpr> = None;
-    parse_node_constraint(statement, &mut se, config)?;
-    parse_shape_ref(statement, &mut se, config)?;
-    Ok(se)
+    let mut conditions = Vec::new();
+    conditions.extend(parse_node_type(statement));
+    conditions.extend(parse_datatypes(statement, config)?);
+    conditions.extend(parse_constraint(statement, config)?);
+    conditions.extend(parse_shape_ref(statement, config)?);
+    Ok(match conditions.len() {
+        0 | 1 => conditions.pop(),
+        _ => Some(ShapeExpr::and(conditions)),
+    })
+}
+
+/// A single expression, or the disjunction of several ones
+fn any_of(mut exprs: Vec<ShapeExpr>) -> Option<ShapeExpr> {
+    match exprs.len() {
+        0 | 1 => exprs.pop(),
+        _ => Some(ShapeExpr::or(exprs)),
+    }
+}
+
+fn node_types(statement: &TapStatement) -> Vec<BasicNodeType> {
+    match statement.value_nodetype() {
+        None => Vec::new(),
+        Some(NodeType::Basic(node_type)) => vec![node_type.clone()],
+        Some(NodeType::Or(node_types)) => node_types.clone(),
+    }
+}
+
+fn parse_node_type(statement: &TapStatement) -> Option<ShapeExpr> {
+    let node_types = node_types(statement);
+    if !statement.value_datatype().is_empty() && node_types.iter().all(|nt| nt == &BasicNodeType::Literal) {
+        // Values with a datatype are literals
+        return None;
+    }
+    let node_kinds = node_types.iter().map(|node_type| match node_type {
+        BasicNodeType::Iri => NodeKind::Iri,
+        BasicNodeType::BNode => NodeKind::BNode,
+        BasicNodeType::Literal => NodeKind::Literal,
+    });
+    any_of(
+        node_kinds
+            .map(|node_kind| ShapeExpr::node_constraint(NodeConstraint::new().with_node_kind(node_kind)))
+            .collect(),
+    )
 }
 
 #[allow(clippy::result_large_err)]
-fn parse_shape_ref(
-    statement: &TapStatement,
-    shape_expr: &mut Option<ShapeExpr>,
-    config: &Tap2ShExConfig,
-) -> Result<(), Tap2ShExError> {
+fn parse_datatypes(statement: &TapStatement, config: &Tap2ShExConfig) -> Result<Option<ShapeExpr>, Tap2ShExError> {
+    let mut exprs = Vec::new();
+    for datatype in statement.value_datatype() {
+        let iri = datatype_id2iri(datatype, config)?;
+        exprs.push(ShapeExpr::node_constraint(
+            NodeConstraint::new().with_datatype(IriRef::iri(iri)),
+        ));
+    }
+    Ok(any_of(exprs))
+}
+
+#[allow(clippy::result_large_err)]
+fn parse_shape_ref(statement: &TapStatement, config: &Tap2ShExConfig) -> Result<Option<ShapeExpr>, Tap2ShExError> {
+    let mut shapes = Vec::new();
     if let Some(shape_refs) = statement.value_shape() {
         let line_no = shape_refs.line();
-        let mut shapes = Vec::new();
-        for s in shape_refs.str().split_whitespace() {
-            if s == config.dctap().value_shape_delimiter().to_string() {
-                continue;
-            }
+        let delimiter = config.dctap().value_shape_delimiter();
+        for s in shape_refs
+            .str()
+            .split(|c: char| c.is_whitespace() || c == delimiter)
+            .filter(|s| !s.is_empty())
+        {
             let sid = ShapeId::new(s, line_no);
             let iri = parse_single_shape_ref(&sid, config)?;
             shapes.push(ShapeExpr::iri_ref(iri));
         }
-        match &shapes[..] {
-            [] => return Ok(()),
-            [shape] => {
-                *shape_expr = match shape_expr {
-                    Some(se) => Some(ShapeExpr::and(vec![se.clone(), shape.clone()])),
-                    None => Some(shape.clone()),
-                };
-            },
-            _ => {
-                let shape_ref_expr = ShapeExpr::or(shapes);
-                *shape_expr = match shape_expr {
-                    Some(se) => Some(ShapeExpr::and(vec![se.clone(), shape_ref_expr])),
-                    None => Some(shape_ref_expr),
-                };
-            },
-        }
     }
-    Ok(())
+    Ok(any_of(shapes))
 }
 
 fn get_min(mandatory: Option<bool>) -> Option<i32> {
@@ -190,78 +226,55 @@ fn property_id2iri<'a>(property_id: &'a PropertyId, config: &'a Tap2ShExConfig)
 }
 
 #[allow(clippy::result_large_err)]
-fn parse_node_constraint(
-    statement: &TapStatement,
-    shape_expr: &mut Option<ShapeExpr>,
-    config: &Tap2ShExConfig,
-) -> Result<(), Tap2ShExError> {
-    match statement.value_datatype() {
-        [] => {
-            if let Some(constraint) = statement.value_constraint() {
-                let mut nc = NodeConstraint::new();
-                parse_constraint(constraint, config, &mut nc, statement.source_line_number())?;
-                *shape_expr = Some(ShapeExpr::node_constraint(nc));
-            }
-        },
-        [datatype] => {
-            let mut nc = NodeConstraint::new();
-            let iri = datatype_id2iri(datatype, config)?;
-            nc.add_datatype(IriRef::iri(iri));
-            if let Some(constraint) = statement.value_constraint() {
-                parse_constraint(constraint, config, &mut nc, statement.source_line_number())?;
-            }
-        },
-        datatypes => {
-            let mut shape_exprs = Vec::new();
-            for datatype in datatypes {
-                let mut nc = NodeConstraint::new();
-                let iri = datatype_id2iri(datatype, config)?;
-                nc.add_datatype(IriRef::iri(iri));
-                if let Some(constraint) = statement.value_constraint() {
-                    parse_constraint(constraint, config, &mut nc, statement.source_line_number())?;
-                }
-                shape_exprs.push(ShapeExpr::node_constraint(nc));
-            }
-            *shape_expr = Some(ShapeExpr::or(shape_exprs));
-        },
-    }
-    Ok(())
-}
-
-#[allow(clippy::result_large_err)]
-fn parse_constraint(
-    constraint: &ValueConstraint,
-    config: &Tap2ShExConfig,
-    node_constraint: &mut NodeConstraint,
-    line: u64,
-) -> Result<(), Tap2ShExError> {
-    match constraint {
-        ValueConstraint::PickList(values) => {
+fn parse_constraint(statement: &TapStatement, config: &Tap2ShExConfig) -> Result<Option<ShapeExpr>, Tap2ShExError> {
+    let node_constraint = match statement.value_constraint() {
+        None => return Ok(None),
+        Some(ValueConstraint::PickList(values)) => {
             let mut value_set_values: Vec<ValueSetValue> = Vec::new();
             for v in values {
                 trace!("Parsing value set value: {v}");
-                let value_set_value = parse_value_set_value(v, config, line)?;
-                value_set_values.push(value_set_value)
+                value_set_values.extend(parse_value_set_value(v, statement, config)?);
             }
-            node_constraint.add_values(value_set_values);
-            Ok(())
+            NodeConstraint::new().with_values(value_set_values)
         },
-        _ => Err(Tap2ShExError::NotImplemented {
-            msg: format!("ValueConstraint: {constraint:?}"),
-        }),
-    }
+        Some(ValueConstraint::Pattern(pattern)) => NodeConstraint::new().with_pattern(pattern),
+        Some(constraint) => {
+            return Err(Tap2ShExError::NotImplemented {
+                msg: format!("ValueConstraint: {constraint:?}"),
+            });
+        },
+    };
+    Ok(Some(ShapeExpr::node_constraint(node_constraint)))
 }
 
+/// The values that an entry of a picklist denotes: literals if the statement has datatypes or asks for literals,
+/// and otherwise IRIs
 #[allow(clippy::result_large_err)]
-fn parse_value_set_value(value: &Value, config: &Tap2ShExConfig, line: u64) -> Result<ValueSetValue, Tap2ShExError> {
+fn parse_value_set_value(
+    value: &Value,
+    statement: &TapStatement,
+    config: &Tap2ShExConfig,
+) -> Result<Vec<ValueSetValue>, Tap2ShExError> {
     match value {
+        Value::Str(str) if !statement.value_datatype().is_empty() => statement
+            .value_datatype()
+            .iter()
+            .map(|datatype| {
+                let iri = datatype_id2iri(datatype, config)?;
+                Ok(ValueSetValue::ObjectValue(ObjectValue::datatype_literal(
+                    str,
+                    &IriRef::iri(iri),
+                )))
+            })
+            .collect(),
+        Value::Str(str) if node_types(statement).contains(&BasicNodeType::Literal) => {
+            Ok(vec![ValueSetValue::ObjectValue(ObjectValue::str(str))])
+        },
         Value::Str(str) => {
-            let iri = config.resolve_iri(str, line)?;
-            Ok(ValueSetValue::ObjectValue(ObjectValue::IriRef(IriRef::iri(iri))))
+            let iri = config.resolve_iri(str.trim(), statement.source_line_number())?;
+            Ok(vec![ValueSetValue::ObjectValue(ObjectValue::iri(iri))])
         },
-        Value::Iri(iri) => Ok(ValueSetValue::ObjectValue(ObjectValue::IriRef(IriRef::iri(
-            iri.clone(),
-        )))),
+        Value::Iri(iri) => Ok(vec![ValueSetValue::ObjectValue(ObjectValue::iri(iri.clone()))]),
     }
 }
 
-- 
2.43.0


From aa7367bb2c20b88f4df0a06dd9939b2681c882a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 085/110] fix: conversion of tabular profiles ignored the base
 of datatypes

---
 shapes_converter/src/tap_to_shex/tap2shex.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/shapes_converter/src/tap_to_shex/tap2shex.rs b/shapes_converter/src/tap_to_shex/tap2shex.rs
index 94afe06..76a3b91 100644
--- a/shapes_converter/src/tap_to_shex/tap2shex.rs
+++ b/shapes_converter/src/tap_to_shex/tap2shex.rs
@@ -14,7 +14,7 @@ use shex_ast::{
 };
 use tracing::trace;
 
-use crate::{Tap2ShExConfig, Tap2ShExError};
+use crate::{Tap2ShExConfig, Tap2ShExError, prefix_local_name};
 pub struct Tap2ShEx {
     config: Tap2ShExConfig,
 }
@@ -214,8 +214,12 @@ fn get_max(repeatable: Option<bool>) -> Option<i32> {
 // TODO: Added the following to make clippy happy...should we refactor Tap2ShExError ?
 #[allow(clippy::result_large_err)]
 fn datatype_id2iri<'a>(datatype_id: &'a DatatypeId, config: &'a Tap2ShExConfig) -> Result<IriS, Tap2ShExError> {
-    let iri = config.resolve_iri(datatype_id.str(), datatype_id.line())?;
-    Ok(iri)
+    match config.datatype_base_iri() {
+        Some(base_iri) if prefix_local_name(datatype_id.str()).is_none() => base_iri
+            .extend(datatype_id.str())
+            .map_err(|e| Tap2ShExError::IriSError { err: e }),
+        _ => config.resolve_iri(datatype_id.str(), datatype_id.line()),
+    }
 }
 
 // TODO: Added the following to make clippy happy...should we refactor Tap2ShExError ?
-- 
2.43.0


From 24b2f6b5bf5d743cf951173f4cc20f576f8665e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 086/110] fix: rows of a profile shape that another shape
 interrupts were lost

---
 dctap/src/tap_shape.rs                       | 13 +++++++
 shapes_converter/src/tap_to_shex/tap2shex.rs | 41 +++++++++++++-------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/dctap/src/tap_shape.rs b/dctap/src/tap_shape.rs
index 2e53e5c..0fbaa1a 100644
--- a/dctap/src/tap_shape.rs
+++ b/dctap/src/tap_shape.rs
@@ -78,6 +78,19 @@ impl TapShape {
         self.statements.push(statement.clone());
     }
 
+    /// Adds the contents of another group of rows with the same shape id
+    pub fn merge(&mut self, other: &TapShape) {
+        self.statements.extend(other.statements.iter().cloned());
+        for e in &other.extends {
+            if !self.extends.iter().any(|e2| e2.str() == e.str()) {
+                self.extends.push(e.clone());
+            }
+        }
+        if self.shape_label.as_ref().is_none_or(|label| label.is_empty()) {
+            self.shape_label = other.shape_label.clone();
+        }
+    }
+
     pub fn statements(&self) -> impl Iterator<Item = &TapStatement> {
         self.statements.iter()
     }
diff --git a/shapes_converter/src/tap_to_shex/tap2shex.rs b/shapes_converter/src/tap_to_shex/tap2shex.rs
index 76a3b91..7c14615 100644
--- a/shapes_converter/src/tap_to_shex/tap2shex.rs
+++ b/shapes_converter/src/tap_to_shex/tap2shex.rs
@@ -28,8 +28,17 @@ impl Tap2ShEx {
     #[allow(clippy::result_large_err)]
     pub fn convert(&self, tap: &DCTap) -> Result<Schema, Tap2ShExError> {
         let mut schema = Schema::new(&iri!("http://default/")).with_prefixmap(Some(self.config.prefixmap().clone()));
+        // The rows of a shape may be interrupted by other shapes
+        let mut tap_shapes: Vec<(IriS, TapShape)> = Vec::new();
         for tap_shape in tap.shapes() {
-            let shape_decl = tapshape_to_shape(tap_shape, &self.config)?;
+            let id = tapshape_id(tap_shape, &self.config)?;
+            match tap_shapes.iter_mut().find(|(other, _)| other == &id) {
+                Some((_, other)) => other.merge(tap_shape),
+                None => tap_shapes.push((id, tap_shape.clone())),
+            }
+        }
+        for (id, tap_shape) in tap_shapes {
+            let shape_decl = tapshape_to_shape(id, &tap_shape, &self.config)?;
             schema.add_shape_decl(&shape_decl)
         }
         Ok(schema)
@@ -38,21 +47,25 @@ impl Tap2ShEx {
 
 // TODO: Added the following to make clippy happy...should we refactor Tap2ShExError ?
 #[allow(clippy::result_large_err)]
-fn tapshape_to_shape(tap_shape: &TapShape, config: &Tap2ShExConfig) -> Result<ShapeDecl, Tap2ShExError> {
-    if let Some(shape_id) = tap_shape.shape_id() {
-        let id = shape_id2iri(&shape_id, config)?;
-        let label = ShapeExprLabel::iri(id);
-        let shape_expr = tapshape_to_shape_expr(tap_shape, config)?;
-        let mut shape = ShapeDecl::new(label, shape_expr, false);
-        if let Some(shape_label) = tap_shape.shape_label() {
-            shape.add_annotation(Annotation::rdfs_label(shape_label.as_str()))
-        }
-        Ok(shape)
-    } else {
-        Err(Tap2ShExError::NoShapeId {
+fn tapshape_id(tap_shape: &TapShape, config: &Tap2ShExConfig) -> Result<IriS, Tap2ShExError> {
+    match tap_shape.shape_id() {
+        Some(shape_id) => shape_id2iri(&shape_id, config),
+        None => Err(Tap2ShExError::NoShapeId {
             tap_shape: tap_shape.clone(),
-        })
+        }),
+    }
+}
+
+// TODO: Added the following to make clippy happy...should we refactor Tap2ShExError ?
+#[allow(clippy::result_large_err)]
+fn tapshape_to_shape(id: IriS, tap_shape: &TapShape, config: &Tap2ShExConfig) -> Result<ShapeDecl, Tap2ShExError> {
+    let label = ShapeExprLabel::iri(id);
+    let shape_expr = tapshape_to_shape_expr(tap_shape, config)?;
+    let mut shape = ShapeDecl::new(label, shape_expr, false);
+    if let Some(shape_label) = tap_shape.shape_label() {
+        shape.add_annotation(Annotation::rdfs_label(shape_label.as_str()))
     }
+    Ok(shape)
 }
 
 // TODO: Added the following to make clippy happy...should we refactor Tap2ShExError ?
-- 
2.43.0


From 356746a3d61ec1c260ceda9a9a86cde336d2f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 087/110] fix: rows of blank cells in a profile were read as
 properties

---
 dctap/src/tap_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dctap/src/tap_reader.rs b/dctap/src/tap_reader.rs
index 4162072..e064374 100644
--- a/dctap/src/tap_reader.rs
+++ b/dctap/src/tap_reader.rs
@@ -184,7 +184,7 @@ impl<R: io::Read> TapReader<R> {
 
     fn get_property_id(&mut self, rcd: &StringRecord, pos: &Position) -> Option<PropertyId> {
         if let Some(str) = self.state.headers().property_id(rcd) {
-            if str.is_empty() {
+            if str.trim().is_empty() {
                 if let Some(str_label) = self.state.headers().property_label(rcd) {
                     if str_label.is_empty() {
                         // TODO!, there is a property label and an empty property id
-- 
2.43.0


From acb1eb8c27c8976e0777b112bdee41a2dfb04eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:51 +0000
Subject: [PATCH 088/110] fix: generated data depends only on the seed when one
 is given

The seed was ignored: every value came from the thread's random generator, and the order of hash
maps decided which shapes get the remainder of an equal distribution.
---
 rudof_generate/src/field_generators/basic.rs  | 16 ++++-----
 rudof_generate/src/field_generators/mod.rs    | 36 +++++++++++++++++++
 .../src/field_generators/pattern.rs           | 13 ++++---
 rudof_generate/src/parallel_generation.rs     | 33 ++++++++++-------
 4 files changed, 70 insertions(+), 28 deletions(-)

diff --git a/rudof_generate/src/field_generators/basic.rs b/rudof_generate/src/field_generators/basic.rs
index ad31e19..e542586 100644
--- a/rudof_generate/src/field_generators/basic.rs
+++ b/rudof_generate/src/field_generators/basic.rs
@@ -17,7 +17,7 @@ pub struct StringGenerator;
 
 impl FieldGenerator for StringGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = context.rng();
 
         // Generate based on property context
         let value = if context.property.contains("name") || context.property.contains("Name") {
@@ -49,7 +49,7 @@ pub struct IntegerGenerator;
 
 impl FieldGenerator for IntegerGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = context.rng();
 
         // Get range from parameters or use defaults
         let min = context.parameters.get("min").and_then(|v| v.as_i64()).unwrap_or(-1000) as i32;
@@ -74,7 +74,7 @@ pub struct DecimalGenerator;
 
 impl FieldGenerator for DecimalGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = context.rng();
 
         let min = context.parameters.get("min").and_then(|v| v.as_f64()).unwrap_or(-500.0);
 
@@ -104,7 +104,7 @@ pub struct BooleanGenerator;
 
 impl FieldGenerator for BooleanGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = context.rng();
 
         let true_probability = context
             .parameters
@@ -130,7 +130,7 @@ pub struct DateGenerator;
 
 impl FieldGenerator for DateGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = context.rng();
 
         let start_year = context
             .parameters
@@ -165,7 +165,7 @@ pub struct DateTimeGenerator;
 
 impl FieldGenerator for DateTimeGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = context.rng();
 
         let start_year = context
             .parameters
@@ -204,8 +204,8 @@ impl FieldGenerator for DateTimeGenerator {
 pub struct UriGenerator;
 
 impl FieldGenerator for UriGenerator {
-    fn generate(&self, _context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+    fn generate(&self, context: &GenerationContext) -> Result<String> {
+        let mut rng = context.rng();
 
         let domains = [
             "example.com",
diff --git a/rudof_generate/src/field_generators/mod.rs b/rudof_generate/src/field_generators/mod.rs
index e2f4d21..90b85ac 100644
--- a/rudof_generate/src/field_generators/mod.rs
+++ b/rudof_generate/src/field_generators/mod.rs
@@ -9,9 +9,32 @@ pub use traits::{FieldGenerator, FieldGeneratorFactory};
 
 use crate::Result;
 use crate::config::{DataQuality, FieldGeneratorConfig};
+use rand::SeedableRng;
+use rand::rngs::StdRng;
 use serde_json::Value;
 use std::collections::HashMap;
 
+/// Random number generator for one decision or value.
+///
+/// With a seed it depends only on the seed and the key, never on what was generated before or on
+/// which thread asks, so that a seeded generation always gives the same data.
+pub fn keyed_rng(seed: Option<u64>, key: &[&str]) -> StdRng {
+    match seed {
+        Some(seed) => {
+            // FNV-1a
+            let mut state: u64 = 0xcbf29ce484222325;
+            let mut feed = |byte: u8| state = (state ^ u64::from(byte)).wrapping_mul(0x100000001b3);
+            seed.to_le_bytes().into_iter().for_each(&mut feed);
+            for part in key {
+                part.bytes().for_each(&mut feed);
+                feed(0xff);
+            }
+            StdRng::seed_from_u64(state)
+        },
+        None => StdRng::from_entropy(),
+    }
+}
+
 /// Context for field generation
 #[derive(Debug, Clone)]
 pub struct GenerationContext {
@@ -27,6 +50,8 @@ pub struct GenerationContext {
     pub quality: DataQuality,
     /// Locale for text generation
     pub locale: String,
+    /// Random seed of the generation, if it has to be reproducible
+    pub seed: Option<u64>,
 }
 
 impl GenerationContext {
@@ -38,9 +63,20 @@ impl GenerationContext {
             parameters: HashMap::new(),
             quality: DataQuality::Medium,
             locale: "en".to_string(),
+            seed: None,
         }
     }
 
+    pub fn with_seed(mut self, seed: Option<u64>) -> Self {
+        self.seed = seed;
+        self
+    }
+
+    /// Random number generator for the value described by this context
+    pub fn rng(&self) -> StdRng {
+        keyed_rng(self.seed, &[&self.subject, &self.property])
+    }
+
     pub fn with_quality(mut self, quality: DataQuality) -> Self {
         self.quality = quality;
         self
diff --git a/rudof_generate/src/field_generators/pattern.rs b/rudof_generate/src/field_generators/pattern.rs
index ebeed95..026edde 100644
--- a/rudof_generate/src/field_generators/pattern.rs
+++ b/rudof_generate/src/field_generators/pattern.rs
@@ -1,6 +1,7 @@
 use crate::field_generators::{FieldGenerator, GenerationContext};
 use crate::{DataGeneratorError, Result};
 use rand::Rng;
+use rand::rngs::StdRng;
 
 /// Pattern-based field generator that generates strings matching regex patterns
 pub struct PatternGenerator;
@@ -11,7 +12,7 @@ impl FieldGenerator for PatternGenerator {
         if let Some(pattern_value) = context.parameters.get("pattern")
             && let Some(pattern) = pattern_value.as_str()
         {
-            return self.generate_from_pattern(pattern);
+            return self.generate_from_pattern(pattern, &mut context.rng());
         }
 
         // Fallback to heuristic-based generation based on property name
@@ -29,12 +30,10 @@ impl FieldGenerator for PatternGenerator {
 
 impl PatternGenerator {
     /// Generate a string that matches the given regex pattern
-    fn generate_from_pattern(&self, pattern: &str) -> Result<String> {
+    fn generate_from_pattern(&self, pattern: &str, rng: &mut StdRng) -> Result<String> {
         // For now, implement common pattern matching
         // In a full implementation, you'd use a regex-to-string generation library
 
-        let mut rng = rand::thread_rng();
-
         // Handle common patterns - check international first
         if pattern.contains("\\+1-\\d{3}-\\d{3}-\\d{4}") || pattern.contains("\\+1\\-\\d{3}\\-\\d{3}\\-\\d{4}") {
             // International phone number with country code
@@ -165,11 +164,11 @@ impl PatternGenerator {
         if pattern.starts_with("^") && pattern.ends_with("$") {
             // Handle anchored patterns by removing anchors
             let inner_pattern = &pattern[1..pattern.len() - 1];
-            return self.generate_from_pattern(inner_pattern);
+            return self.generate_from_pattern(inner_pattern, rng);
         }
 
         // Generic pattern handling for simple cases
-        if let Ok(generated) = self.generate_simple_pattern(pattern, &mut rng) {
+        if let Ok(generated) = self.generate_simple_pattern(pattern, rng) {
             return Ok(generated);
         }
 
@@ -371,7 +370,7 @@ impl PatternGenerator {
 
     /// Heuristic-based generation when no pattern is available
     fn generate_heuristic(&self, context: &GenerationContext) -> Result<String> {
-        let mut rng = rand::thread_rng();
+        let mut rng = context.rng();
 
         let property_lower = context.property.to_lowercase();
 
diff --git a/rudof_generate/src/parallel_generation.rs b/rudof_generate/src/parallel_generation.rs
index ab56795..b63417b 100644
--- a/rudof_generate/src/parallel_generation.rs
+++ b/rudof_generate/src/parallel_generation.rs
@@ -1,9 +1,10 @@
 use crate::config::{CardinalityStrategy, EntityDistribution, GenerationConfig};
-use crate::field_generators::{FieldGenerationManager, GenerationContext};
+use crate::field_generators::{FieldGenerationManager, GenerationContext, keyed_rng};
 use crate::shape_processing::ShapeInfo;
 use crate::unified_constraints::UnifiedConstraint;
 use crate::{DataGeneratorError, Result};
 use oxrdf::{Literal, NamedNode, NamedOrBlankNode, Term, Triple};
+use rand::rngs::StdRng;
 use rudof_rdf::rdf_core::BuildRDF;
 use rudof_rdf::rdf_impl::OxigraphInMemory;
 use serde_json::{Value, json};
@@ -37,7 +38,9 @@ impl ParallelGenerator {
         shapes.clear();
 
         // Store the processed ShapeInfo directly
-        for shape_info in shape_infos {
+        for mut shape_info in shape_infos {
+            // In a fixed order, so that it does not influence the random choices
+            shape_info.properties.sort_by_cached_key(|p| format!("{p:?}"));
             let shape_id = shape_info.declaration.id.to_string();
             shapes.insert(shape_id, shape_info);
         }
@@ -47,9 +50,7 @@ impl ParallelGenerator {
 
     /// Generate synthetic data in parallel
     pub async fn generate_data(&self, config: &GenerationConfig) -> Result<OxigraphInMemory> {
-        // Set up random seed if provided
         if let Some(seed) = config.seed {
-            // Note: In a real implementation, you'd want to use a seeded RNG
             tracing::info!("Using random seed: {}", seed);
         }
 
@@ -106,7 +107,10 @@ impl ParallelGenerator {
                 let base_count = config.entity_count / num_shapes;
                 let remainder = config.entity_count % num_shapes;
 
-                for (i, shape_id) in shapes.keys().enumerate() {
+                // In a fixed order, so that the same shapes always get the remainder
+                let mut shape_ids: Vec<_> = shapes.keys().collect();
+                shape_ids.sort();
+                for (i, shape_id) in shape_ids.into_iter().enumerate() {
                     let count = if i < remainder { base_count + 1 } else { base_count };
                     distribution.insert(shape_id.clone(), count);
                 }
@@ -229,10 +233,10 @@ impl ParallelGenerator {
         // Generate property triples
 
         // 0. Calculate effective probability with variance for THIS instance
+        let mut rng = keyed_rng(self.config.seed, &[&entity_iri]);
         let mut variance_multiplier = 1.0;
         if config.property_count_variance > 0.0 {
             use rand::Rng;
-            let mut rng = rand::thread_rng();
             // random range [-variance, +variance]
             let variance_factor = rng.gen_range(-config.property_count_variance..=config.property_count_variance);
             variance_multiplier = 1.0 + variance_factor;
@@ -271,7 +275,6 @@ impl ParallelGenerator {
                 // Independent probability check for each candidate using effective_probability
                 for prop in candidates {
                     use rand::Rng;
-                    let mut rng = rand::thread_rng();
                     let roll: f64 = rng.r#gen();
                     if roll <= effective_probability {
                         properties_to_generate.push(prop);
@@ -299,7 +302,6 @@ impl ParallelGenerator {
                 slots_for_candidates = slots_for_candidates.min(candidates.len());
 
                 if slots_for_candidates > 0 {
-                    let mut rng = rand::thread_rng();
                     candidates.shuffle(&mut rng);
                     for slot in candidates.iter().take(slots_for_candidates) {
                         properties_to_generate.push(slot);
@@ -314,7 +316,6 @@ impl ParallelGenerator {
         // 2. Apply max_properties_per_instance limit
         if config.max_properties_per_instance > 0 && properties_to_generate.len() > config.max_properties_per_instance {
             use rand::seq::SliceRandom;
-            let mut rng = rand::thread_rng();
             properties_to_generate.shuffle(&mut rng);
             properties_to_generate.truncate(config.max_properties_per_instance);
         }
@@ -327,6 +328,7 @@ impl ParallelGenerator {
                 property_info.max_cardinality,
                 entity_index,
                 &config,
+                &mut rng,
             );
 
             // If we decided to include it but calculated 0 values (e.g. random 0..X),
@@ -362,7 +364,8 @@ impl ParallelGenerator {
                         property_info.property_iri.clone(),
                         datatype.clone(),
                         format!("{entity_iri}-{value_idx}"),
-                    );
+                    )
+                    .with_seed(self.config.seed);
 
                     // Add constraint parameters to context
                     let constraint_params = self.constraints_to_parameters(&property_info.constraints);
@@ -394,6 +397,7 @@ impl ParallelGenerator {
         max_cardinality: Option<i32>,
         entity_index: usize,
         config: &GenerationConfig,
+        rng: &mut StdRng,
     ) -> usize {
         let min_card_raw = min_cardinality.unwrap_or(1).max(0) as usize;
         // Apply ignore_min_cardinality: if true, treat min as 0
@@ -409,7 +413,6 @@ impl ParallelGenerator {
             CardinalityStrategy::Maximum => max_card,
             CardinalityStrategy::Random => {
                 use rand::Rng;
-                let mut rng = rand::thread_rng();
                 if min_card == max_card {
                     min_card
                 } else {
@@ -504,6 +507,7 @@ impl ParallelGenerator {
                 dependency.max_cardinality,
                 to_entities.len(),
                 idx,
+                &mut keyed_rng(self.config.seed, &[from_iri, &dependency.property]),
             );
 
             // Select target entities
@@ -539,6 +543,7 @@ impl ParallelGenerator {
         max_cardinality: Option<i32>,
         available_targets: usize,
         entity_index: usize,
+        rng: &mut StdRng,
     ) -> usize {
         let min_card = min_cardinality.unwrap_or(1).max(0) as usize;
         let max_card = match max_cardinality {
@@ -554,7 +559,6 @@ impl ParallelGenerator {
             CardinalityStrategy::Maximum => max_card,
             CardinalityStrategy::Random => {
                 use rand::Rng;
-                let mut rng = rand::thread_rng();
                 if min_card == max_card {
                     min_card
                 } else {
@@ -586,6 +590,7 @@ impl ParallelGenerator {
         parent_entity_index: usize,
     ) -> Result<Vec<Triple>> {
         let mut triples = Vec::new();
+        let mut rng = keyed_rng(self.config.seed, &[entity_node.as_str()]);
         let shape_id = &shape_info.declaration.id.to_string();
 
         // Add type triple for nested entity
@@ -608,6 +613,7 @@ impl ParallelGenerator {
                     property_info.max_cardinality,
                     parent_entity_index,
                     &self.config,
+                    &mut rng,
                 );
 
                 for value_idx in 0..num_values {
@@ -615,7 +621,8 @@ impl ParallelGenerator {
                         property_info.property_iri.clone(),
                         datatype.clone(),
                         format!("{}-nested-{}", entity_node.as_str(), value_idx),
-                    );
+                    )
+                    .with_seed(self.config.seed);
 
                     let literal_value = self.field_manager.generate_field(&context)?;
                     let literal_term = self.create_typed_literal(&literal_value, datatype)?;
-- 
2.43.0


From 68f4e17bd619fcb34241042f247280c2e1a8321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:22 +0000
Subject: [PATCH 089/110] fix: generated properties respect their cardinality

Properties with a shape reference got nested entities and, in addition, links to the entities of the
shape, even when excluded; minimum cardinalities above the default bounds panicked (n..=1); equal
values of a data property counted once; sh:maxCount 0 without sh:minCount got a value.
---
 rudof_generate/src/parallel_generation.rs | 336 ++++++----------------
 1 file changed, 93 insertions(+), 243 deletions(-)

diff --git a/rudof_generate/src/parallel_generation.rs b/rudof_generate/src/parallel_generation.rs
index b63417b..b2686fb 100644
--- a/rudof_generate/src/parallel_generation.rs
+++ b/rudof_generate/src/parallel_generation.rs
@@ -12,12 +12,14 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use tokio::sync::RwLock;
 
+/// How often a value is generated again when the entity already has it
+const MAX_VALUE_ATTEMPTS: usize = 100;
+
 /// Parallel data generator that creates synthetic RDF data
 pub struct ParallelGenerator {
     config: GenerationConfig,
     field_manager: FieldGenerationManager,
     shapes: Arc<RwLock<HashMap<String, ShapeInfo>>>,
-    generated_entities: Arc<RwLock<HashMap<String, Vec<String>>>>,
 }
 
 impl ParallelGenerator {
@@ -28,7 +30,6 @@ impl ParallelGenerator {
             config: config.generation.clone(),
             field_manager,
             shapes: Arc::new(RwLock::new(HashMap::new())),
-            generated_entities: Arc::new(RwLock::new(HashMap::new())),
         })
     }
 
@@ -57,19 +58,18 @@ impl ParallelGenerator {
         let mut graph = OxigraphInMemory::default();
 
         // Calculate entity distribution
-        let entity_counts = self.calculate_entity_distribution(config).await?;
+        let mut entity_counts = self.calculate_entity_distribution(config).await?;
+        self.ensure_enough_targets(&mut entity_counts).await;
+        let entity_counts = Arc::new(entity_counts);
 
         // Generate entities for each shape in parallel
         let generation_tasks: Vec<_> = entity_counts
-            .into_iter()
-            .map(|(shape_id, count)| {
+            .keys()
+            .map(|shape_id| {
                 let shapes = Arc::clone(&self.shapes);
-                let generated_entities = Arc::clone(&self.generated_entities);
+                let entity_counts = Arc::clone(&entity_counts);
 
-                async move {
-                    self.generate_entities_for_shape(&shape_id, count, shapes, generated_entities)
-                        .await
-                }
+                async move { self.generate_entities_for_shape(shape_id, shapes, entity_counts).await }
             })
             .collect();
 
@@ -86,9 +86,6 @@ impl ParallelGenerator {
             }
         }
 
-        // Generate relationships between entities
-        self.generate_relationships(&mut graph).await?;
-
         Ok(graph)
     }
 
@@ -138,14 +135,44 @@ impl ParallelGenerator {
         Ok(distribution)
     }
 
+    /// Add entities where a property needs more different targets than its shape has
+    async fn ensure_enough_targets(&self, entity_counts: &mut HashMap<String, usize>) {
+        let shapes = self.shapes.read().await;
+        loop {
+            let mut missing = Vec::new();
+            for (shape_id, shape_info) in shapes.iter() {
+                let config = self.get_effective_config(shape_id);
+                if config.ignore_min_cardinality || entity_counts.get(shape_id).is_none_or(|count| *count == 0) {
+                    continue;
+                }
+                for property in &shape_info.properties {
+                    if let (Some(target), Some(min)) = (&property.shape_ref, property.min_cardinality)
+                        && !config.excluded_properties.contains(&property.property_iri)
+                        && let Some(count) = entity_counts.get(target)
+                        && (*count as i64) < i64::from(min)
+                    {
+                        missing.push((target.clone(), min as usize));
+                    }
+                }
+            }
+            if missing.is_empty() {
+                return;
+            }
+            for (target, min) in missing {
+                let count = entity_counts.entry(target).or_default();
+                *count = min.max(*count);
+            }
+        }
+    }
+
     /// Generate entities for a specific shape
     async fn generate_entities_for_shape(
         &self,
         shape_id: &str,
-        count: usize,
         shapes: Arc<RwLock<HashMap<String, ShapeInfo>>>,
-        generated_entities: Arc<RwLock<HashMap<String, Vec<String>>>>,
+        entity_counts: Arc<HashMap<String, usize>>,
     ) -> Result<Vec<Triple>> {
+        let count = entity_counts.get(shape_id).copied().unwrap_or(0);
         let shape_info = {
             let shapes_guard = shapes.read().await;
             shapes_guard
@@ -157,32 +184,15 @@ impl ParallelGenerator {
         // Generate entities in batches for better memory usage
         let batch_size = 100;
         let mut all_triples = Vec::new();
-        let mut entity_iris = Vec::new();
 
         for batch_start in (0..count).step_by(batch_size) {
             let batch_end = (batch_start + batch_size).min(count);
 
-            // Generate entities sequentially to handle async
-            let mut batch_triples = Vec::new();
             for entity_index in batch_start..batch_end {
-                let entity_triples = self.generate_single_entity(&shape_info, entity_index).await?;
-                batch_triples.push(entity_triples);
-            }
-
-            // Collect entity IRIs and triples
-            for (i, triples) in batch_triples.into_iter().enumerate() {
-                let entity_iri = format!("{}-{}", shape_id, batch_start + i + 1);
-                entity_iris.push(entity_iri);
-                all_triples.extend(triples);
+                all_triples.extend(self.generate_single_entity(&shape_info, entity_index, &entity_counts)?);
             }
         }
 
-        // Store generated entity IRIs
-        {
-            let mut entities_guard = generated_entities.write().await;
-            entities_guard.insert(shape_id.to_string(), entity_iris);
-        }
-
         Ok(all_triples)
     }
 
@@ -214,7 +224,12 @@ impl ParallelGenerator {
     }
 
     /// Generate a single entity
-    async fn generate_single_entity(&self, shape_info: &ShapeInfo, entity_index: usize) -> Result<Vec<Triple>> {
+    fn generate_single_entity(
+        &self,
+        shape_info: &ShapeInfo,
+        entity_index: usize,
+        entity_counts: &HashMap<String, usize>,
+    ) -> Result<Vec<Triple>> {
         let mut triples = Vec::new();
         let shape_id = &shape_info.declaration.id.to_string();
         let entity_iri = format!("{}-{}", shape_id, entity_index + 1);
@@ -338,51 +353,51 @@ impl ParallelGenerator {
 
             for value_idx in 0..num_values {
                 if let Some(shape_ref) = &property_info.shape_ref {
-                    // Object property with shape reference - generate nested entity
-                    let nested_entity_iri = format!("{shape_ref}-{entity_index}-{value_idx}");
-                    let nested_entity_node = NamedNode::new_unchecked(&nested_entity_iri);
+                    // Object property with shape reference - link to the entities of that shape
+                    let target_iri = match entity_counts.get(shape_ref) {
+                        Some(&targets) if value_idx < targets => {
+                            format!("{shape_ref}-{}", (entity_index + value_idx) % targets + 1)
+                        },
+                        // There are no more entities to link to
+                        Some(_) => break,
+                        // Not a shape of the schema
+                        None => format!("{shape_ref}-{entity_index}-{value_idx}"),
+                    };
 
-                    // Add triple linking to nested entity
                     triples.push(Triple::new(
                         NamedOrBlankNode::NamedNode(entity_node.clone()),
                         NamedNode::new_unchecked(&property_info.property_iri),
-                        Term::NamedNode(nested_entity_node.clone()),
+                        Term::NamedNode(NamedNode::new_unchecked(target_iri)),
                     ));
-
-                    // Generate nested entity properties if shape is available
-                    if let Some(nested_shape_info) = self.get_shape_info(shape_ref).await {
-                        let nested_triples = self.generate_nested_entity_properties(
-                            &nested_entity_node,
-                            &nested_shape_info,
-                            entity_index,
-                        )?;
-                        triples.extend(nested_triples);
-                    }
                 } else if let Some(datatype) = &property_info.datatype {
-                    // Data property with literal value
-                    let mut context = GenerationContext::new(
-                        property_info.property_iri.clone(),
-                        datatype.clone(),
-                        format!("{entity_iri}-{value_idx}"),
-                    )
-                    .with_seed(self.config.seed);
-
-                    // Add constraint parameters to context
+                    // Data property with literal value, different from the values the entity already has:
+                    // a graph is a set, so equal values would be one value
+                    let property = NamedNode::new_unchecked(&property_info.property_iri);
                     let constraint_params = self.constraints_to_parameters(&property_info.constraints);
-                    for (key, value) in constraint_params {
-                        context.parameters.insert(key, value);
+                    for attempt in 0..MAX_VALUE_ATTEMPTS {
+                        let mut context = GenerationContext::new(
+                            property_info.property_iri.clone(),
+                            datatype.clone(),
+                            format!("{entity_iri}-{value_idx}-{attempt}"),
+                        )
+                        .with_seed(self.config.seed);
+
+                        // Add constraint parameters to context
+                        context.parameters.extend(constraint_params.clone());
+
+                        let literal_value = self.field_manager.generate_field(&context)?;
+
+                        // Create proper typed literal based on datatype
+                        let triple = Triple::new(
+                            NamedOrBlankNode::NamedNode(entity_node.clone()),
+                            property.clone(),
+                            self.create_typed_literal(&literal_value, datatype)?,
+                        );
+                        if !triples.contains(&triple) {
+                            triples.push(triple);
+                            break;
+                        }
                     }
-
-                    let literal_value = self.field_manager.generate_field(&context)?;
-
-                    // Create proper typed literal based on datatype
-                    let literal_term = self.create_typed_literal(&literal_value, datatype)?;
-
-                    triples.push(Triple::new(
-                        NamedOrBlankNode::NamedNode(entity_node.clone()),
-                        NamedNode::new_unchecked(&property_info.property_iri),
-                        literal_term,
-                    ));
                 }
             }
         }
@@ -399,13 +414,17 @@ impl ParallelGenerator {
         config: &GenerationConfig,
         rng: &mut StdRng,
     ) -> usize {
-        let min_card_raw = min_cardinality.unwrap_or(1).max(0) as usize;
+        let min_card_raw = match (min_cardinality, max_cardinality) {
+            (Some(min), _) => min.max(0) as usize,
+            (None, Some(0)) => 0,
+            (None, _) => 1,
+        };
         // Apply ignore_min_cardinality: if true, treat min as 0
         let min_card = if config.ignore_min_cardinality { 0 } else { min_card_raw };
         let max_card = match max_cardinality {
-            Some(-1) => 5, // Unbounded, but cap at reasonable limit for properties
+            Some(-1) => 5.max(min_card), // Unbounded, but cap at reasonable limit for properties
             Some(max) => (max as usize).max(min_card),
-            None => 1,
+            None => 1.max(min_card),
         };
 
         match self.config.cardinality_strategy {
@@ -470,175 +489,6 @@ impl ParallelGenerator {
         }
     }
 
-    /// Generate relationships between entities
-    async fn generate_relationships(&self, graph: &mut OxigraphInMemory) -> Result<()> {
-        let shapes = self.shapes.read().await;
-        let generated_entities = self.generated_entities.read().await;
-
-        for (shape_id, shape_info) in shapes.iter() {
-            if let Some(from_entities) = generated_entities.get(shape_id) {
-                for dependency in &shape_info.dependencies {
-                    if let Some(to_entities) = generated_entities.get(&dependency.target_shape) {
-                        self.generate_relationships_for_dependency(graph, from_entities, to_entities, dependency)?;
-                    }
-                }
-            }
-        }
-
-        Ok(())
-    }
-
-    /// Generate relationships for a specific dependency
-    fn generate_relationships_for_dependency(
-        &self,
-        graph: &mut OxigraphInMemory,
-        from_entities: &[String],
-        to_entities: &[String],
-        dependency: &crate::shape_processing::ShapeDependency,
-    ) -> Result<()> {
-        for (idx, from_iri) in from_entities.iter().enumerate() {
-            if to_entities.is_empty() {
-                continue;
-            }
-
-            // Calculate number of relationships based on cardinality strategy
-            let num_relationships = self.calculate_relationship_count(
-                dependency.min_cardinality,
-                dependency.max_cardinality,
-                to_entities.len(),
-                idx,
-                &mut keyed_rng(self.config.seed, &[from_iri, &dependency.property]),
-            );
-
-            // Select target entities
-            let mut selected_targets = Vec::new();
-            for i in 0..num_relationships {
-                let target_idx = (idx + i) % to_entities.len();
-                selected_targets.push(&to_entities[target_idx]);
-            }
-
-            // Create relationship triples
-            for to_iri in selected_targets {
-                let triple = Triple::new(
-                    NamedOrBlankNode::NamedNode(NamedNode::new_unchecked(from_iri)),
-                    NamedNode::new_unchecked(&dependency.property),
-                    Term::NamedNode(NamedNode::new_unchecked(to_iri)),
-                );
-
-                graph
-                    .add_triple(triple.subject, triple.predicate, triple.object)
-                    .map_err(|e| {
-                        DataGeneratorError::GraphGeneration(format!("Failed to add relationship triple: {e}"))
-                    })?;
-            }
-        }
-
-        Ok(())
-    }
-
-    /// Calculate the number of relationships to create based on cardinality and strategy
-    fn calculate_relationship_count(
-        &self,
-        min_cardinality: Option<i32>,
-        max_cardinality: Option<i32>,
-        available_targets: usize,
-        entity_index: usize,
-        rng: &mut StdRng,
-    ) -> usize {
-        let min_card = min_cardinality.unwrap_or(1).max(0) as usize;
-        let max_card = match max_cardinality {
-            Some(-1) => available_targets.min(20), // Unbounded, but cap at reasonable limit
-            Some(max) => (max as usize).min(available_targets),
-            None => 1.min(available_targets),
-        };
-
-        let max_card = max_card.max(min_card);
-
-        match self.config.cardinality_strategy {
-            CardinalityStrategy::Minimum => min_card,
-            CardinalityStrategy::Maximum => max_card,
-            CardinalityStrategy::Random => {
-                use rand::Rng;
-                if min_card == max_card {
-                    min_card
-                } else {
-                    rng.gen_range(min_card..=max_card)
-                }
-            },
-            CardinalityStrategy::Balanced => {
-                // Use a deterministic but varied approach based on entity index
-                if min_card == max_card {
-                    min_card
-                } else {
-                    min_card + (entity_index % (max_card - min_card + 1))
-                }
-            },
-        }
-    }
-
-    /// Get shape info by shape ID
-    async fn get_shape_info(&self, shape_id: &str) -> Option<ShapeInfo> {
-        let shapes = self.shapes.read().await;
-        shapes.get(shape_id).cloned()
-    }
-
-    /// Generate properties for nested entity
-    fn generate_nested_entity_properties(
-        &self,
-        entity_node: &NamedNode,
-        shape_info: &ShapeInfo,
-        parent_entity_index: usize,
-    ) -> Result<Vec<Triple>> {
-        let mut triples = Vec::new();
-        let mut rng = keyed_rng(self.config.seed, &[entity_node.as_str()]);
-        let shape_id = &shape_info.declaration.id.to_string();
-
-        // Add type triple for nested entity
-        triples.push(Triple::new(
-            NamedOrBlankNode::NamedNode(entity_node.clone()),
-            NamedNode::new_unchecked("http://www.w3.org/1999/02/22-rdf-syntax-ns#type"),
-            Term::NamedNode(NamedNode::new_unchecked(shape_id)),
-        ));
-
-        // Generate properties for nested entity (only data properties to avoid infinite recursion)
-        for property_info in &shape_info.properties {
-            if property_info.shape_ref.is_some() {
-                // Skip nested object properties to avoid infinite recursion
-                continue;
-            }
-
-            if let Some(datatype) = &property_info.datatype {
-                let num_values = self.calculate_property_value_count(
-                    property_info.min_cardinality,
-                    property_info.max_cardinality,
-                    parent_entity_index,
-                    &self.config,
-                    &mut rng,
-                );
-
-                for value_idx in 0..num_values {
-                    let context = GenerationContext::new(
-                        property_info.property_iri.clone(),
-                        datatype.clone(),
-                        format!("{}-nested-{}", entity_node.as_str(), value_idx),
-                    )
-                    .with_seed(self.config.seed);
-
-                    let literal_value = self.field_manager.generate_field(&context)?;
-                    let literal_term = self.create_typed_literal(&literal_value, datatype)?;
-
-                    triples.push(Triple::new(
-                        NamedOrBlankNode::NamedNode(entity_node.clone()),
-                        NamedNode::new_unchecked(&property_info.property_iri),
-                        literal_term,
-                    ));
-                }
-            }
-        }
-
-        Ok(triples)
-    }
-
     /// Convert unified constraints to generation context parameters
     fn constraints_to_parameters(&self, constraints: &[UnifiedConstraint]) -> HashMap<String, Value> {
         let mut params = HashMap::new();
-- 
2.43.0


From bcb4755fdc10f0f010fd88a3fc4717ee39aacee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:27 +0000
Subject: [PATCH 090/110] fix: weighted distributions give the requested number
 of entities

Shares were rounded one by one, and the weight of a shape without one was left out of the total.
---
 rudof_generate/src/parallel_generation.rs | 29 +++++++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/rudof_generate/src/parallel_generation.rs b/rudof_generate/src/parallel_generation.rs
index b2686fb..9790ec0 100644
--- a/rudof_generate/src/parallel_generation.rs
+++ b/rudof_generate/src/parallel_generation.rs
@@ -12,6 +12,9 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use tokio::sync::RwLock;
 
+/// Rounding error of a share of the entities
+const WEIGHT_TOLERANCE: f64 = 1e-9;
+
 /// How often a value is generated again when the entity already has it
 const MAX_VALUE_ATTEMPTS: usize = 100;
 
@@ -113,15 +116,31 @@ impl ParallelGenerator {
                 }
             },
             EntityDistribution::Weighted(weights) => {
-                let total_weight: f64 = weights.values().sum();
+                // Shapes without a weight weigh 1
+                let mut shares: Vec<(&String, f64)> = shapes
+                    .keys()
+                    .map(|shape_id| (shape_id, weights.get(shape_id).copied().unwrap_or(1.0)))
+                    .collect();
+                shares.sort_by(|(id1, _), (id2, _)| id1.cmp(id2));
+                let total_weight: f64 = shares.iter().map(|(_, weight)| weight).sum();
                 if total_weight <= 0.0 {
                     return Err(DataGeneratorError::Config("Total weight must be positive".to_string()));
                 }
 
-                for shape_id in shapes.keys() {
-                    let weight = weights.get(shape_id).unwrap_or(&1.0);
-                    let count = ((weight / total_weight) * config.entity_count as f64).round() as usize;
-                    distribution.insert(shape_id.clone(), count);
+                // Whole part of every share, then one more for the biggest remainders
+                for (_, share) in shares.iter_mut() {
+                    *share = *share / total_weight * config.entity_count as f64;
+                }
+                for (shape_id, share) in &shares {
+                    distribution.insert((*shape_id).clone(), (share + WEIGHT_TOLERANCE).floor() as usize);
+                }
+                let assigned: usize = distribution.values().sum();
+                shares.sort_by(|(id1, share1), (id2, share2)| {
+                    let fract = |share: f64| (share + WEIGHT_TOLERANCE).fract();
+                    fract(*share2).total_cmp(&fract(*share1)).then_with(|| id1.cmp(id2))
+                });
+                for (shape_id, _) in shares.iter().take(config.entity_count.saturating_sub(assigned)) {
+                    *distribution.entry((*shape_id).clone()).or_default() += 1;
                 }
             },
             EntityDistribution::Custom(custom_counts) => {
-- 
2.43.0


From 245dacca0b28fe31763bc879e1e58f82c123cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:39 +0000
Subject: [PATCH 091/110] fix: generated literals have the declared datatype

Literals of datatypes outside a short list became strings.
---
 rudof_generate/src/parallel_generation.rs | 41 +++--------------------
 1 file changed, 4 insertions(+), 37 deletions(-)

diff --git a/rudof_generate/src/parallel_generation.rs b/rudof_generate/src/parallel_generation.rs
index 9790ec0..f59b26e 100644
--- a/rudof_generate/src/parallel_generation.rs
+++ b/rudof_generate/src/parallel_generation.rs
@@ -469,43 +469,10 @@ impl ParallelGenerator {
 
     /// Create a properly typed literal based on datatype
     fn create_typed_literal(&self, value: &str, datatype: &str) -> Result<Term> {
-        match datatype {
-            "http://www.w3.org/2001/XMLSchema#string" => Ok(Term::Literal(Literal::new_typed_literal(
-                value,
-                NamedNode::new_unchecked(datatype),
-            ))),
-            "http://www.w3.org/2001/XMLSchema#integer" => Ok(Term::Literal(Literal::new_typed_literal(
-                value,
-                NamedNode::new_unchecked(datatype),
-            ))),
-            "http://www.w3.org/2001/XMLSchema#decimal" => Ok(Term::Literal(Literal::new_typed_literal(
-                value,
-                NamedNode::new_unchecked(datatype),
-            ))),
-            "http://www.w3.org/2001/XMLSchema#boolean" => Ok(Term::Literal(Literal::new_typed_literal(
-                value,
-                NamedNode::new_unchecked(datatype),
-            ))),
-            "http://www.w3.org/2001/XMLSchema#date" => Ok(Term::Literal(Literal::new_typed_literal(
-                value,
-                NamedNode::new_unchecked(datatype),
-            ))),
-            "http://www.w3.org/2001/XMLSchema#dateTime" => Ok(Term::Literal(Literal::new_typed_literal(
-                value,
-                NamedNode::new_unchecked(datatype),
-            ))),
-            "http://www.w3.org/2001/XMLSchema#anyURI" => Ok(Term::Literal(Literal::new_typed_literal(
-                value,
-                NamedNode::new_unchecked(datatype),
-            ))),
-            _ => {
-                // Default to string literal for unknown types
-                Ok(Term::Literal(Literal::new_typed_literal(
-                    value,
-                    NamedNode::new_unchecked("http://www.w3.org/2001/XMLSchema#string"),
-                )))
-            },
-        }
+        Ok(Term::Literal(Literal::new_typed_literal(
+            value,
+            NamedNode::new_unchecked(datatype),
+        )))
     }
 
     /// Convert unified constraints to generation context parameters
-- 
2.43.0


From bd3a4e20dce57b956c41a16072dd13f2b76f4276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:39 +0000
Subject: [PATCH 092/110] fix: data generation with numeric facets outside the
 default range

A minimum above (or a maximum below) the default range of the generator panicked, and integers
beyond 32 bits wrapped around.
---
 rudof_generate/src/field_generators/basic.rs | 41 ++++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/rudof_generate/src/field_generators/basic.rs b/rudof_generate/src/field_generators/basic.rs
index e542586..b468336 100644
--- a/rudof_generate/src/field_generators/basic.rs
+++ b/rudof_generate/src/field_generators/basic.rs
@@ -1,5 +1,5 @@
-use crate::Result;
 use crate::field_generators::{FieldGenerator, GenerationContext};
+use crate::{DataGeneratorError, Result};
 use rand::Rng;
 use rand::seq::SliceRandom;
 
@@ -51,10 +51,17 @@ impl FieldGenerator for IntegerGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
         let mut rng = context.rng();
 
-        // Get range from parameters or use defaults
-        let min = context.parameters.get("min").and_then(|v| v.as_i64()).unwrap_or(-1000) as i32;
-
-        let max = context.parameters.get("max").and_then(|v| v.as_i64()).unwrap_or(10000) as i32;
+        // Get range from parameters or use defaults, which must not contradict the other end of the range
+        let min_param = context.parameters.get("min").and_then(as_lower_integer);
+        let max_param = context.parameters.get("max").and_then(as_upper_integer);
+        let min = min_param.unwrap_or_else(|| max_param.map_or(-1000, |max| max.saturating_sub(1000).min(-1000)));
+        let max = max_param.unwrap_or_else(|| min.saturating_add(1000).max(10000));
+        if min > max {
+            return Err(DataGeneratorError::FieldGeneration(format!(
+                "No integer between {min} and {max} for property {}",
+                context.property
+            )));
+        }
 
         let value = rng.gen_range(min..=max);
         Ok(value.to_string())
@@ -69,6 +76,16 @@ impl FieldGenerator for IntegerGenerator {
     }
 }
 
+/// Smallest integer that is not below the value
+fn as_lower_integer(value: &serde_json::Value) -> Option<i64> {
+    value.as_i64().or_else(|| value.as_f64().map(|f| f.ceil() as i64))
+}
+
+/// Biggest integer that is not above the value
+fn as_upper_integer(value: &serde_json::Value) -> Option<i64> {
+    value.as_i64().or_else(|| value.as_f64().map(|f| f.floor() as i64))
+}
+
 /// Basic decimal generator
 pub struct DecimalGenerator;
 
@@ -76,9 +93,17 @@ impl FieldGenerator for DecimalGenerator {
     fn generate(&self, context: &GenerationContext) -> Result<String> {
         let mut rng = context.rng();
 
-        let min = context.parameters.get("min").and_then(|v| v.as_f64()).unwrap_or(-500.0);
-
-        let max = context.parameters.get("max").and_then(|v| v.as_f64()).unwrap_or(500.0);
+        // Default ends must not contradict the other end of the range
+        let min_param = context.parameters.get("min").and_then(|v| v.as_f64());
+        let max_param = context.parameters.get("max").and_then(|v| v.as_f64());
+        let min = min_param.unwrap_or_else(|| max_param.map_or(-500.0, |max| (max - 500.0).min(-500.0)));
+        let max = max_param.unwrap_or_else(|| (min + 500.0).max(500.0));
+        if min > max {
+            return Err(DataGeneratorError::FieldGeneration(format!(
+                "No decimal between {min} and {max} for property {}",
+                context.property
+            )));
+        }
 
         let precision = context
             .parameters
-- 
2.43.0


From 2d625fdd1b0dc5424dc5704c29ddeb6081282a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:51 +0000
Subject: [PATCH 093/110] fix: generate values for properties without a
 datatype

Properties with a node kind, an enumeration or no value expression got no value at all (or, in the
pipeline for ShEx files, a string), and there were only three different strings for URL properties.
---
 .../src/converters/shex_to_unified.rs         | 28 +++++++-
 .../src/field_generators/pattern.rs           |  6 +-
 rudof_generate/src/parallel_generation.rs     | 71 ++++++++++++++++---
 rudof_generate/src/shape_processing.rs        | 13 ++--
 4 files changed, 97 insertions(+), 21 deletions(-)

diff --git a/rudof_generate/src/converters/shex_to_unified.rs b/rudof_generate/src/converters/shex_to_unified.rs
index 06a7219..7ff5046 100644
--- a/rudof_generate/src/converters/shex_to_unified.rs
+++ b/rudof_generate/src/converters/shex_to_unified.rs
@@ -1,15 +1,26 @@
 use crate::conformance_metrics::TranslationMetrics;
 use crate::unified_constraints::{
-    NodeKind, UnifiedConstraint, UnifiedConstraintModel, UnifiedPropertyConstraint, UnifiedShape,
+    NodeKind, UnifiedConstraint, UnifiedConstraintModel, UnifiedPropertyConstraint, UnifiedShape, Value,
 };
 use crate::{DataGeneratorError, Result};
 use rudof_iri::IriS;
-use shex_ast::ast::{NodeConstraint, ShapeDecl, ShapeExpr, TripleExpr, XsFacet};
+use shex_ast::ast::{NodeConstraint, ObjectValue, ShapeDecl, ShapeExpr, TripleExpr, ValueSetValue, XsFacet};
 use shex_ast::compact::ShExParser;
 use std::path::Path;
 
 pub struct ShExToUnified;
 
+/// The term that a value of a value set stands for, if it stands for a single one
+fn value_set_term(value: &ValueSetValue) -> Option<Value> {
+    match value {
+        ValueSetValue::ObjectValue(ObjectValue::IriRef(iri)) => Some(Value::Iri(iri.to_string())),
+        ValueSetValue::ObjectValue(ObjectValue::Literal(lit)) if lit.lang().is_none() => {
+            Some(Value::Literal(lit.lexical_form(), Some(lit.datatype().to_string())))
+        },
+        _ => None,
+    }
+}
+
 impl Default for ShExToUnified {
     fn default() -> Self {
         Self
@@ -144,6 +155,13 @@ impl ShExToUnified {
         }
     }
 
+    /// Unified constraints of a node constraint
+    pub(crate) fn node_constraints(node_constraint: &NodeConstraint) -> Vec<UnifiedConstraint> {
+        let mut constraints = Vec::new();
+        Self.convert_node_constraint(node_constraint, &mut constraints, &mut TranslationMetrics::default());
+        constraints
+    }
+
     fn convert_node_constraint(
         &self,
         node_constraint: &NodeConstraint,
@@ -171,8 +189,12 @@ impl ShExToUnified {
         }
 
         if let Some(values) = node_constraint.values() {
-            // Value set constraints are currently not translated in this converter.
             metrics.original_schema_constraints += values.len();
+            // Only enumerations of terms are translated, not stems or languages
+            if let Some(terms) = values.iter().map(value_set_term).collect::<Option<Vec<_>>>() {
+                metrics.represented_constraints_in_unified += values.len();
+                constraints.push(UnifiedConstraint::In(terms));
+            }
         }
 
         if let Some(facets) = node_constraint.facets() {
diff --git a/rudof_generate/src/field_generators/pattern.rs b/rudof_generate/src/field_generators/pattern.rs
index 026edde..6449517 100644
--- a/rudof_generate/src/field_generators/pattern.rs
+++ b/rudof_generate/src/field_generators/pattern.rs
@@ -392,7 +392,11 @@ impl PatternGenerator {
             ))
         } else if property_lower.contains("url") || property_lower.contains("website") {
             let domains = ["example.com", "test.org", "sample.net"];
-            Ok(format!("https://{}", domains[rng.gen_range(0..domains.len())]))
+            Ok(format!(
+                "https://{}/{}",
+                domains[rng.gen_range(0..domains.len())],
+                rng.gen_range(1..10000)
+            ))
         } else if property_lower.contains("id") || property_lower.contains("identifier") {
             Ok(format!("ID{:06}", rng.gen_range(100000..999999)))
         } else {
diff --git a/rudof_generate/src/parallel_generation.rs b/rudof_generate/src/parallel_generation.rs
index f59b26e..9d5cd45 100644
--- a/rudof_generate/src/parallel_generation.rs
+++ b/rudof_generate/src/parallel_generation.rs
@@ -1,9 +1,10 @@
 use crate::config::{CardinalityStrategy, EntityDistribution, GenerationConfig};
-use crate::field_generators::{FieldGenerationManager, GenerationContext, keyed_rng};
-use crate::shape_processing::ShapeInfo;
-use crate::unified_constraints::UnifiedConstraint;
+use crate::field_generators::basic::{UriGenerator, XSD_STRING};
+use crate::field_generators::{FieldGenerationManager, FieldGenerator, GenerationContext, keyed_rng};
+use crate::shape_processing::{PropertyInfo, ShapeInfo};
+use crate::unified_constraints::{NodeKind, UnifiedConstraint};
 use crate::{DataGeneratorError, Result};
-use oxrdf::{Literal, NamedNode, NamedOrBlankNode, Term, Triple};
+use oxrdf::{BlankNode, Literal, NamedNode, NamedOrBlankNode, Term, Triple};
 use rand::rngs::StdRng;
 use rudof_rdf::rdf_core::BuildRDF;
 use rudof_rdf::rdf_impl::OxigraphInMemory;
@@ -12,6 +13,22 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use tokio::sync::RwLock;
 
+/// Term for a value of a schema, unless it is a language-tagged string, whose tag is not kept
+fn value_to_term(value: &crate::unified_constraints::Value) -> Option<Term> {
+    match value {
+        crate::unified_constraints::Value::Iri(iri) => Some(Term::NamedNode(NamedNode::new_unchecked(iri))),
+        crate::unified_constraints::Value::Literal(value, datatype) => match datatype.as_deref() {
+            None => Some(Term::Literal(Literal::new_simple_literal(value))),
+            Some("http://www.w3.org/1999/02/22-rdf-syntax-ns#langString") => None,
+            Some(datatype) => Some(Term::Literal(Literal::new_typed_literal(
+                value,
+                NamedNode::new_unchecked(datatype),
+            ))),
+        },
+        crate::unified_constraints::Value::BlankNode(_) => None,
+    }
+}
+
 /// Rounding error of a share of the entities
 const WEIGHT_TOLERANCE: f64 = 1e-9;
 
@@ -388,15 +405,15 @@ impl ParallelGenerator {
                         NamedNode::new_unchecked(&property_info.property_iri),
                         Term::NamedNode(NamedNode::new_unchecked(target_iri)),
                     ));
-                } else if let Some(datatype) = &property_info.datatype {
-                    // Data property with literal value, different from the values the entity already has:
+                } else {
+                    // Property with its own value, different from the values the entity already has:
                     // a graph is a set, so equal values would be one value
                     let property = NamedNode::new_unchecked(&property_info.property_iri);
                     let constraint_params = self.constraints_to_parameters(&property_info.constraints);
                     for attempt in 0..MAX_VALUE_ATTEMPTS {
                         let mut context = GenerationContext::new(
                             property_info.property_iri.clone(),
-                            datatype.clone(),
+                            property_info.datatype.clone().unwrap_or_else(|| XSD_STRING.to_string()),
                             format!("{entity_iri}-{value_idx}-{attempt}"),
                         )
                         .with_seed(self.config.seed);
@@ -404,13 +421,10 @@ impl ParallelGenerator {
                         // Add constraint parameters to context
                         context.parameters.extend(constraint_params.clone());
 
-                        let literal_value = self.field_manager.generate_field(&context)?;
-
-                        // Create proper typed literal based on datatype
                         let triple = Triple::new(
                             NamedOrBlankNode::NamedNode(entity_node.clone()),
                             property.clone(),
-                            self.create_typed_literal(&literal_value, datatype)?,
+                            self.generate_value(property_info, &context)?,
                         );
                         if !triples.contains(&triple) {
                             triples.push(triple);
@@ -424,6 +438,41 @@ impl ParallelGenerator {
         Ok(triples)
     }
 
+    /// Generate a value for a property: one of the values it enumerates, a literal of its datatype or a
+    /// term of its node kind
+    fn generate_value(&self, property_info: &PropertyInfo, context: &GenerationContext) -> Result<Term> {
+        use rand::seq::SliceRandom;
+        let mut rng = context.rng();
+        for constraint in &property_info.constraints {
+            match constraint {
+                UnifiedConstraint::In(values) => {
+                    let terms: Vec<Term> = values.iter().filter_map(value_to_term).collect();
+                    if let Some(term) = terms.choose(&mut rng) {
+                        return Ok(term.clone());
+                    }
+                },
+                UnifiedConstraint::NodeKind(kind) if property_info.datatype.is_none() => match kind {
+                    NodeKind::Iri | NodeKind::BlankNodeOrIri => {
+                        return Ok(Term::NamedNode(NamedNode::new_unchecked(
+                            UriGenerator.generate(context)?,
+                        )));
+                    },
+                    NodeKind::BlankNode => {
+                        use rand::Rng;
+                        return Ok(Term::BlankNode(BlankNode::new_unchecked(format!(
+                            "b{:x}",
+                            rng.r#gen::<u64>()
+                        ))));
+                    },
+                    _ => {},
+                },
+                _ => {},
+            }
+        }
+        let literal_value = self.field_manager.generate_field(context)?;
+        self.create_typed_literal(&literal_value, &context.datatype)
+    }
+
     /// Calculate how many values to generate for a property based on cardinality
     fn calculate_property_value_count(
         &self,
diff --git a/rudof_generate/src/shape_processing.rs b/rudof_generate/src/shape_processing.rs
index fc1d60b..ceebe64 100644
--- a/rudof_generate/src/shape_processing.rs
+++ b/rudof_generate/src/shape_processing.rs
@@ -177,12 +177,13 @@ impl ShapeProcessor {
                             });
                         },
                         ShapeExpr::NodeConstraint(node_constraint) => {
-                            // Extract datatype from node constraint (data property)
-                            let datatype = if let Some(dt) = node_constraint.datatype() {
-                                Some(dt.to_string())
-                            } else {
+                            // Extract datatype and constraints from node constraint (data property)
+                            let constraints = ShExToUnified::node_constraints(node_constraint);
+                            let datatype = match (node_constraint.datatype(), node_constraint.node_kind()) {
+                                (Some(dt), _) => Some(dt.to_string()),
+                                (None, Some(_)) => None,
                                 // Default to string if no datatype specified
-                                Some("http://www.w3.org/2001/XMLSchema#string".to_string())
+                                (None, None) => Some("http://www.w3.org/2001/XMLSchema#string".to_string()),
                             };
 
                             properties.push(PropertyInfo {
@@ -191,7 +192,7 @@ impl ShapeProcessor {
                                 shape_ref: None,
                                 min_cardinality: min_card,
                                 max_cardinality: max_card,
-                                constraints: vec![], // TODO: Extract constraints from node constraint
+                                constraints,
                             });
                         },
                         _ => {
-- 
2.43.0


From 947525c79ba65ed4be8cae449685b1ec94c76954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:09 +0000
Subject: [PATCH 094/110] fix: blank nodes whose label begins with a digit in
 RDF/XML

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 43 +++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index be26aeb..558551d 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -1201,14 +1201,55 @@ impl BuildRDF for OxigraphInMemory {
         }
 
         let mut writer = serializer.for_writer(write);
+        let node_ids = match format {
+            RDFFormat::Rdfxml => rdf_xml_node_ids(&self.graph),
+            _ => HashMap::new(),
+        };
         for triple in self.graph.iter() {
-            writer.serialize_triple(triple)?;
+            let rename = |bnode: &OxBlankNode| node_ids.get(bnode.as_str()).unwrap_or(bnode).clone();
+            let mut triple = triple.into_owned();
+            if let OxSubject::BlankNode(bnode) = &triple.subject {
+                triple.subject = rename(bnode).into();
+            }
+            if let OxTerm::BlankNode(bnode) = &triple.object {
+                triple.object = rename(bnode).into();
+            }
+            writer.serialize_triple(&triple)?;
         }
         writer.finish()?;
         Ok(())
     }
 }
 
+/// Returns the new labels of the blank nodes whose label cannot be an `rdf:nodeID`.
+///
+/// The labels of blank nodes can begin with a digit, but the values of `rdf:nodeID` cannot.
+fn rdf_xml_node_ids(graph: &Graph) -> HashMap<String, OxBlankNode> {
+    let mut labels: HashSet<&str> = HashSet::new();
+    for triple in graph.iter() {
+        if let OxSubjectRef::BlankNode(bnode) = triple.subject {
+            labels.insert(bnode.as_str());
+        }
+        if let TermRef::BlankNode(bnode) = triple.object {
+            labels.insert(bnode.as_str());
+        }
+    }
+    let mut prefix = "b".to_string();
+    while labels.iter().any(|label| label.starts_with(&prefix)) {
+        prefix.push('b');
+    }
+    labels
+        .iter()
+        .filter(|label| label.starts_with(|c: char| c.is_ascii_digit()))
+        .map(|label| {
+            (
+                label.to_string(),
+                OxBlankNode::new_unchecked(format!("{prefix}{label}")),
+            )
+        })
+        .collect()
+}
+
 /// Converts an RDF format enum to the Oxigraph RdfFormat type.
 ///
 /// # Parameters
-- 
2.43.0


From a95645ad6cf6e53d2f8baccf2ad5a7bc16a8658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:47 +0000
Subject: [PATCH 095/110] fix: node kinds, lists, literals and prefixes of
 constraints written in RDF

---
 shacl/src/ir/component.rs | 168 +++++++++++++++++++++++++-------------
 1 file changed, 112 insertions(+), 56 deletions(-)

diff --git a/shacl/src/ir/component.rs b/shacl/src/ir/component.rs
index 8cc2cc9..a243d2f 100644
--- a/shacl/src/ir/component.rs
+++ b/shacl/src/ir/component.rs
@@ -12,11 +12,12 @@ use crate::ir::shape_label_idx::ShapeLabelIdx;
 use crate::ir::{convert_iri_ref, convert_value};
 use crate::types::NodeKind;
 use itertools::Itertools;
+use prefixmap::{IriRef, PrefixMap};
 use rudof_iri::IriS;
 use rudof_rdf::rdf_core::BuildRDF;
 use rudof_rdf::rdf_core::term::Object;
 use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
-use rudof_rdf::rdf_core::vocabs::ShaclVocab;
+use rudof_rdf::rdf_core::vocabs::{RdfVocab, ShaclVocab};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Display, Formatter};
 
@@ -168,10 +169,14 @@ impl IRComponent {
             IRComponent::Datatype(iri) => register_iri(iri.datatype(), ShaclVocab::sh_datatype(), id, graph),
             IRComponent::NodeKind(nk) => {
                 let iri = match nk.node_kind() {
-                    NodeKind::Iri => ShaclVocab::sh_iri_ref(),
-                    _ => unimplemented!(),
+                    NodeKind::Iri => ShaclVocab::sh_iri(),
+                    NodeKind::Lit => ShaclVocab::sh_literal(),
+                    NodeKind::BNode => ShaclVocab::sh_blank_node(),
+                    NodeKind::BNodeOrIri => ShaclVocab::sh_blank_node_or_iri(),
+                    NodeKind::BNodeOrLit => ShaclVocab::sh_blank_node_or_literal(),
+                    NodeKind::IriOrLit => ShaclVocab::sh_iri_or_literal(),
                 };
-                register_iri(iri, ShaclVocab::sh_datatype(), id, graph)
+                register_iri(&iri, ShaclVocab::sh_node_kind(), id, graph)
             },
             IRComponent::MinCount(mc) => {
                 register_integer(mc.min_count() as isize, ShaclVocab::sh_min_count(), id, graph)
@@ -200,34 +205,18 @@ impl IRComponent {
                 register_literal(&ConcreteLiteral::str(p.pattern()), ShaclVocab::sh_pattern(), id, graph)
             },
             IRComponent::UniqueLang(ul) => register_boolean(ul.unique_lang(), ShaclVocab::sh_unique_lang(), id, graph),
-            IRComponent::LanguageIn(li) => li.langs().iter().try_for_each(|l| {
-                register_literal(
-                    &ConcreteLiteral::str(&l.to_string()),
-                    ShaclVocab::sh_language_in(),
-                    id,
-                    graph,
-                )
-            }),
+            IRComponent::LanguageIn(li) => {
+                let langs = li.langs().iter().map(|l| Object::str(&l.to_string()));
+                register_list(langs, ShaclVocab::sh_language_in(), id, graph)
+            },
             IRComponent::Equals(eq) => register_iri(eq.iri(), ShaclVocab::sh_equals(), id, graph),
             IRComponent::Disjoint(d) => register_iri(d.iri(), ShaclVocab::sh_disjoint(), id, graph),
             IRComponent::LessThan(lt) => register_iri(lt.iri(), ShaclVocab::sh_less_than(), id, graph),
             IRComponent::LessThanOrEquals(lte) => {
                 register_iri(lte.iri(), ShaclVocab::sh_less_than_or_equals(), id, graph)
             },
-            IRComponent::Or(or) => {
-                or.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_or(), id, graph)
-                })
-            },
-            IRComponent::And(and) => {
-                and.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_and(), id, graph)
-                })
-            },
+            IRComponent::Or(or) => register_shapes(or.shapes(), ShaclVocab::sh_or(), id, graph, shape_map),
+            IRComponent::And(and) => register_shapes(and.shapes(), ShaclVocab::sh_and(), id, graph, shape_map),
             IRComponent::Not(not) => register_term(
                 // TODO - Throw error instead of unwrap
                 &shape_map.get(not.shape()).unwrap().id().clone().into(),
@@ -235,13 +224,7 @@ impl IRComponent {
                 id,
                 graph,
             ),
-            IRComponent::Xone(xone) => {
-                xone.shapes().iter().try_for_each(|idx| {
-                    // TODO - Throw error instead of unwrap
-                    let shape = shape_map.get(idx).unwrap();
-                    register_term(&shape.id().clone().into(), ShaclVocab::sh_xone(), id, graph)
-                })
-            },
+            IRComponent::Xone(xone) => register_shapes(xone.shapes(), ShaclVocab::sh_xone(), id, graph, shape_map),
             IRComponent::Node(n) => register_term(
                 // TODO - Throw error instead of unwrap
                 &shape_map.get(n.shape()).unwrap().id().clone().into(),
@@ -249,19 +232,10 @@ impl IRComponent {
                 id,
                 graph,
             ),
-            IRComponent::HasValue(hv) => match hv.value() {
-                Object::Iri(iri) => register_iri(iri, ShaclVocab::sh_has_value(), id, graph),
-                Object::Literal(lit) => register_literal(lit, ShaclVocab::sh_has_value(), id, graph),
-                _ => unreachable!(),
-            },
-            IRComponent::In(i) => {
-                // TODO - Review this code
-                i.values().iter().try_for_each(|v| match v {
-                    Object::Iri(iri) => register_iri(iri, ShaclVocab::sh_in(), id, graph),
-                    Object::Literal(lit) => register_literal(lit, ShaclVocab::sh_in(), id, graph),
-                    _ => unreachable!(),
-                })
+            IRComponent::HasValue(hv) => {
+                register_term(&hv.value().clone().into(), ShaclVocab::sh_has_value(), id, graph)
             },
+            IRComponent::In(i) => register_list(i.values().iter().cloned(), ShaclVocab::sh_in(), id, graph),
             IRComponent::QualifiedValueShape(qvs) => {
                 if let Some(value) = qvs.qualified_min_count() {
                     register_integer(value, ShaclVocab::sh_qualified_min_count(), id, graph)?;
@@ -288,10 +262,11 @@ impl IRComponent {
             IRComponent::Closed(closed) => {
                 register_boolean(closed.is_closed(), ShaclVocab::sh_closed(), id, graph)?;
 
-                closed
-                    .ignored_properties()
-                    .iter()
-                    .try_for_each(|iri| register_iri(iri, ShaclVocab::sh_ignored_properties(), id, graph))
+                if closed.ignored_properties().is_empty() {
+                    return Ok(());
+                }
+                let properties = closed.ignored_properties().iter().cloned().map(Object::iri);
+                register_list(properties, ShaclVocab::sh_ignored_properties(), id, graph)
             },
             IRComponent::Deactivated(deactivated) => {
                 // TODO - Adapt for node expression
@@ -324,14 +299,13 @@ impl IRComponent {
                     register_boolean(deactivated, ShaclVocab::sh_deactivated(), &bn_obj, graph)?;
                 }
 
+                // Register sh:sparql bnode
+                register_term(&bn_term, ShaclVocab::sh_sparql(), id, graph)?;
+
                 if let Some(prefixes) = sparql.prefixes() {
-                    prefixes
-                        .iter()
-                        .try_for_each(|(_, iri)| register_iri(iri, ShaclVocab::sh_prefixes(), &bn_obj, graph))?;
+                    register_prefixes(prefixes, &bn_obj, graph)?;
                 }
-
-                // Register sh:sparql bnode
-                register_term(&bn_term, ShaclVocab::sh_sparql(), id, graph)
+                Ok(())
             },
         }
     }
@@ -463,7 +437,7 @@ fn register_literal<RDF: BuildRDF>(
     node: &Object,
     graph: &mut RDF,
 ) -> Result<(), IRError> {
-    let literal: RDF::Literal = value.lexical_form().into();
+    let literal: RDF::Literal = value.clone().into();
     register_term(&literal.into(), predicate, node, graph)
 }
 
@@ -471,6 +445,88 @@ fn register_iri<RDF: BuildRDF>(value: &IriS, predicate: IriS, node: &Object, gra
     register_term(&value.clone().into(), predicate, node, graph)
 }
 
+/// Registers the list of the identifiers of some shapes
+fn register_shapes<RDF: BuildRDF>(
+    shapes: &[ShapeLabelIdx],
+    predicate: IriS,
+    node: &Object,
+    graph: &mut RDF,
+    shape_map: &HashMap<ShapeLabelIdx, IRShape>,
+) -> Result<(), IRError> {
+    let ids = shapes
+        .iter()
+        .map(|idx| shape_map.get(idx).map(|shape| shape.id().clone()))
+        .collect::<Option<Vec<_>>>();
+    let ids = ids.ok_or_else(|| {
+        let missing = shapes.iter().find(|idx| !shape_map.contains_key(idx));
+        IRError::ShapeNotFound(missing.copied().unwrap_or_default())
+    })?;
+    register_list(ids.into_iter(), predicate, node, graph)
+}
+
+fn register_list<RDF: BuildRDF>(
+    values: impl DoubleEndedIterator<Item = Object>,
+    predicate: IriS,
+    node: &Object,
+    graph: &mut RDF,
+) -> Result<(), IRError> {
+    let list = list_to_rdf(values.map(Into::into), graph)?;
+    register_term(&list, predicate, node, graph)
+}
+
+/// Adds an RDF collection to the graph and returns its head
+fn list_to_rdf<RDF: BuildRDF>(
+    values: impl DoubleEndedIterator<Item = RDF::Term>,
+    graph: &mut RDF,
+) -> Result<RDF::Term, IRError> {
+    let mut rest: RDF::Term = RdfVocab::rdf_nil().into();
+    for value in values.rev() {
+        let node: RDF::Subject = graph
+            .add_bnode()
+            .map_err(|e| IRError::from_rdf_err::<RDF>("add_bnode for list", e))?
+            .into();
+        graph
+            .add_triple(node.clone(), RdfVocab::rdf_first(), value)
+            .map_err(|e| IRError::from_rdf_err::<RDF>("add rdf:first", e))?;
+        graph
+            .add_triple(node.clone(), RdfVocab::rdf_rest(), rest)
+            .map_err(|e| IRError::from_rdf_err::<RDF>("add rdf:rest", e))?;
+        rest = node.into();
+    }
+    Ok(rest)
+}
+
+/// Adds the declarations of the prefixes used by a SPARQL constraint
+fn register_prefixes<RDF: BuildRDF>(prefixes: &PrefixMap, node: &Object, graph: &mut RDF) -> Result<(), IRError> {
+    let declarations: RDF::Subject = graph
+        .add_bnode()
+        .map_err(|e| IRError::from_rdf_err::<RDF>("add_bnode for sh:prefixes", e))?
+        .into();
+    register_term(&declarations.clone().into(), ShaclVocab::sh_prefixes(), node, graph)?;
+    for (alias, iri) in prefixes.iter() {
+        let declaration: RDF::Subject = graph
+            .add_bnode()
+            .map_err(|e| IRError::from_rdf_err::<RDF>("add_bnode for sh:declare", e))?
+            .into();
+        let alias: RDF::Literal = alias.to_string().into();
+        let namespace: RDF::Literal = ConcreteLiteral::DatatypeLiteral {
+            lexical_form: iri.as_str().to_string(),
+            datatype: IriRef::iri(IriS::new_unchecked("http://www.w3.org/2001/XMLSchema#anyURI")),
+        }
+        .into();
+        graph
+            .add_triple(declaration.clone(), ShaclVocab::sh_prefix(), alias)
+            .map_err(IRError::add_triple::<RDF>)?;
+        graph
+            .add_triple(declaration.clone(), ShaclVocab::sh_namespace(), namespace)
+            .map_err(IRError::add_triple::<RDF>)?;
+        graph
+            .add_triple(declarations.clone(), ShaclVocab::sh_declare(), declaration)
+            .map_err(IRError::add_triple::<RDF>)?;
+    }
+    Ok(())
+}
+
 fn register_term<RDF: BuildRDF>(
     value: &RDF::Term,
     predicate: IriS,
-- 
2.43.0


From e1af5e85e044454a8568e49883357459e2520d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:53 +0000
Subject: [PATCH 096/110] fix: shapes with property paths, messages and
 reifiers written in RDF

---
 shacl/src/ir/component.rs      | 35 ++++++++++++++++++++++++++---
 shacl/src/ir/node_shape.rs     |  8 +++++++
 shacl/src/ir/property_shape.rs | 40 +++++++++++++++++++++++++++-------
 shacl/src/ir/schema.rs         |  6 +++++
 shacl/src/ir/shape.rs          | 13 +++++++++++
 5 files changed, 91 insertions(+), 11 deletions(-)

diff --git a/shacl/src/ir/component.rs b/shacl/src/ir/component.rs
index a243d2f..c9c6918 100644
--- a/shacl/src/ir/component.rs
+++ b/shacl/src/ir/component.rs
@@ -14,10 +14,10 @@ use crate::types::NodeKind;
 use itertools::Itertools;
 use prefixmap::{IriRef, PrefixMap};
 use rudof_iri::IriS;
-use rudof_rdf::rdf_core::BuildRDF;
 use rudof_rdf::rdf_core::term::Object;
 use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
 use rudof_rdf::rdf_core::vocabs::{RdfVocab, ShaclVocab};
+use rudof_rdf::rdf_core::{BuildRDF, SHACLPath};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Display, Formatter};
 
@@ -475,7 +475,7 @@ fn register_list<RDF: BuildRDF>(
 }
 
 /// Adds an RDF collection to the graph and returns its head
-fn list_to_rdf<RDF: BuildRDF>(
+pub(crate) fn list_to_rdf<RDF: BuildRDF>(
     values: impl DoubleEndedIterator<Item = RDF::Term>,
     graph: &mut RDF,
 ) -> Result<RDF::Term, IRError> {
@@ -496,6 +496,35 @@ fn list_to_rdf<RDF: BuildRDF>(
     Ok(rest)
 }
 
+/// Adds the nodes that describe a SHACL property path to the graph and returns its root
+pub(crate) fn path_to_rdf<RDF: BuildRDF>(path: &SHACLPath, graph: &mut RDF) -> Result<RDF::Term, IRError> {
+    let (predicate, object) = match path {
+        SHACLPath::Predicate { pred } => return Ok(pred.clone().into()),
+        SHACLPath::Sequence { paths } => return paths_to_rdf(paths, graph),
+        SHACLPath::Alternative { paths } => (ShaclVocab::sh_alternative_path(), paths_to_rdf(paths, graph)?),
+        SHACLPath::Inverse { path } => (ShaclVocab::sh_inverse_path(), path_to_rdf(path, graph)?),
+        SHACLPath::ZeroOrMore { path } => (ShaclVocab::sh_zero_or_more_path(), path_to_rdf(path, graph)?),
+        SHACLPath::OneOrMore { path } => (ShaclVocab::sh_one_or_more_path(), path_to_rdf(path, graph)?),
+        SHACLPath::ZeroOrOne { path } => (ShaclVocab::sh_zero_or_one_path(), path_to_rdf(path, graph)?),
+    };
+    let node: RDF::Subject = graph
+        .add_bnode()
+        .map_err(|e| IRError::from_rdf_err::<RDF>("add_bnode for path", e))?
+        .into();
+    graph
+        .add_triple(node.clone(), predicate, object)
+        .map_err(IRError::add_triple::<RDF>)?;
+    Ok(node.into())
+}
+
+fn paths_to_rdf<RDF: BuildRDF>(paths: &[SHACLPath], graph: &mut RDF) -> Result<RDF::Term, IRError> {
+    let terms = paths
+        .iter()
+        .map(|path| path_to_rdf(path, graph))
+        .collect::<Result<Vec<_>, _>>()?;
+    list_to_rdf(terms.into_iter(), graph)
+}
+
 /// Adds the declarations of the prefixes used by a SPARQL constraint
 fn register_prefixes<RDF: BuildRDF>(prefixes: &PrefixMap, node: &Object, graph: &mut RDF) -> Result<(), IRError> {
     let declarations: RDF::Subject = graph
@@ -527,7 +556,7 @@ fn register_prefixes<RDF: BuildRDF>(prefixes: &PrefixMap, node: &Object, graph:
     Ok(())
 }
 
-fn register_term<RDF: BuildRDF>(
+pub(crate) fn register_term<RDF: BuildRDF>(
     value: &RDF::Term,
     predicate: IriS,
     node: &Object,
diff --git a/shacl/src/ir/node_shape.rs b/shacl/src/ir/node_shape.rs
index f97cd7c..6c97c95 100644
--- a/shacl/src/ir/node_shape.rs
+++ b/shacl/src/ir/node_shape.rs
@@ -211,6 +211,14 @@ impl IRNodeShape {
             })?;
         }
 
+        if let Some(message) = &self.message {
+            message.iter_literals().try_for_each(|lit| {
+                graph
+                    .add_triple::<_, _, RDF::Literal>(id.clone(), ShaclVocab::sh_message(), lit.into())
+                    .map_err(IRError::add_triple::<RDF>)
+            })?;
+        }
+
         self.components
             .iter()
             .try_for_each(|c| c.register(&self.id, graph, shapes_map))?;
diff --git a/shacl/src/ir/property_shape.rs b/shacl/src/ir/property_shape.rs
index cbdb641..a2b9111 100644
--- a/shacl/src/ir/property_shape.rs
+++ b/shacl/src/ir/property_shape.rs
@@ -1,5 +1,5 @@
 use crate::ast::{ASTPropertyShape, ASTSchema};
-use crate::ir::component::IRComponent;
+use crate::ir::component::{IRComponent, path_to_rdf, register_term};
 use crate::ir::dg::{DependencyGraph, PosNeg};
 use crate::ir::error::IRError;
 use crate::ir::schema::IRSchema;
@@ -252,12 +252,15 @@ impl IRPropertyShape {
                 .map_err(IRError::add_triple::<RDF>)?;
         }
 
-        if let SHACLPath::Predicate { pred } = &self.path {
-            graph
-                .add_triple(id.clone(), ShaclVocab::sh_path(), pred.clone())
-                .map_err(IRError::add_triple::<RDF>)?;
-        } else {
-            unimplemented!()
+        let path = path_to_rdf(&self.path, graph)?;
+        register_term(&path, ShaclVocab::sh_path(), &self.id, graph)?;
+
+        if let Some(message) = &self.message {
+            message.iter_literals().try_for_each(|lit| {
+                graph
+                    .add_triple::<_, _, RDF::Literal>(id.clone(), ShaclVocab::sh_message(), lit.into())
+                    .map_err(IRError::add_triple::<RDF>)
+            })?;
         }
 
         self.components
@@ -270,13 +273,34 @@ impl IRPropertyShape {
             .map_err(|e| IRError::from_rdf_err::<RDF>("add target to graph", e))?;
 
         if self.deactivated {
-            let lit: RDF::Literal = "true".to_string().into();
+            let lit: RDF::Literal = ConcreteLiteral::boolean(true).into();
 
             graph
                 .add_triple(id.clone(), ShaclVocab::sh_deactivated(), lit)
                 .map_err(IRError::add_triple::<RDF>)?;
         }
 
+        for idx in &self.property_shapes {
+            let shape = shapes_map.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
+            register_term(&shape.id().clone().into(), ShaclVocab::sh_property(), &self.id, graph)?;
+        }
+
+        if let Some(reifier_info) = &self.reifier_info {
+            for idx in reifier_info.reifier_shape() {
+                let shape = shapes_map.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
+                register_term(
+                    &shape.id().clone().into(),
+                    ShaclVocab::sh_reifier_shape(),
+                    &self.id,
+                    graph,
+                )?;
+            }
+            let required: RDF::Literal = ConcreteLiteral::boolean(reifier_info.reification_required()).into();
+            graph
+                .add_triple(id.clone(), ShaclVocab::sh_reification_required(), required)
+                .map_err(IRError::add_triple::<RDF>)?;
+        }
+
         if let Some(severity) = &self.severity {
             graph
                 .add_triple::<_, _, IriS>(id.clone(), ShaclVocab::sh_severity(), severity.clone().into())
diff --git a/shacl/src/ir/schema.rs b/shacl/src/ir/schema.rs
index 8022a38..8a3b968 100644
--- a/shacl/src/ir/schema.rs
+++ b/shacl/src/ir/schema.rs
@@ -303,6 +303,12 @@ impl IRSchema {
 
         graph.add_base(&self.base().cloned());
 
+        // The identifiers of all the shapes are added first, so the blank nodes generated
+        // while the shapes are registered are different from them
+        for shape in self.shapes.values() {
+            shape.register_type(&mut graph)?;
+        }
+
         self.labels_idx_map.iter().try_for_each(|(_, idx)| {
             let shape = self.shapes.get(idx).ok_or(IRError::ShapeNotFound(*idx))?;
 
diff --git a/shacl/src/ir/shape.rs b/shacl/src/ir/shape.rs
index c1ff08f..066315b 100644
--- a/shacl/src/ir/shape.rs
+++ b/shacl/src/ir/shape.rs
@@ -10,6 +10,7 @@ use crate::ir::shape_label_idx::ShapeLabelIdx;
 use crate::types::{MessageMap, Severity, Target};
 use rudof_iri::IriS;
 use rudof_rdf::rdf_core::term::Object;
+use rudof_rdf::rdf_core::vocabs::ShaclVocab;
 use rudof_rdf::rdf_core::{BuildRDF, SHACLPath};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Display, Formatter};
@@ -148,6 +149,18 @@ impl Display for IRShape {
 }
 
 impl IRShape {
+    /// Adds the type of the shape to the graph
+    pub(crate) fn register_type<RDF: BuildRDF>(&self, graph: &mut RDF) -> Result<(), IRError> {
+        let ty = match self {
+            IRShape::NodeShape(_) => ShaclVocab::sh_node_shape(),
+            IRShape::PropertyShape(_) => ShaclVocab::sh_property_shape(),
+        };
+        let id: RDF::Subject = self.id().clone().try_into().unwrap_or_else(|_| unreachable!());
+        graph
+            .add_type(id, ty)
+            .map_err(|e| IRError::from_rdf_err::<RDF>("add type", e))
+    }
+
     pub fn register<RDF: BuildRDF>(
         &self,
         graph: &mut RDF,
-- 
2.43.0


From d672a0a15b536f24a61d7bb34dc2edece39f99a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:15 +0000
Subject: [PATCH 097/110] Revert "fix: a property graph type defined in terms
 of itself overflowed the stack"

This reverts commit 388bdafc84a970f66548f9e307b281bf8afe89c4.
---
 pgschema/src/label_property_spec.rs | 31 ++++++++---------------------
 pgschema/src/pgs_error.rs           |  3 ---
 2 files changed, 8 insertions(+), 26 deletions(-)

diff --git a/pgschema/src/label_property_spec.rs b/pgschema/src/label_property_spec.rs
index 584e381..1cd8bb8 100644
--- a/pgschema/src/label_property_spec.rs
+++ b/pgschema/src/label_property_spec.rs
@@ -56,48 +56,33 @@ impl LabelPropertySpec {
     }
 
     pub fn semantics(&self, schema: &PropertyGraphSchema) -> Result<FormalBaseType, PgsError> {
-        self.semantics_visiting(schema, &mut Vec::new())
-    }
-
-    /// `visiting` contains the names of the types that are being expanded
-    fn semantics_visiting<'a>(
-        &'a self,
-        schema: &'a PropertyGraphSchema,
-        visiting: &mut Vec<&'a TypeName>,
-    ) -> Result<FormalBaseType, PgsError> {
         match self {
             LabelPropertySpec::Empty => Ok(FormalBaseType::type_0()),
             LabelPropertySpec::Label(label) => Ok(FormalBaseType::from_label(label.clone())),
             LabelPropertySpec::Ref(type_name) => {
                 let label_property_spec = schema.get_node_semantics(type_name)?;
-                if visiting.contains(&type_name) {
-                    return Err(PgsError::RecursiveType(type_name.clone()));
-                }
-                visiting.push(type_name);
-                let result = label_property_spec.semantics_visiting(schema, visiting);
-                visiting.pop();
-                result
+                label_property_spec.semantics(schema)
             },
             LabelPropertySpec::Optional(label_property_spec) => {
-                let base_type = label_property_spec.semantics_visiting(schema, visiting)?;
+                let base_type = label_property_spec.semantics(schema)?;
                 Ok(base_type.union(&FormalBaseType::type_0()))
             },
             LabelPropertySpec::And(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics_visiting(schema, visiting)?;
-                let base_type1 = label_property_spec1.semantics_visiting(schema, visiting)?;
+                let base_type = label_property_spec.semantics(schema)?;
+                let base_type1 = label_property_spec1.semantics(schema)?;
                 Ok(base_type.combine(&base_type1))
             },
             LabelPropertySpec::Or(label_property_spec, label_property_spec1) => {
-                let base_type = label_property_spec.semantics_visiting(schema, visiting)?;
-                let base_type1 = label_property_spec1.semantics_visiting(schema, visiting)?;
+                let base_type = label_property_spec.semantics(schema)?;
+                let base_type1 = label_property_spec1.semantics(schema)?;
                 Ok(base_type.union(&base_type1))
             },
             LabelPropertySpec::Open(label_property_spec) => {
-                let base_type = label_property_spec.semantics_visiting(schema, visiting)?;
+                let base_type = label_property_spec.semantics(schema)?;
                 Ok(base_type.with_open())
             },
             LabelPropertySpec::Content(label_property_spec, property_value_spec) => {
-                let base_type = label_property_spec.semantics_visiting(schema, visiting)?;
+                let base_type = label_property_spec.semantics(schema)?;
                 let property_value_semantics = property_value_spec.semantics()?;
                 let result = base_type.combine(&property_value_semantics);
                 Ok(result)
diff --git a/pgschema/src/pgs_error.rs b/pgschema/src/pgs_error.rs
index 72c6cb9..50263a9 100644
--- a/pgschema/src/pgs_error.rs
+++ b/pgschema/src/pgs_error.rs
@@ -24,9 +24,6 @@ pub enum PgsError {
     #[error("Not found type: {0}")]
     MissingType(TypeName),
 
-    #[error("Type {0} is defined in terms of itself")]
-    RecursiveType(TypeName),
-
     #[error("Invalid regex pattern /{pattern}/: {error}")]
     InvalidRegex { pattern: String, error: String },
 
-- 
2.43.0


From 026fbbf4d711f3aebc86b0e7a9030c40399acdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:15 +0000
Subject: [PATCH 098/110] Revert "fix: the empty property list denoted no
 record instead of the empty record"

This reverts commit 7c491f8081f43edbb32998d645c9cd2867ef9ef4.
---
 pgschema/src/property_value_spec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgschema/src/property_value_spec.rs b/pgschema/src/property_value_spec.rs
index e01ad35..ba85239 100644
--- a/pgschema/src/property_value_spec.rs
+++ b/pgschema/src/property_value_spec.rs
@@ -87,7 +87,7 @@ impl PropertyValue {
                 let record = RecordType::new().with_key_value(p.str(), type_spec.to_value_type());
                 HashSet::from_iter(vec![record, RecordType::empty()])
             },
-            PropertyValue::Empty => HashSet::from([RecordType::empty()]),
+            PropertyValue::Empty => HashSet::new(),
         }
     }
 }
-- 
2.43.0


From b835ef9829490188875fd185e8b0810e2dadd984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:48 +0000
Subject: [PATCH 099/110] fix: a property graph type defined in terms of itself

---
 pgschema/src/pgs.rs       | 38 +++++++++++++++++++++++++++++++++++++-
 pgschema/src/pgs_error.rs |  3 +++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/pgschema/src/pgs.rs b/pgschema/src/pgs.rs
index 5d2733b..90d728b 100644
--- a/pgschema/src/pgs.rs
+++ b/pgschema/src/pgs.rs
@@ -4,7 +4,10 @@ use crate::{
     pgs_error::PgsError, type_name::TypeName,
 };
 use either::Either;
-use std::{collections::HashMap, fmt::Display};
+use std::{
+    collections::{HashMap, HashSet},
+    fmt::Display,
+};
 
 /// Simple representation of a property graph
 #[derive(Debug, Clone)]
@@ -46,6 +49,14 @@ impl PropertyGraphSchema {
     }
 
     pub fn get_node_semantics(&self, type_name: &str) -> Result<&LabelPropertySpec, PgsError> {
+        let spec = self.get_node_spec(type_name)?;
+        if self.depends_on(spec, type_name, &mut HashSet::new()) {
+            return Err(PgsError::RecursiveType(type_name.to_string()));
+        }
+        Ok(spec)
+    }
+
+    fn get_node_spec(&self, type_name: &str) -> Result<&LabelPropertySpec, PgsError> {
         let node_id = self.node_names.get(type_name).ok_or(PgsError::MissingNodeLabel {
             label: type_name.to_string(),
         })?;
@@ -54,6 +65,31 @@ impl PropertyGraphSchema {
             .ok_or(PgsError::MissingType(type_name.to_string()))
     }
 
+    /// Checks if a specification refers to a type, directly or through other types
+    fn depends_on<'a>(
+        &'a self,
+        spec: &'a LabelPropertySpec,
+        type_name: &str,
+        visited: &mut HashSet<&'a TypeName>,
+    ) -> bool {
+        match spec {
+            LabelPropertySpec::Empty | LabelPropertySpec::Label(_) => false,
+            LabelPropertySpec::Ref(name) => {
+                name == type_name
+                    || visited.insert(name)
+                        && self
+                            .get_node_spec(name)
+                            .is_ok_and(|spec| self.depends_on(spec, type_name, visited))
+            },
+            LabelPropertySpec::Optional(spec) | LabelPropertySpec::Open(spec) | LabelPropertySpec::Content(spec, _) => {
+                self.depends_on(spec, type_name, visited)
+            },
+            LabelPropertySpec::And(left, right) | LabelPropertySpec::Or(left, right) => {
+                self.depends_on(left, type_name, visited) || self.depends_on(right, type_name, visited)
+            },
+        }
+    }
+
     pub fn get_edge_semantics(&self, type_name: &str) -> Result<&EdgeType, PgsError> {
         let edge_id = self.edge_names.get(type_name).ok_or(PgsError::MissingEdgeLabel {
             label: type_name.to_string(),
diff --git a/pgschema/src/pgs_error.rs b/pgschema/src/pgs_error.rs
index 50263a9..72c6cb9 100644
--- a/pgschema/src/pgs_error.rs
+++ b/pgschema/src/pgs_error.rs
@@ -24,6 +24,9 @@ pub enum PgsError {
     #[error("Not found type: {0}")]
     MissingType(TypeName),
 
+    #[error("Type {0} is defined in terms of itself")]
+    RecursiveType(TypeName),
+
     #[error("Invalid regex pattern /{pattern}/: {error}")]
     InvalidRegex { pattern: String, error: String },
 
-- 
2.43.0


From d3de4dd6adf856179bfd1f1d47d1dceec253b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:19 +0000
Subject: [PATCH 100/110] fix: the content of a property graph type without
 alternatives denoted no record

---
 pgschema/src/formal_base_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgschema/src/formal_base_type.rs b/pgschema/src/formal_base_type.rs
index 2d4cf7f..0ec950f 100644
--- a/pgschema/src/formal_base_type.rs
+++ b/pgschema/src/formal_base_type.rs
@@ -99,7 +99,11 @@ impl FormalBaseType {
     }
 
     /// Adds one of the given contents to each combination of the FormalBaseType.
+    /// The content without alternatives is that of the empty property list, which adds nothing.
     pub fn with_content(self, content: HashSet<RecordType>) -> Self {
+        if content.is_empty() {
+            return self;
+        }
         self.combine(&FormalBaseType {
             bases: content
                 .into_iter()
-- 
2.43.0


From ce11e06394026964fb84050e7cae5875c764091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:29 +0000
Subject: [PATCH 101/110] fix: blank nodes of SHACL validation reports
 coincided with nodes of the data

---
 shacl/src/validator/report/mod.rs    | 46 ++++++++++++++++++++--------
 shacl/src/validator/report/result.rs | 21 +++++++++++++
 2 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/shacl/src/validator/report/mod.rs b/shacl/src/validator/report/mod.rs
index 4282186..8942018 100644
--- a/shacl/src/validator/report/mod.rs
+++ b/shacl/src/validator/report/mod.rs
@@ -2,6 +2,7 @@ use crate::types::Severity;
 use prefixmap::PrefixMap;
 use rudof_rdf::rdf_core::vocabs::ShaclVocab;
 use rudof_rdf::rdf_core::{BuildRDF, FocusRDF, Rdf};
+use std::collections::HashSet;
 use std::fmt::{Display, Formatter};
 
 mod result;
@@ -93,10 +94,15 @@ impl ValidationReport {
     pub fn to_rdf<RDF: BuildRDF + Sized>(&self, writer: &mut RDF) -> Result<(), ValidationError> {
         writer.add_prefix("sh", ShaclVocab::sh_ref());
 
-        let report_node: RDF::Subject = writer
-            .add_bnode()
-            .map_err(error_mapper::<RDF>("Error creating bnode"))?
-            .into();
+        // The blank nodes of the report must be different from the ones that it mentions
+        let mut mentioned = HashSet::new();
+        for vr in self.results.iter() {
+            mentioned.insert(vr.focus_node());
+            mentioned.extend(vr.value());
+            mentioned.extend(vr.source());
+        }
+
+        let report_node: RDF::Subject = fresh_node(writer, &mentioned)?;
         writer
             .add_type(report_node.clone(), ShaclVocab::sh_validation_report())
             .map_err(error_mapper::<RDF>("Error type ValidationReport to bnode"))?;
@@ -115,18 +121,18 @@ impl ValidationReport {
                 .add_triple(report_node.clone(), conforms, false_term)
                 .map_err(error_mapper::<RDF>("Error adding conforms to bnode"))?;
 
+            let mut result_nodes = Vec::new();
             for vr in self.results.iter() {
-                let result_node = writer
-                    .add_bnode()
-                    .map_err(error_mapper::<RDF>("Error creating bnode"))?;
-                let result_node_term: RDF::Term = result_node.into();
+                let result_node = fresh_node(writer, &mentioned)?;
                 writer
-                    .add_triple(report_node.clone(), result.clone(), result_node_term.clone())
+                    .add_triple(report_node.clone(), result.clone(), result_node.clone())
                     .map_err(error_mapper::<RDF>("Error adding result to bnode"))?;
-
-                let result_node_subject: RDF::Subject = RDF::Subject::try_from(result_node_term)
-                    .map_err(|_| ValidationError::CastError("term".to_string(), "subject".to_string()))?;
-                vr.to_rdf(writer, result_node_subject)?;
+                vr.terms_to_rdf(writer, result_node.clone())?;
+                result_nodes.push(result_node);
+            }
+            // The mentioned nodes are all in the graph now, so the nodes of the paths are different from them
+            for (vr, result_node) in self.results.iter().zip(result_nodes) {
+                vr.to_rdf(writer, result_node)?;
             }
         }
 
@@ -134,6 +140,20 @@ impl ValidationReport {
     }
 }
 
+/// Creates a blank node that is not in the graph and is not one of the given nodes
+fn fresh_node<RDF: BuildRDF>(writer: &mut RDF, mentioned: &HashSet<&Object>) -> Result<RDF::Subject, ValidationError> {
+    loop {
+        let node: RDF::Term = writer
+            .add_bnode()
+            .map_err(error_mapper::<RDF>("Error creating bnode"))?
+            .into();
+        if !RDF::term_as_object(&node).is_ok_and(|object| mentioned.contains(&object)) {
+            return RDF::Subject::try_from(node)
+                .map_err(|_| ValidationError::CastError("term".to_string(), "subject".to_string()));
+        }
+    }
+}
+
 impl Default for ValidationReport {
     fn default() -> Self {
         Self::new()
diff --git a/shacl/src/validator/report/result.rs b/shacl/src/validator/report/result.rs
index e69defc..9c4b36f 100644
--- a/shacl/src/validator/report/result.rs
+++ b/shacl/src/validator/report/result.rs
@@ -136,6 +136,27 @@ impl ValidationResult {
             .with_value(value))
     }
 
+    /// Adds the nodes of the data and shapes graphs that the result mentions
+    pub(crate) fn terms_to_rdf<RDF: BuildRDF + Sized>(
+        &self,
+        writer: &mut RDF,
+        result_node: RDF::Subject,
+    ) -> Result<(), ValidationError> {
+        let mentioned = [
+            (ShaclVocab::sh_focus_node(), Some(&self.focus_node)),
+            (ShaclVocab::sh_value(), self.value.as_ref()),
+            (ShaclVocab::sh_source_shape(), self.source.as_ref()),
+        ];
+        for (predicate, object) in mentioned {
+            if let Some(object) = object {
+                writer
+                    .add_triple(result_node.clone(), predicate, object.clone())
+                    .map_err(error_mapper::<RDF>("Error adding term to validation result"))?;
+            }
+        }
+        Ok(())
+    }
+
     pub fn to_rdf<RDF: BuildRDF + Sized>(
         &self,
         writer: &mut RDF,
-- 
2.43.0


From db2d4d80fa63d756ae400e79fffb8358ef503730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:29 +0000
Subject: [PATCH 102/110] fix: SHACL report tables had a column more in the
 header than in the rows

---
 rudof_lib/src/display/table.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rudof_lib/src/display/table.rs b/rudof_lib/src/display/table.rs
index 5dd6d60..fc894dd 100644
--- a/rudof_lib/src/display/table.rs
+++ b/rudof_lib/src/display/table.rs
@@ -43,7 +43,6 @@ impl Table for ValidationReport {
             "Path",
             "Value",
             "Source shape",
-            "Details",
         ];
         if detailed {
             header.push("Details");
-- 
2.43.0


From f8556fcb394d8355b53ea758cb58eb09b053bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:04 +0000
Subject: [PATCH 103/110] fix: the sort mode of SHACL validation results was
 ignored

---
 .../serialize_shacl_validation_results.rs     |  9 ++---
 shacl/src/validator/report/mod.rs             | 36 +++++++++++++++++++
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
index 652b86e..f22aa73 100644
--- a/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
+++ b/rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs
@@ -16,17 +16,18 @@ pub fn serialize_shacl_validation_results<W: io::Write>(
     result_shacl_validation_format: Option<&ResultShaclValidationFormat>,
     writer: &mut W,
 ) -> Result<()> {
-    let (_shacl_validation_sort_order_mode, result_shacl_validation_format) =
+    let (shacl_validation_sort_order_mode, result_shacl_validation_format) =
         init_defaults(shacl_validation_sort_order_mode, result_shacl_validation_format);
 
     let serialize_shacl_validation_results = rudof
         .shacl_validation_results
         .as_ref()
-        .ok_or(ShaclError::NoShaclValidationResultsAvailable)?;
+        .ok_or(ShaclError::NoShaclValidationResultsAvailable)?
+        .sorted(shacl_validation_sort_order_mode.into());
 
     match result_shacl_validation_format {
         ResultShaclValidationFormat::Minimal => {
-            serialize_shacl_validation_results_minimal(serialize_shacl_validation_results, writer)?;
+            serialize_shacl_validation_results_minimal(&serialize_shacl_validation_results, writer)?;
         },
         ResultShaclValidationFormat::Compact => {
             serialize_shacl_validation_results
@@ -46,7 +47,7 @@ pub fn serialize_shacl_validation_results<W: io::Write>(
         },
         _ => {
             serialize_shacl_validation_results_rdf(
-                serialize_shacl_validation_results,
+                &serialize_shacl_validation_results,
                 result_shacl_validation_format,
                 writer,
             )?;
diff --git a/shacl/src/validator/report/mod.rs b/shacl/src/validator/report/mod.rs
index 8942018..83dedc7 100644
--- a/shacl/src/validator/report/mod.rs
+++ b/shacl/src/validator/report/mod.rs
@@ -1,4 +1,5 @@
 use crate::types::Severity;
+use itertools::Itertools;
 use prefixmap::PrefixMap;
 use rudof_rdf::rdf_core::vocabs::ShaclVocab;
 use rudof_rdf::rdf_core::{BuildRDF, FocusRDF, Rdf};
@@ -57,6 +58,29 @@ impl ValidationReport {
         &self.results
     }
 
+    /// The same report with its results in the given order
+    pub fn sorted(&self, sorting: ValidationReportSorting) -> Self {
+        let mut report = self.clone();
+        let results = &mut report.results;
+        match sorting {
+            ValidationReportSorting::Node => results.sort_by(|a, b| a.focus_node().cmp(b.focus_node())),
+            ValidationReportSorting::Severity => results.sort_by_key(|r| severity_order(r.severity())),
+            ValidationReportSorting::Component => {
+                results.sort_by(|a, b| a.constraint_component().cmp(b.constraint_component()))
+            },
+            ValidationReportSorting::Source | ValidationReportSorting::Shape => {
+                results.sort_by(|a, b| a.source().cmp(&b.source()))
+            },
+            ValidationReportSorting::Path => results.sort_by_key(|r| r.path().map(|path| path.to_string())),
+            ValidationReportSorting::Value => results.sort_by(|a, b| a.value().cmp(&b.value())),
+            ValidationReportSorting::Details => results.sort_by_cached_key(|r| {
+                let messages = r.message().iter().map(|(lang, message)| format!("{message}@{lang:?}"));
+                messages.sorted().collect::<Vec<_>>()
+            }),
+        }
+        report
+    }
+
     pub fn nodes_prefixmap(&self) -> &PrefixMap {
         &self.nodes_pm
     }
@@ -140,6 +164,18 @@ impl ValidationReport {
     }
 }
 
+/// The most severe results come first
+fn severity_order(severity: &Severity) -> (u8, String) {
+    match severity {
+        Severity::Violation => (0, String::new()),
+        Severity::Warning => (1, String::new()),
+        Severity::Info => (2, String::new()),
+        Severity::Debug => (3, String::new()),
+        Severity::Trace => (4, String::new()),
+        Severity::Generic(iri) => (5, iri.to_string()),
+    }
+}
+
 /// Creates a blank node that is not in the graph and is not one of the given nodes
 fn fresh_node<RDF: BuildRDF>(writer: &mut RDF, mentioned: &HashSet<&Object>) -> Result<RDF::Subject, ValidationError> {
     loop {
-- 
2.43.0


From 5812e801638eac3ccb053b1fa050f13b15ea38df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:55 +0000
Subject: [PATCH 104/110] fix: SPARQL-based SHACL constraints pre-bind $this in
 every group of the query

The VALUES block was inserted after the first textual 'where {', so a query
without the WHERE keyword was refused, one with the text in a string, comment
or IRI had $this unbound, and filters of nested groups and branches of UNION
never saw the pre-bound values.
---
 .../constraints/sparql/basic_validator.rs     |  6 +-
 shacl/src/validator/constraints/sparql/mod.rs | 75 ++++++++++++++++---
 2 files changed, 66 insertions(+), 15 deletions(-)

diff --git a/shacl/src/validator/constraints/sparql/basic_validator.rs b/shacl/src/validator/constraints/sparql/basic_validator.rs
index b45fc76..f4987db 100644
--- a/shacl/src/validator/constraints/sparql/basic_validator.rs
+++ b/shacl/src/validator/constraints/sparql/basic_validator.rs
@@ -7,7 +7,7 @@ use crate::types::MessageMap;
 use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::sparql::{inject_values_into_where, path_to_sparql};
+use crate::validator::constraints::sparql::{inject_values_into_groups, path_to_sparql};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -71,9 +71,9 @@ impl<RDF: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<RDF> for
         let mut results = Vec::new();
 
         for (focus_node, _) in value_nodes.iter() {
-            // Bind ?this via a VALUES clause and inject it in the WHERE block
+            // Pre-bind ?this via a VALUES clause in every group of the query
             let values_clause = format!("VALUES ?this {{ {} }}", focus_node);
-            let query_body = inject_values_into_where(&select_with_path, &values_clause);
+            let query_body = inject_values_into_groups(&select_with_path, &values_clause);
             let full_query = format!("{}{}", prefix_header, query_body);
 
             let solutions = store
diff --git a/shacl/src/validator/constraints/sparql/mod.rs b/shacl/src/validator/constraints/sparql/mod.rs
index 7078d75..041ce5b 100644
--- a/shacl/src/validator/constraints/sparql/mod.rs
+++ b/shacl/src/validator/constraints/sparql/mod.rs
@@ -25,19 +25,70 @@ fn path_to_sparql(path: &SHACLPath) -> String {
     }
 }
 
+/// Adds `clause` at the beginning of every group graph pattern of `query`, nested ones included,
+/// so that the variable it binds is pre-bound wherever it occurs.
+///
+/// Braces inside comments, strings, IRIs and inline data blocks are not groups, and
+/// a sub-query receives the clause in its own groups.
 #[cfg(feature = "sparql")]
-fn inject_values_into_where(query: &str, values_clause: &str) -> String {
-    let upper = query.to_uppercase();
-    if let Some(where_pos) = upper.find("WHERE")
-        && let Some(brace_offset) = query[where_pos..].find('{')
-    {
-        let insert_at = where_pos + brace_offset + 1;
-        let mut result = query[..insert_at].to_string();
-        result.push(' ');
-        result.push_str(values_clause);
-        result.push_str(&query[insert_at..]);
-        return result;
+fn inject_values_into_groups(query: &str, clause: &str) -> String {
+    let mut result = String::with_capacity(query.len() + clause.len());
+    let mut rest = query;
+    let mut pending_group = false;
+    let mut data_block = false;
+    while let Some(c) = rest.chars().next() {
+        let len = token_len(rest, c);
+        let (token, tail) = rest.split_at(len);
+        rest = tail;
+        let skipped = c.is_whitespace() || c == '#';
+        if pending_group && !skipped {
+            if !token.eq_ignore_ascii_case("select") {
+                result.push_str(&format!(" {clause} "));
+            }
+            pending_group = false;
+        }
+        result.push_str(token);
+        if token.eq_ignore_ascii_case("values") {
+            data_block = true;
+        } else if token == "{" {
+            pending_group = !data_block;
+            data_block = false;
+        }
     }
+    result
+}
 
-    format!("{values_clause} {query}")
+/// Length in bytes of the SPARQL token (or comment, or space) with which `text` begins
+#[cfg(feature = "sparql")]
+fn token_len(text: &str, first: char) -> usize {
+    let is_name = |c: char| c.is_alphanumeric() || matches!(c, '_' | '-' | ':' | '.' | '%');
+    let end = match first {
+        '#' => text.find(['\n', '\r']),
+        '"' | '\'' => {
+            let long = [first; 3].iter().collect::<String>();
+            let quote = if text.starts_with(&long) {
+                long
+            } else {
+                first.to_string()
+            };
+            let mut pos = quote.len();
+            while pos < text.len() && !text[pos..].starts_with(&quote) {
+                let escaped = if text[pos..].starts_with('\\') { 1 } else { 0 };
+                pos += text[pos..].chars().take(1 + escaped).map(char::len_utf8).sum::<usize>();
+            }
+            Some((pos + quote.len()).min(text.len()))
+        },
+        '<' => {
+            let end = text[1..]
+                .find(|c: char| c <= ' ' || "<>\"{}|^`\\".contains(c))
+                .map(|i| i + 1);
+            Some(end.filter(|i| text[*i..].starts_with('>')).unwrap_or(0) + 1)
+        },
+        // An annotation block is not a group
+        '{' if text.starts_with("{|") => Some(2),
+        '?' | '$' => text[1..].find(|c| !is_name(c)).map(|i| i + 1),
+        c if is_name(c) => text.find(|c| !is_name(c)),
+        c => Some(c.len_utf8()),
+    };
+    end.unwrap_or(text.len())
 }
-- 
2.43.0


From c6df86422fc43da8ab7005eb7b8578b99b81d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:41 +0000
Subject: [PATCH 105/110] fix: generated decimals could be rounded out of the
 range of their property

---
 rudof_generate/src/field_generators/basic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rudof_generate/src/field_generators/basic.rs b/rudof_generate/src/field_generators/basic.rs
index b468336..7573bb1 100644
--- a/rudof_generate/src/field_generators/basic.rs
+++ b/rudof_generate/src/field_generators/basic.rs
@@ -112,7 +112,12 @@ impl FieldGenerator for DecimalGenerator {
             .unwrap_or(2) as usize;
 
         let value = rng.gen_range(min..=max);
-        Ok(format!("{value:.precision$}"))
+        let rounded = format!("{value:.precision$}");
+        // Rounding must not leave the range
+        match rounded.parse::<f64>() {
+            Ok(r) if (min..=max).contains(&r) => Ok(rounded),
+            _ => Ok(value.to_string()),
+        }
     }
 
     fn name(&self) -> &str {
-- 
2.43.0


From 567894e88678cc8a78f627a8c22be3420d29f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:34 +0000
Subject: [PATCH 106/110] fix: materializing a recursive schema is an error
 instead of a stack overflow

---
 shex_ast/src/materialize/materializer.rs | 57 +++++++++++++++++++-----
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/shex_ast/src/materialize/materializer.rs b/shex_ast/src/materialize/materializer.rs
index 419033a..1ae6c33 100644
--- a/shex_ast/src/materialize/materializer.rs
+++ b/shex_ast/src/materialize/materializer.rs
@@ -17,6 +17,9 @@ pub enum MaterializeError {
     #[error("Shape not found for label: {label}")]
     ShapeNotFound { label: String },
 
+    #[error("Cannot materialize the recursive shape: {label}")]
+    RecursiveShape { label: String },
+
     #[error("Cannot use node as RDF subject: {node}")]
     NodeNotSubject { node: String },
 
@@ -92,7 +95,7 @@ impl Materializer {
         };
 
         let start = self.find_start_shape_expr(schema)?;
-        self.generate_shape_expr::<G>(&start, subject, schema, map_state, &mut graph)?;
+        self.generate_shape_expr::<G>(&start, subject, schema, map_state, &mut graph, &mut Vec::new())?;
 
         Ok(graph)
     }
@@ -133,6 +136,7 @@ impl Materializer {
         schema: &Schema,
         map_state: &MapState,
         graph: &mut G,
+        path: &mut Vec<ShapeExprLabel>,
     ) -> Result<(), MaterializeError>
     where
         G: BuildRDF,
@@ -144,16 +148,44 @@ impl Materializer {
         G::Err: std::fmt::Display,
     {
         match shape_expr {
-            ShapeExpr::Shape(shape) => self.generate_shape::<G>(shape, subject, schema, map_state, graph),
-            ShapeExpr::Ref(label) => {
-                let target = self.find_shape_by_label(label, schema)?;
-                self.generate_shape_expr::<G>(&target, subject, schema, map_state, graph)
-            },
+            ShapeExpr::Shape(shape) => self.generate_shape::<G>(shape, subject, schema, map_state, graph, path),
+            ShapeExpr::Ref(label) => self.generate_shape_ref::<G>(label, subject, schema, map_state, graph, path),
             // ShapeAnd / ShapeOr / NodeConstraint / External not handled for basic materialization
             _ => Ok(()),
         }
     }
 
+    fn generate_shape_ref<G>(
+        &self,
+        label: &ShapeExprLabel,
+        subject: G::Subject,
+        schema: &Schema,
+        map_state: &MapState,
+        graph: &mut G,
+        path: &mut Vec<ShapeExprLabel>,
+    ) -> Result<(), MaterializeError>
+    where
+        G: BuildRDF,
+        G::BNode: Clone,
+        G::Subject: TryFrom<rudof_rdf::rdf_core::term::Object>,
+        G::Term: From<rudof_rdf::rdf_core::term::Object> + From<G::BNode>,
+        G::IRI: From<IriS>,
+        G::Subject: From<G::BNode>,
+        G::Err: std::fmt::Display,
+    {
+        // `path` contains the shapes being generated: following one of them again would never end
+        if path.contains(label) {
+            return Err(MaterializeError::RecursiveShape {
+                label: format!("{label:?}"),
+            });
+        }
+        let target = self.find_shape_by_label(label, schema)?;
+        path.push(label.clone());
+        let result = self.generate_shape_expr::<G>(&target, subject, schema, map_state, graph, path);
+        path.pop();
+        result
+    }
+
     fn generate_shape<G>(
         &self,
         shape: &crate::ast::Shape,
@@ -161,6 +193,7 @@ impl Materializer {
         schema: &Schema,
         map_state: &MapState,
         graph: &mut G,
+        path: &mut Vec<ShapeExprLabel>,
     ) -> Result<(), MaterializeError>
     where
         G: BuildRDF,
@@ -172,7 +205,7 @@ impl Materializer {
         G::Err: std::fmt::Display,
     {
         if let Some(expr_wrapper) = &shape.expression {
-            self.generate_triple_expr::<G>(&expr_wrapper.te, subject, schema, map_state, graph)?;
+            self.generate_triple_expr::<G>(&expr_wrapper.te, subject, schema, map_state, graph, path)?;
         }
         Ok(())
     }
@@ -184,6 +217,7 @@ impl Materializer {
         schema: &Schema,
         map_state: &MapState,
         graph: &mut G,
+        path: &mut Vec<ShapeExprLabel>,
     ) -> Result<(), MaterializeError>
     where
         G: BuildRDF,
@@ -197,12 +231,12 @@ impl Materializer {
         match triple_expr {
             TripleExpr::EachOf { expressions, .. } => {
                 for wrapper in expressions {
-                    self.generate_triple_expr::<G>(&wrapper.te, subject.clone(), schema, map_state, graph)?;
+                    self.generate_triple_expr::<G>(&wrapper.te, subject.clone(), schema, map_state, graph, path)?;
                 }
             },
             TripleExpr::OneOf { expressions, .. } => {
                 for wrapper in expressions {
-                    self.generate_triple_expr::<G>(&wrapper.te, subject.clone(), schema, map_state, graph)?;
+                    self.generate_triple_expr::<G>(&wrapper.te, subject.clone(), schema, map_state, graph, path)?;
                 }
             },
             TripleExpr::TripleConstraint {
@@ -225,8 +259,7 @@ impl Materializer {
                         graph
                             .add_triple(subject.clone(), pred, bnode_term)
                             .map_err(|e| MaterializeError::RdfError { error: e.to_string() })?;
-                        let target = self.find_shape_by_label(label, schema)?;
-                        self.generate_shape_expr::<G>(&target, bnode_subject, schema, map_state, graph)?;
+                        self.generate_shape_ref::<G>(label, bnode_subject, schema, map_state, graph, path)?;
                     },
                     // Inline shape → create fresh blank node and recurse
                     Some(ShapeExpr::Shape(inline_shape)) => {
@@ -238,7 +271,7 @@ impl Materializer {
                         graph
                             .add_triple(subject.clone(), pred, bnode_term)
                             .map_err(|e| MaterializeError::RdfError { error: e.to_string() })?;
-                        self.generate_shape::<G>(inline_shape, bnode_subject, schema, map_state, graph)?;
+                        self.generate_shape::<G>(inline_shape, bnode_subject, schema, map_state, graph, path)?;
                     },
                     // Leaf node → apply Map semantic actions
                     _ => {
-- 
2.43.0


From dea9c50836fad380e2f5e609039fec73c127e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:34 +0000
Subject: [PATCH 107/110] fix: semantic actions are run only for values which
 satisfy the value expression

---
 shex_ast/src/ir/ast2ir.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 178cb06..0c8dee1 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -657,7 +657,7 @@ impl AST2IR {
         source_iri: &IriS,
         base: &Option<IriS>,
     ) -> CResult<(Cond, String)> {
-        let mut sem_actions_conds = self.sem_acts_to_conds(actions)?;
+        let sem_actions_conds = self.sem_acts_to_conds(actions)?;
         let (cond, display) = if let Some(se) = value_expr.as_deref() {
             match se {
                 ast::ShapeExpr::NodeConstraint(nc) => self.cnv_node_constraint(
@@ -745,9 +745,11 @@ impl AST2IR {
             ))
         }?;
         if !sem_actions_conds.is_empty() {
-            sem_actions_conds.push(cond);
+            // The actions are run only for values which satisfy the value expression
+            let mut conds = vec![cond];
+            conds.extend(sem_actions_conds);
             Ok((
-                MatchCond::and(sem_actions_conds),
+                MatchCond::and(conds),
                 format!("value expression {} + semantic actions", display),
             ))
         } else {
-- 
2.43.0


From d42b0da382e214b3604cb7ddb21299114d368209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:34 +0000
Subject: [PATCH 108/110] fix: variables of Map actions can be prefixed names

---
 shex_ast/src/ir/ast2ir.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 0c8dee1..e12c85f 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -29,6 +29,8 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use tracing::{info, trace};
 
+const MAP_EXTENSION_IRI: &str = "http://shex.io/extensions/Map/";
+
 #[derive(Debug, Default)]
 /// AST2IR compile a Schema in AST (JSON) to IR (Intermediate Representation).
 pub struct AST2IR {
@@ -601,7 +603,16 @@ impl AST2IR {
 
     fn cnv_sem_action(&self, sem_act: &ast::SemAct, prefixmap: &PrefixMap) -> CResult<SemAct> {
         let iri_s = cnv_iri_ref(&sem_act.name(), prefixmap)?;
-        Ok(SemAct::new(iri_s, sem_act.code()))
+        let mut code = sem_act.code();
+        // The variable of a Map action can be a prefixed name, which depends on the prefixes of the schema
+        if iri_s.as_str() == MAP_EXTENSION_IRI
+            && let Some(variable) = code.as_deref().map(str::trim)
+            && !variable.starts_with('<')
+            && let Ok(iri) = prefixmap.resolve(variable)
+        {
+            code = Some(format!("<{}>", iri.as_str()));
+        }
+        Ok(SemAct::new(iri_s, code))
     }
 
     fn cnv_predicate(predicate: &IriRef, inverse: &Option<bool>) -> CResult<Pred> {
-- 
2.43.0


From 6bc01e7b0a6fefab11f53b6182c7e5d5f739143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:56 +0000
Subject: [PATCH 109/110] fix: boolean literals of saved map states can be
 loaded

---
 .../src/rdf_core/term/literal/literal.rs      | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index de93079..067d963 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -12,7 +12,7 @@ use std::{
 use crate::rdf_core::vocabs::{RdfVocab, XsdVocab};
 use prefixmap::{DerefError, DerefIri, IriRef, PrefixMap};
 use rudof_iri::IriS;
-use serde::{Deserialize, Serialize, Serializer};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
 /// Types that implement this trait can be used as RDF Literals.
 ///
@@ -170,7 +170,10 @@ pub enum ConcreteLiteral {
     DatetimeLiteral(XsdDateTime),
 
     /// A boolean literal (true or false).
-    #[serde(serialize_with = "serialize_boolean_literal")]
+    #[serde(
+        serialize_with = "serialize_boolean_literal",
+        deserialize_with = "deserialize_boolean_literal"
+    )]
     BooleanLiteral(bool),
 
     /// Represents a literal with an invalid datatype.
@@ -1218,6 +1221,20 @@ where
     serializer.serialize_str(if *value { "true" } else { "false" })
 }
 
+/// Deserializes a boolean literal written by [`serialize_boolean_literal`].
+fn deserialize_boolean_literal<'de, D>(deserializer: D) -> result::Result<bool, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    match String::deserialize(deserializer)?.as_str() {
+        "true" => Ok(true),
+        "false" => Ok(false),
+        other => Err(serde::de::Error::custom(format!(
+            "Expected true or false, found {other}"
+        ))),
+    }
+}
+
 /// Validates a literal's lexical form against its declared datatype.
 ///
 /// Returns a properly typed literal if validation succeeds, or a
-- 
2.43.0


From 63ab32bb086260469fda2576290ff1b2ba3b5688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:08 +0000
Subject: [PATCH 110/110] fix: CONSTRUCT results of in-memory data ignored the
 requested format

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 29 ++++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 558551d..831ac62 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -1434,7 +1434,7 @@ fn cnv_triple(t: &OxTriple) -> TripleRef<'_> {
 
 #[cfg(feature = "sparql")]
 impl QueryRDF for OxigraphInMemory {
-    fn query_construct(&self, query_str: &str, _format: &QueryResultFormat) -> Result<String, OxigraphInMemoryError>
+    fn query_construct(&self, query_str: &str, format: &QueryResultFormat) -> Result<String, OxigraphInMemoryError>
     where
         Self: Sized,
     {
@@ -1456,14 +1456,10 @@ impl QueryRDF for OxigraphInMemory {
                 msg: format!("Error executing query: {e}"),
             })?;
 
-        // Serialize CONSTRUCT output as Turtle. The QueryResultFormat parameter
-        // is forwarded by the trait but Oxigraph's CONSTRUCT path emits triples,
-        // not solutions, so we pin the wire format here.
         match results {
             QueryResults::Graph(triples) => {
-                use oxrdfio::{RdfFormat, RdfSerializer};
                 let mut buffer = Vec::new();
-                let mut writer = RdfSerializer::from_format(RdfFormat::Turtle).for_writer(&mut buffer);
+                let mut writer = RdfSerializer::from_format(cnv_construct_format(format)).for_writer(&mut buffer);
                 for triple in triples {
                     let triple = triple.map_err(|e| OxigraphInMemoryError::RunningQueryError {
                         query: query_str.to_string(),
@@ -1544,6 +1540,27 @@ impl QueryRDF for OxigraphInMemory {
     }
 }
 
+/// The RDF format in which the triples of a CONSTRUCT query are written.
+///
+/// The formats for tables of solutions (JSON, CSV and Markdown) do not apply to
+/// triples, which are written as Turtle in that case.
+#[cfg(feature = "sparql")]
+fn cnv_construct_format(format: &QueryResultFormat) -> RdfFormat {
+    match format {
+        QueryResultFormat::Turtle | QueryResultFormat::Json | QueryResultFormat::Csv | QueryResultFormat::Markdown => {
+            RdfFormat::Turtle
+        },
+        QueryResultFormat::NTriples => RdfFormat::NTriples,
+        QueryResultFormat::JsonLd => RdfFormat::JsonLd {
+            profile: JsonLdProfileSet::empty(),
+        },
+        QueryResultFormat::RdfXml => RdfFormat::RdfXml,
+        QueryResultFormat::TriG => RdfFormat::TriG,
+        QueryResultFormat::N3 => RdfFormat::N3,
+        QueryResultFormat::NQuads => RdfFormat::NQuads,
+    }
+}
+
 /// Converts Oxigraph query results to internal query solutions.
 ///
 /// # Parameters
-- 
2.43.0

